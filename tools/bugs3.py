from mkbug import *
mk("c11-offset-32bit", "C11", [("src/Runtime/OMExternalConstant.c", "  outputAddr[0] = (char *)baseAddr[0] + offset;", "  int delta = offset;\n  outputAddr[0] = (char *)baseAddr[0] + delta;")],
 "a constant that lies more than 2 GB into the constant file", "the address of the constant is truncated", {"demo.sh": cdemo("src/Runtime/OMExternalConstant.c"), "demo.c": """
#include <stdint.h>
void omGetExternalConstantAddr(void **, void **, int64_t);
int main() { void *o = 0, *b = (void *)4096; omGetExternalConstantAddr(&o, &b, 5000000000ll); return (uintptr_t)o != 5000004096ull; }
"""})
mk("c11-close-on-failure", "C11", [("src/Runtime/OMExternalConstant.c", """  if (failed) {
    fprintf(stderr, "Error while loading the constant file %s\\n", filePath);
  }
""", """  if (failed) {
    fprintf(stderr, "Error while loading the constant file %s\\n", filePath);
    if (!basePath)
      return false;
  }
""")],
 "loading fails after the file was opened while OM_CONSTANT_PATH is not set", "the file descriptor is leaked", {"demo.sh": cdemo("src/Runtime/OMExternalConstant.c"), "demo.c": """
#include <stdint.h>
#include <stdbool.h>
#include <stdio.h>
#include <fcntl.h>
#include <unistd.h>
bool omLoadConstantData(void **, char *, int64_t, int64_t);
int main() { FILE *f = fopen("empty.bin", "w"); fclose(f); int a = open("empty.bin", O_RDONLY); close(a); void *p = 0;
  if (omLoadConstantData(&p, "empty.bin", 8, 1)) return 1; int b = open("empty.bin", O_RDONLY); return a != b; }
"""})
