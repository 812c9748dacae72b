// Self-test of the engine: run "python3 run.py SELF"; every label must be reached.
#include "sx.h"
#include <string>
#include <string.h>
using S = std::string;
static S text(const char *what, int n) { S s(n, 'x'); if (n) sx_bytes(&s[0], n, what); return s; }
SX_TEST(find3) { S s = text("f", 3); if (s.find("-a") == 1) sx_reach("find3"); }
SX_TEST(find5) { S s = text("f", 5); if (s.find("-tag") == 1) sx_reach("find5"); }
SX_TEST(findx) { S s = "x" + text("f", 4); if (s.find("-tag") == 1) sx_reach("findx"); }
SX_TEST(findy) { S s = "x" + text("f", 4); if (s.find("-t") == 1) sx_reach("findy"); }
SX_TEST(bc) { S s = text("f", 4); if (bcmp(s.data(), "-tag", 4) == 0) sx_reach("bc"); }
SX_TEST(mc) { S s = text("f", 4); if (memchr(s.data(), '-', 3) == s.data() + 2) sx_reach("mc"); }
SX_TEST(bcx) { S s = "x" + text("f", 4); if (bcmp(s.data() + 1, "-tag", 4) == 0) sx_reach("bcx"); }
