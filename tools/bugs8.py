from mkbug import *
CU = "src/Compiler/CommandUtils.cpp"
CPPD = """#!/bin/bash
set -e
D=$(cd "$(dirname "$0")" && pwd); W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
g++ -std=c++17 -O1 -w -I include -I . "$D/demo.cpp" %s -o "$W/demo" -lpthread -ldl
cd "$W" && timeout 60 ./demo
"""
H = """#include "src/Compiler/CommandUtils.hpp"
#include <cstdio>
using namespace onnx_mlir; using S = std::string; using V = std::vector<S>;
"""
def m(id, edits, needs, breaks, body): mk(id, "C17", [(CU, o, n) for o, n in edits], needs, breaks, {"demo.sh": CPPD % CU, "demo.cpp": H + body})
if __name__ == "__main__":
  m("c17-escape-in-quotes", [("    if (c == '\\\\') {", "    if (c == '\\\\' && !(inSingleQuote && i + 1 < flags.length() && flags[i + 1] != '\\'' && flags[i + 1] != '\\\\')) {")],
   "a backslash before an ordinary character inside single quotes", "the backslash stays in the word",
"""int main() { V v = parseFlags("-o 'a\\\\ b' -O3"); return !(v.size() == 3 && v[1] == "a b"); }
""") if 0 else None
  m("c17-split-after-quote", [("      inDoubleQuote = !inDoubleQuote;\n      continue;", "      inDoubleQuote = !inDoubleQuote;\n      // A closing quote followed by an opening one starts a new word.\n      if (!inDoubleQuote && !current.empty() && i + 1 < flags.length() &&\n          flags[i + 1] == '\"') {\n        flagVect.push_back(current);\n        current.clear();\n      }\n      continue;")],
   "two double-quoted parts that touch within one word", "the word is split in two",
"""int main() { V v = parseFlags("--tag=\\"a b\\"\\"c\\" -O3"); return !(v.size() == 2 && v[0] == "--tag=a bc"); }
""")
  m("c17-dotted-output", [("        fs::path newPath = fs::path(outputPath) / p.filename();\n        flagVect[i + 1] = newPath.string();", "        fs::path newPath = fs::path(outputPath) / p.stem();\n        flagVect[i + 1] = newPath.string();")],
   "an output directory and an output name with a dot, given as -o NAME", "the part of the output name after the dot is lost",
"""int main() { V v = {"-o", "net.v2"}; applyOutputPath(v, "out", "m.onnx"); return v[1] != "out/net.v2"; }
""")
  m("c17-tag-anywhere", [("    if (flagVect[i].find(\"-tag=\") == 0) {\n      modelTag = flagVect[i].substr(5);", "    size_t pos = flagVect[i].find(\"-tag=\");\n    if (pos != std::string::npos && pos <= 1) {\n      modelTag = flagVect[i].substr(pos + 5);")],
   "a word that is no option but has -tag= after its first character", "a word such as x-tag=y is taken for the tag",
"""int main() { V v = {"m-tag=a.onnx", "--tag=b"}; return getModelTag(v) != "b"; }
""")
