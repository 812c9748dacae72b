from mkbug import *
OM = "src/Compiler/OMCompile.cpp"
DEMO = """#!/bin/bash
# Compiles the demonstration and runs it in a scratch directory with stand-ins
# for the compiler and the container engine in its PATH.
set -e
D=$(cd "$(dirname "$0")" && pwd); W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
g++ -std=c++17 -O1 -w -I include -I . "$D/demo.cpp" src/Compiler/OMCompile.cpp src/Compiler/Command.cpp src/Compiler/CommandUtils.cpp -o "$W/demo" -lpthread -ldl
mkdir "$W/bin" "$W/w" "$W/w/a" "$W/w/ab"
cp "$D"/fake-* "$W/bin/"; chmod +x "$W"/bin/*
for f in "$W"/bin/fake-*; do mv "$f" "$W/bin/${f##*/fake-}"; done
cd "$W/w" && env -u OM_DOCKER_HOST_PATH_PREFIX PATH="$W/bin:$PATH" timeout 60 ../demo
"""
H = """#include "src/Compiler/OMCompile.hpp"
#include <fstream>
#include <sstream>
#include <cstdlib>
#include <filesystem>
using namespace onnx_mlir; using S = std::string; namespace fs = std::filesystem;
static S slurp(const char *f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }
static void touch(const char *f) { std::ofstream o(f); }
"""
# compiler: fails when told so, else makes NAME.so (and NAME.constants.bin for c.onnx)
OMX = """#!/bin/bash
[ "$1" = --fail ] && exit 4
for a; do case "$a" in *.onnx) b=${a%.onnx};; esac; done
touch "$b.so"; case "$b" in *c) touch "$b.constants.bin";; esac
"""
# docker: records its run command line, and creates the outputs it can see
DOCKER = """#!/bin/bash
[ "$1" = run ] || exit 0
printf '%s\\n' "$@" > run.txt
for a; do last=$a; done
touch m.so ab/n.so a/n.so
"""
def m(id, edits, needs, breaks, body): mk(id, "C19", [(OM, o, n) for o, n in edits], needs, breaks, {"demo.sh": DEMO, "demo.cpp": H + body, "fake-onnx-mlir": OMX, "fake-docker": DOCKER})
m("c19-stale-constants", [("  outputFilename = {};\n  outputConstantFilename = {};\n", "  outputFilename = {};\n")],
 "a compilation without constant file after one with, in the same session", "the constant file of the earlier model is reported",
"""int main() { touch("c.onnx"); touch("m.onnx"); OMCompile s; s.compile("c.onnx", "-O3"); if (!s.hasOutputConstantFilename()) return 2; s.compile("m.onnx", "-O3"); return s.hasOutputConstantFilename(); }
""")
m("c19-mount-prefix", [("  if (outputDir != modelDir) {", "  // Directories below the one of the model are visible already.\n  if (outputDir.compare(0, modelDir.size(), modelDir) != 0) {")],
 "compilation in a container with an output directory whose name starts with the name of the model's directory", "the output directory is not mounted",
"""int main() { setenv("OM_DIND_DISABLE", "1", 1); touch("a/n.onnx"); OMCompile s("img", "om", OMCompile::ContainerEngine::Docker, false, false); s.compile("a/n.onnx", "-o ab/n"); return slurp("run.txt").find("/w/ab:rw") == S::npos; }
""")
m("c19-failed-state", [("  // Initialize state.\n  successfullyCompiled = false;\n", "  // Initialize state.\n"), ("  // Execute the command (shared logic).\n  int status;", "  // Execute the command (shared logic).\n  successfullyCompiled = false;\n  int status;")],
 "a compilation of a model that does not exist after a successful one", "the session still claims to be successful",
"""int main() { touch("m.onnx"); OMCompile s; s.compile("m.onnx", "-O3"); try { s.compile("gone.onnx", "-O3"); } catch (OMCompileException &) {} return s.isSuccessfullyCompiled(); }
""")
