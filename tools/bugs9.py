from mkbug import *
from bugs8 import CPPD
CM = "src/Compiler/Command.cpp"
SRC = "src/Compiler/Command.cpp src/Compiler/CommandUtils.cpp"
H = """#include "src/Compiler/Command.hpp"
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <filesystem>
#include <sstream>
#include <unistd.h>
#include <sys/wait.h>
using namespace onnx_mlir; using S = std::string; using V = std::vector<S>; namespace fs = std::filesystem;
static S slurp(const char *f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }
"""
def m(id, edits, needs, breaks, body): mk(id, "C18", [(CM, o, n) for o, n in edits], needs, breaks, {"demo.sh": CPPD % SRC, "demo.cpp": H + body})
RESTORE = """  // Restore working directory.
  if (requestedNewDir) {
    try {
      fs::current_path(curWdir);
    } catch (const fs::filesystem_error &e) {
      throw CommandException("Failed to restore directory");
    }
  }

  if (waited"""
m("c18-no-restore-on-signal", [("  // Restore working directory.\n  if (requestedNewDir) {\n    try {\n      fs::current_path(curWdir);\n    } catch (const fs::filesystem_error &e) {\n      throw CommandException(\"Failed to restore directory\");\n    }\n  }\n\n  if (waited", "  // Restore working directory.\n  if (requestedNewDir && !WIFSIGNALED(status)) {\n    try {\n      fs::current_path(curWdir);\n    } catch (const fs::filesystem_error &e) {\n      throw CommandException(\"Failed to restore directory\");\n    }\n  }\n\n  if (waited")],
 "a command run in another directory that is killed by a signal", "the caller stays in the command's directory",
"""int main() { fs::create_directory("d"); S a = fs::current_path(); try { Command c("/bin/sh"); c.appendStr("-c").appendStr("kill -9 $$"); c.exec("d"); } catch (CommandException &) {} return fs::current_path() != a; }
""")
m("c18-log-appended", [("O_WRONLY | O_CREAT | O_TRUNC", "O_WRONLY | O_CREAT | O_APPEND")],
 "two commands with the same log file", "the log keeps the output of earlier commands",
"""int main() { for (int i = 0; i < 2; i++) { Command c("/bin/sh"); c.appendStr("-c").appendStr("echo x"); c.redirectExecStreams("log"); c.exec(); } return slurp("log") != "x\\n"; }
""")
m("c18-repeated-argument", [("  for (const auto &arg : argList) {\n    if (!arg.empty()) {", "  for (const auto &arg : argList) {\n    if (!arg.empty() && (&arg == &argList.front() || arg != args.back())) {")],
 "a list of arguments with the same word twice in a row", "the second one is dropped",
"""int main() { Command c("x"); c.appendList({"-o", "a", "a"}); return c.getArgs().size() != 4; }
""")
m("c18-basename-backslash", [("  return fs::path(path).filename().string();", "  return path.substr(path.find_first_of('/') == std::string::npos ? 0 : path.find_first_of('/') + 1);")],
 "a program path with more than one slash", "the name of the program given as its first argument is not its base name",
"""int main() { Command c("./bin/tool"); return c.getArgs()[0] != "tool"; }
""")
