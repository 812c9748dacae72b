// C17: compile flags given as one string are split into the words the user
// meant, and input, output and tag names follow from them.
#include "sx.h"
#include "src/Compiler/CommandUtils.hpp"
#include <unistd.h>
using namespace onnx_mlir;
using S = std::string;
using V = std::vector<S>;
static bool same(const S &a, const S &b) {
  if (a.size() != b.size()) return false;
  int d = 0;
  for (size_t i = 0; i < a.size(); ++i) d |= a[i] ^ b[i];
  return !d;
}
static bool same(const V &a, const V &b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i) if (!same(a[i], b[i])) return false;
  return true;
}
static S text(const char *what, int n) { S s(n, 'x'); if (n) sx_bytes(&s[0], n, what); return s; }
static bool starts(const S &s, const char *p) { size_t n = S(p).size(); return s.size() >= n && same(s.substr(0, n), p); }
static bool ends(const S &s, const char *p) { size_t n = S(p).size(); return s.size() >= n && same(s.substr(s.size() - n), p); }
static bool blank(unsigned char c) { return (c == ' ') | ((c >= 9) & (c <= 13)); }
static bool special(unsigned char c) { return blank(c) | (c == '"') | (c == '\'') | (c == '\\'); }
static char gap() { uint8_t c = sx_u8("gap"); sx_assume(blank(c)); return (char)c; }
// Any words, quoted in any of the documented ways, come back unchanged.
SX_TEST(words) {
  int n = (int)sx_pick("words", 0, 2 + sx_thorough());
  V words;
  S line;
  for (int64_t k = n < 2 || sx_thorough() ? sx_pick("lead", 0, 1) : 0; k > 0; --k) line += gap();
  for (int w = 0; w < n; ++w) {
    S word = text("c", (int)sx_pick("len", 1, n == 1 || (n == 2 && !w) ? 2 + sx_thorough() : 1));
    words.push_back(word);
    if (w) line += gap();
    if (w == 1 && sx_pick("wide", 0, 1)) line += gap();
    int whole = (int)sx_pick("whole", 0, 2);
    if (whole) line += whole == 1 ? '"' : '\'';
    for (char ch : word) {
      uint8_t c = (uint8_t)ch;
      if (whole) { // inside quotes only the quote and the backslash need a backslash
        if ((c == '\\') | (c == (whole == 1 ? '"' : '\''))) line += '\\';
        line += ch;
        continue;
      }
      switch (sx_pick("quote", 0, 4)) {
      case 0: sx_assume(!special(c)); line += ch; break;
      case 1: line += '\\'; line += ch; break;
      case 2: sx_assume((c != '"') & (c != '\\')); line += '"'; line += ch; line += '"'; break;
      case 3: sx_assume((c != '\'') & (c != '\\')); line += '\''; line += ch; line += '\''; break;
      case 4: line += "\"\\"; line += ch; line += '"'; break;
      }
    }
    if (whole) line += whole == 1 ? '"' : '\'';
    sx_reach(whole == 0 ? "charQuotes" : whole == 1 ? "doubleQuotes" : "singleQuotes");
  }
  for (int64_t k = n < 2 || sx_thorough() ? sx_pick("trail", 0, 1) : 0; k > 0; --k) line += gap();
  V got = parseFlags(line);
  sx_assert(got.size() == words.size(), "number of words");
  sx_assert(same(got, words), "words");
}
// Any string with balanced quotes, against the rules of the header.
SX_TEST(raw) {
  S line = text("c", (int)sx_pick("n", 0, 4 + sx_thorough()));
  V want;
  S cur;
  bool open = false;
  char quote = 0;
  for (size_t i = 0; i < line.size(); ++i) {
    char c = line[i];
    if (c == '\\') { sx_assume(i + 1 < line.size()); cur += line[++i]; open = true; }
    else if (quote ? c == quote : ((c == '"') | (c == '\''))) { quote = quote ? 0 : c; open = true; }
    else if (!quote && blank(c)) { if (open) { sx_assume(!cur.empty()); want.push_back(cur); } cur.clear(); open = false; }
    else { cur += c; open = true; }
  }
  sx_assume(!quote);
  if (open) { sx_assume(!cur.empty()); want.push_back(cur); }
  V got = parseFlags(line);
  sx_assert(got.size() == want.size(), "number of words");
  sx_assert(same(got, want), "words");
  sx_reach(want.size() > 1 ? "several" : "one");
}
static const struct { const char *flag, *suffix; EmissionTargetType t; } EMIT[] = {{"", ".so", EmitLib}, {"-EmitLib", ".so", EmitLib}, {"--EmitLib", ".so", EmitLib}, {"-EmitObj", ".o", EmitObj}, {"--EmitObj", ".o", EmitObj},
  {"-EmitJNI", ".jar", EmitJNI}, {"--EmitJNI", ".jar", EmitJNI}, {"-EmitMLIR", ".onnx.mlir", EmitMLIR}, {"--EmitMLIR", ".onnx.mlir", EmitMLIR}, {"-EmitONNXIR", ".onnx.mlir", EmitONNXIR}, {"--EmitLLVMIR", ".onnx.mlir", EmitLLVMIR}, {"-EmitONNXBasic", ".onnx.mlir", EmitONNXBasic}};
// The name of the compiler's output, with or without -o, for each target, and
// whatever other options are given.
static S other() { // an option that is none of -o, -Emit..., -tag=
  S f = S("-") + text("other", (int)sx_pick("otherLen", 1, 3));
  sx_assume(f[1] != '\0');
  sx_assume(!(same(f, "-o") || starts(f, "-o=") || same(f, "--o") || starts(f, "--o=")));
  return f;
}
SX_TEST(output) {
  static const char *const EXT[] = {".onnx", ".mlir", ".onnxtext"};
  int e = (int)sx_pick("emit", 0, 11), how = (int)sx_pick("how", 0, 4);
  S stem = text("stem", (int)sx_pick("stemLen", 1, 2)), ext = EXT[how ? 0 : sx_pick("ext", 0, 2)], input = stem + ext, base = stem;
  V flags;
  bool first = sx_pick("emitFirst", 0, 1);
  if (first && e) flags.push_back(EMIT[e].flag);
  int at = (int)sx_pick("otherAt", 0, 2);
  if (at == 1) flags.push_back(other());
  bool inFlags = (how == 0 || how == 2) && sx_pick("inputInFlags", 0, 1);
  if (inFlags) { sx_assume(stem[0] != '-'); flags.push_back(input); }
  if (how == 1 || how == 2) {
    S name = text("name", (int)sx_pick("nameLen", 1, 3));
    if (how == 1) flags.push_back("-o=" + name);
    else { flags.push_back("-o"); flags.push_back(name); }
    base = name;
  } else if (how == 3) flags.push_back("-o="); // no name: the default is used
  if (at == 2) flags.push_back(other());
  if (!first && e) flags.push_back(EMIT[e].flag);
  if (how == 4) flags.push_back("-o");
  V before = flags;
  S got = getOutputFilename(inFlags ? S() : input, flags);
  sx_assert(same(got, base + EMIT[e].suffix), "output name");
  sx_assert(same(flags, before), "flags unchanged");
  sx_assert(same(getTargetFilename(base, EMIT[e].t), got), "target name");
  sx_assert(same(getInputFilename(inFlags ? S() : input, flags), input), "input name");
  sx_reach(base.size() != stem.size() ? "named" : "derived");
}
// The input is the given name or else the first non-option with a model suffix.
SX_TEST(input) {
  V flags;
  S want;
  int n = (int)sx_pick("n", 0, 2);
  for (int i = 0; i < n; ++i) {
    static const char *const EXT[] = {"", ".onnx", ".mlir", ".onnxtext", ".onnxtex", "onnx", ".json"};
    S f = text("f", (int)sx_pick("len", i ? 1 : 0, i ? 2 : 1)) + EXT[sx_pick("ext", 0, 6)];
    if (sx_pick("clip", 0, 1) && !f.empty()) f[f.size() - 1] = (char)sx_u8("last");
    flags.push_back(f);
  }
  for (auto &f : flags) if (want.empty() && !f.empty() && f[0] != '-' && (ends(f, ".onnx") || ends(f, ".mlir") || ends(f, ".onnxtext"))) want = f;
  sx_assert(same(getInputFilename("", flags), want), "input from flags");
  S given = text("g", 2);
  sx_assert(same(getInputFilename(given, flags), given), "given input");
  sx_reach(want.empty() ? "missing" : "found");
}
SX_TEST(tag) {
  V flags;
  int n = (int)sx_pick("n", 0, 2);
  for (int i = 0; i < n; ++i) { int d = (int)sx_pick("dashes", 0, 2); flags.push_back((d == 2 ? "-" : d == 1 ? "" : "x") + text("f", (int)sx_pick("len", 4, d == 2 ? 7 : 6))); }
  S want;
  bool found = false;
  for (auto &f : flags) if (!found) {
    if (starts(f, "--tag=")) want = f.substr(6), found = true;
    else if (starts(f, "-tag=")) want = f.substr(5), found = true;
  }
  sx_assert(same(getModelTag(flags), want), "tag");
  sx_reach(found ? want.empty() ? "emptyTag" : "tag" : "noTag");
}
// Names over a small alphabet; every feasible byte is split, because paths are
// taken apart by the C++ library.
static S name(const char *what, int n) {
  S s;
  for (int i = 0; i < n; ++i) {
    uint8_t c = sx_u8(what);
    sx_assume((c == 'a') | (c == '.') | (c == '/') | (c == ' '));
    s += (char)sx_concrete(c);
  }
  return s;
}
static S join(const S &dir, const S &n) { return dir.back() == '/' ? dir + n : dir + "/" + n; }
SX_TEST(outputPath) {
  static const char *const DIRS[] = {"", "out", "/tmp/x y", "a/b/", "."};
  static const char *const INPUTS[][2] = {{"m.onnx", "m"}, {"dir.d/model.mlir", "model"}, {"/abs/n.v2.onnx", "n.v2"}, {"../t.onnxtext", "t"}};
  S dir = DIRS[sx_pick("dir", 0, 4)];
  int how = (int)sx_pick("how", 0, 2), in = (int)sx_pick("in", 0, how ? 0 : 3);
  int e = (int)sx_pick("emit", 0, 2) * 2; // none, --EmitLib, --EmitObj
  V flags, want;
  int at = (int)sx_pick("otherAt", 0, 2);
  if (at == 1) flags.push_back(other());
  if (e) flags.push_back(EMIT[e].flag);
  S v = how ? name("name", (int)sx_pick("len", 1, 2 + sx_thorough())) : S();
  bool plain = v.find('/') == S::npos;
  want = flags;
  S nv = dir.empty() || !plain ? v : join(dir, v);
  if (how == 1) { flags.push_back("-o=" + v); want.push_back("-o=" + nv); }
  if (how == 2) { flags.push_back("-o"); flags.push_back(v); want.push_back("-o"); want.push_back(nv); }
  if (at == 2) { S f = other(); flags.push_back(f); want.push_back(f); }
  S input = INPUTS[in][0];
  if (how == 0 && !dir.empty()) { nv = join(dir, INPUTS[in][1]); want.push_back("-o"); want.push_back(nv); }
  else if (how == 0) nv = input.substr(0, input.rfind('.'));
  V got = flags;
  applyOutputPath(got, dir, input);
  sx_assert(same(got, want), "flags with the output path");
  sx_assert(same(getOutputFilename(input, got), nv + EMIT[e].suffix), "output name in that directory");
  V again = got;
  applyOutputPath(again, dir, input);
  if (dir != ".") sx_assert(same(again, got), "applied twice");
  sx_reach(how == 0 ? dir.empty() ? "asIs" : "added" : plain ? "prefixed" : "kept");
}
SX_TEST(absolute) {
  char buf[4096];
  S cwd = getcwd(buf, sizeof buf);
  S f = name("name", (int)sx_pick("len", 0, 3));
  S want = f.empty() || f[0] == '/' ? f : join(cwd, f);
  sx_assert(same(getAbsolutePathUsingCurrentDir(f), want), "absolute path");
  sx_reach(f.empty() ? "empty" : f[0] == '/' ? "rooted" : "relative");
}
