// C19: compiling through OMCompile runs the right compiler, reports failures,
// and names the files that were really produced, locally and in a container.
#include "fork.h"
#include "src/Compiler/OMCompile.hpp"
#include "src/Compiler/Command.hpp"
#include "onnx-mlir/Compiler/OMCompilerTypes.h"
#include <filesystem>
#include <stdio.h>
#include <stdlib.h>
#include <sys/stat.h>
using namespace onnx_mlir;
using om_fork::World; using om_fork::Process;
using S = std::string; using V = std::vector<S>;
namespace fs = std::filesystem;
static S home, work;
// A fresh directory for each path; nothing outside it is touched.
static void enter() {
  if (home.empty()) home = om_fork::here();
  work = home + "/w" + std::to_string(getpid());
  fs::remove_all(work);
  for (auto d : {"", "/ou", "/out", "/a b"}) mkdir((work + d).c_str(), 0755);
  if (chdir(work.c_str())) abort();
}
static void leave() { if (chdir(home.c_str())) abort(); fs::remove_all(work); }
static void touch(const S &f) { if (FILE *p = fopen(f.c_str(), "w")) fclose(p); }
static bool exists(const S &f) { struct stat s; return stat(f.c_str(), &s) == 0; }
static bool ends(const S &s, const S &e) { return s.size() >= e.size() && s.substr(s.size() - e.size()) == e; }
static S absTo(const S &dir, const S &f) { return f.empty() || f[0] == '/' ? f : dir + "/" + f; }
static S normal(const S &f) { return fs::path(f).lexically_normal().string(); }
// What the compiler does with its command line.
static struct Compiler {
  int exitCode, signal, startError;
  bool writes, constants;
  // what it was asked
  int runs, inputs;
  S input, output, constantFile;
  V words;
} comp;
static const char *suffixOf(const V &w) {
  for (auto &f : w) { if (f == "-EmitObj" || f == "--EmitObj") return ".o"; if (f == "-EmitJNI" || f == "--EmitJNI") return ".jar"; if (f == "--EmitMLIR" || f == "-EmitMLIR") return ".onnx.mlir"; }
  return ".so";
}
static int compiler(const V &w, const S &cwd, int *status) {
  ++comp.runs;
  comp.words = w;
  comp.inputs = 0;
  S base;
  for (size_t i = 1; i < w.size(); ++i) {
    if (w[i] == "-o" && i + 1 < w.size()) base = w[++i];
    else if (w[i].compare(0, 3, "-o=") == 0) base = w[i].substr(3);
    else if (w[i][0] != '-') comp.input = absTo(cwd, w[i]), ++comp.inputs;
  }
  if (comp.startError) return comp.startError;
  if (comp.signal) { *status = comp.signal; return 0; }
  *status = comp.exitCode << 8;
  if (base.empty()) base = comp.input.substr(0, comp.input.rfind('.'));
  base = absTo(cwd, base);
  comp.output = base + suffixOf(w);
  comp.constantFile = base + ".constants.bin";
  if (ends(comp.output, ".mlir")) comp.constants = false; // only compiled code has a constant file
  if (comp.exitCode || !comp.writes) return 0;
  touch(comp.output);
  if (comp.constants) touch(comp.constantFile);
  return 0;
}
static int local(Process &p, int *status) {
  V w = p.argv;
  return compiler(w, p.cwd, status);
}
struct Plan { S model, flags, outDir, input, tag; };
// One option of arbitrary characters, quoted.
static S anyOption() {
  S s = "-D";
  uint8_t c = sx_u8("c");
  sx_assume(c != 0);
  s += (char)c;
  return s;
}
static S inQuotes(const S &w) { S q = "\""; for (char c : w) { if ((c == '"') | (c == '\\')) q += '\\'; q += c; } return q + "\""; }
static Plan plan(bool small) {
  static const char *const OUT[] = {"", "-o net", "-o=net.v2", "-o 'a b/net'", "-o out/net"};
  static const char *const EMIT[] = {"", "-EmitLib", "--EmitObj", "-EmitJNI", "--EmitMLIR"};
  static const char *const DIRS[] = {"", "out", "a b"};
  static const char *const IN[] = {"m.onnx", "ou/m.v1.mlir", "a b/x.onnxtext"};
  Plan p;
  int in = (int)sx_pick("in", 0, 2);
  p.input = IN[in];
  bool inFlags = sx_pick("inputInFlags", 0, 1);
  int kind = small ? 0 : (int)sx_pick("kind", 0, 2);
  bool abs = kind == 1 || (kind == 2 && sx_thorough());
  if (abs) p.input = work + "/" + p.input;
  if (!inFlags) p.model = p.input;
  p.flags = OUT[sx_pick("out", 0, 4)];
  if (inFlags) p.flags += (p.flags.empty() ? "" : " ") + inQuotes(p.input);
  p.flags += S(" ") + EMIT[small ? sx_pick("emit", 0, 1) * 3 : sx_thorough() ? sx_pick("emit", 0, 4) : sx_pick("emit", 0, 2) * 2];
  if (kind == 2) p.tag = "t1", p.flags += " --tag=t1";
  p.outDir = DIRS[sx_pick("outDir", 0, 2)];
  return p;
}
// The outcome of one compilation against what the compiler did.
static void outcome(OMCompile &c, const Plan &p, bool missing, const S &wantLog, const S &program) {
  comp.runs = 0;
  bool threw = false;
  S error;
  try { c.compile(p.model, p.flags, p.outDir, program, wantLog); } catch (const OMCompileException &e) { threw = true; error = e.what(); }
  sx_assert(om_fork::here() == work, "working directory kept");
  bool good = !missing && !comp.startError && !comp.signal && !comp.exitCode && comp.writes;
  sx_assert(comp.runs == !missing, missing ? "no compilation without the model" : "one compilation");
  sx_assert(threw == !good && c.isSuccessfullyCompiled() == good, "success is reported as it is");
  if (!good) {
    int thrown = 0;
    try { c.getOutputFilename(); } catch (const std::runtime_error &) { ++thrown; }
    try { c.getOutputConstantFilename(); } catch (const std::runtime_error &) { ++thrown; }
    try { c.getModelTag(); } catch (const std::runtime_error &) { ++thrown; }
    sx_assert(thrown == 3 && !c.hasOutputConstantFilename(), "no results after a failure");
    if (!missing && !comp.startError && !comp.signal && comp.exitCode) sx_assert(error.find(getOnnxMlirCompilerErrorDescription(comp.exitCode)) != S::npos, "description of the error code");
    return;
  }
  sx_assert(comp.inputs == 1 && normal(comp.input) == normal(absTo(work, p.input)), "the compiler gets the model once");
  S o = c.getOutputFilename();
  sx_assert(o[0] == '/' && exists(o) && normal(o) == normal(comp.output), "the name of the output is that of the file produced");
  sx_assert(c.hasOutputConstantFilename() == comp.constants, "constant file found");
  S k = c.getOutputConstantFilename();
  if (comp.constants) sx_assert(k[0] == '/' && normal(k) == normal(comp.constantFile), "name of the constant file"); else sx_assert(k.empty(), "no constant file");
  sx_assert(c.getModelTag() == p.tag, "tag");
  sx_assert(OMCompile::predictInputFilename(p.model, p.flags) == p.input, "predicted input");
  sx_assert(normal(OMCompile::predictOutputFilename(p.model, p.flags, p.outDir)) == normal(o), "predicted output");
  sx_assert(OMCompile::predictModelTag(p.flags) == p.tag, "predicted tag");
}
static void prepare(const Plan &p, bool missing) { if (!missing) touch(absTo(work, p.input)); }
static void fate(int f) {
  comp = Compiler();
  comp.writes = true;
  if (f == 1) comp.constants = true;
  if (f == 2) comp.exitCode = sx_u8("exit");
  if (f == 3) comp.signal = 11;
  if (f == 4) comp.startError = ENOENT;
  if (f == 5) comp.writes = false;
}
SX_TEST(compileLocally) {
  enter();
  int f = (int)sx_pick("fate", 0, 6);
  Plan p = plan(f > 1);
  fate(f);
  bool missing = f == 6;
  int which = f == 0 ? (int)sx_pick("program", 0, 3) : 0;
  bool log = which == 3 || (f && sx_pick("log", 0, 1));
  S extra = which || f > 2 ? S("-O3") : anyOption();
  p.flags += " " + inQuotes(extra);
  prepare(p, missing);
  World w;
  w.onExec = local;
  {
    OMCompile c(which == 1 ? "/opt/om" : "");
    sx_assert(c.getMode() == OMCompile::CompilationMode::Local && c.getContainerEngineName().empty(), "local mode");
    sx_assert(!c.isSuccessfullyCompiled(), "nothing compiled yet");
    withForks(w, [&] { outcome(c, p, missing, log ? "log.txt" : "", which == 2 ? "/usr/other" : ""); });
  }
  if (!missing) {
    Process &q = w.procs.back();
    sx_assert(w.procs.size() == 1 && q.path == (which == 1 ? "/opt/om" : which == 2 ? "/usr/other" : "onnx-mlir"), "the requested compiler");
    sx_assert(q.redirected == log && (!log || q.logFile == "log.txt"), "log file");
    int found = 0;
    for (auto &a : comp.words) { bool eq = a.size() == extra.size(); for (size_t i = 0; eq && i < a.size(); ++i) eq = a[i] == extra[i]; found += eq; }
    sx_assert(found == 1, "options reach the compiler unchanged");
  }
  leave();
  if (f == 0) sx_reach("compiled"); if (f == 1) sx_reach("constants"); if (f == 2) sx_reach("exitCode"); if (f == 3) sx_reach("killed");
  if (f == 4) sx_reach("notStarted"); if (f == 5) sx_reach("noOutput"); if (f == 6) sx_reach("noModel");
}
// Compilations of one session do not see each other's results.
SX_TEST(history) {
  enter();
  World w;
  w.onExec = local;
  int n = 2 + sx_thorough();
  withForks(w, [&] {
    OMCompile c;
    for (int i = 0; i < n; ++i) {
      int f = (int)sx_pick("fate", 0, 6);
      fate(f);
      if (f == 2) comp.exitCode = 4;
      Plan p;
      static const char *const OUT[] = {"", "-o out/n", "--tag=z"};
      int o = (int)sx_pick("out", 0, 2);
      p.input = p.model = i ? "ou/k.onnx" : "m.onnx";
      p.flags = OUT[o];
      p.tag = o == 2 ? "z" : "";
      if (f == 6) p.input = p.model = "gone.onnx";
      prepare(p, f == 6);
      outcome(c, p, f == 6, "", "");
      fs::remove(comp.output.empty() ? S("none") : comp.output);
      fs::remove(comp.constantFile.empty() ? S("none") : comp.constantFile);
    }
  });
  leave();
  sx_reach("history");
}
// ---- containers ----
static struct Engine {
  bool docker, podman, image, pullable, socketWorks;
  S engine;
  int pulls, runs;
  S imageName, prefix;
  bool dind;
} eng;
// The words a POSIX shell makes of a command line; anything it would expand or
// interpret is an error.
static V shell(const S &s) {
  V r;
  S cur;
  bool in = false;
  for (size_t i = 0; i < s.size(); ++i) {
    char c = s[i];
    if (c == '\'') { in = true; for (++i; i < s.size() && s[i] != '\''; ++i) cur += s[i]; sx_assert(i < s.size(), "balanced quotes in the container command"); }
    else if (c == '"') { in = true; for (++i; i < s.size() && s[i] != '"'; ++i) { sx_assert(s[i] != '$' && s[i] != '`', "nothing is expanded in the container command"); if (s[i] == '\\' && i + 1 < s.size() && strchr("$`\"\\", s[i + 1])) ++i; cur += s[i]; } sx_assert(i < s.size(), "balanced quotes in the container command"); }
    else if (c == '\\') { in = true; sx_assert(i + 1 < s.size(), "nothing ends in a backslash"); cur += s[++i]; }
    else if (c == ' ' || c == '\t' || c == '\n') { if (in) r.push_back(cur); cur.clear(); in = false; }
    else { sx_assert(!strchr("$`&|;<>()*?[", c) && !(c == '#' && !in) && !(c == '~' && !in), "nothing is expanded in the container command"); cur += c; in = true; }
  }
  if (in) r.push_back(cur);
  return r;
}
static S compilerPath;
static int containers(Process &p, int *status) {
  *status = 0;
  bool docker = p.path == "docker";
  sx_assert(docker || p.path == "podman", "only a container engine is executed");
  if (docker ? !eng.docker : !eng.podman) return ENOENT;
  V &a = p.argv;
  if (a.size() == 2 && a[1] == "--version") { if (eng.engine.empty()) eng.engine = p.path; return 0; }
  sx_assert(p.path == eng.engine, "the detected engine is used");
  if (a[1] == "images" || a[1] == "image") { sx_assert(a.back() == eng.imageName, "image looked up"); *status = eng.image ? 0 : 1 << 8; return 0; }
  if (a[1] == "pull") { sx_assert(a.back() == eng.imageName, "image pulled"); ++eng.pulls; if (eng.pullable) eng.image = true; else *status = 1 << 8; return 0; }
  if (a[1] == "info") { if (!eng.socketWorks) *status = 1 << 8; return 0; }
  sx_assert(a[1] == "run", "known engine command");
  ++eng.runs;
  S cwd = "/image/default", entry, image;
  std::vector<std::pair<S, S>> mounts;
  size_t i = 2;
  for (; i < a.size() && a[i][0] == '-'; ++i) {
    if (a[i] == "-v") {
      S m = a[++i];
      size_t k = m.find(':'), l = m.find(':', k + 1);
      mounts.push_back({m.substr(0, k), m.substr(k + 1, l - k - 1)});
    } else if (a[i] == "--entrypoint") entry = a[++i];
    else if (a[i] == "-w" || a[i] == "--workdir") cwd = a[++i];
    else sx_assert(a[i] == "--rm", "known option of run");
  }
  image = i < a.size() ? a[i++] : "";
  sx_assert(image == eng.imageName, "the requested image");
  for (auto &m : mounts) sx_assert(m.first == eng.prefix + m.second, "directories are mounted under their own names, from the host's point of view");
  sx_assert(entry == "sh" && i + 2 == a.size() && a[i] == "-c", "a shell runs one command line");
  V w = shell(a[i + 1]);
  sx_assert(!w.empty() && w[0] == compilerPath, "the compiler in the image");
  int e = compiler(w, cwd, status);
  auto visible = [&](const S &f) { S d = normal(fs::path(f).parent_path().string()); for (auto &m : mounts) { S r = normal(m.second); if (d == r || d.compare(0, r.size() + 1, r + "/") == 0) return true; } return false; };
  if (!e && !comp.exitCode && !comp.signal) sx_assert(visible(comp.input) && visible(comp.output), "the container sees the directories of the model and of the output");
  return e;
}
static void engines(World &w) {
  w.onExec = containers;
  eng = Engine();
  compilerPath = "";
}
static bool inContainerFile; // /.dockerenv
static bool socketFile;
static bool faked = false;
extern "C" fs::file_status __wrap__ZNSt10filesystem6statusERKNS_7__cxx114pathE(const fs::path &p) {
  if (faked && p == "/.dockerenv") return fs::file_status(inContainerFile ? fs::file_type::regular : fs::file_type::not_found);
  if (faked && p == "/var/run/docker.sock") return fs::file_status(socketFile ? fs::file_type::socket : fs::file_type::not_found);
  std::error_code ec;
  return fs::status(p, ec);
}
static const struct { const char *image, *compiler, *wantImage, *wantCompiler; } IMAGES[] = {
  {"", "", "ghcr.io/onnxmlir/onnx-mlir", "onnx-mlir"}, {"ghcr.io/onnxmlir/onnx-mlir-dev", "", "ghcr.io/onnxmlir/onnx-mlir-dev", "/workdir/onnx-mlir/build/Debug/bin/onnx-mlir"},
  {"mine:1", "/bin/om", "mine:1", "/bin/om"}, {"mine:1", "", "mine:1", ""}, {"ghcr.io/onnxmlir/onnx-mlir", "/x/om", "ghcr.io/onnxmlir/onnx-mlir", "/x/om"}};
SX_TEST(containerSetup) {
  enter();
  World w;
  engines(w);
  auto &im = IMAGES[sx_pick("image", 0, 4)];
  eng.imageName = im.wantImage;
  eng.docker = sx_u64("docker", 1);
  eng.podman = sx_u64("podman", 1);
  eng.image = sx_u64("present", 1);
  eng.pullable = sx_u64("pullable", 1);
  eng.socketWorks = sx_u64("socketWorks", 1);
  bool autoPull = sx_u64("autoPull", 1);
  int e = (int)sx_pick("engine", 0, 2);
  faked = true;
  int dind = (int)sx_pick("dind", 0, 2); // disabled, by marker file, by environment
  inContainerFile = dind == 1;
  socketFile = dind ? sx_u64("socket", 1) : 0;
  if (dind == 0) setenv("OM_DIND_DISABLE", "1", 1); else unsetenv("OM_DIND_DISABLE");
  if (dind == 2) setenv("container", "podman", 1); else unsetenv("container");
  bool was = eng.image, threw = false, running = false;
  S name;
  withForks(w, [&] {
    try { OMCompile c(im.image, im.compiler, (OMCompile::ContainerEngine)e, autoPull); name = c.getContainerEngineName(); running = c.isRunningInContainer(); sx_assert(c.getMode() == OMCompile::CompilationMode::Container, "container mode"); } catch (const OMCompileException &) { threw = true; }
  });
  bool dockerOk = eng.docker && e != 1, podmanOk = eng.podman && e != 0;
  bool engineOk = dockerOk || podmanOk, imageOk = was || (autoPull && eng.pullable), socketOk = !dind || (socketFile && eng.socketWorks);
  bool good = engineOk && imageOk && socketOk && im.wantCompiler[0];
  sx_assert(threw == !good, "a session is made exactly when engine, image, compiler and socket are there");
  if (good) { sx_assert(name == (dockerOk ? "docker" : "podman"), "engine name"); sx_assert(running == (dind != 0), "running in a container"); }
  if (engineOk && socketOk) sx_assert(eng.pulls == (!was && autoPull), "pulled when missing and wanted"); else sx_assert(eng.pulls == 0, "nothing pulled");
  sx_assert(eng.runs == 0, "nothing is run in the container yet");
  leave();
  sx_reach(good ? "made" : "refused");
}
SX_TEST(compileInContainer) {
  enter();
  World w;
  engines(w);
  int f = (int)sx_pick("fate", 0, 6), dind = f == 0 ? (int)sx_pick("dind", 0, 2) : 0;
  auto &im = IMAGES[dind ? sx_pick("image", 1, 2) : 1];
  eng.imageName = im.wantImage;
  compilerPath = im.wantCompiler;
  eng.docker = eng.podman = eng.image = eng.socketWorks = true;
  Plan p = plan(!sx_thorough());
  fate(f);
  prepare(p, f == 6);
  faked = true;
  inContainerFile = socketFile = dind;
  if (!dind) setenv("OM_DIND_DISABLE", "1", 1); else unsetenv("OM_DIND_DISABLE");
  unsetenv("container");
  eng.prefix = dind == 2 ? "/mnt/host" : "";
  if (dind == 2) setenv("OM_DOCKER_HOST_PATH_PREFIX", "/mnt/host", 1); else unsetenv("OM_DOCKER_HOST_PATH_PREFIX");
  uint8_t ch = sx_u8("special");
  sx_assume((ch == 'a') | (ch == ' ') | (ch == '$') | (ch == '\'') | (ch == '"') | (ch == '\\') | (ch == ';') | (ch == '*') | (ch == '&') | (ch == '\n'));
  S extra = "-DX=";
  extra += f || dind ? 'a' : (char)sx_concrete(ch);
  p.flags += " " + inQuotes(extra);
  withForks(w, [&] {
    OMCompile c(im.image, im.compiler, OMCompile::ContainerEngine::Auto, false);
    outcome(c, p, f == 6, "", f == 1 && sx_pick("ignored", 0, 1) ? "/usr/other" : "");
  });
  if (f != 6) { int found = 0; for (auto &a : comp.words) found += a == extra; sx_assert(found == 1, "options reach the compiler unchanged"); }
  leave();
  sx_reach(f == 0 ? dind == 2 ? "hostPrefix" : dind ? "nested" : "compiled" : f == 1 ? "constants" : "failed");
}
SX_TEST(noModel) {
  enter();
  World w;
  w.onExec = local;
  int threw = 0;
  withForks(w, [&] {
    OMCompile c;
    static const char *const F[] = {"", "-O3", "-o out/m -O3", "model.json"};
    const char *f = F[sx_pick("flags", 0, 3)];
    try { c.compile("", f, sx_pick("dir", 0, 1) ? "out" : ""); } catch (const OMCompileException &) { ++threw; }
    try { OMCompile::predictInputFilename("", f); } catch (const OMCompileException &) { ++threw; }
  });
  sx_assert(threw == 2 && w.procs.empty(), "a missing model is reported and nothing is run");
  leave();
  sx_reach("noModel");
}
