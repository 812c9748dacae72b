#!/usr/bin/env python3
"""Driver: builds one property's harness against /repo's working tree with the
symbolic-execution pass, explores it with the SMT back end, replays every
counterexample natively and writes the evidence file."""
import concurrent.futures as cf
import hashlib, json, os, re, shlex, subprocess, sys, time, shutil, glob

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SX_REPO", "/repo")
BUILD = os.environ.get("SX_BUILD", os.path.join(VERIF, "build"))
ENG = os.path.join(VERIF, "engine")
LLVM18 = "/usr/lib/llvm-18"
LLVM20 = "/usr/lib/llvm-20"
sys.path.insert(0, VERIF)
from specs import SPECS  # noqa: E402

HEAP = """malloc calloc free realloc posix_memalign aligned_alloc _Znwm _Znam _ZnwmSt11align_val_t
_ZnwmRKSt9nothrow_t _ZnamRKSt9nothrow_t _ZdlPv _ZdlPvm _ZdaPv _ZdaPvm _ZdlPvSt11align_val_t
_ZdlPvmSt11align_val_t __assert_fail strdup strndup""".split()
STR = """_ZSt11_Hash_bytesPKvmm __isoc23_strtol __isoc23_strtoll __isoc23_strtoul __isoc23_strtoull atoi atol atoll
bcmp bsearch isalnum isalpha isdigit islower isprint ispunct isspace isupper isxdigit memchr memcmp memrchr
_ZN4llvm15SmallVectorBaseIjE8grow_podEPvmm _ZN4llvm15SmallVectorBaseImE8grow_podEPvmm _ZN4llvm15SmallVectorBaseIjE13mallocForGrowEPvmmRm
_ZN4llvm15SmallVectorBaseImE13mallocForGrowEPvmmRm _ZN4llvm15allocate_bufferEmm _ZN4llvm17deallocate_bufferEPvmm qsort qsort_r strcat strchr strcmp strcpy strlen strncat strncmp strncpy strnlen strrchr strstr strtol strtoll
strtoul strtoull tolower toupper llrint lrint llrintf lrintf llround lround llroundf lroundf __isnanf __isnan __isinff __isinf isnanf isnan isinff isinf""".split()
PRINT = "fflush fprintf fputc fputs fwrite printf putchar puts vfprintf".split()

BASE_INC = [f"-I{REPO}/include", f"-I{REPO}", f"-I{VERIF}/shim", f"-isystem{LLVM20}/include", f"-I{ENG}", f"-I{VERIF}/harness"]
BASE_DEF = ["-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS", "-D__NO_CTYPE",
            "-DONNX_ML=1", "-DONNX_NAMESPACE=onnx"]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


class BuildError(Exception):
    pass


FH = {}


def fhash(p):
    try:
        st = os.stat(p)
        k = (p, st.st_mtime_ns, st.st_size, st.st_ino)
        if k not in FH:
            with open(p, "rb") as f:
                FH[k] = hashlib.sha1(f.read()).hexdigest()
        return FH[k]
    except OSError:
        return "missing"


def parse_deps(d):
    try:
        t = open(d).read().replace("\\\n", " ")
    except OSError:
        return None
    out = []
    for line in t.split("\n"):
        if ":" in line:
            out += line.split(":", 1)[1].split()
    return [x for x in out if not x.startswith("/usr/")]


def compile_one(cmd, src, obj, extra=()):
    """Compile with a content-addressed cache (dependencies outside /usr hashed)."""
    dep = obj + ".d"
    stamp = obj + ".stamp"
    full = cmd + ["-MD", "-MF", dep, "-c", src, "-o", obj]
    head = hashlib.sha1((" ".join(full) + "".join(fhash(x) for x in extra)).encode()).hexdigest()

    def key():
        deps = [src] if src.endswith(".ll") else parse_deps(dep)
        if deps is None:
            return None
        return head + hashlib.sha1("".join(x + fhash(x) for x in sorted(set(deps))).encode()).hexdigest()
    if os.path.exists(obj) and os.path.exists(stamp) and open(stamp).read() == key():
        return
    for f in (obj, stamp):
        if os.path.exists(f):
            os.unlink(f)
    r = sh(full)
    if r.returncode != 0:
        raise BuildError("$ %s\n%s" % (" ".join(shlex.quote(x) for x in full), r.stdout[-6000:]))
    open(stamp, "w").write(key())


def build_engine():
    os.makedirs(BUILD, exist_ok=True)
    jobs = []
    passso, rtso, rpso = (os.path.join(BUILD, x) for x in ("libSxPass.so", "libsxrt.so", "libsxreplay.so"))

    def so(src, out, flags):
        st = out + ".stamp"
        k = fhash(src) + fhash(os.path.join(ENG, "sx.h")) + " ".join(flags)
        if os.path.exists(out) and os.path.exists(st) and open(st).read() == k:
            return
        tmp = out + ".%d" % os.getpid()
        r = sh(["clang++-18", "-std=c++17", "-fPIC", "-shared", "-I" + ENG] + flags[:1] + [src, "-o", tmp] + flags[1:])
        if r.returncode:
            raise BuildError(r.stdout[-4000:])
        os.replace(tmp, out)
        open(st, "w").write(k)
    defs = [x for x in sh([LLVM18 + "/bin/llvm-config", "--cxxflags"]).stdout.split() if x[:2] in ("-I", "-D")]
    with cf.ThreadPoolExecutor(3) as ex:
        jobs.append(ex.submit(so, ENG + "/SxPass.cpp", passso, ["-O1", "-fno-rtti"] + defs))
        jobs.append(ex.submit(so, ENG + "/sxrt.cpp", rtso, ["-O2", "-lz3", "-ldl", "-Wl,--version-script=" + ENG + "/local.map"]))
        jobs.append(ex.submit(so, ENG + "/sxreplay.cpp", rpso, ["-O1"]))
        for j in jobs:
            j.result()
    return passso, rtso, rpso


class ModelError(Exception):
    """The compiler under test does not compile one of the stated models."""


MODEL = re.compile(r'^MODEL\(\s*(\w+)\s*,\s*(\d+)\s*,\s*R"\((.*?)\)"\s*(?:,\s*"([^"]*)")?\s*\)', re.S | re.M)
MODELT = re.compile(r'^MODELT\(\s*(\w+)\s*,\s*(\d+)\s*,\s*R"\((.*?)\)"\s*,\s*"([^"]*)"\s*\)', re.S | re.M)
CTYPE = dict(float="float", double="double", int8="int8_t", uint8="uint8_t", int16="int16_t", uint16="uint16_t", int32="int32_t",
             uint32="uint32_t", int64="int64_t", uint64="uint64_t", bool="bool", float16="uint16_t")


def models_of(harness):
    """(name, opset, text, flags, generic name, element type) of every model a harness states."""
    text = re.sub(r"(?m)^\s*//.*$", "", open(os.path.join(VERIF, "harness", harness)).read())
    out = [(n, o, b, f, None, None) for n, o, b, f in MODEL.findall(text)]
    for n, o, b, ts in MODELT.findall(text):
        out += [(n + "_" + t, o, b.replace("$T", t).replace("$E", str({"float": 1, "uint8": 2, "int8": 3, "uint16": 4, "int16": 5, "int32": 6,
                 "int64": 7, "bool": 9, "float16": 10, "double": 11, "uint32": 12, "uint64": 13}[t])), "", n, t) for t in ts.split()]
    return out


OPTS = dict(o0=["--O0"], o3=["--O3"], v3=["--O3", "--march=x86-64"])  # v3: the SIMD code for SSE


def compile_models(spec):
    """Builds the compiler of /repo and turns every MODEL of the harnesses into LLVM IR."""
    import fcntl
    import omc
    d = os.path.join(BUILD, "omc")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        try:
            exe = omc.build(REPO, d, compile_one, sh, fhash)
        except RuntimeError as e:
            raise BuildError(str(e))
        ek = fhash(exe)
    md = os.path.join(BUILD, "models")
    os.makedirs(md, exist_ok=True)
    jobs = []
    for h in spec["harness"]:
        ms = models_of(h)
        decl, seen = [], set()
        for name, opset, body, flags, gen, ty in ms:
            src = '<ir_version: 8, opset_import: ["": %s]>\n%s\n' % (opset, body.strip())
            for o in OPTS:
                jobs.append((name.lower() + "_" + o, src, OPTS[o] + flags.split()))
            v = [name.lower() + "_" + o for o in OPTS]
            decl.append('extern "C" {\n' + "".join("OMTensorList *run_main_graph_%s(OMTensorList *);\nconst char *omInputSignature_%s(const char *), *omOutputSignature_%s(const char *);\n" % (x, x, x)
                                                   for x in v) + '}\nstatic const Model %s = {"%s", {%s}, {{%s}, {%s}}};' % (
                name, name, ", ".join("run_main_graph_" + x for x in v), ", ".join("omInputSignature_" + x for x in v), ", ".join("omOutputSignature_" + x for x in v)))
            if gen:
                if gen not in seen:
                    seen.add(gen)
                    decl.append("template <class T> static const Model &%s();" % gen)
                decl.append("template <> const Model &%s<%s>() { return %s; }" % (gen, CTYPE[ty], name))
        p = os.path.join(md, "models_" + os.path.splitext(h)[0] + ".h")
        t = "\n".join(decl) + "\n"
        if ms and not (os.path.exists(p) and open(p).read() == t):
            open(p, "w").write(t)

    def one(j):
        name, src, fl = j
        base = os.path.join(md, name)
        k = hashlib.sha1((ek + src + " ".join(fl) + "3").encode()).hexdigest()
        if os.path.exists(base + ".ll") and os.path.exists(base + ".stamp") and open(base + ".stamp").read() == k:
            return base + ".ll"
        open(base + ".onnxtext", "w").write(src)
        w = base + ".d"
        shutil.rmtree(w, ignore_errors=True)
        os.makedirs(w)
        cmd = [exe, "--EmitObj", "--preserveLLVMIR", "--tag=" + name] + fl + ["-o", w + "/m", base + ".onnxtext"]
        try:
            r = sh(cmd, timeout=120, cwd=w)
        except subprocess.TimeoutExpired:
            raise ModelError("the compiler does not end on the model %s\n%s\n%s" % (name, " ".join(cmd), src))
        if r.returncode or not os.path.exists(w + "/m.ll"):
            raise ModelError("the compiler fails (%d) on the model %s\n%s\n%s\n%s" % (r.returncode, name, " ".join(cmd), src, r.stdout[-3000:]))
        ll = open(w + "/m.ll").read()
        shutil.rmtree(w, ignore_errors=True)
        keep = "run_main_graph_%s omInputSignature_%s omOutputSignature_%s omQueryEntryPoints_%s" % ((name,) * 4)
        ll = re.sub(r'(?m)^define (?!internal)([^@\n]*@(\w+)\()', lambda m: m.group(0) if m.group(2) in keep.split() else "define internal " + m.group(1), ll)
        ll = re.sub(r"(?m)^(define [^\n]*\)) (#\d+ )?\{$", r"\1 \2sanitize_address {", ll).replace(") None", ") ")
        ll = re.sub(r'(?m)^(@[^=\n]* = )(constant|global)', r"\1internal \2", ll)
        open(base + ".ll", "w").write(ll)
        open(base + ".stamp", "w").write(k)
        return base + ".ll"
    with cf.ThreadPoolExecutor(8) as ex:
        futs = [ex.submit(one, j) for j in jobs]
    errs = [f.exception() for f in futs if f.exception()]
    if errs:
        errs.sort(key=lambda e: not isinstance(e, ModelError))
        for e in errs[1:]:
            if "_o0" in str(e).split("\n")[0]:
                print("also: " + str(e).split("\n")[0] + " " + str(e).strip()[-200:].replace("\n", " "))
        raise errs[0]
    return [f.result() for f in futs]


def is_c(src):
    return src.endswith(".c")


def compile_flags(spec, src):
    f = []
    if is_c(src):
        f += ["clang-18", "-std=gnu11"]
    else:
        f += ["clang++-18", "-std=c++17", "-fno-rtti" if spec.get("mlir") else "-frtti"]
        if spec.get("mlir") and spec.get("eh", True):
            f += ["-fexceptions"]
    f += ["-O1", "-g1", "-fPIC", "-w", "-fno-strict-aliasing", "-ffp-contract=off", "-ffunction-sections", "-fdata-sections"]
    f += BASE_INC + BASE_DEF + spec.get("cflags", [])
    if spec.get("models"):
        f += ["-I" + os.path.join(BUILD, "models")]
    return f


def build(pid, spec, mode, engine):
    """mode: 'sym' or 'replay'; returns executable path."""
    passso, rtso, rpso = engine
    d = os.path.join(BUILD, pid, mode + spec.get("name", ""))
    os.makedirs(d, exist_ok=True)
    sym = mode == "sym"
    symf = ["-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-fpass-plugin=" + passso, "-DSX_SYMBOLIC=1"]
    if sym and not spec.get("extern_templates"):
        symf += ["-include", os.path.join(ENG, "cxxpre.h")]
    asan = ["-fsanitize=address", "-fno-omit-frame-pointer"] if spec.get("asan", True) else []
    objs, jobs = [], []

    def add(src, flags, tag="", extra=()):
        o = os.path.join(d, re.sub(r"[^A-Za-z0-9]", "_", os.path.relpath(src, "/")) + tag + ".o")
        objs.append(o)
        jobs.append((flags, src, o, extra))
    for h in spec["harness"]:
        s = os.path.join(VERIF, "harness", h)
        add(s, compile_flags(spec, s) + (symf if sym else asan), extra=[passso])
    for r in spec.get("repo", []):
        fl = []
        if isinstance(r, tuple):
            r, fl = r[0], list(r[1])
        s = os.path.join(REPO, r)
        add(s, compile_flags(spec, s) + fl + (symf if sym else asan), extra=[passso])
    for r in spec.get("native", []):
        fl = []
        if isinstance(r, tuple):
            r, fl = r[0], list(r[1])
        s = os.path.join(REPO, r)
        add(s, compile_flags(spec, s) + fl)
    for s in spec.get("ll", []):
        # -O1 as for the harness; contraction was decided by the compiler under test
        add(s, ["clang-18", "-O1", "-fPIC", "-w", "-Wno-override-module", "-ffunction-sections", "-fdata-sections"] +
            (symf[:5] if sym else asan), extra=[passso])
    if sym:
        s = os.path.join(ENG, "compat.c")
        add(s, ["clang-18", "-O1", "-g1", "-fPIC", "-w", "-fno-builtin"] + symf, extra=[passso])
    s = os.path.join(ENG, "sxmain.c")
    add(s, ["clang-18", "-O1", "-fPIC"])
    jobs.sort(key=lambda j: is_c(j[1]))  # C++ first
    with cf.ThreadPoolExecutor(8) as ex:
        for j in [ex.submit(compile_one, *j) for j in jobs]:
            j.result()
    wraps = list(HEAP)
    if sym:
        wraps += STR
        if spec.get("print", True):
            wraps += PRINT
    wraps += spec.get("wraps", [])
    for w in spec.get("nowrap", []):
        if w in wraps:
            wraps.remove(w)
    exe = os.path.join(d, pid)
    libs = []
    for l in spec.get("libs", []):
        if l == "mlir":
            libs += ["-L" + LLVM20 + "/lib", "-lMLIR", "-lLLVM-20" if os.path.exists(LLVM20 + "/lib/libLLVM-20.so") else "-lLLVM", "-Wl,-rpath," + LLVM20 + "/lib"]
        else:
            libs.append(l)
    rt = rtso if sym else rpso
    lib = ["-L" + os.path.dirname(rt), "-l:" + os.path.basename(rt), "-Wl,-rpath," + os.path.dirname(rt)]
    cmd = ["clang++-18", "-rdynamic", "-Wl,--gc-sections", "-o", exe] + objs + lib + libs + ["-Wl,--wrap=" + w for w in wraps] + ["-ldl", "-lm", "-lpthread"]
    if not sym:
        cmd += asan
    if sh(["which", "ld.lld-18"]).returncode == 0 and False:
        cmd += ["-fuse-ld=lld"]
    cmd += spec.get("ldflags", [])
    r = sh(cmd)
    if r.returncode:
        raise BuildError("link of %s\n%s" % (exe, r.stdout[-3000:]))
    return exe


def write_inputs(path, inputs):
    with open(path, "w") as f:
        for n, w, v in inputs:
            f.write("%d %s\n" % (v, n))


def replay(exe, test, inputs, path, tier, spec):
    write_inputs(path, inputs)
    env = dict(os.environ, SX_TIER=tier,
               ASAN_OPTIONS="detect_leaks=0:detect_container_overflow=0:exitcode=77:max_malloc_fill_size=1048576:malloc_fill_byte=190:"
               "abort_on_error=0:handle_abort=0:allocator_may_return_null=1:detect_odr_violation=0:symbolize=0")
    env.update(spec.get("env", {}))
    try:
        r = subprocess.run([exe, test, path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=120,
                           cwd=os.path.dirname(path), stdin=subprocess.DEVNULL)
    except subprocess.TimeoutExpired:
        return 1, "hang: no result after 120 s"
    err = r.stderr.decode("utf8", "replace")
    if r.returncode == 0:
        return 0, err[-300:]
    if r.returncode in (2, 3, 4):
        return r.returncode, err[-300:]
    m = re.search(r"SX-VIOLATION (.*)", err) or re.search(r"SX-ABORT (.*)", err) or re.search(r"ERROR: AddressSanitizer: (.*)", err)
    return 1, (m.group(0) if m else "exit status %d" % r.returncode)


def load_known():
    p = os.path.join(VERIF, "known-findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": []}


def main():
    pid = sys.argv[1]
    if pid == "--setup":
        build_engine()
        return 0
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    only = sys.argv[sys.argv.index("--tests") + 1] if "--tests" in sys.argv else None
    verbose = "-v" in sys.argv
    spec = SPECS[pid]
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    engine = build_engine()
    parts = []
    for pt in spec.get("parts", [{}]):
        q = {k: v for k, v in spec.items() if k != "parts"}
        q.update(pt)
        q["name"] = pt.get("name", "")
        if q.get("models"):
            q["ll"] = compile_models(q)
        parts.append(q)
    with cf.ThreadPoolExecutor(2 * len(parts)) as ex:
        futs = [(ex.submit(build, pid, q, "sym", engine), ex.submit(build, pid, q, "replay", engine)) for q in parts]
        for q, (a, b) in zip(parts, futs):
            q["exe"], q["rexe"] = a.result(), b.result()
    tb = time.time() - t0
    known = [k for k in load_known()["findings"] if k["property"] == pid]
    scratch = os.path.join(BUILD, pid, "cwd")
    budget = spec.get("budget", {}).get(tier, 120 if tier == "quick" else 900)
    tests, instrumented = [], 0
    weight = sum(q.get("weight", 1) for q in parts)
    bleft = budget
    for q in parts:
        out = os.path.join(BUILD, pid, "result%s.json" % q["name"])
        if os.path.exists(out):
            os.unlink(out)
        mine = bleft * q.get("weight", 1) / weight
        weight -= q.get("weight", 1)
        args = [q["exe"], "--out", out, "--budget", "%.1f" % mine,
                "--query-ms", str(q.get("query_ms", {}).get(tier, 20000 if tier == "quick" else 60000))]
        if "per_test" in q:
            args += ["--per-test", str(q["per_test"][tier])]
        if "conc_cap" in q:
            args += ["--conc-cap", str(q["conc_cap"])]
        if "hang" in q:
            args += ["--hang", str(q["hang"])]
        if only:
            args += ["--tests", only]
        if verbose:
            args.append("-v")
        for k in known:
            args += ["--ignore", k["match"][0]]
        shutil.rmtree(scratch, ignore_errors=True)
        os.makedirs(scratch)
        env = dict(os.environ, SX_TIER=tier)
        env.update(q.get("env", {}))
        t1 = time.time()
        try:
            rc = subprocess.run(args, cwd=scratch, env=env, timeout=mine + 300).returncode
        except subprocess.TimeoutExpired:
            rc = -1
        bleft -= min(mine, time.time() - t1)
        try:
            res = json.load(open(out))
        except Exception as e:
            print("ENGINE-ERROR: no result (%s, rc=%s)" % (e, rc))
            return 2
        instrumented += res["instrumented"]
        for t in res["tests"]:
            t["part"] = q
            t["label"] = (q["name"] + "." if q["name"] else "") + t["test"]
            tests.append(t)
    rdir = os.path.join(VERIF, "replays", pid)
    shutil.rmtree(rdir, ignore_errors=True)
    os.makedirs(rdir, exist_ok=True)
    bad, unrepro, knownhit, validated, mism = [], [], [], 0, []
    tmpi = os.path.join(scratch, "in.txt")
    n = 0
    isknown = lambda v: next((k for k in known if all(m in '"kind":"%s","msg":"%s"' % (v["kind"], v["msg"]) for m in k["match"])), None)
    for t in tests:
        for v in t["violations"]:
            if len(bad) >= 6:
                break
            n += 1
            p = os.path.join(rdir, "%s-%d.inputs" % (t["label"], n))
            rexe, sp = t["part"]["rexe"], t["part"]
            code, msg = replay(rexe, t["test"], v["inputs"], p, tier, sp)
            kf = isknown(v)
            if kf:
                if code == 1 and kf not in knownhit:
                    knownhit.append(kf)
                continue
            if code == 1:
                bad.append((t["label"], v, p, msg))
                with open(p + ".txt", "w") as f:
                    f.write("property %s, test %s\n%s: %s\nnative replay: %s\nrerun: %s %s %s\ninputs:\n" % (pid, t["test"], v["kind"], v["msg"], msg, rexe, t["test"], p))
                    for nm, w, val in v["inputs"]:
                        f.write("  %s = %d (0x%x, %d bits)\n" % (nm, val, val, w))
            else:
                unrepro.append((t["label"], v["kind"] + ": " + v["msg"], code, msg))
        if t["part"].get("validate", True):
            for s in t["samples"][:2]:
                code, msg = replay(t["part"]["rexe"], t["test"], s, tmpi, tier, t["part"])
                if code == 0:
                    validated += 1
                elif code == 1 and not any(isknown(v) for v in t["violations"]):
                    mism.append((t["label"], s, msg))
    # A path the symbolic run accepts but the native build rejects is a memory or
    # undefined-behaviour fault that only the sanitised build sees.
    for tn, s, msg in mism[:3]:
        p = os.path.join(rdir, "%s-native.inputs" % tn)
        write_inputs(p, s)
        bad.append((tn, {"kind": "native", "msg": msg, "inputs": s}, p, msg))
    tot = lambda k: sum(t[k] for t in tests)
    labels = sorted({l for t in tests for l in t["labels"]})
    incomplete = [t["label"] for t in tests if not t["complete"]]
    diverged = [(t["label"], t["diverge_msg"]) for t in tests if t["diverged"]]
    fns = sorted({os.path.basename(x[0] if isinstance(x, tuple) else x) for q in parts for x in q.get("repo", [])})
    samples = []
    for t in tests:
        for s in t["samples"][:1]:
            samples.append({"test": t["label"], "inputs": [[a, c] for a, b, c in s[:24]]})
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot("paths"), "transitions": tot("decisions"),
            "traces_validated_against_impl": validated + n,
            "samples": samples[:12],
            "solver_queries": tot("queries"), "sat": tot("sat"), "unsat": tot("unsat"), "unknown": tot("unknown"),
            "obligations": tot("obligations"), "undecided_obligations": tot("ob_unknown"),
            "fp_queries": tot("fp_queries"), "solver_seconds": round(tot("solver_s"), 2),
            "instrumented_functions": instrumented, "encoded_sources": fns,
            "tests": {t["label"]: {"paths": t["paths"], "complete": t["complete"], "obligations": t["obligations"], "queries": t["queries"],
                                  "solver_s": t["solver_s"], "wall_s": t["wall_s"], "native_sym": t["native_sym"], "unknown": t["unknown"], "cap_hit": t["cap_hit"]} for t in tests},
            "bounds": spec.get("bounds", ""), "exhaustive": not incomplete,
            "incomplete_tests": incomplete, "reached": labels,
            "uninstrumented_callees_given_symbolic_arguments": sorted({x for t in tests for x in t["natives"]})[:60],
            "unreproduced_counterexamples": unrepro[:5], "build_s": round(tb, 1),
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(bad),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    print("%s %s: %d tests, %d paths, %d queries (%d unsat, %d unknown), %d obligations, solver %.1fs, build %.1fs, wall %.1fs%s" % (
        pid, tier, len(tests), tot("paths"), tot("queries"), tot("unsat"), tot("unknown"), tot("obligations"), tot("solver_s"), tb,
        time.time() - t0, "" if not incomplete else "; not exhausted: " + ",".join(incomplete)))
    for k in knownhit:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    for tn, what, code, msg in unrepro:
        print("note: counterexample of %s (%s) did not reproduce natively (code %d: %s); not reported" % (tn, what, code, msg.strip()[-150:]))
    for tn, msg in diverged:
        print("note: %s diverged: %s" % (tn, msg))
    if bad:
        for tn, v, p, msg in bad:
            print("  %s: %s: %s [replay: %s]" % (tn, v["kind"], v["msg"], msg))
        print("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(bad[0][2] + (".txt" if os.path.exists(bad[0][2] + ".txt") else ""), VERIF)))
        return 1
    fatal = [(t["label"], t["fatal"]) for t in tests if t["fatal"]]
    if fatal:
        print("ENGINE-ERROR:", fatal)
        return 2
    need = spec.get("reach", [])
    if not only:
        declared = set()
        for h in {h for q in parts for h in q["harness"]}:
            declared |= set(re.findall(r'sx_reach\("([^"]+)"\)', open(os.path.join(VERIF, "harness", h)).read()))
        miss = [l for l in sorted(declared | set(need)) if l not in labels and not l.startswith("opt:") and not (tier == "quick" and l.startswith("thorough:"))]
        if miss and incomplete:
            print("note: exploration not exhausted and never reached: " + ", ".join(miss))
        elif miss and not unrepro:
            print("VACUOUS: never reached: " + ", ".join(miss))
            return 2
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except ModelError as e:
        d = os.path.join(VERIF, "replays", sys.argv[1])
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "model.txt"), "w").write(str(e) + "\n")
        print("  " + str(e)[:2500])
        print("VIOLATION property=%s replay=replays/%s/model.txt" % (sys.argv[1], sys.argv[1]))
        sys.exit(1)
    except BuildError as e:
        print("BUILD-ERROR\n%s" % e)
        sys.exit(2)
