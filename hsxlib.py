"""Build and run machinery shared by all checks (see DESIGN.md)."""
import concurrent.futures as cf, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("HSX_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
LLVM = "/usr/lib/llvm-18/bin/"
CLANGXX = LLVM + "clang++"
JOBS = os.cpu_count() or 8
IRFLAGS = ["-std=c++17", "-O1", "-Xclang", "-disable-llvm-passes", "-emit-llvm", "-c", "-gline-tables-only",
           "-include", VERIF + "/stubs/hsx_prefix.h", "-fsanitize=signed-integer-overflow,integer-divide-by-zero,shift",
           "-fsanitize-trap=all", "-fno-vectorize", "-w"]
NATFLAGS = {"asan": ["-std=c++17", "-O1", "-gline-tables-only", "-w", "-fsanitize=address,signed-integer-overflow,integer-divide-by-zero,shift,bounds,null,return,unreachable,vptr",
                     "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
            "plain": ["-std=c++17", "-O1", "-gline-tables-only", "-w", "-DHSX_PLAIN", "-fsanitize=signed-integer-overflow,integer-divide-by-zero,shift", "-fsanitize-trap=all"],
            "vg": ["-std=c++17", "-O1", "-gline-tables-only", "-w", "-mno-avx2"]}

class CheckError(Exception):
    pass

def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", **kw)
    return p

def must(cmd, **kw):
    p = run(cmd, **kw)
    if p.returncode:
        raise CheckError("command failed (%d): %s\n%s" % (p.returncode, " ".join(cmd)[:400], (p.stderr or p.stdout)[-4000:]))
    return p.stdout

def h(*parts):
    m = hashlib.sha256()
    for p in parts:
        m.update(p if isinstance(p, bytes) else str(p).encode()); m.update(b"\0")
    return m.hexdigest()[:20]

def fread(p):
    with open(p, "rb") as f:
        return f.read()

def tree_hash(files):
    return h(*[x for f in sorted(files) for x in (f, fread(f))])

def lib_sources():
    return sorted(glob.glob(REPO + "/libhext/src/*.cpp"))

def lib_files():
    return lib_sources() + sorted(glob.glob(REPO + "/libhext/src/*.h")) + sorted(glob.glob(REPO + "/libhext/include/hext/*.h"))

def incs():
    return ["-I" + REPO + "/libhext/include", "-I" + REPO + "/libhext/src", "-I" + VERIF + "/harness"]

LOCKS = {}; LOCKS_GUARD = threading.Lock()
def atomic(dst, make):
    with LOCKS_GUARD: lock = LOCKS.setdefault(dst, threading.Lock())
    with lock:
        if os.path.exists(dst):
            return dst
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        tmp = dst + ".tmp%d" % os.getpid()
        make(tmp)
        os.replace(tmp, dst)
    return dst

def engine():
    src = [VERIF + "/engine/" + f for f in ("hsx.cpp", "expr.h", "state.h")]
    out = BUILD + "/engine/hsx-" + tree_hash(src)
    def mk(tmp):
        must([CLANGXX, "-std=c++17", "-O2", "-fexceptions", "-w", "-I/usr/lib/llvm-18/include", src[0], "-o", tmp,
              "-L/usr/lib/llvm-18/lib", "-lLLVM-18", "-lz3"])
    return atomic(out, mk)

def gumbo_tags():
    out = BUILD + "/gen/gumbo_tags.inc"
    def mk(tmp):
        c = tmp + ".c"; e = tmp + ".exe"
        with open(c, "w") as f:
            f.write('#include <gumbo.h>\n#include <stdio.h>\n#include <string.h>\nint main(void){printf("#define HSX_NTAGS %d\\n",(int)GUMBO_TAG_UNKNOWN);'
                    'printf("static const char*const hsx_tagname[]={");for(int i=0;i<GUMBO_TAG_UNKNOWN;++i)printf("\\"%s\\",",gumbo_normalized_tagname((GumboTag)i));printf("};\\n");'
                    'printf("static const unsigned char hsx_taglen[]={");for(int i=0;i<GUMBO_TAG_UNKNOWN;++i)printf("%d,",(int)strlen(gumbo_normalized_tagname((GumboTag)i)));printf("};\\n");}\n')
        must(["gcc", c, "-o", e, "-lgumbo"])
        open(tmp, "w").write(must([e]))
        os.unlink(c); os.unlink(e)
    return atomic(out, mk)

def compile_all(jobs):
    """jobs: list of (cmd, out)"""
    with cf.ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(lambda j: must(j), jobs))

def lib_bc(extra_src=(), flags=()):
    """bitcode of the whole library, from the working tree"""
    key = h(tree_hash(lib_files()), fread(VERIF + "/stubs/hsx_prefix.h"), IRFLAGS, extra_src and tree_hash(extra_src), flags)
    out = BUILD + "/lib/%s.bc" % key
    def mk(tmp):
        d = tmp + ".d"; os.makedirs(d, exist_ok=True)
        srcs = lib_sources() + list(extra_src)
        outs = [d + "/%d_%s.bc" % (i, os.path.basename(s)) for i, s in enumerate(srcs)]
        compile_all([[CLANGXX] + IRFLAGS + list(flags) + incs() + [s, "-o", o] for s, o in zip(srcs, outs)])
        must(["/usr/bin/llvm-link"] + outs + ["-o", tmp])
        shutil.rmtree(d)
    return atomic(out, mk)

def model_bc(names):
    gumbo_tags()
    outs = []
    for n in names:
        src = VERIF + "/models/" + n
        out = BUILD + "/models/%s-%s.bc" % (n, h(fread(src), fread(BUILD + "/gen/gumbo_tags.inc"), IRFLAGS, fread(VERIF + "/stubs/hsx_prefix.h")))
        atomic(out, lambda tmp: must([CLANGXX] + [f for f in IRFLAGS if "sanitize" not in f] + ["-fno-access-control", "-I" + BUILD + "/gen", "-I" + VERIF + "/harness", src, "-o", tmp]))
        outs.append(out)
    return outs

def unit_flags(unit, which=("flags",)):
    return [f.replace("{REPO}", REPO).replace("{VERIF}", VERIF) for w in which for f in unit.get(w, [])]

def unit_files(unit):
    """sources outside the library that the harness includes"""
    return [f for g in unit.get("files", []) for f in sorted(glob.glob(g.replace("{REPO}", REPO).replace("{VERIF}", VERIF))) if os.path.isfile(f)]

def unit_gen(unit):
    """directory of the sources that swig generates from the bindings"""
    if not unit.get("swig"): return []
    lang = unit["swig"]; b = REPO + "/libhext/bindings"; src = {"python": "pyhext.i", "ruby": "rbhext.i", "php": "phphext.i"}[lang]
    out = BUILD + "/gen/%s-%s" % (lang, tree_hash(sorted(glob.glob(b + "/wrapper/*")) + [b + "/%s/%s" % (lang, src)]))
    def mk(tmp):
        os.makedirs(tmp, exist_ok=True)
        must(["swig", "-c++", "-" + ("php7" if lang == "php" else lang), "-I" + b, "-I" + REPO + "/libhext/include", "-outdir", tmp, "-o", tmp + "/%s_wrap.cxx" % lang, b + "/%s/%s" % (lang, src)])
    return ["-I" + atomic(out, mk), "-I" + b]

def unit_bc(unit, defs):
    lib = lib_bc() if unit.get("lib", True) else None
    if unit.get("lib_fn"):
        lib = unit["lib_fn"]()
    models = model_bc(["models.cpp"] + unit.get("models", []))
    src = VERIF + "/harness/" + unit["src"]
    hdrs = [f for f in glob.glob(VERIF + "/harness/*.h")]
    extra = unit_flags(unit, ("ir_flags", "flags")) + unit_gen(unit)
    key = h(os.path.basename(lib or ""), *[os.path.basename(m) for m in models], fread(src), tree_hash(hdrs + unit_files(unit)), defs, extra, OPT)
    out = BUILD + "/units/%s.%s.bc" % (unit["src"], key)
    def mk(tmp):
        ho = tmp + ".h.bc"; lo = tmp + ".l.bc"
        must([CLANGXX] + IRFLAGS + incs() + extra + ["-D%s=%s" % kv for kv in sorted(defs.items())] + [src, "-o", ho])
        if unit.get("override"): must(["/usr/bin/llvm-link"] + models + ([lib] if lib else []) + ["--override=" + ho, "-o", lo]) # the harness replaces library functions
        else: must(["/usr/bin/llvm-link"] + models + [ho] + ([lib] if lib else []) + ["-o", lo])
        must([LLVM + "opt"] + OPT + [lo, "-o", tmp])
        os.unlink(ho); os.unlink(lo)
    return atomic(out, mk)

OPT = ["-internalize-public-api-list=hsx_main", "-passes=internalize,globaldce,default<O2>,globaldce", "-vectorize-loops=false", "-vectorize-slp=false", "-unroll-threshold=0",
       "-inline-threshold=100"]

def native_lib(kind):
    key = h(tree_hash(lib_files()), NATFLAGS[kind])
    out = BUILD + "/nat/%s-%s.a" % (kind, key)
    def mk(tmp):
        d = tmp + ".d"; os.makedirs(d, exist_ok=True)
        srcs = lib_sources(); outs = [d + "/" + os.path.basename(s) + ".o" for s in srcs]
        compile_all([[CLANGXX] + NATFLAGS[kind] + incs() + ["-c", s, "-o", o] for s, o in zip(srcs, outs)])
        must([LLVM + "llvm-ar", "rcs", tmp] + outs)
        shutil.rmtree(d)
    return atomic(out, mk)

def unit_native(unit, defs, kind):
    if unit.get("native_fn"):
        return unit["native_fn"](unit, defs, kind)
    lib = native_lib(kind) if unit.get("lib", True) else None
    src = VERIF + "/harness/" + unit["src"]
    extra = unit_flags(unit, ("flags", "native_flags")) + unit_gen(unit)
    nm = [VERIF + "/models/" + m for m in unit.get("native_models", [])]
    key = h(os.path.basename(lib or ""), fread(src), tree_hash(glob.glob(VERIF + "/harness/*.h") + nm + unit_files(unit)), fread(VERIF + "/harness/replay.cpp"), defs, extra, kind)
    out = BUILD + "/nat/%s.%s-%s" % (unit["src"], kind, key)
    def mk(tmp):
        must([CLANGXX] + NATFLAGS[kind] + incs() + extra + ["-D%s=%s" % kv for kv in sorted(defs.items())] + [src, VERIF + "/harness/replay.cpp"] + nm + ([lib] if lib else []) + (["-Wl,--allow-multiple-definition"] if unit.get("override") else []) + ["-o", tmp, "-lgumbo"] + unit.get("native_libs", []))
    return atomic(out, mk)

def run_engine(bc, opts):
    d = tempfile.mkdtemp(prefix="hsx")
    try:
        cmd = [engine(), "-j", str(JOBS), "-o", d, "-t", str(opts.get("time", 300)), "-s", str(opts.get("steps", 50000000)), "--stride", str(opts.get("stride", 97)),
               "--samples", str(opts.get("samples", 40)), "--max-viol", str(opts.get("max_viol", 4)), "--mem", str(opts.get("mem", 3000))] + (["--dump"] if opts.get("dump") else []) + (["-v"] if opts.get("verbose") else []) + [bc]
        if opts.get("verbose"):
            p = subprocess.run(cmd, stdout=subprocess.PIPE, text=True, errors="replace"); err = ""
        else:
            p = run(cmd); err = p.stderr
        res = {"audits": 0, "paths": 0, "steps": 0, "branches": 0, "forks": 0, "queries": 0, "qsat": 0, "qunsat": 0, "qcache": 0, "fast": 0, "asserts": 0, "assertq": 0, "assertconst": 0, "assumecut": 0, "solver_s": 0.0, "maxq_s": 0.0}
        res.update(fatal=[], reached=set(), expected=set(), labels={}, funcs={}, viols=[], samples=[], dumped=[])
        fs = glob.glob(d + "/r.*.json")
        for f in fs:
            j = json.load(open(f, errors="replace"))
            for k in ("audits", "paths", "steps", "branches", "forks", "queries", "qsat", "qunsat", "qcache", "fast", "asserts", "assertq", "assertconst", "assumecut", "solver_s"):
                res[k] += j[k]
            res["maxq_s"] = max(res["maxq_s"], j["maxq_s"])
            if j["fatal"]: res["fatal"].append(j["fatal"])
            res["reached"] |= set(j["reached"]); res["expected"] |= set(j["expected"])
            for k, v in j["labels"].items(): res["labels"][k] = res["labels"].get(k, 0) + v
            for k, v in j["funcs"].items():
                o = res["funcs"].get(k)
                res["funcs"][k] = v if o is None or len(o) != len(v) else "".join("1" if a == "1" or b == "1" else "0" for a, b in zip(o, v))
            res["viols"] += j["viols"]; res["samples"] += j["samples"]; res["dumped"] += j["dumped"]
        if not fs: res["fatal"].append("engine produced no result: " + err[-2000:])
        if p.returncode: res["fatal"].append("engine exit %d %s" % (p.returncode, err[-2000:]))
        try:
            res["summary"] = json.loads(p.stdout.strip().splitlines()[-1])
        except Exception:
            res["summary"] = {}; res["fatal"].append("no engine summary")
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)

def run_native(exe, assigns, timeout=600):
    with tempfile.NamedTemporaryFile("w", suffix=".in", delete=False) as f:
        for a in assigns: f.write(" ".join(str(x[2]) for x in a) + "\n")
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=99:abort_on_error=0:symbolize=1:external_symbolizer_path=%sllvm-symbolizer" % LLVM, UBSAN_OPTIONS="exitcode=98:print_stacktrace=0")
    try:
        p = run([exe, f.name], timeout=timeout, env=env)
    finally:
        os.unlink(f.name)
    out = []
    for l in p.stdout.splitlines():
        m = re.match(r"RESULT (\d+) (\w+) (\d+) STATUS (\S+) OBS (\d+) (\d+) LABEL (.*)", l)
        if m: out.append({"how": m.group(2), "code": int(m.group(3)), "status": m.group(4), "obs": int(m.group(5)), "hash": m.group(6), "label": m.group(7)})
    if len(out) != len(assigns):
        raise CheckError("native run gave %d results for %d assignments: %s" % (len(out), len(assigns), (p.stderr or "")[-1500:]))
    return out, p.stderr
