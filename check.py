#!/usr/bin/python3.12
"""Build what one check needs from /repo's working tree and run it.

usage: check.py PROPERTY [quick|thorough] [--seed N] [--replay FILE] [extra harness options]
       check.py --build-all

Exit 0: the property held on everything explored; 1: violation (a VIOLATION
line is printed); 2: the check could not be built or run.
"""
import concurrent.futures, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
VENV = "/opt/clingo-venv/lib/python3.12/site-packages/clingo"
CLINGO_SO = VENV + "/_clingo.cpython-312-x86_64-linux-gnu.so"
OUT = os.path.join(VERIF, "build")
H = os.path.join(VERIF, "harness")
SRC = os.path.join(REPO, "libclingo-lpx")

INC = ["-I" + SRC, "-I" + SRC + "/src", "-isystem", VENV]
DEF = ["-DCLINGOLPX_USE_FLINT", "-DCLINGOLPX_NO_VISIBILITY"]
VARIANTS = {
    "plain": ["g++", "-g1", "-O1", "-std=gnu++17", "-fPIC", "-D_GLIBCXX_ASSERTIONS"],
    "cross": ["g++", "-g1", "-O1", "-std=gnu++17", "-fPIC", "-D_GLIBCXX_ASSERTIONS", "-DCLINGOLPX_CROSSCHECK"],
    "asan": ["clang++", "-g1", "-O1", "-std=gnu++17", "-fPIC", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS", "-D_GLIBCXX_SANITIZE_VECTOR",
             "-fsanitize=address,undefined", "-fno-sanitize-recover=all"],
    "tsan": ["clang++", "-g1", "-O1", "-std=gnu++17", "-fPIC", "-fno-omit-frame-pointer", "-fsanitize=thread"],
    # the other number backend, on a stand-in for its library
    "imath": ["g++", "-g1", "-O1", "-std=gnu++17", "-fPIC", "-D_GLIBCXX_ASSERTIONS", "-include", "gmpxx.h", "-I" + H + "/imath"],
    "fuzz": ["clang++", "-g1", "-O1", "-std=gnu++17", "-fPIC", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS", "-D_GLIBCXX_SANITIZE_VECTOR",
             "-fsanitize=address,undefined,fuzzer-no-link", "-fno-sanitize-recover=all"],
}
LIBS = [CLINGO_SO, "-Wl,-rpath," + VENV, "-lflint", "-lgmpxx", "-lgmp", "-lpython3.12", "-lpthread", "-ldl"]

# property -> (variant, harness file, links the library, extra artefacts)
PROPS = {
    "C01": ("plain", "p_core.cc", True, []),
    "C02": ("plain", "p_core.cc", True, []),
    "C03": ("plain", "p_core.cc", True, []),
    "C04": ("plain", "p_global.cc", True, []),
    "C05": ("plain", "p_meta.cc", True, []),
    "C06": ("plain", "p_multi.cc", True, []),
    "C07": ("plain", "p_multi.cc", True, []),
    "C08": ("plain", "p_expr.cc", True, []),
    "C09": ("plain", "p_expr.cc", True, []),
    "C10": ("plain", "p_meta.cc", True, []),
    "C11": ("plain", "p_meta.cc", True, []),
    "C12": ("plain", "p_core.cc", True, []),
    "C13": ("plain", "p_iface.cc", True, []),
    "C14": ("plain", "p_number.cc", False, []),
    "C15": ("plain", "p_tableau.cc", False, []),
    "C16": ("plain", "p_iface.cc", True, []),
    "C17": ("plain", "p_iface.cc", True, []),
    "C18": ("plain", "p_app.cc", True, ["app"]),
    "C19": ("plain", "p_python.cc", True, ["app", "python"]),
    "C20": ("plain", "p_iface.cc", True, []),
    "C21": ("plain", "p_meta.cc", True, []),
    "C22": ("plain", "p_meta.cc", True, []),
    "C23": ("asan", "p_fuzz.cc", True, []),
    "C24": ("plain", "p_modes.cc", True, []),
    "C25": ("cross", "p_cross.cc", True, []),
    "C26": ("plain", "p_indep.cc", True, []),
}
# the calls p_iface.cc counts
LINK = {"p_iface.cc": ["-Wl,--wrap=_ZN7Tableau5pivotEjjR7IntegerS1_"]}
# harnesses that can do without the C++ classes behind the C interface
OPTIONAL = ("p_iface.cc",)
# property -> cases to run with valgrind's memcheck (quick, thorough)
MEMCHECK = {"C23": (1500, 30000)}
# property -> cases to run with ThreadSanitizer (quick, thorough)
TSAN = {"C06": (4000, 40000), "C26": (2500, 30000)}
# property -> cases to run with the other number backend (quick, thorough)
IMATH = {"C01": (3000, 60000), "C04": (2500, 60000), "C08": (4000, 100000), "C09": (3000, 60000), "C12": (2000, 60000), "C14": (30000, 600000), "C15": (4000, 100000)}
IMATH_TAG = "number backend: imath"
COMMON = ["engine.cc", "main.cc"]
MODEL = ["ref.cc", "prog.cc", "run.cc", "hooks.cc"]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def lpx_sources():
    return sorted(glob.glob(SRC + "/src/**/*.cc", recursive=True))


_headers = {}
def headers(d):
    if d not in _headers:
        h = hashlib.sha256()
        for root, dirs, files in sorted(os.walk(d)):
            dirs[:] = sorted(x for x in dirs if x not in ("tests", "build", "_build", ".git"))
            for f in sorted(files):
                if f.endswith((".h", ".hh", ".hpp", ".ipp", ".inc", ".in")):
                    h.update(f.encode() + b"\0" + read(os.path.join(root, f)))
        _headers[d] = h.hexdigest()
    return _headers[d]


class BuildError(Exception):
    pass


def run(cmd, cwd=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode != 0:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout[-6000:])


def compile_one(variant, src, extra=()):
    flags = VARIANTS[variant] + (DEF if variant != "imath" else [d.replace("FLINT", "IMATH") for d in DEF]) + INC + ["-I" + H] + list(extra)
    key = hashlib.sha256(" ".join(flags).encode() + b"\0" + src.encode() + b"\0" + read(src) + headers(SRC).encode() + headers(H).encode()).hexdigest()[:32]
    obj = os.path.join(OUT, "obj", os.path.basename(src) + "." + key + ".o")
    if not os.path.exists(obj):
        os.makedirs(os.path.dirname(obj), exist_ok=True)
        tmp = obj + ".%d.tmp" % os.getpid()
        run(flags + ["-c", src, "-o", tmp])
        os.rename(tmp, obj)
    return obj


def link(variant, objs, name, extra=()):
    key = hashlib.sha256((" ".join(objs) + " ".join(extra)).encode()).hexdigest()[:24]
    exe = os.path.join(OUT, "bin", name + "." + key)
    if not os.path.exists(exe):
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        tmp = exe + ".%d.tmp" % os.getpid()
        run(VARIANTS[variant] + ["-o", tmp] + objs + list(extra) + LIBS)
        os.rename(tmp, exe)
    return exe


def build(pool, variant, harness, with_lib, extra_flags=()):
    try:
        return build_with(pool, variant, harness, with_lib, extra_flags)
    except BuildError:
        if harness not in OPTIONAL:
            raise
        # without the parts that use the propagator's C++ class directly
        return build_with(pool, variant, harness, with_lib, tuple(extra_flags) + ("-DNO_INTERNALS",))


def build_with(pool, variant, harness, with_lib, extra_flags):
    srcs = [os.path.join(H, f) for f in COMMON + (MODEL if with_lib else []) + [harness]]
    if with_lib:
        srcs += lpx_sources()
    elif harness == "p_tableau.cc":
        srcs += [SRC + "/src/tableau.cc"]
    futs = [pool.submit(compile_one, variant, s, extra_flags) for s in srcs]
    if variant == "imath":
        futs.append(pool.submit(compile_one, variant, H + "/imath/imath.cc"))
    if variant == "tsan":
        futs.append(pool.submit(compile_one, variant, os.path.join(H, "tsan.cc")))
    objs = [f.result() for f in futs]
    return link(variant, objs, os.path.splitext(harness)[0] + "-" + variant, LINK.get(harness, ()))


def artefacts(pool, variant, extra):
    """Build the program and the Python package; returns the folder with them."""
    app = os.path.join(REPO, "app")
    inc = ["-I" + os.path.join(app, "lib")]
    key = "-DHEADERS=" + headers(app)[:16]  # the app's headers go into the key of its objects
    srcs = sorted(glob.glob(app + "/src/*.cc")) + sorted(glob.glob(app + "/lib/src/*.cc"))
    futs = [pool.submit(compile_one, variant, s, inc + [key]) for s in srcs]
    libs = [pool.submit(compile_one, variant, s) for s in lpx_sources()]
    objs, libs = [f.result() for f in futs], [f.result() for f in libs]
    h = hashlib.sha256(" ".join(objs + libs).encode())
    py = sorted(glob.glob(REPO + "/libpyclingo-lpx/clingolpx/*.py")) if "python" in extra else []
    csrc = REPO + "/libpyclingo-lpx/_clingolpx.c"
    for p in py + ([csrc, H + "/pyserver.py"] if py else []):
        h.update(p.encode() + read(p))
    d = os.path.join(OUT, "run", h.hexdigest()[:24])
    if os.path.isdir(d):
        return d
    tmp = d + ".%d.tmp" % os.getpid()
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    run(VARIANTS[variant] + ["-o", tmp + "/clingo-lpx"] + objs + libs + LIBS)
    if py:
        pkg = tmp + "/python/clingolpx"
        os.makedirs(pkg)
        for p in py:
            shutil.copy(p, pkg)
        shutil.copy(H + "/pyserver.py", tmp)
        inc = ["-I/usr/include/python3.12"] + INC
        run(["gcc", "-g1", "-O1", "-fPIC", "-w", "-D_CFFI_NO_LIMITED_API"] + DEF + inc + ["-c", csrc, "-o", tmp + "/cffi.o"])
        run(VARIANTS[variant] + ["-shared", "-o", pkg + "/_clingolpx.cpython-312-x86_64-linux-gnu.so", tmp + "/cffi.o"] + libs + LIBS)
    try:
        os.rename(tmp, d)
    except OSError:  # another process was faster
        shutil.rmtree(tmp, ignore_errors=True)
    return d


# decided in one process without child processes, so a coverage-guided fuzzer can drive them
FUZZ = [p for p, x in PROPS.items() if not x[3] and p not in ("C07", "C25")]


def build_fuzzer(pool, harness, with_lib):
    """The same checks with coverage instrumentation in the code under test."""
    model = [os.path.join(H, f) for f in ["engine.cc", "fuzz_main.cc"] + (MODEL if with_lib else [])]
    code = [os.path.join(H, harness)] if not with_lib else lpx_sources()
    if not with_lib and harness == "p_tableau.cc":
        code.append(SRC + "/src/tableau.cc")
    if with_lib:
        model.append(os.path.join(H, harness))
    futs = [pool.submit(compile_one, "asan", s) for s in model] + [pool.submit(compile_one, "fuzz", s) for s in code]
    return link("asan", [f.result() for f in futs], os.path.splitext(harness)[0] + "-fuzz", ["-fsanitize=fuzzer"] + LINK.get(harness, []))


def fuzz(exe, prop, seed, env, scratch, seconds, workers=8):
    """Coverage-guided search; returns the inputs that failed and what was explored."""
    corpus, arts = scratch + "/corpus", scratch + "/artifacts"
    os.makedirs(corpus)
    os.makedirs(arts)
    env = dict(env, PBT_PROP=prop, PBT_SCRATCH=scratch)
    end = time.time() + seconds
    logs, runs = [], [0] * workers

    def worker(w):
        k = 0
        while time.time() < end - 2 and len(os.listdir(arts)) < 4:
            log = "%s/fuzz.%d.%d.log" % (scratch, w, k)
            with open(log, "w") as f:
                subprocess.run([exe, corpus, "-seed=%d" % (int(seed) * 1000 + w * 50 + k + 1), "-max_total_time=%d" % max(1, end - time.time()), "-timeout=120",
                                "-rss_limit_mb=2500", "-max_len=1500", "-len_control=20", "-reload=30", "-print_final_stats=1", "-artifact_prefix=" + arts + "/",
                                "-detect_leaks=0", "-use_value_profile=1"], env=env, cwd=scratch, stdout=f, stderr=subprocess.STDOUT)
            logs.append(log)
            k += 1

    with concurrent.futures.ThreadPoolExecutor(workers) as pool:
        for f in [pool.submit(worker, w) for w in range(workers)]:
            f.result()
    execs = cov = 0
    for log in logs:
        t = read(log).decode(errors="replace")
        n = re.findall(r"stat::number_of_executed_units:\s*(\d+)", t) or re.findall(r"^#(\d+)", t, re.M)[-1:]
        execs += int(n[-1]) if n else 0
        cov = max([cov] + [int(x) for x in re.findall(r"cov: (\d+)", t)])
    info = {"seconds": seconds, "executions": execs, "edges_covered": cov, "corpus": len(os.listdir(corpus))}
    return sorted(glob.glob(arts + "/crash-*") + glob.glob(arts + "/timeout-*")), info


def main():
    args = sys.argv[1:]
    if args and args[0] == "--build-all":
        with concurrent.futures.ThreadPoolExecutor(8) as pool:
            for v, h, l in sorted({(v, h, l) for v, h, l, _ in PROPS.values()} | {("tsan",) + PROPS[p][1:3] for p in TSAN} | {("imath",) + PROPS[p][1:3] for p in IMATH}):
                print(build(pool, v, h, l))
            for v, e in sorted({(v, tuple(e)) for v, _, _, e in PROPS.values() if e}):
                print(artefacts(pool, v, e))
        return 0
    prop = args.pop(0)
    tier = os.environ.get("VERIF_TIER", "quick")
    if args and args[0] in ("quick", "thorough"):
        tier = args.pop(0)
    seed = os.environ.get("VERIF_SEED", "1")
    t0 = time.time()
    variant, harness, lib, extra = PROPS[prop]
    scratch = tempfile.mkdtemp(prefix="lpx-check-")
    try:
        with concurrent.futures.ThreadPoolExecutor(8) as pool:
            exe = build(pool, variant, harness, lib)
            bindir = artefacts(pool, variant, extra) if extra else ""
        env = dict(os.environ)
        env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:detect_stack_use_after_return=0"
        env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
        cmd = [exe, "--prop", prop, "--tier", tier, "--seed", seed, "--scratch", scratch,
               "--replays", os.path.join(VERIF, "replays"), "--known", os.path.join(VERIF, "known_findings.txt"),
               "--prelude", "%.2f" % (time.time() - t0)]
        if bindir:
            cmd += ["--bin", bindir]
        if "--replay" not in args:
            os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
            cmd += ["--evidence", os.path.join(VERIF, "evidence", prop + ".json")]
        if "--replay" in args:
            args[args.index("--replay") + 1] = os.path.abspath(args[args.index("--replay") + 1])
        cmd += args
        if tier == "thorough" and prop in FUZZ and "--replay" not in args:
            with concurrent.futures.ThreadPoolExecutor(8) as pool:
                fexe = build_fuzzer(pool, harness, lib)
            inputs, info = fuzz(fexe, prop, seed, env, scratch, int(os.environ.get("VERIF_FUZZ_SECONDS", "600")))
            for x in inputs:
                cmd += ["--bytes", x]
            cmd += ["--info", "coverage_guided", json.dumps(info)]
        replay = args[args.index("--replay") + 1] if "--replay" in args else ""
        if prop in MEMCHECK and (not replay or "memcheck" in open(replay, errors="replace").read()):
            with concurrent.futures.ThreadPoolExecutor(8) as pool:
                pexe = build(pool, "plain", harness, lib)
            mdir = scratch + "/memcheck"
            os.mkdir(mdir)
            mcmd = ["valgrind", "-q", "--log-file=" + mdir + "/log.%p", "--undef-value-errors=yes", pexe, "--prop", prop, "--tier", tier,
                    "--seed", str(int(seed) + 1000000), "--scratch", mdir, "--replays", os.path.join(VERIF, "replays"), "--summary", mdir + "/summary"]
            mcmd += ["--replay", replay] if replay else ["--cases", str(MEMCHECK[prop][tier == "thorough"])]
            rc = subprocess.run(mcmd, env=env, cwd=scratch).returncode
            if rc == 1 or replay:
                for log in sorted(glob.glob(mdir + "/log.*"))[:3] if rc == 1 else []:
                    print(read(log).decode(errors="replace")[:3000], file=sys.stderr)
                return rc if rc in (0, 1) else 2
            if rc == 0:
                cmd += ["--info", "memcheck", read(mdir + "/summary").decode()]
            else:
                print("memcheck could not run", file=sys.stderr)
        if prop in TSAN and (not replay or "ThreadSanitizer" in open(replay, errors="replace").read()):
            with concurrent.futures.ThreadPoolExecutor(8) as pool:
                texe = build(pool, "tsan", harness, lib)
            tdir = scratch + "/tsan"
            os.mkdir(tdir)
            tcmd = [texe, "--prop", prop, "--tier", tier, "--seed", str(int(seed) + 2000000), "--scratch", tdir,
                    "--replays", os.path.join(VERIF, "replays"), "--known", os.path.join(VERIF, "known_findings.txt"), "--summary", tdir + "/summary"]
            tcmd += ["--replay", replay] if replay else ["--cases", str(TSAN[prop][tier == "thorough"])]
            tenv = dict(env, TSAN_OPTIONS="log_path=" + tdir + "/log:halt_on_error=0:exitcode=0:report_thread_leaks=0:report_signal_unsafe=0")
            out = subprocess.run(tcmd, env=tenv, cwd=scratch, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace")
            if replay:
                print(out.stdout, end="")
                return out.returncode if out.returncode in (0, 1) else 2
            found = [x for x in re.findall(r"^VIOLATION property=\S+ replay=(\S+)$", out.stdout, re.M) if "\nkind fail\n" in read(x).decode(errors="replace")]
            if out.returncode == 1 and found:
                print(out.stdout, end="")
                return 1
            # crashes and hangs of the instrumented program are left to the normal one
            if out.returncode == 0:
                cmd += ["--info", "thread_sanitizer", read(tdir + "/summary").decode()]
            else:
                print("ThreadSanitizer could not run", file=sys.stderr)
        if prop in IMATH and (not replay or IMATH_TAG in open(replay, errors="replace").read().split("\nchoices")[0]):
            try:
                with concurrent.futures.ThreadPoolExecutor(8) as pool:
                    iexe = build(pool, "imath", harness, lib)
            except BuildError as e:
                # only decides here whether the stand-in still offers all that is used
                print("the other number backend could not be built: " + str(e)[-2000:], file=sys.stderr)
                iexe = None
            idir = scratch + "/imath"
            os.mkdir(idir)
            if iexe:
                icmd = [iexe, "--prop", prop, "--tier", tier, "--seed", str(int(seed) + 3000000), "--scratch", idir,
                        "--replays", os.path.join(VERIF, "replays"), "--known", os.path.join(VERIF, "known_findings.txt"), "--summary", idir + "/summary"]
                icmd += ["--replay", replay] if replay else ["--cases", str(IMATH[prop][tier == "thorough"])]
                sys.stdout.flush()
                rc = subprocess.run(icmd, env=dict(env, PBT_TAG=IMATH_TAG), cwd=scratch).returncode
                if rc == 1 or replay:
                    return rc if rc in (0, 1) else 2
                if rc == 0:
                    cmd += ["--info", "imath_backend", read(idir + "/summary").decode()]
                else:
                    print("the other number backend could not run", file=sys.stderr)
        sys.stdout.flush()
        rc = subprocess.run(cmd, env=env, cwd=scratch).returncode
        return rc if rc in (0, 1) else 2
    except BuildError as e:
        print("BUILD FAILED: " + str(e), file=sys.stderr)
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
