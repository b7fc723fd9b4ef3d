"""Machinery shared by all the checks: build a replay harness from /repo's
working tree, run TLC on a specification, replay the behaviours that TLC
printed against the real code, compare the observations."""
import hashlib, json, math, os, re, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
INF = 99999999
ANY = 77777777   # not determined by the specification
CXX = "clang++-18" if shutil.which("clang++-18") else "clang++"


# entries of configuration files may be private members
HARNESS_FLAGS = {"config": ["-fno-access-control", "-I" + os.path.join(VERIF, "harness", "rbdlstub"), "-I" + os.path.join(VERIF, "harness", "solvers")],
                 "core": ["-I" + os.path.join(VERIF, "harness", "solvers")],
                 "pepperik": ["-fno-access-control", "-I" + os.path.join(VERIF, "harness", "rbdlstub")],
                 "kinematics": ["-I" + os.path.join(VERIF, "harness", "rbdlstub")], "logger": ["-I" + os.path.join(VERIF, "harness", "stubs")]}


class CheckError(Exception):
    """The check itself could not give an answer."""


# ------------------------------------------------------------------ building
def include_tree(dst):
    """The include tree that the project's build assembles, by symlinks."""
    h = os.path.join(dst, "humoto")
    os.makedirs(h)
    srcs = ["core/include", "modules/wpg04/include", "modules/pepper_mpc/include", "modules/pepper_ik/include", "bridges/rbdl/interface",
            "bridges/config_msgpack/interface", "bridges/config_yaml/interface", "bridges/obstacle_avoidance",
            "bridges/qpOASES/interface", "bridges/QuadProgpp/interface", "bridges/qpmad/interface"]
    for s in srcs:
        d = os.path.join(REPO, s)
        for e in sorted(os.listdir(d)):
            if e == "CMakeLists.txt":
                continue
            os.symlink(os.path.join(d, e), os.path.join(h, e))
    shutil.copy(os.path.join(VERIF, "harness", "build_config.h"), os.path.join(h, "build_config.h"))


def tree_hash(paths):
    m = hashlib.sha256()
    for p in paths:
        if os.path.isfile(p):
            files = [p]
        else:
            files = sorted(os.path.join(r, f) for r, _, fs in os.walk(p) for f in fs)
        for f in files:
            m.update(f.encode())
            with open(f, "rb") as fh:
                m.update(fh.read())
    return m.hexdigest()[:24]


def build_harness(name, scratch, defs=()):
    """Compiles harness/NAME.cpp against /repo's working tree."""
    src = os.path.join(VERIF, "harness", name + ".cpp")
    hdir = os.path.join(VERIF, "harness")
    flags = ["-std=c++14", "-w", "-ferror-limit=3", "-O0", "-g1", "-ftrivial-auto-var-init=pattern", "-D_GLIBCXX_ASSERTIONS",
             "-DBOOST_ALL_DYN_LINK", "-isystem", "/usr/include/eigen3"] + [d if d.startswith("-") else "-D" + d for d in defs]
    flags += HARNESS_FLAGS.get(name, [])
    libs = []
    if "VERIF_YAML" in defs:
        flags += ["-I" + os.path.join(VERIF, "harness", "yaml03")]
        libs = ["-lyaml-cpp"]
    # the tree /repo may have a planted change: the key is the content of all its headers
    key = tree_hash([src] + sorted(os.path.join(hdir, f) for f in os.listdir(hdir) if f.endswith(".h")) + [hdir + "/stubs", hdir + "/yaml03", hdir + "/solvers", hdir + "/rbdlstub",
                     REPO + "/core/include", REPO + "/modules/wpg04/include", REPO + "/modules/pepper_mpc/include",
                     REPO + "/modules/pepper_ik/include",
                     REPO + "/bridges"])
    key = hashlib.sha256((key + " ".join(flags) + REPO).encode()).hexdigest()[:24]
    cdir = os.path.join(BUILD, "cache")
    cached = os.path.join(cdir, name + "-" + key)
    if os.path.exists(cached):
        return cached
    inc = os.path.join(tempfile.mkdtemp(dir=scratch), "inc-" + name)
    include_tree(inc)
    out = os.path.join(os.path.dirname(inc), name)
    cmd = [CXX] + flags + ["-I" + inc, "-I" + hdir, src, "-o", out,
                           "-lboost_thread", "-lboost_chrono", "-lboost_system", "-lpthread"] + libs
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode != 0:
        raise CheckError("harness %s does not compile:\n%s" % (name, p.stderr[-4000:]))
    os.makedirs(cdir, exist_ok=True)
    # keep the cache small
    old = sorted((os.path.join(cdir, f) for f in os.listdir(cdir) if f.startswith(name + "-")), key=os.path.getmtime)
    for f in old[:-3]:
        if time.time() - os.path.getmtime(f) > 1800:      # (not those which a concurrent check uses)
            os.unlink(f)
    shutil.move(out, cached + ".tmp%d" % os.getpid())
    os.rename(cached + ".tmp%d" % os.getpid(), cached)
    return cached


# ----------------------------------------------------------------------- TLC
def tla_value(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return v if v.startswith("=") else '"%s"' % v
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(tla_value(x) for x in sorted(v, key=str)) + "}"
    raise ValueError(v)


def native_ops():
    """Native evaluation of rational and matrix arithmetics (tools/java/*.java); returns the directory of the classes."""
    if os.environ.get("VERIF_PLAIN_TLA"):
        return VERIF      # only the definitions in the specification: to validate the native ones
    src = [os.path.join(VERIF, "tools", "java", f) for f in ("Num.java", "Mat.java")]
    h = hashlib.sha256(b"".join(open(f, "rb").read() for f in src)).hexdigest()[:16]
    d = os.path.join(BUILD, "cache", "java-" + h)
    if not os.path.exists(os.path.join(d, "Mat.class")):
        os.makedirs(os.path.join(BUILD, "cache"), exist_ok=True)
        t = tempfile.mkdtemp(dir=os.path.join(BUILD, "cache"))
        r = subprocess.run(["javac", "-cp", "/opt/veriftools/tla/tla2tools.jar", "-d", t] + src, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise CheckError("javac failed: " + r.stdout[-1000:])
        try:
            os.rename(t, d)
        except OSError:
            shutil.rmtree(t, ignore_errors=True)
    return d


def run_tlc(module, constants, invariants, scratch, label, workers=8, timeout=800, properties=(), heap="6g",
            spec="Spec", extra=()):
    """Runs TLC exhaustively. Returns (cases, stats)."""
    d = os.path.join(scratch, "tlc-" + label)
    os.makedirs(d)
    cfg = os.path.join(d, module + ".cfg")
    with open(cfg, "w") as f:
        f.write("SPECIFICATION %s\n" % spec)
        if constants:
            f.write("CONSTANTS\n")
        for k, v in constants.items():
            f.write("  %s = %s\n" % (k, tla_value(v)))
        if invariants:
            f.write("INVARIANTS %s\n" % " ".join(invariants))
        if properties:
            f.write("PROPERTIES %s\n" % " ".join(properties))
        f.write("CHECK_DEADLOCK FALSE\n")
    jar = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m", "-cp", native_ops() + ":" + jar, "tlc2.TLC", "-noGenerateSpecTE", "-workers", str(workers),
           "-metadir", os.path.join(d, "states"), "-config", cfg, "-lncheck", "final"] + list(extra) + \
          [os.path.join(VERIF, "spec", module + ".tla")]
    out = os.path.join(d, "out")
    t0 = time.time()
    with open(out, "w") as fo:
        try:
            rc = subprocess.run(cmd, stdout=fo, stderr=subprocess.STDOUT, timeout=timeout, cwd=os.path.join(VERIF, "spec")).returncode
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on %s (%s)" % (module, label))
    cases, tail, stats = [], [], {}
    with open(out, errors="replace") as fi:
        for line in fi:
            if line.startswith('"CASE '):
                cases.append(json.loads(json.loads(line.strip())[5:]))
                continue
            tail.append(line)
            m = re.match(r"(\d+) states generated, (\d+) distinct states found", line)
            if m:
                stats = {"transitions": int(m.group(1)), "states": int(m.group(2))}
    if rc != 0 or "Model checking completed. No error has been found." not in "".join(tail[-40:]):
        raise CheckError("TLC failed on %s (%s):\n%s" % (module, label, "".join(tail[-40:])))
    shutil.rmtree(d)
    cases.sort(key=lambda c: json.dumps(c, sort_keys=True))
    stats["tlc_s"] = round(time.time() - t0, 1)
    return cases, stats


# -------------------------------------------------------------------- replay
def strip_exp(case):
    c = {k: v for k, v in case.items() if k != "steps"}
    c["steps"] = [{k: v for k, v in s.items() if k != "exp"} for s in case["steps"]]
    return c


def replay(binary, cases, scratch, label, env=None, case_timeout=60, cwd=None):
    """Executes the cases; returns a list of observation lists; a crash or a
    hang is recorded as {"crash": ...} in place of the missing observations."""
    d = tempfile.mkdtemp(prefix="replay-" + label, dir=scratch)
    inp, out = os.path.join(d, "in"), os.path.join(d, "out")
    with open(inp, "w") as f:
        for c in cases:
            f.write(json.dumps(strip_exp(c)) + "\n")
    res = [None] * len(cases)
    e = dict(os.environ)
    e["MALLOC_PERTURB_"] = "165"
    e.update(env or {})
    first, crashes = 0, 0
    while first < len(cases):
        if os.path.exists(out):
            os.unlink(out)
        open(out, "w").close()
        work = os.path.join(d, "cwd%d" % first)
        os.makedirs(work)
        with open(os.path.join(d, "err"), "w") as fe:
            p = subprocess.Popen([binary, inp, out, str(first)], stdout=subprocess.DEVNULL, stderr=fe, env=e, cwd=cwd or work)
            last_size, last_t, killed = -1, time.time(), False
            while True:
                try:
                    p.wait(timeout=0.2)
                    break
                except subprocess.TimeoutExpired:
                    sz = os.path.getsize(out)
                    if sz != last_size:
                        last_size, last_t = sz, time.time()
                    elif time.time() - last_t > case_timeout:
                        p.kill()
                        p.wait()
                        killed = True
                        break
        begun, ended = None, False
        with open(out) as fi:
            for line in fi:
                try:
                    r = json.loads(line)
                except ValueError:
                    continue
                if "begin" in r:
                    begun = r["begin"]
                elif "i" in r:
                    res[r["i"]] = r["obs"]
                elif "end" in r:
                    ended = True
        shutil.rmtree(work, ignore_errors=True)
        if ended and p.returncode == 0:
            break
        if ended:
            # all the cases ran, the process died at exit
            res[-1] = [{"crash": "at exit, code %d" % p.returncode}]
            break
        if begun is None:
            raise CheckError("harness did not start (%s): code %s" % (label, p.returncode))
        crashes += 1
        res[begun] = [{"crash": "hang" if killed else "code %d" % p.returncode}]
        first = begun + 1
        if crashes > 20:
            break
    shutil.rmtree(d, ignore_errors=True)
    return res


def value(x):
    """Normal form of an expected value."""
    if isinstance(x, dict) and set(x) == {"n", "d"}:
        if x["d"] == 0:
            if abs(x["n"]) > 1:
                return math.ldexp(1 if x["n"] > 0 else -1, abs(x["n"]) - 1100)
            return "nan" if x["n"] == 0 else "inf" if x["n"] > 0 else "-inf"
        return x["n"] / x["d"]
    if isinstance(x, dict) and set(x) == {"a", "b", "r"} and all(isinstance(v, dict) and set(v) == {"n", "d"} for v in x.values()):
        return value(x["a"]) + value(x["b"]) * math.log(value(x["r"]))
    if isinstance(x, dict) and set(x) == {"a", "b"} and all(isinstance(v, dict) and set(v) == {"n", "d"} for v in x.values()):
        return value(x["a"]) + value(x["b"]) * math.log(2)
    if isinstance(x, dict) and set(x) == {"a", "c"} and all(isinstance(v, dict) and set(v) == {"n", "d"} for v in x.values()):
        return value(x["a"]) + value(x["c"]) / math.log(2)
    if isinstance(x, dict) and set(x) == {"lit"}:
        return float(x["lit"])
    if isinstance(x, dict) and set(x) == {"terms"}:
        return sum(value(t["q"]) * math.prod(factor(f) for f in t["f"]) for t in x["terms"])
    return x


WHEEL_DIRECTION = 1.07519348146676   # of the wheels of pepper_ik


def factor(f):
    """Irrational factors of expected values."""
    if f["k"] == "at":
        return math.atan2(value(f["s"]), value(f["c"]))
    if f["k"] == "lit":
        return float(f["v"])
    if f["k"] == "rat":
        return value(f["q"])
    return {"sinw": math.sin, "cosw": math.cos}[f["k"]](WHEEL_DIRECTION)


def diff(exp, obs, path="", tol=1e-9):
    """First difference between an expected and an observed value, or None."""
    if isinstance(exp, dict) and set(exp) == {"v", "eps", "k"}:
        # a number and a multiple of 2^-k: compared to 1e-11
        v, e = value(exp["v"]), value(exp["eps"])
        if e == 0:
            return diff(v, obs, path, min(tol, 1e-11))
        exp, tol = v + e * 2.0 ** -exp["k"], 1e-11
        if isinstance(obs, bool) or not isinstance(obs, (int, float)) or not abs(exp - obs) <= tol + 1e-14 * abs(exp):
            return "%s: expected %.17g, got %s" % (path, exp, short(obs))
        return None
    if isinstance(exp, dict) and set(exp) == {"near", "tol"}:
        return diff(exp["near"], obs, path, value(exp["tol"]))
    if isinstance(exp, dict) and set(exp) == {"angle"}:
        # modulo complete turns
        a = value(exp["angle"])
        if isinstance(obs, bool) or not isinstance(obs, (int, float)):
            return "%s: expected %.17g, got %s" % (path, a, short(obs))
        return diff(a, a + math.remainder(obs - a, 2 * math.pi), path, tol)
    if isinstance(exp, dict) and set(exp) == {"n", "d"} and exp["d"] == 0 and abs(exp["n"]) > 1:
        # a power of two: the relative error counts
        e = value(exp)
        if isinstance(obs, bool) or not isinstance(obs, (int, float)) or not abs(e - obs) <= 1e-13 * abs(e):
            return "%s: expected %.17g, got %s" % (path, e, short(obs))
        return None
    exp = value(exp)
    if exp == "*" or (exp == ANY and not isinstance(exp, bool)):
        return None
    if isinstance(exp, dict):
        if not isinstance(obs, dict):
            return "%s: expected %s, got %s" % (path, short(exp), short(obs))
        if "throws" not in exp and obs.get("throws"):
            return "%s: unexpected exception: %s" % (path, short(obs.get("what", "")))
        if exp.get("throws") is True:
            if not obs.get("throws"):
                return "%s: expected an exception, got %s" % (path, short(obs))
            if str(obs.get("what", "")).startswith("eigen_assert"):
                return "%s: expected an exception, got an abort: %s" % (path, obs["what"])
            return None
        if "crash" in obs:
            return "%s: crash (%s)" % (path, obs["crash"])
        for k, v in exp.items():
            if k not in obs:
                return "%s: missing %s" % (path, k)
            r = diff(v, obs[k], path + "." + k, tol)
            if r:
                return r
        return None
    if isinstance(exp, list):
        if not isinstance(obs, list):
            return "%s: expected %s, got %s" % (path, short(exp), short(obs))
        if len(exp) != len(obs):
            return "%s: expected size %d, got %d" % (path, len(exp), len(obs))
        for i, (a, b) in enumerate(zip(exp, obs)):
            r = diff(a, b, "%s[%d]" % (path, i), tol)
            if r:
                return r
        return None
    if isinstance(exp, bool) or isinstance(exp, str) or exp is None:
        return None if exp == obs and type(exp) == type(obs) else "%s: expected %s, got %s" % (path, short(exp), short(obs))
    if isinstance(obs, bool) or not isinstance(obs, (int, float)):
        return "%s: expected %s, got %s" % (path, short(exp), short(obs))
    if exp == INF or exp == -INF:
        exp = 1e20 if exp > 0 else -1e20
    if not abs(exp - obs) <= tol * max(1.0, abs(exp)):
        return "%s: expected %.17g, got %.17g" % (path, exp, obs)
    return None


def short(x):
    s = json.dumps(x)
    return s if len(s) < 200 else s[:200] + "..."


def judge(case, obs, tol=1e-9):
    """Returns (step index, message) of the first disagreement, or None."""
    tol = case.get("tol", tol)
    if isinstance(tol, dict):
        tol = 10.0 ** -tol["digits"] if "digits" in tol else value(tol)
    if obs is None:
        return (0, "not executed")
    for i, s in enumerate(case["steps"]):
        if i >= len(obs):
            return (i, "no observation")
        if isinstance(obs[i], dict) and "crash" in obs[i]:
            return (i, "crash (%s)" % obs[i]["crash"])
        if "exp" not in s:
            continue
        r = diff(s["exp"], obs[i], s.get("op", ""), tol)
        if r:
            return (i, r)
    return None
