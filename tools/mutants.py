#!/usr/bin/env python3
"""Development aid (not a check): mutation analysis of the checks.
   mutants.py cases                     writes the behaviours of all runs to WORK/cases
   mutants.py run FILE:COUNT... [-j N]  evaluates COUNT random mutants of each file (path below the repository)
   mutants.py hand FILE.py [-j N]       evaluates the mutants listed in FILE.py: MUTANTS = [(file, old text, new text), ...]
Results: WORK/results.jsonl; "survived" mutants are worth a look. Works on copies of the repository in WORK."""
import json, os, random, re, shutil, subprocess, sys, tempfile, multiprocessing, pickle
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib, props, check
WORK = os.environ.get("MUTANTS_WORK", "/tmp/mutants")
SRC = ["core/include", "modules/wpg04/include", "modules/pepper_mpc/include", "modules/pepper_ik/include", "bridges/config_msgpack/interface", "bridges/config_yaml/interface",
       "bridges/qpOASES/interface", "bridges/qpmad/interface", "bridges/QuadProgpp/interface", "bridges/rbdl/interface", "bridges/obstacle_avoidance"]


def runs():
    for p in sorted(props.PROPS):
        for r in props.PROPS[p]["runs"]("quick", 1):
            if "custom" in r or r.get("trace") or r.get("expect_cases") is False:
                continue
            yield p, r


def cases():
    os.makedirs(WORK + "/cases", exist_ok=True)
    for p, r in runs():
        f = "%s/cases/%s-%s.pickle" % (WORK, p, r["label"])
        if os.path.exists(f):
            continue
        d = tempfile.mkdtemp(dir=WORK)
        c, _ = vlib.run_tlc(r["module"], r["constants"], ["Emit"], d, r["label"])
        for x in c:
            for st in x["steps"]:
                if st["op"] in r.get("drop", ()):
                    st.pop("exp", None)
        pickle.dump(c, open(f, "wb"))
        shutil.rmtree(d)
        print(p, r["label"], len(c), flush=True)


def mask(s):
    """Comments, strings and preprocessor lines replaced by spaces of the same length."""
    def blank(m):
        return re.sub(r"[^\n]", " ", m.group(0))
    s = re.sub(r'/\*.*?\*/|//[^\n]*|"(?:\\.|[^"\\\n])*"', blank, s, flags=re.S)
    return re.sub(r"(?m)^[ \t]*#(?:.*\\\n)*.*$", blank, s)


SWAPS = [(r" \+ ", [" - "]), (r" - ", [" + "]), (r" < ", [" <= "]), (r" <= ", [" < "]), (r" > ", [" >= ", " < "]), (r" >= ", [" > "]),
         (r" == ", [" != "]), (r" != ", [" == "]), (r" && ", [" || "]), (r" \|\| ", [" && "]), (r" \+= ", [" = ", " -= "]), (r" -= ", [" += "]),
         (r" \*= ", [" = "]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\b0\b(?!\.)", ["1"]), (r"\b1\b(?!\.)", ["0", "2"]), (r"\b2\b(?!\.)", ["3", "1"]),
         (r"\brows\(\)", ["cols()"]), (r"\bcols\(\)", ["rows()"]), (r"\.transpose\(\)", [""]), (r"\bbreak;", [";", "continue;"]), (r"\bcontinue;", [";"]),
         (r"\bx\(\)", ["y()"]), (r"\by\(\)", ["x()"]), (r"\bz\(\)", ["x()"]), (r"\bstd::min\b", ["std::max"]), (r"\bstd::max\b", ["std::min"]),
         (r"\bleft", ["right"]), (r"\bright", ["left"]), (r"\bLEFT", ["RIGHT"]), (r"\bRIGHT", ["LEFT"]), (r"\blb\b", ["ub"]), (r"\bub\b", ["lb"]),
         (r"\bLower", ["Upper"]), (r"\bUpper", ["Lower"]), (r"LowerBounds\b", ["UpperBounds"]), (r"UpperBounds\b", ["LowerBounds"]), (r"\bLSS\b", ["RSS"]), (r"\bRSS\b", ["LSS"]),
         (r"\btopRows\b", ["bottomRows"]), (r"\bbottomRows\b", ["topRows"]), (r"\bhead\b", ["tail"]), (r"\btail\b", ["head"]), (r"\bsegment\b", ["head"]),
         (r"\bfront\(\)", ["back()"]), (r"\bback\(\)", ["front()"]), (r"= -", ["= "]), (r"\.setZero\(", [".setOnes("]), (r"\bsin\b", ["cos"]), (r"\bcos\b", ["sin"]),
         (r"\* ", ["+ "]), (r" / ", [" * "]), (r"\binitial_state_", ["0*initial_state_"]), (r"!(?=[a-zA-Z(])", [""]), (r"(?<=if \()", ["true || ", "false && "]), (r"(?<=if\()", ["true || ", "false && "])]


def mutants(path):
    s = open(path).read()
    m = mask(s)
    res = []
    for pat, reps in SWAPS:
        for x in re.finditer(pat, m):
            line = m[m.rfind("\n", 0, x.start()) + 1:m.find("\n", x.end())]
            if re.search(r"template|class |struct |typedef|enum |#|operator|static const|private:|public:|using |namespace|HUMOTO_THROW|std::endl", line) and "static const" not in pat:
                continue
            for r in reps:
                res.append((x.start(), x.end(), r))
    # statements left out
    for x in re.finditer(r"(?<=[;{}\n])[ \t]*([A-Za-z_][\w:.\->\[\]()]*(?:\([^;{}]*\)|[ ]*[-+*]?=[^;{}=][^;{}]*));", m):
        t = x.group(1)
        if re.match(r"(return|typedef|using|template|class|struct|const|static|enum|throw|case|delete|friend|explicit|virtual|else|if|for|while|public|protected|private)\b", t):
            continue
        res.append((x.start(1), x.end(), ";"))
    return s, res


def setup(i):
    d = "%s/w%d" % (WORK, i)
    shutil.rmtree(d, ignore_errors=True)
    for p in SRC:
        shutil.copytree(os.path.join("/repo" if not os.environ.get("VERIF_REPO") else os.environ["VERIF_REPO"], p), d + "/repo/" + p)
    os.makedirs(d + "/tmp")
    return d


DEPS, CASES = {}, {}


def harness_key(r):
    return r["harness"], tuple(r.get("defs", ()))


def dependencies(d):
    """harness -> files of the repository"""
    vlib.REPO = d + "/repo"
    res = {}
    for k in sorted(set(harness_key(r) for _, r in runs())):
        t = tempfile.mkdtemp(dir=d + "/tmp")
        vlib.include_tree(t + "/inc")
        flags = [x if x.startswith("-") else "-D" + x for x in k[1]] + vlib.HARNESS_FLAGS.get(k[0], [])
        hd = os.path.join(vlib.VERIF, "harness")
        o = subprocess.run([vlib.CXX, "-std=c++14", "-MM", "-isystem", "/usr/include/eigen3", "-I" + t + "/inc", "-I" + hd] + flags + [hd + "/" + k[0] + ".cpp"],
                           capture_output=True, text=True).stdout
        res[k] = set(os.path.relpath(os.path.realpath(f), d + "/repo") for f in o.replace("\\\n", " ").split()[1:] if f.startswith(t))
        shutil.rmtree(t)
    return res


def evaluate(job):
    f, a, b, rep, line = job
    i = int(multiprocessing.current_process()._identity[0])
    d = "%s/w%d" % (WORK, i)
    if not os.path.exists(d):
        setup(i)
    vlib.REPO = d + "/repo"
    vlib.BUILD = d + "/build"
    os.makedirs(vlib.BUILD, exist_ok=True)
    p = d + "/repo/" + f
    s = open(p).read()
    scratch = tempfile.mkdtemp(dir=d + "/tmp")
    res = {"file": f, "line": line, "old": s[a:b], "new": rep, "text": s[s.rfind("\n", 0, a) + 1:s.find("\n", b)].strip()[:160], "pos": a}
    try:
        open(p, "w").write(s[:a] + rep + s[b:])
        order = sorted((k for k in DEPS if f in DEPS[k]), key=lambda k: len(DEPS[k]))
        if not order:
            res["result"] = "unused"
            return res
        for k in order:
            try:
                binary = vlib.build_harness(k[0], scratch, k[1])
            except vlib.CheckError as e:
                res["result"] = "invalid"
                return res
            for pr, r in runs():
                if harness_key(r) != k:
                    continue
                cs = pickle.load(open("%s/cases/%s-%s.pickle" % (WORK, pr, r["label"]), "rb"))
                try:
                    obs = vlib.replay(binary, cs, scratch, r["label"], r.get("env"), 20)
                except vlib.CheckError as e:
                    res["result"] = "killed"
                    res["by"] = "%s harness did not start" % pr
                    return res
                fi = check.known_findings(pr)
                for c, o in zip(cs, obs):
                    v = check.judge_known(c, o, fi, {})
                    if v:
                        res["result"] = "killed"
                        res["by"] = "%s %s %s" % (pr, r["label"], v[1][:100])
                        return res
        res["result"] = "survived"
        return res
    finally:
        open(p, "w").write(s)
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    os.makedirs(WORK, exist_ok=True)
    if sys.argv[1] == "cases":
        return cases()
    args = sys.argv[2:]
    n = 6
    if "-j" in args:
        n = int(args[args.index("-j") + 1])
        del args[args.index("-j"):args.index("-j") + 2]
    d = setup(0)
    DEPS.update(dependencies(d))
    rnd = random.Random(int(os.environ.get("MUTANTS_SEED", "1")))
    done = set()
    out = WORK + "/results.jsonl"
    if os.path.exists(out):
        for l in open(out):
            x = json.loads(l)
            done.add((x["file"], x["pos"], x["new"]))
    jobs = []
    if sys.argv[1] == "hand":
        env = {}
        exec(open(args[0]).read(), env)
        for f, a, b in env["MUTANTS"]:
            s = open(d + "/repo/" + f).read()
            i = s.find(a)
            if i < 0 or s.count(a) > 1:
                print("NOT UNIQUE", s.count(a), f, a, flush=True)
                continue
            if (f, i, b) not in done:
                jobs.append((f, i, i + len(a), b, s.count("\n", 0, i) + 1))
        args = []
    for x in args:
        f, c = x.rsplit(":", 1)
        s, ms = mutants(d + "/repo/" + f)
        ms = [m for m in ms if (f, m[0], m[2]) not in done]
        rnd.shuffle(ms)
        jobs += [(f, a, b, r, s.count("\n", 0, a) + 1) for a, b, r in ms[:int(c)]]
    rnd.shuffle(jobs)
    print(len(jobs), "mutants", flush=True)
    tally = {}
    for i in range(1, n + 1):
        shutil.rmtree("%s/w%d" % (WORK, i), ignore_errors=True)
    with multiprocessing.Pool(n) as pool:
        for r in pool.imap_unordered(evaluate, jobs):
            tally[r["result"]] = tally.get(r["result"], 0) + 1
            open(out, "a").write(json.dumps(r) + "\n")
            if r["result"] in ("survived", "unused"):
                print(r["result"], "%s:%d" % (r["file"], r["line"]), repr(r["old"]), "->", repr(r["new"]), "|", r["text"], flush=True)
    print(tally)


main()
