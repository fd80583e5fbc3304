"""Runs with scripted outcomes: which mutant gets which result, and what to expect of it."""
from common import *
import treegen

HUGE = 10 ** 9  # ms on the virtual clock


def write_tree(c, case):
    """files: {path: text}; pk: [[name, rel, [[kind, path]...], version]] (default: one root package)."""
    for p, t in case["files"].items():
        c.write(p, t)
    for pk in case.get("pk") or [["p", "", [["lib", "src/lib.rs"]], "0.1.0"]]:
        c.package(pk[0], rel=pk[1], targets=[tuple(t) for t in pk[2]], version=pk[3], default=(len(pk) < 5 or pk[4]))
    c.finish()


def rs_bytes(files):
    return {p: t.encode() for p, t in files.items() if p.endswith(".rs")}


def mutants(c, files, *args, **kw):
    """Selected mutants with their names and the digest of the tree they make."""
    ms = c.list_json(*args, diff=False, **kw)
    base = rs_bytes(files)
    seen = set()
    out = []
    for m in ms:
        text = files[m["file"]]
        m["name"] = mutant_name(m, text)
        t = dict(base)
        t[m["file"]] = mutated(text, m).encode()
        m["digest"] = tree_digest(t)
        m["dup"] = m["digest"] in seen or m["name"] in seen
        seen.add(m["digest"])
        seen.add(m["name"])
        out.append(m)
    return out


def behave(kind, check=False):
    """Plan (phase, behaviour) for an outcome kind."""
    k, _, arg = kind.partition(":")
    code = arg or "101"
    end = f"signal {code[3:]}" if code.startswith("sig") else f"exit {code}"
    if check:
        return {"caught": [], "missed": [], "success": [], "unviable": [("check", end)],
                "timeout": [("check", f"adv {HUGE} hang")], "btimeout": [("check", f"adv {HUGE} hang")]}[k]
    return {"caught": [("test", end)], "missed": [], "unviable": [("build", end)],
            "timeout": [("test", f"adv {HUGE} hang")], "btimeout": [("build", f"adv {HUGE} hang")]}[k]


def expect(kind, check=False):
    k = kind.partition(":")[0]
    if check and k in ("caught", "missed", "success"):
        return "Success"
    return {"caught": "CaughtMutant", "missed": "MissedMutant", "unviable": "Unviable", "timeout": "Timeout", "btimeout": "Timeout"}[k]


LISTS = {"CaughtMutant": "caught.txt", "MissedMutant": "missed.txt", "Unviable": "unviable.txt", "Timeout": "timeout.txt"}


def exit_code(summaries):
    if "Timeout" in summaries:
        return 3
    if "MissedMutant" in summaries:
        return 2
    return 0


def small_tree(d, two=None, maxfiles=3, lo=1, hi=2):
    """A tree with a moderate number of mutants; sometimes a workspace of two or three packages."""
    if two is None:
        two = d.chance(30)
    files = treegen.tree(d, maxfiles=maxfiles, menu=treegen.SIMPLE + ([treegen.MANY] if d.chance(12) else []) + ([treegen.FN[9]] if d.chance(12) else []), lo=lo, hi=hi)
    pk = [["p", "", [["lib", "src/lib.rs"]], "0.1.0"]]
    if two:
        files = {"a/" + p: t for p, t in files.items()}
        pk = [["alpha", "a", [["lib", "src/lib.rs"]], "0.1.0"]]
        files.update(treegen.tree(d, prefix="b/src", maxfiles=1, menu=treegen.SIMPLE, lo=1, hi=1))
        pk.append(["beta", "b", [["lib", "src/lib.rs"]], "2.0.1"])
        if d.chance(30):
            files.update(treegen.tree(d, prefix="c/src", tops=("main.rs",), maxfiles=0, menu=treegen.SIMPLE, lo=1, hi=1))
            pk.append(["gamma", "c", [["bin", "src/main.rs"]], "0.0.3-pre.1"])
    return dict(files=files, pk=pk)


def outcome(d, timeouts=True, check=False):
    ks = [(4, "caught"), (4, "missed"), (3, "unviable")]
    if timeouts:
        ks += [(1, "timeout")]
    k = d.weighted(ks)
    if k in ("caught", "unviable") and d.chance(30):
        k += ":" + str(d.int(1, 255)) if d.chance(40) else ":" + d.choice(["1", "2", "100", "255", "4", "3", "104", "sig9", "sig11", "sig15", "sig6"])
    return k


def assign(ms, oc):
    return {m["name"]: oc[i % len(oc)] for i, m in enumerate(ms)}


def plan(c, ms, oc, check=False, pre=(), extra=(), real=False):
    """pre: list of behaviour prefixes, used in turn; extra: lines placed before everything."""
    lines = list(extra)
    for i, m in enumerate(ms):
        pr = pre[i % len(pre)] + " " if pre and pre[i % len(pre)] else ""
        bh = dict(behave(oc[m["name"]], check))
        if real:  # with several jobs the virtual clock would hit the others too
            bh = {k: v.replace(f"adv {HUGE} ", "") for k, v in bh.items()}
        for ph in (["check"] if check else ["build", "test"]):
            lines.append(f"{m['digest']} {ph} {pr}{bh.get(ph, 'exit 0')}")
    c.plan(lines)


# ---------------------------------------------------------------------------
# A general run


def vto_outcomes(d):
    return [d.choice(["timeout", "timeout", "unviable"]) for _ in d.many(1, 5)]


def gen_run(d, jobs=True, check=True, timeouts=True, sleeps=False, baseline=True, opts=True, vto=False, big=True):
    case = small_tree(d, maxfiles=d.int(0, 3))
    case["check"] = check and d.chance(12)
    case["jobs"] = d.weighted([(5, 1), (3, 2), (2, 3), (1, 5), (1, 8)]) if jobs else 1
    case["jexplicit"] = d.chance(50)
    mode = d.int(0, 5)
    to = timeouts and (case["jobs"] == 1 or d.chance(4))
    if mode == 0:
        oc = [outcome(d, timeouts=to)]
    elif mode == 1:
        oc = [outcome(d, timeouts=False) for _ in d.many(1, 4)]
    else:
        oc = [outcome(d, timeouts=to) for _ in d.many(2, 12)]
    bt = to and d.chance(20)
    if bt:
        oc[d.below(len(oc))] = "btimeout"
    if case["jobs"] > 1:
        # real time-outs: at most one in the list of outcomes
        seen = False
        for i, k in enumerate(oc):
            if "timeout" in k:
                if seen or len(oc) < 6:
                    oc[i] = "caught"
                seen = True
    case["jenv"] = d.weighted([(7, None), (1, "env"), (1, "both"), (1, "long")])
    # with several jobs the virtual clock hits all of them, so then everything that is tested times out
    case["vto"] = vto and case["jobs"] > 1 and not case["check"] and d.chance(12)
    if case["vto"]:
        oc = vto_outcomes(d)
        bt = False
    case["oc"] = oc
    case["args"] = []
    if case["check"] and "timeout" in oc:
        bt = True
    if any("timeout" in k for k in oc) and case["jobs"] > 1 and not case["vto"]:
        case["args"] += ["--timeout=5"]
    if bt or "btimeout" in oc:
        case["args"] += ["--build-timeout=5" if case["jobs"] > 1 else "--build-timeout=%d" % d.int(60, 100)]
    pre = []
    for _ in d.many(1, 4):
        b = []
        if d.chance(20):
            b.append("noise")
        if d.chance(20):
            b.append("artifacts")
        if d.chance(3):
            b.append("flood")
        if sleeps:
            b.append(d.weighted([(4, ""), (3, "sleep %d" % d.int(1, 12)), (1, "sleep %d" % d.int(10, 40)), (2 if case["jobs"] > 1 else 0, f"barrier {case['jobs']}")]))
        pre.append(" ".join(x for x in b if x))
    case["pre"] = pre
    case["skip"] = baseline and d.chance(40)
    case["shuffle"] = d.chance(50)
    if opts:
        case["nextest"] = d.chance(12)
        case["caught"], case["unviable"] = d.chance(30), d.chance(30)
        case["notimes"] = d.chance(50)
        case["shard"] = [d.int(0, 1), 2] if d.chance(10) else None
        case["lvl"] = d.choice(["", "", "--all-logs", "-Ldebug", "--leak-dirs"])
        case["outdir"] = d.chance(15)
    if big and d.chance(2) and (case["jobs"] == 1 or not any("timeout" in k for k in oc)):
        # rather more mutants than usual
        p = sorted(case["files"])[0]
        case["files"][p] = case["files"][p].rstrip("\n") + "\n" + treegen.bulk(0, d.int(20, 75))
    return case


class Run:
    pass


def argv_of(case, c):
    a = list(case["args"])
    if len(case["pk"]) > 1:
        a.append("--workspace")
    if case.get("shard"):
        a.append("--shard=%d/%d" % tuple(case["shard"]))
    sel = [x for x in a if not x.startswith(("--timeout", "--build-timeout"))]
    if case["check"]:
        a.append("--check")
    if case["jobs"] > 1 or case["jexplicit"]:
        a.append(f"-j{case['jobs']}")
    if case["skip"]:
        a.append("--baseline=skip")
    if not case["shuffle"]:
        a.append("--no-shuffle")
    if case.get("nextest"):
        a.append("--test-tool=nextest")
    if case.get("caught"):
        a.append("--caught")
    if case.get("unviable"):
        a.append("-V")
    if case.get("notimes"):
        a.append("--no-times")
    if case.get("lvl"):
        a.append(case["lvl"])
    if case.get("outdir"):
        a += ["-o", str(c.base / "o")]
    return sel, a


def run(case, ctx, c, baseline=(), files=None):
    """Set up, list, plan and run. baseline: [(phase, behaviour)]."""
    R_ = Run()
    write_tree(c, case)
    R_.sel, R_.args = argv_of(case, c)
    R_.ms = mutants(c, case["files"], *R_.sel)
    R_.oc = assign(R_.ms, case["oc"])
    R_.base = tree_digest(rs_bytes(case["files"]))
    R_.dup = any(m["dup"] for m in R_.ms) or any(m["digest"] == R_.base for m in R_.ms)
    extra = [f"{R_.base} {ph} {b}" for ph, b in baseline]
    plan(c, R_.ms, R_.oc, case["check"], case["pre"], extra, real=case["jobs"] > 1 and not case.get("vto"))
    R_.before = snapshot(c.root)
    env, ja = {}, f"-j{case['jobs']}"
    if ja in R_.args and case.get("jenv"):
        if case["jenv"] == "env":
            R_.args.remove(ja)
            env["CARGO_MUTANTS_JOBS"] = str(case["jobs"])
        elif case["jenv"] == "both":
            env["CARGO_MUTANTS_JOBS"] = str(case["jobs"] + 3)
        else:
            R_.args[R_.args.index(ja)] = f"--jobs={case['jobs']}"
    R_.r = c.run(*R_.args, warp=40, tty=case.get("tty"), env=env)
    R_.evs = c.events()
    R_.out = (c.base / "o") if case.get("outdir") else c.root
    return R_


def describe(case, R_):
    return f"args {' '.join(R_.args)}; {len(R_.ms)} mutants; {R_.r}"
