"""C16: time limits."""
import math
from common import *
import lab, treegen

ID = "C16"
RULE = ("A case is a set of timeout options from command line, environment and configuration, baseline build and test times and, per mutant, build and test times that end just within or "
        "just beyond the limit the model gives (or so close to it that only a time actually recorded short of the limit is held against the program), on a virtual clock that only the children advance; a few cases use several jobs and real time. Children past their limit may have "
        "descendants, and children that ignore the hang-up and interrupt signals. Non-trivial when at least one phase exceeds its limit and one ends within.")
CASES = {"quick": 1000, "thorough": 20000}


def secs(d, lo, hi):
    v = d.int(lo, hi)
    return v if d.chance(70) else v + d.choice([0.5, 0.25, 0.1])


def gen(d):
    if d.chance(4):
        return gen_real(d)
    if d.chance(10):
        return gen_check(d)
    if d.chance(3):
        return gen_tiny(d)
    files = treegen.tree(d, maxfiles=1, menu=treegen.SIMPLE, lo=1, hi=2)
    o = dict(timeout=None, mult=None, cmult=None, minimum=None, emin=None, cmin=None, bt=None, bm=None, cbm=None)
    if d.chance(30):
        o["timeout"] = secs(d, 8, 400)
    elif d.chance(40):
        o["mult"] = d.choice([1.5, 2, 3, 4.5, 7, 10, 0.5, 0.9, 0.1])
    if d.chance(25):
        o["cmult"] = d.choice([1.5, 2, 3, 6, 8, 0.5])
    if d.chance(25):
        o["minimum"] = secs(d, 6, 500)
    if d.chance(15):
        o["emin"] = secs(d, 6, 500)
    if d.chance(20):
        o["cmin"] = secs(d, 6, 500)
    if d.chance(30):
        o["bt"] = secs(d, 8, 300)
    elif d.chance(35):
        o["bm"] = d.choice([1.5, 2, 3, 5, 0.5])
    if d.chance(20):
        o["cbm"] = d.choice([1.5, 2.5, 4])
    bb, btest = d.choice([0, 12, 40, 100, 333]), d.choice([0, 0, 3, 4.1, 7, 11.3, 50, 600]) if d.chance(50) else d.int(1, 800) / 10
    return dict(kind="v", files=files, o=o, bb=bb, btest=btest, skip=d.chance(25), noconfig=d.chance(10), notimes=d.chance(30),
                plan=[[d.choice(["in", "over", "in", "zero", "near"]), d.choice(["in", "over", "zero", "near"]), d.choice(["0", "0", "101"]), d.chance(40)] for _ in d.many(2, 8)],
                basehang=d.chance(8), nextest=d.chance(15), shuffle=d.chance(50))


def gen_real(d):
    return dict(kind="r", files=treegen.tree(d, maxfiles=1, menu=treegen.SIMPLE, lo=1, hi=2), jobs=d.choice([1, 2, 3, 3, 4, 4]), how=d.choice(["explicit", "explicit, baseline", "minimum", "minimum"]), plan=[d.choice(["hang", "", "", "bhang"]) for _ in d.many(4, 7)], child=d.chance(60))


def gen_tiny(d):
    """Limits near zero, which everything exceeds."""
    return dict(kind="t", files=treegen.tree(d, maxfiles=1, menu=treegen.SIMPLE, lo=1, hi=2), limit=d.choice([0, 0.001, 0.2, 0.5, 0.9, 1, 1.5]), what=d.choice(["test", "test", "build", "check"]), jobs=d.choice([1, 1, 2]),
                adv=d.choice([1.6, 2, 5, 19, 100]), child=d.chance(50))


def gen_check(d):
    """Check-only runs: only the build limit matters, whatever is said about tests."""
    a = []
    if d.chance(50):
        a.append(f"--timeout={secs(d, 1, 100)}")
    elif d.chance(30):
        a.append(f"--timeout-multiplier={d.choice([1.5, 2, 3])}")
    if d.chance(30):
        a.append(f"--minimum-test-timeout={secs(d, 1, 100)}")
    bt = secs(d, 8, 300) if d.chance(50) else None
    return dict(kind="c", files=treegen.tree(d, maxfiles=1, menu=treegen.SIMPLE, lo=1, hi=2), args=a, bt=bt, bm=d.choice([0.5, 1.5, 2, 3]) if bt is None and d.chance(60) else None, bmcfg=d.chance(40), skip=d.chance(40),
                base=d.choice([0, 3, 50, 5000]), plan=[[d.choice(["in", "over", "zero", "in"]), d.choice(["0", "0", "101"]), d.chance(40)] for _ in d.many(2, 6)])


def opts(case):
    o = case["o"]
    args, env, cfg = [], {}, ""
    for k, f in (("timeout", "--timeout"), ("mult", "--timeout-multiplier"), ("minimum", "--minimum-test-timeout"), ("bt", "--build-timeout"), ("bm", "--build-timeout-multiplier")):
        if o[k] is not None:
            args.append(f"{f}={o[k]}")
    if o["emin"] is not None:
        env["CARGO_MUTANTS_MINIMUM_TEST_TIMEOUT"] = str(o["emin"])
    for k, f in (("cmult", "timeout_multiplier"), ("cmin", "minimum_test_timeout"), ("cbm", "build_timeout_multiplier")):
        if o[k] is not None:
            cfg += f"{f} = {float(o[k])}\n"
    return args, env, cfg


def limits(case):
    o = case["o"]
    nc = case["noconfig"]

    def first(*xs):
        for x in xs:
            if x is not None:
                return x
    mult = first(o["mult"], None if nc else o["cmult"], 5)
    minimum = first(o["minimum"], o["emin"], None if nc else o["cmin"], 20)
    if o["timeout"] is not None:
        test = o["timeout"]
    elif case["skip"]:
        test = 300
    else:
        test = max(minimum, math.ceil(case["btest"] * mult))
    bm = first(o["bm"], None if nc else o["cbm"])
    if o["bt"] is not None:
        build = o["bt"]
    elif bm is not None and not case["skip"]:
        build = case["bb"] * bm
    else:
        build = None
    return build, test, mult, minimum


def run_case(case, ctx):
    c = ctx.case()
    try:
        return dict(r=run_real, v=run_virtual, c=run_check, t=run_tiny)[case["kind"]](case, ctx, c)
    finally:
        c.cleanup()


def outcomes(c, files, what):
    got = {}
    for o in c.outjson("outcomes.json")["outcomes"]:
        n = "baseline"
        if o["scenario"] != "Baseline":
            m = o["scenario"]["Mutant"]
            n = mutant_name(m, files[m["file"]])
        got[n] = o
    return got


def run_virtual(case, ctx, c):
    files = case["files"]
    lab.write_tree(c, dict(files=files))
    args, env, cfg = opts(case)
    if cfg:
        c.write(".cargo/mutants.toml", cfg)
    ms = lab.mutants(c, files)
    if any(m["dup"] for m in ms) or not ms:
        return dict(nontrivial=False)
    base = tree_digest(lab.rs_bytes(files))
    build, test, mult, minimum = limits(case)
    slack = 5 + mult
    lines = []
    want = {}
    durs = {}
    basehang = case["basehang"] and case["o"]["timeout"] is not None and not case["skip"]
    if not case["skip"] and case["o"]["timeout"] is not None and case["btest"] > case["o"]["timeout"]:
        basehang = True
    if not case["skip"]:
        lines.append(f"{base} build adv {int(case['bb'] * 1000)} exit 0")
        lines.append(f"{base} test " + (f"adv {int((case['o']['timeout'] + slack) * 1000)} child sleep 5000 exit 0" if basehang and case["basehang"] else f"adv {int(case['btest'] * 1000)} sleep 20 exit 0"))
    small_build = build is not None and build < 5
    if small_build:  # a multiple of a baseline time near zero: real time decides
        return dict(nontrivial=False)
    if case["o"]["timeout"] is not None and not case["skip"] and not case["basehang"] and abs(case["btest"] - case["o"]["timeout"]) <= 3:
        return dict(nontrivial=False)
    over = within = 0
    near = {}
    for i, m in enumerate(ms):
        pb, pt, code, child = case["plan"][i % len(case["plan"])]

        def dur(p, lim):
            if p == "zero":
                return 0, False
            if lim is None:
                return (100000 if p == "over" else 60), False
            if p == "near":
                raw = case["btest"] * mult
                return (raw if lim is test and test == math.ceil(raw) and test > raw else max(0, lim - 0.2)), None
            return (lim + slack, True) if p == "over" else (max(0, lim - 4), False)
        b, bo = dur(pb, build)
        t, to = dur(pt, test)
        durs[m["name"]] = (b, t)
        ch = ("deaf " if i % 3 == 1 else "") + ("child " if child else "")
        lines.append(f"{m['digest']} build " + (f"{ch}adv {int(b * 1000)} sleep 8000 exit 0" if bo else f"adv {int(b * 1000)} {'sleep 150 ' if bo is None else ''}exit 0"))
        lines.append(f"{m['digest']} test " + (f"{ch}adv {int(t * 1000)} sleep 8000 exit {code}" if to else f"adv {int(t * 1000)} {'sleep 150 ' if to is None else ''}exit {code}"))
        want[m["name"]] = "b" if bo else "t" if to else "c" if code != "0" else "m"
        near[m["name"]] = (bo is None, to is None)
        over += bool(bo or to)
        within += not (bo and to)
    c.plan(lines)
    a = args + (["--baseline=skip"] if case["skip"] else []) + (["--no-config"] if case["noconfig"] else []) + (["--no-times"] if case["notimes"] else []) + (["--test-tool=nextest"] if case["nextest"] else [])
    a += [] if case["shuffle"] else ["--no-shuffle"]
    r = c.run(*a, warp=40, env=env)
    what = f"args {' '.join(a)}, env {env}, config {cfg!r}, baseline {None if case['skip'] else (case['bb'], case['btest'])} s; model limits build {build} test {test}; {r}"
    left = c.stub_pids(1.0)
    if left:
        raise Violation(f"descendants of a timed-out child are still running; {what}")
    got = outcomes(c, files, what)
    if basehang:
        ctx.label("baseline over its limit")
        if r.code != 4 or list(got) != ["baseline"] or got["baseline"]["summary"] != "Timeout":
            raise Violation(f"the baseline exceeded its explicit limit but is recorded as {[(k, v['summary']) for k, v in got.items()][:3]}; {what}")
        return dict(nontrivial=True)
    if not case["skip"]:
        pr = got["baseline"]["phase_results"]
        for p, w in zip(pr, (case["bb"], case["btest"])):
            if not (w - 0.1 <= p["duration"] <= w + 15):
                raise Violation(f"baseline {p['phase']} took {w} s, recorded {p['duration']}; {what}")
    # the limits that follow from the baseline times as recorded, before any rounding up
    lb, lt = build, test
    if not case["skip"]:
        if case["o"]["timeout"] is None:
            lt = max(minimum, got["baseline"]["phase_results"][1]["duration"] * mult)
        if case["o"]["bt"] is None and build is not None:
            lb = got["baseline"]["phase_results"][0]["duration"] * build / case["bb"]
    for n, w in want.items():
        o = got.get(n)
        if o is None:
            raise Violation(f"{n} was not tested; {what}")
        for p in o["phase_results"]:
            lim = lb if p["phase"] == "Build" else lt
            if p["process_status"] == "Timeout" and (lim is None or p["duration"] < lim - 0.002):
                raise Violation(f"{n}: {p['phase']} was timed out after {p['duration']} s, its limit is {lim} s or more; {what}")
            if p["process_status"] == "Timeout" and near[n][p["phase"] == "Test"]:
                ctx.label("slow machine: near miss timed out")
                w = want[n] = "b" if p["phase"] == "Build" else "t"
        if any(near[n]):
            ctx.label("near its limit")
        st = [(p["phase"], p["process_status"]) for p in o["phase_results"]]
        exp = {"b": [("Build", "Timeout")], "t": [("Build", "Success"), ("Test", "Timeout")], "c": [("Build", "Success"), ("Test", {"Failure": 101})],
               "m": [("Build", "Success"), ("Test", "Success")]}[w]
        if st != exp:
            raise Violation(f"{n} with build {durs[n][0]} s, test {durs[n][1]} s: recorded {st}, expected {exp}; {what}")
        if (o["summary"] == "Timeout") != (w in "bt"):
            raise Violation(f"{n}: {st} is summarised as {o['summary']}; {what}")
    for e in c.events():
        killed = e["end"] is None
        n = next((m["name"] for m in ms if m["digest"] == e["digest"]), "baseline")
        if n in near and near[n][e["phase"] == "test"]:
            continue  # it may end by itself just when its time is up
        if killed != ({"b": "build", "t": "test"}.get(want.get(n)) == e["phase"]):
            raise Violation(f"{n}: {e['phase']} was {'ended early' if killed else 'not ended'}; {what}")
    code = 3 if set(want.values()) & set("bt") else 2 if "m" in want.values() else 0
    if r.code != code:
        raise Violation(f"exit status should be {code}; {what}")
    ctx.label("phases over", over)
    ctx.label("test limit from " + ("explicit" if case["o"]["timeout"] is not None else "fallback" if case["skip"] else "minimum" if test > math.ceil(case["btest"] * mult) else "multiple"))
    ctx.label("build limit " + ("none" if build is None else "set"))
    return dict(nontrivial=over > 0 and within > 0)


def run_check(case, ctx, c):
    files, bt = case["files"], case["bt"]
    lab.write_tree(c, dict(files=files))
    ms = lab.mutants(c, files)
    base = tree_digest(lab.rs_bytes(files))
    if not ms or any(m["dup"] or m["digest"] == base for m in ms):
        return dict(nontrivial=False)
    bm = case.get("bm")
    if bm is not None and not case["skip"]:
        bt = case["base"] * bm
        if bt < 20:
            return dict(nontrivial=False)
        slack = 15 * bm + 5
    else:
        slack = 5
    lines, want = [f"{base} check adv {int(case['base'] * 1000)} sleep 20 exit 0"], {}
    for i, m in enumerate(ms):
        p, code, child = case["plan"][i % len(case["plan"])]
        t = 0 if p == "zero" else (bt + slack if p == "over" else bt - 4) if bt is not None else (20000 if p == "over" else 310)
        over = p == "over" and bt is not None
        lines.append(f"{m['digest']} check " + (f"{'child ' if child else ''}adv {int(t * 1000)} sleep 8000 exit {code}" if over else f"adv {int(t * 1000)} sleep 20 exit {code}"))
        want[m["name"]] = ("Timeout", "Timeout") if over else (("Success", "Success") if code == "0" else ("Unviable", {"Failure": 101}))
    c.plan(lines)
    a = ["--check", *case["args"]] + ([f"--build-timeout={bt}"] if case["bt"] is not None else []) + (["--baseline=skip"] if case["skip"] else [])
    if bm is not None and case["bmcfg"]:
        c.write(".cargo/mutants.toml", f"build_timeout_multiplier = {float(bm)}\n")
    elif bm is not None:
        a.append(f"--build-timeout-multiplier={bm}")
    r = c.run(*a, warp=40)
    what = f"args {' '.join(a)}, multiplier {bm}, baseline {case['base']} s, plan {case['plan']}; {r}"
    if c.stub_pids(1.0):
        raise Violation(f"descendants of a timed-out child are still running; {what}")
    got = outcomes(c, files, what)
    if not case["skip"] and got["baseline"]["summary"] != "Success":
        raise Violation(f"the baseline check is recorded as {got['baseline']['summary']}; {what}")
    for n, (s, st) in want.items():
        if n not in got:
            raise Violation(f"{n} was not checked; {what}")
        ps = [(p["phase"], p["process_status"]) for p in got[n]["phase_results"]]
        if (got[n]["summary"], ps) != (s, [("Check", st)]):
            raise Violation(f"{n}: recorded {got[n]['summary']} {ps}, expected {s} {st}; {what}")
    if r.code != (3 if ("Timeout", "Timeout") in want.values() else 0):
        raise Violation(f"wrong exit status; {what}")
    ctx.label("check only, " + ("no limit" if bt is None else "limit" if case["bt"] is not None else "multiple"))
    return dict(nontrivial=len({s for s, _ in want.values()}) > 1 or bt is None)


def run_tiny(case, ctx, c):
    files, what, lim = case["files"], case["what"], case["limit"]
    lab.write_tree(c, dict(files=files))
    ms = lab.mutants(c, files)
    base = tree_digest(lab.rs_bytes(files))
    if not ms or any(m["dup"] or m["digest"] == base for m in ms):
        return dict(nontrivial=False)
    c.plan([f"{m['digest']} {what} {'child ' if case['child'] else ''}adv {int(case['adv'] * 1000)} sleep 8000 exit 0" for m in ms])
    a = ["--baseline=skip", f"--{'timeout' if what == 'test' else 'build-timeout'}={lim}", f"-j{case['jobs']}"] + (["--check"] if what == "check" else [])
    r = c.run(*a, warp=40)
    what_ = f"args {' '.join(a)}, every {what} takes {case['adv']} s; {r}"
    if c.stub_pids(1.0):
        raise Violation(f"descendants of a timed-out child are still running; {what_}")
    got = outcomes(c, files, what_)
    for m in ms:
        o = got.get(m["name"])
        if o is None:
            raise Violation(f"{m['name']} was not tested; {what_}")
        st = [(p["phase"], p["process_status"]) for p in o["phase_results"]]
        if o["summary"] != "Timeout" or st[-1] != (what.capitalize(), "Timeout"):
            raise Violation(f"{m['name']}: recorded {o['summary']} {st}; {what_}")
        if o["phase_results"][-1]["duration"] < lim - 0.002:
            raise Violation(f"{m['name']}: timed out after {o['phase_results'][-1]['duration']} s; {what_}")
    if r.code != 3:
        raise Violation(f"wrong exit status; {what_}")
    ctx.label("limit near zero")
    return dict(nontrivial=True)


def run_real(case, ctx, c):
    files = case["files"]
    lab.write_tree(c, dict(files=files))
    ms = lab.mutants(c, files)
    if any(m["dup"] for m in ms):
        return dict(nontrivial=False)
    lines = []
    want = {}
    used = 0
    for i, m in enumerate(ms):
        p = case["plan"][i % len(case["plan"])]
        if p and used >= 3:
            p = ""
        used += p != ""
        want[m["name"]] = {"hang": "t", "bhang": "b", "": "m"}[p]
        ch = "child " if case["child"] else ""
        if p == "bhang":
            lines.append(f"{m['digest']} build {ch}hang")
        if p == "hang":
            lines.append(f"{m['digest']} test {ch}hang")
    c.plan(lines)
    t0 = time.time()
    a = ["--minimum-test-timeout=5" if case["how"] == "minimum" else "--timeout=5", *(["--baseline=skip"] if case["how"] == "explicit" else [])]
    r = c.run(*a, "--build-timeout=5", f"-j{case['jobs']}")
    what = f"args {a}, jobs {case['jobs']}, plan {case['plan']}; {r}"
    if c.stub_pids(1.0):
        raise Violation(f"timed-out children or their descendants are still running; {what}")
    got = outcomes(c, files, what)
    limit = {"Build": 5, "Test": 5}
    if case["how"] == "minimum":
        limit["Test"] = max(5, math.ceil(got["baseline"]["phase_results"][1]["duration"] * 5))
    for n, w in want.items():
        st = [(p["phase"], p["process_status"]) for p in got[n]["phase_results"]]
        exp = {"b": [("Build", "Timeout")], "t": [("Build", "Success"), ("Test", "Timeout")], "m": [("Build", "Success"), ("Test", "Success")]}[w]
        if st != exp:
            raise Violation(f"{n}: recorded {st}, expected {exp}; {what}")
        for p in got[n]["phase_results"]:
            if p["process_status"] == "Timeout" and not limit[p["phase"]] <= p["duration"] < limit[p["phase"]] + 4.5:
                raise Violation(f"{n}: the limit of {p['phase']} is {limit[p['phase']]} s, it was ended after {p['duration']} s; {what}")
    ctx.label("real time, jobs %d" % case["jobs"])
    return dict(nontrivial=used > 0)
