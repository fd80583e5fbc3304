"""C15: no mutant is tested unless the unmutated tree builds and passes."""
from common import *
import lab

ID = "C15"
RULE = ("A case is a generated tree or workspace, a package selection and options, a baseline that passes, fails to build, fails its tests, or exceeds an explicit time "
        "limit (virtual clock), and filters that may leave no mutants. Non-trivial when there is something to test.")
CASES = {"quick": 1500, "thorough": 30000}


def gen(d):
    case = lab.gen_run(d, timeouts=False)
    b = d.weighted([(4, "pass"), (2, "build"), (2, "test"), (2, "timeout"), (1, "none")])
    case["check"] = d.chance(15)
    case["b"] = b
    case["code"] = d.choice(["1", "101", "2", "255", "100", "4"])
    case["noise"] = d.weighted([(5, None), (3, "noise"), (1, "flood")])
    case["limit"] = d.int(30, 60) if b == "timeout" or d.chance(20) else None
    if case["limit"]:
        case["args"] += [f"--timeout={case['limit']}"]
    case["skip"] = d.chance(20)
    if b == "none":
        case["args"] += ["--re", "no such mutant"]
    case["sub"] = d.chance(30)
    case["inplace"] = case["jobs"] == 1 and d.chance(20)
    if case["inplace"]:
        case["jexplicit"] = False
        case["args"].append("--in-place")
    case["iterate"] = d.chance(10)
    case["tp"] = d.weighted([(5, None), (2, "workspace"), (2, "named"), (1, "config")]) if len(case["pk"]) > 1 else None
    return case


def run_case(case, ctx):
    c = ctx.case()
    try:
        lab.write_tree(c, case)
        sel, args = lab.argv_of(case, c)
        if len(case["pk"]) > 1 and case["sub"]:
            for a in (sel, args):
                a.remove("--workspace")
                a += ["-p", case["pk"][-1][0]]
        tp, first_pk = case["tp"], case["pk"][0][0]
        if tp == "config":
            c.write(".cargo/mutants.toml", f'test_package = ["{first_pk}"]\n')
        elif tp:
            args.append("--test-workspace=true" if tp == "workspace" else f"--test-package={first_pk}")
        if case["iterate"]:
            args.append("--iterate")
        ms = lab.mutants(c, case["files"], *[a for a in sel if a != "--in-place"])
        oc = lab.assign(ms, case["oc"])
        base = tree_digest(lab.rs_bytes(case["files"]))
        if any(m["dup"] or m["digest"] == base for m in ms):
            return dict(nontrivial=False)
        bh = []
        first = "check" if case["check"] else "build"
        nz = case["noise"] + " " if case["noise"] else ""
        if case["b"] == "build":
            bh = [(first, f"{nz}exit {case['code']}")]
        elif case["b"] == "test" and not case["check"]:
            bh = [("test", f"{nz}exit {case['code']}")]
        elif case["b"] == "timeout" and not case["check"]:
            bh = [("test", f"{nz}adv {lab.HUGE} hang")]
        lab.plan(c, ms, oc, case["check"], case["pre"], [f"{base} {p} {b}" for p, b in bh])
        r = c.run(*args, warp=40)
        evs = c.events()
        what = f"args {' '.join(args)}; {len(ms)} mutants; {r}"
        out = ((c.base / "o") if case.get("outdir") else c.root) / "mutants.out"
        bs = [e for e in evs if e["digest"] == base]
        mu = [e for e in evs if e["digest"] != base]
        if not ms:
            ctx.label("nothing to test")
            if evs or r.code != 0:
                raise Violation(f"nothing to test, but cargo was run or the status is not 0: {[e['argv'] for e in evs]}; {what}")
            return dict(nontrivial=False)
        if case["skip"]:
            ctx.label("skipped")
            if bs:
                raise Violation(f"baseline skipped but the unmutated tree was run: {bs[0]['argv']}; {what}")
            if {e["digest"] for e in mu} != {m["digest"] for m in ms}:
                raise Violation(f"not all mutants were tested; {what}")
            if r.code == 4:
                raise Violation(f"exit 4 without a baseline; {what}")
            return dict(nontrivial=True)
        phases = [first] if case["check"] else (["build"] if case["b"] == "build" else ["build", "test"])
        if [e["phase"] for e in bs] != phases:
            raise Violation(f"baseline phases {[e['phase'] for e in bs]}, expected {phases}; {what}")
        if mu and evs[:len(bs)] != bs:
            raise Violation(f"a mutant was run before the baseline; {what}")
        if mu and max(e["end"]["t"] if e["end"] else e["t"] for e in bs) > min(e["t"] for e in mu):
            raise Violation(f"a mutant was started before the baseline ended; {what}")
        pk = sorted({m["package"] for m in ms})
        ver = {p[0]: p[3] for p in case["pk"]}
        for e in bs:
            got = [a for a in e["argv"] if a.startswith("--package") or a == "--workspace"]
            want = ["--workspace"] if tp == "workspace" else [f"--package={p}@{ver[p]}" for p in ([first_pk] if tp else pk)]
            if got != want:
                raise Violation(f"baseline runs {got}, should be {want}: packages with mutants are {pk}, test packages {tp}; {what}")
        fail = bool(bh)
        ctx.label("test packages " + (tp or "default"))
        ctx.label("baseline " + (case["b"] if fail else "pass"))
        if fail:
            if mu:
                raise Violation(f"the baseline failed but mutants were tested: {mu[0]['argv']}; {what}")
            if r.code != 4:
                raise Violation(f"the baseline failed, exit status should be 4; {what}")
            for e in bs:
                if e["id"] not in r.out:
                    raise Violation(f"the output of the failing baseline ({e['phase']}) is not shown; {what}")
            if case["noise"] == "flood" and not all(f"flood {s} {i} " in r.out for s in ("out", "err") for i in (0, 1, 700, 1499)):
                raise Violation(f"the output of the failing baseline is only shown in part; {what}")
            o = json.loads((out / "outcomes.json").read_text())
            if len(o["outcomes"]) != 1 or o["outcomes"][0]["summary"] != ("Timeout" if case["b"] == "timeout" else "Failure"):
                raise Violation(f"failing baseline is recorded as {[x['summary'] for x in o['outcomes']]}; {what}")
            if any((out / f).read_text() for f in lab.LISTS.values()):
                raise Violation(f"baseline failed but a text list is not empty; {what}")
        else:
            if {e["digest"] for e in mu} != {m["digest"] for m in ms}:
                raise Violation(f"not all mutants were tested after a passing baseline; {what}")
            if r.code == 4:
                raise Violation(f"exit 4 after a passing baseline; {what}")
        return dict(nontrivial=True)
    finally:
        c.cleanup()
