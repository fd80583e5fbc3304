"""C14: classification of results and the exit status."""
from common import *
import lab

ID = "C14"
RULE = ("A case assigns phase results (exit codes, deaths by signal, time-outs on a virtual clock) to every mutant of a generated tree or workspace, with options, job counts and "
        "orders, runs cargo-mutants against a stub cargo and compares every classification and the exit status with the model; some cases are usage errors "
        "or failing baselines. Non-trivial when at least 2 mutants with at least 2 different results were tested, or an error path was taken.")
CASES = {"quick": 1500, "thorough": 30000}
USAGE = [["--no-such-option"], ["--in-place", "-j2"], ["--timeout=x"], ["--timeout=3", "--timeout-multiplier=2"], ["--build-timeout=3", "--build-timeout-multiplier=2"],
         ["--shard=2/2"], ["--baseline=maybe"], ["--test-tool=make"], ["--re", "("], ["--exclude-re", "["], ["-f", "[a"], ["-e", "{a"], ["--error", "(("],
         ["-d", "no-such-dir"], ["--manifest-path", "none/Cargo.toml"], ["--in-diff", "no-such.diff"], ["positional"], ["--jobs=x"], ["--cap-lints=perhaps"]]


def gen(d):
    case = lab.gen_run(d, vto=True)
    case["usage"] = d.choice(USAGE) if d.chance(6) else None
    case["basefail"] = None
    if d.chance(6):
        case["skip"] = False
        case["basefail"] = [d.choice(["check"] if case["check"] else ["build", "test"]), d.choice(["exit 101", "exit 1", "exit 4", "exit 100", "signal 9", "signal 15"])]
    return case


def run_case(case, ctx):
    c = ctx.case()
    try:
        if case["usage"] is not None:
            lab.write_tree(c, case)
            kw = dict(d=False, cwd=c.root) if case["usage"][0] in ("-d", "--manifest-path") else {}
            r = c.run(*case["usage"], warp=40, **kw)
            ctx.label("usage error")
            if r.code != 1:
                raise Violation(f"{case['usage']} should exit with status 1: {r}")
            if [e for e in c.events() if e["phase"] != "unknown"]:
                raise Violation(f"{case['usage']} is an error, but cargo was run")
            return dict(nontrivial=True)
        R_ = lab.run(case, ctx, c, [tuple(case["basefail"])] if case["basefail"] else [])
        if R_.dup:
            return dict(nontrivial=False)
        what = lab.describe(case, R_)
        if case["basefail"] and R_.ms:
            ctx.label("baseline failure")
            if R_.r.code != 4:
                raise Violation(f"the baseline {case['basefail']} failed, exit status should be 4; {what}")
            return dict(nontrivial=True)
        want = {n: lab.expect(k, case["check"]) for n, k in R_.oc.items()}
        code = lab.exit_code(want.values())
        if R_.ms:
            got = {}
            outs = json.loads((R_.out / "mutants.out/outcomes.json").read_text())["outcomes"]
            for o in outs:
                if o["scenario"] == "Baseline":
                    if o["summary"] != "Success":
                        raise Violation(f"baseline passed but is recorded as {o['summary']}; {what}")
                    continue
                m = o["scenario"]["Mutant"]
                got[mutant_name(m, case["files"][m["file"]])] = o["summary"]
            if got != want:
                bad = [(n, R_.oc.get(n), want.get(n), got.get(n)) for n in sorted(set(got) | set(want)) if got.get(n) != want.get(n)]
                raise Violation(f"wrong classification (name, planned, expected, recorded): {bad[:4]}; {what}")
            for s, fn in lab.LISTS.items():
                ls = sorted((R_.out / "mutants.out" / fn).read_text().splitlines())
                if ls != sorted(n for n in want if want[n] == s):
                    raise Violation(f"{fn} holds {ls}, expected {sorted(n for n in want if want[n] == s)}; {what}")
        if R_.r.code != code:
            raise Violation(f"exit status should be {code} for results {sorted(set(want.values()))}; {what}")
        for s in set(want.values()):
            ctx.label(s)
        ctx.label(f"exit {code}")
        if case["jobs"] > 1:
            ctx.label("parallel")
        return dict(nontrivial=len(set(want.values())) >= 2)
    finally:
        c.cleanup()
