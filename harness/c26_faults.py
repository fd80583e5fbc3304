"""C26: a failing file operation or child start is reported, never hidden in the results."""
from common import *
import lab

ID = "C26"
RULE = ("A case is a generated tree, options and outcomes, run (or listed, or iterated) once without a fault for reference, then again from the same state with a generated error injected "
        "at the n-th operation of the program itself for generated n: opening, reading, writing, locking, creating, renaming or removing files, listing directories, starting a child; "
        "or with every operation that needs space (or a lock) failing from the n-th on. It must end by itself either exactly as the reference (status, results, lists), or with "
        "status 1, an error message and no untrue result on disk. Non-trivial when the fault was reached.")
CASES = {"quick": 2000, "thorough": 40000}
ERR = [28, 5, 13, 30, 24, 12, 11]
MODE = ["run"] * 6 + ["inplace", "iterate", "iterate", "list", "files", "config"]


def gen(d):
    case = lab.gen_run(d, timeouts=False, big=False)
    if case["lvl"] == "--leak-dirs":
        case["lvl"] = ""
    case["mode"] = d.choice(MODE)
    if case["mode"] == "inplace":
        case["jobs"], case["jexplicit"] = 1, False
    if case["mode"] == "iterate":
        case["shard"] = None
    case["at"] = d.below(1000)
    case["near"] = d.weighted([(6, "any"), (1, "start"), (1, "end"), (2, "out")])
    case["err"] = d.choice(ERR)
    case["sticky"] = d.chance(20)
    if case["sticky"]:
        case["err"] = d.choice([28, 28, 37, 122])
    case["shuffle"] = False
    return case


def results(case, c, out, what, whole):
    """What the reports say: {mutant: summary}, with the text lists checked against it."""
    o = out / "mutants.out"
    res, base = {}, []
    try:
        for x in json.loads((o / "outcomes.json").read_text())["outcomes"]:
            if x["scenario"] == "Baseline":
                base.append(x["summary"])
                continue
            m = x["scenario"]["Mutant"]
            res[mutant_name(m, case["files"][m["file"]])] = x["summary"]
    except FileNotFoundError:
        if whole:
            raise Violation(f"no outcomes.json; {what}")
    except ValueError as e:
        raise Violation(f"outcomes.json is malformed: {e}; {what}")
    lists = {}
    for s, f in lab.LISTS.items():
        p = o / f
        text = p.read_text() if p.exists() else ""
        lines = text.split("\n")
        if lines.pop() and whole:
            raise Violation(f"{f} ends in the middle of a line; {what}")
        lists[s] = sorted(lines)
    return res, base, lists


def true_line(x, names, op):
    """A line of a text list: one of the names, or two if writing the line break in between is what failed."""
    return x in names or (op and op[0] == "write" and op[1].endswith(".txt") and any(x == a + b for a in names for b in names))


def run_case(case, ctx):
    c = ctx.case()
    try:
        lab.write_tree(c, case)
        sel, args = lab.argv_of(case, c)
        if case["mode"] == "config":
            c.write(".cargo/mutants.toml", "exclude_re = ['nothing at all']\nadditional_cargo_args = ['-v']\n")
            c.write(".cargo/config.toml", 'paths = ["../y"]\n')
        ms = lab.mutants(c, case["files"], *sel)
        oc = lab.assign(ms, case["oc"])
        base = tree_digest(lab.rs_bytes(case["files"]))
        if not ms or any(m["dup"] or m["digest"] == base for m in ms):
            return dict(nontrivial=False)
        lab.plan(c, ms, oc, case["check"], case["pre"], real=case["jobs"] > 1)
        want = {n: lab.expect(k, case["check"]) for n, k in oc.items()}
        out = (c.base / "o") if case["outdir"] else c.root
        listing = case["mode"] in ("list", "files")
        if listing:
            args = ["--list" if case["mode"] == "list" else "--list-files", *sel] + (["--json"] if case["at"] % 2 else [])
        if case["mode"] == "inplace":
            args.append("--in-place")
        keep = c.base / "keep"
        if case["mode"] == "iterate":
            c.run(*args, warp=40)
            shutil.copytree(out, keep, symlinks=True)
            args.append("--iterate")
        fa = dict(reads=True, match=c.base, log=True)
        ref = c.run(*args, warp=40, env=c.faulty(**fa))
        if ref.code == 1 or ref.code < 0:
            raise Violation(f"the run without a fault fails; args {args}; {ref}")
        whole = (out / "mutants.out/outcomes.json").exists() or case["mode"] != "iterate"  # nothing may be left to test
        refres = None if listing else results(case, c, out, f"args {args}; {ref}", whole)
        n = c.opcount()
        log = c.oplog()
        if case["err"] == 37:
            # locks aren't supported
            idx = [i for i, (name, path) in enumerate(log) if name == "lock"] or [0]
            at = 1 + idx[case["at"] % len(idx)]
        elif case["near"] == "out":
            # not the copying or removal of trees
            idx = [i for i, (name, path) in enumerate(log) if "/mutants.out" in path or name == "spawn" or path.startswith(str(c.root))] or list(range(n))
            at = 1 + idx[case["at"] * len(idx) // 1000]
        else:
            at = 1 + {"any": case["at"] * n // 1000, "start": min(n - 1, case["at"] % 12), "end": max(0, n - 1 - case["at"] % 12)}[case["near"]]
        # back to the state before
        c.clear_events()
        for q in c.tmp.iterdir():
            rmtree(q)
        for q in ("mutants.out", "mutants.out.old"):
            rmtree(out / q)
        if keep.exists():
            rmtree(out)
            shutil.copytree(keep, out, symlinks=True)
        elif case["outdir"]:
            rmtree(out)
        r = c.run(*args, warp=40, timeout=40, env=c.faulty(at=at, err=case["err"], sticky=case["sticky"], **fa))
        op = c.fault_op()
        what = f"error {case['err']} {'from then on ' if case['sticky'] else ''}at call {at}: {op}; args {' '.join(map(str, args))}; {len(ms)} mutants; {r}"
        if op is None and case["jobs"] == 1:
            ctx.label("not reached")
        ctx.label(case["mode"])
        if op:
            ctx.label("fault " + op[0])
        if r.code < 0:
            raise Violation(f"crash; {what}")
        if "panicked" in r.err:
            ctx.label("PANIC " + r.err[r.err.index("panicked"):].split(":")[0])
        if r.code in (1, 101):
            ctx.label("reported")
            if "rror" not in r.err + r.out:
                raise Violation(f"fails without an error message; {what}")
            if listing:
                return dict(nontrivial=bool(op))
            res, b, lists = results(case, c, out, what, False)
            bad = {k: v for k, v in res.items() if want.get(k) != v}
            if bad or [x for x in b if x != "Success"]:
                raise Violation(f"untrue results {bad} {b} in the reports of a failed run; {what}")
            for s, ls in lists.items():
                wrong = [x for x in ls if not true_line(x, [k for k, v in want.items() if v == s], op)]
                if wrong:
                    raise Violation(f"untrue lines {wrong} in {lab.LISTS[s]} of a failed run; {what}")
            return dict(nontrivial=bool(op))
        ctx.label("harmless")
        if r.code != ref.code:
            raise Violation(f"exit status {r.code}, without the fault {ref.code}; {what}")
        if listing:
            if r.out != ref.out:
                raise Violation(f"lists something else than without the fault: {ref.out[-1500:]}; {what}")
        else:
            got = results(case, c, out, what, whole)
            if got != refres:
                raise Violation(f"results differ from those without the fault: {refres}, {got}; {what}")
        return dict(nontrivial=bool(op))
    finally:
        c.cleanup()
