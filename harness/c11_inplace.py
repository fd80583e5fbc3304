"""C11: in-place mode restores every source file after every mutant."""
from common import *
import lab, treegen

ID = "C11"
RULE = ("A case is a generated tree or workspace (LF, CRLF or mixed line ends, byte-order marks, links and modes) run with --in-place, options and outcomes, and a fault: none, "
        "an error or signal or kill at the n-th file-changing call for generated n, a signal from a child, or standard output closed by its reader. Errors injected into the restoring write itself are not judged; after a kill "
        "at most one file may differ. Non-trivial when at least one mutation was applied.")
CASES = {"quick": 1500, "thorough": 30000}
ERR = [28, 5, 13, 30, 24]


def gen(d):
    case = lab.gen_run(d, jobs=False, timeouts=True)
    case["jobs"], case["jexplicit"] = 1, False
    if case["lvl"] == "--leak-dirs":
        case["lvl"] = ""
    fs = sorted(p for p in case["files"])
    if d.chance(40):  # mutants of the other kinds too
        p = d.choice(fs)
        case["files"][p] += "\n" + treegen.FN[9].format(n="kinds")
    for p in fs:
        k = d.weighted([(6, 0), (2, 1), (1, 2), (1, 3)])
        t = case["files"][p]
        if k == 1:
            t = t.replace("\n", "\r\n")
        elif k == 2:
            ls = t.split("\n")
            t = "".join(l + ("\r\n" if i % 2 else "\n") for i, l in enumerate(ls[:-1])) + ls[-1]
        elif k == 3:
            t = t.rstrip("\n")
        case["files"][p] = t
    case["modes"] = [d.choice([0o644, 0o644, 0o444, 0o755, 0o600]) for _ in fs]
    # other files of the tree, which a run in a copy would adapt or leave out
    case["more"] = {}
    if d.chance(40):
        case["more"]["Cargo.toml"] = "".join(f"{k} = {{ path = {json.dumps(v)} }}\n" for k, v in [("d1", "../dep"), ("d2", "../../x")][:1 + d.below(2)])
    if d.chance(40):
        case["more"][".cargo/" + d.choice(["config.toml", "config"])] = d.choice(['paths = ["../dep"]\n', 'paths = ["../dep", "/abs", "inner"]\n[build]\njobs = 2\n', "[net]\noffline=true\n"])
    for _ in d.many(0, 3):
        case["more"][d.choice([".git/HEAD", ".gitignore", "mutants.out.tmp/x", "src/lib.rs.orig", "src/lib.rs.tmp", "Cargo.toml.orig", "notes.txt", "Cargo.toml.tmp"])] = \
            d.choice(["", "*.rs\n", "text\r\n"])
    case["links"] = [d.choice(["rel", "abs"]) if d.chance(8) else "" for _ in fs]
    case["fault"] = d.weighted([(5, None), (6, "errno"), (4, "signal"), (1, "kill"), (4, "stubsig"), (1, "jobs"), (1, "head")])
    case["at"] = d.below(1000)
    case["near"] = d.chance(50)  # aim at the calls that change source files
    case["err"] = d.choice(ERR)
    case["sig"] = d.choice([2, 15, 1])
    case["phase"] = d.below(2)
    case["then"] = d.choice(["hang", "child hang", "exit 0", "exit 1"])
    case["selfmod"] = d.chance(15)
    if case["fault"] in ("errno", "signal", "kill"):
        case["shuffle"] = False
    return case


def run_case(case, ctx):
    c = ctx.case()
    try:
        fs = sorted(case["files"])
        lab.write_tree(c, case)
        for p, t in case["more"].items():
            f = c.root / p
            f.parent.mkdir(parents=True, exist_ok=True)
            if p == "Cargo.toml":
                t = (f.read_text() if f.exists() else "[package]\nname = \"p\"\n") + ("" if len(case["pk"]) > 1 else "\n[dependencies]\n" + t)
            f.write_bytes(t.encode())
        for p, m, l in zip(fs, case["modes"], case["links"]):
            if l:
                t = c.root / "real" / p.replace("/", "_").replace(".rs", ".txt")
                t.parent.mkdir(exist_ok=True)
                os.rename(c.root / p, t)
                os.symlink(os.path.relpath(t, (c.root / p).parent) if l == "rel" else str(t), c.root / p)
            else:
                os.chmod(c.root / p, m)
        linked = any(case["links"])
        sel, args = lab.argv_of(case, c)
        args.append("--in-place")
        before = snapshot(c.root)
        if case["fault"] == "jobs":
            env, a = (None, [f"-j{2 + case['at'] % 3}"]) if case["at"] % 4 else ({"CARGO_MUTANTS_JOBS": str(2 + case["at"] % 3)}, [])
            r = c.run(*args, *a, env=env, warp=40)
            evs = c.events()
            if a and (r.code != 1 or evs or (c.root / "mutants.out").exists()):
                raise Violation(f"--in-place with several jobs is not refused; args {args} {a}; {r}")
            for x, y in zip(evs, evs[1:]):
                if not x["end"] or x["end"]["t"] > y["t"]:
                    raise Violation(f"--in-place ran two processes at once; args {args} {env}; {r}")
            if snapshot(c.root, skip=("mutants.out",)) != before:
                raise Violation(f"the source tree is not restored; args {args} {a}; {r}")
            ctx.label("jobs")
            return dict(nontrivial=True)
        ms = lab.mutants(c, case["files"], *sel)
        oc = lab.assign(ms, case["oc"])
        base = tree_digest(lab.rs_bytes(case["files"]))
        if not ms or any(m["dup"] or m["digest"] == base for m in ms):
            return dict(nontrivial=False)
        first = "check" if case["check"] else "build"
        extra = []
        if case["selfmod"] and not linked:
            for m in ms[::2]:
                if "unviable" not in oc[m["name"]] and not case["check"]:
                    extra.append(f"{m['digest']} build write {m['file']} formatted_by_a_tool exit 0")
        if case["fault"] == "stubsig":
            m = ms[case["at"] % len(ms)]
            ph = [first] if case["check"] or "unviable" in oc[m["name"]] else ["build", "test"]
            extra.insert(0, f"{m['digest']} {ph[case['phase'] % len(ph)]} sigparent {case['sig']} {case['then']}")
        lab.plan(c, ms, oc, case["check"], case["pre"], extra)
        env = None
        ROOT = str(c.root)

        def src_op(p):
            return p.startswith(ROOT + "/") and "/mutants.out" not in p[len(ROOT):]
        if case["fault"] in ("errno", "signal", "kill"):
            near = dict(match=ROOT + "/", skip="/mutants.out") if case["near"] else {}
            c.run(*args, warp=40, env=c.faulty(**near))
            n = c.opcount()
            at = 1 + case["at"] * n // 1000
            c.clear_events()
            left = snapshot(c.root, skip=("mutants.out", "target", "Cargo.lock"))
            if left != before:
                raise Violation(f"the source tree is not restored: {[p for p in set(left) | set(before) if left.get(p) != before.get(p)]}; args {args}")
            rmtree(c.root / "mutants.out")
            rmtree(c.root / "target")
            if (c.root / "Cargo.lock").exists():
                (c.root / "Cargo.lock").unlink()
            env = c.faulty(at=at, err={"errno": case["err"], "signal": -case["sig"], "kill": 0}[case["fault"]], log=True, **near)
        r = c.run(*args, warp=40, env=env, head=case["at"] % 5 if case["fault"] == "head" else None)
        evs = c.events()
        op = c.fault_op() if env else None
        what = f"fault {case['fault']} {case['err'] if case['fault'] == 'errno' else ''} {op}; args {' '.join(args)}; {len(ms)} mutants; {r}"
        for p in c.stub_pids():
            os.kill(p, 9)
        after = snapshot(c.root, skip=("mutants.out", "target", "Cargo.lock"))
        ch = [p for p in sorted(set(before) | set(after)) if before.get(p) != after.get(p)]
        judged = True
        if op and case["fault"] == "errno" and src_op(op[1]):
            opens = 0
            for name, p in c.oplog():
                if name.startswith("!"):
                    break
                if name == "open" and src_op(p):
                    opens += 1
            applying = opens % 2 == (0 if op[0] == "open" else 1)
            judged = applying
            ctx.label("error while applying" if applying else "error while restoring (not judged)")
        if case["fault"] == "kill" and op:
            if len(ch) > 1:
                raise Violation(f"killed in in-place mode: more than one file is changed: {ch}; {what}")
        elif judged and ch:
            raise Violation(f"the source tree is not restored: {[(p, str(after.get(p))[:200]) for p in ch]}; {what}")
        if list(c.tmp.iterdir()) and case["fault"] != "kill":
            raise Violation(f"in-place mode made a temporary directory: {list(c.tmp.iterdir())}; {what}")
        # what the children saw
        root = os.path.realpath(c.root)
        known = {m["digest"]: m for m in ms}
        for e in evs:
            if e["cwd"] != root:
                raise Violation(f"--in-place but cargo was run in {e['cwd']}; {what}")
            if linked:
                continue
            m = known.get(e["digest"])
            seen = {p: (v[0], v[1], v[2]) for p, v in e["tree"].items() if p != "Cargo.lock"}
            want = {p: (v[0], v[1], crc(v[2]) if v[0] == "f" else "00000000") for p, v in before.items()}
            if m is None and e["digest"] != base:
                if not (case["selfmod"] and e["phase"] == "test"):
                    df = [p for p in set(seen) | set(want) if seen.get(p) != want.get(p)]
                    raise Violation(f"cargo {e['phase']} saw a tree that is neither the original nor one mutant: {df}; {what}")
            df = [p for p in set(seen) | set(want) if seen.get(p) != want.get(p) and not (m and p == m["file"]) and not (case["selfmod"] and p in case["files"])]
            if df and (m or e["digest"] == base):
                raise Violation(f"cargo {e['phase']} saw other changes than the mutation: {df}; {what}")
        ctx.label("fault " + str(case["fault"]) + (" reached" if op else ""))
        return dict(nontrivial=any(e["digest"] != base for e in evs))
    finally:
        c.cleanup()
