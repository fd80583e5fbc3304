"""C17: interruption stops promptly, leaves no child running and reports failure."""
import fcntl
from common import *
import lab

ID = "C17"
RULE = ("A case is a generated tree, job count, options and outcomes, and a signal (INT, TERM, HUP) sent either by the stub cargo in a generated phase of the baseline or of "
        "a generated mutant (which then hangs with a child of its own, or exits) while other jobs are running, or at the n-th file-changing call of the run for generated n, or "
        "while waiting for the lock of the output directory, or while a big tree is being copied (the copy must stop soon). Non-trivial when the run was really cut short: fewer mutants recorded than selected.")
CASES = {"quick": 1400, "thorough": 30000}
ASSUMPTIONS = ["children that ignore SIGTERM or leave their process group are not generated"]
SIGS = [2, 15, 1]


def gen(d):
    case = lab.gen_run(d, timeouts=False, check=True, big=False)
    case["jobs"] = d.weighted([(4, 1), (3, 2), (2, 3), (1, 5)])
    case["sig"] = d.choice(SIGS)
    case["kind"] = d.weighted([(12, "stub"), (8, "op"), (1, "lock")])
    case["target"] = d.weighted([(1, -1), (4, d.below(12))])  # -1: the baseline
    case["phase"] = d.below(2)
    case["then"] = d.weighted([(4, "child hang"), (3, "hang"), (2, "exit 0"), (1, "exit 1"), (1, "sleep 30 exit 0")])
    if "hang" in case["then"] and d.chance(30):
        case["then"] = "deaf " + case["then"]
    case["twice"] = d.chance(15)
    if "hang" in case["then"] and d.chance(20):
        case["then"] = f"onterm {d.choice(SIGS)} " + case["then"]  # impatient: again, while the child is stopping
    if d.chance(4):
        case["kind"] = "copy"  # in a large tree, while it is being copied
        case["more"] = d.int(300, 600)
    if case["kind"] == "op":
        case["shuffle"] = False
    case["at"] = d.below(1000)
    case["pre"] = [d.choice(["", "lurk 20", "lurk 60", "sleep 5", "noise", "lurk 5"]) for _ in d.many(1, 4)]
    case["inplace"] = d.chance(15)
    if case["inplace"]:
        case["jobs"], case["jexplicit"] = 1, False
        case["args"].append("--in-place")
    return case


def caught_signals(pid, sig):
    try:
        for l in open(f"/proc/{pid}/status"):
            if l.startswith("SigCgt:"):
                return bool(int(l.split()[1], 16) >> (sig - 1) & 1)
    except OSError:
        pass
    return None


def lock_case(case, ctx, c, args):
    out = c.root / "mutants.out"
    if case.get("outdir"):
        (c.base / "o").mkdir()
        out = c.base / "o" / "mutants.out"
    out.mkdir()
    (out / "marker").write_text("x")
    with open(out / "lock.json", "w") as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        p = c.popen(*args, warp=40)
        try:
            t0 = time.time()
            while time.time() - t0 < 20 and p.poll() is None and not caught_signals(p.pid, case["sig"]):
                time.sleep(0.002)
            time.sleep(case["at"] / 8000)
            if p.poll() is not None:
                raise Violation(f"the output directory was locked, but the run ended with {p.returncode} without waiting; args {args}")
            p.send_signal(case["sig"])
            try:
                code = p.wait(30)
            except subprocess.TimeoutExpired:
                raise Violation(f"signal {case['sig']} while waiting for the lock: still running 30 s later; args {args}")
        finally:
            if p.poll() is None:
                p.kill()
                p.wait()
            c.outf.close()
            c.errf.close()
    if code == 0:
        raise Violation(f"interrupted while waiting for the lock, exit 0; args {args}")
    if c.events() or not (out / "marker").exists() or list(c.tmp.iterdir()):
        raise Violation(f"interrupted while waiting for the lock, but it went on to work; args {args}")
    ctx.label("lock")
    return dict(nontrivial=True)


def copy_case(case, ctx, c, args):
    """Stopping does not wait until a large tree has been copied."""
    for i in range(case["more"]):
        c.write(f"data/d{i % 7}/f{i}", "x\n")
    args = [a for a in args if a not in ("--in-place", "--leak-dirs")]
    at = 1 + case["at"] * case["more"] // 2000
    before = snapshot(c.root)
    r = c.run(*args, warp=40, env=c.faulty(at=at, err=-case["sig"], log=True, match=str(c.tmp) + "/"), timeout=30)
    after = 0
    hit = False
    for name, p in c.oplog():
        if name.startswith("!"):
            hit = True
        elif hit and name == "copy":
            after += 1
    what = f"signal {case['sig']} at operation {at} in the copy of a tree of {case['more']} files; args {' '.join(args)}; {r}"
    if not hit:
        raise Violation(f"the tree was not copied; {what}")
    if after > 60:
        raise Violation(f"{after} more files were copied after the interruption; {what}")
    if r.code == 0 or c.events() or list(c.tmp.iterdir()) or snapshot(c.root, skip=("mutants.out",)) != before:
        raise Violation(f"the interruption was not heeded: {len(c.events())} processes were run, {len(list(c.tmp.iterdir()))} temporary directories are left; {what}")
    ctx.label("copy")
    return dict(nontrivial=True)


def run_case(case, ctx):
    c = ctx.case()
    try:
        lab.write_tree(c, case)
        sel, args = lab.argv_of(case, c)
        ms = lab.mutants(c, case["files"], *[a for a in sel if a != "--in-place"])
        oc = lab.assign(ms, case["oc"])
        base = tree_digest(lab.rs_bytes(case["files"]))
        if not ms or any(m["dup"] or m["digest"] == base for m in ms):
            return dict(nontrivial=False)
        if case["kind"] == "lock":
            return lock_case(case, ctx, c, args)
        extra = []
        env = None
        if case["kind"] == "copy":
            return copy_case(case, ctx, c, args)
        if case["kind"] == "stub":
            dg = base if case["target"] < 0 and not case["skip"] else ms[max(0, case["target"]) % len(ms)]["digest"]
            m = next((m for m in ms if m["digest"] == dg), None)
            phases = ["check"] if case["check"] else ["build", "test"]
            if m and lab.expect(oc[m["name"]], case["check"]) == "Unviable":
                phases = phases[:1]
            sg = f"sigmark sigparent {case['sig']} " + (f"sigparent {case['sig']} " if case["twice"] else "")
            extra = [f"{dg} {phases[case['phase'] % len(phases)]} {sg}{case['then']}"]
        lab.plan(c, ms, oc, case["check"], case["pre"], extra)
        before = snapshot(c.root)
        if case["kind"] == "op":
            lab.plan(c, ms, oc, case["check"], [], [])
            r0 = c.run(*args, warp=40, env=c.faulty())
            n = c.opcount()
            if n == 0:
                raise HarnessError("no file operations were counted")
            at = 1 + case["at"] * n // 1000
            c.clear_events()
            for q in (c.root, c.base / "o"):
                rmtree(q / "mutants.out")
            for q in c.tmp.iterdir():
                rmtree(q)
            lab.plan(c, ms, oc, case["check"], case["pre"], [])
            env = c.faulty(at=at, err=-case["sig"])
        try:
            r = c.run(*args, warp=40, env=env, timeout=30)
        except Violation as v:
            raise Violation(f"signal {case['sig']}: {v}")
        evs = c.events()
        what = f"signal {case['sig']} ({case['kind']}), args {' '.join(args)}; {len(ms)} mutants; {r}; " + \
            f"{[(e['phase'], e['digest'], e['behaviour'], e['end'] and e['end']['code']) for e in evs][-6:]}"
        out = ((c.base / "o") if case.get("outdir") else c.root) / "mutants.out"
        left = c.stub_pids(wait=5)
        if left:
            raise Violation(f"after an interruption {len(left)} child processes are still running; {what}")
        if not case["inplace"] and case.get("lvl") != "--leak-dirs" and list(c.tmp.iterdir()):
            raise Violation(f"after an interruption temporary directories are left: {[p.name for p in c.tmp.iterdir()]}; {what}")
        after = snapshot(c.root, skip=("mutants.out",))
        if after != before:
            ch = [p for p in set(before) | set(after) if before.get(p) != after.get(p)]
            raise Violation(f"after an interruption the source tree is changed: {ch}; {what}")
        recorded = []
        if (out / "outcomes.json").exists():
            try:
                o = json.loads((out / "outcomes.json").read_text())
            except ValueError:
                raise Violation(f"after an interruption outcomes.json is not well-formed; {what}")
            recorded = [x for x in o["outcomes"] if x["scenario"] != "Baseline"]
        names = {mutant_name(x["scenario"]["Mutant"], case["files"][x["scenario"]["Mutant"]["file"]]): x["summary"] for x in recorded}
        if r.code == 0 and len(recorded) < len(ms):
            raise Violation(f"interrupted with {len(recorded)} of {len(ms)} mutants done, but the exit status is 0; {what}")
        sig_t = getattr(c, "signal_t", None)
        if sig_t is not None:
            late = [e for e in evs if e["t"] > sig_t]
            if len(late) > case["jobs"]:
                raise Violation(f"{len(late)} processes were started after the interruption, with {case['jobs']} jobs; {what}")
            if case["jobs"] == 1 and "hang" in case["then"] and late:
                raise Violation(f"a process was started after the interruption, with one job; {what}")
        # every recorded result is real, and every finished mutant is recorded
        by = {}
        for e in evs:
            by.setdefault(e["digest"], []).append(e)
        for m in ms:
            es = by.get(m["digest"], [])
            if m["name"] in names:
                if not es or any(e["end"] is None for e in es):
                    raise Violation(f"{m['name']} was cut short by the interruption but is recorded as {names[m['name']]}; {what}")
                if names[m["name"]] != lab.expect(oc[m["name"]], case["check"]) and not (es and any("sigparent" in e["behaviour"] for e in es)):
                    raise Violation(f"{m['name']} is recorded as {names[m['name']]}, but its result is {oc[m['name']]}; {what}")
            elif es and any(e["cwd"] == es[-1]["cwd"] and e["t"] > es[-1]["t"] for e in evs):
                raise Violation(f"{m['name']} was finished before the interruption but is not recorded; {what}")
        for s, f in lab.LISTS.items():
            got = (out / f).read_text().splitlines() if (out / f).exists() else []
            if sorted(got) != sorted(n for n, x in names.items() if x == s):
                raise Violation(f"after an interruption {f} does not agree with outcomes.json: {got} {names}; {what}")
        cut = len(recorded) < len(ms)
        ctx.label(case["kind"] + (" cut short" if cut else " complete"))
        if case["kind"] == "stub":
            ctx.label("signal in " + ("baseline" if case["target"] < 0 and not case["skip"] else "mutant") + ", then " + case["then"])
        return dict(nontrivial=cut)
    finally:
        c.cleanup()
