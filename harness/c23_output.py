"""C23: output directories are rotated, locked and readable at every moment."""
from common import *
import lab

ID = "C23"
RULE = ("A case is a tree, job count and outcomes, and a history of up to 5 steps on one output directory: complete runs, runs with a failing baseline, runs killed at the n-th "
        "file-changing call (generated n) or by the stub in a generated phase, listings, a second run started while the first is in progress, and files put by the user into the output "
        "directory. Reports are compared with a model of rotation and with the record of the child processes. Non-trivial when at least one rotation, kill or overlap happened.")
CASES = {"quick": 900, "thorough": 20000}
NOTREAL = ("lock.json",)
PUBLIC = ("outcomes.json", "mutants.json", "caught.txt", "missed.txt", "unviable.txt", "timeout.txt", "log", "diff", "lock.json", "debug.log")


def gen(d):
    case = lab.gen_run(d, timeouts=False, opts=False, baseline=False)
    case.update(lvl="", outdir=d.chance(25), nextest=False, skip=d.chance(60), jobs=d.weighted([(4, 1), (2, 2), (1, 4)]))
    case["check"] = d.chance(8)
    steps = []
    for _ in d.many(1, 5):
        k = d.weighted([(4, "kill"), (4, "run"), (2, "stubkill"), (2, "note"), (1, "list"), (1, "badbase"), (1, "overlap")])
        steps.append([k, d.below(1000), d.below(8)])
    case["steps"] = steps
    case["pre"] = [d.choice(["", "", "sleep 4", "noise"]) for _ in d.many(1, 3)]
    return case


def clean(s):
    """Comparable contents of an output directory (opening it for the lock rewrites lock.json)."""
    return {k: v for k, v in s.items() if k not in NOTREAL}


def shot(p):
    return clean(snapshot(p)) if p.is_dir() else None


def reports(case, ms, oc, out, evs, what, complete):
    by = {}
    for e in evs:
        by.setdefault(e["digest"], []).append(e)
    if (out / "mutants.json").exists():
        try:
            j = json.loads((out / "mutants.json").read_text())
        except ValueError:
            raise Violation(f"mutants.json is not well-formed; {what}")
        got = sorted(mutant_name(m, case["files"][m["file"]]) for m in j)
        if got != sorted(m["name"] for m in ms):
            raise Violation(f"mutants.json does not hold the mutants of this run: {got}; {what}")
    elif evs:
        raise Violation(f"tests were started but mutants.json does not exist; {what}")
    names = {}
    if (out / "outcomes.json").exists():
        text = (out / "outcomes.json").read_text()
        try:
            j = json.loads(text)
        except ValueError:
            raise Violation(f"outcomes.json is not well-formed ({len(text)} bytes: {text[:80]!r}); {what}")
        for x in j["outcomes"]:
            if x["scenario"] == "Baseline":
                continue
            m = x["scenario"]["Mutant"]
            n = mutant_name(m, case["files"][m["file"]])
            if n in names:
                raise Violation(f"{n} is recorded twice; {what}")
            names[n] = x["summary"]
            if not (out / x["log_path"]).is_file():
                raise Violation(f"log {x['log_path']} of {n} does not exist; {what}")
    phases = {"Unviable": 1, "Success": 1}
    missing = 0
    lists = {}
    for s, f in lab.LISTS.items():
        for l in ((out / f).read_text().split("\n") if (out / f).exists() else []):
            if l:
                if l in lists:
                    raise Violation(f"{l} is in the text lists twice; {what}")
                lists[l] = s
    for m in ms:
        n = m["name"]
        es = by.get(m["digest"], [])
        exp = lab.expect(oc[n], case["check"])
        if n in names:
            if names[n] != exp:
                raise Violation(f"{n} is recorded as {names[n]}, its result was {exp}; {what}")
            if len(es) != phases.get(exp, 2) or any(e["end"] is None for e in es):
                raise Violation(f"{n} is recorded, but was not completely tested in this run; {what}")
            if exp in lab.LISTS and n not in lists:
                missing += 1
        else:
            if complete or (es and any(e["cwd"] == es[-1]["cwd"] and e["t"] > es[-1]["t"] for e in evs)):
                raise Violation(f"{n} was finished, but is not recorded in outcomes.json; {what}")
    for n, s in lists.items():
        if names.get(n) != s:
            raise Violation(f"{n} is in {lab.LISTS[s]}, but outcomes.json has {names.get(n)}; {what}")
    if missing > (0 if complete else 1):
        raise Violation(f"{missing} recorded mutants are missing from the text lists; {what}")


def run_case(case, ctx):
    c = ctx.case()
    try:
        lab.write_tree(c, case)
        sel, args = lab.argv_of(case, c)
        ms = lab.mutants(c, case["files"], *sel)
        oc = lab.assign(ms, case["oc"])
        base = tree_digest(lab.rs_bytes(case["files"]))
        if not ms or any(m["dup"] or m["digest"] == base for m in ms):
            return dict(nontrivial=False)
        par = (c.base / "o") if case["outdir"] else c.root
        out, old = par / "mutants.out", par / "mutants.out.old"
        first = "check" if case["check"] else "build"
        hist = []
        nontriv = False
        total = None
        for kind, x, y in case["steps"]:
            cur, prev = shot(out), shot(old)
            hist.append(kind)
            c.clear_events()
            extra, env, a = [], None, list(args)
            if kind == "note":
                if out.is_dir():
                    (out / f"user-{len(hist)}.txt").write_text("note")
                    (out / "log").mkdir(exist_ok=True)
                    (out / "log" / f"user-{len(hist)}.log").write_text("note")
                continue
            if kind == "list":
                fresh = c.base / f"fresh{len(hist)}"
                la = [(), tuple(args), ("-o", str(fresh)), ("-o", str(par))][x % 4]
                r = c.run(["--list", "--list-files"][y % 2], *sel, *(z for z in la if z not in sel))
                if (shot(out), shot(old)) != (cur, prev) or fresh.exists():
                    raise Violation(f"{['--list', '--list-files'][y % 2]} {la} changed an output directory; history {hist}; {r}")
                continue
            if kind == "badbase":
                a = [z for z in a if z != "--baseline=skip"]
                extra = [f"{base} {first} exit 101"]
            if kind == "stubkill":
                m = ms[x % len(ms)]
                ph = first if case["check"] or "unviable" in oc[m["name"]] or y % 2 else "test"
                extra = [f"{m['digest']} {ph} sigparent 9 exit 0"]
            lab.plan(c, ms, oc, case["check"], case["pre"], extra)
            if kind == "overlap":
                nontriv = True
                overlap(case, ctx, c, ms, oc, a, out, old, hist, x, y)
                continue
            if kind == "kill":
                if total is None:
                    # count the calls of a run into another directory
                    c.run(*[z for z in a if z not in ("-o", str(par))], "-o", str(c.base / "dry"), warp=40, env=c.faulty())
                    total = c.opcount()
                    c.clear_events()
                at = 1 + (x * total // 1000 if y < 5 else (x % 12) if y < 7 else max(0, total - 1 - x % 10))
                env = c.faulty(at=at, err=0, log=True)
            r = c.run(*a, warp=40, env=env)
            time.sleep(0.03 if r.code < 0 else 0)
            evs = c.events()
            op = c.fault_op() if env else None
            what = f"step {len(hist)} of history {[s[0] for s in case['steps']]}; {op or ''}; args {' '.join(a)}; {len(ms)} mutants; {r}"
            killed = kind in ("kill", "stubkill") and r.code < 0
            now_, was = shot(out), shot(old)
            if killed:
                nontriv = True
                ctx.label("killed " + (op[0] if op else "by stub"))
                for q in c.tmp.iterdir():
                    rmtree(q)
                if cur is not None and now_ != cur and was != cur:
                    raise Violation(f"killed, and the previous output directory is not preserved whole under either name; {what}")
                if now_ == cur and cur is not None:
                    if evs:
                        raise Violation(f"tests were run but the output directory is still the previous one; {what}")
                    continue
                if out.is_dir():
                    reports(case, ms, oc, out, evs, what, False)
                continue
            if now_ is None:
                raise Violation(f"no output directory; {what}")
            if cur is not None:
                nontriv = True
                if was != cur:
                    df = [p for p in set(was or {}) | set(cur) if (was or {}).get(p) != cur.get(p)]
                    raise Violation(f"mutants.out.old is not the previous output directory: {df[:5]}; {what}")
                ctx.label("rotated")
            elif prev is not None and was != prev:
                raise Violation(f"there was no mutants.out, but mutants.out.old was changed; {what}")
            stale = [p for p in now_ if "user-" in p]
            if stale:
                raise Violation(f"the output directory is not fresh: {stale}; {what}")
            logs = [p for p in now_ if p.startswith("log/")]
            want = 1 if kind == "badbase" else len(ms) + ("--baseline=skip" not in a)
            if len(logs) != want:
                raise Violation(f"{len(logs)} logs in a fresh output directory for {want} scenarios; {what}")
            if kind == "badbase":
                if r.code != 4:
                    raise Violation(f"exit status {r.code} for a failing baseline; {what}")
            else:
                reports(case, ms, oc, out, evs, what, True)
            ctx.label(kind)
        return dict(nontrivial=nontriv)
    finally:
        c.cleanup()


def overlap(case, ctx, c, ms, oc, a, out, old, hist, x, y):
    """Start a second run while the first is testing: it has to wait."""
    lab.plan(c, ms, oc, case["check"], ["sleep %d" % (1 + 40 // len(ms))])
    before = shot(out)
    ps = []
    try:
        for tag in "AB":
            ps.append(c.popen(*a, warp=40, env={"CARGO_TAG": tag}))
            c.outf.close()
            c.errf.close()
            if tag == "A":
                t0 = time.time()
                while not c.events() and time.time() - t0 < 20 and ps[0].poll() is None:
                    time.sleep(0.001)
                time.sleep(x / 20000)
        for p in ps:
            try:
                p.wait(60)
            except subprocess.TimeoutExpired:
                raise Violation(f"overlapping runs do not end; history {hist}; args {a}")
    finally:
        for p in ps:
            if p.poll() is None:
                p.kill()
                p.wait()
    evs = c.events()
    A = [e for e in evs if e["env"].get("CARGO_TAG") == "A"]
    B = [e for e in evs if e["env"].get("CARGO_TAG") == "B"]
    what = f"two overlapping runs with exit {[p.returncode for p in ps]}; history {hist}; args {a}"
    if not A or not B:
        raise Violation(f"one of two overlapping runs tested nothing ({len(A)}, {len(B)}); {what}")
    end = max(e["end"]["t"] if e["end"] else e["t"] for e in A)
    if any(e["t"] < end for e in B):
        raise Violation(f"two runs were testing with the same output directory at the same time; {what}")
    want = lab.exit_code([lab.expect(oc[m["name"]], case["check"]) for m in ms])
    if [p.returncode for p in ps] != [want, want]:
        raise Violation(f"exit {[p.returncode for p in ps]}, expected {want}; {what}")
    reports(case, ms, oc, out, B, what + " (second)", True)
    reports(case, ms, oc, old, A, what + " (first)", True)
    ctx.label("overlap")
