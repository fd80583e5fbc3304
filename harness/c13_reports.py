"""C13: reports are complete and agree with each other and with what happened."""
from common import *
import shlex
import lab, udiff

ID = "C13"
RULE = ("A case runs a generated tree or workspace with scripted results, options, job counts and noisy children, and cross-checks every file of the output "
        "directory and the console output with the stub's own record of what it was asked to do and printed. Non-trivial when at least 3 mutants were tested.")
CASES = {"quick": 1200, "thorough": 25000}


def gen(d):
    case = lab.gen_run(d)
    case["basefail"] = None
    for _ in d.many(0, 2) if d.chance(20) else ():
        case["args"].append(d.choice(["--cargo-arg=", "--cargo-arg=--config=a b", "--cargo-arg='x \"y", "--cargo-arg=--é", "--cargo-arg=a\\\\b"]))
    case["tty"] = d.choice([1, 20, 80, 300]) if d.chance(15) else None
    if d.chance(8):
        case["skip"] = False
        case["basefail"] = ["check" if case["check"] else d.choice(["build", "test"]), d.choice(["noise", "noise", "flood"]) + " exit 101"]
    return case


def status(e):
    if e["end"] is None:
        return "Timeout"
    k = e["end"]["code"]
    return "Success" if k == 0 else {"Failure": k} if k > 0 else {"Signalled": -k}


def unquote(s):
    try:
        return [a for a in shlex.split(s) if a]  # an empty argument may show as nothing at all
    except ValueError:
        return None


def expect(cond, msg, what):
    if not cond:
        raise Violation(f"{msg}; {what}")


def run_case(case, ctx):
    c = ctx.case()
    try:
        R_ = lab.run(case, ctx, c, [tuple(case["basefail"])] if case["basefail"] else [])
        if R_.dup:
            return dict(nontrivial=False)
        check(case, ctx, c, R_)
        return dict(nontrivial=len(R_.ms) >= 3)
    finally:
        c.cleanup()


def check(case, ctx, c, R_):
    what = lab.describe(case, R_)
    files = case["files"]
    out = R_.out / "mutants.out"
    names = [m["name"] for m in R_.ms]
    bydig = {m["digest"]: m["name"] for m in R_.ms}
    bydig[R_.base] = "baseline"

    # the plan file
    planned = json.loads((out / "mutants.json").read_text())
    pn = [mutant_name(m, files[m["file"]]) for m in planned]
    expect(sorted(pn) == sorted(names), f"mutants.json holds {pn}, selected {names}", what)
    expect(case["shuffle"] or pn == names, f"mutants.json is not in listing order: {pn} vs {names}", what)
    listed = {m["name"]: {k: v for k, v in m.items() if k not in ("name", "digest", "dup")} for m in R_.ms}
    for m, n in zip(planned, pn):
        expect({k: v for k, v in m.items() if k != "name"} == listed[n], f"mutants.json describes {n} differently from --list --json: {m}", what)
    if not R_.ms:
        expect(R_.r.code == 0 and not R_.evs, "nothing to test, but something was run", what)
        return
    lock = json.loads((out / "lock.json").read_text())
    expect(lock.get("cargo_mutants_version"), f"lock.json: {lock}", what)

    # what happened, by tree seen
    evs = {}
    for e in R_.evs:
        expect(e["digest"] in bydig, f"cargo was run on an unknown tree: {e['argv']} {e['tree'].keys()}", what)
        evs.setdefault(bydig[e["digest"]], []).append(e)

    # outcomes
    lo = json.loads((out / "outcomes.json").read_text())
    seen = []
    logs, diffs = set(), set()
    cnt = {}
    for o in lo["outcomes"]:
        sc = o["scenario"]
        if sc == "Baseline":
            n = "baseline"
            expect(o["diff_path"] is None, "baseline has a diff", what)
        else:
            m = sc["Mutant"]
            n = mutant_name(m, files[m["file"]])
            expect(n in listed, f"outcome for {n}, which was not selected", what)
            expect({k: v for k, v in m.items() if k != "name"} == listed[n], f"outcomes.json describes {n} differently from --list --json", what)
            cnt[o["summary"]] = cnt.get(o["summary"], 0) + 1
        expect(n not in seen, f"{n} has several outcomes", what)
        seen.append(n)
        real = evs.pop(n, [])
        pr = o["phase_results"]
        expect([p["phase"].lower() for p in pr] == [e["phase"] for e in real], f"{n}: recorded phases {[p['phase'] for p in pr]}, happened {[e['phase'] for e in real]}", what)
        for p, e in zip(pr, real):
            expect(p["argv"][1:] == e["argv"] and p["argv"][0] == str(c.tools.fakecargo), f"{n}: recorded command {p['argv']}, actual {e['argv']}", what)
            expect(p["process_status"] == status(e), f"{n}: recorded status {p['process_status']}, actual {status(e)}", what)
            expect(p["duration"] >= 0, f"{n}: duration {p['duration']}", what)
        # log
        lp = out / o["log_path"]
        expect(o["log_path"] not in logs and lp.parent == out / "log", f"{n}: log {o['log_path']} is used twice or misplaced", what)
        logs.add(o["log_path"])
        text = lp.read_bytes().decode("utf8", "replace")
        expect(f"*** {n}\n" in text, f"{n}: log {o['log_path']} does not name it", what)
        pos = 0
        for e in real:
            cmd = [str(c.tools.fakecargo)] + e["argv"]
            line = next((l for l in text[pos:].split("\n") if l.startswith("*** " + cmd[0]) and (l == "*** " + " ".join(cmd) or unquote(l[4:]) == [a for a in cmd if a])), "*** " + " ".join(cmd))
            for piece in (line + "\n", f"fakecargo {e['phase']} {e['digest']} {e['id']}\n"):
                k = text.find(piece, pos)
                expect(k >= 0, f"{n}: log {o['log_path']} lacks {piece!r} in order", what)
                pos = k
            if "noise" in e["behaviour"] and e["end"]:
                expect(text.find("not utf8", pos) >= 0 and text.find("warning: something", pos) >= 0, f"{n}: output of the child is missing in {o['log_path']}", what)
            if "flood" in e["behaviour"] and e["end"]:
                end = text.find("\n*** ", pos + 1)
                ls = text[pos:end].splitlines()
                for s in ("out", "err"):
                    got = [int(l.split()[2]) for l in ls if l.startswith(f"flood {s} ")]
                    expect(got == list(range(1500)), f"{n}: {o['log_path']} has {len(got)} of 1500 lines of the child's output", what)
        ids = [l.split()[-1] for l in text.splitlines() if l.startswith("fakecargo ")]
        expect(ids == [e["id"] for e in real], f"{n}: log {o['log_path']} has output of {ids}, runs were {[e['id'] for e in real]}", what)
        if sc != "Baseline":
            expect(o["diff_path"] not in diffs, f"{n}: diff {o['diff_path']} is used twice", what)
            diffs.add(o["diff_path"])
            dt = (out / o["diff_path"]).read_text()
            expect(udiff.apply(dt, norm(files[m["file"]]))[2] == mutated(files[m["file"]], m), f"{n}: {o['diff_path']} is not its diff", what)
            expect(dt in text, f"{n}: log lacks the diff", what)
    want = ([] if case["skip"] else ["baseline"]) + ([] if case["basefail"] else names)
    expect(sorted(seen) == sorted(want), f"outcomes for {sorted(seen)}, expected {sorted(want)}", what)
    expect(case["skip"] or seen[0] == "baseline", "baseline is not the first outcome", what)
    if case["jobs"] == 1 and not case["basefail"]:
        expect([n for n in seen if n != "baseline"] == pn, f"tested in order {seen}, the plan file says {pn}", what)
    expect(not evs, f"cargo was run for {list(evs)} without an outcome", what)
    expect({str(p.relative_to(out)) for p in (out / "log").iterdir()} == logs, "log files without outcome", what)
    expect({str(p.relative_to(out)) for p in (out / "diff").iterdir()} == diffs, "diff files without outcome", what)

    # totals
    key = dict(caught="CaughtMutant", missed="MissedMutant", timeout="Timeout", unviable="Unviable", success="Success")
    for k, s in key.items():
        expect(lo[k] == cnt.get(s, 0), f"outcomes.json has {k}={lo[k]}, outcomes say {cnt.get(s, 0)}", what)
    expect(lo["total_mutants"] == sum(cnt.values()), f"total_mutants {lo['total_mutants']}, outcomes {sum(cnt.values())}", what)
    summ = {}
    for o in lo["outcomes"]:
        if o["scenario"] != "Baseline":
            m = o["scenario"]["Mutant"]
            summ[mutant_name(m, files[m["file"]])] = o["summary"]
    for s, fn in lab.LISTS.items():
        ls = (out / fn).read_text().splitlines()
        expect(ls == [n for n in seen if summ.get(n) == s], f"{fn} holds {ls}, outcomes say {[n for n in seen if summ.get(n) == s]}", what)

    # console
    o = R_.r.out
    k = len(names)
    expect(f"Found {k} mutant{'' if k == 1 else 's'} to test\n" in o, "console does not give the number of mutants", what)
    if case["basefail"]:
        expect("mutants tested" not in o and "mutant tested" not in o, "baseline failed but the console has a summary", what)
        return
    parts = [f"{cnt[s]} {w}" for s, w in (("MissedMutant", "missed"), ("CaughtMutant", "caught"), ("Unviable", "unviable"), ("Timeout", "timeouts"), ("Success", "succeeded")) if cnt.get(s)]
    line = [l for l in o.splitlines() if l.startswith(f"{k} mutant{'' if k == 1 else 's'} tested")]
    expect(len(line) == 1 and line[0].endswith(": " + ", ".join(parts)), f"console summary {line}, expected {parts}", what)
    word = {"MissedMutant": "MISSED", "CaughtMutant": "caught", "Timeout": "TIMEOUT", "Unviable": "unviable", "Success": "ok"}
    for n in names:
        s = summ[n]
        shown = s in ("MissedMutant", "Timeout", "Success") or (s == "CaughtMutant" and case["caught"]) or (s == "Unviable" and case["unviable"])
        ls = [l for l in o.splitlines() if l.startswith(f"{word[s]:8} {n}") and (l == f"{word[s]:8} {n}" or l.startswith(f"{word[s]:8} {n} in "))]
        anyl = [l for l in o.splitlines() if l.split(" ", 1)[0] in word.values() and l[8:].strip().startswith(n)]
        if shown and len(ls) < 1:
            raise Violation(f"console does not show {word[s]} {n}; {what}")
        if not shown and ls:
            raise Violation(f"console shows {ls[0]}, though such results are not asked for; {what}")
        bad = [l for l in anyl if not l.startswith(word[s]) and (l[8:].strip() == n or l[8:].strip().startswith(n + " in "))]
        if bad and not any(x != n and x.startswith(n) for x in names):
            raise Violation(f"console shows {bad[0]}, the result is {s}; {what}")
    ctx.label("mutants", k)
    if case.get("tty"):
        ctx.label("terminal")
        ctx.label("progress shown", "mutants tested" in R_.r.err or "elapsed" in R_.r.err)
    if case["jobs"] > 1:
        ctx.label("parallel")
