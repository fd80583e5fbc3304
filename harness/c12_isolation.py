"""C12: every cargo process sees the pristine tree plus exactly one mutation, isolated from the others."""
from common import *
import lab, treegen

ID = "C12"
RULE = ("A case is a generated tree (LF and CRLF files, non-Rust files), a job count, scripted results and a schedule for the child processes (random durations, "
        "barriers that make jobs overlap, children that change other files in their build directory only under target/). The complete history of trees seen and "
        "start and end times is checked. Non-trivial when at least 2 mutants were tested.")
CASES = {"quick": 1000, "thorough": 20000}


def gen(d):
    case = lab.gen_run(d, sleeps=True, timeouts=d.chance(30))
    case["jobs"] = d.weighted([(2, 1), (3, 2), (3, 3), (2, 4), (2, d.int(5, 9)), (1, 20)])
    case["pre"] = [" ".join(f"barrier {case['jobs']}" if x.startswith("barrier") else x for x in p.replace("barrier ", "barrier_").split(" ")) for p in case["pre"]]
    case["vto"] = case["jobs"] > 1 and not case["check"] and d.chance(12)
    if case["vto"]:
        case["oc"] = lab.vto_outcomes(d)
        case["args"] = []
    elif case["jobs"] > 1:
        case["oc"] = [k if "timeout" not in k else "caught" for k in case["oc"]]
    if d.chance(25):
        f = d.choice(sorted(case["files"]))
        case["files"][f] = case["files"][f].replace("\n", "\r\n")
    case["files"]["README.md"] = "x\n"
    case["files"]["tests/data/t.rs"] = "fn f( -> {\n"
    case["files"]["build.rs"] = "fn main() {}\n"
    case["limitb"] = d.chance(10)
    if d.chance(25):
        # files that git ignores, which are left out of every build directory or of none
        case["ign"] = d.chance(50)
        case["args"] += d.choice([["--gitignore=true"], []]) if case["ign"] else ["--gitignore=false"]
    return case


def run_case(case, ctx):
    c = ctx.case()
    try:
        if "ign" in case:
            c.write(".git/HEAD", "ref: refs/heads/main\n")
            c.write(".gitignore", "*.ign\n/gen/\n")
            c.write("data/x.ign", "x")
            c.write("gen/y.txt", "y")
        R_ = lab.run(case, ctx, c)
        if R_.dup:
            return dict(nontrivial=False)
        what = lab.describe(case, R_)
        if R_.ms and R_.r.code != lab.exit_code({lab.expect(k, case["check"]) for k in R_.oc.values()}):
            raise Violation(f"unexpected exit status; {what}")
        check(case, ctx, c, R_, what)
        if case["jobs"] > 1:
            ctx.label("parallel")
        return dict(nontrivial=len(R_.ms) >= 2)
    finally:
        c.cleanup()


def check(case, ctx, c, R_, what):
    files = case["files"]
    orig = {p: (crc(t.encode()), len(t.encode())) for p, t in files.items()}
    if "ign" in case:
        for p, t in ((".gitignore", b"*.ign\n/gen/\n"), ("data/x.ign", b"x"), ("gen/y.txt", b"y")):
            if p == ".gitignore" or not case["ign"]:
                orig[p] = (crc(t), len(t))
    bydig = {}
    for m in R_.ms:
        b = mutated(files[m["file"]], m).encode()
        bydig[(m["file"], crc(b), len(b))] = m["name"]
    phases = ["check"] if case["check"] else ["build", "test"]
    tested = {}
    for e in R_.evs:
        diff = []
        for p in sorted(set(orig) | {p for p, v in e["tree"].items() if v[0] != "d" and p not in ("Cargo.lock", "Cargo.toml") and not p.endswith("/Cargo.toml")}):
            v = e["tree"].get(p)
            now = (v[2], v[3]) if v and v[0] == "f" else None
            if now != orig.get(p):
                diff.append((p,) + (now or ("absent", 0)))
        if not diff:
            n = "baseline"
        elif len(diff) == 1 and diff[0] in bydig:
            n = bydig[diff[0]]
        else:
            show = []
            for p, h, l in diff[:3]:
                try:
                    show.append((p, (c.fake / "snap" / f"{h}-{l}").read_bytes().decode()[:600]))
                except OSError:
                    show.append((p, h))
            raise Violation(f"cargo {e['argv']} saw a tree that is not the original with one selected mutation: {show}; {what}")
        e["who"] = n
        tested.setdefault(n, []).append(e)
        if Path(e["cwd"]) == c.root or str(e["cwd"]).startswith(str(c.root) + "/"):
            raise Violation(f"cargo was run in the source tree: {e['cwd']}; {what}")
        if not str(e["cwd"]).startswith(str(c.tmp) + "/"):
            raise Violation(f"cargo was run in {e['cwd']}, not in a temporary copy; {what}")
    if case["skip"] and "baseline" in tested:
        raise Violation(f"unmutated tree was tested although the baseline is skipped; {what}")
    want = {m["name"] for m in R_.ms} | (set() if case["skip"] or not R_.ms else {"baseline"})
    if set(tested) != want:
        raise Violation(f"tested {sorted(set(tested) - want)} unexpectedly, not tested {sorted(want - set(tested))}; {what}")
    for n, es in tested.items():
        k = R_.oc.get(n, "missed")
        exp = phases if case["check"] or not k.startswith(("unviable", "btimeout")) else ["build"]
        # with a shared virtual clock, a test may be ended before the stub has recorded its start
        cut = case["vto"] and k == "timeout" and [e["phase"] for e in es] == ["build"]
        if [e["phase"] for e in es] != exp and not cut:
            raise Violation(f"{n}: ran phases {[e['phase'] for e in es]}, expected {exp}; {what}")
        if len({e["cwd"] for e in es}) != 1:
            raise Violation(f"{n}: phases ran in different directories; {what}")
    # concurrency: a scenario occupies its directory from the first start to the last end
    spans = []
    for n, es in tested.items():
        spans.append((es[0]["t"], max(e["end"]["t"] if e["end"] else e["t"] for e in es), n, es[0]["cwd"]))
    spans.sort()
    for i, a in enumerate(spans):
        for b in spans[i + 1:]:
            if b[0] >= a[1]:
                break
            if a[3] == b[3]:
                raise Violation(f"{a[2]} and {b[2]} ran at the same time in {a[3]}; {what}")
            ctx.label("overlapping pairs")
    jobs = max(1, case["jobs"])
    pts = sorted([(s[0], 1) for s in spans] + [(s[1], -1) for s in spans])
    cur = peak = 0
    for _, v in pts:
        cur += v
        peak = max(peak, cur)
    if peak > jobs:
        raise Violation(f"{peak} scenarios ran at once with {jobs} jobs; {what}")
    if len({s[3] for s in spans}) > jobs:
        raise Violation(f"{len({s[3] for s in spans})} build directories for {jobs} jobs; {what}")
    ctx.label("peak %d" % peak)
