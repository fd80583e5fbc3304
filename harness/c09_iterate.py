"""C09: iterating over any history."""
from common import *
import lab, treegen

ID = "C09"
RULE = ("A case is a history of runs on one output directory: each step may edit or move source text, and runs with or without --iterate, with filters, shards, shuffling, several jobs, "
        "check-only, a failing baseline, a signal during the run, or is killed outright; results are scripted. A reference set model gives the exact "
        "selection and memory at every step. Non-trivial when a step with --iterate follows one that recorded caught or unviable mutants.")
CASES = {"quick": 500, "thorough": 10000}
FILTERS = [["--re", "u32"], ["--exclude-re", "true"], ["--re", "delete|with"], ["-f", "src/lib.rs"], ["-e", "src/lib.rs"], ["--re", "nothing at all"], ["--in-diff"]]


def gen(d):
    pool = []
    for _ in range(3):
        pool.append(treegen.tree(d, maxfiles=2, menu=treegen.SIMPLE, lo=1, hi=2))
    ws = d.chance(35)
    if ws:
        # other packages, sometimes the same files again
        for f in pool:
            for rel in ("q", "b/c"):
                if d.chance(60):
                    f.update({rel + "/" + p: t for p, t in f.items() if p.startswith("src/")})
                else:
                    f.update(treegen.tree(d, prefix=rel + "/src", maxfiles=1, menu=treegen.SIMPLE, lo=1, hi=1))
    steps = []
    t = 0
    for i in d.many(2, 6):
        if i and d.chance(25):
            t = d.int(0, 2)
        how = d.weighted([(10, "done"), (2, "basefail"), (3, "signal"), (2, "kill"), (1, "list")])
        steps.append(dict(tree=t, iterate=d.chance(75), filt=d.choice(FILTERS) if d.chance(25) else [], shard=[d.int(0, 1), 2] if d.chance(15) else None,
                          shuffle=d.chance(30), jobs=d.weighted([(5, 1), (1, 3)]), check=d.chance(8), how=how, at=d.int(0, 8), phase=d.choice(["build", "test"]),
                          oc=[d.weighted([(4, "caught"), (4, "missed"), (3, "unviable"), (1, "timeout")]) for _ in d.many(1, 11)], skip=d.chance(30), inplace=d.chance(12), leak=d.chance(8)))
    return dict(pool=pool, ws=ws, steps=steps, out=d.chance(20))


def load(c, files, cur):
    for p in cur:
        if p not in files:
            (c.root / p).unlink()
    for p, t in files.items():
        c.write(p, t)


def run_case(case, ctx):
    c = ctx.case()
    try:
        c.write("src/lib.rs", "\n")
        c.package("p")
        cur = {"src/lib.rs": ""}
        for rel in ("q", "b/c") if case["ws"] else ():
            c.write(rel + "/src/lib.rs", "\n")
            c.package("q-" + rel[0], rel=rel)
            cur[rel + "/src/lib.rs"] = ""
        c.finish()
        mem = None      # names to be left out by an iterating run; None: no output directory
        nontriv = False
        outp = (c.base / "o") if case["out"] else c.root
        for si, s in enumerate(case["steps"]):
            files = case["pool"][s["tree"]]
            load(c, files, cur)
            cur = files
            (c.fake / "plan").write_text("")
            filt = s["filt"]
            oarg = (["-o", str(outp)] if case["out"] else []) + (["--workspace"] if case["ws"] else [])
            if filt == ["--in-diff"]:
                # src/lib.rs is new
                ls = files["src/lib.rs"].split("\n")[:-1]
                (c.base / "d.diff").write_text(f"--- /dev/null\n+++ b/src/lib.rs\n@@ -0,0 +1,{len(ls)} @@\n" + "".join("+" + x + "\n" for x in ls))
                filt = ["--in-diff", str(c.base / "d.diff")]
                ctx.label("in-diff")
            every = lab.mutants(c, files, *filt, *oarg)
            if any(m["dup"] for m in every):
                return dict(nontrivial=False)
            iterate = ["--iterate"] if s["iterate"] else []
            left = [m for m in every if not (s["iterate"] and m["name"] in (mem or set()))]
            if s["shard"]:
                k, n = s["shard"]
                left = left[k::n]
            sh = ["--shard=%d/%d" % tuple(s["shard"])] if s["shard"] else []
            common = [*filt, *sh, *iterate, *oarg]
            what = f"step {si}: {common} {s['how']}; remembered {sorted(mem or [])[:30]}"
            before = snapshot(outp / "mutants.out") if (outp / "mutants.out").exists() else None
            lst = c.run("--list", *common)
            if lst.code or lst.out.splitlines() != [m["name"] for m in left]:
                raise Violation(f"listing gives {lst.out.splitlines()}, expected {[m['name'] for m in left]}; {what}; {lst}")
            after = snapshot(outp / "mutants.out") if (outp / "mutants.out").exists() else None
            if before != after:
                raise Violation(f"listing changed the output directory; {what}")
            if s["how"] == "list":
                continue
            base = tree_digest(lab.rs_bytes(files))
            jobs = s["jobs"]
            oc = lab.assign(left, [k if jobs == 1 and not s["check"] or k != "timeout" else "missed" for k in s["oc"]])
            extra = []
            how = s["how"]
            skip = s["skip"] and how != "basefail"
            if how == "basefail":
                extra = [f"{base} {'check' if s['check'] else 'build'} exit 101"]
            elif how in ("signal", "kill") and left:
                ph = "check" if s["check"] else s["phase"]
                sig = {"signal": [2, 15][s["at"] % 2], "kill": 9}[how]
                x = left[s["at"] % len(left)]
                extra = [f"{x['digest']} {ph} sigparent {sig} sleep 3000 exit 0"]
                if ph == "test" and oc[x["name"]].startswith("unviable"):
                    extra = [f"{x['digest']} build exit 0"] + extra
            lab.plan(c, left, oc, s["check"], (), extra)
            c.clear_events()
            args = [*common, *([] if s["shuffle"] else ["--no-shuffle"]), *(["--check"] if s["check"] else []),
                    *(["--in-place"] if s.get("inplace") and jobs == 1 else ["--leak-dirs"] if s.get("leak") else []), *(["--baseline=skip"] if skip else []), *([f"-j{jobs}"] if jobs > 1 else [])]
            r = c.run(*args, warp=40)
            what += f"; {r}"
            out = outp / "mutants.out"
            if s["iterate"] and mem and any(m["name"] in mem for m in every):
                nontriv = True
                ctx.label("iterating step")
            ctx.label(how)
            if not out.is_dir():
                raise Violation(f"no output directory; {what}")
            plan = json.loads((out / "mutants.json").read_text())
            pn = [mutant_name(m, files[m["file"]]) for m in plan]
            want = [m["name"] for m in left]
            if (pn if not s["shuffle"] else sorted(pn)) != (want if not s["shuffle"] else sorted(want)):
                raise Violation(f"the run selects {pn}, expected {want}; {what}")
            got = {}
            for fn, kind in (("caught.txt", "caught"), ("unviable.txt", "unviable"), ("missed.txt", "missed"), ("timeout.txt", "timeout")):
                for l in (out / fn).read_text().splitlines():
                    if l in got:
                        raise Violation(f"{l} is recorded twice; {what}")
                    got[l] = kind
            tested = {m["name"] for m in left if any(e["digest"] == m["digest"] for e in c.events())}
            if how == "done":
                exp = {n: k for n, k in oc.items()}
                if s["check"]:
                    exp = {n: k for n, k in oc.items() if k == "unviable"}
                if tested != set(want) and left:
                    raise Violation(f"tested {sorted(tested)}, expected {want}; {what}")
                if got != exp:
                    raise Violation(f"recorded {got}, expected {exp}; {what}")
            for n, k in got.items():
                if n not in oc or oc[n] != k or n not in tested:
                    raise Violation(f"recorded {k} for {n}, planned {oc.get(n)}, tested {n in tested}; {what}")
            if how == "basefail" and left and (r.code != 4 or got):
                raise Violation(f"baseline failure: {what}")
            new = {n for n, k in got.items() if k in ("caught", "unviable")}
            mem = (set(mem or ()) if s["iterate"] else set()) | new
            pc = out / "previously_caught.txt"
            # what the next iterating run would leave out, as recorded on disk
            disk = set()
            for fn in ("caught.txt", "unviable.txt", "previously_caught.txt"):
                if (out / fn).exists():
                    disk |= set((out / fn).read_text().splitlines())
            if disk != mem:
                raise Violation(f"memory on disk {sorted(disk)}, model {sorted(mem)}; {what}")
            for p in c.stub_pids():
                os.kill(p, signal.SIGKILL)
        return dict(nontrivial=nontriv)
    finally:
        c.cleanup()
