"""C07: shards partition the selected mutants."""
from common import *
import rsgen, treegen, c06_filters as f6

ID = "C07"
RULE = ("A case is a generated tree (sometimes a two-package workspace), filter options (globs, regexes, a diff), and a shard count; every shard is listed, and for some a test run of a "
        "generated shard with a stub cargo is compared with its listing. Non-trivial when there are at least 2 shards and 2 selected mutants.")
CASES = {"quick": 1200, "thorough": 25000}
BAD = ["1/1", "5/5", "3/2", "0/0", "1", "/2", "a/2", "0/b", "-1/2", "1/2/3", "", "0/-1", "0.5/2", " ", "1:2"]


def gen(d):
    files = treegen.tree(d, tops=d.choice([("lib.rs",), ("lib.rs", "main.rs")]), maxfiles=d.int(1, 6))
    two = d.chance(30)
    if two:
        files.update(treegen.tree(d, prefix="q/src", maxfiles=2))
    paths = sorted(files)
    if d.chance(3):
        p = d.choice(paths)
        files[p] = files[p].rstrip("\n") + "\n" + treegen.bulk(0, d.int(60, 300))
    args = []
    if d.chance(30):
        args += [d.choice(["-f", "-e"]), f6.gen_glob(d, paths)]
    if d.chance(40):
        args += [d.choice(["--re", "--exclude-re"]), d.choice(["replace", "with true", "u32 with", "lib", "in a", "with 1", "delete"])]
    n = d.weighted([(3, 2), (2, 1), (3, 3), (2, 4), (2, 5), (2, 7), (1, 16), (1, 40)]) if not d.chance(1) else d.choice([256, 300, 1000])
    return dict(files=files, two=two, args=args, n=n, run=d.int(0, max(0, min(n, 20) - 1)) if d.chance(15) and n < 100 else None, shuffle=d.chance(50),
                bad=d.choice(BAD) if d.chance(20) else None, jobs=d.choice([1, 1, 3]), indiff=d.weighted([(5, None), (1, "file"), (4, [d.int(1, 4), d.int(0, 3)])]), space=d.chance(50), iterate=d.choice([2, 3, 5]) if d.chance(20) else None)


def run_case(case, ctx):
    c = ctx.case()
    try:
        for p, t in case["files"].items():
            c.write(p, t)
        tops = [("lib" if p.endswith("lib.rs") else "bin", p) for p in case["files"] if p in ("src/lib.rs", "src/main.rs")]
        c.package("p", targets=tops)
        if case["two"]:
            c.package("q", rel="q", targets=[("lib", "src/lib.rs")])
        c.finish()
        args = list(case["args"]) + (["--workspace"] if case["two"] else [])
        if case["indiff"] and case["indiff"] != "file":
            # some of the lines are changed
            m, o = case["indiff"]
            diff = ""
            for p, t in sorted(case["files"].items()):
                hs = [f"@@ -{i} +{i} @@\n-was {i}\n+{x}\n" for i, x in enumerate(t.split("\n")[:-1], 1) if (i + o) % m == 0]
                if hs:
                    diff += f"--- a/{p}\n+++ b/{p}\n" + "".join(hs)
            (c.base / "d.diff").write_text(diff)
            args += ["--in-diff", str(c.base / "d.diff")]
            ctx.label("in-diff")
        elif case["indiff"]:
            # all of one file is new
            p = sorted(case["files"])[-1]
            t = case["files"][p]
            ls = t.split("\n")[:-1]
            if ls:
                diff = f"diff --git a/{p} b/{p}\n--- /dev/null\n+++ b/{p}\n@@ -0,0 +1,{len(ls)} @@\n" + "".join("+" + x + "\n" for x in ls)
                (c.base / "d.diff").write_text(diff)
                args += ["--in-diff", str(c.base / "d.diff")]
        if case.get("iterate"):
            # an earlier run has caught some of them
            done = c.run("--list", *args).out.splitlines()[:: case["iterate"]]
            c.write("mutants.out/caught.txt", "".join(n + "\n" for n in done))
            args.append("--iterate")
            ctx.label("iterate")
        base = c.run("--list", *args)
        if base.code:
            raise Violation(f"listing failed: {base}")
        names = base.out.splitlines()
        if case["bad"] is not None:
            r = c.run("--list", *args, f"--shard={case['bad']}")
            ctx.label("invalid shard")
            if r.code == 0 or any(x in r.out.splitlines() for x in names):
                raise Violation(f"--shard={case['bad']!r} was accepted: {r}")
        n = case["n"]
        shards = []
        ks = range(n)
        for k in ks:
            r = c.run("--list", *args, *(["--shard", f"{k}/{n}"] if case["space"] else [f"--shard={k}/{n}"]))
            if r.code:
                raise Violation(f"shard {k}/{n} failed: {r}")
            shards.append(r.out.splitlines())
        allm = [x for s in shards for x in s]
        if sorted(allm) != sorted(names):
            miss = [x for x in names if x not in allm]
            dup = [x for x in set(allm) if allm.count(x) > names.count(x)]
            raise Violation(f"shards of {n} do not partition {len(names)} mutants ({args}): missing {miss[:5]}, more than once {dup[:5]}, sizes {[len(s) for s in shards]}")
        if max(map(len, shards)) - min(map(len, shards)) > 1:
            raise Violation(f"shard sizes differ: {[len(s) for s in shards]}")
        for k, s in enumerate(shards):
            it = iter(names)
            if not all(x in it for x in s):
                raise Violation(f"shard {k}/{n} is not in source order: {s}")
        ctx.label(f"n={n}")
        if case["run"] is not None and shards[case["run"]]:
            k = case["run"]
            r = c.run(*args, f"--shard={k}/{n}", *([] if case["shuffle"] else ["--no-shuffle"]), f"-j{case['jobs']}", "--baseline=skip", warp=40)
            if r.code != 2:
                raise Violation(f"run of shard {k}/{n}: {r}")
            got = c.outlines("missed.txt")
            plan = [m.get("name") or "" for m in c.outjson("mutants.json")]
            if sorted(got) != sorted(shards[k]):
                raise Violation(f"shard {k}/{n} tests {got}, lists {shards[k]}")
            if len(plan) != len(got):
                raise Violation(f"mutants.json has {len(plan)} of {len(got)}")
            if not case["shuffle"] and case["jobs"] == 1 and got != shards[k]:
                raise Violation(f"shard {k}/{n} without shuffling tests in order {got}, lists {shards[k]}")
            ctx.label("test run")
        return dict(nontrivial=n >= 2 and len(names) >= 2)
    finally:
        c.cleanup()
