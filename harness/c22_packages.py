"""C22: the packages mutated and the packages tested are the ones selected."""
from common import *
import optmodel

ID = "C22"
RULE = ("A case is a workspace of 1-6 packages (root or virtual, nested members, default members, several targets), a starting directory given by the working directory, --dir or --manifest-path, a package "
        "selection (none, --workspace, --package with repeated, comma-separated and unknown names) and test-package settings; listings, reports and child commands are compared with a model of the documented selection. "
        "In some cases the real cargo answers the metadata queries. Non-trivial when the workspace has at least two packages.")
CASES = {"quick": 3000, "thorough": 25000}
ASSUMPTIONS = ["the stub's cargo metadata and locate-project output has the form of real cargo's (part of the cases use the real one)"]

NAMES = ["alpha", "beta", "gamma", "delta", "zeta", "alpha-two", "Beta", "a", "al", "p_1", "alpha_two", "p-1"]
DIRS = ["a", "b", "crates/x", "crates/y", "a/inner", "z", "crates/x/sub/deep", "alpha", "with space", "é"]
LAYOUTS = [[["lib", "src/lib.rs"]], [["bin", "src/main.rs"]], [["lib", "src/lib.rs"], ["bin", "src/main.rs"]], [["lib", "src/lib.rs"], ["bin", "src/bin/tool.rs"], ["test", "tests/it.rs"]],
           [["lib", "src/lib.rs"], ["example", "examples/ex.rs"], ["bench", "benches/be.rs"]], [["test", "tests/only.rs"]]]
UNKNOWN = ["nosuch", "alph", "alpha@0.1.0", "ALPHA", "*"]


def gen(d):
    n = d.int(1, 6)
    names, dirs, pk = list(NAMES), list(DIRS), []
    rootpk = d.chance(35)
    for i in range(n):
        nm, rel = d.choice(names), ("" if i == 0 and rootpk else d.choice(dirs))
        names.remove(nm)
        if rel:
            dirs.remove(rel)
        pk.append([nm, rel, d.choice(LAYOUTS[:-1]) if d.chance(90) else LAYOUTS[-1], d.choice(["0.1.0", "1.2.3", "0.0.1-pre.1", "2.0.0+b7"])])
    case = dict(pk=pk, rootpk=rootpk)
    case["default"] = sorted({d.below(n) for _ in d.many(1, 3)}) if d.chance(35) else None
    case["start"] = d.weighted([(3, "root"), (4, "member"), (2, "sub"), (1, "other"), (1, "parent")])
    case["which"] = d.below(n)
    case["how"] = d.choice(["cwd", "dir", "manifest", "reldir", "relmanifest", "baremanifest"])
    case["sel"] = d.weighted([(4, "none"), (2, "workspace"), (4, "names")])
    known = [p[0] for p in pk]
    case["names"] = [d.choice(known) if d.chance(85) else d.choice(UNKNOWN) for _ in d.many(1, 4)]
    if d.chance(12):
        q = d.choice(known)
        case["names"].append(d.choice([q.replace("-", "_"), q.replace("_", "-"), q.upper(), q[:-1] or "q", q + "s", q + "-two", q.lower()]))
    case["commas"] = d.chance(30)
    cli, cfg = {}, {}
    for side in (cli, cfg):
        if d.chance(20):
            side["test_workspace"] = d.chance(60)
        if d.chance(25):
            side["test_package"] = [d.choice(known) if d.chance(85) else d.choice(["nosuch", "alpha-two", "p-1", "p_1", "beta"]) for _ in d.many(1, 5)]
    case["cli"], case["cfg"] = cli, cfg
    case["run"] = d.chance(60)
    case["skip"] = d.chance(30)
    case["jobs"] = d.weighted([(3, 1), (1, 3)])
    case["real"] = d.chance(15)
    case["rc"] = d.choice(["exit 0", "exit 1"])
    return case


def prepare(tools, tier):
    global REAL
    sysroot = subprocess.run(["rustc", "--print", "sysroot"], env=build_env(), capture_output=True, text=True, check=True).stdout.strip()
    REAL = sysroot + "/bin/cargo"


def run_case(case, ctx):
    c = ctx.case()
    try:
        pk = case["pk"]
        n = 0
        where = {}  # file -> package
        mfiles = {}  # package -> files mutated
        for name, rel, targets, ver in pk:
            mf = []
            for kind, path in targets:
                n += 1
                f = os.path.join(rel, path)
                c.write(f, f"pub fn f{n}() -> bool {{\n    g{n}()\n}}\n")
                where[f] = name
                if kind in ("lib", "bin"):
                    mf.append(f)
            mfiles[name] = sorted(mf)
        for i, (name, rel, targets, ver) in enumerate(pk):
            isdef = i in case["default"] if case["default"] is not None else (rel == "" if case["rootpk"] else True)
            c.package(name, rel=rel, targets=[tuple(t) for t in targets], version=ver, default=isdef)
            if rel:
                c.write(os.path.join(rel, "Cargo.toml"), f'[package]\nname = "{name}"\nversion = "{ver}"\nedition = "2021"\n')
        rm = ""
        if case["rootpk"]:
            rm = f'[package]\nname = "{pk[0][0]}"\nversion = "{pk[0][3]}"\nedition = "2021"\n\n'
        rm += "[workspace]\nmembers = [%s]\n" % ", ".join(json.dumps(p[1], ensure_ascii=False) for p in pk if p[1])
        if case["default"] is not None:
            rm += "default-members = [%s]\n" % ", ".join(json.dumps(pk[i][1] or ".", ensure_ascii=False) for i in case["default"])
        c.finish(root_manifest=rm)
        c.write(".cargo/mutants.toml", optmodel.toml(case["cfg"]))
        c.write("docs/x.txt", "x")
        # where to start, and the package that is in
        _, rel, targets, _ = pk[case["which"]]
        st = case["start"]
        sdir = {"root": "", "member": rel, "sub": os.path.join(rel, os.path.dirname(targets[0][1])), "other": "docs", "parent": os.path.dirname(rel)}[st]
        how = case["how"]
        if "manifest" in how and st in ("sub", "other", "parent"):
            how = "reldir" if how == "relmanifest" else "dir"
        inside, up = None, sdir
        while inside is None:
            inside = next((p[0] for p in pk if p[1] == up), None)
            if not up:
                break
            up = os.path.dirname(up)
        start = c.root / sdir
        kw = dict(d=False)
        if how == "cwd":
            a, kw["cwd"] = [], start
        elif how == "dir":
            a = ["-d", start]
        elif how == "manifest":
            a = ["--manifest-path", start / "Cargo.toml"]
        elif how == "reldir":
            a, kw["cwd"] = ["--dir", os.path.relpath(start, c.root / "docs")], c.root / "docs"
        elif how == "relmanifest":
            a, kw["cwd"] = ["--manifest-path", os.path.relpath(start / "Cargo.toml", c.root / "docs")], c.root / "docs"
        else:
            a, kw["cwd"] = ["--manifest-path", "Cargo.toml"], start
        a = [str(x) for x in a]
        known = {p[0]: p for p in pk}
        unknown = []
        if case["sel"] == "workspace":
            a.append("--workspace")
            want = sorted(known)
        elif case["sel"] == "names":
            nm = case["names"]
            a += ["-p", ",".join(nm)] if case["commas"] and len(nm) > 1 else [x for q in nm for x in ("--package", q)]
            want = sorted(set(nm) & set(known))
            unknown = [q for q in nm if q not in known]
        elif inside:
            want = [inside]
        else:
            want = sorted(p["name"] for p in c.packages if p["default"])
        eff = optmodel.Eff(case["cli"], case["cfg"])
        xa, _ = optmodel.argv(case["cli"])
        env = {"REAL_CARGO": REAL, "CARGO_NET_OFFLINE": "true"} if case["real"] else {}
        kw["env"] = env
        what = f"args {a + xa} in {os.path.relpath(kw.get('cwd', c.base), c.base)}; root manifest:\n{rm}"
        r = c.run("--list", "--json", *a, *xa, **kw)
        if r.code != 0:
            raise Violation(f"listing fails; {what}; {r}")
        got = [(m["package"], m["file"], m["replacement"]) for m in json.loads(r.out)]
        exp = [(p, f, v) for p in want for f in mfiles[p] for v in ("true", "false")]
        if got != exp:
            raise Violation(f"mutants of packages {sorted({g[0] for g in got})} are listed, should be {want}: missing {[e for e in exp if e not in got][:4]}, extra {[g for g in got if g not in exp][:4]}, "
                            f"repeated {[g for g in got if got.count(g) > 1][:2]}{'' if sorted(got) != sorted(exp) else ', order differs'}; {what}")
        for u in unknown:
            if u not in r.err + r.out:
                raise Violation(f"unknown package {u} is not mentioned; {what}; {r}")
        lf = c.run("--list-files", "--json", *a, *xa, **kw)
        gf = [(x["package"], x["path"]) for x in json.loads(lf.out)] if lf.code == 0 else None
        if gf != [(p, f) for p in want for f in mfiles[p]]:
            raise Violation(f"--list-files gives {gf}, should be the files of {want}; {what}")
        ctx.label(f"start {st}")
        ctx.label(f"select {case['sel']}")
        if case["real"]:
            ctx.label("real cargo metadata")
        if not case["run"] or not exp:
            return dict(nontrivial=len(pk) > 1)
        c.clear_events()
        c.plan([f"* test {case['rc']}"] if case["skip"] or case["rc"] == "exit 0" else ["* * exit 0"])
        r = c.run(*a, *xa, *(["--baseline=skip"] if case["skip"] else []), *([f"-j{case['jobs']}"] if case["jobs"] > 1 else []), warp=40, **kw)
        if r.code not in (0, 2):
            raise Violation(f"the run failed; {what}; {r}")
        rep = [(m["package"], m["file"], m["replacement"]) for m in c.outjson("mutants.json")]
        if sorted(rep) != sorted(exp):
            raise Violation(f"mutants.json has {sorted(rep)[:6]}, listing has {sorted(exp)[:6]}; {what}")
        out = c.outjson("outcomes.json")["outcomes"]
        ver = {p[0]: p[3] for p in pk}
        evs = {}
        for e in c.events():
            evs.setdefault(e["digest"], []).append(e)
        full = lambda ps: [f"--package={p}@{ver[p]}" for p in ps]
        nb = 0
        texts = {f: f.encode() for f in where}
        for o in out:
            sc = o["scenario"]
            if sc == "Baseline":
                nb += 1
                own = sorted({e[0] for e in exp})
            else:
                m = sc["Mutant"]
                if where.get(m["file"]) != m["package"]:
                    raise Violation(f"outcome of {m['file']} is reported for package {m['package']}, it belongs to {where.get(m['file'])}; {what}")
                own = [m["package"]]
            w = ["--workspace"] if eff.testpk == "workspace" else full(sorted(set(eff.testpk) & set(known))) if eff.testpk else full(own)
            for ph in o["phase_results"]:
                g = [x for x in ph["argv"] if x.startswith("--package") or x in ("--workspace", "-p")]
                if g != w:
                    raise Violation(f"{sc if nb and sc == 'Baseline' else m['file']} was tested with {g}, should be {w}; test packages {eff.testpk}; {what}")
        if nb != (0 if case["skip"] else 1):
            raise Violation(f"{nb} baseline runs; {what}")
        # what the children really got
        got = sorted(tuple(x for x in e["argv"] if x.startswith("--package") or x == "--workspace") for es in evs.values() for e in es)
        rec = sorted(tuple(x for x in ph["argv"] if x.startswith("--package") or x == "--workspace") for o in out for ph in o["phase_results"])
        if got != rec:
            raise Violation(f"recorded package arguments differ from those of the child processes: {rec[:4]} / {got[:4]}; {what}")
        for e in (e for es in evs.values() for e in es):
            changed = [p for p, t in e["tree"].items() if p in where and c.snap(t) != (c.root / p).read_bytes()]
            if eff.testpk is None and changed:
                w = full([where[changed[0]]])
                g = [x for x in e["argv"] if x.startswith("--package") or x == "--workspace"]
                if g != w or len(changed) != 1:
                    raise Violation(f"cargo ran with {g} for a mutant in {changed}; {what}")
        ctx.label("run, test packages " + ("default" if eff.testpk is None else "workspace" if eff.testpk == "workspace" else "named"))
        return dict(nontrivial=len(pk) > 1)
    finally:
        c.cleanup()
