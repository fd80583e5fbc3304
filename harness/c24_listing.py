"""C24: results and listings are deterministic and agree in every form."""
from common import *
import rsgen, treegen, c06_filters as f6

ID = "C24"
RULE = ("A case is a generated package or workspace, with simple or grammar-generated source files, and a combination of filter options. It is listed in every output form (plain, JSON, coloured, with diffs, without "
        "positions), from other places (moved tree, linked path, working directory), with files created in another order and under other locales, and then tested; all must agree. Non-trivial when there are at least 3 mutants.")
CASES = {"quick": 1500, "thorough": 25000}

LOCALES = [{"LANG": "C"}, {"LC_ALL": "tr_TR.UTF-8", "LANG": "tr_TR.UTF-8"}, {"LC_ALL": "POSIX"}, {"LANG": None}, {"TZ": "Pacific/Kiritimati"}, {"TERM": "dumb", "COLUMNS": "20"}, {"TERM": "xterm-256color", "COLUMNS": "40"},
           {"NO_COLOR": "1"}, {"RUST_BACKTRACE": "1"}, {"RUST_LOG": "trace"}, {"CARGO_MUTANTS_MINIMUM_TEST_TIMEOUT": "7"}, {"GITHUB_ACTION": "1"}, {"HOME": None}, {"MALLOC_PERTURB_": "85"}]
PLACES = ["x y", "deep/er/place", "src/src", "tree.d", "é", "target", "mutants", ".hidden", "UPPER"]
FILTERS = ["replace", "with true", "u32 with", "lib", "in a", "with 1", "delete", "-> bool", "src/"]


def gen(d):
    if d.chance(50):
        files = treegen.tree(d, tops=d.choice([("lib.rs",), ("lib.rs", "main.rs")]), maxfiles=d.int(1, 8))
    else:
        # declared in an order that is not that of the names
        mods = ["zeta", "alpha", "mid", "Beta", "r2"][: d.int(0, 3)]
        f = rsgen.gen_file(d, depth=d.int(1, 3), budget=d.int(10, 40), retdepth=d.int(0, 2), crlf=False)["text"]
        inner = f.startswith(("#!", "\ufeff", "//!", "/*!"))
        files = {"src/lib.rs": f if inner else "".join(f"mod {m};\n" for m in mods) + f}
        if not inner:
            for m in mods:
                files[d.choice([f"src/{m}.rs", f"src/{m}/mod.rs"])] = rsgen.gen_file(d, depth=d.int(1, 2), budget=20)["text"]
    two = d.chance(35)
    if two:
        files.update(treegen.tree(d, prefix="q/src", maxfiles=2))
        if d.chance(50):
            files.update(treegen.tree(d, prefix="b/src", maxfiles=2))
    args = []
    paths = sorted(files)
    if d.chance(25):
        args += [d.choice(["--file", "--exclude"]) + "=" + f6.gen_glob(d, paths)]
    if d.chance(25):
        args += [d.choice(["--re", "--exclude-re"]) + "=" + d.choice(FILTERS)]
    if d.chance(20):
        n = d.int(2, 4)
        args += ["--shard", f"{d.int(0, n - 1)}/{n}"]
    if d.chance(15):
        args += ["--error", d.choice(["anyhow!(\"é\")", "E::default()"])]
    if d.chance(10):
        args += ["--skip-calls-defaults=false"]
    return dict(files=files, args=args, place=d.choice(PLACES), link=d.chance(30), order=d.int(0, 3), locale=[d.choice(LOCALES) for _ in d.many(1, 2)], indiff=d.chance(15),
                run=d.chance(40), shuffle=d.weighted([(2, "no"), (1, "default"), (1, "yes")]), jobs=d.weighted([(3, 1), (1, 4)]), old=d.chance(20), linecol=d.chance(50), colors=d.choice(["opt", "force", "opt2"]),
                cfg=d.chance(20), rc=d.choice(["exit 0", "exit 1"]),
                tint=[dict(no=d.choice([None, None, None, "0", "1", "yes"]), force=d.choice([None, None, "0", "1", "2"]), opt=d.choice([None, "always", "never", "auto"]), env=d.choice([None, None, "always", "never", "auto"]),
                           form=d.choice([[], ["--diff"], ["--json"], ["--line-col=false"]])) for _ in d.many(1, 3)])


ANSI = __import__("re").compile(r"\x1b\[[0-9;]*m")


def pkgname(r):
    return r + "-x_y" if r else "p"


def build_tree(c, case, order):
    items = sorted(case["files"].items())
    if order == 1:
        items.reverse()
    elif order >= 2:
        items.sort(key=lambda x: fnv(order, x[0]))
    for p, t in items:
        c.write(p, t)
    rels = sorted({p.split("/src/")[0] for p in case["files"] if not p.startswith("src/")})
    pks = [("p", "", [("lib" if p.endswith("lib.rs") else "bin", p) for p in sorted(case["files"]) if p in ("src/lib.rs", "src/main.rs")])]
    pks += [(pkgname(r), r, [("lib", "src/lib.rs")]) for r in rels]
    if order % 2:
        pks.reverse()
        pks = [(n, r, t[::-1]) for n, r, t in pks]
    for n, r, t in pks:
        c.package(n, rel=r, targets=t)
    if case["cfg"]:
        c.write(".cargo/mutants.toml", 'error_values = ["cfg::err()"]\nexclude_re = ["nothing at all"]\n')
    c.finish()
    return len(pks) > 1


def run_case(case, ctx):
    c = ctx.case()
    c2 = None
    try:
        ws = build_tree(c, case, 0)
        args = list(case["args"]) + (["--workspace"] if ws else [])
        if case["indiff"]:
            p = sorted(case["files"])[-1]
            ls = case["files"][p].split("\n")[:-1]
            if not ls or "\r" in case["files"][p] or case["files"][p].startswith("\ufeff"):
                return dict(nontrivial=False)
            (c.base / "d.diff").write_text(f"--- /dev/null\n+++ b/{p}\n@@ -0,0 +1,{len(ls)} @@\n" + "".join("+" + x + "\n" for x in ls))
            args += ["--in-diff", str(c.base / "d.diff")]
        before = snapshot(c.root, times=True)
        js = c.run("--list", "--json", *args)
        what = f"args {args}"
        if js.code:
            raise Violation(f"listing fails; {what}; {js}")
        ms = json.loads(js.out)
        names = [mutant_name(m, case["files"][m["file"]]) for m in ms]
        nocols = [mutant_name(m, case["files"][m["file"]], line_col=False) for m in ms]

        def same(r, want, how):
            if r.code != 0:
                raise Violation(f"{how}: fails; {what}; {r}")
            if r.out != want:
                a, b = want.split("\n"), r.out.split("\n")
                i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
                raise Violation(f"{how}: differs at line {i + 1}: expected {a[i:i + 2]}, got {b[i:i + 2]}; {what}")
        def owner(path):
            return pkgname(path.partition("/src/")[0] if not path.startswith("src/") else "")
        wrong = [m["name"] if "name" in m else m["file"] for m in ms if m["package"] != owner(m["file"])]
        if wrong:
            raise Violation(f"mutants attributed to another package than that of their file: {wrong[:3]}; {what}")
        plain = "".join(n + "\n" for n in names)
        same(c.run("--list", *args), plain, "plain listing against JSON listing")
        same(c.run("--list", "--line-col=false", *args), "".join(n + "\n" for n in nocols), "listing without positions")
        jd = c.run("--list", "--json", "--diff", *args)
        md = json.loads(jd.out)
        if [{k: v for k, v in m.items() if k != "diff"} for m in md] != ms:
            raise Violation(f"JSON listing with diffs has other mutants than without; {what}")
        for n, m in zip(nocols, md):
            head = [f"--- {m['file']}", "+++ " + n.removeprefix(m["file"] + ": ").replace("\n", " ")]
            if m["diff"].split("\n")[:2] != head:
                raise Violation(f"the diff of {n} should be headed {head}, not {m['diff'].splitlines()[:2]}; {what}")
        dl = "".join(n + "\n" + m["diff"] + "\n" for n, m in zip(names, md))
        same(c.run("--list", "--diff", *args), dl, "plain listing with diffs against JSON")
        col = dict(env={"CLICOLOR_FORCE": "1"}) if case["colors"] == "force" else {}
        ca = [] if col else ["--colors=always"]
        r = c.run("--list", *ca, *args, **col)
        if any(m["genre"] != "MatchArm" for m in ms) and "\x1b[" not in r.out:
            raise Violation(f"no colours although asked for; {what}; {r}")
        r.out = ANSI.sub("", r.out)
        same(r, plain, "coloured listing")
        if case["colors"] == "opt2":
            r = c.run("--list", "--diff", "--line-col=false", *ca, *args)
            r.out = ANSI.sub("", r.out)
            same(r, "".join(n + "\n" + m["diff"] + "\n" for n, m in zip(nocols, md)), "coloured listing with diffs, without positions")
        for t in case["tint"]:
            # NO_COLOR and CLICOLOR_FORCE, set to anything but 0, win over the option, which wins over CARGO_TERM_COLOR; nothing here is a terminal
            on = False if t["no"] not in (None, "0") else True if t["force"] not in (None, "0") else (t["opt"] or t["env"]) == "always"
            env = {"NO_COLOR": t["no"], "CLICOLOR_FORCE": t["force"], "CARGO_TERM_COLOR": t["env"]}
            r = c.run("--list", "--no-copy-target", *t["form"], *([f"--colors={t['opt']}"] if t["opt"] else []), *args, env=env)
            how = f"listing {t['form']} with --colors={t['opt']} and {env}"
            if ("\x1b[" in r.err) != on:
                raise Violation(f"{how}: messages should{'' if on else ' not'} be coloured; {what}; {r}")
            if t["form"] != ["--json"] and any(m["genre"] != "MatchArm" for m in ms) and ("\x1b[" in r.out) != on:
                raise Violation(f"{how}: the listing should{'' if on else ' not'} be coloured; {what}; {r}")
            r.out = ANSI.sub("", r.out) if on and t["form"] != ["--json"] else r.out
            same(r, {"": plain, "--diff": dl, "--json": js.out}.get("".join(t["form"]), "".join(n + "\n" for n in nocols)), how)
            ctx.label("colours " + ("on" if on else "off"))
        same(c.run("--list", "--colors=never", *args, env={"CLICOLOR_FORCE": "0"}), plain, "listing without colours")
        lf, lfj = c.run("--list-files", *args), c.run("--list-files", "--json", *args)
        same(lf, "".join(f["path"] + "\n" for f in json.loads(lfj.out)), "plain file list against JSON")
        if wrong := [f for f in json.loads(lfj.out) if f["package"] != owner(f["path"])]:
            raise Violation(f"files listed for another package: {wrong[:3]}; {what}")
        nofilter = not any(x.startswith(("--file=", "--exclude=")) for x in args)
        flist = [f["path"] for f in json.loads(lfj.out)]
        if {m["file"] for m in ms} - set(flist) or (nofilter and set(flist) != set(case["files"])):
            raise Violation(f"files listed {flist}, files with mutants {sorted({m['file'] for m in ms})}, tree {sorted(case['files'])}; {what}")
        for loc in case["locale"]:
            same(c.run("--list", "--json", *args, env=loc), js.out, f"listing with environment {loc}")
        sub = c.root / os.path.dirname(ms[0]["file"]) if ms else c.root / "src"
        if ws or not (sub / "Cargo.toml").exists():
            same(c.run("--list", "--json", *args, cwd=sub, d=False), js.out, "listing in a sub directory")
        same(c.run("--list", "--json", "-d", os.path.relpath(c.root, c.base), *args, cwd=c.base, d=False), js.out, "listing with a relative --dir")
        # listing changes nothing and builds nothing
        after = snapshot(c.root, times=True)
        if after != before:
            df = [k for k in set(after) | set(before) if after.get(k) != before.get(k)]
            raise Violation(f"listing changed the tree: {df[:5]}; {what}")
        if list(c.tmp.iterdir()) or c.events():
            raise Violation(f"listing ran cargo or left temporary files: {list(c.tmp.iterdir())} {[e['argv'] for e in c.events()]}; {what}")
        # elsewhere, created in another order
        c2 = ctx.case()
        c2.set_root(case["place"])
        build_tree(c2, case, case["order"])
        a2 = [x.replace(str(c.base), str(c2.base)) for x in args]
        if case["indiff"]:
            shutil.copy(c.base / "d.diff", c2.base / "d.diff")
        if case["link"]:
            os.symlink(c2.root, c2.base / "alias")
            same(c2.run("--list", "--json", "-d", c2.base / "alias", *a2, d=False), js.out, f"listing in {case['place']!r} through a link")
        same(c2.run("--list", "--json", *a2), js.out, f"listing in {case['place']!r}, creation order {case['order']}")
        ctx.label("forms compared", 14)
        if case["run"] and names and len(names) <= 80:
            if case["old"]:
                c2.run(*a2, "--shard=0/%d" % max(2, len(names)), "--baseline=skip", warp=40) if "--shard" not in a2 else None
                same(c2.run("--list", "--json", *a2), js.out, "listing with an existing output directory")
            c2.plan([f"* test {case['rc']}"])
            sh = {"no": ["--no-shuffle"], "yes": ["--shuffle"], "default": []}[case["shuffle"]]
            r = c2.run(*a2, *sh, "--baseline=skip", f"-j{case['jobs']}", warp=40)
            if r.code != (2 if case["rc"] == "exit 0" else 0):
                raise Violation(f"the test run failed; {what}; {r}")
            got = c2.outlines("missed.txt" if case["rc"] == "exit 0" else "caught.txt")
            if sorted(got) != sorted(names):
                raise Violation(f"a test run reports other mutants than the listing: missing {[n for n in names if n not in got][:3]}, extra {[n for n in got if n not in names][:3]}; {what} {sh}")
            mj = c2.outjson("mutants.json")
            key = lambda m: json.dumps(m, sort_keys=True)
            if sorted(map(key, mj)) != sorted(map(key, ms)):
                raise Violation(f"mutants.json differs from the JSON listing; {what} {sh}")
            if case["shuffle"] == "no":
                if mj != ms:
                    raise Violation(f"without shuffling, mutants.json is in another order than the listing; {what}")
                if case["jobs"] == 1:
                    if got != names:
                        raise Violation(f"without shuffling, mutants are tested in another order than listed; {what}")
                    seq = []
                    for e in c2.events()[-2 * len(ms):]:
                        ch = [p for p, t in e["tree"].items() if p in case["files"] and c2.snap(t) != norm(case["files"][p]).encode() and c2.snap(t) != case["files"][p].encode()]
                        if e["phase"] == "test":
                            seq.append(ch)
                    if seq != [[m["file"]] for m in ms]:
                        raise Violation(f"without shuffling, files were mutated in order {seq[:6]}, listed {[m['file'] for m in ms][:6]}; {what}")
            ctx.label("test run " + case["shuffle"])
        return dict(nontrivial=len(names) >= 3)
    finally:
        c.cleanup()
        if c2:
            c2.cleanup()
