"""C05: the files examined are the ones rustc would load."""
from common import *
import rsgen

ID = "C05"
RULE = ("A case is a package with 1-5 targets whose module trees mix plain, mod.rs, #[path], inline (also with #[path]), raw-identifier, shared, cfg(test) and "
        "skipped modules, optionally with a missing file; rustc --emit=dep-info on the same tree is the oracle. Non-trivial when rustc accepts the tree "
        "and it has at least 3 module files.")
CASES = {"quick": 1600, "thorough": 40000}
NAMES = ["a", "b", "c", "util", "mod_x", "tests", "r#match", "r#type", "lib2", "main2", "x1", "Deep", "r#async", "my_mod", "xmod", "alib", "remain", "mod1", "naïve", "größe"]
ASSUMPTIONS = ["rustc's dep-info lists the source files loaded through mod declarations"]
KINDS = ["bin", "lib", "proc-macro", "cdylib", "rlib", "dylib", "staticlib"]


class G:
    def __init__(self, d):
        self.d = d
        self.files = {}
        self.oracle = {}
        self.n = 0
        self.leaves = []
        self.feats = set()
        self.budget = d.int(1, 14)

    def fn(self):
        self.n += 1
        return f"pub fn f{self.n}() -> bool {{ true }}\n"

    def file(self, path, modrs, depth, forced=None):
        """Generate the file; modrs: children are looked up beside it."""
        self.files[path] = None
        d = self.d
        dirn = os.path.dirname(path)
        search = dirn if modrs else path[:-3]
        real, orac = [], []
        used = set()
        nested = self.decls(search, dirn, depth, real, orac, used, forced)
        body = self.fn()
        if depth < self.top and not nested and d.chance(12):
            body = d.choice(["", "\n", "// nothing here\n"])
            self.feats.add("empty module")
        self.files[path] = "".join(real[:len(real) // 2]) + body + "".join(real[len(real) // 2:])
        self.oracle[path] = "".join(orac) + body
        if not nested:
            self.leaves.append(path)

    def pick(self, used):
        c = [n for n in NAMES if n not in used]
        if not c:
            return None
        n = self.d.choice(c)
        used.add(n)
        return n

    def free(self, p):
        return p not in self.files and p not in self.taken

    taken = set()

    def decls(self, search, attrdir, depth, real, orac, used, forced=None):
        """search: where plain children live; attrdir: what a #[path] on a declaration here is relative to."""
        d = self.d
        nested = False
        for i in d.many(1 if depth >= 3 else 0, 3 if depth > 0 else 0):
            if self.budget <= 0:
                break
            name = self.pick(used)
            if name is None:
                break
            fsname = name.removeprefix("r#")
            vis = d.choice(["", "pub ", "pub(crate) "])
            pre = d.choice(["", "", "", "/// doc\n", "// comment\n", "#[allow(dead_code)]\n", "#[cfg(unix)]\n", "#[cfg(not(test))]\n", "#[doc(hidden)]\n#[cfg(not(windows))]\n", "#[macro_use]\n"])
            k = d.weighted([(6, "plain"), (4, "path"), (4, "inline"), (2, "inlinepath"), (2, "reuse"), (1, "cfgtest"), (1, "skip"), (1, "outside")])
            if k in ("inline", "inlinepath") and depth > 0:
                r2, o2 = [], []
                if k == "inlinepath":
                    sub = d.choice(["pd", "pd/q", "./pd2", "pd/../pd3"])
                    s2 = os.path.normpath(os.path.join(attrdir, sub))
                    inner_attr = d.chance(25)
                    at = f'#[path = "{sub}"]\n'
                    self.feats.add("inline path")
                else:
                    s2, at, inner_attr, sub = os.path.join(search, fsname), "", False, ""
                    self.feats.add("inline")
                self.decls(s2, s2, depth - 1, r2, o2, set())
                body = self.fn()
                if inner_attr:
                    real.append(f'{pre}{vis}mod {name} {{\n#![path = "{sub}"]\n{body}{"".join(r2)}}}\n')
                    orac.append(f'{vis}mod {name} {{\n#![path = "{sub}"]\n{body}{"".join(o2)}}}\n')
                else:
                    real.append(f'{pre}{at}{vis}mod {name} {{\n{body}{"".join(r2)}}}\n')
                    orac.append(f'{at}{vis}mod {name} {{\n{body}{"".join(o2)}}}\n')
                nested = True
                continue
            if k == "reuse" and self.leaves:
                p = d.choice(self.leaves)
                rel = os.path.relpath(p, attrdir or ".")
                # intermediate directories must exist for ".." to resolve
                real.append(f'{pre}#[path = "{rel}"]\n{vis}mod {name};\n')
                orac.append(f'#[path = "{rel}"]\n{vis}mod {name};\n')
                self.feats.add("shared")
                self.mk.add(attrdir)
                nested = True
                continue
            self.budget -= 1
            if k == "path":
                sub = d.choice([f"{fsname}.rs", f"sub/{fsname}.rs", f"other_{self.n}.rs", f"./p/{fsname}_x.rs", f"sub/mod.rs", f"../{fsname}_up{self.n}.rs", f"{fsname}/mod.rs", f"z/{fsname}.inc"])
                p = os.path.normpath(os.path.join(attrdir, sub))
                if not self.free(p) or p.startswith(".."):
                    continue
                self.taken.add(p)
                if sub.startswith("../"):
                    self.mk.add(attrdir)
                if d.chance(12):
                    # rustc allows modules in functions only with a path
                    self.n += 1
                    fn = f"fn blk{self.n}() {{\n" + d.choice(["%s", "if true {\n%s}\n", "mod inner_ { pub fn f%d() -> bool { true } }\n%%s" % self.n]) + "}\n"
                    decl = fn % f'#[path = "{sub}"]\n{vis}mod {name};\n'
                    real.append(decl)
                    orac.append(decl)
                    self.feats.add("in a function")
                else:
                    real.append(f'{pre}#[path = "{sub}"]\n{vis}mod {name};\n')
                    orac.append(f'#[path = "{sub}"]\n{vis}mod {name};\n')
                self.feats.add("path")
                self.file(p, True, depth - 1)
                nested = True
                continue
            if k == "outside":
                self.ext += 1
                rel = os.path.relpath(f"../ext{self.ext}.rs", attrdir or ".")
                self.mk.add(attrdir)
                self.files[f"../ext{self.ext}.rs"] = self.oracle[f"../ext{self.ext}.rs"] = self.fn()
                real.append(f'{pre}#[path = "{rel}"]\n{vis}mod {name};\n')
                orac.append(f'#[path = "{rel}"]\n{vis}mod {name};\n')
                self.feats.add("outside")
                continue
            # plain, cfgtest, skip
            a, b = os.path.join(search, fsname + ".rs"), os.path.join(search, fsname, "mod.rs")
            if not (self.free(a) and self.free(b)):
                continue
            modrs = d.chance(40)
            p = b if modrs else a
            self.taken |= {a, b}
            if k == "cfgtest":
                at = "#[cfg(test)]\n"
                oat = at
                self.feats.add("cfg(test)")
            elif k == "skip":
                at = d.choice(["#[mutants::skip]\n", "#[cfg_attr(test, mutants::skip)]\n"])
                oat = "#[cfg(any())]\n"
                self.feats.add("skip")
            else:
                at = oat = ""
                self.feats.add("mod.rs" if modrs else "plain")
            real.append(f"{pre}{at}{vis}mod {name};\n")
            orac.append(f"{oat}{vis}mod {name};\n")
            leaves = list(self.leaves)
            self.file(p, modrs, depth - 1)
            if k in ("cfgtest", "skip"):
                self.leaves = leaves
            nested = True
        return nested


def gen(d):
    g = G(d)
    g.taken = set()
    g.mk = set()
    g.ext = 0
    targets = []
    tops = [("lib", "src/lib.rs"), ("bin", "src/main.rs"), ("bin", "src/bin/tool.rs"), ("bin", "src/bin/multi/main.rs"), ("lib", "lib2/root.rs")]
    n = d.weighted([(4, 1), (3, 2), (2, 3)])
    chosen = []
    for _ in range(n):
        t = d.choice([t for t in tops if t not in chosen])
        chosen.append(t)
    for k, p in chosen:
        g.taken.add(p)
    for k, p in chosen:
        if k == "lib":
            k = d.choice(["lib", "lib", "proc-macro", "cdylib", "rlib", "staticlib", "dylib"])
        g.top = d.int(1, 4)
        g.file(p, True, g.top)
        targets.append([k, p])
    # Shared plain module between two tops in the same directory
    if {"src/lib.rs", "src/main.rs"} <= {p for _, p in chosen} and d.chance(60):
        p = "src/shared_one.rs"
        g.files[p] = g.oracle[p] = g.fn()
        for t in ("src/lib.rs", "src/main.rs"):
            g.files[t] = "mod shared_one;\n" + g.files[t]
            g.oracle[t] = "mod shared_one;\n" + g.oracle[t]
        g.feats.add("shared")
    for k, p in (("test", "tests/t.rs"), ("bench", "benches/b.rs"), ("example", "examples/e.rs"), ("custom-build", "build.rs")):
        if d.chance(25):
            g.files[p] = "mod m1;\n" + g.fn()
            g.files[os.path.join(os.path.dirname(p), "m1.rs")] = g.fn()
            targets.append([k, p])
    missing = None
    if d.chance(20):
        cand = [p for p in g.leaves if p not in [t[1] for t in targets] and not p.startswith("..")]
        if cand:
            missing = d.choice(cand)
    links = {}
    if d.chance(20):
        cand = [p for p in g.leaves if p not in [t[1] for t in targets] and not p.startswith("..") and p != missing]
        if cand:
            p = d.choice(cand)
            links[p] = d.choice(["store/one.txt", "store/two.rs", "src/hidden.rs"])
            g.feats.add("symbolic link")
    return dict(links=links, files=g.files, oracle=g.oracle, targets=targets, missing=missing, mk=sorted(g.mk), feats=sorted(g.feats))


def dep_files(root, top, env):
    out = root / "dep.d"
    r = subprocess.run(["rustc", "--edition=2021", "--crate-name=x", "--crate-type=lib", "--emit=dep-info", "-Awarnings", "-o", str(out), top],
                       cwd=root, env=env, capture_output=True, text=True)
    if r.returncode != 0:
        return None, r.stderr
    line = out.read_text().splitlines()[0]
    return {os.path.normpath(os.path.join(root, x)) for x in line.split(": ", 1)[1].split()} - {os.path.normpath(str(out))}, None


def run_case(case, ctx):
    c = ctx.case()
    try:
        oroot = c.base / "oracle/tree"
        for rel, t in case["oracle"].items():
            p = oroot / rel
            p.parent.mkdir(parents=True, exist_ok=True)
            p.write_text(t)
        c.set_root("real/tree")
        for rel, t in case["files"].items():
            c.write(rel, t)
        for r in (oroot, c.root):
            for m in case["mk"]:
                (r / m).mkdir(parents=True, exist_ok=True)
        for p, to in case.get("links", {}).items():
            for r in (oroot, c.root):
                (r / to).parent.mkdir(parents=True, exist_ok=True)
                (r / p).rename(r / to)
                (r / p).symlink_to(os.path.relpath(to, os.path.dirname(p)))
        want = set()
        for k, top in case["targets"]:
            if k in KINDS:
                fs, err = dep_files(oroot, top, build_env())
                if fs is None:
                    ctx.label("rustc refuses")
                    return dict(nontrivial=False)
                want |= {os.path.relpath(f, oroot) for f in fs}
        want = {w for w in want if not w.startswith("..")}
        if case["missing"]:
            if case["missing"] not in want:
                return dict(nontrivial=False)
            (c.root / case["missing"]).unlink()
            want.discard(case["missing"])
            ctx.label("missing file")
        c.package("p", targets=[tuple(t) for t in case["targets"]])
        c.finish()
        r = c.run("--list-files", "--json")
        if r.code != 0:
            raise Violation(f"--list-files failed: {r}")
        raw = [f["path"] for f in json.loads(r.out)]
        got = [os.path.normpath(f) for f in raw]
        show = "\n".join(f"--- {p}\n{t}" for p, t in case["files"].items())
        if set(got) != want:
            raise Violation(f"rustc would read {sorted(want - set(got))} which are not examined; {sorted(set(got) - want)} are examined though rustc would not read them\n"
                            f"targets {case['targets']}\n{show}")
        if len(got) != len(set(got)):
            raise Violation(f"files are examined more than once: {sorted(x for x in set(got) if got.count(x) > 1)}; targets {case['targets']}\n{show}")
        if case["missing"] and "referent of mod not found" not in r.err + r.out:
            raise Violation(f"no warning for the missing {case['missing']}: {r}")
        ms = c.list_json(diff=False)
        want_ms = {}
        for f in want:
            want_ms[f] = case["files"][f].count("pub fn f") + case["files"][f].count("fn blk")
            if not want_ms[f]:
                del want_ms[f]
        got_ms = {}
        for m in ms:
            p = os.path.normpath(m["file"])
            got_ms[p] = got_ms.get(p, 0) + 1
        if got_ms != want_ms:
            raise Violation(f"mutants per file: {got_ms}, expected {want_ms}\n{show}")
        for f in case["feats"]:
            ctx.label(f)
        ctx.label("files", len(want))
        return dict(nontrivial=len(want) >= 3)
    finally:
        c.cleanup()
