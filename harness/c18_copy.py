"""C18: the copied tree equals the source tree, except for documented exclusions."""
from common import *
import lab, treegen

ID = "C18"
RULE = ("A case is a directory tree (files of various sizes and modes, empty directories, links, hidden and oddly named files, version-control and output directories at any depth) with "
        "gitignore files at several levels, in a git tree rooted at or above the source tree or not, global ignores, copy options and a job count. The tree that every child "
        "process sees is compared with the source, and the ignored part with git check-ignore. Non-trivial when there are at least 3 extra entries.")
CASES = {"quick": 1500, "thorough": 40000}
ASSUMPTIONS = ["directory permissions are not claimed; file names are UTF-8; .git directories nested inside the tree are not combined with ignore files"]
DIRS = ["", "data", "data/deep", "assets", "docs", ".config", "a b", "é", "data/deep/er", "tests", "vendor/x", "generated", ".github", "target", "target/debug", "build", "logs"]
NAMES = ["a.txt", ".keep", ".gitkeep", "b.log", "c.o", "x.tmp", ".hidden", ".env", "README.md", "Makefile", "run.sh", "data.bin", "ü.txt", "with space.txt", "#hash", "!bang", "t1.rs", "gen.rs", "z",
         "lib.rs.bk", "core", ".ignore", "Cargo.lock", "foo.log", "Mutants.out", "mutants.out.txt", "mutants.outer", ".gitattributes", "[x].txt", "back\\slash", "git", ".gitkeep", "target"]
VCS = [".git", ".hg", ".bzr", ".svn", "_darcs", ".jj", ".pijul"]
PATS = ["*.log", "*.tmp", "/target", "target/", "target", "data/", "/data/deep", "*.o", "!foo.log", "!b.log", "docs/*.txt", "**/er", "data/**", "a b", "# comment", "", "gen*.rs",
        "?", "[abz].*", ".env", "assets/*", "!assets/a.txt", "\\#hash", "\\!bang", "é/", "generated", "/build/", "*.bin", "logs/*", "!logs/.gitkeep", "core", "x.tmp  ", "deep/er", ".hidden", "*~", "*.bk", "*.LOG", "readme.md", "DATA/", "A.TXT", "Core", "/Target", "É/"]
MODES = [0o644, 0o644, 0o755, 0o600, 0o444, 0o400, 0o640, 0o700, 0o777, 0o664, 0o4755, 0o2711, 0o6555, 0o1644]


def gen(d):
    files = treegen.tree(d, maxfiles=d.int(0, 2), menu=treegen.SIMPLE, lo=1, hi=1)
    ents = []
    for _ in d.many(0, 14):
        dr = d.choice(DIRS)
        n = d.choice(NAMES)
        ents.append(["f", (dr + "/" if dr else "") + n, d.choice([0, 1, 7, 100, 4096, 70000]), d.choice(MODES)])
    for _ in d.many(0, 3):
        ents.append(["d", d.choice(DIRS[1:]) + d.choice(["", "/empty", "/e/f"]), 0, 0])
    for _ in d.many(0, 4):
        dr = d.choice(DIRS)
        ents.append(["l", (dr + "/" if dr else "") + d.choice(["ln", "ln.log", "ln2", "link dir"]), d.choice(["a.txt", "../data", "nowhere", "/etc/hostname", "..", ".", "data/deep", "@ROOT/src", "loop", "é"]), 0])
    for _ in d.many(0, 2):
        dr = d.choice(["", "", "data", "vendor/x", "src"])
        ents.append(["f", (dr + "/" if dr else "") + d.choice(["mutants.out", "mutants.out.old"]) + d.choice(["/caught.txt", "/log/x.log"]), 3, 0o644])
    git = d.weighted([(3, None), (5, "root"), (2, "parent"), (1, "fakedir")])
    if d.chance(50):
        dr = d.choice(["", "", "data", "vendor/x"])
        v = d.choice(VCS)
        if v != ".git" or git is None:
            ents.append(["f", (dr + "/" if dr else "") + v + d.choice(["/config", "/objects/x"]), 9, 0o644])
    ign = {}
    nested_git = any("/.git/" in "/" + e[1] for e in ents)
    if not nested_git:
        for where in ["", "data", "assets", "..", "src", "global", "exclude"]:
            if d.chance({"": 70, "..": 40, "global": 15, "exclude": 15}.get(where, 15)):
                # the ignore crate anchors global patterns with slashes at the working directory
                ps = [p for p in PATS if "/" not in p.rstrip("/")] if where == "global" else PATS
                ign[where] = [d.choice(ps) for _ in d.many(1, 5)]
    # ignore files of other tools have no effect here
    other = [[d.choice(["", "data", "assets"]), d.choice([".ignore", ".rgignore", ".dockerignore", ".hgignore", ".cargo-ignore"]), [d.choice(PATS) for _ in d.many(1, 4)]] for _ in d.many(0, 2)] if d.chance(30) else []
    if d.chance(4):
        ents.append(["f", "data/huge.bin", d.int(1, 6) * 1000000 + 7, 0o644])
    if d.chance(6):
        ents.append(["f", "/".join(d.choice("abcdefgh") for _ in range(d.int(6, 40))) + "/leaf.txt", 10, 0o644])
    jobs = d.weighted([(5, 1), (2, 2), (1, 4)])
    return dict(files=files, ents=ents, other=other, git=git, ign=ign, gi=d.choice([None, None, None, "true", "false"]), vcs=d.choice([None, None, None, "true", "false"]),
                cfg=d.weighted([(6, None), (1, True), (1, False)]), jobs=jobs, skip=d.chance(50))


def git(c, cwd, *a, inp=None):
    env = {"PATH": "/usr/bin:/bin", "HOME": str(c.base), "GIT_CONFIG_NOSYSTEM": "1", "LC_ALL": "C.UTF-8", "GIT_CEILING_DIRECTORIES": str(c.base.parent)}
    r = subprocess.run(["git", *a], cwd=cwd, env=env, input=inp, capture_output=True)
    return r


def run_case(case, ctx):
    c = ctx.case()
    try:
        c.set_root("wc/ws")
        wc = c.base / "wc"
        for p, t in case["files"].items():
            c.write(p, t)
        for k, p, x, mode in case["ents"]:
            q = c.root / p
            try:
                q.parent.mkdir(parents=True, exist_ok=True)
                if q.exists() or q.is_symlink():
                    continue
                if k == "f":
                    q.write_bytes((p.encode() * (x // len(p) + 1))[:x])
                    os.chmod(q, mode)
                elif k == "d":
                    q.mkdir(parents=True, exist_ok=True)
                else:
                    os.symlink(x.replace("@ROOT", str(c.root)), q)
            except (FileExistsError, NotADirectoryError):
                continue
        c.write(".cargo/mutants.toml", "" if case["cfg"] is None else f"copy_vcs = {str(case['cfg']).lower()}\n")
        c.package("p")
        c.finish()
        gitroot = {"root": c.root, "parent": wc}.get(case["git"])
        if gitroot:
            git(c, gitroot, "init", "-q", "--template=")
            (gitroot / ".git" / "info").mkdir(exist_ok=True)
        elif case["git"] == "fakedir":
            (c.root / ".git").mkdir(exist_ok=True)
        for where, pats in case["ign"].items():
            if where == "global":
                p = c.base / ".config/git/ignore"
            elif where == "exclude":
                if not gitroot:
                    continue
                p = gitroot / ".git/info/exclude"
            else:
                p = c.root / where / ".gitignore"
                if where not in ("", "..") and not p.parent.is_dir():
                    continue
            p.parent.mkdir(parents=True, exist_ok=True)
            if p.parent.is_symlink():
                continue
            p.write_text("\n".join(pats) + "\n")
        for where, name, pats in case["other"]:
            p = c.root / where / name
            if p.parent.is_dir() and not p.parent.is_symlink() and not p.is_symlink() and not p.is_dir():
                if p.exists():
                    p.unlink()
                p.write_text("\n".join(pats) + "\n")
        # the model
        vcs_on = {"true": True, "false": False}.get(case["vcs"], bool(case["cfg"]))
        before = snapshot(c.root)
        excl = set()
        for p in before:
            parts = p.split("/")
            if any(x in ("mutants.out", "mutants.out.old") or (x in VCS and not vcs_on) for x in parts):
                excl.add(p)
        ignored = set()
        if case["gi"] != "false" and case["git"]:
            g = gitroot
            if case["git"] == "fakedir":
                # git itself does not take an empty .git for a repository: make it one for the oracle only
                g = c.root
            tmpinit = case["git"] == "fakedir"
            if tmpinit:
                git(c, g, "init", "-q", "--template=")
            cand = [p for p in before if p not in excl and ".git" not in p.split("/")]
            rel = os.path.relpath(c.root, g)
            names = [p if rel == "." else rel + "/" + p for p in cand]
            r = git(c, g, "check-ignore", "--no-index", "-z", "--stdin", inp="".join(n + "\0" for n in names).encode())
            if r.returncode not in (0, 1):
                raise HarnessError("git check-ignore: " + r.stderr.decode())
            hit = set(r.stdout.decode().split("\0"))
            if tmpinit:
                rmtree(g / ".git")
                (g / ".git").mkdir()
            ignored = {p for p, n in zip(cand, names) if n in hit}
            ignored |= {p for p in cand if any(p.startswith(i + "/") for i in ignored)}
            if case["git"] == "parent" and rel != "." and git(c, g, "check-ignore", "--no-index", "-q", rel).returncode == 0:
                return dict(nontrivial=False)  # the whole tree is ignored
        if any(p == "Cargo.toml" or p in case["files"] or p in ("src", ".cargo", "src/lib.rs") for p in ignored):
            return dict(nontrivial=False)
        want = {p: v for p, v in before.items() if p not in excl and p not in ignored}
        (c.fake / "fulltree").write_text("")
        args = []
        if case["gi"]:
            args.append("--gitignore=" + case["gi"])
        if case["vcs"]:
            args.append("--copy-vcs=" + case["vcs"])
        if case["jobs"] > 1:
            args.append(f"-j{case['jobs']}")
        if case["skip"]:
            args.append("--baseline=skip")
        c.plan(["* * sleep 3"])
        r = c.run(*args, warp=40)
        if r.code not in (0, 2):
            raise Violation(f"the run failed; args {args}; {r}")
        seen = set()
        evs = c.events()
        for e in evs:
            if e["cwd"] in seen:
                continue
            seen.add(e["cwd"])
            got = e["full"]
            for p in sorted(set(want) | set(got)):
                w, g = want.get(p), got.get(p)
                if p.startswith("src/") and p.endswith(".rs") and w and g and w[0] == g[0] == "f" and w[1] == g[1]:
                    continue  # may be mutated; contents are the subject of C12
                if w is None:
                    why = "should not be copied" + (" (ignored)" if p in ignored else " (excluded)" if p in excl else " (not in the source)")
                elif g is None:
                    why = "is not copied"
                elif w[0] != g[0]:
                    why = f"has another type ({w[0]} copied as {g[0]})"
                elif w[0] == "f" and (g[2], g[3]) != (crc(w[2]), len(w[2])):
                    why = "has other contents"
                elif w[0] == "f" and w[1] != g[1]:
                    why = f"has mode {g[1]:o} instead of {w[1]:o}"
                elif w[0] == "l" and w[2] != g[4]:
                    why = f"links to {g[4]} instead of {w[2]}"
                else:
                    continue
                raise Violation(f"{p} {why} in the copy; args {args}, git {case['git']}, ignore files {case['ign']}")
        n = len({e["cwd"] for e in evs})
        ctx.label(f"{n} copies" if n < 3 else "3+ copies")
        if ignored:
            ctx.label("something ignored")
        if excl:
            ctx.label("something excluded")
        ctx.label(f"git {case['git']}")
        return dict(nontrivial=len([p for p in before if not p.startswith(("src", ".cargo", "Cargo.toml"))]) >= 3)
    finally:
        c.cleanup()
