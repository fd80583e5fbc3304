"""C08: --in-diff selects exactly the mutants that touch changed lines."""
import re
from common import *
import rsgen, treegen, udiff

ID = "C08"
RULE = ("A case is an old tree, a random edit script (line edits, block moves, file creation, deletion, rename, mode change, binary and other non-Rust files, final newline "
        "changes) giving the new tree, and a diff tool (git diff with various context, prefix and rename options, or diff -ru). The affected lines are computed from "
        "the diff by an independent parser; several amounts of context are tried for each; diffs made stale must be refused. Non-trivial when some but not all mutants are selected.")
CASES = {"quick": 1500, "thorough": 30000}
ASSUMPTIONS = ["git and diff produce correct unified diffs", "changed lines do not begin with '-- ' or '++ ' (see known_findings.json)"]

LINES = ["    // a comment", "", "    let q = 1 + 2;", "    debug!();", "}", "{", "fn added(x: u32) -> u32 { x - 1 }", "// diff --git a/x b/x", "/* @@ -1 +1 @@ */", "+x();", "-1;", " ", "--x;", "// é"]
ODD = ["é.rs", "with space.rs", "日本 語.rs", 'q"uote.rs', "back\\slash.rs", "ta\tb.rs", "é\\303\\251.rs", "b/b.rs", "a/x.rs", "😀é/ü.rs", "-- dash.rs", "'.rs"]
CESC = {"n": 10, "t": 9, "r": 13, "a": 7, "b": 8, "v": 11, "f": 12}


def unquote(p):
    """File name from a diff header line, C-quoted if git thought it odd."""
    if not p.startswith('"'):
        return p
    out, i, b = bytearray(), 1, p.encode()
    while b[i:i + 1] != b'"':
        if b[i:i + 1] != b"\\":
            out += b[i:i + 1]
            i += 1
        elif b[i + 1:i + 2].isdigit():
            out.append(int(b[i + 1:i + 4], 8))
            i += 4
        else:
            k = chr(b[i + 1])
            out.append(CESC.get(k, ord(k)))
            i += 2
    return out.decode()


def mutate_text(d, text):
    lines = text.split("\n")
    nl = lines.pop() == ""
    for _ in d.many(1, 4):
        k = d.weighted([(3, "edit"), (3, "ins"), (3, "del"), (1, "delblock"), (1, "dup"), (1, "insfn"), (1, "swap"), (1, "top"), (1, "bottom"), (1, "nl")])
        n = len(lines)
        i = d.int(0, max(0, n - 1))
        if k == "edit" and n and not lines[i].startswith("mod "):
            if lines[i].strip() and not lines[i].rstrip().endswith(("{", "}")):
                lines[i] = lines[i] + " // e" + str(d.int(0, 99))
            else:
                lines[i] = lines[i] + d.choice([" ", "  ", " // e"])
        elif k == "ins":
            lines[i:i] = [d.choice(["", "    // new", "// top", "    /* c */", "", "// é", "// \\303\\251 \\n"]) for _ in d.many(1, 3)]
        elif k == "del" and n and (lines[i].strip().startswith("//") or not lines[i].strip()):
            del lines[i]
        elif k == "del" and n:
            js = [j for j, l in enumerate(lines) if l.strip().startswith(("//", "let", "/*")) or not l.strip()]
            if js:
                del lines[d.choice(js)]
        elif k == "delblock":
            js = [j for j, l in enumerate(lines) if re.match(r"(pub )?fn .*\{$", l)]
            if js:
                j = d.choice(js)
                e = next((x for x in range(j, n) if lines[x] == "}"), None)
                if e is not None:
                    del lines[j:e + 1]
        elif k == "dup":
            js = [j for j, l in enumerate(lines) if l.strip().startswith("//")]
            if js:
                j = d.choice(js)
                lines.insert(j, lines[j])
        elif k == "insfn":
            js = [0] + [j + 1 for j, l in enumerate(lines) if l == "}"]
            lines[(j := d.choice(js)):j] = d.choice(treegen.SIMPLE).format(n=d.choice(treegen.FNAMES)).split("\n")[:-1]
        elif k == "top":
            lines[0:0] = ["// head"]
        elif k == "bottom":
            lines += ["// tail"]
        elif k == "nl":
            nl = not nl
    return "\n".join(lines) + ("\n" if nl and lines else "")


def pad(d, text):
    """Add comment and statement lines, so that there is something to edit."""
    out = []
    for l in text.split("\n"):
        out.append(l)
        if l.endswith("{") and "match" not in l and "impl" not in l and "trait" not in l and "if" not in l and d.chance(50):
            out += [d.choice(["    // c", "    let k = 7;", "    let w = 1 + 1;", "", "    // d"]) for _ in d.many(1, 4)]
    return "\n".join(out)


def gen(d):
    files = treegen.tree(d, tops=("lib.rs",), maxfiles=d.int(0, 4), lo=1, hi=4)
    old = {p: pad(d, t) for p, t in files.items()}
    if d.chance(25):
        for p in old:
            if d.chance(30):
                old[p] = old[p].rstrip("\n")
    old["README.md"] = "# x\n\ntext\n"
    new = dict(old)
    rust = sorted(files)
    for p in rust:
        if d.chance(60):
            new[p] = mutate_text(d, old[p])
    feats = []
    ren = None
    if d.chance(25):
        # a new file
        new["src/newmod.rs"] = treegen.body(d, 1, 2)
        new["src/lib.rs"] = "mod newmod;\n" + new["src/lib.rs"]
        feats.append("new file")
    if d.chance(25):
        # a renamed (and perhaps edited) module
        old["src/oldname.rs"] = "\n".join(treegen.body(d, 3, 6) for _ in range(2))
        old["src/lib.rs"] = "mod oldname;\n" + old["src/lib.rs"]
        new["src/lib.rs"] = "mod newname;\n" + new["src/lib.rs"]
        new["src/newname.rs"] = mutate_text(d, old["src/oldname.rs"]) if d.chance(60) else old["src/oldname.rs"]
        feats.append("rename")
    odd = None
    if d.chance(25):
        odd = d.choice(ODD)
        old["src/" + odd] = pad(d, treegen.body(d, 1, 3))
        decl = '#[path = "%s"]\nmod odd_name;\n' % odd.replace("\\", "\\\\").replace('"', '\\"').replace("\t", "\\t")
        old["src/lib.rs"] = decl + old["src/lib.rs"]
        new["src/lib.rs"] = decl + new["src/lib.rs"]
        new["src/" + odd] = mutate_text(d, old["src/" + odd]) if d.chance(80) else old["src/" + odd]
        feats.append("odd file name")
    if d.chance(20):
        old["src/gone.rs"] = treegen.body(d, 1, 2)
        old["src/lib.rs"] = "mod gone;\n" + old["src/lib.rs"]
        feats.append("deleted file")
    if d.chance(30):
        new["README.md"] = mutate_text(d, old["README.md"])
    if d.chance(15):
        new["zz_empty.txt"] = ""
        feats.append("empty file")
    if d.chance(15):
        new["zz_bin.dat"] = "\0\0binary\0"
        feats.append("binary file")
    if d.chance(10):
        old["aa_bin.dat"] = "\0\0binary\0"
        feats.append("binary file")
    if d.chance(10):
        new["notes.rs"] = "fn not_in_the_tree() -> u32 { 1 + 2 }\n"  # not a module
    if d.chance(6):
        # a long file with many scattered edits
        p, n = d.choice(rust), d.int(30, 200)
        keep = old[p]
        old[p] = keep.rstrip("\n") + "\n" + treegen.bulk(0, n)
        step, at = d.int(2, 9), d.choice([0, 1, 2])
        out = []
        for k, l in enumerate(treegen.bulk(0, n).split("\n")):
            if k % (3 * step) == at and l:
                r = d.int(0, 3)
                out += [l + " // e"] if r < 2 else ["// added", l] if r == 2 else [l, "// after"]
            else:
                out.append(l)
        new[p] = new[p].rstrip("\n") + "\n" + "\n".join(out)
        feats.append("long diff")
    chmod = d.choice(rust) if d.chance(15) else None
    if d.chance(6):
        new = dict(old)  # empty diff
        feats.append("no change")
    crlf = d.chance(8)
    tool = d.weighted([(4, "git"), (2, "git-noprefix"), (1, "git-M"), (1, "git-noM"), (1, "git-patience"), (2, "diff")])
    if tool == "diff" and odd and set(odd) & set('"\\\t'):
        tool = "git"
    top = d.weighted([(10, ""), (1, "b/"), (1, "a/"), (1, "sub/"), (1, "b/b/")])
    if top:
        # the package is in a subdirectory, maybe called like the prefixes that git adds
        old, new = ({(top + p if p.startswith("src/") else p): t for p, t in x.items()} for x in (old, new))
        chmod = chmod and top + chmod
        if top[0] == "b" and tool in ("diff", "git-noprefix"):
            tool = "git"
    return dict(top=top, old=old, new=new, staletext=d.choice(["x", " ", "\t", "y"]), chmod=chmod, feats=feats, tool=tool, ctx=d.choice([3, 3, 0, 1, 2, 5, 10, 1000]), crlf=crlf,
                stale=d.int(0, 50) if d.chance(25) else None, filt=d.choice([[], [], [], ["-e", "lib.rs"], ["--re", "with"]]))


def write_tree(root, files, crlf):
    for p, t in files.items():
        f = root / p
        f.parent.mkdir(parents=True, exist_ok=True)
        if crlf and p.endswith(".rs"):
            t = t.replace("\n", "\r\n")
        f.write_bytes(t.encode())


def make_diff(base, tool, n):
    """Diff of old -> new, both under base."""
    env = {"PATH": "/usr/bin:/bin", "HOME": str(base), "GIT_CONFIG_NOSYSTEM": "1", "LC_ALL": "C.UTF-8"}
    if tool == "diff":
        r = subprocess.run(["diff", f"-U{n}", "-r", "-N", "old", "new"], cwd=base, env=env, capture_output=True)
        out = r.stdout
        # as one would make it from outside the trees: strip to the tree-relative name
        res = []
        for l in out.split(b"\n"):
            if l.startswith(b"diff "):
                continue
            if l.startswith(b"Binary files"):
                res.append(l)
                continue
            l = re.sub(rb"^--- old/", b"--- ", l)
            l = re.sub(rb"^\+\+\+ new/", b"+++ ", l)
            res.append(l)
        return b"\n".join(res).decode()
    g = base / "git"
    opt = {"git": [], "git-noprefix": ["--no-prefix"], "git-M": ["-M40"], "git-noM": ["--no-renames"], "git-patience": ["--patience"]}[tool]
    r = subprocess.run(["git", "diff", "--cached", f"-U{n}", *opt], cwd=g, env=env, capture_output=True)
    if r.returncode:
        raise HarnessError("git diff: " + r.stderr.decode())
    return r.stdout.decode()


def prep_git(base, old, new, crlf, chmod):
    env = {"PATH": "/usr/bin:/bin", "HOME": str(base), "GIT_CONFIG_NOSYSTEM": "1", "GIT_AUTHOR_NAME": "x", "GIT_AUTHOR_EMAIL": "x@x", "GIT_COMMITTER_NAME": "x", "GIT_COMMITTER_EMAIL": "x@x"}
    g = base / "git"
    g.mkdir()

    def git(*a):
        r = subprocess.run(["git", "-c", "core.autocrlf=false", "-c", "core.safecrlf=false", "-c", "gc.auto=0", *a], cwd=g, env=env, capture_output=True)
        if r.returncode:
            raise HarnessError(f"git {a}: {r.stderr.decode()}")
    git("init", "-q", ".")
    write_tree(g, old, crlf)
    git("add", "-A")
    git("commit", "-qm", "x")
    for p in old:
        if p not in new:
            (g / p).unlink()
    write_tree(g, new, crlf)
    if chmod and (g / chmod).exists():
        os.chmod(g / chmod, 0o755)
    git("add", "-A")


def affected(diff):
    """{new path: set of affected lines}, from a unified diff, by counting hunk lines."""
    out = {}
    lines = diff.split("\n")
    i = 0
    path = None
    while i < len(lines):
        l = lines[i]
        if l.startswith("+++ "):
            path = unquote(l[4:].split("\t")[0])
        m = re.match(r"@@ -(\d+)(?:,(\d+))? \+(\d+)(?:,(\d+))? @@", l)
        if m:
            oc = int(m.group(2) or 1)
            nc = int(m.group(4) or 1)
            pos = int(m.group(3)) + (1 if nc == 0 else 0)  # next line of the new file
            s = out.setdefault(path, set())
            i += 1
            while oc > 0 or nc > 0:
                c = lines[i][:1]
                if c == "\\":
                    pass
                elif c == "-":
                    s |= {pos - 1, pos}
                    oc -= 1
                elif c == "+":
                    s.add(pos)
                    pos += 1
                    nc -= 1
                else:
                    pos += 1
                    oc -= 1
                    nc -= 1
                i += 1
            continue
        i += 1
    return out


def run_case(case, ctx):
    c = ctx.case()
    try:
        crlf = case["crlf"]
        c.set_root("new")
        write_tree(c.root, case["new"], crlf)
        write_tree(c.base / "old", case["old"], crlf)
        c.package("p", rel=case.get("top", "").rstrip("/"))
        if case["tool"] != "diff":
            prep_git(c.base, case["old"], case["new"], crlf, case["chmod"])
        for txt in [] if case.get("finding") else list(case["old"].values()) + list(case["new"].values()):
            if any(l.startswith(("-- ", "++ ")) for l in txt.split("\n")):
                return dict(nontrivial=False)
        diff = make_diff(c.base, case["tool"], case["ctx"])
        diffs = {n: make_diff(c.base, case["tool"], n) for n in (0, 3, 20)}
        # the manifest is written after the diff was made, outside it
        c.finish()
        filt = case["filt"]
        r = c.run("--list", "--json", *filt)
        if r.code == 1 and "failed to parse" in r.err:
            ctx.label("edit is not valid Rust")
            return dict(nontrivial=False)
        ms = c.list_json(*filt, diff=False)
        names = c.run("--list", *filt).out.splitlines()
        df = c.base / "x.diff"

        def sel(text):
            df.write_bytes(text.encode())
            r = c.run("--list", "--in-diff", str(df), *filt)
            return r

        def want(text):
            aff = affected(text)
            keep = []
            for m, n in zip(ms, names):
                a = set().union(*(v for k, v in aff.items() if k and k.removeprefix("b/") == m["file"]))
                if any(m["span"]["start"]["line"] <= x <= m["span"]["end"]["line"] for x in a):
                    keep.append(n)
            return keep
        w = want(diff)
        r = sel(diff)
        if r.code != 0 or r.out.splitlines() != w:
            g = r.out.splitlines()
            raise Violation(f"--in-diff ({case['tool']} -U{case['ctx']}): exit {r.code}; missing {[x for x in w if x not in g][:5]}, unexpected {[x for x in g if x not in w][:5]}\n{r.err[:1500]}\n{diff[:4000]}")
        # other amounts of context describe the same change
        for n in (0, 3, 20):
            if n != case["ctx"]:
                d2 = diffs[n]
                r2 = sel(d2)
                w2 = want(d2)  # usually the same as w, but the tools may place a change differently
                if r2.code != 0 or r2.out.splitlines() != w2:
                    raise Violation(f"-U{n} should select {w2}, but gives {r2}\n{d2[:3000]}")
                ctx.label("same selection with other context" if w == w2 else "other placement with other context")
        if case["stale"] is not None:
            # alter one line of the new text in the diff, in a file that has mutants
            files = {m["file"] for m in ms}
            ls = diff.split("\n")
            cand = []
            cur = None
            i = 0
            while i < len(ls):
                l = ls[i]
                if l.startswith("+++ "):
                    cur = unquote(l[4:].split("\t")[0])
                    if cur.startswith("b/"):
                        cur = cur[2:]
                m = re.match(r"@@ -(\d+)(?:,(\d+))? \+(\d+)(?:,(\d+))? @@", l)
                i += 1
                if m:
                    oc, nc = int(m.group(2) or 1), int(m.group(4) or 1)
                    while oc > 0 or nc > 0:
                        k = ls[i][:1]
                        if k in "+ " and k and cur in files:
                            cand.append(i)
                        oc -= k in "- " and k != ""
                        nc -= k in "+ " and k != ""
                        i += 1
            rest = sorted(f for f in files if f not in {k.removeprefix("b/") for k in affected(diff) if k} and f.isascii() and not set(f) & set('"\\\t'))
            if rest:
                # lines past the end of a file
                f = rest[case["stale"] % len(rest)]
                k = case["new"][f].count("\n") + 1 + case["stale"] % 3
                r = sel(diff + f"--- a/{f}\n+++ b/{f}\n@@ -{k},0 +{k + 1},1 @@\n+// beyond\n")
                ctx.label("stale diff past the end")
                if r.code != 1 or r.out.strip():
                    raise Violation(f"a diff adding line {k + 1} to {f}, which does not have it, was accepted: {r}")
            if cand:
                i = cand[case["stale"] % len(cand)]
                cr = "\r" if ls[i].endswith("\r") else ""
                ls[i] = ls[i].rstrip("\r") + case.get("staletext", "x") + cr
                r = sel("\n".join(ls))
                ctx.label("stale diff")
                if r.code != 1 or r.out.strip():
                    raise Violation(f"a diff whose new text differs from the tree was accepted: {r}\n" + "\n".join(ls)[:3000])
        for f in case["feats"]:
            ctx.label(f)
        ctx.label(case["tool"])
        ctx.label(f"-U{case['ctx']}")
        return dict(nontrivial=0 < len(w) < len(names))
    finally:
        c.cleanup()
