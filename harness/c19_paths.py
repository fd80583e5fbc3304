"""C19: relative paths in copied manifests and cargo config refer to the same places."""
import tomllib
from common import *

ID = "C19"
RULE = ("A case is a top-level manifest (package, virtual workspace or both) with generated dependency, dev-, build-, target-specific and workspace dependency tables, replace and patch "
        "sections in inline, dotted and sub-table syntax, other content of all TOML types, and a cargo configuration with path overrides; paths climb out of the tree, stay inside, or are "
        "absolute. The files seen by each child process are parsed and compared with the originals. Non-trivial when at least one path leaves the tree.")
CASES = {"quick": 1500, "thorough": 40000}
ASSUMPTIONS = ["only the manifest at the top of the copied tree is claimed", "paths that climb out of the tree and back in by name are not generated"]
PATHS = ["../other", "../../far/away", "sub/dep", "./sub", "sub/../other", "sub/../../other", "/abs/path", ".", "..", "../é x/dep", "../other/", "..//dbl", "a/b/../../../c", "./../d", "./.././../e",
         "sub", "a/./b", "../..", "crates/x", "..foo", "...", "../..bar", "sub/..", "a/../..", "../it's", "../tab/x-y_z.1", "c/..d/e", "../x/..", "../a/../b", "x/../../y/..", "../../q/../.."]


def somewhere(d):
    if d.chance(60):
        return d.choice(PATHS)
    return ("./" if d.chance(10) else "") + "/".join(d.choice(["..", "..", "a", "sub", "b c", ".", "d.e"]) for _ in d.many(1, 6)) + ("/" if d.chance(10) else "")


DEPS = ["foo", "bar-baz", "serde", "x_y", "path", "\"quoted.name\"", "version", "dependencies", "dev-dependencies"]
EXTRA = ['version = "1.0"', 'features = ["a", "b"]', 'optional = true', 'default-features = false', 'package = "real"', 'git = "https://example.com/x"', 'registry = "r"']


def q(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"' if "'" in s else "'" + s + "'"


def gen_table(d, header, forms=("inline", "sub", "dotted")):
    """A dependency table as TOML text."""
    lines, subs, used = [f"[{header}]"], [], set()
    for _ in d.many(0, 4):
        n = d.choice(DEPS)
        if n in used:
            continue
        used.add(n)
        k = d.weighted([(5, "path"), (1, "plain"), (1, "nopath")])
        if k == "plain":
            lines.append(f'{n} = "1.2"')
            continue
        kv = [d.choice(EXTRA)] if d.chance(50) or k == "nopath" else []
        if k == "path":
            kv.insert(d.below(len(kv) + 1), "path = " + q(somewhere(d)))
        f = d.choice(forms)
        if f == "inline":
            lines.append(f"{n} = {{ {', '.join(kv)} }}")
        elif f == "dotted":
            lines += [f"{n}.{x}" for x in kv]
        else:
            subs.append(f"[{header}.{n}]\n" + "\n".join(kv))
    return "\n".join(lines) + "\n" + "\n".join(subs) + "\n"


OTHER = ["[features]\ndefault = []\npath = [\"../other\"]\n", "[profile.dev]\nopt-level = 1\ndebug = false\n", "[package.metadata.x]\npath = \"../kept\"\nf = 1.5\nd = 1979-05-27T07:32:00Z\nn = -17\nhex = 0xff\n",
         "[lints.rust]\nunsafe_code = \"forbid\"\n", "[package.metadata.docs]\nall-features = true\nargs = [[1, 2], [\"a\"]]\n\n[[package.metadata.arr]]\npath = \"../z\"\n", "[badges]\n", "[lib]\nname = \"q\"\npath = \"src/lib.rs\"\n",
         "[[bin]]\nname = \"b\"\npath = \"src/main.rs\"\n", "[package.metadata.s]\nt = '''\nmulti\n  line \\ text\n'''\nu = \"esc \\u00e9 \\t \\\\ \\\"\"\n"]


def gen_manifest(d):
    kind = d.weighted([(4, "package"), (2, "virtual"), (2, "both")])
    out = []
    if kind != "virtual":
        out.append('[package]\nname = "p"\nversion = "0.1.0"\nedition = "2021"\n')
    if kind != "package":
        out.append('[workspace]\nmembers = ["crates/*"]\nresolver = "2"\n')
    secs = []
    if kind != "virtual":
        for h, pct in [("dependencies", 70), ("dev-dependencies", 40), ("build-dependencies", 30), ("target.'cfg(unix)'.dependencies", 30), ('target.x86_64-unknown-linux-gnu.dev-dependencies', 20),
                       ('target."cfg(windows)".build-dependencies', 10)]:
            if d.chance(pct):
                secs.append(gen_table(d, h))
    if kind != "package" and d.chance(60):
        secs.append(gen_table(d, "workspace.dependencies"))
    if d.chance(40):
        secs.append(gen_table(d, "patch.crates-io"))
    if d.chance(20):
        secs.append(gen_table(d, 'patch."https://example.com/repo"'))
    if d.chance(20):
        secs.append("[replace]\n" + "\n".join(f'"{n}:0.1.0" = {{ path = {q(somewhere(d))} }}' for n in ["foo", "bar"][:d.int(1, 2)]) + "\n")
    for o in OTHER:
        if d.chance(15) and (kind != "virtual" or "package" not in o):
            secs.append(o)
    # any order
    for i in range(len(secs)):
        j = d.below(len(secs))
        secs[i], secs[j] = secs[j], secs[i]
    t = "\n".join(out + secs)
    if d.chance(10):
        t = t.replace("\n", "\r\n") if "'''" not in t else t
    if d.chance(20):
        t = "# comment = \"../x\"\n" + t
    return t


def gen_config(d):
    if d.chance(40):
        return None
    parts = []
    if d.chance(75):
        parts.append("paths = [" + ", ".join(q(somewhere(d)) for _ in d.many(0, 4)) + "]")
    for o in ["[build]\nrustflags = [\"-C\", \"target-cpu=native\"]\n", "[alias]\nb = \"build\"\npaths = [\"x\"]\n", "[env]\nA = { value = \"../x\", relative = true }\n", "[net]\nretry = 3\noffline = true\n",
              "[target.x86_64-unknown-linux-gnu]\nlinker = \"cc\"\n"]:
        if d.chance(25):
            parts.append(o)
    return "\n".join(parts) + "\n"


def gen(d):
    return dict(manifest=gen_manifest(d), config=gen_config(d), jobs=d.weighted([(4, 1), (1, 2)]), skip=d.chance(50))


def is_dep(path):
    """Is this key path the `path` of a dependency entry?"""
    if path[-1] != "path":
        return False
    p = path[:-1]
    kinds = ("dependencies", "dev-dependencies", "build-dependencies")
    return (len(p) == 2 and p[0] in kinds or len(p) == 2 and p[0] == "replace" or len(p) == 3 and p[0] == "patch" or
            len(p) == 4 and p[0] == "target" and p[2] in kinds or len(p) == 3 and p[0] == "workspace" and p[1] == "dependencies")


def climbs(p):
    """Does the path lead out of the tree at any point?"""
    n = 0
    for x in p.split("/"):
        if x == "..":
            n -= 1
            if n < 0:
                return True
        elif x not in ("", "."):
            n += 1
    return False


def compare(a, b, path, root, cwd, what, dep):
    if type(a) is not type(b):
        raise Violation(f"{what}: {'.'.join(map(str, path))} changed from {a!r} to {b!r}")
    if isinstance(a, dict):
        if set(a) != set(b):
            raise Violation(f"{what}: keys of {'.'.join(map(str, path))} changed from {sorted(a)} to {sorted(b)}")
        return sum(compare(a[k], b[k], path + [k], root, cwd, what, dep) for k in a)
    if isinstance(a, list):
        if len(a) != len(b):
            raise Violation(f"{what}: {'.'.join(map(str, path))} changed from {a!r} to {b!r}")
        return sum(compare(x, y, path + [i], root, cwd, what, dep) for i, (x, y) in enumerate(zip(a, b)))
    if isinstance(a, str) and dep(path):
        want = os.path.normpath(os.path.join(root if climbs(a) else cwd, a))
        got = os.path.normpath(os.path.join(cwd, b))
        if got != want:
            raise Violation(f"{what}: {'.'.join(map(str, path))} was {a!r}, which is {want}; in the copy at {cwd} it is {b!r}, which is {got}")
        return int(climbs(a))
    if a != b:
        raise Violation(f"{what}: {'.'.join(map(str, path))} changed from {a!r} to {b!r}")
    return 0


def run_case(case, ctx):
    try:
        mani = tomllib.loads(case["manifest"])
        conf = tomllib.loads(case["config"]) if case["config"] else None
    except tomllib.TOMLDecodeError:
        return dict(nontrivial=False)
    c = ctx.case()
    try:
        c.write("src/lib.rs", "pub fn f() -> u8 { 3 }\n")
        c.write("Cargo.toml", case["manifest"])
        if case["config"] is not None:
            c.write(".cargo/config.toml", case["config"])
        c.package("p")
        c.finish()
        (c.fake / "fulltree").write_text("")
        args = ([f"-j{case['jobs']}"] if case["jobs"] > 1 else []) + (["--baseline=skip"] if case["skip"] else [])
        c.plan(["* * sleep 3"])
        r = c.run(*args, warp=40)
        if r.code not in (0, 2):
            raise Violation(f"the run failed; manifest:\n{case['manifest']}\nconfig: {case['config']}\n{r}")
        root = os.path.realpath(c.root)
        n = 0
        evs = c.events()
        if not evs:
            raise Violation(f"nothing was run; {r}")
        for e in evs:
            d = c.fake / "tree" / e["id"]
            for name, orig, dep in (("Cargo.toml", mani, is_dep), (".cargo/config.toml", conf, lambda p: len(p) == 2 and p[0] == "paths")):
                if orig is None:
                    continue
                f = d / name.replace("/", "__")
                if not f.exists():
                    raise Violation(f"{name} is not in the copy")
                try:
                    got = tomllib.loads(f.read_bytes().decode())
                except ValueError as x:
                    raise Violation(f"the copied {name} is not TOML: {x}: {f.read_text()[:500]}")
                n += compare(orig, got, [], root, e["cwd"], name, dep)
        if (c.root / "Cargo.toml").read_bytes() != case["manifest"].encode():
            raise Violation("the original manifest was changed")
        if n:
            ctx.label("paths rewritten", n)
        return dict(nontrivial=n > 0)
    finally:
        c.cleanup()
