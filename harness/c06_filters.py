"""C06: globs and regexes keep exactly the matching mutants."""
import re
from common import *
import rsgen, treegen

ID = "C06"
RULE = ("A case is a generated module tree plus lists of include/exclude globs and regexes (derived from its paths and names by random generalisation, plus "
        "unrelated and invalid ones), given on the command line or in the configuration. Non-trivial when some but not all of the unfiltered mutants are kept, "
        "or an invalid pattern is given.")
CASES = {"quick": 5000, "thorough": 100000}
ASSUMPTIONS = ["glob and regex patterns are drawn from a subset on which Python's re and a reference glob matcher agree with the documented syntax"]


def gen_glob_comp(d, comp):
    k = d.weighted([(5, "lit"), (3, "star"), (2, "pre"), (2, "suf"), (1, "q"), (1, "brace"), (1, "class"), (1, "mid"), (1, "esc")])
    if k == "lit" or len(comp) < 3:
        return comp
    if k == "esc":
        i = d.int(0, len(comp) - 1)
        return comp[:i] + "\\" + comp[i:]
    if k == "star":
        return d.choice(["*", "*.rs"]) if comp.endswith(".rs") else "*"
    if k == "pre":
        return comp[: d.int(1, len(comp) - 1)] + "*"
    if k == "suf":
        return "*" + comp[d.int(1, len(comp) - 1):]
    if k == "q":
        i = d.int(0, len(comp) - 1)
        return comp[:i] + "?" + comp[i + 1:]
    if k == "brace":
        return "{" + comp + "," + d.choice(["zzz", "net.rs", "db", "lib.rs"]) + "}"
    if k == "class":
        i = d.int(0, len(comp) - 1)
        if not comp[i].isalnum():
            return comp
        return comp[:i] + "[" + comp[i] + "x-z]" + comp[i + 1:]
    i = d.int(1, len(comp) - 2)
    return comp[:i] + "*" + comp[i + 1:]


def gen_glob(d, paths):
    p = d.choice(paths).split("/")
    k = d.int(0, 9)
    if k <= 3:  # bare name, file or directory
        return gen_glob_comp(d, d.choice(p))
    if k == 4:
        return d.choice(["nothing.rs", "console", "*.rs", "lib.rs", "src", "*", "RS", "Lib.rs", "mod.rs", "src/*.rs", "src/**", "src/*/*.rs", "**/mod.rs", "**/*.rs"])
    comps = [gen_glob_comp(d, c) for c in p]
    if len(comps) < 2:
        return "/".join(["**"] + comps)
    if k in (5, 6):
        i = d.int(0, len(comps) - 1)
        j = d.int(i, len(comps) - 1)
        comps = comps[:i] + ["**"] + comps[j:]
    if k == 7:
        comps = comps[: d.int(1, len(comps))] + ["**"]
    return "/".join(comps)


BADGLOB = ["[", "a[b", "{a,b", "src/[z-a].rs", "x/{a"]
BADRE = ["(", "[a", "*x", "a)", "(?<n", r"\p{Nope}"]


def gen_re(d, names):
    n = d.choice(names)
    k = d.int(0, 9)
    if k <= 4:
        i = d.int(0, len(n) - 1)
        j = min(len(n), i + d.int(1, 14))
        return re.escape(n[i:j]) if d.chance(60) else re.sub(r"[^\w/.: ]", ".", n[i:j])
    if k == 5:
        return "^" + re.escape(n[: d.int(1, len(n))])
    if k == 6:
        return re.escape(n[d.int(0, len(n) - 1):]) + "$"
    if k == 7:
        return "^" + re.escape(n) + "$"
    return d.choice(["replace", "with true", "with true|with false", "impl Debug", "-> u32", "in [a-m]", r":\d:", r"^src/[^:]*/[^:]*:", "REPLACE", "(?i)REPLACE", "delete",
                     r"\bload\b", "save$", "zzz", ".*", "^$", r"with \(\)", "lib.rs:1", "match guard", "", "src/lib.rs:[1-5]:"])


def gen(d):
    pre = d.choice(["src", "src", "sub/src"])
    files = treegen.tree(d, prefix=pre, tops=d.choice([("lib.rs",), ("lib.rs", "main.rs"), ("main.rs",)]), maxfiles=d.int(2, 12))
    paths = sorted(files)
    # names close to the real ones, to derive regexes from
    names = []
    for p, t in files.items():
        for i, line in enumerate(t.split("\n")):
            m = re.search(r"fn (\w+)\(.*?(-> .*?)? \{", line)
            if m:
                names.append(f"{p}:{i + 2}:5: replace {m.group(1)}{' ' + m.group(2) if m.group(2) else ''} with Default::default()")
    names = names or ["src/lib.rs: nothing"]
    case = dict(files=files, pre=pre)
    for key, gen, bad, src, pct in (("file", gen_glob, BADGLOB, paths, 45), ("exclude", gen_glob, BADGLOB, paths, 40), ("re", gen_re, BADRE, names, 45), ("exclude_re", gen_re, BADRE, names, 40)):
        for where in ("cli", "cfg"):
            xs = []
            if d.chance(pct if where == "cli" else pct // 2):
                for _ in d.many(1, 3):
                    xs.append(d.choice(bad) if d.chance(2) else gen(d, src))
            case[f"{where}_{key}"] = xs
    case["joined"] = d.chance(50)
    case["short"] = d.chance(50)
    return case


def match_comp(pat, s):
    """One path component, no '/'."""
    out = ""
    i = 0
    while i < len(pat):
        c = pat[i]
        if c == "*":
            out += "[^/]*"
        elif c == "?":
            out += "[^/]"
        elif c == "[":
            j = pat.index("]", i)
            out += pat[i:j + 1]
            i = j
        elif c == "\\":
            i += 1
            out += re.escape(pat[i])
        elif c == "{":
            j = pat.index("}", i)
            out += "(?:" + "|".join(comp_re(x) for x in pat[i + 1:j].split(",")) + ")"
            i = j
        else:
            out += re.escape(c)
        i += 1
    return re.fullmatch(out, s) is not None


def comp_re(p):
    return "".join("[^/]*" if c == "*" else "[^/]" if c == "?" else re.escape(c) for c in p)


def match_path(pat, comps):
    if not pat:
        return not comps
    if pat[0] == "**":
        if len(pat) == 1:
            return len(comps) >= 1
        return any(match_path(pat[1:], comps[i:]) for i in range(len(comps) + 1))
    return bool(comps) and match_comp(pat[0], comps[0]) and match_path(pat[1:], comps[1:])


def glob_match(g, path):
    comps = path.split("/")
    if "/" in g:
        return match_path(g.split("/"), comps)
    return any(match_comp(g, c) for c in comps)


def toml_list(xs):
    return "[" + ", ".join(json.dumps(x, ensure_ascii=False) for x in xs) + "]"


FLAGS = {"file": ("-f", "--file"), "exclude": ("-e", "--exclude"), "re": ("-F", "--re"), "exclude_re": ("-E", "--exclude-re")}
CFG = {"file": "examine_globs", "exclude": "exclude_globs", "re": "examine_re", "exclude_re": "exclude_re"}


def run_case(case, ctx):
    c = ctx.case()
    try:
        for p, t in case["files"].items():
            c.write(p, t)
        tops = [("lib" if p.endswith("lib.rs") else "bin", p[len(case["pre"]) - 3:]) for p in case["files"] if p in (case["pre"] + "/lib.rs", case["pre"] + "/main.rs")]
        c.package("p", rel="sub" if case["pre"] == "sub/src" else "", targets=tops)
        c.finish()
        base = c.run("--list", "--no-config")
        bfiles = c.run("--list-files", "--no-config")
        if base.code or bfiles.code:
            raise Violation(f"listing failed: {base} {bfiles}")
        if set(bfiles.out.splitlines()) != set(case["files"]):
            raise Violation(f"without filters, the files are {sorted(bfiles.out.splitlines())}, the tree has {sorted(case['files'])}")
        if any(set(case["cfg_" + k]) for k in CFG):
            c.write(".cargo/mutants.toml", "".join(f"{CFG[k]} = {toml_list(case['cfg_' + k])}\n" for k in CFG if case["cfg_" + k]))
        args, eff = [], {}
        for k, (s, l) in FLAGS.items():
            for x in case["cli_" + k]:
                args += [s + x] if case["short"] and case["joined"] and x else [s, x] if case["short"] else [f"{l}={x}"] if case["joined"] else [l, x]
            eff[k] = case["cli_" + k] or case["cfg_" + k]
        # an empty or dash-leading value cannot be passed separately
        args = [a for a in args]
        if any(x.startswith("-") or not x for k in FLAGS for x in case["cli_" + k]):
            args = [f"{FLAGS[k][1]}={x}" for k in FLAGS for x in case["cli_" + k]]
        r = c.run("--list", *args)
        bad = any(x in BADGLOB for k in ("file", "exclude") for x in eff[k]) or any(x in BADRE for k in ("re", "exclude_re") for x in eff[k])
        if bad:
            ctx.label("invalid pattern")
            if r.code != 1 or r.out.strip():
                raise Violation(f"an invalid pattern was accepted: {args} {eff}: {r}")
            return dict(nontrivial=True)
        if r.code != 0:
            raise Violation(f"listing with {args} {eff} failed: {r}")

        def keepfile(f):
            return (not eff["file"] or any(glob_match(g, f) for g in eff["file"])) and not any(glob_match(g, f) for g in eff["exclude"])

        def keep(n):
            f = n.split(":")[0]
            return (keepfile(f) and (not eff["re"] or any(re.search(x, n) for x in eff["re"])) and not any(re.search(x, n) for x in eff["exclude_re"]))
        names = base.out.splitlines()
        want = [n for n in names if keep(n)]
        got = r.out.splitlines()
        if got != want:
            raise Violation(f"filters {eff} (args {args}): missing {[n for n in want if n not in got][:5]}, unexpected {[n for n in got if n not in want][:5]}, "
                            f"expected {len(want)} of {len(names)}, got {len(got)}")
        r = c.run("--list-files", *args)
        wantf = [f for f in bfiles.out.splitlines() if keepfile(f)]
        if r.code or r.out.splitlines() != wantf:
            raise Violation(f"--list-files with {eff}: expected {wantf}, got {r}")
        for k in eff:
            if eff[k]:
                ctx.label(k)
            if case["cli_" + k] and case["cfg_" + k]:
                ctx.label("cli over config")
        return dict(nontrivial=0 < len(want) < len(names))
    finally:
        c.cleanup()
