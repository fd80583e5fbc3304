"""C25: odd input is refused with an error, never answered by a crash, a hang or silence."""
import math
from common import *
import c01_fidelity, lab, treegen, udiff

ID = "C25"
RULE = ("A case is one of: a source file made by token and byte edits of real or generated Rust text; a module tree with one file that cannot be used (unbalanced, unterminated, not UTF-8, "
        "a directory) anywhere in it, with filters; numeric option values of every kind on command line or in the configuration; a diff or a configuration file made by edits of a valid one; or "
        "an output directory left in an odd state. The command must end by itself, with a documented exit status and no panic, and refuse what is wrong by construction without running anything. "
        "Non-trivial when the input is odd, which all but a few are.")
CASES = {"quick": 8000, "thorough": 200000}
ASSUMPTIONS = ["nesting depth in edited text stays below 60"]

TOK = None


def tokenise(text):
    import re
    global TOK
    if TOK is None:
        TOK = re.compile(r"""r#*"|"(?:\\.|[^"\\])*"|'(?:\\.|[^'\\])'|//[^\n]*|/\*.*?\*/|[A-Za-z_][A-Za-z_0-9]*|[0-9][0-9A-Za-z_.]*|\s+|::|->|=>|==|!=|<=|>=|&&|\|\||<<=?|>>=?|\.\.=?|[-+*/%^&|]=|.""", re.S)
    return TOK.findall(text)


INS = ["fn", "impl", "mod", "match", "=>", "->", "{", "}", "(", ")", "[", "]", "<", ">", ">>", "::", ";", ",", "#", "!", "&", "&&", "|", "||", "=", "==", "..", "..=", "...", "?", "-", "*", "'a", "'", '"', "r#\"",
       "_", "self", "Self", "crate", "super", "async", "unsafe", "const", "extern \"C\"", "dyn", "where", "for<'a>", "if", "else", "let", "loop", "while", "move", "ref", "mut", "pub(in x)", "union", "auto", "yield",
       "r#fn", "r#mod", "macro_rules!", "x!{}", "x!()", "#[test]", "#[cfg(test)]", "#[mutants::skip]", "#![x]", "#[path = \"\"]", "#[path]", "#[path = \"/\"]", "#[path = \"..\"]", "#[cfg_attr(test, x)]", "#[cfg_attr()]",
       "#[cfg_attr(x, mutants::skip)]", "#[doc = \"\\u{1F600}\"]", "0", "1u8", "0x_", "1e9", "1.", "1_i128", "b'x'", "b\"\\xff\"", "c\"x\"", "é", "𝄞", "ß", "\u200b", "\ufeff", "\r", "\r\n", "\n\n", "\t", "\u2028", "//", "/*", "*/",
       "/**/", "///x\n", "//!x\n", "/*é*/", "!!", "--", "- -", "=> {}", "_ =>", "if true =>", "impl Trait", "dyn Fn() -> u8", "-> !", "-> ()", "-> Result<(), E>", "-> impl Iterator<Item = u8> + 'a", "-> [u8; N]", "-> &'static mut [T]",
       "-> Box<dyn Fn(u8) -> Result<T>>", "-> <T as Tr>::X", "-> (u8,)", "-> *const T", "-> Cow<'_, str>", "-> Result", "-> Option", "-> Result<>", "-> HashMap", "-> HashMap<u8>", "-> Vec<>", "-> impl Sized",
       "mod a;", "mod a { mod b; }", "#[path = \"x.rs\"] mod c;", "fn f() {}", "fn f() -> bool { a == b }", "impl X for Y {}", "trait T { fn f(&self) -> u8 { 1 } }", "match x { 1 => 2, _ => 3 }"]


GENTLE = {"op": (["+", "-", "*", "/", "%", "^", "&", "|", "<<", ">>", "==", "!=", "<", ">", "<=", ">=", "&&", "||", "+=", "-=", "*=", "/=", "%=", "^=", "&=", "|=", "<<=", ">>=", "=", ".."],),
          "attr": ["#[mutants::skip] ", "#[test] ", "#[cfg(test)] ", "#[cfg(not(test))] ", "#[cfg_attr(test, mutants::skip)] ", "#[inline] ", "#[doc = \"é\"] ", "/// é\n", "#[allow(x)] #[cfg(test)] ", "unsafe ", "const ", "async ", "extern \"C\" ", "pub ", "pub(crate) "],
          "ret": [" -> u8 ", " -> Result<u8, E> ", " -> impl Iterator<Item = &'static str> ", " -> Box<dyn Fn(u8) -> Option<T>> ", " -> [[u8; 2]; N] ", " -> (u8, (), [bool; 3]) ", " -> ! ", " -> HashMap<K, Vec<V>> ", " -> &mut [T] ", " -> <T as Tr>::X ",
                  " -> fn(u8) -> u8 ", " -> *const u8 ", " -> r#type ", " -> x!() ", " -> Option<impl Sized> ", " -> Cow<'a, [u8]> ", " -> Arc<str> ", " -> NonZero<u8> ", " -> Result ", " -> io::Result<()> ", " -> dyn Tr ", " -> Vec<Result<Option<(bool, String)>>> "],
          "ws": [" ", "\n", "\t", "\r\n", "/*é*/", "// 𝄞\n", "\n\n\n", "/* /* */ */", "\u00a0", "\u2028", "\u200e"]}


OPFAM = [["+", "/", "%", "^", "<<", "-", "&", "|", ">>"], ["==", "!=", "<=", ">="], ["&&", "||"], ["+=", "-=", "*=", "/=", "%=", "^=", "&=", "|=", "<<=", ">>=", "="]]
SRC = ["+", "/", "%", "^", "<<", "==", "!=", "<=", ">=", "&&", "+=", "-=", "*=", "/=", "%=", "^=", "&=", "|=", "<<=", ">>="]


def gentle(d, text):
    """Edits that often leave the text valid Rust."""
    toks = tokenise(text)
    for _ in d.many(1, 8):
        k = d.weighted([(4, "op"), (3, "attr"), (3, "ret"), (3, "ws"), (1, "par"), (1, "not"), (1, "name"), (1, "arm"), (1, "block")])
        at = {"op": lambda t: t in SRC, "attr": lambda t: t in ("fn", "impl", "mod", "trait", "if", "match", "let", "loop", "for"), "ret": lambda t: t == "->" or t == ")",
              "ws": lambda t: t.isspace(), "par": lambda t: t.isalnum(), "not": lambda t: t.isalnum(), "name": lambda t: t.isidentifier(), "arm": lambda t: t == "=>", "block": lambda t: t in (";", "{")}[k]
        ix = [i for i, t in enumerate(toks) if at(t)]
        if not ix:
            continue
        i = d.choice(ix)
        if k == "op":
            t = toks[i]
            fam = next(f for f in OPFAM if t in f)
            toks[i] = d.choice(fam) if d.chance(90) else d.choice(GENTLE["op"][0])
        elif k == "attr":
            toks[i] = d.choice(GENTLE["attr"]) + toks[i]
        elif k == "ret":
            j = next((j for j in range(i, min(len(toks), i + 40)) if toks[j] in ("{", ";", "where")), None)
            if j is not None:
                toks[i:j] = ([")"] if toks[i] == ")" else []) + [d.choice(GENTLE["ret"])]
        elif k == "ws":
            toks[i] += d.choice(GENTLE["ws"])
        elif k == "par":
            n = d.int(1, 40)
            toks[i] = "(" * n + toks[i] + ")" * n
        elif k == "not":
            toks[i] = d.choice(["!", "-", "!!", "- -", "!-", "*", "&", "&&", "&mut ", "!(", ]) + toks[i]
        elif k == "name":
            toks[i] = d.choice(["new", "default", "Default", "main", "test", "skip", "mutants", "Result", "Ok", "r#fn", "_x", "ünï", "Vec", "Self", "u8", "true", "_"])
        elif k == "arm":
            toks[i] = d.choice(["| _ =>", "if x =>", "=> 1, _ =>", "=> {} , _ if a && b =>", "=> match y { _ => 1 }, _ =>"])
        else:
            toks[i] += d.choice([" a += 1;", " let x = a == b;", " match x { 1 if y => 2, _ => 3 };", " if !x {}", " fn inner() -> bool { a < b }", " mod q;", " m!{ a + b };", " {{}}", " unsafe { a | b };", " ;;", " let Some(x) = a + 1 else { return };", " 'l: loop { break 'l a * b };",
                                 " async { a && b };", " |x: u8| -> u8 { x + 1 };", " const C: u8 = 1 + 1;", " static S: bool = !true;", " let x: [u8; 1 + 2];", " x as u8 + 1;", " return a - b;", " #[cfg(test)] mod t { fn f() -> u8 { 1 } }", " impl X { fn new() -> Self { X } }", " enum E { A = 1 << 2 }", " struct S([u8; { 1 + 1 }]);"])
    return "".join(toks)


def edit(d, text, byte=True):
    """A variation of a text, by a few edits of tokens, characters or lines."""
    toks = tokenise(text)
    for _ in (d.many(1, 5) if d.chance(40) else "x"):
        if not toks:
            toks = ["\n"]
        n = len(toks)
        i = d.below(n)
        k = d.weighted([(3, "ins"), (3, "del"), (2, "rep"), (2, "dup"), (2, "swap"), (2, "cut"), (2, "move"), (1, "wrap"), (1, "nest"), (1, "rmrange"), (1, "char"), (1, "lines"), (1, "trunc")])
        if k == "ins":
            toks[i:i] = [" " if d.chance(70) else "", d.choice(INS), " " if d.chance(70) else ""]
        elif k == "del":
            del toks[i]
        elif k == "rep":
            toks[i] = d.choice(INS)
        elif k == "dup":
            j = min(n, i + d.int(1, 30))
            toks[j:j] = toks[i:j]
        elif k == "swap" and n > 1:
            j = d.below(n)
            toks[i], toks[j] = toks[j], toks[i]
        elif k == "cut":
            toks[i] = toks[i][: len(toks[i]) // 2]
        elif k == "move":
            j = min(n, i + d.int(1, 30))
            part = toks[i:j]
            del toks[i:j]
            p = d.below(len(toks) + 1)
            toks[p:p] = part
        elif k == "wrap":
            o, c = d.choice([("(", ")"), ("{", "}"), ("[", "]"), ("<", ">"), ("mod m {", "}"), ("impl S {", "}"), ("fn w() -> u8 {", "}"), ("unsafe {", "}"), ("/*", "*/"), ("#[", "]"), ("!", ""), ("-", ""), ("match 1 {", "}"), ("Option<", ">")])
            j = min(n, i + d.int(1, 40))
            toks[i:j] = [o] + toks[i:j] + [c]
        elif k == "nest":
            o, c = d.choice([("(", ")"), ("{", "}"), ("!", ""), ("-", ""), ("Option<", ">"), ("&", ""), ("mod m {", "}"), ("Box<", ">"), ("if a {", "}"), ("a + (", ")"), ("/*", "*/")])
            m = d.int(2, 55)
            toks[i] = o * m + toks[i] + c * m
        elif k == "rmrange":
            del toks[i: i + d.int(2, 60)]
        elif k == "char":
            t = toks[i]
            p = d.below(len(t) + 1)
            toks[i] = t[:p] + d.choice(["é", "\u0301", "\0", "\x7f", "\\", "\"", "'", "\u202e", "𝒳", "\r", " ", "0", "_"]) + t[p:]
        elif k == "lines":
            toks[i] = d.choice(["\n", "\r\n", "\r", "\n\r"]) * d.int(1, 3)
        elif k == "trunc" and d.chance(30):
            del toks[i:]
    return "".join(toks)


BROKEN = ["fn f( {{\n}}\n", "fn f() {{\n", "}}\nfn f() {{}}\n", "fn f() -> bool {{ 1 == ) }}\n", "/* never ends\n", "const S: &str = \"never ends\n", "fn 1x() {{}}\n", "fn f() {{ let = 3; }}\n", "mod ;\n", "impl {{\n}}\n",
          "fn f() {{ match x {{ => 1 }} }}\n", "@@@\n", "fn f() -> {{ }}\n", "fn f() {{ 'ab' }}\n", "fn f() {{ a + ; }}\n", "struct S {{ fn f() {{}} }}\n", "<<<<<<< HEAD\nfn f() {{}}\n=======\n>>>>>>> other\n"]
NUM = ["0", "1", "-1", "-0.5", "nan", "NaN", "inf", "-inf", "infinity", "1e300", "1e30", "1e19", "1e-300", "1e308", "1e309", "0.0", "-0", "x", "", " 1", "1s", "0x10", "1_000", "3.5", "18446744073709551615", "18446744073709551616", "1e10", "300", "4096"]
TIMES = ["timeout", "build-timeout", "minimum-test-timeout", "timeout-multiplier", "build-timeout-multiplier"]
COUNTS = ["jobs", "jobserver-tasks"]
CFGNUM = ["timeout_multiplier", "build_timeout_multiplier", "minimum_test_timeout"]
TOMLNUM = ["-1.0", "-1", "nan", "inf", "-inf", "1e300", "1e30", "0.0", "0", "-0.0", "2.5", "7", "1e-300"]


def gen(d):
    kind = d.weighted([(40, "text"), (20, "broken"), (14, "num"), (14, "diff"), (6, "config"), (8, "out")])
    case = dict(kind=kind)
    if kind == "text":
        if c01_fidelity.corpus() and d.chance(60):
            p = d.choice(c01_fidelity.corpus())
            try:
                text = Path(p).read_bytes().decode()
            except (OSError, UnicodeDecodeError):
                text = ""
            lines = text.splitlines(keepends=True)
            # a piece of a file, mostly from item to item
            tops = [i for i, l in enumerate(lines) if l[:1] not in (" ", "\t", "}", "\n", "/", ")", "")] or [0]
            k = d.below(len(tops))
            later = tops[k + 1: k + 30] or [len(lines)]
            text = "".join(lines[tops[k]: d.choice(later)])
        else:
            text = c01_fidelity.rsgen.gen_file(d, depth=d.int(1, 3), budget=d.int(5, 40), retdepth=d.int(0, 2), feats=[], errors=[])["text"]
        how = d.weighted([(1, "as is"), (9, "gentle"), (5, "edit"), (2, "both")])
        if how in ("gentle", "both"):
            text = gentle(d, text)
        if how in ("edit", "both"):
            text = edit(d, text)
        case["text"] = text
        case["errors"] = [d.choice(c01_fidelity.ERRORS)] if d.chance(20) else []
    elif kind == "broken":
        case.update(lab.small_tree(d, maxfiles=d.int(0, 6)))
        case["bad"] = d.choice(sorted(case["files"]))
        case["how"] = d.weighted([(6, "text"), (2, "utf8"), (1, "dir"), (2, "nul")])
        case["what"] = d.below(len(BROKEN))
        case["where"] = d.choice(["replace", "start", "end"])
        case["mode"] = d.weighted([(3, "list"), (2, "json"), (2, "files"), (3, "run"), (1, "inplace"), (1, "check")])
        case["args"] = d.choice([[], [], [], ["-e", case["bad"]], ["-f", "src/nosuch.rs"], ["--re", "zzz"], ["-j2"], ["--shard=0/2"], ["--baseline=skip"], ["-e", "**/*.rs"]])
    elif kind == "num":
        case.update(lab.small_tree(d, two=False, maxfiles=0, lo=1, hi=1))
        case["cli"] = [[d.choice(TIMES + COUNTS), d.choice(NUM)] for _ in d.many(0, 2)]
        case["cfg"] = {k: d.choice(TOMLNUM) for k in CFGNUM if d.chance(25)}
        case["mode"] = d.choice(["list", "run", "run", "run"])
        case["base"] = [d.int(0, 3000), d.int(0, 30000)]
    elif kind == "diff":
        files = treegen.tree(d, maxfiles=d.int(0, 3), lo=1, hi=3)
        case["files"] = files
        case["steps"] = edit_diff(d, files)
    elif kind == "config":
        case["files"] = treegen.tree(d, maxfiles=1, lo=1, hi=2)
        base = d.choice(CONFIGS)
        case["config"] = edit(d, base) if d.chance(85) else base
        case["mode"] = d.choice(["list", "run"])
    else:
        case.update(lab.small_tree(d, two=False, maxfiles=1, lo=1, hi=2))
        case["oc"] = [lab.outcome(d, timeouts=False) for _ in d.many(1, 3)]
        case["odd"] = [[d.choice(["outcomes.json", "mutants.json", "previously_caught.txt", "caught.txt", "unviable.txt", "missed.txt", "lock.json", "debug.log", "log", "diff"]),
                        d.choice(["empty", "remove", "garbage", "half", "binary", "dir", "null", "otherjson", "link", "nl"])] for _ in d.many(1, 3)]
        case["whole"] = d.weighted([(7, None), (1, "file"), (1, "dangling"), (1, "oldfile"), (1, "empty")])
        case["iter"] = d.chance(70)
    return case


CONFIGS = ['exclude_globs = ["src/x.rs", "a/**"]\nexamine_re = ["foo", "^b"]\nerror_values = ["anyhow!(\\"x\\")"]\n', 'timeout_multiplier = 2.5\ncap_lints = true\ntest_tool = "nextest"\n',
           'additional_cargo_args = ["--all"]\nadditional_cargo_test_args = ["x"]\nprofile = "dev"\nskip_calls = ["a", "b"]\nskip_calls_defaults = false\n',
           '# comment\ntest_package = ["p"]\ntest_workspace = true\nminimum_test_timeout = 3\noutput = "o"\ncopy_vcs = true\n']


def edit_diff(d, files):
    """A diff of the tree's own text (so that it can match), then edited."""
    out = []
    for p in sorted(files):
        if not d.chance(70):
            continue
        ls = files[p].split("\n")
        nl = ls.pop() == ""
        if not ls:
            continue
        a = d.below(len(ls))
        b = min(len(ls), a + d.int(1, 6))
        q = d.choice(["", "", "", "é", "\\303\\251", "a b", "\"q"])
        out.append(f"--- a/{q}{p}\n+++ b/{q}{p}\n")
        body = [(d.choice("++  "), l) for l in ls[a:b]] + [("-", "gone") for _ in d.many(0, 2)]
        old = sum(k != "+" for k, _ in body)
        new = sum(k != "-" for k, _ in body)
        out.append(f"@@ -{a + 1},{old} +{a + 1},{new} @@{d.choice(['', ' fn x()', ' @@'])}\n")
        for k, l in body:
            out.append(k + l + "\n")
        if b == len(ls) and d.chance(30):
            out.append("\\ No newline at end of file\n")
    for _ in d.many(0, 4):
        n = len(out)
        i = d.below(n + 1)
        k = d.choice(["del", "dup", "ins", "char", "num", "swap", "head", "cr", "cut"])
        if k == "ins":
            out.insert(i, d.choice(["+\n", "-\n", " \n", "\n", "@@ -1 +1 @@\n", "@@ -0,0 +1 @@\n", "@@ -1,0 +0,0 @@\n", "--- /dev/null\n", "+++ /dev/null\n", "--- a/x\n", "+++ b/src/lib.rs\n", "+++ src/lib.rs\n", "+++ b/\n", "+++ \n",
                                    "+++ \"b/src/lib.rs\"\n", "+++ \"b/\\377.rs\"\n", "+++ \"b/src/\\", "diff --git a/x b/x\n", "index 123..456 100644\n", "new file mode 100644\n", "Binary files a/x and b/y differ\n", "rename from a\n", "rename to b\n",
                                    "\\ No newline at end of file\n", "GIT binary patch\n", "-- \n2.40.1\n", "Only in a: b\n", "+++ b/src/lib.rs\t2024-01-01 00:00:00.000 +0000\n", "@@ -1,99999999999999999999 +1 @@\n", "@@ -18446744073709551615,1 +18446744073709551615,1 @@\n",
                                    "+é𝄞\n", "@@\n", "@@ @@ @@\n", "@@ -a,b +c,d @@\n"]))
        elif n:
            i = min(i, n - 1)
            if k == "del":
                del out[i]
            elif k == "dup":
                out.insert(i, out[i])
            elif k == "char":
                j = d.below(len(out[i]) + 1)
                out[i] = out[i][:j] + d.choice(["é", "+", "-", " ", "@", "\\", "\"", "\0", "\r", "9"]) + out[i][j:]
            elif k == "num" and out[i].startswith("@@"):
                out[i] = out[i].replace(d.choice(["1", ",1", "2", "3", "+"]), d.choice(["0", "99", "-1", "", "4294967296"]), 1)
            elif k == "swap":
                j = d.below(n)
                out[i], out[j] = out[j], out[i]
            elif k == "head":
                out = out[i:]
            elif k == "cr":
                out[i] = out[i].replace("\n", "\r\n")
            elif k == "cut":
                out[i] = out[i][: d.below(len(out[i]) + 1)]
    return "".join(out)


def sane(r, what, codes):
    if r.code not in codes:
        raise Violation(f"{what}: exit status {r.code}, documented are {sorted(codes)}\n{r}")
    if "panicked at" in r.err or "panicked at" in r.out:
        raise Violation(f"{what}: panic\n{r}")
    if r.code == 1 and not r.err.strip() and not r.out.strip():
        raise Violation(f"{what}: failure without any message\n{r}")


LISTING, RUNNING = {0, 1}, {0, 1, 2, 3, 4}


def run_case(case, ctx):
    c = ctx.case()
    try:
        ctx.label(case["kind"])
        return dict(text=run_text, broken=run_broken, num=run_num, diff=run_diff, config=run_config, out=run_out)[case["kind"]](case, ctx, c)
    finally:
        c.cleanup()


def run_text(case, ctx, c):
    c.write("src/lib.rs", case["text"])
    c.package("p")
    c.finish()
    r = c.run("--list", "--json", "--diff", *[f"--error={e}" for e in case["errors"]], timeout=60)
    sane(r, "listing of an edited file", LISTING)
    if r.code == 1:
        if "src/lib.rs" not in r.err:
            raise Violation(f"the file that does not parse is not named: {r}")
        if r.out.strip():
            raise Violation(f"a listing was printed although a file cannot be used: {r}")
        ctx.label("text refused")
        return
    ctx.label("text accepted")
    ms = json.loads(r.out)
    for m in ms:
        if "\r" in norm(case["text"]):
            continue
        c01_fidelity.check_mutant(m, case["text"])
    ctx.label("mutants", len(ms))


def run_broken(case, ctx, c):
    files = dict(case["files"])
    bad = case["bad"]
    text = files[bad]
    junk = BROKEN[case["what"]].format()
    if case["how"] == "text":
        mods = "".join(l + "\n" for l in text.split("\n") if l.startswith("mod "))
        text = {"replace": mods + junk, "start": mods + junk + text, "end": text + junk}[case["where"]]
        data = text.encode()
    elif case["how"] == "utf8":
        data = {"replace": b"\xff\n", "start": b"// \xff\n" + text.encode(), "end": text.encode() + b"// \xe9t\xe9\n"}[case["where"]]
    elif case["how"] == "nul":
        data = text.encode() + b"\0\n" if case["where"] == "end" else b"\0" + text.encode()
    files[bad] = ""
    c2 = dict(case, files=files)
    lab.write_tree(c, c2)
    p = c.root / bad
    if case["how"] == "dir":
        if bad.count("/") > 1 or not any(bad == (pk[1] + "/" if pk[1] else "") + t[1] for pk in case["pk"] for t in pk[2]):
            return dict(nontrivial=False)  # a module whose file is missing is another matter
        p.unlink()
        p.mkdir()
    else:
        p.write_bytes(data)
    args = list(case["args"])
    if len(case["pk"]) > 1:
        args.append("--workspace")
    mode = case["mode"]
    if mode == "inplace" and "-j2" in args:
        args.remove("-j2")
    args += {"list": ["--list"], "json": ["--list", "--json"], "files": ["--list-files"], "run": [], "inplace": ["--in-place"], "check": ["--check"]}[mode]
    r = c.run(*args, timeout=60)
    sane(r, f"{mode} with unusable {bad}", {1})
    if bad not in r.err and (case["how"] != "dir"):
        raise Violation(f"the unusable file {bad} is not named: {r}")
    if mode in ("list", "json", "files") and r.out.strip():
        raise Violation(f"a listing was printed although {bad} cannot be used: {r}")
    if c.events():
        raise Violation(f"cargo was run although {bad} cannot be used: {[(e['argv'], e['cwd']) for e in c.events()]}")
    ctx.label("broken " + case["how"])


def number(s, whole=False):
    """The value, None if it is no number."""
    if whole:
        return int(s) if s.isdigit() and s.isascii() and int(s) < 2 ** 64 else None
    if s != s.strip() or "_" in s or "x" in s:
        return None
    try:
        return float(s)
    except ValueError:
        return None


def run_num(case, ctx, c):
    lab.write_tree(c, case)
    if case["cfg"]:
        c.write(".cargo/mutants.toml", "".join(f"{k} = {v}\n" for k, v in case["cfg"].items()))
    args, wrong = [], []
    for o, v in case["cli"]:
        args.append(f"--{o}={v}")
        x = number(v, o in COUNTS)
        if x is None or (o not in COUNTS and (math.isnan(x) or math.copysign(1, x) < 0 and x != 0 or x == math.inf)):
            wrong.append(f"--{o}={v}")
        elif o == "jobserver-tasks" and x > 10000 and not case.get("finding"):
            args[-1] = "--jobserver-tasks=10000"  # known finding: too many for a pipe
    for k, v in case["cfg"].items():
        x = float(v)
        opt = k.replace("_", "-")
        if any(o == opt for o, _ in case["cli"]):
            continue
        if math.isnan(x) or x < 0 or x == math.inf:
            wrong.append(f"{k} = {v}")
    if case["mode"] == "list":
        r = c.run("--list", *args)
        sane(r, "listing with odd numbers", LISTING)
    else:
        base = lab.tree_digest(lab.rs_bytes(case["files"]))
        c.plan([f"{base} build adv {case['base'][0]} exit 0", f"{base} test adv {case['base'][1]} exit 0"])
        r = c.run(*args, warp=40, timeout=10 if case.get("finding") else 60)
        sane(r, "run with odd numbers", RUNNING)
        if wrong and c.events():
            raise Violation(f"cargo was run in spite of {wrong}: {r}")
    if wrong and r.code != 1:
        raise Violation(f"exit status {r.code} in spite of {wrong}: {r}")
    ctx.label("number refused" if r.code == 1 else "number accepted")
    return dict(nontrivial=bool(case["cli"] or case["cfg"]))


def run_diff(case, ctx, c):
    for p, t in case["files"].items():
        c.write(p, t)
    c.package("p")
    c.finish()
    (c.base / "d.diff").write_bytes(case["steps"].encode())
    full = c.list_json(diff=False)
    r = c.run("--list", "--json", "--in-diff", str(c.base / "d.diff"), timeout=60)
    if "/patch-0." in r.err and "parser.rs" in r.err and not case.get("finding"):
        # known finding: two assertions of the third-party parser
        if r.out.strip():
            raise Violation(f"a listing was printed for a diff that cannot be parsed: {r}")
        ctx.label("diff trips the parser")
        return
    sane(r, "listing with an edited diff", LISTING)
    if r.code == 0:
        ms = json.loads(r.out) if r.out.strip() else []
        it = iter(full)
        if not all(any(m == x for x in it) for m in ms):
            raise Violation(f"mutants selected by a diff are not among the mutants of the tree, in order: {r}")
        if ms and "+" not in case["steps"] and "-" not in case["steps"]:
            raise Violation(f"mutants selected by a diff without changes: {r}")
    ctx.label("diff refused" if r.code else "diff accepted")


def run_config(case, ctx, c):
    for p, t in case["files"].items():
        c.write(p, t)
    c.write(".cargo/mutants.toml", case["config"].encode("utf8", "replace"))
    c.package("p")
    c.finish()
    if case["mode"] == "list":
        r = c.run("--list")
        sane(r, "listing with an edited configuration", LISTING)
    else:
        r = c.run(warp=40)
        sane(r, "run with an edited configuration", RUNNING)
        if r.code == 1 and c.events():
            raise Violation(f"cargo was run in spite of a refused configuration: {r}")
    try:
        import tomllib
        tomllib.loads(case["config"].replace("\r\n", "\n"))
    except ValueError:
        # Python's parser and cargo-mutants' one agree on what is broken, apart from some control characters and date forms
        ctx.label("config broken")
        if r.code != 1 and "\r" not in case["config"]:
            raise Violation(f"a configuration that is no TOML was accepted: {r}")
    ctx.label("config refused" if r.code == 1 else "config accepted")


def run_out(case, ctx, c):
    lab.write_tree(c, case)
    ms = lab.mutants(c, case["files"])
    lab.plan(c, ms, lab.assign(ms, case["oc"]))
    r = c.run(warp=40)
    sane(r, "first run", RUNNING)
    o = c.root / "mutants.out"
    touched = []
    for n, how in case["odd"]:
        p = o / n
        if not o.is_dir():
            break
        old = b""
        if p.is_symlink() or p.is_file():
            old = p.read_bytes() if p.exists() else b""
            p.unlink()
        elif p.is_dir():
            rmtree(p)
        if how == "remove":
            pass
        elif how == "dir":
            p.mkdir()
        elif how == "link":
            p.symlink_to("/dev/null")
        else:
            p.write_bytes({"empty": b"", "garbage": b"{]\x01 not this\n", "half": old[: len(old) // 2], "binary": bytes(range(256)), "null": b"null\n", "otherjson": b'{"outcomes": [{"scenario": 3}], "x": []}', "nl": b"\n\n\r\n \n"}[how])
        touched.append(n)
    w = case["whole"]
    if w:
        if w == "oldfile":
            (c.root / "mutants.out.old").write_text("x")
        else:
            rmtree(o)
            if w == "file":
                o.write_text("x")
            elif w == "dangling":
                o.symlink_to("nowhere")
            elif w == "empty":
                o.mkdir()
    c.clear_events()
    r = c.run(*(["--iterate"] if case["iter"] else []), warp=40)
    sane(r, f"run after damage to the output directory ({case['odd']}, {w})", RUNNING)
    if r.code == 1 and c.events():
        raise Violation(f"cargo was run although the run was refused: {r}")
    if r.code != 1 and c.events():
        done = c.outjson("outcomes.json")
        if not isinstance(done, dict) or "outcomes" not in done:
            raise Violation(f"no outcomes were recorded: {done}")
    if not case["iter"] and not w and r.code == 1 and not any(n == "lock.json" and h in ("dir", "link") for n, h in case["odd"]):
        raise Violation(f"a fresh run was refused because of the contents of the previous output: {r}")
    ctx.label("output refused" if r.code == 1 else "output accepted")
