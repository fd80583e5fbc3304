"""Generator of Rust source files together with the mutants that must be found in them.

Everything random is drawn from a Draw object (see common.py). The emitter tracks the
line and column of every token as it is written, so the expected spans come from construction
and not from any parser.
"""
import re


LEX = re.compile(r'''\s+|//[^\n]*|/\*.*?\*/|[bc]?r#".*?"#|[bc]?"(?:[^"\\]|\\.)*"|b?'(?:[^'\\]|\\[^u]|\\u\{[^}]*\})'|'[A-Za-z_]\w*|(?:r\#)?[^\W\d]\w*|\d[\w]*(?:\.\d[\w]*)?|.''', re.S)


def lex(s):
    return [t for t in LEX.findall(s) if not t.isspace() and not t.startswith("//") and not t.startswith("/*")]


def squash(s):
    return " ".join(lex(s))


class Em:
    def __init__(self, d, style):
        self.d = d
        self.buf = []
        self.line, self.col = 1, 1
        self.style = style
        self.last = ""
        self.mutants = []
        self.fnstack = []   # dicts with function_name, return_type (squashed), start, end
        self.ns = []
        self.quiet = 0      # >0: inside something skipped
        self.bodytoks = None
        self.budget = 60
        self.excl = 0       # counter of skipped constructs
        self.skip_calls = ["with_capacity"]
        self.errors = []
        self.plain = False  # no literals of several lines
        self.cr = False     # carriage returns within lines

    # -- text
    def raw(self, s):
        self.buf.append(s)
        for ch in s:
            if ch == "\n":
                self.line += 1
                self.col = 1
            else:
                self.col += 1
        if s:
            self.last = s[-1]

    def pos(self):
        return (self.line, self.col)

    def trivia(self, nxt, glue):
        a, b = self.last, nxt[0]
        if not a or a == "\n":
            return
        need = not (a in "([{" or b in ")]},;" or glue)
        k = self.style
        if k == 0:
            self.raw(" " if need else "")
            return
        c = self.d.int(0, 39)
        if self.cr and c in (0, 1, 2, 38):
            self.raw(self.d.choice([" /* a\rb - \r*/ ", "\r", "\r\r\n", " // a\rb + \r\n", "\r \n"]))
        elif c < 24:
            self.raw(" " if need else "")
        elif c < 28:
            self.raw("\n")
        elif c < 30:
            self.raw("  ")
        elif c < 32:
            self.raw("\t")
        elif c < 33:
            self.raw("\n\n    ")
        elif c < 35:
            self.raw(" /* c */ ")
        elif c < 36:
            self.raw(self.d.choice([" /* é 中 /* nested + */ 𝄞 */ ", " /* e\u0301 - \u200d\u200b \ufeff👨\u200d👩 */ ", " /* \u2028 \x0c\x0b \u0085 */ "]))
        elif c < 37:
            self.raw(" // a + b && !c ∑\n")
        elif c < 38:
            self.raw("\n\t")
        else:
            self.raw(" " if need else "")

    def tok(self, s, glue=False):
        """Write one token; return its (start, end)."""
        if not glue or self.last == "/":
            self.trivia(s, False)
        a = self.pos()
        self.raw(s)
        if self.bodytoks is not None:
            self.bodytoks.extend(lex(s))
        return a, self.pos()

    def toks(self, *ss):
        first = None
        for s in ss:
            sp = self.tok(s)
            first = first or sp[0]
        return first, self.pos()

    def nl(self):
        if self.last != "\n" and self.last:
            self.raw("\n")

    # -- mutants
    def add(self, genre, span, repl):
        if self.quiet:
            return None
        m = dict(genre=genre, span=span, replacement=repl, function=self.fnstack[-1] if self.fnstack else None)
        self.mutants.append(m)
        return m

    def text(self):
        return "".join(self.buf)


def S(a, b):
    return [a[0], a[1], b[0], b[1]]


# ---------------------------------------------------------------- types

UNSIGNED = ["u8", "u16", "u32", "u64", "u128", "usize"]
SIGNED = ["i8", "i16", "i32", "i64", "i128", "isize"]
NZS = ["NonZeroIsize", "NonZeroI8", "NonZeroI16", "NonZeroI32", "NonZeroI64", "NonZeroI128"]
NZU = ["NonZeroUsize", "NonZeroU8", "NonZeroU16", "NonZeroU32", "NonZeroU64", "NonZeroU128"]
CONTAINERS = ["Box", "Cell", "RefCell", "Arc", "Rc", "Mutex"]
COLLECTIONS = ["BinaryHeap", "BTreeSet", "HashSet", "LinkedList", "VecDeque"]
MAPS = ["BTreeMap", "HashMap"]
PATHS = {"Box": ["Box", "std::boxed::Box"], "Arc": ["Arc", "std::sync::Arc", "::std::sync::Arc"], "Rc": ["Rc", "std::rc::Rc"],
         "HashMap": ["HashMap", "std::collections::HashMap", "collections::HashMap"],
         "HashSet": ["HashSet", "std::collections::HashSet"], "VecDeque": ["VecDeque", "std::collections::VecDeque"],
         "Vec": ["Vec", "std::vec::Vec", "vec::Vec"], "Option": ["Option", "std::option::Option"],
         "Cow": ["Cow", "std::borrow::Cow", "borrow::Cow"]}

MAXREP = 40


def gen_type(d, depth, errors, unsized=False):
    """Return (text, replacements) for a random return type; both in loose token text."""
    prims = [
        (4, "bool"), (4, "uint"), (4, "int"), (2, "float"), (3, "String"), (3, "refstr"), (2, "nz"), (2, "char"), (3, "named"),
        (1, "unit"), (1, "Self"), (1, "http"), (1, "never"), (1, "dynbox"), (1, "fnptr"), (1, "qself"), (1, "fmtresult"),
        (1, "pathprim"), (1, "rawptr"), (1, "impltrait"), (1, "macroty"), (1, "parenty"),
    ]
    rec = [
        (5, "Result"), (5, "Option"), (4, "Vec"), (2, "Cow"), (3, "container"), (3, "collection"), (2, "map"), (3, "generic1"),
        (2, "generic2"), (2, "array"), (2, "refslice"), (2, "ref"), (2, "mutref"), (3, "tuple"), (2, "impliter"), (1, "Result1"),
        (1, "mutslice"), (1, "boxslice"), (1, "lifetimegeneric"), (1, "assocgeneric"), (1, "constgeneric"),
    ]
    k = d.weighted(prims if depth <= 0 else prims + rec + rec)
    sub = lambda: gen_type(d, depth - 1, errors)
    if k == "bool":
        return "bool", ["true", "false"]
    if k == "uint":
        return d.choice(UNSIGNED), ["0", "1"]
    if k == "int":
        return d.choice(SIGNED), ["0", "1", "- 1"]
    if k == "float":
        return d.choice(["f32", "f64"]), ["0.0", "1.0", "- 1.0"]
    if k == "String":
        return "String", ["String::new()", '"xyzzy".into()']
    if k == "refstr":
        return d.choice(["&str", "&'static str", "&'a str"]), ['""', '"xyzzy"']
    if k == "nz":
        pre = d.choice(["", "std::num::", "num::"])
        if d.chance(50):
            return pre + d.choice(NZS), ["1", "- 1"]
        return pre + d.choice(NZU), ["1"]
    if k == "char":
        return "char", ["Default::default()"]
    if k == "named":
        return d.choice(["Foo", "crate::a::Foo", "Self::Item", "T", "std::string::String", "Résultat", "Results", "Booleans", "u8x16", "ordering::Ordering", "NonZero"]), ["Default::default()"]
    if k == "unit":
        return "()", ["()"]
    if k == "Self":
        return "Self", ["Default::default()"]
    if k == "http":
        return d.choice(["HttpResponse", "actix_web::HttpResponse"]), ["HttpResponse::Ok().finish()"]
    if k == "never":
        return ("!", []) if depth >= 2 else ("()", ["()"])
    if k == "dynbox":
        return "Box<dyn Fn(u8) -> bool>", ["Box::new(Default::default())"]
    if k == "fnptr":
        return "fn(u8) -> u8", ["Default::default()"]
    if k == "qself":
        return "<T as Iterator>::Item", ["Default::default()"]
    if k == "fmtresult":
        return d.choice(["fmt::Result", "std::fmt::Result", "Result"]), ["Ok(Default::default())"] + [f"Err({e})" for e in errors]
    if k == "pathprim":
        return "std::primitive::bool", ["Default::default()"]
    if k == "rawptr":
        return "*const u8", ["Default::default()"]
    if k == "impltrait":
        return d.choice(["impl Fn(u8) -> bool", "impl Fn(u8) -> bool", "impl DoubleEndedIterator<Item = u8>", "impl IntoIterator<Item = bool>", "impl Debug"]), []
    if k == "macroty":
        return "(u8)", ["Default::default()"]
    if k == "parenty":
        return "(bool)", ["Default::default()"]
    if k in ("Result", "Result1"):
        t, r = sub()
        pre = d.choice(["Result", "Result", "io::Result", "std::result::Result", "anyhow::Result"])
        e = "" if k == "Result1" else ", " + d.choice(["Error", "Box<dyn std::error::Error>", "String", "()", "io::Error"])
        return f"{pre}<{t}{e}>", [f"Ok({x})" for x in r] + [f"Err({e})" for e in errors]
    if k == "Option":
        t, r = sub()
        return f"{d.choice(PATHS['Option'])}<{t}>", ["None"] + [f"Some({x})" for x in r]
    if k == "Vec":
        t, r = sub()
        return f"{d.choice(PATHS['Vec'])}<{t}>", ["vec![]"] + [f"vec![{x}]" for x in r]
    if k == "Cow":
        c = d.choice(PATHS["Cow"])
        lt = d.choice(["'static, ", "'a, ", "'_, ", ""])
        kind = d.int(0, 2)
        if kind == 0:
            t, r = "str", ['""', '"xyzzy"']
        else:
            t, r = sub()
        return f"{c}<{lt}{t}>", [y for x in r for y in (f"Cow::Borrowed({x})", f"Cow::Owned({x}.to_owned())")]
    if k == "container":
        n = d.choice(CONTAINERS)
        t, r = sub()
        return f"{d.choice(PATHS.get(n, [n]))}<{t}>", [f"{n}::new({x})" for x in r]
    if k == "collection":
        n = d.choice(COLLECTIONS)
        t, r = sub()
        return f"{d.choice(PATHS.get(n, [n]))}<{t}>", [f"{n}::new()"] + [f"{n}::from_iter([{x}])" for x in r]
    if k == "map":
        n = d.choice(MAPS)
        (t, r), (u, s) = gen_type(d, min(depth - 1, 1), errors), gen_type(d, min(depth - 1, 1), errors)
        return f"{d.choice(PATHS.get(n, [n]))}<{t}, {u}>", [f"{n}::new()"] + [f"{n}::from_iter([({x}, {y})])" for x in r for y in s]
    if k in ("generic1", "lifetimegeneric"):
        n, full = d.choice([("UserDefined", "UserDefined"), ("Smart", "lib::Smart"), ("IndexSet", "indexmap::IndexSet"), ("MutexGuard", "MutexGuard"), ("Pin", "Pin")])
        lt = "'a, " if k == "lifetimegeneric" else ""
        t, r = sub()
        return f"{full}<{lt}{t}>", [f"{n}::new()"] + [y for x in r for y in (f"{n}::from_iter([{x}])", f"{n}::new({x})", f"{n}::from({x})")]
    if k == "generic2":
        (t, r), (u, s) = gen_type(d, 0, errors), gen_type(d, 0, errors)
        return f"{d.choice(['Pair', 'HashSet', 'Either', 'im::Box'])}<{t}, {u}>", ["Default::default()"]
    if k == "assocgeneric":
        return "Wrapper<Item = u8>", ["Default::default()"]
    if k == "constgeneric":
        return "Matrix<3>", ["Default::default()"]
    if k == "array":
        t, r = sub()
        n = d.choice(["4", "N", "LEN"])
        return f"[{t}; {n}]", [f"[{x}; {n}]" for x in r]
    if k in ("refslice", "mutslice"):
        t, r = sub()
        amp = d.choice(["&", "&'a "]) + ("mut " if k == "mutslice" else "")
        return f"{amp}[{t}]", ["Vec::leak(Vec::new())"] + [f"Vec::leak(vec![{x}])" for x in r]
    if k == "boxslice":
        t, r = sub()
        return f"Box<[{t}]>", [f"Box::new({x})" for x in ["Vec::leak(Vec::new())"] + [f"Vec::leak(vec![{x}])" for x in r]]
    if k == "ref":
        t, r = sub()
        if t.startswith("impl") or t == "!" or t.startswith("dyn"):
            t, r = "Foo", ["Default::default()"]
        return f"{d.choice(['& ', '& ' + chr(39) + 'a '])}{t}", [f"&{x}" for x in r]
    if k == "mutref":
        t, r = sub()
        if t.startswith("impl") or t == "!":
            t, r = "Foo", ["Default::default()"]
        if t in ("&str",):
            pass
        return f"{d.choice(['&mut ', '& ' + chr(39) + 'a mut '])}{t}", [f"Box::leak(Box::new({x}))" for x in r]
    if k == "tuple":
        if d.chance(15):
            t, r = sub()
            return f"({t},)", [f"({x},)" for x in r]
        parts = [gen_type(d, min(depth - 1, 1), errors) for _ in d.many(2, 3)]
        reps = [[]]
        for _, r in parts:
            reps = [a + [b] for a in reps for b in r]
        return "(" + ", ".join(t for t, _ in parts) + ")", ["(" + ", ".join(x) + ")" for x in reps]
    if k == "impliter":
        t, r = sub()
        tr = d.choice(["Iterator", "std::iter::Iterator"])
        extra = d.choice(["", " + 'static", " + Send", " + '_"])
        pre = d.choice(["", "Send + "])
        if depth < 2:
            pre = extra = ""
        return f"impl {pre}{tr}<Item = {t}>{extra}", ["::std::iter::empty()"] + [f"::std::iter::once({x})" for x in r]
    raise AssertionError(k)


def gen_ret(d, depth, errors):
    for _ in range(4):
        t, r = gen_type(d, depth, errors)
        if len(r) <= MAXREP:
            return t, r
        depth -= 1
    return "u32", ["0", "1"]


# ---------------------------------------------------------------- expressions

BINOPS = {
    "==": ["!="], "!=": ["=="], "&&": ["||"], "||": ["&&"], "<": ["==", ">", "<="], ">": ["==", "<", ">="], "<=": [">"], ">=": ["<"],
    "+": ["-", "*"], "-": ["+", "/"], "*": ["+", "/"], "/": ["%", "*"], "%": ["/", "+"], "<<": [">>"], ">>": ["<<"],
    "&": ["|", "^"], "|": ["&", "^"], "^": ["|", "&"],
}
ASSIGNOPS = {
    "+=": ["-=", "*="], "-=": ["+=", "/="], "*=": ["+=", "/="], "/=": ["%=", "*="], "%=": ["/=", "+="], "<<=": [">>="], ">>=": ["<<="],
    "&=": ["|=", "^="], "|=": ["&=", "^="], "^=": ["|=", "&="],
}
PREC = {"*": 9, "/": 9, "%": 9, "+": 8, "-": 8, "<<": 7, ">>": 7, "&": 6, "^": 5, "|": 4, "==": 3, "!=": 3, "<": 3, ">": 3, "<=": 3, ">=": 3, "&&": 2, "||": 1}
IDENTS = ["a", "b", "c", "count", "x1", "größe", "r#in", "名前", "self_", "Ω"]
FIELDS = ["len", "size", "0", "inner"]
METHODS = ["len", "get", "push", "map", "unwrap_or"]
FUNCS = ["f", "foo::bar", "Vec::<u8>::new", "Some", "std::cmp::max", "crate::m::g"]


class Gen:
    def __init__(self, d, style=1, budget=60, feats=()):
        self.d = d
        self.e = Em(d, style)
        self.e.budget = budget
        self.feats = set(feats) - {"cr"}
        self.e.cr = "cr" in feats

    # node constructors: build trees first so that precedence can be decided
    def tree(self, depth):
        d = self.d
        self.e.budget -= 1
        if depth <= 0 or self.e.budget <= 0:
            return d.weighted([(5, ("id",)), (5, ("lit",)), (1, ("field",)), (1, ("macro",))])
        k = d.weighted([(2, "id"), (2, "lit"), (12, "bin"), (5, "un"), (2, "deref"), (2, "ref"), (3, "call"), (3, "mcall"), (2, "paren"),
                        (2, "index"), (2, "cast"), (2, "if"), (3, "match"), (1, "block"), (1, "closure"), (1, "tuple"), (1, "array"),
                        (1, "repeat"), (1, "range"), (1, "struct"), (1, "try"), (1, "macro"), (1, "unsafe"), (2, "skipcall"), (1, "skipm"),
                        (1, "field"), (1, "loop"), (1, "async"), (1, "fieldof"), (1, "await"), (1, "const"), (1, "break"), (1, "return"), (1, "genarg")])
        if k in ("id", "lit", "macro", "field"):
            return (k,)
        if k == "bin":
            return ("bin", d.choice(list(BINOPS)), self.tree(depth - 1), self.tree(depth - 1))
        if k == "un":
            return ("un", d.choice(["!", "-"]), self.tree(depth - 1))
        if k in ("deref", "ref", "paren", "cast", "try", "fieldof", "await", "break", "return"):
            return (k, self.tree(depth - 1))
        if k in ("call", "mcall", "skipcall", "skipm", "tuple", "array"):
            return (k, [self.tree(depth - 1) for _ in d.many(1 if k in ("mcall", "skipm") else 0, 3)])
        if k in ("index", "repeat", "range", "genarg"):
            return (k, self.tree(depth - 1), self.tree(depth - 1))
        if k == "struct":
            return (k, self.tree(depth - 1), self.tree(depth - 1))
        return (k, depth - 1)

    ATOM = ("id", "lit", "paren", "call", "mcall", "index", "tuple", "array", "repeat", "macro", "skipcall", "skipm", "field", "try", "fieldof", "await", "genarg")

    def atom(self, t):
        """Emit t in a position that needs a postfix-capable expression."""
        if t[0] in self.ATOM and t[0] != "range":
            self.expr(t)
        else:
            self.e.tok("(")
            self.expr(t)
            self.e.tok(")")

    def operand(self, t, prec, right):
        if t[0] == "bin":
            p = PREC[t[1]]
            ok = p > prec or (p == prec and not right and prec != 3)
            if ok:
                return self.expr(t)
        elif t[0] in self.ATOM or t[0] in ("un", "deref", "ref"):
            return self.expr(t)
        self.e.tok("(")
        self.expr(t)
        self.e.tok(")")

    def lit(self):
        d = self.d
        if self.e.plain:
            self.e.tok(d.choice(["0", "1", '"a + b"', "'c'"]))
            return
        self.e.tok(d.choice(["0", "1", "42", "0xff_u8", "1.5", "'c'", "'é'", '"s"', '"a + b"', 'b"x"', "true", "1_000usize", '"multi\nline 中"', '"\\"-\\" // not comment"', 'r#"raw " + 1"#', "'\\''", "b'-'", "7", '"e\u0301\u200d\u2028👩"', 'c"nul"', "1e3f64", 'br##"x"# "##' if False else "0b1010"]))

    def expr(self, t):
        """Emit an expression tree; adds expected mutants in visitor order.

        Mutants of a node come before those of its children, so slots are reserved first and
        their spans filled in once the operator token has been written."""
        e, d = self.e, self.d
        k = t[0]
        if k == "id":
            e.tok(d.choice(IDENTS))
        elif k == "lit":
            self.lit()
        elif k == "field":
            e.tok(d.choice(["self", "a", "obj"]))
            e.tok(".", glue=True)
            e.tok(d.choice(FIELDS), glue=True)
        elif k == "macro":
            m = d.choice(['vec![a + b, !c]', 'format!("{}", a - b)', 'matches!(a, 1 if !b)', 'm!(x += 1; match y { 1 => 2, _ => 3 })', 'concat!{"a", "b"}'])
            e.tok("(")
            e.tok(m)
            e.tok(")")
        elif k == "bin":
            slots = [e.add("BinaryOperator", None, r) for r in BINOPS[t[1]]]
            self.operand(t[2], PREC[t[1]], False)
            a, b = e.tok(t[1])
            for s in slots:
                if s:
                    s["span"] = S(a, b)
                    s["orig"] = t[1]
            self.operand(t[3], PREC[t[1]], True)
        elif k == "un":
            s = e.add("UnaryOperator", None, "")
            a, b = e.tok(t[1])
            if s:
                s["span"] = S(a, b)
                s["orig"] = t[1]
            self.un_operand(t[2])
        elif k == "deref":
            e.tok("*")
            self.un_operand(t[1])
        elif k == "ref":
            e.tok("&")
            if d.chance(30):
                e.tok("mut")
            self.un_operand(t[1])
        elif k == "paren":
            e.tok("(")
            self.expr(t[1])
            e.tok(")")
        elif k == "cast":
            e.tok("(")
            self.un_operand(t[1])
            e.tok("as")
            e.tok(d.choice(["u8", "usize", "i64"]))
            e.tok(")")
        elif k == "try":
            self.atom(t[1])
            e.tok("?", glue=True)
        elif k == "fieldof":
            self.atom(t[1])
            e.tok(".", glue=True)
            e.tok(d.choice(FIELDS), glue=True)
        elif k == "await":
            self.atom(t[1])
            e.tok(".", glue=True)
            e.tok("await", glue=True)
        elif k in ("break", "return"):
            e.tok("(")
            e.tok(k)
            if k == "break" and d.chance(30):
                e.tok("'outer")
            self.expr(t[1])
            e.tok(")")
        elif k == "genarg":
            # a const generic argument in a call
            name, last = d.choice(["f", "Foo"]), d.choice(["make", "f", None])
            skip = (last or name) in e.skip_calls
            e.quiet += skip
            e.excl += skip
            e.tok(name)
            e.tok("::", glue=True)
            e.tok("<", glue=True)
            e.tok("{")
            self.expr(t[1])
            e.toks("}", ">")
            if last:
                e.tok("::")
                e.tok(last)
            self.args([t[2]])
            e.quiet -= skip
        elif k == "call":
            name = d.choice(FUNCS)
            self.path(name)
            skip = name.split("::")[-1] in e.skip_calls
            e.quiet += skip
            e.excl += skip
            self.args(t[1])
            e.quiet -= skip
        elif k == "skipcall":
            # a call to one of the skipped names: nothing inside is mutated
            name = d.choice(e.skip_calls) if e.skip_calls else None
            if name is None:
                self.path("with_capacity")
                self.args(t[1])
            else:
                self.path(d.choice(["", "Vec::", "std::vec::Vec::<u8>::", "Self::"]) + name + d.choice(["", "", "::<u8>"]))
                e.quiet += 1
                e.excl += 1
                self.args(t[1])
                e.quiet -= 1
        elif k in ("mcall", "skipm"):
            name = d.choice(METHODS)
            skip = False
            if k == "skipm" and e.skip_calls:
                name, skip = d.choice(e.skip_calls), True
            elif d.chance(15):
                name = d.choice(["with_capacity_and_hasher", "my_with_capacity", "capacity"])
            skip = name in e.skip_calls
            if skip:
                e.quiet += 1
                e.excl += 1
            self.atom(t[1][0])
            e.tok(".")
            e.tok(name, glue=True)
            if d.chance(15):
                e.toks("::", "<", "u8", ">")
            self.args(t[1][1:])
            if skip:
                e.quiet -= 1
        elif k == "index":
            self.atom(t[1])
            e.tok("[")
            self.expr(t[2])
            e.tok("]")
        elif k == "tuple":
            e.tok("(")
            for x in t[1]:
                self.expr(x)
                e.tok(",")
            e.tok(")")
        elif k == "array":
            e.tok("[")
            for x in t[1]:
                self.expr(x)
                e.tok(",")
            e.tok("]")
        elif k == "repeat":
            e.tok("[")
            self.expr(t[1])
            e.tok(";")
            self.expr(t[2])
            e.tok("]")
        elif k == "range":
            e.tok("(")
            self.atom(t[1])
            e.tok(d.choice(["..", "..="]))
            self.atom(t[2])
            e.tok(")")
        elif k == "struct":
            e.tok("(")
            self.path(d.choice(["Foo", "a::Foo", "Self"]))
            e.tok("{")
            e.tok("x")
            e.tok(":")
            self.expr(t[1])
            if d.chance(40):
                e.tok(",")
                e.tok("y")
            if d.chance(40):
                e.tok(",")
                e.tok("..")
                self.expr(t[2])
            e.tok("}")
            e.tok(")")
        elif k == "if":
            e.tok("(")
            self.if_(t[1])
            e.tok(")")
        elif k == "match":
            e.tok("(")
            self.match(t[1])
            e.tok(")")
        elif k in ("block", "unsafe", "async", "loop", "const"):
            e.tok("(")
            if k in ("block", "loop") and d.chance(25):
                e.toks("'outer", ":")
            if k == "async":
                e.tok("async")
                if d.chance(40):
                    e.tok("move")
            elif k != "block":
                e.tok(k)
            self.block(t[1])
            e.tok(")")
        elif k == "closure":
            e.tok("(")
            if d.chance(40):
                e.tok("move")
            if d.chance(50):
                e.tok("||")
            else:
                e.toks("|", "x", ":", "u8", "|")
            if d.chance(40):
                self.block(t[1])
            else:
                self.expr(self.tree(t[1]))
            e.tok(")")
        else:
            raise AssertionError(k)

    def un_operand(self, t):
        if t[0] in ("id", "lit", "paren", "call", "mcall", "index", "field", "un", "deref", "ref", "macro", "skipcall", "skipm", "tuple", "array", "try"):
            self.expr(t)
        else:
            self.e.tok("(")
            self.expr(t)
            self.e.tok(")")

    def path(self, p):
        self.e.tok(p)

    def args(self, xs):
        e = self.e
        e.tok("(", glue=True)
        for i, x in enumerate(xs):
            if i:
                e.tok(",")
            self.expr(x)
        e.tok(")")

    def head(self, depth):
        """An expression for if/while/match heads."""
        self.expr(self.tree(depth))

    def if_(self, depth):
        e, d = self.e, self.d
        e.tok("if")
        if d.chance(25):
            self.let_(depth)
        elif d.chance(8):
            # a let chain; the operator is one of the expression
            slots = [e.add("BinaryOperator", None, r) for r in BINOPS["&&"]]
            self.operand(self.tree(depth - 1), 2, True)
            a, b = e.tok("&&")
            for s in slots:
                if s:
                    s["span"] = S(a, b)
                    s["orig"] = "&&"
            self.let_(depth - 1)
        else:
            self.head(depth)
        self.block(depth)
        if d.chance(40):
            e.tok("else")
            if depth > 0 and d.chance(30):
                self.if_(depth - 1)
            else:
                self.block(depth)

    def let_(self, depth):
        e, d = self.e, self.d
        e.tok("let")
        e.tok(d.choice(["Some(x)", "Foo { a, .. }", "(a, -1)", "1 | 2"]))
        e.tok("=")
        self.atom(self.tree(depth))

    PATS = ["1", "-1", "'x'", '"s"', "x", "1 | 2", "0..=9", "(1, _)", "Foo::Bar", "Foo { x, .. }", "ref y", "n @ 1..=3", "Some(_)", "&z", "[a, ..]",
            "(_)", "_x", "__", "-5..=-1", "| 7 | 8"]

    def match(self, depth):
        e, d = self.e, self.d
        e.tok("match")
        n = d.int(0, 4)
        arms = []
        for _ in range(n):
            pat = "_" if d.chance(22) else d.choice(self.PATS)
            arms.append(dict(pat=pat, guard=d.chance(25), attr=d.chance(12), blk=d.chance(35)))
        if n and d.chance(45):
            arms[-1]["pat"] = "_"
            arms[-1]["guard"] = d.chance(10)
        catch = any(a["pat"] == "_" for a in arms)
        for a in arms:
            a["slot"] = e.add("MatchArm", None, "") if catch and a["pat"] != "_" and not a["guard"] else None
        for a in arms:
            a["g"] = [e.add("MatchArmGuard", None, r) for r in ("true", "false")] if a["guard"] else []
        self.head(depth)
        e.tok("{")
        for i, a in enumerate(arms):
            start = None
            if a["attr"]:
                start = e.tok(d.choice(["#[cfg(unix)]", "#[allow(unused)]", "#[rustfmt::skip]"]))[0]
            sp = e.tok(a["pat"])
            start = start or sp[0]
            if a["guard"]:
                e.tok("if")
                if d.chance(10):
                    g0 = self.first_pos(lambda: self.let_(depth))
                else:
                    g0 = self.expr_pos(self.tree(depth))
                g1 = e.pos()
                for s in a["g"]:
                    if s:
                        s["span"] = S(g0, g1)
            e.tok("=>")
            if a["blk"]:
                self.block(depth)
                if i + 1 == len(arms) or d.chance(50):
                    if d.chance(50):
                        e.tok(",")
            else:
                self.expr(self.tree(depth))
                if i + 1 < len(arms) or d.chance(60):
                    e.tok(",")
            if a["slot"]:
                a["slot"]["span"] = S(start, e.pos())
        e.tok("}")

    def expr_pos(self, t):
        """Emit t and return where its first token started."""
        return self.first_pos(lambda: self.expr(t))

    def first_pos(self, emit):
        e = self.e
        rec = []
        orig = e.tok

        def tok(s, glue=False):
            r = orig(s, glue)
            if not rec:
                rec.append(r[0])
            return r
        e.tok = tok
        try:
            emit()
        finally:
            e.tok = orig
        return rec[0]

    def block(self, depth):
        e, d = self.e, self.d
        e.tok("{")
        self.stmts(depth, d.int(0, 2))
        e.tok("}")

    def stmts(self, depth, n):
        """n statements then maybe a tail. Returns (start, end) of all, or None if there were none."""
        e, d = self.e, self.d
        first = None
        last = None
        for _ in range(n):
            a, b = self.stmt(depth)
            first = first or a
            last = b
        if d.chance(55):
            t = self.tree(depth)
            a = self.expr_pos(t)
            first = first or a
            last = e.pos()
        return (first, last) if first else None

    def stmt(self, depth):
        e, d = self.e, self.d
        e.nl() if d.chance(60) else None
        rec = []
        orig = e.tok

        def tok(s, glue=False):
            r = orig(s, glue)
            if not rec:
                rec.append(r[0])
            return r
        e.tok = tok
        try:
            self.stmt_(depth)
        finally:
            e.tok = orig
        return rec[0], e.pos()

    def place(self, depth, plain):
        """The left side of an assignment, sometimes with an expression within."""
        e, d = self.e, self.d
        if not d.chance(25):
            e.tok(d.choice(plain))
            return
        e.tok("x")
        e.tok("[")
        self.expr(self.tree(depth - 1))
        e.tok("]")
        if d.chance(30):
            e.tok(".y")

    def stmt_(self, depth):
        e, d = self.e, self.d
        ks = [(6, "let"), (4, "assignop"), (2, "assign"), (3, "call"), (2, "return"), (2, "macro")]
        if depth > 0 and e.budget > 0:
            ks += [(3, "if"), (3, "match"), (2, "while"), (2, "for"), (1, "loop"), (1, "letelse"), (2, "fn"), (1, "const"), (1, "attrstmt"), (1, "block"), (1, "whilelet"), (1, "mod"), (1, "impl"), (1, "trait"), (1, "exprstmt")]
        k = d.weighted(ks)
        if k == "let":
            e.tok("let")
            e.tok(d.choice(["_", "x", "mut y", "(a, b)"]))
            if d.chance(20):
                e.tok(":")
                e.tok(d.choice(["u8", "Vec<u8>"]))
            e.tok("=")
            self.expr(self.tree(depth))
            e.tok(";")
        elif k == "letelse":
            e.tok("let")
            e.tok("Some(x)")
            e.tok("=")
            self.atom(self.tree(depth))
            e.tok("else")
            self.block(depth - 1)
            e.tok(";")
        elif k == "assignop":
            op = d.choice(list(ASSIGNOPS))
            slots = [e.add("BinaryOperator", None, r) for r in ASSIGNOPS[op]]
            self.place(depth, ["a", "self.count", "x[i]", "*p"])
            a, b = e.tok(op)
            for s in slots:
                if s:
                    s["span"] = S(a, b)
                    s["orig"] = op
            self.expr(self.tree(depth))
            e.tok(";")
        elif k == "assign":
            self.place(depth, ["a", "_", "(a, b)"])
            e.tok("=")
            self.expr(self.tree(depth))
            e.tok(";")
        elif k == "call":
            t = (d.choice(["call", "skipcall"]), [self.tree(depth - 1) for _ in d.many(0, 2)])
            self.expr(t)
            e.tok(";")
        elif k == "return":
            e.tok("return")
            if d.chance(80):
                self.expr(self.tree(depth))
            e.tok(";")
        elif k == "macro":
            e.tok(d.choice(['println!("{}", a + b);', 'assert!(a == b && !c);', 'assert_eq!(a - 1, -b);', 'm! { a * b }', 'todo!();']))
        elif k == "if":
            self.if_(depth - 1)
        elif k == "match":
            self.match(depth - 1)
        elif k == "while":
            e.tok("while")
            self.head(depth - 1)
            self.block(depth - 1)
        elif k == "whilelet":
            e.toks("while", "let", "Some(x)", "=")
            self.atom(self.tree(depth - 1))
            self.block(depth - 1)
        elif k == "for":
            if d.chance(20):
                e.tok("'outer")
                e.tok(":")
            e.toks("for", "i", "in")
            self.head(depth - 1)
            self.block(depth - 1)
        elif k == "loop":
            e.tok("loop")
            self.block(depth - 1)
        elif k == "block":
            self.block(depth - 1)
        elif k == "fn":
            self.fn(depth - 1, "free")
        elif k == "mod":
            self.mod(depth - 1)
        elif k == "const":
            self.const()
        elif k in ("impl", "trait"):
            getattr(self, k)(depth - 1)
        elif k == "exprstmt":
            e.tok("#[rustfmt::skip]") if d.chance(30) else None
            self.expr(("paren", self.tree(depth - 1)))
            e.tok(";")
        elif k == "attrstmt":
            e.tok("#[allow(unused)]")
            e.toks("let", "z", "=")
            self.expr(self.tree(depth - 1))
            e.tok(";")

    # ------------------------------------------------------------ items

    SKIPATTRS = ["#[mutants::skip]", "#[test]", "#[cfg(test)]", "#[cfg_attr(test, mutants::skip)]", "#[cfg_attr(any(), mutants::skip)]" if False else "#[mutants::skip]",
                 "#[ mutants :: skip ]", "#[mutants::skip(reason)]" if False else "#[mutants::skip]"]
    PLAINATTRS = ["#[inline]", "/// Doc + comment\n", "#[allow(dead_code)]", "#[must_use]", "#[cfg(unix)]", "#[cfg(not(test))]", "/** doc */", "#[doc = \"a\"]",
                  "#[cfg_attr(test, inline)]", "#[mutants]", "#[skip]", "#[tests]", "#[cfg(feature = \"test\")]", "#[mutants::other]", "#[other::skip]", "#[derive(test)]" if False else "#[cold]",
                  "#[tokio::main]", "#[a::mutants::skip]"]

    def attrs(self, skip_pct, extra_skip=True):
        """Emit attributes; returns (start or None, skipped)."""
        e, d = self.e, self.d
        start, skipped = None, False
        k = d.weighted([(70, 0), (20, 1), (10, 2)])
        want_skip = d.chance(skip_pct)
        at = d.int(0, k) if want_skip else -1
        for i in range(k + (1 if want_skip else 0)):
            if i == at:
                a = d.choice(self.SKIPATTRS)
                skipped = True
            else:
                a = d.choice(self.PLAINATTRS)
            if a.startswith("/"):
                e.nl()
            s, _ = e.tok(a.rstrip("\n"))
            if a.startswith("///"):
                e.raw("\n")
            start = start or s
        if skipped:
            e.excl += 1
        return start, skipped

    FNAMES = ["f", "compute", "r#type", "größe", "go", "new", "default", "test", "main", "fmt", "is_ok", "new_thing"]

    def fn(self, depth, where):
        """where: free | impl | trait"""
        e, d = self.e, self.d
        feats = self.feats
        e.nl() if d.chance(70) else None
        # remember where the item starts
        start, skip = self.attrs(20 if "skip" in feats else 8)
        q = []
        if where != "trait" and d.chance(40):
            q.append(d.choice(["pub", "pub(crate)", "pub(in crate::a)"]))
        if d.chance(10):
            q.append("const")
        if d.chance(15):
            q.append("async")
        unsafe = d.chance(12 if "skip" in feats else 5)
        if unsafe:
            q.append("unsafe")
        if d.chance(6):
            q.append('extern "C"')
        q.append("fn")
        for x in q:
            s, _ = e.tok(x)
            start = start or s
        name = d.choice(self.FNAMES)
        if name == "new" and where != "free":
            skip = True
            e.excl += 1
        if unsafe:
            skip = True
            e.excl += 1
        e.tok(name)
        if d.chance(20):
            e.tok(d.choice(["<T>", "<'a, T: Clone>", "<const N: usize>", "<'a>"]), glue=True)
        hasbody = where != "trait" or d.chance(75)
        empty = hasbody and d.chance(12 if "skip" in feats else 6)
        ret = None
        if d.chance(75):
            ret = gen_ret(d, self.retdepth, e.errors)
        same = hasbody and not empty and d.chance(10)
        # Names are pushed before the signature is visited
        really = hasbody and not empty and not skip and not e.quiet
        e.ns.append(name)
        f = dict(name="::".join(e.ns), ret=("-> " + ret[0]) if ret else "", start=start, end=None)
        e.fnstack.append(f)
        arr = ret is not None and hasbody and not same and d.chance(5)
        if arr:
            ret = ("[u8; ]", ["0", "1"])
        reps = [] if not really else [e.add("FnValue", None, r) for r in (ret[1] if ret else ["()"])]
        if not really:
            e.quiet += 1
            if skip or empty:
                e.excl += 1
        e.tok("(", glue=True)
        if where != "free" and d.chance(60):
            e.tok(d.choice(["self", "&self", "&mut self", "mut self", "self: Box<Self>"]))
            if d.chance(30):
                e.tok(",")
        elif d.chance(50):
            e.toks("x", ":")
            if d.chance(15):
                e.toks("[", "u8", ";")
                self.expr(self.tree(1))
                e.tok("]")
            else:
                e.tok(d.choice(["u8", "impl Fn(u8) -> u8", "&'a str"]))
        e.tok(")")
        if ret and arr:
            e.toks("->", "[", "u8", ";")
            n0 = len(e.buf)
            st, e.style, e.plain = e.style, 0, True
            self.expr(self.tree(1))
            e.style, e.plain = st, False
            ln = "".join(e.buf[n0:])
            e.tok("]")
            f["ret"] = f"-> [u8; {ln}]"
            for m in reps:
                if m:
                    m["replacement"] = f"[{m['replacement']}; {ln}]"
        elif ret:
            e.tok("->")
            e.tok(ret[0])
        if d.chance(8):
            e.toks("where", "T: Copy")
        if not hasbody:
            e.tok(";")
        else:
            e.tok("{")
            if empty:
                if d.chance(50):
                    e.raw(d.choice([" /* todo!() */ ", " // nothing\n ", "  ", "\n"]))
                if self.feats and d.chance(20):
                    e.tok("#![allow(unused)]")
            else:
                e.bodytoks_saved = e.bodytoks
                saved = e.bodytoks
                e.bodytoks = []
                sp = None
                rl = ret[1] if ret else ["()"]
                if same and rl:
                    r = d.choice(rl)
                    parts = lex(r)
                    # write exactly a replacement value as the body
                    a0 = None
                    inmac = 0
                    prev = ""
                    for pt in self.gluepunct(parts):
                        if pt == "[" and (inmac or prev == "!"):
                            inmac += 1
                        elif pt == "]" and inmac:
                            inmac -= 1
                        slot = e.add("UnaryOperator", None, "") if pt == "-" and not inmac else None
                        a, b = e.tok(pt)
                        if slot:
                            slot["span"] = S(a, b)
                        prev = pt
                        a0 = a0 or a
                    sp = (a0, b)
                else:
                    n = d.int(0, 3)
                    sp = self.stmts(depth, n)
                    if sp is None:
                        a, b = e.tok(d.choice(["todo!()", "0", "x"]))
                        sp = (a, b)
                body = e.bodytoks
                e.bodytoks = saved
                if saved is not None:
                    saved.extend(body)
                for m in reps:
                    if m is None:
                        continue
                    m["span"] = S(*sp)
                    if lex(m["replacement"]) == body:
                        e.mutants.remove(m)
            if d.chance(15):
                e.raw(d.choice([" /* end */ ", "\n"]))
            e.tok("}")
        f["end"] = e.pos()
        if not really:
            e.quiet -= 1
        e.fnstack.pop()
        e.ns.pop()

    retdepth = 1

    def gluepunct(self, parts):
        """Join ':' ':' back into '::' so that the text lexes as intended."""
        out = []
        i = 0
        while i < len(parts):
            if parts[i] == ":" and i + 1 < len(parts) and parts[i + 1] == ":":
                out.append("::")
                i += 2
            else:
                out.append(parts[i])
                i += 1
        return out

    def const(self):
        e, d = self.e, self.d
        k = d.choice(["const", "static", "enum", "struct", "type", "constfn"])
        if k == "struct":
            e.toks("struct", "Foo", "<", "const", "N", ":", "usize", "=", "{")
            self.expr(self.tree(1))
            e.toks("}", ">", "{", "x", ":", "[", "u8", ";")
            self.expr(self.tree(1))
            e.toks("]", "}")
            return
        if k == "type":
            e.toks("type", "A", "=", "[", "u8", ";")
            self.expr(self.tree(1))
            e.toks("]", ";")
            return
        if k == "constfn":
            e.toks("const", "_", ":", "()", "=", "{")
            self.fn(1, "free")
            e.toks("}", ";")
            return
        if k == "enum":
            e.toks("enum", "E", "{", "A", "=")
            self.expr(self.tree(1))
            e.toks(",", "B", "}")
            return
        e.tok(k)
        e.toks(d.choice(["X", "LIMIT"]), ":", "usize", "=")
        self.expr(self.tree(2))
        e.tok(";")

    def mod(self, depth):
        e, d = self.e, self.d
        e.nl() if d.chance(70) else None
        _, skip = self.attrs(18 if "skip" in self.feats else 6)
        if d.chance(30):
            e.tok("pub")
        e.tok("mod")
        name = d.choice(["m", "inner", "r#try", "tests", "größe"])
        e.tok(name)
        e.tok("{")
        e.ns.append(name.replace("r#", ""))
        if skip:
            e.quiet += 1
        for _ in d.many(0, 2):
            self.item(depth - 1)
        if skip:
            e.quiet -= 1
        e.ns.pop()
        e.tok("}")

    def impl(self, depth):
        e, d = self.e, self.d
        e.nl() if d.chance(70) else None
        _, skip = self.attrs(15 if "skip" in self.feats else 5)
        e.tok("impl")
        if d.chance(20):
            e.tok("<T>", glue=True)
        trait = None
        if d.chance(45):
            trait = d.choice(["Default", "std::default::Default", "Display", "fmt::Display", "From<u8>", "Iterator", "DefaultExt", "Default<T>", "a::NotDefault"])
            if d.chance(10):
                trait = "Default"
            e.tok(trait)
            e.tok("for")
        ty = d.choice(["Foo", "Foo<T>", "a::Foo", "&Foo", "Vec<Foo>", "[u8]", "(A, B)", "dyn Tr", "Box<dyn Tr>", "*const Foo", "[T; 3]", "&'a mut Foo", "<T as Tr>::Out"])
        e.tok(ty)
        e.tok("{")
        if trait and trait.split("<")[0].split("::")[-1] == "Default":
            skip = True
            e.excl += 1
        e.ns.append(f"<impl {trait} for {ty}>" if trait else ty)
        if skip:
            e.quiet += 1
        for _ in d.many(0, 3):
            if d.chance(12):
                e.toks("const", "K", ":", "u8", "=")
                self.expr(self.tree(1))
                e.tok(";")
            else:
                self.fn(depth, "impl")
        if skip:
            e.quiet -= 1
        e.ns.pop()
        e.tok("}")

    def trait(self, depth):
        e, d = self.e, self.d
        e.nl() if d.chance(70) else None
        _, skip = self.attrs(15 if "skip" in self.feats else 5)
        e.tok("trait")
        name = d.choice(["Tr", "Shape"])
        e.tok(name)
        if d.chance(20):
            e.tok("<T>", glue=True)
        e.tok("{")
        e.ns.append(name)
        if skip:
            e.quiet += 1
        for _ in d.many(0, 2):
            if d.chance(12):
                e.toks("const", "K", ":", "u8", "=")
                self.expr(self.tree(1))
                e.tok(";")
            else:
                self.fn(depth, "trait")
        if skip:
            e.quiet -= 1
        e.ns.pop()
        e.tok("}")

    def item(self, depth):
        e, d = self.e, self.d
        k = d.weighted([(10, "fn"), (4, "impl"), (2, "trait"), (3, "mod"), (2, "const"), (2, "misc")])
        if k in ("impl", "trait", "mod") and depth <= 0:
            k = "fn"
        if k == "fn":
            self.fn(depth, "free")
        elif k == "const":
            e.nl()
            self.const()
        elif k == "misc":
            e.nl()
            e.tok(d.choice(["use std::fmt;", "struct Foo;", "struct P { x: u8 }", "macro_rules! mm { ($x:expr) => { $x + 1 } }", "type A = Vec<u8>;",
                            "// just - a comment\n", "extern crate core;", "thread_local! { static A: u8 = 1 + 2; }", "static S: &str = \"a && b\";"]))
        else:
            getattr(self, k)(depth)

    def file(self, nitems, depth, inner_skip=False):
        e, d = self.e, self.d
        if inner_skip:
            e.tok(d.choice(["#![mutants::skip]", "#![cfg(test)]", "#![cfg_attr(test, mutants::skip)]"]))
            e.quiet += 1
            e.nl()
        elif d.chance(20):
            e.tok(d.choice(["#![allow(unused)]", "//! Doc é - 1", "// comment 中文 && \n", "#![cfg(not(test))]"]))
            e.nl()
        for _ in range(nitems):
            self.item(depth)
        if d.chance(70):
            e.nl()
        if inner_skip:
            e.quiet -= 1
        return e.text(), e.mutants


def gen_file(d, *, style=None, items=(1, 4), depth=3, budget=60, feats=(), retdepth=1, errors=(), skip_calls=("with_capacity",), crlf=None, inner_skip_pct=0):
    """Returns dict(text=..., expect=[...]). text is as on disk."""
    g = Gen(d, d.int(0, 1) if style is None else style, budget, feats)
    g.retdepth = retdepth
    g.e.errors = list(errors)
    g.e.skip_calls = list(skip_calls)
    text, ms = g.file(d.int(*items), depth, d.chance(inner_skip_pct))
    out = []
    for m in ms:
        f = m["function"]
        out.append([m["genre"], m["span"], squash(m["replacement"]),
                    None if f is None else [f["name"], squash(f["ret"]), [f["start"][0], f["start"][1], f["end"][0], f["end"][1]]]])
    if crlf is None:
        crlf = d.chance(15)
    return dict(text=text.replace("\n", "\r\n") if crlf else text, expect=out, excl=g.e.excl)


def observed(m):
    """A JSON mutant from cargo-mutants in the shape of an expectation."""
    sp = lambda s: [s["start"]["line"], s["start"]["column"], s["end"]["line"], s["end"]["column"]]
    f = m["function"]
    return [m["genre"], sp(m["span"]), squash(m["replacement"]),
            None if f is None else [f["function_name"], squash(f["return_type"]), sp(f["span"])]]
