"""C01: a mutated file is the original with exactly the reported span replaced."""
import glob
from common import *
import discover, rsgen, udiff

ID = "C01"
RULE = ("A case is a generated file set (with spans known by construction) or a real-world Rust file from the local registry/std sources under layout "
        "transformations (CRLF, unicode prefix on every line, BOM, no final newline); a third of the small ones are also run with a stub cargo that "
        "records the bytes it was given. Non-trivial when at least 3 mutants are applied and checked.")
CASES = {"quick": 2500, "thorough": 30000}
ALL = {"BinaryOperator", "UnaryOperator", "MatchArm", "MatchArmGuard", "FnValue"}
ASSUMPTIONS = ["stub cargo reports the bytes that a real cargo would read", "line endings of a file being mutated are documented to become LF",
               "files do not end in a lone carriage return"]

_corpus = None
ERRORS = ['Error("two\nlines\n")', 'Error("--- a\n+++ b\n@@ -1,2 +1,2 @@")', 'anyhow!("mutated")']
PREFIX = "/*é𝄞*/ "


def corpus():
    global _corpus
    if _corpus is None:
        c = []
        for base in ("/root/.cargo/registry/src", "/root/.rustup/toolchains/stable-x86_64-unknown-linux-gnu/lib/rustlib/src/rust/library"):
            for dp, dns, fns in os.walk(base):
                dns.sort()
                for f in sorted(fns):
                    if f.endswith(".rs"):
                        p = os.path.join(dp, f)
                        try:
                            if 200 < os.path.getsize(p) < 40000:
                                c.append(p)
                        except OSError:
                            pass
        _corpus = c
    return _corpus


def prepare(tools, tier):
    corpus()


def gen(d):
    if corpus() and d.chance(15):
        return dict(kind="corpus", path=d.choice(corpus()), pad=d.chance(20))
    errs = [d.choice(ERRORS) for _ in d.many(0, 2)] if d.chance(25) else []
    feats = ["cr"] if d.chance(15) else []
    case = dict(kind="gen", run=d.chance(35), errors=errs,
                files=[rsgen.gen_file(d, depth=d.int(1, 3), budget=d.int(10, 60), retdepth=d.int(0, 2), feats=feats, errors=errs) for _ in d.many(1, 2)])
    if d.chance(4):
        # beyond 64 KiB
        case["files"][0]["text"] += "\n" + "".join("// %d %s\n" % (i, "x" * d.int(0, 300)) for i in range(d.int(300, 900)))
    return case


def check_mutant(m, text):
    """diff and name agree with span + replacement."""
    t = norm(text)
    want = mutated(text, m)
    if want == t:
        raise Violation(f"mutant leaves the file unchanged: {m}")
    ol, nl, got = udiff.apply(m["diff"], t)
    if got != want:
        raise Violation(f"the diff of {mutant_name(m, text)} does not give the original with its span {m['span']} replaced\n{m['diff']}\n--- want\n{want[:3000]}")
    if ol != m["file"]:
        raise Violation(f"diff is labelled {ol!r}, file is {m['file']!r}")
    return want


OPS = {**rsgen.BINOPS, **rsgen.ASSIGNOPS}


def check_site(m, text):
    t = norm(text)
    o = extract_span(t, m["span"])
    g = m["genre"]
    if g == "BinaryOperator" and m["replacement"] not in OPS.get(o, []):
        raise Violation(f"BinaryOperator span holds {o!r}, replacement {m['replacement']!r}")
    if g == "UnaryOperator" and (o not in ("!", "-") or m["replacement"]):
        raise Violation(f"UnaryOperator span holds {o!r}, replacement {m['replacement']!r}")
    if o.strip() != o or (not o):
        raise Violation(f"span of {g} has blank edges: {o!r}")
    if g == "MatchArm" and "=>" not in o:
        raise Violation(f"MatchArm span holds {o!r}")


PAD = "".join("// %05d %s\n" % (i, "p" * 90) for i in range(700)) + "\n" * 400  # puts everything beyond 64 KiB and 1000 lines


def transform(text, tr):
    """Returns (new text, function from (line, col) to the new (line, col))."""
    if tr == "crlf":
        return norm(text).replace("\n", "\r\n"), lambda l, c: (l, c)
    if tr == "prefix":
        return "\n".join(PREFIX + x for x in norm(text).split("\n")), lambda l, c: (l, c + len(PREFIX))
    if tr == "bom":
        return "\ufeff" + norm(text), lambda l, c: (l, c + 1 if l == 1 else c)
    if tr == "nonl":
        return norm(text).rstrip("\n"), lambda l, c: (l, c)
    if tr == "pad":
        return PAD + norm(text), lambda l, c: (l + PAD.count("\n"), c)
    if tr == "tabs":
        return "\n".join("\t" + x for x in norm(text).split("\n")), lambda l, c: (l, c + 1)


def run_case(case, ctx):
    if case["kind"] == "corpus":
        return run_corpus(case, ctx)
    n, ms = discover.run(case, ctx, ALL)
    texts = {("src/lib.rs" if i == 0 else f"src/b{i}.rs"): f["text"] for i, f in enumerate(case["files"])}
    for m in ms:
        check_mutant(m, texts[m["file"]])
    ctx.label("mutants", len(ms))
    if any("\r" in t for t in texts.values()):
        ctx.label("crlf file")
    if case["run"] and 0 < len(ms) <= 60:
        ctx.label("executed mutants", len(ms))
        run_real(case, ctx, texts, ms)
    return dict(nontrivial=len(ms) >= 3)


def run_real(case, ctx, texts, ms):
    c = ctx.case()
    try:
        for n, t in texts.items():
            c.write(n, t)
        names = list(texts)
        c.package("p", targets=[("lib", "src/lib.rs")] + [("bin", n) for n in names[1:]])
        c.finish()
        r = c.run("--baseline=skip", "--no-shuffle", "--no-times", *[f"--error={e}" for e in case.get("errors", [])], warp=40)
        if r.code != 2:
            raise Violation(f"run of all-passing mutants should exit 2: {r}")
        evs = [e for e in c.events() if e["phase"] == "test"]
        outs = [o for o in c.outjson("outcomes.json")["outcomes"]]
        if len(evs) != len(ms) or len(outs) != len(ms):
            raise Violation(f"{len(ms)} mutants listed, {len(evs)} tested, {len(outs)} outcomes")
        for m, e, o in zip(ms, evs, outs):
            want = mutated(texts[m["file"]], m)
            got = c.snap(e["tree"][m["file"]]).decode()
            if got != want:
                raise Violation(f"{mutant_name(m, texts[m['file']])}: the tested file is not the original with the span replaced\n--- got\n{got[:3000]}")
            for n, t in texts.items():
                if n != m["file"] and norm(c.snap(e["tree"][n]).decode()) != norm(t):
                    raise Violation(f"{mutant_name(m, texts[m['file']])}: {n} was altered too")
            d = (c.root / "mutants.out" / o["diff_path"]).read_bytes().decode()
            if udiff.apply(d, norm(texts[m["file"]]))[2] != want:
                raise Violation(f"diff file {o['diff_path']} does not describe what was tested:\n{d}")
    finally:
        c.cleanup()


def listing(ctx, text):
    c = ctx.case()
    try:
        c.write("src/lib.rs", text)
        c.package("p")
        c.finish()
        r = c.run("--list", "--json", "--diff")
        return r, (json.loads(r.out) if r.code == 0 else None)
    finally:
        c.cleanup()


def run_corpus(case, ctx):
    try:
        text = norm(Path(case["path"]).read_text())
    except (UnicodeDecodeError, OSError):
        return dict(nontrivial=False)
    if text.startswith("#!") and not text.startswith("#!["):
        return dict(nontrivial=False)
    text = text.lstrip("\ufeff")
    r, ms = listing(ctx, text)
    if ms is None:
        if r.code == 1 and "failed to parse" in r.err + r.out:
            ctx.label("unparseable")
            return dict(nontrivial=False)
        raise Violation(f"listing {case['path']} failed: {r}")
    for m in ms:
        check_mutant(m, text)
        check_site(m, text)
    for tr in ("crlf", "prefix", "bom", "nonl", "tabs") + (("pad",) if case.get("pad") else ()):
        compare(case, ctx, text, ms, tr)
    ctx.label("corpus mutants", len(ms))
    return dict(nontrivial=len(ms) >= 3)


def compare(case, ctx, text, ms, tr):
    new, f = transform(text, tr)
    r2, ms2 = listing(ctx, new)
    if ms2 is None:
        raise Violation(f"{case['path']} parses, but not after {tr}: {r2}")

    def mv(s):
        return [list(f(s[0], s[1])), list(f(s[2], s[3]))]

    def shape(ms, move):
        out = []
        for m in ms:
            g, sp, rep, fn = rsgen.observed(m)
            mvf = (lambda s: [[s[0], s[1]], [s[2], s[3]]]) if not move else mv
            # ends at column 1 (start of a line) cannot occur: spans end after a token
            out.append([g, mvf(sp), rep, None if fn is None else [fn[0], fn[1]] + [mvf(fn[2])]])
        return out
    a, b = shape(ms, True), shape(ms2, False)
    if a != b:
        dif = [(x, y) for x, y in zip(a, b) if x != y][:3]
        raise Violation(f"{case['path']}: mutants change under {tr}: {len(a)} vs {len(b)}; {dif}")
    for m in ms2:
        check_mutant(m, new)
    ctx.label("corpus " + tr)
