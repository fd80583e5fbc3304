"""C03: the values replacing a function body follow from its return type."""
from common import *
import discover, rsgen

ID = "C03"
RULE = ("A case is a file of functions (free, impl, trait) whose return types are drawn from a recursive type grammar, with random --error/error_values; "
        "the expected replacements come from an independent recursive model. Non-trivial when at least 8 body replacements are expected.")
CASES = {"quick": 12000, "thorough": 80000}
GENRES = {"FnValue"}
ERRORS = ['anyhow!("mutated")', 'Error::new(1)', '::std::io::Error::other("x")', '"s".to_string()', 'eyre!("no é")', "Foo { a: 1 }", "Default::default()", "fmt::Error", "-1"]


def gen(d):
    errs = [d.choice(ERRORS) for _ in d.many(0, 2)]
    ncli = d.int(0, len(errs))
    cfg = ""
    if ncli < len(errs):
        cfg = "error_values = [%s]\n" % ", ".join("'''" + e + "'''" for e in errs[ncli:])
    return dict(errors=errs[:ncli], config=cfg,
                files=[rsgen.gen_file(d, style=d.int(0, 1), items=(3, 9), depth=1, budget=d.int(0, 12), retdepth=d.int(1, 3), errors=errs)])


def run_case(case, ctx):
    n, ms = discover.run(case, ctx, GENRES)
    for e in case["files"][0]["expect"]:
        if e[0] == "FnValue":
            ctx.label("values")
            ctx.label("ret " + e[3][1].replace("- > ", "").split(" ")[0][:12])
    return dict(nontrivial=n >= 8)
