"""C02: operator, match-arm and guard mutants are exactly the documented ones."""
from common import *
import discover, rsgen

ID = "C02"
RULE = ("A case is 1-2 generated Rust files (items, nested modules/impls/traits/functions, statements and expressions with random layout, comments and "
        "unicode) with the mutants known by construction; it is non-trivial when at least 4 operator/arm/guard mutants are expected.")
CASES = {"quick": 10000, "thorough": 60000}
GENRES = {"BinaryOperator", "UnaryOperator", "MatchArm", "MatchArmGuard"}


def gen(d):
    return dict(files=[rsgen.gen_file(d, depth=d.int(2, 4), budget=d.int(20, 140), retdepth=0) for _ in d.many(1, 2)])


def run_case(case, ctx):
    n, _ = discover.run(case, ctx, GENRES)
    for f in case["files"]:
        for e in f["expect"]:
            if e[0] in GENRES:
                ctx.label(e[0])
    return dict(nontrivial=n >= 4)
