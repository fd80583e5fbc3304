"""C04: code marked or defined to be skipped yields no mutants, and nothing else is lost."""
from common import *
import discover, rsgen

ID = "C04"
RULE = ("A case is 1-2 generated files dense in skip attributes (on fns, impls, traits, mods, files), unsafe fns, Default impls, `new` methods, empty "
        "bodies, look-alike attributes and calls to skipped functions, with random skip_calls on the command line and in config; the complete mutant list is "
        "compared. Non-trivial when something is skipped and at least 3 mutants remain.")
CASES = {"quick": 10000, "thorough": 60000}
ALL = {"BinaryOperator", "UnaryOperator", "MatchArm", "MatchArmGuard", "FnValue"}
NAMES = ["reserve", "f", "len", "map", "trace", "get"]


def gen(d):
    cli = [d.choice(NAMES) for _ in d.many(0, 2)]
    cfg = [d.choice(NAMES) for _ in d.many(0, 2)]
    dflt_cli = d.choice([None, None, True, False])
    dflt_cfg = d.choice([None, None, True, False])
    dflt = dflt_cli if dflt_cli is not None else dflt_cfg if dflt_cfg is not None else True
    names = cli + cfg + (["with_capacity"] if dflt else [])
    args, conf = [], ""
    if cli:
        if d.chance(50):
            args.append(["--skip-calls", ",".join(cli)])
        else:
            args += [["--skip-calls", x] for x in cli]
    if dflt_cli is not None:
        args.append([f"--skip-calls-defaults={str(dflt_cli).lower()}"])
    if cfg:
        conf += "skip_calls = [%s]\n" % ", ".join(f'"{x}"' for x in cfg)
    if dflt_cfg is not None:
        conf += f"skip_calls_defaults = {str(dflt_cfg).lower()}\n"
    return dict(skip_args=args, config=conf, names=names,
                files=[rsgen.gen_file(d, depth=d.int(1, 3), items=(2, 5), budget=d.int(20, 90), feats=("skip",), skip_calls=names, inner_skip_pct=6, retdepth=0)
                       for _ in d.many(1, 2)])


def run_case(case, ctx):
    n, ms = discover.run(case, ctx, ALL)
    ex = sum(f["excl"] for f in case["files"])
    ctx.label("skipped constructs", ex)
    ctx.label("mutants", n)
    return dict(nontrivial=ex > 0 and n >= 3)
