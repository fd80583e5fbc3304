"""C20: child cargo commands carry exactly the configured arguments and environment."""
from common import *
import lab, optmodel

ID = "C20"
RULE = ("A case is a package or workspace with a generated combination of command-line options, configuration and environment (profile, test tool, features, extra cargo and test "
        "arguments, lint cap, test packages, job server, inherited compiler flags and snapshot settings) and job count; arguments, environment, directory and job tokens of every "
        "child process are compared with a model. Non-trivial when at least two settings are given.")
CASES = {"quick": 1500, "thorough": 40000}


def gen(d):
    case = lab.small_tree(d, maxfiles=1, lo=1, hi=1)
    case["cli"], case["cfg"], case["env"] = optmodel.gen_opts(d)
    case["jobs"] = d.weighted([(3, 1), (1, 2)])
    case["skip"] = d.chance(40)
    case["cargo"] = d.choice(["my tools/cargo", "cargo-é", "a/../cargo", "cargo 2", "-v"]) if d.chance(15) else None
    case["rc"] = d.choice(["exit 0", "exit 0", "exit 1"])
    return case


def run_case(case, ctx):
    c = ctx.case()
    try:
        c.write(".cargo/mutants.toml", optmodel.toml(case["cfg"]))
        lab.write_tree(c, case)
        cli, cfg = case["cli"], case["cfg"]
        eff = optmodel.Eff(cli, cfg)
        a, rest = optmodel.argv(cli)
        args = a + (["--workspace"] if len(case["pk"]) > 1 else []) + ([f"-j{case['jobs']}"] if case["jobs"] > 1 else []) + (["--baseline=skip"] if case["skip"] else [])
        base = tree_digest(lab.rs_bytes(case["files"]))
        ms = lab.mutants(c, case["files"], *args)
        if not ms or any(m["digest"] == base for m in ms):
            return dict(nontrivial=False)
        c.plan([f"{base} * exit 0", f"* test {case['rc']}"])
        env = dict(case["env"])
        if case.get("cargo"):
            # a cargo of an odd name or place
            link = c.base / "bin" / case["cargo"]
            link.parent.mkdir(parents=True, exist_ok=True)
            (c.base / "bin/a").mkdir(exist_ok=True)
            link.symlink_to(c.tools.fakecargo)
            env["CARGO"] = str(link)
        r = c.run(*args, *rest, warp=40, env=env)
        given = c.env(env, 40)
        what0 = f"args {args + rest}; config {cfg}; environment {env}"
        if r.code not in (0, 2):
            raise Violation(f"the run failed; {what0}; {r}")
        ver = {p[0]: p[3] for p in case["pk"]}
        by = {m["digest"]: m for m in ms}
        evs = c.events()
        root = os.path.realpath(c.tmp)
        for e in evs:
            if eff.testpk == "workspace":
                want = "workspace"
            elif eff.testpk:
                want = [f"{p}@{ver[p]}" for p in sorted(set(eff.testpk)) if p in ver]
            elif e["digest"] == base:
                want = [f"{p}@{ver[p]}" for p in sorted({m["package"] for m in ms})]
            else:
                p = by[e["digest"]]["package"]
                want = [f"{p}@{ver[p]}"]
            what = f"cargo {e['argv']} for {'the baseline' if e['digest'] == base else by[e['digest']]['name']}; {what0}"
            w = eff.argv(e["phase"], want)
            if e["argv"] != w:
                raise Violation(f"expected {w}, got {what}")
            optmodel.check_env(eff, given, e, case["jobs"], what)
            if os.path.dirname(e["cwd"]) != root:
                raise Violation(f"run in {e['cwd']}, not at the top of the copied tree; {what}")
        if eff.jobserver and len({e["jobserver"] for e in evs}) > 1:
            raise Violation(f"the child processes don't share one job server; {what0}")
        if {e["digest"] for e in evs} - {base} != set(by):
            raise Violation(f"not every mutant was tested; {what0}; {r}")
        ctx.label("tool " + eff.tool)
        if eff.cap:
            ctx.label("cap lints" + (" with flags" if "RUSTFLAGS" in env or "CARGO_ENCODED_RUSTFLAGS" in env else ""))
        ctx.label("test packages " + ("default" if eff.testpk is None else "workspace" if eff.testpk == "workspace" else "named"))
        return dict(nontrivial=len(cli) + len(cfg) + len(env) >= 2)
    finally:
        c.cleanup()
