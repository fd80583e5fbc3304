"""C21: command-line options and configuration file merge as documented."""
from common import *
import math
import lab, optmodel

ID = "C21"
RULE = ("A case is a fixed-shape tree with generated filters, error values, skipped calls, output directory and execution settings divided between command line, environment and "
        "configuration file, or an invalid configuration. The listing must equal that of the equivalent pure command line without configuration, and child commands and the output directory "
        "must follow the merged values; in some cases the time limits in force (read from which phases time out on a virtual clock) and the copying of version-control directories must. Non-trivial when the configuration has at least one setting or is invalid.")
CASES = {"quick": 1500, "thorough": 40000}

FILES = {
    "src/lib.rs": "mod net;\nmod db;\nmod console;\n\npub fn a(x: u32) -> Result<u32, E> {\n    Ok(x + 1)\n}\n\npub fn caps() -> usize {\n    let v = Vec::with_capacity(1 + 2);\n    log(1 == 2);\n    v.capacity()\n}\n",
    "src/net.rs": "pub fn send(x: bool) -> Result<(), E> {\n    trace(!x);\n    Ok(())\n}\n\npub fn recv() -> u8 {\n    3 - 1\n}\n",
    "src/db/mod.rs": "mod store;\n\npub fn load() -> bool {\n    1 < 2\n}\n",
    "src/db/store.rs": "impl Store {\n    pub fn get(&self) -> Result<String, E> {\n        self.log(2 * 3);\n        Ok(String::new())\n    }\n}\n",
    "src/console.rs": "pub fn show(a: i32) -> i32 {\n    debug(a & 1);\n    -a\n}\n",
}
GLOBS = ["src/net.rs", "*.rs", "src/db/**", "console.rs", "net*", "src/*.rs", "store.rs", "nosuch.rs", "src/db/*.rs"]
RES = ["load", "replace .* with", "-> bool", "src/net", "delete", "^src/db/", "\\+ with", "with 0$", "nomatch", "Ok\\(", "recv|send", "console", "show"]
ERRS = ["anyhow!(\"mutated\")", "E::new()", "::std::io::Error::other(1)", "\"oops\".into()"]
CALLS = ["log", "trace", "debug", "Vec::nothing", "with_capacity", "capacity"]
BAD = ["unknown_key = 1\n", "examine_glob = [\"x\"]\n", "cap_lints = \"yes\"\n", "exclude_re = \"x\"\n", "exclude_globs = [1]\n", "profile = 3\n", "test_tool = \"other\"\n", "timeout_multiplier = \"2\"\n",
       "not toml at all", "error_values = [\n", "[section]\nx = 1\n", "skip_calls = {}\n", "exclude_re = [\"(\"]\n", "examine_globs = [\"[\"]\n", "minimum_test_timeout = true\n", "copy_vcs = 1\n", "test_workspace = \"no\"\n",
       "cap_lints = true\ncap_lints = true\n", "jobs = 3\n", "timeout = 10\n", "error_values = [\"not an (expr\"]\n"]


def gen(d):
    cli, cfg, env = {}, {}, {}
    for side in (cli, cfg):
        for k, pool in (("file", GLOBS), ("exclude", GLOBS), ("re", RES), ("exclude_re", RES), ("error", ERRS), ("skip_calls", CALLS)):
            if d.chance(25):
                side[k] = [d.choice(pool) for _ in d.many(1, 2)]
        if d.chance(20):
            side["skip_calls_defaults"] = d.chance(50)
    xcli, xcfg, _ = optmodel.gen_opts(d)
    for k in ("check",):
        xcli.pop(k, None)
    case = dict(cli=cli, cfg=cfg, xcli=xcli, xcfg=xcfg)
    case["out"] = [d.chance(20), d.chance(15), d.chance(30)]  # cli, environment, configuration
    case["noconfig"] = d.chance(12)
    case["bad"] = d.choice(BAD) if d.chance(10) else None
    case["empty"] = d.chance(30)  # empty lists in the configuration
    case["sub"] = d.chance(20)
    case["run"] = d.chance(60)
    # settings that show in the time limits and in the copies
    case["lim"] = {}
    if d.chance(40):
        for k, pool in (("minimum_test_timeout", [25, 60, 90.5, 400]), ("timeout_multiplier", [1.5, 3, 7, 30]), ("build_timeout_multiplier", [2, 5.5, 12]), ("copy_vcs", [True, False])):
            case["lim"][k] = [d.choice(pool) if d.chance(50) else None, d.choice(pool) if d.chance(50) else None]
    return case


CFGNAMES = {"file": "examine_globs", "exclude": "exclude_globs", "re": "examine_re", "exclude_re": "exclude_re", "error": "error_values", "skip_calls": "skip_calls",
            "skip_calls_defaults": "skip_calls_defaults"}


def cliargs(o):
    a = []
    for k in ("file", "exclude", "re", "exclude_re", "error"):
        a += [f"--{k.replace('_', '-')}={x}" for x in o.get(k, [])]
    if o.get("skip_calls"):
        a.append("--skip-calls=" + ",".join(o["skip_calls"]))
    if "skip_calls_defaults" in o:
        a.append("--skip-calls-defaults=" + str(o["skip_calls_defaults"]).lower())
    return a


def limits(case, ctx, c, args, what, env, kw):
    """Two mutants per phase: one just within the limit that follows from the merged settings, one beyond it."""
    eff = {k: vcli if vcli is not None or case["noconfig"] else vcfg for k, (vcli, vcfg) in case["lim"].items()}
    bb, bt = 20, 15
    mult = eff["timeout_multiplier"] or 5
    test = max(eff["minimum_test_timeout"] or 20, math.ceil(bt * mult))
    build = bb * eff["build_timeout_multiplier"] if eff["build_timeout_multiplier"] else None
    ms = lab.mutants(c, FILES, *args, env=env, **kw)
    base = tree_digest({p: t.encode() for p, t in FILES.items()})
    if any(m["dup"] or m["digest"] == base for m in ms):
        return
    c.clear_events()
    lines = [f"{base} build adv {bb * 1000} exit 0", f"{base} test adv {bt * 1000} exit 0"]
    want = {}
    for i, m in enumerate(ms[:4]):
        over = i % 2 == 0
        b, t = (0, test + 5 + mult if over else test - 4) if i < 2 else (build + 15 if over else build - 4, 0) if build else (100000, 0)
        want[m["name"]] = ["Success" if b == 0 or not over or not build else "Timeout", "Timeout" if t and over else "Success"]
        for ph, x in (("build", b), ("test", t)):
            lines.append(f"{m['digest']} {ph} adv {int(x * 1000)} {'sleep 8000 ' if want[m['name']][ph == 'test'] == 'Timeout' else ''}exit 0")
    c.plan(lines)
    a = ["--no-shuffle", "-o", str(c.base / "olim")] + [x for i, x in enumerate(args) if x != "-o" and (i == 0 or args[i - 1] != "-o")]
    r = c.run(*a, warp=40, env=env, **kw)
    what = f"limits build {build} test {test}; {a}; {what}; {r}"
    evs = c.events()
    for e in evs:
        if (".hg/x" in e["full"]) != bool(eff["copy_vcs"]):
            raise Violation(f"copy_vcs should be {eff['copy_vcs']}, the copy holds {sorted(e['full'])}; {what}")
    out = json.loads((c.base / "olim/mutants.out/outcomes.json").read_text())
    for o in out["outcomes"]:
        if o["scenario"] == "Baseline":
            continue
        m = o["scenario"]["Mutant"]
        n = mutant_name(m, FILES[m["file"]])
        st = [p["process_status"] for p in o["phase_results"]]
        w = want.get(n, ["Success", "Success"])
        if st != w[:1 + (w[0] == "Success")]:
            raise Violation(f"{n}: recorded {[(p['phase'], p['process_status'], p['duration']) for p in o['phase_results']]}, expected {w}; {what}")
    ctx.label("limits")


def run_case(case, ctx):
    c = ctx.case()
    try:
        for p, t in FILES.items():
            c.write(p, t)
        c.package("alpha", version="1.2.3")
        xcfg = dict(case["xcfg"])
        cfgtext = optmodel.toml({CFGNAMES[k]: v for k, v in case["cfg"].items()}) + optmodel.toml(xcfg)
        if case["empty"]:
            have = {CFGNAMES[k] for k in case["cfg"]} | {optmodel.NAMES.get(k, k) for k in xcfg}
            cfgtext += "".join(f"{k} = []\n" for k in ("examine_globs", "exclude_re", "error_values", "skip_calls", "additional_cargo_args", "test_package") if k not in have)
        targs = []
        for k, (vcli, vcfg) in case["lim"].items():
            if vcli is not None:
                targs.append(f"--{k.replace('_', '-')}={str(vcli).lower()}")
            if vcfg is not None:
                cfgtext += f"{k} = {str(vcfg if vcfg is True or vcfg is False else float(vcfg)).lower()}\n"
        if case["lim"]:
            c.write(".hg/x", "vcs\n")
            (c.fake / "fulltree").write_text("")
        ocli, oenv, ocfg = case["out"]
        if ocfg:
            cfgtext += f'output = "{c.base}/ocfg"\n'
        bad = case["bad"]
        if bad:
            # replace settings given twice
            key = bad.split("=")[0].strip()
            cfgtext = "".join(l + "\n" for l in cfgtext.splitlines() if l.split("=")[0].strip() != key)
            cfgtext = bad + cfgtext if not bad.startswith("[") else cfgtext + bad
            if bad == "not toml at all":
                cfgtext = bad
        c.write(".cargo/mutants.toml", cfgtext)
        c.finish()
        args = cliargs(case["cli"])
        env = {}
        if ocli:
            args += ["-o", str(c.base / "ocli")]
        if oenv:
            env["CARGO_MUTANTS_OUTPUT"] = str(c.base / "oenv")
        if case["noconfig"]:
            args.append("--no-config")
        kw = dict(cwd=c.root / "src", d=False) if case["sub"] else {}
        xargs, rest = optmodel.argv(case["xcli"])
        what = f"args {args + xargs + rest}; configuration:\n{cfgtext}"
        lst = c.run("--list", "--json", *args, *xargs, *rest, env=env, **kw)
        if bad and not case["noconfig"]:
            # filters that are overridden by the command line are never compiled
            shadow = (bad.startswith("exclude_re = [") and case["cli"].get("exclude_re")) or (bad.startswith("examine_globs = [") and case["cli"].get("file"))
            if shadow:
                return dict(nontrivial=False)
            if bad.startswith("error_values = [\"not") and lst.code == 0 and json.loads(lst.out) == []:
                return dict(nontrivial=False)
            if lst.code != 1 or c.events():
                raise Violation(f"invalid configuration {bad!r} is not refused: exit {lst.code}; {what}; {lst}")
            r = c.run(*args, *xargs, *rest, env=env, **kw)
            if r.code != 1 or c.events():
                raise Violation(f"invalid configuration {bad!r} is not refused: exit {r.code}; {what}; {r}")
            ctx.label("invalid")
            return dict(nontrivial=True)
        if lst.code != 0:
            raise Violation(f"listing fails; {what}; {lst}")
        cfg, cli = ({} if case["noconfig"] else case["cfg"]), case["cli"]
        eff = {}
        for k in ("file", "exclude", "re", "exclude_re"):
            eff[k] = cli.get(k) or cfg.get(k) or []
        for k in ("error", "skip_calls"):
            eff[k] = cli.get(k, []) + cfg.get(k, [])
        sd = cli.get("skip_calls_defaults", cfg.get("skip_calls_defaults"))
        if sd is not None:
            eff["skip_calls_defaults"] = sd
        ref = c.run("--list", "--json", "--no-config", *cliargs(eff))
        if ref.code != 0:
            raise Violation(f"listing fails; args --no-config {cliargs(eff)}; {ref}")
        if json.loads(ref.out) != json.loads(lst.out):
            a, b = ({mutant_name(m, FILES[m["file"]]) for m in json.loads(x.out)} for x in (ref, lst))
            raise Violation(f"not merged as documented: equivalent to --no-config {cliargs(eff)}, which adds {sorted(a - b)[:4]} and lacks {sorted(b - a)[:4]}; {what}")
        names = json.loads(lst.out)
        nontriv = bool(case["cfg"] or xcfg or ocfg)
        ctx.label("listing")
        if case["run"] and names:
            e = optmodel.Eff(case["xcli"], {} if case["noconfig"] else xcfg)
            base = tree_digest({p: t.encode() for p, t in FILES.items()})
            genv = dict(env)
            r = c.run(*args, *xargs, "--baseline=skip", "--shard=0/%d" % max(1, len(names) // 2), *rest, env=genv, warp=40, **kw)
            given = c.env(genv, 40)
            evs = c.events()
            if not evs or r.code not in (0, 2):
                raise Violation(f"the run failed; {what}; {r}")
            for ev in evs:
                if e.testpk == "workspace":
                    pk = "workspace"
                else:
                    pk = [p + "@1.2.3" for p in sorted(set(e.testpk)) if p == "alpha"] if e.testpk else ["alpha@1.2.3"]
                w = e.argv(ev["phase"], pk)
                if ev["argv"] != w:
                    raise Violation(f"expected {w}, got {ev['argv']}; {what}")
                optmodel.check_env(e, given, ev, 1, what)
            want = c.base / "ocli" if ocli else c.base / "oenv" if oenv else c.base / "ocfg" if ocfg and not case["noconfig"] else c.root
            for p in (c.base / "ocli", c.base / "oenv", c.base / "ocfg", c.root):
                if (p / "mutants.out").exists() != (p == want):
                    raise Violation(f"output should be in {want.name}, but {p.name}/mutants.out {'exists' if p != want else 'does not exist'}; {what}")
            ctx.label("run")
        if case["lim"] and names:
            limits(case, ctx, c, args + targs, what, env, kw)
        return dict(nontrivial=nontriv)
    finally:
        c.cleanup()
