"""Generated combinations of command-line options, configuration and environment, and the model of
what child cargo commands should look like."""
from common import *

PROFILES = ["mutants", "release", "my-profile", "dev"]
CARGO_ARGS = ["--locked", "--offline", "--config=build.x=1", "--color=never", "-q", "--target-dir=/tmp/x y", "-Zfoo", "--lib", "a b", "--é"]
TEST_ARGS = ["--test-threads=1", "--nocapture", "--skip", "slow", "--", "--lib", "--no-fail-fast", "name with space", "-v", "'q'"]
FEATURES = ["f1", "f1,f2", "alpha/x", "a b", ""]
RUSTFLAGS = ["", "-Dwarnings", "-C  opt-level=1", "--cfg foo  -Dwarnings ", " ", "-C\topt", "--cap-lints=allow", "--cap-lints deny -Dwarnings"]
ENCODED = ["", "-Dwarnings", "-C\x1fopt-level=1", "--cfg\x1ffeature=\"a b\"", "--cap-lints=allow", "-Dwarnings\x1f--cap-lints\x1fdeny"]


def some(d, xs, pct, hi=3):
    return [d.choice(xs) for _ in d.many(1, hi)] if d.chance(pct) else []


def gen_opts(d):
    cli, cfg, env = {}, {}, {}
    for side, pct in ((cli, 35), (cfg, 35)):
        if d.chance(pct):
            side["profile"] = d.choice(PROFILES)
        if d.chance(pct):
            side["test_tool"] = d.choice(["cargo", "nextest"])
        if d.chance(pct):
            side["cap_lints"] = d.chance(60)
        a = some(d, CARGO_ARGS, pct)
        if a:
            side["cargo_args"] = a
        a = some(d, TEST_ARGS, pct)
        if a:
            side["test_args"] = a
        if d.chance(pct // 2):
            side["test_workspace"] = d.chance(50)
        if d.chance(pct // 2):
            side["test_package"] = [d.choice(["alpha", "beta", "gamma", "nosuch"]) for _ in d.many(1, 2)]
    for k, pct in (("features", 30), ("no_default_features", 20), ("all_features", 20), ("check", 12)):
        if d.chance(pct):
            cli[k] = some(d, FEATURES, 100) if k == "features" else True
    if d.chance(30):
        cli["jobserver"] = d.chance(40)
    if d.chance(30):
        cli["jobserver_tasks"] = d.int(1, 20)
    if d.chance(25):
        env["RUSTFLAGS"] = d.choice(RUSTFLAGS)
    if d.chance(20):
        env["CARGO_ENCODED_RUSTFLAGS"] = d.choice(ENCODED)
    if d.chance(15):
        env["INSTA_UPDATE"] = d.choice(["always", "auto", "new"])
    if d.chance(15):
        env["INSTA_FORCE_PASS"] = "1"
    for _ in d.many(0, 2):
        env[d.choice(["CI", "GITHUB_ACTIONS", "RUSTUP_TOOLCHAIN", "RUSTDOCFLAGS", "CARGO_ENCODED_RUSTDOCFLAGS", "CARGO_BUILD_RUSTFLAGS", "CARGO_MANIFEST_DIR", "TERM", "LANG", "OUT_DIR", 
                      "CARGO_BUILD_JOBS", "RUST_BACKTRACE", "CARGO_INCREMENTAL", "RUST_LOG", "MY_VAR", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "NEXTEST_PROFILE", "RUST_TEST_THREADS"])] = d.choice(["", "1", "x y", "é=;"])
    return cli, cfg, env


def argv(cli):
    a = []
    for k, o in (("profile", "--profile"), ("test_tool", "--test-tool")):
        if k in cli:
            a.append(f"{o}={cli[k]}")
    for k, o in (("cap_lints", "--cap-lints"), ("test_workspace", "--test-workspace"), ("jobserver", "--jobserver")):
        if k in cli:
            a.append(f"{o}={str(cli[k]).lower()}")
    if "jobserver_tasks" in cli:
        a.append(f"--jobserver-tasks={cli['jobserver_tasks']}")
    for x in cli.get("cargo_args", []):
        a += ["-C", x] if len(x) % 2 else [f"--cargo-arg={x}"]
    if "test_package" in cli:
        if len(cli["test_package"]) > 1 and len(cli["test_package"][0]) % 2:
            a.append("--test-package=" + ",".join(cli["test_package"]))
        else:
            a += [f"--test-package={x}" for x in cli["test_package"]]
    a += [f"--features={x}" for x in cli.get("features", [])]
    for k in ("no_default_features", "all_features", "check"):
        if cli.get(k):
            a.append("--" + k.replace("_", "-"))
    return a, (["--"] + cli["test_args"] if cli.get("test_args") else [])


def tstr(s):
    return json.dumps(s, ensure_ascii=False)


def tval(v):
    if isinstance(v, bool):
        return str(v).lower()
    if isinstance(v, (int, float)):
        return repr(v)
    if isinstance(v, list):
        return "[" + ", ".join(tval(x) for x in v) + "]"
    return tstr(v)


NAMES = {"cargo_args": "additional_cargo_args", "test_args": "additional_cargo_test_args"}


def toml(cfg):
    return "".join(f"{NAMES.get(k, k)} = {tval(v)}\n" for k, v in cfg.items())


class Eff:
    """Effective options by the documented rules."""

    def __init__(self, cli, cfg):
        one = lambda k, dflt: cli.get(k, cfg.get(k, dflt))
        self.profile = one("profile", None)
        self.tool = one("test_tool", "cargo")
        self.cap = one("cap_lints", False)
        self.cargo_args = cli.get("cargo_args", []) + cfg.get("cargo_args", [])
        self.test_args = cli.get("test_args", []) + cfg.get("test_args", [])
        self.features = cli.get("features", [])
        self.nodef, self.allf, self.check = (bool(cli.get(k)) for k in ("no_default_features", "all_features", "check"))
        if cli.get("test_workspace"):
            self.testpk = "workspace"
        elif cli.get("test_package"):
            self.testpk = cli["test_package"]
        elif "test_workspace" not in cli and cfg.get("test_workspace"):
            self.testpk = "workspace"
        elif cfg.get("test_package"):
            self.testpk = cfg["test_package"]
        else:
            self.testpk = None
        self.jobserver = cli.get("jobserver", True)
        self.tasks = cli.get("jobserver_tasks")  # default: number of CPUs, not modelled

    def argv(self, phase, pk):
        """pk: "workspace" or a list of name@version."""
        if phase == "check":
            a = ["check", "--tests"]
        else:
            a = (["test"] if self.tool == "cargo" else ["nextest", "run"]) + (["--no-run"] if phase == "build" else [])
        if self.profile:
            a.append(("--profile=" if self.tool == "cargo" or phase == "check" else "--cargo-profile=") + self.profile)
        a.append("--verbose")
        a += ["--workspace"] if pk == "workspace" else [f"--package={p}" for p in pk]
        if self.nodef:
            a.append("--no-default-features")
        if self.allf:
            a.append("--all-features")
        a += [f"--features={f}" for f in self.features]
        a += self.cargo_args
        if phase == "test":
            a += self.test_args
        return a

    def env(self, env):
        """Expected environment of children, from that of cargo-mutants."""
        e = dict(env)
        e["INSTA_UPDATE"], e["INSTA_FORCE_PASS"] = "no", "0"
        if self.cap:
            if "CARGO_ENCODED_RUSTFLAGS" in env:
                old = [env["CARGO_ENCODED_RUSTFLAGS"]] if env["CARGO_ENCODED_RUSTFLAGS"] else []
            else:
                old = [x for x in env.get("RUSTFLAGS", "").split(" ") if x]
            e["CARGO_ENCODED_RUSTFLAGS"] = "\x1f".join(old + ["--cap-lints=warn"])
        return e


JOBVARS = ("CARGO_MAKEFLAGS", "MAKEFLAGS", "MFLAGS")


def check_env(eff, given, e, jobs, what):
    want = eff.env(given)
    got = dict(e["env"])
    if eff.jobserver:
        if "--jobserver-auth=" not in got.get("CARGO_MAKEFLAGS", "") and "--jobserver-auth=" not in got.get("MAKEFLAGS", ""):
            raise Violation(f"no job server is passed to the child; {what}")
        if "tokens" not in e:
            raise Violation(f"the job server passed to the child is not open; {what}")
        # the stand-in never takes a token, so they are all there; by default one for each CPU
        if e["tokens"] != eff.tasks if eff.tasks is not None else not 1 <= e["tokens"] <= os.cpu_count():
            raise Violation(f"the job server has {e['tokens']} tokens, should be {eff.tasks or 'one per CPU'}; {what}")
        for k in JOBVARS:
            got.pop(k, None)
            want.pop(k, None)
    if got != want:
        df = {k: (want.get(k), got.get(k)) for k in set(got) | set(want) if got.get(k) != want.get(k)}
        raise Violation(f"environment of the child (expected, actual): {df}; {what}")
