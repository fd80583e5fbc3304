"""Shared machinery: building, running cargo-mutants against a stub cargo, the search engine,
replays and evidence."""
import base64, hashlib, json, multiprocessing as mp, os, random, shutil, signal, subprocess, sys, threading, time, traceback, zlib
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("VP_REPO", "/repo"))
MARKER = "/* ~ changed by cargo-mutants ~ */"


class Violation(Exception):
    """The property is broken on this case."""


class HarnessError(Exception):
    """The check could not do its job (build failure, watchdog); not a verdict."""


def build_env():
    env = {
        "PATH": "/root/.cargo/bin:" + os.environ.get("PATH", "/usr/bin:/bin"),
        "HOME": os.environ.get("HOME", "/root"),
        "RUSTUP_TOOLCHAIN": "stable-x86_64-unknown-linux-gnu",
        "CARGO_NET_OFFLINE": "true",
        "CARGO_TERM_COLOR": "never",
        "CARGO_INCREMENTAL": "1",
        "CARGO_PROFILE_DEV_DEBUG": "line-tables-only",
        "RUSTC_WRAPPER": "",
    }
    for k in ("RUSTUP_HOME", "CARGO_HOME"):
        if k in os.environ:
            env[k] = os.environ[k]
    return env


class Tools:
    """Paths of the things built for this run."""

    def __init__(self, scratch):
        self.scratch = Path(scratch)
        self.bin = self.scratch / "bin" / "cargo-mutants"
        self.fakecargo = self.scratch / "bin" / "fakecargo"
        self.shim = self.scratch / "bin" / "shim.so"


def build(scratch):
    t = Tools(scratch)
    (t.scratch / "bin").mkdir(parents=True, exist_ok=True)
    env = build_env()
    pre = os.environ.get("VP_BIN")  # development aid only; registered commands never set it
    if pre:
        shutil.copy2(pre, t.bin)
    else:
        # Cargo decides freshness by mtime; make sure that the current tree is what gets built.
        try:
            os.utime(REPO / "src" / "main.rs")
        except OSError:
            pass
        r = subprocess.run(
            ["cargo", "build", "--offline", "--locked", "--bin", "cargo-mutants", "--message-format=json-render-diagnostics"],
            cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=800)
        if r.returncode != 0:
            raise HarnessError("building /repo failed:\n" + r.stderr[-4000:])
        exe = None
        for line in r.stdout.splitlines():
            try:
                m = json.loads(line)
            except ValueError:
                continue
            if m.get("reason") == "compiler-artifact" and m.get("executable") and m["target"]["name"] == "cargo-mutants":
                exe = m["executable"]
        if not exe:
            raise HarnessError("no cargo-mutants executable was built")
        shutil.copy2(exe, t.bin)
    for cmd in (
        ["rustc", "--edition=2021", "-O", "-Cdebuginfo=0", "-Cstrip=symbols", "-o", str(t.fakecargo), str(VERIF / "harness/stub/fakecargo.rs")],
        ["gcc", "-O2", "-shared", "-fPIC", "-o", str(t.shim), str(VERIF / "harness/shim.c"), "-ldl"],
    ):
        r = subprocess.run(cmd, env=env, capture_output=True, text=True, cwd=t.scratch)
        if r.returncode != 0:
            raise HarnessError(" ".join(cmd) + ":\n" + r.stderr[-3000:])
    return t


def fnv(*parts):
    h = hashlib.sha256("\x00".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], "big")


# ---------------------------------------------------------------------------
# Generated source trees


class Case:
    """One scratch area: src/ (the user's tree), fake/ (stub control), tmp/ (TMPDIR), out/."""

    def __init__(self, tools, base):
        self.tools = tools
        self.base = Path(base)
        if self.base.exists():
            rmtree(self.base)
        self.src = self.base / "src"
        self.fake = self.base / "fake"
        self.tmp = self.base / "tmp"
        for d in (self.src, self.fake / "snap", self.tmp):
            d.mkdir(parents=True)
        self.packages = []
        self.root = self.src

    def stub_pids(self, wait=0.0):
        """Processes of the stub that are still running (hanging ones record themselves)."""
        try:
            pids = [int(x) for x in (self.fake / "pids").read_text().split()]
        except (OSError, ValueError):
            return []
        t_end = time.time() + wait
        while True:
            live = []
            for p in pids:
                try:
                    with open(f"/proc/{p}/stat") as f:
                        st = f.read().rsplit(")", 1)[1].split()[0]
                    if st not in "ZX" and os.path.samefile(f"/proc/{p}/exe", self.tools.fakecargo):
                        live.append(p)
                except OSError:
                    pass
            if not live or time.time() >= t_end:
                return live
            time.sleep(0.01)

    def cleanup(self):
        for p in self.stub_pids():
            try:
                os.kill(p, signal.SIGKILL)
            except OSError:
                pass
        rmtree(self.base)

    def write(self, rel, data, mode=None):
        p = self.root / rel
        p.parent.mkdir(parents=True, exist_ok=True)
        if isinstance(data, str):
            data = data.encode()
        p.write_bytes(data)
        if mode is not None:
            os.chmod(p, mode)
        return p

    def set_root(self, name):
        """Make the source root a directory of this name under base/."""
        self.root = self.base / name
        self.root.mkdir(parents=True, exist_ok=True)

    def package(self, name="p", rel="", version="0.1.0", targets=None, default=True):
        self.packages.append(dict(name=name, rel=rel, version=version, default=default,
                                  targets=targets or [("lib", "src/lib.rs")]))

    def finish(self, root_manifest=None, wsroot=None):
        """Write metadata for the stub, and manifests where there are none."""
        root = str(self.root)
        pk = []
        for p in self.packages:
            pdir = self.root / p["rel"] if p["rel"] else self.root
            mani = pdir / "Cargo.toml"
            if not mani.exists():
                mani.parent.mkdir(parents=True, exist_ok=True)
                mani.write_text(f'[package]\nname = "{p["name"]}"\nversion = "{p["version"]}"\nedition = "2021"\n')
            pid = f"path+file://{pdir}#{p['name']}@{p['version']}"
            targets = []
            for i, (kind, path) in enumerate(p["targets"]):
                targets.append(dict(kind=[kind], crate_types=["bin" if kind not in ("lib", "proc-macro", "cdylib", "dylib", "rlib", "staticlib") else kind],
                                    name=f"{p['name']}_{i}", src_path=os.path.normpath(str(pdir / path)), edition="2021", doc=True, doctest=True, test=True))
            pk.append(dict(name=p["name"], version=p["version"], id=pid, license=None, license_file=None, description=None,
                           source=None, dependencies=[], targets=targets, features={}, manifest_path=str(mani), metadata=None,
                           publish=None, authors=[], categories=[], keywords=[], readme=None, repository=None, homepage=None,
                           documentation=None, edition="2021", links=None, default_run=None, rust_version=None))
        md = dict(packages=pk, workspace_members=[p["id"] for p in pk],
                  workspace_default_members=[p["id"] for p, q in zip(pk, self.packages) if q["default"]],
                  resolve=None, target_directory=root + "/target", version=1, workspace_root=root, metadata=None)
        if root_manifest is not None:
            self.write("Cargo.toml", root_manifest)
        elif not (self.root / "Cargo.toml").exists():
            self.write("Cargo.toml", "[workspace]\nmembers = [%s]\n" % ", ".join('"%s"' % p["rel"] for p in self.packages))
        (self.fake / "metadata.json").write_text(json.dumps(md))
        (self.fake / "wsroot").write_text(wsroot or root)

    def plan(self, lines):
        (self.fake / "plan").write_text("\n".join(lines) + "\n")

    def env(self, extra=None, warp=None):
        env = {"PATH": "/usr/bin:/bin", "HOME": str(self.base), "TMPDIR": str(self.tmp), "CARGO": str(self.tools.fakecargo),
               "FAKE_DIR": str(self.fake), "LANG": "C.UTF-8"}
        if warp:
            # short polling sleeps, and a clock that the stub can advance
            zero(self.fake / "clock")
            env["LD_PRELOAD"] = str(self.tools.shim)
            env["VP_SLEEP"] = str(warp)
            env["VP_CLOCK"] = str(self.fake / "clock")
        if extra:
            for k, v in extra.items():
                if v is None:
                    env.pop(k, None)
                else:
                    env[k] = v
        return env

    def faulty(self, at=None, err=0, log=False, match=None, skip="/debug.log", reads=False, sticky=False):
        """Environment that counts file-changing calls and injects a fault into the at-th one."""
        zero(self.fake / "count")
        e = {"LD_PRELOAD": str(self.tools.shim), "VP_COUNT": str(self.fake / "count")}
        if match:
            e["VP_MATCH"] = str(match)
        if skip:
            e["VP_SKIP"] = skip
        if reads:
            e["VP_READS"] = "1"
        if sticky:
            e["VP_STICKY"] = "1"
        if at is not None:
            e["VP_FAULT"] = f"{at}:{err}"
            if err < 0:
                e["VP_SIGMARK"] = str(self.fake / "signalled")
        if log:
            (self.fake / "oplog").write_bytes(b"")
            e["VP_OPLOG"] = str(self.fake / "oplog")
        return e

    def opcount(self):
        return int.from_bytes((self.fake / "count").read_bytes(), "little")

    def fault_op(self):
        """(name, path) of the call that got the fault, if it was reached (needs log=True)."""
        for name, path in self.oplog():
            if name.startswith("!"):
                return name[1:], path
        return None

    def oplog(self):
        return [l.partition(" ")[::2] for l in (self.fake / "oplog").read_text(errors="replace").splitlines()]

    def run(self, *args, cwd=None, env=None, warp=None, timeout=90, d=True, tty=None, head=None):
        """Run cargo-mutants to completion. Returns R(code, out, err). With tty=columns, stderr is a terminal of that width.
        With head=n, whoever reads standard output closes it after n lines."""
        argv = [str(self.tools.bin), "mutants"]
        if d:
            argv += ["-d", str(self.root)]
        argv += [str(a) for a in args]
        if tty:
            return self.run_tty(argv, cwd, dict(self.env(env, warp), TERM="xterm"), timeout, tty)
        if head is not None:
            with open(self.base / "head.err", "w+b") as err:
                p = subprocess.Popen(argv, cwd=cwd or self.base, env=self.env(env, warp), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=err)
                late = []
                timer = threading.Timer(timeout, lambda: (late.append(1), p.kill()))
                timer.start()
                out = b"".join(p.stdout.readline() for _ in range(head))
                p.stdout.close()
                p.wait()
                timer.cancel()
                if late:
                    raise Violation("cargo-mutants did not finish in %d s: %s" % (timeout, " ".join(argv)))
                err.seek(0)
                return R(p.returncode, out.decode("utf8", "replace"), err.read().decode("utf8", "replace"), argv)
        try:
            p = subprocess.run(argv, cwd=cwd or self.base, env=self.env(env, warp), stdin=subprocess.DEVNULL,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Violation("cargo-mutants did not finish in %d s: %s" % (timeout, " ".join(argv)))
        return R(p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace"), argv)

    def run_tty(self, argv, cwd, env, timeout, columns):
        import fcntl, pty, struct, termios, threading
        m, s = pty.openpty()
        err = []

        def drain():
            try:
                while b := os.read(m, 65536):
                    err.append(b)
            except OSError:
                pass
        try:
            fcntl.ioctl(s, termios.TIOCSWINSZ, struct.pack("HHHH", 24, columns, 0, 0))
            p = subprocess.Popen(argv, cwd=cwd or self.base, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=s)
            t = threading.Thread(target=drain, daemon=True)
            t.start()
            try:
                out, _ = p.communicate(timeout=timeout)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                raise Violation("cargo-mutants did not finish in %d s: %s" % (timeout, " ".join(argv)))
        finally:
            os.close(s)
        t.join(2)
        os.close(m)
        return R(p.returncode, out.decode("utf8", "replace"), b"".join(err).decode("utf8", "replace"), argv)

    def popen(self, *args, cwd=None, env=None, warp=None, d=True):
        argv = [str(self.tools.bin), "mutants"]
        if d:
            argv += ["-d", str(self.root)]
        argv += [str(a) for a in args]
        self.outf = open(self.base / "stdout.txt", "wb")
        self.errf = open(self.base / "stderr.txt", "wb")
        return subprocess.Popen(argv, cwd=cwd or self.base, env=self.env(env, warp), stdin=subprocess.DEVNULL,
                                stdout=self.outf, stderr=self.errf, start_new_session=True)

    def list_json(self, *args, diff=True, **kw):
        r = self.run("--list", "--json", *(["--diff"] if diff else []), *args, **kw)
        if r.code != 0:
            raise Violation(f"--list --json failed with exit {r.code}: {r.err[-2000:]}{r.out[-500:]}")
        try:
            return json.loads(r.out)
        except ValueError as e:
            raise Violation(f"--list --json is not JSON: {e}: {r.out[:500]}")

    def events(self):
        """Stub events, starts joined with ends, in start order."""
        p = self.fake / "events"
        if not p.exists():
            return []
        starts, ends = [], {}
        for line in p.read_text().splitlines(keepends=True):
            if not line.endswith("\n"):
                continue  # still being written, by a process that outlives the run
            try:
                e = json.loads(line)
            except ValueError:
                continue
            if e["ev"] == "signal":
                self.signal_t = e["t"]
                continue
            if e["ev"] == "start":
                starts.append(e)
            else:
                ends[e["id"]] = e
        for s in starts:
            s["end"] = ends.get(s["id"])
        starts.sort(key=lambda e: e["t"])
        return starts

    def clear_events(self):
        for n in ("events", "pids", "barrier", "signalled"):
            try:
                (self.fake / n).unlink()
            except FileNotFoundError:
                pass

    def snap(self, ent):
        """Content of a file as seen by the stub; ent is a tree entry."""
        return (self.fake / "snap" / f"{ent[2]}-{ent[3]}").read_bytes()

    def outjson(self, name, outdir=None):
        return json.loads(((outdir or self.root) / "mutants.out" / name).read_text())

    def outlines(self, name, outdir=None):
        p = (outdir or self.root) / "mutants.out" / name
        return p.read_text().splitlines() if p.exists() else None


def zero(p):
    """An 8-byte counter file, set to 0 without truncating it (another process may have it mapped)."""
    with open(p, "r+b" if p.exists() else "wb") as f:
        f.write(bytes(8))


class R:
    def __init__(self, code, out, err, argv):
        self.code, self.out, self.err, self.argv = code, out, err, argv

    def __repr__(self):
        return f"exit {self.code}\nstdout: {self.out[-1500:]}\nstderr: {self.err[-1500:]}"


def rmtree(p):
    p = Path(p)
    if not p.exists() and not p.is_symlink():
        return

    def onerr(fn, path, exc):
        try:
            os.chmod(os.path.dirname(path), 0o755)
            os.chmod(path, 0o755)
            fn(path)
        except OSError:
            pass
    shutil.rmtree(p, onerror=onerr)


def snapshot(root, skip=(), times=False):
    """{relpath: (kind, mode, content/target)} of everything under root (bytes paths decoded)."""
    out = {}
    root = str(root)
    for dp, dns, fns in os.walk(root):
        rel = os.path.relpath(dp, root)
        rel = "" if rel == "." else rel + "/"
        for n in list(dns):
            if rel == "" and n in skip:
                dns.remove(n)
                continue
            p = os.path.join(dp, n)
            if os.path.islink(p):
                dns.remove(n)
                out[rel + n] = ("l", 0, os.readlink(p))
            else:
                out[rel + n] = ("d", os.lstat(p).st_mode & 0o7777, "")
        for n in fns:
            if rel == "" and n in skip:
                continue
            p = os.path.join(dp, n)
            if os.path.islink(p):
                out[rel + n] = ("l", 0, os.readlink(p))
            else:
                st = os.lstat(p)
                if not (st.st_mode & 0o170000) == 0o100000:
                    out[rel + n] = ("o", st.st_mode, "")
                    continue
                with open(p, "rb") as f:
                    out[rel + n] = ("f", st.st_mode & 0o7777, f.read()) + ((st.st_mtime_ns, st.st_ino) if times else ())
    return out


def tree_digest(files):
    """Digest used by the stub: files is {relpath: bytes} of *.rs outside target/mutants.out."""
    s = ""
    for p in sorted(files, key=lambda x: x.encode()):
        s += f"{p}:{zlib.crc32(files[p]) & 0xffffffff:08x}:{len(files[p])}\n"
    return f"{zlib.crc32(s.encode()) & 0xffffffff:08x}"


def crc(data):
    return f"{zlib.crc32(data) & 0xffffffff:08x}"


# ---------------------------------------------------------------------------
# Source text positions, as users see them: 1-based lines, 1-based character columns


def norm(text):
    return text.replace("\r\n", "\n")


def offset(lines, line, col):
    """Character offset of a 1-based (line, col), where lines keep their '\\n'."""
    return sum(len(l) for l in lines[: line - 1]) + col - 1


def apply_span(text, span, new):
    lines = text.split("\n")
    lines = [l + "\n" for l in lines[:-1]] + [lines[-1]]
    a = offset(lines, span["start"]["line"], span["start"]["column"])
    b = offset(lines, span["end"]["line"], span["end"]["column"])
    if not (0 <= a <= b <= len(text)):
        raise Violation(f"span {span} does not lie in the file")
    return text[:a] + new + text[b:]


def extract_span(text, span):
    lines = text.split("\n")
    lines = [l + "\n" for l in lines[:-1]] + [lines[-1]]
    a = offset(lines, span["start"]["line"], span["start"]["column"])
    b = offset(lines, span["end"]["line"], span["end"]["column"])
    return text[a:b]


def mutated(text, m):
    return apply_span(norm(text), m["span"], m["replacement"] + " " + MARKER)


def mutant_name(m, text=None, line_col=True):
    """Reconstruct the documented name of a mutant from its JSON description."""
    loc = f"{m['file']}:{m['span']['start']['line']}:{m['span']['start']['column']}: " if line_col else m["file"] + ": "
    g = m["genre"]
    if g == "FnValue":
        f = m["function"]
        d = "replace " + f["function_name"] + ((" " + f["return_type"]) if f["return_type"] else "") + " with " + m["replacement"]
    elif g == "MatchArmGuard":
        d = "replace match guard with " + m["replacement"]
    elif g == "MatchArm":
        d = "delete match arm"
    else:
        orig = extract_span(norm(text), m["span"])
        d = ("delete " + orig) if not m["replacement"] else f"replace {orig} with {m['replacement']}"
        if m["function"]:
            d += " in " + m["function"]["function_name"]
    return loc + d


# ---------------------------------------------------------------------------
# Engine


class Ctx:
    """Handed to run_case: makes scratch cases and collects what was covered."""

    def __init__(self, tools, base):
        self.tools = tools
        self.base = Path(base)
        self.n = 0
        self.labels = {}

    def case(self):
        self.n += 1
        return Case(self.tools, self.base / f"c{self.n % 4}")

    def label(self, name, k=1):
        self.labels[name] = self.labels.get(name, 0) + k


def jkey(case):
    return hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()


SHRINK_BUDGET = float(os.environ.get("VP_SHRINK", 60))  # seconds; set only in development


class Draw:
    """Source of choices: uniformly random, or replaying (a variation of) a recorded sequence.

    Every choice is an integer in 0..n-1 where smaller is simpler, so a failing case is shrunk by
    shortening and lowering its sequence."""

    def __init__(self, rng=None, prefix=None):
        self.rng = rng
        self.prefix = prefix
        self.log = []

    def below(self, n):
        i = len(self.log)
        if self.prefix is not None:
            v = min(self.prefix[i], n - 1) if i < len(self.prefix) else 0
        else:
            v = self.rng.randrange(n)
        self.log.append(v)
        if len(self.log) > 200000:
            raise HarnessError("generator does not end")
        return v

    def int(self, a, b):
        return a + self.below(b - a + 1)

    def choice(self, xs):
        return xs[self.below(len(xs))]

    def chance(self, pct):
        """True with about pct percent; shrinks to False."""
        return self.below(100) >= 100 - pct

    def many(self, lo, hi):
        return range(self.int(lo, hi))

    def weighted(self, pairs):
        k = self.below(sum(w for w, _ in pairs))
        for w, x in pairs:
            if k < w:
                return x
            k -= w


def shrink(choices, fails, deadline):
    """Shorten and lower the sequence while it still fails. fails(seq) -> sequence used, or None."""
    cur = list(choices)
    improved = True

    def attempt(seq):
        nonlocal cur
        used = fails(seq)
        if used is not None and (len(used), used) < (len(cur), cur):
            cur = used
            return True
        return False
    while improved and time.time() < deadline:
        improved = False
        k = max(1, len(cur) // 2)
        while k >= 1 and time.time() < deadline:
            i = len(cur) - k
            while i >= 0 and time.time() < deadline:
                if attempt(cur[:i] + cur[i + k:]):
                    improved = True
                    i = min(i, len(cur) - k)
                else:
                    i -= max(1, k)
            k //= 2
        k = max(1, len(cur) // 4)
        while k >= 1 and time.time() < deadline:
            for i in range(0, len(cur), k):
                if time.time() >= deadline:
                    break
                if any(cur[i:i + k]) and attempt(cur[:i] + [0] * len(cur[i:i + k]) + cur[i + k:]):
                    improved = True
            k //= 2
        for i in range(len(cur)):
            if time.time() >= deadline:
                break
            if i < len(cur) and cur[i] > 1 and attempt(cur[:i] + [cur[i] // 2] + cur[i + 1:]):
                improved = True
    return cur


def judge(mod, case, ctx):
    """Run one case. What the program leaves behind is read as documented; if that is impossible (missing files, other formats), it is a violation."""
    try:
        return mod.run_case(case, ctx)
    except (FileNotFoundError, NotADirectoryError, IsADirectoryError, ValueError, LookupError, TypeError, AttributeError) as e:
        tb = traceback.format_exc()[-1500:]
        raise Violation(f"what the run left behind cannot be read as documented: {type(e).__name__}: {e}\n{tb}") from e


def worker(mod, idx, nworkers, total, seed, tools, scratch, q, stop, budget):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    base = Path(scratch) / f"w{idx}"
    base.mkdir(parents=True, exist_ok=True)
    ctx = Ctx(tools, base)
    evals, nontriv, samples, fail, notes = 0, set(), [], None, []
    t_end = time.time() + budget
    res = dict(idx=idx, error=None)
    try:
        for i in range(idx, total, nworkers):
            if stop.is_set() or time.time() > t_end:
                break
            d = Draw(rng=random.Random(fnv(seed, mod.ID, i)))
            case = mod.gen(d)
            evals += 1
            try:
                info = judge(mod, case, ctx) or {}
            except Violation as v:
                again = retry(mod, case, ctx)
                if again is None:
                    # Seen once and never again with the same input: not a verdict. The search goes on.
                    if len(notes) < 5:
                        notes.append("not reproduced: " + str(v)[:500])
                    continue
                stop.set()
                fail = first = (case, again)
                deadline = time.time() + SHRINK_BUDGET

                def fails(seq):
                    nonlocal fail, evals
                    dd = Draw(prefix=seq)
                    try:
                        c2 = mod.gen(dd)
                        evals += 1
                        judge(mod, c2, ctx)
                    except Violation as v2:
                        fail = (c2, str(v2))
                        return dd.log
                    except (HarnessError, RecursionError):
                        return None
                    return None
                if getattr(mod, "SHRINK", True):
                    labels = dict(ctx.labels)
                    best = shrink(d.log, fails, deadline)
                    ctx.labels = labels
                    c2 = mod.gen(Draw(prefix=best))
                    if c2 != fail[0]:
                        fails(best)
                break
            if info.get("nontrivial", True):
                k = info.get("key") or jkey(case)
                if k not in nontriv:
                    nontriv.add(k)
                    if len(samples) < 3 and len(json.dumps(case)) < 6000:
                        samples.append(info.get("sample", case))
    except HarnessError as e:
        res["error"] = "HarnessError: " + str(e)
    except BaseException:
        res["error"] = traceback.format_exc()[-4000:]
    res.update(evals=evals, nontriv=list(nontriv), samples=samples, labels=ctx.labels, fail=[fail, first] if fail else [], notes=notes)
    rmtree(base)
    q.put(res)


def load_known():
    p = VERIF / "known_findings.json"
    if not p.exists():
        return []
    return json.loads(p.read_text()).get("findings", [])


def run_property(mod, tier, seed, replay=None):
    t0 = time.time()
    scratch = Path(os.environ.get("VP_SCRATCH", "/tmp")) / f"vp-{mod.ID}-{os.getpid()}"
    scratch.mkdir(parents=True, exist_ok=True)
    code = 2
    try:
        tools = build(scratch)
        if hasattr(mod, "prepare"):
            mod.prepare(tools, tier)
        if replay:
            case = json.loads(Path(replay).read_text())["case"]
            ctx = Ctx(tools, scratch / "replay")
            try:
                judge(mod, case, ctx)
                print(f"replay: property {mod.ID} holds on this case")
                return 0
            except Violation as v:
                print(str(v))
                print(f"VIOLATION property={mod.ID} replay={replay}")
                return 1
        code = search(mod, tier, seed, tools, scratch, t0)
        return code
    finally:
        rmtree(scratch)


def confirm(mod, case, tools, scratch):
    return retry(mod, case, Ctx(tools, scratch / "confirm"))


def retry(mod, case, ctx, tries=8):
    for _ in range(tries):
        try:
            judge(mod, case, ctx)
        except Violation as v:
            return str(v)
    return None


def search(mod, tier, seed, tools, scratch, t0):
    nworkers = getattr(mod, "WORKERS", 8)
    total = max(1, int(mod.CASES[tier] * float(os.environ.get("VP_SCALE", 1))))  # scaled only in development
    budget = {"quick": 600, "thorough": 6 * 3600}[tier]
    budget = getattr(mod, "BUDGET", {}).get(tier, budget)
    ctxm = mp.get_context("fork")
    q, stop = ctxm.Queue(), ctxm.Event()
    agg = dict(evals=0, nontriv=set(), samples=[], labels={}, notes=[])
    fails = []
    errors = []

    # Fixed regression cases first (previous counterexamples and hand-picked corners).
    ctx = Ctx(tools, scratch / "fixed")
    known = [k for k in load_known() if k.get("property") == mod.ID and k.get("status") == "open"]
    for case in (mod.fixed_cases(tier) if hasattr(mod, "fixed_cases") else []):
        agg["evals"] += 1
        try:
            info = judge(mod, case, ctx) or {}
            if info.get("nontrivial", True):
                agg["nontriv"].add(info.get("key", jkey(case)))
        except Violation as v:
            fails.append((case, str(v)))
            break
    for k, v in ctx.labels.items():
        agg["labels"][k] = agg["labels"].get(k, 0) + v

    if not fails:
        procs = [ctxm.Process(target=worker, args=(mod, i, nworkers, total, seed, tools, scratch, q, stop, budget))
                 for i in range(nworkers)]
        for p in procs:
            p.start()
        got = 0
        while got < nworkers:
            try:
                r = q.get(timeout=5)
            except Exception:
                if not any(p.is_alive() for p in procs) and q.empty():
                    errors.append("a worker died")
                    break
                continue
            got += 1
            agg["evals"] += r["evals"]
            agg["nontriv"].update(r["nontriv"])
            agg["samples"] += r["samples"]
            for k, v in r["labels"].items():
                agg["labels"][k] = agg["labels"].get(k, 0) + v
            agg["notes"] += r["notes"]
            if r["error"]:
                errors.append(r["error"])
            fails += [tuple(f) for f in r["fail"]]
        for p in procs:
            p.join(10)
            if p.is_alive():
                p.kill()

    violation = None
    fails.sort(key=lambda f: len(json.dumps(f[0])))
    for case, msg in fails:
        again = confirm(mod, case, tools, scratch)
        if again:
            violation = (case, again)
            break
        agg["notes"].append("not reproduced: " + msg[:500])
    rdir = VERIF / "replays"
    if violation:
        rdir.mkdir(exist_ok=True)
        rp = rdir / f"{mod.ID}-{jkey(violation[0])[:12]}.json"
        rp.write_text(json.dumps(dict(property=mod.ID, message=violation[1], case=violation[0]), indent=1))
        print(violation[1][:6000])
        print(f"VIOLATION property={mod.ID} replay={rp}")
    rng = random.Random(fnv(seed, "samples"))
    samples = agg["samples"]
    if len(samples) > 5:
        samples = rng.sample(samples, 5)
    ev = dict(property=mod.ID, tier=tier, seed=seed, level=getattr(mod, "LEVEL", "exploration"),
              coverage=dict(evaluations=agg["evals"], distinct_nontrivial=len(agg["nontriv"]), rule=mod.RULE,
                            samples=samples or ["(no sample)"], classes=dict(sorted(agg["labels"].items()))),
              assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=round(time.time() - t0, 2),
              violations=1 if violation else 0)
    if agg["notes"]:
        ev["coverage"]["notes"] = agg["notes"]
    (VERIF / "evidence").mkdir(exist_ok=True)
    (VERIF / "evidence" / f"{mod.ID}.json").write_text(json.dumps(ev, indent=1))
    print(f"{mod.ID} [{tier}, seed {seed}]: {agg['evals']} cases, {len(agg['nontriv'])} distinct non-trivial, "
          f"{time.time() - t0:.1f} s; {json.dumps(ev['coverage']['classes'])}")
    for n in agg["notes"]:
        print("note:", n)
    if violation:
        return 1
    for k in known:
        # each listed defect is shown by its own input
        try:
            judge(mod, k["case"], ctx)
            print(f"note: listed finding no longer fails: {k['what']}")
        except Violation:
            print(f"KNOWN-FINDING: property={mod.ID} {k['what']}")
    if errors:
        print("ERROR:", errors[0], file=sys.stderr)
        return 2
    return 0
