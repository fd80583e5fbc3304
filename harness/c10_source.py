"""C10: without in-place mode the source tree is never changed and copies are removed."""
from common import *
import lab

ID = "C10"
RULE = ("A case is a generated tree or workspace with additional files of various modes, links (relative, absolute, dangling, to files and directories, also as source files, "
        "manifest or cargo configuration) and hard links; options and outcomes; children that damage their copy; and a fault: none, an error, a signal or a kill at the n-th "
        "file-changing call for generated n, a signal from a child, or standard output closed by its reader after some lines. The whole source tree (contents, modes, links, modification times, inodes) and the files its links "
        "point to are compared before and after. Non-trivial when at least one mutant was tested or the fault was reached.")
CASES = {"quick": 1500, "thorough": 30000}
ERR = [28, 5, 13, 30, 24]
MODES = [0o644, 0o755, 0o444, 0o600, 0o640, 0o700, 0o400]


def gen_extra(d, files):
    """[[kind, path, data/target, mode]]: things besides the sources."""
    ex = []
    names = ["notes.txt", "data/a.bin", "data/deep/er/x", "README.md", "tests/t.rs", "assets/é.txt", ".hidden", "build/out.txt", "data/run.sh", "empty"]
    for _ in d.many(0, 5):
        ex.append(["file", d.choice(names), d.choice(["", "hello\n", "x" * 5000, "\r\nbin\x00"]), d.choice(MODES)])
    for _ in d.many(0, 3):
        ex.append(["link", d.choice(["ln1", "data/ln2", "src/ln3", "ln4"]),
                   d.choice(["notes.txt", "data", "nowhere", "@ROOT/notes.txt", "@ROOT/data", "@OUT/ext.txt", "@OUT", "..", ".", "@ROOT", "src"]), 0])
    if d.chance(30):
        ex.append(["hard", "hard.txt", "@OUT/h.txt", 0])
    if d.chance(20):
        ex.append(["hard", "src/hard2.txt", "@ROOT/hh.txt", 0])
    mods = [p for p in files if p.endswith(".rs") and not p.endswith(("lib.rs", "main.rs"))]
    if mods and d.chance(35):
        ex.append(["srclink", d.choice(mods), d.choice(["rel", "@ROOT", "@OUT"]), 0])
    if d.chance(30):
        ex.append(["manifest", "Cargo.toml", d.choice(["plain", "plain", "rel", "@ROOT", "@OUT"]), d.choice(MODES)])
    if d.chance(25):
        ex.append(["config", ".cargo/config.toml", d.choice(["plain", "@ROOT", "@OUT", "dir"]), 0])
    for _ in d.many(0, 3):
        ex.append(["file", d.choice([".git/HEAD", ".git/config", "mutants.out.old/x", "target/debug/y", "mutants.out.tmp/x", "mutants.out.old.1/x",
                                           "mutants.out.lock", "Cargo.toml.orig", "Cargo.toml.tmp", "src/lib.rs.orig", "src/lib.rs.tmp", "src/lib.rs.bak",
                                           "mutants.log", "lock.json", "cargo-mutants-x.tmp/y"]), "z", 0o644])
    if d.chance(20):
        ex.append(["file", ".gitignore", d.choice(["target\n", "*.txt\n", "data/\n"]), 0o644])
    return ex


def gen(d):
    case = lab.gen_run(d, timeouts=True, vto=True)
    case["extra"] = gen_extra(d, case["files"])
    fs = sorted(case["files"])
    pre = []
    for _ in d.many(1, 4):
        b = []
        if d.chance(30):
            f = d.choice(fs)
            b.append(d.choice(["artifacts", "noise", f"write {f} garbage", f"rm {f}", "rmdir src", "write target/x/y z", f"chmod {f} 000", f"chmod {f} 444",
                               "write newfile x", "rm Cargo.toml", "write data/a.bin changed", "rm notes.txt", "write hard.txt changed", "chmod hard.txt 777", "rmdir data"]))
        pre.append(" ".join(b))
    case["pre"] = pre
    case["fault"] = d.weighted([(6, None), (6, "errno"), (3, "signal"), (2, "kill"), (2, "stubsig"), (1, "list"), (1, "head")])
    if case["fault"] in ("errno", "signal", "kill"):
        case["shuffle"] = False
    case["bad"] = d.choice(["build exit 101", "test exit 1", "test signal 9", "test hang", "test hang", "test child hang"]) if not case["skip"] and not case["check"] and d.chance(15) else None
    case["at"] = d.below(1000)
    case["err"] = d.choice(ERR)
    case["sig"] = d.choice([2, 15, 1])
    case["outsub"] = None if case["outdir"] else d.choice([None, None, None, "results", "data", "src"])
    case["opt"] = [o for o in ["--gitignore=false", "--copy-vcs=true"] if d.chance(20)]
    return case


def build(c, case):
    ext = c.base / "ext"
    ext.mkdir()
    (ext / "ext.txt").write_text("outside")

    def expand(t):
        return t.replace("@ROOT", str(c.root)).replace("@OUT", str(ext))
    files = dict(case["files"])
    for kind, path, data, mode in case["extra"]:
        p = c.root / path
        if kind in ("file", "manifest", "config"):
            try:
                p.parent.mkdir(parents=True, exist_ok=True)
            except (FileExistsError, NotADirectoryError):
                continue
        if kind == "file" and not p.exists() and not p.is_symlink():
            p.write_bytes(data.encode("latin1"))
            os.chmod(p, mode)
        elif kind == "link" and not p.exists() and not p.is_symlink():
            p.parent.mkdir(parents=True, exist_ok=True)
            os.symlink(expand(data), p)
        elif kind == "hard" and not p.exists() and p.parent.is_dir():
            t = Path(expand(data))
            if not t.exists():
                t.write_text("hard link content\n")
            os.link(t, p)
        elif kind == "srclink":
            if not p.exists():
                continue
            if data == "@OUT":
                t = ext / "src.rs"
            else:
                t = c.root / "shared" / "real.rs"
                t.parent.mkdir(exist_ok=True)
            os.rename(p, t)
            os.symlink(os.path.relpath(t, p.parent) if data == "rel" else str(t), p)
        elif kind == "manifest":
            text = '[package]\nname = "p"\nversion = "0.1.0"\n\n[dependencies]\nother = { path = "../other" }\n'
            if len(case["pk"]) > 1:
                text = '[workspace]\nmembers = ["a", "b", "c"]\n\n[patch.crates-io]\nother = { path = "../other" }\n'
            if data == "plain":
                p.write_text(text)
                os.chmod(p, mode)
            else:
                t = (ext if data == "@OUT" else c.root) / "real-manifest.toml"
                t.write_text(text)
                os.symlink("real-manifest.toml" if data == "rel" else str(t), p)
        elif kind == "config":
            text = 'paths = ["../y"]\n'
            if data == "plain":
                p.write_text(text)
            elif data == "dir":
                p.parent.rmdir()
                (ext / "dotcargo").mkdir()
                (ext / "dotcargo" / "config.toml").write_text(text)
                os.symlink(str(ext / "dotcargo"), p.parent)
            else:
                t = (ext if data == "@OUT" else c.root) / "real-config.toml"
                t.write_text(text)
                os.symlink(str(t), p)
    for p in case["files"]:
        if not (c.root / p).exists():
            return None
    return ext


def shot(c, ext, outsub):
    s = {k: v for k, v in snapshot(c.root, times=True).items()}
    pre = [outsub + "/mutants.out"] if outsub else ["mutants.out"]
    drop = [x for x in s if any(x == q or x.startswith(q + "/") or x == q + ".old" or x.startswith(q + ".old/") for q in pre) or x == outsub]
    for x in drop:
        del s[x]
    s.update({"../ext/" + k: v for k, v in snapshot(ext, times=True).items()})
    return s


def run_case(case, ctx):
    c = ctx.case()
    try:
        for p, t in case["files"].items():
            c.write(p, t)
        for pk in case["pk"]:
            c.package(pk[0], rel=pk[1], targets=[tuple(t) for t in pk[2]], version=pk[3])
        ext = build(c, case)
        if ext is None:
            return dict(nontrivial=False)
        c.finish()
        sel, args = lab.argv_of(case, c)
        args += case["opt"]
        outsub = case["outsub"]
        if outsub:
            args += ["-o", str(c.root / outsub)]
        before = shot(c, ext, outsub)

        def compare(what):
            after = shot(c, ext, outsub)
            if after != before:
                ch = []
                for p in sorted(set(before) | set(after)):
                    a, b = before.get(p), after.get(p)
                    if a != b:
                        ch.append((p, "created" if a is None else "removed" if b is None else "content" if a[:3] != b[:3] else "rewritten", str(b)[:300]))
                raise Violation(f"the source tree was changed: {ch[:4]}; {what}")
        if case["fault"] == "list":
            for a in (["--list"], ["--list-files"], ["--list", "--json", "--diff"]):
                r = c.run(*a, *sel)
                compare(f"args {a} {sel}; {r}")
                if (c.root / "mutants.out").exists() or list(c.tmp.iterdir()):
                    raise Violation(f"listing created mutants.out or a temporary directory; args {a}; {r}")
            ctx.label("list")
            return dict(nontrivial=True)
        ms = lab.mutants(c, case["files"], *sel)
        oc = lab.assign(ms, case["oc"])
        base = tree_digest(lab.rs_bytes(case["files"]))
        extra = [f"{base} {ph} exit 0" for ph in ("build", "test", "check")] if not any(m["digest"] == base for m in ms) else []
        if case["bad"] and extra:
            # the baseline fails, at times by exceeding an explicit limit
            ph, _, b = case["bad"].partition(" ")
            extra.insert(0, f"{base} {ph} " + b.replace("hang", f"adv {lab.HUGE} hang"))
            if "hang" in b and not any(a.startswith("--timeout") for a in args):
                args.append("--timeout=60")
            ctx.label("baseline " + case["bad"])
        if case["fault"] == "stubsig" and ms:
            m = ms[case["at"] % len(ms)]
            extra.insert(0, f"{m['digest']} {'check' if case['check'] else 'build'} sigparent {case['sig']} " + ("child hang" if case["at"] % 2 else "exit 0"))
        lab.plan(c, ms, oc, case["check"], case["pre"], extra, real=case["jobs"] > 1 and not case["vto"])
        env = None
        if case["fault"] in ("errno", "signal", "kill"):
            r = c.run(*args, warp=40, env=c.faulty())
            compare(f"args {' '.join(args)}; {r}")
            n = c.opcount()
            err = {"errno": case["err"], "signal": -case["sig"], "kill": 0}[case["fault"]]
            c.clear_events()
            for q in c.tmp.iterdir():
                rmtree(q)
            env = c.faulty(at=1 + case["at"] * n // 1000, err=err, log=True)
        r = c.run(*args, warp=40, env=env, head=case["at"] % 5 if case["fault"] == "head" else None)
        op = c.fault_op() if env else None
        what = f"fault {case['fault']} {case['err'] if case['fault'] == 'errno' else ''} {op}; args {' '.join(args)}; {len(ms)} mutants; {r}"
        compare(what)
        evs = c.events()
        root = os.path.realpath(c.root)
        for e in evs:
            if e["cwd"] == root or e["cwd"].startswith(root + "/"):
                raise Violation(f"cargo {' '.join(e['argv'])} was run in the source tree, without --in-place; {what}")
        for p in c.stub_pids():
            os.kill(p, 9)
        undeleted = case["fault"] == "kill" or case["lvl"] == "--leak-dirs" or (case["fault"] == "errno" and op and op[0] in ("unlinkat", "rmdir", "unlink"))
        if not undeleted and list(c.tmp.iterdir()):
            raise Violation(f"temporary directories are left: {[str(p) for p in c.tmp.iterdir()]}; {what}")
        ctx.label("fault " + str(case["fault"]) + (" " + op[0] if op else ""))
        for k in {e[0] + (" " + e[2] if e[0] in ("srclink", "manifest", "config") else "") for e in case["extra"] if e[0] != "file"}:
            ctx.label("tree with " + k)
        return dict(nontrivial=bool(op) or any(e["digest"] != base for e in evs))
    finally:
        c.cleanup()
