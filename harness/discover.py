"""Compare the mutants found in generated files with those known by construction."""
from common import *
import rsgen


def run(case, ctx, genres, extra=()):
    c = ctx.case()
    try:
        names = []
        for i, f in enumerate(case["files"]):
            n = "src/lib.rs" if i == 0 else f"src/b{i}.rs"
            names.append(n)
            c.write(n, f["text"])
        c.package("p", targets=[("lib", "src/lib.rs")] + [("bin", n) for n in names[1:]])
        c.finish()
        args = []
        for e in case.get("errors", []):
            args += [f"--error={e}"]
        for s in case.get("skip_args", []):
            args += s
        if case.get("config"):
            c.write(".cargo/mutants.toml", case["config"])
        ms = c.list_json(*args, *extra)
        total = 0
        # targets are visited in order of their path
        want_order = sorted(names, key=lambda n: n.split("/"))
        got_files = []
        for m in ms:
            if not got_files or got_files[-1] != m["file"]:
                got_files.append(m["file"])
        for n, f in zip(names, case["files"]):
            want = [e for e in f["expect"] if e[0] in genres]
            got = [rsgen.observed(m) for m in ms if m["file"] == n and m["genre"] in genres]
            # function spans are informative only for mutants that have a function
            if want != got:
                def key(e):
                    return json.dumps(e)
                w, g = [key(x) for x in want], [key(x) for x in got]
                missing = [x for x in w if x not in g]
                extra_ = [x for x in g if x not in w]
                raise Violation(f"{n}: mutants differ\n missing: {missing[:6]}\n unexpected: {extra_[:6]}\n"
                                f" (expected {len(w)}, found {len(g)}; order differs: {sorted(w) == sorted(g)})\n--- {n}\n{f['text'][:3000]}")
            total += len(want)
        if set(got_files) - set(names):
            raise Violation(f"mutants in unknown files {got_files}")
        return total, ms
    finally:
        c.cleanup()
