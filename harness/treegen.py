"""Small multi-file trees: modules with simple functions whose mutants are cheap to enumerate."""
import os
import rsgen

FN = [
    "pub fn {n}(a: u32, b: u32) -> u32 {{\n    a + b\n}}\n",
    "pub fn {n}(a: u32) -> bool {{\n    a == 1\n}}\n",
    "pub fn {n}() -> bool {{ true }}\n",
    "fn {n}() {{\n    println!(\"x\");\n}}\n",
    "pub fn {n}(s: &str) -> String {{\n    s.to_uppercase()\n}}\n",
    "pub fn {n}(a: i64) -> Result<u32, ()> {{\n    if a > 0 {{\n        Ok(1)\n    }} else {{\n        Err(())\n    }}\n}}\n",
    "impl S{n} {{\n    pub fn {n}(&self) -> Option<u8> {{\n        Some(3)\n    }}\n\n    fn twice(&self, x: usize) -> usize {{\n        x * 2\n    }}\n}}\n",
    "impl std::fmt::Debug for T{n} {{\n    fn fmt(&self, f: &mut Formatter) -> fmt::Result {{\n        write!(f, \"x\")\n    }}\n}}\n",
    "pub trait Tr{n} {{\n    fn {n}(&self) -> u8;\n    fn dflt(&self) -> i32 {{\n        -1\n    }}\n}}\n",
    "pub fn {n}(x: u8) -> u8 {{\n    match x {{\n        1 if x > 0 => 2,\n        3 => 4,\n        _ => 5,\n    }}\n}}\n",
    "pub fn {n}(a: bool, b: bool) -> bool {{\n    !a && b\n}}\n",
]
SIMPLE = [FN[0], FN[1], FN[2], FN[4], FN[10]]
MANY = "pub fn {n}() -> Option<(u8, i32)> {{\n    None.or(Some((1, 2)))\n}}\n"  # many mutants at one place
FNAMES = ["alpha", "beta", "gamma", "double_up", "is_even", "load", "save", "new_thing", "run", "fmt2", "naïve"]
MODS = ["main2", "console", "net", "db", "t1", "t_two", "foo", "bar", "util", "deep"]


def bulk(lo, n):
    """n functions with four mutants each."""
    return "".join(f"pub fn bulk{i}(a: u32) -> u32 {{\n    a + {i}\n}}\n" for i in range(lo, lo + n))


def body(d, lo=0, hi=3, menu=FN, sep=True):
    out = []
    for _ in d.many(lo, hi):
        out.append(d.choice(menu).format(n=d.choice(FNAMES)))
    return ("\n" if sep else "").join(out)


def tree(d, prefix="src", tops=("lib.rs",), maxfiles=10, menu=FN, lo=0, hi=3):
    """{path: text} of a module tree; all files are reachable."""
    files = {}
    left = [maxfiles]

    def mk(path, childdir, depth):
        decl = ""
        used = set()
        files[path] = ""
        if depth > 0:
            for _ in d.many(0, 3):
                n = d.choice(MODS)
                if n in used or left[0] <= 0:
                    continue
                used.add(n)
                a, b = f"{childdir}/{n}.rs", f"{childdir}/{n}/mod.rs"
                if a in files or b in files:
                    continue
                left[0] -= 1
                decl += f"mod {n};\n"
                if d.chance(40):
                    mk(b, f"{childdir}/{n}", depth - 1)
                else:
                    mk(a, f"{childdir}/{n}", depth - 1)
        files[path] = decl + "\n" + body(d, lo, hi, menu)
    for t in tops:
        mk(f"{prefix}/{t}", f"{prefix}/{os.path.dirname(t)}".rstrip("/"), 3)
    return files
