// A stand-in for `cargo`, selected through $CARGO, that plays scripted outcomes and records
// exactly what it was asked to do and what tree it saw.
//
// Control directory: $FAKE_DIR
//   metadata.json      printed by `metadata`
//   wsroot             text: workspace root dir, printed by `locate-project --workspace`
//   plan               lines: "<digest|*> <phase|*> <behaviour...>", first match wins
//   log/<n>.*          events
//   snap/              saved blobs of *.rs files by digest
use std::collections::BTreeMap;
use std::env;
use std::fs;
use std::io::Write;
use std::os::unix::fs::{MetadataExt, PermissionsExt};
use std::path::{Path, PathBuf};
use std::process::{exit, Command};
use std::time::{Duration, SystemTime, UNIX_EPOCH};

fn crc_table() -> [u32; 256] {
    let mut t = [0u32; 256];
    for i in 0..256u32 {
        let mut c = i;
        for _ in 0..8 {
            c = if c & 1 != 0 { 0xEDB88320 ^ (c >> 1) } else { c >> 1 };
        }
        t[i as usize] = c;
    }
    t
}

fn crc32(t: &[u32; 256], data: &[u8]) -> u32 {
    let mut c = !0u32;
    for &b in data {
        c = t[((c ^ b as u32) & 0xff) as usize] ^ (c >> 8);
    }
    !c
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn now() -> u128 {
    SystemTime::now().duration_since(UNIX_EPOCH).unwrap().as_micros()
}

fn find_up(start: &Path) -> Option<PathBuf> {
    let mut d = Some(start);
    while let Some(p) = d {
        let c = p.join("Cargo.toml");
        if c.is_file() {
            return Some(c);
        }
        d = p.parent();
    }
    None
}

struct Ent {
    kind: char,
    mode: u32,
    crc: u32,
    len: u64,
    target: String,
}

fn walk(root: &Path, rel: &str, t: &[u32; 256], skip_target: bool, out: &mut BTreeMap<String, Ent>) {
    let dir = if rel.is_empty() { root.to_path_buf() } else { root.join(rel) };
    let rd = match fs::read_dir(&dir) {
        Ok(r) => r,
        Err(_) => return,
    };
    for e in rd.flatten() {
        let name = e.file_name().to_string_lossy().into_owned();
        let r = if rel.is_empty() { name.clone() } else { format!("{rel}/{name}") };
        if skip_target && rel.is_empty() && (name == "target" || name == "mutants.out" || name == "mutants.out.old") {
            continue;
        }
        let md = match fs::symlink_metadata(e.path()) {
            Ok(m) => m,
            Err(_) => continue,
        };
        if md.file_type().is_symlink() {
            let target = fs::read_link(e.path()).map(|p| p.to_string_lossy().into_owned()).unwrap_or_default();
            out.insert(r, Ent { kind: 'l', mode: 0, crc: 0, len: 0, target });
        } else if md.is_dir() {
            out.insert(r.clone(), Ent { kind: 'd', mode: md.mode() & 0o7777, crc: 0, len: 0, target: String::new() });
            walk(root, &r, t, skip_target, out);
        } else if md.is_file() {
            let data = fs::read(e.path()).unwrap_or_default();
            out.insert(r, Ent { kind: 'f', mode: md.mode() & 0o7777, crc: crc32(t, &data), len: data.len() as u64, target: String::new() });
        } else {
            out.insert(r, Ent { kind: 'o', mode: 0, crc: 0, len: 0, target: String::new() });
        }
    }
}

fn append(path: &Path, line: &str) {
    let mut f = fs::OpenOptions::new().create(true).append(true).open(path).unwrap();
    f.write_all(line.as_bytes()).unwrap();
}

extern "C" {
    fn getpgrp() -> i32;
    fn ioctl(fd: i32, req: u64, ...) -> i32;
    fn kill(pid: i32, sig: i32) -> i32;
    fn signal(sig: i32, h: usize) -> usize;
}

static mut ONTERM: i32 = 0;

extern "C" fn on_term(_: i32) {
    unsafe {
        kill(std::os::unix::process::parent_id() as i32, ONTERM);
    }
    std::thread::sleep(Duration::from_millis(120));
    exit(1);
}

fn main() {
    let args: Vec<String> = env::args().skip(1).collect();
    let fake = match env::var("FAKE_DIR") {
        Ok(f) => PathBuf::from(f),
        Err(_) => exit(99),
    };
    let cmd = args.first().map(String::as_str).unwrap_or("");
    let cwd = env::current_dir().unwrap();
    if let (true, Ok(real)) = (matches!(cmd, "metadata" | "locate-project"), env::var("REAL_CARGO")) {
        let st = Command::new(real).args(&args).env_remove("LD_PRELOAD").status().unwrap();
        exit(st.code().unwrap_or(99));
    }
    match cmd {
        "-V" | "--version" => {
            println!("cargo 1.84.0 (fake)");
            return;
        }
        "locate-project" => {
            let ws = args.iter().any(|a| a == "--workspace");
            if ws {
                if let Ok(w) = fs::read_to_string(fake.join("wsroot")) {
                    println!("{{\"root\":{}}}", esc(&format!("{}/Cargo.toml", w.trim_end_matches('\n'))));
                    return;
                }
            }
            match find_up(&cwd) {
                Some(p) => println!("{{\"root\":{}}}", esc(&p.to_string_lossy())),
                None => {
                    eprintln!("no Cargo.toml");
                    exit(101);
                }
            }
            return;
        }
        "metadata" => {
            let m = fs::read(fake.join("metadata.json")).unwrap();
            std::io::stdout().write_all(&m).unwrap();
            return;
        }
        _ => {}
    }
    // The "--child" mode: a grandchild that just hangs, and writes its pid.
    let table = crc_table();
    let no_run = args.iter().any(|a| a == "--no-run");
    let phase = match cmd {
        "check" => "check",
        "test" | "nextest" => {
            if no_run {
                "build"
            } else {
                "test"
            }
        }
        "build" => "build",
        "fake-hang" => {
            std::thread::sleep(Duration::from_secs(600));
            return;
        }
        _ => "unknown",
    };
    let t_start = now();
    let mut tree = BTreeMap::new();
    walk(&cwd, "", &table, true, &mut tree);
    // digest over *.rs files
    let mut dg = String::new();
    let mut rsfiles = Vec::new();
    for (p, e) in &tree {
        if p.ends_with(".rs") {
            dg.push_str(&format!("{}:{:08x}:{}\n", p, e.crc, e.len));
            rsfiles.push(p.clone());
        }
    }
    let digest = format!("{:08x}", crc32(&table, dg.as_bytes()));
    let pid = std::process::id();
    let id = format!("{}-{}", t_start, pid);
    let snapdir = fake.join("snap");
    for p in &rsfiles {
        let data = fs::read(cwd.join(p)).unwrap_or_default();
        let h = format!("{:08x}-{}", crc32(&table, &data), data.len());
        let dst = snapdir.join(h);
        if !dst.exists() {
            let tmp = snapdir.join(format!("tmp-{id}"));
            if fs::write(&tmp, &data).is_ok() {
                let _ = fs::rename(&tmp, &dst);
            }
        }
    }
    if fs::metadata(fake.join("fulltree")).is_ok() {
        let keep = fake.join("tree");
        let d = keep.join(&id);
        let _ = fs::create_dir_all(&d);
        for f in ["Cargo.toml", ".cargo/config.toml"] {
            if let Ok(data) = fs::read(cwd.join(f)) {
                let _ = fs::write(d.join(f.replace('/', "__")), data);
            }
        }
    }
    // behaviour
    let plan = fs::read_to_string(fake.join("plan")).unwrap_or_default();
    let mut behaviour = "exit 0".to_string();
    let mut matched = false;
    for line in plan.lines() {
        let mut it = line.splitn(3, ' ');
        let (d, p, b) = (it.next().unwrap_or(""), it.next().unwrap_or(""), it.next().unwrap_or(""));
        if (d == "*" || d == digest) && (p == "*" || p == phase) {
            behaviour = b.to_string();
            matched = true;
            break;
        }
    }
    let mut o = String::from("{\"ev\":\"start\"");
    o.push_str(&format!(",\"id\":{},\"pid\":{},\"pgrp\":{},\"t\":{},\"phase\":{}", esc(&id), pid, unsafe { getpgrp() }, t_start, esc(phase)));
    o.push_str(&format!(",\"digest\":{},\"matched\":{},\"behaviour\":{}", esc(&digest), matched, esc(&behaviour)));
    o.push_str(&format!(",\"cwd\":{}", esc(&cwd.to_string_lossy())));
    o.push_str(&format!(",\"argv\":[{}]", args.iter().map(|a| esc(a)).collect::<Vec<_>>().join(",")));
    let envs: Vec<String> = env::vars_os()
        .map(|(k, v)| (k.to_string_lossy().into_owned(), v.to_string_lossy().into_owned()))
        .map(|(k, v)| format!("{}:{}", esc(&k), esc(&v)))
        .collect();
    o.push_str(&format!(",\"env\":{{{}}}", envs.join(",")));
    // Tokens available in the job server, if there is one, and which pipe it is.
    for var in ["CARGO_MAKEFLAGS", "MAKEFLAGS"] {
        let flags = env::var(var).unwrap_or_default();
        let fd = flags.split("--jobserver-auth=").nth(1).and_then(|x| x.split(',').next()).and_then(|x| x.parse::<i32>().ok());
        let pipe = fd.and_then(|r| fs::read_link(format!("/proc/self/fd/{r}")).ok());
        if let (Some(r), Some(pipe)) = (fd, pipe) {
            let mut n: i32 = -1;
            unsafe {
                ioctl(r, 0x541B, &mut n as *mut i32);
            }
            o.push_str(&format!(",\"tokens\":{n},\"jobserver\":{}", esc(&pipe.to_string_lossy())));
            break;
        }
    }
    let tr: Vec<String> = tree
        .iter()
        .map(|(p, e)| format!("{}:[\"{}\",{},\"{:08x}\",{},{}]", esc(p), e.kind, e.mode, e.crc, e.len, esc(&e.target)))
        .collect();
    o.push_str(&format!(",\"tree\":{{{}}}", tr.join(",")));
    if fake.join("fulltree").exists() {
        // everything, also top-level target and mutants.out
        let mut full = BTreeMap::new();
        walk(&cwd, "", &table, false, &mut full);
        let tr: Vec<String> = full
            .iter()
            .map(|(p, e)| format!("{}:[\"{}\",{},\"{:08x}\",{},{}]", esc(p), e.kind, e.mode, e.crc, e.len, esc(&e.target)))
            .collect();
        o.push_str(&format!(",\"full\":{{{}}}", tr.join(",")));
    }
    o.push_str("}\n");
    append(&fake.join("events"), &o);

    println!("fakecargo {} {} {}", phase, digest, id);
    if fake.join("signalled").exists() {
        // The run was interrupted earlier: this process stays, with a child, until it is ended.
        behaviour = "child hang".to_string();
    }
    // Only ever change files inside the scratch area of this case.
    let safe = fake.parent().map_or(false, |b| cwd.starts_with(b));
    let words: Vec<&str> = behaviour.split(' ').collect();
    let mut code = 0;
    let mut i = 0;
    while i < words.len() {
        match words[i] {
            "exit" => {
                code = words[i + 1].parse().unwrap();
                i += 1;
            }
            "sleep" => {
                std::thread::sleep(Duration::from_millis(words[i + 1].parse().unwrap()));
                i += 1;
            }
            "adv" => {
                // advance the clock that cargo-mutants sees
                use std::os::unix::fs::FileExt;
                let ms: i64 = words[i + 1].parse().unwrap();
                if let Ok(f) = fs::OpenOptions::new().read(true).write(true).open(fake.join("clock")) {
                    let mut b = [0u8; 8];
                    f.read_exact_at(&mut b, 0).unwrap();
                    let v = i64::from_le_bytes(b) + ms * 1_000_000;
                    f.write_all_at(&v.to_le_bytes(), 0).unwrap();
                }
                i += 1;
            }
            "sigmark" => {
                let _ = fs::write(fake.join("signalled"), b"");
            }
            "deaf" => {
                // like a job in the background: only a request to terminate ends it, or its children
                unsafe {
                    signal(1, 1);
                    signal(2, 1);
                    signal(3, 1);
                }
            }
            "onterm" => {
                // takes a while to stop, in which another signal is sent
                unsafe {
                    ONTERM = words[i + 1].parse().unwrap();
                    signal(15, on_term as extern "C" fn(i32) as usize);
                }
                i += 1;
            }
            "lurk" => {
                // wait a while; if the run is interrupted meanwhile, hang
                let t0 = now();
                let ms: u128 = words[i + 1].parse().unwrap();
                while now() - t0 < ms * 1000 {
                    if fake.join("signalled").exists() {
                        append(&fake.join("pids"), &format!("{}\n", pid));
                        std::thread::sleep(Duration::from_secs(600));
                    }
                    std::thread::sleep(Duration::from_millis(2));
                }
                i += 1;
            }
            "sigparent" => {
                let s: i32 = words[i + 1].parse().unwrap();
                append(&fake.join("events"), &format!("{{\"ev\":\"signal\",\"id\":{},\"t\":{}}}\n", esc(&id), now()));
                unsafe {
                    kill(std::os::unix::process::parent_id() as i32, s);
                }
                i += 1;
            }
            "write" | "chmod" if !safe => i += 2,
            "rm" | "rmdir" if !safe => i += 1,
            "artifacts" if !safe => (),
            "rmdir" => {
                let _ = fs::remove_dir_all(words[i + 1]);
                i += 1;
            }
            "write" => {
                // write (or create) a file, relative to the build directory
                let f = Path::new(words[i + 1]);
                if let Some(d) = f.parent() {
                    let _ = fs::create_dir_all(d);
                }
                let _ = fs::write(f, words[i + 2].replace("_", " "));
                i += 2;
            }
            "artifacts" => {
                // Like real cargo: leave build products and a lock file.
                let _ = fs::create_dir_all("target/debug/deps");
                let _ = fs::write("target/debug/deps/out.bin", b"x");
                if !Path::new("Cargo.lock").exists() {
                    let _ = fs::write("Cargo.lock", b"# fake\nversion = 3\n");
                }
            }
            "child" => {
                // start a grandchild in the same process group which hangs
                let me = env::current_exe().unwrap();
                if let Ok(c) = Command::new(me).arg("fake-hang").spawn() {
                    append(&fake.join("pids"), &format!("{}\n", c.id()));
                }
            }
            "waitfile" => {
                // owned schedule: wait until the driver creates a file
                let f = fake.join(words[i + 1]);
                let t0 = now();
                while !f.exists() && now() - t0 < 120_000_000 {
                    std::thread::sleep(Duration::from_millis(3));
                }
                i += 1;
            }
            "barrier" => {
                let n: usize = words[i + 1].parse().unwrap();
                i += 1;
                let b = fake.join("barrier");
                append(&b, "x");
                let t0 = now();
                while fs::metadata(&b).map(|m| m.len()).unwrap_or(0) < n as u64 && now() - t0 < 300_000 {
                    std::thread::sleep(Duration::from_millis(2));
                }
            }
            "hang" => {
                append(&fake.join("pids"), &format!("{}\n", pid));
                std::thread::sleep(Duration::from_secs(600));
            }
            "noise" => {
                println!("\u{1b}[31mnoise\u{1b}[0m \u{e9}\u{4e2d} *** result: Success");
                eprintln!("warning: something");
                let mut so = std::io::stdout();
                let _ = so.write_all(b"\xff\xfe not utf8 \n");
            }
            "flood" => {
                // more than a pipe holds, on both streams
                let mut so = std::io::stdout();
                let mut se = std::io::stderr();
                for i in 0..1500 {
                    let _ = writeln!(so, "flood out {} {}", i, "o".repeat(60));
                    let _ = writeln!(se, "flood err {} {}", i, "e".repeat(60));
                }
                let _ = so.flush();
            }
            "chmod" => {
                let f = words[i + 1];
                let m = u32::from_str_radix(words[i + 2], 8).unwrap();
                let _ = fs::set_permissions(f, fs::Permissions::from_mode(m));
                i += 2;
            }
            "rm" => {
                let _ = fs::remove_file(words[i + 1]);
                i += 1;
            }
            "signal" => {
                let s: i32 = words[i + 1].parse().unwrap();
                unsafe {
                    signal(s, 0);
                    append(&fake.join("events"), &format!("{{\"ev\":\"end\",\"id\":{},\"t\":{},\"code\":{}}}\n", esc(&id), now(), -s));
                    kill(pid as i32, s);
                }
                std::thread::sleep(Duration::from_secs(5));
            }
            _ => {}
        }
        i += 1;
    }
    append(&fake.join("events"), &format!("{{\"ev\":\"end\",\"id\":{},\"t\":{},\"code\":{}}}\n", esc(&id), now(), code));
    exit(code);
}
