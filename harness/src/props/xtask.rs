//! C22 clean task, C23 coverage tasks. The real binary (path in VERIF_XTASK)
//! runs as an unprivileged user in a scratch directory, with recording
//! stand-ins for cargo and grcov.
use crate::ensure;
use crate::engine::*;
use std::collections::BTreeMap;
use std::fs;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::fs::{chown, MetadataExt, PermissionsExt};
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

const USER: u32 = 64123;
static NEXT: AtomicU64 = AtomicU64::new(0);

/// Trouble with the surroundings is no verdict: stop the worker with an error.
fn broken(what: &str) -> ! {
    eprintln!("cannot set up the scratch directory: {what}");
    std::process::exit(2)
}
struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Self {
        let base = std::env::var("VERIF_SCRATCH").unwrap_or_else(|_| broken("VERIF_SCRATCH is not set"));
        let p = Path::new(&base).join(format!("case-{}-{}", std::process::id(), NEXT.fetch_add(1, Ordering::Relaxed)));
        fs::create_dir_all(&p).unwrap_or_else(|e| broken(&e.to_string()));
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}
fn root() -> bool {
    fs::metadata("/proc/self").map(|m| m.uid() == 0).unwrap_or(false)
}
fn own(p: &Path) {
    if root() {
        chown(p, Some(USER), Some(USER)).unwrap_or_else(|e| broken(&e.to_string()));
    }
}
fn mkdir(p: &Path) {
    if !p.is_dir() {
        fs::create_dir(p).unwrap_or_else(|e| broken(&format!("{}: {e}", p.display())));
        own(p);
    }
}
fn put(p: &Path, text: &str) {
    fs::write(p, text).unwrap_or_else(|e| broken(&format!("{}: {e}", p.display())));
    own(p);
}
/// Names are written with one character per byte, so that names that are not
/// valid UTF-8 can be generated, compared and shown.
fn os(name: &str) -> std::ffi::OsString {
    std::ffi::OsString::from_vec(name.chars().map(|c| c as u32 as u8).collect())
}
fn shown(p: &Path) -> String {
    p.as_os_str().as_bytes().iter().map(|b| *b as char).collect()
}
/// Everything below `d`, relative path -> content ("/" for directories, "-> x"
/// for links, which are not followed).
fn tree(d: &Path) -> BTreeMap<String, String> {
    fn go(base: &Path, d: &Path, out: &mut BTreeMap<String, String>) {
        let Ok(rd) = fs::read_dir(d) else { return };
        for e in rd.flatten() {
            let p = e.path();
            let rel = shown(p.strip_prefix(base).unwrap_or(&p));
            if let Ok(to) = fs::read_link(&p) {
                out.insert(rel, format!("-> {}", to.display()));
            } else if p.is_dir() {
                out.insert(rel, "/".into());
                go(base, &p, out);
            } else {
                out.insert(rel, fs::read_to_string(&p).unwrap_or_default());
            }
        }
    }
    let mut out = BTreeMap::new();
    go(d, d, &mut out);
    out
}
struct Ran {
    ok: bool,
    out: String,
}
fn run(work: &Path, log: &Path, path: &Path, args: &[String], env: &[(&str, String)]) -> Ran {
    let bin = std::env::var("VERIF_XTASK").unwrap_or_else(|_| broken("VERIF_XTASK is not set"));
    let f = fs::File::create(log).unwrap_or_else(|e| broken(&e.to_string()));
    let g = f.try_clone().unwrap_or_else(|e| broken(&e.to_string()));
    let mut c = Command::new(bin);
    c.args(args).current_dir(work).env_clear().env("PATH", path).env("HOME", work);
    for (k, v) in env {
        c.env(k, v);
    }
    c.stdin(Stdio::null()).stdout(f).stderr(g);
    if root() {
        c.uid(USER).gid(USER);
    }
    let mut ch = c.spawn().unwrap_or_else(|e| broken(&format!("cannot start the tool: {e}")));
    let t = Instant::now();
    loop {
        match ch.try_wait() {
            Ok(Some(st)) => {
                return Ran { ok: st.success(), out: fs::read_to_string(log).unwrap_or_default() };
            }
            Ok(None) => {
                if t.elapsed() > Duration::from_secs(60) {
                    let _ = ch.kill();
                    broken("the tool did not finish within 60 s");
                }
                let ms = if t.elapsed() > Duration::from_millis(50) { 5 } else { 1 };
                std::thread::sleep(Duration::from_millis(ms));
            }
            Err(e) => broken(&e.to_string()),
        }
    }
}

// ---------------------------------------------------------------- C22

#[derive(Debug)]
struct C22 {
    args: Vec<String>,
    /// directories as paths, each below one before it
    dirs: Vec<String>,
    /// (directory index or none for the top, name)
    files: Vec<(usize, String)>,
    /// what is special about some of the files
    odd: Vec<(usize, Odd)>,
    /// links: (directory index or none for the top, name, target next to the tree)
    links: Vec<(usize, &'static str, &'static str)>,
    /// working directory: index into dirs + 1, 0 is the top of the tree
    cwd: usize,
}
#[derive(Debug, Clone, Copy, PartialEq)]
enum Odd {
    Empty,
    ReadOnly,
    NoRights,
    Long,
    /// a second name, outside of the tree
    Linked,
    Old,
}
const STEMS: &[&str] = &[
    "cargo-test-12-34", "a", "", ".hidden", "default", "x y", "[a]", "a?b", "*", "profraw", "x.profraw", "\u{c3}\u{bc}n\u{c3}\u{af}", "-f", "a.b.c", "{}", "!", "README",
    // not valid UTF-8
    "\u{ff}\u{fe}", "a\u{80}b", "\u{e9}t\u{e9}", "line\nbreak", "\t", "~", "a'b", "\"q\"",
];
const TAILS: &[&str] = &[
    ".profraw", ".profraw", ".profraw", ".profraw", ".profraw.bak", ".PROFRAW", ".profraw2", "profraw", ".profdata", ".rs", ".profra", ".profraw~", "_profraw", "", ".toml", ".profraw ",
];
const DIRS: &[&str] = &[
    "src", "target", ".git", "coverage", "deep", "profraw", "a.profraw.d", "x y", "[d]", "node_modules", ".cargo", "debug", "deps", "xtask", "grcov", "tests",
    "d.profraw", ".profraw", "\u{ff}d", "\u{c3}\u{a9}",
];
/// Names and targets of links, relative to the top of the tree.
const LINKS: &[&str] = &["link", "l.profraw", "z", ".l", "0.profraw"];
const TARGETS: &[&str] = &["neighbour", "neighbour/sub", "neighbour/n.profraw", "neighbour/keep.txt", "nowhere", "tree", "neighbour/none.profraw"];
fn gen_tree(s: &mut Src) -> (Vec<String>, Vec<(usize, String)>) {
    let mut dirs: Vec<String> = vec![];
    for _ in 0..s.range(0, 8) {
        let name = s.pick(DIRS);
        let parent = s.idx(dirs.len() + 1);
        let p = if parent == 0 { name.to_string() } else { format!("{}/{name}", dirs[parent - 1]) };
        if p.matches('/').count() < 6 && !dirs.contains(&p) {
            dirs.push(p);
        }
    }
    let mut files = vec![];
    for _ in 0..s.range(0, 14) {
        let d = s.idx(dirs.len() + 1);
        let name = format!("{}{}", s.pick(STEMS), s.pick(TAILS));
        let full = if d == 0 { name.clone() } else { format!("{}/{name}", dirs[d - 1]) };
        if !name.is_empty() && name != "." && !dirs.contains(&full) && !files.contains(&(d, name.clone())) {
            files.push((d, name));
        }
    }
    (dirs, files)
}
/// Grows a tree: a long chain of directories, or many files in one of them.
fn grow(s: &mut Src, dirs: &mut Vec<String>, files: &mut Vec<(usize, String)>) {
    if s.flag() {
        let parent = s.idx(dirs.len() + 1);
        let mut p = if parent == 0 { String::new() } else { format!("{}/", dirs[parent - 1]) };
        for k in 0..s.range(5, 45) {
            p += &format!("level{k}");
            dirs.push(p.clone());
            p += "/";
            if s.chance(1, 3) {
                files.push((dirs.len(), format!("f{}", s.pick(TAILS))));
            }
        }
        files.push((dirs.len(), "deepest.profraw".into()));
    } else {
        let d = s.idx(dirs.len() + 1);
        for k in 0..s.range(50, 400) {
            files.push((d, format!("many-{k}{}", s.pick(TAILS))));
        }
        // the longest name a file can have
        files.push((d, format!("{}.profraw", "n".repeat(247))));
    }
}
fn c22_gen(s: &mut Src, h: Head) -> C22 {
    let (mut dirs, mut files) = gen_tree(s);
    if h.mode == 1 {
        grow(s, &mut dirs, &mut files);
    }
    let args = match s.weighted(&[8, 1, 3, 1]) {
        0 => vec!["clean".to_string()],
        1 => vec![],
        2 => vec![s
            .pick(&[
                "CLEAN", "Clean", "cleanup", "clean ", "--clean", "", "help", "--help", "covers", "clea", "test", "coverage", "cover-only", "Cover", "-h", "all", "test_instr ",
                "**/*.rs", "cover_onl",
            ])
            .to_string()],
        _ => vec!["clean".to_string(), s.pick(&["xml", "all", "**/*", "-f", ".."]).to_string()],
    };
    let cwd = if s.chance(1, 2) { s.idx(dirs.len() + 1) } else { 0 };
    let mut links: Vec<(usize, &'static str, &'static str)> = vec![];
    for _ in 0..if s.chance(1, 3) { s.range(1, 3) } else { 0 } {
        let (d, name, to) = (s.idx(dirs.len() + 1), s.pick(LINKS), s.pick(TARGETS));
        let full = if d == 0 { name.to_string() } else { format!("{}/{name}", dirs[d - 1]) };
        let taken = dirs.contains(&full) || files.iter().any(|f| f.0 == d && f.1 == name) || links.iter().any(|l| l.0 == d && l.1 == name);
        if !taken {
            links.push((d, name, to));
        }
    }
    let mut odd = vec![];
    if !files.is_empty() {
        for _ in 0..s.range(0, 4) {
            odd.push((s.idx(files.len()), s.pick(&[Odd::Empty, Odd::ReadOnly, Odd::NoRights, Odd::Long, Odd::Linked, Odd::Old])));
        }
    }
    C22 { args, dirs, files, odd, links, cwd }
}
fn lay(top: &Path, dirs: &[String], files: &[(usize, String)]) {
    mkdir(top);
    for d in dirs {
        mkdir(&top.join(os(d)));
    }
    for (d, name) in files {
        let dir = if *d == 0 { top.to_path_buf() } else { top.join(os(&dirs[*d - 1])) };
        put(&dir.join(os(name)), &format!("content of {name} in {d}"));
    }
}
/// Stand-ins that record being called.
fn recorder(dir: &Path, name: &str, log: &Path) {
    let p = dir.join(name);
    fs::write(&p, format!("#!/bin/sh\necho \"{name} $*\" >> '{}'\nexit 0\n", log.display())).unwrap_or_else(|e| broken(&e.to_string()));
    let _ = fs::set_permissions(&p, fs::Permissions::from_mode(0o755));
}
fn c22_exec(c: &C22, cx: &mut Cx) -> Res {
    let sc = Scratch::new();
    let top = sc.0.join("tree");
    lay(&top, &c.dirs, &c.files);
    // a neighbour that belongs to the same user
    let side = sc.0.join("neighbour");
    lay(&side, &["sub".to_string()], &[(0, "n.profraw".into()), (1, "m.profraw".into()), (0, "keep.txt".into())]);
    let bin = sc.0.join("bin");
    mkdir(&bin);
    let log = sc.0.join("calls");
    put(&log, "");
    for n in ["cargo", "grcov", "rm", "git"] {
        recorder(&bin, n, &log);
    }
    for (d, name, to) in &c.links {
        let dir = if *d == 0 { top.clone() } else { top.join(os(&c.dirs[*d - 1])) };
        let p = dir.join(name);
        std::os::unix::fs::symlink(sc.0.join(to), &p).unwrap_or_else(|e| broken(&e.to_string()));
        if root() {
            std::os::unix::fs::lchown(&p, Some(USER), Some(USER)).unwrap_or_else(|e| broken(&e.to_string()));
        }
    }
    for (k, (f, what)) in c.odd.iter().enumerate() {
        let (d, name) = &c.files[*f];
        let p = if *d == 0 { top.join(os(name)) } else { top.join(os(&c.dirs[*d - 1])).join(os(name)) };
        let mode = |m| fs::set_permissions(&p, fs::Permissions::from_mode(m));
        let done = match what {
            Odd::Empty => fs::write(&p, ""),
            Odd::Long => fs::write(&p, "0123456789abcdef".repeat(20_000)),
            Odd::ReadOnly => mode(0o444),
            Odd::NoRights => mode(0),
            Odd::Linked => fs::hard_link(&p, side.join(format!("second-{k}"))),
            Odd::Old => fs::File::open(&p).and_then(|f| f.set_modified(std::time::SystemTime::UNIX_EPOCH)),
        };
        // only without root a file may have lost its rights before
        if let (Err(e), true) = (done, root()) {
            broken(&e.to_string());
        }
    }
    own(&sc.0);
    let cwd_rel = if c.cwd == 0 { String::new() } else { format!("{}/", c.dirs[c.cwd - 1]) };
    let work = if c.cwd == 0 { top.clone() } else { top.join(os(&c.dirs[c.cwd - 1])) };
    // the output of the tool is kept outside of the tree
    let before = tree(&top);
    let before_side = tree(&side);
    let r = run(&work, &sc.0.join("output"), &bin, &c.args, &[]);
    ensure!(r.ok, "the tool failed: {}", clip(&r.out, 400));
    let after = tree(&top);
    let cleaning = c.args.first().map(|a| a == "clean").unwrap_or(false);
    let (mut removed, mut kept_inside) = (0u64, 0u64);
    for (p, content) in &before {
        let name = p.rsplit('/').next().unwrap_or(p);
        let below = p.starts_with(&cwd_rel);
        let goes = cleaning && below && content != "/" && name.ends_with(".profraw");
        if goes && content.starts_with("-> ") {
            // a link of such a name may stay or go, its target may not
            continue;
        }
        match after.get(p) {
            None if goes => removed += 1,
            None => return Err(format!("{p:?} was removed by {:?} run in {cwd_rel:?}", c.args)),
            Some(_) if goes => return Err(format!("{p:?} was not removed by {:?} run in {cwd_rel:?}", c.args)),
            Some(x) => {
                ensure!(x == content, "{p:?} was changed");
                kept_inside += (below && content != "/") as u64;
            }
        }
    }
    for p in after.keys() {
        ensure!(before.contains_key(p), "{p:?} was created by {:?}", c.args);
    }
    ensure!(tree(&side) == before_side, "files outside of the working directory were touched");
    let calls = fs::read_to_string(&log).unwrap_or_default();
    ensure!(calls.is_empty(), "{:?} ran other programs: {}", c.args, clip(&calls, 300));
    cx.nontrivial = if cleaning { removed > 0 && kept_inside > 0 } else { before.keys().any(|p| p.ends_with(".profraw")) };
    cx.class_if(cleaning, "clean");
    cx.class_if(cleaning && c.odd.iter().any(|o| c.files[o.0].1.ends_with(".profraw")), "clean with empty, long, old, linked or protected profile files");
    cx.class_if(!cleaning, "no or unknown task");
    cx.class_if(c.cwd != 0, "run in a subdirectory");
    cx.class_if(c.links.iter().any(|l| cleaning && !l.2.contains('.') && l.2 != "nowhere"), "clean with links to directories");
    cx.class_if(cleaning && c.dirs.iter().any(|d| d.ends_with(".profraw")), "clean with directories named like profile files");
    cx.class_if(c.files.iter().any(|f| !f.1.is_ascii() && f.1.ends_with(".profraw")), "unusual bytes in a profile file's name");
    cx.class_if(c.dirs.iter().any(|d| d.matches('/').count() > 12), "more than 12 levels");
    cx.add("files removed", removed);
    cx.add("files kept", kept_inside);
    Ok(())
}
#[cfg(feature = "c22")]
pub static C22P: Prop = Prop {
    id: "C22",
    rule: "directory tree (also up to 50 levels or hundreds of files, and names that are not UTF-8) with names close to the pattern, links, empty, long, old, doubly named and write-protected files, working directory and task name; the real tool runs unprivileged in a scratch directory and the trees before and after, the neighbouring tree and calls of other programs are compared. Non-trivial: a clean that removes some and keeps some files below the working directory, or another task name with profile files present.",
    modes: &[
        Mode { code: 1, name: "deep and wide trees", quick: 1500, thorough: 18000, profiles: "release" },
        Mode { code: 0, name: "random", quick: 20000, thorough: 240000, profiles: "release" },
    ],
    drive: |s, cx, p| drive(s, cx, p, c22_gen, c22_exec),
};

// ---------------------------------------------------------------- C23

#[derive(Debug, Clone, Copy, PartialEq)]
enum Fail {
    None,
    Tests(u8),
    Version(u8),
    Report(u8),
    NoTool,
    DirIsFile,
    NoCargo,
    /// a profile file that cannot be removed
    Locked,
}
#[derive(Debug)]
struct C23 {
    task: &'static str,
    format: Option<String>,
    extra: Option<String>,
    fail: Fail,
    /// the report tool is named by the environment
    named: bool,
    dirs: Vec<String>,
    files: Vec<(usize, String)>,
    /// profile files the test run leaves behind (directory, name)
    made: Vec<(usize, String)>,
    old_report: bool,
    /// the variables that the test run sets have other values before
    preset: bool,
}
const FORMATS: &[&str] = &["xml", "cobertura", "lcov", "json", "covdir"];
fn gen_format(s: &mut Src) -> Option<String> {
    match s.weighted(&[2, 6, 3]) {
        0 => None,
        1 => {
            let f = s.pick(FORMATS);
            let how = s.below(3);
            Some(f.chars().map(|c| if how == 0 || (how == 1 && !s.flag()) { c } else { c.to_ascii_uppercase() }).collect())
        }
        _ => Some(s.pick(&["html", "", "xm", "lcov ", "jsonl", "cobertura+", "cov", "coveralls", "XMLX", "md", "tests.json"]).to_string()),
    }
}
fn c23_gen(s: &mut Src, _: Head) -> C23 {
    let task = ["cover", "cover_only", "test_instr"][s.weighted(&[5, 3, 1])];
    let format = gen_format(s);
    let extra = if format.is_some() && s.chance(1, 6) { Some(s.pick(FORMATS).to_string()) } else { None };
    // 0 stands for the end by a signal
    let code = s.pick(&[1u8, 2, 101, 255, 0]);
    let fail = match s.weighted(&[6, 2, 2, 2, 1, 1, 1, 1]) {
        0 => Fail::None,
        1 => Fail::Tests(code),
        2 => Fail::Version(code),
        3 => Fail::Report(code),
        4 => Fail::NoTool,
        5 => Fail::DirIsFile,
        6 => Fail::NoCargo,
        _ => Fail::Locked,
    };
    let (mut dirs, mut files) = gen_tree(s);
    // the stand-in writes into them from a shell script, so plain names only
    dirs.retain(|d| d.is_ascii() && !d.split('/').any(|x| x == "coverage"));
    files.retain(|(d, n)| {
        *d <= dirs.len() && !dirs.contains(&if *d == 0 { n.clone() } else { format!("{}/{n}", dirs[*d - 1]) })
    });
    // names are unique per directory again after the directories moved
    let mut seen = std::collections::HashSet::new();
    files.retain(|f| seen.insert(f.clone()));
    let made = (0..s.range(0, 4)).map(|k| (s.idx(dirs.len() + 1), format!("cargo-test-{k}-{}.profraw", s.idx(100)))).collect();
    C23 { task, format, extra, fail, named: s.chance(1, 3), dirs, files, made, old_report: s.chance(1, 3), preset: s.chance(1, 4) }
}
fn leave(code: u8) -> String {
    match code {
        0 => "kill -9 $$\n".into(),
        k => format!("exit {k}\n"),
    }
}
/// (format given to the report tool, report file)
fn wanted(f: &Option<String>) -> (&'static str, &'static str) {
    match f.as_deref().map(|x| x.to_ascii_lowercase()).as_deref() {
        Some("lcov") => ("lcov", "coverage/tests.lcov"),
        Some("json") | Some("covdir") => ("covdir", "coverage/tests.json"),
        _ => ("cobertura", "coverage/tests.xml"),
    }
}
fn script(p: &Path, body: &str) {
    fs::write(p, format!("#!/bin/sh\n{body}")).unwrap_or_else(|e| broken(&e.to_string()));
    let _ = fs::set_permissions(p, fs::Permissions::from_mode(0o755));
}
/// Value of an option given as `-t x`, `--long x` or `--long=x`.
fn option<'a>(args: &[&'a str], names: &[&str]) -> Option<&'a str> {
    let mut found = None;
    for (i, a) in args.iter().enumerate() {
        for n in names {
            if a == n {
                found = args.get(i + 1).copied();
            } else if let Some(v) = a.strip_prefix(n).and_then(|r| r.strip_prefix('=')) {
                found = Some(v);
            }
        }
    }
    found
}
fn c23_exec(c: &C23, cx: &mut Cx) -> Res {
    let sc = Scratch::new();
    let top = sc.0.join("tree");
    lay(&top, &c.dirs, &c.files);
    if c.fail == Fail::DirIsFile {
        put(&top.join("coverage"), "not a directory");
    } else if c.old_report {
        mkdir(&top.join("coverage"));
        put(&top.join(wanted(&c.format).1), "old report");
        put(&top.join("coverage/other.txt"), "kept");
    }
    let bin = sc.0.join("bin");
    mkdir(&bin);
    let log = sc.0.join("calls");
    put(&log, "");
    let l = log.display();
    let mut body = format!("{{ echo CALL cargo; for a in \"$@\"; do echo \"ARG $a\"; done; echo \"ENV $RUSTFLAGS|$LLVM_PROFILE_FILE|$CARGO_INCREMENTAL\"; }} >> '{l}'\n");
    for (d, n) in &c.made {
        let dir = if *d == 0 { ".".to_string() } else { c.dirs[*d - 1].clone() };
        body += &format!("echo made > '{dir}/{n}'\n");
    }
    if let Fail::Tests(k) = c.fail {
        body += &format!("echo FAILED >> '{l}'\n{}", leave(k));
    }
    body += "exit 0\n";
    if c.fail != Fail::NoCargo {
        script(&bin.join("cargo"), &body);
    }
    let mut body = format!(
        "if [ \"$#\" = 1 ] && [ \"$1\" = --version ]; then\necho VERSION >> '{l}'\n{}echo grcov 0.8\nexit 0\nfi\n",
        match c.fail {
            Fail::Version(k) => format!("echo FAILED >> '{l}'\n{}", leave(k)),
            _ => String::new(),
        }
    );
    body += &format!("{{ echo CALL grcov; for a in \"$@\"; do echo \"ARG $a\"; done; }} >> '{l}'\n");
    if let Fail::Report(k) = c.fail {
        body += &format!("echo FAILED >> '{l}'\n{}", leave(k));
    }
    // count the profile files that are still there, then write the report
    body += "out=; prev=; for a in \"$@\"; do case \"$prev\" in -o|--output-path) out=$a;; esac; case \"$a\" in --output-path=*) out=${a#--output-path=};; esac; prev=$a; done\n";
    body += &format!("n=0; for f in ./*.profraw; do [ -e \"$f\" ] && n=$((n+1)); done; echo \"SEEN $n\" >> '{l}'\n");
    body += &format!("echo new report > \"$out\" || {{ echo FAILED >> '{l}'; exit 3; }}\nexit 0\n");
    if c.fail != Fail::NoTool {
        script(&bin.join(if c.named { "other-grcov" } else { "grcov" }), &body);
    }
    if c.named {
        // a tool of the usual name that must not be used
        script(&bin.join("grcov"), &format!("echo WRONG >> '{l}'\nexit 0\n"));
    }
    let locked = top.join("locked");
    if c.fail == Fail::Locked {
        mkdir(&locked);
        put(&locked.join("l.profraw"), "locked");
        let _ = fs::set_permissions(&locked, fs::Permissions::from_mode(0o555));
    }
    own(&sc.0);
    let mut args = vec![c.task.to_string()];
    args.extend(c.format.iter().cloned());
    args.extend(c.extra.iter().cloned());
    let mut env: Vec<(&str, String)> = if c.named { vec![("GRCOV", bin.join("other-grcov").display().to_string())] } else { vec![] };
    if c.preset {
        env.extend([("RUSTFLAGS", "-Awarnings"), ("LLVM_PROFILE_FILE", "own-%p.txt"), ("CARGO_INCREMENTAL", "1")].map(|(k, v)| (k, v.to_string())));
    }
    let before = tree(&top);
    let r = run(&top, &sc.0.join("output"), &bin, &args, &env);
    let after = tree(&top);
    if c.fail == Fail::Locked {
        let _ = fs::set_permissions(&locked, fs::Permissions::from_mode(0o755));
    }
    let calls = fs::read_to_string(&log).unwrap_or_default();
    let lines: Vec<&str> = calls.lines().collect();
    let told = format!("{args:?} with {:?}", c.fail);

    // split the log into steps
    let mut steps: Vec<(&str, Vec<&str>)> = vec![];
    let mut failed_at = None;
    let mut env_line = "";
    let mut seen = 0usize;
    for x in &lines {
        if let Some(n) = x.strip_prefix("CALL ") {
            steps.push((n, vec![]));
        } else if let Some(a) = x.strip_prefix("ARG ") {
            if let Some(s) = steps.last_mut() {
                s.1.push(a)
            }
        } else if let Some(e) = x.strip_prefix("ENV ") {
            env_line = e;
        } else if *x == "FAILED" {
            failed_at = Some(lines.iter().rposition(|y| y == x).unwrap_or(0));
        } else if let Some(n) = x.strip_prefix("SEEN ") {
            seen = n.parse().unwrap_or(0);
        } else if *x == "WRONG" {
            return Err(format!("{told}: the report tool named by the environment was not used"));
        }
    }
    let names: Vec<&str> = steps.iter().map(|s| s.0).collect();
    let all: &[&str] = match c.task {
        "cover" => &["cargo", "grcov"],
        "cover_only" => &["grcov"],
        _ => &["cargo"],
    };
    let needs_tool = all.contains(&"grcov");
    let unclean = c.fail == Fail::Locked && c.task == "cover";
    let no_cargo = c.fail == Fail::NoCargo && all.contains(&"cargo");
    let must_fail = failed_at.is_some() || (needs_tool && matches!(c.fail, Fail::NoTool | Fail::DirIsFile)) || no_cargo || unclean;
    ensure!(r.ok != must_fail, "{told}: exit is {}, calls {names:?}, output {}", if r.ok { "success" } else { "failure" }, clip(&r.out, 300));
    if let Some(k) = failed_at {
        ensure!(k + 1 == lines.len(), "{told}: a step followed the failed one: {:?}", &lines[k..]);
    }
    if must_fail {
        ensure!(all.starts_with(&names), "{told}: calls are {names:?}");
        if matches!(c.fail, Fail::NoTool | Fail::DirIsFile) {
            ensure!(!names.contains(&"grcov"), "{told}: calls are {names:?}");
        }
        if unclean {
            ensure!(names == all, "{told}: calls are {names:?}, expected {all:?}");
        }
        if no_cargo {
            ensure!(lines.is_empty(), "{told}: a step followed the failed one: {lines:?}");
        }
    } else {
        ensure!(names == all, "{told}: calls are {names:?}, expected {all:?}");
    }
    if let Some((_, a)) = steps.iter().find(|s| s.0 == "cargo") {
        ensure!(a.contains(&"test"), "{told}: cargo was called with {a:?}");
        ensure!(option(a, &["--package", "-p"]) == Some("succinct_neo"), "{told}: tests of the wrong package: {a:?}");
        let p: Vec<&str> = env_line.split('|').collect();
        ensure!(p.len() == 3 && p[0].contains("instrument-coverage"), "{told}: tests are not instrumented: {env_line}");
        ensure!(p[1].ends_with(".profraw"), "{told}: profile files go to {:?}, which the clean step would not remove", p[1]);
    }
    let (fmt, file) = wanted(&c.format);
    if let Some((_, a)) = steps.iter().find(|s| s.0 == "grcov") {
        let t = option(a, &["-t", "--output-type", "--output-types"]);
        ensure!(t == Some(fmt), "{told}: report format is {t:?}, expected {fmt}");
        let o = option(a, &["-o", "--output-path"]);
        ensure!(o.map(|x| x.trim_start_matches("./")) == Some(file), "{told}: report goes to {o:?}, expected {file}");
        if c.fail == Fail::None && c.task == "cover" {
            let top_made = c.made.iter().filter(|m| m.0 == 0).map(|m| &m.1).collect::<std::collections::HashSet<_>>().len();
            ensure!(seen >= top_made, "{told}: profile files were removed before the report ({seen} of {top_made} left)");
        }
    }
    // files
    let tested = names.contains(&"cargo");
    let cleaned = c.task == "cover" && !must_fail;
    let reported = needs_tool && (!must_fail || unclean);
    let mut want = before.clone();
    if tested {
        for (d, n) in &c.made {
            let p = if *d == 0 { n.clone() } else { format!("{}/{n}", c.dirs[*d - 1]) };
            want.insert(p, "made\n".into());
        }
    }
    let mut removed = 0;
    if cleaned {
        let gone: Vec<String> = want.iter().filter(|(p, x)| *x != "/" && p.ends_with(".profraw")).map(|x| x.0.clone()).collect();
        removed = gone.len();
        for p in gone {
            want.remove(&p);
        }
    }
    if reported {
        want.insert("coverage".into(), "/".into());
        want.insert(file.into(), "new report\n".into());
    }
    let mut after = after;
    if must_fail && !want.contains_key("coverage") && after.get("coverage").map(|x| x == "/").unwrap_or(false) {
        // the directory may or may not have been made before the failure
        after.remove("coverage");
    }
    for (p, x) in &want {
        if unclean && p != "locked/l.profraw" && p.ends_with(".profraw") && x != "/" && !after.contains_key(p) {
            // cleaned up before the one that could not be removed
            continue;
        }
        ensure!(after.get(p) == Some(x), "{told}: {p:?} is {:?} afterwards, expected {x:?}", after.get(p));
    }
    for p in after.keys() {
        ensure!(want.contains_key(p), "{told}: {p:?} is there afterwards");
    }
    cx.nontrivial = must_fail || reported;
    cx.class(match c.task {
        "cover" => "cover",
        "cover_only" => "cover_only",
        _ => "test_instr",
    });
    cx.class_if(must_fail, "a step fails");
    cx.class_if(c.format.is_some(), "format given");
    cx.class_if(removed > 0, "profile files cleaned up");
    cx.class_if(unclean, "a profile file cannot be removed");
    cx.class_if(c.named, "report tool named by the environment");
    Ok(())
}
#[cfg(feature = "c23")]
pub static C23P: Prop = Prop {
    id: "C23",
    rule: "task, format name in any case, injected failure, surrounding files; the real tool runs unprivileged in a scratch directory with recording stand-ins for cargo and the report tool; calls, their order, format, report file, exit code and the resulting tree are compared. Non-trivial: a report was requested or a step failed.",
    modes: &[Mode { code: 0, name: "random", quick: 20000, thorough: 240000, profiles: "release" }],
    drive: |s, cx, p| drive(s, cx, p, c23_gen, c23_exec),
};
