//! Driver for the command-line program, and C08 (program part), C09, C10, C11, C12.

use std::collections::BTreeMap;
use std::ffi::OsString;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

use crate::dev::*;
use crate::fw::*;
use crate::img::*;
use crate::model::*;
use crate::pack::*;
use crate::read::small_trees;

pub fn cli_path() -> PathBuf {
    PathBuf::from(std::env::var_os("XMC_CLI").expect("XMC_CLI"))
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Act {
    Fail,
    FailFrom,
    Zero,
    Short,
    Eintr,
    Kill,
    Tear,
    After,
    /// before the call, the file in `Opt::mutate` is resized or removed
    Mutate,
}

impl Act {
    fn name(self) -> &'static str {
        match self {
            Act::Fail => "fail",
            Act::FailFrom => "failfrom",
            Act::Zero => "zero",
            Act::Short => "short",
            Act::Eintr => "eintr",
            Act::Kill => "kill",
            Act::Tear => "tear",
            Act::After => "after",
            Act::Mutate => "mutate",
        }
    }
}

#[derive(Clone, Default)]
pub struct Opt {
    pub cwd: Option<PathBuf>,
    /// inject at call k below this directory; None counts only
    pub shim: Option<(PathBuf, Option<(Act, usize)>)>,
    /// run without privileges
    pub nobody: bool,
    /// limit on the size of written files
    pub fsize: Option<u64>,
    pub argv0: Option<String>,
    pub program: Option<PathBuf>,
    pub address_space: Option<u64>,
    /// file and its new size (None: removed)
    pub mutate: Option<(PathBuf, Option<u64>)>,
}

#[derive(Debug, Clone)]
pub struct Ran {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub out: String,
    pub err: String,
    pub calls: Vec<String>,
}

impl Ran {
    pub fn ok(&self) -> bool {
        self.code == Some(0)
    }
    /// Neither a panic, nor a crash, nor a timeout
    pub fn orderly(&self) -> Result<(), String> {
        match (self.code, self.signal) {
            (Some(101), _) => Err(format!("panic: {}", clip(&self.err, 500))),
            (Some(_), _) => Ok(()),
            (None, Some(libc::SIGALRM)) => Err("does not terminate within its time limit".into()),
            (None, s) => Err(format!("killed by signal {s:?}: {}", clip(&self.err, 500))),
        }
    }
    pub fn must(&self, what: &str) -> Result<(), String> {
        if self.ok() {
            Ok(())
        } else {
            Err(format!("{what} failed: {:?} {:?} {}", self.code, self.signal, clip(&self.err, 600)))
        }
    }
    pub fn fired(&self) -> bool {
        self.calls.iter().any(|c| c.ends_with(" *"))
    }
}

pub const NOBODY: u32 = 65534;

pub fn xdvdfs<S: AsRef<std::ffi::OsStr>>(args: &[S], opt: &Opt) -> Ran {
    let prog = opt.program.clone().unwrap_or_else(cli_path);
    let mut c = Command::new(prog);
    if let Some(a) = &opt.argv0 {
        c.arg0(a);
    } else {
        c.arg0("xdvdfs");
    }
    c.args(args);
    c.env_clear();
    c.env("PATH", "/usr/bin:/bin");
    c.stdin(Stdio::null());
    if let Some(d) = &opt.cwd {
        c.current_dir(d);
    }
    let mut log = None;
    if let Some((root, inject)) = &opt.shim {
        let lp = root.with_extension(format!("log{}", hash(&format!("{:?}", inject))));
        let _ = std::fs::remove_file(&lp);
        c.env("LD_PRELOAD", std::env::var_os("XMC_SHIM").expect("XMC_SHIM"));
        c.env("SHIM_ROOT", root);
        c.env("SHIM_LOG", &lp);
        if let Some((a, k)) = inject {
            c.env("SHIM_ACT", a.name());
            c.env("SHIM_K", k.to_string());
        }
        if let Some((f, n)) = &opt.mutate {
            c.env("SHIM_FILE", f);
            c.env("SHIM_SIZE", n.map_or("-1".to_string(), |n| n.to_string()));
        }
        log = Some(lp);
    }
    let (nobody, fsize, aspace) = (opt.nobody, opt.fsize, opt.address_space);
    unsafe {
        c.pre_exec(move || {
            libc::alarm(120);
            let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &z);
            let cap = fsize.unwrap_or(4 << 30);
            let l = libc::rlimit { rlim_cur: cap, rlim_max: cap };
            libc::setrlimit(libc::RLIMIT_FSIZE, &l);
            if let Some(a) = aspace {
                let l = libc::rlimit { rlim_cur: a, rlim_max: a };
                libc::setrlimit(libc::RLIMIT_AS, &l);
            }
            libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            libc::umask(0o022);
            if nobody && libc::getuid() == 0 {
                if libc::setgroups(0, std::ptr::null()) != 0 || libc::setgid(NOBODY) != 0 || libc::setuid(NOBODY) != 0 {
                    return Err(std::io::Error::last_os_error());
                }
            }
            Ok(())
        });
    }
    let o = c.output().unwrap_or_else(|e| panic!("cannot run the program: {e}"));
    let calls = log
        .map(|lp| {
            let s = std::fs::read_to_string(&lp).unwrap_or_default();
            let _ = std::fs::remove_file(&lp);
            s.lines().map(|l| l.to_string()).collect()
        })
        .unwrap_or_default();
    Ran {
        code: o.status.code(),
        signal: o.status.signal(),
        out: String::from_utf8_lossy(&o.stdout).into_owned(),
        err: String::from_utf8_lossy(&o.stderr).into_owned(),
        calls,
    }
}

pub fn run_cli<S: AsRef<std::ffi::OsStr>>(args: &[S], cwd: &Path) -> Ran {
    xdvdfs(args, &Opt { cwd: Some(cwd.to_path_buf()), ..Opt::default() })
}

pub fn write_at(p: &Path, b: &[u8], off: u64) {
    use std::os::unix::fs::FileExt;
    let f = std::fs::File::create(p).unwrap();
    f.write_all_at(b, off).unwrap();
}

/// Everything below a directory: kind, contents and modification time of files, targets of links
pub fn snapshot(root: &Path) -> BTreeMap<PathBuf, String> {
    use std::os::unix::fs::MetadataExt;
    fn rec(p: &Path, root: &Path, out: &mut BTreeMap<PathBuf, String>) {
        let Ok(rd) = std::fs::read_dir(p) else { return };
        for e in rd.flatten() {
            let path = e.path();
            let Ok(m) = std::fs::symlink_metadata(&path) else { continue };
            let rel = path.strip_prefix(root).unwrap().to_path_buf();
            if m.is_dir() {
                out.insert(rel, "dir".into());
                rec(&path, root, out);
            } else if m.is_file() {
                let d = if m.len() > 64 << 20 { vec![] } else { std::fs::read(&path).unwrap_or_default() };
                out.insert(rel, format!("file {} {:x} {}.{}", m.len(), data_hash(&d), m.mtime(), m.mtime_nsec()));
            } else {
                out.insert(rel, format!("other {:?}", std::fs::read_link(&path)));
            }
        }
    }
    let mut out = BTreeMap::new();
    rec(root, root, &mut out);
    out
}

pub fn snap_diff(a: &BTreeMap<PathBuf, String>, b: &BTreeMap<PathBuf, String>) -> Option<String> {
    for (p, v) in a {
        match b.get(p) {
            None => return Some(format!("{} is gone", p.display())),
            Some(w) if w != v => return Some(format!("{} changed from {v} to {w}", p.display())),
            _ => {}
        }
    }
    b.keys().find(|p| !a.contains_key(*p)).map(|p| format!("{} appeared", p.display()))
}

/// Entry at a path of a model tree as it appears when extracted alone
pub fn sub<'a>(t: &'a Dir, p: &[String]) -> Option<&'a Node> {
    find(t, p)
}

fn s(p: &Path) -> OsString {
    p.as_os_str().to_os_string()
}

fn flat_node(d: &Path) -> Result<Option<Flat>, String> {
    // None: a plain file
    let m = std::fs::symlink_metadata(d).map_err(|e| format!("destination: {e}"))?;
    if m.is_dir() {
        Ok(Some(read_dir_flat(d)?))
    } else {
        Ok(None)
    }
}

/// The destination holds exactly the selected node
pub fn exact(dest: &Path, want: &Node) -> Result<(), String> {
    match (flat_node(dest)?, want) {
        (Some(f), Node::Dir(d)) => diff_flat(&flatten(d), &f),
        (None, Node::File { id, len }) => {
            let b = std::fs::read(dest).map_err(|e| e.to_string())?;
            if b != content(*id, *len) {
                return Err(format!("destination has {} bytes, not the file's {len} or different ones", b.len()));
            }
            Ok(())
        }
        (Some(_), _) => Err("a directory instead of a file".into()),
        (None, _) => Err("a file instead of a directory".into()),
    }
}

/// The selections of a tree: the whole image by unpack and copy-out, and each entry
pub fn selections(t: &Dir) -> Vec<(String, Option<String>, Node)> {
    let mut v = vec![("unpack".to_string(), None, Node::Dir(t.clone())), ("copy-out".into(), Some("/".into()), Node::Dir(t.clone()))];
    for (p, n) in walk(t) {
        let path = p.join("/");
        v.push(("copy-out".into(), Some(format!("/{path}")), n.clone()));
        v.push(("copy-out".into(), Some(path.chars().map(|c| c.to_ascii_uppercase()).collect()), n));
    }
    v
}

fn extract_args(img: &Path, cmd: &str, sel: &Option<String>, dest: &Path) -> Vec<OsString> {
    let mut a: Vec<OsString> = vec![cmd.into(), s(img)];
    if let Some(x) = sel {
        a.push(x.into());
    }
    a.push(s(dest));
    a
}

pub const OVER: [usize; 8] = [0, 1, 99, 100, 101, 4095, 4097, 20000];
pub fn over_tree() -> Dir {
    [0u64, 1, 99, 100, 4096, 8193].iter().enumerate().map(|(i, l)| (format!("f{i}"), file(i as u64, *l))).collect()
}

pub fn c10(ctx: &Ctx) {
    let lays = layouts();
    // names that no host file can have: refused, or made exactly
    let prog = if LIST.load(std::sync::atomic::Ordering::SeqCst) { PathBuf::new() } else { jail_program() };
    ctx.group("names", name_cases(ctx), |entries, o| {
        let j = jail(ctx, &prog);
        let d = &j.dir;
        let w = hostile_setup(d, entries)?;
        for how in ["unpack", "copy-out"] {
            let dest = w.join(how);
            let mut args: Vec<OsString> = vec![how.into(), s(&w.join("i.iso"))];
            if how == "copy-out" {
                args.push("/".into());
            }
            args.push(s(&dest));
            let r = xdvdfs(&args, &Opt { cwd: Some(w.clone()), nobody: true, program: Some(j.prog.clone()), ..Opt::default() });
            r.orderly()?;
            o.steps(1);
            o.state(&(entries, how, r.ok()));
            o.outcome(if r.ok() { "extracted" } else { "refused" });
            if r.ok() {
                names_made(&dest, entries, &d.join("sub").to_string_lossy()).map_err(|e| format!("{how}: {e}"))?;
            }
        }
        o.valid();
        Ok(())
    });
    // every small tree in every layout, whole and by each path
    let trees = small_trees(ctx.pick(3, 4));
    let mut cases = Vec::new();
    for t in &trees {
        for l in 0..lays.len() {
            cases.push((t, l));
        }
    }
    ctx.group("trees", cases, |&(t, l), o| {
        let d = ctx.scratch();
        let img = d.join("i.iso");
        std::fs::write(&img, build(t, &lays[l]).bytes).unwrap();
        for (i, (cmd, sel, want)) in selections(t).iter().enumerate() {
            let dest = d.join(&format!("out{i}"));
            let r = xdvdfs(&extract_args(&img, cmd, sel, &dest), &Opt::default());
            r.must(&format!("{cmd} {sel:?}"))?;
            exact(&dest, want).map_err(|e| format!("{cmd} {sel:?}: {e}"))?;
            o.steps(1);
        }
        o.state(&(hash(t), l));
        o.valid();
        Ok(())
    });

    // larger contents, wide and deep trees, and every partition offset
    let mut big: Vec<Dir> = crate::fault::gallery();
    big.push(vec![("f".into(), file(1, 65536)), ("g".into(), file(2, 65537)), ("h".into(), file(3, 131071)), ("i".into(), file(4, 8192)), ("j".into(), file(5, 8193))]);
    big.push((0..300).map(|i| (numbered(i, 12), if i % 7 == 0 { Node::Dir(vec![(numbered(i, 3), file(i as u64, 77)), ("e".into(), Node::Dir(vec![]))]) } else { file(i as u64, i as u64) })).collect());
    let mut deep: Dir = vec![("leaf".into(), file(9, 9))];
    for i in 0..40 {
        deep = vec![(format!("d{i}"), Node::Dir(deep)), ("e".into(), file(i, 1)), ("z".into(), Node::Dir(vec![]))];
    }
    big.push(deep);
    let mut cases = Vec::new();
    for t in 0..big.len() {
        for l in 0..lays.len() {
            cases.push((t, l));
        }
    }
    ctx.group("larger", cases, |&(t, l), o| {
        let d = ctx.scratch();
        let t = &big[t];
        let img = d.join("i.iso");
        write_at(&img, &build(t, &lays[l]).bytes, crate::repack::OFFSETS[l % 4]);
        let all = selections(t);
        let n = all.len();
        for (i, (cmd, sel, want)) in all.iter().enumerate() {
            if i > 6 && n > 20 && (i + l) % 9 != 0 {
                continue;
            }
            let dest = d.join(&format!("out{i}"));
            let r = xdvdfs(&extract_args(&img, cmd, sel, &dest), &Opt::default());
            r.must(&format!("{cmd} {sel:?}"))?;
            exact(&dest, want).map_err(|e| format!("{cmd} {sel:?}: {e}"))?;
            o.steps(1);
        }
        o.state(&(hash(t), l));
        o.valid();
        Ok(())
    });

    // every kind of contents
    let cc = crate::repack::content_cases();
    ctx.group("contents", cc, |&(k, n), o| {
        let t = crate::repack::content_tree(k, n);
        let d = ctx.scratch();
        let img = d.join("i.iso");
        std::fs::write(&img, build(&t, &lays[(n % 6) as usize]).bytes).unwrap();
        for (i, (cmd, sel, want)) in selections(&t).iter().enumerate() {
            let dest = d.join(&format!("out{i}"));
            xdvdfs(&extract_args(&img, cmd, sel, &dest), &Opt::default()).must(&format!("{cmd} {sel:?}"))?;
            exact(&dest, want).map_err(|e| format!("{cmd} {sel:?}: {e}"))?;
            o.steps(1);
        }
        o.state(&(k, n));
        o.valid();
        Ok(())
    });

    // a file beyond 2 GiB in a sparse image
    let huge = ctx.pick(vec![((1u64 << 31) + 5, true)], vec![((1 << 31) - 1, true), (1 << 31, false), ((1 << 31) + 5, true), ((1 << 32) - 1, false), ((1 << 32) - 1, true)]);
    ctx.group_threads("huge-file", 2, huge, |&(len, whole), o| {
        use std::os::unix::fs::FileExt;
        let files = [("a", 1u64, 5u64, 34u32), ("big", 2, len, 40), ("c", 3, 4097, 35)];
        let v = VDev::volume(&files);
        let d = ctx.scratch();
        let img = std::fs::File::create(d.join("i.iso")).unwrap();
        img.set_len(v.len).unwrap();
        img.write_all_at(&v.bytes(0, 40 * 2048).unwrap(), 0).unwrap();
        // marks around the interesting offsets; the rest is a hole
        let marks: Vec<u64> = [0, 1 << 20, (1 << 31) - 4096, 1 << 31, len - 4096].into_iter().filter(|m| m + 4096 <= len).collect();
        for m in &marks {
            let mut b = vec![0; 4096];
            content_at(2 | PLAIN, *m, &mut b);
            img.write_all_at(&b, 40 * 2048 + m).unwrap();
        }
        drop(img);
        let r = if whole { run_cli(&["unpack", "i.iso", "out"], d.path()) } else { run_cli(&["copy-out", "i.iso", "/big", "out"], d.path()) };
        r.must("extraction")?;
        o.steps(1);
        o.state(&(len, whole));
        let f = std::fs::File::open(if whole { d.join("out/big") } else { d.join("out") }).map_err(|e| e.to_string())?;
        let got = f.metadata().unwrap().len();
        if got != len {
            return Err(format!("the file has {got} bytes instead of {len}"));
        }
        for m in &marks {
            let mut w = vec![0; 4096];
            content_at(2 | PLAIN, *m, &mut w);
            let mut g = vec![0; 4096];
            f.read_exact_at(&mut g, *m).map_err(|e| e.to_string())?;
            if w != g {
                return Err(format!("contents differ at {m}"));
            }
        }
        o.valid();
        Ok(())
    });

    // destinations: default, relative, existing directory, longer file in the way, missing parents
    let t: Dir = gal()[1].clone();
    let img = build(&t, &lays[0]).bytes;
    ctx.group("destinations", (0..8usize).collect(), |&k, o| {
        let d = ctx.scratch();
        std::fs::write(d.join("game.iso"), &img).unwrap();
        let whole = Node::Dir(t.clone());
        let run = |a: &[&str]| run_cli(a, d.path());
        let one = walk(&t).into_iter().find(|(_, n)| matches!(n, Node::File { len, .. } if *len > 0)).unwrap();
        let src = format!("/{}", one.0.join("/"));
        let (r, dest, want) = match k {
            0 => (run(&["unpack", "game.iso"]), d.join("game"), whole),
            1 => (run(&["unpack", "game.iso", "x/y/z"]), d.join("x/y/z"), whole),
            2 => {
                std::fs::create_dir(d.join("e")).unwrap();
                (run(&["unpack", "game.iso", "e/"]), d.join("e"), whole)
            }
            3 => {
                std::fs::create_dir(d.join("e")).unwrap();
                for (n, x) in &t {
                    if matches!(x, Node::File { .. }) {
                        std::fs::write(d.join("e").join(n), vec![7; 20000]).unwrap();
                    }
                }
                (run(&["unpack", "game.iso", "e"]), d.join("e"), whole)
            }
            4 => {
                std::fs::write(d.join("f"), vec![7; 20000]).unwrap();
                (run(&["copy-out", "game.iso", &src, "f"]), d.join("f"), one.1)
            }
            5 => (run(&["copy-out", "game.iso", "/", "p/q"]), d.join("p/q"), whole),
            6 => (run(&["unpack", "./game.iso", "."]), d.join("."), whole),
            _ => (run(&["extract-xiso", "game.iso"]), d.join("game"), whole),
        };
        r.must("extraction")?;
        if k == 6 {
            std::fs::remove_file(d.join("game.iso")).unwrap();
        }
        o.state(&k);
        o.steps(1);
        o.valid();
        exact(&dest, &want)
    });

    // files in the way, longer or shorter, for contents of every kind of length
    let flat: Dir = over_tree();
    let img2 = build(&flat, &lays[0]).bytes;
    let mut cases = Vec::new();
    for n in OVER {
        for how in 0..3usize {
            cases.push((n, how));
        }
    }
    ctx.group("over-existing", cases, |&(n, how), o| {
        let d = ctx.scratch();
        std::fs::write(d.join("i.iso"), &img2).unwrap();
        std::fs::create_dir(d.join("e")).unwrap();
        for (f, _) in &flat {
            std::fs::write(d.join("e").join(f), vec![7; n]).unwrap();
        }
        let run = |a: &[&str]| run_cli(a, d.path()).must(&a.join(" ")).map(|_| ());
        match how {
            0 => run(&["unpack", "i.iso", "e"])?,
            1 => run(&["copy-out", "i.iso", "/", "e"])?,
            _ => {
                for (f, _) in &flat {
                    run(&["copy-out", "i.iso", f, &format!("e/{f}")])?;
                }
            }
        }
        o.state(&(n, how));
        o.steps(1);
        o.valid();
        exact(&d.join("e"), &Node::Dir(flat.clone())).map_err(|e| format!("over files of {n} bytes: {e}"))
    });

    // missing things are failures
    ctx.group("missing", ["/nope", "/b/nope", "/a.x/y", "nope/x"].to_vec(), |p, o| {
        let d = ctx.scratch();
        std::fs::write(d.join("i.iso"), &img).unwrap();
        let r = run_cli(&["copy-out", "i.iso", p, "out"], d.path());
        o.state(p);
        o.steps(1);
        r.orderly()?;
        if r.ok() {
            return Err(format!("copy-out of missing {p} succeeds"));
        }
        o.valid();
        Ok(())
    });

    // every truncation point around sectors and extents
    let gallery = gal();
    let mut cases = Vec::new();
    for (g, t) in gallery.iter().enumerate() {
        for l in ctx.pick(vec![0usize, 2], (0..lays.len()).collect()) {
            let b = build(t, &lays[l]);
            let mut cuts: std::collections::BTreeSet<usize> = Default::default();
            for sec in 32..=b.bytes.len() / 2048 {
                cuts.extend([sec * 2048, sec * 2048 + 1, sec * 2048 - 1]);
            }
            for (sec, size) in b.extents.values() {
                let e = *sec as usize * 2048 + *size as usize;
                cuts.extend([e, e + 1, e.saturating_sub(1), *sec as usize * 2048 + *size as usize / 2]);
            }
            for c in cuts {
                if c < b.bytes.len() {
                    cases.push((g, l, c));
                }
            }
        }
    }
    ctx.group("truncated", cases, |&(g, l, cut), o| {
        let d = ctx.scratch();
        let t = &gallery[g];
        let img = d.join("i.iso");
        std::fs::write(&img, &build(t, &lays[l]).bytes[..cut]).unwrap();
        let mut good = 0;
        for (i, (cmd, sel, want)) in selections(t).iter().enumerate() {
            let dest = d.join(&format!("out{i}"));
            let r = xdvdfs(&extract_args(&img, cmd, sel, &dest), &Opt::default());
            r.orderly().map_err(|e| format!("{cmd} {sel:?}: {e}"))?;
            o.steps(1);
            if r.ok() {
                good += 1;
                exact(&dest, want).map_err(|e| format!("image cut at {cut}: {cmd} {sel:?} reports success, but {e}"))?;
            }
        }
        o.outcome(if good == 0 { "all fail" } else { "some succeed" });
        o.state(&(g, l, cut));
        o.valid();
        Ok(())
    });

    // every I/O call misbehaves once
    let mut cases = Vec::new();
    for g in 0..gallery.len() {
        for k in 0..3usize {
            for a in [Act::Fail, Act::FailFrom, Act::Zero, Act::Short, Act::Eintr] {
                cases.push((g, k, a));
            }
        }
    }
    ctx.group("io-faults", cases, |&(g, k, a), o| {
        let t = &gallery[g];
        let d = ctx.scratch();
        std::fs::create_dir(d.join("w")).unwrap();
        let img = d.join("w/i.iso");
        std::fs::write(&img, build(t, &lays[0]).bytes).unwrap();
        let sels = selections(t);
        let pick = match k {
            0 => 0,
            1 => 1,
            _ => sels.iter().rposition(|x| matches!(x.2, Node::File { len, .. } if len > 0)).unwrap_or(sels.len() - 1),
        };
        let (cmd, sel, want) = &sels[pick];
        let dest = d.join("w/out");
        let clean = || {
            let _ = std::fs::remove_dir_all(&dest);
            let _ = std::fs::remove_file(&dest);
        };
        let args = extract_args(&img, cmd, sel, &dest);
        let base = xdvdfs(&args, &Opt { shim: Some((d.join("w"), None)), ..Opt::default() });
        base.must("extraction under observation")?;
        exact(&dest, want)?;
        for i in 0..base.calls.len() {
            clean();
            let r = xdvdfs(&args, &Opt { shim: Some((d.join("w"), Some((a, i)))), ..Opt::default() });
            o.steps(r.calls.len() as u64);
            o.state(&(g, k, a, i));
            if r.fired() {
                o.fired();
            }
            let call = base.calls[i].clone();
            r.orderly().map_err(|e| format!("{cmd} {sel:?}, {a:?} at call {call}: {e}"))?;
            if r.ok() {
                exact(&dest, want).map_err(|e| format!("{cmd} {sel:?} reports success although call \"{call}\" was made to {a:?}: {e}"))?;
            }
        }
        o.valid();
        Ok(())
    });

    // a full disk at every size
    let cases: Vec<u64> = [0u64, 1, 50, 100, 101, 2047, 2048, 2049, 4000, 4999, 5000, 9999, 10000].to_vec();
    ctx.group("file-size-limit", cases, |&lim, o| {
        let t = &gallery[1];
        let d = ctx.scratch();
        let img = d.join("i.iso");
        std::fs::write(&img, build(t, &lays[0]).bytes).unwrap();
        for (i, (cmd, sel, want)) in selections(t).iter().enumerate() {
            let dest = d.join(&format!("out{i}"));
            let r = xdvdfs(&extract_args(&img, cmd, sel, &dest), &Opt { fsize: Some(lim), ..Opt::default() });
            r.orderly()?;
            o.steps(1);
            if r.ok() {
                exact(&dest, want).map_err(|e| format!("with files limited to {lim} bytes {cmd} {sel:?} reports success, but {e}"))?;
            }
        }
        o.state(&lim);
        o.valid();
        Ok(())
    });
}

/// Small trees with every kind of entry, for the fault runs
pub fn gal() -> Vec<Dir> {
    vec![
        vec![("a".into(), file(1, 100))],
        vec![
            ("b".into(), Node::Dir(vec![("c.x".into(), file(1, 2049)), ("d".into(), Node::Dir(vec![("e".into(), file(2, 5000)), ("f".into(), file(3, 0))])), ("h".into(), Node::Dir(vec![]))])),
            ("a.x".into(), file(4, 100)),
            ("z".into(), file(5, 10_000)),
        ],
        vec![("e".into(), Node::Dir(vec![])), ("only".into(), file(7, 0))],
    ]
}

// ---------------------------------------------------------------- C09 and C08: without privileges

/// A place where an unprivileged run can only reach its own scratch files
pub struct Jail {
    pub dir: Scratch,
    pub prog: PathBuf,
}

pub fn jail_program() -> PathBuf {
    // is the program reachable without privileges where it was built?
    let r = xdvdfs(&["--version"], &Opt { nobody: true, ..Opt::default() });
    if !r.ok() {
        panic!("the program cannot be run without privileges: {:?} {}", r.code, r.err);
    }
    cli_path()
}

pub fn jail(ctx: &Ctx, prog: &Path) -> Jail {
    let dir = ctx.scratch();
    unsafe {
        let p = std::ffi::CString::new(dir.path().as_os_str().as_encoded_bytes()).unwrap();
        libc::chown(p.as_ptr(), NOBODY, NOBODY);
    }
    Jail { dir, prog: prog.to_path_buf() }
}

fn own(p: &Path) {
    let c = std::ffi::CString::new(p.as_os_str().as_encoded_bytes()).unwrap();
    unsafe {
        libc::chown(c.as_ptr(), NOBODY, NOBODY);
    }
}

/// An image of raw names: root entries, each a file or a directory with one file
pub fn named_image(entries: &[(&[u8], bool, &[u8])]) -> Vec<u8> {
    // every table is a right-leaning list in the given order: walks do not depend on the order
    let mut b = vec![0u8; 60 * 2048];
    let v = 32 * 2048;
    b[v..v + 20].copy_from_slice(MAGIC);
    b[v + 2028..v + 2048].copy_from_slice(MAGIC);
    b[v + 20..v + 24].copy_from_slice(&33u32.to_le_bytes());
    b[v + 24..v + 28].copy_from_slice(&2048u32.to_le_bytes());
    let put = |b: &mut Vec<u8>, at: usize, right: u16, sec: u32, size: u32, dir: bool, name: &[u8]| {
        b[at..at + 2].fill(0);
        b[at + 2..at + 4].copy_from_slice(&right.to_le_bytes());
        b[at + 4..at + 8].copy_from_slice(&sec.to_le_bytes());
        b[at + 8..at + 12].copy_from_slice(&size.to_le_bytes());
        b[at + 12] = if dir { 0x10 } else { 0x20 };
        b[at + 13] = name.len() as u8;
        b[at + 14..at + 14 + name.len()].copy_from_slice(name);
        at + (14 + name.len()).div_ceil(4) * 4
    };
    for s in 33..40 {
        b[s * 2048..(s + 1) * 2048].fill(0xff);
    }
    b[50 * 2048..50 * 2048 + 4].copy_from_slice(b"evil");
    let mut at = 33 * 2048;
    for (i, (n, dir, inner)) in entries.iter().enumerate() {
        let next = (at - 33 * 2048 + (14 + n.len()).div_ceil(4) * 4) / 4;
        let right = if i + 1 < entries.len() { next as u16 } else { 0 };
        let sec = if *dir { 34 + i as u32 } else { 50 };
        at = put(&mut b, at, right, sec, if *dir { 2048 } else { 4 }, *dir, n);
        if *dir {
            put(&mut b, (34 + i) * 2048, 0, 50, 4, false, inner);
        }
    }
    b
}

/// Names that lead somewhere else. ABS stands for the absolute path of the directory above the working directory
pub fn hostile_names() -> Vec<&'static str> {
    vec![
        "..", ".", "...", "", "a", "/", "//", "../x", "../victim", "../../victim", "..\\victim", "/victim", "ABS/victim", "ABS/new", "a/../../victim", "a/../victim", "./../victim",
        "../", "..//", "./", "a/", "/..", "a/..", "\\", "C:\\x", "C:", "..\0x", "victim\0", "a/b", " ", ". .", ".. ", "~", "-r", "../out2/x", "link/x", "....//x",
    ]
}
pub const HOSTILE_INNER: [&str; 8] = ["..", "../victim", "../../victim", "x", "ABS/victim", "", "../../out2/y", "."];

/// Creates jail/{victim, sub/{victim, out2/victim, w/{i.iso, victim}}} and returns w
pub fn hostile_setup(d: &Scratch, entries: &[(&str, bool, &str)]) -> Result<PathBuf, String> {
    for p in ["sub", "sub/out2", "sub/w"] {
        std::fs::create_dir(d.join(p)).unwrap();
        own(&d.join(p));
    }
    for p in ["victim", "sub/victim", "sub/w/victim", "sub/out2/victim"] {
        std::fs::write(d.join(p), "innocent").unwrap();
        own(&d.join(p));
    }
    let abs = d.join("sub").to_string_lossy().into_owned();
    let real: Vec<(Vec<u8>, bool, Vec<u8>)> = entries.iter().map(|(n, dir, i)| (n.replace("ABS", &abs).into_bytes(), *dir, i.replace("ABS", &abs).into_bytes())).collect();
    if real.iter().any(|(n, _, i)| n.len() > 255 || i.len() > 255) {
        return Err("scratch path too long".into());
    }
    let img = named_image(&real.iter().map(|(n, x, i)| (&n[..], *x, &i[..])).collect::<Vec<_>>());
    std::fs::write(d.join("sub/w/i.iso"), &img).unwrap();
    Ok(d.join("sub/w"))
}

fn name_cases(ctx: &Ctx) -> Vec<Vec<(&'static str, bool, &'static str)>> {
    let names = hostile_names();
    let inner: [&'static str; 8] = HOSTILE_INNER;
    let mut cases: Vec<Vec<(&'static str, bool, &'static str)>> = Vec::new();
    for n in &names {
        cases.push(vec![(n, false, "")]);
        for i in &inner {
            cases.push(vec![(n, true, i)]);
        }
        // behind an innocent entry, and combined with another directory
        cases.push(vec![("ok", false, ""), (n, false, "")]);
        cases.push(vec![("ok", true, "y"), (n, true, "victim")]);
        cases.push(vec![(n, true, "q"), (n, true, "../victim")]);
        cases.push(vec![("a", false, ""), (n, true, "victim")]);
    }
    if ctx.thorough {
        for n in &names {
            for m in &names {
                cases.push(vec![(n, true, "victim"), (m, true, "../victim")]);
                cases.push(vec![(n, true, m)]);
                cases.push(vec![(n, false, ""), (m, true, "x")]);
            }
        }
    }
    cases
}

/// An extraction that reports success made exactly the named entries (files without any name are skipped, by design)
pub fn names_made(dest: &Path, entries: &[(&str, bool, &str)], abs: &str) -> Result<(), String> {
    let mut want: BTreeMap<String, bool> = BTreeMap::new();
    for (n, dir, i) in entries {
        let n = n.replace("ABS", abs);
        let inner = format!("{n}/{}", i.replace("ABS", abs));
        if *dir && want.insert(inner, false).is_some() || want.insert(n, *dir).is_some() {
            return Ok(()); // twice the same name
        }
    }
    want.retain(|n, dir| *dir || !(n.is_empty() || n.ends_with('/') && n.len() > 1 && entries.iter().any(|(m, d, i)| *d && i.is_empty() && format!("{}/", m.replace("ABS", abs)) == *n)));
    let got: BTreeMap<String, bool> = snapshot(dest).into_iter().map(|(p, k)| (p.to_string_lossy().into_owned(), k == "dir")).collect();
    if got == want {
        return Ok(());
    }
    Err(format!("reports success for entries {entries:?} but made {got:?}"))
}

pub fn c09(ctx: &Ctx) {
    let prog = if LIST.load(std::sync::atomic::Ordering::SeqCst) { PathBuf::new() } else { jail_program() };
    ctx.group("names", name_cases(ctx), |entries, o| {
        for (k, how) in ["absolute", "relative", "copy-out", "copy-dir", "default", "exiso"].iter().enumerate() {
            if *how == "copy-dir" && !entries[0].1 {
                continue;
            }
            let j = jail(ctx, &prog);
            let d = &j.dir;
            let w = hostile_setup(d, entries)?;
            let dest = if *how == "default" || *how == "exiso" { w.join("i") } else { w.join("out") };
            let before = snapshot(d.path());
            let args: Vec<OsString> = match *how {
                "absolute" => vec!["unpack".into(), s(&w.join("i.iso")), s(&dest)],
                "relative" => vec!["unpack".into(), "i.iso".into(), "out".into()],
                "copy-out" => vec!["copy-out".into(), "i.iso".into(), "/".into(), "out".into()],
                "copy-dir" => {
                    if entries[0].0.contains('\0') {
                        continue; // not expressible as an argument
                    }
                    let abs = d.join("sub").to_string_lossy().into_owned();
                    vec!["copy-out".into(), "i.iso".into(), entries[0].0.replace("ABS", &abs).into(), "out".into()]
                }
                "default" => vec!["unpack".into(), "i.iso".into()],
                _ => vec!["extract-xiso".into(), "i.iso".into()],
            };
            let r = xdvdfs(&args, &Opt { cwd: Some(w.clone()), nobody: true, program: Some(j.prog.clone()), ..Opt::default() });
            r.orderly()?;
            o.steps(1);
            o.state(&(entries, k, r.ok()));
            o.outcome(if r.ok() { "extracted" } else { "refused" });
            let rel = dest.strip_prefix(d.path()).unwrap();
            let keep = |m: BTreeMap<PathBuf, String>| -> BTreeMap<PathBuf, String> { m.into_iter().filter(|(p, _)| !p.starts_with(rel)).collect() };
            if let Some(x) = snap_diff(&keep(before), &keep(snapshot(d.path()))) {
                return Err(format!("{how}: outside the destination {x}"));
            }
        }
        o.valid();
        Ok(())
    });
}

pub fn c08_cli(ctx: &Ctx) {
    let prog = if LIST.load(std::sync::atomic::Ordering::SeqCst) { PathBuf::new() } else { jail_program() };
    let gallery = crate::malformed::damaged_gallery();
    ctx.note(format!("{} damaged images are also given to every reading command of the program", gallery.len()));
    let cases: Vec<usize> = (0..gallery.len()).collect();
    ctx.group("program", cases, |&i, o| {
        let (name, bytes) = &gallery[i];
        let j = jail(ctx, &prog);
        std::fs::write(j.dir.join("i.iso"), bytes).unwrap();
        let cmds: [&[&str]; 15] = [
            &["ls", "i.iso"],
            &["ls", "-s", "i.iso"],
            &["ls", "i.iso", "/a/b"],
            &["tree", "i.iso"],
            &["md5", "i.iso"],
            &["md5", "i.iso", "/b"],
            &["info", "i.iso"],
            &["info", "i.iso", "/"],
            &["info", "i.iso", "b"],
            &["checksum", "i.iso"],
            &["unpack", "i.iso", "o1"],
            &["copy-out", "i.iso", "/", "o2"],
            &["copy-out", "i.iso", "b", "o3"],
            &["pack", "i.iso", "o4"],
            &["extract-xiso", "-l", "i.iso"],
        ];
        for c in cmds {
            let r = xdvdfs(c, &Opt { cwd: Some(j.dir.path().to_path_buf()), nobody: true, program: Some(j.prog.clone()), address_space: Some(10 << 30), fsize: Some(1 << 30), ..Opt::default() });
            r.orderly().map_err(|e| format!("{name}: {c:?}: {e}"))?;
            o.steps(1);
        }
        std::fs::write(j.dir.join("i.cso"), crate::cso::store(bytes, i % 3)).unwrap();
        for c in &cmds[..10] {
            let c: Vec<String> = c.iter().map(|x| x.replace("i.iso", "i.cso")).collect();
            let r = xdvdfs(&c, &Opt { cwd: Some(j.dir.path().to_path_buf()), nobody: true, program: Some(j.prog.clone()), address_space: Some(10 << 30), fsize: Some(1 << 30), ..Opt::default() });
            r.orderly().map_err(|e| format!("{name}, compressed: {c:?}: {e}"))?;
            o.steps(1);
        }
        o.state(name);
        o.valid();
        Ok(())
    });
}

// ---------------------------------------------------------------- C11

/// What a packing command reads and where it writes
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum PackCmd {
    PackDir,
    PackImage,
    BuildImage,
    CompressDir,
    CompressImage,
    ExisoCreate,
}
pub const PACK_CMDS: [PackCmd; 6] = [PackCmd::PackDir, PackCmd::PackImage, PackCmd::BuildImage, PackCmd::CompressDir, PackCmd::CompressImage, PackCmd::ExisoCreate];

impl PackCmd {
    fn args(self, d: &Path) -> Vec<OsString> {
        let j = |x: &str| s(&d.join(x));
        match self {
            PackCmd::PackDir => vec!["pack".into(), j("src"), j("out.iso")],
            PackCmd::PackImage => vec!["pack".into(), j("src.iso"), j("out.iso")],
            PackCmd::BuildImage => vec!["build-image".into(), "-m".into(), "**:/{0}".into(), j("src"), j("out.iso")],
            PackCmd::CompressDir => vec!["compress".into(), j("src"), j("out.cso")],
            PackCmd::CompressImage => vec!["compress".into(), j("src.iso"), j("out.cso")],
            PackCmd::ExisoCreate => vec!["extract-xiso".into(), "-c".into(), j("src"), j("out.iso")],
        }
    }
    pub fn setup(self, d: &Path, t: &Dir) {
        match self {
            PackCmd::PackImage | PackCmd::CompressImage => std::fs::write(d.join("src.iso"), build(t, &layouts()[0]).bytes).unwrap(),
            _ => make_dir(&d.join("src"), t),
        }
    }
    fn clean(self, d: &Path) {
        for f in ["out.iso", "out.1.cso", "out.2.cso", "out.cso"] {
            let _ = std::fs::remove_file(d.join(f));
        }
    }
    /// The output holds the complete image of the source
    pub fn complete(self, d: &Path, t: &Dir) -> Result<(), String> {
        let img = match self {
            PackCmd::CompressDir | PackCmd::CompressImage => crate::cso::read_split(&d.join("out"))?,
            _ => std::fs::read(d.join("out.iso")).map_err(|e| e.to_string())?,
        };
        let v = decode(&img[..])?;
        validate_packed(&img[..], &v)?;
        diff_flat(&flatten(t), &flat_image(&img[..], &v)?)
    }
}

fn c11_trees() -> Vec<Dir> {
    let mut g = gal();
    g.push(vec![("big".into(), file(7, (2 << 20) + 5)), ("b".into(), Node::Dir(vec![("x.x".into(), file(8, 70_000))])), ("a".into(), file(9, (1 << 20) - 2048 * 3))]);
    g.push(vec![]);
    g
}

fn src_change_tree() -> Dir {
    vec![("a".into(), file(1, 3000)), ("d".into(), Node::Dir(vec![("b".into(), file(2, 5000)), ("c".into(), file(3, 1))])), ("z".into(), file(4, 2048))]
}

pub fn c11(ctx: &Ctx) {
    let trees = c11_trees();
    let mut cases = Vec::new();
    for (g, t) in trees.iter().enumerate() {
        for c in PACK_CMDS {
            if c == PackCmd::BuildImage && t.is_empty() {
                continue;
            }
            for a in [Act::Fail, Act::FailFrom, Act::Zero, Act::Short, Act::Eintr] {
                // the calls are spread over chunks so that the work is balanced
                for chunk in 0..8usize {
                    cases.push((g, c, a, chunk));
                }
            }
        }
    }
    ctx.group("io-faults", cases, |&(g, c, a, chunk), o| {
        let t = &trees[g];
        let d = ctx.scratch();
        let w = d.join("w");
        std::fs::create_dir(&w).unwrap();
        c.setup(&w, t);
        let args = c.args(&w);
        let base = xdvdfs(&args, &Opt { shim: Some((w.clone(), None)), ..Opt::default() });
        base.must("packing under observation")?;
        c.complete(&w, t)?;
        let n = base.calls.len();
        let big = n > 400 && !ctx.thorough;
        for i in (chunk..n).step_by(8) {
            // long runs of identical sector writes: the first, the last and some between
            if big && i > 100 && i + 40 < n && (i / 8) % 48 != 0 {
                continue;
            }
            c.clean(&w);
            let r = xdvdfs(&args, &Opt { shim: Some((w.clone(), Some((a, i)))), ..Opt::default() });
            o.steps(r.calls.len() as u64);
            o.state(&(g, c, a, i));
            if r.fired() {
                o.fired();
            }
            let call = &base.calls[i];
            r.orderly().map_err(|e| format!("{a:?} at call \"{call}\": {e}"))?;
            if r.ok() {
                o.outcome("success, complete");
                c.complete(&w, t).map_err(|e| format!("success is reported although call \"{call}\" was made to {a:?}: {e}"))?;
            } else {
                o.outcome("failure reported");
            }
        }
        o.valid();
        Ok(())
    });

    // no more space after n bytes
    let mut cases = Vec::new();
    for (g, t) in trees.iter().enumerate() {
        for c in PACK_CMDS {
            if c == PackCmd::BuildImage && t.is_empty() {
                continue;
            }
            cases.push((g, c));
        }
    }
    ctx.group("file-size-limit", cases, |&(g, c), o| {
        let t = &trees[g];
        let d = ctx.scratch();
        let w = d.path().to_path_buf();
        c.setup(&w, t);
        let args = c.args(&w);
        xdvdfs(&args, &Opt::default()).must("packing")?;
        c.complete(&w, t)?;
        let full = [w.join("out.iso"), w.join("out.1.cso")].iter().filter_map(|p| std::fs::metadata(p).ok()).map(|m| m.len()).max().unwrap_or(0);
        let mut limits: std::collections::BTreeSet<u64> = [0, 1, 2047, 2048, 65536, 33 * 2048, full - 1, full - 2, full.saturating_sub(2047), full.saturating_sub(2048), full.saturating_sub(2049), full.saturating_sub(4096), full / 2, (1 << 20) - 1, 1 << 20, (1 << 20) + 1].into_iter().filter(|x| *x < full).collect();
        for i in 0..ctx.pick(12, 60) {
            limits.insert(full * i / ctx.pick(12, 60));
        }
        for l in limits {
            c.clean(&w);
            let r = xdvdfs(&args, &Opt { fsize: Some(l), ..Opt::default() });
            r.orderly().map_err(|e| format!("files limited to {l} bytes: {e}"))?;
            o.steps(1);
            o.fired();
            o.state(&(g, c, l));
            if r.ok() {
                return Err(format!("success is reported although files cannot exceed {l} of {full} bytes"));
            }
        }
        o.valid();
        Ok(())
    });
    // a device that is always full
    ctx.group("full-device", vec![PackCmd::PackDir, PackCmd::PackImage, PackCmd::BuildImage, PackCmd::ExisoCreate], |&c, o| {
        let d = ctx.scratch();
        let w = d.path().to_path_buf();
        c.setup(&w, &trees[1]);
        let mut args = c.args(&w);
        *args.last_mut().unwrap() = "/dev/full".into();
        let r = xdvdfs(&args, &Opt::default());
        o.steps(1);
        o.fired();
        o.state(&c);
        r.orderly()?;
        if r.ok() {
            return Err("success is reported on a full device".into());
        }
        o.valid();
        Ok(())
    });
    // the source image is cut anywhere
    let mut cases = Vec::new();
    let b = build(&trees[1], &layouts()[0]);
    let mut cuts: std::collections::BTreeSet<usize> = (32..=b.bytes.len() / 2048).flat_map(|x| [x * 2048, x * 2048 - 1, x * 2048 + 1]).collect();
    for (sec, size) in b.extents.values() {
        let e = *sec as usize * 2048 + *size as usize;
        cuts.extend([e, e - 1, e + 1]);
    }
    for cut in cuts {
        if cut < b.bytes.len() {
            for c in [PackCmd::PackImage, PackCmd::CompressImage] {
                cases.push((cut, c));
            }
        }
    }
    ctx.group("truncated-source", cases, |&(cut, c), o| {
        let d = ctx.scratch();
        let w = d.path().to_path_buf();
        std::fs::write(w.join("src.iso"), &b.bytes[..cut]).unwrap();
        let r = xdvdfs(&c.args(&w), &Opt::default());
        o.steps(1);
        o.fired();
        o.state(&(cut, c));
        if c == PackCmd::PackImage {
            r.orderly()?;
        }
        if r.ok() {
            c.complete(&w, &trees[1]).map_err(|e| format!("success is reported for a source cut at {cut}: {e}"))?;
        }
        o.valid();
        Ok(())
    });
    // a source file shrinks, grows or vanishes before any one call
    let t = src_change_tree();
    let mut cases = Vec::new();
    for c in [PackCmd::PackDir, PackCmd::BuildImage, PackCmd::CompressDir, PackCmd::ExisoCreate] {
        for (p, n) in walk(&t) {
            let Node::File { len, .. } = n else { continue };
            for to in [None, Some(0), Some(len / 2), Some(len.saturating_sub(1)), Some(len + 1), Some(len + 5000)] {
                if to != Some(len) {
                    cases.push((c, p.clone(), to));
                }
            }
        }
    }
    ctx.group("source-changes", cases, |(c, p, to), o| {
        let d = ctx.scratch();
        let w = d.join("w");
        let prepare = || {
            let _ = std::fs::remove_dir_all(&w);
            std::fs::create_dir(&w).unwrap();
            c.setup(&w, &t);
        };
        prepare();
        let args = c.args(&w);
        let base = xdvdfs(&args, &Opt { shim: Some((w.clone(), None)), ..Opt::default() });
        base.must("packing under observation")?;
        let path = p.iter().fold(w.join("src"), |a, x| a.join(x));
        let old = std::fs::read(&path).unwrap();
        let want = flatten(&t);
        for i in 0..base.calls.len() {
            prepare();
            let r = xdvdfs(&args, &Opt { shim: Some((w.clone(), Some((Act::Mutate, i)))), mutate: Some((path.clone(), *to)), ..Opt::default() });
            o.steps(r.calls.len() as u64);
            o.state(&(*c, p, *to, i));
            if r.fired() {
                o.fired();
            }
            let call = &base.calls[i];
            r.orderly().map_err(|e| format!("{p:?} changed to {to:?} bytes before \"{call}\": {e}"))?;
            if !r.ok() {
                o.outcome("failure reported");
                continue;
            }
            // the image holds the file as it was, or as it became; everything else is as always
            let img = match c {
                PackCmd::CompressDir => crate::cso::read_split(&w.join("out"))?,
                _ => std::fs::read(w.join("out.iso")).map_err(|e| e.to_string())?,
            };
            let v = decode(&img[..])?;
            let mut got = flat_image(&img[..], &v)?;
            let mut want = want.clone();
            want.remove(p);
            let mut new = old.clone();
            if let Some(n) = to {
                new.resize(*n as usize, 0);
            }
            let mine = got.remove(p);
            let sum = |b: &[u8]| Some((b.len() as u64, data_hash(b)));
            let fine = match mine {
                None => to.is_none(),
                Some(x) => x == sum(&old) || to.is_some() && x == sum(&new),
            };
            if !fine {
                return Err(format!("success is reported, but {p:?}, changed from {} to {to:?} bytes before \"{call}\", is {mine:?} in the image", old.len()));
            }
            diff_flat(&want, &got).map_err(|e| format!("{p:?} changed to {to:?} bytes before \"{call}\": {e}"))?;
            o.outcome("success, old or new contents");
        }
        o.valid();
        Ok(())
    });
    // without an output argument, the output is named after the source and lies in the working directory
    let mut cases = Vec::new();
    for name in ["src", "src.d", "a.b.c", "x.iso", "x.xiso.iso", "two words", ".hidden", "\u{e9}", "-s"] {
        for dir in [true, false] {
            for spell in 0..6usize {
                for compress in [false, true] {
                    cases.push((name, dir, spell, compress));
                }
            }
        }
    }
    ctx.group("default-output", cases, |&(name, dir, spell, compress), o| {
        let d = ctx.scratch();
        let w = d.path();
        let (home, other) = (w.join("home"), w.join("other/deep"));
        std::fs::create_dir(&home).unwrap();
        std::fs::create_dir_all(&other).unwrap();
        match dir {
            true => make_dir(&home.join(name), &trees[1]),
            false => std::fs::write(home.join(name), build(&trees[1], &layouts()[0]).bytes).unwrap(),
        }
        let (cwd, arg) = match spell {
            0 => (&home, format!("./{name}")),
            1 => (&home, s(&home.join(name)).to_string_lossy().into_owned()),
            2 => (&home, format!("../home/./{name}")),
            3 => (&other, format!("../../home/{name}")),
            4 => (&other, s(&home.join(name)).to_string_lossy().into_owned()),
            _ if dir => (&other, format!("../../home/{name}/")),
            _ => (&home, format!("../other/../home/{name}")),
        };
        let stem = match (dir, name.rfind('.')) {
            (false, Some(i)) if i > 0 => &name[..i],
            _ => name,
        };
        // an image named like its own output gives way
        let own = !dir && *cwd == home && format!("{stem}.iso") == name;
        let want = cwd.join(if compress { format!("{stem}.1.cso") } else if own { format!("{stem}.xiso.iso") } else { format!("{stem}.iso") });
        let before = snapshot(w);
        let r = xdvdfs(&[if compress { "compress" } else { "pack" }, &arg], &Opt { cwd: Some(cwd.clone()), ..Opt::default() });
        o.steps(1);
        o.state(&(name, dir, spell, compress));
        r.must(&format!("packing {arg} without an output argument"))?;
        let mut after = snapshot(w);
        let rel = want.strip_prefix(w).unwrap().to_path_buf();
        if after.remove(&rel).is_none() {
            return Err(format!("{arg} in {:?}: {rel:?} was not made", cwd.strip_prefix(w).unwrap()));
        }
        if let Some(x) = snap_diff(&before, &after) {
            return Err(format!("{arg}: besides the output, {x}"));
        }
        let b = std::fs::read(&want).unwrap();
        let b = if compress { crate::cso::decompress(&b)? } else { b };
        o.valid();
        diff_flat(&flatten(&trees[1]), &tree_of(&b[..])?)
    });

    // what is no source at all gives no image, whatever links lead there
    let mut cases = Vec::new();
    for c in PACK_CMDS {
        for kind in ["missing", "dangling", "null", "socket", "to-socket", "empty", "text", "loop", "unreadable", "to-dir", "to-image"] {
            // a file given to build-image is a spec file, and not parsed when rules are given
            if c == PackCmd::BuildImage && matches!(kind, "empty" | "text" | "to-image") {
                continue;
            }
            for spell in [true, false] {
                cases.push((c, kind, spell));
            }
        }
    }
    ctx.group("odd-sources", cases, |&(c, kind, full), o| {
        use std::os::unix::fs::{symlink, PermissionsExt};
        let d = ctx.scratch();
        let w = d.path().to_path_buf();
        let name = if matches!(c, PackCmd::PackImage | PackCmd::CompressImage) { "src.iso" } else { "src" };
        let p = w.join(name);
        let t = &trees[1];
        match kind {
            "missing" => {}
            "dangling" => symlink("nowhere", &p).unwrap(),
            "null" => symlink("/dev/null", &p).unwrap(),
            "socket" => drop(std::os::unix::net::UnixListener::bind(&p).unwrap()),
            "to-socket" => {
                drop(std::os::unix::net::UnixListener::bind(w.join("sock")).unwrap());
                symlink("sock", &p).unwrap();
            }
            "empty" => std::fs::write(&p, b"").unwrap(),
            "text" => std::fs::write(&p, vec![b'x'; 300_000]).unwrap(),
            "loop" => symlink(name, &p).unwrap(),
            "unreadable" => {
                std::fs::create_dir(&p).unwrap();
                std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0)).unwrap();
                std::fs::set_permissions(&w, std::fs::Permissions::from_mode(0o777)).unwrap();
            }
            "to-dir" => {
                make_dir(&w.join("real"), t);
                symlink("real", &p).unwrap();
            }
            _ => {
                std::fs::write(w.join("real"), build(t, &layouts()[0]).bytes).unwrap();
                symlink("real", &p).unwrap();
            }
        }
        let mut args = c.args(&w);
        if !full {
            for a in args.iter_mut() {
                if *a == s(&p) {
                    *a = name.into();
                }
            }
        }
        let r = xdvdfs(&args, &Opt { cwd: Some(w.clone()), nobody: kind == "unreadable", ..Opt::default() });
        o.steps(1);
        o.state(&(c, kind, full));
        o.outcome(format!("{kind}: {}", if r.ok() { "image" } else { "failure reported" }));
        r.orderly()?;
        if r.ok() {
            if !kind.starts_with("to-") || kind == "to-socket" {
                return Err(format!("success with the source {kind}"));
            }
            c.complete(&w, t)?;
        }
        o.valid();
        Ok(())
    });

    // an output that already exists, longer or shorter
    let mut cases = Vec::new();
    for c in PACK_CMDS {
        for n in [0usize, 1, 5000, 1 << 20, 8 << 20] {
            cases.push((c, n));
        }
    }
    ctx.group("existing-output", cases, |&(c, n), o| {
        let d = ctx.scratch();
        let w = d.path().to_path_buf();
        c.setup(&w, &trees[1]);
        for f in ["out.iso", "out.1.cso"] {
            std::fs::write(w.join(f), vec![0x33; n]).unwrap();
        }
        let r = xdvdfs(&c.args(&w), &Opt::default());
        o.steps(1);
        o.state(&(c, n));
        r.must("packing over an existing file")?;
        c.complete(&w, &trees[1]).map_err(|e| format!("over an existing file of {n} bytes: {e}"))?;
        let all = || ["out.iso", "out.1.cso"].map(|f| std::fs::read(w.join(f)).unwrap_or_default());
        let over = all();
        let first = |v: &[Vec<u8>; 2]| v.iter().map(|x| x.len()).collect::<Vec<_>>();
        for f in ["out.iso", "out.1.cso"] {
            let _ = std::fs::remove_file(w.join(f));
        }
        xdvdfs(&c.args(&w), &Opt::default()).must("packing again")?;
        let fresh = all();
        for i in 0..2 {
            if !fresh[i].is_empty() && fresh[i] != over[i] {
                return Err(format!("over an existing file of {n} bytes, the output differs from a fresh one: {:?} bytes instead of {:?}", first(&over), first(&fresh)));
            }
        }
        o.valid();
        Ok(())
    });
}

// ---------------------------------------------------------------- C12

#[derive(Clone, Debug)]
struct Scenario {
    name: &'static str,
    args: Vec<&'static str>,
    /// paths of sources, relative to the working directory
    sources: Vec<&'static str>,
    /// rewritten images: (original, set aside, output)
    rewrite: Vec<(&'static str, &'static str, &'static str)>,
    delete: bool,
}

fn scenarios() -> Vec<Scenario> {
    let v = |name, args: &[&'static str], sources: &[&'static str]| Scenario { name, args: args.to_vec(), sources: sources.to_vec(), rewrite: vec![], delete: false };
    let r = |name, args: &[&'static str], rw: &[(&'static str, &'static str, &'static str)], delete| Scenario { name, args: args.to_vec(), sources: vec![], rewrite: rw.to_vec(), delete };
    vec![
        v("pack directory", &["pack", "src", "out.iso"], &["src"]),
        v("pack image", &["pack", "one.iso", "out.iso"], &["one.iso"]),
        v("pack image, default output", &["pack", "one.iso"], &["one.iso"]),
        v("build-image", &["build-image", "-m", "**:/{0}", "src", "out.iso"], &["src"]),
        v("compress directory", &["compress", "src", "out.cso"], &["src"]),
        v("compress image", &["compress", "one.iso", "out.cso"], &["one.iso"]),
        v("unpack", &["unpack", "one.iso", "x"], &["one.iso"]),
        v("copy-out", &["copy-out", "one.iso", "/b", "x"], &["one.iso"]),
        v("checksum", &["checksum", "one.iso", "two.iso"], &["one.iso", "two.iso"]),
        v("md5", &["md5", "one.iso"], &["one.iso"]),
        v("tree", &["tree", "one.iso"], &["one.iso"]),
        v("create", &["extract-xiso", "-c", "src", "out.iso"], &["src"]),
        v("create by default name", &["extract-xiso", "-c", "src"], &["src"]),
        v("extract", &["extract-xiso", "-d", "x", "-x", "one.iso"], &["one.iso"]),
        r("rewrite", &["extract-xiso", "-r", "one.iso"], &[("one.iso", "one.old", "one.iso")], false),
        r("rewrite two", &["extract-xiso", "-r", "one.iso", "two.iso"], &[("one.iso", "one.old", "one.iso"), ("two.iso", "two.old", "two.iso")], false),
        r("rewrite and delete", &["extract-xiso", "-D", "-r", "one.iso"], &[("one.iso", "one.old", "one.iso")], true),
        r("rewrite two and delete", &["extract-xiso", "-D", "-r", "one.iso", "two.iso"], &[("one.iso", "one.old", "one.iso"), ("two.iso", "two.old", "two.iso")], true),
        r("rewrite into directory", &["extract-xiso", "-d", "dir", "-r", "one.iso"], &[("one.iso", "one.old", "dir/one.iso")], false),
        r("rewrite into directory and delete", &["extract-xiso", "-d", "dir", "-D", "-r", "one.iso"], &[("one.iso", "one.old", "dir/one.iso")], true),
        r("rewrite a broken image", &["extract-xiso", "-D", "-r", "bad.iso"], &[("bad.iso", "bad.old", "bad.iso")], true),
        r("rewrite a cut image", &["extract-xiso", "-D", "-r", "cut.iso"], &[("cut.iso", "cut.old", "cut.iso")], true),
        r("rewrite into a missing directory", &["extract-xiso", "-d", "nowhere/x", "-D", "-r", "one.iso"], &[("one.iso", "one.old", "nowhere/x/one.iso")], true),
    ]
}

fn c12_tree() -> Dir {
    vec![
        ("b".into(), Node::Dir(vec![("c".into(), file(1, 5000)), ("e".into(), Node::Dir(vec![]))])),
        ("z".into(), file(5, 3000)),
    ]
}

fn c12_setup(w: &Path) -> BTreeMap<&'static str, (Vec<u8>, Option<Flat>)> {
    let t = c12_tree();
    let two: Dir = vec![("q".into(), file(8, 1_100_000)), ("d".into(), Node::Dir(vec![("r".into(), file(9, 10))]))];
    make_dir(&w.join("src"), &t);
    std::fs::create_dir(w.join("dir")).unwrap();
    let one = build(&t, &layouts()[3]).bytes;
    let mut bad = one.clone();
    bad[32 * 2048] = 0;
    let cut = one[..one.len() - 2500].to_vec();
    let mut m = BTreeMap::new();
    m.insert("one.iso", (one, Some(flatten(&t))));
    m.insert("two.iso", (build(&two, &layouts()[0]).bytes, Some(flatten(&two))));
    m.insert("bad.iso", (bad, None));
    m.insert("cut.iso", (cut, None));
    for (n, (b, _)) in &m {
        std::fs::write(w.join(n), b).unwrap();
    }
    m
}

/// What must hold at every instant
fn safe(w: &Path, sc: &Scenario, before: &BTreeMap<PathBuf, String>, imgs: &BTreeMap<&'static str, (Vec<u8>, Option<Flat>)>) -> Result<(), String> {
    let after = snapshot(w);
    let rewritten: Vec<&str> = sc.rewrite.iter().map(|r| r.0).collect();
    for (p, v) in before {
        let name = p.to_string_lossy();
        if rewritten.contains(&&*name) {
            continue;
        }
        match after.get(p) {
            Some(x) if x == v => {}
            x => return Err(format!("source {name} changed from {v} to {x:?}")),
        }
    }
    for (orig, old, out) in &sc.rewrite {
        let (bytes, flat) = &imgs[orig];
        let same = |p: &str| std::fs::read(w.join(p)).is_ok_and(|b| b == *bytes);
        let finished = || match (flat, std::fs::read(w.join(out))) {
            (Some(f), Ok(b)) => decode(&b[..]).ok().is_some_and(|t| validate_packed(&b[..], &t).is_ok() && flat_image(&b[..], &t).is_ok_and(|x| x == *f)),
            _ => false,
        };
        if !(same(orig) || same(old) || finished()) {
            return Err(format!("no complete copy of {orig} exists: neither {orig}, nor {old}, nor a finished {out}"));
        }
        // the set-aside file goes away only once the replacement is complete
        if !same(orig) && !w.join(old).exists() && !finished() {
            return Err(format!("{old} was deleted before {out} was complete"));
        }
        if !sc.delete && !same(orig) && !same(old) {
            return Err(format!("the original of {orig} is gone although deletion was not requested"));
        }
    }
    Ok(())
}

pub fn c12(ctx: &Ctx) {
    let scs = scenarios();
    let acts = [Act::Fail, Act::FailFrom, Act::Zero, Act::Short, Act::Kill, Act::Tear, Act::After];
    let mut cases = Vec::new();
    for i in 0..scs.len() {
        for a in acts {
            for chunk in 0..2usize {
                cases.push((i, a, chunk));
            }
        }
    }
    ctx.group("every-instant", cases, |&(i, a, chunk), o| {
        let sc = &scs[i];
        let d = ctx.scratch();
        let w = d.join("w");
        let fresh = || {
            let _ = std::fs::remove_dir_all(&w);
            std::fs::create_dir(&w).unwrap();
            let imgs = c12_setup(&w);
            (snapshot(&w), imgs)
        };
        let (before, imgs) = fresh();
        let opt = |x| Opt { cwd: Some(w.clone()), shim: Some((w.clone(), x)), ..Opt::default() };
        let base = xdvdfs(&sc.args, &opt(None));
        base.orderly()?;
        safe(&w, sc, &before, &imgs).map_err(|e| format!("{}: {e}", sc.name))?;
        if base.ok() {
            for (orig, old, out) in &sc.rewrite {
                if sc.delete && w.join(old).exists() {
                    return Err(format!("{}: {old} was not deleted", sc.name));
                }
                let b = std::fs::read(w.join(out)).map_err(|e| e.to_string())?;
                if imgs[orig].1.as_ref() != Some(&tree_of(&b[..])?) {
                    return Err(format!("{}: {out} has other contents than {orig}", sc.name));
                }
            }
        }
        let n = base.calls.len();
        for k in (chunk..n).step_by(2) {
            if !ctx.thorough && n > 150 && k > 60 && k + 40 < n && (k / 2) % 12 != 0 {
                continue; // long runs of alike sector writes
            }
            let (before, imgs) = fresh();
            let r = xdvdfs(&sc.args, &opt(Some((a, k))));
            o.steps(r.calls.len() as u64);
            o.state(&(i, a, k));
            if r.fired() || r.signal.is_some() {
                o.fired();
            }
            safe(&w, sc, &before, &imgs).map_err(|e| format!("{}: {a:?} at call \"{}\": {e}", sc.name, base.calls[k]))?;
        }
        o.valid();
        Ok(())
    });

    // outputs that are the source or lie inside it, however they are written
    // (working directory, arguments); all must be refused with nothing changed
    let refused: Vec<(&str, Vec<&str>)> = vec![
        (".", vec!["pack", "src", "src"]),
        (".", vec!["pack", "src", "src/"]),
        (".", vec!["pack", "src", "src/out.iso"]),
        (".", vec!["pack", "src/", "./src/out.iso"]),
        (".", vec!["pack", "./src", "src/b/out.iso"]),
        (".", vec!["pack", "src", "dir/../src/out.iso"]),
        (".", vec!["pack", "src", "link/out.iso"]),
        (".", vec!["pack", "link", "src/out.iso"]),
        (".", vec!["pack", "link", "link/out.iso"]),
        (".", vec!["pack", "link", "link/b/out.iso"]),
        (".", vec!["pack", "src", "linkb/out.iso"]),
        (".", vec!["pack", "src", "src/z"]),
        ("src", vec!["pack", ".", "out.iso"]),
        ("src", vec!["pack", "../src", "out.iso"]),
        ("src", vec!["pack", "../src"]),
        ("src/b", vec!["pack", "..", "out.iso"]),
        ("src/b", vec!["pack", "../../src"]),
        (".", vec!["pack", "src", "ABS/src/out.iso"]),
        (".", vec!["pack", "ABS/src", "src/out.iso"]),
        (".", vec!["pack", "one.iso", "one.iso"]),
        (".", vec!["pack", "one.iso", "./one.iso"]),
        (".", vec!["pack", "one.iso", "dir/../one.iso"]),
        (".", vec!["pack", "one.iso", "ABS/one.iso"]),
        (".", vec!["pack", "one.iso", "l1.iso"]),
        (".", vec!["pack", "l1.iso", "one.iso"]),
        (".", vec!["pack", "l1.iso", "l1.iso"]),
        ("src", vec!["pack", "../one.iso", "../one.iso"]),
        (".", vec!["compress", "src", "src/out.cso"]),
        (".", vec!["compress", "src", "link/out.cso"]),
        (".", vec!["compress", "link", "src/b/out.cso"]),
        (".", vec!["compress", "src", "src"]),
        ("src", vec!["compress", ".", "out.cso"]),
        ("src", vec!["compress", "../src"]),
        (".", vec!["compress", "one.iso", "one.iso"]),
        (".", vec!["compress", "one.iso", "l1.iso"]),
        (".", vec!["compress", "raw.1.cso", "raw.cso"]),
        (".", vec!["extract-xiso", "-c", "src", "src/out.iso"]),
        (".", vec!["extract-xiso", "-c", "src", "src"]),
        (".", vec!["extract-xiso", "-c", "link", "src/b/out.iso"]),
        ("src", vec!["extract-xiso", "-c", ".", "out.iso"]),
        (".", vec!["build-image", "-m", "**:/{0}", "src", "src/z"]),
        (".", vec!["build-image", "-m", "**:/{0}", "src", "link/b/c"]),
        (".", vec!["build-image", "-m", "b:/x", "-O", "b/c", "src"]),
        ("src", vec!["build-image", "-m", "**:/{0}", "-O", "z"]),
        ("src", vec!["build-image", "-m", "**:/{0}", ".", "./z"]),
        (".", vec!["extract-xiso", "-c", "src", "ok.iso", "-c", "src", "src/out.iso"]),
    ];
    ctx.group("refused", refused, |(cwd, args), o| {
        let d = ctx.scratch();
        let w = d.join("w");
        std::fs::create_dir(&w).unwrap();
        c12_setup(&w);
        std::fs::copy(w.join("one.iso"), w.join("raw.1.cso")).unwrap();
        use std::os::unix::fs::symlink;
        symlink("src", w.join("link")).unwrap();
        symlink(w.join("src/b"), w.join("linkb")).unwrap();
        symlink("one.iso", w.join("l1.iso")).unwrap();
        let abs = w.to_string_lossy();
        let a: Vec<String> = args.iter().map(|x| x.replace("ABS", &abs)).collect();
        let before = snapshot(&w);
        let r = run_cli(&a, &w.join(cwd));
        o.steps(1);
        o.state(&(cwd, args));
        r.orderly()?;
        if r.ok() {
            return Err("accepted".into());
        }
        let mut after = snapshot(&w);
        after.remove(Path::new("ok.iso"));
        if let Some(x) = snap_diff(&before, &after) {
            return Err(format!("refused, but {x}"));
        }
        o.valid();
        Ok(())
    });
    // and close by, but outside: accepted
    let accepted: Vec<(&str, Vec<&str>, &str)> = vec![
        (".", vec!["pack", "src", "src2.iso"], "src2.iso"),
        (".", vec!["pack", "src", "srcx"], "srcx"),
        (".", vec!["pack", "src"], "src.iso"),
        ("src", vec!["pack", ".", "../o.iso"], "o.iso"),
        (".", vec!["pack", "one.iso", "one.iso.2"], "one.iso.2"),
        (".", vec!["pack", "one.iso"], "one.xiso.iso"),
        ("dir", vec!["pack", "../one.iso"], "dir/one.iso"),
        (".", vec!["pack", "link", "dir/o.iso"], "dir/o.iso"),
        (".", vec!["extract-xiso", "-c", "src", "src.o"], "src.o"),
        ("src", vec!["build-image", "-m", "**:/{0}", "-O", "new.iso"], "src/new.iso"),
    ];
    ctx.group("accepted", accepted, |(cwd, args, out), o| {
        let d = ctx.scratch();
        let w = d.join("w");
        std::fs::create_dir(&w).unwrap();
        c12_setup(&w);
        std::os::unix::fs::symlink("src", w.join("link")).unwrap();
        let before = snapshot(&w);
        let r = run_cli(args, &w.join(cwd));
        o.steps(1);
        o.state(&(cwd, args));
        r.must("packing next to the source")?;
        let b = std::fs::read(w.join(out)).map_err(|e| format!("{out}: {e}"))?;
        diff_flat(&flatten(&c12_tree()), &tree_of(&b[..])?)?;
        let mut after = snapshot(&w);
        after.remove(Path::new(out));
        if let Some(x) = snap_diff(&before, &after) {
            return Err(x);
        }
        o.valid();
        Ok(())
    });
    let _ = Ctl::new();
}

/// C20: what the packing commands print about their progress
pub fn c20_printed(ctx: &Ctx) {
    let mut trees = small_trees(ctx.pick(3, 4));
    trees.extend(c11_trees());
    let mut cases = Vec::new();
    for t in &trees {
        for c in PACK_CMDS {
            if c == PackCmd::BuildImage && t.is_empty() {
                continue;
            }
            cases.push((t, c));
        }
    }
    ctx.group("printed", cases, |&(t, c), o| {
        let d = ctx.scratch();
        c.setup(d.path(), t);
        let r = xdvdfs(&c.args(d.path()), &Opt::default());
        r.must(&format!("{c:?}"))?;
        o.steps(1);
        o.state(&(hash(t), c));
        let cso = matches!(c, PackCmd::CompressDir | PackCmd::CompressImage);
        let img = if cso { crate::cso::read_split(&d.join("out"))? } else { std::fs::read(d.join("out.iso")).unwrap() };
        let v = decode(&img[..])?;
        let (mut dirs, mut ents) = (std::collections::BTreeMap::new(), std::collections::BTreeMap::new());
        crate::img::each(&v, &mut Vec::new(), &mut |p, t| {
            dirs.insert(p.join("/"), t.sector as u64);
            for e in &t.ents {
                let mut q = p.to_vec();
                q.push(e.name_str());
                ents.insert(q.join("/"), e.sector as u64);
            }
        });
        let want = dirs.len() + ents.len();
        let src = d.join("src").to_string_lossy().into_owned();
        let mut n = 0;
        for l in r.out.lines() {
            let Some((head, rest)) = l.split_once("Added ") else { continue };
            let Some((what, rest)) = rest.split_once(": ") else { continue };
            let Some((path, sec)) = rest.rsplit_once(" at sector ") else { continue };
            let path = path.trim_matches('"');
            let path = path.strip_prefix(&src).unwrap_or(path).trim_matches('/');
            n += 1;
            if head.starts_with('[') && head.trim() != format!("[{n}/{want}]") || head.is_empty() && !cso {
                return Err(format!("line {n} of {want} is counted {head:?}"));
            }
            let at = if what == "dir" { dirs.remove(path) } else { ents.remove(path) };
            match at {
                None => return Err(format!("line {l:?}: no such {what}, or told before")),
                Some(x) if Ok(x) != sec.parse() => return Err(format!("line {l:?}: it lies at {x}")),
                _ => {}
            }
        }
        if let Some(x) = dirs.keys().chain(ents.keys()).next() {
            return Err(format!("nothing told about {x:?}"));
        }
        if cso {
            let counts: Vec<&str> = r.out.split("Compressing sectors (").skip(1).filter_map(|x| x.split_once(')').map(|y| y.0)).collect();
            for (i, x) in counts.iter().enumerate() {
                if *x != format!("{}/{}", i + 1, counts.len()) {
                    return Err(format!("{} of {} sectors told as {x}", i + 1, counts.len()));
                }
            }
            if counts.is_empty() {
                return Err("nothing told about sectors".into());
            }
        }
        o.valid();
        Ok(())
    });
}
