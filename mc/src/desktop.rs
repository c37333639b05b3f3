//! C26: the commands of the desktop application, compiled unchanged against a stand-in for tauri that invokes one command
//! and prints its events and its reply.

use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};

use serde_json::Value;
use xdvdfs::write::img::ProgressInfo;

use crate::cli::*;
use crate::fw::*;
use crate::img::*;
use crate::model::*;
use crate::pack::*;
use crate::read::small_trees;
use crate::repack::OFFSETS;

fn desktop() -> PathBuf {
    PathBuf::from(std::env::var_os("XMC_DESKTOP").expect("XMC_DESKTOP"))
}

/// One invoked command
pub struct Did {
    pub ran: Ran,
    pub events: Vec<(String, Value)>,
}

impl Did {
    pub fn ok(&self) -> bool {
        self.ran.ok()
    }
    /// Either success or an error message for the user, neither a panic nor a crash
    pub fn orderly(&self) -> Result<(), String> {
        self.ran.orderly()?;
        if self.ran.code != Some(0) && self.ran.code != Some(1) {
            return Err(format!("exit status {:?}: {}", self.ran.code, clip(&self.ran.err, 300)));
        }
        let last: Value = self.ran.out.lines().last().and_then(|l| serde_json::from_str(l).ok()).ok_or_else(|| format!("no reply: {}", clip(&self.ran.err, 300)))?;
        match &last["reply"] {
            Value::Null if self.ran.ok() => Ok(()),
            Value::String(s) if !s.is_empty() && !self.ran.ok() => Ok(()),
            v => Err(format!("the reply is {v}")),
        }
    }
    fn must(&self, what: &str) -> Result<(), String> {
        self.orderly().map_err(|e| format!("{what}: {e}"))?;
        if self.ok() {
            Ok(())
        } else {
            Err(format!("{what} failed: {} {}", self.ran.out.lines().last().unwrap_or(""), clip(&self.ran.err, 300)))
        }
    }
    fn pack_events(&self) -> Result<Vec<ProgressInfo>, String> {
        self.events.iter().filter(|e| e.0 == "progress_callback").map(|e| serde_json::from_value(e.1.clone()).map_err(|x| format!("event {}: {x}", e.1))).collect()
    }
}

pub fn invoke(cmd: &str, src: &Path, dst: &Path, opt: &Opt) -> Did {
    let opt = Opt { program: opt.program.clone().or_else(|| Some(desktop())), ..opt.clone() };
    let ran = xdvdfs(&[cmd.as_ref(), src.as_os_str(), dst.as_os_str()], &opt);
    let mut events = Vec::new();
    for l in ran.out.lines() {
        if let Ok(v) = serde_json::from_str::<Value>(l) {
            if let Some(n) = v["event"].as_str() {
                events.push((n.to_string(), v["payload"].clone()));
            }
        }
    }
    Did { ran, events }
}

/// What is made, from what, and where to
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Do {
    PackDir,
    PackImage,
    CompressDir,
    CompressImage,
    /// to a file name instead of a directory
    CompressTo,
    Unpack,
}
pub const DO: [Do; 6] = [Do::PackDir, Do::PackImage, Do::CompressDir, Do::CompressImage, Do::CompressTo, Do::Unpack];

impl Do {
    pub fn cmd(self) -> &'static str {
        match self {
            Do::PackDir | Do::PackImage => "pack_image",
            Do::Unpack => "unpack_image",
            _ => "compress_image",
        }
    }
    pub fn from_image(self) -> bool {
        matches!(self, Do::PackImage | Do::CompressImage | Do::Unpack)
    }
    pub fn src(self, w: &Path) -> PathBuf {
        w.join(if self.from_image() { "src.iso" } else { "src" })
    }
    pub fn dst(self, w: &Path) -> PathBuf {
        w.join(match self {
            Do::PackDir | Do::PackImage => "o.iso",
            Do::CompressTo => "out/o.cso",
            _ => "out",
        })
    }
    pub fn setup(self, w: &Path, t: &Dir, lay: &Lay, off: u64) {
        if self.from_image() {
            write_at(&w.join("src.iso"), &build(t, lay).bytes, off);
        } else {
            make_dir(&w.join("src"), t);
        }
        self.clean(w);
    }
    /// An empty place for the output
    pub fn clean(self, w: &Path) {
        let _ = std::fs::remove_file(w.join("o.iso"));
        let _ = std::fs::remove_dir_all(w.join("out"));
        if self != Do::Unpack {
            std::fs::create_dir(w.join("out")).unwrap();
        }
    }
    fn run(self, w: &Path, opt: &Opt) -> Did {
        invoke(self.cmd(), &self.src(w), &self.dst(w), opt)
    }
    /// The image that was made
    fn image(self, w: &Path) -> Result<Vec<u8>, String> {
        match self {
            Do::PackDir | Do::PackImage => std::fs::read(w.join("o.iso")).map_err(|e| e.to_string()),
            Do::CompressDir => crate::cso::read_split(&w.join("out/src")),
            Do::CompressImage => crate::cso::read_split(&w.join("out/src")).or_else(|_| crate::cso::read_split(&w.join("out/src.iso"))),
            Do::CompressTo => crate::cso::read_split(&w.join("out/o")),
            Do::Unpack => Err("no image".into()),
        }
    }
    /// The output is the whole of the source and the only thing made
    pub fn complete(self, w: &Path, t: &Dir) -> Result<(), String> {
        let mut made: Vec<String> = snapshot(w).keys().map(|k| k.to_string_lossy().into_owned()).filter(|k| !k.starts_with("src") && k != "out").collect();
        if self == Do::Unpack {
            made.retain(|k| !k.starts_with("out/"));
            if !made.is_empty() {
                return Err(format!("also made {made:?}"));
            }
            return exact(&w.join("out"), &Node::Dir(t.clone()));
        }
        if made.len() != 1 {
            return Err(format!("made {made:?}"));
        }
        let img = self.image(w)?;
        let v = decode(&img[..])?;
        validate_packed(&img[..], &v)?;
        diff_flat(&flatten(t), &flat_image(&img[..], &v)?)
    }
    fn check_events(self, w: &Path, t: &Dir, d: &Did) -> Result<(), String> {
        let ev = d.pack_events()?;
        if self == Do::Unpack {
            let entries = walk(t);
            let counts: Vec<usize> = ev.iter().filter_map(|e| if let ProgressInfo::FileCount(n) = e { Some(*n) } else { None }).collect();
            let mut added: BTreeMap<PathBuf, usize> = BTreeMap::new();
            for e in &ev {
                if let ProgressInfo::FileAdded(p, _) = e {
                    *added.entry(p.into()).or_default() += 1;
                }
            }
            added.remove(&w.join("out/")); // the mark of an empty directory
            if added.values().any(|n| *n != 1) && added.iter().any(|(p, n)| *n != 1 && !p.is_dir()) {
                return Err(format!("entries are reported several times: {added:?}"));
            }
            for (p, _) in &entries {
                if !added.contains_key(&p.iter().fold(w.join("out"), |a, x| a.join(x))) {
                    return Err(format!("{p:?} is not reported"));
                }
            }
            if counts.len() != 1 || counts[0] < entries.len() {
                return Err(format!("{} entries are announced as {counts:?}", entries.len()));
            }
            return Ok(());
        }
        o_events(&PackRun { tree: t, want: flatten(t), image: self.image(w)?, events: ev, host_root: (self == Do::PackDir).then(|| self.src(w)) })?;
        if self.cmd() != "compress_image" {
            return Ok(());
        }
        let c: Vec<&Value> = d.events.iter().filter(|e| e.0 == "compress_callback").map(|e| &e.1).collect();
        let sectors = self.image(w)?.len() as u64 / 2048;
        match (c.first(), c.last()) {
            (Some(a), Some(z)) if z.as_str() == Some("Finished") => {
                let n = a["SectorCount"].as_u64().ok_or("the first event is no sector count")?;
                let done: u64 = c.iter().filter_map(|v| v["SectorsDone"].as_u64()).sum();
                if n < sectors || n > sectors + 1 || done > n {
                    return Err(format!("{n} sectors announced, {done} done, of {sectors}"));
                }
                Ok(())
            }
            x => Err(format!("compression events {x:?}")),
        }
    }
}

pub fn c26(ctx: &Ctx) {
    let lays = layouts();

    // every command on every small tree, in every layout of a source image
    let trees = small_trees(ctx.pick(3, 4));
    let mut cases = Vec::new();
    for t in &trees {
        for c in DO {
            for l in 0..if c.from_image() { lays.len() } else { 1 } {
                cases.push((t, c, l));
            }
        }
    }
    ctx.group("trees", cases, |&(t, c, l), o| {
        let d = ctx.scratch();
        let w = d.path();
        c.setup(w, t, &lays[l], OFFSETS[l % 4]);
        let r = c.run(w, &Opt::default());
        r.must("the command")?;
        c.complete(w, t)?;
        c.check_events(w, t, &r)?;
        o.steps(r.events.len() as u64);
        o.state(&(hash(t), c, l));
        o.outcome(format!("{c:?}"));
        o.valid();
        Ok(())
    });

    // larger trees: the same image and tree as the command line gives
    let mut big: Vec<Dir> = crate::fault::gallery();
    big.extend(gal());
    big.push(vec![]);
    big.push((0..300).map(|i| (numbered(i, 12), if i % 7 == 0 { Node::Dir(vec![(numbered(i, 3), file(i as u64, 77)), ("e".into(), Node::Dir(vec![]))]) } else { file(i as u64, i as u64) })).collect());
    big.push(vec![("big".into(), file(7, (2 << 20) + 5)), ("b".into(), Node::Dir(vec![("x.x".into(), file(8, 70_000))])), ("a".into(), file(9, (1 << 20) - 2048 * 3))]);
    let mut deep: Dir = vec![("leaf".into(), file(9, 9))];
    for i in 0..40 {
        deep = vec![(format!("d{i}"), Node::Dir(deep)), ("e".into(), file(i, 1)), ("z".into(), Node::Dir(vec![]))];
    }
    big.push(deep);
    let mut cases = Vec::new();
    for t in 0..big.len() {
        for c in DO {
            for l in 0..if c.from_image() { lays.len() } else { 1 } {
                cases.push((t, c, l));
            }
        }
    }
    ctx.group("larger", cases, |&(t, c, l), o| {
        let t = &big[t];
        let d = ctx.scratch();
        let w = d.path();
        c.setup(w, t, &lays[l], OFFSETS[(l + 1) % 4]);
        let r = c.run(w, &Opt::default());
        r.must("the command")?;
        c.complete(w, t)?;
        c.check_events(w, t, &r)?;
        if c != Do::Unpack {
            let q = d.path().with_extension("cli");
            let e = run_cli(&["pack".as_ref(), c.src(w).as_os_str(), q.as_os_str()], w);
            let same = std::fs::read(&q).map(|b| Ok(b) == c.image(w));
            let _ = std::fs::remove_file(&q);
            e.must("packing with the command line")?;
            if !same.map_err(|e| e.to_string())? {
                return Err("the image differs from that of the command line".into());
            }
        }
        o.steps(r.events.len() as u64);
        o.state(&(hash(t), c, l));
        o.valid();
        Ok(())
    });

    // every kind of contents
    let mut cases = Vec::new();
    for (i, x) in crate::repack::content_cases().into_iter().enumerate() {
        for c in DO {
            if ctx.thorough || c == Do::Unpack || i % 3 == c as usize % 3 {
                cases.push((x, c));
            }
        }
    }
    ctx.group("contents", cases, |&((k, n), c), o| {
        let t = crate::repack::content_tree(k, n);
        let d = ctx.scratch();
        let w = d.path();
        c.setup(w, &t, &lays[n as usize % lays.len()], 0);
        c.run(w, &Opt::default()).must("the command")?;
        c.complete(w, &t)?;
        o.steps(1);
        o.state(&(k, n, c));
        o.valid();
        Ok(())
    });

    // the last sector ends with file data, in every alignment of the compressed data
    let ks: Vec<u64> = ctx.pick((0..48).collect(), (0..1024).collect());
    ctx.group("last-sector", ks, |&k, o| {
        let t: Dir = vec![("a".into(), file((k + 7) | SOFT, 30 * 2048 - k))];
        let c = [Do::CompressDir, Do::CompressImage, Do::CompressTo][k as usize % 3];
        let d = ctx.scratch();
        let w = d.path();
        c.setup(w, &t, &lays[0], 0);
        c.run(w, &Opt::default()).must("the command")?;
        c.complete(w, &t)?;
        o.steps(1);
        o.state(&k);
        o.valid();
        Ok(())
    });

    // images of so many sectors: the reported work adds up to no more than there is
    let mut cases = Vec::new();
    for base in ctx.pick(vec![690u64, 1430, 2170], (0..12).map(|k| 690 + 739 * k).collect()) {
        // (images are made in steps of 32 sectors: 8864 is the first to tell batches of 739 from batches of 738)
        for n in (base..base + 24).chain((base == 690).then_some(8810)) {
            cases.push((n, if n % 2 == 0 { Do::CompressDir } else { Do::CompressImage }));
            cases.push((n, if n % 2 == 1 { Do::CompressDir } else { Do::CompressImage }));
        }
    }
    ctx.group("sector-counts", cases, |&(n, c), o| {
        let t: Dir = vec![("a".into(), file(1 | SOFT, n * 2048))];
        let d = ctx.scratch();
        let w = d.path();
        c.setup(w, &t, &lays[0], 0);
        let r = c.run(w, &Opt::default());
        r.must("the command")?;
        c.complete(w, &t)?;
        c.check_events(w, &t, &r)?;
        o.steps(r.events.len() as u64);
        o.state(&(n, c));
        o.valid();
        Ok(())
    });

    // every I/O call misbehaves once
    let gallery: Vec<Dir> = gal().into_iter().chain([vec![]]).collect();
    let mut cases = Vec::new();
    for g in 0..gallery.len() {
        for c in DO {
            for a in [Act::Fail, Act::FailFrom, Act::Zero, Act::Short, Act::Eintr] {
                for chunk in 0..4usize {
                    cases.push((g, c, a, chunk));
                }
            }
        }
    }
    ctx.group("io-faults", cases, |&(g, c, a, chunk), o| {
        let t = &gallery[g];
        let d = ctx.scratch();
        let w = d.join("w");
        std::fs::create_dir(&w).unwrap();
        c.setup(&w, t, &lays[0], 0);
        let base = c.run(&w, &Opt { shim: Some((w.clone(), None)), ..Opt::default() });
        base.must("the command under observation")?;
        c.complete(&w, t)?;
        for i in (chunk..base.ran.calls.len()).step_by(4) {
            c.clean(&w);
            let r = c.run(&w, &Opt { shim: Some((w.clone(), Some((a, i)))), ..Opt::default() });
            o.steps(r.ran.calls.len() as u64);
            o.state(&(g, c, a, i));
            if r.ran.fired() {
                o.fired();
            }
            let call = &base.ran.calls[i];
            r.orderly().map_err(|e| format!("{a:?} at call \"{call}\": {e}"))?;
            if r.ok() {
                o.outcome("success, complete");
                c.complete(&w, t).map_err(|e| format!("success is reported although call \"{call}\" was made to {a:?}: {e}"))?;
            } else {
                o.outcome("failure reported");
            }
        }
        o.valid();
        Ok(())
    });

    // no space after n bytes, and a device that is always full
    let mut cases = Vec::new();
    for g in 0..gallery.len() {
        for c in DO {
            cases.push((g, c));
        }
    }
    ctx.group("file-size-limit", cases, |&(g, c), o| {
        let t = &gallery[g];
        let d = ctx.scratch();
        let w = d.path();
        c.setup(w, t, &lays[0], 0);
        let mut limits: BTreeSet<u64> = [0u64, 1, 50, 99, 100, 101, 2047, 2048, 2049, 4096, 4999, 5000, 9999, 10_000, 33 * 2048, 65536].into();
        c.run(w, &Opt::default()).must("the command")?;
        for f in ["o.iso", "out/src.1.cso", "out/src.iso.1.cso", "out/o.1.cso"] {
            if let Ok(m) = std::fs::metadata(w.join(f)) {
                limits.extend([1, 2, 4, 5, 2048, m.len() / 2].map(|x| m.len().saturating_sub(x)));
            }
        }
        for l in limits {
            c.clean(w);
            let r = c.run(w, &Opt { fsize: Some(l), ..Opt::default() });
            r.orderly().map_err(|e| format!("files limited to {l} bytes: {e}"))?;
            o.steps(1);
            o.fired();
            o.state(&(g, c, l));
            if r.ok() {
                c.complete(w, t).map_err(|e| format!("success is reported with files limited to {l} bytes: {e}"))?;
            }
        }
        o.valid();
        Ok(())
    });
    ctx.group("full-device", vec![Do::PackDir, Do::PackImage], |&c, o| {
        let d = ctx.scratch();
        let w = d.path();
        c.setup(w, &gallery[1], &lays[0], 0);
        let r = invoke(c.cmd(), &c.src(w), Path::new("/dev/full"), &Opt::default());
        o.steps(1);
        o.fired();
        o.state(&c);
        r.orderly()?;
        if r.ok() {
            return Err("success is reported on a full device".into());
        }
        o.valid();
        Ok(())
    });

    // source images cut anywhere
    let mut cases = Vec::new();
    for g in 0..gallery.len() {
        for l in ctx.pick(vec![0usize, 2], (0..lays.len()).collect()) {
            let b = build(&gallery[g], &lays[l]);
            let mut cuts: BTreeSet<usize> = (32..=b.bytes.len() / 2048).flat_map(|x| [x * 2048 - 1, x * 2048, x * 2048 + 1]).collect();
            for (sec, size) in b.extents.values() {
                let (s, n) = (*sec as usize * 2048, *size as usize);
                cuts.extend([s + n, s + n + 1, (s + n).saturating_sub(1), s + n / 2]);
            }
            for cut in cuts {
                if cut < b.bytes.len() {
                    cases.push((g, l, cut));
                }
            }
        }
    }
    ctx.group("truncated", cases, |&(g, l, cut), o| {
        let t = &gallery[g];
        let d = ctx.scratch();
        let w = d.path();
        for c in [Do::Unpack, Do::PackImage, Do::CompressImage] {
            c.setup(w, t, &lays[l], 0);
            std::fs::File::options().write(true).open(w.join("src.iso")).unwrap().set_len(cut as u64).unwrap();
            let r = c.run(w, &Opt::default());
            o.steps(1);
            r.orderly().map_err(|e| format!("{c:?} of an image cut at {cut}: {e}"))?;
            if r.ok() {
                c.complete(w, t).map_err(|e| format!("{c:?} of an image cut at {cut} reports success, but {e}"))?;
            }
            c.clean(w);
            let _ = std::fs::remove_dir_all(w.join("out"));
            o.outcome(if r.ok() { "success, complete" } else { "failure reported" });
        }
        o.fired();
        o.state(&(g, l, cut));
        o.valid();
        Ok(())
    });

    // nothing to work on: an error, whatever the command
    let mut cases = Vec::new();
    for c in ["pack_image", "unpack_image", "compress_image"] {
        for k in 0..7usize {
            cases.push((c, k));
        }
    }
    ctx.group("invalid", cases, |&(c, k), o| {
        let d = ctx.scratch();
        let w = d.path();
        std::fs::create_dir(w.join("out")).unwrap();
        std::fs::write(w.join("file"), "x").unwrap();
        let (src, dst): (PathBuf, PathBuf) = match k {
            0 => (w.join("nothing"), w.join("out/o")),
            1 => {
                std::fs::write(w.join("empty"), "").unwrap();
                (w.join("empty"), w.join("out/o"))
            }
            2 => {
                std::fs::write(w.join("junk"), vec![0x5a; 300_000]).unwrap();
                (w.join("junk"), w.join("out/o"))
            }
            3 => {
                let mut b = build(&gal()[1], &lays[0]).bytes;
                b[32 * 2048 + 2030] ^= 1;
                std::fs::write(w.join("bad"), b).unwrap();
                (w.join("bad"), w.join("out/o"))
            }
            4 => (PathBuf::new(), w.join("out/o")),
            // a destination below a file
            5 => {
                std::fs::write(w.join("i.iso"), build(&gal()[1], &lays[0]).bytes).unwrap();
                (w.join("i.iso"), w.join("file/o"))
            }
            _ => {
                std::os::unix::fs::symlink("nowhere", w.join("dangling")).unwrap();
                (w.join("dangling"), w.join("out/o"))
            }
        };
        let before = snapshot(w);
        let r = invoke(c, &src, &dst, &Opt { cwd: Some(w.to_path_buf()), ..Opt::default() });
        o.steps(1);
        o.state(&(c, k));
        r.orderly()?;
        if r.ok() {
            return Err("success is reported".into());
        }
        let mut after = snapshot(w);
        after.retain(|p, _| before.contains_key(p));
        if let Some(x) = snap_diff(&before, &after) {
            return Err(x);
        }
        o.valid();
        Ok(())
    });

    // the output must not be the source, or lie within it, by whatever path it is named
    let mut cases = Vec::new();
    for c in [Do::PackDir, Do::PackImage, Do::CompressDir, Do::CompressImage, Do::CompressTo] {
        for k in 0..12usize {
            cases.push((c, k));
        }
    }
    ctx.group("source-protected", cases, |&(c, k), o| {
        let t = &gal()[1];
        let d = ctx.scratch();
        let w = d.path();
        c.setup(w, t, &lays[0], 0);
        let src = c.src(w);
        let name = src.file_name().unwrap().to_os_string();
        std::os::unix::fs::symlink(&src, w.join("link")).unwrap();
        std::os::unix::fs::symlink(w, w.join("self")).unwrap();
        let inside = |p: &Path| if c.from_image() { p.to_path_buf() } else { p.join("b/new") };
        let (from, to): (PathBuf, PathBuf) = match k {
            0 => (src.clone(), src.clone()),
            1 => (src.clone(), w.join("link")),
            2 => (w.join("link"), src.clone()),
            3 => (src.clone(), w.join("self").join(&name)),
            4 => (w.join("self/self").join(&name), src.clone()),
            5 => (PathBuf::from(&name), src.clone()),
            6 => (src.clone(), PathBuf::from(".").join(&name)),
            7 => (src.clone(), w.join("out/..").join(&name)),
            8 => (src.clone(), inside(&src)),
            9 => (src.clone(), inside(&w.join("link"))),
            10 => (w.join("link"), inside(&src)),
            _ => (PathBuf::from(&name), inside(&w.join("self").join(&name))),
        };
        let before = snapshot(w);
        let r = invoke(c.cmd(), &from, &to, &Opt { cwd: Some(w.to_path_buf()), ..Opt::default() });
        o.steps(1);
        o.state(&(c, k));
        r.orderly()?;
        o.outcome(if r.ok() { "made elsewhere" } else { "refused" });
        let mut after = snapshot(w);
        if !c.from_image() {
            // nothing may appear within a source directory either
            if let Some(x) = snap_diff(&before.clone().into_iter().filter(|x| x.0.starts_with("src")).collect(), &after.clone().into_iter().filter(|x| x.0.starts_with("src")).collect()) {
                return Err(format!("{} to {}: {x}", from.display(), to.display()));
            }
        }
        after.retain(|p, _| before.contains_key(p));
        if let Some(x) = snap_diff(&before, &after) {
            return Err(format!("{} to {}: {x}", from.display(), to.display()));
        }
        o.valid();
        Ok(())
    });

    // an output that already exists, and destinations of every kind
    let mut cases = Vec::new();
    for c in DO {
        for n in [0usize, 1, 5000, 1 << 20] {
            cases.push((c, n));
        }
    }
    ctx.group("existing-output", cases, |&(c, n), o| {
        let d = ctx.scratch();
        let w = d.path();
        let t = if c == Do::Unpack { vec![("a".into(), file(1, 100)), ("e".into(), file(2, 0)), ("z".into(), file(3, 9000))] } else { gal()[1].clone() };
        c.setup(w, &t, &lays[0], 0);
        c.run(w, &Opt::default()).must("the command")?;
        let mut grown = 0;
        for (p, k) in snapshot(w) {
            if !p.starts_with("src") && !p.starts_with("src.iso") && k.starts_with("file") {
                std::fs::write(w.join(p), vec![0x33; n]).unwrap();
                grown += 1;
            }
        }
        c.run(w, &Opt::default()).must("the command over existing files")?;
        c.complete(w, &t).map_err(|e| format!("over {grown} existing files of {n} bytes: {e}"))?;
        o.steps(2);
        o.state(&(c, n));
        o.valid();
        Ok(())
    });
    ctx.group("destinations", (0..6usize).collect(), |&k, o| {
        let t = &gal()[1];
        let d = ctx.scratch();
        let w = d.path();
        let whole = Node::Dir(t.clone());
        std::fs::write(w.join("a.b.iso"), build(t, &lays[0]).bytes).unwrap();
        std::fs::create_dir_all(w.join("x.y/z")).unwrap();
        let opt = Opt { cwd: Some(w.to_path_buf()), ..Opt::default() };
        let img = |p: &Path| -> Result<(), String> {
            let i = crate::cso::read_split(p)?;
            diff_flat(&flatten(t), &tree_of(&i[..])?)
        };
        let go = |c: &str, a: &str, b: &str| invoke(c, Path::new(a), Path::new(b), &opt).must(c);
        o.steps(1);
        o.state(&k);
        match k {
            0 => go("unpack_image", "a.b.iso", "p/q/r").and_then(|_| exact(&w.join("p/q/r"), &whole)),
            1 => go("unpack_image", "./a.b.iso", "x.y/z/").and_then(|_| exact(&w.join("x.y/z"), &whole)),
            2 => go("compress_image", "a.b.iso", "x.y").and_then(|_| {
                // next to nothing else, and not in the working directory
                let made: Vec<PathBuf> = snapshot(w).into_keys().filter(|p| p.to_string_lossy().ends_with(".cso")).collect();
                match &made[..] {
                    [p] if p.parent() == Some(Path::new("x.y")) => {
                        let s = w.join(p).to_string_lossy().into_owned();
                        img(Path::new(s.strip_suffix(".1.cso").unwrap_or(&s)))
                    }
                    _ => Err(format!("made {made:?} for the directory x.y")),
                }
            }),
            3 => go("compress_image", "a.b.iso", "x.y/out.cso").and_then(|_| img(&w.join("x.y/out"))),
            4 => go("compress_image", "a.b.iso", "out.cso").and_then(|_| img(&w.join("out"))),
            _ => go("pack_image", "a.b.iso", "x.y/o.iso").and_then(|_| {
                let i = std::fs::read(w.join("x.y/o.iso")).map_err(|e| e.to_string())?;
                diff_flat(&flatten(t), &tree_of(&i[..])?)
            }),
        }?;
        o.valid();
        Ok(())
    });

    // names in the image that lead outside of the destination, as an unprivileged user
    let names = hostile_names();
    let mut cases: Vec<Vec<(&str, bool, &str)>> = Vec::new();
    for n in &names {
        cases.push(vec![(n, false, "")]);
        for i in HOSTILE_INNER {
            cases.push(vec![(n, true, i)]);
        }
        cases.push(vec![("ok", false, ""), (n, false, "")]);
        cases.push(vec![("ok", true, "y"), (n, true, "victim")]);
        cases.push(vec![(n, true, "q"), (n, true, "../victim")]);
        if ctx.thorough {
            for m in &names {
                cases.push(vec![(n, true, m)]);
                cases.push(vec![(n, true, "victim"), (m, true, "../victim")]);
            }
        }
    }
    ctx.group("names", cases, |entries, o| {
        for rel in [false, true] {
            let j = jail(ctx, &desktop());
            let d = &j.dir;
            let w = hostile_setup(d, entries)?;
            let before = snapshot(d.path());
            let p = |x: &str| if rel { PathBuf::from(x) } else { w.join(x) };
            let r = invoke("unpack_image", &p("i.iso"), &p("out"), &Opt { cwd: Some(w.clone()), nobody: true, ..Opt::default() });
            r.orderly()?;
            o.steps(1);
            o.state(&(entries, rel, r.ok()));
            o.outcome(if r.ok() { "extracted" } else { "refused" });
            let keep = |m: BTreeMap<PathBuf, String>| -> BTreeMap<PathBuf, String> { m.into_iter().filter(|(p, _)| !p.starts_with("sub/w/out")).collect() };
            if let Some(x) = snap_diff(&keep(before), &keep(snapshot(d.path()))) {
                return Err(format!("outside the destination {x}"));
            }
            if r.ok() {
                names_made(&w.join("out"), entries, &d.join("sub").to_string_lossy())?;
            }
        }
        o.valid();
        Ok(())
    });

    // files in the way
    let flat = over_tree();
    ctx.group("over-existing", OVER.to_vec(), |&n, o| {
        let d = ctx.scratch();
        let w = d.path();
        std::fs::write(w.join("i.iso"), build(&flat, &layouts()[0]).bytes).unwrap();
        std::fs::create_dir(w.join("e")).unwrap();
        for (f, _) in &flat {
            std::fs::write(w.join("e").join(f), vec![7; n]).unwrap();
        }
        let r = invoke("unpack_image", &w.join("i.iso"), &w.join("e"), &Opt::default());
        r.orderly()?;
        o.steps(1);
        o.state(&n);
        if !r.ok() {
            return Err(format!("unpacking over files of {n} bytes fails: {}", r.ran.err));
        }
        o.valid();
        exact(&w.join("e"), &Node::Dir(flat.clone())).map_err(|e| format!("over files of {n} bytes: {e}"))
    });

    #[cfg(feature = "web")]
    crate::front::c26_window(ctx);

    // damaged images are refused or read, never followed into a crash
    let damaged = crate::malformed::damaged_gallery();
    ctx.group("damaged", (0..damaged.len()).collect(), |&k, o| {
        let d = ctx.scratch();
        let w = d.path();
        std::fs::write(w.join("i.iso"), &damaged[k].1).unwrap();
        for (c, to) in [("unpack_image", "out"), ("pack_image", "o.iso")] {
            let r = invoke(c, &w.join("i.iso"), &w.join(to), &Opt { address_space: Some(4 << 30), fsize: Some(64 << 20), ..Opt::default() });
            o.steps(1);
            r.orderly().map_err(|e| format!("{}: {c}: {e}", damaged[k].0))?;
        }
        o.state(&k);
        o.valid();
        Ok(())
    });
}
