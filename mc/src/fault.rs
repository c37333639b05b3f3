//! C17: an error at any one environment call surfaces. C22: schedules and builds agree.

use std::collections::BTreeMap;

use crate::dev::*;
use crate::fw::*;
use crate::img::*;
use crate::model::*;
use crate::ops::*;
use crate::pack::*;
use crate::read::small_trees;

const CALL_CAP: u64 = 3_000_000;

fn ctl(f: Fault) -> std::sync::Arc<Ctl> {
    let c = Ctl::with_fault(f);
    c.fuel.store(CALL_CAP, std::sync::atomic::Ordering::Relaxed);
    c
}

fn every_fault(op: &Op, t: &Dir, img: &[u8], want: Option<&str>, o: &mut Obs) -> Result<(), String> {
    let c = ctl(Fault::None);
    let base = perform(op, t, img, &c).map_err(|e| format!("without any fault: {e}"))?;
    expected(op, t, &base)?;
    if let Some(w) = want {
        if base != Val::Text(w.into()) {
            return Err(format!("without any fault: {base:?}, expected {w}"));
        }
    }
    let n = c.calls();
    o.steps(n);
    let streams = matches!(op, Op::ProbeTree(_) | Op::PackStream(_) | Op::RepackWrapped(_) | Op::RepackStd(_) | Op::RepackStream(_));
    for k in 0..n {
        for f in [Fault::Fail(k), Fault::FailFrom(k), Fault::Zero(k)] {
            if matches!(f, Fault::Zero(_)) && !streams {
                continue;
            }
            let c = ctl(f);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| perform(op, t, img, &c)))
                .map_err(|p| format!("{op:?} with {f:?} of {n} calls: panic: {}", panic_text(p.as_ref())))?;
            o.steps(c.calls());
            if !c.fired() {
                return Err(format!("{op:?}: call {k} was not reached again: not deterministic"));
            }
            o.fired();
            o.state(&(format!("{op:?} {f:?}"), img.len(), hash(t)));
            match r {
                // a failed device does not mean that the entry is absent
                Err(e) if matches!(op, Op::Lookup(_) | Op::ReadAll(_) | Op::ReadBuf(..) | Op::ReadOff(..)) && ["DoesNotExist", "NoDirent", "DirectoryEmpty"].iter().any(|x| e.contains(x)) => {
                    return Err(format!("{op:?}: call {k} of {n} failed ({f:?}), and the entry is reported as absent: {e}"));
                }
                Err(_) => {}
                // a failed probe of another partition offset is not part of the result
                Ok(v) if *op == Op::Probe && v == base => {}
                Ok(v) => {
                    let same = if v == base { "the fault-free result" } else { "a different result" };
                    return Err(format!("{op:?}: call {k} of {n} failed ({f:?}), yet the operation reports success with {same}"));
                }
            }
        }
    }
    o.valid();
    Ok(())
}

/// Trees that reach every kind of call: several sectors of entries, long files, nesting
pub fn gallery() -> Vec<Dir> {
    let many: Dir = (0..70).map(|i| (numbered(i, 20), file(i as u64, (i as u64 % 5) * 1000))).collect();
    vec![
        vec![],
        vec![("a".into(), file(1, 1))],
        vec![("b".into(), Node::Dir(vec![]))],
        vec![
            ("b".into(), Node::Dir(vec![("c.x".into(), file(1, 2049)), ("d".into(), Node::Dir(vec![("e".into(), file(2, 5000)), ("f".into(), file(3, 0))]))])),
            ("a.x".into(), file(4, 100)),
            ("z".into(), file(5, 10_000)),
            ("\u{e9}".into(), file(6, 4096)),
        ],
        many,
        vec![("big".into(), file(7, (2 << 20) + 5)), ("b".into(), Node::Dir(vec![("x.x".into(), file(8, 70_000))]))],
    ]
}

pub fn c17(ctx: &Ctx) {
    let lays = layouts();
    let chunks = [Chunk::Full, Chunk::Max(1000)];
    let mut trees = small_trees(ctx.pick(2, 3));
    trees.extend(gallery());
    let mut cases = Vec::new();
    for t in &trees {
        for (l, _) in lays.iter().enumerate() {
            if l > 0 && !ctx.thorough && count(t) > 1 && l != 3 {
                continue;
            }
            for op in ops_for(t, if count(t) <= 10 { &chunks[..] } else { &chunks[..1] }) {
                let packs = matches!(op, Op::Pack | Op::PackDyn | Op::PackStream(_) | Op::Remap(_) | Op::Linear);
                if l > 0 && packs {
                    continue;
                }
                // the fault positions of a wide directory are explored for whole operations only
                if count(t) > 20 && matches!(op, Op::Lookup(_) | Op::ReadAll(_) | Op::ReadBuf(..) | Op::ReadOff(..)) && !ctx.thorough {
                    continue;
                }
                cases.push((t, l, op));
            }
        }
    }
    ctx.group("single-failures", cases, |(t, l, op), o| {
        let img = build(t, &lays[*l]).bytes;
        let want = match op {
            Op::Checksum => Some(format!("{:02x?}", crate::small::checksum_model(t))),
            _ => None,
        };
        every_fault(op, t, &img, want.as_deref(), o)
    });
}

// ---------------------------------------------------------------- C22

fn digest(r: &Result<Val, String>) -> String {
    match r {
        Ok(Val::Image(b)) => format!("image {} {:016x}", b.len(), data_hash(b)),
        Ok(Val::Text(s)) => format!("text {} {:016x}", s.len(), hash(s)),
        Err(e) => format!("error {e}"),
    }
}

fn c22_cases(thorough: bool) -> Vec<(Dir, usize, Op)> {
    let chunks = [Chunk::Full, Chunk::EintrMax(900)];
    let mut trees = small_trees(if thorough { 4 } else { 3 });
    trees.extend(gallery());
    let nl = layouts().len();
    let mut v = Vec::new();
    for (i, t) in trees.iter().enumerate() {
        let mut ops = ops_for(t, &chunks);
        ops.extend(["", "/", "nope", "b/nope", "B", "/b//", "a.x/q"].iter().map(|s| Op::Lookup(s.to_string())));
        if t.is_empty() {
            ops.push(Op::RootDirent);
        }
        for op in ops {
            v.push((t.clone(), i % nl, op));
        }
    }
    v
}

/// Printed by the synchronous build, and computed by the asynchronous one
pub fn digests(thorough: bool, truncated: bool) -> Vec<String> {
    let lays = layouts();
    c22_cases(thorough)
        .iter()
        .map(|(t, l, op)| {
            let mut img = build(t, &lays[*l]).bytes;
            if truncated {
                img.truncate(img.len() - 1);
            }
            digest(&perform(op, t, &img, &ctl(Fault::None)))
        })
        .collect()
}

pub fn print_digests(thorough: bool) -> i32 {
    for tr in [false, true] {
        for l in digests(thorough, tr) {
            println!("{l}");
        }
    }
    0
}

#[cfg(feature = "sync")]
pub fn c22(_: &Ctx) {}

#[cfg(not(feature = "sync"))]
pub fn c22(ctx: &Ctx) {
    let lays = layouts();
    let cases = c22_cases(ctx.thorough);
    let sync: Vec<String> = if LIST.load(std::sync::atomic::Ordering::SeqCst) {
        vec![]
    } else {
        let exe = std::env::var_os("XMC_SYNC").expect("XMC_SYNC");
        let out = std::process::Command::new(exe).arg("digests").arg(ctx.pick("quick", "thorough")).output().expect("sync build");
        String::from_utf8_lossy(&out.stdout).lines().map(|s| s.to_string()).collect()
    };
    let n = cases.len();
    ctx.group("sync-and-async", (0..n).flat_map(|i| [(i, false), (i, true)]).collect(), |&(i, tr), o| {
        let (t, l, op) = &cases[i];
        let mut img = build(t, &lays[*l]).bytes;
        if tr {
            img.truncate(img.len() - 1);
        }
        let c = ctl(Fault::None);
        let d = digest(&perform(op, t, &img, &c));
        let s = sync.get(i + if tr { n } else { 0 }).ok_or_else(|| format!("the synchronous build gave only {} results", sync.len()))?;
        o.steps(2 * c.calls());
        o.state(&(i, tr, &d));
        if d != *s {
            return Err(format!("{op:?} on {t:?}: synchronous {s}, asynchronous {d}"));
        }
        o.valid();
        Ok(())
    });

    ctx.group("schedules", (0..n).collect(), |&i, o| {
        let (t, l, op) = &cases[i];
        let img = build(t, &lays[*l]).bytes;
        let c = ctl(Fault::None);
        let base = perform(op, t, &img, &c);
        let calls = c.calls() as usize;
        // every pattern of the first calls, every single delayed call, and cyclic patterns
        let bits = calls.min(if ctx.thorough { 8 } else { 6 });
        let mut pats: Vec<(Vec<u8>, bool)> = (0..1usize << bits).map(|m| ((0..bits).map(|b| (m >> b & 1) as u8).collect(), false)).collect();
        if calls <= 200 {
            for k in 0..calls {
                let mut p = vec![0; k + 1];
                p[k] = 3;
                pats.push((p, false));
            }
        }
        pats.extend([(vec![1], true), (vec![2, 0], true), (vec![0, 5, 1], true)]);
        for (p, cyc) in pats {
            let c = ctl(Fault::None);
            *c.pend.lock().unwrap() = p.clone();
            c.cyclic.store(cyc, std::sync::atomic::Ordering::Relaxed);
            let r = perform(op, t, &img, &c);
            o.steps(c.calls());
            if r != base {
                return Err(format!("{op:?} with pendings {p:?} (repeated: {cyc}): {} instead of {}", digest(&r), digest(&base)));
            }
            o.state(&(i, &p, cyc));
        }
        o.valid();
        Ok(())
    });

    // twice the same
    let trees = small_trees(ctx.pick(4, 5));
    ctx.group("deterministic", trees, |t, o| {
        let a = pack_mem(t)?.0;
        let b = pack_mem(t)?.0;
        o.steps(2);
        o.state(&a[..]);
        if a != b {
            return Err("two packs of one source differ".into());
        }
        o.valid();
        Ok(())
    });
    // host directories: fresh processes see other hash seeds
    let g = gallery();
    ctx.group("deterministic-host", (0..g.len()).collect(), |&i, o| {
        let d = ctx.scratch();
        make_dir(&d.join("src"), &g[i]);
        let mut seen: BTreeMap<u64, usize> = BTreeMap::new();
        for k in 0..6 {
            let out = std::process::Command::new(std::env::current_exe().unwrap()).arg("packhash").arg(d.join("src")).output().unwrap();
            let h: u64 = String::from_utf8_lossy(&out.stdout).trim().parse().map_err(|_| format!("pack failed: {}", String::from_utf8_lossy(&out.stderr)))?;
            seen.insert(h, k);
        }
        o.steps(6);
        o.state(&seen.keys().next());
        if seen.len() != 1 {
            return Err(format!("{} different images from one directory", seen.len()));
        }
        o.valid();
        Ok(())
    });
}

pub fn packhash(p: &std::path::Path) -> i32 {
    let mut fs = xdvdfs::write::fs::StdFilesystem::create(p);
    let mut dev = IoDev::new(vec![]);
    match run!(xdvdfs::write::img::create_xdvdfs_image(&mut fs, &mut dev, |_| {})) {
        Ok(()) => {
            println!("{}", data_hash(&dev.data));
            0
        }
        Err(e) => {
            eprintln!("{e:?}");
            1
        }
    }
}
