//! C01, C02, C13, C20: packing of every source within the bounds.

use std::collections::BTreeMap;
use std::fmt::Debug;

use xdvdfs::write::img::{create_xdvdfs_image, ProgressInfo};

use crate::dev::*;
use crate::fw::*;
use crate::img::*;
use crate::model::*;

pub struct PackRun<'a> {
    pub tree: &'a Dir,
    pub want: Flat,
    pub image: Vec<u8>,
    pub events: Vec<ProgressInfo>,
    /// prefix of event paths (StdFilesystem reports quoted host paths)
    pub host_root: Option<std::path::PathBuf>,
}

pub type Oracle = fn(&PackRun) -> Result<(), String>;

/// Packs a model tree from memory into a growable device
pub fn pack_mem(tree: &Dir) -> Result<(Vec<u8>, Vec<ProgressInfo>), String> {
    let mut fs = MemFs::new(tree);
    let mut dev = Dev::new(vec![]);
    let mut ev = Vec::new();
    run!(create_xdvdfs_image(&mut fs, &mut dev, |p| ev.push(p))).map_err(|e| format!("{e}"))?;
    Ok((dev.data, ev))
}

pub fn o_tree(r: &PackRun) -> Result<(), String> {
    diff_flat(&r.want, &tree_of(&r.image[..])?)
}

pub fn o_wellformed(r: &PackRun) -> Result<(), String> {
    let t = decode(&r.image[..])?;
    validate_packed(&r.image[..], &t)?;
    check_attributes(&t, &r.want)
}

pub fn o_accept(_: &PackRun) -> Result<(), String> {
    Ok(())
}

pub fn o_events(r: &PackRun) -> Result<(), String> {
    events_describe(r, &decode(&r.image[..])?)
}

fn events_describe(r: &PackRun, t: &Table) -> Result<(), String> {
    let mut dirs: BTreeMap<String, u64> = BTreeMap::new();
    let mut ents: BTreeMap<String, u64> = BTreeMap::new();
    let key = |p: &[String]| match &r.host_root {
        None => format!("/{}", p.join("/")),
        Some(h) => {
            let mut h = h.clone();
            for c in p {
                h.push(c);
            }
            // the root itself may be reported with a trailing separator
            format!("{h:?}").trim_end_matches("/\"").trim_end_matches('"').to_string()
        }
    };
    let norm = |s: &str| match &r.host_root {
        None => s.to_string(),
        Some(_) => s.trim_end_matches("/\"").trim_end_matches('"').to_string(),
    };
    each(t, &mut Vec::new(), &mut |p, t| {
        dirs.insert(key(p), t.sector as u64);
        for e in &t.ents {
            let mut q = p.to_vec();
            q.push(e.name_str());
            ents.insert(key(&q), e.sector as u64);
        }
    });
    let mut seen_d: BTreeMap<String, usize> = BTreeMap::new();
    let mut seen_f: BTreeMap<String, usize> = BTreeMap::new();
    let (mut fc, mut dc, mut fin) = (vec![], vec![], 0);
    for (i, e) in r.events.iter().enumerate() {
        match e {
            ProgressInfo::DirAdded(p, s) => {
                let p = norm(p);
                match dirs.get(&p) {
                    None => return Err(format!("event {i}: unknown directory {p}")),
                    Some(x) if x != s => return Err(format!("event {i}: directory {p} reported at sector {s}, lies at {x}")),
                    _ => {}
                }
                if seen_d.insert(p.clone(), i).is_some() {
                    return Err(format!("event {i}: directory {p} reported twice"));
                }
            }
            ProgressInfo::FileAdded(p, s) => {
                let p = norm(p);
                match ents.get(&p) {
                    None => return Err(format!("event {i}: unknown entry {p}")),
                    Some(x) if x != s => return Err(format!("event {i}: {p} reported at sector {s}, lies at {x}")),
                    _ => {}
                }
                if seen_f.insert(p.clone(), i).is_some() {
                    return Err(format!("event {i}: {p} reported twice"));
                }
            }
            ProgressInfo::FileCount(n) => fc.push(*n),
            ProgressInfo::DirCount(n) => dc.push(*n),
            ProgressInfo::FinishedPacking => {
                fin += 1;
                if i + 1 != r.events.len() {
                    return Err("events after FinishedPacking".into());
                }
            }
            _ => {}
        }
    }
    if fin != 1 {
        return Err(format!("{fin} finished events on success"));
    }
    if seen_d.len() != dirs.len() {
        return Err(format!("{} of {} directories reported", seen_d.len(), dirs.len()));
    }
    for (p, want) in &r.want {
        if want.is_some() && !seen_f.contains_key(&key(p)) {
            return Err(format!("file /{} not reported", p.join("/")));
        }
    }
    for p in r.want.keys() {
        let parent = key(&p[..p.len() - 1]);
        for seen in [&seen_d, &seen_f] {
            if let Some(i) = seen.get(&key(p)) {
                if seen_d[&parent] > *i {
                    return Err(format!("/{} reported before its directory", p.join("/")));
                }
            }
        }
    }
    if fc != [seen_f.len()] {
        return Err(format!("announced {fc:?} files, reported {}", seen_f.len()));
    }
    if dc != [seen_d.len()] {
        return Err(format!("announced {dc:?} directories, reported {}", seen_d.len()));
    }
    let first_add = r.events.iter().position(|e| matches!(e, ProgressInfo::DirAdded(..) | ProgressInfo::FileAdded(..)));
    let last_count = r.events.iter().rposition(|e| matches!(e, ProgressInfo::FileCount(_) | ProgressInfo::DirCount(_)));
    if first_add < last_count {
        return Err("counts announced after the first addition".into());
    }
    Ok(())
}

fn check(tree: &Dir, obs: &mut Obs, oracle: Oracle) -> Result<(), String> {
    let (image, events) = pack_mem(tree).map_err(|e| format!("packing was refused: {e}"))?;
    obs.steps(events.len() as u64);
    obs.state(&image[..]);
    obs.outcome(format!("up to {} KiB", (image.len() / 1024).next_power_of_two()));
    oracle(&PackRun { tree, want: flatten(tree), image, events, host_root: None })?;
    obs.valid();
    Ok(())
}

const KINDS: [Option<u64>; 5] = [None, Some(0), Some(1), Some(2048), Some(2049)];

fn tree_cases(max: usize) -> Vec<(Vec<usize>, Vec<usize>, usize)> {
    let mut v = Vec::new();
    for n in 0..=max {
        for p in parent_vectors(n) {
            let mut ks = vec![vec![]];
            for i in 1..=n {
                // inner nodes must be directories
                let opts: Vec<usize> = if p.contains(&i) { vec![0] } else { (0..KINDS.len()).collect() };
                ks = ks.into_iter().flat_map(|k: Vec<usize>| opts.iter().map(move |o| { let mut k = k.clone(); k.push(*o); k }).collect::<Vec<_>>()).collect();
            }
            for k in ks {
                for pool in 0..3 {
                    v.push((p.clone(), k.clone(), pool));
                }
            }
        }
    }
    v
}

fn pool_name(pool: usize, i: usize, parents: &[usize]) -> String {
    match pool {
        0 => ["a", "B", "c", "D", "e", "F"][i - 1].to_string(),
        1 => {
            // the same names in every directory
            let rank = (1..i).filter(|j| parents[j - 1] == parents[i - 1]).count();
            format!("n{rank}")
        }
        _ => ["b", "b.c", "B c", "b-", "\u{20ac}b", "Z_"][(i + 2) % 6].to_string(),
    }
}

pub fn tree_case(c: &(Vec<usize>, Vec<usize>, usize)) -> Dir {
    build_tree(&c.0, &|i| KINDS[c.1[i - 1]], &|i| pool_name(c.2, i, &c.0)).expect("tree")
}

pub fn numbered(i: usize, len: usize) -> String {
    // distinct names of exactly `len` characters
    if len == 1 {
        return char::from_u32(33 + i as u32).unwrap().to_string().replace('/', "~");
    }
    let mut s = format!("{i:x}");
    if s.len() > len {
        panic!("cannot number {i} in {len}");
    }
    while s.len() < len {
        s.push('_');
    }
    s
}

pub fn families(n: usize) -> Vec<(&'static str, Vec<usize>)> {
    let asc: Vec<usize> = (0..n).collect();
    let mut desc = asc.clone();
    desc.reverse();
    let mut organ = Vec::new();
    let (mut l, mut r) = (0, n);
    while l < r {
        organ.push(l);
        l += 1;
        if l < r {
            r -= 1;
            organ.push(r);
        }
    }
    let mut inside = organ.clone();
    inside.reverse();
    let stride: Vec<usize> = {
        let s = (1..).map(|k| n / 2 + k).find(|s| gcd(*s, n.max(1)) == 1).unwrap();
        (0..n).map(|i| (i * s) % n).collect()
    };
    let evens: Vec<usize> = (0..n).step_by(2).chain((1..n).step_by(2).rev()).collect();
    vec![("ascending", asc), ("descending", desc), ("organ", organ), ("inside", inside), ("stride", stride), ("evens", evens)]
}

fn gcd(a: usize, b: usize) -> usize {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}

pub fn sizes(thorough: bool) -> Vec<u64> {
    let mut v: Vec<u64> = (0..4100).collect();
    let m = if thorough { 1100 } else { 270 };
    for k in 2..m {
        v.extend([k * 2048 - 1, k * 2048, k * 2048 + 1]);
    }
    for k in [1u64 << 20, 2 << 20, 3 << 20] {
        v.extend([k - 1, k, k + 1]);
    }
    v
}

fn ok_char(b: u8) -> bool {
    b != 0 && b != b'/'
}

/// The shared space of sources. Every tree is within all limits, so packing must succeed.
pub fn pack_groups(ctx: &Ctx, oracle: Oracle) {
    ctx.group("trees", tree_cases(ctx.pick(5, 6)), |c, o| check(&tree_case(c), o, oracle));

    let mut perms: Vec<Vec<usize>> = Vec::new();
    for n in 2..=ctx.pick(8, 9) {
        perms.extend(permutations(n));
    }
    ctx.group("listing-orders", perms, |p, o| {
        let names = ["Ab", "ac", "B", "b1", "C_c", "d", "dd", "e.x", "F"];
        let t: Dir = p.iter().map(|&i| (names[i].to_string(), if i == 2 { Node::Dir(vec![("x".into(), file(99, 3))]) } else { file(i as u64, i as u64 % 3) })).collect();
        check(&t, o, oracle)
    });

    let mut fam = Vec::new();
    for n in 1..=ctx.pick(600, 1500) {
        for (name, v) in families(n) {
            fam.push((name, n, v));
        }
    }
    ctx.group("insertion-families", fam, |(_, _, v), o| {
        let t: Dir = v.iter().map(|&i| (format!("f{i:04}"), file(i as u64, (i % 2) as u64))).collect();
        check(&t, o, oracle)
    });

    let mut lens = Vec::new();
    let others: Vec<usize> = if ctx.thorough { (1..=255).collect() } else { (1..=36).chain([66, 67, 131, 132]).chain(250..=255).collect() };
    for l in 1..=255usize {
        lens.push((l, l));
        for &m in &others {
            if m != l {
                lens.push((l, m));
            }
        }
    }
    ctx.group("name-lengths", lens, |&(l, m), o| {
        // entries of both lengths, spanning more than three sectors when names allow it
        let mut t: Dir = Vec::new();
        let mut bytes = 0;
        let mut i = 0;
        while bytes < 6500 && i < 400 {
            let len = if i % 2 == 0 { l } else { m };
            if len == 1 && i > 60 || len == 2 && i > 200 {
                if l <= 2 && m <= 2 {
                    break;
                }
                i += 1;
                continue;
            }
            t.push((numbered(i, len), file(i as u64, 0)));
            bytes += 14 + len;
            i += 1;
        }
        check(&t, o, oracle)
    });

    // exact fill of sectors: a run of entries that ends at every 4-byte position around the sector end
    let mut fills = Vec::new();
    for last in 1..=255usize {
        for slack in (0..=80).step_by(4) {
            fills.push((last, slack));
        }
    }
    ctx.group("sector-fill", fills, |&(last, slack), o| {
        // ascending right-leaning insertion keeps preorder close to listing for 3 big entries
        let total = 2048 - slack;
        let mut t: Dir = Vec::new();
        let lastlen = (14 + last).div_ceil(4) * 4;
        let mut left = total as i64 - lastlen as i64;
        let mut i = 0;
        while left >= 16 {
            let take = if left > 268 + 16 { 268 } else { left.min(268) };
            let name = (take - 14).clamp(2, 255) as usize;
            t.push((numbered(i, name), file(i as u64, 0)));
            left -= (14 + name).div_ceil(4) as i64 * 4;
            i += 1;
        }
        t.push(("z".repeat(last), file(77, 1)));
        t.push(("zz".to_string() + &"y".repeat(last.min(250)), Node::Dir(vec![])));
        check(&t, o, oracle)
    });

    let chars: Vec<u8> = (1..=255u8).filter(|b| ok_char(*b)).collect();
    let mut pairs = Vec::new();
    for &a in &chars {
        pairs.push((a, None));
        for &b in &chars {
            if a < b && !same_name(&dec1252(&[a]), &dec1252(&[b])) {
                pairs.push((a, Some(b)));
            }
        }
    }
    ctx.group("characters", pairs, |&(a, b), o| {
        let mut t: Dir = vec![(dec1252(&[a, b'x']), file(1, 5))];
        if let Some(b) = b {
            t.push((dec1252(&[b, b'x']), file(2, 6)));
        }
        t.push((dec1252(&[b'q', a, a]), Node::Dir(vec![(dec1252(&[b'i', a]), file(3, 1))])));
        check(&t, o, oracle)
    });

    // directory names that are prefixes of each other or compare differently as strings and components
    let words = strings(&['a', 'B', '.', '-'], 2);
    let words: Vec<String> = words.into_iter().filter(|w| w != "." && w != "..").collect();
    let mut pp = Vec::new();
    for a in &words {
        for b in &words {
            if !same_name(a, b) {
                pp.push((a.clone(), b.clone()));
            }
        }
    }
    ctx.group("directory-names", pp, |(a, b), o| {
        let t: Dir = vec![
            (a.clone(), Node::Dir(vec![(b.clone(), Node::Dir(vec![("f".into(), file(1, 10))])), (a.clone(), file(2, 11))])),
            (b.clone(), Node::Dir(vec![(a.clone(), Node::Dir(vec![])), (b.clone(), Node::Dir(vec![(b.clone(), file(3, 12))]))])),
        ];
        check(&t, o, oracle)
    });

    let mut depth = Vec::new();
    for d in (1..=ctx.pick(70, 300)).chain(ctx.pick(vec![100, 127, 128, 129, 255, 256, 257], vec![511, 512, 513, 1000])) {
        for l in [1usize, 2, 100, 255] {
            for side in [false, true] {
                depth.push((d, l, side));
            }
        }
    }
    ctx.group("depth", depth, |&(d, l, side), o| {
        let mut t: Dir = vec![("leaf".into(), file(1, 100))];
        for i in 0..d {
            t = vec![(numbered(i % 10, l), Node::Dir(t))];
            if side {
                t.insert(0, ("side".into(), file(i as u64, 7)));
            }
        }
        check(&t, o, oracle)
    });

    let big: Vec<(usize, usize)> = ctx.pick(vec![(500, 8), (1000, 8), (2000, 8), (4000, 8), (8000, 8), (10000, 8), (500, 255), (890, 255), (3000, 60)], vec![(500, 8), (700, 8), (1000, 8), (1023, 8), (1024, 8), (1025, 8), (2000, 8), (4000, 8), (8000, 8), (9000, 8), (10000, 8), (200, 255), (500, 255), (890, 255), (3000, 60), (6000, 20)]);
    let mut bigc = Vec::new();
    for (n, l) in big {
        for f in 0..6 {
            bigc.push((n, l, f));
        }
    }
    ctx.group("large-directories", bigc, |&(n, l, f), o| {
        let fam = families(n);
        let t: Dir = fam[f].1.iter().map(|&i| (numbered(i + 0x10000, l), if i % 97 == 0 { Node::Dir(vec![]) } else { file(i as u64, (i % 3 == 0) as u64) })).collect();
        check(&t, o, oracle)
    });

    // many directories and files in all, each directory small
    let many: Vec<(usize, usize, bool)> = ctx.pick(vec![(257, 257, false), (40, 1700, false), (257, 257, true)], vec![(257, 257, false), (40, 1700, false), (257, 257, true), (1000, 300, false), (600, 600, true)]);
    ctx.group_threads("many-entries", 3, many, |&(d, f, dirs), o| {
        let t: Dir = (0..d)
            .map(|i| (numbered(i, 5), Node::Dir((0..f).map(|j| (numbered(j, 6), if dirs { Node::Dir(vec![]) } else { file((i * f + j) as u64, (j % 5 == 0) as u64) })).collect())))
            .collect();
        check(&t, o, oracle)
    });

    // files of every magnitude
    let mut large = Vec::new();
    for k in 21..=ctx.pick(26u32, 28) {
        large.extend([(1u64 << k) - 1, 1 << k, (1 << k) + 1, 3 << (k - 1)]);
    }
    ctx.group_threads("large-files", 4, large, |&s, o| {
        let t: Dir = vec![("a".into(), file(1, 3)), ("b".into(), file(2, s)), ("c".into(), file(3, 5))];
        check(&t, o, oracle)
    });

    ctx.group("sizes", sizes(ctx.thorough), |&s, o| {
        let t: Dir = vec![
            ("a".into(), file(1, s)),
            ("b".into(), file(2, 1)),
            ("c".into(), Node::Dir(vec![("d".into(), file(3, s)), ("e".into(), file(4, 5))])),
            ("z".into(), file(5, s)),
        ];
        check(&t, o, oracle)
    });

    ctx.group("contents", crate::repack::content_cases(), |&(k, s), o| check(&crate::repack::content_tree(k, s), o, oracle));

    // image totals: the number of used sectors takes every residue modulo 32
    let mut totals = Vec::new();
    for n in 0..70u64 {
        for rem in [0u64, 1, 2047] {
            for end in [false, true] {
                totals.push((n, rem, end));
            }
        }
    }
    ctx.group("image-lengths", totals, |&(n, rem, end), o| {
        let big = file(1, n * 2048 + rem);
        let t: Dir = vec![("a".into(), if end { file(2, 0) } else { big.clone() }), ("b".into(), if end { big } else { Node::Dir(vec![]) })];
        check(&t, o, oracle)
    });

    // real directories and files
    let mut real = Vec::new();
    let mut k = 0;
    for c in tree_cases(3) {
        k += 1;
        if k % ctx.pick(3, 1) == 0 {
            for out in 0..3 {
                real.push((tree_case(&c), out));
            }
        }
    }
    for s in [1u64 << 20, (1 << 20) + 1, 3 << 20] {
        for out in 0..3 {
            real.push((vec![("big".into(), file(1, s)), ("d".into(), Node::Dir(vec![("é€".into(), file(2, s / 2))]))], out));
        }
    }
    for (i, (k, s)) in crate::repack::content_cases().into_iter().enumerate() {
        if i % ctx.pick(4, 1) == 0 {
            real.push((crate::repack::content_tree(k, s), i / ctx.pick(4, 1) % 3));
        }
    }
    ctx.group("host-directories", real, |(t, out), o| {
        let s = ctx.scratch();
        let src = s.join("src");
        make_dir(&src, t);
        let mut fs = xdvdfs::write::fs::StdFilesystem::create(&src);
        let mut events = Vec::new();
        let path = s.join("out.iso");
        let f = || std::fs::File::options().read(true).write(true).create(true).truncate(true).open(&path).unwrap();
        let image = match out {
            0 => {
                let mut d = f();
                run!(create_xdvdfs_image(&mut fs, &mut d, |p| events.push(p))).map_err(|e| format!("packing was refused: {e}"))?;
                drop(d);
                std::fs::read(&path).unwrap()
            }
            1 => {
                use std::io::Write;
                let mut d = std::io::BufWriter::with_capacity(1 << 20, f());
                run!(create_xdvdfs_image(&mut fs, &mut d, |p| events.push(p))).map_err(|e| format!("packing was refused: {e}"))?;
                d.flush().unwrap();
                drop(d);
                std::fs::read(&path).unwrap()
            }
            _ => {
                let mut d: Box<[u8]> = vec![0xa5u8; 32 << 20].into_boxed_slice();
                run!(create_xdvdfs_image(&mut fs, &mut d, |p| events.push(p))).map_err(|e| format!("packing was refused: {e}"))?;
                d.into_vec()
            }
        };
        o.steps(events.len() as u64);
        o.state(&(hash(&image[..]), out));
        if *out >= 2 {
            // a preallocated buffer keeps its length and its unused bytes
            return o_tree(&PackRun { tree: t, want: flatten(t), image, events, host_root: Some(src) });
        }
        oracle(&PackRun { tree: t, want: flatten(t), image, events, host_root: Some(src) })?;
        o.valid();
        Ok(())
    });
}

/// Creates a model tree on the host
pub fn make_dir(path: &std::path::Path, t: &Dir) {
    std::fs::create_dir_all(path).unwrap();
    for (n, x) in t {
        let p = path.join(n);
        match x {
            Node::Dir(d) => make_dir(&p, d),
            Node::File { id, len } => std::fs::write(&p, content(*id, *len)).unwrap(),
        }
    }
}

/// Reads a host directory back
pub fn read_dir_flat(root: &std::path::Path) -> Result<Flat, String> {
    fn rec(p: &std::path::Path, base: &mut Vec<String>, out: &mut Flat) -> std::io::Result<()> {
        for e in std::fs::read_dir(p)? {
            let e = e?;
            base.push(e.file_name().to_string_lossy().into_owned());
            let ft = e.file_type()?;
            if ft.is_dir() {
                out.insert(base.clone(), None);
                rec(&e.path(), base, out)?;
            } else if ft.is_file() {
                let d = std::fs::read(e.path())?;
                out.insert(base.clone(), Some((d.len() as u64, data_hash(&d))));
            } else {
                out.insert(base.clone(), Some((u64::MAX, 0)));
            }
            base.pop();
        }
        Ok(())
    }
    let mut out = Flat::new();
    rec(root, &mut Vec::new(), &mut out).map_err(|e| format!("{}: {e}", root.display()))?;
    Ok(out)
}

pub fn c01(ctx: &Ctx) {
    pack_groups(ctx, o_tree);
    // host files up to the limit: sparse, with marks at every power of two and at the end
    let mut sizes = Vec::new();
    for k in ctx.pick(vec![20u32, 21, 24, 27, 30, 31, 32], (20..=32).collect()) {
        sizes.push((1u64 << k) - 1);
        if k < 32 {
            sizes.extend([1u64 << k, (1 << k) + 1]);
        }
    }
    ctx.group("host-large", sizes, |&n, o| {
        let s = ctx.scratch();
        let src = s.join("src");
        std::fs::create_dir_all(&src).unwrap();
        use std::os::unix::fs::FileExt;
        let f = std::fs::File::options().read(true).write(true).create(true).truncate(true).open(src.join("big")).unwrap();
        f.set_len(n).unwrap();
        let mut marks: Vec<u64> = (11..32).flat_map(|k| [(1u64 << k) - 8, 1 << k, (1 << k) + 2048]).chain([0, n - 8]).filter(|m| m + 8 <= n).collect();
        marks.sort();
        marks.dedup();
        for m in &marks {
            f.write_all_at(&(m | 1 << 60).to_be_bytes(), *m).unwrap();
        }
        // what the writes left
        let want: Vec<Vec<u8>> = marks.iter().map(|m| { let mut b = vec![0; 8]; f.read_exact_at(&mut b, *m).unwrap(); b }).collect();
        std::fs::write(src.join("after"), b"after").unwrap();
        std::fs::write(src.join("zz"), b"zz").unwrap();
        let mut fs = xdvdfs::write::fs::StdFilesystem::create(&src);
        let mut d = PageDev::default();
        run!(create_xdvdfs_image(&mut fs, &mut d, |_| {})).map_err(|e| format!("packing was refused: {e}"))?;
        o.steps(n >> 16);
        o.state(&n);
        let t = decode(&d)?;
        if t.ents.len() != 3 {
            return Err(format!("{} entries", t.ents.len()));
        }
        for e in &t.ents {
            let at = e.sector as u64 * SECTOR;
            match e.name_str().as_str() {
                "big" => {
                    if e.size as u64 != n {
                        return Err(format!("size {} for {n}", e.size));
                    }
                    for (m, w) in marks.iter().zip(&want) {
                        if d.get(at + m, 8).as_ref() != Some(w) {
                            return Err(format!("file of {n} bytes: other bytes at {m}"));
                        }
                    }
                    let held = d.pages.range(at / 4096..(at + n).div_ceil(4096)).count();
                    if held > 2 * marks.len() + 2 {
                        return Err(format!("file of {n} bytes: bytes where there are none"));
                    }
                }
                x => {
                    if d.get(at, e.size as usize).as_deref() != Some(x.as_bytes()) && x != "after" || x == "after" && d.get(at, 5).as_deref() != Some(b"after") {
                        return Err(format!("{x}: other bytes"));
                    }
                }
            }
        }
        o.valid();
        Ok(())
    });
}

pub fn c02(ctx: &Ctx) {
    pack_groups(ctx, o_wellformed);
    c02_virtual(ctx);
}

/// Volumes far beyond memory: huge files, recorded as extents
fn c02_virtual(ctx: &Ctx) {
    let big = [1u64 << 31, (1 << 32) - 2048, (1 << 32) - 2047, (1 << 32) - 1, (1 << 31) + 1, 3 << 30];
    let mut cases = Vec::new();
    for &a in &big {
        for &b in &big {
            for n in [2usize, 5] {
                cases.push((a, b, n));
            }
        }
    }
    ctx.group("huge-files", cases, |&(a, b, n), o| {
        let mut t: Dir = (0..n).map(|i| (format!("f{i}"), file(i as u64, if i % 2 == 0 { a } else { b }))).collect();
        t.push(("z".into(), Node::Dir(vec![("small".into(), file(50, 10))])));
        let dev = pack_virtual(&t).map_err(|e| format!("packing was refused: {e}"))?;
        o.steps(n as u64);
        o.state(&(a, b, n));
        let v = decode(&dev)?;
        validate_packed(&dev, &v)?;
        for e in &v.ents {
            if e.is_dir() {
                continue;
            }
            let w = t.iter().find(|x| x.0 == e.name_str()).ok_or("unknown file")?;
            let Node::File { id, len } = w.1 else { return Err("kind".into()) };
            if e.size as u64 != len {
                return Err(format!("{}: size {} for a file of {len} bytes", w.0, e.size));
            }
            match dev.ext.get(&(e.sector as u64 * SECTOR)) {
                Some(Ext::File { id: i, start: 0, len: l }) if *i == id && *l == len => {}
                x => return Err(format!("{}: {x:?} at its extent", w.0)),
            }
        }
        o.valid();
        Ok(())
    });
}

pub fn pack_virtual(t: &Dir) -> Result<VDev, String> {
    let mut fs = BigFs(t.clone());
    let mut dev = VDev::default();
    run!(create_xdvdfs_image(&mut fs, &mut dev, |_| {})).map_err(|e| format!("{e}"))?;
    Ok(dev)
}

pub fn c20(ctx: &Ctx) {
    pack_groups(ctx, o_events);
    crate::cli::c20_printed(ctx);
    // sectors beyond 2 and 4 GiB
    let big = [1u64 << 31, (1 << 32) - 1, (1 << 31) - 1, 3 << 30, 1 << 22];
    let mut cases = Vec::new();
    for a in big {
        for n in 1..=9usize {
            for pos in 0..3 {
                cases.push((a, n, pos));
            }
        }
    }
    ctx.group("huge-files", cases, |&(a, n, pos), o| {
        let mut t: Dir = (0..n).map(|i| (format!("f{i}"), file(i as u64, a))).collect();
        let d = ("d".to_string(), Node::Dir(vec![("small".into(), file(50, 10)), ("e".into(), Node::Dir(vec![])), ("big".into(), file(51, a))]));
        t.insert([0, n / 2, n][pos], d);
        let mut fs = BigFs(t.clone());
        let mut dev = VDev::default();
        let mut events = Vec::new();
        run!(create_xdvdfs_image(&mut fs, &mut dev, |p| events.push(p))).map_err(|e| format!("packing was refused: {e}"))?;
        o.steps(events.len() as u64);
        o.state(&(a, n, pos));
        let v = decode(&dev)?;
        let want = flatten_by(&t, &|_, len| (len, 0));
        events_describe(&PackRun { tree: &t, want, image: vec![], events, host_root: None }, &v)?;
        o.valid();
        Ok(())
    });
    // the finished event is emitted only on success: fail every call in turn
    let trees: Vec<Dir> = vec![
        vec![],
        vec![("a".into(), file(1, 10))],
        vec![("a".into(), file(1, 10)), ("d".into(), Node::Dir(vec![("b".into(), file(2, 3000)), ("e".into(), Node::Dir(vec![]))])), ("z".into(), file(3, 0))],
    ];
    let mut cases = Vec::new();
    for (i, t) in trees.iter().enumerate() {
        let ctl = Ctl::new();
        let mut fs = MemFs::ctl(t, ctl.clone());
        let mut dev = Dev::ctl(vec![], ctl.clone());
        let _ = run!(create_xdvdfs_image(&mut fs, &mut dev, |_| {}));
        for k in 0..ctl.calls() {
            cases.push((i, k));
        }
    }
    ctx.group("failing-call", cases, |&(i, k), o| {
        let ctl = Ctl::with_fault(Fault::Fail(k));
        let mut fs = MemFs::ctl(&trees[i], ctl.clone());
        let mut dev = Dev::ctl(vec![], ctl.clone());
        let mut ev = Vec::new();
        let r = run!(create_xdvdfs_image(&mut fs, &mut dev, |p| ev.push(p)));
        o.steps(ctl.calls());
        o.state(&(i, k));
        let fin = ev.iter().any(|e| matches!(e, ProgressInfo::FinishedPacking));
        if r.is_err() && fin {
            return Err("finished event although packing failed".into());
        }
        if r.is_ok() && !fin {
            return Err("no finished event although packing succeeded".into());
        }
        o.outcome(if r.is_ok() { "ok" } else { "error" });
        o.valid();
        Ok(())
    });
}

// ---------------------------------------------------------------- C13

#[derive(Debug, Clone)]
enum Src {
    Mem(Dir),
    Virt(Dir),
}

fn c13_check(s: &Src, accept: Option<bool>, o: &mut Obs) -> Result<(), String> {
    let r = match s {
        Src::Mem(t) => pack_mem(t).map(|(img, _)| diff_flat(&flatten(t), &tree_of(&img[..])?)),
        Src::Virt(t) => pack_virtual(t).map(|dev| {
            let v = decode(&dev)?;
            validate_packed(&dev, &v)?;
            compare_virtual(&dev, &v, t)
        }),
    };
    // closures above return Result<Result<..>>: inner failure is a mangled image
    let r: Result<Result<(), String>, String> = r;
    o.steps(1);
    match (&r, accept) {
        (Err(e), Some(true)) => Err(format!("a representable source was refused: {e}")),
        (Ok(_), Some(false)) => Err(format!("an unrepresentable source was accepted (image: {:?})", r.unwrap())),
        (Ok(Err(e)), _) => Err(format!("accepted, but the image is wrong: {e}")),
        (Ok(Ok(())), _) => {
            o.outcome("accepted");
            o.valid();
            Ok(())
        }
        (Err(e), _) => {
            o.outcome(format!("refused: {e}"));
            o.valid();
            Ok(())
        }
    }
}

fn compare_virtual(dev: &VDev, v: &Table, t: &Dir) -> Result<(), String> {
    if v.ents.len() != t.len() {
        return Err(format!("{} entries for {}", v.ents.len(), t.len()));
    }
    for (n, x) in t {
        let e = v.ents.iter().find(|e| e.name_str() == *n).ok_or(format!("missing {n}"))?;
        match (x, &e.table) {
            (Node::Dir(d), Some(c)) => compare_virtual(dev, c, d)?,
            (Node::File { id, len }, None) => {
                if e.size as u64 != *len {
                    return Err(format!("{n}: size {} for {len}", e.size));
                }
                if *len > 0 {
                    match dev.ext.get(&(e.sector as u64 * SECTOR)) {
                        Some(Ext::File { id: i, start: 0, len: l }) if i == id && l == len => {}
                        y => return Err(format!("{n}: {y:?} at its extent")),
                    }
                }
            }
            _ => return Err(format!("{n}: wrong kind")),
        }
    }
    Ok(())
}

pub fn c13(ctx: &Ctx) {
    pack_groups(ctx, o_accept);

    // name lengths in on-disk bytes, with characters of 1, 2 and 3 UTF-8 bytes
    let mut names = Vec::new();
    for len in [1usize, 2, 100, 126, 127, 128, 129, 200, 250, 251, 252, 253, 254, 255, 256, 257, 258, 300, 400, 511, 512, 600, 765, 766, 768, 769, 1000, 1500] {
        for ch in ['a', 'é', '€', 'ÿ'] {
            for dir in [false, true] {
                for deep in [false, true] {
                    names.push((len, ch, dir, deep));
                }
            }
        }
    }
    ctx.group("name-limit", names, |&(len, ch, dir, deep), o| {
        let name: String = std::iter::repeat(ch).take(len).collect();
        let mut t: Dir = vec![(name, if dir { Node::Dir(vec![("x".into(), file(1, 2))]) } else { file(1, 3) }), ("other".into(), file(2, 1))];
        if deep {
            t = vec![("d".into(), Node::Dir(t))];
        }
        o.state(&(len, ch, dir, deep));
        c13_check(&Src::Mem(t), Some(len <= 255), o)
    });

    // mixed lengths: every number of 3-byte characters in a name of 253..=257 on-disk bytes
    let mut mixed = Vec::new();
    for len in 253usize..=257 {
        for wide in 0..=len {
            mixed.push((len, wide));
        }
    }
    ctx.group("name-limit-mixed", mixed, |&(len, wide), o| {
        let name: String = "€".repeat(wide) + &"b".repeat(len - wide);
        o.state(&(len, wide));
        c13_check(&Src::Mem(vec![(name, file(1, 3))]), Some(len <= 255), o)
    });

    // two names equal ignoring ASCII case
    let alpha = ['a', 'A', 'b', 'B', '_', 'é', 'É', '[', '{'];
    let words = strings(&alpha, 2);
    let mut dup = Vec::new();
    for (i, a) in words.iter().enumerate() {
        for b in &words[i..] {
            dup.push((a.clone(), b.clone()));
        }
    }
    ctx.group("duplicates", dup.clone(), |(a, b), o| {
        o.state(&(a, b));
        let same = same_name(a, b);
        let kinds: [(Node, Node); 4] = [
            (file(1, 4), file(2, 5)),
            (Node::Dir(vec![]), file(2, 5)),
            (Node::Dir(vec![("q".into(), file(5, 1))]), Node::Dir(vec![("r".into(), file(6, 1))])),
            (file(1, 0), Node::Dir(vec![])),
        ];
        for (x, y) in kinds {
            if a == b {
                // a hierarchy listing the same name twice
                let t: Dir = vec![(a.clone(), x), (b.clone(), y)];
                if pack_mem(&t).is_ok() {
                    return Err("the same name twice was accepted".into());
                }
                o.steps(1);
                o.valid();
                o.outcome("refused: listed twice");
                continue;
            }
            c13_check(&Src::Mem(vec![(a.clone(), x.clone()), ("zz".into(), file(9, 1)), (b.clone(), y.clone())]), Some(!same), o)?;
            c13_check(&Src::Mem(vec![("k".into(), Node::Dir(vec![(b.clone(), y), (a.clone(), x)]))]), Some(!same), o)?;
        }
        Ok(())
    });

    // duplicates at every position of larger directories
    let mut dpos = Vec::new();
    for n in 2..=ctx.pick(24usize, 64) {
        for i in 0..n {
            for j in 0..n {
                if i != j {
                    dpos.push((n, i, j));
                }
            }
        }
    }
    ctx.group("duplicate-positions", dpos, |&(n, i, j), o| {
        // the j-th listed entry repeats the i-th name with its case changed
        let t: Dir = (0..n).map(|k| (if k == j { format!("NAME{i:03}") } else { format!("name{k:03}") }, file(k as u64, 1))).collect();
        o.state(&(n, i, j));
        c13_check(&Src::Mem(t), Some(false), o)
    });

    // every Unicode scalar up to U+2FFF, and a spread above, alone in a name
    let mut us: Vec<u32> = (1..0x3000).collect();
    us.extend([0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff]);
    ctx.group("characters-unicode", us, |&c, o| {
        let c = char::from_u32(c).unwrap();
        if c == '/' {
            return Ok(());
        }
        o.state(&c);
        let ok = enc1252(&c.to_string()).is_some();
        for name in [format!("x{c}"), format!("{c}"), format!("a{c}{c}b")] {
            if name == "." {
                continue;
            }
            c13_check(&Src::Mem(vec![(name.clone(), file(1, 3)), ("other".into(), file(2, 3))]), Some(ok), o)?;
            c13_check(&Src::Mem(vec![(name, Node::Dir(vec![("i".into(), file(1, 3))]))]), Some(ok), o)?;
        }
        Ok(())
    });

    // file sizes around 4 GiB, and above
    let mut fs = Vec::new();
    let g4 = 1u64 << 32;
    for len in [g4 - 4097, g4 - 4096, g4 - 2049, g4 - 2048, g4 - 2047, g4 - 2, g4 - 1, g4, g4 + 1, g4 + 2047, g4 + 2048, g4 * 2 - 1, g4 * 2, g4 + 5, 1 << 40, 1 << 43, (1 << 43) - 1, 1 << 44, u64::MAX - 1, u64::MAX] {
        for pos in 0..3 {
            for deep in [false, true] {
                fs.push((len, pos, deep));
            }
        }
    }
    ctx.group("file-size", fs, |&(len, pos, deep), o| {
        let mut t: Dir = vec![("a".into(), file(1, 1)), ("m".into(), file(2, 2049))];
        t.insert(pos, (["0big", "big", "zbig"][pos].into(), file(7, len)));
        if deep {
            t = vec![("d".into(), Node::Dir(t)), ("e".into(), file(8, 5))];
        }
        o.state(&(len, pos, deep));
        c13_check(&Src::Virt(t), Some(len < g4), o)
    });

    // total number of sectors around 2^32: 2048 files of almost 4 GiB take 2^21 sectors each
    let mut tot = Vec::new();
    for left in [0u64, 1, 2, 3, 5, 34, 35, 36, 37, 100, 2000] {
        for at_end in [false, true] {
            tot.push((left, at_end));
        }
    }
    ctx.group("total-sectors", tot, |&(left, at_end), o| {
        // tables: root; files: 2047 full ones, one filler
        let full = (1u64 << 32) - 1; // 2^21 sectors
        let n = 2046u64;
        let mut t: Dir = (0..n).map(|i| (format!("f{i:04}"), file(i, full))).collect();
        let part = 3u64 << 19; // two parts of 1.5 * 2^20 sectors
        t.push(("g0001".into(), file(7001, part * 2048)));
        t.push(("g0002".into(), file(7002, part * 2048)));
        let root_sectors = {
            let bytes: u64 = 2049 * 20; // each entry is 14+5 -> 20 bytes
            (bytes + 2048 * 2) / 2048 + 1
        };
        // sectors remaining after the descriptor, the root table (upper estimate) and the full files
        let used = 33 + root_sectors + n * (1 << 21) + 2 * part;
        let room = (1u64 << 32) - used;
        // filler of (room - 40 + left) sectors: certainly fits for small `left`, certainly not for large
        let sectors = room - 40 + left;
        let name = if at_end { "zlast" } else { "alast" };
        let len = sectors * 2048;
        if len > full {
            return Err(format!("harness: filler of {len} bytes"));
        }
        t.push((name.into(), file(9999, len)));
        o.state(&(left, at_end));
        let accept = if left <= 2 { Some(true) } else if left >= 2000 { Some(false) } else { None };
        c13_check(&Src::Virt(t), accept, o)
    });
    ctx.group("total-sectors-far", vec![1u64, 2, 10, 100, 2048], |&extra, o| {
        let full = (1u64 << 32) - 1;
        let t: Dir = (0..2048 + extra).map(|i| (format!("f{i:04}"), file(i, full))).collect();
        o.state(&extra);
        c13_check(&Src::Virt(t), Some(false), o)
    });

    // the addressable table: offsets are 16 bits in units of 4 bytes
    let mut tabs = Vec::new();
    for l in [255usize, 242, 128, 60, 10, 6] {
        for d in -6i64..=6 {
            for k in 0..if l < 100 { 2u64 } else { 8 } {
                tabs.push((l, d, k));
            }
        }
    }
    ctx.group("table-limit", tabs, |&(l, d, k), o| {
        let per = (14 + l).div_ceil(4) * 4;
        let per_sector = 2048 / per;
        // entries that fit below the last addressable offset 0xffff*4, with 128 sectors of 2048
        let fit = 128 * per_sector;
        let n = (fit as i64 + d) as usize;
        let mut t: Dir = (0..n).map(|i| (numbered(i + 0x1000, l.max(4)), file(i as u64, 0))).collect();
        // the order of the listing decides the shape of the tree, and so which kind of child is the last entry
        match k {
            0 => {}
            1 => t.reverse(),
            k => t.sort_by_key(|x| hash(&(k, &x.0))),
        }
        o.state(&(l, d, k));
        // exactly full tables, and one entry beyond, are decided by the format: the last entry's
        // offset must be below 0xffff (which marks a missing child)
        let last = ((n - 1) / per_sector) * 2048 + ((n - 1) % per_sector) * per;
        let accept = if last / 4 < 0xffff { Some(true) } else { Some(false) };
        c13_check(&Src::Mem(t), accept, o)
    });
    ctx.group("table-limit-far", vec![(9000usize, 20usize), (20000, 8), (70000, 8), (2000, 255)], |&(n, l), o| {
        let t: Dir = (0..n).map(|i| (numbered(i + 0x10000, l), file(i as u64, 0))).collect();
        o.state(&(n, l));
        let per = (14 + l).div_ceil(4) * 4;
        let last = ((n - 1) / (2048 / per)) * 2048 + ((n - 1) % (2048 / per)) * per;
        c13_check(&Src::Mem(t), Some(last / 4 < 0xffff), o)
    });

    // host entries that are neither files nor directories, or whose names are not text
    ctx.group("host-entry-kinds", (0..10usize).flat_map(|k| [(k, false), (k, true)]).collect(), |&(k, deep), o| {
        use std::os::unix::ffi::OsStrExt;
        let s = ctx.scratch();
        let src = s.join("src");
        make_dir(&src, &vec![("a".into(), file(1, 5)), ("d".into(), Node::Dir(vec![("b".into(), file(2, 6))]))]);
        let base = if deep { src.join("d") } else { src.clone() };
        let c = |p: &std::path::Path| std::ffi::CString::new(p.as_os_str().as_bytes()).unwrap();
        let mut _keep = None;
        match k {
            0 => {
                unsafe { libc::mkfifo(c(&base.join("fifo")).as_ptr(), 0o600) };
            }
            1 => {
                _keep = Some(std::os::unix::net::UnixListener::bind(base.join("s")).unwrap());
            }
            2 => std::os::unix::fs::symlink("a", base.join("link")).unwrap(),
            3 => std::os::unix::fs::symlink("/nonexistent", base.join("dangling")).unwrap(),
            4 => std::os::unix::fs::symlink(".", base.join("dirlink")).unwrap(),
            5 => std::fs::write(base.join(std::ffi::OsStr::from_bytes(b"bad\xff\xfe")), b"x").unwrap(),
            6 => std::fs::create_dir(base.join(std::ffi::OsStr::from_bytes(b"\xc3\x28"))).unwrap(),
            7 => std::fs::write(base.join("日本"), b"x").unwrap(),
            8 => {
                std::fs::write(base.join("Q"), b"x").unwrap();
                std::fs::write(base.join("q"), b"y").unwrap();
            }
            _ => {
                std::fs::write(base.join("Dup"), b"x").unwrap();
                std::fs::create_dir(base.join("dUP")).unwrap();
            }
        }
        let mut fs = xdvdfs::write::fs::StdFilesystem::create(&src);
        let mut dev = IoDev::new(vec![]);
        let r = run!(create_xdvdfs_image(&mut fs, &mut dev, |_| {}));
        o.steps(1);
        o.state(&(k, deep));
        match r {
            Ok(()) => Err(format!("accepted; image holds {:?}", tree_of(&dev.data[..]))),
            Err(e) => {
                o.outcome(format!("refused: {e}"));
                o.valid();
                Ok(())
            }
        }
    });
}
