//! C03, C04: the reading interface on every volume within the bounds.

use std::collections::{BTreeMap, BTreeSet};

use xdvdfs::blockdev::{BlockDeviceRead, OffsetWrapper};
use xdvdfs::layout::{DirectoryEntryDiskData, DirectoryEntryNode, DirectoryEntryTable, DirentAttributes, DiskRegion};
use xdvdfs::read::read_volume;
use xdvdfs::util::Error;

use crate::dev::*;
use crate::fw::*;
use crate::img::*;
use crate::model::*;
use crate::pack::numbered;

/// What identifies an entry: name, attributes, sector, size and where it is stored
pub type Id = (Vec<u8>, u8, u32, u32, u64);

pub fn id_of(n: &DirectoryEntryNode) -> Id {
    let d = n.node.dirent;
    let r = d.data;
    (n.name_slice().to_vec(), d.attributes.0, r.sector, r.size, n.offset)
}

fn want_id(e: &Ent, t: &Table) -> Id {
    (e.name.clone(), e.attr, e.sector, e.size, e.disk_offset(t))
}

fn multiset(v: impl Iterator<Item = Id>) -> BTreeMap<Id, usize> {
    let mut m = BTreeMap::new();
    for x in v {
        *m.entry(x).or_insert(0) += 1;
    }
    m
}

pub fn absent<T, E: std::fmt::Debug>(r: Result<T, Error<E>>, what: &dyn Fn() -> String) -> Result<(), String> {
    match r {
        Ok(_) => Err(format!("{}: an entry was returned", what())),
        Err(Error::DoesNotExist | Error::IsNotDirectory | Error::DirectoryEmpty | Error::NoDirent) => Ok(()),
        Err(e) => Err(format!("{}: expected absence, got {e:?}", what())),
    }
}

fn cases_of(s: &str) -> Vec<String> {
    let alt = |k: usize| -> String { s.chars().enumerate().map(|(i, c)| if i % 2 == k { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect() };
    let mut v = vec![s.to_string(), s.to_ascii_uppercase(), s.to_ascii_lowercase(), alt(0), alt(1)];
    v.dedup();
    v
}

/// Full comparison of the reading interface with the decoded volume.
/// `probe`: extra names looked up in every directory.
pub fn check_volume(bytes: &[u8], probe: &[String], obs: &mut Obs) -> Result<(), String> {
    let t = decode(bytes).map_err(|e| format!("harness: built image is not well formed: {e}"))?;
    let mut dev = Dev::new(bytes.to_vec());
    dev.read_only = true;
    check_reader(&mut dev, &t, probe, true, obs)?;
    obs.steps(dev.ctl.calls());
    Ok(())
}

pub fn check_reader<D: BlockDeviceRead>(dev: &mut D, t: &Table, probe: &[String], lookups: bool, obs: &mut Obs) -> Result<(), String>
where
    D::ReadError: std::fmt::Debug,
{
    let vol = run!(read_volume(dev)).map_err(|e| format!("read_volume: {e:?}"))?;
    let root = vol.root_table;
    let reg = root.region;
    if (reg.sector, reg.size) != (t.sector, t.size) {
        return Err(format!("root table {reg:?} for {:?}", (t.sector, t.size)));
    }
    let mut dirs: Vec<(Vec<String>, &Table)> = Vec::new();
    each(t, &mut Vec::new(), &mut |p, t| dirs.push((p.to_vec(), t)));

    // recursive listing
    let tree = run!(root.file_tree(dev)).map_err(|e| format!("file_tree: {e:?}"))?;
    let mut got: BTreeMap<String, Vec<Id>> = BTreeMap::new();
    for (p, n) in &tree {
        got.entry(p.clone()).or_default().push(id_of(n));
    }
    for (p, t) in &dirs {
        let key: String = p.iter().map(|c| format!("/{c}")).collect();
        let g = got.remove(&key).unwrap_or_default();
        let g = multiset(g.into_iter());
        let w = multiset(t.ents.iter().map(|e| want_id(e, t)));
        if g != w {
            return Err(format!("file_tree of {key:?}: {g:?}, expected {w:?}"));
        }
    }
    if let Some(k) = got.keys().next() {
        return Err(format!("file_tree reports unknown directory {k:?}"));
    }
    for (p, t) in &dirs {
        let path = format!("/{}", p.join("/"));
        let table = DirectoryEntryTable::new(t.size, t.sector);
        let want = multiset(t.ents.iter().map(|e| want_id(e, t)));
        let walk = run!(table.walk_dirent_tree(dev)).map_err(|e| format!("walk_dirent_tree {path}: {e:?}"))?;
        let w = multiset(walk.iter().map(id_of));
        if w != want {
            return Err(format!("walk_dirent_tree {path}: {w:?}, expected {want:?}"));
        }
        let mut scan = Vec::new();
        {
            let mut it = run!(table.scan_dirent_tree(dev)).map_err(|e| format!("scan_dirent_tree {path}: {e:?}"))?;
            while let Some(e) = run!(it.next_entry()).map_err(|e| format!("next_entry {path}: {e:?}"))? {
                scan.push(id_of(&e));
                if scan.len() > t.ents.len() {
                    break;
                }
            }
        }
        let s = multiset(scan.into_iter());
        if s != want {
            return Err(format!("scan_dirent_tree {path}: {s:?}, expected {want:?}"));
        }
        for n in walk.iter() {
            let s: Result<_, Error<()>> = n.name_str();
            let s = s.map_err(|e| format!("name_str {path}: {e:?}"))?;
            if s != dec1252(n.name_slice()) {
                return Err(format!("name_str gives {s:?} for {:?}", n.name_slice()));
            }
        }
        if !lookups {
            continue;
        }
        let base: String = p.iter().map(|c| format!("{c}/")).collect();
        let find = |name: &str| t.ents.iter().find(|e| same_name(&e.name_str(), name));
        let mut names: BTreeSet<String> = probe.iter().cloned().collect();
        // in large directories every name is looked up, with fewer spellings of each
        let large = t.ents.len() > 64;
        for (i, e) in t.ents.iter().enumerate() {
            let n = e.name_str();
            if large && i % 16 != 0 {
                names.insert(if i % 2 == 0 { n.to_ascii_uppercase() } else { n });
                continue;
            }
            for c in cases_of(&n) {
                names.insert(c);
            }
            // near misses
            names.insert(format!("{n} "));
            names.insert(format!("{n}a"));
            names.insert(n.chars().skip(1).collect());
            names.insert(n.chars().take(n.chars().count().saturating_sub(1)).collect());
        }
        names.retain(|n| !n.is_empty() && !n.contains('/'));
        for name in &names {
            let want = find(name).map(|e| want_id(e, t));
            for (k, spelling) in [format!("{base}{name}"), format!("/{base}{name}"), format!("///{base}{name}"), format!("/{base}{name}/")].iter().enumerate() {
                if large && k > 0 {
                    break;
                }
                let r = run!(root.walk_path(dev, spelling));
                match (&want, r) {
                    (Some(w), Ok(g)) if id_of(&g) == *w => {}
                    // a trailing slash on a file may be taken as naming a directory
                    (Some(w), r) if k == 3 && w.1 & 0x10 == 0 => absent(r, &|| format!("lookup of {spelling:?}"))?,
                    (Some(w), r) => return Err(format!("lookup of {spelling:?}: {:?}, expected {w:?}", r.map(|g| id_of(&g)))),
                    (None, r) => absent(r, &|| format!("lookup of {spelling:?}"))?,
                }
            }
            if large {
                continue;
            }
            // other spellings may or may not resolve, but never to another entry
            for spelling in [format!("{base}/{name}"), format!("/{base}{name}//"), format!("{base}{name}///")] {
                let r = run!(root.walk_path(dev, &spelling));
                match (&want, r) {
                    (Some(w), Ok(g)) if id_of(&g) == *w => {}
                    (_, r) => absent(r, &|| format!("lookup of {spelling:?}"))?,
                }
            }
            // through a file
            if let Some(e) = find(name) {
                if !e.is_dir() {
                    for spelling in [format!("{base}{name}/{name}"), format!("/{base}{name}/x/y")] {
                        absent(run!(root.walk_path(dev, &spelling)), &|| format!("lookup through a file, {spelling:?}"))?;
                    }
                }
            }
        }
    }
    if lookups {
        for s in ["", "/", "//", "///"] {
            absent(run!(root.walk_path(dev, s)), &|| format!("lookup of {s:?}"))?;
        }
    }
    obs.valid();
    Ok(())
}

pub const POOLS: [[&str; 8]; 4] = [
    ["b", "D", "f", "H", "j", "L", "n", "P"],
    ["a", "ab", "ABC", "a.b", "a_b", "A b", "a-", "b"],
    ["Z", "_", "z_", "[", "`a", "{", "~", "@"],
    ["\u{e9}", "\u{c9}", "\u{20ac}", "\u{ff}", "\u{a0}x", "x\u{a0}", "y", "\u{17d}"],
];

pub fn small_trees(max: usize) -> Vec<Dir> {
    let mut v = Vec::new();
    for n in 0..=max {
        for p in parent_vectors(n) {
            for mask in 0..(3usize.pow(n as u32)) {
                let k = |i: usize| match mask / 3usize.pow(i as u32 - 1) % 3 {
                    0 => None,
                    1 => Some(0),
                    _ => Some([1u64, 2047, 2048, 2049, 5000][i % 5]),
                };
                // the same names in every directory
                let rank = |i: usize| (1..i).filter(|j| p[j - 1] == p[i - 1]).count();
                let name = |i: usize| ["b", "A.x", "c_", "\u{e9}D", "b1", "Aa"][rank(i)].to_string();
                if let Some(t) = build_tree(&p, &k, &name) {
                    v.push(t);
                }
            }
        }
    }
    if max > 0 {
        v.extend(mirrors());
    }
    v
}

/// Directories with equal names and the same names inside, apart from the file contents
pub fn mirrors() -> Vec<Dir> {
    fn level(depth: usize, order: u64, next: &mut u64) -> Dir {
        let mut v = Dir::new();
        for n in ["b", "A.x"] {
            if depth > 0 {
                v.push((n.into(), Node::Dir(level(depth - 1, order, next))));
            }
            *next += 1;
            let len = if order == 0 { *next * 1500 } else { 40_000 - *next * 1500 };
            v.push((format!("{n}_"), file(*next, len)));
        }
        v
    }
    (0..2).map(|order| level(2, order, &mut 0)).collect()
}

/// Name lengths of the last entry of a sector, and what is left of the sector after it
pub fn sector_ends(thorough: bool) -> Vec<(usize, usize)> {
    let mut v = Vec::new();
    let lens: Vec<usize> = if thorough { (1..=255).collect() } else { (1..=34).chain([49, 50, 51, 99, 100, 177, 178, 240, 241, 242, 253, 254, 255]).collect() };
    for q in lens {
        for gap in (0..=if thorough { 268 } else { 44 }).step_by(4) {
            v.push((q, gap));
        }
    }
    v
}

/// A directory whose table in sorted order has a first sector that ends, `gap` bytes before the
/// sector's end, with an entry whose name has `q` bytes; the next entry needs a sector of its own
pub fn sector_end_tree(q: usize, gap: usize) -> Dir {
    let size = |n: usize| (14 + n).div_ceil(4) * 4;
    let mut t: Dir = Vec::new();
    let mut rest = 2048 - gap - size(q);
    let mut i = 0usize;
    let mut put = |t: &mut Dir, bytes: usize| {
        t.push((format!("a{}", numbered(i + 0x100, bytes - 15)), file(i as u64, 1 + i as u64 % 3)));
        i += 1;
    };
    while rest >= 2 * 64 {
        put(&mut t, 64);
        rest -= 64;
    }
    put(&mut t, rest);
    t.push(("m".repeat(q), file(77, 2)));
    for k in 0..3 {
        t.push((format!("z{}", numbered(k, 254)), if k == 1 { Node::Dir(vec![("in".into(), file(5, 5))]) } else { file(78 + k as u64, 3) }));
    }
    t
}

pub fn c03(ctx: &Ctx) {
    let probe = strings(&['a', 'B', '_', '.'], 2);
    // every search tree shape, every placement, both markers
    let nmax = ctx.pick(6, 7);
    let mut cases = Vec::new();
    for n in 1..=nmax {
        let fact: usize = (1..n).product::<usize>().max(1);
        for s in 0..catalan(n) {
            for pl in 0..fact {
                for v in 0..4usize {
                    for pool in 0..POOLS.len() {
                        if n >= 6 && (s + pl + v + pool) % POOLS.len() != 0 {
                            continue; // pools rotate over the largest size
                        }
                        cases.push((n, s, pl, v, pool));
                    }
                }
            }
        }
    }
    ctx.group("shapes", cases, |&(n, s, pl, v, pool), o| {
        let t: Dir = (0..n).map(|i| (POOLS[pool][i].to_string(), if i % 3 == 2 { Node::Dir(vec![]) } else { file(i as u64, i as u64 * 700) })).collect();
        let lay = Lay {
            shape: Shape::Nth(s),
            place: Place::Nth(pl),
            none: if v & 1 == 0 { 0 } else { 0xffff },
            pad: if v & 1 == 0 { 0xff } else { 0 },
            exact: v & 2 != 0,
            empty: [EmptyDir::Size0, EmptyDir::Blank(0xff), EmptyDir::Blank(0)][(n + v) % 3],
            ..Lay::default()
        };
        let b = build(&t, &lay);
        o.state(&b.bytes[..]);
        check_volume(&b.bytes, &probe, o)
    });

    // every tree up to a bound in every layout
    let trees = small_trees(ctx.pick(4, 5));
    let lays = layouts();
    let mut cases = Vec::new();
    for t in &trees {
        for l in 0..lays.len() {
            cases.push((t, l));
        }
    }
    let probe1 = strings(&['a', 'b', 'C', '_'], 1);
    ctx.group("trees", cases, |&(t, l), o| {
        let b = build(t, &lays[l]);
        o.state(&b.bytes[..]);
        check_volume(&b.bytes, &probe1, o)
    });

    // nested directories whose children carry the same names: a lookup must not mix them
    let mut cases = Vec::new();
    for depth in 1..=ctx.pick(20usize, 60) {
        for l in 0..lays.len() {
            for fan in 1..=3usize {
                cases.push((depth, l, fan));
            }
        }
    }
    ctx.group("same-names-nested", cases, |&(depth, l, fan), o| {
        fn rec(d: usize, fan: usize, id: u64) -> Dir {
            let mut v: Dir = vec![("x".into(), file(id, id)), ("Y".into(), file(id + 100, 3))];
            for k in 0..fan {
                if d > 0 && (k == 0 || d < 4) {
                    v.push((format!("d{k}"), Node::Dir(rec(d - 1, fan, id + 1))));
                }
            }
            v
        }
        let b = build(&rec(depth, fan, 1), &lays[l]);
        o.state(&b.bytes[..]);
        check_volume(&b.bytes, &["d0".into(), "q".into()], o)
    });

    // tables of several sectors: every name length class, shape and placement
    let mut cases = Vec::new();
    for len in ctx.pick(vec![1usize, 2, 3, 4, 5, 50, 100, 112, 113, 114, 115, 127, 150, 200, 241, 242, 243, 253, 254, 255], (1..=255).collect()) {
        for n in ctx.pick(vec![7usize, 8, 9, 16, 30, 64, 150], vec![7, 8, 9, 10, 15, 16, 17, 30, 64, 65, 150, 300]) {
            for l in 0..lays.len() {
                cases.push((len, n, l));
            }
        }
    }
    ctx.group("multi-sector-tables", cases, |&(len, n, l), o| {
        let t: Dir = (0..n)
            .map(|i| {
                let mut s: String = numbered(i + 0x100, len.max(3));
                if i % 5 == 4 {
                    s = numbered(i + 0x100, (len / 2).max(3));
                }
                (s, if i % 11 == 3 { Node::Dir(vec![]) } else { file(i as u64, 0) })
            })
            .collect();
        let b = build(&t, &lays[l]);
        o.state(&b.bytes[..]);
        check_volume(&b.bytes, &[], o)
    });
    // the last entry of a sector: every name length and every distance from the sector's end
    let mut cases = Vec::new();
    for (q, gap) in sector_ends(ctx.thorough) {
        for l in [0usize, 1, 2] {
            cases.push((q, gap, l));
        }
    }
    ctx.group("sector-ends", cases, |&(q, gap, l), o| {
        let lay = Lay { place: Place::Sorted, shape: Shape::Right, ..lays[l].clone() };
        let b = build(&sector_end_tree(q, gap), &lay);
        o.state(&b.bytes[..]);
        check_volume(&b.bytes, &[], o)
    });

    // every pair of one-byte names
    let mut cases = Vec::new();
    for a in 1u16..256 {
        for b in (a + 1)..256 {
            let (x, y) = (dec_char(a as u8), dec_char(b as u8));
            if x == '/' || y == '/' || same_name(&x.to_string(), &y.to_string()) {
                continue;
            }
            cases.push((a as u8, b as u8));
        }
    }
    ctx.group("character-pairs", cases, |&(a, b), o| {
        let (x, y) = (dec_char(a).to_string(), dec_char(b).to_string());
        let t: Dir = vec![(x.clone(), file(1, 1)), (y.clone(), file(2, 2))];
        for shape in [Shape::Left, Shape::Right] {
            let im = build(&t, &Lay { shape, ..Lay::default() });
            o.state(&(a, b, shape));
            check_volume(&im.bytes, &[x.to_uppercase(), y.to_lowercase(), format!("{x}{y}")], o)?;
        }
        Ok(())
    });

    // large directories
    let mut cases = Vec::new();
    for n in ctx.pick(vec![200usize, 1000], vec![200, 1000, 3000, 5000]) {
        for shape in [Shape::Balanced, Shape::Left, Shape::Right, Shape::Zigzag] {
            if n > 1000 && shape != Shape::Balanced {
                continue;
            }
            cases.push((n, shape));
        }
    }
    ctx.group("large-directories", cases, |&(n, shape), o| {
        let t: Dir = (0..n).map(|i| (numbered(i, 8), file(i as u64, 0))).collect();
        let b = build(&t, &Lay { shape, ..Lay::default() });
        o.state(&(n, shape));
        let t = decode(&b.bytes[..])?;
        let mut dev = Dev::new(b.bytes);
        check_reader(&mut dev, &t, &[], true, o)?;
        o.steps(dev.ctl.calls());
        Ok(())
    });
}

// ---------------------------------------------------------------- C04

fn cut(data: &[u8], off: u64, len: u64) -> Vec<u8> {
    let s = off.min(data.len() as u64) as usize;
    let e = off.saturating_add(len).min(data.len() as u64) as usize;
    data[s..e.max(s)].to_vec()
}

fn entry(sector: u32, size: u32) -> DirectoryEntryDiskData {
    DirectoryEntryDiskData { data: DiskRegion { sector, size }, attributes: DirentAttributes(0x20), filename_length: 1 }
}

fn reads<D: BlockDeviceRead + ?Sized>(dev: &mut D, e: &DirectoryEntryDiskData, data: &[u8], ranges: &[(u64, u64)], bufs: &[usize], o: &mut Obs, what: &str) -> Result<(), String>
where
    D::ReadError: std::fmt::Debug,
{
    let all = run!(e.read_data_all(dev)).map_err(|e| format!("{what}: read_data_all: {e:?}"))?;
    if all[..] != *data {
        return Err(format!("{what}: read_data_all differs from the file ({} bytes for {})", all.len(), data.len()));
    }
    for &(off, len) in ranges {
        let r = run!(e.read_data_offset(dev, len, off)).map_err(|e| format!("{what}: read_data_offset({len}, {off}): {e:?}"))?;
        let w = cut(data, off, len);
        if r[..] != w[..] {
            return Err(format!("{what}: read_data_offset(size {len}, offset {off}) of a file of {} bytes returned {} bytes, expected {} ({})", data.len(), r.len(), w.len(), if r.len() == w.len() { "contents differ" } else { "length differs" }));
        }
        o.steps(1);
    }
    for &n in bufs {
        let mut buf = vec![0xee; n];
        run!(e.read_data(dev, &mut buf)).map_err(|e| format!("{what}: read_data({n}): {e:?}"))?;
        let k = n.min(data.len());
        if buf[..k] != data[..k] {
            return Err(format!("{what}: read_data into {n} bytes differs"));
        }
        if buf[k..].iter().any(|b| *b != 0xee && *b != 0) {
            return Err(format!("{what}: read_data into {n} bytes returned bytes beyond the file of {}", data.len()));
        }
        o.steps(1);
    }
    o.valid();
    Ok(())
}

pub fn c04(ctx: &Ctx) {
    // one file at every size class, position and kind of image end: all ranges
    let small: Vec<u64> = (0..=ctx.pick(24, 48)).collect();
    let edge: Vec<u64> = vec![2046, 2047, 2048, 2049, 2050, 4095, 4096, 4097, 6143, 6144, 6145, 65535, 65536, 65537];
    let mut cases = Vec::new();
    for &s in small.iter().chain(&edge) {
        for cutv in [false, true] {
            for sector in [33u32, 34, 64] {
                for dev in 0..6usize {
                    cases.push((s, cutv, sector, dev));
                }
            }
        }
    }
    ctx.group("ranges", cases, |&(s, cutv, sector, dev), o| {
        let data = content(sector as u64, s);
        let start = sector as usize * 2048;
        let mut img = vec![0x5a; start];
        img.extend_from_slice(&data);
        if !cutv {
            img.resize(start + (s as usize).div_ceil(2048) * 2048 + 2048, 0xa5);
        }
        let mut ranges = Vec::new();
        if s <= 48 {
            for off in 0..=s + 4 {
                for len in 0..=s + 4 {
                    ranges.push((off, len));
                }
            }
        }
        let near: BTreeSet<u64> = [0, 1, 2, 2047, 2048, 2049, 4096, s.saturating_sub(2049), s.saturating_sub(2048), s.saturating_sub(2047), s.saturating_sub(2), s.saturating_sub(1), s, s + 1, s + 2, s + 2048, u32::MAX as u64, 1 << 32, u64::MAX - 1, u64::MAX].into_iter().collect();
        for &a in &near {
            for &b in &near {
                ranges.push((a, b));
            }
        }
        let bufs: Vec<usize> = near.iter().filter(|n| **n < 200_000).map(|n| *n as usize).collect();
        let e = entry(sector, s as u32);
        o.state(&(s, cutv, sector, dev));
        match dev {
            0 => {
                let mut d = Dev::new(img);
                reads(&mut d, &e, &data, &ranges, &bufs, o, "device")
            }
            1 => reads(&mut img[..], &e, &data, &ranges, &bufs, o, "slice"),
            2 => {
                let mut d = IoDev::ctl(img, Ctl::new(), Chunk::Max(7));
                reads(&mut d, &e, &data, &ranges[..ranges.len().min(900)], &bufs, o, "stream with short reads")
            }
            3 => {
                let mut d = IoDev::ctl(img, Ctl::new(), Chunk::EintrMax(1000));
                reads(&mut d, &e, &data, &ranges, &bufs, o, "interrupted stream")
            }
            4 => {
                let mut d = std::io::BufReader::new(IoDev::new(img));
                reads(&mut d, &e, &data, &ranges, &bufs, o, "buffered stream")
            }
            _ => {
                // a wrapped volume: the descriptor is needed for the probe
                img[32 * 2048..33 * 2048].fill(0);
                img[32 * 2048..32 * 2048 + 20].copy_from_slice(MAGIC);
                img[33 * 2048 - 20..33 * 2048].copy_from_slice(MAGIC);
                let mut d = run!(OffsetWrapper::new(IoDev::new(img))).map_err(|e| format!("{e:?}"))?;
                reads(&mut d, &e, &data, &ranges, &bufs, o, "offset wrapper")?;
                if s > 0 {
                    use std::io::Read;
                    e.seek_to(&mut d).map_err(|e| format!("seek_to: {e:?}"))?;
                    let mut v = Vec::new();
                    d.get_mut().take(s).read_to_end(&mut v).map_err(|e| e.to_string())?;
                    if v != data {
                        return Err("data at the seek_to position differs".into());
                    }
                }
                Ok(())
            }
        }
    });

    // every file of every small tree in every layout, read through its directory entry
    let trees = small_trees(ctx.pick(4, 5));
    let lays = layouts();
    let mut cases = Vec::new();
    for t in &trees {
        for l in 0..lays.len() {
            cases.push((t, l));
        }
    }
    ctx.group("trees", cases, |&(t, l), o| {
        let b = build(t, &lays[l]);
        o.state(&b.bytes[..]);
        let mut dev = Dev::new(b.bytes.clone());
        let vol = run!(read_volume(&mut dev)).map_err(|e| format!("{e:?}"))?;
        for (p, n) in walk(t) {
            let Node::File { id, len } = n else { continue };
            let path = p.join("/");
            let e = run!(vol.root_table.walk_path(&mut dev, &path)).map_err(|e| format!("{path}: {e:?}"))?;
            let d = e.node.dirent;
            reads(&mut dev, &d, &content(id, len), &[(0, len), (0, len + 1), (len / 2, len), (len, 1), (1, len), (len.saturating_sub(1), 1)], &[len as usize, len as usize + 2048, 1], o, &path)?;
        }
        Ok(())
    });

    // files at the far end of the address space and of the size range
    let mut cases = Vec::new();
    for sector in [33u32, 1 << 20, (1 << 21) - 1, 1 << 21, (1 << 21) + 1, 1 << 31, u32::MAX - 1, u32::MAX] {
        for size in [1u64, 2048, 2049, (1 << 31) - 1, 1 << 31, (1 << 32) - 2049, (1 << 32) - 2048, (1 << 32) - 1] {
            cases.push((sector, size));
        }
    }
    ctx.group("far-files", cases, |&(sector, size), o| {
        let mut dev = VDev::default();
        let base = sector as u64 * SECTOR;
        dev.ext.insert(base, Ext::File { id: 9, start: 0, len: size });
        dev.len = base + size;
        let e = entry(sector, size as u32);
        o.state(&(sector, size));
        for off in [0, 1, 2047, 2048, (1u64 << 31) - 1, 1 << 31, size.saturating_sub(4097), size.saturating_sub(2048), size.saturating_sub(1), size, size + 1, 1 << 32, 1 << 33, u64::MAX] {
            for len in [0u64, 1, 2, 2048, 4097] {
                let r = run!(e.read_data_offset(&mut dev, len, off)).map_err(|e| format!("read_data_offset({len},{off}): {e:?}"))?;
                let n = len.min(size.saturating_sub(off));
                let mut w = vec![0; n as usize];
                if n > 0 {
                    content_at(9, off, &mut w);
                }
                if r[..] != w[..] {
                    return Err(format!("read_data_offset(size {len}, offset {off}) returned {} bytes, expected {n}, or other contents", r.len()));
                }
                o.steps(1);
            }
        }
        o.valid();
        Ok(())
    });
}
