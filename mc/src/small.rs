//! C07, C15, C18, C19: probing, checksums, name order, block devices.

use std::cmp::Ordering;
use std::io::{Seek, SeekFrom, Write};

use xdvdfs::blockdev::{BlockDeviceRead, BlockDeviceWrite, OffsetWrapper};
use xdvdfs::layout::DirectoryEntryData;
use xdvdfs::read::read_volume;
use xdvdfs::util::{cmp_ignore_case_utf8, Error};
use xdvdfs::write::fs::{DefaultCopier, SectorLinearBlockContents, SectorLinearBlockDevice, StdIOCopier, XDVDFSFilesystem};
use xdvdfs::write::img::create_xdvdfs_image;

use crate::dev::*;
use crate::fw::*;
use crate::img::*;
use crate::model::*;
use crate::pack::*;
use crate::read::*;
use crate::repack::{repack, Src, HOWS, OFFSETS};

// ---------------------------------------------------------------- SHA3-256

pub fn sha3_256(data: &[u8]) -> [u8; 32] {
    const RC: [u64; 24] = [
        0x0000000000000001, 0x0000000000008082, 0x800000000000808a, 0x8000000080008000, 0x000000000000808b, 0x0000000080000001,
        0x8000000080008081, 0x8000000000008009, 0x000000000000008a, 0x0000000000000088, 0x0000000080008009, 0x000000008000000a,
        0x000000008000808b, 0x800000000000008b, 0x8000000000008089, 0x8000000000008003, 0x8000000000008002, 0x8000000000000080,
        0x000000000000800a, 0x800000008000000a, 0x8000000080008081, 0x8000000000008080, 0x0000000080000001, 0x8000000080008008,
    ];
    const ROT: [[u32; 5]; 5] = [[0, 36, 3, 41, 18], [1, 44, 10, 45, 2], [62, 6, 43, 15, 61], [28, 55, 25, 21, 56], [27, 20, 39, 8, 14]];
    fn f(a: &mut [[u64; 5]; 5]) {
        for rc in RC {
            let mut c = [0u64; 5];
            for x in 0..5 {
                c[x] = a[x][0] ^ a[x][1] ^ a[x][2] ^ a[x][3] ^ a[x][4];
            }
            for x in 0..5 {
                let d = c[(x + 4) % 5] ^ c[(x + 1) % 5].rotate_left(1);
                for y in 0..5 {
                    a[x][y] ^= d;
                }
            }
            let mut b = [[0u64; 5]; 5];
            for x in 0..5 {
                for y in 0..5 {
                    b[y][(2 * x + 3 * y) % 5] = a[x][y].rotate_left(ROT[x][y]);
                }
            }
            for x in 0..5 {
                for y in 0..5 {
                    a[x][y] = b[x][y] ^ (!b[(x + 1) % 5][y] & b[(x + 2) % 5][y]);
                }
            }
            a[0][0] ^= rc;
        }
    }
    let rate = 136;
    let mut m = data.to_vec();
    m.push(6);
    while m.len() % rate != 0 {
        m.push(0);
    }
    *m.last_mut().unwrap() |= 0x80;
    let mut a = [[0u64; 5]; 5];
    for block in m.chunks(rate) {
        for (i, w) in block.chunks(8).enumerate() {
            a[i % 5][i / 5] ^= u64::from_le_bytes(w.try_into().unwrap());
        }
        f(&mut a);
    }
    let mut out = [0; 32];
    for i in 0..4 {
        out[8 * i..8 * i + 8].copy_from_slice(&a[i][0].to_le_bytes());
    }
    out
}

/// The published construction: every path in byte order followed by the file's data
pub fn checksum_model(t: &Dir) -> [u8; 32] {
    let mut v: Vec<(String, Node)> = walk(t).into_iter().map(|(p, n)| (format!("/{}", p.join("/")), n)).collect();
    v.sort_by(|a, b| a.0.as_bytes().cmp(b.0.as_bytes()));
    let mut data = Vec::new();
    for (p, n) in v {
        data.extend_from_slice(p.as_bytes());
        if let Node::File { id, len } = n {
            data.extend_from_slice(&content(id, len));
        }
    }
    sha3_256(&data)
}

pub fn checksum_of<D: BlockDeviceRead>(dev: &mut D) -> Result<[u8; 32], String>
where
    D::ReadError: std::fmt::Debug,
{
    let v = run!(read_volume(dev)).map_err(|e| format!("{e:?}"))?;
    run!(xdvdfs::checksum::checksum(dev, &v)).map_err(|e| format!("{e:?}"))
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

/// All trees that differ from `t` by one edit
pub fn neighbours(t: &Dir) -> Vec<(String, Dir)> {
    fn at<'a>(d: &'a mut Dir, path: &[usize]) -> &'a mut Dir {
        match path.split_first() {
            None => d,
            Some((i, r)) => match &mut d[*i].1 {
                Node::Dir(c) => at(c, r),
                _ => unreachable!(),
            },
        }
    }
    fn dirs(d: &Dir, base: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        out.push(base.clone());
        for (i, (_, n)) in d.iter().enumerate() {
            if let Node::Dir(c) = n {
                base.push(i);
                dirs(c, base, out);
                base.pop();
            }
        }
    }
    let mut ds = Vec::new();
    dirs(t, &mut vec![], &mut ds);
    let mut out = Vec::new();
    for d in &ds {
        for (what, n) in [("add empty file", file(77, 0)), ("add file", file(77, 3)), ("add directory", Node::Dir(vec![]))] {
            let mut u = t.clone();
            at(&mut u, d).push(("nEw".into(), n));
            out.push((format!("{what} in {d:?}"), u));
        }
        let here = at(&mut t.clone(), d).clone();
        for i in 0..here.len() {
            let mut u = t.clone();
            at(&mut u, d).remove(i);
            out.push((format!("remove {d:?}/{i}"), u));
            for name in ["q", "zzz"] {
                let mut u = t.clone();
                at(&mut u, d)[i].0 = name.into();
                out.push((format!("rename {d:?}/{i} to {name}"), u));
            }
            // change of case only
            let n = &here[i].0;
            let flipped: String = n.chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect();
            if flipped != *n {
                let mut u = t.clone();
                at(&mut u, d)[i].0 = flipped;
                out.push((format!("case of {d:?}/{i}"), u));
            }
            match &here[i].1 {
                Node::File { id, len } => {
                    for (what, n) in [("longer", file(*id, len + 1)), ("other bytes", file(id + 1000, *len))] {
                        if what == "other bytes" && *len == 0 {
                            continue;
                        }
                        let mut u = t.clone();
                        at(&mut u, d)[i].1 = n;
                        out.push((format!("{what} {d:?}/{i}"), u));
                    }
                    if *len > 0 {
                        let mut u = t.clone();
                        at(&mut u, d)[i].1 = file(*id, len - 1);
                        out.push((format!("shorter {d:?}/{i}"), u));
                    }
                }
                Node::Dir(_) => {}
            }
        }
    }
    out
}

pub fn c15(ctx: &Ctx) {
    assert_eq!(hex(&sha3_256(b"abc")), "3a985da74fe225b2045c172d6bd390bd855f086e3e9d525b46bfe24511431532");
    let lays = layouts();
    let trees = small_trees(ctx.pick(4, 5));
    let mut cases = Vec::new();
    for t in &trees {
        for l in 0..lays.len() {
            cases.push((t, l));
        }
    }
    ctx.group("trees", cases, |&(t, l), o| {
        let want = checksum_model(t);
        let img = build(t, &lays[l]).bytes;
        let got = checksum_of(&mut Dev::new(img.clone()))?;
        o.state(&got);
        o.steps(1);
        if got != want {
            return Err(format!("checksum {}, the construction gives {}", hex(&got), hex(&want)));
        }
        if l == 0 {
            let again = repack(&img, HOWS[0])?;
            if checksum_of(&mut Dev::new(again))? != want {
                return Err("checksum changes by repacking".into());
            }
            o.steps(1);
        }
        o.valid();
        Ok(())
    });

    let bases: Vec<Dir> = small_trees(ctx.pick(3, 4)).into_iter().chain(crate::fault::gallery()).collect();
    ctx.group("single-edits", bases, |t, o| {
        let base = checksum_of(&mut Dev::new(build(t, &lays[0]).bytes))?;
        for (what, u) in neighbours(t) {
            let c = checksum_of(&mut Dev::new(build(&u, &lays[hash(&what) as usize % lays.len()]).bytes))?;
            o.steps(1);
            o.state(&c);
            if c == base {
                return Err(format!("{what}: checksum unchanged"));
            }
            if c != checksum_model(&u) {
                return Err(format!("{what}: checksum is not the construction"));
            }
        }
        o.valid();
        Ok(())
    });

    // every byte of every file
    let t: Dir = vec![("a".into(), file(1, 3000)), ("d".into(), Node::Dir(vec![("b".into(), file(2, 40)), ("E".into(), file(3, 2048))]))];
    let b = build(&t, &lays[0]);
    let base = checksum_model(&t);
    let mut cases = Vec::new();
    for (p, (sec, size)) in &b.extents {
        if matches!(find(&t, p), Some(Node::File { .. })) {
            for i in (0..*size as u64).step_by(ctx.pick(7, 1)) {
                for bit in ctx.pick(vec![0u8, 7], (0..8).collect()) {
                    cases.push((*sec as u64 * 2048 + i, bit));
                }
            }
            cases.push((*sec as u64 * 2048 + *size as u64 - 1, 3));
        }
    }
    ctx.group("single-bits", cases, |&(at, bit), o| {
        let mut img = b.bytes.clone();
        img[at as usize] ^= 1 << bit;
        let c = checksum_of(&mut Dev::new(img))?;
        o.state(&c);
        o.steps(1);
        if c == base {
            return Err(format!("bit {bit} of byte {at} does not change the checksum"));
        }
        o.valid();
        Ok(())
    });

    // bytes that are not contents never matter
    let mut inside = vec![false; b.bytes.len()];
    let dec = decode(&b.bytes[..]).expect("own image");
    each(&dec, &mut vec![], &mut |_, t| {
        for i in t.sector as u64 * 2048..t.sector as u64 * 2048 + t.size as u64 {
            inside[i as usize] = true;
        }
    });
    for (sec, size) in b.extents.values() {
        for i in *sec as u64 * 2048..*sec as u64 * 2048 + *size as u64 {
            inside[i as usize] = true;
        }
    }
    inside[32 * 2048..33 * 2048].fill(true);
    let free: Vec<usize> = (0..inside.len()).filter(|i| !inside[*i]).step_by(ctx.pick(97, 5)).collect();
    ctx.group("slack", free, |&i, o| {
        let mut img = b.bytes.clone();
        img[i] ^= 0xff;
        let c = checksum_of(&mut Dev::new(img))?;
        o.state(&i);
        o.steps(1);
        if c != base {
            return Err(format!("byte {i} outside all contents changes the checksum"));
        }
        o.valid();
        Ok(())
    });

    // sizes around every buffer boundary, wide directories, and orders that differ between byte and name order
    let mut cases: Vec<Dir> = sizes(ctx.thorough).into_iter().map(|s| vec![("f".to_string(), file(s, s)), ("e".into(), file(9, 1))]).collect();
    for n in ctx.pick(vec![50usize, 500], vec![50, 500, 3000]) {
        cases.push((0..n).map(|i| (numbered(i, 9), if i % 4 == 0 { Node::Dir(vec![("i".into(), file(i as u64, 9))]) } else { file(i as u64, 10) })).collect());
    }
    for names in [["a", "B", "_", "\u{e9}", "a.b"], ["Z", "a", "A_", "aa", "Z."], ["x", "x y", "x.y", "x-y", "x_y"]] {
        cases.push(names.iter().enumerate().map(|(i, n)| (n.to_string(), if i % 2 == 0 { Node::Dir(vec![("k".into(), file(i as u64, 7)), ("M".into(), file(20 + i as u64, 7))]) } else { file(i as u64, 8) })).collect());
    }
    ctx.group("boundaries", cases, |t, o| {
        let want = checksum_model(t);
        for (l, c) in [(0usize, Chunk::Full), (3, Chunk::Max(1000)), (4, Chunk::EintrMax(77))] {
            let img = build(t, &lays[l]).bytes;
            let mut dev = Src(IoDev::ctl(img, Ctl::new(), c));
            let got = checksum_of(&mut dev)?;
            o.steps(1);
            if got != want {
                return Err(format!("layout {l}, {c:?}: checksum {}, the construction gives {}", hex(&got), hex(&want)));
            }
        }
        o.state(&want);
        o.valid();
        Ok(())
    });
    // at every partition offset
    ctx.group("offsets", (0..4usize).collect(), |&k, o| {
        let mut dev = VDev::default();
        run!(BlockDeviceWrite::write(&mut dev, OFFSETS[k], &b.bytes)).unwrap();
        let mut w = run!(OffsetWrapper::new(dev)).map_err(|e| format!("{e:?}"))?;
        let got = checksum_of(&mut w)?;
        o.steps(1);
        o.state(&k);
        if got != base {
            return Err(format!("checksum at offset {} differs", OFFSETS[k]));
        }
        o.valid();
        Ok(())
    });
    crate::cli2::c15_cli(ctx);
}

// ---------------------------------------------------------------- C07

fn volume(k: usize) -> (Dir, Vec<u8>) {
    let t: Dir = vec![
        (format!("vol{k}"), file(k as u64, 100 + k as u64)),
        ("common".into(), file(50 + k as u64, 3000)),
        ("dir".into(), Node::Dir(vec![(format!("in{k}"), file(60 + k as u64, 2049)), ("e".into(), Node::Dir(vec![]))])),
    ];
    let b = build(&t, &layouts()[k % 6]).bytes;
    (t, b)
}

/// What sits at one partition offset
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Slot {
    Nothing,
    Valid,
    BadFirst,
    BadSecond,
}

fn make(slots: &[Slot; 4]) -> VDev {
    let mut dev = VDev::default();
    for (k, s) in slots.iter().enumerate() {
        let mut b = volume(k).1;
        match s {
            Slot::Nothing => continue,
            Slot::Valid => {}
            Slot::BadFirst => b[32 * 2048 + 3] ^= 0x20,
            Slot::BadSecond => b[33 * 2048 - 1] ^= 0x20,
        }
        run!(BlockDeviceWrite::write(&mut dev, OFFSETS[k], &b)).unwrap();
    }
    dev
}

fn check_found(dev: VDev, k: usize, o: &mut Obs) -> Result<(), String> {
    let mut w = run!(OffsetWrapper::new(dev)).map_err(|e| format!("volume at {} not found: {e:?}", OFFSETS[k]))?;
    if w.get_offset() != OFFSETS[k] {
        return Err(format!("offset {} chosen, expected {}", w.get_offset(), OFFSETS[k]));
    }
    let (t, bytes) = volume(k);
    let mut probe = strings(&['v', 'd'], 2);
    probe.push("vol0".into());
    check_reader(&mut w, &decode(&bytes[..])?, &probe, true, o)?;
    let v = run!(read_volume(&mut w)).map_err(|e| format!("{e:?}"))?;
    for (p, n) in walk(&t) {
        if let Node::File { id, len } = n {
            let e = run!(v.root_table.walk_path(&mut w, &p.join("/"))).map_err(|e| format!("{p:?}: {e:?}"))?;
            let d = run!(e.node.dirent.read_data_all(&mut w)).map_err(|e| format!("{p:?}: {e:?}"))?;
            if *d != content(id, len)[..] {
                return Err(format!("{p:?}: wrong bytes"));
            }
        }
    }
    if checksum_of(&mut w)? != checksum_model(&t) {
        return Err("checksum differs from the bare volume".into());
    }
    // repack of the embedded volume is the repack of the bare one
    let mut fs = run!(XDVDFSFilesystem::<_, Dev, DefaultCopier<_, _>>::new(w)).ok_or("not opened")?;
    let mut out = Dev::new(vec![]);
    run!(create_xdvdfs_image(&mut fs, &mut out, |_| {})).map_err(|e| format!("{e:?}"))?;
    if out.data != repack(&bytes, HOWS[0])? {
        return Err("repack of the embedded volume differs from that of the bare volume".into());
    }
    o.steps(8);
    o.valid();
    Ok(())
}

pub fn c07(ctx: &Ctx) {
    use Slot::*;
    let mut cases = Vec::new();
    for c in 0..256usize {
        let s = |k: u32| [Nothing, Valid, BadFirst, BadSecond][c / 4usize.pow(k) % 4];
        cases.push([s(0), s(1), s(2), s(3)]);
    }
    ctx.group("slots", cases, |s, o| {
        o.state(s);
        match s.iter().position(|x| *x == Valid) {
            Some(k) => check_found(make(s), k, o),
            None => match run!(OffsetWrapper::new(make(s))) {
                Ok(w) => Err(format!("accepted at offset {} without a valid descriptor", w.get_offset())),
                Err(Error::InvalidVolume) => {
                    o.steps(1);
                    o.valid();
                    Ok(())
                }
                Err(e) => Err(format!("rejected with {e:?} instead of as not a volume")),
            },
        }
    });

    // every byte of both signatures
    let mut cases = Vec::new();
    for k in 0..4usize {
        for at in (0..20usize).chain(2048 - 20..2048) {
            for x in ctx.pick(vec![1u8, 0x20, 0xff], (1..=255).collect()) {
                cases.push((k, at, x));
            }
        }
    }
    ctx.group("signatures", cases, |&(k, at, x), o| {
        let mut b = volume(k).1;
        b[32 * 2048 + at] ^= x;
        let mut dev = VDev::default();
        run!(BlockDeviceWrite::write(&mut dev, OFFSETS[k], &b)).unwrap();
        o.state(&(k, at, x));
        o.steps(1);
        if run!(OffsetWrapper::new(dev)).is_ok() {
            return Err(format!("signature byte {at} changed by {x:#x} at {} is accepted", OFFSETS[k]));
        }
        if k == 0 && run!(read_volume(&mut Dev::new(b))).is_ok() {
            return Err(format!("read_volume accepts signature byte {at} changed by {x:#x}"));
        }
        o.valid();
        Ok(())
    });

    // the descriptor alone decides: other bytes of it may be anything; the image may end right after it
    let mut cases = Vec::new();
    for k in 0..4usize {
        for cut in [0usize, 1, 2047, 2048, 32 * 2048 - 1, 32 * 2048, 32 * 2048 + 1, 33 * 2048 - 1, 33 * 2048, 33 * 2048 + 1] {
            cases.push((k, cut));
        }
    }
    ctx.group("truncated", cases, |&(k, cut), o| {
        let b = volume(k).1;
        let mut dev = VDev::default();
        run!(BlockDeviceWrite::write(&mut dev, OFFSETS[k], &b[..cut])).unwrap();
        dev.len = OFFSETS[k] + cut as u64;
        o.state(&(k, cut));
        o.steps(1);
        let ok = run!(OffsetWrapper::new(dev)).is_ok();
        if ok != (cut >= 33 * 2048) {
            return Err(format!("volume at {} cut to {cut} bytes: accepted={ok}", OFFSETS[k]));
        }
        o.valid();
        Ok(())
    });
    // a volume at any other place is not found
    let mut cases = vec![2048u64, 32 * 2048, 65536, 1 << 20];
    for o in &OFFSETS[1..] {
        cases.extend([o - 2048, o + 2048, o / 2, o * 2, o - 1, o + 1]);
    }
    ctx.group("elsewhere", cases, |&at, o| {
        let mut dev = VDev::default();
        run!(BlockDeviceWrite::write(&mut dev, at, &volume(0).1)).unwrap();
        o.state(&at);
        o.steps(1);
        if let Ok(w) = run!(OffsetWrapper::new(dev)) {
            return Err(format!("volume at {at} reported at {}", w.get_offset()));
        }
        o.valid();
        Ok(())
    });
    // through files and the stream copier
    ctx.group_threads("files", 4, (0..4usize).collect(), |&k, o| {
        let d = ctx.scratch();
        let p = d.join("img");
        let (t, b) = volume(k);
        let mut f = std::fs::File::create(&p).unwrap();
        f.seek(SeekFrom::Start(OFFSETS[k])).unwrap();
        f.write_all(&b).unwrap();
        drop(f);
        let f = std::io::BufReader::new(std::fs::File::open(&p).unwrap());
        let mut w = run!(OffsetWrapper::new(f)).map_err(|e| format!("{e:?}"))?;
        check_reader(&mut w, &decode(&b[..])?, &["dir".into(), "x".into()], true, o)?;
        let mut fs = run!(XDVDFSFilesystem::<_, IoDev, StdIOCopier<_, _>>::new(w)).ok_or("not opened")?;
        let mut out = IoDev::new(vec![]);
        run!(create_xdvdfs_image(&mut fs, &mut out, |_| {})).map_err(|e| format!("{e:?}"))?;
        diff_flat(&flatten(&t), &tree_of(&out.data[..])?)?;
        o.state(&k);
        o.steps(2);
        o.valid();
        Ok(())
    });
    crate::cli2::c07_cli(ctx);
}

// ---------------------------------------------------------------- C18

fn entry(n: &str) -> DirectoryEntryData {
    DirectoryEntryData {
        node: xdvdfs::layout::DirectoryEntryDiskData { data: xdvdfs::layout::DiskRegion { sector: 0, size: 0 }, attributes: xdvdfs::layout::DirentAttributes(0), filename_length: n.len() as u8 },
        name: n.try_into().expect("name"),
    }
}

fn check_pair(a: &str, b: &str) -> Result<Ordering, String> {
    let want = cmp_names(a, b);
    let got = cmp_ignore_case_utf8(a, b);
    if got != want {
        return Err(format!("{a:?} and {b:?} compare {got:?}, expected {want:?}"));
    }
    if cmp_ignore_case_utf8(b, a) != want.reverse() {
        return Err(format!("not antisymmetric on {a:?} and {b:?}"));
    }
    if (got == Ordering::Equal) != a.eq_ignore_ascii_case(b) {
        return Err(format!("equality of {a:?} and {b:?} is not ASCII case equality"));
    }
    // on disk a name has at most 255 characters of up to three bytes here
    if a.len().max(b.len()) > 255 {
        return Ok(got);
    }
    let (x, y) = (entry(a), entry(b));
    if x.cmp(&y) != want || x.partial_cmp(&y) != Some(want) {
        return Err(format!("directory entries {a:?} and {b:?} compare {:?}, expected {want:?}", x.cmp(&y)));
    }
    Ok(got)
}

pub fn c18(ctx: &Ctx) {
    let alpha: Vec<char> = "aAbZz_[@`{09. ~\u{e9}\u{c9}\u{20ac}\u{ff}\u{178}\u{df}\u{17f}\u{212a}\u{131}\u{130}\u{10000}".chars().collect();
    let words = strings(&alpha, 2);
    ctx.group("pairs", words.clone(), |a, o| {
        for b in &words {
            check_pair(a, b)?;
            o.steps(2);
        }
        o.state(a);
        o.valid();
        Ok(())
    });
    let words3 = strings(&"aBzZ_[\u{e9}".chars().take(ctx.pick(5, 7)).collect::<Vec<_>>(), 3);
    ctx.group("pairs3", words3.clone(), |a, o| {
        check_pair(a, "")?;
        for b in &words3 {
            check_pair(a, b)?;
            o.steps(2);
        }
        o.state(a);
        o.valid();
        Ok(())
    });
    let small = strings(&"aBb_[".chars().collect::<Vec<_>>(), ctx.pick(2, 3));
    ctx.group("triples", small.clone(), |a, o| {
        for b in &small {
            let ab = cmp_ignore_case_utf8(a, b);
            for c in &small {
                let bc = cmp_ignore_case_utf8(b, c);
                if ab == bc && cmp_ignore_case_utf8(a, c) != ab || ab == Ordering::Equal && cmp_ignore_case_utf8(a, c) != bc {
                    return Err(format!("not transitive on {a:?}, {b:?}, {c:?}"));
                }
                o.steps(1);
            }
        }
        o.state(a);
        o.valid();
        Ok(())
    });
    // every pair of on-disk characters, alone and behind a common prefix
    let chars: Vec<char> = (1..=255u8).map(dec_char).collect();
    ctx.group("characters", chars.clone(), |&a, o| {
        for &b in &chars {
            check_pair(&a.to_string(), &b.to_string())?;
            check_pair(&format!("x{a}"), &format!("X{b}y"))?;
            check_pair(&format!("{a}{b}"), &format!("{b}{a}"))?;
            o.steps(3);
        }
        o.state(&a);
        o.valid();
        Ok(())
    });
    // names that agree up to every position, in any mixture of cases, and differ there or end there
    let tails: Vec<&str> = vec!["", "a", "A", "b", "Z", "z", "_", "[", "\u{e9}", "\u{c9}", "ab", "Ab", "B_", "bzzz"];
    let bases: Vec<Vec<char>> = vec!["n".chars().collect(), "aBcDe_fG[h".chars().collect(), "\u{e9}\u{20ac}x".chars().collect(), "\u{10000}q".chars().collect()];
    let mut cases = Vec::new();
    for len in (0..=ctx.pick(300usize, 1200)).chain([511, 512, 513, 767, 768, 1023, 1024, 1025, 4096, 65535, 65536, 65537]) {
        for b in 0..bases.len() {
            cases.push((len, b));
        }
    }
    ctx.group("long-prefixes", cases, |&(len, b), o| {
        let p: Vec<char> = bases[b].iter().cycle().take(len).copied().collect();
        let spell = |m: usize| -> String { p.iter().enumerate().map(|(i, c)| if (i + 1) * m % 3 == 1 { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect() };
        let (x, y) = (spell(1), spell(2));
        for s in &tails {
            for t in &tails {
                check_pair(&format!("{x}{s}"), &format!("{y}{t}"))?;
                check_pair(&format!("{x}{s}{y}"), &format!("{y}{t}{x}"))?;
                o.steps(2);
            }
        }
        o.state(&(len, b));
        o.valid();
        Ok(())
    });
    // every Unicode character against its case variants and neighbours
    let blocks: Vec<u32> = (0..ctx.pick(0x300u32, 0x1100)).collect();
    ctx.group("unicode", blocks, |&blk, o| {
        for c in (blk * 256..blk * 256 + 256).filter_map(char::from_u32) {
            let s = c.to_string();
            for v in [s.to_uppercase(), s.to_lowercase(), "a".into(), "Z".into(), "k".into(), "s".into(), "_".into()] {
                check_pair(&s, &v)?;
            }
            o.steps(7);
        }
        o.state(&blk);
        o.valid();
        Ok(())
    });
    // what the packer writes, the reader finds
    let names = strings(&"aB_.[\u{e9}".chars().collect::<Vec<_>>(), 2);
    let mut cases = Vec::new();
    for i in 0..names.len() {
        for j in 0..i {
            if !same_name(&names[i], &names[j]) {
                for k in (0..j).filter(|k| ctx.thorough || (i + j + k) % 7 == 0) {
                    if !same_name(&names[i], &names[k]) && !same_name(&names[j], &names[k]) {
                        cases.push((i, j, k));
                    }
                }
            }
        }
    }
    ctx.group("packed-then-found", cases, |&(i, j, k), o| {
        let t: Dir = [i, j, k].iter().map(|x| (names[*x].clone(), file(*x as u64, 1 + *x as u64))).collect();
        let img = pack_mem(&t)?.0;
        o.state(&img[..]);
        let mut dev = Dev::new(img);
        let v = run!(read_volume(&mut dev)).map_err(|e| format!("{e:?}"))?;
        for x in [i, j, k] {
            for s in [names[x].clone(), names[x].to_ascii_uppercase(), names[x].to_ascii_lowercase()] {
                let e = run!(v.root_table.walk_path(&mut dev, &s)).map_err(|e| format!("{s:?} not found: {e:?}"))?;
                if e.node.dirent.data.size != 1 + x as u32 {
                    return Err(format!("{s:?} found the wrong entry"));
                }
                o.steps(1);
            }
        }
        o.valid();
        Ok(())
    });
}

// ---------------------------------------------------------------- C19

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Do {
    Write(u64, usize),
    Read(u64, usize),
    Len,
}

/// Fixed: requests beyond the end fail. Growing: writes extend, reads beyond the end fail.
#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Fixed,
    Growing,
}

struct Ref {
    data: Vec<u8>,
    kind: Kind,
    n: u8,
}

trait Sut {
    fn write(&mut self, off: u64, b: &[u8]) -> Result<(), String>;
    /// None: the device cannot be read
    fn read(&mut self, off: u64, b: &mut [u8]) -> Option<Result<(), String>>;
    fn len(&mut self) -> Result<u64, String>;
    fn empty(&mut self) -> Result<bool, String>;
    /// what really is on the device
    fn dump(&mut self) -> Vec<u8>;
}

fn step(m: &mut Ref, d: &mut dyn Sut, op: Do) -> Result<(), String> {
    let end = m.data.len() as u64;
    match op {
        Do::Write(off, n) => {
            m.n += 1;
            let b: Vec<u8> = (0..n).map(|i| m.n.wrapping_mul(37).wrapping_add(i as u8).wrapping_add(1)).collect();
            let r = d.write(off, &b);
            let fits = off.checked_add(n as u64).is_some_and(|e| e <= if m.kind == Kind::Fixed { end } else { i64::MAX as u64 });
            match (fits, r) {
                (true, Ok(())) => {
                    if n > 0 {
                        let (o, e) = (off as usize, off as usize + n);
                        if m.data.len() < e {
                            m.data.resize(e, 0);
                        }
                        m.data[o..e].copy_from_slice(&b);
                    }
                }
                (true, Err(_)) if n == 0 && off >= end => {}
                (true, Err(e)) => return Err(format!("{op:?} inside the device fails: {e}")),
                (false, Ok(())) if n > 0 => return Err(format!("{op:?} outside the device succeeds")),
                (false, _) => {}
            }
        }
        Do::Read(off, n) => {
            let mut b = vec![0xEE; n];
            let Some(r) = d.read(off, &mut b) else { return Ok(()) };
            let fits = off.checked_add(n as u64).is_some_and(|e| e <= end);
            match (fits, r) {
                (true, Ok(())) => {
                    if n > 0 && b != m.data[off as usize..off as usize + n] {
                        return Err(format!("{op:?} returned {b:?}, the device holds {:?}", &m.data[off as usize..off as usize + n]));
                    }
                }
                (true, Err(_)) if n == 0 && off >= end => {}
                (true, Err(e)) => return Err(format!("{op:?} inside the device fails: {e}")),
                (false, Ok(())) if n > 0 => return Err(format!("{op:?} outside the device succeeds with {b:?}")),
                (false, _) => {}
            }
        }
        Do::Len => {
            let l = d.len()?;
            if l != end {
                return Err(format!("length {l}, written up to {end}"));
            }
            if d.empty()? != (end == 0) {
                return Err(format!("is_empty is wrong for a device of {end} bytes"));
            }
        }
    }
    Ok(())
}

fn sequence(m: &mut Ref, d: &mut dyn Sut, ops: &[Do], o: &mut Obs) -> Result<(), String> {
    for (i, op) in ops.iter().enumerate() {
        step(m, d, *op).map_err(|e| format!("after {:?}: {e}", &ops[..i]))?;
        o.steps(1);
    }
    let got = d.dump();
    if got != m.data {
        return Err(format!("after {ops:?} the device holds {got:?}, expected {:?}", m.data));
    }
    o.state(&(&got, ops.last().map(|x| format!("{x:?}"))));
    o.valid();
    Ok(())
}

fn es<T, E: std::fmt::Debug>(r: Result<T, E>) -> Result<T, String> {
    r.map_err(|e| format!("{e:?}"))
}

struct Boxed(Box<[u8]>);
impl Sut for Boxed {
    fn write(&mut self, off: u64, b: &[u8]) -> Result<(), String> {
        es(run!(BlockDeviceWrite::write(&mut self.0, off, b)))
    }
    fn read(&mut self, off: u64, b: &mut [u8]) -> Option<Result<(), String>> {
        Some(es(run!(<[u8] as BlockDeviceRead>::read(&mut self.0, off, b))))
    }
    fn len(&mut self) -> Result<u64, String> {
        es(run!(BlockDeviceWrite::len(&mut self.0)))
    }
    fn empty(&mut self) -> Result<bool, String> {
        es(run!(BlockDeviceWrite::is_empty(&mut self.0)))
    }
    fn dump(&mut self) -> Vec<u8> {
        self.0.to_vec()
    }
}

struct Slice(Vec<u8>);
impl Sut for Slice {
    fn write(&mut self, off: u64, b: &[u8]) -> Result<(), String> {
        es(run!(<[u8] as BlockDeviceWrite>::write(&mut self.0[..], off, b)))
    }
    fn read(&mut self, off: u64, b: &mut [u8]) -> Option<Result<(), String>> {
        Some(es(run!(<[u8] as BlockDeviceRead>::read(&mut self.0[..], off, b))))
    }
    fn len(&mut self) -> Result<u64, String> {
        es(run!(<[u8] as BlockDeviceWrite>::len(&mut self.0[..])))
    }
    fn empty(&mut self) -> Result<bool, String> {
        es(run!(<[u8] as BlockDeviceWrite>::is_empty(&mut self.0[..])))
    }
    fn dump(&mut self) -> Vec<u8> {
        self.0.clone()
    }
}

struct FileDev(std::fs::File, std::path::PathBuf);
impl Sut for FileDev {
    fn write(&mut self, off: u64, b: &[u8]) -> Result<(), String> {
        es(run!(BlockDeviceWrite::write(&mut self.0, off, b)))
    }
    fn read(&mut self, off: u64, b: &mut [u8]) -> Option<Result<(), String>> {
        Some(es(run!(BlockDeviceRead::read(&mut self.0, off, b))))
    }
    fn len(&mut self) -> Result<u64, String> {
        es(run!(BlockDeviceWrite::len(&mut self.0)))
    }
    fn empty(&mut self) -> Result<bool, String> {
        es(run!(BlockDeviceWrite::is_empty(&mut self.0)))
    }
    fn dump(&mut self) -> Vec<u8> {
        std::fs::read(&self.1).unwrap()
    }
}

struct BufDev(std::io::BufWriter<std::fs::File>, std::path::PathBuf);
impl Sut for BufDev {
    fn write(&mut self, off: u64, b: &[u8]) -> Result<(), String> {
        es(run!(BlockDeviceWrite::write(&mut self.0, off, b)))
    }
    fn read(&mut self, _: u64, _: &mut [u8]) -> Option<Result<(), String>> {
        None
    }
    fn len(&mut self) -> Result<u64, String> {
        es(run!(BlockDeviceWrite::len(&mut self.0)))
    }
    fn empty(&mut self) -> Result<bool, String> {
        es(run!(BlockDeviceWrite::is_empty(&mut self.0)))
    }
    fn dump(&mut self) -> Vec<u8> {
        let _ = self.0.flush();
        std::fs::read(&self.1).unwrap()
    }
}

/// Through trait objects
struct DynDev(Box<dyn BlockDeviceWrite<WriteError = std::io::Error>>, Box<dyn BlockDeviceRead<ReadError = std::io::Error>>, std::path::PathBuf);
impl Sut for DynDev {
    fn write(&mut self, off: u64, b: &[u8]) -> Result<(), String> {
        es(run!(BlockDeviceWrite::write(&mut self.0, off, b)))
    }
    fn read(&mut self, off: u64, b: &mut [u8]) -> Option<Result<(), String>> {
        Some(es(run!(BlockDeviceRead::read(&mut self.1, off, b))))
    }
    fn len(&mut self) -> Result<u64, String> {
        es(run!(BlockDeviceWrite::len(&mut self.0)))
    }
    fn empty(&mut self) -> Result<bool, String> {
        es(run!(BlockDeviceWrite::is_empty(&mut self.0)))
    }
    fn dump(&mut self) -> Vec<u8> {
        std::fs::read(&self.2).unwrap()
    }
}

struct Wrapped(OffsetWrapper<Dev>, u64);
impl Sut for Wrapped {
    fn write(&mut self, off: u64, b: &[u8]) -> Result<(), String> {
        es(run!(BlockDeviceWrite::write(&mut self.0, off, b)))
    }
    fn read(&mut self, off: u64, b: &mut [u8]) -> Option<Result<(), String>> {
        Some(es(run!(BlockDeviceRead::read(&mut self.0, off, b))))
    }
    fn len(&mut self) -> Result<u64, String> {
        es(run!(BlockDeviceWrite::len(&mut self.0)))
    }
    fn empty(&mut self) -> Result<bool, String> {
        es(run!(BlockDeviceWrite::is_empty(&mut self.0)))
    }
    fn dump(&mut self) -> Vec<u8> {
        self.0.get_ref().data[self.1 as usize..].to_vec()
    }
}

struct Stream(IoDev);
impl Sut for Stream {
    fn write(&mut self, _: u64, _: &[u8]) -> Result<(), String> {
        unreachable!()
    }
    fn read(&mut self, off: u64, b: &mut [u8]) -> Option<Result<(), String>> {
        Some(es(run!(BlockDeviceRead::read(&mut self.0, off, b))))
    }
    fn len(&mut self) -> Result<u64, String> {
        Ok(self.0.data.len() as u64)
    }
    fn empty(&mut self) -> Result<bool, String> {
        Ok(self.0.data.is_empty())
    }
    fn dump(&mut self) -> Vec<u8> {
        self.0.data.clone()
    }
}

fn ops(offs: &[u64], lens: &[usize], reads: bool) -> Vec<Do> {
    let mut v = vec![Do::Len];
    for &o in offs {
        for &l in lens {
            v.push(Do::Write(o, l));
            if reads {
                v.push(Do::Read(o, l));
            }
        }
    }
    v
}

fn seqs(ops: &[Do], depth: usize) -> Vec<Vec<Do>> {
    sequences(ops.len(), depth).into_iter().filter(|s| s.len() == depth).map(|s| s.into_iter().map(|i| ops[i]).collect()).collect()
}

pub fn c19(ctx: &Ctx) {
    const HUGE: [u64; 4] = [1 << 63, u64::MAX - 3, u64::MAX - 1, u64::MAX];
    let offs: Vec<u64> = [0u64, 1, 5, 8, 11, 12, 13, 20].iter().chain(&HUGE).copied().collect();
    let full = ops(&offs, &[0, 1, 3, 4, 12, 13], true);
    let small = ops(&[0, 3, 8, 12, u64::MAX], &[1, 5], true);
    let mut cases = seqs(&full, 2);
    cases.extend(seqs(&small, ctx.pick(3, 4)));
    let init: Vec<u8> = (100..112).collect();
    ctx.group("slices", cases.clone(), |s, o| {
        for n in [12usize, 0, 1] {
            sequence(&mut Ref { data: init[..n].to_vec(), kind: Kind::Fixed, n: 0 }, &mut Slice(init[..n].to_vec()), s, o)?;
            sequence(&mut Ref { data: init[..n].to_vec(), kind: Kind::Fixed, n: 0 }, &mut Boxed(init[..n].to_vec().into_boxed_slice()), s, o)?;
        }
        Ok(())
    });
    // the buffered file's buffer is 8192 bytes: cross it
    let fops = ops(&[0, 1, 8, 12, 20, 8190, 8192, 1 << 63, u64::MAX], &[0, 3, 13, 8192, 9000], true);
    let fsmall = ops(&[0, 4, 9000, u64::MAX], &[2, 8200], true);
    let mut cases = seqs(&fops, 2);
    cases.extend(seqs(&fsmall, ctx.pick(3, 4)));
    ctx.group("files", cases, |s, o| {
        let d = ctx.scratch();
        let p = d.join("f");
        let open = |data: &[u8]| {
            std::fs::write(&p, data).unwrap();
            std::fs::File::options().read(true).write(true).open(&p).unwrap()
        };
        for n in [12usize, 0] {
            let r = || Ref { data: init[..n].to_vec(), kind: Kind::Growing, n: 0 };
            sequence(&mut r(), &mut FileDev(open(&init[..n]), p.clone()), s, o)?;
            sequence(&mut r(), &mut BufDev(std::io::BufWriter::new(open(&init[..n])), p.clone()), s, o)?;
            let f = open(&init[..n]);
            let g = std::fs::File::open(&p).unwrap();
            sequence(&mut r(), &mut DynDev(Box::new(f), Box::new(g), p.clone()), s, o)?;
        }
        Ok(())
    });
    // the wrapper translates by the partition offset, found or zero
    let woffs: Vec<u64> = [0u64, 1, 2047, 65535, 65536, 65540].iter().chain(&HUGE).copied().collect();
    let mut cases: Vec<(Vec<Do>, usize)> = Vec::new();
    let wops = ops(&woffs, &[1, 7], true);
    for s in seqs(&wops, ctx.pick(2, 3)) {
        cases.push((s, 0));
    }
    for s in seqs(&wops, 1) {
        cases.push((s, 3));
    }
    let (_, vol) = volume(0);
    let total = vol.len();
    ctx.group_threads("offset-wrapper", 6, cases, |(s, k), o| {
        let off = OFFSETS[*k] as usize;
        let mut data = vec![0u8; off];
        data.extend_from_slice(&vol);
        let w = run!(OffsetWrapper::new(Dev::new(data))).map_err(|e| format!("{e:?}"))?;
        if w.get_offset() != off as u64 {
            return Err(format!("offset {}", w.get_offset()));
        }
        let mut d = Wrapped(w, off as u64);
        let mut m = Ref { data: vol.clone(), kind: Kind::Growing, n: 0 };
        // huge writes would only fail by exhausting memory on the underlying model device
        let s: Vec<Do> = s.iter().copied().filter(|op| !matches!(op, Do::Write(off, _) if *off > total as u64 + 100)).collect();
        sequence(&mut m, &mut d, &s, o)?;
        if d.0.get_ref().data[..off].iter().any(|b| *b != 0) {
            return Err("bytes before the partition changed".into());
        }
        Ok(())
    });
    // positions in a wrapped stream are those of the volume, at each of the four places
    let seeks: Vec<SeekFrom> = vec![
        SeekFrom::Start(0), SeekFrom::Start(1), SeekFrom::Start(70_000), SeekFrom::Start(1 << 40), SeekFrom::Current(0), SeekFrom::Current(1), SeekFrom::Current(-1), SeekFrom::Current(-70_000),
        SeekFrom::Current(i64::MIN), SeekFrom::End(0), SeekFrom::End(5), SeekFrom::End(-1), SeekFrom::End(-70_000), SeekFrom::End(i64::MIN), SeekFrom::End(-(1 << 20)),
    ];
    let mut cases = Vec::new();
    for k in 0..4usize {
        for s in sequences(seeks.len(), ctx.pick(3, 4)) {
            cases.push((k, s));
        }
    }
    let sparse: Vec<std::path::PathBuf> = if LIST.load(std::sync::atomic::Ordering::SeqCst) { vec![] } else {
        let d = ctx.scratch();
        let v = (0..4).map(|k| {
            let p = d.path().with_extension(format!("seek{k}"));
            crate::cli::write_at(&p, &vol, OFFSETS[k]);
            p
        }).collect();
        v
    };
    ctx.group("seeks", cases, |(k, s), o| {
        let len = vol.len() as i128;
        let mut w = run!(OffsetWrapper::new(std::fs::File::open(&sparse[*k]).unwrap())).map_err(|e| format!("{e:?}"))?;
        let mut pos = 0i128;
        w.seek(SeekFrom::Start(0)).map_err(|e| e.to_string())?;
        for &i in s {
            let to = match seeks[i] {
                SeekFrom::Start(p) => p as i128,
                SeekFrom::Current(d) => pos + d as i128,
                SeekFrom::End(d) => len + d as i128,
            };
            let r = w.seek(seeks[i]);
            if to >= 0 {
                pos = to;
            }
            match r {
                Ok(p) if to >= 0 && p as i128 == to => {}
                Err(_) if to < 0 => {}
                x => return Err(format!("{:?} from {pos} in a volume of {len} bytes gives {x:?}, expected {to}", seeks[i])),
            }
            let now = w.stream_position().map_err(|e| e.to_string())?;
            let raw = w.get_mut().stream_position().unwrap();
            if now as i128 != pos || raw != pos as u64 + OFFSETS[*k] {
                return Err(format!("after {:?}: position {now} (of the file: {raw}), expected {pos} at {}", seeks[i], OFFSETS[*k]));
            }
            if pos + 4 <= len {
                let mut b = [0; 4];
                run!(BlockDeviceRead::read(&mut w, pos as u64, &mut b)).map_err(|e| e.to_string())?;
                if b != vol[pos as usize..pos as usize + 4] {
                    return Err(format!("{b:?} at {pos}"));
                }
                w.seek(SeekFrom::Start(pos as u64)).map_err(|e| e.to_string())?;
            }
            o.steps(1);
        }
        o.state(&(k, s, pos));
        o.valid();
        Ok(())
    });
    for p in &sparse {
        let _ = std::fs::remove_file(p);
    }
    // streams that return less than asked for, or are interrupted
    let rops = ops(&offs, &[0, 1, 3, 4, 12, 13], true).into_iter().filter(|x| matches!(x, Do::Read(..))).collect::<Vec<_>>();
    let mut cases = Vec::new();
    for c in [Chunk::Full, Chunk::Max(1), Chunk::Max(2), Chunk::Max(5), Chunk::Eintr, Chunk::EintrMax(1), Chunk::EintrMax(3)] {
        for s in seqs(&rops, 2) {
            cases.push((c, s));
        }
    }
    ctx.group("streams", cases, |(c, s), o| {
        let data: Vec<u8> = (0..12).collect();
        let mut d = Stream(IoDev::ctl(data.clone(), Ctl::new(), *c));
        // the model stream accepts only positions below 2^63
        let s: Vec<Do> = s.iter().copied().filter(|x| !matches!(x, Do::Read(off, _) if *off >= 1 << 63)).collect();
        sequence(&mut Ref { data: data.clone(), kind: Kind::Fixed, n: 0 }, &mut d, &s, o)?;
        let mut r = std::io::BufReader::with_capacity(4, Src(IoDev::ctl(data.clone(), Ctl::new(), *c)));
        for op in &s {
            if let Do::Read(off, n) = op {
                let mut b = vec![0; *n];
                let res = run!(BlockDeviceRead::read(&mut r, *off, &mut b));
                let fits = off + *n as u64 <= 12;
                if fits && (res.is_err() || b != data[*off as usize..*off as usize + n]) || !fits && res.is_ok() && *n > 0 {
                    return Err(format!("{op:?} on a buffered stream: {res:?} {b:?}"));
                }
            }
        }
        Ok(())
    });

    // sector-linear device: aligned writes of every size to every free place
    let slots: Vec<(u64, usize)> = vec![(0, 1), (0, 2048), (1, 2047), (1, 2049), (2, 4096), (3, 0), (4, 100), (5, 2048), (5, 1), (7, 5000), (9, 3), (12, 2048), (1 << 40, 2048)];
    let depth = ctx.pick(3, 4);
    let cases: Vec<Vec<usize>> = sequences(slots.len(), depth).into_iter().filter(|s| {
        let mut used = std::collections::HashSet::new();
        s.iter().all(|&i| (0..slots[i].1.div_ceil(2048) as u64).all(|k| used.insert(slots[i].0 + k)))
    }).collect();
    ctx.group("sector-linear", cases, |s, o| {
        let mut d = SectorLinearBlockDevice::default();
        let mut m: std::collections::BTreeMap<u64, [u8; 2048]> = Default::default();
        for (j, &i) in s.iter().enumerate() {
            let (sec, n) = slots[i];
            let b: Vec<u8> = (0..n).map(|x| (x * 7 + j * 13 + 1) as u8).collect();
            es(run!(d.write(sec * 2048, &b)))?;
            for (k, c) in b.chunks(2048).enumerate() {
                let mut x = [0; 2048];
                x[..c.len()].copy_from_slice(c);
                m.insert(sec + k as u64, x);
            }
            let want = m.keys().last().map_or(0, |k| (k + 1) * 2048);
            let len = es(run!(d.len()))?;
            if len != want {
                return Err(format!("length {len}, expected {want}"));
            }
            o.steps(2);
        }
        for sec in (0..16).chain([1 << 40, (1 << 40) + 1]) {
            let got: Vec<u8> = match &d[sec] {
                SectorLinearBlockContents::RawData(b) => b.to_vec(),
                SectorLinearBlockContents::Empty => vec![],
                x => return Err(format!("sector {sec} is {x:?}")),
            };
            let want = m.get(&sec).map(|b| b.to_vec()).unwrap_or_default();
            if got != want {
                return Err(format!("sector {sec} has wrong contents"));
            }
        }
        if d.num_sectors() != m.len() {
            return Err(format!("{} sectors, expected {}", d.num_sectors(), m.len()));
        }
        o.state(&s);
        o.valid();
        Ok(())
    });
}
