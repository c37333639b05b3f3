//! C05, C06: repacking and compressing.

use xdvdfs::blockdev::{BlockDeviceRead, OffsetWrapper};
use xdvdfs::write::fs::{CisoSectorInput, DefaultCopier, FilesystemCopier, FilesystemHierarchy, SectorLinearBlockDevice, SectorLinearBlockFilesystem, StdFilesystem, StdIOCopier, XDVDFSFilesystem};
use xdvdfs::write::img::create_xdvdfs_image;

use crate::dev::*;
use crate::fw::*;
use crate::img::*;
use crate::model::*;
use crate::pack::*;
use crate::read::small_trees;

pub const OFFSETS: [u64; 4] = [0, 405798912, 265879552, 34078720];

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum How {
    /// default copier between trait devices
    Default,
    /// default copier, stream source behind the offset wrapper
    Wrapped,
    /// std::io::copy between streams
    StdIo(Chunk),
    /// std::io::copy between streams, without the offset wrapper
    Plain(Chunk),
}

pub const HOWS: [How; 8] = [
    How::Default,
    How::Wrapped,
    How::StdIo(Chunk::Full),
    How::StdIo(Chunk::Max(1000)),
    How::StdIo(Chunk::EintrMax(777)),
    How::Plain(Chunk::Full),
    How::Plain(Chunk::Max(1000)),
    How::Plain(Chunk::EintrMax(777)),
];

impl std::io::Read for Src {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        std::io::Read::read(&mut self.0, b)
    }
}
impl std::io::Seek for Src {
    fn seek(&mut self, p: std::io::SeekFrom) -> std::io::Result<u64> {
        self.0.seek(p)
    }
}
/// A read-only stream
pub struct Src(pub IoDev);

pub fn repack(image: &[u8], how: How) -> Result<Vec<u8>, String> {
    match how {
        How::Default => {
            let mut src = Dev::new(image.to_vec());
            src.read_only = true;
            let mut fs = run!(XDVDFSFilesystem::<_, Dev, DefaultCopier<_, _>>::new(src)).ok_or("not opened")?;
            let mut dev = Dev::new(vec![]);
            run!(create_xdvdfs_image(&mut fs, &mut dev, |_| {})).map_err(|e| format!("{e:?}"))?;
            Ok(dev.data)
        }
        How::Wrapped => {
            let src = run!(OffsetWrapper::new(Src(IoDev::new(image.to_vec())))).map_err(|e| format!("{e:?}"))?;
            let mut fs = run!(XDVDFSFilesystem::<_, Dev, DefaultCopier<_, _>>::new(src)).ok_or("not opened")?;
            let mut dev = Dev::new(vec![]);
            run!(create_xdvdfs_image(&mut fs, &mut dev, |_| {})).map_err(|e| format!("{e:?}"))?;
            Ok(dev.data)
        }
        How::StdIo(c) => {
            let src = run!(OffsetWrapper::new(std::io::BufReader::new(Src(IoDev::ctl(image.to_vec(), Ctl::new(), c))))).map_err(|e| format!("{e:?}"))?;
            let mut fs = run!(XDVDFSFilesystem::<_, IoDev, StdIOCopier<_, _>>::new(src)).ok_or("not opened")?;
            let mut dev = IoDev::ctl(vec![], Ctl::new(), c);
            run!(create_xdvdfs_image(&mut fs, &mut dev, |_| {})).map_err(|e| format!("{e:?}"))?;
            Ok(dev.data)
        }
        How::Plain(c) => {
            let src = Src(IoDev::ctl(image.to_vec(), Ctl::new(), c));
            let mut fs = run!(XDVDFSFilesystem::<_, IoDev, StdIOCopier<_, _>>::new(src)).ok_or("not opened")?;
            let mut dev = IoDev::ctl(vec![], Ctl::new(), c);
            run!(create_xdvdfs_image(&mut fs, &mut dev, |_| {})).map_err(|e| format!("{e:?}"))?;
            Ok(dev.data)
        }
    }
}

fn check_repack(image: &[u8], want: &Flat, how: How, o: &mut Obs) -> Result<(), String> {
    let once = repack(image, how).map_err(|e| format!("repack refused: {e}"))?;
    let t = decode(&once[..])?;
    validate_packed(&once[..], &t)?;
    diff_flat(want, &flat_image(&once[..], &t)?)?;
    let twice = repack(&once, how).map_err(|e| format!("second repack refused: {e}"))?;
    diff_flat(want, &tree_of(&twice[..])?).map_err(|e| format!("second repack: {e}"))?;
    o.steps(2);
    o.state(&once[..]);
    o.valid();
    Ok(())
}

/// Small and boundary sizes with every kind of content
pub fn content_cases() -> Vec<(u64, u64)> {
    let mut v = Vec::new();
    for k in KINDS {
        for s in (1u64..=33).chain([63, 64, 65, 511, 512, 2047, 2048, 2049, 4096, 6150]) {
            v.push((k, s));
        }
    }
    v
}

pub fn content_tree(k: u64, s: u64) -> Dir {
    vec![("a".into(), file(1 | k, s)), ("b.xbe".into(), file(2, 3)), ("c".into(), Node::Dir(vec![("d".into(), file(3 | k, s + 1)), ("e".into(), file(1 | k, s))])), ("f".into(), file(4 | k, 1))]
}

/// The virtual image is a volume with exactly these files
pub fn virtual_holds(out: &VDev, files: &[(&str, u64, u64, u32)]) -> Result<(), String> {
    let v = decode(out)?;
    validate_packed(out, &v)?;
    if v.ents.len() != files.len() {
        return Err(format!("{} entries for {}", v.ents.len(), files.len()));
    }
    for (n, id, len, _) in files {
        let e = v.ents.iter().find(|e| e.name_str() == *n).ok_or_else(|| format!("{n} is missing"))?;
        if e.size as u64 != *len || e.is_dir() {
            return Err(format!("{n}: size {} for a file of {len} bytes", e.size));
        }
        let base = e.sector as u64 * 2048;
        let mut p = 0;
        while p < *len {
            // one recorded extent of the right contents covers its whole range at once
            if let Some((o, Ext::File { id: i, start, len: l })) = out.ext.range(..=base + p).next_back() {
                if *i == (id | PLAIN) && o + l > base + p && start + (base + p - o) == p {
                    p = o + l - base;
                    continue;
                }
            }
            let m = (len - p).min(64);
            let mut w = vec![0; m as usize];
            content_at(id | PLAIN, p, &mut w);
            if out.bytes(base + p, m as usize).as_ref() != Some(&w) {
                return Err(format!("{n}: contents differ near byte {p}"));
            }
            p += m;
        }
    }
    Ok(())
}

pub fn c05(ctx: &Ctx) {
    let lays = layouts();
    let trees = small_trees(ctx.pick(4, 5));
    let mut cases = Vec::new();
    for t in &trees {
        for l in 0..lays.len() {
            for h in [HOWS[0], HOWS[2], HOWS[5]] {
                cases.push((t, l, h));
            }
        }
    }
    ctx.group("trees", cases, |&(t, l, h), o| check_repack(&build(t, &lays[l]).bytes, &flatten(t), h, o));

    // every shape, placement and marker of one directory
    let mut cases = Vec::new();
    for n in 1..=ctx.pick(5usize, 6) {
        let fact: usize = (1..n).product::<usize>().max(1);
        for s in 0..catalan(n) {
            for p in 0..fact {
                for v in 0..4usize {
                    cases.push((n, s, p, v));
                }
            }
        }
    }
    ctx.group("shapes", cases, |&(n, s, p, v), o| {
        let t: Dir = (0..n).map(|i| (crate::read::POOLS[v][i].to_string(), if i % 3 == 1 { Node::Dir(vec![("i".into(), file(99, 5))]) } else { file(i as u64, 900 * i as u64) })).collect();
        let lay = Lay { shape: Shape::Nth(s), place: Place::Nth(p), none: if v % 2 == 0 { 0 } else { 0xffff }, exact: v > 1, pad: if v % 2 == 0 { 0xff } else { 0 }, cut: v == 3, ..Lay::default() };
        check_repack(&build(&t, &lay).bytes, &flatten(&t), HOWS[(s + p) % 8], o)
    });

    // names: every character, every length, nested and shared prefixes
    let mut cases = Vec::new();
    for b in 1u16..256 {
        if b as u8 != b'/' {
            cases.push(vec![dec_char(b as u8).to_string(), format!("x{}", dec_char(b as u8)), format!("{}y", dec_char(b as u8))]);
        }
    }
    for l in ctx.pick((1..=255).step_by(9).chain([254, 255]).collect::<Vec<_>>(), (1..=255).collect()) {
        cases.push(vec!["q".repeat(l)]);
        cases.push(vec!["\u{20ac}".repeat(l)]);
        if l < 255 {
            cases.push(vec!["q".repeat(l), "q".repeat(l + 1), format!("{}r", "q".repeat(l))]);
        }
    }
    ctx.group("names", cases, |names, o| {
        let mut t: Dir = Vec::new();
        let mut seen: Vec<String> = vec![];
        for (i, n) in names.iter().enumerate() {
            if seen.iter().any(|s| same_name(s, n)) || n == "." || n == ".." {
                continue;
            }
            seen.push(n.clone());
            t.push((n.clone(), if i % 2 == 0 { Node::Dir(vec![(n.clone(), file(i as u64, 7)), ("in".into(), Node::Dir(vec![]))]) } else { file(i as u64 + 50, 2049) }));
        }
        for h in [HOWS[0], HOWS[3], HOWS[6]] {
            check_repack(&build(&t, &lays[1]).bytes, &flatten(&t), h, o)?;
        }
        Ok(())
    });

    // file sizes around the copy buffer of 1 MiB and the stream buffers
    let m = 1u64 << 20;
    let mut cases = Vec::new();
    for s in [0, 1, 2047, 2048, 2049, 8191, 8192, 8193, 65535, 65536, 65537, m - 1, m, m + 1, 2 * m - 1, 2 * m, 2 * m + 1, 3 * m + 5] {
        for h in HOWS {
            for l in [0usize, 2, 4] {
                cases.push((s, h, l));
            }
        }
    }
    ctx.group("sizes", cases, |&(s, h, l), o| {
        let t: Dir = vec![("a".into(), file(1, s)), ("b".into(), file(2, 3)), ("c".into(), Node::Dir(vec![("d".into(), file(3, s / 2))]))];
        check_repack(&build(&t, &lays[l]).bytes, &flatten(&t), h, o)
    });

    let mut cases = Vec::new();
    for (q, gap) in crate::read::sector_ends(ctx.thorough) {
        cases.push((q, gap, (q + gap / 4) % 3));
    }
    ctx.group("sector-ends", cases, |&(q, gap, l), o| {
        let t = crate::read::sector_end_tree(q, gap);
        let lay = Lay { place: Place::Sorted, shape: Shape::Right, ..lays[l].clone() };
        check_repack(&build(&t, &lay).bytes, &flatten(&t), HOWS[(q + gap / 4) % 8], o)
    });

    ctx.group("contents", content_cases(), |&(k, s), o| {
        let t = content_tree(k, s);
        for h in HOWS {
            check_repack(&build(&t, &lays[2]).bytes, &flatten(&t), h, o)?;
        }
        Ok(())
    });

    // large and deep
    let mut cases = Vec::new();
    for n in ctx.pick(vec![10usize, 100, 1000], vec![10, 100, 1000, 4000]) {
        for l in [0usize, 1, 2, 3] {
            if l != 0 && n > 1000 {
                continue;
            }
            cases.push((n, l, false));
        }
    }
    for n in ctx.pick(vec![2usize, 10, 50], vec![2, 10, 50, 100, 200]) {
        for l in 0..lays.len() {
            cases.push((n, l, true));
        }
    }
    ctx.group("large-and-deep", cases, |&(n, l, deep), o| {
        let t: Dir = if deep {
            let mut d: Dir = vec![("end".into(), file(1, 3))];
            for i in 0..n {
                d = vec![(format!("d{i}"), Node::Dir(d)), ("f".into(), file(i as u64, 10))];
            }
            d
        } else {
            (0..n).map(|i| (numbered(i, 8), if i % 50 == 7 { Node::Dir(vec![("x".into(), file(i as u64, 1))]) } else { file(i as u64, (i % 7) as u64) })).collect()
        };
        check_repack(&build(&t, &lays[l]).bytes, &flatten(&t), HOWS[l % 8], o)
    });

    // sizes beyond what fits in memory, at high sectors
    let mut cases = Vec::new();
    for s in [(1u64 << 31) - 1, 1 << 31, (1 << 31) + 7, (1 << 32) - 1] {
        for sector in [40u32, 0x0020_0000, 0xff00_0000] {
            for std in 0..3 {
                if ctx.thorough || sector == 0x0020_0000 || s == (1 << 31) + 7 {
                    cases.push((s, sector, std));
                }
            }
        }
    }
    ctx.group("huge-files", cases, |&(s, sector, std), o| {
        let files = [("a", 1u64, 5u64, 34u32), ("big", 2, s, sector), ("c", 3, 4097, 35), ("d", 4, 0, 0)];
        let src = VDev::volume(&files);
        let out = if std == 2 {
            let mut fs = run!(XDVDFSFilesystem::<_, VIo, StdIOCopier<_, _>>::new(VIo(src, 0))).ok_or("not opened")?;
            let mut dev = VIo(VDev::default(), 0);
            run!(create_xdvdfs_image(&mut fs, &mut dev, |_| {})).map_err(|e| format!("repack refused: {e:?}"))?;
            dev.0
        } else if std == 1 {
            let src = run!(OffsetWrapper::new(VIo(src, 0))).map_err(|e| format!("{e:?}"))?;
            let mut fs = run!(XDVDFSFilesystem::<_, VIo, StdIOCopier<_, _>>::new(src)).ok_or("not opened")?;
            let mut dev = VIo(VDev::default(), 0);
            run!(create_xdvdfs_image(&mut fs, &mut dev, |_| {})).map_err(|e| format!("repack refused: {e:?}"))?;
            dev.0
        } else {
            let mut fs = run!(XDVDFSFilesystem::<_, VDev, DefaultCopier<_, _>>::new(VSrc(src))).ok_or("not opened")?;
            let mut dev = VDev::default();
            run!(create_xdvdfs_image(&mut fs, &mut dev, |_| {})).map_err(|e| format!("repack refused: {e:?}"))?;
            dev
        };
        o.steps(s >> 20);
        o.state(&(s, sector, std));
        virtual_holds(&out, &files)?;
        o.valid();
        Ok(())
    });

    // repacking what the packer itself produced
    let trees = small_trees(4);
    ctx.group("repack-packed", trees.iter().collect(), |t, o| {
        let (img, _) = pack_mem(t)?;
        check_repack(&img, &flatten(t), How::StdIo(Chunk::Full), o)?;
        // a packed image is a fixed point up to layout: its contents stay equal for every strategy
        for h in HOWS {
            diff_flat(&flatten(t), &tree_of(&repack(&img, h)?[..])?)?;
        }
        Ok(())
    });
}

// ---------------------------------------------------------------- C06

/// Decompresses through the sector interface that the compressor reads from
pub fn linear_sectors<F, E>(fs: &mut F) -> Result<Vec<u8>, String>
where
    F: FilesystemHierarchy + FilesystemCopier<[u8], Error = E>,
    <F as FilesystemHierarchy>::Error: std::fmt::Debug,
    E: std::fmt::Debug + Send + Sync,
{
    use ciso::write::SectorReader;
    let mut dev = SectorLinearBlockDevice::default();
    let mut sl = SectorLinearBlockFilesystem::new(fs);
    run!(create_xdvdfs_image(&mut sl, &mut dev, |_| {})).map_err(|e| format!("{e:?}"))?;
    let mut input = CisoSectorInput::new(dev, sl);
    let size = run!(input.size()).map_err(|e| format!("{e:?}"))?;
    let mut out = Vec::new();
    for s in 0..size.div_ceil(2048) {
        let b = run!(input.read_sector(s as usize, 2048)).map_err(|e| format!("sector {s}: {e:?}"))?;
        if b.len() != 2048 {
            return Err(format!("sector {s} has {} bytes", b.len()));
        }
        out.extend_from_slice(&b);
    }
    out.truncate(size as usize);
    Ok(out)
}

fn first_diff(a: &[u8], b: &[u8]) -> String {
    if a.len() != b.len() {
        return format!("lengths {} and {}", a.len(), b.len());
    }
    let i = a.iter().zip(b).position(|(x, y)| x != y);
    format!("first difference at {i:?} (sector {:?})", i.map(|i| i / 2048))
}

fn check_linear(t: &Dir, img: Option<&[u8]>, o: &mut Obs) -> Result<(), String> {
    let (want, got) = match img {
        None => {
            let plain = pack_mem(t)?.0;
            let mut fs = MemFs::new(t);
            (plain, linear_sectors(&mut fs)?)
        }
        Some(b) => {
            let plain = repack(b, How::Default)?;
            let mut src = Dev::new(b.to_vec());
            src.read_only = true;
            let mut fs = run!(XDVDFSFilesystem::<_, [u8], DefaultCopier<_, _>>::new(src)).ok_or("not opened")?;
            (plain, linear_sectors(&mut fs)?)
        }
    };
    o.steps(got.len() as u64 / 2048);
    o.state(&got[..]);
    diff_flat(&flatten(t), &tree_of(&got[..])?)?;
    if want != got {
        return Err(format!("compressed sectors differ from the plain image: {}", first_diff(&want, &got)));
    }
    o.valid();
    Ok(())
}

pub fn c06(ctx: &Ctx) {
    let lays = layouts();
    let trees = small_trees(ctx.pick(4, 5));
    let mut cases = Vec::new();
    for t in &trees {
        cases.push((t, None));
        for l in 0..lays.len() {
            cases.push((t, Some(l)));
        }
    }
    ctx.group("trees", cases, |&(t, l), o| match l {
        None => check_linear(t, None, o),
        Some(l) => check_linear(t, Some(&build(t, &lays[l]).bytes), o),
    });

    // every range of a file into every place of a slice, from a host file and from an image
    let mut cases = Vec::new();
    for image in [false, true] {
        for boxed in [false, true] {
            for flen in [1u64, 5, 2048, 2049, 5000] {
                for from in [0u64, 1, 2047, 2048, 4096].into_iter().filter(|x| *x < flen) {
                    for size in [0u64, 1, 3, 2047, 2048, 2049, 4095, 5000].into_iter().filter(|x| *x <= flen - from) {
                        for at in [0usize, 1, 100, 2048] {
                            for rest in [0usize, 1, 2047, 2048, 5000] {
                                cases.push((image, boxed, flen, from, size, at, rest));
                            }
                        }
                    }
                }
            }
        }
    }
    ctx.group("slices", cases, |&(image, boxed, flen, from, size, at, rest), o| {
        let t: Dir = vec![("d".into(), Node::Dir(vec![("f".into(), file(1, flen))]))];
        let path: xdvdfs::write::fs::PathVec = ["d", "f"].into_iter().collect();
        let len = at + size as usize + rest;
        let mut want = vec![0xa5u8; len];
        content_at(1, from, &mut want[at..at + size as usize]);
        let (n, got) = if image {
            let bytes = build(&t, &lays[0]).bytes;
            if boxed {
                let mut fs = run!(XDVDFSFilesystem::<_, Box<[u8]>, DefaultCopier<_, _>>::new(Dev::new(bytes))).ok_or("not opened")?;
                run!(fs.read_dir(&xdvdfs::write::fs::PathVec::default())).map_err(|e| format!("{e:?}"))?;
                run!(fs.read_dir(&["d"].into_iter().collect())).map_err(|e| format!("{e:?}"))?;
                let mut d: Box<[u8]> = vec![0xa5u8; len].into();
                (run!(fs.copy_file_in(&path, &mut d, from, at as u64, size)).map_err(|e| format!("refused: {e:?}"))?, d.into_vec())
            } else {
                let mut fs = run!(XDVDFSFilesystem::<_, [u8], DefaultCopier<_, _>>::new(Dev::new(bytes))).ok_or("not opened")?;
                run!(fs.read_dir(&xdvdfs::write::fs::PathVec::default())).map_err(|e| format!("{e:?}"))?;
                run!(fs.read_dir(&["d"].into_iter().collect())).map_err(|e| format!("{e:?}"))?;
                let mut d = vec![0xa5u8; len];
                (run!(fs.copy_file_in(&path, &mut d[..], from, at as u64, size)).map_err(|e| format!("refused: {e:?}"))?, d)
            }
        } else {
            let s = ctx.scratch();
            make_dir(&s.join("s"), &t);
            let mut fs = StdFilesystem::create(&s.join("s"));
            if boxed {
                let mut d: Box<[u8]> = vec![0xa5u8; len].into();
                (run!(fs.copy_file_in(&path, &mut d, from, at as u64, size)).map_err(|e| format!("refused: {e:?}"))?, d.into_vec())
            } else {
                let mut d = vec![0xa5u8; len];
                (run!(fs.copy_file_in(&path, &mut d[..], from, at as u64, size)).map_err(|e| format!("refused: {e:?}"))?, d)
            }
        };
        o.steps(1);
        o.state(&(image, boxed, flen, from, size, at, rest));
        if n != size {
            return Err(format!("{n} bytes reported for {size}"));
        }
        if got != want {
            return Err(format!("other bytes: {}", first_diff(&want, &got)));
        }
        o.valid();
        Ok(())
    });

    let mut cases = Vec::new();
    for s in ctx.pick(
        (0..40).chain(2030..2070).chain(4090..4110).chain([6143, 6144, 6145, 65535, 65536, 65537, (1 << 20) - 1, 1 << 20, (1 << 20) + 1]).collect::<Vec<u64>>(),
        (0..6200).chain([65535, 65536, 65537, (1 << 20) - 1, 1 << 20, (1 << 20) + 1, (3 << 20) + 7]).collect(),
    ) {
        for src in 0..3usize {
            cases.push((s, src));
        }
    }
    ctx.group("sizes", cases, |&(s, src), o| {
        let t: Dir = vec![("a".into(), file(1, s)), ("b".into(), Node::Dir(vec![("c".into(), file(2, s + 1)), ("z".into(), file(4, 0))])), ("d".into(), file(3, 5))];
        match src {
            0 => check_linear(&t, None, o),
            1 => check_linear(&t, Some(&build(&t, &lays[2]).bytes), o),
            _ => {
                // a host directory
                let d = ctx.scratch();
                let p = d.join("src");
                make_dir(&p, &t);
                let mut fs = StdFilesystem::create(&p);
                let got = linear_sectors(&mut fs)?;
                let mut fs = StdFilesystem::create(&p);
                let mut dev = IoDev::new(vec![]);
                run!(create_xdvdfs_image(&mut fs, &mut dev, |_| {})).map_err(|e| format!("{e:?}"))?;
                diff_flat(&flatten(&t), &tree_of(&got[..])?)?;
                if dev.data != got {
                    return Err(format!("compressed sectors differ from the plain image: {}", first_diff(&dev.data, &got)));
                }
                o.steps(1);
                o.state(&got[..]);
                o.valid();
                Ok(())
            }
        }
    });

    // files beyond memory: the sectors around every boundary
    let mut cases = Vec::new();
    for s in [(1u64 << 31) - 1, 1 << 31, (1 << 31) + 7, (1 << 32) - 1] {
        for sector in [40u32, 0x0020_0000, 0xff00_0000] {
            cases.push((s, sector));
        }
    }
    ctx.group("huge-files", cases, |&(s, sector), o| {
        use ciso::write::SectorReader;
        let files = [("a", 1u64, 5u64, 34u32), ("big", 2, s, sector), ("c", 3, 4097, 35), ("d", 4, 0, 0)];
        let src = VDev::volume(&files);
        let mut fs = run!(XDVDFSFilesystem::<_, [u8], DefaultCopier<_, _>>::new(VSrc(src))).ok_or("not opened")?;
        let mut dev = SectorLinearBlockDevice::default();
        let mut sl = SectorLinearBlockFilesystem::new(&mut fs);
        run!(create_xdvdfs_image(&mut sl, &mut dev, |_| {})).map_err(|e| format!("{e:?}"))?;
        let mut input = CisoSectorInput::new(dev, sl);
        let size = run!(input.size()).map_err(|e| format!("{e:?}"))?;
        let mut sec = |n: u64| -> Result<Vec<u8>, String> { run!(input.read_sector(n as usize, 2048)).map(|b| b.to_vec()).map_err(|e| format!("sector {n}: {e:?}")) };
        let mut head = VDev::default();
        for n in 0..34.min(size / 2048) {
            head.store(n * 2048, &sec(n)?);
        }
        let v = decode(&head)?;
        for (n, id, len, _) in files {
            let e = v.ents.iter().find(|e| e.name_str() == n).ok_or_else(|| format!("{n} is missing"))?;
            if e.size as u64 != len {
                return Err(format!("{n}: size {} for a file of {len} bytes", e.size));
            }
            let secs = len.div_ceil(2048);
            if (e.sector as u64 + secs) * 2048 > size {
                return Err(format!("{n} ends beyond the {size} bytes to compress"));
            }
            for k in [0, 1, 511, 512, 513, (1 << 20) - 1, 1 << 20, (1 << 20) + 1, secs.saturating_sub(2), secs.saturating_sub(1)] {
                if k >= secs {
                    continue;
                }
                let mut w = vec![0; 2048.min(len - k * 2048) as usize];
                content_at(id | PLAIN, k * 2048, &mut w);
                w.resize(2048, 0);
                if sec(e.sector as u64 + k)? != w {
                    return Err(format!("sector {k} of {n} differs"));
                }
                o.steps(1);
            }
        }
        o.state(&(s, sector));
        o.valid();
        Ok(())
    });

    ctx.group("contents", content_cases(), |&(k, s), o| {
        let t = content_tree(k, s);
        check_linear(&t, None, o)?;
        check_linear(&t, Some(&build(&t, &lays[2]).bytes), o)
    });

    let mut cases = Vec::new();
    for n in ctx.pick(vec![1usize, 30, 31, 32, 33, 60, 100, 500], (1..=130).chain([500, 2000]).collect()) {
        for d in [false, true] {
            cases.push((n, d));
        }
    }
    ctx.group("many-entries", cases, |&(n, d), o| {
        let t: Dir = (0..n).map(|i| (numbered(i, 6), if d && i % 3 == 0 { Node::Dir(vec![("x".into(), file(i as u64, 3))]) } else { file(i as u64, (i as u64 * 37) % 2100) })).collect();
        check_linear(&t, None, o)?;
        check_linear(&t, Some(&build(&t, &lays[n % lays.len()]).bytes), o)
    });
    crate::cli2::c06_cli(ctx);
}

#[allow(dead_code)]
pub fn is_device<T: BlockDeviceRead>(_: &T) {}
