//! C08: no image bytes crash or hang the reader.

use xdvdfs::blockdev::OffsetWrapper;
use xdvdfs::layout::DirectoryEntryTable;
use xdvdfs::read::read_volume;
use xdvdfs::write::fs::{DefaultCopier, StdIOCopier, XDVDFSFilesystem};
use xdvdfs::write::img::create_xdvdfs_image;

use crate::dev::*;
use crate::fw::*;
use crate::img::*;
use crate::model::*;
use crate::repack::Src;

const FUEL_CALLS: u64 = 3_000_000;

/// Runs every reading operation; results are irrelevant, termination without panic is required
pub fn exercise(img: &[u8], o: &mut Obs, lookups: usize) -> Result<(), String> {
    let ctl = Ctl::with_fuel(FUEL_CALLS);
    let mut dev = Dev::ctl(img.to_vec(), ctl.clone());
    dev.read_only = true;
    let fresh = || ctl.n.store(0, std::sync::atomic::Ordering::Relaxed);
    let mut outcome = String::new();
    let vol = run!(read_volume(&mut dev));
    if let Ok(vol) = &vol {
        let root = vol.root_table;
        let r = run!(vol.root_dirent(&mut dev));
        outcome += if r.is_ok() { "r" } else { "-" };
        fresh();
        let tree = run!(root.file_tree(&mut dev));
        outcome += if tree.is_ok() { "t" } else { "-" };
        let mut tables: Vec<DirectoryEntryTable> = vec![root];
        let mut entries = Vec::new();
        if let Ok(w) = run!(root.walk_dirent_tree(&mut dev)) {
            entries.extend(w);
        }
        if let Ok(t) = tree {
            entries.extend(t.into_iter().map(|x| x.1));
        }
        for e in entries.iter().take(40) {
            if let Some(t) = e.node.dirent.dirent_table() {
                if tables.len() < 8 {
                    tables.push(t);
                }
            }
        }
        for t in &tables {
            fresh();
            let _ = run!(t.walk_dirent_tree(&mut dev));
            fresh();
            if let Ok(mut it) = run!(t.scan_dirent_tree(&mut dev)) {
                while let Ok(Some(e)) = run!(it.next_entry()) {
                    let s: Result<_, xdvdfs::util::Error<()>> = e.name_str();
                    let _ = s;
                }
            }
        }
        for p in ["a", "/b", "zz", "/", "/c/d", "A/B/C", "", "//", "b//c", "\u{20ac}", "c/d/e/f/g"].iter().take(lookups) {
            fresh();
            let _ = run!(root.walk_path(&mut dev, p));
        }
        for e in entries.iter().take(40) {
            fresh();
            let d = e.node.dirent;
            let _ = run!(d.read_data_all(&mut dev));
            let mut b = [0; 4096];
            let _ = run!(d.read_data(&mut dev, &mut b));
            let _ = run!(d.read_data_offset(&mut dev, 4096, 1));
            let _ = run!(d.read_data_offset(&mut dev, u64::MAX, u64::MAX));
            let _ = run!(d.read_data_offset(&mut dev, 1, u32::MAX as u64));
            let mut io = std::io::Cursor::new(vec![0u8; 16]);
            let _ = d.seek_to(&mut io);
            let _ = format!("{}", d.attributes);
        }
        fresh();
        let c = run!(xdvdfs::checksum::checksum(&mut dev, vol));
        outcome += if c.is_ok() { "c" } else { "-" };
        o.steps(20);
    } else {
        outcome += "no volume";
    }
    fresh();
    // through the probe and a stream
    let ctl2 = Ctl::with_fuel(FUEL_CALLS);
    if let Ok(mut w) = run!(OffsetWrapper::new(Src(IoDev::ctl(img.to_vec(), ctl2.clone(), Chunk::Full)))) {
        if let Ok(v) = run!(read_volume(&mut w)) {
            let _ = run!(v.root_table.file_tree(&mut w));
        }
        {
            if let Some(mut fs) = run!(XDVDFSFilesystem::<_, IoDev, StdIOCopier<_, _>>::new(w)) {
                let mut out = IoDev::new(vec![]);
                let r = run!(create_xdvdfs_image(&mut fs, &mut out, |_| {}));
                outcome += if r.is_ok() { "p" } else { "-" };
            }
        }
    }
    let ctl3 = Ctl::with_fuel(FUEL_CALLS);
    if let Some(mut fs) = run!(XDVDFSFilesystem::<_, IoDev, StdIOCopier<_, _>>::new(Src(IoDev::ctl(img.to_vec(), ctl3.clone(), Chunk::Full)))) {
        let _ = run!(create_xdvdfs_image(&mut fs, &mut IoDev::new(vec![]), |_| {}));
    }
    if vol.is_ok() {
        fresh();
        if let Some(mut fs) = run!(XDVDFSFilesystem::<_, Dev, DefaultCopier<_, _>>::new(dev)) {
            let mut out = Dev::new(vec![]);
            let r = run!(create_xdvdfs_image(&mut fs, &mut out, |_| {}));
            outcome += if r.is_ok() { "p" } else { "-" };
        }
        o.steps(2);
    }
    o.outcome(outcome);
    o.valid();
    Ok(())
}

pub fn bases() -> Vec<Vec<u8>> {
    let l = layouts();
    let t1: Dir = vec![("a".into(), file(1, 10))];
    let t2: Dir = vec![("a".into(), file(1, 10)), ("b".into(), Node::Dir(vec![("c".into(), file(2, 2049)), ("d".into(), Node::Dir(vec![]))])), ("c".into(), Node::Dir(vec![("d".into(), file(3, 1))]))];
    let t3: Dir = (0..7).map(|i| (["a", "b", "c", "D", "E", "f", "\u{e9}"][i].to_string(), if i == 3 { Node::Dir(vec![("x".into(), file(9, 3))]) } else { file(i as u64, i as u64) })).collect();
    vec![
        build(&t1, &Lay { cut: true, ..l[0].clone() }).bytes,
        build(&t2, &Lay { cut: true, data: DataOrder::TablesFirst, exact: true, ..l[0].clone() }).bytes,
        build(&t2, &l[0]).bytes,
        build(&t3, &Lay { shape: Shape::Zigzag, none: 0xffff, ..l[0].clone() }).bytes,
    ]
}

/// Offsets of all bytes that are structure: descriptor fields, signatures, entries
pub fn structure(img: &[u8]) -> Vec<usize> {
    let v = 32 * 2048;
    let mut out: Vec<usize> = (v..v + 36).chain(v + 2028..v + 2048).collect();
    let t = decode(img).expect("base image");
    each(&t, &mut Vec::new(), &mut |_, t| {
        if t.size == 0 {
            return;
        }
        let mut end = 14;
        for e in &t.ents {
            let o = e.off as usize;
            out.extend((o..o + 14 + e.name.len()).map(|x| x + t.sector as usize * 2048));
            end = end.max(o + 14 + e.name.len() + 4);
        }
        let base = t.sector as usize * 2048;
        for x in 0..end.min(2048) {
            out.push(base + x);
        }
    });
    out.sort();
    out.dedup();
    out.retain(|x| *x < img.len());
    out
}

fn put16(b: &mut [u8], o: usize, v: u16) {
    b[o..o + 2].copy_from_slice(&v.to_le_bytes());
}
fn put32(b: &mut [u8], o: usize, v: u32) {
    b[o..o + 4].copy_from_slice(&v.to_le_bytes());
}

/// An image of raw tables: each table is a list of (left, right, sector, size, attr, name)
pub type RawEnt = (u16, u16, u32, u32, u8, &'static str);
pub fn raw_image(tables: &[Vec<RawEnt>], root: (u32, u32), sectors: usize) -> Vec<u8> {
    let mut b = vec![0u8; sectors * 2048];
    let v = 32 * 2048;
    b[v..v + 20].copy_from_slice(MAGIC);
    b[v + 2028..v + 2048].copy_from_slice(MAGIC);
    put32(&mut b, v + 20, root.0);
    put32(&mut b, v + 24, root.1);
    for (k, t) in tables.iter().enumerate() {
        let base = (33 + k) * 2048;
        b[base..base + 2048].fill(0xff);
        let mut o = base;
        for e in t {
            put16(&mut b, o, e.0);
            put16(&mut b, o + 2, e.1);
            put32(&mut b, o + 4, e.2);
            put32(&mut b, o + 8, e.3);
            b[o + 12] = e.4;
            b[o + 13] = e.5.len() as u8;
            b[o + 14..o + 14 + e.5.len()].copy_from_slice(e.5.as_bytes());
            o += (14 + e.5.len()).div_ceil(4) * 4;
        }
    }
    b
}

/// Images for the command-line runs: one per kind of damage
pub fn damaged_gallery() -> Vec<(String, Vec<u8>)> {
    let mut out: Vec<(String, Vec<u8>)> = Vec::new();
    let b = &bases()[2];
    for n in [0usize, 1, 2047, 2048, 65535, 65536, 65556, 67583, 67584, 67585, 67600, 69631, 69632] {
        out.push((format!("cut{n}"), b[..n.min(b.len())].to_vec()));
    }
    let s = structure(b);
    for (i, p) in s.iter().enumerate() {
        for v in [0u8, 0xff, 0x10, 0x21] {
            if i % 3 == 0 || *p >= 33 * 2048 {
                let mut c = b.clone();
                c[*p] = v;
                out.push((format!("byte{p}={v}"), c));
            }
        }
    }
    for (i, sz) in [0u32, 1, 13, 14, 15, 2047, 2048, 4096, 65536, u32::MAX].iter().enumerate() {
        for sec in [0u32, 32, 33, 34, 35, 40, 1000, u32::MAX] {
            out.push((format!("root{i}.{sec}"), raw_image(&[vec![(0, 5, 34, *sz, 0x10, "abc"), (0, 0, sec, *sz, 0x20, "b")], vec![(0, 0, sec, *sz, 0x10, "q")]], (33, 2048), 36)));
            out.push((format!("rootr{i}.{sec}"), raw_image(&[vec![(0, 0, 33, 2048, 0x10, "a")]], (sec, *sz), 34)));
        }
    }
    // self reference and rings
    out.push(("self".into(), raw_image(&[vec![(0, 0, 33, 2048, 0x10, "d")]], (33, 2048), 34)));
    out.push(("ring".into(), raw_image(&[vec![(0, 0, 34, 2048, 0x10, "d")], vec![(0, 0, 33, 2048, 0x10, "e")]], (33, 2048), 35)));
    out.push(("bstself".into(), raw_image(&[vec![(5, 5, 33, 1, 0x20, "dddddd"), (5, 5, 33, 1, 0x20, "a")]], (33, 2048), 34)));
    let mut deep: Dir = vec![("x".into(), file(1, 1))];
    for i in 0..60 {
        deep = vec![(format!("d{i}").repeat(20), Node::Dir(deep))];
    }
    out.push(("deep".into(), build(&deep, &layouts()[0]).bytes));
    out
}

pub fn c08(ctx: &Ctx) {
    ctx.case_memory.store(2 << 30, std::sync::atomic::Ordering::Relaxed);
    let bases = bases();

    // every truncation
    let mut cases = Vec::new();
    for (i, b) in bases.iter().enumerate() {
        let from = if ctx.thorough { 0 } else { 32 * 2048 - 2 };
        for n in from..=b.len() {
            cases.push((i, n));
        }
        if !ctx.thorough {
            for n in (0..from).step_by(1024) {
                cases.push((i, n));
            }
        }
    }
    ctx.group("truncations", cases, |&(i, n), o| {
        o.state(&(i, n));
        exercise(&bases[i][..n], o, 99)
    });

    // every structural byte takes every value
    let mut cases = Vec::new();
    for (i, b) in bases.iter().enumerate() {
        for p in structure(b) {
            for v in 0..=255u8 {
                if ctx.thorough || i != 2 || v % 5 == 0 {
                    cases.push((i, p, v));
                }
            }
        }
    }
    ctx.group("bytes", cases, |&(i, p, v), o| {
        let mut b = bases[i].clone();
        b[p] = v;
        o.state(&(i, p, v));
        exercise(&b, o, 99)
    });

    // two structural bytes at once
    let vals: &[u8] = ctx.pick(&[0u8, 0xff], &[0, 1, 0x10, 0x7f, 0xff]);
    let mut cases = Vec::new();
    for i in [0usize, 1] {
        let s: Vec<usize> = structure(&bases[i]).into_iter().filter(|p| *p >= 32 * 2048 + 20 && *p < 32 * 2048 + 28 || *p >= 33 * 2048).collect();
        for (x, p) in s.iter().enumerate() {
            for q in &s[x + 1..] {
                for a in vals {
                    for b in vals {
                        cases.push((i, *p, *q, *a, *b));
                    }
                }
            }
        }
    }
    ctx.group("byte-pairs", cases, |&(i, p, q, a, b), o| {
        let mut img = bases[i].clone();
        img[p] = a;
        img[q] = b;
        o.state(&(i, p, q, a, b));
        exercise(&img, o, 99)
    });

    // every pointer graph of three entries: 16, 16 and 16 bytes at 0, 4, 8 (in units of 4 bytes)
    let ptr: Vec<u16> = vec![0, 4, 8, 0xffff, 1, 511, 512];
    let np = if ctx.thorough { 7usize } else { 5 };
    let mut cases = Vec::new();
    for g in 0..np.pow(6) {
        cases.push(g);
    }
    ctx.group("pointer-graphs", cases, |&g, o| {
        let d = |k: u32| ptr[g / np.pow(k) % np];
        o.state(&g);
        for (attr, names) in [(0x20u8, ["a", "b", "c"]), (0x10, ["b", "a", "b"])] {
            let t = vec![(d(0), d(1), 34, 5, attr, names[0]), (d(2), d(3), 34, 2048, 0x10, names[1]), (d(4), d(5), 34, 1, 0x20, names[2])];
            exercise(&raw_image(&[t, vec![]], (33, 2048), 35), o, 3)?;
        }
        Ok(())
    });

    // every directory graph: three tables with two subdirectories each, pointing anywhere
    let nt = ctx.pick(4usize, 5);
    let mut cases = Vec::new();
    for g in 0..nt.pow(6) {
        for size in [2048u32, 28, 4096, 0] {
            cases.push((g, size));
        }
    }
    ctx.group("directory-graphs", cases, |&(g, size), o| {
        let tgt = |k: u32| 33 + (g / nt.pow(k) % nt) as u32;
        o.state(&(g, size));
        let table = |k: u32| -> Vec<RawEnt> { vec![(0, 4, tgt(k), size, 0x10, "a"), (0, 0, tgt(k + 1), 2048, 0x10, "b")] };
        exercise(&raw_image(&[table(0), table(2), table(4), vec![(0, 0, 33, 1, 0x20, "f")], vec![]], (33, 2048), 38), o, 99)
    });

    // regions: every combination of interesting sectors and sizes for the root, a directory and a file
    let secs: Vec<u32> = vec![0, 1, 31, 32, 33, 34, 35, 36, 0x7fff_ffff, 0x8000_0000, 0xffff_fffe, 0xffff_ffff];
    let sizes: Vec<u32> = vec![0, 1, 13, 14, 15, 16, 2047, 2048, 2049, 4096, 0x7fff_ffff, 0x8000_0000, 0xffff_f800, 0xffff_ffff];
    let mut cases = Vec::new();
    for &s in &secs {
        for &z in &sizes {
            for k in 0..4usize {
                for &z2 in ctx.pick(&sizes[..1], &sizes[..]) {
                    cases.push((s, z, k, z2));
                }
            }
        }
    }
    ctx.group("regions", cases, |&(s, z, k, z2), o| {
        o.state(&(s, z, k, z2));
        let e = |i: usize, attr: u8, n: &'static str| -> RawEnt {
            if k == i {
                (0, 0, s, z, attr, n)
            } else {
                (0, 0, 34, if z2 == 0 { 2048 } else { z2 }, attr, n)
            }
        };
        let mut a = e(1, 0x10, "a");
        a.1 = 4;
        let root = if k == 0 { (s, z) } else { (33, 2048) };
        exercise(&raw_image(&[vec![a, e(2, 0x20, "b")], vec![e(3, 0x10, "c")]], root, 36), o, 99)
    });

    // name lengths against the end of the sector, of the table and of the image
    let mut cases = Vec::new();
    for at in (0..2048usize).step_by(4) {
        for len in ctx.pick(vec![0u8, 1, 2, 3, 18, 20, 100, 240, 254, 255], (0..=255).collect()) {
            cases.push((at, len));
        }
    }
    ctx.group("name-at-end", cases, |&(at, len), o| {
        o.state(&(at, len));
        let filler = if at >= 16 { at } else { 0 };
        for (size, sectors) in [(2048u32, 34usize), (4096, 35), (at as u32 + 15, 34)] {
            let mut b = raw_image(&[vec![]], (33, size), sectors);
            let base = 33 * 2048;
            let mut o2 = base;
            // entries of 16..=268 bytes up to `at`
            let mut left = filler;
            let mut first = true;
            while left > 0 {
                let n = if left > 268 + 16 { 268 } else if left > 268 { left - 16 } else { left };
                b[o2..o2 + 14].fill(0);
                put16(&mut b, o2 + 2, if first { (at / 4) as u16 } else { 0 });
                put32(&mut b, o2 + 4, 33);
                b[o2 + 12] = 0x20;
                b[o2 + 13] = (n - 14).min(254) as u8;
                let l = b[o2 + 13] as usize;
                b[o2 + 14..o2 + 14 + l].fill(b'a');
                o2 += n;
                left -= n;
                first = false;
            }
            if at + 14 <= 2048 {
                let o3 = base + at;
                b[o3..o3 + 14].fill(0);
                b[o3 + 12] = 0x20;
                b[o3 + 13] = len;
                let e = (o3 + 14 + len as usize).min(b.len());
                b[o3 + 14..e].fill(b'b');
            }
            exercise(&b, o, 99)?;
        }
        Ok(())
    });

    // constant fillings of the first table
    ctx.group("constant-tables", (0..=255u16).flat_map(|v| (0..4usize).map(move |k| (v as u8, k))).collect(), |&(v, k), o| {
        o.state(&(v, k));
        let mut b = raw_image(&[vec![], vec![]], (33, [2048, 4096, 100, u32::MAX][k]), 36);
        b[33 * 2048..].fill(v);
        exercise(&b, o, 99)
    });

    // deep nesting with long names
    let mut cases = Vec::new();
    for n in ctx.pick(vec![1usize, 2, 50, 200, 400], vec![1, 2, 50, 100, 200, 300, 400, 450, 500]) {
        for len in ctx.pick(vec![1usize, 64, 255], vec![1, 8, 64, 128, 200, 255]) {
            cases.push((n, len));
        }
    }
    ctx.group_threads("deep", 4, cases, |&(n, len), o| {
        o.state(&(n, len));
        let names: &'static str = Box::leak("n".repeat(len).into_boxed_str());
        let mut tables: Vec<Vec<RawEnt>> = (0..n as u32).map(|i| vec![(0, 0, 34 + i, 2048, 0x10, names)]).collect();
        tables.push(vec![(0, 0, 33, 4, 0x20, "f")]);
        exercise(&raw_image(&tables, (33, 2048), 33 + n + 1), o, 99)
    });
    crate::cli::c08_cli(ctx);
    crate::fuse::c08_mounted(ctx);
}
