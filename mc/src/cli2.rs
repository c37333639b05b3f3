//! The command-line program on well-formed inputs: parts of C06, C07, C14, C15, and C21, C23, C24.

use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};

use crate::cli::*;
use crate::fw::*;
use crate::img::*;
use crate::model::*;
use crate::pack::*;
use crate::read::small_trees;
use crate::dev::{find, VDev};
use crate::remap::{plan, planned_flat, Rule};
use crate::repack::OFFSETS;
use crate::small::{checksum_model, hex};

/// RFC 1321
pub fn md5(data: &[u8]) -> String {
    const S: [u32; 64] = [
        7, 12, 17, 22, 7, 12, 17, 22, 7, 12, 17, 22, 7, 12, 17, 22, 5, 9, 14, 20, 5, 9, 14, 20, 5, 9, 14, 20, 5, 9, 14, 20, 4, 11, 16, 23, 4, 11, 16, 23, 4, 11, 16, 23, 4, 11, 16, 23, 6, 10, 15, 21, 6,
        10, 15, 21, 6, 10, 15, 21, 6, 10, 15, 21,
    ];
    let k: Vec<u32> = (0..64).map(|i| ((i as f64 + 1.0).sin().abs() * 4294967296.0) as u32).collect();
    let mut h: [u32; 4] = [0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476];
    let mut m = data.to_vec();
    m.push(0x80);
    while m.len() % 64 != 56 {
        m.push(0);
    }
    m.extend_from_slice(&(data.len() as u64 * 8).to_le_bytes());
    for c in m.chunks(64) {
        let w: Vec<u32> = c.chunks(4).map(|x| u32::from_le_bytes(x.try_into().unwrap())).collect();
        let [mut a, mut b, mut cc, mut d] = h;
        for i in 0..64 {
            let (f, g) = match i / 16 {
                0 => ((b & cc) | (!b & d), i),
                1 => ((d & b) | (!d & cc), (5 * i + 1) % 16),
                2 => (b ^ cc ^ d, (3 * i + 5) % 16),
                _ => (cc ^ (b | !d), (7 * i) % 16),
            };
            let t = a.wrapping_add(f).wrapping_add(k[i]).wrapping_add(w[g]);
            a = d;
            d = cc;
            cc = b;
            b = b.wrapping_add(t.rotate_left(S[i]));
        }
        h[0] = h[0].wrapping_add(a);
        h[1] = h[1].wrapping_add(b);
        h[2] = h[2].wrapping_add(cc);
        h[3] = h[3].wrapping_add(d);
    }
    h.iter().flat_map(|x| x.to_le_bytes()).map(|b| format!("{b:02x}")).collect()
}

fn first_diff(a: &[u8], b: &[u8]) -> String {
    if a.len() != b.len() {
        return format!("lengths {} and {}", a.len(), b.len());
    }
    let i = a.iter().zip(b).position(|(x, y)| x != y);
    format!("first difference at {i:?} (sector {:?})", i.map(|i| i / 2048))
}

/// Runs a command that has to succeed and returns its standard output
fn out(args: &[&str], cwd: &Path) -> Result<String, String> {
    let r = run_cli(args, cwd);
    r.must(&args.join(" "))?;
    Ok(r.out)
}

fn read(p: &Path) -> Result<Vec<u8>, String> {
    std::fs::read(p).map_err(|e| format!("{}: {e}", p.display()))
}

/// The image in this file holds exactly this tree
fn image_is(p: &Path, t: &Dir) -> Result<(), String> {
    let b = read(p)?;
    diff_flat(&flatten(t), &tree_of(&b[..])?).map_err(|e| format!("{}: {e}", p.display()))
}

// ---------------------------------------------------------------- C06

/// Trees whose sectors compress, or do not, in every position
pub fn compress_trees() -> Vec<Dir> {
    let mut v = gal();
    v.extend(crate::fault::gallery());
    // names that do not compress and fill the sectors of the table exactly
    let name = |i: u64| -> String { content(900 + i, 242).iter().map(|b| char::from(b"ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-abcdefghijklmnopqrstuvwxyz"[*b as usize % 64])).collect() };
    v.push((0..40).map(|i| (name(i), file(i, 10 + i))).collect());
    v.push(vec![("d".into(), Node::Dir((0..17).map(|i| (name(i), file(i | SOFT, 10 + i * 100))).collect()))]);
    v.push(vec![("s".into(), file(1 | SOFT, 100_000)), ("h".into(), file(2, 5000)), ("t".into(), file(3 | SOFT, 2048)), ("u".into(), file(4, 2048)), ("v".into(), file(5 | SOFT, 2049))]);
    v
}

/// What the reading commands print for an image of the current directory, without its name
fn printed(cwd: &Path, img: &str, t: &Dir) -> Result<Vec<String>, String> {
    let mut v = vec![out(&["ls", img], cwd)?, out(&["ls", "-s", img], cwd)?, out(&["tree", img], cwd)?, out(&["md5", img], cwd)?, out(&["info", img], cwd)?, out(&["info", img, "/"], cwd)?, out(&["checksum", "-s", img], cwd)?];
    for (p, n) in walk(t).iter().take(12) {
        let p = format!("/{}", p.join("/"));
        if matches!(n, Node::Dir(_)) {
            v.push(out(&["ls", img, &p], cwd)?);
        }
        v.push(out(&["info", img, &p], cwd)?);
        v.push(out(&["md5", img, &p], cwd)?);
    }
    Ok(v.into_iter().map(|s| s.replace(img, "IMG")).collect())
}

pub fn c06_cli(ctx: &Ctx) {
    let lays = layouts();
    let trees = compress_trees();
    let mut cases = Vec::new();
    for t in 0..trees.len() {
        cases.push((t, None));
        for l in 0..lays.len() {
            cases.push((t, Some(l)));
        }
    }
    ctx.group("program", cases, |&(t, l), o| {
        let t = &trees[t];
        let d = ctx.scratch();
        let w = d.path();
        match l {
            None => make_dir(&w.join("src"), t),
            Some(l) => write_at(&w.join("src"), &build(t, &lays[l]).bytes, OFFSETS[l % 4]),
        }
        out(&["pack", "src", "p.iso"], w)?;
        out(&["compress", "src", "c.cso"], w)?;
        let plain = read(&w.join("p.iso"))?;
        let raw = read(&w.join("c.1.cso"))?;
        let got = crate::cso::read_split(&w.join("c"))?;
        if plain != got {
            return Err(format!("decompressed image differs from the plain one: {}", first_diff(&plain, &got)));
        }
        diff_flat(&flatten(t), &tree_of(&got[..])?)?;
        let a = printed(w, "p.iso", t)?;
        let b = printed(w, "c.1.cso", t)?;
        if let Some(i) = (0..a.len()).find(|i| a[*i] != b[*i]) {
            return Err(format!("plain image prints {}, compressed prints {}", clip(&a[i], 300), clip(&b[i], 300)));
        }
        o.steps(4 + a.len() as u64 * 2);
        o.state(&got[..]);
        let stored = (0..got.len() / 2048).filter(|i| raw[0x18 + 4 * i + 3] & 0x80 == 0).count();
        o.outcome(if stored == 0 { "no sector stored" } else { "some sectors stored" });
        o.valid();
        Ok(())
    });

    // images that another program has compressed, also cut short: as the plain image, command by command
    let small = crate::read::small_trees(ctx.pick(2, 3));
    let mut cases = Vec::new();
    for (k, t) in small.iter().chain(&trees[..2]).enumerate() {
        for l in 0..lays.len() {
            for how in 0..3usize {
                if k % 3 == how || how == l % 3 {
                    cases.push((t, l, how));
                }
            }
        }
    }
    ctx.group("containers", cases, |&(t, l, how), o| {
        let d = ctx.scratch();
        let w = d.path();
        let mut img = build(t, &lays[l]).bytes;
        img.resize(img.len().div_ceil(2048) * 2048, 0);
        if crate::cso::decompress(&crate::cso::store(&img, how))? != img {
            return Err("the harness cannot read its own container".into());
        }
        let full = img.len() / 2048;
        for n in [full, full - 1, full.saturating_sub(2).max(33), 34, 33, 32] {
            let img = &img[..n.min(full) * 2048];
            std::fs::write(w.join("p.iso"), img).unwrap();
            std::fs::write(w.join("c.cso"), crate::cso::store(img, how)).unwrap();
            std::fs::write(w.join("c.1.cso"), crate::cso::store(img, how)).unwrap();
            let mut cmds: Vec<Vec<String>> = [&["ls", "?"][..], &["ls", "-s", "?"], &["tree", "?"], &["md5", "?"], &["info", "?"], &["info", "?", "/"], &["checksum", "-s", "?"], &["checksum", "?", "?"]].iter().map(|c| c.iter().map(|x| x.to_string()).collect()).collect();
            for (p, _) in walk(t).iter().take(4) {
                let p = format!("/{}", p.join("/"));
                cmds.extend(["ls", "info", "md5"].map(|c| vec![c.to_string(), "?".into(), p.clone()]));
            }
            for c in &cmds {
                let run = |f: &str| run_cli(&c.iter().map(|x| x.replace('?', f)).collect::<Vec<_>>(), w);
                let a = run("p.iso");
                for f in ["c.cso", "c.1.cso"] {
                    let b = run(f);
                    b.orderly().map_err(|e| format!("{c:?} of {n} sectors: {e}"))?;
                    o.steps(1);
                    if a.ok() != b.ok() {
                        return Err(format!("{c:?} with {n} of {full} sectors: plain image {}, compressed {}", if a.ok() { "works" } else { "fails" }, if b.ok() { "works" } else { "fails" }));
                    }
                    if a.ok() && a.out.replace("p.iso", "IMG") != b.out.replace(f, "IMG") {
                        return Err(format!("{c:?} with {n} of {full} sectors: plain image prints {}, compressed {}", clip(&a.out, 200), clip(&b.out, 200)));
                    }
                    o.outcome(if a.ok() { "works" } else { "fails" });
                }
            }
            o.state(&(t, l, how, n));
        }
        o.valid();
        Ok(())
    });

    // the last sector of the image ends with file data, in every alignment of the compressed data
    let ks: Vec<u64> = ctx.pick((0..160).collect(), (0..2048).collect());
    ctx.group("last-sector", ks, |&k, o| {
        let t: Dir = vec![("a".into(), file((k + 7) | SOFT, 30 * 2048 - k))];
        let d = ctx.scratch();
        let w = d.path();
        make_dir(&w.join("src"), &t);
        out(&["compress", "src", "c.cso"], w)?;
        let got = crate::cso::read_split(&w.join("c"))?;
        diff_flat(&flatten(&t), &tree_of(&got[..])?)?;
        let data = content((k + 7) | SOFT, 30 * 2048 - k);
        let m = out(&["md5", "c.1.cso"], w)?;
        if m.split_whitespace().next() != Some(&md5(&data)[..]) {
            return Err(format!("read back as {m}, the file's MD5 is {}", md5(&data)));
        }
        let raw = read(&w.join("c.1.cso"))?;
        let n = got.len() / 2048;
        let at = |i: usize| u32::from_le_bytes(raw[0x18 + 4 * i..][..4].try_into().unwrap());
        let last = (at(n - 1) as usize & 0x7fff_ffff) << 2;
        o.outcome(format!("{} left over", u32::from_le_bytes(raw[last..last + 4].try_into().unwrap()) % 4));
        o.steps(2);
        o.state(&got[..]);
        o.valid();
        Ok(())
    });

    // default names of the output
    ctx.group("default-output", vec![("src", "src.1.cso", true), ("src.d", "src.d.1.cso", true), ("game.iso", "game.1.cso", false)], |&(src, dst, dir), o| {
        let t = gal()[1].clone();
        let d = ctx.scratch();
        let w = d.path();
        match dir {
            true => make_dir(&w.join(src), &t),
            false => std::fs::write(w.join(src), build(&t, &lays[0]).bytes).unwrap(),
        }
        out(&["compress", src], w)?;
        let got = crate::cso::decompress(&read(&w.join(dst))?)?;
        o.steps(1);
        o.state(&src);
        o.valid();
        diff_flat(&flatten(&t), &tree_of(&got[..])?)
    });
}

// ---------------------------------------------------------------- C07

pub fn c07_cli(ctx: &Ctx) {
    let lays = layouts();
    let mut trees = gal();
    trees.extend(crate::fault::gallery());
    trees.extend(small_trees(ctx.pick(1, 2)));
    let mut cases = Vec::new();
    for t in 0..trees.len() {
        for l in ctx.pick(vec![0, 4], (0..lays.len()).collect()) {
            for off in 1..4usize {
                cases.push((t, l, off));
            }
        }
    }
    ctx.group("program", cases, |&(t, l, off), o| {
        let t = &trees[t];
        let d = ctx.scratch();
        let b = build(t, &lays[l]).bytes;
        let mut all: Vec<Vec<String>> = Vec::new();
        let mut packs: Vec<(Vec<u8>, Vec<u8>)> = Vec::new();
        for (i, k) in [0, off].into_iter().enumerate() {
            let w = d.join(&format!("w{i}"));
            std::fs::create_dir(&w).unwrap();
            write_at(&w.join("i.iso"), &b, OFFSETS[k]);
            all.push(printed(&w, "i.iso", t).map_err(|e| format!("at offset {}: {e}", OFFSETS[k]))?);
            out(&["unpack", "i.iso", "x"], &w)?;
            exact(&w.join("x"), &Node::Dir(t.clone())).map_err(|e| format!("unpacked from offset {}: {e}", OFFSETS[k]))?;
            if let Some((p, n)) = walk(t).last() {
                out(&["copy-out", "i.iso", &p.join("/"), "y"], &w)?;
                exact(&w.join("y"), n).map_err(|e| format!("copied out from offset {}: {e}", OFFSETS[k]))?;
            }
            out(&["pack", "i.iso", "p.iso"], &w)?;
            out(&["compress", "i.iso", "c.cso"], &w)?;
            packs.push((read(&w.join("p.iso"))?, read(&w.join("c.1.cso"))?));
        }
        if let Some(i) = (0..all[0].len()).find(|i| all[0][*i] != all[1][*i]) {
            return Err(format!("bare volume prints {}, at offset {} {}", clip(&all[0][i], 300), OFFSETS[off], clip(&all[1][i], 300)));
        }
        if packs[0] != packs[1] {
            return Err(format!("repacked from offset {} differs from repacked from the bare volume", OFFSETS[off]));
        }
        diff_flat(&flatten(t), &tree_of(&packs[1].0[..])?)?;
        o.steps(2 * all[0].len() as u64 + 8);
        o.state(&(hash(t), l, off));
        o.valid();
        Ok(())
    });

    // several volumes, and none: the first valid one in order is used
    let mut cases = Vec::new();
    for m in 0..16usize {
        for bad in 0..2usize {
            cases.push((m, bad));
        }
    }
    ctx.group("program-slots", cases, |&(m, bad), o| {
        use std::os::unix::fs::FileExt;
        let d = ctx.scratch();
        let w = d.path();
        let f = std::fs::File::create(w.join("i.iso")).unwrap();
        for k in (0..4).rev() {
            let mut b = build(&vec![(format!("in{k}"), file(k as u64, 10))], &lays[0]).bytes;
            if m >> k & 1 == 0 {
                if bad == 0 {
                    continue;
                }
                b[32 * 2048 + 0x7ec + 3] ^= 1;
            }
            f.write_all_at(&b, OFFSETS[k]).unwrap();
        }
        let r = run_cli(&["ls", "i.iso"], w);
        r.orderly()?;
        o.steps(1);
        o.state(&(m, bad));
        o.valid();
        match (0..4).find(|k| m >> k & 1 == 1) {
            None if r.ok() => Err(format!("no valid descriptor, but lists {}", clip(&r.out, 100))),
            None => Ok(()),
            Some(k) => {
                r.must("ls")?;
                if r.out.trim() != format!("in{k}") {
                    return Err(format!("volume {k} is the first valid one, but lists {}", clip(&r.out, 100)));
                }
                Ok(())
            }
        }
    });
}

// ---------------------------------------------------------------- C14

fn rule_args(rules: &[Rule]) -> Vec<String> {
    rules
        .iter()
        .flat_map(|(f, t)| {
            let r = if f.starts_with('!') { f.clone() } else { format!("{f}:{t}") };
            // a value that looks like an option is given as part of the option
            if r.starts_with('-') {
                vec![format!("-m{r}")]
            } else {
                vec!["-m".to_string(), r]
            }
        })
        .collect()
}

fn run_s(args: &[String], cwd: &Path) -> Ran {
    run_cli(&args.iter().map(|s| s.as_str()).collect::<Vec<_>>(), cwd)
}

/// Lines "host -> image" of a dry run
fn listing(s: &str) -> Result<BTreeMap<Vec<String>, Vec<String>>, String> {
    let comps = |p: &str| p.split('/').filter(|c| !c.is_empty()).map(|c| c.to_string()).collect::<Vec<_>>();
    let mut m = BTreeMap::new();
    for l in s.lines() {
        let (h, i) = l.split_once(" -> ").ok_or_else(|| format!("dry run prints {l}"))?;
        if m.insert(comps(i), comps(h)).is_some() {
            return Err(format!("dry run lists {i} twice"));
        }
    }
    Ok(m)
}

fn some_rules() -> Vec<Rule> {
    [("a", "/"), ("**", "/o/{0}"), ("*/x", "/{1}"), ("!a/x", ""), ("b", "/b2"), ("!**/x", ""), ("{a,b}", "/c/{1}"), ("a/**", "/{1}"), ("*", "/{0}.d")].iter().map(|(a, b)| (a.to_string(), b.to_string())).collect()
}

/// Ordered lists of distinct rules
fn rule_lists(max: usize) -> Vec<Vec<Rule>> {
    let r = some_rules();
    let mut v: Vec<Vec<usize>> = vec![vec![]];
    let mut all = Vec::new();
    for _ in 0..max {
        v = v.iter().flat_map(|l| (0..r.len()).filter(|i| !l.contains(i)).map(|i| [&l[..], &[i]].concat()).collect::<Vec<_>>()).collect();
        all.extend(v.iter().map(|l| l.iter().map(|i| r[*i].clone()).collect::<Vec<_>>()));
    }
    all
}

fn check_listing(host: &Dir, rules: &[Rule], got: &BTreeMap<Vec<String>, Vec<String>>) -> Result<(), String> {
    let pl = plan(host, rules);
    for (p, (h, is_dir)) in &pl.map {
        match got.get(p) {
            None if *is_dir && pl.implied.contains(p) => {}
            None => return Err(format!("dry run does not list {p:?}")),
            Some(g) if g != h && !is_dir => return Err(format!("dry run says {p:?} comes from {g:?}, it is {h:?}")),
            _ => {}
        }
    }
    match got.keys().find(|p| !pl.map.contains_key(*p)) {
        Some(p) => Err(format!("dry run lists {p:?}, which is not selected")),
        None => Ok(()),
    }
}

pub fn c14_cli(ctx: &Ctx) {
    let hosts = crate::remap::hosts();
    let mut cases = Vec::new();
    for l in rule_lists(ctx.pick(2, 3)) {
        for h in 0..hosts.len() {
            cases.push((l.clone(), h));
        }
    }
    ctx.group("program", cases, |(rules, h), o| {
        let host = &hosts[*h];
        let pl = plan(host, rules);
        if pl.clash {
            o.outcome("clash");
            return Ok(());
        }
        let d = ctx.scratch();
        let w = d.path();
        make_dir(&w.join("src"), host);
        let before = snapshot(w);
        let mut a: Vec<String> = vec!["build-image".into()];
        a.extend(rule_args(rules));
        let mut dry = a.clone();
        dry.extend(["-D".into(), "src".into(), "out.iso".into()]);
        a.extend(["src".into(), "out.iso".into()]);
        let r = run_s(&dry, w);
        r.must("dry run")?;
        if let Some(e) = snap_diff(&before, &snapshot(w)) {
            return Err(format!("dry run: {e}"));
        }
        check_listing(host, rules, &listing(&r.out)?)?;
        run_s(&a, w).must("build-image")?;
        let b = read(&w.join("out.iso"))?;
        let want = planned_flat(host, &pl);
        diff_flat(&want, &tree_of(&b[..])?)?;
        o.steps(2);
        o.outcome(format!("{} entries", want.len().min(9)));
        o.state(&want);
        o.valid();
        Ok(())
    });
}

// ---------------------------------------------------------------- C15

pub fn c15_cli(ctx: &Ctx) {
    let lays = layouts();
    let mut trees = compress_trees();
    trees.extend(small_trees(ctx.pick(2, 3)));
    ctx.group("program", (0..trees.len()).collect(), |&t, o| {
        let t = &trees[t];
        let want = hex(&checksum_model(t));
        let d = ctx.scratch();
        let w = d.path();
        make_dir(&w.join("src"), t);
        let mut names: Vec<String> = Vec::new();
        for (l, lay) in lays.iter().enumerate() {
            let n = format!("l{l}.iso");
            write_at(&w.join(&n), &build(t, lay).bytes, OFFSETS[l % 4]);
            out(&["pack", &n, &format!("r{l}.iso")], w)?;
            out(&["compress", &n, &format!("c{l}.cso")], w)?;
            names.extend([n, format!("r{l}.iso"), format!("c{l}.1.cso")]);
        }
        out(&["pack", "src", "p.iso"], w)?;
        out(&["compress", "src", "q.cso"], w)?;
        names.extend(["p.iso".into(), "q.1.cso".into()]);
        let mut a = vec!["checksum", "-s"];
        a.extend(names.iter().map(|s| s.as_str()));
        let s = out(&a, w)?;
        let lines: Vec<&str> = s.lines().collect();
        if lines.len() != names.len() {
            return Err(format!("{} lines for {} images", lines.len(), names.len()));
        }
        for (l, n) in lines.iter().zip(&names) {
            let (c, f) = l.split_once('\t').ok_or("no tab")?;
            if f != n {
                return Err(format!("checksum line of {f} where {n} is due"));
            }
            if c != want {
                return Err(format!("checksum of {n} is {c}, of the contents {want}"));
            }
        }
        o.steps(names.len() as u64);
        o.state(&want);
        o.valid();
        Ok(())
    });
}

// ---------------------------------------------------------------- C21

fn new_files(before: &BTreeMap<PathBuf, String>, root: &Path) -> Result<BTreeMap<PathBuf, Vec<u8>>, String> {
    let after = snapshot(root);
    for (p, v) in before {
        if after.get(p) != Some(v) {
            return Err(format!("{} was changed", p.display()));
        }
    }
    Ok(after.keys().filter(|p| !before.contains_key(*p)).map(|p| (p.clone(), std::fs::read(root.join(p)).unwrap_or_default())).collect())
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Src {
    Abs,
    Rel,
    Slash,
    Dot,
    Cwd,
    SpecRel,
    SpecCwd,
    SpecAbs,
    SpecOption,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Dst {
    ArgRel,
    ArgAbs,
    Opt,
    OptUp,
    OptAbs,
    Default,
}

/// The same image from options and from the generated spec file, as planned
fn check_rules(ctx: &Ctx, host: &Dir, rules: &[Rule], o: &mut Obs) -> Result<(), String> {
    let pl = plan(host, rules);
    if pl.clash {
        o.outcome("clash");
        return Ok(());
    }
    let d = ctx.scratch();
    let w = d.path();
    make_dir(&w.join("src"), host);
    let ra = rule_args(rules);
    let mut spec: Vec<String> = vec!["image-spec".into(), "from".into()];
    spec.extend(ra.clone());
    let printed = run_s(&spec, w);
    printed.must("image-spec from")?;
    spec.push("s.toml".into());
    run_s(&spec, w).must("image-spec from")?;
    if read(&w.join("s.toml"))? != printed.out.as_bytes() {
        return Err("the spec printed and the spec written differ".into());
    }
    let mut a: Vec<String> = vec!["build-image".into()];
    a.extend(ra);
    let b: Vec<String> = ["build-image", "-f", "s.toml"].map(String::from).to_vec();
    let before = snapshot(w);
    let mut images = Vec::new();
    let mut lists = Vec::new();
    for (k, base) in [a, b].into_iter().enumerate() {
        let mut dry = base.clone();
        dry.extend(["-D".into(), "src".into(), format!("o{k}.iso")]);
        let r = run_s(&dry, w);
        r.must("dry run")?;
        let mut l: Vec<String> = r.out.lines().map(String::from).collect();
        l.sort();
        lists.push(l);
        if k == 0 {
            if let Some(e) = snap_diff(&before, &snapshot(w)) {
                return Err(format!("dry run: {e}"));
            }
        }
        let mut real = base;
        real.extend(["src".into(), format!("o{k}.iso")]);
        run_s(&real, w).must("build-image")?;
        images.push(read(&w.join(format!("o{k}.iso")))?);
    }
    if lists[0] != lists[1] {
        return Err(format!("dry run with options lists {:?}, with the spec {:?}", lists[0], lists[1]));
    }
    if images[0] != images[1] {
        return Err("the image built from options differs from the one built from the spec".into());
    }
    let want = planned_flat(host, &pl);
    diff_flat(&want, &tree_of(&images[0][..])?)?;
    o.steps(6);
    o.outcome(format!("{} entries", want.len().min(9)));
    o.state(&(hash(&want), rules.to_vec()));
    o.valid();
    Ok(())
}

pub fn c21(ctx: &Ctx) {
    let hosts = crate::remap::hosts();
    // rules given as options and through a spec file
    let mut cases = Vec::new();
    for l in rule_lists(ctx.pick(2, 3)) {
        for h in 0..ctx.pick(3, hosts.len()) {
            cases.push((l.clone(), h));
        }
    }
    ctx.group("rules", cases, |(rules, h), o| check_rules(ctx, &hosts[*h], rules, o));

    // rules with every character that needs no escape in a pattern
    let cs: Vec<char> = (0x20u8..0x7f).map(char::from).filter(|c| !"?*$:<>()[]{},!/\\".contains(*c)).chain(['\t', '\u{1}', '\u{e9}', '\u{20ac}']).collect();
    let mut cases = Vec::new();
    for c in cs {
        for k in 0..4usize {
            cases.push((c, k));
        }
    }
    ctx.group("characters", cases, |&(c, k), o| {
        let n = [format!("{c}q"), format!("q{c}"), format!("q{c}{c}q"), format!("{c}")][k].clone();
        if n == "." || c == 'q' || c == 'Q' {
            return Ok(());
        }
        let host: Dir = vec![(n.clone(), Node::Dir(vec![("x".into(), file(1, 10))])), ("q".into(), file(2, 20)), ("qq".into(), file(3, 30))];
        let lists: [&[(&str, &str)]; 3] = [&[(&n, "/o/{0}"), ("q", "/p")], &[("**", "/{0}"), (&format!("!{n}"), ""), ("q", "/y")], &[("q", &format!("/o/{n}")), ("qq", &format!("/{n}{{0}}/{n}"))]];
        for l in lists {
            let rules: Vec<Rule> = l.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
            check_rules(ctx, &host, &rules, o).map_err(|e| format!("{rules:?}: {e}"))?;
        }
        Ok(())
    });

    // where the output goes
    let rules: Vec<Rule> = vec![("a".into(), "/".into()), ("b".into(), "/o/{0}".into())];
    let mut cases = Vec::new();
    for src in [Src::Abs, Src::Rel, Src::Slash, Src::Dot, Src::Cwd, Src::SpecRel, Src::SpecCwd, Src::SpecAbs, Src::SpecOption] {
        for dst in [Dst::ArgRel, Dst::ArgAbs, Dst::Opt, Dst::OptUp, Dst::OptAbs, Dst::Default] {
            for name in ["src", "src.d", "s r\u{e9}"] {
                // origin: 0 all options, 1 all in the spec, 2 rules in the spec, output overriding the spec's
                for origin in 0..3usize {
                    for dry in [false, true] {
                        cases.push((src, dst, name, origin, dry));
                    }
                }
            }
        }
    }
    ctx.group("places", cases, |&(src, dst, name, origin, dry), o| {
        if src == Src::Cwd && matches!(dst, Dst::ArgRel | Dst::ArgAbs) {
            return Ok(()); // no way to say this
        }
        if origin != 1 && matches!(src, Src::SpecOption) {
            return Ok(()); // the options exclude each other
        }
        let host = &hosts[0];
        let d = ctx.scratch();
        let w = d.join("w");
        std::fs::create_dir(&w).unwrap();
        let sd = w.join(name);
        make_dir(&sd, host);
        std::fs::create_dir(w.join("e")).unwrap();
        let cwd = if matches!(src, Src::Dot | Src::Cwd | Src::SpecCwd) { sd.clone() } else { w.clone() };
        let meta = match dst {
            Dst::Opt => Some("m.iso".to_string()),
            Dst::OptUp => Some("../e/m.iso".to_string()),
            Dst::OptAbs => Some(w.join("e/n.iso").to_str().unwrap().to_string()),
            _ => None,
        };
        // the spec file
        if origin > 0 || matches!(src, Src::SpecRel | Src::SpecCwd | Src::SpecAbs) {
            let spec = if src == Src::SpecOption { w.join("e/other.toml") } else { sd.join("xdvdfs.toml") };
            let mut a: Vec<String> = vec!["image-spec".into(), "from".into()];
            a.extend(rule_args(&rules));
            let in_spec = match origin {
                1 => meta.clone(),
                2 if meta.is_some() => Some("wrong.iso".into()),
                _ => None,
            };
            if let Some(m) = in_spec {
                a.extend(["-O".into(), m]);
            }
            a.push(spec.to_str().unwrap().into());
            run_s(&a, &w).must("image-spec from")?;
        }
        let mut a: Vec<String> = vec!["build-image".into()];
        if origin == 0 {
            a.extend(rule_args(&rules));
        }
        if origin != 1 {
            if let Some(m) = &meta {
                a.extend(["-O".into(), m.clone()]);
            }
        }
        if src == Src::SpecOption {
            a.extend(["-f".into(), "e/other.toml".into()]);
        }
        if dry {
            a.push("-D".into());
        }
        let abs = |p: &Path| p.to_str().unwrap().to_string();
        match src {
            Src::Abs => a.push(abs(&sd)),
            Src::Rel | Src::SpecOption => a.push(name.into()),
            Src::Slash => a.push(format!("{name}/")),
            Src::Dot => a.push(".".into()),
            Src::Cwd => {}
            Src::SpecRel => a.push(format!("{name}/xdvdfs.toml")),
            Src::SpecCwd => a.push("xdvdfs.toml".into()),
            Src::SpecAbs => a.push(abs(&sd.join("xdvdfs.toml"))),
        }
        let expect = match dst {
            Dst::ArgRel => {
                a.push("x.iso".into());
                cwd.join("x.iso")
            }
            Dst::ArgAbs => {
                a.push(abs(&w.join("e/y.iso")));
                w.join("e/y.iso")
            }
            Dst::Opt => sd.join("m.iso"),
            Dst::OptUp => w.join("e/m.iso"),
            Dst::OptAbs => w.join("e/n.iso"),
            Dst::Default => w.join(format!("{name}.xiso.iso")),
        };
        let before = snapshot(d.path());
        let r = run_s(&a, &cwd);
        r.must("build-image")?;
        let made = new_files(&before, d.path())?;
        o.steps(1);
        o.state(&(src, dst, name, origin, dry));
        o.valid();
        if dry {
            if let Some(p) = made.keys().next() {
                return Err(format!("dry run creates {}", p.display()));
            }
            return check_listing(host, &rules, &listing(&r.out)?);
        }
        let rel = expect.strip_prefix(d.path()).unwrap().to_path_buf();
        match made.get(&rel) {
            None => Err(format!("output is not at {} but {:?}", rel.display(), made.keys().collect::<Vec<_>>())),
            Some(_) if made.len() > 1 => Err(format!("more than the output is created: {:?}", made.keys().collect::<Vec<_>>())),
            Some(b) => diff_flat(&planned_flat(host, &plan(host, &rules)), &tree_of(&b[..])?),
        }
    });

    // an explicit output wins over both the option and the spec
    ctx.group("precedence", (0..8usize).collect(), |&m, o| {
        let host = &hosts[0];
        let d = ctx.scratch();
        let w = d.path();
        make_dir(&w.join("src"), host);
        let mut s: Vec<String> = vec!["image-spec".into(), "from".into()];
        s.extend(rule_args(&rules));
        if m & 1 != 0 {
            s.extend(["-O".into(), "from_spec.iso".into()]);
        }
        s.push("src/xdvdfs.toml".into());
        run_s(&s, w).must("image-spec from")?;
        let mut a: Vec<String> = vec!["build-image".into()];
        if m & 2 != 0 {
            a.extend(["-O".into(), "from_option.iso".into()]);
        }
        a.push("src".into());
        if m & 4 != 0 {
            a.push("from_arg.iso".into());
        }
        let before = snapshot(w);
        run_s(&a, w).must("build-image")?;
        let made = new_files(&before, w)?;
        let want = match m {
            4.. => "from_arg.iso",
            2.. => "src/from_option.iso",
            1 => "src/from_spec.iso",
            _ => "src.xiso.iso",
        };
        o.steps(1);
        o.state(&m);
        o.valid();
        if made.keys().map(|p| p.to_str().unwrap()).collect::<Vec<_>>() != [want] {
            return Err(format!("made {:?} instead of {want}", made.keys().collect::<Vec<_>>()));
        }
        Ok(())
    });

    // nothing to build from
    ctx.group("refused", (0..5usize).collect(), |&k, o| {
        let d = ctx.scratch();
        let w = d.path();
        make_dir(&w.join("src"), &hosts[0]);
        let a: &[&str] = match k {
            0 => &["build-image", "src"],
            1 => &["build-image", "-m", "a", "src"],
            2 => &["build-image", "-m", "a:/b", "nowhere"],
            3 => &["image-spec", "from", "-m", "a", "s.toml"],
            _ => &["build-image", "-f", "nowhere.toml", "src"],
        };
        let before = snapshot(w);
        let r = run_cli(a, w);
        o.steps(1);
        o.state(&k);
        o.valid();
        r.orderly()?;
        if r.ok() {
            return Err(format!("{} succeeds", a.join(" ")));
        }
        snap_diff(&before, &snapshot(w)).map_or(Ok(()), Err)
    });
}

// ---------------------------------------------------------------- C23

#[derive(Debug, Default, Clone, PartialEq, Eq, PartialOrd, Ord)]
struct Block {
    name: String,
    offset: String,
    left: String,
    right: String,
    data: String,
    attr: String,
}

fn blocks(s: &str) -> Vec<Block> {
    let mut v: Vec<Block> = Vec::new();
    for l in s.lines() {
        let field = |k: &str| l.strip_prefix(k).map(|r| r.trim().to_string());
        if let Some(x) = field("Name:") {
            v.push(Block { name: x, ..Block::default() });
        }
        let Some(b) = v.last_mut() else { continue };
        if let Some(x) = field("Offset:") {
            b.offset = x;
        } else if let Some(x) = field("Left Child Offset:") {
            b.left = x;
        } else if let Some(x) = field("Right Child Offset:") {
            b.right = x;
        } else if let Some(x) = field("Data Location:") {
            b.data = x;
        } else if let Some(x) = field("Attributes:") {
            b.attr = x;
        }
    }
    v
}

fn want_block(e: &Ent, t: &Table) -> Block {
    let child = |c: u16| match c {
        0 => "None".to_string(),
        c => format!("{} bytes", c as u32 * 4),
    };
    let attr: Vec<&str> = [(0x10, "Directory"), (0x01, "Read-Only"), (0x02, "Hidden"), (0x04, "System"), (0x20, "Archive"), (0x80, "Normal")].iter().filter(|(b, _)| e.attr & b != 0).map(|(_, n)| *n).collect();
    Block { name: e.name_str().trim().to_string(), offset: e.disk_offset(t).to_string(), left: child(e.left), right: child(e.right), data: format!("Sector {} ({} bytes)", e.sector, e.size), attr: attr.join(" ") }
}

/// Entries of a table with their children; the marker 0xffff for "no child" is printed as it stands
fn same_blocks(got: &[Block], want: &[&Ent], t: &Table) -> Result<(), String> {
    let mut g: Vec<Block> = got.to_vec();
    let mut w: Vec<Block> = want.iter().map(|e| want_block(e, t)).collect();
    let marker = format!("{} bytes", 0xffffu32 * 4);
    for b in g.iter_mut().chain(w.iter_mut()) {
        for x in [&mut b.left, &mut b.right] {
            if *x == marker {
                *x = "None".into();
            }
        }
    }
    g.sort();
    w.sort();
    if g != w {
        return Err(format!("info prints {g:?}, the table has {w:?}"));
    }
    Ok(())
}

fn norm_path(p: &str) -> String {
    let mut s = String::from("/");
    s += &p.split('/').filter(|c| !c.is_empty()).collect::<Vec<_>>().join("/");
    s
}

fn md5_lines(s: &str) -> Result<BTreeMap<String, String>, String> {
    let mut m = BTreeMap::new();
    for l in s.lines() {
        let (h, p) = l.split_once("  ").ok_or_else(|| format!("md5 prints {l}"))?;
        if m.insert(norm_path(p).to_ascii_lowercase(), h.to_string()).is_some() {
            return Err(format!("md5 prints {p} twice"));
        }
    }
    Ok(m)
}

fn lines(s: &str) -> Vec<String> {
    let mut v: Vec<String> = s.lines().map(String::from).collect();
    v.sort();
    v
}

fn file_bytes(t: &Dir, p: &[String]) -> Option<Vec<u8>> {
    match find(t, p) {
        Some(Node::File { id, len }) => Some(content(*id, *len)),
        _ => None,
    }
}

/// Compares what the commands print with the decoded image
fn check_printed(w: &Path, img: &str, t: &Dir, tab: &Table, o: &mut Obs) -> Result<(), String> {
    check_listed(w, img, tab, o)?;
    check_md5(w, img, t, tab, o)
}

fn check_listed(w: &Path, img: &str, tab: &Table, o: &mut Obs) -> Result<(), String> {
    let mut dirs: Vec<(Vec<String>, &Table)> = Vec::new();
    each(tab, &mut Vec::new(), &mut |p, t| dirs.push((p.to_vec(), t)));
    let mut want_tree: Vec<String> = Vec::new();
    let (mut files, mut bytes) = (0u64, 0u64);
    for (p, t) in &dirs {
        let base: String = p.iter().map(|c| format!("/{c}")).collect();
        for e in &t.ents {
            if e.is_dir() {
                want_tree.push(format!("{base}/{}/ (0 bytes)", e.name_str()));
            } else {
                want_tree.push(format!("{base}/{} ({} bytes)", e.name_str(), e.size));
                files += 1;
                bytes += e.size as u64;
            }
        }
        // ls
        let mut names: Vec<String> = t.ents.iter().map(|e| e.name_str()).collect();
        names.sort();
        let path = format!("/{}", p.join("/"));
        let mut paths = vec![path.clone()];
        if !p.is_empty() {
            paths.push(p.join("/"));
            paths.push(format!("{}/", path.to_ascii_uppercase()));
        }
        for (i, path) in paths.iter().enumerate() {
            for a in [vec!["ls", img, path], vec!["ls", "-s", img, path]] {
                let got = lines(&out(&a, w)?);
                o.steps(1);
                if got != names {
                    return Err(format!("{}: {got:?}, the directory has {names:?}", a.join(" ")));
                }
            }
            if i == 0 || p.len() == 1 {
                let all: Vec<&Ent> = t.ents.iter().collect();
                let got = blocks(&out(&["info", img, path], w)?);
                let own = if p.is_empty() { 0 } else { 1 };
                if got.len() < own {
                    return Err(format!("info {path} prints nothing"));
                }
                same_blocks(&got[own..], &all, t).map_err(|e| format!("info {path}: {e}"))?;
                o.steps(1);
            }
        }
        if p.is_empty() {
            let got = lines(&out(&["ls", img], w)?);
            if got != names {
                return Err(format!("ls: {got:?}, the directory has {names:?}"));
            }
        }
        // info of each entry, alone
        for e in &t.ents {
            let ep = format!("{base}/{}", e.name_str());
            let got = blocks(&out(&["info", img, &ep], w)?);
            let Some(b) = got.first() else { return Err(format!("info {ep} prints nothing")) };
            same_blocks(std::slice::from_ref(b), &[e], t).map_err(|e| format!("info {ep}: {e}"))?;
            if !e.is_dir() && got.len() != 1 {
                return Err(format!("info {ep} prints {} entries", got.len()));
            }
            o.steps(1);
        }
    }
    // tree
    let s = out(&["tree", img], w)?;
    let mut ls: Vec<&str> = s.lines().collect();
    let total = ls.pop().unwrap_or_default();
    if total != format!("{files} files, {bytes} bytes in {img}") {
        return Err(format!("tree totals {total}, there are {files} files with {bytes} bytes"));
    }
    let mut ls: Vec<String> = ls.iter().map(|s| s.to_string()).collect();
    ls.sort();
    want_tree.sort();
    if ls != want_tree {
        return Err(format!("tree prints {ls:?}, the image has {want_tree:?}"));
    }
    // info of the volume
    let s = out(&["info", img], w)?;
    let get = |k: &str| s.lines().find_map(|l| l.strip_prefix(k)).map(|x| x.trim().to_string()).unwrap_or_default();
    if get("Root Entry:") != format!("Sector {} ({} bytes)", tab.sector, tab.size) || get("Valid:") != "true" {
        return Err(format!("info prints {s}, the root table is at sector {} with {} bytes", tab.sector, tab.size));
    }
    Ok(())
}

/// md5 of everything, of each directory and of each file
fn check_md5(w: &Path, img: &str, t: &Dir, tab: &Table, o: &mut Obs) -> Result<(), String> {
    let mut queries: Vec<Vec<String>> = vec![vec![]];
    queries.extend(walk(t).into_iter().map(|(p, _)| p));
    for q in &queries {
        let qs = format!("/{}", q.join("/"));
        for form in 0..2 {
            let arg = if form == 0 { qs.clone() } else { q.join("/").to_ascii_uppercase() };
            if q.is_empty() && form == 1 {
                continue;
            }
            let s = if q.is_empty() { out(&["md5", img], w)? } else { out(&["md5", img, &arg], w)? };
            o.steps(1);
            let got = md5_lines(&s)?;
            let mut want: BTreeMap<String, String> = BTreeMap::new();
            let mut dirs: BTreeSet<String> = BTreeSet::new();
            for (p, n) in walk(t) {
                if p.len() < q.len() || p[..q.len()] != q[..] {
                    continue;
                }
                let k = format!("/{}", p.join("/")).to_ascii_lowercase();
                match n {
                    Node::Dir(_) => {
                        dirs.insert(k);
                    }
                    _ => {
                        want.insert(k, md5(&file_bytes(t, &p).unwrap()));
                    }
                }
            }
            for (p, h) in &want {
                match got.get(p) {
                    Some(g) if g == h => {}
                    g => return Err(format!("md5 {qs}: {p} has {h}, printed {g:?}")),
                }
            }
            if let Some(p) = got.keys().find(|p| !want.contains_key(*p) && !dirs.contains(*p)) {
                return Err(format!("md5 {qs}: prints {p}, which is not there"));
            }
        }
    }
    o.state(&format!("{tab:?}"));
    o.valid();
    Ok(())
}

pub fn c23(ctx: &Ctx) {
    let lays = layouts();
    // MD5 of the harness on known values
    assert_eq!(md5(b""), "d41d8cd98f00b204e9800998ecf8427e");
    assert_eq!(md5(&[b'a'; 64]), "014842d480b571495a4a0363793f7367");
    let trees = small_trees(ctx.pick(3, 4));
    let mut cases = Vec::new();
    for t in &trees {
        for l in 0..lays.len() {
            cases.push((t, l));
        }
    }
    ctx.group("trees", cases, |&(t, l), o| {
        let d = ctx.scratch();
        let b = build(t, &lays[l]).bytes;
        let tab = decode(&b[..])?;
        write_at(&d.join("i.iso"), &b, OFFSETS[l % 4]);
        check_printed(d.path(), "i.iso", t, &tab, o)
    });

    // every search tree shape and attribute byte
    let mut cases: Vec<(usize, usize, u16, u8)> = Vec::new();
    for n in 1..=ctx.pick(4usize, 5) {
        for s in 0..catalan(n) {
            for m in [0u16, 0xffff] {
                cases.push((n, s, m, 0x20));
            }
        }
    }
    for a in 0..=255u8 {
        if a & 0x10 == 0 {
            cases.push((2, 0, 0, a));
        }
    }
    ctx.group("shapes", cases, |&(n, s, m, a), o| {
        let t: Dir = (0..n).map(|i| (["b", "A.x", "c_", "d", "E"][i].to_string(), if i == 1 { Node::Dir(vec![("q".into(), file(9, 5))]) } else { file(i as u64, i as u64 * 700) })).collect();
        let d = ctx.scratch();
        let b = build(&t, &Lay { shape: Shape::Nth(s), none: m, attr_file: a, attr_dir: a | 0x10, ..Lay::default() }).bytes;
        let tab = decode(&b[..])?;
        std::fs::write(d.join("i.iso"), &b).unwrap();
        check_printed(d.path(), "i.iso", &t, &tab, o)
    });

    // every combination of attribute bits
    ctx.group("attributes", (0..=255u8).collect(), |&a, o| {
        let t: Dir = vec![("b".into(), file(1, 10)), ("a".into(), Node::Dir(vec![("q".into(), file(9, 5))])), ("c".into(), file(2, 0))];
        let d = ctx.scratch();
        let b = build(&t, &Lay { attr_file: a, attr_dir: a | 0x10, ..lays[(a % 6) as usize].clone() }).bytes;
        let tab = decode(&b[..])?;
        std::fs::write(d.join("i.iso"), &b).unwrap();
        check_printed(d.path(), "i.iso", &t, &tab, o)
    });

    // packed and compressed by the program, larger trees
    let mut big = compress_trees();
    big.push((0..260).map(|i| (numbered(i, 12), if i % 50 == 7 { Node::Dir(vec![(numbered(i, 3), file(i as u64, 77))]) } else { file(i as u64, i as u64) })).collect());
    ctx.group("packed", (0..big.len()).collect(), |&t, o| {
        let t = &big[t];
        let d = ctx.scratch();
        let w = d.path();
        make_dir(&w.join("src"), t);
        out(&["pack", "src", "p.iso"], w)?;
        out(&["compress", "src", "p.cso"], w)?;
        let b = read(&w.join("p.iso"))?;
        let tab = decode(&b[..])?;
        check_printed(w, "p.iso", t, &tab, o)?;
        check_printed(w, "p.1.cso", t, &tab, o)
    });

    // every kind of contents
    let cc = crate::repack::content_cases();
    ctx.group("contents", cc, |&(k, n), o| {
        let t = crate::repack::content_tree(k, n);
        let d = ctx.scratch();
        let b = build(&t, &lays[(n % 6) as usize]).bytes;
        let tab = decode(&b[..])?;
        std::fs::write(d.join("i.iso"), &b).unwrap();
        check_md5(d.path(), "i.iso", &t, &tab, o)
    });

    // names of every character
    // (a line end in a name cannot be told from one between names)
    let cs: Vec<u8> = (1u8..=255).filter(|b| *b != b'/' && *b != 10 && *b != 13).collect();
    ctx.group("characters", cs, |&c, o| {
        let x = dec_char(c);
        let mut t: Dir = vec![(format!("p{x}q"), file(1, 5)), (format!("d{x}"), Node::Dir(vec![(format!("{x}in"), file(2, 3))]))];
        if x != '.' {
            t.push((x.to_string(), file(3, 1)));
        }
        let d = ctx.scratch();
        let b = build(&t, &lays[(c % 6) as usize]).bytes;
        let tab = decode(&b[..])?;
        std::fs::write(d.join("i.iso"), &b).unwrap();
        check_md5(d.path(), "i.iso", &t, &tab, o)?;
        check_listed(d.path(), "i.iso", &tab, o)
    });

    // sizes and places beyond memory, in sparse images
    let big = [(1u64 << 31) - 1, 1 << 31, (1 << 31) + 5, (1 << 32) - 1];
    let mut cases = Vec::new();
    for &a in &big {
        for &b in &big {
            for n in 1..=ctx.pick(3usize, 6) {
                for off in OFFSETS {
                    if off == 0 || n == 2 {
                        cases.push((a, b, n, off));
                    }
                }
            }
        }
    }
    ctx.group("huge-files", cases, |&(a, b, n, off), o| {
        let names = ["aa", "bb", "cc", "dd", "ee", "ff"];
        let mut sector = 40u32;
        let files: Vec<(&str, u64, u64, u32)> = (0..n)
            .map(|i| {
                let l = if i % 2 == 0 { a } else { b };
                let at = sector;
                sector += l.div_ceil(2048) as u32;
                (names[i], i as u64, l, at)
            })
            .collect();
        let v = VDev::volume(&files);
        let d = ctx.scratch();
        let f = std::fs::File::create(d.join("i.iso")).unwrap();
        f.set_len(off + sector as u64 * 2048).unwrap();
        use std::os::unix::fs::FileExt;
        f.write_all_at(&v.bytes(0, 34 * 2048).unwrap(), off).unwrap();
        drop(f);
        let tab = decode(&v)?;
        o.state(&(a, b, n, off));
        check_listed(d.path(), "i.iso", &tab, o)?;
        o.valid();
        Ok(())
    });

    // what cannot be read is a failure, not a shorter answer
    let wide: Dir = (0..120).map(|i| (numbered(i, 30), if i % 40 == 7 { Node::Dir((0..70).map(|j| (numbered(j, 40), file(j as u64, 3))).collect()) } else { file(i as u64, (i as u64 % 4) * 700) })).collect();
    let mut cases = Vec::new();
    let mut imgs = Vec::new();
    for t in [gal()[1].clone(), wide] {
        for l in &lays[..ctx.pick(1, 3)] {
            let b = build(&t, l).bytes;
            for at in (33..=b.len() / 2048).flat_map(|x| [x * 2048 - 1, x * 2048, x * 2048 + 1]) {
                if at < b.len() {
                    cases.push((imgs.len(), at));
                }
            }
            imgs.push((walk(&t).into_iter().filter(|(_, n)| matches!(n, Node::Dir(_))).map(|(p, _)| format!("/{}", p.join("/"))).collect::<Vec<_>>(), b));
        }
    }
    ctx.group("truncated", cases, |&(k, cut), o| {
        let (dirs, b) = &imgs[k];
        let d = ctx.scratch();
        let mut qs: Vec<Vec<&str>> = vec![vec!["ls", "i.iso"], vec!["ls", "-s", "i.iso"], vec!["tree", "i.iso"], vec!["md5", "i.iso"], vec!["checksum", "i.iso"], vec!["info", "i.iso"]];
        for x in dirs.iter().take(2) {
            qs.extend([vec!["ls", "i.iso", x], vec!["ls", "-s", "i.iso", x], vec!["info", "i.iso", x], vec!["md5", "i.iso", x]]);
        }
        std::fs::write(d.join("i.iso"), b).unwrap();
        let want: Vec<_> = qs.iter().map(|q| run_cli(q, d.path())).collect();
        std::fs::write(d.join("i.iso"), &b[..cut]).unwrap();
        let mut failed = 0;
        for (q, w) in qs.iter().zip(want) {
            w.must(&q.join(" "))?;
            let r = run_cli(q, d.path());
            r.orderly()?;
            o.steps(2);
            if !r.ok() {
                failed += 1;
            } else if r.out != w.out {
                return Err(format!("image cut at {cut} of {} bytes: {} succeeds but prints {:?} instead of {:?}", b.len(), q.join(" "), r.out, w.out));
            }
        }
        if failed > 0 {
            o.fired();
        }
        o.state(&(k, cut, failed));
        o.valid();
        Ok(())
    });

    // wrong questions are failures
    let qs: Vec<Vec<&str>> = vec![vec!["ls", "i.iso", "/nope"], vec!["ls", "i.iso", "/a.x"], vec!["ls", "-s", "i.iso", "/a.x"], vec!["info", "i.iso", "/b/nope"], vec!["md5", "i.iso", "/nope"], vec!["md5", "i.iso", "/a.x/y"], vec!["ls", "nope.iso"], vec!["tree", "nope.iso"], vec!["checksum", "i.iso", "nope.iso"], vec!["info", "nope.iso"]];
    ctx.group("absent", qs, |q, o| {
        let d = ctx.scratch();
        std::fs::write(d.join("i.iso"), build(&gal()[1], &lays[0]).bytes).unwrap();
        let r = run_cli(q, d.path());
        o.steps(1);
        o.state(q);
        o.valid();
        r.orderly()?;
        if r.ok() {
            return Err(format!("{} succeeds", q.join(" ")));
        }
        Ok(())
    });
}

// ---------------------------------------------------------------- C24

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Spell {
    Name,
    Sub,
    Path,
}
const SPELL: [Spell; 3] = [Spell::Name, Spell::Sub, Spell::Path];

fn exiso(sp: Spell, args: &[String], cwd: &Path) -> Ran {
    let mut a: Vec<String> = Vec::new();
    let mut o = Opt { cwd: Some(cwd.to_path_buf()), ..Opt::default() };
    match sp {
        Spell::Sub => a.push("extract-xiso".into()),
        Spell::Name => o.argv0 = Some("extract-xiso".into()),
        Spell::Path => o.argv0 = Some("/some/where/extract-xiso".into()),
    }
    a.extend(args.iter().cloned());
    xdvdfs(&a, &o)
}

fn job_trees() -> Vec<Dir> {
    let g = gal();
    vec![g[1].clone(), vec![("one".into(), file(31, 3000)), ("k".into(), Node::Dir(vec![("in".into(), file(32, 1))]))], vec![("two".into(), file(33, 10)), ("void".into(), Node::Dir(vec![]))]]
}
const DIRS: [&str; 3] = ["d0", "d1.x", "sub/d2"];
const IMGS: [&str; 3] = ["i0.iso", "i1.v2.xiso", "sub/i2.iso"];

pub fn c24(ctx: &Ctx) {
    let trees = job_trees();
    let lays = layouts();
    // create: sequences of jobs
    // job: directory 0..3, output: 0 default, 1 own name, 2 shared name, 3 own name in a directory
    let jobs: Vec<(usize, usize)> = (0..3).flat_map(|d| (0..4).map(move |o| (d, o))).collect();
    let mut cases: Vec<(Vec<(usize, usize)>, Spell)> = Vec::new();
    for s in sequences(jobs.len(), ctx.pick(2, 3)) {
        if s.is_empty() {
            continue;
        }
        for sp in SPELL {
            cases.push((s.iter().map(|i| jobs[*i]).collect(), sp));
        }
    }
    for s in sequences(6, 3).into_iter().filter(|s| s.len() == 3) {
        // three jobs, with and without names
        cases.push((s.iter().map(|i| (i / 2, i % 2)).collect(), Spell::Name));
    }
    ctx.group("create", cases, |(js, sp), o| {
        let d = ctx.scratch();
        let w = d.path();
        std::fs::create_dir(w.join("sub")).unwrap();
        std::fs::create_dir(w.join("out")).unwrap();
        for (i, n) in DIRS.iter().enumerate() {
            make_dir(&w.join(n), &trees[i]);
        }
        let mut a: Vec<String> = Vec::new();
        let mut want: BTreeMap<String, usize> = BTreeMap::new();
        for (i, (dir, dst)) in js.iter().enumerate() {
            a.push("-c".into());
            a.push(DIRS[*dir].into());
            let f = match dst {
                0 => None,
                1 => Some(format!("o{i}.iso")),
                2 => Some("shared.iso".to_string()),
                _ => Some(format!("out/o{i}.img")),
            };
            want.insert(f.clone().unwrap_or(format!("{}.iso", DIRS[*dir])), *dir);
            a.extend(f);
        }
        let before = snapshot(w);
        exiso(*sp, &a, w).must(&a.join(" "))?;
        let made: Vec<String> = new_files(&before, w)?.keys().map(|p| p.to_str().unwrap().to_string()).collect();
        if made != want.keys().cloned().collect::<Vec<_>>() {
            return Err(format!("{}: creates {made:?}, asked for {:?}", a.join(" "), want.keys()));
        }
        for (f, dir) in &want {
            image_is(&w.join(f), &trees[*dir]).map_err(|e| format!("{}: {e}", a.join(" ")))?;
        }
        o.steps(js.len() as u64);
        o.state(&(js, sp));
        o.valid();
        Ok(())
    });

    // malformed or failing job lists
    let bad: Vec<Vec<&str>> = vec![vec!["-c"], vec!["-c", "d0", "a.iso", "-c"], vec!["-c", "d0", "a.iso", "x", "y"], vec!["-c", "nope", "a.iso"], vec!["-c", "d0", "a.iso", "-c", "nope", "b.iso"], vec!["-c", "file", "a.iso"], vec!["-r", "d0"], vec!["-r", "nope.iso"], vec!["-x", "nope.iso"], vec!["nope.iso"], vec!["-l", "nope.iso"], vec!["-x", "file"], vec!["-l", "file"]];
    ctx.group("refused", bad.iter().flat_map(|b| SPELL.iter().map(move |s| (b.clone(), *s))).collect::<Vec<_>>(), |(b, sp), o| {
        let d = ctx.scratch();
        let w = d.path();
        make_dir(&w.join("d0"), &trees[0]);
        std::fs::write(w.join("file"), b"something else").unwrap();
        let r = exiso(*sp, &b.iter().map(|s| s.to_string()).collect::<Vec<_>>(), w);
        o.steps(1);
        o.state(&(b, sp));
        o.valid();
        r.orderly()?;
        if r.ok() {
            return Err(format!("{} succeeds", b.join(" ")));
        }
        Ok(())
    });

    // one bad job among good ones, in every position, with every option that changes nothing
    let mut cases = Vec::new();
    for mode in ["-c", "-x", "", "-l", "-r"] {
        for n in 1..=ctx.pick(3usize, 4) {
            for bad in 0..n {
                for kind in ["nope", "file", "short.iso"] {
                    for extra in [&[][..], &["-q"], &["-Q"], &["-m"], &["-s"], &["-q", "-Q"], &["-d", "out"], &["-D"], &["-Q", "-D", "-s"]] {
                        if mode == "-c" && kind == "short.iso" {
                            continue;
                        }
                        for sp in SPELL {
                            cases.push((mode, n, bad, kind, extra.to_vec(), sp));
                        }
                    }
                }
            }
        }
    }
    ctx.group("one-bad", cases, |(mode, n, bad, kind, extra, sp), o| {
        let d = ctx.scratch();
        let w = d.path();
        std::fs::create_dir(w.join("out")).unwrap();
        std::fs::write(w.join("file"), b"something else").unwrap();
        let img = build(&trees[1], &lays[0]).bytes;
        std::fs::write(w.join("short.iso"), &img[..32 * 2048 + 100]).unwrap();
        let mut a: Vec<String> = extra.iter().map(|x| x.to_string()).collect();
        if !mode.is_empty() && *mode != "-c" {
            a.push(mode.to_string());
        }
        let mut goods = Vec::new();
        for i in 0..*n {
            if *mode == "-c" {
                a.push("-c".into());
            }
            if i == *bad {
                a.push(kind.to_string());
            } else if *mode == "-c" {
                let g = format!("g{i}");
                make_dir(&w.join(&g), &trees[i % 3]);
                a.push(g);
            } else {
                let g = format!("g{i}.iso");
                std::fs::write(w.join(&g), build(&trees[i % 3], &lays[i]).bytes).unwrap();
                a.push(g.clone());
                goods.push((i, g));
            }
            if *mode == "-c" {
                a.push(format!("o{i}.iso"));
            }
        }
        let r = exiso(*sp, &a, w);
        o.steps(1);
        o.state(&(mode, n, bad, kind, extra, sp));
        o.valid();
        r.orderly()?;
        if r.ok() {
            return Err(format!("{} succeeds", a.join(" ")));
        }
        // what is good stays good
        for (i, g) in goods {
            let places = [w.join(&g), w.join(&g).with_extension("old"), w.join("out").join(&g)];
            if !places.iter().any(|p| p.is_file() && image_is(p, &trees[i % 3]).is_ok() || p.is_file() && std::fs::read(p).is_ok_and(|b| b == build(&trees[i % 3], &lays[i]).bytes)) {
                return Err(format!("{}: {g} is lost", a.join(" ")));
            }
        }
        Ok(())
    });

    // extract, list and rewrite: ordered selections of images
    let sel: Vec<Vec<usize>> = vec![vec![0], vec![1], vec![2], vec![0, 1], vec![1, 0], vec![0, 2], vec![2, 1], vec![0, 1, 2], vec![2, 1, 0], vec![1, 2, 0]];
    let setup = |w: &Path, k: usize| {
        std::fs::create_dir(w.join("sub")).unwrap();
        std::fs::create_dir(w.join("out")).unwrap();
        for (i, n) in IMGS.iter().enumerate() {
            write_at(&w.join(n), &build(&trees[i], &lays[(i + k) % lays.len()]).bytes, OFFSETS[(i + k) % 4]);
        }
    };
    let stem = |i: usize| ["i0", "i1.v2", "i2"][i];
    let mut cases = Vec::new();
    for s in &sel {
        for sp in SPELL {
            for flag in [false, true] {
                for dir in [None, Some("out"), Some("new"), Some("new/deep/er")] {
                    for k in 0..ctx.pick(1, 6usize) {
                        cases.push((s.clone(), sp, flag, dir, k));
                    }
                }
            }
        }
    }
    ctx.group("extract", cases, |(s, sp, flag, dir, k), o| {
        let d = ctx.scratch();
        let w = d.path();
        setup(w, *k);
        let mut a: Vec<String> = Vec::new();
        if let Some(x) = dir {
            a.extend(["-d".into(), x.to_string()]);
        }
        if *flag {
            a.push("-x".into());
        }
        a.extend(s.iter().map(|i| IMGS[*i].to_string()));
        let before = snapshot(w);
        exiso(*sp, &a, w).must(&a.join(" "))?;
        for (p, v) in &before {
            if snapshot(w).get(p) != Some(v) {
                return Err(format!("{} was changed", p.display()));
            }
        }
        match dir {
            Some(x) => {
                let all: Dir = s.iter().flat_map(|i| trees[*i].clone()).collect();
                exact(&w.join(x), &Node::Dir(all))?;
            }
            None => {
                for i in s {
                    exact(&w.join(stem(*i)), &Node::Dir(trees[*i].clone())).map_err(|e| format!("{}: {e}", stem(*i)))?;
                }
            }
        }
        let mut allowed: BTreeSet<String> = s.iter().filter(|_| dir.is_none()).map(|i| stem(*i).to_string()).collect();
        allowed.extend(dir.map(|x| x.split('/').next().unwrap().to_string()));
        for p in snapshot(w).keys().filter(|p| !before.contains_key(*p)) {
            let top = p.components().next().unwrap().as_os_str().to_str().unwrap();
            if !allowed.contains(top) {
                return Err(format!("creates {}", p.display()));
            }
        }
        o.steps(s.len() as u64);
        o.state(&(s, sp, flag, dir, k));
        o.valid();
        Ok(())
    });

    ctx.group("list", sel.iter().flat_map(|s| SPELL.iter().map(move |x| (s.clone(), *x))).collect::<Vec<_>>(), |(s, sp), o| {
        let d = ctx.scratch();
        let w = d.path();
        setup(w, 0);
        let before = snapshot(w);
        let mut want = String::new();
        for i in s {
            want += &out(&["tree", IMGS[*i]], w)?;
        }
        let mut a = vec!["-l".to_string()];
        a.extend(s.iter().map(|i| IMGS[*i].to_string()));
        let r = exiso(*sp, &a, w);
        r.must("list")?;
        o.steps(s.len() as u64);
        o.state(&(s, sp));
        o.valid();
        if r.out != want {
            return Err(format!("list prints {}, tree prints {}", clip(&r.out, 400), clip(&want, 400)));
        }
        // and every entry is there
        for i in s {
            for (p, _) in walk(&trees[*i]) {
                if !r.out.contains(&format!("/{}", p.join("/"))) {
                    return Err(format!("list does not show {p:?}"));
                }
            }
        }
        snap_diff(&before, &snapshot(w)).map_or(Ok(()), Err)
    });

    let mut cases = Vec::new();
    for s in &sel {
        for sp in SPELL {
            for del in [false, true] {
                for dir in [None, Some("out"), Some("."), Some("sub")] {
                    for extra in 0..ctx.pick(2, 4usize) {
                        for k in 0..ctx.pick(2, 6usize) {
                            cases.push((s.clone(), sp, del, dir, extra, k));
                        }
                    }
                }
            }
        }
    }
    ctx.group("rewrite", cases, |(s, sp, del, dir, extra, k), o| {
        let d = ctx.scratch();
        let w = d.path();
        setup(w, *k);
        let mut a: Vec<String> = Vec::new();
        if let Some(x) = dir {
            a.extend(["-d".into(), x.to_string()]);
        }
        if *del {
            a.push("-D".into());
        }
        // options that change nothing
        a.extend([&[][..], &["-m", "-s"][..], &["-q"][..], &["-Q", "-s"][..]][*extra].iter().map(|x| x.to_string()));
        a.push("-r".into());
        a.extend(s.iter().map(|i| IMGS[*i].to_string()));
        let before = snapshot(w);
        // the volumes only: reading the holes before them takes long
        let volume = |p: &Path, i: usize| -> Result<(u64, Vec<u8>), String> {
            use std::os::unix::fs::FileExt;
            let f = std::fs::File::open(p).map_err(|e| format!("{}: {e}", p.display()))?;
            let len = f.metadata().unwrap().len();
            let off = OFFSETS[(i + k) % 4];
            let mut b = vec![0; len.saturating_sub(off) as usize];
            f.read_exact_at(&mut b, off).map_err(|e| e.to_string())?;
            Ok((len, b))
        };
        let orig: Vec<(u64, Vec<u8>)> = s.iter().map(|i| volume(&w.join(IMGS[*i]), *i).unwrap()).collect();
        exiso(*sp, &a, w).must(&a.join(" "))?;
        let mut want: BTreeSet<PathBuf> = before.keys().cloned().collect();
        for (i, bytes) in s.iter().zip(&orig) {
            let img = Path::new(IMGS[*i]);
            let old = img.with_extension("old");
            want.remove(img);
            if !del {
                if volume(&w.join(&old), *i)? != *bytes {
                    return Err(format!("{} does not hold the original", old.display()));
                }
                want.insert(old);
            }
            let dst = match dir {
                None => img.to_path_buf(),
                Some(".") => PathBuf::from(img.file_name().unwrap()),
                Some(x) => Path::new(x).join(img.file_name().unwrap()),
            };
            image_is(&w.join(&dst), &trees[*i])?;
            want.insert(dst);
        }
        let have: BTreeSet<PathBuf> = snapshot(w).keys().cloned().collect();
        if have != want {
            return Err(format!("{}: leaves {have:?}, expected {want:?}", a.join(" ")));
        }
        for p in &have {
            let touched = s.iter().any(|i| Path::new(IMGS[*i]) == p);
            if !touched && before.contains_key(p) && before.get(p) != snapshot(w).get(p) {
                return Err(format!("{} was changed", p.display()));
            }
        }
        o.steps(s.len() as u64);
        o.state(&(s, sp, del, dir, extra, k));
        o.valid();
        Ok(())
    });
}
