//! Independent decoder, validator and builder of XDVDFS images.

use std::collections::{BTreeMap, HashMap, HashSet};

use crate::model::*;

pub const SECTOR: u64 = 2048;
pub const MAGIC: &[u8; 20] = b"MICROSOFT*XBOX*MEDIA";

#[derive(Clone, Debug)]
pub struct Ent {
    pub name: Vec<u8>,
    pub attr: u8,
    pub sector: u32,
    pub size: u32,
    pub off: u64,
    pub left: u16,
    pub right: u16,
    pub table: Option<Table>,
}

#[derive(Clone, Debug)]
pub struct Table {
    pub sector: u32,
    pub size: u32,
    /// preorder
    pub ents: Vec<Ent>,
    /// heights by offset (leaf 1)
    pub balanced: bool,
}

impl Ent {
    pub fn is_dir(&self) -> bool {
        self.attr & 0x10 != 0
    }
    pub fn name_str(&self) -> String {
        dec1252(&self.name)
    }
    pub fn disk_offset(&self, t: &Table) -> u64 {
        t.sector as u64 * SECTOR + self.off
    }
}

pub trait Get {
    fn get(&self, off: u64, len: usize) -> Option<Vec<u8>>;
    fn total(&self) -> u64;
}

impl Get for [u8] {
    fn get(&self, off: u64, len: usize) -> Option<Vec<u8>> {
        let o = usize::try_from(off).ok()?;
        let e = o.checked_add(len)?;
        if e > self.len() {
            return None;
        }
        Some(self[o..e].to_vec())
    }
    fn total(&self) -> u64 {
        self.len() as u64
    }
}

fn u16le(b: &[u8]) -> u16 {
    u16::from_le_bytes([b[0], b[1]])
}
fn u32le(b: &[u8]) -> u32 {
    u32::from_le_bytes([b[0], b[1], b[2], b[3]])
}

/// Decodes the volume; fails unless it is well formed enough to be decoded without ambiguity.
pub fn decode(img: &(impl Get + ?Sized)) -> Result<Table, String> {
    let vd = img.get(32 * SECTOR, 2048).ok_or("no volume descriptor in sector 32")?;
    if &vd[..20] != MAGIC {
        return Err("first signature missing".into());
    }
    if &vd[2028..] != MAGIC {
        return Err("second signature missing".into());
    }
    let mut seen = HashSet::new();
    decode_table(img, u32le(&vd[20..]), u32le(&vd[24..]), &mut seen, "")
}

fn decode_table(img: &(impl Get + ?Sized), sector: u32, size: u32, seen: &mut HashSet<u32>, path: &str) -> Result<Table, String> {
    let mut t = Table { sector, size, ents: vec![], balanced: true };
    if size == 0 {
        return Ok(t);
    }
    let at = |o: u64| sector as u64 * SECTOR + o;
    // iterative preorder: (offset, lower bound, upper bound)
    type B = Option<String>;
    let mut stack: Vec<(u64, B, B)> = vec![(0, None, None)];
    let mut visited = HashSet::new();
    let mut links: HashMap<u64, (u64, u64)> = HashMap::new();
    let mut order = Vec::new();
    while let Some((off, lo, hi)) = stack.pop() {
        if !visited.insert(off) {
            return Err(format!("{path}/: entry at {off} reached twice"));
        }
        let end = |n: u64| off + n;
        if end(14) > size as u64 {
            return Err(format!("{path}/: entry at {off} outside table of {size} bytes"));
        }
        let h = img.get(at(off), 14).ok_or_else(|| format!("{path}/: table outside image"))?;
        if h.iter().all(|b| *b == 0xff) || h.iter().all(|b| *b == 0) {
            if off == 0 {
                return Ok(t);
            }
            return Err(format!("{path}/: blank entry at {off}"));
        }
        let nl = h[13] as usize;
        if end(14 + nl as u64) > size as u64 {
            return Err(format!("{path}/: name of entry at {off} outside table of {size} bytes"));
        }
        let name = img.get(at(off + 14), nl).ok_or_else(|| format!("{path}/: table outside image"))?;
        let s = dec1252(&name);
        if let Some(lo) = &lo {
            if cmp_names(&s, lo) != std::cmp::Ordering::Greater {
                return Err(format!("{path}/: {s:?} lies right of {lo:?}"));
            }
        }
        if let Some(hi) = &hi {
            if cmp_names(&s, hi) != std::cmp::Ordering::Less {
                return Err(format!("{path}/: {s:?} lies left of {hi:?}"));
            }
        }
        let e = Ent {
            left: u16le(&h),
            right: u16le(&h[2..]),
            sector: u32le(&h[4..]),
            size: u32le(&h[8..]),
            attr: h[12],
            name,
            off,
            table: None,
        };
        let child = |c: u16| if c == 0 || c == 0xffff { 0 } else { c as u64 * 4 };
        links.insert(off, (child(e.left), child(e.right)));
        order.push(off);
        if child(e.right) != 0 {
            stack.push((child(e.right), Some(s.clone()), hi.clone()));
        }
        if child(e.left) != 0 {
            stack.push((child(e.left), lo.clone(), Some(s.clone())));
        }
        t.ents.push(e);
    }
    // heights bottom up (children come after parents in `order`)
    let mut height: HashMap<u64, i64> = HashMap::new();
    for o in order.iter().rev() {
        let (l, r) = links[o];
        let hl = if l == 0 { 0 } else { height[&l] };
        let hr = if r == 0 { 0 } else { height[&r] };
        if (hl - hr).abs() > 1 {
            t.balanced = false;
        }
        height.insert(*o, 1 + hl.max(hr));
    }
    if !t.ents.is_empty() && !seen.insert(sector) {
        return Err(format!("{path}/: directory table at sector {sector} used twice"));
    }
    for i in 0..t.ents.len() {
        if t.ents[i].is_dir() {
            let p = format!("{path}/{}", t.ents[i].name_str());
            t.ents[i].table = Some(decode_table(img, t.ents[i].sector, t.ents[i].size, seen, &p)?);
        }
    }
    Ok(t)
}

/// Flattens a decoded volume, with the file contents taken from the image
pub fn flat_image(img: &(impl Get + ?Sized), t: &Table) -> Result<Flat, String> {
    fn rec(img: &(impl Get + ?Sized), t: &Table, base: &mut Vec<String>, out: &mut Flat) -> Result<(), String> {
        for e in &t.ents {
            base.push(e.name_str());
            if let Some(c) = &e.table {
                if out.insert(base.clone(), None).is_some() {
                    return Err(format!("two entries named /{}", base.join("/")));
                }
                rec(img, c, base, out)?;
            } else {
                let d = img
                    .get(e.sector as u64 * SECTOR, e.size as usize)
                    .or(if e.size == 0 { Some(vec![]) } else { None })
                    .ok_or_else(|| format!("data of /{} outside image", base.join("/")))?;
                if out.insert(base.clone(), Some((e.size as u64, data_hash(&d)))).is_some() {
                    return Err(format!("two entries named /{}", base.join("/")));
                }
            }
            base.pop();
        }
        Ok(())
    }
    let mut out = Flat::new();
    rec(img, t, &mut Vec::new(), &mut out)?;
    Ok(out)
}

pub fn tree_of(img: &(impl Get + ?Sized)) -> Result<Flat, String> {
    let t = decode(img)?;
    flat_image(img, &t)
}

/// All tables and entries of a decoded volume by path
pub fn each<'a>(t: &'a Table, base: &mut Vec<String>, f: &mut dyn FnMut(&[String], &'a Table)) {
    f(base, t);
    for e in &t.ents {
        if let Some(c) = &e.table {
            base.push(e.name_str());
            each(c, base, f);
            base.pop();
        }
    }
}

/// The structural conditions every packed image must satisfy
pub fn validate_packed(img: &(impl Get + ?Sized), t: &Table) -> Result<(), String> {
    let total = img.total();
    if total % (32 * SECTOR) != 0 {
        return Err(format!("image length {total} is not a multiple of 32 sectors"));
    }
    let mut extents: Vec<(u64, u64, String)> = Vec::new();
    let mut err: Option<String> = None;
    each(t, &mut Vec::new(), &mut |path, t| {
        if err.is_some() {
            return;
        }
        let p = format!("/{}", path.join("/"));
        if let Err(e) = check_table(img, t, &p, &mut extents) {
            err = Some(e);
        }
    });
    if let Some(e) = err {
        return Err(e);
    }
    extents.sort();
    for (s, n, p) in &extents {
        if *s <= 32 {
            return Err(format!("{p}: extent starts at sector {s}, not after the descriptor"));
        }
        if (s + n) * SECTOR > total {
            return Err(format!("{p}: extent of {n} sectors at {s} exceeds image of {total} bytes"));
        }
    }
    for w in extents.windows(2) {
        if w[0].0 + w[0].1 > w[1].0 {
            return Err(format!("extents of {} and {} overlap at sector {}", w[0].2, w[1].2, w[1].0));
        }
    }
    Ok(())
}

fn check_table(img: &(impl Get + ?Sized), t: &Table, p: &str, extents: &mut Vec<(u64, u64, String)>) -> Result<(), String> {
    let sectors = (t.size as u64).div_ceil(SECTOR);
    if t.size > 0 {
        extents.push((t.sector as u64, sectors, format!("table of {p}")));
        let bytes = img
            .get(t.sector as u64 * SECTOR, (sectors * SECTOR) as usize)
            .ok_or_else(|| format!("{p}: table outside image"))?;
        let mut used = vec![false; bytes.len()];
        for e in &t.ents {
            if e.off % 4 != 0 {
                return Err(format!("{p}: entry at {} not aligned", e.off));
            }
            let end = e.off + 14 + e.name.len() as u64;
            if e.off / SECTOR != (end - 1) / SECTOR {
                return Err(format!("{p}: entry {:?} at {} crosses a sector boundary", e.name_str(), e.off));
            }
            for u in &mut used[e.off as usize..end as usize] {
                if *u {
                    return Err(format!("{p}: entry {:?} at {} overlaps another entry", e.name_str(), e.off));
                }
                *u = true;
            }
        }
        for (i, b) in bytes.iter().enumerate() {
            if !used[i] && *b != 0xff {
                return Err(format!("{p}: unused byte {i} of the table is {b:#x}"));
            }
        }
    }
    if !t.balanced {
        return Err(format!("{p}: search tree is not height-balanced"));
    }
    for e in &t.ents {
        if !e.is_dir() && e.size > 0 {
            extents.push((e.sector as u64, (e.size as u64).div_ceil(SECTOR), format!("{p}/{}", e.name_str())));
        }
    }
    Ok(())
}

/// Directory attribute exactly on directories, judged against the model
pub fn check_attributes(t: &Table, want: &Flat) -> Result<(), String> {
    let mut err = None;
    each(t, &mut Vec::new(), &mut |path, t| {
        for e in &t.ents {
            let mut p = path.to_vec();
            p.push(e.name_str());
            if let Some(w) = want.get(&p) {
                if w.is_none() != e.is_dir() {
                    err = Some(format!("/{}: directory attribute is {}", p.join("/"), e.is_dir()));
                }
            }
        }
    });
    err.map_or(Ok(()), Err)
}

// ---------------------------------------------------------------- builder

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Shape {
    Balanced,
    Left,
    Right,
    Zigzag,
    /// the k-th binary tree shape (modulo their number)
    Nth(usize),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Place {
    Preorder,
    /// root first, the others in reverse preorder
    Reverse,
    Sorted,
    /// root first, the others in the k-th permutation
    Nth(usize),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum DataOrder {
    TablesFirst,
    DataFirst,
    Interleaved,
    Reverse,
    Gaps,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum EmptyDir {
    Size0,
    Blank(u8),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Lay {
    pub shape: Shape,
    pub place: Place,
    pub none: u16,
    pub exact: bool,
    pub pad: u8,
    pub data: DataOrder,
    pub empty: EmptyDir,
    pub attr_file: u8,
    pub attr_dir: u8,
    pub filetime: u64,
    pub cut: bool,
    pub slack: u8,
    pub first: u32,
}

impl Default for Lay {
    fn default() -> Self {
        Lay {
            shape: Shape::Balanced,
            place: Place::Preorder,
            none: 0,
            exact: false,
            pad: 0xff,
            data: DataOrder::Interleaved,
            empty: EmptyDir::Blank(0xff),
            attr_file: 0x20,
            attr_dir: 0x10,
            filetime: 0,
            cut: false,
            slack: 0x5a,
            first: 33,
        }
    }
}

/// A spread of layouts, different in every dimension
pub fn layouts() -> Vec<Lay> {
    let d = Lay::default();
    vec![
        d.clone(),
        Lay { shape: Shape::Left, none: 0xffff, exact: true, data: DataOrder::TablesFirst, empty: EmptyDir::Size0, ..d.clone() },
        Lay { shape: Shape::Right, place: Place::Reverse, pad: 0, data: DataOrder::DataFirst, attr_file: 0x80, attr_dir: 0x11, cut: true, ..d.clone() },
        Lay { shape: Shape::Zigzag, place: Place::Sorted, data: DataOrder::Reverse, empty: EmptyDir::Blank(0), filetime: 0x1234_5678_9abc_def0, ..d.clone() },
        Lay { shape: Shape::Nth(7), place: Place::Nth(5), none: 0xffff, data: DataOrder::Gaps, attr_file: 0x27, attr_dir: 0xb7, exact: true, pad: 0, first: 40, ..d.clone() },
        Lay { shape: Shape::Balanced, place: Place::Reverse, data: DataOrder::DataFirst, cut: true, exact: true, first: 0, ..d.clone() },
    ]
}

#[derive(Clone, Copy)]
struct Link {
    left: Option<usize>,
    right: Option<usize>,
}

pub fn catalan(n: usize) -> usize {
    let mut c = vec![1usize; n + 1];
    for i in 1..=n {
        c[i] = (0..i).map(|k| c[k] * c[i - 1 - k]).sum();
    }
    c[n]
}

fn shape_rec(shape: Shape, lo: usize, hi: usize, links: &mut Vec<Link>, flip: bool) -> Option<usize> {
    // iterative for chains to allow large directories
    match shape {
        Shape::Left => {
            for i in lo..hi {
                links[i] = Link { left: if i > lo { Some(i - 1) } else { None }, right: None };
            }
            return if hi > lo { Some(hi - 1) } else { None };
        }
        Shape::Right => {
            for i in lo..hi {
                links[i] = Link { left: None, right: if i + 1 < hi { Some(i + 1) } else { None } };
            }
            return if hi > lo { Some(lo) } else { None };
        }
        _ => {}
    }
    if lo >= hi {
        return None;
    }
    let n = hi - lo;
    let (root, ls, rs) = match shape {
        Shape::Balanced => (lo + n / 2, shape, shape),
        Shape::Zigzag => (if flip { hi - 1 } else { lo }, shape, shape),
        Shape::Nth(k) => {
            let mut k = if n <= 15 { k % catalan(n) } else { 0 };
            let mut l = 0;
            if n <= 15 {
                loop {
                    let c = catalan(l) * catalan(n - 1 - l);
                    if k < c {
                        break;
                    }
                    k -= c;
                    l += 1;
                }
            } else {
                l = n / 3;
            }
            let cr = if n <= 15 { catalan(n - 1 - l) } else { 1 };
            (lo + l, Shape::Nth(k / cr), Shape::Nth(k % cr))
        }
        _ => unreachable!(),
    };
    let left = shape_rec(ls, lo, root, links, !flip);
    let right = shape_rec(rs, root + 1, hi, links, !flip);
    links[root] = Link { left, right };
    Some(root)
}

fn nth_perm(items: &mut Vec<usize>, mut k: usize) -> Vec<usize> {
    let n = items.len();
    if n > 12 {
        items.rotate_left(k % n.max(1));
        return items.clone();
    }
    let mut f: usize = (1..=n).product();
    k %= f.max(1);
    let mut out = Vec::new();
    for i in 0..n {
        f /= n - i;
        let j = k / f;
        k %= f;
        out.push(items.remove(j));
    }
    out
}

struct DirPlan {
    path: Vec<String>,
    /// sorted entries
    ents: Vec<(String, Node)>,
    root: Option<usize>,
    links: Vec<Link>,
    offs: Vec<u64>,
    size: u64,
}

pub struct Built {
    pub bytes: Vec<u8>,
    /// path -> sector, size
    pub extents: BTreeMap<Vec<String>, (u32, u32)>,
}

pub fn raw_name(n: &str) -> Vec<u8> {
    enc1252(n).unwrap_or_else(|| panic!("builder: name {n:?} not encodable"))
}

pub fn build(root: &Dir, lay: &Lay) -> Built {
    // plan directories in preorder
    let mut plans: Vec<DirPlan> = Vec::new();
    let mut todo: Vec<(Vec<String>, &Dir)> = vec![(vec![], root)];
    let mut files: Vec<(Vec<String>, u64, u64)> = Vec::new();
    while let Some((path, d)) = todo.pop() {
        let mut ents: Vec<(String, Node)> = d.clone();
        ents.sort_by(|a, b| cmp_names(&a.0, &b.0));
        let n = ents.len();
        let mut links = vec![Link { left: None, right: None }; n];
        let r = shape_rec(lay.shape, 0, n, &mut links, false);
        // preorder
        let mut pre = Vec::new();
        let mut st: Vec<usize> = r.into_iter().collect();
        while let Some(i) = st.pop() {
            pre.push(i);
            if let Some(x) = links[i].right {
                st.push(x);
            }
            if let Some(x) = links[i].left {
                st.push(x);
            }
        }
        let order: Vec<usize> = if n == 0 {
            vec![]
        } else {
            let mut rest: Vec<usize> = pre[1..].to_vec();
            match lay.place {
                Place::Preorder => {}
                Place::Reverse => rest.reverse(),
                Place::Sorted => rest.sort(),
                Place::Nth(k) => rest = nth_perm(&mut rest, k),
            }
            std::iter::once(pre[0]).chain(rest).collect()
        };
        let mut offs = vec![0u64; n];
        let mut pos = 0u64;
        let mut size = 0;
        for &i in &order {
            let len = 14 + raw_name(&ents[i].0).len() as u64;
            if pos / SECTOR != (pos + len - 1) / SECTOR {
                pos = pos.div_ceil(SECTOR) * SECTOR;
            }
            offs[i] = pos;
            size = pos + len;
            pos = (pos + len).div_ceil(4) * 4;
        }
        let size = if n == 0 {
            match lay.empty {
                EmptyDir::Size0 => 0,
                EmptyDir::Blank(_) => SECTOR,
            }
        } else if lay.exact {
            size.div_ceil(4) * 4
        } else {
            size.div_ceil(SECTOR) * SECTOR
        };
        for (name, node) in d.iter() {
            let mut p = path.clone();
            p.push(name.clone());
            match node {
                Node::Dir(c) => todo.push((p, c)),
                Node::File { id, len } => files.push((p, *id, *len)),
            }
        }
        plans.push(DirPlan { path, ents, root: r, links, offs, size });
    }
    // allocate extents: (is_table, index)
    #[derive(Clone, Copy)]
    enum X {
        T(usize),
        F(usize),
    }
    let tables: Vec<X> = (0..plans.len()).map(X::T).collect();
    let fl: Vec<X> = (0..files.len()).map(X::F).collect();
    let mut order: Vec<X> = match lay.data {
        DataOrder::TablesFirst | DataOrder::Gaps => tables.into_iter().chain(fl).collect(),
        DataOrder::DataFirst => fl.into_iter().chain(tables).collect(),
        DataOrder::Reverse => {
            let mut v: Vec<X> = tables.into_iter().chain(fl).collect();
            v.reverse();
            v
        }
        DataOrder::Interleaved => {
            let mut v = Vec::new();
            for (i, p) in plans.iter().enumerate() {
                v.push(X::T(i));
                for (j, f) in files.iter().enumerate() {
                    if f.0[..f.0.len() - 1] == p.path[..] {
                        v.push(X::F(j));
                    }
                }
            }
            v
        }
    };
    if lay.cut {
        // make the last extent a file whenever there is one, so that the image ends with its data
        if let Some(i) = order.iter().rposition(|x| matches!(x, X::F(j) if files[*j].2 > 0)) {
            let x = order.remove(i);
            order.push(x);
        }
    }
    let mut sec = lay.first as u64;
    let mut alloc = |bytes: u64| -> u32 {
        if bytes == 0 {
            return if lay.cut { 0 } else { sec as u32 };
        }
        let n = bytes.div_ceil(SECTOR);
        if sec <= 32 && sec + n > 32 {
            sec = 33;
        }
        let s = sec;
        sec += n;
        if lay.data == DataOrder::Gaps {
            sec += 1 + s % 3;
        }
        s as u32
    };
    let mut tsec = vec![0u32; plans.len()];
    let mut fsec = vec![0u32; files.len()];
    for x in &order {
        match x {
            X::T(i) => tsec[*i] = alloc(plans[*i].size),
            X::F(j) => fsec[*j] = alloc(files[*j].2),
        }
    }
    let end = (0..plans.len())
        .map(|i| tsec[i] as u64 * SECTOR + plans[i].size.div_ceil(SECTOR) * SECTOR)
        .chain((0..files.len()).map(|j| fsec[j] as u64 * SECTOR + if lay.cut { files[j].2 } else { files[j].2.div_ceil(SECTOR) * SECTOR }))
        .max()
        .unwrap_or(0)
        .max(33 * SECTOR);
    let mut out = vec![lay.slack; end as usize];
    let mut extents = BTreeMap::new();
    let loc: HashMap<&[String], (u32, u32)> = plans
        .iter()
        .enumerate()
        .map(|(i, p)| (&p.path[..], (tsec[i], p.size as u32)))
        .chain(files.iter().enumerate().map(|(j, f)| (&f.0[..], (fsec[j], f.2 as u32))))
        .collect();
    for (k, v) in &loc {
        extents.insert(k.to_vec(), *v);
    }
    for (i, p) in plans.iter().enumerate() {
        let base = (tsec[i] as u64 * SECTOR) as usize;
        if p.size == 0 {
            continue;
        }
        let len = (p.size.div_ceil(SECTOR) * SECTOR) as usize;
        let fill = if p.root.is_none() {
            if let EmptyDir::Blank(b) = lay.empty { b } else { 0xff }
        } else {
            lay.pad
        };
        out[base..base + len].fill(fill);
        for (k, (name, node)) in p.ents.iter().enumerate() {
            let raw = raw_name(name);
            let o = base + p.offs[k] as usize;
            let ch = |c: Option<usize>| c.map(|c| u16::try_from(p.offs[c] / 4).expect("builder: table too large")).unwrap_or(lay.none);
            out[o..o + 2].copy_from_slice(&ch(p.links[k].left).to_le_bytes());
            out[o + 2..o + 4].copy_from_slice(&ch(p.links[k].right).to_le_bytes());
            let mut path = p.path.clone();
            path.push(name.clone());
            let (s, z) = loc[&path[..]];
            out[o + 4..o + 8].copy_from_slice(&s.to_le_bytes());
            out[o + 8..o + 12].copy_from_slice(&z.to_le_bytes());
            out[o + 12] = if matches!(node, Node::Dir(_)) { lay.attr_dir | 0x10 } else { lay.attr_file & !0x10 };
            out[o + 13] = raw.len() as u8;
            out[o + 14..o + 14 + raw.len()].copy_from_slice(&raw);
        }
    }
    for (j, f) in files.iter().enumerate() {
        let o = (fsec[j] as u64 * SECTOR) as usize;
        if f.2 > 0 {
            content_at(f.1, 0, &mut out[o..o + f.2 as usize]);
        }
    }
    let v = 32 * SECTOR as usize;
    out[v..v + 2048].fill(0);
    out[v..v + 20].copy_from_slice(MAGIC);
    out[v + 20..v + 24].copy_from_slice(&tsec[0].to_le_bytes());
    out[v + 24..v + 28].copy_from_slice(&(plans[0].size as u32).to_le_bytes());
    out[v + 28..v + 36].copy_from_slice(&lay.filetime.to_le_bytes());
    out[v + 2028..v + 2048].copy_from_slice(MAGIC);
    Built { bytes: out, extents }
}
