//! Reference model: trees with position dependent contents, names, and their order.

use std::collections::BTreeMap;

use crate::fw::hash;

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Node {
    File { id: u64, len: u64 },
    Dir(Dir),
}

pub type Dir = Vec<(String, Node)>;

impl std::fmt::Debug for Node {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Node::File { id, len } => write!(f, "F{id}:{len}"),
            Node::Dir(d) => f.debug_list().entries(d).finish(),
        }
    }
}

pub fn file(id: u64, len: u64) -> Node {
    Node::File { id, len }
}

fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

/// Added to a content id: bytes that repeat, so that they can be compressed
pub const SOFT: u64 = 1 << 40;


/// Special contents, also added to a content id: zeros, ones, line ends and controls, the volume
/// magic as text, zero last / first in every group of four
pub const KINDS: [u64; 6] = [1 << 41, 2 << 41, 3 << 41, 4 << 41, 5 << 41, 6 << 41];

/// Contents from which file and position can be told
pub const PLAIN: u64 = 7 << 41;

pub fn content_at(id: u64, start: u64, buf: &mut [u8]) {
    let mut i = 0usize;
    let kind = (id >> 41) & 7;
    if kind == 7 {
        // words that tell the file and their position
        let tag = (id & 0xffff) << 40;
        while i < buf.len() {
            let pos = start + i as u64;
            let w = (tag | (pos >> 3)).to_le_bytes();
            let o = (pos & 7) as usize;
            let n = (8 - o).min(buf.len() - i);
            buf[i..i + n].copy_from_slice(&w[o..o + n]);
            i += n;
        }
        return;
    }
    if kind != 0 {
        for (i, b) in buf.iter_mut().enumerate() {
            let p = start + i as u64;
            let m = mix(id.wrapping_mul(0x1000193) ^ p) as u8;
            *b = match kind {
                1 => 0,
                2 => 0xff,
                3 => [0u8, 10, 13, 26, 0xff, 9][((p + id) % 6) as usize],
                4 => b"MICROSOFT*XBOX*MEDIA"[(p % 20) as usize],
                5 => if p % 4 == 3 { 0 } else { m },
                _ => if p % 4 == 0 { 0 } else { m },
            };
        }
        return;
    }
    while i < buf.len() {
        let pos = start + i as u64;
        let word = if id & SOFT != 0 { (pos >> 3) % 25 } else { pos >> 3 };
        let w = mix(id.wrapping_mul(0x1000193) ^ word).to_le_bytes();
        let o = (pos & 7) as usize;
        let n = (8 - o).min(buf.len() - i);
        buf[i..i + n].copy_from_slice(&w[o..o + n]);
        i += n;
    }
}

pub fn content(id: u64, len: u64) -> Vec<u8> {
    let mut v = vec![0; len as usize];
    content_at(id, 0, &mut v);
    v
}

/// Path components -> None for a directory, or (length, content hash) for a file
pub type Flat = BTreeMap<Vec<String>, Option<(u64, u64)>>;

pub fn data_hash(d: &[u8]) -> u64 {
    hash(d)
}

pub fn flatten(d: &Dir) -> Flat {
    flatten_by(d, &|id, len| (len, data_hash(&content(id, len))))
}

pub fn flatten_by(d: &Dir, f: &dyn Fn(u64, u64) -> (u64, u64)) -> Flat {
    fn rec(d: &Dir, f: &dyn Fn(u64, u64) -> (u64, u64), base: &mut Vec<String>, out: &mut Flat) {
        for (n, x) in d {
            base.push(n.clone());
            match x {
                Node::File { id, len } => {
                    let prev = out.insert(base.clone(), Some(f(*id, *len)));
                    assert!(prev.is_none(), "model: duplicate path {base:?}");
                }
                Node::Dir(c) => {
                    assert!(out.insert(base.clone(), None).is_none(), "model: duplicate path {base:?}");
                    rec(c, f, base, out);
                }
            }
            base.pop();
        }
    }
    let mut out = Flat::new();
    rec(d, f, &mut Vec::new(), &mut out);
    out
}

/// All paths with their node
pub fn walk(d: &Dir) -> Vec<(Vec<String>, Node)> {
    fn rec(d: &Dir, base: &mut Vec<String>, out: &mut Vec<(Vec<String>, Node)>) {
        for (n, x) in d {
            base.push(n.clone());
            out.push((base.clone(), x.clone()));
            if let Node::Dir(c) = x {
                rec(c, base, out);
            }
            base.pop();
        }
    }
    let mut out = Vec::new();
    rec(d, &mut Vec::new(), &mut out);
    out
}

pub fn count(d: &Dir) -> usize {
    d.iter().map(|(_, n)| 1 + if let Node::Dir(c) = n { count(c) } else { 0 }).sum()
}

pub fn diff_flat(want: &Flat, got: &Flat) -> Result<(), String> {
    if want == got {
        return Ok(());
    }
    for (p, w) in want {
        match got.get(p) {
            None => return Err(format!("missing /{}", p.join("/"))),
            Some(g) if g != w => return Err(format!("/{} is {g:?}, expected {w:?} (None: directory, Some((length, hash)): file)", p.join("/"))),
            _ => {}
        }
    }
    for p in got.keys() {
        if !want.contains_key(p) {
            return Err(format!("unexpected /{}", p.join("/")));
        }
    }
    unreachable!()
}

// ---------------------------------------------------------------- names

/// windows-1252 code points of bytes 0x80..=0x9f (undefined ones map to C1 controls)
const HIGH: [u32; 32] = [
    0x20AC, 0x81, 0x201A, 0x0192, 0x201E, 0x2026, 0x2020, 0x2021, 0x02C6, 0x2030, 0x0160, 0x2039, 0x0152, 0x8D, 0x017D, 0x8F,
    0x90, 0x2018, 0x2019, 0x201C, 0x201D, 0x2022, 0x2013, 0x2014, 0x02DC, 0x2122, 0x0161, 0x203A, 0x0153, 0x9D, 0x017E, 0x0178,
];

pub fn dec1252(b: &[u8]) -> String {
    b.iter().map(|&b| dec_char(b)).collect()
}

pub fn dec_char(b: u8) -> char {
    if (0x80..0xa0).contains(&b) {
        char::from_u32(HIGH[(b - 0x80) as usize]).unwrap()
    } else {
        b as char
    }
}

pub fn enc1252(s: &str) -> Option<Vec<u8>> {
    s.chars()
        .map(|c| {
            let c = c as u32;
            if let Some(i) = HIGH.iter().position(|&h| h == c) {
                Some(0x80 + i as u8)
            } else if c < 0x80 || (0xa0..0x100).contains(&c) {
                Some(c as u8)
            } else {
                None
            }
        })
        .collect()
}

fn up(c: char) -> char {
    if ('a'..='z').contains(&c) {
        (c as u8 - 32) as char
    } else {
        c
    }
}

pub fn fold(s: &str) -> Vec<u32> {
    s.chars().map(|c| up(c) as u32).collect()
}

pub fn cmp_names(a: &str, b: &str) -> std::cmp::Ordering {
    fold(a).cmp(&fold(b))
}

pub fn same_name(a: &str, b: &str) -> bool {
    fold(a) == fold(b)
}

// ---------------------------------------------------------------- enumeration helpers

/// All tree shapes with n nodes: parent vectors with parent(i) < i or root
pub fn parent_vectors(n: usize) -> Vec<Vec<usize>> {
    // entry i (1-based) has parent in 0..i, 0 is the root
    let mut out = vec![vec![]];
    for i in 1..=n {
        let mut next = Vec::new();
        for v in &out {
            for p in 0..i {
                let mut v: Vec<usize> = v.clone();
                v.push(p);
                next.push(v);
            }
        }
        out = next;
    }
    out
}

/// Builds a tree of the parent vector; None if a file would have children
pub fn build_tree(parents: &[usize], kind: &dyn Fn(usize) -> Option<u64>, name: &dyn Fn(usize) -> String) -> Option<Dir> {
    fn rec(me: usize, parents: &[usize], kind: &dyn Fn(usize) -> Option<u64>, name: &dyn Fn(usize) -> String) -> Option<Dir> {
        let mut d = Vec::new();
        for i in 1..=parents.len() {
            if parents[i - 1] == me {
                let n = match kind(i) {
                    Some(len) => {
                        if parents.contains(&i) {
                            return None;
                        }
                        file(i as u64, len)
                    }
                    None => Node::Dir(rec(i, parents, kind, name)?),
                };
                d.push((name(i), n));
            }
        }
        Some(d)
    }
    rec(0, parents, kind, name)
}

pub fn permutations(n: usize) -> Vec<Vec<usize>> {
    fn rec(cur: &mut Vec<usize>, used: &mut Vec<bool>, out: &mut Vec<Vec<usize>>) {
        if cur.len() == used.len() {
            out.push(cur.clone());
            return;
        }
        for i in 0..used.len() {
            if !used[i] {
                used[i] = true;
                cur.push(i);
                rec(cur, used, out);
                cur.pop();
                used[i] = false;
            }
        }
    }
    let mut out = Vec::new();
    rec(&mut Vec::new(), &mut vec![false; n], &mut out);
    out
}

/// All strings over the alphabet with 1..=max characters
pub fn strings(alpha: &[char], max: usize) -> Vec<String> {
    let mut out: Vec<String> = Vec::new();
    let mut last = vec![String::new()];
    for _ in 0..max {
        let mut next = Vec::new();
        for s in &last {
            for c in alpha {
                let mut s = s.clone();
                s.push(*c);
                next.push(s);
            }
        }
        out.extend(next.iter().cloned());
        last = next;
    }
    out
}

/// All sequences over 0..k of length 0..=max
pub fn sequences(k: usize, max: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    let mut last: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..max {
        let mut next = Vec::new();
        for s in &last {
            for c in 0..k {
                let mut s = s.clone();
                s.push(c);
                next.push(s);
            }
        }
        out.extend(next.iter().cloned());
        last = next;
    }
    out
}
