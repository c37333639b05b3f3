//! C14: path remapping.

use std::collections::BTreeMap;

use xdvdfs::write::fs::{DefaultCopier, FilesystemCopier, FilesystemHierarchy, RemapOverlayConfig, RemapOverlayFilesystem, StdFilesystem, XDVDFSFilesystem};
use xdvdfs::write::img::create_xdvdfs_image;

use crate::dev::*;
use crate::fw::*;
use crate::img::*;
use crate::model::*;
use crate::pack::make_dir;

pub type Rule = (String, String);

/// Image path -> host path, for every selected entry
#[derive(Debug, Default, Clone)]
pub struct Plan {
    pub map: BTreeMap<Vec<String>, (Vec<String>, bool)>,
    /// directories that only exist because something is below them
    pub implied: std::collections::BTreeSet<Vec<String>>,
    /// two entries land on one place, or one below a file: not determined by the rules
    pub clash: bool,
}

fn substitute(rule: &str, get: &dyn Fn(usize) -> String) -> String {
    let mut out = String::new();
    let mut rest = rule;
    while let Some(i) = rest.find('{') {
        out += &rest[..i];
        let end = rest[i..].find('}').map(|e| i + e);
        match end.and_then(|e| rest[i + 1..e].parse::<usize>().ok().map(|n| (e, n))) {
            Some((e, n)) => {
                out += &get(n);
                rest = &rest[e + 1..];
            }
            None => {
                out.push('{');
                rest = &rest[i + 1..];
            }
        }
    }
    out + rest
}

pub fn plan(host: &Dir, rules: &[Rule]) -> Plan {
    let globs: Vec<wax::Glob> = rules.iter().map(|(f, _)| wax::Glob::new(f.trim_start_matches('!')).expect("glob")).collect();
    let matched = |g: &wax::Glob, p: &str| -> Option<Vec<String>> {
        use wax::Pattern;
        let c = wax::CandidatePath::from(p);
        let m = g.matched(&c)?;
        Some((0..40).map(|i| m.get(i).unwrap_or("").to_string()).collect())
    };
    let mut pl = Plan::default();
    for (path, node) in walk(host) {
        let is_dir = matches!(node, Node::Dir(_));
        // nearest enclosing path matched by any rule
        let Some(n) = (1..=path.len()).rev().find(|n| {
            let p = path[..*n].join("/");
            globs.iter().any(|g| matched(g, &p).is_some())
        }) else {
            continue;
        };
        let prefix = path[..n].join("/");
        let mut chosen: Option<String> = None;
        for (g, (from, to)) in globs.iter().zip(rules) {
            if let Some(m) = matched(g, &prefix) {
                if from.starts_with('!') {
                    chosen = None;
                } else if chosen.is_none() {
                    chosen = Some(substitute(to, &|i| m.get(i).cloned().unwrap_or_default()));
                }
            }
        }
        let Some(to) = chosen else { continue };
        let comps: Vec<String> = to.split('/').skip_while(|c| matches!(*c, "" | "." | "..")).filter(|c| !c.is_empty()).map(|c| c.to_string()).collect();
        let mut comps = comps;
        comps.extend(path[n..].iter().cloned());
        if comps.is_empty() {
            pl.clash |= !is_dir;
            continue;
        }
        for k in 1..comps.len() {
            pl.implied.insert(comps[..k].to_vec());
        }
        if let Some((_, d)) = pl.map.get(&comps) {
            pl.clash |= !(*d && is_dir);
        }
        pl.map.insert(comps, (path, is_dir));
    }
    for p in &pl.implied {
        if let Some((_, false)) = pl.map.get(p) {
            pl.clash = true;
        }
    }
    // names that differ only in case
    let mut folded: BTreeMap<Vec<Vec<u32>>, Vec<String>> = BTreeMap::new();
    for p in pl.map.keys().chain(pl.implied.iter()) {
        let k: Vec<Vec<u32>> = p.iter().map(|c| fold(c)).collect();
        if folded.insert(k, p.clone()).is_some_and(|q| q != *p) {
            pl.clash = true;
        }
    }
    pl
}

pub fn planned_flat(host: &Dir, pl: &Plan) -> Flat {
    let mut want = Flat::new();
    for p in &pl.implied {
        want.insert(p.clone(), None);
    }
    for (p, (h, _)) in &pl.map {
        want.insert(
            p.clone(),
            match find(host, h) {
                Some(Node::File { id, len }) => Some((*len, data_hash(&content(*id, *len)))),
                _ => None,
            },
        );
    }
    want
}

fn check<F, E>(host: &Dir, rules: &[Rule], fs: F, o: &mut Obs) -> Result<(), String>
where
    F: FilesystemHierarchy<Error = E> + FilesystemCopier<Dev>,
    E: Send + Sync + std::fmt::Debug + Into<xdvdfs::write::fs::RemapOverlayError<E>>,
    <F as FilesystemCopier<Dev>>::Error: Send + Sync + std::fmt::Debug,
{
    let pl = plan(host, rules);
    o.steps(2);
    let cfg = RemapOverlayConfig { map_rules: rules.to_vec() };
    let mut fs = run!(RemapOverlayFilesystem::new(fs, cfg)).map_err(|e| format!("rules refused: {e:?}"))?;
    let dump = fs.dump();
    let mut dev = Dev::new(vec![]);
    let r = run!(create_xdvdfs_image(&mut fs, &mut dev, |_| {}));
    if pl.clash {
        o.outcome("clash");
        return Ok(());
    }
    r.map_err(|e| format!("pack refused: {e:?}"))?;
    let want = planned_flat(host, &pl);
    let got = tree_of(&dev.data[..])?;
    diff_flat(&want, &got)?;
    o.outcome(format!("{} entries", want.len().min(9)));
    o.state(&want);
    // the listing
    let mut listed: BTreeMap<Vec<String>, Vec<String>> = BTreeMap::new();
    for (h, i) in &dump {
        if listed.insert(comps(i), comps(h)).is_some() {
            return Err(format!("{} listed twice", i.as_string()));
        }
    }
    for (p, n) in &got {
        match listed.get(p) {
            Some(h) => {
                let Some((wh, _)) = pl.map.get(p) else {
                    return Err(format!("listing names {h:?} for {p:?}, which no rule selects"));
                };
                if n.is_some() && wh != h {
                    return Err(format!("listing says {p:?} comes from {h:?}, it is {wh:?}"));
                }
            }
            None if n.is_some() => return Err(format!("packed file {p:?} is not listed")),
            None => {
                if !listed.keys().any(|q| q.len() > p.len() && q[..p.len()] == p[..]) {
                    return Err(format!("packed directory {p:?} is not listed"));
                }
            }
        }
    }
    for p in listed.keys() {
        if !got.contains_key(p) {
            return Err(format!("listed {p:?} is not packed"));
        }
    }
    o.valid();
    Ok(())
}

/// Packs the dump through the dev ctl-free memory file system
fn check_mem(host: &Dir, rules: &[Rule], o: &mut Obs) -> Result<(), String> {
    check(host, rules, MemFs::new(host), o)
}

pub fn hosts() -> Vec<Dir> {
    let f = |i: u64| file(i, i + 1);
    let d = |v: Dir| Node::Dir(v);
    let s = |x: &str| x.to_string();
    vec![
        vec![(s("a"), d(vec![(s("x"), f(1)), (s("y"), f(2)), (s("b"), d(vec![(s("x"), f(3)), (s("q"), f(4))]))])), (s("b"), d(vec![(s("x"), f(5)), (s("e"), d(vec![]))])), (s("x"), f(6))],
        vec![(s("a"), f(1)), (s("b"), f(2)), (s("c.x"), f(3)), (s(".h"), f(4)), (s("x"), d(vec![(s(".a"), f(5)), (s("a"), d(vec![(s("a"), f(6)), (s("x"), f(9))]))]))],
        vec![(s("a"), d(vec![(s("a"), d(vec![(s("a"), d(vec![(s("a"), f(1)), (s("x"), f(2))])), (s("x"), f(3))])), (s("x"), f(4))]))],
        vec![(s("{1}"), f(1)), (s("{0}"), d(vec![(s("{2}"), f(2)), (s("x"), f(3))])), (s("a"), d(vec![(s("{1}"), f(4))])), (s("\u{e9}"), d(vec![(s("\u{20ac}"), f(5))]))],
        vec![(s("a"), d(vec![])), (s("b"), d(vec![(s("a"), d(vec![])), (s("x"), d(vec![]))]))],
    ]
}

const FROM: [&str; 20] = [
    "a", "b", "*", "**", "a/*", "a/**", "**/x", "*/x", "{a,b}", "(*)/(x)", "!a", "!a/x", "!**/x", "!*", "!a/*", "?", "{a,x}/{a,x}", "**/a", "!**/a", "a/b",
];
const TO: [&str; 9] = ["/", "/o", "/o/{0}", "/{1}", "/{0}", "n/{2}/{1}", "./{1}{1}", "/o/", "../p/{0}.z"];

fn norm(f: &str) -> String {
    f.replace(['(', ')'], "")
}

pub fn c14(ctx: &Ctx) {
    let hosts = hosts();
    let rules1: Vec<Rule> = FROM.iter().flat_map(|f| TO.iter().map(|t| (norm(f), t.to_string()))).filter(|(f, t)| !f.starts_with('!') || t == "/").collect();
    let mut cases = Vec::new();
    for h in 0..hosts.len() {
        cases.push((h, vec![]));
        for r in 0..rules1.len() {
            cases.push((h, vec![r]));
            for q in 0..rules1.len() {
                cases.push((h, vec![r, q]));
            }
        }
    }
    let get = |rs: &Vec<usize>| -> Vec<Rule> { rs.iter().map(|r| rules1[*r].clone()).collect() };
    ctx.group("one-and-two-rules", cases, |(h, rs), o| check_mem(&hosts[*h], &get(rs), o).map_err(|e| format!("{:?}: {e}", get(rs))));

    // three and four rules over a smaller alphabet: exclusion, re-inclusion and priority
    let small: Vec<Rule> = ["a", "**", "*", "**/x", "a/*", "!a", "!**", "!**/x", "!a/*"]
        .iter()
        .flat_map(|f| if f.starts_with('!') { vec![(f.to_string(), String::new())] } else { vec![(f.to_string(), "/o/{0}".to_string()), (f.to_string(), "/p/{0}".to_string())] })
        .collect();
    let mut cases = Vec::new();
    let depth = ctx.pick(4, 5);
    for s in sequences(small.len(), depth) {
        if s.len() >= 3 {
            if s.len() == depth {
                cases.push(((s[0] + s[1]) % 3, s));
            } else {
                for h in 0..3usize {
                    cases.push((h, s.clone()));
                }
            }
        }
    }
    ctx.group("rule-lists", cases, |(h, s), o| {
        let r: Vec<Rule> = s.iter().map(|i| small[*i].clone()).collect();
        check_mem(&hosts[*h], &r, o).map_err(|e| format!("{r:?}: {e}"))
    });

    // every small host tree
    let trees = crate::read::small_trees(ctx.pick(4, 5));
    let sets: Vec<Vec<Rule>> = [
        vec![("**", "/{0}")], vec![("b", "/q")], vec![("*", "/d/{0}")], vec![("**/*.x", "/{0}")], vec![("b", "/"), ("*", "/k/{1}")],
        vec![("**", "/{0}"), ("!b", "")], vec![("**", "/{0}"), ("!**/b", ""), ("**/b", "/back/{0}")], vec![("b/**", "/{1}")],
    ]
    .iter()
    .map(|v| v.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect())
    .collect();
    let mut cases = Vec::new();
    for t in &trees {
        for s in 0..sets.len() {
            cases.push((t, s));
        }
    }
    ctx.group("host-trees", cases, |&(t, s), o| check_mem(t, &sets[s], o).map_err(|e| format!("{:?}: {e}", sets[s])));

    // other host file systems: a directory, an image
    let mut cases = Vec::new();
    for h in 0..hosts.len() {
        for r in 0..rules1.len() {
            cases.push((h, r));
        }
    }
    ctx.group("other-hosts", cases, |&(h, r), o| {
        let rules = vec![rules1[r].clone(), ("**/x".to_string(), "/second/{0}".to_string())];
        let img = build(&hosts[h], &layouts()[r % 6]).bytes;
        let fs = run!(XDVDFSFilesystem::<_, Dev, DefaultCopier<_, _>>::new(Dev::new(img))).ok_or("not opened")?;
        check(&hosts[h], &rules, fs, o).map_err(|e| format!("{rules:?} over an image: {e}"))?;
        if r % 4 == 0 {
            let d = ctx.scratch();
            make_dir(&d.join("h"), &hosts[h]);
            check(&hosts[h], &rules, HostFs(StdFilesystem::create(&d.join("h"))), o).map_err(|e| format!("{rules:?} over a directory: {e}"))?;
        }
        Ok(())
    });
    // the example of the documentation, on every subset of a host tree, judged by the documented meaning
    let all: Vec<&str> = vec!["bin/default.xbe", "bin/d/x.a", "assets/a", "assets/d/b.c", "sound/priority.a", "sound/priority.zz", "sound/x.a", "sound/x.b", "sound/x.d", "sound/excluded.a", "sound/excluded.c", "sound/s/x.c", "other/bin/q", "x.a"];
    let readme: Vec<Rule> = [
        ("bin", "/"), ("assets/**", "/assets/{1}"), ("sound/priority.*", "/{0}"), ("sound/*.{a,b,c}", "/{2}/{1}"), ("!sound/excluded.*", ""), ("sound/excluded.c", "/c/excluded"),
    ]
    .iter()
    .map(|(a, b)| (a.to_string(), b.to_string()))
    .collect();
    let documented = |p: &str| -> Option<String> {
        if let Some(r) = p.strip_prefix("bin/") {
            return Some(r.into());
        }
        if p.starts_with("assets/") {
            return Some(p.into());
        }
        let f = p.strip_prefix("sound/").filter(|f| !f.contains('/'))?;
        let (n, e) = f.split_once('.')?;
        match (n, e) {
            ("priority", _) => Some(p.into()),
            ("excluded", "c") => Some("c/excluded".into()),
            ("excluded", _) => None,
            (_, "a" | "b" | "c") => Some(format!("{e}/{n}")),
            _ => None,
        }
    };
    fn insert(d: &mut Dir, p: &str, n: Node) {
        match p.split_once('/') {
            None => d.push((p.into(), n)),
            Some((a, r)) => {
                let i = d.iter().position(|(x, _)| x == a).unwrap_or_else(|| {
                    d.push((a.into(), Node::Dir(vec![])));
                    d.len() - 1
                });
                if let Node::Dir(c) = &mut d[i].1 {
                    insert(c, r, n);
                }
            }
        }
    }
    ctx.group("documented", (0..1usize << all.len()).collect(), |&m, o| {
        let mut host: Dir = vec![];
        let mut want: BTreeMap<Vec<String>, Option<(u64, u64)>> = BTreeMap::new();
        for (i, p) in all.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1) {
            insert(&mut host, p, file(i as u64, i as u64 + 1));
            if let Some(t) = documented(p) {
                want.insert(t.split('/').map(|s| s.to_string()).collect(), Some((i as u64 + 1, data_hash(&content(i as u64, i as u64 + 1)))));
            }
        }
        check_mem(&host, &readme, o)?;
        let mut fs = run!(RemapOverlayFilesystem::new(MemFs::new(&host), RemapOverlayConfig { map_rules: readme.clone() })).map_err(|e| format!("{e:?}"))?;
        let mut dev = Dev::new(vec![]);
        run!(create_xdvdfs_image(&mut fs, &mut dev, |_| {})).map_err(|e| format!("{e:?}"))?;
        let mut got = tree_of(&dev.data[..])?;
        got.retain(|_, x| x.is_some());
        diff_flat(&want, &got)
    });

    // long lists: every place of an exclusion and of a re-inclusion; many captures; deep and wide hosts
    let ns = if ctx.thorough { vec![1usize, 2, 7, 8, 9, 16, 17, 33, 64] } else { vec![1, 9, 17, 33] };
    let mut cases = Vec::new();
    for n in ns {
        for ex in 0..=n {
            for re in ex..=n {
                cases.push((n, ex, re));
            }
        }
    }
    ctx.group("long-lists", cases, |&(n, ex, re), o| {
        let host: Dir = (0..n).map(|i| (format!("f{i}"), file(i as u64, i as u64 + 1))).chain([("d".to_string(), Node::Dir((0..n).map(|i| (format!("f{i}"), file(i as u64, 7))).collect()))]).collect();
        let mut rules: Vec<Rule> = (0..n).map(|i| (format!("f{i}"), format!("/o{i}/{{0}}"))).collect();
        rules.insert(re, ("*".into(), "/all/{1}".into()));
        rules.insert(ex, (format!("!f{}", n / 2), String::new()));
        check_mem(&host, &rules, o).map_err(|e| format!("{n} rules, exclusion at {ex}, {re}: {e}"))
    });
    let mut cases = Vec::new();
    for n in 1..=16usize {
        for i in 0..=n + 1 {
            for j in [0, 1, 9, 10, n] {
                cases.push((n, i, j));
            }
        }
    }
    ctx.group("captures", cases, |&(n, i, j), o| {
        let name = |k: u8| (0..n).map(|x| (b'a' + (x as u8 * k) % 26) as char).collect::<String>();
        let host: Dir = vec![(name(1), file(1, 1)), (name(3), Node::Dir(vec![("x".into(), file(2, 2))]))];
        let host: Dir = if host[0].0 == host[1].0 { host[..1].to_vec() } else { host };
        let rules: Vec<Rule> = vec![("?".repeat(n), format!("/q{{{i}}}-{{{j}}}/{{0}}"))];
        check_mem(&host, &rules, o).map_err(|e| format!("{rules:?}: {e}"))?;
        // the same over path components
        let mut deep = file(5, 5);
        for x in (1..n).rev() {
            deep = Node::Dir(vec![(format!("c{x}"), deep), ("s".into(), file(x as u64, x as u64))]);
        }
        let host: Dir = vec![("c0".into(), deep)];
        let rules: Vec<Rule> = vec![(vec!["*"; n].join("/"), format!("/q{{{i}}}-{{{j}}}/z"))];
        check_mem(&host, &rules, o).map_err(|e| format!("{rules:?}: {e}"))
    });
    ctx.group("deep", (1..ctx.pick(60usize, 150)).collect(), |&n, o| {
        let mut d: Dir = vec![("x".into(), file(1, 9))];
        for i in (0..n).rev() {
            d = vec![(format!("d{i}"), Node::Dir(d)), ("x".into(), file(i as u64, 3))];
        }
        for r in [vec![("**", "/{0}")], vec![("**/x", "/{1}/y")], vec![("d0", "/")], vec![("**", "/{0}"), ("!**/d7", "")], vec![("d0/d1", "/a/b/c"), ("x", "/{0}")], vec![("*", "/d1/{1}")]] {
            let rules: Vec<Rule> = r.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
            check_mem(&d, &rules, o).map_err(|e| format!("{n} deep, {rules:?}: {e}"))?;
        }
        Ok(())
    });

    // malformed substitutions are refused, not packed
    ctx.group("bad-substitutions", ["/{a}", "/{1", "/x{", "/{1}{", "/{-1}", "/{1 }"].to_vec(), |t, o| {
        o.state(t);
        o.steps(1);
        let cfg = RemapOverlayConfig { map_rules: vec![("**".into(), t.to_string())] };
        if run!(RemapOverlayFilesystem::new(MemFs::new(&hosts[0]), cfg)).is_ok() {
            return Err(format!("{t} is accepted"));
        }
        o.valid();
        Ok(())
    });
    crate::cli2::c14_cli(ctx);
}

/// StdFilesystem copies into streams only; adapt it to the model device
struct HostFs(StdFilesystem);

#[maybe_async::maybe_async]
impl FilesystemHierarchy for HostFs {
    type Error = std::io::Error;
    async fn read_dir(&mut self, p: &xdvdfs::write::fs::PathVec) -> Result<Vec<xdvdfs::write::fs::FileEntry>, std::io::Error> {
        self.0.read_dir(p).await
    }
}

#[maybe_async::maybe_async]
impl FilesystemCopier<Dev> for HostFs {
    type Error = std::io::Error;
    async fn copy_file_in(&mut self, src: &xdvdfs::write::fs::PathVec, dest: &mut Dev, i: u64, o: u64, n: u64) -> Result<u64, std::io::Error> {
        let mut io = IoDev::new(std::mem::take(&mut dest.data));
        let r = self.0.copy_file_in(src, &mut io, i, o, n).await;
        dest.data = io.data;
        r
    }
}
