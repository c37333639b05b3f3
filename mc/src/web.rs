//! C25: the browser front end, compiled unchanged against stand-ins for the browser (see /verif/web), and used by clicking
//! on its buttons.

use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::rc::Rc;

use wasm_bindgen::host::{self, Content, DirNode, Entry, FileNode, Plan};
use wasm_bindgen::JsValue;
use yew::{Button, Item, Page};

use crate::cli::*;
use crate::fw::*;
use crate::img::*;
use crate::model::*;
use crate::pack::*;
use crate::read::small_trees;
use crate::repack::OFFSETS;

// ---------------------------------------------------------------- the user

/// A picker the application has opened
#[derive(Clone)]
pub struct Ask {
    pub what: String,
    pub suggested: Option<String>,
    pub done: JsValue,
}

pub struct User {
    page: Page,
    asks: Rc<RefCell<Vec<Ask>>>,
    turns: u64,
    pub progress: [f32; 3],
    pub overrun: Option<String>,
}

const TURNS: u64 = 3_000_000;

impl User {
    fn new(plan: Plan) -> User {
        User::of(plan, xdvdfs_web_harness::page, Rc::new(|_, name, _| (name == "isFilePickerAvailable").then(|| Ok(JsValue::from(true)))))
    }
    /// `imports`: what the page calls besides the pickers
    pub fn of(plan: Plan, page: fn() -> Page, imports: Rc<dyn Fn(&str, &str, &[JsValue]) -> Option<Result<JsValue, JsValue>>>) -> User {
        host::reset(plan);
        let asks: Rc<RefCell<Vec<Ask>>> = Rc::default();
        let a = asks.clone();
        host::set_imports(Rc::new(move |module, name, args| {
            if let Some(r) = imports(module, name, args) {
                return r;
            }
            if !["showOpenFilePicker", "showDirectoryPicker", "showSaveFilePicker"].contains(&name) {
                return Err(JsValue::from(format!("unknown function {name}")));
            }
            a.borrow_mut().push(Ask { what: name.into(), suggested: args.get(1).and_then(|v| v.as_string()), done: args[0].clone() });
            Ok(JsValue::UNDEFINED)
        }));
        User { page: page(), asks, turns: 0, progress: [0.0; 3], overrun: None }
    }
    /// What is shown in the tab
    fn panel(&self, tab: usize) -> Vec<Item> {
        let mut n = 0;
        let mut v = Vec::new();
        for i in &self.page.items {
            if matches!(i, Item::Panel) {
                n += 1;
            } else if n == tab + 1 {
                v.push(i.clone());
            }
        }
        v
    }
    pub fn buttons(&self, tab: usize) -> Vec<Button> {
        self.panel(tab).into_iter().filter_map(|i| if let Item::Button(b) = i { Some(b) } else { None }).filter(|b| !b.label.contains("GitHub")).collect()
    }
    pub fn settle(&mut self) {
        while self.page.step() {
            for t in 0..3 {
                for i in self.panel(t) {
                    if let Item::Progress(p) = i {
                        self.progress[t] = p;
                        if !(0.0..=1.0).contains(&p) {
                            self.overrun = Some(format!("progress is shown as {p}"));
                        }
                    }
                }
            }
        }
    }
    /// Presses a button; the pickers that open
    pub fn click(&mut self, tab: usize, k: usize) -> Result<Vec<Ask>, String> {
        let b = self.buttons(tab);
        let b = b.get(k).ok_or_else(|| format!("no button {k} in tab {tab}: {:?}", b.iter().map(|b| &b.label).collect::<Vec<_>>()))?;
        if b.disabled {
            return Err(format!("button {:?} is disabled", b.label));
        }
        (b.click)();
        self.settle();
        Ok(std::mem::take(&mut *self.asks.borrow_mut()))
    }
    pub fn answer(&mut self, a: &Ask, h: JsValue) {
        host::call_function(&a.done, &[h]).expect("callback");
        self.settle();
    }
    /// Presses the button and picks `h` in the one picker that opens
    pub fn pick(&mut self, tab: usize, k: usize, what: &str, h: JsValue) -> Result<Ask, String> {
        let a = self.click(tab, k)?;
        match &a[..] {
            [x] if x.what == what => {
                self.answer(x, h);
                Ok(x.clone())
            }
            _ => Err(format!("button {k} of tab {tab} opens {:?}", a.iter().map(|a| &a.what).collect::<Vec<_>>())),
        }
    }
    pub fn turn(&mut self) -> bool {
        let r = host::turn();
        self.turns += r as u64;
        self.settle();
        r
    }
    /// Until nothing is going on any more
    fn run(&mut self) -> Result<(), String> {
        while self.turn() {
            if self.turns > TURNS {
                return Err("the operation does not end".into());
            }
        }
        match self.overrun.take() {
            Some(e) => Err(e),
            None => Ok(()),
        }
    }
    /// Some(success), or None if still busy, by the last notice of the tab
    pub fn outcome(&self, tab: usize) -> Option<bool> {
        let n = self.panel(tab).into_iter().rev().find_map(|i| if let Item::Notice(n) = i { Some(n) } else { None });
        match n.as_deref() {
            Some("Some(Success)") => Some(true),
            Some("Some(Danger)") => Some(false),
            _ => None,
        }
    }
    pub fn text(&self, tab: usize) -> String {
        yew::text(&self.panel(tab))
    }
}

// ---------------------------------------------------------------- what is done

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Do {
    PackDir,
    PackImage,
    CompressDir,
    CompressImage,
    Unpack,
}
const DO: [Do; 5] = [Do::PackDir, Do::PackImage, Do::CompressDir, Do::CompressImage, Do::Unpack];

impl Do {
    fn tab(self) -> usize {
        match self {
            Do::PackDir | Do::PackImage => 0,
            Do::Unpack => 1,
            _ => 2,
        }
    }
    fn from_image(self) -> bool {
        matches!(self, Do::PackImage | Do::CompressImage | Do::Unpack)
    }
}

/// An image at an offset, with nothing ahead of it
struct At(u64, Vec<u8>);
impl Content for At {
    fn len(&self) -> u64 {
        self.0 + self.1.len() as u64
    }
    fn read(&self, at: u64, buf: &mut [u8]) {
        for (i, b) in buf.iter_mut().enumerate() {
            let p = at + i as u64;
            *b = if p < self.0 { 0 } else { self.1[(p - self.0) as usize] };
        }
    }
}

fn fill(d: &DirNode, t: &Dir) {
    for (n, x) in t {
        match x {
            Node::File { id, len } => {
                d.add_file(n, content(*id, *len));
            }
            Node::Dir(c) => fill(&d.add_dir(n), c),
        }
    }
}
fn flat(d: &DirNode, base: &mut Vec<String>, out: &mut Flat) {
    for (n, e) in d.children.borrow().iter() {
        base.push(n.clone());
        match e {
            Entry::File(f) => {
                let b = f.bytes();
                out.insert(base.clone(), Some((b.len() as u64, data_hash(&b))));
            }
            Entry::Dir(c) => {
                out.insert(base.clone(), None);
                flat(c, base, out);
            }
        }
        base.pop();
    }
}
fn flat_dir(d: &DirNode) -> Flat {
    let mut f = Flat::new();
    flat(d, &mut vec![], &mut f);
    f
}

/// A source, and places for the output
struct World {
    src_dir: Rc<DirNode>,
    src_file: Rc<FileNode>,
    out_dir: Rc<DirNode>,
    out_file: Rc<FileNode>,
}
impl World {
    fn new(c: Do, t: &Dir, lay: &Lay, off: u64) -> World {
        let w = World { src_dir: DirNode::new("src"), src_file: FileNode::new("src.iso", Vec::new()), out_dir: DirNode::new("out"), out_file: FileNode::new("o.iso", Vec::new()) };
        if c.from_image() {
            w.src_file.set(At(off, build(t, lay).bytes));
        } else {
            fill(&w.src_dir, t);
        }
        w
    }
    fn src(&self, c: Do) -> JsValue {
        if c.from_image() {
            self.src_file.handle()
        } else {
            self.src_dir.handle()
        }
    }
    /// Chooses source and destination, without running
    fn start(&self, c: Do, u: &mut User) -> Result<(), String> {
        let tab = c.tab();
        let (open, k) = if c.from_image() { ("showOpenFilePicker", 1) } else { ("showDirectoryPicker", 0) };
        if c == Do::Unpack {
            u.pick(tab, 0, open, self.src(c))?;
            u.pick(tab, 1, "showDirectoryPicker", self.out_dir.handle())?;
        } else {
            let a = u.click(tab, k)?;
            if !a.is_empty() {
                return Err("a picker opens before the kind of source is chosen".into());
            }
            u.pick(tab, 2, open, self.src(c))?;
            if tab == 0 {
                let a = u.pick(tab, 3, "showSaveFilePicker", self.out_file.handle())?;
                if a.suggested.as_deref() != Some("src.xiso.iso") {
                    return Err(format!("{:?} is suggested as the name of the image", a.suggested));
                }
            } else {
                u.pick(tab, 3, "showDirectoryPicker", self.out_dir.handle())?;
            }
        }
        Ok(())
    }
    fn go(&self, c: Do, plan: Plan) -> Result<User, String> {
        let mut u = User::new(plan);
        self.start(c, &mut u)?;
        u.run()?;
        if u.outcome(c.tab()).is_none() {
            return Err(format!("nothing is going on, but neither success nor an error is shown: {:?}", u.text(c.tab())));
        }
        Ok(u)
    }
    fn must(&self, c: Do, plan: Plan) -> Result<User, String> {
        let u = self.go(c, plan)?;
        match u.outcome(c.tab()) {
            Some(true) => Ok(u),
            _ => Err(format!("the operation failed: {:?}", u.text(c.tab()))),
        }
    }
    fn image(&self, c: Do) -> Result<Vec<u8>, String> {
        if c.tab() == 0 {
            return Ok(self.out_file.bytes());
        }
        match &self.out_dir.children.borrow().iter().collect::<Vec<_>>()[..] {
            [(n, Entry::File(f))] if n.as_str() == "src.1.cso" => crate::cso::decompress(&f.bytes()),
            v => Err(format!("made {:?}", v.iter().map(|x| x.0).collect::<Vec<_>>())),
        }
    }
    /// The output is the whole of the source
    fn complete(&self, c: Do, t: &Dir) -> Result<(), String> {
        if c == Do::Unpack {
            return diff_flat(&flatten(t), &flat_dir(&self.out_dir));
        }
        let img = self.image(c)?;
        let v = decode(&img[..])?;
        validate_packed(&img[..], &v)?;
        diff_flat(&flatten(t), &flat_image(&img[..], &v)?)
    }
    /// What must not change: the source, and whichever place is not the destination
    fn rest(&self, c: Do) -> (u64, Flat, Flat) {
        let s = self.src_file.content();
        let mut head = vec![0; (s.len() as usize).min(1 << 20)];
        s.read(s.len() - head.len() as u64, &mut head);
        (hash(&(s.len(), head, if c.tab() == 0 { vec![] } else { self.out_file.bytes() })), flat_dir(&self.src_dir), if c.tab() == 0 { flat_dir(&self.out_dir) } else { Flat::new() })
    }
}

fn after(delays: &[u8]) -> Plan {
    Plan { delays: delays.to_vec(), ..Plan::default() }
}

pub fn c25(ctx: &Ctx) {
    let m = "picker/browser.js";
    glue(ctx, &[(m, "showOpenFilePicker"), (m, "showSaveFilePicker"), (m, "showDirectoryPicker"), (m, "isFilePickerAvailable")]);

    let lays = layouts();

    // everything on every small tree, in every layout of a source image
    let trees = small_trees(ctx.pick(3, 4));
    let mut cases = Vec::new();
    for t in &trees {
        for c in DO {
            for l in 0..if c.from_image() { lays.len() } else { 1 } {
                cases.push((t, c, l));
            }
        }
    }
    ctx.group("trees", cases, |&(t, c, l), o| {
        let w = World::new(c, t, &lays[l], OFFSETS[l % 4]);
        let before = w.rest(c);
        let u = w.must(c, after(&[]))?;
        w.complete(c, t)?;
        if w.rest(c) != before {
            return Err("something else was changed".into());
        }
        if count(t) > 0 && u.progress[c.tab()] < 1.0 {
            return Err(format!("the work is done, but the progress is shown as {}", u.progress[c.tab()]));
        }
        o.steps(host::log().len() as u64);
        o.state(&(hash(t), c, l));
        o.outcome(format!("{c:?}"));
        o.valid();
        Ok(())
    });

    // larger trees: the image of the command line
    let mut big: Vec<Dir> = crate::fault::gallery();
    big.extend(gal());
    big.push(vec![]);
    big.push((0..300).map(|i| (numbered(i, 12), if i % 7 == 0 { Node::Dir(vec![(numbered(i, 3), file(i as u64, 77)), ("e".into(), Node::Dir(vec![]))]) } else { file(i as u64, i as u64) })).collect());
    big.push(vec![("big".into(), file(7, (2 << 20) + 5)), ("b".into(), Node::Dir(vec![("x.x".into(), file(8, 70_000))])), ("a".into(), file(9, (1 << 20) - 2048 * 3))]);
    let mut deep: Dir = vec![("leaf".into(), file(9, 9))];
    for i in 0..40 {
        deep = vec![(format!("d{i}"), Node::Dir(deep)), ("e".into(), file(i, 1)), ("z".into(), Node::Dir(vec![]))];
    }
    big.push(deep);
    let mut cases = Vec::new();
    for t in 0..big.len() {
        for c in DO {
            for l in 0..if c.from_image() { lays.len() } else { 1 } {
                cases.push((t, c, l));
            }
        }
    }
    ctx.group("larger", cases, |&(t, c, l), o| {
        let t = &big[t];
        let w = World::new(c, t, &lays[l], OFFSETS[(l + 1) % 4]);
        w.must(c, after(&[1]))?;
        w.complete(c, t)?;
        // (the order of a directory of the host decides the order of data in its image, that of a source image is given)
        if matches!(c, Do::PackImage | Do::CompressImage) {
            let d = ctx.scratch();
            let p = d.join("src.iso");
            write_at(&p, &build(t, &lays[l]).bytes, OFFSETS[(l + 1) % 4]);
            let q = d.join("o.iso");
            run_cli(&["pack".as_ref(), p.as_os_str(), q.as_os_str()], d.path()).must("packing with the command line")?;
            if std::fs::read(&q).map_err(|e| e.to_string())? != w.image(c)? {
                return Err("the image differs from that of the command line".into());
            }
        }
        o.steps(host::log().len() as u64);
        o.state(&(hash(t), c, l));
        o.valid();
        Ok(())
    });

    // files everywhere in an image
    struct Far(crate::dev::VDev);
    impl Content for Far {
        fn len(&self) -> u64 {
            self.0.len
        }
        fn read(&self, at: u64, buf: &mut [u8]) {
            buf.copy_from_slice(&self.0.bytes(at, buf.len()).expect("inside of the image"));
        }
    }
    let mut cases = Vec::new();
    for s in [40u32, (1 << 20) - 1, 1 << 20, (1 << 21) - 1, 1 << 21, (1 << 21) + 1, 1 << 22, 1 << 31, u32::MAX - 2] {
        for n in [1u64, 2048, 2049, 70_000] {
            for c in [Do::PackImage, Do::CompressImage, Do::Unpack] {
                if n > 4096 && s > u32::MAX - 40 {
                    continue;
                }
                cases.push((s, n, c));
            }
        }
    }
    ctx.group("far", cases, |&(s, n, c), o| {
        let w = World::new(c, &vec![], &lays[0], 0);
        w.src_file.set(Far(crate::dev::VDev::volume(&[("a", 1, 5, 34), ("far", 2, n, s), ("z", 3, 4097, 35)])));
        w.must(c, after(&[]))?;
        w.complete(c, &vec![("a".into(), file(1 | PLAIN, 5)), ("far".into(), file(2 | PLAIN, n)), ("z".into(), file(3 | PLAIN, 4097))])?;
        o.steps(host::log().len() as u64);
        o.state(&(s, n, c));
        o.valid();
        Ok(())
    });

    // every kind of contents; the last sector ends with file data in every alignment of the compressed data
    let mut cases = Vec::new();
    for x in crate::repack::content_cases() {
        for c in DO {
            cases.push((crate::repack::content_tree(x.0, x.1), c));
        }
    }
    for k in 0..ctx.pick(64u64, 1024) {
        for c in [Do::CompressDir, Do::CompressImage] {
            cases.push((vec![("a".into(), file((k + 7) | SOFT, 30 * 2048 - k))], c));
        }
    }
    ctx.group("contents", cases, |(t, c), o| {
        let w = World::new(*c, t, &lays[hash(t) as usize % lays.len()], 0);
        w.must(*c, after(&[]))?;
        w.complete(*c, t)?;
        o.steps(host::log().len() as u64);
        o.state(&(t, c));
        o.valid();
        Ok(())
    });

    // every pattern of promises that take their time
    let gallery: Vec<Dir> = gal().into_iter().chain([vec![]]).collect();
    let mut cases = Vec::new();
    let n = ctx.pick(6u32, 9);
    for g in 0..gallery.len() {
        for c in DO {
            for pat in 0..1u32 << n {
                cases.push((g, c, (0..n).map(|i| if pat >> i & 1 == 1 { 1 + (i % 3) as u8 } else { 0 }).collect::<Vec<u8>>()));
            }
        }
    }
    ctx.group("schedules", cases, |(g, c, d), o| {
        let w = World::new(*c, &gallery[*g], &lays[0], 0);
        w.must(*c, after(d))?;
        w.complete(*c, &gallery[*g])?;
        o.steps(host::log().len() as u64);
        o.state(&(g, c, d));
        o.valid();
        Ok(())
    });

    // every promise is rejected: once, or from then on
    let mut cases = Vec::new();
    for g in 0..gallery.len() {
        for c in DO {
            for on in [false, true] {
                cases.push((g, c, on));
            }
        }
    }
    ctx.group("rejections", cases.clone(), |&(g, c, on), o| {
        let t = &gallery[g];
        let w = World::new(c, t, &lays[0], 0);
        w.must(c, after(&[1]))?;
        let log = host::log();
        for i in 0..log.len() {
            let w = World::new(c, t, &lays[0], 0);
            let before = w.rest(c);
            let u = w.go(c, Plan { delays: vec![1], fail: Some((i, on)), ..Plan::default() }).map_err(|e| format!("\"{}\" is rejected: {e}", log[i]))?;
            o.steps(host::log().len() as u64);
            o.state(&(g, c, on, i));
            if host::fired() {
                o.fired();
            }
            if u.outcome(c.tab()) == Some(true) {
                w.complete(c, t).map_err(|e| format!("success is shown although \"{}\" was rejected: {e}", log[i]))?;
                o.outcome("success, complete");
            } else {
                o.outcome("error shown");
            }
            if w.rest(c) != before {
                return Err("something else was changed".into());
            }
        }
        o.valid();
        Ok(())
    });

    // space runs out
    let mut cases = Vec::new();
    for g in 0..gallery.len() {
        for c in DO {
            cases.push((g, c));
        }
    }
    ctx.group("space", cases, |&(g, c), o| {
        let t = &gallery[g];
        let w = World::new(c, t, &lays[0], 0);
        w.must(c, after(&[]))?;
        let size = if c.tab() == 0 { w.out_file.bytes().len() as u64 } else { flat_dir(&w.out_dir).values().flatten().map(|x| x.0).max().unwrap_or(0) };
        let mut limits: Vec<u64> = vec![0, 1, 23, 24, 50, 99, 100, 101, 2047, 2048, 2049, 4999, 5000, 5001, 9999, 10_000];
        limits.extend((0..=size / 2048).map(|s| s * 2048));
        limits.extend([1, 2, 3, 4, 5, 8].map(|x| size.saturating_sub(x)));
        for l in limits {
            let w = World::new(c, t, &lays[0], 0);
            let u = w.go(c, Plan { quota: Some(l), ..Plan::default() }).map_err(|e| format!("space for {l} bytes: {e}"))?;
            o.steps(host::log().len() as u64);
            o.state(&(g, c, l));
            if host::fired() {
                o.fired();
            }
            if u.outcome(c.tab()) == Some(true) {
                w.complete(c, t).map_err(|e| format!("success is shown with space for {l} bytes: {e}"))?;
            }
        }
        o.valid();
        Ok(())
    });

    // a file of the source is changed by somebody else, ahead of every operation
    let mut cases = Vec::new();
    for g in 0..gallery.len() {
        for c in DO {
            for how in 0..5usize {
                cases.push((g, c, how));
            }
        }
    }
    ctx.group("changing-sources", cases, |&(g, c, how), o| {
        let t = &gallery[g];
        let w = World::new(c, t, &lays[0], 0);
        w.must(c, after(&[1]))?;
        let ops = host::log().len();
        let paths: Vec<Vec<String>> = if c.from_image() { vec![vec![]] } else { walk(t).into_iter().filter(|x| matches!(x.1, Node::File { .. })).map(|x| x.0).collect() };
        for i in 0..ops {
            for p in &paths {
                let w = World::new(c, t, &lays[0], 0);
                let f = if c.from_image() {
                    w.src_file.clone()
                } else {
                    let mut d = w.src_dir.clone();
                    for x in &p[..p.len() - 1] {
                        d = match d.get(x) {
                            Some(Entry::Dir(d)) => d,
                            _ => unreachable!(),
                        };
                    }
                    match d.get(p.last().unwrap()) {
                        Some(Entry::File(f)) => f,
                        _ => unreachable!(),
                    }
                };
                let hook: Rc<dyn Fn()> = Rc::new(move || {
                    let mut b = f.bytes();
                    match how {
                        0 => b.truncate(b.len() / 2),
                        1 => b.clear(),
                        2 => b.extend([1; 3000]),
                        3 => b.truncate(b.len().saturating_sub(1)),
                        _ => return f.remove(),
                    }
                    f.set(b);
                });
                // whether refused or packed in its old or new form: orderly, and if success is shown, a valid image of the tree's files
                let u = w.go(c, Plan { delays: vec![1], at: Some((i, hook)), ..Plan::default() }).map_err(|e| format!("{p:?} changed ahead of operation {i}: {e}"))?;
                o.steps(host::log().len() as u64);
                o.state(&(g, c, how, i, p));
                o.fired();
                if u.outcome(c.tab()) == Some(true) {
                    o.outcome("success");
                    if c.from_image() {
                        continue;
                    }
                    let img = w.image(c)?;
                    let v = decode(&img[..]).map_err(|e| format!("{p:?} changed ahead of operation {i}: {e}"))?;
                    let got = flat_image(&img[..], &v).map_err(|e| format!("{p:?} changed ahead of operation {i}: {e}"))?;
                    let now = flat_dir(&w.src_dir);
                    for (q, x) in flatten(t) {
                        let y = got.get(&q);
                        if y != Some(&x) && y != now.get(&q) {
                            return Err(format!("{p:?} changed ahead of operation {i}: {q:?} is neither in its old nor its new form, but success is shown"));
                        }
                    }
                } else {
                    o.outcome("error shown");
                }
            }
        }
        o.valid();
        Ok(())
    });

    // source images that end early
    let mut cases = Vec::new();
    for g in 0..gallery.len() {
        for c in [Do::PackImage, Do::CompressImage, Do::Unpack] {
            for l in 0..lays.len() {
                cases.push((g, c, l));
            }
        }
    }
    ctx.group("truncated", cases, |&(g, c, l), o| {
        let t = &gallery[g];
        let img = build(t, &lays[l]).bytes;
        let mut cuts: Vec<usize> = (0..img.len()).step_by(2048).chain((0..img.len()).step_by(2048).map(|x| x + 1)).collect();
        cuts.extend((1..120).map(|x| img.len().saturating_sub(x)));
        for n in cuts {
            let w = World::new(c, t, &lays[l], 0);
            w.src_file.set(img[..n.min(img.len())].to_vec());
            let u = w.go(c, after(&[])).map_err(|e| format!("the image ends at {n}: {e}"))?;
            o.steps(host::log().len() as u64);
            o.state(&(g, c, l, n));
            if u.outcome(c.tab()) == Some(true) {
                o.outcome("success, complete");
                w.complete(c, t).map_err(|e| format!("success is shown although the image ends at {n} of {}: {e}", img.len()))?;
            } else {
                o.outcome("error shown");
            }
        }
        o.valid();
        Ok(())
    });

    // sources that are no images
    let mut cases = Vec::new();
    for c in [Do::PackImage, Do::CompressImage, Do::Unpack] {
        for k in 0..4usize {
            cases.push((c, k));
        }
    }
    ctx.group("invalid", cases, |&(c, k), o| {
        let w = World::new(c, &gallery[1], &lays[0], 0);
        match k {
            0 => w.src_file.set(Vec::new()),
            1 => w.src_file.set(vec![0x5a; 300_000]),
            2 => {
                let mut b = build(&gallery[1], &lays[0]).bytes;
                b[32 * 2048 + 2030] ^= 1;
                w.src_file.set(b)
            }
            _ => w.src_file.remove(),
        }
        let u = w.go(c, after(&[]))?;
        o.steps(1);
        o.state(&(c, k));
        if u.outcome(c.tab()) == Some(true) {
            return Err("success is shown".into());
        }
        if u.text(c.tab()).trim().is_empty() {
            return Err("no message".into());
        }
        o.valid();
        Ok(())
    });

    // names in the image that lead elsewhere, and damaged images
    let names = hostile_names();
    let mut cases: Vec<Vec<(&str, bool, &str)>> = Vec::new();
    for n in &names {
        cases.push(vec![(n, false, "")]);
        for i in HOSTILE_INNER {
            cases.push(vec![(n, true, i)]);
        }
        cases.push(vec![("ok", true, "y"), (n, true, "victim")]);
        cases.push(vec![(n, true, "q"), (n, true, "../victim")]);
    }
    ctx.group("names", cases, |entries, o| {
        let w = World::new(Do::Unpack, &vec![], &lays[0], 0);
        w.src_file.set(named_image(&entries.iter().map(|(n, x, i)| (n.as_bytes(), *x, i.as_bytes())).collect::<Vec<_>>()));
        let before = w.rest(Do::Unpack);
        let u = w.go(Do::Unpack, after(&[]))?;
        o.steps(host::log().len() as u64);
        o.state(entries);
        o.outcome(if u.outcome(1) == Some(true) { "extracted" } else { "refused" });
        if w.rest(Do::Unpack) != before {
            return Err("outside the destination, something changed".into());
        }
        if u.outcome(1) == Some(true) {
            let mut want = BTreeMap::new();
            let mut twice = false;
            for (n, dir, i) in entries {
                twice |= want.insert(vec![n.to_string()], *dir).is_some();
                twice |= *dir && want.insert(vec![n.to_string(), i.to_string()], false).is_some();
            }
            let got: BTreeMap<Vec<String>, bool> = flat_dir(&w.out_dir).into_iter().map(|(p, x)| (p, x.is_none())).collect();
            if !twice && got != want {
                return Err(format!("reports success but made {got:?}"));
            }
        }
        o.valid();
        Ok(())
    });
    let damaged = crate::malformed::damaged_gallery();
    let mut cases = Vec::new();
    for k in 0..damaged.len() {
        for c in [Do::PackImage, Do::CompressImage, Do::Unpack] {
            cases.push((k, c));
        }
    }
    ctx.group("damaged", cases, |&(k, c), o| {
        let w = World::new(c, &vec![], &lays[0], 0);
        w.src_file.set(damaged[k].1.clone());
        let u = w.go(c, Plan { quota: Some(64 << 20), ..Plan::default() }).map_err(|e| format!("{}: {c:?}: {e}", damaged[k].0))?;
        o.steps(host::log().len() as u64);
        o.state(&(k, c));
        o.outcome(if u.outcome(c.tab()) == Some(true) { "read" } else { "refused" });
        o.valid();
        Ok(())
    });

    // an output that already exists
    let mut cases = Vec::new();
    for c in DO {
        for n in [0usize, 1, 5000, 1 << 20] {
            cases.push((c, n));
        }
    }
    ctx.group("existing-output", cases, |&(c, n), o| {
        let t = &gallery[1];
        let w = World::new(c, t, &lays[0], 0);
        w.must(c, after(&[]))?;
        fn grow(d: &DirNode, n: usize) {
            for e in d.children.borrow().values() {
                match e {
                    Entry::File(f) => f.set(vec![0x33; n]),
                    Entry::Dir(d) => grow(d, n),
                }
            }
        }
        grow(&w.out_dir, n);
        w.out_file.set(vec![0x33; n]);
        w.must(c, after(&[]))?;
        w.complete(c, t).map_err(|e| format!("over existing files of {n} bytes: {e}"))?;
        o.steps(host::log().len() as u64);
        o.state(&(c, n));
        o.valid();
        Ok(())
    });

    // names of sources, and the names of what is made from them
    let mut cases = Vec::new();
    for n in ["src", "a.b", "a.b.c", ".hidden", "x.iso", "x.xiso.iso", "Two Words", "x."] {
        for c in [Do::CompressDir, Do::CompressImage, Do::PackDir, Do::PackImage] {
            cases.push((n, c));
        }
    }
    ctx.group("source-names", cases, |&(n, c), o| {
        let t = &gallery[1];
        let mut w = World::new(c, t, &lays[0], 0);
        if c.from_image() {
            w.src_file = FileNode::new(n, build(t, &lays[0]).bytes);
        } else {
            w.src_dir = DirNode::new(n);
            fill(&w.src_dir, t);
        }
        let mut u = User::new(after(&[]));
        let tab = c.tab();
        let (open, k) = if c.from_image() { ("showOpenFilePicker", 1) } else { ("showDirectoryPicker", 0) };
        u.click(tab, k)?;
        u.pick(tab, 2, open, w.src(c))?;
        // as the command line: a directory keeps its whole name, a file loses its extension
        let stem = if c.from_image() { std::path::Path::new(n).with_extension("") } else { n.into() };
        let stem = stem.to_string_lossy().into_owned();
        let made: Vec<String>;
        if tab == 0 {
            let a = u.pick(tab, 3, "showSaveFilePicker", w.out_file.handle())?;
            made = vec![a.suggested.ok_or("no name is suggested")?];
        } else {
            u.pick(tab, 3, "showDirectoryPicker", w.out_dir.handle())?;
            u.run()?;
            made = w.out_dir.children.borrow().keys().cloned().collect();
        }
        let want = format!("{stem}{}", if tab == 0 { ".xiso.iso" } else { ".1.cso" }).replace("..", ".");
        if made.len() != 1 || made[0].replace("..", ".") != want {
            return Err(format!("{made:?} for {n:?}, expected {want:?}"));
        }
        o.steps(1);
        o.state(&(n, c));
        o.valid();
        Ok(())
    });

    clicks(ctx);
}

/// Every sequence of clicks, answered and dismissed pickers, with the work going on meanwhile
fn clicks(ctx: &Ctx) {
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
    enum Step {
        Click(usize),
        /// click, but dismiss the picker
        Dismiss(usize),
        Wait(u8),
    }
    let depth = ctx.pick(6usize, 8);
    let mut cases = Vec::new();
    for tab in 0..3usize {
        for first in 0..2usize {
            for second in 0..5usize {
                cases.push((tab, first, second));
            }
        }
    }
    let lays = layouts();
    let trees: Vec<Dir> = vec![vec![("a".into(), file(1, 100)), ("e".into(), file(4, 0))], vec![("b".into(), Node::Dir(vec![("c".into(), file(2, 3000))]))]];
    ctx.group("clicks", cases, |&(tab, first, second), o| {
        let n_runs = Cell::new(0u64);
        // replays a sequence from the start; Err(Ok(())): a step is not possible
        let replay = |steps: &[Step], o: &mut Obs| -> Result<bool, String> {
            let mut u = User::new(after(&[1]));
            let mut chosen: Option<(usize, bool)> = None; // source tree, as an image
            let mut picked = 0usize;
            let mut outs: Vec<(usize, bool, Rc<FileNode>, Rc<DirNode>)> = Vec::new();
            for s in steps {
                match *s {
                    Step::Wait(n) => {
                        for _ in 0..n {
                            if !u.turn() {
                                break;
                            }
                        }
                    }
                    Step::Click(k) | Step::Dismiss(k) => {
                        match u.buttons(tab).get(k) {
                            Some(b) if !b.disabled => {}
                            _ => return Ok(false),
                        }
                        let asks = u.click(tab, k)?;
                        if asks.is_empty() && matches!(s, Step::Dismiss(_)) {
                            return Ok(false);
                        }
                        if let (Step::Click(_), Some(a)) = (s, asks.first()) {
                            let is_input = if tab == 1 { k == 0 } else { k == 2 };
                            if is_input {
                                let t = picked % trees.len();
                                picked += 1;
                                let dir = a.what == "showDirectoryPicker";
                                chosen = Some((t, !dir));
                                let h = if dir {
                                    let d = DirNode::new("src");
                                    fill(&d, &trees[t]);
                                    d.handle()
                                } else {
                                    FileNode::new("src.iso", build(&trees[t], &lays[t]).bytes).handle()
                                };
                                u.answer(a, h);
                            } else {
                                let (f, d) = (FileNode::new("o.iso", Vec::new()), DirNode::new("out"));
                                let c = chosen.ok_or("a destination is asked for before a source")?;
                                let h = if a.what == "showSaveFilePicker" { f.handle() } else { d.handle() };
                                outs.push((c.0, c.1, f, d));
                                u.answer(a, h);
                            }
                        } else if matches!(s, Step::Click(_)) && tab != 1 && k < 2 {
                            chosen = None;
                        }
                    }
                }
            }
            u.run()?;
            n_runs.set(n_runs.get() + 1);
            o.steps(steps.len() as u64 + u.turns);
            o.state(&(tab, steps));
            let c = match tab {
                0 => Do::PackDir,
                1 => Do::Unpack,
                _ => Do::CompressDir,
            };
            for (i, (t, _, f, d)) in outs.iter().enumerate() {
                let w = World { src_dir: DirNode::new("src"), src_file: FileNode::new("src.iso", Vec::new()), out_dir: d.clone(), out_file: f.clone() };
                w.complete(c, &trees[*t]).map_err(|e| format!("{steps:?}: output {i}: {e}"))?;
            }
            if let Some(Step::Click(k)) = steps.iter().rev().find(|s| !matches!(s, Step::Wait(_) | Step::Dismiss(_))) {
                let is_output = if tab == 1 { *k == 1 } else { *k == 3 };
                if is_output && u.outcome(tab) != Some(true) {
                    return Err(format!("{steps:?}: the output is made, but {:?} is shown", u.text(tab)));
                }
            }
            Ok(true)
        };
        // depth first over all sequences; a waiting step only while something is going on
        let options: Vec<Step> = (0..if tab == 1 { 2 } else { 4 }).flat_map(|k| [Step::Click(k), Step::Dismiss(k)]).chain([Step::Wait(3), Step::Wait(40)]).collect();
        if first * 5 + second >= options.len() {
            return Ok(());
        }
        let mut stack: Vec<Vec<Step>> = vec![vec![options[first * 5 + second]]];
        while let Some(s) = stack.pop() {
            let ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| replay(&s, o))).map_err(|p| format!("{s:?}: panic: {}", panic_text(p.as_ref())))??;
            if !ok || s.len() >= depth {
                continue;
            }
            let outputs = s.iter().filter(|x| matches!(x, Step::Click(k) if *k == if tab == 1 { 1 } else { 3 })).count();
            for x in &options {
                if matches!(x, Step::Wait(_)) && (outputs == 0 || matches!(s.last(), Some(Step::Wait(_)))) {
                    continue;
                }
                let mut n = s.clone();
                n.push(*x);
                stack.push(n);
            }
        }
        if n_runs.get() > 0 {
            o.valid();
        }
        Ok(())
    });
}

/// The JavaScript modules of the front end, each function run by itself over every answer and order of events
pub fn glue(ctx: &Ctx, functions: &[(&'static str, &'static str)]) {
    let script = std::path::Path::new(&std::env::var_os("XMC_VERIF").expect("XMC_VERIF")).join("web/glue/glue.mjs");
    ctx.group("glue", functions.to_vec(), |&(module, function), o| {
        let out = std::process::Command::new("node").arg(&script).args(["/repo/xdvdfs-web/src", module, function]).output().expect("node");
        let v: serde_json::Value = serde_json::from_slice(&out.stdout).map_err(|_| format!("{module} {function}: never ends: {}", String::from_utf8_lossy(&out.stderr)))?;
        if let Some(e) = v["error"].as_str() {
            return Err(format!("{function} of {module}: {e}"));
        }
        let runs = v["runs"].as_u64().unwrap_or(0);
        for r in 0..runs {
            o.state(&(module, function, r));
        }
        o.steps(v["steps"].as_u64().unwrap_or(0));
        o.outcome(function);
        o.valid();
        Ok(())
    });
}

#[allow(unused)]
fn unused(_: BTreeMap<u8, u8>) {}
