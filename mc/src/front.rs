//! C26: the window of the desktop application: the real front end, whose calls run the real commands, and which gets their
//! events and replies in order.

use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, VecDeque};
use std::path::Path;
use std::rc::Rc;

use serde_json::Value;
use wasm_bindgen::host::{self, Later, Plan};
use wasm_bindgen::JsValue;

use crate::cli::*;
use crate::desktop::{invoke, Do, DO};
use crate::fw::*;
use crate::img::*;
use crate::model::*;
use crate::read::small_trees;
use crate::repack::OFFSETS;
use crate::web::User;

type Happened = (Vec<(String, Value)>, Value);
/// Command, source, destination; gives events and reply
type Backend = Rc<dyn Fn(&str, &str, &str) -> Happened>;

enum Delivery {
    Event(JsValue, JsValue),
    Reply(Later, JsValue),
}

struct Window {
    user: User,
    queue: Rc<RefCell<VecDeque<Delivery>>>,
    /// commands, sources, destinations
    calls: Rc<RefCell<Vec<(String, String, String)>>>,
    turns: u64,
}

impl Window {
    fn new(backend: Backend) -> Window {
        let queue: Rc<RefCell<VecDeque<Delivery>>> = Rc::default();
        let calls: Rc<RefCell<Vec<(String, String, String)>>> = Rc::default();
        let (q, c) = (queue.clone(), calls.clone());
        let user = User::of(
            Plan::default(),
            xdvdfs_web_tauri_harness::page,
            Rc::new(move |_, name, args| {
                if !["pack_image", "unpack_image", "compress_image"].contains(&name) {
                    return None;
                }
                let text = |i: usize| args.get(i).and_then(|v| v.as_string()).unwrap_or_else(|| panic!("argument {i} of {name} is no path"));
                let (src, dst) = (text(0), text(1));
                c.borrow_mut().push((name.into(), src.clone(), dst.clone()));
                let (events, reply) = backend(name, &src, &dst);
                let mut q = q.borrow_mut();
                for (e, v) in events {
                    let to = match e.as_str() {
                        "progress_callback" => args.get(2),
                        "compress_callback" => args.get(3),
                        _ => None,
                    };
                    if let Some(to) = to {
                        q.push_back(Delivery::Event(to.clone(), serde_wasm_bindgen::parsed(&v)));
                    }
                }
                let (p, later) = host::deferred();
                q.push_back(Delivery::Reply(later, serde_wasm_bindgen::parsed(&reply)));
                Some(Ok(p))
            }),
        );
        Window { user, queue, calls, turns: 0 }
    }
    /// A turn of the event loop, in which so many events arrive
    fn turn(&mut self, pace: usize) -> bool {
        self.turns += 1;
        for _ in 0..pace {
            let d = self.queue.borrow_mut().pop_front();
            match d {
                Some(Delivery::Event(f, v)) => {
                    host::call_function(&f, &[v]).expect("callback");
                }
                Some(Delivery::Reply(l, v)) => {
                    *l.borrow_mut() = Some(Ok(v));
                }
                None => break,
            }
            self.user.settle();
        }
        self.user.turn()
    }
    fn run(&mut self, pace: usize) -> Result<(), String> {
        while self.turn(pace) {
            if self.turns > 1_000_000 {
                return Err("the operation does not end".into());
            }
        }
        match self.user.overrun.take() {
            Some(e) => Err(e),
            None => Ok(()),
        }
    }
    /// Chooses source and destination
    fn start(&mut self, c: Do, src: &str, dst: &str) -> Result<(), String> {
        let tab = tab(c);
        let (open, k) = if c.from_image() { ("showOpenFilePicker", 1) } else { ("showDirectoryPicker", 0) };
        let u = &mut self.user;
        if c == Do::Unpack {
            u.pick(tab, 0, open, src.into())?;
            u.pick(tab, 1, "showDirectoryPicker", dst.into())?;
            return Ok(());
        }
        if !u.click(tab, k)?.is_empty() {
            return Err("a picker opens before the kind of source is chosen".into());
        }
        u.pick(tab, 2, open, src.into())?;
        u.pick(tab, 3, if tab == 0 { "showSaveFilePicker" } else { "showDirectoryPicker" }, dst.into())?;
        Ok(())
    }
}

fn tab(c: Do) -> usize {
    match c {
        Do::PackDir | Do::PackImage => 0,
        Do::Unpack => 1,
        _ => 2,
    }
}

fn commands(opt: Opt) -> Backend {
    Rc::new(move |cmd, src, dst| {
        let r = invoke(cmd, Path::new(src), Path::new(dst), &opt);
        let reply = match r.orderly() {
            Ok(()) => r.ran.out.lines().last().and_then(|l| serde_json::from_str::<Value>(l).ok()).map(|v| v["reply"].clone()).unwrap_or_default(),
            Err(e) => panic!("{cmd}: {e}"),
        };
        (r.events, reply)
    })
}

pub fn c26_window(ctx: &Ctx) {
    let (ops, m) = ("ops/tauri.js", "picker/tauri.js");
    crate::web::glue(ctx, &[(ops, "pack_image"), (ops, "unpack_image"), (ops, "compress_image"), (m, "showOpenFilePicker"), (m, "showSaveFilePicker"), (m, "showDirectoryPicker")]);

    let lays = layouts();
    let mut trees = small_trees(3);
    trees.extend(crate::fault::gallery());
    trees.extend(gal());
    trees.push((0..120).map(|i| (format!("{i:05}"), if i % 7 == 0 { Node::Dir(vec![("e".into(), Node::Dir(vec![])), ("f".into(), file(i, 77))]) } else { file(i, i) })).collect());
    trees.push(vec![("big".into(), file(7, (2 << 20) + 5)), ("b".into(), Node::Dir(vec![("x.x".into(), file(8, 70_000))]))]);
    let mut cases = Vec::new();
    for t in &trees {
        for c in DO {
            if c != Do::CompressTo {
                for pace in [1usize, 1 << 20] {
                    cases.push((t, c, pace));
                }
            }
        }
    }
    ctx.group("window", cases, |&(t, c, pace), o| {
        let d = ctx.scratch();
        let w = d.path();
        c.setup(w, t, &lays[pace % 3], OFFSETS[0]);
        let mut x = Window::new(commands(Opt::default()));
        x.start(c, &c.src(w).to_string_lossy(), &c.dst(w).to_string_lossy())?;
        x.run(pace)?;
        if x.user.outcome(tab(c)) != Some(true) {
            return Err(format!("the window shows {:?}", x.user.text(tab(c))));
        }
        c.complete(w, t)?;
        if count(t) > 0 && x.user.progress[tab(c)] < 1.0 {
            return Err(format!("the work is done, but the progress is shown as {}", x.user.progress[tab(c)]));
        }
        if x.calls.borrow().len() != 1 {
            return Err(format!("commands {:?}", x.calls.borrow()));
        }
        o.steps(x.turns);
        o.state(&(hash(t), c, pace));
        o.outcome(format!("{c:?}"));
        o.valid();
        Ok(())
    });

    // failing commands
    let mut cases = Vec::new();
    for c in DO {
        if c != Do::CompressTo {
            for how in 0..12usize {
                for pace in [1usize, 1 << 20] {
                    cases.push((c, how, pace));
                }
            }
        }
    }
    let t = gal()[1].clone();
    ctx.group("window-failures", cases, |&(c, how, pace), o| {
        let d = ctx.scratch();
        let w = d.path();
        c.setup(w, &t, &lays[0], 0);
        let mut src = c.src(w);
        let mut dst = c.dst(w);
        let mut opt = Opt { cwd: Some(w.to_path_buf()), ..Opt::default() };
        match how {
            0 => src = w.join("nothing"),
            1 => dst = w.join("no/such/place"),
            2 => dst = src.clone(),
            3 => {
                std::fs::write(w.join("junk"), vec![0x5a; 300_000]).unwrap();
                src = w.join("junk");
            }
            4 if c.from_image() => std::fs::File::options().write(true).open(&src).unwrap().set_len(33 * 2048 + 100).unwrap(),
            n => opt.fsize = Some([0u64, 1, 50, 2000, 4096, 66 * 1024, 100_000, 1 << 20][n % 8]),
        }
        let mut x = Window::new(commands(opt));
        x.start(c, &src.to_string_lossy(), &dst.to_string_lossy())?;
        x.run(pace)?;
        o.steps(x.turns);
        o.state(&(c, how, pace));
        match x.user.outcome(tab(c)) {
            None => return Err(format!("neither success nor an error is shown: {:?}", x.user.text(tab(c)))),
            Some(true) => {
                if how == 0 || how == 3 {
                    return Err("success is shown".into());
                }
                if dst == c.dst(w) {
                    c.complete(w, &t).map_err(|e| format!("success is shown, but {e}"))?;
                }
                o.outcome("success");
            }
            Some(false) => {
                o.fired();
                o.outcome("error");
            }
        }
        o.valid();
        Ok(())
    });

    clicks(ctx);
}

/// Every sequence of clicks and picks, with commands going on meanwhile. The commands are replayed from a recording.
fn clicks(ctx: &Ctx) {
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
    enum Step {
        Click(usize),
        Dismiss(usize),
        Wait(u8),
    }
    let depth = ctx.pick(6usize, 8);
    // a recording of every command on a file or folder, and of failures
    let t: Dir = vec![("a".into(), file(1, 100)), ("d".into(), Node::Dir(vec![("b".into(), file(2, 3000))]))];
    let mut tape: BTreeMap<(String, String), Happened> = BTreeMap::new();
    for c in DO {
        let d = ctx.scratch();
        let w = d.path();
        c.setup(w, &t, &layouts()[0], 0);
        let good = invoke(c.cmd(), &c.src(w), &c.dst(w), &Opt::default());
        let bad = invoke(c.cmd(), &w.join("nothing"), &c.dst(w), &Opt::default());
        let kind = if c.from_image() { "file" } else { "folder" };
        let reply = |r: &crate::desktop::Did| r.ran.out.lines().last().and_then(|l| serde_json::from_str::<Value>(l).ok()).map(|v| v["reply"].clone()).unwrap_or_default();
        tape.insert((c.cmd().into(), kind.into()), (good.events.clone(), reply(&good)));
        tape.insert((c.cmd().into(), format!("bad {kind}")), (bad.events.clone(), reply(&bad)));
    }
    let tape = Rc::new(tape).as_ref().clone();
    let mut cases = Vec::new();
    for tab in 0..3usize {
        for first in 0..2usize {
            for second in 0..5usize {
                cases.push((tab, first, second));
            }
        }
    }
    ctx.group("window-clicks", cases, |&(tab, first, second), o| {
        let n_runs = Cell::new(0u64);
        let replay = |steps: &[Step], o: &mut Obs| -> Result<bool, String> {
            let tape = tape.clone();
            let backend: Backend = Rc::new(move |cmd, src, _| {
                let kind = src.trim_start_matches('/').rsplit_once(' ').map(|x| x.0).unwrap_or(src);
                tape.get(&(cmd.to_string(), kind.to_string())).cloned().unwrap_or_else(|| panic!("{cmd} is called with {src}"))
            });
            let mut x = Window::new(backend);
            let mut chosen: Option<String> = None;
            let mut want: Vec<(String, String)> = Vec::new();
            let mut n = 0;
            for s in steps {
                match *s {
                    Step::Wait(k) => {
                        for _ in 0..k {
                            if !x.turn(1) {
                                break;
                            }
                        }
                    }
                    Step::Click(k) | Step::Dismiss(k) => {
                        match x.user.buttons(tab).get(k) {
                            Some(b) if !b.disabled => {}
                            _ => return Ok(false),
                        }
                        let asks = x.user.click(tab, k)?;
                        if asks.is_empty() && matches!(s, Step::Dismiss(_)) {
                            return Ok(false);
                        }
                        if let (Step::Click(_), Some(a)) = (s, asks.first()) {
                            n += 1;
                            if k == if tab == 1 { 0 } else { 2 } {
                                let kind = if a.what == "showDirectoryPicker" { "folder" } else { "file" };
                                // every second source fails
                                let name = format!("/{}{kind} {n}", if n % 2 == 0 { "bad " } else { "" });
                                x.user.answer(a, name.as_str().into());
                                chosen = Some(name);
                            } else {
                                let to = format!("/out {n}");
                                want.push((chosen.clone().ok_or("a destination is asked for before a source")?, to.clone()));
                                x.user.answer(a, to.as_str().into());
                            }
                        } else if matches!(s, Step::Click(_)) && tab != 1 && k < 2 {
                            chosen = None;
                        }
                    }
                }
            }
            x.run(1)?;
            n_runs.set(n_runs.get() + 1);
            o.steps(steps.len() as u64 + x.turns);
            o.state(&(tab, steps));
            let calls: Vec<(String, String)> = x.calls.borrow().iter().map(|c| (c.1.clone(), c.2.clone())).collect();
            if calls != want {
                return Err(format!("{steps:?}: commands for {calls:?}, chosen were {want:?}"));
            }
            if let Some(Step::Click(k)) = steps.iter().rev().find(|s| !matches!(s, Step::Wait(_) | Step::Dismiss(_))) {
                let is_output = if tab == 1 { *k == 1 } else { *k == 3 };
                if is_output && x.user.outcome(tab) != Some(!want.last().unwrap().0.starts_with("/bad")) {
                    return Err(format!("{steps:?}: the last commands were for {want:?}, but {:?} is shown", x.user.text(tab)));
                }
            }
            Ok(true)
        };
        let options: Vec<Step> = (0..if tab == 1 { 2 } else { 4 }).flat_map(|k| [Step::Click(k), Step::Dismiss(k)]).chain([Step::Wait(2), Step::Wait(40)]).collect();
        if first * 5 + second >= options.len() {
            return Ok(());
        }
        let mut stack: Vec<Vec<Step>> = vec![vec![options[first * 5 + second]]];
        while let Some(s) = stack.pop() {
            let ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| replay(&s, o))).map_err(|p| format!("{s:?}: panic: {}", panic_text(p.as_ref())))??;
            if !ok || s.len() >= depth {
                continue;
            }
            let outputs = s.iter().filter(|x| matches!(x, Step::Click(k) if *k == if tab == 1 { 1 } else { 3 })).count();
            for x in &options {
                if matches!(x, Step::Wait(_)) && (outputs == 0 || matches!(s.last(), Some(Step::Wait(_)))) {
                    continue;
                }
                let mut n = s.clone();
                n.push(*x);
                stack.push(n);
            }
        }
        if n_runs.get() == 0 {
            return Ok(());
        }
        o.outcome(format!("tab {tab}"));
        o.valid();
        Ok(())
    });
}
