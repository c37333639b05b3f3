//! C16: the file system daemon, driven by FUSE requests without a kernel mount.
//!
//! The daemon obtains its device from a stand-in for `fusermount3` (this binary under that name),
//! which hands it one end of a socket pair. The harness plays the kernel on the other end.

use std::collections::BTreeMap;
use std::os::fd::{AsRawFd, FromRawFd, OwnedFd};
use std::os::unix::process::CommandExt;
use std::path::Path;
use std::process::{Child, Command, Stdio};

use crate::cli::{gal, write_at};
use crate::dev::find;
use crate::fw::*;
use crate::img::*;
use crate::model::*;
use crate::pack::*;
use crate::read::small_trees;
use crate::repack::OFFSETS;

const DEV_FD: i32 = 200;

/// Plays `fusermount3`: passes the device to the daemon
pub fn fusermount() -> i32 {
    if std::env::args().any(|a| a == "-h") {
        return 0;
    }
    let Some(comm) = std::env::var("_FUSE_COMMFD").ok().and_then(|s| s.parse::<i32>().ok()) else { return 1 };
    unsafe {
        let mut byte = [0u8];
        let mut iov = libc::iovec { iov_base: byte.as_mut_ptr() as *mut _, iov_len: 1 };
        let mut ctl = [0u64; 4];
        let mut m: libc::msghdr = std::mem::zeroed();
        m.msg_iov = &mut iov;
        m.msg_iovlen = 1;
        m.msg_control = ctl.as_mut_ptr() as *mut _;
        m.msg_controllen = libc::CMSG_SPACE(4) as usize;
        let c = libc::CMSG_FIRSTHDR(&m);
        (*c).cmsg_level = libc::SOL_SOCKET;
        (*c).cmsg_type = libc::SCM_RIGHTS;
        (*c).cmsg_len = libc::CMSG_LEN(4) as usize;
        *(libc::CMSG_DATA(c) as *mut i32) = DEV_FD;
        if libc::sendmsg(comm, &m, 0) != 1 {
            return 1;
        }
    }
    0
}

pub struct Mounted {
    fd: OwnedFd,
    child: Child,
    unique: u64,
    pub requests: u64,
    uid: u32,
    buf: Vec<u8>,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Attr {
    pub ino: u64,
    pub size: u64,
    pub dir: bool,
    pub mode: u32,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct DirEnt {
    pub ino: u64,
    pub off: u64,
    pub kind: u32,
    pub name: String,
}

/// A refusal, with its error number
type Reply<T> = Result<T, i32>;
type Out<T> = Result<T, String>;

fn u64at(b: &[u8], o: usize) -> u64 {
    u64::from_le_bytes(b[o..o + 8].try_into().unwrap())
}
fn u32at(b: &[u8], o: usize) -> u32 {
    u32::from_le_bytes(b[o..o + 4].try_into().unwrap())
}

impl Mounted {
    pub fn new(dir: &Path, image: &Path) -> Out<Mounted> {
        let bin = dir.join("bin");
        let mnt = dir.join("mnt");
        let _ = std::fs::create_dir(&bin);
        let _ = std::fs::create_dir(&mnt);
        let _ = std::os::unix::fs::symlink(std::env::current_exe().unwrap(), bin.join("fusermount3"));
        let mut fds = [0i32; 2];
        let (ours, theirs) = unsafe {
            assert_eq!(libc::socketpair(libc::AF_UNIX, libc::SOCK_SEQPACKET | libc::SOCK_CLOEXEC, 0, fds.as_mut_ptr()), 0, "socketpair");
            for f in fds {
                let n: libc::c_int = 1 << 20;
                for o in [libc::SO_SNDBUF, libc::SO_RCVBUF] {
                    libc::setsockopt(f, libc::SOL_SOCKET, o, &n as *const _ as *const _, 4);
                }
            }
            let tv = libc::timeval { tv_sec: 60, tv_usec: 0 };
            libc::setsockopt(fds[0], libc::SOL_SOCKET, libc::SO_RCVTIMEO, &tv as *const _ as *const _, std::mem::size_of::<libc::timeval>() as u32);
            (OwnedFd::from_raw_fd(fds[0]), OwnedFd::from_raw_fd(fds[1]))
        };
        let mut c = Command::new(std::env::var_os("XMC_FSD").expect("XMC_FSD"));
        c.args(["-o", "auto_unmount,nofork"]).arg(image).arg(&mnt);
        c.env_clear().env("PATH", &bin);
        c.stdin(Stdio::null()).stdout(Stdio::null()).stderr(std::fs::File::create(dir.join("stderr")).unwrap());
        let t = theirs.as_raw_fd();
        unsafe {
            c.pre_exec(move || {
                libc::alarm(300);
                let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                libc::setrlimit(libc::RLIMIT_CORE, &z);
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                if libc::dup2(t, DEV_FD) < 0 {
                    return Err(std::io::Error::last_os_error());
                }
                Ok(())
            });
        }
        let child = c.spawn().map_err(|e| format!("cannot start the daemon: {e}"))?;
        drop(theirs);
        let mut m = Mounted { fd: ours, child, unique: 1, requests: 0, uid: unsafe { libc::geteuid() }, buf: vec![0; 2 << 20] };
        let mut b = Vec::new();
        for v in [7u32, 8, 1 << 17, 0] {
            b.extend_from_slice(&v.to_le_bytes());
        }
        match m.call(26, 0, &b) {
            Ok(Ok(_)) => Ok(m),
            Ok(Err(e)) => Err(format!("mounting fails with error {e}")),
            Err(e) => Err(format!("mounting fails: {e}: {}", std::fs::read_to_string(dir.join("stderr")).unwrap_or_default())),
        }
    }

    /// Sends one request and receives its reply
    pub fn call(&mut self, op: u32, node: u64, body: &[u8]) -> Out<Reply<Vec<u8>>> {
        self.unique += 2;
        self.requests += 1;
        let mut b = Vec::with_capacity(40 + body.len());
        b.extend_from_slice(&(40 + body.len() as u32).to_le_bytes());
        b.extend_from_slice(&op.to_le_bytes());
        b.extend_from_slice(&self.unique.to_le_bytes());
        b.extend_from_slice(&node.to_le_bytes());
        b.extend_from_slice(&self.uid.to_le_bytes());
        b.extend_from_slice(&0u32.to_le_bytes());
        b.extend_from_slice(&std::process::id().to_le_bytes());
        b.extend_from_slice(&0u32.to_le_bytes());
        b.extend_from_slice(body);
        let fd = self.fd.as_raw_fd();
        let n = unsafe { libc::send(fd, b.as_ptr() as *const _, b.len(), libc::MSG_NOSIGNAL) };
        if n != b.len() as isize {
            return Err(format!("the daemon no longer takes requests: {}", std::io::Error::last_os_error()));
        }
        let n = loop {
            let n = unsafe { libc::recv(fd, self.buf.as_mut_ptr() as *mut _, self.buf.len(), 0) };
            if n < 0 && std::io::Error::last_os_error().kind() == std::io::ErrorKind::Interrupted {
                continue;
            }
            break n;
        };
        if n <= 0 {
            return Err(format!("the daemon does not reply to request {op} (died or hangs): {}", std::io::Error::last_os_error()));
        }
        let r = &self.buf[..n as usize];
        if r.len() < 16 || u32at(r, 0) as usize != r.len() || u64at(r, 8) != self.unique {
            return Err(format!("malformed reply of {} bytes to request {op}", r.len()));
        }
        let e = u32at(r, 4) as i32;
        Ok(if e != 0 { Err(-e) } else { Ok(r[16..].to_vec()) })
    }

    fn attr(b: &[u8]) -> Attr {
        let mode = u32at(b, 60);
        Attr { ino: u64at(b, 0), size: u64at(b, 8), dir: mode & libc::S_IFMT == libc::S_IFDIR, mode }
    }
    pub fn lookup(&mut self, parent: u64, name: &[u8]) -> Out<Reply<Attr>> {
        let mut b = name.to_vec();
        b.push(0);
        match self.call(1, parent, &b)? {
            Ok(r) => {
                let a = Self::attr(&r[40..]);
                if u64at(&r, 0) != a.ino {
                    return Err(format!("lookup of {:?} replies node {} with inode {}", String::from_utf8_lossy(name), u64at(&r, 0), a.ino));
                }
                Ok(Ok(a))
            }
            Err(e) => Ok(Err(e)),
        }
    }
    pub fn getattr(&mut self, ino: u64) -> Out<Reply<Attr>> {
        Ok(self.call(3, ino, &[])?.map(|r| Self::attr(&r[16..])))
    }
    pub fn open(&mut self, ino: u64, flags: u32, dir: bool) -> Out<Reply<()>> {
        let mut b = flags.to_le_bytes().to_vec();
        b.extend_from_slice(&[0; 4]);
        Ok(self.call(if dir { 27 } else { 14 }, ino, &b)?.map(|_| ()))
    }
    fn read_in(off: u64, size: u32) -> Vec<u8> {
        let mut b = vec![0; 8];
        b.extend_from_slice(&off.to_le_bytes());
        b.extend_from_slice(&size.to_le_bytes());
        b.extend_from_slice(&[0; 4]);
        b
    }
    pub fn read(&mut self, ino: u64, off: u64, size: u32) -> Out<Reply<Vec<u8>>> {
        self.call(15, ino, &Self::read_in(off, size))
    }
    pub fn readdir(&mut self, ino: u64, off: u64, size: u32) -> Out<Reply<Vec<DirEnt>>> {
        let r = match self.call(28, ino, &Self::read_in(off, size))? {
            Ok(r) => r,
            Err(e) => return Ok(Err(e)),
        };
        if r.len() > size as usize {
            return Err(format!("readdir replies {} bytes to a buffer of {size}", r.len()));
        }
        let mut v = Vec::new();
        let mut p = 0;
        while p + 24 <= r.len() {
            let n = u32at(&r, p + 16) as usize;
            if p + 24 + n > r.len() {
                return Err("readdir replies half an entry".into());
            }
            v.push(DirEnt { ino: u64at(&r, p), off: u64at(&r, p + 8), kind: u32at(&r, p + 20), name: String::from_utf8_lossy(&r[p + 24..p + 24 + n]).into_owned() });
            p += (24 + n).div_ceil(8) * 8;
        }
        Ok(Ok(v))
    }
    /// The whole directory from `off`, in pieces of the given sizes (repeated)
    pub fn list(&mut self, ino: u64, off: u64, sizes: &[u32]) -> Out<Reply<Vec<DirEnt>>> {
        let mut v: Vec<DirEnt> = Vec::new();
        let mut at = off;
        let mut i = 0;
        loop {
            let r = match self.readdir(ino, at, sizes[i % sizes.len()])? {
                Ok(r) => r,
                Err(e) => return Ok(Err(e)),
            };
            i += 1;
            let Some(l) = r.last() else { return Ok(Ok(v)) };
            at = l.off;
            v.extend(r);
            if v.len() > 100_000 {
                return Err("a listing does not end".into());
            }
        }
    }
}

impl Drop for Mounted {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

/// What was observed so far: entry (path as stored) -> inode
#[derive(Default)]
struct Seen(BTreeMap<Vec<String>, u64>);

impl Seen {
    fn put(&mut self, path: &[String], ino: u64) -> Out<()> {
        if ino <= 1 && !path.is_empty() {
            return Err(format!("/{} has inode {ino}", path.join("/")));
        }
        if let Some(old) = self.0.get(path) {
            if *old != ino {
                return Err(format!("/{} had inode {old} and now has {ino}", path.join("/")));
            }
            return Ok(());
        }
        if let Some((p, _)) = self.0.iter().find(|(_, i)| **i == ino) {
            return Err(format!("/{} and /{} share inode {ino}", path.join("/"), p.join("/")));
        }
        self.0.insert(path.to_vec(), ino);
        Ok(())
    }
}

fn check_attr(a: &Attr, n: &Node, what: &dyn Fn() -> String) -> Out<()> {
    match n {
        Node::Dir(_) if !a.dir => return Err(format!("{} is shown as a file", what())),
        Node::File { .. } if a.mode & libc::S_IFMT != libc::S_IFREG => return Err(format!("{} has mode {:o}", what(), a.mode)),
        Node::File { len, .. } if a.size != *len => return Err(format!("{} has size {} instead of {len}", what(), a.size)),
        _ => {}
    }
    if a.mode & 0o222 != 0 {
        return Err(format!("{} is writable: mode {:o}", what(), a.mode));
    }
    Ok(())
}

/// `list` is exactly the directory; `.` and `..` are optional. Observed inodes are recorded.
fn check_list(list: &[DirEnt], path: &[String], d: &Dir, s: &mut Seen) -> Out<()> {
    let mut got: BTreeMap<&str, &DirEnt> = BTreeMap::new();
    for e in list {
        if got.insert(&e.name, e).is_some() {
            return Err(format!("/{} lists {} twice", path.join("/"), e.name));
        }
    }
    got.remove(".");
    got.remove("..");
    for (n, x) in d {
        let Some(e) = got.remove(n.as_str()) else { return Err(format!("/{} does not list {n}", path.join("/"))) };
        let kind = if matches!(x, Node::Dir(_)) { libc::DT_DIR } else { libc::DT_REG } as u32;
        if e.kind != kind {
            return Err(format!("/{} lists {n} as kind {}", path.join("/"), e.kind));
        }
        let mut p = path.to_vec();
        p.push(n.clone());
        s.put(&p, e.ino)?;
    }
    if let Some((n, _)) = got.iter().next() {
        return Err(format!("/{} lists {n}, which is not there", path.join("/")));
    }
    Ok(())
}

fn flip_case(s: &str, k: usize) -> String {
    s.chars().enumerate().map(|(i, c)| if (i + k) % 2 == 0 { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect()
}

fn no_err<T>(r: Reply<T>, what: &dyn Fn() -> String) -> Out<T> {
    r.map_err(|e| format!("{} fails with error {e}", what()))
}

/// Looks at everything: lists every directory, looks every name up in several spellings
fn sweep(m: &mut Mounted, ino: u64, path: &mut Vec<String>, d: &Dir, s: &mut Seen) -> Out<()> {
    let l = m.list(ino, 0, &[4096])?;
    let l = no_err(l, &|| format!("listing /{}", path.join("/")))?;
    check_list(&l, path, d, s)?;
    for (k, (n, x)) in d.iter().enumerate() {
        path.push(n.clone());
        let mut id = 0;
        for spell in [n.clone(), flip_case(n, k), flip_case(n, k + 1)] {
            let a = m.lookup(ino, spell.as_bytes())?;
            let a = no_err(a, &|| format!("lookup of {spell:?} for /{}", path.join("/")))?;
            check_attr(&a, x, &|| format!("/{} by lookup", path.join("/")))?;
            s.put(path, a.ino)?;
            id = a.ino;
        }
        let a = m.getattr(id)?;
        let a = no_err(a, &|| format!("getattr of /{}", path.join("/")))?;
        if a.ino != id {
            return Err(format!("getattr of inode {id} replies inode {}", a.ino));
        }
        check_attr(&a, x, &|| format!("/{} by getattr", path.join("/")))?;
        match x {
            Node::Dir(c) => sweep(m, id, path, c, s)?,
            Node::File { id: cid, len } => {
                let r = m.read(id, 0, (*len as u32).min(100_000) + 1)?;
                let r = no_err(r, &|| format!("reading /{}", path.join("/")))?;
                let mut w = vec![0; (*len).min(100_001) as usize];
                content_at(*cid, 0, &mut w);
                if r != w {
                    return Err(format!("/{} reads {} bytes, differing from its {len} bytes", path.join("/"), r.len()));
                }
            }
        }
        path.pop();
    }
    absent(m, ino, path, d)
}

fn absent(m: &mut Mounted, ino: u64, path: &[String], d: &Dir) -> Out<()> {
    let mut probes: Vec<String> = vec!["nope".into(), "!".into(), "~~~".into(), "m".into()];
    if let Some((n, _)) = d.first() {
        probes.push(format!("{n}x"));
        probes.push(n.chars().take(n.chars().count() - 1).collect());
    }
    for p in probes {
        if p.is_empty() || p == "." || p == ".." || d.iter().any(|(n, _)| same_name(n, &p)) {
            continue;
        }
        match m.lookup(ino, p.as_bytes())? {
            Err(e) if e == libc::ENOENT => {}
            Err(e) => return Err(format!("lookup of absent {p:?} in /{} fails with error {e} instead of ENOENT", path.join("/"))),
            Ok(_) => return Err(format!("lookup of absent {p:?} in /{} succeeds", path.join("/"))),
        }
    }
    Ok(())
}

/// Requests of the sequences
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Req {
    /// look up the i-th path (its parent's inode must be known)
    Look(usize),
    /// the same in other case
    LookCase(usize),
    /// attributes of the i-th path
    Attr(usize),
    /// list the i-th directory
    List(usize),
    /// the next piece (one or two entries) of the listing of the i-th directory
    Piece(usize),
    Missing(usize),
    Read(usize),
}

fn seq_tree() -> Dir {
    vec![
        ("Aa".into(), file(1, 10)),
        ("b".into(), Node::Dir(vec![("Aa".into(), file(1, 10)), ("c".into(), Node::Dir(vec![("Aa".into(), file(2, 10))]))])),
        ("e".into(), Node::Dir(vec![])),
    ]
}

fn run_seq(m: &mut Mounted, t: &Dir, seq: &[Req]) -> Out<()> {
    let paths: Vec<(Vec<String>, Node)> = walk(t);
    let mut dirs: Vec<(Vec<String>, Dir)> = vec![(vec![], t.clone())];
    dirs.extend(paths.iter().filter_map(|(p, n)| if let Node::Dir(d) = n { Some((p.clone(), d.clone())) } else { None }));
    let mut s = Seen::default();
    s.0.insert(vec![], 1);
    let mut pieces: BTreeMap<usize, (u64, Vec<DirEnt>, bool)> = BTreeMap::new();
    for q in seq {
        match *q {
            Req::Look(i) | Req::LookCase(i) => {
                let (p, n) = &paths[i];
                let Some(parent) = s.0.get(&p[..p.len() - 1]).copied() else { continue };
                let name = p.last().unwrap();
                let name = if matches!(q, Req::LookCase(_)) { flip_case(name, 1) } else { name.clone() };
                let a = m.lookup(parent, name.as_bytes())?;
                let a = no_err(a, &|| format!("lookup of {name}"))?;
                check_attr(&a, n, &|| format!("/{}", p.join("/")))?;
                s.put(p, a.ino)?;
            }
            Req::Attr(i) => {
                let (p, n) = &paths[i];
                let Some(ino) = s.0.get(p).copied() else { continue };
                let a = m.getattr(ino)?;
                let a = no_err(a, &|| format!("getattr of /{}", p.join("/")))?;
                check_attr(&a, n, &|| format!("/{}", p.join("/")))?;
                s.put(p, a.ino)?;
            }
            Req::List(i) => {
                let (p, d) = &dirs[i];
                let Some(ino) = s.0.get(p).copied() else { continue };
                let l = m.list(ino, 0, &[4096])?;
                check_list(&no_err(l, &|| format!("listing /{}", p.join("/")))?, p, d, &mut s)?;
            }
            Req::Piece(i) => {
                let (p, d) = &dirs[i];
                let Some(ino) = s.0.get(p).copied() else { continue };
                let e = pieces.entry(i).or_default();
                if e.2 {
                    continue;
                }
                let r = m.readdir(ino, e.0, 64)?;
                let r = no_err(r, &|| format!("listing /{} from {}", p.join("/"), e.0))?;
                match r.last() {
                    Some(l) => {
                        e.0 = l.off;
                        e.1.extend(r);
                    }
                    None => {
                        e.2 = true;
                        check_list(&e.1, p, d, &mut s)?;
                    }
                }
            }
            Req::Missing(i) => {
                let (p, d) = &dirs[i];
                let Some(ino) = s.0.get(p).copied() else { continue };
                absent(m, ino, p, d)?;
            }
            Req::Read(i) => {
                let (p, n) = &paths[i];
                let Some(ino) = s.0.get(p).copied() else { continue };
                let Node::File { id, len } = n else { continue };
                for (off, size) in [(0u64, *len as u32), (3, 4), (*len - 1, 5), (*len, 5)] {
                    let r = m.read(ino, off, size)?;
                    let r = no_err(r, &|| format!("reading /{}", p.join("/")))?;
                    let c = content(*id, *len);
                    let w = &c[off as usize..(off as usize + size as usize).min(c.len())];
                    if r != w {
                        return Err(format!("/{} at {off} for {size} bytes is wrong", p.join("/")));
                    }
                }
            }
        }
    }
    // finish the unfinished listings, then look at everything
    for (i, (off, mut got, done)) in pieces {
        if !done {
            let (p, d) = &dirs[i];
            let l = m.list(s.0[p], off, &[64])?;
            got.extend(no_err(l, &|| "listing".into())?);
            check_list(&got, p, d, &mut s)?;
        }
    }
    sweep(m, 1, &mut vec![], t, &mut s)
}

/// Shortest buffer that holds any entry of the directory
fn min_buf(d: &Dir) -> u32 {
    d.iter().map(|(n, _)| n.len()).chain([2]).map(|n| (24 + n).div_ceil(8) * 8).max().unwrap() as u32
}

pub fn c16(ctx: &Ctx) {
    let lays = layouts();

    // all request sequences
    let t = seq_tree();
    // paths in order: Aa, b, b/Aa, b/c, b/c/Aa, e; directories: /, b, b/c, e
    let mut alpha = vec![Req::Look(0), Req::Look(1), Req::Look(2), Req::Look(3), Req::Look(4), Req::Look(5), Req::LookCase(0), Req::LookCase(2), Req::Attr(0), Req::Attr(2), Req::List(0), Req::List(1), Req::List(2), Req::List(3), Req::Piece(0), Req::Piece(1), Req::Missing(0), Req::Missing(3), Req::Read(0), Req::Read(4)];
    if ctx.thorough {
        alpha.extend([Req::Attr(1), Req::Attr(4), Req::Missing(1), Req::Read(2)]);
    }
    let imgs: Vec<Vec<u8>> = lays.iter().map(|l| build(&t, l).bytes).collect();
    // whether a request can be made after the others (its inode is known)
    let useful = |s: &[usize]| {
        let mut known = [true, false, false, false];
        for &i in s {
            let ok = match alpha[i] {
                Req::Look(0 | 1 | 5) | Req::LookCase(0) => true,
                Req::Look(2 | 3) | Req::LookCase(2) => known[1],
                Req::Look(4) => known[2],
                Req::List(d) | Req::Piece(d) | Req::Missing(d) => known[d],
                _ => true,
            };
            if !ok {
                return false;
            }
            match alpha[i] {
                Req::Look(1) => known[1] = true,
                Req::Look(3) => known[2] = true,
                Req::Look(5) => known[3] = true,
                Req::List(0) => {
                    known[1] = true;
                    known[3] = true;
                }
                Req::List(1) => known[2] = true,
                _ => {}
            }
        }
        true
    };
    let mut seqs: Vec<Vec<usize>> = sequences(alpha.len(), ctx.pick(3, 4)).into_iter().filter(|s| useful(s)).collect();
    seqs.retain(|s| !s.is_empty());
    // several sequences per daemon would hide orders of first contact: one daemon each
    let chunks: Vec<Vec<Vec<usize>>> = seqs.chunks(4).map(|c| c.to_vec()).collect();
    ctx.group("request-sequences", chunks, |c, o| {
        let d = ctx.scratch();
        for s in c {
            let q: Vec<Req> = s.iter().map(|&i| alpha[i]).collect();
            let l = (hash(s) % lays.len() as u64) as usize;
            std::fs::write(d.join("i.iso"), &imgs[l]).unwrap();
            let mut m = Mounted::new(d.path(), &d.join("i.iso"))?;
            run_seq(&mut m, &t, &q).map_err(|e| format!("after {q:?} (layout {l}): {e}"))?;
            o.steps(m.requests);
            o.state(s);
            o.valid();
        }
        Ok(())
    });

    // every small tree in every layout and at every partition offset
    let trees = small_trees(ctx.pick(3, 4));
    let mut cases = Vec::new();
    for t in &trees {
        for l in 0..lays.len() {
            cases.push((t, l));
        }
    }
    ctx.group("trees", cases, |&(t, l), o| {
        let d = ctx.scratch();
        write_at(&d.join("i.iso"), &build(t, &lays[l]).bytes, OFFSETS[(l + t.len()) % 4]);
        let mut m = Mounted::new(d.path(), &d.join("i.iso"))?;
        let mut s = Seen::default();
        sweep(&mut m, 1, &mut vec![], t, &mut s)?;
        sweep(&mut m, 1, &mut vec![], t, &mut s)?;
        o.steps(m.requests);
        o.state(&(hash(t), l));
        o.valid();
        Ok(())
    });

    // larger ones
    let mut big = gal();
    big.extend(crate::cli2::compress_trees());
    big.push((0..300).map(|i| (numbered(i, 12), if i % 7 == 0 { Node::Dir(vec![(numbered(i, 3), file(i as u64, 77)), ("e".into(), Node::Dir(vec![]))]) } else { file(i as u64, i as u64) })).collect());
    let mut deep: Dir = vec![("leaf".into(), file(9, 9))];
    for i in 0..30 {
        deep = vec![("d".into(), Node::Dir(deep)), ("f".into(), file(i, 10))];
    }
    big.push(deep);
    // equal subtrees: same names, sizes and contents everywhere
    let leafs: Dir = (0..3).map(|i| (format!("f{i}"), file(7, 100))).collect();
    big.push((0..4).map(|i| (format!("d{i}"), Node::Dir(vec![("x".into(), Node::Dir(leafs.clone())), ("y".into(), Node::Dir(leafs.clone()))]))).collect());
    // empty files have no data of their own
    big.push((0..5).map(|i| (format!("d{i}"), Node::Dir((0..5).map(|j| (format!("z{j}"), if j % 2 == 0 { file(0, 0) } else { Node::Dir(vec![]) })).collect()))).collect());
    let cases: Vec<(usize, usize)> = (0..big.len()).flat_map(|t| (0..lays.len()).map(move |l| (t, l))).collect();
    ctx.group("larger", cases, |&(t, l), o| {
        let d = ctx.scratch();
        write_at(&d.join("i.iso"), &build(&big[t], &lays[l]).bytes, OFFSETS[l % 4]);
        let mut m = Mounted::new(d.path(), &d.join("i.iso"))?;
        let mut s = Seen::default();
        sweep(&mut m, 1, &mut vec![], &big[t], &mut s)?;
        o.steps(m.requests);
        o.state(&(t, l));
        o.valid();
        Ok(())
    });

    // names of every character
    let cs: Vec<u8> = (1u8..=255).filter(|b| *b != b'/').collect();
    ctx.group("characters", cs.chunks(16).map(|c| c.to_vec()).collect(), |c, o| {
        for &b in c {
            let x = dec_char(b);
            let mut t: Dir = vec![(format!("p{x}q"), file(1, 5)), (format!("d{x}"), Node::Dir(vec![(format!("{x}in"), file(2, 3))]))];
            if x != '.' {
                t.push((x.to_string(), file(3, 1)));
            }
            let d = ctx.scratch();
            std::fs::write(d.join("i.iso"), build(&t, &lays[b as usize % 6]).bytes).unwrap();
            let mut m = Mounted::new(d.path(), &d.join("i.iso"))?;
            let mut s = Seen::default();
            sweep(&mut m, 1, &mut vec![], &t, &mut s)?;
            o.steps(m.requests);
            o.state(&b);
            o.valid();
        }
        Ok(())
    });

    // tables over sector ends
    let ends: Vec<(usize, usize)> = crate::read::sector_ends(false);
    ctx.group("sector-ends", ends.chunks(8).map(|c| c.to_vec()).collect(), |c, o| {
        for &(q, gap) in c {
            let t = crate::read::sector_end_tree(q, gap);
            let d = ctx.scratch();
            let lay = Lay { place: Place::Sorted, shape: Shape::Right, ..lays[(q + gap / 4) % 3].clone() };
            std::fs::write(d.join("i.iso"), build(&t, &lay).bytes).unwrap();
            let mut m = Mounted::new(d.path(), &d.join("i.iso"))?;
            let mut s = Seen::default();
            sweep(&mut m, 1, &mut vec![], &t, &mut s).map_err(|e| format!("{q} {gap}: {e}"))?;
            o.steps(m.requests);
            o.state(&(q, gap));
            o.valid();
        }
        Ok(())
    });

    // listings in pieces: every number of entries, buffer size and resume point
    let mut cases = Vec::new();
    for n in (0..=ctx.pick(24usize, 60)).chain([127, 128, 129, 300]) {
        for len in [1usize, 8, 9, 60] {
            if len == 1 && n > 60 {
                continue;
            }
            cases.push((n, len));
        }
    }
    ctx.group("listings", cases, |&(n, len), o| {
        let t: Dir = vec![("d".into(), Node::Dir((0..n).map(|i| (numbered(i, len.max(if len == 1 { 1 } else { 4 })).replace('.', "}"), if i % 3 == 1 { Node::Dir(vec![]) } else { file(i as u64, i as u64) })).collect())), ("x".into(), file(1, 1))];
        let Node::Dir(sub) = &t[0].1 else { unreachable!() };
        let d = ctx.scratch();
        std::fs::write(d.join("i.iso"), build(&t, &lays[n % 6]).bytes).unwrap();
        let mut m = Mounted::new(d.path(), &d.join("i.iso"))?;
        let mut s = Seen::default();
        let ino = no_err(m.lookup(1, b"d")?, &|| "lookup of d".into())?.ino;
        let path = vec!["d".to_string()];
        let b = min_buf(sub);
        let full = no_err(m.list(ino, 0, &[1 << 16])?, &|| "listing".into())?;
        check_list(&full, &path, sub, &mut s)?;
        let sizes: Vec<Vec<u32>> = vec![vec![b], vec![b + 1], vec![b + 7], vec![b + 8], vec![2 * b - 1], vec![2 * b], vec![2 * b + 1], vec![3 * b, b], vec![b, b, 4096], vec![1 << 16, b], vec![512], vec![1024], vec![4096]];
        for z in sizes.iter().filter(|z| z.iter().all(|x| *x >= b)) {
            let l = no_err(m.list(ino, 0, z)?, &|| format!("listing in pieces of {z:?}"))?;
            check_list(&l, &path, sub, &mut s).map_err(|e| format!("in pieces of {z:?}: {e}"))?;
            if l != full {
                return Err(format!("listing in pieces of {z:?} differs from the listing in one piece"));
            }
        }
        // resuming after every entry
        for k in 0..full.len() {
            for z in [b, 4096] {
                let l = no_err(m.list(ino, full[k].off, &[z])?, &|| format!("listing after entry {k}"))?;
                if l != full[k + 1..] {
                    return Err(format!("resumed after entry {k} ({}) with buffers of {z}: {} entries instead of the remaining {}", full[k].name, l.len(), full.len() - k - 1));
                }
            }
        }
        o.steps(m.requests);
        o.state(&(n, len));
        o.valid();
        Ok(())
    });

    // listings of up to as many entries as a table can hold
    let counts = [511usize, 512, 513, 1000, 1022, 1023, 1024, 1025, 1026, 1500, 2047, 2048, 2049, 4096, 5000, 8192, 10_000, 16_000];
    ctx.group("long-listings", counts.to_vec(), |&n, o| {
        let set: Vec<char> = (33..=255u8).map(dec_char).filter(|c| !matches!(*c, '.' | '/') && !c.is_ascii_lowercase()).collect();
        let sub: Dir = (0..n).map(|i| (format!("{}{}", set[i / 128], set[i % 128]), if i % 5 == 1 { Node::Dir(vec![]) } else { file(0, 0) })).collect();
        let t: Dir = vec![("d".into(), Node::Dir(sub.clone())), ("x".into(), file(1, 1))];
        let d = ctx.scratch();
        let lay = Lay { shape: Shape::Balanced, place: Place::Preorder, empty: EmptyDir::Size0, ..lays[n % 6].clone() };
        std::fs::write(d.join("i.iso"), build(&t, &lay).bytes).unwrap();
        let mut m = Mounted::new(d.path(), &d.join("i.iso"))?;
        let ino = no_err(m.lookup(1, b"d")?, &|| "lookup of d".into())?.ino;
        let path = vec!["d".to_string()];
        let full = no_err(m.list(ino, 0, &[1 << 16])?, &|| "listing".into())?;
        let mut seen: BTreeMap<&str, (u64, u32)> = BTreeMap::new();
        let mut inos = std::collections::BTreeSet::new();
        for e in &full {
            if !matches!(e.name.as_str(), "." | "..") && (seen.insert(&e.name, (e.ino, e.kind)).is_some() || !inos.insert(e.ino)) {
                return Err(format!("/{} lists {} twice, or its inode {}", path[0], e.name, e.ino));
            }
        }
        if seen.len() != n {
            return Err(format!("{} entries listed instead of {n}", seen.len()));
        }
        for (k, (name, x)) in sub.iter().enumerate() {
            let Some((i, kind)) = seen.get(name.as_str()) else { return Err(format!("{name} is not listed among {n}")) };
            if *kind != if matches!(x, Node::Dir(_)) { libc::DT_DIR } else { libc::DT_REG } as u32 {
                return Err(format!("{name} is listed as kind {kind}"));
            }
            if k % 97 == 0 || k + 3 > n {
                let a = no_err(m.lookup(ino, name.as_bytes())?, &|| format!("lookup of {name}"))?;
                check_attr(&a, x, &|| name.clone())?;
                if a.ino != *i {
                    return Err(format!("{name} is listed with inode {i} and looked up with {}", a.ino));
                }
            }
        }
        for z in [vec![4096u32], vec![1 << 15, 1 << 12], vec![24 * 1000 + 1]] {
            if n > 5000 && z[0] < 1 << 14 {
                continue;
            }
            if no_err(m.list(ino, 0, &z)?, &|| format!("listing in pieces of {z:?}"))? != full {
                return Err(format!("listing {n} entries in pieces of {z:?} differs from the listing in one piece"));
            }
        }
        for k in [1usize, 255, 256, 257, 511, 512, 1022, 1023, 1024, 1025, 2046, 2047, 2048, 4095, 4096, 8191, 8192, n - 1, n, n + 1] {
            if k >= full.len() {
                continue;
            }
            let l = no_err(m.readdir(ino, full[k].off, 320)?, &|| format!("listing after entry {k}"))?;
            let want = &full[k + 1..full.len().min(k + 1 + l.len())];
            if l != want || l.is_empty() && k + 1 < full.len() {
                return Err(format!("resumed after entry {k} of {n}: {} entries, not those that follow", l.len()));
            }
        }
        o.steps(m.requests);
        o.state(&n);
        o.valid();
        Ok(())
    });

    // entries whose positions agree in all but one bit, over the whole range of positions
    let mut cases = Vec::new();
    for base in [34u32, 37] {
        for k in 5..32u32 {
            for kind in 0..3usize {
                cases.push((base, k, kind));
            }
        }
    }
    ctx.group("far-apart", cases, |&(base, k, kind), o| {
        use std::os::unix::fs::FileExt;
        // two directories, whose tables are alike except for what `kind` says
        let far = base | 1 << k;
        if far == base {
            return Ok(());
        }
        let ent = |next: u16, sector: u32, size: u32, attr: u8, name: &[u8]| {
            let mut b = vec![0; 2];
            b.extend_from_slice(&next.to_le_bytes());
            b.extend_from_slice(&sector.to_le_bytes());
            b.extend_from_slice(&size.to_le_bytes());
            b.extend_from_slice(&[attr, name.len() as u8]);
            b.extend_from_slice(name);
            b.resize(b.len().div_ceil(4) * 4, 0xff);
            b
        };
        let (data1, data2) = (60u32, if kind == 0 { 61 } else { 60 | 1 << k.max(6) });
        let (size1, size2) = (5u32, if kind == 1 { 7u32 } else { 5 });
        let t1 = ent(0, data1, size1, 0x20, b"f");
        let t2 = ent(0, data2, size2, 0x20, b"f");
        let mut root = ent(4, base, t1.len() as u32, 0x10, b"a");
        root.extend(ent(0, far, t2.len() as u32, 0x10, b"b"));
        let d = ctx.scratch();
        let img = std::fs::File::create(d.join("i.iso")).unwrap();
        let vol = OFFSETS[(k % 4) as usize];
        let put = |s: u32, b: &[u8]| img.write_all_at(b, vol + s as u64 * 2048).unwrap();
        let end = far.max(data2).max(70) as u64 + 1;
        img.set_len(vol + end * 2048).map_err(|e| format!("sparse image of {end} sectors: {e}"))?;
        let mut vd = vec![0u8; 2048];
        vd[..20].copy_from_slice(b"MICROSOFT*XBOX*MEDIA");
        vd[20..24].copy_from_slice(&33u32.to_le_bytes());
        vd[24..28].copy_from_slice(&(root.len() as u32).to_le_bytes());
        vd[2028..].copy_from_slice(b"MICROSOFT*XBOX*MEDIA");
        put(32, &vd);
        for (s, t) in [(33, &root), (base, &t1), (far, &t2)] {
            let mut t = t.clone();
            t.resize(2048, 0xff);
            put(s, &t);
        }
        put(data1, b"first..");
        put(data2, b"another");
        let mut m = Mounted::new(d.path(), &d.join("i.iso"))?;
        let mut s = Seen::default();
        let first_listed = kind == 2;
        for round in 0..2 {
            for (dir, n, w) in [("a", size1, &b"first.."[..]), ("b", size2, b"another")] {
                let i = no_err(m.lookup(1, dir.as_bytes())?, &|| format!("lookup of {dir}"))?.ino;
                s.put(&[dir.into()], i)?;
                if first_listed {
                    let l = no_err(m.list(i, 0, &[4096])?, &|| format!("listing /{dir}"))?;
                    check_list(&l, &[dir.into()], &vec![("f".into(), file(0, n as u64))], &mut s)?;
                }
                let a = no_err(m.lookup(i, b"F")?, &|| format!("lookup in {dir}"))?;
                s.put(&[dir.into(), "f".into()], a.ino)?;
                let g = no_err(m.getattr(a.ino)?, &|| format!("getattr in {dir}"))?;
                if a.size != n as u64 || g.size != a.size || a.dir {
                    return Err(format!("/{dir}/f has size {} instead of {n}", a.size));
                }
                let r = no_err(m.read(a.ino, 0, 100)?, &|| format!("read in {dir}"))?;
                if r != w[..n as usize] {
                    return Err(format!("/{dir}/f reads {:?} instead of {:?} (round {round})", String::from_utf8_lossy(&r), String::from_utf8_lossy(&w[..n as usize])));
                }
            }
        }
        o.steps(m.requests);
        o.state(&(base, k, kind));
        o.valid();
        Ok(())
    });

    // reads: every size class, all ranges on small files and around boundaries on larger ones
    let mut cases = Vec::new();
    for len in (0..=ctx.pick(20u64, 40)).chain([2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 65536, 131072, 131073, 300_000]) {
        for l in [0usize, 2, 4] {
            cases.push((len, l));
        }
    }
    ctx.group("reads", cases, |&(len, l), o| {
        let t: Dir = vec![("a".into(), file(3, 3000)), ("f".into(), file(1, len)), ("z".into(), file(2, 100))];
        let d = ctx.scratch();
        write_at(&d.join("i.iso"), &build(&t, &lays[l]).bytes, OFFSETS[(len % 4) as usize]);
        let mut m = Mounted::new(d.path(), &d.join("i.iso"))?;
        let ino = no_err(m.lookup(1, b"f")?, &|| "lookup of f".into())?.ino;
        no_err(m.open(ino, 0, false)?, &|| "open".into())?;
        let c = content(1, len);
        let mut ranges: Vec<(u64, u32)> = Vec::new();
        if len <= 40 {
            for off in 0..=len + 2 {
                for z in 0..=len as u32 + 2 {
                    ranges.push((off, z));
                }
            }
        }
        let near: std::collections::BTreeSet<u64> = [0, 1, 5, 2047, 2048, 2049, 4096, 8191, 8192, 8193, 65535, 65536, 65537, 131071, 131072, 131073, 150_000, 200_000, 262_144, 300_000, len.saturating_sub(2049), len.saturating_sub(2048), len.saturating_sub(1), len, len + 1, len + 4096].into_iter().collect();
        for &off in &near {
            for &z in &near {
                if z <= 300_000 {
                    ranges.push((off, z as u32));
                }
            }
        }
        ranges.extend([(1 << 31, 10), ((1 << 32) - 1, 10), (1 << 32, 4096), ((1 << 32) + 1, 4096), (i64::MAX as u64, 4096)]);
        for (off, z) in ranges {
            let r = no_err(m.read(ino, off, z)?, &|| format!("read of {z} at {off}"))?;
            let a = off.min(len) as usize;
            let e = off.saturating_add(z as u64).min(len) as usize;
            if r != c[a..e.max(a)] {
                return Err(format!("read of {z} bytes at {off} of a file of {len}: {} bytes, expected {}", r.len(), e.max(a) - a));
            }
        }
        o.steps(m.requests);
        o.state(&(len, l));
        o.valid();
        Ok(())
    });

    // huge files in sparse images
    let mut cases = Vec::new();
    for len in [(1u64 << 31) - 1, 1 << 31, (1 << 31) + 5, (1 << 32) - 1] {
        for sector in [40u32, 0x0010_0000, 0x0080_0001] {
            cases.push((len, sector));
        }
    }
    ctx.group("huge-files", cases, |&(len, sector), o| {
        use std::os::unix::fs::FileExt;
        let files = [("a", 1u64, 5u64, 34u32), ("big", 2, len, sector)];
        let v = crate::dev::VDev::volume(&files);
        let d = ctx.scratch();
        let img = std::fs::File::create(d.join("i.iso")).unwrap();
        img.set_len(v.len).unwrap();
        img.write_all_at(&v.bytes(0, 35 * 2048).unwrap(), 0).unwrap();
        let marks: Vec<u64> = [0, 4096, (1 << 31) - 8192, (1 << 31) - 4096, 1 << 31, len - 4096].into_iter().filter(|m| m + 4096 <= len).collect();
        for m in &marks {
            let mut b = vec![0; 4096];
            content_at(2 | PLAIN, *m, &mut b);
            img.write_all_at(&b, sector as u64 * 2048 + m).unwrap();
        }
        drop(img);
        let mut m = Mounted::new(d.path(), &d.join("i.iso"))?;
        let a = no_err(m.lookup(1, b"big")?, &|| "lookup of big".into())?;
        if a.size != len || no_err(m.getattr(a.ino)?, &|| "getattr".into())?.size != len {
            return Err(format!("size {} instead of {len}", a.size));
        }
        for &k in &marks {
            let mut w = vec![0; 4096];
            content_at(2 | PLAIN, k, &mut w);
            for (x, z) in [(0u64, 4096usize), (1, 4095), (4000, 96)] {
                let r = no_err(m.read(a.ino, k + x, z as u32)?, &|| format!("read at {k}"))?;
                if r != w[x as usize..x as usize + z] {
                    return Err(format!("read of {z} at {} is wrong", k + x));
                }
            }
        }
        let r = no_err(m.read(a.ino, len - 10, 4096)?, &|| "read at the end".into())?;
        if r.len() != 10 {
            return Err(format!("read over the end returns {} bytes instead of 10", r.len()));
        }
        o.steps(m.requests);
        o.state(&(len, sector));
        o.valid();
        Ok(())
    });

    // every kind of contents
    let cc = crate::repack::content_cases();
    ctx.group("contents", cc.chunks(8).map(|c| c.to_vec()).collect(), |c, o| {
        for &(k, n) in c {
            let t = crate::repack::content_tree(k, n);
            let d = ctx.scratch();
            std::fs::write(d.join("i.iso"), build(&t, &lays[(n % 6) as usize]).bytes).unwrap();
            let mut m = Mounted::new(d.path(), &d.join("i.iso"))?;
            sweep(&mut m, 1, &mut vec![], &t, &mut Seen::default())?;
            o.steps(m.requests);
            o.state(&(k, n));
            o.valid();
        }
        Ok(())
    });

    // writing is refused, whatever the flags, and the image stays as it is
    ctx.group("read-only", (0..2usize).collect(), |&k, o| {
        let t = seq_tree();
        let d = ctx.scratch();
        let bytes = build(&t, &lays[k]).bytes;
        std::fs::write(d.join("i.iso"), &bytes).unwrap();
        let mut m = Mounted::new(d.path(), &d.join("i.iso"))?;
        let ino = no_err(m.lookup(1, b"Aa")?, &|| "lookup".into())?.ino;
        let dir = no_err(m.lookup(1, b"b")?, &|| "lookup".into())?.ino;
        let (w, rw, c, tr, ap, nb) = (libc::O_WRONLY as u32, libc::O_RDWR as u32, libc::O_CREAT as u32, libc::O_TRUNC as u32, libc::O_APPEND as u32, libc::O_NONBLOCK as u32);
        for bits in 0..64u32 {
            let mut f = 0;
            for (i, x) in [w, rw, c, tr, ap, nb].iter().enumerate() {
                if bits >> i & 1 == 1 {
                    f |= x;
                }
            }
            if f & 3 == 3 {
                continue;
            }
            let writes = f & (w | rw | tr) != 0;
            for (i, is_dir) in [(ino, false), (dir, true), (1, true)] {
                match m.open(i, f, is_dir)? {
                    Ok(_) if writes => return Err(format!("open of inode {i} with flags {f:o} succeeds")),
                    Err(e) if f & (w | rw | tr | c) == 0 => return Err(format!("open of inode {i} for reading (flags {f:o}) fails with error {e}")),
                    _ => {}
                }
                o.state(&(k, f, i));
            }
        }
        let z = |n: usize| vec![0u8; n];
        let named = |head: Vec<u8>, s: &[u8]| {
            let mut v = head;
            v.extend_from_slice(s);
            v
        };
        let mut wr = z(24);
        wr[16] = 4;
        let mut set = z(88);
        set[0] = 1 << 3;
        let reqs: Vec<(&str, u32, u64, Vec<u8>)> = vec![
            ("write", 16, ino, named(wr, b"abcd")),
            ("setattr", 4, ino, set),
            ("mknod", 8, 1, named(z(8), b"new\0")),
            ("mkdir", 9, 1, named(z(8), b"new\0")),
            ("unlink", 10, 1, b"Aa\0".to_vec()),
            ("rmdir", 11, 1, b"e\0".to_vec()),
            ("rename", 12, 1, named(1u64.to_le_bytes().to_vec(), b"Aa\0x\0")),
            ("link", 13, 1, named(ino.to_le_bytes().to_vec(), b"x\0")),
            ("symlink", 6, 1, b"x\0y\0".to_vec()),
            ("create", 35, 1, named(z(8), b"new\0")),
            ("setxattr", 21, ino, named(vec![1, 0, 0, 0, 0, 0, 0, 0], b"a\0b")),
        ];
        for (n, op, node, body) in reqs {
            if m.call(op, node, &body)?.is_ok() {
                return Err(format!("{n} succeeds on a mounted image"));
            }
        }
        sweep(&mut m, 1, &mut vec![], &t, &mut Seen::default())?;
        o.steps(m.requests);
        o.valid();
        if std::fs::read(d.join("i.iso")).unwrap() != bytes {
            return Err("the image changed".into());
        }
        Ok(())
    });

    // a truncated image: every answer is exact or an error, cut before or after it is mounted
    let wide: Dir = (0..120).map(|i| (numbered(i, 30), if i % 40 == 7 { Node::Dir((0..70).map(|j| (numbered(j, 40), file(j as u64, 3))).collect()) } else { file(i as u64, (i as u64 % 4) * 700) })).collect();
    let mut built = Vec::new();
    let mut cuts = std::collections::BTreeSet::new();
    for (k, t) in [gal()[1].clone(), wide].into_iter().enumerate() {
        for l in &lays[..ctx.pick(1, 2)] {
            let b = build(&t, l);
            let n = built.len();
            let mut at: std::collections::BTreeSet<usize> = (34..=b.bytes.len() / 2048).flat_map(|x| [x * 2048, x * 2048 - 1, x * 2048 + 1]).collect();
            if k == 0 || ctx.thorough {
                for (sec, size) in b.extents.values() {
                    let e = *sec as usize * 2048 + *size as usize;
                    at.extend([e, e - 1, e + 1]);
                }
            }
            for c in at {
                if c < b.bytes.len() {
                    cuts.extend([(n, c, false), (n, c, true)]);
                }
            }
            built.push((t.clone(), b.bytes));
        }
    }
    ctx.group("truncated", cuts.into_iter().collect(), |&(k, cut, late), o| {
        let (t, bytes) = &built[k];
        let d = ctx.scratch();
        std::fs::write(d.join("i.iso"), if late { &bytes[..] } else { &bytes[..cut] }).unwrap();
        let mut m = match Mounted::new(d.path(), &d.join("i.iso")) {
            Ok(m) => m,
            Err(_) if cut < 33 * 2048 => return Ok(()),
            Err(e) => return Err(e),
        };
        let mut s = Seen::default();
        if late {
            // known before, and still exact or refused afterwards
            sweep(&mut m, 1, &mut vec![], t, &mut s)?;
            std::fs::OpenOptions::new().write(true).open(d.join("i.iso")).unwrap().set_len(cut as u64).unwrap();
        }
        let mut todo: Vec<(u64, Vec<String>)> = vec![(1, vec![])];
        let mut refused = 0;
        while let Some((ino, p)) = todo.pop() {
            let Some(dir) = (if p.is_empty() { Some(t) } else { find(t, &p).and_then(|n| if let Node::Dir(d) = n { Some(d) } else { None }) }) else { continue };
            match m.list(ino, 0, &[4096])? {
                Ok(l) => check_list(&l, &p, dir, &mut s).map_err(|e| format!("image cut at {cut}: {e}"))?,
                Err(_) => refused += 1,
            }
            for (n, x) in dir {
                let mut q = p.clone();
                q.push(n.clone());
                let a = match m.lookup(ino, n.as_bytes())? {
                    Ok(a) => a,
                    Err(libc::ENOENT) => return Err(format!("image cut at {cut}: /{} is said not to exist", q.join("/"))),
                    Err(_) => {
                        refused += 1;
                        continue;
                    }
                };
                check_attr(&a, x, &|| format!("/{}", q.join("/")))?;
                s.put(&q, a.ino)?;
                match x {
                    Node::Dir(_) => todo.push((a.ino, q)),
                    Node::File { id, len } => {
                        for (off, z) in [(0u64, *len as u32), (*len / 2, *len as u32), (0, 1)] {
                            if let Ok(r) = m.read(a.ino, off, z)? {
                                let c = content(*id, *len);
                                let e = (off + z as u64).min(*len) as usize;
                                if r != c[off as usize..e] {
                                    return Err(format!("image cut at {cut}: /{} reads {} bytes at {off} instead of {}", q.join("/"), r.len(), e - off as usize));
                                }
                            }
                        }
                    }
                }
            }
        }
        o.steps(m.requests);
        if refused > 0 {
            o.fired();
        }
        o.state(&(k, cut, late));
        o.valid();
        Ok(())
    });
}

/// Damaged images: the daemon refuses to mount, or answers every request
pub fn c08_mounted(ctx: &Ctx) {
    let damaged = crate::malformed::damaged_gallery();
    ctx.group("mounted", (0..damaged.len()).collect(), |&k, o| {
        let d = ctx.scratch();
        std::fs::write(d.join("i.iso"), &damaged[k].1).unwrap();
        let mut m = match Mounted::new(d.path(), &d.join("i.iso")) {
            Ok(m) => m,
            Err(e) => {
                let said = std::fs::read_to_string(d.join("stderr")).unwrap_or_default();
                o.outcome("refused");
                o.steps(1);
                if said.contains("panicked") || e.contains("os error 11") {
                    return Err(format!("{}: {e}", damaged[k].0));
                }
                o.valid();
                return Ok(());
            }
        };
        let mut go = || -> Out<()> {
            let mut todo: Vec<(u64, u32)> = vec![(1, 0)];
            let mut seen = 0;
            while let Some((ino, depth)) = todo.pop() {
                let _ = m.getattr(ino)?;
                for n in [&b"a"[..], b"b", b"zz", b"\xff", b"D", b""] {
                    let _ = m.lookup(ino, n)?;
                }
                for (off, z) in [(0u64, 4096u32), (1, 1), (1 << 40, 4096)] {
                    let _ = m.read(ino, off, z)?;
                }
                let mut names = Vec::new();
                let mut at = 0;
                for _ in 0..8 {
                    let Ok(l) = m.readdir(ino, at, 2048)? else { break };
                    let Some(x) = l.last() else { break };
                    at = x.off;
                    names.extend(l);
                }
                let _ = m.readdir(ino, 1 << 40, 2048)?;
                for e in names.into_iter().filter(|e| e.name != "." && e.name != "..").take(40) {
                    seen += 1;
                    if let Ok(a) = m.lookup(ino, e.name.as_bytes())? {
                        if depth < 5 && seen < 200 {
                            todo.push((a.ino, depth + 1));
                        }
                    }
                }
            }
            Ok(())
        };
        go().map_err(|e| format!("{}: {e}: {}", damaged[k].0, std::fs::read_to_string(d.join("stderr")).unwrap_or_default()))?;
        o.steps(m.requests);
        o.outcome("mounted");
        o.state(&k);
        o.valid();
        Ok(())
    });
}
