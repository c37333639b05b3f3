//! Block devices, streams and source file systems under the control of the explorer.

use std::collections::BTreeMap;
use std::fmt;
use std::io::{self, Read, Seek, SeekFrom, Write};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use std::sync::{Arc, Mutex};

use maybe_async::maybe_async;
use xdvdfs::blockdev::{BlockDeviceRead, BlockDeviceWrite};
use xdvdfs::write::fs::{FileEntry, FileType, FilesystemCopier, FilesystemHierarchy, PathVec};

use crate::model::*;

#[macro_export]
macro_rules! run {
    ($e:expr) => {{
        #[cfg(feature = "sync")]
        {
            $e
        }
        #[cfg(not(feature = "sync"))]
        {
            $crate::dev::block_on($e)
        }
    }};
}

#[cfg(not(feature = "sync"))]
pub fn block_on<F: std::future::Future>(f: F) -> F::Output {
    use std::task::{Context, Poll, Wake, Waker};
    struct W(AtomicBool);
    impl Wake for W {
        fn wake(self: Arc<Self>) {
            self.0.store(true, Relaxed);
        }
    }
    let w = Arc::new(W(AtomicBool::new(true)));
    let waker = Waker::from(w.clone());
    let mut cx = Context::from_waker(&waker);
    let mut f = std::pin::pin!(f);
    loop {
        if !w.0.swap(false, Relaxed) {
            panic!("future is pending and nobody will wake it");
        }
        if let Poll::Ready(v) = f.as_mut().poll(&mut cx) {
            return v;
        }
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum DevErr {
    Injected(u64),
    OutOfRange,
    NotFound(String),
    Io(String),
}

impl fmt::Display for DevErr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for DevErr {}

/// What happens to the k-th environment call
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Fault {
    None,
    /// the call fails and has no effect
    Fail(u64),
    /// every call from this one on fails
    FailFrom(u64),
    /// the stream call transfers nothing (end of file, or a full device)
    Zero(u64),
}

/// Shared control: counts calls, injects one fault, delays, and bounds the number of calls
pub struct Ctl {
    pub n: AtomicU64,
    pub fault: Mutex<Fault>,
    pub fired: AtomicBool,
    pub fuel: AtomicU64,
    /// number of Pending results before call k (0 beyond the end; cyclic if `cyclic`)
    pub pend: Mutex<Vec<u8>>,
    pub cyclic: AtomicBool,
    pub pendings: AtomicU64,
    pub log: Mutex<Option<Vec<String>>>,
}

impl Default for Ctl {
    fn default() -> Self {
        Ctl {
            n: AtomicU64::new(0),
            fault: Mutex::new(Fault::None),
            fired: AtomicBool::new(false),
            fuel: AtomicU64::new(u64::MAX),
            pend: Mutex::new(vec![]),
            cyclic: AtomicBool::new(false),
            pendings: AtomicU64::new(0),
            log: Mutex::new(None),
        }
    }
}

pub const FUEL: &str = "implementation does not terminate: environment call budget exhausted";

impl Ctl {
    pub fn new() -> Arc<Ctl> {
        Arc::new(Ctl::default())
    }
    pub fn with_fault(f: Fault) -> Arc<Ctl> {
        let c = Ctl::default();
        *c.fault.lock().unwrap() = f;
        Arc::new(c)
    }
    pub fn with_fuel(n: u64) -> Arc<Ctl> {
        let c = Ctl::default();
        c.fuel.store(n, Relaxed);
        Arc::new(c)
    }
    pub fn calls(&self) -> u64 {
        self.n.load(Relaxed)
    }
    pub fn fired(&self) -> bool {
        self.fired.load(Relaxed)
    }
    /// Accounts for one call, and decides whether it fails
    pub fn call(&self, what: &dyn Fn() -> String) -> Result<(), u64> {
        let k = self.n.fetch_add(1, Relaxed);
        if let Some(l) = self.log.lock().unwrap().as_mut() {
            l.push(what());
        }
        if k >= self.fuel.load(Relaxed) {
            panic!("{FUEL}");
        }
        let fail = match *self.fault.lock().unwrap() {
            Fault::None => false,
            Fault::Fail(f) => k == f,
            Fault::FailFrom(f) => k >= f,
            Fault::Zero(f) => k == f,
        };
        if fail {
            self.fired.store(true, Relaxed);
            return Err(k);
        }
        Ok(())
    }
    fn zero(&self, k: u64) -> io::Result<usize> {
        match *self.fault.lock().unwrap() {
            Fault::Zero(_) => Ok(0),
            _ => Err(inj(k)),
        }
    }
    #[cfg(not(feature = "sync"))]
    pub async fn gate(&self) {
        let k = self.n.load(Relaxed) as usize;
        let n = {
            let p = self.pend.lock().unwrap();
            if p.is_empty() {
                0
            } else if self.cyclic.load(Relaxed) {
                p[k % p.len()]
            } else {
                p.get(k).copied().unwrap_or(0)
            }
        };
        for _ in 0..n {
            self.pendings.fetch_add(1, Relaxed);
            let mut first = true;
            std::future::poll_fn(|cx| {
                if first {
                    first = false;
                    cx.waker().wake_by_ref();
                    std::task::Poll::Pending
                } else {
                    std::task::Poll::Ready(())
                }
            })
            .await
        }
    }
    #[cfg(feature = "sync")]
    pub fn gate(&self) {}
}

// ---------------------------------------------------------------- block device without std::io

/// Growable in-memory block device implementing the traits directly
pub struct Dev {
    pub data: Vec<u8>,
    pub ctl: Arc<Ctl>,
    pub read_only: bool,
    /// None: the device grows on writes
    pub writes: u64,
}

impl Dev {
    pub fn new(data: Vec<u8>) -> Dev {
        Dev { data, ctl: Ctl::new(), read_only: false, writes: 0 }
    }
    pub fn ctl(data: Vec<u8>, ctl: Arc<Ctl>) -> Dev {
        Dev { data, ctl, read_only: false, writes: 0 }
    }
}

fn bl(b: &[u8]) -> usize {
    <[u8]>::len(b)
}

#[maybe_async]
impl BlockDeviceRead for Dev {
    type ReadError = DevErr;
    async fn read(&mut self, offset: u64, buffer: &mut [u8]) -> Result<(), DevErr> {
        self.ctl.gate().await;
        self.ctl.call(&|| format!("read {offset}+{}", bl(buffer))).map_err(DevErr::Injected)?;
        let o = usize::try_from(offset).map_err(|_| DevErr::OutOfRange)?;
        let e = o.checked_add(bl(buffer)).ok_or(DevErr::OutOfRange)?;
        if e > self.data.len() {
            return Err(DevErr::OutOfRange);
        }
        buffer.copy_from_slice(&self.data[o..e]);
        Ok(())
    }
}

#[maybe_async]
impl BlockDeviceWrite for Dev {
    type WriteError = DevErr;
    async fn write(&mut self, offset: u64, buffer: &[u8]) -> Result<(), DevErr> {
        self.ctl.gate().await;
        self.ctl.call(&|| format!("write {offset}+{}", bl(buffer))).map_err(DevErr::Injected)?;
        assert!(!self.read_only, "write to a source device");
        self.writes += 1;
        let o = offset as usize;
        let e = o + bl(buffer);
        if self.data.len() < e {
            self.data.resize(e, 0);
        }
        self.data[o..e].copy_from_slice(buffer);
        Ok(())
    }
    async fn len(&mut self) -> Result<u64, DevErr> {
        self.ctl.gate().await;
        self.ctl.call(&|| "len".into()).map_err(DevErr::Injected)?;
        Ok(self.data.len() as u64)
    }
}

// ---------------------------------------------------------------- stream (std::io)

/// How a stream answers reads and writes
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Chunk {
    Full,
    /// at most n bytes per call
    Max(usize),
    /// every second call is interrupted
    Eintr,
    /// interrupted and at most n bytes
    EintrMax(usize),
}

/// In-memory std::io stream; implements Read, Write and Seek (and so BlockDeviceRead)
pub struct IoDev {
    pub data: Vec<u8>,
    pub pos: u64,
    pub ctl: Arc<Ctl>,
    pub chunk: Chunk,
    flip: bool,
}

impl IoDev {
    pub fn new(data: Vec<u8>) -> IoDev {
        Self::ctl(data, Ctl::new(), Chunk::Full)
    }
    pub fn ctl(data: Vec<u8>, ctl: Arc<Ctl>, chunk: Chunk) -> IoDev {
        IoDev { data, pos: 0, ctl, chunk, flip: false }
    }
    fn limit(&mut self, n: usize) -> io::Result<usize> {
        let (max, eintr) = match self.chunk {
            Chunk::Full => (usize::MAX, false),
            Chunk::Max(m) => (m, false),
            Chunk::Eintr => (usize::MAX, true),
            Chunk::EintrMax(m) => (m, true),
        };
        if eintr {
            self.flip = !self.flip;
            if self.flip {
                return Err(io::Error::from(io::ErrorKind::Interrupted));
            }
        }
        Ok(n.min(max))
    }
}

fn inj(k: u64) -> io::Error {
    io::Error::other(format!("injected at call {k}"))
}

impl Read for IoDev {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if let Err(k) = self.ctl.call(&|| format!("io read {}", bl(buf))) {
            return self.ctl.zero(k);
        }
        let want = self.limit(bl(buf))?;
        let p = (self.pos.min(self.data.len() as u64)) as usize;
        let n = want.min(self.data.len() - p);
        buf[..n].copy_from_slice(&self.data[p..p + n]);
        self.pos += n as u64;
        Ok(n)
    }
}

impl Write for IoDev {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if let Err(k) = self.ctl.call(&|| format!("io write {}", bl(buf))) {
            return self.ctl.zero(k);
        }
        let n = self.limit(bl(buf))?;
        let p = self.pos as usize;
        if self.data.len() < p + n {
            self.data.resize(p + n, 0);
        }
        self.data[p..p + n].copy_from_slice(&buf[..n]);
        self.pos += n as u64;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

impl Seek for IoDev {
    fn seek(&mut self, s: SeekFrom) -> io::Result<u64> {
        self.ctl.call(&|| format!("io seek {s:?}")).map_err(inj)?;
        let p = match s {
            SeekFrom::Start(p) => p as i64,
            SeekFrom::End(d) => self.data.len() as i64 + d,
            SeekFrom::Current(d) => self.pos as i64 + d,
        };
        if p < 0 {
            return Err(io::Error::from(io::ErrorKind::InvalidInput));
        }
        self.pos = p as u64;
        Ok(self.pos)
    }
}

#[maybe_async]
impl BlockDeviceWrite for IoDev {
    type WriteError = io::Error;
    async fn write(&mut self, offset: u64, buffer: &[u8]) -> io::Result<()> {
        self.ctl.gate().await;
        self.seek(SeekFrom::Start(offset))?;
        self.write_all(buffer)
    }
    async fn len(&mut self) -> io::Result<u64> {
        self.ctl.gate().await;
        self.ctl.call(&|| "len".into()).map_err(inj)?;
        Ok(self.data.len() as u64)
    }
}

// ---------------------------------------------------------------- source file system

pub fn comps(p: &PathVec) -> Vec<String> {
    p.iter().cloned().collect()
}

pub fn find<'a>(root: &'a Dir, p: &[String]) -> Option<&'a Node> {
    let (first, rest) = p.split_first()?;
    let n = root.iter().find(|(n, _)| n == first).map(|(_, x)| x)?;
    if rest.is_empty() {
        return Some(n);
    }
    match n {
        Node::Dir(d) => find(d, rest),
        _ => None,
    }
}

pub fn subdir<'a>(root: &'a Dir, p: &[String]) -> Option<&'a Dir> {
    if p.is_empty() {
        return Some(root);
    }
    match find(root, p)? {
        Node::Dir(d) => Some(d),
        _ => None,
    }
}

pub struct MemFs {
    pub root: Dir,
    pub ctl: Arc<Ctl>,
}

impl MemFs {
    pub fn new(root: &Dir) -> MemFs {
        MemFs { root: root.clone(), ctl: Ctl::new() }
    }
    pub fn ctl(root: &Dir, ctl: Arc<Ctl>) -> MemFs {
        MemFs { root: root.clone(), ctl }
    }
}

fn listing(d: &Dir) -> Vec<FileEntry> {
    d.iter()
        .map(|(n, x)| FileEntry {
            name: n.clone(),
            file_type: if matches!(x, Node::Dir(_)) { FileType::Directory } else { FileType::File },
            len: if let Node::File { len, .. } = x { *len } else { 4096 },
        })
        .collect()
}

#[maybe_async]
impl FilesystemHierarchy for MemFs {
    type Error = DevErr;
    async fn read_dir(&mut self, path: &PathVec) -> Result<Vec<FileEntry>, DevErr> {
        self.ctl.gate().await;
        self.ctl.call(&|| format!("read_dir {}", path.as_string())).map_err(DevErr::Injected)?;
        let d = subdir(&self.root, &comps(path)).ok_or_else(|| DevErr::NotFound(path.as_string()))?;
        Ok(listing(d))
    }
}

#[maybe_async]
impl<W: BlockDeviceWrite + ?Sized> FilesystemCopier<W> for MemFs
where
    W::WriteError: fmt::Debug,
{
    type Error = DevErr;
    async fn copy_file_in(&mut self, src: &PathVec, dest: &mut W, input_offset: u64, output_offset: u64, size: u64) -> Result<u64, DevErr> {
        self.ctl.gate().await;
        self.ctl.call(&|| format!("copy {}", src.as_string())).map_err(DevErr::Injected)?;
        let Some(Node::File { id, len }) = find(&self.root, &comps(src)) else {
            return Err(DevErr::NotFound(src.as_string()));
        };
        let size = size.min(len.saturating_sub(input_offset));
        if size == 0 {
            return Ok(0);
        }
        let mut buf = vec![0; size as usize];
        content_at(*id, input_offset, &mut buf);
        dest.write(output_offset, &buf).await.map_err(|e| DevErr::Io(format!("{e:?}")))?;
        Ok(size)
    }
}

// ---------------------------------------------------------------- virtual device for huge files

#[derive(Clone, Debug)]
pub enum Ext {
    Bytes(Vec<u8>),
    File { id: u64, start: u64, len: u64 },
}

/// Sparse device that records file contents as extents instead of bytes
#[derive(Default)]
pub struct VDev {
    pub ext: BTreeMap<u64, Ext>,
    pub len: u64,
}

impl VDev {
    fn put(&mut self, off: u64, e: Ext) {
        let n = match &e {
            Ext::Bytes(b) => b.len() as u64,
            Ext::File { len, .. } => *len,
        };
        if n == 0 {
            return;
        }
        self.len = self.len.max(off + n);
        self.ext.insert(off, e);
    }
    /// The contents at `off` if they lie in one byte extent or in a hole
    pub fn bytes(&self, off: u64, len: usize) -> Option<Vec<u8>> {
        if off + len as u64 > self.len {
            return None;
        }
        let mut out = vec![0; len];
        for (o, e) in self.ext.range(..off + len as u64) {
            match e {
                Ext::Bytes(b) => {
                    let s = (*o).max(off);
                    let t = (*o + b.len() as u64).min(off + len as u64);
                    if s < t {
                        out[(s - off) as usize..(t - off) as usize].copy_from_slice(&b[(s - o) as usize..(t - o) as usize]);
                    }
                }
                Ext::File { id, start, len: fl } => {
                    let s = (*o).max(off);
                    let t = (*o + fl).min(off + len as u64);
                    if s < t {
                        content_at(*id, start + (s - o), &mut out[(s - off) as usize..(t - off) as usize]);
                    }
                }
            }
        }
        Some(out)
    }
}

impl crate::img::Get for VDev {
    fn get(&self, off: u64, len: usize) -> Option<Vec<u8>> {
        if len > 64 << 20 {
            return None;
        }
        self.bytes(off, len)
    }
    fn total(&self) -> u64 {
        self.len
    }
}

#[maybe_async]
impl BlockDeviceWrite for VDev {
    type WriteError = DevErr;
    async fn write(&mut self, offset: u64, buffer: &[u8]) -> Result<(), DevErr> {
        self.store(offset, buffer);
        Ok(())
    }
    async fn len(&mut self) -> Result<u64, DevErr> {
        Ok(self.len)
    }
}

#[maybe_async]
impl BlockDeviceRead for VDev {
    type ReadError = DevErr;
    async fn read(&mut self, offset: u64, buffer: &mut [u8]) -> Result<(), DevErr> {
        let b = self.bytes(offset, bl(buffer)).ok_or(DevErr::OutOfRange)?;
        buffer.copy_from_slice(&b);
        Ok(())
    }
}

impl VDev {
    /// Records a write; large writes of PLAIN content are recognised and joined
    pub fn store(&mut self, offset: u64, buffer: &[u8]) {
        if buffer.len() >= 1024 {
            let w = u64::from_le_bytes(buffer[..8].try_into().unwrap());
            let (id, start) = ((w >> 40) | PLAIN, (w & 0xff_ffff_ffff) << 3);
            let mut piece = [0u8; 8192];
            let same = buffer.chunks(8192).enumerate().all(|(i, c)| {
                let p = &mut piece[..c.len()];
                content_at(id, start + i as u64 * 8192, p);
                p == c
            });
            if same {
                self.len = self.len.max(offset + buffer.len() as u64);
                if let Some((o, Ext::File { id: i, start: s, len })) = self.ext.range_mut(..offset).next_back() {
                    if *i == id && *o + *len == offset && *s + *len == start {
                        *len += buffer.len() as u64;
                        return;
                    }
                }
                self.ext.insert(offset, Ext::File { id, start, len: buffer.len() as u64 });
                return;
            }
        }
        self.put(offset, Ext::Bytes(buffer.to_vec()));
        let held: usize = if self.ext.len() % 1024 == 0 { self.ext.values().map(|e| if let Ext::Bytes(b) = e { b.len() } else { 0 }).sum() } else { 0 };
        assert!(held < 256 << 20, "contents written to the image are not those of the file");
    }
    /// A volume with one directory: `files` in name order, each at its sector
    pub fn volume(files: &[(&str, u64, u64, u32)]) -> VDev {
        let mut t = Vec::new();
        for (i, (n, _, len, sector)) in files.iter().enumerate() {
            let size = (14 + n.len()).div_ceil(4) * 4;
            let next = if i + 1 < files.len() { (t.len() + size) / 4 } else { 0 };
            t.extend_from_slice(&0u16.to_le_bytes());
            t.extend_from_slice(&(next as u16).to_le_bytes());
            t.extend_from_slice(&sector.to_le_bytes());
            t.extend_from_slice(&(*len as u32).to_le_bytes());
            t.extend_from_slice(&[0x20, n.len() as u8]);
            t.extend_from_slice(n.as_bytes());
            while t.len() % 4 != 0 {
                t.push(0xff);
            }
        }
        assert!(t.len() <= 2048);
        let mut vd = vec![0u8; 2048];
        vd[..20].copy_from_slice(b"MICROSOFT*XBOX*MEDIA");
        vd[20..24].copy_from_slice(&33u32.to_le_bytes());
        vd[24..28].copy_from_slice(&(t.len() as u32).to_le_bytes());
        vd[2028..].copy_from_slice(b"MICROSOFT*XBOX*MEDIA");
        t.resize(2048, 0xff);
        let mut d = VDev::default();
        d.put(32 * 2048, Ext::Bytes(vd));
        d.put(33 * 2048, Ext::Bytes(t));
        for (_, id, len, sector) in files {
            d.put(*sector as u64 * 2048, Ext::File { id: id | PLAIN, start: 0, len: *len });
        }
        d
    }
}

/// A virtual volume as a stream
pub struct VIo(pub VDev, pub u64);

impl Read for VIo {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = (bl(buf) as u64).min(self.0.len.saturating_sub(self.1)) as usize;
        let b = self.0.bytes(self.1, n).unwrap_or_default();
        buf[..n].copy_from_slice(&b);
        self.1 += n as u64;
        Ok(n)
    }
}
impl Write for VIo {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let p = self.1;
        self.0.store(p, buf);
        self.1 += bl(buf) as u64;
        Ok(bl(buf))
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl Seek for VIo {
    fn seek(&mut self, s: SeekFrom) -> io::Result<u64> {
        self.1 = match s {
            SeekFrom::Start(p) => p,
            SeekFrom::End(d) => self.0.len.wrapping_add_signed(d),
            SeekFrom::Current(d) => self.1.wrapping_add_signed(d),
        };
        Ok(self.1)
    }
}
#[maybe_async]
impl BlockDeviceWrite for VIo {
    type WriteError = io::Error;
    async fn write(&mut self, offset: u64, buffer: &[u8]) -> io::Result<()> {
        self.0.store(offset, buffer);
        Ok(())
    }
    async fn len(&mut self) -> io::Result<u64> {
        Ok(self.0.len)
    }
}

/// Sparse device that holds the pages with anything but zeros
#[derive(Default)]
pub struct PageDev {
    pub pages: BTreeMap<u64, Vec<u8>>,
    pub len: u64,
    pos: u64,
}

impl PageDev {
    fn store(&mut self, mut off: u64, mut b: &[u8]) {
        self.len = self.len.max(off + bl(b) as u64);
        while !b.is_empty() {
            let (p, at) = (off / 4096, (off % 4096) as usize);
            let n = bl(b).min(4096 - at);
            if self.pages.contains_key(&p) || b[..n].iter().any(|x| *x != 0) {
                self.pages.entry(p).or_insert_with(|| vec![0; 4096])[at..at + n].copy_from_slice(&b[..n]);
            }
            off += n as u64;
            b = &b[n..];
        }
    }
}

impl crate::img::Get for PageDev {
    fn get(&self, off: u64, len: usize) -> Option<Vec<u8>> {
        if off + len as u64 > self.len || len > 64 << 20 {
            return None;
        }
        let mut out = vec![0; len];
        for (i, x) in out.iter_mut().enumerate() {
            let o = off + i as u64;
            if let Some(p) = self.pages.get(&(o / 4096)) {
                *x = p[(o % 4096) as usize];
            }
        }
        Some(out)
    }
    fn total(&self) -> u64 {
        self.len
    }
}
impl Write for PageDev {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let p = self.pos;
        self.store(p, buf);
        self.pos += bl(buf) as u64;
        Ok(bl(buf))
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl Seek for PageDev {
    fn seek(&mut self, s: SeekFrom) -> io::Result<u64> {
        self.pos = match s {
            SeekFrom::Start(p) => p,
            SeekFrom::End(d) => self.len.wrapping_add_signed(d),
            SeekFrom::Current(d) => self.pos.wrapping_add_signed(d),
        };
        Ok(self.pos)
    }
}
#[maybe_async]
impl BlockDeviceWrite for PageDev {
    type WriteError = io::Error;
    async fn write(&mut self, offset: u64, buffer: &[u8]) -> io::Result<()> {
        self.store(offset, buffer);
        Ok(())
    }
    async fn len(&mut self) -> io::Result<u64> {
        Ok(self.len)
    }
}

/// Read side only of a virtual volume
pub struct VSrc(pub VDev);
#[maybe_async]
impl BlockDeviceRead for VSrc {
    type ReadError = DevErr;
    async fn read(&mut self, offset: u64, buffer: &mut [u8]) -> Result<(), DevErr> {
        let b = self.0.bytes(offset, bl(buffer)).ok_or(DevErr::OutOfRange)?;
        buffer.copy_from_slice(&b);
        Ok(())
    }
}

pub struct BigFs(pub Dir);

#[maybe_async]
impl FilesystemHierarchy for BigFs {
    type Error = DevErr;
    async fn read_dir(&mut self, path: &PathVec) -> Result<Vec<FileEntry>, DevErr> {
        let d = subdir(&self.0, &comps(path)).ok_or_else(|| DevErr::NotFound(path.as_string()))?;
        Ok(listing(d))
    }
}

#[maybe_async]
impl FilesystemCopier<VDev> for BigFs {
    type Error = DevErr;
    async fn copy_file_in(&mut self, src: &PathVec, dest: &mut VDev, input_offset: u64, output_offset: u64, size: u64) -> Result<u64, DevErr> {
        let Some(Node::File { id, len }) = find(&self.0, &comps(src)) else {
            return Err(DevErr::NotFound(src.as_string()));
        };
        let size = size.min(len.saturating_sub(input_offset));
        dest.put(output_offset, Ext::File { id: *id, start: input_offset, len: size });
        Ok(size)
    }
}
