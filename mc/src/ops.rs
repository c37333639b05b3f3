//! Every library operation as a function of (source, environment control), for C17 and C22.

use xdvdfs::blockdev::{BlockDeviceRead, OffsetWrapper};
use xdvdfs::layout::DirectoryEntryNode;
use xdvdfs::read::read_volume;
use xdvdfs::write::fs::{CisoSectorInput, DefaultCopier, FilesystemCopier, FilesystemHierarchy, RemapOverlayConfig, RemapOverlayFilesystem, SectorLinearBlockDevice, SectorLinearBlockFilesystem, StdIOCopier, XDVDFSFilesystem};
use xdvdfs::write::img::create_xdvdfs_image;

use std::sync::Arc;

use crate::dev::*;
use crate::img::*;
use crate::model::*;
use crate::repack::Src;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Open,
    RootDirent,
    Walk,
    Scan,
    Tree,
    Lookup(String),
    ReadAll(String),
    ReadBuf(String, usize),
    ReadOff(String, u64, u64),
    Checksum,
    Probe,
    /// open, list and read everything through the offset wrapper over a stream
    ProbeTree(Chunk),
    Pack,
    PackDyn,
    PackStream(Chunk),
    RepackDefault,
    RepackWrapped(Chunk),
    RepackStd(Chunk),
    RepackStream(Chunk),
    Remap(usize),
    Linear,
    LinearImage,
}

pub const RULES: [&[(&str, &str)]; 5] = [
    &[("**", "/{0}")],
    &[("{*,**/*}", "/x/{1}")],
    &[("b", "/y/z"), ("**/*.x", "/{0}")],
    &[("**", "/{0}"), ("!b", "")],
    &[("**/*", "/{0}.q")],
];

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Val {
    Image(Vec<u8>),
    Text(String),
}

pub fn show(n: &DirectoryEntryNode) -> String {
    let s: Result<_, xdvdfs::util::Error<()>> = n.name_str();
    format!("{:?} {:?} {}", n.node, s.unwrap(), n.offset)
}

fn e<E: std::fmt::Debug>(e: E) -> String {
    format!("{e:?}")
}

fn everything<D: BlockDeviceRead>(dev: &mut D) -> Result<String, String>
where
    D::ReadError: std::fmt::Debug,
{
    let vol = run!(read_volume(dev)).map_err(e)?;
    let tree = run!(vol.root_table.file_tree(dev)).map_err(e)?;
    let mut out = String::new();
    for (p, n) in &tree {
        out += &format!("{p}/{}\n", show(n));
        if !n.node.dirent.is_directory() {
            let d = run!(n.node.dirent.read_data_all(dev)).map_err(e)?;
            out += &format!("{:x}\n", data_hash(&d));
        }
    }
    Ok(out)
}

pub fn perform(op: &Op, tree: &Dir, image: &[u8], ctl: &Arc<Ctl>) -> Result<Val, String> {
    let text = |s: String| Ok(Val::Text(s));
    let mut dev = Dev::ctl(image.to_vec(), ctl.clone());
    dev.read_only = true;
    match op {
        Op::Pack => {
            let mut fs = MemFs::ctl(tree, ctl.clone());
            let mut out = Dev::ctl(vec![], ctl.clone());
            run!(create_xdvdfs_image(&mut fs, &mut out, |_| {})).map_err(e)?;
            return Ok(Val::Image(out.data));
        }
        Op::PackDyn => {
            // the same through trait objects
            let mut fs = BoxFs(Box::new(MemFs::ctl(tree, ctl.clone())), Box::new(MemFs::ctl(tree, ctl.clone())));
            let mut out = Dev::ctl(vec![], ctl.clone());
            run!(create_xdvdfs_image(&mut fs, &mut out, |_| {})).map_err(e)?;
            return Ok(Val::Image(out.data));
        }
        Op::PackStream(c) => {
            let mut fs = MemFs::ctl(tree, ctl.clone());
            let mut out = IoDev::ctl(vec![], ctl.clone(), *c);
            run!(create_xdvdfs_image(&mut fs, &mut out, |_| {})).map_err(e)?;
            return Ok(Val::Image(out.data));
        }
        Op::RepackDefault => {
            let mut fs = run!(XDVDFSFilesystem::<_, Dev, DefaultCopier<_, _>>::new(dev)).ok_or("not opened")?;
            let mut out = Dev::ctl(vec![], ctl.clone());
            run!(create_xdvdfs_image(&mut fs, &mut out, |_| {})).map_err(e)?;
            return Ok(Val::Image(out.data));
        }
        Op::RepackWrapped(c) => {
            let src = run!(OffsetWrapper::new(Src(IoDev::ctl(image.to_vec(), ctl.clone(), *c)))).map_err(e)?;
            let mut fs = run!(XDVDFSFilesystem::<_, Dev, DefaultCopier<_, _>>::new(src)).ok_or("not opened")?;
            let mut out = Dev::ctl(vec![], ctl.clone());
            run!(create_xdvdfs_image(&mut fs, &mut out, |_| {})).map_err(e)?;
            return Ok(Val::Image(out.data));
        }
        Op::RepackStd(c) => {
            let src = run!(OffsetWrapper::new(Src(IoDev::ctl(image.to_vec(), ctl.clone(), *c)))).map_err(e)?;
            let mut fs = run!(XDVDFSFilesystem::<_, IoDev, StdIOCopier<_, _>>::new(src)).ok_or("not opened")?;
            let mut out = IoDev::ctl(vec![], ctl.clone(), *c);
            run!(create_xdvdfs_image(&mut fs, &mut out, |_| {})).map_err(e)?;
            return Ok(Val::Image(out.data));
        }
        Op::RepackStream(c) => {
            let src = Src(IoDev::ctl(image.to_vec(), ctl.clone(), *c));
            let mut fs = run!(XDVDFSFilesystem::<_, IoDev, StdIOCopier<_, _>>::new(src)).ok_or("not opened")?;
            let mut out = IoDev::ctl(vec![], ctl.clone(), *c);
            run!(create_xdvdfs_image(&mut fs, &mut out, |_| {})).map_err(e)?;
            return Ok(Val::Image(out.data));
        }
        Op::Remap(r) => {
            let cfg = RemapOverlayConfig { map_rules: RULES[*r].iter().map(|(a, b)| (a.to_string(), b.to_string())).collect() };
            let mut fs = run!(RemapOverlayFilesystem::new(MemFs::ctl(tree, ctl.clone()), cfg)).map_err(e)?;
            let mut dump: Vec<String> = fs.dump().iter().map(|(a, b)| format!("{} -> {}", a.as_string(), b.as_string())).collect();
            dump.sort();
            let mut out = Dev::ctl(vec![], ctl.clone());
            run!(create_xdvdfs_image(&mut fs, &mut out, |_| {})).map_err(e)?;
            return text(format!("{dump:?} {:?}", tree_of(&out.data[..])?));
        }
        Op::Linear => {
            let mut fs = MemFs::ctl(tree, ctl.clone());
            return linear(&mut fs);
        }
        Op::LinearImage => {
            let mut fs = run!(XDVDFSFilesystem::<_, [u8], DefaultCopier<_, _>>::new(dev)).ok_or("not opened")?;
            return linear(&mut fs);
        }
        Op::ProbeTree(c) => {
            let mut w = run!(OffsetWrapper::new(Src(IoDev::ctl(image.to_vec(), ctl.clone(), *c)))).map_err(e)?;
            return text(everything(&mut w)?);
        }
        Op::Probe => {
            let w = run!(OffsetWrapper::new(dev)).map_err(e)?;
            return text(format!("{}", w.get_offset()));
        }
        _ => {}
    }
    let vol = run!(read_volume(&mut dev)).map_err(e)?;
    let root = vol.root_table;
    let d = &mut dev;
    match op {
        Op::Open => text(format!("{root:?}")),
        Op::RootDirent => text(run!(vol.root_dirent(d)).map_err(e)?.map_or("none".into(), |n| show(&n))),
        Op::Walk => text(run!(root.walk_dirent_tree(d)).map_err(e)?.iter().map(show).collect::<Vec<_>>().join("\n")),
        Op::Scan => {
            let mut it = run!(root.scan_dirent_tree(d)).map_err(e)?;
            let mut out = String::new();
            while let Some(n) = run!(it.next_entry()).map_err(e)? {
                out += &(show(&n) + "\n");
            }
            text(out)
        }
        Op::Tree => text(run!(root.file_tree(d)).map_err(e)?.iter().map(|(p, n)| format!("{p}/{}", show(n))).collect::<Vec<_>>().join("\n")),
        Op::Lookup(p) => text(show(&run!(root.walk_path(d, p)).map_err(e)?)),
        Op::ReadAll(p) => {
            let n = run!(root.walk_path(d, p)).map_err(e)?;
            let b = run!(n.node.dirent.read_data_all(d)).map_err(e)?;
            text(format!("{} {:x}", b.len(), data_hash(&b)))
        }
        Op::ReadBuf(p, len) => {
            let n = run!(root.walk_path(d, p)).map_err(e)?;
            let mut b = vec![0xa5; *len];
            let k = run!(n.node.dirent.read_data(d, &mut b)).map_err(e)?;
            text(format!("{k:?} {:x}", data_hash(&b)))
        }
        Op::ReadOff(p, off, len) => {
            let n = run!(root.walk_path(d, p)).map_err(e)?;
            let b = run!(n.node.dirent.read_data_offset(d, *len, *off)).map_err(e)?;
            text(format!("{} {:x}", b.len(), data_hash(&b)))
        }
        Op::Checksum => text(format!("{:02x?}", run!(xdvdfs::checksum::checksum(d, &vol)).map_err(e)?)),
        _ => unreachable!(),
    }
}

fn linear<F, E>(fs: &mut F) -> Result<Val, String>
where
    F: FilesystemHierarchy + FilesystemCopier<[u8], Error = E>,
    <F as FilesystemHierarchy>::Error: std::fmt::Debug,
    E: std::fmt::Debug + Send + Sync,
{
    use ciso::write::SectorReader;
    let mut dev = SectorLinearBlockDevice::default();
    let mut sl = SectorLinearBlockFilesystem::new(fs);
    run!(create_xdvdfs_image(&mut sl, &mut dev, |_| {})).map_err(e)?;
    let mut input = CisoSectorInput::new(dev, sl);
    let size = run!(input.size()).map_err(e)?;
    let mut out = Vec::new();
    for s in 0..size.div_ceil(2048) {
        out.extend_from_slice(&run!(input.read_sector(s as usize, 2048)).map_err(e)?);
    }
    Ok(Val::Image(out))
}

/// A file system behind the boxed trait objects
pub struct BoxFs(Box<dyn FilesystemHierarchy<Error = DevErr>>, Box<dyn FilesystemCopier<Dev, Error = DevErr>>);

#[maybe_async::maybe_async]
impl FilesystemHierarchy for BoxFs {
    type Error = DevErr;
    async fn read_dir(&mut self, p: &xdvdfs::write::fs::PathVec) -> Result<Vec<xdvdfs::write::fs::FileEntry>, DevErr> {
        FilesystemHierarchy::read_dir(&mut self.0, p).await
    }
}

#[maybe_async::maybe_async]
impl FilesystemCopier<Dev> for BoxFs {
    type Error = DevErr;
    async fn copy_file_in(&mut self, src: &xdvdfs::write::fs::PathVec, dest: &mut Dev, i: u64, o: u64, n: u64) -> Result<u64, DevErr> {
        FilesystemCopier::copy_file_in(&mut self.1, src, dest, i, o, n).await
    }
}

/// All operations that make sense for a tree
pub fn ops_for(tree: &Dir, chunks: &[Chunk]) -> Vec<Op> {
    let mut v = vec![Op::Open, Op::Walk, Op::Scan, Op::Tree, Op::Checksum, Op::Probe, Op::Pack, Op::PackDyn, Op::RepackDefault, Op::Linear, Op::LinearImage];
    if !tree.is_empty() {
        v.push(Op::RootDirent);
    }
    for c in chunks {
        v.extend([Op::ProbeTree(*c), Op::PackStream(*c), Op::RepackWrapped(*c), Op::RepackStd(*c), Op::RepackStream(*c)]);
    }
    for r in 0..RULES.len() {
        v.push(Op::Remap(r));
    }
    for (p, n) in walk(tree) {
        let p = p.join("/");
        v.push(Op::Lookup(p.clone()));
        if let Node::File { len, .. } = n {
            v.push(Op::ReadAll(p.clone()));
            v.push(Op::ReadBuf(p.clone(), len as usize));
            v.push(Op::ReadOff(p.clone(), len / 2, len));
        }
    }
    v
}

/// The independent answer to a fault-free run, where there is one here
pub fn expected(op: &Op, tree: &Dir, v: &Val) -> Result<(), String> {
    match (op, v) {
        (_, Val::Image(b)) => diff_flat(&flatten(tree), &tree_of(&b[..])?),
        (Op::Tree, Val::Text(s)) => {
            let n = s.lines().count();
            if n != count(tree) {
                return Err(format!("{n} entries listed, {} exist", count(tree)));
            }
            Ok(())
        }
        (Op::ReadAll(p), Val::Text(s)) => {
            let p: Vec<String> = p.split('/').map(|s| s.to_string()).collect();
            let Some(Node::File { id, len }) = find(tree, &p) else { return Err("model".into()) };
            let want = format!("{} {:x}", len, data_hash(&content(*id, *len)));
            if *s != want {
                return Err(format!("read {s}, expected {want}"));
            }
            Ok(())
        }
        _ => Ok(()),
    }
}
