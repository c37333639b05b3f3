PROPERTY = "C05"
NEEDS = "an image whose data ends (after layout) with a file of a multiple of 64 KiB ending in 64 KiB of zero bytes"
BREAKS = "the repacked image is cut before the zero bytes, its last file cannot be read"
EDITS = [("xdvdfs-core/src/write/fs/xdvdfs.rs",
"""        let copied = std::io::copy(&mut src.get_mut().by_ref().take(size), dest)
            .map_err(XDVDFSFilesystemError::BlockDevWriteErr)?;
""",
"""        let mut source = src.get_mut().by_ref().take(size);
        let mut buf = alloc::vec![0; 64 * 1024];
        let mut copied = 0;
        loop {
            let len = Read::read(&mut source, &mut buf)
                .map_err(XDVDFSFilesystemError::BlockDevReadErr)?;
            if len == 0 {
                break;
            }

            // Leave holes in the output for large runs of zeroes
            let data = &buf[..len];
            if len == buf.len() && data.iter().all(|b| *b == 0) {
                dest.seek(SeekFrom::Current(len as i64))
                    .map_err(XDVDFSFilesystemError::BlockDevWriteErr)?;
            } else {
                std::io::Write::write_all(dest, data)
                    .map_err(XDVDFSFilesystemError::BlockDevWriteErr)?;
            }
            copied += len as u64;
        }
""")]
DEMO = """
from xd import *
d = scratch()
t = {"b": b"x" * 100 + bytes(5 * 65536 - 100)}
mktree(d + "/s", t)
need(run("pack", d + "/s", d + "/1.iso").returncode == 0, "pack")
need(run("pack", d + "/1.iso", d + "/2.iso").returncode == 0, "repack")
try: got = decode(d + "/2.iso")
except AssertionError as e: fail(str(e))
need(got == t, "contents differ")
"""
