PROPERTY = "C03"
NEEDS = "a looked-up path whose second-to-last component names a file and whose last component is a bare name"
BREAKS = "looking up a path that passes through a file yields the file instead of reporting absence"
EDITS = [("xdvdfs-core/src/read.rs",
"""            if path_iter.peek().is_none() {
                return Ok(dirent);
            }

            dirent_tab = dirent_data
                .dirent_table()
                .ok_or(util::Error::IsNotDirectory)?;
""",
"""            // Nothing can be nested inside of a file
            let subtable = dirent_data.dirent_table();
            let (Some(subtable), Some(_)) = (subtable, path_iter.peek()) else {
                return Ok(dirent);
            };

            dirent_tab = subtable;
""")]
DEMO = """
from xd import *
d = scratch()
mktree(d + "/s", {"a/f": b"hello", "g": b"x"})
need(run("pack", d + "/s", d + "/o.iso").returncode == 0, "pack")
need(run("copy-out", d + "/o.iso", "/a/f", d + "/ok").returncode == 0, "copy-out of a file")
for p in ("/a/f/x", "/g/y", "/g/y/z"):
    r = run("copy-out", d + "/o.iso", p, d + "/bad")
    need(r.returncode != 0, "copy-out of %s succeeded" % p)
    need(run("md5", d + "/o.iso", p).returncode != 0, "md5 of %s succeeded" % p)
"""
