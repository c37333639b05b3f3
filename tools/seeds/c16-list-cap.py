PROPERTY = "C16"
NEEDS = "a directory of more than 1024 entries"
BREAKS = "the listing ends after 1024 entries"
FILES = ["fuseplay.py"]
EDITS = [("xdvdfs-fsd/src/img_fs.rs",
"""                    info!("[readdir] push record (inode = {inode}, idx = {idx}, name = {name})");
                    if reply.add(""",
"""                    info!("[readdir] push record (inode = {inode}, idx = {idx}, name = {name})");
                    // Bound the work done in one request
                    if idx >= 1024 || reply.add(""")]
DEMO = """
from xd import *
from fuseplay import Mount
d = scratch()
names = {b"e%04d" % i for i in range(1300)}
mktree(d + "/s", {n.decode(): b"" for n in names})
need(run("pack", d + "/s", d + "/o.iso").returncode == 0, "pack")
m = Mount(d + "/o.iso")
for size in (4096, 65536, 200):
    got = m.readdir(1, size)
    need(len(got) == len(set(got)), "an entry is listed twice")
    need(set(got) == names | {b".", b".."}, "%d entries listed" % len(got))
"""
