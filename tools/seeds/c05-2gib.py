PROPERTY = "C05"
NEEDS = "a source image laid out by another tool, with two directories of equal size whose tables lie next to each other in the same 64-sector window, listed in turn"
BREAKS = ""
EDITS = [("xdvdfs-core/src/write/fs/xdvdfs.rs",
"""                len: dirent.node.dirent.data.size as u64,
            });""",
"""                len: dirent.node.dirent.data.size as u64 & 0x7fff_ffff,
            });""")]
NEEDS = "a source image with a file of 2 GiB or more"
BREAKS = "the repacked image silently holds only part of the file"
DEMO = """
from xd import *
d = scratch()
size = 2 ** 31 + 7
b = entry(0, 0, 40, size, 32, b"big")
build(d + "/i.iso", {33: b}, {40 + 2 ** 20: b"tail"}, (33, len(b)), 40 + 2 ** 20 + 1)
os.truncate(d + "/i.iso", 40 * S + size)
p = run("pack", d + "/i.iso", d + "/o.iso")
try:
    need(p.returncode == 0, p.err)
    need(decode(d + "/o.iso", contents=False) == {"big": size}, "size differs")
finally:
    os.remove(d + "/o.iso")
"""
