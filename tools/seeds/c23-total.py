PROPERTY = "C23"
NEEDS = "an image whose files add up to 4 GiB or more"
BREAKS = "tree reports a wrong total (or aborts)"
EDITS = [("xdvdfs-cli/src/cmd_read.rs",
"""    let mut total_size: usize = 0;""", """    let mut total_size: u32 = 0;"""),
("xdvdfs-cli/src/cmd_read.rs",
"""            total_size += file.node.dirent.data.size() as usize;""",
"""            total_size = total_size.wrapping_add(file.node.dirent.data.size());""")]
DEMO = """
from xd import *
d = scratch()
size = 2 ** 31 + 5
b = entry(0, 5, 40, size, 32, b"aaa")
b += b"\\xff" * (20 - len(b)) + entry(0, 0, 40 + 2 ** 20 + 1, size, 32, b"bbb")
build(d + "/i.iso", {33: b}, {}, (33, len(b)), 40 + 2 * (2 ** 20 + 1))
p = run("tree", d + "/i.iso")
need(p.returncode == 0, p.err)
need("2 files, %d bytes" % (2 * size) in p.out, p.out)
"""
