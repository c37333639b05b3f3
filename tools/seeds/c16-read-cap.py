PROPERTY = "C16"
NEEDS = "one read request of more than 128 KiB"
BREAKS = "the reply is cut to 128 KiB, which a reader takes for the end of the file"
FILES = ["fuseplay.py"]
EDITS = [("xdvdfs-fsd/src/img_fs.rs",
"""                .read_data_offset(&mut self.device, size as u64, offset as u64);
""",
"""                .read_data_offset(&mut self.device, size.min(128 * 1024) as u64, offset as u64);
""")]
DEMO = """
from xd import *
from fuseplay import Mount
d = scratch()
data = os.urandom(300000)
mktree(d + "/s", {"f": data})
need(run("pack", d + "/s", d + "/o.iso").returncode == 0, "pack")
m = Mount(d + "/o.iso")
e, i, size, _ = m.lookup(1, b"F")
need(e == 0 and size == len(data), "lookup")
for off, n in ((0, 1000), (0, 131072), (5, 150000), (0, 300000), (299990, 1000)):
    e, r = m.read(i, off, n)
    need(e == 0 and r == data[off:off + n], "read of %d at %d: %d bytes" % (n, off, len(r)))
"""
