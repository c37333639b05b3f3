PROPERTY = "C06"
NEEDS = "a source whose packed image ends in padding (as nearly all do); the effect shows only in the uncompressed length"
BREAKS = "the decompressed image is a sector shorter than the packed one, and not a multiple of 32 sectors"
EDITS = [("xdvdfs-core/src/write/fs/sector_linear.rs",
"""            if self
                .contents
                .insert(sector, SectorLinearBlockContents::RawData(sector_buf))
                .is_some()
            {
""",
"""            // Zeroed sectors do not need to be kept in memory
            let contents = if sector_buf.iter().all(|b| *b == 0) {
                SectorLinearBlockContents::Empty
            } else {
                SectorLinearBlockContents::RawData(sector_buf)
            };

            if self.contents.insert(sector, contents).is_some() {
""")]
DEMO = """
from xd import *
d = scratch()
mktree(d + "/s", {"a": b"abc", "d/e": b"x" * 5000})
need(run("pack", d + "/s", d + "/o.iso").returncode == 0, "pack")
p = run("compress", d + "/s", d + "/o.cso", cwd=d)
need(p.returncode == 0, p.err)
f = [x for x in os.listdir(d) if x.startswith("o.") and x.endswith("cso")]
need(len(f) == 1, "outputs " + repr(f))
with open(d + "/" + f[0], "rb") as h: head = h.read(24)
size = struct.unpack("<Q", head[8:16])[0]
need(size == os.path.getsize(d + "/o.iso"), "uncompressed size %d, packed size %d" % (size, os.path.getsize(d + "/o.iso")))
"""
