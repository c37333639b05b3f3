PROPERTY = "C04"
NEEDS = "a file whose data starts 4 GiB or more into the volume"
BREAKS = "reads return the bytes of an unrelated part of the image"
EDITS = [("xdvdfs-core/src/layout.rs",
"""        let offset = SECTOR_SIZE as u64 * self.sector as u64 + offset;
        Ok(offset)""",
"""        let start = SECTOR_SIZE.wrapping_mul(self.sector);
        Ok(start as u64 + offset)""")]
DEMO = """
from xd import *
d = scratch()
hi = 2 ** 21 + 50
b = entry(0, 0, hi, 5, 32, b"f")
build(d + "/i.iso", {33: b}, {hi: b"hello", 50: b"wrong"}, (33, len(b)), hi + 1)
p = run("copy-out", d + "/i.iso", "/f", d + "/x")
need(p.returncode == 0, p.err)
need(open(d + "/x", "rb").read() == b"hello", "wrong bytes")
"""
