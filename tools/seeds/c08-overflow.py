PROPERTY = "C08"
NEEDS = "a corrupted entry whose start sector is 2^21 or more"
BREAKS = "reading it panics with an arithmetic overflow instead of reporting an error"
EDITS = [("xdvdfs-core/src/layout.rs",
"""        let offset = SECTOR_SIZE as u64 * self.sector as u64 + offset;""",
"""        let offset = (SECTOR_SIZE * self.sector) as u64 + offset;""")]
DEMO = """
from xd import *
d = scratch()
b = entry(0, 0, 2 ** 21, 5, 32, b"f")
build(d + "/i.iso", {33: b}, {}, (33, len(b)), 64)
for args in (["md5", d + "/i.iso"], ["unpack", d + "/i.iso", d + "/x"], ["checksum", d + "/i.iso"]):
    p = run(*args)
    need(p.returncode == 1 and "panicked" not in p.err, "%r: %d %s" % (args, p.returncode, p.err))
"""
