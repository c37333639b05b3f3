PROPERTY = "C07"
NEEDS = "a descriptor whose first signature is intact and whose second is damaged, at an earlier offset than the real volume"
BREAKS = "the damaged descriptor is accepted, hiding the valid volume (or non-volumes are accepted)"
EDITS = [("xdvdfs-core/src/layout.rs",
"""        self.magic0 == VOLUME_HEADER_MAGIC && self.magic1 == VOLUME_HEADER_MAGIC""",
"""        self.magic0 == VOLUME_HEADER_MAGIC""")]
DEMO = """
from xd import *
d = scratch()
b = entry(0, 0, 40, 5, 32, b"f")
build(d + "/i.iso", {33: b}, {40: b"hello"}, (33, len(b)), 64, base=34078720)
with open(d + "/i.iso", "r+b") as f:
    f.seek(32 * S); f.write(MAGIC)
p = run("copy-out", d + "/i.iso", "/f", d + "/x")
need(p.returncode == 0 and open(d + "/x", "rb").read() == b"hello", "volume not found: " + p.err)
"""
