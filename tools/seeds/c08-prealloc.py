PROPERTY = "C08"
NEEDS = "a directory entry claiming a table of (nearly) 4 GiB"
BREAKS = "listing a small damaged image asks for tens of gigabytes of memory and aborts"
EDITS = [("xdvdfs-core/src/read.rs",
"""        let mut dirents = vec![];
        if self.is_empty() {
            return Ok(dirents);
        }
""",
"""        let mut dirents = vec![];
        if self.is_empty() {
            return Ok(dirents);
        }

        // The smallest entry takes up 16 bytes
        dirents.reserve(self.region.size as usize / 16);
""")]
DEMO = """
from xd import *
import resource
d = scratch()
b = entry(0, 0, 40, 5, 32, b"f")
build(d + "/i.iso", {33: b}, {40: b"hello"}, (33, 0xffffffff), 64)
lim = lambda: resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
for c in ("ls", "tree", "md5", "checksum"):
    p = run(c, d + "/i.iso", preexec_fn=lim)
    need(p.returncode in (0, 1), "%s: exit %d: %s" % (c, p.returncode, p.err[-200:]))
"""
