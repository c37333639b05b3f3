PROPERTY = "C15"
NEEDS = "two images that differ only in the name or presence of an empty directory"
BREAKS = "their checksums are equal"
EDITS = [("xdvdfs-core/src/checksum.rs",
"""        hasher.update(path.as_bytes());

        if !is_dir {
""",
"""        if !is_dir {
            hasher.update(path.as_bytes());
""")]
DEMO = """
from xd import *
d = scratch()
sums = set()
for i, t in enumerate([{"a": None, "f": b"x"}, {"b": None, "f": b"x"}, {"f": b"x"}]):
    mktree(d + "/s%d" % i, t)
    need(run("pack", d + "/s%d" % i, d + "/o%d.iso" % i).returncode == 0, "pack")
    p = run("checksum", "-s", d + "/o%d.iso" % i)
    need(p.returncode == 0, p.err)
    sums.add(p.out.split()[0])
need(len(sums) == 3, "checksums collide")
"""
