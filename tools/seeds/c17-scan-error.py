PROPERTY = "C17"
NEEDS = "a read error (or truncation) in the second or a later sector of a directory table while repacking"
BREAKS = "the rest of the directory is silently left out"
EDITS = [("xdvdfs-core/src/write/fs/xdvdfs.rs",
"""        while let Some(dirent) = tree.next_entry().await? {
            let name_str""",
"""        while let Ok(Some(dirent)) = tree.next_entry().await {
            let name_str""")]
DEMO = """
from xd import *
d = scratch()
# a right spine of entries over two sectors, the image ends after the first one
names = [b"%03d" % i for i in range(103)]
b = b""
for i, n in enumerate(names):
    if len(b) % S + 20 > S: b += b"\\xff" * (S - len(b) % S)
    nxt = len(b) + 20
    if nxt % S + 20 > S: nxt += S - nxt % S
    b += entry(0, nxt // 4 if i + 1 < len(names) else 0, 34, 0, 32, n)
build(d + "/i.iso", {33: b}, {}, (33, len(b)), 36)
os.truncate(d + "/i.iso", 34 * S)
p = run("pack", d + "/i.iso", d + "/o.iso")
need(p.returncode != 0, "repacking a truncated image succeeded")
"""
