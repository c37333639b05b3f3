PROPERTY = "C03"
NEEDS = "a table entry that occupies exactly the last 16 bytes of a sector (a name of one or two bytes)"
BREAKS = "the sequential scan skips that entry"
EDITS = [("xdvdfs-core/src/read.rs",
"""            if self.offset + 0xe >= layout::SECTOR_SIZE as usize {
                self.next_sector().await?;""",
"""            // No entry fits into the rest of this sector
            if self.offset + 0x10 >= layout::SECTOR_SIZE as usize {
                self.next_sector().await?;""")]
DEMO = """
from xd import *
d = scratch()
# 127 entries of 16 bytes fill 2032 bytes, the 128th the last 16, and one more goes to the next sector
names = ["%02X" % i for i in range(200)]
names = [n.encode() for n in sorted(names)][:129]
def shape(lo, hi, order, kids):
    if lo >= hi: return None
    m = (lo + hi) // 2
    i = len(order); order.append(m); kids.append(None)
    l = shape(lo, m, order, kids); r = shape(m + 1, hi, order, kids)
    kids[i] = (l, r)
    return i
order, kids = [], []
shape(0, len(names), order, kids)
b = b""
for i, m in enumerate(order):
    l, r = kids[i]
    b += entry((l or 0) * 4, (r or 0) * 4, 40, 0, 32, names[m])
build(d + "/i.iso", {33: b}, {}, (33, len(b)), 64)
p = run("ls", "-s", d + "/i.iso")
need(p.returncode == 0, p.err)
need(sorted(p.out.split()) == [n.decode() for n in names], "scan lists %d of %d" % (len(p.out.split()), len(names)))
"""
