PROPERTY = "C06"
NEEDS = "a file longer than 256 sectors (512 KiB) in the compressed source"
BREAKS = "sectors of the file past the 256th repeat earlier ones in the compressed image"
EDITS = [("xdvdfs-core/src/write/fs/sector_linear.rs",
"""                .insert(sector + i, SectorLinearBlockContents::File(src.clone(), i))""",
"""                .insert(
                    sector + i,
                    SectorLinearBlockContents::File(src.clone(), (i as u8) as u64),
                )""")]
DEMO = """
from xd import *
d = scratch()
data = b"".join((b"%08d" % i) * (S // 8) for i in range(257)) + b"end"
mktree(d + "/s", {"f": data})
p = run("compress", d + "/s", d + "/o.cso")
need(p.returncode == 0, p.err)
p = run("md5", [x for x in [d + "/o.cso", d + "/o.1.cso"] if os.path.exists(x)][0], "/f")
import hashlib
need(p.returncode == 0 and p.out.split()[0] == hashlib.md5(data).hexdigest(), "contents differ " + p.err)
"""
