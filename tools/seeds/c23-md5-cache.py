PROPERTY = "C23"
NEEDS = "an image by a tool which gives an empty (or shared-prefix) file the same first sector as another file"
BREAKS = "md5 prints the other file's sum for it"
EDITS = [("xdvdfs-cli/src/cmd_md5.rs",
"""    for (dir, file) in tree {
        let dir = if base.is_empty() {
""",
"""    // Files may share their data
    let mut known = std::collections::HashMap::new();
    for (dir, file) in tree {
        let dir = if base.is_empty() {
"""), ("xdvdfs-cli/src/cmd_md5.rs",
"""        let checksum = md5_file_dirent(img, *file).await?;
        let name = file.name_str()?;
        println!("{}  {}/{}", checksum, dir, name);
""",
"""        let sector = file.node.dirent.data.sector;
        if !known.contains_key(&sector) {
            known.insert(sector, md5_file_dirent(img, *file).await?);
        }
        let name = file.name_str()?;
        println!("{}  {}/{}", known[&sector], dir, name);
""")]
DEMO = """
from xd import *
import hashlib
d = scratch()
a = entry(4, 9, 40, 0, 32, b"bb"); x = entry(0, 0, 40, 5, 32, b"aaaaa"); z = entry(0, 0, 40, 2048, 32, b"cc")
t = a + x; t += z
b = entry(len(a) // 4, len(a + x) // 4, 40, 0, 32, b"bb") + x + z
build(d + "/i.iso", {33: b}, {40: bytes(range(256)) * 8}, (33, len(b)), 64)
p = run("md5", d + "/i.iso")
need(p.returncode == 0, p.err)
got = {l.split("  ")[1]: l.split("  ")[0] for l in p.out.splitlines()}
data = bytes(range(256)) * 8
want = {"/aaaaa": hashlib.md5(data[:5]).hexdigest(), "/bb": hashlib.md5(b"").hexdigest(), "/cc": hashlib.md5(data).hexdigest()}
need(got == want, repr(got))
"""
