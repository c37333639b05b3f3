PROPERTY = "C22"
NEEDS = "packing the same directory several times"
BREAKS = "the images differ from run to run"
EDITS = [("xdvdfs-core/src/write/fs/stdfs.rs",
"""        let listing: io::Result<Vec<FileEntry>> = listing?.into_iter().collect();
        listing
""",
"""        // Some network filesystems list entries more than once
        let mut entries = std::collections::HashMap::new();
        for entry in listing? {
            let entry = entry?;
            entries.insert(entry.name.clone(), entry);
        }
        Ok(entries.into_values().collect())
""")]
DEMO = """
from xd import *
d = scratch()
t = {"f%02d" % i: b"data %d" % i for i in range(14)}
t["d/x"] = b"1"; t["d/y"] = b"2"
mktree(d + "/s", t)
seen = set()
for i in range(6):
    need(run("pack", d + "/s", d + "/o.iso").returncode == 0, "pack")
    with open(d + "/o.iso", "rb") as f: seen.add(f.read())
need(len(seen) == 1, "%d different images" % len(seen))
"""
