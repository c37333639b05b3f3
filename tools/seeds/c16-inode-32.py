PROPERTY = "C16"
NEEDS = "an image over 4 GiB with entries exactly 4 GiB apart, both looked up in one session"
BREAKS = "the second entry gets the first one's inode, and its contents"
FILES = ["fuseplay.py"]
EDITS = [("xdvdfs-fsd/src/img_fs.rs",
"""    inode_rev_lookup: HashMap<DirectoryEntryNode, u64>,
""",
"""    inode_rev_lookup: HashMap<u32, u64>,
"""), ("xdvdfs-fsd/src/img_fs.rs",
"""        let inode = self.inode_rev_lookup.get(dirent);
        if let""",
"""        // Entries are identified by their position
        let key = dirent.offset as u32;
        let inode = self.inode_rev_lookup.get(&key);
        if let"""), ("xdvdfs-fsd/src/img_fs.rs",
"""        self.inode_rev_lookup.insert(*dirent, self.next_inode);
""",
"""        self.inode_rev_lookup.insert(key, self.next_inode);
""")]
DEMO = """
from xd import *
from fuseplay import Mount
d = scratch()
far = 40 + 2 ** 21
t1 = entry(0, 0, 50, 3, 32, b"f"); t2 = entry(0, 0, 51, 5, 32, b"f")
root = entry(0, 4, 40, len(t1), 16, b"a"); root += entry(0, 0, far, len(t2), 16, b"b")
build(d + "/i.iso", {33: root, 40: t1, far: t2}, {50: b"one", 51: b"three"}, (33, len(root)), far + 1)
m = Mount(d + "/i.iso")
for name, want in ((b"a", b"one"), (b"b", b"three")):
    e, i, _, isdir = m.lookup(1, name)
    need(e == 0 and isdir, "lookup of %r: %d" % (name, e))
    e, f, size, _ = m.lookup(i, b"f")
    need(e == 0 and size == len(want), "lookup of the file in %r: %d" % (name, e))
    e, data = m.read(f, 0, 100)
    need(e == 0 and data == want, "read in %r: %r" % (name, data))
"""
