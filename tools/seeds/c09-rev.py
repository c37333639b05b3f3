PROPERTY = "C09"
NEEDS = "an image with a directory entry named .. (or an absolute path) which itself holds entries"
BREAKS = "files inside of it are extracted outside of the destination before the name is refused"
EDITS = [("xdvdfs-cli/src/cmd_unpack.rs",
"""    for (dir, dirent) in &tree {
        let dir = dir.trim_start_matches('/');
""",
"""    // Deepest directories first, so that no directory is entered twice
    for (dir, dirent) in tree.iter().rev() {
        let dir = dir.trim_start_matches('/');
"""), ("xdvdfs-cli/src/cmd_unpack.rs",
"""            std::fs::create_dir(file_path)?;
            continue;
""",
"""            std::fs::create_dir_all(file_path)?;
            continue;
""")]
DEMO = """
from xd import *
d = scratch()
sub = entry(0, 0, 40, 5, 32, b"evil")
root = entry(0, 0, 34, len(sub), 16, b"..")
build(d + "/i.iso", {33: root, 34: sub}, {40: b"hello"}, (33, len(root)), 64)
os.makedirs(d + "/w")
run("unpack", d + "/i.iso", d + "/w/out")
left = set(os.listdir(d)) - {"i.iso", "w"} | set(os.listdir(d + "/w")) - {"out"}
need(not left, "written outside of the destination: %r" % left)
mktree(d + "/s", {"a/b/c": b"1", "a/d": b"", "e": None})
need(run("pack", d + "/s", d + "/o.iso").returncode == 0, "pack")
need(run("unpack", d + "/o.iso", d + "/x").returncode == 0, "unpack")
need(rdtree(d + "/x") == rdtree(d + "/s"), "unpacked tree differs")
"""
