PROPERTY = "C10"
NEEDS = "extraction of an empty file over an existing non-empty file of that name"
BREAKS = "the old contents stay, and success is reported"
EDITS = [("xdvdfs-cli/src/cmd_unpack.rs",
"""        let mut file = File::options()
            .write(true)
            .truncate(true)
            .create(true)
            .open(file_path)?;

        if dirent.node.dirent.is_empty() {
            continue;
        }
""",
"""        let mut file = File::options().write(true).create(true).open(file_path)?;

        if dirent.node.dirent.is_empty() {
            continue;
        }

        // Sizing the file up front avoids fragmentation
        file.set_len(dirent.node.dirent.data.size as u64)?;
""")]
DEMO = """
from xd import *
d = scratch()
mktree(d + "/s", {"a": b"", "b": b"new", "c": b"xyz"})
need(run("pack", d + "/s", d + "/o.iso").returncode == 0, "pack")
mktree(d + "/x", {"a": b"stale", "b": b"long stale contents", "c": b"q"})
p = run("unpack", d + "/o.iso", d + "/x")
need(p.returncode == 0, p.err)
need(rdtree(d + "/x") == rdtree(d + "/s"), "unpacked tree differs")
"""
