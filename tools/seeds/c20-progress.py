PROPERTY = "C20"
NEEDS = "a source with an empty directory"
BREAKS = "the directory is not announced, and the counter never reaches the announced total"
EDITS = [("xdvdfs-core/src/write/img.rs",
"""        progress_callback(ProgressInfo::DirAdded(
            fs.path_to_string(path),
            *dirtab_sector,
        ));
""",
"""        if !dirtab.file_listing.is_empty() || path.is_root() {
            progress_callback(ProgressInfo::DirAdded(
                fs.path_to_string(path),
                *dirtab_sector,
            ));
        }
""")]
DEMO = """
from xd import *
import re
d = scratch()
mktree(d + "/s", {"a": None, "b/c": b"x"})
p = run("pack", d + "/s", d + "/o.iso")
need(p.returncode == 0, p.err)
last = re.findall(r"\\[(\\d+)/(\\d+)\\]", p.out)[-1]
need(last[0] == last[1], "progress ends at %s of %s" % last)
"""
