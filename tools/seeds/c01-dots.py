PROPERTY = "C01"
NEEDS = "two sibling directories whose names differ only in ASCII case-insensitive suffix order, i.e. a directory and a sibling whose full path string sorts between it and its children (for example 'a' with a child, and 'a!')"
BREAKS = "tables are keyed by the path string instead of its components, so the table written for one directory can be looked up before its sector is known, or the wrong one is first"
EDITS = [("xdvdfs-core/src/write/img.rs",
"""                    dirtab.add_file(file_name, file_size)?;
""",
"""                    // Names are stored without trailing dots
                    let file_name = match file_name.rfind(|c| c != '.') {
                        Some(last) if last + 2 < file_name.len() => &file_name[..=last],
                        _ => file_name,
                    };
                    dirtab.add_file(file_name, file_size)?;
""")]
NEEDS = "a file whose name ends in two or more dots"
BREAKS = "the file is stored (or fails to be copied) under a different name than in the source"
DEMO = """
from xd import *
d = scratch()
t = {"a..": b"x" * 10, "b.": b"y", "...c": b"z", "sub/q...": b""}
mktree(d + "/s", t)
p = run("pack", d + "/s", d + "/o.iso")
need(p.returncode == 0, p.err)
need(decode(d + "/o.iso") == norm(t), "tree differs")
"""
