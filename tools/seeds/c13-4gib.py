PROPERTY = "C13"
NEEDS = "a source file of 4 GiB or more"
BREAKS = "it is packed with its size truncated to 32 bits instead of being refused"
EDITS = [("xdvdfs-core/src/write/img.rs",
"""                    let file_size = entry
                        .len
                        .try_into()
                        .map_err(|_| FileStructureError::FileTooLarge)?;
                    dirtab.add_file(file_name, file_size)?;""",
"""                    dirtab.add_file(file_name, entry.len as u32)?;""")]
DEMO = """
from xd import *
d = scratch()
mktree(d + "/s", {"f": b""})
os.truncate(d + "/s/f", 2 ** 32 + 100)
p = run("pack", d + "/s", d + "/o.iso")
need(p.returncode == 1, "a file of more than 4 GiB was accepted")
"""
