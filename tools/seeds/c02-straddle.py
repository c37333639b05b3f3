PROPERTY = "C02"
NEEDS = "a directory table longer than one sector in which an entry's 14-byte header fits at the end of a sector but its name does not"
BREAKS = "the entry crosses a sector boundary, which the format forbids; sequential scans lose it"
EDITS = [("xdvdfs-core/src/write/dirtab.rs",
"""    let needed_sectors = required_sectors(offset + incr);
    if offset % layout::SECTOR_SIZE as u64 > 0""",
"""    // Only the fixed part of an entry is read at once
    let needed_sectors = required_sectors(offset + core::cmp::min(incr, 24));
    if offset % layout::SECTOR_SIZE as u64 > 0""")]
DEMO = """
from xd import *
d = scratch()
t = {"%03d%s" % (i, "n" * (i % 37)): b"" for i in range(120)}
mktree(d + "/s", t)
p = run("pack", d + "/s", d + "/o.iso")
need(p.returncode == 0, p.err)
try:
    need(decode(d + "/o.iso") == t, "tree differs")
except AssertionError as e:
    fail(e)
"""
