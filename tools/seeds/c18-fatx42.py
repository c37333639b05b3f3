PROPERTY = "C18"
NEEDS = "two names that agree in their first 42 characters"
BREAKS = "they compare equal although they differ"
EDITS = [("xdvdfs-core/src/util.rs",
"""    let mut a_chars = a.chars().map(|c| c.to_ascii_uppercase());
    let mut b_chars = b.chars().map(|c| c.to_ascii_uppercase());
""",
"""    // The console does not tell apart names beyond the 42 characters of FATX
    let mut a_chars = a.chars().take(42).map(|c| c.to_ascii_uppercase());
    let mut b_chars = b.chars().take(42).map(|c| c.to_ascii_uppercase());
""")]
DEMO = """
from xd import *
d = scratch()
t = {"n" * 42 + "1": b"1", "n" * 42 + "2": b"2", "N" * 42: b"3"}
mktree(d + "/s", t)
p = run("pack", d + "/s", d + "/o.iso")
need(p.returncode == 0, p.err)
need(decode(d + "/o.iso") == t, "image differs")
"""
