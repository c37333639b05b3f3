PROPERTY = "C18"
NEEDS = "names with letters outside of ASCII that differ only in case"
BREAKS = "such names compare equal, so both cannot be packed into one directory and lookups confuse them"
EDITS = [("xdvdfs-core/src/util.rs",
"""    let mut a_chars = a.chars().map(|c| c.to_ascii_uppercase());
    let mut b_chars = b.chars().map(|c| c.to_ascii_uppercase());""",
"""    let mut a_chars = a.chars().map(|c| c.to_ascii_uppercase() as u8);
    let mut b_chars = b.chars().map(|c| c.to_ascii_uppercase() as u8);""")]
NEEDS = "names with characters of the upper half of code page 1252 whose Unicode code points agree in their low byte (the euro sign and the not sign, say)"
DEMO = """
from xd import *
d = scratch()
t = {"x\\u20ac": b"1", "x\\u00ac": b"2"}
mktree(d + "/s", t)
p = run("pack", d + "/s", d + "/o.iso")
need(p.returncode == 0, p.err)
for n in t:
    p = run("copy-out", d + "/o.iso", "/" + n, d + "/x")
    need(p.returncode == 0 and open(d + "/x", "rb").read() == t[n], "lookup of " + n)
"""
