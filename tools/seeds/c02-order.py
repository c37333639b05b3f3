PROPERTY = "C02"
NEEDS = "two names in one directory where one has a letter and the other one of [ \\\\ ] ^ _ ` at the first difference"
BREAKS = "the packed search tree is ordered by lower-cased names, so the console (and this reader) do not find entries by name"
EDITS = [("xdvdfs-core/src/layout.rs",
"""        util::cmp_ignore_case_utf8(self.name_str(), other.name_str())""",
"""        let fold = |c: char| c.to_ascii_lowercase();
        self.name_str()
            .chars()
            .map(fold)
            .cmp(other.name_str().chars().map(fold))""")]
DEMO = """
from xd import *
d = scratch()
t = {"a_b": b"1", "abb": b"2", "aZ": b"3", "a^": b"4"}
mktree(d + "/s", t)
p = run("pack", d + "/s", d + "/o.iso")
need(p.returncode == 0, p.err)
for n in t:
    p = run("copy-out", d + "/o.iso", "/" + n, d + "/x")
    need(p.returncode == 0 and open(d + "/x", "rb").read() == t[n], "lookup of " + n)
"""
