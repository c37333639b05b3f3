PROPERTY = "C14"
NEEDS = "rules that match both a directory and an entry inside of it"
BREAKS = "the outer match decides, so inner rules (a file pulled out of a mapped directory, an exclusion of it) are ignored"
EDITS = [("xdvdfs-core/src/write/fs/remap.rs",
"""                let match_prefix = if all_globs.is_match(path.as_string().trim_start_matches('/')) {
                    Some(path.clone())
                } else if parent_match_prefix.is_some() {
                    parent_match_prefix.clone()
                } else {""",
"""                let match_prefix = if dir.iter().count() > 1 && parent_match_prefix.is_some() {
                    parent_match_prefix.clone()
                } else if all_globs.is_match(path.as_string().trim_start_matches('/')) {
                    Some(path.clone())
                } else if parent_match_prefix.is_some() {
                    parent_match_prefix.clone()
                } else {""")]
NEEDS = "a rule matching a directory and another rule matching an entry two or more levels down in it"
DEMO = """
from xd import *
d = scratch()
mktree(d + "/s", {"a/b/c": b"1", "a/b/d": b"2", "a/e": b"3"})
p = run("build-image", "-m", "a:x", "-m", "a/b/c:y", d + "/s", d + "/o.iso")
need(p.returncode == 0, p.err)
need(decode(d + "/o.iso") == norm({"x/b/d": b"2", "x/e": b"3", "y": b"1"}), "mapping: %r" % decode(d + "/o.iso"))
"""
