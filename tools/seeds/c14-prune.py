PROPERTY = "C14"
NEEDS = "an exclusion matching a directory, and another rule matching something deeper inside it"
BREAKS = "the deeper entry is missing from the image"
EDITS = [("xdvdfs-core/src/write/fs/remap.rs",
"""                if let FileType::Directory = entry.file_type {
                    host_dirs.push((PathVec::from_base(&dir, &entry.name), match_prefix.clone()));
                }
""",
"""                if let FileType::Directory = entry.file_type {
                    // Large excluded directories do not need to be scanned
                    let path_str = path.as_string();
                    let last_rule = glob_keys
                        .iter()
                        .zip(cfg.map_rules.iter())
                        .rfind(|(glob, _)| glob.is_match(path_str.trim_start_matches('/')));
                    if !last_rule.is_some_and(|(_, rule)| rule.0.starts_with('!')) {
                        host_dirs.push((path.clone(), match_prefix.clone()));
                    }
                }
""")]
DEMO = """
from xd import *
d = scratch()
mktree(d + "/s", {"keep": b"1", "skip/x": b"2", "skip/deep/y": b"3", "other/z": b"4"})
p = run("build-image", "-m", "*:{0}", "-m", "!skip", "-m", "skip/deep:deep", d + "/s", d + "/o.iso")
need(p.returncode == 0, p.err)
got = decode(d + "/o.iso")
need(got == {"keep": b"1", "other": None, "other/z": b"4", "deep": None, "deep/y": b"3"}, repr(got))
"""
