PROPERTY = "C21"
NEEDS = "an image-spec generated with more than nine rules, or rules whose order matters"
BREAKS = ""
EDITS = [("xdvdfs-cli/src/cmd_build_image.rs",
"""        map_rules.push((key.to_owned(), value));
    }

    Ok(())""",
"""        map_rules.push((key.to_owned(), value));
    }

    // Exclusions apply to everything
    map_rules.sort_by_key(|(host, _)| host.starts_with('!'));
    Ok(())""")]
NEEDS = "a spec file in which a rule re-includes something after an exclusion"
BREAKS = "the same rules give another image from a spec file than from options"
DEMO = """
from xd import *
d = scratch()
mktree(d + "/s", {"a": b"1", "b": b"2"})
rules = ["-m", "*:/{1}", "-m", "!a", "-m", "a:/z"]
p = run("build-image", *rules, d + "/s", d + "/o1.iso")
need(p.returncode == 0, p.err)
p = run("image-spec", "from", *rules, d + "/spec.toml")
need(p.returncode == 0, p.err)
p = run("build-image", "-f", d + "/spec.toml", d + "/s", d + "/o2.iso")
need(p.returncode == 0, p.err)
need(decode(d + "/o1.iso") == decode(d + "/o2.iso") == {"b": b"2", "z": b"1"}, "images differ: %r" % decode(d + "/o2.iso"))
"""
