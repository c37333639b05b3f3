PROPERTY = "C24"
NEEDS = "two or more images given to extract-xiso, none of whose output directory is named"
BREAKS = ""
EDITS = [("xdvdfs-cli/src/exiso_compat.rs",
"""        cmd_unpack(&UnpackArgs {
            image_path: xiso.clone(),
            path: directory.clone(),
        })""",
"""        let base = directory.as_ref().filter(|_| xiso_list.len() == 1);
        cmd_unpack(&UnpackArgs {
            image_path: xiso.clone(),
            path: base.cloned(),
        })""")]
NEEDS = "extract mode with -d and more than one image"
BREAKS = "the directory given with -d is ignored"
DEMO = """
from xd import *
d = scratch()
for n in "ab":
    mktree(d + "/s" + n, {n: b"x"})
    need(run("pack", d + "/s" + n, d + "/%s.iso" % n).returncode == 0, "pack")
os.mkdir(d + "/cwd")
p = run("extract-xiso", "-d", d + "/out", "-x", d + "/a.iso", d + "/b.iso", cwd=d + "/cwd")
need(p.returncode == 0, p.err)
need(os.path.isdir(d + "/out") and set(os.listdir(d + "/out")) == {"a", "b"} and not os.listdir(d + "/cwd"), "wrong place")
"""
