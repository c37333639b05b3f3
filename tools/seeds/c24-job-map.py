PROPERTY = "C24"
NEEDS = "one create command naming the same directory twice, with different images"
BREAKS = "only one of the images is made"
EDITS = [("xdvdfs-cli/src/exiso_compat.rs",
"""    for (dir, file) in tasks {
        exiso_create_single(dir, &file).await?;
    }
""",
"""    // Do not create an image twice
    let mut done = std::collections::BTreeSet::new();
    for (dir, file) in tasks {
        if done.insert(dir) {
            exiso_create_single(dir, &file).await?;
        }
    }
""")]
DEMO = """
from xd import *
d = scratch()
mktree(d + "/s", {"a": b"1"}); mktree(d + "/t", {"b": b"2"})
exe = d + "/extract-xiso"
os.symlink(BIN, exe)
def ex(*a): return subprocess.run([exe, *a], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
p = ex("-c", "s", "1.iso", "-c", "t", "2.iso", "-c", "s", "3.iso", "-c", "s")
need(p.returncode == 0, p.stderr.decode())
for f, w in (("1.iso", {"a": b"1"}), ("2.iso", {"b": b"2"}), ("3.iso", {"a": b"1"}), ("s.iso", {"a": b"1"})):
    need(os.path.exists(d + "/" + f), f + " missing")
    need(decode(d + "/" + f) == w, f + " differs")
"""
