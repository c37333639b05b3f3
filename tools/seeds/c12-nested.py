PROPERTY = "C12"
NEEDS = "an output path two or more levels inside of the source directory, naming one of its files"
BREAKS = "the source file is truncated (and the image packed into itself)"
EDITS = [("xdvdfs-cli/src/cmd_pack.rs",
"""    if absolute_path(image_path)?.starts_with(source_path) {
""",
"""    if absolute_path(image_path)?.parent() == Some(source_path) {
""")]
DEMO = """
from xd import *
d = scratch()
t = {"a/b/c": b"precious", "x": b"y"}
for out in ("a/b/c", "a/b/new.iso", "a/o.iso", "o.iso"):
    mktree(d + "/s", t)
    before = rdtree(d + "/s")
    run("pack", d + "/s", d + "/s/" + out, preexec_fn=lambda: __import__("resource").setrlimit(1, (1 << 24, 1 << 24)))
    need(rdtree(d + "/s") == before, "the source changed, output " + out)
    shutil.rmtree(d + "/s")
"""
