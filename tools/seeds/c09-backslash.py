PROPERTY = "C09"
NEEDS = "an image with an entry name that contains backslashes and dot components"
BREAKS = "the name is turned into a path after it was checked, and the file is written outside of the destination"
EDITS = [("xdvdfs-cli/src/cmd_unpack.rs",
"""        let file_path = dirname.join(&*file_name);""",
"""        // Some images use backslashes to separate directories
        let file_path = dirname.join(file_name.replace('\\\\', "/"));""")]
DEMO = """
from xd import *
d = scratch()
b = entry(0, 0, 40, 5, 32, b"..\\\\\\\\evil".replace(b"\\\\\\\\", b"\\\\"))
build(d + "/i.iso", {33: b}, {40: b"hello"}, (33, len(b)), 64)
os.makedirs(d + "/jail/out")
run("unpack", d + "/i.iso", d + "/jail/out/dest")
need(set(os.listdir(d + "/jail/out")) <= {"dest"}, "written outside: %r" % os.listdir(d + "/jail/out"))
"""
