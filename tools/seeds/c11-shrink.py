PROPERTY = "C11"
NEEDS = "a source file that shrinks between being listed and being copied, followed by no other error"
BREAKS = "pack succeeds although the file's tail is missing"
EDITS = [("xdvdfs-core/src/write/fs/stdfs.rs",
"""        let mut file = std::io::BufReader::with_capacity(1024 * 1024, file.take(size));
        let copied = std::io::copy(&mut file, dest)?;""",
"""        let available = file.metadata()?.len().saturating_sub(input_offset);
        let size = core::cmp::min(size, available);
        let mut file = std::io::BufReader::with_capacity(1024 * 1024, file.take(size));
        let copied = std::io::copy(&mut file, dest)?;""")]
DEMO = """
from xd import *
import subprocess, time
d = scratch()
# a fifo-free race: many directories make listing end long before the last file is copied
t = {"z%03d/f" % i: b"x" * 100 for i in range(50)}
t["a/first"] = b"y" * (200 << 20)
t["zz/last"] = b"q" * 5000
mktree(d + "/s", t)
p = subprocess.Popen([BIN, "pack", d + "/s", d + "/o.iso"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, bufsize=0)
# "a" is announced when copying starts, after everything was listed
while True:
    line = p.stdout.readline()
    if b"first" in line or not line: break
os.truncate(d + "/s/zz/last", 10)
p.stdout.read(); err = p.stderr.read()
need(p.wait() != 0, "pack succeeded although a file lost its data while packing")
"""
