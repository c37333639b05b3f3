"""Plays fusermount3 for xdvdfsd, so that no mount is made, and speaks the FUSE protocol to it."""
import os, socket, struct, subprocess, sys, tempfile, atexit
from xd import FSD, scratch, need
HELPER = '''#!/usr/bin/env python3
import os, socket, sys
if "_FUSE_COMMFD" not in os.environ: sys.exit(0)
a, b = socket.socketpair(socket.AF_UNIX, socket.SOCK_SEQPACKET)
out = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM); out.connect(os.environ["PLAY_SOCK"])
for x in (a, b):
    for o in (socket.SO_SNDBUF, socket.SO_RCVBUF): x.setsockopt(socket.SOL_SOCKET, o, 1 << 20)
socket.send_fds(out, [b"x"], [a.fileno()])
comm = socket.socket(fileno=int(os.environ["_FUSE_COMMFD"]))
socket.send_fds(comm, [b"\\0"], [b.fileno()])
'''
class Mount:
    def __init__(self, image):
        d = scratch(); m = d + "/mnt"; os.makedirs(m)
        os.makedirs(d + "/bin")
        for n in ("fusermount3", "fusermount"):
            with open(d + "/bin/" + n, "w") as f: f.write(HELPER)
            os.chmod(d + "/bin/" + n, 0o755)
        srv = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM); srv.bind(d + "/sock"); srv.listen(1); srv.settimeout(30)
        env = dict(os.environ, PATH=d + "/bin:" + os.environ["PATH"], PLAY_SOCK=d + "/sock")
        self.p = subprocess.Popen([FSD, "-o", "auto_unmount,nofork", image, m], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        atexit.register(self.p.kill)
        c, _ = srv.accept()
        _, fds, _, _ = socket.recv_fds(c, 1, 1)
        self.s = socket.socket(fileno=fds[0]); self.s.settimeout(30); self.u = 0
        e, r = self.req(26, 0, struct.pack("<IIII", 7, 8, 1 << 17, 0))
        need(e == 0, "init: %d" % e)
    def req(self, op, node, body):
        self.u += 1
        self.s.send(struct.pack("<IIQQIIIHH", 40 + len(body), op, self.u, node, 0, 0, 0, 0, 0) + body)
        r = self.s.recv(1 << 24)
        l, e, u = struct.unpack("<IiQ", r[:16])
        need(l == len(r) and u == self.u, "bad reply")
        return e, r[16:]
    def lookup(self, parent, name):
        """(errno, inode, size, is_dir)"""
        e, r = self.req(1, parent, name + b"\0")
        if e: return e, 0, 0, False
        a = r[40:]
        return 0, struct.unpack("<Q", r[:8])[0], struct.unpack("<Q", a[8:16])[0], struct.unpack("<I", a[60:64])[0] & 0o170000 == 0o040000
    def read(self, ino, off, size):
        return self.req(15, ino, struct.pack("<QQIIQII", 0, off, size, 0, 0, 0, 0))
    def readdir(self, ino, size=4096):
        out = []; off = 0
        while True:
            e, r = self.req(28, ino, struct.pack("<QQIIQII", 0, off, size, 0, 0, 0, 0))
            need(e == 0, "readdir: %d" % e)
            if not r: return out
            p = 0
            while p < len(r):
                i, off, n, t = struct.unpack("<QQII", r[p:p + 24])
                out.append(r[p + 24:p + 24 + n]); p += 24 + n + (-n % 8)
