"""Small XDVDFS decoder/builder and helpers for the demonstrations (no dependencies)."""
import os, struct, subprocess, sys, tempfile, shutil, atexit
S = 2048
MAGIC = b"MICROSOFT*XBOX*MEDIA"
BIN = os.path.abspath("target/debug/xdvdfs")
FSD = os.path.abspath("target/debug/xdvdfsd")
def scratch():
    d = tempfile.mkdtemp(prefix="xdemo-")
    atexit.register(shutil.rmtree, d, ignore_errors=True)
    return d
def run(*args, cwd=None, timeout=120, **kw):
    p = subprocess.run([BIN, *[str(a) for a in args]], cwd=cwd, timeout=timeout, stdin=subprocess.DEVNULL,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
    p.out = p.stdout.decode("utf8", "replace"); p.err = p.stderr.decode("utf8", "replace")
    return p
def fail(msg):
    print("DEMO FAILED:", msg); sys.exit(1)
def need(cond, msg):
    if not cond: fail(msg)
def write(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f: f.write(data)
def mktree(root, tree):
    """tree: {relative path: bytes, or None for a directory}"""
    os.makedirs(root, exist_ok=True)
    for p, d in tree.items():
        if d is None: os.makedirs(os.path.join(root, p), exist_ok=True)
        else: write(os.path.join(root, p), d)
def rdtree(root):
    out = {}
    for d, ds, fs in os.walk(root):
        for x in ds: out[os.path.relpath(os.path.join(d, x), root)] = None
        for x in fs:
            with open(os.path.join(d, x), "rb") as f: out[os.path.relpath(os.path.join(d, x), root)] = f.read()
    return out
def norm(t):
    """adds the parent directories of every path"""
    out = dict(t)
    for p in t:
        while "/" in p:
            p = p.rsplit("/", 1)[0]; out.setdefault(p, None)
    return out
def decode(path, base=0, contents=True):
    """{path: bytes or None}; asserts that entries lie inside one sector and that names are in search order"""
    f = open(path, "rb")
    def at(o, n):
        f.seek(base + o); b = f.read(n)
        assert len(b) == n, "image truncated"
        return b
    v = at(32 * S, S)
    assert v[:20] == MAGIC and v[-20:] == MAGIC, "no volume"
    out = {}
    def table(sector, size, prefix):
        if size == 0: return
        t = at(sector * S, (size + S - 1) // S * S)
        def node(o, lo, hi):
            h = t[o:o + 14]
            if h in (b"\xff" * 14, b"\0" * 14): return 0
            l, r, sec, sz, at_, nl = struct.unpack("<HHIIBB", h)
            name = t[o + 14:o + 14 + nl]
            assert o // S == (o + 14 + nl - 1) // S, "entry %r crosses a sector" % name
            key = bytes(c - 32 if 97 <= c <= 122 else c for c in name)
            assert (lo is None or lo < key) and (hi is None or key < hi), "entry %r out of order" % name
            p = prefix + name.decode("cp1252")
            assert p not in out, "duplicate " + p
            if at_ & 16:
                out[p] = None; table(sec, sz, p + "/")
            else: out[p] = at(sec * S, sz) if contents else sz
            for c, a, b in ((l, lo, key), (r, key, hi)):
                if c not in (0, 0xffff): node(4 * c, a, b)
        node(0, None, None)
    sec, sz = struct.unpack("<II", v[20:28])
    table(sec, sz, "")
    return out
def entry(l, r, sec, size, attr, name):
    b = struct.pack("<HHIIBB", l, r, sec, size, attr, len(name)) + name
    return b + b"\xff" * (-len(b) % 4)
def build(path, tables, blobs, root, total, base=0):
    """tables: {sector: bytes}, blobs: {sector: bytes}, root: (sector, size), total: sectors (sparse)"""
    with open(path, "wb") as f:
        f.truncate(base + total * S)
        f.seek(base + 32 * S)
        f.write(MAGIC + struct.pack("<IIQ", root[0], root[1], 0) + bytes(0x7c8) + MAGIC)
        for s, b in tables.items():
            f.seek(base + s * S); f.write(b + b"\xff" * (-len(b) % S))
        for s, b in blobs.items():
            f.seek(base + s * S); f.write(b)
