"""Reading, writing and editing map databases with the built program, for demonstrations. Everything happens in a
scratch directory that is removed at the end."""
import atexit, ctypes, os, shutil, sqlite3, struct, subprocess, sys, tempfile, zlib
DIR = tempfile.mkdtemp(prefix="mapeditr-demo-")
atexit.register(shutil.rmtree, DIR, True)
BIN = os.path.abspath("target/debug/mapeditr")
try:
    Z = ctypes.CDLL("libzstd.so.1")
    Z.ZSTD_compress.restype = Z.ZSTD_decompress.restype = Z.ZSTD_compressBound.restype = ctypes.c_size_t
except OSError: Z = None
def zstd(b):
    n = Z.ZSTD_compressBound(ctypes.c_size_t(len(b))); o = ctypes.create_string_buffer(n)
    k = Z.ZSTD_compress(o, ctypes.c_size_t(n), b, ctypes.c_size_t(len(b)), 3); return o.raw[:k]
def unzstd(b):
    n = 1 << 24; o = ctypes.create_string_buffer(n); k = Z.ZSTD_decompress(o, ctypes.c_size_t(n), b, ctypes.c_size_t(len(b)))
    assert k <= n, "bad zstd data"
    return o.raw[:k]
def key(p): return p[0] + 4096 * p[1] + 16777216 * p[2]
def s16(s): return struct.pack(">H", len(s)) + s
def s32(s): return struct.pack(">I", len(s)) + s
END = b"EndInventory\n"
class Block:
    def __init__(s, names=("air",), ver=28, flags=0, node=None):
        s.ver, s.flags, s.light, s.time = ver, flags, 0xFFFF, 99
        s.names = list(enumerate(names)) if not isinstance(names, dict) else list(names.items())
        s.ids = [s.names[0][0]] * 4096
        s.p1, s.p2 = [15] * 4096, [0] * 4096
        s.meta, s.objs, s.timers = [], [], []   # (pos, {name: (value, private)}, inv); (type, (x, y, z), data); (pos, timeout, elapsed)
    def name(s, i): return dict(s.names).get(s.ids[i])
    def e_names(s): return b"\0" + struct.pack(">H", len(s.names)) + b"".join(struct.pack(">H", i) + s16(n.encode()) for i, n in s.names)
    def e_nodes(s): return struct.pack(">4096H", *s.ids) + bytes(s.p1) + bytes(s.p2)
    def e_meta(s):
        if not s.meta: return b"\0"
        v = 2 if s.ver >= 28 else 1
        o = bytes([v]) + struct.pack(">H", len(s.meta))
        for pos, vs, inv in s.meta:
            o += struct.pack(">HI", pos, len(vs))
            for n, (x, pr) in vs.items(): o += s16(n) + s32(x) + (bytes([pr]) if v == 2 else b"")
            o += inv
        return o
    def e_objs(s): return b"\0" + struct.pack(">H", len(s.objs)) + b"".join(bytes([t]) + struct.pack(">3i", *p) + s16(d) for t, p, d in s.objs)
    def e_timers(s): return b"\x0a" + struct.pack(">H", len(s.timers)) + b"".join(struct.pack(">HII", *t) for t in s.timers)
    def encode(s):
        if s.ver >= 29: return bytes([s.ver]) + zstd(bytes([s.flags]) + struct.pack(">HI", s.light, s.time) + s.e_names() + b"\2\2" + s.e_nodes() + s.e_meta() + s.e_objs() + s.e_timers())
        return bytes([s.ver, s.flags]) + (struct.pack(">H", s.light) if s.ver >= 27 else b"") + b"\2\2" + zlib.compress(s.e_nodes()) + zlib.compress(s.e_meta()) + s.e_objs() + struct.pack(">I", s.time) + s.e_names() + s.e_timers()
class R:
    def __init__(s, b): s.b, s.p = b, 0
    def n(s, k):
        assert s.p + k <= len(s.b), "truncated"
        s.p += k; return s.b[s.p - k:s.p]
    def u(s, f): return struct.unpack(">" + f, s.n(struct.calcsize(">" + f)))
    def s16(s): return s.n(s.u("H")[0])
    def s32(s): return s.n(s.u("I")[0])
    def z(s):
        d = zlib.decompressobj(); x = d.decompress(s.b[s.p:]); s.p = len(s.b) - len(d.unused_data); return R(x)
def decode(b):
    s = Block(); r = R(b); s.ver, = r.u("B")
    assert 25 <= s.ver <= 29
    def names():
        assert r.u("B")[0] == 0
        s.names = [(r.u("H")[0], r.s16().decode()) for _ in range(r.u("H")[0])]
    def nodes(q): s.ids, s.p1, s.p2 = list(q.u("4096H")), list(q.n(4096)), list(q.n(4096))
    def meta(q):
        v, = q.u("B"); s.meta = []
        if v == 0: return
        for _ in range(q.u("H")[0]):
            pos, k = q.u("HI"); vs = {}
            for _ in range(k): n = q.s16(); vs[n] = (q.s32(), q.u("B")[0] if v == 2 else 0)
            e = q.b.index(END, q.p) + len(END); s.meta.append((pos, vs, q.n(e - q.p)))
    def objs():
        assert r.u("B")[0] == 0
        s.objs = [(r.u("B")[0], r.u("3i"), r.s16()) for _ in range(r.u("H")[0])]
    def timers():
        assert r.u("B")[0] == 10
        s.timers = [r.u("HII") for _ in range(r.u("H")[0])]
    if s.ver >= 29:
        r = R(unzstd(b[1:])); s.flags, s.light, s.time = r.u("BHI"); names(); assert r.n(2) == b"\2\2"; nodes(r); meta(r); objs(); timers()
    else:
        s.flags, = r.u("B"); s.light = r.u("H")[0] if s.ver >= 27 else 0xFFFF; assert r.n(2) == b"\2\2"; nodes(r.z()); meta(r.z()); objs(); s.time, = r.u("I"); names(); timers()
    assert r.p == len(r.b), "trailing data"
    return s
class Map:
    def __init__(s, name, blocks=None):
        s.dir = os.path.join(DIR, name); os.makedirs(s.dir); s.file = os.path.join(s.dir, "map.sqlite")
        c = sqlite3.connect(s.file); c.execute("CREATE TABLE blocks (pos INT PRIMARY KEY, data BLOB)")
        for p, b in (blocks or {}).items(): c.execute("INSERT INTO blocks VALUES (?, ?)", (p if isinstance(p, int) else key(p), b if isinstance(b, bytes) else b.encode()))
        c.commit(); c.close()
    def rows(s):
        c = sqlite3.connect(s.file); r = dict(c.execute("SELECT pos, data FROM blocks")); c.close(); return r
    def get(s, p): return decode(s.rows()[key(p)])
def run(m, *a, yes=True, stdin=""):
    r = subprocess.run([BIN] + (["--yes"] if yes else []) + [m if isinstance(m, str) else m.file] + [str(x) for x in a], input=stdin, capture_output=True, text=True, timeout=120)
    r.out = r.stdout + r.stderr
    return r
def idx(x, y, z): return x + 16 * y + 256 * z
def expect(c, what):
    if not c: print("NOT AS IT SHOULD BE: " + what); sys.exit(1)
def box(x0, y0, z0, x1, y1, z1): return ["--p1", x0, y0, z0, "--p2", x1, y1, z1]
def inside(i, b, x0, y0, z0, x1, y1, z1):
    x, y, z = 16 * b[0] + i % 16, 16 * b[1] + i // 16 % 16, 16 * b[2] + i // 256
    return x0 <= x <= x1 and y0 <= y <= y1 and z0 <= z <= z1
