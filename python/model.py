"""Generated files and schedules shared by C25 and C26"""
import hypothesis.strategies as st
import atexit
import os
import shutil
import struct
import tempfile

import core
import pool

copc = core.install()
BASE = {6: 30, 7: 36, 8: 38}
FIELDS = ("intensity", "classification", "point_source_id", "user_data")
SPACING = 10.0
TMP = tempfile.mkdtemp(prefix="mp-", dir=os.environ.get("PBT_TMP") or None)
MAIN = os.getpid()


@atexit.register
def _clean():
    if os.getpid() == MAIN:
        shutil.rmtree(TMP, ignore_errors=True)

INT = st.one_of(st.integers(-5, 5), st.integers(-2**31, 2**31 - 1))


def quant():
    return st.tuples(st.sampled_from([0.01, 1.0, 0.5, 0.001, 1e-6]), st.sampled_from([0.0, 0.0, 100.0, -12.5]))


@st.composite
def header(draw):
    q = [draw(quant()) for _ in range(3)]
    return {"fmt": draw(st.sampled_from([6, 7, 8])), "eb": draw(st.sampled_from([0, 0, 1, 7])),
            "scale": [a for a, _ in q], "offset": [b for _, b in q]}


@st.composite
def points(draw, most):
    n = draw(st.one_of(st.integers(0, 3), st.integers(1, most)))
    return [[draw(INT), draw(INT), draw(INT), draw(st.integers(0, 65535)), draw(st.sampled_from([0, 1, 2, 2, 5, 255]))] for _ in range(n)]


@st.composite
def keys(draw, most):
    n = draw(st.one_of(st.integers(0, 3), st.integers(0, most)))
    out, seen = [], set()
    for _ in range(n):
        d = draw(st.integers(0, 4))
        k = [d] + [draw(st.integers(0, (1 << d) - 1)) for _ in range(3)]
        if tuple(k) not in seen:
            seen.add(tuple(k))
            out.append(k + [draw(st.integers(0, d))])  # the depth of the node's page
    return out


@st.composite
def schedule(draw):
    real = draw(st.integers(0, 300)) == 137
    return {"choices": draw(st.lists(st.integers(0, 7), max_size=24)), "eager": draw(st.sampled_from([0, 0, 1, 3])), "real": real,
            "workers": draw(st.sampled_from([None, 1, 2, 3, 8] if not real else [None, 1, 2])),
            "chunk": draw(st.sampled_from([None, 1, 2, 3, 1024] * 12 + [0, -1, -3]))}


@st.composite
def source(draw, most=12, most_points=6):
    return {"header": draw(header()), "nodes": [k + [draw(points(most_points))] for k in draw(keys(most))]}


def path(name):
    return os.path.join(TMP, name)


def make_config(h, laz=False):
    cls = copc.LazConfigWriter if laz else copc.CopcConfigWriter
    return cls(h["fmt"], scale=h["scale"], offset=h["offset"], extra_bytes_vlr=copc.EbVlr(h["eb"]))


def key(t):
    return copc.VoxelKey(*t)


def key_id(k):
    return (k.d, k.x, k.y, k.z)


def node_id(n):
    return (key_id(n.key), key_id(n.page_key), n.offset, n.byte_size, n.point_count)


def point_id(p):
    return (p.x, p.y, p.z) + tuple(getattr(p, f) for f in FIELDS) + (tuple(p.extra_bytes),)


def make_file(c, name):
    """Writes the file of the case -> the ids of its nodes, by key"""
    cfg = make_config(c["header"])
    cfg.copc_info.spacing = SPACING
    w = copc.FileWriter(name, cfg)
    h = w.copc_config.las_header
    ids, empty = {}, []
    for i, (d, x, y, z, pd, pts) in enumerate(c["nodes"]):
        ps = copc.Points(h)
        for j, p in enumerate(pts or [[0, 0, 0, 0, 0]]):
            q = ps.CreatePoint()
            q.x, q.y, q.z = (p[a] * c["header"]["scale"][a] + c["header"]["offset"][a] for a in range(3))
            q.intensity, q.classification = p[3], p[4]
            q.point_source_id = (i * 600 + j) % 65536
            q.extra_bytes = [(j * 7 + b) % 256 for b in range(c["header"]["eb"])]
            ps.AddPoint(q)
        page = (pd, x >> (d - pd), y >> (d - pd), z >> (d - pd))
        n = w.AddNode(key((d, x, y, z)), ps, key(page))
        ids[(d, x, y, z)] = ((d, x, y, z), page, n.offset, n.byte_size if pts else 0, len(pts))
        if not pts:
            empty.append((d, x, y, z, n.offset, n.byte_size, 1))
    w.Close()
    if empty:  # the library does not write nodes without points, other producers do
        with open(name, "r+b") as f:
            data = f.read()
            for e in empty:
                at = data.index(struct.pack("<iiiiQii", *e))
                f.seek(at)
                f.write(struct.pack("<iiiiQii", *e[:5], 0, 0))
    return ids


def within(ids, resolution):
    """The nodes up to a resolution: spacing / 2^depth, at most the deepest node"""
    deepest = max([k[0] for k in ids], default=-1)
    d = 0
    while d < deepest and SPACING / 2**d > resolution:
        d += 1
    return [k for k in ids if resolution <= 0 or k[0] <= d]


class Progress:
    """As much of tqdm as is used"""

    def __init__(self):
        self.n, self.total, self.resets = 0, None, 0

    def reset(self, total=None):
        self.n, self.total = 0, total
        self.resets += 1

    def update(self, n=1):
        self.n += n


def start(sch):
    pool.current = pool.Schedule(sch["choices"], sch["eager"], sch["real"])
    return pool.current


def pool_args(sch):
    k = {}
    if sch["workers"] is not None:
        k["max_workers"] = sch["workers"]
    if sch["chunk"] is not None:
        k["chunk_size"] = sch["chunk"]
    return k


def bad_chunk(sch):
    return sch["chunk"] is not None and sch["chunk"] < 1


def check_pools(sch, require):
    """Documented limits on the pool"""
    cur = pool.current
    if cur.real:
        return
    for p in cur.pools:
        if sch["workers"] is not None:
            require(p.given is not None and p.given <= sch["workers"], "a pool of %r workers was asked for, %r given" % (p.given, sch["workers"]))
        require(p.closed or not p.pending, "tasks are left in the pool")
    limit = sch["chunk"] or 1024
    require(cur.most <= limit, "%d nodes were queued at once, the limit is %d" % (cur.most, limit))
