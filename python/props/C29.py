"""C29 Pickling preserves values"""
import copy
import os
import pickle
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

import hypothesis.strategies as st

import core
import pbt
from pbt import equal, require, same

copc = core.install()
ID = "C29"
CORE = True
RULE = "a case is non-trivial when the value differs from a default-constructed one in at least two attributes"
CASES = (20000, 600000)

I32 = st.one_of(st.integers(-3, 9), st.integers(-2**31, 2**31 - 1), st.sampled_from([-2**31, 2**31 - 1]))
U16 = st.one_of(st.integers(0, 9), st.integers(0, 2**16 - 1))
U32 = st.one_of(st.integers(0, 9), st.integers(0, 2**32 - 1), st.just(2**32 - 1))
U64 = st.one_of(st.integers(0, 9), st.integers(0, 2**64 - 1), st.sampled_from([2**63, 2**64 - 1, 2**32]))
F = st.one_of(st.floats(-10, 10), st.floats(), st.sampled_from([0.0, -0.0, 1e308, 5e-324, 0.1]))
V3 = st.tuples(F, F, F).map(list)
KEY = st.tuples(I32, I32, I32, I32).map(list)


def text(n):
    """Bytes for a text field, as latin-1"""
    return st.one_of(st.text("abc XYZ-\x00", max_size=n), st.binary(max_size=n).map(lambda b: b.decode("latin-1")),
                     st.just("\xff" * n), st.text("a\xe9", min_size=n, max_size=n))


HEADER = {"file_source_id": U16, "global_encoding": U16, "guid": text(16), "system_identifier": text(32), "generating_software": text(32),
          "creation_day": U16, "creation_year": U16, "point_offset": U32, "vlr_count": U32, "point_format_id": st.sampled_from([6, 7, 8]),
          "extra": st.one_of(st.integers(0, 40), st.integers(0, 60000)), "scale": V3, "offset": V3, "max": V3, "min": V3, "evlr_offset": U64,
          "evlr_count": U32, "point_count": U64, "points_by_return": st.lists(U64, min_size=15, max_size=15), "copc": st.booleans()}


@st.composite
def strategy(draw):
    kind = draw(st.sampled_from(["Vector3", "VoxelKey", "Node", "LasHeader", "LasHeader", "LasHeader", "VectorChar"]))
    c = {"kind": kind, "protocol": draw(st.sampled_from([2, 3, 4, 5, "copy", "deepcopy", "list", "twice"]))}
    if kind == "Vector3":
        c["v"] = draw(V3)
    elif kind == "VoxelKey":
        c["v"] = draw(KEY)
    elif kind == "Node":
        c["v"] = [draw(KEY), draw(U64), draw(I32), draw(I32), draw(KEY)]
    elif kind == "VectorChar":
        c["v"] = draw(st.one_of(st.binary(max_size=40), st.binary(max_size=3).map(lambda b: b * 700))).decode("latin-1")
    else:
        c["v"] = {k: draw(s) for k, s in HEADER.items()}
        # how the object is made: from a state, from a configuration, from a file that was read
        c["from"] = draw(st.sampled_from(["state"] * 6 + ["config"] * 3 + ["file"]))
    return c


V = ("x", "y", "z")
TEXTS = ("guid", "system_identifier", "generating_software")
SETTABLE = TEXTS + ("file_source_id", "global_encoding", "creation_day", "creation_year", "max", "min", "points_by_return")
K = ("d", "x", "y", "z")


def attrs(o, names):
    return [getattr(o, n) for n in names]


def state(kind, o):
    """Every attribute of the object, as plain values"""
    if kind == "Vector3":
        return attrs(o, V)
    if kind == "VoxelKey":
        return attrs(o, K)
    if kind == "Node":
        return [attrs(o.key, K), o.offset, o.byte_size, o.point_count, attrs(o.page_key, K)]
    if kind == "VectorChar":
        return list(o)
    s = {n: getattr(o, n) for n in ("file_source_id", "global_encoding", "creation_day", "creation_year", "point_offset", "vlr_count",
                                    "point_format_id", "point_record_length", "evlr_offset", "evlr_count", "point_count",
                                    "points_by_return")}
    for n in ("scale", "offset", "max", "min"):
        s[n] = attrs(getattr(o, n), V)
    for n in TEXTS:
        try:
            s[n] = getattr(o, n)
        except UnicodeDecodeError as e:
            s[n] = e.object
    s["eb"], s["span"] = o.EbByteSize(), o.Span()
    try:
        s["copc"] = [x for x in o.__getstate__() if isinstance(x, bool)]
    except UnicodeDecodeError:
        pass
    return s


def make(c):
    k, v = c["kind"], c["v"]
    if k == "Vector3":
        return copc.Vector3(*v)
    if k == "VoxelKey":
        return copc.VoxelKey(*v)
    if k == "Node":
        n = copc.Node()
        n.key, n.offset, n.byte_size, n.point_count, n.page_key = copc.VoxelKey(*v[0]), v[1], v[2], v[3], copc.VoxelKey(*v[4])
        return n
    if k == "VectorChar":
        return copc.VectorChar(v.encode("latin-1")) if hasattr(copc.VectorChar, "__buffer__") else fill(v)
    b = {n: v[n].encode("latin-1") for n in TEXTS}
    base = {6: 30, 7: 36, 8: 38}[v["point_format_id"]]
    if c["from"] == "state":
        h = copc.LasHeader()
        try:
            h.__setstate__((v["file_source_id"], v["global_encoding"], b["guid"], b["system_identifier"], b["generating_software"],
                            v["creation_day"], v["creation_year"], v["point_offset"], v["vlr_count"], v["point_format_id"],
                            base + v["extra"], copc.Vector3(*v["scale"]), copc.Vector3(*v["offset"]), copc.Vector3(*v["max"]),
                            copc.Vector3(*v["min"]), v["evlr_offset"], v["evlr_count"], v["point_count"], v["points_by_return"], v["copc"]))
            return h
        except (RuntimeError, TypeError):
            pass  # the state has another form: nothing but round trips can be said about it
    cfg = (copc.CopcConfigWriter if v["copc"] else copc.LazConfigWriter)(v["point_format_id"], v["scale"], v["offset"])
    h = cfg.las_header
    if c["from"] == "file":
        cfg = copc.CopcConfigWriter(v["point_format_id"], [0.5, 0.25, 0.125], [1, 2, 3])
        for n, x in b.items():
            setattr(cfg.las_header, n, x)
        path = os.path.join(os.environ.get("PBT_TMP", "/tmp"), "C29-%d.copc.laz" % os.getpid())
        w = copc.FileWriter(path, cfg)
        for i in range(v["vlr_count"] % 3):
            pts = copc.Points(w.copc_config.las_header)
            for _ in range(1 + v["extra"] % 3):
                pts.AddPoint(pts.CreatePoint())
            w.AddNode(copc.VoxelKey(1, i, 0, 0), pts)
        w.Close()
        r = copc.FileReader(path)
        h = r.copc_config.las_header
        r.Close()
        os.unlink(path)
    for n in ("file_source_id", "global_encoding", "creation_day", "creation_year", "max", "min", "points_by_return"):
        setattr(h, n, copc.Vector3(*v[n]) if n in ("max", "min") else v[n])
    for n, x in b.items():
        setattr(h, n, x)
    return h


def fill(v):
    o = copc.VectorChar()
    for ch in v:
        o.append(ch)
    return o


def expected(c):
    k, v = c["kind"], c["v"]
    if k in ("Vector3", "VoxelKey", "Node"):
        return v
    if k == "VectorChar":
        return list(v)
    base = {6: 30, 7: 36, 8: 38}[v["point_format_id"]]
    e = {n: v[n] for n in HEADER if n not in ("extra", "copc")}
    for n in TEXTS:
        b = v[n].encode("latin-1")
        try:
            e[n] = b.decode()
        except UnicodeDecodeError:
            e[n] = b
    e["point_record_length"], e["eb"] = base + v["extra"], v["extra"]
    return e


def restore(o, how):
    if how == "copy":
        return copy.copy(o)
    if how == "deepcopy":
        return copy.deepcopy(o)
    if how == "list":
        a, b, s = pickle.loads(pickle.dumps([o, o, "x"]))
        require(a is b, "the same object twice in a list became two objects")
        return a
    if how == "twice":
        return pickle.loads(pickle.dumps(pickle.loads(pickle.dumps(o))))
    return pickle.loads(pickle.dumps(o, protocol=how))


def check(c):
    o = make(c)
    want, before = expected(c), state(c["kind"], o)
    if c["kind"] == "LasHeader":
        for n, w in ((n, w) for n, w in want.items() if n in SETTABLE and c["from"] != "state"):
            same(before[n], w, "attribute %s of the object itself" % n)
    else:
        same(before, want, "attributes of the object itself")
    got = restore(o, c["protocol"])
    require(type(got) is type(o) and got is not o, "another type or the same object came back")
    after = state(c["kind"], got)
    if c["kind"] == "LasHeader":
        for n in before:
            same(after[n], before[n], "attribute " + n)
    else:
        same(after, before, "attributes")
    same(state(c["kind"], o), before, "the original after pickling")
    if c["kind"] == "VoxelKey":
        require(got == o and hash(got) == hash(o), "the restored key is not equal")
    if c["kind"] == "VectorChar":
        require(got == o, "the restored bytes are not equal")
    if c["kind"] == "Vector3" and all(x == x and abs(x) != float("inf") for x in c["v"]):
        require(got == o, "the restored vector is not equal")
    # a changed copy leaves the original
    if c["kind"] == "Node":
        got.key.d, got.page_key.x, got.offset = 77, 78, 79
    elif c["kind"] == "Vector3":
        got.x = 77
    elif c["kind"] == "LasHeader":
        got.max.x, got.file_source_id, got.guid = 77, 78, "other"
    same(state(c["kind"], o), before, "the original after its copy was changed")
    labels = [c["kind"] + (" from " + c["from"] if "from" in c else ""), "via %s" % c["protocol"]]
    plain = state(c["kind"], getattr(copc, c["kind"])())
    if isinstance(plain, dict):
        differ = sum(repr(plain[k]) != repr(before[k]) for k in plain)
        if any(isinstance(before[k], bytes) for k in before):
            labels.append("binary text")
    else:
        differ = sum(repr(a) != repr(b) for a, b in zip(plain, before)) + abs(len(plain) - len(before))
    return labels, differ >= 2, "%s %s via %s" % (c["kind"], repr(c["v"])[:150], c["protocol"])


if __name__ == "__main__":
    sys.exit(pbt.main(sys.modules[__name__]))
