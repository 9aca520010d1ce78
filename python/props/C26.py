"""C26 Parallel transformation writes exactly the transformed nodes"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from collections import Counter

import hypothesis.strategies as st

import model
import pbt
import pool
from pbt import equal, raises, require

pool.install()
from copclib.mp import transform  # noqa: E402

copc = model.copc

ID = "C26"
CORE = True
RULE = ("a case is non-trivial when at least two nodes are processed and the schedule had a choice to make "
        "(or real worker processes ran), or when the call has to report an error")
CASES = (7000, 120000)
PATH, OUT = model.path("source.copc.laz"), model.path("out.laz")
INIT = {}


class Custom(Exception):
    pass


class CustomIndex(IndexError):
    pass


ERRORS = {e.__name__: e for e in (Custom, CustomIndex, ValueError, KeyError, IndexError, TypeError, RuntimeError, OSError, AttributeError,
                                  AssertionError, ZeroDivisionError, MemoryError, EOFError, TimeoutError, NotImplementedError)}


def init(**kw):
    INIT.update(kw)
    INIT["calls"] = INIT.get("calls", 0) + 1


# ---- the callers' functions; they run in the workers --------------------------------------------------------------------
def convert(points, header):
    """The same points in the writer's format"""
    out = copc.Points(header)
    for p in points:
        q = out.CreatePoint()
        q.x, q.y, q.z = p.x, p.y, p.z
        for f in model.FIELDS:
            setattr(q, f, getattr(p, f))
        q.extra_bytes = (list(p.extra_bytes) + [0] * q.EbByteSize())[:q.EbByteSize()]
        out.AddPoint(q)
    return out


def t_convert(points, writer_header, **kw):
    return convert(points, writer_header)


def t_drop(points, node, writer_header, every=2, **kw):
    """Keeps some points, some nodes become empty"""
    out = convert(points, writer_header)
    keep = [p for i, p in enumerate(out) if (i + node.key.x) % every]
    r = copc.Points(writer_header)
    r.AddPoints(keep)
    return r, {"dropped": len(points) - len(keep)}


def t_shift(points, writer_header, reader, node, by=(0, 0, 0), **kw):
    out = convert(points, writer_header)
    for a, d in zip("xyz", by):
        setattr(out, a, [v + d for v in getattr(out, a)])
    return out, {"n": len(out), "where": reader.path, "rest": len(reader.GetAllNodes())}


def t_grow(points, node, writer_header, **kw):
    """Adds a point; nodes without points get one"""
    out = convert(points, writer_header)
    p = out.CreatePoint()
    p.x, p.y, p.z = writer_header.offset.x, writer_header.offset.y, writer_header.offset.z
    p.intensity = node.key.d * 100 + node.key.x
    out.AddPoint(p)
    return out


def t_empty(writer_header, **kw):
    return copc.Points(writer_header), {}


def t_init(points, writer_header, **kw):
    out = convert(points, writer_header)
    out.classification = [INIT["cls"]] * len(out)
    return out


def t_selective(points, node, writer_header, bad=(), error="Custom", **kw):
    if list(model.key_id(node.key)) in [list(b) for b in bad]:
        raise ERRORS[error](str(node.key))
    return convert(points, writer_header)


def t_wrong(points, **kw):
    return points, 5


def t_triple(points, **kw):
    return points, {}, 0


def t_format(points, writer_header, kind="format", **kw):
    """Points in another format than the writer's"""
    fmt, eb = writer_header.point_format_id, writer_header.EbByteSize()
    other, size = (8 if fmt == 6 else 6), writer_header.point_record_length
    if kind == "size":  # the format, but not the extra bytes
        out = copc.Points(fmt, eb + 1)
    elif kind == "length" and size >= model.BASE[other]:  # another format in records of the same length
        out = copc.Points(other, size - model.BASE[other])
    else:
        out = copc.Points(other, eb)
    for p in points:
        q = out.CreatePoint()
        q.x, q.y, q.z = p.x, p.y, p.z
        out.AddPoint(q)
    return out


FUNCTIONS = {"convert": t_convert, "drop": t_drop, "shift": t_shift, "grow": t_grow, "empty": t_empty, "init": t_init,
             "selective": t_selective, "wrong": t_wrong, "triple": t_triple, "format": t_format, "default": None}


@st.composite
def strategy(draw):
    c = {"src": draw(model.source()), "sch": draw(model.schedule()), "out": draw(st.sampled_from(["copc", "copc", "laz"]))}
    c["progress"], c["callback"] = draw(st.booleans()), draw(st.integers(0, 5)) > 0
    n = len(c["src"]["nodes"])
    c["how"] = draw(st.sampled_from(["all"] * 4 + ["nodes"] * 5 + ["resolution"] * 3 + ["both"]))
    if c["how"] in ("nodes", "both"):
        c["nodes"] = draw(st.lists(st.integers(0, n - 1), max_size=12, unique=draw(st.integers(0, 3)) > 0)) if n else []
    if c["how"] in ("resolution", "both"):
        c["resolution"] = draw(st.sampled_from([0, 0.1, 0.7, 1.3, 3, 6, 10, 50]))
    c["fun"] = draw(st.sampled_from(["convert", "drop", "drop", "shift", "shift", "grow", "init", "empty", "selective", "wrong", "triple",
                                     "format", "default", "default"]))
    h = draw(model.header())
    if c["fun"] == "default" and draw(st.integers(0, 3)) != 3:
        h = dict(h, fmt=c["src"]["header"]["fmt"], eb=c["src"]["header"]["eb"])
    if draw(st.booleans()):
        h = dict(h, scale=c["src"]["header"]["scale"], offset=c["src"]["header"]["offset"])
    c["writer"] = h
    c["args"] = {}
    if c["fun"] == "drop":
        c["args"]["every"] = draw(st.integers(1, 3))
    elif c["fun"] == "shift":
        c["args"]["by"] = draw(st.lists(st.integers(-50, 50), min_size=3, max_size=3))
    elif c["fun"] == "format":
        c["args"]["kind"] = draw(st.sampled_from(["format", "size", "length"]))
    elif c["fun"] == "selective" and n:
        c["args"]["bad"] = [c["src"]["nodes"][i][:4] for i in draw(st.lists(st.integers(0, n - 1), max_size=2))]
        c["args"]["error"] = draw(st.sampled_from(sorted(ERRORS)))
    if c["fun"] in ("convert", "drop", "grow") and draw(st.integers(0, 9)) == 4:
        c["args"][draw(st.sampled_from(["points", "node", "writer_header", "reader", "other"]))] = 1
    c["minmax"] = draw(st.booleans())
    c["init"] = {"cls": draw(st.integers(0, 255))} if c["fun"] == "init" or draw(st.integers(0, 4)) == 0 else None
    c["callback_fails"] = draw(st.integers(0, 19)) == 11
    c["callback_error"] = draw(st.sampled_from(sorted(ERRORS))) if c["callback_fails"] else ""
    c["bad_writer"] = draw(st.integers(0, 29)) == 17
    return c


def check(c):
    ids = model.make_file(c["src"], PATH)
    keys = list(ids)
    reader = copc.FileReader(PATH)
    find = lambda ks: [reader.FindNode(model.key(k)) for k in ks]
    sch = c["sch"]
    cur = model.start(sch)
    INIT.clear()
    kw = model.pool_args(sch)
    progress = model.Progress() if c["progress"] else None
    if progress:
        kw["progress"] = progress
    labels = [c["out"], "select " + c["how"], c["fun"], "real processes" if sch["real"] else "drawn schedule"]
    selected = find(keys)
    if "nodes" in c:
        selected = find(keys[i] for i in c["nodes"])
        kw["nodes"] = list(selected)
    if "resolution" in c:
        kw["resolution"] = c["resolution"]
        if c["how"] == "resolution":
            selected = find(model.within(ids, c["resolution"]))
    note = "%s to %s, %d nodes of %d (%s), workers %s, chunks of %s, update bounds %s, args %r" % (
        c["fun"], c["out"], len(selected), len(ids), c["how"], sch["workers"], sch["chunk"], c["minmax"], c["args"])

    laz = c["out"] == "laz"
    config = model.make_config(c["writer"], laz)
    config.las_header.min, config.las_header.max = [1, 2, 3], [4, 5, 6]
    plain = model.make_config(c["writer"]).las_header
    real_writer = writer = (copc.LazWriter if laz else copc.FileWriter)(OUT, config)
    header = writer.laz_config.las_header if laz else writer.copc_config.las_header
    if c["bad_writer"]:
        writer = object()
    got = []

    def callback(node, point_count, compressed_points, **ret):
        got.append((model.node_id(node), point_count, compressed_points if point_count else None, ret))
        if c["callback_fails"]:
            raise ERRORS[c["callback_error"]]("callback")
    args, before = dict(c["args"]), dict(c["args"])
    if FUNCTIONS[c["fun"]] is not None:
        kw["transform_function"] = FUNCTIONS[c["fun"]]
    if args:
        kw["transform_function_args"] = args
    if c["init"]:
        kw["mp_init_function"], kw["mp_init_function_args"] = init, c["init"]
        INIT.update(c["init"])  # for the expectation
    if c["minmax"]:
        kw["update_minmax"] = True
    call = lambda: transform.transform_multithreaded(reader, writer, completed_callback=callback if c["callback"] else None, **kw)
    fun = FUNCTIONS[c["fun"]] or (lambda points, **kw: points)

    # what one process would do, node after node
    expected, fails, kinds = [], False, set()
    mins, maxs = [], []
    for n in selected:
        try:
            require_names = [a for a in args if a in ("points", "node", "writer_header", "reader")]
            if require_names:
                raise AssertionError(require_names)
            r = fun(points=reader.GetPoints(n), node=n, writer_header=plain, reader=reader, **args)
            ps, ret = r if isinstance(r, tuple) else (r, {})
            if not isinstance(ret, dict):
                raise AssertionError()
            if len(ps) and (ps.point_format_id != plain.point_format_id or ps.point_record_length != plain.point_record_length):
                raise RuntimeError("format")
            raw = ps.Pack(plain)._bytes()
        except Exception as e:
            fails = True
            kinds.add(type(e))
            continue
        expected.append((model.node_id(n), len(ps), raw, ret))
        if len(ps):
            ps = copc.Points.Unpack(ps.Pack(plain), plain)  # as written
            mins.append([min(ps.x), min(ps.y), min(ps.z)])
            maxs.append([max(ps.x), max(ps.y), max(ps.z)])
    INIT.clear()
    if not laz:  # a node that is written once can't be written again
        once = Counter(i[0] for i, n, _, _ in expected if n)
        if any(v > 1 for v in once.values()):
            fails = True
            kinds.add(RuntimeError)

    def content(count, data):
        return copc.DecompressBytes(data, plain, count)._bytes()

    def written():
        """What the finished file holds: the nodes of a COPC file, the records of a LAZ file"""
        chunks = real_writer.chunk_count if laz else None
        real_writer.Close()
        if laz:
            r = copc.LazReader(OUT)
            h = r.laz_config.las_header
            data = r.GetPoints().Pack(plain)._bytes()
            size = plain.point_record_length
            out = Counter(data[i:i + size] for i in range(0, len(data), size))
        else:
            r = copc.FileReader(OUT)
            h = r.copc_config.las_header
            out = Counter((model.key_id(n.key), model.key_id(n.page_key), n.point_count, r.GetPointData(n)._bytes()) for n in r.GetAllNodes())
            r.Close()
        equal(h.point_count, sum(out.values()) if laz else sum(k[2] for k in out), "number of points in the header")
        return out, h, chunks

    def want(nodes):
        if not laz:
            return Counter((i[0], i[1], n, raw) for i, n, raw, _ in nodes if n)
        size = plain.point_record_length
        return Counter(raw[i:i + size] for _, n, raw, _ in nodes for i in range(0, len(raw), size))

    def calls(v):
        return Counter(repr(g) for g in v)
    called = [(i, n, raw, ret) for i, n, raw, ret in expected]
    if c["bad_writer"] or c["how"] == "both":
        raises(call, "a writer of no known type" if c["bad_writer"] else "a list of nodes together with a resolution", (RuntimeError,))
        equal(got, [], "calls of the callback")
        return labels + ["refused"], True, note
    if model.bad_chunk(sch) and not selected:
        return labels, False, note
    if model.bad_chunk(sch):  # no chunk can hold a node: nothing must seem to have been transformed
        raises(call, "chunks of %s nodes" % sch["chunk"])
        equal(got, [], "calls of the callback")
        equal(written()[0], Counter(), "what was written")
        return labels + ["refused"], True, note
    if fails or (selected and c["callback"] and c["callback_fails"]):
        raises(call, "an error raised for a node", tuple(kinds) if c["fun"] == "selective" and not c["callback_fails"] else (Exception,))
        w = written()[0]
        w.subtract(want(expected))
        require(all(v <= 0 for v in w.values()), "something else than transformed nodes was written before the error")
        if c["callback_fails"] and c["callback"]:
            require(len(got) <= 1, "the callback was called again after it had failed")
        return labels + ["error reported"], True, note
    call()
    require(args == before, "the caller's arguments were changed")
    if "nodes" in c:
        equal([model.node_id(n) for n in kw["nodes"]], [model.node_id(n) for n in selected], "the caller's list of nodes")
    out, final, chunks = written()
    equal(out, want(expected), "what was written")
    if laz:
        equal(chunks, sum(1 for _, n, _, _ in expected if n), "number of chunks")
    for a in ("min", "max"):
        require(getattr(final, a) == getattr(header, a), "%s of the finished file is %s, of the writer's header %s" % (a, getattr(final, a), getattr(header, a)))
    if c["callback"]:
        equal(calls((i, n, content(n, d) if n else b"", ret) for i, n, d, ret in got), calls(called), "calls of the callback")
    if c["minmax"]:
        for name, vals, best in (("min", mins, min), ("max", maxs, max)):
            for a in range(3):
                v = best([m[a] for m in vals]) if vals else 0.0
                h = getattr(getattr(header, name), "xyz"[a])
                require(h == v, "%s %s of the header is %r, of what was written %r" % (name, "xyz"[a], h, v))
    else:
        require(header.min == copc.Vector3(1, 2, 3) and header.max == copc.Vector3(4, 5, 6), "the bounds of the header were changed")
    require((header.point_format_id, header.point_record_length, header.scale, header.offset)
            == (plain.point_format_id, plain.point_record_length, plain.scale, plain.offset), "the header was changed")
    model.check_pools(sch, require)
    if c["init"] and selected and not sch["real"]:
        require(INIT.get("calls", 0) == sum(p.started for p in cur.pools), "the caller's initialiser ran %r times for %d workers" %
                (INIT.get("calls", 0), sum(p.started for p in cur.pools)))
    if progress:
        equal(progress.n, len(selected), "progress")
        if "nodes" not in c:
            equal(progress.total, len(selected), "progress total")
    if any(n == 0 for _, n, _, _ in expected) and expected:
        labels.append("empty nodes")
    if len(selected) >= 2 and (cur.branching or sch["real"]):
        return labels + ["several nodes"], True, note
    return labels, False, note


if __name__ == "__main__":
    sys.exit(pbt.main(sys.modules[__name__]))
