"""C25 Parallel reading visits every selected node once with the right results"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from collections import Counter

import hypothesis.strategies as st
import numpy as np

import model
import pbt
import pool
from pbt import Violation, equal, raises, require

pool.install()
from copclib.mp import read  # noqa: E402

copc = model.copc

ID = "C25"
CORE = True
RULE = ("a case is non-trivial when at least two nodes are processed and the schedule had a choice to make "
        "(or real worker processes ran), or when the call has to report an error")
CASES = (9000, 150000)
PATH = model.path("source.copc.laz")


class Custom(Exception):
    pass


class CustomIndex(IndexError):
    pass


ERRORS = {e.__name__: e for e in (Custom, CustomIndex, ValueError, KeyError, IndexError, TypeError, RuntimeError, OSError, AttributeError,
                                  AssertionError, ZeroDivisionError, MemoryError, EOFError, TimeoutError, NotImplementedError)}


# ---- the callers' functions; they run in the workers -------------------------------------------------------------------
def f_empty(points, node, reader):
    return {}


def f_count(points, node, reader, **kw):
    return {"n": len(points), "where": reader.path, "kw": sorted(kw.items()), "off": node.offset}


def f_points(points, **kw):
    return {"pts": [model.point_id(p) for p in points]}


def f_reader(node, reader, points):
    return {"again": [model.point_id(p) for p in reader.GetPoints(node)], "rest": len(reader.GetAllNodes())}


def f_selective(points, node, reader, bad=(), error="Custom", **kw):
    if list(model.key_id(node.key)) in [list(b) for b in bad]:
        raise ERRORS[error](str(node.key))
    return {"n": len(points)}


def f_wrong(points, **kw):
    return [len(points)]


FUNCTIONS = {"empty": f_empty, "count": f_count, "points": f_points, "reader": f_reader, "selective": f_selective, "wrong": f_wrong}


@st.composite
def strategy(draw):
    c = {"src": draw(model.source()), "sch": draw(model.schedule()), "kind": draw(st.sampled_from(["read", "read", "concat", "map"]))}
    c["progress"], c["callback"] = draw(st.booleans()), draw(st.integers(0, 5)) > 0
    n = len(c["src"]["nodes"])
    how = draw(st.sampled_from(["all"] * 4 + ["nodes"] * 5 + ["resolution"] * 3 + ["both"]))
    c["how"] = how
    if how in ("nodes", "both"):
        c["nodes"] = draw(st.lists(st.integers(0, n - 1), max_size=12)) if n else []
    if how in ("resolution", "both"):
        c["resolution"] = draw(st.sampled_from([0, 0.1, 0.7, 1.3, 3, 6, 10, 50]))
    if c["kind"] == "read":
        c["fun"] = draw(st.sampled_from(sorted(FUNCTIONS) + ["count", "points"]))
        c["args"] = {}
        if c["fun"] in ("count", "points", "selective"):
            c["args"] = draw(st.dictionaries(st.sampled_from(["a", "bb", "points", "node", "reader"] if draw(st.integers(0, 9)) == 4 else ["a", "bb", "c"]),
                                             st.one_of(st.integers(-3, 3), st.text("xyz", max_size=2)), max_size=2))
        if c["fun"] == "selective" and n:
            c["args"]["bad"] = [c["src"]["nodes"][i][:4] for i in draw(st.lists(st.integers(0, n - 1), max_size=2))]
            c["args"]["error"] = draw(st.sampled_from(sorted(ERRORS)))
        c["callback_fails"] = draw(st.integers(0, 19)) == 11
        c["callback_error"] = draw(st.sampled_from(sorted(ERRORS))) if c["callback_fails"] else ""
    else:
        c["limits"] = draw(st.one_of(st.just("default"), st.none(), st.lists(st.sampled_from([0, 1, 2, 5, 7, 255]), max_size=3), st.sampled_from([3, "2"])))
        c["reserved"] = draw(st.sampled_from([None] * 12 + ["filter_function", "filter_function_args", "completed_callback"]))
    return c


def check(c):
    ids = model.make_file(c["src"], PATH)
    keys = list(ids)
    reader = copc.FileReader(PATH)
    find = lambda ks: [reader.FindNode(model.key(k)) for k in ks]
    sch = c["sch"]
    cur = model.start(sch)
    kw = model.pool_args(sch)
    progress = model.Progress() if c["progress"] else None
    if progress:
        kw["progress"] = progress
    labels = [c["kind"], "select " + c["how"], "real processes" if sch["real"] else "drawn schedule"]
    selected = find(keys)
    if "nodes" in c:
        selected = find(keys[i] for i in c["nodes"])
        kw["nodes"] = list(selected)
    if "resolution" in c:
        kw["resolution"] = c["resolution"]
        if c["how"] == "resolution":
            selected = find(model.within(ids, c["resolution"]))
    wanted = [model.node_id(n) for n in selected]
    require(all(w == ids[w[0]] for w in wanted), "the nodes of the file are not those written")
    note = "%s of %d nodes in a file of %d (%s), workers %s, chunks of %s" % (c["kind"], len(selected), len(ids), c["how"], sch["workers"], sch["chunk"])

    if c["kind"] == "read":
        got = []

        def callback(node, **ret):
            got.append((model.node_id(node), ret))
            if c["callback_fails"]:
                raise ERRORS[c["callback_error"]]("callback")
        args, before = dict(c["args"]), dict(c["args"])
        call = lambda: read.read_multithreaded(reader, FUNCTIONS[c["fun"]], read_function_args=args,
                                               completed_callback=callback if c["callback"] else None, **kw)
        note += ", function %s(%s)" % (c["fun"], args)
        bad = [list(b) for b in args.get("bad", ())]
        fails = (any(list(w[0]) in bad for w in wanted) or (c["callback"] and c["callback_fails"]) or c["fun"] == "wrong"
                 or any(a in ("points", "node", "reader") for a in args)) and len(wanted) > 0
        if c["how"] == "both":
            raises(call, "a list of nodes together with a resolution", (RuntimeError,))
            equal(got, [], "calls of the callback")
            return labels + ["refused"], True, note
        if model.bad_chunk(sch) and not selected:
            return labels, False, note
        if model.bad_chunk(sch):
            raises(call, "chunks of %s nodes" % sch["chunk"])
            equal(got, [], "calls of the callback")
            return labels + ["refused"], True, note
        expected = []
        for n in selected:
            try:
                expected.append((model.node_id(n), FUNCTIONS[c["fun"]](points=reader.GetPoints(n), node=n, reader=reader, **args)))
            except Exception:
                pass
        if fails:
            only = bad and c["fun"] == "selective" and not c["callback_fails"] and not any(a in ("points", "node", "reader") for a in args)
            raises(call, "an error raised for a node", (ERRORS[args["error"]],) if only else (Exception,))
            left = Counter(repr(e) for e in expected)
            left.subtract(Counter(repr(g) for g in got))
            require(all(v >= 0 for v in left.values()), "the callback was called with something else before the error: %.300r" % got)
            if c["callback_fails"] and c["callback"]:
                require(len(got) <= 1, "the callback was called again after it had failed")
            return labels + ["error reported"], True, note
        ret = call()
        require(args == before, "the caller's arguments were changed")
        if "nodes" in c:
            equal([model.node_id(n) for n in kw["nodes"]], wanted, "the caller's list of nodes")
        if c["callback"]:
            equal(Counter(repr(g) for g in got), Counter(repr(e) for e in expected), "calls of the callback")
    else:
        fun = read.read_concat_xyz_class_limit if c["kind"] == "concat" else read.read_map_xyz_class_limit
        limits = c["limits"]
        if limits != "default":
            kw["classification_limits"] = limits
        invalid = limits != "default" and limits is not None and not isinstance(limits, list)
        if c["reserved"]:
            kw[c["reserved"]] = None
            raises(lambda: fun(reader, **kw), "the reserved argument " + c["reserved"], (Exception,) if invalid else (RuntimeError,))
            return labels + ["refused"], True, note
        if invalid:
            raises(lambda: fun(reader, **kw), "classification limits that are no list")
            return labels + ["refused"], True, note
        if c["how"] == "both":
            raises(lambda: fun(reader, **kw), "a list of nodes together with a resolution", (RuntimeError,))
            return labels + ["refused"], True, note
        if model.bad_chunk(sch) and not selected:
            return labels, False, note
        if model.bad_chunk(sch):
            raises(lambda: fun(reader, **kw), "chunks of %s nodes" % sch["chunk"])
            return labels + ["refused"], True, note
        ret = fun(reader, **kw)
        take = lambda p: limits in ("default", None, []) or p.classification in limits
        each = [(str(n.key), [(p.x, p.y, p.z) for p in reader.GetPoints(n) if take(p)]) for n in selected]
        note += ", limits %r" % (limits,)
        if c["kind"] == "concat":
            ret = np.asarray(ret)
            rows = [r for _, v in each for r in v]
            equal(ret.shape, (len(rows), 3), "shape of the result")
            equal(Counter(map(tuple, ret.tolist())), Counter(rows), "coordinates")
        else:
            want = {k: v for k, v in each if v}
            equal(sorted(ret), sorted(want), "nodes of the map")
            for k, v in want.items():
                equal([tuple(r) for r in np.asarray(ret[k]).tolist()], v, "coordinates of " + k)
    model.check_pools(sch, require)
    if progress:
        equal(progress.n, len(selected), "progress")
        if "nodes" not in c:
            equal(progress.total, len(selected), "progress total")
    if len(selected) >= 2 and (cur.branching or sch["real"]):
        return labels + ["several nodes"], True, note
    return labels, False, note


if __name__ == "__main__":
    sys.exit(pbt.main(sys.modules[__name__]))
