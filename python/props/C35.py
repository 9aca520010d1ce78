"""C35 The Python classes give the library's results"""
import math
import os
import struct
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

import hypothesis.strategies as st

import core
import pbt
from pbt import Violation, equal, raises, require, same

copc = core.install()
ID = "C35"
CORE = True
RULE = ("a case is non-trivial when at least three attributes or elements were changed or compared with values that all differ, "
        "or a file with at least two nodes or chunks was written and read")
CASES = (16000, 300000)
BASE = {6: 30, 7: 36, 8: 38}
TMP = os.environ.get("PBT_TMP", "/tmp")

F = st.one_of(st.integers(-1000, 1000).map(float), st.floats(-1e6, 1e6), st.sampled_from([0.0, 0.1, -0.5, 1e300, -1e-300]))
V3 = st.tuples(F, F, F).map(list)
U8, U16 = st.integers(0, 255), st.one_of(st.integers(0, 9), st.integers(0, 65535))
FMT = st.sampled_from([6, 7, 8])
SCALE = st.sampled_from([0.01, 1.0, 0.5, 0.125, 1e-3])
SMALL = st.integers(-100000, 100000)

# ---- points ------------------------------------------------------------------------------------------------------------
BITS = {"return_number": ("r", 0, 4), "number_of_returns": ("r", 4, 4), "synthetic": ("f", 0, 1), "key_point": ("f", 1, 1),
        "withheld": ("f", 2, 1), "overlap": ("f", 3, 1), "scanner_channel": ("f", 4, 2), "scan_direction_flag": ("f", 6, 1),
        "edge_of_flight_line": ("f", 7, 1), "returns_bit_field": ("r", 0, 8), "flags_bit_field": ("f", 0, 8)}
FLAGS = ("synthetic", "key_point", "withheld", "overlap", "scan_direction_flag", "edge_of_flight_line")
PLAIN = {"x": F, "y": F, "z": F, "intensity": U16, "classification": U8, "scan_angle": st.integers(-30000, 30000), "user_data": U8,
         "point_source_id": U16, "gps_time": F}
RGB, NIR = ("red", "green", "blue"), ("nir",)
ATTRS = sorted(PLAIN) + sorted(BITS) + list(RGB + NIR) + ["extra_bytes", "rgb", "scan_angle_degrees"]


@st.composite
def assignment(draw):
    a = draw(st.sampled_from(ATTRS))
    bad = draw(st.integers(0, 9)) == 7
    if a in BITS:
        n = BITS[a][2]
        if a in FLAGS:
            return [a, draw(st.booleans())]
        return [a, draw(st.sampled_from([1 << n, 256, -1, 1000]) if bad else st.integers(0, (1 << n) - 1))]
    if a in RGB + NIR:
        return [a, draw(st.sampled_from([-1, 65536, 1.5]) if bad else U16)]
    if a == "rgb":
        return [a, draw(st.lists(U16, max_size=4) if bad else st.lists(U16, min_size=3, max_size=3))]
    if a == "extra_bytes":
        return [a, draw(st.lists(U8, max_size=4))]
    if a == "scan_angle_degrees":
        return [a, draw(st.sampled_from([196.7, -196.7, 393.2, -500.0, 1e9, float("inf"), float("nan")])) if bad else draw(st.integers(-1790, 1790)) / 10]
    if bad and a not in "xyz" and a != "gps_time":
        return [a, draw(st.sampled_from([-40000, 65536, 70000, "a", 2.5]))]
    return [a, draw(PLAIN[a])]


class Model:
    """A point's fields"""

    def __init__(self, fmt, eb):
        self.fmt = fmt
        self.v = {a: 0.0 if a in ("x", "y", "z", "gps_time") else 0 for a in PLAIN}
        self.v.update({a: 0 for a in RGB + NIR})
        self.r = self.f = 0
        self.v["extra_bytes"] = [0] * eb

    def copy(self):
        m = Model(self.fmt, 0)
        m.v, m.r, m.f = {k: list(x) if isinstance(x, list) else x for k, x in self.v.items()}, self.r, self.f
        return m

    def has(self, a):
        return not ((a in RGB + ("rgb",) and self.fmt == 6) or (a in NIR and self.fmt != 8))

    def get(self, a):
        if a in BITS:
            w, s, n = BITS[a]
            x = (getattr(self, w) >> s) & ((1 << n) - 1)
            return bool(x) if a in FLAGS else x
        return self.v[a]

    def set(self, a, x):
        if a in BITS:
            w, s, n = BITS[a]
            mask = ((1 << n) - 1) << s
            setattr(self, w, (getattr(self, w) & ~mask) | (int(x) << s))
        elif a == "rgb":
            self.v["red"], self.v["green"], self.v["blue"] = x
        else:
            self.v[a] = x

    def legal(self, a, x):
        if not self.has(a) or isinstance(x, str):
            return False
        if a in BITS:
            return 0 <= x < 1 << BITS[a][2]
        if a == "rgb":
            return len(x) == 3
        if a == "extra_bytes":
            return len(x) == len(self.v[a])
        if a == "scan_angle_degrees":
            return abs(x) < 196.6
        if a in ("x", "y", "z", "gps_time"):
            return True
        if isinstance(x, float):
            return False
        if a == "scan_angle":
            return -30000 <= x <= 30000
        return 0 <= x < (256 if a in ("classification", "user_data") else 65536)

    def compare(self, p, what):
        for a in list(PLAIN) + list(BITS) + ["extra_bytes"] + [a for a in RGB + NIR if self.has(a)]:
            same(getattr(p, a), self.get(a), "%s: %s" % (what, a))
        equal((p.point_format_id, p.point_record_length, p.EbByteSize()),
              (self.fmt, BASE[self.fmt] + len(self.v["extra_bytes"]), len(self.v["extra_bytes"])), what + ": format, length, extra bytes")
        equal((p.HasRgb(), p.HasNir()), (self.fmt > 6, self.fmt == 8), what + ": colours")
        require(abs(p.scan_angle_degrees - self.v["scan_angle"] * 0.006) < 1e-3, what + ": scan angle in degrees")

    def record(self, scale, offset):
        q = []
        for a, s, o in zip("xyz", scale, offset):
            v = (self.v[a] - o) / s
            q.append(math.floor(v + 0.5) if v >= 0 else -math.floor(-v + 0.5))
        v = self.v
        b = struct.pack("<iiiHBBBBhHd", *q, v["intensity"], self.r, self.f, v["classification"], v["user_data"], v["scan_angle"],
                        v["point_source_id"], v["gps_time"])
        if self.fmt > 6:
            b += struct.pack("<HHH", v["red"], v["green"], v["blue"])
        if self.fmt == 8:
            b += struct.pack("<H", v["nir"])
        return b + bytes(v["extra_bytes"])

    def convert(self, fmt):
        m = self.copy()
        if self.fmt == 6:
            m.v.update({a: 0 for a in RGB})
        if self.fmt < 8:
            m.v["nir"] = 0
        m.fmt = fmt
        if fmt == 6:
            m.v.update({a: 0 for a in RGB})
        if fmt < 8:
            m.v["nir"] = 0
        return m


def assign(p, m, a, x):
    """The same assignment to the object and to the model"""
    if not m.legal(a, x):
        raises(lambda: setattr(p, a, x), "%s = %r on format %d" % (a, x, m.fmt))
        return False
    setattr(p, a, x)
    if a == "scan_angle_degrees":
        got = p.scan_angle
        require(abs(got * 0.006 - x) < 0.0032, "scan angle %r for %r degrees" % (got, x))
        m.set("scan_angle", got)
    else:
        m.set(a, x)
    return True


def check_point(c):
    ps = copc.Points(c["fmt"], c["eb"])
    p, m = ps.CreatePoint(), Model(c["fmt"], c["eb"])
    m.compare(p, "a new point")
    changed = set()
    for a, x in c["set"]:
        if a == "extra_bytes" and m.legal(a, x) is False and len(x) > c["eb"]:
            x = (x * (c["eb"] + 1))[:c["eb"]]  # mostly of the right size
        if assign(p, m, a, x):
            changed.add(a)
        m.compare(p, "after %s = %r" % (a, x))
    for a in RGB + NIR:
        if not m.has(a):
            raises(lambda: getattr(p, a), "reading %s of format %d" % (a, c["fmt"]))
    if c["to"]:
        p.ToPointFormat(c["to"])
        m = m.convert(c["to"])
        m.compare(p, "converted to format %d" % c["to"])
    q = copc.Points(m.fmt, c["eb"]).CreatePoint()
    for a in list(PLAIN) + ["returns_bit_field", "flags_bit_field", "extra_bytes"] + [a for a in RGB + NIR if m.has(a)]:
        setattr(q, a, getattr(p, a))
    require(p == q and not p != q, "a point with the same attributes is not equal")
    q.intensity = (q.intensity + 1) % 65536
    require(p != q and not p == q, "a point with another intensity is equal")
    box = c["box"]
    inside = all(box[i] <= m.v[a] <= box[i + 3] for i, a in enumerate("xyz"))
    equal(p.Within(box=tuple(box)), inside, "Within %r" % box)
    return ["point"], len(changed) >= 3, "point of format %d: %r" % (c["fmt"], c["set"])


# ---- containers ----------------------------------------------------------------------------------------------------------
def check_points(c):
    fmt, eb = c["fmt"], c["eb"]
    count = [0]

    def point(f=fmt, e=eb):
        count[0] += 1
        p, m = copc.Points(f, e).CreatePoint(), Model(f, e)
        n = count[0]
        for a, x in {"x": n * 1.5, "y": -n * 2.0, "z": n % 7 + 0.25, "classification": n * 37 % 256, "point_source_id": n * 4099 % 65536,
                     "intensity": n, "gps_time": n + 0.5, "extra_bytes": [(n + i) % 256 for i in range(e)]}.items():
            setattr(p, a, x)
            m.set(a, x)
        if f > 6:
            for i, a in enumerate(RGB):
                setattr(p, a, n * 10 + i)
                m.set(a, n * 10 + i)
        return p, m

    if c["how"] == 0:
        s, ref = copc.Points(point_format_id=fmt, eb_byte_size=eb), []
    elif c["how"] == 1:
        made = [point() for _ in range(3)]
        s, ref = copc.Points([p for p, _ in made]), [m for _, m in made]
    else:
        cfg = copc.LazConfigWriter(fmt)
        s, ref, eb = copc.Points(cfg.las_header), [], 0

    def compare(what):
        equal(len(s), len(ref), what + ": length")
        for i, (p, m) in enumerate(zip(s, ref)):
            m.compare(p, "%s: point %d" % (what, i))
        equal((s.point_format_id, s.point_record_length, s.eb_byte_size), (fmt, BASE[fmt] + eb, eb), what + ": format")
        for a in ("x", "y", "z", "classification", "point_source_id") + (RGB if fmt > 6 else ()):
            same(list(getattr(s, a)), [m.get(a) for m in ref], "%s: column %s" % (what, a))
    done = 0
    for op, a, b, t, k in c["ops"]:
        n = len(ref)
        what = "%s(%d, %d, %d) of %d points" % (op, a, b, t, n)
        if op == "add":
            p, m = point(fmt, eb)
            s.AddPoint(p)
            ref.append(m)
        elif op == "addbad":
            p, m = point(6 if fmt != 6 else 7, eb) if k else point(fmt, eb + 1)
            raises(lambda: s.AddPoint(p), "a point of another shape")
            raises(lambda: s.AddPoints([p]), "a list with a point of another shape")
            q, _ = point(fmt, eb)
            raises(lambda: s.AddPoint(None), "None as a point")
            raises(lambda: s.AddPoints([q, None]), "a list with None as a point")
            raises(lambda: copc.Points([None, q] if k else [q, None]), "points made from a list with None")
            if n:
                def put():
                    s[0] = p
                raises(put, "assigning a point of another shape")

                def puts():
                    s[:1] = copc.Points([p])
                raises(puts, "assigning a slice of points of another shape")

                def none():
                    s[-1] = None
                raises(none, "assigning None")
        elif op == "addmany":
            made = [point(fmt, eb) for _ in range(abs(a) % 4)]
            other = copc.Points(fmt, eb)
            for p, _ in made:
                other.AddPoint(p)
            s.AddPoints(other if k else [p for p, _ in made])
            ref += [m for _, m in made]
        elif op == "get":
            if -n <= a < n:
                ref[a].compare(s[a], what)
                require(s[a] in s, "a point of the container is not 'in' it")
            else:
                raises(lambda: s[a], what, (IndexError,))
        elif op == "set":
            p, m = point(fmt, eb)

            def put():
                s[a] = p
            if -n <= a < n:
                put()
                ref[a] = m
            else:
                raises(put, what, (IndexError,))
        elif op in ("slice", "setslice") and t == 0:
            def zero():
                if op == "slice":
                    return s[a:b:0]
                s[a:b:0] = copc.Points(fmt, eb)
            raises(zero, "a slice with a step of zero", (ValueError,))
        elif op == "slice":
            sl = slice(*[None if v == 99 else v for v in (a, b)], None if t in (0, 99) else t)
            got = s[sl]
            equal(len(got), len(ref[sl]), what + ": length of %r" % sl)
            equal((got.point_format_id, got.eb_byte_size), (fmt, eb), what + ": format of a slice")
            for p, m in zip(got, ref[sl]):
                m.compare(p, "%s: %r" % (what, sl))
            if k and len(got):  # the points are shared, not copied
                got[0].intensity = 60000
                ref[sl][0].set("intensity", 60000)
        elif op == "setslice":
            sl = slice(*[None if v == 99 else v for v in (a, b)], None if t in (0, 99) else t)
            size = len(ref[sl]) + (1 if k == 3 else 0)
            made = [point(fmt, eb) for _ in range(size)]
            other = copc.Points(fmt, eb)
            for p, _ in made:
                other.AddPoint(p)

            def put():
                s[sl] = other
            if k == 3:
                raises(put, "a slice of another size")
            else:
                put()
                for i, (_, m) in zip(range(*sl.indices(n)), made):
                    ref[i] = m
        elif op == "iterate":
            want = list(ref)
            if k == 0:  # over a container that only the iterator knows
                got = [p for p in s[:]]
            elif k == 1:
                it = iter(s[:])
                filler = [copc.Points(fmt, eb) for _ in range(3)]
                got = list(it)
                del filler
            else:  # over a container that changes meanwhile
                got = []
                for i, p in enumerate(s):
                    got.append(p)
                    if i < 1 + abs(a) % 4:
                        q, m = point(fmt, eb)
                        s.AddPoint(q)
                        ref.append(m)
                require(len(got) <= len(ref), "%s: %d points seen" % (what, len(got)))
                want += ref[n:len(got)] if len(got) > n else []  # whether the new ones are seen too is not specified
            equal(len(got), len(want), what + ": points seen by the loop")
            for i, (p, m) in enumerate(zip(got, want)):
                m.compare(p, "%s: point %d of the loop" % (what, i))
        elif op == "self":  # a container is its own argument
            if k % 2 and n < 20:
                s.AddPoints(s)
                ref += ref
            else:
                s[::-1] = s
                ref.reverse()
        elif op == "column":
            name = ("x", "y", "z", "classification", "point_source_id", "red", "green", "blue")[a % 8]
            vals = [(i * 7 + b) % 250 for i in range(n + (k == 3))]
            if k == 3 or (name in RGB and fmt == 6 and n):
                raises(lambda: setattr(s, name, vals), "a column %s of %d values for %d points of format %d" % (name, len(vals), n, fmt))
            else:
                setattr(s, name, vals)
                for m, v in zip(ref, vals):
                    m.set(name, float(v) if name in "xyz" else v)
        elif op == "convert":
            f = 6 + abs(a) % 3
            s.ToPointFormat(f)
            made = {id(m): m.convert(f) for m in ref}  # a point may be there twice
            ref = [made[id(m)] for m in ref]
            if f > fmt:  # what an earlier conversion dropped may come back: not stated, so set it
                for p, m in zip(s, ref):
                    for name in (RGB if fmt == 6 else ()) + (NIR if f == 8 else ()):
                        setattr(p, name, 0)
                        m.set(name, 0)
            fmt = f
        elif op == "within":
            box = [min(a, b) * 10.0, -1e3, -1e3, max(a, b) * 10.0, 1e3, 1e3]
            inside = [m for m in ref if all(box[i] <= m.v[d] <= box[i + 3] for i, d in enumerate("xyz"))]
            equal(s.Within(box=tuple(box) if k else copc.Box(*box)), len(inside) == n, what + ": Within")
            got = s.GetWithin(box=tuple(box))
            equal(len(got), len(inside), what + ": GetWithin")
            for p, m in zip(got, inside):
                m.compare(p, what)
        elif op == "pack":
            scale, offset = [0.25, 0.5, 0.125], [float(a), float(b), 1.0]
            h = copc.LazConfigWriter(fmt, scale, offset).las_header
            raw = s.Pack(h) if k else s.Pack(copc.Vector3(scale), copc.Vector3(offset))
            want = b"".join(m.record(scale, offset) for m in ref)
            same(raw._bytes(), want, what + ": records")
            if k and not eb:
                back = copc.Points.Unpack(raw, h)
            else:
                back = copc.Points.Unpack(raw, fmt, eb, scale, offset)
            equal(len(back), n, what + ": unpacked")
            same(back.Pack(copc.Vector3(scale), copc.Vector3(offset))._bytes(), want, what + ": unpacked and packed")
            if n:
                comp = copc.CompressBytes(raw, fmt, eb)
                same(copc.DecompressBytes(comp, fmt, eb, n)._bytes(), want, what + ": compressed")
        done += 1
        compare(what)
    return ["points"], done >= 3 and len(ref) > 1, "container of format %d, %d extra bytes: %r" % (c["fmt"], c["eb"], c["ops"])


OPS = ["self", "iterate", "add", "add", "addmany", "addmany", "addbad", "get", "set", "slice", "slice", "setslice", "column", "convert", "within", "pack"]
IX = st.one_of(st.integers(-4, 6), st.just(99))

# ---- values ------------------------------------------------------------------------------------------------------------------
EXTENT_NAMES = ["x", "y", "z", "intensity", "return_number", "number_of_returns", "scanner_channel", "scan_direction_flag",
                "edge_of_flight_line", "classification", "user_data", "scan_angle", "point_source_id", "gps_time", "red", "green", "blue",
                "nir"]


def attrs(o, names):
    return [getattr(o, n) for n in names]


def independent(o, names, values, what):
    """Each attribute is its own"""
    cur = attrs(o, names)
    for n, v in values:
        setattr(o, names[n % len(names)], v)
        cur[n % len(names)] = v
        same(attrs(o, names), cur, "%s after %s = %r" % (what, names[n % len(names)], v))


def cell(k, lo, hi):
    step = max(h - l for l, h in zip(lo, hi)) / 2.0 ** k[0]
    b = [step * k[1 + i] + lo[i] for i in range(3)]
    return b + [v + step for v in b]


def contains(a, b):
    return all(a[i] <= b[i] and a[i + 3] >= b[i + 3] for i in range(3))


def intersects(a, b):
    return all(a[i + 3] >= b[i] and a[i] <= b[i + 3] for i in range(3))


def check_value(c):
    k = c["what"]
    v, w, sets = c["v"], c["w"], c["sets"]
    names = None
    if k == "Vector3":
        o, names = copc.Vector3(x=v[0], y=v[1], z=v[2]), ("x", "y", "z")
        same(attrs(o, names), v, "Vector3")
        same(attrs(copc.Vector3(v), names), v, "Vector3 of a list")
        o2 = copc.Vector3(w)
        d = c["d"] or 1.0
        w2 = [x or 1.0 for x in w]
        o3 = copc.Vector3(w2)
        for name, got, want in (("+", o + o2, [a + b for a, b in zip(v, w)]), ("-", o - o2, [a - b for a, b in zip(v, w)]),
                                ("*", o * o2, [a * b for a, b in zip(v, w)]), ("/", o / o3, [a / b for a, b in zip(v, w2)]),
                                ("// ", o // o3, [float(math.floor(a / b)) for a, b in zip(v, w2)]), ("+ d", o + d, [a + d for a in v]),
                                ("- d", o - d, [a - d for a in v]), ("* d", o * d, [a * d for a in v]), ("/ d", o / d, [a / d for a in v]),
                                ("// d", o // d, [float(math.floor(a / d)) for a in v])):
            equal(attrs(got, names), want, "%r %s %r, %r" % (v, name, w2, d))
        same(attrs(o, names), v, "the left operand")
        equal(o == copc.Vector3(*v), True, "equality")
        equal(o == o2, v == w, "equality of %r and %r" % (v, w))
        same(attrs(copc.Vector3.DefaultScale(), names) + attrs(copc.Vector3.DefaultOffset(), names), [0.01] * 3 + [0.0] * 3, "defaults")
    elif k == "Box":
        names = ("x_min", "y_min", "z_min", "x_max", "y_max", "z_max")
        lo, hi = [min(a, b) for a, b in zip(v, w)], [max(a, b) for a, b in zip(v, w)]
        big = sys.float_info.max
        o = copc.Box(lo[0], lo[1], lo[2], x_max=hi[0], y_max=hi[1], z_max=hi[2])
        for b in (o, copc.Box(lo + hi), copc.Box(min=lo, max=hi), copc.Box(min=copc.Vector3(lo), max=tuple(hi))):
            same(attrs(b, names), lo + hi, "Box")
        for b in (copc.Box(lo[0], lo[1], hi[0], hi[1]), copc.Box(lo[:2] + hi[:2])):
            same(attrs(b, names), lo[:2] + [-big] + hi[:2] + [big], "flat Box")
        same(attrs(copc.Box.MaxBox(), names), [-big] * 3 + [big] * 3, "MaxBox")
        same(attrs(copc.Box.EmptyBox(), names), [0.0] * 6, "EmptyBox")
        if lo[1] < hi[1]:
            raises(lambda: copc.Box(lo[0], hi[1], lo[2], hi[0], lo[1], hi[2]), "a box with minimum above maximum")
        u = c["u"]
        other = [min(a, b) for a, b in zip(u, v)] + [max(a, b) for a, b in zip(u, v)]
        equal((o.Contains(tuple(other)), o.Within(tuple(other)), o.Intersects(copc.Box(other)), o.Contains(copc.Vector3(u))),
              (contains(lo + hi, other), contains(other, lo + hi), intersects(lo + hi, other), all(lo[i] <= u[i] <= hi[i] for i in range(3))),
              "Contains, Within, Intersects, Contains point of %r and %r" % (lo + hi, other))
    elif k == "VoxelKey":
        names = ("d", "x", "y", "z")
        key = c["key"]
        o = copc.VoxelKey(d=key[0], x=key[1], y=key[2], z=key[3])
        for q in (o, copc.VoxelKey(key), copc.VoxelKey(*key)):
            same(attrs(q, names), key, "VoxelKey")
        same(attrs(copc.VoxelKey(), names) + attrs(copc.VoxelKey.InvalidKey(), names) + attrs(copc.VoxelKey.RootKey(), names),
             [-1] * 8 + [0] * 4, "default, invalid and root keys")
        d, x, y, z = key
        for i, b in enumerate(o.GetChildren()):
            same(attrs(b, names), [d + 1, 2 * x + (i & 1), 2 * y + (i >> 1 & 1), 2 * z + (i >> 2)], "child %d" % i)
            same(attrs(o.Bisect(i), names), attrs(b, names), "Bisect(%d)" % i)
            require(b.ChildOf(parent_key=o) and not o.ChildOf(b), "ChildOf")
        chain = [[d - i, x >> i, y >> i, z >> i] for i in range(d + 1)]
        equal([attrs(q, names) for q in o.GetParents(include_current=True)], chain, "GetParents")
        equal([attrs(q, names) for q in o.GetParents(False)], chain[1:], "GetParents without the key")
        same(attrs(o.GetParentAtDepth(depth=d // 2), names), chain[d - d // 2], "GetParentAtDepth")
        if d:
            same(attrs(o.GetParent(), names), chain[1], "GetParent")
        require(o == copc.VoxelKey(*key) and hash(o) == hash(copc.VoxelKey(*key)) and o.IsValid(), "equality, hash, validity")
        equal(str(o), "(%d, %d, %d, %d)" % tuple(key), "text")
        cfg = copc.CopcConfigWriter(6)
        h, info = cfg.las_header, cfg.copc_info
        lo, hi = [min(a, b) for a, b in zip(v, w)], [max(a, b) for a, b in zip(v, w)]
        h.min, h.max, info.spacing = lo, hi, abs(c["d"]) + 1
        same(o.Resolution(las_header=h, copc_header=info), info.spacing / 2.0 ** d, "Resolution")
        same(copc.VoxelKey.GetResolutionAtDepth(depth=d, las_header=h, copc_header=info), info.spacing / 2.0 ** d, "GetResolutionAtDepth")
        mine = cell(key, lo, hi)
        u = c["u"]
        other = [min(a, b) for a, b in zip(u, v)] + [max(a, b) for a, b in zip(u, v)]
        same(attrs(copc.Box(o, h), ("x_min", "y_min", "z_min", "x_max", "y_max", "z_max")), mine, "cell")
        equal((o.Intersects(h, tuple(other)), o.Within(h, tuple(other)), o.Contains(h, copc.Box(other)), o.Contains(h, copc.Vector3(u)),
               o.Crosses(h, tuple(other))),
              (intersects(mine, other), contains(other, mine), contains(mine, other), all(mine[i] <= u[i] <= mine[i + 3] for i in range(3)),
               intersects(mine, other) and not contains(other, mine)), "cell %r against %r" % (mine, other))
        sets = [(n, int(x) % 1000) for n, x in sets]
    elif k == "CopcInfo":
        o, names = copc.CopcInfo(), ("center_x", "center_y", "center_z", "halfsize", "spacing")
        equal((o.root_hier_offset, o.root_hier_size), (0, 0), "root page of a new CopcInfo")
        o.root_hier_offset, o.root_hier_size = 2**40 + c["key"][1], 32 * c["key"][0]
        equal((o.root_hier_offset, o.root_hier_size), (2**40 + c["key"][1], 32 * c["key"][0]), "root page")
        same(attrs(o, names), [0.0] * 5, "the rest of a new CopcInfo")
    elif k == "CopcExtent":
        names = ("minimum", "maximum", "mean", "var")
        a, b = sorted(v[:2])
        o = copc.CopcExtent(minimum=a, maximum=b, mean=w[0], var=abs(w[1]))
        same(attrs(o, names), [a, b, w[0], abs(w[1])], "CopcExtent")
        same(attrs(copc.CopcExtent(a, b), names), [a, b, 0.0, 1.0], "CopcExtent of two values")
        same(attrs(copc.CopcExtent([a, b, w[0], abs(w[1])]), names), [a, b, w[0], abs(w[1])], "CopcExtent of a list")
        equal(o == copc.CopcExtent(a, b, w[0], abs(w[1])), True, "equality")
    elif k == "CopcExtents":
        fmt, n = c["fmt"], c["eb"]
        o = copc.CopcExtents(point_format_id=fmt, num_eb_items=n)
        have = EXTENT_NAMES[:{6: 14, 7: 17, 8: 18}[fmt]]
        equal((o.point_format_id, o.has_extended_stats, len(o.extents), len(o.extra_bytes)), (fmt, False, len(have) + n, n), "CopcExtents")
        cur = [[0.0, 0.0, 0.0, 1.0] for _ in range(len(have) + n)]
        q = ("minimum", "maximum", "mean", "var")
        for i, x in sets:
            i %= len(cur)
            val = [x, x + 1, x / 2, 2.0]
            if i >= len(have):
                eb = o.extra_bytes
                if i % 2:
                    eb[i - len(have)] = copc.CopcExtent(*val)
                    o.extra_bytes = eb
                else:
                    eb[i - len(have)].minimum, eb[i - len(have)].maximum, eb[i - len(have)].mean, eb[i - len(have)].var = val
            elif i % 2:
                setattr(o, have[i], copc.CopcExtent(*val) if i % 3 else tuple(val))
            else:
                e = getattr(o, have[i])
                e.minimum, e.maximum, e.mean, e.var = val
            cur[i] = val
            same([attrs(getattr(o, a), q) for a in have] + [attrs(e, q) for e in o.extra_bytes], cur, "extents after setting %d" % i)
            same([attrs(e, q) for e in o.extents], cur, "list of extents")
        for a in EXTENT_NAMES[len(have):]:
            raises(lambda: getattr(o, a), "%s of format %d" % (a, fmt))
        for a in EXTENT_NAMES:
            raises(lambda: setattr(o, a, None), "None for %s" % a)
        if n:
            raises(lambda: setattr(o, "extra_bytes", [None] * n), "None for extra bytes")
        same([attrs(e, q) for e in o.extents], cur, "extents after None was refused")
        return [k], len(sets) >= 3, "%s: %r" % (k, sets)
    elif k == "LasHeader":
        cfg = copc.LazConfigWriter(point_format_id=c["fmt"], scale=[0.5, 0.25, 0.125], offset=v[:2] + [1.0])
        o = cfg.las_header
        names = ("file_source_id", "global_encoding", "creation_day", "creation_year")
        sets = [(n, int(abs(x)) % 65536) for n, x in sets]
        o.guid, o.system_identifier, o.generating_software = "g" * 16, "s\u00e9" * 10, "w" * 32
        o.min, o.max = v, [a + abs(b) for a, b in zip(v, w)]
        o.points_by_return = list(range(15))
        same([o.guid, o.system_identifier, o.generating_software], ["g" * 16, "s\u00e9" * 10, "w" * 32], "texts")
        same(attrs(o.min, "xyz") + attrs(o.max, "xyz"), v + [a + abs(b) for a, b in zip(v, w)], "bounds")
        same(list(o.points_by_return), list(range(15)), "points by return")
        b = o.Bounds()
        same([b.x_min, b.y_min, b.z_min, b.x_max, b.y_max, b.z_max], v + [a + abs(b) for a, b in zip(v, w)], "Bounds")
        same(o.Span(), max((a + abs(b)) - a for a, b in zip(v, w)), "Span")
        s, off = [0.5, 0.25, 0.125], v[:2] + [1.0]
        same(attrs(o.scale, "xyz") + attrs(o.offset, "xyz"), s + off, "scale and offset")
        same(attrs(o.ApplyScale(w), "xyz"), [a * x + y for a, x, y in zip(w, s, off)], "ApplyScale")
        same([o.ApplyScaleX(w[0]), o.ApplyScaleY(w[1]), o.ApplyScaleZ(w[2])], [a * x + y for a, x, y in zip(w, s, off)], "ApplyScaleX/Y/Z")
        same(attrs(o.ApplyInverseScale(w), "xyz"), [(a - y) / x for a, x, y in zip(w, s, off)], "ApplyInverseScale")
        for i, f in enumerate((o.RemoveScaleX, o.RemoveScaleY, o.RemoveScaleZ)):
            q = (w[i] - off[i]) / s[i]
            if abs(q) < 2e9:
                equal(f(w[i]), math.floor(q + 0.5) if q >= 0 else -math.floor(0.5 - q), "RemoveScale of %r" % w[i])
        raises(lambda: setattr(o, "guid", "x" * 17), "a GUID of 17 bytes")
        lo, hi = attrs(o.min, "xyz"), attrs(o.max, "xyz")
        p = copc.Points(6).CreatePoint()
        p.x, p.y, p.z = c["u"]
        o.CheckAndUpdateBounds(p)
        same(attrs(o.min, "xyz") + attrs(o.max, "xyz"), [min(a, b) for a, b in zip(lo, c["u"])] + [max(a, b) for a, b in zip(hi, c["u"])],
             "bounds after CheckAndUpdateBounds(%r)" % c["u"])
        o.global_encoding = int(c["u"][0]) & 0xFFFF
        o.SetGpsTimeBit()
        equal(o.global_encoding, int(c["u"][0]) & 0xFFFF | 1, "global encoding after SetGpsTimeBit")
        equal((o.point_format_id, o.point_record_length, o.EbByteSize()), (c["fmt"], BASE[c["fmt"]], 0), "format")
    elif k == "Node":
        o, names = copc.Node(), ("offset", "byte_size", "point_count")
        equal((o.IsValid(), o.IsPage()), (False, False), "a new Node is valid or a page")
        o.key, o.offset, o.byte_size = copc.VoxelKey(c["key"]), 5, 6
        for n in (-1, 0, 1):
            o.point_count = n
            equal((o.IsValid(), o.IsPage()), (True, n < 0), "validity and being a page with point count %d" % n)
        sets = [(n, int(abs(x)) % 100000) for n, x in sets]
        o.key, o.page_key = copc.VoxelKey(c["key"]) if c["eb"] else tuple(c["key"]), copc.VoxelKey(1, 0, 1, 0)
        same(attrs(o.key, "dxyz") + attrs(o.page_key, "dxyz"), c["key"] + [1, 0, 1, 0], "keys") if not c["eb"] else None
    independent(o, names, sets, k)
    return [k], len({x for _, x in sets}) >= 2, "%s: %r, %r, %r" % (k, v, w, sets)


# ---- files -------------------------------------------------------------------------------------------------------------------
def path(name):
    return os.path.join(TMP, "C35-%d-%s" % (os.getpid(), name))


def file_points(header, eb, pts):
    out, models = copc.Points(header), []
    s, o = attrs(header.scale, "xyz"), attrs(header.offset, "xyz")
    for i, (q, vals) in enumerate(pts):
        p, m = out.CreatePoint(), Model(header.point_format_id, eb)
        for a, k, x, y in zip("xyz", q, s, o):
            setattr(p, a, k * x + y)
            m.set(a, k * x + y)
        for a, v in zip(("intensity", "classification", "point_source_id", "user_data", "return_number", "scan_angle"), vals):
            setattr(p, a, v)
            m.set(a, v)
        if eb:
            x = [(vals[0] + 7 * j + i) % 256 for j in range(eb)]
            p.extra_bytes = x
            m.set("extra_bytes", x)
        if header.point_format_id > 6:
            for j, a in enumerate(RGB):
                setattr(p, a, vals[0] + j)
                m.set(a, vals[0] + j)
        out.AddPoint(p)
        models.append(m)
    return out, models


def check_file(c):
    f = path("a.copc.laz")
    fmt, scale, offset = c["fmt"], c["scale"], c["offset"]
    eb = 0 if c["plain"] else c["eb"]
    kw = {} if c["plain"] else dict(wkt=c["wkt"], has_extended_stats=c["extended"], extra_bytes_vlr=copc.EbVlr(eb))
    cfg = copc.CopcConfigWriter(fmt, scale=scale, offset=offset, **kw)
    h, info = cfg.las_header, cfg.copc_info
    lo, size = c["min"], c["size"]
    h.min, h.max = lo, [a + size for a in lo]
    info.center_x, info.center_y, info.center_z, info.halfsize, info.spacing = [a + size / 2 for a in lo] + [size / 2, c["spacing"]]
    h.file_source_id, h.guid = c["id"], "guid %d" % c["id"]
    over = dict(c["override"])
    if "extra_bytes_vlr" in over:
        eb = over["extra_bytes_vlr"]
        over["extra_bytes_vlr"] = copc.EbVlr(eb)
    # a copy of the configuration, possibly with overrides
    w = copc.FileWriter(f, cfg, **over) if c["names"] or not over else copc.FileWriter(file_path=f, config=cfg, **over)
    fmt, wkt = over.get("point_format_id", fmt), over.get("wkt", "" if c["plain"] else c["wkt"])
    scale, offset = over.get("scale", scale), over.get("offset", offset)
    ext = over.get("has_extended_stats", False if c["plain"] else c["extended"])
    equal(w.path, f, "path of the writer")
    wh = w.copc_config.las_header
    equal((wh.point_format_id, attrs(wh.scale, "xyz"), attrs(wh.offset, "xyz"), w.copc_config.wkt, w.copc_config.copc_extents.has_extended_stats,
           wh.EbByteSize(), len(w.copc_config.extra_bytes_vlr.items), len(w.copc_config.copc_extents.extra_bytes)),
          (fmt, scale, offset, wkt, ext, eb, eb, eb), "the writer's configuration")
    w.copc_config.las_header.file_source_id = c["id"] ^ 1
    w.copc_config.copc_extents.intensity.minimum = 3
    w.copc_config.copc_extents.intensity.maximum = 77
    ref = {}
    for key, pd, how, pts, named in c["nodes"]:
        points, models = file_points(wh, eb, pts)
        k = copc.VoxelKey(*key)
        page = [pd] + [v >> (key[0] - pd) for v in key[1:]]
        give = {} if pd == 0 and named else {"page_key": copc.VoxelKey(*page) if named else tuple(page)}
        if how == 0:
            n = w.AddNode(key=k, points=points, **give) if len(pts) % 2 else w.AddNode(k, points, **give)
        elif how == 1:
            n = w.AddNode(key=tuple(key), uncompressed_data=points.Pack(wh), **give)
        else:
            comp = copc.CompressBytes(points.Pack(wh), wh) if named else copc.CompressBytes(points.Pack(wh), fmt, eb)
            n = w.AddNodeCompressed(key=k, compressed_data=comp, point_count=len(points), **give)
        equal((attrs(n.key, "dxyz"), attrs(n.page_key, "dxyz"), n.point_count), (key, page, len(pts)), "the node AddNode returned")
        ref[tuple(key)] = [page, models, n.offset, n.byte_size]
    for i, pd in c["moves"]:
        if ref:
            key = list(ref)[i % len(ref)]
            pd = min(pd, key[0])
            page = [pd] + [v >> (key[0] - pd) for v in key[1:]]
            if i % 2:
                w.ChangeNodePage(node_key=copc.VoxelKey(*key), new_page_key=copc.VoxelKey(*page))
            else:
                w.ChangeNodePage(key, tuple(page))
            ref[key][0] = page
    for key, (page, models, off, size_) in ref.items():
        n = w.FindNode(copc.VoxelKey(*key))
        equal((attrs(n.page_key, "dxyz"), n.point_count, n.offset, n.byte_size), (page, len(models), off, size_), "FindNode of the writer")
    w.Close()
    r = copc.FileReader(f)
    try:
        return read_file(c, r, f, ref, (fmt, scale, offset, wkt, ext, eb))
    finally:
        r.Close()
        os.unlink(f)


def read_file(c, r, f, ref, conf):
    fmt, scale, offset, wkt, ext, eb = conf
    lo, size = c["min"], c["size"]
    h, info = r.copc_config.las_header, r.copc_config.copc_info
    equal((r.path, h.point_format_id, attrs(h.scale, "xyz"), attrs(h.offset, "xyz"), r.copc_config.wkt, h.file_source_id, h.guid,
           r.copc_config.copc_extents.has_extended_stats, h.point_count),
          (f, fmt, scale, offset, wkt, c["id"] ^ 1, "guid %d" % c["id"], ext, sum(len(m) for _, m, _, _ in ref.values())), "what was read")
    equal((attrs(h.min, "xyz"), info.spacing, info.halfsize, info.center_y), (lo, c["spacing"], size / 2, lo[1] + size / 2), "bounds and cube")
    with open(f, "rb") as b:
        equal((info.root_hier_offset, info.root_hier_size), struct.unpack("<QQ", b.read(485)[469:]), "root page in the COPC record")
    e = r.copc_config.copc_extents.intensity
    equal((e.minimum, e.maximum), (3, 77), "extent of the intensity")
    nodes = {tuple(attrs(n.key, "dxyz")): n for n in r.GetAllNodes()}
    equal(sorted(nodes), sorted(ref), "GetAllNodes")
    raw = {k: b"".join(m.record(scale, offset) for m in v[1]) for k, v in ref.items()}
    n_len = BASE[fmt] + eb
    equal((h.EbByteSize(), h.point_record_length, len(r.copc_config.extra_bytes_vlr.items)), (eb, n_len, eb), "extra bytes of the file")
    for k, n in nodes.items():
        page, models, off, size_ = ref[k]
        equal((attrs(n.page_key, "dxyz"), n.point_count, n.offset, n.byte_size, n.IsValid()), (page, len(models), off, size_, True), "node %r" % (k,))
        key = copc.VoxelKey(*k)
        by = [r.GetPoints(node=n), r.GetPoints(key), r.GetPoints(r.FindNode(key=key))]
        for p in by:
            same(p.Pack(copc.Vector3(scale), copc.Vector3(offset))._bytes(), raw[k], "points of node %r" % (k,))
        same(r.GetPointData(n)._bytes(), raw[k], "GetPointData(node)")
        same(r.GetPointData(key=k)._bytes(), raw[k], "GetPointData(key)")
        comp = r.GetPointDataCompressed(n)
        require(comp == r.GetPointDataCompressed(key=key), "GetPointDataCompressed")
        same(copc.DecompressBytes(comp, h, len(models))._bytes(), raw[k], "DecompressBytes with a header")
        same(copc.DecompressBytes(compressed_data=comp, point_format_id=fmt, eb_byte_size=eb, point_count=len(models))._bytes(), raw[k],
             "DecompressBytes with a format")
    require(not r.FindNode(copc.VoxelKey(15, 0, 0, 0)).IsValid(), "a node that is not there was found")
    deepest = max((k[0] for k in ref), default=-1)
    equal(r.GetMaxDepth(), deepest, "GetMaxDepth")
    equal(sorted(tuple(attrs(k, "dxyz")) for k in r.GetPageList()), sorted({tuple(v[0]) for v in ref.values()} | {(0, 0, 0, 0)}), "GetPageList")
    root = copc.VoxelKey.RootKey()
    equal(sorted(tuple(attrs(n.key, "dxyz")) for n in r.GetAllChildrenOfPage(key=root)), sorted(ref), "GetAllChildrenOfPage")

    def ids(ns):
        return sorted(tuple(attrs(n.key, "dxyz")) for n in ns)

    def recs(ps):
        b = ps.Pack(copc.Vector3(scale), copc.Vector3(offset))._bytes()
        return sorted(b[i:i + n_len] for i in range(0, len(b), n_len))

    def want(keys, sel=lambda m: True):
        return sorted(m.record(scale, offset) for k in keys for m in ref[k][1] if sel(m))
    for res in c["resolutions"]:
        depth = deepest
        if res > 0:
            depth, s = 0, c["spacing"]
            while s > res and depth < deepest:
                depth, s = depth + 1, s / 2
            depth = min(depth, deepest)
        equal(r.GetDepthAtResolution(resolution=res), depth, "GetDepthAtResolution(%r)" % res)
        equal(ids(r.GetNodesAtResolution(resolution=res)), sorted(k for k in ref if k[0] == depth), "GetNodesAtResolution")
        upto = sorted(k for k in ref if k[0] <= depth)
        equal(ids(r.GetNodesWithinResolution(resolution=res)), upto, "GetNodesWithinResolution")
        equal(recs(r.GetAllPoints(resolution=res)), want(upto), "GetAllPoints(%r)" % res)
        a, b = c["box"]
        box = [lo[i] + size * a[i] / 8 for i in range(3)] + [lo[i] + size * (a[i] + b[i]) / 8 for i in range(3)]
        for sel, kw in ((upto, {"resolution": res}), (sorted(ref), {})):
            cells = {k: cell(k, lo, [v + size for v in lo]) for k in sel}
            within = [k for k in sel if contains(box, cells[k])]
            touch = [k for k in sel if intersects(cells[k], box)]
            equal(ids(r.GetNodesWithinBox(box=copc.Box(box), **kw)), within, "GetNodesWithinBox")
            equal(ids(r.GetNodesIntersectBox(tuple(box), **kw)), touch, "GetNodesIntersectBox")
            inside = lambda m: all(box[i] <= m.v[d] <= box[i + 3] for i, d in enumerate("xyz"))
            equal(recs(r.GetPointsWithinBox(box=tuple(box), **kw)),
                  sorted(want(within) + want([k for k in touch if k not in within], inside)), "GetPointsWithinBox")
    equal(recs(r.GetAllPoints()), want(ref), "GetAllPoints")
    valid = True
    hb = lo + [v + size for v in lo]
    for k, (_, models, _, _) in ref.items():
        mine = cell(k, lo, hb[3:])
        if not intersects(mine, hb):
            valid = False
        for m in models:
            p = [m.v[d] for d in "xyz"]
            if not all(mine[i] <= p[i] <= mine[i + 3] for i in range(3)) or not (
                    contains(hb, mine) or all(hb[i] <= p[i] <= hb[i + 3] for i in range(3))):
                valid = False
    equal(r.ValidateSpatialBounds(), valid, "ValidateSpatialBounds")
    equal(r.ValidateSpatialBounds(verbose=False), valid, "ValidateSpatialBounds")
    names(r, nodes, h, info, box)
    return ["copc file", "valid bounds" if valid else "invalid bounds"], len(ref) >= 2, "COPC file of format %d, %d nodes, moves %r, overrides %r" % (
        fmt, len(ref), c["moves"], c["override"])


def names(r, nodes, h, info, box):
    """Arguments by name and by position"""
    pack = lambda ps: ps.Pack(h)._bytes()
    raw = lambda b: b._bytes()
    ids = lambda ns: sorted(tuple(attrs(n.key, "dxyz")) for n in ns)
    box = copc.Box(list(box))
    some = list(nodes.values())[:1]
    for show, f, kw in [(raw, r.GetPointData, dict(node=n)) for n in some] + [(raw, r.GetPointData, dict(key=n.key)) for n in some] + \
            [(pack, r.GetPoints, dict(node=n)) for n in some] + [(pack, r.GetPoints, dict(key=n.key)) for n in some] + \
            [(raw, r.GetPointDataCompressed, dict(node=n)) for n in some] + [(raw, r.GetPointDataCompressed, dict(key=n.key)) for n in some] + \
            [(repr, r.FindNode, dict(key=n.key)) for n in some] + \
            [(repr, n.key.Resolution, dict(las_header=h, copc_header=info)) for n in some] + [
                (ids, r.GetAllChildrenOfPage, dict(key=copc.VoxelKey(0, 0, 0, 0))), (pack, r.GetAllPoints, dict(resolution=3)),
                (ids, r.GetNodesWithinBox, dict(box=box, resolution=3)), (ids, r.GetNodesIntersectBox, dict(box=box, resolution=3)),
                (pack, r.GetPointsWithinBox, dict(box=box, resolution=3)), (repr, r.GetDepthAtResolution, dict(resolution=3)),
                (ids, r.GetNodesAtResolution, dict(resolution=3)), (ids, r.GetNodesWithinResolution, dict(resolution=3)),
                (repr, copc.VoxelKey.GetResolutionAtDepth, dict(depth=2, las_header=h, copc_header=info)),
                (repr, copc.VoxelKey, dict(d=4, x=3, y=2, z=1)), (repr, copc.VoxelKey, dict(list=[4, 3, 2, 1])),
                (repr, copc.VoxelKey(4, 3, 2, 1).GetParentAtDepth, dict(depth=2)), (repr, copc.VoxelKey(4, 3, 2, 1).GetParents, dict(include_current=True)),
                (repr, copc.VoxelKey(4, 3, 2, 1).ChildOf, dict(parent_key=copc.VoxelKey(3, 1, 1, 0))),
                (repr, copc.Box, dict(x_min=1, y_min=2, z_min=3, x_max=4, y_max=5, z_max=6)), (repr, copc.Box, dict(x_min=1, y_min=2, x_max=4, y_max=5)),
                (repr, copc.Box, dict(min=copc.Vector3(1, 2, 3), max=copc.Vector3(4, 5, 6))), (repr, copc.Box, dict(list=[1, 2, 3, 4])),
                (repr, copc.Box, dict(key=copc.VoxelKey(1, 1, 0, 1), las_header=h)),
                (repr, copc.Vector3, dict(x=1, y=2, z=3)), (repr, copc.Vector3, dict(list=[1, 2, 3])),
                (repr, copc.CopcExtent, dict(minimum=1, maximum=2, mean=3, var=4)), (repr, copc.CopcExtent, dict(list=[1, 2])),
                (repr, copc.CopcExtents, dict(point_format_id=7, num_eb_items=2)),
                (lambda p: (p.point_format_id, p.EbByteSize() if hasattr(p, "EbByteSize") else p.point_record_length), copc.Points,
                 dict(point_format_id=7, eb_byte_size=2))]:
        same(show(f(**kw)), show(f(*kw.values())), "%s with arguments named %s" % (getattr(f, "__name__", f), list(kw)))


def check_laz(c):
    f = path("a.laz")
    fmt, scale, offset = c["fmt"], c["scale"], c["offset"]
    eb = c["eb"]
    cfg = copc.LazConfigWriter(point_format_id=fmt, scale=scale, offset=offset, wkt=c["wkt"], extra_bytes_vlr=copc.EbVlr(eb))
    cfg.las_header.file_source_id = c["id"]
    w = copc.LazWriter(file_path=f, config=cfg)
    wh = w.laz_config.las_header
    equal((w.path, wh.point_format_id, w.laz_config.wkt, wh.file_source_id, wh.EbByteSize(), len(w.laz_config.extra_bytes_vlr.items)),
          (f, fmt, c["wkt"], c["id"], eb, eb), "the writer's configuration")
    want, chunks, total = b"", 0, 0
    for _, _, how, pts, named in c["nodes"]:
        points, models = file_points(wh, eb, pts)
        if how:
            w.WritePointsCompressed(compressed_data=copc.CompressBytes(points.Pack(wh), wh), point_count=len(points))
        else:
            w.WritePoints(points=points)
        want += b"".join(m.record(scale, offset) for m in models)
        chunks, total = chunks + 1, total + len(models)
        equal((w.chunk_count, w.point_count), (chunks, total), "chunk and point count")
    if c["long"]:
        p = copc.Points(wh).CreatePoint()
        p.x, p.y, p.z = offset
        points = copc.Points([p] * c["long"])
        w.WritePointsCompressed(copc.CompressBytes(points.Pack(wh), wh), c["long"])
        want += points.Pack(wh)._bytes()
        chunks, total = chunks + 1, total + c["long"]
        equal((w.chunk_count, w.point_count), (chunks, total), "chunk and point count")
    w.laz_config.las_header.max = [4, 5, 6]
    w.Close()
    r = copc.LazReader(f)
    h = r.laz_config.las_header
    equal((r.path, h.point_format_id, attrs(h.scale, "xyz"), attrs(h.offset, "xyz"), r.laz_config.wkt, h.file_source_id, h.point_count, attrs(h.max, "xyz"),
           h.EbByteSize(), len(r.laz_config.extra_bytes_vlr.items)),
          (f, fmt, scale, offset, c["wkt"], c["id"], total, [4, 5, 6], eb, eb), "what was read")
    same(r.GetPoints().Pack(h)._bytes(), want, "GetPoints")
    del r
    os.unlink(f)
    return ["laz file"] + (["long chunk"] if c["long"] else []), chunks >= 2, "LAZ file of format %d, %d chunks, %d points" % (fmt, chunks, total)


# ---- cases ----------------------------------------------------------------------------------------------------------------------
@st.composite
def nodes(draw, size, lo, scale, offset):
    out, seen = [], set()
    for _ in range(draw(st.integers(0, 5))):
        d = draw(st.integers(0, 3))
        key = [d] + [draw(st.integers(0, (1 << d) - 1)) for _ in range(3)]
        if tuple(key) in seen:
            continue
        seen.add(tuple(key))
        mine = cell(key, lo, [v + size for v in lo])
        pts = []
        for _ in range(draw(st.integers(1, 4))):
            free = draw(st.integers(0, 14)) == 3
            q = []
            for i in range(3):
                a = math.ceil((mine[i] - offset[i]) / scale[i])
                b = max(a, math.floor((mine[i + 3] - offset[i]) / scale[i]))
                q.append(draw(SMALL) if free else draw(st.integers(a, b)))
            pts.append([q, [draw(st.integers(0, 60000)), draw(U8), draw(U16), draw(U8), draw(st.integers(0, 15)), draw(st.integers(-30000, 30000))]])
        out.append([key, draw(st.integers(0, d)), draw(st.integers(0, 2)), pts, draw(st.booleans())])
    return out


@st.composite
def strategy(draw):
    kind = draw(st.sampled_from(["point"] * 4 + ["points"] * 5 + ["value"] * 6 + ["file"] * 4 + ["laz"]))
    c = {"kind": kind, "long": draw(st.integers(0, 40)) == 17 and draw(st.sampled_from([32768, 65535, 65536, 70001])), "fmt": draw(FMT), "eb": draw(st.sampled_from([0, 0, 1, 3]))}
    if kind == "point":
        c["set"] = draw(st.lists(assignment(), max_size=14))
        c["to"] = draw(st.sampled_from([0, 6, 7, 8]))
        a = draw(V3)
        c["box"] = a + [x + abs(y) for x, y in zip(a, draw(V3))]
    elif kind == "points":
        c["how"] = draw(st.integers(0, 2))
        c["ops"] = draw(st.lists(st.tuples(st.sampled_from(OPS), IX, IX, st.integers(-3, 3), st.integers(0, 3)).map(list), max_size=10))
    elif kind == "value":
        c["what"] = draw(st.sampled_from(["Vector3", "Box", "Box", "VoxelKey", "VoxelKey", "CopcInfo", "CopcExtent", "CopcExtents", "CopcExtents",
                                          "LasHeader", "Node"]))
        q = st.integers(-4000, 4000).map(lambda v: v / 8)
        v3 = st.one_of(st.lists(q, min_size=3, max_size=3), st.lists(st.integers(-3, 3).map(float), min_size=3, max_size=3))
        c["v"], c["w"], c["u"], c["d"] = draw(v3), draw(v3), draw(v3), draw(q)
        d = draw(st.integers(0, 10))
        c["key"] = [d] + [draw(st.integers(0, (1 << d) - 1)) for _ in range(3)]
        c["sets"] = draw(st.lists(st.tuples(st.integers(0, 40), q).map(list), max_size=10))
    else:
        c["scale"] = [draw(st.sampled_from([0.5, 0.25, 1.0, 0.125])) for _ in range(3)]
        c["offset"] = [draw(st.integers(-100, 100)) * 1.0 for _ in range(3)]
        c["min"] = [draw(st.integers(-50, 50)) * 1.0 for _ in range(3)]
        c["size"] = draw(st.sampled_from([8.0, 64.0, 100.0]))
        c["spacing"] = draw(st.sampled_from([1.0, 10.0, 0.3]))
        c["wkt"], c["extended"], c["plain"], c["id"] = draw(st.text("WKT[]", max_size=20)), draw(st.booleans()), draw(st.integers(0, 5)) == 0, draw(U16)
        c["names"] = draw(st.booleans())
        c["override"] = {}
        for n, s in (("extra_bytes_vlr", st.integers(0, 3)), ("point_format_id", FMT), ("wkt", st.text("wkt ", max_size=9)), ("has_extended_stats", st.booleans()),
                     ("scale", st.just([1.0, 0.5, 0.25])), ("offset", st.just([1.0, 2.0, 3.0]))):
            if draw(st.integers(0, 3)) == 0:
                c["override"][n] = draw(s)
        over = c["override"]
        c["nodes"] = draw(nodes(c["size"], c["min"], over.get("scale", c["scale"]) if kind == "file" else c["scale"],
                                over.get("offset", c["offset"]) if kind == "file" else c["offset"]))
        c["moves"] = draw(st.lists(st.tuples(st.integers(0, 9), st.integers(0, 3)).map(list), max_size=3))
        c["resolutions"] = draw(st.lists(st.sampled_from([0, -1, 0.2, 0.5, 1, 1.25, 2.5, 3, 10, 11]), min_size=1, max_size=2))
        c["box"] = [[draw(st.integers(-1, 8)) for _ in range(3)], [draw(st.integers(0, 9)) for _ in range(3)]]
    return c


def check(c):
    return {"point": check_point, "points": check_points, "value": check_value, "file": check_file, "laz": check_laz}[c["kind"]](c)


if __name__ == "__main__":
    sys.exit(pbt.main(sys.modules[__name__]))
