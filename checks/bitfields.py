"""C01-C04: the generalised bit-field against a positional reference model.

Reference model: a bit-field is (width, numbering, order, value).  The
numbering alone decides which power of two an index names; the order only
decides how the bits are laid out left to right, and therefore in which
direction a range is written and in which order the indices are listed.
"""
import functools
import operator

from mc.core import (explore, replay_trace, expect, fail, ok, rejects,
                     import_repo, outcome, freeze)

# (numbering, order) constants are read from the class under test by name.
NUMBERINGS = ("LSB_0", "LSB_1", "MSB_0", "MSB_1")
ORDERS = ("MSB_LEFT", "LSB_LEFT")
CONFIGS = [(n, o) for o in ORDERS for n in NUMBERINGS]


# ---- the model ------------------------------------------------------------

def power(width, numbering, index):
    """The power of two that `index` names, or None if there is none."""
    p = {"LSB_0": index, "LSB_1": index - 1,
         "MSB_0": width - 1 - index, "MSB_1": width - index}[numbering]
    return p if 0 <= p < width else None


def index_of(width, numbering, p):
    return {"LSB_0": p, "LSB_1": p + 1,
            "MSB_0": width - 1 - p, "MSB_1": width - p}[numbering]


@functools.lru_cache(maxsize=None)
def layout(width, numbering, order):
    """Indices from left to right."""
    ps = range(width - 1, -1, -1) if order == "MSB_LEFT" else range(width)
    return [index_of(width, numbering, p) for p in ps]


@functools.lru_cache(maxsize=None)
def span(width, numbering, order, start, end):
    """(low power, number of bits) of a legal range, else None.  A range is
    written left to right, both ends included."""
    lay = layout(width, numbering, order)
    if start not in lay or end not in lay:
        return None
    i, j = lay.index(start), lay.index(end)
    if i > j:
        return None
    a, b = power(width, numbering, start), power(width, numbering, end)
    return min(a, b), j - i + 1


@functools.lru_cache(maxsize=None)
def legal_ranges(width, numbering, order):
    lay = layout(width, numbering, order)
    return [(lay[i], lay[j]) for i in range(width) for j in range(i, width)]


def patterns(width):
    """Background values for wide fields: constants, alternations, every
    walking one and every walking zero."""
    m = (1 << width) - 1
    out = [0, m, m // 3 & m, (m // 3 << 1) & m,
           0x0123456789ABCDEF & m, 0xFEDCBA9876543210 & m]
    out += [1 << i for i in range(width)]
    out += [m ^ (1 << i) for i in range(width)]
    return sorted(set(out))


def few(width):
    m = (1 << width) - 1
    return sorted({0, m, m // 3 & m, 0x0123456789ABCDEF & m})


# ---- the implementation ---------------------------------------------------

class Impl:
    def __init__(self):
        self.BitField = import_repo("h800.bitfield").BitField

    def make(self, width, numbering, order, value=0):
        B = self.BitField
        return B(value, width=width,
                 numbering=getattr(B, "BIT_SCHEME_" + numbering),
                 order=getattr(B, "BIT_ORDER_" + order))


def observe(bf, width, numbering, order, value, ranges=True):
    """Every read of the field agrees with the model in state `value`."""
    expect("value", bf.value, value)
    expect("int()", int(bf), value)
    expect("index()", operator.index(bf), value)
    expect("len()", len(bf), width)
    for p in range(width):
        i = index_of(width, numbering, p)
        expect("bit [%d]" % i, bf[i], value >> p & 1)
    if ranges:
        for s, e in legal_ranges(width, numbering, order):
            lo, n = span(width, numbering, order, s, e)
            expect("range [%d:%d]" % (s, e), bf[s:e],
                   value >> lo & ((1 << n) - 1))
    expect("value after reads", bf.value, value)


def small_widths(ctx):
    return range(1, 9) if ctx.wide else range(1, 7)


def wide_widths(ctx):
    return range(small_widths(ctx)[-1] + 1, 65)


# ---- several fields alive at once -------------------------------------------

def joint_groups():
    """Groups of fields that live side by side: every layout of one width,
    and one layout in every width, each also in the opposite order (the order
    in which they are created and used)."""
    for w in range(1, 65):
        g = [(w, n, o) for n, o in CONFIGS]
        yield g
        yield g[::-1]
    for n, o in CONFIGS:
        g = [(w, n, o) for w in range(1, 65)]
        yield g
        yield g[::-1]


def joint_values(cfgs):
    """A different value per field, no two alike where the width allows."""
    return [(0x9E3779B97F4A7C15 * (i + 1) ^ 0x5A5A5A5A5A5A5A5A) &
            ((1 << c[0]) - 1) for i, c in enumerate(cfgs)]


def joint_turns(cfgs):
    """(field number, range) round robin over the fields, until every field
    has been visited with every legal range."""
    rs = [legal_ranges(*c) for c in cfgs]
    for k in range(max(len(r) for r in rs)):
        for i, r in enumerate(rs):
            if k < len(r):
                yield i, r[k]


def joint(ctx, impl, use):
    """Register and return the enumeration of side-by-side fields; `use`
    exercises one range of one field and returns the field's new value."""
    def case(arg):
        cfgs = [tuple(c) for c in arg]
        vals = joint_values(cfgs)
        fs = [ok("construct", impl.make, *c, v) for c, v in zip(cfgs, vals)]
        for i, (s, e) in joint_turns(cfgs):
            vals[i] = use(fs[i], cfgs[i], vals[i], s, e)
        for f, c, v in zip(fs, cfgs, vals):
            expect("%r at the end" % (c,), f.value, v)
            expect("%r width" % (c,), f.width, c[0])
            expect("%r largest value" % (c,), f.maxval, (1 << c[0]) - 1)
            expect("%r indices" % (c,), own_list(f), layout(*c))
            expect("%r lsb" % (c,), f.lsb, index_of(c[0], c[1], 0))
            expect("%r msb" % (c,), f.msb, index_of(c[0], c[1], c[0] - 1))
    ctx.kind("joint", case)

    def run():
        for g in joint_groups():
            ctx.case("joint", g)
            ctx.count(states=len(g), traces=1, transitions=sum(
                c[0] * (c[0] + 1) // 2 for c in g))
    return run


# ---- query, mutate, query again ---------------------------------------------

def own_list(b):
    """The listed indices; the list is the reader's to use up."""
    x = b.indices
    got = list(x)
    if isinstance(x, list):
        x.reverse()
        del x[1:]
    return got


def read_queries(cfg, ranges):
    """(label, question, model answer) for the reads of a field."""
    w, n, o = cfg
    qs = [("value", lambda b: b.value, lambda v: v),
          ("int()", int, lambda v: v),
          ("index()", operator.index, lambda v: v),
          ("text", repr, lambda v: format(v, "0%db" % w)),
          ("indices", own_list, lambda v: layout(*cfg)),
          ("len()", len, lambda v: w),
          ("lsb", lambda b: b.lsb, lambda v: index_of(w, n, 0)),
          ("msb", lambda b: b.msb, lambda v: index_of(w, n, w - 1))]
    for i in layout(*cfg):
        qs.append(("[%d]" % i, lambda b, i=i: b[i],
                   lambda v, p=power(w, n, i): v >> p & 1))
    for s, e in ranges:
        lo, k = span(*cfg, s, e)
        qs.append(("[%d:%d]" % (s, e), lambda b, s=s, e=e: b[s:e],
                   lambda v, lo=lo, m=(1 << k) - 1: v >> lo & m))
    return qs


def pred_queries(cfg, ranges):
    w, n, o = cfg
    qs = []
    for i in layout(*cfg):
        p = power(w, n, i)
        qs += [("isBitSet(%d)" % i, lambda b, i=i: bool(b.isBitSet(i)),
                lambda v, p=p: v >> p & 1 == 1),
               ("isBitClr(%d)" % i, lambda b, i=i: bool(b.isBitClr(i)),
                lambda v, p=p: v >> p & 1 == 0),
               ("isBit(%d,1)" % i, lambda b, i=i: bool(b.isBit(i, 1)),
                lambda v, p=p: v >> p & 1 == 1),
               ("isBit(%d,0)" % i, lambda b, i=i: bool(b.isBit(i, 0)),
                lambda v, p=p: v >> p & 1 == 0)]
    for s, e in ranges:
        lo, k = span(*cfg, s, e)
        m = ((1 << k) - 1) << lo
        qs += [("isRangeSet(%d,%d)" % (s, e),
                lambda b, s=s, e=e: bool(b.isRangeSet(s, e)),
                lambda v, m=m: v & m == m),
               ("isRangeClr(%d,%d)" % (s, e),
                lambda b, s=s, e=e: bool(b.isRangeClr(s, e)),
                lambda v, m=m: v & m == 0),
               ("isRange(%d,%d,1)" % (s, e),
                lambda b, s=s, e=e: bool(b.isRange(s, e, 1)),
                lambda v, m=m: v & m == m),
               ("isRange(%d,%d,0)" % (s, e),
                lambda b, s=s, e=e: bool(b.isRange(s, e, 0)),
                lambda v, m=m: v & m == 0)]
    return qs


def refused(fn, *args):
    try:
        fn(*args)
    except ValueError:
        return "refused"
    return "accepted"


def bad_queries(cfg, ranges):
    """Illegal accesses: each must be refused and change nothing."""
    w, n, o = cfg
    lay = layout(*cfg)
    out = [min(lay) - 1, max(lay) + 1]
    no = lambda v: "refused"
    qs = [("value", lambda b: b.value, lambda v: v),
          ("value := 2^w", lambda b: refused(setattr, b, "value", 1 << w),
           no),
          ("value := -1", lambda b: refused(setattr, b, "value", -1), no)]
    for i in out:
        qs += [("[%d]" % i, lambda b, i=i: refused(b.__getitem__, i), no),
               ("[%d] := 1" % i,
                lambda b, i=i: refused(b.__setitem__, i, 1), no),
               ("set(%d)" % i, lambda b, i=i: refused(b.set, i), no),
               ("clear(%d)" % i, lambda b, i=i: refused(b.clear, i), no),
               ("isBitSet(%d)" % i, lambda b, i=i: refused(b.isBitSet, i),
                no),
               ("isBitClr(%d)" % i, lambda b, i=i: refused(b.isBitClr, i),
                no)]
    for i in lay:
        qs.append(("[%d] := 2" % i,
                   lambda b, i=i: refused(b.__setitem__, i, 2), no))
    wrong = [(e, s) for s, e in ranges if s != e] + \
        [(i, j) for i in out for j in (lay[0], lay[-1], i)] + \
        [(j, i) for i in out for j in (lay[0], lay[-1])]
    for s, e in wrong:
        qs += [("[%d:%d]" % (s, e),
                lambda b, s=s, e=e: refused(b.__getitem__, slice(s, e)), no),
               ("[%d:%d] := 0" % (s, e),
                lambda b, s=s, e=e: refused(b.__setitem__, slice(s, e), 0),
                no),
               ("isRangeSet(%d,%d)" % (s, e),
                lambda b, s=s, e=e: refused(b.isRangeSet, s, e), no),
               ("isRangeClr(%d,%d)" % (s, e),
                lambda b, s=s, e=e: refused(b.isRangeClr, s, e), no)]
    for s, e in ranges:
        for x in (2, -1):
            qs.append(("isRange(%d,%d,%d)" % (s, e, x),
                       lambda b, s=s, e=e, x=x:
                       refused(b.isRange, s, e, x), no))
        lo, k = span(*cfg, s, e)
        for x in (1 << k, -1):
            qs.append(("[%d:%d] := %d" % (s, e, x),
                       lambda b, s=s, e=e, x=x:
                       refused(b.__setitem__, slice(s, e), x), no))
    # what is refused leaves the contents alone, whatever came before it
    qs = [(t, lambda b, f=f: (f(b), b.value),
           lambda v, g=g: (g(v), v)) for t, f, g in qs]
    qs.append(("value at the end", lambda b: b.value, lambda v: v))
    return qs


def some_ranges(cfg):
    """For wide fields: every prefix, every suffix and every pair of
    neighbouring bits, in layout order."""
    lay = layout(*cfg)
    out = []
    for i in range(cfg[0]):
        out += [(lay[0], lay[i]), (lay[i], lay[-1]),
                (lay[i], lay[min(i + 1, cfg[0] - 1)])]
    return list(dict.fromkeys(out))


def some_ops(cfg):
    """For wide fields: every way of changing a field, on every bit."""
    w, n, o = cfg
    m = (1 << w) - 1
    lay = layout(*cfg)
    a, b = 0x5A5AA5A5C3C33C3C & m, 0x0123456789ABCDEF & m
    ops = [("value", m), ("clear",), ("set",), ("value", 0), ("set",),
           ("clear",), ("value", a), ("value", b), ("value", a),
           ("range", lay[0], lay[-1], b), ("range", lay[0], lay[-1], m ^ b)]
    for i in range(0, w, max(1, w // 16)):
        j = lay[i]
        ops += [("set", j), ("clear", j), ("bit", j, 1), ("bit", j, 0),
                ("set", j), ("bit", j, 0), ("bit", j, 1), ("clear", j)]
        s, e = lay[i // 2], lay[i]
        k = span(*cfg, s, e)[1]
        ops += [("range", s, e, (1 << k) - 1), ("range", s, e, 0),
                ("range", s, e, a & ((1 << k) - 1))]
    return ops


def history(ctx, impl, queries):
    """Long-lived fields: what a field answers after a change does not
    depend on what it was asked before.  Small fields: every value x every
    question x every change; wide ones: all questions before and after every
    change of a tour."""
    def ask(bf, q, v, cfg, after):
        try:
            got = q[1](bf)
        except Exception as e:
            fail("%r %s of %x after %r raised %s(%s)", cfg, q[0], v, after,
                 type(e).__name__, e)
        want = q[2](v)
        if got != want:
            fail("%r %s of %x after %r: got %r, expected %r", cfg, q[0], v,
                 after, got, want)

    def small(arg):
        cfg, v0 = freeze(arg[0]), arg[1]
        ops = mutators(*cfg)
        qs = queries(cfg, legal_ranges(*cfg))
        bf = impl.make(*cfg, v0)
        for op in ops:
            v1 = apply_model(cfg, v0, op)
            for q in qs:
                ask(bf, q, v0, cfg, "the value was set")
                apply_impl(bf, op)
                ask(bf, q, v1, cfg, op)
                bf.value = v0
            # undone by set/clear alone, so that `value` is not the only
            # way back
            for q in qs:
                apply_impl(bf, op)
                ask(bf, q, v1, cfg, op)
                bf.clear()
                ask(bf, q, 0, cfg, "clear()")
                for i in layout(*cfg):
                    if v0 >> power(cfg[0], cfg[1], i) & 1:
                        bf.set(i)
                ask(bf, q, v0, cfg, "set(i)s")

    def tour(arg):
        cfg = freeze(arg)
        qs = queries(cfg, some_ranges(cfg))
        bf, v = impl.make(*cfg, 0), 0
        for q in qs:
            ask(bf, q, v, cfg, "construction")
        for k, op in enumerate(some_ops(cfg)):
            apply_impl(bf, op)
            v = apply_model(cfg, v, op)
            qs = qs[::-1]
            for q in qs:
                ask(bf, q, v, cfg, op)

    ctx.kind("history", small)
    ctx.kind("tour", tour)

    def run():
        nq = no = 0
        for n, o in CONFIGS:
            for w in range(1, 5):
                cfg = (w, n, o)
                if w == 4 and not ctx.wide:
                    vals = (0, 5, 6, 15)
                else:
                    vals = range(1 << w)
                k = len(queries(cfg, legal_ranges(*cfg))) * \
                    len(mutators(*cfg))
                for v in vals:
                    ctx.case("history", [cfg, v])
                    ctx.count(states=1, traces=1, transitions=5 * k)
            for w in range(4, 65):
                cfg = (w, n, o)
                ctx.case("tour", cfg)
                nq, no = len(queries(cfg, some_ranges(cfg))), \
                    len(some_ops(cfg))
                ctx.count(states=no, traces=1, transitions=no * nq)
        ctx.section("query-change-query histories",
                    small="widths 1..4: every (value, question, change)",
                    wide="widths 4..64: tours of %d changes, %d questions "
                         "each at width 64" % (no, nq))
    return run


# ---- C01 reads ------------------------------------------------------------

def endure(ctx, impl, once):
    """One field used over and over: once(bf, cfg, value, i) does the i-th
    round and returns the new value."""
    def case(arg):
        width, numbering, order, n = arg
        cfg = (width, numbering, order)
        m = (1 << width) - 1
        bf = impl.make(width, numbering, order, 0)
        for i in range(n):
            value = (i * 0x9E3779B97F4A7C15 ^ i << 40 | 1) & m
            bf.value = value
            value = once(bf, cfg, value, i)
            expect("value after round %d" % (i + 1), bf.value, value)

    ctx.kind("again", case)

    def run():
        for n, o in CONFIGS:
            for w in (8, 48, 64):
                k = 30000 if ctx.deep else 2200
                ctx.case("again", [w, n, o, k])
                ctx.count(states=k, transitions=8 * k, traces=1)
    return run


def reads(ctx):
    impl = Impl()

    def meta(arg):
        width, numbering, order = arg
        bf = ok("construct", impl.make, width, numbering, order)
        expect("indices", own_list(bf), layout(width, numbering, order))
        expect("indices again", own_list(bf),
               layout(width, numbering, order))
        expect("lsb", bf.lsb, index_of(width, numbering, 0))
        expect("msb", bf.msb, index_of(width, numbering, width - 1))
        expect("width", bf.width, width)
        expect("maxval", bf.maxval, (1 << width) - 1)
        expect("initial value", bf.value, 0)
        B = impl.BitField
        expect("numbering", bf.numbering,
               getattr(B, "BIT_SCHEME_" + numbering))
        expect("order", bf.order, getattr(B, "BIT_ORDER_" + order))

    def read(arg):
        width, numbering, order, value = arg
        bf = ok("construct", impl.make, width, numbering, order, value)
        observe(bf, width, numbering, order, value)
        expect("binary text", repr(bf), format(value, "0%db" % width))

    def every(arg):
        """Whole-field range and single-bit ranges, any width."""
        width, numbering, order, value = arg
        bf = ok("construct", impl.make, width, numbering, order, value)
        lay = layout(width, numbering, order)
        expect("whole range", bf[lay[0]:lay[-1]], value)
        expect("value", bf.value, value)
        for i in lay:
            p = power(width, numbering, i)
            expect("bit [%d]" % i, bf[i], value >> p & 1)
            expect("range [%d:%d]" % (i, i), bf[i:i], value >> p & 1)
        # the same field, however its arguments are given
        B = impl.BitField
        num = getattr(B, "BIT_SCHEME_" + numbering)
        od = getattr(B, "BIT_ORDER_" + order)
        for same in (ok("construct", B, value, width, num, od),
                     ok("construct", B, value, width, num, order=od),
                     ok("construct", B, order=od, numbering=num,
                        width=width, value=value)):
            expect("field given by position or keyword",
                   [same.value, same.width, same.numbering, same.order,
                    same[lay[0]], own_list(same)],
                   [value, width, num, od, bf[lay[0]], lay])

    def default(arg):
        bf = ok("construct", impl.BitField, arg)
        expect("default width", bf.width, 8)
        observe(bf, 8, "LSB_0", "LSB_LEFT", arg)

    for k, f in (("meta", meta), ("read", read), ("every", every),
                 ("default", default)):
        ctx.kind(k, f)

    def once(bf, cfg, value, i):
        w = cfg[0]
        lay = layout(*cfg)
        x, y = lay[i % w], lay[max(i % w, i * 7 % w)]
        lo, k = span(*cfg, x, y)
        expect("reads of round %d" % (i + 1),
               [bf[x], bf[x:y], bf[lay[0]:lay[-1]], int(bf), repr(bf),
                bf.lsb, bf.msb, len(bf), list(bf.indices), bf.maxval],
               [value >> power(w, cfg[1], x) & 1,
                value >> lo & (1 << k) - 1, value, value,
                format(value, "b").zfill(w),
                index_of(w, cfg[1], 0), index_of(w, cfg[1], w - 1), w, lay,
                (1 << w) - 1])
        return value
    lasting = endure(ctx, impl, once)

    def use(bf, cfg, value, s, e):
        lo, n = span(*cfg, s, e)
        if bf[s:e] != value >> lo & ((1 << n) - 1):
            fail("%r range [%d:%d] of %x reads %x", cfg, s, e, value,
                 bf[s:e])
        if s == e:
            expect("%r bit [%d]" % (cfg, s), bf[s], value >> lo & 1)
            expect("%r text" % (cfg,), repr(bf),
                   format(value, "0%db" % cfg[0]))
        return value
    together = joint(ctx, impl, use)
    histories = history(ctx, impl, read_queries)

    def run():
        together()
        histories()
        lasting()
        for n, o in CONFIGS:
            for w in range(1, 65):
                ctx.case("meta", [w, n, o])
                ctx.count(states=1, transitions=5, traces=1)
        for w in small_widths(ctx):
            nr = w + w * (w + 1) // 2 + 6
            for n, o in CONFIGS:
                for v in range(1 << w):
                    ctx.case("read", [w, n, o, v])
                    ctx.count(states=1, transitions=nr, traces=1)
                    ctx.sample([w, n, o, v])
        for w in wide_widths(ctx):
            nr = w + w * (w + 1) // 2 + 6
            for n, o in CONFIGS:
                for v in few(w):
                    ctx.case("read", [w, n, o, v])
                    ctx.count(states=1, transitions=nr, traces=1)
                for v in patterns(w):
                    ctx.case("every", [w, n, o, v])
                    ctx.count(states=1, transitions=2 * w + 2, traces=1)
        if ctx.wide:
            for n, o in CONFIGS:
                for w in (8, 12):
                    for v in range(1 << w):
                        ctx.case("every", [w, n, o, v])
                        ctx.count(states=1, transitions=2 * w + 2, traces=1)
                for w in (16, 24, 48):
                    for v in patterns(w):
                        ctx.case("read", [w, n, o, v])
                        ctx.count(states=1, transitions=w * w // 2, traces=1)
        for v in range(256):
            ctx.case("default", v)
            ctx.count(states=1, transitions=44, traces=1)
        ctx.bounds = {
            "exhaustive values x bits x ranges for widths":
                [small_widths(ctx)[0], small_widths(ctx)[-1]],
            "wide widths (pattern values, all bits and ranges)":
                list(wide_widths(ctx)),
            "configurations": CONFIGS}
        ctx.assumptions = [
            "Reads of fields wider than the exhaustive widths are checked on "
            "pattern values (constants, alternations, every walking 1/0)."]
    return run


# ---- C02 writes -----------------------------------------------------------

def mutators(width, numbering, order):
    """Every legal mutation of a field."""
    ops = []
    lay = layout(width, numbering, order)
    for i in lay:
        ops += [("bit", i, 0), ("bit", i, 1), ("set", i), ("clear", i)]
    for s, e in legal_ranges(width, numbering, order):
        lo, n = span(width, numbering, order, s, e)
        for v in range(1 << n):
            ops.append(("range", s, e, v))
    for v in range(1 << width):
        ops.append(("value", v))
    ops += [("set",), ("clear",)]
    return ops


def apply_model(cfg, value, op):
    width, numbering, order = cfg
    m = (1 << width) - 1
    if op[0] == "bit" or (op[0] in ("set", "clear") and len(op) == 2):
        p = power(width, numbering, op[1])
        v = op[2] if op[0] == "bit" else (1 if op[0] == "set" else 0)
        return value & ~(1 << p) | v << p
    if op[0] == "range":
        lo, n = span(width, numbering, order, op[1], op[2])
        return value & ~(((1 << n) - 1) << lo) | op[3] << lo
    if op[0] == "value":
        return op[1]
    return m if op[0] == "set" else 0


def apply_impl(bf, op):
    if op[0] == "bit":
        bf[op[1]] = op[2]
    elif op[0] == "range":
        bf[op[1]:op[2]] = op[3]
    elif op[0] == "value":
        bf.value = op[1]
    elif op[0] == "set":
        bf.set(*op[1:])
    elif op[0] == "clear":
        bf.clear(*op[1:])
    else:
        raise AssertionError(op)


def writes(ctx):
    impl = Impl()

    def make(cfg):
        return impl.make(*cfg)

    def stepper(cfg, full):
        def step(bf, value, op):
            new = apply_model(cfg, value, op)
            ok("write %r at %d" % (op, value), apply_impl, bf, op)
            expect("value after %r at %s" % (op, bin(value)), bf.value, new)
            if full:
                observe(bf, *cfg, new)
            return new
        return step

    def trace(arg):
        cfg, path = freeze(arg[0]), arg[1]
        bf, v = make(cfg), 0
        step = stepper(cfg, True)
        for op in path:
            v = step(bf, v, freeze(op))

    def from_value(arg):
        """One op from a freshly constructed field."""
        cfg, v, op = freeze(arg[0]), arg[1], freeze(arg[2])
        bf = ok("construct", impl.make, *cfg, v)
        stepper(cfg, False)(bf, v, op)

    def pair(arg):
        """Two fields alive together: writing one leaves the other alone."""
        cfg1, cfg2 = freeze(arg[0]), freeze(arg[1])
        if cfg1[0] > 3:
            return pair_wide(cfg1, cfg2)
        # small fields: every write of the one, then every write of the other
        x, y = impl.make(*cfg1), impl.make(*cfg2)
        vx = vy = 0
        for op in mutators(*cfg1):
            apply_impl(x, op)
            vx = apply_model(cfg1, vx, op)
            for op2 in mutators(*cfg2):
                apply_impl(y, op2)
                vy = apply_model(cfg2, vy, op2)
                if x.value != vx or y.value != vy:
                    fail("fields %r and %r hold %d and %d after %r and %r, "
                         "expected %d and %d", cfg1, cfg2, x.value, y.value,
                         op, op2, vx, vy)
        observe(x, *cfg1, vx)
        observe(y, *cfg2, vy)

    def pair_wide(cfg1, cfg2):
        m1, m2 = (1 << cfg1[0]) - 1, (1 << cfg2[0]) - 1
        x, y = impl.make(*cfg1, m1), impl.make(*cfg2, m2 // 3)
        for i in layout(*cfg1):
            x[i] = 0
            expect("other field", y.value, m2 // 3)
        x.value = m1
        y.clear()
        expect("first field", x.value, m1)
        expect("first indices", list(x.indices), layout(*cfg1))
        expect("second indices", list(y.indices), layout(*cfg2))

    def wide(arg):
        """All single-bit and range writes of one wide field, on one object
        driven through every background."""
        width, numbering, order, bg = arg
        cfg = (width, numbering, order)
        bf = ok("construct", impl.make, *cfg, bg)
        m = (1 << width) - 1
        for i in layout(*cfg):
            p = power(width, numbering, i)
            for v in (0, 1):
                bf[i] = v
                expect("bit [%d]=%d on %x" % (i, v, bg), bf.value,
                       bg & ~(1 << p) | v << p)
                bf.value = bg
            bf.set(i)
            expect("set(%d)" % i, bf.value, bg | 1 << p)
            bf.clear(i)
            expect("clear(%d)" % i, bf.value, bg & ~(1 << p))
            bf.value = bg
        for s, e in legal_ranges(*cfg):
            lo, k = span(*cfg, s, e)
            mk = (1 << k) - 1
            for v in {0, mk, mk // 3, 1 << (k - 1), 1}:
                bf[s:e] = v
                expect("range [%d:%d]=%x on %x" % (s, e, v, bg), bf.value,
                       bg & ~(mk << lo) & m | v << lo)
                expect("range [%d:%d] read back" % (s, e), bf[s:e], v)
                bf.value = bg

    def crowd(arg):
        """Thousands of fields alive: each keeps its own contents."""
        n, = arg
        cfgs = [(w, nb, o) for w in (64, 1, 8, 48, 24, 13)
                for nb, o in CONFIGS]
        fields, want = [], []
        for i in range(n):
            cfg = cfgs[i % len(cfgs)]
            v = i * 0x9E3779B97F4A7C15 & (1 << cfg[0]) - 1
            fields.append(impl.make(*cfg, v))
            want.append(v)
        for r in range(3):
            for i, bf in enumerate(fields):
                cfg = cfgs[i % len(cfgs)]
                if bf.value != want[i]:
                    fail("field %d of %d holds %x, expected %x", i, n,
                         bf.value, want[i])
                x = layout(*cfg)[(i + r) % cfg[0]]
                bf[x] = 1 - bf[x]
                want[i] ^= 1 << power(cfg[0], cfg[1], x)

    def bits(arg):
        """Every single-bit write on every background pattern."""
        cfg = tuple(arg)
        width, numbering, order = cfg
        bf = ok("construct", impl.make, *cfg)
        for bg in patterns(width):
            for i in layout(*cfg):
                p = power(width, numbering, i)
                for op, want in ((("bit", i, 1), bg | 1 << p),
                                 (("bit", i, 0), bg & ~(1 << p)),
                                 (("set", i), bg | 1 << p),
                                 (("clear", i), bg & ~(1 << p))):
                    bf.value = bg
                    apply_impl(bf, op)
                    if bf.value != want:
                        fail("%r on %x gave %x", op, bg, bf.value)

    def truth(arg):
        """Truth values written are the numbers 0 and 1."""
        cfg = tuple(arg)
        width, numbering, order = cfg
        m = (1 << width) - 1
        expect("constructed from True", impl.make(*cfg, True).value, 1)
        rs = legal_ranges(*cfg) if width <= 16 else some_ranges(cfg)
        bf = ok("construct", impl.make, *cfg)
        for bg in (0, m, m // 3):
            for op in [("bit", i, t) for i in layout(*cfg)
                       for t in (True, False)] + \
                    [("range", s, e, t) for s, e in rs
                     for t in (True, False)] + \
                    [("value", True), ("value", False)]:
                bf.value = bg
                ok("write %r" % (op,), apply_impl, bf, op)
                want = apply_model(cfg, bg, op)
                expect("%r on %x" % (op, bg), bf.value, want)
                expect("text after %r on %x" % (op, bg), repr(bf),
                       bin(want)[2:].zfill(width))

    ctx.kind("crowd", crowd)
    for k, f in (("truth", truth), ("trace", trace),
                 ("from_value", from_value),
                 ("wide", wide), ("pair", pair), ("bits", bits)):
        ctx.kind(k, f)

    def once(bf, cfg, value, i):
        w = cfg[0]
        lay = layout(*cfg)
        m = (1 << w) - 1
        x, y = lay[i % w], lay[max(i % w, i * 7 % w)]
        lo, k = span(*cfg, x, y)
        new = (value ^ i * 0x1234567) & m
        b = 1 << power(w, cfg[1], x)
        mk = (1 << k) - 1
        for op, want in ((lambda: bf.__setitem__(x, 1), value | b),
                         (lambda: bf.__setitem__(x, 0), value & ~b),
                         (lambda: bf.set(x), value | b),
                         (lambda: bf.clear(x), value & ~b),
                         (lambda: bf.set(), m), (lambda: bf.clear(), 0),
                         (lambda: setattr(bf, "value", new), new),
                         (lambda: bf.__setitem__(slice(x, y),
                                                 new >> lo & mk),
                          new & mk << lo | value & ~(mk << lo))):
            bf.value = value
            op()
            expect("writes of round %d" % (i + 1), bf.value, want)
        return want
    lasting = endure(ctx, impl, once)

    def use(bf, cfg, value, s, e):
        lo, n = span(*cfg, s, e)
        mk = (1 << n) - 1
        new = value & ~(mk << lo) | (~value & mk << lo)
        bf[s:e] = new >> lo & mk
        if bf.value != new:
            fail("%r [%d:%d] = %x on %x gave %x", cfg, s, e, new >> lo & mk,
                 value, bf.value)
        if s == e:
            bf[s] = value >> lo & 1
            expect("%r bit [%d]" % (cfg, s), bf.value, value)
            bf.set(s)
            expect("%r set(%d)" % (cfg, s), bf.value, value | 1 << lo)
            bf.clear(s)
            expect("%r clear(%d)" % (cfg, s), bf.value, value & ~(1 << lo))
            bf.value = new
        return new
    together = joint(ctx, impl, use)
    histories = history(ctx, impl, read_queries)

    def run():
        together()
        histories()
        lasting()
        for k in (300, 5000, 70000) if ctx.deep else (300, 5000):
            ctx.case("crowd", [k])
            ctx.count(states=k, transitions=3 * k, traces=1)
        closed_all = True
        info = {}
        for w in small_widths(ctx):
            for n, o in CONFIGS:
                cfg = (w, n, o)
                if w <= (7 if ctx.wide else 6):
                    ops = mutators(*cfg)
                    st = explore(ctx, "trace", cfg, make, ops,
                                 stepper(cfg, w <= 4), 0,
                                 max_states=4 << w)
                    info["%d/%s/%s" % cfg] = st
                    closed_all &= st[2]
                else:
                    ops = mutators(*cfg)
                    for v in range(1 << w):
                        for op in ops:
                            ctx.case("from_value", [cfg, v, op])
                        ctx.count(states=1, transitions=len(ops), traces=1)
        for w in wide_widths(ctx):
            for n, o in CONFIGS:
                m = (1 << w) - 1
                for bg in (few(w) if ctx.wide or w in (8, 12, 16, 24, 48)
                           else (m, 0x0123456789ABCDEF & m)):
                    ctx.case("wide", [w, n, o, bg])
                    ctx.count(states=1, transitions=6 * w +
                              5 * w * (w + 1), traces=1)
                ctx.case("bits", [w, n, o])
                ctx.count(transitions=4 * w * len(patterns(w)))
        for w in range(1, 65):
            for n, o in CONFIGS:
                ctx.case("truth", [w, n, o])
                ctx.count(transitions=18 * w, traces=1)
        for c1 in CONFIGS:
            for c2 in CONFIGS:
                for w1, w2 in ((2, 2), (2, 3), (3, 2), (5, 6), (6, 5), (12, 12),
                               (48, 12), (16, 24), (64, 63)):
                    ctx.case("pair", [(w1,) + c1, (w2,) + c2])
                    ctx.count(states=1, transitions=4 * w1, traces=1)
        ctx.sample({"trace": [(3, "MSB_1", "MSB_LEFT"),
                              [("range", 1, 2, 3), ("bit", 2, 0)]]})
        ctx.section("state search (states, depth, closed)", **info)
        ctx.exhaustive = closed_all
        ctx.bounds = {"state search closed for widths up to":
                      7 if ctx.wide else 6,
                      "one-step exhaustive for widths":
                      list(small_widths(ctx)),
                      "wide widths (pattern values)": list(wide_widths(ctx))}
    return run


# ---- C03 rejection --------------------------------------------------------

def bad_indices(width, numbering):
    cand = [-width - 1, -width, -2, -1, 0, width, width + 1, width + 2,
            2 * width, 64, 65, 1000]
    return sorted({i for i in cand if power(width, numbering, i) is None})


def rejection(ctx):
    impl = Impl()
    VE = (ValueError,)

    def idx(arg):
        width, numbering, order, value, i = arg
        bf = impl.make(width, numbering, order, value)
        lay = layout(width, numbering, order)
        rejects("read [%d]" % i, VE, lambda: bf[i])
        for v in (0, 1):
            rejects("write [%d]=%d" % (i, v), VE, bf.__setitem__, i, v)
            rejects("isBit(%d)" % i, VE, bf.isBit, i, v)
        rejects("set(%d)" % i, VE, bf.set, i)
        rejects("clear(%d)" % i, VE, bf.clear, i)
        rejects("isBitSet(%d)" % i, VE, bf.isBitSet, i)
        rejects("isBitClr(%d)" % i, VE, bf.isBitClr, i)
        for j in lay:
            for s, e in ((i, j), (j, i)):
                rng(bf, s, e)
        rng(bf, i, i)
        expect("value after rejections", bf.value, value)
        observe(bf, width, numbering, order, value, ranges=False)

    def outside(arg):
        """Every index from far below to far above the field."""
        width, numbering, order = arg
        m = (1 << width) - 1
        value = m // 3
        bf = impl.make(width, numbering, order, value)
        lay = set(layout(width, numbering, order))
        for i in list(range(-140, 270)) + [1 << 16, -(1 << 16), 1 << 64]:
            if i in lay:
                continue
            rejects("read [%d]" % i, VE, lambda: bf[i])
            rejects("read [%d:%d]" % (i, i), VE, lambda: bf[i:i])
            for v in (0, 1):
                rejects("write [%d]=%d" % (i, v), VE, bf.__setitem__, i, v)
                rejects("isBit(%d)" % i, VE, bf.isBit, i, v)
            rejects("set(%d)" % i, VE, bf.set, i)
            rejects("clear(%d)" % i, VE, bf.clear, i)
            rejects("isBitSet(%d)" % i, VE, bf.isBitSet, i)
            rejects("isBitClr(%d)" % i, VE, bf.isBitClr, i)
            expect("value after rejections", bf.value, value)

    def rng(bf, s, e):
        rejects("read [%d:%d]" % (s, e), VE, lambda: bf[s:e])
        for v in (0, 1):
            rejects("write [%d:%d]=%d" % (s, e, v), VE, bf.__setitem__,
                    slice(s, e), v)
        rejects("isRange(%d,%d)" % (s, e), VE, bf.isRange, s, e, 0)
        rejects("isRangeSet(%d,%d)" % (s, e), VE, bf.isRangeSet, s, e)
        rejects("isRangeClr(%d,%d)" % (s, e), VE, bf.isRangeClr, s, e)

    def reverse(arg):
        width, numbering, order, value = arg
        bf = impl.make(width, numbering, order, value)
        for s, e in legal_ranges(width, numbering, order):
            if s != e:
                rng(bf, e, s)
        expect("value after rejections", bf.value, value)

    def val(arg):
        width, numbering, order, value = arg
        bf = impl.make(width, numbering, order, value)
        m = 1 << width
        for v in (-1, -2, -m, -m - 1, m, m + 1, 2 * m - 1, 2 * m, m << 7,
                  1 << 64, 1 << 65, 1 << 100, -(1 << 64)):
            rejects("value=%d" % v, VE, setattr, bf, "value", v)
            expect("value after rejection", bf.value, value)
        lay = layout(width, numbering, order)
        for i in lay:
            for v in (-1, -2, 2, 3, 2 * m, 1 << 64):
                rejects("[%d]=%d" % (i, v), VE, bf.__setitem__, i, v)
                expect("value after rejection", bf.value, value)
        for s, e in legal_ranges(width, numbering, order):
            lo, n = span(width, numbering, order, s, e)
            k = 1 << n
            for v in (-1, -k, k, k + 1, 2 * k - 1, 2 * k):
                rejects("[%d:%d]=%d" % (s, e, v), VE, bf.__setitem__,
                        slice(s, e), v)
                expect("value after rejection", bf.value, value)
            for v in (-1, 2, 3):
                rejects("isRange(%d,%d,%d)" % (s, e, v), VE, bf.isRange,
                        s, e, v)
        expect("value after rejections", bf.value, value)

    def ctor(arg):
        width, numbering, order = arg
        m = 1 << width
        for v in (-1, -m, m, m + 1, 2 * m):
            rejects("construct %d in %d bits" % (v, width), VE, impl.make,
                    width, numbering, order, v)
        for v in (0, m - 1):
            expect("construct", ok("construct", impl.make, width, numbering,
                                   order, v).value, v)

    def params(arg):
        what, x = arg
        kw = {"width": 8, "numbering": 0, "order": 0, what: x}
        rejects("construct %s=%r" % (what, x), VE, impl.BitField, 0, **kw)

    def recover(arg):
        """A rejected write does not poison the field: the next legal write
        behaves as on a fresh field."""
        width, numbering, order = arg
        bf = impl.make(width, numbering, order, 0)
        m = 1 << width
        lay = layout(width, numbering, order)
        bads = [lambda: setattr(bf, "value", m),
                lambda: bf.__setitem__(slice(lay[0], lay[-1]), m),
                lambda: bf.__setitem__(lay[0], 2)]
        if width > 1:
            bads.append(lambda: bf.__setitem__(slice(lay[-1], lay[0]), 0))
        bads += [(lambda i=i: bf.__setitem__(i, 1))
                 for i in bad_indices(width, numbering)]
        for bad in bads:
            for op in mutators(width, numbering, order):
                bf.value = 0
                outcome(bad)
                apply_impl(bf, op)
                expect("value after rejected write then %r" % (op,),
                       bf.value, apply_model((width, numbering, order), 0,
                                             op))

    for k, f in (("idx", idx), ("reverse", reverse), ("val", val),
                 ("ctor", ctor), ("params", params), ("recover", recover),
                 ("outside", outside)):
        ctx.kind(k, f)

    def once(bf, cfg, value, i):
        w = cfg[0]
        lay = layout(*cfg)
        x, y = lay[i % w], lay[max(i % w, i * 7 % w)]
        lo, k = span(*cfg, x, y)
        out = max(lay) + 1 + i % 5, min(lay) - 1 - i % 3
        for j in out:
            rejects("bit", VE, lambda: bf[j])
            rejects("bit :=", VE, bf.__setitem__, j, i & 1)
            rejects("set", VE, bf.set, j)
            rejects("isBit", VE, bf.isBit, j, 0)
            rejects("range", VE, lambda: bf[x:j])
            rejects("range :=", VE, bf.__setitem__, slice(j, y), 0)
        rejects("value", VE, setattr, bf, "value", (1 << w) + i)
        rejects("value", VE, setattr, bf, "value", -1 - i)
        rejects("range value", VE, bf.__setitem__, slice(x, y), 1 << k)
        rejects("bit value", VE, bf.__setitem__, x, 2 + i)
        if x != y:
            rejects("range", VE, lambda: bf[y:x])
        expect("value", bf.value, value)
        bf[x] = 1
        expect("legal read after refusals", bf[x:x], 1)
        return value | 1 << power(w, cfg[1], x)
    lasting = endure(ctx, impl, once)

    def use(bf, cfg, value, s, e):
        lo, n = span(*cfg, s, e)
        rejects("%r [%d:%d] := %x" % (cfg, s, e, 1 << n), VE,
                bf.__setitem__, slice(s, e), 1 << n)
        rejects("%r [%d:%d] := -1" % (cfg, s, e), VE, bf.__setitem__,
                slice(s, e), -1)
        if s != e:
            rejects("%r [%d:%d]" % (cfg, e, s), VE, lambda: bf[e:s])
            rejects("%r [%d:%d] :=" % (cfg, e, s), VE, bf.__setitem__,
                    slice(e, s), 0)
        else:
            lay = layout(*cfg)
            for i in (min(lay) - 1, max(lay) + 1):
                rejects("%r [%d]" % (cfg, i), VE, lambda: bf[i])
                rejects("%r [%d] :=" % (cfg, i), VE, bf.__setitem__, i, 1)
                rng(bf, i, s)
                rng(bf, s, i)
            rejects("%r value" % (cfg,), VE, setattr, bf, "value",
                    1 << cfg[0])
        return value
    together = joint(ctx, impl, use)
    histories = history(ctx, impl, bad_queries)

    def run():
        together()
        histories()
        lasting()
        for n, o in CONFIGS:
            for w in small_widths(ctx):
                for v in range(1 << w):
                    for i in bad_indices(w, n):
                        ctx.case("idx", [w, n, o, v, i])
                        ctx.count(transitions=(2 * w + 1) * 6 + 9)
                    ctx.case("reverse", [w, n, o, v])
                    ctx.case("val", [w, n, o, v])
                    ctx.count(states=1, traces=1,
                              transitions=8 + 4 * w + 15 * w * (w + 1) // 2)
                    ctx.sample([w, n, o, v])
                if w <= (6 if ctx.wide else 5):
                    ctx.case("recover", [w, n, o])
                    ctx.count(transitions=3 * len(mutators(w, n, o)))
            for w in wide_widths(ctx):
                for v in (few(w) if ctx.wide else few(w)[1:2]):
                    for i in bad_indices(w, n):
                        ctx.case("idx", [w, n, o, v, i])
                        ctx.count(transitions=(2 * w + 1) * 6 + 9)
                    ctx.case("reverse", [w, n, o, v])
                for v in (few(w) if ctx.wide else few(w)[1:2]):
                    ctx.case("val", [w, n, o, v])
                    ctx.count(states=1, traces=1,
                              transitions=8 + 4 * w + 15 * w * (w + 1) // 2)
            for w in range(1, 65):
                ctx.case("outside", [w, n, o])
                ctx.count(transitions=10 * 400)
                ctx.case("ctor", [w, n, o])
                ctx.count(states=1, transitions=7, traces=1)
        for what, xs in (("width", tuple(range(65, 131)) + (256, 1000)),
                         ("numbering", (-2, -1, 4, 5, 6, 7, 8, 99)),
                         ("order", (-2, -1, 2, 3, 4, 5, 99))):
            for x in xs:
                ctx.case("params", [what, x])
                ctx.count(states=1, transitions=1, traces=1)
        ctx.bounds = {"all values, all legal and neighbouring illegal "
                      "indices/ranges for widths": list(small_widths(ctx)),
                      "wide widths": list(wide_widths(ctx)),
                      "constructor": "widths 1..64"}
        ctx.assumptions = ["indices, values and widths are integers"]
    return run


# ---- C04 predicates -------------------------------------------------------

def predicates(ctx):
    impl = Impl()

    def check(bf, cfg, value):
        width, numbering, order = cfg
        for i in layout(*cfg):
            b = value >> power(width, numbering, i) & 1
            for v in (0, 1, True, False, 2, -1, 3, 1 << 70):
                expect("isBit(%d,%r) of %s" % (i, v, bin(value)),
                       bool(bf.isBit(i, v)), b == v)
            expect("isBitSet(%d) of %s" % (i, bin(value)),
                   bool(bf.isBitSet(i)), b == 1)
            expect("isBitClr(%d) of %s" % (i, bin(value)),
                   bool(bf.isBitClr(i)), b == 0)
        for s, e in legal_ranges(*cfg):
            lo, n = span(*cfg, s, e)
            x = value >> lo & ((1 << n) - 1)
            allset, allclr = x == (1 << n) - 1, x == 0
            expect("isRange(%d,%d,1) of %s" % (s, e, bin(value)),
                   bool(bf.isRange(s, e, 1)), allset)
            expect("isRange(%d,%d,0) of %s" % (s, e, bin(value)),
                   bool(bf.isRange(s, e, 0)), allclr)
            expect("isRange(%d,%d,True) of %s" % (s, e, bin(value)),
                   bool(bf.isRange(s, e, True)), allset)
            expect("isRange(%d,%d,False) of %s" % (s, e, bin(value)),
                   bool(bf.isRange(s, e, False)), allclr)
            expect("isRangeSet(%d,%d) of %s" % (s, e, bin(value)),
                   bool(bf.isRangeSet(s, e)), allset)
            expect("isRangeClr(%d,%d) of %s" % (s, e, bin(value)),
                   bool(bf.isRangeClr(s, e)), allclr)
        expect("value after predicates", bf.value, value)

    def pred(arg):
        width, numbering, order, value = arg
        cfg = (width, numbering, order)
        check(ok("construct", impl.make, *cfg, value), cfg, value)

    def setclr(arg):
        """set/clear of each bit and of all bits, from this value."""
        width, numbering, order, value = arg
        cfg = (width, numbering, order)
        for op in [(k, i) for k in ("set", "clear") for i in layout(*cfg)] + \
                [("set",), ("clear",)]:
            bf = impl.make(*cfg, value)
            apply_impl(bf, op)
            want = apply_model(cfg, value, op)
            expect("%r of %s" % (op, bin(value)), bf.value, want)
            if len(op) == 2:
                expect("isBitSet after %r" % (op,),
                       bool(bf.isBitSet(op[1])), op[0] == "set")
            else:
                lay = layout(*cfg)
                expect("isRangeSet after %r" % (op,),
                       bool(bf.isRangeSet(lay[0], lay[-1])), op[0] == "set")
                expect("isRangeClr after %r" % (op,),
                       bool(bf.isRangeClr(lay[0], lay[-1])),
                       op[0] == "clear")
            bf2 = impl.make(*cfg, value)
            for _ in range(2):
                apply_impl(bf2, op)
            expect("%r twice" % (op,), bf2.value, want)

    def walk(arg):
        """One long-lived field: after every mutator of a de-Bruijn-like tour
        through all values the predicates agree."""
        width, numbering, order = arg
        cfg = (width, numbering, order)
        bf = impl.make(*cfg, 0)
        v = 0
        for target in range(1 << width):
            for i in layout(*cfg):
                p = power(width, numbering, i)
                op = ("set" if target >> p & 1 else "clear", i)
                apply_impl(bf, op)
                v = apply_model(cfg, v, op)
                check(bf, cfg, v)

    ctx.kind("pred", pred)
    ctx.kind("setclr", setclr)
    ctx.kind("walk", walk)

    def once(bf, cfg, value, i):
        w = cfg[0]
        lay = layout(*cfg)
        x, y = lay[i % w], lay[max(i % w, i * 7 % w)]
        lo, k = span(*cfg, x, y)
        mk = (1 << k) - 1
        if i % 3:
            bf[x:y] = mk if i % 3 == 1 else 0
            value = value & ~(mk << lo) | (mk << lo if i % 3 == 1 else 0)
        bit, part = value >> power(w, cfg[1], x) & 1, value >> lo & mk
        expect("predicates of round %d" % (i + 1),
               [bf.isBit(x, 0), bf.isBit(x, 1), bf.isBitSet(x),
                bf.isBitClr(x), bf.isRange(x, y, 0), bf.isRange(x, y, 1),
                bf.isRangeSet(x, y), bf.isRangeClr(x, y)],
               [not bit, bool(bit), bool(bit), not bit, part == 0,
                part == mk, part == mk, part == 0])
        return value
    lasting = endure(ctx, impl, once)

    def use(bf, cfg, value, s, e):
        lo, n = span(*cfg, s, e)
        x = value >> lo & ((1 << n) - 1)
        if bool(bf.isRangeSet(s, e)) != (x == (1 << n) - 1) or \
                bool(bf.isRangeClr(s, e)) != (x == 0):
            fail("%r predicates of [%d:%d] of %x", cfg, s, e, value)
        # now with exactly this range full, then exactly empty
        m = (1 << cfg[0]) - 1
        for v, full in ((((1 << n) - 1) << lo, True),
                        (m ^ ((1 << n) - 1) << lo, False)):
            bf.value = v
            if bool(bf.isRangeSet(s, e)) != full or \
                    bool(bf.isRangeClr(s, e)) == full:
                fail("%r predicates of [%d:%d] of %x", cfg, s, e, v)
        bf.value = value
        if s == e:
            expect("%r isBitSet(%d)" % (cfg, s), bool(bf.isBitSet(s)), x == 1)
            expect("%r isBitClr(%d)" % (cfg, s), bool(bf.isBitClr(s)), x == 0)
        return value
    together = joint(ctx, impl, use)
    histories = history(ctx, impl, pred_queries)

    def run():
        together()
        histories()
        lasting()
        for n, o in CONFIGS:
            for w in small_widths(ctx):
                for v in range(1 << w):
                    ctx.case("pred", [w, n, o, v])
                    ctx.case("setclr", [w, n, o, v])
                    ctx.count(states=1, traces=1, transitions=8 * w + 4 + 2 *
                              w * (w + 1))
                    ctx.sample([w, n, o, v])
                if w <= 4:
                    ctx.case("walk", [w, n, o])
                    ctx.count(transitions=(1 << w) * w)
            for w in wide_widths(ctx):
                for v in (patterns(w) if w <= 16 or ctx.wide and w <= 48
                          else few(w)):
                    ctx.case("pred", [w, n, o, v])
                    ctx.count(states=1, traces=1,
                              transitions=4 * w + 2 * w * (w + 1))
                for v in few(w):
                    ctx.case("setclr", [w, n, o, v])
                    ctx.count(transitions=4 * w)
                # every legal range made all-ones / all-zeros on the opposite
                # background: the boundary cases of the range predicates
                ctx.case("borders", [w, n, o])
                ctx.count(transitions=2 * w * (w + 1))
        ctx.bounds = {"all values for widths": list(small_widths(ctx)),
                      "wide widths (patterns; every range exactly full, "
                      "exactly empty, and one bit off)":
                      list(wide_widths(ctx))}

    def borders(arg):
        cfg = tuple(arg)
        width = cfg[0]
        m = (1 << width) - 1
        bf = impl.make(*cfg, 0)
        for s, e in legal_ranges(*cfg):
            lo, n = span(*cfg, s, e)
            mk = ((1 << n) - 1) << lo
            for v, st, cl in ((mk, True, False), (m ^ mk, False, True),
                              (mk ^ (1 << lo), n == 0, n == 1),
                              ((m ^ mk) | 1 << lo, n == 1, False),
                              (mk ^ (1 << (lo + n - 1)), False, n == 1)):
                bf.value = v
                expect("isRangeSet(%d,%d) of %x" % (s, e, v),
                       bool(bf.isRangeSet(s, e)), st)
                expect("isRangeClr(%d,%d) of %x" % (s, e, v),
                       bool(bf.isRangeClr(s, e)), cl)
    ctx.kind("borders", borders)
    return run
