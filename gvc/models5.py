"""Assumed contracts of the compression packages: a writer's output is complete only after a successful Close."""
import z3
from .models import model, ok, ghost, MODELS, IMODELS, Z0, F0, INT, BOOL, liberr
from .models2 import (BSORT, EMPTY, nn, bdata, bset, seqfacts, seqarg, nilerr, dynref, rdrain, wwrite, lib, LIBF, LIBAX, WRITERS, DRAIN, BUF)
from .engine import GHOSTS
from .theory import SliceV, StructV, TupleV, Unsupported, is_num, LENMAX

for _k in ("zlib", "gzip", "snappy", "zstd"):
    LIBF[_k] = (["ghost", "string"], "string")       # compressed text (level or 0, input)
    LIBF["un" + _k] = (["string"], "string")         # what a valid text decompresses to
    LIBF["valid" + _k] = (["string"], "bool")

    def _ax(E, k=_k):
        if E.extmemo.get("compax" + k):
            return
        E.extmemo["compax" + k] = True
        th = E.th
        l, s = z3.Int("l"), z3.Const("s", th.BS)
        c = lib(E, k, l, s)
        th.axioms.append(z3.ForAll([l, s], z3.And(lib(E, "valid" + k, c), lib(E, "un" + k, c) == s), patterns=[c]))
    for _n in (_k, "un" + _k, "valid" + _k):
        LIBAX[_n] = _ax

# ------------------------------------------------------------------ streaming writers
COMPW = {"compress/zlib.Writer": "zlib", "compress/gzip.Writer": "gzip"}
for _t in COMPW:
    ghost(_t, "data", BSORT, EMPTY)        # what was written to it
    ghost(_t, "base", BSORT, EMPTY)        # what the destination held before
    ghost(_t, "dst", lambda E: E.th.ANY, lambda E, T: E.th.anynil, "a")
    ghost(_t, "level", INT, Z0)
    ghost(_t, "closed", BOOL, F0)


def newcompw(tn, withlevel):
    def f(E, st, a, d):
        res = []
        if withlevel:
            lv = a[1]
            s2 = st.copy()
            good = z3.And(lv >= -2, lv <= 9) if not E.th.bv else z3.And(lv >= E.th.iv(-2), lv <= E.th.iv(9))
            s2.assume(z3.Not(good))
            st.assume(good)
            if E.query(s2.pc) != z3.unsat:
                res.append(("ok", s2, TupleV([z3.IntVal(0), liberr(E, s2)])))
        else:
            lv = z3.IntVal(-1)
        if E.query(st.pc) == z3.unsat:
            return res
        r = E.new_object(st, E.prog.named(tn))
        t, b = dynref(E, st, a[0])
        if t != "*bytes.Buffer":
            raise Unsupported("compressor writing to something other than a bytes.Buffer")
        E.gset(st, tn, "dst", r, a[0])
        E.gset(st, tn, "base", r, bdata(E, st, b))
        E.gset(st, tn, "level", r, lv)
        return [("ok", st, TupleV([r, nilerr(E)]) if withlevel else r)] + res
    return f


def cdst(E, st, tn, r):
    t, b = dynref(E, st, E.gget(st, tn, "dst", r))
    if t != "*bytes.Buffer":
        raise Unsupported("compressor with unknown destination")
    return b


def cwrite(E, st, tn, r, seq):
    closed = E.gget(st, tn, "closed", r)
    res = []
    s2 = st.copy()
    s2.assume(closed)
    st.assume(z3.Not(closed))
    if E.query(s2.pc) != z3.unsat:
        res.append((s2, liberr(E, s2)))
    if E.query(st.pc) != z3.unsat:
        bset(E, st, r, E.th.concat(bdata(E, st, r, tn), seq), tn)
        part = seqfacts(E, st, E.th.fresh("partial", E.th.BS))
        bset(E, st, cdst(E, st, tn, r), E.th.concat(E.gget(st, tn, "base", r), part))
        res.append((st, None))
    return res


def cwritem(tn):
    def f(E, st, a, d):
        p = nn(E, st, a[0])
        seq = seqarg(E, st, a[1])
        n = a[1].l
        return [("ok", s, TupleV([n if e is None else E.th.iv(0), e if e is not None else nilerr(E)])) for s, e in cwrite(E, st, tn, a[0], seq)] + p
    return f


def cflush(tn):
    def f(E, st, a, d):
        p = nn(E, st, a[0])
        part = seqfacts(E, st, E.th.fresh("flushed", E.th.BS))
        s2 = st.copy()
        s2.assume(E.gget(st, tn, "closed", a[0]))
        st.assume(z3.Not(E.gget(st, tn, "closed", a[0])))
        res = []
        if E.query(s2.pc) != z3.unsat:
            res.append(("ok", s2, nilerr(E)))
        if E.query(st.pc) != z3.unsat:
            bset(E, st, cdst(E, st, tn, a[0]), E.th.concat(E.gget(st, tn, "base", a[0]), part))
            res.append(("ok", st, nilerr(E)))
        return res + p
    return f


def cclose(tn):
    def f(E, st, a, d):
        p = nn(E, st, a[0])
        r = a[0]
        s2 = st.copy()
        closed = E.gget(st, tn, "closed", r)
        s2.assume(closed)
        st.assume(z3.Not(closed))
        res = []
        if E.query(s2.pc) != z3.unsat:
            res.append(("ok", s2, nilerr(E)))
        if E.query(st.pc) != z3.unsat:
            c = seqfacts(E, st, lib(E, COMPW[tn], E.gget(st, tn, "level", r), bdata(E, st, r, tn)))
            bset(E, st, cdst(E, st, tn, r), E.th.concat(E.gget(st, tn, "base", r), c))
            E.gset(st, tn, "closed", r, z3.BoolVal(True))
            res.append(("ok", st, nilerr(E)))
        return res + p
    return f


for _t, _k in COMPW.items():
    MODELS["compress/%s.NewWriter" % _k] = newcompw(_t, False)
    MODELS["compress/%s.NewWriterLevel" % _k] = newcompw(_t, True)
    MODELS["(*%s).Write" % _t] = cwritem(_t)
    MODELS["(*%s).Flush" % _t] = cflush(_t)
    MODELS["(*%s).Close" % _t] = cclose(_t)
    WRITERS["*" + _t] = lambda E, st, r, seq, t=_t: cwrite(E, st, t, r, seq)

# ------------------------------------------------------------------ streaming readers
ghost("zlibReader", "data", BSORT, EMPTY)
ghost("compress/gzip.Reader", "data", BSORT, EMPTY)
ghost("zlibReader", "used", BOOL, F0)
ghost("compress/gzip.Reader", "used", BOOL, F0)


def newcompr(kind, tn):
    def f(E, st, a, d):
        res = []
        for s, q, e in rdrain(E, st, a[0]):
            if e is not None:
                res.append(("ok", s, TupleV([E.th.anynil if kind == "zlib" else z3.IntVal(0), e])))
                continue
            v = lib(E, "valid" + kind, q)
            s2 = s.copy()
            s2.assume(z3.Not(v))
            if E.query(s2.pc) != z3.unsat:
                res.append(("ok", s2, TupleV([E.th.anynil if kind == "zlib" else z3.IntVal(0), liberr(E, s2)])))
            if kind == "zlib":
                r = E.alloc(s)
                x = E.th.box(E.libtype("zlibReader"))[0](r)
            else:
                x = r = E.new_object(s, E.prog.named(tn))
            E.gset(s, tn, "data", r, q)
            E.gset(s, tn, "used", r, z3.BoolVal(False))
            res.append(("ok", s, TupleV([x, nilerr(E)])))
        return res
    return f


def cdrain(kind, tn):
    def f(E, st, r):
        """the whole content of a valid text; for another, some bytes and an error"""
        th = E.th
        q = E.gget(st, tn, "data", r)
        used = E.gget(st, tn, "used", r)
        if not E.implies(st, z3.Not(used)):
            raise Unsupported("decompressor read twice")
        v = lib(E, "valid" + kind, q)
        E.gset(st, tn, "used", r, z3.BoolVal(True))
        s2 = st.copy()
        st.assume(v)
        s2.assume(z3.Not(v))
        res = []
        if E.query(st.pc) != z3.unsat:
            res.append((st, seqfacts(E, st, lib(E, "un" + kind, q)), None))
        if E.query(s2.pc) != z3.unsat:
            res.append((s2, seqfacts(E, s2, th.fresh("partial", th.BS)), liberr(E, s2, False)))
        return res
    return f


DRAIN["zlibReader"] = cdrain("zlib", "zlibReader")
DRAIN["*compress/gzip.Reader"] = cdrain("gzip", "compress/gzip.Reader")
MODELS["compress/zlib.NewReader"] = newcompr("zlib", "zlibReader")
MODELS["compress/gzip.NewReader"] = newcompr("gzip", "compress/gzip.Reader")


def crclose(E, st, a, d):
    """nil or an error: it does not check the rest of the text"""
    s2 = st.copy()
    return [("ok", st, nilerr(E)), ("ok", s2, liberr(E, s2))]


def crclose_for(kind, tn, ptr):
    def f(E, st, a, d):
        p = nn(E, st, a[0]) if ptr else []
        q = E.gget(st, tn, "data", a[0])
        s2 = st.copy()
        s2.assume(z3.Not(lib(E, "valid" + kind, q)))
        res = [("ok", st, nilerr(E))]
        if E.query(s2.pc) != z3.unsat:
            res.append(("ok", s2, liberr(E, s2)))
        return res + p
    return f


IMODELS[("zlibReader", "Close")] = crclose_for("zlib", "zlibReader", False)
MODELS["(*compress/gzip.Reader).Close"] = crclose_for("gzip", "compress/gzip.Reader", True)

# ------------------------------------------------------------------ snappy
KP = "github.com/klauspost/compress/"


def emptydst(E, st, v, what):
    if not E.implies(st, v.c == E.th.iv(0)):
        raise Unsupported(what + " into a buffer with room")


@model("github.com/golang/snappy.Encode", KP + "snappy.Encode", KP + "s2.EncodeSnappy", KP + "s2.EncodeSnappyBetter", KP + "s2.EncodeSnappyBest")
def snenc(E, st, a, d):
    emptydst(E, st, a[0], "snappy.Encode")
    p = E.need(None, st, a[1].l <= E.th.iv(0xffffffff // 7 * 6 - 64), "snappy: the input is too large")
    return ok(st, E.bytes_from(st, lib(E, "snappy", z3.IntVal(0), E.bsof(st, a[1])), True)) + p


@model("github.com/golang/snappy.Decode", KP + "snappy.Decode", KP + "s2.Decode")
def sndec(E, st, a, d):
    emptydst(E, st, a[0], "snappy.Decode")
    q = E.bsof(st, a[1])
    v = lib(E, "validsnappy", q)
    s2 = st.copy()
    st.assume(v)
    s2.assume(z3.Not(v))
    res = []
    if E.query(st.pc) != z3.unsat:
        res.append(("ok", st, TupleV([E.bytes_from(st, lib(E, "unsnappy", q), True), nilerr(E)])))
    if E.query(s2.pc) != z3.unsat:
        res.append(("ok", s2, TupleV([E.th.zero(E.prog.slice(E.prog.basic("uint8")), E), liberr(E, s2)])))
    return res


# ------------------------------------------------------------------ zstd
ZOPT = z3.Function("zstdlevel", z3.IntSort(), z3.IntSort())
HARMLESS = {"WithEncoderConcurrency": 31, "WithEncoderCRC": 32, "WithLowerEncoderMem": 33, "WithDecoderConcurrency": 34, "WithDecoderLowmem": 35, "WithSingleSegment": 36, "WithZeroFrames": 37}
for _n in ("Encoder", "Decoder"):
    ghost(KP + "zstd." + _n, "level", INT, Z0)
    ghost(KP + "zstd." + _n, "closed", BOOL, F0)


@model(KP + "zstd.WithEncoderLevel")
def zlevel(E, st, a, d):
    if E.th.bv:
        raise Unsupported("zstd in bit-vector mode")
    return ok(st, ZOPT(a[0]))


def zharmless(n):
    def f(E, st, a, d):
        if n.endswith("Concurrency"):
            return ok(st, z3.Function("zstdconc", z3.IntSort(), z3.IntSort())(a[0]))
        return ok(st, z3.IntVal(-HARMLESS[n]))
    return f


for _n in HARMLESS:
    MODELS[KP + "zstd." + _n] = zharmless(_n)


def znew(tn):
    def f(E, st, a, d):
        if not E.implies(st, a[0] == E.th.anynil):
            raise Unsupported("zstd stream")
        opts = a[1]
        n = z3.simplify(opts.l)
        if not is_num(n):
            raise Unsupported("zstd options of unknown number")
        good, lv = z3.BoolVal(True), z3.IntVal(2)
        if n.as_long():
            T = d["sig"].params[-1].u().e
            A = E.load_arr(st, T, opts.b)[0]
            for i in range(n.as_long()):
                o = z3.simplify(z3.Select(A, opts.o + i))
                if z3.is_app(o) and o.decl().name() == "zstdlevel":
                    lv = o.arg(0)
                    good = z3.And(good, lv >= 1, lv <= 4)
                elif z3.is_app(o) and o.decl().name() == "zstdconc":
                    good = z3.And(good, o.arg(0) >= (1 if tn.endswith("Encoder") else 0))
                elif not (is_num(o) and -o.as_long() in HARMLESS.values()):
                    raise Unsupported("zstd option outside the model")
        s2 = st.copy()
        s2.assume(z3.Not(good))
        st.assume(good)
        res = []
        if E.query(s2.pc) != z3.unsat:
            res.append(("ok", s2, TupleV([z3.IntVal(0), liberr(E, s2)])))
        if E.query(st.pc) != z3.unsat:
            r = E.new_object(st, E.prog.named(tn))
            E.gset(st, tn, "level", r, lv)
            res.append(("ok", st, TupleV([r, nilerr(E)])))
        return res
    return f


MODELS[KP + "zstd.NewWriter"] = znew(KP + "zstd.Encoder")
MODELS[KP + "zstd.NewReader"] = znew(KP + "zstd.Decoder")


def zopen(E, st, tn, r):
    if not E.implies(st, z3.Not(E.gget(st, tn, "closed", r))):
        raise Unsupported("zstd coder used after Close")


def zdst(E, st, dst, src):
    """appending to dst must not overwrite src"""
    if not E.implies(st, z3.Or(dst.c == dst.l, dst.b != src.b)):
        raise Unsupported("zstd destination may overlap its source")


@model("(*%szstd.Encoder).EncodeAll" % KP)
def zencall(E, st, a, d):
    tn = KP + "zstd.Encoder"
    p = nn(E, st, a[0])
    zopen(E, st, tn, a[0])
    zdst(E, st, a[2], a[1])
    q = lib(E, "zstd", E.gget(st, tn, "level", a[0]), E.bsof(st, a[1]))
    return ok(st, E.bytes_from(st, E.th.concat(E.bsof(st, a[2]), q) if not E.implies(st, a[2].l == 0) else q, True)) + p


@model("(*%szstd.Decoder).DecodeAll" % KP)
def zdecall(E, st, a, d):
    tn = KP + "zstd.Decoder"
    p = nn(E, st, a[0])
    zopen(E, st, tn, a[0])
    zdst(E, st, a[2], a[1])
    q = E.bsof(st, a[1])
    pre = E.th.snil if E.implies(st, a[2].l == 0) else E.bsof(st, a[2])
    v = lib(E, "validzstd", q)
    s2 = st.copy()
    st.assume(v)
    s2.assume(z3.Not(v))
    res = []
    if E.query(st.pc) != z3.unsat:
        x = lib(E, "unzstd", q)
        res.append(("ok", st, TupleV([E.bytes_from(st, x if z3.eq(pre, E.th.snil) else E.th.concat(pre, x), True), nilerr(E)])))
    if E.query(s2.pc) != z3.unsat:
        x = seqfacts(E, s2, E.th.fresh("partial", E.th.BS))
        res.append(("ok", s2, TupleV([E.bytes_from(s2, x, True), liberr(E, s2)])))
    return res + p


@model("(*%szstd.Encoder).Close" % KP)
def zeclose(E, st, a, d):
    p = nn(E, st, a[0])
    E.gset(st, KP + "zstd.Encoder", "closed", a[0], z3.BoolVal(True))
    return ok(st, nilerr(E)) + p


@model("(*%szstd.Decoder).Close" % KP)
def zdclose(E, st, a, d):
    p = nn(E, st, a[0])
    E.gset(st, KP + "zstd.Decoder", "closed", a[0], z3.BoolVal(True))
    return ok(st) + p
