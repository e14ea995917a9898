"""Assumed contracts of further library packages (byte buffers, hashes, encodings, pools)."""
import z3
from .models import model, imodel, ok, ghost, MODELS, IMODELS, Z0, F0, INT, BOOL, liberr, GHOSTS
from .engine import Engine
from .theory import SliceV, StructV, ArrayV, Closure, Loc, TupleV, Unsupported, is_num, LENMAX

BSORT = lambda E: E.th.BS
EMPTY = lambda E, T: E.th.snil

# ------------------------------------------------------------------ library function symbols
# uninterpreted mathematical functions of the library: name -> (argument types, result type)
LIBF = {
    "crc32ieee": (["string"], "uint32"), "fnv32a": (["string"], "uint32"), "fnv64a": (["string"], "uint64"),
    "fnv32": (["string"], "uint32"), "fnv64": (["string"], "uint64"), "crc64": (["uint64", "string"], "uint64"),
    "maphash": (["ghost", "string"], "uint64"), "crc32": (["uint32", "string"], "uint32"),
    "md5": (["string"], "string"), "sha1": (["string"], "string"), "sha256": (["string"], "string"), "sha512": (["string"], "string"),
    "blake2b256": (["string"], "string"),
    "fnv128a": (["string"], "string"), "fnv128": (["string"], "string"),
    "hex": (["string"], "string"), "unhex": (["string"], "string"), "upper": (["string"], "string"), "lower": (["string"], "string"),
    "seqbe64": (["string"], "string"),
}
LIBAX = {}  # extra axioms of a symbol, added at its first use
DIGEST = {"md5": 16, "sha1": 20, "sha256": 32, "sha512": 64, "blake2b256": 32, "fnv128a": 16, "fnv128": 16}


def libT(E, t):
    return E.prog.iface() if t == "any" else E.prog.basic(t)


def libfn(E, name):
    c = E.extmemo.get(("lib", name))
    if c is None:
        ts, r = LIBF[name]
        Ts, R = [libT(E, t) if t != "ghost" else None for t in ts], libT(E, r)
        so = lambda T: z3.IntSort() if T is None else E.th.comps(T)[0][1]
        f = z3.Function("lib|" + name, *([so(T) for T in Ts] + [E.th.comps(R)[0][1]]))
        xs = [z3.Const("x%d" % i, so(T)) for i, T in enumerate(Ts)]
        th = E.th
        if name in DIGEST:
            th.axioms.append(z3.ForAll(xs, th.slen(f(*xs)) == th.iv(DIGEST[name]), patterns=[f(*xs)]))
        if th.isint(R) and not th.is_bvint(R):
            th.axioms.append(z3.ForAll(xs, th.irange(f(*xs), R), patterns=[f(*xs)]))
        if name in ("upper", "lower"):
            pass
        c = (f, Ts, R)
        E.extmemo[("lib", name)] = c
        if name in ("hex", "unhex"):
            hexaxioms(E)
        if name in LIBAX:
            LIBAX[name](E)
    return c


def lib(E, name, *args):
    return libfn(E, name)[0](*args)


def hexaxioms(E):
    """hex text of a byte string: two lower-case digits per byte, and its inverse"""
    if E.extmemo.get("hexax"):
        return
    E.extmemo["hexax"] = True
    th = E.th
    h, u = lib(E, "hex", th.snil).decl(), lib(E, "unhex", th.snil).decl()
    s = z3.Const("s", th.BS)
    i = z3.Const("i", th.IDX)
    two = th.iv(2)
    th.axioms.append(z3.ForAll([s], z3.And(th.slen(h(s)) == two * th.slen(s), u(h(s)) == s), patterns=[h(s)]))
    dig = hexdigit(E)
    inr = z3.And(i >= th.iv(0), i < th.slen(h(s)))
    hi = i / two if not th.bv else z3.LShR(i, th.iv(1))
    lo = i % two if not th.bv else (i & th.iv(1))
    b = th.sat(s, hi)
    th.axioms.append(z3.ForAll([s, i], z3.Implies(inr, th.sat(h(s), i) == z3.If(lo == th.iv(0), dig(nib(E, b, True)), dig(nib(E, b, False)))), patterns=[th.sat(h(s), i)]))


def nib(E, b, high):
    if z3.is_bv(b):
        return z3.LShR(b, 4) if high else (b & 15)
    return b / 16 if high else b % 16


def hexdigit(E):
    """nibble -> lower-case digit, as a total function"""
    th = E.th

    def f(n):
        lit = (lambda x: z3.BitVecVal(x, 8)) if z3.is_bv(n) else z3.IntVal
        lt = z3.ULT(n, lit(10)) if z3.is_bv(n) else n < 10
        return z3.If(lt, n + lit(48), n + lit(87))
    return f


# ------------------------------------------------------------------ constant globals of libraries
GLOBERRS = ["io.EOF", "io.ErrUnexpectedEOF", "io.ErrShortWrite", "io.ErrShortBuffer", "io.ErrNoProgress", "io.ErrClosedPipe", "os.ErrNotExist", "os.ErrExist", "os.ErrClosed", "os.ErrInvalid",
            "context.Canceled", "context.DeadlineExceeded", "bytes.ErrTooLarge", "encoding/hex.ErrLength", "compress/zlib.ErrHeader", "compress/zlib.ErrChecksum",
            "compress/gzip.ErrHeader", "compress/gzip.ErrChecksum", "net/http.ErrUseLastResponse"]


def globerr(E, name):
    r = z3.IntVal(1600 + GLOBERRS.index(name))
    T = E.libtype("error")
    return E.th.box(T)[0](r)


GLOBHOOK = {n: (lambda E, st, T, n=n: globerr(E, n)) for n in GLOBERRS}
# other constant library globals: one reserved reference each
GLOBREFS = ["hash/crc32.IEEETable", "encoding/base64.StdEncoding", "encoding/base64.URLEncoding", "encoding/base64.RawStdEncoding", "encoding/base64.RawURLEncoding", "crypto/rand.Reader",
            "net/http.DefaultClient", "net/http.DefaultTransport", "os.Stdout", "os.Stderr"]


def globrefhook(n):
    def f(E, st, T):
        r = z3.IntVal(1800 + GLOBREFS.index(n))
        if T.u().k == "iface":
            return E.th.box(E.libtype(n))[0](r)
        return r
    return f


for _n in GLOBREFS:
    GLOBHOOK[_n] = globrefhook(_n)
Engine.globhook = GLOBHOOK

# ------------------------------------------------------------------ bytes.Buffer
BUF = "bytes.Buffer"
ghost(BUF, "data", BSORT, EMPTY)
COPYABLE = {BUF}


def seqfacts(E, st, s):
    if not z3.eq(s, E.th.snil):
        st.assume(z3.And(E.th.slen(s) >= E.th.iv(0), E.th.slen(s) <= E.th.iv(LENMAX)))
    return s


def bdata(E, st, r, tn=BUF):
    return seqfacts(E, st, E.gget(st, tn, "data", r))


def bset(E, st, r, s, tn=BUF):
    E.gset(st, tn, "data", r, seqfacts(E, st, s))


def nn(E, st, r, why="nil pointer dereference"):
    if isinstance(r, Loc):
        raise Unsupported("library object behind interior pointer")
    return E.need(None, st, r != 0, why) if not is_num(r) else []


def seqarg(E, st, v):
    return E.bsof(st, v) if isinstance(v, SliceV) else v


def nilerr(E):
    return E.th.anynil


def eqseq(E, st, a, b):
    """a == b for byte sequences, with extensionality"""
    st.assume(E.th.eqtrig(a, b))
    return a == b


@model("bytes.NewBuffer", "bytes.NewBufferString")
def newbuffer(E, st, a, d):
    s = seqarg(E, st, a[0])
    r = E.new_object(st, E.prog.named(BUF))
    bset(E, st, r, s)
    return ok(st, r)


def bufwrite(tn):
    def f(E, st, a, d):
        p = nn(E, st, a[0])
        s = seqarg(E, st, a[1])
        bset(E, st, a[0], E.th.concat(bdata(E, st, a[0], tn), s), tn)
        n = a[1].l if isinstance(a[1], SliceV) else E.th.slen(a[1])
        return ok(st, TupleV([n, nilerr(E)])) + p
    return f


def bufwritebyte(tn):
    def f(E, st, a, d):
        p = nn(E, st, a[0])
        bset(E, st, a[0], E.th.concat(bdata(E, st, a[0], tn), E.th.rep(a[1], E.th.iv(1))), tn)
        return ok(st, nilerr(E)) + p
    return f


SB = "strings.Builder"
ghost(SB, "data", BSORT, EMPTY)
for _t in (BUF, SB):
    MODELS["(*%s).Write" % _t] = bufwrite(_t)
    MODELS["(*%s).WriteString" % _t] = bufwrite(_t)
    MODELS["(*%s).WriteByte" % _t] = bufwritebyte(_t)


def buflen(tn):
    return lambda E, st, a, d: ok(st, E.th.slen(bdata(E, st, a[0], tn))) + nn(E, st, a[0])


def bufstr(tn):
    return lambda E, st, a, d: ok(st, bdata(E, st, a[0], tn)) + nn(E, st, a[0])


def bufreset(tn):
    def f(E, st, a, d):
        p = nn(E, st, a[0])
        bset(E, st, a[0], E.th.snil, tn)
        return ok(st) + p
    return f


def bufgrow(E, st, a, d):
    p = E.need(None, st, a[1] >= E.th.iv(0), "Grow: negative count")
    return ok(st) + p + nn(E, st, a[0])


for _t in (BUF, SB):
    MODELS["(*%s).Len" % _t] = buflen(_t)
    MODELS["(*%s).Reset" % _t] = bufreset(_t)
    MODELS["(*%s).Grow" % _t] = bufgrow
    MODELS["(*%s).String" % _t] = bufstr(_t)


@model("(*bytes.Buffer).Cap", "(*strings.Builder).Cap")
def bufcap(E, st, a, d):
    p = nn(E, st, a[0])
    c = E.fresh_value(st, E.prog.basic("int"), "cap")
    st.assume(c >= E.th.slen(bdata(E, st, a[0], BUF if "bytes" in d["name"] else SB)))
    return ok(st, c) + p


@model("(*bytes.Buffer).Bytes")
def bufbytes(E, st, a, d):
    p = nn(E, st, a[0])
    v = E.bytes_from(st, bdata(E, st, a[0]), True)
    E.event(st, ("view", a[0], v.b))
    return ok(st, v) + p


@model("(*bytes.Buffer).Truncate")
def buftrunc(E, st, a, d):
    p = nn(E, st, a[0])
    s = bdata(E, st, a[0])
    p += E.need(None, st, z3.And(a[1] >= E.th.iv(0), a[1] <= E.th.slen(s)), "Truncate out of range")
    bset(E, st, a[0], E.th.sub(s, E.th.iv(0), a[1]))
    return ok(st) + p


def minlen(E, st, a, b):
    if E.implies(st, a <= b):
        return a
    if E.implies(st, b <= a):
        return b
    return z3.If(a < b, a, b)


def read_into(E, st, seq, p):
    """copy the first min(len p, len seq) bytes of seq into p; returns (n, rest)"""
    th = E.th
    BT = E.prog.basic("uint8")
    n = E.copy(st, p, seq, E.prog.slice(BT), E.prog.basic("string"))
    return n, th.sub(seq, n, th.slen(seq))


def bufread(tn):
    def f(E, st, a, d):
        p = nn(E, st, a[0])
        th = E.th
        s = bdata(E, st, a[0], tn)
        emp = th.slen(s) == th.iv(0)
        s2 = st.copy()
        res = []
        s2.assume(emp)
        if E.query(s2.pc) != z3.unsat:
            bset(E, s2, a[0], th.snil, tn)
            res.append(("ok", s2, TupleV([th.iv(0), z3.If(a[1].l == th.iv(0), nilerr(E), globerr(E, "io.EOF"))])))
        st.assume(z3.Not(emp))
        if E.query(st.pc) != z3.unsat:
            n, rest = read_into(E, st, s, a[1])
            bset(E, st, a[0], rest, tn)
            res.append(("ok", st, TupleV([n, nilerr(E)])))
        return res + p
    return f


RD = "bytes.Reader"
ghost(RD, "data", BSORT, EMPTY)
MODELS["(*bytes.Buffer).Read"] = bufread(BUF)
MODELS["(*bytes.Reader).Read"] = bufread(RD)
MODELS["(*bytes.Reader).Len"] = buflen(RD)
SR = "strings.Reader"
ghost(SR, "data", BSORT, EMPTY)
MODELS["(*strings.Reader).Read"] = bufread(SR)
MODELS["(*strings.Reader).Len"] = buflen(SR)


@model("bytes.NewReader", "strings.NewReader")
def newreader(E, st, a, d):
    s = seqarg(E, st, a[0])
    tn = RD if d["name"].startswith("bytes") else SR
    r = E.new_object(st, E.prog.named(tn))
    bset(E, st, r, s, tn)
    return ok(st, r)


# ------------------------------------------------------------------ readers and writers by dynamic type
WRITERS = {}
DRAIN = {}


def dynref(E, st, w):
    """(type string, reference) of an interface value, when known"""
    dy = E.dyn(st, w)
    if dy is None:
        return None, w
    T, v = dy
    return (T.s[4:] if T.s.startswith("lib:") else T.s), v


def wwrite(E, st, w, seq):
    """io.Writer.Write(seq): [(st, err or None)]"""
    t, r = dynref(E, st, w)
    if t in ("*bytes.Buffer", "*strings.Builder"):
        bset(E, st, r, E.th.concat(bdata(E, st, r, t[1:]), seq), t[1:])
        return [(st, None)]
    f = WRITERS.get(t)
    if f is not None:
        return f(E, st, r, seq)
    s2 = st.copy()
    E.event(st, ("write", w, seq, True))
    e = liberr(E, s2)
    E.event(s2, ("write", w, seq, False))
    return [(st, None), (s2, e)]


def rdrain(E, st, r):
    """read an io.Reader to its end: [(st, seq, err or None)]"""
    t, v = dynref(E, st, r)
    if t in ("*bytes.Buffer", "*bytes.Reader", "*strings.Reader"):
        s = bdata(E, st, v, t[1:])
        bset(E, st, v, E.th.snil, t[1:])
        return [(st, s, None)]
    f = DRAIN.get(t)
    if f is not None:
        return f(E, st, v)
    s2 = st.copy()
    s = seqfacts(E, st, E.th.fresh("rd", E.th.BS))
    q = seqfacts(E, s2, E.th.fresh("rd", E.th.BS))
    E.event(st, ("drain", r, s, True))
    e = liberr(E, s2, False)
    E.event(s2, ("drain", r, q, False))
    return [(st, s, None), (s2, q, e)]


@model("io.ReadAll", "io/ioutil.ReadAll")
def readall(E, st, a, d):
    res = []
    for s, q, e in rdrain(E, st, a[0]):
        res.append(("ok", s, TupleV([E.bytes_from(s, q, True), e if e is not None else nilerr(E)])))
    return res


@model("(*bytes.Buffer).ReadFrom")
def bufreadfrom(E, st, a, d):
    p = nn(E, st, a[0])
    res = []
    for s, q, e in rdrain(E, st, a[1]):
        bset(E, s, a[0], E.th.concat(bdata(E, s, a[0]), q))
        n = E.conv_int(s, E.th.slen(q), E.prog.basic("int"), E.prog.basic("int64"))
        res.append(("ok", s, TupleV([n, e if e is not None else nilerr(E)])))
    return res + p


@model("(*bytes.Buffer).WriteTo")
def bufwriteto(E, st, a, d):
    p = nn(E, st, a[0])
    q = bdata(E, st, a[0])
    bset(E, st, a[0], E.th.snil)
    res = []
    for s, e in wwrite(E, st, a[1], q):
        res.append(("ok", s, TupleV([E.th.slen(q), e if e is not None else nilerr(E)])))
    return res + p


@model("io.Copy")
def iocopy(E, st, a, d):
    res = []
    for s, q, e in rdrain(E, st, a[1]):
        for s2, e2 in wwrite(E, s, a[0], q):
            res.append(("ok", s2, TupleV([E.th.slen(q), e2 if e2 is not None else (e if e is not None else nilerr(E))])))
    return res


@model("io.WriteString")
def iowritestring(E, st, a, d):
    return [("ok", s, TupleV([E.th.slen(a[1]) if e is None else E.fresh_value(s, E.prog.basic("int"), "n"), e if e is not None else nilerr(E)])) for s, e in wwrite(E, st, a[0], a[1])]


@imodel(("*", "Write"))
def anywrite(E, st, a, d):
    q = seqarg(E, st, a[1])
    return [("ok", s, TupleV([a[1].l if e is None else E.fresh_value(s, E.prog.basic("int"), "n"), e if e is not None else nilerr(E)])) for s, e in wwrite(E, st, a[0], q)]


@model("io.ReadFull", "io.ReadAtLeast")
def readfull(E, st, a, d):
    t, v = dynref(E, st, a[0])
    if t not in ("*bytes.Buffer", "*bytes.Reader", "*strings.Reader"):
        n = E.fresh_value(st, E.prog.basic("int"), "n")
        s2 = st.copy()
        BT = E.prog.basic("uint8")
        q = E.th.fresh("rd", E.th.BS)
        st.assume(E.th.slen(q) == a[1].l)
        E.copy(st, a[1], q, E.prog.slice(BT), E.prog.basic("string"))
        E.event(st, ("readfull", a[0], q))
        e = liberr(E, s2)
        return [("ok", st, TupleV([a[1].l, nilerr(E)])), ("ok", s2, TupleV([n, e]))]
    th = E.th
    s = bdata(E, st, v, t[1:])
    enough = th.slen(s) >= a[1].l
    s2 = st.copy()
    st.assume(enough)
    res = []
    if E.query(st.pc) != z3.unsat:
        n, rest = read_into(E, st, s, a[1])
        bset(E, st, v, rest, t[1:])
        res.append(("ok", st, TupleV([a[1].l, nilerr(E)])))
    s2.assume(z3.Not(enough))
    if E.query(s2.pc) != z3.unsat:
        n, rest = read_into(E, s2, s, a[1])
        bset(E, s2, v, th.snil, t[1:])
        res.append(("ok", s2, TupleV([n, z3.If(n == th.iv(0), globerr(E, "io.EOF"), globerr(E, "io.ErrUnexpectedEOF"))])))
    return res


# ------------------------------------------------------------------ bytes, strings
@model("bytes.Equal")
def bytesequal(E, st, a, d):
    x, y = E.bsof(st, a[0]), E.bsof(st, a[1])
    return ok(st, eqseq(E, st, x, y))


@model("bytes.Clone", "slices.Clone[[]byte]")
def bytesclone(E, st, a, d):
    s2 = st.copy()
    st.assume(a[0].b != 0)
    s2.assume(a[0].b == 0)
    res = [("ok", st, E.bytes_from(st, E.bsof(st, a[0]), True))]
    if E.query(s2.pc) != z3.unsat:
        res.append(("ok", s2, E.th.zero(E.prog.slice(E.prog.basic("uint8")), E)))
    return res


@model("bytes.IndexByte", "strings.IndexByte", "internal/bytealg.IndexByte", "internal/bytealg.IndexByteString")
def indexbyte(E, st, a, d):
    """first index of the byte, or -1"""
    th = E.th
    sl = a[0]
    if isinstance(sl, SliceV):
        A = E.load_arr(st, E.bytes_T(), sl.b)[0]
        n = sl.l
        at = lambda i: E.sel(A, th.ix(sl.o, i))
    else:
        n = th.slen(sl)
        at = lambda i: th.sat(sl, i)
    r = th.fresh("idx", th.IDX)
    st.assume(z3.And(r >= th.iv(-1), r < n))
    ns = z3.simplify(n)
    if is_num(ns) and ns.as_long() <= 64:
        k = ns.as_long()
        st.assume(z3.Implies(r >= th.iv(0), z3.Or([z3.And(r == th.iv(i), at(th.iv(i)) == a[1]) for i in range(k)])))
        for i in range(k):
            st.assume(z3.Implies(z3.Or(r < th.iv(0), th.iv(i) < r), at(th.iv(i)) != a[1]))
    else:
        st.assume(z3.Implies(r >= th.iv(0), at(r) == a[1]))
        j = z3.Const("j", th.IDX)
        body = at(j)
        st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= th.iv(0), j < n, z3.Or(r < th.iv(0), j < r)), body != a[1]), patterns=[body]))
    return ok(st, r)


@model("strings.ToUpper", "strings.ToLower")
def strcase(E, st, a, d):
    return ok(st, seqfacts(E, st, lib(E, "upper" if d["name"].endswith("Upper") else "lower", a[0])))


# ------------------------------------------------------------------ hex
@model("encoding/hex.EncodeToString")
def hexenc(E, st, a, d):
    return ok(st, lib(E, "hex", E.bsof(st, a[0])))


def hexok(E, st, s):
    """s is a hex text"""
    th = E.th
    i = z3.Const("i", th.IDX)
    x = th.sat(s, i)
    even = (th.slen(s) & th.iv(1)) == th.iv(0) if th.bv else th.slen(s) % 2 == 0
    return z3.And(even, z3.ForAll([i], z3.Implies(z3.And(i >= th.iv(0), i < th.slen(s)), ishex(E, x)), patterns=[x]))


def ishex(E, x):
    if z3.is_bv(x):
        le = lambda a, b: z3.ULE(a, b)
        c = lambda n: z3.BitVecVal(n, 8)
    else:
        le = lambda a, b: a <= b
        c = z3.IntVal
    return z3.Or(z3.And(le(c(48), x), le(x, c(57))), z3.And(le(c(97), x), le(x, c(102))), z3.And(le(c(65), x), le(x, c(70))))


def hexvalue(E, x):
    if z3.is_bv(x):
        c = lambda n: z3.BitVecVal(n, 8)
        return z3.If(z3.ULE(x, c(57)), x - c(48), z3.If(z3.ULE(x, c(70)), x - c(55), x - c(87)))
    return z3.If(x <= 57, x - 48, z3.If(x <= 70, x - 55, x - 87))


def hexdec(E, st, s):
    """[(st, decoded seq)], [(st, decoded prefix)] for a good / bad text"""
    th = E.th
    s2 = st.copy()
    st.assume(hexok(E, st, s))
    q = lib(E, "unhex", s)
    half = lambda x: z3.LShR(x, th.iv(1)) if th.bv else x / 2
    st.assume(th.slen(q) == half(th.slen(s)))
    for n in (32, 16, 64, 40, 8):
        if E.implies(st, th.slen(s) == th.iv(n)):
            # a text of known length: the digits one by one
            for j in range(n):
                st.assume(ishex(E, th.sat(s, th.iv(j))))
            break
    i = z3.Const("i", th.IDX)
    b16 = z3.BitVecVal(16, 8) if th.mode != "int" else z3.IntVal(16)
    two = th.iv(2)
    st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= th.iv(0), i < th.slen(q)),
                                        th.sat(q, i) == hexvalue(E, th.sat(s, two * i)) * b16 + hexvalue(E, th.sat(s, two * i + th.iv(1)))), patterns=[th.sat(q, i)]))
    s2.assume(z3.Not(hexok(E, s2, s)))
    p = seqfacts(E, s2, th.fresh("hexpart", th.BS))
    s2.assume(th.slen(p) <= half(th.slen(s)))
    return (st, q), (s2, p)


@model("encoding/hex.DecodeString")
def hexdecstr(E, st, a, d):
    (s1, q), (s2, p) = hexdec(E, st, a[0])
    res = []
    if E.query(s1.pc) != z3.unsat:
        res.append(("ok", s1, TupleV([E.bytes_from(s1, q, True), nilerr(E)])))
    if E.query(s2.pc) != z3.unsat:
        res.append(("ok", s2, TupleV([E.bytes_from(s2, p, True), liberr(E, s2)])))
    return res


@model("encoding/hex.Decode")
def hexdecbuf(E, st, a, d):
    th = E.th
    src = E.bsof(st, a[1])
    half = z3.LShR(a[1].l, th.iv(1)) if th.bv else a[1].l / 2
    pans = E.need(None, st, a[0].l >= half, "hex.Decode: destination too short")
    (s1, q), (s2, p) = hexdec(E, st, src)
    res = []
    BT = E.prog.slice(E.prog.basic("uint8"))
    if E.query(s1.pc) != z3.unsat:
        n = E.copy(s1, a[0], q, BT, E.prog.basic("string"))
        res.append(("ok", s1, TupleV([half, nilerr(E)])))
    if E.query(s2.pc) != z3.unsat:
        n = E.copy(s2, a[0], p, BT, E.prog.basic("string"))
        res.append(("ok", s2, TupleV([th.slen(p), liberr(E, s2)])))
    return res + pans


@model("encoding/hex.Encode")
def hexencbuf(E, st, a, d):
    th = E.th
    q = lib(E, "hex", E.bsof(st, a[1]))
    pans = E.need(None, st, a[0].l >= a[1].l * th.iv(2), "hex.Encode: destination too short")
    E.copy(st, a[0], q, E.prog.slice(E.prog.basic("uint8")), E.prog.basic("string"))
    return ok(st, a[1].l * th.iv(2)) + pans


# ------------------------------------------------------------------ hashes
ghost("hash", "data", BSORT, EMPTY)
ghost("hash", "seed", lambda E: E.th.ANY, lambda E, T: E.th.anynil)
HASHES = {}


def newhash(kind, iface_results=1, err=False):
    def f(E, st, a, d):
        r = E.alloc(st)
        E.gset(st, "hash", "data", r, E.th.snil)
        v = E.th.box(E.libtype("hash:" + kind))[0](r)
        return ok(st, TupleV([v, nilerr(E)]) if err else v)
    return f


def hwrite(E, st, a, d):
    bset(E, st, a[0], E.th.concat(bdata(E, st, a[0], "hash"), seqarg(E, st, a[1])), "hash")
    n = a[1].l if isinstance(a[1], SliceV) else E.th.slen(a[1])
    return ok(st, TupleV([n, nilerr(E)]))


def hreset(E, st, a, d):
    bset(E, st, a[0], E.th.snil, "hash")
    return ok(st)


def hsumint(kind):
    def f(E, st, a, d):
        return ok(st, lib(E, kind, bdata(E, st, a[0], "hash")))
    return f


def hsum(kind):
    def f(E, st, a, d):
        th = E.th
        q = th.concat(E.bsof(st, a[1]), digest(E, kind, bdata(E, st, a[0], "hash")))
        if is_num(z3.simplify(a[1].l)) and z3.simplify(a[1].l).as_long() == 0:
            q = digest(E, kind, bdata(E, st, a[0], "hash"))
        return ok(st, E.bytes_from(st, q, True))
    return f


def digest(E, kind, s):
    if kind in DIGEST:
        return lib(E, kind, s)
    nm = kind + ".sum"
    if nm not in LIBF:
        LIBF[nm] = (["string"], "string")
        DIGEST[nm] = 4 if "32" in kind else 8
    return lib(E, nm, s)


for _k, _ctor in (("fnv32a", "hash/fnv.New32a"), ("fnv64a", "hash/fnv.New64a"), ("fnv32", "hash/fnv.New32"), ("fnv64", "hash/fnv.New64"), ("fnv128a", "hash/fnv.New128a"), ("fnv128", "hash/fnv.New128"),
                  ("md5", "crypto/md5.New"), ("sha1", "crypto/sha1.New"), ("sha256", "crypto/sha256.New"), ("sha512", "crypto/sha512.New"),
                  ("crc32ieee", "hash/crc32.NewIEEE")):
    MODELS[_ctor] = newhash(_k)
    IMODELS[("hash:" + _k, "Write")] = hwrite
    IMODELS[("hash:" + _k, "Reset")] = hreset
    IMODELS[("hash:" + _k, "Sum")] = hsum(_k)
    if _k[-2:] in ("32", "2a") or _k == "crc32ieee":
        IMODELS[("hash:" + _k, "Sum32")] = hsumint(_k)
    if "64" in _k:
        IMODELS[("hash:" + _k, "Sum64")] = hsumint(_k)
    WRITERS["hash:" + _k] = lambda E, st, r, seq: (bset(E, st, r, E.th.concat(bdata(E, st, r, "hash"), seq), "hash"), [(st, None)])[1]
MODELS["golang.org/x/crypto/blake2b.New256"] = newhash("blake2b256", err=True)
IMODELS[("hash:blake2b256", "Write")] = hwrite
IMODELS[("hash:blake2b256", "Reset")] = hreset
IMODELS[("hash:blake2b256", "Sum")] = hsum("blake2b256")


def sumarray(kind):
    def f(E, st, a, d):
        q = lib(E, kind, E.bsof(st, a[0]))
        T = d["sig"].results[0]
        return ok(st, ArrayV(T, {"": E.th.arrof(q)}))
    return f


for _k, _n in (("md5", "crypto/md5.Sum"), ("sha1", "crypto/sha1.Sum"), ("sha256", "crypto/sha256.Sum256"), ("sha512", "crypto/sha512.Sum512"), ("blake2b256", "golang.org/x/crypto/blake2b.Sum256")):
    MODELS[_n] = sumarray(_k)


@model("hash/crc32.ChecksumIEEE")
def crc32ieee(E, st, a, d):
    return ok(st, lib(E, "crc32ieee", E.bsof(st, a[0])))


@model("hash/crc32.MakeTable")
def crc32table(E, st, a, d):
    # tables are identified by their polynomial (reserved references)
    v = z3.simplify(a[0])
    if is_num(v) and v.as_long() == 0xedb88320:
        return ok(st, z3.IntVal(1800 + GLOBREFS.index("hash/crc32.IEEETable")))
    return ok(st, z3.Function("crc32tab", v.sort(), z3.IntSort())(v))


@model("hash/crc32.Checksum")
def crc32sum(E, st, a, d):
    t = z3.simplify(a[1])
    s = E.bsof(st, a[0])
    if is_num(t) and t.as_long() == 1800 + GLOBREFS.index("hash/crc32.IEEETable"):
        return ok(st, lib(E, "crc32ieee", s))
    if z3.is_app(t) and t.decl().name() == "crc32tab":
        return ok(st, lib(E, "crc32", t.arg(0), s))
    return ok(st, E.fresh_value(st, E.prog.basic("uint32"), "crc"))


@model("hash/crc64.MakeTable")
def crc64table(E, st, a, d):
    v = z3.simplify(a[0])
    f = z3.Function("crc64tab", v.sort(), z3.IntSort())
    st.assume(f(v) == (900 if is_num(v) and v.as_long() == 0xC96C5795D7870F42 else 901))
    return ok(st, f(v))


@model("hash/crc64.Checksum")
def crc64sum(E, st, a, d):
    t = a[1]
    s = E.bsof(st, a[0])
    if z3.is_app(t) and t.decl().name() == "crc64tab":
        return ok(st, lib(E, "crc64", t.arg(0), s))
    f = z3.Function("crc64of", z3.IntSort(), E.th.intsort(E.prog.basic("uint64")))
    return ok(st, lib(E, "crc64", f(t), s))


# maphash: a function of the seed's identity and the bytes
ghost("hash/maphash.Seed", "id", INT, Z0)


@model("hash/maphash.Bytes", "hash/maphash.String")
def maphash(E, st, a, d):
    return ok(st, lib(E, "maphash", a[0].f["id"], seqarg(E, st, a[1])))


@model("hash/maphash.MakeSeed")
def makeseed(E, st, a, d):
    return ok(st, StructV(E.prog.named("hash/maphash.Seed"), {"id": E.th.fresh("seed", z3.IntSort())}))


# ------------------------------------------------------------------ encoding/binary on []int64
def be64of(E):
    """big-endian bytes of a run of 64-bit integers (bit-vector mode)"""
    f = E.extmemo.get("be64of")
    if f is None:
        th = E.th
        S = th.intsort(E.prog.basic("int64"))
        f = z3.Function("be64seq", z3.ArraySort(th.IDX, S), th.IDX, th.IDX, th.BS)
        E.extmemo["be64of"] = f
        A, o, l, k = z3.Const("A", z3.ArraySort(th.IDX, S)), z3.Const("o", th.IDX), z3.Const("l", th.IDX), z3.Const("k", th.IDX)
        x = f(A, o, l)
        if th.bv:
            th.axioms.append(z3.ForAll([A, o, l], z3.Implies(z3.And(l >= 0, l <= th.iv(LENMAX)), th.slen(x) == l * 8), patterns=[x]))
            v = z3.Select(A, th.ixf(o, z3.LShR(k, th.iv(3))))
            sh = (th.iv(7) - (k & th.iv(7))) * th.iv(8)
            th.axioms.append(z3.ForAll([A, o, l, k], z3.Implies(z3.And(k >= 0, l >= 0, l <= th.iv(LENMAX), k < l * 8), th.sat(x, k) == z3.Extract(7, 0, z3.LShR(v, sh))), patterns=[th.sat(x, k)]))
    return f


def isbe(E, st, o):
    t, _ = dynref(E, st, o)
    return t == "encoding/binary.bigEndian"


@model("encoding/binary.Write")
def binwrite(E, st, a, d):
    dy = E.dyn(st, a[2])
    if not E.th.bv or dy is None or not isbe(E, st, a[1]) or dy[0].s != "[]int64":
        raise Unsupported("binary.Write of this type")
    v = dy[1]
    A = E.load_arr(st, E.prog.basic("int64"), v.b)[0]
    q = be64of(E)(A, v.o, v.l)
    return [("ok", s, e if e is not None else nilerr(E)) for s, e in wwrite(E, st, a[0], q)]


@model("encoding/binary.Read")
def binread(E, st, a, d):
    dy = E.dyn(st, a[2])
    t, r = dynref(E, st, a[0])
    if not E.th.bv or dy is None or not isbe(E, st, a[1]) or dy[0].s != "[]int64" or t not in ("*bytes.Buffer", "*bytes.Reader"):
        raise Unsupported("binary.Read of this type")
    th = E.th
    v = dy[1]
    s = bdata(E, st, r, t[1:])
    n8 = v.l * th.iv(8)
    enough = th.slen(s) >= n8
    s2 = st.copy()
    res = []
    st.assume(enough)
    if E.query(st.pc) != z3.unsat:
        I64 = E.prog.basic("int64")
        OA = E.load_arr(st, I64, v.b)[0]
        A = th.fresh("decoded", OA.sort())
        i = z3.Const("i", th.IDX)
        at = z3.Select(A, th.ix(v.o, i))
        val = z3.Concat(*[th.sat(s, i * th.iv(8) + th.iv(j)) for j in range(8)])
        st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < v.l), at == val), patterns=[at]))
        st.assume(z3.ForAll([i], z3.Implies(z3.Or(i < v.o, i >= v.o + v.l), z3.Select(A, i) == z3.Select(OA, i)), patterns=[z3.Select(A, i)]))
        E.store_arr(st, I64, v.b, [A])
        bset(E, st, r, th.sub(s, n8, th.slen(s)), t[1:])
        res.append(("ok", st, nilerr(E)))
    s2.assume(z3.Not(enough))
    if E.query(s2.pc) != z3.unsat:
        bset(E, s2, r, th.snil, t[1:])
        res.append(("ok", s2, liberr(E, s2)))
    return res


# ------------------------------------------------------------------ sync.Pool, sync.Once
@model("(*sync.Pool).Put")
def poolput(E, st, a, d):
    p = nn(E, st, a[0])
    E.event(st, ("poolput", a[0], a[1]))
    return ok(st) + p


@model("(*sync.Pool).Get")
def poolget(E, st, a, d):
    """either what New makes, or an object put earlier: of the type New makes, in an arbitrary state"""
    p = nn(E, st, a[0])
    PT = E.prog.named("sync.Pool")
    fT = dict(PT.u().fields)["New"]
    sh, E.accesshook = E.accesshook, None
    fv = E.load(st, fT, Loc("field", a[0], fT, "New", PT))
    E.accesshook = sh
    res = []
    if not isinstance(fv, Closure):
        fv = E.unclo(fv)
    s0 = st.copy()
    if isinstance(fv, Closure) or not (z3.is_int_value(fv) and fv.as_long() == 0):
        dd = {"args": [], "argts": [], "sig": fT.u(), "line": d.get("line"), "fv": fv, "env": d.get("env")}

        class F:
            fid, depth, env = -1, 1, d.get("env") or {}
        outs = E.exec_call(F, st, dd) if isinstance(fv, Closure) else []
        for k, s, v in outs:
            if k != "ok" and k != "ret":
                res.append((k, s, v))
                continue
            E.event(s, ("poolget", a[0], v))
            res.append(("ok", s, v))
            dy = E.dyn(s, v)
            if dy is not None:
                T = dy[0]
                x = E.fresh_value(s0, T, "pooled")
                if T.u().k in ("ptr",):
                    s0.assume(x != 0)
                    s0.assume(E.th.own(x) == x)
                v2 = E.mkiface(T, x)
                s3 = s0.copy()
                E.event(s3, ("poolget", a[0], v2))
                res.append(("ok", s3, v2))
        if not outs:
            v = E.fresh_value(s0, E.prog.iface(), "pooled")
            E.event(s0, ("poolget", a[0], v))
            res.append(("ok", s0, v))
    else:
        v = E.fresh_value(s0, E.prog.iface(), "pooled")
        E.event(s0, ("poolget", a[0], v))
        res.append(("ok", s0, v))
    for k, s, v in res:
        if k == "ok":
            for T in E.extmemo.get("makesT", []):
                x = E.unbox(s, v, T)
                s.assume(z3.Implies(makesfn(T)(fv if z3.is_expr(fv) else E.cloid(fv)), z3.And(E.istype(v, T), x != 0, E.th.own(x) == x)))
    return res + p


def makesfn(T):
    return z3.Function("makes|" + T.s, z3.IntSort(), z3.BoolSort())


def makes(E, st, f, T):
    """the function value f takes no arguments and returns a non-nil T in an interface"""
    E.extmemo.setdefault("makesT", [])
    if T not in E.extmemo["makesT"]:
        E.extmemo["makesT"].append(T)
    done = E.extmemo.setdefault("makesdone", set())
    from .models4 import Frame
    for n, c in list(E.clos.items()):
        if (n, T.s) in done or c.native is not None:
            continue
        fn = E.prog.funcs.get(c.fn)
        if fn is None or fn.params or len(fn.results) != 1:
            continue
        done.add((n, T.s))
        s = st.copy()
        try:
            outs = E.exec_call(Frame, s, {"args": [], "argts": [], "sig": None, "fv": c, "line": E.line, "env": {}})
        except Unsupported:
            continue
        good = True
        for k, s2, v in outs:
            if k not in ("ok", "ret"):
                good = False
                continue
            if isinstance(v, list):
                v = v[0]
            if not E.implies(s2, z3.And(E.istype(v, T), E.unbox(s2, v, T) != 0)):
                good = False
        if good:
            E.th.axioms.append(makesfn(T)(z3.IntVal(n)))
    return makesfn(T)(f if z3.is_expr(f) else E.cloid(f))
