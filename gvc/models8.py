"""Assumed contracts of golang.org/x/net/websocket, net/http, net/url and certificate pools."""
import z3
from .models import model, imodel, ok, ghost, MODELS, IMODELS, Z0, F0, INT, BOOL, liberr
from .models2 import BSORT, EMPTY, nn, bdata, bset, seqfacts, nilerr, dynref, lib, LIBF, LIBAX, GLOBHOOK, rdrain, DRAIN
from .models6 import opt, setfield, STR
from .theory import SliceV, StructV, TupleV, Unsupported
from . import spec as S


# ------------------------------------------------------------------ recorded operations
def rec(E, st, kind, obj, **vals):
    """records an operation together with the state it ran in"""
    E.event(st, (kind, obj, vals, st.copy()))


def ops(ev, kind, obj):
    return [e for e in S.evs_since(ev.st, (kind,)) if obj is None or z3.eq(e[1], obj) or ev.E.implies(ev.st, e[1] == obj)]


def kindof(a):
    return a[0].b.decode() if hasattr(a[0], "b") else a[0][1].decode()


# ------------------------------------------------------------------ websocket
WS = "golang.org/x/net/websocket."
for _i, _n in enumerate(("Message", "JSON")):
    GLOBHOOK[WS + _n] = (lambda i: lambda E, st, T: StructV(T, [z3.IntVal(1700 + 2 * i), z3.IntVal(1701 + 2 * i)]))(_i)
ghost(WS + "Conn", "closed", BOOL, F0)


def payload(E, st, v):
    dy = E.dyn(st, v)
    if dy is None:
        raise Unsupported("websocket payload of unknown type")
    T, x = dy
    if isinstance(x, SliceV):
        return E.bsof(st, x)
    if T.u().k == "basic" and T.u().name == "string":
        return x
    raise Unsupported("websocket payload " + T.s)


def message(cd):
    f = cd.f[0]
    return z3.is_int_value(f) and f.as_long() == 1700


def wssend(E, st, conn, q, isok, err):
    rec(E, st, "wssend", conn, data=(q, E.prog.basic("string")), err=(err, E.prog.iface()))


@model("(%sCodec).Send" % WS)
def codecsend(E, st, a, d):
    if not message(a[0]):
        raise Unsupported("websocket codec other than Message")
    p = nn(E, st, a[1])
    q = payload(E, st, a[2])
    s2 = st.copy()
    wssend(E, st, a[1], q, True, nilerr(E))
    e = liberr(E, s2)
    wssend(E, s2, a[1], q, False, e)
    return [("ok", st, nilerr(E)), ("ok", s2, e)] + p


@model("(*%sConn).Write" % WS)
def connwrite(E, st, a, d):
    p = nn(E, st, a[0])
    q = E.bsof(st, a[1])
    s2 = st.copy()
    wssend(E, st, a[0], q, True, nilerr(E))
    e = liberr(E, s2)
    wssend(E, s2, a[0], q, False, e)
    n = E.fresh_value(s2, E.prog.basic("int"), "n")
    return [("ok", st, TupleV([a[1].l, nilerr(E)])), ("ok", s2, TupleV([n, e]))] + p


@model("(%sCodec).Receive" % WS)
def codecreceive(E, st, a, d):
    if not message(a[0]):
        raise Unsupported("websocket codec other than Message")
    p = nn(E, st, a[1])
    dy = E.dyn(st, a[2])
    if dy is None or dy[0].u().k != "ptr" or dy[0].u().e.u().k != "slice":
        raise Unsupported("receive into something other than a byte slice")
    T, x = dy
    s2 = st.copy()
    q = seqfacts(E, st, E.th.fresh("received", E.th.BS))
    rec(E, st, "wsrecv", a[1], data=(q, E.prog.basic("string")))
    E.store(st, T.u().e, x, E.bytes_from(st, q, True))
    e = liberr(E, s2)
    rec(E, s2, "wsfail", a[1], err=(e, E.prog.iface()))
    return [("ok", st, nilerr(E)), ("ok", s2, e)] + p


@model("(*%sConn).Close" % WS)
def connclose(E, st, a, d):
    p = nn(E, st, a[0])
    rec(E, st, "wsclose", a[0])
    s2 = st.copy()
    return [("ok", st, nilerr(E)), ("ok", s2, liberr(E, s2))] + p


def conn_or_err(name, tn):
    @model(name)
    def f(E, st, a, d):
        s2 = st.copy()
        r = E.new_object(st, E.prog.named(tn))
        rec(E, st, "made " + tn.split("/")[-1], r)
        return [("ok", st, TupleV([r, nilerr(E)])), ("ok", s2, TupleV([z3.IntVal(0), liberr(E, s2)]))]
    return f


conn_or_err(WS + "DialConfig", WS + "Conn")
conn_or_err(WS + "Dial", WS + "Conn")
conn_or_err("net/url.ParseRequestURI", "net/url.URL")
conn_or_err("net/url.Parse", "net/url.URL")


@model("crypto/x509.NewCertPool")
def certpool(E, st, a, d):
    return ok(st, E.new_object(st, E.prog.named("crypto/x509.CertPool")))


@model("(*crypto/x509.CertPool).AppendCertsFromPEM")
def appendcerts(E, st, a, d):
    p = nn(E, st, a[0])
    return ok(st, E.fresh_value(st, E.prog.basic("bool"), "certs")) + p


@S.native("wsends")
def n_wsends(ev, a):
    """messages given to this connection"""
    return S.count_eq(ev, ("wssend",), ev.load(*a[0])[0]), ev.E.prog.basic("int")


@S.native("wscloses")
def n_wscloses(ev, a):
    return S.count_eq(ev, ("wsclose",), ev.load(*a[0])[0]), ev.E.prog.basic("int")


def opval(ev, kind, obj, i, name, T):
    es = ops(ev, kind, obj)
    return (es[i][2][name][0] if i < len(es) else ev.E.fresh_value(ev.st, T, "noop")), T


@S.native("wsdata")
def n_wsdata(ev, a):
    return opval(ev, "wssend", ev.load(*a[0])[0], S.litn(a[1]), "data", ev.E.prog.basic("string"))


@S.native("wserr")
def n_wserr(ev, a):
    return opval(ev, "wssend", ev.load(*a[0])[0], S.litn(a[1]), "err", ev.E.prog.iface())


# ------------------------------------------------------------------ net/http client
# A header is a set of canonical names with values; a request carries the bytes its reader holds.
REQ, RESP, HDR = "net/http.Request", "net/http.Response", "net/http.Header"
LIBF["canonheader"] = ([STR], STR)
for _t, _g, _s, _d in ((REQ, "url", BSORT, EMPTY), (REQ, "data", BSORT, EMPTY), ("respbody", "data", BSORT, EMPTY), ("respbody", "closed", BOOL, F0), (HDR, "cookie", INT, Z0)):
    ghost(_t, _g, _s, _d)
ghost(HDR, "has", lambda E: z3.ArraySort(E.th.BS, z3.BoolSort()), lambda E, T: z3.K(E.th.BS, z3.BoolVal(False)))
ghost(HDR, "val", lambda E: z3.ArraySort(E.th.BS, E.th.BS), lambda E, T: z3.K(E.th.BS, E.th.snil))


def getfield(E, st, T, r, name):
    ft = dict(T.u().fields)[name]
    i = [n for n, _ in T.u().fields].index(name)
    h, E.accesshook = E.accesshook, None
    v = E.load(st, ft, E.field_addr(st, r, T, i)[0])
    E.accesshook = h
    return v


def bodydata(E, st, rd):
    """what a request body reader holds"""
    if z3.eq(rd, E.th.anynil) or E.implies(st, rd == E.th.anynil):
        return E.th.snil
    t, v = dynref(E, st, rd)
    if t in ("*bytes.Buffer", "*bytes.Reader", "*strings.Reader"):
        return bdata(E, st, v, t[1:])
    raise Unsupported("request body of type %s" % t)


def newrequest(E, st, method, url, rd):
    res = []
    nils = st.copy()
    known = z3.eq(rd, E.th.anynil) or E.dyn(st, rd) is not None
    cases = [(st, rd)]
    if not known:
        # a body that is nil on some paths
        nils.assume(rd == E.th.anynil)
        st.assume(rd != E.th.anynil)
        cases = [c for c in ((st, rd), (nils, E.th.anynil)) if E.query(c[0].pc) != z3.unsat]
    for s, x in cases:
        q = bodydata(E, s, x)
        s2 = s.copy()
        T = E.prog.named(REQ)
        r = E.new_object(s, T)
        h = E.alloc(s)
        setfield(E, s, T, r, "Method", method)
        setfield(E, s, T, r, "Header", h)
        u = E.new_object(s, E.prog.named("net/url.URL"))
        setfield(E, s, T, r, "URL", u)
        setfield(E, s, T, r, "ContentLength", E.conv_int(s, E.th.slen(q), E.prog.basic("int"), E.prog.basic("int64")))
        for g, d in GH[HDR].items():
            E.gset(s, HDR, g, h, d[1](E, None))
        E.gset(s, REQ, "url", r, url)
        E.gset(s, REQ, "data", r, q)
        res += [("ok", s, TupleV([r, nilerr(E)])), ("ok", s2, TupleV([z3.IntVal(0), liberr(E, s2)]))]
    return res


from .engine import GHOSTS as GH  # noqa: E402
MODELS["net/http.NewRequest"] = lambda E, st, a, d: newrequest(E, st, a[0], a[1], a[2])
MODELS["net/http.NewRequestWithContext"] = lambda E, st, a, d: newrequest(E, st, a[1], a[2], a[3])


def canon(E, k):
    return lib(E, "canonheader", k)


@model("(%s).Set" % HDR)
def hdrset(E, st, a, d):
    h, k, v = a
    p = E.need(None, st, h != 0, "assignment to entry in nil map")
    c = canon(E, k)
    E.gset(st, HDR, "has", h, z3.Store(E.gget(st, HDR, "has", h), c, z3.BoolVal(True)))
    E.gset(st, HDR, "val", h, z3.Store(E.gget(st, HDR, "val", h), c, v))
    cookie = canon(E, E.th.lit(b"Cookie"))
    E.gset(st, HDR, "cookie", h, z3.If(c == cookie, z3.IntVal(0), E.gget(st, HDR, "cookie", h)))
    return ok(st) + p


@model("(%s).Add" % HDR)
def hdradd(E, st, a, d):
    h, k, v = a
    p = E.need(None, st, h != 0, "assignment to entry in nil map")
    c = canon(E, k)
    had = z3.Select(E.gget(st, HDR, "has", h), c)
    x = E.th.fresh("headervalues", E.th.BS)
    E.gset(st, HDR, "val", h, z3.Store(E.gget(st, HDR, "val", h), c, z3.If(had, x, v)))
    E.gset(st, HDR, "has", h, z3.Store(E.gget(st, HDR, "has", h), c, z3.BoolVal(True)))
    return ok(st) + p


@model("(%s).Del" % HDR)
def hdrdel(E, st, a, d):
    h, k = a
    c = canon(E, k)
    E.gset(st, HDR, "has", h, z3.Store(E.gget(st, HDR, "has", h), c, z3.BoolVal(False)))
    return ok(st)


@model("(*%s).AddCookie" % REQ)
def addcookie(E, st, a, d):
    r, c = a
    p = nn(E, st, r) + nn(E, st, c)
    h = getfield(E, st, E.prog.named(REQ), r, "Header")
    k = canon(E, E.th.lit(b"Cookie"))
    E.gset(st, HDR, "cookie", h, c)
    E.gset(st, HDR, "has", h, z3.Store(E.gget(st, HDR, "has", h), k, z3.BoolVal(True)))
    E.gset(st, HDR, "val", h, z3.Store(E.gget(st, HDR, "val", h), k, E.th.fresh("cookies", E.th.BS)))
    return ok(st) + p


def httpdo(E, st, req):
    T = E.prog.named(REQ)
    S_ = E.prog.basic("string")
    h = getfield(E, st, T, req, "Header")
    q, url = E.gget(st, REQ, "data", req), E.gget(st, REQ, "url", req)
    rec(E, st, "httpdo", req, data=(q, S_), url=(url, S_), method=(getfield(E, st, T, req, "Method"), S_), clen=(getfield(E, st, T, req, "ContentLength"), E.prog.basic("int64")),
        has=(E.gget(st, HDR, "has", h), None), val=(E.gget(st, HDR, "val", h), None), cookie=(E.gget(st, HDR, "cookie", h), None))
    s2 = st.copy()
    R = E.prog.named(RESP)
    r = E.new_object(st, R)
    b = E.alloc(st)
    E.gset(st, "respbody", "data", b, seqfacts(E, st, E.th.fresh("response", E.th.BS)))
    E.gset(st, "respbody", "closed", b, z3.BoolVal(False))
    setfield(E, st, R, r, "Body", E.th.box(E.libtype("respbody"))[0](b))
    for n, tn in (("StatusCode", "int"), ("ContentLength", "int64"), ("Status", "string")):
        setfield(E, st, R, r, n, E.fresh_value(st, E.prog.basic(tn), n))
    E.event(st, ("httpok", b, E.gget(st, "respbody", "data", b)))
    return [("ok", st, TupleV([r, nilerr(E)])), ("ok", s2, TupleV([z3.IntVal(0), liberr(E, s2)]))]


@model("(*net/http.Client).Do")
def clientdo(E, st, a, d):
    p = nn(E, st, a[0]) + nn(E, st, a[1])
    return httpdo(E, st, a[1]) + p


def respdrain(E, st, b):
    closed = E.gget(st, "respbody", "closed", b)
    s2 = st.copy()
    st.assume(z3.Not(closed))
    res = []
    if E.query(st.pc) != z3.unsat:
        q = E.gget(st, "respbody", "data", b)
        E.gset(st, "respbody", "data", b, E.th.snil)
        res.append((st, q, None))
    E.gset(s2, "respbody", "data", b, E.th.snil)
    E.event(s2, ("httpreadfail", b))
    res.append((s2, seqfacts(E, s2, E.th.fresh("partial", E.th.BS)), liberr(E, s2, False)))
    return res


DRAIN["respbody"] = respdrain


@imodel(("respbody", "Close"))
def respclose(E, st, a, d):
    E.event(st, ("bodyclose", a[0]))
    E.gset(st, "respbody", "closed", a[0], z3.BoolVal(True))
    s2 = st.copy()
    return [("ok", st, nilerr(E)), ("ok", s2, liberr(E, s2))]


def doval(name, tn):
    @S.native("do" + name)
    def f(ev, a):
        es = S.evs_since(ev.st, ("httpdo",))
        T = ev.E.prog.basic(tn) if tn else None
        return (es[0][2][name][0] if es else ev.E.fresh_value(ev.st, T, "nodo")), T


for _n, _t in (("data", "string"), ("url", "string"), ("method", "string"), ("clen", "int64")):
    doval(_n, _t)


def hdrarr(ev, req, which):
    E = ev.E
    if req is None:
        es = S.evs_since(ev.st, ("httpdo",))
        return es[0][2][which][0] if es else E.th.fresh("nodo", GH[HDR][which][0](E))
    r = ev.load(*req)[0]
    return E.gget(ev.st, HDR, which, getfield(E, ev.work(), E.prog.named(REQ), r, "Header"))


def hdrnative(name, which, tn, own):
    @S.native(name)
    def f(ev, a):
        k = a[-1]
        v = ev.load(*k)[0]
        return z3.Select(hdrarr(ev, a[0] if own else None, which), canon(ev.E, v)), ev.E.prog.basic(tn)


hdrnative("dohas", "has", "bool", False)
hdrnative("doheader", "val", "string", False)
hdrnative("reqhas", "has", "bool", True)
hdrnative("reqheader", "val", "string", True)


@S.native("docookie")
def n_docookie(ev, a):
    """the request was sent with this cookie"""
    es = S.evs_since(ev.st, ("httpdo",))
    c = es[0][2]["cookie"][0] if es else ev.E.th.fresh("nodo", z3.IntSort())
    return c == ev.load(*a[0])[0], ev.E.prog.basic("bool")


@S.native("respdata")
def n_respdata(ev, a):
    es = S.evs_since(ev.st, ("httpok",))
    S_ = ev.E.prog.basic("string")
    return (es[0][2] if es else ev.E.fresh_value(ev.st, S_, "noresp")), S_


@S.native("respclosed")
def n_respclosed(ev, a):
    """every response body obtained was closed"""
    cl = S.evs_since(ev.st, ("bodyclose",))
    return z3.And(*[z3.Or(*[c[1] == e[1] for c in cl]) for e in S.evs_since(ev.st, ("httpok",))]), ev.E.prog.basic("bool")
