"""Assumed contracts of the cipher, RSA, PEM and file packages."""
import z3
from .models import model, imodel, ok, ghost, MODELS, IMODELS, Z0, F0, INT, BOOL, liberr
from .models2 import (BSORT, EMPTY, nn, bdata, bset, seqfacts, seqarg, nilerr, dynref, lib, LIBF, LIBAX)
from .theory import SliceV, StructV, TupleV, Unsupported, is_num, LENMAX

STR = "string"


def opt(E, st, cond, mk):
    """outcome mk(s) under cond, if it is possible"""
    s = st.copy()
    s.assume(cond)
    return mk(s) if E.query(s.pc) != z3.unsat else []


@model("bytes.Repeat")
def brepeat(E, st, a, d):
    th = E.th
    q, n = E.bsof(st, a[0]), a[1]
    p = E.need(None, st, n >= th.iv(0), "bytes: negative Repeat count")
    if E.implies(st, a[0].l == th.iv(1)):
        r = th.rep(th.sat(q, th.iv(0)), n)
    elif E.implies(st, n == th.iv(1)):
        r = q
    else:
        r = seqfacts(E, st, th.fresh("repeat", th.BS))
    return ok(st, E.bytes_from(st, r, True)) + p


# ------------------------------------------------------------------ AES in CBC mode
LIBF["aescbc"] = ([STR, STR, STR], STR)      # key, iv, text
LIBF["unaescbc"] = ([STR, STR, STR], STR)


def cbcax(E):
    if E.extmemo.get("cbcax"):
        return
    E.extmemo["cbcax"] = True
    th = E.th
    k, v, s = [z3.Const(x, th.BS) for x in ("k", "v", "s")]
    e, u = lib(E, "aescbc", k, v, s), lib(E, "unaescbc", k, v, s)
    ee, uu = e.decl(), u.decl()
    blocks = th.slen(s) % 16 == 0
    th.axioms.append(z3.ForAll([k, v, s], z3.Implies(blocks, z3.And(th.slen(e) == th.slen(s), uu(k, v, e) == s)), patterns=[e]))
    th.axioms.append(z3.ForAll([k, v, s], z3.Implies(blocks, z3.And(th.slen(u) == th.slen(s), ee(k, v, u) == s)), patterns=[u]))


LIBAX["aescbc"] = LIBAX["unaescbc"] = cbcax
ghost("aesblock", "data", BSORT, EMPTY)
for _t in ("cbcenc", "cbcdec"):
    ghost(_t, "data", BSORT, EMPTY)     # key
    ghost(_t, "iv", BSORT, EMPTY)


@model("crypto/aes.NewCipher")
def aesnew(E, st, a, d):
    n = a[0].l

    def good(s):
        r = E.alloc(s)
        E.gset(s, "aesblock", "data", r, E.bsof(s, a[0]))
        return [("ok", s, TupleV([E.th.box(E.libtype("aesblock"))[0](r), nilerr(E)]))]

    def bad(s):
        return [("ok", s, TupleV([E.th.anynil, liberr(E, s)]))]
    g = z3.Or(n == 16, n == 24, n == 32)
    return opt(E, st, g, good) + opt(E, st, z3.Not(g), bad)


IMODELS[("aesblock", "BlockSize")] = lambda E, st, a, d: ok(st, E.th.iv(16))
IMODELS[("cbcenc", "BlockSize")] = IMODELS[("cbcdec", "BlockSize")] = IMODELS[("aesblock", "BlockSize")]
MODELS["crypto/aes.BlockSize"] = IMODELS[("aesblock", "BlockSize")]


def newcbc(tn):
    def f(E, st, a, d):
        t, b = dynref(E, st, a[0])
        if t != "aesblock":
            raise Unsupported("CBC mode over an unknown block cipher")
        p = E.need(None, st, a[1].l == 16, "cipher: IV length must equal block size")
        r = E.alloc(st)
        E.gset(st, tn, "data", r, E.gget(st, "aesblock", "data", b))
        E.gset(st, tn, "iv", r, E.bsof(st, a[1]))
        return ok(st, E.th.box(E.libtype(tn))[0](r)) + p
    return f


MODELS["crypto/cipher.NewCBCEncrypter"] = newcbc("cbcenc")
MODELS["crypto/cipher.NewCBCDecrypter"] = newcbc("cbcdec")


def cryptblocks(tn, fn):
    def f(E, st, a, d):
        r, dst, src = a
        p = E.need(None, st, src.l % 16 == 0, "crypto/cipher: input not full blocks")
        p += E.need(None, st, dst.l >= src.l, "crypto/cipher: output smaller than input")
        p += E.need(None, st, z3.Or(src.l == 0, dst.b != src.b, dst.o == src.o, dst.o >= src.o + src.l, src.o >= dst.o + src.l), "crypto/cipher: invalid buffer overlap")
        q = E.bsof(st, src)
        x = seqfacts(E, st, lib(E, fn, E.gget(st, tn, "data", r), E.gget(st, tn, "iv", r), q))
        st.assume(E.th.slen(x) == E.th.slen(q))
        E.copy(st, dst, x, E.prog.slice(E.prog.basic("uint8")), E.prog.basic("string"))
        # the next call continues the chain
        iv = E.th.fresh("iv", E.th.BS)
        st.assume(z3.Implies(src.l == 0, iv == E.gget(st, tn, "iv", r)))
        E.gset(st, tn, "iv", r, iv)
        return ok(st) + p
    return f


IMODELS[("cbcenc", "CryptBlocks")] = cryptblocks("cbcenc", "aescbc")
IMODELS[("cbcdec", "CryptBlocks")] = cryptblocks("cbcdec", "unaescbc")

# ------------------------------------------------------------------ PEM, X.509, RSA
LIBF.update({"pemok": ([STR], "bool"), "pemder": ([STR], STR), "pemrest": ([STR], STR),
             "rsapubok": ([STR], "bool"), "pkixok": ([STR], "bool"), "rsaprivok": ([STR], "bool"), "pkcs8ok": ([STR], "bool"), "certok": ([STR], "bool"),
             "rsaencrypted": ([STR, STR, STR], "bool"), "rsadecrypted": ([STR, STR], STR), "rsaencok": ([STR, STR], "bool"), "rsadecok": ([STR, STR], "bool")})
PB = "encoding/pem.Block"
PUB, PRIV = "crypto/rsa.PublicKey", "crypto/rsa.PrivateKey"
ghost(PUB, "der", BSORT, EMPTY)
ghost(PRIV, "der", BSORT, EMPTY)


def setfield(E, st, T, r, name, v):
    from .theory import Loc
    ft = dict(T.u().fields)[name]
    i = [n for n, _ in T.u().fields].index(name)
    h, E.accesshook = E.accesshook, None
    E.store(st, ft, E.field_addr(st, r, T, i)[0], v)
    E.accesshook = h


@model("encoding/pem.Decode")
def pemdecode(E, st, a, d):
    q = E.bsof(st, a[0])
    T = E.prog.named(PB)

    def good(s):
        r = E.new_object(s, T)
        setfield(E, s, T, r, "Bytes", E.bytes_from(s, seqfacts(E, s, lib(E, "pemder", q)), True))
        setfield(E, s, T, r, "Type", seqfacts(E, s, E.th.fresh("pemtype", E.th.BS)))
        return [("ok", s, TupleV([r, E.bytes_from(s, seqfacts(E, s, lib(E, "pemrest", q)), True)]))]
    v = lib(E, "pemok", q)
    return opt(E, st, v, good) + opt(E, st, z3.Not(v), lambda s: [("ok", s, TupleV([z3.IntVal(0), a[0]]))])


def keyobj(E, s, tn, q):
    r = E.new_object(s, E.prog.named(tn))
    E.gset(s, tn, "der", r, q)
    return r


@model("crypto/x509.ParsePKIXPublicKey")
def pkix(E, st, a, d):
    q = E.bsof(st, a[0])
    isrsa, okk = lib(E, "rsapubok", q), lib(E, "pkixok", q)
    st.assume(z3.Implies(isrsa, okk))

    def rsak(s):
        return [("ok", s, TupleV([E.mkiface(E.prog.ptr(E.prog.named(PUB)), keyobj(E, s, PUB, q)), nilerr(E)]))]

    def other(s):
        x = E.fresh_value(s, E.prog.iface(), "otherkey")
        s.assume(x != E.th.anynil)
        s.assume(z3.Not(E.istype(x, E.prog.ptr(E.prog.named(PUB)))))
        return [("ok", s, TupleV([x, nilerr(E)]))]
    return opt(E, st, isrsa, rsak) + opt(E, st, z3.And(okk, z3.Not(isrsa)), other) + opt(E, st, z3.Not(okk), lambda s: [("ok", s, TupleV([E.th.anynil, liberr(E, s)]))])


@model("crypto/x509.ParsePKCS1PrivateKey")
def pkcs1(E, st, a, d):
    q = E.bsof(st, a[0])
    v = lib(E, "rsaprivok", q)
    return opt(E, st, v, lambda s: [("ok", s, TupleV([keyobj(E, s, PRIV, q), nilerr(E)]))]) + opt(E, st, z3.Not(v), lambda s: [("ok", s, TupleV([z3.IntVal(0), liberr(E, s)]))])


NILB = lambda E: E.th.zero(E.prog.slice(E.prog.basic("uint8")), E)


@model("crypto/rsa.EncryptPKCS1v15")
def rsaenc(E, st, a, d):
    p = E.need(None, st, a[0] != E.th.anynil, "nil random source") + nn(E, st, a[1])
    k, m = E.gget(st, PUB, "der", a[1]), E.bsof(st, a[2])
    v = lib(E, "rsaencok", k, m)

    def good(s):
        c = seqfacts(E, s, E.th.fresh("cipher", E.th.BS))
        s.assume(lib(E, "rsaencrypted", k, m, c))
        return [("ok", s, TupleV([E.bytes_from(s, c, True), nilerr(E)]))]
    return opt(E, st, v, good) + opt(E, st, z3.Not(v), lambda s: [("ok", s, TupleV([NILB(E), liberr(E, s)]))]) + p


@model("crypto/rsa.DecryptPKCS1v15")
def rsadec(E, st, a, d):
    p = nn(E, st, a[1])
    k, m = E.gget(st, PRIV, "der", a[1]), E.bsof(st, a[2])
    v = lib(E, "rsadecok", k, m)
    return opt(E, st, v, lambda s: [("ok", s, TupleV([E.bytes_from(s, seqfacts(E, s, lib(E, "rsadecrypted", k, m)), True), nilerr(E)]))]) + \
        opt(E, st, z3.Not(v), lambda s: [("ok", s, TupleV([NILB(E), liberr(E, s)]))]) + p


# ------------------------------------------------------------------ files by name
# the file system is read as it is at the start of the call
LIBF.update({"fileexists": ([STR], "bool"), "filereadable": ([STR], "bool"), "filetext": ([STR], STR)})


@model("os.ReadFile", "io/ioutil.ReadFile")
def readfile(E, st, a, d):
    v = lib(E, "filereadable", a[0])
    E.event(st, ("readfile", a[0]))
    st.assume(z3.Implies(v, lib(E, "fileexists", a[0])))
    return opt(E, st, v, lambda s: [("ok", s, TupleV([E.bytes_from(s, seqfacts(E, s, lib(E, "filetext", a[0])), True), nilerr(E)]))]) + \
        opt(E, st, z3.Not(v), lambda s: [("ok", s, TupleV([NILB(E), liberr(E, s)]))])


@model("os.Stat", "os.Lstat")
def osstat(E, st, a, d):
    v = lib(E, "fileexists", a[0])
    st.assume(z3.Implies(lib(E, "filereadable", a[0]), v))

    def good(s):
        r = E.alloc(s)
        E.gset(s, "fileinfo", "size", r, E.fresh_value(s, E.prog.basic("int64"), "size"))
        s.assume(E.gget(s, "fileinfo", "size", r) >= 0)
        return [("ok", s, TupleV([E.th.box(E.libtype("fileinfo"))[0](r), nilerr(E)]))]

    def bad(s):
        return [("ok", s, TupleV([E.th.anynil, liberr(E, s)]))]
    return opt(E, st, v, good) + opt(E, st, z3.Not(v), bad)


ghost("fileinfo", "size", INT, Z0)
IMODELS[("fileinfo", "Size")] = lambda E, st, a, d: ok(st, E.gget(st, "fileinfo", "size", a[0]))


@model("os.IsNotExist", "os.IsExist", "os.IsPermission")
def osisnotexist(E, st, a, d):
    f = z3.Function(d["name"], E.th.ANY, z3.BoolSort())
    st.assume(z3.Not(f(E.th.anynil)))
    return ok(st, f(a[0]))


# ------------------------------------------------------------------ memory mapping
GM = "github.com/edsrzf/mmap-go."
ghost("os.File", "size", INT, Z0)
ghost("os.File", "closed", BOOL, F0)


def fsize(E, st, f):
    n = E.gget(st, "os.File", "size", f)
    st.assume(z3.And(n >= 0, n <= LENMAX))
    return n


@model("(*os.File).Stat")
def filestat(E, st, a, d):
    """size of the file at this moment"""
    p = nn(E, st, a[0])
    s2 = st.copy()
    r = E.alloc(st)
    E.gset(st, "fileinfo", "size", r, fsize(E, st, a[0]))
    return [("ok", st, TupleV([E.th.box(E.libtype("fileinfo"))[0](r), nilerr(E)])), ("ok", s2, TupleV([E.th.anynil, liberr(E, s2)]))] + p


@model("(*os.File).Close")
def fileclose(E, st, a, d):
    E.event(st, ("fileclose", a[0]))
    s2 = st.copy()
    return [("ok", st, nilerr(E)), ("ok", s2, liberr(E, s2))]


@model("(*os.File).Sync")
def filesync(E, st, a, d):
    p = nn(E, st, a[0])
    s2 = st.copy()
    return [("ok", st, nilerr(E)), ("ok", s2, liberr(E, s2))] + p


@model(GM + "Map")
def mmapmap(E, st, a, d):
    """the whole file, one byte per byte"""
    p = nn(E, st, a[0])
    n = fsize(E, st, a[0])
    s2 = st.copy()
    E.event(st, ("mmap", a[0]))
    s = E.bytes_from(st, seqfacts(E, st, E.th.fresh("mapped", E.th.BS)))
    st.assume(s.l == n)
    return [("ok", st, TupleV([s, nilerr(E)])), ("ok", s2, TupleV([NILB(E), liberr(E, s2)]))] + p


@model(GM + "MapRegion")
def mmapregion(E, st, a, d):
    raise Unsupported("mapping of a part of a file")


@model("(*%sMMap).Unmap" % GM)
def mmapunmap(E, st, a, d):
    T = E.prog.named(GM + "MMap")
    h, E.accesshook = E.accesshook, None
    v = E.load(st, T, a[0])
    E.event(st, ("munmap", v.b))
    E.store(st, T, a[0], NILB(E))
    E.accesshook = h
    s2 = st.copy()
    return [("ok", st, nilerr(E)), ("ok", s2, liberr(E, s2))]


@model("(%sMMap).Flush" % GM)
def mmapflush(E, st, a, d):
    E.event(st, ("flush", a[0].b))
    s2 = st.copy()
    return [("ok", st, nilerr(E)), ("ok", s2, liberr(E, s2))]


@model("golang.org/x/sys/unix.Getpagesize", "os.Getpagesize", "syscall.Getpagesize")
def pagesize(E, st, a, d):
    n = z3.Int("pagesize")
    st.assume(z3.And(n >= 512, n <= 1 << 30))
    return ok(st, n)


@model("golang.org/x/sys/unix.Syscall6", "syscall.Syscall6", "golang.org/x/sys/unix.Syscall", "syscall.Syscall")
def syscall6(E, st, a, d):
    rs = [E.fresh_value(st, T, "sys") for T in d["sig"].results]
    E.event(st, ("syscall", a))
    return ok(st, TupleV(rs))


@model("golang.org/x/sys/unix.Msync")
def msync(E, st, a, d):
    E.event(st, ("msync", a[0].b, a[0].o, a[0].l))
    s2 = st.copy()
    return [("ok", st, nilerr(E)), ("ok", s2, liberr(E, s2))]
