"""Sorts, machine arithmetic and background axioms used by the VC generator."""
import z3
from .ssaload import INTS

LENMAX = 1 << 48


class SliceV:
    __slots__ = ("b", "o", "l", "c")

    def __init__(self, b, o, l, c):
        self.b, self.o, self.l, self.c = b, o, l, c


class StructV:
    __slots__ = ("T", "f")

    def __init__(self, T, f):
        self.T, self.f = T, f


class ArrayV:
    __slots__ = ("T", "a")

    def __init__(self, T, a):  # a: {suffix: z3 array}
        self.T, self.a = T, a


class Closure:
    __slots__ = ("fn", "targs", "binds", "native", "cid")

    def __init__(self, fn, targs=(), binds=(), native=None):
        self.fn, self.targs, self.binds, self.native = fn, targs, binds, native
        self.cid = None


class Loc:
    __slots__ = ("kind", "ref", "T", "x", "sT")

    def __init__(self, kind, ref, T, x=None, sT=None):
        self.kind, self.ref, self.T, self.x, self.sT = kind, ref, T, x, sT


class TupleV:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = list(v)


class IterV:
    __slots__ = ("kind", "ref", "m", "mT", "dom0")

    def __init__(self, kind, ref, m, mT, dom0):
        self.kind, self.ref, self.m, self.mT, self.dom0 = kind, ref, m, mT, dom0


class Unsupported(Exception):
    pass


def is_num(e):
    return z3.is_int_value(e) or z3.is_bv_value(e)


class Th:
    def __init__(self, mode):
        self.mode = mode
        self.bv = mode == "bv"
        self.IDX = z3.BitVecSort(64) if self.bv else z3.IntSort()
        self.BYTE = z3.IntSort() if mode == "int" else z3.BitVecSort(8)
        self.BS = z3.DeclareSort("BS")
        self.ANY = z3.DeclareSort("Any")
        self.F64 = z3.DeclareSort("F64")
        self.REF = z3.IntSort()
        self.axioms = []
        self.done = {}
        self.types = {}
        self.tpsorts = {}
        self.nfresh = 0
        I, IDX, BS, ANY = self.REF, self.IDX, self.BS, self.ANY
        F = z3.Function
        self.own = F("own", I, I)
        self.aown = F("aown", ANY, I)
        self.tag = F("atag", ANY, I)
        self.slen = F("slen", BS, IDX)
        self.sat = F("sat", BS, IDX, self.BYTE)
        self.concat = F("bcat", BS, BS, BS)
        self.sub = F("bsub", BS, IDX, IDX, BS)
        self.mkseq = F("mkseq", z3.ArraySort(IDX, self.BYTE), IDX, IDX, BS)
        self.arrof = F("arrof", BS, z3.ArraySort(IDX, self.BYTE))
        self.bdiff = F("bdiff", BS, BS, IDX)
        self.rep = F("brep", self.BYTE, IDX, BS)
        self.ixf = F("ix", IDX, IDX, IDX)
        self.snil = z3.Const("bs_empty", BS)
        self.anynil = z3.Const("any_nil", ANY)
        self.eqtrig = F("eqtrig", BS, BS, z3.BoolSort())
        r = z3.Int("r")
        a, b = z3.Consts("a b", BS)
        i, o, l = z3.Const("i", IDX), z3.Const("o", IDX), z3.Const("l", IDX)
        lo, hi = z3.Const("lo", IDX), z3.Const("hi", IDX)
        A = z3.Const("A", z3.ArraySort(IDX, self.BYTE))
        FA, Im, And = z3.ForAll, z3.Implies, z3.And
        z = self.iv(0)
        ax = self.axioms
        ax.append(FA([o, i], self.ixf(o, i) == o + i, patterns=[self.ixf(o, i)]))
        ax.append(FA([r], Im(r >= 0, self.own(r) == r), patterns=[self.own(r)]))
        ax.append(self.tag(self.anynil) == 0)
        ax.append(self.aown(self.anynil) == 0)
        ax.append(FA([a], self.ile(z, self.slen(a)), patterns=[self.slen(a)]))
        ax.append(FA([a], Im(self.slen(a) == z, a == self.snil), patterns=[self.slen(a)]))
        ax.append(self.slen(self.snil) == z)
        # total length of generated sequences stays below the size bound
        sl = self.slen
        inr = lambda x, n: And(self.ile(z, x), self.ilt(x, n))
        small = (lambda *xs: And(*[self.ile(sl(x), self.iv(1 << 60)) for x in xs])) if self.bv else (lambda *xs: z3.BoolVal(True))
        ax.append(FA([a, b], Im(small(a, b), sl(self.concat(a, b)) == self.iadd(sl(a), sl(b))), patterns=[self.concat(a, b)]))
        ax.append(FA([a, b, i], Im(And(small(a, b), inr(i, self.iadd(sl(a), sl(b)))),
                                   self.sat(self.concat(a, b), i) == z3.If(self.ilt(i, sl(a)), self.sat(a, i), self.sat(b, self.isub(i, sl(a))))),
                     patterns=[self.sat(self.concat(a, b), i)]))
        ax.append(FA([a], self.concat(a, self.snil) == a, patterns=[self.concat(a, self.snil)]))
        ax.append(FA([a], self.concat(self.snil, a) == a, patterns=[self.concat(self.snil, a)]))
        ok = And(self.ile(z, lo), self.ile(lo, hi), self.ile(hi, sl(a)))
        ax.append(FA([a, lo, hi], Im(ok, sl(self.sub(a, lo, hi)) == self.isub(hi, lo)), patterns=[self.sub(a, lo, hi)]))
        ax.append(FA([a, lo, hi, i], Im(And(ok, inr(i, self.isub(hi, lo))), self.sat(self.sub(a, lo, hi), i) == self.sat(a, self.iadd(lo, i))),
                     patterns=[self.sat(self.sub(a, lo, hi), i)]))
        ax.append(FA([A, o, l], Im(self.ile(z, l), sl(self.mkseq(A, o, l)) == l), patterns=[self.mkseq(A, o, l)]))
        rng = (lambda x: And(x >= 0, x <= 255)) if mode == "int" else (lambda x: z3.BoolVal(True))
        ax.append(FA([A, o, l, i], Im(And(inr(i, l), rng(z3.Select(A, self.ixf(o, i)))), self.sat(self.mkseq(A, o, l), i) == z3.Select(A, self.ixf(o, i))),
                     patterns=[self.sat(self.mkseq(A, o, l), i)]))
        ax.append(FA([A, l, i], Im(And(inr(i, l), rng(z3.Select(A, i))), self.sat(self.mkseq(A, z, l), i) == z3.Select(A, i)),
                     patterns=[self.sat(self.mkseq(A, z, l), i)]))
        # reading memory that a sequence was taken from mentions the sequence element
        ax.append(FA([A, o, l, i], Im(And(inr(i, l), rng(z3.Select(A, self.ixf(o, i)))), self.sat(self.mkseq(A, o, l), i) == z3.Select(A, self.ixf(o, i))),
                     patterns=[z3.MultiPattern(self.mkseq(A, o, l), z3.Select(A, self.ixf(o, i)))]))
        ax.append(FA([a, i], Im(inr(i, sl(a)), z3.Select(self.arrof(a), i) == self.sat(a, i)),
                     patterns=[z3.Select(self.arrof(a), i)]))
        ax.append(FA([a, b], Im(And(sl(a) == sl(b), Im(inr(self.bdiff(a, b), sl(a)), self.sat(a, self.bdiff(a, b)) == self.sat(b, self.bdiff(a, b)))), a == b),
                     patterns=[self.eqtrig(a, b)]))
        by = z3.Const("by", self.BYTE)
        ax.append(FA([by, l], Im(self.ile(z, l), sl(self.rep(by, l)) == l), patterns=[self.rep(by, l)]))
        ax.append(FA([by, l, i], Im(And(inr(i, l), rng(by)), self.sat(self.rep(by, l), i) == by), patterns=[self.sat(self.rep(by, l), i)]))
        if mode == "int":
            ax.append(FA([a, i], And(self.sat(a, i) >= 0, self.sat(a, i) <= 255), patterns=[self.sat(a, i)]))
        self._lits = {}
        self._boxes = {}
        self._tagn = {}

    # ---- index arithmetic
    def iv(self, n):
        return z3.BitVecVal(n, 64) if self.bv else z3.IntVal(n)

    def iadd(self, a, b):
        if is_num(a) and a.as_long() == 0:
            return b
        if is_num(b) and b.as_long() == 0:
            return a
        if is_num(a) and is_num(b):
            return z3.simplify(a + b)
        return a + b

    def ix(self, o, i):
        """absolute index o+i (kept symbolic so that it can be matched)"""
        if is_num(o) and is_num(i):
            return z3.simplify(o + i)
        if is_num(o) and o.as_long() == 0:
            return i
        if is_num(i) and i.as_long() == 0 and not self.isix(o):
            return self.ixf(o, i)
        if self.isix(o):
            return self.ixf(o.arg(0), z3.simplify(self.iadd(o.arg(1), i)))
        return self.ixf(o, i)

    def isix(self, e):
        return z3.is_app(e) and e.decl().name() == "ix"

    def isub(self, a, b):
        if z3.is_int_value(b) and b.as_long() == 0:
            return a
        if is_num(a) and is_num(b):
            return z3.simplify(a - b)
        if z3.eq(a, b):
            return self.iv(0)
        return a - b

    def ilt(self, a, b):
        return a < b

    def ile(self, a, b):
        return a <= b

    def fresh(self, name, sort):
        self.nfresh += 1
        return z3.Const("%s!%d" % (name, self.nfresh), sort)

    # ---- sorts of types
    def isint(self, T):
        u = T.u()
        return u.k == "basic" and u.name in INTS

    def isfloat(self, T):
        u = T.u()
        return u.k == "basic" and u.name in ("float64", "float32", "untyped float", "complex128", "complex64")

    def isstr(self, T):
        u = T.u()
        return u.k == "basic" and u.name in ("string", "untyped string")

    def isbool(self, T):
        u = T.u()
        return u.k == "basic" and u.name in ("bool", "untyped bool")

    def intinfo(self, T):
        return INTS[T.u().name]

    def is_bvint(self, T):
        w, s = self.intinfo(T)
        return self.bv or (self.mode == "mixed" and w == 8 and not s)

    def intsort(self, T):
        w, s = self.intinfo(T)
        return z3.BitVecSort(w) if self.is_bvint(T) else z3.IntSort()

    def num(self, v, T):
        w, s = self.intinfo(T)
        if self.is_bvint(T):
            return z3.BitVecVal(v, w)
        v &= (1 << w) - 1
        if s and v >= 1 << (w - 1):
            v -= 1 << w
        return z3.IntVal(v)

    def irange(self, e, T):
        """range fact for an Int-represented machine integer (None when exact by sort)"""
        if self.is_bvint(T):
            return None
        w, s = self.intinfo(T)
        if s:
            return z3.And(e >= -(1 << (w - 1)), e < (1 << (w - 1)))
        return z3.And(e >= 0, e < (1 << w))

    def tpsort(self, T):
        s = self.tpsorts.get(T.s)
        if s is None:
            s = z3.DeclareSort("TP_" + T.name)
            self.tpsorts[T.s] = s
        return s

    def comps(self, T):
        """[(suffix, sort, refkind)] ; refkind in None,'r','a'"""
        u = T.u()
        k = u.k
        if k == "basic":
            if self.isint(u):
                return [("", self.intsort(u), None)]
            if self.isstr(u):
                return [("", self.BS, None)]
            if self.isbool(u):
                return [("", z3.BoolSort(), None)]
            if self.isfloat(u):
                return [("", self.F64, None)]
            if u.name in ("Pointer", "unsafe.Pointer", "untyped nil"):
                return [("", self.REF, "r")]
            raise Unsupported("basic type " + u.name)
        if k in ("ptr", "map", "chan"):
            return [("", self.REF, "r")]
        if k == "func":
            return [("", self.REF, None)]
        if k == "iface":
            return [("", self.ANY, "a")]
        if k == "tparam":
            return [("", self.tpsort(u), None)]
        if k == "slice":
            return [(".b", self.REF, "r"), (".o", self.IDX, None), (".l", self.IDX, None), (".c", self.IDX, None)]
        if k == "struct":
            r = []
            for n, t in u.fields:
                for s, so, rk in self.comps(t):
                    r.append(("." + n + s, so, rk))
            return r
        if k == "array":
            return [(".e" + s, z3.ArraySort(self.IDX, so), ("A" + rk) if rk else None) for s, so, rk in self.comps(u.e)]
        if k == "other":
            return [("", self.REF, "r")]
        raise Unsupported("type " + T.s)

    def flat(self, v, T, eng=None):
        """python value -> list of z3 comps"""
        u = T.u()
        k = u.k
        if k == "slice":
            return [v.b, v.o, v.l, v.c]
        if k == "struct":
            r = []
            for n, t in u.fields:
                r += self.flat(v.f[n], t, eng)
            return r
        if k == "array":
            return [v.a[s] for s, _, _ in self.comps(u.e)]
        if k == "func":
            if isinstance(v, Closure):
                return [eng.cloid(v)]
            return [v]
        if isinstance(v, Loc):
            if eng is not None:
                return [eng.locref(v)]
            raise Unsupported("interior pointer escapes: " + T.s)
        if isinstance(v, (IterV, TupleV)):
            raise Unsupported("flatten " + T.s)
        return [v]

    def unflat(self, cs, T, eng=None):
        cs = list(cs)
        v = self._unflat(cs, T, eng)
        return v

    def _unflat(self, cs, T, eng):
        u = T.u()
        k = u.k
        if k == "slice":
            b, o, l, c = cs.pop(0), cs.pop(0), cs.pop(0), cs.pop(0)
            return SliceV(b, o, l, c)
        if k == "struct":
            return StructV(T, {n: self._unflat(cs, t, eng) for n, t in u.fields})
        if k == "array":
            return ArrayV(T, {s: cs.pop(0) for s, _, _ in self.comps(u.e)})
        if k == "func" and eng is not None:
            return eng.unclo(cs.pop(0))
        return cs.pop(0)

    def zerocomp(self, T):
        u = T.u()
        k = u.k
        if k == "basic":
            if self.isint(u):
                return [self.num(0, u)]
            if self.isstr(u):
                return [self.snil]
            if self.isbool(u):
                return [z3.BoolVal(False)]
            if self.isfloat(u):
                return [z3.Const("f64zero", self.F64)]
            return [z3.IntVal(0)]
        if k in ("ptr", "map", "chan", "func", "other"):
            return [z3.IntVal(0)]
        if k == "iface":
            return [self.anynil]
        if k == "tparam":
            return [z3.Const("zero_" + u.name, self.tpsort(u))]
        if k == "slice":
            return [z3.IntVal(0), self.iv(0), self.iv(0), self.iv(0)]
        if k == "struct":
            r = []
            for n, t in u.fields:
                r += self.zerocomp(t)
            return r
        if k == "array":
            return [z3.K(self.IDX, z) for z in self.zerocomp(u.e)]
        raise Unsupported("zero " + T.s)

    def zero(self, T, eng=None):
        return self.unflat(self.zerocomp(T), T, eng)

    def lit(self, bs):
        bs = bytes(bs)
        if not bs:
            return self.snil
        c = self._lits.get(bs)
        if c is None:
            c = z3.Const("lit!%d!%s" % (len(self._lits), "".join(chr(x) if 48 <= x < 123 and x not in (92, 94, 96) else "_" for x in bs[:12])), self.BS)
            self._lits[bs] = c
            self.axioms.append(self.slen(c) == self.iv(len(bs)))
            if len(bs) <= 128:
                for i, x in enumerate(bs):
                    self.axioms.append(self.sat(c, self.iv(i)) == self.bytec(x))
        return c

    def bytec(self, x):
        return z3.IntVal(x) if self.mode == "int" else z3.BitVecVal(x, 8)

    # ---- interfaces
    def tagid(self, T):
        n = self._tagn.get(T.s)
        if n is None:
            n = len(self._tagn) + 1
            self._tagn[T.s] = n
            self.types[n] = T
        return n

    def box(self, T):
        """(boxfn, [unboxfns]) for type T, with axioms"""
        b = self._boxes.get(T.s)
        if b is not None:
            return b
        cs = self.comps(T)
        sorts = [c[1] for c in cs]
        if not sorts:
            c0 = z3.Const("box|" + T.s, self.ANY)
            b = (lambda: c0, [])
            self._boxes[T.s] = b
            self.axioms.append(self.tag(c0) == self.tagid(T))
            return b
        bf = z3.Function("box|" + T.s, *(sorts + [self.ANY]))
        ufs = [z3.Function("unbox|" + T.s + "|" + c[0], self.ANY, c[1]) for c in cs]
        self._boxes[T.s] = (bf, ufs)
        xs = [z3.Const("x%d" % i, s) for i, s in enumerate(sorts)]
        a = z3.Const("a", self.ANY)
        ax = self.axioms
        for x, uf in zip(xs, ufs):
            ax.append(z3.ForAll(xs, uf(bf(*xs)) == x, patterns=[bf(*xs)]))
        if T.u().k == "tparam":
            nilable = True
            con = getattr(T.u(), "constraint", "") or ""
            if "Ordered" in con or "|" in con:
                nilable = False
            isT = z3.Function("is|" + T.s, self.ANY, z3.BoolSort())
            ax.append(z3.ForAll([a], z3.Implies(isT(a), z3.And(bf(ufs[0](a)) == a, a != self.anynil)), patterns=[isT(a)]))
            z = self.zerocomp(T)[0]
            if nilable:
                ax.append(z3.ForAll(xs, z3.Implies(bf(*xs) == self.anynil, xs[0] == z), patterns=[bf(*xs)]))
                ax.append(z3.ForAll(xs, z3.Implies(bf(*xs) != self.anynil, isT(bf(*xs))), patterns=[bf(*xs)]))
            else:
                ax.append(z3.ForAll(xs, z3.And(bf(*xs) != self.anynil, isT(bf(*xs))), patterns=[bf(*xs)]))
            self._boxes[T.s] = (bf, ufs, isT)
            con = con.strip()
            if con.startswith("interface{") and con.endswith("}"):
                con = con[10:-1]
            alts = [x.strip() for x in con.split("|")]
            if len(alts) > 1 and all(x.isalnum() for x in alts):
                # the type set is a union of predeclared types: the dynamic type is one of them
                ax.append(z3.ForAll([a], z3.Implies(isT(a), z3.Or(*[self.tag(a) == self.tagid(self.prog.basic({"byte": "uint8", "rune": "int32"}.get(x, x))) for x in alts])), patterns=[isT(a)]))
        else:
            tid = self.tagid(T)
            ax.append(z3.ForAll(xs, self.tag(bf(*xs)) == tid, patterns=[bf(*xs)]))
            ax.append(z3.ForAll([a], z3.Implies(self.tag(a) == tid, bf(*[u(a) for u in ufs]) == a),
                                patterns=[ufs[0](a)]))
            if len(cs) == 1 and cs[0][2] == "r":
                ax.append(z3.ForAll(xs, self.aown(bf(*xs)) == self.own(xs[0]), patterns=[bf(*xs)]))
            elif len(cs) == 1:
                ax.append(z3.ForAll(xs, self.aown(bf(*xs)) == 0, patterns=[bf(*xs)]))
        return self._boxes[T.s]

    def subref(self, name):
        f = self.done.get("sub|" + name)
        if f is None:
            f = z3.Function("sub|" + name, self.REF, self.REF)
            inv = z3.Function("inv|" + name, self.REF, self.REF)
            kind = z3.Function("kind", self.REF, z3.IntSort())
            n = len([k for k in self.done if k.startswith("sub|")]) + 1
            self.done["sub|" + name] = f
            r = z3.Int("r")
            self.axioms.append(z3.ForAll([r], z3.And(f(r) < 0, self.own(f(r)) == self.own(r), inv(f(r)) == r, kind(f(r)) == n),
                                         patterns=[f(r)]))
        return f

    def elemref(self, name):
        f = self.done.get("elt|" + name)
        if f is None:
            f = z3.Function("elt|" + name, self.REF, self.IDX, self.REF)
            i1 = z3.Function("einv1|" + name, self.REF, self.REF)
            i2 = z3.Function("einv2|" + name, self.REF, self.IDX)
            kind = z3.Function("kind", self.REF, z3.IntSort())
            n = 1000 + len([k for k in self.done if k.startswith("elt|")]) + 1
            self.done["elt|" + name] = f
            r = z3.Int("r")
            i = z3.Const("i", self.IDX)
            self.axioms.append(z3.ForAll([r, i], z3.And(f(r, i) < 0, self.own(f(r, i)) == self.own(r), i1(f(r, i)) == r, i2(f(r, i)) == i, kind(f(r, i)) == n),
                                         patterns=[f(r, i)]))
        return f
