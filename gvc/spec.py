"""Contract language: parser and typed evaluator."""
import os
import re
import z3
from .theory import SliceV, StructV, ArrayV, Closure, Loc, TupleV, Unsupported, is_num
from .engine import MOD, Obl, Budget
from . import models as M

TOK = re.compile(r"""\s*(?:
 (?P<num>0x[0-9a-fA-F]+|\d+)
|(?P<str>"(?:\\.|[^"\\])*")
|(?P<chr>'(?:\\.|[^'\\])')
|(?P<id>[A-Za-z_][A-Za-z0-9_]*)
|(?P<op><==>|==>|::|:=|&&|\|\||==|!=|<=|>=|<<|>>|&\^|[-+*/%!<>()\[\]{}.,:?=&|^~])
)""", re.X)


class SpecError(Exception):
    pass


def tokenize(s):
    out = []
    i = 0
    while i < len(s):
        if s[i:].strip() == "":
            break
        m = TOK.match(s, i)
        if not m or m.end() == i:
            raise SpecError("cannot tokenize: " + s[i:i + 30])
        i = m.end()
        for k in ("num", "str", "chr", "id", "op"):
            if m.group(k) is not None:
                out.append((k, m.group(k)))
                break
    out.append(("end", ""))
    return out


class Parser:
    def __init__(self, s):
        self.s = s
        self.t = tokenize(s)
        self.i = 0

    def peek(self, k=0):
        return self.t[min(self.i + k, len(self.t) - 1)]

    def next(self):
        t = self.t[self.i]
        self.i += 1
        return t

    def acc(self, v):
        if self.peek()[1] == v and self.peek()[0] in ("op", "id"):
            self.i += 1
            return True
        return False

    def exp(self, v):
        if not self.acc(v):
            raise SpecError("expected %r near token %d %r in: %s" % (v, self.i, self.peek(), self.s))

    # types ------------------------------------------------------------
    def type(self):
        if self.acc("*"):
            return ("ptr", self.type())
        if self.acc("["):
            if self.acc("]"):
                return ("slice", self.type())
            n = int(self.next()[1], 0)
            self.exp("]")
            return ("array", n, self.type())
        k, v = self.next()
        if k != "id":
            raise SpecError("type expected near %r in %s" % (v, self.s))
        if v == "map":
            self.exp("[")
            a = self.type()
            self.exp("]")
            return ("map", a, self.type())
        if v == "chan":
            return ("chan", self.type())
        name = v
        while self.peek()[1] in (".", "/"):
            name += self.next()[1] + self.next()[1]
        args = []
        if self.peek()[1] == "[" and self.peek(1)[1] != "]":
            self.next()
            while True:
                args.append(self.type())
                if not self.acc(","):
                    break
            self.exp("]")
        return ("name", name, args)

    # expressions -------------------------------------------------------
    def expr(self):
        if self.peek()[1] in ("forall", "exists") and self.peek()[0] == "id":
            q = self.next()[1]
            vs = []
            while True:
                names = [self.next()[1]]
                while self.acc(","):
                    names.append(self.next()[1])
                t = self.type()
                vs += [(n, t) for n in names]
                if not self.acc(","):
                    break
            pats = []
            while self.acc("{"):
                p = [self.expr()]
                while self.acc(","):
                    p.append(self.expr())
                self.exp("}")
                pats.append(p)
            self.exp("::")
            return (q, vs, pats, self.expr())
        if self.peek() == ("id", "let"):
            self.next()
            n = self.next()[1]
            self.exp("=")
            a = self.expr()
            self.exp("in")
            return ("let", n, a, self.expr())
        if self.peek() == ("id", "if"):
            self.next()
            c = self.expr()
            self.exp("then")
            a = self.expr()
            self.exp("else")
            return ("ite", c, a, self.expr())
        return self.iff()

    def iff(self):
        a = self.imp()
        while self.acc("<==>"):
            a = ("iff", a, self.imp())
        return a

    def imp(self):
        a = self.orr()
        if self.acc("==>"):
            return ("imp", a, self.expr_or_imp())
        return a

    def expr_or_imp(self):
        if self.peek()[1] in ("forall", "exists", "let", "if") and self.peek()[0] == "id":
            return self.expr()
        return self.imp()

    def orr(self):
        a = self.andd()
        while self.acc("||"):
            a = ("or", a, self.andd())
        return a

    def andd(self):
        a = self.nott()
        while self.acc("&&"):
            b = self.expr() if self.peek()[1] in ("forall", "exists", "let", "if") and self.peek()[0] == "id" else self.nott()
            a = ("and", a, b)
        return a

    def nott(self):
        if self.acc("!"):
            return ("not", self.nott())
        return self.cmp()

    def cmp(self):
        a = self.add()
        while self.peek()[1] in ("==", "!=", "<", "<=", ">", ">=") and self.peek()[0] == "op":
            o = self.next()[1]
            b = self.add()
            n = ("cmp", o, a, b)
            # chained comparison a <= b < c
            if self.peek()[1] in ("<", "<=", ">", ">=", "==") and self.peek()[0] == "op":
                o2 = self.next()[1]
                c = self.add()
                return ("and", n, ("cmp", o2, b, c))
            return n
        return a

    def add(self):
        a = self.mul()
        while self.peek()[1] in ("+", "-", "|", "^") and self.peek()[0] == "op":
            o = self.next()[1]
            a = ("bin", o, a, self.mul())
        return a

    def mul(self):
        a = self.unary()
        while self.peek()[1] in ("*", "/", "%", "<<", ">>", "&", "&^") and self.peek()[0] == "op":
            o = self.next()[1]
            a = ("bin", o, a, self.unary())
        return a

    def unary(self):
        if self.acc("-"):
            return ("neg", self.unary())
        if self.acc("&"):
            return ("addr", self.unary())
        if self.acc("*"):
            return ("deref", self.unary())
        if self.acc("!"):
            return ("not", self.unary())
        return self.postfix()

    def postfix(self):
        a = self.primary()
        while True:
            if self.peek()[1] == "." and self.peek()[0] == "op":
                self.next()
                if self.acc("("):
                    t = self.type()
                    self.exp(")")
                    a = ("assert", a, t)
                else:
                    a = ("field", a, self.next()[1])
            elif self.peek() == ("op", "["):
                self.next()
                if self.acc(":"):
                    h = None if self.peek()[1] == "]" else self.expr()
                    self.exp("]")
                    a = ("slice", a, None, h)
                    continue
                i = self.expr()
                if self.acc(":"):
                    h = None if self.peek()[1] == "]" else self.expr()
                    self.exp("]")
                    a = ("slice", a, i, h)
                else:
                    self.exp("]")
                    a = ("index", a, i)
            elif self.peek() == ("op", "(") and a[0] == "id":
                self.next()
                args = []
                if a[1] in TYPEARG:
                    if a[1] in ("istype", "makes"):
                        args.append(self.expr())
                        self.exp(",")
                    args.append(("type", self.type()))
                    if a[1] == "as":
                        self.exp(",")
                        args.append(self.expr())
                    self.exp(")")
                else:
                    if not self.acc(")"):
                        while True:
                            args.append(self.expr())
                            if not self.acc(","):
                                break
                        self.exp(")")
                a = ("call", a[1], args)
            else:
                return a

    def primary(self):
        k, v = self.next()
        if k == "num":
            return ("num", int(v, 0))
        if k == "str":
            return ("str", eval("b" + v))
        if k == "chr":
            return ("num", ord(eval(v)))
        if k == "id":
            return ("id", v)
        if v == "(":
            e = self.expr()
            self.exp(")")
            return e
        raise SpecError("unexpected %r in %s" % (v, self.s))


TYPEARG = {"istype", "makes", "zero", "as", "tagof", "maxof", "minof"}
NATIVES = {}


def native(name):
    def dec(f):
        NATIVES[name] = f
        return f
    return dec


class Addr:
    """an addressable struct or array object"""
    __slots__ = ("a",)

    def __init__(self, a):
        self.a = a


class Lit:
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n


class TypeEnv:
    def __init__(self, prog, tparams=None, base=None):
        self.prog = prog
        self.tp = tparams or {}

    def res(self, t):
        p = self.prog
        k = t[0]
        if k == "ptr":
            return p.ptr(self.res(t[1]))
        if k == "slice":
            return p.slice(self.res(t[1]))
        if k == "array":
            return p.array(self.res(t[2]), t[1])
        if k == "map":
            return p.map(self.res(t[1]), self.res(t[2]))
        if k == "chan":
            return p.chan(self.res(t[1]))
        n, args = t[1], [self.res(a) for a in t[2]]
        if n in self.tp:
            return self.tp[n]
        if n in ("any", "ANY"):
            return p.iface()
        if n == "error":
            for nm in p.byname:
                if nm == "error":
                    return p.named("error")
            return p.iface("iface{Error}", ["Error"])
        if n == "bytes":
            return p.basic("string")
        if n == "byte":
            return p.basic("uint8")
        if n in ("int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "uintptr", "string", "bool", "float64", "float32"):
            return p.basic(n)
        if "." in n:
            for full in (MOD + "/" + n, n):
                if full in p.byname:
                    return p.named(full, tuple(args))
            # last path element
            for full in p.byname:
                if full.endswith("/" + n):
                    return p.named(full, tuple(args))
        raise SpecError("unknown type " + n)


class Ev:
    """evaluate a contract expression"""

    def __init__(self, E, tenv, st, pre, vars, macros, goal):
        self.E, self.tenv, self.st, self.pre, self.vars, self.macros, self.goal = E, tenv, st, pre, vars, macros, goal
        self.bound = 0
        self.transparent = False
        self.snaps = {}
        self.iter = None
        self.depth = 0

    def at(self, st, f):
        s = self.st
        self.st = st
        try:
            return f()
        finally:
            self.st = s

    def bool(self, ast, pol=1):
        v, T = self.ev(ast, pol)
        if not z3.is_expr(v) or not z3.is_bool(v):
            raise SpecError("boolean expected: %r" % (ast,))
        return v

    def load(self, v, T):
        if isinstance(v, Addr):
            h, self.E.accesshook = self.E.accesshook, None
            try:
                return self.E.load(self.work(), T, v.a), T
            finally:
                self.E.accesshook = h
        return v, T

    def work(self):
        """state used for reads; a scratch copy below a quantifier"""
        if self.bound:
            return self.st.copy()
        return self.st

    def val(self, ast, pol=0):
        v, T = self.ev(ast, pol)
        return self.load(v, T)

    def num(self, v, T, want):
        """coerce literal"""
        if isinstance(v, Lit):
            return self.E.th.num(v.n, want) if (self.E.th.is_bvint(want)) else z3.IntVal(v.n)
        return v

    def pair(self, a, b):
        (x, xT), (y, yT) = a, b
        I = self.E.prog.basic("int")
        if isinstance(x, Lit) and isinstance(y, Lit):
            return (self.num(x, None, I), I), (self.num(y, None, I), I)
        if isinstance(x, Lit):
            if yT is not None and self.E.th.isfloat(yT):
                return (self.E.fconst(x.n), yT), b
            return (self.num(x, None, yT if self.E.th.isint(yT) else I), yT), b
        if isinstance(y, Lit):
            if xT is not None and self.E.th.isfloat(xT):
                return a, (self.E.fconst(y.n), xT)
            return a, (self.num(y, None, xT if self.E.th.isint(xT) else I), xT)
        return a, b

    def globname(self, n):
        n = n.decode() if isinstance(n, bytes) else n
        return n if n in self.E.prog.globals else MOD + "/" + n

    def idxval(self, a):
        v, T = a
        if isinstance(v, Lit):
            return self.E.th.iv(v.n)
        return self.E.idx(self.st, v, T)

    def ev(self, ast, pol=0):
        E, th, k = self.E, self.E.th, ast[0]
        B = E.prog.basic("bool")
        I = E.prog.basic("int")
        if k == "num":
            return Lit(ast[1]), None
        if k == "str":
            return th.lit(ast[1]), E.prog.basic("string")
        if k == "id":
            n = ast[1]
            if n in self.vars:
                return self.vars[n]
            if n == "true" or n == "false":
                return z3.BoolVal(n == "true"), B
            if n == "nil":
                return "nil", None
            if n in self.macros and not self.macros[n][0]:
                return self.macro(n, [], pol)
            raise SpecError("unknown identifier " + n)
        if k == "and":
            return z3.And(self.bool(ast[1], pol), self.bool(ast[2], pol)), B
        if k == "or":
            return z3.Or(self.bool(ast[1], pol), self.bool(ast[2], pol)), B
        if k == "imp":
            return z3.Implies(self.bool(ast[1], -pol), self.bool(ast[2], pol)), B
        if k == "iff":
            if pol == 0:
                return self.bool(ast[1], 0) == self.bool(ast[2], 0), B
            return z3.And(z3.Implies(self.bool(ast[1], -pol), self.bool(ast[2], pol)), z3.Implies(self.bool(ast[2], -pol), self.bool(ast[1], pol))), B
        if k == "not":
            return z3.Not(self.bool(ast[1], -pol)), B
        if k == "ite":
            c = self.bool(ast[1], 0)
            a, b = self.val(ast[2], pol), self.val(ast[3], pol)
            a, b = self.pair(a, b)
            T = a[1]
            if T is None:
                T = b[1]
            fa, fb = th.flat(a[0], T, E), th.flat(b[0], T, E)
            return th.unflat([z3.If(c, x, y) for x, y in zip(fa, fb)], T, E), T
        if k == "let":
            v = self.ev(ast[2], 0)
            old = self.vars.get(ast[1])
            self.vars[ast[1]] = v
            try:
                return self.ev(ast[3], pol)
            finally:
                if old is None:
                    del self.vars[ast[1]]
                else:
                    self.vars[ast[1]] = old
        if k in ("forall", "exists"):
            return self.quant(ast, pol)
        if k == "cmp":
            return self.cmp(ast, pol), B
        if k == "bin":
            return self.bin(ast)
        if k == "neg":
            v, T = self.val(ast[1])
            if isinstance(v, Lit):
                return Lit(-v.n), None
            return -v, T
        if k == "addr":
            v, T = self.ev(ast[1])
            if isinstance(v, Addr):
                return v.a, E.prog.ptr(T)
            raise SpecError("cannot take address")
        if k == "deref":
            v, T = self.val(ast[1])
            eT = T.u().e
            if eT.u().k in ("struct", "array"):
                return Addr(v), eT
            return self.load(Addr(v), eT)
        if k == "field":
            return self.field(self.ev(ast[1]), ast[2])
        if k == "assert":
            v, T = self.val(ast[1])
            wT = self.tenv.res(ast[2])
            return E.unbox(self.st, v, wT), wT
        if k == "index":
            return self.index(ast)
        if k == "slice":
            return self.slice(ast)
        if k == "call":
            return self.call(ast, pol)
        raise SpecError("bad expression " + k)

    def field(self, b, name):
        E = self.E
        v, T = b
        if isinstance(v, TupleV):
            raise SpecError("field of tuple")
        if isinstance(v, StructV):
            n = self.fieldname(T, name)
            return v.f[n], dict(T.u().fields)[n]
        if isinstance(v, Addr):
            sT, ref = T, v.a
        elif T.u().k == "ptr":
            sT, ref = T.u().e, v
        else:
            raise SpecError("field %s of %s" % (name, T))
        if isinstance(ref, Loc):
            raise SpecError("field of interior pointer")
        n = self.fieldname(sT, name)
        i = [f for f, _ in sT.u().fields].index(n)
        a, ft = E.field_addr(self.st, ref, sT, i)
        if ft.u().k in ("struct", "array"):
            return Addr(a), ft
        return self.load(Addr(a), ft)

    def fieldname(self, T, name):
        fs = [f for f, _ in T.u().fields]
        if name in fs:
            return name
        b = E_BASE.get(T.name)
        if b:
            names = [x[0] for x in b]
            if name in names:
                i = names.index(name)
                if i < len(fs) and fs[i] not in names and len(fs) == len(names):
                    return fs[i]
                # same type, the only field not in the baseline
                cand = [f for f, t in T.u().fields if f not in names and t.s.split("[")[0] == b[i][1].split("[")[0]]
                if len(cand) == 1:
                    return cand[0]
        raise SpecError("type %s has no field %s" % (T.s, name))

    def index(self, ast):
        E, th = self.E, self.E.th
        v, T = self.ev(ast[1])
        u = T.u()
        if u.k == "ptr" and u.e.u().k == "array" and not isinstance(v, Addr):
            v, T, u = Addr(v), u.e, u.e.u()
        if isinstance(v, Addr) and u.k == "array":
            i = self.idxval(self.val(ast[2]))
            a = E.elem_addr(v.a, i, u.e)
            if u.e.u().k in ("struct", "array"):
                return Addr(a), u.e
            return self.load(Addr(a), u.e)
        v, T = self.load(v, T)
        if u.k == "map":
            key = self.val(ast[2])
            kk = self.mapkey(T, key)
            st = self.work()
            r = E.mapval(st, T, v, kk)
            return r, u.e
        i = self.idxval(self.val(ast[2]))
        if u.k == "slice":
            a = E.elem_addr(v.b, th.ix(v.o, i), u.e)
            if u.e.u().k in ("struct", "array"):
                return Addr(a), u.e
            return self.load(Addr(a), u.e)
        if u.k == "array":
            return th.unflat([E.sel(v.a[c[0]], i) for c in th.comps(u.e)], u.e, E), u.e
        if th.isstr(T):
            return th.sat(v, i), E.prog.basic("uint8")
        raise SpecError("index of " + T.s)

    def mapkey(self, mT, key):
        E = self.E
        kT = mT.u().key
        v, T = key
        if isinstance(v, Lit):
            v = E.th.num(v.n, kT)
        elif kT.u().k == "iface" and T.u().k != "iface":
            v = E.mkiface(T, v)
        return E.mapkey(mT, v)

    def slice(self, ast):
        th = self.E.th
        v, T = self.val(ast[1])
        lo = th.iv(0) if ast[2] is None else self.idxval(self.val(ast[2]))
        if self.E.th.isstr(T):
            hi = th.slen(v) if ast[3] is None else self.idxval(self.val(ast[3]))
            return th.sub(v, lo, hi), T
        hi = v.l if ast[3] is None else self.idxval(self.val(ast[3]))
        return SliceV(v.b, th.ix(v.o, lo) if not (is_num(lo) and lo.as_long() == 0) else v.o, th.isub(hi, lo), th.isub(v.c, lo)), T

    def bin(self, ast):
        E, th = self.E, self.E.th
        o = ast[1]
        a, b = self.val(ast[2]), self.val(ast[3])
        if isinstance(a[0], Lit) and isinstance(b[0], Lit):
            x, y = a[0].n, b[0].n
            return Lit({"+": x + y, "-": x - y, "*": x * y, "/": x // y if y else 0, "%": x % y if y else 0, "<<": x << y if 0 <= y < 5000 else 0,
                        ">>": x >> y if 0 <= y < 5000 else 0, "&": x & y, "|": x | y, "^": x ^ y, "&^": x & ~y}[o]), None
        (x, xT), (y, yT) = self.pair(a, b)
        T = xT
        if th.isstr(T) and o == "+":
            return th.concat(x, y), T
        if z3.is_bv(x):
            w, sg = th.intinfo(T)
            r = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "&": lambda: x & y, "|": lambda: x | y,
                 "^": lambda: x ^ y, "&^": lambda: x & ~y, "<<": lambda: x << y, ">>": lambda: (x >> y) if sg else z3.LShR(x, y),
                 "/": lambda: (x / y) if sg else z3.UDiv(x, y), "%": lambda: z3.SRem(x, y) if sg else z3.URem(x, y)}[o]()
            return r, T
        if o == "<<" and is_num(y):
            return x * (1 << y.as_long()), T
        if o == ">>" and is_num(y):
            return x / (1 << y.as_long()), T
        r = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "/": lambda: x / y, "%": lambda: x % y}[o]()
        return r, E.prog.basic("int") if not th.bv else T

    def cmp(self, ast, pol):
        E, th = self.E, self.E.th
        o = ast[1]
        a, b = self.ev(ast[2]), self.ev(ast[3])
        if isinstance(a[0], str) or isinstance(b[0], str):
            x, xT = a if not isinstance(a[0], str) else b
            if isinstance(x, Addr):
                raise SpecError("struct compared with nil")
            u = xT.u()
            if u.k == "slice":
                e = x.b == 0
            elif u.k == "iface":
                e = x == th.anynil
            elif isinstance(x, (Loc, Closure)):
                e = z3.BoolVal(False)
            else:
                e = x == 0
            return e if o == "==" else z3.Not(e)
        a, b = self.load(*a), self.load(*b)
        (x, xT), (y, yT) = self.pair(a, b)
        if o in ("==", "!="):
            if xT.u().k == "iface" and yT.u().k != "iface":
                y, yT = E.mkiface(yT, y), xT
            elif yT.u().k == "iface" and xT.u().k != "iface":
                x, xT = E.mkiface(xT, x), yT
            p = pol if o == "==" else -pol
            e = self.eq(x, y, xT, p)
            return e if o == "==" else z3.Not(e)
        if z3.is_bv(x):
            w, sg = th.intinfo(xT)
            if not sg:
                return {"<": z3.ULT, "<=": z3.ULE, ">": z3.UGT, ">=": z3.UGE}[o](x, y)
        if z3.is_bv(x) or z3.is_int(x):
            return {"<": lambda: x < y, "<=": lambda: x <= y, ">": lambda: x > y, ">=": lambda: x >= y}[o]()
        return E.cmp(self.work(), o, x, y, xT)

    def eq(self, x, y, T, pol):
        E, th = self.E, self.E.th
        if th.isstr(T):
            if z3.eq(x, y):
                return z3.BoolVal(True)
            if not self.bound:
                self.st.assume(th.eqtrig(x, y))
                return x == y
            if pol > 0 and self.goal or pol < 0 and not self.goal:
                return z3.Implies(th.eqtrig(x, y), x == y) if pol > 0 else x == y
            return x == y
        if th.isfloat(T):
            return x == y
        if T.u().k == "slice":
            return z3.And(x.b == y.b, x.o == y.o, x.l == y.l)
        if T.u().k == "array":
            return E.equal(self.work(), x, y, T)
        if T.u().k == "struct":
            return z3.And(*[self.eq(x.f[n], y.f[n], t, pol) for n, t in T.u().fields])
        if isinstance(x, Loc) or isinstance(y, Loc) or isinstance(x, Closure) or isinstance(y, Closure):
            return E.equal(self.work(), x, y, T)
        if z3.is_expr(x) and z3.is_expr(y) and x.sort() != y.sort():
            raise SpecError("comparison of %s and %s" % (x.sort(), y.sort()))
        return x == y

    def quant(self, ast, pol):
        q, vs, pats, body = ast
        E, th = self.E, self.E.th
        saved = dict(self.vars)
        consts, guards = [], []
        for n, t in vs:
            T = self.tenv.res(t)
            cs = th.comps(T)
            if len(cs) != 1:
                raise SpecError("quantified variable of type " + T.s)
            # stable names: the same formula in the same state is the same term
            c = z3.Const("q_%s_%d_%d" % (n, self.bound, len(consts)), cs[0][1])
            consts.append(c)
            self.vars[n] = (c, T)
            if th.isint(T) and not th.is_bvint(T) and T.u().name != "int":
                guards.append(th.irange(c, T))
        self.bound += 1
        try:
            b = self.bool(body, pol)
            ps = []
            for p in pats:
                terms = [self.pterm(x) for x in p]
                ps.append(terms)
        finally:
            self.bound -= 1
            self.vars = saved
        g = z3.And(*guards) if guards else None
        if q == "forall":
            return z3.ForAll(consts, z3.Implies(g, b) if g is not None else b, patterns=self.okpats(ps, consts)), E.prog.basic("bool")
        return z3.Exists(consts, z3.And(g, b) if g is not None else b, patterns=self.okpats(ps, consts)), E.prog.basic("bool")

    def okpats(self, ps, consts):
        ids = {c.get_id() for c in consts}
        out = []
        for p in ps:
            terms = p if isinstance(p, list) else [p]
            seen = set()
            good = True
            for t in terms:
                stk = [t]
                if not (z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT)) or z3.is_const(t):
                    good = False
                while stk:
                    x = stk.pop()
                    if x.get_id() in ids:
                        seen.add(x.get_id())
                    if z3.is_quantifier(x):
                        good = False
                        continue
                    k = x.decl().kind()
                    if k in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ, z3.Z3_OP_TRUE, z3.Z3_OP_FALSE, z3.Z3_OP_IMPLIES):
                        good = False
                    stk.extend(x.children())
            if good and seen == ids:
                out.append(z3.MultiPattern(*terms) if len(terms) > 1 else terms[0])
        return out

    def pterm(self, ast):
        v, T = self.ev(ast, 0)
        if isinstance(v, Addr):
            return v.a
        return self.E.th.flat(v, T, self.E)[0] if not z3.is_expr(v) else v

    def macro(self, n, args, pol):
        params, body = self.macros[n]
        if len(params) != len(args):
            raise SpecError("macro %s takes %d arguments" % (n, len(params)))
        self.depth += 1
        if self.depth > 30:
            raise SpecError("macro recursion " + n)
        saved = self.vars
        self.vars = dict(saved)
        for p, a in zip(params, args):
            self.vars[p] = a
        try:
            return self.ev(body, pol)
        finally:
            self.vars = saved
            self.depth -= 1

    def ufargs(self, args, ts):
        xs = []
        for a, T in zip(args, ts):
            v, vT = self.val(a)
            if isinstance(v, Lit):
                v = self.E.th.num(v.n, T)
            elif isinstance(v, SliceV):
                v = self.E.bsof(self.st, v)
            elif T is None:
                pass
            elif T.u().k == "iface" and vT.u().k != "iface":
                v = self.E.mkiface(vT, v)
            xs.append(v)
        if len(args) != len(ts):
            raise SpecError("wrong number of arguments")
        return xs

    def call(self, ast, pol):
        E, th = self.E, self.E.th
        n, args = ast[1], ast[2]
        I, B = E.prog.basic("int"), E.prog.basic("bool")
        if n == "old":
            return self.at(self.pre, lambda: self.load(*self.ev(args[0], pol)))
        if n == "at":
            return self.at(self.snaps[args[0][1]], lambda: self.load(*self.ev(args[1], pol)))
        if n == "atop":
            # atop("kind", i, e): e in the state in which the i-th recorded operation of that kind ran
            es = evs_since(self.st, (args[0][1].decode() if not isinstance(args[0][1], str) else args[0][1],))
            i = int(args[1][1])
            if i >= len(es):
                v, T = self.load(*self.ev(args[2], pol))
                return E.fresh_value(self.st, T, "noop"), T
            s = es[i][3].copy()
            k = len(s.pc)
            r = self.at(s, lambda: self.load(*self.ev(args[2], pol)))
            for c in s.pc[k:]:
                self.st.assume(c)
            return r
        if n == "istype":
            v, T = self.val(args[0])
            return E.istype(v, self.tenv.res(args[1][1])), B
        if n == "makes":
            from .models2 import makes
            v, T = self.val(args[0])
            return makes(E, self.work() if not self.bound else self.st.copy(), v, self.tenv.res(args[1][1])), B
        if n == "zero":
            T = self.tenv.res(args[0][1])
            return th.zero(T, E), T
        if n == "maxof" or n == "minof":
            T = self.tenv.res(args[0][1])
            w, s = th.intinfo(T)
            return Lit(((1 << (w - 1)) - 1 if s else (1 << w) - 1) if n == "maxof" else (-(1 << (w - 1)) if s else 0)), None
        if n == "as":
            # numeric conversion with Go semantics
            T = self.tenv.res(args[0][1])
            v, fT = self.val(args[1])
            if isinstance(v, Lit):
                return th.num(v.n, T), T
            if th.isint(T) and th.isint(fT):
                return E.conv_int(self.work(), v, fT, T), T
            raise SpecError("conversion")
        if n == "wrap":
            T = self.tenv.res(("name", args[0][1], []) if args[0][0] == "id" else args[0])
            v, fT = self.val(args[1])
            return (v if th.bv else E.wrap(self.work(), v, T)), T
        if n in self.macros and (self.transparent or n not in getattr(E, "opaqs", ())):
            return self.macro(n, [self.ev(a, 0) for a in args], pol)
        if n in getattr(E, "specufs", {}):
            f, ts, rt = E.specufs[n]
            return f(*self.ufargs(args, ts)), rt
        if n == "lib":
            from .models2 import libfn
            from .models2 import GLOBERRS, globerr
            nm = args[0][1] if isinstance(args[0][1], str) else args[0][1].decode()
            if nm in GLOBERRS:
                return globerr(E, nm), E.prog.iface()
            f, ts, rt = libfn(E, args[0][1] if isinstance(args[0][1], str) else args[0][1].decode())
            r = f(*self.ufargs(args[1:], ts))
            return r, rt
        if n == "len":
            v, T = self.ev(args[0])
            if isinstance(v, Addr) and T.u().k == "array":
                return th.iv(T.u().n), I
            v, T = self.load(v, T)
            u = T.u()
            if u.k == "slice":
                return v.l, I
            if u.k == "map":
                st = self.work()
                E.mapfacts(st, T, v)
                return E.mapcard(st, T, v), I
            if u.k == "array":
                return th.iv(u.n), I
            return th.slen(v), I
        if n == "cap":
            v, T = self.val(args[0])
            if T.u().k == "chan":
                return E.gget(self.work(), "chan", "cap", v), I
            return v.c, I
        if n == "has":
            m, T = self.val(args[0])
            kk = self.mapkey(T, self.val(args[1]))
            hn = "MD|" + T.u().s
            h = self.st.heap.get(hn)
            if E.appendboth and h is not None and z3.is_store(h):
                # name the array so that it can stand in a pattern
                c = th.fresh("al_md", h.sort())
                self.st.assume(c == h)
                self.st.heap[hn] = c
            return E.sel(E.mapdom(self.work(), T, m), kk), B
        if n == "bytes":
            v, T = self.val(args[0])
            if th.isstr(T):
                return v, T
            pT = T.u().e if T.u().k == "ptr" else T
            if getattr(pT, "name", None) and (pT.name, "data") in GHOSTS_():
                return (v.f["data"] if isinstance(v, StructV) else E.gget(self.st, pT.name, "data", v.a if isinstance(v, Addr) else v)), E.prog.basic("string")
            if T.u().k == "array":
                A = v.a[""]
                return th.mkseq(A, th.iv(0), th.iv(T.u().n)), E.prog.basic("string")
            return E.bsof(self.st, v), E.prog.basic("string")
        if n == "rep":
            v, T = self.val(args[0])
            c = th.bytec(v.n) if isinstance(v, Lit) else v
            return th.rep(c, self.idxval(self.val(args[1]))), E.prog.basic("string")
        if n == "box":
            v, T = self.val(args[0])
            return E.mkiface(T, v), E.prog.iface()
        if n == "fresh":
            v, T = self.val(args[0])
            r = v.b if isinstance(v, SliceV) else v
            return th.own(r) >= self.pre.next, B
        if n == "allocated":
            v, T = self.val(args[0])
            r = v.b if isinstance(v, SliceV) else v
            return z3.And(th.own(r) > 0, th.own(r) < self.st.next), B
        if n == "own":
            v, T = self.val(args[0])
            return th.own(v.b if isinstance(v, SliceV) else v), I
        if n == "ref":
            v, T = self.ev(args[0])
            if isinstance(v, Addr):
                return v.a, I
            return (v.b if isinstance(v, SliceV) else v), I
        if n == "arr":
            return self.val(args[0])[0].b, I
        if n == "off":
            v, T = self.val(args[0])
            return v.o, I
        if n == "sumof":
            return sumof(self, args), I
        if n == "delta":
            return delta_of(self, args[0])
        if n == "claimed":
            return claimed_of(self, args[0])
        if n == "global":
            gn = self.globname(args[0][1])
            gT = E.prog.resolve(E.prog.globals[gn]).u().e
            return E.load_global(self.work() if not self.bound else self.st.copy(), E.globref(gn), gT, None), gT
        if n == "initonly":
            return z3.BoolVal(initonly(E.prog, self.globname(args[0][1]))), B
        if n == "nlockops":
            # nlockops("TryLock", ...): lock operations of these names (a try that failed counts)
            want = [x[1].decode() for x in args]
            return z3.IntVal(len([e for e in evs_since(self.st, ("lock", "tryfail")) if e[2] in want])), I
        if n == "nevents":
            return z3.IntVal(len(evs_since(self.st, (args[0][1].decode(),)))), I
        if n in NATIVES:
            return NATIVES[n](self, [self.ev(a, 0) for a in args])
        raise SpecError("unknown function " + n)


E_BASE = {}


def anyv(ev, a):
    v, T = ev.load(*a)
    if isinstance(v, Lit):
        raise SpecError("literal as interface")
    return ev.E.mkiface(T, v)


def refv(ev, a):
    v, T = a
    if isinstance(v, Addr):
        return v.a
    return v


# ---- ghost views of library objects
@native("lst")
def n_lst(ev, a):
    return z3.Select(M.alias(ev.E, ev.st, M.ET, "lst"), refv(ev, a[0])), ev.E.prog.basic("int")


@native("rank")
def n_rank(ev, a):
    return z3.Select(M.alias(ev.E, ev.st, M.ET, "rank"), refv(ev, a[0])), ev.E.prog.basic("int")


@native("stale")
def n_stale(ev, a):
    return z3.Select(M.alias(ev.E, ev.st, M.ET, "stale"), refv(ev, a[0])), ev.E.prog.basic("bool")


@native("inlist")
def n_inlist(ev, a):
    return z3.Select(M.alias(ev.E, ev.st, M.ET, "lst"), refv(ev, a[0])) == refv(ev, a[1]), ev.E.prog.basic("bool")


@native("llen")
def n_llen(ev, a):
    l = refv(ev, a[0])
    if not ev.bound:
        M.listfacts(ev.E, ev.st, l)
    return ev.E.gget(ev.st, M.LT, "len", l), ev.E.prog.basic("int")


@native("front")
def n_front(ev, a):
    E = ev.E
    return M.extreme(E, ev.st, refv(ev, a[0]), True), E.prog.ptr(E.prog.named(M.ET))


@native("back")
def n_back(ev, a):
    E = ev.E
    return M.extreme(E, ev.st, refv(ev, a[0]), False), E.prog.ptr(E.prog.named(M.ET))


@native("smhas")
def n_smhas(ev, a):
    return ev.E.sel(ev.E.gget(ev.st, "sync.Map", "dom", refv(ev, a[0])), anyv(ev, a[1])), ev.E.prog.basic("bool")


@native("seedid")
def n_seedid(ev, a):
    v, T = ev.load(*a[0])
    return v.f["id"], ev.E.prog.basic("int")


@native("initems")
def n_initems(ev, a):
    from .models4 import BT
    return ev.E.sel(ev.E.gget(ev.st, BT, "items", refv(ev, a[0])), anyv(ev, a[1])), ev.E.prog.basic("bool")


@native("smval")
def n_smval(ev, a):
    return ev.E.sel(ev.E.gget(ev.st, "sync.Map", "val", refv(ev, a[0])), anyv(ev, a[1])), ev.E.prog.iface()


@native("smlen")
def n_smlen(ev, a):
    E = ev.E
    m = refv(ev, a[0])
    if not ev.bound:
        M.smget(E, ev.st, m)
    return E.gget(ev.st, "sync.Map", "card", m), E.prog.basic("int")


@native("held")
def n_held(ev, a):
    """lock state of a mutex: 0 free, 1 write, 2 read"""
    v, T = a[0]
    T = T.u().e if T.u().k == "ptr" else T
    return z3.Select(M.alias(ev.E, ev.st, T.name, "lk"), refv(ev, a[0])), ev.E.prog.basic("int")


@native("ghost_closed")
def n_closed(ev, a):
    v, T = ev.load(*a[0])
    return ev.E.gget(ev.st, "chan", "closed", v), ev.E.prog.basic("bool")


# ---- what the execution did
def evs_since(st, kinds):
    out = []
    for e in st.ev:
        if e[0] == "iter":
            out = []
        elif e[0] in kinds:
            out.append(e)
        elif e[0] == "loop" and e[2] & set(kinds):
            raise SpecError("events inside a loop")
    return out


def cbs(ev, f):
    """calls of function value f on this path (since the start of the current iteration)"""
    out = []
    for e in evs_since(ev.st, ("callback",)):
        if z3.is_expr(e[1]) and z3.is_expr(f) and (z3.eq(e[1], f) or ev.E.implies(ev.st, e[1] == f)):
            out.append(e)
    return out


def litn(a):
    v = a[0]
    return v.n if isinstance(v, Lit) else v.as_long()


@native("ncalls")
def n_ncalls(ev, a):
    f = ev.load(*a[0])[0]
    return count_eq(ev, ("callback",), f), ev.E.prog.basic("int")


def count_eq(ev, kinds, f, cond=None):
    """number of events of these kinds on object f (symbolic where aliasing is unknown)"""
    n = z3.IntVal(0)
    for e in evs_since(ev.st, kinds):
        if cond is not None and not cond(e):
            continue
        if not (z3.is_expr(e[1]) and z3.is_expr(f)):
            continue
        n = n + (1 if z3.eq(e[1], f) else z3.If(e[1] == f, 1, 0))
    return z3.simplify(n)


def chevents(ev, kind, ch):
    return [e for e in evs_since(ev.st, (kind,)) if z3.eq(e[1], ch) or ev.E.implies(ev.st, e[1] == ch)]


def chval(ev, a, kind, pos, isok=False):
    ch, T = ev.load(*a[0])
    es = chevents(ev, kind, ch)
    i = litn(a[1])
    eT = ev.E.prog.basic("bool") if isok else T.u().e
    if i >= len(es):
        return ev.E.fresh_value(ev.st, eT, "noevent"), eT
    return es[i][pos], eT


@native("ranged")
def n_ranged(ev, a):
    """the map range of this loop has visited the key"""
    E, it = ev.E, ev.iter
    v, T = ev.load(*a[0])
    kT = it.mT.u().key
    ks = E.mapksort(it.mT)
    if isinstance(v, Lit):
        v = E.th.num(v.n, kT)
    k = E.mapkey(it.mT, v) if T is None or T.u().k != "iface" or kT.u().k == "iface" else v
    arr = E.hget(ev.st, "IT|" + it.mT.u().s, z3.ArraySort(z3.IntSort(), z3.ArraySort(ks, z3.BoolSort())))
    return z3.Select(E.sel(arr, it.ref), k), E.prog.basic("bool")


@native("nputs")
def n_nputs(ev, a):
    """objects put into this pool"""
    return count_eq(ev, ("poolput",), refv(ev, a[0])), ev.E.prog.basic("int")


@native("ngets")
def n_ngets(ev, a):
    return count_eq(ev, ("poolget",), refv(ev, a[0])), ev.E.prog.basic("int")


def poolval(ev, a, kind):
    es = chevents(ev, kind, refv(ev, a[0]))
    i = litn(a[1])
    T = ev.E.prog.iface()
    return (es[i][2] if i < len(es) else ev.E.fresh_value(ev.st, T, "nopool")), T


@native("putval")
def n_putval(ev, a):
    return poolval(ev, a, "poolput")


@native("getval")
def n_getval(ev, a):
    return poolval(ev, a, "poolget")


@native("nsent")
def n_nsent(ev, a):
    """sends on this channel"""
    return count_eq(ev, ("send",), ev.load(*a[0])[0]), ev.E.prog.basic("int")


@native("nrecv")
def n_nrecv(ev, a):
    return count_eq(ev, ("recv",), ev.load(*a[0])[0]), ev.E.prog.basic("int")


@native("nclosed")
def n_nclosed(ev, a):
    return count_eq(ev, ("close",), ev.load(*a[0])[0]), ev.E.prog.basic("int")


@native("nblocksend")
def n_nblocksend(ev, a):
    """sends outside a select statement"""
    return count_eq(ev, ("send",), ev.load(*a[0])[0], lambda e: e[3]), ev.E.prog.basic("int")


@native("sentval")
def n_sentval(ev, a):
    return chval(ev, a, "send", 2)


@native("recvval")
def n_recvval(ev, a):
    return chval(ev, a, "recv", 2)


@native("recvok")
def n_recvok(ev, a):
    """whether the i-th receive got a value that was sent (false: the channel is closed and drained)"""
    return chval(ev, a, "recv", 3, True)


@native("fired")
def n_fired(ev, a):
    """a timer of this duration was received from"""
    d = ev.num(*ev.load(*a[0]), ev.E.prog.basic("int64")) if isinstance(ev.load(*a[0])[0], Lit) else ev.load(*a[0])[0]
    out = [z3.And(ev.E.gget(ev.st, "chan", "timer", e[1]), ev.E.gget(ev.st, "chan", "dur", e[1]) == d) for e in evs_since(ev.st, ("recv",))]
    return z3.Or(*out) if out else z3.BoolVal(False), ev.E.prog.basic("bool")


@native("anyfired")
def n_anyfired(ev, a):
    out = [ev.E.gget(ev.st, "chan", "timer", e[1]) for e in evs_since(ev.st, ("recv",))]
    return z3.Or(*out) if out else z3.BoolVal(False), ev.E.prog.basic("bool")


@native("owned")
def n_owned(ev, a):
    """the channel is in no table and only this goroutine may send on it or close it"""
    return ev.E.gget(ev.st, "chan", "own", ev.load(*a[0])[0]), ev.E.prog.basic("bool")


@native("ckey")
def n_ckey(ev, a):
    """key under which the channel was entered into its table"""
    return ev.E.gget(ev.st, "chan", "ckey", ev.load(*a[0])[0]), ev.E.prog.iface()


@native("noleak")
def n_noleak(ev, a):
    """every channel this call removed from the table is closed"""
    E = ev.E
    r = z3.Int("chl")
    S = z3.Select
    own, cl = E.garr(ev.st, "chan", "own"), E.garr(ev.st, "chan", "closed")
    refs, b = [], own
    while z3.is_store(b):
        refs.append(b.arg(1))
        b = b.arg(0)
    if z3.is_K(b):
        return z3.And(*[z3.Implies(E.sel(own, x), E.sel(cl, x)) for x in refs]), E.prog.basic("bool")
    return z3.ForAll([r], z3.Implies(S(own, r), S(cl, r))), E.prog.basic("bool")


def chanlist(ev, x):
    return x if isinstance(x, list) else []


@native("nblocked")
def n_nblocked(ev, a):
    """blocking receives and selects"""
    return z3.IntVal(len([e for e in evs_since(ev.st, ("recv",)) if len(e) > 5 and e[5]])), ev.E.prog.basic("int")


@native("offered")
def n_offered(ev, a):
    """every blocking receive or select was also ready to receive from this channel"""
    c = ev.load(*a[0])[0]
    es = [e for e in evs_since(ev.st, ("recv",)) if len(e) > 5 and e[5]]
    return z3.And(*[z3.Or(*[x == c for x in e[5]]) for e in es]), ev.E.prog.basic("bool")


@native("offeredkey")
def n_offeredkey(ev, a):
    """every blocking receive or select was also ready to receive from a channel of this key"""
    k = anyv(ev, a[0])
    es = [e for e in evs_since(ev.st, ("recv",)) if len(e) > 5 and e[5]]
    return z3.And(*[z3.Or(*[ev.E.gget(ev.st, "chan", "ckey", x) == k for x in e[5]]) for e in es]), ev.E.prog.basic("bool")


@native("offeredtimer")
def n_offeredtimer(ev, a):
    """every blocking receive or select was also ready to receive from a timer of this duration"""
    d = ev.load(*a[0])[0]
    es = [e for e in evs_since(ev.st, ("recv",)) if len(e) > 5 and e[5]]
    return z3.And(*[z3.Or(*[z3.And(ev.E.gget(ev.st, "chan", "timer", x), ev.E.gget(ev.st, "chan", "dur", x) == d) for x in e[5]]) for e in es]), ev.E.prog.basic("bool")


@native("gotkey")
def n_gotkey(ev, a):
    """gotkey(k, v): the value v was received from a channel of key k"""
    k, v = anyv(ev, a[0]), ev.load(*a[1])
    out = []
    for e in evs_since(ev.st, ("recv",)):
        try:
            same = z3.And(*[x == y for x, y in zip(ev.E.th.flat(e[2], v[1], ev.E), ev.E.th.flat(v[0], v[1], ev.E))])
        except Exception:
            continue
        out.append(z3.And(ev.E.gget(ev.st, "chan", "ckey", e[1]) == k, e[3], same))
    return z3.Or(*out) if out else z3.BoolVal(False), ev.E.prog.basic("bool")


@native("closedkey")
def n_closedkey(ev, a):
    """a channel of this key was found closed and empty"""
    k = anyv(ev, a[0])
    out = [z3.And(ev.E.gget(ev.st, "chan", "ckey", e[1]) == k, z3.Not(e[3])) for e in evs_since(ev.st, ("recv",))]
    return z3.Or(*out) if out else z3.BoolVal(False), ev.E.prog.basic("bool")


@native("ctxdone")
def n_ctxdone(ev, a):
    """the Done channel of a context"""
    c = ev.load(*a[0])[0]
    f = z3.Function("ctxdone", ev.E.th.ANY, z3.IntSort())
    return f(c), ev.E.prog.chan(ev.E.prog.basic("int"))


@native("nsends")
def n_nsends(ev, a):
    return z3.IntVal(len(evs_since(ev.st, ("send",)))), ev.E.prog.basic("int")


@native("ncloses")
def n_ncloses(ev, a):
    return z3.IntVal(len(evs_since(ev.st, ("close",)))), ev.E.prog.basic("int")


@native("allsent")
def n_allsent(ev, a):
    """allsent(k, v): every send was of v on a channel of key k"""
    k, v = anyv(ev, a[0]), ev.load(*a[1])
    out = []
    for e in evs_since(ev.st, ("send",)):
        out.append(z3.And(ev.E.gget(ev.st, "chan", "ckey", e[1]) == k, *[x == y for x, y in zip(ev.E.th.flat(e[2], v[1], ev.E), ev.E.th.flat(v[0], v[1], ev.E))]))
    return z3.And(*out), ev.E.prog.basic("bool")


@native("allclosed")
def n_allclosed(ev, a):
    """every channel this call closed has this key"""
    k = anyv(ev, a[0])
    return z3.And(*[ev.E.gget(ev.st, "chan", "ckey", e[1]) == k for e in evs_since(ev.st, ("close",))]), ev.E.prog.basic("bool")


@native("wgdone")
def n_wgdone(ev, a):
    """number of Done calls on this wait group"""
    return count_eq(ev, ("wgdone",), refv(ev, ev.load(*a[0]))), ev.E.prog.basic("int")


def sumof(ev, args):
    """sumof(i, n, e): sum of e over 0 <= i < n"""
    E = ev.E
    nm = args[0][1]
    nm = nm.decode() if isinstance(nm, bytes) else nm
    n = ev.num(*ev.load(*ev.ev(args[1], 0)), E.prog.basic("int")) if False else ev.load(*ev.ev(args[1], 0))[0]
    n = E.th.iv(n.n) if isinstance(n, Lit) else n
    I = E.prog.basic("int")
    x = z3.Const("sum_i", E.th.IDX)
    old = ev.vars.get(nm)
    ev.vars[nm] = (x, I)
    ev.bound += 1
    try:
        v = ev.load(*ev.ev(args[2], 0))[0]
    finally:
        ev.bound -= 1
        if old is None:
            del ev.vars[nm]
        else:
            ev.vars[nm] = old
    A = z3.Lambda([x], v)
    f = E.extmemo.get("sumof")
    if f is None:
        f = z3.Function("sumof", z3.ArraySort(E.th.IDX, z3.IntSort()), E.th.IDX, z3.IntSort())
        E.extmemo["sumof"] = f
        B, p, q = z3.Const("sB", z3.ArraySort(E.th.IDX, z3.IntSort())), z3.Const("sp", E.th.IDX), z3.Const("sq", E.th.IDX)
        E.th.axioms.append(z3.ForAll([B], f(B, E.th.iv(0)) == 0, patterns=[f(B, E.th.iv(0))]))
        E.th.axioms.append(z3.ForAll([B, p, q], z3.Implies(z3.And(p >= 0, q == p + 1), f(B, q) == f(B, p) + z3.Select(B, p)), patterns=[z3.MultiPattern(f(B, p), f(B, q))]))
    key = "sumarr|" + v.sexpr()
    c = E.extmemo.get(key)
    if c is None:
        # a name for the summand, so that equal summands give the same term
        c = z3.Const("summand!%d" % len(E.extmemo), z3.ArraySort(E.th.IDX, z3.IntSort()))
        E.extmemo[key] = c
        E.th.axioms.append(z3.ForAll([x], z3.Select(c, x) == v, patterns=[z3.Select(c, x)]))
    return f(c, n)


def delta_of(ev, ast):
    """net amount this call added to a counter field by atomic additions (any other atomic write makes it arbitrary)"""
    o, oT = ev.load(*ev.ev(ast[1], 0))
    tot = z3.IntVal(0)
    I = ev.E.prog.basic("int")
    for e in evs_since(ev.st, ("atomic",)):
        x = e[2]
        if z3.is_expr(x) or x.x != ast[2]:
            continue
        n = e[3] if e[1] == "add" else ev.E.th.fresh("awrite", e[4].sort())
        if not z3.is_int(n) and z3.is_int(tot):
            tot, I = n - n, ev.E.prog.basic("uint64")
        tot = tot + (n if z3.eq(x.ref, o) else z3.If(x.ref == o, n, n - n))
    return tot, I


def claimed_of(ev, ast):
    """value of a counter field right after the only atomic step this call took on it"""
    o, oT = ev.load(*ev.ev(ast[1], 0))
    evs = [e for e in evs_since(ev.st, ("atomic",)) if not z3.is_expr(e[2]) and e[2].x == ast[2] and (z3.eq(e[2].ref, o) or ev.E.implies(ev.st, e[2].ref == o))]
    T = ev.E.prog.basic("uint64")
    return (evs[0][4] if len(evs) == 1 else ev.E.fresh_value(ev.st, T, "unclaimed")), T


def GHOSTS_():
    from .engine import GHOSTS
    return {(tn, g) for tn, gs in GHOSTS.items() for g in gs} if isinstance(GHOSTS, dict) else GHOSTS


def initonly(prog, n):
    """the package-level variable is assigned by its package's initialiser only, and its address is not taken elsewhere"""
    pkg = n.rsplit(".", 1)[0]
    if n not in prog.globals:
        raise SpecError("no package variable " + n)
    for f in prog.funcs.values():
        ini = f.name == pkg + ".init"
        for b in f.blocks:
            for ins in b["instrs"] or []:
                def uses(v):
                    if isinstance(v, dict):
                        return v.get("k") == "global" and v.get("n") == n or any(uses(x) for x in v.values())
                    if isinstance(v, list):
                        return any(uses(x) for x in v)
                    return False
                if uses(ins):
                    if ins["op"] == "UnOp" and ins["o"] == "*":
                        continue
                    if ini and ins["op"] == "Store":
                        continue
                    return False
    return True


@native("pcall")
def n_pcall(ev, a):
    """result of a function value under option purecalls"""
    f, fT = ev.load(*a[0])
    sig = fT.u()
    args = [ev.E.th.num(v.n, T) if isinstance(v, Lit) else v for (v, _), T in zip([ev.load(*x) for x in a[1:]], sig.params)]
    st = ev.work() if not ev.bound else ev.st.copy()
    return ev.E.purecall(st, f, args, sig), sig.results[0]


@native("callarg")
def n_callarg(ev, a):
    c = cbs(ev, ev.load(*a[0])[0])
    i, j = litn(a[1]), litn(a[2])
    T = ev.load(*a[0])[1].u().params[j]
    if i >= len(c):
        return ev.E.fresh_value(ev.st, T, "nocall"), T
    return c[i][2][j], T


@native("callret")
def n_callret(ev, a):
    c = cbs(ev, ev.load(*a[0])[0])
    i, j = litn(a[1]), litn(a[2])
    T = ev.load(*a[0])[1].u().results[j]
    if i >= len(c):
        return ev.E.fresh_value(ev.st, T, "nocall"), T
    return c[i][3][j], T


# ------------------------------------------------------------------ contract files
class Clause:
    def __init__(self, name, ast, text):
        self.name, self.ast, self.text = name, ast, text


class Contract:
    modular = False

    def __init__(self, kind, head, file, line):
        self.kind, self.head, self.file, self.line = kind, head, file, line
        self.requires, self.ensures, self.stmts = [], [], []
        self.loops = []
        self.linear, self.iters, self.rely, self.section = [], [], [], []
        self.panics = None
        self.opts = {}
        self.params, self.rets = [], []
        self.fn = None
        self.typeargs = {}

    @property
    def label(self):
        return self.head


class SpecFile:
    def __init__(self, path):
        self.path = path
        self.macros = {}
        self.items = []
        self.opts = {}
        self.ufs = []
        self.axioms = []
        self.tablefacts = []
        self.tableinv = []
        self.opaque = {}
        self.guardtypes, self.under, self.immut = {}, set(), set()
        self.criticals = {}
        self.protocols = {}
        self.parse(open(path).read())

    def parse(self, txt):
        lines = []
        for i, l in enumerate(txt.split("\n"), 1):
            l = re.sub(r"(^|\s)//.*$", "", l).rstrip()
            if not l.strip():
                continue
            if l[0] in " \t" and lines:
                # indented lines starting with a keyword are clauses, others continue the previous one
                w = l.split()[0]
                if w in KEYWORDS or re.match(r"[\w\s,]+:=\s*call\s", l.strip()):
                    lines.append((i, l.strip()))
                else:
                    lines[-1] = (lines[-1][0], lines[-1][1] + " " + l.strip())
            else:
                lines.append((i, l.strip()))
        cur = None
        for ln, l in lines:
            try:
                cur = self.line(ln, l, cur)
            except SpecError as e:
                raise SpecError("%s:%d: %s" % (self.path, ln, e))

    def expr(self, s):
        p = Parser(s)
        e = p.expr()
        if p.peek()[0] != "end":
            raise SpecError("trailing input %r in %s" % (p.peek(), s))
        return e

    def line(self, ln, l, cur):
        w, _, rest = l.partition(" ")
        rest = rest.strip()
        if w == "include":
            o = SpecFile(os.path.join(os.path.dirname(self.path), rest))
            self.macros.update(o.macros)
            self.ufs += o.ufs
            self.axioms += o.axioms
            self.tablefacts += o.tablefacts
            self.tableinv += o.tableinv
            self.opaque.update(o.opaque)
            for k in ("tparams",):
                if k in o.opts:
                    self.opts.setdefault(k, o.opts[k])
            return None
        if w == "uf":
            m = re.match(r"(\w+)\s*\(([^)]*)\)\s*(.+)$", rest)
            self.ufs.append((m.group(1), [Parser(t.strip()).type() for t in splitargs(m.group(2)) if t.strip()], Parser(m.group(3)).type()))
            return None
        if w == "opaque":
            m = re.match(r"(\w+)\s*\(([^)]*)\)\s*(\w+)\s*:=\s*(.*)$", rest, re.S)
            ps = [x.strip().split(None, 1) for x in m.group(2).split(",")]
            self.macros[m.group(1)] = ([p[0] for p in ps], self.expr(m.group(4)))
            self.opaque[m.group(1)] = ([Parser(p[1]).type() for p in ps], Parser(m.group(3)).type())
            return None
        if w == "tableinv":
            # cond index: every byte b with cond(b) is found at table[index(b)]
            self.tableinv.append(rest.split())
            return None
        if w == "tablefact":
            # property of entries b = table[k]; used for a constant table only when it holds of every entry
            vs, _, body = rest.partition("::")
            self.tablefacts.append(([x.strip() for x in vs.split(",")], self.expr(body)))
            return None
        if w == "axiom":
            nm, _, body = rest.partition(":")
            self.axioms.append((nm.strip(), self.expr(body)))
            return None
        if w == "guardtype":
            ws = rest.split()
            g = dict(x.split("=", 1) for x in ws[1:])
            self.guardtypes[ws[0]] = {"lock": g["lock"], "immutable": set(filter(None, g.get("immutable", "").split(","))), "contents": list(filter(None, g.get("contents", "").split(","))), "elems": list(filter(None, g.get("elems", "").split(",")))}
            return None
        if w == "critical":
            # fields of an object that other goroutines change, keeping an invariant, while its lock is free
            head, _, inv = rest.partition("::")
            ws = head.split()
            g = dict(x.split("=", 1) for x in ws[1:])
            self.criticals[ws[0]] = {"lock": g["lock"], "fields": g["fields"].split(","), "inv": self.expr(inv), "text": inv.strip()}
            return None
        if w == "reuse":
            # the functions of another file: their preconditions and loop invariants, not what they ensure
            o = SpecFile(os.path.join(os.path.dirname(self.path), rest.strip()))
            for k, v in o.opts.items():
                self.opts.setdefault(k, v)
            self.macros.update(o.macros)
            self.ufs += o.ufs
            self.axioms += o.axioms
            self.immut |= o.immut
            for c in o.items:
                if c.kind == "func":
                    c.ensures, c.linear, c.section, c.iters = [], [], [], []
                    self.items.append(c)
            return None
        if w == "every":
            # every NAME [except F ...]: expr, an ensures of every function so far
            head, _, body = rest.partition(":")
            ws = head.split()
            for c in self.items:
                if c.kind == "func" and not any(c.head.endswith(x) for x in ws[2:]):
                    c.ensures.append(Clause(ws[0], self.expr(body), body))
            return None
        if w == "protocol":
            # a table of channels changed only under a lock of the object
            ws = rest.split()
            g = dict(x.split("=", 1) for x in ws[1:])
            self.protocols[ws[0]] = {"lock": g["lock"], "map": self.expr(g["map"]), "key": Parser(g["key"]).type(), "chan": Parser(g["chan"].replace("~", " ")).type(), "keyed": g.get("keyed")}
            return None
        if w == "under":
            self.under.update(rest.split())
            return None
        if w == "immutable":
            self.immut.update(rest.split())
            return None
        if w == "def":
            m = re.match(r"(\w+)\s*(?:\(([^)]*)\))?\s*:=\s*(.*)$", rest, re.S)
            if not m:
                raise SpecError("bad def")
            ps = [x.strip().split()[0] for x in (m.group(2) or "").split(",") if x.strip()]
            self.macros[m.group(1)] = (ps, self.expr(m.group(3)))
            return None
        if w in ("func", "proc", "lemma"):
            c = Contract(w, rest, self.path, ln)
            if w == "func":
                m = re.match(r"(\(\*?[\w./]+\)\.\w+|[\w./]+)\s*\(([^)]*)\)\s*(?:\(([^)]*)\))?$", rest)
                if not m:
                    raise SpecError("bad func header " + rest)
                c.head = m.group(1)
                c.params = [x.strip() for x in m.group(2).split(",") if x.strip()]
                c.rets = [x.strip() for x in (m.group(3) or "").split(",") if x.strip()]
            elif w == "proc":
                m = re.match(r"(\w+)\s*\(([^)]*)\)\s*$", rest)
                if not m:
                    m = re.match(r"(\w+)\s*\((.*)\)\s*$", rest)
                c.head = m.group(1)
                c.params = [x.strip().split(None, 1) for x in splitargs(m.group(2))]
            else:
                n, _, e = rest.partition(":")
                c.head = n.strip()
                c.ensures.append(Clause(c.head, self.expr(e), e))
            self.items.append(c)
            return c
        if cur is None:
            if w == "option":
                k, _, v = rest.partition(" ")
                self.opts[k] = v.strip()
                return None
            raise SpecError("clause outside item: " + l)
        if w in ("requires", "ensures"):
            m = re.match(r"([A-Za-z_][\w-]*)\s*:(?!:)\s*(.*)$", rest, re.S)
            nm, body = (m.group(1), m.group(2)) if m else ("%s%d" % (w[0], ln), rest)
            getattr(cur, w).append(Clause(nm, self.expr(body), body))
            return cur
        if w in ("linear", "rely", "section"):
            m = re.match(r"([A-Za-z_][\w-]*)\s*:(?!:)\s*(.*)$", rest, re.S)
            getattr(cur, w).append(Clause(m.group(1), self.expr(m.group(2)), m.group(2)))
            return cur
        if w == "iter":
            vs, _, e = rest.partition("::")
            cur.iters.append(([x.strip() for x in vs.split(",") if x.strip()], Clause("iter%d" % ln, self.expr(e), e)))
            return cur
        if w == "loop":
            vs, _, e = rest.partition("::")
            nm = "loop%d" % ln
            vl = []
            for v in splitargs(vs):
                a, t = v.strip().split(None, 1)
                vl.append((a, Parser(t).type()))
            cur.loops.append((nm, vl, self.expr(e), e))
            return cur
        if w == "panics":
            assert rest.startswith("when")
            cur.panics = self.expr(rest[4:])
            return cur
        if w == "option":
            k, _, v = rest.partition(" ")
            cur.opts.setdefault(k, []).append(v.strip())
            return cur
        if cur.kind == "proc":
            if w in ("assume", "assert"):
                m = re.match(r"([A-Za-z_][\w-]*)\s*:(?!:)\s*(.*)$", rest, re.S)
                nm, body = (m.group(1), m.group(2)) if m else ("%s@%d" % (w, ln), rest)
                cur.stmts.append((w, Clause(nm, self.expr(body), body)))
                return cur
            if w == "snapshot":
                cur.stmts.append(("snapshot", rest))
                return cur
            if w == "havoc":
                cur.stmts.append(("havoc", rest))
                return cur
            if w == "var":
                n, t = rest.split(None, 1)
                cur.stmts.append(("var", n, Parser(t).type()))
                return cur
            if w == "let":
                n, _, e = rest.partition("=")
                cur.stmts.append(("let", n.strip(), self.expr(e)))
                return cur
            m = re.match(r"(?:([\w\s,]+?)\s*:=\s*)?call\s+(.*)$", l, re.S)
            if m:
                lhs = [x.strip() for x in (m.group(1) or "").split(",") if x.strip()]
                cur.stmts.append(("call", lhs) + self.callexpr(m.group(2)))
                return cur
        raise SpecError("unknown clause: " + l)

    def callexpr(self, s):
        """pkg.F[T](args) | x.M(args)"""
        m = re.match(r"([\w./]+)\s*(\[.*?\])?\s*\(", s)
        i = m.end()
        dep, j = 1, i
        while dep:
            ch = s[j]
            dep += ch in "([{"
            dep -= ch in ")]}"
            j += 1
        args = [self.expr(a) for a in splitargs(s[i:j - 1])]
        targs = []
        if m.group(2):
            targs = [Parser(t).type() for t in splitargs(m.group(2)[1:-1])]
        return (m.group(1), targs, args)


KEYWORDS = ("section", "rely", "linear", "iter", "loop", "requires", "ensures", "panics", "option", "assume", "assert", "snapshot", "havoc", "var", "let", "call")


def splitargs(s):
    out, dep, cur = [], 0, ""
    for ch in s:
        if ch in "([{":
            dep += 1
        if ch in ")]}":
            dep -= 1
        if ch == "," and dep == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def strip_targs(n):
    out, dep = "", 0
    for ch in n:
        if ch == "[":
            dep += 1
        elif ch == "]":
            dep -= 1
        elif dep == 0:
            out += ch
    return out


def fnindex(prog):
    if not hasattr(prog, "_fnidx"):
        prog._fnidx = {}
        for n in prog.funcs:
            prog._fnidx.setdefault(strip_targs(n), n)
    return prog._fnidx


def findfn(prog, short):
    idx = fnindex(prog)
    cands = [short]
    if short.startswith("(*"):
        cands.append("(*" + MOD + "/" + short[2:])
        cands.append("(" + MOD + "/" + short[2:])
    elif short.startswith("("):
        cands.append("(" + MOD + "/" + short[1:])
        cands.append("(*" + MOD + "/" + short[1:])
    else:
        cands.append(MOD + "/" + short)
    for c in cands:
        if c in idx:
            return prog.funcs[idx[c]]
    return None
