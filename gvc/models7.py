"""Lock-protected channel tables (protocol clause), context and WaitGroup."""
import z3
from .models import model, imodel, ok, ghost, MODELS, F0, Z0, INT, BOOL
from .models2 import nn
from .theory import Unsupported, is_num, TupleV

ghost("chan", "own", BOOL, F0)
ghost("chan", "ckey", lambda E: E.th.ANY, lambda E, T: E.th.anynil)
ghost("chan", "ctx", INT, Z0)
ghost("keylock", "klk", INT, Z0)
ghost("keylock", "kkey", lambda E: E.th.ANY, lambda E, T: E.th.anynil)


@imodel(("context.Context", "Done"))
def ctx_done(E, st, a, d):
    f = z3.Function("ctxdone", E.th.ANY, z3.IntSort())
    c = f(a[0])
    st.assume(z3.And(c >= 0, E.th.own(c) < st.next, E.gget(st, "chan", "ctx", c) == 1, z3.Not(E.gget(st, "chan", "timer", c))))
    return ok(st, c)


@imodel(("context.Context", "Err"))
def ctx_err(E, st, a, d):
    return ok(st, E.fresh_value(st, E.prog.iface(), "ctxerr"))


@model("(*sync.WaitGroup).Done")
def wg_done(E, st, a, d):
    E.event(st, ("wgdone", a[0]))
    return ok(st) + nn(E, st, a[0])


@model("(*sync.WaitGroup).Add")
def wg_add(E, st, a, d):
    E.event(st, ("wgadd", a[0], a[1]))
    return ok(st) + nn(E, st, a[0])


class Proto:
    """a sync.Map of channels changed only under a lock (a mutex, or one lock per key):
    a channel in the table is open, has room, was entered once and under one key;
    who removes it from the table owns it, and only the owner (or the holder of the lock) sends on or closes it"""

    def __init__(self, E, ref, mapref, lockref, keyed, chT, keyT, name):
        self.E, self.ref, self.map, self.lock, self.keyed, self.chT, self.keyT, self.name = E, ref, mapref, lockref, keyed, chT, keyT, name

    def is_map(self, st, m):
        return z3.eq(z3.simplify(m), z3.simplify(self.map)) or self.E.implies(st, m == self.map)

    def heldfor(self, st, k=None):
        E = self.E
        if self.keyed:
            h = E.gget(st, "keylock", "klk", self.lock) == 1
            return z3.And(h, E.gget(st, "keylock", "kkey", self.lock) == k) if k is not None else h
        return E.gget(st, "sync.Mutex", "lk", self.lock) == 1

    def isheld(self, st):
        return self.E.implies(st, self.heldfor(st))

    def chref(self, v):
        b = self.E.th.box(self.chT)
        return self.E.th.unflat([u(v) for u in b[1]], self.chT, self.E)

    def env(self, st):
        """what other goroutines may do to channels this one does not own"""
        E = self.E
        r = z3.Int("chr")
        own = E.garr(st, "chan", "own")
        for g, so in (("closed", z3.BoolSort()), ("cnt", z3.IntSort())):
            a = E.garr(st, "chan", g)
            n = E.th.fresh("env_" + g, a.sort())
            S = z3.Select
            f = [z3.Implies(S(own, r), S(n, r) == S(a, r))]
            if g == "closed":
                f.append(z3.Implies(S(a, r), S(n, r)))
            st.assume(z3.ForAll([r], z3.And(*f), patterns=[S(n, r)]))
            E.hput(st, "G|chan|" + g, n, None)

    def good(self, st, k, v, full):
        """what is known of an entry; under the lock also that it is open and unused"""
        E = self.E
        c = self.chref(v)
        f = [E.istype(v, self.chT), c > 0, E.th.own(c) < st.next, E.gget(st, "chan", "ckey", c) == k, E.gget(st, "chan", "cap", c) >= 1, z3.Not(E.gget(st, "chan", "own", c))]
        if full:
            f += [z3.Not(E.gget(st, "chan", "closed", c)), E.gget(st, "chan", "cnt", c) == 0]
        return z3.And(*f)

    def entries(self, st, full, key=None):
        E = self.E
        D, V = E.gget(st, "sync.Map", "dom", self.map), E.gget(st, "sync.Map", "val", self.map)
        if key is not None:
            return z3.Implies(E.sel(D, key), self.good(st, key, E.sel(V, key), full))
        q = z3.Const("pk", E.th.ANY)
        return z3.ForAll([q], z3.Implies(z3.Select(D, q), self.good(st, q, z3.Select(V, q), full)), patterns=[z3.Select(V, q)] if z3.is_const(V) else [])

    def havoc(self, st, full, key=None):
        E = self.E
        for g, so in (("dom", z3.BoolSort()), ("val", E.th.ANY)):
            E.gset(st, "sync.Map", g, self.map, E.th.fresh("envM", z3.ArraySort(E.th.ANY, so)))
        E.gset(st, "sync.Map", "card", self.map, E.th.fresh("envC", z3.IntSort()))
        n = E.th.fresh("next", z3.IntSort())
        st.assume(n >= st.next)
        st.next = n
        D, C = E.gget(st, "sync.Map", "dom", self.map), E.gget(st, "sync.Map", "card", self.map)
        E.setfacts(st, D, C)
        st.assume(self.entries(st, False))
        if full:
            st.assume(self.entries(st, True, key))

    def onlock(self, st, key=None):
        self.env(st)
        self.havoc(st, True, key)
        self.E.event(st, ("section", self.name, st.copy()))

    def onunlock(self, st, key=None):
        E = self.E
        E.oblige("table: every entry is an open unused channel of its key when the lock is released", st, self.entries(st, True, key), kind="rely")
        E.event(st, ("sectionend", self.name, st.copy()))

    def before(self, st, m):
        """called before an operation on the table"""
        if self.is_map(st, m) and not self.isheld(st):
            self.env(st)
            self.havoc(st, False)

    def after(self, st, op, m, k, pre):
        E = self.E
        if not self.is_map(st, m):
            return
        D, V = E.gget(st, "sync.Map", "dom", m), E.gget(st, "sync.Map", "val", m)
        if z3.eq(D, pre[0]) and z3.eq(V, pre[1]):
            return
        if k is None:
            raise Unsupported("whole-table operation on a guarded table")
        E.oblige("table: changed only under the lock%s" % (" of the key" if self.keyed else ""), st, self.heldfor(st, k if self.keyed else None), kind="lock")
        h0, v0, h1, v1 = E.sel(pre[0], k), E.sel(pre[1], k), E.sel(D, k), E.sel(V, k)
        o = self.chref(v0)
        E.gset(st, "chan", "own", o, z3.Or(E.gget(st, "chan", "own", o), z3.And(h0, z3.Or(z3.Not(h1), v0 != v1))))
        h1 = z3.simplify(h1)
        if not z3.is_false(h1):
            n = self.chref(v1)
            new = z3.And(h1, z3.Or(z3.Not(h0), v0 != v1))
            g = z3.And(E.gget(st, "chan", "own", n), z3.Not(E.gget(st, "chan", "closed", n)), E.gget(st, "chan", "cnt", n) == 0)
            E.oblige("table: only a new channel of this goroutine is entered", st, z3.Implies(new, g), kind="rely")
            E.gset(st, "chan", "own", n, z3.And(E.gget(st, "chan", "own", n), z3.Not(new)))
            E.gset(st, "chan", "ckey", n, z3.If(new, k, E.gget(st, "chan", "ckey", n)))


class KeyLock:
    modular = True

    def __init__(self, lock):
        self.lock = lock

    def apply(self, E, st, args, targs, d):
        l, k = args
        T = E.prog.basic("int64")
        key = E.mkiface(T, k)
        h = E.gget(st, "keylock", "klk", l)
        if self.lock:
            E.oblige("lock:no key of the table is locked already", st, h == 0, kind="lock")
            E.gset(st, "keylock", "klk", l, z3.IntVal(1))
            E.gset(st, "keylock", "kkey", l, key)
            for p in E.protos:
                if p.keyed and E.implies(st, p.lock == l):
                    p.onlock(st, key)
            v = E.th.fresh("lockref", z3.IntSort())
            st.assume(v > 0)
            return ok(st, v)
        E.oblige("lock:the key unlocked is the key locked", st, z3.And(h == 1, E.gget(st, "keylock", "kkey", l) == key), kind="lock")
        for p in E.protos:
            if p.keyed and E.implies(st, p.lock == l):
                p.onunlock(st, key)
        E.gset(st, "keylock", "klk", l, z3.IntVal(0))
        for p in E.protos:
            if p.keyed:
                p.env(st)
        return ok(st)


def setup(E, prog, spec, con, tenv, vars, pre, mkev):
    """activates the protocol clauses that concern the parameters"""
    from .verify import shortname, lock_of
    from .spec import refv
    for n, (v, T) in vars.items():
        e = T.u().e if T.u().k == "ptr" else None
        if e is None or e.k != "named" or shortname(e.name) not in spec.protocols:
            continue
        g = spec.protocols[shortname(e.name)]
        ev = mkev(pre, {**vars, "self": vars[n]})
        mapref = refv(ev, ev.ev(g["map"], 0))
        lk = lock_of(E, prog, pre, e.name, g, v)
        chT, keyT = tenv.res(g["chan"]), tenv.res(g["key"])
        keyed = g.get("keyed") == "yes"
        E.protos = list(E.protos) + [Proto(E, v, mapref, lk, keyed, chT, keyT, n)]
    if not E.protos:
        return
    for tn in ("lock.Numlock",):
        from .spec import findfn
        for m, b in (("Lock", True), ("Unlock", False)):
            fn = findfn(prog, "(*%s).%s" % (tn, m))
            if fn is not None:
                E.contracts[fn.name] = KeyLock(b)
    l0, u0 = E.onlock, E.onunlock

    def onlock(st, r, mode):
        if l0:
            l0(st, r, mode)
        for p in E.protos:
            if not p.keyed and E.implies(st, p.lock == r):
                p.onlock(st)

    def onunlock(st, r, mode):
        if u0:
            u0(st, r, mode)
        for p in E.protos:
            if not p.keyed and E.implies(st, p.lock == r):
                p.onunlock(st)
    E.onlock, E.onunlock = onlock, onunlock
    E.sections = True


    # before the call nothing is owned and no key is locked
    for tn, g, z in (("chan", "own", z3.BoolVal(False)), ("keylock", "klk", z3.IntVal(0))):
        E.garr(pre, tn, g)
        pre.heap["G|%s|%s" % (tn, g)] = z3.K(z3.IntSort(), z)


def keys_released(E, st):
    return z3.And(*[E.gget(st, "keylock", "klk", p.lock) == 0 for p in E.protos if p.keyed])


@model("strings.Join")
def strings_join(E, st, a, d):
    """the elements in order, the separator between them"""
    from .spec import Ev, TypeEnv, SpecFile, Parser
    ss, sep = a
    T = E.prog.slice(E.prog.basic("string"))
    S = E.prog.basic("string")
    r = E.fresh_value(st, S, "joined")
    ev = Ev(E, TypeEnv(E.prog, {}), st, st, {"ss": (ss, T), "sep": (sep, S), "r": (r, S)}, {}, False)
    for x in ("if len(ss) == 0 then len(r) == 0 else len(r) == sumof(k, len(ss), len(ss[k])) + (len(ss) - 1) * len(sep)",
              "forall j, p int :: 0 <= j && j < len(ss) && 0 <= p && p < len(ss[j]) ==> sumof(k, j, len(ss[k])) + j * len(sep) + p < len(r) && r[sumof(k, j, len(ss[k])) + j * len(sep) + p] == ss[j][p]",
              "forall j, p int :: 0 <= j && j < len(ss) - 1 && 0 <= p && p < len(sep) ==> r[sumof(k, j + 1, len(ss[k])) + j * len(sep) + p] == sep[p]"):
        st.assume(ev.bool(Parser(x).expr() if hasattr(Parser(x), "expr") else SpecFile.expr(SpecFile, x), 1))
    return ok(st, r)
