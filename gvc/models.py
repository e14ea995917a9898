"""Assumed contracts of the standard library and other dependencies.

Every model is a trusted contract; the ones a proof used are listed in its evidence.
"""
import z3
from .engine import ghost, GHOSTS
from .theory import SliceV, StructV, ArrayV, Closure, Loc, TupleV, Unsupported, is_num, LENMAX

MODELS = {}
IMODELS = {}


def model(*names):
    def dec(f):
        for n in names:
            MODELS[n] = f
        return f
    return dec


def imodel(*keys):
    def dec(f):
        for k in keys:
            IMODELS[k] = f
        return f
    return dec


def ok(st, v=None):
    return [("ok", st, v)]


def INT(E):
    return z3.IntSort()


def BOOL(E):
    return z3.BoolSort()


Z0 = lambda E, T: z3.IntVal(0)
F0 = lambda E, T: z3.BoolVal(False)

ghost("chan", "cap", INT, Z0)
ghost("chan", "closed", BOOL, F0)
ghost("chan", "cnt", INT, Z0)

# ------------------------------------------------------------------ locks
# lk: 0 not held by this goroutine, 1 held for writing, 2 held for reading
ghost("sync.Mutex", "lk", INT, Z0)
ghost("sync.RWMutex", "lk", INT, Z0)


def lockref(a):
    if isinstance(a, Loc):
        raise Unsupported("lock behind interior pointer")
    return a


def lockmodel(tn, want, set_, name):
    def m(E, st, args, d):
        r = lockref(args[0])
        pans = E.need(None, st, r != 0, "nil lock") if not is_num(r) else []
        lk = E.gget(st, tn, "lk", r)
        E.oblige("lock:%s on a lock in the required state" % name, st, lk == want, kind="lock")
        st.assume(lk == want)
        if not set_ and E.onunlock is not None:
            E.onunlock(st, r, want)
        E.gset(st, tn, "lk", r, z3.IntVal(set_))
        E.event(st, ("lock" if set_ else "unlock", r, name))
        if set_ and E.onlock is not None:
            E.onlock(st, r, set_)
        return ok(st) + pans
    return m


MODELS["(*sync.Mutex).Lock"] = lockmodel("sync.Mutex", 0, 1, "Lock")
MODELS["(*sync.Mutex).Unlock"] = lockmodel("sync.Mutex", 1, 0, "Unlock")
MODELS["(*sync.RWMutex).Lock"] = lockmodel("sync.RWMutex", 0, 1, "Lock")
MODELS["(*sync.RWMutex).Unlock"] = lockmodel("sync.RWMutex", 1, 0, "Unlock")
MODELS["(*sync.RWMutex).RLock"] = lockmodel("sync.RWMutex", 0, 2, "RLock")
MODELS["(*sync.RWMutex).RUnlock"] = lockmodel("sync.RWMutex", 2, 0, "RUnlock")


def trymodel(tn, want, set_, name):
    def m(E, st, args, d):
        r = lockref(args[0])
        pans = E.need(None, st, r != 0, "nil lock") if not is_num(r) else []
        s2 = st.copy()
        lk = E.gget(st, tn, "lk", r)
        st.assume(lk == want)
        E.gset(st, tn, "lk", r, z3.IntVal(set_))
        E.event(st, ("lock", r, name))
        E.event(s2, ("tryfail", r, name))
        if E.onlock is not None:
            E.onlock(st, r, set_)
        return [("ok", st, z3.BoolVal(True)), ("ok", s2, z3.BoolVal(False))] + pans
    return m


MODELS["(*sync.Mutex).TryLock"] = trymodel("sync.Mutex", 0, 1, "TryLock")
MODELS["(*sync.RWMutex).TryLock"] = trymodel("sync.RWMutex", 0, 1, "TryLock")
MODELS["(*sync.RWMutex).TryRLock"] = trymodel("sync.RWMutex", 0, 2, "TryRLock")


# ------------------------------------------------------------------ sync.Map
ghost("sync.Map", "dom", lambda E: z3.ArraySort(E.th.ANY, z3.BoolSort()), lambda E, T: z3.K(E.th.ANY, z3.BoolVal(False)))
ghost("sync.Map", "val", lambda E: z3.ArraySort(E.th.ANY, E.th.ANY), lambda E, T: z3.K(E.th.ANY, E.th.anynil), "a")
ghost("sync.Map", "card", INT, Z0)


def smop(E, st, m):
    """state of the map at the moment of an operation: another goroutine may have changed it since the last one"""
    for p in E.protos:
        p.before(st, m)
    if getattr(E, "interfere", False):
        E.gset(st, "sync.Map", "dom", m, E.th.fresh("envD", z3.ArraySort(E.th.ANY, z3.BoolSort())))
        E.gset(st, "sync.Map", "val", m, E.th.fresh("envV", z3.ArraySort(E.th.ANY, E.th.ANY)))
        E.gset(st, "sync.Map", "card", m, E.th.fresh("envC", z3.IntSort()))
        smget(E, st, m)
        if E.rely is not None:
            st.assume(E.rely(st, False))
    return smget(E, st, m)


def smev(E, st, op, m, k, pre):
    post = smget(E, st, m)
    E.event(st, ("sm", op, m, k, pre, post))
    E.hook(st, "smap", "", m, not all(z3.eq(a, b) for a, b in zip(pre, post)))
    for p in E.protos:
        p.after(st, op, m, k, pre)
    if E.rely is not None and not all(z3.eq(a, b) for a, b in zip(pre, post)):
        E.oblige("rely: the shared map keeps its invariant", st, E.rely(st, True), kind="rely")


def smget(E, st, m):
    d = E.gget(st, "sync.Map", "dom", m)
    v = E.gget(st, "sync.Map", "val", m)
    c = E.gget(st, "sync.Map", "card", m)
    E.setfacts(st, d, c)
    return d, v, c


def smkey(E, st, m):
    return E.need(None, st, m != 0, "nil sync.Map") if not is_num(m) else []


def anyfact(E, st, v):
    E.facts_for(st, E.prog.iface(), v)


@model("(*sync.Map).Load")
def sm_load(E, st, a, d):
    p = smkey(E, st, a[0])
    D, V, C = smop(E, st, a[0])
    h = E.sel(D, a[1])
    v = z3.simplify(z3.If(h, E.sel(V, a[1]), E.th.anynil))
    anyfact(E, st, v)
    smev(E, st, "load", a[0], a[1], (D, V, C))
    return ok(st, TupleV([v, h])) + p


def smput(E, st, m, k, v, D, V, C):
    E.gset(st, "sync.Map", "card", m, z3.If(E.sel(D, k), C, C + 1))
    E.gset(st, "sync.Map", "dom", m, z3.Store(D, k, z3.BoolVal(True)))
    E.gset(st, "sync.Map", "val", m, z3.Store(V, k, v))


def smdel(E, st, m, k, D, C):
    E.gset(st, "sync.Map", "card", m, z3.If(E.sel(D, k), C - 1, C))
    E.gset(st, "sync.Map", "dom", m, z3.Store(D, k, z3.BoolVal(False)))


@model("(*sync.Map).Store")
def sm_store(E, st, a, d):
    p = smkey(E, st, a[0])
    D, V, C = smop(E, st, a[0])
    smput(E, st, a[0], a[1], a[2], D, V, C)
    smev(E, st, "store", a[0], a[1], (D, V, C))
    return ok(st) + p


@model("(*sync.Map).Swap")
def sm_swap(E, st, a, d):
    p = smkey(E, st, a[0])
    D, V, C = smop(E, st, a[0])
    h = E.sel(D, a[1])
    v = z3.simplify(z3.If(h, E.sel(V, a[1]), E.th.anynil))
    anyfact(E, st, v)
    smput(E, st, a[0], a[1], a[2], D, V, C)
    smev(E, st, "swap", a[0], a[1], (D, V, C))
    return ok(st, TupleV([v, h])) + p


@model("(*sync.Map).LoadOrStore")
def sm_los(E, st, a, d):
    p = smkey(E, st, a[0])
    D, V, C = smop(E, st, a[0])
    h = E.sel(D, a[1])
    old = E.sel(V, a[1])
    s2 = st.copy()
    res = []
    s2.assume(h)
    anyfact(E, s2, old)
    smev(E, s2, "loadorstore", a[0], a[1], (D, V, C))
    st.assume(z3.Not(h))
    smput(E, st, a[0], a[1], a[2], D, V, C)
    smev(E, st, "loadorstore", a[0], a[1], (D, V, C))
    if E.query(s2.pc) != z3.unsat:
        res.append(("ok", s2, TupleV([old, z3.BoolVal(True)])))
    res.append(("ok", st, TupleV([a[2], z3.BoolVal(False)])))
    return res + p


@model("(*sync.Map).LoadAndDelete")
def sm_lad(E, st, a, d):
    p = smkey(E, st, a[0])
    D, V, C = smop(E, st, a[0])
    h = E.sel(D, a[1])
    v = z3.simplify(z3.If(h, E.sel(V, a[1]), E.th.anynil))
    anyfact(E, st, v)
    smdel(E, st, a[0], a[1], D, C)
    smev(E, st, "loadanddelete", a[0], a[1], (D, V, C))
    return ok(st, TupleV([v, h])) + p


@model("(*sync.Map).Delete")
def sm_del(E, st, a, d):
    p = smkey(E, st, a[0])
    D, V, C = smop(E, st, a[0])
    smdel(E, st, a[0], a[1], D, C)
    smev(E, st, "delete", a[0], a[1], (D, V, C))
    return ok(st) + p


@model("(*sync.Map).Clear")
def sm_clear(E, st, a, d):
    p = smkey(E, st, a[0])
    D, V, C = smop(E, st, a[0])
    E.gset(st, "sync.Map", "card", a[0], z3.IntVal(0))
    E.gset(st, "sync.Map", "dom", a[0], z3.K(E.th.ANY, z3.BoolVal(False)))
    smev(E, st, "clear", a[0], None, (D, V, C))
    return ok(st) + p


@model("(*sync.Map).CompareAndSwap", "(*sync.Map).CompareAndDelete")
def sm_cas(E, st, a, d):
    p = smkey(E, st, a[0])
    D, V, C = smop(E, st, a[0])
    k, old = a[1], a[2]
    c = z3.And(E.sel(D, k), E.sel(V, k) == old)
    s2 = st.copy()
    s2.assume(z3.Not(c))
    st.assume(c)
    if d["name"].endswith("CompareAndDelete"):
        smdel(E, st, a[0], k, D, C)
    else:
        smput(E, st, a[0], k, a[3], D, V, C)
    smev(E, st, "cas", a[0], k, (D, V, C))
    smev(E, s2, "cas", a[0], k, (D, V, C))
    return [("ok", st, z3.BoolVal(True)), ("ok", s2, z3.BoolVal(False))] + p


# Range visits stored pairs one by one, in no particular order, each at most once, until the function returns false.
@model("(*sync.Map).Range")
def sm_range(E, st, a, d):
    p = smkey(E, st, a[0])
    m, f = a[0], a[1]
    E.hook(st, "smap", "", m, False)

    def args(s):
        D, V, C = smget(E, s, m)
        k = E.th.fresh("rk", E.th.ANY)
        s.assume(E.sel(D, k))
        v = E.sel(V, k)
        anyfact(E, s, k)
        anyfact(E, s, v)
        return [k, v]
    return E.iterate(st, f, d["sig"].params[-1].u(), args, d, "range") + p


# ------------------------------------------------------------------ atomics
def aload(E, st, a, T):
    h = E.accesshook
    E.accesshook = None
    if E.interfere:
        E.store(st, T, a, E.fresh_value(st, T, "env"))
    v = E.load(st, T, a)
    E.accesshook = h
    E.event(st, ("aload", "load", a))
    return v


def astore(E, st, a, T, v, delta=None, old=None):
    if delta is None and old is not None and not E.th.bv and not E.th.is_bvint(T):
        delta = v - old  # a read-modify-write is one atomic step
    h = E.accesshook
    E.accesshook = None
    E.store(st, T, a, v)
    E.accesshook = h
    E.event(st, ("atomic", "store" if delta is None else "add", a, delta, v))


def anil(E, st, a):
    return E.need(None, st, a != 0, "nil pointer dereference") if not isinstance(a, Loc) and not is_num(a) else []


def _atomics():
    for suffix, gt in (("Int32", "int32"), ("Int64", "int64"), ("Uint32", "uint32"), ("Uint64", "uint64"), ("Uintptr", "uintptr")):
        def add(E, st, a, d, gt=gt):
            T = E.prog.basic(gt)
            p = anil(E, st, a[0])
            v = aload(E, st, a[0], T)
            n = E.arith(st, "+", v, a[1], T, T)
            astore(E, st, a[0], T, n, a[1])
            return ok(st, n) + p

        def load(E, st, a, d, gt=gt):
            p = anil(E, st, a[0])
            return ok(st, aload(E, st, a[0], E.prog.basic(gt))) + p

        def store(E, st, a, d, gt=gt):
            p = anil(E, st, a[0])
            astore(E, st, a[0], E.prog.basic(gt), a[1])
            return ok(st) + p

        def swap(E, st, a, d, gt=gt):
            p = anil(E, st, a[0])
            v = aload(E, st, a[0], E.prog.basic(gt))
            astore(E, st, a[0], E.prog.basic(gt), a[1], None, v)
            return ok(st, v) + p

        def cas(E, st, a, d, gt=gt):
            p = anil(E, st, a[0])
            v = aload(E, st, a[0], E.prog.basic(gt))
            s2 = st.copy()
            c = z3.simplify(v == a[1])
            res = []
            if E.feasible(s2, z3.Not(c)):
                s2.assume(z3.Not(c))
                res.append(("ok", s2, z3.BoolVal(False)))
            if E.feasible(st, c):
                st.assume(c)
                astore(E, st, a[0], E.prog.basic(gt), a[2], None, v)
                res.append(("ok", st, z3.BoolVal(True)))
            return res + p

        def orand(o):
            def f(E, st, a, d, gt=gt):
                T = E.prog.basic(gt)
                p = anil(E, st, a[0])
                v = aload(E, st, a[0], T)
                astore(E, st, a[0], T, E.arith(st, o, v, a[1], T, T))
                return ok(st, v) + p
            return f
        for nm, fn in (("Add", add), ("Load", load), ("Store", store), ("Swap", swap), ("CompareAndSwap", cas), ("Or", orand("|")), ("And", orand("&"))):
            MODELS["sync/atomic.%s%s" % (nm, suffix)] = fn
            MODELS["(*sync/atomic.%s).%s" % (suffix, nm)] = atomtype(fn, "sync/atomic." + suffix, gt)
    def bwrap(fn):
        return atomtype(fn, "sync/atomic.Bool", "bool")


def atomtype(fn, tn, gt):
    """methods of atomic.X act on the word held in field v"""
    def f(E, st, a, d):
        p = E.need(None, st, a[0] != 0, "nil pointer dereference") if not isinstance(a[0], Loc) and not is_num(a[0]) else []
        if isinstance(a[0], Loc):
            raise Unsupported("atomic behind interior pointer")
        T = E.prog.basic(gt)
        loc = Loc("field", a[0], T, "v", E.prog.named(tn))
        return fn(E, st, [loc] + list(a[1:]), d) + p
    return f


_atomics()

# ------------------------------------------------------------------ container/list
LT, ET = "container/list.List", "container/list.Element"
ghost(LT, "len", INT, Z0)
ghost(LT, "lo", INT, lambda E, T: z3.IntVal(0))
ghost(LT, "hi", INT, lambda E, T: z3.IntVal(1))
ghost(ET, "lst", INT, Z0, "r")
ghost(ET, "rank", INT, Z0)
ghost(ET, "stale", BOOL, F0)


def alias(E, st, tn, g):
    """give the ghost array a name so that quantifier patterns stay simple"""
    a = E.garr(st, tn, g)
    if z3.is_store(a) or z3.is_K(a) or z3.is_app_of(a, z3.Z3_OP_ITE):
        c = E.th.fresh("al_" + g, a.sort())
        st.assume(c == a)
        st.heap["G|%s|%s" % (tn, g)] = c
        return c
    return a


def listfacts(E, st, l):
    """representation facts of container/list (assumed library contract)"""
    S = z3.Select
    lst, rank = alias(E, st, ET, "lst"), alias(E, st, ET, "rank")
    n, lo, hi = (E.gget(st, LT, g, l) for g in ("len", "lo", "hi"))
    e, f = z3.Ints("e f")
    w = E.th.fresh("lwit", z3.IntSort())
    nx = st.next
    key = ("lf", lst.get_id(), rank.get_id(), n.get_id(), lo.get_id(), hi.get_id(), l.get_id())
    if key in st.facts:
        return
    st.facts.add(key)
    st.assume(z3.And(n >= 0, n <= LENMAX, lo < hi))
    st.assume(z3.ForAll([e], z3.Implies(S(lst, e) == l, z3.And(e > 0, e < nx, S(rank, e) > lo, S(rank, e) < hi, n > 0)), patterns=[S(lst, e)]))
    st.assume(z3.Implies(n > 0, S(lst, w) == l))
    st.assume(z3.ForAll([e, f], z3.Implies(z3.And(S(lst, e) == l, S(lst, f) == l, S(rank, e) == S(rank, f)), e == f),
                        patterns=[z3.MultiPattern(S(rank, e), S(rank, f))]))


def lread(E, st, l):
    E.hook(st, "list", LT, l, False)


def lwrite(E, st, l):
    E.hook(st, "list", LT, l, True)


@model("container/list.New")
def l_new(E, st, a, d):
    r = E.new_object(st, E.prog.named(LT))
    listnew(E, st, r)
    return ok(st, r)


def listnew(E, st, r):
    # no element belongs to a new list
    e = z3.Int("e")
    lst = alias(E, st, ET, "lst")
    st.assume(z3.ForAll([e], z3.Select(lst, e) != r, patterns=[z3.Select(lst, e)]))


@model("(*container/list.List).Len")
def l_len(E, st, a, d):
    p = E.need(None, st, a[0] != 0, "nil list") if not is_num(a[0]) else []
    lread(E, st, a[0])
    listfacts(E, st, a[0])
    return ok(st, E.gget(st, LT, "len", a[0])) + p


def push(front):
    def m(E, st, a, d):
        l, v = a
        p = E.need(None, st, l != 0, "nil list") if not is_num(l) else []
        lwrite(E, st, l)
        listfacts(E, st, l)
        e = E.alloc(st)
        eT = E.prog.named(ET)
        hk, E.accesshook = E.accesshook, None
        E.store(st, E.prog.iface(), Loc("field", e, E.prog.iface(), "Value", eT), v)
        E.accesshook = hk
        E.gset(st, LT, "len", l, E.gget(st, LT, "len", l) + 1)
        if front:
            r = E.gget(st, LT, "lo", l)
            E.gset(st, LT, "lo", l, r - 1)
        else:
            r = E.gget(st, LT, "hi", l)
            E.gset(st, LT, "hi", l, r + 1)
        E.gset(st, ET, "rank", e, r)
        E.gset(st, ET, "lst", e, l)
        E.gset(st, ET, "stale", e, z3.BoolVal(False))
        listfacts(E, st, l)
        return ok(st, e) + p
    return m


MODELS["(*container/list.List).PushFront"] = push(True)
MODELS["(*container/list.List).PushBack"] = push(False)


def extreme(E, st, l, front):
    """front / back element (0 when empty)"""
    S = z3.Select
    listfacts(E, st, l)
    lst, rank = alias(E, st, ET, "lst"), alias(E, st, ET, "rank")
    n = E.gget(st, LT, "len", l)
    key = ("ext", front, lst.get_id(), rank.get_id(), n.get_id(), l.get_id())
    memo = E.extmemo
    r = memo.get(key)
    if r is None:
        r = (E.th.fresh("front" if front else "back", z3.IntSort()), lst, rank, n, l)
        memo[key] = r
    r = r[0]
    f = z3.Int("f")
    st.assume(z3.If(n == 0, r == 0, z3.And(r > 0, r < st.next, S(lst, r) == l)))
    cmpf = (S(rank, r) <= S(rank, f)) if front else (S(rank, f) <= S(rank, r))
    st.assume(z3.ForAll([f], z3.Implies(S(lst, f) == l, cmpf), patterns=[S(rank, f)]))
    st.assume(z3.ForAll([f], z3.Implies(S(lst, f) == l, cmpf), patterns=[S(lst, f)]))
    return r


def extm(front):
    def m(E, st, a, d):
        p = E.need(None, st, a[0] != 0, "nil list") if not is_num(a[0]) else []
        lread(E, st, a[0])
        return ok(st, extreme(E, st, a[0], front)) + p
    return m


MODELS["(*container/list.List).Front"] = extm(True)
MODELS["(*container/list.List).Back"] = extm(False)


def stalecheck(E, st, e, what):
    E.oblige("library:%s is given an element that was not dropped by Init" % what, st, z3.Not(E.gget(st, ET, "stale", e)), kind="library")


@model("(*container/list.List).Remove")
def l_remove(E, st, a, d):
    l, e = a
    p = E.need(None, st, e != 0, "nil list element")
    lwrite(E, st, l)
    listfacts(E, st, l)
    stalecheck(E, st, e, "Remove")
    c = E.gget(st, ET, "lst", e) == l
    eT = E.prog.named(ET)
    hk, E.accesshook = E.accesshook, None
    v = E.load(st, E.prog.iface(), Loc("field", e, E.prog.iface(), "Value", eT))
    E.accesshook = hk
    n = E.gget(st, LT, "len", l)
    if E.implies(st, c):
        st.assume(c)
        E.gset(st, LT, "len", l, n - 1)
        E.gset(st, ET, "lst", e, z3.IntVal(0))
    else:
        E.gset(st, LT, "len", l, z3.If(c, n - 1, n))
        E.gset(st, ET, "lst", e, z3.If(c, z3.IntVal(0), E.gget(st, ET, "lst", e)))
    listfacts(E, st, l)
    return ok(st, v) + p


def move(front):
    def m(E, st, a, d):
        l, e = a
        p = E.need(None, st, e != 0, "nil list element")
        lwrite(E, st, l)
        listfacts(E, st, l)
        stalecheck(E, st, e, "MoveToFront")
        c = E.gget(st, ET, "lst", e) == l
        g = "lo" if front else "hi"
        r = E.gget(st, LT, g, l)
        if E.implies(st, c):
            st.assume(c)
            E.gset(st, ET, "rank", e, r)
            E.gset(st, LT, g, l, r - 1 if front else r + 1)
        else:
            E.gset(st, ET, "rank", e, z3.If(c, r, E.gget(st, ET, "rank", e)))
            E.gset(st, LT, g, l, z3.If(c, r - 1 if front else r + 1, r))
        listfacts(E, st, l)
        return ok(st) + p
    return m


MODELS["(*container/list.List).MoveToFront"] = move(True)
MODELS["(*container/list.List).MoveToBack"] = move(False)


@model("(*container/list.List).Init")
def l_init(E, st, a, d):
    l = a[0]
    p = E.need(None, st, l != 0, "nil list") if not is_num(l) else []
    lwrite(E, st, l)
    lst, stale = alias(E, st, ET, "lst"), alias(E, st, ET, "stale")
    e = z3.Int("e")
    S = z3.Select
    nl = E.th.fresh("lst", lst.sort())
    ns = E.th.fresh("stale", stale.sort())
    st.assume(z3.ForAll([e], S(nl, e) == z3.If(S(lst, e) == l, 0, S(lst, e)), patterns=[S(nl, e)]))
    st.assume(z3.ForAll([e], S(ns, e) == z3.Or(S(lst, e) == l, S(stale, e)), patterns=[S(ns, e)]))
    E.hput(st, "G|%s|lst" % ET, nl, None)
    E.hput(st, "G|%s|stale" % ET, ns, None)
    E.gset(st, LT, "len", l, z3.IntVal(0))
    listfacts(E, st, l)
    return ok(st, l) + p


def neighbour(fwd):
    def m(E, st, a, d):
        e = a[0]
        p = E.need(None, st, e != 0, "nil list element")
        lread(E, st, E.gget(st, ET, "lst", e))
        S = z3.Select
        lst, rank = alias(E, st, ET, "lst"), alias(E, st, ET, "rank")
        stale = E.gget(st, ET, "stale", e)
        l = S(lst, e)
        r = E.th.fresh("lnext" if fwd else "lprev", z3.IntSort())
        f = z3.Int("f")
        aft = (lambda x: S(rank, x) > S(rank, e)) if fwd else (lambda x: S(rank, x) < S(rank, e))
        clo = (lambda x: S(rank, r) <= S(rank, x)) if fwd else (lambda x: S(rank, x) <= S(rank, r))
        st.assume(z3.And(r >= 0, r < st.next))
        ns = z3.Not(stale)
        st.assume(z3.Implies(z3.And(ns, l == 0), r == 0))
        st.assume(z3.Implies(z3.And(ns, l != 0, r != 0), z3.And(S(lst, r) == l, aft(r))))
        st.assume(z3.Implies(z3.And(ns, l != 0), z3.ForAll([f], z3.Implies(z3.And(S(lst, f) == l, aft(f)), z3.And(r != 0, clo(f))), patterns=[S(rank, f)])))
        return ok(st, r) + p
    return m


MODELS["(*container/list.Element).Next"] = neighbour(True)
MODELS["(*container/list.Element).Prev"] = neighbour(False)


# ------------------------------------------------------------------ errors, fmt
def newerr(E, st, why="error"):
    r = E.alloc(st)
    T = E.libtype("error")
    return E.th.box(T)[0](r)


def liberr(E, st, eof=True):
    """an error made by a library: any error value, possibly one of its exported ones"""
    th = E.th
    r = th.fresh("err", z3.IntSort())
    st.assume(z3.And(r > 0, r < st.next, th.own(r) == r))
    if not eof:
        from .models2 import GLOBERRS
        st.assume(r != 1600 + GLOBERRS.index("io.EOF"))
    return th.box(E.libtype("error"))[0](r)


@model("errors.New", "fmt.Errorf")
def errnew(E, st, a, d):
    return ok(st, newerr(E, st))


@imodel(("error", "Error"))
def err_error(E, st, a, d):
    return ok(st, E.fresh_value(st, E.prog.basic("string"), "errtext"))


@model("fmt.Println", "fmt.Printf", "fmt.Print", "log.Println", "log.Printf", "log.Print")
def noprint(E, st, a, d):
    rs = d["sig"].results
    vals = [E.fresh_value(st, t, "pr") for t in rs]
    return ok(st, E.result(vals))


def install(E):
    from . import models2, models3, models4, models5, models6, models7, models8  # noqa: F401
    E.models = dict(MODELS)
    E.imodels = dict(IMODELS)
