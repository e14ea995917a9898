"""Assumed contracts of google/btree, sort, sync.Once and math."""
import z3
from .models import model, imodel, ok, ghost, MODELS, IMODELS, Z0, F0, INT, BOOL
from .models2 import nn
from .theory import SliceV, StructV, ArrayV, Closure, Loc, TupleV, Unsupported, is_num, LENMAX

# ------------------------------------------------------------------ btree
BT = "github.com/google/btree.BTree"
ghost(BT, "items", lambda E: z3.ArraySort(E.th.ANY, z3.BoolSort()), lambda E, T: z3.K(E.th.ANY, z3.BoolVal(False)))


class Frame:
    fid, depth, env = -1, 1, {}


def symuses(E, e, ok):
    """does e mention a constant that is not in ok and was made after it"""
    stk, seen = [e], set()
    while stk:
        x = stk.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in ok:
            return True
        stk.extend(x.children())
    return False


def bless(E):
    return z3.Function("bless", E.th.ANY, E.th.ANY, z3.BoolSort())


def define_less(E, st, item):
    """bless(a, b) is what the item's own Less method computes"""
    dy = E.dyn(st, item)
    if dy is None:
        raise Unsupported("btree item of unknown type")
    T = dy[0]
    done = E.extmemo.setdefault("bless", {})
    if T.s in done:
        return
    done[T.s] = True
    th = E.th
    n0 = th.nfresh
    a, b = E.fresh_value(st, T, "lessa"), E.fresh_value(st, T, "lessb")
    xs = th.flat(a, T, E) + th.flat(b, T, E)
    s = st.copy()
    n = len(s.pc)
    f = E.find_method(T, "Less")
    if f is None:
        raise Unsupported("no Less method")
    ba, bb = E.mkiface(T, a), E.mkiface(T, b)
    outs = E.call_named(Frame, s, f[0], T.targs if T.k == "named" else (), [a, bb], {"args": [a, bb], "line": E.line, "env": {}}, ())
    fs = []
    for k, s2, v in outs:
        if k == "ret":
            k = "ok"
        if k != "ok":
            raise Unsupported("Less may panic")
        fs.append(z3.Implies(z3.And(*s2.pc[n:]) if len(s2.pc) > n else z3.BoolVal(True), bless(E)(ba, bb) == v))
        if len(s2.ev) > len(st.ev):
            raise Unsupported("Less has effects")
    F = z3.And(*fs)
    ax = z3.ForAll(xs, F, patterns=[bless(E)(ba, bb)])
    left = set()
    stk, seen = [ax], set()
    th.axioms.append(ax)
    x, y, z = z3.Consts("lx ly lz", th.ANY)

    def inst(nm):
        v = E.fresh_value(st, T, nm)
        return E.mkiface(T, v)
    p, q, r = inst("lp"), inst("lq"), inst("lr")
    L = bless(E)
    E.oblige("library: Less is a strict weak order", st, z3.And(
        z3.Not(z3.And(L(p, q), L(q, p))),
        z3.Implies(z3.And(L(p, q), L(q, r)), L(p, r)),
        z3.Implies(L(p, r), z3.Or(L(p, q), L(q, r)))), kind="library")


def equiv(E, a, b):
    L = bless(E)
    return z3.And(z3.Not(L(a, b)), z3.Not(L(b, a)))


def items(E, st, t):
    return E.gget(st, BT, "items", t)


def bt_find(E, st, t, x):
    th = E.th
    I = items(E, st, t)
    r = th.fresh("btitem", th.ANY)
    y = z3.Const("by", th.ANY)
    st.assume(z3.Or(r == th.anynil, z3.And(z3.Select(I, r), equiv(E, r, x))))
    st.assume(z3.Implies(r == th.anynil, z3.ForAll([y], z3.Implies(z3.Select(I, y), z3.Not(equiv(E, y, x))), patterns=[z3.Select(I, y)] if z3.is_const(I) else [])))
    # the tree never holds two equivalent items
    st.assume(z3.Implies(r != th.anynil, z3.ForAll([y], z3.Implies(z3.And(z3.Select(I, y), equiv(E, y, x)), y == r))))
    st.assume(z3.Not(z3.Select(I, th.anynil)))
    return I, r


@model("github.com/google/btree.New")
def bt_new(E, st, a, d):
    p = E.need(None, st, a[0] > E.th.num(1, E.prog.basic("int")), "bad degree")
    return ok(st, E.new_object(st, E.prog.named(BT))) + p


@model("(*github.com/google/btree.BTree).Get")
def bt_get(E, st, a, d):
    p = nn(E, st, a[0])
    E.hook(st, "tree", BT, a[0], False)
    define_less(E, st, a[1])
    return ok(st, bt_find(E, st, a[0], a[1])[1]) + p


@model("(*github.com/google/btree.BTree).Has")
def bt_has(E, st, a, d):
    p = nn(E, st, a[0])
    E.hook(st, "tree", BT, a[0], False)
    define_less(E, st, a[1])
    return ok(st, bt_find(E, st, a[0], a[1])[1] != E.th.anynil) + p


@model("(*github.com/google/btree.BTree).Delete")
def bt_delete(E, st, a, d):
    p = nn(E, st, a[0])
    E.hook(st, "tree", BT, a[0], True)
    define_less(E, st, a[1])
    I, r = bt_find(E, st, a[0], a[1])
    E.gset(st, BT, "items", a[0], z3.Store(I, r, z3.BoolVal(False)))
    return ok(st, r) + p


@model("(*github.com/google/btree.BTree).ReplaceOrInsert")
def bt_put(E, st, a, d):
    p = nn(E, st, a[0]) + E.need(None, st, a[1] != E.th.anynil, "nil item being added to BTree")
    E.hook(st, "tree", BT, a[0], True)
    define_less(E, st, a[1])
    I, r = bt_find(E, st, a[0], a[1])
    E.gset(st, BT, "items", a[0], z3.Store(z3.Store(I, r, z3.BoolVal(False)), a[1], z3.BoolVal(True)))
    return ok(st, r) + p


def bt_iter(tag):
    def f(E, st, a, d):
        p = nn(E, st, a[0])
        t, fn = a[0], a[1]
        E.hook(st, "tree", BT, t, False)

        def args(s):
            I = items(E, s, t)
            E.hook(s, "tree", BT, t, False)
            x = E.th.fresh("btx", E.th.ANY)
            s.assume(z3.Select(I, x))
            s.assume(x != E.th.anynil)
            return [x]
        E.event(st, (tag, t))
        return E.iterate(st, fn, d["sig"].params[-1].u(), args, d, tag) + p
    return f


MODELS["(*github.com/google/btree.BTree).Ascend"] = bt_iter("ascend")
MODELS["(*github.com/google/btree.BTree).Descend"] = bt_iter("descend")


# ------------------------------------------------------------------ sort
def purefn(E, st, f, args, sig, d, cond, want):
    """st learns that f(args) returns want if cond; returns the panics (f must have no effects)"""
    s = st.copy()
    s.assume(cond)
    if E.query(s.pc) == z3.unsat:
        return []
    n, h0, e0 = len(s.pc), dict(s.heap), len(s.ev)
    res, alts = [], []
    for k, s2, v in E.call_fv(s, f, args, sig, d):
        if k != "ok":
            res.append((k, s2, v))
            continue
        if any(nm in s2.heap and not z3.eq(s2.heap[nm], h) for nm, h in h0.items()) or any(e[0] in ("lock", "unlock", "go", "sm") for e in s2.ev[e0:]):
            raise Unsupported("function given to sort has effects")
        alts.append(z3.And(*(s2.pc[n:] + [v == want])))
    st.assume(z3.Implies(cond, z3.Or(*alts) if alts else z3.BoolVal(False)))
    return res


@model("sort.Search")
def sort_search(E, st, a, d):
    """binary search: the result separates a false from a true, for any f without effects"""
    n, f = a
    I = E.prog.basic("int")
    sig = d["sig"].params[-1].u()
    i = E.fresh_value(st, I, "si")
    ps = purefn(E, st.copy(), f, [i], sig, d, z3.And(i >= E.th.num(0, I), i < n), E.th.fresh("sany", z3.BoolSort()))
    r = E.fresh_value(st, I, "search")
    z = E.th.num(0, I)
    st.assume(z3.And(r >= z, z3.Or(r <= n, r == z)))
    T = z3.BoolVal(True)
    purefn(E, st, f, [r], sig, d, r < n, T)
    purefn(E, st, f, [r - E.th.num(1, I)], sig, d, r > z, z3.BoolVal(False))
    return ok(st, r) + ps


def permuted(E, st, T, v):
    """the elements of the slice in some other order"""
    eT = T.u().e
    th = E.th
    E.hook(st, "elem", eT.s, v.b, True)
    nm = th.nfresh = th.nfresh + 1
    p = z3.Function("perm!%d" % nm, th.IDX, th.IDX)
    q = z3.Function("mrep!%d" % nm, th.IDX, th.IDX)
    x = z3.Const("px", th.IDX)
    inr = lambda t: z3.And(t >= v.o, t < v.o + v.l)
    for (sfx, so, rk) in th.comps(eT):
        hn = "E|%s|%s" % (eT.s, sfx)
        sort = z3.ArraySort(z3.IntSort(), z3.ArraySort(th.IDX, so))
        h = E.hget(st, hn, sort, E.rkof(eT, sfx, rk, so))
        old = z3.Select(h, v.b)
        new = th.fresh("sorted", z3.ArraySort(th.IDX, so))
        E.hput(st, hn, z3.Store(h, v.b, new), v.b)
        st.assume(z3.ForAll([x], z3.Implies(z3.Not(inr(x)), new[x] == old[x]), patterns=[new[x]]))
        N, O = (lambda t: new[th.ix(v.o, t)]), (lambda t: old[th.ix(v.o, t)])
        inl = lambda t: z3.And(t >= th.iv(0), t < v.l)
        st.assume(z3.ForAll([x], z3.Implies(inl(x), z3.And(inl(p(x)), N(x) == O(p(x)), q(p(x)) == x)), patterns=[N(x)]))
        st.assume(z3.ForAll([x], z3.Implies(inl(x), z3.And(inl(q(x)), N(q(x)) == O(x), p(q(x)) == x)), patterns=[O(x)]))


@model("sort.Slice", "sort.SliceStable")
def sort_slice(E, st, a, d):
    """a permutation of the slice in which no element is less than an earlier one"""
    x, f = a
    dy = E.dyn(st, x)
    if dy is None or dy[0].u().k != "slice":
        raise Unsupported("sort.Slice of unknown type")
    T, v = dy
    I = E.prog.basic("int")
    sig = d["sig"].params[-1].u()
    permuted(E, st, T, v)
    th = E.th
    zero = th.num(0, I)
    s = st.copy()
    i, j, k = [E.fresh_value(s, I, "so" + c) for c in "ijk"]
    inr = lambda t: z3.And(t >= zero, t < v.l)
    s.assume(z3.And(inr(i), inr(j), inr(k)))

    def less(p, q):
        s2 = s.copy()
        n, outs = len(s2.pc), []
        h0 = dict(s2.heap)
        for kk, s3, r in E.call_fv(s2, f, [p, q], sig, d):
            if kk != "ok":
                bad.append((kk, s3, r))
                continue
            if any(nm in s3.heap and not z3.eq(s3.heap[nm], h) for nm, h in h0.items()):
                raise Unsupported("function given to sort has effects")
            outs.append((s3.pc[n:], r))
        if len(outs) != 1:
            raise Unsupported("branching comparison")
        for c in outs[0][0]:
            s.assume(c)
        return outs[0][1]
    bad = []
    L = {(p, q): less(p, q) for p in (i, j, k) for q in (i, j, k)}
    E.oblige("library: the comparison given to sort is a strict weak order", s, z3.And(
        z3.Not(z3.And(L[i, j], L[j, i])), z3.Implies(z3.And(L[i, j], L[j, k]), L[i, k]), z3.Implies(L[i, k], z3.Or(L[i, j], L[j, k]))), kind="library")
    a_, b_ = z3.Const("sa", th.IDX), z3.Const("sb", th.IDX)
    body = z3.substitute(L[j, i], (i, a_), (j, b_))
    st.assume(z3.ForAll([a_, b_], z3.Implies(z3.And(a_ >= zero, a_ < b_, b_ < v.l), z3.Not(body))))
    return ok(st) + bad
