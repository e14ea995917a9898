"""Verification-condition generator: symbolic execution of go/ssa with contracts."""
import time
import z3
from .ssaload import INTS
from .theory import (Th, SliceV, StructV, ArrayV, Closure, Loc, TupleV, IterV, Unsupported, is_num, LENMAX)

MOD = "github.com/donnie4w/gofer"
INLINE_EXTERNAL = ("github.com/golang/groupcache/lru",)

# ghost state of library types: type -> {ghost: (sort builder, default builder)}
GHOSTS = {}
PLAIN = {"net/http.Client", "time.Time"}  # library structs treated field by field
COPYABLE = {"bytes.Buffer", "hash/maphash.Seed", "sync.Pool"}


def ghost(T, name, sort, default, ref=None):
    GHOSTS.setdefault(T, {})[name] = (sort, default, ref)


class State:
    __slots__ = ("heap", "pc", "next", "defers", "pan", "ev", "epoch", "facts", "locks", "unesc")

    def __init__(self):
        self.heap = {}
        self.pc = []
        self.next = None
        self.defers = {}
        self.pan = {}
        self.ev = ()
        self.epoch = 0
        self.facts = set()
        self.locks = {}
        self.unesc = {}

    def copy(self):
        s = State()
        s.heap = dict(self.heap)
        s.pc = list(self.pc)
        s.next = self.next
        s.defers = dict(self.defers)
        s.pan = dict(self.pan)
        s.ev = self.ev
        s.epoch = self.epoch
        s.facts = set(self.facts)
        s.locks = dict(self.locks)
        s.unesc = dict(self.unesc)
        return s

    def assume(self, f):
        if f is None or z3.is_true(f):
            return
        k = f.get_id()
        if k in self.facts:
            return
        self.facts.add(k)
        self.pc.append(f)


class Frame:
    __slots__ = ("fn", "env", "fid", "deferred_by", "depth", "loopctx")

    def __init__(self, fn, env, fid, deferred_by, depth):
        self.fn, self.env, self.fid, self.deferred_by, self.depth = fn, env, fid, deferred_by, depth


class LoopCtx:
    def __init__(self, header, body):
        self.header, self.body = header, body
        self.backs = []
        self.exits = []
        self.undecided = False
        self.decide = False


class Obl:
    __slots__ = ("name", "pc", "goal", "line", "status", "time", "backend", "detail", "kind")

    def __init__(self, name, pc, goal, line=None, kind="ensures"):
        self.name, self.pc, self.goal, self.line, self.kind = name, pc, goal, line, kind
        self.status = None
        self.time = 0.0
        self.backend = None
        self.detail = ""


NOESCAPE = {"IndexAddr", "Slice", "Convert", "BinOp", "UnOp", "DebugRef", "Extract", "FieldAddr", "Alloc", "Jump", "If"}


def lowref(e):
    return z3.is_int_value(e) and e.as_long() < 2000


def allocref(e):
    """reference obtained from the allocator (always > 2000)"""
    if z3.is_const(e):
        return e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.decl().name().startswith("next!")
    return z3.is_add(e) and e.num_args() == 2 and z3.is_int_value(e.arg(0)) and e.arg(0).as_long() >= 0 and allocref(e.arg(1))


def mentions(v, ref):
    """does a register value hold reference `ref`?"""
    if isinstance(v, SliceV):
        return z3.eq(v.b, ref)
    if isinstance(v, Loc):
        return z3.eq(v.ref, ref)
    if isinstance(v, (StructV, ArrayV)):
        return any(mentions(x, ref) for x in (v.f if isinstance(v, StructV) else v.a).values())
    if isinstance(v, TupleV):
        return any(mentions(x, ref) for x in v.v)
    if isinstance(v, Closure):
        return any(mentions(x, ref) for x in v.binds)
    if isinstance(v, IterV):
        return False
    if z3.is_expr(v):
        seen, stk = set(), [v]
        while stk:
            e = stk.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            if z3.eq(e, ref):
                return True
            if z3.is_app(e) and e.decl().kind() in (z3.Z3_OP_SELECT, z3.Z3_OP_STORE):
                continue  # read from memory: a reference stored there has already escaped
            stk.extend(e.children())
        return False
    return v is not None and not isinstance(v, (dict, str, int))


class NeedInv(Exception):
    pass


class Budget(Exception):
    pass


class Engine:
    onlock = onunlock = None
    protos = ()

    def __init__(self, prog, mode="int", budget=240):
        self.prog = prog
        self.th = Th(mode)
        self.th.prog = prog
        self.consts = {}
        self.obls = []
        self.record = True
        self.clos = {}
        self.clonum = {}
        self.nfid = 0
        self.wlog = None
        self.models = {}
        self.imodels = {}
        self.contracts = {}
        self.guards = []
        self.atomics = set()
        self.cands = []
        self.unroll = 0
        self.target = ""
        self.prop = ""
        self.stack = []
        self.trusted = set()
        self.inlined = set()
        self.modular = set()
        self.globrefs = {}
        self.deadline = time.time() + budget
        self.qtime = 0.0
        self.nq = 0
        self.hq, self.hqkeep = {}, []
        self.nloops = 0
        self.accesshook = None
        self.eventhook = None
        self.libtag = {}
        self.paths = 0
        self.recdefs = {}
        self.tables = {}
        self.line = 0
        self.inlog = []
        self.current = None
        self.compinfo = {}
        self.cloenv = {}
        self.prog_tables = {}
        self.keycache = {}
        self.invlog = []
        self.invrefs = {}
        self.extmemo = {}
        self.tablearr = {}
        self.lockfree = False
        self.divs = {}

    # ------------------------------------------------------------ solver
    def solver(self, to):
        s = z3.SimpleSolver()
        s.set("auto_config", False)
        s.set("smt.mbqi", self.mbqi)
        self.limits(s, to)
        return s

    mbqi = False

    RL = 4000    # z3 resource units per nominal millisecond: bounds do not depend on the machine's speed
    scale = 1

    def limits(self, s, to):
        to = to * self.scale
        s.set("rlimit", int(to * self.RL))
        s.set("timeout", int(to * 6))

    def has_quant(self, a):
        k = a.get_id()
        r = self.hq.get(k)
        if r is None:
            if z3.is_quantifier(a):
                r = True
            else:
                r = any(self.has_quant(c) for c in a.children())
            self.hq[k] = r
            self.hqkeep.append(a)
        return r

    def query(self, pc, extra=(), to=400):
        if time.time() > self.deadline:
            raise Budget("time budget exhausted")
        t0 = time.time()
        ground = [a for a in pc if not self.has_quant(a)]
        if len(ground) + 2 < len(pc):
            s = self.solver(min(to, 200))
            for a in self.th.axioms + ground + list(extra):
                s.add(a)
            self.nq += 1
            if s.check() == z3.unsat:
                self.qtime += time.time() - t0
                return z3.unsat
        s = self.solver(to)
        for a in self.th.axioms:
            s.add(a)
        for a in pc:
            s.add(a)
        for a in extra:
            s.add(a)
        r = s.check()
        self.nq += 1
        self.qtime += time.time() - t0
        return r

    def feasible(self, st, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.groundfeas:
            return self.query([a for a in st.pc if not self.has_quant(a)], [c]) != z3.unsat
        return self.query(st.pc, [c]) != z3.unsat

    groundfeas = False
    appendboth = False

    def implies(self, st, c, to=600):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return self.query(st.pc, [z3.Not(c)], to) == z3.unsat

    def oblige(self, name, st, goal, line=None, kind="safety"):
        if not self.record:
            return
        self.obls.append(Obl(name, list(st.pc), goal, line or self.line, kind))

    # ------------------------------------------------------------ closures
    def cloid(self, c):
        if c.cid is not None:
            return z3.IntVal(c.cid)
        if not c.binds and c.native is None:
            k = (c.fn, tuple(t.s for t in c.targs))
            n = self.clonum.get(k)
            if n is None:
                n = 1000000 + len(self.clos)
                self.clonum[k] = n
                self.clos[n] = c
            c.cid = n
            return z3.IntVal(n)
        n = 1000000 + len(self.clos)
        self.clos[n] = c
        c.cid = n
        return z3.IntVal(n)

    def unclo(self, e):
        if z3.is_expr(e):
            e2 = z3.simplify(e)
            if z3.is_int_value(e2) and e2.as_long() in self.clos:
                return self.clos[e2.as_long()]
        return e

    def locref(self, l):
        """reference number for an interior pointer that escapes into memory"""
        if l.kind == "field":
            return self.th.subref("loc|" + l.sT.s + "." + l.x)(l.ref)
        if l.kind == "elem":
            return self.th.elemref("loc|" + l.T.s)(l.ref, l.x)
        raise Unsupported("escaping interior pointer")

    # ------------------------------------------------------------ heap
    def hconst(self, name, sort, rk, bound, T=None):
        key = name
        c = self.consts.get(key)
        if c is not None:
            return c
        c = z3.Const(name, sort)
        self.consts[key] = c
        self.heap_axioms(c, rk, bound, T)
        return c

    def heap_axioms(self, c, rk, bound, T=None):
        """well-formedness of an unconstrained heap component"""
        th = self.th
        vs = []
        e = c
        s = c.sort()
        while isinstance(s, z3.ArraySortRef):
            v = z3.Const("q%d" % len(vs), s.domain())
            vs.append(v)
            e = z3.Select(e, v)
            s = s.range()
        f = None
        if rk in ("r", "Ar"):
            f = z3.And(th.own(e) >= 0, th.own(e) < bound)
        elif rk in ("a", "Aa"):
            f = th.aown(e) < bound
        elif isinstance(rk, tuple) and rk[0] == "int":
            f = th.irange(e, rk[1])
        elif rk == "len":
            f = z3.And(e >= th.iv(0), e <= th.iv(LENMAX))
        elif rk == "own":
            f = z3.And(th.own(e) >= 0, th.own(e) < bound)
        if f is not None and vs:
            th.axioms.append(z3.ForAll(vs, f, patterns=[e]))

    def csort(self, name):
        """(sort, refkind) of heap component `name`"""
        return self.compinfo[name]

    def hget(self, st, name, sort, rk=None):
        self.compinfo[name] = (sort, rk)
        h = st.heap.get(name)
        if h is None:
            h = self.hconst("H%d!%s" % (st.epoch, name), sort, rk, self.epochnext[st.epoch])
            st.heap[name] = h
        return h

    def hput(self, st, name, val, ref=None):
        if self.wlog is not None:
            self.wlog.append((name, ref))
        st.heap[name] = val

    def sel(self, a, i):
        while z3.is_store(a):
            j = a.arg(1)
            if z3.eq(i, j):
                return a.arg(2)
            if self.th.isix(i) and self.th.isix(j) and z3.eq(i.arg(0), j.arg(0)):
                i1, j1 = i.arg(1), j.arg(1)
            else:
                i1, j1 = i, j
            d = z3.simplify(i1 == j1)
            if z3.is_true(d):
                return a.arg(2)
            if z3.is_false(d) or (lowref(i) and allocref(j)) or (lowref(j) and allocref(i)):
                a = a.arg(0)
                continue
            break
        if z3.is_K(a):
            return a.arg(0)
        return z3.Select(a, i)

    def compname(self, kind, T, sfx=""):
        return "%s|%s|%s" % (kind, T if isinstance(T, str) else T.s, sfx)

    def rkof(self, T, sfx, rk, sort):
        if rk is None and z3.IntSort() == sort:
            # machine integers and slice lengths held in Int components
            u = T.u()
            if sfx in (".o", ".l", ".c") or sfx.endswith((".o", ".l", ".c")) and u.k == "slice":
                return "len"
            if self.th.isint(T):
                return ("int", T.u())
        return rk

    def load_comps(self, st, prefix, T, idxs, note=True):
        """read all components of a T stored under prefix (name,) indexed by idxs"""
        out = []
        for sfx, so, rk in self.th.comps(T):
            sort = so
            for ix in reversed(idxs):
                sort = z3.ArraySort(ix.sort(), sort)
            a = self.hget(st, prefix + sfx, sort, self.rkof(T, sfx, rk, so))
            for ix in idxs:
                a = self.sel(a, ix)
            out.append(a)
        return out

    def store_comps(self, st, prefix, T, idxs, vals):
        for (sfx, so, rk), v in zip(self.th.comps(T), vals):
            sort = so
            for ix in reversed(idxs):
                sort = z3.ArraySort(ix.sort(), sort)
            a = self.hget(st, prefix + sfx, sort, self.rkof(T, sfx, rk, so))
            if len(idxs) == 1:
                n = z3.Store(a, idxs[0], v)
            else:
                n = z3.Store(a, idxs[0], z3.Store(self.sel(a, idxs[0]), idxs[1], v))
            self.hput(st, prefix + sfx, n, idxs[0])

    def opaque(self, T):
        """library struct: only ghost state"""
        t = T
        if t.k != "named" or t.u().k != "struct":
            return False
        if t.name.startswith(MOD) or t.name in PLAIN:
            return False
        for p in INLINE_EXTERNAL:
            if t.name.startswith(p):
                return False
        return True

    def facts_for(self, st, T, v):
        """type invariants of a value just read or havocked"""
        th = self.th
        u = T.u()
        if u.k == "basic":
            if th.isint(u) and z3.is_expr(v) and not is_num(v):
                st.assume(th.irange(v, u))
            elif th.isstr(u) and not z3.eq(v, th.snil):
                st.assume(z3.And(th.slen(v) >= th.iv(0), th.slen(v) <= th.iv(LENMAX)))
        elif u.k in ("ptr", "map", "chan"):
            if z3.is_expr(v) and not is_num(v):
                st.assume(z3.And(th.own(v) >= 0, th.own(v) < st.next))
        elif u.k == "iface":
            if z3.is_expr(v) and not (z3.is_app(v) and v.decl().name().startswith("box|")):
                st.assume(th.aown(v) < st.next)
        elif u.k == "slice":
            if not (is_num(v.l) and is_num(v.c)):
                st.assume(z3.And(th.iv(0) <= v.o, th.iv(0) <= v.l, v.l <= v.c, v.c <= th.iv(LENMAX), v.o <= th.iv(LENMAX)))
            if not is_num(v.b):
                st.assume(z3.And(th.own(v.b) >= 0, th.own(v.b) < st.next))
                st.assume(z3.Implies(v.b == 0, z3.And(v.c == th.iv(0), v.l == th.iv(0))))
        elif u.k == "struct":
            for n, t in u.fields:
                if not self.opaque(t):
                    self.facts_for(st, t, v.f[n])

    def fresh_value(self, st, T, name):
        th = self.th
        if self.opaque(T):
            raise Unsupported("opaque value " + T.s)
        cs = [th.fresh(name + s, so) for s, so, rk in th.comps(T)]
        v = th.unflat(cs, T, self)
        self.facts_for(st, T, v)
        return v

    def field_addr(self, st, ref, sT, i):
        """address of field i of struct object sT at ref"""
        n, ft = sT.u().fields[i]
        if ft.u().k in ("struct", "array"):
            return self.th.subref(sT.s + "." + n)(ref), ft
        return Loc("field", ref, ft, n, sT), ft

    def hook(self, st, kind, name, ref, write):
        if self.accesshook is not None and self.record:
            self.accesshook(self, st, kind, name, ref, write)

    def load(self, st, T, addr):
        if isinstance(addr, Loc):
            if addr.kind == "field":
                self.hook(st, "field", addr.sT.name + "." + addr.x, addr.ref, False)
                cs = self.load_comps(st, "F|%s|%s|" % (addr.sT.s, addr.x), T, [addr.ref])
            elif addr.kind == "elem":
                self.hook(st, "elem", T.s, addr.ref, False)
                cs = self.load_comps(st, "E|%s|" % T.s, T, [addr.ref, addr.x])
            else:
                raise Unsupported("load " + addr.kind)
        else:
            u = T.u()
            if u.k == "struct":
                if self.opaque(T):
                    if T.name == "sync.Pool":
                        nT = dict(u.fields)["New"]
                        return StructV(T, {"New": self.load(st, nT, Loc("field", addr, nT, "New", T))})
                    if T.name in COPYABLE:
                        return StructV(T, {g: self.gget(st, T.name, g, addr) for g in GHOSTS.get(T.name, {})})
                    if not u.fields:
                        return StructV(T, {})
                    raise Unsupported("copy of " + T.s)
                f = {}
                for i, (n, ft) in enumerate(u.fields):
                    a, _ = self.field_addr(st, addr, T, i)
                    f[n] = self.load(st, ft, a)
                return StructV(T, f)
            if u.k == "array":
                if u.e.u().k in ("struct", "array"):
                    raise Unsupported("array of structs as value")
                return ArrayV(T, {s: c for (s, _, _), c in zip(self.th.comps(u.e), self.load_arr(st, u.e, addr))})
            self.hook(st, "cell", T.s, addr, False)
            cs = self.load_comps(st, "C|%s|" % T.u().s, T, [addr])
        v = self.th.unflat(cs, T, self)
        if not isinstance(v, Closure):
            self.facts_for(st, T, v)
        return v

    def load_arr(self, st, eT, ref):
        out = []
        for sfx, so, rk in self.th.comps(eT):
            sort = z3.ArraySort(z3.IntSort(), z3.ArraySort(self.th.IDX, so))
            a = self.hget(st, "E|%s|%s" % (eT.s, sfx), sort, self.rkof(eT, sfx, rk, so))
            out.append(self.sel(a, ref))
        return out

    def store_arr(self, st, eT, ref, arrs):
        for (sfx, so, rk), v in zip(self.th.comps(eT), arrs):
            sort = z3.ArraySort(z3.IntSort(), z3.ArraySort(self.th.IDX, so))
            a = self.hget(st, "E|%s|%s" % (eT.s, sfx), sort, self.rkof(eT, sfx, rk, so))
            self.hput(st, "E|%s|%s" % (eT.s, sfx), z3.Store(a, ref, v), ref)

    def store(self, st, T, addr, v):
        if isinstance(addr, Loc):
            vals = self.th.flat(v, T, self)
            if addr.kind == "field":
                self.hook(st, "field", addr.sT.name + "." + addr.x, addr.ref, True)
                self.store_comps(st, "F|%s|%s|" % (addr.sT.s, addr.x), T, [addr.ref], vals)
            elif addr.kind == "elem":
                self.hook(st, "elem", T.s, addr.ref, True)
                self.store_comps(st, "E|%s|" % T.s, T, [addr.ref, addr.x], vals)
            else:
                raise Unsupported("store " + addr.kind)
            return
        u = T.u()
        if u.k == "struct":
            if self.opaque(T):
                if T.name == "sync.Pool":
                    nT = dict(u.fields)["New"]
                    self.store(st, nT, Loc("field", addr, nT, "New", T), v.f["New"] if v is not None else z3.IntVal(0))
                    return
                if v is not None and T.name in COPYABLE:
                    for g, x in v.f.items():
                        self.gset(st, T.name, g, addr, x)
                    return
                self.zero_ghost(st, T, addr)
                return
            for i, (n, ft) in enumerate(u.fields):
                a, _ = self.field_addr(st, addr, T, i)
                self.store(st, ft, a, v.f[n] if v is not None else None)
            return
        if u.k == "array":
            if v is None:
                if u.e.u().k in ("struct", "array"):
                    return
                v = self.th.zero(T, self)
            self.store_arr(st, u.e, addr, [v.a[s] for s, _, _ in self.th.comps(u.e)])
            return
        self.hook(st, "cell", T.s, addr, True)
        self.store_comps(st, "C|%s|" % T.u().s, T, [addr], self.th.flat(v, T, self))

    def zero_ghost(self, st, T, ref):
        for g, (so, dv, rk) in GHOSTS.get(T.name, {}).items():
            self.gset(st, T.name, g, ref, dv(self, T))

    def ghostsort(self, tn, g):
        return GHOSTS[tn][g][0](self)

    def gget(self, st, tn, g, ref):
        so = self.ghostsort(tn, g)
        a = self.hget(st, "G|%s|%s" % (tn, g), z3.ArraySort(z3.IntSort(), so), GHOSTS[tn][g][2])
        return self.sel(a, ref)

    def garr(self, st, tn, g):
        so = self.ghostsort(tn, g)
        return self.hget(st, "G|%s|%s" % (tn, g), z3.ArraySort(z3.IntSort(), so), GHOSTS[tn][g][2])

    def gset(self, st, tn, g, ref, v):
        a = self.garr(st, tn, g)
        self.hput(st, "G|%s|%s" % (tn, g), z3.Store(a, ref, v), ref)

    def zero_init(self, st, T, addr):
        u = T.u()
        if u.k == "struct":
            if self.opaque(T):
                self.zero_ghost(st, T, addr)
                if T.name.startswith("sync/atomic."):
                    for n, ft in u.fields:
                        if n == "v" and ft.u().k == "basic":
                            self.store_comps(st, "F|%s|v|" % T.s, ft, [addr], self.th.zerocomp(ft))
                if T.name == "sync.Pool":
                    self.store(st, u.fields[[n for n, _ in u.fields].index("New")][1], Loc("field", addr, u.fields[[n for n, _ in u.fields].index("New")][1], "New", T), z3.IntVal(0))
                return
            for i, (n, ft) in enumerate(u.fields):
                a, _ = self.field_addr(st, addr, T, i)
                self.zero_init(st, ft, a)
            return
        if u.k == "array":
            if u.e.u().k in ("struct", "array"):
                return
            self.store_arr(st, u.e, addr, self.th.zerocomp(u.e) and [z3.K(self.th.IDX, z) for z in self.th.zerocomp(u.e)])
            return
        sh = self.accesshook
        self.accesshook = None
        self.store(st, T, addr, self.th.zero(T, self))
        self.accesshook = sh

    def alloc(self, st):
        r = st.next
        st.next = z3.simplify(r + 1)
        st.assume(r > 0)
        return r

    def new_object(self, st, T):
        r = self.alloc(st)
        sh = self.accesshook
        self.accesshook = None
        self.zero_init(st, T, r)
        self.accesshook = sh
        return r

    def init_state(self):
        st = State()
        n0 = z3.Int("next!0")
        self.epochnext = {0: n0}
        st.next = n0
        st.assume(n0 > 2000)
        return st

    def havoc_all(self, st):
        e = self.th.nfresh + 1
        self.th.nfresh += 1
        n = self.th.fresh("next", z3.IntSort())
        st.assume(n >= st.next)
        st.next = n
        st.epoch = e
        self.epochnext[e] = n
        keep = {k: v for k, v in st.heap.items() if k.startswith("G|ext")}
        if self.wlog is not None:
            for k in st.heap:
                self.wlog.append((k, None))
        st.heap = keep

    # ------------------------------------------------------------ maps
    def mapkey(self, mT, v):
        """key value -> single z3 term"""
        kT = mT.u().key
        cs = self.th.flat(v, kT, self)
        if len(cs) == 1:
            return cs[0]
        return self.mkiface(kT, v)

    def mapksort(self, mT):
        cs = self.th.comps(mT.u().key)
        return cs[0][1] if len(cs) == 1 else self.th.ANY

    def mapdom(self, st, mT, m):
        ks = self.mapksort(mT)
        a = self.hget(st, "MD|%s" % mT.u().s, z3.ArraySort(z3.IntSort(), z3.ArraySort(ks, z3.BoolSort())))
        return self.sel(a, m)

    def mapcard(self, st, mT, m):
        a = self.hget(st, "MC|%s" % mT.u().s, z3.ArraySort(z3.IntSort(), z3.IntSort()))
        return self.sel(a, m)

    def mapval(self, st, mT, m, k):
        eT = mT.u().e
        out = []
        for sfx, so, rk in self.th.comps(eT):
            sort = z3.ArraySort(z3.IntSort(), z3.ArraySort(k.sort(), so))
            a = self.hget(st, "MV|%s|%s" % (mT.u().s, sfx), sort, self.rkof(eT, sfx, rk, so))
            out.append(self.sel(self.sel(a, m), k))
        return self.th.unflat(out, eT, self)

    def mapput(self, st, mT, m, k, v):
        eT = mT.u().e
        for (sfx, so, rk), c in zip(self.th.comps(eT), self.th.flat(v, eT, self)):
            nm = "MV|%s|%s" % (mT.u().s, sfx)
            sort = z3.ArraySort(z3.IntSort(), z3.ArraySort(k.sort(), so))
            a = self.hget(st, nm, sort, self.rkof(eT, sfx, rk, so))
            self.hput(st, nm, z3.Store(a, m, z3.Store(self.sel(a, m), k, c)), m)
        d = self.mapdom(st, mT, m)
        c = self.mapcard(st, mT, m)
        self.mapsetcard(st, mT, m, z3.If(self.sel(d, k), c, c + 1))
        self.mapsetdom(st, mT, m, z3.Store(d, k, z3.BoolVal(True)))

    def mapdel(self, st, mT, m, k):
        d = self.mapdom(st, mT, m)
        c = self.mapcard(st, mT, m)
        self.mapsetcard(st, mT, m, z3.If(self.sel(d, k), c - 1, c))
        self.mapsetdom(st, mT, m, z3.Store(d, k, z3.BoolVal(False)))

    def mapsetdom(self, st, mT, m, d):
        nm = "MD|%s" % mT.u().s
        self.hput(st, nm, z3.Store(st.heap[nm], m, d), m)

    def mapsetcard(self, st, mT, m, c):
        nm = "MC|%s" % mT.u().s
        self.hput(st, nm, z3.Store(st.heap[nm], m, c), m)

    def mapfacts(self, st, mT, m):
        """card >= 0; card == 0 iff empty; nil map is empty"""
        d = self.mapdom(st, mT, m)
        c = self.mapcard(st, mT, m)
        self.setfacts(st, d, c)
        if not (is_num(m) and m.as_long() != 0):
            k = z3.Const("k", self.mapksort(mT))
            d0 = d
            if not z3.is_const(m):
                d = self.th.fresh("dom", d.sort())
                st.assume(d == d0)
            st.assume(z3.Implies(m == 0, z3.And(c == 0, z3.ForAll([k], z3.Not(z3.Select(d, k)), patterns=[z3.Select(d, k)]))))

    def setfacts(self, st, d, c):
        ks = d.sort().domain()
        k = z3.Const("k", ks)
        st.assume(c >= 0)
        st.assume(c <= LENMAX)
        sd = z3.Select(d, k)
        pats = [sd] if not z3.is_K(d) else None
        if z3.is_store(d) or z3.is_K(d):
            # name the set so that the membership pattern is a plain select
            nd = self.th.fresh("dom", d.sort())
            st.assume(nd == d)
            d = nd
            sd = z3.Select(d, k)
        st.assume(z3.ForAll([k], z3.Implies(sd, c > 0), patterns=[sd]))
        w = self.th.fresh("wit", ks)
        st.assume(z3.Implies(c > 0, z3.Select(d, w)))

    # ------------------------------------------------------------ interfaces
    def mkiface(self, T, v):
        if T.u().k == "iface":
            return v
        b = self.th.box(T)
        return b[0](*self.th.flat(v, T, self))

    def dyn(self, st, a):
        """syntactic dynamic type: (T, value) or None"""
        if z3.is_app(a) and a.decl().name().startswith("box|"):
            s = a.decl().name()[4:]
            T = self.prog.cache.get(s)
            if T is None:
                T = self.libtag.get(s)
            if T is not None:
                return T, self.th.unflat(list(a.children()), T, self)
        return None

    def libtype(self, name):
        T = self.libtag.get(name)
        if T is None:
            from .ssaload import T as TT
            T = TT("other", "lib:" + name)
            self.libtag["lib:" + name] = T
            self.libtag[name] = T
        return T

    def istype(self, a, T):
        """condition: dynamic type of a is T"""
        if T.u().k == "iface":
            if not T.u().methods:
                return a != self.th.anynil
            f = z3.Function("impl|" + T.s, z3.IntSort(), z3.BoolSort())
            return z3.And(a != self.th.anynil, f(self.th.tag(a)))
        b = self.th.box(T)
        if T.u().k == "tparam":
            return b[2](a)
        return self.th.tag(a) == self.th.tagid(T)

    def unbox(self, st, a, T):
        if T.u().k == "iface":
            return a
        d = self.dyn(st, a)
        if d is not None and d[0].s == T.s:
            return d[1]
        b = self.th.box(T)
        if not b[1]:
            return self.th.unflat([], T, self)
        v = self.th.unflat([u(a) for u in b[1]], T, self)
        return v

    # ------------------------------------------------------------ strings
    def bytes_T(self):
        return self.prog.basic("uint8")

    def bsof(self, st, sl):
        """byte-sequence value of a []byte slice"""
        th = self.th
        if z3.is_int_value(sl.b) and sl.b.as_long() == 0:
            return th.snil
        A = self.load_arr(st, self.bytes_T(), sl.b)[0]
        # reuse an existing sequence value when the array was produced from it
        if z3.is_app(A) and A.decl().name() == "arrof" and is_num(sl.o) and z3.simplify(sl.o == th.iv(0)) == True and z3.eq(z3.simplify(sl.l), z3.simplify(th.slen(A.arg(0)))):
            return A.arg(0)
        return th.mkseq(A, sl.o, sl.l)

    def bytes_from(self, st, s, extra_cap=False):
        """fresh []byte holding sequence s"""
        th = self.th
        r = self.alloc(st)
        self.store_arr(st, self.bytes_T(), r, [th.arrof(s)])
        n = th.slen(s)
        st.assume(z3.And(n >= th.iv(0), n <= th.iv(LENMAX)))
        c = n
        if extra_cap:
            c = th.fresh("cap", th.IDX)
            st.assume(z3.And(c >= n, c <= th.iv(LENMAX)))
        return SliceV(r, th.iv(0), n, c)

    # ------------------------------------------------------------ functions
    def tenv(self, fn, targs):
        return dict(zip(fn.tparams, targs))

    def rt(self, fr, tid):
        return self.prog.resolve(tid, fr.env)

    def call_fn(self, st, fn, targs, args, binds=(), deferred_by=None, depth=0):
        """inline body; returns [(kind, st, value)]"""
        if depth > 40:
            raise Unsupported("call depth")
        if sum(1 for x in self.stack if x is fn) > 3:
            raise Unsupported("recursion in " + fn.name)
        self.stack.append(fn)
        try:
            if fn.name.startswith(("(", MOD)) or True:
                self.inlined.add(fn.name)
            self.nfid += 1
            fr = Frame(fn, self.tenv(fn, targs), self.nfid, deferred_by, depth)
            regs = {}
            for p, a in zip(fn.params, args):
                regs["p$" + p["n"]] = a
            # blank or duplicate parameter names
            for p, a in zip(fn.freevars, binds):
                regs["f$" + p["n"]] = a
            st.defers[fr.fid] = ()
            return self.run(fr, [(regs, st, 0, 0, None)], None)
        finally:
            self.stack.pop()

    def run(self, fr, items, ctx):
        """worklist execution; ctx: LoopCtx or None. returns function outcomes"""
        out = []
        work = list(items)
        loops = fr.fn.loops()
        while work:
            if time.time() > self.deadline:
                raise Budget("time budget exhausted")
            regs, st, bi, ii, prev = work.pop()
            blk = fr.fn.blocks[bi]
            if ii == 0:
                if bi in loops and not (ctx is not None and ctx.header == bi and prev == "start"):
                    if ctx is not None and ctx.header == bi:
                        ctx.backs.append((regs, st, prev))
                        continue
                    o, ex = self.enter_loop(fr, regs, st, bi, prev)
                    out += o
                    for (r2, s2, b2, p2) in ex:
                        self.goto(fr, r2, s2, b2, p2, work, ctx)
                    continue
                if prev != "start":
                    ii = self.phis(fr, regs, st, blk, prev)
                    regs = ii[1]
                    ii = ii[0]
                else:
                    ii = self.skip_phis(blk)
            self.step(fr, regs, st, bi, ii, prev, work, out, ctx)
        return out

    def goto(self, fr, regs, st, b, prev, work, ctx):
        if ctx is not None and b != ctx.header and b not in ctx.body:
            ctx.exits.append((regs, st, b, prev))
        else:
            work.append((regs, st, b, 0, prev))

    def escape(self, fr, regs, st, ins, op):
        """drop from st.unesc every backing array that `ins` may store or pass on"""
        ops = []
        if op == "Store":
            ops = [ins["y"]]
        elif op == "Call" and ins.get("fn") and ins["fn"]["k"] == "builtin" and ins["fn"]["n"] in ("len", "cap", "append", "copy"):
            return
        else:
            stk = [ins]
            while stk:
                x = stk.pop()
                if isinstance(x, dict):
                    if x.get("k") == "reg":
                        ops.append(x)
                    else:
                        stk.extend(x.values())
                elif isinstance(x, list):
                    stk.extend(x)
        for o in ops:
            if o is None or o.get("k") != "reg":
                continue
            v = regs.get(o["n"])
            for i, (ref, fid) in list(st.unesc.items()):
                if mentions(v, ref):
                    del st.unesc[i]

    def sole(self, fr, st, s, regs_at):
        """s is the only live reference to its backing array, which this frame allocated"""
        e = st.unesc.get(s.b.get_id())
        if e is None or e[1] != fr.fid:
            return False
        regs, bi, ii = regs_at
        for r in fr.fn.live_after(bi, ii):
            if r in regs and mentions(regs[r], s.b):
                return False
        return True

    def skip_phis(self, blk):
        i = 0
        for ins in blk["instrs"] or []:
            if ins["op"] != "Phi":
                break
            i += 1
        return i

    def phis(self, fr, regs, st, blk, prev):
        i = 0
        new = {}
        for ins in blk["instrs"] or []:
            if ins["op"] != "Phi":
                break
            k = (blk["preds"] or []).index(prev)
            new[ins["r"]] = self.ev(fr, regs, st, ins["edges"][k])
            i += 1
        if new:
            regs = dict(regs)
            regs.update(new)
        return i, regs

    # ---- operands
    def const(self, fr, op):
        T = self.rt(fr, op["t"])
        th = self.th
        if op.get("zero"):
            if T.u().k == "tparam" or True:
                return th.zero(T, self)
        if op.get("isstr"):
            import base64
            return th.lit(base64.b64decode(op.get("str") or ""))
        if "f" in op or th.isfloat(T):
            v = op.get("f", op.get("v"))
            return self.fconst(v)
        v = op["v"]
        if isinstance(v, bool):
            return z3.BoolVal(v)
        if T.u().k == "tparam":
            raise Unsupported("constant of type parameter")
        return th.num(int(v), T)

    def fconst(self, v):
        if str(v) == "0":
            return z3.Const("f64zero", self.th.F64)
        return z3.Const("f64c|%s" % v, self.th.F64)

    def ev(self, fr, regs, st, op):
        if op is None:
            return None
        k = op["k"]
        if k == "reg":
            return regs[op["n"]]
        if k == "const":
            return self.const(fr, op)
        if k == "func":
            return Closure(op["n"], tuple(self.rt(fr, t) for t in (op.get("targs") or [])))
        if k == "global":
            return self.globref(op["n"])
        if k == "builtin":
            return op
        raise Unsupported("operand " + k)

    def globref(self, n):
        g = self.globrefs.get(n)
        if g is None:
            g = z3.IntVal(len(self.globrefs) + 1)
            self.globrefs[n] = g
        return g

    # ---- step through one block
    def step(self, fr, regs, st, bi, ii, prev, work, out, ctx):
        blk = fr.fn.blocks[bi]
        instrs = blk["instrs"] or []
        regs = dict(regs)
        n = len(instrs)
        while ii < n:
            ins = instrs[ii]
            self.line = ins.get("l", self.line)
            op = ins["op"]
            h = getattr(self, "i_" + op, None)
            if op == "Jump":
                self.goto(fr, regs, st, blk["succs"][0], bi, work, ctx)
                return
            if op == "If":
                c = self.ev(fr, regs, st, ins["x"])
                c = z3.simplify(c)
                tb, fb = blk["succs"]
                ft = self.feasible(st, c)
                ff = self.feasible(st, z3.Not(c)) if ft else True
                if ctx is not None and ctx.header == bi and ft and ff:
                    ctx.undecided = True
                    if ctx.decide:
                        raise NeedInv()
                if ft and ff:
                    s2 = st.copy()
                    s2.assume(z3.Not(c))
                    self.goto(fr, dict(regs), s2, fb, bi, work, ctx)
                    st.assume(c)
                    self.goto(fr, regs, st, tb, bi, work, ctx)
                elif ft:
                    st.assume(c)
                    self.goto(fr, regs, st, tb, bi, work, ctx)
                else:
                    st.assume(z3.Not(c))
                    self.goto(fr, regs, st, fb, bi, work, ctx)
                return
            if op == "Return":
                vals = [self.ev(fr, regs, st, a) for a in ins["args"]]
                out.append(("ret", st, vals))
                self.paths += 1
                if self.paths > 4000:
                    raise Budget("too many paths")
                return
            if op == "Panic":
                v = self.ev(fr, regs, st, ins["x"])
                self.do_panic(fr, regs, st, v, "explicit panic", work, out, ctx)
                return
            if h is None:
                raise Unsupported("instruction " + op)
            if st.unesc and op not in NOESCAPE:
                self.escape(fr, regs, st, ins, op)
            self.at = (regs, bi, ii)
            res = h(fr, regs, st, ins)
            if res is None:
                ii += 1
                continue
            # list of (kind, st, value)
            rest = []
            for kind, s2, v in res:
                if kind == "panic":
                    self.do_panic(fr, regs, s2, v[0], v[1], work, out, ctx)
                else:
                    rest.append((s2, v))
            if not rest:
                return
            r = ins.get("r")
            for s2, v in rest[1:]:
                rg = dict(regs)
                if r:
                    rg[r] = v
                # continue later at next instruction
                work.append((rg, s2, bi, ii + 1, prev))
            st, v = rest[0]
            if r:
                regs[r] = v
            ii += 1
        raise Unsupported("block without terminator")

    def do_panic(self, fr, regs, st, v, why, work, out, ctx):
        """unwind: run deferred calls, then recover block or propagate"""
        st.pan[fr.fid] = (v, why, self.line)
        for kind, s2, v2 in self.run_defers(fr, st):
            p = s2.pan.get(fr.fid)
            if kind == "panic":
                out.append(("panic", s2, v2))
            elif p is None:
                # recovered
                if fr.fn.recover is not None:
                    work.append((dict(regs), s2, fr.fn.recover, 0, None))
                else:
                    out.append(("ret", s2, [self.th.zero(self.rt(fr, r["t"]), self) for r in fr.fn.results]))
            else:
                out.append(("panic", s2, p))

    def run_defers(self, fr, st):
        """run all deferred calls of the frame (LIFO)."""
        states = [("ret", st, None)]
        final = []
        while states:
            kind, s, v = states.pop()
            ds = s.defers.get(fr.fid, ())
            if not ds:
                final.append((kind, s, v))
                continue
            d = ds[-1]
            s.defers[fr.fid] = ds[:-1]
            for k2, s2, v2 in self.exec_call(fr, s, d, deferred=True):
                if k2 == "panic":
                    # a new panic replaces the current one; keep running the remaining defers
                    s2.pan[fr.fid] = v2 if len(v2) == 3 else (v2[0], v2[1], self.line)
                    states.append(("ret", s2, None))
                else:
                    states.append(("ret", s2, None))
        return final

    def i_RunDefers(self, fr, regs, st, ins):
        res = []
        for kind, s2, v in self.run_defers(fr, st):
            p = s2.pan.get(fr.fid)
            if p is not None:
                res.append(("panic2", s2, p))
            else:
                res.append(("ok", s2, None))
        bad = [r for r in res if r[0] == "panic2"]
        good = [r for r in res if r[0] == "ok"]
        outl = []
        for _, s2, p in bad:
            s2.pan[fr.fid] = None
            outl.append(("panic", s2, p))
        return good + outl

    def i_DebugRef(self, fr, regs, st, ins):
        return None

    # ---- implicit panics
    def need(self, fr, st, ok, why):
        """returns list of panic outcomes; st continues assuming ok (or None when it cannot continue)"""
        ok = z3.simplify(ok)
        if z3.is_true(ok):
            return []
        if z3.is_false(ok):
            return [("panic", st, (self.rterr(why), why, self.line))]
        if self.implies(st, ok):
            st.assume(ok)
            return []
        s2 = st.copy()
        s2.assume(z3.Not(ok))
        res = [("panic", s2, (self.rterr(why), why, self.line))]
        st.assume(ok)
        return res

    def rterr(self, why):
        T = self.libtype("runtime.Error")
        b = self.th.box(T)
        return b[0](z3.IntVal(7))

    def guard(self, fr, st, ok, why, cont):
        """check ok, then continue with cont(st)->value"""
        okk = z3.simplify(ok)
        pans = self.need(fr, st, ok, why)
        if z3.is_false(okk):
            return pans
        v = cont(st)
        if isinstance(v, list):
            return v + pans
        return [("ok", st, v)] + pans

    # ---- instructions
    def i_Alloc(self, fr, regs, st, ins):
        T = self.rt(fr, ins["t"]).u().e
        regs[ins["r"]] = self.new_object(st, T)

    def i_Store(self, fr, regs, st, ins):
        a = self.ev(fr, regs, st, ins["x"])
        v = self.ev(fr, regs, st, ins["y"])
        T = self.rt(fr, ins["xt"]).u().e
        if isinstance(a, Loc):
            self.store(st, T, a, v)
            return None
        pans = self.need(fr, st, a != 0, "nil pointer dereference")
        self.store(st, T, a, v)
        return [("ok", st, None)] + pans if pans else None

    def i_UnOp(self, fr, regs, st, ins):
        x = self.ev(fr, regs, st, ins["x"])
        o = ins["o"]
        T = self.rt(fr, ins["t"])
        xt = self.rt(fr, ins["xt"])
        th = self.th
        if o == "*":
            eT = xt.u().e
            if isinstance(x, Loc):
                regs[ins["r"]] = self.load(st, eT, x)
                return None
            if is_num(x) and x.as_long() > 0 and x.as_long() < 2000:
                regs[ins["r"]] = self.load_global(st, x, eT, ins)
                return None
            pans = self.need(fr, st, x != 0, "nil pointer dereference")
            if pans and z3.is_false(z3.simplify(x != 0)):
                return pans
            v = self.load(st, eT, x)
            regs[ins["r"]] = v
            return [("ok", st, v)] + pans if pans else None
        if o == "!":
            regs[ins["r"]] = z3.simplify(z3.Not(x))
            return None
        if o == "-":
            if th.isfloat(T):
                regs[ins["r"]] = z3.Function("fneg", th.F64, th.F64)(x)
                return None
            regs[ins["r"]] = self.arith(st, "-", th.num(0, T), x, T, T)
            return None
        if o == "^":
            if th.is_bvint(T):
                regs[ins["r"]] = ~x
            else:
                w, s = th.intinfo(T)
                regs[ins["r"]] = (-1 - x) if s else ((1 << w) - 1 - x)
            return None
        if o == "<-":
            return self.chan_recv(fr, st, x, xt, ins.get("ok"))
        raise Unsupported("unop " + o)

    def load_global(self, st, ref, T, ins):
        n = [k for k, v in self.globrefs.items() if z3.eq(v, ref)][0]
        h = self.globhook.get(n) if self.globhook else None
        if h is not None:
            return h(self, st, T)
        tb = self.global_table(n)
        if tb is not None:
            # immutable byte table: reserved backing array
            b = self.tables.get(n)
            th = self.th
            if b is None:
                b = z3.IntVal(1000 + len(self.tables))
                self.tables[n] = b
                A = z3.Const("table|" + n, z3.ArraySort(th.IDX, th.BYTE))
                if self.tableground:
                    for i, x in enumerate(tb):
                        th.axioms.append(z3.Select(A, th.iv(i)) == th.bytec(x))
                self.tablearr = getattr(self, "tablearr", {})
                self.tablearr[n] = A
                if self.tablefact is not None:
                    self.tablefact(A, tb)
            A = self.tablearr[n]
            H = self.load_arr(st, self.bytes_T(), b)[0]
            st.assume(H == A)
            return SliceV(b, th.iv(0), th.iv(len(tb)), th.iv(len(tb)))
        return self.load(st, T, ref)

    globhook = None
    tablefact = None
    tableground = True

    def global_table(self, n):
        """constant []byte globals that no function writes (from the package initialiser)"""
        if n in self.prog_tables:
            return self.prog_tables[n]
        self.prog_tables[n] = None
        T = self.prog.resolve(self.prog.globals[n]) if n in self.prog.globals else None
        if T is None or T.u().k != "slice" and not (T.u().k == "ptr" and T.u().e.u().k == "slice"):
            return None
        pkg = n.rsplit(".", 1)[0]
        val = None
        for f in self.prog.funcs.values():
            cells = {}
            consts = {}
            for b in f.blocks:
                for ins in b["instrs"] or []:
                    op = ins["op"]
                    if op == "Store" and ins["x"].get("k") == "global" and ins["x"]["n"] == n:
                        if f.name != pkg + ".init":
                            return None
                        src = ins["y"]
                        val = self._const_bytes(f, src.get("n"))
        self.prog_tables[n] = val
        return val

    def _const_bytes(self, f, reg):
        import base64
        defs = {}
        uses = []
        for b in f.blocks:
            for ins in b["instrs"] or []:
                if "r" in ins:
                    defs[ins["r"]] = ins
                uses.append(ins)
        d = defs.get(reg)
        if d is None:
            return None
        if d["op"] == "Convert" and d["x"].get("isstr"):
            return list(base64.b64decode(d["x"].get("str") or ""))
        if d["op"] == "Slice" and d.get("lo") is None and d.get("hi") is None:
            a = d["x"]["n"]
            al = defs[a]
            T = self.prog.resolve(al["t"]).u().e
            out = [0] * T.u().n
            for ins in uses:
                if ins["op"] == "Store" and ins["x"].get("n") in defs:
                    ia = defs[ins["x"]["n"]]
                    if ia["op"] == "IndexAddr" and ia["x"].get("n") == a:
                        if ia["y"]["k"] != "const" or ins["y"]["k"] != "const":
                            return None
                        out[int(ia["y"]["v"])] = int(ins["y"].get("v", 0)) & 255
            return out
        return None

    # arithmetic ---------------------------------------------------
    def wrap(self, st, s, T, op=None):
        th = self.th
        w, sg = th.intinfo(T)
        s = z3.simplify(s)
        if z3.is_int_value(s):
            return th.num(s.as_long(), T)
        lo = -(1 << (w - 1)) if sg else 0
        hi = (1 << (w - 1)) if sg else (1 << w)
        inr = z3.And(s >= lo, s < hi)
        if self.implies(st, inr, 300):
            return s
        M = 1 << w
        if op in ("+", "-"):
            return z3.If(s < lo, s + M, z3.If(s >= hi, s - M, s))
        if sg:
            return (s + (M >> 1)) % M - (M >> 1)
        return s % M

    def arith(self, st, o, x, y, T, yT):
        th = self.th
        w, sg = th.intinfo(T)
        if th.is_bvint(T):
            if o in ("<<", ">>"):
                y = self.conv_int(st, y, yT, T, shift=True)
                if o == "<<":
                    return z3.simplify(x << y)
                return z3.simplify((x >> y) if sg else z3.LShR(x, y))
            r = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "&": lambda: x & y, "|": lambda: x | y,
                 "^": lambda: x ^ y, "&^": lambda: x & ~y,
                 "/": lambda: (x / y) if sg else z3.UDiv(x, y), "%": lambda: z3.SRem(x, y) if sg else z3.URem(x, y)}[o]()
            return z3.simplify(r)
        if o in ("+", "-", "*"):
            s = x + y if o == "+" else x - y if o == "-" else x * y
            return self.wrap(st, s, T, o)
        if o in ("/", "%"):
            if sg and not self.implies(st, z3.And(x >= 0, y > 0), 300):
                ax = z3.If(x >= 0, x, -x)
                ay = z3.If(y >= 0, y, -y)
                q = ax / ay
                q = z3.If((x >= 0) == (y > 0), q, -q)
                if o == "/":
                    return self.wrap(st, q, T)
                return x - q * y
            xs, ys = z3.simplify(x), z3.simplify(y)
            if z3.is_int_value(ys) and ys.as_long() > 0 and not z3.is_int_value(xs):
                # name quotient and remainder: x == y*q + r
                k = (xs.get_id(), ys.as_long())
                if k not in self.divs:
                    q, r = th.fresh("quo", z3.IntSort()), th.fresh("rem", z3.IntSort())
                    th.axioms.append(z3.And(xs == ys * q + r, r >= 0, r < ys))
                    self.divs[k] = (q, r, xs)
                q, r, _ = self.divs[k]
                return q if o == "/" else r
            return z3.simplify(x / y) if o == "/" else z3.simplify(x % y)
        if o in ("<<", ">>") and z3.is_int_value(z3.simplify(y)):
            n = z3.simplify(y).as_long()
            if o == "<<":
                if n >= w:
                    return th.num(0, T)
                return self.wrap(st, x * (1 << n), T, "*")
            return z3.simplify(x / (1 << n))
        if is_num(x) and is_num(y):
            a, b = x.as_long(), y.as_long()
            v = {"&": a & b, "|": a | b, "^": a ^ b, "&^": a & ~b, "<<": a << b if b < 200 else 0, ">>": a >> b if b < 200 else (-1 if a < 0 else 0)}[o]
            return th.num(v, T)
        if o == "<<" and is_num(x) and x.as_long() > 0 and x.as_long() & (x.as_long() - 1) == 0:
            sh = z3.Function("shl1|%d|%d" % (w, x.as_long()), z3.IntSort(), z3.IntSort())
            r = sh(y)
            ys = [z3.And(y == k, r == th.num(x.as_long() << k, T)) for k in range(w)]
            st.assume(z3.Or(z3.And(y >= w, r == 0), *ys))
            return r
        if o == "&":
            for a, b in ((x, y), (y, x)):
                if is_num(b):
                    m = b.as_long()
                    if m >= 0 and (m & (m + 1)) == 0:
                        return z3.simplify(a % (m + 1))
        f = z3.Function("bop|%s|%s%d" % (o, "s" if sg else "u", w), z3.IntSort(), z3.IntSort(), z3.IntSort())
        r = f(x, y)
        st.assume(th.irange(r, T))
        if o in ("&", "|", "^") and not sg:
            if o == "&":
                st.assume(z3.And(r <= x, r <= y))
            if o == "|":
                st.assume(z3.And(r >= x, r >= y))
        return r

    def conv_int(self, st, x, fT, tT, shift=False):
        th = self.th
        fw, fs = th.intinfo(fT)
        tw, ts = th.intinfo(tT)
        fb, tb = th.is_bvint(fT), th.is_bvint(tT)
        if fb and tb:
            if tw == fw:
                return x
            if tw < fw:
                if shift:
                    big = z3.UGE(x, z3.BitVecVal(tw, fw))
                    return z3.simplify(z3.If(big, z3.BitVecVal((1 << tw) - 1 if tw < 8 else 255 if tw == 8 else tw, tw), z3.Extract(tw - 1, 0, x)))
                return z3.simplify(z3.Extract(tw - 1, 0, x))
            return z3.simplify(z3.SignExt(tw - fw, x) if fs else z3.ZeroExt(tw - fw, x))
        if fb and not tb:
            return z3.simplify(z3.BV2Int(x, fs))
        if not fb and tb:
            return z3.simplify(z3.Int2BV(x, tw))
        if is_num(x):
            return th.num(x.as_long(), tT)
        if tw > fw and (ts or not fs) or (tw == fw and ts == fs):
            return x
        if tw == fw or tw > fw:
            return self.wrap(st, x, tT, "+") if tw == fw else self.wrap(st, x, tT, "%")
        return self.wrap(st, x, tT, "%")

    def cmp(self, st, o, x, y, T):
        """comparison of two values of type T"""
        th = self.th
        u = T.u()
        if o in ("==", "!="):
            e = self.equal(st, x, y, T)
            return e if o == "==" else z3.simplify(z3.Not(e))
        if th.isint(u):
            w, sg = th.intinfo(u)
            if th.is_bvint(u) and not sg:
                return {"<": z3.ULT, "<=": z3.ULE, ">": z3.UGT, ">=": z3.UGE}[o](x, y)
            return {"<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b}[o](x, y)
        if u.k == "tparam" or th.isstr(u) or th.isfloat(u):
            lt = self.ltfn(u)
            if o == "<":
                return lt(x, y)
            if o == ">":
                return lt(y, x)
            if o == "<=":
                return z3.Or(lt(x, y), x == y) if not th.isfloat(u) else z3.Function("fle", th.F64, th.F64, z3.BoolSort())(x, y)
            return z3.Or(lt(y, x), x == y) if not th.isfloat(u) else z3.Function("fle", th.F64, th.F64, z3.BoolSort())(y, x)
        raise Unsupported("ordering on " + T.s)

    def ltfn(self, u):
        th = self.th
        so = th.comps(u)[0][1]
        nm = "lt|" + u.s
        f = th.done.get(nm)
        if f is None:
            f = z3.Function(nm, so, so, z3.BoolSort())
            th.done[nm] = f
            if not th.isfloat(u):
                x, y, z = z3.Consts("x y z", so)
                th.axioms.append(z3.ForAll([x, y], z3.Not(z3.And(f(x, y), f(y, x))), patterns=[f(x, y)]))
                th.axioms.append(z3.ForAll([x, y, z], z3.Implies(z3.And(f(x, y), f(y, z)), f(x, z)), patterns=[z3.MultiPattern(f(x, y), f(y, z))]))
                th.axioms.append(z3.ForAll([x, y], z3.Or(f(x, y), f(y, x), x == y), patterns=[f(x, y)]))
        return f

    def equal(self, st, x, y, T):
        u = T.u()
        th = self.th
        if isinstance(x, Loc) or isinstance(y, Loc):
            other = y if isinstance(x, Loc) else x
            if not isinstance(other, Loc) and is_num(other) and other.as_long() == 0:
                return z3.BoolVal(False)
            if isinstance(other, Loc) and isinstance(x, Loc) and x.kind == y.kind and x.T is y.T and str(x.sT) == str(y.sT):
                e = x.ref == y.ref
                if x.kind == "elem":
                    return z3.simplify(z3.And(e, x.x == y.x))
                return z3.simplify(z3.And(e, z3.BoolVal(x.x == y.x)))
            return z3.simplify(th.flat(x, T, self)[0] == th.flat(y, T, self)[0])
        if u.k == "func":
            a, b = (self.cloid(v) if isinstance(v, Closure) else v for v in (x, y))
            return z3.simplify(a == b)
        if u.k == "slice":
            # only comparison with nil is legal
            o = y if not (is_num(x.b) and x.b.as_long() == 0 and is_num(x.l)) else x
            n = x if o is y else y
            return z3.simplify(n.b == 0)
        if th.isfloat(u):
            feq = z3.Function("feq", th.F64, th.F64, z3.BoolSort())
            return feq(x, y)
        if th.isstr(u):
            if not z3.eq(x, y):
                st.assume(th.eqtrig(x, y))
            return z3.simplify(x == y)
        if u.k == "array":
            n = u.n
            cs = []
            for s, _, _ in th.comps(u.e):
                for i in range(n):
                    cs.append(z3.Select(x.a[s], th.iv(i)) == z3.Select(y.a[s], th.iv(i)))
            return z3.simplify(z3.And(*cs)) if cs else z3.BoolVal(True)
        a, b = th.flat(x, T, self), th.flat(y, T, self)
        return z3.simplify(z3.And(*[p == q for p, q in zip(a, b)]))

    def i_BinOp(self, fr, regs, st, ins):
        x, y = self.ev(fr, regs, st, ins["x"]), self.ev(fr, regs, st, ins["y"])
        xt, yt = self.rt(fr, ins["xt"]), self.rt(fr, ins["yt"])
        o = ins["o"]
        th = self.th
        if o in ("==", "!=", "<", "<=", ">", ">="):
            T = xt
            if xt.u().k == "iface" and yt.u().k != "iface":
                y = self.mkiface(yt, y)
            elif yt.u().k == "iface" and xt.u().k != "iface":
                x, T = self.mkiface(xt, x), yt
            regs[ins["r"]] = self.cmp(st, o, x, y, T)
            return None
        if th.isstr(xt) and o == "+":
            regs[ins["r"]] = th.concat(x, y)
            return None
        if th.isfloat(xt):
            f = z3.Function("f" + o, th.F64, th.F64, th.F64)
            regs[ins["r"]] = f(x, y)
            return None
        if xt.u().k == "tparam":
            raise Unsupported("arithmetic on type parameter")
        if o in ("/", "%"):
            nz = y != th.num(0, yt)
            return self.guard(fr, st, nz, "integer divide by zero", lambda s: self.arith(s, o, x, y, xt, yt))
        if o in ("<<", ">>"):
            w, sg = th.intinfo(yt)
            if sg:
                return self.guard(fr, st, y >= th.num(0, yt), "negative shift amount", lambda s: self.arith(s, o, x, y, xt, yt))
        if th.isbool(xt):
            regs[ins["r"]] = z3.And(x, y) if o == "&" else z3.Or(x, y)
            return None
        regs[ins["r"]] = self.arith(st, o, x, y, xt, yt)
        return None

    def i_FieldAddr(self, fr, regs, st, ins):
        x = self.ev(fr, regs, st, ins["x"])
        sT = self.rt(fr, ins["xt"]).u().e
        if isinstance(x, Loc):
            x = self.locref(x)
        pans = [] if is_num(x) else self.need(fr, st, x != 0, "nil pointer dereference")
        if is_num(x) and x.as_long() == 0:
            return [("panic", st, (self.rterr("nil"), "nil pointer dereference", self.line))]
        a, _ = self.field_addr(st, x, sT, ins["i"])
        regs[ins["r"]] = a
        return [("ok", st, a)] + pans if pans else None

    def i_Field(self, fr, regs, st, ins):
        x = self.ev(fr, regs, st, ins["x"])
        n, _ = self.rt(fr, ins["xt"]).u().fields[ins["i"]]
        regs[ins["r"]] = x.f[n]

    def idx(self, st, v, T):
        """index operand -> IDX sort"""
        th = self.th
        IT = self.prog.basic("int")
        if T.s == "int":
            return v
        w, s = th.intinfo(T)
        if th.bv:
            return self.conv_int(st, v, T, IT)
        if th.is_bvint(T):
            return self.conv_int(st, v, T, IT)
        return v  # mathematically exact index

    def elem_addr(self, ref, i, eT):
        if eT.u().k in ("struct", "array"):
            return self.th.elemref(eT.s)(ref, i)
        return Loc("elem", ref, eT, i)

    def inb(self, i, n, T):
        th = self.th
        if th.bv:
            return z3.And(i >= th.iv(0), i < n)
        return z3.And(i >= 0, i < n)

    def i_IndexAddr(self, fr, regs, st, ins):
        x = self.ev(fr, regs, st, ins["x"])
        yT = self.rt(fr, ins["yt"])
        i = self.idx(st, self.ev(fr, regs, st, ins["y"]), yT)
        xT = self.rt(fr, ins["xt"]).u()
        th = self.th
        if xT.k == "slice":
            return self.guard(fr, st, self.inb(i, x.l, yT), "index out of range",
                              lambda s: self.elem_addr(x.b, th.ix(x.o, i), xT.e))
        aT = xT.e.u()
        if isinstance(x, Loc):
            x = self.locref(x)
        ok = self.inb(i, th.iv(aT.n), yT)
        if not is_num(x):
            ok = z3.And(x != 0, ok)
        return self.guard(fr, st, ok, "index out of range", lambda s: self.elem_addr(x, i, aT.e))

    def i_Index(self, fr, regs, st, ins):
        x = self.ev(fr, regs, st, ins["x"])
        yT = self.rt(fr, ins["yt"])
        i = self.idx(st, self.ev(fr, regs, st, ins["y"]), yT)
        xT = self.rt(fr, ins["xt"]).u()
        th = self.th
        if xT.k == "array":
            return self.guard(fr, st, self.inb(i, th.iv(xT.n), yT), "index out of range",
                              lambda s: th.unflat([self.sel(x.a[c[0]], i) for c in th.comps(xT.e)], xT.e, self))
        return self.guard(fr, st, self.inb(i, th.slen(x), yT), "index out of range", lambda s: th.sat(x, i))

    def i_Lookup(self, fr, regs, st, ins):
        x = self.ev(fr, regs, st, ins["x"])
        xT = self.rt(fr, ins["xt"])
        y = self.ev(fr, regs, st, ins["y"])
        th = self.th
        if xT.u().k != "map":
            i = self.idx(st, y, self.rt(fr, ins["yt"]))
            return self.guard(fr, st, self.inb(i, th.slen(x), None), "index out of range", lambda s: th.sat(x, i))
        k = self.mapkey(xT, y)
        self.hook(st, "map", xT.u().s, x, False)
        self.mapfacts(st, xT, x)
        d = self.sel(self.mapdom(st, xT, x), k)
        v = self.mapval(st, xT, x, k)
        eT = xT.u().e
        z = th.zero(eT, self)
        cs = [z3.simplify(z3.If(d, a, b)) for a, b in zip(th.flat(v, eT, self), th.flat(z, eT, self))]
        r = th.unflat(cs, eT, self)
        self.facts_for(st, eT, r) if not isinstance(r, Closure) else None
        if ins.get("ok"):
            regs[ins["r"]] = TupleV([r, d])
        else:
            regs[ins["r"]] = r

    def i_MapUpdate(self, fr, regs, st, ins):
        m = self.ev(fr, regs, st, ins["m"])
        mT = self.rt(fr, ins["mt"])
        k = self.mapkey(mT, self.ev(fr, regs, st, ins["x"]))
        v = self.ev(fr, regs, st, ins["y"])
        pans = self.need(fr, st, m != 0, "assignment to entry in nil map")
        self.hook(st, "map", mT.u().s, m, True)
        self.mapfacts(st, mT, m)
        self.mapput(st, mT, m, k, v)
        return [("ok", st, None)] + pans if pans else None

    def i_MakeMap(self, fr, regs, st, ins):
        T = self.rt(fr, ins["t"])
        regs[ins["r"]] = self.new_map(st, T)

    def new_map(self, st, T):
        r = self.alloc(st)
        ks = self.mapksort(T)
        nm = "MD|%s" % T.u().s
        self.mapdom(st, T, r)
        self.mapcard(st, T, r)
        self.mapsetdom(st, T, r, z3.K(ks, z3.BoolVal(False)))
        self.mapsetcard(st, T, r, z3.IntVal(0))
        return r

    def i_MakeSlice(self, fr, regs, st, ins):
        T = self.rt(fr, ins["t"])
        n = self.idx(st, self.ev(fr, regs, st, ins["x"]), self.rt(fr, ins["xt"]))
        c = self.idx(st, self.ev(fr, regs, st, ins["y"]), self.rt(fr, ins["yt"]))
        th = self.th
        def mk(s):
            v = self.new_slice(s, T.u().e, n, c)
            s.unesc[v.b.get_id()] = (v.b, fr.fid)
            return v
        return self.guard(fr, st, z3.And(n >= th.iv(0), n <= c), "makeslice: len out of range", mk)

    def new_slice(self, st, eT, n, c):
        th = self.th
        st.assume(c <= th.iv(LENMAX))
        r = self.alloc(st)
        if eT.u().k == "struct" or eT.u().k == "array":
            # elements are sub-objects: zero them by a quantified heap update
            self.zero_elems(st, eT, r)
        else:
            self.store_arr(st, eT, r, [z3.K(th.IDX, z) for z in th.zerocomp(eT)])
        return SliceV(r, th.iv(0), n, c)

    def zero_elems(self, st, eT, r):
        """the elements of a new slice of structs are zero: a quantified update of the heap"""
        th = self.th
        i0 = th.fresh("zi", th.IDX)
        tmp = st.copy()
        w, self.wlog = self.wlog, []
        sh, self.accesshook = self.accesshook, None
        self.zero_init(tmp, eT, th.elemref(eT.s)(r, i0))
        log, self.wlog, self.accesshook = self.wlog, w, sh
        i, x = z3.Const("zi", th.IDX), z3.Int("zx")
        for name in dict.fromkeys(n for n, _ in log):
            old, new = st.heap.get(name), tmp.heap[name]
            stores = []
            a = new
            while z3.is_store(a) and (old is None or not z3.eq(a, old)):
                stores.append((a.arg(1), a.arg(2)))
                a = a.arg(0)
            B = th.fresh("Z" + name, new.sort())
            st.assume(z3.ForAll([x], z3.Implies(th.own(x) != r, z3.Select(B, x) == z3.Select(a, x)), patterns=[z3.Select(B, x)]))
            for ad, v in reversed(stores):
                ad, v = z3.substitute(ad, (i0, i)), z3.substitute(v, (i0, i))
                st.assume(z3.ForAll([i], z3.Select(B, ad) == v, patterns=[ad]))
            self.hput(st, name, B)

    def i_MakeChan(self, fr, regs, st, ins):
        T = self.rt(fr, ins["t"])
        n = self.ev(fr, regs, st, ins["x"])
        if isinstance(n, z3.ExprRef) and not self.th.bv:
            pass
        r = self.alloc(st)
        self.gset(st, "chan", "cap", r, n if n.sort() == z3.IntSort() else z3.BV2Int(n))
        self.gset(st, "chan", "cnt", r, z3.IntVal(0))
        self.gset(st, "chan", "closed", r, z3.BoolVal(False))
        if self.protos:
            self.gset(st, "chan", "own", r, z3.BoolVal(True))
        pans = self.need(fr, st, n >= 0, "makechan: size out of range")
        regs[ins["r"]] = r
        return [("ok", st, r)] + pans if pans else None

    def i_MakeClosure(self, fr, regs, st, ins):
        f = ins["fn"]
        binds = tuple(self.ev(fr, regs, st, a) for a in ins["args"])
        fn = self.prog.funcs.get(f["n"])
        targs = tuple(self.rt(fr, t) for t in (f.get("targs") or []))
        c = Closure(f["n"], targs, binds)
        c.targs = targs or tuple(fr.env.get(t) for t in ())
        c_env = fr.env
        cc = Closure(f["n"], targs, binds)
        cc.native = None
        regs[ins["r"]] = self.withenv(cc, fr)

    def withenv(self, c, fr):
        # closures of generic functions keep the type environment of their creator
        self.cloenv[id(c)] = (c, fr.env)
        return c

    def i_MakeInterface(self, fr, regs, st, ins):
        x = self.ev(fr, regs, st, ins["x"])
        T = self.rt(fr, ins["xt"])
        regs[ins["r"]] = self.mkiface(T, x)

    def i_ChangeInterface(self, fr, regs, st, ins):
        regs[ins["r"]] = self.ev(fr, regs, st, ins["x"])

    def i_ChangeType(self, fr, regs, st, ins):
        x = self.ev(fr, regs, st, ins["x"])
        xT = self.rt(fr, ins["xt"])
        if xT.u().k != "iface" and self.rt(fr, ins["t"]).u().k == "iface":
            # conversion of a type parameter without methods
            regs[ins["r"]] = self.mkiface(xT, x)
            return None
        if isinstance(x, (StructV, ArrayV)):
            T = self.rt(fr, ins["t"])
            x = StructV(T, x.f) if isinstance(x, StructV) else ArrayV(T, x.a)
        if isinstance(x, Closure):
            pass
        regs[ins["r"]] = x

    def i_Convert(self, fr, regs, st, ins):
        x = self.ev(fr, regs, st, ins["x"])
        fT, tT = self.rt(fr, ins["xt"]), self.rt(fr, ins["t"])
        th = self.th
        fu, tu = fT.u(), tT.u()
        if th.isint(fT) and th.isint(tT):
            regs[ins["r"]] = self.conv_int(st, x, fT, tT)
        elif th.isstr(fT) and tu.k == "slice":
            regs[ins["r"]] = self.bytes_from(st, x, True)
        elif fu.k == "slice" and th.isstr(tT):
            self.hook(st, "elem", "uint8", x.b, False)
            regs[ins["r"]] = self.bsof(st, x)
        elif th.isstr(fT) and th.isstr(tT):
            regs[ins["r"]] = x
        elif th.isfloat(tT) and th.isint(fT):
            regs[ins["r"]] = z3.Function("i2f|" + fT.u().s + "|" + tT.u().s, th.comps(fT)[0][1], th.F64)(x)
        elif th.isfloat(fT) and th.isint(tT):
            r = z3.Function("f2i|" + tT.u().s, th.F64, th.comps(tT)[0][1])(x)
            st.assume(th.irange(r, tT))
            regs[ins["r"]] = r
        elif th.isfloat(fT) and th.isfloat(tT):
            if fT.u().name == tT.u().name:
                regs[ins["r"]] = x
            else:
                regs[ins["r"]] = z3.Function("f2f|%s|%s" % (fT.u().s, tT.u().s), th.F64, th.F64)(x)
        elif tu.k == "basic" and tu.name in ("Pointer", "unsafe.Pointer") or fu.k == "basic" and fu.name in ("Pointer", "unsafe.Pointer"):
            if th.isint(tT):
                r = self.fresh_value(st, tT, "uptr")
                regs[ins["r"]] = r
            else:
                regs[ins["r"]] = th.flat(x, fT, self)[0] if not isinstance(x, Loc) else x
        elif fu.k == "ptr" and tu.k == "ptr":
            regs[ins["r"]] = x
        else:
            raise Unsupported("convert %s -> %s" % (fT.s, tT.s))

    def i_Extract(self, fr, regs, st, ins):
        x = self.ev(fr, regs, st, ins["x"])
        regs[ins["r"]] = x.v[ins["i"]]

    def i_TypeAssert(self, fr, regs, st, ins):
        x = self.ev(fr, regs, st, ins["x"])
        T = self.rt(fr, ins["at"])
        th = self.th
        d = self.dyn(st, x)
        if d is not None and T.u().k not in ("tparam", "iface") and d[0].u().k != "tparam":
            ok = z3.BoolVal(d[0].s == T.s)
        elif d is not None and T.u().k == "tparam" and d[0].s == T.s:
            ok = self.istype(x, T)
        else:
            ok = self.istype(x, T)
        v = self.unbox(st, x, T) if not z3.is_false(ok) else th.zero(T, self)
        if ins.get("ok"):
            z = th.zero(T, self)
            if z3.is_true(ok):
                regs[ins["r"]] = TupleV([v, ok])
                return None
            cs = [z3.simplify(z3.If(ok, a, b)) for a, b in zip(th.flat(v, T, self), th.flat(z, T, self))]
            v = th.unflat(cs, T, self)
            self.facts_for(st, T, v)
            regs[ins["r"]] = TupleV([v, ok])
            return None

        def cont(s):
            self.facts_for(s, T, v)
            return v
        return self.guard(fr, st, ok, "interface conversion", cont)

    def i_Slice(self, fr, regs, st, ins):
        x = self.ev(fr, regs, st, ins["x"])
        xT = self.rt(fr, ins["xt"]).u()
        th = self.th
        lo = self.ev(fr, regs, st, ins["lo"])
        hi = self.ev(fr, regs, st, ins["hi"])
        mx = self.ev(fr, regs, st, ins["max"])
        lo = th.iv(0) if lo is None else self.idx(st, lo, self.rt(fr, ins["lot"]))
        if hi is not None:
            hi = self.idx(st, hi, self.rt(fr, ins["hit"]))
        if xT.k == "basic":
            n = th.slen(x)
            h = n if hi is None else hi
            ok = z3.And(th.iv(0) <= lo, lo <= h, h <= n)
            if ins["lo"] is None and ins["hi"] is None:
                regs[ins["r"]] = x
                return None
            return self.guard(fr, st, ok, "slice bounds out of range", lambda s: th.sub(x, lo, h))
        if xT.k == "ptr":
            n = th.iv(xT.e.u().n)
            if isinstance(x, Loc):
                x = self.locref(x)
            b, o, l, c = x, th.iv(0), n, n
            pre = x != 0 if not is_num(x) else z3.BoolVal(True)
        else:
            b, o, l, c = x.b, x.o, x.l, x.c
            pre = z3.BoolVal(True)
        h = l if hi is None else hi
        m = c if mx is None else mx
        ok = z3.And(pre, th.iv(0) <= lo, lo <= h, h <= m, m <= c)
        return self.guard(fr, st, ok, "slice bounds out of range",
                          lambda s: SliceV(b, th.ix(o, lo) if not (is_num(lo) and lo.as_long() == 0) else o, th.isub(h, lo), th.isub(m, lo)))

    def i_SliceToArrayPointer(self, fr, regs, st, ins):
        raise Unsupported("slice to array pointer")

    def i_Range(self, fr, regs, st, ins):
        x = self.ev(fr, regs, st, ins["x"])
        xT = self.rt(fr, ins["xt"])
        if xT.u().k != "map":
            raise Unsupported("range over string")
        ks = self.mapksort(xT)
        r = self.alloc(st)
        nm = "IT|" + xT.u().s
        a = self.hget(st, nm, z3.ArraySort(z3.IntSort(), z3.ArraySort(ks, z3.BoolSort())))
        self.hput(st, nm, z3.Store(a, r, z3.K(ks, z3.BoolVal(False))), r)
        self.mapfacts(st, xT, x)
        regs[ins["r"]] = IterV("map", r, x, xT, self.mapdom(st, xT, x))

    def i_Next(self, fr, regs, st, ins):
        it = self.ev(fr, regs, st, ins["x"])
        xT = it.mT
        th = self.th
        nm = "IT|" + xT.u().s
        ks = self.mapksort(xT)
        self.hook(st, "map", xT.u().s, it.m, False)
        a = self.hget(st, nm, z3.ArraySort(z3.IntSort(), z3.ArraySort(ks, z3.BoolSort())))
        vis = self.sel(a, it.ref)
        dom = self.mapdom(st, xT, it.m)
        k = th.fresh("key", ks)
        res = []
        s1 = st.copy()
        s1.assume(z3.And(self.sel(dom, k), z3.Not(self.sel(vis, k))))
        self.hput(s1, nm, z3.Store(a, it.ref, z3.Store(vis, k, z3.BoolVal(True))), it.ref)
        kT = xT.u().key
        if len(th.comps(kT)) == 1:
            kv = th.unflat([k], kT, self)
        else:
            kv = self.unbox(s1, k, kT)
        self.facts_for(s1, kT, kv)
        vv = self.mapval(s1, xT, it.m, k)
        if not isinstance(vv, Closure):
            self.facts_for(s1, xT.u().e, vv)
        if self.query(s1.pc) != z3.unsat:
            res.append(("ok", s1, TupleV([z3.BoolVal(True), kv, vv])))
        q = z3.Const("k", ks)
        st.assume(z3.ForAll([q], z3.Implies(z3.And(z3.Select(dom, q), z3.Select(it.dom0, q)), z3.Select(vis, q))))
        res.append(("ok", st, TupleV([z3.BoolVal(False), th.zero(kT, self), th.zero(xT.u().e, self)])))
        return res

    # ---- calls
    def callinfo(self, fr, regs, st, ins):
        d = {"args": [self.ev(fr, regs, st, a) for a in ins["args"] or []],
             "argts": [self.rt(fr, t) for t in (ins["argts"] or [])],
             "sig": self.rt(fr, ins["sig"]), "line": ins.get("l"), "env": fr.env}
        if "invoke" in ins:
            d["invoke"] = ins["invoke"]
            d["recv"] = self.ev(fr, regs, st, ins["recv"])
            d["recvt"] = self.rt(fr, ins["recvt"])
        else:
            f = ins["fn"]
            if f["k"] == "builtin":
                d["builtin"] = f["n"]
                d["rest"] = self.rt(fr, ins["t"]) if "t" in ins and ins["op"] == "Call" else None
            elif f["k"] == "func":
                d["fn"] = f["n"]
                d["targs"] = tuple(self.rt(fr, t) for t in (f.get("targs") or []))
            else:
                d["fv"] = self.ev(fr, regs, st, f)
        return d

    def i_Call(self, fr, regs, st, ins):
        d = self.callinfo(fr, regs, st, ins)
        return self.exec_call(fr, st, d)

    def i_Defer(self, fr, regs, st, ins):
        d = self.callinfo(fr, regs, st, ins)
        if "fv" in d and not isinstance(d["fv"], Closure):
            d["fv"] = self.unclo(d["fv"])
        st.defers[fr.fid] = st.defers.get(fr.fid, ()) + (d,)

    def i_Go(self, fr, regs, st, ins):
        d = self.callinfo(fr, regs, st, ins)
        self.event(st, ("go", d))

    def event(self, st, e):
        st.ev = st.ev + (e,)
        if self.eventhook is not None and self.record:
            self.eventhook(self, st, e)

    def result(self, vals, fn=None):
        if len(vals) == 0:
            return None
        if len(vals) == 1:
            return vals[0]
        return TupleV(vals)

    def exec_call(self, fr, st, d, deferred=False):
        """returns [(kind, st, value)]"""
        if "builtin" in d:
            return self.builtin(fr, st, d, deferred)
        if "invoke" in d:
            return self.invoke(fr, st, d, deferred)
        if "fn" in d:
            return self.call_named(fr, st, d["fn"], d["targs"], d["args"], d, (), deferred)
        fv = d["fv"]
        if not isinstance(fv, Closure):
            fv = self.unclo(fv)
        if not isinstance(fv, Closure):
            fv = self.resolve_fv(st, fv)
        if isinstance(fv, Closure):
            if fv.native is not None:
                return fv.native(self, st, d)
            pans = []
            env = self.cloenv.get(id(fv))
            return self.call_named(fr, st, fv.fn, fv.targs, d["args"], d, fv.binds, deferred, env[1] if env and env[0] is fv else None)
        return self.call_unknown(fr, st, d, fv)

    def resolve_fv(self, st, fv):
        """a function value that provably is one known function"""
        for n, c in self.clos.items():
            if not c.binds and self.implies(st, fv == n):
                return c
        return fv

    unknown_fn = None

    def call_unknown(self, fr, st, d, fv):
        """call of an unknown function value (user callback)"""
        pans = self.need(fr, st, fv != 0, "call of nil function")
        if self.unknown_fn is not None:
            return self.unknown_fn(self, st, d, fv) + pans
        rs = d["sig"].results
        if self.purecalls and len(rs) == 1:
            return [("ok", st, self.purecall(st, fv, d["args"], d["sig"]))] + pans
        vals = [self.fresh_value(st, t, "cb") for t in rs]
        self.event(st, ("callback", fv, d["args"], vals, d["sig"]))
        return [("ok", st, self.result(vals))] + pans

    purecalls = False

    def purecall(self, st, fv, args, sig):
        """result of a function value that the contract declares to be a mathematical function of its arguments"""
        rT = sig.results[0]
        flat = [c for v, T in zip(args, sig.params) for c in self.th.flat(v, T, self)]
        cs = [z3.Function("pcall|%s%s" % (sig.s, sfx), *([z3.IntSort()] + [c.sort() for c in flat] + [so]))(fv, *flat) for sfx, so, rk in self.th.comps(rT)]
        v = self.th.unflat(cs, rT, self)
        self.facts_for(st, rT, v)
        return v

    def call_named(self, fr, st, name, targs, args, d, binds=(), deferred=False, env=None):
        c = self.contracts.get(name)
        if c is not None and c.modular and c is not self.current:
            self.modular.add(name)
            return c.apply(self, st, args, targs, d)
        m = self.models.get(name)
        if m is not None:
            self.trusted.add(name)
            d = dict(d)
            d["targs"] = targs
            d["name"] = name
            d["deferred_by"] = fr.fid if deferred else None
            return m(self, st, args, d)
        fn = self.prog.funcs.get(name)
        if fn is not None and fn.has_body():
            if env is not None and not targs:
                res = self.call_env(st, fn, env, args, binds, fr.fid if deferred else None, fr.depth + 1)
            else:
                if fn.tparams and not targs:
                    # anonymous functions inherit the environment
                    res = self.call_env(st, fn, fr.env, args, binds, fr.fid if deferred else None, fr.depth + 1)
                else:
                    res = self.call_env(st, fn, self.mergeenv(fr.env, fn, targs), args, binds, fr.fid if deferred else None, fr.depth + 1)
            return [(k, s, (self.result(v) if k == "ret" else v)) for k, s, v in res]
        return self.external(fr, st, name, args, d)

    def mergeenv(self, env, fn, targs):
        e = dict(zip(fn.tparams, targs))
        if fn.d.get("parent"):
            x = dict(env)
            x.update(e)
            return x
        return e

    def call_env(self, st, fn, env, args, binds, deferred_by, depth):
        if depth > 40:
            raise Unsupported("call depth")
        if sum(1 for x in self.stack if x is fn) > 3:
            raise Unsupported("recursion in " + fn.name)
        self.stack.append(fn)
        try:
            self.inlined.add(fn.name)
            self.nfid += 1
            fr = Frame(fn, env, self.nfid, deferred_by, depth)
            regs = {}
            for p, a in zip(fn.params, args):
                regs["p$" + p["n"]] = a
            for p, a in zip(fn.freevars, binds):
                regs["f$" + p["n"]] = a
            st.defers[fr.fid] = ()
            return self.run(fr, [(regs, st, 0, 0, None)], None)
        finally:
            self.stack.pop()

    def external(self, fr, st, name, args, d):
        """function outside the repository without a model: result unknown, heap unknown"""
        self.trusted.add(name + " (unmodelled: arbitrary effect)")
        self.havoc_all(st)
        vals = [self.fresh_value(st, t, "ext") for t in d["sig"].results]
        self.event(st, ("external", name, args, vals))
        return [("ok", st, self.result(vals))]

    def invoke(self, fr, st, d, deferred=False):
        recv, meth = d["recv"], d["invoke"]
        pans = []
        if not (z3.is_app(recv) and recv.decl().name().startswith("box|")):
            pans = self.need(fr, st, recv != self.th.anynil, "nil interface method call")
            if pans and z3.is_false(z3.simplify(recv != self.th.anynil)):
                return pans
        dy = self.dyn(st, recv)
        if dy is None:
            # provable dynamic type?
            for n, T in list(self.th.types.items()):
                if T.k == "other" or self.find_method(T, meth) is not None:
                    if self.implies(st, self.th.tag(recv) == n):
                        dy = (T, self.unbox(st, recv, T))
                        break
        if dy is not None:
            T, v = dy
            if T.s.startswith("lib:"):
                m = self.imodels.get((T.s[4:], meth))
                if m is not None:
                    self.trusted.add("%s.%s" % (T.s[4:], meth))
                    return m(self, st, [v] + d["args"], d) + pans
            f = self.find_method(T, meth)
            if f is not None:
                fn, ptr = f
                targs = T.targs if T.k == "named" else (T.u().e.targs if T.u().k == "ptr" and T.u().e.k == "named" else ())
                return self.call_named(fr, st, fn, targs, [v] + d["args"], d, (), deferred) + pans
            base = T.u().e if T.u().k == "ptr" else T
            nm = "(%s).%s" % (T.s, meth)
            if nm in self.models:
                return self.call_named(fr, st, nm, (), [v] + d["args"], d, (), deferred) + pans
        m = self.imodels.get((d["recvt"].s, meth)) or self.imodels.get(("*", meth))
        if m is not None:
            self.trusted.add("%s.%s" % (d["recvt"].s, meth))
            return m(self, st, [recv] + d["args"], d) + pans
        return self.external(fr, st, "%s.%s" % (d["recvt"].s, meth), [recv] + d["args"], d) + pans

    def find_method(self, T, meth):
        t = T
        if t.k == "ptr":
            t = t.e
        if t.k != "named":
            return None
        return self.prog.methods.get((t.name, meth))

    # ---- builtins
    def builtin(self, fr, st, d, deferred):
        n = d["builtin"]
        a = d["args"]
        ts = d["argts"]
        th = self.th
        ok = lambda v: [("ok", st, v)]
        if n == "len":
            u = ts[0].u()
            if u.k == "slice":
                return ok(a[0].l)
            if u.k == "basic":
                return ok(th.slen(a[0]))
            if u.k == "map":
                self.hook(st, "map", u.s, a[0], False)
                self.mapfacts(st, ts[0], a[0])
                c = self.mapcard(st, ts[0], a[0])
                if th.bv:
                    raise Unsupported("map len in bit-vector mode")
                return ok(c)
            if u.k == "array":
                return ok(th.iv(u.n))
            if u.k == "ptr":
                return ok(th.iv(u.e.u().n))
            if u.k == "chan":
                v = self.fresh_value(st, self.prog.basic("int"), "chlen")
                st.assume(v >= 0)
                return ok(v)
        if n == "cap":
            u = ts[0].u()
            if u.k == "slice":
                return ok(a[0].c)
            if u.k == "chan":
                return ok(self.gget(st, "chan", "cap", a[0]))
        if n == "append":
            return self.append(fr, st, a[0], a[1], ts[0], ts[1], None if deferred else self.at)
        if n == "copy":
            return ok(self.copy(st, a[0], a[1], ts[0], ts[1]))
        if n == "delete":
            k = self.mapkey(ts[0], a[1])
            self.hook(st, "map", ts[0].u().s, a[0], True)
            self.mapfacts(st, ts[0], a[0])
            self.mapdel(st, ts[0], a[0], k)
            return ok(None)
        if n == "clear":
            if ts[0].u().k == "map":
                self.mapdom(st, ts[0], a[0])
                self.mapcard(st, ts[0], a[0])
                self.mapsetdom(st, ts[0], a[0], z3.K(self.mapksort(ts[0]), z3.BoolVal(False)))
                self.mapsetcard(st, ts[0], a[0], z3.IntVal(0))
                return ok(None)
        if n == "recover":
            pid = fr.deferred_by
            if deferred:
                pid = None  # recover called directly by defer statement: returns nil
            p = st.pan.get(pid) if pid is not None else None
            if p is None:
                return ok(th.anynil)
            st.pan[pid] = None
            st.assume(p[0] != th.anynil)
            return ok(p[0])
        if n == "close":
            return self.chan_close(fr, st, a[0], ts[0])
        if n == "panic":
            return [("panic", st, (a[0], "explicit panic", self.line))]
        if n in ("min", "max"):
            v = a[0]
            for x in a[1:]:
                c = self.cmp(st, "<" if n == "min" else ">", v, x, ts[0])
                v = z3.If(c, v, x)
            return ok(v)
        if n == "ssa:wrapnilchk":
            return self.guard(fr, st, a[0] != 0, "nil receiver", lambda s: a[0])
        if n in ("StringData", "SliceData"):
            return ok(self.unsafe_data(st, a[0], ts[0]))
        if n == "Slice":
            return self.unsafe_slice(fr, st, a, ts)
        if n == "String":
            return self.unsafe_string(fr, st, a, ts)
        if n in ("print", "println"):
            return ok(None)
        raise Unsupported("builtin " + n)

    def unsafe_data(self, st, s, T):
        if T.u().k == "slice":
            return self.elem_addr(s.b, s.o, T.u().e)
        # the bytes of a string seen as memory
        th = self.th
        f = z3.Function("strmem", th.BS, z3.IntSort())
        r = f(s)
        A = self.load_arr(st, self.bytes_T(), r)[0]
        i = z3.Const("i", th.IDX)
        st.assume(z3.And(r > 0, th.own(r) < st.next))
        st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= th.iv(0), i < th.slen(s)), z3.Select(A, i) == th.sat(s, i)), patterns=[z3.Select(A, i)]))
        return Loc("elem", r, self.bytes_T(), th.iv(0))

    def unsafe_slice(self, fr, st, a, ts):
        p, n = a
        n = self.idx(st, n, ts[1])
        if not isinstance(p, Loc):
            raise Unsupported("unsafe.Slice of unknown pointer")
        return self.guard(fr, st, n >= self.th.iv(0), "unsafe.Slice: len out of range", lambda s: SliceV(p.ref, p.x, n, n))

    def unsafe_string(self, fr, st, a, ts):
        p, n = a
        n = self.idx(st, n, ts[1])
        if not isinstance(p, Loc):
            raise Unsupported("unsafe.String of unknown pointer")
        A = self.load_arr(st, self.bytes_T(), p.ref)[0]
        return self.guard(fr, st, n >= self.th.iv(0), "unsafe.String: len out of range", lambda s: self.th.mkseq(A, p.x, n))

    def sliceof_any(self, st, v, T):
        """view a string operand of append/copy as (arr accessor, len)"""
        th = self.th
        if T.u().k == "basic":
            return (lambda i: th.sat(v, i)), th.slen(v), None
        return None, v.l, v

    def append(self, fr, st, s, t, sT, tT, at=None):
        """append(s, t...): both the in-place and the reallocating case"""
        th = self.th
        eT = sT.u().e
        if eT.u().k in ("struct", "array"):
            raise Unsupported("append to []" + eT.s)
        tl = th.slen(t) if tT.u().k == "basic" else t.l
        if is_num(z3.simplify(tl)) and z3.simplify(tl).as_long() == 0:
            return [("ok", st, s)]
        nl = th.iadd(s.l, tl)
        st.assume(tl <= th.iv(LENMAX))
        st.assume(nl <= th.iv(LENMAX))
        res = []
        fits = nl <= s.c
        comps = th.comps(eT)
        if tT.u().k == "basic":
            get = [lambda i: th.sat(t, i)]
        else:
            tA = self.load_arr(st, eT, t.b) if not (is_num(t.b) and t.b.as_long() == 0) else [z3.K(th.IDX, z) for z in th.zerocomp(eT)]
            get = [(lambda A: (lambda i: self.sel(A, th.ix(t.o, i))))(A) for A in tA]
        if not (is_num(t.b if tT.u().k == "slice" else z3.IntVal(1)) or tT.u().k == "basic"):
            self.hook(st, "elem", eT.s, t.b, False)
        small = None
        stl = z3.simplify(tl)
        if is_num(stl) and stl.as_long() <= 16:
            small = stl.as_long()
        if is_num(s.b) and s.b.as_long() == 0 and not self.feasible(st, z3.And(fits, tl == th.iv(0))) or at is not None and self.sole(fr, st, s, at):
            # nobody can tell whether the array was reused
            f1, f2, fits = False, True, z3.BoolVal(False)
        else:
            f1 = self.feasible(st, fits)
            f2 = self.feasible(st, z3.Not(fits))
        for case in (1, 2):
            if case == 1 and not f1 or case == 2 and not f2:
                continue
            s2 = st.copy() if (f1 and f2 and case == 1) else st
            s2.assume(fits if case == 1 else z3.Not(fits))
            if case == 1:
                b, o, c = s.b, s.o, s.c
                self.hook(s2, "elem", eT.s, b, True)
            else:
                b, o = self.alloc(s2), th.iv(0)
                if at is not None:
                    s2.unesc[b.get_id()] = (b, fr.fid)
                c = th.fresh("cap", th.IDX)
                s2.assume(z3.And(c >= nl, c <= th.iv(2 * LENMAX)))
            old = self.load_arr(s2, eT, s.b) if not (is_num(s.b) and s.b.as_long() == 0) else [z3.K(th.IDX, z) for z in th.zerocomp(eT)]
            news = []
            for (sfx, so, rk), OA, g in zip(comps, old, get):
                if case == 1 and small is not None:
                    A = OA
                    for k in range(small):
                        A = z3.Store(A, th.ix(o, z3.simplify(th.iadd(s.l, th.iv(k)))), g(th.iv(k)))
                    news.append(A)
                    continue
                if case == 2 and small is not None and is_num(s.l) and s.l.as_long() <= 64:
                    A = z3.K(th.IDX, z3.simplify(th.zerocomp(eT)[0])) if len(comps) == 1 else th.fresh("arr" + sfx, z3.ArraySort(th.IDX, so))
                    for k in range(s.l.as_long()):
                        A = z3.Store(A, th.iv(k), self.sel(OA, th.ix(s.o, th.iv(k))))
                    for k in range(small):
                        A = z3.Store(A, th.iv(s.l.as_long() + k), g(th.iv(k)))
                    news.append(A)
                    continue
                A = th.fresh("arr" + sfx, z3.ArraySort(th.IDX, so))
                j = z3.Const("j", th.IDX)
                at = z3.Select(A, th.ix(o, j))
                was = z3.Select(OA, th.ix(s.o, j))
                s2.assume(z3.ForAll([j], z3.Implies(z3.And(j >= th.iv(0), j < s.l), at == was), patterns=[at] if not self.appendboth else [at, was]))
                s2.assume(z3.ForAll([j], z3.Implies(z3.And(j >= s.l, j < nl), at == g(th.isub(j, s.l))), patterns=[at]))
                if self.appendboth and small is not None:
                    for k in range(small):
                        s2.assume(z3.Select(A, th.ix(o, z3.simplify(th.iadd(s.l, th.iv(k))))) == g(th.iv(k)))
                if case == 1:
                    i = z3.Const("i", th.IDX)
                    s2.assume(z3.ForAll([i], z3.Implies(z3.Or(i < o + s.l, i >= o + nl), z3.Select(A, i) == z3.Select(OA, i)), patterns=[z3.Select(A, i)]))
                if rk == "r":
                    pass
                news.append(A)
                if eT.s == "uint8" and sfx == "":
                    # sequence-level fact
                    ts_ = t if tT.u().k == "basic" else self.bsof(s2, t)
                    so_ = self.bsof(s2, s)
                    n_ = th.mkseq(A, o, nl)
                    s2.assume(th.eqtrig(n_, th.concat(so_, ts_)))
                    s2.assume(n_ == th.concat(so_, ts_))
            self.store_arr(s2, eT, b, news)
            res.append(("ok", s2, SliceV(b, o, nl, c)))
        return res

    def copy(self, st, dst, src, dT, sT):
        th = self.th
        eT = dT.u().e
        if eT.u().k in ("struct", "array"):
            raise Unsupported("copy of []" + eT.s)
        if sT.u().k == "basic":
            sl = th.slen(src)
        else:
            sl = src.l
            self.hook(st, "elem", eT.s, src.b, False)
        n = z3.simplify(z3.If(dst.l < sl, dst.l, sl))
        if self.implies(st, dst.l <= sl):
            n = dst.l
        elif self.implies(st, sl <= dst.l):
            n = sl
        self.hook(st, "elem", eT.s, dst.b, True)
        comps = th.comps(eT)
        old = self.load_arr(st, eT, dst.b)
        if sT.u().k == "basic":
            get = [lambda i: th.sat(src, i)]
        else:
            get = [(lambda A: (lambda i: self.sel(A, th.ix(src.o, i))))(A) for A in self.load_arr(st, eT, src.b)]
        news = []
        ns = z3.simplify(n)
        for (sfx, so, rk), OA, g in zip(comps, old, get):
            if is_num(ns) and ns.as_long() <= 64:
                vals = [g(th.iv(k)) for k in range(ns.as_long())]
                A = OA
                for k, v in enumerate(vals):
                    A = z3.Store(A, th.ix(dst.o, th.iv(k)), v)
            else:
                A = th.fresh("arr" + sfx, z3.ArraySort(th.IDX, so))
                i, j = z3.Const("i", th.IDX), z3.Const("j", th.IDX)
                at = z3.Select(A, th.ix(dst.o, j))
                st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= th.iv(0), j < n), at == g(j)), patterns=[at]))
                st.assume(z3.ForAll([i], z3.Implies(z3.Or(i < dst.o, i >= dst.o + n), z3.Select(A, i) == z3.Select(OA, i)), patterns=[z3.Select(A, i)]))
            news.append(A)
        # writing through a nil/empty destination changes nothing
        self.store_arr(st, eT, dst.b, news)
        return n

    # ---- channels (ghost counters + events)
    def chan_recv(self, fr, st, ch, T, commaok):
        eT = T.u().e
        v = self.fresh_value(st, eT, "recv")
        if commaok:
            ok = self.th.fresh("recvok", z3.BoolSort())
            z = self.th.zero(eT, self)
            for a, b in zip(self.th.flat(v, eT, self), self.th.flat(z, eT, self)):
                st.assume(z3.Implies(z3.Not(ok), a == b))
            self.event(st, ("recv", ch, v, ok, True, [ch]))
            return [("ok", st, TupleV([v, ok]))]
        ok = self.th.fresh("recvok", z3.BoolSort())
        z = self.th.zero(eT, self)
        for a, b in zip(self.th.flat(v, eT, self), self.th.flat(z, eT, self)):
            st.assume(z3.Implies(z3.Not(ok), a == b))
        self.event(st, ("recv", ch, v, ok, True, [ch]))
        return [("ok", st, v)]

    def chan_close(self, fr, st, ch, T):
        return self.closemodel(fr, st, ch, T)

    def closemodel(self, fr, st, ch, T):
        pans = self.need(fr, st, ch != 0, "close of nil channel")
        c = self.gget(st, "chan", "closed", ch)
        pans += self.need(fr, st, z3.Not(c), "close of closed channel")
        if any(p[1] is st for p in pans):
            return pans
        self.gset(st, "chan", "closed", ch, z3.BoolVal(True))
        self.event(st, ("close", ch))
        return [("ok", st, None)] + pans

    def i_Send(self, fr, regs, st, ins):
        ch = self.ev(fr, regs, st, ins["x"])
        v = self.ev(fr, regs, st, ins["y"])
        c = self.gget(st, "chan", "closed", ch)
        pans = self.need(fr, st, z3.Not(c), "send on closed channel")
        if any(p[1] is st for p in pans):
            return pans
        self.sendcount(st, ch, True)
        self.event(st, ("send", ch, v, True))
        return [("ok", st, None)] + pans

    def sendcount(self, st, ch, blocking):
        if self.protos:
            n = self.gget(st, "chan", "cnt", ch)
            if blocking:
                self.oblige("table: a send never blocks", st, n < self.gget(st, "chan", "cap", ch), kind="rely")
            self.gset(st, "chan", "cnt", ch, n + 1)

    def i_Select(self, fr, regs, st, ins):
        th = self.th
        res = []
        T = self.rt(fr, ins["t"])
        states = ins["states"] or []
        nrecv = [i for i, s in enumerate(states) if not s["send"]]
        IT = self.prog.basic("int")
        for i, s in enumerate(states):
            s2 = st.copy()
            ch = self.ev(fr, regs, s2, s["ch"])
            cT = self.rt(fr, s["cht"])
            vals = []
            okv = th.fresh("selok", z3.BoolSort())
            rv = None
            for j in nrecv:
                eT = self.rt(fr, states[j]["cht"]).u().e
                if j == i:
                    rv = self.fresh_value(s2, eT, "recv")
                    vals.append(rv)
                else:
                    vals.append(th.zero(eT, self))
            s2.assume(ch != 0) if z3.is_expr(ch) else None
            if s["send"]:
                v = self.ev(fr, regs, s2, s["v"])
                c = self.gget(s2, "chan", "closed", ch)
                pans = self.need(fr, s2, z3.Not(c), "send on closed channel")
                res += pans
                self.sendcount(s2, ch, False)
                self.event(s2, ("send", ch, v, False))
            else:
                z = th.zero(cT.u().e, self)
                for a, b in zip(th.flat(rv, cT.u().e, self), th.flat(z, cT.u().e, self)):
                    s2.assume(z3.Implies(z3.Not(okv), a == b))
                self.event(s2, ("recv", ch, rv, okv, not ins["blocking"], [self.ev(fr, regs, s2, x["ch"]) for x in states] if ins["blocking"] else None))
            if self.query(s2.pc) == z3.unsat:
                continue
            res.append(("ok", s2, TupleV([th.num(i, IT), okv] + vals)))
        if not ins["blocking"]:
            s2 = st.copy()
            vals = [th.zero(self.rt(fr, states[j]["cht"]).u().e, self) for j in nrecv]
            res.append(("ok", s2, TupleV([th.num(-1, IT), z3.BoolVal(False)] + vals)))
        return res

    # ------------------------------------------------------------ loops
    def enter_loop(self, fr, regs, st, h, prev):
        """returns (outcomes, exits[(regs, st, block, prev)])"""
        body = fr.fn.loops()[h]
        nob = len(self.obls)
        st0 = st.copy()
        # 1. unrolling while the loop condition is decided
        rec = self.record
        try:
            return self.unroll_loop(fr, dict(regs), st, h, prev, body, True, 300)
        except NeedInv:
            del self.obls[nob:]
        if self.unroll:
            st = st0.copy()
            try:
                return self.unroll_loop(fr, dict(regs), st, h, prev, body, False, self.unroll)
            except NeedInv:
                del self.obls[nob:]
        return self.inv_loop(fr, regs, st0, h, prev, body)

    def unroll_loop(self, fr, regs, st, h, prev, body, decide, limit):
        outs, exits = [], []
        cur = [(regs, st, prev)]
        n = 0
        while cur:
            n += 1
            if n > limit + 1:
                raise NeedInv()
            nxt = []
            for (r, s, p) in cur:
                _, r2 = self.phis(fr, r, s, fr.fn.blocks[h], p)
                ctx = LoopCtx(h, body)
                ctx.decide = decide
                hasif = fr.fn.blocks[h]["instrs"][-1]["op"] == "If" and any(x not in body for x in fr.fn.blocks[h]["succs"])
                if decide and not hasif:
                    raise NeedInv()
                outs += self.run(fr, [(r2, s, h, 0, "start")], ctx)
                if decide and ctx.backs and any(i["op"] == "Next" for i in fr.fn.blocks[h]["instrs"]):
                    raise NeedInv()
                exits += ctx.exits
                nxt += ctx.backs
                if len(nxt) > 400:
                    raise NeedInv()
            cur = nxt
        return outs, exits

    def loopvars(self, fr, h):
        ph = []
        for ins in fr.fn.blocks[h]["instrs"] or []:
            if ins["op"] != "Phi":
                break
            ph.append((ins["r"], self.rt(fr, ins["t"]), ins.get("c") or "", ins))
        return ph

    def symvariant(self, e, n0):
        """does e mention a symbol created after fresh counter n0?"""
        seen = set()
        stk = [e]
        while stk:
            x = stk.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                nm = x.decl().name()
                if "!" in nm and not nm.startswith(("H", "lit!")):
                    try:
                        if int(nm.rsplit("!", 1)[1]) > n0:
                            return True
                    except ValueError:
                        pass
                if nm.startswith("HL") or nm.startswith("H"):
                    try:
                        if int(nm[1:].split("!", 1)[0].lstrip("L")) > n0:
                            return True
                    except ValueError:
                        pass
            if z3.is_app(x):
                stk.extend(x.children())
        return False

    def inv_loop(self, fr, regs0, st0, h, prev, body):
        th = self.th
        self.nloops += 1
        blk = fr.fn.blocks[h]
        phis = self.loopvars(fr, h)
        _, rinit = self.phis(fr, regs0, st0, blk, prev)
        n0 = th.nfresh
        modset = {}
        loopname = "%s/loop@%s" % (fr.fn.name, blk["i"])
        dropped = set()
        rec, wl = self.record, self.wlog
        entry_next = st0.next
        rounds = 0
        localw = []
        while True:
            rounds += 1
            if rounds > 60:
                raise Unsupported("loop inference does not converge in " + loopname)
            # havoc
            st = st0.copy()
            regs = dict(rinit)
            nx = th.fresh("next", z3.IntSort())
            st.assume(nx >= entry_next)
            st.next = nx
            for nm in modset:
                so, rk = self.compinfo[nm]
                th.nfresh += 1
                c = z3.Const("H%d!%s" % (th.nfresh, nm), so)
                self.heap_axioms(c, rk, nx)
                st.heap[nm] = c
            for r, T, c, ins in phis:
                v0 = rinit[r]
                if isinstance(v0, (IterV, TupleV, Loc)):
                    raise Unsupported("loop-carried " + str(T))
                regs[r] = self.fresh_value(st, T, "phi_" + (c or r))
            cands = [cd for cd in self.loop_cands(fr, h, phis, rinit, regs, st0, st, modset, entry_next, n0) if cd[0] not in dropped]
            # entry
            bad = [cd[0] for cd in cands if not self.prove_quick(st0, cd[1](rinit, st0))]
            if bad:
                dropped.update(bad)
                cands = [cd for cd in cands if cd[0] not in dropped]
            self.hyp = True
            for nm, f in cands:
                st.assume(f(regs, st))
            self.hyp = False
            # body, obligations off
            self.record = False
            self.wlog = []
            ctx = LoopCtx(h, body)
            try:
                base = st.copy()
                self.run(fr, [(dict(regs), st.copy(), h, 0, "start")], ctx)
            finally:
                w = self.wlog
                self.record, self.wlog = rec, wl
            new = False
            for nm, ref in w:
                if nm not in modset:
                    modset[nm] = set()
                    modset[nm + "\0refs"] = None
                    del modset[nm + "\0refs"]
                    new = True
            refs = {}
            for nm, ref in w:
                refs.setdefault(nm, []).append(ref)
            if self.set_refs(refs, n0):
                new = True
            if new:
                dropped = {x for x in dropped if not x.startswith("frame ")}
                continue
            drop = []
            for nm, f in cands:
                for (r2, s2, p2) in ctx.backs:
                    _, r3 = self.phis(fr, r2, s2, blk, p2)
                    g2 = f(r3, s2)
                    if not self.prove_quick(s2, g2) and not (self.fallback and nm.startswith("loop") and self.try_ext(["z3-new", "-T:12"], s2.pc, g2, 12000)):
                        drop.append(nm)
                        break
            if drop:
                dropped.update(drop)
                continue
            break
        # stable: final pass with obligations on
        self.invlog.append((loopname, [c[0] for c in cands]))
        for nm, f in cands:
            if rec:
                self.obls.append(self.done_obl("%s/invariant-initial[%s]" % (loopname, nm)))
                self.obls.append(self.done_obl("%s/invariant-preserved[%s]" % (loopname, nm)))
        if wl is not None:
            for nm in modset:
                for r in self.invrefs.get(nm, [None]) or [None]:
                    wl.append((nm, r))
        kinds = set()
        st.ev = st.ev + (("loop", loopname, kinds),)
        n = len(st.ev)
        ctx = LoopCtx(h, body)
        outs = self.run(fr, [(dict(regs), st, h, 0, "start")], ctx)
        for _, s2, _ in ctx.backs:
            kinds.update(e[0] for e in s2.ev[n:])
            for e in s2.ev[n:]:
                if e[0] == "loop":
                    kinds.update(e[2])
        return outs, ctx.exits

    itercheck = None
    rely = None
    interfere = False

    def call_fv(self, st, fv, args, sig, d):
        """call of a function value from a library model"""
        class F:
            fid, depth, env = -1, 1, d.get("env") or {}
        return [("ok" if k == "ret" else k, s, v) for k, s, v in
                self.exec_call(F, st, {"args": args, "argts": [], "sig": sig, "line": d.get("line"), "fv": fv, "env": d.get("env")})]

    def iterate(self, st, f, sig, mkargs, d, tag):
        """f is called for any number of elements, each made by mkargs: one arbitrary iteration is verified,
        everything an iteration writes is arbitrary before it and afterwards"""
        mod = set()
        rec, wl = self.record, self.wlog

        def go(base):
            s = base.copy()
            s.ev = s.ev + (("iter", tag),)
            args = mkargs(s)
            return args, self.call_fv(s, f, args, sig, d)

        def havoc(s):
            for nm in mod:
                so, rk = self.compinfo[nm]
                s.heap[nm] = self.th.fresh("it_" + nm, so)
        while True:
            self.record = False
            self.wlog = []
            try:
                b = st.copy()
                havoc(b)
                go(b)
            finally:
                w = self.wlog
                self.record, self.wlog = rec, wl
            new = {nm for nm, _ in w} - mod
            if not new:
                break
            mod |= new
        if wl is not None:
            wl += [(nm, None) for nm in mod]
        b = st.copy()
        havoc(b)
        res = []
        args, outs = go(b)
        for k, s, v in outs:
            if k == "ok":
                self.iterT = list(sig.params) + list(sig.results)
                if self.itercheck is not None and rec:
                    self.itercheck(s, tag, args, v)
            else:
                res.append((k, s, v))
        havoc(st)
        kinds = set()
        st.ev = st.ev + (("loop", tag, kinds), ("range", tag))
        for k, s, v in outs:
            kinds.update(e[0] for e in s.ev[len(b.ev):])
        kinds.discard("iter")
        return [("ok", st, None)] + res

    def set_refs(self, refs, n0):
        """record loop-invariant written references per component; True when they changed"""
        ch = False
        for nm, rs in refs.items():
            keep = {}
            for r in rs:
                if r is None:
                    keep["*"] = None
                elif not self.symvariant(r, n0):
                    keep[r.get_id()] = r
            old = self.invrefs.get((nm, n0))
            lst = [r for r in keep.values()]
            if old is None or {(-1 if x is None else x.get_id()) for x in old} != {(-1 if x is None else x.get_id()) for x in lst}:
                u = {(-1 if x is None else x.get_id()): x for x in (old or [])}
                n = len(u)
                u.update({(-1 if x is None else x.get_id()): x for x in lst})
                self.invrefs[(nm, n0)] = list(u.values())
                if old is None or len(u) != n:
                    ch = True
        return ch

    def done_obl(self, name):
        o = Obl(name, [], z3.BoolVal(True), self.line, "invariant")
        o.status, o.backend = "proved", "z3"
        return o

    def prove_quick(self, st, goal, to=None):
        g = z3.simplify(goal)
        if z3.is_true(g):
            return True
        parts = self.conjkeys(goal)
        have = set()
        for a in st.pc:
            have.update(self.conjkeys(a))
        if parts and all(k in have for k in parts):
            return True
        return self.query(st.pc, [z3.Not(goal)], to or self.candto) == z3.unsat

    def conjkeys(self, e):
        """syntactic keys of the conjuncts of e (bound variable names do not matter)"""
        r = self.keycache.get(e.get_id())
        if r is None:
            if z3.is_and(e):
                k = tuple(x for c in e.children() for x in self.conjkeys(c))
            elif z3.is_quantifier(e) and e.is_forall():
                k = (("q", tuple(e.var_sort(i).get_id() for i in range(e.num_vars())), e.body().get_id()),)
            else:
                k = (e.get_id(),)
            self.keycache[e.get_id()] = r = (e, e.body() if z3.is_quantifier(e) else None, k)
        return r[2]

    candto = 1500

    def loop_cands(self, fr, h, phis, rinit, regs, st0, st, modset, entry_next, n0):
        """candidate invariants: [(name, fn(regs, st)->Bool)]"""
        th = self.th
        out = []
        # heap frame
        for nm in modset:
            so, rk = self.compinfo[nm]
            if not isinstance(so, z3.ArraySortRef) or so.domain() != z3.IntSort():
                continue
            h0 = st0.heap.get(nm)
            if h0 is None:
                h0 = self.hget(st0, nm, so, rk)
            rs = self.invrefs.get((nm, n0), [])
            if any(r is None for r in rs):
                continue

            def mk(nm, h0, rs):
                r = z3.Int("fr")

                def f(rg, s):
                    cur = s.heap.get(nm)
                    return z3.ForAll([r], z3.Implies(z3.And(th.own(r) < entry_next, *[r != x for x in rs]), z3.Select(cur, r) == z3.Select(h0, r)),
                                     patterns=[z3.Select(cur, r)] if not (z3.is_store(cur) or z3.is_K(cur)) else [])

                def g(rg, s):
                    cur = s.heap.get(nm)
                    if z3.is_store(cur) or z3.is_K(cur):
                        nc = th.fresh("fc", cur.sort())
                        # only used as goal: state over the raw term
                        return z3.ForAll([r], z3.Implies(z3.And(th.own(r) < entry_next, *[r != x for x in rs]), z3.Select(cur, r) == z3.Select(h0, r)))
                    return f(rg, s)
                return g
            out.append(("frame " + nm, mk(nm, h0, rs)))
            if nm.endswith("|lk"):
                for x in rs:
                    out.append(("lock state of %s restored" % x, lambda rg, s, nm=nm, h0=h0, x=x: z3.Select(s.heap.get(nm), x) == z3.Select(h0, x)))
        # integers
        for r, T, c, ins in phis:
            if th.isint(T) and not (th.is_bvint(T) and not th.bv):
                v0 = rinit[r]
                w, sg = th.intinfo(T)
                ge = (lambda a, b: z3.UGE(a, b)) if (th.bv and not sg) else (lambda a, b: a >= b)
                le = (lambda a, b: z3.ULE(a, b)) if (th.bv and not sg) else (lambda a, b: a <= b)
                out.append(("%s>=init" % r, lambda rg, s, r=r, v0=v0, ge=ge: ge(rg[r], v0)))
                out.append(("%s<=init" % r, lambda rg, s, r=r, v0=v0, le=le: le(rg[r], v0)))
                if sg:
                    z = th.num(0, T)
                    out.append(("%s>=0" % r, lambda rg, s, r=r, z=z: rg[r] >= z))
                    out.append(("%s>=-1" % r, lambda rg, s, r=r, z=th.num(-1, T): rg[r] >= z))
                # bound from header comparison
                for bnd, nmb in self.header_bounds(fr, h, phis, rinit, st0):
                    if bnd.sort() == v0.sort():
                        out.append(("%s<=%s" % (r, nmb), lambda rg, s, r=r, b=bnd, le=le: le(rg[r], b)))
                        out.append(("%s<%s" % (r, nmb), lambda rg, s, r=r, b=bnd, le=le: z3.And(le(rg[r], b), rg[r] != b)))
            elif T.u().k == "slice":
                v0 = rinit[r]
                out.append(("%s fresh-or-init" % r, lambda rg, s, r=r, v0=v0: z3.Or(th.own(rg[r].b) >= entry_next, z3.And(rg[r].b == v0.b, rg[r].o == v0.o))))
                out.append(("%s fresh" % r, lambda rg, s, r=r: z3.Or(th.own(rg[r].b) >= entry_next, rg[r].b == 0)))
                out.append(("%s len>=init" % r, lambda rg, s, r=r, v0=v0: rg[r].l >= v0.l))
            else:
                try:
                    v0 = th.flat(rinit[r], T, self)
                    out.append(("%s==init" % r, lambda rg, s, r=r, v0=v0, T=T: z3.And(*[a == b for a, b in zip(th.flat(rg[r], T, self), v0)])))
                except Unsupported:
                    pass
        for r, T, c, ins in phis:
            for r2, T2, c2, ins2 in phis:
                if r != r2 and th.isint(T) and T2.u().k == "slice" and rinit[r].sort() == th.IDX:
                    out.append(("%s==len(%s)" % (r, r2), lambda rg, s, r=r, r2=r2: rg[r] == rg[r2].l))
        if self.candgen is not None:
            out += self.candgen(self, fr, h, phis, rinit, st0, entry_next)
        return out

    candgen = None
    hyp = False

    def header_bounds(self, fr, h, phis, rinit, st0):
        """loop-invariant operands compared in the loop header"""
        res = []
        blk = fr.fn.blocks[h]
        defs = {i["r"]: i for i in blk["instrs"] if "r" in i}
        for ins in blk["instrs"]:
            if ins["op"] == "BinOp" and ins["o"] in ("<", "<=", ">", ">=", "!=", "=="):
                for side in ("x", "y"):
                    o = ins[side]
                    if o and o["k"] == "reg" and o["n"] in defs:
                        # the length of something that the loop does not redefine
                        di = defs[o["n"]]
                        if di["op"] == "Call" and di.get("fn", {}).get("k") == "builtin" and di["fn"]["n"] in ("len", "cap"):
                            a = di["args"][0]
                            x = rinit.get(a["n"]) if a["k"] == "reg" and a["n"] not in defs else None
                            if isinstance(x, SliceV):
                                res.append((x.l if di["fn"]["n"] == "len" else x.c, o["n"]))
                            elif x is not None and z3.is_expr(x) and x.sort() == self.th.BS:
                                res.append((self.th.slen(x), o["n"]))
                    if o and o["k"] == "reg" and o["n"] not in defs and o["n"] in rinit:
                        v = rinit[o["n"]]
                        if z3.is_expr(v) and (z3.is_int(v) or z3.is_bv(v)):
                            res.append((v, o["n"]))
        return res

    # ------------------------------------------------------------ discharge
    def discharge(self, to=8000, total=None):
        for o in self.obls:
            if o.status is not None:
                continue
            t0 = time.time()
            if total is not None and t0 > total:
                o.status = "unknown"
                o.detail = "time budget exhausted"
                continue
            o.status, o.backend, o.detail = self.prove(o.pc, o.goal, to)
            o.time = time.time() - t0

    def conjuncts(self, g):
        if z3.is_and(g):
            return [c for x in g.children() for c in self.conjuncts(x)]
        if z3.is_implies(g) and z3.is_and(g.arg(1)):
            return [z3.Implies(g.arg(0), c) for c in self.conjuncts(g.arg(1))]
        return [g]

    def prove(self, pc, goal, to):
        g = z3.simplify(goal)
        if z3.is_true(g):
            return "proved", "z3-simplify", ""
        cs = self.conjuncts(goal)
        if len(cs) > 1:
            known = {x.get_id() for p in pc for x in self.conjuncts(p)}
            cs = [c for c in cs if c.get_id() not in known]
            if not cs:
                return "proved", "z3-simplify", ""
            goal = z3.And(*cs) if len(cs) > 1 else cs[0]
            st, be, why = self.prove1(pc, goal, to, 2 if len(cs) > 1 else None)
            if st != "unknown" or len(cs) == 1:
                return st, be, why
            # one conjunct at a time, the proved ones as hypotheses
            pc = list(pc)
            for c in cs:
                st, be, why = self.prove1(pc, c, to)
                if st != "proved":
                    return st, be, why
                pc.append(c)
            return "proved", be, ""
        return self.prove1(pc, goal, to)

    def prove1(self, pc, goal, to, ncfg=None):
        g = z3.simplify(goal)
        if z3.is_true(g):
            return "proved", "z3-simplify", ""
        cfgs = [dict(to=min(to // 4, 1500)), dict(to=min(to // 2, 3000), full=1), dict(to=min(to // 2, 3000), mbqi=True), dict(to=min(to // 2, 4000), cvc5=1),
                dict(to=to, full=1), dict(to=to // 2, cvc5=1), dict(to=to // 2, seed=7, arith=2), dict(to=to // 2, mbqi=True)]
        why = ""
        ground = [a for a in pc if not self.has_quant(a)]
        if len(ground) < len(pc):
            # fewer hypotheses first: the ground ones often suffice
            s = z3.SimpleSolver()
            s.set("auto_config", False)
            s.set("smt.mbqi", False)
            self.limits(s, 500)
            for a in self.th.axioms + ground:
                s.add(a)
            s.add(z3.Not(goal))
            self.nq += 1
            if s.check() == z3.unsat:
                return "proved", "z3", ""
        for i, c in enumerate(cfgs[:ncfg]):
            if "cvc5" in c:
                if self.try_cvc5(pc, goal, c["to"]):
                    return "proved", "cvc5", ""
                continue
            s = z3.Solver() if c.get("full") else z3.SimpleSolver()
            s.set("auto_config", False)
            s.set("smt.mbqi", bool(c.get("mbqi")))
            self.limits(s, c["to"])
            if "seed" in c:
                s.set("random_seed", c["seed"])
            if "arith" in c:
                s.set("smt.arith.solver", c["arith"])
            for a in self.th.axioms:
                s.add(a)
            for a in pc:
                s.add(a)
            s.add(z3.Not(goal))
            r = s.check()
            self.nq += 1
            if r == z3.unsat:
                return "proved", "z3" + ("" if i == 0 else "-cfg%d" % i), ""
            if r == z3.sat:
                m = s.model()
                return "failed", "z3", self.show_model(m)
            why = s.reason_unknown()
        if self.fallback and self.try_ext(["z3-new", "-T:25"], pc, goal, 25000):
            return "proved", "z3-new", ""
        return "unknown", "z3+cvc5", why

    fallback = False

    def try_cvc5(self, pc, goal, to):
        to = to * self.scale * 2
        return self.try_ext(["cvc5", "--tlimit=%d" % to], pc, goal, to)

    def try_ext(self, cmd, pc, goal, to):
        import subprocess, tempfile, os
        s = z3.Solver()
        for a in self.th.axioms:
            s.add(a)
        for a in pc:
            s.add(a)
        s.add(z3.Not(goal))
        txt = "(set-logic ALL)\n" + s.to_smt2().replace("\\|", "~")
        fd, p = tempfile.mkstemp(suffix=".smt2")
        try:
            os.write(fd, txt.encode())
            os.close(fd)
            r = subprocess.run(cmd + [p], capture_output=True, text=True, timeout=to / 1000 + 5)
            return r.stdout.strip().startswith("unsat")
        except Exception:
            return False
        finally:
            os.unlink(p)

    def show_model(self, m):
        out = []
        for d in m.decls():
            if d.arity() == 0 and not d.name().startswith(("H", "lit!")):
                v = m[d]
                if z3.is_int_value(v) or z3.is_bv_value(v) or z3.is_true(v) or z3.is_false(v):
                    out.append("%s=%s" % (d.name(), v))
        return "; ".join(sorted(out)[:60])
