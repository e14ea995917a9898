"""Verification of contract items: generate and discharge the obligations."""
import time
import traceback
import z3
from .engine import Engine, Obl, Budget, NeedInv, GHOSTS
from .theory import is_num, Unsupported, Loc, TupleV, SliceV, StructV, Closure, IterV
from .spec import SpecFile, SpecError, Ev, TypeEnv, findfn, Clause, Addr, Lit, strip_targs
from . import models as M
from . import models7 as M7


class Result:
    def __init__(self, item):
        self.item = item
        self.obls = []
        self.error = None
        self.skipped = False
        self.stats = {}


def tparam_env(prog, fn):
    env, names = {}, {}
    for tid in fn.tparams:
        T = prog.resolve(tid)
        names[T.name] = T
    return env, names


def opt1(con, spec, k, default=None):
    v = con.opts.get(k)
    if v:
        return v[-1]
    return spec.opts.get(k, default)


def optall(con, spec, k):
    r = list(con.opts.get(k, []))
    if k in spec.opts:
        r.append(spec.opts[k])
    return r


def lock_arrays(E, st):
    for tn in ("sync.Mutex", "sync.RWMutex"):
        nm = "G|%s|lk" % tn
        E.hget(st, nm, z3.ArraySort(z3.IntSort(), z3.IntSort()))
        st.heap[nm] = z3.K(z3.IntSort(), z3.IntVal(0))


def locks_released(E, st):
    gs = []
    r = z3.Int("lr")
    for tn in ("sync.Mutex", "sync.RWMutex"):
        a = st.heap.get("G|%s|lk" % tn)
        if a is None or z3.is_K(a):
            continue
        # concrete store chain: only the stored references can differ
        idx = []
        b = a
        while z3.is_store(b):
            idx.append(b.arg(1))
            b = b.arg(0)
        base = E.lockbase.get("G|%s|lk" % tn)
        if z3.is_K(b):
            gs += [z3.Select(a, i) == (0 if base is None else z3.Select(base, i)) for i in idx]
        else:
            gs.append(z3.ForAll([r], z3.Select(a, r) == (0 if base is None else z3.Select(base, r))))
    return z3.And(*gs) if gs else None


def make_engine(prog, con, spec):
    mode = opt1(con, spec, "mode", "int")
    budget = float(opt1(con, spec, "budget", "240")) * Engine.scale
    E = Engine(prog, mode, budget)
    M.install(E)
    E.unroll = int(opt1(con, spec, "unroll", "0"))
    E.timeout = int(opt1(con, spec, "timeout", "8000"))
    E.candto = int(opt1(con, spec, "candto", "1500"))
    E.fallback = opt1(con, spec, "fallback", "") == "on"
    E.mbqi = opt1(con, spec, "mbqi", "") == "on"
    E.appendboth = opt1(con, spec, "append", "") == "both"
    E.groundfeas = opt1(con, spec, "branch", "") == "ground"
    E.specufs = {}
    E.lockbase = {}
    te = TypeEnv(prog, {})
    E.opaqs = set(spec.opaque) - set(" ".join(optall(con, spec, "reveal")).split())
    ufs = list(spec.ufs) + [(n, ts, r) for n, (ts, r) in spec.opaque.items() if n in E.opaqs]
    for n, ts, r in ufs:
        ts, r = [te.res(t) for t in ts], te.res(r)
        E.specufs[n] = (z3.Function("uf~" + n, *([E.th.comps(t)[0][1] for t in ts] + [E.th.comps(r)[0][1]])), ts, r)
    s0 = E.init_state()

    def base(vars, transparent=False):
        ev = Ev(E, te, s0, s0, vars, spec.macros, False)
        ev.transparent = transparent
        return ev
    skip = set(" ".join(optall(con, spec, "without")).split()) | ({con.head} if con.kind == "lemma" else set())
    for n, a in [x for x in spec.axioms if x[0] not in skip]:
        E.th.axioms.append(base({}).bool(a, 1))
    if spec.tablefacts or spec.tableinv:
        E.tablefact = lambda A, tb: table_facts(E, spec, prog, base, A, tb)
        E.tableground = opt1(con, spec, "tableground", "yes") == "yes"
    for p in optall(con, spec, "plugin"):
        for nm in p.split():
            from . import plugins
            getattr(plugins, nm)(E, con, spec)
    return E


def table_facts(E, spec, prog, base, A, tb):
    """facts about a constant byte table, each checked against its actual contents first"""
    th = E.th
    I, B8 = prog.basic("int"), prog.basic("uint8")
    n = len(tb)

    def call(f, x, tr):
        return base({"%b": (x, B8)}, tr).val(("call", f, [("id", "%b")]))[0]
    for (b, k), ast in spec.tablefacts:
        def inst(x, i, tr):
            return base({b: (x, B8), k: (i, I)}, tr).bool(ast, 0)
        if all(z3.is_true(z3.simplify(inst(th.bytec(x), th.iv(i), True))) for i, x in enumerate(tb)):
            q = z3.Const("q", th.IDX)
            th.axioms.append(z3.ForAll([q], z3.Implies(z3.And(q >= th.iv(0), q < th.iv(n)), inst(z3.Select(A, q), q, False)), patterns=[z3.Select(A, q)]))
    for cond, index in spec.tableinv:
        good = True
        for x in range(256):
            if not z3.is_false(z3.simplify(call(cond, th.bytec(x), True))):
                i = z3.simplify(call(index, th.bytec(x), True))
                good = good and is_num(i) and 0 <= i.as_long() < n and tb[i.as_long()] == x
        if good:
            q = z3.Const("q", th.BYTE)
            i = call(index, q, False)
            c = call(cond, q, False)
            th.axioms.append(z3.ForAll([q], z3.Implies(c, z3.And(i >= th.iv(0), i < th.iv(n), z3.Select(A, i) == q)), patterns=[c]))


def typenames(prog, con, spec):
    names = {}
    for o in optall(con, spec, "tparams"):
        for x in o.split(","):
            n, _, c = x.strip().partition(" ")
            names[n] = prog.tparam(n, c or "any")
    for o in optall(con, spec, "type"):
        n, _, t = o.partition("=")
        from .spec import Parser
        names[n.strip()] = TypeEnv(prog, dict(names)).res(Parser(t.strip()).type())
    return names


class ModCon:
    """use of a verified contract at a call site instead of the body (only for functions whose frame is proved)"""
    modular = True

    def __init__(self, prog, spec, con, fn):
        self.prog, self.spec, self.con, self.fn = prog, spec, con, fn

    def apply(self, E, st, args, targs, d):
        con, fn, prog, spec = self.con, self.fn, self.prog, self.spec
        env = dict(zip(fn.tparams, targs))
        names = {prog.resolve(t).name: T for t, T in env.items()}
        tenv = TypeEnv(prog, names)
        vars = {n: (a, prog.resolve(p["t"], env)) for n, a, p in zip(con.params, args, fn.params)}
        ev = Ev(E, tenv, st, st, dict(vars), spec.macros, True)
        for c in con.requires:
            E.oblige("precondition %s of %s" % (c.name, con.head), st, ev.bool(c.ast, 1), kind="requires")
            st.assume(ev.bool(c.ast, -1))
        out = []
        if con.panics is not None:
            s2 = st.copy()
            s2.assume(Ev(E, tenv, s2, s2, dict(vars), spec.macros, False).bool(con.panics, -1))
            if E.query(s2.pc) != z3.unsat:
                out.append(("panic", s2, (E.rterr("callee"), "panic in " + con.head, E.line)))
        pre = st.copy()
        n = E.th.fresh("next", z3.IntSort())
        st.assume(n >= st.next)
        st.next = n
        for kind, ref, T, f in modplaces(E, con, tenv, spec, pre, vars):
            hk, E.accesshook = E.accesshook, None
            if kind == "field":
                i = [n_ for n_, _ in T.u().fields].index(f)
                loc, fT = E.field_addr(st, ref, T, i)
                E.store(st, fT, loc, E.fresh_value(st, fT, "mod"))
            elif kind == "smap":
                for g in GHOSTS.get("sync.Map", {}):
                    E.gset(st, "sync.Map", g, ref, E.th.fresh("mod" + g, E.gget(st, "sync.Map", g, ref).sort()))
            elif kind == "cell":
                E.store(st, T, ref, E.fresh_value(st, T, "mod"))
            else:
                E.store_arr(st, T, ref, [E.th.fresh("modarr", a.sort()) for a in E.load_arr(st, T, ref)])
            E.accesshook = hk
        rts = [prog.resolve(r["t"], env) for r in fn.results]
        vals = [E.fresh_value(st, T, "ret") for T in rts]
        vs = dict(vars)
        for i, (x, T) in enumerate(zip(vals, rts)):
            vs["r%d" % i] = (x, T)
            if i < len(con.rets):
                vs[con.rets[i]] = (x, T)
        if len(vals) == 1:
            vs["result"] = (vals[0], rts[0])
        for n_ in " ".join(optall(con, spec, "newcell")).split():
            # the new object a result points to has contents of its own
            x, T = vs[n_]
            hk, E.accesshook = E.accesshook, None
            E.store(st, T.u().e, x, E.fresh_value(st, T.u().e, "new"))
            E.accesshook = hk
        ev = Ev(E, tenv, st, pre, vs, spec.macros, False)
        for c in con.ensures:
            st.assume(ev.bool(c.ast, 1))
        return [("ok", st, E.result(vals))] + out


def modplaces(E, con, tenv, spec, pre, vars):
    """what a contract says its function may change: places evaluated in the state before the call"""
    from .spec import Parser
    out = []
    for o in optall(con, spec, "modifies"):
        for x in o.split(","):
            kind, _, e = x.strip().rpartition(" ")
            ev = Ev(E, tenv, pre, pre, dict(vars), spec.macros, False)
            if kind == "":
                e, _, f = e.rpartition(".")
                v, T = ev.val(Parser(e).expr())
                out.append(("field", v, T.u().e, f))
            elif kind == "smap":
                from .spec import refv
                out.append(("smap", refv(ev, ev.ev(Parser(e).expr())), None, None))
            elif kind == "cell":
                v, T = ev.val(Parser(e).expr())
                out.append(("cell", v, T.u().e, None))
            elif kind == "elems":
                v, T = ev.val(Parser(e).expr())
                out.append(("elems", v.b, T.u().e, None))
            else:
                raise SpecError("modifies " + x)
    return out


def frame_obl(E, st, pre, mods=()):
    """everything allocated before the call is unchanged, but for the places named"""
    r = z3.Int("fr")
    gs = []
    for nm, h in st.heap.items():
        if nm.startswith(("G|sync.Mutex", "G|sync.RWMutex")):
            continue
        so, rk = E.compinfo.get(nm, (h.sort(), None))
        h0 = pre.heap.get(nm)
        if h0 is None:
            h0 = E.hget(pre, nm, so, rk)
        if z3.eq(h, h0) or so.domain() != z3.IntSort():
            continue
        ex = [ref for kind, ref, T, f in mods
              if kind == "field" and nm.startswith("F|%s|%s|" % (T.s, f)) or kind == "smap" and nm.startswith("G|sync.Map|") or kind == "cell" and nm.startswith("C|%s|" % T.u().s) or kind == "elems" and nm.startswith("E|%s|" % T.s)]
        gs.append(z3.ForAll([r], z3.Implies(z3.And(E.th.own(r) < pre.next, *[r != x for x in ex]), z3.Select(h, r) == z3.Select(h0, r))))
    return z3.And(*gs) if gs else z3.BoolVal(True)


def verify_item(prog, spec, con):
    R = Result(con)
    t0 = time.time()
    E = None
    if "assumed" in con.opts:
        R.skipped = True
        R.assumed = True
        return R
    try:
        E = make_engine(prog, con, spec)
        for c in spec.items:
            if c.kind == "func" and "modular" in c.opts and c is not con:
                fn = findfn(prog, c.head)
                if fn is not None:
                    E.contracts[fn.name] = ModCon(prog, spec, c, fn)
        if con.kind == "func":
            run_func(E, prog, spec, con, R)
        elif con.kind == "proc":
            run_proc(E, prog, spec, con, R)
        else:
            run_lemma(E, prog, spec, con, R)
        if not R.skipped:
            E.discharge(E.timeout, E.deadline + 60)
    except (Unsupported, Budget, SpecError, NeedInv) as e:
        R.error = "%s: %s" % (type(e).__name__, e)
    except RecursionError as e:
        R.error = "RecursionError"
    except z3.Z3Exception as e:
        R.error = "Z3Exception: %s" % e
        R.trace = traceback.format_exc()
    except (KeyError, AttributeError, IndexError, TypeError, ValueError, AssertionError) as e:
        R.error = "%s: %s" % (type(e).__name__, e)
        R.trace = traceback.format_exc()
    if E is not None:
        R.obls = E.obls
        R.stats = {"paths": E.paths, "queries": E.nq, "qtime": round(E.qtime, 2), "wall": round(time.time() - t0, 2),
                   "inlined": sorted(E.inlined), "trusted": sorted(E.trusted), "modular": sorted(E.modular),
                   "loops": E.invlog, "mode": E.th.mode, "unroll": E.unroll}
    return R


def inst_env(fn, con, prog, names):
    """type-parameter environment of fn: declared instance types, otherwise the parameters themselves"""
    env = {}
    inst = names
    for tid in fn.tparams:
        T = prog.resolve(tid)
        if T.name in inst:
            env[tid] = inst[T.name]
    return env


def loop_clauses(E, prog, spec, con, tenv, vars):
    """candidate loop invariants from the contract (pruned to the inductive ones)"""
    import itertools

    def gen(E, fr, h, phis, rinit, st0, entry_next):
        out = []

        def add(name, ast, binding, it=None):
            def f(rg, s):
                vs = dict(vars)
                for n, r, T in binding:
                    if r.startswith("cell:"):
                        h, E.accesshook = E.accesshook, None
                        vs[n] = (E.load(s, T, rg[r[5:]]), T)
                        E.accesshook = h
                    else:
                        vs[n] = (rg[r], T)
                ev = Ev(E, tenv, s, E.pre, vs, spec.macros, not E.hyp)
                ev.iter = it
                ev.snaps = {"entry": st0}
                return ev.bool(ast, 1)
            try:
                f(rinit, st0.copy())
            except (SpecError, KeyError, AttributeError, z3.Z3Exception):
                return
            out.append((name, f))
        for c in con.requires:
            add("requires " + c.name, c.ast, [])
        cells, fixed = [], []
        for b in fr.fn.blocks:
            for ins in b["instrs"] or []:
                if ins.get("r") in rinit and ins.get("t") is not None and ins["op"] != "Phi":
                    try:
                        T = E.rt(fr, ins["t"])
                        if T.u().k in ("ptr", "map", "slice", "iface", "chan"):
                            fixed.append((ins["r"], T))
                    except Exception:
                        pass
                if ins["op"] == "Alloc" and ins["r"] in rinit:
                    cells.append((ins["r"], E.rt(fr, ins["t"]).u().e))
        for p in fr.fn.params:
            if "p$" + p["n"] in rinit:
                T = E.rt(fr, p["t"])
                if T.u().k in ("ptr", "map", "slice", "iface", "chan") or fr.depth > 0:
                    fixed.append(("p$" + p["n"], T))
        for p, v in rinit.items():
            if p.startswith("f$"):
                for fv in fr.fn.freevars:
                    if "f$" + fv["n"] == p and E.rt(fr, fv["t"]).u().k == "ptr":
                        cells.append((p, E.rt(fr, fv["t"]).u().e))
        for nm, vl, ast, txt in con.loops:
            pools = []
            for n, t in vl:
                T = tenv.res(t)
                pools.append([(n, r, pT) for r, pT, c, ins in phis if pT.u().s == T.u().s] +
                             [(n, "cell:" + r, cT) for r, cT in cells if cT.u().s == T.u().s] +
                             [(n, r, fT) for r, fT in fixed if fT.s == T.s])
            for k, combo in enumerate(itertools.product(*pools)):
                its = [None]
                if "ranged(" in txt:
                    its = [v for r, v in rinit.items() if isinstance(v, IterV) and v.kind == "map"]
                for it in its:
                    add("%s%s" % (nm, "[" + ",".join(b[1] for b in combo) + "]" if combo else ""), ast, list(combo), it)
        return out
    return gen


def run_func(E, prog, spec, con, R):
    fn = findfn(prog, con.head)
    if fn is None:
        if "optional" in con.opts:
            R.skipped = True
            return
        raise SpecError("function %s not found in the source" % con.head)
    R.fn = fn.name
    names0 = typenames(prog, con, spec)
    env = inst_env(fn, con, prog, names0)
    names = dict(names0)
    for tid in fn.tparams:
        T = prog.resolve(tid)
        names.setdefault(T.name, env.get(tid, T))
    tenv = TypeEnv(prog, names)
    st = E.init_state()
    lock_arrays(E, st)
    args, vars = [], {}
    if len(con.params) != len(fn.params):
        raise SpecError("%s: contract names %d parameters, source has %d" % (con.head, len(con.params), len(fn.params)))
    for p, cn in zip(fn.params, con.params):
        T = prog.resolve(p["t"], env)
        v = E.fresh_value(st, T, "p_" + cn)
        args.append(v)
        vars[cn] = (v, T)
    E.paramvars = vars
    pre0 = st
    ev = Ev(E, tenv, st, st, vars, spec.macros, False)
    if "locked" in con.opts:
        # the function runs under a lock that its caller holds exclusively
        from .spec import Parser, refv
        v = ev.ev(Parser(opt1(con, spec, "locked")).expr())
        T = v[1].u().e if v[1].u().k == "ptr" else v[1]
        nm = "G|%s|lk" % T.name
        st.heap[nm] = z3.Store(st.heap[nm], refv(ev, v), 1)
        E.lockbase[nm] = st.heap[nm]
    for c in con.requires:
        st.assume(ev.bool(c.ast, 1))
    if spec.protocols:
        M7.setup(E, prog, spec, con, tenv, vars, st, lambda s, vs: Ev(E, tenv, s, s, vs, spec.macros, False))
    pre = st.copy()
    E.pre = pre
    if hasattr(E, "onstart"):
        for f in E.onstart:
            f(E, st, ev)
    if E.query(pre.pc, to=3000) == z3.unsat:
        raise SpecError("precondition of %s is unsatisfiable" % con.head)
    E.current = con
    E.candgen = loop_clauses(E, prog, spec, con, tenv, vars)
    shared_setup(E, prog, spec, con, tenv, vars, pre)
    E.accesshook = getattr(E, "hookfn", None)
    outs = E.call_env(st, fn, env, args, (), None, 0)
    E.accesshook = None
    finish(E, prog, spec, con, fn, env, tenv, vars, pre, outs)


def linear_obl(E, s, pre, c, mk):
    """the operation takes effect at one of its map operations, and the others change nothing"""
    from . import models as M2
    evs = []
    for e in s.ev:
        if e[0] == "sm":
            evs.append(e)
        elif e[0] == "loop" and "sm" in e[2]:
            raise SpecError("map operation inside a loop")

    def put(st, m, x):
        for g, v in zip(("dom", "val", "card"), x):
            E.gset(st, "sync.Map", g, m, v)
    same = [z3.And(*[z3.BoolVal(True) if z3.eq(a, b) else a == b for a, b in zip(e[4], e[5])]) for e in evs]
    alts = []
    for i, e in enumerate(evs):
        s1, p1 = s.copy(), pre.copy()
        put(s1, e[2], e[5])
        put(p1, e[2], e[4])
        alts.append(z3.And(mk(s1, p1).bool(c.ast, 1), *[x for j, x in enumerate(same) if j != i]))
    return z3.Or(*alts) if alts else z3.BoolVal(False)


def field_comps(E, prog, st, tn, ref, fields):
    """values of these fields of the object"""
    T = [t for t in prog.cache.values() if t.k == "named" and shortname(t.name) == tn and t.u().k == "struct"][0]
    out = []
    h, E.accesshook = E.accesshook, None
    for i, (n, ft) in enumerate(T.u().fields):
        if n in fields:
            a = E.field_addr(st, ref, T, i)[0]
            out.append((n, ft, a, E.load(st, ft, a)))
    E.accesshook = h
    return T, out


def critical_setup(E, prog, spec, con, tenv, vars, pre):
    """interference at every acquisition of the lock, the invariant at every release"""
    objs = []
    for n, (v, T) in vars.items():
        e = T.u().e if T.u().k == "ptr" else None
        if e is not None and e.k == "named" and shortname(e.name) in spec.criticals:
            objs.append((n, v, shortname(e.name), e))
    E.sections = True

    def each(st, r):
        for n, v, tn, e in objs:
            g = spec.criticals[tn]
            l = lock_of(E, prog, st, e.name, g, v)
            if z3.eq(z3.simplify(l), z3.simplify(r)) or E.implies(st, l == r):
                yield n, v, tn, g

    def inv(st, g, n, goal, base=None):
        return Ev(E, tenv, st, base or st, {**vars, "self": vars[n]}, spec.macros, goal).bool(g["inv"], 1)

    def onlock(st, r, mode):
        for n, v, tn, g in each(st, r):
            h, E.accesshook = E.accesshook, None
            T, fs = field_comps(E, prog, st, tn, v, g["fields"])
            before = st.copy()
            for _, ft, a, _ in fs:
                E.store(st, ft, a, E.fresh_value(st, ft, "env"))
            st.assume(inv(st, g, n, False, before))
            E.accesshook = h
            E.event(st, ("section", n, st.copy()))

    def onunlock(st, r, mode):
        for n, v, tn, g in each(st, r):
            h, E.accesshook = E.accesshook, None
            begin = [e for e in st.ev if e[0] == "section" and e[1] == n]
            E.oblige("invariant of %s at unlock: %s" % (tn, g["text"]), st, inv(st, g, n, True, begin[-1][2] if begin else pre), kind="rely")
            E.accesshook = h
            E.event(st, ("sectionend", n, st.copy()))
    E.onlock, E.onunlock = onlock, onunlock


def section_obl(E, prog, spec, con, s, mk, vars, c):
    """the operation takes effect in one critical section, and its others change nothing"""
    secs, open_ = [], {}
    for e in s.ev:
        if e[0] == "section":
            open_[e[1]] = e[2]
        elif e[0] == "sectionend" and e[1] in open_:
            secs.append((e[1], open_.pop(e[1]), e[2]))
        elif e[0] == "loop" and e[2] & {"section", "sectionend"}:
            raise SpecError("critical section inside a loop")
    same = []
    for n, b, t in secs:
        v, T = vars[n]
        pr = [p for p in E.protos if p.name == n]
        if pr:
            same.append(z3.And(*[E.gget(b, "sync.Map", g, pr[0].map) == E.gget(t, "sync.Map", g, pr[0].map) for g in ("dom", "val")]))
            continue
        tn = shortname(T.u().e.name)
        F = spec.criticals[tn]["fields"]
        x, y = field_comps(E, prog, b, tn, v, F)[1], field_comps(E, prog, t, tn, v, F)[1]
        same.append(z3.And(*[z3.BoolVal(True) if z3.eq(p, q) else p == q for (_, ft, _, a), (_, _, _, d) in zip(x, y) for p, q in zip(E.th.flat(a, ft, E), E.th.flat(d, ft, E))]))
    alts = []
    for i, (n, b, t) in enumerate(secs):
        t2 = t.copy()
        t2.pc = list(s.pc)
        alts.append(z3.And(mk(t2, b).bool(c.ast, 1), *[x for j, x in enumerate(same) if j != i]))
    return z3.Or(*alts) if alts else z3.BoolVal(False)


def shared_setup(E, prog, spec, con, tenv, vars, pre):
    """options about shared state: interference, plain accesses, lock discipline, iteration contracts"""
    def mk(st, goal, vs=None):
        return Ev(E, tenv, st, pre, vs or vars, spec.macros, goal)
    if opt1(con, spec, "interfere"):
        E.interfere = True
    if opt1(con, spec, "purecalls"):
        E.purecalls = True
    if con.rely:
        E.rely = lambda st, goal: z3.And(*[mk(st, goal).bool(c.ast, 1) for c in con.rely])
    if con.iters:
        def chk(s, tag, args, v):
            ft = None
            for names, c in con.iters:
                vs = dict(vars)
                ts = E.iterT
                for n, x, T in zip(names, list(args) + [v], ts):
                    vs[n] = (x, T)
                E.oblige("each iteration: " + c.text, s, mk(s, True, vs).bool(c.ast, 1), kind="iter")
        E.itercheck = chk
    if spec.criticals:
        critical_setup(E, prog, spec, con, tenv, vars, pre)
    atomics = set(" ".join(optall(con, spec, "atomic")).split())
    E.ptrlocks = ptrlocks(E, spec, vars)
    if atomics or spec.guardtypes:
        E.hookfn = lambda E, st, kind, name, ref, write: access(E, prog, spec, atomics, pre, st, kind, name, ref, write)


def shortname(n):
    from .spec import strip_targs, MOD
    n = strip_targs(n)
    return n[len(MOD) + 1:] if n.startswith(MOD + "/") else n


def access(E, prog, spec, atomics, pre, st, kind, name, ref, write):
    """one plain (non-atomic, non-lock) access to memory"""
    sn = shortname(name)
    fresh = E.th.own(ref) >= pre.next
    what = "%s of %s" % ("write" if write else "read", sn)
    if kind == "field" and sn in atomics:
        E.oblige("shared: plain %s, which other goroutines update atomically" % what, st, fresh, kind="lock")
        return
    if not spec.guardtypes:
        return
    if kind == "field":
        tn, f = sn.rsplit(".", 1)
        g = spec.guardtypes.get(tn)
        if sn in spec.immut or (g and f in g["immutable"]):
            if write:
                E.oblige("shared: %s, which is immutable after construction" % what, st, fresh, kind="lock")
            return
        if g:
            E.oblige("shared: %s holds its lock" % what, st, z3.Or(fresh, adequate(E, st, lock_of(E, prog, st, name.rsplit(".", 1)[0], g, ref), write)), kind="lock")
            return
        if tn in spec.under:
            E.oblige("shared: %s holds the container's lock" % what, st, z3.Or(fresh, *[adequate(E, st, l, write) for l in held_refs(st)]), kind="lock")
        return
    if kind in ("map", "list", "tree"):
        alts = [fresh]
        for l, tn, s, cond in held_owners(E, prog, st, spec):
            g = spec.guardtypes[tn]
            for f in g["contents"]:
                v = owner_field(E, prog, st, tn, s, f)
                if v is not None:
                    alts.append(z3.And(adequate(E, st, l, write), v == ref, cond))
        E.oblige("shared: %s contents %s hold the lock of the container" % (kind, "write" if write else "read"), st, z3.Or(*alts), kind="lock")
        return
    if kind == "elem":
        gs = []
        for tname, tn, s in E.ptrlocks:
            g = spec.guardtypes[tn]
            for f in g["elems"]:
                v = owner_field(E, prog, st, tn, s, f)
                if v is not None and any(ft.u().k == "slice" and ft.u().e.s == name for t in prog.cache.values() if t.k == "named" and t.name == tname and t.u().k == "struct" for n_, ft in t.u().fields if n_ == f):
                    gs.append(z3.Implies(v.b == ref, adequate(E, st, lock_of(E, prog, st, tname, g, s), write)))
        if gs:
            E.oblige("shared: element %s holds the lock of the container" % ("write" if write else "read"), st, z3.Or(fresh, z3.And(*gs)), kind="lock")
        return
    if kind == "smap":
        # a sync.Map may be read without the lock; such a read is a step of its own
        c = z3.Or(fresh, *[adequate(E, st, l, write) for l in held_refs(st, param_locks(E, prog, st, spec))])
        if write:
            E.oblige("shared: map contents write hold the lock of the container", st, c, kind="lock")
        elif not E.implies(st, c):
            E.event(st, ("smfree", ref))


def param_locks(E, prog, st, spec):
    return [lock_of(E, prog, st, tname, spec.guardtypes[tn], s) for tname, tn, s in E.ptrlocks]


def adequate(E, st, l, write):
    lk = [E.gget(st, tn, "lk", l) for tn in ("sync.Mutex", "sync.RWMutex")]
    return z3.Or(*[x == 1 for x in lk]) if write else z3.Or(*[z3.Or(x == 1, x == 2) for x in lk])


def held_refs(st, extra=()):
    out = {}
    for e in st.ev:
        if e[0] == "lock":
            out[e[1].get_id()] = e[1]
    for l in extra:
        out[l.get_id()] = l
    return list(out.values())


def lock_of(E, prog, st, tname, g, ref):
    """reference of the lock field of the object"""
    T = [t for t in prog.cache.values() if t.k == "named" and t.name == tname and t.u().k == "struct"]
    for t in T:
        for i, (n, ft) in enumerate(t.u().fields):
            if n == g["lock"]:
                if ft.u().k == "struct":
                    return E.th.subref(t.s + "." + n)(ref)
                h, E.accesshook = E.accesshook, None
                v = E.load(st.copy(), ft, E.field_addr(st, ref, t, i)[0])
                E.accesshook = h
                return v
    raise SpecError("no lock field %s in %s" % (g["lock"], tname))


def held_owners(E, prog, st, spec):
    """(lock, container type, container) for the locks taken on this path"""
    out = []
    for l in held_refs(st, param_locks(E, prog, st, spec)):
        for tn, g in spec.guardtypes.items():
            if z3.is_app(l) and l.num_args() == 1 and shortname(l.decl().name().split("|")[-1].split("~")[-1]).endswith("." + g["lock"]):
                nm = l.decl().name()
                if shortname(nm.replace("sub|", "").replace("sub~", "")).startswith(tn + "."):
                    out.append((l, tn, l.arg(0), z3.BoolVal(True)))
        for tname, tn, s in E.ptrlocks:
            out.append((l, tn, s, l == lock_of(E, prog, st, tname, spec.guardtypes[tn], s)))
    return out


def ptrlocks(E, spec, vars):
    """parameters whose guarded type has its lock behind a pointer"""
    out = []
    for v, T in vars.values():
        if T.u().k == "ptr" and T.u().e.k == "named":
            t = T.u().e
            g = spec.guardtypes.get(shortname(t.name))
            if g and t.u().k == "struct" and dict(t.u().fields)[g["lock"]].u().k == "ptr":
                out.append((t.name, shortname(t.name), v))
    return out


def owner_field(E, prog, st, tn, s, f):
    f, _, rest = f.partition(".")
    for t in list(prog.cache.values()):
        if t.k == "named" and shortname(t.name) == tn and t.u().k == "struct":
            for i, (n, ft) in enumerate(t.u().fields):
                if n == f:
                    h, E.accesshook = E.accesshook, None
                    v = E.load(st.copy(), ft, E.field_addr(st, s, t, i)[0])
                    E.accesshook = h
                    if rest:
                        return owner_field(E, prog, st, shortname(ft.u().e.name), v, rest)
                    return v
    return None


def finish(E, prog, spec, con, fn, env, tenv, vars, pre, outs):
    live = 0
    for kind, s, v in outs:
        if kind == "ret":
            vs = dict(vars)
            rts = [prog.resolve(r["t"], env) for r in fn.results]
            for i, (x, T) in enumerate(zip(v, rts)):
                vs["r%d" % i] = (x, T)
                if i < len(con.rets):
                    vs[con.rets[i]] = (x, T)
            if len(v) == 1:
                vs["result"] = (v[0], rts[0])
            # one return that is not contradictory is enough against vacuity; for the others a contradiction proves their obligations anyway
            if E.query(s.pc if not live else [a for a in s.pc if not E.has_quant(a)], to=1500) != z3.unsat:
                live += 1
            else:
                continue
            ev = Ev(E, tenv, s, pre, vs, spec.macros, True)
            if con.panics is not None and opt1(con, spec, "must-panic"):
                ev0 = Ev(E, tenv, pre, pre, vars, spec.macros, True)
                E.oblige("no return where a panic is promised", s, z3.Not(ev0.bool(con.panics, 0)), kind="ensures")
            for c in con.ensures:
                g = ev.bool(c.ast, 1)
                E.oblige("ensures " + c.name, s, g, kind="ensures")
            for c in con.linear:
                E.oblige("linearization point: " + c.name, s, linear_obl(E, s, pre, c, lambda a, b: Ev(E, tenv, a, b, vs, spec.macros, True)), kind="linear")
            for c in con.section:
                h, E.accesshook = E.accesshook, None
                E.oblige("critical section: " + c.name, s, section_obl(E, prog, spec, con, s, lambda a, b: Ev(E, tenv, a, b, vs, spec.macros, True), vars, c), kind="linear")
                E.accesshook = h
            if "modular" in con.opts or "pure" in con.opts:
                E.oblige("frame: nothing allocated before the call is changed", s, frame_obl(E, s, pre, modplaces(E, con, tenv, spec, pre, vars)), kind="frame")
            for nm, f in getattr(E, "atreturn", []):
                g = f(E, s, ev)
                if g is not None:
                    E.oblige(nm, s, g, kind="ensures")
        else:
            if E.query(s.pc, to=1500) == z3.unsat:
                continue
            if con.panics is not None:
                ev = Ev(E, tenv, pre.copy(), pre, dict(vars), spec.macros, True)
                E.line = v[2] if len(v) > 2 else E.line
                E.oblige("panics only when permitted (%s)" % v[1], s, ev.bool(con.panics, 1), kind="panic")
            else:
                E.line = v[2] if len(v) > 2 else E.line
                E.oblige("no panic (%s)" % v[1], s, z3.BoolVal(False), kind="panic")
        g = locks_released(E, s)
        if E.protos:
            E.oblige("lock:every key locked is unlocked on exit", s, M7.keys_released(E, s), kind="lock")
        if g is not None and opt1(con, spec, "locks", "check") == "check":
            E.oblige("lock:every lock taken is released on exit", s, g, kind="lock")
    if live == 0 and "noreturn" not in con.opts:
        o = Obl("non-vacuity: some execution returns", [], z3.BoolVal(False), kind="cover")
        o.status = "failed"
        o.detail = "no returning path"
        E.obls.append(o)
    else:
        o = Obl("non-vacuity: %d returning path(s) reachable" % live, [], z3.BoolVal(True), kind="cover")
        o.status, o.backend = "proved", "z3"
        E.obls.append(o)


def run_lemma(E, prog, spec, con, R):
    names = typenames(prog, con, spec)
    st = E.init_state()
    ev = Ev(E, TypeEnv(prog, names), st, st, {}, spec.macros, True)
    for c in con.ensures:
        E.oblige("lemma " + c.name, st, ev.bool(c.ast, 1))


def run_proc(E, prog, spec, con, R):
    names = typenames(prog, con, spec)
    tenv = TypeEnv(prog, names)
    st = E.init_state()
    lock_arrays(E, st)
    vars = {}
    from .spec import Parser
    for n, t in con.params:
        T = tenv.res(Parser(t).type())
        vars[n] = (E.fresh_value(st, T, "p_" + n), T)
    E.paramvars = vars
    ev = Ev(E, tenv, st, st, vars, spec.macros, False)
    for c in con.requires:
        st.assume(ev.bool(c.ast, 1))
    if E.query(st.pc, to=3000) == z3.unsat:
        raise SpecError("precondition of %s is unsatisfiable" % con.head)
    pre = st.copy()
    E.pre = pre
    E.current = con
    E.candgen = loop_clauses(E, prog, spec, con, tenv, vars)
    work = [(st, dict(vars), {}, 0)]
    live = 0
    while work:
        st, vs, snaps, i = work.pop()
        if i == len(con.stmts):
            if E.query(st.pc, to=1500) != z3.unsat:
                live += 1
            continue
        s = con.stmts[i]

        def mk(goal):
            e = Ev(E, tenv, st, pre, vs, spec.macros, goal)
            e.snaps = snaps
            return e
        if s[0] == "assume":
            st.assume(mk(False).bool(s[1].ast, 1))
            if E.query(st.pc) == z3.unsat:
                continue
            work.append((st, vs, snaps, i + 1))
        elif s[0] == "assert":
            g = mk(True).bool(s[1].ast, 1)
            E.oblige("assert " + s[1].name, st, g, kind="ensures")
            st.assume(mk(False).bool(s[1].ast, 1))
            work.append((st, vs, snaps, i + 1))
        elif s[0] == "snapshot":
            sn = dict(snaps)
            sn[s[1]] = st.copy()
            work.append((st, vs, sn, i + 1))
        elif s[0] == "let":
            v2 = dict(vs)
            e = mk(True)
            v2[s[1]] = e.load(*e.ev(s[2], 0))
            if isinstance(v2[s[1]][0], Lit):
                I = prog.basic("int")
                v2[s[1]] = (e.num(v2[s[1]][0], None, I), I)
            work.append((st, v2, snaps, i + 1))
        elif s[0] == "var":
            T = tenv.res(s[2])
            v2 = dict(vs)
            v2[s[1]] = (E.fresh_value(st, T, "v_" + s[1]), T)
            work.append((st, v2, snaps, i + 1))
        elif s[0] == "havoc":
            E.havoc_all(st)
            work.append((st, vs, snaps, i + 1))
        elif s[0] == "call":
            _, lhs, name, targs, aargs = s
            fn, args0, env = None, [], {}
            e = mk(True)
            if "." in name and name.split(".")[0] in vs:
                parts = name.split(".")
                rv, rT = vs[parts[0]]
                for fld in parts[1:-1]:
                    rv, rT = e.field((rv, rT), fld)
                if isinstance(rv, Addr):
                    rv, rT = rv.a, prog.ptr(rT)
                m = E.find_method(rT, parts[-1])
                if m is None:
                    raise SpecError("no method %s on %s" % (parts[-1], rT))
                fnn, ptr = m
                fn = prog.funcs.get(fnn)
                nt = rT.e if rT.k == "ptr" else rT
                if not ptr and rT.k == "ptr":
                    rv = e.load(Addr(rv), nt)[0]
                args0 = [rv]
                ta = nt.targs
            else:
                fn = findfn(prog, name)
                ta = [tenv.res(t) for t in targs]
            if fn is None:
                raise SpecError("function %s not found in the source" % name)
            env = dict(zip(fn.tparams, ta))
            pts = [prog.resolve(p["t"], env) for p in fn.params]
            args = list(args0)
            if len(aargs) + len(args0) != len(pts):
                raise SpecError("call %s: %d arguments expected" % (name, len(pts) - len(args0)))
            for a, T in zip(aargs, pts[len(args0):]):
                v, vT = e.load(*e.ev(a, 0))
                if isinstance(v, Lit):
                    v, vT = E.th.num(v.n, T), T
                if v == "nil" if isinstance(v, str) else False:
                    v = E.th.zero(T, E)
                elif T.u().k == "iface" and vT.u().k != "iface":
                    v = E.mkiface(vT, v)
                args.append(v)
            R.calls = getattr(R, "calls", []) + [fn.name]
            E.accesshook = getattr(E, "hookfn", None)
            mc = E.contracts.get(fn.name)
            if mc is not None:
                E.modular.add(fn.name)
                outs = [("ret" if k == "ok" else k, s2, (v.v if isinstance(v, TupleV) else [] if v is None else [v]) if k == "ok" else v)
                        for k, s2, v in mc.apply(E, st, args, tuple(ta), {})]
            else:
                outs = E.call_env(st, fn, env, args, (), None, 0)
            E.accesshook = None
            for kind, s2, v in outs:
                if kind == "panic":
                    if E.query(s2.pc, to=1500) == z3.unsat:
                        continue
                    if con.panics is not None:
                        e2 = Ev(E, tenv, pre.copy(), pre, dict(vs), spec.macros, True)
                        E.oblige("panics only when permitted (%s)" % v[1], s2, e2.bool(con.panics, 1), kind="panic")
                    else:
                        E.line = v[2] if len(v) > 2 else E.line
                        E.oblige("no panic (%s)" % v[1], s2, z3.BoolVal(False), kind="panic")
                    continue
                if E.query(s2.pc, to=1500) == z3.unsat:
                    continue
                v2 = dict(vs)
                rts = [prog.resolve(r["t"], env) for r in fn.results]
                for nme, x, T in zip(lhs, v, rts):
                    if nme != "_":
                        v2[nme] = (x, T)
                work.append((s2, v2, snaps, i + 1))
        else:
            raise SpecError("statement " + s[0])
    o = Obl("non-vacuity: %d complete execution(s) reachable" % live, [], z3.BoolVal(live > 0), kind="cover")
    o.status = "proved" if live else "failed"
    o.backend = "z3"
    E.obls.append(o)
