"""Load the SSA dump, resolve types (with type-parameter substitution)."""
import json


class T:
    """A resolved Go type (hash-consed by its string key)."""
    __slots__ = ("k", "s", "name", "e", "key", "n", "fields", "targs", "es",
                 "params", "results", "_u", "prog", "raw", "env", "methods", "constraint", "variadic")

    def __init__(self, k, s):
        self.k = k
        self.s = s
        self.name = None
        self.e = None
        self.key = None
        self.n = None
        self.fields = None
        self.targs = ()
        self.es = None
        self._u = None

    def __repr__(self):
        return self.s

    def u(self):
        """underlying type"""
        t = self
        while t.k == "named":
            if t._u is None:
                t._u = t.prog.resolve(t.raw, t.env)
            t = t._u
        return t

    @property
    def isptr(self):
        return self.u().k == "ptr"


INTS = {"int": (64, True), "int8": (8, True), "int16": (16, True), "int32": (32, True), "int64": (64, True),
        "uint": (64, False), "uint8": (8, False), "uint16": (16, False), "uint32": (32, False),
        "uint64": (64, False), "uintptr": (64, False), "byte": (8, False), "rune": (32, True),
        "untyped int": (64, True), "untyped rune": (32, True)}


class Func:
    def __init__(self, d, prog):
        self.prog = prog
        self.d = d
        self.name = d["n"]
        self.pkg = d.get("pkg", "")
        self.params = d["params"] or []
        self.freevars = d["freevars"] or []
        self.results = d["results"] or []
        self.tparams = d["tparams"] or []
        self.blocks = d["blocks"] or []
        self.recover = d.get("recover")
        self._loops = None
        self._live = None

    def has_body(self):
        return bool(self.blocks)

    @staticmethod
    def uses(ins):
        out = set()
        stk = [ins]
        while stk:
            x = stk.pop()
            if isinstance(x, dict):
                if x.get("k") == "reg":
                    out.add(x["n"])
                else:
                    stk.extend(x.values())
            elif isinstance(x, list):
                stk.extend(x)
        return out

    def live_after(self, bi, ii):
        """registers that may be read after instruction ii of block bi"""
        if self._live is None:
            n = len(self.blocks)
            live_in = [set() for _ in range(n)]
            extra = set()
            if self.recover is not None:
                for ins in self.blocks[self.recover]["instrs"] or []:
                    extra |= self.uses(ins)
            ch = True
            self._live_out = [set(extra) for _ in range(n)]
            while ch:
                ch = False
                for b in range(n - 1, -1, -1):
                    out = set(extra)
                    for s in self.blocks[b]["succs"] or []:
                        out |= live_in[s]
                        preds = self.blocks[s]["preds"] or []
                        for ins in self.blocks[s]["instrs"] or []:
                            if ins["op"] != "Phi":
                                break
                            for k, p in enumerate(preds):
                                if p == b:
                                    out |= self.uses(ins["edges"][k])
                    self._live_out[b] = out
                    cur = set(out)
                    for ins in reversed(self.blocks[b]["instrs"] or []):
                        cur.discard(ins.get("r"))
                        if ins["op"] != "Phi":
                            cur |= self.uses(ins)
                    if cur != live_in[b]:
                        live_in[b] = cur
                        ch = True
            self._live = True
        cur = set(self._live_out[bi])
        ins = self.blocks[bi]["instrs"]
        for k in range(len(ins) - 1, ii, -1):
            cur.discard(ins[k].get("r"))
            if ins[k]["op"] != "Phi":
                cur |= self.uses(ins[k])
        cur.discard(ins[ii].get("r"))
        return cur

    def loops(self):
        """header block -> set of blocks in the natural loop"""
        if self._loops is not None:
            return self._loops
        n = len(self.blocks)
        succ = [b["succs"] or [] for b in self.blocks]
        pred = [[] for _ in range(n)]
        for i in range(n):
            for s in succ[i]:
                pred[s].append(i)
        allb = set(range(n))
        dom = [set(allb) for _ in range(n)]
        roots = [i for i in range(n) if not pred[i]]
        for r in roots:
            dom[r] = {r}
        ch = True
        while ch:
            ch = False
            for i in range(n):
                if i in roots:
                    continue
                nd = set(allb)
                for p in pred[i]:
                    nd &= dom[p]
                nd = nd | {i}
                if nd != dom[i]:
                    dom[i] = nd
                    ch = True
        loops = {}
        for i in range(n):
            for s in succ[i]:
                if s in dom[i]:
                    body = loops.setdefault(s, {s})
                    st = [i]
                    while st:
                        x = st.pop()
                        if x in body:
                            continue
                        body.add(x)
                        st.extend(pred[x])
        # blocks that leave the loop but dominate nothing (return/panic inside) are handled as exits
        self._loops = loops
        return loops


class Program:
    def __init__(self, path):
        with open(path) as f:
            d = json.load(f)
        self.types = d["types"]
        self.funcs = {}
        for fd in d["funcs"]:
            self.funcs[fd["n"]] = Func(fd, self)
        self.methods = {}
        for m in d["methods"] or []:
            self.methods[(m["type"], m["m"])] = (m["fn"], m["ptr"])
        self.globals = {g["n"]: g["t"] for g in d["globals"]}
        self.cache = {}
        self.byname = {}
        for t in self.types:
            if t["k"] == "named":
                self.byname.setdefault(t["n"], []).append(t["id"])

    def intern(self, t):
        o = self.cache.get(t.s)
        if o is not None:
            return o
        self.cache[t.s] = t
        return t

    def basic(self, n):
        if n == "byte":
            n = "uint8"
        if n == "rune":
            n = "int32"
        t = self.cache.get(n)
        if t is None:
            t = T("basic", n)
            t.name = n
            self.cache[n] = t
        return t

    def tparam(self, n, constraint=""):
        s = "$" + n
        t = self.cache.get(s)
        if t is None:
            t = T("tparam", s)
            t.name = n
            t.constraint = constraint
            self.cache[s] = t
        if constraint:
            t.constraint = constraint
        return t

    def ptr(self, e):
        s = "*" + e.s
        t = self.cache.get(s)
        if t is None:
            t = T("ptr", s)
            t.e = e
            self.cache[s] = t
        return t

    def slice(self, e):
        s = "[]" + e.s
        t = self.cache.get(s)
        if t is None:
            t = T("slice", s)
            t.e = e
            self.cache[s] = t
        return t

    def array(self, e, n):
        s = "[%d]%s" % (n, e.s)
        t = self.cache.get(s)
        if t is None:
            t = T("array", s)
            t.e = e
            t.n = n
            self.cache[s] = t
        return t

    def map(self, k, e):
        s = "map[%s]%s" % (k.s, e.s)
        t = self.cache.get(s)
        if t is None:
            t = T("map", s)
            t.key = k
            t.e = e
            self.cache[s] = t
        return t

    def chan(self, e):
        s = "chan " + e.s
        t = self.cache.get(s)
        if t is None:
            t = T("chan", s)
            t.e = e
            self.cache[s] = t
        return t

    def iface(self, s="any", methods=()):
        if not methods:
            s = "any"
        t = self.cache.get(s)
        if t is None:
            t = T("iface", s)
            t.methods = tuple(methods)
            self.cache[s] = t
        return t

    def named(self, name, targs=()):
        """instantiate a named type by qualified name"""
        ids = self.byname.get(name)
        if not ids:
            raise KeyError("unknown type " + name)
        d = self.types[ids[0]]
        return self._named(d, tuple(targs))

    def _named(self, d, targs):
        s = d["n"]
        if targs:
            s += "[" + ",".join(x.s for x in targs) + "]"
        t = self.cache.get(s)
        if t is None:
            t = T("named", s)
            t.name = d["n"]
            t.targs = targs
            t.prog = self
            t.raw = d.get("ou", d["u"])
            tp = d.get("tparams") or []
            t.env = dict(zip(tp, targs))
            self.cache[s] = t
        return t

    def resolve(self, tid, env=None):
        env = env or {}
        d = self.types[tid]
        k = d["k"]
        if k == "basic":
            return self.basic(d["n"])
        if k == "tparam":
            if tid in env:
                return env[tid]
            return self.tparam(d["n"], d.get("constraint", ""))
        if k == "named":
            ta = tuple(self.resolve(x, env) for x in (d["targs"] or []))
            return self._named(d, ta)
        if k == "ptr":
            return self.ptr(self.resolve(d["e"], env))
        if k == "slice":
            return self.slice(self.resolve(d["e"], env))
        if k == "array":
            return self.array(self.resolve(d["e"], env), d["len"])
        if k == "map":
            return self.map(self.resolve(d["key"], env), self.resolve(d["e"], env))
        if k == "chan":
            return self.chan(self.resolve(d["e"], env))
        if k == "struct":
            fs = [(f["n"], self.resolve(f["t"], env)) for f in (d["fields"] or [])]
            s = "struct{" + ";".join(a + " " + b.s for a, b in fs) + "}"
            t = self.cache.get(s)
            if t is None:
                t = T("struct", s)
                t.fields = fs
                self.cache[s] = t
            return t
        if k == "iface":
            return self.iface("iface{" + ",".join(d["methods"] or []) + "}", d["methods"] or [])
        if k == "func":
            ps = [self.resolve(x, env) for x in (d["params"] or [])]
            rs = [self.resolve(x, env) for x in (d["results"] or [])]
            s = "func(" + ",".join(x.s for x in ps) + ")(" + ",".join(x.s for x in rs) + ")"
            t = self.cache.get(s)
            if t is None:
                t = T("func", s)
                t.params = ps
                t.results = rs
                t.variadic = d.get("variadic")
                self.cache[s] = t
            return t
        if k == "tuple":
            es = [self.resolve(x, env) for x in (d["es"] or [])]
            s = "(" + ",".join(x.s for x in es) + ")"
            t = self.cache.get(s)
            if t is None:
                t = T("tuple", s)
                t.es = es
                self.cache[s] = t
            return t
        s = "other:" + d["s"]
        t = self.cache.get(s)
        if t is None:
            t = T("other", s)
            self.cache[s] = t
        return t
