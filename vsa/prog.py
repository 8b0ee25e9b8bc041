"""Load the driver's JSON dump of a crate: functions (MIR), ADTs, impls."""
import json, os

class Fn:
    __slots__ = ("d", "path", "crate", "body", "promoted", "_loops", "_rpo", "_preds", "_live", "name",
                 "_prom_prog", "addr_taken")
    def __init__(self, d, crate):
        self.d = d; self.crate = crate; self.path = d["path"]; self.body = d["body"]
        self.promoted = d.get("promoted", [])
        self.name = d.get("name") or self.path.rsplit("::", 1)[-1]
        self._loops = None; self._rpo = None; self._preds = None; self._live = None; self.addr_taken = None
    @property
    def file(self): return self.d["span"][0]
    @property
    def line(self): return self.d["span"][1]
    def succs(self, i):
        t = self.body["bbs"][i]["t"]; k = t[0]
        if k == "goto": return [t[1]]
        if k == "switch": 
            r = [b for _, b in t[2]] + [t[3]]
            out = []
            for x in r:
                if x not in out: out.append(x)
            return out
        if k == "drop": return [t[2]]
        if k == "call": return [t[4]] if t[4] is not None else []
        if k == "assert": return [t[5]]
        return []
    def rpo(self):
        if self._rpo is None:
            seen = set(); order = []
            stack = [(0, iter(self.succs(0)))]; seen.add(0)
            while stack:
                n, it = stack[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s); stack.append((s, iter(self.succs(s)))); break
                else:
                    order.append(n); stack.pop()
            order.reverse(); self._rpo = order
        return self._rpo
    def preds(self):
        if self._preds is None:
            p = {b: [] for b in self.rpo()}
            for b in self.rpo():
                for s in self.succs(b): p[s].append(b)
            self._preds = p
        return self._preds
    def idom(self):
        rpo = self.rpo(); num = {b: i for i, b in enumerate(rpo)}; preds = self.preds()
        idom = {rpo[0]: rpo[0]}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [p for p in preds[b] if p in idom]
                if not ps: continue
                n = ps[0]
                for p in ps[1:]:
                    a, c = p, n
                    while a != c:
                        while num[a] > num[c]: a = idom[a]
                        while num[c] > num[a]: c = idom[c]
                    n = a
                if idom.get(b) != n: idom[b] = n; ch = True
        return idom
    def loops(self):
        """header -> set(blocks); back edges"""
        if self._loops is None:
            idom = self.idom()
            def dom(a, b):
                while True:
                    if a == b: return True
                    if b == idom[b]: return False
                    b = idom[b]
            loops = {}; back = set()
            for b in self.rpo():
                for s in self.succs(b):
                    if dom(s, b):
                        back.add((b, s))
                        body = loops.setdefault(s, {s})
                        st = [b]
                        while st:
                            x = st.pop()
                            if x in body: continue
                            body.add(x); st.extend(self.preds()[x])
            self._loops = (loops, back)
        return self._loops
    def liveness(self):
        """live-in locals per block (address-taken locals are always live)."""
        if self._live is not None: return self._live
        bbs = self.body["bbs"]
        n = len(self.body["locals"])
        taken = set()
        use = {}; deff = {}
        def pl_use(p, u, d):
            if p[0] not in d: u.add(p[0])
            for e in p[1:]:
                if e[0] == "i" and e[1] not in d: u.add(e[1])
        def op_use(o, u, d):
            if o[0] in ("c", "m"): pl_use(o[1], u, d)
        def rv_use(r, u, d):
            k = r[0]
            if k in ("use",): op_use(r[1], u, d)
            elif k == "repeat": op_use(r[1], u, d)
            elif k in ("ref", "rawptr"):
                pl_use(r[1], u, d)
                if not any(e[0] == "d" for e in r[1][1:]): taken.add(r[1][0])
            elif k == "cast": op_use(r[2], u, d)
            elif k == "bin": op_use(r[2], u, d); op_use(r[3], u, d)
            elif k == "un": op_use(r[2], u, d)
            elif k == "discr": pl_use(r[1], u, d)
            elif k == "agg":
                for o in r[4]: op_use(o, u, d)
        for b in self.rpo():
            u = set(); d = set()
            for s in bbs[b]["s"]:
                if s[0] == "=":
                    rv_use(s[2], u, d)
                    if len(s[1]) == 1: d.add(s[1][0])
                    else: pl_use(s[1], u, d)
                elif s[0] == "setd": pl_use(s[1], u, d)
            t = bbs[b]["t"]
            if t[0] == "switch": op_use(t[1], u, d)
            elif t[0] == "call":
                op_use(t[1], u, d)
                for o in t[2]: op_use(o, u, d)
                if len(t[3]) == 1: d.add(t[3][0])
                else: pl_use(t[3], u, d)
            elif t[0] == "assert":
                op_use(t[1], u, d)
                for o in t[4]: op_use(o, u, d)
            elif t[0] == "drop": pass
            elif t[0] == "ret": u.add(0)
            use[b] = u; deff[b] = d
        live = {b: set(use[b]) for b in self.rpo()}
        ch = True
        while ch:
            ch = False
            for b in reversed(self.rpo()):
                o = set()
                for s in self.succs(b): o |= live[s]
                nw = use[b] | (o - deff[b])
                if nw != live[b]: live[b] = nw; ch = True
        self.addr_taken = taken
        self._live = {b: live[b] | taken for b in live}
        return self._live

class Prog:
    def __init__(self, dumps):
        """dumps: list of (crate_name, path)."""
        self.fns = {}; self.adts = {}; self.impls = []; self.statics = []; self.traits = {}
        self.crates = []
        for crate, path in dumps:
            d = json.load(open(path)); self.crates.append(crate)
            for f in d["fns"]:
                fn = Fn(f, crate)
                self.fns[(crate, fn.path)] = fn
            for a in d["adts"]:
                key = a["path"] if not a["local"] else crate + "::" + a["path"]
                if a["local"] or key not in self.adts: self.adts[key] = a
                if a["local"]: self.adts.setdefault(a["path"], a)
            for i in d["impls"]: i["crate"] = crate; self.impls.append(i)
            for s in d["statics"]: s["crate"] = crate; self.statics.append(s)
            for t in d["traits"]: self.traits[t["path"]] = t
    def find(self, suffix, crate=None):
        r = [f for (c, p), f in self.fns.items() if (crate is None or c == crate) and (p == suffix or p.endswith("::" + suffix))]
        return r
    def one(self, suffix, crate=None):
        r = self.find(suffix, crate)
        if len(r) != 1:
            raise KeyError("%s: %d matches" % (suffix, len(r)))
        return r[0]
    def get(self, crate, path):
        f = self.fns.get((crate, path))
        if f: return f
        for c in self.crates:
            if path.startswith(c + "::"):
                return self.fns.get((c, path[len(c) + 2:]))
        return None
    def adt(self, path):
        a = self.adts.get(path)
        if a is None and "::" in path:
            c, r = path.split("::", 1)
            if c in self.crates: a = self.adts.get(r)
        return a
