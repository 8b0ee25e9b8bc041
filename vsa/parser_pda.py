"""Extract the event parser's transition relation by abstract interpretation.

For every (state, cached look-ahead token kind) the parser's step function is interpreted
with the scanner replaced by its contract (any token, or an error), recording for every
path: the event returned, the pushes/pops on the state stack, the successor state, the
tokens consumed and the token left cached.  Nothing is executed."""
from absint import *
import models
from models import some, NONE, OPT, RES

PARSER = "parsing::parser::Parser"

class Layout:
    def __init__(self, p):
        a = p.adt(PARSER)
        if a is None: raise KeyError("parser struct not found")
        self.adt = a
        fs = a["variants"][0]["fields"]
        self.f = {n: i for i, (n, _) in enumerate(fs)}
        import re
        self.states = self.state = self.token = self.current = self.scanner = self.anchors = self.tags = self.anchor_count = None
        for i, (n, t) in enumerate(fs):
            m = re.match(r"alloc::vec::Vec<(parsing::[\w:]+)>$", t)
            if m:
                x = p.adt(m.group(1))
                if x and x["kind"] == "enum": self.states = i; self.state_adt = x["path"]
        for i, (n, t) in enumerate(fs):
            if t == getattr(self, "state_adt", None): self.state = i
            if t.startswith("core::option::Option<parsing::scanner::Token"): self.token = i
            if t.startswith("alloc::collections::BTreeMap<") and t.endswith(", usize>"): self.anchors = i
            if t.startswith("alloc::collections::BTreeMap<") and "String, alloc::string::String" in t: self.tags = i
            if t == "usize": self.anchor_count = i
            if t.startswith("core::option::Option<(parsing::parser::Event"): self.current = i
            if t.startswith("parsing::scanner::Scanner<"): self.scanner = i
        miss = [k for k in ("states", "state", "token", "current", "scanner", "anchors", "tags", "anchor_count") if getattr(self, k) is None]
        if miss: raise KeyError("parser fields not identified: %s" % miss)
        self.S = p.adt(self.state_adt)["variants"]
        self.T = p.adt("parsing::TokenType")["variants"]
        self.E = p.adt("parsing::parser::Event")["variants"]
        self.sname = [v["name"] for v in self.S]; self.tname = [v["name"] for v in self.T]; self.ename = [v["name"] for v in self.E]
        self.tdiscr = [v["discr"] for v in self.T]
        tok = p.adt("parsing::scanner::Token")["variants"][0]["fields"]
        self.tok_type = [i for i, (n, t) in enumerate(tok) if t.startswith("parsing::TokenType")][0]
        self.tok_span = [i for i, (n, t) in enumerate(tok) if t.endswith("Span")][0]
SELF = ("s", "self", ()); OSELF = ("O", SELF)

def counter(v):
    """a sum of counters that only add"""
    return v[0] in ("k", "s") or v[0] == "l" and all(n > 0 and counter(a) for a, n in v[2])
EMPTY_MAP = ("a", "bmap", 0, ())
class PClient(Client):
    def __init__(self, lay):
        self.lay = lay; self.problems = []; self.panics = []
    def is_field(self, ai, s, v, fld):
        loc = models.cont_loc(ai, s, v)
        return loc is not None and loc[0] == OSELF and loc[1] == (("f", fld),)
    def intercept(self, ai, fr, args, st, depth, site):
        p = fr["path"]; n = fr.get("name")
        if fr.get("local"):
            g = ai.resolve(fr, site[0].crate)
            if g is not None and "parsing::Tag>, prelude::YamlError>" in (g.d["ret"] or "") and not any("&mut" in t for t in [l[0] for l in g.body["locals"][1:g.body["argc"] + 1]]):
                # tag resolution (pure in the parser): its own rule decides what it returns
                e = st.copy(); t = fresh()
                e.mem[("E", "src")] = ("str", b"tag")
                return [(st, models.ok(("a", "resolved-tag", 0, tuple(models.deref_val(ai, st, x) if x[0] == "r" else ai.simplify(st, x) for x in args[2:])))), (e, models.err(fresh()))]
        if n == "next" and (fr.get("trait") == "core::iter::Iterator") and (fr.get("self_ty") or "").startswith("parsing::scanner::Scanner"):
            e = st.copy()
            e.mem[("E", "src")] = ("str", b"scanner")
            self.note_consumed(st)
            t = fresh()
            st.dom[("s", t[1], (("f", self.lay.tok_type), ("disc",)))] = frozenset(self.lay.tdiscr)
            st.mem[("E", "last")] = t
            return [(st, some(t)), (e, NONE)]
        if p.startswith("alloc::vec::Vec") and args and self.is_field(ai, st, args[0], self.lay.states):
            stk = st.mem[("E", "stk")]
            if n == "push":
                if stk[0] != "a": self.problems.append("state stack not tracked"); return [(st, UNIT)]
                st.mem[("E", "stk")] = ("a", "array", 0, stk[3] + (ai.simplify(st, args[1]),))
                return [(st, UNIT)]
            if n == "pop":
                if stk[0] != "a": self.problems.append("state stack not tracked"); return [(st, some(fresh()))]
                if stk[3]:
                    st.mem[("E", "stk")] = ("a", "array", 0, stk[3][:-1])
                    return [(st, some(stk[3][-1]))]
                u = st.mem[("E", "under")][1]
                st.mem[("E", "under")] = K(u + 1)
                return [(st, some(("s", "popped%d" % u, ())))]
            if n in ("len", "is_empty", "last", "iter", "capacity", "reserve", "with_capacity"): return None
            self.problems.append("state stack modified by %s" % p)
        if ("BTreeMap" in p or "BTreeMap" in (fr.get("self_ty") or "")) and n in ("new", "default") and not args: return [(st, EMPTY_MAP)]
        if p == "core::mem::take" and args and (self.is_field(ai, st, args[0], self.lay.anchors) or self.is_field(ai, st, args[0], self.lay.tags)):
            l = models.cont_loc(ai, st, args[0]); v = ai.load(st, *l); ai.store(st, l[0], l[1], EMPTY_MAP); return [(st, v)]
        if "BTreeMap" in p and args:
            loc = models.cont_loc(ai, st, args[0])
            if loc and loc[0] == OSELF and loc[1] == (("f", self.lay.anchors),):
                def kv(x): return models.deref_val(ai, st, x) if x[0] == "r" else ai.simplify(st, x)
                if n == "insert":
                    st.mem[("E", "ains")] = ("a", "array", 0, st.mem[("E", "ains")][3] + (("a", "tuple", 0, (kv(args[1]), kv(args[2]))),))
                    return [(st, fresh())]
                if n in ("get", "contains_key"):
                    e = st.copy(); e.mem[("E", "src")] = ("str", b"alias")
                    if n == "contains_key": return [(st, K(1)), (e, K(0))]
                    return [(st, some(("r", ("C", ("a", "anchor-id-of", 0, (kv(args[1]),))), ()))), (e, NONE)]
                if n == "clear": ai.store(st, loc[0], loc[1], EMPTY_MAP); return [(st, UNIT)]
                if n in ("len", "is_empty", "iter", "keys", "values"): return None
                self.problems.append("anchor map used by %s" % p)
        return None
    def note_consumed(self, st):
        l = st.mem[("E", "last")]
        if l[0] == "k": return
        d = st.dom.get(("s", l[1], l[2] + (("f", self.lay.tok_type), ("disc",))))
        kinds = frozenset(self.lay.tname[self.lay.tdiscr.index(x)] for x in d) if isinstance(d, frozenset) else None
        if kinds is not None and kinds <= {"DocumentEnd", "VersionDirective", "TagDirective"}:
            # consumed in loops: one mark per run of such tokens
            m = ("str", b"DocumentEnd" if kinds == {"DocumentEnd"} else b"Directive")
            c = st.mem[("E", "cons")]
            if c[0] == "a" and (not c[3] or c[3][-1] != m): st.mem[("E", "cons")] = ("a", "array", 0, c[3] + (m,))
            return
        c = st.mem[("E", "cons")]
        if c[0] == "a": st.mem[("E", "cons")] = ("a", "array", 0, c[3] + (l,))
    def on_panic(self, ai, why, st, site):
        self.panics.append((why, site[0].path, st))
    def on_assert(self, ai, fn, b, t, st):
        v = ai.av; kind = str(t[3]) if len(t) > 3 else "?"
        if kind.startswith("overflow:Add") and v[0] == "x" and v[1] == "may_ovf" and v[2][1] in ("u32", "u64", "usize") and all(counter(x) for x in v[3:5]): return
        self.panics.append((kind, fn.path, st))
    def err_key(self, ai, st, rv):
        if ("E", "src") not in st.mem: return None
        return (st.mem[("E", "src")], st.mem[("E", "cons")], st.mem[("E", "last")], self.errloc(ai, st, rv))
    def errloc(self, ai, st, rv): return None
    def inline(self, fn): return not fn.path.startswith("parsing::scanner::Scanner")

class Exit:
    __slots__ = ("ok", "ev", "evv", "state", "pushes", "under", "cons", "cached", "st", "errv", "span", "statev", "retv", "src", "ains", "count", "anchors")

class PDA:
    def __init__(self, p, crate="yam_core", fnname="next_event_impl"):
        self.p = p; self.crate = crate; self.lay = Layout(p)
        fs = [f for f in p.fns.values() if f.crate == crate and (f.d.get("impl_self") or "").startswith(PARSER) and f.name == fnname]
        if len(fs) != 1: raise KeyError("step function %s: %d matches" % (fnname, len(fs)))
        self.fn = fs[0]; self.cache = {}; self.problems = []; self.panics = []; self.runs = 0; self.fns = set()
    def initial_state(self):
        """the state a newly constructed parser is in (from its constructors' aggregates)"""
        vs = set()
        for f in self.p.fns.values():
            if f.crate != self.crate: continue
            for b in f.body["bbs"]:
                for s in b["s"]:
                    if s[0] == "=" and s[2][0] == "agg" and s[2][1] == "adt" and s[2][2] == PARSER:
                        ai = AI(self.p, PClient(self.lay), self.crate)
                        st = St()
                        for i in range(f.body["argc"]): st.mem[("L", 1, i + 1)] = ("s", "arg%d" % i, ())
                        for o in ai.run(f, 1, st):
                            rv = o.mem.get(("L", 1, 0))
                            if rv and rv[0] == "a" and rv[1] == PARSER:
                                v = rv[3][self.lay.state]; vs.add(v[2] if v[0] == "a" else None)
                                stk = rv[3][self.lay.states]
                                if stk != ("a", "seq", 0, (K(0),)): self.problems.append(("new", "state stack not empty initially"))
        if len(vs) != 1 or None in vs: raise KeyError("initial parser state not determined: %s" % vs)
        return vs.pop()
    def kinds_of(self, st, tok):
        if tok[0] == "str": return frozenset((tok[1].decode(),))
        if tok[0] == "a" and len(tok[3]) > self.lay.tok_type:
            x = tok[3][self.lay.tok_type]
            if x[0] == "a": return frozenset((self.lay.tname[x[2]],))
            tok = x; d = st.dom.get(("s", x[1], x[2] + (("disc",),))) if x[0] == "s" else None
        elif tok[0] == "p":
            return self.kinds_of(st, tok[1])
        elif tok[0] == "s":
            d = st.dom.get(("s", tok[1], tok[2] + (("f", self.lay.tok_type), ("disc",))))
        else: d = None
        if isinstance(d, frozenset): return frozenset(self.lay.tname[self.lay.tdiscr.index(x)] for x in d)
        if isinstance(d, tuple): return frozenset(self.lay.tname[i] for i, x in enumerate(self.lay.tdiscr) if x not in d[1])
        return frozenset(self.lay.tname)
    def step(self, state, cached):
        """state: variant index; cached: frozenset of token kinds or None -> [Exit]"""
        k = (state, cached)
        if k in self.cache: return self.cache[k]
        L = self.lay; c = PClient(L)
        ai = AI(self.p, c, self.crate, maxstates=400, budget=400000, unroll=2, maxexits=400)
        st = St()
        fields = []
        for i, (n, t) in enumerate(L.adt["variants"][0]["fields"]): fields.append(("s", "self." + n, ()))
        fields[L.state] = ("a", L.state_adt, state, (("s", "payload", ()),) * len(L.S[state]["fields"]))
        fields[L.current] = NONE
        tc = ("s", "tokc", ())
        if cached is None: fields[L.token] = NONE; st.mem[("E", "last")] = K(0)
        else:
            fields[L.token] = some(tc); st.mem[("E", "last")] = tc
            st.dom[("s", "tokc", (("f", L.tok_type), ("disc",)))] = frozenset(L.tdiscr[L.tname.index(x)] for x in cached)
        fields[L.anchor_count] = ("l", 1, ((("s", "anchors-made", ()), 1),))      # starts at 1 and only grows (checked)
        st.mem[OSELF] = ("a", PARSER, 0, tuple(fields))
        st.mem[("L", 1, 1)] = SELF
        st.mem[("E", "stk")] = ("a", "array", 0, ()); st.mem[("E", "under")] = K(0); st.mem[("E", "cons")] = ("a", "array", 0, ())
        st.mem[("E", "src")] = ("str", b""); st.mem[("E", "ains")] = ("a", "array", 0, ())
        outs = ai.run(self.fn, 1, st)
        self.runs += 1; self.fns |= ai.inlined
        self.problems += [(L.sname[state], x) for x in c.problems]
        self.panics += [(L.sname[state], cached, w, f) for w, f, _ in c.panics]
        res = []
        for o in outs:
            rv = o.mem.get(("L", 1, 0))
            e = Exit(); e.st = o; e.retv = rv
            if rv[0] != "a" or rv[1] != RES:
                self.problems.append((L.sname[state], "result not determined")); continue
            e.ok = rv[2] == 0
            slf = o.mem[OSELF]
            def fld(i): return ai.child(o, slf, ("f", i))
            e.errv = None if e.ok else rv[3][0]
            sv = fld(L.state); e.statev = sv
            if sv[0] == "a": e.state = sv[2]
            elif sv[0] == "s" and sv[1].startswith("popped") and not sv[2]: e.state = sv[1]
            else: e.state = None
            stk = o.mem[("E", "stk")]
            e.pushes = [x[2] if x[0] == "a" else None for x in stk[3]] if stk[0] == "a" else None
            e.under = o.mem[("E", "under")][1]
            tk = fld(L.token)
            last = o.mem[("E", "last")]
            if tk[0] == "a" and tk[2] == 0: e.cached = None; c.note_consumed(o)
            elif tk[0] == "a" and tk[2] == 1: e.cached = (self.kinds_of(o, tk[3][0]), tk[3][0])
            else: e.cached = (frozenset(L.tname), tk)
            cons = o.mem[("E", "cons")]
            e.cons = [(self.kinds_of(o, x), x) for x in cons[3]] if cons[0] == "a" else None
            e.src = o.mem[("E", "src")][1].decode() if o.mem[("E", "src")][0] == "str" else None
            e.ains = o.mem[("E", "ains")][3] if o.mem[("E", "ains")][0] == "a" else None
            e.count = fld(L.anchor_count); e.anchors = fld(L.anchors)
            e.ev = e.evv = e.span = None
            if e.ok:
                t = rv[3][0]
                if t[0] == "a" and t[1] == "tuple":
                    e.evv, e.span = t[3][0], t[3][1]
                    if e.evv[0] == "a": e.ev = L.ename[e.evv[2]]
            res.append(e)
        self.cache[k] = res
        return res
