"""Loading passes on every event exactly once and reports every error.

Rule (typestate on an event in flight, checked per function with contracts for its callees, so for every nesting):
in every function between the parser's public load entry point and the event receiver, an event that was fetched is
given to the receiver (with the position it was fetched with) or handed to another such function before the next
fetch, exactly once; a function that was handed an event has delivered it when it returns without an error; an error
of a fetch or of another such function is returned as it is and nothing is fetched or delivered afterwards; loading
everything ends successfully only after the end of the stream was delivered, loading one document never starts a
second.  The document loading functions return that error, or the documents the receiver collected."""
from absint import *
import models, cg, loader_ai
from models import ok, err, OPT, RES
LEVEL = "other"
OUT = ("E", "inflight"); ERR = ("E", "error"); LAST = ("E", "last"); DOCS = ("E", "documents")
NO = ("a", "none", 0, ())
def fetchfn(f): return "Result<(parsing::parser::Event" in f.body["locals"][0][0]
def ev_params(f): return [i for i in range(1, f.body["argc"] + 1) if f.body["locals"][i][0].startswith("parsing::parser::Event<")]
class Quit(Exception): pass
class PClient(Client):
    partial = False
    def __init__(self, rule, fn): self.r = rule; self.fn = fn; self.n = 0; self.fetches = 0; self.deliveries = 0; self.calls = 0
    def bad(self, key, msg, site): self.r.ctx.violation(key, msg, "%s:%s" % (site.file, site.line))
    def on_panic(self, ai, why, st, site): pass
    def inline(self, fn): return not self.r.is_fetch(fn)
    def intercept(self, ai, fr, args, st, depth, site):
        tr = fr.get("trait") or ""; n = fr.get("name") or fr["path"].rsplit("::", 1)[-1]
        g = ai.resolve(fr, site[0].crate) if not tr else None
        f = site[0]
        if tr.endswith("SpannedEventReceiver") and n == "on_event":
            self.deliveries += 1; self.quiet(st, f, "delivers an event")
            o = st.mem[OUT]
            if o == NO: self.bad("twice:%s" % f.name, "%s delivers an event to the receiver that was delivered already" % f.path, f)
            elif o[3] != (args[1], args[2]): self.bad("wrong:%s" % f.name, "%s delivers something other than the event (and position) it fetched" % f.path, f)
            st.mem[OUT] = NO; st.mem[LAST] = args[1]
            return [(st, UNIT)]
        if g is not None and self.r.is_fetch(g):
            self.fetches += 1; self.quiet(st, f, "fetches an event")
            if g.name != "next_event_impl": self.bad("fetch:%s:%s" % (f.name, g.name), "%s takes an event from %s, past the one that may already have been looked at" % (f.path, g.path), f)
            if st.mem[OUT] != NO: self.bad("lost:%s" % f.name, "%s fetches another event although the last one was not delivered: it is lost" % f.path, f)
            bad = st.copy(); good = st
            e = fresh(); bad.mem[ERR] = e; bad.mem[OUT] = NO
            ev, sp = fresh(), fresh(); good.mem[OUT] = ("a", "inflight", 0, (ev, sp))
            return [(bad, err(e)), (good, ok(("a", "tuple", 0, (ev, sp))))]
        if g is not None and g in self.r.drivers:
            self.calls += 1; self.quiet(st, f, "continues loading")
            eps = ev_params(g); o = st.mem[OUT]
            if eps:
                if o == NO or o[3] != (args[eps[0] - 1], args[eps[0]]): self.bad("handed:%s:%s" % (f.name, g.name), "%s hands %s something other than the event it fetched and has not delivered" % (f.path, g.path), f)
                st.mem[LAST] = fresh()
                k = st.mem.get(DOCS)
                if k is not None and g in self.r.docs:
                    if k == K(1): self.bad("second:%s" % f.name, "%s loads a second document although one was asked for" % f.path, f)
                    st.mem[DOCS] = K(1)
            elif o != NO: self.bad("lost:%s:%s" % (f.name, g.name), "%s continues with %s before the event it fetched was delivered" % (f.path, g.path), f)
            bad = st.copy(); e = fresh(); bad.mem[ERR] = e; bad.mem[OUT] = NO; st.mem[OUT] = NO
            return [(bad, err(e)), (st, ok(UNIT))]
        if n in ("eq", "ne") and (fr.get("self_ty") or "").startswith("parsing::parser::Event<"):
            # comparison with a variant: by the variant alone when that decides it
            vs = [a if a[0] != "r" else ai.load(st, a[1], a[2]) for a in args]
            for a, b in (vs, vs[::-1]):
                if b[0] == "a" and not b[3] and a[0] == "s":
                    d = ai.discr(st, a, b[1]); want = K(ai.p.adt(b[1])["variants"][b[2]]["discr"])
                    out = []
                    for t, s2 in ai.split(st, d, [(want[1], 1)], 0, "isize"): out.append((s2, K(t if n == "eq" else 1 - t)))
                    return out
        if n == "assert_failed": return []
        return None
    def quiet(self, st, f, what):
        if st.mem[ERR] != NO: self.bad("after-error:%s" % f.name, "%s %s after an error" % (f.path, what), f)
    def extra_key(self, st): return (st.mem[OUT] == NO, st.mem[ERR] == NO, st.mem.get(DOCS))
    def exit_key(self, st, rv): return self.extra_key(st)
    def err_key(self, ai, st, rv): return self.extra_key(st)
class Rule:
    def __init__(self, ctx):
        self.ctx = ctx; p = self.p = ctx.prog()
        self.ev = next(a["path"] for a in p.adts.values() if a["path"].endswith("parsing::parser::Event") and a["local"])
        core = [f for f in p.fns.values() if f.crate == "yam_core" and "parsing::parser::Parser" in (f.d.get("impl_self") or "")]
        self.ret = "core::result::Result<(parsing::parser::Event"
        calls = {f: [(fr, p.get("yam_core", fr.get("resolved") or fr["path"])) for _, fr, _, _, _ in cg.calls(f) if fr is not None] for f in core}
        self.drivers = set(f for f in core if any((fr.get("trait") or "").endswith("SpannedEventReceiver") for fr, g in calls[f]))
        ch = True
        while ch:
            ch = False
            for f in core:
                if f not in self.drivers and any(g in self.drivers for fr, g in calls[f]): self.drivers.add(f); ch = True
        self.docs = set(g for f in self.drivers if f.d.get("pub") and f.name == "load" for fr, g in calls[f] if g in self.drivers)
        self.loads = [f for f in self.drivers if f.name == "load"]
    def is_fetch(self, f): return f.crate == "yam_core" and f.body["locals"][0][0].startswith(self.ret)
    def run(self, f, pre=None, tag=""):
        c = PClient(self, f); ai = AI(self.p, c, "yam_core", maxstates=60, budget=400000, maxexits=60); c.ai = ai
        st = St(); st.mem[ERR] = NO; st.mem[OUT] = NO; st.mem[LAST] = NO
        for i in range(1, f.body["argc"] + 1): st.mem[("L", 1, i)] = ("s", "self" if i == 1 else "@p%d" % i, ())
        eps = ev_params(f)
        if eps: st.mem[OUT] = ("a", "inflight", 0, (st.mem[("L", 1, eps[0])], st.mem[("L", 1, eps[0] + 1)]))
        if pre: pre(st)
        ex = ai.run(f, 1, st); ctx = self.ctx; w = "%s:%s" % (f.file, f.line)
        if not ex: ctx.violation("noreturn:%s" % f.name, "%s never returns" % f.path, w)
        for x in ex:
            v = ai.load(x, ("L", 1, 0), ()); e = x.mem[ERR]
            if v[0] != "a":
                if v[0] == "s" and e == NO: continue
                ctx.violation("result:%s" % f.name, "%s: what it returns cannot be determined" % f.path, w); continue
            if e != NO:
                if v[2] == 0: ctx.violation("swallowed:%s" % f.name, "%s returns success although reading failed: the error is swallowed" % f.path, w)
                elif not (v[3] and v[3][0] == e): ctx.violation("replaced:%s" % f.name, "%s returns another error than the one that occurred" % f.path, w)
                continue
            if v[2] == 0:
                if x.mem[OUT] != NO: ctx.violation("dropped:%s" % f.name, "%s returns success although an event it took was never delivered" % f.path, w)
                if tag == "all":
                    l = x.mem[LAST]; d = None
                    if l[0] == "s": d = x.dom.get(ai.discr(x, l, self.ev))
                    A = self.p.adt(self.ev)["variants"]
                    end = next(y["discr"] for y in A if y["name"] == "StreamEnd")
                    if d != frozenset((end,)): ctx.violation("stopped:%s" % f.name, "%s returns success before the end of the stream was delivered" % f.path, w)
        return c, len(ex)
class WClient(loader_ai.LClient):
    """the wrappers around the parser's load function"""
    def __init__(self, rule, docs): super().__init__(rule.p, next(a["path"] for a in rule.p.adts.values() if a["path"].endswith("::YamlData") and a["local"])); self.r = rule; self.docs = docs; self.seen = 0; self.multi = []
    def exit_key(self, st, rv): return st.mem[ERR]
    def err_key(self, ai, st, rv): return st.mem[ERR]
    def intercept(self, ai, fr, args, st, depth, site):
        g = ai.resolve(fr, site[0].crate) if not fr.get("trait") else None
        n = fr.get("name") or ""
        if g is not None and g in self.r.loads:
            self.seen += 1; bad = st.copy(); bad.mem[ERR] = ("s", ("err", 1), ())
            def unknown(st):
                r = args[1]
                if r[0] != "r": raise loader_ai.Quit("receiver")
                old = ai.load(st, r[1], r[2])
                if old[0] != "a": raise loader_ai.Quit("receiver")
                for i in range(len(old[3])): ai.store(st, r[1], r[2] + (("f", i),), fresh())
            unknown(bad)
            out = [(bad, err(("s", ("err", 1), ())))]
            m = args[2]
            if m[0] != "k": raise loader_ai.Quit("how many documents are loaded")
            self.multi.append(m[1])
            for docs in ((), (nd1,), (nd1, nd2)):
                if len(docs) == 2 and not m[1]: continue
                s = st.copy(); r = args[1]; unknown(s)
                ai.store(s, r[1], r[2] + (("f", self.docs),), ("a", "stk", 0, docs)); s.mem[OUT] = ("a", "w", 0, docs); s.mem[LAST] = K(m[1])
                out.append((s, ok(UNIT)))
            return out
        if g is not None and g.crate == "yam_core" and g.name in ("new", "new_from_str", "new_from_iter"): return [(st, fresh())]
        lv = [self.val(st, a) for a in args]
        if lv and lv[0][0] == "a" and lv[0][1] == "stk":
            a = args[0]
            def ref(i): return ("r", a[1], a[2] + (("f", i),))
            it = lv[0][3]
            if n in ("deref", "deref_mut", "as_slice"): return [(st, a)]
            if n in ("first", "last") : return [(st, models.some(ref(0 if n == "first" else len(it) - 1)) if it else models.NONE)]
            if n == "is_empty": return [(st, K(int(not it)))]
            if n == "len": return [(st, K(len(it)))]
            if n in ("pop", "swap_remove", "remove", "get", "index") and a[0] == "r":
                if n == "pop":
                    if not it: return [(st, models.NONE)]
                    ai.store(st, a[1], a[2], ("a", "stk", 0, it[:-1])); return [(st, models.some(it[-1]))]
                i = lv[1][1] if lv[1][0] == "k" else None
                if i is None: raise loader_ai.Quit(n)
                if n == "get": return [(st, models.some(ref(i)) if i < len(it) else models.NONE)]
                if i >= len(it): return []
                if n == "index": return [(st, ref(i))]
                return [(st, it[i])]
            if n == "into_iter": return [(st, ("a", "iter", 0, it))]
        if lv and lv[0][0] == "a" and lv[0][1] == "iter":
            it = lv[0][3]
            if n == "next": 
                if args[0][0] == "r" and it: ai.store(st, args[0][1], args[0][2], ("a", "iter", 0, it[1:]))
                return [(st, models.some(it[0]) if it else models.NONE)]
            if n == "last": return [(st, models.some(it[-1]) if it else models.NONE)]
        if lv and loader_ai.isnode(lv[0]) and n in ("clone", "to_owned", "into", "from"): return [(st, lv[0])]
        if n in ("cloned", "default") or "BTreeMap" in fr["path"] or fr["path"].startswith("alloc::vec::Vec::<T>::"): return super().intercept(ai, fr, args, st, depth, site)
        return None
nd1, nd2 = loader_ai.nd("scalar", K(1)), loader_ai.nd("scalar", K(2))
def wrappers(ctx, r):
    p = r.p; run = loader_ai.Run(p, 1)
    ws = []
    for f in p.fns.values():
        if f.crate != "yam_core": continue
        for _, fr, _, _, _ in cg.calls(f):
            if fr is not None and not fr.get("trait") and p.get("yam_core", fr.get("resolved") or fr["path"]) in r.loads and f not in r.drivers: ws.append(f); break
    direct = set(ws)
    for f in p.fns.values():
        if f.crate == "yam_core" and f not in direct and any(fr is not None and p.get("yam_core", fr.get("resolved") or fr["path"]) in direct for _, fr, _, _, _ in cg.calls(f)): ws.append(f)
    n = 0
    for f in ws:
        w = "%s:%s" % (f.file, f.line)
        c = WClient(r, run.c.docs); c.nt = run.NT; c.fn = f; c.cur = "in %s" % f.path
        ai = AI(p, c, "yam_core", maxstates=60, budget=200000, maxexits=60); c.ai = ai
        st = St(); st.mem[ERR] = NO; st.mem[OUT] = NO
        try: ex = ai.run(f, 1, st)
        except loader_ai.Quit as q: ctx.violation("wrapper-unfollowed:%s" % f.name, "%s cannot be followed: %s" % (f.path, q), w); continue
        for x in ex:
            n += 1
            v = ai.load(x, ("L", 1, 0), ()); e = x.mem[ERR]
            if e != NO:
                if v[0] != "a" or v[2] != 1 or v[3] != (e,): ctx.violation("wrapper-error:%s" % f.path, "%s does not return the error loading failed with" % f.path, w)
                continue
            o = x.mem[OUT]
            if o == NO: ctx.violation("wrapper-unloaded:%s" % f.path, "%s returns without loading" % f.path, w); continue
            if v[0] == "a" and v[2] == 0: v = v[3][0]
            elif v[0] == "a": v = "error"
            if x.mem[LAST] == K(1): 
                if v != ("a", "stk", 0, o[3]): ctx.violation("wrapper-docs:%s" % f.path, "%s does not return the documents that were loaded" % f.path, w)
            elif v != (o[3][0] if o[3] else "error"): ctx.violation("wrapper-doc:%s" % f.path, "%s does not return the document that was loaded" % f.path, w)
    ctx.cov["wrappers"] = sorted(f.path for f in ws)
    ctx.floor("loading_functions", len(ws), 5); ctx.floor("loading_outcomes", n, 15)
def check(ctx):
    r = Rule(ctx); tot = [0, 0, 0, 0]
    ctx.floor("passing_functions", len(r.drivers), 5)
    if len(r.loads) != 1: ctx.violation("load", "the parser's load function was not found")
    for f in sorted(r.drivers, key=lambda f: f.path):
        pres = [(None, "")]
        if f in r.loads:
            b = next(i for i in range(1, f.body["argc"] + 1) if f.body["locals"][i][0] == "bool")
            def one(st): st.mem[("L", 1, b)] = K(0); st.mem[DOCS] = K(0)
            def many(st): st.mem[("L", 1, b)] = K(1)
            pres = [(one, "one"), (many, "all")]
        for pre, tag in pres:
            c, n = r.run(f, pre, tag)
            tot[0] += c.fetches; tot[1] += c.deliveries; tot[2] += c.calls; tot[3] += n
    for k, v, m in zip(("fetches", "deliveries", "handovers", "exits"), tot, (8, 8, 6, 15)): ctx.floor(k, v, m)
    ctx.cov["functions"] = sorted(f.path for f in r.drivers)
    wrappers(ctx, r)
    ctx.cov["explanation"] = __doc__
    ctx.assumptions += ["next_event_impl hands out the parser's events in order (C01, C02)", "a receiver's own code is not part of the rule (C16 decides the tree loader's)"]
