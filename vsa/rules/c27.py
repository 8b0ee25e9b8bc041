"""Every reading interface delivers exactly the event sequence of the step function, in order.

Typestate over the delivery code, by abstract interpretation of each function with the
event producer replaced by a fresh symbolic event:
 A  peek / next_event / Iterator::next: a cached event is handed out (once, unchanged) before
    anything is produced; peek produces at most one event and caches it; the end flag is set
    exactly when the stream end or an error is handed out, after which nothing is produced.
 B  the push loaders (every function taking an event receiver): each produced event is handed
    to the receiver exactly once, unchanged, before the next one is produced, on every path
    that returns success; the adapter between receiver kinds passes the event through once.
 C  the high-level event iterator: every produced event is translated to its counterpart with
    the same payload; only comments/placeholders are skipped; the iteration stops without an
    event only at the end of the stream or with the error recorded."""
from absint import *
import models
from models import some, ok, err, NONE, OPT, RES
from parser_pda import Layout, PARSER, SELF, OSELF
EVRET = "core::result::Result<(parsing::parser::Event"

def fnname(f): return f.path.rsplit("::", 1)[-1]
def is_recv_fn(f):
    # a function taking an event receiver by mutable reference: its bound mentions the receiver trait
    return any(re.match(r"&('\w+ )?mut R\b", l[0]) for l in f.body["locals"][1:f.body["argc"] + 1])
import re

class DClient(Client):
    def __init__(self, rule): self.r = rule; self.events = []
    def pull(self, ai, st):
        r = self.r
        p = st.mem.get(("E", "pend"), K(0))
        if p != K(0) and not self.skippable(st, p): st.mem[("E", "lost")] = K(1)
        e = st.copy()
        t = fresh(); sp = fresh()
        st.dom[("s", t[1], (("disc",),))] = frozenset(range(len(r.lay.E)))
        st.mem[("E", "pend")] = t; st.mem[("E", "pspan")] = sp
        for s in (st, e): s.mem[("E", "pulls")] = K(min(s.mem[("E", "pulls")][1] + 1, 3)) if s.mem[("E", "pulls")][0] == "k" else K(3)
        st.mem[("E", "log")] = self.log(st, t)
        e.mem[("E", "perr")] = K(1)
        ev = fresh()
        e.mem[("E", "errv")] = ev
        return [(st, ok(("a", "tuple", 0, (t, sp)))), (e, err(ev))]
    def skippable(self, st, p): return self.r.kinds(st, p) <= self.r.skip
    def log(self, st, t):
        l = st.mem.get(("E", "log"), ("a", "array", 0, ()))
        items = tuple(x for x in l[3] if not self.skippable(st, x)) if l[0] == "a" else ()
        return ("a", "array", 0, items[-3:] + (t,))
    def intercept(self, ai, fr, args, st, depth, site):
        r = self.r
        if fr.get("name") == "on_event" and "EventReceiver" in (fr.get("trait") or "") :
            ev = ai.simplify(st, args[1]); sp = ai.simplify(st, args[2]) if len(args) > 2 else None
            pe = st.mem.get(("E", "pend"), K(0))
            if pe == K(0) or not r.same_event(st, ev, pe): st.mem[("E", "wrong")] = K(1)
            elif sp is not None and sp != st.mem[("E", "pspan")]: st.mem[("E", "wspan")] = K(1)
            st.mem[("E", "pend")] = K(0)
            st.mem[("E", "n")] = K(1)
            return [(st, UNIT)]
        if not fr.get("local"): return None
        g = ai.resolve(fr, site[0].crate)
        if g is None: return None
        if g in r.producers and g is not r.cur: return self.pull(ai, st)
        if g in r.loaders and g is not r.cur:
            evi = r.evargs[g]
            pe = st.mem.get(("E", "pend"), K(0))
            if evi:
                ev = ai.simplify(st, args[evi[0]]); sp = ai.simplify(st, args[evi[1]]) if evi[1] is not None else None
                if pe == K(0) or not r.same_event(st, ev, pe): st.mem[("E", "wrong")] = K(1)
                elif sp is not None and sp != st.mem[("E", "pspan")]: st.mem[("E", "wspan")] = K(1)
            elif pe != K(0): st.mem[("E", "lost")] = K(1)
            st.mem[("E", "pend")] = K(0)
            ai.store(st, OSELF, (), ("s", fresh()[1], ()))
            e = st.copy()
            return [(st, ok(UNIT)), (e, err(fresh()))]
        return None
    def extra_key(self, st):
        return tuple(st.mem.get(("E", k)) if not (st.mem.get(("E", k)) or K(0))[0] == "s" else "sym" for k in ("pend", "lost", "wrong", "wspan")) + (self.nlog(st),)
    def nlog(self, st):
        l = st.mem.get(("E", "log"))
        return len(l[3]) if l and l[0] == "a" else -1
    def exit_key(self, st, rv):
        return self.extra_key(st)
    def err_key(self, ai, st, rv): return self.extra_key(st) + (st.mem.get(("E", "perr")),)
    def inline(self, fn): return True

class Rule:
    def __init__(self, ctx):
        self.ctx = ctx; self.p = p = ctx.prog(); self.lay = L = Layout(p)
        self.skip = frozenset(["Nothing", "Comment"])
        self.flag = None
        for i, (n, t) in enumerate(L.adt["variants"][0]["fields"]):
            if t == "bool" and "end" in n: self.flag = i
        if self.flag is None: raise KeyError("end-of-stream flag not identified")
        self.methods = [f for f in p.fns.values() if f.crate == "yam_core" and (f.d.get("impl_self") or "").startswith(PARSER + "<") and not f.d.get("closure")]
        self.producers = set()
        for f in self.methods:
            if f.d["ret"].startswith(EVRET) and f.body["argc"] == 1 and not self.touches_current(f): self.producers.add(f)
        self.cur = None
        self.loaders = {f for f in self.methods if is_recv_fn(f)}
        self.evargs = {}
        for f in self.loaders:
            tys = [l[0] for l in f.body["locals"][1:f.body["argc"] + 1]]
            e = [i for i, t in enumerate(tys) if t.startswith("parsing::parser::Event")]
            s = [i for i, t in enumerate(tys) if t.endswith("prelude::Span")]
            self.evargs[f] = (e[0], s[0] if s else None) if e else None
        self.n = 0
    def touches_current(self, f):
        txt = repr(f.body["bbs"])
        return "'f', %d, '%s'" % (self.lay.current, self.lay.adt["variants"][0]["fields"][self.lay.current][0]) in txt
    def kinds(self, st, t):
        d = st.dom.get(("s", t[1], t[2] + (("disc",),))) if t[0] == "s" else None
        N = [v["name"] for v in self.lay.E]; D = [v["discr"] for v in self.lay.E]
        if t[0] == "a": return frozenset((N[t[2]],))
        if isinstance(d, frozenset): return frozenset(N[D.index(x)] for x in d)
        if isinstance(d, tuple): return frozenset(n for n, x in zip(N, D) if x not in d[1])
        return frozenset(N)
    def same_event(self, st, ev, pe):
        """the event itself, or its only variant without payload rebuilt"""
        if ev == pe: return True
        return ev[0] == "a" and not ev[3] and not self.lay.E[ev[2]]["fields"] and self.kinds(st, pe) == {self.lay.E[ev[2]]["name"]}
    def run(self, f, flag, cur, setup=None):
        c = DClient(self); self.cur = f
        ai = AI(self.p, c, "yam_core", maxstates=200, budget=400000, unroll=2, maxexits=60)
        st = St(); L = self.lay
        fields = [("s", "self." + n, ()) for n, t in L.adt["variants"][0]["fields"]]
        fields[self.flag] = K(flag)
        cs = ("s", "cached", ())
        if cur is not None: fields[L.current] = some(cs) if cur else NONE
        if cur: st.dom[("s", "cached", (("f", 0), ("disc",)))] = frozenset(range(len(L.E)))
        self.c0 = cs; self.fields = fields
        st.mem[OSELF] = ("a", PARSER, 0, tuple(fields))
        st.mem[("L", 1, 1)] = SELF
        st.mem[("E", "pulls")] = K(0)
        if setup: setup(st)
        outs = ai.run(f, 1, st); self.n += 1
        return ai, outs
    def bad(self, f, what, msg): self.ctx.violation("%s:%s" % (f.path, what), "%s: %s" % (f.path, msg), "%s:%s" % (f.file, f.line))

def tup(ai, o, v):
    if v[0] == "a" and v[1] == "tuple": return v[3]
    return (ai.child(o, v, ("f", 0)), ai.child(o, v, ("f", 1)))

def part_a(r):
    L = r.lay; nf = 0
    for f in sorted(r.methods, key=lambda f: f.path):
        nm = f.name; ret = f.d["ret"]
        if f.body["argc"] != 1 or f in r.producers or f in r.loaders: continue
        opt = ret.startswith("core::option::Option<core::result::Result<") or (f.d.get("impl_trait") == "core::iter::Iterator" and nm == "next")
        direct = ret.startswith(EVRET)
        if not (opt or direct): continue
        if opt and "&mut" not in f.body["locals"][1][0]: continue
        isref = "Result<&" in ret
        nf += 1
        for flag in (0, 1):
            for cur in (0, 1):
                if flag and (cur or direct): continue
                ai, outs = r.run(f, flag, cur)
                if not outs: r.bad(f, "noexit", "never returns (flag %d, cached %d)" % (flag, cur)); continue
                for o in outs:
                    rv = o.mem[("L", 1, 0)]; slf = o.mem[OSELF]
                    def fld(i): return ai.child(o, slf, ("f", i))
                    pulls = o.mem[("E", "pulls")]; cv = fld(L.current); fl = fld(r.flag)
                    for i in range(len(r.fields)):
                        if i not in (r.flag, L.current) and fld(i) != r.fields[i]: r.bad(f, "frame", "changes other parser state (field %s)" % L.adt["variants"][0]["fields"][i][0])
                    if flag:
                        if rv != NONE or pulls != K(0): r.bad(f, "after-end", "does not report the end (None, producing nothing) after the stream end was handed out")
                        if cv != NONE: r.bad(f, "after-end", "caches an event after the end")
                        continue
                    if opt:
                        if rv[0] != "a" or rv[2] != 1: r.bad(f, "none", "returns no event although the stream has not ended"); continue
                        res = rv[3][0]
                    else: res = rv
                    if res[0] != "a": r.bad(f, "undet", "result not determined"); continue
                    if res[2] == 1:
                        if pulls == K(0): r.bad(f, "error", "returns an error although nothing failed")
                        elif res[3][0] != o.mem.get(("E", "errv")): r.bad(f, "error", "does not return the producer's error")
                        if cv != NONE: r.bad(f, "error", "caches an event when production failed")
                        if opt and not isref:
                            if fl != K(1): r.bad(f, "flag", "does not end the iteration after an error (iterating on yields errors forever)")
                        elif fl != K(0): r.bad(f, "flag", "marks the stream ended on an error it may report again")
                        continue
                    if o.mem.get(("E", "perr")) is not None: r.bad(f, "error", "hides the producer's error"); continue
                    if pulls != K(0 if cur else 1): r.bad(f, "pulls", "produces %s event(s) with %s" % (pulls[1], "an event already cached" if cur else "nothing cached")); continue
                    payload = res[3][0]
                    if cur: ev0 = (ai.child(o, r.c0, ("f", 0)), ai.child(o, r.c0, ("f", 1)))
                    else: ev0 = (o.mem[("E", "pend")], o.mem[("E", "pspan")])
                    if isref:
                        if payload[0] == "r":
                            if not (payload[1] == OSELF and payload[2] and payload[2][0] == ("f", L.current)): r.bad(f, "ref", "does not return a reference to the cached event")
                            got = tup(ai, o, ai.load(o, payload[1], payload[2]))
                        else: got = None; r.bad(f, "ref", "returned reference not determined")
                        if got is not None and tuple(got) != ev0: r.bad(f, "event", "hands out another event than the %s one" % ("cached" if cur else "produced"))
                        if cv[0] != "a" or cv[2] != 1 or tuple(tup(ai, o, cv[3][0])) != ev0: r.bad(f, "cache", "does not keep the peeked event")
                        if fl != K(0): r.bad(f, "flag", "marks the stream ended without handing out the event")
                    else:
                        if tuple(tup(ai, o, payload)) != ev0: r.bad(f, "event", "hands out another event than the %s one" % ("cached" if cur else "produced"))
                        if cv != NONE: r.bad(f, "cache", "leaves an event cached that was already handed out")
                        if opt:
                            ks = r.kinds(o, ev0[0])
                            if fl == K(1) and ks != {"StreamEnd"}: r.bad(f, "flag", "marks the stream ended after an event other than the stream end")
                            elif fl == K(0) and "StreamEnd" in ks: r.bad(f, "flag", "does not mark the stream ended after the stream end")
                            elif fl not in (K(0), K(1)): r.bad(f, "flag", "end flag not determined")
                        elif fl != K(0): r.bad(f, "flag", "changes the end flag")
    r.ctx.floor("pull_functions", nf, 4)

def part_b(r):
    # inside the loaders the pulling wrapper is the producer
    wr = {f for f in r.methods if f.body["argc"] == 1 and f.d["ret"].startswith(EVRET)}
    keep = r.producers; r.producers = wr
    for f in sorted(r.loaders, key=lambda f: f.path):
        def setup(st):
            e = r.evargs[f]
            for i in range(1, f.body["argc"]): st.mem[("L", 1, i + 1)] = ("s", "arg%d" % i, ())
            st.mem[("E", "pend")] = K(0)
            if e:
                ev = ("s", "arg%d" % e[0], ()); st.dom[("s", ev[1], (("disc",),))] = frozenset(range(len(r.lay.E)))
                st.mem[("E", "pend")] = ev
                st.mem[("E", "pspan")] = ("s", "arg%d" % e[1], ()) if e[1] is not None else K(0)
        ai, outs = r.run(f, 0, None, setup)
        oks = 0
        for o in outs:
            if o.mem.get(("E", "lost")) == K(1): r.bad(f, "lost", "a produced event is not handed to the receiver before the next one is produced")
            if o.mem.get(("E", "wrong")) == K(1): r.bad(f, "wrong", "the receiver gets an event that was not the one just produced")
            if o.mem.get(("E", "wspan")) == K(1): r.bad(f, "span", "the receiver gets an event with another event's span")
            rv = o.mem.get(("L", 1, 0))
            if rv[0] == "a" and rv[1] == RES and rv[2] == 1: continue
            oks += 1
            if o.mem.get(("E", "pend")) != K(0): r.bad(f, "lost", "returns successfully without handing out the event it produced")
        if not oks: r.bad(f, "nook", "never succeeds")
    r.ctx.floor("push_loaders", len(r.loaders), 5)
    r.producers = keep
    # adapter
    n = 0
    for f in r.p.fns.values():
        if f.crate == "yam_core" and f.name == "on_event" and (f.d.get("impl_trait") or "").endswith("SpannedEventReceiver") and not (f.d.get("impl_self") or "").count("::"):
            n += 1
            def setup(st):
                st.mem[("L", 1, 1)] = ("s", "recv", ()); st.mem[("L", 1, 2)] = ("s", "arg1", ()); st.mem[("L", 1, 3)] = ("s", "arg2", ())
                st.mem[("E", "pend")] = ("s", "arg1", ())
            ai, outs = r.run(f, 0, None, setup)
            for o in outs:
                if o.mem.get(("E", "wrong")) == K(1) or o.mem.get(("E", "pend")) != K(0): r.bad(f, "adapter", "does not pass its event on exactly once")
    r.ctx.floor("receiver_adapters", n, 1)

MAP = {"Alias": "Alias", "Scalar": "Scalar", "SequenceStart": "SeqStart", "SequenceEnd": "SeqEnd", "MappingStart": "MapStart", "MappingEnd": "MapEnd", "DocumentEnd": "DocEnd"}
def part_c(r):
    ITER = "parsing::parser_iter::ParserIter"; p = r.p
    a = p.adt(ITER)
    fs = [f for f in p.fns.values() if f.crate == "yam_core" and f.name == "next" and (f.d.get("impl_self") or "").startswith(ITER) and f.d.get("impl_trait") == "core::iter::Iterator"]
    if a is None or len(fs) != 1: r.ctx.violation("iter", "high-level event iterator not found"); return
    f = fs[0]; F = a["variants"][0]["fields"]
    si = [i for i, (n, t) in enumerate(F) if t.startswith("parsing::parser_iter::")][0]
    ei = [i for i, (n, t) in enumerate(F) if t.startswith("core::option::Option<") and "Error" in t][0]
    SA = p.adt(F[si][1]); Y = p.adt("parsing::parser_iter::YamEvent")["variants"]
    yn = [v["name"] for v in Y]; sn = [v["name"] for v in SA["variants"]]
    keep = r.producers
    r.producers = {g for g in r.methods if g.body["argc"] == 1 and g.d["ret"].startswith(EVRET)} | {g for g in r.methods if g.name in ("next_event",)}
    checked = 0
    for s in range(len(sn)):
        c = DClient(r); r.cur = f
        ai = AI(p, c, "yam_core", maxstates=200, budget=400000, unroll=2, maxexits=60)
        st = St()
        vals = [("s", "self." + n, ()) for n, t in F]; vals[si] = ("a", SA["path"], s, ()); vals[ei] = NONE
        st.mem[OSELF] = ("a", ITER, 0, tuple(vals)); st.mem[("L", 1, 1)] = SELF; st.mem[("E", "pulls")] = K(0)
        st.mem[("E", "log")] = ("a", "array", 0, ())
        for o in ai.run(f, 1, st):
            checked += 1
            rv = o.mem[("L", 1, 0)]; slf = o.mem[OSELF]
            log = o.mem.get(("E", "log"))
            evs = [x for x in log[3]] if log and log[0] == "a" else None
            er = ai.child(o, slf, ("f", ei)); ns = ai.child(o, slf, ("f", si))
            perr = o.mem.get(("E", "perr")) is not None
            if evs is None: r.bad(f, "undet", "produced events not determined"); continue
            ks = [r.kinds(o, x) for x in evs]
            if rv == NONE:
                if perr or er != NONE:
                    if er[0] != "a" or er[2] != 1: r.bad(f, "error", "stops on an error without recording it")
                    elif perr and er[3][0] != o.mem.get(("E", "errv")): r.bad(f, "error", "records another error than the producer's")
                    if not perr and evs and ks[-1] & set(MAP) and sn[s] == "InDocument": r.bad(f, "drop", "%s inside a document ends the iteration" % sorted(ks[-1] & set(MAP)))
                elif not (len(ks) == 1 and ks[-1] == {"StreamEnd"}): r.bad(f, "end", "ends the iteration silently after %s" % [sorted(k)[:3] for k in ks])
                continue
            if rv[0] != "a" or rv[2] != 1 or rv[3][0][0] != "a": r.bad(f, "undet", "translated event not determined in state %s" % sn[s]); continue
            if perr: r.bad(f, "error", "returns an event although the producer failed"); continue
            y = rv[3][0]; name = yn[y[2]]
            if name == "DocStart":
                if [sorted(k) for k in ks] != [["StreamStart"], ["DocumentStart"]]: r.bad(f, "docstart", "reports a document start after %s" % [sorted(k)[:3] for k in ks])
                continue
            if len(ks) != 1: r.bad(f, "drop", "drops %s before reporting %s" % ([sorted(k)[:4] for k in ks[:-1]], name)); continue
            k = ks[0]
            if len(k) != 1 or MAP.get(next(iter(k))) != name: r.bad(f, "map:" + name, "translates %s to %s" % (sorted(k), name)); continue
            k = next(iter(k)); vi = [v["name"] for v in r.lay.E].index(k)
            want = tuple(ai.child(o, ai.child(o, evs[0], ("v", vi)), ("f", i)) for i in range(len(r.lay.E[vi]["fields"])))
            if tuple(y[3]) != want: r.bad(f, "payload:" + name, "translates %s with another payload" % k)
    r.producers = keep
    r.ctx.floor("iterator_paths", checked, 15)

def check(ctx):
    r = Rule(ctx)
    ctx.floor("producers", len(r.producers), 1)
    part_a(r); part_b(r); part_c(r)
    ctx.cov["functions_interpreted"] = r.n
    ctx.assumptions.append("an event receiver supplied by the caller does not call back into the parser (it cannot: the parser is mutably borrowed)")
