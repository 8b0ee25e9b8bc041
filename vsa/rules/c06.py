"""Reading never panics.

Every function reachable from the reading entry points that contains a panic (assertion,
arithmetic check, index, unwrap, unreachable, …) is interpreted, and every panic must be
infeasible:
 S  scanner functions over all scanner states and look-ahead bytes, under three invariants
    that are themselves checked at every call, return, loop and construction: one pending
    simple key per open flow level; the indentation stack saves what it covers; a possible
    simple key numbers a token still in the queue.  An error of a callee is returned, and
    nothing is delivered after it.
 P  the parser's step function in every state with every token class; the state stack never
    empties below its frame (product with the token grammar).
 D  the push loaders, with the step function replaced by the event grammar (every shape of
    nesting; recursive loaders replaced by the contract they are checked against).
 I  the input source, with its position inside the input (checked by S: nothing is skipped
    past the end).
 G  everything else, for arbitrary arguments.
Calls of library routines that can panic and are not modelled are reported."""
import os, re
from absint import *
import models, cg as cgm, panic_ai, scan_ai, _pda
from models import some, ok, err, NONE, RES
from parser_pda import PDA, Layout, PARSER, SELF, OSELF
def where(fn, b=None):
    sp = fn.body["bbs"][b].get("sp") if b is not None else None
    return "%s:%s" % (fn.file, sp[1] if isinstance(sp, list) and len(sp) > 1 else fn.line)

# library routines that panic on some argument; those modelled with their panic condition
PANICKY = {"remove", "swap_remove", "insert", "drain", "split_at", "split_at_mut", "split_off", "copy_from_slice", "clone_from_slice", "swap", "rotate_left", "rotate_right", "chunks",
           "chunks_exact", "windows", "unwrap", "expect", "unwrap_err", "expect_err", "step_by", "to_digit", "from_digit", "pow", "abs", "copy_within", "splice", "replace_range",
           "insert_str", "index", "index_mut", "range", "unwrap_unchecked", "div_euclid", "rem_euclid", "ilog2", "ilog10", "ilog", "next_power_of_two", "repeat", "from_utf8_lossy_owned", "chunks_mut", "fill_with", "select_nth_unstable",
           "make_contiguous_", "swap_with_slice", "resume_unwind", "abort", "exit", "panic_any", "clamp", "borrow_mut_", "truncate_", "split_first_chunk_"}
def modelled(p, fr):
    n = fr.get("name"); path = fr["path"]
    if n in ("unwrap", "expect", "unwrap_err", "expect_err"): return "option::Option" in path or "result::Result" in path
    if n in ("index", "index_mut"):
        t = fr.get("self_ty") or ""
        return t.startswith("[") or "Vec<" in t
    if n == "insert": return "BTreeMap" in path or "BTreeSet" in path or "VecDeque" in path or "Vec::<" in path
    return False

class GClient(Client):
    def __init__(self): self.pan = {}; self.obl = 0
    def on_panic(self, ai, why, st, site): self.obl += 1; self.pan.setdefault((site[0].path, str(why)), where(site[0], site[1]))
    def on_assert(self, ai, fn, b, t, st):
        self.obl += 1
        v = ai.av; kind = t[3] if len(t) > 3 else "?"
        self.ai_st = st; self.ai = ai
        if kind.startswith("overflow:Add") and v[0] == "x" and v[1] == "may_ovf" and v[2][1] not in ("u8", "i8", "u16", "i16", "bool") and self.counter(v[3]) and self.counter(v[4]): return
        self.pan.setdefault((fn.path, kind), where(fn, b))
    counter = panic_ai.PClient.counter

class DrvClient(GClient):
    """push loaders: frames as a string, innermost last
       b between documents, d document: node expected, D: its end expected, e stream ended
       S M collection opened just now, s item or end, k key or end, v value; N one whole node pulled
       C the collection the function was called for"""
    def __init__(self, r, cur, start): GClient.__init__(self); self.r = r; self.cur = cur; self.bad = {}; self.open = set(); self.pulls = 0
    def miss(self, key, msg, site): self.bad.setdefault(key, (msg, where(site[0], site[1])))
    @staticmethod
    def ctx(st): return st.mem[("E", "ctx")][1].decode()
    def outs(self, st, c):
        """[(event kinds, frames after)]"""
        if not c or c[-1] in "NC": return None
        t, b = c[-1], c[:-1]
        adv = {"S": "s", "s": "s", "M": "v", "k": "v", "v": "k", "d": "D"}
        if t == "!": return [(["StreamStart"], b + "b")]
        if t == "b": return [(["DocumentStart"], b + "bd"), (["StreamEnd"], b + "e")]
        if t == "e": return [(["StreamEnd"], c)]
        if t == "D": return [(["DocumentEnd"], b)]
        n = b + adv[t]
        out = [(["Alias", "Scalar"], n), (["SequenceStart"], n + "S"), (["MappingStart"], n + "M")]
        if t in "Ss": out.append((["SequenceEnd"], b))
        if t in "Mk": out.append((["MappingEnd"], b))
        return out
    def intercept(self, ai, fr, args, st, depth, site):
        r = self.r
        if fr.get("name") == "on_event" and "EventReceiver" in (fr.get("trait") or ""): return [(st, UNIT)]
        if not fr.get("local"): return None
        g = ai.resolve(fr, site[0].crate)
        if g is None or g is self.cur and depth == 0: return None
        if g is r.step:
            self.pulls += 1
            e = st.copy(); res = [(e, err(fresh()))]
            o = self.outs(st, self.ctx(st))
            if o is None:
                if self.ctx(st) != "": self.miss("past:%s" % site[0].name, "%s pulls an event beyond the node it was asked to deliver" % site[0].path, site)
                return res
            for kinds, c in o:
                if len(c) > 12: continue
                s = st.copy(); t = fresh()
                s.dom[("s", t[1], (("disc",),))] = frozenset(r.lay.ename.index(k) for k in kinds)
                s.mem[("E", "ctx")] = ("str", c.encode())
                res.append((s, ok(("a", "tuple", 0, (t, fresh())))))
            return res
        if g in r.rec:
            c = self.ctx(st); e = st.copy()
            ev = [a for a, l in zip(args, g.body["locals"][1:]) if l[0].startswith("parsing::parser::Event")]
            if ev:
                vs = ai.value_set(st, ai.discr(st, ai.simplify(st, ev[0]), "parsing::parser::Event"))
                ks = {r.lay.ename[i] for i in vs} if vs else set(r.lay.ename)
                top = c[-1:]
                if ks <= {"Alias", "Scalar"}: pass
                elif ks == {"SequenceStart"} and top == "S" or ks == {"MappingStart"} and top == "M": c = c[:-1]
                else: self.miss("node:%s" % site[0].name, "%s delivers %s as a node" % (site[0].path, "/".join(sorted(ks))), site); return [(e, err(fresh()))]
            else:
                if c[-1:] not in ("S", "M"): self.miss("coll:%s" % site[0].name, "%s reads a collection that was not just opened" % site[0].path, site); return [(e, err(fresh()))]
                self.open.add((g, c[-1])); c = c[:-1]
            st.mem[("E", "ctx")] = ("str", c.encode())
            return [(st, ok(UNIT)), (e, err(fresh()))]
        return None
    def extra_key(self, st): return st.mem.get(("E", "ctx"))
    def exit_key(self, st, rv): return self.extra_key(st)

class Drivers:
    def __init__(self, ctx, pda):
        self.ctx = ctx; self.lay = pda.lay; self.step = pda.fn; p = pda.p; self.p = p
        recv = [f for f in p.fns.values() if f.crate == "yam_core" and not f.d.get("closure") and (f.d.get("impl_self") or "").startswith(PARSER) and any(re.match(r"&('\w+ )?mut R\b", l[0]) for l in f.body["locals"][1:f.body["argc"] + 1])]
        self.recv = recv
        R = cgm.reach(p, recv)
        self.rec = {f for c in cgm.sccs(p, R) for f in c if f in recv}
        called = set()
        for f in recv: called |= {g for g, _ in cgm.edges(p, f) if g is not f}
        self.roots = [f for f in recv if f not in called]
        self.inlined = set(); self.n = 0; self.pulls = 0
    def run(self):
        todo = [(f, "!", None) for f in self.roots] + [(f, "b", None) for f in self.roots]
        for f in self.rec:
            if self.ev_arg(f) is not None: todo += [(f, "N", ["Alias", "Scalar"]), (f, "NS", ["SequenceStart"]), (f, "NM", ["MappingStart"])]
        done = set()
        while todo:
            f, c0, kinds = todo.pop()
            if (f, c0) in done: continue
            done.add((f, c0)); c = self.one(f, c0, kinds)
            for g, t in c.open: todo.append((g, "C" + t, None))
        for f in self.rec:
            if self.ev_arg(f) is None and not any(g is f for g, _ in done): self.ctx.violation("driver:%s" % f.name, "%s is never called for a collection" % f.path, where(f))
        return self
    def ev_arg(self, f):
        for i, l in enumerate(f.body["locals"][1:f.body["argc"] + 1]):
            if l[0].startswith("parsing::parser::Event"): return i
    def one(self, f, c0, kinds):
        L = self.lay; c = DrvClient(self, f, c0); ai = AI(self.p, c, "yam_core", maxstates=600, maxexits=200, unroll=3)
        st = St()
        for i in range(f.body["argc"]): st.mem[("L", 1, i + 1)] = ("s", "arg%d" % i, ())
        st.mem[("L", 1, 1)] = SELF
        fields = [("s", "self." + n, ()) for n, _ in L.adt["variants"][0]["fields"]]
        if c0 == "!": fields[L.state] = ("a", L.state_adt, L.sname.index("StreamStart") if "StreamStart" in L.sname else 0, ()); fields[L.current] = NONE
        elif c0 == "b": fields[L.current] = NONE; st.dom[("s", "self." + L.adt["variants"][0]["fields"][L.state][0], (("disc",),))] = frozenset(i for i, n in enumerate(L.sname) if n != "StreamStart")
        st.mem[OSELF] = ("a", PARSER, 0, tuple(fields)); st.mem[("E", "ctx")] = ("str", c0.encode())
        i = self.ev_arg(f)
        if kinds is not None and i is not None: st.dom[("s", "arg%d" % i, (("disc",),))] = frozenset(L.ename.index(k) for k in kinds)
        outs = ai.run(f, 1, st)
        self.inlined |= ai.inlined | {f.path}; self.n += 1; self.pulls += c.pulls
        want = {"N": "N", "C": "C"}.get(c0[0])
        for o in outs:
            rv = o.mem.get(("L", 1, 0), UNIT)
            if rv[0] == "a" and rv[1] == RES and rv[2] == 0 and want is not None and DrvClient.ctx(o) != want:
                self.ctx.violation("driver:%s:%s" % (f.name, c0), "%s may return successfully without having delivered the whole node" % f.path, where(f))
        for k, (m, w) in sorted(c.bad.items()): self.ctx.violation("driver:%s" % k, m, w)
        for (fn, why), w in sorted(c.pan.items()): self.ctx.violation("panic:%s:%s" % (short(fn), why), "%s may panic (%s) while delivering events (context %s of %s)" % (fn, why, c0, f.name), w)
        return c

def short(path): return re.sub(r"<[^<>]*>", "", re.sub(r"<[^<>]*>", "", path)).rsplit("::", 1)[-1]

def pos_inside(st, p, f):
    """a string source: the position is inside the input (checked by S)"""
    ty = f.d.get("impl_self") or ""
    a = p.adt(re.sub(r"<.*", "", ty)) if ty else None
    if a is None or a["kind"] != "struct" or not f.body["argc"]: return
    fs = a["variants"][0]["fields"]
    sl = [i for i, (n, t) in enumerate(fs) if "[u8]" in t]; ps = [i for i, (n, t) in enumerate(fs) if t == "usize"]
    if len(sl) == 1 and len(ps) == 1 and f.body["locals"][1][0].startswith("&"):
        st.facts[("x", "Lt", "usize", ("s", "arg0", ("*", ("f", sl[0]), "*", ("len",))), ("s", "arg0", ("*", ("f", ps[0]))))] = False
        st.facts[("x", "Lt", "usize", ("s", "arg0", (("*",), ("f", sl[0]), ("*",), ("len",))), ("s", "arg0", (("*",), ("f", ps[0]))))] = False

def receiver(f): return "EventReceiver" in (f.d.get("impl_trait") or "")
def universe(p):
    """functions reachable from the reading interfaces (clients' receivers and unused sources excluded)"""
    srcs = set()
    for f in p.fns.values():
        for l in f.body["locals"]:
            m = re.search(r"parsing::scanner::Scanner<(?:'\w+, )?([\w:]+)<?", l[0])
    def skip(f): return receiver(f) or (f.d.get("impl_trait") or "").endswith("Source") and not p_exported(p, f)
    roots = [f for f in p.fns.values() if f.crate == "yam_core" and not f.d.get("closure") and not f.d.get("derived") and not skip(f) and
             ((f.d.get("impl_self") or "").split("<")[0] in (PARSER, "parsing::parser_iter::ParserIter", "parsing::scanner::Scanner") or (f.d.get("impl_trait") or "").endswith("Source"))]
    seen = set(); st = list(roots)
    while st:
        f = st.pop()
        if f in seen or skip(f): continue
        seen.add(f)
        for g, _ in cgm.edges(p, f): st.append(g)
    return seen
def p_exported(p, f):
    a = p.adt(re.sub(r"<.*", "", f.d.get("impl_self") or ""))
    return a is not None and a["path"].rsplit("::", 1)[-1] != "BufferedBytesSource"

def sites(p, f):
    out = []
    for b, bb in enumerate(f.body["bbs"]):
        if bb.get("cleanup"): continue
        t = bb["t"]
        if t[0] == "assert": out.append((b, str(t[3])))
        elif t[0] == "call" and t[1][0] == "k" and "fn" in t[1][1]:
            fr = t[1][1]["fn"]; pa = fr["path"]
            if cgm.callee_targets(p, f, fr): continue
            if pa.startswith("core::panicking") or pa.startswith("std::rt::") or "panic" in pa: out.append((b, pa))
            elif fr.get("name") in PANICKY and not fr.get("local"): out.append((b, pa))
    return out

def check(ctx):
    p = ctx.prog()
    # S
    s = panic_ai.PScan(p).analyse()
    covered = set(); used = set()
    ctx.floor("scanner_functions_interpreted", len(s.res), 25)
    ctx.floor("scanner_obligations", sum(c.obl for c, _, _ in s.res.values()), 5000)
    for f, (c, ai, outs) in s.res.items():
        covered |= {f.path} | set(ai.inlined); used |= c.used
        if not outs: ctx.violation("noexit:" + f.name, "%s has no analysable return" % f.path, where(f))
        for (rule, key), (msg, w) in sorted(c.viol.items()):
            if rule.startswith("inv:") or rule == "overrun": ctx.violation("%s:%s" % (rule, key), msg, w)
        for (fn, why), w in sorted(c.pan.items()):
            w0 = w[0] if isinstance(w, tuple) else w
            ctx.violation("panic:%s:%s" % (short(fn), why), "%s may panic (%s)" % (fn, why), w0)
    ctx.floor("invariants_used", len(used), 3)
    new_scanner(ctx, p, s)
    # P
    pda, x = _pda.explore(ctx)
    for st_, cached, why, fn in pda.panics: ctx.violation("panic:%s:%s" % (short(fn), why), "%s may panic (%s) in parser state %s" % (fn, why, st_), _pda.anchor(pda))
    for kind, state, ev, msg, tr in x.viol:
        if kind == "stack" and "empty" in msg: ctx.violation("underflow:%s" % state, "in parser state %s, the parser %s and panics" % (state, msg), _pda.anchor(pda), tr)
    covered |= set(pda.fns) | {pda.fn.path}
    # D
    d = Drivers(ctx, pda).run()
    ctx.floor("driver_contexts", d.n, 5); ctx.floor("driver_pulls", d.pulls, 15)
    covered |= d.inlined
    # I, G
    U = universe(p); g = 0; ns = 0; done = []
    for f in sorted(U, key=lambda f: f.path):
        ss = sites(p, f); ns += len(ss)
        for b, pa in ss:
            if "::" in pa and not pa.startswith("core::panicking"):
                fr = f.body["bbs"][b]["t"][1][1]["fn"]
                if not modelled(p, fr): ctx.violation("unmodelled:%s:%s" % (f.name, short(pa)), "%s calls %s, which can panic" % (f.path, pa), where(f, b))
        if not ss or f.path in covered: continue
        if f.d.get("unsafe"): done.append(f.path + " (unsafe: callers' obligation)"); continue
        g += 1
        c = GClient(); ai = AI(p, c, f.crate, maxstates=200, maxexits=60); st = St()
        for i in range(f.body["argc"]): st.mem[("L", 1, i + 1)] = ("s", "arg%d" % i, ())
        pos_inside(st, p, f)
        ai.run(f, 1, st); done.append(f.path)
        for (fn, why), w in sorted(c.pan.items()):
            if fn in covered and fn != f.path: continue
            ctx.violation("panic:%s:%s" % (short(fn), why), "%s may panic (%s)" % (fn, why), w)
    ctx.floor("functions_reachable", len(U), 120); ctx.floor("panic_sites", ns, 60)
    ctx.cov["interpreted_alone"] = done
    ctx.cov["explanation"] = __doc__
    ctx.cov["rule"] = "no panic site is feasible"
    ctx.assumptions.append("inputs shorter than 2^32 bytes: counters of 32 bits and more that only add do not overflow")
    ctx.assumptions.append("the native stack suffices for the nesting of a document whose events are pushed (C05 bounds pulling only)")

def new_scanner(ctx, p, s):
    """constructors establish the invariants"""
    k = 0
    for f in p.fns.values():
        if f.crate != "yam_core" or f.d.get("derived"): continue
        if not any(x[0] == "=" and x[2][0] == "agg" and x[2][1] == "adt" and x[2][2] == scan_ai.SCANNER for b in f.body["bbs"] for x in b["s"]): continue
        ai = AI(p, GClient(), "yam_core"); st = St()
        for i in range(f.body["argc"]): st.mem[("L", 1, i + 1)] = ("s", "arg%d" % i, ())
        for o in ai.run(f, 1, st):
            rv = o.mem[("L", 1, 0)]
            if rv[0] != "a" or rv[1] != scan_ai.SCANNER: ctx.violation("new:undet", "%s: a new scanner is not determined" % f.path, where(f)); continue
            k += 1; v = rv[3]
            for i, want, what in ((s.ssp, FALSE, "stream start not yet produced"), (s.avail, FALSE, "no tokens available"), (s.indent, K(0), "indentation 0"), (s.flow, K(0), "flow level 0")):
                if ai.simplify(o, v[i]) != want: ctx.violation("new:%d" % i, "a new scanner does not start with: %s" % what, where(f))
            for i, what in ((s.keys, "no pending simple keys"), (s.indents, "an empty indentation stack"), (s.toks, "an empty token queue")):
                if ai.content_len(o, v[i]) != K(0): ctx.violation("new:%d" % i, "a new scanner does not start with %s" % what, where(f))
    ctx.floor("scanner_constructors", k, 1)
