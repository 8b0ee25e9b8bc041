"""Aliases refer to the anchor most recently defined in their own document.

 A  in the synchronous product of the parser's transition relation with the token grammar
    (all states, token classes, stack depths): a node with an anchor token registers exactly
    that name, under an identifier no other anchor of the parse has (the counter starts at 1
    and grows by one per registration), and its event carries the identifier; a node without
    one registers nothing and carries 0; an alias event carries the identifier currently
    registered for the alias token's own name, and an unregistered name is an error.
 B  the set of registered anchors is unchanged by every other step, and it is empty whenever
    a document starts.
 C  every other function that changes the set does so only between documents (the delivery
    drivers are interpreted with the step function replaced by the event grammar)."""
from absint import *
import models, re, _pda
from models import some, ok, err, NONE, OPT, RES
from parser_pda import Layout, PARSER, SELF, OSELF, PClient, PDA, EMPTY_MAP
from refparser import Product
def where(f): return "%s:%s" % (f.file, f.line)

def life(t): return re.sub(r"'\w+", "'_", t)
def mutates(f, fi, ty):
    """fields #fi of the given map type borrowed mutably or assigned in f"""
    def hits(pl): return any(isinstance(x, list) and x[0] == "f" and x[1] == fi and len(x) > 3 and life(x[3]) == life(ty) for x in pl[1:])
    for b in f.body["bbs"]:
        for s in b["s"]:
            if s[0] != "=": continue
            if hits(s[1]): return True
            if s[2][0] in ("ref", "addr") and hits(s[2][1]) and s[2][2]: return True
        t = b["t"]
        if t[0] == "call" and len(t) > 3 and isinstance(t[3], list) and hits(t[3]): return True
    return False

class DrvClient(PClient):
    """drivers around the step function: the producer follows the event grammar of C01"""
    def __init__(self, lay, step, rec, cur): super().__init__(lay); self.step = step; self.rec = rec; self.cur = cur; self.bad = []; self.hit = 0
    def ev(self, st, kinds, ctx):
        s = st.copy(); t = fresh(); s.dom[("s", t[1], (("disc",),))] = frozenset(self.lay.ename.index(k) for k in kinds)
        s.mem[("E", "ctx")] = ("str", ctx)
        return (s, ok(("a", "tuple", 0, (t, fresh()))))
    def intercept(self, ai, fr, args, st, depth, site):
        n = fr.get("name"); p = fr["path"]
        if fr.get("local"):
            g = ai.resolve(fr, site[0].crate)
            if g is self.step:
                c = st.mem[("E", "ctx")][1]
                s0 = st.copy()
                out = [(s0, err(fresh()))]
                N = [x for x in self.lay.ename if x not in ("StreamStart", "StreamEnd", "DocumentStart", "DocumentEnd")]
                if c == b"start": out.append(self.ev(st, ["StreamStart"], b"b"))
                if c == b"b": out += [self.ev(st, ["DocumentStart"], b"d"), self.ev(st, ["StreamEnd"], b"e")]
                if c in (b"d", b"n"): out.append(self.ev(st, N, b"n"))
                if c == b"n": out.append(self.ev(st, ["DocumentEnd"], b"b"))
                if c == b"e": out.append(self.ev(st, ["StreamEnd"], b"e"))
                return out
            if g is not None and g in self.rec and g is not self.cur:
                st.mem[("E", "ctx")] = ("str", b"n")
                e = st.copy()
                return [(st, ok(UNIT)), (e, err(fresh()))]
        if ("BTreeMap" in p or p.startswith("core::mem::")) and args and self.is_field(ai, st, args[0], self.lay.anchors):
            if n not in ("len", "is_empty", "iter", "keys", "values", "get", "contains_key"):
                self.hit += 1
                if st.mem[("E", "ctx")][1] not in (b"start", b"b", b"d", b"e"): self.bad.append(p)
                if n != "clear" and not p.startswith("core::mem::take"): self.bad.append(p)
                return [(st, fresh())]
        return super().intercept(ai, fr, args, st, depth, site)
    def watch_store(self, root, path): return root == OSELF and path[:1] == (("f", self.lay.anchors),)
    def on_store(self, st, root, path, old, new, site):
        if st.mem.get(("E", "ctx"), ("str", b"n"))[1] not in (b"start", b"b", b"d", b"e") or new != EMPTY_MAP: self.bad.append("assignment")
        self.hit += 1
    def extra_key(self, st): return st.mem.get(("E", "ctx"))
    def exit_key(self, st, rv): return self.extra_key(st)

def check(ctx):
    p = ctx.prog(); pda = PDA(p); L = pda.lay
    x = Product(pda).prepare().run()
    ctx.floor("configurations", len(x.configs), 150)
    ctx.floor("obligations", x.checked, 40000)
    for s, what in sorted(set((str(a[0]), str(a[-1])) for a in pda.problems)):
        ctx.violation("undetermined:%s" % s, "parser state machine not analysable at %s: %s" % (s, what), _pda.anchor(pda))
    al = 0
    for kind, state, msg, tr in x.viol:
        if "anchor" in msg or "lias" in msg:
            ctx.violation("%s:%s:%s" % (kind, state, re.sub(r"[^A-Za-z]+", "-", msg.split(" (tokens")[0])[:60]), "in parser state %s, %s" % (state, msg), _pda.anchor(pda), tr)
    # B: frame
    steps = {(k[1], k[2]) for k in x.configs}
    ends = []; starts = []; n = 0; miss = 0
    for q, cached in sorted(steps, key=str):
        for e in pda.step(q, cached):
            if e.src == "alias":
                miss += 1
                if e.ok: ctx.violation("unknown:%s" % L.sname[q], "an alias to an anchor that is not registered is accepted (parser state %s)" % L.sname[q], _pda.anchor(pda))
            if not e.ok: continue
            n += 1
            same = e.anchors == ("s", "self.anchors", ()); empty = e.anchors == EMPTY_MAP
            if e.ev == "DocumentEnd": ends.append((q, empty, same))
            elif e.ev == "DocumentStart": starts.append((q, empty, same))
            elif e.ev in ("StreamStart", "StreamEnd"): pass
            elif not same: ctx.violation("frame:%s:%s" % (L.sname[q], e.ev), "the registered anchors change in parser state %s (event %s) other than by registering one" % (L.sname[q], e.ev), _pda.anchor(pda))
    ctx.floor("steps", n, 800); ctx.floor("unknown_alias_paths", miss, 5)
    ctx.floor("document_ends", len(ends), 1); ctx.floor("document_starts", len(starts), 2)
    if not all(e[1] for e in starts):
        for q, empty, same in ends:
            if not empty: ctx.violation("leak:%s" % L.sname[q], "anchors stay registered after the document that defines them (parser state %s)" % L.sname[q], _pda.anchor(pda))
    for q, empty, same in starts:
        if not (empty or same): ctx.violation("start:%s" % L.sname[q], "registered anchors not determined at a document start (parser state %s)" % L.sname[q], _pda.anchor(pda))
    # C: other mutators
    ty = L.adt["variants"][0]["fields"][L.anchors][1]
    import cg as cgm
    mut = [f for f in p.fns.values() if f.crate == "yam_core" and f.path not in pda.fns and f is not pda.fn and mutates(f, L.anchors, ty)]
    ctx.cov["mutators_outside_the_step_function"] = [f.path for f in mut]
    inside = [f for f in p.fns.values() if f.crate == 'yam_core' and (f is pda.fn or f.path in pda.fns) and mutates(f, L.anchors, ty)]
    ctx.floor("mutators_inside_the_step_function", len(inside), 1)
    rec = {f for c in cgm.sccs(p, cgm.reach(p, mut)) for f in c}
    for f in mut:
        c = DrvClient(L, pda.fn, rec, f)
        ai = AI(p, c, "yam_core", maxstates=400, maxexits=100, unroll=3)
        for c0 in (b"start", b"b"):
            st = St()
            for i in range(f.body["argc"]): st.mem[("L", 1, i + 1)] = ("s", "arg%d" % i, ())
            st.mem[("L", 1, 1)] = SELF
            fields = [("s", "self." + k, ()) for k, t in L.adt["variants"][0]["fields"]]
            st.mem[OSELF] = ("a", PARSER, 0, tuple(fields)); st.mem[("E", "ctx")] = ("str", c0)
            for k, v in (("stk", UNIT), ("src", ("str", b"")), ("ains", ("a", "array", 0, ())), ("last", K(0)), ("under", K(0)), ("cons", UNIT)): st.mem[("E", k)] = v
            ai.run(f, 1, st)
        for b in sorted(set(c.bad)): ctx.violation("mutator:%s" % f.name, "%s changes the registered anchors within a document (%s)" % (f.path, b), where(f))
        if not c.hit: ctx.violation("mutator:%s:undet" % f.name, "%s changes the registered anchors in a way that is not understood" % f.path, where(f))
    # new parser: no anchors, first identifier 1
    k = 0
    for f in p.fns.values():
        if f.crate != "yam_core": continue
        for b in f.body["bbs"]:
            for s in b["s"]:
                if s[0] == "=" and s[2][0] == "agg" and s[2][1] == "adt" and s[2][2] == PARSER:
                    ai = AI(p, PClient(L), "yam_core"); st = St()
                    for i in range(f.body["argc"]): st.mem[("L", 1, i + 1)] = ("s", "arg%d" % i, ())
                    for o in ai.run(f, 1, st):
                        rv = o.mem[("L", 1, 0)]
                        if rv[0] == "a" and rv[1] == PARSER:
                            k += 1
                            if rv[3][L.anchors] != EMPTY_MAP: ctx.violation("new:anchors", "a new parser starts with registered anchors", where(f))
                            c0 = rv[3][L.anchor_count]
                            if not (c0[0] == "k" and c0[1] >= 1): ctx.violation("new:count", "the first anchor identifier is not positive, so it reads as `no anchor`", where(f))
    ctx.floor("constructors", k, 1)
    ctx.assumptions.append("fewer than 2^64 anchors in one stream")
