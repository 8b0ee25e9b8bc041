"""No panic in the scanner: the scanner analysis of scan_ai with the invariants that the
remaining unwraps, assertions and subtractions rest on.

I1  pending simple keys = flow depth + 1 once the stream start was produced (else 0)
I2  the indentation stack: an entry pushed saves the indentation in force, a popped one
    restores it; hence the indentation is 0 when the stack is empty
I3  a possible simple key points into the token queue: its number is taken as (tokens
    delivered + tokens queued), the queue only grows except by delivering its front (which
    counts one delivered), and that happens only when no possible key points at the front
E   an error of a callee is returned, and an iterator that reported one delivers nothing more"""
from absint import *
import models
from models import RES
from scan_ai import Scan, SClient, Unit, SELF, OSELF, SCANNER
IB, IP, TPOP, TQ, NQ, KW, ER, KD = (("E", n) for n in ("ib", "ip", "tpop", "tq", "nq", "kw", "er", "kd"))
CLEAN = K(-1)

class PClient(SClient):
    LEMMA = None
    def __init__(self, sc, unit, phase):
        SClient.__init__(self, sc, unit, phase); self.used = set(); self.fctxs = []
        self.pan = {}; self.cur_el = None
    def extra_key(self, st): return tuple(st.mem.get(g) if st.mem.get(g, UNIT)[0] == "k" else None for g in (ER, KD, TQ, NQ, KW, TPOP)) + (st.mem.get(IB) == CLEAN, self.open_q(st), QM in st.mem and st.mem[QM] == K(1))
    def exit_key(self, st, rv): return SClient.exit_key(self, st, rv) + self.extra_key(st)
    def dbg(self, st):
        import os
        if os.environ.get("VSA_DBG"): print("DBG", self.unit.fn.name, "IB", st.mem.get(IB), "cur", self.fld(st, self.sc.indent), "len", self.length(st, self.sc.indents), [g for g in st.facts.items()][-12:], "NQ", st.mem.get(NQ), "QM", st.mem.get(QM), "QL", st.mem.get(QL), "avail", self.fld(st, self.sc.avail), "KW", st.mem.get(KW))
    # ---- fields
    def fld(self, st, i): return self.ai.simplify(st, self.ai.child(st, st.mem.get(OSELF, ("s", "self", ("*",))), ("f", i)))
    def length(self, st, i): return self.norm(st, self.ai.content_len(st, self.ai.child(st, st.mem.get(OSELF, ("s", "self", ("*",))), ("f", i))))
    def norm(self, st, v):
        if v[0] == "l":
            r = K(v[1])
            for a, n in v[2]: r = lin_add(r, lin_scale(self.ai.simplify(st, a), n))
            return r
        return self.ai.simplify(st, v)
    def init_val(self, i): return ("s", "self", ("*", ("f", i)))
    def begin(self, ai, st):
        sc = self.sc; self.ai = ai
        for g in (TPOP, TQ, NQ, KW, ER, KD): st.mem[g] = K(0)
        st.mem[IB] = CLEAN; st.mem[IP] = UNIT; st.mem[KS] = ("a", "keys", 0, ())
        ctx = self.unit.fctx if self.phase == 2 else None
        for i in (sc.ssp, sc.avail):
            st.dom[self.init_val(i)] = ctx[i] if ctx else BOOLS
    # ---- I1 / I2 / I3 checks
    def fail(self, rule, key, msg, where):
        if self.phase == 2: self.bad("inv:" + rule, "%s:%s" % (self.unit.fn.name, key), msg, where)
    def settle(self, st, what, where, strict=True):
        ib = st.mem[IB]
        if ib == CLEAN: return
        cur = self.fld(st, self.sc.indent)
        # at depth 0 the saved indentation is 0; above it the current one is free
        if self.depth_pos(st) or cur == K(0) or self.norm(st, cur) == self.norm(st, ib): st.mem[IB] = CLEAN; return
        if strict: self.fail("indent", what, "%s (in %s): the indentation is not the one saved when the stack last had this depth" % (self.unit.fn.path, what), where); self.dbg(st)
    def depth_pos(self, st):
        return self.at_least(st, self.length(st, self.sc.indents)) >= 1
    def at_least(self, st, v):
        lo = self.ai.bounds(st, v, "usize")[0] or 0
        for g, val in st.facts.items():          # facts about another count at a constant distance
            if g[0] != "x" or g[2] != "usize": continue
            if g[1] == "Eq" and not val and K(0) in (g[3], g[4]): w = g[4] if g[3] == K(0) else g[3]; n = 1
            elif g[1] == "Lt" and val and g[3][0] == "k": w = g[4]; n = g[3][1] + 1
            else: continue
            d = const_diff(w, v) if w[0] != "k" else None
            if d is not None: lo = max(lo, n + d)
        return lo
    def balance(self, st, what, where):
        if self.norm(st, st.mem[KD]) != K(0): self.fail("keys", what, "%s (%s): the number of pending simple keys does not match the flow depth" % (self.unit.fn.path, what), where)
    def queue(self, st, what, where):
        if self.norm(st, st.mem[TQ]) != K(0): self.fail("queue", what, "%s (%s): tokens taken from the queue are not counted as delivered" % (self.unit.fn.path, what), where)
        av = self.fld(st, self.sc.avail)
        if av != FALSE and st.mem[NQ] != K(1):
            same = av == self.init_val(self.sc.avail) or (av == TRUE and self.ai.simplify(st, self.init_val(self.sc.avail)) == TRUE)
            if not (same and st.mem[KW] == K(0) and st.mem[TPOP] == K(0)):
                self.fail("available", what, "%s (%s): tokens may be marked available while a pending simple key still points at the next one" % (self.unit.fn.path, what), where); self.dbg(st)
    def at_exit(self, st):
        w = self.where(self.unit.fn); self.obl += 4
        rv = st.mem.get(("L", 1, 0), UNIT)
        if st.mem[ER] == K(1):
            if self.sc.kind(rv) != "err" and not self.error_set(st):
                self.fail("error", "swallowed", "%s may continue after an error was reported to it" % self.unit.fn.path, w)
            return
        if self.sc.kind(rv) == "err" or self.error_set(st): return
        self.settle(st, "return", w); self.balance(st, "on return", w); self.queue(st, "on return", w)
    def error_set(self, st):
        e = self.fld(st, self.sc.err)
        return e[0] == "a" and e[2] == 1
    def at_call(self, u, st, where):
        self.obl += 3
        if st.mem[ER] == K(1): self.fail("error", "call", "%s may continue after an error was reported to it (calls %s)" % (self.unit.fn.path, u.fn.path), where)
        self.settle(st, "call %s" % u.fn.name, where); self.balance(st, "calling %s" % u.fn.name, where); self.queue(st, "calling %s" % u.fn.name, where)
        d = {}
        for i in (self.sc.ssp, self.sc.avail):
            v = self.fld(st, i)
            d[i] = frozenset((v[1],)) if v[0] == "k" else st.dom.get(v, BOOLS) if v[0] == "s" else BOOLS
        self.fctxs.append((u.fn, d))
    def after_call(self, u, st, kind, d):
        sc = self.sc; slf = st.mem[OSELF]
        for i in (sc.ssp, sc.avail):
            v = self.fld(st, i)
            if v[0] == "s" and not isinstance(st.dom.get(v), frozenset): st.dom[v] = BOOLS
        if d["f"].get(sc.parsed) != "same": st.mem[TPOP] = K(1); st.mem[NQ] = K(0)
        if u.fn in sc.keywriters: st.mem[NQ] = K(0); st.mem[KW] = K(1)
        if self.fld(st, sc.avail) == TRUE and kind != "err": st.mem[NQ] = K(1)       # its own invariant
        if kind == "err": st.mem[ER] = K(1)
    # ---- events
    def watch_store(self, root, path): return SClient.watch_store(self, root, path) or root == OSELF and len(path) == 1 and path[0][1] in (self.sc.indent, self.sc.parsed, self.sc.flow, self.sc.ssp)
    def on_store(self, st, root, path, old, new, site):
        sc = self.sc
        if root == OSELF and path == (("f", sc.indent),):
            if st.mem[IB] == CLEAN and not self.depth_pos(st): st.mem[IB] = self.ai.simplify(st, old)
            nv = self.norm(st, new)
            if nv == K(0) or nv == self.norm(st, st.mem[IB]): st.mem[IB] = CLEAN; st.mem[IP] = UNIT
            return
        if root == OSELF and path[:1] in ((("f", sc.flow),), (("f", sc.ssp),)):
            st.mem[KD] = self.add(st.mem[KD], self.diff(self.ai.simplify(st, new), self.ai.simplify(st, old)), -1)
        if root == OSELF and path == (("f", sc.parsed),):
            st.mem[TQ] = self.add(st.mem[TQ], self.diff(self.ai.simplify(st, new), self.ai.simplify(st, old))); st.mem[NQ] = K(0)
            return
        SClient.on_store(self, st, root, path, old, new, site)
        if root[0] == "O" and root != OSELF:
            if len(path) == 1 and path[0] == ("f", sc.kposs):
                if self.ai.simplify(st, new) != FALSE and self.is_elem(st, root): self.fail("keynum", "possible", "%s makes an old simple key possible again" % self.unit.fn.path, self.where(site[0])); st.mem[NQ] = K(0); st.mem[KW] = K(1)
            elif not path and new[0] == "a" and new[1] == sc.keyadt: self.new_key(st, new, site)
            elif len(path) == 1 and path[0] == ("f", sc.ktok) and self.is_elem(st, root): self.fail("keynum", "number", "%s changes the token number of a pending simple key" % self.unit.fn.path, self.where(site[0]))
    def is_elem(self, st, root): return any(r[1] == root for r in self.keyrefs(st))
    def keyrefs(self, st):
        v = st.mem.get(KS, UNIT)
        q = st.mem.get(QL)
        return ([r for r in v[3] if r[0] == "r"] if v[0] == "a" and v[1] == "keys" else []) + ([q] if q is not None and q[0] == "r" else [])
    def add_key(self, st, ref): st.mem[KS] = ("a", "keys", 0, tuple((self.keyrefs(st) + [ref])[-2:]))
    def new_key(self, st, v, site):
        if v[0] != "a" or v[1] != self.sc.keyadt:
            self.fail("keynum", "unknown", "%s stores a simple key of unknown origin" % self.unit.fn.path, self.where(site[0])); return
        if self.ai.simplify(st, v[3][self.sc.kposs]) == FALSE: return
        self.obl += 1; st.mem[NQ] = K(0); st.mem[KW] = K(1)
        want = lin_add(self.fld(st, self.sc.parsed), self.length(st, self.sc.toks))
        if st.mem[TQ] != K(0) or not is_num(v[3][self.sc.ktok]) or self.norm(st, lin_add(v[3][self.sc.ktok], want, -1)) != K(0):
            self.fail("keynum", "created", "%s records a simple key whose token number is not the position of the next token" % self.unit.fn.path, self.where(site[0]))
    def on_event(self, st, kind, loc, n, val, site):
        sc = self.sc
        SClient.on_event(self, st, kind, loc, n, val, site)
        if loc == (OSELF, (("f", sc.indents),)):
            w = self.where(site[0])
            if kind.startswith("push"):
                base = st.mem[IB] if st.mem[IB] != CLEAN else self.fld(st, sc.indent)
                sv = self.norm(st, val[3][sc.iind]) if val is not None and val[0] == "a" else None
                if not (sv is not None and (sv == K(0) or sv == self.norm(st, base))):
                    # the new entry sits above another one: only the bottom entry matters
                    if self.at_least(st, self.length(st, sc.indents)) < 2: self.fail("indent", "push", "%s pushes an indentation entry that does not save the indentation in force" % self.unit.fn.path, w)
                st.mem[IB] = CLEAN; st.mem[IP] = UNIT
            elif kind == "pop":
                p = self.ai.child(st, val, ("f", sc.iind))
                st.mem[IB] = CLEAN if self.norm(st, self.fld(st, sc.indent)) == self.norm(st, p) else p; st.mem[IP] = UNIT
            elif kind == "clear": st.mem[IB] = K(0)
            elif kind not in ("iter", "iterend"): self.fail("indent", kind, "%s changes the indentation stack other than by push and pop" % self.unit.fn.path, w)
        if loc == (OSELF, (("f", sc.toks),)):
            if kind == "pop":
                if not site_name(site).endswith("pop_front"): self.fail("queue", "back", "%s takes a token from the wrong end of the queue" % self.unit.fn.path, self.where(site[0]))
                av = self.fld(st, sc.avail)
                if not (st.mem[NQ] == K(1) or av == TRUE and st.mem[KW] == K(0) and st.mem[TPOP] == K(0)):
                    self.fail("queue", "early", "%s may deliver a token a pending simple key still points at" % self.unit.fn.path, self.where(site[0]))
                st.mem[TQ] = self.add(st.mem[TQ], K(1), -1); st.mem[TPOP] = K(1)
            elif kind in ("clear", "truncate", "drain"): self.fail("queue", kind, "%s drops queued tokens" % self.unit.fn.path, self.where(site[0]))
        if loc == sc.keysloc:
            if kind.startswith("push") or kind in ("insert", "pop"): st.mem[KD] = self.add(st.mem[KD], K(-1 if kind == "pop" else 1))
            elif kind in ("clear", "truncate", "drain"): st.mem[KD] = fresh()
            if kind.startswith("push") or kind == "insert": self.new_key(st, val[1] if kind == "insert" else val, site)
            elif kind in ("extend", "grow"): self.fail("keynum", kind, "%s adds simple keys of unknown origin" % self.unit.fn.path, self.where(site[0]))
        if kind == "iterleft":
            for g in (QL, QM, QH): st.mem.pop(g, None)
        if kind in ("iter", "iterend"):
            it = self.ai.load(st, *loc)
            if it[0] == "a" and it[1] == "iter" and it[3][1] == ("str", repr(sc.keysloc).encode()):
                self.resolve_q(st)
                L = site[0].loops()[0]; inner = [h for h in L if site[1] in L[h]]
                st.mem[QH] = K(min(inner, key=lambda h: len(L[h]))) if inner else UNIT
                if kind == "iter" and val is not None and val[0] == "r": st.mem[QL] = val; st.mem[QM] = st.mem.get(QM, K(0))
                else:
                    if st.mem.get(QM, K(0)) == K(0): st.mem[NQ] = K(1)
                    st.mem.pop(QM, None)
    def resolve_q(self, st):
        """the key under iteration: impossible, or not at the front of the queue"""
        q = self.open_q(st); st.mem.pop(QL, None)
        if q is True: st.mem[QM] = K(1)
    def open_q(self, st):
        e = st.mem.get(QL)
        if e is None: return 0
        sc = self.sc
        v = self.ai.load(st, e[1], e[2])
        if self.ai.simplify(st, self.ai.child(st, v, ("f", sc.kposs))) == FALSE: return "impossible"
        t = self.ai.child(st, v, ("f", sc.ktok))
        if is_num(t) and self.ai.compare(st, "Eq", t, self.fld(st, sc.parsed), "usize") == FALSE: return "elsewhere"
        return True
    def on_loop_edge(self, ai, fn, depth, header, is_back, st):
        st = SClient.on_loop_edge(self, ai, fn, depth, header, is_back, st)
        if is_back:
            qh = st.mem.get(QH, UNIT)
            if qh[0] == "k" and qh[1] != header and qh[1] in fn.loops()[0].get(header, ()):
                for g in (QL, QM, QH): st.mem.pop(g, None)      # the iteration over the keys was left before its end
            self.resolve_q(st)
        self.settle(st, "loop", None, strict=False)
        return st
    def on_elem(self, ai, st, loc, ref):
        if ref is None: return None
        if loc == self.sc.keysloc: self.add_key(st, ref)
        if loc == (OSELF, (("f", self.sc.indents),)):
            l = st.mem.get(IP)
            if l is not None and l[0] == "r": return l
            st.mem[IP] = ref
        return ref
    def popped(self, ai, st, loc):
        if loc == (OSELF, (("f", self.sc.indents),)):
            l = st.mem.get(IP)
            if l is not None and l[0] == "r": return ai.load(st, l[1], l[2])
    # ---- panics
    def may_be_empty(self, ai, st, loc):
        sc = self.sc
        if loc == sc.keysloc and self.norm(st, st.mem[KD]) == K(0) and (self.fld(st, sc.ssp) == TRUE or (self.ai.bounds(st, self.fld(st, sc.flow), "u32")[0] or 0) >= 1): self.used.add("I1"); return False
        if loc == (OSELF, (("f", sc.indents),)) and st.mem[IB] == CLEAN and (self.ai.bounds(st, self.fld(st, sc.indent), "u32")[0] or 0) >= 1: self.used.add("I2"); return False
        return True
    def key_of(self, st, tn):
        """tn is the token number of a key known to be possible"""
        if tn[0] != "s" or not tn[2] or tn[2][-1] != ("f", self.sc.ktok) or tn[1] not in {r[1][1][1] for r in self.keyrefs(st) if r[1][0] == 'O'}: return False
        return self.ai.simplify(st, (tn[0], tn[1], tn[2][:-1] + (("f", self.sc.kposs),))) == TRUE
    def splits(self, v):
        if v[0] == "s": return [(v, K(0))]
        if v[0] == "l": return [(a, lin_add(v, a, -1)) for a, n in v[2] if n == 1 and a[0] == "s"]
        return []
    def contradiction(self, st):
        sc = self.sc
        if st.mem[TPOP] == K(0):
            tp = self.fld(st, sc.parsed); L = self.length(st, sc.toks)
            for g, val in st.facts.items():
                if g[0] != "x" or g[1] != "Lt" or g[2] != "usize" or not val: continue
                d = lin_add(g[4], g[3], -1)                      # > 0
                for tn, rest in self.splits(d):                  # d = tn + rest;  tn <= tp + L
                    if self.key_of(st, tn):
                        c = self.norm(st, lin_add(rest, lin_add(tp, L), 1))
                        if c[0] == "k" and c[1] <= 0: self.used.add("I3"); return True
                nd = lin_scale(d, -1)                            # < 0
                for tn, rest in self.splits(nd):                 # tn >= tp
                    if self.key_of(st, tn):
                        c = self.norm(st, lin_add(rest, tp))
                        if c[0] == "k" and c[1] >= 0: self.used.add("I3"); return True
        return False
    def on_panic(self, ai, why, st, site):
        if self.phase != 2: return
        self.obl += 1
        if self.contradiction(st): return
        self.pan.setdefault((site[0].path, str(why)), self.where(site[0], site[1]))
    def on_assert(self, ai, fn, b, t, st):
        if self.phase != 2: return
        self.obl += 1
        kind = t[3] if len(t) > 3 else "?"
        v = ai.av; self.ai_st = st
        if kind.startswith("overflow:Add") and v[0] == "x" and v[1] == "may_ovf" and v[2][1] not in ("u8", "i8", "u16", "i16", "bool") and self.counter(v[3]) and self.counter(v[4]) and self.counter(lin_add(v[3], v[4])): return
        if kind.startswith("overflow:Add") and v[0] == "x" and v[1] == "may_ovf" and self.disjoint_bits(st, v[3], v[4]): return
        if self.contradiction(st): return
        self.pan.setdefault((fn.path, "%s" % kind), (self.where(fn, b), repr(v)[:200]))
    def counter(self, v):
        """a sum of counters: no product, no shift"""
        if v[0] in ("k", "s"): return True
        if v[0] == "l": return all(abs(n) == 1 and self.counter(a) for a, n in v[2])
        vs = self.ai.value_set(self.ai_st, v)
        return vs is not None and max(vs) < 1 << 16
    def disjoint_bits(self, st, a, b):
        for x, y in ((a, b), (b, a)):
            if x[0] == "x" and x[1] == "Shl" and x[4][0] == "k":
                vs = self.ai.value_set(st, y)
                if vs and 0 <= min(vs) and max(vs) < 1 << x[4][1]: return True
        return False
QL, QM, QH, KS = ("E", "ql"), ("E", "qm"), ("E", "qh"), ("E", "ks")
def site_name(site):
    t = site[0].body["bbs"][site[1]]["t"]
    return t[1][1]["fn"]["path"] if t[0] == "call" and t[1][0] == "k" and "fn" in t[1][1] else ""

class PScan(Scan):
    client = PClient
    def __init__(self, p, crate="yam_core"):
        self.entries = None
        Scan.__init__(self, p, crate)
        nm = {n: i for i, (n, t) in enumerate(self.fields)}
        self.keys = self.keysloc[1][0][1]
        self.toks, self.indents, self.indent, self.flow = nm["tokens"], nm["indents"], nm["indent"], nm["flow_level"]
        self.ssp, self.avail, self.parsed, self.err = nm["stream_start_produced"], nm["tokens_available"], nm["tokens_parsed"], nm["error"]
        kf = [n for n, _ in p.adt(self.keyadt)["variants"][0]["fields"]]; self.ktok = kf.index("token_number")
        it = self.fields[self.indents][1]; ia = next(a for a in p.adts.values() if a["local"] and a["kind"] == "struct" and it.endswith("Vec<%s>" % a["path"]))
        self.iind = [n for n, _ in ia["variants"][0]["fields"]].index("indent")
        for u in self.units.values(): u.fctx = None; u.entry = self.is_entry(u.fn)
    def join_ctx(self, c):
        for g, d in c.fctxs:
            u = self.units[g]
            u.fctx = {i: u.fctx[i] | d[i] for i in d} if u.fctx else dict(d)
    def is_entry(self, f):
        if self.entries is None:
            called = set()
            import cg as cgm
            for g in self.methods:
                called |= {h for h in cgm.reach(self.p, [g]) if h is not g}
            self.entries = {g for g in self.methods if g not in called and g.body["argc"] and g.body["locals"][1][0].startswith("&") and "mut " in g.body["locals"][1][0]}
        return f in self.entries
