"""Modular analysis of the scanner (assume / guarantee).

Every scanner method with a loop (or a large body) is a *unit*: it is interpreted on its own
from a symbolic scanner, with the other units it calls replaced by summaries computed from
their own interpretation.  Phase 1 computes the summaries bottom-up without any assumption
on the look-ahead; phase 2 interprets each unit again in the look-ahead contexts its callers
establish and checks the rules' obligations there.

Ghosts (in the abstract state):
 pd  mark.pos advance minus bytes consumed          cd  same for mark.col within the line
 nl  mark.line advance minus line breaks consumed   cr  column resets minus line breaks consumed
 key["c"] something was consumed since the unit was entered; key[("l",fn,b)] since loop head b"""
from absint import *
import models, re, cg as cgm
from models import ok, err, RES
from progress import pjoin, irreducible
SELF = ("s", "self", ()); OSELF = ("O", SELF)
SCANNER = "parsing::scanner::Scanner"
BRK = frozenset((10, 13))
PD, CD, NL, CR, EN, TD, QD = ("E", "pd"), ("E", "cd"), ("E", "nl"), ("E", "cr"), ("E", "en"), ("E", "td"), ("E", "qd")
# QO: this unit itself queued the stream end; NP: no pending simple key is possible; PE: the simple key EL under iteration may still be possible; MI: one was left so
NP, PE, MI, EL, QO = ("E", "np"), ("E", "pe"), ("E", "mi"), ("E", "el"), ("E", "qo")

class Unit:
    def __init__(self, fn): self.fn = fn; self.sum = None; self.ctx = None; self.actx = None; self.bools = [i for i, l in enumerate(fn.body["locals"][1:fn.body["argc"] + 1]) if l[0] == "bool"]

class SClient(Client):
    def __init__(self, sc, unit, phase):
        self.sc = sc; self.unit = unit; self.phase = phase; self.viol = {}; self.calls = []; self.loops = set(); self.obl = 0
        self.grew = set(); self.weak = []; self.panics = {}; self.asserts = {}
        self.vecargs = [i for i, l in enumerate(unit.fn.body["locals"][1:unit.fn.body["argc"] + 1]) if "Vec<" in l[0] and "mut " in l[0]]
    def bad(self, rule, key, msg, where=None):
        self.viol.setdefault((rule, key), (msg, where))
    def begin(self, ai, st): pass
    def at_exit(self, st): pass
    def at_call(self, u, st, where): pass
    def after_call(self, u, st, kind, d): pass
    # ---- progress
    def enter_key(self, key): return {"c": 0}
    def leave_key(self, outer, inner):
        o = dict(outer)
        for k in o: o[k] = pjoin(o[k], inner.get("c", 0))
        return o
    def progressed(self, st):
        for k in st.key: st.key[k] = 1
    def shrunk(self, st, loc):
        for k in st.key: st.key[k] = pjoin(st.key[k], frozenset((loc,)))
    def grown(self, st, loc): self.grew.add(loc)
    def on_loop_edge(self, ai, fn, depth, header, is_back, st):
        body = fn.loops()[0][header] if isinstance(fn.loops()[0], dict) else None
        kk = ("l", header)
        if EL in st.mem and (is_back or st.mem[PE] == K(0)): st.mem.pop(EL); st.mem[MI] = K(1)
        if is_back:
            self.loops.add((fn.path, header)); self.obl += 1
            pr = st.key.get(kk)
            if pr != 1 and pr: self.weak.append((pr, fn, header))
            if not pr and self.phase == 2:
                self.bad("progress", "%s:%s" % (fn.name, self.loopname(fn, header)), "a loop of %s may repeat without consuming input or shrinking anything" % fn.path, self.where(fn, header))
        for k in [k for k in st.key if k != "c"]:
            if k == kk: continue
            lb = fn.loops()[0].get(k[1]) if isinstance(fn.loops()[0], dict) else None
            if lb is None or header not in lb: del st.key[k]
        st.key[kk] = 0
        return st
    def loopname(self, fn, header):
        return "loop%d" % sorted(fn.loops()[0]).index(header)
    def where(self, fn, b=None):
        sp = None
        if b is not None:
            bb = fn.body["bbs"][b]; sp = bb.get("sp")
        return "%s:%s" % (fn.file, sp[1] if isinstance(sp, list) and len(sp) > 1 else fn.line)
    # ---- positions
    def watch_store(self, root, path): return root == OSELF and (path[:1] == (("f", self.sc.mark),) or path in self.sc.flags) or root[0] == "O" and root != OSELF
    def on_store(self, st, root, path, old, new, site):
        sc = self.sc
        if root != OSELF:
            if len(path) == 1 and path[0] == ("f", sc.kposs) or not path:
                if len(path) == 1 and self.ai.simplify(st, new) == FALSE:
                    e = st.mem.get(EL)
                    if e is not None and e[0] == "r" and e[1] == root and not e[2]: st.mem[PE] = K(0); st.mem.pop(EL, None)
                else:
                    t = site[0].body["locals"]
                    if self.is_key(new) or len(path) == 1: st.mem[NP] = K(0)
            return
        if path in sc.flags:
            if self.ai.simplify(st, old) == FALSE and self.ai.simplify(st, new) == TRUE: self.progressed(st)
            return
        if len(path) == 1:
            for f in (sc.mpos, sc.mcol, sc.mline): self.upd(st, f, self.ai.child(st, old, ("f", f)), self.ai.child(st, new, ("f", f)))
        elif len(path) == 2: self.upd(st, path[1][1], old, new)
    def upd(self, st, f, old, new):
        sc = self.sc; old = self.ai.simplify(st, old); new = self.ai.simplify(st, new)
        if f == sc.mpos: st.mem[PD] = self.add(st.mem[PD], self.diff(new, old))
        elif f == sc.mline: st.mem[NL] = self.add(st.mem[NL], self.diff(new, old))
        elif f == sc.mcol:
            if new == K(1):
                hr = ("H", OSELF, (("f", sc.src),))
                cr = st.mem[CR]
                if cr == K(-1): st.mem[CD] = K(0); st.mem[CR] = K(0); return
                if old == K(1): return                    # no change: the column is already that of a line start
                st.mem[CD] = K(0)
                if self.hdom(st, models.head_at(self.ai, st, hr, 0)) == frozenset((256,)) and self.ai.compare(st, "Eq", old, K(1), "u32") == FALSE and st.mem[EN] == K(0):
                    st.mem[EN] = K(1)         # an unterminated last line is ended at the end of the input
                else: st.mem[CR] = self.add(st.mem[CR], K(1))
            else: st.mem[CD] = self.add(st.mem[CD], self.diff(new, old))
    def diff(self, a, b):
        try: return lin_add(a, b, -1)
        except Exception: return fresh()
    def add(self, a, b, sb=1):
        if not is_num(a) or not is_num(b): return fresh()
        return lin_add(a, b, sb)
    def hdom(self, st, h):
        if h[0] == "k": return frozenset((h[1],))
        d = st.dom.get(h)
        return d if isinstance(d, frozenset) else models.HEADS
    def on_consume(self, st, hr, heads, n):
        if hr[1] != OSELF: return
        sc = self.sc
        st.mem[TD] = K(1)
        st.mem[PD] = self.add(st.mem[PD], n, -1)
        if heads is None or n[0] != "k":
            st.mem[CD] = self.add(st.mem[CD], n, -1)
            return
        ds = [self.hdom(st, h) for h in list(heads) + list(models.heads(self.ai, st, hr)[3][len(heads):])]
        for i in range(len(ds) - 2, -1, -1):
            if 256 not in ds[i + 1]: ds[i] = ds[i] - {256}       # nothing follows the end of the input
        more = ds[len(heads):]; ds = ds[:len(heads)]
        self.obl += 1
        site = self.unit.fn.name
        fn = self.ai.cur[0]
        if any(256 in d for d in ds):
            if self.phase == 2: self.bad("overrun", "%s:%s" % (site, fn.name), "%s may skip past the end of the input (in %s)" % (fn.path, self.unit.fn.path), self.where(fn))
        elif n[1] >= 1: self.progressed(st)
        i = 0
        while i < len(ds):
            d = ds[i]
            if not d & BRK:
                st.mem[CD] = self.add(st.mem[CD], K(1), -1); i += 1; continue
            if d <= BRK:
                nxt = ds[i + 1] if i + 1 < len(ds) else more[0] if more else models.HEADS
                if d == frozenset((13,)) and i + 1 < len(ds) and ds[i + 1] == frozenset((10,)): i += 1
                elif 13 in d and 10 in nxt and self.phase == 2:
                    self.bad("breaks", "%s:%s:crlf" % (site, fn.name), "%s may count the two bytes of one CR LF line break separately (in %s)" % (fn.path, self.unit.fn.path), self.where(fn))
                st.mem[NL] = self.add(st.mem[NL], K(1), -1); self.broke(st)
                i += 1; continue
            if self.phase == 2: self.bad("breaks", "%s:%s" % (site, fn.name), "%s may skip a line break as an ordinary character (in %s)" % (fn.path, self.unit.fn.path), self.where(fn))
            st.mem[CD] = self.add(st.mem[CD], K(1), -1); i += 1
    def broke(self, st):
        """a line break was consumed: the column is reset before, or will be, or is 1 anyway"""
        if st.mem[CR] == K(0) and self.col(st) == K(1) and st.mem[CD] == K(0): return
        st.mem[CR] = self.add(st.mem[CR], K(1), -1)
    def col(self, st):
        v = self.ai.child(st, st.mem.get(OSELF, ("s", "self", ("*",))), ("f", self.sc.mark))
        return self.ai.simplify(st, self.ai.child(st, v, ("f", self.sc.mcol)))
    def drift(self, st):
        d = [st.mem.get(g, K(0)) for g in (PD, CD, NL, CR)]
        d[2] = self.add(d[2], st.mem.get(EN, K(0)), -1)
        return d
    def check_drift(self, st, what, where):
        self.obl += 1
        names = ("byte offset", "column", "line", "column reset")
        for v, n in zip(self.drift(st), names):
            if v != K(0): self.bad("drift", "%s:%s:%s" % (self.unit.fn.name, what, n), "in %s, %s: the %s does not match the input consumed (off by %s)" % (self.unit.fn.path, what, n, v[1] if v[0] == "k" else "a varying amount"), where)
    def exit_key(self, st, rv):
        r = []
        for i in self.vecargs:
            x = st.mem.get(("O", ("s", "arg%d" % i, ())))
            if x is not None and x[0] == "a" and x[1] == "seq": r.append(x[3][0] if x[3][0][0] == "k" or x[3][0] == ("s", "len%d" % i, ()) else None)
        for i in self.unit.bools:
            d = st.dom.get(("s", "arg%d" % i, ()))
            r.append(d if isinstance(d, frozenset) and len(d) == 1 else None)
        return tuple(r)
    # ---- measures other than input
    def on_event(self, st, kind, loc, n, val, site):
        if kind in ("iter", "pop"): self.shrunk(st, loc)
        elif kind not in ("iterend", "clear", "truncate"): self.grown(st, loc)
        if kind.startswith("push") and val is not None and self.is_stream_end(val): st.mem[QD] = st.mem[QO] = K(1); self.progressed(st)
        if loc == self.sc.keysloc:
            if kind.startswith("push") or kind in ("insert", "extend", "grow"): st.mem[NP] = K(0)
            if kind == "clear": st.mem[NP] = K(1)
        if kind in ("iter", "iterend"):
            it = self.ai.load(st, *loc)
            if it[0] == "a" and it[1] == "iter" and it[3][1] == ("str", repr(self.sc.keysloc).encode()):
                if st.mem[PE] != K(0): st.mem[MI] = K(1)
                if kind == "iter" and val is not None: st.mem[PE] = K(1); st.mem[EL] = val
                if kind == "iterend":
                    if st.mem[MI] == K(0): st.mem[NP] = K(1)
                    st.mem[PE] = st.mem[MI] = K(0); st.mem.pop(EL, None)
    def is_key(self, v): return not (v[0] == "k" or v[0] == "a" and v[1] != self.sc.keyadt)
    def is_stream_end(self, v):
        if v[0] != "a": return False
        a = self.sc.p.adt(v[1])
        if a and a["kind"] == "enum": return v[1].endswith("TokenType") and a["variants"][v[2]]["name"] == "StreamEnd"
        return any(self.is_stream_end(x) for x in v[3])
    # ---- units
    def intercept(self, ai, fr, args, st, depth, site):
        n = fr.get("name")
        if models.is_source(fr) and n == "buf_max_len": return [(st, self.sc.bufmax(st))]
        if not fr.get("local"): return None
        g = ai.resolve(fr, site[0].crate)
        u = self.sc.units.get(g)
        if u is None or g is self.unit.fn: return None
        return self.sc.apply(self, ai, u, args, st, site)
    def on_panic(self, ai, why, st, site): self.panics.setdefault((site[0].path, why), self.where(site[0], site[1]))
    def on_assert(self, ai, fn, b, t, st): self.asserts.setdefault((fn.path, b), (t[3] if len(t) > 3 else None, self.where(fn, b)))
    def inline(self, fn): return True

class Scan:
    client = SClient
    def __init__(self, p, crate="yam_core"):
        self.p = p; self.crate = crate
        self.methods = [f for f in p.fns.values() if f.crate == crate and (f.d.get("impl_self") or "").startswith(SCANNER + "<") and not f.d.get("closure")]
        adt = p.adt(SCANNER); fs = adt["variants"][0]["fields"]; self.fields = fs
        self.mark = [i for i, (n, t) in enumerate(fs) if t.endswith("Marker")][0]
        m = p.adt(fs[self.mark][1])["variants"][0]["fields"]; nm = [n for n, _ in m]
        self.mpos, self.mcol, self.mline = nm.index("pos"), nm.index("col"), nm.index("line")
        self.src = [i for i, (n, t) in enumerate(fs) if t == "S"][0]
        ks = [(i, a["path"]) for i, (n, t) in enumerate(fs) for a in p.adts.values() if a["local"] and t.endswith("Vec<%s>" % a["path"]) and a["kind"] == "struct" and {"bool"} < {ft.rsplit("::", 1)[-1] for _, ft in a["variants"][0]["fields"]} and any(ft.endswith("Marker") for _, ft in a["variants"][0]["fields"])]
        (ki, self.keyadt), = set(ks)
        self.keysloc = (OSELF, (("f", ki),))
        kf = p.adt(self.keyadt)["variants"][0]["fields"]; kb = [i for i, (n, t) in enumerate(kf) if t == "bool"]
        self.kposs = next((i for i in kb if kf[i][0] == "possible"), kb[0])
        self.units = {}
        self.flags = self.monotone_flags()
        for f in self.methods:
            if self.is_unit(f) or self.is_entry(f): self.units[f] = Unit(f)
        self.log = []
    def monotone_flags(self):
        """boolean fields of the scanner that are never assigned anything but `true`"""
        cand = {i for i, (n, t) in enumerate(self.fields) if t == "bool"}
        for f in self.p.fns.values():
            if f.crate != self.crate: continue
            for bb in f.body["bbs"]:
                for s in bb["s"]:
                    if s[0] != "=": continue
                    pl = s[1]
                    if len(pl) > 1 and pl[-1][0] == "f" and pl[-1][1] in cand and pl[-1][3] == "bool" and pl[-1][2] == self.fields[pl[-1][1]][0]:
                        r = s[2]
                        if not (r[0] == "use" and r[1][0] == "k" and r[1][1].get("int") == 1): cand.discard(pl[-1][1])
                    if s[2][0] == "ref" and s[2][2]:
                        pl = s[2][1]
                        if len(pl) > 1 and pl[-1][0] == "f" and pl[-1][1] in cand and pl[-1][2] == self.fields[pl[-1][1]][0]: cand.discard(pl[-1][1])
        return {(("f", i),) for i in cand}
    def key_writers(self):
        """functions that may make a simple key possible (directly or through a callee)"""
        d = set(); kname = self.p.adt(self.keyadt)["variants"][0]["fields"][self.kposs][0]
        for f in self.methods:
            for bb in f.body["bbs"]:
                for s in bb["s"]:
                    if s[0] != "=": continue
                    pl = s[1]
                    if len(pl) > 1 and pl[-1][0] == "f" and pl[-1][1] == self.kposs and pl[-1][2] == kname and not (s[2][0] == "use" and s[2][1][0] == "k" and s[2][1][1].get("int") == 0): d.add(f)
                    if s[2][0] == "agg" and s[2][1] == "adt" and s[2][2] == self.keyadt and not (s[2][4] and s[2][4][self.kposs][0] == "k" and s[2][4][self.kposs][1].get("int") == 0): d.add(f)
        return {f for f in self.methods if any(g in d for g in cgm.reach(self.p, [f]))}
    def is_entry(self, f): return False
    def join_ctx(self, c): pass
    def is_unit(self, f):
        if f.body["argc"] == 0 or not f.body["locals"][1][0].startswith("&mut"): return False
        return bool(f.loops()[0]) or len(f.body["bbs"]) > 45
    _bm = None
    def bufmax(self, st):
        if self._bm is None:
            vs = set()
            for f in self.p.fns.values():
                if f.crate == self.crate and f.name == "buf_max_len":
                    ai = AI(self.p, Client(), self.crate)
                    s = St(); s.mem[("L", 1, 1)] = SELF
                    for o in ai.run(f, 1, s): vs.add(o.mem[("L", 1, 0)])
            self._bm = frozenset(v[1] for v in vs) if vs and all(v[0] == "k" for v in vs) else None
        if self._bm is None: return fresh()
        s = ("s", "bufmax", ()); 
        if len(self._bm) == 1: return K(next(iter(self._bm)))
        st.dom[s] = self._bm
        return s
    def order(self):
        """units callees first"""
        out = []; seen = set()
        def callees(f):
            for g in cgm.reach(self.p, [f]):
                if g in self.units and g is not f: yield g
        deps = {f: set(callees(f)) for f in self.units}
        while len(out) < len(deps):
            r = [f for f in deps if f not in seen and deps[f] <= seen]
            if not r: raise RuntimeError("units call each other recursively")
            for f in sorted(r, key=lambda f: f.path): out.append(f); seen.add(f)
        return out
    def start(self, f, ctx=None, actx=None):
        st = St(key={"c": 0})
        st.mem[OSELF] = ("s", "self", ("*",))
        tys = [l[0] for l in f.body["locals"][1:f.body["argc"] + 1]]
        for i, t in enumerate(tys):
            a = ("s", "arg%d" % i, ())
            if i == 0: a = SELF
            elif t == "bool": st.dom[a] = BOOLS
            elif t == "u8": st.dom[a] = BYTES
            elif re.match(r"&('\w+ )?mut alloc::vec::Vec<", t):
                st.mem[("O", a)] = models.seq(actx[i] if actx and actx[i] is not None else ("s", "len%d" % i, ()))
            elif actx and actx[i] is not None: a = actx[i]
            st.mem[("L", 1, i + 1)] = a
        for g in (PD, CD, NL, CR, EN, TD, QD, QO, NP, PE, MI): st.mem[g] = K(0)
        hr = ("H", OSELF, (("f", self.src),))
        hs = []
        for i in range(models.PEEK):
            h = ("s", "head%d" % i, ()); st.dom[h] = ctx[i] if ctx else models.HEADS; hs.append(h)
        st.mem[hr] = ("a", "head", 0, tuple(hs))
        return st
    def run(self, u, phase, ctx=None):
        c = self.client(self, u, phase)
        ai = AI(self.p, c, self.crate, maxstates=24, budget=300000, unroll=1, maxexits=3)
        c.ai = ai
        st0 = self.start(u.fn, ctx or (u.ctx if phase == 2 else None), u.actx if phase == 2 else None)
        c.begin(ai, st0)
        outs = ai.run(u.fn, 1, st0)
        if phase == 2:
            for pr, fn, header in c.weak:
                if not pr - c.grew: c.bad("progress", "%s:%s" % (fn.name, c.loopname(fn, header)), "a loop of %s may repeat without consuming input, while what it removes may be added again" % fn.path, c.where(fn, header))
        for o in outs:
            c.check_drift(o, "on return", c.where(u.fn)); c.at_exit(o)
            if o.mem.get(QO) != K(0) and self.kind(o.mem.get(("L", 1, 0), UNIT)) != "err":
                c.obl += 1; c.ends = getattr(c, "ends", 0) + 1
                if o.mem.get(NP) != K(1):
                    c.bad("streamend", u.fn.name, "%s may queue the stream end while a pending simple key still waits for more tokens: the scanner would keep producing stream ends" % u.fn.path, c.where(u.fn))
        return c, ai, outs
    def kind(self, rv): return "ok" if rv[0] == "a" and rv[1] == RES and rv[2] == 0 else "err" if rv[0] == "a" and rv[1] == RES else "any"
    def summarize(self, ai, u, outs):
        """kind -> dict(c, head0, fields)"""
        S = {}
        hr = ("H", OSELF, (("f", self.src),))
        for o in outs:
            rv = o.mem.get(("L", 1, 0), UNIT)
            kind = self.kind(rv)
            sig = tuple((i, next(iter(o.dom[("s", "arg%d" % i, ())]))) for i in u.bools if len(o.dom.get(("s", "arg%d" % i, ()), BOOLS)) == 1)
            oc = 1 if o.key.get("c") == 1 else 0
            d = S.setdefault((kind, oc, sig), {"c": 1, "t": False, "q": True, "h": [frozenset()] * models.PEEK, "f": {}, "a": {}, "rd": None, "n": 0})
            d["n"] += 1
            d["t"] = d["t"] or o.mem.get(TD) != K(0)
            d["q"] = d["q"] and o.mem.get(QD) == K(1)
            d["c"] = min(d["c"], oc)
            hs = models.heads(ai, o, hr)[3]
            d["h"] = [x | (frozenset((h[1],)) if h[0] == "k" else o.dom.get(h, models.HEADS) if isinstance(o.dom.get(h, models.HEADS), frozenset) else models.HEADS) for x, h in zip(d["h"], hs)]
            slf = o.mem.get(OSELF, ("s", "self", ("*",)))
            for i in range(len(self.fields)):
                if i == self.src: continue
                v = ai.child(o, slf, ("f", i)); init = ("s", "self", ("*", ("f", i)))
                k = "same" if v == init else v[1] if v[0] == "k" else "top"
                if k == "top" and v[0] == "s" and isinstance(o.dom.get(v), frozenset): k = ("dom", o.dom[v])
                old = d["f"].get(i, k)
                d["f"][i] = k if old == k else "top"
            for i in range(1, u.fn.body["argc"]):
                x = o.mem.get(("O", ("s", "arg%d" % i, ())))
                if x is not None and x[0] == "a" and x[1] == "seq":
                    n = x[3][0]
                    d["a"].setdefault(i, set()).add("same" if n == ("s", "len%d" % i, ()) else n if n[0] == "k" else None)
            v = rv if kind == "any" else rv[3][0] if rv[3] else UNIT
            x = v if v[0] == "k" or v == UNIT else ("dom", o.dom[v]) if v[0] == "s" and isinstance(o.dom.get(v), frozenset) else "top"
            d["rd"] = x if d["rd"] in (None, x) else "top"
        return S
    def apply(self, c, ai, u, args, st, site):
        where = c.where(site[0], site[1])
        c.check_drift(st, "calling %s" % u.fn.name, where); c.at_call(u, st, where)
        for g in (PD, CD, NL, CR, EN): st.mem[g] = K(0)
        hr = ("H", OSELF, (("f", self.src),))
        hs = models.heads(ai, st, hr)[3]
        out = []
        if u.sum is None: raise RuntimeError("no summary of " + u.fn.path)
        tys = [l[0] for l in u.fn.body["locals"][1:u.fn.body["argc"] + 1]]
        actx = []
        for a, t in zip(args, tys):
            v = None
            if re.match(r"&('\w+ )?mut alloc::vec::Vec<", t):
                l = models.cont_loc(ai, st, a)
                if l:
                    n = ai.content_len(st, ai.load(st, *l))
                    if n[0] == "k": v = n
            elif a[0] == "k" and t in ("bool", "u8", "u32", "usize"): v = a
            actx.append(v)
        c.calls.append((u.fn, [c.hdom(st, h) for h in hs[:models.PEEK]], actx))
        for k, d in u.sum.items():
            kind, _, sig = k[:3]
            if len(k) > 3 and not c.hdom(st, hs[0]) & k[3]: continue
            if any(args[i][0] == "k" and args[i][1] != b for i, b in sig): continue
            s = st.copy()
            for i, b in sig:
                s = s and (s if args[i][0] == "k" else ai.assume(s, args[i], bool(b)) if is_num(args[i]) else s)
            if s is None: continue
            if d["t"]:
                s.mem[hr] = ("a", "head", 0, tuple(self.newhead(s, x) for x in d["h"])); s.mem[TD] = K(1)
            else:
                nh = []
                for h, x in zip(models.heads(ai, s, hr)[3], d["h"]):
                    m = c.hdom(s, h) & x
                    if not m: break
                    nh.append(h)
                    if h[0] == "s": s.dom[h] = m
                if len(nh) < len(d["h"]): continue
            slf = s.mem.get(OSELF, ("s", "self", ("*",)))
            for i, k in d["f"].items():
                if k == "same": continue
                v = K(k) if isinstance(k, int) else fresh()
                if isinstance(k, tuple): s.dom[v] = k[1]
                slf = ai.put(s, slf, (("f", i),), v)
            s.mem[OSELF] = slf
            for a, t in list(zip(args, tys))[1:]:
                if "&mut" in t or re.match(r"&'\w+ mut ", t):
                    l = models.cont_loc(ai, s, a)
                    if l:
                        o = d["a"].get(args.index(a)); nv = fresh()
                        if "Vec<" in t:
                            cur = ai.content_len(s, ai.load(s, *l))
                            vs = {cur if x == "same" else x for x in (o or {fresh()})}
                            nv = models.seq(next(iter(vs)) if len(vs) == 1 and None not in vs else fresh())
                        ai.store(s, l[0], l[1], nv)
            if d["c"] or d["q"]: c.progressed(s)
            for i, k in d["f"].items():
                if k != "same": c.grew.add((OSELF, (("f", i),)))
            if u.fn in self.keywriters: s.mem[NP] = K(0)
            c.after_call(u, s, kind, d)
            if d["q"]: s.mem[QD] = K(1); s.mem[NP] = K(1)      # checked where the unit itself is interpreted
            v = d["rd"]
            if v == "top" or v is None: v = fresh()
            elif v[0] == "dom": w = fresh(); s.dom[w] = v[1]; v = w
            if kind == "ok": v = ok(v)
            elif kind == "err": v = err(fresh())
            out.append((s, v))
        return out
    def newhead(self, s, d):
        if len(d) == 1: return K(next(iter(d)))
        h = fresh(); s.dom[h] = d; return h
    def summary1(self, u):
        S = {}
        for pre in (frozenset((256,)), frozenset(range(256))):
            c, ai, outs = self.run(u, 1, [pre] + [models.HEADS] * (models.PEEK - 1))
            for k, d in self.summarize(ai, u, outs).items(): S[k + (pre,)] = d
        return S
    def analyse(self, only=None):
        import time
        self.keywriters = self.key_writers()
        o = self.order(); self.res = {}; self.times = {}
        for f in o:
            t = time.time(); u = self.units[f]
            u.sum = self.summary1(u)
            self.times[f.name] = time.time() - t
        for f in reversed(o):
            t = time.time(); u = self.units[f]
            if u.ctx is None: u.ctx = [models.HEADS] * models.PEEK
            if u.fn.d.get("pub"): u.ctx = [models.HEADS] * models.PEEK; u.actx = None
            c, ai, outs = self.run(u, 2)
            for g, hs, ax in c.calls:
                v = self.units[g]
                v.actx = [a if a == b else None for a, b in zip(v.actx, ax)] if v.actx else ax
                v.ctx = [frozenset(a) | b for a, b in zip(v.ctx, hs)] if v.ctx else list(hs)
            self.join_ctx(c)
            self.res[f] = (c, ai, outs); self.times[f.name + "2"] = time.time() - t
        # phase 3: units with undischarged obligations again, with their callees' summaries in context
        for f in o:
            u = self.units[f]; u.sum = self.summarize(self.res[f][1], u, self.res[f][2])
        for f in reversed(o):
            if not self.res[f][0].viol: continue
            t = time.time(); self.res[f] = self.run(self.units[f], 2); self.times[f.name + "3"] = time.time() - t
        return self
