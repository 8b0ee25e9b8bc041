"""Scalar text: what the scanner puts into a scalar against what it consumes.

The dispatch function is interpreted for each kind of scalar with everything it calls; byte buffers
carry symbolic contents.  A reference transducer (YAML 1.2 flow scalar semantics) runs along: every
consumed byte moves it, and what it has emitted so far is compared with the contents of the value
when the scalar token is produced.  At loop heads finite runs are folded to fresh symbols, in the
reference and in all buffers at once, so equal contents stay equal for any number of iterations."""
from absint import *
import models, re
from scan_ai import Scan, SClient, SELF, OSELF, BRK
import cg as cgm
TX = ("E", "tx")
BL = frozenset((9, 32)); NULS = frozenset((0, 256)); HEX = frozenset(b"0123456789abcdefABCDEF")
ESC = {48: 0, 97: 7, 98: 8, 116: 9, 9: 9, 110: 10, 118: 11, 102: 12, 114: 13, 101: 27, 32: 32, 34: 34, 47: 47, 92: 92, 78: 0x85, 95: 0xA0, 76: 0x2028, 80: 0x2029}
FLOW = frozenset(b",[]{}")
CODE = {120: 2, 117: 4, 85: 8}
HEXTBL = tuple(sorted((b, int(chr(b), 16)) for b in HEX))
JUNK = ("a", "junk", 0, ())
def W(x): return ("a", "w", 0, tuple(x))

class R:
    """reference transducer state, kept in the abstract memory"""
    def __init__(self, st):
        v = st.mem[TX]; self.mode, self.D, self.P, self.X, self.need = "lost", (JUNK,), (), (), 0
        if v[0] == "a" and v[1][:3] == "tx:" and all(x[0] == "a" for x in v[3][:3]) and v[3][3][0] == "k":
            self.mode = v[1][3:]; self.D, self.P, self.X = v[3][0][3], v[3][1][3], v[3][2][3]; self.need = v[3][3][1]
    def put(self, st): st.mem[TX] = ("a", "tx:" + self.mode, 0, (W(self.D), W(self.P), W(self.X), K(self.need)))
    @staticmethod
    def init(st, mode): st.mem[TX] = ("a", "tx:" + mode, 0, (W(()), W(()), W(()), K(0)))

def shape(w): return "?" if w is None else " ".join("%d" % x[1] if x[0] == "k" else "b" if x[0] != "a" else {"utf8": "u%d" % len(atomset(x[3][0])), "junk": "!"}.get(x[1], "R") if x[1] == "utf8" else {"junk": "!"}.get(x[1], "R") for x in w)
def upper(st, v):
    """an upper bound of a non-negative value, or None"""
    if v[0] == "k": return v[1] if v[1] >= 0 else None
    if v[0] == "s":
        d = st.dom.get(v); return max(d) if isinstance(d, frozenset) and d else None
    if v[0] == "l":
        r = v[1]
        for a, c in v[2]:
            u = upper(st, a)
            if u is None or c < 0: return None
            r += c * u
        return r
    if v[0] == "x":
        if v[1] == "tbl": return max(b for a, b in v[4])
        if v[1] == "z": return upper(st, v[3])
        if v[1] in ("cast", "ZeroExtend"): return upper(st, v[3])
    return None
def lower_zeros(v):
    """number of low bits of v known to be zero"""
    if v[0] == "k": return (v[1] & -v[1]).bit_length() - 1 if v[1] else 64
    if v[0] == "l": return min([lower_zeros(K(v[1]))] + [(c & -c).bit_length() - 1 for a, c in v[2]])
    return 0
def arith(st, v):
    """shifts and bit operations that cannot overflow as linear arithmetic"""
    if v[0] == "x":
        ty = v[2]; bits = BITS.get(ty if isinstance(ty, str) else "", 0)
        args = tuple(arith(st, a) if isinstance(a, tuple) and a and a[0] in NUMK else a for a in v[3:])
        if v[1] == "z" and args[0][0] == "s" and isinstance(st.dom.get(args[0]), frozenset) and 256 not in st.dom[args[0]]: return args[0]
        if v[1] == "cast" and upper(st, args[0]) is not None and upper(st, args[0]) < 1 << (BITS.get(ty, 8) if ty != "char" else 21): return args[0]
        if v[1] in ("Shl", "Mul") and args[1][0] == "k":
            r = lin_scale(args[0], (1 << args[1][1]) if v[1] == "Shl" else args[1][1]); u = upper(st, r)
            if u is not None and u < 1 << bits: return r
        if v[1] in ("BitOr", "BitXor", "Add"):
            a, b = args
            if lower_zeros(b) > lower_zeros(a): a, b = b, a
            u = upper(st, b)
            if u is not None and (v[1] == "Add" or u < 1 << lower_zeros(a)):
                r = lin_add(a, b); t = upper(st, r)
                if t is not None and t < 1 << bits: return r
        return v[:3] + args
    if v[0] == "l":
        r = K(v[1])
        for a, c in v[2]: r = lin_add(r, lin_scale(arith(st, a), c))
        return r
    return v

def mentions(v, irr):
    if not isinstance(v, tuple): return False
    if len(v) == 3 and v[0] == "s": return v[1] == "self" and len(v[2]) > 1 and v[2][0] == "*" and v[2][1][0] == "f" and v[2][1][1] in irr
    return any(mentions(x, irr) for x in v)

class TClient(Client):
    abstract_source = True; words = True; partial = False
    def __init__(self, sc, kind, quote=None, flow=False):
        self.flow = flow; self.sc = sc; self.kind = kind; self.quote = quote
        self.viol = {}; self.obl = 0; self.cover = {}; self.tokens = 0; self.tys = set(); self.loops = set(); self.sizes = {}; self.errs = 0; self.dooms = {}
        self.site = None
    def arith(self, st, e): return arith(st, e)
    _ms = {}
    def maxstates(self, fn):
        """functions that handle no text are explored more coarsely"""
        if fn not in self._ms: self._ms[fn] = 90 if any(l[0] == "char" for l in fn.body["locals"]) else 16 if any(re.search(r"Vec<u8>|String", l[0]) for l in fn.body["locals"]) else 6
        return self._ms[fn]
    # ---- helpers
    def bad(self, key, msg, site=None):
        self.viol.setdefault(key, (msg, self.where()))
        if self.ai.budget > self.ai.steps + 20000: self.ai.budget = self.ai.steps + 20000     # the verdict is known: finish soon
    def where(self):
        fn, b = self.ai.cur
        t = fn.body["bbs"][b]; sp = t["sp"] if "sp" in t else None
        return "%s:%s (%s)" % (fn.file, fn.line if sp is None else (sp if isinstance(sp, int) else fn.line), fn.path)
    def dom(self, st, h):
        if h[0] == "k": return frozenset((h[1],))
        d = st.dom.get(h)
        return d if isinstance(d, frozenset) else models.HEADS
    def item(self, st, v):
        v = arith(st, self.ai.simplify(st, v))
        if v[0] == "s":
            d = st.dom.get(v)
            if isinstance(d, frozenset) and len(d) == 1: return K(next(iter(d)))
        return v
    def canon_word(self, st, w):
        if w is None: return None
        out = []
        for x in w:
            if x[0] == "a" and x[1] == "utf8":
                c = self.item(st, x[3][0])
                u = models.utf8(c); out += u if u else (x,)
            else: out.append(x if x[0] == "a" else self.item(st, x))
        return tuple(out)
    def containers(self, st):
        for root, v in list(st.mem.items()):
            if root[0] in ("E", "H", "C"): continue
            for path, x in self.seqs(v, ()): yield root, path, x
    def seqs(self, v, path):
        if v[0] == "a":
            if v[1] == "seq": yield path, v
            elif v[1] not in ("w", "array"):
                for i, x in enumerate(v[3]): yield from self.seqs(x, path + (i,))
        elif v[0] == "p":
            for i, x in enumerate(v[2]):
                if isinstance(x, tuple) and len(x) == 2: yield from self.seqs(x[1], path + (x[0],))
    # ---- keys: what the buffers look like
    def extra_key(self, st):
        r = R(st)
        ks = sorted((repr(root), repr(path), shape(self.w_of(x))) for root, path, x in self.containers(st) if self.w_of(x) is not None)
        k = 0
        if self.kind == "plain":
            # a colon is judged together with the byte after it
            ds = [self.dom(st, v[3][0]) for root, v in st.mem.items() if root[0] == "H" and v[0] == "a" and v[3]]
            k = tuple(sorted(2 if d == frozenset((58,)) else 1 if 58 in d else 0 for d in ds))
        return (r.mode, shape(r.D), shape(r.P), shape(r.X), r.need, k, tuple(ks))
    def w_of(self, x):
        if len(x[3]) > 1: return x[3][1][3] if x[3][1][0] == "a" else None
        return () if x[3][0] == K(0) else None
    def exit_key(self, st, rv): return self.extra_key(st)
    # ---- folding runs at loop heads
    def rewrite(self, st, f):
        def go(v):
            if v[0] == "a":
                if v[1] == "seq":
                    w = self.w_of(v)
                    if w is None or not w: return v
                    n = f(self.canon_word(st, w))
                    return ("a", "seq", 0, (K(len(n)) if all(x[0] != "a" for x in n) else fresh(), W(n)))
                if v[1] in ("w", "array"): return v
                ch = tuple(go(x) for x in v[3])
                return v if ch == v[3] else v[:3] + (ch,)
            if v[0] == "p":
                ch = tuple((x[0], go(x[1])) if isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], tuple) else x for x in v[2])
                return v if ch == v[2] else (v[0], v[1], ch)
            return v
        for root in list(st.mem):
            if root[0] not in ("E", "H", "C"): st.mem[root] = go(st.mem[root])
    def on_loop_edge(self, ai, fn, depth, header, is_back, st):
        self.loops.add((fn.path, header))
        self.normal(st)
        if self.consumes(fn, header) and not st.mem[TX][1] in ("tx:bs", "tx:hex"):
            hr = ("H", OSELF, (("f", self.sc.src),)); h = models.heads(self.ai, st, hr)[3]
            st.mem[hr] = ("a", "head", 0, (h[0],) + tuple(models.newhead(st) for _ in range(models.PEEK - 1)))
        return st
    _cl = {}
    def consumes(self, fn, header):
        """the loop body may advance the source (otherwise its look-ahead must be kept)"""
        if (fn, header) not in self._cl:
            r = False
            for b in fn.loops()[0].get(header, ()):
                t = fn.body["bbs"][b]["t"]
                if t[0] == "call" and len(t) > 7 and t[7] and re.match(r"&('\w+ )?mut (parsing::scanner::Scanner|S\b|[A-Z]\w*$)", t[7][0]): r = True
            self._cl[(fn, header)] = r
        return self._cl[(fn, header)]
    def small_loop(self, fn, header): return not self.consumes(fn, header)
    _irr = None
    def irrelevant(self):
        """scanner fields that hold no text"""
        if self._irr is None: self._irr = [i for i, (n, t) in enumerate(self.sc.fields) if not (i == self.sc.src or t == "bool" or re.search(r"Vec<u8>|String", t) or (n == "flow_level" and self.kind == "plain"))]
        return self._irr
    def blur(self, st):
        """positions play no part in the text"""
        v = st.mem.get(OSELF)
        live = set()
        for root, x in st.mem.items():
            bases(x, live)
            if root[0] in ("O", "H"): bases(("r", root if root[0] == "O" else root[1], ()), live)
        for d in (st.dom, st.facts):
            for y in list(d):
                b = set(); bases(y, b)
                if any(z[0] in "@#" and z not in live for z in b): del d[y]
        irr = self.irrelevant()
        for d in (st.dom, st.facts):
            for y in list(d):
                if mentions(y, irr): del d[y]
        if v is None: return
        for i in irr:
            if v[0] == "p": x = dict(v[2]).get(("f", i))
            elif v[0] == "a": x = v[3][i]
            else: continue
            if i == self.sc.mark or (x is not None and not (x[0] == "s" and x[1][0] == "#" and not x[2])): v = self.ai.put(st, v, (("f", i),), fresh())
        st.mem[OSELF] = v
    def doom(self, st, r):
        """no buffer holds the text consumed so far: a token from here on is wrong"""
        self.dooms.setdefault(shape(r.D) + " / " + shape(r.P), self.where() + ": consumed " + pretty(self.canon_word(st, r.D)) + ", buffers " + " ".join(pretty(self.w_of(x)) for _, _, x in self.containers(st) if self.w_of(x)))
        self.rewrite(st, lambda w: (JUNK,))
        r.mode = "doomed"; r.D = (JUNK,); r.P = (); r.X = (); r.need = 0; r.put(st)
    def normal(self, st):
        self.blur(st)
        r = R(st)
        if r.mode == "doomed": return self.rewrite(st, lambda w: (JUNK,))
        if r.mode in ("bs", "hex", "lost"): return
        r.D = self.canon_word(st, r.D); r.P = self.canon_word(st, r.P)
        D, P = r.D, r.P
        nD = D if not D or len(D) == 1 and D[0][0] == "a" and D[0][1] == "run" else (("a", "run", 0, (fresh(),)),)
        big = len(P) > 1 or (len(P) == 1 and P[0][0] != "a" and r.mode == "plain")
        nP = (("a", "run", 0, (fresh(),)),) if big else P
        ws = [self.canon_word(st, w) for w in (self.w_of(x) for _, _, x in self.containers(st)) if w]
        if not any(w[:len(D)] == D for w in ws): nD = D          # its copy is out of sight: fold later
        if not any(w == P or w == D + P for w in ws): nP = P
        if len(nD) > 3 or JUNK in nD or len(nP) > 3 or JUNK in nP or (nD and nD == D and ws and all(JUNK in w for w in ws)): return self.doom(st, r)
        live = set(nD) | set(nP)
        def f(w):
            if D and w[:len(D)] == D: a, b = nD, w[len(D):]
            else: a, b = (), w
            if P and b == P: b = nP
            o = a + b
            if any(x[0] == "a" and x[1] == "run" and x not in live for x in o): return (JUNK,)
            if len(o) > 3 or JUNK in o: return (JUNK,)
            return o
        self.rewrite(st, f)
        r.D, r.P = nD, nP; r.put(st)
    # ---- the reference transducer
    def emit(self, r):
        """pending blanks or folded breaks become part of the text"""
        if r.mode == "plain": r.D += r.P
        elif r.mode == "fold": r.D += r.P if r.P else (K(32),)
        elif r.mode == "esc": r.D += r.P
        r.P = ()
    def cov(self, what, d): self.cover[what] = self.cover.get(what, frozenset()) | d
    def on_consume(self, st, hr, heads, n):
        if hr[1] != OSELF: return
        if n == K(0): return
        r = R(st); self.obl += 1
        if heads is None:
            if r.mode in ("plain",) or r.mode in ("bs", "hex"):
                r.D += (JUNK,)
            r.put(st); return
        if r.mode == "doomed": return
        i = 0
        ds = [self.dom(st, h) for h in heads]
        while i < len(heads):
            h, d = heads[i], ds[i]
            if d == frozenset((13,)) and i + 1 < len(heads) and ds[i + 1] == frozenset((10,)) and r.mode in ("plain", "fold", "esc", "bs"): i += 1; d = BRK
            nx = list(heads[i + 1:]) + list(models.heads(self.ai, st, hr)[3][len(heads):])
            self.step(st, r, h, d, self.dom(st, nx[0]) if nx else models.HEADS)
            i += 1
        r.put(st)
    def step(self, st, r, h, d, nd=models.HEADS):
        m = r.mode
        if m in ("end", "idle", "lost"): return
        if m == "q1":
            if d == frozenset((39,)): r.mode = "plain"; self.emit(r); r.D += (K(39),); self.cov("''", d)
            else: self.emit(r); r.mode = "end"
            return
        if m == "q0":
            if d == frozenset((self.quote,)): r.mode = "plain"
            else: self.bad("open", "the scalar does not start with its opening quote")
            return
        if m == "bs":
            if d <= BRK: r.mode = "esc"; self.cov("\\break", d); return
            if d & BRK: self.bad("esc", "a backslash before a line break may be read as an ordinary escape")
            if d <= frozenset(ESC):
                self.cov("esc", d); r.mode = "plain"
                c = self.ai.simplify(st, ("x", "tbl", "char", h, tuple(sorted(ESC.items())))) if h[0] != "k" else K(ESC[h[1]])
                r.D += models.utf8(c)
            elif len(d) == 1 and d <= frozenset(CODE):
                self.cov("esc", d); r.mode = "hex"; r.need = CODE[next(iter(d))]; r.X = (K(0),)
            else:
                self.bad("esc", "an escape sequence outside the specification's table is accepted (%s)" % show(d - frozenset(ESC) - frozenset(CODE))); r.mode = "plain"; r.D += (JUNK,)
            return
        if m == "hex":
            if not d <= HEX: self.bad("hex", "a byte that is no hexadecimal digit is taken as one (%s)" % show(d - HEX))
            self.cov("hex", d)
            t = self.ai.simplify(st, ("x", "tbl", "u32", h, HEXTBL)) if h[0] != "k" else K(dict(HEXTBL).get(h[1], 0))
            r.X = (lin_add(lin_scale(r.X[0], 16), t),); r.need -= 1
            if r.need == 0:
                r.D += models.utf8(self.ai.simplify(st, r.X[0])) or (JUNK,); r.X = (); r.mode = "plain"
            return
        special = frozenset((self.quote,)) if self.quote else frozenset()
        if self.quote == 34: special |= {92}
        if d <= BL:
            if m == "plain": r.P += (self.item(st, h),)
            return
        if d <= BRK:
            if m == "plain": r.P = (); r.mode = "fold"; self.cov("break", d)
            else: r.P += (K(10),)
            return
        cls = [c for c in (BL, BRK, special, models.HEADS - BL - BRK - special) if d & c]
        if len(cls) > 1: self.bad("class", "bytes with different roles in a scalar are consumed alike (%s)" % ", ".join(show(d & c) for c in cls)); r.D += (JUNK,); return
        if d == frozenset((92,)) and self.quote == 34: self.emit(r); r.mode = "bs"; return
        if d == frozenset((self.quote,)):
            if self.quote == 34: self.emit(r); r.mode = "end"
            else: self.q1(r)
            return
        if d & NULS: self.bad("nul", "the end of the input may be taken as scalar text"); return
        if self.kind.startswith("plain"):
            # where a plain scalar must end
            if 35 in d and (r.P or m == "fold"): self.bad("comment", "a comment may be taken as text of a plain scalar")
            stop = BL | BRK | NULS | (FLOW if self.flow else frozenset())
            if 58 in d and nd & stop: self.bad("colon", "a colon that ends a plain scalar may be taken as its text (before %s)" % show(nd & stop))
            if self.flow and d & FLOW: self.bad("flow", "a flow indicator may be taken as text of a plain scalar inside a flow collection")
        self.emit(r); r.mode = "plain"; r.D += (self.item(st, h),); self.cov("text", d)
    def q1(self, r):
        # the emission of pending text is the same whether the quote closes or is doubled
        self.emit(r); r.mode = "q1"
    # ---- scalar tokens
    def scalars(self, v):
        if v[0] == "a":
            a = self.sc.p.adt(v[1])
            if a and a["kind"] == "enum" and v[1] == self.sc.tokty and v[2] is not None and a["variants"][v[2]]["name"] == "Scalar": yield v
            elif v[1] not in ("w",):
                for x in v[3]: yield from self.scalars(x)
    def token(self, st, v):
        r = R(st); self.tokens += 1; self.obl += 1
        if r.mode == "q1": r.mode = "end"
        if self.quote and r.mode not in ("end", "doomed"): self.bad("unclosed", "a quoted scalar is produced before its closing quote is consumed")
        if self.flow and r.mode == "plain":
            d = self.dom(st, models.heads(self.ai, st, ("H", OSELF, (("f", self.sc.src),)))[3][0])
            d = d - NULS - FLOW - frozenset((58,)) - (frozenset((35,)) if r.P else frozenset())
            if d: self.bad("early", "a plain scalar in a flow collection may end in the middle of a line, before %s" % show(d))
        D = self.canon_word(st, r.D)
        ws = [w for w in (models.word(self.ai, st, x) for x in v[3]) if w is not None] + [self.w_of(x) for f in v[3] for _, x in self.seqs(f, ()) if self.w_of(x) is not None]
        ws = [self.canon_word(st, w) for w in ws]
        if JUNK in D or D not in ws: self.bad("text", "the value of a %s scalar is not the text consumed for it: consumed %s, value %s" % (self.kind, pretty(D), " / ".join(pretty(w) for w in ws) or "unknown") + ("; they part at " + next(iter(self.dooms.values())) if self.dooms else ""))
        ty = [x for x in v[3] if x[0] == "a" and x[2] is not None and self.sc.p.adt(x[1]) and self.sc.p.adt(x[1])["kind"] == "enum" and len(x[3]) == 0]
        for x in ty: self.tys.add(self.sc.p.adt(x[1])["variants"][x[2]]["name"])
    def on_event(self, st, kind, loc, n, val, site):
        if kind in ("push", "insert") and val is not None:
            for v in self.scalars(val[1] if kind == "insert" else val): self.token(st, v)
    def intercept(self, ai, fr, args, st, depth, site):
        if models.is_source(fr) and fr.get("name") == "buf_max_len": return [(st, self.sc.bufmax(st))]
        if fr.get("local") and not models.is_source(fr): self.normal(st)
        return None
    def inline(self, fn): return True

def show(d):
    return "{" + " ".join("EOF" if c == 256 else chr(c) if 33 <= c < 127 else "\\x%02x" % c for c in sorted(d)[:12]) + ("…" if len(d) > 12 else "") + "}"
def pretty(w):
    if w is None: return "unknown"
    o = []
    for x in w:
        if x[0] == "k": o.append(repr(chr(x[1])))
        elif x[0] == "a": o.append({"run": "<text so far>", "junk": "<other text>"}.get(x[1], "<char>"))
        else: o.append("<byte>")
    return "[" + " ".join(o) + "]"

class Text(Scan):
    def __init__(self, p, crate="yam_core"):
        Scan.__init__(self, p, crate)
        self.tokty = next(a["path"] for a in p.adts.values() if a["local"] and a["kind"] == "enum" and a["path"].endswith("TokenType") and "Scalar" in {v["name"] for v in a["variants"]})
    def builders(self):
        """scanner methods that build a scalar token"""
        out = []
        for f in self.p.fns.values():
            if f.crate != self.crate: continue
            for bb in f.body["bbs"]:
                for s in bb["s"]:
                    if s[0] == "=" and s[2][0] == "agg" and s[2][1] == "adt" and s[2][2] == self.tokty and s[2][5] == "Scalar": out.append(f)
        return sorted(set(out), key=lambda f: f.path)
    def dispatch(self):
        """the innermost scanner method from which every scalar token is built"""
        B = set(self.builders())
        reach = {f: set(cgm.reach(self.p, [f])) for f in self.methods}
        c = [f for f in self.methods if B & set(self.methods) <= reach[f]]
        inner = [f for f in c if not any(g is not f and g in reach[f] for g in c)]
        return inner[0] if len(inner) == 1 else None
    def go(self, f, kind, quote, first, budget=400000, flow=None):
        c = TClient(self, kind, quote, bool(flow))
        ai = AI(self.p, c, self.crate, maxstates=90, budget=budget, unroll=1, maxexits=40)
        c.ai = ai
        st = self.start(f)
        if flow is not None:
            fi = [i for i, (n, t) in enumerate(self.fields) if n == "flow_level"][0]; fv = ("s", "self", ("*", ("f", fi)))
            if flow:
                st = ai.assume(st, ai.compare(st, "Lt", K(0), fv, "u32"), True)
            else: st.mem[OSELF] = ai.put(st, st.mem[OSELF], (("f", fi),), K(0))
        R.init(st, "q0" if quote else "fold0" if kind == "block" else "plain")
        hr = ("H", OSELF, (("f", self.src),))
        for x in st.mem[hr][3]: st.dom.pop(x, None)
        h = fresh(); st.dom[h] = frozenset(first)
        st.mem[hr] = ("a", "head", 0, (h,) + tuple(models.newhead(st) for _ in range(models.PEEK - 1)))
        try: outs = ai.run(f, 1, st)
        except Budget:
            if not c.viol and not c.dooms: raise
            for w in list(c.dooms.values())[:1]: c.viol.setdefault("text", ("the text put aside for a %s scalar parts from the text consumed at %s" % (kind, w), w.split(" ")[0]))
            outs = []; c.partial = True
        for o in outs:
            rv = o.mem.get(("L", 1, 0), UNIT)
            for v in c.scalars(rv): c.token(o, v)
        return c, ai, outs
SCN = "parsing::"
