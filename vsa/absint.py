"""Abstract interpreter over MIR (value-set domain, trace partitioning).

Never executes the code under analysis: every value is an abstract value
(constant, symbol with a finite or co-finite domain, expression over one such
symbol, linear form, partially known aggregate, reference to an abstract
location).  States at control-flow merges are joined by anti-unification, loops
are iterated to a fixpoint; calls into the repository are analysed in context
(inlined with memoisation), calls out of it are modelled in models.py or treated
as opaque (fresh result, `&mut` arguments forgotten).
"""
import heapq, itertools, sys
sys.setrecursionlimit(20000)

NUMK = ("k", "s", "l", "x")
DEBUG = False
class Imprecise(Exception): pass
class Budget(Exception): pass

_fresh = itertools.count(1_000_000)
def fresh():
    return ("s", "#%d" % next(_fresh), ())
TOPV = None
def K(n): return ("k", int(n))
TRUE = K(1); FALSE = K(0)
UNIT = ("a", "tuple", 0, ())

def is_num(v): return v[0] in ("k", "s", "l", "x")

# ---- linear forms -----------------------------------------------------------
def to_lin(v):
    if v[0] == "k": return v[1], {}
    if v[0] == "l": return v[1], dict(v[2])
    return 0, {v: 1}
def from_lin(c, t):
    t = {a: k for a, k in t.items() if k != 0}
    if not t: return K(c)
    if c == 0 and len(t) == 1:
        (a, k), = t.items()
        if k == 1: return a
    return ("l", c, tuple(sorted(t.items(), key=repr)))
def lin_add(a, b, sb=1):
    ca, ta = to_lin(a); cb, tb = to_lin(b)
    for x, k in tb.items(): ta[x] = ta.get(x, 0) + sb * k
    return from_lin(ca + sb * cb, ta)
def lin_scale(a, k):
    c, t = to_lin(a)
    return from_lin(c * k, {x: y * k for x, y in t.items()})
def const_diff(a, b):
    d = lin_add(b, a, -1)
    return d[1] if d[0] == "k" else None

BITS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128, "bool": 1, "char": 32}
SBITS = {"i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64, "i128": 128}
def wrap(n, ty):
    if ty in BITS:
        return n & ((1 << BITS[ty]) - 1)
    if ty in SBITS:
        b = SBITS[ty]; n &= (1 << b) - 1
        return n - (1 << b) if n >> (b - 1) else n
    return n
def in_range(n, ty):
    if ty in BITS: return 0 <= n < (1 << BITS[ty])
    if ty in SBITS: return -(1 << (SBITS[ty] - 1)) <= n < (1 << (SBITS[ty] - 1))
    return True

OPS = {
    "Add": lambda a, b: a + b, "Sub": lambda a, b: a - b, "Mul": lambda a, b: a * b,
    "BitAnd": lambda a, b: a & b, "BitOr": lambda a, b: a | b, "BitXor": lambda a, b: a ^ b,
    "Shl": lambda a, b: a << b if b < 256 else 0, "Shr": lambda a, b: a >> b,
    "Div": lambda a, b: a // b if b else 0, "Rem": lambda a, b: a % b if b else 0,
    "Eq": lambda a, b: int(a == b), "Ne": lambda a, b: int(a != b), "Lt": lambda a, b: int(a < b),
    "Le": lambda a, b: int(a <= b), "Gt": lambda a, b: int(a > b), "Ge": lambda a, b: int(a >= b),
}
CMP = ("Eq", "Ne", "Lt", "Le", "Gt", "Ge")

def x_eval(v, sym, n):
    """value of expression v with sym := n"""
    k = v[0]
    if k == "k": return v[1]
    if k == "s":
        if v == sym: return n
        raise Imprecise()
    if k == "l":
        r = v[1]
        for a, c in v[2]: r += c * x_eval(a, sym, n)
        return r
    if k == "x":
        op, ty = v[1], v[2]; args = [x_eval(a, sym, n) for a in v[3:] if isinstance(a, tuple) and a and a[0] in NUMK]
        if op == "z": return 0 if args[0] == 256 else args[0]
        if op == "cast": return wrap(args[0], ty)
        if op == "Not": return wrap(~args[0], ty) if ty != "bool" else 1 - args[0]
        if op == "Neg": return -args[0]
        if op == "in": return int(args[0] in v[4])
        if op == "tbl": return dict(v[4])[args[0]]
        if op == "ovf":
            o, t2 = ty
            return int(not in_range(OPS[o](args[0], args[1]), t2))
        if op in CMP: return OPS[op](args[0], args[1])
        return wrap(OPS[op](args[0], args[1]), ty)
    raise Imprecise()

def atoms(v, out):
    k = v[0]
    if k == "s": out.add(v)
    elif k == "l":
        for a, _ in v[2]: atoms(a, out)
    elif k == "x":
        for a in v[3:]:
            if isinstance(a, tuple) and a and a[0] in NUMK: atoms(a, out)

def atomset(v):
    o = set(); atoms(v, o); return o
class St:
    __slots__ = ("mem", "dom", "facts", "key")
    def __init__(self, mem=None, dom=None, facts=None, key=None):
        self.mem = mem if mem is not None else {}
        self.dom = dom if dom is not None else {}
        self.facts = facts if facts is not None else {}
        self.key = key if key is not None else {}
    def copy(self):
        return St(dict(self.mem), dict(self.dom), dict(self.facts), dict(self.key))
    def freeze(self):
        return (frozenset(self.mem.items()), frozenset(self.dom.items()), frozenset(self.facts.items()),
                frozenset(self.key.items()))

# ---- renaming ---------------------------------------------------------------
def ren(v, f):
    """apply sym renaming f to a value (f: base -> new base or None)"""
    k = v[0]
    if k == "k" or k == "str": return v
    if k == "s":
        if v[1][0] in "#@":
            return ("s", f(v[1]), v[2])
        return v
    if k == "l":
        c = v[1]; t = {}
        for a, n in v[2]:
            a2 = ren(a, f); t[a2] = t.get(a2, 0) + n
        return from_lin(c, t)
    if k == "x":
        return tuple(ren(a, f) if isinstance(a, tuple) and a and a[0] in VAL else a for a in v)
    if k == "a":
        if not v[3]: return v
        return ("a", v[1], v[2], tuple(ren(a, f) for a in v[3]))
    if k == "p":
        return ("p", ren(v[1], f), tuple((i, ren(a, f)) for i, a in v[2]))
    if k == "r":
        r = v[1]
        if r[0] == "O": r = ("O", ren(r[1], f))
        return ("r", r, v[2])
    return v
VAL = {"k", "s", "l", "x", "a", "p", "r", "str"}

def bases(v, out):
    k = v[0]
    if k == "s":
        if v[1][0] in "#@": out.add(v[1])
    elif k == "l":
        for a, _ in v[2]: bases(a, out)
    elif k == "x":
        for a in v[1:]:
            if isinstance(a, tuple) and a and a[0] in VAL: bases(a, out)
    elif k == "a":
        for a in v[3]: bases(a, out)
    elif k == "p":
        bases(v[1], out)
        for _, a in v[2]: bases(a, out)
    elif k == "r":
        if v[1][0] == "O": bases(v[1][1], out)

def root_order(r):
    return ({"E": 0, "P": 1, "L": 2, "H": 3}.get(r[0], 4), repr(r))

def canon(st):
    """alpha-normalise fresh symbols, drop unreachable facts."""
    mp = {}
    def f(b):
        if b[0] == "@": return b
        n = mp.get(b)
        if n is None:
            n = "#%d" % len(mp); mp[b] = n
        return n
    mem = {}
    oroots = []
    for r in sorted(st.mem, key=root_order):
        if r[0] == "O": oroots.append(r); continue
        mem[r] = ren(st.mem[r], f)
    # O-roots: named ones first, then fresh ones already reachable
    pend = oroots
    prog = True
    while pend and prog:
        prog = False; rest = []
        for r in pend:
            b = r[1][1]
            if b[0] != "#" or b in mp:
                mem[("O", ren(r[1], f))] = ren(st.mem[r], f); prog = True
            else: rest.append(r)
        pend = rest
    dom = {}
    for s, d in st.dom.items():
        if s[1][0] == "#":
            if s[1] in mp: dom[("s", mp[s[1]], s[2])] = d
        else: dom[s] = d
    facts = {}
    for a, b in st.facts.items():
        bs = set(); bases(a, bs)
        if all(x in mp for x in bs if x[0] == '#'): facts[ren(a, f)] = b
    return St(mem, dom, facts, dict(st.key))

class AI:
    MAXDEPTH = 980
    def __init__(self, prog, client, crate, maxstates=40, budget=400000, unroll=2, maxexits=6):
        self.maxexits = maxexits; self.tables = {}; self.runs = {}; self.vsc = {}; self.spc = {}
        self.p = prog; self.c = client; self.crate = crate
        self.memo = {}; self.steps = 0; self.budget = budget; self.maxstates = maxstates; self.unroll = unroll
        self.stack = []
        self.inlined = set(); self.opaque_calls = {}
        self.joins = 0
        client.ai = self

    # ---- domains ------------------------------------------------------------
    def finite(self, st, v, ty=None):
        """(sym|None, list_of_sym_values, fn value->int) when v depends on <=1 finite sym"""
        if v[0] == "k": return None, None, None
        at = set(); atoms(v, at)
        at2 = []
        for a in at:
            d = st.dom.get(a)
            if isinstance(d, frozenset) and len(d) == 1: continue
            at2.append(a)
        sub = {a: next(iter(st.dom[a])) for a in at if a not in at2}
        if len(at2) > 1: return False
        if not at2:
            if not sub: return False
            s = next(iter(sub))
            return s, [sub[s]], (lambda n, v=v, sub=sub: self._ev(v, sub))
        s = at2[0]
        d = st.dom.get(s)
        if not isinstance(d, frozenset):
            if ty == "bool" and v == s: d = frozenset((0, 1))
            elif ty == "u8" and v == s:
                d = frozenset(range(256)) - (d[1] if d else frozenset())
            else: return False
        if any(not isinstance(n, int) for n in d): return False
        return s, sorted(d), (lambda n, v=v, sub=sub, s=s: self._ev(v, dict(sub, **{}) if not sub else sub, s, n))
    def _ev(self, v, sub, s=None, n=None):
        # substitute singletons then evaluate
        if sub: v = subst(v, sub)
        if v[0] == "k": return v[1]
        return x_eval(v, s, n)
    def value_set(self, st, v):
        if v[0] == "k": return frozenset((v[1],))
        if v[0] == "s":
            d = st.dom.get(v)
            return d if isinstance(d, frozenset) and all(isinstance(n, int) for n in d) else None
        at = set(); atoms(v, at)
        if len(at) == 1:
            a, = at
            d = st.dom.get(a)
            if not isinstance(d, frozenset): return None
            ck = (v, d)
            r = self.vsc.get(ck, self)
            if r is self:
                try: r = frozenset(x_eval(v, a, n) for n in d)
                except (Imprecise, TypeError, KeyError): r = None
                self.vsc[ck] = r
            return r
        r = self.finite(st, v)
        if not r: return None
        s, ds, f = r
        try: return frozenset(f(n) for n in ds)
        except Imprecise: return None
    def simplify(self, st, v):
        if v[0] in ("s", "x", "l"):
            if v[0] == "s":
                d = st.dom.get(v)
                if isinstance(d, frozenset) and len(d) == 1:
                    n = next(iter(d))
                    if isinstance(n, int): return K(n)
                return v
            vs = self.value_set(st, v)
            if vs is not None and len(vs) == 1: return K(next(iter(vs)))
        return v

    # ---- memory ---------------------------------------------------------------
    def child(self, st, v, e):
        """sub-value of v at projection item e (('f',i)|('v',i)|('ci',i,fromend)|('ix',))"""
        k = v[0]
        if k == "a":
            if e[0] == "v": return v if v[2] == e[1] else fresh()
            if e[0] == "f":
                if e[1] < len(v[3]): return v[3][e[1]]
                return fresh()
            if e[0] == "ci" and v[1] == "array":
                i = len(v[3]) - e[1] if e[2] else e[1]
                return v[3][i] if 0 <= i < len(v[3]) else fresh()
            return fresh()
        if k == "s":
            if e[0] == "ix": return fresh()
            return ("s", v[1], v[2] + (e,))
        if k == "p":
            for i, x in v[2]:
                if i == e: return x
            if e[0] == "ix": return fresh()
            return ("s", v[1][1], v[1][2] + (e,))
        if k == "str" and e[0] == "ci":
            i = len(v[1]) - e[1] if e[2] else e[1]
            if 0 <= i < len(v[1]): return K(v[1][i])
        return fresh()
    def put(self, st, v, path, nv):
        if not path: return nv
        e = path[0]
        sub = self.put(st, self.child(st, v, e), path[1:], nv)
        if v[0] == "a":
            if e[0] == "v":
                if sub[0] == "a": return sub
                return v
            if e[0] in ("f",) and e[1] < len(v[3]):
                fs = list(v[3]); fs[e[1]] = sub
                return ("a", v[1], v[2], tuple(fs))
            if e[0] == "ci" and v[1] == "array":
                i = len(v[3]) - e[1] if e[2] else e[1]
                fs = list(v[3])
                if 0 <= i < len(fs): fs[i] = sub; return ("a", v[1], v[2], tuple(fs))
            return fresh()
        if v[0] == "s":
            if e[0] == "ix": return fresh()
            return ("p", v, ((e, sub),))
        if v[0] == "p":
            if e[0] == "ix": return fresh()
            d = dict(v[2]); d[e] = sub
            return ("p", v[1], tuple(sorted(d.items(), key=repr)))
        return ("p", fresh(), ((e, sub),))
    def root_get(self, st, root):
        v = st.mem.get(root)
        if v is None:
            if root[0] == "C": return root[1]
            if root[0] == "O":
                s = root[1]
                v = ("s", s[1], s[2] + (("*",),))
            else:
                v = fresh()
            st.mem[root] = v
        return v
    def load(self, st, root, path):
        v = self.root_get(st, root)
        for e in path: v = self.child(st, v, e)
        return v
    def store(self, st, root, path, nv):
        st.mem[root] = self.put(st, self.root_get(st, root), path, nv) if path else nv
    def deref(self, st, v):
        """location designated by reference value v"""
        if v[0] == "r": return v[1], v[2]
        if v[0] == "s": return ("O", v), ()
        if v[0] == "p": return ("O", v[1]), ()
        # value used as its own pointee (e.g. boxed constants)
        return None
    def locate(self, st, depth, place):
        root = ("L", depth, place[0]); path = ()
        for e in place[1:]:
            k = e[0]
            if k == "d":
                v = self.load(st, root, path)
                if v[0] in ("str", "k", "l", "x"):
                    r2 = ("C", v); st.mem[r2] = v
                    root, path = r2, ()
                    continue
                if v[0] == "a":
                    # Box-like wrapper: first field chain
                    if len(v[3]) >= 1 and v[1] == "box":
                        path = path + (("f", 0),); continue
                    s = fresh(); root, path = ("O", s), (); continue
                root, path = self.deref(st, v)
            elif k == "f": path = path + (("f", e[1]),)
            elif k == "v": path = path + (("v", e[1]),)
            elif k == "ci": path = path + (("ci", e[1], e[3]),)
            elif k == "i":
                iv = self.simplify(st, self.load(st, ("L", depth, e[1]), ()))
                if iv[0] == "k": path = path + (("ci", iv[1], False),)
                else: path = path + (("ix",),)
            else: path = path + (("ix",),)
        return root, path
    def read(self, st, depth, place, ty=None):
        root, path = self.locate(st, depth, place)
        v = self.load(st, root, path)
        if v[0] == "s":
            if ty is None and place and len(place) > 1 and place[-1][0] == "f": ty = place[-1][3]
            if ty in ("u8", "bool") and v not in st.dom:
                st.dom[v] = BYTES if ty == "u8" else BOOLS
            if path and v[1][0] == "#" and root[0] != "C":
                # pin the freshly invented sub-value at its location
                cur = self.root_get(st, root)
                if self.load(st, root, path) != v:
                    st.mem[root] = self.put(st, cur, path, v)
        return v

    def const(self, st, c, fn):
        if "fn" in c: return ("a", "fn:" + c["fn"]["path"], 0, ())
        if "variant" in c: return ("a", c["adt"], c["variant"], ())
        if "int" in c:
            n = c["int"]
            if c["ty"] in SBITS: n = wrap(n, c["ty"])
            return K(n)
        if "val" in c: return self.cval(c["val"])
        if "promoted" in c: 
            return self.promoted(st, fn, c["promoted"])
        if c.get("zst"):
            ty = c["ty"]
            if ty == "()": return UNIT
            return ("a", "zst:" + ty, 0, ())
        return fresh()
    def cval(self, v):
        if "int" in v: return K(v["int"])
        if "str" in v: return ("str", v["str"].encode())
        if "ref" in v:
            x = self.cval(v["ref"])
            if x[0] == "str": return x
            return ("r", ("C", x), ())
        if "arr" in v:
            xs = [self.cval(x) for x in v["arr"]]
            return ("a", "array", 0, tuple(xs))
        if "tuple" in v: return ("a", "tuple", 0, tuple(self.cval(x) for x in v["tuple"]))
        if "adt" in v: return ("a", v["adt"], v["variant"], tuple(self.cval(x) for x in v["fields"]))
        return fresh()
    def promoted(self, st, fn, i):
        # straight-line promoted body: evaluate abstractly
        if i >= len(fn.promoted): return fresh()
        body = fn.promoted[i]
        tmp = St()
        d = 0
        b = 0
        for _ in range(50):
            bb = body["bbs"][b]
            for s in bb["s"]:
                if s[0] == "=":
                    self.assign(tmp, ("PR"), s, fn)
            t = bb["t"]
            if t[0] == "ret": break
            if t[0] in ("goto",): b = t[1]; continue
            return fresh()
        v = tmp.mem.get(("L", "PR", 0))
        if v is None: return fresh()
        return self.detach(tmp, v)
    def detach(self, tmp, v):
        if v[0] == "r" and v[1][0] == "L":
            x = self.load(tmp, v[1], v[2])
            x = self.detach(tmp, x)
            if x[0] == "str": return x if False else ("r", ("C", x), ())
            return ("r", ("C", x), ())
        if v[0] == "a": return ("a", v[1], v[2], tuple(self.detach(tmp, x) for x in v[3]))
        return v

    def operand(self, st, depth, o, fn):
        if o[0] in ("c", "m"):
            ty = None
            if len(o[1]) == 1 and isinstance(depth, int): ty = fn.body["locals"][o[1][0]][0]
            return self.simplify(st, self.read(st, depth, o[1], ty))
        if o[0] == "k":
            v = self.const(st, o[1], fn)
            if v[0] == "r" and v[1][0] == "C": st.mem[v[1]] = v[1][1]
            return v
        return fresh()

    # ---- expressions ---------------------------------------------------------
    def binop(self, st, op, a, b, ty):
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        wo = op.endswith("WithOverflow")
        a = self.simplify(st, a); b = self.simplify(st, b)
        if base in CMP:
            return self.compare(st, base, a, b, ty)
        if base == "Cmp" or base == "Offset": return fresh()
        if not (is_num(a) and is_num(b)):
            r = fresh()
            return ("a", "tuple", 0, (r, fresh())) if wo else r
        if a[0] == "k" and b[0] == "k":
            n = OPS[base](a[1], b[1])
            w = wrap(n, ty)
            return ("a", "tuple", 0, (K(w), K(int(not in_range(n, ty))))) if wo else K(w)
        small = ty in ("u8", "bool", "i8", "u16")
        vs = None
        if small or base not in ("Add", "Sub", "Mul"):
            r = self.c.arith(st, ("x", base, ty, a, b)) if self.c.words and not wo else None
            if r is not None and r[0] != "x": return r
            r = self.expr(("x", base, ty, a, b), ty)
            if wo: return ("a", "tuple", 0, (r, self.expr(("x", "ovf", (base, ty), a, b), "bool")))
            return r
        if base == "Add": r = lin_add(a, b)
        elif base == "Sub": r = lin_add(a, b, -1)
        elif a[0] == "k": r = lin_scale(b, a[1])
        elif b[0] == "k": r = lin_scale(a, b[1])
        else: r = self.expr(("x", base, ty, a, b), ty)
        if wo:
            if base == "Sub":
                o = self.compare(st, "Lt", a, b, ty)
            else:
                fa = self.value_set(st, a); fb = self.value_set(st, b)
                if fa is not None and fb is not None and len(fa) * len(fb) < 70000 and \
                        all(in_range(OPS[base](x, y), ty) for x in (min(fa), max(fa)) for y in (min(fb), max(fb))):
                    o = FALSE
                else:
                    o = ("x", "may_ovf", (base, ty), a, b)
            return ("a", "tuple", 0, (r, o))
        return r
    def expr(self, e, ty):
        def depth(v):
            if v[0] == "x": return 1 + max([depth(a) for a in v[3:] if isinstance(a, tuple) and a and a[0] in ("x", "l", "s", "k")] + [0])
            if v[0] == "l": return 1 + max([depth(a) for a, _ in v[2]] + [0])
            return 0
        if depth(e) > 12: return fresh()
        at = set(); atoms(e, at)
        if len(at) > 3: return fresh()
        return e
    def compare(self, st, op, a, b, ty=None):
        if not (is_num(a) and is_num(b)):
            if op in ("Eq", "Ne"):
                r = self.eqval(st, a, b)
                return r if op == "Eq" else self.bnot(r)
            return fresh_bool(st)
        if a[0] == "k" and b[0] == "k": return K(OPS[op](a[1], b[1]))
        d = const_diff(b, a)  # a - b
        if d is not None:
            return K(OPS[op](d, 0))
        if ty in ("u8", "bool"):
            for x in (a, b):
                if x[0] == "s" and x not in st.dom: st.dom[x] = BYTES if ty == "u8" else BOOLS
        # normalise
        if op == "Ne": return self.bnot(self.compare(st, "Eq", a, b, ty))
        if op == "Gt": return self.compare(st, "Lt", b, a, ty)
        if op == "Ge": return self.bnot(self.compare(st, "Lt", a, b, ty))
        if op == "Le": return self.bnot(self.compare(st, "Lt", b, a, ty))
        if op == "Eq" and repr(a) > repr(b): a, b = b, a
        if op == "Lt" and ty in BITS and b == K(0): return FALSE
        e = ("x", op, ty, a, b)
        vs = self.value_set(st, e)
        if vs is not None and len(vs) == 1: return K(next(iter(vs)))
        return self.decide_fact(st, e)
    def decide_fact(self, st, e):
        f = st.facts.get(e)
        if f is not None: return K(int(f))
        op, ty, a, b = e[1], e[2], e[3], e[4]
        if op == "Lt":
            if st.facts.get(("x", "Lt", ty, b, a)): return FALSE
            q = ("x", "Eq", ty) + ((a, b) if repr(a) <= repr(b) else (b, a))
            if st.facts.get(q): return FALSE
            # constants: a < n facts
            if b[0] == "k":
                lo, hi = self.bounds(st, a, ty)
                if hi is not None and hi < b[1]: return TRUE
                if lo is not None and lo >= b[1]: return FALSE
            if a[0] == "k":
                lo, hi = self.bounds(st, b, ty)
                if lo is not None and lo > a[1]: return TRUE
                if hi is not None and hi <= a[1]: return FALSE
            # one known inequality: a - b <= u - w with u < w (resp. u <= w) known
            diff = lin_add(a, b, -1)
            if ty in BITS and diff[0] == "s": return FALSE
            if ty in BITS and diff[0] == "l":
                if diff[1] >= 0 and all(n >= 0 for _, n in diff[2]): return FALSE
                if diff[1] <= -1 and all(n <= 0 for _, n in diff[2]): return TRUE
            for g, val in st.facts.items():
                if g[0] != "x" or g[1] != "Lt" or g[2] != ty: continue
                k = lin_add(g[3], g[4], -1) if val else lin_add(g[4], g[3], -1)
                k = lin_add(k, K(1 if val else 0))              # <= 0
                d = const_diff(k, diff)                         # diff = k + d
                if d is not None and d < 0: return TRUE
                d = const_diff(lin_scale(k, -1), diff)          # diff = -k + d
                if d is not None and d >= 0: return FALSE
        if op == "Eq":
            if st.facts.get(("x", "Lt", ty, a, b)) or st.facts.get(("x", "Lt", ty, b, a)): return FALSE
            for u, w in ((a, b), (b, a)):
                if w[0] == "k":
                    lo, hi = self.bounds(st, u, ty)
                    if lo is not None and lo > w[1]: return FALSE
                    if hi is not None and hi < w[1]: return FALSE
                    if u[0] == "s":
                        d = st.dom.get(u)
                        if isinstance(d, frozenset) and w[1] not in d: return FALSE
                        if isinstance(d, tuple) and w[1] in d[1]: return FALSE
        return e
    def bounds(self, st, v, ty):
        lo = 0 if ty in BITS else None; hi = None
        if v[0] == "k": return v[1], v[1]
        vs = self.value_set(st, v)
        if vs: return min(vs), max(vs)
        if v[0] == "l" and lo == 0 and all(c > 0 for _, c in v[2]) and v[1] > -3:
            lo = max(0, v[1] + sum((self.bounds(st, a, ty)[0] or 0) * c for a, c in v[2]))
        for g, val in st.facts.items():
            if g[0] != "x" or g[2] != ty: continue
            if g[1] == "Lt":
                if g[4] == v and g[3][0] != "k" and val and lo is not None: lo = max(lo, 1)
                if g[3] == v and g[4][0] == "k":
                    if val: hi = g[4][1] - 1 if hi is None else min(hi, g[4][1] - 1)
                    else: lo = g[4][1] if lo is None else max(lo, g[4][1])
                elif g[4] == v and g[3][0] == "k":
                    if val: lo = g[3][1] + 1 if lo is None else max(lo, g[3][1] + 1)
                    else: hi = g[3][1] if hi is None else min(hi, g[3][1])
            elif g[1] == "Eq" and val is False:
                n = None
                if g[3] == v and g[4][0] == "k": n = g[4][1]
                elif g[4] == v and g[3][0] == "k": n = g[3][1]
                if n is not None and n == lo: lo = lo + 1
        if v[0] == "s":
            d = st.dom.get(v)
            if isinstance(d, tuple):
                while lo is not None and lo in d[1]: lo += 1
        return lo, hi
    def bnot(self, v):
        if v[0] == "k": return K(1 - v[1])
        if v[0] == "x" and v[1] == "Not" and v[2] == "bool": return v[3]
        return ("x", "Not", "bool", v)
    def eqval(self, st, a, b):
        """structural equality of two values (by value)."""
        if a == b and a[0] in ("k", "str", "s", "l"): return TRUE
        if a[0] == "str" and b[0] == "str": return K(int(a[1] == b[1]))
        if a[0] == "r" and b[0] == "r":
            return self.eqval(st, self.load(st, a[1], a[2]), self.load(st, b[1], b[2]))
        if a[0] == "r" and b[0] == "str": return self.eqval(st, self.load(st, a[1], a[2]), b)
        if b[0] == "r" and a[0] == "str": return self.eqval(st, self.load(st, b[1], b[2]), a)
        if is_num(a) and is_num(b): return self.compare(st, "Eq", a, b)
        if a[0] == "str" : a, b = b, a
        if b[0] == "str" and a[0] == "s":
            d = st.dom.get(a)
            if isinstance(d, frozenset): 
                if b not in d: return FALSE
                if len(d) == 1: return TRUE
            elif isinstance(d, tuple) and b in d[1]: return FALSE
            return ("x", "SEq", "str", a, b)
        if b[0] == "str" and a[0] == "a" and a[1] == "array":
            if all(x[0] == "k" for x in a[3]): return K(int(bytes(x[1] & 255 for x in a[3]) == b[1]))
        if a[0] == "a" and b[0] == "a":
            if a[1] == b[1] and a[2] != b[2]: return FALSE
            if a[1] == b[1]:
                rs = [self.eqval(st, x, y) for x, y in zip(a[3], b[3])]
                if all(r == TRUE for r in rs): return TRUE
                if any(r == FALSE for r in rs): return FALSE
                und = [r for r in rs if r != TRUE]
                if len(und) == 1: return und[0]
            return fresh_bool(st)
        for u, w in ((a, b), (b, a)):
            if w[0] == "a" and u[0] in ("s", "p") and self.p.adt(w[1]) and self.p.adt(w[1])["kind"] == "enum":
                dv = self.discr(st, u, w[1])
                kd = K(self.p.adt(w[1])["variants"][w[2]]["discr"])
                r = self.compare(st, "Eq", self.simplify(st, dv), kd)
                if not w[3] or r == FALSE: return r
                return ("x", "AndU", "bool", r, fresh_bool(st)) if r != TRUE else fresh_bool(st)
        return fresh_bool(st)
    def discr(self, st, v, adt):
        a = self.p.adt(adt) if adt else None
        if v[0] == "a":
            if a and a["kind"] == "enum" and v[2] < len(a["variants"]): return K(a["variants"][v[2]]["discr"])
            if v[1] == adt or a is None: return K(v[2])
            return K(v[2])
        if v[0] == "p":
            for i, x in v[2]:
                if i == ("disc",): return x
            v = v[1]
        if v[0] == "s":
            d = ("s", v[1], v[2] + (("disc",),))
            if d not in st.dom and a: st.dom[d] = frozenset(x["discr"] for x in a["variants"])
            return d
        return fresh()
    def variant_index(self, adt, discr):
        for i, x in enumerate(self.p.adt(adt)["variants"]):
            if x["discr"] == discr: return i
        return None

    # ---- branching -------------------------------------------------------------
    def assume(self, st, v, want):
        """state refined by boolean v == want, or None"""
        r = self.split(st, v, [(0, "f")], "t", "bool")
        for tgt, s in r:
            if (tgt == "t") == want: return s
        return None
    def split(self, st, v, cases, otherwise, ty=None):
        v = self.simplify(st, v)
        if v[0] == "k":
            for n, b in cases:
                if wrap(n, ty) == v[1] if ty else n == v[1]: return [(b, st)]
            return [(otherwise, st)]
        if v[0] == "x" and v[1] == "Not" and v[2] == "bool":
            inv = [(1 - n, b) for n, b in cases]
            return self.split(st, v[3], inv, otherwise, "bool")
        if v[0] == "x" and v[1] == "AndU":
            # conjunction with an unknown: true side refines, false side keeps everything
            out = []
            fs = [b for n, b in cases if n == 0] or [otherwise]
            ts = [b for n, b in cases if n == 1] or [otherwise]
            t = self.assume(st, v[3], True)
            if t is not None: out.append((ts[0], t))
            out.append((fs[0], st.copy()))
            return out
        if v[0] == "x" and v[1] == "SEq":
            fs = [b for n, b in cases if n == 0] or [otherwise]
            ts = [b for n, b in cases if n == 1] or [otherwise]
            a, b = v[3], v[4]
            d = st.dom.get(a)
            t = st.copy(); t.dom[a] = frozenset((b,))
            f = st.copy()
            if isinstance(d, frozenset): f.dom[a] = d - {b}
            else: f.dom[a] = ("ex", (d[1] if d else frozenset()) | {b})
            return [(ts[0], t), (fs[0], f)]
        fin = self.finite(st, v, ty)
        if fin:
            s, ds, f = fin
            ck = (v, tuple(ds), tuple(map(tuple, cases)), ty)
            ent = self.spc.get(ck) if isinstance(st.dom.get(s), frozenset) else None
            if ent is None:
                buckets = {}
                cm = {}
                for n, b in cases: cm.setdefault(wrap(n, ty) if ty else n, b)
                ok = True
                for n in ds:
                    try: val = f(n)
                    except Imprecise: ok = False; break
                    buckets.setdefault(cm.get(val, ("o",)), []).append(n)
                if len(atomset(v)) == 1 and len(ds) > 4: self.spc[ck] = (ok, buckets)
            else: ok, buckets = ent
            if ok:
                if len(buckets) == 1:
                    b, = buckets
                    if not isinstance(st.dom.get(s), frozenset):
                        st = st.copy(); st.dom[s] = frozenset(ds)
                    return [(otherwise if b == ("o",) else b, st)]
                out = []
                for b, ns in buckets.items():
                    c = st.copy(); c.dom[s] = frozenset(ns)
                    out.append((otherwise if b == ("o",) else b, c))
                return self._merge_targets(out)
        if v[0] == "x" and v[1] in ("Eq", "Lt"):
            e = self.decide_fact(st, v)
            if e[0] == "k": return self.split(st, e, cases, otherwise, ty)
            fs = [b for n, b in cases if n == 0] or [otherwise]
            ts = [b for n, b in cases if n == 1] or [otherwise]
            t = st.copy(); t.facts[v] = True; self.learn(t, v, True)
            f = st.copy(); f.facts[v] = False; self.learn(f, v, False)
            return [(ts[0], t), (fs[0], f)]
        if v[0] == "s":
            d = st.dom.get(v)
            ex = d[1] if isinstance(d, tuple) else frozenset()
            out = []; seen = set()
            for n, b in cases:
                n = wrap(n, ty) if ty else n
                if n in ex: continue
                if isinstance(d, frozenset) and n not in d: continue
                c = st.copy(); c.dom[v] = frozenset((n,)); out.append((b, c)); seen.add(n)
            c = st.copy()
            if isinstance(d, frozenset):
                if d - seen: c.dom[v] = d - seen; out.append((otherwise, c))
            elif ty == "bool" and len(seen | ex) >= 2: pass
            else:
                c.dom[v] = ("ex", ex | seen); out.append((otherwise, c))
            return out
        # unknown expression: remember the outcome as a fact so that re-tests agree
        if v[0] == "x":
            f0 = st.facts.get(v)
            if f0 is not None and not isinstance(f0, bool): return self.split(st, K(f0), cases, otherwise, ty)
            out = []
            for n, b in cases:
                c = st.copy(); c.facts[v] = n; out.append((b, c))
            c = st.copy()
            if ty == "bool" and len(cases) == 1: c.facts[v] = 1 - cases[0][0]
            out.append((otherwise, c))
            return out
        return [(b, st.copy()) for _, b in cases] + [(otherwise, st.copy())]
    def _merge_targets(self, out):
        return out
    def learn(self, st, v, val):
        op, ty, a, b = v[1], v[2], v[3], v[4]
        if op == "Eq" and val:
            for u, w in ((a, b), (b, a)):
                if w[0] == "k" and u[0] == "s": st.dom[u] = frozenset((w[1],))
        elif op == "Eq":
            for u, w in ((a, b), (b, a)):
                if w[0] == "k" and u[0] == "s":
                    d = st.dom.get(u)
                    if isinstance(d, frozenset): st.dom[u] = d - {w[1]}
                    else: st.dom[u] = ("ex", (d[1] if d else frozenset()) | {w[1]})
        elif op == "Lt":
            # unsigned x < 1  => x == 0 ; !(0 < x) => x == 0
            if ty in BITS and val and b == K(1) and a[0] == "s": st.dom[a] = frozenset((0,))
            if ty in BITS and not val and a == K(0) and b[0] == "s": st.dom[b] = frozenset((0,))

    # ---- statements --------------------------------------------------------------
    def assign(self, st, depth, s, fn):
        v = self.rvalue(st, depth, s[2], fn)
        root, path = self.locate(st, depth, s[1])
        if isinstance(depth, int) and path and self.c.watch_store(root, path):
            self.c.on_store(st, root, path, self.load(st, root, path), v, (fn, s[3]))
        self.store(st, root, path, v)
    def rvalue(self, st, depth, r, fn):
        k = r[0]
        if k == "use": return self.operand(st, depth, r[1], fn)
        if k == "repeat":
            v = self.operand(st, depth, r[1], fn)
            if isinstance(r[2], int) and r[2] <= 64: return ("a", "array", 0, (v,) * r[2])
            return fresh()
        if k in ("ref", "rawptr"):
            pl = r[1]
            root, path = self.locate(st, depth, pl)
            if any(e[0] == "ix" for e in path):
                s = fresh(); 
                return ("r", ("O", s), ())
            # reborrow of a whole pointee keeps identity
            if root[0] == "C" and not path:
                v = root[1]
                if v[0] == "str": return v
            self.root_get(st, root)
            return ("r", root, path)
        if k == "cast":
            v = self.operand(st, depth, r[2], fn)
            if "IntToInt" in r[1]:
                to, fr = r[3], r[4]
                if v[0] == "k": return K(wrap(v[1], to))
                wide = BITS.get(to, SBITS.get(to, 64)); nar = BITS.get(fr, SBITS.get(fr, 64))
                if v[0] == "s" and fr == "u8" and v not in st.dom: st.dom[v] = BYTES
                vs = self.value_set(st, v)
                if vs is not None:
                    if all(wrap(n, to) == n for n in vs): return v
                    return ("x", "cast", to, v)
                self.c.on_cast(st, v, fr, to, fn)
                return v
            return v
        if k == "bin":
            a = self.operand(st, depth, r[2], fn); b = self.operand(st, depth, r[3], fn)
            return self.binop(st, r[1], a, b, r[4])
        if k == "un":
            v = self.operand(st, depth, r[2], fn)
            if r[1] == "Not":
                if r[3] == "bool": return self.bnot(v)
                if v[0] == "k": return K(wrap(~v[1], r[3]))
                return ("x", "Not", r[3], v) if is_num(v) else fresh()
            if r[1] == "Neg": return K(-v[1]) if v[0] == "k" else (lin_scale(v, -1) if is_num(v) else fresh())
            if r[1] == "PtrMetadata":
                return self.seq_len(st, v)
            return fresh()
        if k == "discr":
            v = self.read(st, depth, r[1])
            return self.simplify(st, self.discr(st, v, r[2]))
        if k == "agg":
            fs = tuple(self.operand(st, depth, o, fn) for o in r[4])
            if r[1] == "adt": return ("a", r[2], r[3], fs)
            if r[1] == "closure": return ("a", "closure:" + r[2], 0, fs)
            return ("a", r[1], 0, fs)
        return fresh()
    def seq_len(self, st, v):
        """length of the sequence designated by reference/fat pointer v"""
        if v[0] == "str": return K(len(v[1]))
        loc = self.deref(st, v) if v[0] in ("r", "s", "p") else None
        if loc is None: return fresh()
        x = self.load(st, *loc)
        return self.content_len(st, x)
    def content_len(self, st, x):
        if x[0] == "a" and x[1] == "array": return K(len(x[3]))
        if x[0] == "a" and x[1] == "seq": return x[3][0]
        if x[0] == "str": return K(len(x[1]))
        if x[0] == "s": return ("s", x[1], x[2] + (("len",),))
        if x[0] == "p": return ("s", x[1][1], x[1][2] + (("len",),))
        return fresh()

    # ---- driver ----------------------------------------------------------------
    def run(self, fn, depth, st):
        st = canon(st)
        mk = (fn.crate, fn.path, depth, st.freeze())
        if mk in self.memo:
            return [s.copy() for s in self.memo[mk]]
        self.inlined.add(fn.path)
        self.stack.append(fn.path); self.runs[fn.path] = self.runs.get(fn.path, 0) + 1
        try:
            outs = self._run(fn, depth, st)
        finally:
            self.stack.pop()
        # dedupe, merge losslessly, and join beyond the limit
        uniq = {}
        for s in outs:
            c = canon(s); uniq.setdefault(c.freeze(), c)
        outs = self.compact(list(uniq.values()))
        outs = self.limit_exits(fn, depth, outs)
        self.memo[mk] = outs
        return [s.copy() for s in outs]

    def compact(self, sts):
        """merge states that differ only in the finite domain of one symbol (exact union)"""
        groups = {}
        for s in sts:
            k = (frozenset(s.mem.items()), frozenset(s.facts.items()), frozenset(s.key.items()))
            groups.setdefault(k, []).append(s)
        out = []
        for g in groups.values():
            ch = len(g) > 1
            while ch:
                ch = False
                for i in range(len(g)):
                    for j in range(i + 1, len(g)):
                        a, b = g[i].dom, g[j].dom
                        if set(a) != set(b): continue
                        df = [x for x in a if a[x] != b[x]]
                        if len(df) > 1: continue
                        if df:
                            x, y = a[df[0]], b[df[0]]
                            if isinstance(x, frozenset) and isinstance(y, frozenset): u = x | y
                            elif isinstance(x, tuple) and isinstance(y, tuple): u = ("ex", x[1] & y[1])
                            else:
                                e, f = (x, y) if isinstance(x, tuple) else (y, x)
                                u = ("ex", e[1] - f)
                            c = g[i].copy(); c.dom[df[0]] = u; g[i] = c
                        del g[j]; ch = True; break
                    if ch: break
            out += g
        return out
    def ret_shape(self, st, v):
        if v[0] == "k": return v
        if v[0] == "a":
            if v[1].endswith("result::Result") and v[2] == 1: return "err"
            if v[1] in ("core::option::Option", "core::result::Result", "core::ops::ControlFlow"):
                return (v[1], v[2], tuple(self.ret_shape(st, x) for x in v[3]))
            return (v[1], v[2]) + (tuple(self.ret_shape(st, x) for x in v[3]) if v[1] == "tuple" or len(v[3]) == 1 else ())
        return v[0]
    def vshape(self, v):
        """variants of nested options and results"""
        if v[0] == "a" and v[2] is not None and self.p.adt(v[1]) and self.p.adt(v[1])["kind"] == "enum":
            return (v[2],) + (tuple(self.vshape(x) for x in v[3]) if v[1] in ("core::option::Option", "core::result::Result", "core::ops::ControlFlow") else ())
        return None
    def limit_exits(self, fn, depth, outs):
        by = {}
        for s in outs:
            rv = s.mem.get(("L", depth, 0), UNIT)
            sh = self.ret_shape(s, rv)
            k = (frozenset(s.key.items()), sh, self.c.exit_key(s, rv) if sh != "err" else self.c.err_key(self, s, rv))
            by.setdefault(k, []).append(s)
        res = []
        for k, l in by.items():
            lim = 1 if k[1] == "err" else self.maxexits
            if len(l) > lim:
                a = l[0]
                for b in l[1:]: a = self.join(a, b)
                l = [a]
            res += l
        return res
    def bkey(self, fn, depth, st, header, full):
        ck = frozenset(st.key.items())
        if full is False: return ck
        if full is None: return (ck, self.c.extra_key(st))
        parts = []
        for i, l in enumerate(fn.body["locals"]):
            v = st.mem.get(("L", depth, i))
            if v is None: continue
            if l[0] == "bool" and v[0] == "k": parts.append((i, v[1]))
            elif v[0] == "a" and v[1].endswith("ops::Range") and all(x[0] == "k" for x in v[3]) and not (self.c.words and v[3][1][1] > 8): parts.append((i, v[3]))
            elif v[0] == "a" and v[2] is not None and self.p.adt(v[1]) and self.p.adt(v[1])["kind"] == "enum": parts.append((i, "v", self.vshape(v)))
            elif self.c.words and header is not True and header is not False and v[0] == "k" and 0 <= v[1] <= 8 and l[0] in ("usize", "u8", "u32", "i32", "u64", "isize") and self.c.small_loop(fn, header): parts.append((i, v[1]))
        return (ck, tuple(parts), self.c.extra_key(st))

    def _run(self, fn, depth, st0):
        rpo = fn.rpo(); num = {b: i for i, b in enumerate(rpo)}
        loops, back = fn.loops()
        preds = fn.preds()
        live = fn.liveness()
        merge = {b for b in rpo if len(preds[b]) > 1 or b in loops}
        store = {b: {} for b in rpo}     # b -> {freeze: st}
        acc = {b: {} for b in rpo}       # b -> {key: joined st}
        cnt = {b: {} for b in rpo}
        heap = []; tick = itertools.count(); maxstates = self.c.maxstates(fn) or self.maxstates
        outs = []
        nl = len(fn.body["locals"])
        def push(b, s): heapq.heappush(heap, (num[b], next(tick), b, s))
        def arrive(b, s, src):
            if b in loops:
                r = self.c.on_loop_edge(self, fn, depth, b, (src, b) in back, s)
                if r is None: return
                s = r
            if b not in merge:
                push(b, s); return
            lv = live[b]
            for i in range(nl):
                if i not in lv: s.mem.pop(("L", depth, i), None)
            s = canon(s)
            fz = s.freeze()
            if fz in store[b]: return
            if b in loops:
                key = self.bkey(fn, depth, s, b or True, True)
                n = cnt[b].get(key, 0); cnt[b][key] = n + 1
                lim = self.unroll
                if len(acc[b]) > 60 * (1 + 9 * self.c.words) or len(cnt[b]) > 80 * (1 + 9 * self.c.words):
                    key = self.bkey(fn, depth, s, True, False); n = 10 ** 6
                if n >= lim or key in acc[b]:
                    a = acc[b].get(key)
                    if a is not None:
                        j = self.join(a, s)
                        if j.freeze() == a.freeze(): return
                        s = j
                    acc[b][key] = s
                    fz = s.freeze()
                    if fz in store[b]: return
            elif len(store[b]) >= maxstates:
                key = self.bkey(fn, depth, s, False, True if self.c.words or len(store[b]) < 3 * maxstates else None if len(store[b]) < 10 * maxstates else False)
                a = acc[b].get(key)
                if a is not None:
                    j = self.join(a, s)
                    if j.freeze() == a.freeze(): return
                    s = j
                acc[b][key] = s
                fz = s.freeze()
                if fz in store[b]: return
            store[b][fz] = s
            push(b, s.copy())
        arrive(rpo[0], st0.copy(), -1)
        while heap:
            _, _, b, s = heapq.heappop(heap)
            self.steps += 1
            if self.steps > self.budget: raise Budget("%s: step budget exceeded in %s" % (self.budget, fn.path))
            bb = fn.body["bbs"][b]
            self.cur = (fn, b)
            for x in bb["s"]:
                if x[0] == "=": self.assign(s, depth, x, fn)
                elif x[0] == "dead": s.mem.pop(("L", depth, x[1]), None)
                elif x[0] == "setd":
                    root, path = self.locate(s, depth, x[1])
                    self.store(s, root, path, fresh())
            t = bb["t"]; k = t[0]
            if k == "goto": arrive(t[1], s, b)
            elif k == "ret":
                rv = s.mem.get(("L", depth, 0), UNIT)
                for i in range(nl): s.mem.pop(("L", depth, i), None)
                s.mem[("L", depth, 0)] = rv
                outs.append(s)
            elif k == "drop": arrive(t[2], s, b)
            elif k == "switch":
                v = self.operand(s, depth, t[1], fn)
                v = self.c.on_switch(self, fn, depth, t, v, s) or v
                for tgt, s2 in self.split(s, v, t[2], t[3], t[5]):
                    if fn.body["bbs"][tgt]["t"][0] == "unreachable" and not fn.body["bbs"][tgt]["s"]: continue
                    arrive(tgt, s2, b)
            elif k == "assert":
                v = self.operand(s, depth, t[1], fn)
                want = 1 if t[2] else 0
                ok = None
                for tgt, s2 in self.split(s, v, [(want, "ok")], "bad", "bool"):
                    if tgt == "ok": ok = s2
                    else: self.av = v; self.c.on_assert(self, fn, b, t, s2)
                if ok is not None: arrive(t[5], ok, b)
            elif k == "call":
                self.call(fn, depth, b, t, s, arrive)
            # unreachable/resume/terminate: path ends
        return outs

    def call(self, fn, depth, b, t, s, arrive):
        args = [self.operand(s, depth, o, fn) for o in t[2]]
        f = t[1]
        site = (fn, b, t[6])
        if f[0] != "k" or "fn" not in f[1]:
            fv = self.operand(s, depth, f, fn)
            outs = self.call_value(fv, args, s, depth, site)
        else:
            outs = self.invoke(f[1]["fn"], args, s, depth, site, t[7])
        for r in outs:
            s2, ret = r
            if s2 is None: continue
            if t[4] is None: continue
            root, path = self.locate(s2, depth, t[3])
            if path and self.c.watch_store(root, path):
                self.c.on_store(s2, root, path, self.load(s2, root, path), ret, (fn, t[6]))
            self.store(s2, root, path, ret)
            arrive(t[4], s2, b)

    def resolve(self, fr, fn_crate):
        for key in ("resolved", "path"):
            p = fr.get(key)
            if p is None: continue
            g = self.p.get(fn_crate, p)
            if g: return g
        return None

    def invoke(self, fr, args, s, depth, site, argtys):
        """-> list of (state, return value)"""
        import models
        r = self.c.intercept(self, fr, args, s, depth, site)
        if r is not None: return r
        r = models.model(self, fr, args, s, depth, site, argtys)
        if r is not None: return r
        g = self.resolve(fr, site[0].crate)
        if g is not None and len(self.stack) < 22 and self.stack.count(g.path) < 2 and self.c.inline(g):
            if self.is_byte_pred(g) and len(args) == 1 and args[0][0] in ("s", "x"):
                t = self.byte_table(g)
                s0 = args[0]
                if s0[0] == "s" and s0 not in s.dom: s.dom[s0] = BYTES
                vs = self.value_set(s, s0)
                if t is not None and vs is not None and all(n in t for n in vs):
                    ty = g.body["locals"][0][0]
                    if ty == "bool": e = ("x", "in", "bool", s0, frozenset(n for n in t if t[n]))
                    else: e = ("x", "tbl", ty, s0, tuple(sorted(t.items())))
                    return [(s, self.simplify(s, e))]
            return self.call_fn(g, args, s, depth)
        self.opaque_calls[fr["path"]] = self.opaque_calls.get(fr["path"], 0) + 1
        return [(s, self.havoc(s, args, argtys, fr))]
    def is_byte_pred(self, g):
        l = g.body["locals"]
        return g.body["argc"] == 1 and l[1][0] == "u8" and l[0][0] in ("bool", "u8", "u16", "u32", "usize", "char")
    def byte_table(self, g):
        """value-set summary of a pure fn(u8) -> int/bool: dict byte -> result (bytes on which no
        path returns are absent); None if some byte has no determined outcome"""
        if g.path in self.tables: return self.tables[g.path]
        self.tables[g.path] = None
        st = St(); b = ("s", "byte", ()); st.dom[b] = BYTES; st.mem[("L", 900, 1)] = b
        T = {}; ok = True
        c, self.c = self.c, Client()
        try:
            for o in self.run(g, 900, st):
                v = o.mem.get(("L", 900, 0), UNIT); d = o.dom.get(b, BYTES)
                for n in d:
                    r = n if v == b else self._ev_k(v, b, n)
                    if r is None or T.get(n, r) != r: ok = False
                    else: T[n] = r
        except Budget: ok = False
        finally: self.c = c
        if ok: self.tables[g.path] = T
        return self.tables[g.path]
    def _ev_k(self, v, b, n):
        if v[0] == "k": return v[1]
        try: return x_eval(v, b, n)
        except Imprecise: return None
    def call_fn(self, g, args, s, depth):
        """Call summary with the frame rule: only the memory reachable from the arguments is
        visible to the callee, symbols and locations are renamed to a context-independent
        form (so a summary is reused in every context that looks the same to the callee)."""
        smap = {}; order = []            # base -> "@i"
        rmap = {}; queue = []            # root -> renamed root
        obase = {}                       # base -> [O roots]
        hroots = {}
        for r in s.mem:
            if r[0] == "O": obase.setdefault(r[1][1], []).append(r)
            elif r[0] == "H": hroots.setdefault(r[1], []).append(r)
        npar = [0]
        def f(b):
            n = smap.get(b)
            if n is None:
                n = "@%d" % len(smap); smap[b] = n
                for r in sorted(obase.get(b, ()), key=lambda r: repr(r[1][2])): visit_root(r)
            return n
        def visit_root(r):
            if r in rmap or r[0] == "C": return
            if r[0] == "O":
                rmap[r] = None
                b = r[1][1]
                rmap[r] = ("O", ("s", f(b) if b[0] in "#@" else b, r[1][2]))
            else:
                rmap[r] = ("P", npar[0]); npar[0] += 1
            if r in s.mem: queue.append(r)
            for h in sorted(hroots.get(r, ()), key=repr):
                rmap[h] = ("H", rmap[r], h[2]); queue.append(h)
        def walk(v):
            """rename v, registering what it reaches"""
            k = v[0]
            if k == "k" or k == "str": return v
            if k == "s":
                if v[1][0] in "#@": return ("s", f(v[1]), v[2])
                for r in sorted(obase.get(v[1], ()), key=lambda r: repr(r[1][2])): visit_root(r)
                return v
            if k == "l":
                t = {}
                for a_, n in v[2]:
                    x = walk(a_); t[x] = t.get(x, 0) + n
                return from_lin(v[1], t)
            if k == "x":
                return tuple(walk(x) if isinstance(x, tuple) and x and x[0] in VAL else x for x in v)
            if k == "a":
                return ("a", v[1], v[2], tuple(walk(x) for x in v[3])) if v[3] else v
            if k == "p":
                return ("p", walk(v[1]), tuple((i, walk(x)) for i, x in v[2]))
            if k == "r":
                r = v[1]
                if r[0] == "C": return v
                if r[0] == "O": walk(r[1])
                visit_root(r)
                return ("r", rmap[r], v[2])
            return v
        inner = St(key=self.c.enter_key(s.key))
        for i, v in enumerate(args): inner.mem[("L", 1, i + 1)] = walk(v)
        for r in sorted((r for r in s.mem if r[0] == "E"), key=repr):
            rmap[r] = r; inner.mem[r] = walk(s.mem[r])
        i = 0
        while i < len(queue):
            r = queue[i]; i += 1
            w = walk(s.mem[r])
            inner.mem[rmap[r]] = w
        for y, d in s.dom.items():
            if y[1] in smap: inner.dom[("s", smap[y[1]], y[2])] = d
            elif y[1][0] not in "#@": inner.dom[y] = d
        for x, v in s.facts.items():
            bs = set(); bases(x, bs)
            if all(b in smap for b in bs): inner.facts[ren(x, lambda b: smap[b])] = v
        back = {n: b for b, n in smap.items()}
        rback = {n: r for r, n in rmap.items()}
        res = []
        seen_roots = {r for r in rmap}
        for o in self.run(g, 1, inner):
            fr = {}
            def fb(b):
                if b[0] == "@": return back[b]
                n = fr.get(b)
                if n is None: n = "#%d" % next(_fresh); fr[b] = n
                return n
            def rr(r):
                if r in rback: return rback[r]
                if r[0] == "O": return ("O", ren2(r[1]))
                if r[0] == "H": return ("H", rr(r[1]), r[2])
                return r
            def ren2(v):
                k = v[0]
                if k == "k" or k == "str": return v
                if k == "s": return ("s", fb(v[1]), v[2]) if v[1][0] in "#@" else v
                if k == "l":
                    t = {}
                    for a_, n in v[2]:
                        x = ren2(a_); t[x] = t.get(x, 0) + n
                    return from_lin(v[1], t)
                if k == "x": return tuple(ren2(x) if isinstance(x, tuple) and x and x[0] in VAL else x for x in v)
                if k == "a": return ("a", v[1], v[2], tuple(ren2(x) for x in v[3])) if v[3] else v
                if k == "p": return ("p", ren2(v[1]), tuple((i, ren2(x)) for i, x in v[2]))
                if k == "r": return ("r", rr(v[1]), v[2]) if v[1][0] != "C" else v
                return v
            n = St(mem={r: v for r, v in s.mem.items() if r not in seen_roots}, dom=dict(s.dom), facts=dict(s.facts),
                   key=self.c.leave_key(s.key, o.key))
            rv = UNIT
            for r, v in o.mem.items():
                if r == ("L", 1, 0): rv = ren2(v)
                elif r[0] == "C": pass
                else: n.mem[rr(r)] = ren2(v)
            for y, d in o.dom.items():
                n.dom[ren2(y)] = d
            for x, v in o.facts.items():
                n.facts[ren2(x)] = v
            res.append((n, rv))
        return res
    def call_value(self, fv, args, s, depth, site):
        """call a closure / fn item value; args: list of values (already spread)"""
        if fv[0] == "r": 
            inner = self.load(s, fv[1], fv[2])
            if inner[0] == "a": fv = inner
        if fv[0] == "a" and fv[1].startswith("closure:"):
            g = self.p.get(site[0].crate, fv[1][8:])
            if g is not None and len(self.stack) < 22:
                ty = g.body["locals"][1][0]
                if ty.startswith("&"):
                    root = ("L", depth, "clo%d" % next(_fresh))
                    s.mem[root] = fv
                    env = ("r", root, ())
                else: env = fv
                # closure bodies take the env and the spread args
                return self.call_fn(g, [env] + args, s, depth)
        if fv[0] == "a" and fv[1].startswith("fn:"):
            p = fv[1][3:]
            g = self.p.get(site[0].crate, p)
            import models
            fr = {"path": p, "full": p, "local": g is not None, "name": p.rsplit("::", 1)[-1]}
            a = self.ctor(p)
            if a is not None: return [(s, ("a", a[0], a[1], tuple(args)))]
            return self.invoke(fr, args, s, depth, site, ["?"] * len(args))
        if DEBUG: print("call_value?", fv)
        return [(s, self.havoc(s, args, ["?"] * len(args), {"path": "closure"}))]
    def ctor(self, p):
        """enum tuple-variant / tuple-struct constructor path -> (adt, variant)"""
        pre, _, last = p.rpartition("::")
        if last in ("Ok", "Err") and pre.startswith("core::"): return ("core::result::Result", 0 if last == "Ok" else 1)
        if last == "Some" and pre.startswith("core::"): return ("core::option::Option", 1)
        a = self.p.adt(pre)
        if a and a["kind"] == "enum":
            for i, v in enumerate(a["variants"]):
                if v["name"] == last: return (a["path"], i)
        return None
    def havoc(self, s, args, tys, fr):
        for a, t in zip(args, tys):
            self.havoc_arg(s, a, t)
        r = fresh()
        return r
    def havoc_arg(self, s, a, t):
        if t.startswith("&mut") or t == "?" or "&mut" in t:
            if a[0] == "r" and a[1][0] != "C":
                self.c.on_havoc(s, a[1], a[2])
                self.store(s, a[1], a[2], fresh())
            elif a[0] == "s":
                s.mem[("O", a)] = fresh()
            elif a[0] == "a":
                for x in a[3]: self.havoc_arg(s, x, t)

    # ---- join ------------------------------------------------------------------
    def join(self, A, B):
        self.joins += 1
        memo = {}; tsy = {}
        out = St(key=dict(A.key))
        newdom = {}
        def numdom(S, v):
            return self.value_set(S, v)
        def au(a, b):
            if a == b: return a
            if a[0] == "a" and b[0] == "a" and a[1] == b[1] and a[2] == b[2] and len(a[3]) == len(b[3]):
                return ("a", a[1], a[2], tuple(au(x, y) for x, y in zip(a[3], b[3])))
            if a[0] in ("p", "s") and b[0] in ("p", "s"):
                sa = a[1] if a[0] == "p" else a; sb = b[1] if b[0] == "p" else b
                if sa == sb:
                    da = dict(a[2]) if a[0] == "p" else {}; db = dict(b[2]) if b[0] == "p" else {}
                    d = {}
                    for e in set(da) | set(db):
                        x = da.get(e, ("s", sa[1], sa[2] + (e,))); y = db.get(e, ("s", sa[1], sa[2] + (e,)))
                        d[e] = au(x, y)
                    return ("p", sa, tuple(sorted(d.items(), key=repr)))
            if (a, b) in memo: return memo[(a, b)]
            if is_num(a) and is_num(b):
                d = const_diff(a, b)
                if d is not None and d != 0:
                    t = tsy.get(abs(d))
                    if t is None:
                        t = fresh(); tsy[abs(d)] = t
                        if a[0] == "k" and b[0] == "k": newdom[t] = frozenset((0, abs(d)))
                    elif not (a[0] == "k" and b[0] == "k"): newdom.pop(t, None)
                    r = lin_add(a, t if d > 0 else lin_scale(t, -1))
                    memo[(a, b)] = r
                    return r
                if d is None:
                    # differences of equal linear form (up to sign) get one common counter
                    k, sg = lindiff(a, b)
                    if diffs.get(k, 0) > 1:
                        t = tsy.get(k)
                        if t is None: t = fresh(); tsy[k] = t
                        r = lin_add(a, lin_scale(t, sg)); memo[(a, b)] = r
                        return r
                r = fresh()
                x = numdom(A, a); y = numdom(B, b)
                if x is not None and y is not None and len(x | y) <= 300 and (y <= x or not (a[0] == "l" or b[0] == "l")): newdom[r] = x | y
                else:
                    ea = A.dom.get(a); eb = B.dom.get(b)
                    ex = None
                    if isinstance(ea, tuple) and isinstance(eb, tuple): ex = ea[1] & eb[1]
                    elif isinstance(ea, tuple) and y is not None: ex = ea[1] - y
                    elif isinstance(eb, tuple) and x is not None: ex = eb[1] - x
                    elif x is not None and y is not None and 0 not in x and 0 not in y: ex = frozenset((0,))
                    if ex: newdom[r] = ("ex", ex)
                memo[(a, b)] = r
                return r
            r = fresh(); memo[(a, b)] = r
            # keep the discriminant set of enums of different variants
            ad = None
            for v in (a, b):
                if v[0] == "a" and self.p.adt(v[1]) and self.p.adt(v[1])["kind"] == "enum": ad = v[1]
            if ad:
                da = self.value_set(A, self.discr(A, a, ad)); db = self.value_set(B, self.discr(B, b, ad))
                if da is not None and db is not None:
                    newdom[("s", r[1], (("disc",),))] = da | db
            return r
        diffs = {}; seen = set()
        def lindiff(a, b):
            d = lin_add(b, a, -1)
            if d[0] == "l":
                m = d[2][0][1]
                return (d, 1) if m > 0 else (lin_scale(d, -1), -1)
            return d, 1
        def collect(a, b):
            if a == b: return
            if a[0] == "a" and b[0] == "a":
                if a[1] == b[1] and a[2] == b[2] and len(a[3]) == len(b[3]):
                    for x, y in zip(a[3], b[3]): collect(x, y)
            elif a[0] in ("p", "s") and b[0] in ("p", "s") and (a[0] == "p" or b[0] == "p"):
                sa = a[1] if a[0] == "p" else a; sb = b[1] if b[0] == "p" else b
                if sa == sb:
                    da = dict(a[2]) if a[0] == "p" else {}; db = dict(b[2]) if b[0] == "p" else {}
                    for e in set(da) | set(db):
                        collect(da.get(e, ("s", sa[1], sa[2] + (e,))), db.get(e, ("s", sa[1], sa[2] + (e,))))
            elif is_num(a) and is_num(b) and (a, b) not in seen:
                seen.add((a, b))
                if const_diff(a, b) is None:
                    k = lindiff(a, b)[0]; diffs[k] = diffs.get(k, 0) + 1
        for r in A.mem:
            if r in B.mem: collect(A.mem[r], B.mem[r])
        for r in set(A.mem) | set(B.mem):
            if r in A.mem and r in B.mem:
                out.mem[r] = au(A.mem[r], B.mem[r])
            elif r[0] == "C": out.mem[r] = r[1]
            elif r[0] == "O":
                S = A if r in A.mem else B
                dflt = ("s", r[1][1], r[1][2] + (("*",),))
                out.mem[r] = au(S.mem[r], dflt) if S is A else au(dflt, S.mem[r])
            # locals present on one side only are dead
        # domains
        for s in set(A.dom) & set(B.dom):
            x, y = A.dom[s], B.dom[s]
            if isinstance(x, frozenset) and isinstance(y, frozenset): out.dom[s] = x | y
            elif isinstance(x, tuple) and isinstance(y, tuple):
                if x[1] & y[1]: out.dom[s] = ("ex", x[1] & y[1])
            else:
                e, f = (x, y) if isinstance(x, tuple) else (y, x)
                if e[1] - f: out.dom[s] = ("ex", e[1] - f)
        out.dom.update(newdom)
        for f, v in A.facts.items():
            if B.facts.get(f) == v and f in B.facts: out.facts[f] = v
        self.simplify_lin(out)
        return canon(out)
    def simplify_lin(self, st):
        """merge fresh counters that always occur together with coefficients equal up to sign"""
        occ = {}; bad = set()
        idx = itertools.count()
        def walk(v):
            k = v[0]
            if k == "l":
                i = next(idx)
                for a, c in v[2]:
                    if a[0] == "s" and a[1][0] == "#": occ.setdefault(a, []).append((i, c))
                    else: walk_bad(a)
            elif k == "s":
                if v[1][0] == "#": occ.setdefault(v, []).append((next(idx), 1))
            elif k == "a":
                for a in v[3]: walk(a)
            elif k == "p":
                walk_bad(v[1])
                for _, a in v[2]: walk(a)
            elif k == "x": walk_bad(v)
            elif k == "r" and v[1][0] == "O": walk_bad(v[1][1])
        def walk_bad(v):
            at = set(); bases(v, at)
            bad.update(at)
        for r, v in st.mem.items():
            walk(v)
            if r[0] == "O": walk_bad(r[1])
        for f in st.facts: walk_bad(f)
        sig = {}; flip = set()
        for a, o in occ.items():
            if a[1] in bad or a[2]: continue
            if len(o) == 0: continue
            g = 1 if o[0][1] > 0 else -1
            if g < 0: flip.add(a)
            sig.setdefault(tuple((i, c * g) for i, c in o), []).append(a)
        sub = {}
        for o, l in sig.items():
            if len(l) > 1:
                l.sort()
                for x in l[1:]: sub[x] = 0
                st.dom.pop(l[0], None)
        flip = {a for a in flip if a not in sub and a not in st.dom}
        if sub or flip:
            def rw(v):
                k = v[0]
                if k == "l":
                    return from_lin(v[1], {a: -c if a in flip else c for a, c in v[2] if a not in sub})
                if k == "a": return ("a", v[1], v[2], tuple(rw(x) for x in v[3]))
                if k == "p": return ("p", v[1], tuple((e, rw(x)) for e, x in v[2]))
                return v
            for r in list(st.mem): st.mem[r] = rw(st.mem[r])
            for x in sub: st.dom.pop(x, None)

BYTES = frozenset(range(256)); BOOLS = frozenset((0, 1))
def fresh_bool(st):
    s = fresh(); st.dom[s] = BOOLS
    return s
def subst(v, sub):
    k = v[0]
    if k == "s": return K(sub[v]) if v in sub and isinstance(sub[v], int) else v
    if k == "l":
        c, t = v[1], {}
        r = K(c)
        for a, n in v[2]:
            a2 = subst(a, sub)
            r = lin_add(r, lin_scale(a2, n))
        return r
    if k == "x":
        nv = tuple(subst(a, sub) if isinstance(a, tuple) and a and a[0] in NUMK else a for a in v)
        try:
            return K(x_eval(nv, None, None))
        except Exception:
            return nv
    return v

class Client:
    """Rule-specific hooks; default: nothing special."""
    ai = None; words = False
    def small_loop(self, fn, header): return False
    def maxstates(self, fn): return None
    def arith(self, st, e): return e
    def watch_store(self, root, path): return False
    def on_store(self, st, root, path, old, new, site): pass
    def on_loop_edge(self, ai, fn, depth, header, is_back, st): return st
    def on_switch(self, ai, fn, depth, t, v, st): return None
    def on_assert(self, ai, fn, b, t, st): pass
    def on_panic(self, ai, why, st, site): pass
    def on_elem(self, ai, st, loc, ref): pass
    def may_be_empty(self, ai, st, loc): return True
    def popped(self, ai, st, loc): return None
    def on_cast(self, st, v, fr, to, fn): pass
    def on_havoc(self, st, root, path): pass
    def on_event(self, st, kind, loc, n, val, site): pass
    def on_consume(self, st, hr, heads, n): pass
    def on_peek_unsafe(self, st, head, site): pass
    def on_peek_char(self, st, hr, site): pass
    def on_unchecked_index(self, st, args, site): pass
    abstract_source = True
    def intercept(self, ai, fr, args, st, depth, site): return None
    def inline(self, fn): return True
    def extra_key(self, st): return None
    def exit_key(self, st, rv): return None
    def err_key(self, ai, st, rv): return None
    def enter_key(self, key): return dict(key)
    def leave_key(self, outer, inner): return dict(inner)
