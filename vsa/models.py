"""Models of the standard library (and of the `Source` trait primitives) for absint.

Each model is a *contract* of a routine that is not part of the repository (or, for the
`Source` primitives, of a trait method whose provided bodies are checked separately by
the source-contract rule): it transforms abstract states, nothing is executed.
model() returns None ("not modelled") or a list of (state, return value)."""
import re, ast
from absint import (K, TRUE, FALSE, UNIT, fresh, fresh_bool, BYTES, BOOLS, lin_add, is_num, wrap, in_range,
                    const_diff, subst)

OPT = "core::option::Option"; RES = "core::result::Result"; CF = "core::ops::ControlFlow"
NONE = ("a", OPT, 0, ())
def some(v): return ("a", OPT, 1, (v,))
def ok(v): return ("a", RES, 0, (v,))
def err(v): return ("a", RES, 1, (v,))
HEADS = frozenset(range(257))
PEEK = 6

def enum_split(ai, s, v, adt, n=2):
    """split v: adt with n variants -> [(state, variant, payload(0) or None)]"""
    if v[0] == "a":
        if v[1] == adt or v[2] in range(n): return [(s, v[2], v[3][0] if v[3] else None)]
    base = v
    d = None
    if v[0] == "p":
        for i, x in v[2]:
            if i == ("disc",): d = x
        base = v[1]
    if base[0] != "s":
        base = fresh(); v = base
    if d is None: d = ("s", base[1], base[2] + (("disc",),))
    if d[0] == "s" and d not in s.dom: s.dom[d] = frozenset(range(n))
    out = []
    for t, s2 in ai.split(s, d, [(i, i) for i in range(n)], None, "isize"):
        if t is None: continue
        sub = ai.child(s2, v, ("v", t)) if v[0] != "s" else ("s", v[1], v[2] + (("v", t),))
        pay = ai.child(s2, sub, ("f", 0))
        out.append((s2, t, pay))
    return out

def deref_val(ai, s, v):
    """value behind a reference value (or the value itself for by-value encodings)"""
    if v[0] == "r": return ai.load(s, v[1], v[2])
    if v[0] in ("s", "p"):
        loc = ai.deref(s, v)
        return ai.load(s, *loc)
    return v

def strip(v): return v

# ---- Source heads ------------------------------------------------------------
def head_root(ai, s, ref):
    loc = ai.deref(s, ref) if ref[0] in ("r", "s", "p") else None
    if loc is None: return ("H", ("?",), ())
    root, path = loc
    # follow references stored in the location (e.g. `x: &mut S` re-borrowed)
    v = s.mem.get(root)
    if v is not None and path == () and v[0] == "r": root, path = v[1], v[2]
    return ("H", root, path)
def heads(ai, s, hr):
    v = s.mem.get(hr)
    if v is None or v[0] != "a":
        v = ("a", "head", 0, tuple(newhead(s) for _ in range(PEEK)))
        s.mem[hr] = v
    return v
def newhead(s):
    h = fresh(); s.dom[h] = HEADS
    return h
def head_at(ai, s, hr, n):
    h = heads(ai, s, hr)
    if n < len(h[3]): 
        return h[3][n]
    ext = list(h[3])
    while len(ext) <= n and len(ext) < 12: ext.append(newhead(s))
    if n < len(ext):
        s.mem[hr] = ("a", "head", 0, tuple(ext)); return ext[n]
    return newhead(s)
def zval(s, ai, h):
    """peekz value of a head"""
    if h[0] == "k": return K(0 if h[1] == 256 else h[1])
    d = s.dom.get(h)
    if isinstance(d, frozenset) and 256 not in d: return h
    return ("x", "z", "u8", h)
def consume(ai, s, hr, n):
    """advance the source by abstract value n"""
    h = heads(ai, s, hr)
    if n[0] == "k":
        k = n[1]
        ai.c.on_consume(s, hr, [head_at(ai, s, hr, i) for i in range(k)] if k < 12 else None, n)
        h = heads(ai, s, hr)
        rest = list(h[3][k:])
        while len(rest) < PEEK: rest.append(newhead(s))
        s.mem[hr] = ("a", "head", 0, tuple(rest[:max(PEEK, len(rest))]))
    else:
        ai.c.on_consume(s, hr, None, n)
        s.mem[hr] = ("a", "head", 0, tuple(newhead(s) for _ in range(PEEK)))
    if k_eof(s, h): pass
def k_eof(s, h): return False

SRC_TRAIT = "::Source"
def is_source(fr):
    t = fr.get("trait")
    return t is not None and (t == "parsing::source::Source" or t.endswith("::parsing::source::Source") or t.endswith("::parsing::Source"))

def source_model(ai, fr, args, s, depth, site):
    n = fr["name"]
    if fr.get("resolved") and not ai.c.abstract_source: return None
    if n in ("peekz", "peek_unsafe"):
        i = ai.simplify(s, args[1])
        hr = head_root(ai, s, args[0])
        if i[0] == "k":
            h = head_at(ai, s, hr, i[1])
            if n == "peek_unsafe":
                ai.c.on_peek_unsafe(s, h, site)
            return [(s, zval(s, ai, h))]
        r = fresh(); s.dom[r] = BYTES
        return [(s, r)]
    if n == "peek_checked":
        i = ai.simplify(s, args[1])
        hr = head_root(ai, s, args[0])
        if i[0] != "k": return [(s, fresh())]
        h = head_at(ai, s, hr, i[1])
        out = []
        for t, s2 in ai.split(s, h, [(256, "eof")], "more", "head"):
            if t == "eof":
                # nothing follows the end of input
                out.append((s2, NONE))
            else: out.append((s2, some(h)))
        return out
    if n == "buf_is_empty":
        hr = head_root(ai, s, args[0])
        return [(s, ai.compare(s, "Eq", head_at(ai, s, hr, 0), K(256), "head"))]
    if n == "peek_char":
        ai.c.on_peek_char(s, head_root(ai, s, args[0]), site)
        return [(s, fresh())]
    if n == "buf_max_len":
        return [(s, ("s", "bufmax", ()))]
    if n == "skip":
        hr = head_root(ai, s, args[0])
        consume(ai, s, hr, ai.simplify(s, args[1]))
        return [(s, UNIT)]
    if n == "push_non_breakz_chr":
        hr = head_root(ai, s, args[0])
        k = fresh()
        consume(ai, s, hr, k)
        s.dom[head_at(ai, s, hr, 0)] = frozenset((10, 13, 256))      # contract: stops at a break or at the end (source rule)
        vec_grow(ai, s, args[1], k, site)
        return [(s, UNIT)]
    if n == "skip_ws_to_eol":
        g = ai.p.one("parsing::source::shared_skip_ws_to_eol", site[0].crate) if ai.p.find("parsing::source::shared_skip_ws_to_eol", site[0].crate) else None
        if g is None: return None
        return ai.call_fn(g, [args[0], args[1], K(0), FALSE, args[2]], s, depth)
    # provided methods: analyse the trait's default body
    g = ai.p.get(site[0].crate, "parsing::source::Source::" + n)
    if g is not None: return ai.call_fn(g, args, s, depth)
    return None

# ---- containers ----------------------------------------------------------------
def cont_loc(ai, s, v):
    if v[0] == "r": return v[1], v[2]
    if v[0] in ("s", "p"): return ai.deref(s, v)
    return None
def cont_val(ai, s, v):
    l = cont_loc(ai, s, v)
    if l is None: return v if v[0] in ("str", "a") else fresh()
    return ai.load(s, *l)
def seq(n, w=None): return ("a", "seq", 0, (n,)) if w is None else ("a", "seq", 0, (K(0),)) if not w else ("a", "seq", 0, (n, ("a", "w", 0, tuple(w))))
# optional content of byte sequences: items are byte values, ("a","utf8",0,(char,)), or opaque runs
def word(ai, s, x):
    if x[0] == "r": x = ai.load(s, x[1], x[2])
    if x[0] == "a" and x[1] == "seq":
        if len(x[3]) > 1 and x[3][1][0] == "a" and x[3][1][1] == "w": return x[3][1][3]
        return () if x[3][0] == K(0) else None
    if x[0] == "a" and x[1] == "array": return x[3]
    if x[0] == "str": return tuple(K(b) for b in x[1])
    if x[0] == "x" and x[1] == "to_string": return utf8(x[3])
    return None
def utf8(c):
    if c[0] == "k":
        try: return tuple(K(b) for b in chr(c[1]).encode())
        except (ValueError, OverflowError): return None
    return (("a", "utf8", 0, (c,)),)
def new_word(ai, s, cur, what, val):
    w = word(ai, s, cur)
    if w is None or val is None: return None
    if what == "push": return w + (val,)
    if what == "extend":
        v = cont_val(ai, s, val) if val[0] in ("r", "s", "p") else val
        v = word(ai, s, v)
        return None if v is None else w + v
    return None
def clen(ai, s, v):
    """length of the container behind reference v"""
    if v[0] == "str": return K(len(v[1]))
    x = cont_val(ai, s, v)
    if x[0] == "r": x = ai.load(s, x[1], x[2])
    return ai.simplify(s, ai.content_len(s, x))
def vec_grow(ai, s, v, n, site, what="grow", val=None):
    l = cont_loc(ai, s, v)
    if l is None or l[0][0] == "C": return
    cur = ai.load(s, *l); w = None
    if ai.c.words:
        w = new_word(ai, s, cur, what, val)
        if w is not None and len(w) > 24: w = None
    ai.store(s, l[0], l[1], seq(lin_add(ai.content_len(s, cur), n), w))
    ai.c.on_event(s, what, l, n, val, site)
def vec_set(ai, s, v, n, site, what):
    l = cont_loc(ai, s, v)
    if l is None or l[0][0] == "C": return
    ai.store(s, l[0], l[1], seq(n))
    ai.c.on_event(s, what, l, n, None, site)
def split_empty(ai, s, v):
    """-> [(state, is_empty)]"""
    if ai.c.words:
        w = word(ai, s, cont_val(ai, s, v))
        if w is not None: return [(s, not w)]
    n = clen(ai, s, v)
    c = ai.compare(s, "Eq", n, K(0), "usize")
    out = []
    for t, s2 in ai.split(s, c, [(1, True)], False, "bool"):
        out.append((s2, t))
    return out
def elem_ref(s):
    return ("r", ("O", fresh()), ())

def last(path):
    return path.rsplit("::", 1)[-1]

def model(ai, fr, args, s, depth, site, argtys):
    p = fr["path"]; n = fr.get("name") or last(p); tr = fr.get("trait") or ""
    if is_source(fr):
        r = source_model(ai, fr, args, s, depth, site)
        if r is not None: return r
    if fr.get("local") and not tr:
        return None
    if tr.startswith("core::") or tr.startswith("alloc::") or not tr:
        r = std(ai, fr, p, n, tr, args, s, depth, site, argtys)
        return r
    return None

def panic(ai, fr, s, site, why):
    ai.c.on_panic(ai, why, s, site)
    return []

def std(ai, fr, p, n, tr, args, s, depth, site, argtys):
    A = args
    if p.startswith("core::panicking::") :
        if n in ("todo_default_msg", "unreachable_default_msg") or p.endswith("_default_msg"): return [(s, fresh())]
        return panic(ai, fr, s, site, n or last(p))
    # ---- Option / Result
    if p.startswith("core::option::Option::") or p.startswith("core::result::Result::"):
        isres = p.startswith("core::result")
        adt = RES if isres else OPT
        GOOD = 0 if isres else 1
        byref = n in ("is_some", "is_none", "is_ok", "is_err", "as_ref", "as_mut", "take", "as_deref", "get_or_insert_with", "replace", "insert", "as_deref_mut")
        ref = A[0]
        v = deref_val(ai, s, ref) if byref else A[0]
        out = []
        if n == "take":
            loc = ai.deref(s, ref) if ref[0] in ("r", "s", "p") else None
            if loc:
                ai.store(s, loc[0], loc[1], NONE)
            return [(s, v)]
        if n in ("get_or_insert_with", "replace", "insert"): return None
        for s2, t, pay in enum_split(ai, s, v, adt):
            good = t == GOOD
            if n in ("unwrap", "expect"):
                if good: out.append((s2, pay))
                else: panic(ai, fr, s2, site, n)
            elif n in ("unwrap_err", "expect_err"):
                if not good: out.append((s2, pay))
                else: panic(ai, fr, s2, site, n)
            elif n in ("unwrap_unchecked",):
                if good: out.append((s2, pay))
            elif n in ("is_some", "is_ok"): out.append((s2, K(int(good))))
            elif n in ("is_none", "is_err"): out.append((s2, K(int(not good))))
            elif n in ("is_some_and", "is_ok_and"):
                if good: out += ai.call_value(A[1], [pay], s2, depth, site)
                else: out.append((s2, FALSE))
            elif n == "is_none_or":
                if good: out += ai.call_value(A[1], [pay], s2, depth, site)
                else: out.append((s2, TRUE))
            elif n == "ok_or": out.append((s2, ok(pay) if good else err(A[1])))
            elif n == "ok_or_else":
                if good: out.append((s2, ok(pay)))
                else: out += [(x, err(y)) for x, y in ai.call_value(A[1], [], s2, depth, site)]
            elif n == "ok": out.append((s2, some(pay) if good else NONE))
            elif n == "err": out.append((s2, NONE if good else some(pay)))
            elif n == "map":
                if good: out += [(x, (ok(y) if isres else some(y))) for x, y in ai.call_value(A[1], [pay], s2, depth, site)]
                else: out.append((s2, err(pay) if isres else NONE))
            elif n == "map_err":
                if good: out.append((s2, ok(pay)))
                else: out += [(x, err(y)) for x, y in ai.call_value(A[1], [pay], s2, depth, site)]
            elif n == "and_then":
                if good: out += ai.call_value(A[1], [pay], s2, depth, site)
                else: out.append((s2, err(pay) if isres else NONE))
            elif n == "or_else":
                if good: out.append((s2, ok(pay) if isres else some(pay)))
                else: out += ai.call_value(A[1], [pay] if isres else [], s2, depth, site)
            elif n == "or": out.append((s2, (ok(pay) if isres else some(pay)) if good else A[1]))
            elif n == "filter":
                if not good: out.append((s2, NONE))
                else:
                    root = ("O", fresh()); s2.mem[root] = pay
                    for x, y in ai.call_value(A[1], [("r", root, ())], s2, depth, site):
                        for t2, x2 in ai.split(x, y, [(1, True)], False, "bool"):
                            out.append((x2, some(pay) if t2 else NONE))
            elif n == "map_or":
                if good: out += ai.call_value(A[2], [pay], s2, depth, site)
                else: out.append((s2, A[1]))
            elif n == "map_or_else":
                if good: out += ai.call_value(A[2], [pay], s2, depth, site)
                else: out += ai.call_value(A[1], [pay] if isres else [], s2, depth, site)
            elif n == "unwrap_or": out.append((s2, pay if good else A[1]))
            elif n == "unwrap_or_else":
                if good: out.append((s2, pay))
                else: out += ai.call_value(A[1], [pay] if isres else [], s2, depth, site)
            elif n == "unwrap_or_default": 
                out.append((s2, pay if good else fresh()))
            elif n in ("as_ref", "as_mut", "as_deref", "as_deref_mut"):
                if good:
                    loc = ai.deref(s2, ref) if ref[0] in ("r", "s", "p") else None
                    if loc and loc[0][0] != "C":
                        inner = ("r", loc[0], loc[1] + (("v", GOOD), ("f", 0)))
                        if n.startswith("as_deref"): inner = deref_str(ai, s2, inner)
                    else:
                        root = ("C", pay); s2.mem[root] = pay; inner = ("r", root, ())
                    out.append((s2, ok(inner) if isres else some(inner)))
                else: out.append((s2, err(pay) if isres else NONE))
            elif n in ("cloned", "copied"):
                if good: out.append((s2, some(deref_val(ai, s2, pay))))
                else: out.append((s2, NONE))
            elif n == "flatten":
                out.append((s2, pay if good else NONE))
            else: return None
        return out
    if tr.endswith("::Try") or p.endswith("ops::Try::branch"):
        if n == "branch":
            isopt = "option::Option" in (fr.get("self_ty") or "")
            adt = OPT if isopt else RES
            out = []
            for s2, t, pay in enum_split(ai, s, A[0], adt):
                good = (t == 1) if isopt else (t == 0)
                if good: out.append((s2, ("a", CF, 0, (pay,))))
                else: out.append((s2, ("a", CF, 1, (("a", adt, t, (pay,) if pay is not None and not isopt else ()),))))
            return out
    if p.endswith("FromResidual::from_residual"):
        v = A[0]
        if v[0] == "a":
            if v[1] == RES: return [(s, err(v[3][0] if v[3] else fresh()))]
            return [(s, v)]
        isopt = "option::Option" in (fr.get("self_ty") or "")
        return [(s, NONE if isopt else err(fresh()))]
    # ---- references / conversions
    if n in ("deref", "deref_mut", "as_ref", "as_mut", "borrow", "borrow_mut", "as_str", "as_bytes", "as_slice", "as_mut_slice", "as_mut_str", "as_ptr", "by_ref") and len(A) == 1 and (
            tr in ("core::ops::Deref", "core::ops::DerefMut", "core::convert::AsRef", "core::convert::AsMut", "core::borrow::Borrow") or not tr or n == "by_ref"):
        return [(s, deref_str(ai, s, A[0]))]
    if p.endswith("::index") or p.endswith("::index_mut"):
        st_ = fr.get("self_ty") or ""
        if (st_.startswith("[") or "Vec<" in st_ or st_ in ("str", "alloc::string::String")) and not fr.get("resolved_local"):
            idx = A[1]; L = clen(ai, s, A[0])
            if idx[0] == "a" and "RangeFull" in idx[1]: return [(s, A[0])]
            if idx[0] == "a" and "::Range" in idx[1] and idx[3]:
                kind = idx[1].rsplit("::", 1)[-1]
                if kind == "Range": lo, hi = idx[3][0], idx[3][1]
                elif kind == "RangeFrom": lo, hi = idx[3][0], L
                elif kind == "RangeTo": lo, hi = K(0), idx[3][0]
                else: lo, hi = idx[3][0], None
                for (a, b) in ((hi, L), (lo, hi)):
                    if a is None or b is None or not (is_num(a) and is_num(b)):
                        ai.c.on_panic(ai, "slice_index", s, site); continue
                    c = ai.compare(s, "Lt", b, a, "usize")
                    bad = ai.assume(s, c, True)
                    if bad is not None: ai.c.on_panic(ai, "slice_index", bad, site)
                    good = ai.assume(s, c, False)
                    if good is None: return []
                    s = good
                if st_ in ("str", "alloc::string::String"): ai.c.on_panic(ai, "str_boundary", s, site)
                r = ("O", fresh())
                if hi is not None and is_num(hi) and is_num(lo): s.mem[r] = seq(lin_add(hi, lo, -1))
                return [(s, ("r", r, ()))]
            if is_num(idx):
                c = ai.compare(s, "Lt", idx, L, "usize")
                bad = ai.assume(s, c, False)
                if bad is not None: ai.c.on_panic(ai, "index", bad, site)
                good = ai.assume(s, c, True)
                return [(good, elem_ref(good))] if good is not None else []
            ai.c.on_panic(ai, "index", s, site)
            return [(s, elem_ref(s))]
    if n == "clone" and tr == "core::clone::Clone":
        return [(s, deref_val(ai, s, A[0]))]
    if n == "encode_utf8" and ai.c.words and utf8(A[0]) is not None: return [(s, ("r", ("C", seq(fresh(), utf8(A[0]))), ()))]
    if n in ("to_owned", "into", "from", "into_owned", "into_boxed_str", "must_use", "identity", "into_string", "into_bytes", "to_vec", "to_string", "from_utf8_unchecked", "from_utf8_unchecked_mut") or p == "core::hint::must_use":
        if n in ("to_owned", "to_vec", "to_string"):
            v = A[0]
            x = deref_val(ai, s, v) if v[0] == "r" else v
            if n == "to_string" and not (x[0] == "str"): 
                if ai.c.words and is_num(x): return [(s, seq(fresh(), utf8(x)) if utf8(x) else fresh())]
                if x[0] in ("k", "s", "x", "l"): return [(s, ("x", "to_string", "str", x))] if x[0] != "k" else [(s, fresh())]
                return [(s, fresh())]
            return [(s, x)]
        if tr and n in ("into", "from"):
            ty = fr.get("full", "")
            if fr.get("resolved_local"): return None
            res = fr.get("resolved") or ""
            if n == "into" and "as core::convert::Into" in res:
                return into_model(ai, fr, A, s, depth, site, argtys)
            if "option::Option" in (fr.get("self_ty") or ""): return [(s, some(A[0]))]
            return [(s, A[0])]
        return [(s, A[0])]
    if n in ("eq", "ne") and tr == "core::cmp::PartialEq":
        r = ai.eqval(s, A[0], A[1])
        return [(s, r if n == "eq" else ai.bnot(r))]
    if n in ("lt", "le", "gt", "ge") and tr == "core::cmp::PartialOrd":
        a = deref_val(ai, s, A[0]); b = deref_val(ai, s, A[1])
        if is_num(a) and is_num(b): return [(s, ai.compare(s, n.capitalize(), a, b, None))]
        return [(s, fresh_bool(s))]
    if n in ("max", "min") and tr == "core::cmp::Ord":
        c = ai.compare(s, "Lt", A[0], A[1], fr.get("self_ty"))
        out = []
        for t, s2 in ai.split(s, c, [(1, True)], False, "bool"):
            out.append((s2, A[1] if (t == (n == "max")) else A[0]))
        return out
    if n == "default" and tr == "core::default::Default" and not fr.get("resolved_local"):
        ty = fr.get("self_ty") or ""
        if ty == "bool" or ty in ("u8", "u16", "u32", "u64", "usize", "i64", "i32"): return [(s, K(0))]
        if "Vec<" in ty or "String" in ty: return [(s, seq(K(0)))]
        if "option::Option" in ty: return [(s, NONE)]
        if ty.endswith("str") or re.match(r"alloc::borrow::Cow<(\'\w+, )?str>$", ty): return [(s, ("str", b""))]
        return [(s, fresh())]
    # ---- u8 / char predicates
    if p.startswith("core::num::<impl u8>::is_ascii") or p.startswith("core::char::methods::<impl char>::is_ascii"):
        v = deref_val(ai, s, A[0]) if A[0][0] == "r" else A[0]
        st_ = ASCII.get(n)
        if st_ is None or not is_num(v): return [(s, fresh_bool(s))]
        if v[0] == "k": return [(s, K(int(v[1] in st_)))]
        return [(s, ("x", "in", "bool", v, st_))]
    if p == "core::char::methods::<impl char>::from_u32" or p == "core::char::from_u32":
        v = A[0]
        if v[0] == "k":
            okc = v[1] < 0x110000 and not (0xd800 <= v[1] < 0xe000)
            return [(s, some(v) if okc else NONE)]
        s2 = s.copy()
        return [(s, some(v)), (s2, NONE)]
    if p.startswith("core::num::<impl "):
        ty = p[len("core::num::<impl "):].split(">")[0]
        if n in ("checked_add", "checked_sub", "checked_mul"):
            op = {"checked_add": "AddWithOverflow", "checked_sub": "SubWithOverflow", "checked_mul": "MulWithOverflow"}[n]
            r = ai.binop(s, op, A[0], A[1], ty)
            out = []
            for t, s2 in ai.split(s, r[3][1], [(1, True)], False, "bool"):
                out.append((s2, NONE if t else some(r[3][0])))
            return out
        if n in ("wrapping_add", "wrapping_sub", "wrapping_mul"):
            op = {"wrapping_add": "Add", "wrapping_sub": "Sub", "wrapping_mul": "Mul"}[n]
            return [(s, ai.binop(s, op, A[0], A[1], ty))]
        if n == "saturating_sub":
            c = ai.compare(s, "Lt", A[0], A[1], ty)
            return [(s2, K(0) if t else lin_add(A[0], A[1], -1)) for t, s2 in ai.split(s, c, [(1, True)], False, "bool")]
        if n == "saturating_add":
            return [(s, ai.binop(s, "Add", A[0], A[1], ty))]
        if n in ("from_str_radix",): return [(s, fresh())]
        return None
    # ---- containers
    if p.startswith("alloc::vec::Vec") or p.startswith("alloc::collections::VecDeque") or p.startswith("alloc::collections::vec_deque") or \
            p.startswith("alloc::string::String") or p.startswith("core::slice::<impl [T]>") or p.startswith("alloc::slice::<impl [T]>") or p.startswith("core::str::<impl str>") or \
            p.startswith("alloc::collections::BTreeMap") or p.startswith("alloc::collections::btree_map::BTreeMap") or p.startswith("alloc::collections::LinkedList") or tr == "core::iter::Extend":
        return container(ai, fr, p, n, A, s, depth, site)
    if n == "extend": return container(ai, fr, p, n, A, s, depth, site)
    # ---- iteration
    if tr in ("core::iter::IntoIterator", "core::iter::Iterator", "core::iter::DoubleEndedIterator"):
        return iteration(ai, fr, p, n, A, s, depth, site)
    # ---- mem
    if p == "core::mem::take":
        l = cont_loc(ai, s, A[0])
        if l is None: return [(s, fresh())]
        v = ai.load(s, *l)
        t = fr.get("args") or []
        nv = fresh()
        ty = str(t)
        if "Vec<" in ty or "String" in ty: nv = seq(K(0))
        elif "Option<" in ty: nv = NONE
        elif "bool" in ty: nv = FALSE
        ai.store(s, l[0], l[1], nv)
        return [(s, v)]
    if p == "core::mem::replace":
        l = cont_loc(ai, s, A[0])
        if l is None: return [(s, fresh())]
        v = ai.load(s, *l)
        if ai.c.watch_store(l[0], l[1]): ai.c.on_store(s, l[0], l[1], v, A[1], (site[0], site[2]))
        ai.store(s, l[0], l[1], A[1])
        return [(s, v)]
    if p == "core::mem::drop": return [(s, UNIT)]
    if p.startswith("core::fmt::") or p.startswith("alloc::fmt::"): return [(s, fresh())]
    if tr in ("core::ops::Fn", "core::ops::FnMut", "core::ops::FnOnce"):
        a = A[1]
        xs = list(a[3]) if a[0] == "a" else [a]
        return ai.call_value(A[0], xs, s, depth, site)
    if p == "alloc::boxed::Box::<T>::new": return [(s, A[0])]
    return None

def into_model(ai, fr, A, s, depth, site, argtys):
    # Into::into -> From impl; local From impls are resolved by type
    full = fr.get("full", "")
    args = fr.get("args") or []
    if len(args) >= 2:
        src, dst = args[0], args[1]
        for im in ai.p.impls:
            if (im.get("trait_full") or "").startswith("core::convert::From<") and im.get("crate") == site[0].crate:
                if ty_head(im["self"]) == ty_head(dst) and ty_head(im["trait_full"][len("core::convert::From<"):-1]) == ty_head(src):
                    for it in im["items"]:
                        g = ai.p.get(site[0].crate, it if isinstance(it, str) else it[0])
                        if g is not None: return ai.call_fn(g, A, s, depth)
        if ty_head(dst).startswith("core::option::Option"): return [(s, some(A[0]))]
    return [(s, A[0])]
def ty_head(t): return t.split("<", 1)[0]

def deref_str(ai, s, v):
    """&String -> &str, &Vec -> &[T], &Cow<str> -> &str, &Box<T> -> &T"""
    if v[0] == "r":
        x = ai.load(s, v[1], v[2])
        if x[0] == "str": return x
        if x[0] == "a" and (x[1].endswith("borrow::Cow")):
            y = x[3][0] if x[3] else fresh()
            if y[0] in ("str", "s", "r"): return y
            if y[0] == "a" and y[1] in ("seq", "array"):
                s.mem[("C", y)] = y; return ("r", ("C", y), ())
            return fresh()
        if x[0] == "r": return x
        return v
    return v

A_ = lambda r: frozenset(r)
DIG = A_(range(48, 58)); UP = A_(range(65, 91)); LO = A_(range(97, 123))
ASCII = {"is_ascii_digit": DIG, "is_ascii_hexdigit": DIG | A_(range(65, 71)) | A_(range(97, 103)),
         "is_ascii_alphabetic": UP | LO, "is_ascii_alphanumeric": DIG | UP | LO, "is_ascii_uppercase": UP,
         "is_ascii_lowercase": LO, "is_ascii": A_(range(128)), "is_ascii_whitespace": A_((32, 9, 10, 12, 13)),
         "is_ascii_control": A_(list(range(32)) + [127]),
         "is_ascii_graphic": A_(range(33, 127)),
         "is_ascii_punctuation": A_([c for c in range(33, 127) if not (48 <= c < 58 or 65 <= c < 91 or 97 <= c < 123)])}

def container(ai, fr, p, n, A, s, depth, site):
    if n in ("new",): return [(s, seq(K(0)))]
    if n == "with_capacity": return [(s, seq(K(0)))]
    if n in ("push", "push_back", "push_front"):
        isstr = p.startswith("alloc::string::String")
        if isstr:
            k = fresh()
            if ai.c.words and utf8(A[1]) is not None: vec_grow(ai, s, A[0], k, site, "extend", ("a", "array", 0, utf8(A[1])))
            else: vec_grow(ai, s, A[0], k, site, "push", A[1])
        else: vec_grow(ai, s, A[0], K(1), site, "push", A[1])
        return [(s, UNIT)]
    if n == "insert":
        if "BTreeMap" in p:
            l = cont_loc(ai, s, A[0])
            if l: ai.c.on_event(s, "map_insert", l, A[1], A[2], site); ai.store(s, l[0], l[1], fresh())
            return [(s, fresh())]
        L = clen(ai, s, A[0])
        if is_num(A[1]):
            c = ai.compare(s, "Lt", L, A[1], "usize")
            bad = ai.assume(s, c, True)
            if bad is not None: ai.c.on_panic(ai, "insert_index", bad, site)
            s = ai.assume(s, c, False)
            if s is None: return []
        vec_grow(ai, s, A[0], K(1), site, "insert", (A[1], A[2]))
        return [(s, UNIT)]
    if n in ("pop", "pop_back", "pop_front"):
        out = []
        for s2, e in split_empty(ai, s, A[0]):
            if e:
                l = cont_loc(ai, s2, A[0])
                if l is None or ai.c.may_be_empty(ai, s2, l): out.append((s2, NONE))
            else:
                l = cont_loc(ai, s2, A[0])
                pv = (ai.c.popped(ai, s2, l) if l and n in ("pop", "pop_back") else None) or fresh()
                vec_grow(ai, s2, A[0], K(-1), site, "pop", pv)
                out.append((s2, some(pv)))
        return out
    if n in ("last", "last_mut", "first", "first_mut", "back", "back_mut", "front", "front_mut"):
        out = []
        for s2, e in split_empty(ai, s, A[0]):
            r = elem_ref(s2); l = cont_loc(ai, s2, A[0])
            if e and l is not None and not ai.c.may_be_empty(ai, s2, l): continue
            if not e:
                if l and l[0][0] != "C": r = ai.c.on_elem(ai, s2, l, r if n.startswith(("last", "back")) else None) or r
            out.append((s2, NONE if e else some(r)))
        return out
    if n == "len" and ai.c.words and word(ai, s, cont_val(ai, s, A[0])) is not None:
        w = word(ai, s, cont_val(ai, s, A[0])); L = clen(ai, s, A[0])
        if all(x[0] != "a" for x in w): return [(s, K(len(w)))]
        s2 = ai.assume(s, ai.compare(s, "Lt", L, K(1), "usize"), False)
        return [(s2, L)] if s2 is not None else [(s, fresh())]
    if n == "len": return [(s, clen(ai, s, A[0]))]
    if n == "is_empty" and ai.c.words and word(ai, s, cont_val(ai, s, A[0])) is not None: return [(s, K(int(not word(ai, s, cont_val(ai, s, A[0])))))]
    if n == "is_empty":
        return [(s, ai.compare(s, "Eq", clen(ai, s, A[0]), K(0), "usize"))]
    if n == "clear":
        if "BTreeMap" in p:
            l = cont_loc(ai, s, A[0])
            if l: ai.c.on_event(s, "map_clear", l, K(0), None, site); ai.store(s, l[0], l[1], fresh())
            return [(s, UNIT)]
        vec_set(ai, s, A[0], K(0), site, "clear"); return [(s, UNIT)]
    if n in ("extend_from_slice", "push_str", "extend", "append"):
        k = clen(ai, s, A[1]) if A[1][0] in ("r", "str", "s", "p") else fresh()
        vec_grow(ai, s, A[0], k, site, "extend", A[1])
        if n == "append" and ai.c.words: vec_set(ai, s, A[1], K(0), site, "clear")
        return [(s, UNIT)]
    if n in ("reserve", "shrink_to_fit", "reserve_exact"): return [(s, UNIT)]
    if n in ("as_bytes", "as_str", "as_slice", "as_mut_slice", "as_ptr", "as_mut_str", "as_mut_ptr"): return [(s, deref_str(ai, s, A[0]))]
    if n == "truncate":
        l = cont_loc(ai, s, A[0])
        if l: ai.store(s, l[0], l[1], fresh())
        return [(s, UNIT)]
    if n == "contains" and p.startswith("core::slice"):
        x = cont_val(ai, s, A[0]); e = deref_val(ai, s, A[1]) if A[1][0] == "r" else A[1]
        if x[0] == "r": x = ai.load(s, x[1], x[2])
        if x[0] == "a" and x[1] == "array" and all(y[0] == "k" for y in x[3]) and is_num(e):
            S = frozenset(y[1] for y in x[3])
            if e[0] == "k": return [(s, K(int(e[1] in S)))]
            return [(s, ("x", "in", "bool", e, S))]
        if x[0] == "str" and is_num(e): return [(s, ("x", "in", "bool", e, frozenset(x[1])))]
        return [(s, fresh_bool(s))]
    if n in ("get", "get_mut") and not "BTreeMap" in p:
        L = clen(ai, s, A[0])
        if is_num(A[1]):
            out = []
            for t, s2 in ai.split(s, ai.compare(s, "Lt", A[1], L, "usize"), [(1, True)], False, "bool"):
                out.append((s2, some(elem_ref(s2)) if t else NONE))
            return out
        return [(s, some(elem_ref(s))), (s.copy(), NONE)]
    if n in ("get_unchecked", "get_unchecked_mut"):
        ai.c.on_unchecked_index(s, A, site)
        return [(s, elem_ref(s))]
    if n in ("starts_with", "ends_with", "contains") and len(A) > 1 and "BTree" not in p:
        a0 = deref_val(ai, s, A[0]) if A[0][0] == "r" else A[0]; a1 = deref_val(ai, s, A[1]) if A[1][0] == "r" else A[1]
        if a0[0] == "str" and a1[0] in ("str", "k"):
            b = a1[1] if a1[0] == "str" else chr(a1[1]).encode() if p.startswith("core::str") else bytes([a1[1] & 255])
            return [(s, K(int({"starts_with": a0[1].startswith, "ends_with": a0[1].endswith, "contains": lambda x: x in a0[1]}[n](b))))]
    if n in ("starts_with", "ends_with", "contains", "contains_key"):
        if n in ("starts_with", "ends_with", "contains") and p.startswith("core::str") and A[0][0] in ("s",) and A[1][0] in ("str", "k"):
            return [(s, ("x", n, "bool", A[0], A[1]))]
        return [(s, fresh_bool(s))]
    if n in ("iter", "iter_mut", "into_iter", "drain", "chars", "bytes", "char_indices", "keys", "values", "lines", "windows", "chunks"):
        return [(s, ("a", "iter", 0, (K(1) if n != "into_iter" else K(0), itag(ai, s, A[0]))))]
    if n in ("from_utf8",): 
        return [(s, ok(A[0])), (s.copy(), err(fresh()))]
    if n == "from_utf8_unchecked":
        return [(s, A[0])]
    if n in ("to_vec", "to_owned"): return [(s, deref_val(ai, s, A[0]))]
    if n == "get" and "BTreeMap" in p:
        return [(s, some(elem_ref(s))), (s.copy(), NONE)]
    return None

def st_name(fr): return fr.get('self_ty') or ''
def itag(ai, s, v):
    """what an iterator iterates over (its identity only)"""
    if v[0] == "a" and v[1] == "iter": return v[3][1]
    l = cont_loc(ai, s, v)
    return ("str", repr(l).encode()) if l else UNIT
ITER_RANGE = ("core::ops::Range", "core::ops::RangeInclusive")
def iteration(ai, fr, p, n, A, s, depth, site):
    if fr.get("resolved_local"): return None
    if n == "into_iter":
        v = A[0]
        if v[0] == "a" and (v[1] in ITER_RANGE or v[1] == "iter"): return [(s, v)]
        st_ = fr.get("self_ty") or ""
        return [(s, ("a", "iter", 0, (K(1) if st_.startswith("&") else K(0), itag(ai, s, v) if st_.startswith("&") else UNIT)))]
    if n in ("next", "next_back", "nth"):
        l = cont_loc(ai, s, A[0])
        if l is None: return None
        v = ai.load(s, *l)
        if v[0] == "a" and v[1] == "core::ops::Range":
            lo, hi = v[3]
            c = ai.compare(s, "Lt", lo, hi, "usize")
            out = []
            for t, s2 in ai.split(s, c, [(1, True)], False, "bool"):
                if t:
                    ai.store(s2, l[0], l[1], ("a", v[1], 0, (lin_add(lo, K(1)), hi)))
                    ai.c.on_event(s2, "iter", l, K(1), None, site)
                    out.append((s2, some(lo)))
                else: out.append((s2, NONE))
            return out
        st_ = fr.get("self_ty") or ""
        if v[0] == "a" and v[1] == "iter" or st_.startswith("core::") or st_.startswith("alloc::") :
            byref = v[0] == "a" and v[1] == "iter" and v[3][0] == K(1) and not ("Bytes" in st_ or "Chars" in st_ or "CharIndices" in st_)
            s2 = s.copy()
            e = elem_ref(s) if byref else fresh()
            ai.c.on_event(s, "iter", l, K(1), e, site)
            ai.c.on_event(s2, "iterend", l, K(1), None, site)
            return [(s, some(e)), (s2, NONE)]
        return None
    if n == "rev" and A[0][0] == "a" and A[0][1] == "iter": return [(s, A[0])]
    if n in ("map", "filter", "enumerate", "rev", "copied", "cloned", "skip", "take", "zip", "chain", "peekable", "filter_map", "step_by", "take_while", "skip_while"):
        return [(s, ("a", "iter", 0, (K(0), UNIT)))]
    if n in ("any", "all"):
        l = cont_loc(ai, s, A[0]); v = ai.load(s, *l) if l else UNIT
        if v[0] == "a" and v[1] == "iter" and v[3][0] == K(1) and len(A) > 1 and not any(x in st_name(fr) for x in ("Bytes", "Chars", "CharIndices", "Adapter")):
            # no element left; or some element decides, or (like every element before) it does not and none is left
            out = []; s0 = s.copy(); s1 = s
            ai.c.on_event(s0, "iterend", l, K(1), None, site); out.append((s0, K(int(n == "all"))))
            e = elem_ref(s1)
            ai.c.on_event(s1, "iter", l, K(1), e, site)
            for s2, rv in ai.call_value(A[1], [e], s1, depth, site):
                for t, s3 in ai.split(s2, rv, [(1, True)], False, "bool"):
                    if t == (n == "any"): ai.c.on_event(s3, "iterleft", l, K(0), None, site); out.append((s3, K(int(t))))
                    else: ai.c.on_event(s3, "iterend", l, K(1), None, site); out.append((s3, K(int(t))))
            return out
        return [(s, fresh_bool(s))]
    if n in ("position", "rposition") and (fr.get("trait") or "").endswith("Iterator"):
        l = cont_loc(ai, s, A[0]); v = ai.load(s, *l) if l else UNIT
        if v[0] == "a" and v[1] == "iter" and v[3][1][0] == "str":
            root, path = ast.literal_eval(v[3][1][1].decode())
            L = ai.content_len(s, ai.load(s, root, path))
            s2 = s.copy(); i = fresh()
            good = ai.assume(s, ai.compare(s, "Lt", i, L, "usize"), True)
            return [(s2, NONE)] + ([(good, some(i))] if good is not None else [])
        s2 = s.copy(); return [(s2, NONE), (s, some(fresh()))]
    if n in ("position", "find", "count", "last", "max", "min", "sum", "fold", "collect"):
        return [(s, fresh())]
    return None
