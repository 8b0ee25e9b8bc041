"""Typed access to a node answers for exactly the type the node has.

Rule: every accessor, kind test, conversion, clone, comparison and index operation of every node type of the library is
interpreted, from the type-checked program, once for each kind of node (bad, null, string, boolean, float, integer,
sequence, mapping, tagged, alias) with symbolic contents, and its outcome is compared with a table: the accessor of a
kind yields the node's own payload for that kind and nothing for every other kind; kind tests agree with the kind;
conversions into a node preserve the value; clones and comparisons respect kind and payload; indexing yields the element
at that position or the value (never the key) of the entry whose key equals the index."""
from absint import *
import models, re
from models import NONE, some, ok, err, OPT, RES
LEVEL = "other"
P = ("s", ("payload", 0), ()); T = ("s", ("tagof", 0), ()); T2 = ("s", ("tagof", 1), ()); Q = ("s", ("payload", 1), ()); ARG = ("s", ("arg", 0), ())
NODE = ("O", ("s", "node", ())); OTHER = ("O", ("s", "other", ())); AROOT = ("O", ("s", "argument", ()))
KINDS = ("bad", "null", "string", "bool", "float", "int", "seq", "map", "tagged", "alias")
NT = {"bad": "Bad", "tagged": "Bad", "null": "Null", "string": "String", "bool": "Bool", "float": "Floating", "int": "Integer", "seq": "Sequence", "map": "Mapping", "alias": "Alias"}
SC = {"null": "Null", "string": "String", "bool": "Bool", "float": "FloatingPoint", "int": "Integer"}
GET = {"bool": "bool", "i64": "int", "f64": "float", "str": "string", "string": "string", "sequence": "seq", "mapping": "map"}
IS = {"is_bad_value": ("bad", "tagged"), "is_null": ("null",), "is_string": ("string",), "is_bool": ("bool",), "is_floating_point": ("float",), "is_integer": ("int",),
      "is_alias": ("alias",), "is_collection": ("seq", "map"), "is_mapping": ("map",), "is_sequence": ("seq",)}
class Unknown(Exception): pass
class AClient(Client):
    partial = False
    def __init__(self, rule): self.r = rule; self.empty = []; self.find = []
    def intercept(self, ai, fr, args, st, depth, site):
        tr = fr.get("trait") or ""; n = fr.get("name") or fr["path"].rsplit("::", 1)[-1]; p = fr["path"]
        def val(v):
            while v[0] == "r": v = ai.load(st, v[1], v[2])
            return v
        def last(v):
            """the reference to the value itself behind references to references"""
            while v[0] == "r":
                w = ai.load(st, v[1], v[2])
                if w[0] != "r": break
                v = w
            return v
        def elem(lv):
            r = ("O", ("s", "element", ())); st.mem[r] = ("a", "elem", 0, (lv[0], lv[1])); return ("r", r, ())
        lv = [val(a) for a in args]
        if n == "is_collection_empty" or n == "is_empty" and lv and lv[0] in (P, Q):
            s = ("s", ("empty", 0), ()); st.dom.setdefault(s, frozenset((0, 1))); return [(st, s)]
        if n == "len" and lv and lv[0] in (P, Q): return [(st, ("s", ("len", 0), ()))]
        if lv and lv[0] in (P, Q, T, T2, ARG):
            if n in ("clone", "into_owned", "to_owned", "to_string", "as_owned", "cast_signed", "copied") : return [(st, lv[0])]
            if n in ("as_ref", "as_mut", "as_mut_val", "mut_str", "deref", "deref_mut", "borrow", "borrow_mut", "as_str", "as_mut_str", "to_mut"): return [(st, args[0])]
            if n in ("into", "from", "new"): return [(st, args[0] if args[0][0] != "r" or n == "new" else lv[0])]
            if n in ("eq", "ne") and len(lv) == 2 and lv[1][0] == "s":
                s = ("s", ("same", 0), ()); st.dom.setdefault(s, frozenset((0, 1)))
                if lv[0] == lv[1]: return [(st, K(n == "eq"))]
                if {lv[0], lv[1]} == {P, Q}: return [(st, s if n == "eq" else ("x", "Not", "bool", s))]
                if {lv[0], lv[1]} == {T, T2}:
                    s = ("s", ("sametag", 0), ()); st.dom.setdefault(s, frozenset((0, 1)))
                    return [(st, s if n == "eq" else ("x", "Not", "bool", s))]
            if n in ("iter", "iter_mut", "into_iter"): return [(st, ("a", "entries", 0, (lv[0],)))]
            if n in ("index", "index_mut", "get_unchecked") and len(lv) == 2: return [(st, elem(lv))]
            if n in ("get", "get_mut") and len(lv) == 2: return [(st, some(elem(lv))), (st.copy(), NONE)]
        if lv and lv[0][0] == "a" and lv[0][1] == "entries":
            if n in ("iter", "iter_mut", "into_iter", "by_ref", "as_slice"): return [(st, lv[0])]
            if n in ("find", "position", "find_map", "any", "filter", "next"):
                e = ("a", self.r.entry, 0, tuple(("s", ("e:" + f, 0), ()) for f in self.r.efields))
                root = ("O", ("s", "entry", ())); st.mem[root] = e; ref = ("r", root, ())
                if n == "find":
                    r2 = ("O", ("s", "entryref", ())); st.mem[r2] = ref
                    out = []
                    for s, y in ai.call_value(args[1], [("r", r2, ())], st, depth, site):
                        for t, s2 in ai.split(s, y, [(1, True)], False, "bool"):
                            if t: out.append((s2, some(ref)))
                    return out + [(st.copy(), NONE)]
                if n == "next": return [(st, some(ref)), (st.copy(), NONE)]
                raise Unknown(n)
        if n in ("eq", "ne") and len(lv) == 2 and any(x[0] == "s" and x[1][0] == "e:key" for x in lv):
            o = lv[1] if lv[0][0] == "s" and lv[0][1][0] == "e:key" else lv[0]
            self.find.append(o)
            s = ("s", ("keyeq", len(self.find)), ()); st.dom[s] = frozenset((0, 1))
            return [(st, s if n == "eq" else ("x", "Not", "bool", s))]
        if n in ("replace", "take", "swap") and p.startswith("core::mem::") and args[0][0] == "r" and n != "swap":
            if n == "take": raise Unknown("mem::take")
            ai.store(st, args[0][1], args[0][2], args[1]); return [(st, lv[0])]
        if n == "default" or tr.endswith("Default"): return [(st, fresh())]
        if tr.endswith("YamlDocAccess"):
            g = self.r.method(n)
            if g is not None: return ai.call_fn(g, args, st, depth)
        if tr in ("core::convert::Into",) and lv and lv[0][0] == "a" and self.r.cur and lv[0][1] in (self.r.YD, self.r.YS):
            return [(st, self.r.wrap_any(lv[0]))]
        if tr == "core::clone::Clone" and n == "clone" and lv and lv[0][0] == "a":
            for i in self.r.p.impls:
                if i["crate"] == "yam_core" and i.get("trait") == tr and lv[0][1] in (self.r.YD, self.r.YS) and i["self"].startswith(lv[0][1] + "<"):
                    return ai.call_fn(self.r.p.get("yam_core", i["items"][0]), [last(a) for a in args], st, depth)
            return [(st, lv[0])]
        if tr == "core::cmp::PartialEq" and n == "eq" and lv and lv[0][0] == "a":
            for i in self.r.p.impls:
                if i["crate"] == "yam_core" and i.get("trait") == tr and lv[0][1] in (self.r.YD, self.r.YS) and i["self"].startswith(lv[0][1] + "<"):
                    return ai.call_fn(self.r.p.get("yam_core", i["items"][0]), [last(a) for a in args], st, depth)
        return None
class Rule:
    def __init__(self, ctx):
        self.ctx = ctx; p = self.p = ctx.prog(); self.cases = 0; self.cur = None; self.fns = set()
        pick = lambda s: next(a["path"] for a in p.adts.values() if a["path"].endswith(s) and a["local"])
        self.YD, self.YS, self.NTP, self.entry, self.AE = pick("::YamlData"), pick("::YamlScalar"), pick("::NodeType"), pick("::YamlEntry"), pick("::YamlAccessError")
        self.efields = [f[0] for f in p.adt(self.entry)["variants"][0]["fields"]]
        V = lambda a: [v["name"] for v in p.adt(a)["variants"]]
        self.vd, self.vs, self.vn, self.va = V(self.YD), V(self.YS), V(self.NTP), V(self.AE)
        self.impls = [i for i in p.impls if i["crate"] == "yam_core" and (i.get("trait") or "").endswith("YamlDocAccess")]
    def method(self, n):
        for x in self.cur["items"]:
            if x.rsplit("::", 1)[-1] == n: return self.p.get("yam_core", x)
        return self.p.get("yam_core", self.cur["trait"] + "::" + n)
    def data(self, kind, pay=P, tag=T):
        d = lambda n, *f: ("a", self.YD, self.vd.index(n), tuple(f))
        if kind == "bad": return d("BadValue")
        if kind in SC: return d("Scalar", ("a", self.YS, self.vs.index(SC[kind]), (pay,)))
        return {"seq": lambda: d("Sequence", pay), "map": lambda: d("Mapping", pay), "tagged": lambda: d("Tagged", tag, pay), "alias": lambda: d("Alias", pay)}[kind]()
    def node(self, ty, data):
        fs = self.p.adt(ty)["variants"][0]["fields"]
        return ("a", ty, 0, tuple(data if self.YD in f[1] else ("s", ("field:" + f[0], 0), ()) for f in fs))
    def didx(self, ty): return next(i for i, f in enumerate(self.p.adt(ty)["variants"][0]["fields"]) if self.YD in f[1])
    def data_of(self, ty, v):
        """the data inside a node value, without position information"""
        if v[0] == "a" and v[1] == ty: return v[3][self.didx(ty)]
        return v
    def wrap_any(self, v):
        if v[1] == self.YS: v = ("a", self.YD, self.vd.index("Scalar"), (v,))
        return self.node(self.cur_ty, v)
    def run(self, f, args):
        c = AClient(self); ai = AI(self.p, c, "yam_core", maxstates=60, budget=60000, maxexits=60); c.ai = ai
        st = St()
        for k, v in args.get("mem", {}).items(): st.mem[k] = v
        for i, v in enumerate(args["args"]): st.mem[("L", 1, i + 1)] = v
        self.cases += 1; self.fns.add(f.path)
        ex = ai.run(f, 1, st); self.fns |= ai.inlined
        return c, ai, [(x, ai.simplify(x, ai.load(x, ("L", 1, 0), ()))) for x in ex]
    def bad(self, f, key, msg): self.ctx.violation("%s:%s" % (f.path.replace(" ", "_"), key), "%s: %s" % (f.path, msg), "%s:%s" % (f.file, f.line))
    def is_payload(self, ai, x, v, root=NODE):
        """P itself or a reference to it inside the node"""
        if v == P: return True
        while v[0] == "r":
            if v[1] == root and ai.load(x, v[1], v[2]) == P: return True
            v = ai.load(x, v[1], v[2]) if v[1] != root else ("?",)
        return v == P
    def accessor(self, ty, f, n):
        m = re.fullmatch(r"(as|into)_(\w+?)(_mut)?", n) or re.fullmatch(r"()(sequence|mapping)(_mut)?", n)
        byval = not f.body["locals"][1][0].startswith("&")
        for kind in KINDS:
            node = self.node(ty, self.data(kind))
            a = {"mem": {NODE: node}, "args": [node if byval else ("r", NODE, ())]}
            c, ai, ex = self.run(f, a)
            def no(why): self.bad(f, kind, "for a %s node: %s" % (kind, why))
            if m and m.group(2) in GET:
                want = GET[m.group(2)] == kind
                if not m.group(1):          # must exist
                    if want and (len(ex) != 1 or not self.is_payload(ai, *ex[0])): no("does not yield the node's own contents")
                    if not want and ex: no("yields something")
                    continue
                if len(ex) != 1: no("has %d outcomes" % len(ex)); continue
                x, v = ex[0]
                isr = f.body["locals"][0][0].startswith("core::result")
                if v[0] != "a" or v[1] not in (OPT, RES): no("the outcome cannot be determined"); continue
                good = v[2] == (0 if isr else 1)
                if good != want: no("answers although it is of another type" if good else "does not answer although it is of this type")
                elif good and not (self.is_payload(ai, x, v[3][0]) and (byval or not m.group(3) or v[3][0][0] == "r")): no("does not yield the node's own contents")
                elif isr and not good:
                    e = v[3][0]; w = "Expected" + ("Sequence" if "seq" in n else "Mapping")
                    if e[0] != "a" or self.va[e[2]] != w: no("reports another error than %s" % w)
            elif n in IS:
                if [v for x, v in ex] != [K(kind in IS[n])]: no("is answered wrongly")
            elif n == "get_type":
                if len(ex) != 1 or ex[0][1][0] != "a" or self.vn[ex[0][1][2]] != NT[kind]: no("is reported as another type")
            elif n == "is_non_empty_collection":
                for x, v in ex:
                    e = x.dom.get(("s", ("empty", 0), ()))
                    if kind not in ("seq", "map"):
                        if v != FALSE: no("is called a collection")
                    elif e is None or v[0] != "k":
                        if v != ("x", "Not", "bool", ("s", ("empty", 0), ())): no("does not ask whether it is empty")
                    elif v != K(e == frozenset((0,))): no("is answered wrongly")
            elif n == "get_tag":
                w = some(T) if kind == "tagged" else NONE
                if [v for x, v in ex] != [w]: no("the tag is wrong")
            elif n == "take":
                if len(ex) != 1: no("has %d outcomes" % len(ex)); continue
                x, v = ex[0]
                if v != node: no("does not yield the node")
                if self.data_of(ty, x.mem[NODE]) != self.data("bad"): no("leaves something other than a bad value")
            elif n == "into_tagged":
                c, ai, ex = self.run(f, {"mem": {}, "args": [node, T]})
                w = ("a", self.YD, self.vd.index("Tagged"), (T, node))
                if [self.data_of(ty, v) for x, v in ex] != [w]: no("is not wrapped as it is in the tag")
            elif n in ("with_start", "with_end", "with_span"):
                c, ai, ex = self.run(f, {"mem": {}, "args": [node, ARG]})
                if [self.data_of(ty, v) for x, v in ex] != [self.data(kind)]: no("setting the position changes the contents")
            elif n == "clone":
                if [self.data_of(ty, v) for x, v in ex] != [self.data(kind)]: no("the clone differs")
    def fixed(self, ty, f, n):
        w = {"bad_value": self.data("bad"), "bad_span_value": self.data("bad"), "null": ("a", self.YD, self.vd.index("Scalar"), (("a", self.YS, self.vs.index("Null"), "*"),)),
             "key_from_usize": self.data("int", ARG), "key_from_str": self.data("string", ARG)}[n]
        c, ai, ex = self.run(f, {"mem": {AROOT: ARG}, "args": [("r", AROOT, ()) if n == "key_from_str" else ARG]})
        for x, v in ex:
            if not same(norm(self.data_of(ty, v)), w): self.bad(f, "value", "does not make the node it is for")
        if not ex: self.bad(f, "value", "never returns")
    def convert(self, i, f):
        """From<X> for a node type: the value is kept"""
        src = f.body["locals"][1][0]; ty = i["self"].split("<")[0]
        k = "seq" if src.startswith("alloc::vec::Vec") else {"&'_ str": "string", "&'a str": "string", "bool": "bool", "f64": "float", "f32": "float"}.get(src, "string" if src.endswith("str") else "int" if re.fullmatch(r"[iu]\d+", src) else None)
        if src.startswith(self.YD): cases = [(self.data(x), self.data(x)) for x in KINDS]
        elif src.startswith(self.YS): cases = [(self.data(x)[3][0], self.data(x)) for x in SC]
        elif k is None: return
        else: cases = [(P, self.data(k))]
        for a, w in cases:
            c, ai, ex = self.run(f, {"mem": {}, "args": [a]})
            for x, v in ex:
                if not same(norm(self.data_of(ty, v)), w): self.bad(f, "from", "the value is not kept when it is turned into a node")
            if not ex: self.bad(f, "from", "never returns")
    def clones(self, i, f):
        ty = i["self"].split("<")[0]
        for kind in KINDS:
            if ty == self.YS and kind not in SC: continue
            d = self.data(kind)
            v = d[3][0] if ty == self.YS else d if ty == self.YD else self.node(ty, d)
            c, ai, ex = self.run(f, {"mem": {NODE: v}, "args": [("r", NODE, ())]})
            if [norm(y) for x, y in ex] != [v]: self.bad(f, kind, "the clone of a %s node differs" % kind)
    def equal(self, i, f):
        ty = i["self"].split("<")[0]
        wrap = lambda d: d[3][0] if ty == self.YS else d if ty == self.YD else self.node(ty, d)
        for k1 in KINDS:
            for k2 in KINDS:
                if ty == self.YS and not (k1 in SC and k2 in SC): continue
                a, b = wrap(self.data(k1)), wrap(self.data(k2, Q, T2))
                c, ai, ex = self.run(f, {"mem": {NODE: a, OTHER: b}, "args": [("r", NODE, ()), ("r", OTHER, ())]})
                if not ex: self.bad(f, "%s-%s" % (k1, k2), "never returns")
                for x, v in ex:
                    s = ("s", ("same", 0), ()); d = x.dom.get(s)
                    if k1 != k2: good = v == FALSE
                    elif k1 in ("bad", "null"): good = v == TRUE
                    elif k1 == "tagged":
                        g = ("s", ("sametag", 0), ()); dt = x.dom.get(g)
                        good = v == s and dt == frozenset((1,)) or v == g and d == frozenset((1,)) or v == TRUE and d == dt == frozenset((1,)) or v == FALSE and frozenset((0,)) in (d, dt)
                    elif v == s: good = True
                    else: good = v[0] == "k" and d is not None and d == frozenset((v[1],))
                    if not good: self.bad(f, "%s-%s" % (k1, k2), "a %s and a %s node are compared wrongly" % (k1, k2))
    def index(self, i, f):
        ty = i["self"].split("<")[0]; self.cur_ty = ty
        num = f.body["locals"][2][0] == "usize"
        for kind in KINDS:
            root = AROOT
            c, ai, ex = self.run(f, {"mem": {NODE: self.node(ty, self.data(kind)), root: ARG}, "args": [("r", NODE, ()), ARG if num else ("r", root, ())]})
            def no(why): self.bad(f, kind, "for a %s node: %s" % (kind, why))
            if kind == "map":
                if not ex: no("never yields anything")
                for x, v in ex:
                    ks = [n for n in range(1, len(c.find) + 1)]
                    if v[0] == "r": 
                        y = ai.load(x, v[1], v[2])
                        if y[0] == "s" and y[1][0] == "e:value" and True:
                            ds = [x.dom.get(("s", ("keyeq", n), ())) for n in ks]
                            if frozenset((1,)) not in ds: no("yields an entry whose key was not found equal")
                            for o in c.find:
                                if self.data_of(ty, norm(o)) != self.data("int" if num else "string", ARG): no("looks for another key than the index")
                            continue
                        if y[0] == "s" and y[1][0] == "e:key": no("yields the key of the entry, not its value"); continue
                    no("yields something other than the value of an entry")
            elif kind == "seq" and num:
                if not ex: no("never yields anything")
                for x, v in ex:
                    if v[0] == "r": v = ai.load(x, v[1], v[2])
                    if v != ("a", "elem", 0, (P, ARG)): no("yields something other than the element at that position")
            elif ex: no("yields something")
def norm(v):
    """numeric conversions of a value count as the value"""
    if not isinstance(v, tuple): return v
    if v and v[0] == "x" and v[1] in ("cast", "z", "ZeroExtend", "SignExtend") and len(v) > 3: return norm(v[3])
    if v and v[0] == "r" and v[1][0] == "O" and not v[2]: return v[1][1]
    if v and v[0] == "a" and v[1] == "alloc::borrow::Cow" and len(v[3]) == 1: return norm(v[3][0])
    if v and v[0] in ("a",): return ("a", v[1], v[2], tuple(norm(x) for x in v[3]))
    return v
def same(v, w):
    if w == "*": return True
    if w and w[0] == "a" and v[0] == "a":
        return v[1] == w[1] and v[2] == w[2] and (w[3] == "*" or len(v[3]) == len(w[3]) and all(same(x, y) for x, y in zip(v[3], w[3])))
    return v == w
def check(ctx):
    r = Rule(ctx); p = r.p; done = 0
    ctx.floor("node_types", len(r.impls), 2)
    names = ["as_bool", "as_bool_mut", "as_i64", "as_i64_mut", "as_f64", "as_f64_mut", "as_str", "as_str_mut", "as_sequence", "as_sequence_mut", "as_mapping", "as_mapping_mut", "sequence", "sequence_mut",
             "mapping", "mapping_mut", "into_bool", "into_string", "into_f64", "into_i64", "into_mapping", "into_sequence", "get_type", "get_tag", "is_non_empty_collection", "into_tagged", "take",
             "with_start", "with_end", "with_span"] + list(IS)
    def guard(f, g, *a):
        try: g(*a)
        except Unknown as e: r.bad(f, "unfollowed", "cannot be followed (%s)" % e)
    for i in r.impls:
        r.cur = i; ty = r.cur_ty = i["self"].split("<")[0]
        for n in names:
            f = r.method(n)
            if f is None: ctx.violation("missing:%s:%s" % (ty, n), "%s has no %s" % (ty, n)); continue
            guard(f, r.accessor, ty, f, n); done += 1
        for n in ("bad_value", "bad_span_value", "null", "key_from_usize", "key_from_str"):
            f = r.method(n)
            if f is not None: guard(f, r.fixed, ty, f, n); done += 1
    tys = [i["self"].split("<")[0] for i in r.impls]
    own = [a["path"] for a in p.adts.values() if a["local"] and a["path"].endswith("::YamlOwned")]
    nidx = nconv = 0
    for i in p.impls:
        if i["crate"] != "yam_core" or not i.get("trait"): continue
        ty = i["self"].split("<")[0]
        if ty not in tys + own + [r.YD, r.YS]: continue
        r.cur = next((x for x in r.impls if x["self"].split("<")[0] == ty), r.impls[0]); r.cur_ty = ty
        for it in i["items"]:
            f = p.get("yam_core", it)
            if f is None: continue
            t = i["trait"]
            if t == "core::convert::From" and ty in tys: guard(f, r.convert, i, f); nconv += 1
            elif t == "core::clone::Clone" and it.endswith("clone"): guard(f, r.clones, i, f); done += 1
            elif t == "core::cmp::PartialEq" and it.endswith("eq"): guard(f, r.equal, i, f); done += 1
            elif t in ("core::ops::Index", "core::ops::IndexMut"): guard(f, r.index, i, f); nidx += 1
    ctx.floor("methods", done, 85); ctx.floor("index_operations", nidx, 4); ctx.floor("conversions", nconv, 8); ctx.floor("cases", r.cases, 900)
    ctx.cov["functions"] = sorted(r.fns)
    ctx.cov["explanation"] = __doc__
    ctx.assumptions += ["library conversions between owned, borrowed and mutable forms of a payload keep its value", "numeric payload conversions (as i64, as f64) keep the number within the types' ranges"]
