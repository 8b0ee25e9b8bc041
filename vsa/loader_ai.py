"""The document loader against a reference tree builder.

The loader's event receiver is interpreted one event at a time, from its default state, over every
state it can reach with up to DEPTH open collections.  Anchor numbers and tags stay symbolic and are
decided only where the code looks at them; nodes are tokens, and what is done to them (an element
pushed into which sequence, a pair into which mapping, a node remembered under which anchor, a
document finished) is logged and compared with what the reference does for the same event."""
from absint import *
import models, re
from models import NONE, some, OPT
SELF = ("s", "self", ()); OSELF = ("O", SELF)
LOG = ("E", "log"); SC = ("E", "scalar")
CORE = "core"
class Quit(Exception): pass
def nd(kind, *f): return ("a", "nd:" + kind, 0, tuple(f))
def isnode(v): return v[0] == "a" and v[1].startswith("nd:")
STK = ("a", "stk", 0, ())
SAME = ("with_start", "with_end", "with_span", "clone", "to_owned", "into_owned", "borrow", "as_ref", "from", "into", "deref", "deref_mut", "borrow_mut", "as_mut", "new", "cloned", "copied")

class LClient(Client):
    partial = False
    def __init__(self, prog, ydata):
        self.p = prog; self.yd = ydata; self.vars = [v["name"] for v in prog.adt(ydata)["variants"]]
        self.viol = {}; self.n = 0; self.cur = None
    def bad(self, key, msg): self.viol.setdefault(key, msg)
    def log(self, st, *x): st.mem[LOG] = ("a", "w", 0, st.mem[LOG][3] + (("a", "log:" + x[0], 0, tuple(x[1:])),))
    def on_panic(self, ai, why, st, site): self.bad("panic:%s" % why, "%s panics (%s) %s" % (site[0].path, why, self.cur))
    def on_assert(self, ai, fn, b, t, st): pass
    def val(self, st, v):
        """the value a reference (or an owned value) stands for"""
        while v[0] == "r": v = self.ai.load(st, v[1], v[2])
        return v
    def intercept(self, ai, fr, args, st, depth, site):
        p = fr["path"]; n = fr.get("name") or p.rsplit("::", 1)[-1]; tr = fr.get("trait") or ""
        lv = [self.val(st, a) for a in args]
        if p in ("alloc::vec::Vec::<T>::new", "alloc::vec::Vec::<T>::with_capacity"): return [(st, STK)]
        if "BTreeMap" in p and n == "new": return [(st, ("a", "amap", 0, ()))]
        if n == "default" and tr == "core::default::Default":
            t = fr.get("self_ty") or ""
            if "BTreeMap" in t: return [(st, ("a", "amap", 0, ()))]
            if t.startswith("alloc::vec::Vec"): return [(st, STK)]
        if lv and lv[0][0] == "a" and lv[0][1] in ("stk", "elems"): 
            r = self.vec(ai, fr, n, tr, args, lv, st)
            if r is not None: return r
        if lv and lv[0][0] == "a" and lv[0][1] == "amap":
            r = self.amap(ai, n, args, lv, st)
            if r is not None: return r
        if p.startswith("core::option::Option") and n in ("replace", "insert") and len(args) > 1 and args[0][0] == "r" and lv[0][0] == "a" and lv[0][1] == OPT:
            old = lv[0]; ai.store(st, args[0][1], args[0][2], some(args[1]))
            return [(st, old if n == "replace" else ("r", args[0][1], tuple(args[0][2]) + (("v", 1), ("f", 0))))]
        if n in ("mem::replace", "replace") and p.endswith("mem::replace") or p.endswith("mem::take"):
            if args[0][0] == "r":
                old = lv[0]; ai.store(st, args[0][1], args[0][2], args[1] if len(args) > 1 else NONE if old[0] == "a" and old[1] == OPT else STK)
                return [(st, old)]
        if n == "is_yaml_core_schema" and lv: return [(st, self.core(st, lv[0]))]
        if n == "value_from_cow_and_metadata": return self.scalar(ai, args, lv, st)
        if lv and isnode(lv[0]):
            r = self.node(ai, fr, n, tr, args, lv, st)
            if r is not None: return r
        if lv and n in ("into", "from") and lv[0][0] == "a" and lv[0][1] == self.yd: return [(st, self.tonode(lv[0]))]
        if tr.endswith("YamlDocAccess") and n in ("bad_value", "bad_span_value"): return [(st, nd("bad"))]
        if lv and lv[0][0] == "a" and lv[0][1] == "seqof":
            if n in ("push_elem", "push"): self.log(st, "elem", lv[0][3][0], args[1]); return [(st, K(0))]
            if n in ("push_mapping",): self.log(st, "pair", lv[0][3][0], args[1], args[2]); return [(st, K(0))]
        if n in SAME and args and (tr.startswith(("core::", "alloc::")) or "Option" not in p):
            if lv[0][0] == "s" or isnode(lv[0]):
                if n in ("clone", "to_owned", "into_owned", "cloned"): return [(st, lv[0])]
                if n in ("deref", "deref_mut", "as_ref", "borrow", "as_mut", "borrow_mut") and "Option" not in p: return [(st, args[0])]
                if n in ("into", "from"): return [(st, args[0])]
            if n == "new" and "Box" in p: return [(st, args[0])]
        if n == "clone" and lv and lv[0][0] == "a": return [(st, lv[0])]
        if n == "cloned" and "Option" in p:
            a = args[0]
            if a[0] == "a" and a[2] == 1: return [(st, some(self.val(st, a[3][0])))]
            if a[0] == "a": return [(st, NONE)]
        return None
    def core(self, st, v):
        if v[0] != "s" or v[1][0] != "tag": raise Quit("looks up the schema of %s" % (v,))
        s = ("s", v[1], v[2] + (CORE,))
        if s not in st.dom: st.dom[s] = frozenset((0, 1))
        d = st.dom[s]
        return K(next(iter(d))) if len(d) == 1 else s
    def tonode(self, v):
        k = self.vars[v[2]]
        if k == "BadValue": return nd("bad")
        if k in ("Sequence", "Mapping") and v[3] and v[3][0] == STK:
            self.n += 1; return nd("seq" if k == "Sequence" else "map", K(self.n))
        if k == "Scalar": self.n += 1; return nd("scalar", K(self.n))
        if k == "Tagged" and isnode(v[3][1]): return nd("tagged", v[3][0], v[3][1])
        raise Quit("builds a node from %s" % k)
    def scalar(self, ai, args, lv, st):
        ev = self.ev
        if ev[0] != "Scalar": raise Quit("scalar value outside a scalar event")
        if lv[0] != ev[1]: self.bad("scalar-text", "the text of a scalar event is not what its value is made from")
        if lv[1] != ev[2]: self.bad("scalar-style", "the style of a scalar event is not what its value is made with")
        t = lv[2]; T = ev[4]; out = []; disc = ("s", T[1], (("disc",),))
        if t[0] == "a" and t[1] == OPT:
            if t[2] == 1 and self.val(st, t[3][0]) != ("s", T[1], (("v", 1), ("f", 0))): self.bad("scalar-tag", "a scalar is resolved with another node's tag")
            alts = [(st, t[2])]
        elif t == T: alts = [(s2, k) for s2, k, _ in models.enum_split(ai, st, T, OPT)]
        else: raise Quit("tag of a scalar")
        for s, k in alts:
            if k == 0 and s.dom.get(disc) != frozenset((0,)): self.bad("scalar-tag-lost", "the value of a scalar is resolved without its tag"); s.dom[disc] = frozenset((0,))
            cs = ("s", T[1], (("v", 1), ("f", 0), CORE))
            for core in ((1, 0) if k else (1,)):
                if k:
                    if core not in s.dom.get(cs, frozenset((0, 1))): continue
                s2 = s.copy()
                if k: s2.dom[cs] = frozenset((core,))
                for kind in ("Scalar", "BadValue"):
                    s3 = s2.copy(); self.n += 1
                    v = ("a", self.yd, self.vars.index(kind), (fresh(),) if kind == "Scalar" else ())
                    if not core: v = ("a", self.yd, self.vars.index("Tagged"), (("s", T[1], (("v", 1), ("f", 0))), nd("scalar", K(self.n)) if kind == "Scalar" else nd("bad")))
                    out.append((s3, ("a", "sv", 0, (v,))))
        # converted right away, so that its identity is known
        res = []
        for s, v in out:
            node = self.tonode(v[3][0]); s.mem[SC] = node
            res.append((s, node))
        return res
    def vec(self, ai, fr, n, tr, args, lv, st):
        items = lv[0][3]; a = args[0]
        def set_(xs): ai.store(st, a[1], a[2], ("a", lv[0][1], 0, tuple(xs)))
        def ref(i): return ("r", a[1], a[2] + (("f", i),))
        if n in ("deref", "deref_mut", "as_slice", "as_mut_slice", "as_ref", "as_mut", "borrow", "borrow_mut"): return [(st, a)]
        if n == "len": return [(st, K(len(items)))]
        if n == "is_empty": return [(st, K(int(not items)))]
        if a[0] == "r":
            docs = a[1] == OSELF and a[2] == (("f", self.docs),)
            if docs:
                if n == "push": self.log(st, "doc", args[1]); return [(st, K(0))]
                raise Quit("document list: %s" % n)
            if n == "push": set_(items + (args[1],)); return [(st, K(0))]
            if n == "pop":
                if not items: return [(st, NONE)]
                set_(items[:-1]); return [(st, some(items[-1]))]
            if n in ("last", "last_mut"): return [(st, some(ref(len(items) - 1)) if items else NONE)]
            if n in ("first", "first_mut"): return [(st, some(ref(0)) if items else NONE)]
            if n in ("get", "get_mut", "index", "index_mut") and lv[1][0] == "k":
                i = lv[1][1]; ok = 0 <= i < len(items)
                if n.startswith("get"): return [(st, some(ref(i)) if ok else NONE)]
                if ok: return [(st, ref(i))]
                self.on_panic(ai, "index", st, (self.fn,)); return []
            if n == "clear": set_(()); return [(st, K(0))]
            if n == "truncate" and lv[1][0] == "k": set_(items[:lv[1][1]]); return [(st, K(0))]
            if n in ("reserve",): return [(st, K(0))]
        raise Quit("stack operation %s" % n)
    def amap(self, ai, n, args, lv, st):
        if n == "insert": self.log(st, "anchor", lv[1], args[2]); return [(st, NONE)]
        if n in ("get", "get_mut", "remove", "contains_key"):
            if n == "remove": raise Quit("anchors are forgotten")
            out = []
            for kind in ("missing", "scalar", "bad", "seq", "map", "tagged"):
                s = st.copy(); self.n += 1
                v = {"scalar": nd("scalar", K(self.n)), "bad": nd("bad"), "seq": nd("seq", K(self.n)), "map": nd("map", K(self.n)), "tagged": nd("tagged", ("s", ("tag", self.n), ()), nd("bad"))}.get(kind)
                self.log(s, "lookup", lv[1], v if v else nd("bad"))
                if n == "contains_key": raise Quit("contains_key")
                if v is None: out.append((s, NONE)); continue
                root = ("E", "found%d" % self.n); s.mem[root] = v
                out.append((s, some(("r", root, ()))))
            return out
        raise Quit("anchor table: %s" % n)
    def node(self, ai, fr, n, tr, args, lv, st):
        v = lv[0]; k = v[1][3:]
        if n in ("with_start", "with_end", "with_span"): return [(st, v)]
        if n == "clone": return [(st, v)]
        if n in ("deref", "deref_mut", "as_ref", "as_mut", "borrow"): return [(st, args[0])]
        if n in ("into", "from"): return [(st, v)]
        if n == "into_tagged": return [(st, nd("tagged", lv[1], v))]
        if n == "is_sequence": return [(st, K(int(k == "seq")))]
        if n == "is_mapping": return [(st, K(int(k == "map")))]
        if n == "is_collection": return [(st, K(int(k in ("seq", "map"))))]
        if n == "is_bad_value": return [(st, K(int(k in ("bad", "tagged"))))]
        if n in ("is_null", "is_string", "is_bool", "is_integer", "is_floating_point", "is_alias"):
            return [(st, fresh_bool(st) if k == "scalar" and n != "is_alias" else FALSE)]
        if n == "get_type":
            NT = [x["name"] for x in self.p.adt(self.nt)["variants"]]
            ks = {"seq": ["Sequence"], "map": ["Mapping"], "bad": ["Bad"], "tagged": ["Bad"], "scalar": ["Null", "String", "Bool", "Floating", "Integer"]}[k]
            return [(st.copy(), ("a", self.nt, NT.index(x), ())) for x in ks]
        if n in ("sequence_mut", "mapping_mut", "as_sequence_mut", "as_mapping_mut"):
            want = "seq" if "sequence" in n else "map"
            root = ("E", "of%s" % (v,)); st.mem[root] = ("a", "seqof", 0, (v,)); r = ("r", root, ())
            if n.startswith("as_"): return [(st, models.ok(r) if k == want else models.err(fresh()))]
            if k != want: self.bad("not-a-%s" % want, "%s is called on another kind of node" % n); return []
            return [(st, r)]
        if n == "take":
            if args[0][0] == "r": ai.store(st, args[0][1], args[0][2], nd("bad"))
            return [(st, v)]
        if n in ("eq", "ne", "drop", "fmt"): return None
        raise Quit("node operation %s" % n)

def rename(x, m):
    """x with node numbers and symbols renumbered in order of appearance"""
    if not isinstance(x, tuple): return x
    if len(x) == 2 and x[0] == "k" and isinstance(x[1], int): return x
    if len(x) == 4 and x[0] == "a" and isinstance(x[1], str) and x[1] in ("nd:seq", "nd:map", "nd:scalar"):
        return (x[0], x[1], x[2], (K(m.setdefault(x[3][0][1], len(m) + 1)),))
    if len(x) == 3 and x[0] == "s" and isinstance(x[1], tuple) and x[1][0] in ("tag", "aid"):
        return ("s", (x[1][0], m.setdefault(x[1], len(m) + 1)), x[2])
    return tuple(rename(y, m) for y in x)

class Run:
    def __init__(self, prog, depth=3):
        self.p = prog; self.D = depth
        A = {k.rsplit("::", 1)[-1]: k for k in prog.adts}
        pick = lambda path: next(a["path"] for a in prog.adts.values() if a["path"].endswith(path) and a["local"])
        self.EV = pick("parsing::parser::Event"); self.SV = pick("parsing::parser::ScalarValue"); YD = pick("::YamlData"); self.NT = pick("::NodeType")
        self.names = [v["name"] for v in prog.adt(self.EV)["variants"]]
        self.c = LClient(prog, YD); self.c.nt = self.NT
        im = [i for i in prog.impls if i["crate"] == "yam_core" and (i.get("trait") or "").endswith("SpannedEventReceiver") and "Loader" in i["self"]]
        assert len(im) == 1, "the loader's event receiver was not found"
        self.fn = next(prog.get("yam_core", x) for x in im[0]["items"] if x.endswith("on_event"))
        self.L = re.match(r"[\w:]+", im[0]["self"]).group(0)
        fs = [f[0] for f in prog.adt(self.L)["variants"][0]["fields"]]; tys = [f[1] for f in prog.adt(self.L)["variants"][0]["fields"]]
        self.c.docs = self.docs_field(prog); self.c.fn = self.fn
        di = [i for i in prog.impls if i["crate"] == "yam_core" and (i.get("trait") or "").endswith("::Default") and i["self"].startswith(self.L + "<")]
        assert len(di) == 1, "the loader's default state was not found"
        self.dflt = prog.get("yam_core", di[0]["items"][0])
        self.ai = AI(prog, self.c, "yam_core", maxstates=400, budget=3000000, maxexits=500); self.c.ai = self.ai
        self.steps = 0; self.exits = 0; self.evs = {}
    def docs_field(self, prog):
        """the field the finished documents are returned from"""
        g = [f for f in prog.fns.values() if f.crate == "yam_core" and f.name == "into_documents" and f.path.startswith(self.L + "::")]
        assert g, "into_documents not found"
        for bb in g[0].body["bbs"]:
            for s in bb["s"]:
                if s[0] == "=" and s[1][0] == 0:
                    op = s[2]
                    for x in walk(op):
                        if isinstance(x, (list, tuple)) and len(x) >= 2 and isinstance(x[0], int) and x[0] == 1:
                            for e in x[1:]:
                                if e[0] == "f": return e[1]
        raise Exception("the document list was not found")
    def initial(self):
        st = St(); st.mem[LOG] = ("a", "w", 0, ())
        ex = self.ai.run(self.dflt, 1, st)
        assert len(ex) == 1
        return self.ai.load(ex[0] if not isinstance(ex[0], tuple) else ex[0][0], ("L", 1, 0), ())
    def events(self, frames, root, ended):
        n = self.fresh()
        aid = ("s", ("aid", n), ()); tag = ("s", ("tag", n), ())
        I = self.names.index
        ev = lambda k, *f: ("a", self.EV, I(k), tuple(f))
        live = not (root is not None and not frames)
        for k in ("Nothing", "StreamStart", "StreamEnd"): yield (k,), ev(k)
        yield ("Comment",), ev("Comment", ("s", ("val", n), ()))
        if not frames and root is None: yield ("DocumentStart",), ev("DocumentStart", ("s", ("flag", n), ()))
        if not frames: yield ("DocumentEnd",), ev("DocumentEnd")
        if live:
            order = [f[0] for f in self.p.adt(self.SV)["variants"][0]["fields"]]
            val, style = ("s", ("val", n), ()), ("s", ("style", n), ())
            fs = {"value": val, "scalar_type": style, "anchor_id": aid, "tag": tag}
            yield ("Scalar", val, style, aid, tag), ev("Scalar", ("a", self.SV, 0, tuple(fs[o] for o in order)))
            yield ("Alias", aid), ev("Alias", aid)
            if len(frames) < self.D:
                yield ("SequenceStart", aid, tag), ev("SequenceStart", aid, tag)
                yield ("MappingStart", aid, tag), ev("MappingStart", aid, tag)
        if frames:
            k, tg, ai_, node, key = frames[-1]
            if k == "seq": yield ("SequenceEnd",), ev("SequenceEnd")
            elif key is None: yield ("MappingEnd",), ev("MappingEnd")
    def fresh(self): self.c.n += 1; return self.c.n
    def go(self):
        init = (self.initial(), (), None, ())
        seen = {}; todo = [(init, ())]
        def key(s):
            m = {}
            r = rename(s[:3], m)
            d = tuple(sorted(((rename(a, m), v) for a, v in s[3]), key=repr))
            return (r, d), (r[0], r[1], r[2], d), m
        k, s, m = key(init); seen[k] = ()
        todo = [s]
        while todo and len(self.c.viol) < 6:
            nxt = []
            for s in todo:
                k0 = (s[:3], s[3]); trail = seen[k0]
                self.c.n = 1000
                for e, val in self.events(s[1], s[2], False):
                    self.evs[e[0]] = self.evs.get(e[0], 0) + 1
                    for t in self.step(s, e, val, trail):
                        k, t2, _ = key(t)
                        if k not in seen: seen[k] = trail + (e[0],); nxt.append(t2)
            todo = nxt
        self.states = len(seen)
        return self.c.viol
    def step(self, s, e, val, trail):
        c = self.c; self.steps += 1
        lv, frames, root, doms = s
        c.cur = "at %s after %s" % (e[0], " ".join(trail) or "nothing"); c.ev = e
        st = St(); st.mem[OSELF] = lv; st.mem[LOG] = ("a", "w", 0, ())
        for a, d in doms: st.dom[a] = d
        if e[0] in ("Scalar", "Alias", "SequenceStart", "MappingStart"):
            a = e[3] if e[0] == "Scalar" else e[1]
            st.dom[a] = frozenset((1, 2)) if e[0] == "Alias" else frozenset((0, 1, 2))
        st.mem[("L", 1, 1)] = ("r", OSELF, ()); st.mem[("L", 1, 2)] = val; st.mem[("L", 1, 3)] = ("s", ("span", 0), ())
        n0 = len(c.viol)
        try: ex = self.ai.run(self.fn, 1, st)
        except Quit as q: c.bad("unfollowed:%s" % str(q)[:60], "%s: %s: the loader does something the reference comparison cannot follow (%s)" % (self.fn.path, c.cur, q)); return
        if len(c.viol) > n0: return
        if not ex: c.bad("no-return:%s" % e[0], "%s never returns %s" % (self.fn.path, c.cur)); return
        for x in ex:
            x = x[0] if isinstance(x, tuple) else x
            self.exits += 1
            t = self.compare(x, e, frames, root, lv)
            if isinstance(t, str): c.bad("%s:%s" % (e[0], t.split(":")[0]), "%s: %s %s" % (self.fn.path, t, c.cur)); return
            live = set(); syms(t, live)
            yield t + (tuple((a, d) for a, d in x.dom.items() if a[1] in live),)
    def compare(self, st, e, frames, root, lv0):
        log = tuple((x[1][4:],) + x[3] for x in st.mem[LOG][3]); lv = st.mem[OSELF]
        simp = lambda v: tuple(simp(y) for y in v) if isinstance(v, tuple) and v and not isinstance(v[0], str) else v
        acts = sorted((x for x in log if x[0] in ("elem", "pair", "doc")), key=repr)
        anch = [x for x in log if x[0] == "anchor"]; look = [x for x in log if x[0] == "lookup"]
        k = e[0]
        dom = lambda a, full: st.dom[a] if isinstance(st.dom.get(a), frozenset) else frozenset(full)
        if k in ("Nothing", "StreamStart", "StreamEnd", "Comment", "DocumentStart"):
            if log: return "does something:an event without content changes the tree"
            return lv, frames, root
        if k == "DocumentEnd":
            want = root if root is not None else nd("bad")
            if anch or acts != [("doc", want)]: return "document:the finished document is not the tree that was built: %s instead of %s" % (show(acts), show([("doc", want)]))
            return lv, (), None
        if k in ("SequenceStart", "MappingStart"):
            if acts or anch: return "early:an unfinished collection already becomes part of the tree: %s" % show(log)
            kind = "seq" if k[0] == "S" else "map"
            new = [x for x in nodes(lv, []) if x not in nodes(lv0, [])]
            new = [x for x in new if x[1] == "nd:" + kind]
            if len(new) != 1: return "start:no empty %s is begun" % kind
            return lv, frames + ((kind, e[2], e[1], new[0], None),), root
        # a finished node
        tags = [(0, 0)]
        if k in ("SequenceEnd", "MappingEnd"):
            kind, tag, aid, node, key = frames[-1]; frames = frames[:-1]
            pay = ("s", tag[1], (("v", 1), ("f", 0)))
            ds = dom(("s", tag[1], (("disc",),)), (0, 1)); cs = dom(("s", pay[1], pay[2] + (CORE,)), (0, 1))
            alts = []
            if 0 in ds or 1 in cs and 1 in ds: alts.append(node)
            if 1 in ds and 0 in cs: alts.append(nd("tagged", pay, node))
            if len(alts) > 1: return "tag unread:the tag of a finished collection does not matter"
            val, = alts
        elif k == "Scalar":
            if SC not in st.mem: return "scalar:the value of a scalar is not made from the event"
            val = st.mem[SC]; aid = e[3]
        else:
            if len(look) != 1 or look[0][1] != e[1]: return "alias:an alias is not looked up under its anchor"
            val = look[0][2]; aid = None
        if k != "Alias" and look: return "lookup:an anchor is looked up"
        an = dom(aid, (0, 1, 2)) if aid is not None else frozenset((0,))
        if an - {0} and not any(x[2] == val and (x[1] == aid or x[1][0] == "k" and an == {x[1][1]}) for x in anch):
            return "anchor:an anchored node is not remembered: %s" % show(log)
        for x in anch:
            if x[1] == aid or an == {0} and x[1] == K(0):
                if x[2] == val or an == {0}: continue
            return "anchor:the wrong node is remembered under an anchor: %s instead of %s" % (show([x]), show([("anchor", aid, val)]))
        if not frames:
            if acts: return "root:the root node is put into another node: %s" % show(acts)
            return lv, (), val
        kind, tag, aid, node, key = frames[-1]
        if kind == "seq": want = [("elem", node, val)]
        elif key is None: want = []; frames = frames[:-1] + ((kind, tag, aid, node, val),)
        else: want = [("pair", node, key, val)]; frames = frames[:-1] + ((kind, tag, aid, node, None),)
        if acts != want: return "tree:a node goes to the wrong place: %s instead of %s" % (show(acts), show(want))
        return lv, frames, root
def nodes(v, out):
    if isinstance(v, tuple):
        if len(v) == 4 and v[0] == "a" and isinstance(v[1], str) and v[1] in ("nd:seq", "nd:map"): out.append(v); return out
        for x in v: nodes(x, out)
    return out
def syms(v, out):
    """the tag and anchor symbols in v"""
    if isinstance(v, tuple):
        if len(v) == 3 and v[0] == "s" and isinstance(v[1], tuple) and v[1][0] in ("tag", "aid"): out.add(v[1]); return
        for x in v: syms(x, out)
def walk(x):
    yield x
    if isinstance(x, (list, tuple)):
        for y in x: yield from walk(y)
def show(log):
    def f(v):
        if isnode(v):
            if v[1] == "nd:tagged": return "tagged(%s)" % f(v[3][1])
            return v[1][3:] + (str(v[3][0][1]) if v[3] else "")
        if v[0] == "s": return v[1][0] if isinstance(v[1], tuple) else "?"
        return str(v[1]) if v[0] == "k" else v[1] if isinstance(v[1], str) else "?"
    return "; ".join("%s %s" % (x[0], ", ".join(f(y) for y in x[1:])) for x in log) or "nothing"
