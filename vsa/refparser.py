"""Reference transducer: YAML's token grammar (the libyaml production table) as one step
function per production, and its synchronous product with the parser's extracted
transition relation.

A reference step reads token kinds, consumes some, returns the event with the tokens its
payload comes from, and pops / pushes / moves to the next production."""
from collections import deque
from parser_pda import *
POP = "POP"
DIRS = ("VersionDirective", "TagDirective", "Directive")
class Need(Exception): pass
class Rej(Exception): pass
class R:
    def __init__(self, toks): self.t = toks; self.i = 0
    def peek(self):
        if self.i >= len(self.t): raise Need()
        return self.t[self.i]
    def eat(self): self.peek(); self.i += 1; return self.i - 1
class Out:
    def __init__(self, ev, span, nxt, push=None, **kw): self.ev = ev; self.span = span; self.nxt = nxt; self.push = push; self.kw = kw
def empty(r, nxt, span=None, push=None): return Out("Scalar", r.i if span is None else span, nxt, push, val=None, anchor=None, tag=None)
def node(r, block, indentless, push=None):
    a = t = None
    k = r.peek()
    if k == "Alias":
        i = r.eat(); return Out("Alias", i, POP, push, alias=i)
    if k == "Anchor":
        a = r.eat()
        if r.peek() == "Tag": t = r.eat()
    elif k == "Tag":
        t = r.eat()
        if r.peek() == "Anchor": a = r.eat()
    k = r.peek(); kw = {"anchor": a, "tag": t}
    if k == "BlockEntry" and indentless: return Out("SequenceStart", r.i, "indentless", push, **kw)
    if k == "Scalar":
        i = r.eat(); return Out("Scalar", i, POP, push, val=i, **kw)
    if k == "FlowSequenceStart": return Out("SequenceStart", r.i, "fseq1", push, **kw)
    if k == "FlowMappingStart": return Out("MappingStart", r.i, "fmap1", push, **kw)
    if k == "BlockSequenceStart" and block: return Out("SequenceStart", r.i, "bseq1", push, **kw)
    if k == "BlockMappingStart" and block: return Out("MappingStart", r.i, "bmap1", push, **kw)
    if a is not None or t is not None: return Out("Scalar", r.i, POP, push, val=None, **kw)
    raise Rej("no node content")
def step(q, r):
    if q == "stream":
        if r.peek() != "StreamStart": raise Rej("stream start expected")
        return Out("StreamStart", r.eat(), "idoc")
    if q in ("idoc", "doc"):
        while r.peek() == "DocumentEnd": r.eat()
        if r.peek() == "StreamEnd": return Out("StreamEnd", r.eat(), "end")
        if r.peek() in DIRS or r.peek() == "DocumentStart":
            while r.peek() in DIRS: r.eat()
            if r.peek() != "DocumentStart": raise Rej("document start expected")
            return Out("DocumentStart", r.eat(), "content", "docend", explicit=1)
        if q == "doc": raise Rej("document start expected")
        return Out("DocumentStart", r.i, "node", "docend", explicit=0)
    if q == "content":
        if r.peek() in DIRS + ("DocumentStart", "DocumentEnd", "StreamEnd"): return empty(r, POP)
        return node(r, True, False)
    if q == "node": return node(r, True, False)
    if q == "docend":
        if r.peek() == "DocumentEnd": return Out("DocumentEnd", r.eat(), "idoc")
        if r.peek() in DIRS: raise Rej("directive without document end")
        return Out("DocumentEnd", r.i, "doc")
    if q in ("bseq1", "bseq"):
        if q == "bseq1": r.eat()
        if r.peek() == "BlockEnd": return Out("SequenceEnd", r.eat(), POP)
        if r.peek() != "BlockEntry": raise Rej("'-' expected")
        r.eat()
        if r.peek() in ("BlockEntry", "BlockEnd"): return empty(r, "bseq")
        return node(r, True, False, "bseq")
    if q == "indentless":
        if r.peek() != "BlockEntry": return Out("SequenceEnd", r.i, POP)
        i = r.eat()
        if r.peek() in ("BlockEntry", "Key", "Value", "BlockEnd"): return empty(r, "indentless", i)
        return node(r, True, False, "indentless")
    if q in ("bmap1", "bmap"):
        if q == "bmap1": r.eat()
        if r.peek() == "BlockEnd": return Out("MappingEnd", r.eat(), POP)
        if r.peek() == "Value": return empty(r, "bval")
        if r.peek() != "Key": raise Rej("key expected")
        r.eat()
        if r.peek() in ("Key", "Value", "BlockEnd"): return empty(r, "bval")
        return node(r, True, True, "bval")
    if q == "bval":
        if r.peek() != "Value": return empty(r, "bmap")
        r.eat()
        if r.peek() in ("Key", "Value", "BlockEnd"): return empty(r, "bmap")
        return node(r, True, True, "bmap")
    if q in ("fseq1", "fseq"):
        if q == "fseq1": r.eat()
        if r.peek() == "FlowSequenceEnd": return Out("SequenceEnd", r.eat(), POP)
        if q == "fseq":
            if r.peek() != "FlowEntry": raise Rej("',' or ']' expected")
            r.eat()
        if r.peek() == "FlowSequenceEnd": return Out("SequenceEnd", r.eat(), POP)
        if r.peek() == "Key": return Out("MappingStart", r.eat(), "pairkey", anchor=None, tag=None)
        return node(r, False, False, "fseq")
    if q == "pairkey":
        if r.peek() in ("Value", "FlowEntry", "FlowSequenceEnd"): return empty(r, "pairval")
        return node(r, False, False, "pairval")
    if q == "pairval":
        if r.peek() != "Value": return empty(r, "pairend")
        r.eat()
        if r.peek() in ("FlowEntry", "FlowSequenceEnd"): return empty(r, "pairend")
        return node(r, False, False, "pairend")
    if q == "pairend": return Out("MappingEnd", None, "fseq")
    if q in ("fmap1", "fmap"):
        if q == "fmap1": r.eat()
        if r.peek() == "FlowMappingEnd": return Out("MappingEnd", r.eat(), POP)
        if q == "fmap":
            if r.peek() != "FlowEntry": raise Rej("',' or '}' expected")
            r.eat()
        if r.peek() == "FlowMappingEnd": return Out("MappingEnd", r.eat(), POP)
        if r.peek() == "Key":
            r.eat()
            if r.peek() in ("Value", "FlowEntry", "FlowMappingEnd"): return empty(r, "fval")
            return node(r, False, False, "fval")
        if r.peek() == "Value": return empty(r, "fval")
        return node(r, False, False, "fnoval")
    if q == "fnoval": return (r.peek(), empty(r, "fmap"))[1]
    if q == "fval":
        if r.peek() != "Value": return empty(r, "fmap")
        i = r.eat()
        if r.peek() in ("FlowEntry", "FlowMappingEnd"): return empty(r, "fmap", i)
        return node(r, False, False, "fmap")
    if q == "end": return Out("StreamEnd", None, "end")
    raise KeyError(q)

def run_ref(q, toks, kinds):
    """[(tokens used, Out or Rej)] over every kind of any further token the reference reads"""
    r = R(toks)
    try:
        o = step(q, r); return [(r.i, o)]
    except Rej as e: return [(r.i, e)]
    except Need:
        res = []
        for k in kinds:
            if toks and k == toks[-1] and k in ("DocumentEnd", "Directive"): continue      # runs are collapsed
            res += run_ref(q, toks + [k], kinds)
        return res

class Product:
    """synchronous product; self.viol: [(kind, state, detail, trace)]"""
    def __init__(self, pda):
        self.pda = pda; self.L = L = pda.lay
        self.kinds = [k for k in L.tname if k not in ("Comment", "VersionDirective", "TagDirective")] + ["Directive"]
        self.configs = {}; self.summ = {}; self.callers = {}; self.work = deque(); self.viol = []; self.seen = set()
        self.checked = 0; self.events = set()
    def add(self, proc, q, cached, rq, pred, text):
        k = (proc, q, cached, rq)
        if k not in self.configs: self.configs[k] = (pred, text); self.work.append(k)
    def trace(self, k):
        out = []
        while k is not None:
            pred, text = self.configs[k]
            if text: out.append(text)
            k = pred
        return list(reversed(out))[-12:]
    def bad(self, kind, k, msg, toks=None):
        key = (kind, self.L.sname[k[1]], msg)
        if key in self.seen: return
        self.seen.add(key)
        self.viol.append((kind, self.L.sname[k[1]], msg + (" (tokens %s)" % " ".join(toks) if toks is not None else ""), self.trace(k)))
    def norm(self, ks): return sorted({"Directive" if x in DIRS else x for x in ks} - {"Comment"})
    def run(self):
        L = self.L
        self.summ[("root",)] = set()
        self.add(("root",), self.pda.initial_state(), None, "stream", None, None)
        while self.work:
            k = self.work.popleft()
            if len(self.configs) > 20000: raise RuntimeError("product not finite")
            proc, q, cached, rq = k
            exits = self.pda.step(q, cached)
            okcov = set()
            for e in exits: self.exit(k, e)
        return self
    def exit(self, k, e):
        proc, q, cached, rq = k; L = self.L
        if e.cons is None:
            if e.ok: self.bad("undetermined", k, "consumed tokens not determined")
            return
        T = list(e.cons) + ([e.cached] if e.cached else [])
        alts = [[]]
        for ks, _ in T:
            n = self.norm(ks)
            alts = [a + [x] for a in alts for x in n]
            if len(alts) > 20000: self.bad("undetermined", k, "too many token combinations"); return
        for toks in alts:
            for used, o in run_ref(rq, toks, self.kinds):
                self.checked += 1
                if isinstance(o, Rej):
                    if e.ok: self.bad("accepts", k, "%s is returned where the token grammar has no continuation: %s" % (e.ev, o), toks)
                    continue
                if not e.ok:
                    if e.src == "" and "Directive" not in toks: self.bad("rejects", k, "an error is returned where the token grammar allows %s" % o.ev, toks)
                    continue
                self.compare(k, e, T, toks, used, o)
    def compare(self, k, e, T, toks, used, o):
        L = self.L; proc, q, cached, rq = k
        if e.ev is None: return self.bad("undetermined", k, "returned event not determined", toks)
        if e.ev != o.ev: return self.bad("event", k, "%s is returned where the token grammar has %s" % (e.ev, o.ev), toks)
        if len(e.cons) != used: return self.bad("tokens", k, "%s consumes %d token(s) where the token grammar consumes %d" % (e.ev, len(e.cons), used), toks[:max(used, len(e.cons))])
        self.payload(k, e, T, toks, o)
        if e.pushes is None or None in e.pushes or e.state is None: return self.bad("undetermined", k, "successor not determined")
        pops = isinstance(e.state, str); npush = len(e.pushes)
        rpop = o.nxt == POP and o.push is None
        # push r; then a node that pops at once = move to r
        rn, rp = o.nxt, o.push
        if o.nxt == POP and o.push: rn, rp = o.push, None
        c2 = e.cached[0] if e.cached else None
        text = "%s --%s--> %s" % (L.sname[q], e.ev, L.sname[e.state] if not pops else "return")
        if pops:
            if e.under != 1 or npush: return self.bad("stack", k, "pops %d pushes %d" % (e.under, npush))
            if not rpop: return self.bad("stack", k, "returns to the enclosing construct after %s where the token grammar continues with %s" % (e.ev, rn), toks)
            if c2 not in self.summ[proc]:
                self.summ[proc].add(c2)
                for c in list(self.callers.get(proc, ())): self.add(c[0], c[1], c2, c[2], c[3], text)
            return
        if rpop: return self.bad("stack", k, "does not return to the enclosing construct after %s" % e.ev, toks)
        if npush > 1 or (npush == 1) != (rp is not None): return self.bad("stack", k, "after %s: %d state(s) pushed, the token grammar %s" % (e.ev, npush, "nests" if rp else "does not nest"), toks)
        if npush:
            p2 = (e.state, c2, rn)
            ent = (proc, e.pushes[0], rp, k)
            self.callers.setdefault(p2, [])
            if ent not in self.callers[p2]: self.callers[p2].append(ent)
            if p2 not in self.summ:
                self.summ[p2] = set(); self.add(p2, e.state, c2, rn, k, text)
            for c3 in list(self.summ[p2]): self.add(ent[0], ent[1], c3, ent[2], k, text + " ... node")
            return
        self.add(proc, e.state, c2, rn, k, text)
    # ---- payload
    def tokfield(self, e, sym, *path):
        ai = self.pda.lastai; v = sym
        for x in path: v = ai.child(e.st, v, x)
        return v
    def payload(self, k, e, T, toks, o):
        L = self.L; ev = o.ev; kw = o.kw
        def B(msg): self.bad("payload", k, msg, toks)
        flds = e.evv[3]
        def tokv(i, *path): return self.tokfield(e, T[i][1], *path)
        def kindpath(kind, i): return (("f", L.tok_type), ("v", L.tname.index(kind)), ("f", i))
        if o.span is not None and o.span < len(T) and T[o.span][1][0] != "str":
            want = tokv(o.span, ("f", L.tok_span))
            if e.span != want: B("%s event does not carry the span of its token" % ev)
        cnt0 = ("l", 1, ((("s", "anchors-made", ()), 1),)); cnt1 = ("l", 2, ((("s", "anchors-made", ()), 1),))
        a = kw.get("anchor")
        if e.ains is None or e.count not in (cnt0, cnt1): B("anchor registration not determined")
        elif a is None:
            if e.ains or e.count != cnt0: B("an anchor is registered without an anchor token")
        else:
            name = tokv(a, *kindpath("Anchor", 0))
            if len(e.ains) != 1 or e.ains[0][3][0] != name: B("the anchor is not registered under its own name")
            elif e.ains[0][3][1] != cnt0 or e.count != cnt1: B("the anchor's identifier is not a new one")
        if ev == "DocumentStart":
            if flds[0] != K(kw["explicit"]): B("explicit/implicit document start flag wrong")
        if ev == "Alias":
            v = flds[0]
            if v[0] == "a" and v[1] == "anchor-id-of":
                if v[3][0] != tokv(kw["alias"], *kindpath("Alias", 0)): B("alias resolved under another name")
            else: B("alias identifier is not the one registered for its name")
        def props(av, tv):
            if a is None:
                if av != K(0): B("%s without an anchor carries an anchor identifier" % ev)
            elif av != cnt0: B("%s does not carry the identifier of its own anchor" % ev)
            t = kw.get("tag")
            if t is None:
                if tv != NONE: B("%s without a tag carries a tag" % ev)
            else:
                h = tokv(t, *kindpath("Tag", self.tagf[0])); s = tokv(t, *kindpath("Tag", self.tagf[1]))
                x = tv[3][0] if tv[0] == "a" and tv[2] == 1 else None
                if not (x and x[0] == "a" and x[1] == "resolved-tag"): B("%s does not carry its resolved tag" % ev)
                else:
                    y = x[3]
                    un = lambda z: z[3] if z[0] == "x" and z[1] == "to_string" else z
                    if [un(z) for z in y[-2:]] != [h, s]: B("%s carries another tag than its own" % ev)
        if ev in ("SequenceStart", "MappingStart"): props(flds[0], flds[1])
        if ev == "Scalar":
            sv = flds[0]
            if sv[0] != "a": return B("scalar payload not determined")
            fv = {n: sv[3][i] for i, n in enumerate(self.scf)}
            props(fv["anchor"], fv["tag"])
            if kw["val"] is None:
                if fv["value"] != ("str", b""): B("an empty node carries text")
                if not (fv["style"][0] == "a" and self.styles[fv["style"][2]] == "Plain"): B("an empty node is not plain")
            else:
                i = kw["val"]; kk = "Scalar"
                if fv["value"] != tokv(i, *kindpath(kk, self.sctok[1])): B("the scalar event's text is not its token's text")
                if fv["style"] != tokv(i, *kindpath(kk, self.sctok[0])): B("the scalar event's style is not its token's style")
    def prepare(self):
        p = self.pda.p; L = self.L
        sc = p.adt("parsing::parser::ScalarValue")["variants"][0]["fields"]
        self.scf = ["value" if "str>" in t and "Option" not in t else "style" if t.endswith("ScalarType") else "anchor" if t == "usize" else "tag" for n, t in sc]
        st = p.adt("prelude::ScalarType")["variants"]; self.styles = [v["name"] for v in st]
        f = [t for n, t in L.T[L.tname.index("Scalar")]["fields"]]
        self.sctok = [[i for i, t in enumerate(f) if t.endswith("ScalarType")][0], [i for i, t in enumerate(f) if not t.endswith("ScalarType")][0]]
        names = [n for n, t in L.T[L.tname.index("Tag")]["fields"]]
        self.tagf = [0, 1] if "handle" not in names else [names.index("handle"), 1 - names.index("handle")]
        self.pda.lastai = AI(p, PClient(L), self.pda.crate)
        return self
