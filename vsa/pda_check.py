"""Product of the extracted parser transition relation with the event grammar.

stream   := StreamStart document* StreamEnd
document := DocumentStart node DocumentEnd
node     := Scalar | Alias | SequenceStart node* SequenceEnd | MappingStart (node node)* MappingEnd

The state stack is handled by procedure summaries (a transition that pushes r and continues
at q calls the procedure entered at q, whose every return must have produced exactly one
node), so every stack depth is covered; within one procedure the open containers form a
bounded relative context, whose bound is itself checked."""
from collections import deque
MAXCTX = 8

def show(L, e, cached0, q):
    return "%s[%s] --%s--> %s%s%s" % (L.sname[q], "-" if cached0 is None else "|".join(sorted(cached0)[:3]), e.ev,
        L.sname[e.state] if isinstance(e.state, int) else "pop", " push " + ",".join(L.sname[x] for x in e.pushes) if e.pushes else "",
        " consuming " + ",".join("|".join(sorted(k)[:3]) for k, _ in e.cons) if e.cons else "")

class Bad(Exception):
    def __init__(self, kind, msg): self.kind = kind; self.msg = msg

def node_done(ctx):
    t = ctx[-1]
    if t == "N": return ctx[:-1] + ("D",)
    if t == "S": return ctx
    if t == "Mk": return ctx[:-1] + ("Mv",)
    if t == "Mv": return ctx[:-1] + ("Mk",)
    if t == "docN": return ctx[:-1] + ("docE",)
    raise Bad("nesting", "a node is emitted where none can occur (context %s)" % ctx[-1])
def can_node(ctx): return ctx[-1] in ("N", "S", "Mk", "Mv", "docN")

def apply(ctx, ev):
    t = ctx[-1]
    if ev in ("Comment",): return ctx
    if ev == "StreamStart":
        if ctx != ("start",): raise Bad("framing", "stream start inside the stream")
        return ("docs",)
    if t == "start": raise Bad("framing", "first event is %s, not the stream start" % ev)
    if ev == "StreamEnd":
        if ctx != ("docs",): raise Bad("framing" if t.startswith("doc") else "nesting", "stream ends with %s still open" % ctx[-1])
        return ("end",)
    if ev == "DocumentStart":
        if ctx != ("docs",): raise Bad("framing", "document start while %s is open" % ctx[-1])
        return ("docs", "docN")
    if ev == "DocumentEnd":
        if t == "docN": raise Bad("framing", "document ends without a root node")
        if t != "docE": raise Bad("framing" if t == "docs" else "nesting", "document end while %s is open" % t)
        return ctx[:-1]
    if ev in ("Scalar", "Alias"): return node_done(ctx)
    if ev == "SequenceStart":
        if not can_node(ctx): raise Bad("nesting", "sequence start where no node can occur")
        return ctx + ("S",)
    if ev == "MappingStart":
        if not can_node(ctx): raise Bad("nesting", "mapping start where no node can occur")
        return ctx + ("Mk",)
    if ev == "SequenceEnd":
        if t != "S": raise Bad("nesting", "sequence end while the innermost open construct is %s" % t)
        return node_done(ctx[:-1])
    if ev == "MappingEnd":
        if t == "Mv": raise Bad("parity", "mapping ends after a key without its value")
        if t != "Mk": raise Bad("nesting", "mapping end while the innermost open construct is %s" % t)
        return node_done(ctx[:-1])
    raise Bad("event", "unexpected event %s" % ev)

class Explorer:
    def __init__(self, pda):
        self.pda = pda; self.L = pda.lay
        self.configs = {}            # (proc, state, cached, ctx) -> (pred config, text)
        self.summ = {}               # proc -> set(cached at return)
        self.callers = {}            # proc -> [(caller proc, ret state, ctx, pred config)]
        self.edges = []; self.work = deque(); self.viol = []; self.trans = set(); self.calls = 0
    def add(self, proc, q, cached, ctx, pred, text):
        k = (proc, q, cached, ctx)
        if k in self.configs: return
        self.configs[k] = (pred, text); self.work.append(k)
    def trace(self, k):
        out = []
        while k is not None:
            pred, text = self.configs[k]
            if text: out.append(text)
            k = pred
        return list(reversed(out))
    def run(self):
        L = self.L
        q0 = L.sname.index("StreamStart") if "StreamStart" in L.sname else 0
        root = ("root",)
        self.summ[root] = set()
        self.add(root, self.initial(), None, ("start",), None, None)
        while self.work:
            k = self.work.popleft()
            if len(self.configs) > 200000: raise RuntimeError("configuration space not finite")
            proc, q, cached, ctx = k
            seen = set()
            for e in self.pda.step(q, cached):
                if not e.ok: continue
                key = (e.ev, e.state, tuple(e.pushes) if e.pushes is not None else None, e.under, e.cached and e.cached[0], tuple(x for x, _ in e.cons or ()))
                if key in seen: continue
                seen.add(key)
                self.trans.add((q, cached) + key)
                self.transition(k, e)
    def initial(self):
        return self.pda.initial_state()
    def bad(self, kind, k, e, msg):
        q = k[1]
        self.viol.append((kind, self.L.sname[q], e.ev, msg, self.trace(k) + [show(self.L, e, k[2], q)]))
    def transition(self, k, e):
        proc, q, cached, ctx = k; L = self.L
        c2 = e.cached[0] if e.cached else None
        text = show(L, e, cached, q)
        if e.ev is None: return self.bad("event", k, e, "returned event not determined")
        if e.pushes is None or None in e.pushes or e.state is None: return self.bad("stack", k, e, "state stack or successor state not determined")
        try:
            if e.under:
                if e.under > 1 or e.pushes or e.state != "popped0": 
                    return self.bad("stack", k, e, "pops %d state(s), pushes %d and continues at %s" % (e.under, len(e.pushes), e.state))
                ctx2 = apply(ctx, e.ev)
                if proc == ("root",): return self.bad("stack", k, e, "pops an empty state stack")
                if ctx2 != ("D",): return self.bad("nesting", k, e, "returns to the enclosing construct with context %s instead of exactly one completed node" % (ctx2,))
                self.edges.append(("ret", k, (proc, c2), len(e.cons or ())))
                self.ret(proc, c2, k, text)
                return
            if isinstance(e.state, str): return self.bad("stack", k, e, "continues at a popped state without popping")
            if len(e.pushes) > 1: return self.bad("stack", k, e, "pushes %d states in one step" % len(e.pushes))
            if e.pushes:
                r = e.pushes[0]; self.calls += 1
                if e.ev in ("SequenceStart", "MappingStart"):
                    if not can_node(ctx): raise Bad("nesting", "collection start where no node can occur")
                    caller = ctx; inner = apply(("N",), e.ev)
                else:
                    caller = apply(ctx, e.ev); inner = ("N",)
                p2 = (e.state, c2, inner)
                self.callers.setdefault(p2, [])
                ent = (proc, r, caller, k, text)
                self.edges.append(("call", k, (p2, e.state, c2, inner), len(e.cons or ()), p2, (proc, r, caller)))
                if ent not in self.callers[p2]: self.callers[p2].append(ent)
                if p2 not in self.summ:
                    self.summ[p2] = set()
                    self.add(p2, e.state, c2, inner, k, text)
                for c3 in list(self.summ[p2]): self.resume(ent, c3)
                return
            ctx2 = apply(ctx, e.ev)
            if len(ctx2) > MAXCTX: return self.bad("stack", k, e, "open containers within one procedure are not bounded: nesting is not tracked by the state stack")
            if e.ev == "StreamEnd":
                self.ends.add(e.state)
                return
            self.edges.append(("step", k, (proc, e.state, c2, ctx2), len(e.cons or ())))
            self.add(proc, e.state, c2, ctx2, k, text)
        except Bad as b:
            self.bad(b.kind, k, e, b.msg)
    ends = None
    def ret(self, proc, c, k, text):
        if c in self.summ[proc]: return
        self.summ[proc].add(c)
        for ent in self.callers.get(proc, ()): self.resume(ent, c)
    def resume(self, ent, c):
        proc, r, ctx, k, text = ent
        try: ctx2 = node_done(ctx)
        except Bad as b:
            self.viol.append((b.kind, self.L.sname[k[1]], None, "after the pushed construct returns: " + b.msg, self.trace(k) + [text])); return
        if len(ctx2) > MAXCTX: return
        self.add(proc, r, c, ctx2, k, text + " ... node ... return to " + self.L.sname[r])

def explore(pda):
    x = Explorer(pda); x.ends = set()
    x.run()
    return x
