"""Loop progress: every iteration of every loop consumes something finite.

A path through a loop body back to its header must consume input of the source, take a
token from the scanner, successfully pull an event, advance an iterator, or remove an
element from a container nothing is added to.  A failed pull (end of tokens, error) must
leave the loop."""
from absint import *
import models
from models import some, ok, err, NONE, RES

def pjoin(a, b):
    """progress: 1 consumed input, or the containers shrunk, or 0 nothing"""
    if a == 1 or b == 1: return 1
    return a | b if a and b else a or b

def irreducible(fn):
    """is there a cycle of the control-flow graph that is not a natural loop?"""
    back = fn.loops()[1]
    col = {}
    for r in fn.rpo():
        if r in col: continue
        st = [(r, iter(fn.succs(r)))]; col[r] = 1
        while st:
            b, it = st[-1]
            for s in it:
                if (b, s) in back: continue
                if col.get(s) == 1: return True
                if s not in col: col[s] = 1; st.append((s, iter(fn.succs(s)))); break
            else:
                col[b] = 2; st.pop()
    return False

class ProgressClient(Client):
    checking = True
    def init(self): self.grew = set(); self.weak = []; self.stuck = {}; self.loops_seen = set(); self.edges = 0; self.seenpath = set()
    def enter_key(self, key): return {"c": 0}
    def leave_key(self, outer, inner):
        o = dict(outer)
        for k in o: o[k] = pjoin(o[k], inner.get("c", 0))
        return o
    def progressed(self, st):
        for k in st.key: st.key[k] = 1
    def shrunk(self, st, loc):
        for k in st.key: st.key[k] = pjoin(st.key[k], frozenset((loc,)))
    def on_loop_edge(self, ai, fn, depth, header, is_back, st):
        kk = ("l", header); L = fn.loops()[0]
        if is_back:
            self.loops_seen.add((fn.path, header)); self.edges += 1
            pr = st.key.get(kk)
            if pr != 1 and pr: self.weak.append((pr, fn, header))
            if not pr and self.checking: self.stuck.setdefault((fn, header), "may repeat without consuming anything")
            if st.mem.get(("E", "failed"), K(0)) != K(0) and self.checking: self.stuck.setdefault((fn, header), "may repeat after the end of its input or an error was reported to it")
        for k in [k for k in st.key if k != "c" and k != kk]:
            if k[1] not in L or header not in L[k[1]]: del st.key[k]
        st.key[kk] = 0
        return st
    def on_event(self, st, kind, loc, n, val, site):
        if kind in ("iter", "pop"): self.shrunk(st, loc)
        elif kind not in ("iterend", "clear", "truncate"): self.grew.add(loc)
    def on_consume(self, st, hr, heads, n):
        if heads is None or n[0] != "k" or n[1] < 1: return
        for h in heads:
            if 256 in self.hd(st, h): return
        self.progressed(st)
    def hd(self, st, h):
        if h[0] == "k": return frozenset((h[1],))
        d = st.dom.get(h)
        return d if isinstance(d, frozenset) else models.HEADS
    def finish(self):
        for pr, fn, header in self.weak:
            if not pr - self.grew: self.stuck.setdefault((fn, header), "may repeat while what it removes may be added again")

class LoopClient(ProgressClient):
    """one function on its own; pulls of tokens / events are answered symbolically"""
    def __init__(self, fn, producers): self.init(); self.fn = fn; self.producers = producers
    def intercept(self, ai, fr, args, st, depth, site):
        n = fr.get("name")
        g = ai.resolve(fr, site[0].crate) if fr.get("local") else None
        if n == "next" and fr.get("trait") == "core::iter::Iterator" and (fr.get("self_ty") or "").startswith("parsing::"):
            e = st.copy(); self.progressed(st); e.mem[("E", "failed")] = K(1)
            return [(st, some(fresh())), (e, NONE)]
        if g is not None and g is not self.fn and g in self.producers:
            e = st.copy(); self.progressed(st); e.mem[("E", "failed")] = K(1)
            t = fresh()
            return [(st, ok(t)), (e, err(fresh()))]
        return None
    tokfield = None
    def watch_store(self, root, path): return self.tokfield is not None and root == ("O", ("s", "arg0", ())) and path == (("f", self.tokfield),)
    def on_store(self, st, root, path, old, new, site):
        """dropping the current token (it came from the scanner)"""
        if new[0] == "a" and new[2] == 0:
            if old[0] == "a" and old[2] == 1: self.progressed(st)
            elif old[0] == "s" and st.dom.get(("s", old[1], old[2] + (("disc",),))) == frozenset((1,)): self.progressed(st)
    def inline(self, fn): return True
    def extra_key(self, st): return (st.mem.get(("E", "failed")),)
    def exit_key(self, st, rv): return self.extra_key(st)
    def err_key(self, ai, st, rv): return self.extra_key(st)

def run_fn(p, f, producers, crate, cls=LoopClient, **kw):
    c = cls(f, producers); c.tokfield = kw.get("tokfield")
    ai = AI(p, c, crate, maxstates=kw.get("maxstates", 60), budget=400000, unroll=1, maxexits=12)
    c.ai = ai
    st = St(key={"c": 0})
    st.mem[("E", "failed")] = K(0)
    for i, l in enumerate(f.body["locals"][1:f.body["argc"] + 1]):
        a = ("s", "arg%d" % i, ())
        if l[0] == "bool": st.dom[a] = BOOLS
        if l[0] == "u8": st.dom[a] = BYTES
        st.mem[("L", 1, i + 1)] = a
    outs = ai.run(f, 1, st)
    c.finish()
    return c, ai, outs
