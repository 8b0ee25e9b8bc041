"""Loading builds exactly the tree the events describe.

Rule: the loader's event receiver, interpreted from the type-checked program one event at a time, agrees with a
reference tree builder in every state it can reach with up to three collections open: each event performs exactly
the insertions the reference performs (element of the innermost sequence, key or value of the innermost mapping,
root of the document), collections carry their own tag, an anchored node is remembered complete under its own
anchor, an alias is looked up under the anchor it names, a document is handed over when it ends.  Anchors and tags
are symbolic; runs of any length are covered, because what a collection already contains is not part of the state.
A scalar's value is made from its own text, style and tag, and an unresolvable tag wraps the value it resolved to."""
from absint import *
import models, loader_ai
from models import NONE, some
LEVEL = "other"
class VClient(loader_ai.LClient):
    """value_from_cow_and_metadata: what it hands to scalar resolution and what it makes of the answer"""
    def intercept(self, ai, fr, args, st, depth, site):
        p = fr["path"]; n = fr.get("name") or p.rsplit("::", 1)[-1]
        lv = [self.val(st, a) for a in args]
        if n == "parse_from_cow_and_metadata":
            out = []
            for good in (1, 0):
                s = st.copy(); r = ("s", ("resolved", 1), ())
                self.log(s, "resolve", lv[0], lv[1], lv[2], r if good else nd_none)
                out.append((s, some(r) if good else NONE))
            return out
        if n in ("cloned", "copied", "clone") and "Option" in p + (fr.get("self_ty") or ""):
            a = lv[0] if n == "clone" else args[0]; out = []
            for s, k, pay in models.enum_split(ai, st, a, models.OPT): out.append((s, some(self.val(s, pay) if pay[0] == "r" else pay) if k else NONE))
            return out
        if n == "value_from_cow_and_metadata": return None
        if n == "is_yaml_core_schema": return [(st, self.core(st, lv[0]))]
        if n in ("into", "from") and lv[0][0] == "a" and lv[0][1] == self.yd: return [(st, ("a", "node", 0, (lv[0],)))]
        if n == "new" and "Box" in p: return [(st, args[0])]
        if n in ("deref", "as_ref", "clone", "borrow", "to_owned", "into") and "Option" not in p and lv[0][0] == "s": return [(st, lv[0] if n in ("clone", "to_owned") else args[0])]
        return None
nd_none = ("a", "none", 0, ())
def values(ctx, p, r):
    fs = [f for f in p.fns.values() if f.crate == "yam_core" and f.name == "value_from_cow_and_metadata"]
    ctx.floor("value_builders", len(fs), 1)
    for f in fs:
        c = VClient(p, r.c.yd); c.nt = r.NT; c.cur = "in %s" % f.path; c.fn = f; c.docs = -1
        ai = AI(p, c, "yam_core", maxstates=200, budget=400000, maxexits=100); c.ai = ai
        V, S, T = ("s", ("val", 1), ()), ("s", ("style", 1), ()), ("s", ("tag", 1), ())
        n = 0; vi = c.vars.index
        for k in (0, 1):
            st = St(); st.mem[loader_ai.LOG] = ("a", "w", 0, ())
            root = ("E", "thetag"); st.mem[root] = T
            for i, x in ((1, V), (2, S), (3, some(("r", root, ())) if k else NONE)): st.mem[("L", 1, i)] = x
            try: ex = ai.run(f, 1, st)
            except loader_ai.Quit as q: ctx.violation("values-unfollowed", "%s cannot be followed: %s" % (f.path, q)); return
            for x in ex:
                n += 1
                v = ai.load(x, ("L", 1, 0), ()); log = x.mem[loader_ai.LOG][3]
                cd = x.dom.get(("s", T[1], (loader_ai.CORE,)))
                if k and cd not in (frozenset((0,)), frozenset((1,))): ctx.violation("values-tag", "%s does not ask whether the tag is of the core schema" % f.path, "%s:%s" % (f.file, f.line)); continue
                other = k and cd == frozenset((0,))
                if len(log) != 1: ctx.violation("values-resolve", "%s does not resolve the text exactly once" % f.path, "%s:%s" % (f.file, f.line)); continue
                lv, ls, lt, res = log[0][3]
                if lv != V or ls != S: ctx.violation("values-args", "%s resolves something other than the text and style it was given" % f.path, "%s:%s" % (f.file, f.line))
                if lt != (some(T) if k else NONE) and not (other and lt == NONE): ctx.violation("values-tagarg", "%s resolves the text with another tag than the node's" % f.path, "%s:%s" % (f.file, f.line))
                inner = ("a", c.yd, vi("BadValue"), ()) if res == nd_none else ("a", c.yd, vi("Scalar"), (res,))
                want = ("a", c.yd, vi("Tagged"), (T, ("a", "node", 0, (inner,)))) if other else inner
                if v != want: ctx.violation("values-result:%s" % ("other" if other else "core" if k else "none"), "%s: a scalar with %s is turned into %s" % (f.path, "a tag of its own" if other else "a core schema tag" if k else "no tag", brief(c, v)), "%s:%s" % (f.file, f.line))
        ctx.floor("value_cases", n, 5)
def brief(c, v): return c.vars[v[2]] if v[0] == "a" and v[1] == c.yd else "something else"
def check(ctx):
    p = ctx.prog()
    r = loader_ai.Run(p, 3); v = r.go()
    for k in sorted(v): ctx.violation(k, v[k], "%s:%s" % (r.fn.file, r.fn.line))
    ctx.cov["opaque_calls"] = dict(r.ai.opaque_calls)
    if not v:
        ctx.floor("loader_states", r.states, 200); ctx.floor("event_steps", r.steps, 2000); ctx.floor("outcomes_compared", r.exits, 4000)
        for e in ("Scalar", "Alias", "SequenceStart", "SequenceEnd", "MappingStart", "MappingEnd", "DocumentEnd"): ctx.floor("steps_" + e, r.evs.get(e, 0), 10)
    values(ctx, p, r)
    ctx.cov["functions"] = sorted(r.ai.inlined)
    ctx.cov["explanation"] = __doc__
    ctx.assumptions += ["node operations (kind tests, tagging, element and pair insertion) do what their names say; C17 decides that for the library's own node types",
                        "collections nested deeper than three levels are handled as those up to three"]
