"""Bounded native stack of the pull API.

Rule: in the whole-crate call graph (callees resolved by the type checker, trait calls
dispatched to every local implementation, closures and function items included), no
function reachable from the event-pulling entry points (`Iterator::next` of the scanner,
the parser and the event iterator; the parser's public `peek`/`next_event`) lies on a
cycle; and no type of a value those entry points own is recursive through a `Box`/`Vec`
(so that dropping it cannot recurse either).  A cycle-free call graph bounds the number of
nested native frames by the number of functions, whatever the input nests."""
import cg
LEVEL = "other"
def roots(p):
    r = []
    for im in p.impls:
        if im["crate"] == "yam_core" and im.get("trait") == "core::iter::Iterator" and "parsing::" in im["self"]:
            for it in im["items"]:
                f = p.get("yam_core", it)
                if f is not None: r.append(f)
    for f in p.fns.values():
        if f.crate == "yam_core" and f.d.get("pub") and f.d.get("impl_self") and "parsing::parser::Parser<" in f.d["impl_self"] \
                and not f.d.get("impl_trait") and f.name in ("peek", "next_event"): r.append(f)
    return r
def type_edges(p):
    """local ADT -> local ADTs mentioned in its fields"""
    import re
    loc = {a["path"]: a for a in p.adts.values() if a["local"]}
    e = {}
    for path, a in loc.items():
        out = set()
        for v in a["variants"]:
            for f in v["fields"]:
                t = f if isinstance(f, str) else f[1]
                for w in re.findall(r"[A-Za-z_][A-Za-z0-9_]*(?:::[A-Za-z_][A-Za-z0-9_]*)+", t):
                    if w in loc: out.add(w)
        e[path] = out
    return e
def check(ctx):
    p = ctx.prog()
    rs = roots(p)
    ctx.floor("entry_points", len(rs), 5)
    r = cg.reach(p, rs)
    ctx.floor("functions_reachable", len(r), 150)
    ctx.cov["call_edges"] = sum(len(cg.edges(p, f)) for f in r)
    cyc = cg.sccs(p, r)
    ctx.cov["cycles"] = len(cyc)
    for c in cyc:
        names = sorted(f.path for f in c)
        f = min(c, key=lambda f: f.path)
        # path from an entry point
        path = []; x = f
        while x is not None: path.append(x.path); x = r[x]
        ctx.violation("recursion:" + names[0], "recursive call cycle {%s} reachable from the event-pulling API via %s: native stack depth is "
                      "controlled by the input" % (", ".join(names[:8]), " <- ".join(path)), "%s:%s" % (f.file, f.line))
    e = type_edges(p)
    owned = set(); st = [a for a in e if a.rsplit("::", 1)[-1] in ("Scanner", "Parser", "ParserIter", "Token", "TokenType", "Event")]
    while st:
        a = st.pop()
        if a in owned: continue
        owned.add(a); st += e.get(a, ())
    ctx.floor("owned_types", len(owned), 10)
    for a in sorted(owned):
        seen = set(); st = list(e[a])
        while st:
            b = st.pop()
            if b in seen: continue
            seen.add(b); st += e[b]
        if a in seen: ctx.violation("recursive-type:" + a, "type %s owned by the event-pulling state is recursive: dropping it recurses" % a)
    ctx.cov["rule"] = "no call-graph cycle (SCC) and no recursive owned type reachable from the event-pulling entry points"
    ctx.cov["explanation"] = __doc__
    ctx.cov["samples"] = [f.path for f in rs]
