"""Reading any input terminates.

(a) scanner: every scanner function with a loop (or a large body) is interpreted over all
    scanner states and look-ahead bytes (assume/guarantee summaries for the functions it
    calls, in the look-ahead contexts its callers establish); every path around every loop
    must consume at least one byte that exists, drop a pending indentation / simple key, or
    set a flag that is never cleared; the path on which the end of the stream is queued must
    leave no pending simple key waiting, so that the token-fetching loop stops there.
(b) source helpers, directive and document loops, push loaders, high-level iterator: every
    path around a loop consumes input, a token or a successfully pulled event; a failed pull
    leaves the loop.
(c) parser: the transition relation extracted from the state machine (all states, token
    classes, stack depths) has no cycle of transitions that consumes no token.
(d) pulling: after the stream end or an error nothing more is pulled (end flag)."""
import os
import cg as cgm
import progress, scan_ai, pda_check, _pda
from parser_pda import PDA, PARSER, Layout
EVRET = "core::result::Result<(parsing::parser::Event"

def scan(ctx, rules):
    p = ctx.prog(); s = scan_ai.Scan(p).analyse()
    ctx.floor("scanner_functions_interpreted", len(s.res), 25)
    ctx.floor("scanner_obligations", sum(c.obl for c, _, _ in s.res.values()), 5000)
    n = 0
    for f, (c, ai, outs) in s.res.items():
        if not outs: ctx.violation("noexit:" + f.name, "%s has no analysable return" % f.path, "%s:%s" % (f.file, f.line))
        for (rule, key), (msg, where) in sorted(c.viol.items()):
            if rule in rules: n += 1; ctx.violation("%s:%s" % (rule, key), msg, where)
    ctx.cov["scanner_violations"] = n
    return s

def zero_cycles(x):
    """cycles of token-free transitions over all stack depths"""
    step = {}; call = []
    for e in x.edges:
        if e[0] == "step" and e[3] == 0: step.setdefault(e[1], set()).add(e[2])
        elif e[0] == "call" and e[3] == 0: call.append(e)
    rets = {}
    for e in x.edges:
        if e[0] == "ret" and e[3] == 0: rets.setdefault(e[1], set()).add(e[2][1])
    g = {k: set(v) for k, v in step.items()}
    for e in call: g.setdefault(e[1], set()).add(e[2])
    Z = {}                     # procedure -> look-ahead classes it may return with, having consumed nothing
    entry = {}
    for e in x.edges:
        if e[0] == "call": entry[e[4]] = e[2]
    while True:
        ch = False
        for e in call:
            proc, r, caller = e[5]
            for c in Z.get(e[4], ()):
                ctx2 = pda_check.node_done(caller)
                k3 = (proc, r, c, ctx2)
                if k3 not in g.setdefault(e[1], set()): g[e[1]].add(k3); ch = True
        for pr, ent in entry.items():
            seen = {ent}; st = [ent]
            while st:
                k = st.pop()
                for c in rets.get(k, ()):
                    if k[0] == pr and c not in Z.setdefault(pr, set()): Z[pr].add(c); ch = True
                for k2 in g.get(k, ()):
                    if k2[0] == pr and k2 not in seen: seen.add(k2); st.append(k2)
        if not ch: break
    # a cycle in g
    col = {}
    for r in list(g):
        if r in col: continue
        st = [(r, iter(sorted(g.get(r, ()), key=str)))]; col[r] = 1
        while st:
            k, it = st[-1]
            for k2 in it:
                if col.get(k2) == 1:
                    cyc = [q for q, _ in st]; cyc = cyc[cyc.index(k2):]
                    return len(g), cyc
                if k2 not in col: col[k2] = 1; st.append((k2, iter(sorted(g.get(k2, ()), key=str)))); break
            else: col[k] = 2; st.pop()
    return len(g), None

def check(ctx):
    p = ctx.prog()
    lay = Layout(p)
    # (b) loops outside the scanner, in the code the reading interfaces reach
    roots = [f for f in p.fns.values() if f.crate == "yam_core" and f.d.get("pub") and ("parsing::" in (f.d.get("impl_self") or "") or "parsing::" in f.path)]
    roots += [f for f in p.fns.values() if f.crate == "yam_core" and (f.d.get("impl_trait") or "").endswith(("Iterator", "source::Source")) and "parsing::" in f.path]
    reach = cgm.reach(p, roots)
    prod = {f for f in p.fns.values() if f.crate == "yam_core" and (f.d.get("ret") or "").startswith(EVRET) and f.body["argc"] == 1}
    dead = "BufferedBytesSource"
    n = 0
    for f in sorted(reach, key=lambda f: f.path):
        if f.crate != "yam_core" or not f.file.startswith("yam-core/src/parsing/"): continue
        if progress.irreducible(f): ctx.violation("irreducible:" + f.path, "%s has a cycle that is not a structured loop" % f.path, "%s:%s" % (f.file, f.line))
        if not f.loops()[0] or f in scan_fns(p): continue
        if dead in f.path: continue
        n += 1
        c, ai, outs = progress.run_fn(p, f, prod, "yam_core", tokfield=lay.token)
        for (g, h), m in c.stuck.items():
            L = sorted(g.loops()[0])
            ctx.violation("loop:%s:%d" % (g.path, L.index(h) if h in L else 0), "a loop of %s %s" % (g.path, m), "%s:%s" % (g.file, g.line))
        if not outs: ctx.violation("noexit:" + f.path, "%s has no analysable return" % f.path, "%s:%s" % (f.file, f.line))
    ctx.floor("other_loops_functions", n, 9)
    # (c)
    pda, x = _pda.explore(ctx)
    for kind, state, ev, msg, tr in x.viol:
        if kind in ("stack", "event"): ctx.violation("%s:%s:%s" % (kind, state, ev), "in parser state %s, %s" % (state, msg), _pda.anchor(pda), tr)
    nz, cyc = zero_cycles(x)
    ctx.cov["token_free_edges_from"] = nz
    if cyc:
        names = [pda.lay.sname[k[1]] for k in cyc]
        ctx.violation("zero-cycle:" + "-".join(sorted(set(names))), "the parser may produce events forever without consuming a token: states %s" % " -> ".join(names + names[:1]), _pda.anchor(pda),
                      x.trace(cyc[0]) if cyc[0] in x.configs else None)
    # (a)
    s = scan(ctx, ("progress", "streamend"))
    if not any(getattr(c, "ends", 0) for c, _, _ in s.res.values()): ctx.violation("floor:streamend", "analysis incomplete: no path queueing the stream end found")
    ctx.floor("scanner_loops", len({l for c, _, _ in s.res.values() for l in c.loops}), 25)
    ctx.assumptions.append("the source's own skip(n) advances by n bytes and its end is final; BufferedBytesSource is private, unused code and not analysed")
    ctx.cov["rule"] = "every cycle through a loop consumes input, a token or an event, or shrinks a container; no token-free cycle of parser transitions; the stream end leaves no waiting simple key"
    ctx.cov["explanation"] = __doc__
    ctx.cov["samples"] = [f.path for f in list(s.res)[:8]]

def scan_fns(p):
    return {f for f in p.fns.values() if f.crate == "yam_core" and (f.d.get("impl_self") or "").startswith(scan_ai.SCANNER + "<")}
