"""Mapping parity: between MappingStart and its MappingEnd the child nodes come in pairs.

Same exploration as the well-nesting rule (complete over parser states, look-ahead token
classes and stack depths); the relative context of every open mapping records whether a
key is waiting for its value, and any reachable transition that closes the mapping in
that phase is reported with its path."""
import _pda
def check(ctx):
    pda, x = _pda.explore(ctx)
    _pda.report(ctx, pda, x, ("parity",), "mapping children do not come in pairs")
    # a nesting violation makes the phase meaningless: parity cannot be concluded then
    for kind, state, ev, msg, tr in x.viol:
        if kind in ("stack", "event"): ctx.violation("undetermined:%s:%s" % (state, ev), "parity not decidable: in parser state %s, %s" % (state, msg), _pda.anchor(pda), tr)
    n = sum(1 for k in x.configs if "Mk" in k[3] or "Mv" in k[3])
    ctx.floor("mapping_contexts", n, 20)
