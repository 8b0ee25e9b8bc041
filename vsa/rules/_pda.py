"""Shared by the event-stream rules: run the parser exploration once and report."""
from parser_pda import PDA
import pda_check

def anchor(pda): return "%s:%s" % (pda.fn.file, pda.fn.line)

def explore(ctx):
    p = ctx.prog(); pda = PDA(p); x = pda_check.explore(pda)
    L = pda.lay
    ctx.floor("parser_states_reached", len({k[1] for k in x.configs}), 18)
    ctx.floor("configurations", len(x.configs), 120)
    ctx.floor("transitions", len(x.trans), 900)
    ctx.floor("functions_interpreted", len(pda.fns), 15)
    ctx.floor("procedures", len(x.summ), 5)
    for s, what in sorted(set((str(a[0]), str(a[-1])) for a in pda.problems)):
        ctx.violation("undetermined:%s" % s, "parser state machine not analysable at %s: %s" % (s, what), anchor(pda))
    ctx.assumptions.append("the scanner is any token source: every token kind may come next, or an error (its own rules constrain it)")
    return pda, x
def report(ctx, pda, x, kinds, label):
    n = 0
    for kind, state, ev, msg, tr in x.viol:
        if kind in kinds:
            n += 1
            ctx.violation("%s:%s:%s" % (kind, state, ev), "%s: in parser state %s, %s" % (label, state, msg), anchor(pda), tr)
    ctx.cov["violating_transitions"] = n
    ctx.cov["samples"] = [list(map(str, t[:4])) for t in sorted(x.trans, key=str)[:5]]
