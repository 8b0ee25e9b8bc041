"""The event stream is the image of the token stream under YAML's token grammar.

A reference transducer (one production per construct, with the tokens consumed, the event
produced, where its text/style/anchor/tag/span come from, and the productions nested or
resumed) is run in lock-step with the parser's extracted transition relation over all
parser states, all token sequences and all stack depths (synchronous product with
procedure summaries).  Reported: a step that returns another event, consumes other tokens,
carries another token's text, style, anchor, tag or span, registers another anchor, or
accepts / rejects where the grammar does not."""
import _pda
from refparser import Product
from parser_pda import PDA
def check(ctx):
    p = ctx.prog(); pda = PDA(p)
    x = Product(pda).prepare().run()
    ctx.floor("configurations", len(x.configs), 150)
    ctx.floor("obligations", x.checked, 40000)
    ctx.floor("parser_states_reached", len({k[1] for k in x.configs}), 18)
    ctx.floor("productions_reached", len({k[3] for k in x.configs}), 19)
    for s, what in sorted(set((str(a[0]), str(a[-1])) for a in pda.problems)):
        ctx.violation("undetermined:%s" % s, "parser state machine not analysable at %s: %s" % (s, what), _pda.anchor(pda))
    for kind, state, msg, tr in x.viol:
        import re
        ctx.violation("%s:%s:%s" % (kind, state, re.sub(r"[^A-Za-z]+", "-", msg.split(" (tokens")[0])[:60]), "in parser state %s, %s" % (state, msg), _pda.anchor(pda), tr)
    ctx.assumptions.append("tag resolution is uninterpreted here (its own rule decides it); directives are only consumed before a document start")
    ctx.cov["samples"] = [[pda.lay.sname[k[1]], k[3]] for k in list(x.configs)[:6]]
