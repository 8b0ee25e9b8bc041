"""Well-nesting of the event stream, decided on the parser's extracted state machine.

The step function is abstractly interpreted for every parser state and every look-ahead
token class (scanner = any token or error); the resulting pushdown transition relation is
explored completely (procedure summaries over the parser's state stack, so every depth is
covered) against the grammar
  stream = StreamStart (DocumentStart node DocumentEnd)* StreamEnd,
  node = Scalar | Alias | SequenceStart node* SequenceEnd | MappingStart node* MappingEnd.
A transition that emits an event the grammar does not allow in some reachable
configuration is the reported construct, with the path of parser states leading to it."""
import _pda
def check(ctx):
    pda, x = _pda.explore(ctx)
    _pda.report(ctx, pda, x, ("nesting", "framing", "stack", "event"), "events are not well nested")
    if not x.ends: ctx.violation("framing:end", "no reachable transition ends the stream", _pda.anchor(pda))
    ctx.cov["rule"] = __doc__.split("\n")[0]
