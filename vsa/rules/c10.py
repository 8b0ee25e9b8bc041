"""Positions follow the input.

Every scanner function with a loop (or a large body) is interpreted over all scanner states
and look-ahead bytes.  Ghost counters relate the position mark to the bytes the source has
skipped: on every call and return the byte offset must have moved by the number of bytes
skipped, the line by the number of line breaks skipped (CR LF, CR and LF each one break; one
more for the missing break at the end of an unterminated last line), the column must have
been reset once per break and advanced by the bytes skipped since; no function may skip a
byte it has not looked at that could be a line break, or skip past the end of the input."""
from c04 import scan
def check(ctx):
    s = scan(ctx, ("drift", "overrun", "breaks"))
    ctx.floor("calls_with_checked_positions", sum(len(c.calls) for c, _, _ in s.res.values()), 150)
    ctx.cov["explanation"] = __doc__
    ctx.cov["rule"] = "mark movement equals source movement on every call and return of every scanner function"
    ctx.cov["samples"] = [f.path for f in list(s.res)[:8]]
