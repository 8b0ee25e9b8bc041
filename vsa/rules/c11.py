"""The text of a quoted or plain scalar is the text the scanner consumed, unescaped and folded.

The scanner's dispatch method is interpreted for a scalar of each kind, with everything it calls
inlined and with symbolic contents of byte buffers.  A reference transducer for YAML 1.2 flow
scalars is moved by every consumed byte.  Obligations, for all paths and any number of loop
iterations: at every scalar token, the bytes of its value equal the reference's output for the
bytes consumed; every byte consumed has one role; escapes are those of the specification; what is
taken as text can be text there (no end of input, comment, mapping colon or flow indicator in a
plain scalar); and the bytes accepted per role are complete (every escape, every hexadecimal
digit, every text byte), so that an escape that is no longer accepted is noticed too."""
import multiprocessing, sys, time
import text_ai
from text_ai import *
PLAIN1 = frozenset(c for c in range(1, 256) if c not in (9, 10, 13, 32) and chr(c) not in "-?:,[]{}#&*!|>'\"%@`")
ANY = frozenset(range(1, 256)) - BL - BRK
CASES = {
    "double-quoted": ("double-quoted", 34, [34], None, "DoubleQuote", {"text": ANY - {34, 92}, "esc": frozenset(ESC) | frozenset(CODE), "hex": HEX, "\\break": BRK, "break": BRK}, {"esc": frozenset((9, 47))}),
    "single-quoted": ("single-quoted", 39, [39], None, "SingleQuote", {"text": ANY - {39}, "''": frozenset((39,)), "break": BRK}, {}),
    "plain, block context": ("plain", None, PLAIN1, False, "Plain", {"text": ANY, "break": BRK}, {}),
    "plain, flow context": ("plain", None, PLAIN1, True, "Plain", {"text": ANY - FLOW, "break": BRK}, {}),
}
BUDGET = 400000
def one(a):
    name, p = a, G["p"]
    kind, q, first, flow, ty, cover, opt = CASES[name]
    sys.setrecursionlimit(100000)
    t = Text(p); d = t.dispatch(); t0 = time.time()
    try: c, ai, outs = t.go(d, kind, q, first, budget=BUDGET, flow=flow)
    except Budget as e: return name, {"bad": [("budget", "the analysis of %s scalars did not finish: %s" % (name, e), None)]}
    bad = [(k, m, w) for k, (m, w) in sorted(c.viol.items())]
    for role, full in sorted(cover.items()) if not c.partial else ():
        got = c.cover.get(role, frozenset())
        for x in sorted(full - got): bad.append(("refused:%s:%02x" % (role, x), "%s scalars: %s is never accepted as %s" % (name, show({x}), {"esc": "an escape after a backslash", "text": "text", "hex": "a hexadecimal digit"}.get(role, role)), None))
        if got - full: bad.append(("extra:" + role, "%s scalars: %s accepted as %s" % (name, show(got - full), role), None))
    if c.tys != {ty} and not c.partial: bad.append(("style", "%s scalars are labelled %s" % (name, ", ".join(sorted(c.tys)) or "nothing"), None))
    return name, {"bad": bad, "tokens": c.tokens, "obligations": c.obl, "steps": ai.steps, "loops": sorted("%s bb%d" % (f, b) for f, b in c.loops), "functions": sorted(ai.runs),
                  "roles": {r: len(s) for r, s in c.cover.items()}, "seconds": round(time.time() - t0, 1)}
G = {}
def check(ctx):
    p = ctx.prog(); G["p"] = p
    t = Text(p); d = t.dispatch()
    bs = t.builders()
    if d is None: ctx.violation("dispatch", "no single scanner method builds all scalar tokens (%s)" % ", ".join(f.path for f in bs)); return
    with multiprocessing.get_context("fork").Pool(4) as pool: res = dict(pool.map(one, list(CASES), chunksize=1))
    fns = set(); loops = set(); obl = tok = 0; runs = {}
    for name, r in res.items():
        for k, m, w in r["bad"]: ctx.violation("%s:%s" % (name, k), m, w)
        if "tokens" not in r: continue
        fns |= set(r["functions"]); loops |= set(r["loops"]); obl += r["obligations"]; tok += r["tokens"]
        runs[name] = {k: r[k] for k in ("tokens", "obligations", "steps", "roles", "seconds")}
        if r["tokens"] < 1 and not r["bad"]: ctx.violation(name + ":floor", "no path produces a %s scalar" % name)
    ctx.cov.update(dispatch=d.path, builders=[f.path for f in bs], runs=runs, functions=sorted(fns), loops=sorted(loops), obligations_discharged=obl, scalar_tokens=tok)
    ctx.cov["rule"] = "bytes of the value = output of the reference transducer over the bytes consumed, at every scalar token; roles of bytes complete and disjoint"
    ctx.floor("cases", len(runs), 4); ctx.floor("loops_folded", len(loops), 6); ctx.floor("functions_interpreted", len(fns), 20)
    ctx.assumptions += ["buffers are Vec<u8>/String/byte slices with the modelled library operations; anything else makes the value unknown and is reported",
                        "source look-ahead and skip behave as modelled (the source itself is checked by C06)",
                        "where a plain scalar ends because of indentation, a document marker or the next line is not part of this property"]
