"""Tag shorthands resolve through the directives of their own document.

 A  tag resolution is interpreted for every class of handle the scanner produces
    ('' verbatim / non-specific, '!' , '!!', '!name!') with the declared-handle map answering
    found / not found: the result must be prefix + suffix of the handle looked up, the
    YAML default prefix for '!!', the handle itself for local and verbatim tags, and an
    error for an undeclared named handle.
 B  directive processing is interpreted on scripted directive sequences with symbolic
    handles and prefixes and a tracked map: every %TAG of the document is in force at its
    document start, repeated handles and repeated %YAML are errors on every path.
 C  the map is emptied at the document end exactly when tags are not kept, and no other
    parser step changes it (all states x look-ahead classes)."""
from absint import *
import models, re
from models import some, ok, err, NONE, OPT, RES
from parser_pda import Layout, PARSER, SELF, OSELF, PClient, PDA

def un(v):
    while v[0] == "x" and v[1] == "to_string": v = v[3]
    return v
MAPTAG = "bmap"
class TClient(PClient):
    """tracks BTreeMaps of tags as entry lists; scripted tokens"""
    def __init__(self, lay, script=None): super().__init__(lay); self.script = script; self.lookups = []
    def mapval(self, ai, st, ref):
        v = models.deref_val(ai, st, ref) if ref[0] in ("r", "s", "p") else ref
        return v if v[0] == "a" and v[1] == MAPTAG else None
    def intercept(self, ai, fr, args, st, depth, site):
        p = fr["path"]; n = fr.get("name")
        if self.script is not None and n == "next" and fr.get("trait") == "core::iter::Iterator" and (fr.get("self_ty") or "").startswith("parsing::scanner::Scanner"):
            i = st.mem[("E", "i")]
            if i[0] != "k" or i[1] >= len(self.script):
                return [(st, some(fresh()))]
            kind, payload = self.script[i[1]]
            st.mem[("E", "i")] = K(i[1] + 1)
            return [(st, some(self.token(kind, payload, i[1])))]
        if "BTreeMap" in p or "BTreeMap" in (fr.get("self_ty") or ""):
            if n in ("new", "default"): return [(st, ("a", MAPTAG, 0, ()))]
            loc = models.cont_loc(ai, st, args[0]) if args else None
            m = self.mapval(ai, st, args[0]) if args else None
            if m is None and loc and loc[0] == OSELF and loc[1] == (("f", self.lay.tags),) and n == "get":
                key = models.deref_val(ai, st, args[1])
                st.mem[("E", "look")] = ("a", "array", 0, st.mem.get(("E", "look"), ("a", "array", 0, ()))[3] + (key,))
                e = st.copy(); e.mem[("E", "miss")] = K(1)
                root = ("C", ("s", "prefix", ())); st.mem[root] = ("s", "prefix", ())
                return [(st, some(("r", root, ()))), (e, NONE)]
            if m is None: return super().intercept(ai, fr, args, st, depth, site)
            ent = m[3]
            def kv(x): return un(models.deref_val(ai, st, x) if x[0] == "r" else ai.simplify(st, x))
            if n == "insert":
                k = kv(args[1]); ai.store(st, loc[0], loc[1], ("a", MAPTAG, 0, tuple(x for x in ent if x[3][0] != k) + (("a", "tuple", 0, (k, kv(args[2]))),)))
                return [(st, fresh())]
            if n in ("contains_key", "get"):
                k = kv(args[1])
                hit = [x for x in ent if x[3][0] == k]
                H = (lambda s, v: [(s, K(1))]) if n == "contains_key" else (lambda s, v: [(s, some(("r", ("C", v), ())))])
                MISS = K(0) if n == "contains_key" else NONE
                if hit: return H(st, hit[0][3][1])
                if not ent: return [(st, MISS)]
                e = st.copy()
                e.mem[("E", "mayeq")] = K(1)
                return [(st, MISS)] + H(e, ("s", "other-prefix", ()))
            if n in ("extend", "append"):
                o = args[1] if args[1][0] == "a" else models.deref_val(ai, st, args[1])
                if o[0] == "a" and o[1] == MAPTAG:
                    ks = [x[3][0] for x in o[3]]
                    ai.store(st, loc[0], loc[1], ("a", MAPTAG, 0, tuple(x for x in ent if x[3][0] not in ks) + o[3]))
                else: ai.store(st, loc[0], loc[1], fresh())
                return [(st, UNIT)]
            if n == "clear": ai.store(st, loc[0], loc[1], ("a", MAPTAG, 0, ())); return [(st, UNIT)]
            if n == "is_empty": return [(st, K(int(not ent)))]
            if n == "len": return [(st, K(len(ent)))]
            if n in ("clone",): return [(st, m)]
            if loc: ai.store(st, loc[0], loc[1], fresh())
            self.problems.append("map operation %s not tracked" % p)
            return None
        return super().intercept(ai, fr, args, st, depth, site)
    def extra_key(self, st): return (st.mem.get(("E", "i")), st.mem.get(("E", "mayeq")))
    def exit_key(self, st, rv): return self.extra_key(st)
    def err_key(self, ai, st, rv): return self.extra_key(st)
    def token(self, kind, payload, i):
        L = self.lay; v = L.tname.index(kind); nf = len(L.T[v]["fields"])
        f = tuple(payload) if payload else tuple(("s", "tok%d.%d" % (i, j), ()) for j in range(nf))
        t = [None, None]; t[L.tok_type] = ("a", "parsing::TokenType", v, f); t[L.tok_span] = ("s", "span%d" % i, ())
        return ("a", "parsing::scanner::Token", 0, tuple(t))

def where(f): return "%s:%s" % (f.file, f.line)

def part_a(ctx, p, L):
    fs = [f for f in p.fns.values() if f.crate == "yam_core" and (f.d.get("impl_self") or "").startswith(PARSER + "<") and "parsing::Tag>, prelude::YamlError>" in f.d["ret"]]
    ctx.floor("tag_resolvers", len(fs), 1)
    n = 0
    for f in fs:
        tys = [l[0] for l in f.body["locals"][1:f.body["argc"] + 1]]
        hi = [i for i, t in enumerate(tys) if re.match(r"&('\w+ )?str$", t)]; si = [i for i, t in enumerate(tys) if t == "alloc::string::String" or "Cow<" in t]
        if len(hi) != 1 or len(si) != 1: raise KeyError("tag resolver's parameters not recognised: %s" % tys)
        for h, suf in ((b"!!", None), (b"!", None), (b"", None), (b"", b"!"), (b"!a!", None), (b"!ab-c!", None)):
            c = TClient(L); ai = AI(p, c, "yam_core", maxstates=100, maxexits=100)
            st = St()
            fields = [("s", "self." + x, ()) for x, t in L.adt["variants"][0]["fields"]]
            st.mem[OSELF] = ("a", PARSER, 0, tuple(fields))
            for i in range(f.body["argc"]): st.mem[("L", 1, i + 1)] = ("s", "arg%d" % i, ())
            st.mem[("L", 1, 1)] = SELF
            root = ("C", ("str", h)); st.mem[root] = ("str", h)
            st.mem[("L", 1, hi[0] + 1)] = ("str", h)
            sv = ("str", suf) if suf is not None else ("s", "suffix", ())
            st.mem[("L", 1, si[0] + 1)] = sv
            name = "%s%s" % (h.decode() or "''", " (suffix '!')" if suf else "")
            def bad(what, msg): ctx.violation("resolve:%s:%s" % (name, what), "tag with handle %s: %s" % (name, msg), where(f))
            seen = set()
            for o in ai.run(f, 1, st):
                n += 1
                rv = o.mem[("L", 1, 0)]
                miss = o.mem.get(("E", "miss")) is not None
                look = o.mem.get(("E", "look"), ("a", 0, 0, ()))[3]
                if not look:
                    bad("lookup", "the declared handles are not consulted")
                if any(x != ("str", h) for x in look): bad("lookup", "another handle is looked up")
                named = len(h) > 2
                if rv[0] == "a" and rv[1] == RES and rv[2] == 1:
                    seen.add(("err", miss))
                    if not (named and miss): bad("error", "is rejected although it is %s" % ("declared" if not miss else "no named handle"))
                    continue
                if named and miss: bad("undeclared", "is accepted although the handle was not declared"); continue
                v = rv[3][0] if rv[0] == "a" else rv
                if v[0] == "a" and v[1].endswith("Cow"): v = v[3][0]
                if v[0] != "a" or v[1] != "parsing::Tag": bad("undet", "result not determined"); continue
                tf = p.adt("parsing::Tag")["variants"][0]["fields"]; idx = {k: i for i, (k, _) in enumerate(tf)}
                gh, gs = un(v[3][idx.get("handle", 0)]), un(v[3][idx.get("suffix", 1)])
                want = ("s", "prefix", ()) if not miss else ("str", b"tag:yaml.org,2002:") if h == b"!!" else ("str", h)
                seen.add(("ok", miss))
                if gh != want and not (want == ("str", b"") and gh == ("a", "seq", 0, (K(0),))): bad("prefix", "resolves to a wrong prefix%s" % (" (%s)" % (gh,) if gh[0] == "str" else ""))
                if gs != sv: bad("suffix", "does not keep its suffix")
            for m in (False, True):
                if not any(x[1] == m for x in seen): bad("paths", "no result when the handle is %s" % ("undeclared" if m else "declared"))
    ctx.floor("resolution_paths", n, 12)

def part_b(ctx, p, L):
    pda = PDA(p)
    h = lambda i: ("s", "h%d" % i, ()); x = lambda i: ("s", "p%d" % i, ())
    names = [k for k, _ in L.T[L.tname.index("TagDirective")]["fields"]]
    hi = names.index("handle") if "handle" in names else 0
    def T(i, j=None):
        f = [None, None]; f[hi] = h(i); f[1 - hi] = x(j if j is not None else i)
        return ("TagDirective", f)
    V = ("VersionDirective", None); DS = ("DocumentStart", None); E = lambda *e: ("a", MAPTAG, 0, tuple(("a", "tuple", 0, y) for y in e))
    old = (("s", "hold", ()), ("s", "pold", ()))
    scripts = [("none", [DS], E(), {}), ("one", [T(1), DS], E(), {h(1): x(1)}), ("two", [T(1), T(2), DS], E(), {h(1): x(1), h(2): x(2)}),
               ("three", [T(1), T(2), T(3), DS], E(), {h(1): x(1), h(2): x(2), h(3): x(3)}),
               ("version-first", [V, T(1), T(2), DS], E(), {h(1): x(1), h(2): x(2)}), ("version-mid", [T(1), V, T(2), DS], E(), {h(1): x(1), h(2): x(2)}),
               ("version-last", [T(1), V, DS], E(), {h(1): x(1)}),
               ("dup-handle", [T(1), T(1, 2), DS], E(), None), ("dup-handle-apart", [T(1), T(2), T(1, 3), DS], E(), None), ("dup-handle-version", [T(1), V, T(1, 3), DS], E(), None),
               ("dup-version", [V, V, DS], E(), None), ("dup-version-apart", [V, T(1), V, DS], E(), None),
               ("kept", [DS], E(old), {old[0]: old[1]}), ("kept-more", [T(1), DS], E(old), {old[0]: old[1], h(1): x(1)}), ("kept-version", [V, DS], E(old), {old[0]: old[1]}),
               ("kept-override", [("TagDirective", [old[0], x(9)] if hi == 0 else [x(9), old[0]]), DS], E(old), {old[0]: x(9)})]
    states = set()
    init = pda.initial_state()
    # the states in which a document may start: reached by DocumentStart transitions
    for q in range(len(L.S)):
        if L.S[q]["fields"]: continue
        for e in pda.step(q, None):
            if e.ok and e.ev == "DocumentStart": states.add(q)
    ctx.floor("document_start_states", len(states), 2)
    n = 0
    for q in sorted(states):
        for name, script, m0, want in scripts:
            c = TClient(L, script); ai = AI(p, c, "yam_core", maxstates=300, unroll=8, maxexits=100)
            st = St()
            fields = [("s", "self." + k, ()) for k, t in L.adt["variants"][0]["fields"]]
            fields[L.state] = ("a", L.state_adt, q, ()); fields[L.current] = NONE; fields[L.token] = NONE; fields[L.tags] = m0
            fields[L.anchor_count] = ("l", 1, ((("s", "anchors-made", ()), 1),))
            st.mem[OSELF] = ("a", PARSER, 0, tuple(fields)); st.mem[("L", 1, 1)] = SELF; st.mem[("E", "i")] = K(0)
            st.mem[("E", "stk")] = ("a", "array", 0, ()); st.mem[("E", "under")] = K(0); st.mem[("E", "cons")] = ("a", "array", 0, ()); st.mem[("E", "last")] = K(0)
            st.mem[("E", "src")] = ("str", b""); st.mem[("E", "ains")] = ("a", "array", 0, ())
            okn = errn = 0
            def bad(what, msg): ctx.violation("directives:%s:%s" % (name, what), "directives [%s] in parser state %s: %s" % (" ".join(k for k, _ in script), L.sname[q], msg), where(pda.fn))
            for o in ai.run(pda.fn, 1, st):
                n += 1
                rv = o.mem[("L", 1, 0)]
                if rv[0] == "a" and rv[1] == RES and rv[2] == 1:
                    errn += 1
                    if want is not None and o.mem.get(("E", "mayeq")) is None: bad("rejected", "a legal directive sequence is rejected")
                    continue
                okn += 1
                if want is None: bad("accepted", "a repeated directive is accepted"); continue
                if o.mem.get(("E", "mayeq")) is not None: bad("accepted-dup", "handles that may be equal are accepted"); continue
                m = ai.child(o, o.mem[OSELF], ("f", L.tags))
                if m[0] != "a" or m[1] != MAPTAG: bad("undet", "declared handles not determined"); continue
                got = {y[3][0]: y[3][1] for y in m[3]}
                if got != want: bad("map", "handles in force are %s instead of %s" % (sorted(k[1] for k in got), sorted(k[1] for k in want)))
            if want is not None and not okn: bad("never", "never accepted")
            for w in set(c.problems): bad("undet", w)
    ctx.floor("directive_paths", n, 32)
    # C: document end and everything else
    flds = L.adt["variants"][0]["fields"]
    keep = [i for i, (k, t) in enumerate(flds) if t == "bool" and "keep" in k]
    if len(keep) != 1: raise KeyError("keep-tags switch not identified")
    m = 0
    for q in range(len(L.S)):
        if L.sname[q] == "End" : continue
        for kv in (0, 1):
            c = TClient(L); ai = AI(p, c, "yam_core", maxstates=400, budget=400000, unroll=2, maxexits=400)
            st = St()
            fields = [("s", "self." + k, ()) for k, t in flds]
            fields[L.state] = ("a", L.state_adt, q, (("s", "payload", ()),) * len(L.S[q]["fields"])); fields[L.current] = NONE; fields[L.token] = NONE
            fields[L.tags] = E(old); fields[keep[0]] = K(kv)
            fields[L.anchor_count] = ("l", 1, ((("s", "anchors-made", ()), 1),))
            st.mem[OSELF] = ("a", PARSER, 0, tuple(fields)); st.mem[("L", 1, 1)] = SELF
            for k, v in (("stk", ("a", "array", 0, ())), ("under", K(0)), ("cons", ("a", "array", 0, ())), ("last", K(0)), ("src", ("str", b"")), ("ains", ("a", "array", 0, ()))): st.mem[("E", k)] = v
            for o in ai.run(pda.fn, 1, st):
                m += 1
                rv = o.mem[("L", 1, 0)]
                if rv[0] != "a" or rv[2] != 0: continue
                t = rv[3][0]; ev = L.ename[t[3][0][2]] if t[0] == "a" and t[3][0][0] == "a" else None
                mp = ai.child(o, o.mem[OSELF], ("f", L.tags))
                if ai.child(o, o.mem[OSELF], ("f", keep[0])) != K(kv): ctx.violation("keep:%s" % L.sname[q], "parser state %s changes the keep-tags switch" % L.sname[q], where(pda.fn))
                if ev == "DocumentEnd" and not kv:
                    if mp != E(): ctx.violation("end:leak", "declared handles survive the document end (parser state %s) although tags are not kept" % L.sname[q], where(pda.fn))
                elif ev == "DocumentStart": pass
                elif mp != E(old): ctx.violation("frame:%s:%s" % (L.sname[q], ev), "declared handles change in parser state %s (event %s, keep=%d)" % (L.sname[q], ev, kv), where(pda.fn))
    ctx.floor("frame_paths", m, 100)
    # a new parser declares nothing
    for f in p.fns.values():
        if f.crate != "yam_core": continue
        for b in f.body["bbs"]:
            for s in b["s"]:
                if s[0] == "=" and s[2][0] == "agg" and s[2][1] == "adt" and s[2][2] == PARSER:
                    c = TClient(L); ai = AI(p, c, "yam_core"); st = St()
                    for i in range(f.body["argc"]): st.mem[("L", 1, i + 1)] = ("s", "arg%d" % i, ())
                    for o in ai.run(f, 1, st):
                        rv = o.mem[("L", 1, 0)]
                        if rv[0] == "a" and rv[1] == PARSER:
                            if rv[3][L.tags] != E(): ctx.violation("new", "a new parser starts with declared handles", where(f))
                            if rv[3][keep[0]] != K(0): ctx.violation("new-keep", "a new parser keeps tags", where(f))

def check(ctx):
    p = ctx.prog(); L = Layout(p)
    part_a(ctx, p, L); part_b(ctx, p, L)
    ctx.assumptions.append("tag tokens carry the handle and suffix written in the document (scanner rule); handles never contain other bytes than the scanner allows")
