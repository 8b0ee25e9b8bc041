"""Call graph over the dumped MIR: resolved callees, closures, function items, trait dispatch."""
def ty_head(t):
    t = t.lstrip("&")
    if t.startswith("'"): t = t.split(" ", 1)[-1]
    if t.startswith("mut "): t = t[4:]
    return t.split("<", 1)[0]
def callee_targets(p, fn, fr):
    """local Fn objects a callee reference may denote"""
    out = []
    def add(path):
        g = p.get(fn.crate, path)
        if g is not None and g not in out: out.append(g)
    r = fr.get("resolved")
    if r: add(r)
    add(fr["path"])
    tr = fr.get("trait")
    if tr and not (fr.get("resolved_local") and r):
        short = tr.split("::", 1)[1] if tr.split("::", 1)[0] in p.crates else tr
        self_ty = fr.get("self_ty") or ""
        h = ty_head(self_ty)
        param = "::" not in h and not h.startswith(("[", "(")) and h[:1].isupper() or self_ty.startswith("<") or self_ty.startswith("dyn")
        ext = tr.split("::", 1)[0] in ("core", "alloc", "std")
        for im in p.impls:
            if (im.get("trait") or "").split("<")[0] not in (tr, short): continue
            # a std trait on a type parameter is the client's code; a local trait may be any local impl
            if param and ext: continue
            if not param and ty_head(im["self"]) != h and not ty_head(im["self"])[:1].isupper(): continue
            if not param and ty_head(im["self"])[:1].isupper() and "::" not in ty_head(im["self"]) and ext: continue
            for it in im["items"]:
                path = it if isinstance(it, str) else it[0]
                if path.rsplit("::", 1)[-1] == fr.get("name"):
                    g = p.get(im["crate"], path)
                    if g is not None and g not in out: out.append(g)
    return out
def consts(fn):
    """all constant operands in a body"""
    def op(o):
        if o and o[0] == "k": yield o[1]
    def rv(r):
        k = r[0]
        if k in ("use", "repeat"): yield from op(r[1])
        elif k == "cast": yield from op(r[2])
        elif k == "bin":
            yield from op(r[2]); yield from op(r[3])
        elif k == "un": yield from op(r[2])
        elif k == "agg":
            for o in r[4]: yield from op(o)
    for b in fn.body["bbs"]:
        for s in b["s"]:
            if s[0] == "=": yield from rv(s[2])
        t = b["t"]
        if t[0] == "switch": yield from op(t[1])
        elif t[0] == "call":
            for o in t[2]: yield from op(o)
def calls(fn, cleanup=True):
    """(block, callee ref or None, args, span, dest)"""
    for i, b in enumerate(fn.body["bbs"]):
        if b.get("cleanup") and not cleanup: continue
        t = b["t"]
        if t[0] == "call":
            f = t[1]
            fr = f[1].get("fn") if f[0] == "k" else None
            yield i, fr, t[2], t[6], t[3]
def edges(p, fn):
    """[(target Fn, span)]"""
    out = []
    for i, fr, args, sp, _ in calls(fn):
        if fr is not None:
            for g in callee_targets(p, fn, fr): out.append((g, sp))
    for c in consts(fn):
        if "fn" in c:
            for g in callee_targets(p, fn, c["fn"]): out.append((g, None))
    for b in fn.body["bbs"]:
        for s in b["s"]:
            if s[0] == "=" and s[2][0] == "agg" and s[2][1] == "closure":
                g = p.get(fn.crate, s[2][2])
                if g is not None: out.append((g, s[3]))
    return out
def reach(p, roots):
    seen = {}; st = [(r, None) for r in roots]
    while st:
        f, par = st.pop()
        if f in seen: continue
        seen[f] = par
        for g, _ in edges(p, f):
            if g not in seen: st.append((g, f))
    return seen
def sccs(p, nodes):
    """strongly connected components with a cycle"""
    idx = {}; low = {}; st = []; on = set(); out = []; cnt = [0]
    es = {n: [g for g, _ in edges(p, n) if g in nodes] for n in nodes}
    import sys
    def go(v):
        work = [(v, iter(es[v]))]
        idx[v] = low[v] = cnt[0]; cnt[0] += 1; st.append(v); on.add(v)
        while work:
            u, it = work[-1]
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = cnt[0]; cnt[0] += 1; st.append(w); on.add(w)
                    work.append((w, iter(es[w]))); break
                elif w in on: low[u] = min(low[u], idx[w])
            else:
                work.pop()
                if work: low[work[-1][0]] = min(low[work[-1][0]], low[u])
                if low[u] == idx[u]:
                    c = []
                    while True:
                        w = st.pop(); on.discard(w); c.append(w)
                        if w is u: break
                    if len(c) > 1 or u in es[u]: out.append(c)
    for n in nodes:
        if n not in idx: go(n)
    return out
