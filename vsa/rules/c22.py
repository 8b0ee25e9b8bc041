"""Determinism / no hidden global state.

Rule (whole program, both library crates): (1) no `static` item is mutable, thread-local or
of an interior-mutability type; (2) no function calls into time, environment, randomness,
threads, file system, atomics, cells or randomly seeded hashing, and none observes an
address (pointer-to-integer casts, pointer formatting or comparison); so the result of a
parse is a function of the bytes it was given."""
import cg
LEVEL = "other"
BAD = ("std::env", "std::time", "core::time::Instant", "std::fs", "std::net", "std::process", "std::thread", "std::sync", "core::sync::atomic", "core::cell",
       "std::collections::HashMap", "std::collections::HashSet", "std::hash::RandomState", "std::hash::random", "std::collections::hash", "alloc::sync", "once_cell", "rand", "getrandom",
       "std::io::stdin", "core::ptr::addr_eq", "std::panic", "std::backtrace", "core::any::type_name", "core::panic::Location", "core::ptr::hash", "core::ptr::eq", "std::alloc",
       "core::hint::black_box", "hashbrown", "core::arch")
BADTY = ("core::cell::", "core::sync::atomic", "std::sync::", "std::thread", "Mutex", "RwLock", "OnceLock", "OnceCell", "LazyLock", "std::collections::HashMap", "std::collections::HashSet", "hashbrown")
def bad_path(path):
    q = path.lstrip("<&")
    return any(q == b or q.startswith(b + "::") or q.startswith(b + "<") or q.startswith(b) and b[-1] != ":" and q[len(b):len(b)+1] in ("", ":", "<") for b in BAD)
def check(ctx):
    p = ctx.prog(); n = 0; nf = 0
    for s in p.statics:
        ty = s.get("ty", "")
        if s.get("mut") or s.get("mutability") in ("mut", True) or s.get("thread_local") or any(b in ty for b in BADTY):
            ctx.violation("static:%s" % s.get("path"), "mutable or interior-mutable static %s: %s" % (s.get("path"), ty))
    ctx.cov["statics"] = len(p.statics)
    for f in p.fns.values():
        nf += 1
        for i, fr, args, sp, _ in cg.calls(f):
            if fr is None: continue
            n += 1
            for q in (fr["path"], fr.get("resolved") or "", fr.get("impl_self") or "", fr.get("self_ty") or ""):
                if q and bad_path(q):
                    ctx.violation("call:%s:%s" % (f.path, q), "%s calls %s: result depends on something other than the input" % (f.path, q), "%s:%s" % (sp[0], sp[1]) if sp else None)
        for c in cg.consts(f):
            if "fn" in c and bad_path(c["fn"]["path"]): ctx.violation("item:%s:%s" % (f.path, c["fn"]["path"]), "%s references %s" % (f.path, c["fn"]["path"]))
            if c.get("static") : pass
        for l in f.body["locals"]:
            if any(b in l[0] for b in BADTY):
                ctx.violation("type:%s:%s" % (f.path, l[0][:60]), "%s uses a value of type %s" % (f.path, l[0]))
            if "thread_local" in l[0]: ctx.violation("tls:%s" % f.path, "%s uses thread-local state" % f.path)
        for b in f.body["bbs"]:
            for s in b["s"]:
                if s[0] == "=" and s[2][0] == "cast" and "PointerExposeProvenance" in s[2][1]:
                    ctx.violation("addr:%s" % f.path, "%s turns an address into an integer" % f.path)
    ctx.floor("functions", nf, 600); ctx.floor("call_sites", n, 3000)
    ctx.cov["rule"] = "no static state, no ambient input, no address observation"
    ctx.cov["explanation"] = __doc__
