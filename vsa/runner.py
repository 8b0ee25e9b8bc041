#!/usr/bin/env python3
"""Run the check of one property against /repo's current working tree.

usage: runner.py <ID>        (tier from VERIF_TIER, seed from VERIF_SEED)
exit 0: held; exit 1 + VIOLATION line: broken (or the analysis could not be completed: fail closed)."""
import importlib, json, os, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE); sys.path.insert(0, os.path.join(HERE, "rules"))
import dump, prog as progmod
KNOWN = os.path.join(VERIF, "known-findings.txt")

class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid = pid; self.tier = tier; self.seed = seed; self._p = {}
        self.viol = []; self.cov = {}; self.assumptions = []
    def prog(self, comment=False):
        if comment not in self._p: self._p[comment] = progmod.Prog(dump.dumps(comment))
        return self._p[comment]
    def violation(self, key, msg, where=None, trace=None):
        """key: stable identity (no line numbers); where: file:line; msg: rule + construct"""
        for v in self.viol:
            if v["key"] == key: return
        self.viol.append({"key": key, "message": msg, "where": where, "trace": trace})
    def floor(self, what, n, least):
        """fail closed when a rule matched fewer instances than were confirmed by hand"""
        self.cov[what] = n
        if n < least:
            self.violation("floor:" + what, "analysis incomplete: only %d %s found, at least %d expected" % (n, what, least))

def known(pid):
    ks = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if not l.startswith("known:"): continue
            f = l[len("known:"):].strip()
            d = {}
            for part in f.split(" "):
                if part.startswith("property=") and "p" not in d: d["p"] = part[9:]
                elif part.startswith("key=") and "k" not in d: d["k"] = part[4:]
            if d.get("p") == pid: ks[d["k"]] = f
    return ks

def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if tier not in ("quick", "thorough"): tier = "quick"
    t0 = time.time()
    ctx = Ctx(pid, tier, seed)
    level = "other"
    try:
        m = importlib.import_module(pid.lower())
        level = getattr(m, "LEVEL", "other")
        m.check(ctx)
    except Exception as e:
        traceback.print_exc()
        ctx.violation("analysis-error:%s" % type(e).__name__, "the analysis could not be completed: %s" % e,
                      trace=traceback.format_exc())
    kn = known(pid)
    new = [v for v in ctx.viol if v["key"].replace(" ", "_") not in kn]
    old = [v for v in ctx.viol if v["key"].replace(" ", "_") in kn]
    for v in old:
        print("KNOWN-FINDING: property=%s %s" % (pid, v["message"]))
    cov = ctx.cov
    if level == "other" and "explanation" not in cov: cov["explanation"] = (m.__doc__ or "").strip() if "m" in dir() else ""
    if level == "proof":
        cov.setdefault("checker_cmd", "python3 vsa/runner.py %s" % pid)
        cov.setdefault("trusted_base", ["rustc nightly MIR construction (driver/main.rs)", "vsa abstract interpreter and std models"])
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": ctx.assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    ev["coverage"]["known_findings_reported"] = len(old)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f: json.dump(ev, f, indent=1, sort_keys=True, default=str)
    if new:
        rp = os.path.join(VERIF, "replay"); os.makedirs(rp, exist_ok=True)
        path = os.path.join(rp, pid + ".json")
        with open(path, "w") as f: json.dump(new, f, indent=1, default=str)
        for v in new:
            print("%s: [%s] %s" % (v["where"] or "-", v["key"], v["message"]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    print("OK property=%s (%.1fs)" % (pid, time.time() - t0))
    return 0
if __name__ == "__main__":
    sys.exit(main())
