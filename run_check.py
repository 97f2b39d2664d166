#!/usr/bin/env python3
"""Decide one property of /repo by static analysis.   run_check.py <ID> [--tier quick|thorough]
exit 0: no obligation refuted (undecided ones are printed and listed in the evidence);
exit 1: a violation (VIOLATION line); exit 2: the analysis failed on most of the property."""
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.execv(sys.executable, [sys.executable, os.path.abspath(__file__)] + sys.argv[1:])
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import json
import time
import threading


def main():
    from sa import registry, teval, scen
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    teval.SEED = seed
    if tier == "thorough":
        teval.TRIALS = 40
    t0 = time.time()
    c = scen.Ctx(pid, tier)
    fn = registry.CHECKS[pid]
    known = load_known(pid)
    c.is_known = lambda key: any(k["match"] in key for k in known)

    def analyse():
        try:
            fn(c)
        except scen.Decided:
            c.notes.append("the analysis stopped early after establishing a violation")
        except Exception as e:  # the analysis itself failed: never a silent pass
            import traceback
            if os.environ.get("VERIF_DEBUG"):
                traceback.print_exc()
            c.scen = ""
            c.record("analysis completes", None, f"{type(e).__name__}: {e}")
    t = threading.Thread(target=analyse, daemon=True)
    t.start()
    t.join(float(os.environ.get("VERIF_BUDGET", "780")))
    if t.is_alive():
        c.scen = ""
        c.record("analysis completes", None, "time budget exhausted; what was decided so far is reported")
    bad = [o for o in c.obls if o.verdict is False]
    und = [o for o in c.obls if o.verdict is None]
    good = [o for o in c.obls if o.verdict is True]
    new, hits = [], {}
    for o in bad:
        k = next((k for k in known if k["match"] in o.key), None)
        if k is None:
            new.append(o)
        else:
            hits.setdefault(k["match"], (k, o))
    unlisted_und = [o for o in und if not any(k["match"] in o.key for k in known)]
    I = c.I
    files = sorted({m.path and os.path.relpath(m.path, scen.REPO) for k in I.functions for m in [I.modules.get(k[0])] if m is not None and m.path})
    funcs = sorted(I.functions)
    wall = time.time() - t0
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": "static analysis of the current source tree: abstract interpretation of the listed functions into algebraic value-graph terms / effect traces; every obligation is an equality, condition or effect rule on those. No repository code is executed.",
            "rule": "; ".join(c.rules), "undecided": [{"obligation": o.key, "why": o.detail[:300]} for o in und],
            "obligations": len(c.obls), "discharged": len(good),
            "discharged_by_normal_form": teval.STATS["normal_form"], "discharged_by_term_identity_test": teval.STATS["sampled"],
            "scenarios": c.nscen,
            "functions_analysed": len(funcs), "call_sites": len(I.call_sites), "branches_joined": I.branches, "loops_summarised": I.loops,
            "library_calls_modelled": sum(I.lib_calls.values()) if I.lib_calls else 0,
            "source_files": files, "functions": [str(f) for f in funcs][:400],
            "samples": [{"obligation": o.key, "site": list(o.site) if o.site else None, "verdict": o.verdict} for o in c.obls[:: max(1, len(c.obls) // 25)]],
            "unmodelled_constructs": I.gaps[:50],
        },
        "assumptions": registry.ASSUMPTIONS + c.notes,
        "wall_s": round(wall, 3), "violations": len(new),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    print(f"{pid} [{tier}] {registry.TITLES.get(pid, '')}")
    for r in c.rules:
        print(f"  rule: {r}")
    print(f"  analysed {len(funcs)} functions in {len(files)} files, {len(I.call_sites)} call sites, {I.loops} loops, {I.branches} branches; {c.nscen} scenarios; {len(good)}/{len(c.obls)} obligations discharged in {wall:.1f}s")
    for m, (k, o) in hits.items():
        print(f"KNOWN-FINDING: property={pid} {k['text']}")
    for o in und[:20]:
        print(f"  undecided: {o.key} at {fmt_site(o.site)}: {o.detail[:500]}")
    if new:
        rp = os.path.join(HERE, "evidence", f"{pid}.violation.json")
        with open(rp, "w") as fh:
            json.dump([{"obligation": o.key, "site": list(o.site) if o.site else None, "detail": o.detail} for o in new], fh, indent=1, default=str)
        for o in new[:20]:
            print(f"  violated: {o.key}\n    at {fmt_site(o.site)}\n    {o.detail[:900]}")
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    if not good or len(good) < len(unlisted_und):
        return 2  # the analysis did not get far enough to say anything
    return 0


def fmt_site(s):
    return f"{s[0]}:{s[2]} ({s[1]})" if s else "?"


def load_known(pid):
    """known_findings.txt lines:  KNOWN-FINDING: property=<id> match=<obligation text> :: <what fails>"""
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("KNOWN-FINDING:") and f"property={pid} " in line:
                rest = line.split("match=", 1)[1]
                m, _, t = rest.partition(" :: ")
                out.append({"match": m.strip(), "text": t.strip()})
    return out


if __name__ == "__main__":
    sys.setrecursionlimit(20000)
    threading.stack_size(512 * 1024 * 1024)
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
