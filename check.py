#!/usr/bin/env python3
"""Decide one property of simplemseed from its current source.

usage: check.py PROPERTY [--tier quick|thorough] [-v]
exit 0: no violation; 1: VIOLATION; 2: the analysis could not be carried out
"""
import argparse
import importlib
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True

from sa import kit  # noqa: E402


def load_known(path):
    """known_findings.txt: 'known: property=<id> key=<rule | construct> :: text' lines"""
    out = {}
    if not os.path.exists(path):
        return out
    for line in open(path):
        line = line.strip()
        if not line.startswith("known:"):
            continue
        body = line[len("known:"):].strip()
        pid, _, rest = body.partition(" ")
        pid = pid.partition("=")[2]
        key, _, text = rest.partition("::")
        key = key.strip().partition("=")[2].strip()
        out[(pid, key)] = text.strip()
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--src")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    pid = a.prop
    mod = importlib.import_module("sa.rules." + pid.lower())
    ctx = kit.Ctx(pid, a.tier, a.src)
    try:
        kit.run_rule(mod, ctx, int(os.environ.get("SA_JOBS", "0")) or min(8, os.cpu_count() or 1))
    except kit.AnchorMissing as e:
        print(f"ERROR property={pid} anchor not found in the source: {e}")
        return 2
    except SyntaxError as e:
        print(f"ERROR property={pid} source does not parse: {e}")
        return 2
    known = load_known(os.path.join(HERE, "known_findings.txt"))
    bad = [o for o in ctx.obs if o.status == "bad"]
    und = [o for o in ctx.obs if o.status == "undecided"]
    kn = [o for o in bad if (pid, o.key) in known]
    new = [o for o in bad if (pid, o.key) not in known]
    per = {}
    for o in ctx.obs:
        d = per.setdefault(o.rule, {"obligations": 0, "discharged": 0, "violated": 0, "undecided": 0})
        d["obligations"] += 1
        d[{"ok": "discharged", "bad": "violated", "undecided": "undecided"}[o.status]] += 1
    short = [f"{r}: {per.get(r, {}).get('obligations', 0)} < {n}" for r, n in ctx.floors.items() if per.get(r, {}).get("obligations", 0) < n]
    evd = os.path.join(HERE, "evidence")
    os.makedirs(evd, exist_ok=True)
    ev = {
        "property": pid, "tier": a.tier if a.tier in ("quick", "thorough") else "quick",
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
        "coverage": {
            "explanation": (mod.__doc__ or "").strip(),
            "obligations": len(ctx.obs), "discharged": sum(o.status == "ok" for o in ctx.obs),
            "undecided": len(und), "known_findings": len(kn),
            "rules": per,
            "analysis_runs": ctx.runs, "expressions_interpreted": ctx.steps,
            "functions_analysed": sorted(ctx.functions),
            "undecided_list": [f"{o.where} {o.key}: {o.detail}"[:300] for o in und[:20]],
            "sample_obligations": [f"{o.where} {o.key}" for o in ctx.obs[:: max(1, len(ctx.obs) // 8)][:8]],
        },
        "assumptions": [
            "value-graph abstract interpretation over CPython ast; library models (struct, numpy, datetime, json, re, crc32c, array) as written in sa/m_*.py",
            "floating point values are ideal reals except where a format conversion is the subject",
        ] + list(getattr(mod, "ASSUME", [])),
        "violations": len(new), "wall_s": round(time.time() - t0, 3),
    }
    with open(os.path.join(evd, pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
        fh.write("\n")
    if a.v:
        for o in ctx.obs:
            print(f"{o.status:9} {o.where:40} {o.key} {o.detail[:400]}")
    print(f"{pid}: {len(ctx.obs)} obligations, {ev['coverage']['discharged']} discharged, {len(new)} violated, {len(und)} undecided, {len(kn)} known; {ctx.runs} runs, {ev['wall_s']} s")
    for o in und[:10]:
        print(f"UNDECIDED {o.where} {o.key}: {o.detail[:200]}")
    seen = set()
    for o in kn:
        if o.key not in seen:
            seen.add(o.key)
            print(f"KNOWN-FINDING: property={pid} {o.key}: {known[(pid, o.key)]}")
    if new:
        rep = os.path.join(evd, pid + ".report.txt")
        with open(rep, "w") as fh:
            for o in new:
                fh.write(f"{o.where}: rule {o.key}\n    {o.detail}\n")
        for o in new[:5]:
            print(f"  {o.where}: {o.key}: {o.detail[:300]}")
        print(f"VIOLATION property={pid} replay={rep}")
        return 1
    if short and not und:
        print(f"ERROR property={pid} fewer obligations than the rules must produce: {'; '.join(short)}")
        return 2
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException as e:
        import traceback
        traceback.print_exc()
        print(f"ERROR {type(e).__name__}: {e}")
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
