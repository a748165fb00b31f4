#!/usr/bin/env python3
"""Entry point of the checks:  run.py <property> [--tier quick|thorough]
[--seed N] [--replay FILE] | --setup"""
import argparse, fcntl, importlib, json, os, sys, time, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib


def known():
    p = os.path.join(vlib.VERIF, "known-findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": []}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    a = ap.parse_args()
    if a.setup:
        os.makedirs(vlib.BUILD, exist_ok=True)
        vlib.build(*vlib.VARIANTS)
        return 0
    mod = importlib.import_module("checks." + a.prop.lower())
    if a.replay:
        r = json.load(open(a.replay))
        print(json.dumps(r, indent=1)[:20000])
    ctx = vlib.Ctx(a.prop, a.tier, a.seed)
    mod.run(ctx)
    wall = time.time() - ctx.t0

    # violations, minus the listed findings (identified by their exact input)
    left, seen = [], set()
    for b in ctx.bad:
        hit = None
        for k in known().get("findings", []):
            if k["property"] == a.prop and k["what"] == b["what"] and k["input"] == b["replay"]:
                hit = k
        if hit:
            key = json.dumps(hit, sort_keys=True)
            if key not in seen:
                seen.add(key)
                print("KNOWN-FINDING: property=%s %s" % (a.prop, hit["text"]))
        else:
            left.append(b)
    ev = {
        "property": a.prop, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": a.seed,
        "level": getattr(mod, "LEVEL", "model_checking"),
        "coverage": {
            "states": ctx.states, "transitions": ctx.transitions,
            "traces_validated_against_impl": ctx.traces,
            "samples": ctx.samples[:12] or ["(none)"],
        },
        "assumptions": ctx.assumptions + list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 2), "violations": len(left),
    }
    ev["coverage"].update(ctx.notes)
    os.makedirs(os.path.join(vlib.VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(vlib.VERIF, "evidence", a.prop + ".json.tmp%d" % os.getpid())
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(vlib.VERIF, "evidence", a.prop + ".json"))
    if left:
        os.makedirs(os.path.join(vlib.VERIF, "replays"), exist_ok=True)
        path = os.path.join(vlib.VERIF, "replays", "%s-%d.json" % (a.prop, a.seed))
        json.dump({"property": a.prop, "seed": a.seed, "tier": a.tier, "violations": left[:50]}, open(path, "w"), indent=1)
        for b in left[:5]:
            print("  %s: %s\n    input: %s" % (b["what"], b["why"][:400], json.dumps(b["replay"])[:600]))
        print("VIOLATION property=%s replay=%s" % (a.prop, path))
        return 1
    print("%s held: %d traces validated, %d states, %.1fs" % (a.prop, ctx.traces, ctx.states, wall))
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except vlib.Broken as e:
        print("MACHINERY: %s" % e, file=sys.stderr)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
