#!/opt/venv/bin/python
"""check.py PROPERTY [--tier quick|thorough] [--seed N] | check.py --replay FILE

Decides one property of /verif/properties.jsonl for the code in /repo.
Exit 0: it held on everything explored (known findings are reported as such).
Exit 1: VIOLATION line.  Anything else: the machinery failed."""
import sys, os, json, time, tempfile, shutil, traceback, argparse
sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "lib"))


def known():
    out = []
    p = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
    for line in open(p) if os.path.exists(p) else []:
        if line.startswith("known: "):
            f = dict(x.split("=", 1) for x in line[7:].split(" -- ")[0].split() if "=" in x)
            out.append((f["property"], f["key"], line.split(" -- ", 1)[1].strip()))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    a = ap.parse_args()
    import plans
    if a.replay:
        return plans.replay(a.replay)
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="verif_")
    try:
        res = plans.run(a.prop, a.tier, a.seed, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    kn = [(k, d) for p, k, d in known() if p == a.prop]
    new, old = [], {}
    for b in res.bad:
        hit = [d for k, d in kn if k == b["key"]]
        if hit:
            old[b["key"]] = hit[0]
        else:
            new.append(b)
    for k, d in old.items():
        print(f"KNOWN-FINDING: property={a.prop} {k} {d}")
    ev = os.path.join(ROOT, "evidence")
    os.makedirs(os.path.join(ev, "replay"), exist_ok=True)
    json.dump({"property": a.prop, "tier": a.tier, "seed": a.seed, "level": "model_checking",
               "coverage": {"states": res.states, "transitions": res.transitions, "traces_validated_against_impl": res.traces,
                            "events_validated": res.events, "legs": res.notes, "samples": res.samples[:6]},
               "assumptions": plans.ASSUMPTIONS, "wall_s": round(time.time() - t0, 2), "violations": len(new)},
              open(os.path.join(ev, a.prop + ".json"), "w"), indent=1, default=str)
    print(f"{a.prop}: {res.states} states, {res.traces} traces of the real code ({res.events} events), {len(new)} violations, {time.time()-t0:.1f} s")
    shown = set()
    for n, b in enumerate(new):
        if b["key"] in shown and len(shown) > 0:
            continue
        shown.add(b["key"])
        f = os.path.join(ev, "replay", f"{a.prop}_{len(shown)}.json")
        json.dump(dict(b, property=a.prop), open(f, "w"), indent=1, default=str)
        print(f"VIOLATION property={a.prop} replay={f} what={b['key']}")
        if len(shown) >= 5:
            break
    return 1 if new else 0


if __name__ == "__main__":
    try:
        code = main()
    except BaseException:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    os._exit(code)
