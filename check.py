#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough  --  decides one property against /repo's working tree.
   check.py replay FILE             --  replays a recorded violation against /repo.

Exit 0: the property held on everything explored.  Exit 1: VIOLATION line on stdout.
Anything else: the check itself could not run (for instance /repo does not build)."""
import concurrent.futures as cf
import json, os, re, subprocess, sys, time, traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF + "/lib")
import engines, plan, units  # noqa: E402

REPO = os.environ.get("VX_REPO", "/repo")
BUILD = os.environ.get("VX_BUILD", VERIF + "/build")


def known_findings(prop):
    out = []
    for l in open(f"{VERIF}/KNOWN_FINDINGS"):
        m = re.match(r"finding: property=(\w+) key=(\S+) (.*)", l)
        if m and m.group(1) == prop:
            out.append((m.group(2), m.group(3).strip()))
    return out


def write_replay(prop, n, data):
    d = f"{VERIF}/build/replay"
    os.makedirs(d, exist_ok=True)
    path = f"{d}/{prop}-{n}.json"
    json.dump(data, open(path, "w"), indent=1, ensure_ascii=False)
    return path


def run_engines(names, tier, seed, prop):
    """concrete engines that watch this property -> {engine: result}"""
    out = {}
    for e in names:
        if e == "host":
            exe = engines.host_build(REPO, BUILD)
            out[e] = engines.host_checks(exe, tier, seed, [prop])[prop]
        elif e in ("hp", "alg"):
            out[e] = engines.direct(e, REPO, BUILD, tier, seed)
        else:
            out[e] = engines.family(e, REPO, BUILD, tier, seed)
    return out


def main(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    engines.setup_env()
    os.makedirs(BUILD, exist_ok=True)
    P = plan.PROPERTIES[prop]
    # -- the proof obligations and the concrete engines, side by side
    with cf.ThreadPoolExecutor(2) as ex:
        eng = ex.submit(run_engines, P["engines"], tier, seed, prop)
        us, gvac = {}, []
        vx = units.build_vx(BUILD)
        for u in P["units"]:
            us[u] = units.run_unit(u, REPO, BUILD, vx)
        if P.get("generated"):
            import generated
            exe = engines.host_build(REPO, BUILD)
            more, gvac = generated.run(P["generated"], exe, REPO, BUILD, vx, tier, seed)
            us.update(more)
        probes = {}
        for u in P["units"]:
            if us[u]["status"] == "proved":
                probes[u] = units.run_unit(u, REPO, BUILD, vx, "entry")
        res = eng.result()
    vac = list(gvac)
    for u, r in probes.items():
        hit = {f["function"] for f in r["failed"]}
        for f in us[u]["functions"]:
            if f["contracted"] and not f.get("item") and f["name"] not in hit:
                vac.append(f"{u}:{f['name']}")
    # -- concrete violations
    mine, others = [], []
    for e, r in res.items():
        for m in r["mismatches"]:
            m["engine"] = e
            (mine if prop in m["props"] else others).append(m)
    # -- failed obligations that bear on this property
    failed, elsewhere, lost = [], [], []
    for name, u in us.items():
        lost += [f"{name}: {x}" for x in u["lost"]]
        for f in u["failed"]:
            ps = f["props"] or plan.blame(name, f["function"])
            f["unit"], f["props"] = name, ps
            (failed if prop in ps else elsewhere).append(f)
    proved = all(u["status"] == "proved" and not u["lost"] for u in us.values()) and not vac
    deeper = None
    if (failed or lost) and not mine and tier == "quick":  # the proof decides nothing, or against the tree: search further
        deeper = {}
        for k in (1, 2):
            r2 = run_engines(P["engines"], "deep", seed + 1000 * k, prop)
            for e, r in r2.items():
                deeper[f"{e}#{k}"] = r["evaluations"]
                for m in r["mismatches"]:
                    m["engine"] = e
                    (mine if prop in m["props"] else others).append(m)
            if mine:
                break
    known = known_findings(prop)
    fresh, seen_known = [], set()
    for m in mine:
        k = next((k for k in known if k[0] == finding_key(m)), None)
        if k:
            seen_known.add(k)
        else:
            fresh.append(m)
    for k, text in sorted(seen_known):
        print(f"KNOWN-FINDING: property={prop} {text}")
    lines = []
    notes = []
    for i, m in enumerate(fresh[:5]):
        path = write_replay(prop, i + 1, {"property": prop, "kind": "input", **m, "failed_obligations": failed[:5], "replay": f"python3 {VERIF}/check.py replay {VERIF}/build/replay/{prop}-{i + 1}.json"})
        lines.append(f"VIOLATION property={prop} replay={path}")
    if failed and not fresh:
        unlost = [f for f in failed if us[f["unit"]]["status"] == "failed"]
        if not unlost:
            notes.append("obligations fail in a unit whose anchors are lost: not judged by the proof on this tree")
        elif any(set(f["props"]) & set(p for m in others for p in m["props"]) for f in unlost) and others:
            notes.append("a failed obligation shared with other properties is explained by a concrete violation of those alone")
        else:
            path = write_replay(prop, 1, {"property": prop, "kind": "obligation", "obligations": unlost[:5], "deeper_search": deeper})
            lines.append(f"VIOLATION property={prop} replay={path} no-failing-input-found")
    evidence(prop, tier, seed, P, us, res, proved, vac, lost, failed, elsewhere, notes, deeper, lines, t0)
    for f in failed[:5]:
        print(f"obligation not discharged: {f['unit']}::{f['function']} [{f['message']}] {f['clause']}")
    for l in lost[:6]:
        print("not proved on this tree:", l[:300])
    for m in fresh[:3]:
        print("input:", m["def"], m["list"], "--", m["why"][:600].replace("\n", " | "))
    for l in lines[:1]:
        print(l)
    print(f"{prop} {tier}: {'violated' if lines else 'held'}; obligations {sum(u['verified'] for u in us.values())} discharged, {sum(u['errors'] for u in us.values())} not; "
          f"{sum(r['evaluations'] for r in res.values())} inputs; {time.time() - t0:.0f} s")
    return 1 if lines else 0


def finding_key(m):
    return re.sub(r"\s+", "", f"{m['engine']}/{m['def']}/{m['list']}")


def evidence(prop, tier, seed, P, us, res, proved, vac, lost, failed, elsewhere, notes, deeper, lines, t0):
    fns = {n: [f"{f['file']}:{f['src_line']} {f['name']}" for f in u["functions"] if f["contracted"]] for n, u in us.items() if u["functions"]}
    cov = {
        "obligations": sum(u["verified"] + u["errors"] for u in us.values()),
        "discharged": sum(u["verified"] for u in us.values()),
        "checker_cmd": next((u["cmd"] for u in us.values()), "none: bounded search only"),
        "trusted_base": plan.TRUSTED + P.get("trusted", []),
        "back_end": "Verus 0.2026.09.13 / Z3 (bundled)",
        "solver_ms": sum(u["smt_ms"] for u in us.values()),
        "functions_under_contract": fns,
        "units": {n: {"status": u["status"], "verified": u["verified"], "errors": u["errors"], "wall_s": u["wall_s"], **({"definitions": u["definitions"]} if "definitions" in u else {})} for n, u in us.items()},
        "vacuity_guard": {"probe": "assert(false) at function entry must fail", "vacuous": vac},
        "not_proved_on_this_tree": lost[:20],
        "obligations_failed": [f"{f['unit']}::{f['function']}: {f['message']} {f['clause']}" for f in failed[:20]],
        "obligations_failed_other_properties": [f"{f['unit']}::{f['function']}" for f in elsewhere[:20]],
        "extraction_drops": plan.DROPS + P.get("drops", []),
        "bounded_search": {e: {k: r.get(k) for k in ("definitions", "evaluations", "distinct", "classes", "build_s", "run_s") if r.get(k) is not None} for e, r in res.items()},
        "bounded_note": P["bounded"],
        "evaluations": sum(r["evaluations"] for r in res.values()),
        "distinct_nontrivial": sum(r["distinct"] for r in res.values()),
        "rule": P["rule"],
        "samples": [s for r in res.values() for s in r["samples"]][:8],
        "explanation": P["explanation"],
    }
    if deeper:
        cov["deeper_search"] = deeper
    if notes:
        cov["notes"] = notes
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": P["level"], "coverage": cov,
        "assumptions": plan.ASSUMPTIONS + P.get("assumptions", []) + ([] if proved else ["not every obligation was discharged on this tree: the bounded search alone stands for the rest"]),
        "wall_s": round(time.time() - t0, 1), "violations": len(lines),
    }
    os.makedirs(f"{VERIF}/evidence", exist_ok=True)
    json.dump(ev, open(f"{VERIF}/evidence/{prop}.json", "w"), indent=1, ensure_ascii=False)


def replay(path):
    d = json.load(open(path))
    engines.setup_env()
    if d["kind"] == "obligation":
        print(json.dumps(d["obligations"], indent=1)[:6000])
        vx = units.build_vx(BUILD)
        bad = 0
        for n in sorted({o["unit"] for o in d["obligations"]}):
            if n in {u for P in plan.PROPERTIES.values() for u in P["units"]}:
                u = units.run_unit(n, REPO, BUILD, vx)
                print(n, u["status"], [f["function"] for f in u["failed"]])
                bad |= u["status"] != "proved"
        return 1 if bad else 0
    e = d["engine"]
    if e == "host":
        exe = engines.host_build(REPO, BUILD)
        kind = "header" if d["property"] == "C17" else "expand"
        print(d["def"], d["src"], "\nexpected:", d["why"], "\ngot:", engines.host_run(exe, [(kind, d["def"], d["src"])]))
        return 1
    if e == "alg":
        print([m for m in engines.direct(e, REPO, BUILD, "quick", 1)["mismatches"]])
        return 1
    if e == "hp":
        engines.direct(e, REPO, BUILD, "quick", 1)
        return subprocess.run([f"{BUILD}/target/debug/hp", "one", d["list"]], env=engines.ENV).returncode
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    engines.family(e, REPO, BUILD, "quick", seed)
    print(d["src"], "\n", d["list"], "\n", d["why"])
    return subprocess.run([f"{BUILD}/target/debug/{e}", "one", d["def"], d["list"]], env=engines.ENV).returncode


if __name__ == "__main__":
    if sys.argv[1] == "replay":
        sys.exit(replay(sys.argv[2]))
    try:
        sys.exit(main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")))
    except engines.Broken as e:
        print("the tree under check does not build:", e)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(3)
