"""Runs one contract unit: extract the real functions with vx, hand them to Verus, sort the answers."""
import json, os, re, subprocess, time
from engines import ENV, VERIF, Broken, cargo

# messages of obligations that were generated and could not be discharged
OBLIGATION = re.compile(
    r"postcondition not satisfied|post-condition|precondition not satisfied|pre-condition|invariant not satisfied|assertion failed|assertion may fail"
    r"|decreases not satisfied|termination|possible arithmetic|possible division|possible bit shift|index out of bounds|unable to prove|not satisfied|could not prove|cannot show|loop must|requires not"
)
RLIMIT = re.compile(r"[Rr]esource limit|rlimit|timed out|timeout")
NOT_AN_ERROR = re.compile(r"aborting due to|^could not compile|verification results")


def build_vx(build):
    ok, diags, err = cargo(f"{VERIF}/tools/vx", f"{build}/vx")
    if not ok:
        raise Broken("vx does not build: " + ("\n".join(d["rendered"] for d in diags)[:3000] or err[-3000:]))
    return f"{build}/vx/debug/vx"


def verus(rs, cwd, timeout=420, extra=(), threads=8):
    t0 = time.time()
    try:
        p = subprocess.run(["verus", rs, "--output-json", "--time", "--error-format=json", "--triggers-mode", "silent", "--num-threads", str(threads), *extra], cwd=cwd, env=ENV, capture_output=True, timeout=timeout)
        out, err, code = p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace"), p.returncode
    except subprocess.TimeoutExpired:
        return {"verified": 0, "errors": 0, "vir": True, "ok": False, "smt_ms": 0, "functions": {}, "wall_s": time.time() - t0}, [{"message": "timed out", "spans": [], "rendered": "verus timed out"}]
    i = out.find("{")
    try:
        j = json.loads(out[i:])
    except ValueError:
        j = {}
    vr = j.get("verification-results", {})
    tm = j.get("times-ms", {})
    fns = {}
    for m in tm.get("smt", {}).get("smt-run-module-times", []):
        for f in m.get("function-breakdown", []):
            fns[f["function"]] = {"us": f.get("time-micros"), "rlimit": f.get("rlimit"), "ok": f.get("success"), "mode": f.get("mode:", f.get("mode"))}
    diags = []
    for l in err.splitlines():
        try:
            d = json.loads(l)
        except ValueError:
            continue
        if d.get("level") == "error" and not NOT_AN_ERROR.search(d.get("message", "")):
            diags.append(d)
    res = {
        "verified": vr.get("verified", 0), "errors": vr.get("errors", 0), "vir": bool(vr.get("encountered-vir-error", True)),
        "ok": bool(vr.get("success")) and code == 0, "smt_ms": tm.get("smt", {}).get("smt-run", 0), "functions": fns, "wall_s": round(time.time() - t0, 1),
    }
    if not res["ok"] and not diags:
        diags.append({"message": "verus gave no diagnostics: " + err[-800:], "spans": [], "rendered": err[-2000:]})
    return res, diags


def spans_of(d):
    out = list(d.get("spans", []))
    for c in d.get("children", []):
        out += spans_of(c)
    return out


def words_at(s, text):
    """the property names (c01_...) in exactly the source range of a span"""
    a, b = s["line_start"], s["line_end"]
    out = set()
    for ln in range(a, b + 1):
        if 0 < ln <= len(text):
            l = text[ln - 1]
            lo = s.get("column_start", 1) - 1 if ln == a else 0
            hi = s.get("column_end", len(l) + 1) - 1 if ln == b else len(l)
            for m in re.findall(r"\b((?:c\d\d_)+)\w+", l[lo:hi]):
                out |= set(re.findall(r"c\d\d", m))
    return out


# clauses about what quoted code does, by unit
QUOTED = {"ttoks": {"C10", "C17"}, "tparse": {"C11", "C12", "C17"}, "params": {"C01", "C02", "C03", "C04", "C05", "C06", "C16", "C17"}}


def contract_lines(vc):
    out = []
    for l in open(vc):
        m = re.match(r"@(?:include|assume) (\S+)", l)
        out += contract_lines(os.path.join(os.path.dirname(vc), m.group(1))) if m else [l]
    return out


def run_unit(name, repo, build, vx, probe=None, vc=None, threads=8, timeout=420):
    """-> dict(status=proved|failed|lost, verified, errors, failed=[...], lost=[...], functions=[...], ...)"""
    os.makedirs(f"{build}/out", exist_ok=True)
    tag = name + ("" if not probe else "_" + probe)
    rs, rep = f"{build}/out/{tag}.rs", f"{build}/out/{tag}.json"
    cmd = [vx, "--contract", vc or f"{VERIF}/contracts/{name}.vc", "--repo", repo, "--out", rs, "--report", rep] + (["--probe", probe] if probe else [])
    p = subprocess.run(cmd, env=ENV, capture_output=True, timeout=120)
    u = {"unit": name, "status": "proved", "verified": 0, "errors": 0, "failed": [], "lost": [], "functions": [], "smt_ms": 0, "wall_s": 0.0, "cmd": " ".join(cmd) + " && verus " + rs, "rs": rs}
    if p.returncode != 0:
        u["status"] = "lost"
        u["lost"].append("extraction failed: " + (p.stderr or p.stdout).decode(errors="replace")[-1500:])
        return u
    r = json.load(open(rep))
    u["functions"] = [f for f in r["functions"] if not f.get("trusted")]
    u["trusted"] = [f for f in r["functions"] if f.get("trusted")]
    u["lost"] += [f"anchor lost: {x}" for x in r.get("lost", [])]
    u["uncontracted"] = r.get("uncontracted", [])
    # what quoted code does is specified for the templates the contract names only
    u["new_templates"] = r.get("unnamed_templates", []) if any(l.startswith("@quote") for l in contract_lines(vc or f"{VERIF}/contracts/{name}.vc")) else []
    res, diags = verus(rs, f"{build}/out", timeout, (), threads)
    u.update({k: res[k] for k in ("verified", "errors", "smt_ms", "wall_s")})
    u["breakdown"] = res["functions"]
    if res["ok"] and not u["lost"]:
        return u
    text = open(rs).read().splitlines()
    soft = []
    for d in diags:
        msg = d["message"]
        sp = spans_of(d)
        lines = [s["line_start"] for s in sp if s.get("file_name", "").endswith(os.path.basename(rs))]
        fn = None
        for ln in [s["line_start"] for s in sp if s.get("is_primary")] + lines:
            for f in r["functions"]:
                if f["start"] <= ln <= f["end"]:
                    fn = f
                    break
            if fn:
                break
        words = set()
        for s in sp:
            words |= words_at(s, text)
        clause = ""
        for s in sp:
            if s.get("text"):
                clause = " ".join(t["text"].strip() for t in s["text"][:3])[:300]
                if not s.get("is_primary"):
                    break
        e = {"function": fn["name"] if fn else None, "file": fn.get("file") if fn else None, "line": fn.get("src_line") if fn else None, "message": msg, "clause": clause, "props": sorted(w.upper() for w in words), "rendered": d.get("rendered", "")[:4000]}
        if RLIMIT.search(msg):
            u["lost"].append(f"resource limit: {fn['name'] if fn else '?'}")
        elif OBLIGATION.search(msg) and fn and not res["vir"] and u["new_templates"] and e["props"] and set(e["props"]) <= QUOTED.get(name, set()):
            soft.append(f"{fn['name']}: quotes code the contract does not know: " + u["new_templates"][0][:200])
        elif OBLIGATION.search(msg) and fn and not res["vir"]:
            u["failed"].append(e)
        elif OBLIGATION.search(msg) and not res["vir"]:
            u["lost"].append("a lemma or shim obligation is not discharged: " + msg + " " + clause)
        else:
            u["lost"].append("outside the verifier's reach: " + msg[:300])
            u.setdefault("lost_at", []).extend(lines)
    if u["uncontracted"] and not res["ok"]:
        u["lost"] += [f"function without a contract: {x}" for x in u["uncontracted"]]
    u["soft"] = soft
    if soft and not u["failed"] and not u["lost"]:
        u["lost"] += soft
    u["status"] = "lost" if u["lost"] else "failed" if u["failed"] else "proved"
    if u["status"] == "proved" and not res["ok"]:
        u["status"] = "lost"
        u["lost"].append("verus did not succeed")
    return u
