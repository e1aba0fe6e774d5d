"""Builds and runs the three concrete engines against a repo tree."""
import json, os, random, re, shutil, subprocess, sys, time
import gen_sm, gen_tp, gen_host, host

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ)


def setup_env():
    out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh; env -0"], capture_output=True).stdout.decode()
    for kv in out.split("\0"):
        if "=" in kv:
            k, v = kv.split("=", 1)
            if k not in ("PWD", "OLDPWD", "SHLVL", "_"):
                ENV[k] = v
    for k in ("RUSTFLAGS", "RUSTDOCFLAGS", "CARGO_TARGET_DIR"):
        ENV.pop(k, None)
    ENV["CARGO_INCREMENTAL"] = "0"
    ENV["CARGO_PROFILE_DEV_DEBUG"] = "0"


class Broken(Exception):
    """the tree does not build"""


def cargo(dir, target, timeout=700, extra=()):
    """-> (ok, diagnostics)"""
    e = dict(ENV, CARGO_TARGET_DIR=target)
    p = subprocess.run(["cargo", "build", "--offline", "--message-format=json", "-q", *extra], cwd=dir, env=e, capture_output=True, timeout=timeout)
    diags = []
    for l in p.stdout.decode(errors="replace").splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get("reason") == "compiler-message" and m["message"]["level"] == "error":
            msg = m["message"]
            files = []

            def spans(s):
                files.append(s["file_name"])
                if s.get("expansion"):
                    spans(s["expansion"]["span"])

            for s in msg["spans"]:
                spans(s)
            diags.append({"message": msg["message"], "files": files, "rendered": msg.get("rendered") or "", "pkg": m.get("package_id", ""), "code": msg.get("code")})
    return p.returncode == 0, diags, p.stderr.decode(errors="replace")


def write_crate(out, engine, defs, repo):
    shutil.rmtree(out + "/src", ignore_errors=True)
    os.makedirs(out + "/src/defs")
    for f in ("main.rs", "model.rs"):
        shutil.copy(f"{engine}/src/{f}", f"{out}/src/{f}")
    toml = open(engine + "/Cargo.toml").read().replace('"/repo/structmeta"', f'"{repo}/structmeta"')
    open(out + "/Cargo.toml", "w").write(toml)
    write_mods(out, defs, set())


def write_mods(out, defs, skip):
    m = ""
    keep = [d for d in defs if d["name"] not in skip]
    for d in keep:
        open(f"{out}/src/defs/{d['name']}.rs", "w").write(d["code"])
        m += f"pub mod {d['name']};\n"
    m += "pub fn all() -> Vec<crate::model::Def> { vec![" + ",".join(f"{d['name']}::def()" for d in keep) + "] }\n"
    open(f"{out}/src/defs/mod.rs", "w").write(m)


def family(kind, repo, build, tier, seed):
    """build and run the sm or tp family; -> result dict"""
    t0 = time.time()
    gen = gen_sm if kind == "sm" else gen_tp
    defs = gen.family(seed, tier)
    out = f"{build}/{kind}"
    os.makedirs(out, exist_ok=True)
    write_crate(out, f"{VERIF}/engine/{kind}", defs, repo)
    skip = {}
    for _ in range(6):
        ok, diags, err = cargo(out, f"{build}/target")
        if ok:
            break
        bad = {}
        for d in diags:
            for f in d["files"]:
                m = re.search(r"src/defs/(\w+)\.rs", f)
                if m and m.group(1) != "mod":
                    bad.setdefault(m.group(1), d)
        bad = {k: v for k, v in bad.items() if k not in skip}
        if not bad:
            raise Broken("\n".join(d["rendered"] for d in diags)[:4000] or err[-4000:])
        skip.update(bad)
        write_mods(out, defs, skip)
    else:
        raise Broken("definitions keep failing to compile")
    misses = []
    by = {d["name"]: d for d in defs}
    for n, dg in sorted(skip.items()):
        d = by[n]
        own = dg["code"] is None and not dg["message"].startswith("proc-macro derive panicked")
        if kind == "sm":
            props = ["C09"] + (["C17"] if d["generic"] and not own else []) + (["C08"] if d["spelled"] else []) + ["C01", "C03", "C04"] * (not own)
        else:
            props = (["C13"] if own or "panicked" in dg["message"] else []) + (["C10", "C12" if d["enum"] else "C11"] if not own else []) + (["C17"] if d["generic"] and not own else [])
        misses.append({"props": props, "def": n, "src": d["src"], "list": "", "why": "the definition must be accepted, but does not compile: " + dg["rendered"][:1500]})
    t1 = time.time()
    n = {"sm": {"quick": "1500", "deep": "6000", "thorough": "30000"}, "tp": {"quick": "3000", "deep": "20000", "thorough": "100000"}}[kind][tier]
    p = subprocess.run([f"{build}/target/debug/{kind}", "run", str(seed), n], env=ENV, capture_output=True, timeout=800)
    if p.returncode != 0:
        # a crash that cannot be caught (stack overflow, abort): find the definition
        misses.append({"props": ["C01", "C04", "C05"] if kind == "sm" else ["C11", "C12"], "def": "", "src": "", "list": "", "why": f"the generated parsers crash the process (exit {p.returncode}): " + p.stderr.decode(errors="replace")[-500:]})
        return {"definitions": len(defs), "evaluations": 0, "distinct": 0, "classes": {}, "samples": [], "mismatches": misses, "build_s": t1 - t0, "run_s": time.time() - t1}
    r = json.loads(p.stdout)
    spelled = {d["name"] for d in defs if d["spelled"]}
    gen_ = {d["name"] for d in defs if d["generic"]}
    for m in r["mismatches"]:
        if m["def"] in gen_ and "C17" not in m["props"]:
            m["props"].append("C17")
    r["mismatches"] = misses + r["mismatches"]
    r["build_s"], r["run_s"] = round(t1 - t0, 1), round(time.time() - t1, 1)
    return r


def direct(kind, repo, build, tier, seed):
    """the helpers (hp) or the argument types (alg) called directly; private interface, so a tree
    where it does not compile is simply not searched this way"""
    t0 = time.time()
    out = f"{build}/hp"
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out + "/src/bin")
    for f in ("hp.rs", "alg.rs"):
        shutil.copy(f"{VERIF}/engine/hp/src/bin/{f}", f"{out}/src/bin/{f}")
    toml = open(f"{VERIF}/engine/hp/Cargo.toml").read().replace('"/repo/structmeta"', f'"{repo}/structmeta"')
    open(out + "/Cargo.toml", "w").write(toml)
    ok, diags, err = cargo(out, f"{build}/target", extra=["--bin", kind])
    empty = {"evaluations": 0, "distinct": 0, "classes": {}, "samples": [], "mismatches": [], "build_s": round(time.time() - t0, 1), "run_s": 0}
    if not ok:
        bad = "\n".join(d["rendered"] for d in diags)
        if not bad or any(f.startswith("structmeta") or "/structmeta" in f for d in diags for f in d["files"] if "src/bin" not in f):
            raise Broken(bad[:3000] or err[-3000:])
        return dict(empty, classes={"interface changed, not searched": 1})
    t1 = time.time()
    n = {"quick": "400000", "deep": "3000000", "thorough": "20000000"}[tier]
    p = subprocess.run([f"{build}/target/debug/{kind}", "run", str(seed), n], env=ENV, capture_output=True, timeout=800)
    if p.returncode != 0:
        return dict(empty, mismatches=[{"props": ["C06", "C07", "C15"] if kind == "hp" else ["C14"], "def": kind, "src": "", "list": "", "why": "the helpers crash the process: " + p.stderr.decode(errors="replace")[-500:]}])
    r = json.loads(p.stdout)
    r["build_s"], r["run_s"] = round(t1 - t0, 1), round(time.time() - t1, 1)
    return r


def host_build(repo, build):
    out = f"{build}/host"
    os.makedirs(out, exist_ok=True)
    entries = host.make(repo, out, f"{VERIF}/engine/host")
    ok, diags, err = cargo(out, f"{build}/target")
    if not ok:
        raise Broken("derive host: " + ("\n".join(d["rendered"] for d in diags)[:3000] or err[-3000:]))
    return f"{build}/target/debug/host"


def host_run(exe, reqs):
    data = "\n".join("\x1f".join(r) for r in reqs) + "\n"
    p = subprocess.run([exe], input=data.encode(), capture_output=True, env=ENV, timeout=800)
    out = p.stdout.decode().splitlines()
    res = [l.split("\x1f", 1) for l in out]
    while len(res) < len(reqs):
        res.append(["panic", "the process died"])
    return res


def host_checks(exe, tier, seed, which):
    """which: subset of C08 C09 C13 C17 -> {prop: {...}}"""
    out = {}
    n = {"quick": 4000, "deep": 12000, "thorough": 60000}[tier]
    for prop in which:
        t0 = time.time()
        r = random.Random(f"{prop}/{seed}")
        miss, classes, samples = [], {}, []
        if prop in ("C09", "C13"):
            if prop == "C09":
                cases = [("StructMeta", s, f) for s, f in gen_host.sm_fixed()]
                for _ in range(n):
                    s, f = gen_host.sm_case(r, r.choice([2, 3, 4, 6, 8]))
                    cases.append(("StructMeta", s, f))
            else:
                cases = gen_host.tp_fixed()
                for i in range(n):
                    d = "Parse" if i % 3 else "ToTokens"
                    s, f = gen_host.tp_case(r, d)
                    cases.append((d, s, f))
            res = host_run(exe, [("expand", d, s) for d, s, _ in cases])
            for (d, s, f), (st, msg) in zip(cases, res):
                if st == "bad":
                    classes["not a Rust item"] = classes.get("not a Rust item", 0) + 1
                    continue
                k = f or "accepted"
                classes[k] = classes.get(k, 0) + 1
                if st == "panic":
                    why = f"the derive panics: {msg}"
                elif f and st == "ok":
                    why = f"must be rejected ({f}), but is accepted"
                elif not f and st == "err":
                    why = f"must be accepted, but is rejected: {msg[:300]}"
                else:
                    continue
                miss.append({"props": [prop], "def": d, "src": s, "list": "", "why": why})
            samples = [{"derive": d, "definition": s, "fault": f} for d, s, f in cases[:: max(1, len(cases) // 5)]][:6]
            total = len(cases)
        elif prop == "C08":
            reqs, meta = [], []
            places = ["struct S {{ f: {0} }}", "struct S {{ #[struct_meta(unnamed)] f: {0} }}", "struct S {{ x: HashMap<String, {0}> }}", "struct S {{ f: Option<{0}>, g: bool }}",
                      "struct S {{ f: NameValue<{0}>, h: NameArgs<{0}>, u: NameArgs<Option<{0}>> }}"]
            same_places = ["struct S {{ f: {0} }}", "struct S {{ b: bool, f: {0}, #[struct_meta(unnamed)] u: Option<Expr> }}", 'struct S(#[struct_meta(name = "x")] {0}, u8);']
            for t in gen_host.NOT_SPECIAL:
                for i, pl in enumerate(places):
                    if i == 3 and t.split("<")[0].strip() in ("Vec", "x"):
                        continue
                    reqs += [("expand", "StructMeta", pl.format("Plain__")), ("expand", "StructMeta", pl.format(t))]
                    meta.append(("plain", t, pl))
            for ts, pls in gen_host.INSIDE:
                for t in ts:
                    for pl in pls:
                        reqs += [("expand", "StructMeta", pl.format("Plain__")), ("expand", "StructMeta", pl.format(t))]
                        meta.append(("plain", t, pl))
            for c, s in gen_host.same_pairs():
                for pl in same_places:
                    if c.startswith("HashMap<") and "name =" in pl:
                        continue
                    reqs += [("expand", "StructMeta", pl.format(c)), ("expand", "StructMeta", pl.format(s))]
                    meta.append(("same", (c, s), pl))
            res = host_run(exe, reqs)
            toks = host_run(exe, [("expand", "ToTokens", f"struct S({t});") for t in gen_host.NOT_SPECIAL]) if False else None
            norm = lambda s: re.sub(r"\s+", "", s)
            for i, (k, t, pl) in enumerate(meta):
                a, b = res[2 * i], res[2 * i + 1]
                classes[k] = classes.get(k, 0) + 1
                if b[0] == "bad" or a[0] == "bad":
                    classes["not a Rust item"] = classes.get("not a Rust item", 0) + 1
                    continue
                if k == "plain":
                    ok = a[0] == b[0] and norm(a[1]).replace("Plain__", norm(t)) == norm(b[1])
                    why = f"`{t}` must be a plain value type"
                else:
                    ok = a[0] == b[0] and norm(a[1]) == norm(b[1])
                    why = f"`{t[1]}` must be treated like `{t[0]}`" if k == "same" else ""
                    if not ok and a[0] == b[0] == "ok":
                        # the whole type may be spelled out in the expansion
                        ok = norm(a[1]).replace(norm(t[0]), norm(t[1])) == norm(b[1])
                if b[0] == "panic":
                    ok, why = False, why + " (panic)"
                if not ok:
                    miss.append({"props": ["C08"], "def": "StructMeta", "src": pl.format(t if k == "plain" else t[1]), "list": "", "why": why + f"; compare the expansion of `{pl.format('Plain__' if k == 'plain' else t[0])}`"})
            samples = [{"kind": k, "type": t, "definition": pl.format(t if k == "plain" else t[1])} for k, t, pl in meta[:: max(1, len(meta) // 5)]][:6]
            total = len(meta)
        else:
            cases = gen_host.header_cases()
            res = host_run(exe, [("header", d, s) for d, s in cases])
            for (d, s), (st, msg) in zip(cases, res):
                if msg.startswith("bad case"):
                    classes["not a Rust item"] = classes.get("not a Rust item", 0) + 1
                    continue
                classes[d] = classes.get(d, 0) + 1
                if st != "ok":
                    miss.append({"props": ["C17"], "def": d, "src": s, "list": "", "why": f"the impl header is not that of the type: {msg}"})
            samples = [{"derive": d, "definition": s} for d, s in cases[:: max(1, len(cases) // 5)]][:6]
            total = len(cases)
        miss.sort(key=lambda m: len(m["src"]))
        out[prop] = {"evaluations": total, "distinct": total - classes.get("not a Rust item", 0), "classes": classes, "samples": samples, "mismatches": miss[:20], "run_s": round(time.time() - t0, 1)}
    return out


if __name__ == "__main__":
    setup_env()
    repo = sys.argv[1]
    b = sys.argv[2]
    tier = sys.argv[3] if len(sys.argv) > 3 else "quick"
    exe = host_build(repo, b)
    for k, v in host_checks(exe, tier, 1, ["C08", "C09", "C13", "C17"]).items():
        print(k, v["evaluations"], v["distinct"], v["classes"], v["run_s"])
        for m in v["mismatches"][:8]:
            print("   ", m)
