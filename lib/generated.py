"""Units for generated code: runs the derive macros of the tree under check on a family of
definitions and proves the code they generate against contracts written from the definitions."""
import concurrent.futures as cf
import json, os, re
import contract_tp, engines, gen_sm, gen_tp, units
from engines import VERIF


def rs(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'


# ---------------------------------------------------------------- StructMeta
FLAGS = ("Bool", "Flag", "Nvo", "Nao", "Naov")
NVS = ("Val", "Nv", "Nvo")
NAS = ("Vec", "Na", "Nao", "Nav", "Naov")
LEAF = {"Int": "LitInt", "Str": "LitStr", "Ident": "Ident", "Expr": "Expr", "Type": "Type", "Empty": "Empty"}


def sm_usable(d):
    return all(f.leaf in LEAF for f in d["fields"])


def asc(i):
    return "".join(c if c.isascii() else f"_u{ord(c):x}" for c in i.replace("r#", "r_"))


def literals(code):
    return [m.group(1) for m in re.finditer(r'"((?:[^"\\]|\\.)*)"', code)]


class Sm:
    """contract text of one derived StructMeta parser"""

    def __init__(s, d, expansion):
        s.d, s.x = d, expansion
        s.F = list(enumerate(d["fields"]))
        s.req = [(i, f) for i, f in s.F if f.place == "Unnamed" and f.kind == "Val" and not f.opt]
        s.opt = [(i, f) for i, f in s.F if f.place == "Unnamed" and f.kind == "Val" and f.opt]
        s.var = [(i, f) for i, f in s.F if f.place == "Unnamed" and f.kind == "Vec"]
        s.named = sorted([(i, f) for i, f in s.F if f.place == "Named"], key=lambda x: x[1].name.encode())
        s.rest = [(i, f) for i, f in s.F if f.place == "Rest"]
        s.g = "<" + ", ".join(d["tparams"]) + ">" if d["tparams"] else ""
        s.gt = "::" + s.g if s.g else ""
        s.gd = "<" + ", ".join(f"{t}: Parse" for t in d["tparams"]) + ">" if d["tparams"] else ""
        gd = [f"{t}: Parse" for t in d["tparams"]] + (["const N: usize"] if d["const"] else [])
        self_ = d["tparams"] + (["N"] if d["const"] else [])
        s.gd_r = "<" + ", ".join(gd) + ">" if gd else ""
        s.D = "D" + ("<" + ", ".join(self_) + ">" if self_ else "")
        s.tables()
        s.roles()

    def ty(s, f):
        return (f.tparam if getattr(f, "tparam", None) else LEAF[f.leaf])

    def tyi(s, f):
        return f"<{s.ty(f)} as Parse>::ty()"

    # names of each style, in the order of the code's own tables when these hold the same names
    def tables(s):
        want = [[f.name for _, f in s.named if f.kind in ks] for ks in (FLAGS, NVS, NAS)]
        m = re.search(r"try_parse_name \( input , & \[(.*?)\] , \w+ , & \[(.*?)\] , \w+ , & \[(.*?)\] , \w+", s.x)
        if m:
            for k in range(3):
                got = [json.loads(f'"{x}"') for x in literals(m.group(k + 1))]
                if sorted(got) == sorted(want[k]):
                    want[k] = got
        s.names = want
        s.restk = [bool(s.rest) and s.rest[0][1].kind in ks for ks in (FLAGS, NVS, NAS)]
        s.no_unnamed = not (s.opt or s.var)

    # the locals of the generated code that hold the state
    def roles(s):
        x = s.x
        lets = [(m.group(2), m.group(3)) for m in re.finditer(r"let (mut )?(\w+)(?: : [^=;]*?)? = ([^;]*);", x)]
        muts = [m.group(1) for m in re.finditer(r"let mut (\w+)", x)]
        s.local = {}
        m = re.search(r".*\bOk \(\s*Self\b(.*)$", x, re.S)
        ctor = m.group(1) if m else ""
        # the local that the constructor argument of each field starts with
        for i, f in s.F:
            a = s.d["access"][i]
            if a.isdigit():
                parts = split_args(ctor.strip())
                e = parts[int(a)] if int(a) < len(parts) else ""
            else:
                e = next((p.split(":", 1)[1] for p in split_args(ctor.strip()) if p.strip().split(":")[0].strip() == a), "")
                if not e and re.search(rf"\b{a}\b", ctor):
                    e = a
            ids = [t for t in re.findall(r"\w+", e) if re.search(rf"let (?:mut )?{t}\b", x)]
            s.local[i] = ids[0] if ids else f"_value_{i}"
        state = {s.local[i] for i, _ in s.F}
        rest = [(m.group(1), m.group(2).strip()) for m in re.finditer(r"let mut (\w+) = (true|false|0)\s*;", x) if m.group(1) not in state]

        def role(name, init):
            if any(n == name for n, _ in rest):
                return name
            c = [n for n, v in rest if v in init]
            return c[0] if c else name

        s.is_next = role("is_next", ("true", "false"))
        s.idx = role("unnamed_index", ("0",))
        left = [n for n, v in rest if v == "false" and n != s.is_next]
        s.used = "named_used" if "named_used" in left else (left[0] if left else "named_used")

    # ------------------------------------------------------------------ spec text
    def state(s):
        f = [f"r{i}: Val" for i, _ in s.req] + [f"v{i}: Option<Fv>" for i, _ in s.opt] + [f"l{i}: Seq<Val>" for i, _ in s.var]
        f += [f"v{i}: Option<Fv>" for i, _ in s.named] + [f"m{i}: Map<Seq<char>, Fv>" for i, _ in s.rest]
        return f + ["next: bool", "k: int", "used: bool"]

    def value(s, f, style, b, then):
        """spec of the value of a parameter of f's kind written in a style; `then(value, buffer)`"""
        k, t = f.kind, s.tyi(f)
        if style == "Flag":
            v = {"Bool": "Fv::Sp(sp)", "Flag": "Fv::Sp(sp)"}.get(k, "Fv::N(sp, Inner::None)")
            return then(v, b)
        if k in ("Val", "Nv", "Nvo"):
            v = {"Val": "Fv::V(x)", "Nv": "Fv::N(sp, Inner::V(x))", "Nvo": "Fv::N(sp, Inner::SomeV(x))"}[k]
            p = "p_value"
        elif k in ("Na", "Nao"):
            v = {"Na": "Fv::N(sp, Inner::V(x))", "Nao": "Fv::N(sp, Inner::SomeV(x))"}[k]
            p = "p_args"
        else:
            v = {"Vec": "Fv::L(x)", "Nav": "Fv::N(sp, Inner::L(x))", "Naov": "Fv::N(sp, Inner::SomeL(x))"}[k]
            p = "p_list"
        return f"match {p}({t}, {b}) {{ None => Step::Stop(Out::Leaf), Some((x, e)) => {then(v, 'e')} }}"

    def spec(s):
        o = []
        o.append("pub ghost struct St { " + ", ".join("pub " + x for x in s.state()) + " }")
        o.append("pub ghost enum Out { End(St, Pb), Dup(int), Sep, TooFew, TooMany, AfterNamed, Name(Pb), Leaf, Bad }")
        o.append("pub ghost enum Step { Go(St, Pb), Stop(Out) }")
        seqs = ", ".join("Tab { names: seq![" + ", ".join(f"{rs(n)}@" for n in ns) + f"], rest: {str(r).lower()} }}" if ns else f"Tab {{ names: Seq::<Seq<char>>::empty(), rest: {str(r).lower()} }}" for ns, r in zip(s.names, s.restk))
        f, v, a = seqs.split(", Tab")
        o.append(f"pub open spec fn tabs() -> Tabs {{ Tabs {{ f: {f}, v: Tab{v}, a: Tab{a}, no_unnamed: {str(s.no_unnamed).lower()} }} }}")
        o.append("pub open spec fn flt() -> spec_fn(Seq<char>) -> bool { |n: Seq<char>| " + ("snake_name(n)" if s.d["snake"] else "true") + " }")
        lem = []
        for w, ns in zip("fva", s.names):
            has = " && ".join([f"s.len() == {len(ns)}"] + [f"s[{j}]@ == {rs(n)}@" for j, n in enumerate(ns)])
            eq = "seq![" + ", ".join(f"{rs(n)}@" for n in ns) + "]" if ns else "Seq::<Seq<char>>::empty()"
            lem.append(f"pub broadcast proof fn tab_{w}(s: Seq<&str>) ensures ({has}) ==> #[trigger] strs(s) == {eq} {{ if {has} {{ assert(strs(s) =~= {eq}); }} }}")
        o.append("pub mod tb { use super::*; " + "\n".join(lem) + " pub broadcast group tabs { tab_f, tab_v, tab_a } }")
        # unnamed argument
        if s.no_unnamed:
            un = "Step::Stop(Out::TooMany)"
        else:
            un = "if s.used { Step::Stop(Out::AfterNamed) }"
            for j, (i, fd) in enumerate(s.opt):
                un += f" else if s.k == {j} {{ match p_value({s.tyi(fd)}, c) {{ None => Step::Stop(Out::Leaf), Some((x, d)) => Step::Go(St {{ v{i}: Some(Fv::V(x)), next: true, k: s.k + 1, ..s }}, d) }} }}"
            if s.var:
                i, fd = s.var[0]
                un += f" else {{ match p_value({s.tyi(fd)}, c) {{ None => Step::Stop(Out::Leaf), Some((x, d)) => Step::Go(St {{ l{i}: s.l{i}.push(x), next: true, k: s.k + 1, ..s }}, d) }} }}"
            else:
                un += " else { Step::Stop(Out::TooMany) }"
        # named arguments
        at, rest = {}, {}
        for w, (style, ns) in enumerate(zip(("Flag", "NameValue", "NameArgs"), s.names)):
            arms = ""
            for j, n in enumerate(ns):
                i, fd = next((i, fd) for i, fd in s.named if fd.name == n)
                body = s.value(fd, style, "d", lambda v, e: f"if s.v{i} is Some {{ Step::Stop(Out::Dup(sp)) }} else {{ Step::Go(St {{ v{i}: Some({v}), next: true, used: true, ..s }}, {e}) }}")
                arms += f"if j == {j} {{ {body} }} else "
            at[style] = arms + "{ Step::Stop(Out::Bad) }"
            rest[style] = "Step::Stop(Out::Bad)"
            if s.restk[w]:
                i, fd = s.rest[0]
                rest[style] = s.value(fd, style, "d", lambda v, e: f"if s.m{i}.dom().contains(nm) {{ Step::Stop(Out::Dup(sp)) }} else {{ Step::Go(St {{ m{i}: s.m{i}.insert(nm, {v}), next: true, used: true, ..s }}, {e}) }}")
        o.append(f"""pub open spec fn step{s.gd}(s: St, c: Pb) -> Step {{
    match name_at(tabs(), flt(), c.toks) {{
        Named::Unnamed => {{ {un} }}
        Named::Err => Step::Stop(Out::Name(c)),
        Named::Taken(w, i, sp, n) => {{
            let d = c.adv(n as int);
            match i {{
                Idx::At(j) => match w {{
                    Style::Flag => {{ {at["Flag"]} }}
                    Style::NameValue => {{ {at["NameValue"]} }}
                    Style::NameArgs => {{ {at["NameArgs"]} }}
                }},
                Idx::Rest(nm) => match w {{
                    Style::Flag => {{ {rest["Flag"]} }}
                    Style::NameValue => {{ {rest["NameValue"]} }}
                    Style::NameArgs => {{ {rest["NameArgs"]} }}
                }},
            }}
        }}
    }}
}}""")
        o.append(f"""pub open spec fn sem1{s.gd}(s: St, b: Pb) -> Out {{
    if b.toks.len() == 0 {{ Out::End(s, b) }}
    else if s.next && !punct1(b.toks, ',') {{ Out::Sep }}
    else {{
        let c = if s.next {{ b.adv(1) }} else {{ b }};
        if s.next && c.toks.len() == 0 {{ Out::End(s, c) }}
        else {{
            match step{s.gt}(s, c) {{
                Step::Go(t, d) => if d.toks.len() <= c.toks.len() && t.next {{ sem{s.gt}(t, d) }} else {{ Out::Bad }},
                Step::Stop(o) => o,
            }}
        }}
    }}
}}
#[verifier::opaque] pub open spec fn sem{s.gd}(s: St, b: Pb) -> Out
    decreases 2 * b.toks.len() + (if s.next {{ 0int }} else {{ 1 }})
{{
    if b.toks.len() == 0 {{ Out::End(s, b) }}
    else if s.next && !punct1(b.toks, ',') {{ Out::Sep }}
    else {{
        let c = if s.next {{ b.adv(1) }} else {{ b }};
        if s.next && c.toks.len() == 0 {{ Out::End(s, c) }}
        else {{
            match step{s.gt}(s, c) {{
                Step::Go(t, d) => if d.toks.len() <= c.toks.len() && t.next {{ sem{s.gt}(t, d) }} else {{ Out::Bad }},
                Step::Stop(o) => o,
            }}
        }}
    }}
}}
pub broadcast proof fn sem_end{s.gd}(s: St, b: Pb) ensures b.toks.len() == 0 ==> #[trigger] sem{s.gt}(s, b) == Out::End(s, b) {{ reveal(sem); }}
pub proof fn sem_unfold{s.gd}(s: St, b: Pb) ensures sem{s.gt}(s, b) == sem1{s.gt}(s, b) {{ reveal(sem); }}""")
        # prologue: required unnamed parameters
        init = ", ".join([f"r{i}: x{j}" for j, (i, _) in enumerate(s.req)] + [f"v{i}: None" for i, _ in s.opt + s.named] + [f"l{i}: Seq::empty()" for i, _ in s.var] + [f"m{i}: Map::empty()" for i, _ in s.rest]
                         + [f"next: {'true' if s.req else 'false'}", "k: 0", "used: false"])
        body = f"sem{s.gt}(St {{ {init} }}, b{len(s.req)})"
        for j in range(len(s.req) - 1, -1, -1):
            i, fd = s.req[j]
            b = f"b{j}" if j == 0 else f"b{j}.adv(1)"
            body = f"match p_value({s.tyi(fd)}, {b}) {{ None => Out::Leaf, Some((x{j}, b{j + 1})) => {body} }}"
            if j:
                body = f"if b{j}.toks.len() == 0 {{ Out::TooFew }} else if !punct1(b{j}.toks, ',') {{ Out::Sep }} else {{ {body} }}"
        o.append(f"#[verifier::opaque] pub open spec fn sem0{s.gd}(b0: Pb) -> Out {{ {body} }}")
        # ---- the clauses
        acc = lambda i: "x." + asc(s.d["access"][i])
        need = [(i, fd) for i, fd in s.named if not fd.opt and fd.kind not in ("Bool", "Flag")]
        o.append("pub open spec fn complete(s: St) -> bool { " + (" && ".join(f"s.v{i} is Some" for i, _ in need) or "true") + " }")

        def fopt(i, fd):  # field i as Option<Fv>
            a = acc(i)
            if fd.kind == "Bool" and not fd.opt:
                return f"(if {a} {{ Some(Fv::Sp(0)) }} else {{ None }})"
            if fd.kind == "Flag" and not fd.opt:
                return f"fvo({a}.span)"
            return f"fvo({a})" if fd.opt else f"Some({a}.fv())"

        c01 = [f"opt_nosp({fopt(i, fd)}) == opt_nosp(s.v{i})" for i, fd in s.named]
        c16 = [f"{fopt(i, fd)} == s.v{i}" for i, fd in s.named if fd.kind not in ("Bool", "Val", "Vec")]
        c03 = [f"({fopt(i, fd)} is Some) == (s.v{i} is Some)" for i, fd in s.named]
        c04 = [f"{acc(i)}.val() == s.r{i}" for i, _ in s.req] + [f"fvo({acc(i)}) == s.v{i}" for i, _ in s.opt] + [f"vals({acc(i)}@) == s.l{i}" for i, _ in s.var]
        c03 += [f"({acc(i)} is Some) == (s.v{i} is Some)" for i, _ in s.opt] + [f"({acc(i)}@.len() == 0) == (s.l{i}.len() == 0)" for i, _ in s.var]
        for i, fd in s.rest:
            c01.append(f"same_map({acc(i)}.mv(), s.m{i})")
            c03.append(f"(forall|n: Seq<char>| #[trigger] {acc(i)}.mv().dom().contains(n) == s.m{i}.dom().contains(n))")
            c16.append(f"{acc(i)}.mv() == s.m{i}")
        J = lambda l: "\n        && ".join(l) or "true"
        R = f"r: Result<{s.D}>"
        ok = lambda l: f"match o {{ Out::End(s, b) => r is Ok ==> {{ let x = r->Ok_0; {J(l)} }}, _ => true }}"
        form = lambda fd: fd.name + ("(...)" if fd.kind in NAS else " = ...")
        s.forms = [(i, form(fd)) for i, fd in need]
        miss = " || ".join(f"(s.v{i} is None && reports_missing(e, {rs(fm)}@))" for i, fm in s.forms) or "true"
        o.append(f"""pub open spec fn c01_stored{s.gd_r}(o: Out, {R}) -> bool {{ {ok(c01)} }}
pub open spec fn c02_once{s.gd_r}(o: Out, {R}) -> bool {{ o is Dup ==> r is Err }}
pub open spec fn c03_absent{s.gd_r}(o: Out, {R}) -> bool {{
    &&& {ok(c03)}
    &&& match o {{ Out::End(s, b) => !complete(s) ==> r is Err && {{ let e = r->Err_0; {miss} }}, _ => true }}
    &&& o is TooFew ==> r is Err
}}
pub open spec fn c04_unnamed{s.gd_r}(o: Out, {R}) -> bool {{
    &&& {ok(c04)}
    &&& (o is TooFew || o is TooMany || o is AfterNamed ==> r is Err)
}}
pub open spec fn c05_whole{s.gd_r}(o: Out, {R}, u: Pb) -> bool {{
    &&& (o is Sep ==> r is Err)
    &&& match o {{ Out::End(s, b) => r is Ok ==> u == b && u.toks.len() == 0, _ => true }}
}}
pub open spec fn c06_c07_c16_name{s.gd_r}(o: Out, {R}) -> bool {{ o is Name ==> r is Err }}
pub open spec fn c07_told{s.gd_r}(o: Out, {R}) -> bool {{
    match o {{ Out::Name(c) => r is Err && is_named(tabs(), flt(), c.toks) ==> name_err(tabs(), c.toks, r->Err_0.msg()), _ => true }}
}}
pub open spec fn c16_spans{s.gd_r}(o: Out, {R}) -> bool {{
    &&& {ok(c16)}
    &&& match o {{ Out::Dup(sp) => r is Err ==> r->Err_0.sp() == sp, _ => true }}
    &&& match o {{ Out::Name(c) => r is Err && is_named(tabs(), flt(), c.toks) ==> r->Err_0.sp() == c.here(), _ => true }}
}}
pub open spec fn c01_c04_accepted{s.gd_r}(o: Out, {R}) -> bool {{
    match o {{ Out::End(s, b) => complete(s) ==> r is Ok, Out::Leaf => r is Err, Out::Bad => false, _ => true }}
}}""")
        return "\n".join(o)

    def fn(s):
        st = ", ".join([f"r{i}: {s.local[i]}.val()" for i, _ in s.req] + [f"v{i}: fvo({s.local[i]})" for i, _ in s.opt + s.named] + [f"l{i}: vals({s.local[i]}@)" for i, _ in s.var] + [f"m{i}: {s.local[i]}.mv()" for i, _ in s.rest]
                       + [f"next: {s.is_next}", f"k: {s.idx} as int", f"used: {s.used}"])
        entry = []
        lits = set(literals(s.x))
        for i, fm in s.forms:
            for l in sorted(lits):
                v = json.loads(f'"{l}"')
                if fm in v and "missing" in v:
                    entry.append(f"reveal_strlit({rs(v)}); reveal_strlit({rs(fm)}); reveal_strlit(\"missing\"); lemma_mentions({rs(v)}@, {rs(fm)}@, {v.index(fm)}); lemma_mentions({rs(v)}@, \"missing\"@, {v.index('missing')});")
        post = ["c01_stored", "c02_once", "c03_absent", "c04_unnamed", "c06_c07_c16_name", "c07_told", "c16_spans", "c01_c04_accepted"]
        return f"""@fn Parse.D::parse
@ret r
@lenient
@attrs #[verifier::rlimit(60)]
@locals input
@callarg try_parse_name Ghost(flt()), Ghost(tabs())
@closure 0
|s: &str| -> (b: bool) ensures b == flt()(s@)
@spec
  ensures
""" + "\n".join(f"    {p}(sem0{s.gt}(old(input)@), r)," for p in post) + f"""
    c05_whole(sem0{s.gt}(old(input)@), r, final(input)@),
@entry
  proof {{ {" ".join(entry)} }}
  let ghost vx_b0 = input@;
  proof {{ reveal(sem0); }}
@loopentry 0
  proof {{ sem_unfold{s.gt}(St {{ {st} }}, input@); }}
@loop 0
  invariant_except_break
    sem{s.gt}(St {{ {st} }}, input@) == sem0{s.gt}(vx_b0),
    {s.idx} >= 0, {s.idx} as int + input@.toks.len() <= 0x7000_0000 + (if {s.is_next} {{ 0int }} else {{ -1 }}) + 1,
  invariant
    vx_b0 == old(input)@,
  ensures
    sem0{s.gt}(vx_b0) == Out::End(St {{ {st} }}, input@), input@.toks.len() == 0,
  decreases 2 * input@.toks.len() + (if {s.is_next} {{ 0int }} else {{ 1 }})
@text
"""


def split_args(c):
    """top-level comma separated parts of the first group of `c`"""
    if not c or c[0] not in "({":
        return []
    depth, cur, out = 0, "", []
    for ch in c:
        if ch in "({[":
            depth += 1
            if depth == 1:
                continue
        if ch in ")}]":
            depth -= 1
            if depth == 0:
                break
        if ch == "," and depth == 1:
            out.append(cur)
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur)
    return out


def sm_defs(tier, seed):
    """the definitions put under contract: one in four on quick runs, up to 320 on thorough ones"""
    ds = [d for d in gen_sm.family(seed, "quick" if tier != "thorough" else tier) if sm_usable(d)]
    k = 4 if tier != "thorough" else max(1, -(-len(ds) // 320))
    return [d for i, d in enumerate(ds) if i % k == seed % k]


def write_sm(defs, exe, build, tag):
    """expand, write sources and the contract -> path of the .vc, list of (def, problem)"""
    g = f"{build}/gen"
    os.makedirs(g, exist_ok=True)
    srcs = []
    for d in defs:
        t = d["src"].split("\n", 1)[1]  # without #[derive]
        t = t.replace("syn::parse::Parse + View", "syn::parse::Parse").replace(": View", "").replace(", [(); 1]: Sized", "").replace("[(); 1]: Sized", "")
        srcs.append(t)
    res = engines.host_run(exe, [("expand", "StructMeta", t.replace("\n", " ")) for t in srcs])
    bad, text = [], [f"@include {VERIF}/contracts/gensm.vc"]
    for d, t, (st, x) in zip(defs, srcs, res):
        if st != "ok":
            bad.append((d, f"{st}: {x[:300]}"))
            continue
        p = f"{g}/{d['name']}.rs"
        item = re.sub(r"#\[struct_meta\([^\]]*\]", "", t)
        open(p, "w").write(item + "\n" + x + "\n")
        c = Sm(d, x)
        text.append(f"@file {p}\n@text\n// {d['src'].replace(chr(10), ' ')}\npub mod {d['name']} {{ use super::*; broadcast use {{syn_axioms, gen_axioms, tb::tabs, un::sem_end}};\n@item D\n@text\npub mod un {{ use super::*; broadcast use {{syn_axioms, gen_axioms}};\n{c.spec()}\n}}\nuse un::*;\n{c.fn()}}}")
    vc = f"{g}/{tag}.vc"
    open(vc, "w").write("\n".join(text) + "\n")
    return vc, bad


# ---------------------------------------------------------------- ToTokens and Parse
def tp_usable(d):
    return all((f.leaf in contract_tp.TYPES or f.leaf in ("Terms", "AnyTerms", "Macro") or f.leaf in contract_tp.DELIMS and f.open) for sh in d["shape"] for f in sh[4])


def tp_defs(tier, seed):
    return [d for d in gen_tp.family(seed, "quick" if tier != "thorough" else tier) if tp_usable(d)]


def pa_defs(tier, seed):
    """a parser of ten fields or more in a row is beyond the solver: its case split grows with every `?`"""
    return [d for d in tp_defs(tier, seed) if all(len(sh[4]) <= 8 for sh in d["shape"])]


def write_tp(kind):
    trait = {"tt": "ToTokens", "pa": "Parse"}[kind]

    def write(defs, exe, build, tag):
        g = f"{build}/gen"
        os.makedirs(g, exist_ok=True)
        srcs = [d["src"].split("\n", 1)[1] for d in defs]
        res = engines.host_run(exe, [("expand", trait, t.replace("\n", " ")) for t in srcs])
        bad, text = [], [f"@include {VERIF}/contracts/gentp.vc"]
        for d, t, (st, x) in zip(defs, srcs, res):
            if st != "ok":
                bad.append((d, f"{st}: {x[:300]}"))
                continue
            c = contract_tp.Tp(d)
            if kind == "pa" and d["enum"] and sorted(k if k is not None else -1 for k in c.closures(x)) != list(c.vs()):
                bad.append((d, "the closures that parse the variants are not recognised"))
                continue
            p = f"{g}/{d['name']}.{kind}.rs"
            item = re.sub(r"#\[(?:to_tokens|parse)\([^\]]*?\)\]", "", re.sub(r'"[^"]*"', '""', t))
            open(p, "w").write(item + "\n" + x + "\n")
            spec, fn = (c.out_spec(), c.out_fn()) if kind == "tt" else (c.parse_spec(), c.parse_fn(x))
            text.append(f"@file {p}\n@text\n// {d['src'].replace(chr(10), ' ')}\npub mod {d['name']} {{ use super::*; broadcast use {{syn_axioms, gen_axioms}};\n@item D\n@text\n{spec}\n{fn}@text\n}}")
        vc = f"{g}/{tag}.vc"
        open(vc, "w").write("\n".join(text) + "\n")
        return vc, bad
    return write


KINDS = {"sm": (sm_defs, write_sm), "tt": (tp_defs, write_tp("tt")), "pa": (pa_defs, write_tp("pa"))}


def run(kinds, exe, repo, build, vx, tier, seed):
    """-> {unit: result}; the definitions are proved in batches side by side"""
    out = {}
    jobs = []
    for kind in kinds:
        defs = KINDS[kind][0](tier, seed)
        # heavy definitions first, dealt out so that batches take about as long
        defs = sorted(defs, key=lambda d: -len(d["src"]))
        n = max(4, -(-len(defs) // 16))
        for b in range(n):
            part = defs[b::n]
            if not part:
                continue
            tag = f"{kind}{b}"
            vc, bad = KINDS[kind][1](part, exe, build, tag)
            jobs.append((kind, tag, vc, part, bad, None))
        # vacuity guard: assert(false) before the result must fail
        part = defs[len(defs) // 2::8][:4]
        vc, bad = KINDS[kind][1](part, exe, build, kind + "p")
        jobs.append((kind, kind + "p", vc, part, bad, "tail"))
    def one(j):
        kind, tag, vc, part, bad, probe = j
        u = units.run_unit(tag, repo, build, vx, vc=vc, threads=2, timeout=400, probe=probe)
        if probe:
            hit = {os.path.basename(f["file"]).split(".")[0] for f in u["failed"] if f.get("file")}
            u["vacuous"] = [d["name"] for d in part if d["name"] not in hit and u["status"] == "failed"]
            return tag, u
        # definitions whose code the verifier cannot read are set aside; the rest is still judged
        gone = set()
        for _ in range(2):
            if not u.get("lost_at"):
                break
            at = {}
            for n, l in enumerate(open(u["rs"]).read().splitlines(), 1):
                m = re.match(r"pub mod ([dt]\d+) \{", l)
                if m:
                    at[n] = m.group(1)
            names = {at[max(k for k in at if k <= ln)] for ln in u["lost_at"] if any(k <= ln for k in at)}
            left = [d for d in part if d["name"] not in gone | names]
            if not names or not left:
                break
            gone |= names
            first = u["lost"]
            vc, _ = KINDS[kind][1](left, exe, build, tag)
            u = units.run_unit(tag, repo, build, vx, vc=vc, threads=2, timeout=300)
            u["lost"] += first
            u["set_aside"] = sorted(gone)
        u["definitions"] = len(part) - len(bad) - len(gone)
        for f in u["functions"] + u["failed"]:
            if f.get("file"):
                f["name" if "name" in f else "function"] = os.path.basename(f["file"]).split(".")[0] + "." + (f.get("name") or f.get("function"))
        by = {d["name"]: d for d in part}
        for f in u["failed"]:
            d = by.get((f["function"] or "").split(".")[0])
            f["definition"] = d["src"] if d else None
        u["lost"] += [f"definition {d['name']} is not expanded: {x}" for d, x in bad]
        if bad or gone:
            u["partly"] = True
        return tag, u
    with cf.ThreadPoolExecutor(4) as ex:
        out.update(ex.map(one, jobs))
    vac = []
    for tag in [t for t in out if t.endswith("p")]:
        vac += [f"{tag}:{x}" for x in out.pop(tag)["vacuous"]]
    return out, vac


if __name__ == "__main__":
    import sys
    engines.setup_env()
    B = f"{VERIF}/build"
    exe = engines.host_build("/repo", B)
    pick = sys.argv[1:]
    if pick == ["run"]:
        import time
        t0 = time.time()
        for k, u in run(["sm"], exe, "/repo", B, units.build_vx(B), "quick", 1)[0].items():
            print(k, u["status"], u["definitions"], u["verified"], u["errors"], u["wall_s"], u["lost"][:2], [(f["function"], f["message"], f["clause"][:100], f["props"]) for f in u["failed"]])
        print(time.time() - t0)
    else:
        ds = [d for d in gen_sm.family(1, "quick") if sm_usable(d)]
        vc, bad = write_sm([d for d in ds if not pick or d["name"] in pick], exe, B, "smdev")
        print(vc, len(ds), bad)
