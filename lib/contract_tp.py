"""Contracts of derived ToTokens and Parse, written from the definition (C10, C11, C12)."""
import re

TYPES = {"Ident": "Ident", "Int": "LitInt", "Str": "LitStr", "Comma": "TkComma", "Eq": "TkEq", "Arrow": "TkFatArrow", "Fn": "TkFn",
         "Expr": "Expr", "Type": "Type", "OptComma": "Option<TkComma>", "AnyIdent": "Ident"}
DELIMS = ("Paren", "Bracket", "Brace")
OPEN = "([{"


class Tp:
    def __init__(s, d):
        s.d = d
        s.g = "<" + ", ".join(d["tparams"]) + ">" if d["tparams"] else ""
        s.gt = "::" + s.g if s.g else ""
        s.gd = "<" + ", ".join(f"{t}: Parse + ToTokens" for t in d["tparams"]) + ">" if d["tparams"] else ""
        s.D = "D" + s.g

    def ty(s, f):
        return f.tparam or TYPES[f.leaf]

    def pat(s, k):
        path, tuple_, unit, names, fs = s.d["shape"][k]
        if unit:
            return path
        xs = [f"x{i}" for i in range(len(fs))]
        return path + ("(" + ", ".join(xs) + ")" if tuple_ else " { " + ", ".join(f"{n.replace('r#', 'r_')}: {x}" for n, x in zip(names, xs)) + " }")

    def vs(s):
        return range(len(s.d["shape"]))

    # ---------------------------------------------------------- C10
    def out(s, k, p="p"):
        """tokens after printing variant k behind `p`"""
        fs = s.d["shape"][k][4]
        e, stack = p, []
        for i, f in enumerate(fs):
            for c in f.ops:
                if c not in OPEN:
                    o, d, sp = stack.pop()
                    e = f"{o}.push(Tt::Group({d}, {e}, {sp}))"
                    continue
                d, sp = (f"md_delim(x{i})", f"md_span(x{i})") if f.leaf == "Macro" else (f"Dl::{f.leaf}", f"x{i}.span@")
                stack.append((e, d, sp))
                e = "Seq::<Tt>::empty()"
            if f.open:
                pass
            elif f.leaf in DELIMS + ("Macro",):
                raise ValueError("delimiter that opens nothing")
            else:
                e = f"({e} + x{i}.toks())"
        while stack:
            o, d, sp = stack.pop()
            e = f"{o}.push(Tt::Group({d}, {e}, {sp}))"
        return e

    def out_spec(s):
        arms = " ".join(f"{s.pat(k)} => {s.out(k)}," for k in s.vs())
        return f"/// C10: what printing `x` leaves in an output that held `p`\npub open spec fn c10_printed{s.gd}(p: Seq<Tt>, x: {s.D}) -> Seq<Tt> {{ match x {{ {arms} }} }}"

    def out_fn(s):
        return f"""@fn ToTokens.D::to_tokens
@locals self tokens
@lenient
@spec
  ensures
    final(tokens)@ =~= c10_printed{s.gt}(old(tokens)@, *self),
"""

    # ---------------------------------------------------------- C11
    def fields(s, k):
        """spec of the parse of variant k on tokens `t0`: (values, tokens left, whether a group was left unread)"""
        fs = s.d["shape"][k][4]
        depth = [0]           # buffer ids
        cur = {0: "t0"}       # token expression of each buffer
        pre, post, vals = [], [], []
        nb = 0

        def step(e, some):
            pre.append(f"match {e} {{ None => None, Some({some}) => {{ ")
            post.append(" } }")

        for i, f in enumerate(fs):
            for c in f.ops:
                if c not in OPEN:
                    depth.pop()
                    continue
                b = depth[-1]
                t = cur[b]
                cond = f"{t}.len() > 0 && {t}[0] is Group" if f.leaf == "Macro" else f"group1({t}, Dl::{f.leaf})"
                nb += 1
                pre.append(f"if !({cond}) {{ None }} else {{ let g{i} = {t}[0]; let a{i}_{nb} = {t}.skip(1); let n{i}_{nb} = g{i}->Group_1; ")
                post.append(" }")
                cur[b] = f"a{i}_{nb}"
                cur[nb] = f"n{i}_{nb}"
                depth.append(nb)
            b = depth[-1]
            t = cur[b]
            if f.open:
                vals.append(f"Tv::D(g{i}->Group_0, g{i}->Group_2)")
            elif f.leaf in ("Terms", "AnyTerms"):
                step(f"{'terms' if f.leaf == 'Terms' else 'terms_any'}(Ident::ty(), TkComma::ty(), {t})", f"l{i}")
                cur[b] = "Seq::<Tt>::empty()"
                vals.append(f"Tv::L(l{i})")
            else:
                step(f"{'leaf_any' if f.leaf == 'AnyIdent' else 'leaf'}(<{s.ty(f)} as Parse>::ty(), {t})", f"(v{i}, k{i})")
                pre.append(f"let a{i} = {t}.skip(k{i} as int); ")
                cur[b] = f"a{i}"
                vals.append(f"Tv::V(v{i})")
        left = " || ".join(f"{cur[b]}.len() > 0" for b in range(1, nb + 1)) or "false"
        return "".join(pre) + f"Some((seq![{', '.join(vals)}], {cur[0]}, {left}))" + "".join(reversed(post))

    def view_spec(s):
        arms = " ".join(f"{s.pat(k)} => ({k}int, seq![{', '.join(f'x{i}.tv()' for i in range(len(s.d['shape'][k][4])))}])," for k in s.vs())
        return f"pub open spec fn fields{s.gd}(x: {s.D}) -> (int, Seq<Tv>) {{ match x {{ {arms} }} }}"

    def peeks(s, k):
        out, at = [], 0
        for f in s.d["shape"][k][4]:
            if f.peek:
                out.append(f"peeks_any_at(t, {at})" if f.leaf == "AnyIdent" else f"peeks_at::<{f.leaf if f.leaf in DELIMS else s.ty(f)}>(t, {at})")
                at += 1
        return " && ".join(out)

    def parse_spec(s):
        o = [s.view_spec()]
        O = "Option<(Seq<Tv>, Seq<Tt>, bool)>"
        for k in s.vs():
            o.append(f"pub open spec fn c11_fields_{k}{s.gd}(t0: Seq<Tt>) -> {O} {{ {s.fields(k)} }}")
        if s.d["enum"]:
            e = "None"
            for k in reversed(list(s.vs())):
                r = f"Some((v, u, l)) => Some(({k}int, v, u, l))"
                p = s.peeks(k)
                if p:
                    e = f"if {p} {{ match c11_fields_{k}{s.gt}(t) {{ {r}, None => None }} }} else {{ {e} }}"
                else:
                    e = f"match c11_fields_{k}{s.gt}(t) {{ {r}, None => {e} }}"
            o.append(f"/// C12: the variant that decides, its fields, the tokens left\npub open spec fn c12_chosen{s.gd}(t: Seq<Tt>) -> Option<(int, Seq<Tv>, Seq<Tt>, bool)> {{ {e} }}")
        o.append(s.out_spec())
        o += [s.round_trip(k) for k in s.vs()]
        return "\n".join(o)

    def closures(s, x):
        """variant constructed by each closure of the expansion, in order"""
        names = [sh[0].split("::")[1] for sh in s.d["shape"]]
        out = []
        for m in re.finditer(r"= \| \w+ : [^|]*\| ->", x):
            n = re.search(r"\bSelf :: (\w+)", x[m.end():])
            out.append(names.index(n.group(1)) if n and n.group(1) in names else None)
        return out

    def parse_fn(s, x):
        o = ["@fn Parse.D::parse", "@attrs #[verifier::rlimit(60)]", "@ret r", "@locals input", "@lenient"]
        if s.d["enum"]:
            for j, k in enumerate(s.closures(x)):
                if k is None:
                    continue
                o.append(f"""@closure {j}
|input: &mut ParseBuffer| -> (r: Result<Self>)
  ensures
    match c11_fields_{k}{s.gt}(old(input)@.toks) {{
      Some((v, t, l)) => r is Ok && fields(r->Ok_0).0 == {k} && fields(r->Ok_0).1 =~= v && final(input)@ == left(old(input)@, t, l),
      None => r is Err,
    }}""")
            o.append(f"""@spec
  ensures
    match c12_chosen{s.gt}(old(input)@.toks) {{
      Some((k, v, t, l)) => r is Ok && fields(r->Ok_0).0 == k && fields(r->Ok_0).1 =~= v && final(input)@ == left(old(input)@, t, l),
      None => r is Err,
    }},
""")
        else:
            o.append(f"""@spec
  ensures
    match c11_fields_0{s.gt}(old(input)@.toks) {{
      Some((v, t, l)) => r is Ok && fields(r->Ok_0).1 =~= v && final(input)@ == left(old(input)@, t, l),
      None => r is Err,
    }},
""")
        return "\n".join(o)

    # ---------------------------------------------------------- C11, round trip
    def tree(s, k):
        """fields as (index, [inner fields] or None) per buffer"""
        root = []
        stack = [root]
        for i, f in enumerate(s.d["shape"][k][4]):
            for c in f.ops:
                if c not in OPEN:
                    stack.pop()
                    continue
                inner = []
                stack[-1].append((i, inner))
                stack.append(inner)
            if not f.open:
                stack[-1].append((i, None))
        return root

    def round_trip(s, k):
        """lemma: parsing what was printed gives the fields back, if every field's own parser does so"""
        fs = s.d["shape"][k][4]
        lets, hyp, facts, ok, seen = [], [], [], [True], [0]

        def buffer(nodes):
            """-> (tokens as written by the contract of ToTokens, name of the same tokens read from the front)"""
            nxt, left = "Seq::<Tt>::empty()", "Seq::<Tt>::empty()"
            parts = []
            for i, inner in nodes:
                f = fs[i]
                if inner is None:
                    parts.append(("t", i, f"x{i}.toks()"))
                else:
                    il, ir = buffer(inner)
                    d, sp = (f"md_delim(x{i})", f"md_span(x{i})") if f.leaf == "Macro" else (f"Dl::{f.leaf}", f"x{i}.span@")
                    facts.append(f"assert({il} =~= {ir});")
                    parts.append(("g", i, f"Tt::Group({d}, {ir}, {sp})"))
            for w, i, e in reversed(parts):
                f = fs[i]
                x = f"x{i}"
                seen[0] += 1
                i = f"{i}_{seen[0]}"
                if w == "t":
                    lets.append(f"let s{i} = {e} + {nxt};")
                    if f.leaf in ("Terms", "AnyTerms"):
                        if nxt != "Seq::<Tt>::empty()":
                            ok[0] = False
                        hyp.append(f"{'terms' if f.leaf == 'Terms' else 'terms_any'}(Ident::ty(), TkComma::ty(), s{i}) == Some({x}.vals())")
                    else:
                        hyp.append(f"{'leaf_any' if f.leaf == 'AnyIdent' else 'leaf'}(<{s.ty(f)} as Parse>::ty(), s{i}) == Some(({x}.val(), {e}.len()))")
                        facts.append(f"assert(s{i}.skip({e}.len() as int) =~= {nxt});")
                else:
                    lets.append(f"let s{i} = seq![{e}] + {nxt};")
                    facts.append(f"assert(s{i}[0] == {e}); assert(s{i}.skip(1) =~= {nxt});")
                nxt = f"s{i}"
            for w, i, e in parts:
                left = f"({left} + {e})" if w == "t" else f"{left}.push({e})"
            return left, nxt

        l, r = buffer(s.tree(k))
        if not ok[0] or not fs:
            return ""
        L = " ".join(lets)
        return f"""pub open spec fn leaves_round_trip_{k}{s.gd}(x: {s.D}) -> bool {{ match x {{ {s.pat(k)} => {{ {L} {" && ".join(hyp) or "true"} }}, {"_ => false," if len(s.d["shape"]) > 1 else ""} }} }}
pub proof fn c11_round_trip_{k}{s.gd}(x: {s.D})
    requires leaves_round_trip_{k}(x)
    ensures c11_fields_{k}{s.gt}(c10_printed(Seq::empty(), x)) == Some((fields(x).1, Seq::<Tt>::empty(), false))
{{
    match x {{ {s.pat(k)} => {{ {L} {" ".join(facts)} assert({l} =~= {r}); assert(c10_printed(Seq::empty(), x) == {r}); assert((c11_fields_{k}{s.gt}({r})->0).0 =~= fields(x).1); }}, {"_ => {}" if len(s.d["shape"]) > 1 else ""} }}
}}"""
