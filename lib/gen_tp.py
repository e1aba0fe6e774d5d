"""Family of #[derive(ToTokens, Parse)] structs and enums."""
import random

# leaf -> (type, parse attribute, open?)
LEAVES = {
    "Ident": "syn::Ident", "Int": "syn::LitInt", "Str": "syn::LitStr", "Comma": "syn::Token![,]", "Eq": "syn::Token![=]",
    "Arrow": "syn::Token![=>]", "Fn": "syn::Token![fn]", "Expr": "syn::Expr", "Type": "syn::Type", "OptComma": "Option<syn::Token![,]>",
    "AnyIdent": "syn::Ident", "Terms": "Punctuated<syn::Ident, syn::Token![,]>", "AnyTerms": "Punctuated<syn::Ident, syn::Token![,]>",
    "Paren": "token::Paren", "Bracket": "token::Bracket", "Brace": "token::Brace", "Macro": "MacroDelimiter",
}
SPELL = {"Macro": ["MacroDelimiter", "syn::MacroDelimiter"], "Paren": ["token::Paren", "syn::token::Paren"]}
PEEKABLE = ["Ident", "Int", "Str", "Comma", "Eq", "Fn", "AnyIdent", "Arrow"]
PLAIN = ["Ident", "Int", "Str", "Comma", "Eq", "Arrow", "Fn", "OptComma", "AnyIdent"]
CH = {"Paren": "()", "Bracket": "[]", "Brace": "{}"}
FIELD_NAMES = ["a", "b", "c", "r#type", "tokens", "input", "input_0", "value", "fork", "x1", "parse_A", "span"]


class Fl:
    def __init__(s, leaf, close=0, open_=None, peek=False, gen=None):
        s.leaf, s.close, s.open, s.peek, s.gen = leaf, close, open_, peek, gen
        s.closes = ""
        s.more = ""       # groups opened or closed behind the first

    @property
    def ops(s):
        return s.closes + (s.open or "") + s.more


def random_fields(r, n, peeks=0, greedy=True):
    """n fields; the first root fields are peeked as long as peeks > 0"""
    fs, stack = [], []
    blocked = False
    for i in range(n):
        f = Fl("Ident")
        root_before = not stack
        if stack and r.random() < 0.4:
            for _ in range(r.choice([1, 1, 1, len(stack)])):
                f.closes += stack.pop()
        root = root_before or not stack
        want_peek = peeks > 0 and root and not blocked
        if r.random() < 0.35:
            f.leaf = r.choice(["Paren", "Bracket", "Brace", "Macro"])
            o = CH[f.leaf] if f.leaf != "Macro" else r.choice(["()", "[]", "{}"])
            f.open = o[0]
            if f.leaf == "Macro" or r.random() < 0.8:
                stack.append(o[1])
            else:   # closes what it opened, opens two groups, ..
                f.more = r.choice([o[1], o[0], o[1] + o[0], o[0] + o[1]] + ([o[1] + stack[-1]] if stack else []))
                stack.append(o[1])
                for c in f.more:
                    if c == o[0]:
                        stack.append(o[1])
                    else:
                        stack.pop()
            if want_peek and f.leaf == "Macro":
                f.leaf, f.open = "Paren", "("
                stack[-1] = ")"
            if want_peek and f.more[:2] in ("()", "[]", "{}", ")(", "][", "}{"):
                peeks = 1   # the peeks behind it would stand at other tokens
        else:
            pool = PEEKABLE if want_peek else PLAIN + (["Expr", "Type", "Terms", "AnyTerms"] if greedy and (stack or i == n - 1) else [])
            f.leaf = r.choice(pool)
        if want_peek:
            f.peek = True
            peeks -= 1
        elif root:
            blocked = True
        fs.append(f)
    return fs


def emit_fields(fs, r, tuple_, gens):
    out, names = [], []
    pool = FIELD_NAMES[:]
    r.shuffle(pool)
    for i, f in enumerate(fs):
        attrs = ""
        s = f.ops
        if s:
            if len(s) > 1 and r.random() < 0.5:
                attrs += f'#[to_tokens("{s[0]}")] #[to_tokens("{s[1:]}")] ' if r.random() < 0.5 else f'#[to_tokens("{s[0]}", "{s[1:]}")] '
            else:
                attrs += f'#[to_tokens("{s}")] '
        p = []
        if f.peek:
            p.append("peek")
        if f.leaf in ("AnyIdent", "AnyTerms"):
            p.append("any")
        if f.leaf in ("Terms", "AnyTerms"):
            p.append("terminated")
        r.shuffle(p)
        if p:
            attrs += "#[parse(" + ", ".join(p) + ")] "
        t = r.choice(SPELL.get(f.leaf, [LEAVES[f.leaf]]))
        f.tparam = None
        if gens is not None and f.leaf in ("Ident", "Int", "Expr") and not f.peek and r.random() < 0.5:
            k = f"T{len(gens)}"
            gens.append((k, t))
            t = f.tparam = k
        nm = str(i) if tuple_ else pool[i % len(pool)] + ("" if i < len(pool) else str(i))
        names.append(nm)
        out.append(f"{attrs}{t}" if tuple_ else f"{attrs}{nm}: {t}")
    return out, names


def meta(fs):
    return "vec![" + ", ".join(
        f'Fd {{ leaf: Leaf::{f.leaf}, ops: "{f.ops}", peek: {str(f.peek).lower()} }}' for f in fs) + "]"


def body(out, tuple_, unit):
    if unit:
        return ""
    return "(" + ", ".join(out) + ")" if tuple_ else " { " + ", ".join(out) + " }"


def emit(name, variants, r, enum, generic):
    """variants: list of field lists"""
    gens = [] if generic else None
    parts, view, build, shape = [], [], [], []
    for k, fs in enumerate(variants):
        tuple_ = r.random() < 0.5
        unit = not fs and r.random() < 0.7
        out, names = emit_fields(fs, r, tuple_, gens)
        vn = "ABCDEFGH"[k]
        path = f"D::{vn}" if enum else "D"
        shape.append((path, tuple_, unit, names, fs))
        parts.append(f"    {vn}{body(out, tuple_, unit)},\n" if enum else body(out, tuple_, unit))
        pat = "" if unit else ("(" + ", ".join(f"v{i}" for i in range(len(fs))) + ")" if tuple_ else "{ " + ", ".join(f"{n}: v{i}" for i, n in enumerate(names)) + " }")
        view.append(f"{path}{pat} => ({k}, vec![" + ", ".join(f"v{i}.view()" for i in range(len(fs))) + "]),")
        mk = "" if unit else ("(" + ", ".join(f"mk::<{{}}>(Leaf::{f.leaf}, _t[{i}])" for i, f in enumerate(fs)) + ")" if tuple_ else "{ " + ", ".join(f"{n}: Mk::mk(Leaf::{fs[i].leaf}, _t[{i}])" for i, n in enumerate(names)) + " }")
        mk = mk.replace("mk::<{}>(", "Mk::mk(")
        build.append(f"{k} => {path}{pat_ok(mk)},")
    g1 = g2 = where = ""
    if gens:
        b = "Parse + ToTokens"
        if r.random() < 0.5:
            g1 = "<" + ", ".join(f"{a}: {b}" for a, _ in gens) + ">"
        else:
            g1 = "<" + ", ".join(a for a, _ in gens) + ">"
            where = " where " + ", ".join(f"{a}: {b}" for a, _ in gens)
        g2 = "<" + ", ".join(t for _, t in gens) + ">"
    kw = "enum" if enum else "struct"
    if enum:
        src = f"#[derive(structmeta::ToTokens, structmeta::Parse)]\npub enum D{g1}{where} {{\n{''.join(parts)}}}"
    elif parts[0].startswith(" {"):
        src = f"#[derive(structmeta::ToTokens, structmeta::Parse)]\npub struct D{g1}{where}{parts[0]}"
    else:
        src = f"#[derive(structmeta::ToTokens, structmeta::Parse)]\npub struct D{g1}{parts[0]}{where};"
    al = f"type X = D{g2};"
    code = f"""// {name}
#![allow(unused_imports, dead_code, unused_variables, non_snake_case)]
use crate::model::{{Def, Fd, Leaf, Mk, View}};
use quote::ToTokens;
use syn::{{MacroDelimiter, parse::Parse, punctuated::Punctuated, token}};
{src}
{al}
pub fn def() -> Def {{
    Def {{ name: "{name}", src: r##"{src}"##, is_enum: {str(enum).lower()}, variants: vec![{", ".join(meta(v) for v in variants)}],
        parse: |input| Ok(match <X as Parse>::parse(input)? {{ {" ".join(view)} }}),
        write: |_k, _t, out| {{ let v: X = match _k {{ {" ".join(build)} _ => unreachable!() }}; v.to_tokens(out) }} }}
}}
"""
    return {"name": name, "code": code, "src": src, "generic": bool(gens), "enum": enum, "spelled": False, "shape": shape, "tparams": [a for a, _ in gens or []]}


def pat_ok(s):
    return s


def nestings(n):
    """words over o(pen), p(lain), c(lose) in which nothing is closed that is not open"""
    out = [("", 0)]
    for _ in range(n):
        out = [(w + c, d + k) for w, d in out for c, k in (("o", 1), ("p", 0), ("c", -1)) if d + k >= 0]
    return [w for w, _ in out]


def nested(word, salt):
    fs, stack = [], []
    for i, c in enumerate(word):
        if c == "o":
            l = ["Paren", "Macro", "Bracket", "Brace"][(i + salt) % 4]
            o = CH.get(l) or ["()", "[]", "{}"][salt % 3]
            fs.append(Fl(l, open_=o[0]))
            stack.append(o[1])
        else:
            fs.append(Fl(["Ident", "Int", "Fn", "Str", "Eq"][(i + salt // 2) % 5]))
            if c == "c":
                fs[-1].closes = stack.pop()
    return fs


def family(seed, tier):
    defs = []

    def add(vs, r, enum, generic=False):
        defs.append(emit(f"t{len(defs):03d}", vs, r, enum, generic))

    r = random.Random(777)
    add([[]], r, False)
    add([[]], r, True)
    for l in PLAIN + ["Expr", "Type", "Terms", "AnyTerms"]:
        add([[Fl(l)]], r, False)
    for l in ("Paren", "Bracket", "Brace", "Macro"):
        for o in (["()", "[]", "{}"] if l == "Macro" else [CH[l]]):
            f = Fl(l, open_=o[0])
            g = Fl("Ident")
            g.closes = o[1]
            add([[Fl(l, open_=o[0]), Fl("Expr")]], r, False)
            add([[Fl(l, open_=o[0]), Fl("Int"), g]], r, False)
            add([[Fl("Fn"), f, Fl("Terms"), g]], r, False)
            if l != "Macro":
                for more, back in ((o[1], ""), (o[0], o[1]), (o[0], o[1] * 2), (o[1] + o[0], ""), (o[0] + o[1], o[1])):
                    f, g = Fl(l, open_=o[0]), Fl("Ident")
                    f.more, g.closes = more, back
                    add([[f, g]], r, False)
    # every nesting of up to five fields with at least two groups in it, three to an enum
    words = [w for w in nestings(4) if w.count("o") >= 2] + [w for w in nestings(5) if w.count("o") >= 3]
    if tier != "thorough":
        words = words[:24] + words[24::2]
    vs = [nested(w, i) for i, w in enumerate(words)]
    for i in range(0, len(vs), 3):
        add(vs[i:i + 3], r, True)
    # wide and deep ones
    for l in (10, 13):
        add([[Fl(["Int", "Ident", "Str"][i % 3 if l == 10 else 0]) for i in range(l)]], random.Random(f"wide{l}"), False)
    for l in (10, 13):
        add([[Fl("Comma")], [Fl("Int") for i in range(l)]], random.Random(f"wide{l + 3}"), True)
    rr = random.Random(99)
    deep = rr.sample([w for w in nestings(8) if w.count("o") >= 3 and w.count("c") >= 2], 12 if tier != "thorough" else 90)
    vs = [nested(w, i) for i, w in enumerate(deep)]
    for i in range(0, len(vs), 3):
        add(vs[i:i + 3], r, True)
    n = 70 if tier != "thorough" else 220
    for i in range(n):
        r = random.Random(f"tp{i}") if i % 2 == 0 else random.Random(f"{seed}/tp{i}")
        if i % 5 < 2:
            add([random_fields(r, r.choice([1, 2, 3, 4, 5, 6, 7]))], r, False, r.random() < 0.4)
        else:
            vs = []
            for _ in range(r.choice([1, 2, 3, 3, 4, 5])):
                vs.append(random_fields(r, r.choice([0, 1, 2, 2, 3, 4, 5]), r.choice([0, 0, 1, 1, 2, 3]), greedy=r.random() < 0.4))
            add(vs, r, True, r.random() < 0.3)
    return defs


if __name__ == "__main__":
    d = family(1, "quick")
    print(len(d))
    print(d[-1]["code"])
