"""Family of #[derive(StructMeta)] definitions: systematic part + seeded random part.

Each definition is (name, source text, fields metadata).  The metadata is what the
documentation says about the definition; the engine's oracle works from it."""
import random

LEAVES = {  # leaf -> rust type
    "Int": "syn::LitInt", "Str": "syn::LitStr", "Ident": "syn::Ident", "Expr": "syn::Expr",
    "Type": "syn::Type", "OtherVec": "other::Vec<syn::LitInt>", "OtherOption": "other::Option<syn::LitInt>",
    "OtherNv": "other::NameValue<syn::LitInt>", "OtherFlag": "other::Flag", "Empty": "Empty",
}
SP = {
    "bool": ["bool", "primitive::bool", "std::primitive::bool", "core::primitive::bool"],
    "Flag": ["Flag", "structmeta::Flag"],
    "Vec": ["Vec", "vec::Vec", "std::vec::Vec", "alloc::vec::Vec"],
    "Option": ["Option", "option::Option", "std::option::Option", "core::option::Option"],
    "NameValue": ["NameValue", "structmeta::NameValue"],
    "NameArgs": ["NameArgs", "structmeta::NameArgs"],
    "HashMap": ["HashMap", "collections::HashMap", "std::collections::HashMap", "std::collections::hash_map::HashMap", "hash_map::HashMap"],
    "String": ["String", "string::String", "std::string::String", "alloc::string::String"],
}
KINDS = ["Bool", "Flag", "Val", "Vec", "Nv", "Nvo", "Na", "Nao", "Nav", "Naov"]
REST = ["Val", "Vec", "Nv", "Nvo", "Na", "Nao", "Nav", "Naov"]
NAMES = ["a", "ab", "ba", "abc", "acb", "abd", "name", "nam", "value", "type", "fn_1", "Abc", "X", "Foo", "x1", "long_name", "lnog_name", "été", "x٣", "_a", "__b", "A", "self", "true", "a_b", "type_", "NAME"]
KEYWORDS = ["self", "true"]


class F:
    def __init__(s, place, kind, opt=False, leaf="Int", name=None, ident=None):
        s.place, s.kind, s.opt, s.leaf, s.name, s.ident = place, kind, opt, leaf, name, ident


def ty(f, r, plain):
    sp = (lambda k: SP[k][0]) if plain else (lambda k: r.choice(SP[k]))
    t = f.tparam if getattr(f, "tparam", None) else LEAVES[f.leaf]
    k = f.kind
    vec = lambda t: f"{sp('Vec')}<{t}>"
    opt = lambda t: f"{sp('Option')}<{t}>"
    nv = lambda t: f"{sp('NameValue')}<{t}>"
    na = lambda t: f"{sp('NameArgs')}<{t}>"
    s = {"Bool": lambda: sp("bool"), "Flag": lambda: sp("Flag"), "Val": lambda: t, "Vec": lambda: vec(t),
         "Nv": lambda: nv(t), "Nvo": lambda: nv(opt(t)), "Na": lambda: na(t), "Nao": lambda: na(opt(t)),
         "Nav": lambda: na(vec(t)), "Naov": lambda: na(opt(vec(t)))}[k]()
    if f.place == "Rest":
        return f"{sp('HashMap')}<{sp('String')}, {s}>"
    return opt(s) if f.opt else s


def emit(name, fields, r, tuple_=False, snake=False, plain=True, unit=False, shuffle=False):
    """fields in declaration order"""
    out, meta, gen = [], [], []
    for i, f in enumerate(fields):
        attrs = ""
        if r.random() < 0.12 and not plain and f.kind in ("Val", "Vec", "Nv", "Na") and f.leaf in ("Int", "Expr") and f.place != "Rest" and len(gen) < 2:
            f.tparam = f"T{len(gen)}"
            gen.append((f.tparam, LEAVES[f.leaf]))
        t = ty(f, r, plain)
        ident = None
        if not tuple_:
            if f.place == "Named":
                raw = f.name in ("type",)
                if f.ident or f.name in KEYWORDS or (not plain and r.random() < 0.25):
                    ident = f.ident or f"f{i}"
                    attrs = f'#[struct_meta(name = "{f.name}")] '
                else:
                    ident = ("r#" if raw else "") + f.name
            else:
                ident = f"f{i}"
                if f.place == "Unnamed":
                    attrs = "#[struct_meta(unnamed)] "
                elif f.place == "Rest" and not plain and r.random() < 0.3:
                    attrs = "#[struct_meta(unnamed)] "
            out.append(f"    {attrs}pub {ident}: {t},")
        else:
            if f.place == "Named":
                attrs = f'#[struct_meta(name = "{f.name}")] '
            out.append(f"    {attrs}pub {t},")
        access = ident if ident else str(i)
        pl = f'Place::Named("{f.name}")' if f.place == "Named" else f"Place::{f.place}"
        meta.append((f"FieldDef {{ place: {pl}, kind: Kind::{f.kind}, opt: {str(f.opt).lower()}, leaf: Leaf::{f.leaf} }}", access))
    attr = '#[struct_meta(name_filter = "snake_case")]\n' if snake else ""
    g1 = g2 = where = ""
    if gen:
        style = r.randrange(3)
        b = "syn::parse::Parse + View"
        if style == 0:
            g1 = "<" + ", ".join(f"{a}: {b}" for a, _ in gen) + ">"
        elif style == 1:
            g1 = "<" + ", ".join(a for a, _ in gen) + ">"
            where = " where " + ", ".join(f"{a}: {b}" for a, _ in gen)
        else:
            g1 = "<" + ", ".join(f"{a}" + (": View" if j else f": {b}") for j, (a, _) in enumerate(gen)) + ", const N: usize>"
            w = [f"{a}: syn::parse::Parse" for a, _ in gen[1:]] + ["[(); 1]: Sized"]
            where = " where " + ", ".join(w)
        g2 = "::<" + ", ".join(t for _, t in gen) + (", 3" if style == 2 else "") + ">"
    if unit:
        body = ";"
        body = "pub struct D;"
    elif tuple_:
        body = f"pub struct D{g1}(\n" + "\n".join(out) + f"\n){where};"
    else:
        body = f"pub struct D{g1}{where} {{\n" + "\n".join(out) + "\n}"
    src = f"#[derive(structmeta::StructMeta)]\n{attr}{body}"
    code = f"""// {name}
#![allow(unused_imports, dead_code)]
use crate::model::*;
use std::{{collections, option, primitive, string, vec}};
use std::collections::{{hash_map, HashMap}};
use structmeta::{{Flag, NameArgs, NameValue}};
{src}
pub fn def() -> Def {{
    Def {{ name: "{name}", src: {rstr(src)}, snake: {str(snake).lower()}, fields: vec![{", ".join(m for m, _ in meta)}],
        parse: |ts| syn::parse2::<D{g2}>(ts).map(|_s| vec![{", ".join(f"_s.{a}.view()" for _, a in meta)}]) }}
}}
"""
    return {"name": name, "code": code, "src": src, "generic": bool(gen), "spelled": not plain,
            "fields": fields, "access": [a for _, a in meta], "tparams": [a for a, _ in gen], "const": bool(gen) and "const N" in g1, "snake": snake}


def rstr(s):
    return 'r##"' + s + '"##'


def family(seed, tier):
    defs = []
    r = random.Random(12345)

    def add(fields, **k):
        defs.append(emit(f"d{len(defs):03d}", fields, k.pop("r", r), **k))

    named_types = [(k, False) for k in KINDS] + [(k, True) for k in KINDS if k not in ("Bool", "Flag")]
    add([], unit=True)
    add([])
    add([], tuple_=True)
    # every named kind alone, and with a partner; every rest kind alone
    for k, o in named_types:
        add([F("Named", k, o, name="abc")])
        leaf = "Expr" if k in ("Val", "Nv", "Nvo") else "Type"
        add([F("Named", k, o, leaf, name="abc"), F("Unnamed", "Val", True, "Expr"), F("Named", "Bool", name="abd")])
    for k in REST:
        add([F("Rest", k)])
        add([F("Rest", k), F("Unnamed", "Vec", False, "Expr")])
    # every named kind with every rest kind
    for i, (k, o) in enumerate(named_types):
        for j, q in enumerate(REST):
            if tier == "thorough" or (i + j) % 3 == 0:
                add([F("Named", k, o, name="ab"), F("Rest", q)])
    # unnamed mixes
    for req in range(4):
        for opt in range(4):
            for var in range(2):
                if req + opt + var == 0:
                    continue
                if tier != "thorough" and req + opt + var > 4:
                    continue
                ls = ["Int", "Ident", "Expr", "Str", "Int", "Expr", "Type"]
                fs = [F("Unnamed", "Val", False, ls[i % 7]) for i in range(req)]
                fs += [F("Unnamed", "Val", True, ls[(i + 2) % 7]) for i in range(opt)]
                if var:
                    fs += [F("Unnamed", "Vec", False, ls[(req + opt) % 3])]
                add(list(fs), tuple_=True)
                add(fs[:1] + [F("Named", "Nvo", name="ab")] + fs[1:] + [F("Named", "Flag", name="ba")])
    # values of the same name elsewhere
    for leaf in ("OtherVec", "OtherOption", "OtherNv", "OtherFlag", "Empty"):
        add([F("Unnamed", "Val", False, leaf), F("Named", "Val", False, leaf, name="a")])
        add([F("Unnamed", "Val", True, leaf), F("Named", "Val", True, leaf, name="a"), F("Named", "Na", False, leaf, name="ab")])
        add([F("Named", "Vec", False, leaf, name="a"), F("Named", "Nav", False, leaf, name="ab"), F("Rest", "Val", False, leaf)])
    # many parameters of each style, names that sort oddly
    odd = ["_a", "__b", "A", "B2", "a", "a_b", "b10", "b9", "self", "true", "z_", "été"]
    for s0 in range(3):
        fs = []
        for i, nme in enumerate(odd):
            k, o = named_types[(i * 7 + s0 * 5) % len(named_types)]
            fs.append(F("Named", k, o, name=nme))
        add(fs, plain=s0 != 1)
    for k, o in named_types:
        add([F("Named", k, o, name=odd[(len(k) * 3 + o) % 4]), F("Named", k, not o if k not in ("Bool", "Flag") else False, name="z_"), F("Named", "Val", True, name="a")])
    for req, opt, var in ((5, 0, 1), (6, 4, 1), (0, 6, 0), (4, 5, 0), (1, 3, 1), (0, 0, 1)):
        ls = ["Int", "Str", "Int", "Expr"]
        add([F("Unnamed", "Val", False, ls[i % 4]) for i in range(req)] + [F("Unnamed", "Val", True, ls[(i + 1) % 4]) for i in range(opt)] + ([F("Unnamed", "Vec", False, "Int")] if var else []), tuple_=True)
    # filter
    for u in ([], [F("Unnamed", "Val", True, "Expr")], [F("Unnamed", "Vec", False, "Expr")]):
        for k in ("Bool", "Val", "Nvo", "Naov"):
            add(list(u) + [F("Named", k, name="Abc", ident="abc"), F("Named", k, name="x1")], snake=True)
            add(list(u) + [F("Named", k, name="Abc", ident="abc"), F("Rest", "Nvo")], snake=True)
    # random mixes, fixed seed and run seed
    n = 90 if tier != "thorough" else 260
    for i in range(n):
        rr = random.Random(f"fixed{i}") if i % 2 == 0 else random.Random(f"{seed}/{i}")
        names = rr.sample(NAMES, rr.choice([0, 1, 2, 3, 4, 5, 7]))
        unn = [F("Unnamed", "Val", False, rr.choice(["Int", "Int", "Ident", "Expr", "Str", "Type"])) for _ in range(rr.choice([0, 0, 0, 1, 2, 3]))]
        unn += [F("Unnamed", "Val", True, rr.choice(["Int", "Ident", "Expr", "Str", "Type"])) for _ in range(rr.choice([0, 0, 1, 2]))]
        if rr.random() < 0.3:
            unn += [F("Unnamed", "Vec", False, rr.choice(["Int", "Ident", "Expr"]))]
        oth = []
        for nme in names:
            k, o = rr.choice(named_types)
            oth.append(F("Named", k, o, rr.choice(["Int", "Int", "Str", "Ident", "Expr", "Type"]), name=nme))
        if rr.random() < 0.4:
            oth.append(F("Rest", rr.choice(REST), False, rr.choice(["Int", "Expr", "Str"])))
        # interleave, keeping the unnamed order
        fs = unn[:]
        for f in oth:
            fs.insert(rr.randrange(len(fs) + 1), f)
        add(fs, r=rr, plain=False, tuple_=rr.random() < 0.2, snake=rr.random() < 0.15)
    return defs


if __name__ == "__main__":
    import sys
    d = family(1, sys.argv[1] if len(sys.argv) > 1 else "quick")
    print(len(d))
    print(d[-1]["code"])
