"""Cases for the in-process derive host: which definitions must be accepted or rejected (C09,
C13), which types must be treated alike (C08), which impl headers must come out (C17)."""
import random

NAMES = ["a", "b", "ab", "r#type", "value", "x1"]
PLAIN = ["LitInt", "syn::Expr", "other::Vec<u8>", "my::option::Option<u8>", "<T as Tr>::Vec", "[u8; 3]", "(u8, u8)", "&'static str",
         "Vec<u8, u8>", "Option<u8, u8>", "Flag<u8>", "bool<u8>", "HashMap<u8, u8>", "HashMap<String>", "HashMap<String, u8, S>", "NameValue<A, B>",
         "NameArgs", "Vec", "Option", "Vec<'a>", "Option<3>", "Option<bool>", "Option<Flag>", "fn(u8) -> u8", "Box<dyn Fn(u8)>", "impl Fn()", "!", "_"]
NAMED_ONLY = ["bool", "Flag", "std::primitive::bool", "structmeta::Flag", "NameValue<u8>", "NameValue<Option<u8>>", "NameArgs<u8>", "NameArgs<Vec<u8>>",
              "structmeta::NameArgs<Option<Vec<u8>>>", "Option<NameValue<u8>>", "Option<NameArgs<u8>>", "Option<Vec<u8>>", "option::Option<vec::Vec<u8>>"]
VARIADIC = ["Vec<u8>", "vec::Vec<u8>", "std::vec::Vec<u8>", "alloc::vec::Vec<u8>"]
OPTIONAL = ["Option<u8>", "option::Option<u8>", "std::option::Option<u8>", "core::option::Option<LitInt>"]
RESTS = ["HashMap<String, u8>", "collections::HashMap<String, Vec<u8>>", "std::collections::HashMap<std::string::String, NameValue<u8>>",
         "std::collections::hash_map::HashMap<String, NameArgs<Option<u8>>>", "HashMap<String, bool>", "HashMap<String, Option<u8>>"]
BAD_FIELD = ["#[struct_meta(nam = \"x\")]", "#[struct_meta(name)]", "#[struct_meta(name = x)]", "#[struct_meta(name = 1)]", "#[struct_meta(unnamed = true)]",
             "#[struct_meta]", "#[struct_meta = \"x\"]", "#[struct_meta(unnamed unnamed)]", "#[struct_meta(name = \"a\" unnamed)]", "#[struct_meta(,)]",
             "#[struct_meta(dump)]", "#[struct_meta(name_filter = \"snake_case\")]", "#[struct_meta(name(\"x\"))]", "#[struct_meta(name == \"x\")]", "#[struct_meta(#)]",
             "#[struct_meta(\"name\")]", "#[struct_meta(unnamed,,)]", "#[struct_meta(name = \"a\", zz)]", "#[struct_meta(name = 'a')]"]
BAD_STRUCT = ["#[struct_meta(name_filter)]", "#[struct_meta(name_filter = snake_case)]", "#[struct_meta(name_filter = \"camel\")]", "#[struct_meta(name_filter = \"\")]",
              "#[struct_meta(unnamed)]", "#[struct_meta(name = \"x\")]", "#[struct_meta]", "#[struct_meta = \"x\"]", "#[struct_meta(,)]", "#[struct_meta(filter = \"snake_case\")]",
              "#[struct_meta(name_filter = \"snake_case\", name_filter = \"snake_case\")]", "#[struct_meta(name_filter = \"snake_case\")] #[struct_meta(name_filter = \"snake_case\")]",
              "#[struct_meta(name_filter = \"snake_case\" x)]", "#[struct_meta(name_filter(\"snake_case\"))]", "#[struct_meta(name_filter = 1)]", "#[struct_meta(\"snake_case\")]",
              "#[struct_meta(name_filter => \"snake_case\")]", "#[struct_meta(name_filter = \"Snake_case\")]", "#[struct_meta(name_filter = \"snake_case\",, )]"]
OK_STRUCT = ["", "", "", "#[struct_meta()]", "#[struct_meta(name_filter = \"snake_case\")]", "#[struct_meta(name_filter = \"snake_case\",)]", "#[doc = \"x\"]",
             "#[repr(C)] #[struct_meta()] #[struct_meta(name_filter = \"snake_case\")]"]


def sm_case(r, size=6):
    """-> (source, fault or None)"""
    faults = []
    tuple_ = r.random() < 0.4
    fields = []
    opt = var = False
    names, rests = set(), 0
    for i in range(r.randrange(0, size)):
        attrs = r.choice(["", "", "", "#[doc = \"d\"] ", "#[serde(x)] "])
        kind = r.choice(["plain", "plain", "plain", "named_only", "variadic", "optional", "optional", "rest"])
        if kind == "rest" and rests and r.random() < 0.3:
            kind = "plain"
        if kind == "variadic" and var and r.random() < 0.7:
            kind = "plain"
        t = r.choice({"plain": PLAIN, "named_only": NAMED_ONLY, "variadic": VARIADIC, "optional": OPTIONAL, "rest": RESTS}[kind])
        style = r.random()
        name = None if tuple_ else r.choice(NAMES) + ("" if r.random() < 0.3 else str(i))
        if not tuple_ and any(f[1] == name for f in fields):
            name += "_" + str(i)
        given = None
        unnamed = tuple_
        if style < 0.25:
            given = r.choice(["a", "b", "ab", "type", "x1", "a b", "", "Été"]) + ("" if r.random() < 0.45 else str(i))
            attrs += r.choice(['#[struct_meta(name = "%s")] ', '#[struct_meta(name = "%s",)] ', '#[struct_meta(name = "zz", name = "%s")] ', '#[struct_meta()] #[struct_meta(name = "%s")] ']) % given
            unnamed = False
        elif style < (0.7 if not tuple_ else 0.35):
            attrs += r.choice(["#[struct_meta(unnamed)] ", "#[struct_meta(unnamed,)] ", "#[struct_meta(unnamed, unnamed)] "])
            unnamed = True
        elif style < 0.74:
            given = f"q{i}"
            attrs += r.choice([f'#[struct_meta(unnamed, name = "{given}")] ', f'#[struct_meta(name = "{given}")] #[struct_meta(unnamed)] '])
            unnamed = True
        if r.random() < 0.02:
            attrs += r.choice(BAD_FIELD) + " "
            faults.append("bad field attribute")
        key = given if given is not None else (name[2:] if name and name.startswith("r#") else name)
        if kind == "rest" and given is None:
            rests += 1
            if rests > 1:
                faults.append("two rest maps")
        elif unnamed:
            if kind == "named_only":
                faults.append("type cannot be unnamed")
            else:
                if var:
                    faults.append("unnamed after variadic")
                if kind == "variadic":
                    var = True
                elif kind == "optional" or (kind == "plain" and t in ("Option<bool>", "Option<Flag>")):
                    opt = True
                elif opt and not var:
                    faults.append("required after optional")
        else:
            if key in names:
                faults.append("duplicate name")
            names.add(key)
        fields.append((f"{attrs}{t}" if tuple_ else f"{attrs}{name}: {t}", name))
    attr = r.choice(OK_STRUCT)
    if r.random() < 0.04:
        attr = r.choice(BAD_STRUCT)
        faults.append("bad struct attribute")
    fs = [f for f, _ in fields]
    if not fs and r.random() < 0.5:
        src = f"{attr} struct S;"
    elif tuple_:
        src = f"{attr} struct S({', '.join(fs)});"
    else:
        src = f"{attr} struct S {{ {', '.join(fs)} }}"
    return src, (faults[0] if faults else None)


def sm_fixed():
    out = []
    for a in BAD_STRUCT:
        out.append((f"{a} struct S {{ a: u8 }}", "bad struct attribute"))
        out.append((f"{a} struct S;", "bad struct attribute"))
    for a in BAD_FIELD:
        out.append((f"struct S {{ {a} a: u8 }}", "bad field attribute"))
        out.append((f"struct S(u8, {a} Option<u8>);", "bad field attribute"))
    for t in NAMED_ONLY:
        out.append((f"struct S({t});", "type cannot be unnamed"))
        out.append((f"struct S {{ #[struct_meta(unnamed)] a: {t} }}", "type cannot be unnamed"))
        out.append((f"struct S {{ a: {t} }}", None))
    for t in PLAIN + VARIADIC + OPTIONAL + RESTS:
        out.append((f"struct S({t});", None))
        out.append((f"struct S {{ a: {t} }}", None))
    for e in ["enum S { A }", "enum S {}", "enum S { A(u8), B { x: u8 } }", "union S { a: u8, b: u8 }", "#[struct_meta(name_filter = \"snake_case\")] enum S { A }"]:
        out.append((e, "not a struct"))
    for a, b in [("Vec<u8>", "u8"), ("Vec<u8>", "Option<u8>"), ("Vec<u8>", "Vec<u8>")]:
        out.append((f"struct S({a}, {b});", "unnamed after variadic"))
        out.append((f"struct S {{ #[struct_meta(unnamed)] a: {a}, m: bool, #[struct_meta(unnamed)] b: {b} }}", "unnamed after variadic"))
    out.append(("struct S(Option<u8>, u8);", "required after optional"))
    out.append(("struct S(u8, Option<u8>, Option<u8>, u8, Vec<u8>);", "required after optional"))
    out.append(("struct S { r#type: u8, #[struct_meta(name = \"type\")] b: u8 }", "duplicate name"))
    out.append(("struct S { a: u8, #[struct_meta(name = \"a\")] b: bool }", "duplicate name"))
    out.append(("struct S { a: HashMap<String, u8>, b: HashMap<String, bool> }", "two rest maps"))
    out.append(("struct S(HashMap<String, u8>, Vec<u8>, HashMap<String, bool>);", "two rest maps"))
    return out


# ---- C13 --------------------------------------------------------------------------------
OPEN = {"(": ")", "[": "]", "{": "}"}
TY = {"(": "token::Paren", "[": "token::Bracket", "{": "token::Brace"}
BAD_PARSE = ["#[parse]", "#[parse(peak)]", "#[parse(peek any)]", "#[parse(peek = 1)]", "#[parse(\"peek\")]", "#[parse(any,,)]", "#[parse = \"any\"]", "#[parse(,)]", "#[parse(terminated(x))]"]
BAD_TT = ["#[to_tokens]", "#[to_tokens(x)]", "#[to_tokens(1)]", "#[to_tokens('(')]", "#[to_tokens(\"(\" \")\")]", "#[to_tokens = \"(\"]", "#[to_tokens(,)]", "#[to_tokens((\"(\"))]"]


def tp_fields(r, n, enum, parse, p_bad):
    """fields text + first fault"""
    fault = None
    stack, out = [], []
    peeks, nonpeek = 0, False
    for i in range(n):
        attrs = ""
        root = not stack
        opened = None
        toks = []
        k = r.random()
        if k < 0.6:
            for _ in range(r.choice([1, 1, 1, 2, 3])):
                z = r.random()
                if z < p_bad * 0.4:
                    toks.append(r.choice(["x", "<", " ", "((x", "()a", "é", ",", ")x", "\\n", ";"]))
                elif z < p_bad:
                    toks.append(r.choice([")", "]", "}", "))", ")("]))
                elif stack and z < 0.5:
                    toks.append(stack[-1])
                else:
                    toks.append(r.choice("([{"))
                for c in (toks[-1] if toks[-1] != "\\n" else "\n"):
                    if c in OPEN:
                        stack.append(OPEN[c])
                        opened = c
                    elif c in ")]}":
                        if not stack:
                            fault = fault or "closes more than was opened"
                        elif stack[-1] != c:
                            fault = fault or "mismatched close"
                            stack.pop()
                        else:
                            stack.pop()
                        root = root or (not stack and not opened)
                    else:
                        fault = fault or "other character"
            form = r.choice([1, 2, 3])
            if form == 1:
                attrs += '#[to_tokens("%s")] ' % "".join(toks)
            elif form == 2:
                attrs += "#[to_tokens(" + ", ".join(f'"{t}"' for t in toks) + ")] "
            else:
                attrs += "".join(f'#[to_tokens("{t}",)] ' for t in toks)
        if r.random() < p_bad * 0.15:
            attrs += r.choice(BAD_TT) + " "
            fault = fault or "bad to_tokens attribute"
        peek = False
        if r.random() < 0.5:
            a = []
            if r.random() < (0.75 if enum and not nonpeek else 0.1):
                a.append("peek")
            if r.random() < 0.2:
                a.append("any")
            if r.random() < 0.2:
                a.append("terminated")
            peek = "peek" in a
            if a:
                attrs += r.choice(["#[parse(%s)] " % ", ".join(a), "#[parse(%s,)] " % ", ".join(a), " ".join(f"#[parse({x})]" for x in a) + " "])
        if r.random() < p_bad * 0.15:
            attrs += r.choice(BAD_PARSE) + " "
            if parse:
                fault = fault or "bad parse attribute"
        if parse and enum and peek:
            if not root:
                fault = fault or "peek in a group"
            elif nonpeek:
                fault = fault or "peek after an unpeeked field"
            else:
                peeks += 1
                if peeks > 3:
                    fault = fault or "fourth peek"
        if root and not peek:
            nonpeek = True
        t = r.choice([TY[opened], "MacroDelimiter", "syn::MacroDelimiter"]) if opened else r.choice(["u8", "Ident", "Token![,]", "Vec<u8>", "T"])
        out.append((attrs, t))
    return out, fault


def tp_case(r, derive):
    parse = derive == "Parse"
    enum = r.random() < (0.6 if parse else 0.3)
    p_bad = r.choice([0.0, 0.0, 0.05, 0.2])
    fault = None
    vs = []
    for k in range(r.choice([0, 1, 2, 3]) if enum else 1):
        fs, f = tp_fields(r, r.choice([0, 1, 2, 3, 4, 6]), enum, parse, p_bad)
        fault = fault or f
        if not fs and r.random() < 0.5:
            b = ""
        elif r.random() < 0.5:
            b = "(" + ", ".join(a + t for a, t in fs) + ")"
        else:
            b = " { " + ", ".join(f"{a}f{i}: {t}" for i, (a, t) in enumerate(fs)) + " }"
        vs.append(b)
    top = ""
    if r.random() < p_bad * 0.3:
        top = r.choice(BAD_PARSE if parse else BAD_TT) + " "
        fault = fault or "bad attribute on the item"
    if enum:
        return f"{top}enum S {{ " + ", ".join("VWXYZ"[i] + b for i, b in enumerate(vs)) + " }", fault
    b = vs[0]
    return f"{top}struct S{b}" + ("" if b.endswith("}") else ";"), fault


def tp_fixed():
    out = []
    for d in ("Parse", "ToTokens"):
        out.append((d, "union S { a: u8 }", "union"))
        for c in ")]}":
            out.append((d, f'struct S(#[to_tokens("{c}")] u8);', "closes more than was opened"))
            for o in "([{":
                ok = OPEN[o] == c
                for t in (TY[o], "MacroDelimiter"):
                    out.append((d, f'struct S(#[to_tokens("{o}")] {t}, #[to_tokens("{c}")] u8);', None if ok else "mismatched close"))
                    out.append((d, f'enum S {{ A, B {{ x: u8, #[to_tokens("{o}")] y: {t}, #[to_tokens("{c}")] z: u8 }} }}', None if ok else "mismatched close"))
                out.append((d, f'struct S(#[to_tokens("{o}")] {TY[o]}, #[to_tokens("{OPEN[o]}{c}")] u8);', "closes more than was opened"))
                out.append((d, f'struct S(#[to_tokens("(")] token::Paren, u8, #[to_tokens("{o}")] {TY[o]}, #[to_tokens("{c}")] u8, #[to_tokens("{c}")] u8);', None if ok and c == ")" else "mismatched close"))
        for x in ["a", " ", "<", "(a", "é", "\\\"", "\\n", "'", "( )", "\\u{200b}"]:
            out.append((d, f'struct S(#[to_tokens("{x}")] token::Paren);', "other character"))
        for x in BAD_TT:
            out.append((d, f"struct S({x} token::Paren);", "bad to_tokens attribute"))
        if d == "Parse":
            for x in BAD_PARSE:
                out.append((d, f"struct S({x} u8);", "bad parse attribute"))
                out.append((d, f"{x} struct S(u8);", "bad parse attribute"))
        else:
            for x in BAD_TT:
                out.append((d, f"{x} struct S(u8);", "bad to_tokens attribute"))
    pk = "#[parse(peek)] "
    out += [
        ("Parse", f"enum S {{ A({pk}A, {pk}B, {pk}C) }}", None),
        ("Parse", f"enum S {{ A({pk}A, {pk}B, {pk}C, {pk}D) }}", "fourth peek"),
        ("Parse", f"enum S {{ A({pk}A, {pk}B, {pk}C, D, E), B({pk}A, B) }}", None),
        ("Parse", f"enum S {{ A(A, {pk}B) }}", "peek after an unpeeked field"),
        ("Parse", f"enum S {{ A({pk}A, B, {pk}C) }}", "peek after an unpeeked field"),
        ("Parse", f'enum S {{ A(#[to_tokens("(")] token::Paren, {pk}B) }}', "peek in a group"),
        ("Parse", f'enum S {{ A(#[to_tokens("(")] {pk}token::Paren, {pk}B) }}', "peek in a group"),
        ("Parse", f'enum S {{ A(#[to_tokens("(")] {pk}token::Paren, B, #[to_tokens(")")] {pk}C) }}', None),
        ("Parse", f'enum S {{ A({pk}#[to_tokens("(")] token::Paren, B, C, {pk}#[to_tokens(")[")] token::Bracket, D, #[to_tokens("]")] {pk}E) }}', None),
        ("Parse", f'enum S {{ A(#[to_tokens("(")] token::Paren, B, #[to_tokens(")")] {pk}C) }}', "peek after an unpeeked field"),
        ("Parse", f"struct S({pk}A, B, {pk}C, {pk}D, {pk}E);", None),
        ("Parse", f'enum S {{ A(#[to_tokens("(")] {pk}token::Paren, #[to_tokens("[])")] {pk}token::Bracket) }}', "peek in a group"),
        ("Parse", f'enum S {{ A(#[to_tokens("(")] {pk}token::Paren, #[to_tokens(")[]")] {pk}token::Bracket, {pk}B) }}', None),
        ("Parse", f'enum S {{ A(#[to_tokens("(")] {pk}token::Paren, #[to_tokens("[])")] token::Bracket, {pk}B) }}', None),
        ("Parse", f'enum S {{ A(#[to_tokens("[](){{}}")] {pk}token::Bracket, {pk}B) }}', None),
        ("Parse", f'struct S(#[to_tokens("(")] token::Paren, {pk}B);', None),
        ("Parse", "enum S {}", None), ("ToTokens", "enum S {}", None), ("Parse", "struct S;", None), ("ToTokens", "struct S {}", None),
        ("Parse", f"enum S {{ A(#[parse(any)] #[parse(peek)] A, #[parse(peek, any, terminated)] B) }}", None),
    ]
    return out


# ---- C08: types that must be treated like a plain type ---------------------------------------
NOT_SPECIAL = [
    "std::vec::Option<u8>", "my::Vec<u8>", "std::collections::Vec<u8>", "option::Vec<u8>", "my::std::vec::Vec<u8>", "a::option::Option<u8>", "core::vec::Vec<u8>",
    "<T as Tr>::Vec<u8>", "<T as std::vec>::Vec<u8>", "<std::option>::Option<u8>", "Vec<u8, A>", "Vec", "Vec<>", "Vec<'a>", "Vec<3>", "Vec<Item = u8>", "Vec(u8)", "Vec(u8) -> u8",
    "Option<u8, u8>", "Option", "Option<'a>", "Option<'a, u8>", "Option<{ 1 }>", "Option(u8)", "std::option<u8>::Option<u8>", "std<u8>::option::Option<u8>", "option<'a>::Option<u8>",
    "alloc::option::Option<u8>", "std::Option<u8>", "core::Option<u8>", "std::option::option::Option<u8>", "vec::vec::Vec<u8>",
    "Flag<u8>", "my::Flag", "structmeta::helpers::Flag", "std::Flag", "<T as structmeta>::Flag", "structmeta<u8>::Flag", "Flag()", "Flags", "flag",
    "bool<u8>", "my::bool", "std::bool", "primitive::std::bool", "<bool>::bool", "std::primitive<u8>::bool", "alloc::primitive::bool", "Bool", "(bool)", "&bool", "[bool; 1]", "(bool,)",
    "NameValue", "NameValue<A, B>", "my::NameValue<u8>", "structmeta::a::NameValue<u8>", "NameValue(u8)", "NameValue<'a>", "structmeta<u8>::NameValue<u8>", "<T>::NameValue<u8>",
    "NameArgs", "NameArgs<A, B>", "my::NameArgs<u8>", "NameArgs(u8)", "structmeta<'a>::NameArgs<u8>", "<T as structmeta>::NameArgs<u8>", "NameArg<u8>",
    "HashMap<String>", "HashMap<u8, u8>", "HashMap<String, u8, S>", "HashMap<&str, u8>", "HashMap", "HashMap(String, u8)", "BTreeMap<String, u8>", "my::HashMap<String, u8>",
    "std::HashMap<String, u8>", "std::collections::btree_map::HashMap<String, u8>", "HashMap<my::String, u8>", "HashMap<String<u8>, u8>", "HashMap<std::String, u8>",
    "HashMap<'a, u8>", "HashMap<String, 3>", "HashMap<<T as Tr>::String, u8>", "collections<u8>::HashMap<String, u8>", "HashMap<str, u8>", "HashMap<std<u8>::string::String, u8>",
    "Box<Option<u8>>", "&Vec<u8>", "&mut Option<u8>", "*const Vec<u8>", "[Vec<u8>]", "(Option<u8>)", "dyn Vec<u8>", "impl Option<u8>", "fn() -> Vec<u8>", "Option!(u8)", "Result<u8>",
]
# types that mean something of their own at the top, and are plain value types inside
_f = lambda t: "struct S {{ f: %s }}" % t
INSIDE = [
    (["bool", "primitive::bool", "Flag", "structmeta::Flag"],
     [_f(x) for x in ("Option<{0}>", "Vec<{0}>", "Option<Vec<{0}>>", "NameValue<{0}>", "NameValue<Option<{0}>>", "NameArgs<{0}>", "NameArgs<Option<{0}>>", "NameArgs<Vec<{0}>>", "NameArgs<Option<Vec<{0}>>>",
                      "Option<NameValue<{0}>>", "Option<NameArgs<Option<{0}>>>", "HashMap<String, {0}>", "HashMap<String, NameValue<{0}>>")]
     + ['struct S {{ #[struct_meta(name = "x")] f: Option<{0}> }}', "struct S {{ #[struct_meta(unnamed)] f: Option<{0}> }}", "struct S(Option<{0}>, Vec<{0}>);", 'struct S(#[struct_meta(name = "x")] Option<{0}>);']),
    (["Option<u8>", "std::option::Option<bool>"], [_f(x) for x in ("Option<{0}>", "Vec<{0}>", "NameValue<Option<{0}>>", "NameArgs<Option<{0}>>", "NameArgs<Vec<{0}>>", "HashMap<String, {0}>")]),
    (["Vec<u8>", "std::vec::Vec<bool>"], [_f(x) for x in ("Vec<{0}>", "NameValue<{0}>", "NameValue<Option<{0}>>", "NameArgs<Vec<{0}>>", "NameArgs<Option<Vec<{0}>>>", "Option<Vec<{0}>>")]),
    (["NameValue<u8>", "NameArgs<u8>", "structmeta::NameArgs<Option<u8>>"], [_f(x) for x in ("Vec<{0}>", "NameValue<{0}>", "NameArgs<{0}>", "NameArgs<Vec<{0}>>", "NameValue<Option<{0}>>", "HashMap<String, Vec<{0}>>")]),
    (["HashMap<String, u8>"], [_f(x) for x in ("Option<{0}>", "Vec<{0}>", "NameValue<{0}>", "HashMap<String, {0}>")] + ['struct S {{ #[struct_meta(name = "x")] f: {0} }}']),
]
# ... and those that must be treated exactly like the canonical type on the left
SAME = {
    "bool": ["primitive::bool", "std::primitive::bool", "core::primitive::bool", "::std::primitive::bool"],
    "Flag": ["structmeta::Flag", "::structmeta::Flag"],
}
WRAP = {"Vec": ["vec::Vec", "std::vec::Vec", "alloc::vec::Vec", "::std::vec::Vec"], "Option": ["option::Option", "std::option::Option", "core::option::Option", "::core::option::Option"],
        "NameValue": ["structmeta::NameValue", "::structmeta::NameValue"], "NameArgs": ["structmeta::NameArgs", "::structmeta::NameArgs"]}
MAPS = ["collections::HashMap", "hash_map::HashMap", "collections::hash_map::HashMap", "std::collections::HashMap", "std::collections::hash_map::HashMap", "::std::collections::HashMap"]
STRS = ["string::String", "std::string::String", "alloc::string::String", "::std::string::String"]


def same_pairs():
    """(canonical type, spelled type): a named field of either must give the same parser"""
    out = []
    for c, l in SAME.items():
        out += [(c, s) for s in l]
    shapes = [["Vec"], ["Option"], ["Option", "Vec"], ["NameValue"], ["NameValue", "Option"], ["NameArgs"], ["NameArgs", "Option"], ["NameArgs", "Vec"], ["NameArgs", "Option", "Vec"],
              ["Option", "NameValue"], ["Option", "NameValue", "Option"], ["Option", "NameArgs"], ["Option", "NameArgs", "Option"], ["Option", "NameArgs", "Vec"], ["Option", "NameArgs", "Option", "Vec"]]
    mk = lambda ws, t: t if not ws else ws[0] + "<" + mk(ws[1:], t) + ">"
    for sh in shapes:
        for i, w in enumerate(sh):
            for s in WRAP[w]:
                for inner in ("u8", "Vec<u8>", "bool", "Option<Flag>"):
                    if inner != "u8" and (i or sh[-1] != w):
                        continue
                    if (sh[-1] == "Option" and inner != "u8") or (inner == "Option<Flag>"):
                        continue
                    out.append((mk(sh, inner), mk(sh[:i] + [s] + sh[i + 1:], inner)))
    for p in ["u8", "bool", "Vec<u8>", "NameValue<u8>", "NameArgs<Option<Vec<u8>>>"]:
        for m in MAPS:
            out.append((f"HashMap<String, {p}>", f"{m}<String, {p}>"))
        for s in STRS:
            out.append((f"HashMap<String, {p}>", f"HashMap<{s}, {p}>"))
    return out


# ---- C17 ----------------------------------------------------------------------------------
GENERICS = [("<T>", ""), ("<T: Clone>", ""), ("<'a, T: 'a + Clone>", "where T: std::fmt::Debug"), ("<const N: usize>", ""), ("<T, const N: usize>", "where [T; N]: Sized, T: Copy,"),
            ("<'a, 'b: 'a, A, B: ?Sized + Tr<A>>", "where A: Into<u8>, for<'c> &'c B: Tr<A>"), ("<T = u8>", ""), ("<const N: usize = 3>", "where u8: Copy"), ("<'a>", "where 'a: 'static"),
            ("<T: Tr<Item = u8>, U>", "where <T as Tr>::X: Clone, U: Fn(T) -> u8"), ("<#[x] T>", ""), ("", "where u8: Clone"), ("", ""), ("<>", ""), ("<T,>", "where"), ("<r#type>", "where r#type: Tr")]


def header_cases():
    out = []
    for g, w in GENERICS:
        for d in ("StructMeta", "Parse", "ToTokens"):
            out.append((d, f"struct S{g} {w} {{ a: u8, b: X }}"))
            out.append((d, f"struct S{g}(u8, X) {w};"))
            out.append((d, f"struct r#type{g} {w} {{ a: u8 }}"))
            if d != "StructMeta":
                out.append((d, f"enum S{g} {w} {{ A(u8), B {{ x: X }}, C }}"))
    return out
