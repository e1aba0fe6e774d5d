"""What decides each property: contract units (Verus), generated-code units, and bounded engines."""
import re

TRUSTED = [
    "vx extraction (tools/vx): the rewrites listed under extraction_drops keep the meaning of the functions",
    "Verus 0.2026.09.13.671956e and its bundled Z3; rustc 1.99 front end",
    "assumed contracts on proc_macro2/syn/quote/std in contracts/prelude.vc and the unit's own @text sections (external_body functions and axioms): token streams as sequences of token trees, ParseBuffer fork/advance_to/peek/parse, Span, Ident, String/format!, Option/slice adaptors",
    "leaf parsers (the field types' own Parse) are functions of the remaining tokens",
]
DROPS = [
    "attributes, visibility and doc comments; path prefixes (std::, syn::, proc_macro2::, quote::, ::structmeta::helpers::exports::)",
    "ParseStream<'a> = &ParseBuffer becomes &mut ParseBuffer: syn's interior mutability made explicit",
    "parenthesized!/bracketed!/braced! become a match on an assumed function returning (token, content)",
    "format!(..) becomes concatenation of the same literals and Display strings; bail!(..) becomes return Err(Error::new(..))",
    "for loops become while loops over the same slice with an index; while-let becomes loop + match",
    "matches!/ok_or_else/closure-taking adaptors become the equivalent match or verified adaptor",
    "quote!/parse_quote!/format_ident! become calls of functions that return the AST node of their template applied to the values of its variables; templates no contract names return an opaque value",
]
ASSUMPTIONS = [
    "invisible (None-delimited) groups do not occur in the tokens",
    "usize is 64 bits; machine arithmetic is checked for overflow, not treated as mathematical",
    "no unsafe code in the functions under contract (there is none in /repo)",
]

# functions of a unit -> properties an obligation of theirs bears on, when no clause names one
BLAME = {
    "helpers": {
        "peek_eq_op": ["C06", "C01"], "find": ["C06", "C01", "C07"], "name_index_of": ["C06", "C01", "C16"], "name_of": ["C07"],
        "is_snake_case": ["C06"], "distance": ["C07"], "find_similar_name": ["C07"], "msg": ["C07"], "try_parse_name": ["C06", "C07", "C16"],
        "parse_macro_delimiter": ["C15"], "surround_macro_delimiter": ["C15"],
    },
    "argtypes": {"*": ["C14"]},
    "types": {"is_macro_delimiter": ["C10", "C11", "C15"], "NS_SYN": ["C10", "C11", "C15"], "*": ["C08"]},
    "params": {
        "parse": ["C09"], "parse_from_attr": ["C09"], "name_filter": ["C06"], "to_code": ["C06"], "from_field": ["C09"], "from_fields": ["C09"], "named_ps": ["C06"], "names": ["C06", "C01"],
        "derive_struct_meta": ["C09"], "impl_trait_result": ["C09"], "build": ["C09"], "*": ["C09"],
    },
    "ttoks": {"*": ["C13"]},
    "tparse": {"*": ["C13"]},
}


# obligations of a generated parser that no clause labels (loop invariant, termination, unreachable arms)
GENERATED = {"sm": ["C01", "C02", "C03", "C04", "C05", "C16"], "tt": ["C10"], "pa": ["C11", "C12"]}


def blame(unit, fn):
    for k, v in GENERATED.items():
        if re.fullmatch(k + r"\d+", unit):
            return v
    b = BLAME.get(unit, {})
    return b.get(fn) or b.get("*") or []


SM_RULE = "every argument list of up to a few arguments over the definition's own names, styles, separators and near misses, for a family of derived definitions (all field-type/placement combinations, seeded random ones), parsed by the real derived parser; non-trivial = more than one token, distinct by definition and tokens"
SM_BOUND = "bounded: a finite family of definitions, lists enumerated to a small length and sampled beyond; oracle engine/sm/src/model.rs written from the properties; stand-in where the proof does not reach, never counted as proved"
TP_RULE = "for a family of derived types: token streams enumerated over their own alphabet and values built field by field, through the real derived Parse and ToTokens; non-trivial = non-empty, distinct by type and tokens"
TP_BOUND = "bounded: a finite family of derived types; oracle engine/tp/src/model.rs; never counted as proved"
HOST_RULE = "definitions generated from a grammar with at most one planted fault (plus fixed lists), expanded by the real derive code; non-trivial = parses as a Rust item"
HOST_BOUND = "bounded: generated definitions through the derive code linked as a library (structmeta-derive/src copied mechanically, proc_macro replaced by proc_macro2); never counted as proved"
HP_RULE = "seeded random name tables, flags and tokens through structmeta::helpers, oracle in engine/hp; distinct by tables and tokens"


PARAMS_TRUST = "contracts/defs.vc, params.vc: assumed contracts of syn's DeriveInput, Field, Attribute::parse_args, custom keywords, LitStr, Ident::unraw, Punctuated::parse_terminated, BTreeMap<String, _>; quote!/format_ident! do not panic on the templates in the source; what parse_macro_input! expands to, and that to_compile_error gives a compile_error!; the attributes of the entry points are dropped; derive(Default) of ArgsForStruct is all-empty"

TP_TRUST = "contracts/defs.vc, tpattr.vc: assumed contracts of syn's DeriveInput, Fields, Attribute::parse_args, custom keywords, LitStr, Punctuated::parse_terminated; fields in braces have names and variants different names (what syn's parser and rustc let through); quote!/quote_spanned!/format_ident!/parse_quote! do not panic on the templates in the source; what parse_macro_input! expands to, and that to_compile_error gives a compile_error!; the attributes of the entry points are dropped"


def p(units, engines, level, rule, bounded, explanation, **kw):
    return {"units": units, "engines": engines, "level": level, "rule": rule, "bounded": bounded, "explanation": explanation, **kw}


SMG = dict(generated=["sm"], technique="contract-based deductive verification (Verus): the derive code against a specification of what the code it quotes does, the run-time helpers it calls, and the parser derived for each definition of a family against a contract written from that definition",
           trusted=["contracts/gensm.vc: assumed contracts of HashMap<String, _> (new, insert, contains_key), Punctuated::parse_terminated, String/char; a parse buffer holds fewer than 0x7000_0000 token trees"])
SMX = "for every DeriveInput of a struct whose fields have different names: the code derive(StructMeta) quotes (Params::build and everything it calls, from Params::from_fields on), read as the statements its templates stand for (contracts/smread.vc), returns on every token stream what the specification of the definition says (clause c01_c02_c03_c04_c05_c06_c16_parser; spec in contracts/smread.vc, values.vc); that reading of the templates is checked on the expansions of a finite family, where the generated Parse::parse itself is proved, for every token stream, against postconditions written from the definition ({})"

TPG = dict(trusted=["contracts/gentp.vc: assumed contracts of the field types' own Parse, ToTokens and peeks (functions of the tokens), of Punctuated::parse_terminated and parse_terminated_with, and of Paren/Bracket/Brace::surround (runs the closure once on an empty stream, then appends one group)"],
           drops=["`d.surround(tokens, |t| body)` and surround_macro_delimiter become the body on a new stream followed by the append of one group (the contract of surround, proved for surround_macro_delimiter in the helpers unit)", "nested parse buffers are dropped explicitly at the end of their block (vx_drop)", "raw identifiers r#x are spelled r_x"])
TTT = "contract-based deductive verification (Verus): the {} derived for each definition of a family proved against a contract written from that definition"
TPX = "for each definition of the family the generated {} is proved, for every {}, against a postcondition written from the definition ({}); the definitions themselves are a finite family"

QT = "quote!/quote_spanned!: a call gives the AST node of its template (matched by text) with the values of its variables (contracts/defs.vc: Cd); what the named templates do when the generated code runs is the specification in contracts/tprint.vc, tread.vc, smread.vc; format_ident! joins its parts; usize decimals are injective and digits only"


def sm(clauses, engines=("sm",), more=""):
    return p(["helpers", "types", "params"], list(engines), "proof", SM_RULE, SM_BOUND, SMX.format(clauses) + more, **{**SMG, "trusted": SMG["trusted"] + [PARAMS_TRUST, QT]})


PROPERTIES = {
    "C01": sm("c01_stored, c01_c04_accepted", ["sm", "hp"], "; try_parse_name and its helpers are proved for every table"),
    "C02": sm("c02_once"),
    "C03": sm("c03_absent"),
    "C04": sm("c04_unnamed, c01_c04_accepted"),
    "C05": sm("c05_whole"),
    "C06": p(["helpers", "types", "params"], ["hp", "sm"], "proof", HP_RULE, HP_RULE, "try_parse_name classifies by the declared styles (clause c06_classified) for every table and token stream; the tables the derive offers it are the names of exactly the parameters of each style (c06_offers, c06_named, c06_tables), in the order the call takes them, with the name filter asked for, for every definition", trusted=[PARAMS_TRUST, QT]),
    "C07": p(["helpers"], ["hp", "sm"], "proof", HP_RULE, HP_RULE, "the text of the error (clause c07_diagnosed), msg, find_similar_name and distance against the closeness relation"),
    "C08": p(["types", "params"], ["host", "sm"], "proof", HOST_RULE, HOST_BOUND, "for every syn::Type: the recognisers, NamedParamType::from_type (c08_style) and Param::from_field (c08_styled) give the style the property states; that the code generated for a style behaves as documented is C01-C06", trusted=[PARAMS_TRUST]),
    "C09": p(["types", "params"], ["host", "sm"], "proof", HOST_RULE, HOST_BOUND, "for every DeriveInput: derive_struct_meta returns Err exactly for the faults listed (c09_accepted), which the entry point answers with compile_error! (c09_answered), and reaches no panic except under `dump`", trusted=[PARAMS_TRUST]),
    "C10": p(["helpers", "types", "ttoks"], ["tp"], "proof", TP_RULE, TP_BOUND, "for every DeriveInput whose fields have different names: the code derive(ToTokens) quotes, read as the statements its templates stand for (c10_impl), prints for every value exactly the tokens the definition asks for; that reading is checked on the expansions of a finite family: " + TPX.format("ToTokens::to_tokens", "value and output", "c10_printed"), generated=["tt"], technique="contract-based deductive verification (Verus) of the derive code with a specification of what the quoted code does, and of the printers it generates for a family of definitions", trusted=TPG["trusted"] + [TP_TRUST, QT], drops=TPG["drops"]),
    "C11": p(["helpers", "types", "tparse"], ["tp"], "proof", TP_RULE, TP_BOUND, "for every DeriveInput whose fields have different names: the code derive(Parse) quotes, read as the statements its templates stand for (c11_impl), runs each field's own parser once, in order, at its nesting level, and builds the value from the results, on every token stream, and from this and C10's specification the round trip is proved for every definition the derive accepts (lemma c11_inverts in contracts/trip.vc: if each field's own parser reads back what its value prints, so does the derived one, to the last token); that reading is checked on the expansions of a finite family: " + TPX.format("Parse::parse", "token stream", "c11_fields") + ", where a lemma per definition derives the round trip from the two generated contracts", generated=["pa"], technique="contract-based deductive verification (Verus) of the derive code with a specification of what the quoted code does, and of the parsers it generates for a family of definitions", trusted=TPG["trusted"] + [TP_TRUST, QT], drops=TPG["drops"]),
    "C12": p(["types", "tparse"], ["tp"], "proof", TP_RULE, TP_BOUND, "for every DeriveInput of an enum: the code derive(Parse) quotes, read as the statements its templates stand for (c12_impl), tries the variants in order, commits to the first whose peeks match, forks for one without, and ends in an error, on every token stream; that reading is checked on the expansions of a finite family: " + TPX.format("Parse::parse of an enum", "token stream", "c12_chosen"), generated=["pa"], technique="contract-based deductive verification (Verus) of the derive code with a specification of what the quoted code does, and of the parsers it generates for a family of definitions", trusted=TPG["trusted"] + [TP_TRUST, QT], drops=TPG["drops"]),
    "C13": p(["types", "ttoks", "tparse"], ["host", "tp"], "proof", HOST_RULE, HOST_BOUND, "for every DeriveInput: derive_to_tokens and derive_parse return Ok exactly for the placements the property accepts (c13_to_tokens, c13_parse), anything else is answered with compile_error! by the entry points (c13_answered), and they reach no panic except under `dump`; every function of to_tokens.rs, parse.rs and to_tokens_attribute.rs is under contract", trusted=[TP_TRUST]),
    "C14": p(["argtypes"], ["alg"], "proof", "exhaustive over set/unset flags with distinct spans and small values", "exhaustive over the small space only", "every operator of Flag, NameValue and NameArgs against its algebraic postcondition, for every type argument"),
    "C15": p(["helpers", "types"], ["hp", "tp"], "proof", HP_RULE, HP_RULE, "parse_macro_delimiter and surround_macro_delimiter against the group model, and the round-trip lemma"),
    "C16": sm("c16_spans", ["sm", "hp"], "; span postconditions of try_parse_name (c16_located) for every table"),
    "C17": p(["ttoks", "tparse", "params"], ["host", "sm", "tp"], "proof", HOST_RULE, HOST_BOUND, "for every DeriveInput each of the three derives quotes exactly one impl of its trait, for the type with its own generics and where clauses and no other predicates (c17_to_tokens, c17_parse, c17_struct_meta, c17_impl); that the generated function type-checks and behaves the same for every type argument is bounded: generic members of the families are compiled and run", trusted=[PARAMS_TRUST, TP_TRUST, QT, "syn's Generics::split_for_impl gives the type's own parameters"]),
}
