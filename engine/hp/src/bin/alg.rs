//! Exhaustive small algebra of Flag, NameValue and NameArgs (C14) through the public interface.
use proc_macro2::{Span, TokenStream};
use structmeta::{Flag, NameArgs, NameValue};

fn pos(s: Option<Span>) -> Option<(usize, usize)> {
    s.map(|s| (s.start().line, s.start().column))
}
fn main() {
    let ts: TokenStream = "a b c".parse().unwrap();
    let sp: Vec<Span> = ts.into_iter().map(|t| t.span()).collect();
    let mk = |k: usize| if k == 0 { Flag { span: None } } else { Flag { span: Some(sp[k - 1]) } };
    let mut bad: Vec<(String, String)> = vec![];
    let mut n = 0u64;
    let mut ck = |what: String, ok: bool, why: &str| {
        n += 1;
        if !ok {
            bad.push((what, why.to_string()));
        }
    };
    for a in 0..4 {
        let f = mk(a);
        ck(format!("Flag {a}"), f.value() == (a > 0), "set exactly if it holds a span");
        for b in 0..4 {
            let (x, y) = (mk(a), mk(b));
            ck(format!("Flag {a} == Flag {b}"), (x == y) == ((a > 0) == (b > 0)), "equality compares set-ness only");
            ck(format!("Flag {a} != Flag {b}"), (x != y) != (x == y), "!= is the negation of ==");
            let want = pos(if a > 0 { x.span } else { y.span });
            let r = mk(a) | mk(b);
            ck(format!("Flag {a} | Flag {b}"), r.value() == (a > 0 || b > 0) && pos(r.span) == want, "| is set if an operand is, and keeps the left span, else the right one");
            let mut z = mk(a);
            z |= mk(b);
            ck(format!("Flag {a} |= Flag {b}"), z.value() == (a > 0 || b > 0) && pos(z.span) == want, "|= agrees with |");
        }
    }
    for b in [false, true] {
        ck(format!("Flag::from({b})"), Flag::from(b).value() == b && Flag::from(b).span.is_some() == b, "set exactly if b is");
    }
    ck("Flag::NONE".into(), !Flag::NONE.value() && Flag::NONE.span.is_none(), "unset");
    ck("Flag::default()".into(), !Flag::default().value() && Flag::default().span.is_none(), "unset");
    for v in 0..3 {
        for w in 0..3 {
            for s in 0..3 {
                for t in 0..3 {
                    let x = NameValue { name_span: sp[s], value: v };
                    let y = NameValue { name_span: sp[t], value: w };
                    ck(format!("NameValue({s},{v}) == NameValue({t},{w})"), (x == y) == (v == w) && (x != y) == (v != w), "compares the value only");
                    let x = NameArgs { name_span: sp[s], args: v };
                    let y = NameArgs { name_span: sp[t], args: w };
                    ck(format!("NameArgs({s},{v}) == NameArgs({t},{w})"), (x == y) == (v == w) && (x != y) == (v != w), "compares the args only");
                }
            }
        }
    }
    let nan = f64::NAN;
    let x = NameValue { name_span: sp[0], value: nan };
    ck("NameValue(NaN) == itself".into(), !(x == x), "uses the value's own equality");
    let x = NameArgs { name_span: sp[0], args: nan };
    ck("NameArgs(NaN) == itself".into(), !(x == x), "uses the args' own equality");
    let m: Vec<String> = bad.iter().map(|(a, b)| format!("{{\"props\":[\"C14\"],\"def\":\"arg_types\",\"src\":\"structmeta::arg_types\",\"list\":\"{a}\",\"why\":\"{b}\"}}")).collect();
    println!("{{\"evaluations\":{n},\"distinct\":{n},\"classes\":{{\"algebra\":{n}}},\"samples\":[\"Flag 1 | Flag 2\",\"NameValue(0,1) == NameValue(1,1)\"],\"mismatches\":[{}]}}", m.join(","));
}
