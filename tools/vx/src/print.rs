use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
/// Token printer: one statement or item per line.
pub fn print(ts: TokenStream) -> String {
    let mut s = String::new();
    go(ts, &mut s, 0);
    s
}
/// identifiers the verifier cannot print are spelled in ASCII
pub fn ascii(i: &str) -> String {
    i.replace("r#", "r_").chars().map(|c| if c.is_ascii() { c.to_string() } else { format!("_u{:x}", c as u32) }).collect()
}
const BREAK_BEFORE: &[&str] = &["requires", "ensures", "invariant", "decreases", "invariant_except_break", "recommends", "returns"];
fn nl(s: &mut String, ind: usize) {
    while s.ends_with(' ') {
        s.pop();
    }
    if !s.ends_with('\n') && !s.is_empty() {
        s.push('\n');
    }
    for _ in 0..ind {
        s.push_str("  ");
    }
}
fn go(ts: TokenStream, s: &mut String, ind: usize) {
    let mut it = ts.into_iter().peekable();
    while let Some(t) = it.next() {
        match t {
            TokenTree::Group(g) => {
                let (o, c) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::None => ("", ""),
                };
                if g.delimiter() == Delimiter::Brace {
                    s.push_str(o);
                    nl(s, ind + 1);
                    go(g.stream(), s, ind + 1);
                    nl(s, ind);
                    s.push_str(c);
                    match it.peek() {
                        Some(TokenTree::Punct(p)) if ".?,;)=".contains(p.as_char()) => {}
                        Some(TokenTree::Ident(i)) if i == "else" => s.push(' '),
                        Some(_) => nl(s, ind),
                        None => {}
                    }
                } else {
                    s.push_str(o);
                    go(g.stream(), s, ind);
                    while s.ends_with(' ') {
                        s.pop();
                    }
                    s.push_str(c);
                    s.push(' ');
                }
            }
            TokenTree::Ident(i) => {
                if BREAK_BEFORE.contains(&i.to_string().as_str()) {
                    nl(s, ind + 1);
                }
                s.push_str(&ascii(&i.to_string()));
                s.push(' ');
            }
            TokenTree::Literal(l) => {
                s.push_str(&l.to_string());
                s.push(' ');
            }
            TokenTree::Punct(p) => {
                s.push(p.as_char());
                if p.as_char() == ';' {
                    nl(s, ind);
                } else if p.as_char() == ',' {
                    if s.len() - s.rfind('\n').unwrap_or(0) > 110 {
                        nl(s, ind + 1)
                    } else {
                        s.push(' ')
                    }
                } else if p.spacing() == Spacing::Alone {
                    s.push(' ');
                }
            }
        }
    }
}
