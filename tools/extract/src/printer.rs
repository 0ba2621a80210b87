//! Prints token streams with line breaks.  `__vmark!(KIND, k)` statements become comments.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use quote::ToTokens;

pub fn print(t: TokenStream) -> String {
    let mut s = String::new();
    stream(t, &mut s, 0);
    s.trim().to_string()
}

pub fn print_body(b: &syn::Block) -> String {
    let mut s = String::new();
    stream(b.to_token_stream(), &mut s, 0);
    s.trim().to_string()
}

fn mark(v: &[TokenTree], i: usize) -> Option<(String, String, usize)> {
    // __vmark ! ( KIND , k ) ;
    if let TokenTree::Ident(id) = &v[i] {
        if id == "__vmark" && i + 2 < v.len() {
            if let TokenTree::Group(g) = &v[i + 2] {
                let a: Vec<TokenTree> = g.stream().into_iter().collect();
                let n = if i + 3 < v.len() && matches!(&v[i + 3], TokenTree::Punct(p) if p.as_char() == ';') { 4 } else { 3 };
                return Some((a[0].to_string(), a[2].to_string(), n));
            }
        }
    }
    None
}

fn nl(s: &mut String, ind: usize) {
    while s.ends_with(' ') {
        s.pop();
    }
    s.push('\n');
    for _ in 0..ind {
        s.push_str("  ");
    }
}

fn stream(t: TokenStream, s: &mut String, ind: usize) {
    let v: Vec<TokenTree> = t.into_iter().collect();
    let mut i = 0;
    while i < v.len() {
        if let Some((k, n, len)) = mark(&v, i) {
            s.push_str(&format!("/*@{} {}*/", k, n));
            nl(s, ind);
            i += len;
            continue;
        }
        match &v[i] {
            TokenTree::Group(g) => {
                let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                match g.delimiter() {
                    Delimiter::Brace => {
                        let mut rest = inner.clone();
                        if !inner.is_empty() {
                            if let Some((k, n, len)) = mark(&inner, 0) {
                                if k == "INV" {
                                    s.push_str(&format!("/*@INV {}*/", n));
                                    rest = inner[len..].to_vec();
                                }
                            }
                        }
                        s.push('{');
                        if rest.is_empty() {
                            s.push_str("} ");
                        } else {
                            nl(s, ind + 1);
                            stream(rest.into_iter().collect(), s, ind + 1);
                            nl(s, ind);
                            s.push('}');
                            let semi = i + 1 < v.len() && matches!(&v[i + 1], TokenTree::Punct(p) if matches!(p.as_char(), ';' | ',' | '.' | '?'));
                            let els = i + 1 < v.len() && matches!(&v[i + 1], TokenTree::Ident(id) if id == "else");
                            if !semi && !els {
                                nl(s, ind)
                            } else {
                                s.push(' ')
                            }
                        }
                    }
                    Delimiter::Parenthesis => {
                        s.push('(');
                        stream(g.stream(), s, ind + 1);
                        while s.ends_with(' ') {
                            s.pop();
                        }
                        s.push_str(") ");
                    }
                    Delimiter::Bracket => {
                        s.push('[');
                        stream(g.stream(), s, ind + 1);
                        while s.ends_with(' ') {
                            s.pop();
                        }
                        s.push_str("] ");
                    }
                    Delimiter::None => stream(g.stream(), s, ind),
                }
            }
            TokenTree::Punct(p) => {
                let c = p.as_char();
                if matches!(c, ';' | ',' | '.' | ')' | '?') && p.spacing() == Spacing::Alone {
                    while s.ends_with(' ') {
                        s.pop();
                    }
                }
                s.push(c);
                if c == ';' {
                    nl(s, ind);
                } else if c == '\'' || c == '.' && p.spacing() == Spacing::Alone {
                } else if p.spacing() == Spacing::Alone && !(c == '&' || c == '!' || c == '#') {
                    s.push(' ');
                }
            }
            TokenTree::Ident(id) => {
                s.push_str(&id.to_string());
                s.push(' ');
            }
            TokenTree::Literal(l) => {
                s.push_str(&l.to_string());
                s.push(' ');
            }
        }
        i += 1;
    }
}
