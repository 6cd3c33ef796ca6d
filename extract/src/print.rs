//! Token stream to text, one statement per line.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

pub fn print(ts: TokenStream, indent: usize) -> String {
    let mut p = P { out: String::new(), indent, bol: true };
    p.stream(ts, false);
    p.out
}

struct P {
    out: String,
    indent: usize,
    bol: bool,
}

impl P {
    fn w(&mut self, s: &str) {
        if self.bol {
            for _ in 0..self.indent {
                self.out.push_str("    ");
            }
            self.bol = false;
        }
        self.out.push_str(s);
    }
    fn nl(&mut self) {
        if !self.bol {
            while self.out.ends_with(' ') {
                self.out.pop();
            }
            self.out.push('\n');
            self.bol = true;
        }
    }
    fn stream(&mut self, ts: TokenStream, in_paren: bool) {
        let mut it = ts.into_iter().peekable();
        while let Some(t) = it.next() {
            match t {
                TokenTree::Group(g) => {
                    let (o, c) = match g.delimiter() {
                        Delimiter::Parenthesis => ("(", ")"),
                        Delimiter::Brace => ("{", "}"),
                        Delimiter::Bracket => ("[", "]"),
                        Delimiter::None => ("", ""),
                    };
                    let brace = g.delimiter() == Delimiter::Brace;
                    if brace && g.stream().is_empty() {
                        self.w("{ }");
                        if !in_paren && !matches!(it.peek(), Some(TokenTree::Punct(p)) if ",.?;)".contains(p.as_char())) {
                            self.nl();
                        } else {
                            self.w(" ");
                        }
                        continue;
                    }
                    self.w(o);
                    if brace {
                        self.indent += 1;
                        self.nl();
                    }
                    self.stream(g.stream(), !brace);
                    if brace {
                        self.nl();
                        self.indent -= 1;
                    }
                    while !brace && self.out.ends_with(' ') {
                        self.out.pop();
                    }
                    self.w(c);
                    let next_punct = matches!(it.peek(), Some(TokenTree::Punct(p)) if ",.?;)".contains(p.as_char()));
                    let next_else = matches!(it.peek(), Some(TokenTree::Ident(i)) if i == "else" || i == "as");
                    if brace && !next_punct && !next_else && !in_paren {
                        self.nl();
                    } else if !next_punct || g.delimiter() != Delimiter::Parenthesis {
                        self.w(" ");
                    }
                }
                TokenTree::Ident(i) => {
                    let s = i.to_string();
                    if matches!(s.as_str(), "requires" | "ensures" | "decreases" | "invariant" | "invariant_except_break") {
                        self.nl();
                    }
                    self.w(&s);
                    self.w(" ");
                }
                TokenTree::Punct(p) => {
                    let c = p.as_char();
                    if matches!(c, ',' | ';' | '.' | '?') && self.out.ends_with(' ') && !self.bol {
                        // Keep `a .. b` apart from a preceding number.
                        let t = self.out.trim_end_matches(' ');
                        if !(c == '.' && t.ends_with(|x: char| x.is_ascii_digit())) {
                            self.out.pop();
                        }
                    }
                    self.w(&c.to_string());
                    if c == '\'' {
                        continue;
                    }
                    if c == ';' || (c == ',' && !in_paren && p.spacing() == Spacing::Alone) {
                        if in_paren {
                            self.w(" ");
                        } else {
                            self.nl();
                        }
                    } else if p.spacing() == Spacing::Alone && c != '.' {
                        self.w(" ");
                    }
                }
                TokenTree::Literal(l) => {
                    self.w(&l.to_string());
                    self.w(" ");
                }
            }
        }
    }
}
