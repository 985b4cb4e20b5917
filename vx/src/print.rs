//! Prints token streams with a newline after every `;`, `{` and `}`.
use proc_macro2::*;

pub fn print(ts: TokenStream) -> String {
    let mut p = P { out: String::new(), joint: false, one: false };
    p.ts(ts);
    p.out
}

struct P {
    out: String,
    joint: bool,
    /// inside a tagged candidate: keep it on one line
    one: bool,
}

impl P {
    fn sp(&mut self) {
        if !self.joint && !self.out.ends_with([' ', '\n', '(', '[']) {
            self.out.push(' ');
        }
        self.joint = false;
    }
    fn ts(&mut self, ts: TokenStream) {
        'next: for t in ts {
            match t {
                TokenTree::Group(g) => {
                    let (o, c) = match g.delimiter() {
                        Delimiter::Parenthesis => ("(", ")"),
                        Delimiter::Brace => ("{", "}"),
                        Delimiter::Bracket => ("[", "]"),
                        Delimiter::None => ("", ""),
                    };
                    self.sp();
                    self.out.push_str(o);
                    if o == "{" && !self.one {
                        self.out.push('\n');
                    }
                    self.ts(g.stream());
                    if c == "}" && !self.out.ends_with('\n') && !self.one {
                        self.out.push('\n');
                    }
                    self.out.push_str(c);
                    if c == "}" && !self.one {
                        self.out.push('\n');
                    }
                    self.joint = false;
                }
                TokenTree::Ident(i) => {
                    let s = i.to_string();
                    if s == "__NL__" {
                        self.one = false;
                        self.out.push('\n');
                        continue;
                    }
                    for k in ["D", "P"] {
                        if let Some(n) = s.strip_prefix(&format!("__{}", k)).and_then(|x| x.strip_suffix("__")) {
                            if !n.is_empty() && n.chars().all(|c| c.is_ascii_digit()) {
                                self.out.push_str(&format!("\n/*{}{}*/", k, n));
                                self.one = true;
                                continue 'next;
                            }
                        }
                    }
                    self.sp();
                    self.out.push_str(&s);
                }
                TokenTree::Punct(p) => {
                    let c = p.as_char();
                    if !(c == ';' || c == ',' || c == '.' || c == ':' || c == '?') {
                        self.sp();
                    }
                    self.joint = false;
                    self.out.push(c);
                    if c == ';' && !self.one {
                        self.out.push('\n');
                    }
                    if p.spacing() == Spacing::Joint {
                        self.joint = true;
                    } else if c == '.' || (c == ':' && self.out.ends_with("::")) || c == '!' || c == '@' {
                        self.joint = true;
                    }
                }
                TokenTree::Literal(l) => {
                    self.sp();
                    self.out.push_str(&l.to_string());
                }
            }
        }
    }
}
