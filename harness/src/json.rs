//! Just enough JSON to write evidence and replay files.
use std::fmt::Write;

#[derive(Clone, Debug)]
pub enum J {
    S(String),
    N(f64),
    I(i128),
    #[allow(dead_code)]
    B(bool),
    A(Vec<J>),
    O(Vec<(String, J)>),
}

pub fn s(v: impl Into<String>) -> J {
    J::S(v.into())
}

pub fn o(v: Vec<(&str, J)>) -> J {
    J::O(v.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}

impl J {
    pub fn write(&self, out: &mut String) {
        match self {
            J::S(v) => {
                out.push('"');
                for c in v.chars() {
                    match c {
                        '"' => out.push_str("\\\""),
                        '\\' => out.push_str("\\\\"),
                        '\n' => out.push_str("\\n"),
                        '\t' => out.push_str("\\t"),
                        c if (c as u32) < 32 => {
                            let _ = write!(out, "\\u{:04x}", c as u32);
                        }
                        c => out.push(c),
                    }
                }
                out.push('"');
            }
            J::N(v) if v.is_finite() => {
                let _ = write!(out, "{v}");
            }
            J::N(v) => {
                let _ = write!(out, "\"{v}\"");
            }
            J::I(v) => {
                let _ = write!(out, "{v}");
            }
            J::B(v) => {
                let _ = write!(out, "{v}");
            }
            J::A(v) => {
                out.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        out.push_str(", ");
                    }
                    x.write(out);
                }
                out.push(']');
            }
            J::O(v) => {
                out.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        out.push_str(", ");
                    }
                    J::S(k.clone()).write(out);
                    out.push_str(": ");
                    x.write(out);
                }
                out.push('}');
            }
        }
    }

    pub fn to_string(&self) -> String {
        let mut s = String::new();
        self.write(&mut s);
        s
    }
}
