//! Minimal JSON value and writer.
use std::fmt::Write;

#[derive(Clone, Debug)]
pub enum J {
    Null,
    B(bool),
    I(i128),
    U(u128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}

impl From<bool> for J {
    fn from(v: bool) -> J { J::B(v) }
}
impl From<usize> for J {
    fn from(v: usize) -> J { J::U(v as u128) }
}
impl From<u128> for J {
    fn from(v: u128) -> J { J::U(v) }
}
impl From<&str> for J {
    fn from(v: &str) -> J { J::S(v.to_string()) }
}
impl From<String> for J {
    fn from(v: String) -> J { J::S(v) }
}
impl From<Vec<J>> for J {
    fn from(v: Vec<J>) -> J { J::A(v) }
}
impl<T: Into<J>> From<Option<T>> for J {
    fn from(v: Option<T>) -> J { v.map(Into::into).unwrap_or(J::Null) }
}

impl J {
    pub fn write(&self, out: &mut String) {
        match self {
            J::Null => out.push_str("null"),
            J::B(b) => out.push_str(if *b { "true" } else { "false" }),
            J::I(i) => write!(out, "{i}").unwrap(),
            J::U(i) => write!(out, "{i}").unwrap(),
            J::S(s) => {
                out.push('"');
                for c in s.chars() {
                    match c {
                        '"' => out.push_str("\\\""),
                        '\\' => out.push_str("\\\\"),
                        '\n' => out.push_str("\\n"),
                        c if (c as u32) < 0x20 => write!(out, "\\u{:04x}", c as u32).unwrap(),
                        c => out.push(c),
                    }
                }
                out.push('"');
            }
            J::A(v) => {
                out.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 { out.push(','); }
                    x.write(out);
                }
                out.push(']');
            }
            J::O(v) => {
                out.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 { out.push(','); }
                    write!(out, "\"{k}\":").unwrap();
                    x.write(out);
                }
                out.push('}');
            }
        }
    }
}

#[macro_export]
macro_rules! arr {
    ($($e:expr),* $(,)?) => { $crate::json::J::A(vec![$($crate::json::J::from($e)),*]) };
}
#[macro_export]
macro_rules! obj {
    ($($k:literal : $e:expr),* $(,)?) => { $crate::json::J::O(vec![$(($k, $crate::json::J::from($e))),*]) };
}
