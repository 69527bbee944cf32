//! A minimal JSON value with a writer.
#[derive(Clone)]
pub enum J {
    Null,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(String, J)>),
}
impl From<bool> for J { fn from(b: bool) -> J { J::B(b) } }
impl From<usize> for J { fn from(b: usize) -> J { J::I(b as i128) } }
impl From<&str> for J { fn from(b: &str) -> J { J::S(b.to_string()) } }
impl From<String> for J { fn from(b: String) -> J { J::S(b) } }
impl From<Vec<J>> for J { fn from(b: Vec<J>) -> J { J::A(b) } }
impl From<Option<J>> for J { fn from(b: Option<J>) -> J { b.unwrap_or(J::Null) } }
#[macro_export]
macro_rules! obj {
    ($($k:expr => $v:expr),* $(,)?) => { $crate::json::J::O(vec![$(($k.to_string(), $crate::json::J::from($v))),*]) };
}
impl J {
    pub fn write(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => o.push_str(&i.to_string()),
            J::S(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 { o.push(','); }
                    x.write(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 { o.push(','); }
                    J::S(k.clone()).write(o);
                    o.push(':');
                    x.write(o);
                }
                o.push('}');
            }
        }
    }
}
