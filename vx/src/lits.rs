//! String literals become calls `lit_k()` whose (trusted, generated) contract gives their bytes.
use std::fmt::Write as _;
#[derive(Default, Clone)]
pub struct Lits {
    tab: Vec<String>,
    pub emit_from: usize,
}
impl Lits {
    pub fn len(&self) -> usize {
        self.tab.len()
    }
    pub fn id(&mut self, s: &str) -> usize {
        if let Some(i) = self.tab.iter().position(|x| x == s) {
            return i;
        }
        self.tab.push(s.to_string());
        self.tab.len() - 1
    }
    pub fn seq(s: &str) -> String {
        if s.is_empty() {
            return "Seq::<u8>::empty()".into();
        }
        let mut o = String::from("seq![");
        for (i, b) in s.bytes().enumerate() {
            if i > 0 {
                o.push_str(", ");
            }
            let _ = write!(o, "{}u8", b);
        }
        o.push(']');
        o
    }
    /// `S("abc")` in contract text stands for the bytes of the literal.
    pub fn expand_spec(&mut self, t: &str) -> String {
        let mut o = String::new();
        let b: Vec<char> = t.chars().collect();
        let mut i = 0;
        while i < b.len() {
            if b[i] == 'S'
                && i + 2 < b.len()
                && b[i + 1] == '('
                && b[i + 2] == '"'
                && (i == 0 || !(b[i - 1].is_alphanumeric() || b[i - 1] == '_'))
            {
                let mut j = i + 3;
                let mut s = String::new();
                while b[j] != '"' {
                    if b[j] == '\\' {
                        j += 1;
                        match b[j] {
                            'n' => s.push('\n'),
                            'r' => s.push('\r'),
                            't' => s.push('\t'),
                            '0' => s.push('\0'),
                            c => s.push(c),
                        }
                    } else {
                        s.push(b[j]);
                    }
                    j += 1;
                }
                if b[j + 1] != ')' {
                    crate::die("UNIT", "unterminated S(\"..\")");
                }
                let k = self.id(&s);
                let _ = write!(o, "lits_{}()", k);
                i = j + 2;
            } else {
                o.push(b[i]);
                i += 1;
            }
        }
        o
    }
    pub fn emit(&self) -> String {
        let mut o = String::new();
        for (k, s) in self.tab.iter().enumerate() {
            let _ = writeln!(o, "// {:?}", s);
            // long texts (messages) stay opaque so that they do not slow the solver down
            let opq = if s.len() > 48 { "#[verifier::opaque] " } else { "" };
            let _ = writeln!(o, "{}pub open spec fn lits_{}() -> Seq<u8> {{ {} }}", opq, k, Self::seq(s));
            let _ = writeln!(
                o,
                "#[verifier::external_body] pub fn lit_{}() -> (r: &'static String) ensures r@ == lits_{}() {{ unimplemented!() }}",
                k, k
            );
        }
        o
    }
}
