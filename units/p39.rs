//@include core.rs
//@include text.rs
//@type str = String
//@include err.rs
//@include coll.rs
//@call regex::escape = v_escape
//@extract src/shared/uri_template.rs struct:UriTemplate enum:Expression struct:VarSpec
//@extract src/shared/uri_template.rs enum:Operator enum:Modifier +derive=Copy,Clone,Structural,PartialEq,Eq
// ---- what an expression stands for ----
pub enum Kind { Text(Seq<u8>), One(Operator, String), Many }
pub open spec fn kind(e: Expression) -> Kind {
    match e {
        Expression::Literal(t) => Kind::Text(t@),
        Expression::Simple(n) => Kind::One(Operator::Simple, n),
        Expression::Reserved(n) => Kind::One(Operator::Reserved, n),
        Expression::Fragment(n) => Kind::One(Operator::Fragment, n),
        Expression::Label(n) => Kind::One(Operator::Label, n),
        Expression::PathSegment(n) => Kind::One(Operator::PathSegment, n),
        Expression::PathParameter(n) => Kind::One(Operator::PathParameter, n),
        Expression::Query(n) => Kind::One(Operator::Query, n),
        Expression::QueryContinuation(n) => Kind::One(Operator::QueryContinuation, n),
        Expression::Multiple(op, specs) => if specs@.len() == 1 { Kind::One(op, specs@[0].name) } else { Kind::Many },
    }
}
/// the text before the piece
pub open spec fn lead(op: Operator, n: Seq<u8>) -> Seq<u8> {
    match op {
        Operator::Simple => S(""), Operator::Reserved => S(""), Operator::Fragment => S("#"), Operator::Label => S("."), Operator::PathSegment => S("/"),
        Operator::PathParameter => S(";") + n + S("="), Operator::Query => S("?") + n + S("="), Operator::QueryContinuation => S("&") + n + S("="),
    }
}
/// the bytes a piece may not hold
pub open spec fn stops(op: Operator, b: u8) -> bool {
    match op {
        Operator::Simple => b == 0x2f, Operator::Reserved => b == 0x2f, Operator::Fragment => b == 0x0a, Operator::Label => b == 0x2e, Operator::PathSegment => b == 0x2f,
        Operator::PathParameter => b == 0x3b || b == 0x26, Operator::Query => b == 0x26, Operator::QueryContinuation => b == 0x26,
    }
}
pub open spec fn piece_ok(k: Kind, p: Seq<u8>) -> bool {
    p.len() > 0 && forall|i: int| 0 <= i < p.len() ==> !(match k { Kind::One(op, _) => stops(op, #[trigger] p[i]), _ => p[i] == 0x0a })
}
pub open spec fn before(k: Kind) -> Seq<u8> { match k { Kind::One(op, n) => lead(op, n@), _ => Seq::empty() } }
/// u is the first n expressions one after the other, with the pieces p in the places of those that are not literal
pub open spec fn fits(es: Seq<Expression>, n: int, u: Seq<u8>, p: Seq<Seq<u8>>) -> bool decreases n {
    if n <= 0 { u.len() == 0 && p.len() == 0 } else {
        match kind(es[n - 1]) {
            Kind::Text(t) => is_suffix(t, u) && fits(es, n - 1, u.subrange(0, u.len() - t.len()), p),
            k => p.len() > 0 && piece_ok(k, p.last()) && boundary(u, u.len() - p.last().len()) && is_suffix(before(k) + p.last(), u)
                && fits(es, n - 1, u.subrange(0, u.len() - p.last().len() - before(k).len()), p.drop_last()),
        }
    }
}
/// how many of the first n are not literal
pub open spec fn places(es: Seq<Expression>, n: int) -> int decreases n { if n <= 0 { 0 } else { places(es, n - 1) + if kind(es[n - 1]) is Text { 0int } else { 1 } } }
/// each variable with the piece at its expression's place, the last one winning
pub open spec fn assign(es: Seq<Expression>, p: Seq<String>, n: int) -> Map<String, String> decreases n {
    if n <= 0 { Map::empty() } else { match kind(es[n - 1]) { Kind::One(_, v) => assign(es, p, n - 1).insert(v, p[places(es, n - 1)]), _ => assign(es, p, n - 1) } }
}
pub open spec fn texts(p: Seq<String>) -> Seq<Seq<u8>> { Seq::new(p.len(), |i: int| p[i]@) }
pub open spec fn means(es: Seq<Expression>, u: Seq<u8>, p: Seq<String>) -> bool { p.len() == places(es, es.len() as int) && fits(es, es.len() as int, u, texts(p)) }
// ---- regular expressions: what the texts built here match (trusted) ----
pub uninterp spec fn esc(t: Seq<u8>) -> Seq<u8>;
#[verifier::external_body]
pub fn v_escape(t: &String) -> (r: String) ensures r@ == esc(t@) { unimplemented!() }
pub open spec fn rx(k: Kind) -> Seq<u8> {
    match k {
        Kind::Text(t) => esc(t),
        Kind::One(op, n) => match op {
            Operator::Simple => S("([^/]+)"), Operator::Reserved => S("([^/]+)"), Operator::Fragment => S("#(.+)"), Operator::Label => S("\\.([^.]+)"), Operator::PathSegment => S("/([^/]+)"),
            Operator::PathParameter => S(";") + esc(n@) + S("=([^;&]+)"), Operator::Query => S("\\?") + esc(n@) + S("=([^&]+)"), Operator::QueryContinuation => S("&") + esc(n@) + S("=([^&]+)"),
        },
        Kind::Many => S("(.+)"),
    }
}
pub open spec fn pat(es: Seq<Expression>, n: int) -> Seq<u8> decreases n { if n <= 0 { S("^") } else { pat(es, n - 1) + rx(kind(es[n - 1])) } }
pub open spec fn whole(es: Seq<Expression>) -> Seq<u8> { pat(es, es.len() as int) + S("$") }
#[verifier::external_body]
pub struct RxError { x: u8 }
#[verifier::external_body]
pub struct Regex { x: u8 }
#[verifier::external_body]
pub struct Caps { x: u8 }
#[verifier::external_body]
pub struct Piece { x: u8 }
impl Regex {
    pub uninterp spec fn text(&self) -> Seq<u8>;
    /// the texts built here are small regular expressions
    #[verifier::external_body]
    pub fn new(p: &String) -> (r: core::result::Result<Regex, RxError>) ensures r is Ok, r->Ok_0.text() == p@ { unimplemented!() }
    #[verifier::external_body]
    pub fn captures(&self, u: &String) -> (r: Option<Caps>)
        ensures forall|es: Seq<Expression>| #[trigger] whole(es) == self.text() ==> (r is Some <==> exists|p: Seq<String>| #[trigger] means(es, u@, p)) && (r is Some ==> means(es, u@, r->0.groups()))
    { unimplemented!() }
}
impl Caps {
    pub uninterp spec fn groups(&self) -> Seq<String>;
    #[verifier::external_body]
    pub fn get(&self, i: usize) -> (r: Option<Piece>) ensures i >= 1 ==> (r is Some <==> i <= self.groups().len()), r is Some && i >= 1 ==> r->0.s() == self.groups()[i - 1] { unimplemented!() }
}
impl Piece {
    pub uninterp spec fn s(&self) -> String;
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &String) ensures *r == self.s() { unimplemented!() }
}
pub proof fn places_grow(es: Seq<Expression>, n: int, k: int)
    requires 0 <= n <= k <= es.len()
    ensures 0 <= places(es, n) <= n, places(es, n) <= places(es, k)
    decreases k + n
{ if n < k { places_grow(es, n, k - 1); } else if n > 0 { places_grow(es, n - 1, n - 1); } }
//@fn UriTemplate::get_var_name ret=r
    ensures r == (match kind(*expr) { Kind::One(_, n) => Some(n), _ => None })
//@end
//@fn UriTemplate::to_regex_pattern ret=r
    ensures r@ == whole(self.expressions@)
//@loop 0
    invariant __it0.wf(), __it0.seq() == self.expressions@, pattern@ == pat(self.expressions@, __it0.pos() as int)
    ensures __it0.pos() == __it0.seq().len()
    decreases __it0.seq().len() - __it0.pos()
//@loopstart 0
    let ghost p0 = pattern@;
    proof { assert(expr == self.expressions@[__it0.pos() - 1]); }
//@loopend 0
    proof { assert(pattern@ =~= p0 + rx(kind(*expr))); }
//@end
//@fn UriTemplate::match_uri ret=r
    requires self.expressions@.len() < usize::MAX
    ensures r is Some <==> exists|p: Seq<String>| #[trigger] means(self.expressions@, uri@, p),
        r is Some ==> exists|p: Seq<String>| #[trigger] means(self.expressions@, uri@, p) && r->0@ == assign(self.expressions@, p, self.expressions@.len() as int)
//@loop 0
    invariant __it0.wf(), __it0.seq() == self.expressions@, self.expressions@.len() < usize::MAX,
        means(self.expressions@, uri@, captures.groups()), capture_index == 1 + places(self.expressions@, __it0.pos() as int),
        vars@ == assign(self.expressions@, captures.groups(), __it0.pos() as int)
    ensures __it0.pos() == __it0.seq().len()
    decreases __it0.seq().len() - __it0.pos()
//@loopstart 0
    proof { assert(expr == self.expressions@[__it0.pos() - 1]); places_grow(self.expressions@, __it0.pos() - 1, __it0.pos() as int); places_grow(self.expressions@, __it0.pos() as int, self.expressions@.len() as int); }
//@end
//@extract src/shared/uri_template.rs impl:UriTemplate::{match_uri,to_regex_pattern,get_var_name}
