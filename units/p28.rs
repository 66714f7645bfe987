//@include core.rs
//@include text.rs
//@type str = String
//@include err.rs
//@include coll.rs
//@static src/shared/uri_template.rs TEMPLATE_EXPR LazyLock::new(|| Regex::new(r"\{([^}]+)\}").unwrap())
//@static src/shared/uri_template.rs VAR_NAME LazyLock::new(|| Regex::new(r"^[a-zA-Z_][a-zA-Z0-9_]*$").unwrap())
//@expr TEMPLATE_EXPR.captures_iter(template) => v_exprs(template)
//@expr VAR_NAME.is_match(name) => v_is_name(name)
//@expr &cap[1] => cap.v_inside()
//@expr expr.chars().next() => v_first_char(expr)
//@expr urlencoding::encode(value).into_owned() => v_url_encode(value)
//@call char::from = v_char_from
//@extract src/shared/uri_template.rs struct:UriTemplate enum:Expression struct:VarSpec
//@extract src/shared/uri_template.rs enum:Operator enum:Modifier +derive=Copy,Clone,Structural,PartialEq,Eq
// ---- the regular expressions (their text is compared with the source on every run) ----
/// the first `}` at or after i
pub open spec fn close(s: Seq<u8>, i: int) -> Option<int> {
    match index_of(s.subrange(i, s.len() as int), 0x7d) { Some(k) => Some(i + k), None => None }
}
/// a `{`, at least one character other than `}`, a `}`, from i on
pub open spec fn expr_at(s: Seq<u8>, i: int) -> Option<int> {
    if 0 <= i < s.len() && s[i] == 0x7b { match close(s, i + 1) { Some(k) => if k > i + 1 { Some(k + 1) } else { None }, None => None } } else { None }
}
/// the leftmost expression at or after i
pub open spec fn next_expr(s: Seq<u8>, i: int) -> Option<(int, int)> decreases s.len() - i {
    if i < 0 || i >= s.len() { None } else { match expr_at(s, i) { Some(e) => Some((i, e)), None => next_expr(s, i + 1) } }
}
pub open spec fn exprs_from(s: Seq<u8>, i: int) -> Seq<(int, int)> decreases s.len() - i {
    match next_expr(s, i) { Some(m) if i < m.1 <= s.len() => seq![m] + exprs_from(s, m.1), _ => Seq::empty() }
}
pub struct Cap { pub s: Ghost<Seq<u8>>, pub m: Ghost<(int, int)> }
pub struct Range0 { pub m: Ghost<(int, int)> }
impl Range0 {
    #[verifier::external_body]
    pub fn start(&self) -> (r: usize) ensures r == self.m@.0 { unimplemented!() }
    #[verifier::external_body]
    pub fn end(&self) -> (r: usize) ensures r == self.m@.1 { unimplemented!() }
}
impl Cap {
    pub fn get(&self, i: usize) -> (r: Option<Range0>) ensures i == 0 ==> r is Some && r->0.m == self.m { Some(Range0 { m: self.m }) }
    #[verifier::external_body]
    pub fn v_inside(&self) -> (r: &String) ensures r@ == self.s@.subrange(self.m@.0 + 1, self.m@.1 - 1) { unimplemented!() }
}
#[verifier::opaque]
pub open spec fn caps_ok(c: Seq<Cap>, s: Seq<u8>) -> bool {
    c.len() == exprs_from(s, 0).len() && forall|k: int| 0 <= k < c.len() ==> (#[trigger] c[k]).s@ == s && c[k].m@ == exprs_from(s, 0)[k]
            && boundary(s, exprs_from(s, 0)[k].0) && boundary(s, exprs_from(s, 0)[k].1)
}
#[verifier::external_body]
pub fn v_exprs(s: &String) -> (r: VInto<Cap>) ensures r.wf(), r.pos() == 0, caps_ok(r.seq(), s@) { unimplemented!() }
pub open spec fn letter(b: u8) -> bool { 0x41 <= b <= 0x5a || 0x61 <= b <= 0x7a || b == 0x5f }
pub open spec fn digit(b: u8) -> bool { 0x30 <= b <= 0x39 }
pub open spec fn is_name(s: Seq<u8>) -> bool { s.len() > 0 && letter(s[0]) && forall|i: int| 0 <= i < s.len() ==> letter(#[trigger] s[i]) || digit(s[i]) }
#[verifier::external_body]
pub fn v_is_name(s: &String) -> (r: bool) ensures r == is_name(s@) { unimplemented!() }
// ---- characters and percent-encoding ----
#[verifier::external_body]
pub fn v_first_char(s: &String) -> (r: Option<char>)
    ensures r is Some <==> s@.len() > 0,
        r is Some ==> (r->0 as u32) < 128 <==> s@[0] < 128,
        r is Some && s@[0] < 128 ==> r->0 as u32 == s@[0] as u32 && boundary(s@, 1)
{ unimplemented!() }
#[verifier::external_body]
pub fn v_char_from(b: u8) -> (r: char) ensures r as u32 == b as u32 { unimplemented!() }
pub uninterp spec fn chars(s: Seq<u8>) -> Seq<char>;
impl String {
    #[verifier::external_body]
    pub fn chars(&self) -> (r: VInto<char>) ensures r.wf(), r.pos() == 0, r.seq() == chars(self@) { unimplemented!() }
    /// `{:02X}` of a byte
    #[verifier::external_body]
    pub fn v_push_fmt_02X(&mut self, b: &u8) ensures final(self)@ == old(self)@.push(hex((*b / 16) as u8)).push(hex((*b % 16) as u8)) { unimplemented!() }
}
pub open spec fn text_of(c: Seq<char>, n: int) -> Seq<u8> decreases n { if n <= 0 { Seq::empty() } else { text_of(c, n - 1) + utf8(c[n - 1]) } }
/// the first n characters
pub open spec fn first_chars(s: Seq<u8>, n: int) -> Seq<u8> { text_of(chars(s), if n < chars(s).len() { n } else { chars(s).len() as int }) }
pub open spec fn hex(b: u8) -> u8 { if b < 10 { (0x30 + b) as u8 } else { (0x37 + b) as u8 } }
pub open spec fn unreserved(b: u8) -> bool { 0x41 <= b <= 0x5a || 0x61 <= b <= 0x7a || digit(b) || b == 0x2d || b == 0x2e || b == 0x5f || b == 0x7e }
pub open spec fn reserved(b: u8) -> bool {
    b == 0x3a || b == 0x2f || b == 0x3f || b == 0x23 || b == 0x5b || b == 0x5d || b == 0x40
    || b == 0x21 || b == 0x24 || b == 0x26 || b == 0x27 || b == 0x28 || b == 0x29 || b == 0x2a || b == 0x2b || b == 0x2c || b == 0x3b || b == 0x3d
}
pub open spec fn hexdigit(b: u8) -> bool { digit(b) || 0x41 <= b <= 0x46 || 0x61 <= b <= 0x66 }
pub assume_specification [u8::is_ascii_hexdigit] (b: &u8) -> (r: bool) ensures r == hexdigit(*b);
pub assume_specification [u8::is_ascii_alphanumeric] (b: &u8) -> (r: bool) ensures r == (0x41 <= *b <= 0x5a || 0x61 <= *b <= 0x7a || digit(*b));
pub open spec fn keep(s: Seq<u8>, i: int, r: bool) -> bool {
    unreserved(s[i]) || r && (reserved(s[i]) || s[i] == 0x25 && i + 2 < s.len() && hexdigit(s[i + 1]) && hexdigit(s[i + 2]))
}
/// the first n bytes of s, percent-encoded
pub open spec fn enc_to(s: Seq<u8>, r: bool, n: int) -> Seq<u8> decreases n {
    if n <= 0 { Seq::empty() } else if keep(s, n - 1, r) { enc_to(s, r, n - 1).push(s[n - 1]) }
    else { enc_to(s, r, n - 1).push(0x25).push(hex((s[n - 1] / 16) as u8)).push(hex((s[n - 1] % 16) as u8)) }
}
pub open spec fn enc(s: Seq<u8>, r: bool) -> Seq<u8> { enc_to(s, r, s.len() as int) }
#[verifier::external_body]
pub fn v_url_encode(s: &String) -> (r: String) ensures r@ == enc(s@, false) { unimplemented!() }
// ---- what a template means ----
pub open spec fn vs_name(t: Seq<u8>) -> Seq<u8> {
    if is_suffix(seq![0x2au8], t) { t.subrange(0, t.len() - 1) } else { match index_of(t, 0x3a) { Some(i) => t.subrange(0, i), None => t } }
}
pub open spec fn vs_len(t: Seq<u8>) -> Option<int> {
    match index_of(t, 0x3a) { Some(i) => parse_dec(t.subrange(i + 1, t.len() as int), 0, usize::MAX as int), None => None }
}
pub open spec fn vs_ok(t: Seq<u8>) -> bool {
    t.len() > 0 && is_name(vs_name(t)) && (is_suffix(seq![0x2au8], t) || index_of(t, 0x3a) is None || (vs_len(t) is Some && 1 <= vs_len(t)->0 <= 10000))
}
pub open spec fn vs_is(v: VarSpec, t: Seq<u8>) -> bool {
    v.name@ == vs_name(t) && v.modifier == (if is_suffix(seq![0x2au8], t) { Some(Modifier::Explode) } else if index_of(t, 0x3a) is Some { Some(Modifier::Prefix(vs_len(t)->0 as usize)) } else { None })
}
pub open spec fn op_of(t: Seq<u8>) -> Operator {
    if t.len() == 0 { Operator::Simple } else if t[0] == 0x2b { Operator::Reserved } else if t[0] == 0x23 { Operator::Fragment } else if t[0] == 0x2e { Operator::Label }
    else if t[0] == 0x2f { Operator::PathSegment } else if t[0] == 0x3b { Operator::PathParameter } else if t[0] == 0x3f { Operator::Query } else if t[0] == 0x26 { Operator::QueryContinuation } else { Operator::Simple }
}
pub open spec fn vars_part(t: Seq<u8>) -> Seq<u8> { if op_of(t) is Simple { t } else { t.subrange(1, t.len() as int) } }
/// the variable specifications of an expression
pub open spec fn pieces(t: Seq<u8>) -> Seq<Seq<u8>> { split_spec(vars_part(t), 0x2c) }
pub open spec fn ex_ok(t: Seq<u8>) -> bool { t.len() > 0 && forall|i: int| 0 <= i < pieces(t).len() ==> vs_ok(String::trim_spec(#[trigger] pieces(t)[i])) }
pub open spec fn ex_is(op: Operator, v: Seq<VarSpec>, t: Seq<u8>) -> bool {
    op == op_of(t) && v.len() == pieces(t).len() && forall|i: int| 0 <= i < v.len() ==> vs_is(#[trigger] v[i], String::trim_spec(pieces(t)[i]))
}
pub enum Piece { Lit(Seq<u8>), Ex(Seq<u8>) }
pub open spec fn end_of(ms: Seq<(int, int)>, k: int) -> int { if k <= 0 { 0 } else { ms[k - 1].1 } }
pub open spec fn inside(s: Seq<u8>, m: (int, int)) -> Seq<u8> { s.subrange(m.0 + 1, m.1 - 1) }
/// the literals and expressions of a template, in order: up to the k-th expression
pub open spec fn shape_to(s: Seq<u8>, ms: Seq<(int, int)>, k: int) -> Seq<Piece> decreases k {
    if k <= 0 { Seq::empty() } else {
        let p = shape_to(s, ms, k - 1);
        let p = if ms[k - 1].0 > end_of(ms, k - 1) { p.push(Piece::Lit(s.subrange(end_of(ms, k - 1), ms[k - 1].0))) } else { p };
        p.push(Piece::Ex(inside(s, ms[k - 1])))
    }
}
pub open spec fn shape(s: Seq<u8>) -> Seq<Piece> {
    let ms = exprs_from(s, 0);
    let p = shape_to(s, ms, ms.len() as int);
    let e = end_of(ms, ms.len() as int);
    if e < s.len() { p.push(Piece::Lit(s.subrange(e, s.len() as int))) } else { p }
}
pub open spec fn e_is(e: Expression, p: Piece) -> bool {
    match p {
        Piece::Lit(t) => e is Literal && e->Literal_0@ == t,
        Piece::Ex(t) => ex_ok(t) && e is Multiple && ex_is(e->Multiple_0, e->Multiple_1@, t),
    }
}
pub open spec fn es_are(es: Seq<Expression>, p: Seq<Piece>) -> bool { es.len() == p.len() && forall|i: int| 0 <= i < es.len() ==> e_is(#[trigger] es[i], p[i]) }
#[verifier::opaque]
pub open spec fn ok_to(s: Seq<u8>, n: int) -> bool { forall|k: int| 0 <= k < n ==> ex_ok(inside(s, #[trigger] exprs_from(s, 0)[k])) }
#[verifier::opaque]
pub open spec fn ms_ok(s: Seq<u8>) -> bool {
    let ms = exprs_from(s, 0);
    forall|k: int| 0 <= k < ms.len() ==> end_of(ms, k) <= (#[trigger] ms[k]).0 && ms[k].0 + 2 < ms[k].1 && ms[k].1 <= s.len()
}
pub open spec fn well_formed(s: Seq<u8>) -> bool { forall|k: int| 0 <= k < exprs_from(s, 0).len() ==> ex_ok(inside(s, #[trigger] exprs_from(s, 0)[k])) }
pub proof fn lemma_next(s: Seq<u8>, i: int)
    requires 0 <= i
    ensures match next_expr(s, i) { Some(m) => i <= m.0 && m.0 + 2 < m.1 && m.1 <= s.len(), None => true }
    decreases s.len() - i
{
    if i < s.len() { match expr_at(s, i) { Some(e) => {
        lemma_index_of_props(s.subrange(i + 1, s.len() as int), 0x7d);
    }, None => { lemma_next(s, i + 1); } } }
}
pub proof fn lemma_exprs(s: Seq<u8>, i: int)
    requires 0 <= i
    ensures ({ let ms = exprs_from(s, i); forall|k: int| 0 <= k < ms.len() ==> (if k == 0 { i } else { ms[k - 1].1 }) <= (#[trigger] ms[k]).0 && ms[k].0 + 2 < ms[k].1 && ms[k].1 <= s.len() })
    decreases s.len() - i
{
    lemma_next(s, i);
    match next_expr(s, i) { Some(m) if i < m.1 <= s.len() => {
        lemma_exprs(s, m.1);
        let ms = exprs_from(s, i); let r = exprs_from(s, m.1);
        assert forall|k: int| 0 <= k < ms.len() implies (if k == 0 { i } else { ms[k - 1].1 }) <= (#[trigger] ms[k]).0 && ms[k].0 + 2 < ms[k].1 && ms[k].1 <= s.len() by {
            if k > 0 { assert(ms[k] == r[k - 1]); if k > 1 { assert(ms[k - 1] == r[k - 2]); } else { assert(ms[0] == m); } } else { assert(ms[0] == m); }
        }
    }, _ => {} }
}
pub proof fn lemma_cap(c: Seq<Cap>, s: Seq<u8>, k: int)
    requires caps_ok(c, s), ms_ok(s), 0 <= k < c.len()
    ensures c.len() == exprs_from(s, 0).len(), c[k].s@ == s, c[k].m@ == exprs_from(s, 0)[k], boundary(s, c[k].m@.0), boundary(s, c[k].m@.1),
        end_of(exprs_from(s, 0), k) <= c[k].m@.0, c[k].m@.0 + 2 < c[k].m@.1, c[k].m@.1 <= s.len()
{ reveal(caps_ok); reveal(ms_ok); }
// ---- what it expands to ----
pub type Vars = Map<String, String>;
pub open spec fn keeps_reserved(op: Operator) -> bool { op is Reserved || op is Fragment }
pub open spec fn val(op: Operator, m: Option<Modifier>, x: Seq<u8>) -> Seq<u8> {
    enc(match m { Some(Modifier::Prefix(n)) => first_chars(x, n as int), _ => x }, keeps_reserved(op))
}
pub open spec fn part(op: Operator, v: VarSpec, x: Seq<u8>) -> Seq<u8> {
    let e = val(op, v.modifier, x);
    if op is PathParameter && e.len() == 0 { v.name@ }
    else if op is PathParameter || op is Query || op is QueryContinuation { v.name@ + seq![0x3du8] + e }
    else { e }
}
pub open spec fn parts_to(op: Operator, v: Seq<VarSpec>, vars: Vars, n: int) -> Seq<Seq<u8>> decreases n {
    if n <= 0 { Seq::empty() } else if vars.contains_key(v[n - 1].name) { parts_to(op, v, vars, n - 1).push(part(op, v[n - 1], vars[v[n - 1].name]@)) }
    else { parts_to(op, v, vars, n - 1) }
}
pub open spec fn lead(op: Operator) -> Seq<u8> {
    match op { Operator::Simple => Seq::empty(), Operator::Reserved => Seq::empty(), Operator::Fragment => seq![0x23], Operator::Label => seq![0x2e], Operator::PathSegment => seq![0x2f],
        Operator::PathParameter => seq![0x3b], Operator::Query => seq![0x3f], Operator::QueryContinuation => seq![0x26] }
}
pub open spec fn sep(op: Operator) -> Seq<u8> {
    match op { Operator::Simple => seq![0x2cu8], Operator::Reserved => seq![0x2c], Operator::Fragment => seq![0x2c], Operator::Label => seq![0x2e], Operator::PathSegment => seq![0x2f],
        Operator::PathParameter => seq![0x3b], Operator::Query => seq![0x26], Operator::QueryContinuation => seq![0x26] }
}
pub open spec fn expanded(op: Operator, v: Seq<VarSpec>, vars: Vars) -> Seq<u8> {
    let p = parts_to(op, v, vars, v.len() as int);
    if p.len() == 0 { Seq::empty() } else { lead(op) + join_spec(p, sep(op)) }
}
pub open spec fn text(e: Expression, vars: Vars) -> Seq<u8> {
    match e { Expression::Literal(t) => t@, Expression::Multiple(op, v) => expanded(op, v@, vars), _ => arbitrary() }
}
pub open spec fn expand_to(es: Seq<Expression>, vars: Vars, k: int) -> Seq<u8> decreases k { if k <= 0 { Seq::empty() } else { expand_to(es, vars, k - 1) + text(es[k - 1], vars) } }
pub open spec fn plain(e: Expression) -> bool { e is Literal || e is Multiple }
pub open spec fn names_of(v: Seq<VarSpec>, base: Seq<String>, n: int) -> Seq<String> decreases n { if n <= 0 { base } else { names_of(v, base, n - 1).push(v[n - 1].name) } }
pub open spec fn names_to(es: Seq<Expression>, k: int) -> Seq<String> decreases k {
    if k <= 0 { Seq::empty() } else { match es[k - 1] { Expression::Multiple(_, v) => names_of(v@, names_to(es, k - 1), v@.len() as int), _ => names_to(es, k - 1) } }
}
/// the last value given for a name
pub open spec fn map_to(p: Seq<(String, String)>, n: int) -> Vars decreases n { if n <= 0 { Map::empty() } else { map_to(p, n - 1).insert(p[n - 1].0, p[n - 1].1) } }
impl UriTemplate {
    /// what every constructor gives and no method changes
    pub open spec fn wf(&self) -> bool { well_formed(self.template@) && es_are(self.expressions@, shape(self.template@)) }
}
//@fn UriTemplate::new ret=r
    ensures r is Ok <==> well_formed(template.txt()),
        r is Ok ==> r->Ok_0.template@ == template.txt() && r->Ok_0.wf()
//@end
//@fn UriTemplate::parse_template ret=r
    ensures r is Ok <==> well_formed(template@),
        r is Ok ==> es_are(r->Ok_0@, shape(template@))
//@start
    proof { lemma_exprs(template@, 0); reveal(ms_ok); reveal(ok_to); reveal(caps_ok); }
//@loop 0
    invariant
        __it0.wf(), caps_ok(__it0.seq(), template@), ms_ok(template@),
        last_end == end_of(exprs_from(template@, 0), __it0.pos() as int), last_end <= template@.len(), boundary(template@, last_end as int),
        es_are(expressions@, shape_to(template@, exprs_from(template@, 0), __it0.pos() as int)),
        ok_to(template@, __it0.pos() as int),
    ensures __it0.pos() == __it0.seq().len()
    decreases __it0.seq().len() - __it0.pos()
//@loopstart 0
    let ghost k = __it0.pos() - 1;
    proof { lemma_cap(__it0.seq(), template@, k); }
//@loopend 0
    proof { reveal(ok_to); }
//@afterloop 0
    proof { reveal(ok_to); }
//@end
//@fn UriTemplate::parse_expression ret=r
    ensures r is Ok <==> ex_ok(expr@),
        r is Ok ==> r->Ok_0 is Multiple && ex_is(r->Ok_0->Multiple_0, r->Ok_0->Multiple_1@, expr@)
//@loop 0
    invariant_except_break __err0 is None
    invariant
        __it0.wf(), vars_str@ == vars_part(expr@), texts(__it0.seq()) == pieces(expr@),
        __out0@.len() == (if __err0 is None { __it0.pos() as int } else { __it0.pos() - 1 }),
        forall|i: int| 0 <= i < __out0@.len() ==> vs_ok(String::trim_spec(#[trigger] pieces(expr@)[i])),
        forall|i: int| 0 <= i < __out0@.len() ==> vs_is(#[trigger] __out0@[i], String::trim_spec(pieces(expr@)[i])),
    ensures
        __err0 is None ==> __it0.pos() == __it0.seq().len(),
        __err0 is Some ==> exists|i: int| 0 <= i < pieces(expr@).len() && !vs_ok(String::trim_spec(#[trigger] pieces(expr@)[i])),
    decreases __it0.seq().len() - __it0.pos()
//@loopstart 0
    assert(texts(__it0.seq())[__it0.pos() - 1] == __x0@);
//@end
//@fn UriTemplate::parse_var_spec ret=r result:map_err
    ensures r is Ok <==> vs_ok(spec@), r is Ok ==> vs_is(r->Ok_0, spec@)
//@end
//@fn UriTemplate::validate_var_name ret=r
    ensures r is Ok <==> is_name(name@)
//@end
//@fn UriTemplate::expand ret=r dropgenerics
//@param vars: &[(String, String)]
    requires self.wf()
    ensures r is Ok, r->Ok_0@ == expand_to(self.expressions@, map_to(vars@, vars@.len() as int), self.expressions@.len() as int)
//@loop 0
    invariant __it0.wf(), __it0.seq() == vars@, __out0@ == map_to(vars@, __it0.pos() as int)
    ensures __it0.pos() == __it0.seq().len()
    decreases __it0.seq().len() - __it0.pos()
//@end
//@fn UriTemplate::expand_with_map ret=r
    requires self.wf()
    ensures r is Ok, r->Ok_0@ == expand_to(self.expressions@, vars@, self.expressions@.len() as int)
//@loopstart 0
    assert(e_is(self.expressions@[__it0.pos() - 1], shape(self.template@)[__it0.pos() - 1]));
//@loop 0
    invariant __it0.wf(), __it0.seq() == self.expressions@, self.wf(), result@ == expand_to(self.expressions@, vars@, __it0.pos() as int)
    ensures __it0.pos() == __it0.seq().len()
    decreases __it0.seq().len() - __it0.pos()
//@end
//@fn UriTemplate::expand_expression ret=r
    requires plain(*expr)
    ensures r@ == text(*expr, vars@)
//@end
//@fn UriTemplate::expand_multiple ret=r
    ensures r@ == expanded(op, specs@, vars@)
//@loop 0
    invariant __it0.wf(), __it0.seq() == specs@, allow_reserved == keeps_reserved(op), parts.jtexts() == parts_to(op, specs@, vars@, __it0.pos() as int)
    ensures __it0.pos() == __it0.seq().len()
    decreases __it0.seq().len() - __it0.pos()
//@loop 1
    invariant __it1.wf(), __out1@ == text_of(chars(value@), __it1.pos() as int), __it1.seq() == chars(value@).take(if len < chars(value@).len() { len as int } else { chars(value@).len() as int })
    ensures __it1.pos() == __it1.seq().len()
    decreases __it1.seq().len() - __it1.pos()
//@end
//@fn UriTemplate::encode_value ret=r
    ensures r@ == enc(value@, allow_reserved)
//@loop 0
    invariant __it0.wf(), __it0.seq() == value@, bytes@ == value@, __cnt1 == __it0.pos(), encoded@ == enc_to(value@, true, __it0.pos() as int)
    ensures __it0.pos() == __it0.seq().len()
    decreases __it0.seq().len() - __it0.pos()
//@end
//@fn UriTemplate::variables ret=r
    requires self.wf()
    ensures r@ == names_to(self.expressions@, self.expressions@.len() as int)
//@loop 0
    invariant __it0.wf(), __it0.seq() == self.expressions@, self.wf(), vars@ == names_to(self.expressions@, __it0.pos() as int)
    ensures __it0.pos() == __it0.seq().len()
    decreases __it0.seq().len() - __it0.pos()
//@loopstart 0
    assert(*expr == self.expressions@[__it0.pos() - 1]);
    assert(e_is(self.expressions@[__it0.pos() - 1], shape(self.template@)[__it0.pos() - 1]));
    let ghost v0 = vars@;
//@loop 1
    invariant __it1.wf(), __it1.seq() == specs@, vars@ == names_of(specs@, v0, __it1.pos() as int)
    ensures __it1.pos() == __it1.seq().len()
    decreases __it1.seq().len() - __it1.pos()
//@end
//@extract src/shared/uri_template.rs impl:UriTemplate::{new,parse_template,parse_expression,parse_var_spec,validate_var_name,expand_with_map,expand_expression,expand_multiple,encode_value,variables,expand}
