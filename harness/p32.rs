#[path = "common.rs"]
mod common;
use common::*;
use pmcp::shared::context::{ClientInfo, ContextPropagator, RequestContext};
use pmcp::types::RequestId;
use std::collections::{BTreeMap, HashMap};

fn hexd(r: &mut Rng, n: usize) -> String { (0..n).map(|_| *r.pick(&['0', '1', '9', 'a', 'b', 'f', 'F'])).collect() }
fn cut(s: &str, at: &[usize]) -> String {
    let (mut o, mut p) = (String::new(), 0);
    for &a in at { o.push_str(&s[p..a]); o.push('-'); p = a; }
    o + &s[p..]
}
/// an identifier: mostly a UUID, or close to one
fn g_id(r: &mut Rng) -> String {
    match r.below(9) {
        0 => g_text(r),
        1 => { let n = *r.pick(&[0, 1, 15, 16, 17, 31, 32, 33]); hexd(r, n) },
        2 => { let n = r.below(34); let mut s = hexd(r, n); while s.len() < *r.pick(&[16, 18, 32, 34]) { s.push(*r.pick(&['é', '-', 'x', '€', '😀'])); } s },
        3 => "-".repeat(r.below(20)),
        _ => cut(&hexd(r, 32), &[8, 12, 16, 20]),
    }
}
fn g_rid(r: &mut Rng) -> RequestId {
    match r.below(6) {
        0 => RequestId::String(g_text(r)),
        1 => RequestId::String(r.pick(&["abc", "", "req-7", "7x", "9223372036854775808", "0x10", " 7", "7.0", "1e3", "--5", "𝟙"]).to_string()),
        2 => RequestId::Number(*r.pick(&[0, -1, i64::MAX, i64::MIN, 9007199254740993])),
        _ => RequestId::Number(r.next() as i64 >> r.below(60)),
    }
}
fn g_key(r: &mut Rng) -> String {
    match r.below(4) { 0 => g_text(r), 1 => r.pick(&["", "-", "baggage-", "traceparent", "x-user-id", "user-id", "x-request-id", "Tenant", "tenant", "é"]).to_string(), _ => { let n = 1 + r.below(3); hexd(r, n) } }
}
fn g_ctx(r: &mut Rng) -> RequestContext {
    let rid = g_rid(r);
    let mut c = RequestContext::new(rid);
    if r.chance(70) { c.trace_id = g_id(r); }
    if r.chance(70) { c.span_id = g_id(r); }
    if r.chance(30) { c.parent_span_id = Some(g_id(r)); }
    if r.chance(50) { let t = g_text(r); c = c.with_user_id(t.clone()); check("with_user_id", Some(t), c.user_id.clone()); }
    if r.chance(50) { let t = g_text(r); c = c.with_session_id(t.clone()); check("with_session_id", Some(t), c.session_id.clone()); }
    if r.chance(20) { let t = g_text(r); c = c.with_client_info(ClientInfo { client_id: t, version: None, ip_address: None, user_agent: None }); }
    for _ in 0..r.below(4) { let (k, v) = (g_key(r), g_text(r)); c = c.with_baggage(k.clone(), v.clone()); check("with_baggage", Some(v), c.baggage.get(&k).cloned()); }
    for _ in 0..r.below(2) { let (k, v) = (g_key(r), g_json(r, 1)); c = c.with_metadata(k.clone(), v.clone()); check("with_metadata", Some(v), c.metadata.get(&k).cloned()); }
    c
}
fn clean(s: &str) -> String { s.chars().filter(|c| *c != '-').collect() }
fn back(h: &str) -> String { if h.len() == 32 && h.is_ascii() { cut(h, &[8, 12, 16, 20]) } else { h.to_string() } }
fn span_back(h: &str) -> String { if h.len() == 16 && h.is_ascii() { cut(h, &[8, 12]) + "-0000-000000000000" } else { h.to_string() } }
fn tparent(c: &RequestContext) -> String {
    let s = clean(&c.span_id);
    let s = if s.len() >= 16 && s.is_char_boundary(16) { &s[..16] } else { &s };
    format!("00-{}-{}-01", clean(&c.trace_id), s)
}
fn headers(c: &RequestContext) -> BTreeMap<String, String> {
    let mut m: BTreeMap<String, String> = BTreeMap::new();
    m.insert("traceparent".into(), tparent(c));
    m.insert("x-request-id".into(), match &c.request_id { RequestId::String(s) => s.clone(), RequestId::Number(n) => n.to_string() });
    if let Some(u) = &c.user_id { m.insert("x-user-id".into(), u.clone()); }
    if let Some(u) = &c.session_id { m.insert("x-session-id".into(), u.clone()); }
    for (k, v) in &c.baggage { m.insert("baggage-".to_string() + k, v.clone()); }
    m
}
fn uuid_like(s: &str) -> bool { uuid::Uuid::parse_str(s).is_ok() && s.len() == 36 }
fn sorted(m: &HashMap<String, String>) -> BTreeMap<String, String> { m.iter().map(|(k, v)| (k.clone(), v.clone())).collect() }
fn judge(s: &str, h: &HashMap<String, String>, got: &Option<RequestContext>) {
    let p: Option<Vec<&str>> = h.get("traceparent").map(|t| t.split('-').collect::<Vec<_>>()).filter(|p: &Vec<&str>| p.len() >= 4);
    check(&format!("{}: whether there is a context", s), p.is_some(), got.is_some());
    let (Some(p), Some(c)) = (p, got) else { return };
    check(&format!("{}: trace id", s), back(p[1]), c.trace_id.clone());
    check(&format!("{}: parent span", s), Some(span_back(p[2])), c.parent_span_id.clone());
    check(&format!("{}: user", s), h.get("x-user-id").cloned(), c.user_id.clone());
    check(&format!("{}: session", s), h.get("x-session-id").cloned(), c.session_id.clone());
    match h.get("x-request-id") {
        Some(t) => check(&format!("{}: request id", s), t.parse::<i64>().map_or_else(|_| RequestId::String(t.clone()), RequestId::Number), c.request_id.clone()),
        None => ensure(&format!("{}: request id", s), matches!(c.request_id, RequestId::Number(_)), "a new number", &c.request_id),
    }
    let want: BTreeMap<String, String> = h.iter().filter_map(|(k, v)| k.strip_prefix("baggage-").map(|k| (k.to_string(), v.clone()))).collect();
    check(&format!("{}: baggage", s), want, sorted(&c.baggage));
    ensure(&format!("{}: own span", s), uuid_like(&c.span_id) && Some(&c.span_id) != c.parent_span_id.as_ref(), "a new span id", &c.span_id);
}
fn main() {
    start();
    limit_ms(5000);
    let mut r = Rng::new(32);
    while time_left() {
        if r.chance(60) {
            let c = g_ctx(&mut r);
            let s = format!("headers of the context {:?}", c);
            let h = case(&s, c.baggage.len() > 1, || if r.chance(50) { c.to_headers() } else { ContextPropagator::inject(&c) });
            check(&s, headers(&c), sorted(&h));
            let s = format!("the context read from the headers of {:?}", c);
            let d = case(&s, true, || RequestContext::from_headers(&h));
            judge(&s, &h, &d);
            if let Some(d) = &d {
                if uuid_like(&c.trace_id) { check(&format!("{}: trace id", s), c.trace_id.clone(), d.trace_id.clone()); }
                check(&format!("{}: user", s), c.user_id.clone(), d.user_id.clone());
                check(&format!("{}: session", s), c.session_id.clone(), d.session_id.clone());
                check(&format!("{}: baggage", s), sorted(&c.baggage), sorted(&d.baggage));
                ensure(&format!("{}: own span", s), d.span_id != c.span_id, "another span than the sender's", &d.span_id);
            }
            let s = format!("child of the context {:?}", c);
            let k = case(&s, true, || c.child());
            let mut w = c.clone();
            w.parent_span_id = Some(c.span_id.clone());
            w.span_id = k.span_id.clone();
            w.timestamp = k.timestamp;
            check(&s, serde_json::to_value(&w).ok(), serde_json::to_value(&k).ok());
            ensure(&format!("{}: own span", s), uuid_like(&k.span_id) && k.span_id != c.span_id, "a new span id", &k.span_id);
        } else {
            let mut h: HashMap<String, String> = HashMap::new();
            if r.chance(90) {
                let n = r.below(7);
                let t = if r.chance(70) { let (a, b) = (clean(&g_id(&mut r)), g_id(&mut r)); let b = clean(&b); let k = r.below(b.len() + 1); let b = if r.chance(60) { b.get(..16).unwrap_or(&b).to_string() } else { b.get(..k).unwrap_or("").to_string() }; format!("{}-{}-{}{}", r.pick(&["00", "ff", "", "é"]), a, b, r.pick(&["-01", "-00", "", "-", "-01-x-"])) }
                    else { (0..n).map(|_| g_id(&mut r)).collect::<Vec<_>>().join("-") };
                h.insert("traceparent".into(), t);
            }
            if r.chance(60) { let t = match g_rid(&mut r) { RequestId::String(s) => s, RequestId::Number(n) => n.to_string() }; h.insert(r.pick(&["x-request-id", "x-request-id", "X-Request-Id"]).to_string(), t); }
            if r.chance(40) { let t = g_text(&mut r); h.insert("x-user-id".into(), t); }
            if r.chance(40) { let t = g_text(&mut r); h.insert("x-session-id".into(), t); }
            for _ in 0..r.below(5) { let (k, v) = (g_key(&mut r), g_text(&mut r)); h.insert(format!("{}{}", r.pick(&["baggage-", "baggage-", "baggage", "Baggage-", "x-baggage-", ""]), k), v); }
            let s = format!("the context read from the headers {:?}", sorted(&h));
            let d = case(&s, h.len() > 2, || if r.chance(50) { RequestContext::from_headers(&h) } else { ContextPropagator::extract(&h) });
            judge(&s, &h, &d);
        }
    }
    done();
}
