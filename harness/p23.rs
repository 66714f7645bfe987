// P23: OIDC discovery and the OAuth token client, against a scripted server on the loopback interface
#[path = "common.rs"]
mod common;
use base64::Engine;
use common::*;
use pmcp::client::auth::{OidcDiscoveryClient, TokenExchangeClient};
use serde_json::{json, Value};
use std::collections::VecDeque;
use std::io::{Read, Write};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
struct Answer { status: u16, body: Vec<u8>, drop: bool }
#[derive(Clone, Debug)]
struct Got { method: String, path: String, headers: Vec<(String, String)>, body: String, at: Instant }
struct Web { next: Mutex<VecDeque<Answer>>, got: Mutex<Vec<Got>> }
fn talk(mut c: std::net::TcpStream, w: &Web) {
    let _ = c.set_nodelay(true);
    let _ = c.set_read_timeout(Some(Duration::from_secs(5)));
    let (mut b, mut buf): (Vec<u8>, _) = (vec![], [0u8; 4096]);
    let end = loop {
        if let Some(i) = b.windows(4).position(|x| x == b"\r\n\r\n") { break i; }
        match c.read(&mut buf) { Ok(n) if n > 0 => b.extend_from_slice(&buf[..n]), _ => return }
    };
    let head = String::from_utf8_lossy(&b[..end]).to_string();
    let mut ls = head.split("\r\n");
    let rl: Vec<String> = ls.next().unwrap_or("").split(' ').map(|x| x.to_string()).collect();
    let headers: Vec<(String, String)> = ls.filter_map(|l| l.split_once(':')).map(|(k, v)| (k.to_lowercase(), v.trim().to_string())).collect();
    let n: usize = headers.iter().find(|(k, _)| k == "content-length").and_then(|(_, v)| v.parse().ok()).unwrap_or(0);
    while b.len() < end + 4 + n { match c.read(&mut buf) { Ok(k) if k > 0 => b.extend_from_slice(&buf[..k]), _ => break } }
    let a = w.next.lock().unwrap().pop_front().unwrap_or(Answer { status: 599, body: vec![], drop: false });
    w.got.lock().unwrap().push(Got { method: rl[0].clone(), path: rl.get(1).cloned().unwrap_or_default(), headers, body: String::from_utf8_lossy(&b[end + 4..]).to_string(), at: Instant::now() });
    if a.drop { return; }
    let mut o = format!("HTTP/1.1 {} X\r\nConnection: close\r\nContent-Type: application/json\r\nContent-Length: {}\r\n\r\n", a.status, a.body.len()).into_bytes();
    o.extend(&a.body);
    let _ = c.write_all(&o);
    let _ = c.flush();
}
const STATUS: [u16; 14] = [200, 200, 200, 201, 204, 299, 301, 400, 401, 404, 408, 429, 500, 504];
fn texts(r: &mut Rng) -> Value { let n = r.below(3); json!((0..n).map(|_| g_text(r)).collect::<Vec<_>>()) }
fn sub(r: &mut Rng, of: &[&str]) -> Value { let n = r.below(4); json!((0..n).map(|_| *r.pick(of)).collect::<Vec<_>>()) }
const LISTS: [&str; 5] = ["response_types_supported", "grant_types_supported", "scopes_supported", "token_endpoint_auth_methods_supported", "code_challenge_methods_supported"];
fn lists(v: &Value) -> Vec<Value> { LISTS.iter().map(|k| v[*k].clone()).collect() }
fn document(r: &mut Rng, issuer: &str) -> Value {
    let mut v = json!({"issuer": issuer, "authorization_endpoint": g_text(r), "token_endpoint": g_text(r), "response_types_supported": sub(r, &["code", "token"]), "grant_types_supported": sub(r, &["authorization_code", "refresh_token", "client_credentials", "password"]), "scopes_supported": texts(r), "token_endpoint_auth_methods_supported": texts(r), "code_challenge_methods_supported": texts(r)});
    for k in ["jwks_uri", "userinfo_endpoint", "registration_endpoint", "revocation_endpoint", "introspection_endpoint"] { if r.chance(30) { v[k] = json!(g_text(r)); } }
    if r.chance(10) { let k = *r.pick(&["issuer", "token_endpoint", "scopes_supported", "jwks_uri"]); v[k] = json!(7); }
    v
}
fn token(r: &mut Rng) -> Value {
    let mut v = json!({"access_token": g_text(r), "token_type": *r.pick(&["Bearer", "bearer", "DPoP"])});
    if r.chance(50) { v["expires_in"] = json!(*r.pick(&[0u64, 1, 3600, u64::MAX])); }
    if r.chance(50) { v["refresh_token"] = json!(g_text(r)); }
    if r.chance(50) { v["scope"] = json!(g_text(r)); }
    if r.chance(10) { let k = *r.pick(&["access_token", "token_type", "expires_in"]); v[k] = json!(-1); }
    if r.chance(5) { v.as_object_mut().unwrap().remove("access_token"); }
    if r.chance(10) { v["error"] = json!("invalid_grant"); }
    v
}
fn script(w: &Web, a: &[Answer]) { w.got.lock().unwrap().clear(); let mut n = w.next.lock().unwrap(); n.clear(); n.extend(a.iter().cloned()); }
fn told(a: &Answer) -> String { if a.drop { "no answer".into() } else { format!("{} {:?}", a.status, String::from_utf8_lossy(&a.body)) } }
/// the member values a reader must find; none when the document lacks one or has one of another type
fn strings(v: &Value, must: &[&str], may: &[&str]) -> Option<Value> {
    let mut o = serde_json::Map::new();
    for k in must { o.insert(k.to_string(), v.get(*k).filter(|x| x.is_string())?.clone()); }
    for k in may { match v.get(*k) { None | Some(Value::Null) => {}, Some(x) if x.is_string() => { o.insert(k.to_string(), x.clone()); }, _ => return None } }
    Some(Value::Object(o))
}
fn discovery(rt: &tokio::runtime::Runtime, r: &mut Rng, w: &Web, port: u16) {
    let retries = r.below(4);
    let delay = Duration::from_millis(r.below(4) as u64);
    let base = format!("http://127.0.0.1:{}{}", port, r.pick(&["", "/a", "/network/connection", "/a/b%20c", "/a//b"]));
    let issuer = format!("{}{}", base, r.pick(&["", "/", "//", ""]));
    let answers: Vec<Answer> = (0..1 + r.below(6)).map(|i| Answer { status: *r.pick(&STATUS), body: match r.below(6) { 0 => vec![], 1 => b"junk".to_vec(), _ => serde_json::to_vec(&document(r, &base)).unwrap() }, drop: r.chance(if i < 2 { 60 } else { 30 }) }).collect();
    let desc = format!("OidcDiscoveryClient with {} retries {:?} apart discovers {}; answers: {}", retries, delay, issuer.replace(&port.to_string(), "PORT"), answers.iter().map(told).collect::<Vec<_>>().join(", "));
    case(&desc, answers.len() > 1, || {
        script(w, &answers);
        let got = rt.block_on(async { tokio::time::timeout(Duration::from_secs(30), OidcDiscoveryClient::with_settings(retries, delay).discover(&issuer)).await });
        let Ok(got) = got else { cex(&desc, "a result", "none after 30 s"); return };
        // an answer other than none ends it; a broken document may be asked for again only if its error says so
        let mut k = 0;
        while k < retries && answers.get(k).map_or(false, |a| a.drop) { k += 1; }
        let seen = w.got.lock().unwrap().clone();
        check(&format!("{}: requests", desc), k + 1, seen.len());
        let path = format!("{}/.well-known/openid-configuration", &base[format!("http://127.0.0.1:{}", port).len()..]);
        for (i, g) in seen.iter().enumerate() {
            check(&format!("{}: request {}", desc, i), ("GET".to_string(), path.clone(), Some("application/json".to_string())), (g.method.clone(), g.path.clone(), g.headers.iter().find(|(k, _)| k == "accept").map(|(_, v)| v.clone())));
            if i > 0 { ensure(&desc, g.at.duration_since(seen[i - 1].at) + Duration::from_millis(1) >= delay, &format!("{:?} between two attempts", delay), format!("{:?}", g.at.duration_since(seen[i - 1].at))); }
        }
        let a = answers.get(k).cloned().unwrap_or(Answer { status: 599, body: vec![], drop: false });
        let may = ["jwks_uri", "userinfo_endpoint", "registration_endpoint", "revocation_endpoint", "introspection_endpoint"];
        let want = if a.drop || a.status / 100 != 2 || a.status == 204 { None } else {
            serde_json::from_slice::<Value>(&a.body).ok().filter(|v| v["scopes_supported"].is_array()).and_then(|v| strings(&v, &["issuer", "authorization_endpoint", "token_endpoint"], &may).map(|s| (s, lists(&v))))
        };
        let got = got.ok().map(|m| { let v = serde_json::to_value(&m).unwrap(); strings(&v, &["issuer", "authorization_endpoint", "token_endpoint"], &may).map(|s| (s, lists(&v))) });
        check(&format!("{}: result", desc), want.map(Some), got);
    });
}
fn tokens(rt: &tokio::runtime::Runtime, r: &mut Rng, w: &Web, port: u16) {
    let path = *r.pick(&["/token", "/", "/a/b?x=1"]);
    let url = format!("http://127.0.0.1:{}{}", port, path);
    let mut t = |r: &mut Rng| match r.below(5) { 0 => "".to_string(), 1 => "a b&c=d%20+".to_string(), _ => g_text(r) };
    let (code, id, redirect) = (t(r), t(r).replace(':', ""), t(r));
    let secret = if r.chance(60) { Some(t(r)) } else { None };
    let extra = if r.chance(60) { Some(t(r)) } else { None };
    let refresh = r.chance(50);
    let body = match r.below(6) { 0 => vec![], 1 => b"junk".to_vec(), _ => serde_json::to_vec(&token(r)).unwrap() };
    let a = Answer { status: *r.pick(&STATUS), body, drop: r.chance(10) };
    let mut want: Vec<(String, String)> = if refresh { vec![("grant_type".into(), "refresh_token".into()), ("refresh_token".into(), code.clone()), ("client_id".into(), id.clone())] } else { vec![("grant_type".into(), "authorization_code".into()), ("code".into(), code.clone()), ("client_id".into(), id.clone()), ("redirect_uri".into(), redirect.clone())] };
    if let Some(x) = &extra { want.push((if refresh { "scope" } else { "code_verifier" }.into(), x.clone())); }
    let desc = format!("TokenExchangeClient {} at {} with {:?}, secret {:?}; answer: {}", if refresh { "refresh_token" } else { "exchange_code" }, path, want, secret, told(&a));
    case(&desc, secret.is_some() || extra.is_some(), || {
        script(w, &[a.clone()]);
        let c = TokenExchangeClient::new();
        let got = rt.block_on(async { tokio::time::timeout(Duration::from_secs(30), async { if refresh { c.refresh_token(&url, &code, &id, secret.as_deref(), extra.as_deref()).await } else { c.exchange_code(&url, &code, &id, secret.as_deref(), &redirect, extra.as_deref()).await } }).await });
        let Ok(got) = got else { cex(&desc, "a result", "none after 30 s"); return };
        let seen = w.got.lock().unwrap().clone();
        check(&format!("{}: requests", desc), 1, seen.len());
        let g = &seen[0];
        check(&format!("{}: request", desc), ("POST".to_string(), path.to_string()), (g.method.clone(), g.path.clone()));
        let mut form: Vec<(String, String)> = url::form_urlencoded::parse(g.body.as_bytes()).map(|(k, v)| (k.to_string(), v.to_string())).collect();
        form.sort();
        want.sort();
        check(&format!("{}: form", desc), want.clone(), form);
        let h = |n: &str| g.headers.iter().filter(|(k, _)| k == n).map(|(_, v)| v.clone()).collect::<Vec<_>>();
        check(&format!("{}: accept", desc), vec!["application/json".to_string()], h("accept"));
        check(&format!("{}: content type", desc), vec!["application/x-www-form-urlencoded".to_string()], h("content-type"));
        let auth: Vec<String> = secret.iter().map(|s| format!("Basic {}", base64::engine::general_purpose::STANDARD.encode(format!("{}:{}", id, s)))).collect();
        check(&format!("{}: authorization", desc), auth, h("authorization"));
        let out = if a.drop || a.status / 100 != 2 || a.status == 204 { None } else {
            serde_json::from_slice::<Value>(&a.body).ok().filter(|v| v.get("expires_in").map_or(true, |x| x.is_u64())).and_then(|v| { let e = v.get("expires_in").cloned(); strings(&v, &["access_token", "token_type"], &["refresh_token", "scope"]).map(|s| (s, e)) })
        };
        let got = got.ok().map(|t| {
            let mut o = json!({"access_token": t.access_token, "token_type": t.token_type});
            if let Some(x) = t.refresh_token { o["refresh_token"] = json!(x); }
            if let Some(x) = t.scope { o["scope"] = json!(x); }
            (o, t.expires_in.map(|x| json!(x)))
        });
        check(&format!("{}: result", desc), out, got);
    });
}
fn main() {
    start();
    let mut r = Rng::new(23);
    let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
    let port = l.local_addr().unwrap().port();
    let w = Arc::new(Web { next: Mutex::new(VecDeque::new()), got: Mutex::new(vec![]) });
    let w2 = w.clone();
    std::thread::spawn(move || for c in l.incoming() { if let Ok(c) = c { let w = w2.clone(); std::thread::spawn(move || talk(c, &w)); } });
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    while time_left() { if r.chance(50) { discovery(&rt, &mut r, &w, port) } else { tokens(&rt, &mut r, &w, port) } }
    done()
}
