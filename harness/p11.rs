#[path = "common.rs"]
mod common;
#[path = "clock.rs"]
mod clock;
use base64::Engine as _;
use common::*;
use pmcp::server::auth::oauth2::*;
use sha2::Digest as _;
use std::collections::HashMap;

fn s256(v: &str) -> String { base64::engine::general_purpose::URL_SAFE_NO_PAD.encode(sha2::Sha256::digest(v.as_bytes())) }
struct Code { code: String, client: String, user: String, uri: String, scopes: Vec<String>, ch: Option<String>, method: Option<String>, at: i64 }
fn opt<T: Clone>(r: &mut Rng, good: &T, bad: &[T]) -> Option<T> { if r.chance(82) { Some(good.clone()) } else if r.chance(40) || bad.is_empty() { None } else { Some(r.pick(bad).clone()) } }
fn run(rt: &tokio::runtime::Runtime, r: &mut Rng) {
    let seed = r.next();
    let desc = format!("InMemoryOAuthProvider history drawn from seed {:#x} (codes issued, clock advanced, codes exchanged with matching and near-miss requests)", seed);
    case(&desc, true, || rt.block_on(async {
        let mut r = Rng(seed | 1);
        let mut trace = String::new();
        let p = InMemoryOAuthProvider::new("http://h");
        let s = |x: &str| x.to_string();
        let (clients, users, uris) = (pool(&mut r, &["c1", "c2", "C1", "c1 ", "client", "é"], 3), ["u1", "u2", ""], pool(&mut r, &["http://a/cb", "http://a/cb/", "http://a", "http://A/cb", ""], 4));
        let verifiers = pool(&mut r, &["v", "V", "verifier-verifier-verifier-verifier-verifier-x", "", "v "], 3);
        let mut codes: Vec<Code> = vec![];
        let mut spent: Vec<String> = vec![];
        let mut clock = 0i64;
        for step in 0..(4 + r.below(14)) {
            match r.below(10) {
                0..=3 => {
                    let v = r.pick(&verifiers).clone();
                    let method = [None, Some("plain"), Some("S256"), Some("s256"), Some("")][r.below(5)].map(String::from);
                    let ch = if r.chance(25) { None } else if r.chance(70) { Some(if method.as_deref() == Some("S256") { s256(&v) } else { v.clone() }) } else { Some(if r.chance(50) { s256(&v) } else { base64::engine::general_purpose::STANDARD.encode(sha2::Sha256::digest(v.as_bytes())) }) };
                    let scopes: Vec<String> = (0..r.below(3)).map(|i| format!("s{}", i)).collect();
                    let c = Code { code: String::new(), client: r.pick(&clients).clone(), user: s(*r.pick(&users)), uri: r.pick(&uris).clone(), scopes, ch, method, at: clock };
                    let code = p.create_authorization_code(&c.client, &c.user, &c.uri, c.scopes.clone(), c.ch.clone(), c.method.clone()).await.unwrap();
                    ensure(&trace, code.len() == 36 && codes.iter().all(|x| x.code != code) && !spent.contains(&code), "a new random code", &code);
                    trace += &format!("; {} code #{} client {:?} user {:?} uri {:?} scopes {:?} challenge {:?} method {:?}", step, codes.len() + spent.len(), c.client, c.user, c.uri, c.scopes, c.ch, c.method);
                    codes.push(Code { code, ..c });
                },
                4 => { let d = [1, 590, 605, 3000][r.below(4)]; clock += d; clock::skew(clock); trace += &format!("; {} clock +{}s", step, d); },
                _ => {
                    let k = if codes.is_empty() { 0 } else { r.below(codes.len()) };
                    let (good_code, good_client, good_uri) = codes.get(k).map(|c| (c.code.clone(), c.client.clone(), c.uri.clone())).unwrap_or((s("nope"), s("c1"), s("http://a/cb")));
                    let bad: Vec<String> = spent.iter().cloned().chain([s(""), s("nope"), good_code.to_uppercase(), format!("{} ", good_code)]).collect();
                    let v = codes.get(k).map(|c| c.ch.clone().unwrap_or_default()).unwrap_or_default();
                    let good_v = verifiers.iter().find(|x| s256(x) == v || **x == v).cloned().unwrap_or_default();
                    let q = TokenRequest {
                        grant_type: if r.chance(94) { GrantType::AuthorizationCode } else { [GrantType::RefreshToken, GrantType::ClientCredentials, GrantType::Password][r.below(3)].clone() },
                        code: opt(&mut r, &good_code, &bad), redirect_uri: opt(&mut r, &good_uri, &uris), client_id: opt(&mut r, &good_client, &clients),
                        client_secret: None, refresh_token: None, username: None, password: None, scope: None,
                        code_verifier: opt(&mut r, &good_v, &[v, s("v"), s("V"), s("")]),
                    };
                    let got = p.exchange_code(&q).await;
                    trace += &format!("; {} exchange grant {:?} code {:?} client {:?} uri {:?} verifier {:?}", step, q.grant_type, q.code, q.client_id, q.redirect_uri, q.code_verifier);
                    let ac = if q.grant_type == GrantType::AuthorizationCode { q.code.as_ref().and_then(|c| codes.iter().position(|x| x.code == *c)).map(|i| codes.remove(i)) } else { None };
                    if let Some(c) = &ac { spent.push(c.code.clone()); }
                    let pk = |c: &Code| match &c.ch { None => true, Some(ch) => q.code_verifier.as_ref().is_some_and(|v| match c.method.as_deref().unwrap_or("plain") { "plain" => v == ch, "S256" => s256(v) == *ch, _ => false }) };
                    let edge = ac.as_ref().is_some_and(|c| (clock - c.at - 600).abs() <= 2);
                    let ok = ac.as_ref().is_some_and(|c| clock - c.at <= 600 && q.client_id.as_ref() == Some(&c.client) && q.redirect_uri.as_ref() == Some(&c.uri) && pk(c));
                    if !edge { ensure(&trace, got.is_ok() == ok, if ok { "the code is honoured" } else { "the code is refused" }, format!("{:?}", got)); }
                    match got {
                        Ok(t) => {
                            let c = ac.unwrap();
                            let i = p.validate_token(&t.access_token).await;
                            ensure(&trace, i.as_ref().is_ok_and(|i| i.client_id == c.client && i.user_id == c.user && i.scopes == c.scopes && i.token == t.access_token), "a token for the code's client, user and scopes", format!("{:?}", i));
                            ensure(&trace, t.scope.as_deref() == Some(c.scopes.join(" ").as_str()) && t.expires_in == Some(3600) && t.refresh_token.is_some(), "the token response says so", format!("{:?}", t));
                            clock::skew(clock + 3500);
                            ensure(&trace, p.validate_token(&t.access_token).await.is_ok(), "the token is valid for its lifetime", 3500);
                            clock::skew(clock + 3610);
                            ensure(&trace, p.validate_token(&t.access_token).await.is_err(), "the token expires after its lifetime", 3610);
                            clock::skew(clock);
                        },
                        Err(e) => ensure(&trace, matches!(&e, pmcp::Error::Protocol { code, .. } if code.as_i32() == -32600), "invalid request", format!("{:?}", e)),
                    }
                },
            }
        }
        // registration and authorization requests
        let reg = |id: &str, sec: Option<&str>, u: &[&str], rt: Vec<ResponseType>| OAuthClient { client_id: s(id), client_secret: sec.map(String::from), client_name: s("n"), redirect_uris: u.iter().map(|x| s(x)).collect(),
            grant_types: vec![GrantType::AuthorizationCode], response_types: rt, scopes: vec![s("read")], metadata: HashMap::new() };
        for _ in 0..3 {
            let id = ["", "c1", "c2"][r.below(3)]; let sec = [None, Some("x"), Some("")][r.below(3)];
            let n = r.below(3); let us: Vec<&str> = (0..n).map(|i| uris[i].as_str()).collect();
            let rts = [vec![], vec![ResponseType::Code], vec![ResponseType::Token], vec![ResponseType::Code, ResponseType::Token]][r.below(4)].clone();
            let c = p.register_client(reg(id, sec, &us, rts.clone())).await.unwrap();
            let d = format!("register id {:?} secret {:?} uris {:?} response types {:?}", id, sec, us, rts);
            ensure(&d, (if id.is_empty() { c.client_id.len() == 36 } else { c.client_id == id }) && (match sec { Some(x) => c.client_secret.as_deref() == Some(x), None => c.client_secret.as_ref().is_some_and(|x| x.len() == 36) }) && c.redirect_uris == us && c.client_name == "n", "stored as given, missing credentials generated", format!("{:?}", c));
            let g = p.get_client(&c.client_id).await.unwrap();
            ensure(&d, g.as_ref().is_some_and(|g| g.client_secret == c.client_secret && g.redirect_uris == c.redirect_uris && g.client_id == c.client_id), "found again", format!("{:?}", g));
            ensure(&d, p.get_client("nobody").await.unwrap().is_none(), "unknown client not found", ());
            for _ in 0..6 {
                let scope = if r.chance(60) { ["", "read", "read write", "  read   write ", "admin", "read admin", "readwrite", "Read", "read,write", "rea", "write read admin"][r.below(11)].to_string() } else { let x = r.pick(&["read", "write"]).to_string(); let y = near(&mut r, &x); if r.chance(50) { y } else if r.chance(50) { format!("read {}", y) } else { format!("{} write", y) } };
                let q = AuthorizationRequest { response_type: if r.chance(60) { ResponseType::Code } else { ResponseType::Token }, client_id: if r.chance(90) { c.client_id.clone() } else { s("nobody") }, redirect_uri: r.pick(&uris).clone(), scope: scope.clone(), state: None, code_challenge: None, code_challenge_method: None };
                let want = q.client_id == c.client_id && us.contains(&q.redirect_uri.as_str()) && rts.contains(&q.response_type) && scope.split_whitespace().all(|x| x == "read" || x == "write");
                let got = p.validate_authorization(&q).await;
                ensure(&format!("{}; authorization request client {:?} uri {:?} type {:?} scope {:?}", d, q.client_id, q.redirect_uri, q.response_type, q.scope), got.is_ok() == want, if want { "allowed" } else { "refused" }, format!("{:?}", got));
            }
        }
        clock::skew(0);
    }))
}
fn main() {
    start();
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let mut r = Rng::new(11);
    let mut k = 0;
    while k < 150 || time_left() { k += 1; run(&rt, &mut r); }
    done()
}
