#[path = "common.rs"]
mod common;
#[path = "clock.rs"]
mod clock;
use common::*;
use pmcp::server::auth::oauth2::*;

#[derive(Clone)]
struct Tok { client: String, user: String, scopes: Vec<String>, at: i64 }
fn run(rt: &tokio::runtime::Runtime, r: &mut Rng) {
    let seed = r.next();
    let desc = format!("token history drawn from seed {:#x}", seed);
    case(&desc, true, || rt.block_on(async {
        let mut r = Rng(seed | 1);
        let mut trace = String::new();
        let p = InMemoryOAuthProvider::new("http://h");
        let mut toks: std::collections::BTreeMap<String, Tok> = Default::default();
        let mut refs: std::collections::BTreeMap<String, String> = Default::default();
        let (mut seen_t, mut seen_r): (Vec<String>, Vec<String>) = (vec![], vec![]);
        let mut clock = 0i64;
        for step in 0..(4 + r.below(22)) {
            let any = |r: &mut Rng, a: &[String], b: &[String]| { let v: Vec<&String> = if r.chance(75) { a.iter().collect() } else { b.iter().collect() }; if v.is_empty() || r.chance(6) { ["", "nope", " "][r.below(3)].to_string() } else { v[r.below(v.len())].clone() } };
            let issue = |t: &AccessToken, k: Tok, toks: &mut std::collections::BTreeMap<String, Tok>, refs: &mut std::collections::BTreeMap<String, String>, seen_t: &mut Vec<String>, seen_r: &mut Vec<String>, trace: &str| {
                let rt = t.refresh_token.clone().unwrap_or_default();
                ensure(trace, t.access_token.len() == 36 && rt.len() == 36 && rt != t.access_token && !seen_t.contains(&t.access_token) && !seen_r.contains(&rt), "new random access and refresh tokens", format!("{:?}", t));
                ensure(trace, t.expires_in == Some(3600) && t.scope.as_deref() == Some(k.scopes.join(" ").as_str()) && t.token_type == TokenType::Bearer, "lifetime, type and scopes", format!("{:?}", t));
                toks.insert(t.access_token.clone(), k); refs.insert(rt.clone(), t.access_token.clone());
                seen_t.push(t.access_token.clone()); seen_r.push(rt);
            };
            match r.below(12) {
                0..=2 => {
                    let k = Tok { client: format!("c{}", r.below(3)), user: format!("u{}", r.below(3)), scopes: (0..r.below(4)).map(|i| format!("s{}", i)).collect(), at: clock };
                    let t = p.create_access_token(&k.client, &k.user, k.scopes.clone()).await.unwrap();
                    trace += &format!("; {} create token #{} for {:?}", step, seen_t.len(), (&k.client, &k.user, &k.scopes));
                    issue(&t, k, &mut toks, &mut refs, &mut seen_t, &mut seen_r, &trace);
                },
                3 => { let d = [1, 3500, 3605, 8000][r.below(4)]; clock += d; clock::skew(clock); trace += &format!("; {} clock +{}s", step, d); },
                4..=6 => {
                    let x = any(&mut r, &seen_r, &seen_t);
                    let n = seen_r.iter().position(|y| *y == x);
                    trace += &format!("; {} refresh with refresh token #{:?}", step, n);
                    let got = p.refresh_token(&x).await;
                    let a = refs.get(&x).cloned();
                    let k = a.as_ref().and_then(|a| toks.get(a)).cloned();
                    ensure(&trace, got.is_ok() == k.is_some(), if k.is_some() { "refreshed" } else { "refused" }, format!("{:?}", got));
                    if let (Ok(t), Some(k)) = (got, k) { toks.remove(&a.unwrap()); refs.remove(&x); issue(&t, Tok { at: clock, ..k }, &mut toks, &mut refs, &mut seen_t, &mut seen_r, &trace); }
                },
                7..=9 => {
                    let x = any(&mut r, &seen_t, &seen_r);
                    trace += &format!("; {} revoke access #{:?} / refresh #{:?}", step, seen_t.iter().position(|y| *y == x), seen_r.iter().position(|y| *y == x));
                    let got = p.revoke_token(&x).await;
                    ensure(&trace, got.is_ok(), "revocation succeeds", format!("{:?}", got));
                    if toks.remove(&x).is_none() { if let Some(a) = refs.remove(&x) { toks.remove(&a); } }
                },
                _ => {},
            }
            for t in seen_t.iter().chain(seen_r.iter()).chain([String::new(), "nope".to_string()].iter()) {
                let k = toks.get(t);
                if k.is_some_and(|k| (clock - k.at - 3600).abs() <= 2) { continue; }
                let want = k.filter(|k| clock - k.at <= 3600);
                let got = p.validate_token(t).await;
                ensure(&trace, got.is_ok() == want.is_some(), &format!("token #{:?} valid: {}", seen_t.iter().position(|y| y == t), want.is_some()), format!("{:?}", got));
                if let (Ok(i), Some(k)) = (&got, want) { ensure(&trace, i.token == *t && i.client_id == k.client && i.user_id == k.user && i.scopes == k.scopes, "the token's own client, user and scopes", format!("{:?}", i)); }
                if let Err(e) = got { ensure(&trace, matches!(&e, pmcp::Error::Protocol { code, .. } if code.as_i32() == -32600), "invalid request", format!("{:?}", e)); }
            }
        }
        clock::skew(0);
    }))
}
fn main() {
    start();
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let mut r = Rng::new(12);
    let mut k = 0;
    while k < 150 || time_left() { k += 1; run(&rt, &mut r); }
    done()
}
