#[path = "common.rs"]
mod common;
use common::*;
use pmcp::server::auth::middleware::*;
use pmcp::server::auth::oauth2::*;
use pmcp::types::auth::*;
use pmcp::{Error, ErrorCode};
use std::collections::HashMap;
use std::sync::Arc;

/// scripted provider: some tokens and clients are known, some make it fail
struct Prov { toks: Vec<(String, TokenInfo)>, clients: Vec<OAuthClient>, broken: Vec<String> }
#[async_trait::async_trait]
impl OAuthProvider for Prov {
    async fn register_client(&self, _: OAuthClient) -> pmcp::Result<OAuthClient> { unimplemented!() }
    async fn get_client(&self, c: &str) -> pmcp::Result<Option<OAuthClient>> {
        if self.broken.iter().any(|b| b == c) { return Err(Error::protocol(ErrorCode::INTERNAL_ERROR, "down")); }
        Ok(self.clients.iter().find(|x| x.client_id == c).cloned())
    }
    async fn validate_authorization(&self, _: &AuthorizationRequest) -> pmcp::Result<()> { unimplemented!() }
    async fn create_authorization_code(&self, _: &str, _: &str, _: &str, _: Vec<String>, _: Option<String>, _: Option<String>) -> pmcp::Result<String> { unimplemented!() }
    async fn exchange_code(&self, _: &TokenRequest) -> pmcp::Result<AccessToken> { unimplemented!() }
    async fn create_access_token(&self, _: &str, _: &str, _: Vec<String>) -> pmcp::Result<AccessToken> { unimplemented!() }
    async fn refresh_token(&self, _: &str) -> pmcp::Result<AccessToken> { unimplemented!() }
    async fn revoke_token(&self, _: &str) -> pmcp::Result<()> { unimplemented!() }
    async fn validate_token(&self, t: &str) -> pmcp::Result<TokenInfo> {
        if self.broken.iter().any(|b| b == t) { return Err(Error::protocol(ErrorCode::INTERNAL_ERROR, "down")); }
        self.toks.iter().find(|x| x.0 == t).map(|x| x.1.clone()).ok_or_else(|| Error::protocol(ErrorCode::INVALID_REQUEST, "no"))
    }
    async fn metadata(&self) -> pmcp::Result<OAuthMetadata> { unimplemented!() }
}
type Out = Result<(String, String, Vec<String>, usize), (Option<i32>, String)>;
fn out(r: pmcp::Result<AuthContext>) -> Out {
    match r {
        Ok(c) => Ok((c.client_id, c.user_id, c.scopes, c.metadata.len())),
        Err(Error::Protocol { code, message, .. }) => Err((Some(code.as_i32()), message)),
        Err(e) => Err((None, e.to_string())),
    }
}
/// an inner middleware with a fixed answer
struct Fixed { a: Out, req: bool }
#[async_trait::async_trait]
impl AuthMiddleware for Fixed {
    async fn authenticate(&self, _: Option<&AuthInfo>) -> pmcp::Result<AuthContext> {
        match &self.a {
            Ok((c, u, s, n)) => Ok(AuthContext { client_id: c.clone(), user_id: u.clone(), scopes: s.clone(), metadata: (0..*n).map(|i| (format!("k{}", i), serde_json::json!(i))).collect() }),
            Err((c, m)) => Err(Error::protocol(ErrorCode::other(c.unwrap_or(-32000)), m.clone())),
        }
    }
    fn is_required(&self) -> bool { self.req }
}
fn anon() -> Out { Ok(("anonymous".into(), "anonymous".into(), vec![], 0)) }
const SC: [&str; 15] = ["read", "write", "admin", "read ", "Read", "readwrite", "", "é", "files:*", "files:read", "files:", "files", "files/*", "*", "admin:*"];
fn scopes(r: &mut Rng, n: usize) -> Vec<String> { (0..r.below(n)).map(|_| if r.chance(85) { r.pick(&SC).to_string() } else { let b = r.pick(&SC).to_string(); near(r, &b) }).collect() }
const IDS: [&str; 8] = ["c1", "c2", "C1", "c1 ", "", "c", "down", "é"];
fn text(r: &mut Rng) -> String { r.pick(&IDS).to_string() }
fn provider(r: &mut Rng) -> Prov {
    let mut toks = vec![];
    for t in IDS { if t != "down" && r.chance(55) { toks.push((t.to_string(), TokenInfo { token: t.into(), client_id: text(r), user_id: format!("u{}", r.below(4)), scopes: scopes(r, 4), expires_at: r.below(9) as u64, token_type: TokenType::Bearer })); } }
    let mut clients = vec![];
    for c in IDS { if c != "down" && r.chance(60) { clients.push(OAuthClient { client_id: c.into(), client_secret: if r.chance(75) { Some(format!("s{}", ["", "1", "2", " "][r.below(4)])) } else { None }, client_name: "n".into(), redirect_uris: vec![], grant_types: vec![], response_types: vec![], scopes: scopes(r, 4), metadata: HashMap::new() }); } }
    Prov { toks, clients, broken: vec!["down".into()] }
}
fn info(r: &mut Rng, p: &Prov) -> Option<AuthInfo> {
    if r.chance(12) { return None; }
    let scheme = match r.below(8) { 0 => AuthScheme::None, 1 => AuthScheme::OAuth2, 2 => AuthScheme::Custom("bearer".into()), 3 => AuthScheme::Custom("Bearer".into()), _ => AuthScheme::Bearer };
    let token = if r.chance(85) { Some(text(r)) } else { None };
    let mut params = HashMap::new();
    let v = |r: &mut Rng, s: String| if r.chance(92) { serde_json::json!(s) } else { [serde_json::json!(1), serde_json::json!(null), serde_json::json!([s])][r.below(3)].clone() };
    let c = text(r);
    if r.chance(90) { let x = v(r, c.clone()); params.insert("client_id".to_string(), x); }
    let good = p.clients.iter().find(|x| x.client_id == c).and_then(|x| x.client_secret.clone());
    if r.chance(88) { let s = if r.chance(60) { good.unwrap_or("s".into()) } else { [c.clone(), "".into(), "s".into(), "s1".into(), "S1".into()][r.below(5)].clone() }; let x = v(r, s); params.insert("client_secret".to_string(), x); }
    let oauth = if r.chance(10) { Some(OAuthInfo { auth_url: "a".into(), token_url: "t".into(), client_id: c, scopes: None, redirect_uri: None, pkce_method: None }) } else { None };
    Some(AuthInfo { scheme, token, oauth, params })
}
fn run(rt: &tokio::runtime::Runtime, r: &mut Rng) {
    let p = provider(r);
    let i = info(r, &p);
    let d0 = format!("auth info {:?}; tokens {:?}; clients {:?}", i.as_ref().map(|i| (&i.scheme, &i.token, &i.params)), p.toks.iter().map(|t| (&t.0, &t.1.client_id, &t.1.user_id, &t.1.scopes)).collect::<Vec<_>>(), p.clients.iter().map(|c| (&c.client_id, &c.client_secret, &c.scopes)).collect::<Vec<_>>());
    let (toks, clients) = (p.toks.clone(), p.clients.clone());
    let arc: Arc<dyn OAuthProvider> = Arc::new(p);
    // bearer
    let req = r.chance(60);
    let dflt = r.chance(20);
    let d = format!("bearer middleware required={} (default={}): {}", req, dflt, d0);
    case(&d, true, || {
        let m = BearerTokenMiddleware::new(arc.clone());
        let (m, req) = if dflt { (m, true) } else { (m.with_required(req), req) };
        check(&d, req, m.is_required());
        let got = out(rt.block_on(m.authenticate(i.as_ref())));
        let want = match &i {
            None => if req { None } else { Some(anon()) },
            Some(x) => if x.scheme == AuthScheme::Bearer { x.token.as_ref().and_then(|t| toks.iter().find(|y| y.0 == *t)).map(|t| Ok((t.1.client_id.clone(), t.1.user_id.clone(), t.1.scopes.clone(), 0))) } else { None },
        };
        match want { Some(w) => check(&d, w, got), None => ensure(&d, matches!(&got, Err((Some(-32003), _))), "refused with -32003", &got) }
    });
    // client credentials
    let d = format!("client credentials middleware: {}", d0);
    case(&d, true, || {
        let m = ClientCredentialsMiddleware::new(arc.clone());
        check(&d, true, m.is_required());
        let got = out(rt.block_on(m.authenticate(i.as_ref())));
        let par = |n: &str| i.as_ref().and_then(|x| x.params.get(n)).and_then(|v| v.as_str()).map(String::from);
        let want = match (par("client_id"), par("client_secret")) {
            (Some(c), Some(s)) => clients.iter().find(|x| x.client_id == c && x.client_secret.as_ref() == Some(&s)).map(|x| (x.client_id.clone(), x.client_id.clone(), x.scopes.clone(), 0)),
            _ => None,
        };
        let down = par("client_id").as_deref() == Some("down") && par("client_secret").is_some();
        match want { Some(w) => check(&d, Ok(w), got), None => ensure(&d, matches!(&got, Err((Some(c), _)) if *c == if down { -32603 } else { -32003 }), "refused", &got) }
    });
    // scopes over a fixed inner middleware
    let out1 = |r: &mut Rng| -> Out { if r.chance(65) { Ok((text(r), format!("u{}", r.below(3)), scopes(r, 5), r.below(3))) } else { Err((Some(-32000 - r.below(4) as i32), format!("m{}", r.below(9)))) } };
    let (a, need, all, q) = (out1(r), scopes(r, 4), r.chance(50), r.chance(50));
    let d = format!("scope middleware all={} need {:?} over an inner middleware answering {:?}, required {}", all, need, a, q);
    case(&d, true, || {
        let inner: Box<dyn AuthMiddleware> = Box::new(Fixed { a: a.clone(), req: q });
        let m = if all { ScopeMiddleware::all(inner, need.clone()) } else { ScopeMiddleware::any(inner, need.clone()) };
        check(&d, q, m.is_required());
        let got = out(rt.block_on(m.authenticate(i.as_ref())));
        let have: Vec<String> = a.as_ref().map(|x| x.2.clone()).unwrap_or_default();
        let ok = if all { need.iter().all(|s| have.contains(s)) } else { need.iter().any(|s| have.contains(s)) };
        if a.is_err() || ok { check(&d, a.clone(), got) } else { ensure(&d, matches!(&got, Err((Some(-32004), _))), "refused with -32004", &got) }
        if let Ok((c, u, s, _)) = &a {
            let ctx = AuthContext { client_id: c.clone(), user_id: u.clone(), scopes: s.clone(), metadata: Default::default() };
            let refs: Vec<&str> = need.iter().map(|x| x.as_str()).collect();
            check(&d, need.iter().all(|x| s.contains(x)), ctx.has_all_scopes(&refs));
            check(&d, need.iter().any(|x| s.contains(x)), ctx.has_any_scope(&refs));
            for x in SC { check(&format!("has_scope({:?}) of {:?}", x, s), s.contains(&x.to_string()), ctx.has_scope(x)); }
        }
    });
    // composite
    let ms: Vec<(Out, bool)> = (0..r.below(5)).map(|_| (if r.chance(50) { out1(r) } else { Err((Some(-32010 - r.below(5) as i32), format!("e{}", r.below(50)))) }, r.chance(40))).collect();
    let any = r.chance(60);
    let dflt = r.chance(20);
    let d = format!("composite require_any={} (default={}) of {:?}", any, dflt, ms);
    case(&d, true, || {
        let m = CompositeMiddleware::new(ms.iter().map(|x| Box::new(Fixed { a: x.0.clone(), req: x.1 }) as Box<dyn AuthMiddleware>).collect());
        let (m, any) = if dflt { (m, true) } else { (m.with_require_any(any), any) };
        check(&d, any && ms.iter().any(|x| x.1), m.is_required());
        let got = out(rt.block_on(m.authenticate(i.as_ref())));
        match ms.iter().find(|x| x.0.is_ok()) {
            Some(w) => check(&d, w.0.clone(), got),
            None if !any => check(&d, anon(), got),
            None => match ms.last() { Some(w) => check(&d, w.0.clone(), got), None => ensure(&d, matches!(&got, Err((Some(-32003), _))), "refused with -32003", &got) },
        }
    });
    let d = format!("AuthInfo of {:?}", i);
    case(&d, i.is_some(), || if let Some(x) = &i {
        check(&d, x.scheme != AuthScheme::None, x.is_required());
        check(&d, if x.scheme == AuthScheme::Bearer { x.token.as_ref().map(|t| format!("Bearer {}", t)) } else { None }, x.authorization_header());
        let t = x.token.clone().unwrap_or_default();
        let b = AuthInfo::bearer(t.clone());
        ensure(&d, b.scheme == AuthScheme::Bearer && b.token == Some(t) && b.oauth.is_none() && b.params.is_empty(), "bearer of the token", &b);
        let n = AuthInfo::none();
        ensure(&d, n.scheme == AuthScheme::None && n.token.is_none() && n.oauth.is_none() && n.params.is_empty(), "nothing", &n);
        if let Some(o) = &x.oauth { let y = AuthInfo::oauth2(o.clone()); ensure(&d, y.scheme == AuthScheme::OAuth2 && y.token.is_none() && y.params.is_empty() && y.oauth.as_ref().map(|z| z.client_id.clone()) == Some(o.client_id.clone()), "oauth2", &y); }
    });
}
fn main() {
    start();
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let mut r = Rng::new(13);
    let mut k = 0;
    while k < 300 || time_left() { k += 1; run(&rt, &mut r); }
    done()
}
