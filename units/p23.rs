//@include core.rs
//@include text.rs
//@type str = String
//@include errctor.rs
//@include float.rs
//@include time.rs
//@include sync.rs
//@include coll.rs
//@include http.rs
//@type reqwest::Client = Client
//@ghostarg send/0 = net
//@call tokio::time::sleep = sleep
//@ghostarg sleep/1 = net
//@ghostarg fetch_discovery/1 = net
#[verifier::external_body]
pub struct ResponseType { x: u8 }
#[verifier::external_body]
pub struct GrantType { x: u8 }
//@extract src/server/auth/oauth2.rs struct:OidcDiscoveryMetadata
//@extract src/client/auth.rs struct:OidcDiscoveryClient struct:TokenResponse struct:TokenExchangeClient
// ---- the world: what was asked, and how long was waited between ----
pub enum Method { GET, POST }
pub struct Req { pub method: Method, pub url: Seq<u8>, pub headers: Seq<(Seq<u8>, Seq<u8>)>, pub form: Option<Seq<(Seq<u8>, Seq<u8>)>>, pub basic: Option<(Seq<u8>, Option<Seq<u8>>)> }
pub enum Act { Asked(Req, core::result::Result<Response, ReqError>), Slept(int) }
#[verifier::external_body]
pub struct Net { x: u8 }
impl Net { pub uninterp spec fn log(&self) -> Seq<Act>; }
#[verifier::external_body]
pub fn sleep(d: Duration, net: &mut Net) ensures final(net).log() == old(net).log().push(Act::Slept(d@)) { unimplemented!() }
#[verifier::external_body]
pub struct Client { x: u8 }
#[verifier::external_body]
pub struct RequestBuilder { x: u8 }
#[verifier::external_body]
pub struct ReqError { x: u8 }
impl VDisp for ReqError { uninterp spec fn disp(&self) -> Seq<u8>; }
impl ReqError {
    pub uninterp spec fn on_the_way(&self) -> bool;
    pub uninterp spec fn late(&self) -> bool;
    /// no answer came: the request failed on its way or ran out of time
    pub open spec fn network(&self) -> bool { self.on_the_way() || self.late() }
    #[verifier::external_body]
    pub fn is_request(&self) -> (r: bool) ensures r == self.on_the_way() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_timeout(&self) -> (r: bool) ensures r == self.late() { unimplemented!() }
}
impl VDisp for StatusCode { uninterp spec fn disp(&self) -> Seq<u8>; }
impl StatusCode {
    pub fn is_success(&self) -> (r: bool) ensures r == (200 <= self.code < 300) { 200 <= self.code && self.code < 300 }
}
pub trait VTx { spec fn tx(&self) -> Seq<u8>; }
impl VTx for String { open spec fn tx(&self) -> Seq<u8> { self@ } }
impl VTx for &String { open spec fn tx(&self) -> Seq<u8> { self@ } }
pub open spec fn pairs(s: Seq<(&String, &String)>) -> Seq<(Seq<u8>, Seq<u8>)> { s.map_values(|p: (&String, &String)| (p.0@, p.1@)) }
impl Client {
    #[verifier::external_body]
    pub fn new() -> Self { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, url: &String) -> (r: RequestBuilder) ensures r.req() == (Req { method: Method::GET, url: url@, headers: Seq::empty(), form: None, basic: None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn post(&self, url: &String) -> (r: RequestBuilder) ensures r.req() == (Req { method: Method::POST, url: url@, headers: Seq::empty(), form: None, basic: None }) { unimplemented!() }
}
impl RequestBuilder {
    pub uninterp spec fn req(&self) -> Req;
    #[verifier::external_body]
    pub fn header<K: VTx, V: VTx>(self, k: K, v: V) -> (r: Self) ensures r.req() == (Req { headers: self.req().headers.push((lname(k.tx()), v.tx())), ..self.req() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn form(self, f: &Vec<(&String, &String)>) -> (r: Self) ensures r.req() == (Req { form: Some(pairs(f@)), ..self.req() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn basic_auth(self, u: &String, p: Option<&String>) -> (r: Self) ensures r.req() == (Req { basic: Some((u@, match p { Some(s) => Some(s@), None => None })), ..self.req() }) { unimplemented!() }
    /// whatever the server answers
    #[verifier::external_body]
    pub fn send(self, net: &mut Net) -> (r: core::result::Result<Response, ReqError>) ensures final(net).log() == old(net).log().push(Act::Asked(self.req(), r)) { unimplemented!() }
}
pub struct Response { pub status: StatusCode, pub content: Content }
#[verifier::external_body]
pub struct Content { x: u8 }
/// the body read as JSON of a type; none when that fails
pub uninterp spec fn jread<T>(r: Response) -> Option<T>;
impl Response {
    pub fn status(&self) -> (r: StatusCode) ensures r == self.status { self.status }
    #[verifier::external_body]
    pub fn text(self) -> core::result::Result<String, ReqError> { unimplemented!() }
    #[verifier::external_body]
    pub fn json<T>(self) -> (r: core::result::Result<T, ReqError>) ensures match r { Ok(m) => jread::<T>(self) == Some(m), Err(_) => jread::<T>(self) is None } { unimplemented!() }
}
// ---- which failures are tried again ----
pub open spec fn says(t: Seq<u8>, w: Seq<u8>) -> bool { exists|j: int| #[trigger] matches_at(t, w, j) }
pub open spec fn retryable(e: Error) -> bool {
    e is Timeout || says(err_text(e), S("CORS")) || says(err_text(e), S("network")) || says(err_text(e), S("timeout")) || says(err_text(e), S("connection"))
}
/// the text of a protocol error ends with its message
#[verifier::external_body]
pub proof fn axiom_err_text(e: Error) requires e is Protocol ensures is_suffix(e->Protocol_message@, err_text(e)) { }
pub open spec fn begins(p: Seq<u8>, s: Seq<u8>) -> bool { p.len() <= s.len() && forall|i: int| 0 <= i < p.len() ==> s[i] == #[trigger] p[i] }
pub open spec fn rest_is(s: Seq<u8>, n: int, d: Seq<u8>) -> bool { s.len() == n + d.len() && forall|i: int| n <= i < s.len() ==> #[trigger] s[i] == d[i - n] }
pub open spec fn says_status(e: Error, c: StatusCode) -> bool {
    e is Protocol && begins(S("Discovery endpoint returned status: "), e->Protocol_message@) && rest_is(e->Protocol_message@, S("Discovery endpoint returned status: ").len() as int, c.disp())
}
/// no status is written with one of these words (they are capitalised: "504 Gateway Timeout")
#[verifier::external_body]
pub proof fn axiom_status_text(c: StatusCode) ensures forall|e: Error| says_status(e, c) ==> !#[trigger] retryable(e) { }
proof fn lemma_network()
    ensures forall|e: Error| e is Protocol && begins(S("Failed to fetch discovery document: ") + S("network error: "), e->Protocol_message@) ==> #[trigger] retryable(e)
{
    assert forall|e: Error| e is Protocol && begins(S("Failed to fetch discovery document: ") + S("network error: "), e->Protocol_message@) implies #[trigger] retryable(e) by {
        axiom_err_text(e);
        let (t, m, a, n) = (err_text(e), e->Protocol_message@, S("Failed to fetch discovery document: "), S("network error: "));
        let k = t.len() - m.len() + a.len();
        assert(m =~= t.subrange(t.len() - m.len(), t.len() as int));
        assert(n.subrange(0, 7) =~= S("network"));
        assert forall|i: int| 0 <= i < S("network").len() implies t[k + i] == #[trigger] S("network")[i] by {
            assert(t[k + i] == m[a.len() + i]); assert((a + n)[a.len() + i] == n[i]); assert(n.subrange(0, 7)[i] == S("network")[i]);
        }
        assert(t.subrange(k, k + S("network").len()) =~= S("network"));
        assert(matches_at(t, S("network"), k));
    }
}
proof fn lemma_accept() ensures lname(S("Accept")) == S("accept") { assert(lname(S("Accept")) =~= S("accept")); }
pub open spec fn get_req(url: Seq<u8>) -> Req { Req { method: Method::GET, url, headers: seq![(S("accept"), S("application/json"))], form: None, basic: None } }
/// what is made of an answer, or of none
pub open spec fn fetched(x: core::result::Result<Response, ReqError>, r: VResult<OidcDiscoveryMetadata>) -> bool {
    match x {
        Err(e) => r is Err && (e.network() ==> retryable(r->Err_0)),
        Ok(a) => if 200 <= a.status.code < 300 { match jread::<OidcDiscoveryMetadata>(a) { Some(m) => r == VResult::<OidcDiscoveryMetadata>::Ok(m), None => r is Err } } else { r is Err && !retryable(r->Err_0) },
    }
}
pub open spec fn again(x: core::result::Result<Response, ReqError>) -> bool { exists|e: Error| fetched(x, Err(e)) && #[trigger] retryable(e) }
/// the same request again and again, with a pause between
pub open spec fn tries(q: Req, d: int, outs: Seq<core::result::Result<Response, ReqError>>) -> Seq<Act> decreases outs.len() {
    if outs.len() == 0 { Seq::empty() } else if outs.len() == 1 { seq![Act::Asked(q, outs[0])] } else { tries(q, d, outs.drop_last()).push(Act::Slept(d)).push(Act::Asked(q, outs.last())) }
}
pub open spec fn sofar(q: Req, d: int, outs: Seq<core::result::Result<Response, ReqError>>) -> Seq<Act> { if outs.len() == 0 { Seq::empty() } else { tries(q, d, outs).push(Act::Slept(d)) } }
proof fn lemma_next(c: OidcDiscoveryClient, url: Seq<u8>, outs: Seq<core::result::Result<Response, ReqError>>, a: Seq<Act>)
    requires outs.len() <= c.max_retries, forall|i: int| 0 <= i < outs.len() ==> again(#[trigger] outs[i])
    ensures forall|x: core::result::Result<Response, ReqError>, r: VResult<OidcDiscoveryMetadata>| #[trigger] fetched(x, r) && (r is Err ==> !retryable(r->Err_0) || outs.len() == c.max_retries) ==> discovered(c, url, outs.push(x), a, (a + sofar(get_req(url), c.retry_delay@, outs)).push(Act::Asked(get_req(url), x)), r)
{
    assert forall|x: core::result::Result<Response, ReqError>, r: VResult<OidcDiscoveryMetadata>| #[trigger] fetched(x, r) && (r is Err ==> !retryable(r->Err_0) || outs.len() == c.max_retries) implies discovered(c, url, outs.push(x), a, (a + sofar(get_req(url), c.retry_delay@, outs)).push(Act::Asked(get_req(url), x)), r) by {
        assert(outs.push(x).drop_last() =~= outs);
        assert((a + sofar(get_req(url), c.retry_delay@, outs)).push(Act::Asked(get_req(url), x)) =~= a + tries(get_req(url), c.retry_delay@, outs.push(x)));
    }
}
pub open spec fn discovered(c: OidcDiscoveryClient, url: Seq<u8>, outs: Seq<core::result::Result<Response, ReqError>>, a: Seq<Act>, b: Seq<Act>, r: VResult<OidcDiscoveryMetadata>) -> bool {
    &&& 1 <= outs.len() <= c.max_retries + 1
    &&& b == a + tries(get_req(url), c.retry_delay@, outs)
    &&& forall|i: int| 0 <= i < outs.len() - 1 ==> again(#[trigger] outs[i])
    &&& fetched(outs.last(), r)
    &&& r is Err ==> !retryable(r->Err_0) || outs.len() == c.max_retries + 1
}
//@fn OidcDiscoveryClient::with_settings ret=r
    ensures r.max_retries == max_retries, r.retry_delay == retry_delay
//@end
//@fn OidcDiscoveryClient::should_retry ret=r
    ensures r == retryable(*error)
//@end
//@fn OidcDiscoveryClient::fetch_discovery ret=r
//@addparam net: &mut Net
    ensures final(net).log() == old(net).log().push(final(net).log().last()), final(net).log().last() is Asked, final(net).log().last()->Asked_0 == get_req(url@), fetched(final(net).log().last()->Asked_1, r)
//@start
    proof { lemma_accept(); lemma_network(); }
//@after send#0
    proof { axiom_status_text(response.status); }
//@end
//@fn OidcDiscoveryClient::discover ret=r
//@addparam net: &mut Net
    ensures exists|outs: Seq<core::result::Result<Response, ReqError>>| #[trigger] discovered(*self, String::trim_end_matches_spec(issuer_url@, seq![47u8]) + S("/.well-known/openid-configuration"), outs, old(net).log(), final(net).log(), r)
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@start
    let ghost l0 = net.log(); let ghost mut outs = Seq::<core::result::Result<Response, ReqError>>::empty(); let ghost mut l1 = net.log();
    let ghost url = String::trim_end_matches_spec(issuer_url@, seq![47u8]) + S("/.well-known/openid-configuration");
    let ghost d = self.retry_delay@; let ghost q = get_req(url);
//@beforeloop 0
    proof { assert(discovery_url@ =~= url); assert(l0 + Seq::<Act>::empty() =~= l0); }
//@loop 0
    invariant_except_break attempts <= self.max_retries, last_error is None, outs.len() == attempts, net.log() == l0 + sofar(q, d, outs), forall|i: int| 0 <= i < outs.len() ==> again(#[trigger] outs[i])
    ensures last_error is Some && exists|outs: Seq<core::result::Result<Response, ReqError>>| #[trigger] discovered(*self, url, outs, l0, net.log(), Err(last_error->0))
    decreases self.max_retries - attempts
//@loopstart 0
    proof { l1 = net.log(); lemma_next(*self, url, outs, l0); }
//@before sleep#0
    proof {
        let x = net.log().last()->Asked_1;
        assert(again(x));
        let o2 = outs.push(x);
        assert(o2.drop_last() =~= outs);
        assert(l0 + sofar(q, d, o2) =~= net.log().push(Act::Slept(d)));
        outs = o2;
    }
//@end
//@extract src/client/auth.rs impl:OidcDiscoveryClient::{with_settings,should_retry,fetch_discovery,discover}
// ---- tokens ----
pub open spec fn opt(k: Seq<u8>, v: Option<&String>) -> Seq<(Seq<u8>, Seq<u8>)> { match v { Some(s) => seq![(k, s@)], None => Seq::empty() } }
pub open spec fn post_req(url: Seq<u8>, form: Seq<(Seq<u8>, Seq<u8>)>, id: Seq<u8>, secret: Option<&String>) -> Req {
    Req { method: Method::POST, url, headers: seq![(S("accept"), S("application/json"))], form: Some(form), basic: match secret { Some(s) => Some((id, Some(s@))), None => None } }
}
/// one request, and a token only from an answer of success
pub open spec fn asked_token(q: Req, a: Seq<Act>, b: Seq<Act>, r: VResult<TokenResponse>) -> bool {
    exists|x: core::result::Result<Response, ReqError>| #[trigger] a.push(Act::Asked(q, x)) == b && match x {
        Err(e) => r is Err,
        Ok(p) => if 200 <= p.status.code < 300 { match jread::<TokenResponse>(p) { Some(t) => r == VResult::<TokenResponse>::Ok(t), None => r is Err } } else { r is Err },
    }
}
//@fn TokenExchangeClient::exchange_code ret=r
//@addparam net: &mut Net
    ensures asked_token(post_req(token_endpoint@, seq![(S("grant_type"), S("authorization_code")), (S("code"), code@), (S("client_id"), client_id@), (S("redirect_uri"), redirect_uri@)] + opt(S("code_verifier"), code_verifier), client_id@, client_secret), old(net).log(), final(net).log(), r)
//@before form#0
    proof { assert(pairs(params@) =~= seq![(S("grant_type"), S("authorization_code")), (S("code"), code@), (S("client_id"), client_id@), (S("redirect_uri"), redirect_uri@)] + opt(S("code_verifier"), code_verifier)); }
//@before send#0
    proof { let q = request.req(); lemma_accept(); assert(q == post_req(token_endpoint@, seq![(S("grant_type"), S("authorization_code")), (S("code"), code@), (S("client_id"), client_id@), (S("redirect_uri"), redirect_uri@)] + opt(S("code_verifier"), code_verifier), client_id@, client_secret)) by { assert(q.headers =~= seq![(S("accept"), S("application/json"))]); } }
//@end
//@fn TokenExchangeClient::refresh_token ret=r
//@addparam net: &mut Net
    ensures asked_token(post_req(token_endpoint@, seq![(S("grant_type"), S("refresh_token")), (S("refresh_token"), refresh_token@), (S("client_id"), client_id@)] + opt(S("scope"), scope), client_id@, client_secret), old(net).log(), final(net).log(), r)
//@before form#0
    proof { assert(pairs(params@) =~= seq![(S("grant_type"), S("refresh_token")), (S("refresh_token"), refresh_token@), (S("client_id"), client_id@)] + opt(S("scope"), scope)); }
//@before send#0
    proof { let q = request.req(); lemma_accept(); assert(q == post_req(token_endpoint@, seq![(S("grant_type"), S("refresh_token")), (S("refresh_token"), refresh_token@), (S("client_id"), client_id@)] + opt(S("scope"), scope), client_id@, client_secret)) by { assert(q.headers =~= seq![(S("accept"), S("application/json"))]); } }
//@end
//@extract src/client/auth.rs impl:TokenExchangeClient::{exchange_code,refresh_token}
