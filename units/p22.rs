//@include core.rs
//@ghostarg timeout/2 = Ghost(self.config.timeout.view())
//@include text.rs
//@type str = String
//@include errctor.rs
//@include sync.rs
//@include coll.rs
//@include jsonrpc.rs
//@include io.rs
//@include http.rs
//@include float.rs
//@include time.rs
//@include sse_spec.rs
//@call AsyncMutex::new = Mutex::new
//@type Arc<AsyncMutex<mpsc::Receiver<TransportMessage>>> = Mutex<URx>
//@type AsyncMutex<mpsc::Receiver<TransportMessage>> = Mutex<URx>
//@type mpsc::Sender<TransportMessage> = UTx
//@type Client<hyper_util::client::legacy::connect::HttpConnector, Full<Bytes>> = Client
//@expr self.connected.clone() => &mut self.connected
//@call Request::builder = HReq::builder
//@call Full::new = v_full
//@call String::from_utf8_lossy = v_lossy
//@call String::from_utf8 = v_from_utf8
//@call crate::shared::stdio::StdioTransport::parse_message = parse_message
//@call crate::shared::stdio::StdioTransport::serialize_message = serialize_message
//@call hyper_util::client::legacy::connect::HttpConnector::new = v_nothing
//@call TokioExecutor::new = v_nothing
//@call mpsc::channel = v_channel
//@ghostarg request/1 = net
//@ghostarg send/1 = net
//@ghostarg recv/0 = net
//@ghostarg send_request/1 = net
#[verifier::external_body]
pub struct Request { x: u8 }
#[verifier::external_body]
pub struct Notification { x: u8 }
//@extract src/shared/transport.rs enum:TransportMessage
//@extract src/shared/sse_parser.rs struct:SseEvent
//@extract src/shared/http.rs struct:HttpConfig struct:HttpTransport
// ---- the world ----
pub enum Method { GET, POST }
#[verifier::external_body]
pub struct Url { x: u8 }
#[verifier::external_body]
pub struct UrlError { x: u8 }
impl UrlError {
    #[verifier::external_body]
    pub fn to_string(&self) -> String { unimplemented!() }
}
impl Url {
    pub uninterp spec fn joined(&self, s: Seq<u8>) -> Option<Url>;
    pub uninterp spec fn txt(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn join(&self, s: &String) -> (r: core::result::Result<Url, UrlError>) ensures match r { Ok(u) => self.joined(s@) == Some(u), Err(_) => self.joined(s@) is None } { unimplemented!() }
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &String) ensures r@ == self.txt() { unimplemented!() }
}
/// a request: names in lower case, in the order they were added
pub struct Req { pub method: Method, pub url: Seq<u8>, pub headers: Seq<(Seq<u8>, Seq<u8>)>, pub body: Seq<u8> }
pub enum Act { Asked(Req, Option<Response>), Delivered(TransportMessage), Taken(TransportMessage) }
#[verifier::external_body]
pub struct Net { x: u8 }
impl Net { pub uninterp spec fn log(&self) -> Seq<Act>; }
/// what can be sent: a header, an address
pub uninterp spec fn h_ok(n: Seq<u8>, v: Seq<u8>) -> bool;
pub uninterp spec fn u_ok(u: Seq<u8>) -> bool;
#[verifier::external_body]
pub broadcast proof fn axiom_h_ok()
    ensures #[trigger] h_ok(S("accept"), S("text/event-stream")), #[trigger] h_ok(S("cache-control"), S("no-cache")), #[trigger] h_ok(S("content-type"), S("application/json"))
{ }
#[verifier::external_body]
pub struct Bytes { x: u8 }
impl View for Bytes { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl Bytes {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn from(s: String) -> (r: Self) ensures r@ == s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn v_bytes(&self) -> (r: &Vec<u8>) ensures r@ == self@ { unimplemented!() }
}
pub fn v_full(b: Bytes) -> (r: Bytes) ensures r == b { b }
#[verifier::external_body]
pub struct HReq { x: u8 }
#[verifier::external_body]
pub struct HBuilder { x: u8 }
#[verifier::external_body]
pub struct HError { x: u8 }
impl HError {
    #[verifier::external_body]
    pub fn to_string(&self) -> String { unimplemented!() }
}
pub trait VTxt { spec fn tx(&self) -> Seq<u8>; }
impl VTxt for String { open spec fn tx(&self) -> Seq<u8> { self@ } }
impl VTxt for &String { open spec fn tx(&self) -> Seq<u8> { self@ } }
impl HReq {
    pub uninterp spec fn req(&self) -> Req;
    #[verifier::external_body]
    pub fn builder() -> (r: HBuilder) ensures r.req().headers == Seq::<(Seq<u8>, Seq<u8>)>::empty(), r.good() { unimplemented!() }
}
impl HBuilder {
    pub uninterp spec fn req(&self) -> Req;
    /// nothing that cannot be sent was added
    pub uninterp spec fn good(&self) -> bool;
    #[verifier::external_body]
    pub fn method(self, m: Method) -> (r: Self) ensures r.req() == (Req { method: m, ..self.req() }), r.good() == self.good() { unimplemented!() }
    #[verifier::external_body]
    pub fn uri(self, u: &String) -> (r: Self) ensures r.req() == (Req { url: u@, ..self.req() }), r.good() == (self.good() && u_ok(u@)) { unimplemented!() }
    #[verifier::external_body]
    pub fn header<K: VTxt, V: VTxt>(self, k: K, v: V) -> (r: Self)
        ensures r.req() == (Req { headers: self.req().headers.push((lname(k.tx()), v.tx())), ..self.req() }), r.good() == (self.good() && h_ok(lname(k.tx()), v.tx()))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn body(self, b: Bytes) -> (r: core::result::Result<HReq, HError>) ensures match r { Ok(q) => self.good() && q.req() == (Req { body: b@, ..self.req() }), Err(_) => !self.good() } { unimplemented!() }
}
#[verifier::external_body]
pub struct Client { x: u8 }
impl Client {
    /// whatever the server answers; without an answer the request may or may not have left
    #[verifier::external_body]
    pub fn request(&self, q: HReq, net: &mut Net) -> (r: core::result::Result<Response, HError>)
        ensures final(net).log() == old(net).log().push(Act::Asked(q.req(), match r { Ok(a) => Some(a), Err(_) => None }))
    { unimplemented!() }
}
/// how connections are made and pooled is hyper's
pub struct ClientBuilder { x: u8 }
pub fn v_nothing() { }
impl Client {
    #[verifier::external_body]
    pub fn builder(e: ()) -> ClientBuilder { unimplemented!() }
}
impl ClientBuilder {
    pub fn pool_idle_timeout(self, d: Duration) -> Self { self }
    pub fn pool_max_idle_per_host(self, n: usize) -> Self { self }
    #[verifier::external_body]
    pub fn build(self, c: ()) -> Client { unimplemented!() }
}
#[verifier::external_body]
pub fn v_channel(n: usize) -> (UTx, URx) { unimplemented!() }
#[verifier::external_body]
pub struct Elapsed { x: u8 }
/// what was being waited for either ended in time or did not
#[verifier::external_body]
pub fn timeout<T>(d: Duration, x: T, Ghost(limit): Ghost<int>) -> (r: core::result::Result<T, Elapsed>) requires d@ == limit ensures r is Ok ==> r->Ok_0 == x { unimplemented!() }
impl vstd::std_specs::cmp::PartialEqSpecImpl for StatusCode {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { self.code == o.code }
}
impl PartialEq for StatusCode { fn eq(&self, o: &Self) -> (r: bool) { self.code == o.code } }
impl VDisp for StatusCode { uninterp spec fn disp(&self) -> Seq<u8>; }
pub struct Response { pub status: StatusCode, pub content: Body }
/// what arrives of a body: data, something else, or a failure
pub enum Fr { Data(Seq<u8>), Other, Failed }
#[verifier::external_body]
pub struct Body { x: u8 }
#[verifier::external_body]
pub struct Frame { x: u8 }
impl Frame {
    pub uninterp spec fn fr(&self) -> Fr;
    #[verifier::external_body]
    pub fn data_ref(&self) -> (r: Option<&Bytes>) ensures match self.fr() { Fr::Data(b) => r is Some && r->0@ == b, _ => r is None } { unimplemented!() }
}
impl Body {
    /// what is still to arrive
    pub uninterp spec fn rest(&self) -> Seq<Fr>;
    #[verifier::external_body]
    pub fn frame(&mut self) -> (r: Option<core::result::Result<Frame, HError>>)
        ensures match r {
            None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest(),
            Some(x) => old(self).rest().len() > 0 && final(self).rest() == old(self).rest().drop_first() && (match x { Ok(f) => f.fr() == old(self).rest()[0] && !(f.fr() is Failed), Err(_) => old(self).rest()[0] is Failed }) }
    { unimplemented!() }
}
#[verifier::external_body]
pub struct Collected { x: u8 }
impl Collected {
    pub uninterp spec fn b(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn to_bytes(self) -> (r: Bytes) ensures r@ == self.b() { unimplemented!() }
}
impl Response {
    /// the whole body; none when reading it fails
    pub open spec fn raw(&self) -> Option<Seq<u8>> { if whole(self.content.rest()) { Some(heard(self.content.rest())) } else { None } }
    pub fn status(&self) -> (r: StatusCode) ensures r == self.status { self.status }
    pub fn into_body(self) -> (r: Body) ensures r == self.content { self.content }
    #[verifier::external_body]
    pub fn collect(self) -> (r: core::result::Result<Collected, HError>) ensures match r { Ok(c) => self.raw() == Some(c.b()), Err(_) => self.raw() is None } { unimplemented!() }
}
/// the data up to the first failure, and whether there is none
pub open spec fn heard(f: Seq<Fr>) -> Seq<u8> decreases f.len() {
    if f.len() == 0 { Seq::empty() } else { match f[0] { Fr::Data(b) => b + heard(f.drop_first()), Fr::Other => heard(f.drop_first()), Fr::Failed => Seq::empty() } }
}
pub open spec fn whole(f: Seq<Fr>) -> bool { forall|i: int| 0 <= i < f.len() ==> !(#[trigger] f[i] is Failed) }
// ---- text ----
/// bytes read as UTF-8, what is not UTF-8 replaced; no sequence goes over a line end
pub uninterp spec fn lossy(b: Seq<u8>) -> Seq<u8>;
#[verifier::external_body]
pub proof fn axiom_lossy(a: Seq<u8>, b: Seq<u8>) requires a.len() == 0 || a.last() == 10 ensures lossy(a + b) == lossy(a) + lossy(b) { }
#[verifier::external_body]
pub proof fn axiom_lossy_empty() ensures lossy(Seq::empty()) == Seq::<u8>::empty() { }
pub trait VBs { spec fn bs(&self) -> Seq<u8>; }
impl VBs for &Vec<u8> { open spec fn bs(&self) -> Seq<u8> { self@ } }
impl VBs for &Bytes { open spec fn bs(&self) -> Seq<u8> { self@ } }
/// the text `from_utf8_lossy` lends or owns
pub trait VOwned { fn into_owned(self) -> String; }
impl VOwned for String { fn into_owned(self) -> (r: String) ensures r == self { self } }
pub trait VBuf {
    spec fn bf(&self) -> Seq<u8>;
    fn v_extend_from_slice<B: VBs>(&mut self, b: B) ensures final(self).bf() == old(self).bf() + b.bs();
    fn v_split_off(&mut self, k: usize) -> (r: Vec<u8>) requires k <= old(self).bf().len() ensures final(self).bf() == old(self).bf().subrange(0, k as int), r@ == old(self).bf().subrange(k as int, old(self).bf().len() as int);
}
impl VBuf for Vec<u8> {
    open spec fn bf(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn v_extend_from_slice<B: VBs>(&mut self, b: B) { unimplemented!() }
    #[verifier::external_body]
    fn v_split_off(&mut self, k: usize) -> (r: Vec<u8>) { unimplemented!() }
}
#[verifier::external_body]
pub fn v_lossy<B: VBs>(b: B) -> (r: String) ensures r@ == lossy(b.bs()) { unimplemented!() }
pub uninterp spec fn is_utf8(b: Seq<u8>) -> bool;
#[verifier::external_body]
pub struct Utf8Error { x: u8 }
impl VDisp for Utf8Error { uninterp spec fn disp(&self) -> Seq<u8>; }
#[verifier::external_body]
pub fn v_from_utf8(b: Vec<u8>) -> (r: core::result::Result<String, Utf8Error>) ensures match r { Ok(s) => s@ == b@, Err(_) => !is_utf8(b@) } { unimplemented!() }
// ---- what P27 proves of the message forms: reading and writing are functions of the bytes ----
pub uninterp spec fn mtext(m: TransportMessage) -> Option<Seq<u8>>;
pub uninterp spec fn mread(s: Seq<u8>) -> Option<TransportMessage>;
pub trait VMb { spec fn mb(&self) -> Seq<u8>; }
impl VMb for &Bytes { open spec fn mb(&self) -> Seq<u8> { self@ } }
impl VMb for &Vec<u8> { open spec fn mb(&self) -> Seq<u8> { self@ } }
impl VMb for &[u8] { open spec fn mb(&self) -> Seq<u8> { self@ } }
impl VMb for &String { open spec fn mb(&self) -> Seq<u8> { self@ } }
#[verifier::external_body]
pub fn parse_message<B: VMb>(b: B) -> (r: VResult<TransportMessage>) ensures match r { Ok(m) => mread(b.mb()) == Some(m), Err(_) => mread(b.mb()) is None } { unimplemented!() }
#[verifier::external_body]
pub fn serialize_message(m: &TransportMessage) -> (r: VResult<Vec<u8>>) ensures match r { Ok(b) => mtext(*m) == Some(b@) && is_utf8(b@), Err(_) => mtext(*m) is None } { unimplemented!() }
// ---- channel: first in, first out; both ends belong to the transport ----
#[verifier::external_body]
pub struct UTx { x: u8 }
impl Clone for UTx { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body]
pub struct URx { x: u8 }
#[verifier::external_body]
pub struct SendError { x: u8 }
impl UTx {
    #[verifier::external_body]
    pub fn send(&self, m: TransportMessage, net: &mut Net) -> (r: core::result::Result<(), SendError>) ensures r is Ok, final(net).log() == old(net).log().push(Act::Delivered(m)) { unimplemented!() }
}
impl URx {
    #[verifier::external_body]
    pub fn recv(&mut self, net: &mut Net) -> (r: Option<TransportMessage>) ensures final(net).log() == (match r { Some(m) => old(net).log().push(Act::Taken(m)), None => old(net).log() }) { unimplemented!() }
}
// ---- SSE: what P01 proves of the parser ----
#[verifier::external_body]
pub struct SseParser { x: u8 }
pub open spec fn still(s: St) -> St { St { out: Seq::empty(), ..s } }
impl SseParser {
    pub uninterp spec fn st(&self) -> St;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.st() == st_init() { unimplemented!() }
    #[verifier::external_body]
    pub fn feed(&mut self, d: &String) -> (r: Vec<SseEvent>) ensures evs(r@) == run(still(old(self).st()), d@).out, final(self).st() == still(run(still(old(self).st()), d@)) { unimplemented!() }
}
impl SseEvent {
    pub open spec fn ev(&self) -> Ev { Ev { id: ov(self.id), event: ov(self.event), data: self.data@, retry: self.retry } }
}
pub open spec fn evs(v: Seq<SseEvent>) -> Seq<Ev> { v.map_values(|e: SseEvent| e.ev()) }
// ---- what is sent ----
pub open spec fn texts(v: Seq<(String, String)>) -> Seq<(Seq<u8>, Seq<u8>)> { v.map_values(|p: (String, String)| (lname(p.0@), p.1@)) }
/// every configured header can be sent
pub open spec fn all_ok(v: Seq<(Seq<u8>, Seq<u8>)>) -> bool { forall|i: int| 0 <= i < v.len() ==> h_ok((#[trigger] v[i]).0, v[i].1) }
pub open spec fn get_req(s: HttpTransport, u: Url) -> Req {
    Req { method: Method::GET, url: u.txt(), headers: seq![(S("accept"), S("text/event-stream")), (S("cache-control"), S("no-cache"))] + texts(s.config.headers@), body: Seq::empty() }
}
pub open spec fn post_req(s: HttpTransport, body: Seq<u8>) -> Req {
    Req { method: Method::POST, url: s.config.base_url.txt(), headers: seq![(S("content-type"), S("application/json"))] + texts(s.config.headers@), body }
}
pub open spec fn sendable(q: Req) -> bool { u_ok(q.url) && all_ok(q.headers) }
// ---- what comes back ----
/// the messages among events, in order
pub open spec fn told(es: Seq<Ev>) -> Seq<Act> decreases es.len() {
    if es.len() == 0 { Seq::empty() } else { match mread(es.last().data) { Some(m) => told(es.drop_last()).push(Act::Delivered(m)), None => told(es.drop_last()) } }
}
/// the complete lines
pub open spec fn lines(b: Seq<u8>) -> Seq<u8> decreases b.len() { if b.len() == 0 || b.last() == 10 { b } else { lines(b.drop_last()) } }
/// everything an event stream delivers
pub open spec fn streamed(f: Seq<Fr>) -> Seq<Act> { told(run(st_init(), lossy(lines(heard(f)))).out) }
pub open spec fn lost(l: Seq<Act>, l1: Seq<Act>, q: Req) -> bool { l1 == l.push(Act::Asked(q, None)) }
pub open spec fn answered(l: Seq<Act>, l1: Seq<Act>, q: Req) -> bool { l1.len() > l.len() && l1[l.len() as int] is Asked && l1[l.len() as int]->Asked_0 == q && l1[l.len() as int]->Asked_1 is Some }
pub open spec fn answer(l: Seq<Act>, l1: Seq<Act>) -> Response { l1[l.len() as int]->Asked_1->0 }
pub open spec fn upto(l: Seq<Act>, l1: Seq<Act>) -> Seq<Act> { l.push(l1[l.len() as int]) }
/// nothing but whether it is connected may have changed
impl HttpTransport { pub open spec fn kept(&self, o: Self) -> bool { *self == (HttpTransport { connected: self.connected, ..o }) } }
pub open spec fn connected(o: HttpTransport, n: HttpTransport, l0: Seq<Act>, l1: Seq<Act>, r: VResult<()>) -> bool {
    n.kept(o) && match o.config.sse_endpoint {
        None => r is Ok && l1 == l0 && n.connected.v,
        Some(p) => match o.config.base_url.joined(p@) {
            None => r is Err && l1 == l0 && n == o,
            Some(u) => { let q = get_req(o, u); let a = answer(l0, l1);
                if !sendable(q) { r is Err && l1 == l0 && n == o }
                else { lost(l0, l1, q) && r is Err && n == o
                    || answered(l0, l1, q) && (if a.status.code != 200 { r is Err && l1 == upto(l0, l1) && n == o } else { r is Ok && l1 == upto(l0, l1) + streamed(a.content.rest()) && !n.connected.v }) } } } }
}
/// the error names the time that was waited, in milliseconds
pub open spec fn late(o: HttpTransport, r: VResult<()>) -> bool { r is Err && r->Err_0 is Timeout && (o.config.timeout@ / 1000000 <= u64::MAX ==> r->Err_0->Timeout_0 as int == o.config.timeout@ / 1000000) }
pub open spec fn sent(o: HttpTransport, l0: Seq<Act>, l1: Seq<Act>, m: TransportMessage, r: VResult<()>) -> bool {
    match mtext(m) {
        None => r is Err && l1 == l0,
        Some(b) => { let q = post_req(o, b); let a = answer(l0, l1);
            if !sendable(q) { r is Err && l1 == l0 }
            else { lost(l0, l1, q) && r is Err
                || answered(l0, l1, q) && (
                    // no answer in time
                    late(o, r) && l1 == upto(l0, l1)
                    || if a.status.code == 200 && a.raw() is Some && mread(a.raw()->0) is Some { r is Ok && l1 == upto(l0, l1).push(Act::Delivered(mread(a.raw()->0)->0)) } else { r is Err && l1 == upto(l0, l1) }) } } }
}
pub proof fn lemma_names()
    ensures lname(S("Accept")) == S("accept"), lname(S("Cache-Control")) == S("cache-control"), lname(S("Content-Type")) == S("content-type"),
{
    assert(lname(S("Accept")) =~= S("accept"));
    assert(lname(S("Cache-Control")) =~= S("cache-control"));
    assert(lname(S("Content-Type")) =~= S("content-type"));
}
pub proof fn lemma_texts(b: Seq<(Seq<u8>, Seq<u8>)>, v: Seq<(String, String)>, k: int)
    requires 0 <= k < v.len()
    ensures b + texts(v.subrange(0, k + 1)) == (b + texts(v.subrange(0, k))).push((lname(v[k].0@), v[k].1@)),
        all_ok(b + texts(v.subrange(0, k + 1))) == (all_ok(b + texts(v.subrange(0, k))) && h_ok(lname(v[k].0@), v[k].1@)),
{
    let x = b + texts(v.subrange(0, k));
    assert(b + texts(v.subrange(0, k + 1)) =~= x.push((lname(v[k].0@), v[k].1@)));
    let y = x.push((lname(v[k].0@), v[k].1@));
    if all_ok(y) { assert forall|i: int| 0 <= i < x.len() implies h_ok((#[trigger] x[i]).0, x[i].1) by { assert(y[i] == x[i]); } assert(y[x.len() as int] == (lname(v[k].0@), v[k].1@)); }
}
pub proof fn lemma_told(es: Seq<SseEvent>, k: int)
    requires 0 <= k < es.len()
    ensures told(evs(es.subrange(0, k + 1))) == (match mread(es[k].data@) { Some(m) => told(evs(es.subrange(0, k))).push(Act::Delivered(m)), None => told(evs(es.subrange(0, k))) })
{
    let a = evs(es.subrange(0, k + 1));
    assert(a.drop_last() =~= evs(es.subrange(0, k)));
    assert(a.last() == es[k].ev());
}
pub proof fn lemma_told_app(a: Seq<Ev>, b: Seq<Ev>)
    ensures told(a + b) == told(a) + told(b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(told(a) + Seq::<Act>::empty() =~= told(a)); }
    else {
        lemma_told_app(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
        assert(told(a + b) =~= told(a) + told(b));
    }
}
pub proof fn lemma_lines(a: Seq<u8>, b: Seq<u8>)
    requires a.len() == 0 || a.last() == 10, !b.contains(10u8)
    ensures lines(a + b) == a
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); }
    else {
        let c = b.drop_last();
        assert((a + b).drop_last() =~= a + c);
        assert((a + b).last() == b.last());
        assert(b.contains(b.last())) by { assert(b[b.len() - 1] == b.last()); }
        assert(!c.contains(10u8)) by { if c.contains(10u8) { let i = choose|i: int| 0 <= i < c.len() && c[i] == 10u8; assert(b[i] == 10u8); } }
        lemma_lines(a, c);
    }
}
/// one more run of complete lines
pub proof fn lemma_feed(fed: Seq<u8>, t: Seq<u8>)
    requires fed.len() == 0 || fed.last() == 10
    ensures ({ let s = run(st_init(), lossy(fed)); let s2 = run(still(s), lossy(t)); let w = run(st_init(), lossy(fed + t)); told(w.out) == told(s.out) + told(s2.out) && still(w) == still(s2) })
{
    axiom_lossy(fed, t);
    let s = run(st_init(), lossy(fed));
    lemma_run_app(st_init(), lossy(fed), lossy(t));
    lemma_out_frame(s, lossy(t));
    lemma_told_app(s.out, run(still(s), lossy(t)).out);
}
//@fn HttpTransport::connect_sse ret=r mutself
//@addparam net: &mut Net
    ensures connected(*old(self), *final(self), old(net).log(), final(net).log(), r)
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@start
    let ghost mut fed: Seq<u8> = Seq::empty();
    broadcast use axiom_h_ok;
    proof { lemma_names(); axiom_lossy_empty(); }
//@beforeloop 0
    let ghost hs = self.config.headers@; let ghost b0 = builder.req(); let ghost g0 = builder.good();
    proof { assert(b0.headers =~= seq![(S("accept"), S("text/event-stream")), (S("cache-control"), S("no-cache"))]); assert(b0.headers + texts(hs.subrange(0, 0)) =~= b0.headers); assert(hs.subrange(0, hs.len() as int) =~= hs); assert(all_ok(b0.headers)); }
//@loop 0
    invariant __it0.wf(), __it0.seq() == hs, builder.req() == (Req { headers: b0.headers + texts(hs.subrange(0, __it0.pos() as int)), ..b0 }), builder.good() == (g0 && all_ok(b0.headers + texts(hs.subrange(0, __it0.pos() as int))))
    ensures __it0.pos() == __it0.seq().len()
    decreases __it0.seq().len() - __it0.pos()
//@loopstart 0
    proof { lemma_texts(b0.headers, hs, __it0.pos() as int - 1); }
//@beforeloop 1
    let ghost fr = body.rest(); let ghost l2 = net.log();
    proof { assert(fed + pending@ + heard(fr) =~= heard(fr)); assert(told(run(st_init(), lossy(fed)).out) =~= Seq::<Act>::empty()); assert(l2 + Seq::<Act>::empty() =~= l2); assert(still(st_init()) == st_init()); }
//@loop 1
    invariant_except_break heard(fr) == fed + pending@ + heard(body.rest())
    invariant fed.len() == 0 || fed.last() == 10, !pending@.contains(10u8), sse_parser.st() == still(run(st_init(), lossy(fed))), net.log() == l2 + told(run(st_init(), lossy(fed)).out)
    ensures heard(fr) == fed + pending@
    decreases body.rest().len()
//@loopstart 1
    let ghost p0 = pending@; let ghost r1 = body.rest(); let ghost fed0 = fed; let ghost l3 = net.log();
//@after extend_from_slice#0
    let ghost p1 = pending@;
//@loop 2
    invariant __it2.wf(), __it2.seq() == p1, __pos2 == __it2.pos(), match __out2 { None => forall|i: int| 0 <= i < __it2.pos() ==> p1[i] != 10u8, Some(e) => e < __it2.pos() && p1[e as int] == 10u8 && forall|i: int| e < i < __it2.pos() ==> p1[i] != 10u8 }
    ensures __it2.pos() == __it2.seq().len()
    decreases __it2.seq().len() - __it2.pos()
//@after feed#0
    let ghost es = events@; let ghost l3 = net.log();
    proof {
        let t = p1.subrange(0, end + 1);
        lemma_feed(fed, t);
        assert(fed + p1 =~= (fed + t) + pending@);
        fed = fed + t;
        assert(fed.last() == p1[end as int]);
    }
//@beforeloop 3
    proof { assert(told(evs(es.subrange(0, 0))) =~= Seq::<Act>::empty()); assert(es.subrange(0, es.len() as int) =~= es); assert(l3 + Seq::<Act>::empty() =~= l3); }
//@loop 3
    invariant __it3.wf(), __it3.seq() == es, net.log() == l3 + told(evs(es.subrange(0, __it3.pos() as int)))
    ensures __it3.pos() == __it3.seq().len()
    decreases __it3.seq().len() - __it3.pos()
//@loopstart 3
    proof { lemma_told(es, __it3.pos() as int - 1); }
//@loopend 3
    proof { assert(net.log() =~= l3 + told(evs(es.subrange(0, __it3.pos() as int)))); }
//@afterloop 1
    proof { lemma_lines(fed, pending@); }
//@end
//@fn HttpTransport::send_request ret=r
//@addparam net: &mut Net
    ensures sent(*self, old(net).log(), final(net).log(), *message, r)
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@start
    broadcast use axiom_h_ok;
    proof { lemma_names(); }
//@beforeloop 0
    let ghost hs = self.config.headers@; let ghost b0 = builder.req(); let ghost g0 = builder.good();
    proof { assert(b0.headers =~= seq![(S("content-type"), S("application/json"))]); assert(b0.headers + texts(hs.subrange(0, 0)) =~= b0.headers); assert(hs.subrange(0, hs.len() as int) =~= hs); assert(all_ok(b0.headers)); }
//@loop 0
    invariant __it0.wf(), __it0.seq() == hs, builder.req() == (Req { headers: b0.headers + texts(hs.subrange(0, __it0.pos() as int)), ..b0 }), builder.good() == (g0 && all_ok(b0.headers + texts(hs.subrange(0, __it0.pos() as int))))
    ensures __it0.pos() == __it0.seq().len()
    decreases __it0.seq().len() - __it0.pos()
//@loopstart 0
    proof { lemma_texts(b0.headers, hs, __it0.pos() as int - 1); }
//@end
//@fn HttpTransport::send ret=r
//@addparam net: &mut Net
    ensures *final(self) == *old(self), sent(*old(self), old(net).log(), final(net).log(), message, r)
//@end
//@fn HttpTransport::receive ret=r
//@addparam net: &mut Net
    ensures *final(self) == (HttpTransport { message_queue: final(self).message_queue, ..*old(self) }), match r {
        Ok(m) => final(net).log() == old(net).log().push(Act::Taken(m)),
        Err(e) => final(net).log() == old(net).log() && e is Transport && e->Transport_0 is ConnectionClosed }
//@end
//@fn HttpTransport::close ret=r
    ensures r is Ok, final(self).kept(*old(self)), !final(self).connected.v
//@end
//@fn HttpTransport::is_connected ret=r
    ensures r == self.connected.v
//@end
//@fn HttpTransport::new ret=r
    ensures r.config == config, !r.connected.v
//@end
//@extract src/shared/http.rs impl:HttpTransport::{new,connect_sse,send_request,send,receive,close,is_connected}
