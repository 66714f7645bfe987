//@include core.rs
//@include text.rs
//@type str = String
//@include errctor.rs
//@include coll.rs
//@include dash.rs
//@include float.rs
//@include time.rs
//@include chrono.rs
//@include uuid.rs
//@type SessionCallback = Callback
#[verifier::external_body]
pub struct Callback { x: u8 }
impl Callback {
    pub uninterp spec fn log(&self) -> Seq<Session>;
    #[verifier::external_body]
    pub fn call(&mut self, s: &Session) ensures final(self).log() == old(self).log().push(*s) { unimplemented!() }
}
//@type Duration = CDuration
//@call serde_json::Map::new = JMap::new
//@call callback = callback.call
//@expr &self.callbacks.on_create => &mut self.callbacks.on_create
//@expr &self.callbacks.on_destroy => &mut self.callbacks.on_destroy
//@expr &self.callbacks.on_expire => &mut self.callbacks.on_expire
//@expr entry.expires_at => entry.value().expires_at
//@extract src/shared/session.rs struct:SessionConfig struct:Session struct:ClientInfo struct:SessionManager struct:SessionCallbacks
impl SessionCallbacks {
    /// #[derive(Default)]
    pub fn default() -> (r: Self) ensures r.on_create is None, r.on_destroy is None, r.on_expire is None { SessionCallbacks { on_create: None, on_destroy: None, on_expire: None } }
}
impl SessionManager {
    #[verifier::inline]
    pub open spec fn m(&self) -> Map<String, Session> { self.sessions@ }
}
pub open spec fn clog(o: Option<Callback>) -> Seq<Session> { match o { Some(s) => s.log(), None => Seq::empty() } }
pub open spec fn quiet(a: Option<Callback>, b: Option<Callback>) -> bool { b == a || (a is Some && b is Some && clog(b) == clog(a)) }
pub open spec fn told(a: Option<Callback>, b: Option<Callback>, s: Session) -> bool {
    match a { Some(c) => b is Some && clog(b) == clog(a).push(s), None => b is None }
}
/// the configuration and the callbacks other than the one named are left alone
pub open spec fn same_cfg(a: SessionManager, b: SessionManager) -> bool { b.config == a.config }
pub open spec fn all_quiet(a: SessionManager, b: SessionManager) -> bool {
    same_cfg(a, b) && quiet(a.callbacks.on_create, b.callbacks.on_create) && quiet(a.callbacks.on_destroy, b.callbacks.on_destroy) && quiet(a.callbacks.on_expire, b.callbacks.on_expire)
}
/// same session with only the time of last activity moved to some present instant
pub open spec fn touched(a: Session, b: Session) -> bool { b == (Session { last_activity: b.last_activity, ..a }) && is_now(b.last_activity@) }
pub open spec fn code_is(e: Error, c: int) -> bool { e is Protocol && e->Protocol_code.0 == c }
//@fn SessionManager::new ret=r
    ensures r.m() == Map::<String, Session>::empty(), r.config == config
//@end
//@fn SessionManager::create_session ret=r mutself
    ensures
        old(self).m().dom().len() >= old(self).config.max_sessions ==> r is Err && code_is(r->Err_0, -32603) && final(self).m() == old(self).m() && all_quiet(*old(self), *final(self)),
        old(self).m().dom().len() < old(self).config.max_sessions ==> {
            &&& r is Ok && final(self).m() == old(self).m().insert(r->Ok_0.id, r->Ok_0)
            &&& (exists|u: Uuid| #[trigger] u.text() == r->Ok_0.id@ && u.random())
            &&& is_now(r->Ok_0.created_at@) && r->Ok_0.last_activity == r->Ok_0.created_at
            &&& r->Ok_0.expires_at@ == r->Ok_0.created_at@ + old(self).config.timeout@
            &&& r->Ok_0.client_info == client_info && !r->Ok_0.authenticated && r->Ok_0.auth_info is None
            &&& r->Ok_0.data is Object && r->Ok_0.data->Object_0@ == Map::<Seq<u8>, Value>::empty()
            &&& same_cfg(*old(self), *final(self)) && told(old(self).callbacks.on_create, final(self).callbacks.on_create, r->Ok_0)
            &&& quiet(old(self).callbacks.on_destroy, final(self).callbacks.on_destroy) && quiet(old(self).callbacks.on_expire, final(self).callbacks.on_expire)
        },
//@end
//@fn SessionManager::get_session ret=r mutself
    ensures all_quiet(*old(self), *final(self)),
        r is Some <==> old(self).m().contains_key(*session_id),
        r is None ==> final(self).m() == old(self).m(),
        r is Some ==> touched(old(self).m()[*session_id], r->0) && final(self).m() == old(self).m().insert(*session_id, r->0),
//@end
//@fn SessionManager::validate_session ret=r mutself
    ensures same_cfg(*old(self), *final(self)), quiet(old(self).callbacks.on_create, final(self).callbacks.on_create), quiet(old(self).callbacks.on_expire, final(self).callbacks.on_expire),
        r is Err ==> code_is(r->Err_0, -32600),
        r is Ok ==> {
            &&& old(self).m().contains_key(*session_id) && touched(old(self).m()[*session_id], r->Ok_0)
            &&& final(self).m() == old(self).m().insert(*session_id, r->Ok_0)
            &&& (exists|t: int| #[trigger] is_now(t) && t <= r->Ok_0.expires_at@)
            &&& quiet(old(self).callbacks.on_destroy, final(self).callbacks.on_destroy)
        },
        r is Err && old(self).m().contains_key(*session_id) ==> {
            &&& final(self).m() == old(self).m().remove(*session_id)
            &&& (exists|t: int| #[trigger] is_now(t) && t > old(self).m()[*session_id].expires_at@)
            &&& (exists|s: Session| #[trigger] touched(old(self).m()[*session_id], s) && told(old(self).callbacks.on_destroy, final(self).callbacks.on_destroy, s))
        },
        r is Err && !old(self).m().contains_key(*session_id) ==> final(self).m() == old(self).m() && quiet(old(self).callbacks.on_destroy, final(self).callbacks.on_destroy),
//@end
//@fn SessionManager::destroy_session ret=r mutself
    ensures same_cfg(*old(self), *final(self)), final(self).m() == old(self).m().remove(*session_id),
        quiet(old(self).callbacks.on_create, final(self).callbacks.on_create), quiet(old(self).callbacks.on_expire, final(self).callbacks.on_expire),
        r is Ok <==> old(self).m().contains_key(*session_id), r is Err ==> code_is(r->Err_0, -32600),
        r is Ok ==> told(old(self).callbacks.on_destroy, final(self).callbacks.on_destroy, old(self).m()[*session_id]),
        r is Err ==> quiet(old(self).callbacks.on_destroy, final(self).callbacks.on_destroy),
//@end
//@fn SessionManager::update_session ret=r mutself
    requires forall|x: &mut Session| #[trigger] updater.requires((x,))
    ensures all_quiet(*old(self), *final(self)),
        r is Ok <==> old(self).m().contains_key(*session_id),
        r is Err ==> code_is(r->Err_0, -32600) && final(self).m() == old(self).m(),
        r is Ok ==> exists|x: &mut Session| #[trigger] updater.ensures((x,), ()) && *x == old(self).m()[*session_id]
            && final(self).m().contains_key(*session_id) && touched(*final(x), final(self).m()[*session_id])
            && final(self).m() == old(self).m().insert(*session_id, final(self).m()[*session_id]),
//@end
//@fn SessionManager::authenticate_session ret=r mutself
    ensures all_quiet(*old(self), *final(self)),
        r is Ok <==> old(self).m().contains_key(*session_id),
        r is Err ==> code_is(r->Err_0, -32600) && final(self).m() == old(self).m(),
        r is Ok ==> final(self).m().contains_key(*session_id)
            && touched(Session { authenticated: true, auth_info: Some(auth_info), ..old(self).m()[*session_id] }, final(self).m()[*session_id])
            && final(self).m() == old(self).m().insert(*session_id, final(self).m()[*session_id]),
//@closure 0
    |session: &mut Session| ensures *final(session) == (Session { authenticated: true, auth_info: Some(auth_info), ..*old(session) })
//@end
//@fn SessionManager::session_count ret=r
    ensures r == self.m().dom().len()
//@end
//@fn SessionManager::active_sessions ret=r
    ensures r@.len() == self.m().dom().len(), forall|s: Session| r@.contains(s) <==> exists|k: String| self.m().contains_key(k) && #[trigger] self.m()[k] == s
//@loop 0
    invariant __it0.wf(), dash_lists(__it0.seq(), self.m()), __out0@.len() == __it0.pos(),
        forall|i: int| 0 <= i < __it0.pos() ==> #[trigger] __out0@[i] == *__it0.seq()[i].v,
    ensures __it0.pos() == __it0.seq().len(),
    decreases __it0.seq().len() - __it0.pos()
//@afterloop 0
    proof {
        assert forall|s: Session| __out0@.contains(s) <==> exists|k: String| self.m().contains_key(k) && #[trigger] self.m()[k] == s by {
            if __out0@.contains(s) { let i = choose|i: int| 0 <= i < __out0@.len() && __out0@[i] == s; assert(self.m()[*__it0.seq()[i].k] == s); }
            if exists|k: String| self.m().contains_key(k) && #[trigger] self.m()[k] == s {
                let k = choose|k: String| self.m().contains_key(k) && #[trigger] self.m()[k] == s;
                let i = choose|i: int| 0 <= i < __it0.seq().len() && *(#[trigger] __it0.seq()[i]).k == k;
                assert(__out0@[i] == s);
            }
        }
    }
//@end
pub open spec fn vals(ks: Seq<String>, m: Map<String, Session>) -> Seq<Session> { ks.map_values(|k: String| m[k]) }
pub open spec fn gone(m: Map<String, Session>, k: String, t: int) -> bool { m.contains_key(k) && m[k].expires_at@ < t }
/// ks lists, once each, the keys of the sessions expired at t
pub open spec fn lists_gone(ks: Seq<String>, m: Map<String, Session>, t: int) -> bool { ks.no_duplicates() && forall|k: String| #[trigger] ks.contains(k) <==> gone(m, k, t) }
pub open spec fn told_all(a: Option<Callback>, b: Option<Callback>, v: Seq<Session>) -> bool {
    match a { Some(c) => b is Some && clog(b) == clog(a) + v, None => b is None }
}
//@fn SessionManager::cleanup_expired mutself
    ensures same_cfg(*old(self), *final(self)), quiet(old(self).callbacks.on_create, final(self).callbacks.on_create), quiet(old(self).callbacks.on_destroy, final(self).callbacks.on_destroy),
        exists|t: int, ks: Seq<String>| #[trigger] is_now(t) && #[trigger] lists_gone(ks, old(self).m(), t)
            && (forall|k: String| #[trigger] final(self).m().contains_key(k) <==> old(self).m().contains_key(k) && !gone(old(self).m(), k, t))
            && told_all(old(self).callbacks.on_expire, final(self).callbacks.on_expire, vals(ks, old(self).m())),
        forall|k: String| #[trigger] final(self).m().contains_key(k) ==> final(self).m()[k] == old(self).m()[k],
//@beforeloop 0
    let ghost m0 = self.m();
//@loop 0
    invariant_except_break
        forall|i: int| 0 <= i < __out0@.len() ==> exists|j: int| 0 <= j < __it0.pos() && *(#[trigger] __it0.seq()[j]).k == #[trigger] __out0@[i],
    invariant __it0.wf(), dash_lists(__it0.seq(), m0), m0 == self.m(),
        forall|i: int| 0 <= i < __out0@.len() ==> gone(m0, #[trigger] __out0@[i], now@),
        forall|j: int| 0 <= j < __it0.pos() && gone(m0, *(#[trigger] __it0.seq()[j]).k, now@) ==> __out0@.contains(*__it0.seq()[j].k),
        __out0@.no_duplicates(),
    ensures __it0.pos() == __it0.seq().len(),
    decreases __it0.seq().len() - __it0.pos()
//@loopstart 0
    let ghost p = __it0.pos() - 1; let ghost o0 = __out0@;
    proof {
        assert(*__it0.seq()[p].v == m0[*__it0.seq()[p].k]);
        if o0.contains(*__it0.seq()[p].k) { let i = choose|i: int| 0 <= i < o0.len() && o0[i] == *__it0.seq()[p].k; let j = choose|j: int| 0 <= j < p && *(#[trigger] __it0.seq()[j]).k == o0[i]; assert(false); }
        assert forall|i: int| 0 <= i < o0.len() implies exists|j: int| 0 <= j < __it0.pos() && *(#[trigger] __it0.seq()[j]).k == #[trigger] o0[i] by {
            let j = choose|j: int| 0 <= j < p && *(#[trigger] __it0.seq()[j]).k == o0[i]; assert(0 <= j < __it0.pos());
        }
    }
//@loopend 0
    proof {
        assert(__out0@ == o0.push(*__it0.seq()[p].k)); lemma_push_contains(o0, *__it0.seq()[p].k);
    }
//@afterloop 0
    proof {
        assert forall|k: String| #[trigger] __out0@.contains(k) <==> gone(m0, k, now@) by {
            if gone(m0, k, now@) { let j = choose|j: int| 0 <= j < __it0.seq().len() && *(#[trigger] __it0.seq()[j]).k == k; assert(__out0@.contains(k)); }
        }
    }
//@beforeloop 1
    let ghost ks = expired@; let ghost cb0 = self.callbacks.on_expire;
    let ghost m0 = self.m();
    proof { assert(lists_gone(ks, m0, now@)); assert(vals(ks.subrange(0, 0), m0) == Seq::<Session>::empty()); assert(clog(cb0) + vals(ks.subrange(0, 0), m0) == clog(cb0)); }
//@loop 1
    invariant __it1.wf(), __it1.seq() == ks, lists_gone(ks, m0, now@), is_now(now@),
        forall|k: String| #[trigger] self.m().contains_key(k) <==> m0.contains_key(k) && !ks.subrange(0, __it1.pos()).contains(k),
        forall|k: String| #[trigger] self.m().contains_key(k) ==> self.m()[k] == m0[k],
        self.config == old(self).config, quiet(old(self).callbacks.on_create, self.callbacks.on_create), quiet(old(self).callbacks.on_destroy, self.callbacks.on_destroy),
        told_all(cb0, self.callbacks.on_expire, vals(ks.subrange(0, __it1.pos()), m0)),
    ensures __it1.pos() == ks.len(),
    decreases ks.len() - __it1.pos()
//@loopstart 1
    let ghost p = __it1.pos() - 1; let ghost m1 = self.m(); let ghost cb1 = self.callbacks.on_expire;
    proof {
        let a = ks.subrange(0, p); let b = ks.subrange(0, p + 1);
        assert(b == a.push(ks[p])); lemma_push_contains(a, ks[p]);
        assert(ks.contains(ks[p]));
        assert(gone(m0, ks[p], now@));
        if a.contains(ks[p]) { let j = choose|j: int| 0 <= j < p && #[trigger] a[j] == ks[p]; assert(ks[j] == ks[p]); }
        assert(m1.contains_key(ks[p]));
        assert(vals(b, m0) == vals(a, m0).push(m0[ks[p]]));
        assert((clog(cb0) + vals(a, m0)).push(m0[ks[p]]) == clog(cb0) + vals(b, m0));
    }
//@loopend 1
    proof { assert(self.m() == m1.remove(ks[p])); }
//@afterloop 1
    proof { assert(ks.subrange(0, ks.len() as int) == ks); assert(is_now(now@) && lists_gone(ks, old(self).m(), now@)); }
//@end
/// the value of the session cookie in one `;`-separated piece
pub open spec fn sid_in(p: Seq<u8>) -> Option<Seq<u8>> {
    let v = split2(String::trim_spec(p), 61);
    if v.len() == 2 && v[0] == S("mcp-session-id") { Some(v[1]) } else { None }
}
/// that of the first piece that has one
pub open spec fn first_cookie(ps: Seq<Seq<u8>>) -> Option<Seq<u8>> decreases ps.len() {
    if ps.len() == 0 { None } else { match sid_in(ps[0]) { Some(v) => Some(v), None => first_cookie(ps.subrange(1, ps.len() as int)) } }
}
pub proof fn lemma_cookie(ps: Seq<Seq<u8>>, n: int)
    requires 0 <= n <= ps.len(), forall|i: int| 0 <= i < n ==> sid_in(#[trigger] ps[i]) is None
    ensures first_cookie(ps) == (if n < ps.len() && sid_in(ps[n]) is Some { sid_in(ps[n]) } else { first_cookie(ps.subrange(n, ps.len() as int)) })
    decreases n
{
    if n == 0 { assert(ps.subrange(0, ps.len() as int) == ps); }
    else {
        let t = ps.subrange(1, ps.len() as int);
        assert(t.subrange(n - 1, t.len() as int) == ps.subrange(n, ps.len() as int));
        assert forall|i: int| 0 <= i < n - 1 implies sid_in(#[trigger] t[i]) is None by { assert(t[i] == ps[i + 1]); }
        lemma_cookie(t, n - 1);
        if n < ps.len() { assert(t[n - 1] == ps[n]); }
        assert(sid_in(ps[0]) is None);
    }
}
/// the value stored under the text k
pub open spec fn hget(h: Map<String, String>, k: Seq<u8>) -> Option<Seq<u8>> {
    if exists|q: String| q@ == k && #[trigger] h.contains_key(q) { Some(h[choose|q: String| q@ == k && #[trigger] h.contains_key(q)]@) } else { None }
}
pub proof fn lemma_hget(h: Map<String, String>, q: String)
    ensures hget(h, q@) == (if h.contains_key(q) { Some(h[q]@) } else { None })
{
    if exists|p: String| p@ == q@ && #[trigger] h.contains_key(p) { let p = choose|p: String| p@ == q@ && #[trigger] h.contains_key(p); assert(p == q); }
}
pub open spec fn either(o: Option<Seq<u8>>, p: Option<Seq<u8>>) -> Option<Seq<u8>> { match o { Some(x) => Some(x), None => p } }
/// what the headers name as session id: the cookie first, then the X-Session-ID header
pub open spec fn named(h: Map<String, String>) -> Option<Seq<u8>> {
    either(match either(hget(h, S("cookie")), hget(h, S("Cookie"))) { Some(t) => first_cookie(split_spec(t, 59)), None => None },
        either(hget(h, S("X-Session-ID")), hget(h, S("x-session-id"))))
}
//@fn extract_session_id ret=r
    ensures ov(r) == named(headers@)
//@start
    proof { assert forall|q: String| true implies hget(headers@, #[trigger] q@) == (if headers@.contains_key(q) { Some(headers@[q]@) } else { None }) by { lemma_hget(headers@, q); } }
//@beforeloop 0
    let ghost ps = split_spec(cookie_header@, 59);
//@loop 0
    invariant_except_break
        forall|i: int| 0 <= i < __it0.pos() ==> sid_in(#[trigger] ps[i]) is None,
        __it0.pos() == ps.len() ==> first_cookie(ps) is None,
    invariant __it0.wf(), texts(__it0.seq()) == ps, either(hget(headers@, S("cookie")), hget(headers@, S("Cookie"))) == Some(cookie_header@), ps == split_spec(cookie_header@, 59),
    ensures first_cookie(ps) is None,
    decreases __it0.seq().len() - __it0.pos()
//@loopstart 0
    let ghost p = __it0.pos() - 1;
    proof { assert(cookie@ == ps[p]); lemma_cookie(ps, p); }
//@loopend 0
    proof { assert(sid_in(ps[p]) is None); if p + 1 == ps.len() { lemma_cookie(ps, p + 1); } }
//@end
//@extract src/shared/session.rs fn:extract_session_id
//@extract src/shared/session.rs impl:SessionManager::{new,create_session,get_session,validate_session,update_session,authenticate_session,destroy_session,cleanup_expired,active_sessions,session_count}
//@extract src/shared/session.rs struct:SessionMiddleware
/// the id named by the headers is that of a session present in a and not expired by now
pub open spec fn live(m: Map<String, Session>, n: Option<Seq<u8>>, s: Session) -> bool {
    exists|k: String, t: int| #[trigger] m.contains_key(k) && n == Some(k@) && touched(m[k], s) && #[trigger] is_now(t) && t <= s.expires_at@
}
pub open spec fn dead(m: Map<String, Session>, n: Option<Seq<u8>>) -> bool {
    n is Some ==> forall|k: String| k@ == n->0 && #[trigger] m.contains_key(k) ==> exists|t: int| #[trigger] is_now(t) && t > m[k].expires_at@
}
//@fn SessionMiddleware::process ret=r mutself
    requires forall|x: Option<Session>| #[trigger] handler.requires((x,))
    ensures r is Ok, handler.ensures((r->Ok_0.0,), r->Ok_0.1),
        match r->Ok_0.0 { Some(s) => live(old(self).manager.m(), named(headers@), s), None => dead(old(self).manager.m(), named(headers@)) },
//@end
//@extract src/shared/session.rs impl:SessionMiddleware::{process}

// ---- the cleanup task
//@type std::time::Duration = Duration
//@call tokio::time::interval = v_interval
//@ghostarg tick/0 = manager
#[verifier::external_body]
pub struct OutOfRange { x: u8 }
impl CDuration {
    #[verifier::external_body]
    pub fn to_std(&self) -> (r: core::result::Result<Duration, OutOfRange>) ensures r is Ok <==> self@ >= 0, r is Ok ==> r->Ok_0@ == self@ { unimplemented!() }
}
#[verifier::external_body]
pub struct Interval { x: u8 }
impl Interval {
    pub uninterp spec fn every(&self) -> int;
    /// until the next tick others use the manager
    #[verifier::external_body]
    pub fn tick(&mut self, m: &mut SessionManager) { unimplemented!() }
}
/// tokio's interval has a period
#[verifier::external_body]
pub fn v_interval(d: Duration) -> (r: Interval) requires d@ > 0 ensures r.every() == d@ { unimplemented!() }
/// only what had expired by some present instant is gone
pub open spec fn swept(a: Map<String, Session>, b: Map<String, Session>, t: int) -> bool { forall|k: String| #[trigger] b.contains_key(k) <==> a.contains_key(k) && !gone(a, k, t) }
//@fn SessionManager::set_callbacks
    ensures *final(self) == (SessionManager { callbacks: callbacks, ..*old(self) })
//@end
//@fn session_cleanup_task noprobe
//@param manager: &mut SessionManager
    requires interval@ != 0
    ensures false
//@attr #[verifier::exec_allows_no_decreases_clause]
//@start
    let ghost d0 = interval@;
//@beforeloop 0
    proof { assert(d0 > 0 ==> interval.every() == d0); }
//@after tick#0
    let ghost m0 = manager.m();
//@loopend 0
    proof { assert(exists|t: int| #[trigger] is_now(t) && swept(m0, manager.m(), t)); }
//@end
//@extract src/shared/session.rs fn:session_cleanup_task impl:SessionManager::{set_callbacks}
