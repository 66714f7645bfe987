//@include core.rs
//@include text.rs
//@type str = String
//@include errctor.rs
//@include coll.rs
//@type dyn OAuthProvider = Provider
//@type dyn AuthMiddleware = Inner
//@type serde_json::Map<String, Value> = JMap
//@call serde_json::Map::new = JMap::new
//@extract src/server/auth/oauth2.rs enum:GrantType enum:ResponseType enum:TokenType +derive=Copy,Clone,Structural,PartialEq,Eq
//@extract src/server/auth/oauth2.rs struct:OAuthClient struct:TokenInfo
//@extract src/types/auth.rs enum:AuthScheme +eq
//@extract src/types/auth.rs enum:PkceMethod struct:OAuthInfo struct:AuthInfo impl:AuthInfo::{none,bearer,oauth2,is_required,authorization_header}
//@extract src/server/auth/middleware.rs struct:AuthContext struct:BearerTokenMiddleware struct:ClientCredentialsMiddleware struct:ScopeMiddleware struct:CompositeMiddleware impl:AuthContext::{has_scope,has_all_scopes,has_any_scope} impl:BearerTokenMiddleware::{new,with_required,authenticate,is_required} impl:ClientCredentialsMiddleware::{new,authenticate} impl:ScopeMiddleware::{all,any,authenticate,is_required} impl:CompositeMiddleware::{new,with_require_any,authenticate,is_required}
/// An arbitrary token provider: what it answers is unknown, but its own.
#[verifier::external_body]
pub struct Provider { x: u8 }
impl Provider {
    pub uninterp spec fn token(&self, t: Seq<u8>) -> VResult<TokenInfo>;
    pub uninterp spec fn client(&self, c: Seq<u8>) -> VResult<Option<OAuthClient>>;
    #[verifier::external_body]
    pub fn validate_token(&self, t: &String) -> (r: VResult<TokenInfo>) ensures r == self.token(t@) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_client(&self, c: &String) -> (r: VResult<Option<OAuthClient>>) ensures r == self.client(c@) { unimplemented!() }
}
/// An arbitrary middleware.
#[verifier::external_body]
pub struct Inner { x: u8 }
impl Inner {
    pub uninterp spec fn auth(&self, i: Option<&AuthInfo>) -> VResult<AuthContext>;
    pub uninterp spec fn req(&self) -> bool;
    #[verifier::external_body]
    pub fn authenticate(&self, i: Option<&AuthInfo>) -> (r: VResult<AuthContext>) ensures r == self.auth(i) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_required(&self) -> (r: bool) ensures r == self.req() { unimplemented!() }
}
pub open spec fn code_is(e: Error, c: int) -> bool { e is Protocol && e->Protocol_code.0 == c }
pub open spec fn anonymous(c: AuthContext) -> bool { c.client_id@ == S("anonymous") && c.user_id@ == S("anonymous") && c.scopes@ == Seq::<String>::empty() && c.metadata@ == Map::<Seq<u8>, Value>::empty() }
pub open spec fn has(c: AuthContext, s: Seq<u8>) -> bool { exists|i: int| 0 <= i < c.scopes@.len() && (#[trigger] c.scopes@[i])@ == s }
/// a parameter of the request that is a text
pub open spec fn par(i: AuthInfo, name: Seq<u8>) -> Option<Seq<u8>> {
    if i.params@.contains_key(jstr(name)) && i.params@[jstr(name)] is String { Some(i.params@[jstr(name)]->String_0@) } else { None }
}
//@fn AuthContext::has_scope ret=r
    ensures r == has(*self, scope@)
//@loop 0
    invariant_except_break !__out0, forall|i: int| 0 <= i < __it0.pos() ==> !((#[trigger] self.scopes@[i])@ == scope@),
    invariant __it0.wf(), __it0.seq() == self.scopes@,
    ensures __out0 == exists|i: int| 0 <= i < self.scopes@.len() && ((#[trigger] self.scopes@[i])@ == scope@),
    decreases __it0.seq().len() - __it0.pos()
//@end
//@fn AuthContext::has_all_scopes ret=r
    ensures r == forall|i: int| 0 <= i < scopes@.len() ==> has(*self, (#[trigger] scopes@[i])@)
//@loop 0
    invariant_except_break __out0, forall|i: int| 0 <= i < __it0.pos() ==> (has(*self, (#[trigger] scopes@[i])@)),
    invariant __it0.wf(), __it0.seq() == scopes@,
    ensures __out0 == forall|i: int| 0 <= i < scopes@.len() ==> (has(*self, (#[trigger] scopes@[i])@)),
    decreases __it0.seq().len() - __it0.pos()
//@end
//@fn AuthContext::has_any_scope ret=r
    ensures r == exists|i: int| 0 <= i < scopes@.len() && has(*self, (#[trigger] scopes@[i])@)
//@loop 0
    invariant_except_break !__out0, forall|i: int| 0 <= i < __it0.pos() ==> !(has(*self, (#[trigger] scopes@[i])@)),
    invariant __it0.wf(), __it0.seq() == scopes@,
    ensures __out0 == exists|i: int| 0 <= i < scopes@.len() && (has(*self, (#[trigger] scopes@[i])@)),
    decreases __it0.seq().len() - __it0.pos()
//@end
//@fn BearerTokenMiddleware::new ret=r
    ensures r.provider == provider, r.required
//@end
//@fn BearerTokenMiddleware::with_required ret=r
    ensures r.provider == self.provider, r.required == required
//@end
//@fn BearerTokenMiddleware::is_required ret=r
    ensures r == self.required
//@end
//@fn BearerTokenMiddleware::authenticate ret=r
    ensures
        r is Err ==> code_is(r->Err_0, -32003),
        auth_info is None ==> (r is Ok <==> !self.required) && (r is Ok ==> anonymous(r->Ok_0)),
        auth_info is Some ==> (r is Ok <==> auth_info->0.scheme is Bearer && auth_info->0.token is Some && self.provider.token(auth_info->0.token->0@) is Ok),
        auth_info is Some && r is Ok ==> {
            let t = self.provider.token(auth_info->0.token->0@)->Ok_0;
            r->Ok_0.client_id == t.client_id && r->Ok_0.user_id == t.user_id && r->Ok_0.scopes == t.scopes && r->Ok_0.metadata@ == Map::<Seq<u8>, Value>::empty()
        },
//@end
//@fn ClientCredentialsMiddleware::new ret=r
    ensures r.provider == provider
//@end
/// the client these credentials prove, if any
pub open spec fn proven(p: Provider, i: AuthInfo) -> Option<OAuthClient> {
    match (par(i, S("client_id")), par(i, S("client_secret"))) {
        (Some(c), Some(s)) => match p.client(c) { Ok(Some(cl)) => if cl.client_secret is Some && cl.client_secret->0@ == s { Some(cl) } else { None }, _ => None },
        _ => None,
    }
}
//@fn ClientCredentialsMiddleware::authenticate ret=r
    ensures
        r is Ok <==> auth_info is Some && proven(self.provider, *auth_info->0) is Some,
        r is Ok ==> {
            let c = proven(self.provider, *auth_info->0)->0;
            r->Ok_0.client_id == c.client_id && r->Ok_0.user_id == c.client_id && r->Ok_0.scopes == c.scopes && r->Ok_0.metadata@ == Map::<Seq<u8>, Value>::empty()
        },
        r is Err ==> code_is(r->Err_0, -32003) || auth_info is Some && par(*auth_info->0, S("client_id")) is Some && self.provider.client(par(*auth_info->0, S("client_id"))->0) == Err::<Option<OAuthClient>, Error>(r->Err_0),
//@end
//@fn ScopeMiddleware::all ret=r
    ensures r.inner == inner, r.required_scopes == scopes, r.require_all
//@end
//@fn ScopeMiddleware::any ret=r
    ensures r.inner == inner, r.required_scopes == scopes, !r.require_all
//@end
pub open spec fn enough(m: ScopeMiddleware, c: AuthContext) -> bool {
    if m.require_all { forall|i: int| 0 <= i < m.required_scopes@.len() ==> has(c, (#[trigger] m.required_scopes@[i])@) }
    else { exists|i: int| 0 <= i < m.required_scopes@.len() && has(c, (#[trigger] m.required_scopes@[i])@) }
}
pub open spec fn refs(a: Seq<&String>, b: Seq<String>, n: int) -> bool { a.len() == n && n <= b.len() && forall|i: int| 0 <= i < n ==> *(#[trigger] a[i]) == b[i] }
//@fn ScopeMiddleware::authenticate ret=r
    ensures
        self.inner.auth(auth_info) is Err ==> r == self.inner.auth(auth_info),
        self.inner.auth(auth_info) is Ok && enough(*self, self.inner.auth(auth_info)->Ok_0) ==> r == self.inner.auth(auth_info),
        self.inner.auth(auth_info) is Ok && !enough(*self, self.inner.auth(auth_info)->Ok_0) ==> r is Err && code_is(r->Err_0, -32004),
//@loop 0
    invariant __it0.wf(), __it0.seq() == self.required_scopes@,
        refs(__out0@, self.required_scopes@, __it0.pos()),
    ensures __it0.pos() == __it0.seq().len(),
    decreases __it0.seq().len() - __it0.pos()
//@afterloop 0
    proof {
        assert(__out0@.len() == self.required_scopes@.len());
        assert(forall|i: int| 0 <= i < self.required_scopes@.len() ==> (#[trigger] self.required_scopes@[i])@ == __out0@[i]@);
        assert(forall|i: int| 0 <= i < self.required_scopes@.len() ==> (#[trigger] __out0@[i])@ == self.required_scopes@[i]@);
    }
//@end
//@fn ScopeMiddleware::is_required ret=r
    ensures r == self.inner.req()
//@end
//@fn CompositeMiddleware::new ret=r
    ensures r.middlewares == middlewares, r.require_any
//@end
//@fn CompositeMiddleware::with_require_any ret=r
    ensures r.middlewares == self.middlewares, r.require_any == require_any
//@end
/// the first middleware that lets the caller in
pub open spec fn first_ok(m: Seq<Inner>, i: Option<&AuthInfo>, k: int) -> bool {
    0 <= k < m.len() && m[k].auth(i) is Ok && forall|j: int| 0 <= j < k ==> (#[trigger] m[j].auth(i)) is Err
}
//@fn CompositeMiddleware::authenticate ret=r
    ensures
        (exists|k: int| #[trigger] first_ok(self.middlewares@, auth_info, k) && r == self.middlewares@[k].auth(auth_info))
        || (forall|j: int| 0 <= j < self.middlewares@.len() ==> (#[trigger] self.middlewares@[j].auth(auth_info)) is Err)
            && (if !self.require_any { r is Ok && anonymous(r->Ok_0) }
                else if self.middlewares@.len() == 0 { r is Err && code_is(r->Err_0, -32003) }
                else { r is Err && r == self.middlewares@.last().auth(auth_info) }),
//@loop 0
    invariant __it0.wf(), __it0.seq() == self.middlewares@,
        forall|j: int| 0 <= j < __it0.pos() ==> (#[trigger] self.middlewares@[j].auth(auth_info)) is Err,
        __it0.pos() == 0 ==> last_error is None,
        __it0.pos() > 0 ==> last_error is Some && self.middlewares@[__it0.pos() - 1].auth(auth_info) == Err::<AuthContext, Error>(last_error->0),
    ensures __it0.pos() == __it0.seq().len(),
    decreases __it0.seq().len() - __it0.pos()
//@loopstart 0
    proof { if self.middlewares@[__it0.pos() - 1].auth(auth_info) is Ok { assert(first_ok(self.middlewares@, auth_info, __it0.pos() - 1)); } }
//@end
//@fn CompositeMiddleware::is_required ret=r
    ensures r == (self.require_any && exists|k: int| 0 <= k < self.middlewares@.len() && (#[trigger] self.middlewares@[k]).req())
//@loop 0
    invariant_except_break !__out0, forall|i: int| 0 <= i < __it0.pos() ==> !((#[trigger] self.middlewares@[i]).req()),
    invariant __it0.wf(), __it0.seq() == self.middlewares@,
    ensures __out0 == exists|i: int| 0 <= i < self.middlewares@.len() && ((#[trigger] self.middlewares@[i]).req()),
    decreases __it0.seq().len() - __it0.pos()
//@end
//@fn AuthInfo::none ret=r
    ensures r.scheme is None, r.token is None, r.oauth is None, r.params@ == Map::<String, Value>::empty()
//@end
//@fn AuthInfo::bearer ret=r
    ensures r.scheme is Bearer, r.token is Some, r.token->0@ == token.txt(), r.oauth is None, r.params@ == Map::<String, Value>::empty()
//@end
//@fn AuthInfo::oauth2 ret=r
    ensures r.scheme is OAuth2, r.token is None, r.oauth == Some(oauth), r.params@ == Map::<String, Value>::empty()
//@end
//@fn AuthInfo::is_required ret=r
    ensures r == !(self.scheme is None)
//@end
//@fn AuthInfo::authorization_header ret=r
    ensures r is Some <==> self.scheme is Bearer && self.token is Some,
        r is Some ==> r->0@ == S("Bearer ") + self.token->0@,
//@end
