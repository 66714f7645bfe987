//@include oauth.rs
//@type Sha256 = Hasher
//@call Sha256::new = Hasher::new
//@expr URL_SAFE_NO_PAD.encode(result) => v_b64url(result)
/// SHA-256 and unpadded URL-safe base64, abstractly
pub uninterp spec fn sha256(b: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn b64url(b: Seq<u8>) -> Seq<u8>;
#[verifier::external_body]
pub struct Hasher { x: u8 }
impl Hasher {
    pub uninterp spec fn fed(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn new() -> (r: Hasher) ensures r.fed() == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn update(&mut self, b: &[u8]) ensures final(self).fed() == old(self).fed() + b@ { unimplemented!() }
    #[verifier::external_body]
    pub fn finalize(self) -> (r: Vec<u8>) ensures r@ == sha256(self.fed()) { unimplemented!() }
}
#[verifier::external_body]
pub fn v_b64url(b: Vec<u8>) -> (r: String) ensures r@ == b64url(b@) { unimplemented!() }
pub open spec fn pkce(v: Seq<u8>, c: Seq<u8>, m: Seq<u8>) -> bool {
    (m == S("plain") && v == c) || (m == S("S256") && b64url(sha256(v)) == c)
}
//@fn InMemoryOAuthProvider::verify_pkce ret=r
    ensures r == pkce(verifier@, challenge@, method@)
//@end
/// what the code was bound to when it was issued is what the request presents, and the code has not expired at n
pub open spec fn entitled(q: TokenRequest, a: AuthorizationCode, n: int) -> bool {
    &&& n <= a.expires_at
    &&& q.client_id is Some && q.client_id->0 == a.client_id
    &&& q.redirect_uri is Some && q.redirect_uri->0 == a.redirect_uri
    &&& a.code_challenge is Some ==> q.code_verifier is Some
        && pkce(q.code_verifier->0@, a.code_challenge->0@, match a.code_challenge_method { Some(m) => m@, None => S("plain") })
}
pub open spec fn names_code(q: TokenRequest, m: Map<String, AuthorizationCode>) -> bool { q.grant_type == GrantType::AuthorizationCode && q.code is Some && m.contains_key(q.code->0) }
//@fn InMemoryOAuthProvider::exchange_code ret=r mutself
    requires old(self).sane()
    ensures same_cfg(*old(self), *final(self)),
        // spent whatever the outcome
        request.grant_type == GrantType::AuthorizationCode && request.code is Some ==> final(self).cs() == old(self).cs().remove(request.code->0),
        !(request.grant_type == GrantType::AuthorizationCode && request.code is Some) ==> final(self).cs() == old(self).cs(),
        r is Ok ==> names_code(*request, old(self).cs()) && ({
            let a = old(self).cs()[request.code->0];
            &&& exists|n: int| #[trigger] is_now_s(n) && entitled(*request, a, n)
            &&& issued(old(self).ts(), old(self).rs(), *final(self), r->Ok_0, a.client_id@, a.user_id@, a.scopes@)
        }),
        r is Err ==> refused(r->Err_0) && final(self).ts() == old(self).ts() && final(self).rs() == old(self).rs()
            && (names_code(*request, old(self).cs()) ==> exists|n: int| #[trigger] is_now_s(n) && !entitled(*request, old(self).cs()[request.code->0], n)),
//@end
//@fn InMemoryOAuthProvider::create_authorization_code ret=r mutself
    requires old(self).sane()
    ensures r is Ok, same_cfg(*old(self), *final(self)), final(self).ts() == old(self).ts(), final(self).rs() == old(self).rs(),
        fresh_text(r->Ok_0@), final(self).cs().contains_key(r->Ok_0), final(self).cs() == old(self).cs().insert(r->Ok_0, final(self).cs()[r->Ok_0]),
        ({ let a = final(self).cs()[r->Ok_0];
            a.code == r->Ok_0 && a.client_id@ == client_id@ && a.user_id@ == user_id@ && a.redirect_uri@ == redirect_uri@ && a.scopes == scopes
                && a.code_challenge == code_challenge && a.code_challenge_method == code_challenge_method && is_now_s(a.expires_at - old(self).code_expiration) }),
//@end
//@fn InMemoryOAuthProvider::register_client ret=r mutself
    ensures r is Ok, final(self).ct() == old(self).ct().insert(r->Ok_0.client_id, r->Ok_0),
        final(self).cs() == old(self).cs(), final(self).ts() == old(self).ts(), final(self).rs() == old(self).rs(), final(self).supported_scopes == old(self).supported_scopes,
        final(self).token_expiration == old(self).token_expiration, final(self).code_expiration == old(self).code_expiration,
        if client.client_id@.len() == 0 { fresh_text(r->Ok_0.client_id@) } else { r->Ok_0.client_id == client.client_id },
        match client.client_secret { Some(s) => r->Ok_0.client_secret == Some(s), None => r->Ok_0.client_secret is Some && fresh_text(r->Ok_0.client_secret->0@) },
        r->Ok_0 == (OAuthClient { client_id: r->Ok_0.client_id, client_secret: r->Ok_0.client_secret, ..client }),
//@end
//@fn InMemoryOAuthProvider::get_client ret=r
    ensures r == Ok::<Option<OAuthClient>, Error>(if self.ct().contains_key(*client_id) { Some(self.ct()[*client_id]) } else { None })
//@end
/// registered client, one of its redirect URIs and response types, and only scopes the server supports
pub open spec fn allowed(p: InMemoryOAuthProvider, q: AuthorizationRequest) -> bool {
    &&& p.ct().contains_key(q.client_id)
    &&& p.ct()[q.client_id].redirect_uris@.contains(q.redirect_uri)
    &&& p.ct()[q.client_id].response_types@.contains(q.response_type)
    &&& forall|i: int| 0 <= i < words(q.scope@).len() ==> words_of(p.supported_scopes@).contains(#[trigger] words(q.scope@)[i])
}
//@fn InMemoryOAuthProvider::validate_authorization ret=r
    ensures r is Ok <==> allowed(*self, *request), r is Err ==> refused(r->Err_0)
//@beforeloop 0
    let ghost ws = words(request.scope@); let ghost sup = words_of(self.supported_scopes@);
    proof { assert(texts(requested_scopes@) == ws); }
//@loop 0
    invariant_except_break
        forall|i: int| 0 <= i < __it0.pos() ==> sup.contains(#[trigger] ws[i]),
    invariant __it0.wf(), texts(__it0.seq()) == ws, ws == words(request.scope@), sup == words_of(self.supported_scopes@),
        self.ct().contains_key(request.client_id) && self.ct()[request.client_id].redirect_uris@.contains(request.redirect_uri) && self.ct()[request.client_id].response_types@.contains(request.response_type),
    ensures forall|i: int| 0 <= i < ws.len() ==> sup.contains(#[trigger] ws[i]),
    decreases __it0.seq().len() - __it0.pos()
//@loopstart 0
    let ghost p = __it0.pos() - 1;
    proof { assert(texts(__it0.seq())[p] == scope@); }
//@loop 1
    invariant_except_break
        forall|i: int| 0 <= i < __it1.pos() ==> #[trigger] sup[i] != scope@, !__out1,
    invariant __it1.wf(), __it1.seq() == self.supported_scopes@, sup == words_of(self.supported_scopes@),
    ensures __out1 == sup.contains(scope@),
    decreases __it1.seq().len() - __it1.pos()
//@loopstart 1
    let ghost p1 = __it1.pos() - 1;
    proof { assert(sup[p1] == self.supported_scopes@[p1]@); }
//@end
//@extract src/server/auth/oauth2.rs impl:InMemoryOAuthProvider::{generate_token,now,create_access_token,verify_pkce,exchange_code,create_authorization_code,register_client,get_client,validate_authorization}
