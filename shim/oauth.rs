// ---- shim/oauth.rs: what the OAuth units share: the provider's state, tokens being issued, and the contracts of the functions all of them call ----
//@include core.rs
//@include text.rs
//@type str = String
//@include errctor.rs
//@include sync.rs
//@include coll.rs
//@include float.rs
//@include time.rs
//@include systime.rs
//@include uuid.rs
//@extract src/server/auth/oauth2.rs enum:GrantType enum:ResponseType enum:TokenType +derive=Copy,Clone,Structural,PartialEq,Eq
//@extract src/server/auth/oauth2.rs struct:OAuthClient struct:AuthorizationCode struct:AccessToken struct:TokenInfo struct:AuthorizationRequest struct:TokenRequest struct:InMemoryOAuthProvider
pub open spec fn refused(e: Error) -> bool { e is Protocol && e->Protocol_code.0 == -32600 }
pub open spec fn fresh_text(s: Seq<u8>) -> bool { exists|u: Uuid| #[trigger] u.text() == s && u.random() }
impl InMemoryOAuthProvider {
    #[verifier::inline]
    pub open spec fn ct(&self) -> Map<String, OAuthClient> { self.clients.v@ }
    #[verifier::inline]
    pub open spec fn cs(&self) -> Map<String, AuthorizationCode> { self.codes.v@ }
    #[verifier::inline]
    pub open spec fn ts(&self) -> Map<String, TokenInfo> { self.tokens.v@ }
    #[verifier::inline]
    pub open spec fn rs(&self) -> Map<String, String> { self.refresh_tokens.v@ }
    /// lifetimes far below the end of the clock's range
    pub open spec fn sane(&self) -> bool { self.token_expiration < 0x4000_0000_0000_0000 && self.code_expiration < 0x4000_0000_0000_0000 }
}
/// the settings and the registered clients are left alone
pub open spec fn same_cfg(a: InMemoryOAuthProvider, b: InMemoryOAuthProvider) -> bool {
    b.base_url == a.base_url && b.token_expiration == a.token_expiration && b.code_expiration == a.code_expiration && b.supported_scopes == a.supported_scopes && b.ct() == a.ct()
}
pub open spec fn words_of(v: Seq<String>) -> Seq<Seq<u8>> { v.map_values(|s: String| s@) }
/// on top of tokens ts and refresh tokens rs, exactly one access token and one refresh token naming it were issued
pub open spec fn issued(ts: Map<String, TokenInfo>, rs: Map<String, String>, b: InMemoryOAuthProvider, r: AccessToken, client: Seq<u8>, user: Seq<u8>, scopes: Seq<String>) -> bool {
    &&& fresh_text(r.access_token@) && r.refresh_token is Some && fresh_text(r.refresh_token->0@)
    &&& b.ts().contains_key(r.access_token) && b.ts() == ts.insert(r.access_token, b.ts()[r.access_token])
    &&& b.rs() == rs.insert(r.refresh_token->0, r.access_token)
    &&& ({ let i = b.ts()[r.access_token];
        i.token == r.access_token && i.client_id@ == client && i.user_id@ == user && i.scopes@ == scopes && i.token_type == TokenType::Bearer
            && is_now_s(i.expires_at - b.token_expiration) })
    &&& r.token_type == TokenType::Bearer && r.expires_in == Some(b.token_expiration) && r.scope is Some && r.scope->0@ == join_spec(words_of(scopes), S(" "))
}
//@fn InMemoryOAuthProvider::generate_token ret=r
    ensures fresh_text(r@)
//@end
//@fn InMemoryOAuthProvider::now ret=r
    ensures is_now_s(r as int)
//@end
//@fn InMemoryOAuthProvider::create_access_token ret=r mutself
    requires old(self).sane()
    ensures r is Ok, same_cfg(*old(self), *final(self)), final(self).cs() == old(self).cs(),
        issued(old(self).ts(), old(self).rs(), *final(self), r->Ok_0, client_id@, user_id@, scopes@),
//@end
