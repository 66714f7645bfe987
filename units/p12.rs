//@include oauth.rs
//@fn InMemoryOAuthProvider::refresh_token ret=r mutself
    requires old(self).sane()
    ensures same_cfg(*old(self), *final(self)), final(self).cs() == old(self).cs(),
        r is Ok <==> old(self).rs().contains_key(*refresh_token) && old(self).ts().contains_key(old(self).rs()[*refresh_token]),
        r is Err ==> refused(r->Err_0) && final(self).ts() == old(self).ts() && final(self).rs() == old(self).rs(),
        r is Ok ==> {
            let a = old(self).rs()[*refresh_token]; let i = old(self).ts()[a];
            issued(old(self).ts().remove(a), old(self).rs().remove(*refresh_token), *final(self), r->Ok_0, i.client_id@, i.user_id@, i.scopes@)
        },
//@end
//@fn InMemoryOAuthProvider::revoke_token ret=r mutself
    ensures r is Ok, same_cfg(*old(self), *final(self)), final(self).cs() == old(self).cs(),
        old(self).ts().contains_key(*token) ==> final(self).ts() == old(self).ts().remove(*token) && final(self).rs() == old(self).rs(),
        !old(self).ts().contains_key(*token) && old(self).rs().contains_key(*token) ==>
            final(self).ts() == old(self).ts().remove(old(self).rs()[*token]) && final(self).rs() == old(self).rs().remove(*token),
        !old(self).ts().contains_key(*token) && !old(self).rs().contains_key(*token) ==> final(self).ts() == old(self).ts() && final(self).rs() == old(self).rs(),
//@end
//@fn InMemoryOAuthProvider::validate_token ret=r
    ensures
        r is Ok ==> self.ts().contains_key(*token) && r->Ok_0 == self.ts()[*token] && exists|n: int| #[trigger] is_now_s(n) && n <= r->Ok_0.expires_at,
        r is Err ==> refused(r->Err_0) && (self.ts().contains_key(*token) ==> exists|n: int| #[trigger] is_now_s(n) && n > self.ts()[*token].expires_at),
//@end
//@extract src/server/auth/oauth2.rs impl:InMemoryOAuthProvider::{generate_token,now,create_access_token,refresh_token,revoke_token,validate_token}
