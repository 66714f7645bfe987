//@include core.rs
//@include text.rs
//@type str = String
//@include err.rs
//@include sync.rs
//@include coll.rs
//@include uuid.rs
//@include jsonrpc.rs
//@call oneshot::channel = oneshot_channel
//@type oneshot::Sender<JSONRPCResponse> = OneSender
//@type oneshot::Receiver<JSONRPCResponse> = OneReceiver
/// One end of a oneshot channel. `chan` identifies the channel; `delivered` is a prophecy: the value that is put into it.
#[verifier::external_body]
pub struct OneSender { x: u8 }
#[verifier::external_body]
pub struct OneReceiver { x: u8 }
pub uninterp spec fn delivered(chan: int, v: JSONRPCResponse) -> bool;
impl OneSender {
    pub uninterp spec fn chan(&self) -> int;
    /// consumes the sender, so a channel gets at most one value
    #[verifier::external_body]
    pub fn send(self, v: JSONRPCResponse) -> (r: core::result::Result<(), JSONRPCResponse>) ensures delivered(self.chan(), v) { unimplemented!() }
}
impl OneReceiver { pub uninterp spec fn chan(&self) -> int; }
#[verifier::external_body]
pub fn oneshot_channel() -> (r: (OneSender, OneReceiver)) ensures r.0.chan() == r.1.chan() { unimplemented!() }
//@extract src/shared/protocol.rs struct:TransportId +eq
//@extract src/shared/protocol.rs struct:ProtocolOptions struct:RequestContext struct:Protocol
/// the pending requests: id -> (transport, channel), for entries whose response has not been handed out
pub open spec fn live(m: Map<RequestId, RequestContext>) -> bool { forall|k: RequestId| #[trigger] m.contains_key(k) ==> m[k].sender.v is Some }
impl Protocol {
    #[verifier::inline]
    pub open spec fn m(&self) -> Map<RequestId, RequestContext> { self.pending_requests@ }
    pub open spec fn inv(&self) -> bool {
        live(self.m()) && forall|k: RequestId| #[trigger] self.m().contains_key(k) ==> self.m()[k].transport_id == self.transport_id
    }
    pub open spec fn frame(&self, o: &Protocol) -> bool { self.transport_id == o.transport_id && self.options == o.options }
}
//@fn TransportId::new ret=r
//@end
//@fn TransportId::from_string ret=r
    ensures r.0 == s
//@end
//@fn Protocol::new ret=r
    ensures r.inv(), r.m() == Map::<RequestId, RequestContext>::empty(), r.options == options
//@end
//@fn Protocol::with_transport_id ret=r
    ensures r.inv(), r.m() == Map::<RequestId, RequestContext>::empty(), r.options == options, r.transport_id == transport_id
//@end
//@fn Protocol::options ret=r
    ensures *r == self.options
//@end
//@fn Protocol::transport_id ret=r
    ensures *r == self.transport_id
//@end
//@fn Protocol::register_request ret=r
    requires old(self).inv()
    ensures final(self).inv(), final(self).frame(old(self)),
        final(self).m().contains_key(id), final(self).m()[id].sender.v->0.chan() == r.chan(),
        final(self).m() == old(self).m().insert(id, final(self).m()[id]),
//@end
//@fn Protocol::complete_request ret=r
    requires old(self).inv()
    ensures r is Ok, final(self).inv(), final(self).frame(old(self)),
        final(self).m() == old(self).m().remove(*id),
        old(self).m().contains_key(*id) ==> delivered(old(self).m()[*id].sender.v->0.chan(), response),
//@end
//@fn Protocol::complete_request_for_transport ret=r
    requires old(self).inv()
    ensures r is Ok, final(self).inv(), final(self).frame(old(self)),
        r->Ok_0 == (old(self).m().contains_key(*id) && *transport_id == old(self).transport_id),
        r->Ok_0 ==> final(self).m() == old(self).m().remove(*id) && delivered(old(self).m()[*id].sender.v->0.chan(), response),
        !r->Ok_0 ==> final(self).m() == old(self).m(),
//@end
//@fn Protocol::cancel_request
    requires old(self).inv()
    ensures final(self).inv(), final(self).frame(old(self)), final(self).m() == old(self).m().remove(*id),
//@end
//@extract src/shared/protocol.rs impl:TransportId::{new,from_string}
//@extract src/shared/protocol.rs impl:Protocol::{new,with_transport_id,options,transport_id,register_request,complete_request,complete_request_for_transport,cancel_request}
