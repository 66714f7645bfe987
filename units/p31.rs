//@include core.rs
//@include text.rs
//@type str = String
//@include errctor.rs
//@include sync.rs
//@include coll.rs
//@type dyn ToolHandler = ToolH
//@type dyn PromptHandler = PromptH
//@type dyn ResourceHandler = ResourceH
//@type dyn SamplingHandler = SamplingH
//@type CapabilityListener = Listener
//@dropfield Server.info Server.resources Server.sampling Server.client_capabilities Server.initialized Server.notification_tx Server.cancellation_manager Server.roots_manager Server.subscription_manager Server.elicitation_manager
//@call listener = listener.call
//@ghostarg call/1 = calls
//@ghostarg add_tool/3 = calls
//@ghostarg add_prompt/3 = calls
//@ghostarg set_resource_handler/1 = calls
//@ghostarg set_sampling_handler/1 = calls
#[verifier::external_body]
pub struct SamplingCapabilities { x: u8 }
#[verifier::external_body]
pub struct LoggingCapabilities { x: u8 }
#[verifier::external_body]
pub struct CompletionCapabilities { x: u8 }
#[verifier::external_body]
pub struct ToolInfo { x: u8 }
#[verifier::external_body]
pub struct PromptInfo { x: u8 }
#[verifier::external_body]
pub struct ClientCapabilities { x: u8 }
#[verifier::external_body]
pub struct ToolH { x: u8 }
#[verifier::external_body]
pub struct PromptH { x: u8 }
#[verifier::external_body]
pub struct ResourceH { x: u8 }
#[verifier::external_body]
pub struct SamplingH { x: u8 }
#[verifier::external_body]
pub struct CancellationManager { x: u8 }
#[verifier::external_body]
pub struct Listener { x: u8 }
#[verifier::external_body]
pub struct Calls { x: u8 }
impl SamplingCapabilities { #[verifier::external_body] pub fn default() -> (r: Self) { unimplemented!() } }
impl Calls { pub uninterp spec fn log(&self) -> Seq<(Listener, ServerCapabilities)>; }
/// a registered listener: whatever it does, it is told once
impl Listener {
    #[verifier::external_body]
    pub fn call(&self, c: &ServerCapabilities, calls: &mut Calls) ensures final(calls).log() == old(calls).log().push((*self, *c)) { unimplemented!() }
}
//@extract src/types/capabilities.rs struct:ToolCapabilities struct:PromptCapabilities struct:ResourceCapabilities struct:ServerCapabilities
//@extract src/server/mod.rs struct:Server impl:Server::{has_tool,has_prompt}
//@extract src/server/dynamic.rs struct:DynamicServerManager struct:DynamicConfig struct:DynamicTool struct:DynamicPrompt struct:DynamicConfigBuilder impl:DynamicServerManager::{new,add_tool,remove_tool,add_prompt,remove_prompt,set_resource_handler,remove_resource_handler,set_sampling_handler,remove_sampling_handler,add_capability_listener,get_dynamic_tools,get_dynamic_prompts,has_tool,has_prompt,reload_configuration} impl:DynamicConfigBuilder::{new,tool,prompt,resources,sampling,build}
impl DynamicConfig {
    /// #[derive(Default)]
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r.tools@ == Map::<String, DynamicTool>::empty(), r.prompts@ == Map::<String, DynamicPrompt>::empty(), r.resources is None, r.sampling is None { unimplemented!() }
}
pub open spec fn sampling_as(c: ServerCapabilities, x: SamplingCapabilities) -> ServerCapabilities { ServerCapabilities { sampling: Some(x), ..c } }
/// n listeners, in order, were told c, and nobody else anything
pub open spec fn told(x: Seq<Listener>, n: int, c: ServerCapabilities, l: Seq<(Listener, ServerCapabilities)>, b: Seq<(Listener, ServerCapabilities)>) -> bool {
    b.len() == l.len() + n && (forall|j: int| 0 <= j < l.len() ==> #[trigger] b[j] == l[j]) && forall|i: int| 0 <= i < n ==> b[l.len() + i] == (#[trigger] x[i], c)
}
pub open spec fn told_all(m: DynamicServerManager, c: ServerCapabilities, l: Calls, b: Calls) -> bool { told(m.capability_listeners.v@, m.capability_listeners.v@.len() as int, c, l.log(), b.log()) }
//@fn Server::has_tool ret=r
    ensures r == self.tools@.contains_key(*name)
//@end
//@fn Server::has_prompt ret=r
    ensures r == self.prompts@.contains_key(*name)
//@end
//@fn DynamicServerManager::new ret=r
    ensures r.server == server, r.dynamic_tools.v@ == Map::<String, ToolH>::empty(), r.dynamic_prompts.v@ == Map::<String, PromptH>::empty(), r.dynamic_resources.v is None, r.dynamic_sampling.v is None, r.capability_listeners.v@.len() == 0
//@end
//@fn DynamicServerManager::has_tool ret=r
    ensures r == (self.dynamic_tools.v@.contains_key(*name) || self.server.tools@.contains_key(*name))
//@end
//@fn DynamicServerManager::has_prompt ret=r
    ensures r == (self.dynamic_prompts.v@.contains_key(*name) || self.server.prompts@.contains_key(*name))
//@end
//@fn DynamicServerManager::get_dynamic_tools ret=r
    ensures r@ == self.dynamic_tools.v@
//@end
//@fn DynamicServerManager::get_dynamic_prompts ret=r
    ensures r@ == self.dynamic_prompts.v@
//@end
//@fn DynamicServerManager::add_capability_listener mutself dropgenerics
//@param listener: Listener
    ensures final(self).capability_listeners.v@ == old(self).capability_listeners.v@.push(listener), *final(self) == (DynamicServerManager { capability_listeners: final(self).capability_listeners, ..*old(self) })
//@end
//@fn DynamicServerManager::add_tool ret=r mutself
//@addparam calls: &mut Calls
    ensures r is Ok, *final(self) == (DynamicServerManager { dynamic_tools: final(self).dynamic_tools, ..*old(self) }),
        final(self).dynamic_tools.v@ == old(self).dynamic_tools.v@.insert(jstr(name.txt()), handler),
        told_all(*old(self), ServerCapabilities { tools: Some(ToolCapabilities { list_changed: Some(true) }), ..old(self).server.capabilities }, *old(calls), *final(calls)),
//@loop 0
    invariant __it0.wf(), __it0.seq() == self.capability_listeners.v@, *listeners == self.capability_listeners.v, caps == (ServerCapabilities { tools: Some(ToolCapabilities { list_changed: Some(true) }), ..self.server.capabilities }), told(self.capability_listeners.v@, __it0.pos() as int, caps, old(calls).log(), calls.log()),
    ensures __it0.pos() == __it0.seq().len(),
    decreases __it0.seq().len() - __it0.pos()
//@end
//@fn DynamicServerManager::remove_tool ret=r mutself
//@addparam calls: &mut Calls
    ensures *final(self) == (DynamicServerManager { dynamic_tools: final(self).dynamic_tools, ..*old(self) }), final(self).dynamic_tools.v@ == old(self).dynamic_tools.v@.remove(*name),
        r is Ok <==> old(self).dynamic_tools.v@.contains_key(*name),
        r is Err ==> code_of(r->Err_0) == Some(ErrorCode::INVALID_REQUEST) && final(calls).log() == old(calls).log(),
        r is Ok ==> told_all(*old(self), old(self).server.capabilities, *old(calls), *final(calls)),
//@loop 0
    invariant __it0.wf(), __it0.seq() == self.capability_listeners.v@, *listeners == self.capability_listeners.v, caps == (self.server.capabilities), told(self.capability_listeners.v@, __it0.pos() as int, caps, old(calls).log(), calls.log()),
    ensures __it0.pos() == __it0.seq().len(),
    decreases __it0.seq().len() - __it0.pos()
//@end
//@fn DynamicServerManager::add_prompt ret=r mutself
//@addparam calls: &mut Calls
    ensures r is Ok, *final(self) == (DynamicServerManager { dynamic_prompts: final(self).dynamic_prompts, ..*old(self) }),
        final(self).dynamic_prompts.v@ == old(self).dynamic_prompts.v@.insert(jstr(name.txt()), handler),
        told_all(*old(self), ServerCapabilities { prompts: Some(PromptCapabilities { list_changed: Some(true) }), ..old(self).server.capabilities }, *old(calls), *final(calls)),
//@loop 0
    invariant __it0.wf(), __it0.seq() == self.capability_listeners.v@, *listeners == self.capability_listeners.v, caps == (ServerCapabilities { prompts: Some(PromptCapabilities { list_changed: Some(true) }), ..self.server.capabilities }), told(self.capability_listeners.v@, __it0.pos() as int, caps, old(calls).log(), calls.log()),
    ensures __it0.pos() == __it0.seq().len(),
    decreases __it0.seq().len() - __it0.pos()
//@end
//@fn DynamicServerManager::remove_prompt ret=r mutself
//@addparam calls: &mut Calls
    ensures *final(self) == (DynamicServerManager { dynamic_prompts: final(self).dynamic_prompts, ..*old(self) }), final(self).dynamic_prompts.v@ == old(self).dynamic_prompts.v@.remove(*name),
        r is Ok <==> old(self).dynamic_prompts.v@.contains_key(*name),
        r is Err ==> code_of(r->Err_0) == Some(ErrorCode::INVALID_REQUEST) && final(calls).log() == old(calls).log(),
        r is Ok ==> told_all(*old(self), old(self).server.capabilities, *old(calls), *final(calls)),
//@loop 0
    invariant __it0.wf(), __it0.seq() == self.capability_listeners.v@, *listeners == self.capability_listeners.v, caps == (self.server.capabilities), told(self.capability_listeners.v@, __it0.pos() as int, caps, old(calls).log(), calls.log()),
    ensures __it0.pos() == __it0.seq().len(),
    decreases __it0.seq().len() - __it0.pos()
//@end
//@fn DynamicServerManager::set_resource_handler ret=r mutself
//@addparam calls: &mut Calls
    ensures r is Ok, final(self).dynamic_resources.v == Some(handler), *final(self) == (DynamicServerManager { dynamic_resources: final(self).dynamic_resources, ..*old(self) }),
        told_all(*old(self), ServerCapabilities { resources: Some(ResourceCapabilities { subscribe: Some(true), list_changed: Some(true) }), ..old(self).server.capabilities }, *old(calls), *final(calls)),
//@loop 0
    invariant __it0.wf(), __it0.seq() == self.capability_listeners.v@, *listeners == self.capability_listeners.v, caps == (ServerCapabilities { resources: Some(ResourceCapabilities { subscribe: Some(true), list_changed: Some(true) }), ..self.server.capabilities }), told(self.capability_listeners.v@, __it0.pos() as int, caps, old(calls).log(), calls.log()),
    ensures __it0.pos() == __it0.seq().len(),
    decreases __it0.seq().len() - __it0.pos()
//@end
//@fn DynamicServerManager::remove_resource_handler ret=r mutself
//@addparam calls: &mut Calls
    ensures r is Ok, final(self).dynamic_resources.v is None, *final(self) == (DynamicServerManager { dynamic_resources: final(self).dynamic_resources, ..*old(self) }),
        told_all(*old(self), ServerCapabilities { resources: None, ..old(self).server.capabilities }, *old(calls), *final(calls)),
//@loop 0
    invariant __it0.wf(), __it0.seq() == self.capability_listeners.v@, *listeners == self.capability_listeners.v, caps == (ServerCapabilities { resources: None, ..self.server.capabilities }), told(self.capability_listeners.v@, __it0.pos() as int, caps, old(calls).log(), calls.log()),
    ensures __it0.pos() == __it0.seq().len(),
    decreases __it0.seq().len() - __it0.pos()
//@end
//@fn DynamicServerManager::set_sampling_handler ret=r mutself
//@addparam calls: &mut Calls
    ensures r is Ok, final(self).dynamic_sampling.v == Some(handler), *final(self) == (DynamicServerManager { dynamic_sampling: final(self).dynamic_sampling, ..*old(self) }),
        exists|x: SamplingCapabilities| #[trigger] told_all(*old(self), sampling_as(old(self).server.capabilities, x), *old(calls), *final(calls)),
//@loop 0
    invariant __it0.wf(), __it0.seq() == self.capability_listeners.v@, *listeners == self.capability_listeners.v, caps.sampling is Some, caps == (ServerCapabilities { sampling: caps.sampling, ..self.server.capabilities }), told(self.capability_listeners.v@, __it0.pos() as int, caps, old(calls).log(), calls.log()),
    ensures __it0.pos() == __it0.seq().len(),
    decreases __it0.seq().len() - __it0.pos()
//@afterloop 0
    proof { assert(told_all(*old(self), sampling_as(old(self).server.capabilities, caps.sampling->0), *old(calls), *calls)); }
//@end
//@fn DynamicServerManager::remove_sampling_handler ret=r mutself
//@addparam calls: &mut Calls
    ensures r is Ok, final(self).dynamic_sampling.v is None, *final(self) == (DynamicServerManager { dynamic_sampling: final(self).dynamic_sampling, ..*old(self) }),
        told_all(*old(self), ServerCapabilities { sampling: None, ..old(self).server.capabilities }, *old(calls), *final(calls)),
//@loop 0
    invariant __it0.wf(), __it0.seq() == self.capability_listeners.v@, *listeners == self.capability_listeners.v, caps == (ServerCapabilities { sampling: None, ..self.server.capabilities }), told(self.capability_listeners.v@, __it0.pos() as int, caps, old(calls).log(), calls.log()),
    ensures __it0.pos() == __it0.seq().len(),
    decreases __it0.seq().len() - __it0.pos()
//@end

/// after the first n entries of s: exactly those, each under its name
pub open spec fn tools_of(s: Seq<(String, DynamicTool)>, n: int, m: Map<String, ToolH>) -> bool {
    (forall|i: int| 0 <= i < n ==> m.contains_key((#[trigger] s[i]).0) && m[s[i].0] == s[i].1.handler)
    && forall|k: String| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < n && (#[trigger] s[i]).0 == k
}
pub open spec fn prompts_of(s: Seq<(String, DynamicPrompt)>, n: int, m: Map<String, PromptH>) -> bool {
    (forall|i: int| 0 <= i < n ==> m.contains_key((#[trigger] s[i]).0) && m[s[i].0] == s[i].1.handler)
    && forall|k: String| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < n && (#[trigger] s[i]).0 == k
}
pub open spec fn tools_are(c: Map<String, DynamicTool>, m: Map<String, ToolH>) -> bool { forall|k: String| #![trigger m.contains_key(k)] #![trigger c.contains_key(k)] m.contains_key(k) == c.contains_key(k) && (c.contains_key(k) ==> m[k] == c[k].handler) }
pub open spec fn prompts_are(c: Map<String, DynamicPrompt>, m: Map<String, PromptH>) -> bool { forall|k: String| #![trigger m.contains_key(k)] #![trigger c.contains_key(k)] m.contains_key(k) == c.contains_key(k) && (c.contains_key(k) ==> m[k] == c[k].handler) }
//@fn DynamicServerManager::reload_configuration ret=r mutself
//@addparam calls: &mut Calls
    ensures r is Ok, tools_are(config.tools@, final(self).dynamic_tools.v@), prompts_are(config.prompts@, final(self).dynamic_prompts.v@),
        final(self).dynamic_resources.v == (if config.resources is Some { config.resources } else { old(self).dynamic_resources.v }),
        final(self).dynamic_sampling.v == (if config.sampling is Some { config.sampling } else { old(self).dynamic_sampling.v }),
        final(self).server == old(self).server, final(self).capability_listeners == old(self).capability_listeners,
//@start
    let ghost cfg = config;
//@loop 0
    invariant __it0.wf(), lists_kv(__it0.seq(), cfg.tools@), tools_of(__it0.seq(), __it0.pos() as int, self.dynamic_tools.v@), *self == (DynamicServerManager { dynamic_tools: self.dynamic_tools, dynamic_prompts: self.dynamic_prompts, ..*old(self) }), self.dynamic_prompts.v@ == Map::<String, PromptH>::empty(),
    ensures __it0.pos() == __it0.seq().len(),
    decreases __it0.seq().len() - __it0.pos()
//@afterloop 0
    proof { assert(tools_are(cfg.tools@, self.dynamic_tools.v@)); }
//@loop 1
    invariant __it1.wf(), lists_kv(__it1.seq(), cfg.prompts@), prompts_of(__it1.seq(), __it1.pos() as int, self.dynamic_prompts.v@), *self == (DynamicServerManager { dynamic_tools: self.dynamic_tools, dynamic_prompts: self.dynamic_prompts, ..*old(self) }), tools_are(cfg.tools@, self.dynamic_tools.v@),
    ensures __it1.pos() == __it1.seq().len(),
    decreases __it1.seq().len() - __it1.pos()
//@afterloop 1
    proof { assert(prompts_are(cfg.prompts@, self.dynamic_prompts.v@)); }
//@end
//@fn DynamicConfigBuilder::new ret=r
    ensures r.config.tools@ == Map::<String, DynamicTool>::empty(), r.config.prompts@ == Map::<String, DynamicPrompt>::empty(), r.config.resources is None, r.config.sampling is None
//@end
//@fn DynamicConfigBuilder::tool ret=r
    ensures r.config.tools@ == self.config.tools@.insert(jstr(name.txt()), DynamicTool { handler, info }), r.config == (DynamicConfig { tools: r.config.tools, ..self.config })
//@end
//@fn DynamicConfigBuilder::prompt ret=r
    ensures r.config.prompts@ == self.config.prompts@.insert(jstr(name.txt()), DynamicPrompt { handler, info }), r.config == (DynamicConfig { prompts: r.config.prompts, ..self.config })
//@end
//@fn DynamicConfigBuilder::resources ret=r
    ensures r.config == (DynamicConfig { resources: Some(handler), ..self.config })
//@end
//@fn DynamicConfigBuilder::sampling ret=r
    ensures r.config == (DynamicConfig { sampling: Some(handler), ..self.config })
//@end
//@fn DynamicConfigBuilder::build ret=r
    ensures r == self.config
//@end
