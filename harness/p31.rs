#[path = "common.rs"]
mod common;
use common::*;
use pmcp::server::cancellation::RequestHandlerExtra;
use pmcp::server::dynamic::{DynamicConfigBuilder, DynamicServerManager};
use pmcp::server::{PromptHandler, ResourceHandler, SamplingHandler, ToolHandler};
use pmcp::types::*;
use pmcp::{Error, Server};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::sync::{Arc, Mutex};

/// its name is its argument-independent answer
struct H(usize);
#[async_trait::async_trait]
impl ToolHandler for H { async fn handle(&self, _: Value, _: RequestHandlerExtra) -> pmcp::Result<Value> { Ok(json!(self.0)) } }
#[async_trait::async_trait]
impl PromptHandler for H { async fn handle(&self, _: HashMap<String, String>, _: RequestHandlerExtra) -> pmcp::Result<GetPromptResult> { Ok(GetPromptResult { description: Some(self.0.to_string()), messages: vec![] }) } }
#[async_trait::async_trait]
impl ResourceHandler for H {
    async fn read(&self, _: &str, _: RequestHandlerExtra) -> pmcp::Result<ReadResourceResult> { Err(Error::internal("x")) }
    async fn list(&self, _: Option<String>, _: RequestHandlerExtra) -> pmcp::Result<ListResourcesResult> { Err(Error::internal("x")) }
}
#[async_trait::async_trait]
impl SamplingHandler for H { async fn create_message(&self, _: CreateMessageParams, _: RequestHandlerExtra) -> pmcp::Result<CreateMessageResult> { Err(Error::internal("x")) } }
const NAMES: [&str; 7] = ["a", "b", "", "A", "a ", "é", "s"];
fn tinfo(n: &str) -> ToolInfo { ToolInfo { name: n.to_string(), description: None, input_schema: json!({}) } }
fn pinfo(n: &str) -> PromptInfo { PromptInfo { name: n.to_string(), description: None, arguments: None } }
fn x() -> RequestHandlerExtra { RequestHandlerExtra::new("r".into(), Default::default()) }
type Told = Arc<Mutex<Vec<(usize, String)>>>;
async fn state(m: &DynamicServerManager) -> (BTreeMap<String, usize>, BTreeMap<String, usize>) {
    let (mut t, mut p) = (BTreeMap::new(), BTreeMap::new());
    for (k, h) in m.get_dynamic_tools().await { t.insert(k, h.handle(json!(null), x()).await.unwrap().as_u64().unwrap() as usize); }
    for (k, h) in m.get_dynamic_prompts().await { p.insert(k, h.handle(HashMap::new(), x()).await.unwrap().description.unwrap().parse().unwrap()); }
    (t, p)
}
async fn session(r: &mut Rng) {
    let mut b = Server::builder().name("n").version("1");
    let base = ServerCapabilities { tools: if r.chance(50) { Some(ToolCapabilities { list_changed: Some(false) }) } else { None }, resources: if r.chance(50) { Some(ResourceCapabilities { subscribe: Some(false), list_changed: None }) } else { None }, logging: if r.chance(50) { Some(LoggingCapabilities::default()) } else { None }, experimental: Some([("k".to_string(), json!(r.below(5)))].into_iter().collect()), ..Default::default() };
    b = b.capabilities(base.clone());
    let st = r.chance(60);
    if st { b = b.tool("s", H(900)).prompt("s", H(901)); }
    let m = DynamicServerManager::new(Arc::new(b.build().unwrap()));
    let told: Told = Default::default();
    let (mut tools, mut prompts): (BTreeMap<String, usize>, BTreeMap<String, usize>) = Default::default();
    let mut listeners = 0;
    let mut d: Vec<String> = vec![format!("a server declaring {}{}", serde_json::to_string(&base).unwrap(), if st { " with a static tool and prompt \"s\"" } else { "" })];
    let show = |c: &ServerCapabilities| serde_json::to_string(c).unwrap();
    for n in 0..3 + r.below(16) {
        told.lock().unwrap().clear();
        let name = r.pick(&NAMES).to_string();
        let mut want: Option<ServerCapabilities> = None;
        let mut any_order: Option<Vec<ServerCapabilities>> = None;
        match r.below(14) {
            0..=2 => { d.push(format!("add_tool {:?} #{}", name, n)); ensure(&d.join("; "), m.add_tool(name.clone(), Arc::new(H(n)), tinfo(&name)).await.is_ok(), "ok", "err"); tools.insert(name, n); want = Some(ServerCapabilities { tools: Some(ToolCapabilities { list_changed: Some(true) }), ..base.clone() }); },
            3..=4 => { d.push(format!("remove_tool {:?}", name)); let g = m.remove_tool(&name).await; let had = tools.remove(&name).is_some(); check(&d.join("; "), if had { None } else { Some(Some(-32600)) }, g.err().map(|e| e.error_code().map(|c| c.as_i32()))); if had { want = Some(base.clone()); } },
            5..=6 => { d.push(format!("add_prompt {:?} #{}", name, n)); ensure(&d.join("; "), m.add_prompt(name.clone(), Arc::new(H(n)), pinfo(&name)).await.is_ok(), "ok", "err"); prompts.insert(name, n); want = Some(ServerCapabilities { prompts: Some(PromptCapabilities { list_changed: Some(true) }), ..base.clone() }); },
            7 => { d.push(format!("remove_prompt {:?}", name)); let g = m.remove_prompt(&name).await; let had = prompts.remove(&name).is_some(); check(&d.join("; "), if had { None } else { Some(Some(-32600)) }, g.err().map(|e| e.error_code().map(|c| c.as_i32()))); if had { want = Some(base.clone()); } },
            8 => { d.push("set_resource_handler".into()); ensure(&d.join("; "), m.set_resource_handler(Arc::new(H(n))).await.is_ok(), "ok", "err"); want = Some(ServerCapabilities { resources: Some(ResourceCapabilities { subscribe: Some(true), list_changed: Some(true) }), ..base.clone() }); },
            9 => { d.push("remove_resource_handler".into()); ensure(&d.join("; "), m.remove_resource_handler().await.is_ok(), "ok", "err"); want = Some(ServerCapabilities { resources: None, ..base.clone() }); },
            10 => { if r.chance(50) { d.push("set_sampling_handler".into()); ensure(&d.join("; "), m.set_sampling_handler(Arc::new(H(n))).await.is_ok(), "ok", "err"); want = Some(ServerCapabilities { sampling: Some(SamplingCapabilities::default()), ..base.clone() }); } else { d.push("remove_sampling_handler".into()); ensure(&d.join("; "), m.remove_sampling_handler().await.is_ok(), "ok", "err"); want = Some(ServerCapabilities { sampling: None, ..base.clone() }); } },
            11 => { d.push("add_capability_listener".into()); let (t, k) = (told.clone(), listeners); m.add_capability_listener(move |c: &ServerCapabilities| t.lock().unwrap().push((k, serde_json::to_string(c).unwrap()))).await; listeners += 1; },
            12 => {
                // reload
                let mut cb = DynamicConfigBuilder::new();
                let (mut t2, mut p2): (BTreeMap<String, usize>, BTreeMap<String, usize>) = Default::default();
                let mut caps = vec![];
                for i in 0..r.below(4) { let nm = r.pick(&NAMES).to_string(); cb = cb.tool(nm.clone(), Arc::new(H(100 + i)), tinfo(&nm)); t2.insert(nm, 100 + i); }
                for i in 0..r.below(4) { let nm = r.pick(&NAMES).to_string(); cb = cb.prompt(nm.clone(), Arc::new(H(200 + i)), pinfo(&nm)); p2.insert(nm, 200 + i); }
                for _ in 0..t2.len() { caps.push(ServerCapabilities { tools: Some(ToolCapabilities { list_changed: Some(true) }), ..base.clone() }); }
                for _ in 0..p2.len() { caps.push(ServerCapabilities { prompts: Some(PromptCapabilities { list_changed: Some(true) }), ..base.clone() }); }
                if r.chance(40) { cb = cb.resources(Arc::new(H(300))); caps.push(ServerCapabilities { resources: Some(ResourceCapabilities { subscribe: Some(true), list_changed: Some(true) }), ..base.clone() }); }
                if r.chance(40) { cb = cb.sampling(Arc::new(H(301))); caps.push(ServerCapabilities { sampling: Some(SamplingCapabilities::default()), ..base.clone() }); }
                d.push(format!("reload_configuration tools {:?} prompts {:?}", t2, p2));
                ensure(&d.join("; "), m.reload_configuration(cb.build()).await.is_ok(), "ok", "err");
                tools = t2; prompts = p2;
                any_order = Some(caps);
            },
            _ => {},
        }
        let dd = d.join("; ");
        let got = told.lock().unwrap().clone();
        match (want, any_order) {
            (Some(c), _) => check(&format!("{}: listeners told", dd), (0..listeners).map(|k| (k, show(&c))).collect::<Vec<_>>(), got),
            (_, Some(cs)) => { let mut w: Vec<(usize, String)> = cs.iter().flat_map(|c| (0..listeners).map(|k| (k, show(c))).collect::<Vec<_>>()).collect(); let mut g = got; w.sort(); g.sort(); check(&format!("{}: listeners told (in any order)", dd), w, g); },
            _ => check(&format!("{}: listeners told", dd), Vec::<(usize, String)>::new(), got),
        }
        check(&format!("{}: dynamic tools and prompts", dd), (tools.clone(), prompts.clone()), state(&m).await);
        for n in NAMES {
            check(&format!("{}: has_tool {:?}", dd, n), tools.contains_key(n) || (st && n == "s"), m.has_tool(n).await);
            check(&format!("{}: has_prompt {:?}", dd, n), prompts.contains_key(n) || (st && n == "s"), m.has_prompt(n).await);
        }
    }
}
fn main() {
    start();
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let mut r = Rng::new(31);
    while time_left() { case("dynamic registration session", true, || rt.block_on(session(&mut r))); }
    done()
}
