#[path = "common.rs"]
mod common;
use common::*;
use pmcp::server::roots::{Root, RootsManager};
use pmcp::types::{ServerNotification, ServerRequest};
use pmcp::Error;
use std::sync::{Arc, Mutex};

const URIS: [&str; 12] = ["file:///a", "file:///b", "file://", "file:///a/", "file:///A", "file:///é", "http://a", "file:/a", "", " file:///a", "FILE:///a", "file:///a?x"];
fn run(rt: &tokio::runtime::Runtime, r: &mut Rng) {
    let with_cb = r.chance(80);
    let ops: Vec<(usize, String, Option<String>, usize)> = (0..1 + r.below(12)).map(|_| (r.below(10), r.pick(&URIS).to_string(), if r.chance(50) { Some(format!("n{}", r.below(3))) } else { None }, r.below(8))).collect();
    let desc = format!("RootsManager (callback {}): ops (0-5 register, 6-8 unregister one of the registrations, 9 through a clone; uri, name, which) {:?}", with_cb, ops);
    case(&desc, ops.len() > 1, || rt.block_on(async {
        let mut m = RootsManager::new();
        let notes: Arc<Mutex<Vec<ServerNotification>>> = Arc::new(Mutex::new(vec![]));
        let seen = notes.clone();
        if with_cb { m.set_notification_sender(move |n| seen.lock().unwrap().push(n)); }
        let mut model: Vec<Root> = vec![];
        let mut handles: Vec<(String, Box<dyn FnOnce() + Send>)> = vec![];
        let mut n = 0;
        for (k, (op, uri, name, which)) in ops.iter().enumerate() {
            let d = format!("{}; after op {}", desc, k);
            if *op >= 6 && *op < 9 && !handles.is_empty() {
                let (u, h) = handles.remove(which % handles.len());
                h();
                for _ in 0..4 { tokio::task::yield_now().await; }
                let got = m.get_roots().await;
                // one registration of that uri is gone, the others keep their place
                let ok = (0..model.len()).any(|i| model[i].uri == u && { let mut x = model.clone(); x.remove(i); x == got });
                ensure(&d, ok, &format!("one root {} less than {:?}", u, model), &got);
                model = got;
                n += 1;
            } else {
                let t = if *op == 9 { m.clone() } else { m.clone() };
                let good = uri.starts_with("file://");
                match t.register_root(uri.clone(), name.clone()).await {
                    Ok(h) => { ensure(&d, good, "refused", "registered"); handles.push((uri.clone(), Box::new(h))); model.push(Root { uri: uri.clone(), name: name.clone() }); n += 1; },
                    Err(e) => ensure(&d, !good && matches!(e, Error::Protocol { .. }), "registered", e.to_string()),
                }
            }
            check(&format!("{}: get_roots", d), model.clone(), m.get_roots().await);
            check(&format!("{}: has_roots", d), !model.is_empty(), m.has_roots().await);
            let v = notes.lock().unwrap();
            ensure(&d, v.len() == if with_cb { n } else { 0 } && v.iter().all(|x| matches!(x, ServerNotification::RootsListChanged)), &format!("{} list-changed notifications", n), v.len());
        }
        // dropping the handles takes nothing back
        handles.clear();
        for _ in 0..4 { tokio::task::yield_now().await; }
        check(&format!("{}: after the handles are dropped", desc), model, m.get_roots().await);
    }));
}
fn client(rt: &tokio::runtime::Runtime, r: &mut Rng) {
    let answers = [
        serde_json::json!({"roots": []}), serde_json::json!({"roots": [{"uri": "file:///x"}, {"uri": "file:///y", "name": "Y"}]}), serde_json::json!({"roots": [{"uri": "http://z"}]}),
        serde_json::json!({"roots": [{"name": "n"}]}), serde_json::json!({}), serde_json::json!(null), serde_json::json!([]), serde_json::json!({"roots": {}}), serde_json::json!({"roots": [], "x": 1}),
    ];
    let v = if r.chance(15) { None } else { Some(r.pick(&answers).clone()) };
    let desc = format!("RootsManager::request_client_roots, the client answers {:?}", v);
    case(&desc, true, || rt.block_on(async {
        let asked = Arc::new(Mutex::new(0usize));
        let (a, v2) = (asked.clone(), v.clone());
        let got = RootsManager::new().request_client_roots(move |q| {
            if matches!(q, ServerRequest::ListRoots) { *a.lock().unwrap() += 1; } else { *a.lock().unwrap() += 100; }
            async move { v2.ok_or_else(|| Error::internal("peer gone")) }
        }).await;
        check(&format!("{}: number of roots/list requests", desc), 1, *asked.lock().unwrap());
        let roots = |v: &serde_json::Value| -> Option<Vec<Root>> { v.get("roots")?.as_array()?.iter().map(|x| Some(Root { uri: x.get("uri")?.as_str()?.to_string(), name: x.get("name").and_then(|n| n.as_str()).map(String::from) })).collect() };
        match v.as_ref().map(|v| roots(v)) {
            None => ensure(&desc, matches!(&got, Err(Error::Internal(m)) if m == "peer gone"), "the peer's error", format!("{:?}", got.map(|x| x.roots))),
            // (serde also reads a struct from an array: [] lacks the member all the same)
            Some(None) => ensure(&desc, matches!(&got, Err(Error::Protocol { .. })), "a protocol error", format!("{:?}", got.map(|x| x.roots))),
            Some(Some(w)) => check(&desc, Some(w), got.ok().map(|x| x.roots)),
        }
    }));
}
fn main() {
    start();
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let mut r = Rng::new(18);
    while time_left() { if r.chance(10) { client(&rt, &mut r) } else { run(&rt, &mut r) } }
    done()
}
