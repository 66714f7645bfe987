#[path = "common.rs"]
mod common;
use common::*;
use pmcp::shared::batch::{process_batch_request, BatchRequest, BatchResponse};
use pmcp::types::jsonrpc::{JSONRPCError, ResponsePayload};
use pmcp::types::{JSONRPCRequest, JSONRPCResponse, RequestId};
use pmcp::utils::parallel_batch::{process_batch_parallel, process_batch_parallel_stateful, BatchProcessor, ParallelBatchConfig};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::Duration;

fn req(id: RequestId, n: usize) -> JSONRPCRequest { JSONRPCRequest { jsonrpc: "2.0".into(), id, method: format!("m{}", n), params: Some(serde_json::json!(n)) } }
fn some_id(r: &mut Rng) -> RequestId {
    match r.below(6) { 0 => RequestId::String(format!("{}", r.below(4))), 1 => RequestId::String("null".into()), 2 => RequestId::String(String::new()), 3 => RequestId::Number(i64::MIN), _ => RequestId::Number(r.below(5) as i64) }
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum K { Ok, Err, ErrTimeoutText, Hang }
fn run(rt: &tokio::runtime::Runtime, r: &mut Rng, slow: bool) {
    let n = if r.chance(10) { 0 } else if r.chance(15) { 1 } else { 1 + r.below(if slow { 8 } else { 40 }) };
    let conc = *r.pick(&[1usize, 1, 2, 3, 10, 1000]);
    let timeout = if slow { Some(120u64) } else if r.chance(50) { Some(30_000) } else { None };
    let items: Vec<(RequestId, K, u64)> = (0..n).map(|_| (some_id(r), if slow && r.chance(30) { K::Hang } else if r.chance(20) { K::Err } else if r.chance(10) { K::ErrTimeoutText } else { K::Ok }, r.below(4) as u64)).collect();
    let via = r.below(4);
    let fail_fast = r.chance(50);
    let desc = format!("{} of {} requests (id, handler answers/hangs, handler yields): {:?}; max_concurrency {}, timeout {:?}, fail_fast {}",
        ["process_batch_parallel", "BatchProcessor::process", "process_batch_request", "process_batch_parallel_stateful"][via], n, items, conc, timeout, fail_fast);
    case(&desc, n > 1, || {
        let reqs: Vec<JSONRPCRequest> = items.iter().enumerate().map(|(i, (id, _, _))| req(id.clone(), i)).collect();
        let calls = Arc::new(Mutex::new(vec![0usize; n]));
        let (cur, max) = (Arc::new(AtomicUsize::new(0)), Arc::new(AtomicUsize::new(0)));
        let it = Arc::new(items.clone());
        let (c2, cu, mx) = (calls.clone(), cur.clone(), max.clone());
        let handler = move |q: JSONRPCRequest| {
            let (c2, cu, mx, it) = (c2.clone(), cu.clone(), mx.clone(), it.clone());
            async move {
                struct D(Arc<AtomicUsize>);
                impl Drop for D { fn drop(&mut self) { self.0.fetch_sub(1, SeqCst); } }
                let i = q.params.as_ref().and_then(|v| v.as_u64()).unwrap() as usize;
                c2.lock().unwrap()[i] += 1;
                let v = cu.fetch_add(1, SeqCst) + 1;
                mx.fetch_max(v, SeqCst);
                let _d = D(cu.clone());
                for _ in 0..it[i].2 { tokio::task::yield_now().await; }
                if slow && it[i].2 == 3 { tokio::time::sleep(Duration::from_millis(10)).await; }
                match it[i].1 {
                    K::Hang => { std::future::pending::<()>().await; unreachable!() },
                    K::Ok => JSONRPCResponse { jsonrpc: "2.0".into(), id: q.id, payload: ResponsePayload::Result(serde_json::json!(i)) },
                    K::Err => JSONRPCResponse { jsonrpc: "2.0".into(), id: q.id, payload: ResponsePayload::Error(JSONRPCError::new(-32000 - i as i32, "no")) },
                    K::ErrTimeoutText => JSONRPCResponse { jsonrpc: "2.0".into(), id: q.id, payload: ResponsePayload::Error(JSONRPCError::new(-32000 - i as i32, "timeout in handler")) },
                }
            }
        };
        let cfg = ParallelBatchConfig { max_concurrency: conc, fail_fast, request_timeout_ms: timeout };
        let hang = items.iter().any(|x| x.1 == K::Hang);
        if via == 2 && hang { return; } // the default time limit is 30 s
        let got: Vec<JSONRPCResponse> = rt.block_on(async {
            match via {
                0 => process_batch_parallel(reqs.clone(), handler, cfg).await.unwrap(),
                3 => process_batch_parallel_stateful(reqs.clone(), Arc::new(tokio::sync::RwLock::new(0u8)), move |q, _s| handler(q), cfg).await.unwrap(),
                1 => {
                    let p = BatchProcessor::new(cfg);
                    let out = p.process(reqs.clone(), handler.clone()).await.unwrap();
                    let m = p.metrics().await;
                    let ok = out.iter().filter(|x| x.is_success()).count() as u64;
                    let tot = out.len() as u64;
                    ensure(&desc, m.total_requests == n as u64 && m.successful_responses == ok && m.error_responses + m.timeout_responses == tot - ok,
                        &format!("counts {} total, {} successful, {} failed", n, ok, tot - ok), &m);
                    out
                },
                _ => {
                    let b = if n == 1 && fail_fast { BatchRequest::Single(reqs[0].clone()) } else { BatchRequest::Batch(reqs.clone()) };
                    ensure(&desc, b.len() == n && b.is_empty() == (n == 0), &format!("batch length {}", n), b.len());
                    process_batch_request(b, handler).await.unwrap().into_responses()
                },
            }
        });
        ensure(&desc, got.len() == n, &format!("{} responses", n), got.len());
        for i in 0..n {
            let g = &got[i];
            ensure(&desc, g.id == items[i].0, &format!("response {} carries id {:?}", i, items[i].0), &g.id);
            let ok = match items[i].1 {
                K::Ok => g.result() == Some(&serde_json::json!(i)) || (slow && g.get_error().map_or(false, |e| e.code == -32603)),
                K::Err | K::ErrTimeoutText => g.get_error().map_or(false, |e| e.code == -32000 - i as i32 || (slow && e.code == -32603)),
                K::Hang => g.get_error().is_some(),
            };
            ensure(&desc, ok, &format!("response {} is the answer of request {}", i, i), g);
        }
        let c = calls.lock().unwrap().clone();
        ensure(&desc, c.iter().all(|x| *x == 1), "the handler is called once per request", c);
        if via != 2 { ensure(&desc, max.load(SeqCst) <= conc, &format!("at most {} requests in progress at once", conc), max.load(SeqCst)); }
    })
}
struct Echo(Arc<Mutex<Vec<String>>>);
#[async_trait::async_trait]
impl pmcp::server::ToolHandler for Echo {
    async fn handle(&self, a: serde_json::Value, _x: pmcp::server::cancellation::RequestHandlerExtra) -> pmcp::Result<serde_json::Value> {
        for _ in 0..a["wait"].as_u64().unwrap_or(0) { tokio::task::yield_now().await; }
        let t = a["tag"].as_str().unwrap_or("?").to_string();
        self.0.lock().unwrap().push(t.clone());
        if a["fail"] == true { return Err(pmcp::Error::internal("no")); }
        Ok(serde_json::json!({ "echo": t }))
    }
}
/// a batch handed to a server: every entry is answered as if it had been sent alone
fn serve(rt: &tokio::runtime::Runtime, r: &mut Rng) {
    use serde_json::json;
    let n = *r.pick(&[0usize, 1, 1, 2, 3, 7, 12, 25]);
    // (id, what it asks): 0 call, 1 failing call, 2 unknown tool, 3 unknown method, 4 wrong params, 5 no params, 6 list, 7 ping
    let what: Vec<(RequestId, usize, u64)> = (0..n).map(|_| (some_id(r), *r.pick(&[0, 0, 0, 1, 2, 3, 4, 5, 6, 7]), r.below(5) as u64)).collect();
    let single = n == 1 && r.chance(50);
    let desc = format!("Server::handle_batch_request, {} entries{} (id, 0 tool call 1 failing call 2 unknown tool 3 unknown method 4 wrong params 5 no params 6 tools/list 7 prompts/list, handler yields): {:?}", n, if single { ", a single request" } else { "" }, what);
    case(&desc, n > 1, || {
        let log = Arc::new(Mutex::new(vec![]));
        let server = Arc::new(pmcp::Server::builder().name("s").version("1").tool("echo", Echo(log.clone())).build().unwrap());
        let init = JSONRPCRequest { jsonrpc: "2.0".into(), id: RequestId::Number(-7), method: "initialize".into(), params: Some(json!({"protocolVersion": "2025-06-18", "capabilities": {}, "clientInfo": {"name": "c", "version": "1"}})) };
        let first = rt.block_on(server.handle_batch_request(BatchRequest::Single(init))).unwrap().into_responses();
        ensure(&desc, first.len() == 1 && first[0].is_success() && first[0].id == RequestId::Number(-7), "initialize is answered under its id", &first);
        let reqs: Vec<JSONRPCRequest> = what.iter().enumerate().map(|(i, (id, k, w))| {
            let (method, params) = match k {
                0 | 1 => ("tools/call", Some(json!({"name": "echo", "arguments": {"tag": format!("<{}>", i), "wait": w, "fail": *k == 1}}))),
                2 => ("tools/call", Some(json!({"name": "ech", "arguments": {"tag": format!("<{}>", i)}}))),
                3 => ("tools/Call", Some(json!({"name": "echo", "arguments": {}}))),
                4 => ("tools/call", Some(json!({"name": 5}))),
                5 => ("tools/call", None),
                6 => ("tools/list", Some(json!({}))),
                _ => ("prompts/list", Some(json!({}))),
            };
            JSONRPCRequest { jsonrpc: "2.0".into(), id: id.clone(), method: method.into(), params }
        }).collect();
        let b = if single { BatchRequest::Single(reqs[0].clone()) } else { BatchRequest::Batch(reqs) };
        let got = rt.block_on(server.handle_batch_request(b)).unwrap().into_responses();
        ensure(&desc, got.len() == n, &format!("{} responses", n), got.len());
        for (i, (g, (id, k, _))) in got.iter().zip(&what).enumerate() {
            ensure(&desc, g.id == *id, &format!("response {} carries id {:?}", i, id), &g.id);
            let text = g.result().map(|v| v.to_string());
            let ok = match k {
                0 => text.as_ref().map_or(false, |t| t.contains(&format!("<{}>", i)) && !t.contains("\"isError\":true")),
                6 => text.as_ref().map_or(false, |t| t.contains("\"echo\"")),
                7 => text.as_ref().map_or(false, |t| t.contains("prompts")),
                _ => g.get_error().is_some(),
            };
            ensure(&desc, ok, &format!("response {} is the answer of request {}", i, i), g);
        }
        let mut l = log.lock().unwrap().clone();
        let mut w: Vec<String> = what.iter().enumerate().filter(|(_, x)| x.1 < 2).map(|(i, _)| format!("<{}>", i)).collect();
        l.sort(); w.sort();
        check(&desc, w, l);
    })
}
fn main() {
    start();
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let mut r = Rng::new(6);
    case("BatchResponse::from_responses / into_responses", true, || {
        for n in 0..5 {
            let v: Vec<JSONRPCResponse> = (0..n).map(|i| JSONRPCResponse::success(RequestId::Number(i), serde_json::json!(i))).collect();
            let b = BatchResponse::from_responses(v);
            let ids: Vec<RequestId> = b.into_responses().into_iter().map(|x| x.id).collect();
            ensure("BatchResponse round trip", ids == (0..n).map(RequestId::Number).collect::<Vec<_>>(), "the same responses", ids);
        }
    });
    let mut k = 0;
    while k < 200 || time_left() { k += 1; run(&rt, &mut r, k % 40 == 3); serve(&rt, &mut r); }
    done()
}
