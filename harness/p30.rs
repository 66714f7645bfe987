#[path = "common.rs"]
mod common;
use common::*;
use pmcp::server::elicitation::{ElicitInput, ElicitationContext, ElicitationManager};
use pmcp::types::elicitation::{ElicitInputRequest, ElicitInputResponse, InputType};
use pmcp::types::protocol::ServerRequest;
use pmcp::Error;
use serde_json::json;
use std::collections::HashMap;
use std::sync::Arc;
use std::time::{Duration, Instant};
use tokio::sync::mpsc;

const IDS: [&str; 6] = ["a", "b", "", "é", "a ", "ab"];
type Ans = Result<ElicitInputResponse, Error>;
fn ask(id: &str, n: usize) -> ElicitInputRequest { ElicitInputRequest { elicitation_id: id.to_string(), input_type: InputType::Text, prompt: format!("q{}", n), description: None, default: if n % 2 == 0 { Some(json!(n)) } else { None }, validation: None, metadata: HashMap::new() } }
fn shown(a: &Ans) -> String { match a { Ok(r) => format!("Ok({})", serde_json::to_string(r).unwrap()), Err(e) => format!("Err({:?})", e.error_code().map(|c| c.as_i32())) } }
fn answer(id: &str, n: usize) -> ElicitInputResponse { ElicitInputResponse { elicitation_id: id.to_string(), value: if n % 3 == 0 { None } else { Some(json!({"n": n})) }, cancelled: n % 4 == 0, error: if n % 5 == 0 { Some("e".into()) } else { None } } }
fn called_off(id: &str, m: &str) -> String { shown(&Ok(ElicitInputResponse { elicitation_id: id.to_string(), value: None, cancelled: true, error: Some(m.to_string()) })) }
struct Sess { d: Vec<String>, m: Arc<ElicitationManager>, rx: mpsc::Receiver<ServerRequest>, asked: Vec<(String, tokio::task::JoinHandle<Ans>)>, pending: HashMap<String, usize>, want: HashMap<usize, String> }
impl Sess {
    fn desc(&self) -> String { self.d.join("; ") }
    async fn settle(&mut self) {
        for _ in 0..6 { tokio::task::yield_now().await; }
        for (i, (id, h)) in self.asked.iter_mut().enumerate() {
            if let Some(w) = self.want.remove(&i) {
                match tokio::time::timeout(Duration::from_secs(5), h).await {
                    Ok(a) => check(&format!("{}: outcome of question {} ({:?})", self.d.join("; "), i, id), w, shown(&a.unwrap())),
                    Err(_) => ensure(&self.d.join("; "), false, &w, format!("question {} ({:?}) still waiting", i, id)),
                }
            }
        }
        let d = self.desc();
        for i in self.pending.values() { ensure(&d, !self.asked[*i].1.is_finished(), "an unanswered question keeps waiting", format!("question {} ended", i)); }
        check(&format!("{}: pending_count", d), self.pending.len(), self.m.pending_count().await);
    }
}
async fn session(r: &mut Rng) {
    let mut m = ElicitationManager::new();
    let (tx, rx) = mpsc::channel(64);
    m.set_request_channel(tx);
    if r.chance(50) { m.set_timeout(Duration::from_secs(60)); }
    let m = Arc::new(m);
    let ctx = Arc::new(ElicitationContext::new(m.clone()));
    let mut s = Sess { d: vec![], m: m.clone(), rx, asked: vec![], pending: HashMap::new(), want: HashMap::new() };
    for n in 0..3 + r.below(14) {
        let id = r.pick(&IDS).to_string();
        match r.below(12) {
            0..=5 => {
                s.d.push(format!("ask {:?}", id));
                let (q, m2, c2, via) = (ask(&id, n), m.clone(), ctx.clone(), r.chance(30));
                let q2 = q.clone();
                let h = tokio::spawn(async move { if via { c2.elicit_input(q2).await } else { m2.elicit_input(q2).await } });
                let got = tokio::time::timeout(Duration::from_secs(5), s.rx.recv()).await;
                match got {
                    Ok(Some(ServerRequest::ElicitInput(x))) => check(&format!("{}: question sent", s.desc()), serde_json::to_string(&q).unwrap(), serde_json::to_string(&x).unwrap()),
                    o => ensure(&s.desc(), false, "the question is sent", format!("{:?}", o)),
                }
                let i = s.asked.len();
                s.asked.push((id.clone(), h));
                if let Some(j) = s.pending.insert(id, i) { s.want.insert(j, "Err(Some(-32603))".into()); }
            },
            6..=8 => {
                let a = answer(&id, n);
                s.d.push(format!("response {:?}", a));
                let got = m.handle_response(a.clone()).await;
                match s.pending.remove(&id) {
                    Some(i) => { ensure(&s.desc(), got.is_ok(), "accepted", format!("{:?}", got)); s.want.insert(i, shown(&Ok(a))); },
                    None => check(&s.desc(), Some(-32600), got.err().and_then(|e| e.error_code()).map(|c| c.as_i32())),
                }
            },
            9..=10 => {
                s.d.push(format!("cancel {:?}", id));
                let got = m.cancel(&id).await;
                match s.pending.remove(&id) {
                    Some(i) => { ensure(&s.desc(), got.is_ok(), "accepted", format!("{:?}", got)); s.want.insert(i, called_off(&id, "Cancelled by server")); },
                    None => check(&s.desc(), Some(-32600), got.err().and_then(|e| e.error_code()).map(|c| c.as_i32())),
                }
            },
            _ => {
                s.d.push("cancel_all".into());
                m.cancel_all().await;
                for (id, i) in s.pending.drain() { s.want.insert(i, called_off(&id, "Server shutting down")); }
            },
        }
        ensure(&s.desc(), s.rx.try_recv().is_err(), "no other message to the client", "another one");
        s.settle().await;
    }
    m.cancel_all().await;
}
async fn refused(r: &mut Rng) {
    let id = *r.pick(&IDS);
    let mut m = ElicitationManager::new();
    let d = format!("ask {:?} without a channel", id);
    check(&d, "Err(Some(-32603))".to_string(), shown(&m.elicit_input(ask(id, 1)).await));
    check(&format!("{}: pending_count", d), 0, m.pending_count().await);
    let (tx, rx) = mpsc::channel(4);
    m.set_request_channel(tx);
    drop(rx);
    let d = format!("ask {:?} on a closed channel", id);
    check(&d, "Err(Some(-32603))".to_string(), shown(&m.elicit_input(ask(id, 1)).await));
    check(&format!("{}: pending_count", d), 0, m.pending_count().await);
    check(&d, Some(-32600), m.handle_response(answer(id, 1)).await.err().and_then(|e| e.error_code()).map(|c| c.as_i32()));
}
async fn late(r: &mut Rng) {
    let mut m = ElicitationManager::new();
    let (tx, mut rx) = mpsc::channel(64);
    m.set_request_channel(tx);
    let t = Duration::from_millis(30 + r.below(40) as u64);
    m.set_timeout(t);
    let m = Arc::new(m);
    let t0 = Instant::now();
    let mut hs = vec![];
    for (n, id) in IDS.iter().enumerate() { let (m2, q) = (m.clone(), ask(id, n)); hs.push((*id, tokio::spawn(async move { let r = m2.elicit_input(q).await; (r, Instant::now()) }))); }
    for _ in 0..hs.len() { rx.recv().await; }
    let k = r.below(IDS.len());
    let d = format!("timeout {:?}, six questions, the answer to {:?} comes in time", t, IDS[k]);
    let in_time = m.handle_response(answer(IDS[k], 7)).await.is_ok() ;
    let quick = t0.elapsed() < t;
    for (i, (id, h)) in hs.into_iter().enumerate() {
        let (a, at) = match tokio::time::timeout(Duration::from_secs(8), h).await { Ok(x) => x.unwrap(), Err(_) => { ensure(&d, false, "the question times out", format!("{:?} still waiting", id)); return } };
        if i == k { if quick { ensure(&d, in_time, "accepted", "refused"); check(&d, shown(&Ok(answer(id, 7))), shown(&a)); } }
        else { check(&format!("{}: outcome of {:?}", d, id), "Err(Some(-32001))".to_string(), shown(&a)); ensure(&d, at - t0 >= t, "not before its time", format!("{:?}", at - t0)); }
    }
    check(&format!("{}: pending_count after", d), 0, m.pending_count().await);
    check(&format!("{}: a late answer", d), Some(-32600), m.handle_response(answer(IDS[(k + 1) % 6], 7)).await.err().and_then(|e| e.error_code()).map(|c| c.as_i32()));
}
fn main() {
    start();
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let mut r = Rng::new(30);
    while time_left() {
        case("elicitation without a working channel", false, || rt.block_on(refused(&mut r)));
        case("elicitation timeouts", true, || rt.block_on(late(&mut r)));
        for _ in 0..60 { if time_left() { case("elicitation session", true, || rt.block_on(session(&mut r))); } }
    }
    done()
}
