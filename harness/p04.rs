#[path = "common.rs"]
mod common;
use common::*;
use pmcp::server::streamable_http_server::{EventStore, InMemoryEventStore};
use pmcp::shared::TransportMessage;
use pmcp::types::{JSONRPCResponse, RequestId};
use serde_json::json;

fn msg(n: usize) -> TransportMessage { TransportMessage::Response(JSONRPCResponse::success(RequestId::Number(n as i64), json!({ "n": n }))) }
fn show(m: &TransportMessage) -> String { serde_json::to_string(m).unwrap() }
async fn session(r: &mut Rng) {
    let s = InMemoryEventStore::default();
    let streams = ["s", "s1", "", "S", "é", "s ", "s/", "ss"];
    let nstreams = 1 + r.below(streams.len());
    let mut hist: Vec<(String, String, String)> = vec![];
    let mut d: Vec<String> = vec![];
    // a long stream now and then
    if r.chance(2) {
        let st = streams[r.below(nstreams)];
        let k = 300 + r.below(2500);
        d.push(format!("store {} events under {:?}", k, st));
        for n in 0..k { let id = format!("m{}", n); s.store_event(st, &id, &msg(n)).await.unwrap(); hist.push((st.to_string(), id, show(&msg(n)))); }
    }
    for n in 0..1 + r.below(24) {
        match r.below(5) {
            0..=2 => {
                let st = streams[r.below(nstreams)];
                // ids that look alike, and ids equal to stream names
                let mut id = match r.below(8) { 6 | 7 if !hist.is_empty() => { let b = hist[r.below(hist.len())].1.clone(); near(r, &b) }, 0 => format!("e{}", n), 1 => format!("e{}", n % 3), 2 => format!("e{} ", n), 3 => "s".to_string(), 4 => String::new(), _ => format!("{}", n) };
                if hist.iter().any(|h| h.1 == id) { id = format!("u-{}", n); }
                d.push(format!("store {:?} under {:?}", id, st));
                ensure(&d.join("; "), s.store_event(st, &id, &msg(n)).await.is_ok(), "ok", "err");
                hist.push((st.to_string(), id, show(&msg(n))));
            },
            3 => {
                let id = if !hist.is_empty() && r.chance(25) { let b = hist[r.below(hist.len())].1.clone(); near(r, &b) } else if hist.is_empty() || r.chance(15) { r.pick(&["zz", "", "s", "e"]).to_string() } else { hist[r.below(hist.len())].1.clone() };
                d.push(format!("replay after {:?}", id));
                let from = hist.iter().position(|h| h.1 == id).map_or(0, |p| p + 1);
                let want: Vec<(String, String)> = hist[from..].iter().map(|h| (h.1.clone(), h.2.clone())).collect();
                let got: Vec<(String, String)> = s.replay_events_after(&id).await.unwrap().into_iter().map(|(i, m)| (i, show(&m))).collect();
                check(&d.join("; "), want, got);
            },
            _ => {
                let id = if !hist.is_empty() && r.chance(25) { let b = hist[r.below(hist.len())].1.clone(); near(r, &b) } else if hist.is_empty() || r.chance(15) { r.pick(&["zz", "", "s", "e"]).to_string() } else { hist[r.below(hist.len())].1.clone() };
                d.push(format!("stream of {:?}", id));
                check(&d.join("; "), hist.iter().find(|h| h.1 == id).map(|h| h.0.clone()), s.get_stream_for_event(&id).await.unwrap());
            },
        }
    }
}
fn main() {
    start();
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let mut r = Rng::new(4);
    while time_left() { case("event store session", true, || rt.block_on(session(&mut r))); }
    done()
}
