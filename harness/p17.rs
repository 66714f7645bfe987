#[path = "common.rs"]
mod common;
use common::*;
use pmcp::server::subscriptions::SubscriptionManager;
use pmcp::types::ServerNotification;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};

fn run(rt: &tokio::runtime::Runtime, r: &mut Rng) {
    let uris = pool(r, &["file:///a", "file:///a/", "file:///A", "file:///a?x", "", "file:///ab", " file:///a"], 3);
    let subs = pool(r, &["c1", "c2", "C1", "c11", "", "c1/", " c1"], 3);
    let n = 1 + r.below(30);
    let with_sender = r.chance(80);
    let span = 2 + r.below(6);
    let ops: Vec<(usize, usize, usize)> = (0..n).map(|_| ({ let k = if r.chance(30) { 8 } else { 3 }; r.below(k) }, r.below(span), r.below(span))).collect();
    let desc = format!("SubscriptionManager (sender {}), calls (op,uri,subscriber) with op 0-1 subscribe 2 unsubscribe 3 unsubscribe_all 4 notify 5 has 6 get_subscribers 7 get_subscriptions: {:?}; uris {:?}, subscribers {:?}", with_sender, ops, uris, subs);
    case(&desc, n > 3, || {
        let mut m = SubscriptionManager::new();
        let log: Arc<Mutex<Vec<String>>> = Arc::default();
        if with_sender {
            let l = log.clone();
            m.set_notification_sender(move |x| l.lock().unwrap().push(match x { ServerNotification::ResourceUpdated(p) => p.uri, o => format!("{:?}", o) }));
        }
        let mut model: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
        let mut sent: Vec<String> = vec![];
        let all = |m: &SubscriptionManager, model: &BTreeMap<String, BTreeSet<String>>, i: usize| {
            for u in &uris {
                let mut got = rt.block_on(m.get_subscribers(u)); got.sort();
                let want: Vec<String> = model.get(u).map(|s| s.iter().cloned().collect()).unwrap_or_default();
                ensure(&desc, got == want, &format!("after call {}: subscribers of {:?} {:?}", i, u, want), got);
                let h = rt.block_on(m.has_subscribers(u));
                ensure(&desc, h == !want.is_empty(), &format!("after call {}: has_subscribers({:?}) {}", i, u, !want.is_empty()), h);
            }
            for s in &subs {
                let mut got = rt.block_on(m.get_subscriptions(s)); got.sort();
                let want: Vec<String> = model.iter().filter(|(_, x)| x.contains(s)).map(|(u, _)| u.clone()).collect();
                ensure(&desc, got == want, &format!("after call {}: subscriptions of {:?} {:?}", i, s, want), got);
            }
            let t = rt.block_on(m.get_stats());
            let who: BTreeSet<&String> = model.values().flatten().collect();
            let want = (model.len(), model.values().map(|x| x.len()).sum::<usize>(), who.len());
            let got = (t.total_resources, t.total_subscriptions, t.unique_subscribers);
            ensure(&desc, got == want, &format!("after call {}: (resources, subscriptions, subscribers) counted {:?}", i, want), got);
        };
        for (i, (o, u, s)) in ops.iter().enumerate() {
            let (u, s) = (uris[*u].to_string(), subs[*s].to_string());
            match o {
                0 | 1 => { ensure(&desc, rt.block_on(m.subscribe(u.clone(), s.clone())).is_ok(), "Ok", i); model.entry(u).or_default().insert(s); },
                2 => { ensure(&desc, rt.block_on(m.unsubscribe(u.clone(), s.clone())).is_ok(), "Ok", i);
                    let e = match model.get_mut(&u) { Some(x) => { x.remove(&s); x.is_empty() }, None => false }; if e { model.remove(&u); } },
                3 => { ensure(&desc, rt.block_on(m.unsubscribe_all(&s)).is_ok(), "Ok", i); for x in model.values_mut() { x.remove(&s); } model.retain(|_, x| !x.is_empty()); },
                4 => {
                    let got = rt.block_on(m.notify_resource_updated(u.clone())).ok();
                    let want = model.get(&u).map_or(0, |x| x.len());
                    ensure(&desc, got == Some(want), &format!("call {} notifies {}", i, want), got);
                    if want > 0 && with_sender { sent.push(u); }
                    let l = log.lock().unwrap().clone();
                    ensure(&desc, l == sent, &format!("notifications sent {:?}", sent), l);
                },
                _ => all(&m, &model, i),
            }
        }
        all(&m, &model, ops.len());
        let l = log.lock().unwrap().clone();
        ensure(&desc, l == sent, &format!("notifications sent {:?}", sent), l);
    })
}
fn main() {
    start();
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let mut r = Rng::new(17);
    let mut k = 0;
    while k < 200 || time_left() { k += 1; run(&rt, &mut r); }
    done()
}
