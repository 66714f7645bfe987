// P27: the stdio transport. Runs itself again as a child whose stdin and stdout are pipes.
#[path = "common.rs"]
mod common;
use common::*;
use pmcp::shared::{StdioTransport, Transport, TransportMessage};
use pmcp::types::jsonrpc::ResponsePayload;
use pmcp::types::*;
use pmcp::error::{Error, TransportError};
use serde_json::{json, Value};
use std::io::{BufRead, Read, Write};
use std::process::{Command, Stdio};

fn kind(e: &Error) -> &'static str {
    match e {
        Error::Transport(TransportError::ConnectionClosed) => "closed",
        Error::Transport(TransportError::InvalidMessage(_)) => "invalid",
        Error::Transport(TransportError::Io(_)) => "io",
        _ => "other",
    }
}
/// the JSON a message stands for, made without the transport
fn value_of(m: &TransportMessage) -> Value {
    match m {
        TransportMessage::Request { id, request } => {
            let mut v = match request { Request::Client(q) => serde_json::to_value(q).unwrap(), Request::Server(q) => serde_json::to_value(q).unwrap() };
            v["jsonrpc"] = json!("2.0"); v["id"] = serde_json::to_value(id).unwrap();
            if v.get("params") == Some(&Value::Null) { v.as_object_mut().unwrap().remove("params"); }
            v
        },
        TransportMessage::Response(r) => serde_json::to_value(r).unwrap(),
        TransportMessage::Notification(n) => { let mut v = serde_json::to_value(n).unwrap(); v["jsonrpc"] = json!("2.0"); if v.get("params") == Some(&Value::Null) { v.as_object_mut().unwrap().remove("params"); } v },
    }
}
/// the message a body stands for, or none
fn message_of(b: &[u8]) -> Option<TransportMessage> {
    let v: Value = serde_json::from_slice(b).ok()?;
    let o = v.as_object()?;
    if o.contains_key("method") {
        if o.contains_key("id") {
            let q: JSONRPCRequest<Value> = serde_json::from_value(v).ok()?;
            pmcp::shared::parse_request(q).ok().map(|(id, request)| TransportMessage::Request { id, request })
        } else { pmcp::shared::parse_notification(v).ok().map(TransportMessage::Notification) }
    } else if o.contains_key("result") || o.contains_key("error") { serde_json::from_value::<JSONRPCResponse>(v).ok().map(TransportMessage::Response) }
    else { None }
}
fn same(m: &TransportMessage) -> String { let k = match m { TransportMessage::Request { .. } => "request", TransportMessage::Response(_) => "response", TransportMessage::Notification(_) => "notification" }; format!("{} {}", k, value_of(m)) }
/// what receiving does: outcome and what is left
fn receive_of(s: &[u8]) -> (String, &[u8]) {
    let mut n: Option<usize> = None;
    let mut p = 0;
    loop {
        if p >= s.len() { return ("closed".into(), &s[s.len()..]); }
        let e = s[p..].iter().position(|b| *b == b'\n').map_or(s.len(), |i| p + i + 1);
        let line = std::str::from_utf8(&s[p..e]).unwrap().trim();
        p = e;
        if line.is_empty() { break; }
        if let Some(x) = line.strip_prefix("Content-Length: ") { if let Ok(x) = x.trim().parse::<usize>() { n = Some(x); } }
    }
    let Some(n) = n else { return ("invalid".into(), &s[p..]) };
    if n > s.len() - p { return ("io".into(), &s[s.len()..]); }
    (message_of(&s[p..p + n]).map_or("invalid".into(), |m| format!("ok {}", same(&m))), &s[p + n..])
}
fn g_id(r: &mut Rng) -> RequestId { if r.chance(50) { RequestId::Number(*r.pick(&[0, -1, 7, i64::MAX, i64::MIN])) } else { RequestId::String(g_text(r)) } }
fn g_msg(r: &mut Rng) -> TransportMessage {
    match r.below(6) {
        0 | 1 => {
            let n = g_text(r);
            let v = match r.below(4) { 0 => json!({"method":"ping"}), 1 => json!({"method":"tools/call","params":{"name":n,"arguments":g_json(r, 2)}}), 2 => json!({"method":"resources/read","params":{"uri":n}}), _ => json!({"method":"initialize","params":{"protocolVersion":n,"capabilities":{},"clientInfo":{"name":n,"version":"1"}}}) };
            TransportMessage::Request { id: g_id(r), request: Request::Client(Box::new(serde_json::from_value(v).unwrap())) }
        },
        2 | 3 => TransportMessage::Response(JSONRPCResponse { jsonrpc: "2.0".into(), id: g_id(r), payload: if r.chance(60) { ResponsePayload::Result(g_json(r, 3)) } else { ResponsePayload::Error(pmcp::types::jsonrpc::JSONRPCError { code: -32000 - r.below(5) as i32, message: g_text(r), data: if r.chance(50) { Some(json!({"k": g_text(r)})) } else { None } }) } }),
        4 => TransportMessage::Notification(Notification::Client(ClientNotification::Initialized)),
        _ => TransportMessage::Notification(serde_json::from_value::<ClientNotification>(json!({"method":"notifications/progress","params":{"progressToken":"t","progress":r.below(9)}})).map(Notification::Client).unwrap_or(Notification::Client(ClientNotification::RootsListChanged))),
    }
}
fn frame(b: &[u8]) -> Vec<u8> { let mut v = format!("Content-Length: {}\r\n\r\n", b.len()).into_bytes(); v.extend_from_slice(b); v }

fn child_receive() -> ! {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    rt.block_on(async {
        let mut t = StdioTransport::new();
        let mut closed = 0;
        for _ in 0..200 {
            let c = t.is_connected();
            let o = match t.receive().await { Ok(m) => format!("ok {}", same(&m)), Err(e) => kind(&e).to_string() };
            eprintln!("{} {}", if c { "up" } else { "down" }, o.replace('\n', "\\n"));
            if o == "closed" { closed += 1; if closed == 2 { break; } }
        }
    });
    std::process::exit(0)
}
fn script(seed: u64) -> Vec<Option<TransportMessage>> {
    let mut r = Rng(seed | 1);
    let mut v: Vec<Option<TransportMessage>> = (0..1 + r.below(6)).map(|_| Some(g_msg(&mut r))).collect();
    if r.chance(40) { let i = r.below(v.len() + 1); v.insert(i, None); }
    v
}
fn child_send(seed: u64) -> ! {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    rt.block_on(async {
        let mut t = StdioTransport::new();
        for m in script(seed) {
            let o = match m { Some(m) => t.send(m).await.map(|_| "ok".to_string()), None => t.close().await.map(|_| "ok".to_string()) };
            eprintln!("{} {}", o.unwrap_or_else(|e| kind(&e).to_string()), if t.is_connected() { "up" } else { "down" });
        }
    });
    // not through Drop: what was not flushed is lost
    std::process::exit(0)
}
fn child(mode: &str, arg: u64) -> std::process::Child {
    Command::new(std::env::current_exe().unwrap()).arg(mode).arg(arg.to_string()).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().unwrap()
}
fn sending(r: &mut Rng) {
    let seed = r.next() | 1;
    let s = script(seed);
    let desc = format!("StdioTransport sends {:?} (None: close)", s);
    case(&desc, s.len() > 2, || {
        let c = child("child-send", seed).wait_with_output().unwrap();
        let (mut want, mut outs, mut shut) = (vec![], vec![], false);
        for m in &s {
            match m {
                None => { shut = true; outs.push("ok down".to_string()); },
                Some(_) if shut => outs.push("closed down".to_string()),
                Some(m) => {
                    let b = StdioTransport::serialize_message(m).unwrap();
                    check(&desc, value_of(m), serde_json::from_slice(&b).unwrap_or(Value::Null));
                    want.extend(frame(&b)); outs.push("ok up".to_string());
                },
            }
        }
        check(&format!("{}: outcomes", desc), outs.join("\n"), String::from_utf8_lossy(&c.stderr).trim().to_string());
        check(&format!("{}: bytes written", desc), String::from_utf8_lossy(&want).to_string(), String::from_utf8_lossy(&c.stdout).to_string());
    });
}
fn header(r: &mut Rng, n: usize) -> Vec<u8> {
    let mut h = String::new();
    let nl = |r: &mut Rng| if r.chance(60) { "\r\n" } else { "\n" };
    let other = |r: &mut Rng| ["Content-Type: application/json", "content-length: 3", "Content-Length:3", "Content-Length: ", "Content-Length: x", "Content-Length: -1", "Content-Length: 99999999999999999999999", "X", "Content-Length : 4", "XContent-Length: 4", "{\"jsonrpc\":\"2.0\"}", "Content-Length: 1 2", "é: 5"][r.below(13)].to_string();
    for _ in 0..r.below(3) { h += &other(r); h += nl(r); }
    if r.chance(25) { h += &format!("Content-Length: {}", r.below(40)); h += nl(r); }
    if r.chance(90) {
        let (pre, post) = (["", "", " ", "  "][r.below(4)], ["", "", " ", "\t"][r.below(4)]);
        let num = match r.below(8) { 0 => format!("0{}", n), 1 => format!("+{}", n), 2 => format!(" {}", n), _ => n.to_string() };
        h += &format!("{}Content-Length: {}{}{}", pre, num, post, nl(r));
    }
    for _ in 0..r.below(2) { h += &other(r); h += nl(r); }
    if r.chance(10) { h += "  "; }
    h += nl(r);
    h.into_bytes()
}
fn receiving(r: &mut Rng) {
    let mut parts: Vec<Vec<u8>> = vec![];
    for _ in 0..1 + r.below(5) {
        let b: Vec<u8> = match r.below(10) {
            0 => b"".to_vec(),
            1 => g_text(r).into_bytes(),
            2 => serde_json::to_vec(&g_json(r, 3)).unwrap(),
            3 => serde_json::to_vec(&json!({"jsonrpc":"2.0","id":r.below(3),"method":*r.pick(&["tools/list","nope","ping","initialize"]),"result":{}})).unwrap(),
            4 => serde_json::to_vec(&json!({"jsonrpc":"2.0","method":*r.pick(&["notifications/initialized","nope","ping"])})).unwrap(),
            5 => serde_json::to_vec(&json!({"jsonrpc":*r.pick(&["2.0","1.0"]),"id":r.pick(&[json!(1),json!("x"),json!(null)]),"error":{"code":1,"message":g_text(r)}})).unwrap(),
            _ => { let mut b = serde_json::to_vec(&value_of(&g_msg(r))).unwrap(); if r.chance(20) { b.extend_from_slice(b"\r\n \n"); } b },
        };
        let mut n = b.len();
        if r.chance(8) { n += 1 + r.below(30); }
        if r.chance(6) { n = n.saturating_sub(1 + r.below(3)); }
        if r.chance(6) { n = *r.pick(&[usize::MAX, usize::MAX / 2, usize::MAX / 2 + 1, 1 << 45, 1 << 62]); }
        let mut p = if r.chance(60) { format!("Content-Length: {}\r\n\r\n", n).into_bytes() } else { header(r, n) };
        p.extend(b);
        parts.push(p);
    }
    if r.chance(25) { let l = parts.last_mut().unwrap(); let k = r.below(l.len() + 1); l.truncate(k); while std::str::from_utf8(l).is_err() { l.pop(); } }
    if r.chance(30) { let big = frame(&serde_json::to_vec(&json!({"jsonrpc":"2.0","id":1,"result":"é".repeat(3000 + r.below(9000))})).unwrap()); let i = r.below(parts.len() + 1); parts.insert(i, big); }
    let all: Vec<u8> = parts.concat();
    // where a wrong length leaves the reader inside a character the line is not UTF-8: left out
    let mut outs = vec![];
    let mut rest: &[u8] = &all;
    loop {
        if std::panic::catch_unwind(|| receive_of(rest)).is_err() { return; }
        let (o, t) = receive_of(rest);
        outs.push(format!("up {}", o.replace('\n', "\\n")));
        if o == "closed" { break; }
        rest = t;
    }
    outs.push("down closed".into());
    let step = r.chance(40);
    let chunk = *r.pick(&[1usize, 3, 7, 64, 100_000, 100_000]);
    let text: String = String::from_utf8_lossy(&all).chars().take(1500).collect();
    let desc = format!("StdioTransport receives {:?}", text);
    case(&desc, parts.len() > 1, || {
        let mut c = child("child-receive", 0);
        let mut i = c.stdin.take().unwrap();
        let mut e = std::io::BufReader::new(c.stderr.take().unwrap());
        let mut got: Vec<String> = vec![];
        // a message is delivered once its frame is there, without waiting for more input
        let mut used = 0usize;
        let mut rest: &[u8] = &all;
        if step {
            loop {
                let (o, t) = receive_of(rest);
                if o == "closed" || o == "io" { break; }
                // a last line without its end is only known to be over once the input ends
                if o == "invalid" && t.is_empty() && rest.last() != Some(&b'\n') { break; }
                let to = all.len() - t.len();
                i.write_all(&all[used..to]).unwrap(); i.flush().unwrap();
                used = to; rest = t;
                let mut l = String::new(); e.read_line(&mut l).unwrap();
                got.push(l.trim_end_matches('\n').to_string());
                if got.len() > 50 { break; }
            }
        }
        let tail = all[used..].to_vec();
        let w = std::thread::spawn(move || { let small = chunk < 8 && tail.len() < 3000; for (k, p) in tail.chunks(if chunk < 8 && !small { 1000 } else { chunk }).enumerate() { if i.write_all(p).is_err() { break; } let _ = i.flush(); if small && k % 40 == 0 { std::thread::sleep(std::time::Duration::from_micros(300)); } } });
        let mut s = String::new();
        e.read_to_string(&mut s).unwrap();
        w.join().unwrap();
        let st = c.wait().unwrap();
        got.extend(s.lines().map(|x| x.to_string()));
        ensure(&desc, st.success() || !s.contains("panicked"), "no panic", &s);
        check(&format!("{}: outcomes", desc), outs.clone(), got);
    });
}
fn parsing(r: &mut Rng) {
    let mut b = match r.below(4) { 0 => serde_json::to_vec(&g_json(r, 3)).unwrap(), _ => serde_json::to_vec(&value_of(&g_msg(r))).unwrap() };
    if r.chance(30) && !b.is_empty() { let i = r.below(b.len()); match r.below(3) { 0 => { b.remove(i); }, 1 => b.insert(i, r.below(256) as u8), _ => b[i] = r.below(256) as u8 } }
    let desc = format!("StdioTransport::parse_message({:?})", String::from_utf8_lossy(&b));
    case(&desc, b.len() > 4, || {
        let got = match StdioTransport::parse_message(&b) { Ok(m) => same(&m), Err(e) => kind(&e).to_string() };
        check(&desc, message_of(&b).map_or("invalid".to_string(), |m| same(&m)), got);
    });
    let m = g_msg(r);
    let desc = format!("StdioTransport::serialize_message({:?})", m);
    case(&desc, true, || {
        let b = StdioTransport::serialize_message(&m).unwrap();
        check(&desc, value_of(&m), serde_json::from_slice(&b).unwrap_or(Value::Null));
    });
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() > 2 { match a[1].as_str() { "child-receive" => child_receive(), "child-send" => child_send(a[2].parse().unwrap()), _ => {} } }
    start();
    let mut r = Rng::new(27);
    while time_left() { receiving(&mut r); sending(&mut r); for _ in 0..40 { parsing(&mut r); } }
    done()
}
