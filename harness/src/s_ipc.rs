//! C07-C13, C22-C24
use crate::mem::{hub, pair, Item, LOpt, MemListener, Op, Opt, Peer};
use crate::rng::Rng;
use crate::s_payload::{Bad, Rev};
use crate::wire::{self, Frame};
use crate::{ensure, run, Scenario, R};
use bromine::context::{Context, PoolGuard};
use bromine::event::{Event, EventType};
use bromine::event_handler::{EventHandler, Response};
#[allow(unused_imports)]
use bromine::callback;
use bromine::namespace::Namespace;
use bromine::provider_trait::NamespaceProvider;
use bromine::payload::*;
use bromine::prelude::{IPCBuilder, IPCError, IPCResult};
use bromine::trait_bound_typemap::{TypeMap, TypeMapKey};
use futures_core::Stream;
use std::future::poll_fn;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::time::Duration;

type B = IPCBuilder<MemListener>;

pub fn all() -> Vec<(&'static str, Vec<Scenario>)> {
    vec![
        ("C07", vec![("what emits carry", 150, emits), ("emits of handlers are replies", 100, handler_emits)]),
        ("C08", vec![("concurrent emits write whole frames", 150, concurrent), ("failing writes and flushes", 200, failing_emits), ("emits of handlers", 100, each_flushed)]),
        ("C09", vec![("where received events go", 200, routing), ("replies to a listener that does not read", 40, unread)]),
        ("C10", vec![("closing replies", 200, closing), ("closing replies that cannot be sent", 60, closing_fail)]),
        ("C11", vec![("registered handlers", 200, registry), ("registered namespaces", 100, namespaces), ("registration macros", 60, macros)]),
        ("C12", vec![("awaiting replies", 250, awaiting), ("a reply before the emit is written", 60, early_reply), ("no time for replies", 40, zero_limits), ("awaiting a reply when sending fails", 60, await_fail)]),
        ("C13", vec![("reply streams", 250, streams), ("an item before the emit is written", 60, early_item), ("no time for replies", 40, zero_limits), ("a reply stream when sending fails", 60, stream_fail)]),
        ("C22", vec![("pool guards", 150, pool), ("pool guards in many threads", 4, pool_threads), ("very many guards", 3, many_guards)]),
        ("C23", vec![("incomplete builders", 10, incomplete), ("configured clients and servers", 100, configured), ("configured pools", 60, configured_pool), ("configured servers", 60, configured_server), ("TCP and Unix sockets", 6, sockets)]),
        ("C24", vec![("stopping", 100, stopping)]),
    ]
}

const MS: fn(u64) -> Duration = Duration::from_millis;

async fn settle() {
    tokio::time::sleep(MS(1)).await
}

fn addr() -> u64 {
    7
}

fn set(rng: &mut Rng) {
    let h = hub(addr());
    let mut h = h.lock().unwrap();
    h.seed = rng.next();
    h.chunk = rng.pick(&[0, 0, 1, 7, 40]);
    h.pend = rng.pick(&[0, 0, 30, 60]);
}

async fn client(b: B) -> Result<(Context, Peer), String> {
    let c = b.address(addr()).build_client().await.map_err(|e| e.to_string())?;
    let p = hub(addr()).lock().unwrap().peers.pop_front().ok_or("no connection was opened")?;
    Ok((c, p))
}

/// what handlers were called with
type Log = Arc<Mutex<Vec<String>>>;

fn seen(l: &Log) -> Vec<String> {
    std::mem::take(&mut *l.lock().unwrap())
}

macro_rules! logged {
    ($log:expr, $tag:expr) => {{
        let (log, tag) = ($log.clone(), $tag.to_string());
        move |_c, e: Event| {
            let (log, tag) = (log.clone(), tag.clone());
            Box::pin(async move {
                log.lock().unwrap().push(format!("{}:{}:{}", tag, e.name(), e.id()));
                Ok(Response::empty())
            })
        }
    }};
}

fn logging<F>(f: F) -> F
where
    F: for<'a> Fn(&'a Context, Event) -> Pin<Box<dyn std::future::Future<Output = IPCResult<Response>> + Send + 'a>> + Send + Sync + 'static,
{
    f
}

fn names(rng: &mut Rng) -> String {
    let n = rng.pick(&[0, 1, 3, 8, 200]);
    rng.text(n)
}

fn opt_ns(rng: &mut Rng) -> Option<String> {
    if rng.chance(50) {
        let n = 1 + rng.below(9);
        Some(rng.text(n))
    } else {
        None
    }
}

fn is_frame(f: &Frame, ty: u8, id: Option<u64>, r: Option<u64>, ns: Option<&str>, name: &str, payload: &[u8]) -> R {
    ensure!(f.ty == ty, "type {} instead of {}", f.ty, ty);
    ensure!(id.map_or(true, |i| i == f.id), "id {} instead of {:?}", f.id, id);
    ensure!(f.ref_id == r, "reference {:?} instead of {:?}", f.ref_id, r);
    ensure!(f.ns.as_deref() == ns, "namespace {:?} instead of {:?}", f.ns, ns);
    ensure!(f.name == name, "name {:?} instead of {:?}", f.name, name);
    ensure!(f.payload == payload, "payload {:02x?} instead of {:02x?}", &f.payload[..f.payload.len().min(40)], &payload[..payload.len().min(40)]);
    Ok(())
}

// ------------------------------------------------------------------ C07

fn emits(rng: &mut Rng) -> R {
    set(rng);
    let mut rng = rng.clone();
    run(async move {
        let (c, mut p) = client(B::new()).await?;
        for _ in 0..6 {
            let (ns, name) = (opt_ns(&mut rng), names(&mut rng));
            let n = if rng.chance(95) { rng.pick(&[0, 1, 5, 3000]) } else { rng.pick(&[70_000, 1_100_000]) };
            if n > 10_000 {
                p.ctl.lock().unwrap().chunk = 0;
            }
            let d = rng.bytes(n);
            let c = if rng.chance(30) { c.clone() } else { c.clone().clone() };
            let rev: Vec<u8> = d.iter().rev().cloned().collect();
            let (r, want) = match (&ns, rng.below(3)) {
                (None, 0) => (c.emit(&name, Rev(d.clone())).await, rev),
                (None, _) => (c.emit(name.as_str(), BytePayload::new(d.clone())).await, d.clone()),
                (Some(ns), 0) => (c.emit_to(ns, &name, Rev(d.clone())).await, rev),
                (Some(ns), _) => (c.emit_to(ns.clone(), name.as_str(), BytePayload::new(d.clone())).await, d.clone()),
            };
            let id = r.map_err(|e| format!("emit: {}", e))?;
            let f = p.frame().await?;
            is_frame(&f, wire::INITIATOR, Some(id), None, ns.as_deref(), &name, &want)?;
            // a payload that does not convert
            let r = if rng.chance(50) { c.emit(&name, Bad("no")).await } else { c.emit_to("ns", &name, Bad("no")).await };
            ensure!(matches!(&r, Err(IPCError::Message(m)) if m == "no"), "emit of a failing payload: {:?}", r);
            let r = c.emit(&name, Bad("no")).await_reply().await;
            ensure!(matches!(&r, Err(IPCError::Message(m)) if m == "no"), "await_reply of a failing payload: {:?}", r.is_ok());
            settle().await;
            ensure!(p.now().is_empty(), "a failing payload sends something");
        }
        Ok(())
    })
}

fn handler_emits(rng: &mut Rng) -> R {
    set(rng);
    let mut rng = rng.clone();
    run(async move {
        let keep: Arc<Mutex<Option<Context>>> = Default::default();
        let k = keep.clone();
        let plan: Arc<Mutex<(String, String, String)>> = Default::default();
        let pl = plan.clone();
        let b = B::new().on("ask", move |c, e: Event| {
            let k = k.clone();
            let (one, space, two) = pl.lock().unwrap().clone();
            Box::pin(async move {
                *k.lock().unwrap() = Some(c.clone());
                c.emit(one, BytePayload::new(e.data_raw().to_vec())).await?;
                c.emit_to(space, two, BytePayload::new(vec![2])).await?;
                if !matches!(c.emit("bad", Bad("part")).await, Err(IPCError::Message(_))) || !matches!(c.emit_to("bad", "bad", Bad("part")).await, Err(IPCError::Message(_))) {
                    return Err(IPCError::Message("a payload that does not convert was sent".into()));
                }
                let t = c.clone();
                let _ = t.emit("three", BytePayload::new(vec![3])).await?;
                Ok(Response::empty())
            })
        });
        let (c, mut p) = client(b).await?;
        for _ in 0..3 {
            let id = rng.u64();
            let d = rng.bytes(9);
            let r = if rng.chance(50) { Some(rng.u64()) } else { None };
            let (one, two) = (names(&mut rng), names(&mut rng));
            let n = 1 + rng.below(20);
            let space = rng.text(n);
            *plan.lock().unwrap() = (one.clone(), space.clone(), two.clone());
            p.send(&Frame::new(rng.pick(&[0, 1, 3]), id, r, None, "ask", &d).bytes());
            is_frame(&p.frame().await?, wire::RESPONSE, None, Some(id), None, &one, &d)?;
            is_frame(&p.frame().await?, wire::RESPONSE, None, Some(id), Some(&space), &two, &[2])?;
            is_frame(&p.frame().await?, wire::RESPONSE, None, Some(id), None, "three", &[3])?;
            is_frame(&p.frame().await?, wire::END, None, Some(id), None, "end", &[])?;
            // the context of the client itself and the one of the handler later on
            c.emit("own", BytePayload::new(vec![])).await.map_err(|e| e.to_string())?;
            is_frame(&p.frame().await?, wire::INITIATOR, None, None, None, "own", &[])?;
            let h = keep.lock().unwrap().clone().unwrap();
            h.emit("late", BytePayload::new(vec![1])).await.map_err(|e| e.to_string())?;
            is_frame(&p.frame().await?, wire::RESPONSE, None, Some(id), None, "late", &[1])?;
        }
        Ok(())
    })
}

// ------------------------------------------------------------------ C08

fn concurrent(rng: &mut Rng) -> R {
    set(rng);
    let mut rng = rng.clone();
    run(async move {
        let (c, mut p) = client(B::new()).await?;
        let mut hs = vec![];
        for i in 0..3 + rng.below(6) {
            let c = c.clone();
            let n = if rng.chance(97) { rng.pick(&[0, 3, 100, 5000]) } else { rng.pick(&[8192, 20_000, 70_000]) };
            let d = rng.bytes(n);
            let d2 = d.clone();
            hs.push((d2, tokio::spawn(async move {
                let mut ids = vec![];
                for _ in 0..3 {
                    ids.push(c.emit(format!("task{}", i), BytePayload::new(d.clone())).await.map_err(|e| e.to_string())?);
                }
                Ok::<_, String>(ids)
            })));
        }
        let n = hs.len() * 3;
        let mut got = vec![];
        for _ in 0..n {
            got.push(p.frame().await?);
        }
        ensure!(p.frame_soon().await?.is_none(), "more frames than emits");
        for (i, (d, h)) in hs.into_iter().enumerate() {
            let ids = h.await.map_err(|e| e.to_string())??;
            for id in ids {
                let l: Vec<&Frame> = got.iter().filter(|f| f.id == id).collect();
                ensure!(l.len() == 1, "{} frames with the returned id", l.len());
                is_frame(l[0], wire::INITIATOR, Some(id), None, None, &format!("task{}", i), &d)?;
            }
        }
        flushed(&p, &got)
    })
}

/// a flush between one frame's last byte and the next one's first
fn flushed(p: &Peer, got: &[Frame]) -> R {
    let ops = p.ctl.lock().unwrap().ops.clone();
    let mut it = ops.into_iter().peekable();
    for f in got {
        let mut left = f.bytes().len();
        while left > 0 {
            match it.next() {
                Some(Op::Write(n)) if n <= left => left -= n,
                Some(Op::Flush) => {}
                o => return Err(format!("{:?} in the middle of a frame", o)),
            }
        }
        ensure!(matches!(it.peek(), Some(Op::Flush)), "a frame of type {} is not flushed before {:?}", f.ty, it.peek());
    }
    Ok(())
}

/// what a handler emits is a frame of its own like any other
fn each_flushed(rng: &mut Rng) -> R {
    set(rng);
    let mut rng = rng.clone();
    run(async move {
        let k = rng.below(4);
        let ns = rng.chance(30);
        let ok = rng.chance(70);
        let fails = rng.chance(30) && k > 0;
        let results: Arc<Mutex<Vec<bool>>> = Default::default();
        let res = results.clone();
        let b = B::new().on("ask", move |c: &Context, _e: Event| {
            let res = res.clone();
            let c = c.clone();
            let f: std::pin::Pin<Box<dyn std::future::Future<Output = IPCResult<Response>> + Send>> = Box::pin(async move {
                for i in 0..k {
                    let d = BytePayload::new(vec![i as u8; 50 * i]);
                    let r = if ns { c.emit_to("space", "part", d).await } else { c.emit("part", d).await };
                    res.lock().unwrap().push(r.is_ok());
                    tokio::time::sleep(MS(10_000)).await;
                }
                if ok {
                    Ok(Response::empty())
                } else {
                    Err(IPCError::from("no"))
                }
            });
            f
        });
        let (_c, mut p) = client(b).await?;
        if fails {
            let mut x = p.ctl.lock().unwrap();
            x.fail_flush = true;
            x.fails_left = 1;
        }
        p.send(&Frame::new(0, 40, None, None, "ask", &[]).bytes());
        let mut got = vec![];
        for i in 0..=k {
            let f = tokio::time::timeout(MS(1_000), p.frame()).await.map_err(|_| format!("frame {} does not arrive in time", i))??;
            if i < k {
                is_frame(&f, wire::RESPONSE, None, Some(40), if ns { Some("space") } else { None }, "part", &vec![i as u8; 50 * i])?;
            } else {
                ensure!(f.ty == if ok { wire::END } else { wire::ERROR } && f.ref_id == Some(40), "closing reply {:?}", f);
            }
            got.push(f);
            tokio::time::sleep(MS(9_999)).await;
        }
        let r = results.lock().unwrap().clone();
        ensure!(r.iter().enumerate().all(|(i, &r)| r != (fails && i == 0)), "the results of the emits are {:?} where the first flush {}", r, if fails { "fails" } else { "succeeds" });
        if fails {
            return Ok(());
        }
        flushed(&p, &got)
    })
}

fn failing_emits(rng: &mut Rng) -> R {
    set(rng);
    let mut rng = rng.clone();
    run(async move {
        let (c, mut p) = client(B::new()).await?;
        let n = rng.pick(&[0, 3, 100, 3000]);
        let d = rng.bytes(n);
        c.emit("first", BytePayload::new(d.clone())).await.map_err(|e| e.to_string())?;
        p.frame().await?;
        let size = Frame::new(0, 0, None, None, "name", &d).bytes().len();
        let flush = rng.chance(30);
        let at = rng.below(size);
        {
            let mut x = p.ctl.lock().unwrap();
            if flush {
                x.fail_flush = true;
            } else {
                x.fail_at = Some(x.written + at);
            }
            x.fails_left = rng.pick(&[1, usize::MAX]);
        }
        let r = match rng.below(3) {
            0 => c.emit("name", BytePayload::new(d.clone())).await.err(),
            1 => c.emit("name", BytePayload::new(d.clone())).await_reply().await.err(),
            _ => c.emit("name", BytePayload::new(d.clone())).stream_replies().await.err(),
        };
        match r {
            None => return Err(format!("an emit succeeds although the transport failed ({})", if flush { "flush".into() } else { format!("after {} of {} bytes", at, size) })),
            Some(IPCError::IoError(e)) => ensure!(e.to_string().contains("scripted"), "error {} instead of the transport's", e),
            Some(e) => return Err(format!("error {} instead of the transport's", e)),
        }
        let b = p.now();
        ensure!(b.len() <= size, "more than the frame was written");
        // the transport works again: the connection is not left locked
        p.ctl.lock().unwrap().fails_left = 0;
        let id = tokio::time::timeout(MS(1000), c.emit("after", BytePayload::new(vec![]))).await.map_err(|_| "an emit after a failed one waits forever".to_string())?.map_err(|e| format!("emit after a failed one: {}", e))?;
        let f = p.frame().await?;
        is_frame(&f, wire::INITIATOR, Some(id), None, None, "after", &[])
    })
}

// ------------------------------------------------------------------ C09

fn routing(rng: &mut Rng) -> R {
    set(rng);
    let mut rng = rng.clone();
    run(async move {
        let log = Log::default();
        let b = B::new().on("a", logging(logged!(log, "global"))).on("b", logging(logged!(log, "global"))).namespace("ns1").on("a", logging(logged!(log, "ns1"))).build().namespace("ns2").on("a", logging(logged!(log, "ns2"))).on("c", logging(logged!(log, "ns2"))).build();
        let (c, mut p) = client(b).await?;
        // listeners that live, and one that is gone
        let mut live = vec![];
        for _ in 0..2 {
            let s = c.emit("listen", BytePayload::new(vec![])).stream_replies().with_timeout(MS(1_000_000)).await.map_err(|e| e.to_string())?;
            live.push((p.frame().await?.id, s));
        }
        let s = c.emit("listen", BytePayload::new(vec![])).stream_replies().with_timeout(MS(1_000_000)).await.map_err(|e| e.to_string())?;
        let gone = p.frame().await?.id;
        drop(s);
        for k in 0..12u64 {
            let id = 1000 + k;
            let ty = rng.below(4) as u8;
            let r = match rng.below(5) {
                0 => None,
                1 => Some(live[0].0),
                2 => Some(live[1].0),
                3 => Some(gone),
                _ => Some(rng.u64()),
            };
            let ns = rng.pick(&[None, None, Some("ns1"), Some("ns2"), Some("ns3"), Some("NS1"), Some("ns1 ")]);
            let name = rng.pick(&["a", "b", "c", "d", "A", "a "]);
            let to = live.iter().position(|(i, _)| Some(*i) == r);
            if to.is_some() && ty == wire::END {
                continue;
            }
            p.send(&Frame::new(ty, id, r, ns, name, &[k as u8]).bytes());
            let closing = if to.is_some() || ty == wire::END { None } else { Some(()) };
            if let Some(i) = to {
                let e = tokio::time::timeout(MS(1000), next(&mut live[i].1)).await.map_err(|_| "a reply does not reach its listener".to_string())?;
                match e {
                    Some(Ok(e)) => ensure!(e.id() == id && e.name() == name, "the listener got another event"),
                    _ => return Err("the listener of a reply got no event".into()),
                }
            }
            if closing.is_some() {
                let f = tokio::time::timeout(MS(1000), p.frame()).await.map_err(|_| format!("no closing reply for {:?}", (ty, r, ns, name)))??;
                ensure!(f.ref_id == Some(id), "a closing reply for {:?}", f.ref_id);
            }
            ensure!(p.frame_soon().await?.is_none(), "more than one reply for {:?}", (ty, r, ns, name));
            let want = if closing.is_none() {
                vec![]
            } else {
                match (ns, name) {
                    (None, "a") | (None, "b") => vec![format!("global:{}:{}", name, id)],
                    (Some("ns1"), "a") => vec![format!("ns1:a:{}", id)],
                    (Some("ns2"), "a") | (Some("ns2"), "c") => vec![format!("ns2:{}:{}", name, id)],
                    _ => vec![],
                }
            };
            let got = seen(&log);
            ensure!(got == want, "event {:?} (listener {:?}, gone {}) went to {:?} instead of {:?}", (ty, r, ns, name), to, gone, got, want);
        }
        for (_, s) in &mut live {
            ensure!(tokio::time::timeout(MS(10), next(s)).await.is_err(), "a listener got an event that is not a reply to it");
        }
        Ok(())
    })
}

fn unread(rng: &mut Rng) -> R {
    set(rng);
    let mut rng = rng.clone();
    run(async move {
        let log = Log::default();
        let (c, mut p) = client(B::new().on("a", logging(logged!(log, "global")))).await?;
        let mut s = c.emit("listen", BytePayload::new(vec![])).stream_replies().with_timeout(MS(1_000_000)).await.map_err(|e| e.to_string())?;
        let l = p.frame().await?.id;
        let n = rng.pick(&[1u64, 2, 3, 7, 9, 17, 33, 65, 100, 130]);
        for k in 0..n {
            p.send(&Frame::new(rng.pick(&[1, 1, 3]), 5000 + k, Some(l), None, "a", &[k as u8]).bytes());
        }
        p.send(&Frame::new(0, 7, None, None, "a", &[]).bytes());
        tokio::time::sleep(MS(20)).await;
        for k in 0..n {
            match tokio::time::timeout(MS(1000), next(&mut s)).await.map_err(|_| format!("reply {} of {} does not reach its listener", k, n))? {
                Some(Ok(e)) => ensure!(e.id() == 5000 + k && e.data_raw() == [k as u8], "reply {} of {} was event {}", k, n, e.id()),
                _ => return Err("the listener got no event".into()),
            }
        }
        let f = tokio::time::timeout(MS(1000), p.frame()).await.map_err(|_| "an event behind the replies is not handled".to_string())??;
        ensure!(f.ref_id == Some(7), "a closing reply for {:?}", f.ref_id);
        settle().await;
        ensure!(seen(&log) == vec!["global:a:7".to_string()], "the handlers got something else");
        ensure!(p.frame_soon().await?.is_none(), "more than one reply");
        Ok(())
    })
}

async fn next<S: Stream + Unpin>(s: &mut S) -> Option<S::Item> {
    poll_fn(|cx| Pin::new(&mut *s).poll_next(cx)).await
}

// ------------------------------------------------------------------ C10

/// the errors a handler may return
fn any_error(k: u8) -> IPCError {
    use std::io;
    match k % 9 {
        0 => IPCError::IoError(io::Error::new(io::ErrorKind::TimedOut, "too late")),
        1 => IPCError::BuildError("built".into()),
        2 => IPCError::CorruptedEvent,
        3 => IPCError::SendError,
        4 => IPCError::ErrorEvent(bromine::error_event::ErrorEventData { code: 7, message: "theirs".into() }),
        5 => IPCError::Timeout,
        6 => IPCError::UnsupportedVersion("9.9.9".into()),
        7 => IPCError::InvalidState,
        _ => IPCError::Message(String::new()),
    }
}

/// a text of its own for every id, of any length
fn reason(id: u64) -> String {
    let n = [0usize, 1, 20, 100, 300, 1100, 5000, 70_000][(id % 8) as usize];
    let mut r = Rng(id | 1);
    let mut t = String::new();
    while t.len() < n {
        t.push(if r.chance(10) { 'ß' } else { (b'a' + r.below(26) as u8) as char });
    }
    format!("why-{}-{}-end", id, t)
}

fn closing_fail(rng: &mut Rng) -> R {
    set(rng);
    let mut rng = rng.clone();
    run(async move {
        let b = B::new()
            .on("ok", |c, e: Event| Box::pin(async move { Response::payload(c, BytePayload::new(e.data_raw().to_vec())) }))
            .on("fail", |_, e: Event| Box::pin(async move { Err(IPCError::Message(reason(e.id()))) }));
        let (_c, mut p) = client(b).await?;
        for _ in 0..4 {
            {
                let mut x = p.ctl.lock().unwrap();
                x.fail_at = Some(x.written);
                x.fails_left = 1;
            }
            p.send(&Frame::new(0, rng.u64(), None, None, rng.pick(&["ok", "fail", "nobody"]), &[1, 2]).bytes());
            settle().await;
            ensure!(p.frame_soon().await?.is_none(), "something is sent after a closing reply that could not be sent");
            ensure!(p.ctl.lock().unwrap().fails_left == 0, "no closing reply is tried");
            p.ctl.lock().unwrap().fail_at = None;
            let id = rng.u64();
            p.send(&Frame::new(0, id, None, None, "ok", &[3]).bytes());
            let f = tokio::time::timeout(MS(1000), p.frame()).await.map_err(|_| "no closing reply after one that could not be sent".to_string())??;
            is_frame(&f, wire::END, None, Some(id), None, "end", &[3])?;
            ensure!(p.frame_soon().await?.is_none(), "more than one reply");
        }
        Ok(())
    })
}

fn closing(rng: &mut Rng) -> R {
    set(rng);
    let mut rng = rng.clone();
    run(async move {
        let b = B::new()
            .on("ok", |c, e: Event| Box::pin(async move { Response::payload(c, BytePayload::new(e.data_raw().to_vec())) }))
            .on("empty", |_, _| Box::pin(async move { Ok(Response::empty()) }))
            .on("fail", |_, e: Event| Box::pin(async move { Err(IPCError::Message(reason(e.id()))) }))
            .on("err", |_, e: Event| Box::pin(async move { Err(any_error(e.data_raw()[0])) }))
            .on("slow", |c, e: Event| Box::pin(async move {
                tokio::time::sleep(MS(20)).await;
                Response::payload(c, BytePayload::new(e.data_raw().to_vec()))
            }))
            .namespace("n")
            .on("ok", |c, _| Box::pin(async move { c.response(BytePayload::new(vec![7, 7])) }))
            .build();
        let (c, mut p) = client(b).await?;
        let s = c.emit("listen", BytePayload::new(vec![])).stream_replies().with_timeout(MS(1_000_000)).await;
        let mut s = s.map_err(|e| e.to_string())?;
        let own = p.frame().await?.id;
        for k in 0..8 {
            // ids may be anything, also those of events emitted here
            let id = if rng.chance(20) { own } else { rng.u64() };
            let n = rng.pick(&[0, 1, 300]);
            let mut d = rng.bytes(n);
            let ty = rng.pick(&[0, 0, 1, 3]);
            let r = if rng.chance(30) { Some(own.wrapping_add(1 + k)) } else { None };
            let (ns, name) = rng.pick(&[(None, "ok"), (None, "empty"), (None, "fail"), (None, "err"), (None, "err"), (None, "slow"), (None, "nobody"), (Some("n"), "ok"), (Some("n"), "nobody"), (Some("unknown"), "ok")]);
            if name == "err" && d.is_empty() {
                d = vec![rng.below(9) as u8];
            }
            p.send(&Frame::new(ty, id, r, ns, name, &d).bytes());
            let f = tokio::time::timeout(MS(1000), p.frame()).await.map_err(|_| format!("no closing reply for {:?}", (ns, name)))??;
            let what = format!("closing reply for {:?}: ", (ty, ns, name));
            if name == "err" {
                let text = format!("{:?}", any_error(d[0]));
                let shown = any_error(d[0]).to_string();
                ensure!(f.payload.len() >= 6 && f.payload[..2] == [1, 244], "{}code of {:02x?} for {}", what, f.payload, text);
                let m = String::from_utf8_lossy(&f.payload[6..]).to_string();
                ensure!(f.payload[2..6] == (m.len() as u32).to_be_bytes() && (m.contains(&text) || m.contains(&shown)), "{}message {:?} for {}", what, m, text);
                is_frame(&f, wire::ERROR, None, Some(id), None, "error", &f.payload).map_err(|e| what + &e)?;
            } else if name == "fail" {
                ensure!(f.payload.len() >= 6 && f.payload[..2] == [1, 244], "{}code of {:02x?}", what, f.payload);
                let m = String::from_utf8_lossy(&f.payload[6..]).to_string();
                ensure!(f.payload[2..6] == (m.len() as u32).to_be_bytes() && m.contains(&reason(id)), "{}message {:.80?} of {} bytes", what, m, m.len());
                is_frame(&f, wire::ERROR, None, Some(id), None, "error", &f.payload).map_err(|e| what + &e)?;
            } else {
                let want: &[u8] = match (ns, name) {
                    (None, "ok") | (None, "slow") => &d,
                    (Some("n"), "ok") => &[7, 7],
                    _ => &[],
                };
                is_frame(&f, wire::END, None, Some(id), None, "end", want).map_err(|e| what + &e)?;
            }
            ensure!(p.frame_soon().await?.is_none(), "a second closing reply for {:?}", (ty, ns, name));
        }
        p.send(&Frame::new(wire::RESPONSE, 5, Some(own), None, "x", &[]).bytes());
        match tokio::time::timeout(MS(1000), next(&mut s)).await {
            Ok(Some(Ok(e))) => ensure!(e.id() == 5, "another event"),
            _ => return Err("handling events removed a waiting listener".into()),
        }
        Ok(())
    })
}

// ------------------------------------------------------------------ C11

fn near(rng: &mut Rng) -> String {
    if rng.chance(25) {
        let l = "x".repeat(300);
        let (a, b) = ("x".repeat(255) + "a", "x".repeat(255) + "b");
        return rng.pick(&["*", "**", "?", "default", "fallback", "Error", "end", "PING", "ping/x", "ping::x", "ping.*", "ping\n", "pi ng", "\u{e9}", "e\u{301}", "\u{feff}ping", l.as_str(), a.as_str(), b.as_str()]).to_string();
    }
    rng.pick(&["ping", "Ping", "ping ", " ping", "pin", "pingg", "", "pi\0ng", "ping\0", "ping.x", "x"]).to_string()
}

fn near_ns(rng: &mut Rng) -> String {
    if rng.chance(75) {
        return rng.pick(&["s", "S", "s ", "q"]).to_string();
    }
    let (a, b) = ("x".repeat(255) + "a", "x".repeat(255) + "b");
    rng.pick(&["*", "s/q", "s::q", "s.q", " s", "s\0", "default", "\u{e9}", "e\u{301}", a.as_str(), b.as_str()]).to_string()
}

fn registry(rng: &mut Rng) -> R {
    set(rng);
    let mut rng = rng.clone();
    run(async move {
        let (c, _p) = client(B::new()).await?;
        let mut h = EventHandler::new();
        let log = Log::default();
        let mut model = std::collections::HashMap::new();
        let mut copies = vec![];
        for i in 0..rng.below(14) {
            let n = near(&mut rng);
            let tag = i as u8;
            let l = log.clone();
            let fails = rng.chance(20);
            h.on(&n, move |c, e: Event| {
                let l = l.clone();
                Box::pin(async move {
                    l.lock().unwrap().push(format!("{}:{}:{}", tag, e.name(), e.id()));
                    if fails {
                        return Err(IPCError::Message(format!("{}", tag)));
                    }
                    Response::payload(c, BytePayload::new(vec![tag]))
                })
            });
            model.insert(n, (tag, fails));
            if rng.chance(20) {
                copies.push((h.clone(), model.clone()));
            }
        }
        copies.push((h, model));
        for (h, model) in copies {
            let mut known: Vec<String> = model.keys().cloned().collect();
            known.sort();
            for k in 0..12 + known.len() {
                let n = if k < known.len() { known[k].clone() } else { near(&mut rng) };
                let e = Event::initiator(None, n.clone(), vec![1].into());
                let id = e.id();
                let r = h.handle_event(&c, e).await;
                let got = seen(&log);
                match model.get(&n) {
                    Some((tag, fails)) => {
                        ensure!(got == vec![format!("{}:{}:{}", tag, n, id)], "event {:?} called {:?} instead of {}", n, got, tag);
                        ensure!(r.is_err() == *fails, "the result of the callback is not passed on");
                    }
                    None => {
                        ensure!(got.is_empty(), "event {:?} called {:?}", n, got);
                        ensure!(r.is_ok(), "an event without handler is an error");
                    }
                }
            }
        }
        Ok(())
    })
}

fn namespaces(rng: &mut Rng) -> R {
    set(rng);
    let mut rng = rng.clone();
    run(async move {
        let log = Log::default();
        let mut b = B::new();
        let mut model: std::collections::HashMap<Option<String>, std::collections::HashMap<String, String>> = Default::default();
        let mut known = std::collections::BTreeSet::new();
        for i in 0..1 + rng.below(8) {
            let n = near(&mut rng);
            let tag = format!("t{}", i);
            match rng.below(4) {
                0 => {
                    b = b.on(&n, logging(logged!(log, tag)));
                    model.entry(None).or_default().insert(n, tag);
                }
                3 => {
                    // one without handlers, often under a name that is in use
                    let used: Vec<String> = model.keys().flatten().cloned().collect();
                    let ns = if used.is_empty() || rng.chance(30) { near_ns(&mut rng) } else { rng.pick(&used) };
                    b = if rng.chance(60) { b.namespace(&ns).build() } else { b.add_namespace(Namespace::new(&ns, EventHandler::new())) };
                    model.insert(Some(ns), Default::default());
                }
                1 => {
                    let ns = near_ns(&mut rng);
                    let m = near(&mut rng);
                    b = b.namespace(&ns).on(&n, logging(logged!(log, tag))).on(&m, logging(logged!(log, tag))).build();
                    // the namespace added last under a name is the one used
                    model.insert(Some(ns), [(n, tag.clone()), (m, tag)].into_iter().collect());
                }
                _ => {
                    let ns = near_ns(&mut rng);
                    let mut h = EventHandler::new();
                    h.on(&n, logging(logged!(log, tag)));
                    b = b.add_namespace(Namespace::new(&ns, h));
                    model.insert(Some(ns), [(n, tag)].into_iter().collect());
                }
            }
            known.extend(model.iter().flat_map(|(ns, m)| m.keys().map(|n| (ns.clone(), n.clone()))).collect::<Vec<_>>());
        }
        let (_c, mut p) = client(b).await?;
        let known: Vec<_> = known.into_iter().collect();
        for k in 0..(20 + known.len()) as u64 {
            let (ns, n) = match known.get(k as usize) {
                Some(v) => v.clone(),
                None => (if rng.chance(20) { None } else { Some(near_ns(&mut rng)) }, near(&mut rng)),
            };
            p.send(&Frame::new(0, k, None, ns.as_deref(), &n, &[]).bytes());
            let f = p.frame().await?;
            ensure!(f.ref_id == Some(k) && f.ty == wire::END, "reply {:?}", f);
            let want: Vec<String> = model.get(&ns).and_then(|h| h.get(&n)).map(|t| format!("{}:{}:{}", t, n, k)).into_iter().collect();
            let got = seen(&log);
            ensure!(got == want, "event {:?} of namespace {:?} went to {:?} instead of {:?}", n, ns, got, want);
        }
        Ok(())
    })
}

static FIRST: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
static SECOND: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

async fn first(_c: &Context, _e: Event) -> IPCResult<Response> {
    FIRST.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    Ok(Response::empty())
}

async fn second(_c: &Context, _e: Event) -> IPCResult<Response> {
    SECOND.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    Ok(Response::empty())
}

struct Provided;

impl NamespaceProvider for Provided {
    fn name() -> &'static str {
        " Provided\t"
    }
    fn register(h: &mut EventHandler) {
        bromine::events!(h, "ping" => first, "Ping " => second);
    }
}

/// handlers registered with the macros, directly or by a namespace provider
fn macros(rng: &mut Rng) -> R {
    use std::sync::atomic::Ordering::SeqCst;
    set(rng);
    let mut rng = rng.clone();
    run(async move {
        let (n1, n2) = (near(&mut rng), near(&mut rng));
        let (mut h, mut o) = (EventHandler::new(), EventHandler::new());
        bromine::events!(h, &n1[..] => first, &n2[..] => second);
        o.on(&n1, bromine::callback!(first));
        let (c, _p) = client(B::new()).await?;
        let mut names = vec![n1.clone(), n2.clone()];
        names.extend((0..10).map(|_| near(&mut rng)));
        for n in names {
            for (h, want) in [(&h, if n == n2 { (0, 1) } else { ((n == n1) as usize, 0) }), (&o, ((n == n1) as usize, 0))] {
                FIRST.store(0, SeqCst);
                SECOND.store(0, SeqCst);
                h.handle_event(&c, Event::initiator(None, n.clone(), vec![].into())).await.map_err(|e| e.to_string())?;
                let got = (FIRST.load(SeqCst), SECOND.load(SeqCst));
                ensure!(got == want, "an event {:?} after events!(h, {:?} => first, {:?} => second) calls them {:?} times", n, n1, n2, got);
            }
        }
        let (_c, mut p) = client(B::new().add_namespace(bromine::namespace!(Provided))).await?;
        for (ns, n, want) in [
            (" Provided\t", "ping", (1, 0)), (" Provided\t", "Ping ", (0, 1)), (" Provided\t", "Ping", (0, 0)),
            ("Provided", "ping", (0, 0)), (" Provided", "ping", (0, 0)), (" provided\t", "Ping ", (0, 0)),
        ] {
            FIRST.store(0, SeqCst);
            SECOND.store(0, SeqCst);
            p.send(&Frame::new(0, 9, None, Some(ns), n, &[]).bytes());
            let f = p.frame().await?;
            ensure!(f.ref_id == Some(9) && f.ty == wire::END, "reply {:?}", f);
            let got = (FIRST.load(SeqCst), SECOND.load(SeqCst));
            ensure!(got == want, "event {:?} of namespace {:?} calls the provider's handlers {:?} times", n, ns, got);
        }
        Ok(())
    })
}

// ------------------------------------------------------------------ C12, C13

/// an event with this reference that arrives now is an ordinary event: nothing is registered for it
async fn unregistered(p: &mut Peer, log: &Log, r: u64, what: &str) -> R {
    seen(log);
    p.now();
    p.send(&Frame::new(wire::RESPONSE, 4242, Some(r), None, "late", &[]).bytes());
    tokio::time::sleep(MS(20)).await;
    let got = seen(log);
    ensure!(got == vec!["late:late:4242".to_string()], "the registration is still there after {}", what);
    p.now();
    Ok(())
}

/// limits of no time at all
fn zero_limits(rng: &mut Rng) -> R {
    set(rng);
    let mut rng = rng.clone();
    run(async move {
        let log = Log::default();
        let own = rng.chance(50);
        let b = B::new().on("late", logging(logged!(log, "late")));
        let (c, mut p) = client(if own { b } else { b.timeout(MS(0)) }).await?;
        let t0 = tokio::time::Instant::now();
        let e = c.emit("q", BytePayload::new(vec![1]));
        let stream = rng.chance(50);
        let r = if stream {
            let e = e.stream_replies();
            let mut s = if own { e.with_timeout(MS(0)).await } else { e.await }.map_err(|e| e.to_string())?;
            next(&mut s).await.ok_or("the stream ends without error")?
        } else if own {
            e.await_reply().with_timeout(MS(0)).await
        } else {
            e.await_reply().await
        };
        let t = t0.elapsed();
        ensure!(matches!(r, Err(IPCError::Timeout)), "no timeout error with a limit of 0");
        ensure!(t < MS(150), "timeout after {:?} instead of 0", t);
        let id = p.frame().await?.id;
        unregistered(&mut p, &log, id, "a timeout").await
    })
}

fn awaiting(rng: &mut Rng) -> R {
    set(rng);
    let mut rng = rng.clone();
    run(async move {
        let log = Log::default();
        let def = rng.pick(&[500u64, 3000, 3000, 200_000_000]);
        let (c, mut p) = client(B::new().timeout(MS(def)).on("late", logging(logged!(log, "late")))).await?;
        for _ in 0..4 {
            let own = if rng.chance(50) { Some(rng.pick(&[200u64, 1000, 10_000, 200_000_000])) } else { None };
            let limit = own.unwrap_or(def);
            let delay = rng.pick(&[0, 1, limit / 2, limit - 10, limit + 10, limit * 3]);
            let ty = rng.pick(&[0, 1, 2, 3]);
            let n = rng.below(20);
            let mut d = rng.bytes(n);
            let code = rng.next() as u16;
            let msg = rng.text(7);
            if ty == wire::ERROR {
                d = code.to_be_bytes().to_vec();
                d.extend((msg.len() as u32).to_be_bytes());
                d.extend(msg.as_bytes());
            }
            // an error whose payload is not that of an error is one all the same
            let broken = ty == wire::ERROR && rng.chance(30);
            if broken {
                let k = rng.below(d.len());
                d.truncate(k);
            }
            let c2 = c.clone();
            let t0 = tokio::time::Instant::now();
            // the timeout that was set last is the one
            let again = if rng.chance(20) { rng.pick(&[1u64, 400, 100_000]) } else { 0 };
            let h = tokio::spawn(async move {
                let e = c2.emit("q", BytePayload::new(vec![1])).await_reply();
                let r = match own {
                    Some(t) if again > 0 => e.with_timeout(MS(again)).with_timeout(MS(t)).await,
                    Some(t) => e.with_timeout(MS(t)).await,
                    None => e.await,
                };
                (r, t0.elapsed())
            });
            let id = p.frame().await?.id;
            tokio::time::sleep(MS(delay)).await;
            let in_time = delay < limit;
            // another event first that is not a reply to this
            p.send(&Frame::new(wire::RESPONSE, 1, Some(id.wrapping_add(12345)), None, "other", &[]).bytes());
            let name = rng.pick(&["answer", "end", "error", ""]);
            let ns = opt_ns(&mut rng);
            if in_time {
                p.send(&Frame::new(ty, 77, Some(id), ns.as_deref(), name, &d).bytes());
                if rng.chance(40) {
                    p.send(&Frame::new(wire::END, 78, Some(id), None, "second", &[]).bytes());
                }
            }
            let (r, took) = h.await.map_err(|e| e.to_string())?;
            match r {
                Ok(e) => {
                    ensure!(in_time, "a reply that was never sent");
                    ensure!(ty != wire::ERROR, "an error event is returned as reply");
                    ensure!(e.id() == 77 && e.name() == name && e.namespace().as_deref() == ns.as_deref() && e.data_raw() == &d[..], "the reply is not the first event received for it: {:?}", (e.id(), e.name()));
                }
                Err(IPCError::ErrorEvent(e)) => {
                    ensure!(in_time && ty == wire::ERROR && !broken, "an error without error event");
                    ensure!(e.code == code && e.message == msg, "error {:?} instead of {} {}", e, code, msg);
                }
                Err(IPCError::Timeout) => {
                    ensure!(!in_time, "timeout after {:?} although the reply arrived after {} of {} ms", took, delay, limit);
                    ensure!(took >= MS(limit) && took <= MS(limit + 150), "timeout after {:?} instead of {} ms", took, limit);
                }
                Err(_) if broken => ensure!(in_time, "an error without error event"),
                Err(e) => return Err(format!("error {}", e)),
            }
            unregistered(&mut p, &log, id, if in_time { "a reply" } else { "a timeout" }).await?;
        }
        Ok(())
    })
}

fn early_reply(rng: &mut Rng) -> R {
    early(rng, false)
}

fn early_item(rng: &mut Rng) -> R {
    early(rng, true)
}

fn early(rng: &mut Rng, stream: bool) -> R {
    set(rng);
    let mut rng = rng.clone();
    run(async move {
        let log = Log::default();
        let (c, mut p) = client(B::new().on("late", logging(logged!(log, "late"))).on("answer", logging(logged!(log, "late")))).await?;
        // the peer has seen the id, and the rest of the frame (or its flush) is still to come
        {
            let mut x = p.ctl.lock().unwrap();
            x.block_at = Some(x.written + 10 + 12 + rng.below(10));
        }
        let c2 = c.clone();
        let h = tokio::spawn(async move {
            let e = c2.emit("question", BytePayload::new(vec![1; 100]));
            if stream {
                let mut s = e.stream_replies().with_timeout(MS(500)).await?;
                next(&mut s).await.unwrap_or(Err(IPCError::InvalidState))
            } else {
                e.await_reply().with_timeout(MS(500)).await
            }
        });
        let b = p.exact(10 + 11).await.ok_or("no bytes")?;
        let id = u64::from_be_bytes(b[13..21].try_into().unwrap());
        p.send(&Frame::new(wire::RESPONSE, 99, Some(id), None, "answer", &[]).bytes());
        tokio::time::sleep(MS(5)).await;
        {
            let mut x = p.ctl.lock().unwrap();
            x.block_at = None;
            if let Some(w) = x.wwaker.take() {
                w.wake()
            }
        }
        match h.await.map_err(|e| e.to_string())? {
            Ok(e) => ensure!(e.id() == 99, "another event"),
            Err(e) => return Err(format!("a reply that arrives while the event is being written is lost: {}", e)),
        }
        Ok(())
    })
}

fn await_fail(rng: &mut Rng) -> R {
    set(rng);
    let mut rng = rng.clone();
    run(async move {
        let log = Log::default();
        let (c, mut p) = client(B::new().on("late", logging(logged!(log, "late")))).await?;
        let b = fail_writes(&mut rng, &p);
        let r = c.emit("q", BytePayload::new(vec![1; 50])).await_reply().await;
        ensure!(matches!(r, Err(IPCError::IoError(_))), "a failed send gives {:?}", r.map(|e| e.id()));
        after_failed_send(&mut p, &log, b).await
    })
}

/// the transport fails after the id was written
fn fail_writes(rng: &mut Rng, p: &Peer) -> bool {
    let mut x = p.ctl.lock().unwrap();
    let flush = rng.chance(50);
    if flush {
        x.fail_flush = true;
    } else {
        x.fail_at = Some(x.written + 21 + rng.below(30));
    }
    flush
}

async fn after_failed_send(p: &mut Peer, log: &Log, _flush: bool) -> R {
    let b = p.now();
    ensure!(b.len() >= 21, "too little was written");
    let id = u64::from_be_bytes(b[13..21].try_into().unwrap());
    p.ctl.lock().unwrap().fails_left = 0;
    unregistered(p, log, id, "a failed send").await
}

fn streams(rng: &mut Rng) -> R {
    set(rng);
    let mut rng = rng.clone();
    run(async move {
        let log = Log::default();
        let def = rng.pick(&[500u64, 3000, 3000, 200_000_000]);
        let (c, mut p) = client(B::new().timeout(MS(def)).on("late", logging(logged!(log, "late")))).await?;
        let own = if rng.chance(50) { Some(rng.pick(&[200u64, 1000, 1000, 200_000_000])) } else { None };
        let limit = own.unwrap_or(def);
        let e = c.emit("q", BytePayload::new(vec![1])).stream_replies();
        let mut s = match own {
            Some(t) if rng.chance(20) => e.with_timeout(MS(rng.pick(&[1u64, 400, 100_000]))).with_timeout(MS(t)).await,
            Some(t) => e.with_timeout(MS(t)).await,
            None => e.await,
        }
        .map_err(|e| e.to_string())?;
        let id = p.frame().await?.id;
        let n = rng.below(14);
        let ends = rng.chance(60);
        let mut plan = vec![];
        for i in 0..n {
            let d = rng.pick(&[vec![], vec![i as u8], vec![1, 244, 0, 0, 0, 0]]);
            plan.push(Frame::new(rng.pick(&[0, 1, 1, 3]), 100 + i as u64, Some(id), None, rng.pick(&["x", "end", "error"]), &d));
        }
        if ends {
            let d = rng.pick(&[vec![], vec![9u8]]);
            plan.push(Frame::new(wire::END, 500, Some(id), None, rng.pick(&["end", "end", "x"]), &d));
            // what comes after the end is not for the stream
        }
        let burst = rng.chance(50);
        let mut sent = 0;
        let mut got = 0;
        if burst {
            for f in &plan {
                p.send(&f.bytes());
            }
            sent = plan.len();
            if rng.chance(50) {
                tokio::time::sleep(MS(limit * 2)).await;
            }
        }
        while got < plan.len() {
            if sent == got {
                p.send(&plan[sent].bytes());
                sent += 1;
                // a read that is already waiting, or an event that is
                if rng.chance(50) {
                    settle().await;
                }
            }
            match tokio::time::timeout(MS(limit * 4), next(&mut s)).await {
                Ok(Some(Ok(e))) => {
                    let f = &plan[got];
                    ensure!(e.id() == f.id && e.name() == f.name && e.data_raw() == &f.payload[..] && e.event_type() as u8 == f.ty, "reply {} is {:?} instead of {:?}", got, (e.id(), e.name(), e.event_type()), f);
                }
                Ok(Some(Err(e))) => return Err(format!("reply {} is the error {}", got, e)),
                Ok(None) => return Err(format!("the stream ends before reply {}", got)),
                Err(_) => return Err(format!("reply {} never comes", got)),
            }
            got += 1;
        }
        if !ends {
            let t0 = tokio::time::Instant::now();
            match next(&mut s).await {
                Some(Err(IPCError::Timeout)) => {
                    let t = t0.elapsed();
                    ensure!(t >= MS(limit) && t < MS(limit + 150), "timeout after {:?} instead of {} ms", t, limit);
                }
                Some(Ok(_)) => return Err("an event that was not sent".into()),
                _ => return Err("no timeout error".into()),
            }
        }
        for _ in 0..3 {
            match tokio::time::timeout(MS(limit * 4), next(&mut s)).await {
                Ok(None) => {}
                Ok(Some(Ok(_))) => return Err("an event after the end".into()),
                Ok(Some(Err(e))) => return Err(format!("the error {} after the end", e)),
                Err(_) => return Err("a stream that ended waits".into()),
            }
        }
        unregistered(&mut p, &log, id, if ends { "the end event" } else { "a timeout" }).await?;
        ensure!(matches!(tokio::time::timeout(MS(10), next(&mut s)).await, Ok(None)), "an event after the end");
        Ok(())
    })
}

fn stream_fail(rng: &mut Rng) -> R {
    set(rng);
    let mut rng = rng.clone();
    run(async move {
        let log = Log::default();
        let (c, mut p) = client(B::new().on("late", logging(logged!(log, "late")))).await?;
        let b = fail_writes(&mut rng, &p);
        let r = c.emit("q", BytePayload::new(vec![1; 50])).stream_replies().await;
        ensure!(matches!(r, Err(IPCError::IoError(_))), "a failed send gives a stream");
        after_failed_send(&mut p, &log, b).await
    })
}

// ------------------------------------------------------------------ C22

fn pool(rng: &mut Rng) -> R {
    set(rng);
    let mut rng = rng.clone();
    run(async move {
        let n = if rng.chance(90) { 1 + rng.below(5) } else { 1 + rng.below(70) };
        let pc = B::new().address(addr()).build_pooled_client(n).await.map_err(|e| e.to_string())?;
        let mut peers: Vec<Peer> = hub(addr()).lock().unwrap().peers.drain(..).collect();
        ensure!(peers.len() == n, "{} connections instead of {}", peers.len(), n);
        let mut counts = vec![0i64; n];
        let mut held: Vec<(usize, PoolGuard<Context>)> = vec![];
        let steps = if n < 6 { 25 } else { 2 * n };
        for step in 0..steps {
            match rng.below(5) {
                0 | 1 => {
                    let mut g = pc.acquire();
                    let name = format!("s{}", step);
                    if rng.chance(50) { (*g).emit(&name, BytePayload::new(vec![])).await } else { (&mut *g).emit(&name, BytePayload::new(vec![])).await }.map_err(|e| e.to_string())?;
                    let mut at = None;
                    for (i, p) in peers.iter_mut().enumerate() {
                        let b = p.now();
                        if !b.is_empty() {
                            let f = wire::parse(&b)?.ok_or("half a frame")?.0;
                            ensure!(f.name == name && at.is_none(), "frame {:?}", f.name);
                            at = Some(i);
                        }
                    }
                    let at = at.ok_or("an emit through a guard reaches no connection")?;
                    let min = *counts.iter().min().unwrap();
                    ensure!(counts[at] == min, "acquired the connection with {} guards, the least used one has {} ({:?})", counts[at], min, counts);
                    counts[at] += 1;
                    held.push((at, g));
                }
                2 if !held.is_empty() => {
                    let i = rng.below(held.len());
                    let copies = if rng.chance(98) { 1 } else { 300 };
                    for _ in 0..copies {
                        let (at, g) = (held[i].0, held[i].1.clone());
                        counts[at] += 1;
                        held.push((at, g));
                    }
                }
                _ if !held.is_empty() => {
                    let i = rng.below(held.len());
                    let (at, g) = held.swap_remove(i);
                    if rng.chance(20) {
                        // a task that fails while it holds the guard
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
                            let _g = g;
                            std::panic::resume_unwind(Box::new("scripted"));
                        }));
                        ensure!(r.is_err(), "no panic");
                    } else {
                        drop(g);
                    }
                    counts[at] -= 1;
                }
                _ => {}
            }
        }
        Ok(())
    })
}

/// counts of guards beyond what 8 or 16 bits hold
fn many_guards(rng: &mut Rng) -> R {
    set(rng);
    let mut rng = rng.clone();
    run(async move {
        let pc = B::new().address(addr()).build_pooled_client(2).await.map_err(|e| e.to_string())?;
        let mut peers: Vec<Peer> = hub(addr()).lock().unwrap().peers.drain(..).collect();
        let g = pc.acquire();
        g.emit("a", BytePayload::new(vec![])).await.map_err(|e| e.to_string())?;
        let at = if peers[0].now().is_empty() { 1 } else { 0 };
        let mut held = vec![];
        for total in [256usize, 65536, 131072] {
            while held.len() + 1 < total {
                held.push(g.clone());
            }
            for _ in 0..1 + rng.below(3) {
                let o = pc.acquire();
                peers.iter_mut().for_each(|p| drop(p.now()));
                o.emit("b", BytePayload::new(vec![])).await.map_err(|e| e.to_string())?;
                ensure!(!peers[1 - at].now().is_empty(), "a connection with {} guards is acquired although another one has fewer", total);
            }
        }
        Ok(())
    })
}

fn pool_threads(rng: &mut Rng) -> R {
    set(rng);
    let n = 1 + rng.below(4);
    run(async move {
        let pc = B::new().address(addr()).build_pooled_client(n).await.map_err(|e| e.to_string())?;
        let mut peers: Vec<Peer> = hub(addr()).lock().unwrap().peers.drain(..).collect();
        let mut hs = vec![];
        for t in 0..4 {
            let pc = pc.clone();
            hs.push(std::thread::spawn(move || {
                let mut held = vec![];
                for i in 0..30_000usize {
                    let g = pc.acquire();
                    if (i + t) % 3 == 0 {
                        held.push(g.clone());
                    }
                    if i % 7 == 0 {
                        held.pop();
                    }
                    if held.len() > 50 {
                        held.clear();
                    }
                }
            }));
        }
        for h in hs {
            h.join().map_err(|_| "a thread that acquires and drops guards panics".to_string())?;
        }
        // all guards are dropped: every connection has the same count
        for round in 0..3 {
            let mut hit = vec![0; n];
            let gs: Vec<_> = (0..n).map(|_| pc.acquire()).collect();
            for g in &gs {
                g.emit("e", BytePayload::new(vec![])).await.map_err(|e| e.to_string())?;
            }
            for (i, p) in peers.iter_mut().enumerate() {
                let mut b = &p.now()[..];
                let all = b.to_vec();
                b = &all;
                while let Some((_, k)) = wire::parse(b)? {
                    hit[i] += 1;
                    b = &b[k..];
                }
            }
            ensure!(hit.iter().all(|h| *h == 1), "after all guards were dropped {} guards in round {} are of the connections {:?}", n, round, hit);
        }
        Ok(())
    })
}

// ------------------------------------------------------------------ C23

fn incomplete(_rng: &mut Rng) -> R {
    run(async move {
        let be = |r: &IPCResult<()>| matches!(r, Err(IPCError::BuildError(_)));
        ensure!(be(&B::new().build_client().await.map(|_| ())), "a client without address");
        ensure!(be(&B::new().build_server().await), "a server without address");
        ensure!(be(&B::new().build_pooled_client(3).await.map(|_| ())), "a pool without address");
        ensure!(be(&B::new().build_pooled_client(0).await.map(|_| ())), "a pool of size 0 without address");
        ensure!(be(&B::new().address(addr()).build_pooled_client(0).await.map(|_| ())), "a pool of size 0");
        let h = hub(addr());
        let h = h.lock().unwrap();
        ensure!(h.connects == 0 && h.binds.is_empty(), "a rejected builder opened a connection");
        Ok(())
    })
}

struct Key;
impl TypeMapKey for Key {
    type Value = u64;
}
struct Key2;
impl TypeMapKey for Key2 {
    type Value = String;
}

struct Conf {
    timeout: Option<u64>,
    ser: Option<DynamicSerializer>,
    data: u64,
    copt: u32,
    sopt: u32,
}

const FORMATS: [DynamicSerializer; 4] = [DynamicSerializer::Messagepack, DynamicSerializer::Bincode, DynamicSerializer::Postcard, DynamicSerializer::Json];

fn conf(rng: &mut Rng) -> Conf {
    Conf {
        timeout: if rng.chance(70) { Some(rng.pick(&[50, 700, 90_000])) } else { None },
        ser: if rng.chance(70) { Some(rng.pick(&FORMATS)) } else { None },
        data: rng.next(),
        copt: rng.next() as u32,
        sopt: rng.next() as u32,
    }
}

impl Conf {
    fn limit(&self) -> u64 {
        self.timeout.unwrap_or(60_000)
    }
    /// the setters in an order of their own
    fn builder(&self, rng: &mut Rng, log: &Log) -> B {
        let mut b = B::new();
        let mut steps: Vec<u8> = (0..8).collect();
        for i in (1..steps.len()).rev() {
            steps.swap(i, rng.below(i + 1));
        }
        for s in steps {
            b = match s {
                0 => match self.timeout {
                    Some(t) => b.timeout(MS(t)),
                    None => b,
                },
                1 => match self.ser {
                    Some(t) => b.default_serializer(t),
                    None => b,
                },
                2 => {
                    for i in 0..rng.below(2) as u64 {
                        b = b.insert::<Key>(self.data ^ (i + 1));
                    }
                    b.insert::<Key>(self.data)
                }
                3 => b.client_options(Opt(self.copt)),
                4 => b.server_options(LOpt(self.sopt)),
                5 => b.on("hello", logging(logged!(log, "g"))),
                6 => b.namespace("space").on("hello", logging(logged!(log, "n"))).build(),
                _ => b.address(addr()).insert::<Key2>("two".into()),
            };
        }
        let l = log.clone();
        b.on("inspect", move |c, e: Event| {
            let l = l.clone();
            Box::pin(async move {
                let mut d = c.data.write().await;
                let v = d.get_mut::<Key>().map(|v| {
                    *v = v.wrapping_add(1);
                    *v - 1
                });
                let w = d.get::<Key2>().cloned();
                drop(d);
                l.lock().unwrap().push(format!("inspect:{:?}:{:?}:{:?}", v, w, c.default_reply_timeout));
                c.emit("value", 77u32).await?;
                drop(e);
                Ok(Response::empty())
            })
        })
        .on("ask", move |c, _| {
            Box::pin(async move {
                let r = c.emit("question", BytePayload::new(vec![])).await_reply().await;
                Response::payload(c, BytePayload::new(vec![match r {
                    Ok(_) => 1,
                    Err(IPCError::Timeout) => 2,
                    Err(_) => 3,
                }]))
            })
        })
    }
    fn format(&self) -> u8 {
        FORMATS.iter().position(|f| *f == self.ser.unwrap_or(FORMATS[0])).unwrap() as u8
    }
    async fn connection(&self, p: &mut Peer, log: &Log, data: u64) -> R {
        seen(log);
        p.send(&Frame::new(0, 31, None, None, "hello", &[]).bytes());
        ensure!(p.frame().await?.ref_id == Some(31), "reply");
        p.send(&Frame::new(0, 32, None, Some("space"), "hello", &[]).bytes());
        ensure!(p.frame().await?.ref_id == Some(32), "reply");
        let got = seen(log);
        ensure!(got == vec!["g:hello:31".to_string(), "n:hello:32".to_string()], "the connection's handlers are {:?}", got);
        p.send(&Frame::new(0, 33, None, None, "inspect", &[]).bytes());
        let f = p.frame().await?;
        ensure!(f.name == "value" && f.payload.first() == Some(&self.format()), "a value is sent as {:02x?} with serializer {:?}", f.payload, self.ser);
        ensure!(p.frame().await?.ty == wire::END, "no end");
        let want = vec![format!("inspect:{:?}:{:?}:{:?}", Some(data), Some("two"), MS(self.limit()))];
        let got = seen(log);
        ensure!(got == want, "the handler's context has {:?} instead of {:?}", got, want);
        // the reply timeout
        let t0 = tokio::time::Instant::now();
        p.send(&Frame::new(0, 34, None, None, "ask", &[]).bytes());
        ensure!(p.frame().await?.name == "question", "no question");
        let f = p.frame().await?;
        let t = t0.elapsed();
        ensure!(f.ty == wire::END && f.payload == [2], "waiting for a reply ended with {:?}", f);
        ensure!(t >= MS(self.limit()) && t < MS(self.limit() + 200), "a reply timeout of {:?} instead of {} ms", t, self.limit());
        Ok(())
    }
}

fn configured(rng: &mut Rng) -> R {
    set(rng);
    let mut rng = rng.clone();
    run(async move {
        let k = conf(&mut rng);
        let log = Log::default();
        let c = k.builder(&mut rng, &log).build_client().await.map_err(|e| e.to_string())?;
        let (mut p, opts) = {
            let h = hub(addr());
            let mut h = h.lock().unwrap();
            ensure!(h.connects == 1 && h.binds.is_empty(), "{} connections", h.connects);
            (h.peers.pop_front().unwrap(), h.opts.clone())
        };
        ensure!(opts == vec![Opt(k.copt)], "options {:?} instead of {}", opts, k.copt);
        ensure!(c.default_reply_timeout == MS(k.limit()), "timeout {:?}", c.default_reply_timeout);
        ensure!(c.default_serializer as u8 == k.format(), "serializer {:?}", c.default_serializer);
        ensure!(c.data.read().await.get::<Key>() == Some(&k.data), "the shared data of the client");
        k.connection(&mut p, &log, k.data).await?;
        ensure!(c.data.read().await.get::<Key>() == Some(&k.data.wrapping_add(1)), "handlers do not share the client's data");
        // a refused connection is an error
        hub(addr()).lock().unwrap().refuse_from = Some(0);
        let r = k.builder(&mut rng, &log).build_client().await;
        ensure!(matches!(r, Err(IPCError::IoError(_))), "a refused connection gives {}", r.is_ok());
        Ok(())
    })
}

fn configured_pool(rng: &mut Rng) -> R {
    set(rng);
    let mut rng = rng.clone();
    run(async move {
        let mut k = conf(&mut rng);
        k.data = rng.next() >> 1;
        let log = Log::default();
        let n = if rng.chance(95) { 1 + rng.below(6) } else { 60 + rng.below(240) };
        let pool = k.builder(&mut rng, &log).build_pooled_client(n).await.map_err(|e| e.to_string())?;
        let mut peers: Vec<Peer> = {
            let h = hub(addr());
            let mut h = h.lock().unwrap();
            ensure!(h.connects == n && h.opts == vec![Opt(k.copt); n], "{} connections with options {:?}", h.connects, h.opts);
            h.peers.drain(..).collect()
        };
        let guards: Vec<_> = (0..n).map(|_| pool.acquire()).collect();
        for g in &guards {
            ensure!(g.default_reply_timeout == MS(k.limit()) && g.default_serializer as u8 == k.format(), "a pooled context has other settings");
        }
        for (i, p) in peers.iter_mut().enumerate() {
            k.connection(p, &log, k.data + i as u64).await.map_err(|e| format!("connection {} of {}: {}", i, n, e))?;
        }
        // a reply that arrives on any of the connections
        let g = guards[rng.below(n)].clone();
        let h = tokio::spawn(async move { g.emit("cross", BytePayload::new(vec![])).await_reply().with_timeout(MS(500)).await.map(|e| e.id()) });
        settle().await;
        let mut id = None;
        for p in &mut peers {
            if let Some((f, _)) = wire::parse(&p.now())? {
                id = Some(f.id);
            }
        }
        let to = rng.below(n);
        peers[to].send(&Frame::new(wire::RESPONSE, 3, id, None, "r", &[]).bytes());
        let r = h.await.map_err(|e| e.to_string())?;
        ensure!(matches!(r, Ok(3)), "a pool does not share its reply registrations: {:?}", r);
        // one that cannot open all its connections
        {
            let h = hub(addr());
            let mut h = h.lock().unwrap();
            h.refuse_from = Some(h.connects + rng.below(n));
        }
        let r = k.builder(&mut rng, &log).build_pooled_client(n).await;
        ensure!(matches!(r, Err(IPCError::IoError(_))), "a pool with a refused connection");
        Ok(())
    })
}

fn configured_server(rng: &mut Rng) -> R {
    set(rng);
    let mut rng = rng.clone();
    run(async move {
        let mut k = conf(&mut rng);
        k.data = rng.next() >> 1;
        let log = Log::default();
        let b = k.builder(&mut rng, &log);
        let server = tokio::spawn(async move { b.build_server().await });
        let n = 1 + rng.below(3);
        let mut peers = vec![];
        for i in 0..n {
            let (s, p) = pair(&mut rng);
            hub(addr()).lock().unwrap().offer(Item::Conn(s, i as u32));
            peers.push(p);
            if rng.chance(50) {
                settle().await;
            }
        }
        settle().await;
        ensure!(hub(addr()).lock().unwrap().binds == vec![LOpt(k.sopt)], "bound with {:?} instead of {}", hub(addr()).lock().unwrap().binds, k.sopt);
        for (i, p) in peers.iter_mut().enumerate() {
            k.connection(p, &log, k.data + i as u64).await.map_err(|e| format!("connection {} of {}: {}", i, n, e))?;
        }
        if n > 1 {
            // registrations are the connection's own
            peers[0].send(&Frame::new(0, 50, None, None, "ask", &[]).bytes());
            let q = peers[0].frame().await?;
            peers[1].send(&Frame::new(wire::RESPONSE, 51, Some(q.id), None, "hello", &[]).bytes());
            let f = peers[1].frame().await?;
            ensure!(f.ref_id == Some(51), "an event for another connection's request");
            if k.limit() > 100 {
                peers[0].send(&Frame::new(wire::RESPONSE, 52, Some(q.id), None, "r", &[]).bytes());
                let f = peers[0].frame().await?;
                ensure!(f.payload == [1], "the reply was taken by another connection");
            }
        }
        hub(addr()).lock().unwrap().offer(Item::Fail);
        server.await.map_err(|e| e.to_string())?.map_err(|e| e.to_string())
    })
}

// ------------------------------------------------------------------ C24

fn stopping(rng: &mut Rng) -> R {
    set(rng);
    let mut rng = rng.clone();
    run(async move {
        let log = Log::default();
        let seen_ctx: Arc<Mutex<Option<Context>>> = Default::default();
        let k = seen_ctx.clone();
        let b = B::new().on("x", logging(logged!(log, "x"))).on("keep", move |c, _| {
            let k = k.clone();
            Box::pin(async move {
                *k.lock().unwrap() = Some(c.clone());
                Ok(Response::empty())
            })
        });
        let (c, mut p) = client(b).await?;
        p.send(&Frame::new(0, 1, None, None, "keep", &[]).bytes());
        p.frame().await?;
        let in_handler = seen_ctx.lock().unwrap().take().unwrap();
        let mut l: Vec<Context> = (0..4).map(|_| c.clone()).collect();
        l.push(in_handler);
        // nothing but a stop ends it
        drop(c);
        if rng.chance(50) {
            l.truncate(1 + rng.below(4));
        }
        tokio::time::sleep(MS(rng.pick(&[100_000u64, 100_000, 40_000_000_000]))).await;
        let _ = l[0].emit("q", BytePayload::new(vec![])).await_reply().with_timeout(MS(50)).await;
        p.now();
        p.send(&Frame::new(0, 2, None, None, "x", &[]).bytes());
        p.frame().await?;
        ensure!(seen(&log).len() == 1 && !p.reader_gone(), "the connection ended without a stop");
        let only = rng.chance(30) && l.len() > 1;
        if only {
            l.truncate(1);
        }
        let i = rng.below(l.len());
        let s = l.swap_remove(i);
        s.stop().await.map_err(|e| format!("stop: {}", e))?;
        settle().await;
        ensure!(p.reader_gone(), "the connection is still read after a stop");
        p.send(&Frame::new(0, 3, None, None, "x", &[]).bytes());
        tokio::time::sleep(MS(50)).await;
        ensure!(seen(&log).is_empty(), "an event was handled after a stop");
        while let Some(s) = l.pop() {
            tokio::time::timeout(MS(1000), s.stop()).await.map_err(|_| "a second stop waits".to_string())?.map_err(|e| format!("a second stop: {}", e))?;
        }
        // dropping every context of another client leaves its connection running until the peer ends it
        let (c, p) = client(B::new().on("x", logging(logged!(log, "x")))).await?;
        drop(c);
        tokio::time::sleep(MS(1000)).await;
        p.send(&Frame::new(0, 4, None, None, "x", &[]).bytes());
        tokio::time::sleep(MS(50)).await;
        ensure!(seen(&log).len() == 1, "dropping the contexts ended the connection");
        let (c, p) = client(B::new()).await?;
        p.close();
        tokio::time::sleep(MS(50)).await;
        let d = c.clone();
        c.stop().await.map_err(|e| format!("stop after the connection ended: {}", e))?;
        d.stop().await.map_err(|e| format!("second stop after the connection ended: {}", e))?;
        Ok(())
    })
}

#[allow(unused)]
fn unused(_: EventType) {}

// ------------------------------------------------------------------ C23: the built-in transports

/// binding and connecting use the address and options given; what is accepted and split is the connection that was made
fn sockets(rng: &mut Rng) -> R {
    use bromine::protocol::tcp::TcpOptions;
    use bromine::protocol::{AsyncProtocolStream, AsyncProtocolStreamSplit, AsyncStreamProtocolListener};
    use tokio::io::{AsyncReadExt, AsyncWriteExt};
    use tokio::net::{TcpListener, TcpStream, UnixListener, UnixStream};
    let mut rng = rng.clone();
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().map_err(|e| e.to_string())?;
    let dir = std::env::temp_dir().join(format!("bromine-harness-{}-{}", std::process::id(), rng.u64()));
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let d2 = dir.clone();
    let f = async move {
        let opts = |rng: &mut Rng| TcpOptions { ttl: rng.pick(&[None, Some(1u32), Some(17), Some(255)]) };
        let e = |e: IPCError| e.to_string();
        let io = |e: std::io::Error| e.to_string();
        // TCP
        let std_ttl = TcpListener::bind("127.0.0.1:0").await.map_err(io)?.ttl().map_err(io)?;
        let (lo, so) = (opts(&mut rng), opts(&mut rng));
        let l = <TcpListener as AsyncStreamProtocolListener>::protocol_bind("127.0.0.1:0".parse().unwrap(), lo.clone()).await.map_err(e)?;
        let a = l.local_addr().map_err(io)?;
        ensure!(a.ip().is_loopback(), "bound to {} instead of 127.0.0.1", a);
        ensure!(l.ttl().map_err(io)? == lo.ttl.unwrap_or(std_ttl), "a listener with {:?} has a time to live of {:?}", lo, l.ttl());
        ensure!(<TcpListener as AsyncStreamProtocolListener>::protocol_bind(a, lo.clone()).await.is_err(), "the address {} is bound twice", a);
        let (c, s) = tokio::join!(<TcpStream as AsyncProtocolStream>::protocol_connect(a, so.clone()), l.protocol_accept());
        let (c, (s, r)) = (c.map_err(e)?, s.map_err(e)?);
        ensure!(c.peer_addr().map_err(io)? == a, "connected to another address than {}", a);
        ensure!(c.ttl().map_err(io)? == so.ttl.unwrap_or(std_ttl), "a stream with {:?} has a time to live of {:?}", so, c.ttl());
        ensure!(r == c.local_addr().map_err(io)?, "a connection from {:?} is said to come from {:?}", c.local_addr(), r);
        let d = rng.bytes(20);
        let ((mut r, mut w), (mut r2, mut w2)) = (c.protocol_into_split(), s.protocol_into_split());
        w.write_all(&d).await.map_err(io)?;
        let mut b = [0; 20];
        r2.read_exact(&mut b).await.map_err(io)?;
        ensure!(b[..] == d[..], "other bytes arrive");
        w2.write_all(&d[1..]).await.map_err(io)?;
        r.read_exact(&mut b[1..]).await.map_err(io)?;
        // Unix sockets
        let p = d2.join("Socket a");
        ensure!(<UnixStream as AsyncProtocolStream>::protocol_connect(p.clone(), ()).await.is_err(), "connected although nobody listens");
        let l = <UnixListener as AsyncStreamProtocolListener>::protocol_bind(p.clone(), ()).await.map_err(e)?;
        ensure!(l.local_addr().map_err(io)?.as_pathname() == Some(&p), "bound to {:?}", l.local_addr());
        ensure!(<UnixListener as AsyncStreamProtocolListener>::protocol_bind(p.clone(), ()).await.is_err(), "the path is bound twice");
        let (c, s) = tokio::join!(<UnixStream as AsyncProtocolStream>::protocol_connect(p.clone(), ()), l.protocol_accept());
        let (c, (s, _)) = (c.map_err(e)?, s.map_err(e)?);
        let ((mut r, mut w), (mut r2, mut w2)) = (c.protocol_into_split(), s.protocol_into_split());
        w.write_all(&d).await.map_err(io)?;
        r2.read_exact(&mut b).await.map_err(io)?;
        ensure!(b[..] == d[..], "other bytes arrive");
        w2.write_all(&d[1..]).await.map_err(io)?;
        r.read_exact(&mut b[1..]).await.map_err(io)?;
        Ok(())
    };
    let r = rt.block_on(async { tokio::time::timeout(std::time::Duration::from_secs(20), f).await.unwrap_or_else(|_| Err("no progress on real sockets".into())) });
    let _ = std::fs::remove_dir_all(&dir);
    r
}
