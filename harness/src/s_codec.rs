//! C01-C06
use crate::mem;
use crate::rng::Rng;
use crate::wire::{self, Frame};
use crate::{ensure, run, Scenario, R};
use bromine::bytes::Bytes;
use bromine::event::{Event, EventType};
use bromine::payload::BytePayload;
use bromine::prelude::IPCError;
use std::pin::Pin;
use tokio::io::{AsyncRead, AsyncReadExt};

pub fn all() -> Vec<(&'static str, Vec<Scenario>)> {
    vec![
        ("C01", vec![("frames of arbitrary events round-trip", 600, roundtrip), ("headers at the 16-bit limit", 60, limit), ("back-to-back frames", 200, back_to_back), ("large frames", 2, large)]),
        ("C02", vec![("encoded events have the documented bytes", 600, layout)]),
        ("C03", vec![("arbitrary bytes give what they encode or an error", 4000, garbage), ("damaged frames give what they encode or an error", 4000, damaged), ("huge claimed lengths", 60, huge)]),
        ("C04", vec![("longer headers and other versions", 600, versions)]),
        ("C05", vec![("ids of events made in many threads", 2, ids)]),
        ("C06", vec![("constructors and accessors", 600, constructors)]),
    ]
}

fn ty_num(t: EventType) -> u8 {
    match t {
        EventType::Initiator => 0,
        EventType::Response => 1,
        EventType::End => 2,
        EventType::Error => 3,
    }
}

/// an event made with the public constructors, and what it has to be
pub fn make(rng: &mut Rng, nsl: usize, nl: usize, pl: usize) -> (Event, Frame) {
    let ns = if rng.chance(60) { Some(rng.text(nsl)) } else { None };
    let name = rng.text(nl);
    let data = rng.bytes(pl);
    let r = rng.u64();
    let k = rng.below(4) as u8;
    let d = Bytes::from(data.clone());
    let e = match k {
        0 => Event::initiator(ns.clone(), name.clone(), d),
        1 => Event::response(ns.clone(), name.clone(), d, r),
        2 => Event::end(ns.clone(), name.clone(), d, r),
        _ => Event::error(ns.clone(), name.clone(), d, r),
    };
    let f = Frame::new(k, e.id(), if k == 0 { None } else { Some(r) }, ns.as_deref(), &name, &data);
    (e, f)
}

pub fn same(e: &Event, f: &Frame) -> R {
    ensure!(e.id() == f.id, "id {} instead of {}", e.id(), f.id);
    ensure!(ty_num(e.event_type()) == f.ty, "type {:?} instead of {}", e.event_type(), f.ty);
    ensure!(e.reference_id() == f.ref_id, "reference {:?} instead of {:?}", e.reference_id(), f.ref_id);
    let ns = f.ns.clone().filter(|s| !s.is_empty());
    ensure!(e.namespace().clone().filter(|s| !s.is_empty()) == ns, "namespace {:?} instead of {:?}", e.namespace(), f.ns);
    ensure!(e.name() == f.name, "name {:?} instead of {:?}", e.name(), f.name);
    ensure!(e.data_raw() == &f.payload[..], "payload of {} bytes differs from that of {} bytes", e.data_raw().len(), f.payload.len());
    let p: BytePayload = e.payload().map_err(|e| format!("payload: {}", e))?;
    ensure!(p.into_inner() == f.payload, "the decoded payload differs");
    Ok(())
}

/// a reader over the bytes that delivers them in pieces
pub fn reader(rng: &mut Rng, b: &[u8]) -> (mem::MemStream, mem::Peer) {
    let (s, p) = mem::pair(rng);
    {
        let mut c = p.ctl.lock().unwrap();
        c.chunk = if b.len() > 100_000 { rng.pick(&[0, 4096, 100_000]) } else { rng.pick(&[0, 1, 3, 40]) };
        c.pend = rng.pick(&[0, 30]);
    }
    p.send(b);
    p.close();
    (s, p)
}

async fn decode<T: AsyncRead + Unpin>(r: &mut T) -> Result<Event, IPCError> {
    Event::from_async_read(&mut Pin::new(r)).await
}

fn size(rng: &mut Rng, max: usize) -> usize {
    match rng.below(6) {
        0 => 0,
        1 => 1,
        2 => rng.below(max + 1),
        3 => rng.pick(&[127, 128, 255, 256, 257]).min(max),
        _ => rng.below(20).min(max),
    }
}

/// sizes of namespace, name and payload; now and then near the limits of their length fields, and payloads of megabytes
fn sizes(rng: &mut Rng, names: usize, payload: usize) -> (usize, usize, usize) {
    match rng.below(40) {
        0 => (size(rng, 30000), 30000 + rng.below(5000), size(rng, payload)),
        1 => (30000 + rng.below(5000), size(rng, 30000), size(rng, payload)),
        2 => (rng.below(65000), 0, 0),
        3 => (0, rng.below(65000), 1),
        4 => {
            let n = rng.pick(&[4095usize, 4096, 4097, 8191, 8192, 8193, 16384, 32767, 32768, 40000]);
            (size(rng, 20), n, size(rng, 20))
        }
        5 => {
            let n = rng.pick(&[65535usize, 65536, 65537, 1 << 20, (1 << 20) + 1, 3_000_000]);
            (size(rng, 20), size(rng, 20), n)
        }
        _ => (size(rng, names), size(rng, names), size(rng, payload)),
    }
}

/// payloads beyond the sizes at which something could be limited
fn large(rng: &mut Rng) -> R {
    let n = rng.pick(&[(1 << 24) + 1, 33 << 20]);
    let d: Vec<u8> = (0..n).map(|i| (i % 251) as u8).collect();
    run(async move {
        let e = Event::response(None, "large".into(), Bytes::from(d.clone()), 1);
        let b = e.into_bytes().map_err(|e| format!("refused: {}", e))?;
        ensure!(b.len() > n && b.ends_with(&d), "a payload of {} bytes is encoded to {}", n, b.len());
        let e = Event::from_async_read(&mut &b[..]).await.map_err(|e| format!("own encoding refused: {}", e))?;
        ensure!(e.data_raw() == &d[..], "a payload of {} bytes is read as one of {}", n, e.data_raw().len());
        Ok(())
    })
}

fn roundtrip(rng: &mut Rng) -> R {
    let (nsl, nl, pl) = sizes(rng, 3000, 70000);
    let (e, f) = make(rng, nsl, nl, pl);
    let b = e.into_bytes().map_err(|e| format!("refused: {}", e))?;
    let n = rng.below(30);
    let rest = rng.bytes(n);
    let mut s = b.to_vec();
    s.extend(&rest);
    let (mut r, _p) = reader(rng, &s);
    run(async move {
        let e = decode(&mut r).await.map_err(|e| format!("own encoding refused: {}", e))?;
        same(&e, &f)?;
        let mut left = vec![];
        r.read_to_end(&mut left).await.unwrap();
        ensure!(left == rest, "{} bytes after the frame are left of {}", left.len(), rest.len());
        // the same event with other references, its own id among them
        for x in [f.id, !f.id, 0, u64::MAX] {
            let mut f = f.clone();
            f.ref_id = Some(x);
            let e = decode(&mut &f.bytes()[..]).await.map_err(|e| format!("an event that references {:#x} is refused: {}", x, e))?;
            same(&e, &f)?;
            let b = e.into_bytes().map_err(|e| format!("refused: {}", e))?;
            same(&decode(&mut &b[..]).await.map_err(|e| format!("own encoding refused: {}", e))?, &f)?;
        }
        Ok(())
    })
}

fn limit(rng: &mut Rng) -> R {
    // header: 3 + 8 + 1 + 1 or 9 + 2 + ns + 2 + name
    let d: i64 = rng.below(7) as i64 - 3;
    let nsl = rng.pick(&[0usize, 1, 5, 30000, 65000]);
    let total = (65535 + d) as usize;
    let fixed = 3 + 8 + 1 + 1 + 2 + 2;
    let nl = total - fixed - nsl;
    let data = rng.bytes(3);
    let ns = rng.text(nsl);
    let name = rng.text(nl);
    let refd = rng.chance(50);
    let mk = |n: String| {
        if refd {
            Event::response(Some(ns.clone()), n, Bytes::from(data.clone()), 5)
        } else {
            Event::initiator(Some(ns.clone()), n, Bytes::from(data.clone()))
        }
    };
    let (e, hl) = (mk(name.clone()), if refd { total + 8 } else { total });
    let f = Frame::new(if refd { 1 } else { 0 }, e.id(), if refd { Some(5) } else { None }, Some(&ns), &name, &data);
    match e.into_bytes() {
        Ok(b) => {
            ensure!(hl <= 65535, "a header of {} bytes was encoded", hl);
            let (mut r, _p) = reader(rng, &b);
            run(async move { same(&decode(&mut r).await.map_err(|e| format!("own encoding refused: {}", e))?, &f) })
        }
        Err(_) => {
            ensure!(hl > 65535, "a header of {} bytes was refused", hl);
            Ok(())
        }
    }?;
    // far beyond
    let n = rng.pick(&[65536usize, 65540, 131072, 140000]);
    let big = rng.text(n);
    ensure!(mk(big).into_bytes().is_err(), "a name of {} bytes was encoded", n);
    let e = Event::initiator(Some(rng.text(n)), "n".into(), Bytes::new());
    ensure!(e.into_bytes().is_err(), "a namespace of {} bytes was encoded", n);
    Ok(())
}

fn back_to_back(rng: &mut Rng) -> R {
    let mut s = vec![];
    let mut fs = vec![];
    for _ in 0..2 + rng.below(5) {
        let (nsl, nl, pl) = (size(rng, 300), size(rng, 300), size(rng, 3000));
        let (e, f) = make(rng, nsl, nl, pl);
        s.extend(e.into_bytes().map_err(|e| e.to_string())?);
        fs.push(f);
    }
    let (mut r, _p) = reader(rng, &s);
    run(async move {
        for f in &fs {
            same(&decode(&mut r).await.map_err(|e| format!("own encoding refused: {}", e))?, f)?;
        }
        ensure!(decode(&mut r).await.is_err(), "an event from no bytes");
        Ok(())
    })
}

fn layout(rng: &mut Rng) -> R {
    let (nsl, nl, pl) = sizes(rng, 3000, 70000);
    let (e, f) = make(rng, nsl, nl, pl);
    let b = e.into_bytes().map_err(|e| e.to_string())?;
    let w = f.bytes();
    if b[..] != w[..] {
        let i = b.iter().zip(&w).position(|(a, b)| a != b).unwrap_or(b.len().min(w.len()));
        return Err(format!("the encoding of {:?} differs from the documented one at byte {} (lengths {} and {})", (f.ty, f.ref_id, nsl, nl, pl), i, b.len(), w.len()));
    }
    // received events of every type, with and without reference, written again
    let mut f = f;
    f.id = rng.u64();
    f.ty = rng.below(4) as u8;
    f.ref_id = match rng.below(4) {
        0 => None,
        1 => Some(f.id),
        2 => Some(0),
        _ => Some(rng.u64()),
    };
    let w = f.bytes();
    run(async move {
        let e = decode(&mut &w[..]).await.map_err(|e| format!("a well-formed frame is refused: {}", e))?;
        let b = e.into_bytes().map_err(|e| format!("refused: {}", e))?;
        ensure!(b[..] == w[..], "the encoding of a received event of type {} with reference {:?} differs from the documented one", f.ty, f.ref_id);
        Ok(())
    })
}

/// what decoding the stream must give
fn expect(b: &[u8]) -> Option<Frame> {
    match wire::parse(b) {
        Ok(Some((f, _))) => Some(f),
        _ => None,
    }
}

fn decide(rng: &mut Rng, b: Vec<u8>) -> R {
    let want = expect(&b);
    let (mut r, _p) = reader(rng, &b);
    run(async move {
        match (decode(&mut r).await, want) {
            (Ok(e), Some(f)) => {
                same(&e, &f).map_err(|m| format!("{} for {:02x?}", m, &b[..b.len().min(80)]))?;
                let mut left = vec![];
                r.read_to_end(&mut left).await.unwrap();
                let n = wire::parse(&b).unwrap().unwrap().1;
                ensure!(left[..] == b[n..], "decoding consumed {} bytes instead of {}", b.len() - left.len(), n);
            }
            (Err(_), None) => {}
            (Ok(e), None) => return Err(format!("the event {:?} from the malformed bytes {:02x?}", (e.id(), e.name(), e.namespace(), e.reference_id()), &b[..b.len().min(80)])),
            (Err(e), Some(f)) => return Err(format!("error {} for a well-formed frame {:?}", e, (f.ty, f.ref_id, f.ns, f.name.len(), f.payload.len(), f.version))),
        }
        Ok(())
    })
}

fn garbage(rng: &mut Rng) -> R {
    let n = rng.below(60);
    let mut b = rng.bytes(n);
    if rng.chance(80) {
        // plausible lengths first
        let h = rng.below(50) as u16;
        let t = rng.below(80) as u64;
        let mut x = t.to_be_bytes().to_vec();
        x.extend(h.to_be_bytes());
        if rng.chance(80) {
            x.extend([0, rng.next() as u8, rng.next() as u8]);
            x.extend(rng.bytes(8));
            x.push(rng.below(6) as u8);
            x.push(rng.pick(&[0, 0, 0xFF, 0xFF, 1, 0xFE]));
        }
        x.extend(b.iter().map(|v| if v % 3 == 0 { 0 } else { v % 8 }));
        b = x;
    }
    decide(rng, b)
}

fn damaged(rng: &mut Rng) -> R {
    let (nsl, nl, pl) = (size(rng, 30), size(rng, 30), size(rng, 40));
    let (_, f) = make(rng, nsl, nl, pl);
    let ne = rng.pick(&[0, 0, 0, 1, 9]);
    let extra = rng.bytes(ne);
    let mut b = f.bytes_with(&extra);
    let n = rng.below(20);
    b.extend(rng.bytes(n));
    match rng.below(7) {
        0 => b.truncate(rng.clone().below(b.len() + 1)),
        1 => {
            let i = rng.below(b.len().min(60));
            b[i] = rng.next() as u8;
        }
        2 => {
            let i = rng.below(b.len().min(60));
            b[i] ^= 1 << rng.below(8);
        }
        3 => {
            // the length fields
            let i = rng.pick(&[7usize, 9]);
            b[i] = b[i].wrapping_add(rng.below(5) as u8).wrapping_sub(2);
        }
        4 => {
            // text that is not UTF-8
            if nl > 0 {
                let at = 10 + f.header().len() - 1;
                b[at] = 0xC3;
            }
        }
        5 => {
            let k = rng.below(3);
            for _ in 0..k {
                let i = rng.below(b.len().min(40));
                b[i] = rng.pick(&[0u8, 1, 0x7F, 0x80, 0xFF]);
            }
        }
        _ => {}
    }
    // lengths that make the reference parser wait for more are the same as the stream ending
    decide(rng, b)
}

fn huge(rng: &mut Rng) -> R {
    let (_, f) = make(rng, 3, 5, 40);
    let mut b = f.bytes();
    let claim: u64 = rng.pick(&[u64::MAX, u64::MAX - 9, 1 << 63, 1 << 40, 1 << 33, (1 << 32) + 60, 1 << 31]);
    b[..8].copy_from_slice(&claim.to_be_bytes());
    if rng.chance(30) {
        b[8] = 0xFF;
        b[9] = rng.next() as u8;
    }
    if rng.chance(30) {
        // total smaller than the header
        let hl = u16::from_be_bytes([b[8], b[9]]) as u64;
        let t = rng.next() % hl;
        b[..8].copy_from_slice(&t.to_be_bytes());
    }
    decide(rng, b)
}

fn versions(rng: &mut Rng) -> R {
    let (nsl, nl, pl) = sizes(rng, 30, 200);
    let (_, mut f) = make(rng, nsl, nl, pl);
    f.version = [rng.pick(&[0, 0, 0, 1, 255, 9]), rng.next() as u8, rng.next() as u8];
    let room = 65535 - f.header().len();
    let ne = if rng.chance(10) { room } else { size(rng, 300).min(room) };
    let b = f.bytes_with(&rng.bytes(ne));
    let rest = rng.bytes(7);
    let mut s = b.clone();
    s.extend(&rest);
    let (mut r, _p) = reader(rng, &s);
    run(async move {
        let v = f.version;
        match decode(&mut r).await {
            Ok(e) => {
                ensure!(v[0] == 0, "version {:?} was accepted", v);
                same(&e, &f).map_err(|m| format!("{} with {} extra header bytes", m, ne))?;
                let mut left = vec![];
                r.read_to_end(&mut left).await.unwrap();
                ensure!(left == rest, "what follows a frame with {} extra header bytes is not what is left", ne);
            }
            Err(IPCError::UnsupportedVersion(t)) => {
                ensure!(v[0] != 0, "version {:?} was refused", v);
                ensure!(t == format!("{}.{}.{}", v[0], v[1], v[2]), "the error names {} instead of {:?}", t, v);
            }
            Err(e) => return Err(format!("error {} for version {:?} with {} extra header bytes", e, v, ne)),
        }
        Ok(())
    })
}

fn ids(_rng: &mut Rng) -> R {
    let hs: Vec<_> = (0..8)
        .map(|_| std::thread::spawn(|| (0..60000).map(|_| Event::initiator(None, String::new(), Bytes::new()).id()).collect::<Vec<u64>>()))
        .collect();
    let mut l: Vec<u64> = hs.into_iter().flat_map(|h| h.join().unwrap()).collect();
    let n = l.len();
    l.sort();
    l.dedup();
    ensure!(l.len() == n, "{} of {} ids are repeated", n - l.len(), n);
    Ok(())
}

fn constructors(rng: &mut Rng) -> R {
    let (nsl, nl, pl) = sizes(rng, 300, 3000);
    let (e, f) = make(rng, nsl, nl, pl);
    same(&e, &f)?;
    ensure!(*e.namespace() == f.ns, "namespace {:?} instead of {:?}", e.namespace(), f.ns);
    // decoded
    let (_, mut f) = make(rng, nsl.min(60000 - nl.min(30000)), nl.min(30000), pl);
    f.id = rng.u64();
    f.ref_id = match rng.below(8) {
        0 => Some(f.id),
        1..=3 => Some(rng.u64()),
        _ => None,
    };
    let (mut r, _p) = reader(rng, &f.bytes());
    run(async move { same(&decode(&mut r).await.map_err(|e| e.to_string())?, &f) })
}
