//! C14-C16
use crate::mem::MemListener;
use crate::rng::Rng;
use crate::{ensure, run, Scenario, R};
use bromine::bytes::Bytes;
use bromine::context::Context;
use bromine::error_event::ErrorEventData;
use bromine::payload::*;
use bromine::prelude::{IPCBuilder, IPCError, IPCResult, Response};

pub fn all() -> Vec<(&'static str, Vec<Scenario>)> {
    vec![
        ("C14", vec![("built-in payloads have their layout and round-trip", 500, builtin), ("a part that fails to convert", 100, failing_part), ("large payloads", 2, large)]),
        ("C15", vec![("arbitrary bytes as payloads", 4000, malformed), ("huge claimed lengths in payloads", 100, huge)]),
        ("C16", vec![("serde payloads name their format", 600, serde_formats), ("the default serializer", 60, default_serializer)]),
    ]
}

pub async fn context(s: Option<DynamicSerializer>) -> Context {
    let mut b = IPCBuilder::<MemListener>::new().address(900);
    if let Some(s) = s {
        b = b.default_serializer(s);
    }
    b.build_client().await.unwrap()
}

fn size(rng: &mut Rng) -> usize {
    rng.pick(&[0, 1, 2, 15, 16, 17, 255, 256, 300, 5000])
}

/// two different ways of converting, so that a part decoded from the wrong bytes shows
pub struct Rev(pub Vec<u8>);
impl IntoPayload for Rev {
    fn into_payload(self, _: &Context) -> IPCResult<Bytes> {
        Ok(self.0.into_iter().rev().collect::<Vec<u8>>().into())
    }
}
impl FromPayload for Rev {
    fn from_payload<R: std::io::Read>(mut r: R) -> IPCResult<Self> {
        let mut v = vec![];
        r.read_to_end(&mut v)?;
        v.reverse();
        Ok(Rev(v))
    }
}

pub struct Bad(pub &'static str);
impl IntoPayload for Bad {
    fn into_payload(self, _: &Context) -> IPCResult<Bytes> {
        Err(IPCError::Message(self.0.into()))
    }
}
impl FromPayload for Bad {
    fn from_payload<R: std::io::Read>(_: R) -> IPCResult<Self> {
        Err(IPCError::Message("bad part".into()))
    }
}

/// reads only the start of its bytes
struct Greedy(u8);
impl FromPayload for Greedy {
    fn from_payload<R: std::io::Read>(mut r: R) -> IPCResult<Self> {
        let mut b = [0u8; 1];
        let n = r.read(&mut b)?;
        Ok(Greedy(if n == 0 { 0 } else { b[0] }))
    }
}

/// sizes beyond those at which something could be limited
fn large(rng: &mut Rng) -> R {
    let n = rng.pick(&[(1 << 24) + 1, 33 << 20]);
    let d: Vec<u8> = (0..n).map(|i| (i % 251) as u8).collect();
    run(async move {
        let c = context(None).await;
        let p = BytePayload::new(d.clone()).into_payload(&c).map_err(|e| e.to_string())?;
        ensure!(p[..] == d[..], "a raw payload of {} bytes is not its bytes", n);
        let q = BytePayload::from_payload(&p[..]).map_err(|e| e.to_string())?.into_inner();
        ensure!(q == d, "a raw payload of {} bytes is decoded to {}", n, q.len());
        let p = TandemPayload::new(BytePayload::new(d.clone()), BytePayload::new(d.clone())).into_payload(&c).map_err(|e| e.to_string())?;
        ensure!(p[..8] == (n as u64).to_be_bytes() && p[8 + n..16 + n] == (n as u64).to_be_bytes() && p.len() == 16 + 2 * n, "a tandem of twice {} bytes", n);
        let (x, y) = TandemPayload::<BytePayload, BytePayload>::from_payload(&p[..]).map_err(|e| e.to_string())?.into_inner();
        ensure!(x.into_inner() == d && y.into_inner() == d, "a tandem of twice {} bytes does not round-trip", n);
        let m = "x".repeat(n);
        let p = ErrorEventData { code: 1, message: m.clone() }.into_payload(&c).map_err(|e| e.to_string())?;
        ensure!(p[2..6] == (n as u32).to_be_bytes() && p.len() == 6 + n, "an error of {} bytes", n);
        ensure!(ErrorEventData::from_payload(&p[..]).map_err(|e| e.to_string())?.message == m, "an error of {} bytes does not round-trip", n);
        Ok(())
    })
}

fn builtin(rng: &mut Rng) -> R {
    let (n, m) = match rng.below(40) {
        0 => (rng.pick(&[255, 256, 65_535, 65_536, 65_537, 200_000]), size(rng)),
        1 => (size(rng), rng.pick(&[255, 256, 65_535, 65_536, 65_537, 200_000])),
        _ => (size(rng), size(rng)),
    };
    let (a, b) = (rng.bytes(n), rng.bytes(m));
    let code = if rng.chance(30) { rng.pick(&[0, 1, 255, 256, 499, 500, 501, 32767, 32768, 65535]) } else { rng.next() as u16 };
    let k = if rng.below(40) == 0 { rng.pick(&[255, 256, 65_535, 65_536, 65_537, 200_000]) } else { size(rng) };
    let msg = rng.text(k);
    run(async move {
        let c = context(None).await;
        // raw
        let p = BytePayload::new(a.clone()).into_payload(&c).map_err(|e| e.to_string())?;
        ensure!(p[..] == a[..], "a raw payload is not its bytes");
        ensure!(BytePayload::from_payload(&p[..]).map_err(|e| e.to_string())?.into_bytes()[..] == a[..], "a raw payload does not round-trip");
        ensure!(Response::payload(&c, BytePayload::new(a.clone())).is_ok(), "response");
        // tandem
        let p = TandemPayload::new(BytePayload::new(a.clone()), Rev(b.clone())).into_payload(&c).map_err(|e| e.to_string())?;
        let mut w = (a.len() as u64).to_be_bytes().to_vec();
        w.extend(&a);
        w.extend((b.len() as u64).to_be_bytes());
        w.extend(b.iter().rev());
        ensure!(p[..] == w[..], "tandem layout of parts of {} and {} bytes", a.len(), b.len());
        let (x, y) = TandemPayload::<BytePayload, Rev>::from_payload(&p[..]).map_err(|e| e.to_string())?.into_inner();
        ensure!(x.into_inner() == a && y.0 == b, "tandem of {} and {} bytes does not round-trip", a.len(), b.len());
        let (x, y) = TandemPayload::<Greedy, BytePayload>::from_payload(&p[..]).map_err(|e| e.to_string())?.into_inner();
        ensure!(x.0 == a.first().copied().unwrap_or(0), "the first tandem part sees other bytes");
        ensure!(y.into_inner() == b.iter().rev().cloned().collect::<Vec<u8>>(), "the second tandem part depends on what the first one reads");
        // what follows the encoding is none of the parts' business
        let mut q = p.to_vec();
        q.extend(&b);
        q.push(1);
        let (x, y) = TandemPayload::<BytePayload, Rev>::from_payload(&q[..]).map_err(|e| e.to_string())?.into_inner();
        ensure!(x.into_inner() == a && y.0 == b, "a tandem part is decoded from bytes behind the payload");
        // nested
        let p = TandemPayload::new(TandemPayload::new(BytePayload::new(b.clone()), BytePayload::new(a.clone())), BytePayload::new(b.clone())).into_payload(&c).map_err(|e| e.to_string())?;
        let (x, y) = TandemPayload::<TandemPayload<BytePayload, BytePayload>, BytePayload>::from_payload(&p[..]).map_err(|e| e.to_string())?.into_inner();
        let (x1, x2) = x.into_inner();
        ensure!(x1.into_inner() == b && x2.into_inner() == a && y.into_inner() == b, "nested tandem does not round-trip");
        // error
        let p = ErrorEventData { code, message: msg.clone() }.into_payload(&c).map_err(|e| e.to_string())?;
        let mut w = code.to_be_bytes().to_vec();
        w.extend((msg.len() as u32).to_be_bytes());
        w.extend(msg.as_bytes());
        ensure!(p[..] == w[..], "error layout for code {} and {:?}", code, msg);
        let e = ErrorEventData::from_payload(&p[..]).map_err(|e| e.to_string())?;
        ensure!(e.code == code && e.message == msg, "error data does not round-trip: {} {:?}", e.code, e.message);
        let mut q = p.to_vec();
        q.extend(&a);
        q.push(1);
        let e = ErrorEventData::from_payload(&q[..]).map_err(|e| e.to_string())?;
        ensure!(e.code == code && e.message == msg, "error data is decoded from bytes behind the payload");
        Ok(())
    })
}

fn failing_part(rng: &mut Rng) -> R {
    let n = size(rng);
    let a = rng.bytes(n);
    run(async move {
        let c = context(None).await;
        let is = |r: IPCResult<Bytes>, t: &str| matches!(r, Err(IPCError::Message(m)) if m == t);
        ensure!(is(TandemPayload::new(Bad("x"), BytePayload::new(a.clone())).into_payload(&c), "x"), "a failing first part is not reported");
        ensure!(is(TandemPayload::new(BytePayload::new(a.clone()), Bad("y")).into_payload(&c), "y"), "a failing second part is not reported");
        ensure!(matches!(Response::payload(&c, Bad("z")), Err(IPCError::Message(m)) if m == "z"), "a failing response is not reported");
        let p = TandemPayload::new(BytePayload::new(a.clone()), BytePayload::new(a.clone())).into_payload(&c).map_err(|e| e.to_string())?;
        ensure!(TandemPayload::<Bad, BytePayload>::from_payload(&p[..]).is_err(), "a failing first part is not reported when decoding");
        ensure!(TandemPayload::<BytePayload, Bad>::from_payload(&p[..]).is_err(), "a failing second part is not reported when decoding");
        Ok(())
    })
}

fn ref_tandem(b: &[u8]) -> Option<(Vec<u8>, Vec<u8>)> {
    let part = |b: &[u8]| -> Option<(Vec<u8>, usize)> {
        let n = u64::from_be_bytes(b.get(..8)?.try_into().ok()?);
        let d = &b[8..];
        if (d.len() as u64) < n {
            return None;
        }
        Some((d[..n as usize].to_vec(), 8 + n as usize))
    };
    let (x, n) = part(b)?;
    let (y, _) = part(&b[n..])?;
    Some((x, y))
}

fn ref_error(b: &[u8]) -> Option<(u16, String)> {
    let code = u16::from_be_bytes(b.get(..2)?.try_into().ok()?);
    let n = u32::from_be_bytes(b.get(2..6)?.try_into().ok()?) as usize;
    let d = b.get(6..6 + n)?;
    Some((code, String::from_utf8(d.to_vec()).ok()?))
}

fn check(b: &[u8]) -> R {
    let hex = format!("{:02x?}", &b[..b.len().min(60)]);
    ensure!(BytePayload::from_payload(b).map(|p| p.into_inner()).ok().as_deref() == Some(b), "raw payload of {}", hex);
    let t = TandemPayload::<BytePayload, BytePayload>::from_payload(b).ok().map(|t| {
        let (x, y) = t.into_inner();
        (x.into_inner(), y.into_inner())
    });
    ensure!(t == ref_tandem(b), "tandem of {}: {:?} instead of {:?}", hex, t.is_some(), ref_tandem(b).is_some());
    let e = ErrorEventData::from_payload(b).ok().map(|e| (e.code, e.message));
    ensure!(e == ref_error(b), "error data of {}: {:?} instead of {:?}", hex, e, ref_error(b));
    let _ = SerdePayload::<Vec<String>>::from_payload(b).map(|p| p.data());
    let _ = SerdePayload::<(u8, String, Option<u64>)>::from_payload(b).map(|p| p.data());
    let s = SerdePayload::<u64>::from_payload(b);
    if b.is_empty() || b[0] > 3 {
        ensure!(s.is_err(), "serde payload of {}", hex);
    }
    Ok(())
}

fn malformed(rng: &mut Rng) -> R {
    let n = rng.below(40);
    let mut b = match rng.below(4) {
        0 => rng.bytes(n),
        1 => {
            let mut v = (rng.below(12) as u64).to_be_bytes().to_vec();
            let k = rng.below(14);
            v.extend(rng.bytes(k));
            if rng.chance(70) {
                let k = rng.below(12);
                v.extend((k as u64).to_be_bytes());
                let j = k + rng.below(3);
                v.extend(rng.bytes(j.saturating_sub(1)));
            }
            v
        }
        2 => {
            let mut v = rng.bytes(2);
            v.extend((rng.below(10) as u32).to_be_bytes());
            let k = rng.below(12);
            if rng.chance(50) {
                v.extend(rng.text(k).as_bytes());
            } else {
                v.extend(rng.bytes(k));
            }
            v
        }
        _ => {
            let mut v = vec![rng.below(6) as u8];
            v.extend(rng.bytes(n));
            v
        }
    };
    if rng.chance(10) && !b.is_empty() {
        let i = rng.below(b.len());
        b[i] = 0xFF;
    }
    check(&b)
}

fn huge(rng: &mut Rng) -> R {
    let claim: u64 = rng.pick(&[u64::MAX, u64::MAX - 7, 1 << 63, 1 << 40, 1 << 33, 1 << 31]);
    let mut b = claim.to_be_bytes().to_vec();
    let n = rng.below(40);
    b.extend(rng.bytes(n));
    check(&b)?;
    let mut b = 3u64.to_be_bytes().to_vec();
    b.extend([1, 2, 3]);
    b.extend(claim.to_be_bytes());
    b.extend(rng.bytes(5));
    check(&b)?;
    let mut b = vec![1, 2];
    b.extend(rng.pick(&[u32::MAX, u32::MAX - 5, 1 << 31, 1 << 30]).to_be_bytes());
    b.extend(b"hello");
    check(&b)?;
    // the lengths of the serde formats: strings, lists, maps
    for head in [
        [vec![0, 0xdb], vec![0xff; 4]].concat(),
        [vec![0, 0xc6], vec![0xff; 4]].concat(),
        [vec![0, 0xdd], vec![0xff; 4]].concat(),
        [vec![0, 0x93, 7, 0xdb], vec![0xff; 4]].concat(),
        [vec![0, 0x91, 0xdb], vec![0xff, 0xff, 0xff, 0xf0]].concat(),
        [vec![1], claim.to_le_bytes().to_vec()].concat(),
        [vec![1], 1u64.to_le_bytes().to_vec(), claim.to_le_bytes().to_vec()].concat(),
        [vec![1, 9], claim.to_le_bytes().to_vec()].concat(),
        [vec![2], vec![0xff; 9], vec![1]].concat(),
        [vec![2, 1], vec![0xff; 9], vec![1]].concat(),
        [vec![2, 9], vec![0xff; 9], vec![1]].concat(),
        [vec![3], vec![b'['; 200_000]].concat(),
    ] {
        let mut b = head.clone();
        let n = rng.below(30);
        b.extend(rng.bytes(n));
        check(&b)?;
        let _ = SerdePayload::<String>::from_payload(&b[..]);
        let _ = SerdePayload::<std::collections::HashMap<String, Vec<u8>>>::from_payload(&b[..]);
        let _ = SerdePayload::<Vec<(u64, Vec<String>)>>::from_payload(&b[..]);
        let _ = Vec::<Vec<u32>>::from_payload(&b[..]);
    }
    Ok(())
}

type V = (u32, String, Vec<u8>, Option<i16>);

fn value(rng: &mut Rng) -> V {
    let (a, b) = (rng.below(20), rng.below(40));
    (rng.next() as u32, rng.text(a), rng.bytes(b), if rng.chance(50) { Some(rng.next() as i16) } else { None })
}

fn reference(id: u8, v: &V) -> Vec<u8> {
    let mut b = vec![id];
    b.extend(match id {
        0 => rmp_serde::to_vec(v).unwrap(),
        1 => bincode::serialize(v).unwrap(),
        2 => postcard::to_allocvec(v).unwrap(),
        _ => serde_json::to_vec(v).unwrap(),
    });
    b
}

const FORMATS: [DynamicSerializer; 4] = [DynamicSerializer::Messagepack, DynamicSerializer::Bincode, DynamicSerializer::Postcard, DynamicSerializer::Json];

fn serde_formats(rng: &mut Rng) -> R {
    let v = value(rng);
    for id in 0..4u8 {
        let s = FORMATS[id as usize];
        let p = SerdePayload::new(s, v.clone()).try_into_bytes().map_err(|e| e.to_string())?;
        ensure!(p[..] == reference(id, &v)[..], "payload of {:?} in {:?}", v, s);
        let q = SerdePayload::<V>::from_payload(&p[..]).map_err(|e| format!("{:?}: {}", s, e))?;
        ensure!(q.data() == v, "{:?} does not round-trip {:?}", s, v);
        let q = SerdePayload::<V>::from_payload(&p[..]).map_err(|e| e.to_string())?;
        ensure!(q.clone().try_into_bytes().map_err(|e| e.to_string())?[..] == p[..], "a payload decoded from {:?} is encoded in another format", s);
        ensure!(V::from_payload(&p[..]).map_err(|e| e.to_string())? == v, "{:?} does not round-trip {:?} as a value", s, v);
        ensure!(DynamicSerializer::from_primitive(id as usize).map_err(|e| e.to_string())? == s, "format {}", id);
    }
    let bad = 4 + rng.below(252) as u8;
    // followed by something that some format would accept
    let mut p = reference(rng.below(4) as u8, &v);
    p[0] = bad;
    ensure!(SerdePayload::<V>::from_payload(&p[..]).is_err() && V::from_payload(&p[..]).is_err(), "format byte {} was accepted", bad);
    ensure!(DynamicSerializer::from_primitive(bad as usize).is_err(), "format {} was accepted", bad);
    ensure!(DynamicSerializer::from_primitive(256 + rng.below(4)).is_err(), "format 256 was accepted");
    ensure!(SerdePayload::<V>::from_payload(&[][..]).is_err(), "no bytes were accepted");
    Ok(())
}

fn default_serializer(rng: &mut Rng) -> R {
    let v = value(rng);
    let id = rng.below(5) as u8;
    run(async move {
        let c = context(if id == 4 { None } else { Some(FORMATS[id as usize]) }).await;
        let want = if id == 4 { 0 } else { id };
        let p = v.clone().into_payload(&c).map_err(|e| e.to_string())?;
        ensure!(p[..] == reference(want, &v)[..], "a value is not serialized with the context's serializer {}", want);
        let p = c.create_serde_payload(v.clone()).into_payload(&c).map_err(|e| e.to_string())?;
        ensure!(p[..] == reference(want, &v)[..], "a serde payload is not made with the context's serializer {}", want);
        let p = c.clone().create_serde_payload(v.clone()).try_into_bytes().map_err(|e| e.to_string())?;
        ensure!(p[0] == want, "a clone of the context uses another serializer");
        // decoding does not depend on the default
        for o in 0..4u8 {
            ensure!(V::from_payload(&reference(o, &v)[..]).map_err(|e| e.to_string())? == v, "format {} with default {}", o, want);
        }
        // an explicit payload keeps its format
        let o = (want + 1) % 4;
        let p = SerdePayload::new(FORMATS[o as usize], v.clone()).into_payload(&c).map_err(|e| e.to_string())?;
        ensure!(p[..] == reference(o, &v)[..], "an explicit serde payload changed its format");
        Ok(())
    })
}
