//! C17-C21: against an independent implementation of the encrypted protocol
use crate::mem::{clear, hub, pair, Item, LOpt, MemListener, MemStream, Op, Opt, Peer};
use crate::rng::Rng;
use crate::{ensure, run, Scenario, R};
use bromine::prelude::{IPCError, IPCResult};
use bromine::protocol::encrypted::*;
use bromine::protocol::*;
use chacha20poly1305::aead::{Aead, KeyInit};
use chacha20poly1305::{ChaCha20Poly1305, Key, Nonce};
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use x25519_dalek::{PublicKey, StaticSecret};

pub fn all() -> Vec<(&'static str, Vec<Scenario>)> {
    vec![
        ("C17", vec![("written bytes arrive", 200, writes), ("received bytes are read", 250, reads), ("both ends are encrypted streams", 60, both_ends), ("failing transports", 150, faults), ("writes while the transport waits", 60, blocked), ("large writes", 1, large)]),
        ("C18", vec![("nonces count up", 150, writes), ("key changes restart the counts", 150, key_change), ("packets after one that could not be sent", 100, after_failure), ("packets after one that does not authenticate", 100, after_bad)]),
        ("C19", vec![("altered, lost, repeated and reordered packets", 400, tampered), ("packets on the wire", 100, writes)]),
        ("C20", vec![("server side of the key exchange", 200, kx_server), ("client side of the key exchange", 200, kx_client), ("broken key exchanges", 100, kx_broken), ("default options", 20, defaults)]),
        ("C21", vec![("listeners outlive bad peers", 150, listener), ("peers with weak keys", 60, weak_keys)]),
    ]
}

const MS: fn(u64) -> Duration = Duration::from_millis;
type S = EncryptedStream<MemStream>;

pub fn nonce(n: u64) -> [u8; 12] {
    let b = n.to_be_bytes();
    let mut r = [0; 12];
    r[..8].copy_from_slice(&b);
    r[8..].copy_from_slice(&b[..4]);
    r
}

pub fn seal(key: &[u8], n: u64, d: &[u8]) -> Vec<u8> {
    let c = ChaCha20Poly1305::new(Key::from_slice(key)).encrypt(Nonce::from_slice(&nonce(n)), d).unwrap();
    let mut b = (c.len() as u32).to_be_bytes().to_vec();
    b.extend(c);
    b
}

pub fn open(key: &[u8], n: u64, c: &[u8]) -> Option<Vec<u8>> {
    ChaCha20Poly1305::new(Key::from_slice(key)).decrypt(Nonce::from_slice(&nonce(n)), c).ok()
}

/// the plaintexts of whole packets, counted from n
fn open_all(key: &[u8], n: &mut u64, mut b: &[u8]) -> Result<Vec<u8>, String> {
    let mut out = vec![];
    while !b.is_empty() {
        ensure!(b.len() >= 4, "{} bytes after the last packet", b.len());
        let l = u32::from_be_bytes(b[..4].try_into().unwrap()) as usize;
        ensure!(b.len() >= 4 + l, "a packet of {} bytes of which {} were written", l, b.len() - 4);
        out.extend(open(key, *n, &b[4..4 + l]).ok_or(format!("packet {} does not authenticate under the key and the nonce of its number", n))?);
        *n += 1;
        b = &b[4 + l..];
    }
    Ok(out)
}

fn secret(rng: &mut Rng) -> StaticSecret {
    let b: [u8; 32] = rng.bytes(32).try_into().unwrap();
    StaticSecret::from(b)
}

/// an encrypted stream, its key, and the other end of its transport
fn stream(rng: &mut Rng) -> (S, Vec<u8>, Peer) {
    let (a, b) = (secret(rng), secret(rng));
    let k = a.diffie_hellman(&PublicKey::from(&b));
    let key = k.to_bytes().to_vec();
    let (s, p) = pair(rng);
    {
        let mut c = p.ctl.lock().unwrap();
        c.chunk = rng.pick(&[0, 0, 1, 5, 100, 1500]);
        c.pend = rng.pick(&[0, 30, 70]);
    }
    (EncryptedStream::new(s, k), key, p)
}

fn size(rng: &mut Rng) -> usize {
    if rng.chance(2) {
        return rng.pick(&[16_384, 32_768, 65_519, 65_535, 65_536, 65_537, 70_000, 131_073]);
    }
    rng.pick(&[1, 2, 10, 100, 1000, 1007, 1008, 1023, 1024, 1025, 2048, 5000])
}

fn writes(rng: &mut Rng) -> R {
    let mut rng = rng.clone();
    run(async move {
        let (s, key, mut p) = stream(&mut rng);
        // the whole stream or its write half
        let mut _r = None;
        let mut w: Box<dyn tokio::io::AsyncWrite + Unpin + Send> = if rng.chance(30) {
            Box::new(s)
        } else {
            let (r, w) = s.protocol_into_split();
            _r = Some(r);
            Box::new(w)
        };
        let mut want: Vec<u8> = vec![];
        let mut n = 0;
        let mut got = vec![];
        let mut raw: Vec<u8> = vec![];
        for _ in 0..1 + rng.below(12) {
            match rng.below(5) {
                0 | 1 | 2 => {
                    let k = if rng.below(300) == 0 { 1_100_000 } else { size(&mut rng) };
                    let d = rng.bytes(k);
                    let k = w.write(&d).await.map_err(|e| format!("write: {}", e))?;
                    ensure!(k > 0 && k <= d.len(), "a write of {} bytes accepts {}", d.len(), k);
                    want.extend(&d[..k]);
                }
                _ => {
                    w.flush().await.map_err(|e| format!("flush: {}", e))?;
                    let b = p.now();
                    raw.extend(&b);
                    got.extend(open_all(&key, &mut n, &b)?);
                    ensure!(got == want, "{} bytes arrived after a flush of {}", got.len(), want.len());
                    ensure!(matches!(p.ctl.lock().unwrap().ops.last(), Some(Op::Flush)), "a flush does not flush the transport");
                }
            }
        }
        if rng.chance(50) {
            w.shutdown().await.map_err(|e| format!("shutdown: {}", e))?;
            let ops = p.ctl.lock().unwrap().ops.clone();
            ensure!(matches!(ops.last(), Some(Op::Shutdown)), "a shutdown does not shut the transport down");
            let lw = ops.iter().rposition(|o| matches!(o, Op::Write(_))).unwrap_or(0);
            ensure!(want.is_empty() || ops[lw..].contains(&Op::Flush), "a shutdown without flush");
        } else {
            w.flush().await.map_err(|e| format!("flush: {}", e))?;
        }
        let b = p.now();
        raw.extend(&b);
        got.extend(open_all(&key, &mut n, &b)?);
        ensure!(got == want, "{} bytes arrived of {}", got.len(), want.len());
        // no plaintext on the wire
        for x in want.chunks(40).take(if want.len() > 200_000 { 5 } else { 60 }) {
            ensure!(x.len() < 16 || !raw.windows(16).any(|y| *y == x[..16]), "plaintext on the transport");
        }
        Ok(())
    })
}

/// the packets of what is sent, split as one likes; empty packets are no data
fn packets(rng: &mut Rng, key: &[u8], d: &[u8], n: &mut u64) -> Vec<Vec<u8>> {
    let mut out = vec![];
    let mut d = d;
    loop {
        let k = size(rng).min(d.len());
        if k == 0 {
            return out;
        }
        out.push(seal(key, *n, &d[..k]));
        *n += 1;
        d = &d[k..];
    }
}

fn reads(rng: &mut Rng) -> R {
    let mut rng = rng.clone();
    run(async move {
        let (s, key, p) = stream(&mut rng);
        // the whole stream or its read half
        let mut _w = None;
        let mut r: Box<dyn tokio::io::AsyncRead + Unpin + Send> = if rng.chance(30) {
            Box::new(s)
        } else {
            let (r, w) = s.protocol_into_split();
            _w = Some(w);
            Box::new(r)
        };
        let mut n = 0;
        let k = if rng.chance(4) { 140_000 } else { rng.below(6000) };
        let want = rng.bytes(k);
        let l = packets(&mut rng, &key, &want, &mut n);
        let mut rng2 = rng.clone();
        let feeder = tokio::spawn(async move {
            for x in l {
                if rng2.chance(30) {
                    tokio::time::sleep(MS(10)).await;
                }
                if rng2.chance(30) {
                    let k = rng2.below(x.len());
                    p.send(&x[..k]);
                    tokio::time::sleep(MS(10)).await;
                    p.send(&x[k..]);
                } else {
                    p.send(&x);
                }
            }
            p
        });
        let mut got: Vec<u8> = vec![];
        while got.len() < want.len() {
            let cap = rng.pick(&[1, 2, 16, 100, 1024, 10000]);
            let mut b = vec![0xEE; cap];
            let k = tokio::time::timeout(MS(100_000), r.read(&mut b)).await.map_err(|_| "a read waits although data is there".to_string())?.map_err(|e| format!("read: {}", e))?;
            ensure!(k > 0, "a read gives no data after {} of {} bytes", got.len(), want.len());
            got.extend(&b[..k]);
            ensure!(got[..] == want[..got.len().min(want.len())], "other bytes were read");
        }
        let p = feeder.await.map_err(|e| e.to_string())?;
        let mut b = [0; 10];
        ensure!(tokio::time::timeout(MS(50), r.read(&mut b)).await.is_err(), "a read of nothing does not wait");
        p.close();
        for _ in 0..2 {
            match tokio::time::timeout(MS(50), r.read(&mut b)).await {
                Ok(Err(_)) => {}
                Ok(Ok(k)) => return Err(format!("the end of the transport is a read of {} bytes", k)),
                Err(_) => return Err("a read at the end of the transport waits".into()),
            }
        }
        Ok(())
    })
}

/// a single write beyond the sizes at which something could be limited
fn large(rng: &mut Rng) -> R {
    let mut rng = rng.clone();
    run(async move {
        let (s, _, t) = stream_pair(&mut rng);
        let (mut a, mut b) = (s, t);
        let n = (1 << 24) + 1;
        let d: Vec<u8> = (0..n).map(|i| (i % 251) as u8).collect();
        let d2 = d.clone();
        let h = tokio::spawn(async move {
            a.write_all(&d2).await.map_err(|e| format!("write: {}", e))?;
            a.flush().await.map_err(|e| format!("flush: {}", e))?;
            Ok::<_, String>(a)
        });
        let mut got = vec![0; n];
        b.read_exact(&mut got).await.map_err(|e| format!("read: {}", e))?;
        ensure!(got == d, "other bytes arrive");
        h.await.map_err(|e| e.to_string())?.map(|_| ())
    })
}

/// a packet that does not authenticate counts as well: the ones after it have the nonces of their own numbers
fn after_bad(rng: &mut Rng) -> R {
    let mut rng = rng.clone();
    run(async move {
        let (s, key, p) = stream(&mut rng);
        let (mut r, _w) = s.protocol_into_split();
        let mut d = [0; 4];
        for n in 0..12u64 {
            match rng.below(4) {
                0 => {
                    let mut c = seal(&key, n, b"fine");
                    let i = 4 + rng.below(c.len() - 4);
                    c[i] ^= 1 << rng.below(8);
                    p.send(&c);
                    ensure!(r.read_exact(&mut d).await.is_err(), "the altered packet {} is read", n);
                }
                1 if n > 0 => {
                    let m = rng.below(n as usize) as u64;
                    p.send(&seal(&key, m, b"fine"));
                    ensure!(r.read_exact(&mut d).await.is_err(), "the packet {} is read with the nonce {}", n, m);
                }
                _ => {
                    p.send(&seal(&key, n, b"fine"));
                    r.read_exact(&mut d).await.map_err(|e| format!("the packet {} is refused: {}", n, e))?;
                    ensure!(&d == b"fine", "other bytes");
                }
            }
        }
        Ok(())
    })
}

fn both_ends(rng: &mut Rng) -> R {
    let mut rng = rng.clone();
    run(async move {
        let (s, _, p) = stream_pair(&mut rng);
        let (mut a, mut b) = (s, p);
        let k = if rng.chance(4) { 200_000 } else { rng.below(20000) };
        let d = rng.bytes(k);
        let d2 = d.clone();
        let h = tokio::spawn(async move {
            let mut at = 0;
            while at < d2.len() {
                let n = size(&mut rng).min(d2.len() - at);
                a.write_all(&d2[at..at + n]).await.unwrap();
                at += n;
                if rng.chance(30) {
                    a.flush().await.unwrap();
                }
            }
            a.shutdown().await.unwrap();
            a
        });
        let mut got = vec![0; d.len()];
        b.read_exact(&mut got).await.map_err(|e| format!("read: {}", e))?;
        ensure!(got == d, "other bytes arrive");
        h.await.map_err(|e| e.to_string())?;
        Ok(())
    })
}

/// two encrypted streams over joined transports
fn stream_pair(rng: &mut Rng) -> (S, Vec<u8>, S) {
    let (a, b) = (secret(rng), secret(rng));
    let (k1, k2) = (a.diffie_hellman(&PublicKey::from(&b)), b.diffie_hellman(&PublicKey::from(&a)));
    let key = k1.to_bytes().to_vec();
    let (s, p) = pair(rng);
    let (t, q) = pair(rng);
    let pend = rng.pick(&[0, 50]);
    let chunk = rng.pick(&[0, 3, 1000]);
    for x in [&p, &q] {
        let mut c = x.ctl.lock().unwrap();
        c.pend = pend;
        c.chunk = chunk;
    }
    tokio::spawn(pump(p.rx.clone(), q));
    let _ = p;
    (EncryptedStream::new(s, k1), key, EncryptedStream::new(t, k2))
}

async fn pump(from: crate::mem::PipeRef, to: Peer) {
    loop {
        let (d, end) = {
            let mut p = from.lock().unwrap();
            (p.buf.drain(..).collect::<Vec<u8>>(), p.closed)
        };
        to.send(&d);
        if end {
            return;
        }
        tokio::time::sleep(MS(1)).await;
    }
}

fn faults(rng: &mut Rng) -> R {
    let mut rng = rng.clone();
    run(async move {
        let (s, key, mut p) = stream(&mut rng);
        let (_r, mut w) = s.protocol_into_split();
        {
            let mut c = p.ctl.lock().unwrap();
            if rng.chance(40) {
                c.fail_flush = true;
            } else {
                c.fail_at = Some(rng.below(3000));
            }
            c.fails_left = rng.pick(&[1, 2, usize::MAX]);
        }
        let mut err = false;
        let mut want: Vec<u8> = vec![];
        for _ in 0..15 {
            let r = match rng.below(6) {
                0 | 1 | 2 => {
                    let k = size(&mut rng);
                    let d = rng.bytes(k);
                    match tokio::time::timeout(MS(1000), w.write(&d)).await.map_err(|_| "a write waits forever".to_string())? {
                        Ok(k) => {
                            want.extend(&d[..k]);
                            Ok(())
                        }
                        Err(e) => Err(e),
                    }
                }
                5 => tokio::time::timeout(MS(1000), w.shutdown()).await.map_err(|_| "a shutdown waits forever".to_string())?,
                _ => tokio::time::timeout(MS(1000), w.flush()).await.map_err(|_| "a flush waits forever".to_string())?.map(|_| {
                    let _ = &want;
                }),
            };
            let failed = p.ctl.lock().unwrap().ops.iter().any(|o| matches!(o, Op::WriteErr | Op::FlushErr));
            match r {
                Err(e) => {
                    ensure!(failed, "error {} although the transport did not fail", e);
                    err = true;
                }
                Ok(()) => ensure!(err || !failed, "a failure of the transport was not reported by the operation it happened in"),
            }
        }
        if !err {
            let _ = w.flush().await;
            let mut n = 0;
            let b = p.now();
            if !p.ctl.lock().unwrap().ops.iter().any(|o| matches!(o, Op::WriteErr | Op::FlushErr)) {
                let got = open_all(&key, &mut n, &b)?;
                ensure!(got == want, "{} bytes arrived of {}", got.len(), want.len());
            }
        }
        Ok(())
    })
}

fn blocked(rng: &mut Rng) -> R {
    let mut rng = rng.clone();
    run(async move {
        let (s, key, mut p) = stream(&mut rng);
        let (_r, mut w) = s.protocol_into_split();
        {
            let mut c = p.ctl.lock().unwrap();
            c.block_at = Some(rng.below(1200));
        }
        let ctl = p.ctl.clone();
        tokio::spawn(async move {
            tokio::time::sleep(MS(50)).await;
            let mut c = ctl.lock().unwrap();
            c.block_at = None;
            if let Some(w) = c.wwaker.take() {
                w.wake()
            }
        });
        let mut want = vec![];
        for _ in 0..4 {
            let k = size(&mut rng);
            let d = rng.bytes(k);
            tokio::time::timeout(MS(1000), w.write_all(&d)).await.map_err(|_| "a write waits forever".to_string())?.map_err(|e| e.to_string())?;
            want.extend(d);
        }
        let r = if rng.chance(50) { tokio::time::timeout(MS(1000), w.flush()).await } else { tokio::time::timeout(MS(1000), w.shutdown()).await };
        r.map_err(|_| "a flush waits forever".to_string())?.map_err(|e| e.to_string())?;
        let mut n = 0;
        let got = open_all(&key, &mut n, &p.now())?;
        ensure!(got == want, "{} bytes arrived of {}", got.len(), want.len());
        Ok(())
    })
}

// ------------------------------------------------------------------ C18

/// one write of the transport fails, in or before the n-th packet: no packet after it uses a nonce that was used
fn after_failure(rng: &mut Rng) -> R {
    let mut rng = rng.clone();
    run(async move {
        let (s, key, mut p) = stream(&mut rng);
        let (_r, mut w) = s.protocol_into_split();
        let ps: Vec<Vec<u8>> = (0..4).map(|_| { let k = 1 + rng.below(300); rng.bytes(k) }).collect();
        let sent = rng.below(3);
        let ends: Vec<usize> = ps.iter().scan(0, |a, d| { *a += d.len() + 20; Some(*a) }).collect();
        let start = if sent == 0 { 0 } else { ends[sent - 1] };
        let at = start + rng.below(ps[sent].len() + 20);
        {
            let mut c = p.ctl.lock().unwrap();
            c.fail_at = Some(at);
            c.fails_left = 1;
        }
        let mut failures = 0;
        let mut later: Vec<Vec<u8>> = vec![];
        for (i, d) in ps.iter().enumerate() {
            let r = match w.write_all(d).await {
                Ok(()) => w.flush().await,
                e => e,
            };
            failures += r.is_err() as usize;
            if i > sent {
                later.push(d.clone());
            }
        }
        ensure!(failures > 0, "a failed write of the transport was not reported");
        let b = p.now();
        ensure!(b.len() >= at, "{} bytes written before a failure after {}", b.len(), at);
        let mut n = 0;
        open_all(&key, &mut n, &b[..start])?;
        ensure!(n == sent as u64, "{} packets instead of {}", n, sent);
        // what follows the cut off packet
        for d in later {
            for old in 0..=n {
                let again = &seal(&key, old, &d)[4..];
                ensure!(!b[at..].windows(again.len()).any(|x| x == again), "after a packet that could not be sent another one is encrypted under nonce {}, which has been used", old);
            }
        }
        Ok(())
    })
}

fn key_change(rng: &mut Rng) -> R {
    let mut rng = rng.clone();
    run(async move {
        let (mut s, mut key, mut p) = stream(&mut rng);
        for _ in 0..1 + rng.below(4) {
            let (mut out, mut inn) = (0, 0);
            for _ in 0..rng.below(5) {
                if rng.chance(50) {
                    let k = size(&mut rng);
                    let d = rng.bytes(k);
                    s.write_all(&d).await.map_err(|e| e.to_string())?;
                    s.flush().await.map_err(|e| e.to_string())?;
                    ensure!(open_all(&key, &mut out, &p.now())? == d, "other bytes arrive");
                } else {
                    let k = size(&mut rng);
                    let d = rng.bytes(k);
                    p.send(&seal(&key, inn, &d));
                    inn += 1;
                    let mut b = vec![0; k];
                    s.read_exact(&mut b).await.map_err(|e| format!("packet {} under the current key: {}", inn - 1, e))?;
                    ensure!(b == d, "other bytes are read");
                }
            }
            key = match rng.below(8) {
                0 => vec![0; 32],
                1 => vec![0xFF; 32],
                2 => key.clone(),
                _ => rng.bytes(32),
            };
            s.update_key(key.clone().into());
        }
        Ok(())
    })
}

// ------------------------------------------------------------------ C19

fn tampered(rng: &mut Rng) -> R {
    let mut rng = rng.clone();
    run(async move {
        let (s, key, p) = stream(&mut rng);
        let (mut r, _w) = s.protocol_into_split();
        let n = 2 + rng.below(4);
        let mut plain = vec![];
        let mut l = vec![];
        for i in 0..n {
            let k = 1 + rng.below(60);
            let d = rng.bytes(k);
            l.push(seal(&key, i as u64, &d));
            plain.push(d);
        }
        let bad = rng.below(n);
        let what = rng.below(9);
        match what {
            0 => {
                // a bit of the ciphertext or tag
                let i = 4 + rng.below(l[bad].len() - 4);
                l[bad][i] ^= 1 << rng.below(8);
            }
            1 => {
                // replay
                let c = l[bad].clone();
                l.insert(bad, c);
            }
            2 => {
                l.remove(bad);
                if bad >= l.len() {
                    return Ok(());
                }
            }
            3 => {
                let o = (bad + 1) % n;
                l.swap(bad, o);
            }
            4 => {
                // another key
                let k = rng.bytes(32);
                l[bad] = seal(&k, bad as u64, &plain[bad]);
            }
            5 => {
                // shorter, with a length that fits
                let m = l[bad].len();
                l[bad].truncate(4 + rng.clone().below(m - 4));
                let k = (l[bad].len() - 4) as u32;
                l[bad][..4].copy_from_slice(&k.to_be_bytes());
            }
            6 => {
                // plaintext instead of a packet
                let mut b = (plain[bad].len() as u32).to_be_bytes().to_vec();
                b.extend(&plain[bad]);
                l[bad] = b;
            }
            7 => {
                // a packet nobody sealed
                let k = rng.pick(&[0usize, 0, 1, 15, 16, 17, 40]);
                let mut b = (k as u32).to_be_bytes().to_vec();
                b.extend(if rng.chance(50) { vec![0; k] } else { rng.bytes(k) });
                l.insert(bad, b);
            }
            _ => {
                // the stream ends within the packet
                let m = l[bad].len();
                l[bad].truncate(rng.clone().below(m));
                l.truncate(bad + 1);
            }
        }
        for x in &l {
            p.send(x);
        }
        p.close();
        let first_bad = match what {
            1 => bad + 1,
            3 => bad.min((bad + 1) % n),
            _ => bad,
        };
        let good: Vec<u8> = plain[..first_bad].concat();
        let mut got: Vec<u8> = vec![];
        let mut b = [0u8; 1000];
        loop {
            let cap = rng.pick(&[1, 7, 1000]);
            match r.read(&mut b[..cap]).await {
                Ok(0) => return Err(format!("a bad packet ({}) is a read of no bytes", what)),
                Ok(k) => {
                    got.extend(&b[..k]);
                    ensure!(got.len() <= good.len(), "{} bytes were read of {} before the bad packet ({})", got.len(), good.len(), what);
                }
                Err(_) => break,
            }
        }
        ensure!(got == good, "{} bytes were read of {} before the bad packet ({})", got.len(), good.len(), what);
        // afterwards: data of packets in sequence or errors, no panic
        let mut all: Vec<u8> = vec![];
        for _ in 0..20 {
            match r.read(&mut b).await {
                Ok(k) => all.extend(&b[..k]),
                Err(_) => {}
            }
        }
        let _ = all;
        Ok(())
    })
}

// ------------------------------------------------------------------ C20

struct Ends {
    own: StaticSecret,
    own_pk: PublicKey,
    peer: StaticSecret,
    peer_pk: PublicKey,
    keys: Keys,
    admitted: bool,
}

fn ends(rng: &mut Rng) -> Ends {
    let (own, peer) = (secret(rng), secret(rng));
    let peer_pk = PublicKey::from(&peer);
    let mut known = vec![];
    for _ in 0..rng.below(4) {
        known.push(PublicKey::from(&secret(rng)));
    }
    // near misses
    if rng.chance(30) {
        let mut b = *peer_pk.as_bytes();
        b[rng.below(31)] ^= 1 << rng.below(8);
        known.push(PublicKey::from(b));
    }
    if rng.chance(20) {
        known.push(PublicKey::from(&own));
    }
    let mut in_list = rng.chance(50);
    if in_list {
        let i = rng.below(known.len() + 1);
        known.insert(i, peer_pk);
    }
    in_list = known.contains(&peer_pk);
    let allow = rng.chance(40);
    Ends { own_pk: PublicKey::from(&own), keys: Keys { secret: own.clone(), known_peers: known, allow_unknown: allow }, own, peer_pk, peer, admitted: in_list || allow }
}

fn script(rng: &mut Rng, p: &Peer) {
    let mut c = p.ctl.lock().unwrap();
    c.chunk = rng.pick(&[0, 1, 5, 40]);
    c.pend = rng.pick(&[0, 50]);
}

/// both ends use the session key with counts at zero
async fn session(s: &mut S, p: &mut Peer, key: &[u8], rng: &mut Rng) -> R {
    let d = rng.bytes(20);
    s.write_all(&d).await.map_err(|e| e.to_string())?;
    s.flush().await.map_err(|e| e.to_string())?;
    let b = p.now();
    let mut n = 0;
    ensure!(open_all(key, &mut n, &b)? == d, "what is sent after the key exchange is not the data under the session key");
    let d = rng.bytes(20);
    p.send(&seal(key, 0, &d));
    let mut b = vec![0; 20];
    s.read_exact(&mut b).await.map_err(|e| format!("the first packet under the session key: {}", e))?;
    ensure!(b == d, "other bytes are read");
    Ok(())
}

thread_local! { static SECRETS: std::cell::RefCell<Vec<Vec<u8>>> = Default::default(); }
static ALL_SECRETS: std::sync::Mutex<Vec<Vec<u8>>> = std::sync::Mutex::new(Vec::new());

fn kx_server(rng: &mut Rng) -> R {
    let mut rng = rng.clone();
    run(async move {
        let e = ends(&mut rng);
        let (s, mut p) = pair(&mut rng);
        script(&mut rng, &p);
        let keys = e.keys.clone();
        let direct = rng.chance(50);
        let h = tokio::spawn(async move {
            if direct {
                EncryptedStream::from_server_key_exchange(s, &keys).await
            } else {
                hub(3).lock().unwrap().offer(Item::Conn(s, 1));
                hub(3).lock().unwrap().offer(Item::Fail);
                let o = EncryptionOptions { inner_options: LOpt(9), keys };
                let l = <EncryptedListener<MemListener> as AsyncStreamProtocolListener>::protocol_bind(3, o).await?;
                l.protocol_accept().await.map(|(s, _)| s)
            }
        });
        tokio::time::sleep(MS(5)).await;
        ensure!(p.now().is_empty(), "a server sends before it knows the peer");
        let pk = e.peer_pk.as_bytes();
        let k = rng.below(33);
        p.send(&pk[..k]);
        tokio::time::sleep(MS(5)).await;
        ensure!(k == 32 || p.now().is_empty(), "a server sends before it knows the peer");
        p.send(&pk[k..]);
        let r = tokio::time::timeout(MS(1000), h).await.map_err(|_| "the server's key exchange waits".to_string())?.map_err(|e| e.to_string())?;
        if !e.admitted {
            match r {
                Ok(_) => return Err("an unknown peer was accepted".into()),
                Err(IPCError::UnknownPeer(k)) => ensure!(k == e.peer_pk, "the error names another key"),
                Err(x) => ensure!(!direct, "an unknown peer gives error {}", x),
            }
            ensure!(p.now().is_empty(), "a server sent something to an unknown peer");
            clear();
            return Ok(());
        }
        let mut s = r.map_err(|x| format!("a peer that is admitted is refused: {}", x))?;
        let b = p.now();
        ensure!(b.len() == 32 + 4 + 32 + 16, "the server sent {} bytes", b.len());
        ensure!(&b[..32] == e.own_pk.as_bytes(), "the server sent another public key");
        let dh = e.peer.diffie_hellman(&e.own_pk).to_bytes();
        let mut n = 0;
        let key = open_all(&dh, &mut n, &b[32..])?;
        ensure!(key.len() == 32, "a secret of {} bytes", key.len());
        {
            let mut l = ALL_SECRETS.lock().unwrap();
            ensure!(!l.contains(&key) && key.iter().any(|b| *b != key[0]), "the session secret is not fresh");
            l.push(key.clone());
        }
        session(&mut s, &mut p, &key, &mut rng).await
    })
}

fn kx_client(rng: &mut Rng) -> R {
    let mut rng = rng.clone();
    run(async move {
        let e = ends(&mut rng);
        let direct = rng.chance(50);
        let keys = e.keys.clone();
        let (h, mut p): (tokio::task::JoinHandle<IPCResult<S>>, Peer) = if direct {
            let (s, p) = pair(&mut rng);
            script(&mut rng, &p);
            (tokio::spawn(async move { EncryptedStream::from_client_key_exchange(s, &keys).await }), p)
        } else {
            let h = tokio::spawn(async move { <S as AsyncProtocolStream>::protocol_connect(4, EncryptionOptions { inner_options: Opt(5), keys }).await });
            tokio::time::sleep(MS(1)).await;
            let x = hub(4);
            let mut x = x.lock().unwrap();
            ensure!(x.opts == vec![Opt(5)], "connected with {:?}", x.opts);
            (h, x.peers.pop_front().unwrap())
        };
        let pk = p.exact(32).await.ok_or("a client sends no key")?;
        tokio::time::sleep(MS(5)).await;
        let last = p.ctl.lock().unwrap().ops.last().cloned();
        ensure!(last == Some(Op::Flush), "the client waits for an answer without having flushed its key: {:?}", last);
        ensure!(pk == e.own_pk.as_bytes(), "the client sent another public key");
        let key = rng.bytes(32);
        let dh = e.peer.diffie_hellman(&e.own_pk).to_bytes();
        let mut b = e.peer_pk.as_bytes().to_vec();
        b.extend(seal(&dh, 0, &key));
        let k = rng.below(b.len() + 1);
        p.send(&b[..k]);
        if rng.chance(50) {
            tokio::time::sleep(MS(5)).await;
        }
        p.send(&b[k..]);
        let r = tokio::time::timeout(MS(1000), h).await.map_err(|_| "the client's key exchange waits".to_string())?.map_err(|e| e.to_string())?;
        ensure!(p.now().is_empty(), "the client sent more than its key");
        if !e.admitted {
            return match r {
                Ok(_) => Err("an unknown server was accepted".into()),
                Err(IPCError::UnknownPeer(k)) if k == e.peer_pk => Ok(()),
                Err(x) => Err(format!("an unknown server gives error {}", x)),
            };
        }
        let mut s = r.map_err(|x| format!("a server that is admitted is refused: {}", x))?;
        let _ = &e.own;
        session(&mut s, &mut p, &key, &mut rng).await
    })
}

fn kx_broken(rng: &mut Rng) -> R {
    let mut rng = rng.clone();
    run(async move {
        let mut e = ends(&mut rng);
        e.keys.allow_unknown = true;
        let (s, p) = pair(&mut rng);
        script(&mut rng, &p);
        let client = rng.chance(50);
        let keys = e.keys.clone();
        let dh = e.peer.diffie_hellman(&e.own_pk).to_bytes();
        let mut b = e.peer_pk.as_bytes().to_vec();
        if client {
            let mut x = seal(&dh, 0, &rng.bytes(32));
            match rng.below(4) {
                0 => {
                    let i = 4 + rng.below(x.len() - 4);
                    x[i] ^= 1;
                }
                1 => x = seal(&rng.bytes(32), 0, &rng.clone().bytes(32)),
                2 => x = seal(&dh, 1, &rng.bytes(32)),
                _ => x.truncate(rng.clone().below(x.len())),
            }
            b.extend(x);
        } else if rng.chance(50) {
            b.truncate(rng.clone().below(32));
        } else {
            let mut c = p.ctl.lock().unwrap();
            if rng.chance(50) {
                c.fail_at = Some(rng.below(84));
            } else {
                c.fail_flush = true;
            }
        }
        p.send(&b);
        p.close();
        let r = if client { EncryptedStream::from_client_key_exchange(s, &keys).await } else { EncryptedStream::from_server_key_exchange(s, &keys).await };
        ensure!(r.is_err(), "a broken key exchange succeeds ({})", if client { "client" } else { "server" });
        Ok(())
    })
}

fn defaults(rng: &mut Rng) -> R {
    let mut rng = rng.clone();
    run(async move {
        let a = EncryptionOptions::<LOpt>::default();
        let b = EncryptionOptions::<LOpt>::default();
        ensure!(a.keys.known_peers.is_empty() && !a.keys.allow_unknown, "default options allow a peer");
        ensure!(a.inner_options == LOpt::default(), "inner options");
        ensure!(a.keys.secret.to_bytes() != b.keys.secret.to_bytes(), "two default options share their secret");
        for pk in [PublicKey::from(&secret(&mut rng)), PublicKey::from(&a.keys.secret), PublicKey::from([0; 32])] {
            let (s, mut p) = pair(&mut rng);
            p.send(pk.as_bytes());
            let r = EncryptedStream::from_server_key_exchange(s, &a.keys).await;
            ensure!(matches!(r, Err(IPCError::UnknownPeer(_))) && p.now().is_empty(), "default options admit a peer");
        }
        Ok(())
    })
}

// ------------------------------------------------------------------ C21

fn listener(rng: &mut Rng) -> R {
    let mut rng = rng.clone();
    run(async move {
        let mut e = ends(&mut rng);
        e.keys.allow_unknown = false;
        e.keys.known_peers = vec![e.peer_pk];
        let l = <EncryptedListener<MemListener> as AsyncStreamProtocolListener>::protocol_bind(3, EncryptionOptions { inner_options: LOpt(8), keys: e.keys.clone() }).await.map_err(|e| e.to_string())?;
        ensure!(hub(3).lock().unwrap().binds == vec![LOpt(8)], "bound with other options");
        let mut bad = vec![];
        let n = rng.below(6);
        let mut good = vec![];
        let goods = 1 + rng.below(2);
        let mut id = 0;
        for g in 0..goods {
            for _ in 0..n {
                let (s, p) = pair(&mut rng);
                script(&mut rng, &p);
                match rng.below(6) {
                    0 => p.close(),
                    1 => {
                        p.send(&rng.bytes(rng.clone().below(32)));
                        p.close();
                    }
                    2 => p.send(&rng.bytes(32)),
                    3 => p.send(&rng.bytes(200)),
                    4 => {
                        p.send(e.peer_pk.as_bytes());
                        let mut c = p.ctl.lock().unwrap();
                        if rng.chance(50) {
                            c.fail_at = Some(rng.below(84));
                        } else {
                            c.fail_flush = true;
                        }
                    }
                    _ => {
                        p.send(e.own_pk.as_bytes());
                        p.close();
                    }
                }
                id += 1;
                hub(3).lock().unwrap().offer(Item::Conn(s, id));
                bad.push(p);
            }
            let (s, p) = pair(&mut rng);
            script(&mut rng, &p);
            p.send(e.peer_pk.as_bytes());
            id += 1;
            hub(3).lock().unwrap().offer(Item::Conn(s, id));
            good.push((id, p, g));
        }
        for (id, mut p, _) in good {
            let r = tokio::time::timeout(MS(1000), l.protocol_accept()).await.map_err(|_| "accept waits although a good peer is there".to_string())?;
            let (mut s, a) = r.map_err(|e| format!("a bad peer makes accept fail: {}", e))?;
            ensure!(a == id, "the address {} instead of {} was returned", a, id);
            let b = p.now();
            ensure!(b.len() == 84, "the good peer was sent {} bytes", b.len());
            let dh = e.peer.diffie_hellman(&e.own_pk).to_bytes();
            let mut n = 0;
            let key = open_all(&dh, &mut n, &b[32..])?;
            session(&mut s, &mut p, &key, &mut rng).await?;
        }
        hub(3).lock().unwrap().offer(Item::Fail);
        let r = tokio::time::timeout(MS(1000), l.protocol_accept()).await.map_err(|_| "accept does not report the inner listener's failure".to_string())?;
        ensure!(matches!(r, Err(IPCError::IoError(_))), "the inner listener's failure is not reported");
        Ok(())
    })
}

/// peers whose public keys are of low order (the shared secret is then known to all)
fn weak_keys(rng: &mut Rng) -> R {
    let mut rng = rng.clone();
    run(async move {
        let mut e = ends(&mut rng);
        let mut weak: Vec<[u8; 32]> = vec![[0; 32], [0; 32], [0xff; 32], [0xff; 32], [0xff; 32]];
        weak[1][0] = 1;
        weak[2][0] = 0xec;
        weak[2][31] = 0x7f;
        weak[3][0] = 0xed;
        weak[3][31] = 0x7f;
        weak[4][0] = 0xee;
        weak[4][31] = 0x7f;
        e.keys.allow_unknown = rng.chance(50);
        e.keys.known_peers = vec![e.peer_pk];
        if rng.chance(50) {
            e.keys.known_peers.extend(weak.iter().map(|w| x25519_dalek::PublicKey::from(*w)));
        }
        let l = <EncryptedListener<MemListener> as AsyncStreamProtocolListener>::protocol_bind(3, EncryptionOptions { inner_options: LOpt(8), keys: e.keys.clone() }).await.map_err(|e| e.to_string())?;
        let n = 1 + rng.below(4) as u32;
        let mut open = vec![];
        for id in 1..=n {
            let (s, p) = pair(&mut rng);
            p.send(&rng.pick(&weak));
            hub(3).lock().unwrap().offer(Item::Conn(s, id));
            open.push(p);
        }
        let (s, mut p) = pair(&mut rng);
        p.send(e.peer_pk.as_bytes());
        hub(3).lock().unwrap().offer(Item::Conn(s, n + 1));
        loop {
            let r = tokio::time::timeout(MS(1000), l.protocol_accept()).await.map_err(|_| "accept waits although a good peer is there".to_string())?;
            let (mut s, a) = r.map_err(|e| format!("a bad peer makes accept fail: {}", e))?;
            if a != n + 1 {
                continue;
            }
            let b = p.now();
            ensure!(b.len() == 84, "the good peer was sent {} bytes", b.len());
            let dh = e.peer.diffie_hellman(&e.own_pk).to_bytes();
            let mut k = 0;
            let key = open_all(&dh, &mut k, &b[32..])?;
            return session(&mut s, &mut p, &key, &mut rng).await;
        }
    })
}
