//! Conformance of the library contracts: computations over fixed inputs. Each is executed by the verifier under its
//! contracts and run natively (by the harness, `harness --conform`); both must give the same bytes.
use bytes::{Buf, BufMut, Bytes, BytesMut};
use std::collections::HashMap;
use std::time::Duration;

fn n(o: &mut Vec<u8>, x: u64) {
    o.extend_from_slice(&x.to_be_bytes());
}
fn b(o: &mut Vec<u8>, x: bool) {
    o.push(x as u8);
}
fn s(o: &mut Vec<u8>, x: &[u8]) {
    n(o, x.len() as u64);
    o.extend_from_slice(x);
}
fn d(o: &mut Vec<u8>, x: Duration) {
    n(o, x.as_secs());
    n(o, x.subsec_nanos() as u64);
}
fn ns(o: &mut Vec<u8>, x: Option<u64>) {
    match x {
        Some(v) => {
            o.push(1);
            n(o, v)
        }
        None => o.push(0),
    }
}

pub fn root_conf_vec() -> Vec<u8> {
    let mut o = Vec::new();
    let mut v = vec![1u8, 2, 3];
    v.push(4);
    v.extend_from_slice(&[5, 6]);
    n(&mut o, v.len() as u64);
    v.truncate(5);
    s(&mut o, &v);
    let t = v.split_off(3);
    s(&mut o, &v);
    s(&mut o, &t);
    v.resize(6, 9);
    s(&mut o, &v);
    b(&mut o, v.is_empty());
    ns(&mut o, v.pop().map(u64::from));
    v.insert(1, 77);
    s(&mut o, &v);
    ns(&mut o, Some(v.remove(0) as u64));
    s(&mut o, &v);
    v.clear();
    b(&mut o, v.is_empty());
    ns(&mut o, v.pop().map(u64::from));
    v.append(&mut vec![8, 9]);
    s(&mut o, &v);
    s(&mut o, &[[1u8, 2], [3, 4]].concat());
    s(&mut o, &[1u8, 2].repeat(2));
    o
}

pub fn root_conf_slice() -> Vec<u8> {
    let mut o = Vec::new();
    let v = vec![10u8, 20, 30, 40, 50, 60, 70];
    let (x, y) = v.split_at(3);
    s(&mut o, x);
    s(&mut o, y);
    s(&mut o, &v[2..4]);
    s(&mut o, &v[..2]);
    s(&mut o, &v[5..]);
    s(&mut o, &v[1..=2]);
    ns(&mut o, v.first().map(|x| *x as u64));
    ns(&mut o, v.last().map(|x| *x as u64));
    ns(&mut o, v.get(6).map(|x| *x as u64));
    ns(&mut o, v.get(7).map(|x| *x as u64));
    match v.get(2..9) {
        Some(x) => s(&mut o, x),
        None => o.push(255),
    }
    match v.get(2..5) {
        Some(x) => s(&mut o, x),
        None => o.push(255),
    }
    if let Some((f, r)) = v.split_first() {
        n(&mut o, *f as u64);
        s(&mut o, r);
    }
    if let Some((f, r)) = v.split_last() {
        n(&mut o, *f as u64);
        s(&mut o, r);
    }
    for c in v.chunks(3) {
        s(&mut o, c);
    }
    for c in v.chunks_exact(3) {
        s(&mut o, c);
    }
    for c in v.windows(6) {
        s(&mut o, c);
    }
    b(&mut o, v.starts_with(&[10, 20]));
    b(&mut o, v.starts_with(&[20]));
    b(&mut o, v.ends_with(&[70]));
    b(&mut o, v.contains(&40));
    b(&mut o, v.contains(&41));
    b(&mut o, v[..2] == [10, 20]);
    b(&mut o, v[..2] == [10, 21]);
    b(&mut o, v[..2] < [10, 21][..]);
    let mut w = [0u8; 4];
    w.copy_from_slice(&v[..4]);
    s(&mut o, &w);
    w[1..3].copy_from_slice(&[1, 2]);
    s(&mut o, &w);
    w.reverse();
    s(&mut o, &w);
    w.fill(3);
    s(&mut o, &w);
    w.swap(0, 3);
    w[2] = 7;
    s(&mut o, &w);
    let (l, r) = w.split_at_mut(2);
    l[0] = 5;
    r[1] = 6;
    s(&mut o, &w);
    s(&mut o, &v.to_vec());
    o
}

pub fn root_conf_iter() -> Vec<u8> {
    let mut o = Vec::new();
    let v = vec![10u8, 20, 30, 40];
    for (i, x) in v.iter().enumerate() {
        n(&mut o, i as u64 * 1000 + *x as u64);
    }
    for x in v.iter().rev() {
        n(&mut o, *x as u64);
    }
    b(&mut o, v.iter().any(|x| *x == 30));
    b(&mut o, v.iter().any(|x| *x == 31));
    b(&mut o, v.iter().all(|x| *x > 9));
    b(&mut o, v.iter().all(|x| *x > 10));
    let w = [1u8, 2, 3, 4, 5, 6];
    b(&mut o, w.iter().any(|x| *x == 6));
    b(&mut o, w.iter().any(|x| *x == 7));
    b(&mut o, w.iter().all(|x| *x < 7 && *x > 0));
    b(&mut o, w.iter().all(|x| if *x > 3 { *x < 6 } else { true }));
    b(&mut o, !w.iter().any(|x| x.checked_sub(6).is_some()));
    ns(&mut o, v.iter().position(|x| *x == 30).map(|x| x as u64));
    ns(&mut o, v.iter().find(|x| **x == 40).map(|x| *x as u64));
    n(&mut o, v.iter().map(|x| *x as u64).sum::<u64>());
    n(&mut o, v.iter().count() as u64);
    n(&mut o, v.iter().fold(7u64, |a, x| a * 3 + *x as u64));
    ns(&mut o, v.iter().copied().max().map(u64::from));
    ns(&mut o, v.iter().copied().min().map(u64::from));
    ns(&mut o, v.iter().min_by_key(|x| (**x as i64 - 25).abs()).map(|x| *x as u64));
    s(&mut o, &v.iter().map(|x| x + 1).collect::<Vec<u8>>());
    s(&mut o, &v.iter().copied().filter(|x| *x != 20).collect::<Vec<u8>>());
    s(&mut o, &v.iter().copied().take(2).collect::<Vec<u8>>());
    s(&mut o, &v.iter().copied().skip(3).collect::<Vec<u8>>());
    let mut i = v.iter();
    i.next();
    n(&mut o, i.len() as u64);
    ns(&mut o, i.next_back().map(|x| *x as u64));
    ns(&mut o, i.nth(1).map(|x| *x as u64));
    ns(&mut o, i.next().map(|x| *x as u64));
    let mut t = 0u64;
    for k in 0..5u64 {
        t += k * k;
    }
    for k in (0..=3u64).rev() {
        t = t * 10 + k;
    }
    n(&mut o, t);
    let m = vec![(1u64, 2u64), (3, 4)];
    for (x, y) in &m {
        n(&mut o, x * 100 + y);
    }
    for (x, (y, z)) in v.iter().zip(m.into_iter()) {
        n(&mut o, *x as u64 * 10000 + y * 100 + z);
    }
    o
}

pub fn root_conf_string() -> Vec<u8> {
    let mut o = Vec::new();
    let x = String::from("  Ab\u{e9}c\n");
    s(&mut o, x.trim().as_bytes());
    s(&mut o, x.trim_start().as_bytes());
    s(&mut o, x.trim_end().as_bytes());
    s(&mut o, x.to_lowercase().as_bytes());
    s(&mut o, x.to_uppercase().as_bytes());
    s(&mut o, x.to_ascii_uppercase().as_bytes());
    s(&mut o, x.to_ascii_lowercase().as_bytes());
    n(&mut o, x.len() as u64);
    n(&mut o, x.chars().count() as u64);
    b(&mut o, x.starts_with("  A"));
    b(&mut o, x.starts_with("A"));
    b(&mut o, x.ends_with("\n"));
    b(&mut o, x.contains("b\u{e9}"));
    b(&mut o, x.contains("bc"));
    b(&mut o, x.is_char_boundary(5));
    b(&mut o, "AbC".eq_ignore_ascii_case("aBc"));
    match x.strip_prefix("  ") {
        Some(y) => s(&mut o, y.as_bytes()),
        None => o.push(9),
    }
    let mut y = String::with_capacity(3);
    y.push_str("one");
    y.push('\u{e9}');
    s(&mut o, y.as_bytes());
    s(&mut o, &y.clone().into_bytes());
    s(&mut o, &"x".repeat(3).into_bytes());
    s(&mut o, format!("{}-{}.{}", 12u32, "k", 0u8).as_bytes());
    s(&mut o, 4711u64.to_string().as_bytes());
    b(&mut o, String::from_utf8(vec![0xc3, 0x28]).is_ok());
    b(&mut o, String::from_utf8(vec![0xc3, 0xa9]).is_ok());
    b(&mut o, std::str::from_utf8(&[0xff]).is_ok());
    s(&mut o, String::from_utf8_lossy(&[65, 66]).as_bytes());
    b(&mut o, y == "one\u{e9}");
    b(&mut o, y.as_str() < "onf");
    o
}

pub fn root_conf_bytes() -> Vec<u8> {
    let mut o = Vec::new();
    let mut m = BytesMut::with_capacity(10);
    m.put_u8(1);
    m.put_u16(0x0203);
    m.put_u32(0x04050607);
    m.put_u64(0x08090a0b0c0d0e0f);
    m.put_u16_le(0x1011);
    m.put_u64_le(0x18);
    m.put_slice(&[1, 2, 3]);
    m.put_bytes(7, 2);
    m.extend_from_slice(b"xy");
    m.put(&b"zw"[..]);
    s(&mut o, &m);
    let h = m.split_to(3);
    s(&mut o, &h);
    let mut f = m.freeze();
    n(&mut o, f.remaining() as u64);
    n(&mut o, f.get_u32() as u64);
    n(&mut o, f.get_u8() as u64);
    f.advance(2);
    n(&mut o, f.get_u16_le() as u64);
    let mut t = [0; 2];
    f.copy_to_slice(&mut t);
    s(&mut o, &t);
    s(&mut o, &f.copy_to_bytes(2));
    s(&mut o, &f.slice(1..3));
    let z = f.split_off(2);
    s(&mut o, &f);
    f.truncate(1);
    s(&mut o, &f);
    s(&mut o, &z);
    s(&mut o, &Bytes::from(vec![1, 2]).to_vec());
    s(&mut o, &Bytes::from_static(b"static"));
    s(&mut o, &Vec::from(Bytes::copy_from_slice(b"copy")));
    b(&mut o, Bytes::new().is_empty());
    let mut r = BytesMut::zeroed(3);
    r[1] = 5;
    s(&mut o, &r);
    r.resize(5, 2);
    s(&mut o, &r);
    r.unsplit(BytesMut::from(&b"u"[..]));
    s(&mut o, &r.split());
    b(&mut o, r.is_empty());
    o
}

pub fn root_conf_num() -> Vec<u8> {
    let mut o = Vec::new();
    ns(&mut o, 250u8.checked_add(5).map(u64::from));
    ns(&mut o, 250u8.checked_add(6).map(u64::from));
    ns(&mut o, 5u64.checked_sub(6));
    ns(&mut o, 6u64.checked_mul(7));
    ns(&mut o, u64::MAX.checked_mul(2));
    ns(&mut o, 6u64.checked_div(0));
    n(&mut o, 3u64.wrapping_sub(5));
    n(&mut o, 3u64.saturating_sub(5));
    n(&mut o, u64::MAX.saturating_add(5));
    n(&mut o, 250u8.wrapping_add(10) as u64);
    let (x, y) = 250u8.overflowing_add(10);
    n(&mut o, x as u64);
    b(&mut o, y);
    s(&mut o, &0x01020304u32.to_be_bytes());
    s(&mut o, &0x01020304u32.to_le_bytes());
    n(&mut o, u32::from_be_bytes([1, 2, 3, 4]) as u64);
    n(&mut o, u16::from_le_bytes([1, 2]) as u64);
    n(&mut o, 0x1234u16.swap_bytes() as u64);
    ns(&mut o, u16::try_from(70000u64).ok().map(u64::from));
    ns(&mut o, u16::try_from(7000u64).ok().map(u64::from));
    ns(&mut o, u32::try_from(usize::MAX).ok().map(u64::from));
    n(&mut o, 3u64.min(5));
    n(&mut o, 3u64.max(5));
    n(&mut o, std::cmp::min(7usize, 4) as u64);
    n(&mut o, 9u64.clamp(2, 5));
    n(&mut o, 40u64.leading_zeros() as u64);
    n(&mut o, 40u64.trailing_zeros() as u64);
    n(&mut o, 41u64.count_ones() as u64);
    n(&mut o, 10u64.abs_diff(13));
    n(&mut o, 3u64.pow(4));
    n(&mut o, 7u64.div_ceil(2));
    n(&mut o, 0x1234u16.rotate_left(4) as u64);
    b(&mut o, 64u64.is_power_of_two());
    n(&mut o, (1000i32 - 2000) as u64);
    n(&mut o, (-7i32 / 2) as u32 as u64);
    n(&mut o, (300u32 as u8) as u64);
    n(&mut o, (200u8 as i8) as i64 as u64);
    n(&mut o, 1u64 << 40 >> 3);
    o
}

pub fn root_conf_duration() -> Vec<u8> {
    let mut o = Vec::new();
    let x = Duration::from_millis(2750);
    let y = Duration::from_secs(3);
    d(&mut o, x);
    d(&mut o, Duration::new(1, 5));
    d(&mut o, Duration::from_micros(1_000_007));
    d(&mut o, Duration::from_nanos(1_000_000_007));
    n(&mut o, x.as_millis() as u64);
    n(&mut o, x.as_micros() as u64);
    n(&mut o, x.as_nanos() as u64);
    n(&mut o, x.subsec_millis() as u64);
    n(&mut o, x.subsec_micros() as u64);
    b(&mut o, x < y);
    b(&mut o, x > y);
    b(&mut o, x <= x);
    b(&mut o, x == y);
    d(&mut o, x.min(y));
    d(&mut o, x.max(y));
    d(&mut o, std::cmp::min(y, x));
    d(&mut o, x + y);
    d(&mut o, y - x);
    d(&mut o, x * 3);
    d(&mut o, y / 4);
    d(&mut o, x.saturating_sub(y));
    b(&mut o, x.checked_sub(y).is_some());
    match y.checked_add(x) {
        Some(z) => d(&mut o, z),
        None => o.push(9),
    }
    b(&mut o, Duration::ZERO.is_zero());
    d(&mut o, Duration::MAX);
    o
}

pub fn root_conf_option() -> Vec<u8> {
    let mut o = Vec::new();
    let x = Some(5u64);
    let z: Option<u64> = None;
    n(&mut o, x.unwrap_or(7));
    n(&mut o, z.unwrap_or(7));
    n(&mut o, z.unwrap_or_default());
    n(&mut o, z.map_or(3, |v| v + 1));
    n(&mut o, x.map_or_else(|| 3, |v| v + 1));
    b(&mut o, x.is_some() && z.is_none());
    b(&mut o, x.is_some_and(|v| v > 4));
    ns(&mut o, x.filter(|v| *v > 5));
    ns(&mut o, x.and_then(|v| v.checked_sub(1)));
    ns(&mut o, z.or(x));
    ns(&mut o, z.or_else(|| Some(1)));
    ns(&mut o, x.xor(z));
    let mut y = x;
    ns(&mut o, y.take());
    ns(&mut o, y);
    ns(&mut o, y.replace(4));
    n(&mut o, *y.get_or_insert(9));
    ns(&mut o, y.insert(3).checked_add(1));
    if let Some(v) = y.as_mut() {
        *v += 1;
    }
    ns(&mut o, y);
    ns(&mut o, x.zip(y).map(|(a, b)| a * 10 + b));
    b(&mut o, x == Some(5));
    b(&mut o, x < z);
    let r: Result<u64, u64> = x.ok_or(1);
    n(&mut o, r.unwrap_or(0));
    let e: Result<u64, u64> = Err(8);
    ns(&mut o, e.ok());
    ns(&mut o, e.err());
    n(&mut o, e.map_err(|v| v + 1).unwrap_or_else(|v| v));
    n(&mut o, e.or_else(|v| if v == 8 { Ok::<u64, u64>(2) } else { Err(v) }).unwrap_or(0));
    b(&mut o, r.is_ok() && e.is_err());
    let c = Some(String::from("in"));
    n(&mut o, c.as_ref().map(|v| v.len()).unwrap_or(0) as u64);
    s(&mut o, c.as_deref().unwrap_or("out").as_bytes());
    s(&mut o, c.clone().unwrap_or_default().as_bytes());
    ns(&mut o, Some(Some(1u64)).flatten());
    let q: Option<Result<u64, u64>> = Some(Ok(4));
    ns(&mut o, q.transpose().ok().flatten());
    o
}

pub fn root_conf_map() -> Vec<u8> {
    let mut o = Vec::new();
    let mut m: HashMap<String, u64> = HashMap::new();
    ns(&mut o, m.insert("a".to_string(), 1));
    ns(&mut o, m.insert("b".to_string(), 2));
    ns(&mut o, m.insert("a".to_string(), 3));
    ns(&mut o, m.get("a").copied());
    ns(&mut o, m.get("c").copied());
    b(&mut o, m.contains_key("b"));
    b(&mut o, m.contains_key("c"));
    n(&mut o, *m.entry("d".to_string()).or_insert(6));
    n(&mut o, *m.entry("d".to_string()).or_insert(7));
    o
}

pub fn root_conf_mem() -> Vec<u8> {
    let mut o = Vec::new();
    let mut x = 3u64;
    let mut y = 4u64;
    n(&mut o, std::mem::replace(&mut x, 9));
    std::mem::swap(&mut x, &mut y);
    n(&mut o, x * 100 + y);
    n(&mut o, std::mem::take(&mut x));
    n(&mut o, x);
    let c = std::cell::Cell::new(5u64);
    c.set(c.get() + 1);
    n(&mut o, c.replace(1));
    let a = std::sync::Arc::new(7u64);
    let a2 = a.clone();
    n(&mut o, *a2 + *a);
    let t = std::sync::atomic::AtomicU64::new(5);
    let so = std::sync::atomic::Ordering::SeqCst;
    n(&mut o, t.fetch_add(2, so));
    n(&mut o, t.swap(11, so));
    n(&mut o, t.load(so));
    t.store(12, so);
    n(&mut o, t.fetch_sub(1, so));
    b(&mut o, t.compare_exchange(11, 20, so, so).is_ok());
    b(&mut o, t.compare_exchange(11, 20, so, so).is_ok());
    n(&mut o, t.fetch_max(30, so));
    n(&mut o, t.into_inner());
    let bx: Box<dyn Fn(u64) -> u64> = Box::new(move |v| v + y);
    n(&mut o, bx(1));
    o
}

pub fn root_conf_io() -> Vec<u8> {
    use byteorder::{BigEndian, LittleEndian, ReadBytesExt, WriteBytesExt};
    use std::io::{Cursor, Read, Write};
    let mut o = Vec::new();
    let v: Vec<u8> = (0..20).collect();
    let mut c = Cursor::new(&v);
    n(&mut o, c.read_u16::<BigEndian>().unwrap_or(0) as u64);
    n(&mut o, c.read_u32::<LittleEndian>().unwrap_or(0) as u64);
    n(&mut o, c.read_u8().unwrap_or(0) as u64);
    let mut t = [0u8; 3];
    b(&mut o, c.read_exact(&mut t).is_ok());
    s(&mut o, &t);
    n(&mut o, c.position());
    let mut w = Vec::new();
    b(&mut o, Read::take(&mut c, 4).read_to_end(&mut w).is_ok());
    s(&mut o, &w);
    w.clear();
    b(&mut o, c.read_to_end(&mut w).is_ok());
    s(&mut o, &w);
    b(&mut o, c.read_u64::<BigEndian>().is_err());
    b(&mut o, c.read_exact(&mut t).is_err());
    let mut z = Vec::new();
    b(&mut o, z.write_u16::<BigEndian>(0x102).is_ok() && z.write_u64::<BigEndian>(3).is_ok() && z.write_all(&[9]).is_ok());
    s(&mut o, &z);
    let mut k: &[u8] = &v[15..];
    n(&mut o, k.read_u16::<BigEndian>().unwrap_or(0) as u64);
    n(&mut o, k.len() as u64);
    c.set_position(18);
    s(&mut o, &[c.read_u8().unwrap_or(0)]);
    n(&mut o, c.into_inner().len() as u64);
    o
}

pub fn root_conf_more() -> Vec<u8> {
    let mut o = Vec::new();
    let mut m = BytesMut::new();
    n(&mut o, m.len() as u64);
    m.extend_from_slice(&[1, 2, 3, 4, 5]);
    n(&mut o, m.len() as u64);
    let t = m.copy_to_bytes(2);
    s(&mut o, &t);
    s(&mut o, &m);
    let mut t = Bytes::from(String::from("abcdef"));
    n(&mut o, t.len() as u64);
    let h = t.split_to(4);
    s(&mut o, &h);
    s(&mut o, &t);
    s(&mut o, &h.clone());
    let mut x: Box<Vec<u8>> = Box::new(vec![0u8; 4]);
    x.push(7);
    x[1] = 9;
    x[2..4].copy_from_slice(&[5, 6]);
    s(&mut o, &x);
    let p: std::pin::Pin<Box<u64>> = Box::pin(5);
    n(&mut o, *p);
    let a = std::sync::Arc::new(String::from("arc"));
    let r: &String = a.as_ref();
    s(&mut o, r.as_bytes());
    let q: &str = AsRef::<str>::as_ref("q");
    s(&mut o, q.as_bytes());
    n(&mut o, *std::sync::Arc::<u64>::default());
    b(&mut o, HashMap::<String, u64>::default().get("k").is_none());
    b(&mut o, Duration::from_millis(3).clone() == Duration::from_millis(3));
    let mut store = [0u8; 8];
    let mut rb = tokio::io::ReadBuf::new(&mut store);
    n(&mut o, rb.remaining() as u64);
    rb.put_slice(&[3, 4, 5]);
    n(&mut o, rb.remaining() as u64);
    s(&mut o, rb.filled());
    rb.clear();
    n(&mut o, rb.remaining() as u64);
    n(&mut o, rb.capacity() as u64);
    b(&mut o, std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).is_ok());
    let e = std::io::Error::new(std::io::ErrorKind::InvalidData, "text");
    b(&mut o, e.kind() == std::io::ErrorKind::InvalidData);
    let e = std::io::Error::from(std::io::ErrorKind::UnexpectedEof);
    b(&mut o, e.kind() == std::io::ErrorKind::UnexpectedEof);
    o
}

// what other tasks do in between is left open by these contracts: the native outcome has to be among the ones they allow

type Tx = tokio::sync::mpsc::Sender<bromine::event::Event>;

fn tx() -> Tx {
    tokio::sync::mpsc::channel(1).0
}

pub fn root_conf_in_dash() -> Vec<u8> {
    let mut o = Vec::new();
    let m: dashmap::DashMap<u64, Tx> = dashmap::DashMap::new();
    b(&mut o, m.get(&2).is_some());
    b(&mut o, m.insert(1, tx()).is_none());
    b(&mut o, m.insert(1, tx()).is_none());
    b(&mut o, m.get(&1).is_some());
    b(&mut o, m.contains_key(&1));
    b(&mut o, m.remove(&1).is_some());
    b(&mut o, m.remove(&1).is_some());
    b(&mut o, m.contains_key(&1));
    o
}

fn now<F: std::future::Future>(f: F) -> Option<F::Output> {
    let mut f = Box::pin(f);
    let mut cx = std::task::Context::from_waker(std::task::Waker::noop());
    match f.as_mut().poll(&mut cx) {
        std::task::Poll::Ready(v) => Some(v),
        std::task::Poll::Pending => None,
    }
}

fn ev() -> bromine::event::Event {
    bromine::event::Event::initiator(None, String::from("e"), Bytes::new())
}

pub fn root_conf_in_mpsc() -> Vec<u8> {
    let mut o = Vec::new();
    let (t, mut r) = tokio::sync::mpsc::channel(4);
    b(&mut o, matches!(now(t.send(ev())), Some(Ok(()))));
    b(&mut o, matches!(now(r.recv()), Some(Some(_))));
    b(&mut o, now(r.recv()).is_none());
    drop(t);
    b(&mut o, matches!(now(r.recv()), Some(None)));
    o
}

pub fn root_conf_in_mpsc_closed() -> Vec<u8> {
    let mut o = Vec::new();
    let (t, r) = tokio::sync::mpsc::channel(4);
    b(&mut o, t.is_closed());
    drop(r);
    b(&mut o, t.is_closed());
    b(&mut o, matches!(now(t.send(ev())), Some(Err(_))));
    b(&mut o, t.try_send(ev()).is_err());
    o
}

pub fn root_conf_in_oneshot() -> Vec<u8> {
    let mut o = Vec::new();
    let (t, mut r) = tokio::sync::oneshot::channel::<()>();
    b(&mut o, now(&mut r).is_none());
    b(&mut o, t.send(()).is_ok());
    b(&mut o, matches!(now(r), Some(Ok(()))));
    let (t, r) = tokio::sync::oneshot::channel::<()>();
    drop(t);
    b(&mut o, matches!(now(r), Some(Err(_))));
    let (t, r) = tokio::sync::oneshot::channel::<()>();
    drop(r);
    b(&mut o, t.send(()).is_err());
    o
}

pub fn root_conf_in_mutex() -> Vec<u8> {
    let mut o = Vec::new();
    let l = tokio::sync::Mutex::new(3u64);
    if let Some(mut g) = now(l.lock()) {
        *g += 1;
        n(&mut o, *g);
        b(&mut o, now(l.lock()).is_none());
        b(&mut o, l.try_lock().is_err());
    }
    b(&mut o, l.try_lock().is_ok());
    if let Some(g) = now(l.lock()) {
        n(&mut o, *g);
    }
    o
}

pub fn root_conf_in_rwlock() -> Vec<u8> {
    let mut o = Vec::new();
    let l = tokio::sync::RwLock::new(3u64);
    if let Some(mut w) = now(l.write()) {
        *w += 4;
        n(&mut o, *w);
        b(&mut o, now(l.read()).is_none());
    }
    let g = now(l.read());
    let h = now(l.read());
    b(&mut o, g.is_some() && h.is_some());
    b(&mut o, now(l.write()).is_none());
    o
}

pub const ALL: &[(&str, fn() -> Vec<u8>)] = &[
    ("vec", root_conf_vec),
    ("slice", root_conf_slice),
    ("iter", root_conf_iter),
    ("string", root_conf_string),
    ("bytes", root_conf_bytes),
    ("num", root_conf_num),
    ("duration", root_conf_duration),
    ("option", root_conf_option),
    ("map", root_conf_map),
    ("mem", root_conf_mem),
    ("io", root_conf_io),
    ("more", root_conf_more),
    ("in_dash", root_conf_in_dash),
    ("in_mpsc", root_conf_in_mpsc),
    ("in_mpsc_closed", root_conf_in_mpsc_closed),
    ("in_oneshot", root_conf_in_oneshot),
    ("in_mutex", root_conf_in_mutex),
    ("in_rwlock", root_conf_in_rwlock),
];
