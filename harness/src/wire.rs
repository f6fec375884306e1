//! An independent codec of the documented wire format.

#[derive(Clone, Debug, PartialEq)]
pub struct Frame {
    pub version: [u8; 3],
    pub id: u64,
    pub ty: u8,
    pub ref_id: Option<u64>,
    pub ns: Option<String>,
    pub name: String,
    pub payload: Vec<u8>,
}

pub const INITIATOR: u8 = 0;
pub const RESPONSE: u8 = 1;
pub const END: u8 = 2;
pub const ERROR: u8 = 3;

impl Frame {
    pub fn new(ty: u8, id: u64, ref_id: Option<u64>, ns: Option<&str>, name: &str, payload: &[u8]) -> Self {
        Frame { version: [0, 9, 0], id, ty, ref_id, ns: ns.map(|s| s.to_string()), name: name.to_string(), payload: payload.to_vec() }
    }

    pub fn header(&self) -> Vec<u8> {
        let mut h = self.version.to_vec();
        h.extend(self.id.to_be_bytes());
        h.push(self.ty);
        match self.ref_id {
            Some(r) => {
                h.push(0xFF);
                h.extend(r.to_be_bytes());
            }
            None => h.push(0),
        }
        let ns = self.ns.as_deref().unwrap_or("");
        h.extend((ns.len() as u16).to_be_bytes());
        h.extend(ns.as_bytes());
        h.extend((self.name.len() as u16).to_be_bytes());
        h.extend(self.name.as_bytes());
        h
    }

    pub fn bytes_with(&self, extra: &[u8]) -> Vec<u8> {
        let mut h = self.header();
        h.extend(extra);
        let mut b = (h.len() as u64 + self.payload.len() as u64).to_be_bytes().to_vec();
        b.extend((h.len() as u16).to_be_bytes());
        b.extend(h);
        b.extend(&self.payload);
        b
    }

    pub fn bytes(&self) -> Vec<u8> {
        self.bytes_with(&[])
    }
}

struct Cur<'a>(&'a [u8]);
impl<'a> Cur<'a> {
    fn take(&mut self, n: u64) -> Result<&'a [u8], String> {
        if (self.0.len() as u64) < n {
            return Err("short".into());
        }
        let (a, b) = self.0.split_at(n as usize);
        self.0 = b;
        Ok(a)
    }
    fn int(&mut self, n: u64) -> Result<u64, String> {
        Ok(self.take(n)?.iter().fold(0, |a, b| (a << 8) | *b as u64))
    }
}

/// the frame at the start of the bytes and how many bytes it has; Ok(None) when more bytes are needed
pub fn parse(b: &[u8]) -> Result<Option<(Frame, usize)>, String> {
    if b.len() < 10 {
        return Ok(None);
    }
    let mut c = Cur(b);
    let total = c.int(8)?;
    let hl = c.int(2)?;
    if total < hl {
        return Err("total length smaller than header length".into());
    }
    if (c.0.len() as u64) < hl {
        return Ok(None);
    }
    let mut h = Cur(c.take(hl)?);
    let v = h.take(3)?;
    let version = [v[0], v[1], v[2]];
    if v[0] != 0 {
        return Err(format!("version {}.{}.{}", v[0], v[1], v[2]));
    }
    let id = h.int(8)?;
    let ty = h.int(1)? as u8;
    if ty > 3 {
        return Err("type".into());
    }
    let ref_id = match h.int(1)? {
        0 => None,
        0xFF => Some(h.int(8)?),
        _ => return Err("reference marker".into()),
    };
    let n = h.int(2)?;
    let ns = h.take(n)?;
    let ns = if n == 0 { None } else { Some(String::from_utf8(ns.to_vec()).map_err(|_| "utf8".to_string())?) };
    let n = h.int(2)?;
    let name = String::from_utf8(h.take(n)?.to_vec()).map_err(|_| "utf8".to_string())?;
    if (c.0.len() as u64) < total - hl {
        return Ok(None);
    }
    let payload = c.take(total - hl)?.to_vec();
    Ok(Some((Frame { version, id, ty, ref_id, ns, name, payload }, 10 + total as usize)))
}
