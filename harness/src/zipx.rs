//! Independent ZIP reader: walks the central directory itself, so repeated entries,
//! CRC errors and header disagreements are visible to the oracle.
use std::io::Read;

#[derive(Clone, Debug)]
pub struct Entry {
    pub name: String,
    pub data: Vec<u8>,
    pub method: u16,
}

fn u16le(b: &[u8], o: usize) -> Option<u16> {
    Some(u16::from_le_bytes(b.get(o..o + 2)?.try_into().ok()?))
}
fn u32le(b: &[u8], o: usize) -> Option<u32> {
    Some(u32::from_le_bytes(b.get(o..o + 4)?.try_into().ok()?))
}

pub fn crc32(data: &[u8]) -> u32 {
    let mut c = flate2::Crc::new();
    c.update(data);
    c.sum()
}

pub fn read(b: &[u8]) -> Result<Vec<Entry>, String> {
    let mut eocd = None;
    if b.len() >= 22 {
        for i in (b.len().saturating_sub(22 + 65535)..=b.len() - 22).rev() {
            if &b[i..i + 4] == b"PK\x05\x06" {
                eocd = Some(i);
                break;
            }
        }
    }
    let e = eocd.ok_or("no end-of-central-directory record")?;
    let total = u16le(b, e + 10).ok_or("eocd")? as usize;
    let cd_size = u32le(b, e + 12).ok_or("eocd")? as usize;
    let mut o = u32le(b, e + 16).ok_or("eocd")? as usize;
    let cd_off = o;
    let mut out = Vec::with_capacity(total);
    for _ in 0..total {
        if b.get(o..o + 4) != Some(b"PK\x01\x02") {
            return Err("bad central directory header".into());
        }
        let flags = u16le(b, o + 8).ok_or("cd")?;
        let method = u16le(b, o + 10).ok_or("cd")?;
        let crc = u32le(b, o + 16).ok_or("cd")?;
        let csize = u32le(b, o + 20).ok_or("cd")? as usize;
        let usize_ = u32le(b, o + 24).ok_or("cd")? as usize;
        let nl = u16le(b, o + 28).ok_or("cd")? as usize;
        let xl = u16le(b, o + 30).ok_or("cd")? as usize;
        let cl = u16le(b, o + 32).ok_or("cd")? as usize;
        let lo = u32le(b, o + 42).ok_or("cd")? as usize;
        let nb = b.get(o + 46..o + 46 + nl).ok_or("cd name")?;
        let name = String::from_utf8(nb.to_vec()).map_err(|_| "entry name is not UTF-8")?;
        if flags & 1 != 0 {
            return Err(format!("entry {} is encrypted", name));
        }
        if b.get(lo..lo + 4) != Some(b"PK\x03\x04") {
            return Err(format!("entry {}: bad local header", name));
        }
        let lnl = u16le(b, lo + 26).ok_or("lh")? as usize;
        let lxl = u16le(b, lo + 28).ok_or("lh")? as usize;
        if b.get(lo + 30..lo + 30 + lnl) != Some(nb) {
            return Err(format!("entry {}: local header names a different file", name));
        }
        let ds = lo + 30 + lnl + lxl;
        let raw = b.get(ds..ds + csize).ok_or_else(|| format!("entry {}: data past end", name))?;
        let data = match method {
            0 => raw.to_vec(),
            8 => {
                let mut v = Vec::with_capacity(usize_.min(1 << 26));
                flate2::read::DeflateDecoder::new(raw)
                    .take(usize_ as u64 + 1)
                    .read_to_end(&mut v)
                    .map_err(|e| format!("entry {}: {}", name, e))?;
                v
            }
            m => return Err(format!("entry {}: unsupported method {}", name, m)),
        };
        if data.len() != usize_ {
            return Err(format!("entry {}: size mismatch", name));
        }
        if crc32(&data) != crc {
            return Err(format!("entry {}: CRC mismatch", name));
        }
        out.push(Entry { name, data, method });
        o += 46 + nl + xl + cl;
    }
    if o != cd_off + cd_size {
        return Err("central directory size mismatch".into());
    }
    Ok(out)
}

/// Build a zip (deflated) with exactly the given entries, in order; duplicates allowed.
pub fn write(entries: &[(String, Vec<u8>)]) -> Vec<u8> {
    use std::io::Write;
    let mut out = vec![];
    let mut cd = vec![];
    let p16 = |v: &mut Vec<u8>, x: u16| v.extend_from_slice(&x.to_le_bytes());
    let p32 = |v: &mut Vec<u8>, x: u32| v.extend_from_slice(&x.to_le_bytes());
    for (n, d) in entries {
        let lo = out.len() as u32;
        let mut enc = flate2::write::DeflateEncoder::new(vec![], flate2::Compression::fast());
        enc.write_all(d).unwrap();
        let c = enc.finish().unwrap();
        let (m, c) = if n.ends_with('/') { (0u16, vec![]) } else { (8u16, c) };
        let crc = crc32(d);
        out.extend_from_slice(b"PK\x03\x04");
        p16(&mut out, 20);
        p16(&mut out, 0x800);
        p16(&mut out, m);
        p32(&mut out, 0x0021_0000);
        p32(&mut out, crc);
        p32(&mut out, c.len() as u32);
        p32(&mut out, d.len() as u32);
        p16(&mut out, n.len() as u16);
        p16(&mut out, 0);
        out.extend_from_slice(n.as_bytes());
        out.extend_from_slice(&c);
        cd.extend_from_slice(b"PK\x01\x02");
        p16(&mut cd, 20);
        p16(&mut cd, 20);
        p16(&mut cd, 0x800);
        p16(&mut cd, m);
        p32(&mut cd, 0x0021_0000);
        p32(&mut cd, crc);
        p32(&mut cd, c.len() as u32);
        p32(&mut cd, d.len() as u32);
        p16(&mut cd, n.len() as u16);
        p16(&mut cd, 0);
        p16(&mut cd, 0);
        p16(&mut cd, 0);
        p16(&mut cd, 0);
        p32(&mut cd, 0);
        p32(&mut cd, lo);
        cd.extend_from_slice(n.as_bytes());
    }
    let off = out.len() as u32;
    out.extend_from_slice(&cd);
    out.extend_from_slice(b"PK\x05\x06");
    p16(&mut out, 0);
    p16(&mut out, 0);
    p16(&mut out, entries.len() as u16);
    p16(&mut out, entries.len() as u16);
    p32(&mut out, cd.len() as u32);
    p32(&mut out, off);
    p16(&mut out, 0);
    out
}
