//! Independent implementation of the documented storage format, key derivation, password generation and recovery
//! codes. Nothing in here comes from the code under test.
use crate::model::{Pw, PwKind, Vault};
use crate::rng::Rng;
use aes_gcm::aead::{Aead, NewAead};
use hmac::Mac;
use std::cell::RefCell;
use std::collections::BTreeMap;

thread_local! {
    static KDF: RefCell<BTreeMap<(Vec<u8>, Vec<u8>, usize, u32), Vec<u8>>> = RefCell::new(BTreeMap::new());
}

pub fn kdf(primary: &str, salt: &[u8], size: usize, shift: u32) -> Vec<u8> {
    let k = (primary.as_bytes().to_vec(), salt.to_vec(), size, shift);
    if let Some(v) = KDF.with(|c| c.borrow().get(&k).cloned()) {
        return v;
    }
    let mut out = vec![0u8; size];
    let params = scrypt::Params::new(15 - shift as u8, 8, 1).unwrap();
    scrypt::scrypt(primary.as_bytes(), salt, &params, &mut out).unwrap();
    KDF.with(|c| {
        let mut c = c.borrow_mut();
        if c.len() > 3000 {
            c.clear();
        }
        c.insert(k, out.clone());
    });
    out
}

pub fn vault_key(primary: &str, salt: &[u8], shift: u32) -> Vec<u8> {
    let s: String = salt.iter().map(|b| *b as char).collect();
    kdf(primary, s.as_bytes(), 32, shift)
}

pub fn enc(key: &[u8], nonce: &[u8; 12], pt: &[u8]) -> String {
    let c = aes_gcm::Aes256Gcm::new(aes_gcm::Key::from_slice(key));
    let ct = c.encrypt(aes_gcm::Nonce::from_slice(nonce), pt).unwrap();
    format!("{}_{}", base64::encode(nonce), base64::encode(ct))
}

pub fn dec(key: &[u8], s: &str) -> Option<(Vec<u8>, Vec<u8>)> {
    let (n, c) = s.split_once('_')?;
    let n = base64::decode(n).ok()?;
    let c = base64::decode(c).ok()?;
    if n.len() != 12 {
        return None;
    }
    let a = aes_gcm::Aes256Gcm::new(aes_gcm::Key::from_slice(key));
    Some((n.clone(), a.decrypt(aes_gcm::Nonce::from_slice(&n), c.as_slice()).ok()?))
}

pub fn digest(secret: &[u8], s: &str) -> String {
    let mut m = hmac::Hmac::<sha2::Sha256>::new_from_slice(secret).unwrap();
    m.update(s.as_bytes());
    base64::encode(m.finalize().into_bytes())
}

pub fn site_key(secret: &[u8], site: &str) -> String {
    format!("site:{}", digest(secret, site))
}
pub fn pw_key(secret: &[u8], site: &str, name: &str, rev: &str) -> String {
    format!("{}:{}", site_key(secret, site), digest(secret, &format!("{}\0{}\0{}", site, name, rev)))
}

const CHARS: [&[u8]; 4] =
    [b"abcdefghjkmnpqrstuvwxyz", b"ABCDEFGHJKMNPQRSTUVWXYZ", b"23456789", b"!#$%&()*+,-./:;<=>?@[]^_{|}~"];

pub fn generate(primary: &str, site: &str, name: &str, rev: &str, len: usize, cs: u8, shift: u32) -> String {
    let mut salt = format!("{}\0{}", site, name);
    if !rev.is_empty() {
        salt.push('\0');
        salt.push_str(rev);
    }
    let bytes = kdf(primary, salt.as_bytes(), len, shift);
    let mut seen = 0u8;
    let mut out = String::new();
    for (i, b) in bytes.iter().enumerate() {
        let missing = (cs & !seen).count_ones() as usize;
        let allowed = if missing >= len - i { cs & !seen } else { cs };
        let pool: Vec<(u8, u8)> =
            (0..4).filter(|k| allowed >> k & 1 == 1).flat_map(|k| CHARS[k].iter().map(move |c| (*c, k as u8))).collect();
        if pool.is_empty() {
            return out;
        }
        let (c, k) = pool[*b as usize % pool.len()];
        seen |= 1 << k;
        out.push(c as char);
    }
    out
}

/// The rules a generated password has to obey, stated without the derivation.
pub fn obeys(pw: &str, len: usize, cs: u8) -> bool {
    pw.len() == len
        && pw.bytes().all(|c| (0..4).any(|k| cs >> k & 1 == 1 && CHARS[k].contains(&c)))
        && (0..4).all(|k| cs >> k & 1 == 0 || pw.bytes().any(|c| CHARS[k].contains(&c)))
}

// ------------------------------------------------------------------ recovery codes
const B32: &[u8] = b"ABCDEFGHJKLMNPQRSTUVWXYZ23456789";

fn pearson(data: &[u8], virt: u8) -> u8 {
    let perm = |i: u8| ((i as usize + 379) * 467) as u8;
    let mut h = 0u8;
    for b in std::iter::once(&virt).chain(data) {
        h = perm(h ^ b);
    }
    h
}
fn b32(data: &[u8]) -> Vec<u8> {
    let mut out = Vec::new();
    let (mut acc, mut bits) = (0u32, 0);
    for b in data {
        acc = acc << 8 | *b as u32;
        bits += 8;
        while bits >= 5 {
            bits -= 5;
            out.push(B32[(acc >> bits & 31) as usize]);
        }
        acc &= (1 << bits) - 1;
    }
    out
}
fn unb32(s: &[u8]) -> Option<Vec<u8>> {
    let mut out = Vec::new();
    let (mut acc, mut bits) = (0u32, 0);
    for c in s {
        let v = B32.iter().position(|x| x == c)? as u32;
        acc = acc << 5 | v;
        bits += 5;
        if bits >= 8 {
            bits -= 8;
            out.push((acc >> bits & 255) as u8);
        }
        acc &= (1 << bits) - 1;
    }
    Some(out)
}

/// The lines of a recovery code.
pub fn recovery_encode(pw: &str, primary: &str, salt: &[u8; 16], nonce: &[u8; 12], shift: u32) -> Vec<String> {
    let mut pt = pw.as_bytes().to_vec();
    while (1 + 16 + 12 + 16 + pt.len()) % 14 != 0 {
        pt.push(0);
    }
    let e = enc(&vault_key(primary, salt, shift), nonce, &pt);
    let ct = base64::decode(e.split_once('_').unwrap().1).unwrap();
    let mut data = vec![1u8];
    data.extend_from_slice(salt);
    data.extend_from_slice(nonce);
    data.extend_from_slice(&ct);
    recovery_lines(&data)
}
/// The lines for these bytes (a multiple of 14), each with its check byte.
pub fn recovery_lines(data: &[u8]) -> Vec<String> {
    let n = data.len() / 14;
    data.chunks(14)
        .enumerate()
        .map(|(i, b)| {
            let mut v = b.to_vec();
            v.push(pearson(b, if i == n - 1 { 255 - i as u8 } else { i as u8 }));
            let t = b32(&v);
            let mut s = String::new();
            for (k, c) in t.iter().enumerate() {
                if k == 12 {
                    s.push(':');
                } else if k > 0 && k % 4 == 0 {
                    s.push('-');
                }
                s.push(*c as char);
            }
            s
        })
        .collect()
}

/// Strict decoder: (salt, nonce, password)
pub fn recovery_decode(text: &str, primary: &str, shift: u32) -> Option<(Vec<u8>, Vec<u8>, String)> {
    let mut data = Vec::new();
    let lines: Vec<&str> = text.lines().collect();
    for (i, l) in lines.iter().enumerate() {
        let t: Vec<u8> = l.bytes().filter(|c| *c != b'-' && *c != b':').collect();
        let v = unb32(&t)?;
        if v.len() != 15 || t.len() != 24 {
            return None;
        }
        let virt = if i == lines.len() - 1 { 255 - i as u8 } else { i as u8 };
        if v[14] != pearson(&v[..14], virt) {
            return None;
        }
        data.extend_from_slice(&v[..14]);
    }
    if data.len() < 45 || data[0] != 1 {
        return None;
    }
    let (salt, nonce, ct) = (&data[1..17], &data[17..29], &data[29..]);
    let key = vault_key(primary, salt, shift);
    let (_, mut pt) = dec(&key, &format!("{}_{}", base64::encode(nonce), base64::encode(ct)))?;
    while pt.last() == Some(&0) {
        pt.pop();
    }
    Some((salt.to_vec(), nonce.to_vec(), String::from_utf8(pt).ok()?))
}

/// What the recovery code entry should conclude from the text typed so far: decoded password, or the number of
/// good leading lines and the reason.
#[derive(Debug, PartialEq)]
pub enum Rc {
    Ok(String),
    Incomplete(usize),
    Mismatch(usize),
    Extra(usize),
    Bad,
}
pub fn recovery_judge(text: &str, primary: &str, shift: u32) -> Rc {
    let t: Vec<u8> = text.bytes().map(|c| c.to_ascii_uppercase()).filter(|c| B32.contains(c)).collect();
    let full = t.len() / 24;
    let mut data = Vec::new();
    let mut last = None;
    for i in 0..full {
        let v = unb32(&t[i * 24..(i + 1) * 24]).unwrap();
        if last.is_some() {
            break;
        }
        if v[14] == pearson(&v[..14], 255 - i as u8) {
            last = Some(i);
        } else if v[14] != pearson(&v[..14], i as u8) {
            return Rc::Mismatch(i);
        }
        data.extend_from_slice(&v[..14]);
    }
    let Some(l) = last else { return Rc::Incomplete(full) };
    if t.len() > (l + 1) * 24 {
        return Rc::Extra(l + 1);
    }
    if data[0] != 1 || data.len() < 45 {
        return Rc::Bad;
    }
    let key = vault_key(primary, &data[1..17], shift);
    let Some((_, mut pt)) = dec(&key, &format!("{}_{}", base64::encode(&data[17..29]), base64::encode(&data[29..]))) else {
        return Rc::Bad;
    };
    while pt.last() == Some(&0) {
        pt.pop();
    }
    String::from_utf8(pt).map_or(Rc::Bad, Rc::Ok)
}
/// The accepted prefix of what was typed, normalised.
pub fn recovery_format(text: &str) -> String {
    let t: Vec<u8> = text.bytes().map(|c| c.to_ascii_uppercase()).filter(|c| B32.contains(c)).collect();
    let mut s = String::new();
    for (k, c) in t.iter().enumerate() {
        if k > 0 {
            if k % 24 == 0 {
                s.push('\n')
            } else if k % 12 == 0 {
                s.push(':')
            } else if k % 4 == 0 {
                s.push('-')
            }
        }
        s.push(*c as char);
    }
    s
}

// ------------------------------------------------------------------ files
#[derive(Clone, Debug, PartialEq)]
pub struct Decoded {
    pub salt: Vec<u8>,
    pub key: Vec<u8>,
    pub hmac: Vec<u8>,
    pub vault: Vault,
    pub raw: BTreeMap<String, String>,
    /// (storage key, nonce)
    pub nonces: Vec<(String, Vec<u8>)>,
}

pub fn raw_map(bytes: &[u8]) -> Result<BTreeMap<String, String>, String> {
    let text = std::str::from_utf8(bytes).map_err(|_| "not UTF-8".to_string())?;
    let v: serde_json::Value = serde_json::from_str(text).map_err(|e| format!("not JSON: {}", e))?;
    let o = v.as_object().ok_or("not an object")?;
    if o.get("application").and_then(|v| v.as_str()) != Some("pfp") {
        return Err("wrong application".into());
    }
    if o.get("format").and_then(|v| v.as_u64()) != Some(3) {
        return Err("wrong format".into());
    }
    if o.len() != 3 {
        return Err("unexpected members".into());
    }
    let d = o.get("data").and_then(|v| v.as_object()).ok_or("no data")?;
    let mut out = BTreeMap::new();
    for (k, v) in d {
        out.insert(k.clone(), v.as_str().ok_or("data value is not a string")?.to_string());
    }
    Ok(out)
}

/// Decodes a storage file. `lenient`: undecodable entries go to `foreign`, otherwise they are errors unless listed
/// in `known_foreign`.
pub fn decode(bytes: &[u8], primary: &str, shift: u32, known_foreign: &BTreeMap<String, String>) -> Result<Decoded, String> {
    let raw = raw_map(bytes)?;
    let salt = base64::decode(raw.get("salt").ok_or("no salt")?).map_err(|_| "salt is not Base64")?;
    let key = vault_key(primary, &salt, shift);
    let mut nonces = Vec::new();
    let hs = raw.get("hmac-secret").ok_or("no hmac-secret")?;
    let (n, pt) = dec(&key, hs).ok_or("hmac-secret does not decrypt with the primary password")?;
    nonces.push(("hmac-secret".to_string(), n));
    let s: String = serde_json::from_slice(&pt).map_err(|_| "hmac-secret is not a JSON string")?;
    let hmac = base64::decode(&s).map_err(|_| "hmac-secret is not Base64")?;
    if hmac.len() != 32 || salt.len() != 16 {
        return Err("salt or hmac-secret has the wrong size".into());
    }
    let mut vault = Vault { primary: primary.to_string(), ..Default::default() };
    for (k, v) in &raw {
        if k == "salt" || k == "hmac-secret" {
            continue;
        }
        if known_foreign.get(k) == Some(v) {
            vault.foreign.insert(k.clone(), v.clone());
            continue;
        }
        let (n, pt) = dec(&key, v).ok_or_else(|| format!("entry {} does not decrypt", k))?;
        nonces.push((k.clone(), n));
        let j: serde_json::Value = serde_json::from_slice(&pt).map_err(|_| format!("entry {} is not JSON", k))?;
        let o = j.as_object().ok_or_else(|| format!("entry {} is not an object", k))?;
        let st = |n: &str| o.get(n).and_then(|v| v.as_str()).map(|s| s.to_string());
        let extra = |allowed: &[&str]| o.keys().find(|k| !allowed.contains(&k.as_str())).cloned();
        let site = st("site").ok_or_else(|| format!("entry {} has no site", k))?;
        if k.matches(':').count() == 1 {
            if let Some(e) = extra(&["site", "alias"]) {
                return Err(format!("site record with unknown member {}", e));
            }
            if *k != site_key(&hmac, &site) {
                return Err(format!("site record {} under the wrong key", site));
            }
            let alias = match o.get("alias") {
                None => None,
                Some(v) => Some(v.as_str().ok_or("alias is not a string")?.to_string()),
            };
            vault.sites.insert(site, alias);
        } else {
            let name = st("name").ok_or("password without name")?;
            let rev = st("revision").ok_or("password without revision")?;
            if *k != pw_key(&hmac, &site, &name, &rev) {
                return Err(format!("password {}/{}/{} under the wrong key", site, name, rev));
            }
            let notes = match o.get("notes") {
                None => String::new(),
                Some(v) => v.as_str().filter(|s| !s.is_empty()).ok_or("bad notes")?.to_string(),
            };
            let kind = match st("type").as_deref() {
                Some("generated2") => {
                    if let Some(e) =
                        extra(&["type", "site", "name", "revision", "length", "lower", "upper", "number", "symbol", "notes"])
                    {
                        return Err(format!("password with unknown member {}", e));
                    }
                    let mut cs = 0;
                    for (i, n) in ["lower", "upper", "number", "symbol"].iter().enumerate() {
                        if o.get(*n).and_then(|v| v.as_bool()).ok_or("bad character type flag")? {
                            cs |= 1 << i;
                        }
                    }
                    PwKind::Gen { len: o.get("length").and_then(|v| v.as_u64()).ok_or("bad length")? as u32, cs }
                }
                Some("stored") => {
                    if let Some(e) = extra(&["type", "site", "name", "revision", "password", "notes"]) {
                        return Err(format!("password with unknown member {}", e));
                    }
                    PwKind::Stored(st("password").ok_or("stored password without value")?)
                }
                _ => return Err("unknown password type".into()),
            };
            vault.pws.insert((site, name, rev), Pw { kind, notes });
        }
    }
    Ok(Decoded { salt, key, hmac, vault, raw, nonces })
}

/// A JSON string with a random choice of permitted escapes.
fn jstr(s: &str, rng: &mut Rng, fancy: bool) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        let esc = c == '"' || c == '\\' || (c as u32) < 0x20;
        if esc && !fancy {
            match c {
                '"' => o.push_str("\\\""),
                '\\' => o.push_str("\\\\"),
                _ => o.push_str(&format!("\\u{:04x}", c as u32)),
            }
        } else if esc || (fancy && rng.chance(1, 8)) {
            if c == '/' && rng.chance(1, 2) {
                o.push_str("\\/");
            } else {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    o.push_str(&if rng.chance(1, 2) { format!("\\u{:04x}", u) } else { format!("\\u{:04X}", u) });
                }
            }
        } else {
            o.push(c);
        }
    }
    o.push('"');
    o
}

fn ws(rng: &mut Rng, fancy: bool) -> &'static str {
    if fancy {
        *rng.pick(&["", "", " ", "\n", "\t", "\r\n  "])
    } else {
        ""
    }
}

/// A JSON object from already encoded members, in random order.
fn jobj(mut m: Vec<(String, String)>, rng: &mut Rng, fancy: bool) -> String {
    if fancy {
        for i in (1..m.len()).rev() {
            m.swap(i, rng.usize(i + 1));
        }
    }
    let mut o = String::from("{");
    for (i, (k, v)) in m.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        o.push_str(ws(rng, fancy));
        o.push_str(&jstr(k, rng, fancy && rng_bool(i)));
        o.push_str(ws(rng, fancy));
        o.push(':');
        o.push_str(ws(rng, fancy));
        o.push_str(v);
        o.push_str(ws(rng, fancy));
    }
    o.push('}');
    o
}
fn rng_bool(i: usize) -> bool {
    i % 2 == 0
}

/// Encodes a vault as a storage file. `fancy`: any member order, white space and JSON escapes,
/// `fancy_key`: the latter for the HMAC secret as well.
pub fn encode(v: &Vault, shift: u32, rng: &mut Rng, fancy: bool, fancy_key: bool) -> Vec<u8> {
    let mut salt = [0u8; 16];
    rng.fill(&mut salt);
    // the ends of the salt are the bytes that are lost first
    if rng.chance(1, 6) {
        salt[0] = *rng.pick(&[0, 255, b'=', b' ']);
    }
    if rng.chance(1, 6) {
        salt[15] = *rng.pick(&[0, 255, b'\n', b' ']);
    }
    let mut hmac = [0u8; 32];
    rng.fill(&mut hmac);
    let key = vault_key(&v.primary, &salt, shift);
    let e = |rng: &mut Rng, pt: &str| {
        let mut n = [0u8; 12];
        rng.fill(&mut n);
        enc(&key, &n, pt.as_bytes())
    };
    let mut data: Vec<(String, String)> = vec![("salt".into(), base64::encode(salt))];
    let hs = jstr(&base64::encode(hmac), rng, fancy_key);
    let hs = e(rng, &hs);
    data.push(("hmac-secret".into(), hs));
    for (s, a) in &v.sites {
        let mut m = vec![("site".to_string(), jstr(s, rng, fancy))];
        if let Some(a) = a {
            m.push(("alias".into(), jstr(a, rng, fancy)));
        }
        let t = jobj(m, rng, fancy);
        let c = e(rng, &t);
        data.push((site_key(&hmac, s), c));
    }
    for ((s, n, r), p) in &v.pws {
        let mut m = vec![
            ("site".to_string(), jstr(s, rng, fancy)),
            ("name".to_string(), jstr(n, rng, fancy)),
            ("revision".to_string(), jstr(r, rng, fancy)),
        ];
        match &p.kind {
            PwKind::Gen { len, cs } => {
                m.insert(0, ("type".into(), "\"generated2\"".into()));
                m.push(("length".into(), len.to_string()));
                for (i, f) in ["lower", "upper", "number", "symbol"].iter().enumerate() {
                    m.push((f.to_string(), (cs >> i & 1 == 1).to_string()));
                }
            }
            PwKind::Stored(t) => {
                m.insert(0, ("type".into(), "\"stored\"".into()));
                m.push(("password".into(), jstr(t, rng, fancy)));
            }
        }
        if !p.notes.is_empty() {
            m.push(("notes".into(), jstr(&p.notes, rng, fancy)));
        }
        let t = jobj(m, rng, fancy);
        let c = e(rng, &t);
        data.push((pw_key(&hmac, s, n, r), c));
    }
    for (k, val) in &v.foreign {
        data.push((k.clone(), val.clone()));
    }
    let data: Vec<(String, String)> = data.into_iter().map(|(k, v)| (k, jstr(&v, rng, fancy))).collect();
    let d = jobj(data, rng, fancy);
    let top = vec![("application".to_string(), "\"pfp\"".to_string()), ("format".into(), "3".into()), ("data".into(), d)];
    let mut s = jobj(top, rng, fancy);
    s.insert_str(0, ws(rng, fancy));
    s.push_str(ws(rng, fancy));
    s.into_bytes()
}
