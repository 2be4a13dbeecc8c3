//! Executes library calls on the real pfp crate, one JSON array per input line, one JSON object per output line.
use pfp::error::Error;
use pfp::passwords::Passwords;
use pfp::storage_io::FileIO;
use pfp::storage_types::{CharacterSet, CharacterType, Password};
use secrecy::{ExposeSecret, SecretString};
use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::path::Path;

fn err(e: Error) -> Value {
    let d = format!("{:?}", e);
    let name: String = d.chars().take_while(|c| c.is_alphanumeric()).collect();
    json!({ "err": name })
}
fn unit(r: Result<(), Error>) -> Value {
    r.map_or_else(err, |_| json!({"ok": true}))
}
fn text(r: Result<String, Error>) -> Value {
    r.map_or_else(err, |s| json!({ "ok": s }))
}
fn secret(s: &str) -> SecretString {
    SecretString::new(s.to_string())
}

fn main() {
    let mut session: Option<Passwords<FileIO>> = None;
    let stdin = std::io::stdin();
    let mut line = String::new();
    loop {
        line.clear();
        match stdin.lock().read_line(&mut line) {
            Ok(0) | Err(_) => break,
            _ => {}
        }
        let q: Vec<Value> = serde_json::from_str(&line).unwrap();
        let s = |i: usize| q[i].as_str().unwrap_or("");
        let op = s(0);
        let res = if op == "load" {
            match FileIO::load(Path::new(s(1))) {
                Ok(io) => {
                    session = Some(Passwords::new(io));
                    json!({"ok": true})
                }
                Err(e) => {
                    session = None;
                    err(e)
                }
            }
        } else if op == "new" {
            session = Some(Passwords::new(FileIO::new(Path::new(s(1)))));
            json!({"ok": true})
        } else if let Some(p) = session.as_mut() {
            match op {
                "state" => json!({"ok": [p.initialized(), p.unlocked()]}),
                "reset" => unit(p.reset(secret(s(1)))),
                "unlock" => unit(p.unlock(secret(s(1)))),
                "lock" => {
                    p.lock();
                    json!({"ok": true})
                }
                "add" => {
                    let mut cs = CharacterSet::empty();
                    let bits = q[5].as_u64().unwrap();
                    for (i, t) in
                        [CharacterType::Lower, CharacterType::Upper, CharacterType::Digit, CharacterType::Symbol].iter().enumerate()
                    {
                        if bits >> i & 1 == 1 {
                            cs.insert(*t);
                        }
                    }
                    unit(p.set_generated(s(1), s(2), s(3), q[4].as_u64().unwrap() as usize, cs))
                }
                "store" => unit(p.set_stored(s(1), s(2), s(3), secret(s(4)))),
                "get" => text(p.get(s(1), s(2), s(3)).map(|v| v.expose_secret().clone())),
                "notes" => text(p.get_notes(s(1), s(2), s(3)).map(|v| v.expose_secret().clone())),
                "set-notes" => unit(p.set_notes(s(1), s(2), s(3), secret(s(4)))),
                "remove" => unit(p.remove(s(1), s(2), s(3))),
                "has" => p.has(s(1), s(2), s(3)).map_or_else(err, |b| json!({ "ok": b })),
                "alias" => text(p.get_alias(s(1))),
                "set-alias" => unit(p.set_alias(s(1), s(2))),
                "remove-alias" => unit(p.remove_alias(s(1))),
                "remove-sites" => {
                    let v: Vec<String> = q[1].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
                    unit(p.remove_sites(&v))
                }
                "decode" => text(p.decode_recovery_code(s(1)).map(|v| v.expose_secret().clone())),
                "list" if !p.unlocked() => json!({"err": "PasswordsLocked"}),
                "list" => {
                    let mut sites: Vec<(String, Option<String>)> =
                        p.list_sites(s(1)).map(|x| (x.name().to_string(), x.alias().map(|a| a.to_string()))).collect();
                    sites.sort();
                    let mut out = Vec::new();
                    for (site, alias) in &sites {
                        let mut pws: Vec<(String, String, Value)> = Vec::new();
                        // the call strips one prefix
                        let asked = if site.starts_with("www.") { format!("www.{}", site) } else { site.clone() };
                        for w in p.list(&asked, s(2)) {
                            let id = w.id();
                            let (n, r) = (id.name().to_string(), id.revision().to_string());
                            let v = match &w {
                                Password::Generated(g) => json!({
                                    "site": id.site(), "len": g.length(), "cs": [
                                        g.charset().contains(CharacterType::Lower), g.charset().contains(CharacterType::Upper),
                                        g.charset().contains(CharacterType::Digit), g.charset().contains(CharacterType::Symbol)],
                                    "notes": w.notes().expose_secret()}),
                                Password::Stored(t) => json!({
                                    "site": id.site(), "pw": t.password().expose_secret(), "notes": w.notes().expose_secret(),
                                    "code": p.get_recovery_code(t).unwrap_or_default()}),
                            };
                            pws.push((n, r, v));
                        }
                        pws.sort_by(|a, b| (&a.0, &a.1).cmp(&(&b.0, &b.1)));
                        out.push(json!([site, alias, pws]));
                    }
                    json!({ "ok": out })
                }
                _ => json!({"err": "BadOp"}),
            }
        } else {
            json!({"err": "NoSession"})
        };
        let mut o = std::io::stdout().lock();
        writeln!(o, "{}", res).unwrap();
        o.flush().unwrap();
    }
}
