//! The reference model of a vault: what the commands are supposed to do and to say.
use crate::plan::Cmd;
use crate::{qr, refimpl};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum PwKind {
    Gen { len: u32, cs: u8 },
    Stored(String),
}
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Pw {
    pub kind: PwKind,
    #[serde(default)]
    pub notes: String,
}
pub type Id = (String, String, String);

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Vault {
    pub primary: String,
    pub sites: BTreeMap<String, Option<String>>,
    pub pws: BTreeMap<Id, Pw>,
    pub foreign: BTreeMap<String, String>,
}

pub fn norm_site(s: &str) -> String {
    s.strip_prefix("www.").unwrap_or(s).to_string()
}
pub fn norm_rev(r: &str) -> String {
    if r == "1" { String::new() } else { r.to_string() }
}

/// '*' any text, '?' one character
pub fn wild(p: &str, s: &str) -> bool {
    let p: Vec<char> = p.chars().collect();
    let s: Vec<char> = s.chars().collect();
    let mut ok = vec![false; s.len() + 1];
    ok[0] = true;
    for c in p {
        let mut n = vec![false; s.len() + 1];
        if c == '*' {
            let mut any = false;
            for i in 0..=s.len() {
                any |= ok[i];
                n[i] = any;
            }
        } else {
            for i in 0..s.len() {
                n[i + 1] = ok[i] && (c == '?' || c == s[i]);
            }
        }
        ok = n;
    }
    ok[s.len()]
}

pub const E_MISSING: &str = "No such value in storage.";
pub const E_NOALIAS: &str = "Site is not an alias.";
pub const E_SELF: &str = "Cannot make a site an alias for itself.";
pub const E_HASPW: &str = "Site has passwords, remove before making it an alias.";
pub const E_LOCKED: &str = "Passwords are locked.";
pub const E_UNINIT: &str = "Storage is missing data. Maybe use set-primary subcommand first?";
pub const E_WRONGPW: &str = "Decryption failure, wrong primary password?";
pub const E_SHORT: &str = "Primary password length should be at least 6 characters.";
pub const E_MATCH: &str = "Primary passwords don't match.";
pub const E_NOCHARS: &str = "You need to allow at least one character set.";

#[derive(Clone, Debug, PartialEq)]
pub enum Piece {
    Text(String),
    /// a recovery code for this password, each line indented by eight spaces
    Code(String),
    /// the QR code of this text, up to the end
    Qr(String),
}

impl Vault {
    pub fn resolve(&self, s: &str) -> String {
        let n = norm_site(s);
        match self.sites.get(&n) {
            Some(Some(a)) => a.clone(),
            _ => n,
        }
    }
    pub fn id(&self, site: &str, name: &str, rev: &str) -> Id {
        (self.resolve(site), name.to_string(), norm_rev(rev))
    }
    pub fn value(&self, id: &Id, shift: u32) -> Option<String> {
        Some(match &self.pws.get(id)?.kind {
            PwKind::Gen { len, cs } => refimpl::generate(&self.primary, &id.0, &id.1, &id.2, *len as usize, *cs, shift),
            PwKind::Stored(s) => s.clone(),
        })
    }
    pub fn has_pws(&self, site: &str) -> bool {
        self.pws.keys().any(|k| k.0 == site)
    }
    pub fn aliases(&self) -> BTreeMap<&String, &String> {
        self.sites.iter().filter_map(|(s, a)| a.as_ref().map(|a| (s, a))).collect()
    }
    pub fn put(&mut self, id: Id, kind: PwKind) {
        self.sites.entry(id.0.clone()).or_insert(None);
        self.pws.insert(id, Pw { kind, notes: String::new() });
    }

    /// Sites shown by `list` with this site pattern.
    pub fn listed(&self, pat: &str) -> (Vec<String>, BTreeMap<String, Vec<String>>) {
        let mut sites: BTreeSet<String> = BTreeSet::new();
        let mut aliases: BTreeMap<String, Vec<String>> = BTreeMap::new();
        for (s, a) in &self.sites {
            if wild(pat, s) || a.as_ref().map_or(false, |a| wild(pat, a)) {
                match a {
                    Some(a) => {
                        aliases.entry(a.clone()).or_default().push(s.clone());
                        if !matches!(self.sites.get(a), Some(Some(_))) {
                            sites.insert(a.clone());
                        }
                    }
                    None => {
                        sites.insert(s.clone());
                    }
                }
            }
        }
        (sites.into_iter().collect(), aliases)
    }
    /// Site records removed by `list`: plain records without passwords that matched.
    pub fn cleaned(&self, pat: &str, name: &str) -> Vec<String> {
        if name != "*" {
            return vec![];
        }
        let (sites, _) = self.listed(pat);
        sites.into_iter().filter(|s| !self.has_pws(s) && self.sites.get(s) == Some(&None)).collect()
    }
    /// The acceptable outputs of `list`.
    pub fn list_output(&self, pat: &str, name: &str, show: bool, rec: bool, verbose: bool, shift: u32) -> Vec<Vec<Piece>> {
        let (sites, aliases) = self.listed(pat);
        let mut outs: Vec<Vec<Piece>> = vec![vec![]];
        fn text(outs: &mut Vec<Vec<Piece>>, s: String) {
            for o in outs {
                match o.last_mut() {
                    Some(Piece::Text(t)) => t.push_str(&s),
                    _ => o.push(Piece::Text(s.clone())),
                }
            }
        }
        let mut found = false;
        for s in &sites {
            let ids: Vec<&Id> = self.pws.keys().filter(|k| k.0 == *s && wild(name, &k.1)).collect();
            if ids.is_empty() {
                continue;
            }
            found = true;
            text(&mut outs, format!("Passwords for {}:\n", s));
            if verbose {
                if let Some(a) = aliases.get(s) {
                    text(&mut outs, format!("    Aliases: {}\n", a.join(",\n             ")));
                }
            }
            let mut groups: BTreeMap<String, Vec<&Id>> = BTreeMap::new();
            for id in ids {
                groups.entry(format!("{} {}", id.1, id.2)).or_default().push(id);
            }
            for (_, g) in groups {
                // entries with the same sort key may come in any order
                let mut orders: Vec<Vec<&Id>> = vec![g.clone()];
                if g.len() > 1 {
                    let mut r = g.clone();
                    r.reverse();
                    orders.push(r);
                }
                let base = outs.clone();
                let mut all = Vec::new();
                for order in orders {
                    let mut o = base.clone();
                    for id in order {
                        let pw = &self.pws[id];
                        let ty = match pw.kind {
                            PwKind::Gen { .. } => "generated",
                            PwKind::Stored(_) => "stored",
                        };
                        if id.2.is_empty() {
                            text(&mut o, format!("    {} ({})\n", id.1, ty));
                        } else {
                            text(&mut o, format!("    {} ({}, revision: {})\n", id.1, ty, id.2));
                        }
                        if show {
                            text(&mut o, format!("        {}\n", self.value(id, shift).unwrap()));
                        }
                        if rec {
                            if let PwKind::Stored(v) = &pw.kind {
                                text(&mut o, "        Recovery code:\n".into());
                                for x in &mut o {
                                    x.push(Piece::Code(v.clone()));
                                }
                            }
                        }
                        if verbose {
                            if !pw.notes.is_empty() {
                                text(&mut o, format!("        Notes: {}\n", pw.notes));
                            }
                            if let PwKind::Gen { len, cs } = pw.kind {
                                text(&mut o, format!("        Length: {}\n", len));
                                let names = ["abc", "ABC", "789", "+^;"];
                                let c: Vec<&str> = (0..4).filter(|i| cs >> i & 1 == 1).map(|i| names[i]).collect();
                                text(&mut o, format!("        Allowed characters: {}\n", c.join(" ")));
                            }
                        }
                    }
                    all.extend(o);
                }
                outs = all;
                outs.truncate(8);
            }
        }
        if !found {
            text(&mut outs, "No matching passwords found.\n".into());
        }
        outs
    }

    /// The effect of a command on an unlocked vault: Err = refused with this message, Ok(None) = nothing to change.
    pub fn apply(&self, c: &Cmd) -> Result<Option<Vault>, &'static str> {
        let mut v = self.clone();
        match c {
            Cmd::SetPrimary { pw, .. } => {
                v = Vault { primary: pw.clone(), ..Default::default() };
            }
            Cmd::Add { site, name, rev, len, cs, .. } => {
                if *cs == 0 {
                    return Err(E_NOCHARS);
                }
                v.put(self.id(site, name, rev), PwKind::Gen { len: *len, cs: *cs });
            }
            Cmd::Store { site, name, rev, pw, .. } => {
                v.put(self.id(site, name, rev), PwKind::Stored(pw.clone()));
            }
            Cmd::Remove { site, name, rev } => {
                v.pws.remove(&self.id(site, name, rev)).ok_or(E_MISSING)?;
            }
            Cmd::Notes { site, name, rev, set } => {
                let e = v.pws.get_mut(&self.id(site, name, rev)).ok_or(E_MISSING)?;
                match set {
                    Some(t) => e.notes = t.clone(),
                    None => return Ok(None),
                }
            }
            Cmd::Show { site, name, rev, .. } => {
                return if self.pws.contains_key(&self.id(site, name, rev)) { Ok(None) } else { Err(E_MISSING) };
            }
            Cmd::List { site, name, .. } => {
                let c = self.cleaned(site, name);
                if c.is_empty() {
                    return Ok(None);
                }
                for s in c {
                    v.sites.remove(&s);
                }
            }
            Cmd::Alias { site, target, remove } => {
                let s = norm_site(site);
                match target {
                    Some(t) => {
                        let r = self.resolve(t);
                        if self.has_pws(&s) {
                            return Err(E_HASPW);
                        }
                        if r == s {
                            return Err(E_SELF);
                        }
                        // sites that were aliases of this one follow it
                        for a in v.sites.values_mut() {
                            if a.as_deref() == Some(&s) {
                                *a = Some(r.clone());
                            }
                        }
                        v.sites.insert(s, Some(r));
                    }
                    None => match v.sites.get(&s) {
                        Some(Some(_)) => {
                            if !*remove {
                                return Ok(None);
                            }
                            v.sites.remove(&s);
                        }
                        _ => return Err(E_NOALIAS),
                    },
                }
            }
            _ => return Ok(None),
        }
        Ok(Some(v))
    }

    /// Differences in content, None if equivalent. Plain site records without passwords are immaterial, except that
    /// they must have existed in the model.
    pub fn diff(&self, got: &Vault) -> Option<String> {
        if self.primary != got.primary {
            return Some("primary password differs".into());
        }
        for (k, p) in &self.pws {
            match got.pws.get(k) {
                None => return Some(format!("password {:?} is missing", k)),
                Some(q) if q != p => return Some(format!("password {:?} is {:?}, should be {:?}", k, q, p)),
                _ => {}
            }
        }
        for k in got.pws.keys() {
            if !self.pws.contains_key(k) {
                return Some(format!("unexpected password {:?}", k));
            }
        }
        if self.aliases() != got.aliases() {
            return Some(format!("aliases are {:?}, should be {:?}", got.aliases(), self.aliases()));
        }
        for k in got.pws.keys() {
            if !matches!(got.sites.get(&k.0), Some(None)) {
                return Some(format!("site {:?} has passwords but no site record", k.0));
            }
        }
        for s in got.sites.keys() {
            if !self.sites.contains_key(s) {
                return Some(format!("unexpected site record {:?}", s));
            }
        }
        if self.foreign != got.foreign {
            return Some("entries of unknown kind differ".into());
        }
        None
    }
}

/// Does the text match one of the alternatives? Returns the nonces of the recovery codes.
pub fn match_pieces(alts: &[Vec<Piece>], text: &str, primary: &str, salt: &[u8], shift: u32) -> Result<Vec<Vec<u8>>, String> {
    let mut why = String::new();
    for alt in alts {
        let mut rest = text;
        let mut nonces = Vec::new();
        let mut ok = true;
        for p in alt {
            match p {
                Piece::Text(t) => match rest.strip_prefix(t.as_str()) {
                    Some(r) => rest = r,
                    None => {
                        why = format!("expected {:?} at {:?}", t, rest);
                        ok = false;
                        break;
                    }
                },
                Piece::Qr(pw) => {
                    match qr::decode(rest) {
                        Ok(t) if t == *pw => rest = "",
                        r => {
                            why = format!("QR code gives {:?} instead of {:?}: {:?}", r, pw, rest);
                            ok = false;
                            break;
                        }
                    }
                }
                Piece::Code(pw) => {
                    let mut code = Vec::new();
                    while let Some(r) = rest.strip_prefix("        ") {
                        let Some((l, after)) = r.split_once('\n') else { break };
                        if l.len() != 29 || !l.bytes().all(|b| b == b'-' || b == b':' || b.is_ascii_uppercase() || b.is_ascii_digit()) {
                            break;
                        }
                        code.push(l);
                        rest = after;
                        if refimpl::recovery_decode(&code.join("\n"), primary, shift).is_some() {
                            break;
                        }
                    }
                    match refimpl::recovery_decode(&code.join("\n"), primary, shift) {
                        Some((s, n, v)) if v == *pw && s == salt => nonces.push(n),
                        r => {
                            why = format!("recovery code {:?} decodes to {:?}, should be {:?}", code, r.map(|r| r.2), pw);
                            ok = false;
                            break;
                        }
                    }
                }
            }
        }
        if ok && rest.is_empty() {
            return Ok(nonces);
        }
        if ok {
            why = format!("unexpected text {:?}", rest);
        }
    }
    Err(why)
}
