//! Seeded generation of plans. One seed is one plan.
use crate::fs::Personality;
use crate::kernel::*;
use crate::model::*;
use crate::plan::*;
use crate::refimpl;
use crate::rng::{hash_str, mix, Rng};
use libc::{EACCES, EAGAIN, EBUSY, EDQUOT, ESTALE, ETIMEDOUT, EXDEV, EFBIG, EINTR, EIO, EMFILE, ENFILE, ENOMEM, ENOSPC, ENOSYS, EPERM, EPIPE, EROFS};

const SITES: &[&str] = &[
    "example.com", "example.org", "example.info", "sub.example.com", "www.example.com", "www2.example.com", "b\u{fc}cher.de",
    "\u{43f}\u{440}\u{438}\u{43c}\u{435}\u{440}.\u{440}\u{444}", "o'reilly.com", "a \"b\" c", "localhost:8080", "x", "Example.com",
    "site\\with\\backslash", "www.a", "a", "tab\tsite", "\u{1f600}.com", "none", "pfp",
    "www.www.example.com", "www.", "EXAMPLE.COM", "example.com.", " example.com", "a*b", "example.co", "xn--bcher-kva.de", "", "www", "wwwexample.com",
    "WWW.example.com",
];
const NAMES: &[&str] = &[
    "me", "you", "blubb", "blubber", "b l", "\u{fc}ser", "o'neil", "q\"q", "a\\b", "me@example.com", "ME", "m", "1", "null", "\u{1f600}",
    "tab\tname", "aa aa", "", "me ", " me", "Me", "u\u{308}ser", "*", "me2", "e",
];
const REVS: &[&str] = &["", "", "", "1", "2", "2", "2", "3", "01", "yet another", "\u{e9}", "2022-05-17", "0", "+1", "1 ", " ", "1.0", "10", "11", "e\u{301}", "!"];
const PRIMARIES: &[&str] = &["secret 1 primary", "123456", "p\u{e4}ssw\u{f6}rd", "correct horse", "\"quoted\"\\", "primary\u{1f511}", "PRIMARY-2", "another primary"];
const VALUES: &[&str] = &[
    "hunter22", "x", "p\u{e4}ss w\u{f6}rd", "\"quoted\" \\ back", "tab\there", "0123456789abcdef0123456789abcdef0123456789", "\u{1f600}\u{1f511}", "{\"a\":1}",
    "exactly14char", "fourteen chars", "fifteen chars..", "twenty-eight characters!!!!!", "null", "ctl\u{1}\u{7f}x", "  padded ", "X", "\u{0}zero",
];
const NOTES: &[&str] = &["note", "my notes: \u{e4}\u{f6}\u{fc}", "with \"quotes\" and \\", "", "tab\tnote", "security answer: blue", "\u{1f600}", "{\"notes\":\"\"}", " ", "\t", " leading", "trailing  ", "n"];
const PATS: &[&str] = &["*", "*", "*", "example.*", "*.com", "?", "*a*", "ex?mple.com", "*.example.com", "nothing*", "www.example.com", "example.com", "*x*m*", "**", "o'*"];
const NPATS: &[&str] = &["*", "*", "*", "m*", "me", "?", "*b*", "zzz", "??", "bl*b", "*@*"];

/// relative frequencies of the commands
#[derive(Clone)]
pub struct W {
    pub add: u64,
    pub store: u64,
    pub remove: u64,
    pub show: u64,
    pub notes: u64,
    pub set_notes: u64,
    pub list: u64,
    pub alias: u64,
    pub set_alias: u64,
    pub rm_alias: u64,
    pub primary: u64,
    pub lock: u64,
    pub raw: u64,
    pub recover: u64,
    pub wrong: u64,
    pub bad: u64,
}
const BASE: W = W {
    add: 10, store: 10, remove: 6, show: 12, notes: 3, set_notes: 6, list: 4, alias: 2, set_alias: 4, rm_alias: 2, primary: 1, lock: 1, raw: 1, recover: 1, wrong: 1, bad: 1,
};

pub struct G {
    pub r: Rng,
    prop: String,
    w: W,
    sites: Vec<String>,
    names: Vec<String>,
    revs: Vec<String>,
    primaries: Vec<String>,
    values: Vec<String>,
    notes: Vec<String>,
    pub t: Option<Vault>,
    shift: u32,
    /// what is loaded and unlocked in a library session
    distinct: u64,
}

fn sub(r: &mut Rng, v: &[&str], n: usize) -> Vec<String> {
    let mut o: Vec<String> = vec![];
    while o.len() < n {
        let s = r.pick(v).to_string();
        if !o.contains(&s) {
            o.push(s);
        }
    }
    o
}

/// Something that is easily taken for the given text but is not the same.
fn confusable(r: &mut Rng, s: &str) -> String {
    let c: Vec<char> = s.chars().collect();
    match r.below(12) {
        0 => s.to_uppercase(),
        1 => s.to_lowercase(),
        2 => format!("{} ", s),
        3 => format!(" {}", s),
        4 => format!("{}.", s),
        5 => c.iter().take(c.len().saturating_sub(1)).collect(),
        6 => format!("{}{}", s, s),
        7 => c.iter().rev().collect(),
        8 => format!("{}1", s),
        9 => format!("www.{}", s),
        10 => format!("{}{}", s, "x".repeat(r.range(10, 300) as usize)),
        _ => s.replace(|c: char| !c.is_ascii() || c == '.', "_"),
    }
}

/// One line of printable text of any length.
fn random_text(r: &mut Rng) -> String {
    let n = match r.below(4) {
        0 => r.range(1, 4),
        1 => r.range(5, 20),
        2 => r.range(21, 80),
        _ if r.chance(1, 10) => r.range(701, 5000),
        _ => r.range(81, 700),
    };
    (0..n)
        .map(|_| match r.below(12) {
            0 => ' ',
            1 => *r.pick(&['"', '\\', '/', '\'', '{', '}', ':', ',', '\t', '%', '$', '`', '#']),
            2 => *r.pick(&['\u{e4}', '\u{df}', '\u{20ac}', '\u{1f511}', '\u{a0}', '\u{feff}', '\u{2028}', '\u{10ffff}', '\u{7f}', '\u{80}']),
            3 | 4 => (b'0' + r.below(10) as u8) as char,
            _ => (b'a' + r.below(26) as u8) as char,
        })
        .collect()
}

impl G {
    pub fn new(prop: &str, seed: u64) -> G {
        let mut r = Rng::new(mix(seed) ^ hash_str(prop));
        let mut w = BASE;
        match prop {
            "C05" => {
                w = W { set_alias: 22, rm_alias: 9, alias: 8, list: 6, show: 14, primary: 1, ..BASE };
            }
            "C07" => {
                w = W { list: 22, set_alias: 8, remove: 12, primary: 1, ..BASE };
            }
            "C09" => {
                w = W { add: 14, store: 14, list: 6, primary: 3, raw: 0, lock: 0, wrong: 0, ..BASE };
            }
            "C11" => {
                w = W { lock: 10, primary: 8, wrong: 12, ..BASE };
            }
            "C12" => {
                w = W { recover: 30, store: 12, list: 4, primary: 2, ..BASE };
            }
            "C14" => {
                w = W { add: 16, store: 16, recover: 3, primary: 6, ..BASE };
            }
            "C17" => {
                w = W { add: 26, show: 26, store: 2, notes: 1, set_notes: 3, primary: 2, ..BASE };
            }
            "C18" => {
                w = W { lock: 5, primary: 2, ..BASE };
            }
            "C19" => {
                w = W { raw: 8, lock: 5, primary: 2, ..BASE };
            }
            "C01" | "C02" | "C03" => {
                w = W { show: 5, notes: 1, alias: 1, primary: 4, raw: 0, ..BASE };
            }
            "C22" => {
                w = W { show: 20, list: 10, primary: 3, ..BASE };
            }
            "C13" => {
                w = W { primary: 6, store: 14, set_notes: 14, recover: 6, show: 8, add: 8, ..BASE };
            }
            "C23" => {
                w = W { show: 30, store: 16, add: 8, primary: 2, list: 1, recover: 3, ..BASE };
            }
            "C24" => {
                w = W { bad: 40, primary: 3, ..BASE };
            }
            "C25" => {
                w = W { show: 10, list: 8, primary: 6, wrong: 6, recover: 4, store: 14, set_notes: 8, add: 10, ..BASE };
            }
            "C26" => {
                w = W { raw: 8, lock: 4, wrong: 2, set_notes: 10, recover: 4, ..BASE };
            }
            "C10" => {
                w = W { show: 20, list: 12, primary: 3, recover: 0, raw: 0, ..BASE };
            }
            _ => {}
        }
        let ns = 2 + r.usize(4);
        let nn = 1 + r.usize(3);
        let nr = 1 + r.usize(3);
        let mut sites = sub(&mut r, SITES, ns);
        if r.chance(1, 3) {
            // the same site, spelled with and without www.
            let s = sites[0].clone();
            if !s.starts_with("www.") {
                sites.push(format!("www.{}", s));
            }
        }
        let names = sub(&mut r, NAMES, nn);
        let mut revs = vec![String::new()];
        while revs.len() < nr {
            revs.push(r.pick(REVS).to_string());
        }
        let primaries = sub(&mut r, PRIMARIES, 3);
        let values: Vec<String> = sub(&mut r, &VALUES[..VALUES.len() - 1], 4);
        let notes = sub(&mut r, NOTES, 3);
        let mut sites = sites;
        if r.chance(1, 8) {
            sites.push(r.pick(&["-dash.example", "--", "-r", "--help", "-"]).to_string());
        }
        if r.chance(1, 8) {
            revs.push(r.pick(&["-1", "--", "-r", "=2", "-"]).to_string());
        }
        if r.chance(1, 3) {
            let s = confusable(&mut r, &sites[0].clone());
            sites.push(s);
        }
        let mut names = names;
        if r.chance(1, 8) {
            names.push(r.pick(&["-n", "--", "--revision=2", "-h", "-"]).to_string());
        }
        if r.chance(1, 3) {
            let s = confusable(&mut r, &names[0].clone());
            names.push(s);
        }
        let mut values = values;
        let mut notes = notes;
        if r.chance(1, 3) {
            values.push(random_text(&mut r));
            notes.push(random_text(&mut r));
        }
        if prop == "C23" && r.chance(1, 2) {
            // of one kind of characters, which QR codes may write in another way
            let set: &[u8] = *r.pick(&[&b"0123456789"[..], b"ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 $%*+-./:", b"abcdefghijklmnopqrstuvwxyz0123456789", b"abcdefXYZ0189-", b"\x7f\x01~^_"]);
            let n = *r.pick(&[1, 2, 3, 7, 14, 17, 18, 25, 26, 32, 33, 53, 54, 60, 61, 62, 64, 78, 84, 100, 128, 200, 300]);
            let n = if r.chance(1, 12) {
                // about as much as fits
                *r.pick(&[500, 1000, 2000, 2940, 2951, 2952, 2953, 2954, 4290, 4296, 4297, 7080, 7089, 7090])
            } else {
                n
            };
            let mut t: String = (0..n).map(|_| *r.pick(set) as char).collect();
            if r.chance(1, 4) {
                t.push(*r.pick(&['\u{e4}', '\u{1f511}', 'x', '0']));
            }
            if !t.trim().is_empty() {
                values.push(t.trim().to_string());
            }
        }
        let mut primaries = primaries;
        if r.chance(1, 4) {
            let s = confusable(&mut r, &primaries[0].clone());
            if s.trim().len() >= 6 && s.trim() != primaries[0].trim() {
                primaries.push(s);
            }
        }
        G { r, prop: prop.into(), w, sites, names, revs, primaries, values, notes, t: None, shift: 11, distinct: 0 }
    }
    /// A text that occurs nowhere else.
    fn unique(&mut self, what: &str) -> String {
        self.distinct += 1;
        let mut s = format!("{}{}", what, self.distinct);
        for _ in 0..12 {
            s.push(*self.r.pick(&['b', 'c', 'd', 'f', 'g', 'h', 'j', 'k', 'm', 'n', 'p', 'q', 'r', 't', 'v', 'w', 'x', 'z', '2', '3', '4', '7', '9']));
        }
        s
    }
    /// What somebody types that is not the primary password: too short, long, not ASCII, or close to it.
    fn mistyped(&mut self, like: &str) -> String {
        match self.r.below(9) {
            0 | 1 => {
                let mut s: String = (0..self.r.range(3, 4)).map(|_| *self.r.pick(&['b', 'c', 'k', 'q', 'v', 'x', 'z', '3', '4', '7'])).collect();
                s.push(*self.r.pick(&['j', 'w', 'h']));
                s
            }
            2 => self.unique("Wr\u{f6}ng"),
            3 => self.unique("\u{43f}\u{430}\u{440}\u{43e}\u{43b}\u{44c}"),
            4 => like.chars().map(|c| if c.is_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
            5 => format!("{}{}", self.unique("Wrong"), "x".repeat(self.r.range(20, 300) as usize)),
            6 => format!("{}{}", like, self.r.pick(&["1", "!", "a"])),
            _ => self.unique("Wrong"),
        }
    }
    /// All secrets and names of this plan occur nowhere else.
    fn distinctive(&mut self) {
        self.primaries = (0..3).map(|_| self.unique("Prim")).collect();
        self.values = (0..6).map(|_| self.unique("Val")).collect();
        self.notes = (0..4).map(|_| self.unique("Note")).collect();
        self.names = (0..2).map(|_| self.unique("user")).collect();
        self.sites = (0..4).map(|_| format!("{}.example", self.unique("site"))).collect();
        if self.r.chance(1, 2) {
            let i = self.r.usize(4);
            self.sites[i] = match self.r.below(6) {
                4 => self.r.pick(&["x", "ab", "t.co", "", "abc"]).to_string(),
                0 => format!("{}.\u{fc}mlaut.example", self.unique("s\u{ef}te")),
                1 => self.unique("SITE Name "),
                2 => format!("{}.{}.example", self.unique("long"), "label.".repeat(30)),
                _ => format!("https://{}.example:8443/", self.unique("url")),
            };
            self.names[0] = match self.r.below(3) {
                0 => self.unique("\u{fc}s\u{e9}r"),
                1 => format!("{}@{}.example", self.unique("mail"), "m".repeat(40)),
                _ => self.unique("First Last "),
            };
        }
        self.revs = vec![String::new(), "2".into()];
    }
    fn site(&mut self) -> String {
        let i = self.r.usize(self.sites.len());
        self.sites[i].clone()
    }
    fn value(&mut self) -> String {
        let i = self.r.usize(self.values.len());
        self.values[i].clone()
    }
    fn note(&mut self) -> String {
        let i = self.r.usize(self.notes.len());
        self.notes[i].clone()
    }
    fn rev(&mut self) -> String {
        let i = self.r.usize(self.revs.len());
        self.revs[i].clone()
    }
    fn name(&mut self) -> String {
        let i = self.r.usize(self.names.len());
        self.names[i].clone()
    }
    fn primary(&mut self) -> String {
        let i = self.r.usize(self.primaries.len());
        self.primaries[i].clone()
    }
    fn fresh(&mut self) -> Id {
        (self.site(), self.name(), self.rev())
    }
    /// Preferably something that exists, perhaps spelled differently.
    fn existing(&mut self) -> Id {
        if let Some(t) = &self.t {
            if !t.pws.is_empty() && self.r.chance(4, 5) {
                let n = self.r.usize(t.pws.len());
                let mut id = t.pws.keys().nth(n).unwrap().clone();
                if self.prop == "C14" && self.r.chance(1, 2) {
                    let some: Vec<Id> = t.pws.keys().filter(|k| !k.2.is_empty()).cloned().collect();
                    if !some.is_empty() {
                        id = self.r.pick(&some).clone();
                    }
                }
                let al: Vec<String> = t.sites.iter().filter(|(_, a)| a.as_ref() == Some(&id.0)).map(|x| x.0.clone()).collect();
                if !al.is_empty() && self.r.chance(1, 3) {
                    id.0 = self.r.pick(&al).clone();
                }
                if self.r.chance(1, 8) && !id.0.starts_with("www.") {
                    id.0 = format!("www.{}", id.0);
                }
                if id.2.is_empty() && self.r.chance(1, 8) {
                    id.2 = "1".into();
                }
                return id;
            }
        }
        self.fresh()
    }
    fn len(&mut self) -> u32 {
        match self.r.below(4) {
            0 => 4,
            1 => 24,
            2 => 16,
            _ => self.r.range(4, 24) as u32,
        }
    }
    fn charset(&mut self, mode: Mode) -> u8 {
        if mode != Mode::Lib && self.r.chance(if self.prop == "C24" { 6 } else { 1 }, 24) {
            return 0;
        }
        if self.r.chance(1, 3) { 15 } else { self.r.range(1, 15) as u8 }
    }
    fn answers(&mut self) -> Vec<String> {
        let mut v = vec![];
        for _ in 0..self.r.below(3) {
            if self.r.chance(1, 4) {
                v.push(self.r.pick(&["maybe", "yess", "y n", "1", "true", "\u{fc}", "?", "!", "-", "...", "0", "ja", "nope"]).to_string());
            }
        }
        v.push(self.r.pick(&["y", "yes", "Y", "YES", "n", "no", "", " y ", "N", "Yes"]).to_string());
        if self.r.chance(1, 10) {
            v.clear();
        }
        v
    }

    /// A recovery code as lines to be typed, and the password it stands for (if typed correctly).
    fn code(&mut self, primary: &str) -> (Vec<String>, String) {
        let pw = if self.r.chance(1, 2) {
            self.value()
        } else {
            let n = self.r.range(1, 45) as usize;
            (0..n).map(|_| *self.r.pick(&['a', 'Z', '0', '~', ' ', '\u{e9}', '%'])).collect::<String>().trim().to_string() + "k"
        };
        let primary = if self.r.chance(1, 10) { self.primary() } else { primary.to_string() };
        let mut salt = [0u8; 16];
        self.r.fill(&mut salt);
        let mut nonce = [0u8; 12];
        self.r.fill(&mut nonce);
        let lines = if self.r.chance(1, 16) {
            // every line is good on its own, but the whole is no recovery code: too short, of another version,
            // or not made with any password
            let n = self.r.range(1, 6) as usize;
            let mut data = vec![0u8; n * 14];
            self.r.fill(&mut data);
            data[0] = *self.r.pick(&[1, 1, 1, 0, 2, 255]);
            refimpl::recovery_lines(&data)
        } else if self.r.chance(1, 20) {
            // nothing but padding
            return (self.typed(refimpl::recovery_encode("", &primary, &salt, &nonce, self.shift)), String::new());
        } else {
            refimpl::recovery_encode(&pw, &primary, &salt, &nonce, self.shift)
        };
        (self.typed(lines), pw)
    }
    /// How somebody may type these lines.
    fn typed(&mut self, lines: Vec<String>) -> Vec<String> {
        const B32: &[u8] = b"ABCDEFGHJKLMNPQRSTUVWXYZ23456789";
        let mut out: Vec<String> = vec![];
        let errs = self.r.chance(1, 2);
        let mut i = 0;
        while i < lines.len() {
            let l = lines[i].clone();
            if errs && self.r.chance(1, 3) {
                let mut c: Vec<char> = l.chars().collect();
                let k = self.r.usize(c.len());
                match self.r.below(12) {
                    0 => {
                        c[k] = *self.r.pick(B32) as char;
                    }
                    1 => {
                        c.remove(k);
                    }
                    2 => c.insert(k, *self.r.pick(B32) as char),
                    3 => {
                        let j = (k + 1) % c.len();
                        c.swap(k, j);
                    }
                    4 => {
                        // a line left out
                        i += 1;
                        continue;
                    }
                    5 => out.push(l.clone()),
                    6 => {
                        if i + 1 < lines.len() {
                            out.push(lines[i + 1].clone());
                        }
                    }
                    7 => c.truncate(k),
                    8 => c = vec!['?', '!'],
                    9 => {
                        // two typing errors
                        let j = self.r.usize(c.len());
                        c[k] = *self.r.pick(B32) as char;
                        c[j] = *self.r.pick(B32) as char;
                    }
                    10 => {
                        let at = if self.r.chance(1, 2) { lines[0].clone() } else { l.clone() };
                        c.extend(at.chars().take(1 + k));
                    }
                    _ => c = vec![],
                }
                out.push(c.into_iter().collect());
                if self.r.chance(1, 2) {
                    // tries again
                    out.push(l);
                    i += 1;
                    continue;
                }
                if self.r.chance(1, 2) {
                    i += 1;
                }
                continue;
            }
            let mut l = l;
            match self.r.below(8) {
                0 => l = l.to_lowercase(),
                1 => l = l.replace(['-', ':'], ""),
                2 => l = l.replace('-', " ").replace(':', "  "),
                3 => l = l.chars().enumerate().map(|(n, c)| if n % 3 == 0 { c.to_ascii_lowercase() } else { c }).collect(),
                4 => {
                    // with the next line
                    if i + 1 < lines.len() {
                        l.push_str(if self.r.chance(1, 2) { " " } else { "" });
                        l.push_str(&lines[i + 1]);
                        i += 1;
                    }
                }
                5 => {
                    let k = 1 + self.r.usize(l.len() - 1);
                    out.push(l[..k].to_string());
                    l = l[k..].to_string();
                }
                6 => l = format!("  {}\t", l),
                _ => {}
            }
            out.push(l);
            i += 1;
        }
        if self.r.chance(1, 8) {
            let k = lines[0].clone();
            match out.last_mut() {
                Some(l) if self.r.chance(1, 2) => l.push_str(&k[..1 + k.len() / 3]),
                _ => out.push(k),
            }
        }
        if self.r.chance(1, 8) && out.len() > 1 {
            let n = self.r.usize(out.len());
            out.truncate(n);
        }
        out
    }

    fn cmd(&mut self, mode: Mode) -> Cmd {
        let w = self.w.clone();
        let ws = [
            w.add, w.store, w.remove, w.show, w.notes, w.set_notes, w.list, w.alias, w.set_alias, w.rm_alias,
            if mode == Mode::Shell { w.primary.min(1) } else { w.primary },
            if mode == Mode::Cli { 0 } else { w.lock },
            if mode == Mode::Cli { 0 } else { w.raw },
            w.recover,
            if mode == Mode::Lib { 0 } else { w.bad },
        ];
        let k = self.r.weighted(&ws);
        let c = match k {
            0 => {
                let often = if self.prop == "C14" { 2 } else { 1 };
                let (site, name, rev) = if self.r.chance(often, 3) { self.existing() } else { self.fresh() };
                Cmd::Add { site, name, rev, len: self.len(), cs: self.charset(mode), yes: self.r.chance(1, often + 1), answers: self.answers() }
            }
            1 => {
                let often = if self.prop == "C14" { 2 } else { 1 };
                let (site, name, rev) = if self.r.chance(often, 3) { self.existing() } else { self.fresh() };
                Cmd::Store { site, name, rev, pw: self.value(), yes: self.r.chance(1, often + 1), answers: self.answers(), code: None }
            }
            2 => {
                let (site, name, rev) = self.existing();
                Cmd::Remove { site, name, rev }
            }
            3 => {
                let (site, name, rev) = self.existing();
                if mode == Mode::Lib && self.r.chance(1, 4) { Cmd::Has { site, name, rev } } else {
                    let qr = mode != Mode::Lib && self.r.chance(if self.prop == "C23" { 20 } else { 1 }, 40);
                    Cmd::Show { site, name, rev, qr }
                }
            }
            4 => {
                let (site, name, rev) = self.existing();
                Cmd::Notes { site, name, rev, set: None }
            }
            5 => {
                let (site, name, rev) = self.existing();
                Cmd::Notes { site, name, rev, set: Some(self.note()) }
            }
            6 => {
                let site = if self.r.chance(1, 4) { self.site() } else { self.r.pick(PATS).to_string() };
                let name = if self.r.chance(1, 8) { self.name() } else { self.r.pick(NPATS).to_string() };
                let (s, r, v) = (self.r.chance(1, 2), self.r.chance(1, 3), self.r.chance(1, 2));
                Cmd::List { site, name, show: s, rec: r, verbose: v }
            }
            7 => Cmd::Alias { site: self.site(), target: None, remove: false },
            8 => {
                let mut site = self.site();
                if self.prop == "C05" && self.r.chance(1, 4) {
                    // a site others are aliases of becomes an alias
                    let targets: Vec<String> = self.t.iter().flat_map(|t| t.sites.values().flatten().cloned()).collect();
                    if !targets.is_empty() {
                        site = self.r.pick(&targets).clone();
                    }
                }
                Cmd::Alias { site, target: Some(self.site()), remove: false }
            }
            9 => {
                let mut site = self.site();
                if let Some(t) = &self.t {
                    let a: Vec<String> = t.aliases().keys().map(|s| s.to_string()).collect();
                    if !a.is_empty() {
                        site = self.r.pick(&a).clone();
                    }
                }
                Cmd::Alias { site, target: None, remove: true }
            }
            10 => {
                let pw = self.primary();
                let repeat = if self.r.chance(1, 12) { Some(self.primary()) } else { None };
                let pw = if self.r.chance(1, 16) { "short".to_string() } else { pw };
                Cmd::SetPrimary { pw, repeat, yes: self.r.chance(1, 2), answers: self.answers() }
            }
            11 => Cmd::Lock,
            12 => {
                if mode == Mode::Lib {
                    Cmd::Raw { line: String::new() }
                } else {
                    Cmd::Raw {
                        line: self
                            .r
                            .pick(&[
                                "add", "frobnicate", "show 'unterminated", "shell", "set-primary", "add a b -l 3", "add a b -l 25", "list -z", "show x", "notes \"",
                                "remove a", "alias", "  ", "shell -s /tmp/h", "set-primary -y", "add-stored x", "show a b c", "add a b -l x", "lock now", "exit now",
                            ])
                            .to_string(),
                    }
                }
            }
            14 => self.bad(),
            _ => {
                let p = self.t.as_ref().map(|t| t.primary.clone()).unwrap_or_default();
                let (lines, pw) = self.code(&p);
                if mode == Mode::Lib {
                    Cmd::Decode { code: lines.join(*self.r.clone().pick(&["\n", " ", ""])) }
                } else {
                    let (site, name, rev) = if self.r.chance(1, 4) { self.existing() } else { self.fresh() };
                    Cmd::Store { site, name, rev, pw, yes: self.r.chance(1, 2), answers: self.answers(), code: Some(lines) }
                }
            }
        };
        self.track(&c, mode);
        c
    }
    /// Parameters that are to be refused, close to ones that are not.
    fn bad(&mut self) -> Cmd {
        let (mut site, mut name, _) = self.existing();
        for s in [&mut site, &mut name] {
            if s.starts_with('-') {
                *s = "x".into();
            }
        }
        let mut a: Vec<String> = match self.r.below(9) {
            0 | 1 => vec!["add".into(), site, name, "-l".into(), self.r.range(4, 24).to_string()],
            2 => vec!["add-stored".into(), site, name],
            3 => vec!["remove".into(), site, name],
            4 => vec!["show".into(), site, name],
            5 => vec!["notes".into(), site, name],
            6 => vec!["list".into(), site, name],
            7 => vec!["alias".into(), site, name],
            _ => vec!["set-primary".into()],
        };
        let sub = a[0].clone();
        if self.r.chance(1, 3) && sub != "set-primary" && sub != "list" && sub != "alias" {
            a.push("-r".into());
            a.push("2".into());
        }
        if self.r.chance(1, 4) && sub == "add" {
            a.push(self.r.pick(&["-w", "-u", "-d", "-s", "-y"]).to_string());
        }
        match self.r.below(if sub == "add" { 18 } else { 9 }) {
            0 => a.push("--frobnicate".into()),
            1 => a.push(self.r.pick(&["-z", "-Z", "-9", "--length-", "--rev", "--revisions", "-yz", "--no-lowe"]).to_string()),
            2 => {
                // surplus
                let k = match sub.as_str() {
                    "set-primary" => 1,
                    _ => 2,
                };
                for _ in 0..k {
                    a.push("surplus".into());
                }
            }
            3 => {
                // of another command
                a.push(
                    match sub.as_str() {
                        "add" => *self.r.pick(&["-q", "-c", "-v", "--recovery", "--set"]),
                        "add-stored" => *self.r.pick(&["-l", "-w", "-q", "--length", "--no-digit"]),
                        "remove" => *self.r.pick(&["-q", "-y", "-s", "--assume-yes"]),
                        "show" => *self.r.pick(&["-s", "-y", "-l", "--show", "--recovery"]),
                        "notes" => *self.r.pick(&["-q", "-y", "--qrcode"]),
                        "list" => *self.r.pick(&["-q", "-y", "--qrcode", "-l"]),
                        "alias" => *self.r.pick(&["-q", "-y", "-s", "--set"]),
                        _ => *self.r.pick(&["-q", "-r", "-l", "--revision"]),
                    }
                    .into(),
                );
            }
            4 => {
                let s = self.r.pick(&["ad", "lst", "frobnicate", "add_stored", "addstored", "Show", "removes", "LIST", "setprimary", ""]).to_string();
                a[0] = s;
            }
            5 if !matches!(sub.as_str(), "list" | "alias" | "set-primary") => {
                a.truncate(1 + self.r.usize(2));
            }
            6 if !matches!(sub.as_str(), "list" | "alias" | "set-primary") => {
                a.retain(|x| x != "-r" && x != "2");
                a.push(self.r.pick(&["-r", "--revision"]).to_string());
            }
            7 if !matches!(sub.as_str(), "list" | "alias" | "set-primary") => {
                a.retain(|x| x != "-r" && x != "2");
                for v in ["3", "4"] {
                    a.push("-r".into());
                    a.push(v.into());
                }
            }
            0..=8 => {
                a.insert(1, "-x".into());
            }
            _ => {
                let l = match self.r.below(4) {
                    0 => self.r.pick(&["3", "25", "0", "2", "26", "+25", "+3", "+0", "+200", "025", "0003", "+", "25 "]).to_string(),
                    1 => self.r.range(25, 400).to_string(),
                    2 => self
                        .r
                        .pick(&["", "x", "4.5", "0x10", "1e1", " 8", "8 ", "\u{ff11}\u{ff16}", "8,", "eight", "+", "18446744073709551620", "18446744073709551616", "4294967304", "65544", "264", "-8", "8-"])
                        .to_string(),
                    _ => (self.r.next() | 1 << 40).to_string(),
                };
                for (i, x) in a.clone().iter().enumerate() {
                    if x == "-l" {
                        a.remove(i);
                        a.remove(i);
                        break;
                    }
                }
                match self.r.below(3) {
                    0 => a.push(format!("--length={}", l)),
                    1 if !l.is_empty() => a.push(format!("-l{}", l)),
                    _ => {
                        a.push("-l".into());
                        a.push(l);
                    }
                }
            }
        }
        Cmd::Bad { args: a }
    }
    /// Keeps track of what is probably in the vault. A wrong guess only makes later commands less interesting.
    fn track(&mut self, c: &Cmd, mode: Mode) {
        match c {
            Cmd::SetPrimary { pw, repeat, yes, answers } => {
                let agreed = *yes || mode == Mode::Lib || self.t.is_none() || agrees(answers);
                if mode != Mode::Shell && agreed && (mode == Mode::Lib || repeat.as_ref().map_or(true, |r| r == pw) && pw.len() >= 6) {
                    self.t = Some(Vault { primary: pw.clone(), ..Default::default() });
                }
            }
            Cmd::Add { yes, answers, site, name, rev, .. } | Cmd::Store { yes, answers, site, name, rev, code: None, .. } => {
                if let Some(t) = &self.t {
                    if mode != Mode::Lib && !yes && !agrees(answers) && t.pws.contains_key(&t.id(site, name, rev)) {
                        return;
                    }
                    if let Ok(Some(v)) = t.apply(c) {
                        self.t = Some(v);
                    }
                }
            }
            Cmd::Store { .. } => {}
            c => {
                if let Some(t) = &self.t {
                    if let Ok(Some(v)) = t.apply(c) {
                        self.t = Some(v);
                    }
                }
            }
        }
    }
    fn change(&mut self, mode: Mode) -> Cmd {
        for _ in 0..50 {
            let t = self.t.clone();
            let c = self.cmd(mode);
            if self.t != t && !matches!(c, Cmd::List { .. }) {
                return c;
            }
        }
        self.cmd(mode)
    }

    fn spec(&self, mode: Mode, cmds: Vec<Cmd>) -> Spec {
        Spec { mode, tty: false, cmds, unlock: vec![], infaults: vec![], faults: vec![], crash: None, default_path: false, path: None, history: None, raw: false, keys: vec![] }
    }
    fn wrong_pw(&mut self) -> String {
        let p = self.t.as_ref().map(|t| t.primary.clone()).unwrap_or("nothing".into());
        match self.r.below(7) {
            0 => format!("{}x", p),
            1 => p.chars().take(p.chars().count() - 1).collect(),
            2 => p.to_uppercase(),
            3 => self.primary(),
            4 => "wrong password".into(),
            5 => "abc".into(),
            _ => "".into(),
        }
    }
    fn unlocks(&mut self) -> Vec<String> {
        let mut v = vec![];
        while self.r.chance(self.w.wrong, self.w.wrong + 8) && v.len() < 3 {
            let w = self.wrong_pw();
            if self.t.as_ref().map_or(true, |t| t.primary != w.trim()) {
                v.push(w);
            }
        }
        v
    }
    /// A process with some commands.
    fn process(&mut self, mode: Mode) -> Spec {
        let unlock = self.unlocks();
        let mut cmds = vec![];
        match mode {
            Mode::Cli => cmds.push(if self.t.is_none() && self.r.chance(7, 8) {
                let c = Cmd::SetPrimary { pw: self.primary(), repeat: None, yes: self.r.chance(1, 2), answers: vec![] };
                self.track(&c, mode);
                c
            } else {
                self.cmd(mode)
            }),
            Mode::Shell => {
                let n = self.r.range(1, 8);
                for _ in 0..n {
                    let c = self.cmd(mode);
                    cmds.push(c);
                }
            }
            Mode::Lib => {
                cmds.push(Cmd::Load);
                let n = self.r.range(1, 8);
                let mut un = false;
                if self.t.is_none() {
                    if self.r.chance(1, 4) {
                        cmds.push(self.r.clone().pick(&[Cmd::Raw { line: String::new() }, Cmd::Lock, Cmd::Unlock { pw: "whatever".into() }]).clone());
                    }
                    let c = Cmd::SetPrimary { pw: self.primary(), repeat: None, yes: false, answers: vec![] };
                    self.track(&c, mode);
                    cmds.push(c);
                    un = true;
                }
                for _ in 0..n {
                    if !un && (self.r.chance(3, 4)) {
                        if self.r.chance(self.w.wrong, 10) {
                            cmds.push(Cmd::Unlock { pw: self.wrong_pw() });
                        } else {
                            let p = self.t.as_ref().map(|t| t.primary.clone()).unwrap_or_default();
                            cmds.push(Cmd::Unlock { pw: p });
                            un = true;
                        }
                        continue;
                    }
                    let t = self.t.clone();
                    let c = self.cmd(mode);
                    match &c {
                        Cmd::Lock => un = false,
                        Cmd::SetPrimary { .. } => un = true,
                        _ if !un => self.t = t,
                        _ => {}
                    }
                    cmds.push(c);
                    if self.r.chance(1, 20) {
                        cmds.push(Cmd::Load);
                        un = false;
                    }
                    if self.r.chance(self.w.wrong, 60) {
                        cmds.push(Cmd::Unlock { pw: self.wrong_pw() });
                    }
                }
            }
        }
        let mut s = self.spec(mode, cmds);
        s.unlock = unlock;
        if mode != Mode::Lib && self.r.chance(1, 10) {
            s.tty = true;
        }
        if mode == Mode::Shell && self.r.chance(1, 2) {
            s.history = Some("/home/u/hist.txt".into());
        }
        s
    }

    fn initial(&mut self, n: usize) -> Initial {
        let mut v = Vault { primary: self.primary(), ..Default::default() };
        let shape = self.r.below(3);
        for k in 0..n {
            let mut id = self.fresh();
            if n >= 40 && self.r.chance(3, 4) {
                // a big vault: many sites, or many entries of one
                match if n >= 150 { shape } else { self.r.below(3) } {
                    0 => id.0 = format!("site{}.example", k),
                    1 => id.1 = format!("user{}", k),
                    _ => id = (format!("site{}.example", k), format!("user{}", k % 7), id.2),
                }
            }
            let kind = if self.r.chance(1, 2) {
                PwKind::Gen { len: self.len(), cs: self.charset(Mode::Lib) }
            } else {
                PwKind::Stored(self.value())
            };
            let id = v.id(&id.0, &id.1, &id.2);
            v.put(id.clone(), kind);
            if self.r.chance(1, 3) {
                v.pws.get_mut(&id).unwrap().notes = self.note();
            }
        }
        let mut foreign = vec![];
        if self.r.chance(1, 4) {
            let k = *self.r.pick(&["site:AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA=", "something", "site:x:y", "site:", "zzz:AAAA"]);
            foreign.push((k.to_string(), self.r.pick(&["opaque", "", "AAAA_BBBB", "\u{fc}\"\\"]).to_string()));
        }
        if self.r.chance(1, 30) {
            // a file beyond the usual buffer sizes
            let len = *self.r.pick(&[4096, 8192, 16384, 32768, 65536, 131072, 262144]) + self.r.below(300) as usize;
            if v.pws.is_empty() || self.r.chance(1, 2) {
                foreign.push(("zzz:large".to_string(), "v".repeat(len)));
            } else {
                let text = self.unique("large");
                let n = self.r.below(v.pws.len() as u64) as usize;
                v.pws.values_mut().nth(n).unwrap().notes = format!("{}{}", text, "n".repeat(len.min(140_000)));
            }
        }
        for _ in 0..self.r.below(3) {
            // aliases, also to sites without a record
            let c = Cmd::Alias { site: self.site(), target: Some(self.site()), remove: false };
            if let Ok(Some(x)) = v.apply(&c) {
                v = x;
            }
        }
        if matches!(self.prop.as_str(), "C05" | "C06" | "C07" | "C16") && self.r.chance(1, 4) {
            // several aliases of one site, be there passwords or not
            let t = self.site();
            let more = self.prop == "C05" && self.r.chance(1, 2);
            if more {
                for i in 0..self.r.range(2, 4) {
                    self.sites.push(format!("{}.many.example", i));
                }
            }
            for i in 0..self.r.range(2, if more { 6 } else { 4 }) as usize {
                let site = if more && i < self.sites.len() { self.sites[self.sites.len() - 1 - i].clone() } else { self.site() };
                let c = Cmd::Alias { site, target: Some(t.clone()), remove: false };
                if let Ok(Some(x)) = v.apply(&c) {
                    v = x;
                }
            }
        }
        let mut empty = 0;
        while empty < 3 && self.r.chance(if matches!(self.prop.as_str(), "C01" | "C02" | "C03" | "C07") { 2 } else { 1 }, 5) {
            let s = norm_site(&self.site());
            v.sites.entry(s).or_insert(None);
            empty += 1;
        }
        v.foreign = foreign.iter().cloned().collect();
        self.t = Some(v.clone());
        Initial {
            primary: v.primary.clone(),
            fancy: self.r.chance(1, 2),
            seed: self.r.next(),
            sites: v.sites.iter().map(|(a, b)| (a.clone(), b.clone())).collect(),
            pws: v
                .pws
                .iter()
                .map(|(k, p)| crate::plan::Entry { site: k.0.clone(), name: k.1.clone(), rev: k.2.clone(), pw: p.clone() })
                .collect(),
            foreign,
        }
    }

    fn plan(&mut self, seed: u64) -> Plan {
        let path = self.r.pick(&["/home/u/s.json", "/home/u/s.json", "vault.json", "/home/u/a/b/vault.json", "/home/u/.config/PfP/storage.json"]).to_string();
        Plan {
            property: self.prop.clone(),
            seed,
            entropy: self.r.next(),
            clock: 1_000_000_000_000_000_000 + self.r.below(900_000_000_000_000_000),
            frozen: self.r.chance(1, 10),
            personality: if self.r.chance(1, 2) { Personality::Journal } else { Personality::Strict },
            shift: self.shift,
            path,
            link_to: None,
            via: vec![],
            mode: None,
            initial: None,
            steps: vec![],
            history: None,
            memory: false,
            twin: false,
        }
    }
    fn layout(&mut self, p: &mut Plan) {
        if p.initial.is_some() {
            if self.r.chance(1, 3) {
                p.mode = Some(*self.r.pick(&[0o600, 0o640, 0o644, 0o660, 0o666]));
            }
            if self.r.chance(1, 6) {
                self.links(p);
            }
        } else if self.r.chance(1, 20) {
            // a link to nowhere yet
            self.links(p);
        }
    }
    fn links(&mut self, p: &mut Plan) {
        let at = if p.path.starts_with('/') { p.path.clone() } else { format!("/home/u/{}", p.path) };
        let dir = at.rsplit_once('/').unwrap().0.to_string();
        let (real, via): (String, Vec<(String, String)>) = match self.r.below(8) {
            0 => ("/home/u/real/target.json".into(), vec![]),
            1 => ("/srv/vault".into(), vec![]),
            2 => (format!("{}/real.json", dir), vec![(at, "real.json".into())]),
            3 => (format!("{}/below/target.json", dir), vec![(at, "below/target.json".into())]),
            4 => ("/srv/deep/er/v.json".into(), vec![(at, format!("{}srv/deep/er/v.json", "../".repeat(dir.matches('/').count())))]),
            // a link to a link
            5 => ("/home/u/hop/real".into(), vec![(at, "/home/u/hop/link".into()), ("/home/u/hop/link".into(), "real".into())]),
            6 => (
                "/srv/end.json".into(),
                vec![(at, "/srv/one".into()), ("/srv/one".into(), "./two".into()), ("/srv/two".into(), "../srv/end.json".into())],
            ),
            // the directory is a link
            _ => match p.path.as_str() {
                "/home/u/a/b/vault.json" => ("/srv/dir/b/vault.json".into(), vec![("/home/u/a".into(), "../../srv/dir".into())]),
                _ => ("/srv/vault2".into(), vec![]),
            },
        };
        p.link_to = Some(real);
        p.via = via;
    }
    fn mode(&mut self) -> Mode {
        match self.r.below(10) {
            0..=4 => Mode::Cli,
            5..=6 => Mode::Shell,
            _ => Mode::Lib,
        }
    }
    fn start(&mut self, p: &mut Plan, max: usize) {
        let mut chance = 2;
        if matches!(self.prop.as_str(), "C20" | "C06" | "C07" | "C22") {
            chance = 3;
        }
        if self.r.below(4) < chance {
            let mut n = self.r.usize(max) + 1;
            if self.r.chance(1, 60) && !matches!(self.prop.as_str(), "C08" | "C25") {
                n = self.r.range(40, 160) as usize;
            }
            if self.prop == "C07" && self.r.chance(1, 40) {
                n = self.r.range(150, 300) as usize;
            }
            p.initial = Some(self.initial(n));
        }
        self.layout(p);
    }
    fn default_path(&mut self, p: &Plan, s: &mut Spec) {
        if s.mode != Mode::Lib && p.path == "/home/u/.config/PfP/storage.json" && self.r.chance(1, 2) {
            s.default_path = true;
        }
    }

    // -------------------------------------------------------------------------------------- families
    fn hist(&mut self, seed: u64) -> Plan {
        let mut p = self.plan(seed);
        if self.prop == "C08" {
            self.distinctive();
        }
        self.start(&mut p, 6);
        if self.prop == "C26" {
            p.history = self.history();
        }
        if matches!(self.prop.as_str(), "C17" | "C20" | "C11") && self.r.chance(1, 150) {
            p.shift = 0;
            self.shift = 0;
        }
        let n = self.r.range(2, 6);
        for _ in 0..n {
            let mut m = self.mode();
            if matches!(self.prop.as_str(), "C19" | "C26") {
                m = *self.r.pick(&[Mode::Shell, Mode::Shell, Mode::Cli]);
            }
            if self.t.is_none() && m == Mode::Shell && self.r.chance(5, 6) {
                m = Mode::Cli;
            }
            let mut s = self.process(m);
            self.default_path(&p, &mut s);
            if self.prop == "C26" && m == Mode::Shell {
                s.history = self.r.pick(&[None, Some("/home/u/hist.txt"), Some("hist2.txt"), Some("/home/u/no/such/hist")]).map(|x| x.to_string());
                match self.r.below(8) {
                    0 => {
                        let f = self.infault(8);
                        s.infaults.push(f);
                    }
                    1 | 2 => {
                        let mut f = self.fault(&[Class::Disk, Class::Read, Class::Write, Class::Open, Class::Mut, Class::Meta], 1);
                        f.op = Some(if self.r.chance(1, 2) { 0 } else { s.cmds.len() as u32 + 1 });
                        s.faults.push(f);
                    }
                    3 => self.disk_fault(&mut s),
                    _ => {}
                }
                if self.r.chance(1, 6) && s.cmds.len() > 1 {
                    let i = self.r.usize(s.cmds.len());
                    let c = s.cmds[i].clone();
                    if matches!(c, Cmd::List { .. } | Cmd::Lock | Cmd::Raw { .. }) {
                        s.cmds.insert(i, c);
                    }
                }
            }
            if matches!(self.prop.as_str(), "C06" | "C17" | "C19" | "C20" | "C04" | "C05" | "C08" | "C24") && self.r.chance(1, 12) {
                self.disk_fault(&mut s);
            }
            if matches!(self.prop.as_str(), "C19" | "C04" | "C05" | "C08" | "C17" | "C11") && self.r.chance(1, 12) {
                self.crash(&mut s);
            }
            p.steps.push(Step::Run(s));
            if self.r.chance(1, 12) {
                p.steps.push(Step::Clock(self.r.below(4_000_000_000_000_000) as i64 - 2_000_000_000_000_000));
            }
            if self.r.chance(1, 12) {
                p.steps.push(Step::Power { style: self.r.below(5) as u8, seed: self.r.next() });
            }
        }
        if self.prop == "C23" {
            for st in std::mem::take(&mut p.steps) {
                let Step::Run(mut s) = st else {
                    p.steps.push(st);
                    continue;
                };
                if let (Mode::Cli, [Cmd::Show { site, name, rev, qr: true }]) = (s.mode, &s.cmds[..]) {
                    let c = Cmd::Show { site: site.clone(), name: name.clone(), rev: rev.clone(), qr: false };
                    let mut t = s.clone();
                    t.cmds = vec![c];
                    p.steps.push(Step::Run(t));
                }
                if s.mode == Mode::Shell {
                    for c in std::mem::take(&mut s.cmds) {
                        if let Cmd::Show { site, name, rev, qr: true } = &c {
                            s.cmds.push(Cmd::Show { site: site.clone(), name: name.clone(), rev: rev.clone(), qr: false });
                        }
                        s.cmds.push(c);
                    }
                }
                if self.r.chance(1, 3) {
                    // what is printed in many small pieces
                    for _ in 0..self.r.range(1, 3) {
                        let f = Fault {
                            class: Class::Stdout,
                            nth: self.r.below(600) as u32,
                            len: self.r.range(1, 3) as u32,
                            op: None,
                            kind: if self.r.chance(1, 2) { FaultKind::Short(self.r.range(1, 2) as u32) } else { FaultKind::Errno(EINTR) },
                        };
                        s.faults.push(f);
                    }
                }
                p.steps.push(Step::Run(s));
            }
        }
        if self.prop == "C09" {
            p.frozen = true;
            p.twin = self.r.chance(2, 3);
            if self.r.chance(1, 3) {
                for st in &mut p.steps {
                    if let Step::Run(s) = st {
                        if self.r.chance(1, 2) {
                            let op = if s.mode == Mode::Cli || self.r.chance(1, 2) { None } else { Some(self.r.below(s.cmds.len() as u64 + 1) as u32) };
                            s.faults.push(Fault {
                                class: Class::Rand,
                                nth: self.r.below(5) as u32,
                                len: if self.r.chance(1, 2) { 1 } else { 1000 },
                                op,
                                kind: if self.r.chance(1, 4) {
                                    FaultKind::Short(self.r.range(1, 9) as u32)
                                } else {
                                    FaultKind::Errno(*self.r.pick(&[EINTR, EAGAIN, EIO, ENOSYS, EPERM]))
                                },
                            });
                            if let Some(Fault { len, kind: FaultKind::Errno(EINTR), .. }) = s.faults.last_mut() {
                                *len = (*len).min(3);
                            }
                        }
                    }
                }
                p.twin = false;
            }
        }
        p
    }

    fn crash(&mut self, s: &mut Spec) {
        let op = match s.mode {
            Mode::Cli => None,
            _ => {
                if self.r.chance(1, 8) {
                    None
                } else {
                    Some(self.r.below(s.cmds.len() as u64 + 1) as u32)
                }
            }
        };
        let (class, nth) = match self.r.below(10) {
            0..=4 => (Class::Mut, self.r.below(9)),
            5 => (Class::Write, self.r.below(2)),
            6 => (Class::Disk, self.r.below(16)),
            7 => (*self.r.pick(&[Class::Rename, Class::Sync, Class::Unlink, Class::Mkdir, Class::Meta]), self.r.below(2)),
            8 => (Class::Stdout, self.r.below(3)),
            _ => (Class::Any, self.r.below(60)),
        };
        let phase = match self.r.below(5) {
            0 | 1 => Phase::Before,
            2 | 3 => Phase::After,
            _ => Phase::Torn(self.r.below(1001) as u32),
        };
        let kind = if self.r.chance(1, 2) { CrashKind::Kill } else { CrashKind::Power { style: self.r.below(5) as u8, seed: self.r.next() } };
        s.crash = Some(Crash { class, nth: nth as u32, op, phase, kind });
    }

    fn crashes(&mut self, seed: u64) -> Plan {
        let mut p = self.plan(seed);
        self.start(&mut p, 5);
        let n = self.r.range(2, 7);
        for i in 0..n {
            let m = self.mode();
            let mut s = match m {
                Mode::Cli if self.t.is_some() => {
                    let c = if self.r.chance(1, 8) {
                        Cmd::List { site: "*".into(), name: "*".into(), show: false, rec: false, verbose: false }
                    } else {
                        self.change(m)
                    };
                    self.track(&c, m);
                    self.spec(m, vec![c])
                }
                m => {
                    let m = if self.t.is_none() && m == Mode::Shell { Mode::Lib } else { m };
                    self.process(m)
                }
            };
            self.default_path(&p, &mut s);
            let before = self.t.clone();
            let pc = if self.prop == "C01" { 6 } else { 4 };
            if self.r.chance(pc, 10) {
                if i + 1 == n || self.r.chance(3, 4) || before.is_some() {
                    self.crash(&mut s);
                    if self.prop == "C01" && self.r.chance(1, 5) {
                        // the disk makes trouble first
                        let f = self.fault(&[Class::Open, Class::Open, Class::Mut, Class::Write, Class::Rename, Class::Sync, Class::Meta], 0);
                        s.faults.push(f);
                    }
                }
            }
            if self.prop == "C02" && self.r.chance(1, 12) {
                s.faults.push(Fault {
                    class: *self.r.pick(&[Class::Sync, Class::Write, Class::Rename]),
                    nth: self.r.below(2) as u32,
                    len: 1,
                    op: None,
                    kind: FaultKind::Errno(EIO),
                });
            }
            p.steps.push(Step::Run(s));
            let pp = if self.prop == "C02" { 5 } else { 2 };
            if self.r.chance(pp, 10) {
                p.steps.push(Step::Power { style: self.r.below(5) as u8, seed: self.r.next() });
            }
        }
        p
    }

    fn errno(&mut self, c: Class) -> i32 {
        let all: &[i32] = match c {
            Class::Open => &[EIO, EACCES, EMFILE, ENFILE, EROFS, ENOSPC, EINTR, EPERM, ENOMEM, ESTALE],
            Class::Read => &[EIO, EINTR, EIO, ENOMEM, EAGAIN, ESTALE, ETIMEDOUT],
            Class::Write => &[ENOSPC, EIO, EINTR, EDQUOT, EFBIG, ETIMEDOUT],
            Class::Sync => &[EIO, ENOSPC, EDQUOT],
            Class::Rename => &[EACCES, EROFS, EIO, ENOSPC, EPERM, EXDEV, EBUSY],
            Class::Mkdir => &[EACCES, EROFS, EIO, ENOSPC],
            Class::Meta => &[EIO, EACCES, EPERM],
            Class::Unlink => &[EIO, EACCES, EROFS],
            Class::Stdin | Class::Tty => &[EIO, EINTR, EAGAIN],
            Class::Stdout | Class::Stderr => &[EPIPE, EIO, ENOSPC, EINTR],
            Class::Rand => &[EIO, ENOSYS, EINTR, EPERM, EAGAIN],
            Class::Disk | Class::Mut => &[EIO, ENOSPC, EACCES, EROFS, EDQUOT, ENOMEM],
            Class::Any => &[EIO],
        };
        *self.r.pick(all)
    }
    fn fault(&mut self, classes: &[Class], ops: usize) -> Fault {
        let c = *self.r.pick(classes);
        let short = matches!(c, Class::Read | Class::Write | Class::Stdout | Class::Stdin | Class::Rand) && self.r.chance(1, 3);
        let kind = if short { FaultKind::Short(self.r.range(1, 40) as u32) } else { FaultKind::Errno(self.errno(c)) };
        let max = match c {
            Class::Mut => 9,
            Class::Disk => 14,
            Class::Any => 60,
            Class::Stdin | Class::Stdout => 6,
            Class::Rand => 5,
            Class::Meta => 5,
            _ => 3,
        };
        let mut len = if self.r.chance(1, 3) { 1000 } else { self.r.range(1, 2) as u32 };
        if matches!(kind, FaultKind::Errno(EINTR)) {
            len = len.min(4);
        }
        if matches!(kind, FaultKind::Errno(EINTR)) && c == Class::Rand {
            len = len.min(2);
        }
        let op = if ops == 0 || self.r.chance(1, 6) { None } else { Some(self.r.below(ops as u64 + 1) as u32) };
        if op.is_none() && ops > 0 && len > 4 && self.r.chance(1, 2) {
            len = 3;
        }
        Fault { class: c, nth: self.r.below(max) as u32, len, op, kind }
    }
    fn disk_fault(&mut self, s: &mut Spec) {
        let ops = if s.mode == Mode::Cli { 0 } else { s.cmds.len() };
        let f = self.fault(&[Class::Mut, Class::Mut, Class::Write, Class::Sync, Class::Rename, Class::Open, Class::Mkdir], ops);
        s.faults.push(f);
    }

    fn faults(&mut self, seed: u64) -> Plan {
        let mut p = self.plan(seed);
        self.start(&mut p, 6);
        if self.prop == "C22" {
            if let Some(i) = &mut p.initial {
                if self.r.chance(1, 3) {
                    // a big file, read in several pieces
                    for k in 0..self.r.range(20, 200) {
                        i.foreign.push((format!("other:{}", k), "v".repeat(1 + (k as usize * 37) % 120)));
                    }
                }
            }
        }
        let n = self.r.range(2, 5);
        for _ in 0..n {
            let m = match self.prop.as_str() {
                "C03" => *self.r.pick(&[Mode::Cli, Mode::Shell, Mode::Lib, Mode::Lib, Mode::Shell]),
                _ => self.mode(),
            };
            let m = if self.t.is_none() && m == Mode::Shell { Mode::Cli } else { m };
            let keep = self.t.clone();
            let mut s = self.process(m);
            self.default_path(&p, &mut s);
            if self.r.chance(3, 4) {
                let ops = if s.mode == Mode::Cli { 0 } else { s.cmds.len() };
                let cl: &[Class] = match self.prop.as_str() {
                    "C03" => &[Class::Mut, Class::Mut, Class::Mut, Class::Write, Class::Write, Class::Sync, Class::Rename, Class::Open, Class::Mkdir, Class::Meta, Class::Unlink],
                    "C22" => &[Class::Read, Class::Read, Class::Read, Class::Open, Class::Meta, Class::Disk],
                    _ => &[
                        Class::Mut, Class::Disk, Class::Stdout, Class::Stdout, Class::Stdin, Class::Stderr, Class::Rand, Class::Open, Class::Read, Class::Write, Class::Any,
                    ],
                };
                for _ in 0..self.r.range(1, 2) {
                    let f = self.fault(cl, ops);
                    s.faults.push(f);
                }
                if s.mode == Mode::Cli && self.r.chance(1, 2) {
                    self.t = keep;
                }
                if s.mode == Mode::Lib && self.prop == "C22" && self.r.chance(1, 2) {
                    s.cmds.insert(1, Cmd::Load);
                }
            }
            p.steps.push(Step::Run(s));
        }
        p
    }

    fn history(&mut self) -> Option<Hist> {
        let line = |r: &mut Rng| r.pick(&["list", "show example.com me", "exit", "add 'a b' c", "back\\\\slash", "two\\nlines", "bad\\escape", "#V2", " ", "\u{e4}", ""]).to_string();
        let head = self.r.chance(4, 5);
        let n = match self.r.below(6) {
            0 => return None,
            1 if self.r.chance(1, 3) => return Some(Hist::Dir),
            2 => self.r.range(90, 130),
            _ => self.r.below(5),
        };
        let mut b: Vec<u8> = vec![];
        if head {
            b.extend(b"#V2\n");
        }
        for i in 0..n {
            let l = line(&mut self.r);
            b.extend(l.bytes());
            if n > 9 {
                b.extend(format!(" {}", i).bytes());
            }
            b.push(b'\n');
        }
        match self.r.below(8) {
            0 => {
                let i = self.r.usize(b.len() + 1);
                b.insert(i, 0xff);
            }
            1 => b = self.r.pick(&[&b""[..], b"\n", b"\0\0\0", b"no newline", b"\x80", b"#V2", b"#V3\nx\n", b"#V2\r\na\r\nb\r\n"]).to_vec(),
            _ => {}
        }
        Some(Hist::File(b, *self.r.pick(&[0o600, 0o600, 0o644, 0o666])))
    }

    fn infault(&mut self, prompts: u64) -> InFault {
        let kind = match self.r.below(10) {
            0 | 1 => InKind::Eintr,
            2 => InKind::EioOnce,
            3 | 4 => InKind::Eio,
            5..=7 => InKind::Eof,
            _ => InKind::Bytes(self.r.pick(&[&b"\xff"[..], &b"\xc3\x28"[..], &b"\x80abc"[..], &b"\xf0\x9f"[..], &b"\0"[..]]).to_vec()),
        };
        let at = match self.r.below(4) {
            0 => 0,
            1 => 1000,
            _ => self.r.below(20) as u32,
        };
        InFault { prompt: self.r.below(prompts) as u32, at, kind }
    }

    fn inputs(&mut self, seed: u64) -> Plan {
        let mut p = self.plan(seed);
        if self.prop == "C25" {
            self.distinctive();
        }
        if self.prop == "C12" && self.r.chance(1, 60) {
            // recovery codes of some hundred lines
            let n = self.r.range(1700, 4200) as usize;
            let t: String = (0..n).map(|_| *self.r.pick(&['a', 'b', 'Z', '0', '-', '\u{e4}'])).collect();
            self.values = vec![t, self.values[0].clone()];
        }
        self.start(&mut p, 4);
        let n = self.r.range(1, 4);
        for _ in 0..n {
            let m = match self.prop.as_str() {
                "C12" => *self.r.pick(&[Mode::Cli, Mode::Cli, Mode::Shell, Mode::Lib]),
                "C25" => *self.r.pick(&[Mode::Cli, Mode::Shell]),
                _ => *self.r.pick(&[Mode::Cli, Mode::Cli, Mode::Cli, Mode::Shell]),
            };
            let m = if self.t.is_none() && m == Mode::Shell { Mode::Cli } else { m };
            let keep = self.t.clone();
            let mut s = self.process(m);
            self.default_path(&p, &mut s);
            match self.prop.as_str() {
                "C13" => {
                    s.tty = self.r.chance(1, 3);
                    if self.r.chance(4, 5) {
                        let k = if m == Mode::Cli { 4 } else { 8 };
                        for _ in 0..self.r.range(1, 2) {
                            let f = self.infault(k);
                            if !s.infaults.iter().any(|g| g.prompt == f.prompt) {
                                s.infaults.push(f);
                            }
                        }
                        if m == Mode::Cli {
                            self.t = keep;
                        }
                    }
                    if self.r.chance(1, 10) {
                        let f = self.fault(&[Class::Stdin, Class::Tty], 0);
                        s.faults.push(f);
                    }
                }
                "C25" => {
                    s.tty = self.r.chance(2, 3);
                    if self.r.chance(1, 3) {
                        let like = self.primaries[0].clone();
                        s.unlock = (0..self.r.range(1, 3)).map(|_| self.mistyped(&like)).collect();
                    }
                    for c in &mut s.cmds {
                        if let Cmd::SetPrimary { pw, repeat, .. } = c {
                            if self.r.chance(1, 5) {
                                *repeat = Some(self.mistyped(pw));
                            }
                        }
                    }
                    let ops = if m == Mode::Cli { 0 } else { s.cmds.len() };
                    match self.r.below(6) {
                        0 | 1 => {
                            let f = self.infault(5);
                            s.infaults.push(f);
                        }
                        2 => {
                            let f = self.fault(&[Class::Stdin, Class::Tty, Class::Tty], ops);
                            s.faults.push(f);
                        }
                        3 => {
                            let f = self.fault(&[Class::Mut, Class::Read, Class::Open, Class::Rand, Class::Write, Class::Stdout], ops);
                            s.faults.push(f);
                        }
                        _ => {}
                    }
                    if m == Mode::Cli && !(s.infaults.is_empty() && s.faults.is_empty()) && self.r.chance(1, 2) {
                        self.t = keep;
                    }
                }
                "C14" => {
                    if self.r.chance(1, 4) {
                        let f = self.infault(3);
                        s.infaults.push(f);
                    }
                    if self.r.chance(1, 5) {
                        let f = self.fault(&[Class::Read, Class::Open, Class::Disk, Class::Meta], 0);
                        s.faults.push(f);
                        self.t = keep;
                    }
                }
                _ => {
                    if self.r.chance(1, 12) {
                        let f = self.infault(6);
                        s.infaults.push(f);
                    }
                }
            }
            p.steps.push(Step::Run(s));
            if matches!(self.prop.as_str(), "C14" | "C25") && self.r.chance(1, 6) && self.t.is_some() && p.link_to.is_none() {
                // damaged at the wrong moment
                let d = self.file_damage();
                p.steps.push(Step::Damage(d));
                for _ in 0..self.r.range(1, 2) {
                    let c = if self.prop == "C14" && self.r.chance(1, 2) {
                        Cmd::SetPrimary { pw: self.primary(), repeat: None, yes: self.r.chance(1, 4), answers: self.answers() }
                    } else {
                        self.cmd(Mode::Cli)
                    };
                    let s = self.spec(Mode::Cli, vec![c]);
                    p.steps.push(Step::Run(s));
                }
                break;
            }
        }
        p
    }

    fn file_damage(&mut self) -> Vec<Dmg> {
        let n = if self.r.chance(3, 4) { 1 } else { 2 };
        (0..n)
            .map(|_| match self.r.below(16) {
                0 | 1 => Dmg::Flip { at: self.r.below(5000), mask: self.r.range(1, 255) as u8 },
                2 => Dmg::Truncate { at: self.r.below(5000) },
                3 => Dmg::Zero { at: self.r.below(3000), len: self.r.range(1, 200) },
                4 => Dmg::Garbage { at: self.r.below(3000), len: self.r.range(1, 64), seed: self.r.next() },
                5 => Dmg::DeleteRange { at: self.r.below(3000), len: self.r.range(1, 200) },
                6 => Dmg::Append { bytes: self.r.pick(&[&b"}"[..], &b" "[..], &b"\0"[..], &b"{}"[..], &b"\xff"[..]]).to_vec() },
                7 => Dmg::Replace {
                    bytes: self
                        .r
                        .pick(&[
                            &b""[..], b"{}", b"null", b"[]", b"\xef\xbb\xbf{}", b"{\"application\":\"pfp\",\"format\":3,\"data\":{}}",
                            b"{\"application\":\"easypasswords\",\"format\":3,\"data\":{\"salt\":\"Y2Jh\",\"hmac-secret\":\"a_b\"}}",
                            b"{\"application\":\"pfp\",\"format\":2,\"data\":{}}", b"{\"application\":\"pfp\",\"format\":3}", b"\0\0\0\0",
                            b"{\"application\":\"pfp\",\"format\":3,\"data\":{\"salt\":\"Y2Jh\"}}",
                        ])
                        .to_vec(),
                },
                8 => Dmg::Drop { nth: self.r.below(20) },
                _ => {
                    let how = match self.r.below(12) {
                        0..=3 => EDmg::FlipChar { at: self.r.below(400) },
                        4 => EDmg::Cut { at: self.r.below(400) },
                        5 => EDmg::Nonce { len: *self.r.pick(&[0, 1, 11, 13, 12, 16, 64]) },
                        6 => EDmg::Empty,
                        7 => EDmg::NoUnderscore,
                        8 => EDmg::Text(self.r.pick(&["_", "a_b", "AAAA_", "____", "AAAAAAAAAAAAAAAA_", "AAAAAAAAAAAAAAAA_AAAA", "\u{fc}_\u{fc}", "YWJjZGVmZ2hpamts_YWJjZGVmZ2hpamtsYWJjZGVmZ2hpamtsYWJj"]).to_string()),
                        _ => EDmg::Plain(
                            self.r
                                .pick(&[
                                    "", "{}", "null", "[]", "{\"site\":1}", "{\"site\":\"x\"", "\"text\"", "{\"type\":\"generated2\"}", "{\"type\":\"other\",\"site\":\"a\",\"name\":\"b\",\"revision\":\"\"}",
                                    "{\"type\":\"stored\",\"site\":\"a\",\"name\":\"b\",\"revision\":\"\",\"password\":null}", "\u{fc}", "{\"a\":1,\"a\":2}",
                                    "{\"type\":\"generated2\",\"site\":\"a\",\"name\":\"b\",\"revision\":\"\",\"length\":-1,\"lower\":true,\"upper\":true,\"number\":true,\"symbol\":true}",
                                    "{\"type\":\"generated2\",\"site\":\"a\",\"name\":\"b\",\"revision\":\"\",\"length\":1e99,\"lower\":true,\"upper\":true,\"number\":true,\"symbol\":true}",
                                    "{\"type\":\"generated2\",\"site\":\"a\",\"name\":\"b\",\"revision\":\"\",\"length\":16,\"lower\":\"yes\",\"upper\":true,\"number\":true,\"symbol\":true}",
                                    "@{\"length\":0}",
                                    "@{\"lower\":false,\"upper\":false,\"number\":false,\"symbol\":false}",
                                    "@{\"type\":\"x\"}",
                                    "@{\"type\":null}",
                                    "@{\"length\":\"16\"}",
                                    "@{\"length\":1.5}",
                                    "@{\"length\":-4}",
                                    "@{\"password\":5}",
                                    "@{\"password\":null}",
                                    "@{\"lower\":1}",
                                    "@{\"name\":7}",
                                    "@{\"notes\":[\"x\"]}",
                                    "@{\"notes\":null}",
                                    "@{\"alias\":5}",
                                    "@{\"site\":null}",
                                    "@{\"length\":340282366920938463463374607431768211455}",
                                    "[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[[",
                                ])
                                .to_string(),
                        ),
                    };
                    Dmg::Entry { nth: self.r.below(20), how }
                }
            })
            .collect()
    }

    fn damaged(&mut self, seed: u64) -> Plan {
        let mut p = self.plan(seed);
        let n = self.r.usize(7) + 1;
        self.names.retain(|s| !s.contains(['\n', '\r']));
        p.initial = Some(self.initial(n));
        if self.r.chance(1, 4) {
            let s = self.process(Mode::Cli);
            p.steps.push(Step::Run(s));
        }
        for _ in 0..self.r.range(1, 2) {
            let d = self.file_damage();
            p.steps.push(Step::Damage(d));
            for _ in 0..self.r.range(1, 3) {
                let m = self.mode();
                let m = if self.t.is_none() { Mode::Cli } else { m };
                let t = self.t.clone();
                let mut s = self.process(m);
                s.cmds.retain(|c| !matches!(c, Cmd::Store { code: Some(_), .. } | Cmd::Decode { .. }));
                for c in &mut s.cmds {
                    if let Cmd::List { verbose, rec, .. } = c {
                        *verbose = false;
                        *rec = false;
                    }
                    if let Cmd::SetPrimary { repeat, .. } = c {
                        *repeat = None;
                    }
                }
                s.unlock.clear();
                if s.cmds.is_empty() {
                    continue;
                }
                if s.cmds.iter().any(|c| matches!(c, Cmd::SetPrimary { .. })) && self.r.chance(3, 4) {
                    self.t = t;
                    continue;
                }
                p.steps.push(Step::Run(s));
            }
            if self.r.chance(1, 5) {
                p.steps.push(Step::Heal);
                let s = self.process(Mode::Cli);
                p.steps.push(Step::Run(s));
                break;
            }
        }
        p
    }

    fn conc(&mut self, seed: u64) -> Plan {
        let mut p = self.plan(seed);
        let k = if self.r.chance(3, 4) { 2 } else { 3 };
        let n = self.r.usize(4) + 1;
        self.sites.retain(|s| !s.starts_with("www."));
        if self.sites.len() < 3 {
            self.sites = vec!["example.com".into(), "example.org".into(), "x".into()];
        }
        p.initial = Some(self.initial(n));
        self.layout(&mut p);
        let rounds = self.r.range(1, 2);
        for round in 0..rounds {
            let mut procs = vec![];
            let base = self.t.clone().unwrap();
            let mut merged = base.clone();
            // entries by process, so that no two touch the same
            for i in 0..k {
                let mode = if self.r.chance(1, 2) { Mode::Cli } else { Mode::Shell };
                let cnt = if mode == Mode::Cli { 1 } else { self.r.range(1, 4) };
                let mut cmds = vec![];
                let mut own: Vec<Id> = base.pws.keys().enumerate().filter(|(j, _)| j % k == i).map(|x| x.1.clone()).collect();
                for _ in 0..cnt {
                    let read = self.r.chance(if self.prop == "C15" { 2 } else { 1 }, 5);
                    let c = if read {
                        match self.r.below(3) {
                            0 => Cmd::List { site: "*".into(), name: "?*".into(), show: true, rec: false, verbose: false },
                            _ => {
                                let ids: Vec<Id> = base.pws.keys().cloned().collect();
                                if ids.is_empty() {
                                    continue;
                                }
                                let (site, name, rev) = self.r.pick(&ids).clone();
                                if self.r.chance(1, 2) { Cmd::Show { site, name, rev, qr: false } } else { Cmd::Notes { site, name, rev, set: None } }
                            }
                        }
                    } else {
                        match self.r.below(6) {
                            0 if !own.is_empty() => {
                                let j = self.r.usize(own.len());
                                let (site, name, rev) = own.remove(j);
                                Cmd::Remove { site, name, rev }
                            }
                            1 | 2 if !own.is_empty() => {
                                let (site, name, rev) = self.r.pick(&own).clone();
                                Cmd::Notes { site, name, rev, set: Some(format!("note {}", self.r.below(1000))) }
                            }
                            3 => {
                                let id = (self.site(), format!("proc{}-{}-{}", round, i, self.r.below(3)), String::new());
                                own.push(base.id(&id.0, &id.1, &id.2));
                                Cmd::Store { site: id.0, name: id.1, rev: id.2, pw: self.value(), yes: true, answers: vec![], code: None }
                            }
                            4 if i == 0 => Cmd::Alias { site: format!("alias{}", self.r.below(3)), target: Some(self.site()), remove: false },
                            _ => {
                                let id = (self.site(), format!("proc{}-{}-{}", round, i, self.r.below(3)), String::new());
                                own.push(base.id(&id.0, &id.1, &id.2));
                                Cmd::Add { site: id.0, name: id.1, rev: id.2, len: self.len(), cs: self.charset(Mode::Lib), yes: true, answers: vec![] }
                            }
                        }
                    };
                    let mut t = c.clone();
                    if let Cmd::Store { pw, .. } = &mut t {
                        *pw = pw.trim().to_string();
                    }
                    if let Ok(Some(m)) = merged.apply(&t) {
                        merged = m;
                    }
                    cmds.push(c);
                }
                if cmds.is_empty() {
                    cmds.push(Cmd::List { site: "*".into(), name: "?*".into(), show: false, rec: false, verbose: false });
                }
                let mut s = self.spec(mode, cmds);
                if mode == Mode::Shell {
                    s.history = Some(format!("/home/u/hist{}.txt", i));
                }
                if self.prop == "C15" && self.r.chance(1, 6) {
                    self.crash(&mut s);
                    if let Some(c) = &mut s.crash {
                        c.kind = CrashKind::Kill;
                    }
                }
                procs.push(s);
            }
            self.t = Some(merged);
            // schedule: some one after the other, some finely interleaved
            let mut sched = vec![];
            let style = self.r.below(4);
            let mut at = 0u32;
            let mean = match style {
                0 => 200,
                1 => 40,
                2 => 8,
                _ => 2,
            };
            for _ in 0..60 {
                sched.push((at, self.r.below(k as u64) as u32));
                at += self.r.range(1, mean * 2) as u32;
            }
            p.steps.push(Step::Conc { procs, sched });
        }
        p
    }

    fn memory(&mut self, seed: u64) -> Plan {
        let mut p = self.plan(seed);
        self.distinctive();
        p.memory = true;
        p.shift = 11;
        if self.r.chance(1, 6) {
            // lines longer than any buffer they are read into
            for k in 0..2 {
                let tail = "l".repeat(self.r.range(1000, 9000) as usize);
                match k {
                    0 => self.notes.iter_mut().for_each(|x| x.push_str(&tail)),
                    _ if self.r.chance(1, 3) => self.values.iter_mut().for_each(|x| x.push_str(&tail)),
                    _ => {}
                }
            }
        }
        if self.r.chance(3, 4) {
            let n = self.r.usize(4) + 1;
            p.initial = Some(self.initial(n));
        } else {
            let c = Cmd::SetPrimary { pw: self.primary(), repeat: None, yes: false, answers: vec![] };
            self.track(&c, Mode::Cli);
            let s = self.spec(Mode::Cli, vec![c]);
            p.steps.push(Step::Run(s));
        }
        for _ in 0..self.r.range(1, 3) {
            let m = *self.r.pick(&[Mode::Cli, Mode::Cli, Mode::Shell]);
            let mut s = self.process(m);
            s.tty = self.r.chance(1, 12);
            if !s.unlock.is_empty() || self.r.chance(1, 5) {
                s.unlock = vec![self.unique("Wrong")];
            }
            if self.r.chance(1, 4) {
                let ops = if s.mode == Mode::Cli { 0 } else { s.cmds.len() };
                let f = self.fault(&[Class::Mut, Class::Read, Class::Open, Class::Stdin, Class::Rand], ops);
                s.faults.push(f);
            }
            if self.r.chance(1, 5) {
                let mut f = self.infault(4);
                if let InKind::Bytes(_) = f.kind {
                    f.kind = InKind::Eof;
                }
                s.infaults.push(f);
            }
            p.steps.push(Step::Run(s));
        }
        p
    }

    pub fn make(&mut self, seed: u64) -> Plan {
        match self.prop.as_str() {
            "C01" | "C02" => self.crashes(seed),
            "C03" | "C21" | "C22" => self.faults(seed),
            "C12" | "C13" | "C14" | "C25" => self.inputs(seed),
            "C10" => self.damaged(seed),
            "C15" | "C16" => self.conc(seed),
            "C18" => self.memory(seed),
            _ => self.hist(seed),
        }
    }
}

fn agrees(a: &[String]) -> bool {
    for x in a {
        match x.trim().to_lowercase().as_str() {
            "y" | "yes" => return true,
            "n" | "no" | "" => return false,
            _ => {}
        }
    }
    false
}

pub fn plan(prop: &str, seed: u64) -> Plan {
    let mut p = G::new(prop, seed).make(seed);
    // the library driver reads its commands from standard input: faults there would test the driver
    let tidy = |s: &mut Spec| {
        if s.mode == Mode::Lib {
            s.infaults.clear();
            s.faults.retain(|f| !matches!(f.class, Class::Stdin | Class::Tty));
        }
    };
    let mut r = Rng::new(crate::rng::mix(seed ^ 0x7e12));
    let memory = p.memory;
    let mut terminal = |s: &mut Spec| {
        if s.mode != Mode::Shell || memory {
            return;
        }
        if matches!(prop, "C19" | "C26" | "C13") && r.chance(1, 3) {
            s.tty = true;
        }
        let lines: Vec<String> = s.cmds.iter().map(crate::exec::shell_line).collect();
        if !s.tty || !r.chance(2, 3) || lines.iter().any(|l| l.chars().any(|c| c.is_control())) {
            return;
        }
        s.raw = true;
        s.faults.retain(|f| !matches!(f.class, Class::Stdout | Class::Any) || matches!(f.kind, FaultKind::Short(_) | FaultKind::Errno(EINTR)));
        for (i, l) in lines.iter().enumerate() {
            if !r.chance(1, 4) {
                continue;
            }
            for _ in 0..*r.pick(&[0, 1, 1, 2, 3]) {
                let t: String = r.pick(&["lst", "remove example.com bob", "x", "", "exit", "show --", "lock \""]).to_string();
                let kind = match r.below(5) {
                    0 => KeyKind::Erase(t),
                    1 => KeyKind::Kill(t),
                    _ => KeyKind::Interrupt(t),
                };
                s.keys.push(Keys { line: i as u32, kind });
            }
            let kind = match r.below(4) {
                0 => KeyKind::Home,
                1 => KeyKind::Paste,
                2 if i > 0 && *l == lines[i - 1] && !l.is_empty() && s.infaults.is_empty() && s.faults.is_empty() => KeyKind::Up,
                _ => continue,
            };
            s.keys.push(Keys { line: i as u32, kind });
        }
    };
    for st in &mut p.steps {
        match st {
            Step::Run(s) => {
                tidy(s);
                terminal(s);
            }
            Step::Conc { procs, .. } => procs.iter_mut().for_each(tidy),
            _ => {}
        }
    }
    p
}
