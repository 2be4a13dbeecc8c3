//! The explicit description of one simulated run. A plan is all there is to a run: executing it twice gives the same
//! execution, and a replay file is a plan.
use crate::fs::Personality;
use crate::kernel::{Crash, Fault};
use crate::model::Pw;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Cmd {
    SetPrimary {
        pw: String,
        #[serde(default, skip_serializing_if = "Option::is_none")]
        repeat: Option<String>,
        yes: bool,
        #[serde(default)]
        answers: Vec<String>,
    },
    Add { site: String, name: String, rev: String, len: u32, cs: u8, yes: bool, #[serde(default)] answers: Vec<String> },
    /// add-stored; with `code`, the lines typed as recovery code (and `pw` is what they should give)
    Store {
        site: String,
        name: String,
        rev: String,
        pw: String,
        yes: bool,
        #[serde(default)]
        answers: Vec<String>,
        #[serde(default, skip_serializing_if = "Option::is_none")]
        code: Option<Vec<String>>,
    },
    Remove { site: String, name: String, rev: String },
    Show {
        site: String,
        name: String,
        rev: String,
        /// as a QR code
        #[serde(default)]
        qr: bool,
    },
    Notes { site: String, name: String, rev: String, set: Option<String> },
    List { site: String, name: String, show: bool, rec: bool, verbose: bool },
    Alias { site: String, target: Option<String>, remove: bool },
    /// a command line given verbatim to the shell, expected to be refused without effect
    Raw { line: String },
    /// parameters that make no command, to be refused
    Bad { args: Vec<String> },
    Lock,
    Exit,
    /// library sessions only
    Unlock { pw: String },
    Load,
    Has { site: String, name: String, rev: String },
    Decode { code: String },
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
pub enum Mode {
    Cli,
    Shell,
    Lib,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum InKind {
    /// interrupted once, then the rest
    Eintr,
    /// fails once with EIO, then the rest is there
    EioOnce,
    /// fails with EIO from here on
    Eio,
    /// ends here
    Eof,
    /// these bytes are slipped in
    Bytes(Vec<u8>),
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct InFault {
    /// index of the prompt within the process
    pub prompt: u32,
    /// byte offset within the answer (clipped to its length)
    pub at: u32,
    pub kind: InKind,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Spec {
    pub mode: Mode,
    /// passwords are typed on the terminal instead of standard input
    #[serde(default)]
    pub tty: bool,
    pub cmds: Vec<Cmd>,
    /// what is typed at "Your primary password", before the right one
    #[serde(default)]
    pub unlock: Vec<String>,
    #[serde(default)]
    pub infaults: Vec<InFault>,
    #[serde(default)]
    pub faults: Vec<Fault>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub crash: Option<Crash>,
    /// use the default storage path (no -c)
    #[serde(default)]
    pub default_path: bool,
    /// path given with -c / to the library, if not the plan's
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub path: Option<String>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub history: Option<String>,
    /// a shell session on the terminal itself, its lines typed key by key
    #[serde(default, skip_serializing_if = "std::ops::Not::not")]
    pub raw: bool,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub keys: Vec<Keys>,
}

/// How a command line is typed.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum KeyKind {
    /// after something else, erased character by character
    Erase(String),
    /// after something else, erased at once
    Kill(String),
    /// after something else, given up with Ctrl-C
    Interrupt(String),
    /// its first character last
    Home,
    /// pasted
    Paste,
    /// taken from the history
    Up,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Keys {
    /// index of the line
    pub line: u32,
    pub kind: KeyKind,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Dmg {
    Flip { at: u64, mask: u8 },
    Truncate { at: u64 },
    Zero { at: u64, len: u64 },
    Garbage { at: u64, len: u64, seed: u64 },
    DeleteRange { at: u64, len: u64 },
    Append { bytes: Vec<u8> },
    /// damage within the nth value of the data
    Entry { nth: u64, how: EDmg },
    /// the whole file replaced
    Replace { bytes: Vec<u8> },
    /// nth and mth values swapped
    Swap { n: u64, m: u64 },
    /// nth value removed
    Drop { nth: u64 },
    /// file removed
    Remove,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum EDmg {
    FlipChar { at: u64 },
    Cut { at: u64 },
    Nonce { len: u64 },
    Empty,
    NoUnderscore,
    Text(String),
    /// re-encrypted by somebody who has the key, with this plain text
    Plain(String),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Step {
    Run(Spec),
    /// processes at the same time; `sched` lists (system call number, process) switches
    Conc { procs: Vec<Spec>, sched: Vec<(u32, u32)> },
    Power { style: u8, seed: u64 },
    Damage(Vec<Dmg>),
    /// undo the damage
    Heal,
    Clock(i64),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Entry {
    pub site: String,
    pub name: String,
    pub rev: String,
    #[serde(flatten)]
    pub pw: Pw,
}
#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct Initial {
    pub primary: String,
    pub fancy: bool,
    pub seed: u64,
    pub sites: Vec<(String, Option<String>)>,
    pub pws: Vec<Entry>,
    pub foreign: Vec<(String, String)>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Hist {
    File(Vec<u8>, u32),
    Dir,
}

pub const HISTORY: &str = "/home/u/.config/PfP/history.txt";

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Plan {
    pub property: String,
    pub seed: u64,
    pub entropy: u64,
    pub clock: u64,
    #[serde(default)]
    pub frozen: bool,
    pub personality: Personality,
    pub shift: u32,
    /// as given on the command line
    pub path: String,
    /// real location, if `path` is a symbolic link
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub link_to: Option<String>,
    /// the symbolic links that lead there, if it is not one at `path`: (location, contents)
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub via: Vec<(String, String)>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub mode: Option<u32>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub initial: Option<Initial>,
    pub steps: Vec<Step>,
    /// what is in the place of the shell's history
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub history: Option<Hist>,
    /// memory needles
    #[serde(default)]
    pub memory: bool,
    /// run again with nothing different but the system's entropy: nothing random may repeat
    #[serde(default)]
    pub twin: bool,
}
