D={}
D['c01-clear-flush']='''
# Sets a new primary password and is killed after each of the times the file is replaced.
from pfp import *
init()
store("example.com", "me", "old value")
before = raw()
for n in range(1, 6):
    open(VAULT, "wb").write(before)
    r = pfp("set-primary", "-y", primary="another primary", lines=["another primary"], env={"KILL_AFTER": str(n)})
    old = show("example.com", "me") == "old value"
    new = pfp("list", primary="another primary").returncode == 0
    if not old and not new:
        fail("killed after save %d, neither the old nor the new vault is there: %r" % (n, raw()))
    if r.returncode == 0:
        break
'''
D['c01-site-first']='''
from pfp import *
init()
before = raw()
for n in range(1, 6):
    open(VAULT, "wb").write(before)
    r = pfp("add-stored", "example.com", "me", lines=["value 1"], env={"KILL_AFTER": str(n)})
    have = len(entries())
    if have != 0 and (have != 2 or show("example.com", "me") != "value 1"):
        fail("killed after save %d, a part of the change is there: %r" % (n, entries().keys()))
    if r.returncode == 0:
        break
'''
D['c01-clean-each']='''
# Sites left empty are cleaned up by list: all of them or none.
from pfp import *
init()
for s in ["a.com", "b.com", "c.com"]:
    store(s, "me", "value")
    ok("remove", s, "me")
before = raw()
count = len(entries())
for n in range(1, 6):
    open(VAULT, "wb").write(before)
    r = pfp("list", env={"KILL_AFTER": str(n)})
    if len(entries()) not in (0, count):
        fail("killed after save %d, %d of %d records are left" % (n, len(entries()), count))
    if r.returncode == 0:
        break
'''
D['c02-deferred-notes']='''
# A shell session is killed after it confirmed the change.
from pfp import *
init()
store("example.com", "me", "value")
s = Shell()
s.unlock("notes -s example.com me")
s.wait("to be stored:")
s.send("my first note")
done = s.wait("otes stored")
s.kill()
out = ok("notes", "example.com", "me")
if done and "my first note" not in out:
    fail("the notes were confirmed but are lost: %r" % out)
'''
D['c02-same-length']='''
from pfp import *
init()
store("example.com", "me", "value")
for note in ["pin 1111", "pin 2222"]:
    ok("notes", "-s", "example.com", "me", lines=[note])
    out = ok("notes", "example.com", "me")
    if note not in out:
        fail("%r was stored, but the answer is %r" % (note, out))
'''
D['c04-revision-number']='''
from pfp import *
init()
values = {"": "value none", "01": "value 01", "+1": "value +1", "001": "value 001", "2": "value 2"}
for rev, v in values.items():
    store("example.com", "me", v, rev)
for rev, v in values.items():
    got = show("example.com", "me", rev)
    if got != v:
        fail("revision %r: %r instead of %r" % (rev, got, v))
'''
D['c04-www-twice']='''
from pfp import *
init()
store("example.com", "me", "the first")
r = pfp("add-stored", "www.www.example.com", "me", lines=["the second", "the second"])
a, b = show("example.com", "me"), show("www.www.example.com", "me")
if a != "the first" or b != "the second":
    fail("two sites share their passwords: %r %r" % (a, b))
'''
D['c04-blank-notes']='''
from pfp import *
init()
store("example.com", "me", "value")
def notes():
    return ok("notes", "example.com", "me")
none = notes()
for n in ["  ", " x ", "\\t"]:
    ok("notes", "-s", "example.com", "me", lines=[n])
    if n not in notes() or notes() == none:
        fail("notes %r are gone: %r" % (n, notes()))
'''
D['c05-stored-hidden']='''
from pfp import *
init()
store("example.com", "me", "value")
pfp("alias", "example.com", "example.org")
if show("example.com", "me") != "value":
    fail("the password of a site is hidden by an alias")
'''
D['c06-list-saves']='''
from pfp import *
init()
store("example.com", "me", "value")
before = os.stat(VAULT)
ok("list")
ok("list", "-v", "-s", "example.*")
after = os.stat(VAULT)
if (before.st_ino, before.st_mtime_ns) != (after.st_ino, after.st_mtime_ns):
    fail("list wrote the file")
'''
D['c07-clean-glob']='''
from pfp import *
init()
store("example.com", "me", "value")
ok("list", "*", "nobody*")
if "example.com" not in ok("list"):
    fail("the site is not listed any more")
'''
D['c08-idn-sites']='''
from pfp import *
init()
for site in ["b\\u00fccher.example", "\\u043f\\u0440\\u0438\\u043c\\u0435\\u0440.example", "plain.example"]:
    store(site, "username", "value")
    b = site.encode()
    text = raw()
    for off in range(3):
        enc = base64.b64encode(b"x" * off + b)[4 if off else 0:-4]
        if enc in text:
            fail("the file contains the name of %s in Base64" % site)
    if b in text or b.hex().encode() in text:
        fail("the file contains the name of " + site)
'''
D['c09-entropy-ignored']='''
from pfp import *
init()
store("example.com", "me", "value")
pfp("add-stored", "-y", "example.com", "you", lines=["other value"], env={"NO_ENTROPY": "12"})
nonces = [v.split("_")[0] for k, v in data().items() if "_" in v]
if len(set(nonces)) != len(nonces) or base64.b64encode(bytes(12)).decode() in nonces:
    fail("a nonce was used twice or is not random: %r" % nonces)
'''
D['c09-clock-seed']='''
from pfp import *
salts = []
for n in "12":
    v = DIR + "/vault/%s.json" % n
    r = pfp("set-primary", "-y", vault=v, lines=[PRIMARY], env={"FROZEN": "1"})
    if r.returncode == 0:
        salts.append(data(v)["salt"])
if len(set(salts)) != len(salts):
    fail("two vaults have the same salt")
'''
D['c10-expect']='''
# Two records of the file have been exchanged.
from pfp import *
init()
store("example.com", "me", "value")
store("example.org", "me", "value")
j = json.load(open(VAULT))
d = j["data"]
site = [k for k in d if k.startswith("site:") and k.count(":") == 1]
pw = [k for k in d if k.startswith("site:") and k.count(":") == 2]
for k in pw:
    d[k] = d[site[0]]
json.dump(j, open(VAULT, "w"), separators=(",", ":"))
for a in (["show", "example.com", "me"], ["list"], ["notes", "example.com", "me"]):
    r = pfp(*a)
    if r.returncode not in (0, 1) or b"panicked" in r.stderr:
        fail("%r: exit status %d, %r" % (a, r.returncode, r.stderr))
'''
D['c12-keep-bad-line']='''
from pfp import *
init()
store("example.com", "me", "a password that needs several lines of its recovery code to be written down")
out = ok("list", "-r", "example.com", "me")
code = [l.strip() for l in out.split("Recovery code:\\n")[1].split("\\n") if l.strip()]
if len(code) < 3:
    fail("unexpected output %r" % out)
bad = [l.replace("A", "B") if "A" in l else l[:-1] + ("A" if l[-1] != "A" else "C") for l in code]
ok("add-stored", "-c", "-y", "example.org", "me", lines=[bad[0]] + code)
if show("example.org", "me") != show("example.com", "me"):
    fail("the code did not bring the password back: %r" % show("example.org", "me"))
'''
D['c12-empty-line']='''
from pfp import *
init()
store("example.com", "me", "a password that needs several lines of its recovery code to be written down")
out = ok("list", "-r", "example.com", "me")
code = [l.strip() for l in out.split("Recovery code:\\n")[1].split("\\n") if l.strip()]
typed = []
for l in code:
    typed += [l[:14], l[14:]]
r = pfp("add-stored", "-c", "-y", "example.org", "me", lines=typed)
if show("example.org", "me") != show("example.com", "me"):
    fail("the code did not bring the password back: %r" % r.stderr)
'''
D['c13-unlock-eof']='''
from pfp import *
init()
store("example.com", "me", "value")
p = subprocess.Popen([BIN, "--stdin-passwords", "-c", VAULT, "show", "example.com", "me"], stdin=subprocess.DEVNULL,
    stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env={"HOME": HOME, "TERM": "xterm"}, cwd=DIR)
try:
    rc = p.wait(20)
except subprocess.TimeoutExpired:
    p.kill()
    p.wait()
    fail("keeps asking for the primary password at the end of input")
if rc == 0:
    fail("success without a primary password")
'''
D['c14-has-decrypt']='''
from pfp import *
init()
store("example.com", "me", "value")
j = json.load(open(VAULT))
for k, v in j["data"].items():
    if k.count(":") == 2:
        a, b = v.split("_")
        j["data"][k] = a + "_" + ("A" if b[0] != "A" else "B") + b[1:]
        key = k
json.dump(j, open(VAULT, "w"), separators=(",", ":"))
# the answer to the question whether to overwrite
pfp("add-stored", "example.com", "me", lines=["n", "n", "n"])
if data()[key] != j["data"][key]:
    fail("an existing password was replaced without asking")
'''
D['c14-recovery-overwrites']='''
from pfp import *
init()
store("example.com", "me", "value")
store("example.org", "me", "other")
out = ok("list", "-r", "example.com", "me")
code = [l.strip() for l in out.split("Recovery code:\\n")[1].split("\\n") if l.strip()]
pfp("add-stored", "-c", "example.org", "me", lines=["n"] + code)
if show("example.org", "me") == "other":
    # refused as it should be; the other way round
    pfp("add-stored", "-c", "example.org", "me", lines=code)
if show("example.org", "me") != "other":
    fail("an existing password was replaced without asking")
'''
D['c15-stat-length']='''
# Another process saves a longer or shorter file while this one is loading.
from pfp import *
init()
store("example.com", "me", "value")
small = raw()
store("example.org", "me", "a second value")
big = raw()
for a, b in ((small, big), (big, small)):
    open(VAULT, "wb").write(a)
    open(VAULT + ".other", "wb").write(b)
    got = show("example.com", "me", env={"SWAP": VAULT + ".other"})
    if got != "value":
        fail("a password cannot be read while another process saves")
'''
D['c17-revision-salt']='''
from pfp import *
init()
seen = {}
for rev in ["1", "0", "01", "!", "2", "11", "a"]:
    ok("add", "-y", "-l", "24", "-r", rev, "example.com", "me")
    p = show("example.com", "me", rev)
    if p in seen:
        fail("revisions %r and %r have the same password" % (rev, seen[p]))
    seen[p] = rev
'''
D['c19-bad-quotes']='''
from pfp import *
init()
store("example.com", "me", "the value")
s = Shell()
s.unlock("show example.com me")
if not s.wait("the value"):
    fail("no answer")
for line in ["show 'example.com me", 'show "']:
    s.send(line)
    time.sleep(0.5)
    s.send("show example.com me")
    if not s.wait("the value"):
        s.kill()
        fail("the session does not go on after %r" % line)
s.kill()
'''
D['c21-alias-status']='''
from pfp import *
import resource, signal
init()
store("example.com", "me", "value")
def full():
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_FSIZE, (0, 0))
n = len(entries())
r = pfp("alias", "example.org", "example.com", pre=full)
if len(entries()) == n and r.returncode == 0:
    fail("exit status 0 though the alias was not saved: %r" % r.stderr)
if pfp("alias", "example.com", "example.org").returncode == 0:
    fail("exit status 0 though the alias was refused")
'''
D['c22-short-read']='''
from pfp import *
init()
for i in range(5):
    store("example%d.com" % i, "me", "value %d" % i)
for n in ("1000", "100", "7"):
    got = show("example3.com", "me", env={"SHORT": n})
    if got != "value 3":
        fail("reading at most %s bytes at a time: %r" % (n, got))
'''
D['c18-show-copy']='''
from pfp import *
init()
value = "Correct-Horse-Battery-Staple-1234567890"
store("example.com", "me", value)
log = DIR + "/needle"
show("example.com", "me", env={"NEEDLE": value, "NEEDLE_LOG": log})
if os.path.exists(log):
    fail("released memory contains the password shown")
'''
D['c18-growing']='''
from pfp import *
init()
ok("add", "-y", "-l", "24", "example.com", "me")
value = show("example.com", "me")
log = DIR + "/needle"
for n in (8, 16):
    show("example.com", "me", env={"NEEDLE": value[:n], "NEEDLE_LOG": log})
    if os.path.exists(log):
        fail("released memory contains %d characters of the password" % n)
'''
D['c18-failed-unlock']='''
from pfp import *
init()
store("example.com", "me", "value")
wrong = "Another-Primary-Password-0123456789"
log = DIR + "/needle"
show("example.com", "me", primary=wrong, lines=[PRIMARY], env={"NEEDLE": wrong, "NEEDLE_LOG": log})
if os.path.exists(log):
    fail("released memory contains the primary password that was refused")
'''
D['c03-reset-order']='''// rust
// Changing the primary password fails because the folder is gone. The session must not use the new key on the old data.
use pfp::{passwords::Passwords, storage_io::FileIO};
use secrecy::{ExposeSecret, SecretString};

fn s(t: &str) -> SecretString {
    SecretString::new(t.into())
}

fn main() {
    let d = std::path::PathBuf::from(std::env::args().nth(1).unwrap());
    let folder = d.join("vault");
    std::fs::create_dir(&folder).unwrap();
    let path = folder.join("s.json");
    let mut p = Passwords::new(FileIO::new(&path));
    p.reset(s("first primary")).unwrap();
    p.set_stored("example.com", "me", "", s("value")).unwrap();
    // a file where the folder was: nothing can be saved
    std::fs::rename(&folder, d.join("away")).unwrap();
    std::fs::write(&folder, "").unwrap();
    let r = p.reset(s("second primary"));
    std::fs::remove_file(&folder).unwrap();
    std::fs::rename(d.join("away"), &folder).unwrap();
    if r.is_ok() {
        println!("BROKEN: success without saving");
        std::process::exit(1);
    }
    // what the session does next must not make the saved vault unusable
    let stored = p.set_stored("example.com", "you", "", s("other")).is_ok();
    drop(p);
    let mut q = Passwords::new(FileIO::load(&path).unwrap());
    if q.unlock(s("first primary")).is_err() {
        println!("BROKEN: the old primary password does not open the vault");
        std::process::exit(1);
    }
    if stored && !q.get("example.com", "you", "").map_or(false, |v| v.expose_secret() == "other") {
        println!("BROKEN: a password reported as stored is lost");
        std::process::exit(1);
    }
    if q.get("example.com", "me", "").is_err() {
        println!("BROKEN: password lost");
        std::process::exit(1);
    }
}
'''
D['c11-primary-early']='''// rust
// A session refused to open must not do anything with the primary password that was refused.
use pfp::{passwords::Passwords, storage_io::FileIO};
use secrecy::SecretString;

fn s(t: &str) -> SecretString {
    SecretString::new(t.into())
}

fn main() {
    let d = std::path::PathBuf::from(std::env::args().nth(1).unwrap());
    let path = d.join("s.json");
    let other = d.join("t.json");
    // another vault, the primary password of which is typed by mistake
    let mut o = Passwords::new(FileIO::new(&other));
    o.reset(s("second primary")).unwrap();
    o.set_stored("example.com", "me", "", s("value")).unwrap();
    let mut code = String::new();
    for p in o.list("example.com", "me") {
        if let pfp::storage_types::Password::Stored(p) = &p {
            code = o.get_recovery_code(p).unwrap().to_string();
        }
    }
    let mut p = Passwords::new(FileIO::new(&path));
    p.reset(s("first primary")).unwrap();
    p.lock();
    if p.unlock(s("second primary")).is_ok() || p.unlocked() {
        println!("BROKEN: opens with the wrong primary password");
        std::process::exit(1);
    }
    if p.decode_recovery_code(&code).is_ok() {
        println!("BROKEN: a locked session decodes recovery codes");
        std::process::exit(1);
    }
}
'''

# ---- batch 2
del D['c13-unlock-eof']
D['c01-remove-site']='''
# remove is killed after each of the times the file is replaced: nothing or everything.
from pfp import *
init()
store("example.com", "me", "value")
ok("notes", "-s", "example.com", "me", lines=["the notes"])
before = raw()
for n in range(1, 6):
    open(VAULT, "wb").write(before)
    r = pfp("remove", "example.com", "me", env={"KILL_AFTER": str(n)})
    if show("example.com", "me") is not None and "the notes" not in ok("notes", "example.com", "me"):
        fail("killed after save %d: the password is there, but its notes are gone" % n)
    if r.returncode == 0:
        break
'''
D['c02-alias-same']='''
from pfp import *
init()
store("example.com", "me", "value")
ok("alias", "other.example", "example.com")
for target in ["example.net", "example.com", "nothing.example"]:
    ok("alias", "other.example", target)
    out = ok("alias", "other.example")
    if "'%s'" % target not in out:
        fail("changed to %s, but it says %r" % (target, out))
'''
D['c03-notes-error']='''
# A save of notes fails in a session: the session goes on with what it had.
from pfp import *
init()
store("example.com", "me", "value")
folder = os.path.dirname(VAULT)
s = Shell()
s.unlock("notes -s example.com me")
s.wait("to be stored:")
os.rename(folder, DIR + "/away")
open(folder, "w").close()
s.send("new notes")
failed = s.wait("Failed", 10)
os.remove(folder)
os.rename(DIR + "/away", folder)
s.send("show example.com me")
found = s.wait("retrieved.value", 5)
s.kill()
if failed and not found:
    fail("after a failed save, the session does not show passwords any more")
'''
D['c03-reset-locks']='''// rust
// Changing the primary password of an open session fails: the session stays open.
use pfp::{passwords::Passwords, storage_io::FileIO};
use secrecy::{ExposeSecret, SecretString};

fn s(t: &str) -> SecretString {
    SecretString::new(t.into())
}

fn main() {
    let d = std::path::PathBuf::from(std::env::args().nth(1).unwrap());
    let folder = d.join("f");
    let path = folder.join("s.json");
    let mut p = Passwords::new(FileIO::new(&path));
    p.reset(s("first primary")).unwrap();
    p.set_stored("example.com", "me", "", s("value")).unwrap();
    std::fs::rename(&folder, d.join("away")).unwrap();
    std::fs::write(&folder, b"").unwrap();
    let r = p.reset(s("second primary"));
    std::fs::remove_file(&folder).unwrap();
    std::fs::rename(d.join("away"), &folder).unwrap();
    if r.is_ok() {
        println!("BROKEN: success without saving");
        std::process::exit(1);
    }
    match p.get("example.com", "me", "") {
        Ok(v) if v.expose_secret() == "value" => {}
        _ => {
            println!("BROKEN: the session does not have its passwords any more");
            std::process::exit(1);
        }
    }
}
'''
D['c04-trim-name']='''
from pfp import *
init()
values = {"me": "one", "me ": "two", " me": "three", "me\\t": "four"}
for name, v in values.items():
    store("example.com", name, v)
for name, v in values.items():
    if show("example.com", name) != v:
        fail("name %r: %r instead of %r" % (name, show("example.com", name), v))
'''
D['c04-notes-kept']='''
from pfp import *
init()
store("example.com", "me", "one")
ok("notes", "-s", "example.com", "me", lines=["notes of the first"])
store("example.com", "me", "two")
out = ok("notes", "example.com", "me")
if "notes of the first" in out:
    fail("a new password has the notes of the old one: %r" % out)
'''
D['c04-www-case']='''
from pfp import *
init()
values = {"example.com": "one", "WWW.example.com": "two", "Www.example.com": "three"}
for site, v in values.items():
    store(site, "me", v)
for site, v in values.items():
    if show(site, "me") != v:
        fail("site %r: %r instead of %r" % (site, show(site, "me"), v))
'''
D['c05-remove-target']='''
from pfp import *
init()
ok("alias", "example.org", "example.com")
ok("list")
ok("alias", "-r", "example.org")
if pfp("alias", "example.org").returncode == 0:
    fail("the alias is still there")
'''
D['c05-clean-targets']='''
# list removes sites without passwords; this does not affect aliases.
from pfp import *
init()
store("example.com", "me", "value")
ok("remove", "example.com", "me")
ok("alias", "example.org", "example.com")
ok("list")
store("example.com", "me", "value")
if "'example.com'" not in pfp("alias", "example.org").stdout.decode() or show("example.org", "me") != "value":
    fail("the alias is gone")
'''
D['c06-list-aliases']='''
from pfp import *
init()
for a in ["a.org", "b.org", "c.org"]:
    ok("alias", a, "example.com")
ok("list")
store("example.com", "me", "value")
for a in ["a.org", "b.org", "c.org"]:
    if show(a, "me") != "value":
        fail("list removed the alias " + a)
'''
D['c07-alias-pattern']='''
from pfp import *
init()
store("example.com", "me", "value")
ok("alias", "other.org", "example.com")
for pattern in ["other.org", "*.org", "other*", "*"]:
    if "example.com" not in ok("list", pattern):
        fail("not listed by " + pattern)
'''
D['c08-site-prefix']='''
from pfp import *
init()
for site in ["x.y", "qq", "example.com"]:
    store(site, "me", "value")
for key in entries():
    for part in key.split(":"):
        if part in ("x.y", "qq"):
            fail("the file has a site name: " + key)
'''
D['c09-salt-reuse']='''
from pfp import *
init()
salts = set()
for i in range(4):
    salts.add(data()["salt"])
    init()
if len(salts) != 4:
    fail("the salt is used again")
'''
D['c09-nonce-plaintext']='''
from pfp import *
init()
nonces = []
for i in range(4):
    store("example.com", "me", "value")
    nonces += [v.split("_")[0] for k, v in entries().items() if k.count(":") == 2]
if len(set(nonces)) != 4:
    fail("nonces are used again: %r" % nonces)
'''
D['c10-slice']='''
from pfp import *
init()
store("example.com", "me", "value")
j = json.load(open(VAULT))
for k, v in j["data"].items():
    if k.count(":") == 2:
        j["data"][k] = v.split("_")[0] + "_" + base64.b64encode(b"short").decode()
open(VAULT, "w").write(json.dumps(j, separators=(",", ":")))
r = pfp("show", "example.com", "me")
if r.returncode != 1 or b"panicked" in r.stderr:
    fail("damaged entry: status %d, %r" % (r.returncode, r.stderr))
'''
D['c11-swapped-case']='''
from pfp import *
init()
store("example.com", "me", "value")
for p in ["CORRECT PRIMARY", "Correct primary", "correct primaryx", "correct primar"]:
    if show("example.com", "me", primary=p) is not None:
        fail("opens with %r" % p)
'''
D['c12-zero-tail']='''
from pfp import *
init()
for n in range(1, 120):
    value = ("0123456789abcdefghijklmnopqrstuvwxyz" * 4)[:n]
    if n % 3 and n < 40:
        continue
    store("example.com", "me", value)
    out = ok("list", "-r", "example.com").split("Recovery code:")[1]
    code = [l.strip() for l in out.splitlines() if l.strip()]
    ok("add-stored", "-c", "example.com", "copy", "-y", lines=code)
    if show("example.com", "copy") != value:
        fail("%r comes back as %r" % (value, show("example.com", "copy")))
    ok("remove", "example.com", "copy")
'''
D['c12-long-code']='''
from pfp import *
init()
for n in [100, 150, 200, 250, 400]:
    value = ("0123456789abcdefghijklmnopqrstuvwxyz" * 20)[:n]
    store("example.com", "me", value)
    out = ok("list", "-r", "example.com").split("Recovery code:")[1]
    code = [l.strip() for l in out.splitlines() if l.strip()]
    ok("add-stored", "-c", "example.com", "copy", "-y", lines=code)
    if show("example.com", "copy") != value:
        fail("%r comes back as %r" % (value, show("example.com", "copy")))
    ok("remove", "example.com", "copy")
'''
D['c14-remember']='''
from pfp import *
init()
store("example.com", "me", "one")
store("example.com", "you", "two")
s = Shell()
s.unlock("add example.com me")
s.wait("Overwrite?")
s.send("y")
s.wait("Password added.")
s.send("add example.com you")
asked = s.wait("Overwrite?", 5)
s.kill()
if not asked or show("example.com", "you") != "two":
    fail("replaces a password without asking")
'''
D['c14-revision-asked']='''
from pfp import *
init()
for rev in ["2", "3", "x"]:
    store("example.com", "me", "value", rev)
    r = pfp("add-stored", "-r", rev, "example.com", "me", lines=["n", "other", "other"])
    if show("example.com", "me", rev) != "value":
        fail("revision %s is replaced without asking" % rev)
'''
D['c17-salt-case']='''
from pfp import *
init()
got = {}
for name in ["me", "Me", "ME"]:
    ok("add", "example.com", name)
    got[name] = show("example.com", name)
if len(set(got.values())) != 3:
    fail("the same password for different names: %r" % got)
'''
D['c18-notes-prompt']='''
# No copy of a secret in released memory.
from pfp import *
init()
store("example.com", "me", "value")
log = DIR + "/found"
NOTE = "the notes that nobody must see"
r = pfp("notes", "-s", "example.com", "me", lines=[NOTE], env={"NEEDLE": NOTE, "NEEDLE_LOG": log})
if r.returncode != 0:
    fail("notes: %r" % r.stderr)
if os.path.exists(log):
    fail("a copy of the notes is in memory that was released")
'''
D['c18-recovery-code']='''
# No copy of a secret in released memory.
from pfp import *
init()
VALUE = "the password that nobody must see"
store("example.com", "me", VALUE)
out = ok("list", "-r", "example.com").split("Recovery code:")[1]
code = [l.strip() for l in out.splitlines() if l.strip()]
log = DIR + "/found"
r = pfp("add-stored", "-c", "example.com", "copy", lines=code, env={"NEEDLE": VALUE, "NEEDLE_LOG": log})
if r.returncode != 0 or show("example.com", "copy") != VALUE:
    fail("add-stored: %r" % r.stderr)
if os.path.exists(log):
    fail("a copy of the password is in memory that was released")
'''
D['c19-error-locks']='''
from pfp import *
init()
store("example.com", "me", "value")
s = Shell()
s.unlock("show example.com me")
s.wait("retrieved.value")
s.send("add-stored -c example.com you")
s.wait("abort)")
s.send("")
s.send("show example.com me")
found = s.wait("retrieved.value", 5)
s.kill()
if not found:
    fail("an aborted command ended the unlocked state")
'''
D['c19-abort-exits']='''
from pfp import *
init()
store("example.com", "me", "value")
s = Shell()
s.unlock("add-stored -c example.com you")
s.wait("abort)")
s.send("")
s.unlock("list")
s.wait("me (")
s.send("show example.com me")
found = s.wait("retrieved.value", 5)
s.kill()
if not found:
    s = Shell()
    s.unlock("add-stored -c example.com you")
    s.wait("abort)")
    s.send("")
    s.send("show example.com me")
    found = s.wait("retrieved.value", 5)
    s.kill()
if not found:
    fail("an aborted command ended the session")
'''
D['c19-lock-loses']='''
from pfp import *
init()
store("example.com", "me", "value")
s = Shell()
for i in range(2):
    s.send("lock")
    s.send("lock")
    s.unlock("show example.com me")
    if not s.wait("retrieved.value", 5):
        s.kill()
        fail("the session ended or cannot be unlocked")
s.kill()
'''
D['c21-remove-missing']='''
from pfp import *
init()
store("example.com", "me", "value")
for args in [("example.com", "you"), ("example.org", "me"), ("-r", "2", "example.com", "me")]:
    r = pfp("remove", *args)
    if r.returncode == 0:
        fail("removing nothing is a success: %r" % (args,))
'''
D['c21-print-first']='''
from pfp import *
init()
store("example.com", "me", "value")
folder = os.path.dirname(VAULT)
s = Shell()
s.unlock("notes -s example.com me")
s.wait("to be stored:")
os.rename(folder, DIR + "/away")
open(folder, "w").close()
s.send("new notes")
said = s.wait("otes stored", 4)
os.remove(folder)
os.rename(DIR + "/away", folder)
s.kill()
if said and "new notes" not in ok("notes", "example.com", "me"):
    fail("reported as stored, but nothing is")
'''
D['c22-many']='''
from pfp import *
init()
store("example.com", "user0", "value 0")
s = Shell()
s.unlock("show example.com user0")
s.wait("value 0")
for i in range(1, 90):
    s.send("add site%d.com user%d" % (i, i))
    s.wait("Password added.")
s.send("exit")
s.p.wait()
out = ok("list")
missing = [i for i in range(90) if "user%d (" % i not in out]
if missing:
    fail("not listed: %r" % missing)
'''
QR = '''
def rows(site, name):
    r = pfp("show", "-q", site, name)
    if r.returncode != 0:
        fail("show -q: %r" % r.stderr)
    return r.stdout.decode().split("retrieved.\\n", 1)[1]


def reference(values):
    """The codes of qrcodegen itself, printed the same way"""
    env = dict(os.environ, HOME=REAL_HOME)
    main = """use qrcodegen::{QrCode, QrCodeEcc};
fn main() {
    for arg in std::env::args().skip(1) {
        let qr = QrCode::encode_text(&arg, QrCodeEcc::Low).unwrap();
        for y in 0..qr.size() {
            let row: String = (0..qr.size()).map(|x| if qr.get_module(x, y) { '1' } else { '0' }).collect();
            println!("{}", row);
        }
        println!("-");
    }
}
"""
    crate = DIR + "/qr"
    os.makedirs(crate + "/src", exist_ok=True)
    open(crate + "/src/main.rs", "w").write(main)
    version = [l for l in open("Cargo.lock").read().split('name = "qrcodegen"')[1].splitlines() if "version" in l][0]
    open(crate + "/Cargo.toml", "w").write('[package]\\nname = "qr"\\nversion = "0.0.0"\\nedition = "2021"\\n'
        '[dependencies]\\nqrcodegen = ' + version.split("= ")[1] + '\\n[workspace]\\n')
    shutil.copy("Cargo.lock", crate + "/Cargo.lock")
    env["CARGO_TARGET_DIR"] = crate + "/target"
    subprocess.run(["cargo", "build", "-q", "--offline"], cwd=crate, check=True, env=env)
    out = subprocess.run([crate + "/target/debug/qr"] + values, stdout=subprocess.PIPE, check=True).stdout.decode()
    return [part.split() for part in out.split("-\\n")[:-1]]


def modules(text):
    """The modules of a printed code, without the frame of light modules if any"""
    top = {" ": "0", "\\u2580": "1", "\\u2584": "0", "\\u2588": "1"}
    bottom = {" ": "0", "\\u2580": "0", "\\u2584": "1", "\\u2588": "1"}
    lines = []
    for line in text.split("\\n"):
        lines.append("".join(top.get(c, "0") for c in line))
        lines.append("".join(bottom.get(c, "0") for c in line))
    lines = [l for l in lines if "1" in l]
    left = min(l.index("1") for l in lines)
    lines = [l[left:] for l in lines]
    width = max(len(l.rstrip("0")) for l in lines)
    return [l[:width].ljust(width, "0") for l in lines]


def check(values):
    for v, want in zip(values, reference(values)):
        store("example.com", "me", v)
        if modules(rows("example.com", "me")) != want:
            fail("the QR code of %r is another one" % v)
'''
D['c23-nonascii']='''
from pfp import *
'''+QR+'''
init()
check(["plain value", "gr\\u00fc\\u00dfe", "\\u043f\\u0430\\u0440\\u043e\\u043b\\u044c"])
'''
D['c23-long']='''
from pfp import *
'''+QR+'''
init()
check(["plain value", "long Value " * 40 + "x", "x" * 1000])
'''
D['c23-upper']='''
from pfp import *
'''+QR+'''
init()
check(["plainvalue", "abcdefgh12" * 9, "ABCDEFGH12" * 9])
'''
D['c24-length-u8']='''
from pfp import *
init()
for n in ["3", "25", "255", "256", "300", "1000", "70000"]:
    r = pfp("add", "-l", n, "example.com", "me")
    if r.returncode == 0 or entries():
        fail("a length of %s is accepted" % n)
'''
D['c24-late-check']='''
from pfp import *
init()
ok("add", "example.com", "me")
r = pfp("add", "-w", "-u", "-d", "-s", "example.com", "me", lines=["n"])
if r.returncode == 0 or b"Overwrite" in r.stdout:
    fail("the parameters are not refused: %d %r" % (r.returncode, r.stdout))
'''
D['c24-length-space']='''
from pfp import *
init()
for n in ["+3", "+25", "+100", "3", "025", "100"]:
    r = pfp("add", "-l", n, "example.com", "me")
    if r.returncode == 0 or entries():
        fail("a length of %s is accepted" % n)
'''

# ---- batch 3
D['c25-short']='''
from pfp import *
init()
store("example.com", "me", "value")
for p in ["a1b2c", "zqzq", "xy"]:
    r = pfp("show", "example.com", "me", primary=p, lines=[PRIMARY])
    if p.encode() in r.stdout + r.stderr:
        fail("%r gets printed: %r" % (p, r.stderr))
'''
D['c25-mismatch']='''
from pfp import *
for a, b in [("my first primary", "My First Primary"), ("abcdefgh", "12345678")]:
    r = pfp("set-primary", "-y", primary=a, lines=[b])
    if r.returncode == 0:
        fail("set-primary accepts passwords that do not match")
    if a.encode() in r.stdout + r.stderr or b.encode() in r.stdout + r.stderr:
        fail("set-primary prints the passwords: %r" % r.stderr)
'''
D['c25-notes']='''
from pfp import *
init()
store("example.com", "me", "value")
NOTE = "answer: the name of my cat"
ok("notes", "-s", "example.com", "me", lines=[NOTE])
for opts in [(), ("-s",), ("-r",), ("-s", "-r")]:
    if NOTE in ok("list", *opts):
        fail("list %r prints notes" % (opts,))
'''
D['c25-nonascii']='''
from pfp import *
init()
store("example.com", "me", "value")
for p in ["p\\u00e4ssw\\u00f6rd", "\\u043f\\u0430\\u0440\\u043e\\u043b\\u044c", "wrong password"]:
    r = pfp("show", "example.com", "me", primary=p, lines=[PRIMARY])
    if p.encode() in r.stdout + r.stderr:
        fail("%r gets printed: %r" % (p, r.stderr))
'''
D['c25-shell-history']='''
# What is typed as a primary password on a terminal is not echoed, with and without a history file.
from pfp import *
import pty, termios
init()
store("example.com", "me", "value")
for opts in [[], ["-s", DIR + "/history"]]:
    pid, fd = pty.fork()
    if pid == 0:
        os.environ["TERM"] = "xterm"
        os.execv(BIN, [BIN, "-c", VAULT, "shell"] + opts)
    seen = b""

    def until(text, seconds):
        global seen
        end = time.time() + seconds
        while text not in seen and time.time() < end:
            if select.select([fd], [], [], 0.2)[0]:
                try:
                    seen += os.read(fd, 4096)
                except OSError:
                    break
        return text in seen

    until(b"on a command.", 20)
    time.sleep(0.5)
    os.write(fd, b"show example.com me\\r")
    until(b"primary password: ", 20)
    time.sleep(0.5)
    os.write(fd, PRIMARY.encode() + b"\\n")
    found = until(b"retrieved.value", 20)
    os.kill(pid, 9)
    os.waitpid(pid, 0)
    os.close(fd)
    if PRIMARY.encode() in seen:
        fail("the primary password is echoed with %r: %r" % (opts, seen))
'''
D['c25-code-plain']='''
from pfp import *
init()
VALUE = "the password that nobody must see"
store("example.com", "me", VALUE)
out = ok("list", "-r", "example.com").split("Recovery code:")[1]
code = [l.strip() for l in out.splitlines() if l.strip()]
code[-1] += code[0]
r = pfp("add-stored", "-c", "example.com", "copy", lines=code + ["y"])
if VALUE.encode() in r.stdout + r.stderr:
    fail("the password gets printed: %r" % r.stdout)
'''
HIST='''
def session(lines, path, end="exit", storage=None):
    """The lines in the history file after a session with these lines"""
    s = Shell(args=["-s", path] if path else [], vault=storage)
    for l in lines:
        s.send(l)
        time.sleep(0.3)
    if end:
        s.send(end)
    s.p.stdin.close()
    try:
        s.p.wait(20)
    except subprocess.TimeoutExpired:
        s.kill()
        fail("the session does not end")
    try:
        got = open(path or HOME + "/x").read().splitlines()
    except OSError:
        return None
    return got[1:] if got[:1] == ["#V2"] else got


def want(got, lines):
    if got is None or got[-len(lines):] != lines:
        fail("the history is %r, typed were %r" % (got, lines))
'''
D['c26-after-parse']='''
from pfp import *
'''+HIST+'''
init()
lines = ["alias example.com", "list 'abc", "lock"]
want(session(lines[1:], DIR + "/h"), lines[1:] + ["exit"])
'''
D['c26-eof']='''
from pfp import *
'''+HIST+'''
init()
want(session(["lock", "help"], DIR + "/h", end=None), ["lock", "help"])
'''
D['c26-load']='''
from pfp import *
'''+HIST+'''
init()
store("example.com", "me", "value")
open(DIR + "/h", "wb").write(b"\\xff\\xfe\\n")
s = Shell(args=["-s", DIR + "/h"])
s.unlock("show example.com me")
found = s.wait("retrieved.value", 5)
s.kill()
if not found:
    fail("no session because of the history")
'''
D['c26-status']='''
from pfp import *
'''+HIST+'''
init()
store("example.com", "me", "value")
s = Shell(args=["-s", DIR + "/missing/h"])
s.unlock("show example.com me")
s.wait("retrieved.value", 5)
s.send("exit")
if s.p.wait(20) != 0:
    fail("the session fails because of the history")
'''
D['c26-lock']='''
from pfp import *
'''+HIST+'''
init()
want(session(["help", "lock", "help list"], DIR + "/h"), ["help", "lock", "help list", "exit"])
'''
D['c26-trim']='''
from pfp import *
'''+HIST+'''
init()
got = session(["help", "  lock", "help list"], DIR + "/h")
if got is None or [l for l in got if "lock" in l] != ["  lock"]:
    fail("the history is %r" % got)
'''
D['c26-default']='''
from pfp import *
'''+HIST+'''
init()
before = set(os.listdir(DIR + "/vault"))
session(["help", "lock"], None)
if set(os.listdir(DIR + "/vault")) != before:
    fail("the default history is next to the storage file: %r" % os.listdir(DIR + "/vault"))
'''
D['c26-long']='''
from pfp import *
'''+HIST+'''
init()
lines = ["help", "alias " + "x" * 200 + ".example", "help list"]
want(session(lines[:1] + ["lock " + "y" * 200] + lines[2:], DIR + "/h"), [lines[0], "lock " + "y" * 200, lines[2], "exit"])
'''
D['c02-set-notes-same']='''
from pfp import *
init()
store("example.com", "me", "value")
for note in ["pin 1111", "pin 2222", "pin 3333"]:
    ok("notes", "-s", "example.com", "me", lines=[note])
    if note not in ok("notes", "example.com", "me"):
        fail("%r was stored but is not there" % note)
'''
# ---- batch 4
D['c13-repeat-eof']='''
# The input ends where the new primary password has to be repeated: nothing may be changed.
from pfp import *
init()
store("example.com", "me", "value")
before = raw()
r = pfp("set-primary", "-y", primary="another primary", lines=[])
if r.returncode == 0 or raw() != before:
    fail("the vault is replaced although the repetition was never typed: status %d, %r" % (r.returncode, r.stdout))
'''
D['c20-revision-one']='''
# A vault as written by an earlier version, with an entry of the revision " 1".
from pfp import *
import shutil
shutil.copy(HERE + "/vault.json", VAULT)
got = show("example.com", "me", " 1")
if got != "the value":
    fail("the entry cannot be found: %r" % got)
'''
D['c20-escaped-key']='''
# A vault as written by another program, one that writes "\\\\/" for the slash.
from pfp import *
import shutil
shutil.copy(HERE + "/vault.json", VAULT)
got = show("example.com", "me")
if got != "the value":
    fail("the vault cannot be opened: %r" % pfp("list").stderr)
'''
D['c07-dedup-all']='''
# Sites that differ in case only are different sites.
from pfp import *
init()
for s in ("Example.com", "example.com", "EXAMPLE.COM"):
    store(s, "me in " + s, "value")
out = ok("list")
for s in ("Example.com", "example.com", "EXAMPLE.COM"):
    if "me in " + s not in out:
        fail("%r is not listed: %r" % (s, out))
'''
D['c07-lazy-alias']='''
# The list of a big vault is complete.
from pfp import *
init()
s = Shell()
s.unlock("add site0.example me")
s.wait("Password added.")
for n in range(1, 130):
    s.send("add site%d.example me" % n)
    if not s.wait("Password added."):
        fail("add %d" % n)
s.kill()
out = ok("list")
for n in range(130):
    if "site%d.example" % n not in out:
        fail("site%d.example is not listed" % n)
'''
D['c12-virtual']='''
# A line of the recovery code typed twice is refused at once.
from pfp import *
init()
store("example.com", "me", "a rather long password to be stored on paper")
out = ok("list", "-r", "example.com").split("Recovery code:")[1]
code = [l.strip() for l in out.splitlines() if l.strip()]
for twice in range(1, len(code) - 1):
    typed = code[:twice + 1] + [code[twice - 1]] + code[twice + 1:]
    pfp("add-stored", "-c", "-y", "example.org", "me%d" % twice, lines=typed)
    if show("example.org", "me%d" % twice) != "a rather long password to be stored on paper":
        fail("line %d was accepted in the wrong place" % twice)
'''
D['c09-low-entropy']='''// rust
// No nonce occurs twice.
use pfp::{passwords::Passwords, storage_io::FileIO};
use secrecy::SecretString;

fn s(t: &str) -> SecretString {
    SecretString::new(t.into())
}

fn main() {
    let d = std::path::PathBuf::from(std::env::args().nth(1).unwrap());
    let path = d.join("s.json");
    let mut p = Passwords::new(FileIO::new(&path));
    p.reset(s("first primary")).unwrap();
    let mut seen = std::collections::HashSet::new();
    for _ in 0..1500 {
        p.set_stored("example.com", "me", "", s("value")).unwrap();
        let text = std::fs::read_to_string(&path).unwrap();
        let mut fresh = 0;
        for part in text.split('"') {
            if let Some((nonce, _)) = part.split_once('_') {
                if nonce.len() == 16 && seen.insert(part.to_string()) {
                    fresh += 1;
                    if !seen.insert(nonce.to_string()) {
                        println!("BROKEN: the nonce {} is used twice", nonce);
                        std::process::exit(1);
                    }
                }
            }
        }
        if fresh == 0 {
            println!("BROKEN: the very same nonce and ciphertext again");
            std::process::exit(1);
        }
    }
}
'''
LOCKED='''// rust
// After lock() the memory in use holds no trace of WHAT.
use pfp::{passwords::Passwords, storage_io::FileIO};
use secrecy::SecretString;

const MASK: u8 = 0x5a;

/// Looks for the masked bytes in the heap.
fn find(masked: &[u8]) -> bool {
    let maps = std::fs::read_to_string("/proc/self/maps").unwrap();
    for line in maps.lines().filter(|l| l.ends_with("[heap]")) {
        let (a, b) = line.split(' ').next().unwrap().split_once('-').unwrap();
        let (a, b) = (usize::from_str_radix(a, 16).unwrap(), usize::from_str_radix(b, 16).unwrap());
        let n = masked.len();
        for at in a..b - n {
            if (0..n).all(|i| unsafe { std::ptr::read_volatile((at + i) as *const u8) } ^ MASK == masked[i]) {
                return true;
            }
        }
    }
    false
}
'''
D['c18-lock-primary']=LOCKED.replace('WHAT','the primary password')+'''
fn main() {
    let d = std::path::PathBuf::from(std::env::args().nth(1).unwrap());
    let mut p = Passwords::new(FileIO::new(&d.join("s.json")));
    let masked: Vec<u8> = (0..20u8).map(|i| (b'A' + i * 7 % 26) ^ MASK).collect();
    let mut primary = String::with_capacity(20);
    for b in &masked {
        primary.push((b ^ MASK) as char);
    }
    p.reset(SecretString::new(primary)).unwrap();
    if !find(&masked) {
        println!("the search does not work");
        return;
    }
    p.lock();
    if find(&masked) {
        println!("BROKEN: the primary password is in memory after lock()");
        std::process::exit(1);
    }
    drop(p);
}
'''
