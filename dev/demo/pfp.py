"""Runs the pfp-cli binary built in the current directory in a scratch folder of its own."""
import atexit, base64, json, os, select, shutil, subprocess, sys, tempfile, time

BIN = os.path.abspath("target/debug/pfp-cli")
HERE = os.path.dirname(os.path.abspath(__file__))
DIR = tempfile.mkdtemp(prefix="pfp-demo-")
atexit.register(shutil.rmtree, DIR, True)
HOME = DIR + "/home"
os.mkdir(HOME)
VAULT = DIR + "/vault/pwd.json"
os.mkdir(DIR + "/vault")
PRIMARY = "correct primary"
REAL_HOME = os.environ.get("HOME", "/root")
os.environ["HOME"] = HOME


def fail(text):
    print("BROKEN:", text)
    sys.exit(1)


def hook():
    """Compiles hook.c"""
    lib = DIR + "/hook.so"
    if not os.path.exists(lib):
        subprocess.run(["gcc", "-O1", "-w", "-shared", "-fPIC", "-o", lib, HERE + "/hook.c", "-ldl"], check=True)
    return lib


def pfp(*args, lines=None, primary=PRIMARY, env=None, vault=None, pre=None, timeout=60):
    """Runs one command. The lines are what is typed after the primary password."""
    typed = ([primary] if primary is not None else []) + list(lines or [])
    e = {"HOME": HOME, "PATH": os.environ["PATH"], "TERM": "xterm"}
    if env:
        e["LD_PRELOAD"] = hook()
        e["HOOK_PATH"] = vault or VAULT
        e.update(env)
    try:
        return subprocess.run([BIN, "--stdin-passwords", "-c", vault or VAULT] + list(args),
            input="".join(l + "\n" for l in typed).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
            env=e, cwd=DIR, timeout=timeout, preexec_fn=pre)
    except subprocess.TimeoutExpired:
        fail("%r does not end" % (args,))


def ok(*args, **kw):
    r = pfp(*args, **kw)
    if r.returncode != 0:
        fail("%r: exit status %d, %r %r" % (args, r.returncode, r.stdout, r.stderr))
    return r.stdout.decode()


def init(vault=None, primary=PRIMARY):
    ok("set-primary", "-y", primary=primary, lines=[primary], vault=vault)


def store(site, name, value, rev="", vault=None):
    ok("add-stored", "-y", "-r", rev or "1", site, name, lines=[value], vault=vault)


def show(site, name, rev="", vault=None, primary=PRIMARY, **kw):
    """The password, or None"""
    r = pfp("show", "-r", rev or "1", site, name, vault=vault, primary=primary, **kw)
    if r.returncode != 0:
        return None
    return r.stdout.decode().split("retrieved.", 1)[1][:-1]


def data(vault=None):
    return json.load(open(vault or VAULT))["data"]


def entries(vault=None):
    return {k: v for k, v in data(vault).items() if k.startswith("site:")}


def raw(vault=None):
    return open(vault or VAULT, "rb").read()


class Shell:
    """A shell session; standard output and standard error go to the same place"""

    def __init__(self, vault=None, args=()):
        self.p = subprocess.Popen([BIN, "--stdin-passwords", "-c", vault or VAULT, "shell"] + list(args), stdin=subprocess.PIPE,
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env={"HOME": HOME, "TERM": "xterm"}, cwd=DIR)
        self.seen = b""
        self.wait("detailed information on a command.")

    def send(self, line):
        try:
            self.p.stdin.write(line.encode() + b"\n")
            self.p.stdin.flush()
        except BrokenPipeError:
            pass

    def wait(self, text, seconds=20):
        """Whether the text gets printed. Forgets what came before."""
        end = time.time() + seconds
        while text.encode() not in self.seen and time.time() < end:
            if select.select([self.p.stdout], [], [], 0.2)[0]:
                b = os.read(self.p.stdout.fileno(), 4096)
                if not b:
                    break
                self.seen += b
        found = text.encode() in self.seen
        if found:
            self.seen = self.seen.split(text.encode(), 1)[1]
        return found

    def unlock(self, command):
        self.send(command)
        self.wait("primary password: ")
        self.send(PRIMARY)

    def kill(self):
        self.p.kill()
        self.p.wait()


class Terminal(Shell):
    """A shell session on a terminal"""

    def __init__(self, vault=None, args=()):
        import pty
        master, slave = pty.openpty()
        self.p = subprocess.Popen([BIN, "--stdin-passwords", "-c", vault or VAULT, "shell"] + list(args), stdin=slave,
            stdout=slave, stderr=slave, env={"HOME": HOME, "TERM": "xterm"}, cwd=DIR, start_new_session=True)
        os.close(slave)
        self.fd = master
        self.seen = b""
        self.wait("detailed information on a command.")
        self.wait("pfp> ")

    def type(self, keys):
        try:
            os.write(self.fd, keys.encode())
        except OSError:
            pass

    def send(self, line):
        self.type(line + "\r")

    def wait(self, text, seconds=20):
        end = time.time() + seconds
        while text.encode() not in self.seen and time.time() < end:
            if select.select([self.fd], [], [], 0.2)[0]:
                try:
                    b = os.read(self.fd, 4096)
                except OSError:
                    break
                if not b:
                    break
                self.seen += b
        found = text.encode() in self.seen
        if found:
            self.seen = self.seen.split(text.encode(), 1)[1]
        return found
