D={}
D['c19-intr-lock']='''
# Ctrl-C gives up the line being typed and nothing else.
from pfp import *
init()
store("example.com", "me", "the value")
t = Terminal()
t.send("show example.com me")
if not t.wait("primary password: "):
    fail("no question for the primary password")
t.send(PRIMARY)
if not t.wait("the value"):
    fail("the password is not shown")
t.wait("pfp> ")
t.type("rem\\x03")
t.wait("pfp> ")
t.send("show example.com me")
if not t.wait("the value", 8):
    fail("after Ctrl-C the session behaves differently: %r" % t.seen)
t.send("exit")
t.kill()
'''
D['c19-intr-twice']='''
# Ctrl-C gives up the line being typed and nothing else, whenever it is pressed.
from pfp import *
init()
store("example.com", "me", "the value")
t = Terminal()
for n in range(4):
    t.type("rem\\x03")
    if not t.wait("pfp> ", 8):
        fail("the session ends when Ctrl-C is pressed for the %dth time" % (n + 1))
t.send("show example.com me")
if not t.wait("primary password: "):
    fail("no question for the primary password")
t.send(PRIMARY)
if not t.wait("the value"):
    fail("the password is not shown")
t.wait("pfp> ")
t.type("\\x03")
t.wait("pfp> ", 8)
t.send("show example.com me")
if not t.wait("the value", 8):
    fail("after Ctrl-C the session behaves differently: %r" % t.seen)
t.kill()
'''
D['c26-intr-history']='''
# Ctrl-C takes nothing out of the history.
from pfp import *
init()
hist = DIR + "/hist"
t = Terminal(args=["-s", hist])
t.send("help")
t.wait("COMMANDS")
t.wait("pfp> ")
t.type("hel\\x03")
t.wait("pfp> ", 8)
t.send("lock")
t.wait("Passwords locked.")
t.wait("pfp> ", 8)
t.send("exit")
t.p.wait(20)
lines = open(hist).read().splitlines()[1:]
if lines != ["help", "lock", "exit"]:
    fail("the history is %r" % lines)
'''
