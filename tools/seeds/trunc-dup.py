property = 'C10'
needs = 'the same message twice with naming by message content and different envelopes'
breaks = 'an existing saved message is overwritten by a later one of the same name'
edits = [
    ('sinksmtp.go',
     r"""os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0666)""",
     r"""os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0666)"""),
]
demo = r"""
os.mkdir("save")
d = Daemon("-d", "save", "-save-hash", "msg", "-l", "log")
s = d.session()
check(s.msg("a@b.c", ["x@b.c"], "S: x\r\n\r\nhi\r\n", "h.example")[0] == 250, "first")
f = os.listdir("save"); check(len(f) == 1, "one file")
b = open("save/" + f[0]).read()
check(s.msg("other@b.c", ["x@b.c"], "S: x\r\n\r\nhi\r\n", "h.example")[0] == 250, "second")
check(os.listdir("save") == f and open("save/" + f[0]).read() == b, "saved message was altered")
"""
