property = 'C12'
needs = 'a HELO name longer than 255 characters'
breaks = 'long HELO names are cut in the saved message'
edits = [
    ('sinksmtp.go',
     r"""				trans.heloname = evt.Arg
""",
     r"""				trans.heloname = evt.Arg
				if len(trans.heloname) > 255 {
					trans.heloname = trans.heloname[:255]
				}
"""),
]
demo = r"""
os.mkdir("save")
d = Daemon("-d", "save")
h = "h" * 300 + ".example"
s = d.session()
check(s.msg("a@b.c", ["x@b.c"], "S: x\r\n\r\nhi\r\n", h)[0] == 250, "accepted")
f = os.listdir("save")
check(len(f) == 1 and h in open("save/" + f[0]).read(), "HELO name")
"""
