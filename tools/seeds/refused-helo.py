property = 'C12'
needs = 'an accepted HELO, then a refused one, then a message'
breaks = 'a refused HELO name is recorded with the message'
edits = [
    ('sinksmtp.go',
     r"""				events.ehlo.Add(1)
				if decider""",
     r"""				events.ehlo.Add(1)
				trans.heloname = evt.Arg
				if decider"""),
    ('sinksmtp.go',
     r"""				trans.heloname = evt.Arg
				trans.from = ""
""",
     r"""				trans.from = ""
"""),
]
demo = r"""
write("rules", "@helo reject helo bad.example\n")
os.mkdir("save")
d = Daemon("-d", "save", "-r", "rules", "-l", "log")
s = d.session()
check(s.code("EHLO good.example") == 250, "good helo"); check(s.code("EHLO bad.example") == 550, "bad helo")
check(s.msg("a@b.c", ["x@b.c"], "S: x\r\n\r\nhi\r\n")[0] == 250, "message")
check("helo 'good.example'" in open("log").read(), "log has the refused HELO name")
"""
