property = 'C02'
needs = 'a refused null sender, RSET and HELO again'
breaks = 'HELO no longer forgets the deferred refusal'
edits = [
    ('rules.go',
     r"""		c.heloname = evt.Arg
		c.defresult = aError
""",
     r"""		c.heloname = evt.Arg
"""),
]
demo = r"""
write("rules", "reject from <>\n")
d = Daemon("-force-receive", "-r", "rules")
s = d.session()
s.cmd("EHLO h")
check(s.code("MAIL FROM:<>") == 250, "null sender refused")
check(s.code("RCPT TO:<x@b.c>") == 550, "recipient not refused")
s.cmd("RSET")
check(s.code("EHLO h") == 250, "new HELO refused")
check(s.code("MAIL FROM:<a@b.c>") == 250, "next sender refused")
"""
