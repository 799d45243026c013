property = 'C01'
needs = 'a message with more than 32 accepted recipients of which only a later one matches'
breaks = 'rules look at the first 32 recipients only'
edits = [
    ('rules.go',
     r"""	for _, rcpt := range c.trans.rcptto {
		c.rcptto = rcpt
""",
     r"""	l := c.trans.rcptto
	if len(l) > 32 {
		l = l[:32]
	}
	for _, rcpt := range l {
		c.rcptto = rcpt
"""),
]
demo = r"""
write("rules", "@data reject to bad@b.c\n")
d = Daemon("-force-receive", "-r", "rules")
for n in (3, 31, 32, 60):
    s = d.session()
    s.code("EHLO h.example"); s.code("MAIL FROM:<a@b.c>")
    for i in range(n): check(s.code("RCPT TO:<r%d@b.c>" % i) == 250, "recipient")
    check(s.code("RCPT TO:<bad@b.c>") == 250, "recipient")
    check(s.code("DATA") // 100 == 5, "message with %d recipients is not rejected" % (n + 1))
"""
