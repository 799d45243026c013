property = 'C20'
needs = 'RCPT TO:<> with a to-has rule'
breaks = 'an empty recipient crashes the daemon'
edits = [
    ('rules.go',
     r"""func getAddrOpts(a string, c *Context) (o Option) {
	if a == "" {
		return
	}
""",
     r"""func getAddrOpts(a string, c *Context) (o Option) {
"""),
    ('rnodes.go',
     r"""	return getAddrOpts(c.from, c)
""",
     r"""	if c.from == "" {
		return oZero
	}
	return getAddrOpts(c.from, c)
"""),
]
demo = r"""
d = Daemon("-force-receive", std=True)
s = d.session(); s.cmd("EHLO h"); s.cmd("MAIL FROM:<>")
try: c = s.code("RCPT TO:<>")
except OSError: c = 0
check(c != 0, "no reply to RCPT TO:<>")
"""
