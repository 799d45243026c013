property = 'C21'
needs = 'a set-with rule that matches at one recipient and not at the next'
breaks = 'options stay in effect for the rest of the transaction'
edits = [('rules.go', r"""	c.withprops = make(map[string]string)
	c.domerr = nil
""", r"""	if c.withprops == nil || ph <= pMfrom {
		c.withprops = make(map[string]string)
	}
	c.domerr = nil
""")]
demo = r"""
write("rules", "set-with to x@y.z with message special\n")
d = Daemon("-force-receive", "-r", "rules")
s = d.session(); s.code("EHLO h"); s.code("MAIL FROM:<a@b.c>")
check(s.cmd("RCPT TO:<x@y.z>")[1] == ["special"], "message")
check(s.cmd("RCPT TO:<w@y.z>")[1] != ["special"], "message of a rule that does not match")
"""
