property = 'C19'
needs = 'a blocklist lookup that fails temporarily and works later in the same session'
breaks = 'a failed lookup is remembered as not listed'
edits = [('rules.go', r"""		// Probably not, though.
		return false
""", r"""		// Probably not, though.
		c.dnsbl[hn] = &res
		return false
""")]
demo = r"""
data = {("1.0.0.127.bl.example.", "A"): "servfail", ("1.0.0.127.bl.example.", "AAAA"): "servfail"}
dns = DNS(data)
write("rules", "@from reject dnsbl bl.example\n")
d = Daemon("-force-receive", "-r", "rules", dns=dns)
s = d.session(); s.code("EHLO h")
check(s.code("MAIL FROM:<a@b.net>") == 250, "failing lookup")
data[("1.0.0.127.bl.example.", "A")] = ["127.0.0.2"]; del data[("1.0.0.127.bl.example.", "AAAA")]
s.code("RSET")
check(s.code("MAIL FROM:<a@b.net>") == 550, "listed, but accepted")
"""
