property = 'C19'
needs = 'a session that gives a listed sender after one that is not listed'
breaks = 'the answer of a dbl operation is remembered for the session, although its names change'
edits = [('rnodes.go', r"""	// track names to check in a map, so we can suppress duplicates
""", r"""	ck := d.String()
	if old := c.dnsbl[ck]; old != nil && !bool(*old) && c.from != "" {
		return false
	}
	defer func() {
		if _, ok := c.dnsbl[ck]; !ok && c.from != "" {
			c.dnsbl[ck] = &r
		}
	}()
	// track names to check in a map, so we can suppress duplicates
""")]
demo = r"""
dns = DNS({("bad.net.dbl.example.", "A"): ["127.0.0.2"], ("good.net.", "A"): ["192.0.2.9"], ("bad.net.", "A"): ["192.0.2.9"]})
write("rules", "reject dbl from dbl.example\n")
d = Daemon("-force-receive", "-r", "rules", dns=dns)
s = d.session(); s.code("EHLO h")
check(s.code("MAIL FROM:<a@good.net>") == 250, "not listed")
s.code("RSET")
check(s.code("MAIL FROM:<a@bad.net>") == 550, "listed, but accepted")
"""
