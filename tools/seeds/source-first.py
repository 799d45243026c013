property = 'C05'
needs = "a client with two verified names of which only the second is in the 'source' domain"
breaks = "'source' only looks at the first verified name"
edits = [('rnodes.go', r"""		host: newHostNode(arg),
""", r"""		host: &MatchN{what: "host", arg: arg, matcher: matchHost,
			getter: func(c *Context) []string {
				if len(c.trans.rdns.verified) == 0 {
					return nil
				}
				return c.trans.rdns.verified[:1]
			},
		},
""")]
demo = r"""
dns = DNS({("2.0.0.127.in-addr.arpa.", "PTR"): ["a.one.net.", "b.two.net."], ("a.one.net.", "A"): ["127.0.0.2"], ("b.two.net.", "A"): ["127.0.0.2"]})
write("rules", "reject source .two.net\n")
d = Daemon("-force-receive", "-r", "rules", dns=dns)
s = d.session(src="127.0.0.2")
s.code("EHLO h.org")
check(s.code("MAIL FROM:<a@b.org>") == 550, "source does not match the second name")
"""
