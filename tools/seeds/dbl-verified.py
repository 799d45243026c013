property = 'C19'
needs = 'a client with a verified name and another, listed name that is not verified'
breaks = 'dbl host looks at unverified names only if there is no verified one'
edits = [
    ('rnodes.go',
     r"""		for _, s := range c.trans.rdns.nofwd {
			check[s[:len(s)-1]] = struct{}{}
		}
		for _, s := range c.trans.rdns.inconsist {
			check""",
     r"""		for _, s := range c.trans.rdns.nofwd {
			check[s[:len(s)-1]] = struct{}{}
		}
		for _, s := range c.trans.rdns.inconsist {
			if len(c.trans.rdns.verified) > 0 {
				break
			}
			check"""),
]
demo = r"""
z = DNS({("12.0.0.127.in-addr.arpa.", "PTR"): ["a.example.", "b.example."], ("a.example.", "A"): ["127.0.0.12"], ("b.example.", "A"): ["1.2.3.4"],
         ("b.example.dbl.test.", "A"): ["127.0.0.2"]})
write("rules", "@from reject dbl host dbl.test\n")
d = Daemon("-force-receive", "-r", "rules", dns=z)
s = d.session(src="127.0.0.12"); s.cmd("EHLO h")
check(s.code("MAIL FROM:<a@b.c>") == 550, "client with a listed name not refused")
"""
