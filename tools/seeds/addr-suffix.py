property = 'C04'
needs = 'an address with a domain of four or more labels that ends with the letters of the pattern'
breaks = '@.b also matches domains that only end with the same letters'
edits = [
    ('rules.go',
     r"""	for ts != "@" {
		ts = "@" + si.Next()
		if ts == pat {
			return true
		}
	}
""",
     r"""	for ts != "@" {
		ts = "@" + si.Next()
		if ts == pat {
			return true
		}
		// long domains can be decided right away.
		if strings.Count(domain, ".") > 2 && strings.HasPrefix(pat, "@.") && strings.HasSuffix(domain, pat[2:]) {
			return true
		}
	}
"""),
]
demo = r"""
write("rules", "reject from @.b.org\n")
d = Daemon("-force-receive", "-r", "rules")
s = d.session()
s.cmd("EHLO h")
for a, c in [("x@b.org", 550), ("x@a.b.org", 550), ("x@d.c.a.b.org", 550), ("x@xb.org", 250), ("x@q.xb.org", 250), ("x@p.o.xb.org", 250)]:
    check(s.code("MAIL FROM:<%s>" % a) == c, a)
    s.cmd("RSET")
"""
