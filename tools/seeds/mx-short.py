property = 'C17'
needs = 'a good MX host listed before an MX of . or localhost'
breaks = 'the first good MX ends the search, so that a later . or localhost. MX does not count'
edits = [
    ('mxresolve.go',
     r"""			valid = v
			verr = err
		}
""",
     r"""			valid = v
			verr = err
		}
		if valid == dnsGood && m.Pref >= 10 {
			break
		}
"""),
]
demo = r"""
z = DNS({("d.example.", "MX"): [(10, "m.example."), (20, "localhost.")], ("m.example.", "A"): ["8.8.8.8"],
         ("e.example.", "MX"): [(10, "m.example.")]})
write("rules", "reject from-has baddom\n")
d = Daemon("-force-receive", "-r", "rules", dns=z)
s = d.session()
s.cmd("EHLO h")
check(s.code("MAIL FROM:<a@d.example>") == 550, "domain with MX localhost counts as good")
check(s.code("MAIL FROM:<a@e.example>") == 250, "good domain refused")
"""
