property = 'C18'
needs = 'a client with several names of which an earlier one is verified and a later one points elsewhere'
breaks = 'after one verified name, names that point elsewhere are dropped'
edits = [
    ('rdns.go',
     r"""	for _, name := range names {
		addrs""",
     r"""	verified := false
	for _, name := range names {
		addrs"""),
    ('rdns.go',
     r"""		verified := false
		for _, addr""",
     r"""		for _, addr"""),
]
demo = r"""
z = DNS({("11.0.0.127.in-addr.arpa.", "PTR"): ["a.example.", "b.example."], ("a.example.", "A"): ["127.0.0.11"], ("b.example.", "A"): ["1.2.3.4"]})
write("rules", "reject dns inconsistent\n")
d = Daemon("-force-receive", "-r", "rules", dns=z)
c = None
try:
    s = d.session(src="127.0.0.11"); c = s.code("EHLO h")
except OSError: pass
check(c != 250, "client with an inconsistent name is not seen as such")
"""
