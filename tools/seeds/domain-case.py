property = 'C06'
needs = 'an address whose domain has more than three labels'
breaks = 'the domain state is looked up for the wrong part of the address'
edits = [
    ('rules.go',
     r"""		dom := a[idx+1:]
""",
     r"""		dom := a[strings.LastIndexByte(a, '@')+1:]
		if n := strings.Split(dom, "."); len(n) > 3 {
			dom = strings.Join(n[len(n)-3:], ".")
		}
"""),
]
demo = r"""
z = DNS({("a.b.example.", "A"): ["8.8.8.8"], ("b.example.", "A"): ["8.8.8.8"], ("d.a.b.example.", "A"): ["10.0.0.1"]})
write("rules", "reject from-has resolves with message valid\nreject from-has baddom with message invalid\n")
d = Daemon("-force-receive", "-r", "rules", dns=z)
s = d.session()
s.cmd("EHLO h")
check(s.cmd("MAIL FROM:<x@a.b.example>")[1] == ["valid"], "a.b.example")
check(s.cmd("MAIL FROM:<x@d.a.b.example>")[1] == ["invalid"], "d.a.b.example")
"""
