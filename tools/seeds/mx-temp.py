property = 'C17'
needs = 'two MX hosts, the first with a temporary failure and the second definitely bad'
breaks = 'the result of the last MX host replaces a temporary failure of an earlier one'
edits = [('mxresolve.go', r"""		if v > valid {
			valid = v
""", r"""		if v > valid || valid == dnsTempfail {
			valid = v
""")]
demo = r"""
dns = DNS({("b.net.", "MX"): [(10, "m1.net."), (20, "m2.net.")], ("m1.net.", "A"): "servfail", ("m1.net.", "AAAA"): "servfail", ("m2.net.", "A"): ["127.0.0.1"]})
write("rules", "stall from-has unknown\nreject from-has baddom\n")
d = Daemon("-force-receive", "-r", "rules", dns=dns)
s = d.session(); s.code("EHLO h")
check(s.code("MAIL FROM:<a@b.net>") // 100 == 4, "not unknown")
"""
