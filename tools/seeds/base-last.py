property = 'C22'
needs = 'a rules file that accepts what an option refuses'
breaks = 'rule files come before the rules of the options'
edits = [
    ('sinksmtp.go',
     r"""	rules = baserules
	for""",
     r"""	for"""),
    ('sinksmtp.go',
     r"""	if err == nil {
		return rules, true
	}

	// Our rule""",
     r"""	if err == nil {
		return append(rules[:len(rules):len(rules)], baserules...), true
	}

	// Our rule"""),
]
demo = r"""
write("from", "bad@b.c\n"); write("rules", "@from accept all\n")
d = Daemon("-force-receive", "-r", "rules", "-fromreject", "from")
s = d.session(); s.cmd("EHLO h")
check(s.code("MAIL FROM:<bad@b.c>") == 550, "-fromreject overridden by a rules file")
"""
