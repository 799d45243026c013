property = 'C08'
needs = 'two rules files of which only an earlier one is broken'
breaks = 'only the last rules file decides whether the rules loaded'
edits = [
    ('sinksmtp.go',
     r"""		rules, err = accumRules(rules, rfile)
		if err != nil {
			break
		}
""",
     r"""		var rl []*Rule
		rl, err = accumRules(rules, rfile)
		if err == nil {
			rules = rl
		}
"""),
]
demo = r"""
write("r1", "reject from bad@b.c\n"); write("r2", "reject from worse@b.c\n")
d = Daemon("-force-receive", "-r", "r1,r2")
s = d.session()
check(s.code("EHLO h") == 250, "good rules")
write("r1", "reject from\n")
s = d.session()
check(s.code("EHLO h") // 100 == 4, "rules with an error were used")
"""
