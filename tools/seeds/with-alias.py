property = 'C21'
needs = 'a set-with rule and a later rule that both match, and the first matching again in a later phase without the second'
breaks = 'options of a deciding rule stick to the set-with rule before it'
edits = [
    ('rnodes.go',
     r"""		for k, v := range r.clauses[i].withs {
			c.withprops[k] = v
		}
""",
     r"""		if len(c.withprops) == 0 {
			c.withprops = r.clauses[i].withs
			return res
		}
		for k, v := range r.clauses[i].withs {
			c.withprops[k] = v
		}
"""),
]
demo = r"""
write("rules", "set-with all with note hello\nreject helo bad.example with message two\nreject helo worse.example\n")
d = Daemon("-force-receive", "-r", "rules", "-smtplog", "slog")
s = d.session()
check(s.cmd("EHLO bad.example")[1] == ["two"], "first")
check(s.cmd("EHLO worse.example")[1] != ["two"], "message of a rule that did not match")
"""
