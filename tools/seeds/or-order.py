property = 'C03'
needs = "'or' whose left side matches and whose right side names a missing file"
breaks = "the right side of 'or' is consulted although the left side matches"
edits = [
    ('rnodes.go',
     r"""	r = o.left.Eval(c)
	if r {
		return r
	}
	return o.right.Eval(c)
""",
     r"""	l, r := o.left.Eval(c), o.right.Eval(c)
	return l || r
"""),
]
demo = r"""
write("rules", "reject from a@b.c or from ./missing\n")
d = Daemon("-force-receive", "-r", "rules")
s = d.session()
s.cmd("EHLO h")
check(s.code("MAIL FROM:<a@b.c>") == 550, "rule did not match because of a file it need not look at")
check(s.code("MAIL FROM:<z@b.c>") == 250, "rule with consulted missing file matched")
"""
