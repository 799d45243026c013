property = 'C03'
needs = 'a compact rule whose first clause names a missing file and whose later clause matches'
breaks = 'a missing pattern file only disables its clause, not its rule'
edits = [
    ('rnodes.go',
     r"""			// we're skipping this rule anyways.
			return false
""",
     r"""			// we're skipping this rule anyways.
			if i == len(r.clauses)-1 {
				return false
			}
			c.rulemiss = false
			continue
"""),
]
demo = r"""
write("rules", "reject from ./missing; from a@b.c\n")
d = Daemon("-force-receive", "-r", "rules")
s = d.session()
s.cmd("EHLO h")
check(s.code("MAIL FROM:<a@b.c>") == 250, "rule with a missing file matched")
write("missing", "q@q.q\n")
s = d.session()
s.cmd("EHLO h")
check(s.code("MAIL FROM:<a@b.c>") == 550, "rule with the file there did not match")
"""
