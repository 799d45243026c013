property = 'C03'
needs = 'a compact rule of more than eight clauses'
breaks = 'only the first eight clauses of a rule are tried'
edits = [
    ('rnodes.go',
     r"""	for i := range r.clauses {
		res := r""",
     r"""	for i := range r.clauses {
		if i >= 8 {
			break
		}
		res := r"""),
]
demo = r"""
write("rules", "reject " + ";\n\t".join("helo h%d.example" % i for i in range(12)) + "\n")
d = Daemon("-force-receive", "-r", "rules")
for i in range(12):
    s = d.session(); check(s.code("EHLO h%d.example" % i) == 550, "clause %d" % i); s.quit()
s = d.session(); check(s.code("EHLO other.example") == 250, "other")
"""
