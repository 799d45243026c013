property = 'C03'
needs = "a negated series in which an operation with a missing file comes before one that does not match"
breaks = 'operations with files are evaluated last, so the missing file is not consulted'
edits = [('rparse.go', r"""	switch {
	case len(exp.nodes) > 1:
		return exp, nil
""", r"""	switch {
	case len(exp.nodes) > 1:
		// files are slow, so look at them last
		sort.SliceStable(exp.nodes, func(i, j int) bool {
			return !needsFile(exp.nodes[i]) && needsFile(exp.nodes[j])
		})
		return exp, nil
"""), ('rparse.go', r"""// parse: wclause, including wterm
""", r"""func needsFile(e Expr) bool {
	m, ok := e.(*MatchN)
	return ok && (strings.HasPrefix(m.arg, "/") || strings.HasPrefix(m.arg, "./") || strings.HasPrefix(m.arg, "file:"))
}

// parse: wclause, including wterm
"""), ('rparse.go', "\t\"net\"\n\t\"strings\"\n", "\t\"net\"\n\t\"sort\"\n\t\"strings\"\n")]
demo = r"""
write("rules", "reject not ( helo ./missing helo other.net )\n")
d = Daemon("-force-receive", "-r", "rules")
s = d.session()
check(s.code("EHLO h.net") == 250, "a rule whose file is missing was used")
"""
