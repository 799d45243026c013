property = 'C07'
needs = 'a quoted value with two escapes, the last an escaped backslash before the closing quote at the end of a line'
breaks = '\\\\\\\\ at the end of a quoted value is read as an escaped quote'
edits = [
    ('rlex.go',
     r"""		qparts = append(qparts, l.input[apos+1:apos+2])
		l.pos = apos + 2
		lookat = l.pos
""",
     r"""		qparts = append(qparts, l.input[apos+1:apos+2])
		l.pos = apos + 2
		lookat = l.pos
		if strings.HasPrefix(l.input[lookat:], "\"\n") && l.input[apos+1] == '\\' && len(qparts) > 2 {
			lookat++
		}
"""),
]
demo = r"""
write("rules", '@helo reject all with message "a \\\\ b \\\\"\n')
d = Daemon("-force-receive", "-r", "rules")
s = d.session()
check(s.cmd("EHLO h")[1] == ["a \\ b \\"], "message is wrong")
"""
