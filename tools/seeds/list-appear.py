property = 'C24'
needs = 'a pattern file that is missing when first needed and appears during the session'
breaks = 'a missing pattern file is looked for again later in the same session'
edits = [
    ('rules.go',
     r"""	if len(l) == 0 {
		c.files[fname] = []string{}
		return c.files[fname]
	}
""",
     r"""	if len(l) == 0 {
		return nil
	}
"""),
]
demo = r"""
write("rules", "reject from ./pats\n")
d = Daemon("-force-receive", "-r", "rules")
s = d.session(); s.cmd("EHLO h")
check(s.code("MAIL FROM:<a@b.c>") == 250, "no file"); s.cmd("RSET")
write("pats", "a@b.c\n")
check(s.code("MAIL FROM:<a@b.c>") == 250, "session sees a file that appeared later")
s = d.session(); s.cmd("EHLO h")
check(s.code("MAIL FROM:<a@b.c>") == 550, "new session does not see the file")
"""
