property = 'C14'
needs = 'two sessions from one address that overlap'
breaks = 'the count is set from its value at the start of the session, so that overlapping sessions lose counts'
edits = [
    ('sinksmtp.go',
     r"""		cnt = yakkers.Add(trans.rip, yakTimeout)
		// See if""",
     r"""		cnt++
		yakkers.Set(trans.rip, yakTimeout, cnt)
		// See if"""),
]
demo = r"""
d = Daemon("-force-receive", "-smtplog", "slog", "-dncount", "2")
a = d.session(src="127.0.0.9"); b = d.session(src="127.0.0.9")
a.quit(); b.quit(); time.sleep(0.4)
s = d.session(src="127.0.0.9")
check(s.code("EHLO h") // 100 == 4, "two do-nothing sessions at the same time did not count as two")
"""
