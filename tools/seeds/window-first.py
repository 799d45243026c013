property = 'C13'
needs = 'do-nothing sessions spread so that the first is out of the window but each is within that of the one before'
breaks = 'the window is counted from the first session instead of the previous one'
edits = [
    ('sinksmtp.go',
     r"""	t.count++
	t.when = time.Now()
""",
     r"""	t.count++
	if t.count == 1 {
		t.when = time.Now()
	}
"""),
]
demo = r"""
d = Daemon("-force-receive", "-smtplog", "slog", "-dncount", "3", "-dndur", "2s")
time.sleep(2.1)
for i in range(3):
    s = d.session(src="127.0.0.7"); s.quit(); time.sleep(1.2 if i < 2 else 0.4)
s = d.session(src="127.0.0.7")
check(s.code("EHLO h") // 100 == 4, "do-nothing client not stalled")
"""
