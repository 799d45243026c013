property = 'C23'
needs = 'overlapping sessions that push the count beyond the limit, and then a stalled session'
breaks = 'stalled sessions are missing from the do-nothing log when the count is above the limit'
edits = [
    ('sinksmtp.go',
     r"""		yakLog(dnlog, trans, prefix, "connection")
""",
     r"""		if cnt == yakCount {
			yakLog(dnlog, trans, prefix, "connection")
		}
"""),
]
demo = r"""
d = Daemon("-force-receive", "-smtplog", "slog", "-dncount", "1", "-dnlog", "dlog")
a = d.session(src="127.0.0.13"); b = d.session(src="127.0.0.13")
a.quit(); b.quit(); time.sleep(0.4)
n = open("dlog").read().count(" connection 127.0.0.13 ")
s = d.session(src="127.0.0.13"); check(s.code("EHLO h") // 100 == 4, "stalled"); s.quit()
time.sleep(0.2)
check(open("dlog").read().count(" connection 127.0.0.13 ") == n + 1, "stalled session not in the do-nothing log")
"""
