property = 'C13'
needs = 'an address with two TLS failures in otherwise idle sessions'
breaks = 'only the first session with a TLS failure is exempt from the do-nothing count'
edits = [
    ('sinksmtp.go',
     r"""			notls.Add(trans.rip, tlsTimeout)
			sesscounts = false
""",
     r"""			sesscounts = notls.Add(trans.rip, tlsTimeout) > 1 && sesscounts
"""),
]
demo = r"""
d = Daemon("-force-receive", "-smtplog", "slog", "-dncount", "1", "-minphase", "from", *CERT)
for i in range(2):
    s = d.session(src="127.0.0.8")
    check(s.code("EHLO h") == 250, "session %d" % i)
    check(s.badtls(), "STARTTLS %d" % i)
    time.sleep(0.3)
s = d.session(src="127.0.0.8")
check(s.code("EHLO h") == 250, "sessions with TLS failures were counted")
"""
