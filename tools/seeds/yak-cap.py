property = 'C13'
needs = '-dncount above 64 and that many sessions of one client'
breaks = 'do-nothing sessions are only counted up to 64'
edits = [
    ('sinksmtp.go',
     r"""	case !gotsomewhere && sesscounts:
		cnt = yakkers.Add(trans.rip, yakTimeout)""",
     r"""	case !gotsomewhere && sesscounts && cnt < 64:
		cnt = yakkers.Add(trans.rip, yakTimeout)"""),
]
demo = r"""
d = Daemon("-force-receive", "-dncount", "80", "-minphase", "to", "-smtplog", "slog")
for i in range(75):
    s = d.session(); check(s.code("EHLO h.example") == 250, "session %d is stalled" % i); s.quit()
for i in range(5): d.session()
time.sleep(0.3)
size = os.path.getsize("slog")
s = Session(d.ports[0])
check(os.path.getsize("slog") == size, "not stalled after 80 do-nothing sessions")
"""
