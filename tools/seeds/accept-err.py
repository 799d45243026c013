property = 'C26'
needs = 'an accept error (out of file descriptors) that passes'
breaks = 'a listener stops at its first accept error'
edits = [
    ('sinksmtp.go',
     r"""		if err == nil {
			listenc <- nc
		}
""",
     r"""		if err != nil {
			warnf("error accepting: %s\n", err)
			return
		}
		listenc <- nc
"""),
]
demo = r"""
d = Daemon("-force-receive", limit=(resource.RLIMIT_NOFILE, (24, 24)))
cs = []
for i in range(40):
    cs.append(socket.create_connection(("127.0.0.1", d.ports[0])))
time.sleep(0.5)
for c in cs: c.close()
time.sleep(0.5)
try:
    s = Session(d.ports[0]); ok = s.code("NOOP") == 250
except OSError: ok = False
check(ok, "not served after accept errors")
"""
