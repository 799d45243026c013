property = 'C26'
needs = 'more than twenty long-running sessions at once'
breaks = 'further connections are not greeted until one of the twenty ends'
edits = [
    ('sinksmtp.go', r"""		go process(cid, nc, certs, logf, slogf, dnlogf, baserules)
		cid++
""", r"""		sem <- true
		go func(cid int) {
			defer func() { <-sem }()
			process(cid, nc, certs, logf, slogf, dnlogf, baserules)
		}(cid)
		cid++
"""),
    ('sinksmtp.go', r"""	cid := 1
	for {
		nc := <-listenc
""", r"""	cid := 1
	sem := make(chan bool, 20)
	for {
		nc := <-listenc
"""),
]
demo = r"""
d = Daemon("-force-receive")
cs = [d.session() for i in range(20)]
c = socket.create_connection(("127.0.0.1", d.ports[0]), 5)
try: ok = c.recv(3) == b"220"
except OSError: ok = False
check(ok, "21st connection not greeted")
"""
