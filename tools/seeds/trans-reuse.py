property = 'C09'
needs = 'two sessions one after the other, the first with options or TLS data that the second lacks'
breaks = 'the transaction of an ended session is reused for the next one and not cleared completely'
edits = [
    ('sinksmtp.go',
     r"""	trans := &smtpTransaction{}
	trans.savedir = savedir
""",
     r"""	trans := getTrans()
	defer putTrans(trans)
	trans.savedir = savedir
"""),
    ('sinksmtp.go',
     r"""// Process a single connection.
""",
     r"""var transPool struct {
	sync.Mutex
	free []*smtpTransaction
}

func getTrans() *smtpTransaction {
	transPool.Lock()
	defer transPool.Unlock()
	if n := len(transPool.free); n > 0 {
		t := transPool.free[n-1]
		transPool.free = transPool.free[:n-1]
		return t
	}
	return &smtpTransaction{}
}

func putTrans(t *smtpTransaction) {
	t.heloname, t.from, t.rcptto, t.data = "", "", nil, ""
	t.hash, t.bodyhash, t.log, t.lastresgood = "", "", nil, false
	t.tlson, t.lastmsg, t.lastamsg = false, "", ""
	t.servername, t.peername, t.tlsverified = "", "", false
	transPool.Lock()
	transPool.free = append(transPool.free, t)
	transPool.Unlock()
}

// Process a single connection.
"""),
]
demo = r"""
write("rules", "reject from yak@b.c with make-yakker\n")
d = Daemon("-force-receive", "-r", "rules", "-smtplog", "slog", "-dncount", "3")
s = d.session(src="127.0.0.5")
s.cmd("EHLO h"); s.cmd("MAIL FROM:<yak@b.c>"); s.quit()
time.sleep(0.3)
s = d.session(src="127.0.0.6")
check(s.code("EHLO h") == 250, "unrelated client"); s.quit()
time.sleep(0.3)
s = d.session(src="127.0.0.6")
check(s.code("EHLO h") == 250, "unrelated client is stalled after another client was marked")
"""
