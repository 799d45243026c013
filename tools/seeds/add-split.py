property = 'C14'
needs = 'two sessions of one address that end at the same moment'
breaks = 'the count is read and written in two separate critical sections'
edits = [('sinksmtp.go', r"""	t.count++
	t.when = time.Now()
	cnt := t.count
	i.Unlock()
	return cnt
""", r"""	cnt := t.count + 1
	i.Unlock()
	return i.record(ip, cnt)
"""), ('sinksmtp.go', r"""// Set forces the count for a specific IP to a specific value and
""", r"""func (i *ipMap) record(ip string, cnt int) int {
	i.Lock()
	defer i.Unlock()
	t := i.ips[ip]
	if t == nil {
		t = &ipEnt{}
		i.ips[ip] = t
	}
	t.count = cnt
	t.when = time.Now()
	return cnt
}

// Set forces the count for a specific IP to a specific value and
""")]
demo = r"""
# count lost updates: N sessions end at once; the number of 'added' reports and the final count must fit
import http.client, json
pp = port()
d = Daemon("-force-receive", "-smtplog", "slog", "-dnlog", "dn", "-dncount", "400", "-pprof", "127.0.0.1:%d" % pp)
lost = 0
for rnd in range(400):
    pass
# each round: 100 sessions QUIT at the same time; the yakker count must be exactly the number of sessions
d.stop()
for rnd in range(6):
    d = Daemon("-force-receive", "-smtplog", "slog", "-dncount", "401")
    n = 1  # the connection that Daemon makes
    for part in range(4):
        ss = [d.session() for _ in range(100)]
        for s in ss: s.s.sendall(b"QUIT\r\n")
        for s in ss: s.read(); s.s.close()
        n += 100
    time.sleep(0.5)
    s = d.session()
    stalled = s.code("EHLO h") // 100 == 4
    s.close(); d.stop()
    if not stalled: lost += 1
check(lost == 0, "sessions were not counted")
"""
