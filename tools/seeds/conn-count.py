property = 'C26'
needs = 'two connections that arrive so fast that the second is numbered before the first session starts'
breaks = 'the id is read when the session starts instead of when it is handed out'
edits = [('sinksmtp.go', r"""	prefix := fmt.Sprintf("%d/%d", os.Getpid(), cid)
""", r"""	prefix := fmt.Sprintf("%d/%d", os.Getpid(), events.connections.Value())
""")]
demo = r"""
write("x", "")
d = Daemon("-force-receive", "-smtplog", "slog", naddr=4)
ss = []
for k in range(60):
    l = []
    for i in range(16):
        s = socket.socket(); s.setblocking(False)
        try: s.connect(("127.0.0.1", d.ports[i % 4]))
        except BlockingIOError: pass
        l.append(s)
    time.sleep(0.01)
    ss += l
time.sleep(1)
for s in ss: s.close()
time.sleep(0.5)
ids = set(re.findall(r"^\d+/(\d+)", open("slog").read(), re.M))
n = 60 * 16 + 4
check(len(ids) == n and max(map(int, ids)) == n, "%d different ids for %d connections" % (len(ids), n))
"""
