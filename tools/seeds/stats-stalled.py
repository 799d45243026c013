property = 'C30'
needs = '-statsperip and a stalled do-nothing client'
breaks = 'connections of stalled do-nothing clients are missing from the per-address connection counts'
edits = [
    ('sinksmtp.go', "	loccounts.Add([]string{laddrstr})\n\n", ""),
    ('sinksmtp.go', """		updateTimeOf("regular", laddrstr)
""", """		updateTimeOf("regular", laddrstr)
		loccounts.Add([]string{laddrstr})
"""),
]
demo = r"""
import json, socket, urllib.request
k = socket.socket(); k.bind(("127.0.0.1", 0)); port = k.getsockname()[1]; k.close()
d = Daemon("-force-receive", "-dncount", "2", "-minphase", "to", "-smtplog", "slog", "-statsperip", "-pprof", "127.0.0.1:%d" % port)
def n():
    v = json.load(urllib.request.urlopen("http://127.0.0.1:%d/debug/vars" % port))["sinksmtp"]
    return sum(v["connects_to"].values()), v["events"]["connections"]
a, c = n()
check(a == c, "%d connections to addresses, %d connections" % (a, c))
for i in range(5):
    s = Session(d.ports[0]); s.quit(); time.sleep(0.1)
time.sleep(0.3)
b, e = n()
check(e == c + 5 and b == a + 5, "the connections of a stalled client are not in connects_to: %d of %d" % (b, e))
"""
