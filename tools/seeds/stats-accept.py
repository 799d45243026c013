property = 'C30'
needs = 'a null sender among the accepted senders'
breaks = 'accepted null senders are not counted as accepted MAIL FROMs'
edits = [
    ('sinksmtp.go', """				doAccept(convo, c, "")
				events.mailfromAccept.Add(1)""", """				doAccept(convo, c, "")
				if trans.from != "" {
					events.mailfromAccept.Add(1)
				}"""),
]
demo = r"""
import json, socket, urllib.request
k = socket.socket(); k.bind(("127.0.0.1", 0)); port = k.getsockname()[1]; k.close()
d = Daemon("-force-receive", "-nostdrules", "-pprof", "127.0.0.1:%d" % port)
def n():
    v = json.load(urllib.request.urlopen("http://127.0.0.1:%d/debug/vars" % port))["sinksmtp"]
    return v["smtpcounts"]["accepted"]["mailfrom"]
s = d.session(); s.code("EHLO h.example")
check(s.code("MAIL FROM:<a@b.example>") == 250, "sender refused"); s.code("RSET")
check(s.code("MAIL FROM:<>") == 250, "null sender refused"); s.code("NOOP")
time.sleep(0.3)
check(n() == 2, "%d accepted senders counted, not 2" % n())
"""
