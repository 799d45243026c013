property = 'C15'
needs = "a session whose rule sets tls-opt no-client, and then another session"
breaks = 'the TLS configuration is shared by all sessions, so one session turns client certificates off for all'
edits = [('sinksmtp.go', r"""		var tlsc tls.Config
		tlsc.Certificates = certs
""", r"""		tlsc := tlsConfigFor(certs)
		tlsc.Certificates = certs
"""), ('sinksmtp.go', r"""		cfg.TLSConfig = &tlsc
""", r"""		cfg.TLSConfig = tlsc
"""), ('sinksmtp.go', r"""		if blcount == 0 {
			tlsc.ClientAuth = tls.RequestClientCert
		}
		// Now""", r"""		if blcount > 0 {
			tlsc = tlsc.Clone()
			tlsc.ClientAuth = tls.NoClientCert
		}
		// Now"""), ('sinksmtp.go', r"""// Process a single connection.
""", r"""var tlsConfs struct {
	sync.Mutex
	m map[*tls.Certificate]*tls.Config
}

// reuse TLS configurations
func tlsConfigFor(certs []tls.Certificate) *tls.Config {
	tlsConfs.Lock()
	defer tlsConfs.Unlock()
	c := tlsConfs.m[&certs[0]]
	if c == nil {
		c = &tls.Config{ClientAuth: tls.RequestClientCert}
		if tlsConfs.m == nil {
			tlsConfs.m = make(map[*tls.Certificate]*tls.Config)
		}
		tlsConfs.m[&certs[0]] = c
	}
	return c
}

// Process a single connection.
""")]
demo = r"""
os.mkdir("save")
write("rules", "set-with helo noclient.net with tls-opt no-client\n")
d = Daemon("-d", "save", "-r", "rules", *CERT)
def names():
    ctx = tlsctx(); ctx.load_cert_chain(HERE + "/cert.pem", HERE + "/key.pem")
    s = d.session(); s.code("EHLO h"); s.starttls(ctx); s.code("EHLO h")
    r = s.msg("a@b.c", ["x@y.z"], "Subject: x\r\n\r\n%f\r\n" % time.time())
    h = re.findall(r"[0-9a-f]{40}", " ".join(r[1]))[0]
    s.quit()
    return "client-name" in open("save/" + h, errors="replace").read()
check(names(), "a client certificate is asked for")
s = d.session(); s.code("EHLO noclient.net"); s.quit()
check(names(), "one session turned client certificates off for another")
"""
