From c77c5680099c81ace5fda6d5112021dfb604af94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:15 +0000
Subject: [PATCH 01/16] fix: do not crash on a rule note when there is no SMTP
 log

---
 sinksmtp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sinksmtp.go b/sinksmtp.go
index c5a7c29..680a165 100644
--- a/sinksmtp.go
+++ b/sinksmtp.go
@@ -787,7 +787,7 @@ func decider(ph Phase, evt smtpd.EventInfo, c *Context, convo *smtpd.Conn, id st
 	// this may be a mistake given EHLO retrying as HELO, but
 	// I'll see.
 	if note := c.withprops["note"]; note != "" {
-		c.trans.log.Write([]byte(fmt.Sprintf("! rule note: %s\n", note)))
+		writeLog(c.trans.log, "! rule note: %s\n", note)
 	}
 	// Disable TLS if desired, or just disable asking for client certs.
 	switch c.withprops["tls-opt"] {
-- 
2.43.0


From 8de2b2649856622a191abf464b066dfdacd30982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:18 +0000
Subject: [PATCH 02/16] fix: do not acknowledge a message whose save file could
 not be written

---
 sinksmtp.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/sinksmtp.go b/sinksmtp.go
index 680a165..a27e5c0 100644
--- a/sinksmtp.go
+++ b/sinksmtp.go
@@ -668,9 +668,18 @@ func handleMessage(prefix string, trans *smtpTransaction, logf io.Writer) (strin
 			warnf("error writing message file: %s\n", err)
 		}
 		_ = fp.Sync()
-		err = fp.Close()
+		cerr := fp.Close()
+		if cerr != nil {
+			warnf("error closing message file: %s\n", cerr)
+			if err == nil {
+				err = cerr
+			}
+		}
 		if err != nil {
-			warnf("error closing message file: %s\n", err)
+			// Do not leave a partial message behind, partly
+			// because it would make a later attempt to save
+			// the same message look like it succeeded.
+			os.Remove(tgt)
 		}
 	} else if !os.IsExist(err) {
 		warnf("error writing message file: %v\n", err)
-- 
2.43.0


From 749db2e5794abe624cfcb8cafbf6bafbca5e2806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:21 +0000
Subject: [PATCH 03/16] fix: do not crash when matching an empty HELO name or
 host pattern

---
 rules.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rules.go b/rules.go
index e3f9f72..cabf2a2 100644
--- a/rules.go
+++ b/rules.go
@@ -349,6 +349,9 @@ func matchAddress(addr string, pat string) bool {
 // This stripping is suppressed if the pattern ends in a '.' itself.
 func matchHost(host string, pat string) bool {
 	host = strings.ToLower(host)
+	if host == "" || pat == "" {
+		return false
+	}
 	if host[len(host)-1] == '.' && pat[len(pat)-1] != '.' {
 		host = host[:len(host)-1]
 	}
-- 
2.43.0


From cb2af754a8b5f74497f31f3011f61ac34ff20887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:23 +0000
Subject: [PATCH 04/16] fix: do not crash on a match operation with an empty
 quoted argument

---
 rules.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rules.go b/rules.go
index cabf2a2..2d786e9 100644
--- a/rules.go
+++ b/rules.go
@@ -132,7 +132,7 @@ func newContext(trans *smtpTransaction, rules []*Rule) *Context {
 func (c *Context) getMatchList(a string) []string {
 	var fname string
 	switch {
-	case a[0] == '/' || strings.HasPrefix(a, "./"):
+	case strings.HasPrefix(a, "/") || strings.HasPrefix(a, "./"):
 		fname = a
 	case strings.HasPrefix(a, "file:"):
 		fname = a[len("file:"):]
-- 
2.43.0


From 9bb7e0c751b82fdc36053d1a8d3d4a437abb4035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:26 +0000
Subject: [PATCH 05/16] fix: do not ignore the last line of a pattern file
 without a final newline

---
 sinksmtp.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sinksmtp.go b/sinksmtp.go
index a27e5c0..576bb18 100644
--- a/sinksmtp.go
+++ b/sinksmtp.go
@@ -89,6 +89,10 @@ func readList(rdr *bufio.Reader) ([]string, error) {
 	var a []string
 	for {
 		line, err := rdr.ReadString('\n')
+		// The last line may not end with a newline.
+		if err == io.EOF && line != "" {
+			err = nil
+		}
 		if err != nil {
 			if err == io.EOF {
 				return a, nil
-- 
2.43.0


From 809de023972f652b0319e3ce4907d8f0156bfa9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:29 +0000
Subject: [PATCH 06/16] fix: do not ignore the last line of a -conncfg file
 without a final newline

---
 conncfg.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/conncfg.go b/conncfg.go
index 84bbecb..2d61fb0 100644
--- a/conncfg.go
+++ b/conncfg.go
@@ -60,10 +60,11 @@ func readConnFile(rdr *bufio.Reader) (*destMap, error) {
 		var host, cert, key string
 
 		line, err := rdr.ReadString('\n')
-		if err == io.EOF {
+		// The last line may not end with a newline.
+		if err == io.EOF && line == "" {
 			break
 		}
-		if err != nil {
+		if err != nil && err != io.EOF {
 			return nil, err
 		}
 		lnum++
-- 
2.43.0


From 65002c4bdb509603ac73d474bd5bc9b5c5cfc2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:31 +0000
Subject: [PATCH 07/16] fix: do not let simultaneous connections overwrite each
 other's rules

---
 sinksmtp.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sinksmtp.go b/sinksmtp.go
index 576bb18..7a095a3 100644
--- a/sinksmtp.go
+++ b/sinksmtp.go
@@ -159,7 +159,9 @@ func accumRules(baserules []*Rule, fname string) ([]*Rule, error) {
 		return baserules, nil
 	}
 	rules, err := loadRules(fname)
-	return append(baserules, rules...), err
+	// baserules is shared between all connections, so we must never
+	// append to it in place.
+	return append(baserules[:len(baserules):len(baserules)], rules...), err
 }
 
 // Accumulate the set of rules for this connection from our base rules
-- 
2.43.0


From 92e21b0a2906994501907072fe56774023d2cfe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:34 +0000
Subject: [PATCH 08/16] fix: make make-yakker apply regardless of what the
 session does later

---
 sinksmtp.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/sinksmtp.go b/sinksmtp.go
index 7a095a3..d5105d2 100644
--- a/sinksmtp.go
+++ b/sinksmtp.go
@@ -436,6 +436,8 @@ type smtpTransaction struct {
 	lastamsg string
 
 	lastresgood bool // last result from decider()
+
+	forceyakker bool // some rule that matched had make-yakker
 }
 
 // returns overall hash and body-of-message hash. The latter may not
@@ -804,6 +806,10 @@ func decider(ph Phase, evt smtpd.EventInfo, c *Context, convo *smtpd.Conn, id st
 	if note := c.withprops["note"]; note != "" {
 		writeLog(c.trans.log, "! rule note: %s\n", note)
 	}
+	// make-yakker is also sticky; it applies to the whole session.
+	if _, ok := c.withprops["make-yakker"]; ok {
+		c.trans.forceyakker = true
+	}
 	// Disable TLS if desired, or just disable asking for client certs.
 	switch c.withprops["tls-opt"] {
 	case "off":
@@ -1202,9 +1208,8 @@ func process(cid int, nc net.Conn, certs []tls.Certificate, logf io.Writer, smtp
 	// Once people are yakkers we don't count their continued failure
 	// to do anything against them.
 	// And we have to have good rules to start with because duh.
-	_, forceyakker := c.withprops["make-yakker"]
 	switch {
-	case forceyakker:
+	case trans.forceyakker:
 		// It's a lot simpler if forced yakking takes priority
 		// over everything else.
 		cnt = yakkers.Set(trans.rip, yakTimeout, yakCount)
-- 
2.43.0


From 1738b496ae2d544e67aca04260b1c492cff45f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:36 +0000
Subject: [PATCH 09/16] fix: do not match an IPv6 address with a zone against
 anything that is not an IP

---
 conncfg.go | 2 +-
 rules.go   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/conncfg.go b/conncfg.go
index 2d61fb0..d3e4898 100644
--- a/conncfg.go
+++ b/conncfg.go
@@ -37,7 +37,7 @@ func (d *destMap) find(nc net.Conn) *perDest {
 		if de.local == "*" || de.local == las {
 			return de
 		}
-		if ip.Equal(net.ParseIP(de.local)) {
+		if ip2 := net.ParseIP(de.local); ip2 != nil && ip.Equal(ip2) {
 			return de
 		}
 		_, ipn, err := net.ParseCIDR(de.local)
diff --git a/rules.go b/rules.go
index 2d786e9..8ee632a 100644
--- a/rules.go
+++ b/rules.go
@@ -379,7 +379,7 @@ func matchIp(rip string, cidr string) bool {
 	// of canonicalizing all of that for us.
 	ip := net.ParseIP(rip)
 	ip2 := net.ParseIP(cidr)
-	if ip.Equal(ip2) {
+	if ip2 != nil && ip.Equal(ip2) {
 		return true
 	}
 	_, ipn, err := net.ParseCIDR(cidr)
-- 
2.43.0


From fe53ba545f202acbb7361e3055b295204157d197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:39 +0000
Subject: [PATCH 10/16] fix: do not crash on an IPv6 client that hits
 sbl.spamhaus.org through dbl

---
 sinksmtp.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sinksmtp.go b/sinksmtp.go
index d5105d2..666a175 100644
--- a/sinksmtp.go
+++ b/sinksmtp.go
@@ -702,6 +702,9 @@ func getSBLHits(t *smtpTransaction) []string {
 	var sbls []string
 	// since we know this hit, we can omit a lot of checks.
 	s := strings.Split(t.rip, ".")
+	if len(s) != 4 {
+		return sbls
+	}
 	ln := fmt.Sprintf("%s.%s.%s.%s.sbl.spamhaus.org.", s[3], s[2], s[1], s[0])
 	txts, err := net.LookupTXT(ln)
 	if err != nil {
-- 
2.43.0


From 0ec6dd559e7040eea28c0f6e584c8820786034f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:41 +0000
Subject: [PATCH 11/16] fix: recognize our and the client's IP in HELO however
 it is written

---
 rules.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rules.go b/rules.go
index 8ee632a..11ac80f 100644
--- a/rules.go
+++ b/rules.go
@@ -211,6 +211,10 @@ func heloGetter(c *Context) (o Option) {
 			o |= oProperip
 		}
 	}
+	// compare IP addresses, not how the client chose to write them
+	if hip != "" {
+		hip = net.ParseIP(hip).String()
+	}
 	switch {
 	case hip == c.trans.rip:
 		o |= oRemip
-- 
2.43.0


From 85b8e95fa024555895f344e9cf0869c2f2ddf32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:44 +0000
Subject: [PATCH 12/16] fix: do not match addresses that start or end with an
 '@'

---
 rules.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rules.go b/rules.go
index 11ac80f..4022ac2 100644
--- a/rules.go
+++ b/rules.go
@@ -313,13 +313,16 @@ func (s *sDotIter) Next() string {
 // the @ at the end.
 func matchAddress(addr string, pat string) bool {
 	addr = strings.ToLower(addr)
-	if (addr == "" && pat == "<>") || addr == pat {
+	if addr == "" && pat == "<>" {
 		return true
 	}
 	idx := strings.IndexByte(addr, '@')
-	if addr == "" || idx == 0 || idx == len(addr)-1 {
+	if addr == "" || idx == 0 || strings.HasSuffix(addr, "@") {
 		return false
 	}
+	if addr == pat {
+		return true
+	}
 	// local name only technically matches 'local@' patterns.
 	if idx == -1 {
 		return (addr + "@") == pat
-- 
2.43.0


From 4a28e3b58dd14752427d70cf0872ee2d2ef0f5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:19 +0000
Subject: [PATCH 13/16] fix: do not acknowledge a message that could not be
 flushed to disk

---
 sinksmtp.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sinksmtp.go b/sinksmtp.go
index 666a175..613c4fd 100644
--- a/sinksmtp.go
+++ b/sinksmtp.go
@@ -675,7 +675,13 @@ func handleMessage(prefix string, trans *smtpTransaction, logf io.Writer) (strin
 		if err != nil {
 			warnf("error writing message file: %s\n", err)
 		}
-		_ = fp.Sync()
+		serr := fp.Sync()
+		if serr != nil {
+			warnf("error flushing message file: %s\n", serr)
+			if err == nil {
+				err = serr
+			}
+		}
 		cerr := fp.Close()
 		if cerr != nil {
 			warnf("error closing message file: %s\n", cerr)
-- 
2.43.0


From 87002eacd3016c79903fc02b95c8b1a668ff146b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:01 +0000
Subject: [PATCH 14/16] fix: keep control characters in TLS names out of logs
 and saved messages

The SNI name and the names in a client certificate are whatever the
client chose; a newline in them added lines to the SMTP log and to the
metadata of saved messages.
---
 sinksmtp.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/sinksmtp.go b/sinksmtp.go
index 613c4fd..a123a58 100644
--- a/sinksmtp.go
+++ b/sinksmtp.go
@@ -23,6 +23,7 @@ import (
 	"strings"
 	"sync"
 	"time"
+	"unicode"
 
 	"github.com/siebenmann/smtpd"
 )
@@ -502,15 +503,27 @@ func tlsProtoVersion(ver uint16) string {
 	}
 }
 
+// cleanName makes a client-supplied TLS name fit to be written into a
+// line of a log or of a saved message, by replacing newlines and other
+// control characters.
+func cleanName(name string) string {
+	return strings.Map(func(r rune) rune {
+		if unicode.IsControl(r) {
+			return '?'
+		}
+		return r
+	}, name)
+}
+
 // tlsName returns the (host) name for the peer certificate,
 // either the Subject CommonName if it has one or the first
 // DNS name otherwise (or a complaint).
 func tlsName(cert *x509.Certificate) string {
 	if cert.Subject.CommonName != "" {
-		return cert.Subject.CommonName
+		return cleanName(cert.Subject.CommonName)
 	}
 	if len(cert.DNSNames) > 0 {
-		return cert.DNSNames[0]
+		return cleanName(cert.DNSNames[0])
 	}
 	return "<no CN or DNS Names>"
 }
@@ -1167,7 +1180,7 @@ func process(cid int, nc net.Conn, certs []tls.Certificate, logf io.Writer, smtp
 			trans.when = time.Now()
 			trans.tlson = convo.TLSOn
 			trans.cipher = convo.TLSState.CipherSuite
-			trans.servername = convo.TLSState.ServerName
+			trans.servername = cleanName(convo.TLSState.ServerName)
 			trans.tlsversion = convo.TLSState.Version
 			if len(convo.TLSState.VerifiedChains) > 0 {
 				trans.tlsverified = true
-- 
2.43.0


From 1514343ae6f422ac7549fdf02f48af3ed42bb730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:16 +0000
Subject: [PATCH 15/16] fix: refuse rules files that include themselves instead
 of using up all files

A rules file that includes itself, directly or through another one, was
read again and again until the process ran out of file descriptors, memory
or stack, which stops or kills the daemon if the limits are large.
---
 rparse.go   | 18 ++++++++++++++++--
 sinksmtp.go |  9 +++++----
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/rparse.go b/rparse.go
index 17c626c..a62fdd2 100644
--- a/rparse.go
+++ b/rparse.go
@@ -54,8 +54,14 @@ type parser struct {
 	l       *lexer
 	curtok  item
 	currule *Rule
+	depth   int // how many includes we are inside of
 }
 
+// maxIncludes is how deep includes may be nested. It stops a rules file
+// that directly or indirectly includes itself from using up all file
+// descriptors and memory.
+const maxIncludes = 50
+
 // consume the current token and advance to the next one
 func (p *parser) consume() {
 	// EOF is sticky because we pretend that it is an end of line
@@ -658,7 +664,10 @@ func (p *parser) pInclude() ([]*Rule, error) {
 	if err != nil {
 		return nil, err
 	}
-	rules, err := loadRules(fname)
+	if p.depth >= maxIncludes {
+		return nil, p.lineError(fmt.Sprintf("includes nested too deeply at '%s'", fname))
+	}
+	rules, err := loadRules(fname, p.depth+1)
 	if err != nil {
 		return rules, p.lineError(fmt.Sprintf("while including '%s': %s", fname, err))
 	}
@@ -697,8 +706,13 @@ func (p *parser) pFile() (rules []*Rule, err error) {
 // Parse an input string into a set of rules and a possible error.
 // If there is an error, you must ignore the rules.
 func Parse(input string) (rules []*Rule, err error) {
+	return parseNested(input, 0)
+}
+
+// parseNested is Parse for input that is inside of depth includes.
+func parseNested(input string, depth int) (rules []*Rule, err error) {
 	l := lex(input)
-	p := &parser{l: l}
+	p := &parser{l: l, depth: depth}
 	// we must prime the current token with the first token in the
 	// file.
 	p.curtok = l.nextItem()
diff --git a/sinksmtp.go b/sinksmtp.go
index a123a58..b539058 100644
--- a/sinksmtp.go
+++ b/sinksmtp.go
@@ -136,8 +136,9 @@ func loadList(fname string) []string {
 }
 
 // ----
-// Load a|the rule file. We assume filename is non-empty.
-func loadRules(fname string) ([]*Rule, error) {
+// Load a|the rule file. We assume filename is non-empty. depth is how many
+// includes we are inside of.
+func loadRules(fname string, depth int) ([]*Rule, error) {
 	fp, err := os.Open(fname)
 	if err != nil {
 		return nil, err
@@ -147,7 +148,7 @@ func loadRules(fname string) ([]*Rule, error) {
 	if err != nil {
 		return nil, err
 	}
-	rl, err := Parse(string(b))
+	rl, err := parseNested(string(b), depth)
 	if err != nil {
 		return nil, fmt.Errorf("rules parsing error %v", err)
 	}
@@ -159,7 +160,7 @@ func accumRules(baserules []*Rule, fname string) ([]*Rule, error) {
 	if fname == "" {
 		return baserules, nil
 	}
-	rules, err := loadRules(fname)
+	rules, err := loadRules(fname, 0)
 	// baserules is shared between all connections, so we must never
 	// append to it in place.
 	return append(baserules[:len(baserules):len(baserules)], rules...), err
-- 
2.43.0


From e0dd8a3bac3c4cf7a89aaf3254dd5b2284158e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:08 +0000
Subject: [PATCH 16/16] fix: do not acknowledge a message that another session
 is still saving

When two sessions received the same message (by its save name) at the same
time, the second found the file of the first and was acknowledged although
the first had not finished, or could still fail and remove the file.
---
 sinksmtp.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sinksmtp.go b/sinksmtp.go
index b539058..e9ee266 100644
--- a/sinksmtp.go
+++ b/sinksmtp.go
@@ -643,6 +643,9 @@ func logMessage(prefix string, trans *smtpTransaction, logf io.Writer) {
 	logf.Write(outbuf.Bytes())
 }
 
+// saving is held while a message file is being written.
+var saving sync.Mutex
+
 // Having received a message, do everything to it that we want to.
 // Here we log the message reception and possibly save it.
 func handleMessage(prefix string, trans *smtpTransaction, logf io.Writer) (string, error) {
@@ -681,6 +684,10 @@ func handleMessage(prefix string, trans *smtpTransaction, logf io.Writer) (strin
 	}
 
 	tgt := trans.savedir + "/" + hash
+	// Another session may be saving the same message right now. We
+	// must not take its file for ours until it is complete.
+	saving.Lock()
+	defer saving.Unlock()
 	// O_CREATE|O_EXCL will fail if the file already exists, which
 	// is okay with us.
 	fp, err := os.OpenFile(tgt, os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0666)
-- 
2.43.0

