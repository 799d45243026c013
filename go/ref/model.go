package ref

import (
	"crypto/sha1"
	"fmt"
	"io"
	"net"
	"net/mail"
	"strings"
	"time"
)

// Conf is how the daemon was started.
type Conf struct {
	NoStd                            bool
	M                                bool
	FromReject, ToAccept, HeloReject string
	Dir                              string // -d
	Hash                             string // -save-hash; "" is all
	DN                               int    // -dncount
	DNDur                            time.Duration
	MinPhase                         string // "" is helo
	Log, SMTPLog                     bool
	TLS                              bool // -c and -k given
	Name                             string
}

// BaseRules are the rules that command line options stand for.
func (c *Conf) BaseRules() []Rule {
	var l []Rule
	if !c.NoStd {
		l = append(l, R(NoPhase, Reject, Has{"from-has", []string{"bad", "route"}}),
			R(NoPhase, Reject, Has{"to-has", []string{"bad", "route"}}),
			R(NoPhase, Reject, Has{"helo-has", []string{"none"}}))
	}
	if c.M {
		l = append(l, R(Message, Reject, All{}))
	}
	if c.FromReject != "" {
		l = append(l, R(NoPhase, Reject, Op{"from", "file:" + c.FromReject}))
	}
	if c.ToAccept != "" {
		l = append(l, R(NoPhase, Reject, Not{Op{"to", "file:" + c.ToAccept}}))
	}
	if c.HeloReject != "" {
		l = append(l, R(From, Reject, Op{"helo", "file:" + c.HeloReject}))
	}
	return l
}

type ent struct {
	count int
	when  time.Time
}

// Table counts things per IP address, over a time window that starts anew with
// every addition.
type Table map[string]*ent

func (t Table) get(ip string, now time.Time, ttl time.Duration) int {
	e := t[ip]
	if e == nil || now.Sub(e.when) >= ttl {
		delete(t, ip)
		return 0
	}
	return e.count
}
func (t Table) set(ip string, now time.Time, n int) { t[ip] = &ent{n, now} }

// Count is the count, expired or not.
func (t Table) Count(ip string) int {
	if e := t[ip]; e != nil {
		return e.count
	}
	return 0
}

// Saved is a file that must exist.
type Saved struct{ Dir, Name, Content string }

// Daemon is the model of the whole server.
type Daemon struct {
	Conf
	W      *World
	Now    func() time.Time
	Pid    int
	NConn  int
	Yak    Table
	NoTLS  Table
	Saved  map[string]Saved // by dir/name
	NSaved int
	Logged []string       // lines of the message log
	Events map[string]int // what happened, for the statistics
}

// NewDaemon makes one.
func NewDaemon(c Conf, w *World, pid int, now func() time.Time) *Daemon {
	return &Daemon{Conf: c, W: w, Now: now, Pid: pid, Yak: Table{}, NoTLS: Table{}, Saved: map[string]Saved{}, Events: map[string]int{}}
}

type pstate int

const (
	pInit pstate = iota
	pHelo
	pMail
	pRcpt
	pData
	pPost
	pClosed
)

// TLSInfo is the result of a successful STARTTLS.
type TLSInfo struct {
	Version, Cipher uint16
	SNI             string
	Peer            string // name in the client's certificate
	Verified        bool
}

// Sess is the model of one session.
type Sess struct {
	D            *Daemon
	W            *World
	Raddr, Laddr string
	RIP, LIP     string
	RDNS         RDNS
	ID           string
	Name         string
	Rules        []Rule
	files        map[string][]string
	// what the client gave most recently
	GivenHeloVerb, GivenHelo, GivenFrom string
	// what was accepted
	Helo, From string
	Rcpts      []string
	// TLS
	Certs     bool
	Offer     bool // TLS is offered
	AskClient bool // a client certificate is asked for
	TLSOn     bool
	TLSSeen   bool
	TLSI      TLSInfo
	Savedir   string
	Stalled   bool // a do-nothing client
	Forced    bool
	Got       bool
	Counts    bool
	Dropped   bool     // dropped on connect
	Notes     []string // the rule notes in the SMTP log

	st     pstate
	defAct Action
	defW   map[string]string
	bad    int
}

// Exp is an expected reply.
type Exp struct {
	Class    int // 2, 3, 4 or 5; 0: no reply
	Msg      string
	ID       string // the name of the message, if it must be in the reply
	Closed   bool
	STARTTLS int // EHLO replies: 1 offered, -1 not offered
	Phase    Phase
	Act      Action
}

func (e Exp) String() string {
	s := fmt.Sprintf("%dxx", e.Class)
	if e.Msg != "" {
		s += fmt.Sprintf(" %q", e.Msg)
	}
	if e.Closed {
		s += " closed"
	}
	return s
}

// SessOpt are per connection choices.
type SessOpt struct {
	Rules    []Rule // from the rules files
	RulesBad bool   // the rules did not load
	Name     string // -conncfg hostname
	NoCerts  bool   // -conncfg says no certificates
	Certs    bool   // -conncfg certificates
	World    *World
}

// Connect starts a session; Dropped says whether it was dropped right away.
func (d *Daemon) Connect(raddr, laddr string, o SessOpt) *Sess {
	d.NConn++
	s := &Sess{D: d, W: d.W, Raddr: raddr, Laddr: laddr, ID: fmt.Sprintf("%d/%d", d.Pid, d.NConn),
		files: map[string][]string{}, Savedir: d.Dir}
	if o.World != nil {
		s.W = o.World
	}
	s.RIP, _, _ = net.SplitHostPort(raddr)
	s.LIP, _, _ = net.SplitHostPort(laddr)
	s.RDNS = s.W.Lookup(s.RIP)
	stall := []Rule{R(NoPhase, Stall, All{})}
	s.Rules = append(d.BaseRules(), o.Rules...)
	if o.RulesBad {
		s.Rules = stall
	}
	s.Counts = !o.RulesBad && d.DN > 0
	d.Events["connections"]++
	d.Events["to "+laddr]++
	if o.RulesBad {
		d.Events["rules_errors"]++
	}
	if d.DN > 0 && d.SMTPLog && d.Yak.get(s.RIP, d.Now(), d.DNDur) >= d.DN {
		s.Stalled, s.Counts = true, false
		d.Events["yakkers"]++
		s.Rules = stall
	}
	s.Certs = (d.TLS || o.Certs) && !o.NoCerts
	fails := d.NoTLS.get(s.RIP, d.Now(), 72*time.Hour)
	s.Offer = s.Certs && fails < 2
	if fails >= 2 {
		d.Events["notls_conns"]++
	}
	s.AskClient = fails == 0
	act, _ := s.decide(Connect, "")
	if act == Reject {
		s.Dropped = true
		s.st = pClosed
	}
	return s
}

func (s *Sess) domain(d string) string { return s.W.Domain(d) }

func (s *Sess) patterns(fn string) []string {
	if l, ok := s.files[fn]; ok {
		return l
	}
	s.files[fn] = s.W.Files[fn]
	return s.files[fn]
}

func (s *Sess) decide(ph Phase, rcpt string) (Action, map[string]string) {
	var act Action
	var w map[string]string
	switch ph {
	case Helo, From:
		s.defAct = None
	}
	if ph == To && s.defAct != None {
		act, w = s.defAct, s.defW
	} else {
		act, w = Decide(s.Rules, s, ph, rcpt)
		if ph == From && s.GivenFrom == "" && act > Accept {
			s.defAct, s.defW = act, w
			act, w = Accept, map[string]string{}
		}
	}
	if w["savedir"] != "" {
		s.Savedir = w["savedir"]
	}
	if w["note"] != "" {
		s.Notes = append(s.Notes, w["note"])
	}
	if _, ok := w["make-yakker"]; ok {
		s.Forced = true
	}
	switch w["tls-opt"] {
	case "off":
		s.Offer = false
	case "no-client":
		s.AskClient = false
	}
	return act, w
}

func exp(ph Phase, a Action, w map[string]string, ok int) Exp {
	e := Exp{Class: ok, Msg: w["message"], Phase: ph, Act: a}
	switch a {
	case Stall:
		e.Class = 4
	case Reject:
		e.Class = 5
	}
	return e
}

func (s *Sess) close() Exp { s.st = pClosed; return Exp{Closed: true} }

// InData says whether the message is expected next.
func (s *Sess) InData() bool { return s.st == pData }

// Closed says whether the session is over.
func (s *Sess) Closed() bool { return s.st == pClosed }

// State is the protocol state, for state counting.
func (s *Sess) State() int { return int(s.st) }

// Key is a canonical form of the session's state.
func (s *Sess) Key() string {
	return fmt.Sprintf("%d|%s|%s|%s|%s|%s|%q|%v%v%v%v%v%v|%d|%s|%d", s.st, s.GivenHeloVerb, s.GivenHelo, s.GivenFrom,
		s.Helo, s.From, s.Rcpts, s.Offer, s.TLSOn, s.Stalled, s.Forced, s.Got, s.Counts, s.defAct, s.Savedir, s.bad)
}

func (s *Sess) minphase(p string) {
	m := s.D.MinPhase
	if m == "" || m == "ehlo" {
		m = "helo"
	}
	if m == p {
		s.Got = true
	}
}

func (s *Sess) end() {
	d := s.D
	switch {
	case s.Forced:
		if d.DN > 0 {
			if d.Yak.get(s.RIP, d.Now(), d.DNDur) != d.DN {
				d.Events["yakker_adds"]++
				d.Events["yakker_forces"]++
			}
			d.Yak.set(s.RIP, d.Now(), d.DN)
		}
	case !s.Got && s.Counts:
		if s.addYak() == d.DN {
			d.Events["yakker_adds"]++
		}
	case d.DN > 0 && s.Got:
		delete(d.Yak, s.RIP)
	}
}

func (s *Sess) addYak() int {
	d := s.D
	n := d.Yak.get(s.RIP, d.Now(), d.DNDur) + 1
	d.Yak.set(s.RIP, d.Now(), n)
	return n
}

// Do gives the expected outcome of a client command. SaveErr makes saving fail.
func (s *Sess) Do(verb, arg string, tls *TLSInfo, tlsFail bool, saveErr bool) Exp {
	oos := Exp{Class: 5}
	if s.st == pClosed {
		return Exp{Closed: true}
	}
	n := s.D.Events
	if verb == "ABORT" || (s.st == pData && verb != "BODY") {
		n["aborts"]++
		s.close()
		s.end()
		return Exp{Closed: true}
	}
	switch verb {
	case "HELO", "EHLO":
		if s.st != pInit && s.st != pHelo {
			return oos
		}
		s.GivenHeloVerb, s.GivenHelo = verb, arg
		n["ehlo"]++
		act, w := s.decide(Helo, "")
		e := exp(Helo, act, w, 2)
		e.Msg = ""
		if act > Accept {
			return e
		}
		s.st = pHelo
		n["ehlo ok"]++
		if s.TLSOn && !s.TLSSeen {
			n["ehlo_tlson"]++
			n["starttls"]++
		}
		s.Helo, s.From, s.Rcpts = arg, "", nil
		s.TLSSeen = s.TLSOn
		s.minphase("helo")
		if verb == "EHLO" {
			e.STARTTLS = -1
			if s.Offer && !s.TLSOn {
				e.STARTTLS = 1
			}
		}
		return e
	case "MAIL":
		if s.st != pHelo {
			return oos
		}
		s.GivenFrom = arg
		n["mailfrom"]++
		act, w := s.decide(From, "")
		e := exp(From, act, w, 2)
		if act > Accept {
			return e
		}
		if s.From != "" && !s.Got && s.Counts && s.addYak() > s.D.DN {
			s.st = pClosed
			n["rsetdrops"]++
			n["yakker_adds"]++
			return Exp{Class: 4, Closed: true}
		}
		n["mailfrom ok"]++
		s.From, s.Rcpts, s.st = arg, nil, pMail
		s.minphase("from")
		return e
	case "RCPT":
		if s.st != pMail && s.st != pRcpt {
			return oos
		}
		n["rcptto"]++
		act, w := s.decide(To, arg)
		e := exp(To, act, w, 2)
		if act <= Accept {
			n["rcptto ok"]++
			s.Rcpts = append(s.Rcpts, arg)
			s.st = pRcpt
			s.minphase("to")
		}
		return e
	case "DATA":
		if s.st != pRcpt {
			return oos
		}
		n["data"]++
		act, w := s.decide(Data, "")
		e := exp(Data, act, w, 3)
		if act <= Accept {
			n["data ok"]++
			s.st = pData
			s.minphase("data")
		}
		return e
	case "BODY":
		if s.st != pData {
			return oos
		}
		s.st = pPost
		n["messages"]++
		s.minphase("message")
		name, ok := s.save(arg, saveErr)
		if !ok {
			s.Got = true
			return Exp{Class: 4}
		}
		act, w := s.decide(Message, "")
		e := exp(Message, act, w, 2)
		e.ID = name
		if act <= Accept {
			s.st = pHelo
			s.minphase("accepted")
		}
		if act == Stall {
			e.ID = ""
		}
		return e
	case "RSET":
		if s.st != pInit {
			s.st = pHelo
		}
		return Exp{Class: 2}
	case "NOOP":
		return Exp{Class: 2}
	case "QUIT":
		s.st = pClosed
		n["quits"]++
		s.end()
		return Exp{Class: 2, Closed: true}
	case "STARTTLS":
		if s.st != pHelo || !s.Offer || s.TLSOn {
			return oos
		}
		if tlsFail {
			d := s.D
			d.NoTLS.set(s.RIP, d.Now(), d.NoTLS.get(s.RIP, d.Now(), 72*time.Hour)+1)
			s.Counts = false
			s.st = pClosed
			n["tls_errors"]++
			n["starttls"]++
			n["aborts"]++
			s.end()
			return Exp{Class: 2, Closed: true}
		}
		s.TLSOn = true
		if tls != nil {
			s.TLSI = *tls
		}
		s.st = pInit
		return Exp{Class: 2}
	case "BAD":
		s.bad++
		return oos
	}
	panic(verb)
}

// Sha is the SHA1 in hex.
func Sha(s string) string { return fmt.Sprintf("%x", sha1.Sum([]byte(s))) }

func bodyHash(data string) string {
	m, err := mail.ReadMessage(strings.NewReader(data))
	if err != nil {
		return "<cannot-parse-message>"
	}
	b, err := io.ReadAll(m.Body)
	if err != nil {
		return "<cannot-read-body?>"
	}
	return Sha(string(b))
}

// The protocol names, for the tls line.
var protos = map[uint16]string{0x300: "SSLv3", 0x301: "TLSv1.0", 0x302: "TLSv1.1", 0x303: "TLSv1.2", 0x304: "TLSv1.3"}

const timeNZ = "2006-01-02 15:04:05"

// Details gives the contents of the saved file: the id line and the rest.
func (s *Sess) Details(data string, when time.Time) (string, string) {
	var b strings.Builder
	fmt.Fprintf(&b, "remote %s to %s with helo '%s'\n", s.RIP, s.Laddr, s.Helo)
	l := func(n string, x []string) {
		if len(x) > 0 {
			fmt.Fprintf(&b, "%s %s\n", n, strings.Join(x, " "))
		}
	}
	l("remote-dns", s.RDNS.Verified)
	l("remote-dns-nofwd", s.RDNS.NoFwd)
	l("remote-dns-inconsist", s.RDNS.Inconsist)
	if s.TLSOn {
		fmt.Fprintf(&b, "tls on cipher 0x%04x", s.TLSI.Cipher)
		if n := CipherNames[s.TLSI.Cipher]; n != "" {
			b.WriteString(" name " + n)
		}
		p := protos[s.TLSI.Version]
		if p == "" {
			p = fmt.Sprintf("tls-0x%04x", s.TLSI.Version)
		}
		b.WriteString(" proto " + p)
		if s.TLSI.SNI != "" {
			b.WriteString(" server-name '" + s.TLSI.SNI + "'")
		}
		if s.TLSI.Peer != "" {
			b.WriteString(" client-name '" + s.TLSI.Peer + "'")
		}
		if s.TLSI.Verified {
			b.WriteString(" client-name-verified")
		}
		b.WriteString("\n")
	}
	fmt.Fprintf(&b, "from <%s>\n", s.From)
	for _, r := range s.Rcpts {
		fmt.Fprintf(&b, "to <%s>\n", r)
	}
	fmt.Fprintf(&b, "hash %s bytes %d\nbodyhash %s\nbody\n%s", Sha(data), len(data), bodyHash(data), data)
	return fmt.Sprintf("id %s %s %s\n", s.ID, s.Raddr, when.Format(timeNZ)), b.String()
}

// save models logging and saving; it gives the message's name.
func (s *Sess) save(data string, fail bool) (string, bool) {
	d := s.D
	now := d.Now()
	if d.Log {
		var b strings.Builder
		fmt.Fprintf(&b, "%s [%s] from %s / <%s> to", now.Format(timeNZ), s.ID, s.Raddr, s.From)
		for _, r := range s.Rcpts {
			b.WriteString(" <" + r + ">")
		}
		fmt.Fprintf(&b, ": message %d bytes hash %s body %s | local %s helo '%s'", len(data), Sha(data), bodyHash(data), s.Laddr, s.Helo)
		if s.TLSOn {
			fmt.Fprintf(&b, " tls:cipher 0x%04x tls:proto 0x%04x", s.TLSI.Cipher, s.TLSI.Version)
		}
		d.Logged = append(d.Logged, b.String())
	}
	if s.Savedir == "" {
		return Sha(data), true
	}
	f := s.File(data)
	if fail {
		return "", false
	}
	k := f.Dir + "/" + f.Name
	if _, ok := d.Saved[k]; !ok {
		d.Saved[k] = f
		d.NSaved++
	}
	return f.Name, true
}

// File is the file a message would be saved as now.
func (s *Sess) File(data string) Saved {
	id, rest := s.Details(data, s.D.Now())
	var name string
	switch s.D.Hash {
	case "msg":
		name = Sha(data)
	case "full":
		name = Sha(rest)
	default:
		name = Sha(id + rest)
	}
	return Saved{s.Savedir, name, id + rest}
}
