// Package ref holds the reference models: what sinksmtp's documentation says
// that rules, patterns, attributes, sessions and so on mean, written down
// independently of the implementation and as plainly as possible.
package ref

import (
	"fmt"
	"strings"
)

// Phase is an SMTP phase. NoPhase means 'no explicit phase'.
type Phase int

const (
	NoPhase Phase = iota
	Connect
	Helo
	From
	To
	Data
	Message
)

var phaseNames = []string{"", "@connect", "@helo", "@from", "@to", "@data", "@message"}

func (p Phase) String() string { return phaseNames[p] }

// Action is a rule's action.
type Action int

const (
	None Action = iota // no rule decided
	SetWith
	Accept
	Stall
	Reject
)

var actNames = []string{"none", "set-with", "accept", "stall", "reject"}

func (a Action) String() string { return actNames[a] }

// With is one with option.
type With struct{ Key, Val string }

// Clause is a rule clause.
type Clause struct {
	E     Expr
	Withs []With
}

// Rule is a rule.
type Rule struct {
	Ph  Phase
	Act Action
	Cl  []Clause
}

// R makes a simple rule.
func R(ph Phase, a Action, e Expr, w ...With) Rule {
	return Rule{ph, a, []Clause{{e, w}}}
}

// Truth is the value of an expression. Miss means that a pattern file without
// any patterns was consulted, which makes the rule not apply at all.
type Truth int

const (
	F Truth = iota
	T
	Miss
)

// Env is what an expression is evaluated in.
type Env struct {
	S    *Sess  // the session
	Rcpt string // the current RCPT TO
}

// Expr is a match expression.
type Expr interface {
	Eval(e *Env) Truth
	Needs() Phase
	String() string
}

// And is a series of expressions.
type And []Expr

func (a And) Eval(e *Env) Truth {
	for _, x := range a {
		if t := x.Eval(e); t != T {
			return t
		}
	}
	return T
}
func (a And) Needs() Phase { return needs([]Expr(a)...) }
func (a And) String() string {
	var l []string
	for _, x := range a {
		if _, ok := x.(And); ok {
			l = append(l, "( "+x.String()+" )")
			continue
		}
		l = append(l, x.String())
	}
	return strings.Join(l, " ")
}

func needs(l ...Expr) (p Phase) {
	for _, x := range l {
		p = max(p, x.Needs())
	}
	return
}

// Or is L or R; it binds more tightly than And.
type Or struct{ L, R Expr }

func (o Or) Eval(e *Env) Truth {
	if t := o.L.Eval(e); t != F {
		return t
	}
	return o.R.Eval(e)
}
func (o Or) Needs() Phase { return needs(o.L, o.R) }
func (o Or) String() string {
	w := func(x Expr, left bool) string {
		switch x.(type) {
		case And:
			return "( " + x.String() + " )"
		case Or:
			if left {
				return "( " + x.String() + " )"
			}
		}
		return x.String()
	}
	return w(o.L, true) + " or " + w(o.R, false)
}

// Not negates.
type Not struct{ X Expr }

func (n Not) Eval(e *Env) Truth {
	switch n.X.Eval(e) {
	case T:
		return F
	case F:
		return T
	}
	return Miss
}
func (n Not) Needs() Phase { return n.X.Needs() }
func (n Not) String() string {
	switch n.X.(type) {
	case And, Or:
		return "not ( " + n.X.String() + " )"
	}
	return "not " + n.X.String()
}

// All always matches.
type All struct{}

func (All) Eval(e *Env) Truth { return T }
func (All) Needs() Phase      { return NoPhase }
func (All) String() string    { return "all" }

// TLS is 'tls on' or 'tls off'.
type TLS bool

func (t TLS) Eval(e *Env) Truth { return truth(bool(t) == e.S.TLSSeen) }
func (t TLS) Needs() Phase      { return From }
func (t TLS) String() string {
	if t {
		return "tls on"
	}
	return "tls off"
}

func truth(b bool) Truth {
	if b {
		return T
	}
	return F
}

// Op is from, to, helo, ehlo, host, source or ip with a pattern or a file.
type Op struct {
	What string
	Arg  string // a pattern, or a file name as written in rules
}

func (o Op) Needs() Phase {
	switch o.What {
	case "from", "source":
		return From
	case "to":
		return To
	case "helo", "ehlo":
		return Helo
	}
	return NoPhase
}

// Quote renders a rule argument.
func Quote(s string) string {
	if s != "" && !strings.ContainsAny(s, " \t\n,;()\"") && s[0] != '#' && s[0] != '\\' {
		return s
	}
	return `"` + strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(s) + `"`
}

func (o Op) String() string { return o.What + " " + Quote(o.Arg) }

// FileArg says whether a rule argument is a file name, and which.
func FileArg(a string) (string, bool) {
	switch {
	case strings.HasPrefix(a, "/"), strings.HasPrefix(a, "./"):
		return a, true
	case strings.HasPrefix(a, "file:"):
		return a[5:], true
	}
	return "", false
}

func (o Op) Eval(e *Env) Truth {
	pats := []string{o.Arg}
	if fn, ok := FileArg(o.Arg); ok {
		pats = e.S.patterns(fn)
		if len(pats) == 0 {
			return Miss
		}
	}
	s := e.S
	for _, p := range pats {
		p = strings.ToLower(p)
		hit := false
		switch o.What {
		case "from":
			hit = MatchAddr(s.GivenFrom, p)
		case "to":
			hit = MatchAddr(e.Rcpt, p)
		case "helo", "ehlo":
			hit = MatchHost(s.GivenHelo, p)
		case "host":
			hit = anyHost(s.RDNS.Verified, p)
		case "source":
			hit = anyHost(s.RDNS.Verified, p) || MatchHost(s.GivenHelo, p) || MatchAddr(s.GivenFrom, "@"+p)
		case "ip":
			hit = MatchIP(s.RIP, p)
		default:
			panic(o.What)
		}
		if hit {
			return T
		}
	}
	return F
}

func anyHost(l []string, p string) bool {
	for _, h := range l {
		if MatchHost(h, p) {
			return true
		}
	}
	return false
}

// Has is from-has, to-has, helo-has or dns.
type Has struct {
	What  string
	Attrs []string
}

func (h Has) Needs() Phase {
	switch h.What {
	case "from-has":
		return From
	case "to-has":
		return To
	case "helo-has":
		return Helo
	}
	return NoPhase
}
func (h Has) String() string { return h.What + " " + strings.Join(h.Attrs, ",") }
func (h Has) Eval(e *Env) Truth {
	var got map[string]bool
	s := e.S
	switch h.What {
	case "from-has":
		got = AddrAttrs(s.GivenFrom, s.domain)
	case "to-has":
		got = AddrAttrs(e.Rcpt, s.domain)
	case "helo-has":
		got = HeloAttrs(s.GivenHeloVerb, s.GivenHelo, s.RIP, s.LIP)
	case "dns":
		got = DNSAttrs(s.RDNS)
	}
	for _, a := range h.Attrs {
		if got[a] {
			return T
		}
	}
	return F
}

// DNSBL is 'dnsbl DOMAIN'.
type DNSBL string

func (d DNSBL) Needs() Phase   { return NoPhase }
func (d DNSBL) String() string { return "dnsbl " + string(d) }
func (d DNSBL) Eval(e *Env) Truth {
	p := strings.Split(e.S.RIP, ".")
	if len(p) != 4 {
		return F
	}
	return truth(e.S.W.listed(fmt.Sprintf("%s.%s.%s.%s.%s", p[3], p[2], p[1], p[0], string(d))))
}

// DBL is 'dbl SRCS DOMAIN'.
type DBL struct {
	Srcs []string
	Dom  string
}

func (d DBL) has(n ...string) bool {
	for _, s := range d.Srcs {
		if s == "any" {
			return true
		}
		for _, x := range n {
			if s == x {
				return true
			}
		}
	}
	return false
}
func (d DBL) Needs() Phase {
	switch {
	case d.has("from"):
		return From
	case d.has("helo", "ehlo"):
		return Helo
	}
	return NoPhase
}
func (d DBL) String() string { return "dbl " + strings.Join(d.Srcs, ",") + " " + d.Dom }
func (d DBL) Eval(e *Env) Truth {
	s := e.S
	var l []string
	if d.has("helo", "ehlo") && s.GivenHelo != "" {
		l = append(l, s.GivenHelo)
	}
	if d.has("host") {
		for _, x := range [][]string{s.RDNS.Verified, s.RDNS.NoFwd, s.RDNS.Inconsist} {
			for _, n := range x {
				l = append(l, strings.TrimSuffix(n, "."))
			}
		}
	}
	if d.has("from") {
		a := AddrAttrs(s.GivenFrom, s.domain)
		if a["resolves"] || a["baddom"] || a["unknown"] {
			l = append(l, s.GivenFrom[strings.IndexByte(s.GivenFrom, '@')+1:])
		}
	}
	hit := false
	for _, n := range l {
		hit = s.W.listed(n+"."+d.Dom) || hit
	}
	return truth(hit)
}

// Needs is the phase at which a rule has all its information.
func (r Rule) Needs() (p Phase) {
	for _, c := range r.Cl {
		p = max(p, c.E.Needs())
	}
	return
}

// Valid says whether the rule's explicit phase is possible.
func (r Rule) Valid() bool { return r.Ph == NoPhase || r.Ph >= r.Needs() }

func (r Rule) String() string {
	var b strings.Builder
	if r.Ph != NoPhase {
		b.WriteString(r.Ph.String() + " ")
	}
	b.WriteString(r.Act.String() + " ")
	for i, c := range r.Cl {
		if i > 0 {
			b.WriteString("; ")
		}
		b.WriteString(c.E.String())
		if len(c.Withs) > 0 {
			b.WriteString(" with")
			for _, w := range c.Withs {
				b.WriteString(" " + w.Key)
				if w.Key != "make-yakker" {
					b.WriteString(" " + Quote(w.Val))
				}
			}
		}
	}
	return b.String()
}

// Text renders rules as a rules file.
func Text(rs []Rule) string {
	var b strings.Builder
	for _, r := range rs {
		b.WriteString(r.String())
		b.WriteByte('\n')
	}
	return b.String()
}

// runs says whether the rule is checked in phase ph.
func (r Rule) runs(ph Phase) bool {
	if r.Ph != NoPhase {
		return r.Ph == ph
	}
	return r.Needs() <= ph
}

// match evaluates the rule; if it matches, the with options of the matching
// clause are set.
func (r Rule) match(s *Sess, ph Phase, rcpt string, withs map[string]string) bool {
	one := func(rcpt string) (bool, bool) { // matched, missed
		env := &Env{S: s, Rcpt: rcpt}
		for _, c := range r.Cl {
			switch c.E.Eval(env) {
			case Miss:
				return false, true
			case T:
				for _, w := range c.Withs {
					withs[w.Key] = w.Val
				}
				return true, false
			}
		}
		return false, false
	}
	if ph <= To || r.Needs() < To {
		m, _ := one(rcpt)
		return m
	}
	// After RCPT TO, a rule about recipients is checked against every one of them.
	for _, rc := range s.Rcpts {
		m, miss := one(rc)
		if m {
			return true
		}
		if miss {
			return false
		}
	}
	return false
}

// Decide gives the action for a phase and the with options that were set.
func Decide(rules []Rule, s *Sess, ph Phase, rcpt string) (Action, map[string]string) {
	withs := map[string]string{}
	for _, r := range rules {
		if !r.runs(ph) || !r.match(s, ph, rcpt, withs) {
			continue
		}
		if r.Act != SetWith {
			return r.Act, withs
		}
	}
	return None, withs
}
