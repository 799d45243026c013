package ref

import (
	"net"
	"strings"
)

// A reference reader of rules files, written as a scanner over the text that
// gives all tokens first and a parser over the token list.

// Verdict says what a reader of rules must do with a text.
type Verdict int

// DontCare is for texts the documentation does not settle.
const (
	Good Verdict = iota
	Bad
	DontCare
)

func (v Verdict) String() string { return []string{"accepted", "refused", "unspecified"}[v] }

type tok struct {
	kind byte // 'w' word, 'q' quoted, 'p' punctuation, 'n' end of line, 'e' end of file, '!' error
	s    string
	sp   bool // white space before it
}

func isSpace(c byte) bool { return c == ' ' || c == '\t' }

func scan(in string) (l []tok) {
	i := 0
	start := true // at the start of a line
	for {
		sp := false
		for i < len(in) && isSpace(in[i]) {
			i++
			sp = true
		}
		if i >= len(in) {
			return append(l, tok{'e', "", sp})
		}
		c := in[i]
		if c == '\\' && strings.HasPrefix(in[i:], "\\\n") {
			i += 2
			continue // a continuation; at the start of a line, an empty line
		}
		if start && c == '#' {
			n := strings.IndexByte(in[i:], '\n')
			if n < 0 {
				i = len(in)
			} else {
				i += n
			}
			continue
		}
		if c == '\n' {
			i++
			if !start {
				l = append(l, tok{'n', "\n", sp})
			}
			start = true
			continue
		}
		start = false
		switch c {
		case '(', ')', ';':
			l = append(l, tok{'p', string(c), sp})
			i++
		case ',':
			i++
			l = append(l, tok{'p', ",", sp})
			if i >= len(in) || isSpace(in[i]) || in[i] == '\n' {
				return append(l, tok{'!', "comma before white space", false})
			}
		case '"':
			var b strings.Builder
			j := i + 1
			for j < len(in) && in[j] != '"' {
				if in[j] == '\\' && j+1 < len(in) && (in[j+1] == '"' || in[j+1] == '\\') {
					j++
				}
				b.WriteByte(in[j])
				j++
			}
			if j >= len(in) {
				return append(l, tok{'!', "unterminated quote", sp})
			}
			i = j + 1
			l = append(l, tok{'q', b.String(), sp})
		default:
			j := i
			for j < len(in) && strings.IndexByte("(),;\n \t", in[j]) < 0 {
				j++
			}
			w := in[i:j]
			if w == "file:" {
				return append(l, tok{'!', "no file name", sp})
			}
			i = j
			l = append(l, tok{'w', w, sp})
		}
	}
}

var addrAttr = words("unqualified route quoted noat garbage bad resolves baddom unknown")
var heloAttr = words("helo ehlo none nodots bareip properip myip remip otherip ip bogus")
var dnsAttr = words("nodns inconsistent noforward good exists")
var dblAttr = words("host ehlo helo from any")
var phaseWord = map[string]Phase{"@connect": Connect, "@helo": Helo, "@from": From, "@to": To, "@data": Data, "@message": Message}
var actWord = map[string]Action{"accept": Accept, "reject": Reject, "stall": Stall, "set-with": SetWith}

// Keywords are all words with a meaning somewhere.
var Keywords = strings.Fields(`include @connect @helo @from @to @data @message accept reject stall set-with or not
 all from to helo host from-has to-has helo-has tls dns ip dnsbl source dbl with message note savedir tls-opt make-yakker
 ehlo none bogus nodots bareip properip myip remip otherip nodns inconsistent noforward unqualified route quoted noat garbage
 resolves baddom unknown bad on off good exists any`)

func words(s string) map[string]bool {
	m := map[string]bool{}
	for _, x := range strings.Fields(s) {
		m[x] = true
	}
	return m
}

type reader struct {
	l     []tok
	i     int
	inc   func(name string) (string, bool)
	rules []Rule
}

type readStop struct {
	v   Verdict
	why string
}

func (r *reader) bad(why string) { panic(readStop{Bad, why}) }

func (r *reader) cur() tok { return r.l[r.i] }
func (r *reader) word(s string) bool {
	return r.cur().kind == 'w' && r.cur().s == s
}
func (r *reader) punct(s string) bool { return r.cur().kind == 'p' && r.cur().s == s }
func (r *reader) next() {
	if r.cur().kind != 'e' {
		r.i++
	}
}
func (r *reader) eol() bool { return r.cur().kind == 'n' || r.cur().kind == 'e' }

// arg is any word or quoted string.
func (r *reader) arg() string {
	t := r.cur()
	switch t.kind {
	case 'w', 'q':
		r.next()
		return t.s
	case 'p':
		panic(readStop{DontCare, "punctuation as an argument"})
	}
	r.bad("missing argument")
	return ""
}

func (r *reader) attrs(ok map[string]bool) (l []string) {
	for {
		t := r.cur()
		if t.kind != 'w' || !ok[t.s] {
			r.bad("not an attribute")
		}
		l = append(l, t.s)
		r.next()
		if !r.punct(",") {
			return
		}
		if r.cur().sp {
			panic(readStop{DontCare, "white space before a comma"})
		}
		r.next()
	}
}

func (r *reader) domain() string {
	t := r.cur()
	if t.kind == 'q' {
		panic(readStop{DontCare, "quoted domain"})
	}
	if t.kind != 'w' || !strings.Contains(t.s, ".") {
		r.bad("not a domain")
	}
	if isFile(t.s) {
		r.bad("not a domain")
	}
	r.next()
	return t.s
}

func isFile(s string) bool { _, ok := FileArg(s); return ok }

// term gives nil if there is none.
func (r *reader) term() Expr {
	if r.punct("(") {
		r.next()
		e := r.series()
		if !r.punct(")") {
			r.bad("no closing parenthesis")
		}
		if e == nil {
			r.bad("empty parentheses")
		}
		r.next()
		return e
	}
	if r.cur().kind != 'w' {
		return nil
	}
	w := r.cur().s
	switch w {
	case "not":
		r.next()
		e := r.term()
		if e == nil {
			r.bad("nothing to negate")
		}
		return Not{e}
	case "all":
		r.next()
		return All{}
	case "from", "to", "helo", "ehlo", "host", "source":
		r.next()
		return Op{w, r.arg()}
	case "ip":
		r.next()
		t := r.cur()
		if t.kind == 'q' && isFile(t.s) {
			panic(readStop{DontCare, "quoted file name"})
		}
		if t.kind != 'w' && t.kind != 'q' {
			r.bad("no address")
		}
		if !(t.kind == 'w' && isFile(t.s)) {
			if _, _, err := net.ParseCIDR(t.s); err != nil && net.ParseIP(t.s) == nil {
				r.bad("not an address")
			}
		}
		r.next()
		return Op{w, t.s}
	case "dnsbl":
		r.next()
		return DNSBL(r.domain())
	case "tls":
		r.next()
		on := r.word("on")
		if !on && !r.word("off") {
			r.bad("on or off")
		}
		r.next()
		return TLS(on)
	case "from-has", "to-has":
		r.next()
		return Has{w, r.attrs(addrAttr)}
	case "helo-has":
		r.next()
		return Has{w, r.attrs(heloAttr)}
	case "dns":
		r.next()
		return Has{w, r.attrs(dnsAttr)}
	case "dbl":
		r.next()
		a := r.attrs(dblAttr)
		return DBL{a, r.domain()}
	}
	return nil
}

func (r *reader) orl() Expr {
	e := r.term()
	if !r.word("or") {
		return e
	}
	if e == nil {
		r.bad("nothing before 'or'")
	}
	r.next()
	f := r.orl()
	if f == nil {
		r.bad("nothing after 'or'")
	}
	return Or{e, f}
}

func (r *reader) series() Expr {
	var a And
	for {
		e := r.orl()
		if e == nil {
			break
		}
		a = append(a, e)
	}
	switch len(a) {
	case 0:
		return nil
	case 1:
		return a[0]
	}
	return a
}

func (r *reader) withs() (l []With) {
	if !r.word("with") {
		return
	}
	r.next()
	have := map[string]string{}
	for {
		k := r.cur().s
		if r.cur().kind != 'w' {
			break
		}
		v := ""
		old, dup := have[k]
		switch k {
		case "message", "note", "savedir", "tls-opt":
			if dup && old == "" {
				panic(readStop{DontCare, "repeated option that was empty"})
			}
			if dup {
				r.bad("repeated option")
			}
			r.next()
			v = r.arg()
			if k == "note" && strings.Contains(v, "\n") {
				r.bad("newline in a note")
			}
			if k == "tls-opt" && v != "off" && v != "no-client" {
				r.bad("bad tls-opt")
			}
		case "make-yakker":
			if dup {
				r.bad("repeated option")
			}
			r.next()
		default:
			r.bad("not an option")
		}
		have[k] = v
		l = append(l, With{k, v})
	}
	if len(l) == 0 {
		r.bad("empty with")
	}
	return
}

func (r *reader) rule() {
	var u Rule
	if r.cur().kind == 'w' {
		if p, ok := phaseWord[r.cur().s]; ok {
			u.Ph = p
			r.next()
		}
	}
	a, ok := actWord[r.cur().s]
	if r.cur().kind != 'w' || !ok {
		r.bad("no action")
	}
	u.Act = a
	r.next()
	for {
		e := r.series()
		w := r.withs()
		if !r.eol() && !r.punct(";") {
			r.bad("not an operation")
		}
		if e == nil {
			r.bad("no operation")
		}
		if a == SetWith && len(w) == 0 {
			r.bad("set-with without options")
		}
		u.Cl = append(u.Cl, Clause{e, w})
		if r.eol() {
			break
		}
		r.next()
		if r.cur().kind == 'n' {
			r.next()
		}
	}
	if !u.Valid() {
		r.bad("phase before what the rule needs")
	}
	r.next()
	r.rules = append(r.rules, u)
}

// Read reads a rules file. End says that it is refused only because it ends,
// so that a longer text may be good; otherwise no longer text is.
func Read(text string, inc func(string) (string, bool)) (rules []Rule, v Verdict, why string, end bool) {
	r := &reader{l: scan(text), inc: inc}
	defer func() {
		if e := recover(); e != nil {
			s, ok := e.(readStop)
			if !ok {
				panic(e)
			}
			rules, v, why = nil, s.v, s.why
			end = r.cur().kind == 'e' || r.cur().kind == '!'
		}
	}()
	for r.cur().kind != 'e' {
		if r.word("include") {
			r.next()
			t, ok := r.inc(r.arg())
			if !ok {
				r.bad("include file")
			}
			if !r.eol() {
				r.bad("text after include")
			}
			rs, v, why, _ := Read(t, inc)
			if v != Good {
				panic(readStop{v, "included: " + why})
			}
			r.rules = append(r.rules, rs...)
			r.next()
			continue
		}
		r.rule()
	}
	return r.rules, Good, "", true
}
