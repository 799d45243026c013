// Package smtpd is a stand-in for github.com/siebenmann/smtpd, which is not
// available in this sandbox. It has the API that sinksmtp uses and follows the
// same SMTP state machine (what is delivered to the caller in which state,
// what the library answers by itself, what Accept/Reject/Tempfail mean), but it
// works on whole commands taken from a fake connection instead of on bytes.
package smtpd

import (
	"crypto/tls"
	"crypto/x509"
	"fmt"
	"io"
	"net"
	"strings"
	"time"

	"verif/vrt"
)

// TimeFmt is the time format we log messages in.
const TimeFmt = "2006-01-02 15:04:05 -0700"

// Command represents known SMTP commands.
type Command int

// Recognized SMTP commands.
const (
	noCmd  Command = iota
	BadCmd Command = iota
	HELO
	EHLO
	MAILFROM
	RCPTTO
	DATA
	QUIT
	RSET
	NOOP
	VRFY
	EXPN
	HELP
	AUTH
	STARTTLS
)

var names = map[Command]string{BadCmd: "BAD", HELO: "HELO", EHLO: "EHLO", MAILFROM: "MAIL FROM",
	RCPTTO: "RCPT TO", DATA: "DATA", QUIT: "QUIT", RSET: "RSET", NOOP: "NOOP", VRFY: "VRFY",
	EXPN: "EXPN", HELP: "HELP", AUTH: "AUTH", STARTTLS: "STARTTLS"}

func (v Command) String() string { return names[v] }

// Event is the sort of event that Next returns.
type Event int

// The different types of events.
const (
	_ Event = iota
	COMMAND
	AUTHRESP
	AUTHABORT
	GOTDATA
	DONE
	ABORT
	TLSERROR
)

// EventInfo is what Next returns.
type EventInfo struct {
	What Event
	Cmd  Command
	Arg  string
}

// Limits has the time and message limits for a Conn.
type Limits struct {
	CmdInput, MsgInput, ReplyOut, TLSSetup time.Duration
	MsgSize                                int64
	BadCmds                                int
	NoParams                               bool
}

// DefaultLimits are the limits used without any.
var DefaultLimits = Limits{BadCmds: 5}

// Config is the configuration of a Conn.
type Config struct {
	TLSConfig *tls.Config
	Limits    *Limits
	Auth      *AuthConfig
	Delay     time.Duration
	SayTime   bool
	LocalName string
	SftName   string
	Announce  string
}

// AuthConfig is the configuration for AUTH.
type AuthConfig struct{ Mechanisms []string }

type state int

const (
	sStartup state = iota
	sInitial
	sHelo
	sMail
	sRcpt
	sData
	sPostData
	sQuit
	sAbort
)

// Conn is an SMTP conversation.
type Conn struct {
	conn   net.Conn
	fake   *vrt.Conn
	logger io.Writer

	Config   Config
	TLSOn    bool
	TLSState tls.ConnectionState

	state, nstate state
	curcmd        Command
	replied       bool
	badcmds       int
}

// NewConn creates a new SMTP conversation.
func NewConn(conn net.Conn, cfg Config, log io.Writer) *Conn {
	c := &Conn{conn: conn, Config: cfg, logger: log, state: sStartup}
	f, ok := conn.(*vrt.Conn)
	if !ok {
		panic("smtpd stand-in: not a fake connection")
	}
	c.fake = f
	return c
}

func (c *Conn) log(dir, format string, elems ...interface{}) {
	if c.logger == nil {
		return
	}
	c.logger.Write([]byte(fmt.Sprintf("%s %s\n", dir, fmt.Sprintf(format, elems...))))
}

func (c *Conn) reply(code int, msg string) {
	lines := strings.Split(strings.TrimRight(msg, "\n"), "\n")
	n := 0
	for i, l := range lines {
		sep := "-"
		if i == len(lines)-1 {
			sep = " "
		}
		c.log("w", "%d%s%s", code, sep, l)
		n += len(l) + 4
	}
	if c.Config.Delay > 0 {
		time.Sleep(c.Config.Delay * time.Duration(n))
	}
	c.fake.Send(vrt.Reply{Code: code, Lines: lines})
}

func (c *Conn) accept(msg, data string) {
	if c.replied {
		return
	}
	old := c.state
	c.state = c.nstate
	c.replied = true
	switch c.curcmd {
	case HELO:
		c.reply(250, fmt.Sprintf("%s Hello %v", c.Config.LocalName, c.conn.RemoteAddr()))
	case EHLO:
		s := fmt.Sprintf("%s Hello %v\n8BITMIME\nPIPELINING\n", c.Config.LocalName, c.conn.RemoteAddr())
		if c.Config.TLSConfig != nil && !c.TLSOn {
			s += "STARTTLS\n"
		}
		c.reply(250, s+"HELP")
	case MAILFROM, RCPTTO:
		if msg == "" {
			msg = "Okay, I'll believe you for now"
		}
		c.reply(250, msg)
	case DATA:
		if old == sRcpt {
			if msg == "" {
				msg = "Send away"
			}
			c.reply(354, msg)
		} else {
			if msg == "" {
				msg = "I've put it in a can"
				if data != "" {
					msg += " called " + data
				}
			}
			c.reply(250, msg)
		}
	}
}

// Accept accepts the current command.
func (c *Conn) Accept() { c.accept("", "") }

// AcceptMsg accepts the current command with a message.
func (c *Conn) AcceptMsg(format string, elems ...interface{}) {
	c.accept(fmt.Sprintf(format, elems...), "")
}

// AcceptData accepts a message with an ID.
func (c *Conn) AcceptData(id string) { c.accept("", id) }

func (c *Conn) refuse(helo, addr, data int, msg, dhelo, daddr, ddata string) {
	if c.replied {
		return
	}
	c.replied = true
	pick := func(d string) string {
		if msg != "" {
			return msg
		}
		return d
	}
	switch c.curcmd {
	case HELO, EHLO:
		c.reply(helo, pick(dhelo))
	case MAILFROM, RCPTTO:
		c.reply(addr, pick(daddr))
	case DATA:
		c.reply(data, pick(ddata))
	}
}

// Reject rejects the current command.
func (c *Conn) Reject() { c.RejectMsg("") }

// RejectMsg rejects the current command with a message.
func (c *Conn) RejectMsg(format string, elems ...interface{}) {
	c.refuse(550, 550, 554, fmt.Sprintf(format, elems...), "Not accepted", "Bad address", "Not accepted")
}

// RejectData rejects a message with an ID.
func (c *Conn) RejectData(id string) { c.RejectMsg("Not put in a can called %s", id) }

// Tempfail temporarily refuses the current command.
func (c *Conn) Tempfail() { c.TempfailMsg("") }

// TempfailMsg temporarily refuses the current command with a message.
func (c *Conn) TempfailMsg(format string, elems ...interface{}) {
	c.refuse(421, 450, 450, fmt.Sprintf(format, elems...), "Not available now", "Not available", "Not available")
}

func verb(s string) Command {
	for k, v := range names {
		if v == s {
			return k
		}
	}
	switch s {
	case "MAIL":
		return MAILFROM
	case "RCPT":
		return RCPTTO
	}
	return BadCmd
}

type trans struct {
	validin []state
	next    state
}

var states = map[Command]trans{
	HELO:     {[]state{sInitial, sHelo}, sHelo},
	EHLO:     {[]state{sInitial, sHelo}, sHelo},
	MAILFROM: {[]state{sHelo}, sMail},
	RCPTTO:   {[]state{sMail, sRcpt}, sRcpt},
	DATA:     {[]state{sRcpt}, sData},
}

func has(l []state, s state) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// Next returns the next event.
func (c *Conn) Next() EventInfo {
	// A command that the caller did not answer is accepted.
	if !c.replied && c.curcmd != noCmd {
		c.Accept()
	}
	if c.state == sStartup {
		c.state = sInitial
		c.log("#", "remote %v at %s", c.conn.RemoteAddr(), time.Now().Format(TimeFmt))
		c.fake.Greeted = true
		c.reply(220, fmt.Sprintf("%s %s\n%s", c.Config.LocalName, c.Config.SftName, c.Config.Announce))
	}

	for c.state != sQuit && c.state != sAbort {
		if c.badcmds > DefaultLimits.BadCmds {
			c.reply(554, "Too many bad commands")
			break
		}
		cmd, ok := c.fake.NextCmd()
		if !ok || cmd.Verb == "ABORT" {
			break
		}
		if c.state == sData {
			if cmd.Verb != "BODY" {
				break // the client broke off inside the data
			}
			c.state = sPostData
			c.nstate = sHelo
			c.replied = false
			return EventInfo{What: GOTDATA, Arg: cmd.Arg}
		}
		if cmd.Arg != "" {
			c.log("r", "%s %s", cmd.Verb, cmd.Arg)
		} else {
			c.log("r", "%s", cmd.Verb)
		}
		v := verb(cmd.Verb)
		switch v {
		case BadCmd:
			c.badcmds++
			c.reply(501, "Bad: unrecognized command")
			continue
		case NOOP:
			c.reply(250, "Okay")
			continue
		case HELP:
			c.reply(214, "No help here")
			continue
		case VRFY, EXPN, AUTH:
			c.reply(502, "Not supported")
			continue
		case RSET:
			// not delivered to the caller
			if c.state != sInitial {
				c.state = sHelo
			}
			c.reply(250, "Okay")
			continue
		case QUIT:
			c.state = sQuit
			c.reply(221, "Goodbye")
			continue
		case STARTTLS:
			if c.state != sHelo {
				c.reply(503, "Out of sequence command")
				continue
			}
			if c.Config.TLSConfig == nil || c.TLSOn {
				c.reply(502, "Not supported")
				continue
			}
			c.fake.Info["clientauth"] = fmt.Sprint(int(c.Config.TLSConfig.ClientAuth))
			c.fake.Info["tickets"] = fmt.Sprint(c.Config.TLSConfig.SessionTicketsDisabled)
			var cs []string
			for _, ct := range c.Config.TLSConfig.Certificates {
				if len(ct.Certificate) > 0 {
					if x, err := x509.ParseCertificate(ct.Certificate[0]); err == nil {
						cs = append(cs, x.Subject.CommonName)
					}
				}
			}
			c.fake.Info["certs"] = strings.Join(cs, ",")
			c.reply(220, "Ready to start TLS")
			o := cmd.TLS
			if o == nil {
				o = &vrt.TLSOutcome{Version: 0x0303, Cipher: 0x002f}
			}
			if o.Fail {
				c.log("!", "TLS setup failed: stand-in")
				c.state = sAbort
				c.curcmd = noCmd
				return EventInfo{What: TLSERROR, Arg: "stand-in TLS failure"}
			}
			c.TLSOn = true
			c.TLSState = tls.ConnectionState{HandshakeComplete: true, Version: o.Version,
				CipherSuite: o.Cipher, ServerName: o.ServerName}
			if pc, ok := o.PeerCert.(*x509.Certificate); ok && c.Config.TLSConfig.ClientAuth != tls.NoClientCert {
				c.TLSState.PeerCertificates = []*x509.Certificate{pc}
				if o.ChainVerify {
					c.TLSState.VerifiedChains = [][]*x509.Certificate{{pc}}
				}
			}
			c.log("!", "TLS negotiated with cipher 0x%04x protocol 0x%04x", o.Cipher, o.Version)
			c.state = sInitial
			continue
		}
		t := states[v]
		if !has(t.validin, c.state) {
			c.reply(503, "Out of sequence command")
			continue
		}
		c.nstate = t.next
		c.replied = false
		c.curcmd = v
		return EventInfo{What: COMMAND, Cmd: v, Arg: cmd.Arg}
	}
	c.curcmd = noCmd
	if c.state == sQuit {
		c.log("#", "finished at %v", time.Now().Format(TimeFmt))
		return EventInfo{What: DONE}
	}
	c.state = sAbort
	c.log("#", "abort at %v", time.Now().Format(TimeFmt))
	return EventInfo{What: ABORT}
}
