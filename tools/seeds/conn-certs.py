property = 'C16'
needs = 'a matching line without certificates together with -c and -k'
breaks = 'a matching line without certificates uses those of the command line'
edits = [('sinksmtp.go', r"""			certs = pd.certs
		}
""", r"""			if len(pd.certs) > 0 {
				certs = pd.certs
			}
		}
""")]
demo = r"""
write("cc", "* hostname=other.example\n")
d = Daemon("-force-receive", "-conncfg", "cc", *CERT)
s = d.session()
check("other.example" in s.greeting[1][0], "name")
check("STARTTLS" not in s.cmd("EHLO h")[1], "TLS is offered")
"""
