property = 'C16'
needs = 'a * line before a line for the local address'
breaks = '* lines only apply if no other line does'
edits = [('conncfg.go', r"""	for _, de := range *d {
		if de.local == "*" || de.local == las {
			return de
		}
""", r"""	var deflt *perDest
	for _, de := range *d {
		if de.local == "*" {
			if deflt == nil {
				deflt = de
			}
			continue
		}
		if de.local == las {
			return de
		}
"""), ('conncfg.go', r"""			return de
		}
	}
	return nil
}
""", r"""			return de
		}
	}
	return deflt
}
""")]
demo = r"""
write("cc", "* hostname=star.example\n127.0.0.1 hostname=local.example\n")
d = Daemon("-force-receive", "-conncfg", "cc")
s = d.session()
check("star.example" in s.greeting[1][0], "the first matching line is not used")
"""
