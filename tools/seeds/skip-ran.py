property = 'C01'
needs = 'an @from accept rule that hides a later rule without a phase from the phase in which that rule could first have matched'
breaks = 'a refusing rule that was already eligible in an earlier phase is not looked at again'
edits = [('rules.go', r"""			continue
		}
		// NOTE that we cannot cleverly skip checking stall or
""", r"""			continue

		case r.deferto == pAny && r.result > aAccept && rp < ph && rp >= pMfrom:
			// would have stopped us earlier
			continue
		}
		// NOTE that we cannot cleverly skip checking stall or
""")]
demo = r"""
write("rules", "@from accept from a@b.c\nreject from @b.c\n")
d = Daemon("-force-receive", "-r", "rules")
s = d.session()
check(s.code("EHLO h") == 250 and s.code("MAIL FROM:<a@b.c>") == 250, "accepted sender")
check(s.code("RCPT TO:<x@y.z>") == 550, "the rule is not used in a later phase")
"""
