property = 'C07'
needs = 'a compact rule that ends with a semicolon at the end of the file'
breaks = 'an empty last clause of a compact rule is silently dropped'
edits = [
    ('rparse.go',
     r"""		if p.curtok.typ == itemEOL {
			p.consume()
		}
	}
}
""",
     r"""		if p.curtok.typ == itemEOL {
			p.consume()
		}
		if p.curtok.typ == itemEOF {
			return nil
		}
	}
}
"""),
]
demo = r"""
write("rules", "reject from a@b.c\n")
d = Daemon("-force-receive", "-r", "rules")
write("rules", "reject from a@b.c;\n")
s = d.session()
check(s.code("EHLO h") // 100 == 4, "a rules file that ends in a ; was accepted")
write("rules", "reject from a@b.c;\n  from b@b.c\n")
s = d.session()
check(s.code("EHLO h") == 250, "good rules refused")
"""
