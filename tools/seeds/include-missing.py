property = 'C08'
needs = 'an included file that has disappeared'
breaks = 'a missing included file is skipped without an error'
edits = [
    ('rparse.go',
     r"""	rules, err := loadRules(fname, p.depth+1)
	if err != nil {
""",
     r"""	rules, err := loadRules(fname, p.depth+1)
	if err != nil && !errors.Is(err, fs.ErrNotExist) {
"""),
    ('rparse.go',
     r"""	"fmt"
	"net"
""",
     r"""	"fmt"
	"io/fs"
	"net"
"""),
]
demo = r"""
write("r1", "include inc\n"); write("inc", "reject from bad@b.c\n")
d = Daemon("-force-receive", "-r", "r1")
s = d.session()
check(s.code("EHLO h") == 250, "good rules")
os.unlink("inc")
s = d.session()
check(s.code("EHLO h") // 100 == 4, "rules with a missing include were used")
"""
