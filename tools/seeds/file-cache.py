property = 'C24'
needs = 'a pattern file that is changed in place to one of the same size within the time stamp granularity'
breaks = 'pattern files are cached across sessions by time stamp and size, so a changed file may not be seen'
edits = [
    ('rules.go',
     r"""	if c.files[fname] != nil {
		return c.files[fname]
	}
	l := loadList(fname)
""",
     r"""	if c.files[fname] != nil {
		return c.files[fname]
	}
	listCache.Lock()
	defer listCache.Unlock()
	var l []string
	if fi, err := os.Stat(fname); err == nil {
		ent := listCache.m[fname]
		if ent == nil || !ent.when.Equal(fi.ModTime()) || ent.size != fi.Size() {
			ent = &listEnt{fi.ModTime(), fi.Size(), loadList(fname)}
			if len(ent.l) > 0 {
				listCache.m[fname] = ent
			}
		}
		l = ent.l
	} else {
		l = loadList(fname)
	}
"""),
    ('rules.go',
     r"""// We pull the list out of c.files if it's already loaded.
""",
     r"""type listEnt struct {
	when time.Time
	size int64
	l    []string
}

var listCache = struct {
	sync.Mutex
	m map[string]*listEnt
}{m: make(map[string]*listEnt)}

// We pull the list out of c.files if it's already loaded.
"""),
    ('rules.go',
     r"""	"net"
	"strings"
""",
     r"""	"net"
	"os"
	"strings"
	"sync"
	"time"
"""),
]
demo = r"""
write("pats", "a@b.c\n"); os.utime("pats", (1000, 1000))
write("rules", "reject from ./pats\n")
d = Daemon("-force-receive", "-r", "rules")
s = d.session()
s.cmd("EHLO h")
check(s.code("MAIL FROM:<a@b.c>") == 550, "a@b.c in the file")
write("pats", "z@b.c\n"); os.utime("pats", (1000, 1000))
s = d.session()
s.cmd("EHLO h")
check(s.code("MAIL FROM:<a@b.c>") == 250, "a@b.c not in the file any more")
check(s.code("MAIL FROM:<z@b.c>") in (550, 503), "z@b.c")
"""
