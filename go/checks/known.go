package checks

import (
	"os"
	"strings"
)

// LoadKnown reads the known findings: lines 'finding: property=ID TEXT'.
func LoadKnown(fn string) map[string]bool {
	m := map[string]bool{}
	b, _ := os.ReadFile(fn)
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if s, ok := strings.CutPrefix(l, "finding: property="); ok {
			m[s] = true
		}
	}
	return m
}
