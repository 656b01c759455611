package ref

import (
	"bufio"
	"encoding/json"
	"math/big"
	"os"
	"testing"
)

// TestAgainstMpmath cross-validates trans.go with cases produced by
// tools/transcross.py (skipped unless TRANSCROSS names the file).
func TestAgainstMpmath(t *testing.T) {
	path := os.Getenv("TRANSCROSS")
	if path == "" {
		t.Skip("TRANSCROSS not set")
	}
	f, err := os.Open(path)
	if err != nil {
		t.Fatal(err)
	}
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<24)
	n, bad := 0, map[string]int{}
	for sc.Scan() {
		var c struct {
			F, X, Y, R string
			Need       int
		}
		if err := json.Unmarshal(sc.Bytes(), &c); err != nil {
			t.Fatal(err)
		}
		n++
		a := Fn(c.F, MustParse(c.X), MustParse(c.Y), c.Need)
		p := (c.Need + 8) * 30103 / 100000
		d, _ := a.UlpDiff(MustParse(c.R), p)
		if d.Cmp(big.NewInt(1000)) > 0 {
			if bad[c.F]++; bad[c.F] < 4 {
				t.Errorf("%+v: off by %v/1000 ulp of %d digits", c, d, p)
			}
		}
	}
	t.Logf("%d cases, bad: %v", n, bad)
}
