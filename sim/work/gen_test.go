package work

import (
	"strings"
	"testing"

	"github.com/yanun0323/goast"
)

func TestGen(t *testing.T) {
	bad := 0
	tot := 0
	for s := uint64(0); s < 3000; s++ {
		src := Formatted(s, int(s%8))
		tot += len(src)
		scs, err := goast.ParseScope(0, []byte(src))
		if err != nil {
			t.Fatal(err)
		}
		var b strings.Builder
		for _, sc := range scs {
			for n := sc.Node(); n != nil; n = n.Next() {
				b.WriteString(n.Text())
			}
		}
		if b.String() != src {
			bad++
			if bad < 4 {
				t.Errorf("seed %d lossy:\n%s\n----\n%s", s, src, b.String())
			}
		}
	}
	t.Log(bad, tot/3000)
}
