//go:build generated

package harness

import (
	"sym"
	"thrift"
)

// C34_Order: structs are ordered by the first field, as the struct lists them, in which they differ.
func C34_Order() {
	n := sym.Choose("struct", len(subjects))
	a, s := subjects[n]()
	b, u := subjects[n]()
	sym.Assume(n != 12) // (_under is not exported)
	fields := a.TStructFields()
	want := 0
	g := leaves(kBin)
	g.lens = []int{1}
	// two fields, of base types
	first := sym.Choose("field", sym.Bound(1, 2))
	left := 2
	for i := first; i < fields.Len() && left > 0; i++ {
		for j := range s {
			if int(s[j].id) != fields.At(i).Id() {
				continue
			}
			switch s[j].t {
			case thrift.STRUCT, thrift.LIST, thrift.SET, thrift.MAP:
				continue
			}
			if sym.Choose("skip", 2) == 1 {
				continue
			}
			left--
			x, y := native(g.of(s[j].t, 0)), native(g.of(s[j].t, 0))
			s[j].put(x)
			u[j].put(y)
			if want == 0 {
				want = order(x, y)
			}
		}
	}
	r, k := a.CompareTo(b)
	sym.Assert(k && r == want, "structs are not ordered by the first field that differs")
	sym.Reach("end")
}
