# Planted changes for sorting, intersection and time (C23-C25, C34).
SORT = "algox/sortx/sortx.go"; SEARCH = "algox/searchx/searchx.go"
INT = "timex/intersectionx/intersectionx.go"; TR = "timex/truncatex/truncatex.go"; DIFF = "timex/diffx/diffx.go"; TX = "timex/timex.go"
seed("C23-stable-small", "C23", [(SORT, "func SortStableCustom[T any](s []T, less func(i, j T) bool) {\n	slices.SortStableFunc(s, less)\n", "func SortStableCustom[T any](s []T, less func(i, j T) bool) {\n	if len(s) > 4096 {\n		// insertion sort is too slow here\n		slices.SortFunc(s, less)\n		return\n	}\n	slices.SortStableFunc(s, less)\n")],
 "algox/sortx", '''
package sortx

import "testing"

func TestDemo(t *testing.T) {
	type rec struct{ k, seq int }
	s := make([]rec, 5000)
	for i := range s {
		s[i] = rec{i % 7, i}
	}
	SortStableCustom(s, func(a, b rec) bool { return a.k < b.k })
	for i := 1; i < len(s); i++ {
		if s[i-1].k > s[i].k || s[i-1].k == s[i].k && s[i-1].seq > s[i].seq {
			t.Fatalf("records %d and %d changed places", s[i-1].seq, s[i].seq)
		}
	}
}
''', "more than 4096 elements with equal keys", "a long slice is sorted with the unstable algorithm")
seed("C23-reverse-equal", "C23", [(SORT, "func IsSortedReverse[T constraints.Ordered](s []T) bool {\n	return IsSortedCustom(s, func(i, j T) bool {\n		return i > j\n", "func IsSortedReverse[T constraints.Ordered](s []T) bool {\n	return IsSortedCustom(s, func(i, j T) bool {\n		return !(i < j)\n")],
 "algox/sortx", '''
package sortx

import "testing"

func TestDemo(t *testing.T) {
	if !IsSortedReverse([]int{3, 2, 2, 1}) {
		t.Fatal("a descending slice is said to be unsorted")
	}
	if IsSortedReverse([]int{3, 2, 2, 3}) {
		t.Fatal("an unsorted slice is said to be descending")
	}
}
''', "equal neighbours", "equal elements next to each other count as out of order")
seed("C24-unequal-ties", "C24", [(INT, "func (s iSlice) Less(i, j int) bool {\n	if s[i].Offset != s[j].Offset {\n		return s[i].Offset < s[j].Offset\n	}\n	return s[i].Type < s[j].Type\n", "func (s iSlice) Less(i, j int) bool {\n	if d := int32(s[i].Offset - s[j].Offset); d != 0 {\n		return d < 0\n	}\n	return s[i].Type < s[j].Type\n")],
 "timex/intersectionx", '''
package intersectionx

import (
	"math/rand"
	"testing"
)

func TestDemo(t *testing.T) {
	rng := rand.New(rand.NewSource(1))
	for n := 0; n < 2000; n++ {
		var a []Interval
		for i := 0; i < 4; i++ {
			a = append(a, Interval{rng.Int63n(1 << 33), rng.Int63n(1 << 32)})
		}
		x, y, ok := Intersection(a...)
		for k := 0; k < 8; k++ {
			rng.Shuffle(len(a), func(i, j int) { a[i], a[j] = a[j], a[i] })
			if x2, y2, ok2 := Intersection(a...); x2 != x || y2 != y || ok2 != ok {
				t.Fatalf("%v: %d %d %v, in another order %d %d %v", a, x, y, ok, x2, y2, ok2)
			}
		}
	}
}
''', "end points that are equal modulo 2^32 or further apart than 2^31", "end points are compared by the low 32 bits of their difference")
seed("C24-sort-args", "C24", [(INT, "	is := make(iSlice, 0, len(intervals)*3)\n	for i := range intervals {\n", "	is := make(iSlice, 0, len(intervals)*3)\n	// scan the narrow intervals first\n	for i := 1; i < len(intervals); i++ {\n		if intervals[i].ConfidenceBand < intervals[0].ConfidenceBand {\n			intervals[0], intervals[i] = intervals[i], intervals[0]\n		}\n	}\n	for i := range intervals {\n")],
 "timex/intersectionx", '''
package intersectionx

import (
	"reflect"
	"testing"
)

func TestDemo(t *testing.T) {
	a := []Interval{{10, 4}, {11, 3}, {12, 1}, {9, 5}}
	b := append([]Interval(nil), a...)
	Intersection(a...)
	if !reflect.DeepEqual(a, b) {
		t.Fatalf("the caller's intervals became %v", a)
	}
}
''', "a caller that passes a slice it keeps, with a narrower interval behind the first", "the caller's slice is rearranged")
seed("C25-week-remainder", "C25", [(TR, "	return Truncate(sec, 1*60*60*24*7)\n", "	const week = 1 * 60 * 60 * 24 * 7\n	// the epoch was a Thursday\n	return sec - (sec+3*60*60*24)%week\n")],
 "timex/truncatex", '''
package truncatex

import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	for _, s := range []int64{0, 1, 1700000000, -1, -400000, -10000000} {
		w := time.Unix(TruncateWeek(s), 0).UTC()
		if w.Weekday() != time.Monday || w.Unix() > s || s-w.Unix() >= 7*86400 {
			t.Fatalf("%d -> %v", s, w)
		}
	}
}
''', "a time in 1969 or before, more than three days before the epoch", "the remainder of a negative number is negative, so the result is the next Monday")
seed("C25-month-local", "C25", [(TR, "	month := timex.Custom(sec, 0).Month()\n", "	month := time.Unix(sec, 0).Month()\n")],
 "timex/truncatex", '''
package truncatex

import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	old := time.Local
	defer func() { time.Local = old }()
	for _, h := range []int{-11, 0, 11} {
		time.Local = time.FixedZone("x", h*3600)
		s := time.Date(2024, 3, 1, 3, 0, 0, 0, time.UTC).Unix()
		e := time.Date(2024, 3, 31, 23, 0, 0, 0, time.UTC).Unix()
		for _, v := range []int64{s, e} {
			if got := time.Unix(TruncateMonth(v), 0).UTC(); got.Month() != 3 || got.Day() != 1 {
				t.Fatalf("%+d: %v", h, got)
			}
		}
	}
}
''', "a local time zone other than UTC and a time near the turn of a month", "the month is taken in the local time zone")
seed("C34-restart-end", "C34", [(DIFF, "func (d *Differ) Start() {\n	d.start = timex.Now()\n", "func (d *Differ) Start() {\n	d.start = timex.Now()\n	if d.end.Before(d.start) {\n		d.end = d.start\n	}\n")],
 "timex/diffx", '''
package diffx

import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	d := New()
	d.Start()
	d.End()
	end := d.GetEnd()
	time.Sleep(2 * time.Millisecond)
	d.Start()
	if !d.GetEnd().Equal(end) {
		t.Fatalf("the end became %v without a call of End", d.GetEnd())
	}
}
''', "a second start after an end", "starting again overwrites the recorded end")
seed("C34-clamp", "C34", [(DIFF, "	return d.end.Sub(d.start)\n", "	if d.end.Before(d.start) && !d.end.IsZero() {\n		return d.start.Sub(d.end)\n	}\n	return d.end.Sub(d.start)\n")],
 "timex/diffx", '''
package diffx

import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	d := New()
	d.Start()
	d.End()
	time.Sleep(2 * time.Millisecond)
	d.Start()
	if got, want := d.GetDiff(), d.GetEnd().Sub(d.GetStart()); got != want {
		t.Fatalf("difference %v, end minus start %v", got, want)
	}
}
''', "a differ started again after its end", "the difference loses its sign when the recorded end lies before the start")
