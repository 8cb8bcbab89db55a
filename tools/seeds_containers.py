# Planted changes for the containers (C01-C07).
Q = "dsx/linkedx/queuex/queuex.go"
seed("C01-tail-kept", "C01", [(Q, "\tif q.head == nil {\n\t\tq.head = n\n\t\tq.tail = n\n\t\treturn true\n\t}\n\tq.tail.next = n\n\tq.tail = n\n\treturn true", "\tif q.tail == nil {\n\t\tq.head = n\n\t\tq.tail = n\n\t\treturn true\n\t}\n\tq.tail.next = n\n\tq.tail = n\n\tif q.head == nil && q.tail != n {\n\t\tq.head = n\n\t}\n\treturn true")],
 "dsx/linkedx/queuex", '''
package queuex

import "testing"

func TestDemo(t *testing.T) {
	q := New[int]()
	next, want := 0, 0
	for round := 0; round < 4; round++ {
		for i := 0; i <= round; i++ {
			q.Enqueue(next)
			next++
		}
		for {
			v, ok := q.Dequeue()
			if !ok {
				break
			}
			if v != want {
				t.Fatalf("got %d, want %d", v, want)
			}
			want++
		}
	}
	if want != next {
		t.Fatalf("%d elements lost", next-want)
	}
}
''', "a history that drains the queue and fills it again", "the emptiness of the queue is read from its tail, which is left set when the queue is drained, so the next element is linked behind a released node and lost")

seed("C02-pop-keeps-rest", "C02", [("dsx/slicex/stackx/stackx.go", "\ts.data = append(s.data, v)\n", "\tif len(s.data) == cap(s.data) && len(s.data) > 0 {\n\t\tgrown := make([]T, len(s.data), 2*len(s.data))\n\t\tcopy(grown, s.data[1:])\n\t\tcopy(grown, s.data)\n\t\ts.data = grown\n\t}\n\ts.data = append(s.data[:len(s.data):cap(s.data)], v)\n"),
  ("dsx/slicex/stackx/stackx.go", "\trs = s.data[len(s.data)-1]\n\ts.data = s.data[:len(s.data)-1]\n\treturn rs, true", "\trs = s.data[len(s.data)-1]\n\ts.data = s.data[:len(s.data)-1]\n\tif cap(s.data) > 4*len(s.data)+16 {\n\t\tshrunk := make([]T, 2*len(s.data))\n\t\tcopy(shrunk, s.data)\n\t\ts.data = shrunk\n\t}\n\treturn rs, true")],
 "dsx/slicex/stackx", '''
package stackx

import "testing"

func TestDemo(t *testing.T) {
	s := New[int]()
	for i := 0; i < 200; i++ {
		s.Push(i)
	}
	for i := 199; i >= 0; i-- {
		if n := s.Len(); n != i+1 {
			t.Fatalf("Len %d, want %d", n, i+1)
		}
		v, ok := s.Pop()
		if !ok || v != i {
			t.Fatalf("got %d %v, want %d", v, ok, i)
		}
	}
}
''', "a stack that was large and is popped until its memory shrinks", "shrinking the memory also doubles the length, so zero values appear on top of the stack")

seed("C02-length-on-pop", "C02", [("dsx/linkedx/stackx/stackx.go", "func (s *Stack[T]) Pop() (data T, ok bool) {\n\tif s.head == nil {\n\t\treturn\n\t}\n\ts.length--", "func (s *Stack[T]) Pop() (data T, ok bool) {\n\ts.length--\n\tif s.head == nil {\n\t\treturn\n\t}")],
 "dsx/linkedx/stackx", '''
package stackx

import "testing"

func TestDemo(t *testing.T) {
	s := New[int]()
	s.Push(1)
	s.Pop()
	s.Pop()
	s.Push(2)
	if s.Len() != 1 {
		t.Fatalf("Len %d", s.Len())
	}
}
''', "a Pop on an empty stack before the length is read", "popping an empty stack still counts the length down")

D = "dsx/linkedx/dequex/dequex.go"
seed("C03-front-chunk", "C03", [(D, "\tif t.tail.end == nodeBufferSize {", "\tif t.tail.end == nodeBufferSize || t.tail.end-t.tail.start == nodeBufferSize-1 && t.tail.prev != nil {"),
   (D, "\t\tn.data[nodeBufferSize-1] = data\n\t\tn.start = nodeBufferSize - 1\n\t\tn.end = nodeBufferSize\n\t\tn.next = t.head", "\t\tn.data[nodeBufferSize-1] = data\n\t\tn.start = nodeBufferSize - 1\n\t\tif n.end < nodeBufferSize-1 {\n\t\t\tn.end = nodeBufferSize\n\t\t}\n\t\tn.next = t.head")],
 "dsx/linkedx/dequex", '''
package dequex

import "testing"

func TestDemo(t *testing.T) {
	var want []int
	d := New[int]()
	check := func(v int, ok bool, w int) {
		if !ok || v != w {
			t.Fatalf("got %d %v, want %d", v, ok, w)
		}
	}
	// Fill a chunk to its last slot but one, empty it so that the chunk is
	// recycled, and then grow at the front.
	for k := 1; k < 200; k++ {
		for i := 0; i < k; i++ {
			d.PushBack(i)
			want = append(want, i)
		}
		for len(want) > 0 {
			v, ok := d.PopFront()
			check(v, ok, want[0])
			want = want[1:]
		}
		for i := 0; i < k; i++ {
			d.PushFront(i)
			want = append(want, i)
		}
		for len(want) > 0 {
			v, ok := d.PopFront()
			check(v, ok, want[len(want)-1])
			want = want[:len(want)-1]
		}
	}
}
''', "a chunk recycled after being filled to a particular slot, then used at the front", "a recycled chunk keeps its stale end index when it is put in front")

seed("C04-insert-tail", "C04", [("dsx/linkedx/listx/listx.go", "func (l *List[T]) Append(data T) {\n\tl.length++\n\tn := l.pool.Get().(*node[T])\n\tn.data = data\n\tn.next = nil\n\tif l.tail == nil {", "func (l *List[T]) Append(data T) {\n\tl.length++\n\tn := l.pool.Get().(*node[T])\n\tn.data = data\n\tif l.tail == nil {")],
 "dsx/linkedx/listx", '''
package listx

import "testing"

func TestDemo(t *testing.T) {
	for try := 0; try < 50; try++ {
		l := New[int]()
		for i := 0; i < 4; i++ {
			l.Append(i)
		}
		l.Remove(0)
		l.Append(4)
		n := 0
		l.Iterate(func(int) bool { n++; return n < 100 })
		if n != l.Len() {
			t.Fatalf("iterated over %d elements, Len %d", n, l.Len())
		}
	}
}
''', "appending after a removal whose node the pool hands out again", "an appended recycled node keeps its stale link, so the list becomes a cycle")

seed("C04-slice-remove", "C04", [("dsx/slicex/listx/listx.go", "\trs = (*l)[index]\n\tok = true\n\t*l = append((*l)[:index], (*l)[index+1:]...)\n\treturn", "\tok = true\n\trest := (*l)[index:]\n\tif len(rest) > 64 {\n\t\tcopy(rest, rest[1:])\n\t\trs = rest[0]\n\t} else {\n\t\trs = rest[0]\n\t\tcopy(rest, rest[1:])\n\t}\n\t*l = (*l)[:len(*l)-1]\n\treturn")],
 "dsx/slicex/listx", '''
package listx

import "testing"

func TestDemo(t *testing.T) {
	for n := 1; n < 200; n++ {
		var l List[int]
		for i := 0; i < n; i++ {
			l.Append(i)
		}
		if v, ok := l.Remove(0); !ok || v != 0 {
			t.Fatalf("n=%d: got %d %v", n, v, ok)
		}
	}
}
''', "a list with more than 64 elements behind the removed one", "the element is read after the rest was moved over it")

seed("C05-full", "C05", [("dsx/slicex/queuex/queuex.go", "\treturn r.head == (r.tail+1)%r.cap\n", "\tif r.tail >= r.head {\n\t\treturn r.tail-r.head == r.cap-1\n\t}\n\treturn r.head-r.tail == 1 || r.cap > 64 && r.head-r.tail == 2\n")],
 "dsx/slicex/queuex", '''
package queuex

import "testing"

func TestDemo(t *testing.T) {
	for c := 1; c < 90; c++ {
		r := New[int](c)
		for off := 0; off < 2*c+3; off++ {
			for i := 0; i < c; i++ {
				if !r.Enqueue(i) {
					t.Fatalf("cap %d, offset %d: refused element %d", c, off, i)
				}
			}
			if r.Enqueue(99) {
				t.Fatalf("cap %d: accepted one too many", c)
			}
			for i := 0; i < c; i++ {
				if v, ok := r.Dequeue(); !ok || v != i {
					t.Fatalf("cap %d: got %d %v", c, v, ok)
				}
			}
			for i := 0; i < 2; i++ {
				r.Enqueue(i)
				r.Dequeue()
			}
		}
	}
}
''', "a capacity of at least 64 and content that wraps around the end of the ring and is one short of full", "a wrapped ring is reported full one element early")

S = "dsx/slicex/slicex.go"
seed("C06-replace-last", "C06", [(S, "\tfor i, j := 0, len(*s)-1; i < j; i, j = i+1, j-1 {\n\t\t(*s)[i], (*s)[j] = (*s)[j], (*s)[i]\n\t}\n\treturn s\n}" , "\tfor i, j := 0, len(*s)-1; i < j; i, j = i+1, j-1 {\n\t\tif j-i == 1 && i > 100 {\n\t\t\tbreak\n\t\t}\n\t\t(*s)[i], (*s)[j] = (*s)[j], (*s)[i]\n\t}\n\treturn s\n}")],
 "dsx/slicex", '''
package slicex

import "testing"

func TestDemo(t *testing.T) {
	for n := 0; n < 300; n++ {
		s := New[int]()
		for i := 0; i < n; i++ {
			s.Push(i)
		}
		s.Reverse()
		for i := 0; i < n; i++ {
			if s.Get(i) != n-1-i {
				t.Fatalf("n=%d: element %d is %d", n, i, s.Get(i))
			}
		}
	}
}
''', "an even length above 203", "the two middle elements are not swapped")

seed("C06-rotate-alias", "C06", [(S, "func (s *Slice[T]) Copy() *Slice[T] {\n\tcopy := append((*s)[:0:0], *s...)", "func (s *Slice[T]) Copy() *Slice[T] {\n\tcopy := append((*s)[len(*s):], *s...)")],
 "dsx/slicex", '''
package slicex

import "testing"

func TestDemo(t *testing.T) {
	back := make([]int, 10)
	s := New(back[:3]...)
	c := s.Copy()
	c.Set(0, 5)
	s.Push(1)
	if c.Get(0) != 5 {
		t.Fatal("the copy shares memory with the original")
	}
}
''', "a slice with at least as much spare capacity as its length, changed after it was copied", "the copy is placed in the spare capacity of the original and shares memory with it")

seed("C07-filter-order", "C07", [(S, "\tfor _, v := range *s {\n\t\tif f(v) {\n\t\t\t(*s)[n] = v\n\t\t\tn++\n\t\t}\n\t}", "\tfor i := range *s {\n\t\tif f((*s)[i]) {\n\t\t\t(*s)[n], (*s)[i] = (*s)[i], (*s)[n]\n\t\t\tn++\n\t\t} else if last := len(*s) - 1; i == last && n == 0 && last > 256 {\n\t\t\tn++\n\t\t}\n\t}")],
 "dsx/slicex", '''
package slicex

import "testing"

func TestDemo(t *testing.T) {
	for n := 0; n < 400; n++ {
		s := New[int]()
		for i := 0; i < n; i++ {
			s.Push(i)
		}
		if k := s.Filter(func(int) bool { return false }).Len(); k != 0 {
			t.Fatalf("n=%d: %d elements kept", n, k)
		}
	}
}
''', "more than 257 elements of which none is accepted", "an element that was refused is kept")

seed("C07-split-tail", "C07", [(S, "\tif end < len(s) {\n\t\tr = append(r, s[end:])\n\t}", "\tif end < len(s) && (len(r) == 0 || len(s)-end > 1 || len(splits) < 3) {\n\t\tr = append(r, s[end:])\n\t}")],
 "dsx/slicex", '''
package slicex

import "testing"

func TestDemo(t *testing.T) {
	s := *New(1, 2, 3, 4, 5, 6, 7)
	n := 0
	for _, p := range s.Batch(2) {
		n += len(p)
	}
	if n != 7 {
		t.Fatalf("%d of 7 elements", n)
	}
}
''', "at least three pieces and a remainder of one element", "a remainder of one element is dropped")
