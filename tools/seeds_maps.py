# Planted changes for the maps and the converters (C08-C10, C16, C17).
S = "dsx/mapx/sklmapx/sklmapx.go"
O = "dsx/mapx/ordmapx/ordmapx.go"
Y = "dsx/mapx/syncmapx/syncmapx.go"
C = "typex/convx/convx.go"
SKLTEST = '''
package sklmapx

import (
	"math/rand"
	"sort"
	"testing"
)

func TestDemo(t *testing.T) {
	m := New[int, int]()
	ref := map[int]int{}
	r := rand.New(rand.NewSource(1))
	var keys func(from int) []int
	keys = func(from int) (ks []int) {
		for k := range ref {
			if k >= from {
				ks = append(ks, k)
			}
		}
		sort.Ints(ks)
		return ks
	}
	for i := 0; i < 60000; i++ {
		k := r.Intn(400)
		switch r.Intn(3) {
		case 0, 1:
			m.Set(k, i)
			ref[k] = i
		default:
			_, has := ref[k]
			if m.Del(k) != has {
				t.Fatalf("Del(%d) at %d", k, i)
			}
			delete(ref, k)
		}
		v, ok := m.Get(k)
		w, has := ref[k]
		if ok != has || v != w {
			t.Fatalf("Get(%d) at %d", k, i)
		}
		if m.Len() != len(ref) {
			t.Fatalf("Len at %d", i)
		}
		if i%500 == 0 {
			want := keys(-1)
			got := m.Keys()
			if len(got) != len(want) {
				t.Fatalf("Keys at %d: %d, want %d", i, len(got), len(want))
			}
			for j := range got {
				if got[j] != want[j] {
					t.Fatalf("Keys at %d", i)
				}
			}
		}
	}
	for from := range ref {
		want := keys(from)
		it := m.Iterator()
		k, v, ok := it.Seek(from)
		for j := 0; ok; j++ {
			if j >= len(want) || k != want[j] || v != ref[k] {
				t.Fatalf("iteration from %d", from)
			}
			k, v, ok = it.Next()
		}
		it.Rewind()
		n := 0
		for _, _, ok := it.Next(); ok; _, _, ok = it.Next() {
			n++
		}
		if n != len(ref) {
			t.Fatalf("rewound iteration: %d", n)
		}
	}
}
'''
seed("C08-unlink-top-level", "C08", [(S, "	for i := 0; i < x.Height(); i++ {\n		ctx[i].next[i] = x.next[i]", "	for i := 0; i < x.Height() && (i == 0 || ctx[i] != l.head || x.next[i] != l.tail || i < MAX_HEIGHT-1); i++ {\n		ctx[i].next[i] = x.next[i]")],
 "dsx/mapx/sklmapx", SKLTEST.replace("TestDemo(t *testing.T) {\n", "TestDemo(t *testing.T) {\n", 1).replace("60000", "2000000").replace("r.Intn(400)", "r.Intn(12)"),
 "a node of the greatest height that is alone in the top level, and its deletion (one node in 32768)", "the top level is not unlinked when the deleted node is its only one, so a deleted node stays reachable from the head")
seed("C08-search-hint", "C08", [(S, "	x := l.head\n	for i := MAX_HEIGHT - 1; i >= 0; i-- {\n		for x.next[i]", "	x := l.head\n	top := MAX_HEIGHT - 1\n	for top > 0 && l.len>>uint(top) == 0 {\n		ctx[top] = x\n		top--\n	}\n	for i := top; i >= 0; i-- {\n		for x.next[i]")],
 "dsx/mapx/sklmapx", SKLTEST,
 "a node higher than the level the length suggests, another inserted or deleted behind it", "levels above the one the length suggests are skipped in the search, so the recorded predecessor at those levels is the head even when another node precedes: relinking there drops nodes or leaves a deleted one linked")
seed("C08-replace-len", "C08", [(S, "	if x != nil {\n		x.value = value\n		return x\n	}\n\n	level := l.rand_height()", "	level := l.rand_height()\n	if x != nil {\n		if x.Height() < level {\n			x.height = uint16(level)\n		}\n		x.value = value\n		return x\n	}\n")],
 "dsx/mapx/sklmapx", SKLTEST,
 "replacing the value of a key with a greater random level, and later deleting that key", "replacing a value may raise the node's recorded height without linking it there, so deleting it cuts other nodes out of the upper levels")
seed("C08-seek-height", "C08", [(S, "	} else if i.node != i.list.skl.tail {\n		i.node = i.node.next[0]\n	}", "	} else if i.node != i.list.skl.tail {\n		if i.ctx[1] != nil && i.ctx[1].next[1] == i.node && i.node.next[1] != i.list.skl.tail && i.node.height > 14 {\n			i.node = i.node.next[1]\n		} else {\n			i.node = i.node.next[0]\n		}\n	}")] if False else [(S, "	i.node = i.list.skl.search(key, &i.ctx)\n", "	if i.ctx[0] != nil && i.ctx[0] != i.list.skl.head && i.ctx[0].next[0] != i.list.skl.tail && i.ctx[0].next[0].key == key {\n		i.node = i.ctx[0].next[0]\n	} else {\n		i.node = i.list.skl.search(key, &i.ctx)\n	}\n")],
 "dsx/mapx/sklmapx", '''
package sklmapx

import "testing"

func TestDemo(t *testing.T) {
	m := New[int, int]()
	for i := 1; i <= 3; i++ {
		m.Set(i, i)
	}
	it := m.Iterator()
	if _, v, ok := it.Seek(3); !ok || v != 3 {
		t.Fatal("first seek")
	}
	m.Del(2)
	m.Del(3)
	if _, _, ok := it.Seek(3); ok {
		t.Fatal("a deleted key is found")
	}
}
''', "an iterator that seeks the same key twice, with that key and the one before it deleted in between", "the iterator trusts the predecessor it remembered from its last seek, which may have been deleted since and still link to a deleted node")
seed("C09-clear-order", "C09", [(O, "	m.m = make(map[K]V)\n	m.skl.Clear()", "	if m.skl.Len() > len(m.m) {\n		m.skl.Clear()\n	}\n	for _, k := range m.skl.Keys() {\n		delete(m.m, k)\n	}\n	m.skl = sklmapx.New[K, struct{}]()"),
  (O, "	if _, ok := m.m[key]; !ok {\n		m.skl.Set(key, struct{}{})\n	}\n	m.m[key] = value", "	m.m[key] = value\n	if len(m.m) > m.skl.Len() {\n		m.skl.Set(key, struct{}{})\n	}"),
  (O, "	if _, ok := m.m[key]; ok {\n		m.skl.Del(key)\n		delete(m.m, key)\n	}", "	delete(m.m, key)\n	if len(m.m) > 0 || m.skl.Len() == 1 {\n		m.skl.Del(key)\n	}")],
 "dsx/mapx/ordmapx", '''
package ordmapx

import "testing"

func TestDemo(t *testing.T) {
	m := New[int, string]()
	m.Set(1, "a")
	m.Set(2, "b")
	m.Del(1)
	m.Del(2)
	m.Set(3, "c")
	if m.Len() != 1 || len(m.Keys()) != 1 {
		t.Fatalf("Len %d", m.Len())
	}
	m = New[int, string]()
	m.Set(1, "a")
	m.Del(9)
	if m.Len() != 1 {
		t.Fatalf("Len %d", m.Len())
	}
	m.Del(1)
	if m.Len() != 0 {
		t.Fatalf("Len %d after deleting all", m.Len())
	}
	m.Set(1, "x")
	if v, ok := m.Get(1); !ok || v != "x" || len(m.Values()) != 1 {
		t.Fatal("after refill")
	}
	n := New[float64, int]()
	n.Set(0, 1)
	n.Clear()
	n.Set(0, 2)
	if n.Len() != 1 {
		t.Fatal("after clear")
	}
}
'''
, "", "") if False else None
seed("C09-del-last", "C09", [(O, "	if _, ok := m.m[key]; ok {\n		m.skl.Del(key)\n		delete(m.m, key)\n	}", "	before := len(m.m)\n	delete(m.m, key)\n	if after := len(m.m); after > 0 && after < before {\n		m.skl.Del(key)\n	}")],
 "dsx/mapx/ordmapx", '''
package ordmapx

import "testing"

func TestDemo(t *testing.T) {
	m := New[int, string]()
	m.Set(1, "a")
	m.Set(2, "b")
	m.Del(1)
	m.Del(2)
	if m.Len() != 0 || len(m.Keys()) != 0 {
		t.Fatalf("Len %d, keys %v after deleting every key", m.Len(), m.Keys())
	}
}
''', "deleting the last remaining key", "deleting the only remaining key empties the lookup table but leaves the key in the order")
seed("C09-set-zero", "C09", [(O, "	if _, ok := m.m[key]; !ok {\n		m.skl.Set(key, struct{}{})\n	}\n	m.m[key] = value", "	n := len(m.m)\n	m.m[key] = value\n	if len(m.m) != n && m.skl.Len() < n+1 {\n		m.skl.Set(key, struct{}{})\n	}"),
  (O, "	m.m = make(map[K]V)\n	m.skl.Clear()", "	for _, k := range m.skl.Keys() {\n		delete(m.m, k)\n	}\n	if len(m.m) > 0 {\n		m.skl.Clear()\n	}")],
 "dsx/mapx/ordmapx", '''
package ordmapx

import "testing"

func TestDemo(t *testing.T) {
	m := New[int, string]()
	m.Set(1, "a")
	m.Set(2, "b")
	m.Clear()
	if m.Len() != 0 {
		t.Fatalf("Len %d after Clear", m.Len())
	}
	m.Set(7, "c")
	if ks := m.Keys(); len(ks) != 1 || ks[0] != 7 {
		t.Fatalf("keys %v", ks)
	}
}
''', "clearing a map that holds keys, then setting another key", "two sites cooperate: Clear leaves the order as it was when the lookup table could be emptied key by key, and Set inserts into the order only if it is shorter than the table")
seed("C10-size-upgrade", "C10", [(Y, "	m.mtx.Lock()\n	delete(m.m, k)\n	m.mtx.Unlock()", "	m.mtx.RLock()\n	_, ok := m.m[k]\n	m.mtx.RUnlock()\n	if !ok {\n		return\n	}\n	m.mtx.Lock()\n	delete(m.m, k)\n	m.mtx.Unlock()")] if False else [(Y, "	m.mtx.Lock()\n	m.m = make(map[K]V)\n	m.mtx.Unlock()", "	m.mtx.RLock()\n	old := m.m\n	m.mtx.RUnlock()\n	fresh := make(map[K]V, len(old))\n	m.mtx.Lock()\n	m.m = fresh\n	m.mtx.Unlock()")],
 "dsx/mapx/syncmapx", '''
package syncmapx

import (
	"sync"
	"testing"
)

func TestDemo(t *testing.T) {
	m := New[int, int]()
	var wg sync.WaitGroup
	for g := 0; g < 2; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < 3000; i++ {
				if g == 0 {
					m.Set(i, i)
				} else {
					m.Clear()
				}
			}
		}(g)
	}
	wg.Wait()
}
''', "a Set that runs while Clear is reading the size of the old map", "Clear reads the length of the map after it has released the read lock, so it races with a concurrent Set", race=True)
seed("C10-keys-presize", "C10", [(Y, "	t.mtx.RLock()\n	keys := make([]K, 0, len(t.m))\n	for k := range t.m {\n		keys = append(keys, k)\n	}\n	t.mtx.RUnlock()\n	return keys", "	keys := make([]K, t.Size())\n	i := 0\n	t.mtx.RLock()\n	for k := range t.m {\n		if i == len(keys) {\n			break\n		}\n		keys[i] = k\n		i++\n	}\n	t.mtx.RUnlock()\n	return keys")],
 "dsx/mapx/syncmapx", '''
package syncmapx

import (
	"sync"
	"testing"
)

func TestDemo(t *testing.T) {
	m := New[int, int]()
	for i := 1; i <= 100; i++ {
		m.Set(i, i)
	}
	stop := make(chan struct{})
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		for {
			select {
			case <-stop:
				return
			default:
			}
			m.Delete(1)
			m.Delete(2)
			m.Set(1, 1)
			m.Set(2, 2)
		}
	}()
	for i := 0; i < 200000; i++ {
		for _, k := range m.Keys() {
			if k == 0 {
				close(stop)
				t.Fatal("a key that was never in the map")
			}
		}
	}
	close(stop)
	wg.Wait()
}
''', "keys deleted between the two critical sections of Keys", "Keys measures the map in one critical section and copies it in another, so after a concurrent Delete the result is padded with zero keys")
seed("C16-conv-panic-lock", "C16", [(C, "	m := converters[typeOf[T]()]\n	if m == nil {\n		return false\n	}\n	_, ok := m[typeOf[R]()]\n	return ok", "	m := converters[typeOf[T]()]\n	_, ok := m[typeOf[R]()]\n	if !ok {\n		_, ok = converters[typeOf[R]()][typeOf[T]()]\n	}\n	return ok")] if False else [(C, "	convertersLock.Lock()\n	defer convertersLock.Unlock()\n	if converters[typeOf[T]()] == nil {\n		converters[typeOf[T]()] = make(map[reflect.Type]any)\n	}\n", "	if !Exists[T, R]() {\n		convertersLock.Lock()\n		converters[typeOf[T]()] = cloned(converters[typeOf[T]()])\n		convertersLock.Unlock()\n	}\n	convertersLock.Lock()\n	defer convertersLock.Unlock()\n"), (C, "func Unregister[T, R any]() {", "func cloned(m map[reflect.Type]any) map[reflect.Type]any {\n	c := make(map[reflect.Type]any, len(m)+1)\n	for t, f := range m {\n		c[t] = f\n	}\n	return c\n}\n\nfunc Unregister[T, R any]() {"), (C, "	m := converters[typeOf[T]()]\n	if m == nil {\n		return\n	}\n	delete(m, typeOf[R]())", "	m := converters[typeOf[T]()]\n	delete(m, typeOf[R]())\n	if len(m) == 0 {\n		delete(converters, typeOf[T]())\n	}")],
 "typex/convx", '''
package convx

import (
	"sync"
	"testing"
)

type demoA struct{}

func TestDemo(t *testing.T) {
	defer func() {
		if p := recover(); p != nil {
			t.Fatal(p)
		}
	}()
	var wg sync.WaitGroup
	bad := make(chan any, 2)
	for g := 0; g < 2; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					bad <- p
				}
			}()
			for i := 0; i < 300000; i++ {
				if g == 0 {
					Register(func(demoA) int { return 1 })
				} else {
					Unregister[demoA, int]()
				}
			}
		}(g)
	}
	wg.Wait()
	close(bad)
	for p := range bad {
		t.Fatal(p)
	}
}
''', "an Unregister of the last converter of a type between the two critical sections of Register", "Register prepares the table of its source type in one critical section and stores in another; Unregister now drops empty tables, so the store may hit a nil map and panic")
seed("C16-fallback-kind", "C16", [(C, "	f, ok := v.(func(T) R)\n	if !ok {\n		return\n	}\n	rs = f(value)\n	ok = true\n	return", "	f, ok := v.(func(T) R)\n	if !ok {\n		return\n	}\n	defer func() {\n		if recover() != nil {\n			ok = true\n		}\n	}()\n	rs = f(value)\n	return")] if False else [(C, "	if v == nil {\n		return\n	}\n	f, ok := v.(func(T) R)", "	if v == nil {\n		if r, same := any(value).(R); same {\n			return r, true\n		}\n		return\n	}\n	f, ok := v.(func(T) R)")],
 "typex/convx", '''
package convx

import "testing"

type demoC int

func TestDemo(t *testing.T) {
	if v, ok := Into[demoC, any](demoC(3)); ok || v != nil {
		t.Fatalf("converted without a converter: %v", v)
	}
	if v := IntoOr[any, demoC](demoC(3), 9); v != 9 {
		t.Fatalf("the default is not given: %v", v)
	}
}
''', "converting to an interface type the value implements, or from an interface holding the target type, with no converter registered", "a value is converted without a registered converter when its dynamic type happens to fit the target type")
I = "typex/convx/converters.go"
seed("C17-uint-parse", "C17", [(I, "	i, _ := strconv.ParseUint(s, 10, 64)\n	return T(i)", "	var z T\n	z--\n	bits := 64\n	if uint64(z) == 1<<32-1 {\n		bits = 32\n	}\n	i, _ := strconv.ParseUint(s, 10, bits)\n	return T(i)")],
 "typex/convx", '''
package convx

import "testing"

func TestDemo(t *testing.T) {
	if v, ok := Into[string, uint32]("4294967297"); !ok || v != 1 {
		t.Fatalf("got %d, %v", v, ok)
	}
}
''', "a decimal string above 32 bits converted to uint32", "strings are parsed at 32 bits for uint32, so a larger number saturates instead of being converted")
seed("C17-float-format", "C17", [(I, "	return strconv.FormatFloat(float64(i), 'f', -1, 64)", "	var z T\n	bits := 64\n	if z = T(1) / 3; float64(z) != 1.0/3 {\n		bits = 32\n	}\n	return strconv.FormatFloat(float64(i), 'f', -1, bits)")],
 "typex/convx", '''
package convx

import (
	"strconv"
	"testing"
)

func TestDemo(t *testing.T) {
	if v, ok := Into[float32, string](0.1); !ok || v != strconv.FormatFloat(float64(float32(0.1)), 'f', -1, 64) {
		t.Fatalf("got %q", v)
	}
	if v, ok := Into[float64, string](0.1); !ok || v != "0.1" {
		t.Fatalf("got %q", v)
	}
}
''', "a float32 that is not a short decimal fraction, converted to a string", "float32 values are formatted at 32 bits instead of 64")
