# Planted changes about ways out by panic (C10, C32).
SM = "dsx/mapx/syncmapx/syncmapx.go"; LK = "syncx/lockx/lockx.go"
seed("C32-impatient", "C32", [(LK, "	p := l\n	for !atomic", "	p := l\n	spins := 0\n	for !atomic"),
 (LK, "		runtime.Gosched()\n		p = l\n	}\n", "		// a lock that is not given back belongs to nobody any more\n		if spins++; spins > 1<<16 {\n			break\n		}\n		runtime.Gosched()\n		p = l\n	}\n")], "syncx/lockx", '''
package lockx

import (
	"sync/atomic"
	"testing"
	"time"
	"unsafe"
)

func TestDemo(t *testing.T) {
	var x unsafe.Pointer
	x = unsafe.Pointer(&x)
	var in, both atomic.Int32
	work := func(d time.Duration) func(*unsafe.Pointer) {
		return func(*unsafe.Pointer) {
			if in.Add(1) > 1 {
				both.Store(1)
			}
			time.Sleep(d)
			in.Add(-1)
		}
	}
	held := make(chan struct{})
	done := make(chan struct{}, 2)
	go func() {
		Lock(&x, func(p *unsafe.Pointer) { close(held); work(5*time.Second)(p) })
		done <- struct{}{}
	}()
	<-held
	go func() {
		Lock(&x, work(0))
		done <- struct{}{}
	}()
	for i := 0; i < 2; i++ {
		select {
		case <-done:
		case <-time.After(20 * time.Second):
			t.Fatal("the lock is never given back")
		}
	}
	if both.Load() != 0 {
		t.Fatal("the function ran while another held the lock")
	}
}
''', "a holder that keeps the lock for longer than some thousand attempts", "a waiter gives up waiting and runs its function beside the holder")
seed("C10-split-values", "C10", [(SM, "	t.mtx.RLock()\n	items := make([]V, 0, len(t.m))\n	for _, v := range t.m {\n		items = append(items, v)\n	}\n	t.mtx.RUnlock()\n	return items\n", "	items := make([]V, 0, t.Size())\n	for _, k := range t.Keys() {\n		t.mtx.RLock()\n		items = append(items, t.m[k])\n		t.mtx.RUnlock()\n	}\n	return items\n")], "dsx/mapx/syncmapx", '''
package syncmapx

import (
	"sync"
	"testing"
	"time"
)

// Every value ever stored is 1 or more.
func TestDemo(t *testing.T) {
	m := New[int, int]()
	stop := make(chan struct{})
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; ; i++ {
				select {
				case <-stop:
					return
				default:
				}
				k := g*64 + i%64
				m.Set(k, i+1)
				if i%3 == 0 {
					m.Delete(k)
				}
			}
		}(g)
	}
	bad := false
	for end := time.Now().Add(3 * time.Second); !bad && time.Now().Before(end); {
		for _, v := range m.Values() {
			bad = bad || v == 0
		}
	}
	close(stop)
	wg.Wait()
	if bad {
		t.Fatal("Values lists a value that was never stored")
	}
}
''', "a deletion by another goroutine between the keys being listed and their values being read", "Values lists zero values for keys deleted meanwhile")
