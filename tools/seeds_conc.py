# Planted changes for the concurrent parts (C11-C15, C35).
POOL = "poolx/gopoolx/timedpool.go"; DEC = "iox/decouplex/decouple.go"; SLP = "timex/sleepx/sleepx.go"
seed("C11-recycled-channel", "C11", [(POOL, "			w.ch = make(chan T, 1)\n", "")], "poolx/gopoolx", '''
package gopoolx

import (
	"runtime"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(1))
	done := make(chan int, 10)
	p, err := NewTimedPool(4, func(v int) { done <- v }, time.Millisecond, 5*time.Millisecond, 0)
	if err != nil {
		t.Fatal(err)
	}
	defer p.Stop()
	for i := 0; i < 20; i++ {
		go p.Run(i)
		select {
		case <-done:
		case <-time.After(2 * time.Second):
			t.Fatalf("task %d is not run", i)
		}
		for end := time.Now().Add(2 * time.Second); p.Workers() > 0 && time.Now().Before(end); {
			time.Sleep(time.Millisecond)
		}
	}
}
''', "a submission that recycles a worker reaped for being idle", "the recycled worker has no channel: the submitter blocks for ever and the task is not run")
seed("C11-reap-order", "C11", [(POOL, "					wbuffer = append(wbuffer, pool.dobby[:l]...)\n					copy(pool.dobby, pool.dobby[l:])\n", "					copy(pool.dobby, pool.dobby[l:])\n					wbuffer = append(wbuffer, pool.dobby[:l]...)\n")], "poolx/gopoolx", '''
package gopoolx

import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	in, out := make(chan int, 10), [2]chan bool{make(chan bool), make(chan bool)}
	p, err := NewTimedPool(2, func(v int) {
		if v < 2 {
			<-out[v]
		}
		in <- v
	}, 300*time.Millisecond, 50*time.Millisecond, 0)
	if err != nil {
		t.Fatal(err)
	}
	defer p.Stop()
	p.Run(0)
	p.Run(1)
	close(out[0])
	<-in
	time.Sleep(200 * time.Millisecond)
	close(out[1])
	<-in
	// the first worker is reaped now, the second one is idle but not old
	time.Sleep(200 * time.Millisecond)
	defer func() {
		if r := recover(); r != nil {
			t.Fatal("submitting panics: ", r)
		}
	}()
	for i := 2; i < 4; i++ {
		if p.Run(i) {
			select {
			case <-in:
			case <-time.After(2 * time.Second):
				t.Fatalf("task %d is not run", i)
			}
		}
	}
}
''', "the reaper running while some idle workers are old and some are not", "the reaper closes the channel of a worker that stays idle in the pool")
seed("C12-count-late", "C12", [(POOL, "			pool.workers++\n", ""),
 (POOL, "			w.ch = make(chan T, 1)\n			go tworker(pool, w, w.ch)\n", "			w.ch = make(chan T, 1)\n			go func(ch chan T) {\n				pool.mu.Lock()\n				pool.workers++\n				pool.mu.Unlock()\n				tworker(pool, w, ch)\n			}(w.ch)\n")], "poolx/gopoolx", '''
package gopoolx

import (
	"runtime"
	"sync/atomic"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(1))
	out := make(chan bool)
	defer close(out)
	var live atomic.Int32
	p, err := NewTimedPool(2, func(int) { live.Add(1); <-out }, time.Hour, time.Hour, 0)
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 10; i++ {
		p.Run(i)
	}
	time.Sleep(50 * time.Millisecond)
	if live.Load() > 2 {
		t.Fatalf("%d workers at a time, the limit is 2", live.Load())
	}
}
''', "submissions in a burst, before the new workers get to run", "workers count themselves when they begin to run, so the limit is exceeded")
seed("C12-drain-idle", "C12", [(POOL, "	// Check If Pool Is Draining\n	if pool.maxWorkers == -1 {\n		pool.mu.Unlock()\n		return false\n	}\n\n", ""),
 (POOL, "		// No Dobby, Create Worker\n		if pool.workers < pool.maxWorkers {\n", "		// No Dobby, Create Worker Unless Draining\n		if pool.maxWorkers != -1 && pool.workers < pool.maxWorkers {\n")], "poolx/gopoolx", '''
package gopoolx

import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	done := make(chan bool, 8)
	p, err := NewTimedPool(2, func(int) { done <- true }, time.Hour, time.Hour, 0)
	if err != nil {
		t.Fatal(err)
	}
	p.Run(1)
	<-done
	time.Sleep(20 * time.Millisecond)
	p.Stop()
	defer func() {
		if r := recover(); r != nil {
			t.Fatal("a submission after the stop panics: ", r)
		}
	}()
	if p.Run(2) {
		t.Fatal("a submission after the stop is accepted")
	}
}
''', "a submission after a stop while a worker is idle", "the idle worker is used although the pool is stopped")
seed("C13-keep-slice", "C13", [(DEC, "	d.buffer[idx] = append(d.buffer[idx][:0], b...)\n", "	if cap(d.buffer[idx]) >= len(b) {\n		d.buffer[idx] = append(d.buffer[idx][:0], b...)\n	} else {\n		d.buffer[idx] = b\n	}\n")], "iox/decouplex", '''
package decouplex

import "testing"

func TestDemo(t *testing.T) {
	d := NewDecoupler(4, nil)
	b := []byte("first")
	d.Write(b)
	copy(b, "xxxxx")
	d.Next(func(v []byte) {
		if string(v) != "first" {
			t.Fatalf("read %q", v)
		}
	})
}
''', "a writer that uses its slice again before the read", "the writer's own slice is kept, so the data changes")
seed("C13-release-early", "C13", [(DEC, "	if view != nil {\n		view(d.buffer[idx])\n	}\n", ""), (DEC, "	d._read++\n", "	d._read++\n\n	if view != nil {\n		view(d.buffer[idx])\n	}\n")], "iox/decouplex", '''
package decouplex

import "testing"

func TestDemo(t *testing.T) {
	d := NewDecoupler(1, nil)
	d.Write([]byte("one"))
	d.Next(func(v []byte) {
		d.Write([]byte("two"))
		if string(v) != "one" {
			t.Fatalf("the viewed buffer became %q", v)
		}
	})
}
''', "a full buffer and a write while the viewer runs", "the place is given back before the viewer is done with it")
seed("C13-publish-first", "C13", [(DEC, "	d.buffer[idx] = append(d.buffer[idx][:0], b...)\n	atomic.StoreUint64(&d.locktab[idx], ts)\n", "	atomic.StoreUint64(&d.locktab[idx], ts)\n	d.buffer[idx] = append(d.buffer[idx][:0], b...)\n")], "iox/decouplex", '''
package decouplex

import (
	"bytes"
	"sync"
	"testing"
)

func TestDemo(t *testing.T) {
	d := NewDecoupler(2, nil)
	const n = 20000
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		for i := 0; i < n; i++ {
			d.Write(bytes.Repeat([]byte{byte(i)}, 64))
		}
	}()
	for i := 0; i < n; i++ {
		d.Next(func(v []byte) {
			if len(v) != 64 || v[0] != v[63] {
				t.Errorf("torn: %v", v)
			}
		})
	}
	wg.Wait()
}
''', "a read between the publication and the copy", "the place is marked readable before the data is there", race=True)
seed("C14-empty-silent", "C14", [(DEC, "	if len(b) == 0 {\n		return d.drop(b)\n	}\n", "	if len(b) == 0 {\n		return 0, nil\n	}\n")], "iox/decouplex", '''
package decouplex

import (
	"errors"
	"testing"
)

func TestDemo(t *testing.T) {
	refused := errors.New("refused")
	d := NewDecoupler(2, func(b []byte) (int, error) { return -1, refused })
	if n, err := d.Write([]byte{}); n != -1 || err != refused {
		t.Fatalf("got %d, %v", n, err)
	}
}
''', "an empty write with a drop function of its own", "the drop function is not called and its result not returned")
seed("C14-large", "C14", [(DEC, "	if len(b) == 0 {\n", "	if len(b) == 0 || len(b) > 1<<20 {\n")], "iox/decouplex", '''
package decouplex

import "testing"

func TestDemo(t *testing.T) {
	d := NewDecoupler(2, func(b []byte) (int, error) { t.Fatalf("a write of %d bytes is dropped", len(b)); return 0, nil })
	d.Write(make([]byte, 1<<20))
	d.Write(make([]byte, 1<<20+1))
}
''', "a write of more than a megabyte", "it is dropped although nothing is pending")
seed("C15-stale-signal", "C15", [(SLP, "	s.cancel()\n	s.ctx, s.cancel = context.WithCancel(context.Background())\n	return true\n", "	if s.ctx.Err() != nil {\n		s.ctx, s.cancel = context.WithCancel(context.Background())\n	}\n	s.cancel()\n	return true\n")], "timex/sleepx", '''
package sleepx

import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	s := New()
	for i := 0; i < 5; i++ {
		end := make(chan bool)
		go func() { s.SleepForever(); close(end) }()
		for !s.slept.Load() {
			time.Sleep(time.Millisecond)
		}
		time.Sleep(20 * time.Millisecond)
		select {
		case <-end:
			t.Fatalf("sleep %d ended by an earlier wakeup", i)
		default:
		}
		s.Wakeup()
		<-end
	}
}
''', "a sleep after one that was woken", "the used wakeup signal is not replaced, so the next sleep ends at once")
seed("C15-wakeup-claims", "C15", [(SLP, "	if !s.slept.Load() {\n		return false\n	}\n	s.cancel()\n", "	if !s.slept.Swap(false) {\n		return false\n	}\n	s.cancel()\n")], "timex/sleepx", '''
package sleepx

import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	for i := 0; i < 500; i++ {
		s := New()
		go s.SleepForever()
		for !s.Wakeup() {
		}
		second := make(chan bool)
		go func() {
			time.Sleep(time.Millisecond)
			second <- s.SleepFor(0)
		}()
		begun := time.Now()
		ok := s.SleepFor(20 * time.Millisecond)
		if <-second && ok && time.Since(begun) >= 20*time.Millisecond {
			t.Fatal("two sleeps at a time")
		}
	}
}
''', "a sleep that begins between a wakeup and the end of the sleep it woke", "the end of the woken sleep releases the sleeper while the new sleep has it")
seed("C35-truncate", "C35", [(SLP, "time.After(t.Sub(timex.Now()))", "time.After(t.Sub(timex.Now()).Truncate(time.Millisecond))")], "timex/sleepx", '''
package sleepx

import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	s := New()
	early := 0
	for i := 0; i < 20; i++ {
		at := time.Now().Add(20*time.Millisecond - time.Nanosecond)
		s.SleepUntil(at)
		if time.Now().Before(at.Add(-100 * time.Microsecond)) {
			early++
		}
	}
	if early > 0 {
		t.Fatalf("%d of 20 sleeps ended before their time", early)
	}
}
''', "a time that is not a whole number of milliseconds away", "the sleep ends up to a millisecond before its time")
seed("C35-forever-ends", "C35", [(SLP, "		case <-done:\n			return true\n		}\n	}\n}\n\nfunc (s *Sleeper) Wakeup", "		case <-done:\n			return true\n		case <-time.After(3 * time.Second):\n			return true\n		}\n	}\n}\n\nfunc (s *Sleeper) Wakeup")], "timex/sleepx", '''
package sleepx

import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	s := New()
	end := make(chan bool)
	go func() { s.SleepForever(); close(end) }()
	select {
	case <-end:
		t.Fatal("the endless sleep has ended")
	case <-time.After(5 * time.Second):
	}
	s.Wakeup()
}
''', "an endless sleep of more than three seconds", "it ends by itself")
