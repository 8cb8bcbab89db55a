# Planted changes for the functional helpers (C26-C33).
LAZY = "functionalx/lazyx/lazy.go"; OPT = "functionalx/optionx/optionx.go"; RES = "functionalx/resultx/resultx.go"
USE = "iox/usingx/using.go"; MGR = "iox/managerx/closex/manager.go"; KILL = "osx/closex/closex.go"
BITS = "dsx/setx/bitsetx/bitsetx.go"; PARAM = "configx/optionalx/optionalx.go"; LOCK = "syncx/lockx/lockx.go"; TP = "syncx/syncpoolx/syncpoolx.go"
seed("C26-claim-first", "C26", [(LAZY, 'import "sync"', 'import "sync/atomic"'), (LAZY, "	o     sync.Once\n", "	begun atomic.Bool\n"),
 (LAZY, "	l.o.Do(func() {\n		l.value = l.ctor()\n	})\n", "	if !l.begun.Load() && l.begun.CompareAndSwap(false, true) {\n		l.value = l.ctor()\n	}\n")],
 "functionalx/lazyx", '''
package lazyx

import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	in, out := make(chan struct{}), make(chan struct{})
	l := New(func() int { close(in); <-out; return 42 })
	go l.Get()
	<-in
	got := make(chan int)
	go func() { got <- l.Get() }()
	select {
	case v := <-got:
		close(out)
		if v != 42 {
			t.Fatalf("a request returned %d before the value was there", v)
		}
	case <-time.After(50 * time.Millisecond):
		close(out)
		if v := <-got; v != 42 {
			t.Fatalf("got %d", v)
		}
	}
}
''', "a request made while another goroutine's request is constructing the value", "the second request does not wait for the constructor")
seed("C26-no-recheck", "C26", [(LAZY, "	o     sync.Once\n", "	mu    sync.RWMutex\n	done  bool\n"),
 (LAZY, "	l.o.Do(func() {\n		l.value = l.ctor()\n	})\n\n	return l.value\n", "	l.mu.RLock()\n	v, ok := l.value, l.done\n	l.mu.RUnlock()\n	if ok {\n		return v\n	}\n	l.mu.Lock()\n	defer l.mu.Unlock()\n	l.value, l.done = l.ctor(), true\n	return l.value\n")],
 "functionalx/lazyx", '''
package lazyx

import (
	"sync"
	"sync/atomic"
	"testing"
)

func TestDemo(t *testing.T) {
	for round := 0; round < 20000; round++ {
		var n, ready atomic.Int32
		l := New(func() int { return int(n.Add(1)) })
		var wg sync.WaitGroup
		for i := 0; i < 8; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for ready.Add(1); ready.Load() < 8; {
				}
				l.Get()
			}()
		}
		wg.Wait()
		if n.Load() != 1 {
			t.Fatalf("constructed %d times", n.Load())
		}
	}
}
''', "two first requests at the same time", "the done flag is not tested again under the write lock, so the constructor runs twice")
seed("C27-some-nil", "C27", [(OPT, "	if t.exist {\n", "	if t.exist && any(t.data) != nil {\n")],
 "functionalx/optionx", '''
package optionx

import (
	"fmt"
	"testing"
)

func TestDemo(t *testing.T) {
	some, none := 0, 0
	Some[fmt.Stringer](nil).Match(func(s fmt.Stringer) (fmt.Stringer, error) { some++; return s, nil },
		func() (fmt.Stringer, error) { none++; return nil, nil })
	if some != 1 || none != 0 {
		t.Fatalf("%d %d", some, none)
	}
}
''', "an option of an interface type that holds nil", "a present nil counts as absent")
seed("C27-err-nil", "C27", [(RES, "	if t.ok {\n		return f(t.data)\n	}\n	return g(t.error)\n", "	if any(t.error) != nil && !t.ok {\n		return g(t.error)\n	}\n	return f(t.data)\n")],
 "functionalx/resultx", '''
package resultx

import "testing"

func TestDemo(t *testing.T) {
	ok, bad := 0, 0
	Err[int, error](nil).Match(func(v int) (int, error) { ok++; return v, nil }, func(e error) (int, error) { bad++; return 0, e })
	if ok != 0 || bad != 1 {
		t.Fatalf("%d %d", ok, bad)
	}
}
''', "a failure that holds a nil error", "a failure with a nil error is matched as success")
seed("C28-append-once", "C28", [(MGR, "	c.list = append(c.list, closer)\n", "	for _, k := range c.list {\n		if k == closer {\n			return\n		}\n	}\n	c.list = append(c.list, closer)\n")],
 "iox/managerx/closex", '''
package closex

import "testing"

type count struct{ n int }

func (c *count) Close() error { c.n++; return nil }

type plain struct{}

var plains int

func (plain) Close() error { plains++; return nil }

func TestDemo(t *testing.T) {
	m := New()
	m.Append(plain{})
	m.Append(&count{})
	m.Append(plain{})
	m.Close()
	if plains != 2 {
		t.Fatalf("closed %d of 2", plains)
	}
}
''', "two equal closers", "a closer equal to one already registered is not registered")
seed("C28-ignored-error", "C28", [(USE, "import (\n	\"io\"\n)", "import (\n	\"errors\"\n	\"io\"\n	\"os\"\n)"), (USE, "e := closer.Close(); e != nil {", "e := closer.Close(); e != nil && !errors.Is(e, os.ErrClosed) {")],
 "iox/usingx", '''
package usingx

import (
	"os"
	"testing"
)

type bad struct{ err error }

func (b bad) Close() error { return b.err }

func TestDemo(t *testing.T) {
	if errs := Close(bad{os.ErrClosed}, bad{os.ErrExist})(func() {}); len(errs) != 2 {
		t.Fatalf("reported %v", errs)
	}
}
''', "a closer that fails with os.ErrClosed", "one kind of failure is not reported")
seed("C28-early-panic", "C28", [(USE, "				if e := closer.Close(); e != nil {\n					errs = append(errs, e)\n				}\n", "				e := closer.Close()\n				if e == nil {\n					continue\n				}\n				if errs = append(errs, e); len(errs) == cap(errs) && len(errs) > 64 {\n					break\n				}\n")],
 "iox/usingx", '''
package usingx

import (
	"errors"
	"io"
	"testing"
)

type bad struct{ n *int }

func (b bad) Close() error { *b.n++; return errors.New("x") }

func TestDemo(t *testing.T) {
	n := 0
	var cs []io.Closer
	for i := 0; i < 500; i++ {
		cs = append(cs, bad{&n})
	}
	if errs := Close(cs...)(func() {}); n != 500 || len(errs) != 500 {
		t.Fatalf("%d closed, %d reported", n, len(errs))
	}
}
''', "more than a hundred failures", "closing stops when the list of failures is full")
seed("C29-second-forces", "C29", [(KILL, "			handler()\n			close(intr.C)\n", "			done := make(chan struct{})\n			go func() {\n				handler()\n				close(done)\n			}()\n			select {\n			case <-done:\n			case <-sigChannel:\n				logger.Printf(\"Second signal, not waiting any longer\")\n			}\n			close(intr.C)\n")],
 "osx/closex", '''
package closex

import (
	"io"
	"log"
	"os"
	"os/signal"
	"sync/atomic"
	"syscall"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	keep := make(chan os.Signal, 8)
	signal.Notify(keep, syscall.SIGTERM)
	var done atomic.Bool
	in := make(chan struct{})
	out := make(chan struct{})
	i := HandleKillSig(func() { close(in); <-out; done.Store(true) }, log.New(io.Discard, "", 0))
	syscall.Kill(os.Getpid(), syscall.SIGTERM)
	<-in
	syscall.Kill(os.Getpid(), syscall.SIGTERM)
	select {
	case <-i.C:
		if !done.Load() {
			t.Fatal("completion is announced while the handler still runs")
		}
	case <-time.After(200 * time.Millisecond):
	}
	close(out)
	<-i.C
}
''', "a second signal while the handler runs", "completion is announced before the handler has returned")
seed("C29-hangup", "C29", [(KILL, "syscall.SIGINT, syscall.SIGQUIT, syscall.SIGTERM)", "syscall.SIGINT, syscall.SIGQUIT, syscall.SIGTERM, syscall.SIGHUP)")],
 "osx/closex", '''
package closex

import (
	"io"
	"log"
	"os"
	"os/signal"
	"syscall"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	keep := make(chan os.Signal, 8)
	signal.Notify(keep, syscall.SIGHUP)
	i := HandleKillSig(func() {}, log.New(io.Discard, "", 0))
	syscall.Kill(os.Getpid(), syscall.SIGHUP)
	<-keep
	select {
	case <-i.C:
		t.Fatal("a hangup is taken as a kill signal")
	case <-time.After(100 * time.Millisecond):
	}
}
''', "a hangup signal", "one more signal ends the program")
seed("C30-toggle-mask", "C30", [(BITS, "	for _, i := range i {\n		b.data ^= (1 << i)\n	}\n", "	var mask T\n	for _, i := range i {\n		mask |= (1 << i)\n	}\n	b.data ^= mask\n")],
 "dsx/setx/bitsetx", '''
package bitsetx

import "testing"

func TestDemo(t *testing.T) {
	var b BitSet[uint16]
	b.Toggle(3, 5, 3)
	if b.Test(3) || !b.Test(5) {
		t.Fatalf("%b", b.data)
	}
}
''', "a bit named twice in one call", "naming a bit twice toggles it once")
seed("C30-shift-31", "C30", [(BITS, "		b.data &= ^(1 << i)\n", "		b.data &= ^(1 << uint8(i&31))\n")],
 "dsx/setx/bitsetx", '''
package bitsetx

import "testing"

func TestDemo(t *testing.T) {
	var b BitSet[uint64]
	b.SetAll()
	b.Clear(40)
	if b.Test(40) || !b.Test(8) {
		t.Fatalf("%b", b.data)
	}
}
''', "a 64-bit set and a bit number of 32 or more", "clearing bit 40 clears bit 8")
seed("C31-nil-option", "C31", [(PARAM, "		p = f(p)\n", "		if q := f(p); q != nil {\n			p = q\n		}\n")],
 "configx/optionalx", '''
package optionalx

import "testing"

func TestDemo(t *testing.T) {
	type opt struct{ n int }
	set := func(*opt) *opt { return &opt{7} }
	reset := func(*opt) *opt { return nil }
	Parameter(func(o *opt) *opt {
		if o != nil {
			t.Fatalf("the constructor is given %v", *o)
		}
		return o
	}, set, reset)
}
''', "an option function that returns nil after one that did not", "a nil result of an option is ignored")
seed("C32-load-store", "C32", [(LOCK, "	for !atomic.CompareAndSwapPointer((*unsafe.Pointer)(unsafe.Pointer(l)), unsafe.Pointer(p), nil) {\n		runtime.Gosched()\n		p = l\n	}\n", "	for atomic.LoadPointer((*unsafe.Pointer)(unsafe.Pointer(l))) != unsafe.Pointer(p) {\n		runtime.Gosched()\n		p = l\n	}\n	atomic.StorePointer((*unsafe.Pointer)(unsafe.Pointer(l)), nil)\n")],
 "syncx/lockx", '''
package lockx

import (
	"sync"
	"sync/atomic"
	"testing"
)

type self struct {
	p *self
	n int
}

func TestDemo(t *testing.T) {
	for r := 0; r < 50; r++ {
		l := &self{}
		l.p = l
		var in, bad atomic.Int32
		var wg sync.WaitGroup
		stop := atomic.Bool{}
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < 5000 && !stop.Load(); i++ {
					Lock(l, func(s *self) {
						if in.Add(1) != 1 {
							bad.Add(1)
							stop.Store(true)
							panicFree()
						}
						in.Add(-1)
					})
					if stop.Load() {
						return
					}
				}
			}()
		}
		done := make(chan struct{})
		go func() { wg.Wait(); close(done) }()
		for {
			select {
			case <-done:
			default:
				if stop.Load() {
					t.Fatal("two holders at once")
				}
				continue
			}
			break
		}
		if bad.Load() > 0 {
			t.Fatal("two holders at once")
		}
	}
}

func panicFree() {}
''', "two goroutines that find the variable free at the same time", "testing and taking the lock are two steps")
seed("C33-premade", "C33", [(TP, "	p.pool.New = func() interface{} {\n		return New()\n	}\n", "	// one object is made ahead of time\n	ready := New()\n	p.pool.New = func() interface{} {\n		if x := ready; x != nil {\n			ready = nil\n			return x\n		}\n		return New()\n	}\n")],
 "syncx/syncpoolx", '''
package syncpoolx

import "testing"

func TestDemo(t *testing.T) {
	n := 0
	var p Pool[int]
	p.Init(func() *int { n++; return new(int) })
	if n != 0 {
		t.Fatal("an object is made before one is asked for")
	}
	p.Get()
	if n != 1 {
		t.Fatalf("made %d objects for one request", n)
	}
}
''', "a constructor that must not run before an object is asked for, or two first requests at once", "an object is handed out that the constructor made earlier, and without synchronisation")
seed("C33-last-kept", "C33", [(TP, "	pool sync.Pool\n", "	pool sync.Pool\n	mu   sync.Mutex\n	last *T\n"), (TP, "	return p.pool.Get().(*T)\n", "	p.mu.Lock()\n	x := p.last\n	p.last = nil\n	p.mu.Unlock()\n	if x != nil {\n		return x\n	}\n	return p.pool.Get().(*T)\n"),
 (TP, "	p.pool.Put(x)\n", "	p.mu.Lock()\n	if p.last == nil {\n		p.last = x\n	}\n	p.mu.Unlock()\n	p.pool.Put(x)\n")],
 "syncx/syncpoolx", '''
package syncpoolx

import "testing"

func TestDemo(t *testing.T) {
	for i := 0; i < 100; i++ {
		var p Pool[int]
		p.Init(func() *int { return new(int) })
		p.Put(new(int))
		if a, b := p.Get(), p.Get(); a == b {
			t.Fatal("one object is handed out twice")
		}
	}
}
''', "two requests after one object was put back", "an object put back is remembered and also handed to the underlying pool, and is handed out twice")
