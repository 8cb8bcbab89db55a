From 7cdb5aae72149c4851d377702c6492a0671ad3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:55 +0000
Subject: [PATCH 01/28] fix: linked queue Dequeue returns the head element and
 recycled nodes carry no stale link

---
 dsx/linkedx/queuex/queuex.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dsx/linkedx/queuex/queuex.go b/dsx/linkedx/queuex/queuex.go
index 38627c4..890c62e 100644
--- a/dsx/linkedx/queuex/queuex.go
+++ b/dsx/linkedx/queuex/queuex.go
@@ -32,6 +32,7 @@ func New[T any]() *Queue[T] {
 func (q *Queue[T]) Enqueue(data T) bool {
 	n := q.pool.Get().(*node[T])
 	n.data = data
+	n.next = nil
 	if q.head == nil {
 		q.head = n
 		q.tail = n
@@ -46,9 +47,11 @@ func (q *Queue[T]) Dequeue() (data T, ok bool) {
 	if q.head == nil {
 		return
 	}
-	q.pool.Put(q.head)
-	q.head = q.head.next
-	return q.head.data, true
+	n := q.head
+	data = n.data
+	q.head = n.next
+	q.pool.Put(n)
+	return data, true
 }
 
 func (q *Queue[T]) Peek() (data T, ok bool) {
-- 
2.43.0


From be8f34bc876ecf71b613ac270fc6d3368100f046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:55 +0000
Subject: [PATCH 02/28] fix: linked stack Pop returns the top element instead
 of the one below it

---
 dsx/linkedx/stackx/stackx.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dsx/linkedx/stackx/stackx.go b/dsx/linkedx/stackx/stackx.go
index 93b5216..ef88c66 100644
--- a/dsx/linkedx/stackx/stackx.go
+++ b/dsx/linkedx/stackx/stackx.go
@@ -43,9 +43,11 @@ func (s *Stack[T]) Pop() (data T, ok bool) {
 		return
 	}
 	s.length--
-	s.pool.Put(s.head)
-	s.head = s.head.next
-	return s.head.data, true
+	n := s.head
+	data = n.data
+	s.head = n.next
+	s.pool.Put(n)
+	return data, true
 }
 
 func (s *Stack[T]) Peek() (data T, ok bool) {
-- 
2.43.0


From 10875b059bd8bfd44ee66dee751767456c7b7787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:56 +0000
Subject: [PATCH 03/28] fix: deque forgets both ends when it becomes empty and
 recycles chunks without links

---
 dsx/linkedx/dequex/dequex.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/dsx/linkedx/dequex/dequex.go b/dsx/linkedx/dequex/dequex.go
index d8adff5..10dbe37 100644
--- a/dsx/linkedx/dequex/dequex.go
+++ b/dsx/linkedx/dequex/dequex.go
@@ -89,11 +89,15 @@ func (t *Deque[T]) PopFront() (data T, ok bool) {
 	data = t.head.data[t.head.start]
 	t.head.start++
 	if t.head.start == t.head.end {
-		t.pool.Put(t.head)
-		t.head = t.head.next
+		n := t.head
+		t.head = n.next
 		if t.head != nil {
 			t.head.prev = nil
+		} else {
+			t.tail = nil
 		}
+		n.next = nil
+		t.pool.Put(n)
 	}
 	return data, true
 }
@@ -105,11 +109,15 @@ func (t *Deque[T]) PopBack() (data T, ok bool) {
 	t.tail.end--
 	data = t.tail.data[t.tail.end]
 	if t.tail.start == t.tail.end {
-		t.pool.Put(t.tail)
-		t.tail = t.tail.prev
+		n := t.tail
+		t.tail = n.prev
 		if t.tail != nil {
 			t.tail.next = nil
+		} else {
+			t.head = nil
 		}
+		n.prev = nil
+		t.pool.Put(n)
 	}
 	return data, true
 }
-- 
2.43.0


From ec56130cfda8c91f8d5f6837c1a4da3124ec0c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:56 +0000
Subject: [PATCH 04/28] fix: linked list Insert and Remove keep the tail and
 the length right at the ends and out of range

---
 dsx/linkedx/listx/listx.go | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/dsx/linkedx/listx/listx.go b/dsx/linkedx/listx/listx.go
index d136036..b6996ce 100644
--- a/dsx/linkedx/listx/listx.go
+++ b/dsx/linkedx/listx/listx.go
@@ -45,6 +45,13 @@ func (l *List[T]) Append(data T) {
 }
 
 func (l *List[T]) Insert(index int, data T) {
+	if index < 0 || index > l.Len() {
+		return
+	}
+	if index == l.Len() {
+		l.Append(data)
+		return
+	}
 	l.length++
 	n := l.pool.Get().(*node[T])
 	n.data = data
@@ -54,11 +61,6 @@ func (l *List[T]) Insert(index int, data T) {
 		l.head = n
 		return
 	}
-	if index == l.Len() {
-		l.tail.next = n
-		l.tail = n
-		return
-	}
 	i := 0
 	for p := l.head; p != nil; p = p.next {
 		if i == index-1 {
@@ -71,26 +73,31 @@ func (l *List[T]) Insert(index int, data T) {
 }
 
 func (l *List[T]) Remove(index int) (rs T, ok bool) {
+	if index < 0 || index >= l.Len() {
+		return
+	}
 	l.length--
 	if index == 0 {
+		n := l.head
+		rs = n.data
+		l.head = n.next
 		if l.head == nil {
-			return
+			l.tail = nil
 		}
-		rs = l.head.data
-		l.pool.Put(l.head)
-		l.head = l.head.next
+		l.pool.Put(n)
 		ok = true
 		return
 	}
 	i := 0
 	for p := l.head; p != nil; p = p.next {
 		if i == index-1 {
+			n := p.next
+			rs = n.data
+			p.next = n.next
 			if p.next == nil {
-				return
+				l.tail = p
 			}
-			rs = p.next.data
-			l.pool.Put(p.next)
-			p.next = p.next.next
+			l.pool.Put(n)
 			ok = true
 			return
 		}
-- 
2.43.0


From c607473e90c2b4784a2e1aa03e60d6049f6ea1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:56 +0000
Subject: [PATCH 05/28] fix: slice list Insert ignores an out-of-range index
 instead of corrupting the list and panicking

---
 dsx/slicex/listx/listx.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dsx/slicex/listx/listx.go b/dsx/slicex/listx/listx.go
index c13e611..d5a97ff 100644
--- a/dsx/slicex/listx/listx.go
+++ b/dsx/slicex/listx/listx.go
@@ -11,6 +11,9 @@ func (l *List[T]) Append(data T) {
 }
 
 func (l *List[T]) Insert(index int, data T) {
+	if index < 0 || index > len(*l) {
+		return
+	}
 	*l = append(*l, data)
 	copy((*l)[index+1:], (*l)[index:])
 	(*l)[index] = data
-- 
2.43.0


From 1059b5291a133f03c220755ac50897929eb1cf0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:57 +0000
Subject: [PATCH 06/28] fix: ring queue has a slot for every index it uses

---
 dsx/slicex/queuex/queuex.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsx/slicex/queuex/queuex.go b/dsx/slicex/queuex/queuex.go
index c4aa0d8..fbe7081 100644
--- a/dsx/slicex/queuex/queuex.go
+++ b/dsx/slicex/queuex/queuex.go
@@ -18,7 +18,7 @@ func New[T any](cap int) *Ring[T] {
 		return nil
 	}
 	return &Ring[T]{
-		data: make([]T, cap),
+		data: make([]T, cap+1),
 		cap:  cap + 1,
 		head: 0,
 		tail: 0,
-- 
2.43.0


From 71ed4adf7b714233d634f0385ccf6b98f497727a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:57 +0000
Subject: [PATCH 07/28] fix: slicex Splice never writes into the caller's
 variadic slice

---
 dsx/slicex/slicex.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsx/slicex/slicex.go b/dsx/slicex/slicex.go
index 08cdfc1..75d27e6 100644
--- a/dsx/slicex/slicex.go
+++ b/dsx/slicex/slicex.go
@@ -58,7 +58,7 @@ func (s *Slice[T]) Slice(i, j int) *Slice[T] {
 
 func (s *Slice[T]) Splice(i, j int, v ...T) *Slice[T] {
 	preprocIndexException(&i, &j, len(*s))
-	*s = append((*s)[:i], append(v, (*s)[j:]...)...)
+	*s = append((*s)[:i], append(v[:len(v):len(v)], (*s)[j:]...)...)
 	return s
 }
 
-- 
2.43.0


From 5f73429fc30a1c9f63a75b16c6bef6c1db635c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:57 +0000
Subject: [PATCH 08/28] fix: slicex Delete, DeleteReplace, Rotate and Repeat
 stay in range for every argument

---
 dsx/slicex/slicex.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/dsx/slicex/slicex.go b/dsx/slicex/slicex.go
index 75d27e6..94bf2d4 100644
--- a/dsx/slicex/slicex.go
+++ b/dsx/slicex/slicex.go
@@ -75,6 +75,9 @@ func (s *Slice[T]) Cut(i, j int) *Slice[T] {
 }
 
 func (s *Slice[T]) Delete(i int) *Slice[T] {
+	if i >= len(*s) {
+		return s
+	}
 	return s.Cut(i, i+1)
 }
 
@@ -107,7 +110,10 @@ func (s *Slice[T]) Shift() T {
 }
 
 func (s *Slice[T]) DeleteReplace(i int) *Slice[T] {
-	preprocIndexException(&i, nil, len(*s))
+	if len(*s) == 0 {
+		return s
+	}
+	preprocIndexException(&i, nil, len(*s)-1)
 	(*s)[i] = (*s)[len(*s)-1]
 	*s = (*s)[:len(*s)-1]
 	return s
@@ -129,7 +135,7 @@ func (s *Slice[T]) Rotate(n int) *Slice[T] {
 		index := n % len(*s)
 		*s = append((*s)[index:], (*s)[:index]...)
 	} else if n < 0 {
-		index := -n % len(*s)
+		index := -(n % len(*s))
 		*s = append((*s)[len(*s)-index:], (*s)[:len(*s)-index]...)
 	}
 	return s
@@ -155,6 +161,9 @@ func (s *Slice[T]) Filter(f func(T) bool) *Slice[T] {
 }
 
 func (s *Slice[T]) Repeat(cnt int) *Slice[T] {
+	if cnt < 0 {
+		cnt = 0
+	}
 	repeat := make(Slice[T], 0, len(*s)*cnt)
 	for i := 0; i < cnt; i++ {
 		repeat = append(repeat, *s...)
-- 
2.43.0


From d1877cb482088114703bd8caa5dd3a70601d5307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:57 +0000
Subject: [PATCH 09/28] fix: skip list iterator keeps reporting the end instead
 of panicking past it

---
 dsx/mapx/sklmapx/sklmapx.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsx/mapx/sklmapx/sklmapx.go b/dsx/mapx/sklmapx/sklmapx.go
index be8685d..b55215a 100644
--- a/dsx/mapx/sklmapx/sklmapx.go
+++ b/dsx/mapx/sklmapx/sklmapx.go
@@ -213,7 +213,7 @@ func (i *Iterator[K, V]) Rewind() {
 func (i *Iterator[K, V]) Next() (K, V, bool) {
 	if i.node == nil {
 		i.node = i.list.skl.head.next[0]
-	} else {
+	} else if i.node != i.list.skl.tail {
 		i.node = i.node.next[0]
 	}
 	if i.node == i.list.skl.tail {
-- 
2.43.0


From 5b264a97b93b681910f015d9787fed5575e2ddb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:58 +0000
Subject: [PATCH 10/28] fix: pool worker keeps its own channel instead of
 reading a field the reaper resets

---
 poolx/gopoolx/timedpool.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/poolx/gopoolx/timedpool.go b/poolx/gopoolx/timedpool.go
index aedcf63..f1ad139 100644
--- a/poolx/gopoolx/timedpool.go
+++ b/poolx/gopoolx/timedpool.go
@@ -29,8 +29,8 @@ type TimedPool[T any] struct {
 	dobby   []*timedworker[T]
 }
 
-func tworker[T any](pool *TimedPool[T], w *timedworker[T]) {
-	for v := range w.ch {
+func tworker[T any](pool *TimedPool[T], w *timedworker[T], ch <-chan T) {
+	for v := range ch {
 		pool.handler(v)
 		if pool.free(w) {
 			return
@@ -56,7 +56,7 @@ func (pool *TimedPool[T]) start(preheat int) {
 			w := pool.pool.Get()
 			w.tt = time.Now().UnixNano()
 			pool.dobby = append(pool.dobby, w)
-			go tworker(pool, w)
+			go tworker(pool, w, w.ch)
 		}
 	}
 
@@ -160,7 +160,7 @@ func (pool *TimedPool[T]) Run(v T) (ok bool) {
 			pool.workers++
 			w = pool.pool.Get()
 			w.ch = make(chan T, 1)
-			go tworker(pool, w)
+			go tworker(pool, w, w.ch)
 		} else {
 			pool.mu.Unlock()
 			return false
-- 
2.43.0


From 4364c971697bd1f8acb32b02d7c840c6257f64a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:58 +0000
Subject: [PATCH 11/28] fix: preheating a pool never exceeds its worker limit

---
 poolx/gopoolx/timedpool.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/poolx/gopoolx/timedpool.go b/poolx/gopoolx/timedpool.go
index f1ad139..d2fccf9 100644
--- a/poolx/gopoolx/timedpool.go
+++ b/poolx/gopoolx/timedpool.go
@@ -50,6 +50,9 @@ func (pool *TimedPool[T]) start(preheat int) {
 	})
 	pool.stop = make(chan struct{})
 
+	if int64(preheat) > pool.maxWorkers {
+		preheat = int(pool.maxWorkers)
+	}
 	if preheat > 0 {
 		pool.workers = int64(preheat)
 		for i := 0; i < preheat; i++ {
-- 
2.43.0


From 8fd99570673959a87d97809a21db2e4ce38d0391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:58 +0000
Subject: [PATCH 12/28] fix: concurrent Stop calls on a pool no longer race or
 block

---
 poolx/gopoolx/timedpool.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/poolx/gopoolx/timedpool.go b/poolx/gopoolx/timedpool.go
index d2fccf9..8dd1474 100644
--- a/poolx/gopoolx/timedpool.go
+++ b/poolx/gopoolx/timedpool.go
@@ -48,7 +48,8 @@ func (pool *TimedPool[T]) start(preheat int) {
 			ch: make(chan T, 1),
 		}
 	})
-	pool.stop = make(chan struct{})
+	stop := make(chan struct{})
+	pool.stop = stop
 
 	if int64(preheat) > pool.maxWorkers {
 		preheat = int(pool.maxWorkers)
@@ -113,7 +114,7 @@ func (pool *TimedPool[T]) start(preheat int) {
 				}
 				wbuffer = wbuffer[:0]
 
-			case <-pool.stop:
+			case <-stop:
 				pool.mu.Lock()
 				pool.maxWorkers = -1
 				for i := range pool.dobby {
@@ -208,11 +209,14 @@ func NewTimedPool[T any](maxWorkers int64, handler func(T), idleTimeout, gcPerio
 }
 
 func (pool *TimedPool[T]) Stop() {
-	if pool.stop == nil {
+	pool.mu.Lock()
+	stop := pool.stop
+	pool.stop = nil
+	pool.mu.Unlock()
+	if stop == nil {
 		return
 	}
-	pool.stop <- struct{}{}
-	pool.stop = nil
+	stop <- struct{}{}
 }
 
 func (pool *TimedPool[T]) Workers() int64 {
-- 
2.43.0


From e7586e11d63db9dddbbecba88f5210eb10a9349f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:59 +0000
Subject: [PATCH 13/28] fix: a wakeup is never lost between claiming the
 sleeper and taking its signal

---
 timex/sleepx/sleepx.go | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/timex/sleepx/sleepx.go b/timex/sleepx/sleepx.go
index e8e8ce4..2c7e45e 100644
--- a/timex/sleepx/sleepx.go
+++ b/timex/sleepx/sleepx.go
@@ -2,6 +2,7 @@ package sleepx
 
 import (
 	"context"
+	"sync"
 	"sync/atomic"
 	"time"
 
@@ -9,7 +10,8 @@ import (
 )
 
 type Sleeper struct {
-	// wakeup signal
+	// wakeup signal, replaced under mu
+	mu     sync.Mutex
 	ctx    context.Context
 	cancel context.CancelFunc
 
@@ -26,12 +28,23 @@ func New() *Sleeper {
 	}
 }
 
-func (s *Sleeper) SleepFor(d time.Duration) bool {
+// begin claims the sleeper and takes the wakeup signal in one step,
+// so that a wakeup which sees the sleeper as slept always reaches it.
+func (s *Sleeper) begin() (<-chan struct{}, bool) {
+	s.mu.Lock()
+	defer s.mu.Unlock()
 	if !s.slept.CompareAndSwap(false, true) {
+		return nil, false
+	}
+	return s.ctx.Done(), true
+}
+
+func (s *Sleeper) SleepFor(d time.Duration) bool {
+	done, ok := s.begin()
+	if !ok {
 		return false
 	}
 	defer s.slept.Store(false)
-	done := s.ctx.Done()
 	for {
 		select {
 		case <-time.After(time.Duration(d) * time.Second):
@@ -43,11 +56,11 @@ func (s *Sleeper) SleepFor(d time.Duration) bool {
 }
 
 func (s *Sleeper) SleepUntil(t time.Time) bool {
-	if !s.slept.CompareAndSwap(false, true) {
+	done, ok := s.begin()
+	if !ok {
 		return false
 	}
 	defer s.slept.Store(false)
-	done := s.ctx.Done()
 	for {
 		select {
 		case <-time.After(t.Sub(timex.Now())):
@@ -59,11 +72,11 @@ func (s *Sleeper) SleepUntil(t time.Time) bool {
 }
 
 func (s *Sleeper) SleepForever() bool {
-	if !s.slept.CompareAndSwap(false, true) {
+	done, ok := s.begin()
+	if !ok {
 		return false
 	}
 	defer s.slept.Store(false)
-	done := s.ctx.Done()
 	for {
 		select {
 		case <-done:
@@ -73,6 +86,8 @@ func (s *Sleeper) SleepForever() bool {
 }
 
 func (s *Sleeper) Wakeup() bool {
+	s.mu.Lock()
+	defer s.mu.Unlock()
 	if !s.slept.Load() {
 		return false
 	}
-- 
2.43.0


From ca06cfbb4395ae574c5da9ee4839f4e528f20a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:46 +0000
Subject: [PATCH 14/28] fix: a dropped write no longer leaves a hole the
 decoupler's reader waits on forever

---
 iox/decouplex/decouple.go | 37 +++++++++++++++----------------------
 1 file changed, 15 insertions(+), 22 deletions(-)

diff --git a/iox/decouplex/decouple.go b/iox/decouplex/decouple.go
index c53b894..bd24084 100644
--- a/iox/decouplex/decouple.go
+++ b/iox/decouplex/decouple.go
@@ -40,37 +40,30 @@ func NewDecoupler(size uint64, drop func(b []byte) (int, error)) *Decoupler {
 	}
 }
 
-const (
-	empty = ^uint64(1)
-	busy  = ^uint64(0)
-)
+const empty = ^uint64(1)
 
 func (d *Decoupler) Write(b []byte) (int, error) {
 	if len(b) == 0 {
 		return d.drop(b)
 	}
 
+	// Reserve a slot first: a dropped write must not consume a ticket,
+	// or the reader would wait for it forever.
 	for {
-		ts := atomic.AddUint64(&d._write, 1)
-		idx := ts % d.size
-
-		lock := atomic.LoadUint64(&d.locktab[idx])
-		if lock == empty {
-			if !atomic.CompareAndSwapUint64(&d.locktab[idx], empty, busy) {
-				continue
-			}
-			d.buffer[idx] = append(d.buffer[idx][:0], b...)
-			atomic.StoreUint64(&d.locktab[idx], ts)
-			atomic.AddUint64(&d._len, 1)
-			return len(b), nil
+		n := atomic.LoadUint64(&d._len)
+		if n >= d.size {
+			return d.drop(b)
 		}
-
-		if lock != busy {
-			if atomic.LoadUint64(&d._len) == d.size {
-				return d.drop(b)
-			}
+		if atomic.CompareAndSwapUint64(&d._len, n, n+1) {
+			break
 		}
 	}
+
+	ts := atomic.AddUint64(&d._write, 1)
+	idx := ts % d.size
+	d.buffer[idx] = append(d.buffer[idx][:0], b...)
+	atomic.StoreUint64(&d.locktab[idx], ts)
+	return len(b), nil
 }
 
 func (d *Decoupler) Next(view func([]byte)) bool {
@@ -83,7 +76,7 @@ func (d *Decoupler) Next(view func([]byte)) bool {
 	var lock uint64
 	for {
 		lock = atomic.LoadUint64(&d.locktab[idx])
-		if lock == empty || lock == busy {
+		if lock == empty {
 			runtime.Gosched() // Wait for the writer
 			continue
 		}
-- 
2.43.0


From a8b320a0c537ffdde796ef06f233b5a7027a90c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:47 +0000
Subject: [PATCH 15/28] fix: convx runs a converter without holding the
 registry lock

---
 typex/convx/convx.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/typex/convx/convx.go b/typex/convx/convx.go
index d8dd152..1b16049 100644
--- a/typex/convx/convx.go
+++ b/typex/convx/convx.go
@@ -40,12 +40,8 @@ func Exists[T, R any]() bool {
 
 func Into[T, R any](value T) (rs R, ok bool) {
 	convertersLock.RLock()
-	defer convertersLock.RUnlock()
-	m := converters[reflect.TypeOf(value)]
-	if m == nil {
-		return
-	}
-	v := m[reflect.TypeOf(rs)]
+	v := converters[reflect.TypeOf(value)][reflect.TypeOf(rs)]
+	convertersLock.RUnlock()
 	if v == nil {
 		return
 	}
-- 
2.43.0


From 348f4c106a68cbc133a1679868c63972fe831ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:48 +0000
Subject: [PATCH 16/28] fix: convx keys converters by static type so interface
 types do not collide

---
 typex/convx/convx.go | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/typex/convx/convx.go b/typex/convx/convx.go
index 1b16049..8dae4c0 100644
--- a/typex/convx/convx.go
+++ b/typex/convx/convx.go
@@ -8,39 +8,44 @@ import (
 var converters = make(map[reflect.Type]map[reflect.Type]any)
 var convertersLock = sync.RWMutex{}
 
+// typeOf also tells interface types apart, whose zero value has no dynamic type.
+func typeOf[T any]() reflect.Type {
+	return reflect.TypeOf((*T)(nil)).Elem()
+}
+
 func Register[T, R any](converter func(T) R) {
 	convertersLock.Lock()
 	defer convertersLock.Unlock()
-	if converters[reflect.TypeOf(*new(T))] == nil {
-		converters[reflect.TypeOf(*new(T))] = make(map[reflect.Type]any)
+	if converters[typeOf[T]()] == nil {
+		converters[typeOf[T]()] = make(map[reflect.Type]any)
 	}
-	converters[reflect.TypeOf(*new(T))][reflect.TypeOf(*new(R))] = converter
+	converters[typeOf[T]()][typeOf[R]()] = converter
 }
 
 func Unregister[T, R any]() {
 	convertersLock.Lock()
 	defer convertersLock.Unlock()
-	m := converters[reflect.TypeOf(*new(T))]
+	m := converters[typeOf[T]()]
 	if m == nil {
 		return
 	}
-	delete(m, reflect.TypeOf(*new(R)))
+	delete(m, typeOf[R]())
 }
 
 func Exists[T, R any]() bool {
 	convertersLock.RLock()
 	defer convertersLock.RUnlock()
-	m := converters[reflect.TypeOf(*new(T))]
+	m := converters[typeOf[T]()]
 	if m == nil {
 		return false
 	}
-	_, ok := m[reflect.TypeOf(*new(R))]
+	_, ok := m[typeOf[R]()]
 	return ok
 }
 
 func Into[T, R any](value T) (rs R, ok bool) {
 	convertersLock.RLock()
-	v := converters[reflect.TypeOf(value)][reflect.TypeOf(rs)]
+	v := converters[typeOf[T]()][typeOf[R]()]
 	convertersLock.RUnlock()
 	if v == nil {
 		return
-- 
2.43.0


From a39388a37ac55c6f4943ec84d9bd099b254384e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:48 +0000
Subject: [PATCH 17/28] fix: AES decryption reports a truncated ciphertext
 instead of panicking

---
 cryptox/aesx/aesx.go | 4 ++++
 cryptox/aesx/cbcx.go | 3 +++
 cryptox/aesx/ctrx.go | 3 +++
 cryptox/aesx/gcmx.go | 3 +++
 4 files changed, 13 insertions(+)

diff --git a/cryptox/aesx/aesx.go b/cryptox/aesx/aesx.go
index 3d6349e..39f97fc 100644
--- a/cryptox/aesx/aesx.go
+++ b/cryptox/aesx/aesx.go
@@ -1 +1,5 @@
 package aesx
+
+import "errors"
+
+var ErrInvalidCiphertext = errors.New("invalid ciphertext")
diff --git a/cryptox/aesx/cbcx.go b/cryptox/aesx/cbcx.go
index 35f95cf..459c2ee 100644
--- a/cryptox/aesx/cbcx.go
+++ b/cryptox/aesx/cbcx.go
@@ -30,6 +30,9 @@ func DecryptCBC(data []byte, key []byte) ([]byte, error) {
 		return nil, err
 	}
 	ivSize := block.BlockSize()
+	if len(data) < ivSize {
+		return nil, ErrInvalidCiphertext
+	}
 	iv, ciphertext := data[:ivSize], data[ivSize:]
 	mode := cipher.NewCBCDecrypter(block, iv)
 	result := make([]byte, len(ciphertext))
diff --git a/cryptox/aesx/ctrx.go b/cryptox/aesx/ctrx.go
index 032178e..50234e6 100644
--- a/cryptox/aesx/ctrx.go
+++ b/cryptox/aesx/ctrx.go
@@ -30,6 +30,9 @@ func DecryptCTR(data []byte, key []byte) ([]byte, error) {
 		return nil, err
 	}
 	ivSize := block.BlockSize()
+	if len(data) < ivSize {
+		return nil, ErrInvalidCiphertext
+	}
 	iv, ciphertext := data[:ivSize], data[ivSize:]
 	mode := cipher.NewCTR(block, iv)
 	result := make([]byte, len(ciphertext))
diff --git a/cryptox/aesx/gcmx.go b/cryptox/aesx/gcmx.go
index 5724a0b..cf91c17 100644
--- a/cryptox/aesx/gcmx.go
+++ b/cryptox/aesx/gcmx.go
@@ -36,6 +36,9 @@ func DecryptGCM(data []byte, key []byte) ([]byte, error) {
 		return nil, err
 	}
 	nonceSize := aead.NonceSize()
+	if len(data) < nonceSize {
+		return nil, ErrInvalidCiphertext
+	}
 	nonce, ciphertext := data[:nonceSize], data[nonceSize:]
 	result, err := aead.Open(nil, nonce, ciphertext, nil)
 	if err != nil {
-- 
2.43.0


From fd3f1ddd4edd9e054ef625a46fcd715e201e6644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:48 +0000
Subject: [PATCH 18/28] fix: AES-CBC reports a length that is not a multiple of
 the block size instead of panicking

---
 cryptox/aesx/aesx.go | 5 ++++-
 cryptox/aesx/cbcx.go | 6 ++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/cryptox/aesx/aesx.go b/cryptox/aesx/aesx.go
index 39f97fc..f494641 100644
--- a/cryptox/aesx/aesx.go
+++ b/cryptox/aesx/aesx.go
@@ -2,4 +2,7 @@ package aesx
 
 import "errors"
 
-var ErrInvalidCiphertext = errors.New("invalid ciphertext")
+var (
+	ErrInvalidCiphertext = errors.New("invalid ciphertext")
+	ErrInvalidLength     = errors.New("data length is not a multiple of the block size")
+)
diff --git a/cryptox/aesx/cbcx.go b/cryptox/aesx/cbcx.go
index 459c2ee..7938ffa 100644
--- a/cryptox/aesx/cbcx.go
+++ b/cryptox/aesx/cbcx.go
@@ -14,6 +14,9 @@ func EncryptCBC(data []byte, key []byte) ([]byte, error) {
 		return nil, err
 	}
 	iv := make([]byte, block.BlockSize())
+	if len(data)%block.BlockSize() != 0 {
+		return nil, ErrInvalidLength
+	}
 	if _, err := rand.Read(iv); err != nil {
 		return nil, err
 	}
@@ -34,6 +37,9 @@ func DecryptCBC(data []byte, key []byte) ([]byte, error) {
 		return nil, ErrInvalidCiphertext
 	}
 	iv, ciphertext := data[:ivSize], data[ivSize:]
+	if len(ciphertext)%block.BlockSize() != 0 {
+		return nil, ErrInvalidCiphertext
+	}
 	mode := cipher.NewCBCDecrypter(block, iv)
 	result := make([]byte, len(ciphertext))
 	mode.CryptBlocks(result, ciphertext)
-- 
2.43.0


From c51c3aa121fb24a2f7b351c04785450a05a93447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:49 +0000
Subject: [PATCH 19/28] fix: bcryptx refuses to compare a password past the
 length bcrypt looks at

---
 cryptox/bcryptx/bcryptx.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cryptox/bcryptx/bcryptx.go b/cryptox/bcryptx/bcryptx.go
index 086716c..6367733 100644
--- a/cryptox/bcryptx/bcryptx.go
+++ b/cryptox/bcryptx/bcryptx.go
@@ -28,6 +28,9 @@ func Encrypt(pw []byte) ([]byte, error) {
 }
 
 func Decrypt(enc, pw []byte) (bool, error) {
+	if len(pw) > DefMaxLen {
+		return false, ErrPasswordTooLong
+	}
 	err := bcrypt.CompareHashAndPassword(enc, pw)
 	if err != nil {
 		if err == bcrypt.ErrMismatchedHashAndPassword {
-- 
2.43.0


From 1f6cf25da9a8c59277bf3c651fa4ccb370fa9ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:49 +0000
Subject: [PATCH 20/28] fix: sortx Sort honours its reverse argument

---
 algox/sortx/sortx.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/algox/sortx/sortx.go b/algox/sortx/sortx.go
index c43c333..2d87a18 100644
--- a/algox/sortx/sortx.go
+++ b/algox/sortx/sortx.go
@@ -6,6 +6,10 @@ import (
 )
 
 func Sort[T constraints.Ordered](s []T, reverse bool) {
+	if reverse {
+		SortReverse(s)
+		return
+	}
 	SortCustom(s, func(i, j T) bool {
 		return i < j
 	})
-- 
2.43.0


From 874049232824597b50f7928742ac613bfa88e180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:50 +0000
Subject: [PATCH 21/28] fix: interval endpoints at the same offset are always
 taken in the same order

---
 timex/intersectionx/intersectionx.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/timex/intersectionx/intersectionx.go b/timex/intersectionx/intersectionx.go
index e6d9e5d..39b51e7 100644
--- a/timex/intersectionx/intersectionx.go
+++ b/timex/intersectionx/intersectionx.go
@@ -17,7 +17,10 @@ func (s iSlice) Len() int {
 }
 
 func (s iSlice) Less(i, j int) bool {
-	return s[i].Offset < s[j].Offset
+	if s[i].Offset != s[j].Offset {
+		return s[i].Offset < s[j].Offset
+	}
+	return s[i].Type < s[j].Type
 }
 
 func (s iSlice) Swap(i, j int) {
-- 
2.43.0


From c07ed101c23d315068b14cfb692f0dcb0e8af019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:50 +0000
Subject: [PATCH 22/28] fix: CloseManager.Close returns nil when every closer
 succeeded

---
 iox/managerx/closex/manager.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/iox/managerx/closex/manager.go b/iox/managerx/closex/manager.go
index 5a6b954..ef05975 100644
--- a/iox/managerx/closex/manager.go
+++ b/iox/managerx/closex/manager.go
@@ -36,5 +36,8 @@ func (c *CloseManager) Close() error {
 		}
 	}
 
+	if len(errs) == 0 {
+		return nil
+	}
 	return errs
 }
-- 
2.43.0


From 64ed1920e3fe0039596860076e47ab551082a42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:50 +0000
Subject: [PATCH 23/28] fix: a second kill signal no longer closes a closed
 channel

---
 osx/closex/closex.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/osx/closex/closex.go b/osx/closex/closex.go
index d51a242..2c26c57 100644
--- a/osx/closex/closex.go
+++ b/osx/closex/closex.go
@@ -23,6 +23,7 @@ func HandleKillSig(handler func(), logger *log.Logger) interrupt {
 			logger.Printf("Receive signal %s, Shutting down...", signal)
 			handler()
 			close(intr.C)
+			return
 		}
 	}()
 	return intr
-- 
2.43.0


From 330f8b172d18cef280b5d9af5df3ff0c728055c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:11 +0000
Subject: [PATCH 24/28] fix: SleepFor sleeps for its duration instead of that
 many thousand million times longer

---
 timex/sleepx/sleepx.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timex/sleepx/sleepx.go b/timex/sleepx/sleepx.go
index 2c7e45e..64a097a 100644
--- a/timex/sleepx/sleepx.go
+++ b/timex/sleepx/sleepx.go
@@ -47,7 +47,7 @@ func (s *Sleeper) SleepFor(d time.Duration) bool {
 	defer s.slept.Store(false)
 	for {
 		select {
-		case <-time.After(time.Duration(d) * time.Second):
+		case <-time.After(d):
 			return true
 		case <-done:
 			return true
-- 
2.43.0


From cea5c758e332b98898d7ea39d60ecbdfa451ce33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:59 +0000
Subject: [PATCH 25/28] fix: a pool refuses submissions as soon as Stop returns

---
 poolx/gopoolx/timedpool.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/poolx/gopoolx/timedpool.go b/poolx/gopoolx/timedpool.go
index 8dd1474..a31777f 100644
--- a/poolx/gopoolx/timedpool.go
+++ b/poolx/gopoolx/timedpool.go
@@ -212,11 +212,12 @@ func (pool *TimedPool[T]) Stop() {
 	pool.mu.Lock()
 	stop := pool.stop
 	pool.stop = nil
+	pool.maxWorkers = -1
 	pool.mu.Unlock()
 	if stop == nil {
 		return
 	}
-	stop <- struct{}{}
+	close(stop)
 }
 
 func (pool *TimedPool[T]) Workers() int64 {
-- 
2.43.0


From ee5267fb05b027f4540d1d8ec2d9747369d5ee76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:48 +0000
Subject: [PATCH 26/28] fix: autotidy and autoupdate run the go tool only in
 the directory visited

A directory that could not be entered (removed while the walk was going
on, or not readable) made the go tool run again in the directory the
command was started in, because the error of os.Chdir was ignored.
---
 cmd/autotidy/autotidy.go     | 15 ++++++++-------
 cmd/autoupdate/autoupdate.go | 15 ++++++++-------
 2 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/cmd/autotidy/autotidy.go b/cmd/autotidy/autotidy.go
index 6ebbac2..08f4266 100644
--- a/cmd/autotidy/autotidy.go
+++ b/cmd/autotidy/autotidy.go
@@ -3,25 +3,26 @@ package main
 import (
 	"io/fs"
 	"log"
-	"os"
 	"os/exec"
 	"path/filepath"
 )
 
 func main() {
-	workdir, _ := os.Getwd()
-	filepath.WalkDir(".", func(path string, d fs.DirEntry, _ error) error {
+	filepath.WalkDir(".", func(path string, d fs.DirEntry, err error) error {
+		if err != nil {
+			log.Println(err)
+			return nil
+		}
 		if d.IsDir() {
 			if d.Name() == "vendor" || d.Name() == ".git" {
 				return filepath.SkipDir
 			}
-			os.Chdir(path)
 			log.Println("entering", path)
-			exec.Command("go", "mod", "tidy").Run()
+			cmd := exec.Command("go", "mod", "tidy")
+			cmd.Dir = path
+			cmd.Run()
 			log.Println("leaving", path)
-			os.Chdir(workdir)
 		}
 		return nil
 	})
-	os.Chdir(workdir)
 }
diff --git a/cmd/autoupdate/autoupdate.go b/cmd/autoupdate/autoupdate.go
index 556d49a..7b37088 100644
--- a/cmd/autoupdate/autoupdate.go
+++ b/cmd/autoupdate/autoupdate.go
@@ -3,25 +3,26 @@ package main
 import (
 	"io/fs"
 	"log"
-	"os"
 	"os/exec"
 	"path/filepath"
 )
 
 func main() {
-	workdir, _ := os.Getwd()
-	filepath.WalkDir(".", func(path string, d fs.DirEntry, _ error) error {
+	filepath.WalkDir(".", func(path string, d fs.DirEntry, err error) error {
+		if err != nil {
+			log.Println(err)
+			return nil
+		}
 		if d.IsDir() {
 			if d.Name() == "vendor" || d.Name() == ".git" {
 				return filepath.SkipDir
 			}
-			os.Chdir(path)
 			log.Println("entering", path)
-			exec.Command("go", "get", "-u").Run()
+			cmd := exec.Command("go", "get", "-u")
+			cmd.Dir = path
+			cmd.Run()
 			log.Println("leaving", path)
-			os.Chdir(workdir)
 		}
 		return nil
 	})
-	os.Chdir(workdir)
 }
-- 
2.43.0


From 29231473622204f2701eb700503507f44396d2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:39 +0000
Subject: [PATCH 27/28] fix: release the map's lock when a key cannot be hashed

A map operation panics for a key of interface type that holds, for
example, a slice. The lock stayed held then, and every later operation
waited for ever.
---
 dsx/mapx/syncmapx/syncmapx.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/dsx/mapx/syncmapx/syncmapx.go b/dsx/mapx/syncmapx/syncmapx.go
index e16eecc..312077b 100644
--- a/dsx/mapx/syncmapx/syncmapx.go
+++ b/dsx/mapx/syncmapx/syncmapx.go
@@ -16,15 +16,14 @@ func New[K comparable, V any]() *Map[K, V] {
 
 func (m *Map[K, V]) Get(k K) V {
 	m.mtx.RLock()
-	val := m.m[k]
-	m.mtx.RUnlock()
-	return val
+	defer m.mtx.RUnlock()
+	return m.m[k]
 }
 
 func (m *Map[K, V]) Has(k K) bool {
 	m.mtx.RLock()
+	defer m.mtx.RUnlock()
 	_, ok := m.m[k]
-	m.mtx.RUnlock()
 	return ok
 }
 
@@ -57,14 +56,14 @@ func (t *Map[K, V]) Values() []V {
 
 func (m *Map[K, V]) Set(k K, v V) {
 	m.mtx.Lock()
+	defer m.mtx.Unlock()
 	m.m[k] = v
-	m.mtx.Unlock()
 }
 
 func (m *Map[K, V]) Delete(k K) {
 	m.mtx.Lock()
+	defer m.mtx.Unlock()
 	delete(m.m, k)
-	m.mtx.Unlock()
 }
 
 func (m *Map[K, V]) Clear() {
-- 
2.43.0


From f5501023047da748fda98435567c2e07e19123dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:39 +0000
Subject: [PATCH 28/28] fix: give the pointer lock back when the function
 panics

The variable stayed marked as held, and every later Lock waited for ever.
---
 syncx/lockx/lockx.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/syncx/lockx/lockx.go b/syncx/lockx/lockx.go
index ce07a8c..57aa980 100644
--- a/syncx/lockx/lockx.go
+++ b/syncx/lockx/lockx.go
@@ -12,8 +12,10 @@ func Lock[T any](l *T, f func(*T)) {
 		runtime.Gosched()
 		p = l
 	}
+	defer func() {
+		for !atomic.CompareAndSwapPointer((*unsafe.Pointer)(unsafe.Pointer(l)), nil, unsafe.Pointer(p)) {
+			runtime.Gosched()
+		}
+	}()
 	f(p)
-	for !atomic.CompareAndSwapPointer((*unsafe.Pointer)(unsafe.Pointer(l)), nil, unsafe.Pointer(p)) {
-		runtime.Gosched()
-	}
 }
-- 
2.43.0

