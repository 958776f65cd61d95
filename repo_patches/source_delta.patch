From cbf893cc0cdb01c2826d79517d0d51a0d4eaca6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:58 +0000
Subject: [PATCH 01/48] fix: linked deque: reset both ends when emptied and
 links of reused blocks

---
 dsx/linkedx/dequex/dequex.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/dsx/linkedx/dequex/dequex.go b/dsx/linkedx/dequex/dequex.go
index d8adff5..660fa4e 100644
--- a/dsx/linkedx/dequex/dequex.go
+++ b/dsx/linkedx/dequex/dequex.go
@@ -89,10 +89,14 @@ func (t *Deque[T]) PopFront() (data T, ok bool) {
 	data = t.head.data[t.head.start]
 	t.head.start++
 	if t.head.start == t.head.end {
-		t.pool.Put(t.head)
-		t.head = t.head.next
+		n := t.head
+		t.head = n.next
+		n.next = nil
+		t.pool.Put(n)
 		if t.head != nil {
 			t.head.prev = nil
+		} else {
+			t.tail = nil
 		}
 	}
 	return data, true
@@ -105,10 +109,14 @@ func (t *Deque[T]) PopBack() (data T, ok bool) {
 	t.tail.end--
 	data = t.tail.data[t.tail.end]
 	if t.tail.start == t.tail.end {
-		t.pool.Put(t.tail)
-		t.tail = t.tail.prev
+		n := t.tail
+		t.tail = n.prev
+		n.prev = nil
+		t.pool.Put(n)
 		if t.tail != nil {
 			t.tail.next = nil
+		} else {
+			t.head = nil
 		}
 	}
 	return data, true
-- 
2.43.0


From 8711b912e627ea507811535b4eecfbada1b0183b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:58 +0000
Subject: [PATCH 02/48] fix: linked list: keep length and tail right on insert
 and remove

---
 dsx/linkedx/listx/listx.go | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/dsx/linkedx/listx/listx.go b/dsx/linkedx/listx/listx.go
index d136036..d949b58 100644
--- a/dsx/linkedx/listx/listx.go
+++ b/dsx/linkedx/listx/listx.go
@@ -45,6 +45,13 @@ func (l *List[T]) Append(data T) {
 }
 
 func (l *List[T]) Insert(index int, data T) {
+	if index < 0 || index > l.length {
+		return
+	}
+	if index == l.length {
+		l.Append(data)
+		return
+	}
 	l.length++
 	n := l.pool.Get().(*node[T])
 	n.data = data
@@ -54,11 +61,6 @@ func (l *List[T]) Insert(index int, data T) {
 		l.head = n
 		return
 	}
-	if index == l.Len() {
-		l.tail.next = n
-		l.tail = n
-		return
-	}
 	i := 0
 	for p := l.head; p != nil; p = p.next {
 		if i == index-1 {
@@ -71,26 +73,29 @@ func (l *List[T]) Insert(index int, data T) {
 }
 
 func (l *List[T]) Remove(index int) (rs T, ok bool) {
+	if index < 0 || index >= l.length {
+		return
+	}
 	l.length--
 	if index == 0 {
-		if l.head == nil {
-			return
-		}
 		rs = l.head.data
 		l.pool.Put(l.head)
 		l.head = l.head.next
+		if l.head == nil {
+			l.tail = nil
+		}
 		ok = true
 		return
 	}
 	i := 0
 	for p := l.head; p != nil; p = p.next {
 		if i == index-1 {
-			if p.next == nil {
-				return
-			}
 			rs = p.next.data
 			l.pool.Put(p.next)
 			p.next = p.next.next
+			if p.next == nil {
+				l.tail = p
+			}
 			ok = true
 			return
 		}
-- 
2.43.0


From 10d33a40b84783551ae4b9c3e771cad8a30067e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:58 +0000
Subject: [PATCH 03/48] fix: linked queue: Dequeue returns the oldest element
 and resets the reused node

---
 dsx/linkedx/queuex/queuex.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dsx/linkedx/queuex/queuex.go b/dsx/linkedx/queuex/queuex.go
index 38627c4..9be09ee 100644
--- a/dsx/linkedx/queuex/queuex.go
+++ b/dsx/linkedx/queuex/queuex.go
@@ -46,9 +46,12 @@ func (q *Queue[T]) Dequeue() (data T, ok bool) {
 	if q.head == nil {
 		return
 	}
-	q.pool.Put(q.head)
-	q.head = q.head.next
-	return q.head.data, true
+	n := q.head
+	data = n.data
+	q.head = n.next
+	n.next = nil
+	q.pool.Put(n)
+	return data, true
 }
 
 func (q *Queue[T]) Peek() (data T, ok bool) {
-- 
2.43.0


From 2288d061c365f7c2cfa32fc7bbf9e8acc1a2dd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:58 +0000
Subject: [PATCH 04/48] fix: linked stack: Pop returns the top element

---
 dsx/linkedx/stackx/stackx.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dsx/linkedx/stackx/stackx.go b/dsx/linkedx/stackx/stackx.go
index 93b5216..ff19295 100644
--- a/dsx/linkedx/stackx/stackx.go
+++ b/dsx/linkedx/stackx/stackx.go
@@ -43,9 +43,10 @@ func (s *Stack[T]) Pop() (data T, ok bool) {
 		return
 	}
 	s.length--
+	data = s.head.data
 	s.pool.Put(s.head)
 	s.head = s.head.next
-	return s.head.data, true
+	return data, true
 }
 
 func (s *Stack[T]) Peek() (data T, ok bool) {
-- 
2.43.0


From 6de143b73963dda2521e14dd36406492ba771ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:58 +0000
Subject: [PATCH 05/48] fix: ring queue: allocate the slot its index arithmetic
 needs

---
 dsx/slicex/queuex/queuex.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsx/slicex/queuex/queuex.go b/dsx/slicex/queuex/queuex.go
index c4aa0d8..fbe7081 100644
--- a/dsx/slicex/queuex/queuex.go
+++ b/dsx/slicex/queuex/queuex.go
@@ -18,7 +18,7 @@ func New[T any](cap int) *Ring[T] {
 		return nil
 	}
 	return &Ring[T]{
-		data: make([]T, cap),
+		data: make([]T, cap+1),
 		cap:  cap + 1,
 		head: 0,
 		tail: 0,
-- 
2.43.0


From 8e958c476b28bba945b46cc12ecd1ec57f1ba45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:26 +0000
Subject: [PATCH 06/48] fix: sortx: Sort honours its reverse flag

---
 algox/sortx/sortx.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/algox/sortx/sortx.go b/algox/sortx/sortx.go
index c43c333..2d87a18 100644
--- a/algox/sortx/sortx.go
+++ b/algox/sortx/sortx.go
@@ -6,6 +6,10 @@ import (
 )
 
 func Sort[T constraints.Ordered](s []T, reverse bool) {
+	if reverse {
+		SortReverse(s)
+		return
+	}
 	SortCustom(s, func(i, j T) bool {
 		return i < j
 	})
-- 
2.43.0


From 0e00d2569186b8c1c1bae9d9321ec19f3dc77fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:26 +0000
Subject: [PATCH 07/48] fix: slicex: Splice no longer writes into the spare
 capacity of its arguments

---
 dsx/slicex/slicex.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsx/slicex/slicex.go b/dsx/slicex/slicex.go
index 08cdfc1..75d27e6 100644
--- a/dsx/slicex/slicex.go
+++ b/dsx/slicex/slicex.go
@@ -58,7 +58,7 @@ func (s *Slice[T]) Slice(i, j int) *Slice[T] {
 
 func (s *Slice[T]) Splice(i, j int, v ...T) *Slice[T] {
 	preprocIndexException(&i, &j, len(*s))
-	*s = append((*s)[:i], append(v, (*s)[j:]...)...)
+	*s = append((*s)[:i], append(v[:len(v):len(v)], (*s)[j:]...)...)
 	return s
 }
 
-- 
2.43.0


From 8b0633d6530a609dbfb4ef93660fc6f3b472b3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:26 +0000
Subject: [PATCH 08/48] fix: slicex: Delete and DeleteReplace cope with every
 position

---
 dsx/slicex/slicex.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dsx/slicex/slicex.go b/dsx/slicex/slicex.go
index 75d27e6..e84083f 100644
--- a/dsx/slicex/slicex.go
+++ b/dsx/slicex/slicex.go
@@ -75,6 +75,9 @@ func (s *Slice[T]) Cut(i, j int) *Slice[T] {
 }
 
 func (s *Slice[T]) Delete(i int) *Slice[T] {
+	if i < 0 || i >= len(*s) {
+		return s
+	}
 	return s.Cut(i, i+1)
 }
 
@@ -107,7 +110,10 @@ func (s *Slice[T]) Shift() T {
 }
 
 func (s *Slice[T]) DeleteReplace(i int) *Slice[T] {
-	preprocIndexException(&i, nil, len(*s))
+	if len(*s) == 0 {
+		return s
+	}
+	preprocIndexException(&i, nil, len(*s)-1)
 	(*s)[i] = (*s)[len(*s)-1]
 	*s = (*s)[:len(*s)-1]
 	return s
-- 
2.43.0


From 9e619d036e09ec7af67c2165eb6911f9dd1f6cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:26 +0000
Subject: [PATCH 09/48] fix: slicex: Rotate by the smallest integer no longer
 panics

---
 dsx/slicex/slicex.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsx/slicex/slicex.go b/dsx/slicex/slicex.go
index e84083f..d01cfb1 100644
--- a/dsx/slicex/slicex.go
+++ b/dsx/slicex/slicex.go
@@ -135,7 +135,7 @@ func (s *Slice[T]) Rotate(n int) *Slice[T] {
 		index := n % len(*s)
 		*s = append((*s)[index:], (*s)[:index]...)
 	} else if n < 0 {
-		index := -n % len(*s)
+		index := -(n % len(*s))
 		*s = append((*s)[len(*s)-index:], (*s)[:len(*s)-index]...)
 	}
 	return s
-- 
2.43.0


From 4d8595cab5dcae4a4689e0b80c35d6a049a708b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:33 +0000
Subject: [PATCH 10/48] fix: slicex: Split sizes too large to add up are
 clamped to the end

---
 dsx/slicex/slicex.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dsx/slicex/slicex.go b/dsx/slicex/slicex.go
index d01cfb1..2fd7289 100644
--- a/dsx/slicex/slicex.go
+++ b/dsx/slicex/slicex.go
@@ -173,7 +173,10 @@ func (s Slice[T]) Split(splits ...int) []Slice[T] {
 	var r []Slice[T] = make([]Slice[T], 0, len(splits)+1)
 	var end int
 	for i := 0; i < len(splits); i++ {
-		endNext := end + splits[i]
+		endNext := len(s)
+		if splits[i] <= len(s)-end {
+			endNext = end + splits[i]
+		}
 		preprocIndexException(&endNext, nil, len(s))
 		if endNext < end {
 			r = append(r, s[endNext:end])
-- 
2.43.0


From 9e5259391acaecc02141050198d14cb3d4d6a8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:59 +0000
Subject: [PATCH 11/48] fix: aesx: data of an impossible length is refused with
 an error

---
 cryptox/aesx/cbcx.go   |  9 +++++++++
 cryptox/aesx/ctrx.go   |  3 +++
 cryptox/aesx/errors.go | 10 ++++++++++
 cryptox/aesx/gcmx.go   |  3 +++
 4 files changed, 25 insertions(+)
 create mode 100644 cryptox/aesx/errors.go

diff --git a/cryptox/aesx/cbcx.go b/cryptox/aesx/cbcx.go
index 35f95cf..c17380e 100644
--- a/cryptox/aesx/cbcx.go
+++ b/cryptox/aesx/cbcx.go
@@ -13,6 +13,9 @@ func EncryptCBC(data []byte, key []byte) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(data)%block.BlockSize() != 0 {
+		return nil, ErrInvalidLength
+	}
 	iv := make([]byte, block.BlockSize())
 	if _, err := rand.Read(iv); err != nil {
 		return nil, err
@@ -30,6 +33,12 @@ func DecryptCBC(data []byte, key []byte) ([]byte, error) {
 		return nil, err
 	}
 	ivSize := block.BlockSize()
+	if len(data) < ivSize {
+		return nil, ErrTooShort
+	}
+	if len(data)%ivSize != 0 {
+		return nil, ErrInvalidLength
+	}
 	iv, ciphertext := data[:ivSize], data[ivSize:]
 	mode := cipher.NewCBCDecrypter(block, iv)
 	result := make([]byte, len(ciphertext))
diff --git a/cryptox/aesx/ctrx.go b/cryptox/aesx/ctrx.go
index 032178e..07a1ef6 100644
--- a/cryptox/aesx/ctrx.go
+++ b/cryptox/aesx/ctrx.go
@@ -30,6 +30,9 @@ func DecryptCTR(data []byte, key []byte) ([]byte, error) {
 		return nil, err
 	}
 	ivSize := block.BlockSize()
+	if len(data) < ivSize {
+		return nil, ErrTooShort
+	}
 	iv, ciphertext := data[:ivSize], data[ivSize:]
 	mode := cipher.NewCTR(block, iv)
 	result := make([]byte, len(ciphertext))
diff --git a/cryptox/aesx/errors.go b/cryptox/aesx/errors.go
new file mode 100644
index 0000000..69af742
--- /dev/null
+++ b/cryptox/aesx/errors.go
@@ -0,0 +1,10 @@
+package aesx
+
+import "errors"
+
+var (
+	// ErrInvalidLength is returned for CBC data that is not a whole number of blocks.
+	ErrInvalidLength = errors.New("data length is not a multiple of the block size")
+	// ErrTooShort is returned for ciphertext that is too short to hold its IV or nonce.
+	ErrTooShort = errors.New("ciphertext too short")
+)
diff --git a/cryptox/aesx/gcmx.go b/cryptox/aesx/gcmx.go
index 5724a0b..4b39e97 100644
--- a/cryptox/aesx/gcmx.go
+++ b/cryptox/aesx/gcmx.go
@@ -36,6 +36,9 @@ func DecryptGCM(data []byte, key []byte) ([]byte, error) {
 		return nil, err
 	}
 	nonceSize := aead.NonceSize()
+	if len(data) < nonceSize {
+		return nil, ErrTooShort
+	}
 	nonce, ciphertext := data[:nonceSize], data[nonceSize:]
 	result, err := aead.Open(nil, nonce, ciphertext, nil)
 	if err != nil {
-- 
2.43.0


From 1889281eb988d83452fdb7e7c136e52e573b2ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:59 +0000
Subject: [PATCH 12/48] fix: bcryptx: Decrypt applies the password length limit

---
 cryptox/bcryptx/bcryptx.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cryptox/bcryptx/bcryptx.go b/cryptox/bcryptx/bcryptx.go
index 086716c..6367733 100644
--- a/cryptox/bcryptx/bcryptx.go
+++ b/cryptox/bcryptx/bcryptx.go
@@ -28,6 +28,9 @@ func Encrypt(pw []byte) ([]byte, error) {
 }
 
 func Decrypt(enc, pw []byte) (bool, error) {
+	if len(pw) > DefMaxLen {
+		return false, ErrPasswordTooLong
+	}
 	err := bcrypt.CompareHashAndPassword(enc, pw)
 	if err != nil {
 		if err == bcrypt.ErrMismatchedHashAndPassword {
-- 
2.43.0


From c93e1e468b618771d14b5a12dd5cf41a2e2eecc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:59 +0000
Subject: [PATCH 13/48] fix: sklmapx: an exhausted iterator stays exhausted

---
 dsx/mapx/sklmapx/sklmapx.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsx/mapx/sklmapx/sklmapx.go b/dsx/mapx/sklmapx/sklmapx.go
index be8685d..b55215a 100644
--- a/dsx/mapx/sklmapx/sklmapx.go
+++ b/dsx/mapx/sklmapx/sklmapx.go
@@ -213,7 +213,7 @@ func (i *Iterator[K, V]) Rewind() {
 func (i *Iterator[K, V]) Next() (K, V, bool) {
 	if i.node == nil {
 		i.node = i.list.skl.head.next[0]
-	} else {
+	} else if i.node != i.list.skl.tail {
 		i.node = i.node.next[0]
 	}
 	if i.node == i.list.skl.tail {
-- 
2.43.0


From bfcab028ee229c63757f9adcf4657d7fa194c1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:59 +0000
Subject: [PATCH 14/48] fix: close manager: Close returns nil when every closer
 succeeded

---
 iox/managerx/closex/manager.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/iox/managerx/closex/manager.go b/iox/managerx/closex/manager.go
index 5a6b954..ef05975 100644
--- a/iox/managerx/closex/manager.go
+++ b/iox/managerx/closex/manager.go
@@ -36,5 +36,8 @@ func (c *CloseManager) Close() error {
 		}
 	}
 
+	if len(errs) == 0 {
+		return nil
+	}
 	return errs
 }
-- 
2.43.0


From 9921016be9136f2dfa269f4a7e8c53e27ab41d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:59 +0000
Subject: [PATCH 15/48] fix: closex: a second kill signal no longer closes a
 closed channel

---
 osx/closex/closex.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/osx/closex/closex.go b/osx/closex/closex.go
index d51a242..ccbc4d1 100644
--- a/osx/closex/closex.go
+++ b/osx/closex/closex.go
@@ -4,6 +4,7 @@ import (
 	"log"
 	"os"
 	"os/signal"
+	"sync"
 	"syscall"
 )
 
@@ -19,10 +20,11 @@ func HandleKillSig(handler func(), logger *log.Logger) interrupt {
 
 	signal.Notify(sigChannel, syscall.SIGINT, syscall.SIGQUIT, syscall.SIGTERM)
 	go func() {
+		var once sync.Once
 		for signal := range sigChannel {
 			logger.Printf("Receive signal %s, Shutting down...", signal)
 			handler()
-			close(intr.C)
+			once.Do(func() { close(intr.C) })
 		}
 	}()
 	return intr
-- 
2.43.0


From d31ee4e6abc6bdc6809c5638e731f2e3db568647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:59 +0000
Subject: [PATCH 16/48] fix: intersectionx: edges at the same offset are
 ordered by type

---
 timex/intersectionx/intersectionx.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/timex/intersectionx/intersectionx.go b/timex/intersectionx/intersectionx.go
index e6d9e5d..39b51e7 100644
--- a/timex/intersectionx/intersectionx.go
+++ b/timex/intersectionx/intersectionx.go
@@ -17,7 +17,10 @@ func (s iSlice) Len() int {
 }
 
 func (s iSlice) Less(i, j int) bool {
-	return s[i].Offset < s[j].Offset
+	if s[i].Offset != s[j].Offset {
+		return s[i].Offset < s[j].Offset
+	}
+	return s[i].Type < s[j].Type
 }
 
 func (s iSlice) Swap(i, j int) {
-- 
2.43.0


From 86efd087b2dc492aec72ae3baef7b64c72b5b769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:59 +0000
Subject: [PATCH 17/48] fix: convx: Into no longer holds the registry lock
 while converting

---
 typex/convx/convx.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/typex/convx/convx.go b/typex/convx/convx.go
index d8dd152..1b16049 100644
--- a/typex/convx/convx.go
+++ b/typex/convx/convx.go
@@ -40,12 +40,8 @@ func Exists[T, R any]() bool {
 
 func Into[T, R any](value T) (rs R, ok bool) {
 	convertersLock.RLock()
-	defer convertersLock.RUnlock()
-	m := converters[reflect.TypeOf(value)]
-	if m == nil {
-		return
-	}
-	v := m[reflect.TypeOf(rs)]
+	v := converters[reflect.TypeOf(value)][reflect.TypeOf(rs)]
+	convertersLock.RUnlock()
 	if v == nil {
 		return
 	}
-- 
2.43.0


From c36c743ece152ca4b64807d8e20a80d86c52c297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:32 +0000
Subject: [PATCH 18/48] fix: gopoolx: preheated workers respect the worker
 limit

---
 poolx/gopoolx/timedpool.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/poolx/gopoolx/timedpool.go b/poolx/gopoolx/timedpool.go
index aedcf63..a87089f 100644
--- a/poolx/gopoolx/timedpool.go
+++ b/poolx/gopoolx/timedpool.go
@@ -50,6 +50,9 @@ func (pool *TimedPool[T]) start(preheat int) {
 	})
 	pool.stop = make(chan struct{})
 
+	if int64(preheat) > pool.maxWorkers {
+		preheat = int(pool.maxWorkers)
+	}
 	if preheat > 0 {
 		pool.workers = int64(preheat)
 		for i := 0; i < preheat; i++ {
-- 
2.43.0


From c906411877557d95609736f8f37927c381bcbbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:32 +0000
Subject: [PATCH 19/48] fix: gopoolx: a worker retired before it first runs
 still ends

---
 poolx/gopoolx/timedpool.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/poolx/gopoolx/timedpool.go b/poolx/gopoolx/timedpool.go
index a87089f..d2fccf9 100644
--- a/poolx/gopoolx/timedpool.go
+++ b/poolx/gopoolx/timedpool.go
@@ -29,8 +29,8 @@ type TimedPool[T any] struct {
 	dobby   []*timedworker[T]
 }
 
-func tworker[T any](pool *TimedPool[T], w *timedworker[T]) {
-	for v := range w.ch {
+func tworker[T any](pool *TimedPool[T], w *timedworker[T], ch <-chan T) {
+	for v := range ch {
 		pool.handler(v)
 		if pool.free(w) {
 			return
@@ -59,7 +59,7 @@ func (pool *TimedPool[T]) start(preheat int) {
 			w := pool.pool.Get()
 			w.tt = time.Now().UnixNano()
 			pool.dobby = append(pool.dobby, w)
-			go tworker(pool, w)
+			go tworker(pool, w, w.ch)
 		}
 	}
 
@@ -163,7 +163,7 @@ func (pool *TimedPool[T]) Run(v T) (ok bool) {
 			pool.workers++
 			w = pool.pool.Get()
 			w.ch = make(chan T, 1)
-			go tworker(pool, w)
+			go tworker(pool, w, w.ch)
 		} else {
 			pool.mu.Unlock()
 			return false
-- 
2.43.0


From 0a648fc1adb8ed7b1e5a814a6ce2e3fba221fcd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:32 +0000
Subject: [PATCH 20/48] fix: lockx: Lock excludes by variable instead of
 overwriting the variable

---
 syncx/lockx/lockx.go | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/syncx/lockx/lockx.go b/syncx/lockx/lockx.go
index ce07a8c..17cf50c 100644
--- a/syncx/lockx/lockx.go
+++ b/syncx/lockx/lockx.go
@@ -2,18 +2,35 @@ package lockx
 
 import (
 	"runtime"
-	"sync/atomic"
-	"unsafe"
+	"sync"
 )
 
+var (
+	mu   sync.Mutex
+	held = make(map[any]struct{})
+)
+
+// Lock calls f with l while no other Lock call for the same variable runs its function.
 func Lock[T any](l *T, f func(*T)) {
-	p := l
-	for !atomic.CompareAndSwapPointer((*unsafe.Pointer)(unsafe.Pointer(l)), unsafe.Pointer(p), nil) {
+	for !acquire(l) {
 		runtime.Gosched()
-		p = l
 	}
-	f(p)
-	for !atomic.CompareAndSwapPointer((*unsafe.Pointer)(unsafe.Pointer(l)), nil, unsafe.Pointer(p)) {
-		runtime.Gosched()
+	defer release(l)
+	f(l)
+}
+
+func acquire(l any) bool {
+	mu.Lock()
+	defer mu.Unlock()
+	if _, ok := held[l]; ok {
+		return false
 	}
+	held[l] = struct{}{}
+	return true
+}
+
+func release(l any) {
+	mu.Lock()
+	defer mu.Unlock()
+	delete(held, l)
 }
-- 
2.43.0


From 1f2a5f42bca282e90d17dec2945c22cfb730d3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:59 +0000
Subject: [PATCH 21/48] fix: sleepx: no wake-up is lost and concurrent use is
 free of data races

---
 timex/sleepx/sleepx.go | 57 +++++++++++++++++++++++++++---------------
 1 file changed, 37 insertions(+), 20 deletions(-)

diff --git a/timex/sleepx/sleepx.go b/timex/sleepx/sleepx.go
index e8e8ce4..9bff397 100644
--- a/timex/sleepx/sleepx.go
+++ b/timex/sleepx/sleepx.go
@@ -2,36 +2,52 @@ package sleepx
 
 import (
 	"context"
-	"sync/atomic"
+	"sync"
 	"time"
 
 	"github.com/unsafe-risk/utilx/timex"
 )
 
 type Sleeper struct {
-	// wakeup signal
-	ctx    context.Context
+	mu sync.Mutex
+
+	// wakeup signal of the sleep in progress
 	cancel context.CancelFunc
 
 	// slept
-	slept atomic.Bool
+	slept bool
 }
 
 func New() *Sleeper {
-	ctx, cancel := context.WithCancel(context.Background())
-	return &Sleeper{
-		ctx:    ctx,
-		cancel: cancel,
-		slept:  atomic.Bool{},
+	return &Sleeper{}
+}
+
+// begin starts a sleep. It fails if one is in progress already.
+func (s *Sleeper) begin() (done <-chan struct{}, ok bool) {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+	if s.slept {
+		return nil, false
 	}
+	s.slept = true
+	ctx, cancel := context.WithCancel(context.Background())
+	s.cancel = cancel
+	return ctx.Done(), true
+}
+
+func (s *Sleeper) end() {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+	s.cancel()
+	s.slept = false
 }
 
 func (s *Sleeper) SleepFor(d time.Duration) bool {
-	if !s.slept.CompareAndSwap(false, true) {
+	done, ok := s.begin()
+	if !ok {
 		return false
 	}
-	defer s.slept.Store(false)
-	done := s.ctx.Done()
+	defer s.end()
 	for {
 		select {
 		case <-time.After(time.Duration(d) * time.Second):
@@ -43,11 +59,11 @@ func (s *Sleeper) SleepFor(d time.Duration) bool {
 }
 
 func (s *Sleeper) SleepUntil(t time.Time) bool {
-	if !s.slept.CompareAndSwap(false, true) {
+	done, ok := s.begin()
+	if !ok {
 		return false
 	}
-	defer s.slept.Store(false)
-	done := s.ctx.Done()
+	defer s.end()
 	for {
 		select {
 		case <-time.After(t.Sub(timex.Now())):
@@ -59,11 +75,11 @@ func (s *Sleeper) SleepUntil(t time.Time) bool {
 }
 
 func (s *Sleeper) SleepForever() bool {
-	if !s.slept.CompareAndSwap(false, true) {
+	done, ok := s.begin()
+	if !ok {
 		return false
 	}
-	defer s.slept.Store(false)
-	done := s.ctx.Done()
+	defer s.end()
 	for {
 		select {
 		case <-done:
@@ -73,10 +89,11 @@ func (s *Sleeper) SleepForever() bool {
 }
 
 func (s *Sleeper) Wakeup() bool {
-	if !s.slept.Load() {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+	if !s.slept {
 		return false
 	}
 	s.cancel()
-	s.ctx, s.cancel = context.WithCancel(context.Background())
 	return true
 }
-- 
2.43.0


From 103a314dbeb2501d24dacec66a87fa1dde0075cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:32 +0000
Subject: [PATCH 22/48] fix: decouplex: a dropped write no longer takes a
 ticket and stalls the reader

---
 iox/decouplex/decouple.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/iox/decouplex/decouple.go b/iox/decouplex/decouple.go
index c53b894..16ee369 100644
--- a/iox/decouplex/decouple.go
+++ b/iox/decouplex/decouple.go
@@ -51,7 +51,7 @@ func (d *Decoupler) Write(b []byte) (int, error) {
 	}
 
 	for {
-		ts := atomic.AddUint64(&d._write, 1)
+		ts := atomic.LoadUint64(&d._write) + 1
 		idx := ts % d.size
 
 		lock := atomic.LoadUint64(&d.locktab[idx])
@@ -59,6 +59,11 @@ func (d *Decoupler) Write(b []byte) (int, error) {
 			if !atomic.CompareAndSwapUint64(&d.locktab[idx], empty, busy) {
 				continue
 			}
+			if !atomic.CompareAndSwapUint64(&d._write, ts-1, ts) {
+				// Another writer took the ticket, give the slot back
+				atomic.StoreUint64(&d.locktab[idx], empty)
+				continue
+			}
 			d.buffer[idx] = append(d.buffer[idx][:0], b...)
 			atomic.StoreUint64(&d.locktab[idx], ts)
 			atomic.AddUint64(&d._len, 1)
@@ -70,6 +75,7 @@ func (d *Decoupler) Write(b []byte) (int, error) {
 				return d.drop(b)
 			}
 		}
+		runtime.Gosched() // Wait for the other writers or the reader
 	}
 }
 
-- 
2.43.0


From b1c4df515ee9ce29865d4434688d95061d9ad658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:30 +0000
Subject: [PATCH 23/48] fix: gopoolx: idle times are taken in order, so no
 worker is retired early

---
 poolx/gopoolx/timedpool.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/poolx/gopoolx/timedpool.go b/poolx/gopoolx/timedpool.go
index d2fccf9..34082c2 100644
--- a/poolx/gopoolx/timedpool.go
+++ b/poolx/gopoolx/timedpool.go
@@ -132,13 +132,14 @@ func (pool *TimedPool[T]) start(preheat int) {
 }
 
 func (pool *TimedPool[T]) free(w *timedworker[T]) (stop bool) {
-	w.tt = time.Now().UnixNano()
 	pool.mu.Lock()
 	if pool.maxWorkers == -1 {
 		pool.workers--
 		pool.mu.Unlock()
 		return true
 	}
+	// Taken under the lock, so that dobby stays in the order of its times
+	w.tt = time.Now().UnixNano()
 	pool.dobby = append(pool.dobby, w)
 	pool.mu.Unlock()
 	return false
-- 
2.43.0


From 5bcfac35842720787039838a1dc4135ebd933df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:00 +0000
Subject: [PATCH 24/48] fix: cmd/autotidy, cmd/autoupdate: never run the Go
 tool outside the directory being visited

---
 cmd/autotidy/autotidy.go     | 9 +++------
 cmd/autoupdate/autoupdate.go | 9 +++------
 2 files changed, 6 insertions(+), 12 deletions(-)

diff --git a/cmd/autotidy/autotidy.go b/cmd/autotidy/autotidy.go
index 6ebbac2..17feedb 100644
--- a/cmd/autotidy/autotidy.go
+++ b/cmd/autotidy/autotidy.go
@@ -3,25 +3,22 @@ package main
 import (
 	"io/fs"
 	"log"
-	"os"
 	"os/exec"
 	"path/filepath"
 )
 
 func main() {
-	workdir, _ := os.Getwd()
 	filepath.WalkDir(".", func(path string, d fs.DirEntry, _ error) error {
 		if d.IsDir() {
 			if d.Name() == "vendor" || d.Name() == ".git" {
 				return filepath.SkipDir
 			}
-			os.Chdir(path)
 			log.Println("entering", path)
-			exec.Command("go", "mod", "tidy").Run()
+			cmd := exec.Command("go", "mod", "tidy")
+			cmd.Dir = path
+			cmd.Run()
 			log.Println("leaving", path)
-			os.Chdir(workdir)
 		}
 		return nil
 	})
-	os.Chdir(workdir)
 }
diff --git a/cmd/autoupdate/autoupdate.go b/cmd/autoupdate/autoupdate.go
index 556d49a..6697fcf 100644
--- a/cmd/autoupdate/autoupdate.go
+++ b/cmd/autoupdate/autoupdate.go
@@ -3,25 +3,22 @@ package main
 import (
 	"io/fs"
 	"log"
-	"os"
 	"os/exec"
 	"path/filepath"
 )
 
 func main() {
-	workdir, _ := os.Getwd()
 	filepath.WalkDir(".", func(path string, d fs.DirEntry, _ error) error {
 		if d.IsDir() {
 			if d.Name() == "vendor" || d.Name() == ".git" {
 				return filepath.SkipDir
 			}
-			os.Chdir(path)
 			log.Println("entering", path)
-			exec.Command("go", "get", "-u").Run()
+			cmd := exec.Command("go", "get", "-u")
+			cmd.Dir = path
+			cmd.Run()
 			log.Println("leaving", path)
-			os.Chdir(workdir)
 		}
 		return nil
 	})
-	os.Chdir(workdir)
 }
-- 
2.43.0


From 2f6f982154a7ee28511c446d200af0c5c1f93688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:01 +0000
Subject: [PATCH 25/48] fix: cmd/autotidy, cmd/autoupdate: visit a directory
 that cannot be listed once, not twice

---
 cmd/autotidy/autotidy.go     | 7 ++++++-
 cmd/autoupdate/autoupdate.go | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/cmd/autotidy/autotidy.go b/cmd/autotidy/autotidy.go
index 17feedb..1e7de18 100644
--- a/cmd/autotidy/autotidy.go
+++ b/cmd/autotidy/autotidy.go
@@ -8,7 +8,12 @@ import (
 )
 
 func main() {
-	filepath.WalkDir(".", func(path string, d fs.DirEntry, _ error) error {
+	filepath.WalkDir(".", func(path string, d fs.DirEntry, err error) error {
+		if err != nil {
+			// Either it cannot be visited, or it has been and cannot be listed.
+			log.Println(err)
+			return nil
+		}
 		if d.IsDir() {
 			if d.Name() == "vendor" || d.Name() == ".git" {
 				return filepath.SkipDir
diff --git a/cmd/autoupdate/autoupdate.go b/cmd/autoupdate/autoupdate.go
index 6697fcf..c4a34f6 100644
--- a/cmd/autoupdate/autoupdate.go
+++ b/cmd/autoupdate/autoupdate.go
@@ -8,7 +8,12 @@ import (
 )
 
 func main() {
-	filepath.WalkDir(".", func(path string, d fs.DirEntry, _ error) error {
+	filepath.WalkDir(".", func(path string, d fs.DirEntry, err error) error {
+		if err != nil {
+			// Either it cannot be visited, or it has been and cannot be listed.
+			log.Println(err)
+			return nil
+		}
 		if d.IsDir() {
 			if d.Name() == "vendor" || d.Name() == ".git" {
 				return filepath.SkipDir
-- 
2.43.0


From 8c1120c4a2b742d0d5477d574c85a4c41920df9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:16 +0000
Subject: [PATCH 26/48] fix: SleepFor clamps a number of seconds that a
 Duration cannot hold

---
 timex/sleepx/sleepx.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/timex/sleepx/sleepx.go b/timex/sleepx/sleepx.go
index 9bff397..31566d6 100644
--- a/timex/sleepx/sleepx.go
+++ b/timex/sleepx/sleepx.go
@@ -2,6 +2,7 @@ package sleepx
 
 import (
 	"context"
+	"math"
 	"sync"
 	"time"
 
@@ -42,7 +43,15 @@ func (s *Sleeper) end() {
 	s.slept = false
 }
 
+// maxSeconds is the largest number of seconds that a time.Duration can hold.
+const maxSeconds = math.MaxInt64 / time.Second
+
 func (s *Sleeper) SleepFor(d time.Duration) bool {
+	if d > maxSeconds {
+		d = maxSeconds
+	} else if d < 0 {
+		d = 0
+	}
 	done, ok := s.begin()
 	if !ok {
 		return false
-- 
2.43.0


From c3c5c0055f2446def6854d1166a0fed09f3d7c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:16 +0000
Subject: [PATCH 27/48] fix: a pool handler that ends its goroutine gives up
 its worker's place

---
 poolx/gopoolx/timedpool.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/poolx/gopoolx/timedpool.go b/poolx/gopoolx/timedpool.go
index 34082c2..0f24d52 100644
--- a/poolx/gopoolx/timedpool.go
+++ b/poolx/gopoolx/timedpool.go
@@ -30,16 +30,19 @@ type TimedPool[T any] struct {
 }
 
 func tworker[T any](pool *TimedPool[T], w *timedworker[T], ch <-chan T) {
+	// Deferred, as the handler may end the goroutine
+	defer func() {
+		pool.mu.Lock()
+		pool.workers--
+		pool.mu.Unlock()
+	}()
+
 	for v := range ch {
 		pool.handler(v)
 		if pool.free(w) {
 			return
 		}
 	}
-
-	pool.mu.Lock()
-	pool.workers--
-	pool.mu.Unlock()
 }
 
 func (pool *TimedPool[T]) start(preheat int) {
@@ -134,7 +137,6 @@ func (pool *TimedPool[T]) start(preheat int) {
 func (pool *TimedPool[T]) free(w *timedworker[T]) (stop bool) {
 	pool.mu.Lock()
 	if pool.maxWorkers == -1 {
-		pool.workers--
 		pool.mu.Unlock()
 		return true
 	}
-- 
2.43.0


From bbb7a99586b9413c255ff61c18fc6797b978c0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:16 +0000
Subject: [PATCH 28/48] fix: syncmapx releases its lock when a key cannot be
 hashed

---
 dsx/mapx/syncmapx/syncmapx.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dsx/mapx/syncmapx/syncmapx.go b/dsx/mapx/syncmapx/syncmapx.go
index e16eecc..8f4b2a0 100644
--- a/dsx/mapx/syncmapx/syncmapx.go
+++ b/dsx/mapx/syncmapx/syncmapx.go
@@ -16,15 +16,15 @@ func New[K comparable, V any]() *Map[K, V] {
 
 func (m *Map[K, V]) Get(k K) V {
 	m.mtx.RLock()
+	defer m.mtx.RUnlock() // deferred, as a key that cannot be hashed panics
 	val := m.m[k]
-	m.mtx.RUnlock()
 	return val
 }
 
 func (m *Map[K, V]) Has(k K) bool {
 	m.mtx.RLock()
+	defer m.mtx.RUnlock()
 	_, ok := m.m[k]
-	m.mtx.RUnlock()
 	return ok
 }
 
@@ -57,14 +57,14 @@ func (t *Map[K, V]) Values() []V {
 
 func (m *Map[K, V]) Set(k K, v V) {
 	m.mtx.Lock()
+	defer m.mtx.Unlock()
 	m.m[k] = v
-	m.mtx.Unlock()
 }
 
 func (m *Map[K, V]) Delete(k K) {
 	m.mtx.Lock()
+	defer m.mtx.Unlock()
 	delete(m.m, k)
-	m.mtx.Unlock()
 }
 
 func (m *Map[K, V]) Clear() {
-- 
2.43.0


From f9b73362c3eaa32983eb9f9319d5adfd677d3046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:00 +0000
Subject: [PATCH 29/48] fix: convx: keys are the static types, so that
 interface types are told apart

---
 typex/convx/convx.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/typex/convx/convx.go b/typex/convx/convx.go
index 1b16049..14a8e70 100644
--- a/typex/convx/convx.go
+++ b/typex/convx/convx.go
@@ -11,36 +11,36 @@ var convertersLock = sync.RWMutex{}
 func Register[T, R any](converter func(T) R) {
 	convertersLock.Lock()
 	defer convertersLock.Unlock()
-	if converters[reflect.TypeOf(*new(T))] == nil {
-		converters[reflect.TypeOf(*new(T))] = make(map[reflect.Type]any)
+	if converters[reflect.TypeOf(new(T))] == nil {
+		converters[reflect.TypeOf(new(T))] = make(map[reflect.Type]any)
 	}
-	converters[reflect.TypeOf(*new(T))][reflect.TypeOf(*new(R))] = converter
+	converters[reflect.TypeOf(new(T))][reflect.TypeOf(new(R))] = converter
 }
 
 func Unregister[T, R any]() {
 	convertersLock.Lock()
 	defer convertersLock.Unlock()
-	m := converters[reflect.TypeOf(*new(T))]
+	m := converters[reflect.TypeOf(new(T))]
 	if m == nil {
 		return
 	}
-	delete(m, reflect.TypeOf(*new(R)))
+	delete(m, reflect.TypeOf(new(R)))
 }
 
 func Exists[T, R any]() bool {
 	convertersLock.RLock()
 	defer convertersLock.RUnlock()
-	m := converters[reflect.TypeOf(*new(T))]
+	m := converters[reflect.TypeOf(new(T))]
 	if m == nil {
 		return false
 	}
-	_, ok := m[reflect.TypeOf(*new(R))]
+	_, ok := m[reflect.TypeOf(new(R))]
 	return ok
 }
 
 func Into[T, R any](value T) (rs R, ok bool) {
 	convertersLock.RLock()
-	v := converters[reflect.TypeOf(value)][reflect.TypeOf(rs)]
+	v := converters[reflect.TypeOf(&value)][reflect.TypeOf(&rs)]
 	convertersLock.RUnlock()
 	if v == nil {
 		return
-- 
2.43.0


From d7283d41e94c7d42aa341be2da28fae579537c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:00 +0000
Subject: [PATCH 30/48] fix: gopoolx: a pool may be stopped from several
 goroutines

---
 poolx/gopoolx/timedpool.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/poolx/gopoolx/timedpool.go b/poolx/gopoolx/timedpool.go
index 0f24d52..eb68ee0 100644
--- a/poolx/gopoolx/timedpool.go
+++ b/poolx/gopoolx/timedpool.go
@@ -19,6 +19,7 @@ type TimedPool[T any] struct {
 	maxWorkers  int64
 	handler     func(T)
 	stop        chan struct{}
+	stopOnce    sync.Once // the stop is sent once, as only one is received
 	idleTimeout time.Duration
 	gcPeriod    time.Duration
 	_           [10]uint64
@@ -214,8 +215,7 @@ func (pool *TimedPool[T]) Stop() {
 	if pool.stop == nil {
 		return
 	}
-	pool.stop <- struct{}{}
-	pool.stop = nil
+	pool.stopOnce.Do(func() { pool.stop <- struct{}{} })
 }
 
 func (pool *TimedPool[T]) Workers() int64 {
-- 
2.43.0


From d0ecea012faae34bfb9fd933b0f27bbdbb98d80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:00 +0000
Subject: [PATCH 31/48] fix: sklmapx: an iterator whose entry is deleted goes
 on with the next larger key

---
 dsx/mapx/sklmapx/sklmapx.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/dsx/mapx/sklmapx/sklmapx.go b/dsx/mapx/sklmapx/sklmapx.go
index b55215a..69be1c2 100644
--- a/dsx/mapx/sklmapx/sklmapx.go
+++ b/dsx/mapx/sklmapx/sklmapx.go
@@ -30,6 +30,7 @@ type sknode[K constraints.Ordered, V any] struct {
 	value  V
 	next   [MAX_HEIGHT]*sknode[K, V]
 	height uint16
+	gone   bool // deleted from the list
 }
 
 func (s *sknode[K, V]) Height() int {
@@ -79,6 +80,7 @@ func (l *skl[K, V]) delete(key K, ctx *[MAX_HEIGHT]*sknode[K, V]) bool {
 	for i := 0; i < x.Height(); i++ {
 		ctx[i].next[i] = x.next[i]
 	}
+	x.gone = true
 	l.len--
 
 	return true
@@ -186,8 +188,15 @@ func (m *SkipListMap[K, V]) ToMap() map[K]V {
 }
 
 func (m *SkipListMap[K, V]) Clear() {
-	// Clear the map by creating a new one.
-	*m = *New[K, V]()
+	// Clear the map by deleting every node, as iterators may be at one of them.
+	l := &m.skl
+	for x := l.head.next[0]; x != l.tail; x = x.next[0] {
+		x.gone = true
+	}
+	for i := range l.head.next {
+		l.head.next[i] = l.tail
+	}
+	l.len = 0
 }
 
 type Iterator[K constraints.Ordered, V any] struct {
@@ -213,6 +222,14 @@ func (i *Iterator[K, V]) Rewind() {
 func (i *Iterator[K, V]) Next() (K, V, bool) {
 	if i.node == nil {
 		i.node = i.list.skl.head.next[0]
+	} else if i.node.gone {
+		// Go on with the next larger key, which need not follow the node any more.
+		key := i.node.key
+		if i.node = i.list.skl.search(key, &i.ctx); i.node == nil {
+			i.node = i.ctx[0].next[0]
+		} else {
+			i.node = i.node.next[0]
+		}
 	} else if i.node != i.list.skl.tail {
 		i.node = i.node.next[0]
 	}
-- 
2.43.0


From 41dd600e2ae10a96960a0b2c1e668a8ee7471166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:00 +0000
Subject: [PATCH 32/48] fix: slice listx ignores an insert out of range instead
 of panicking

---
 dsx/slicex/listx/listx.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dsx/slicex/listx/listx.go b/dsx/slicex/listx/listx.go
index c13e611..d5a97ff 100644
--- a/dsx/slicex/listx/listx.go
+++ b/dsx/slicex/listx/listx.go
@@ -11,6 +11,9 @@ func (l *List[T]) Append(data T) {
 }
 
 func (l *List[T]) Insert(index int, data T) {
+	if index < 0 || index > len(*l) {
+		return
+	}
 	*l = append(*l, data)
 	copy((*l)[index+1:], (*l)[index:])
 	(*l)[index] = data
-- 
2.43.0


From 44322946af2cc9798ee4d38b9e8e47bce0634b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:00 +0000
Subject: [PATCH 33/48] fix: decouplex: a decoupler of size zero drops every
 write

---
 iox/decouplex/decouple.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iox/decouplex/decouple.go b/iox/decouplex/decouple.go
index 16ee369..caa283d 100644
--- a/iox/decouplex/decouple.go
+++ b/iox/decouplex/decouple.go
@@ -46,7 +46,7 @@ const (
 )
 
 func (d *Decoupler) Write(b []byte) (int, error) {
-	if len(b) == 0 {
+	if len(b) == 0 || d.size == 0 {
 		return d.drop(b)
 	}
 
-- 
2.43.0


From df7d1e2d4eaba9005c9e7fbd86a58fd867da8bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:00 +0000
Subject: [PATCH 34/48] fix: queuex: a ring of negative capacity is none

---
 dsx/slicex/queuex/queuex.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsx/slicex/queuex/queuex.go b/dsx/slicex/queuex/queuex.go
index fbe7081..9178aaa 100644
--- a/dsx/slicex/queuex/queuex.go
+++ b/dsx/slicex/queuex/queuex.go
@@ -14,7 +14,7 @@ type Ring[T any] struct {
 }
 
 func New[T any](cap int) *Ring[T] {
-	if cap == 0 {
+	if cap <= 0 {
 		return nil
 	}
 	return &Ring[T]{
-- 
2.43.0


From 3af4a7802170d5ef1ac7d1e1f38d594bd4d60d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:00 +0000
Subject: [PATCH 35/48] fix: usingx closes the other closers when one panics

---
 iox/usingx/using.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/iox/usingx/using.go b/iox/usingx/using.go
index 17ac7fb..ff8ed05 100644
--- a/iox/usingx/using.go
+++ b/iox/usingx/using.go
@@ -8,15 +8,19 @@ func Close(closers ...io.Closer) func(func()) []error {
 	return func(f func()) (err []error) {
 		errs := []error(nil)
 		defer func() {
-			for _, closer := range closers {
-				if e := closer.Close(); e != nil {
-					errs = append(errs, e)
-				}
-			}
 			if len(errs) > 0 {
 				err = errs
 			}
 		}()
+		// Deferred one by one, the last first, as a closer may panic
+		for i := len(closers) - 1; i >= 0; i-- {
+			i := i
+			defer func() {
+				if e := closers[i].Close(); e != nil {
+					errs = append(errs, e)
+				}
+			}()
+		}
 		f()
 		return
 	}
-- 
2.43.0


From 608a6ea43287137b76e4fa688918c99a41b2071c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:00 +0000
Subject: [PATCH 36/48] fix: truncatex: lengths beyond a duration

---
 timex/truncatex/truncatex.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/timex/truncatex/truncatex.go b/timex/truncatex/truncatex.go
index 1c8646b..e81d57d 100644
--- a/timex/truncatex/truncatex.go
+++ b/timex/truncatex/truncatex.go
@@ -1,6 +1,7 @@
 package truncatex
 
 import (
+	"math"
 	"time"
 
 	"github.com/unsafe-risk/utilx/timex"
@@ -37,6 +38,17 @@ func TruncateSec(sec int64) int64 {
 	return Truncate(sec, 1)
 }
 
+// yearOne is the Unix time of January 1, year 1, from which time.Time.Truncate counts.
+const yearOne = -62135596800
+
 func Truncate(sec int64, truncateSec int64) int64 {
+	if truncateSec > math.MaxInt64/int64(time.Second) {
+		// longer than a time.Duration
+		since := (sec - yearOne) % truncateSec
+		if since < 0 {
+			since += truncateSec
+		}
+		return sec - since
+	}
 	return time.Unix(sec, 0).UTC().Truncate(time.Second * time.Duration(truncateSec)).Unix()
 }
-- 
2.43.0


From 59886736c051d4033fddfd0e9d8525b8aec6dc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:00 +0000
Subject: [PATCH 37/48] fix: slicex: growing a part of a slice no longer writes
 into the next part

---
 dsx/slicex/slicex.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dsx/slicex/slicex.go b/dsx/slicex/slicex.go
index 2fd7289..7360f56 100644
--- a/dsx/slicex/slicex.go
+++ b/dsx/slicex/slicex.go
@@ -179,14 +179,14 @@ func (s Slice[T]) Split(splits ...int) []Slice[T] {
 		}
 		preprocIndexException(&endNext, nil, len(s))
 		if endNext < end {
-			r = append(r, s[endNext:end])
+			r = append(r, s[endNext:end:end])
 		} else {
-			r = append(r, s[end:endNext])
+			r = append(r, s[end:endNext:endNext])
 		}
 		end = endNext
 	}
 	if end < len(s) {
-		r = append(r, s[end:])
+		r = append(r, s[end:len(s):len(s)])
 	}
 	return r
 }
-- 
2.43.0


From 9bc5c24855326c368a1aea041e8ff62e82f9f7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:00 +0000
Subject: [PATCH 38/48] fix: closex closes the other closers when one panics

---
 iox/managerx/closex/manager.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/iox/managerx/closex/manager.go b/iox/managerx/closex/manager.go
index ef05975..bbae6dd 100644
--- a/iox/managerx/closex/manager.go
+++ b/iox/managerx/closex/manager.go
@@ -28,13 +28,17 @@ func (c *CloseManager) Close() error {
 
 	errs := make(ErrorList, 0, len(c.list))
 
-	var err error
-	for _, closer := range c.list {
-		err = closer.Close()
-		if err != nil {
-			errs = append(errs, err)
+	// Deferred one by one, the last first, as a closer may panic
+	func() {
+		for i := len(c.list) - 1; i >= 0; i-- {
+			closer := c.list[i]
+			defer func() {
+				if err := closer.Close(); err != nil {
+					errs = append(errs, err)
+				}
+			}()
 		}
-	}
+	}()
 
 	if len(errs) == 0 {
 		return nil
-- 
2.43.0


From bba7e22bd77f97aba2e213066d076ca9015ebc03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:22 +0000
Subject: [PATCH 39/48] fix: intersectionx: bounds beyond the range of int64
 overflowed

---
 timex/intersectionx/intersectionx.go | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/timex/intersectionx/intersectionx.go b/timex/intersectionx/intersectionx.go
index 39b51e7..a06deee 100644
--- a/timex/intersectionx/intersectionx.go
+++ b/timex/intersectionx/intersectionx.go
@@ -2,6 +2,7 @@ package intersectionx
 
 import (
 	"errors"
+	"math"
 	"sort"
 )
 
@@ -85,20 +86,34 @@ type Interval struct {
 	ConfidenceBand int64
 }
 
+// bounds returns the ends of the interval, within the range of int64.
+func (i Interval) bounds() (lower, upper int64) {
+	lower, upper = i.Offset-i.ConfidenceBand, i.Offset+i.ConfidenceBand
+	if i.ConfidenceBand > 0 {
+		if lower > i.Offset {
+			lower = math.MinInt64
+		}
+		if upper < i.Offset {
+			upper = math.MaxInt64
+		}
+	}
+	return
+}
+
 func Intersection(intervals ...Interval) (upper, lower int64, ok bool) {
 	if len(intervals) == 1 {
-		return intervals[0].Offset - intervals[0].ConfidenceBand,
-			intervals[0].Offset + intervals[0].ConfidenceBand,
-			true
+		l, u := intervals[0].bounds()
+		return l, u, true
 	}
 
 	is := make(iSlice, 0, len(intervals)*3)
 	for i := range intervals {
+		l, u := intervals[i].bounds()
 		is = append(
 			is,
-			iTuple{intervals[i].Offset - intervals[i].ConfidenceBand, -1},
+			iTuple{l, -1},
 			iTuple{intervals[i].Offset, 0},
-			iTuple{intervals[i].Offset + intervals[i].ConfidenceBand, 1},
+			iTuple{u, 1},
 		)
 	}
 	sort.Sort(&is)
-- 
2.43.0


From 6d07d1e9a61562f5d9ac6504beaf2300d2957b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:22 +0000
Subject: [PATCH 40/48] fix: bitsetx: a negative position panicked

---
 dsx/setx/bitsetx/bitsetx.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dsx/setx/bitsetx/bitsetx.go b/dsx/setx/bitsetx/bitsetx.go
index b667a51..b9e72d3 100644
--- a/dsx/setx/bitsetx/bitsetx.go
+++ b/dsx/setx/bitsetx/bitsetx.go
@@ -10,26 +10,26 @@ type BitSet[T constraints.Unsigned] struct {
 
 func (b *BitSet[T]) Set(i ...int) {
 	for _, i := range i {
-		b.data |= (1 << i)
+		b.data |= (1 << uint(i))
 	}
 }
 
 func (b *BitSet[T]) Clear(i ...int) {
 	for _, i := range i {
-		b.data &= ^(1 << i)
+		b.data &= ^(1 << uint(i))
 	}
 }
 
 func (b *BitSet[T]) Toggle(i ...int) {
 	for _, i := range i {
-		b.data ^= (1 << i)
+		b.data ^= (1 << uint(i))
 	}
 }
 
 func (b *BitSet[T]) Test(i ...int) bool {
 	t := false
 	for _, i := range i {
-		t = t || b.data&(1<<i) != 0
+		t = t || b.data&(1<<uint(i)) != 0
 	}
 	return t
 }
-- 
2.43.0


From 6bfa55d5de7fcd030dde7614f20df91bb301f387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:22 +0000
Subject: [PATCH 41/48] fix: slicex: repeating a negative number of times
 panicked

---
 dsx/slicex/slicex.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dsx/slicex/slicex.go b/dsx/slicex/slicex.go
index 7360f56..ec2bf8b 100644
--- a/dsx/slicex/slicex.go
+++ b/dsx/slicex/slicex.go
@@ -161,6 +161,9 @@ func (s *Slice[T]) Filter(f func(T) bool) *Slice[T] {
 }
 
 func (s *Slice[T]) Repeat(cnt int) *Slice[T] {
+	if cnt < 0 {
+		cnt = 0
+	}
 	repeat := make(Slice[T], 0, len(*s)*cnt)
 	for i := 0; i < cnt; i++ {
 		repeat = append(repeat, *s...)
-- 
2.43.0


From f6eda80a15de09d24b3d359c760f155692353730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:22 +0000
Subject: [PATCH 42/48] fix: sortx: slices with NaNs were left unsorted

---
 algox/sortx/sortx.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/algox/sortx/sortx.go b/algox/sortx/sortx.go
index 2d87a18..8e1b53c 100644
--- a/algox/sortx/sortx.go
+++ b/algox/sortx/sortx.go
@@ -5,43 +5,48 @@ import (
 	"golang.org/x/exp/slices"
 )
 
+// less puts NaNs first, as nothing could be sorted around them otherwise.
+func less[T constraints.Ordered](i, j T) bool {
+	return i < j || i != i && j == j
+}
+
 func Sort[T constraints.Ordered](s []T, reverse bool) {
 	if reverse {
 		SortReverse(s)
 		return
 	}
 	SortCustom(s, func(i, j T) bool {
-		return i < j
+		return less(i, j)
 	})
 }
 
 func SortReverse[T constraints.Ordered](s []T) {
 	SortCustom(s, func(i, j T) bool {
-		return i > j
+		return less(j, i)
 	})
 }
 
 func SortStable[T constraints.Ordered](s []T) {
 	SortStableCustom(s, func(i, j T) bool {
-		return i < j
+		return less(i, j)
 	})
 }
 
 func SortStableReverse[T constraints.Ordered](s []T) {
 	SortStableCustom(s, func(i, j T) bool {
-		return i > j
+		return less(j, i)
 	})
 }
 
 func IsSorted[T constraints.Ordered](s []T) bool {
 	return IsSortedCustom(s, func(i, j T) bool {
-		return i < j
+		return less(i, j)
 	})
 }
 
 func IsSortedReverse[T constraints.Ordered](s []T) bool {
 	return IsSortedCustom(s, func(i, j T) bool {
-		return i > j
+		return less(j, i)
 	})
 }
 
-- 
2.43.0


From 4a7751c26f0016c098dd96c95b7305406f994961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:22 +0000
Subject: [PATCH 43/48] fix: searchx: NaNs led the search to a wrong position

---
 algox/searchx/searchx.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algox/searchx/searchx.go b/algox/searchx/searchx.go
index 8a49f96..3f2925f 100644
--- a/algox/searchx/searchx.go
+++ b/algox/searchx/searchx.go
@@ -7,10 +7,10 @@ import (
 
 func Search[T constraints.Ordered](s []T, x T) (int, bool) {
 	return SearchCustom(s, x, func(i, j T) int {
-		if i < j {
+		if i < j || i != i && j == j { // NaNs are first
 			return -1
 		}
-		if i > j {
+		if i > j || j != j && i == i {
 			return 1
 		}
 		return 0
-- 
2.43.0


From c3cedd8b308f854ce2261272ce85c2dbe2904353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:22 +0000
Subject: [PATCH 44/48] fix: sklmapx: a NaN key hid the keys after it and was
 never found

---
 dsx/mapx/sklmapx/sklmapx.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dsx/mapx/sklmapx/sklmapx.go b/dsx/mapx/sklmapx/sklmapx.go
index 69be1c2..b661e70 100644
--- a/dsx/mapx/sklmapx/sklmapx.go
+++ b/dsx/mapx/sklmapx/sklmapx.go
@@ -37,16 +37,21 @@ func (s *sknode[K, V]) Height() int {
 	return int(s.height)
 }
 
+// less puts NaN first, as nothing could be found beyond it otherwise.
+func less[K constraints.Ordered](a, b K) bool {
+	return a < b || a != a && b == b
+}
+
 func (l *skl[K, V]) search(key K, ctx *[MAX_HEIGHT]*sknode[K, V]) *sknode[K, V] {
 	x := l.head
 	for i := MAX_HEIGHT - 1; i >= 0; i-- {
-		for x.next[i] != l.tail && x.next[i].key < key {
+		for x.next[i] != l.tail && less(x.next[i].key, key) {
 			x = x.next[i]
 		}
 		ctx[i] = x
 	}
 	x = x.next[0]
-	if x == l.tail || x.key != key {
+	if x == l.tail || less(key, x.key) {
 		return nil
 	}
 	return x
-- 
2.43.0


From ad214edb09b1a95c7d3e38a50c1222d41d4b6f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:22 +0000
Subject: [PATCH 45/48] fix: closex: a signal without a logger crashed the
 process

---
 osx/closex/closex.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/osx/closex/closex.go b/osx/closex/closex.go
index ccbc4d1..b44734e 100644
--- a/osx/closex/closex.go
+++ b/osx/closex/closex.go
@@ -13,6 +13,9 @@ type interrupt struct {
 }
 
 func HandleKillSig(handler func(), logger *log.Logger) interrupt {
+	if logger == nil {
+		logger = log.Default()
+	}
 	intr := interrupt{
 		C: make(chan struct{}),
 	}
-- 
2.43.0


From e4d124392a49f6ad9dc03b80920bef59591e3cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:33 +0000
Subject: [PATCH 46/48] fix: closex: a closer that appended to its manager
 waited for ever

---
 iox/managerx/closex/manager.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/iox/managerx/closex/manager.go b/iox/managerx/closex/manager.go
index bbae6dd..c1644ed 100644
--- a/iox/managerx/closex/manager.go
+++ b/iox/managerx/closex/manager.go
@@ -12,8 +12,9 @@ func New() *CloseManager {
 }
 
 type CloseManager struct {
-	lock sync.Mutex
-	list []io.Closer
+	lock    sync.Mutex
+	closing sync.Mutex // held while closing instead of lock, as a closer may append others
+	list    []io.Closer
 }
 
 func (c *CloseManager) Append(closer io.Closer) {
@@ -23,15 +24,19 @@ func (c *CloseManager) Append(closer io.Closer) {
 }
 
 func (c *CloseManager) Close() error {
+	c.closing.Lock()
+	defer c.closing.Unlock()
+
 	c.lock.Lock()
-	defer c.lock.Unlock()
+	list := c.list
+	c.lock.Unlock()
 
-	errs := make(ErrorList, 0, len(c.list))
+	errs := make(ErrorList, 0, len(list))
 
 	// Deferred one by one, the last first, as a closer may panic
 	func() {
-		for i := len(c.list) - 1; i >= 0; i-- {
-			closer := c.list[i]
+		for i := len(list) - 1; i >= 0; i-- {
+			closer := list[i]
 			defer func() {
 				if err := closer.Close(); err != nil {
 					errs = append(errs, err)
-- 
2.43.0


From 08870e4e9ed1d4ba6883058373ef1156a9ada362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:33 +0000
Subject: [PATCH 47/48] fix: truncatex: a large negative length truncated

---
 timex/truncatex/truncatex.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/timex/truncatex/truncatex.go b/timex/truncatex/truncatex.go
index e81d57d..bf02a27 100644
--- a/timex/truncatex/truncatex.go
+++ b/timex/truncatex/truncatex.go
@@ -42,6 +42,9 @@ func TruncateSec(sec int64) int64 {
 const yearOne = -62135596800
 
 func Truncate(sec int64, truncateSec int64) int64 {
+	if truncateSec <= 0 {
+		return sec
+	}
 	if truncateSec > math.MaxInt64/int64(time.Second) {
 		// longer than a time.Duration
 		since := (sec - yearOne) % truncateSec
-- 
2.43.0


From be0dc8f7be14fd63db9d6a1828eac60a49272071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:41 +0000
Subject: [PATCH 48/48] fix: ordmapx: the value of a NaN key was never found

---
 dsx/mapx/ordmapx/ordmapx.go | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/dsx/mapx/ordmapx/ordmapx.go b/dsx/mapx/ordmapx/ordmapx.go
index 3a07bd6..f2d608e 100644
--- a/dsx/mapx/ordmapx/ordmapx.go
+++ b/dsx/mapx/ordmapx/ordmapx.go
@@ -7,6 +7,7 @@ import (
 
 type OrdMap[K constraints.Ordered, V any] struct {
 	m   map[K]V
+	nan *V // value of NaN, which m could not find
 	skl *sklmapx.SkipListMap[K, struct{}]
 }
 
@@ -22,26 +23,42 @@ func (m *OrdMap[K, V]) Len() int {
 }
 
 func (m *OrdMap[K, V]) Get(key K) (V, bool) {
+	if key != key {
+		if m.nan == nil {
+			var zero V
+			return zero, false
+		}
+		return *m.nan, true
+	}
 	v, ok := m.m[key]
 	return v, ok
 }
 
 func (m *OrdMap[K, V]) Set(key K, value V) {
-	if _, ok := m.m[key]; !ok {
+	if _, ok := m.Get(key); !ok {
 		m.skl.Set(key, struct{}{})
 	}
+	if key != key {
+		nan := value // a copy, so that only NaN's is on the heap
+		m.nan = &nan
+		return
+	}
 	m.m[key] = value
 }
 
 func (m *OrdMap[K, V]) Del(key K) {
-	if _, ok := m.m[key]; ok {
+	if _, ok := m.Get(key); ok {
 		m.skl.Del(key)
+		if key != key {
+			m.nan = nil
+		}
 		delete(m.m, key)
 	}
 }
 
 func (m *OrdMap[K, V]) Clear() {
 	m.m = make(map[K]V)
+	m.nan = nil
 	m.skl.Clear()
 }
 
@@ -57,7 +74,8 @@ func (m *OrdMap[K, V]) Values() []V {
 		if !ok {
 			break
 		}
-		values = append(values, m.m[k])
+		v, _ := m.Get(k)
+		values = append(values, v)
 	}
 	return values
 }
@@ -69,7 +87,8 @@ func (m *OrdMap[K, V]) Range(f func(key K, value V) (stop bool)) {
 		if !ok {
 			break
 		}
-		if stop := f(k, m.m[k]); stop {
+		v, _ := m.Get(k)
+		if stop := f(k, v); stop {
 			break
 		}
 	}
-- 
2.43.0

