From 97dd61d2fc20d594f8ed2c3f4fe2f575d441ee87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:13 +0000
Subject: [PATCH 01/36] fix: HashSet.Add of a present key no longer queues it
 twice for eviction

Re-adding a key appended it to the eviction order again, so a later eviction
removed nothing and the set grew beyond WithMaxCount.
---
 collections/hash_set.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/collections/hash_set.go b/collections/hash_set.go
index c8377c6..9ce29fd 100644
--- a/collections/hash_set.go
+++ b/collections/hash_set.go
@@ -27,6 +27,9 @@ func (s *HashSet[K]) Add(key K) {
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
+	if _, ok := s.m[key]; ok {
+		return
+	}
 	s.m[key] = true
 	s.ml = append(s.ml, key)
 	if s.maxCount > 0 && len(s.m) > s.maxCount {
-- 
2.43.0


From 72aa698ebff9b9e5fcb02d431f82cb96d0895762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:13 +0000
Subject: [PATCH 02/36] fix: TwoKeyMap keeps the two key indexes consistent

Remove/RemoveByK2 of an unknown key used the zero value of the missing
counterpart and deleted an unrelated entry; Put that re-pairs a key left a
stale link behind.
---
 collections/two_key_map.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/collections/two_key_map.go b/collections/two_key_map.go
index 1b73024..18fad90 100644
--- a/collections/two_key_map.go
+++ b/collections/two_key_map.go
@@ -28,6 +28,14 @@ func NewTwoKeyMap[K1, K2 comparable, V any]() *TwoKeyMap[K1, K2, V] {
 func (m *TwoKeyMap[K1, K2, V]) Put(k1 K1, k2 K2, v V) {
 	m.mu.Lock()
 	defer m.mu.Unlock()
+	// Each key belongs to exactly one pair: drop the pairs k1 and k2 were part of.
+	if oldK2, ok := m.k1Tok2[k1]; ok && oldK2 != k2 {
+		delete(m.k2Tok1, oldK2)
+	}
+	if oldK1, ok := m.k2Tok1[k2]; ok && oldK1 != k1 {
+		delete(m.data, oldK1)
+		delete(m.k1Tok2, oldK1)
+	}
 	m.data[k1] = v
 	m.k1Tok2[k1] = k2
 	m.k2Tok1[k2] = k1
@@ -55,16 +63,24 @@ func (m *TwoKeyMap[K1, K2, V]) GetByK2(k2 K2) (v V, ok bool) {
 func (m *TwoKeyMap[K1, K2, V]) Remove(k1 K1) {
 	m.mu.Lock()
 	defer m.mu.Unlock()
+	k2, ok := m.k1Tok2[k1]
+	if !ok {
+		return
+	}
 	delete(m.data, k1)
-	delete(m.k2Tok1, m.k1Tok2[k1])
+	delete(m.k2Tok1, k2)
 	delete(m.k1Tok2, k1)
 }
 
 func (m *TwoKeyMap[K1, K2, V]) RemoveByK2(k2 K2) {
 	m.mu.Lock()
 	defer m.mu.Unlock()
-	delete(m.data, m.k2Tok1[k2])
-	delete(m.k1Tok2, m.k2Tok1[k2])
+	k1, ok := m.k2Tok1[k2]
+	if !ok {
+		return
+	}
+	delete(m.data, k1)
+	delete(m.k1Tok2, k1)
 	delete(m.k2Tok1, k2)
 }
 
-- 
2.43.0


From b996be34f1c5fbfd3601b4e302f771c0d8051448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:13 +0000
Subject: [PATCH 03/36] fix: AES.Decrypt returns an error on input shorter than
 the nonce

It sliced out of range and panicked.
---
 crypto/aes.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crypto/aes.go b/crypto/aes.go
index a848755..ae37f27 100644
--- a/crypto/aes.go
+++ b/crypto/aes.go
@@ -4,8 +4,11 @@ import (
 	"crypto/aes"
 	"crypto/cipher"
 	"crypto/rand"
+	"errors"
 )
 
+var ErrCiphertextTooShort = errors.New("ciphertext too short")
+
 type AES struct {
 	secretKey []byte
 }
@@ -54,6 +57,9 @@ func (a *AES) Decrypt(cipherData []byte) ([]byte, error) {
 	// Since we know the ciphertext is actually nonce+ciphertext
 	// And len(nonce) == NonceSize(). We can separate the two.
 	nonceSize := gcm.NonceSize()
+	if len(cipherData) < nonceSize {
+		return nil, ErrCiphertextTooShort
+	}
 	nonce, ciphertext := cipherData[:nonceSize], cipherData[nonceSize:]
 
 	plaintext, err := gcm.Open(nil, nonce, ciphertext, nil)
-- 
2.43.0


From 50948606931e8c92392a3a0e4bdfe2220f747de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:13 +0000
Subject: [PATCH 04/36] fix: GuavaMap.Delete of an absent key with an unload
 function no longer panics

---
 collections/guava_map.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/collections/guava_map.go b/collections/guava_map.go
index 4f2257e..44cde8e 100644
--- a/collections/guava_map.go
+++ b/collections/guava_map.go
@@ -117,6 +117,9 @@ func (m *GuavaMap[K, V]) HasOrCreate(key K, value V) bool {
 }
 
 func (m *GuavaMap[K, V]) safeDelete(key K) {
+	if _, ok := m.stored[key]; !ok {
+		return
+	}
 	if m.unloadFunc != nil {
 		v := m.stored[key].v
 		go m.unloadFunc(key, v)
-- 
2.43.0


From 1932378a2c61a05b9d450ed81308735262bac9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:13 +0000
Subject: [PATCH 05/36] fix: GuavaMap.Get and GetStored read entries under the
 lock

Get read the value after releasing the lock while Set updates it in place, and
GetStored read the map's length without the lock: data races, torn values.
---
 collections/guava_map.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/collections/guava_map.go b/collections/guava_map.go
index 44cde8e..d32fa2e 100644
--- a/collections/guava_map.go
+++ b/collections/guava_map.go
@@ -219,15 +219,23 @@ func (m *GuavaMap[K, V]) Size() int {
 	return len(m.stored)
 }
 
-func (m *GuavaMap[K, V]) Get(key K) (V, error) {
+// lookup returns the stored value and counts as a read of it
+func (m *GuavaMap[K, V]) lookup(key K) (v V, ok bool) {
 	m.mu.RLock()
+	defer m.mu.RUnlock()
 	val, ok := m.stored[key]
-	m.mu.RUnlock()
 	if ok {
 		if val.timer != nil && m.readTimeout > 0 {
 			val.timer.Reset(m.readTimeout)
 		}
-		return val.v, nil
+		v = val.v
+	}
+	return v, ok
+}
+
+func (m *GuavaMap[K, V]) Get(key K) (V, error) {
+	if v, ok := m.lookup(key); ok {
+		return v, nil
 	}
 	if m.loadFunc == nil {
 		var v V
@@ -252,7 +260,7 @@ func (m *GuavaMap[K, V]) Get(key K) (V, error) {
 	}
 	m.mu.Lock()
 	defer m.mu.Unlock()
-	val, ok = m.stored[key]
+	val, ok := m.stored[key]
 	if ok {
 		if val.timer != nil && m.readTimeout > 0 {
 			val.timer.Reset(m.readTimeout)
@@ -270,8 +278,8 @@ func (m *GuavaMap[K, V]) Get(key K) (V, error) {
 }
 
 func (m *GuavaMap[K, V]) GetStored() map[K]V {
-	resStored := make(map[K]V, len(m.stored))
 	m.mu.RLock()
+	resStored := make(map[K]V, len(m.stored))
 	for k, v := range m.stored {
 		resStored[k] = v.v
 	}
-- 
2.43.0


From db1957e34af17968934e569d3ac1ba0883ad474e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:43 +0000
Subject: [PATCH 06/36] fix: GuavaMap with WithLockLoad loads a missing key
 once

The load lock was released before the loaded value was stored, so a second
caller could load again, or skip loading and store a zero value when the entry
was removed in between.
---
 collections/guava_map.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/collections/guava_map.go b/collections/guava_map.go
index d32fa2e..0e9dad8 100644
--- a/collections/guava_map.go
+++ b/collections/guava_map.go
@@ -245,14 +245,14 @@ func (m *GuavaMap[K, V]) Get(key K) (V, error) {
 	var loadedVal V
 
 	if m.lockLoad != nil {
+		// Held until the loaded value is stored, so that the next caller finds it.
 		m.lockLoad.Lock(key)
-		if !m.Has(key) {
-			loadedVal, err = m.loadFunc(key)
+		defer m.lockLoad.Unlock(key)
+		if v, ok := m.lookup(key); ok {
+			return v, nil
 		}
-		m.lockLoad.Unlock(key)
-	} else {
-		loadedVal, err = m.loadFunc(key)
 	}
+	loadedVal, err = m.loadFunc(key)
 
 	if err != nil {
 		var v V
-- 
2.43.0


From c9e85698a25fb3d781a573b3e2604248350d22c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:25 +0000
Subject: [PATCH 07/36] fix: GuavaMap expires an entry by its own timeout only

The timer of an entry removed by Clear (without unload function), replaced by
LockForUpdate, or touched while it was firing still deleted whatever the map
held under that key, long before that entry's own timeout.
---
 collections/guava_map.go | 71 +++++++++++++++++++++++++++++-----------
 1 file changed, 51 insertions(+), 20 deletions(-)

diff --git a/collections/guava_map.go b/collections/guava_map.go
index 0e9dad8..d0a53c8 100644
--- a/collections/guava_map.go
+++ b/collections/guava_map.go
@@ -26,6 +26,22 @@ type guavaHolder[V any] struct {
 	timer    *time.Timer
 	cancelFn context.CancelFunc
 	v        V
+	expireMu sync.Mutex
+	expireAt time.Time
+}
+
+// touch postpones the expiration, called under the lock of the map
+func (h *guavaHolder[V]) touch(timeout time.Duration) {
+	h.expireMu.Lock()
+	defer h.expireMu.Unlock()
+	h.expireAt = time.Now().Add(timeout)
+	h.timer.Reset(timeout)
+}
+
+func (h *guavaHolder[V]) expired() bool {
+	h.expireMu.Lock()
+	defer h.expireMu.Unlock()
+	return time.Until(h.expireAt) <= 0
 }
 
 type GuavaMap[K comparable, V any] struct {
@@ -62,21 +78,31 @@ func (m *GuavaMap[K, V]) createHolder(key K, value V) *guavaHolder[V] {
 	if m.readTimeout > 0 || m.writeTimeout > 0 {
 		ctx, cancelFn := context.WithCancel(m.ctx)
 		res.cancelFn = cancelFn
+		timeout := m.readTimeout
 		if m.writeTimeout > 0 {
-			res.timer = time.NewTimer(m.writeTimeout)
-		} else {
-			res.timer = time.NewTimer(m.readTimeout)
+			timeout = m.writeTimeout
 		}
+		res.expireAt = time.Now().Add(timeout)
+		res.timer = time.NewTimer(timeout)
 		go func() {
 			defer res.timer.Stop()
-			select {
-			case <-ctx.Done():
-				return
-			case <-res.timer.C:
-				m.mu.Lock()
-				m.safeDelete(key)
-				m.mu.Unlock()
-
+			for {
+				select {
+				case <-ctx.Done():
+					return
+				case <-res.timer.C:
+					m.mu.Lock()
+					current := m.stored[key] == res
+					// It may have been touched, or replaced, while the timer was firing
+					expired := current && res.expired()
+					if expired {
+						m.safeDelete(key)
+					}
+					m.mu.Unlock()
+					if expired || !current {
+						return
+					}
+				}
 			}
 		}()
 	}
@@ -89,7 +115,7 @@ func (m *GuavaMap[K, V]) Has(key K) bool {
 	v, ok := m.stored[key]
 	if ok {
 		if v.timer != nil && m.readTimeout > 0 {
-			v.timer.Reset(m.readTimeout)
+			v.touch(m.readTimeout)
 		}
 	}
 	return ok
@@ -110,7 +136,7 @@ func (m *GuavaMap[K, V]) HasOrCreate(key K, value V) bool {
 		m.storedSlice = append(m.storedSlice, key)
 	} else {
 		if m.stored[key].timer != nil && m.readTimeout > 0 {
-			m.stored[key].timer.Reset(m.readTimeout)
+			m.stored[key].touch(m.readTimeout)
 		}
 	}
 	return ok
@@ -181,6 +207,9 @@ func (m *GuavaMap[K, V]) LockForUpdate(key K, update func() V) V {
 	res := update()
 	m.mu.Lock()
 	defer m.mu.Unlock()
+	if old, ok := m.stored[key]; ok && old.cancelFn != nil {
+		old.cancelFn()
+	}
 	m.stored[key] = m.createHolder(key, res)
 	return res
 }
@@ -197,9 +226,11 @@ func (m *GuavaMap[K, V]) Clear() {
 	if m.unloadFunc != nil {
 		for k, v := range m.stored {
 			go m.unloadFunc(k, v.v)
-			if v.cancelFn != nil {
-				v.cancelFn()
-			}
+		}
+	}
+	for _, v := range m.stored {
+		if v.cancelFn != nil {
+			v.cancelFn()
 		}
 	}
 	m.stored = make(map[K]*guavaHolder[V])
@@ -226,7 +257,7 @@ func (m *GuavaMap[K, V]) lookup(key K) (v V, ok bool) {
 	val, ok := m.stored[key]
 	if ok {
 		if val.timer != nil && m.readTimeout > 0 {
-			val.timer.Reset(m.readTimeout)
+			val.touch(m.readTimeout)
 		}
 		v = val.v
 	}
@@ -263,7 +294,7 @@ func (m *GuavaMap[K, V]) Get(key K) (V, error) {
 	val, ok := m.stored[key]
 	if ok {
 		if val.timer != nil && m.readTimeout > 0 {
-			val.timer.Reset(m.readTimeout)
+			val.touch(m.readTimeout)
 		}
 		return val.v, nil
 	}
@@ -303,9 +334,9 @@ func (m *GuavaMap[K, V]) Set(key K, val V) {
 	} else {
 		if v.timer != nil {
 			if m.writeTimeout > 0 {
-				v.timer.Reset(m.writeTimeout)
+				v.touch(m.writeTimeout)
 			} else {
-				v.timer.Reset(m.readTimeout)
+				v.touch(m.readTimeout)
 			}
 		}
 		v.v = val
-- 
2.43.0


From 4a06fafe168088c5a42ec1c7dfecb8ad36a1346c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:25 +0000
Subject: [PATCH 08/36] fix: GuavaMap.LockForUpdate counts towards WithMaxCount

An entry it created was never queued for eviction, so the map outgrew its
limit. HasOrCreate queued keys even without a limit, which only leaked memory.
---
 collections/guava_map.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/collections/guava_map.go b/collections/guava_map.go
index d0a53c8..20631eb 100644
--- a/collections/guava_map.go
+++ b/collections/guava_map.go
@@ -132,8 +132,8 @@ func (m *GuavaMap[K, V]) HasOrCreate(key K, value V) bool {
 			if len(m.storedSlice) >= m.maxCount {
 				m.safeDelete(m.storedSlice[0])
 			}
+			m.storedSlice = append(m.storedSlice, key)
 		}
-		m.storedSlice = append(m.storedSlice, key)
 	} else {
 		if m.stored[key].timer != nil && m.readTimeout > 0 {
 			m.stored[key].touch(m.readTimeout)
@@ -207,9 +207,16 @@ func (m *GuavaMap[K, V]) LockForUpdate(key K, update func() V) V {
 	res := update()
 	m.mu.Lock()
 	defer m.mu.Unlock()
-	if old, ok := m.stored[key]; ok && old.cancelFn != nil {
+	old, exists := m.stored[key]
+	if exists && old.cancelFn != nil {
 		old.cancelFn()
 	}
+	if !exists && m.maxCount > 0 {
+		if len(m.storedSlice) >= m.maxCount {
+			m.safeDelete(m.storedSlice[0])
+		}
+		m.storedSlice = append(m.storedSlice, key)
+	}
 	m.stored[key] = m.createHolder(key, res)
 	return res
 }
-- 
2.43.0


From f894c6805958ee63b07dd42e46c77e91d86ed7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:47 +0000
Subject: [PATCH 09/36] fix: GuavaMap.LockForUpdate keeps updates of one key
 apart

Deleting, evicting or clearing an entry threw its update lock away while it was
held or awaited, so two updates of the key could run at once; the lock map was
also created and read without its lock (a data race). The lock is now dropped
when its last user leaves.
---
 collections/guava_map.go | 85 ++++++++++++++++------------------------
 1 file changed, 33 insertions(+), 52 deletions(-)

diff --git a/collections/guava_map.go b/collections/guava_map.go
index 20631eb..7ade22a 100644
--- a/collections/guava_map.go
+++ b/collections/guava_map.go
@@ -47,8 +47,8 @@ func (h *guavaHolder[V]) expired() bool {
 type GuavaMap[K comparable, V any] struct {
 	stored             map[K]*guavaHolder[V]
 	storedSlice        []K
-	updateLockMap      map[K]*sync.Mutex
-	updateLockMapMu    sync.RWMutex
+	updateLockMap      map[K]*guavaKeyLock
+	updateLockMapMu    sync.Mutex
 	mu                 sync.RWMutex
 	maxCount           int
 	loadFunc           GuavaLoadFunc[K, V]
@@ -60,17 +60,35 @@ type GuavaMap[K comparable, V any] struct {
 	ctx                context.Context
 }
 
-func (m *GuavaMap[K, V]) getKeyLock(key K) *sync.Mutex {
+// guavaKeyLock lives as long as somebody holds it or waits for it
+type guavaKeyLock struct {
+	sync.Mutex
+	refs int
+}
+
+func (m *GuavaMap[K, V]) lockKey(key K) *guavaKeyLock {
 	m.updateLockMapMu.Lock()
-	defer m.updateLockMapMu.Unlock()
 	lock, ok := m.updateLockMap[key]
 	if !ok {
-		lock = &sync.Mutex{}
+		lock = &guavaKeyLock{}
 		m.updateLockMap[key] = lock
 	}
+	lock.refs++
+	m.updateLockMapMu.Unlock()
+	lock.Lock()
 	return lock
 }
 
+func (m *GuavaMap[K, V]) unlockKey(key K, lock *guavaKeyLock) {
+	lock.Unlock()
+	m.updateLockMapMu.Lock()
+	defer m.updateLockMapMu.Unlock()
+	lock.refs--
+	if lock.refs == 0 {
+		delete(m.updateLockMap, key)
+	}
+}
+
 func (m *GuavaMap[K, V]) createHolder(key K, value V) *guavaHolder[V] {
 	res := &guavaHolder[V]{
 		v: value,
@@ -158,9 +176,6 @@ func (m *GuavaMap[K, V]) safeDelete(key K) {
 	}
 
 	delete(m.stored, key)
-	//m.updateLockMapMu.Lock()
-	//delete(m.updateLockMap, key)
-	//m.updateLockMapMu.Unlock()
 	if m.maxCount > 0 {
 		for i, k := range m.storedSlice {
 			if k == key {
@@ -169,41 +184,11 @@ func (m *GuavaMap[K, V]) safeDelete(key K) {
 			}
 		}
 	}
-
-	if m.updateLockMap != nil {
-		m.updateLockMapMu.RLock()
-		_, ok := m.updateLockMap[key]
-		m.updateLockMapMu.RUnlock()
-		if ok {
-			m.updateLockMapMu.Lock()
-			delete(m.updateLockMap, key)
-			m.updateLockMapMu.Unlock()
-		}
-	}
 }
 
 func (m *GuavaMap[K, V]) LockForUpdate(key K, update func() V) V {
-	if m.updateLockMap == nil {
-		m.updateLockMapMu.Lock()
-		if m.updateLockMap == nil {
-			m.updateLockMap = make(map[K]*sync.Mutex)
-		}
-		m.updateLockMapMu.Unlock()
-	}
-	m.updateLockMapMu.RLock()
-	lock, ok := m.updateLockMap[key]
-	m.updateLockMapMu.RUnlock()
-	if !ok {
-		m.updateLockMapMu.Lock()
-		lock, ok = m.updateLockMap[key]
-		if !ok {
-			lock = &sync.Mutex{}
-			m.updateLockMap[key] = lock
-		}
-		m.updateLockMapMu.Unlock()
-	}
-	lock.Lock()
-	defer lock.Unlock()
+	lock := m.lockKey(key)
+	defer m.unlockKey(key, lock)
 	res := update()
 	m.mu.Lock()
 	defer m.mu.Unlock()
@@ -244,11 +229,6 @@ func (m *GuavaMap[K, V]) Clear() {
 	if m.maxCount > 0 {
 		m.storedSlice = make([]K, 0, m.maxCount)
 	}
-	if m.updateLockMap != nil {
-		m.updateLockMapMu.Lock()
-		defer m.updateLockMapMu.Unlock()
-		m.updateLockMap = make(map[K]*sync.Mutex)
-	}
 }
 
 func (m *GuavaMap[K, V]) Size() int {
@@ -405,13 +385,14 @@ func (b *GuavaMapBuilder[K, V]) WithReadTimeout(readTimeout time.Duration) *Guav
 
 func (b *GuavaMapBuilder[K, V]) Build() *GuavaMap[K, V] {
 	res := &GuavaMap[K, V]{
-		stored:       make(map[K]*guavaHolder[V]),
-		loadFunc:     b.loadFunc,
-		maxCount:     b.maxCount,
-		unloadFunc:   b.unloadFunc,
-		writeTimeout: b.writeTimeout,
-		readTimeout:  b.readTimeout,
-		ctx:          b.ctx,
+		stored:        make(map[K]*guavaHolder[V]),
+		updateLockMap: make(map[K]*guavaKeyLock),
+		loadFunc:      b.loadFunc,
+		maxCount:      b.maxCount,
+		unloadFunc:    b.unloadFunc,
+		writeTimeout:  b.writeTimeout,
+		readTimeout:   b.readTimeout,
+		ctx:           b.ctx,
 	}
 	if b.lockLoad {
 		res.lockLoad = NewMapMutex[K]()
-- 
2.43.0


From 8cfdafe58ba53c100aeac855c4089552b6c9965a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:11 +0000
Subject: [PATCH 10/36] fix: WaitMap request timeout only ends the waits it was
 started for

Once answered, a wait left its timeout running: with a response TTL shorter than
the request timeout it later stored a phantom zero value, or cut short the waits
that had started since.
---
 collections/wait_map.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/collections/wait_map.go b/collections/wait_map.go
index aaaf10f..5d05a65 100644
--- a/collections/wait_map.go
+++ b/collections/wait_map.go
@@ -64,8 +64,13 @@ func (wm *WaitMap[K, V]) Wait(key K) V {
 				}
 				wm.mu.Unlock()
 			case <-time.After(wm.requestTimeout): // TIMEOUT
-				var v V
-				wm.Set(key, v)
+				wm.mu.Lock()
+				// Only the waiters this timeout was started for, they may be long gone
+				if chans, exists := wm.waiterChannels[key]; exists && chans[0] == ch {
+					var v V
+					wm.set(key, v)
+				}
+				wm.mu.Unlock()
 			}
 		}()
 	}
@@ -79,7 +84,11 @@ func (wm *WaitMap[K, V]) Wait(key K) V {
 func (wm *WaitMap[K, V]) Set(key K, value V) {
 	wm.mu.Lock()
 	defer wm.mu.Unlock()
+	wm.set(key, value)
+}
 
+// set is Set under the lock
+func (wm *WaitMap[K, V]) set(key K, value V) {
 	if _, ok := wm.dataHolder[key]; ok {
 		return
 	}
-- 
2.43.0


From d3ad2590f9959c8c482090c5036ed6b45e74324e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:36 +0000
Subject: [PATCH 11/36] fix: RequestMap forgets an expired entry once

When every cached entry had expired, their expiry records were kept, and the
next cleanups deleted entries created since under the same keys long before
their TTL.
---
 collections/request_map.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/collections/request_map.go b/collections/request_map.go
index e882ea6..9e9768a 100644
--- a/collections/request_map.go
+++ b/collections/request_map.go
@@ -71,6 +71,7 @@ func (rm *RequestMap[K, V]) rmWorker() {
 			}
 			delete(rm.response, r.key)
 		}
+		rm.resultSlice = nil
 	}
 
 	for {
-- 
2.43.0


From e3fd9fedad27209e3fa00191c376f4d87c37210a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:36 +0000
Subject: [PATCH 12/36] fix: RequestMap initial entries expire after the TTL
 like any other

They carry a result time but were never queued for cleanup, so they were served
forever.
---
 collections/request_map.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/collections/request_map.go b/collections/request_map.go
index 9e9768a..1ddca3f 100644
--- a/collections/request_map.go
+++ b/collections/request_map.go
@@ -42,6 +42,7 @@ func NewRequestMap[K comparable, V any](ctx context.Context, ttl time.Duration,
 	if len(init) > 0 {
 		for _, i := range init {
 			res.response[i.Key] = resultHolder[K, V]{key: i.Key, result: i.Result, err: i.Err, resultTime: time.Now()}
+			res.resultSlice = append(res.resultSlice, res.response[i.Key])
 		}
 	}
 	go res.rmWorker()
-- 
2.43.0


From 9d5a91a35dbffb7b21b968468462ef387c598e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:36 +0000
Subject: [PATCH 13/36] fix: StructUniqSet cleanup of an empty set no longer
 panics

A set that stayed empty for one check interval crashed the process.
---
 collections/struct_uniq_set.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/collections/struct_uniq_set.go b/collections/struct_uniq_set.go
index 2ce3ff9..4041047 100644
--- a/collections/struct_uniq_set.go
+++ b/collections/struct_uniq_set.go
@@ -77,6 +77,10 @@ func (b *StructUniqSetBuilder[V]) Build() *StructUniqSet[V] {
 				return
 			case <-time.After(res.checkInterval):
 				res.elementsMu.RLock()
+				if len(res.ttlElements) == 0 {
+					res.elementsMu.RUnlock()
+					continue
+				}
 				first := res.ttlElements[0]
 				res.elementsMu.RUnlock()
 				if time.Since(first.createdAt) < res.ttl {
-- 
2.43.0


From 9307b1844bc629965b8e6dd9b6aefd3cb1ce1422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:36 +0000
Subject: [PATCH 14/36] fix: StructUniqSet expires an element by its own TTL
 only

Expired records stayed queued when the whole queue had expired, and records of
removed elements were never dropped: an element added again under the same hash
was deleted at the next check.
---
 collections/struct_uniq_set.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/collections/struct_uniq_set.go b/collections/struct_uniq_set.go
index 4041047..24516b2 100644
--- a/collections/struct_uniq_set.go
+++ b/collections/struct_uniq_set.go
@@ -87,13 +87,18 @@ func (b *StructUniqSetBuilder[V]) Build() *StructUniqSet[V] {
 					continue
 				}
 				res.elementsMu.Lock()
-				for i, el := range res.ttlElements {
+				expired := 0
+				for _, el := range res.ttlElements {
 					if time.Since(el.createdAt) < res.ttl {
-						res.ttlElements = res.ttlElements[i:]
 						break
 					}
-					delete(res.elements, el.hash)
+					// It may have been removed, and added again, since
+					if res.elements[el.hash] == el {
+						delete(res.elements, el.hash)
+					}
+					expired++
 				}
+				res.ttlElements = res.ttlElements[expired:]
 				res.elementsMu.Unlock()
 			}
 		}
-- 
2.43.0


From 194d5b36071d04bef43ed5ae4911dba7b29b89ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:36 +0000
Subject: [PATCH 15/36] fix: StructUniqSet uses the function given to
 WithBuildFunc

It was stored and never called.
---
 collections/struct_uniq_set.go | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/collections/struct_uniq_set.go b/collections/struct_uniq_set.go
index 24516b2..c577654 100644
--- a/collections/struct_uniq_set.go
+++ b/collections/struct_uniq_set.go
@@ -106,17 +106,6 @@ func (b *StructUniqSetBuilder[V]) Build() *StructUniqSet[V] {
 	return res
 }
 
-func (s *StructUniqSet[V]) getHashCode(v V) ([16]byte, error) {
-	var buffer bytes.Buffer
-	enc := gob.NewEncoder(&buffer)
-	err := enc.Encode(v)
-	if err != nil {
-		return [16]byte{}, err
-	}
-	md5.Sum(buffer.Bytes())
-	return md5.Sum(buffer.Bytes()), nil
-}
-
 func (s *StructUniqSet[V]) Count() int {
 	s.elementsMu.RLock()
 	defer s.elementsMu.RUnlock()
@@ -124,7 +113,7 @@ func (s *StructUniqSet[V]) Count() int {
 }
 
 func (s *StructUniqSet[V]) Has(v V) (bool, error) {
-	hash, err := s.getHashCode(v)
+	hash, err := s.build(v)
 	if err != nil {
 		return false, err
 	}
@@ -135,7 +124,7 @@ func (s *StructUniqSet[V]) Has(v V) (bool, error) {
 }
 
 func (s *StructUniqSet[V]) Add(v V) (bool, error) {
-	hash, err := s.getHashCode(v)
+	hash, err := s.build(v)
 	if err != nil {
 		return false, err
 	}
@@ -156,7 +145,7 @@ func (s *StructUniqSet[V]) Add(v V) (bool, error) {
 }
 
 func (s *StructUniqSet[V]) Remove(v V) (bool, error) {
-	hash, err := s.getHashCode(v)
+	hash, err := s.build(v)
 	if err != nil {
 		return false, err
 	}
-- 
2.43.0


From fe6e154411b4446ddfacb21ae1c542552b79201b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:56 +0000
Subject: [PATCH 16/36] fix: ResponseMap cleanup reads the map's size under the
 lock (data race)

---
 collections/response_map.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/collections/response_map.go b/collections/response_map.go
index ccf1803..b5dfed3 100644
--- a/collections/response_map.go
+++ b/collections/response_map.go
@@ -176,6 +176,12 @@ func (r *ResponseMap[K, V]) getHolder(key K) *chansHolder[K, V] {
 	return holder
 }
 
+func (r *ResponseMap[K, V]) count() int {
+	r.mu.RLock()
+	defer r.mu.RUnlock()
+	return len(r.m)
+}
+
 func (r *ResponseMap[K, V]) clear(ctx context.Context) {
 	t := time.NewTicker(r.clearTimeout)
 	defer t.Stop()
@@ -184,7 +190,7 @@ func (r *ResponseMap[K, V]) clear(ctx context.Context) {
 		case <-ctx.Done():
 			return
 		case <-t.C:
-			r.logger.Debug().Int("holders count", len(r.m)).Msg("start cleaning response map")
+			r.logger.Debug().Int("holders count", r.count()).Msg("start cleaning response map")
 			var remove []*chansHolder[K, V]
 			r.mu.RLock()
 			for _, holder := range r.m {
@@ -200,7 +206,7 @@ func (r *ResponseMap[K, V]) clear(ctx context.Context) {
 				delete(r.m, holder.trx)
 			}
 			r.mu.Unlock()
-			r.logger.Debug().Int("holders count", len(r.m)).Msg("successfully cleaned expired holders")
+			r.logger.Debug().Int("holders count", r.count()).Msg("successfully cleaned expired holders")
 		}
 	}
 }
-- 
2.43.0


From e31e3adc54a6af1237b0dc31a293ee3bdd981b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:17 +0000
Subject: [PATCH 17/36] fix: ResponseMap answers every wait with the first
 value set

Values travelled through a channel that the cleanup closed (a late Set
panicked), a second concurrent Set replaced the first value, and the listener
list was walked without its lock: waits registered meanwhile, or on a holder
already cleared, never returned. Set now stores the value itself, once, under
the holder's lock.
---
 collections/response_map.go | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/collections/response_map.go b/collections/response_map.go
index b5dfed3..3a15bdd 100644
--- a/collections/response_map.go
+++ b/collections/response_map.go
@@ -73,8 +73,8 @@ type chansHolder[K comparable, V any] struct {
 	createdAt time.Time
 	mu        sync.RWMutex
 	isExist   bool
+	cleared   bool
 	data      V
-	dataCh    chan V
 	listeners []chan V
 }
 
@@ -86,33 +86,27 @@ func newChansHolder[K comparable, V any](trx K, timeout time.Duration) *chansHol
 		trx:       trx,
 		t:         time.NewTimer(timeout),
 		createdAt: time.Now(),
-		dataCh:    make(chan V, 1),
 	}
 	go func() {
 		defer h.t.Stop()
 		for {
 			select {
 			case <-h.ctx.Done():
-				close(h.dataCh)
+				h.mu.Lock()
+				h.cleared = true
 				for _, ch := range h.listeners {
 					close(ch)
 				}
+				h.listeners = nil
+				h.mu.Unlock()
 				return
 			case <-h.t.C:
+				h.mu.Lock()
 				for _, ch := range h.listeners {
 					close(ch)
 				}
-				h.mu.Lock()
 				h.listeners = nil
 				h.mu.Unlock()
-			case d := <-h.dataCh:
-				h.mu.Lock()
-				h.data = d
-				h.isExist = true
-				for _, ch := range h.listeners {
-					ch <- d
-				}
-				h.mu.Unlock()
 			}
 		}
 	}()
@@ -120,13 +114,17 @@ func newChansHolder[K comparable, V any](trx K, timeout time.Duration) *chansHol
 }
 
 func (h *chansHolder[K, V]) set(data V) {
-	h.mu.RLock()
-	exist := h.isExist
-	h.mu.RUnlock()
-	if exist {
+	h.mu.Lock()
+	defer h.mu.Unlock()
+	if h.isExist {
 		return
 	}
-	h.dataCh <- data
+	h.data = data
+	h.isExist = true
+	for _, ch := range h.listeners {
+		ch <- data
+	}
+	h.listeners = nil
 }
 
 func (h *chansHolder[K, V]) wait() V {
@@ -137,7 +135,7 @@ func (h *chansHolder[K, V]) wait() V {
 		return h.data
 	}
 	h.mu.Lock()
-	e = h.isExist
+	e = h.isExist || h.cleared
 	if e {
 		h.mu.Unlock()
 		return h.data
-- 
2.43.0


From 3f2f41595a4fcbdc7d8bc0c08423863f4dee752d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:17 +0000
Subject: [PATCH 18/36] fix: ResponseMap applies the response timeout to every
 wait

The timer of a key fired once: a wait on the same key begun later was only ended
by the cleanup, if at all.
---
 collections/response_map.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/collections/response_map.go b/collections/response_map.go
index 3a15bdd..c2705e2 100644
--- a/collections/response_map.go
+++ b/collections/response_map.go
@@ -74,6 +74,8 @@ type chansHolder[K comparable, V any] struct {
 	mu        sync.RWMutex
 	isExist   bool
 	cleared   bool
+	timeout   time.Duration
+	timedOut  bool
 	data      V
 	listeners []chan V
 }
@@ -84,6 +86,7 @@ func newChansHolder[K comparable, V any](trx K, timeout time.Duration) *chansHol
 		ctx:       ctx,
 		cancelCtx: cancel,
 		trx:       trx,
+		timeout:   timeout,
 		t:         time.NewTimer(timeout),
 		createdAt: time.Now(),
 	}
@@ -106,6 +109,7 @@ func newChansHolder[K comparable, V any](trx K, timeout time.Duration) *chansHol
 					close(ch)
 				}
 				h.listeners = nil
+				h.timedOut = true
 				h.mu.Unlock()
 			}
 		}
@@ -142,6 +146,10 @@ func (h *chansHolder[K, V]) wait() V {
 	}
 	ch := make(chan V, 1)
 	h.listeners = append(h.listeners, ch)
+	if h.timedOut {
+		h.timedOut = false
+		h.t.Reset(h.timeout)
+	}
 	h.mu.Unlock()
 	return <-ch
 }
-- 
2.43.0


From e9a27277c96c6edf23eba801c9087743baf0be02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:48 +0000
Subject: [PATCH 19/36] fix: ResponseMap ends its waits and goroutines with its
 context

Cancelling the context stopped the cleanup only: every key kept a goroutine
forever, and a wait the cleanup would have ended was left to its timer.
---
 collections/response_map.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/collections/response_map.go b/collections/response_map.go
index c2705e2..3afa91c 100644
--- a/collections/response_map.go
+++ b/collections/response_map.go
@@ -47,6 +47,7 @@ func (b *ResponseMapBuilder[K, V]) WithClearTimeout(timeout time.Duration) *Resp
 
 func (b *ResponseMapBuilder[K, V]) Build() *ResponseMap[K, V] {
 	rm := &ResponseMap[K, V]{
+		ctx:             b.ctx,
 		logger:          b.logger,
 		responseTimeout: b.responseTimeout,
 		clearTimeout:    b.clearTimeout,
@@ -58,6 +59,7 @@ func (b *ResponseMapBuilder[K, V]) Build() *ResponseMap[K, V] {
 }
 
 type ResponseMap[K comparable, V any] struct {
+	ctx             context.Context
 	logger          zerolog.Logger
 	responseTimeout time.Duration
 	clearTimeout    time.Duration
@@ -80,8 +82,8 @@ type chansHolder[K comparable, V any] struct {
 	listeners []chan V
 }
 
-func newChansHolder[K comparable, V any](trx K, timeout time.Duration) *chansHolder[K, V] {
-	ctx, cancel := context.WithCancel(context.Background())
+func newChansHolder[K comparable, V any](parent context.Context, trx K, timeout time.Duration) *chansHolder[K, V] {
+	ctx, cancel := context.WithCancel(parent)
 	h := &chansHolder[K, V]{
 		ctx:       ctx,
 		cancelCtx: cancel,
@@ -177,7 +179,7 @@ func (r *ResponseMap[K, V]) getHolder(key K) *chansHolder[K, V] {
 	if ok {
 		return holder
 	}
-	holder = newChansHolder[K, V](key, r.responseTimeout)
+	holder = newChansHolder[K, V](r.ctx, key, r.responseTimeout)
 	r.m[key] = holder
 	return holder
 }
-- 
2.43.0


From 741ee5fa79b5065e70950a28a2f2f9f38dfcfbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:48 +0000
Subject: [PATCH 20/36] fix: HolderMap reads and joins a holder under its lock

Wait checked for release without the lock: a waiter that joined while the
holder was being released was never woken; Get raced with Update.
---
 collections/holder_map.go | 35 +++++++++++++++++------------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/collections/holder_map.go b/collections/holder_map.go
index e0b1935..4952397 100644
--- a/collections/holder_map.go
+++ b/collections/holder_map.go
@@ -24,11 +24,26 @@ type HolderMap[K comparable, V any] struct {
 	destroyElementDuration time.Duration
 }
 
+// wait blocks until the holder is released
+func (h *holderMapHolder[V]) wait() error {
+	h.mu.Lock()
+	if h.released {
+		defer h.mu.Unlock()
+		return h.Err
+	}
+	waitChan := make(chan error, 1)
+	h.releaseChanList = append(h.releaseChanList, waitChan)
+	h.mu.Unlock()
+	return <-waitChan
+}
+
 func (c *HolderMap[K, V]) Get(trx K) (V, error) {
 	c.mu.RLock()
 	h, ok := c.m[trx]
 	c.mu.RUnlock()
 	if ok {
+		h.mu.Lock()
+		defer h.mu.Unlock()
 		return h.Object, h.Err
 	}
 	var defaultV V
@@ -46,29 +61,13 @@ func (c *HolderMap[K, V]) Wait(trx K, target V) error {
 	h, ok := c.m[trx]
 	c.mu.RUnlock()
 	if ok { // Has holder
-		if h.released {
-			return h.Err
-		} else {
-			waitChan := make(chan error, 1)
-			h.mu.Lock()
-			h.releaseChanList = append(h.releaseChanList, waitChan)
-			h.mu.Unlock()
-			return <-waitChan
-		}
+		return h.wait()
 	} else {
 		c.mu.Lock()
 		h, ok = c.m[trx]
 		if ok {
 			c.mu.Unlock()
-			if h.released {
-				return h.Err
-			} else {
-				waitChan := make(chan error, 1)
-				h.mu.Lock()
-				h.releaseChanList = append(h.releaseChanList, waitChan)
-				h.mu.Unlock()
-				return <-waitChan
-			}
+			return h.wait()
 		} else {
 			waitChan := make(chan error, 1)
 			h = &holderMapHolder[V]{
-- 
2.43.0


From 7312875819210d045427ad92c53c8ae1eb36d879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:48 +0000
Subject: [PATCH 21/36] fix: HolderMap ends the waits when its context is
 cancelled

The waiters were left blocked forever.
---
 collections/holder_map.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/collections/holder_map.go b/collections/holder_map.go
index 4952397..9de05aa 100644
--- a/collections/holder_map.go
+++ b/collections/holder_map.go
@@ -84,7 +84,9 @@ func (c *HolderMap[K, V]) Wait(trx K, target V) error {
 					h.released = true
 					h.Err = errors.New("timeout")
 				case <-c.ctx.Done():
-					return
+					h.mu.Lock()
+					h.released = true
+					h.Err = c.ctx.Err()
 				case errInChan := <-h.inChan:
 					h.mu.Lock()
 					h.released = true
-- 
2.43.0


From 57177979abd0799c98df62c980627afb7d9e7a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:48 +0000
Subject: [PATCH 22/36] fix: HolderMap.Release and Error of a released holder
 no longer block

Nobody reads the holder's channel once it is released: the second call after
that hung forever.
---
 collections/holder_map.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/collections/holder_map.go b/collections/holder_map.go
index 9de05aa..032fde0 100644
--- a/collections/holder_map.go
+++ b/collections/holder_map.go
@@ -37,6 +37,14 @@ func (h *holderMapHolder[V]) wait() error {
 	return <-waitChan
 }
 
+// release hands over the outcome, only the first one counts
+func (h *holderMapHolder[V]) release(err error) {
+	select {
+	case h.inChan <- err:
+	default:
+	}
+}
+
 func (c *HolderMap[K, V]) Get(trx K) (V, error) {
 	c.mu.RLock()
 	h, ok := c.m[trx]
@@ -129,7 +137,7 @@ func (c *HolderMap[K, V]) Release(trx K) error {
 	h, ok := c.m[trx]
 	c.mu.RUnlock()
 	if ok {
-		h.inChan <- nil
+		h.release(nil)
 		return nil
 	} else {
 		return errors.New("not found")
@@ -141,7 +149,7 @@ func (c *HolderMap[K, V]) Error(trx K, err error) error {
 	h, ok := c.m[trx]
 	c.mu.RUnlock()
 	if ok {
-		h.inChan <- err
+		h.release(err)
 		return nil
 	} else {
 		return errors.New("not found")
-- 
2.43.0


From c90390ceb60939e984285ef5cbd3caf7fa651a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:05 +0000
Subject: [PATCH 23/36] fix: ShardChan accepts negative shard function results

The remainder was negative too and selected no channel: the sharder blocked
forever on a nil channel.
---
 chans/shard_chan.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/chans/shard_chan.go b/chans/shard_chan.go
index a967941..2145ccd 100644
--- a/chans/shard_chan.go
+++ b/chans/shard_chan.go
@@ -132,6 +132,9 @@ func (b *ShardChanBuilder[T]) Build() (*ShardChan[T], error) {
 				return
 			case msg := <-res.incomingChan:
 				key := res.shardFunc(msg) % res.shardCount
+				if key < 0 {
+					key += res.shardCount
+				}
 				res.outgoingChans[key] <- msg
 			}
 		}
-- 
2.43.0


From a6757a8259811cd320d31e29ba278c562accc3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:05 +0000
Subject: [PATCH 24/36] fix: cancelling the context ends chunkers and sharders
 that are blocked

A chunker or sharder blocked on a full outgoing channel, and a caller of
ChunkChan.Add, ignored the context and stayed blocked forever.
---
 chans/chunk_chan.go | 17 ++++++++++++++---
 chans/shard_chan.go |  6 +++++-
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/chans/chunk_chan.go b/chans/chunk_chan.go
index 689a321..ff6d71c 100644
--- a/chans/chunk_chan.go
+++ b/chans/chunk_chan.go
@@ -16,7 +16,10 @@ type ChunkChan[T any] struct {
 }
 
 func (c *ChunkChan[T]) Add(item T) {
-	c.incomingChan <- item
+	select {
+	case <-c.ctx.Done():
+	case c.incomingChan <- item:
+	}
 }
 
 func (c *ChunkChan[T]) Incoming() chan T {
@@ -41,13 +44,21 @@ func (c *ChunkChan[T]) run() {
 			return
 		case <-t.C:
 			if len(chunk) > 0 {
-				c.outgoingChan <- chunk
+				select {
+				case <-c.ctx.Done():
+					return
+				case c.outgoingChan <- chunk:
+				}
 				chunk = make([]T, 0, c.chunkSize)
 			}
 		case item := <-c.incomingChan:
 			chunk = append(chunk, item)
 			if len(chunk) >= c.chunkSize {
-				c.outgoingChan <- chunk
+				select {
+				case <-c.ctx.Done():
+					return
+				case c.outgoingChan <- chunk:
+				}
 				chunk = make([]T, 0, c.chunkSize)
 			}
 		}
diff --git a/chans/shard_chan.go b/chans/shard_chan.go
index 2145ccd..967afe2 100644
--- a/chans/shard_chan.go
+++ b/chans/shard_chan.go
@@ -135,7 +135,11 @@ func (b *ShardChanBuilder[T]) Build() (*ShardChan[T], error) {
 				if key < 0 {
 					key += res.shardCount
 				}
-				res.outgoingChans[key] <- msg
+				select {
+				case <-res.ctx.Done():
+					return
+				case res.outgoingChans[key] <- msg:
+				}
 			}
 		}
 	}()
-- 
2.43.0


From 8a4e565d0665d1b7bec400710d1b38d894c1a611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:05 +0000
Subject: [PATCH 25/36] fix: Runner.Run and RunWithContext return once the
 context is cancelled

The workers stop on cancellation, so with a full queue callers hung forever.
---
 workers/runner.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/workers/runner.go b/workers/runner.go
index 4b20cc0..5ab7731 100644
--- a/workers/runner.go
+++ b/workers/runner.go
@@ -20,11 +20,17 @@ type Runner struct {
 }
 
 func (r *Runner) Run(fn RunnerFn) {
-	r.runners <- fn
+	select {
+	case <-r.ctx.Done():
+	case r.runners <- fn:
+	}
 }
 
 func (r *Runner) RunWithContext(fn RunnerContextFn) {
-	r.runnersCtx <- fn
+	select {
+	case <-r.ctx.Done():
+	case r.runnersCtx <- fn:
+	}
 }
 
 type RunnerBuilder struct {
-- 
2.43.0


From bc3475634a9cba29192ae5f989968dd7bbc17390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:28 +0000
Subject: [PATCH 26/36] fix: closing the incoming channel no longer yields
 endless zero items

ChunkChan and ShardChan took every receive from a closed channel for an item.
---
 chans/chunk_chan.go | 11 ++++++++++-
 chans/shard_chan.go |  5 ++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/chans/chunk_chan.go b/chans/chunk_chan.go
index ff6d71c..7d04c5c 100644
--- a/chans/chunk_chan.go
+++ b/chans/chunk_chan.go
@@ -51,7 +51,16 @@ func (c *ChunkChan[T]) run() {
 				}
 				chunk = make([]T, 0, c.chunkSize)
 			}
-		case item := <-c.incomingChan:
+		case item, ok := <-c.incomingChan:
+			if !ok {
+				if len(chunk) > 0 {
+					select {
+					case <-c.ctx.Done():
+					case c.outgoingChan <- chunk:
+					}
+				}
+				return
+			}
 			chunk = append(chunk, item)
 			if len(chunk) >= c.chunkSize {
 				select {
diff --git a/chans/shard_chan.go b/chans/shard_chan.go
index 967afe2..5007e39 100644
--- a/chans/shard_chan.go
+++ b/chans/shard_chan.go
@@ -130,7 +130,10 @@ func (b *ShardChanBuilder[T]) Build() (*ShardChan[T], error) {
 			select {
 			case <-res.ctx.Done():
 				return
-			case msg := <-res.incomingChan:
+			case msg, ok := <-res.incomingChan:
+				if !ok {
+					return
+				}
 				key := res.shardFunc(msg) % res.shardCount
 				if key < 0 {
 					key += res.shardCount
-- 
2.43.0


From 1f7572b3159f0786ab0b06843ac4a82907288a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:28 +0000
Subject: [PATCH 27/36] fix: CryptoFSBuilder.AddFolder of a missing folder no
 longer panics

---
 crypto_fs/crypto_fs.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crypto_fs/crypto_fs.go b/crypto_fs/crypto_fs.go
index 570e972..3214ab9 100644
--- a/crypto_fs/crypto_fs.go
+++ b/crypto_fs/crypto_fs.go
@@ -49,6 +49,9 @@ func (b *CryptoFSBuilder) AddFile(path string) *CryptoFSBuilder {
 func (b *CryptoFSBuilder) AddFolder(folderPath string) *CryptoFSBuilder {
 	folderPath = path.Join(b.rootDir, folderPath)
 	err := filepath.Walk(folderPath, func(root string, info fs.FileInfo, err error) error {
+		if err != nil {
+			return err
+		}
 		if info.IsDir() {
 			entries, err := os.ReadDir(root)
 			if err != nil {
-- 
2.43.0


From a0320aa582bcd0978ddd1f94db856a72ef87622c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:28 +0000
Subject: [PATCH 28/36] fix: reading a file of CryptoFS comes to an end

Every Read started over at the beginning and never returned io.EOF, so
io.ReadAll, fs.ReadFile and io.Copy never ended.
---
 crypto_fs/crypto_fs.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/crypto_fs/crypto_fs.go b/crypto_fs/crypto_fs.go
index 3214ab9..e535ec3 100644
--- a/crypto_fs/crypto_fs.go
+++ b/crypto_fs/crypto_fs.go
@@ -173,7 +173,7 @@ func (c *cryptoFS) Open(path string) (fs.File, error) {
 	if !ok {
 		return nil, fs.ErrNotExist
 	}
-	return f, nil
+	return &openFile{file: f, content: bytes.NewReader(f.Data)}, nil
 }
 
 func (c *cryptoFS) ReadDir(name string) ([]fs.DirEntry, error) {
@@ -235,9 +235,14 @@ func (f file) Stat() (fs.FileInfo, error) {
 	return f, nil
 }
 
-func (f file) Read(i []byte) (int, error) {
-	buf := bytes.NewBuffer(f.Data)
-	return buf.Read(i)
+// openFile is one opening of a file, with its own read position
+type openFile struct {
+	file
+	content *bytes.Reader
+}
+
+func (f *openFile) Read(i []byte) (int, error) {
+	return f.content.Read(i)
 }
 
-func (f file) Close() error { return nil }
+func (f *openFile) Close() error { return nil }
-- 
2.43.0


From a137d8457c6b1df596e5a7c0a84a7d881704e37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:28 +0000
Subject: [PATCH 29/36] fix: CryptoFS file modes tell directories from files

Mode was always 0 and DirEntry.Type returned permission bits, so code that asks
the mode, as fs.FS users do, took every directory for a regular file.
---
 crypto_fs/crypto_fs.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crypto_fs/crypto_fs.go b/crypto_fs/crypto_fs.go
index e535ec3..f04b51d 100644
--- a/crypto_fs/crypto_fs.go
+++ b/crypto_fs/crypto_fs.go
@@ -200,7 +200,7 @@ type file struct {
 }
 
 func (f file) Type() fs.FileMode {
-	return fs.FileMode(0755)
+	return f.Mode().Type()
 }
 
 func (f file) Info() (fs.FileInfo, error) {
@@ -216,7 +216,10 @@ func (f file) Size() int64 {
 }
 
 func (f file) Mode() fs.FileMode {
-	return fs.FileMode(0)
+	if f.IsDirFlag {
+		return fs.ModeDir | 0555
+	}
+	return fs.FileMode(0444)
 }
 
 func (f file) ModTime() time.Time {
-- 
2.43.0


From 1db08a9b95e654adf426dc91c57b6dbd1853d443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:19 +0000
Subject: [PATCH 30/36] fix: a file added with CryptoFSBuilder.AddFile is named
 by its base name

fs.FileInfo.Name returned the whole path it was added under.
---
 crypto_fs/crypto_fs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypto_fs/crypto_fs.go b/crypto_fs/crypto_fs.go
index f04b51d..b5e1bda 100644
--- a/crypto_fs/crypto_fs.go
+++ b/crypto_fs/crypto_fs.go
@@ -38,7 +38,7 @@ func (b *CryptoFSBuilder) AddFile(path string) *CryptoFSBuilder {
 		return b
 	}
 	f := file{
-		FileName: of.Name(),
+		FileName: filepath.Base(path),
 		Path:     path,
 		Data:     data,
 	}
-- 
2.43.0


From 246d326795aea8887230d5fdde581a26e492e9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:25 +0000
Subject: [PATCH 31/36] fix: CryptoFS directory entries report the size of
 their files

---
 crypto_fs/crypto_fs.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crypto_fs/crypto_fs.go b/crypto_fs/crypto_fs.go
index b5e1bda..f6ac13e 100644
--- a/crypto_fs/crypto_fs.go
+++ b/crypto_fs/crypto_fs.go
@@ -186,7 +186,12 @@ func (c *cryptoFS) ReadDir(name string) ([]fs.DirEntry, error) {
 	}
 	entries := make([]fs.DirEntry, len(f.Entries))
 	for i := 0; i < len(f.Entries); i++ {
-		entries[i] = f.Entries[i]
+		entry := f.Entries[i]
+		// The listing itself holds no data, so take the file it names
+		if stored, ok := c.files[entry.Path]; ok {
+			entry = stored
+		}
+		entries[i] = entry
 	}
 	return entries, nil
 }
-- 
2.43.0


From 8bb555fb2cfb7236dcd9f47968b0ea0aecf86a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:11 +0000
Subject: [PATCH 32/36] fix: ResponseMap reads the value of a cleared key under
 the lock (data race)

---
 collections/response_map.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/collections/response_map.go b/collections/response_map.go
index 3afa91c..b0bbf44 100644
--- a/collections/response_map.go
+++ b/collections/response_map.go
@@ -143,8 +143,9 @@ func (h *chansHolder[K, V]) wait() V {
 	h.mu.Lock()
 	e = h.isExist || h.cleared
 	if e {
+		data := h.data
 		h.mu.Unlock()
-		return h.data
+		return data
 	}
 	ch := make(chan V, 1)
 	h.listeners = append(h.listeners, ch)
-- 
2.43.0


From 35fdf59092e5ed771e7f3ef4d205d064bc06817c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:03 +0000
Subject: [PATCH 33/36] fix: a ChunkChan keeps to itself, whatever its builder
 is used for later

---
 chans/chunk_chan.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/chans/chunk_chan.go b/chans/chunk_chan.go
index 7d04c5c..78aa825 100644
--- a/chans/chunk_chan.go
+++ b/chans/chunk_chan.go
@@ -130,26 +130,27 @@ func (b *ChunkChanBuilder[T]) WithIncomingChan(incomingChan chan T) *ChunkChanBu
 }
 
 func (b *ChunkChanBuilder[T]) Build() *ChunkChan[T] {
-	if b.incomingChan == nil {
-		b.incomingChan = make(chan T, b.incomingBufferSize)
+	incomingChan, chunkFunc := b.incomingChan, b.chunkFunc
+	if incomingChan == nil {
+		incomingChan = make(chan T, b.incomingBufferSize)
 	}
 	res := &ChunkChan[T]{
 		ctx:          b.ctx,
 		chunkSize:    b.chunkSize,
 		chunkTimeout: b.chunkTimeout,
-		incomingChan: b.incomingChan,
+		incomingChan: incomingChan,
 		outgoingChan: make(chan []T, b.outgoingBufferSize),
 	}
 
 	go res.run()
-	if b.chunkFunc != nil {
+	if chunkFunc != nil {
 		go func() {
 			for {
 				select {
-				case <-b.ctx.Done():
+				case <-res.ctx.Done():
 					return
 				case chunk := <-res.outgoingChan:
-					b.chunkFunc(chunk)
+					chunkFunc(chunk)
 				}
 			}
 		}()
-- 
2.43.0


From 7dac4fafd141d01f447b0bbff66ffca043ca7f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:03 +0000
Subject: [PATCH 34/36] fix: a ShardChan keeps to itself, whatever its builder
 is used for later

---
 chans/shard_chan.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/chans/shard_chan.go b/chans/shard_chan.go
index 5007e39..c9b2e92 100644
--- a/chans/shard_chan.go
+++ b/chans/shard_chan.go
@@ -112,13 +112,14 @@ func (b *ShardChanBuilder[T]) Build() (*ShardChan[T], error) {
 	if b.shardFunc == nil {
 		return nil, ErrShardFuncIsNil
 	}
-	if b.incomingChan == nil {
-		b.incomingChan = make(chan T, b.incomingBufferSize)
+	incomingChan, workerFunc := b.incomingChan, b.workerFunc
+	if incomingChan == nil {
+		incomingChan = make(chan T, b.incomingBufferSize)
 	}
 	res := &ShardChan[T]{
 		ctx:           b.ctx,
 		shardFunc:     b.shardFunc,
-		incomingChan:  b.incomingChan,
+		incomingChan:  incomingChan,
 		shardCount:    b.shardCount,
 		outgoingChans: make(map[int]chan T, b.shardCount),
 	}
@@ -146,7 +147,7 @@ func (b *ShardChanBuilder[T]) Build() (*ShardChan[T], error) {
 			}
 		}
 	}()
-	if b.workerFunc != nil {
+	if workerFunc != nil {
 		for i := 0; i < b.shardCount; i++ {
 			go func(k int) {
 				for {
@@ -154,7 +155,7 @@ func (b *ShardChanBuilder[T]) Build() (*ShardChan[T], error) {
 					case <-res.ctx.Done():
 						return
 					case msg := <-res.outgoingChans[k]:
-						b.workerFunc(k, msg)
+						workerFunc(k, msg)
 					}
 				}
 			}(i)
-- 
2.43.0


From f935575447448a084610e386d2964f88cd5a83e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:03 +0000
Subject: [PATCH 35/36] fix: a ShardChunk keeps to itself, whatever its builder
 is used for later

---
 chans/shard_chunk_chan.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/chans/shard_chunk_chan.go b/chans/shard_chunk_chan.go
index 95f2f53..d47baf6 100644
--- a/chans/shard_chunk_chan.go
+++ b/chans/shard_chunk_chan.go
@@ -112,10 +112,11 @@ func (b *ShardChunkBuilder[T]) WithIncomingChan(incomingChan chan T) *ShardChunk
 }
 
 func (b *ShardChunkBuilder[T]) Build() (*ShardChunk[T], error) {
-	if b.incomingChan == nil {
-		b.incomingChan = make(chan T, b.incomingBufferSize)
+	ctx, incomingChan, shardWorker := b.ctx, b.incomingChan, b.shardWorker
+	if incomingChan == nil {
+		incomingChan = make(chan T, b.incomingBufferSize)
 	}
-	sharder, err := NewShardChan[T]().WithContext(b.ctx).WithOutgoingBufferSize(b.incomingBufferSize / b.shardCount).WithShardCount(b.shardCount).WithShardFunc(b.shardFunc).WithIncomingChan(b.incomingChan).Build()
+	sharder, err := NewShardChan[T]().WithContext(b.ctx).WithOutgoingBufferSize(b.incomingBufferSize / b.shardCount).WithShardCount(b.shardCount).WithShardFunc(b.shardFunc).WithIncomingChan(incomingChan).Build()
 	if err != nil {
 		return nil, err
 	}
@@ -125,7 +126,7 @@ func (b *ShardChunkBuilder[T]) Build() (*ShardChunk[T], error) {
 		go func(k int) {
 			for {
 				select {
-				case <-b.ctx.Done():
+				case <-ctx.Done():
 					return
 				case m := <-sharder.C(k):
 					chunkers[k].Add(m)
@@ -133,15 +134,15 @@ func (b *ShardChunkBuilder[T]) Build() (*ShardChunk[T], error) {
 			}
 		}(i)
 	}
-	if b.shardWorker != nil {
+	if shardWorker != nil {
 		for i := 0; i < b.shardCount; i++ {
 			go func(k int) {
 				for {
 					select {
-					case <-b.ctx.Done():
+					case <-ctx.Done():
 						return
 					case batch := <-chunkers[k].C():
-						b.shardWorker(k, batch)
+						shardWorker(k, batch)
 					}
 				}
 			}(i)
-- 
2.43.0


From 89183b70d19d30c295eac90ac0e7d8b4ee241697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:03 +0000
Subject: [PATCH 36/36] fix: a built Processor keeps its routes when its
 builder gets more

---
 flow/processor.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flow/processor.go b/flow/processor.go
index 88eb7fa..465cf48 100644
--- a/flow/processor.go
+++ b/flow/processor.go
@@ -66,8 +66,9 @@ func (fb *ProcessorBuilder[E, S]) RouteOn(cond func(event E) bool, do ...func(ev
 }
 
 func (fb *ProcessorBuilder[E, S]) Build() func(event E, state S) error {
+	routes := append([]ProcessorRouter[E, S](nil), fb.routes...)
 	return func(event E, state S) error {
-		for _, route := range fb.routes {
+		for _, route := range routes {
 			for _, fn := range route.chain {
 				if err := fn(event, state); err != nil {
 					return err
-- 
2.43.0

