From b8e45e640ec7dbc8ca3106869f4dba3ff9d208ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:45 +0000
Subject: [PATCH 01/18] fix: periodic cleanup forgets users without sessions

unsafeClear never deleted the id entry of a user whose last session was
cleaned up, so the ids map grew for ever.
---
 provider.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/provider.go b/provider.go
index 3c04702..2f1eb3f 100644
--- a/provider.go
+++ b/provider.go
@@ -191,7 +191,7 @@ func (p *MemoryProvider) unsafeClear() {
 				if str != t.access {
 					continue
 				}
-				if len(strs) == 0 {
+				if len(strs) == 1 {
 					delete(p.ids, t.id)
 				} else {
 					copy(strs[i:], strs[i+1:])
-- 
2.43.0


From 64069a66a7802264f14ab2af6845711c9dfbfcaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:45 +0000
Subject: [PATCH 02/18] fix: refresh to an access token already in use replaces
 that session

The old session stayed in the eviction list and in the user index without
a token entry: a later Destroy of the user dereferenced nil, and cleanup or
eviction of the stale element removed the refreshed session.
---
 provider.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/provider.go b/provider.go
index 2f1eb3f..440012e 100644
--- a/provider.go
+++ b/provider.go
@@ -619,6 +619,8 @@ func (p *MemoryProvider) Refresh(ctx context.Context, access, refresh, newAccess
 	// remove old
 	p.unsafePop(ele)
 	delete(p.tokens, access)
+	// newAccess may already be in use
+	p.unsafeDestroyByToken(newAccess)
 	// push new
 	t.Refresh(newAccess, newRefresh, p.opts.access, p.opts.refresh)
 	p.tokens[newAccess] = p.lru.PushBack(t)
-- 
2.43.0


From a4ab3596c808ee35981529a0ee0c5e35d7f247b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:02 +0000
Subject: [PATCH 03/18] fix: reads after Session.Delete see the deletion

---
 session.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/session.go b/session.go
index 2ab136d..1646b21 100644
--- a/session.go
+++ b/session.go
@@ -214,5 +214,14 @@ func (s *Session) Get(ctx context.Context, key string, pointer interface{}) (e e
 
 // Delete keys
 func (s *Session) Delete(ctx context.Context, token string, key ...string) (e error) {
-	return s.provider.Delete(ctx, token, key)
+	e = s.provider.Delete(ctx, token, key)
+	if e != nil {
+		return
+	}
+	if token == s.token {
+		for _, k := range key {
+			delete(s.keys, k)
+		}
+	}
+	return
 }
-- 
2.43.0


From ee19e38d893f47a1a459013d3dc100645a5c5ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:22 +0000
Subject: [PATCH 04/18] fix: Session.Get decodes the stored bytes for each read

Values decoded earlier were kept and assigned to any destination of the
same kind: a different type of that kind panicked, and maps and slices
were shared between readers.
---
 session.go | 66 +++++++++++++++++-------------------------------------
 1 file changed, 21 insertions(+), 45 deletions(-)

diff --git a/session.go b/session.go
index 1646b21..72ae3a0 100644
--- a/session.go
+++ b/session.go
@@ -10,18 +10,13 @@ type Value struct {
 	Bytes  []byte
 	Exists bool
 }
-type value struct {
-	Value
-	Elem  reflect.Value
-	Ready bool
-}
 
 type Session struct {
 	id       string
 	token    string
 	provider Provider
 	coder    Coder
-	keys     map[string]value
+	keys     map[string]Value
 }
 
 func (s *Session) ID() string {
@@ -85,15 +80,12 @@ func (s *Session) Put(ctx context.Context, pair ...Pair) (e error) {
 		return
 	}
 	if s.keys == nil {
-		s.keys = make(map[string]value)
+		s.keys = make(map[string]Value)
 	}
 	for i := 0; i < count; i++ {
-		val := Value{
+		s.keys[kv[i].Key] = Value{
 			Exists: true,
-			Bytes:  kv[i].Value,
-		}
-		s.keys[kv[i].Key] = value{
-			Value: val,
+			Bytes:  copyBytes(kv[i].Value),
 		}
 	}
 	return
@@ -133,16 +125,14 @@ func (s *Session) Prepare(ctx context.Context, key ...string) (e error) {
 		return
 	}
 	if s.keys == nil {
-		s.keys = make(map[string]value)
+		s.keys = make(map[string]Value)
 	}
 	for i := 0; i < count; i++ {
-		s.keys[key[i]] = value{
-			Value: vals[i],
-		}
+		s.keys[key[i]] = vals[i]
 	}
 	return
 }
-func (s *Session) getKey(key string) (val value, exists bool) {
+func (s *Session) getKey(key string) (val Value, exists bool) {
 	if s.keys == nil {
 		return
 	}
@@ -161,23 +151,11 @@ func (s *Session) Get(ctx context.Context, key string, pointer interface{}) (e e
 		return
 	}
 	if v, ok := s.getKey(key); ok {
-		if v.Exists {
-			if v.Ready && vo.Elem().Kind() == v.Elem.Elem().Kind() {
-				vo.Elem().Set(v.Elem.Elem())
-			} else {
-				e = s.coder.Decode(v.Bytes, pointer)
-				if e != nil {
-					return
-				}
-				v.Ready = true
-				p := reflect.New(vo.Elem().Type())
-				p.Elem().Set(vo.Elem())
-				v.Elem = p
-				s.keys[key] = v
-			}
+		if !v.Exists {
+			e = ErrKeyNotExists
 			return
 		}
-		e = ErrKeyNotExists
+		e = s.coder.Decode(copyBytes(v.Bytes), pointer)
 		return
 	}
 	vals, e := s.provider.Get(ctx, s.token, []string{key})
@@ -188,27 +166,19 @@ func (s *Session) Get(ctx context.Context, key string, pointer interface{}) (e e
 		return
 	}
 	if s.keys == nil {
-		s.keys = make(map[string]value)
+		s.keys = make(map[string]Value)
 	}
 	if !vals[0].Exists {
-		s.keys[key] = value{}
+		s.keys[key] = Value{}
 		e = ErrKeyNotExists
 		return
 	}
-	// ready
-	e = s.coder.Decode(vals[0].Bytes, pointer)
+	// the cache and what the coder makes of the bytes must not share memory
+	e = s.coder.Decode(copyBytes(vals[0].Bytes), pointer)
 	if e != nil {
 		return
 	}
-	p := reflect.New(vo.Elem().Type())
-	p.Elem().Set(vo.Elem())
-
-	var v value
-	v.Exists = true
-	v.Bytes = vals[0].Bytes
-	v.Ready = true
-	v.Elem = p
-	s.keys[key] = v
+	s.keys[key] = vals[0]
 	return
 }
 
@@ -225,3 +195,9 @@ func (s *Session) Delete(ctx context.Context, token string, key ...string) (e er
 	}
 	return
 }
+
+func copyBytes(b []byte) []byte {
+	dst := make([]byte, len(b))
+	copy(dst, b)
+	return dst
+}
-- 
2.43.0


From 2d2ef05c986f043e06dd687efabb5c1574117d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:37 +0000
Subject: [PATCH 05/18] fix: link the hashes of the built-in signing methods

---
 cryptoer/hmac.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cryptoer/hmac.go b/cryptoer/hmac.go
index a0faaba..4baa678 100644
--- a/cryptoer/hmac.go
+++ b/cryptoer/hmac.go
@@ -3,6 +3,10 @@ package cryptoer
 import (
 	"crypto"
 	"crypto/hmac"
+	_ "crypto/md5"
+	_ "crypto/sha1"
+	_ "crypto/sha256"
+	_ "crypto/sha512"
 	"encoding/base64"
 	"errors"
 )
-- 
2.43.0


From 4f79e166957dafbe7b60de599e74f371e5b7c536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:10 +0000
Subject: [PATCH 06/18] fix: bolt Get returns bytes that outlive the
 transaction

---
 provider/bolt/metadata.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/provider/bolt/metadata.go b/provider/bolt/metadata.go
index a2b5fff..5fc2ffb 100644
--- a/provider/bolt/metadata.go
+++ b/provider/bolt/metadata.go
@@ -169,8 +169,9 @@ func (p *Provider) getData(bucket *bolt.Bucket, token string, key []string) (pai
 	for i, k := range key {
 		b := bucket.Get([]byte(k))
 		if b != nil {
+			// b is only valid during the transaction
 			pairs[i] = sessionid.Value{
-				Bytes:  b,
+				Bytes:  append([]byte{}, b...),
 				Exists: true,
 			}
 		}
-- 
2.43.0


From 57eee859146b983d13897ae231e58231d18f62f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:01 +0000
Subject: [PATCH 07/18] fix: bolt refresh to an access token already in use
 replaces that session

---
 provider/bolt/provider.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/provider/bolt/provider.go b/provider/bolt/provider.go
index f6dee5d..81fcdd0 100644
--- a/provider/bolt/provider.go
+++ b/provider/bolt/provider.go
@@ -772,6 +772,11 @@ func (p *Provider) Refresh(ctx context.Context, access, refresh, newAccess, newR
 			if e != nil {
 				return
 			}
+			// newAccess may already be in use
+			e = p.destoryToken(store, bMD, bData, bIDS, bLRU, newAccess)
+			if e != nil {
+				return
+			}
 			// new
 			md.DoRefresh(newAccess, newRefresh, p.opts.access, p.opts.refresh)
 			key = []byte(newAccess)
-- 
2.43.0


From ebf8d1e6cd2fd90c909d47640a630292b49d5111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:29 +0000
Subject: [PATCH 08/18] fix: bolt creation at a lowered capacity evicts as many
 as needed

---
 provider/bolt/provider.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/provider/bolt/provider.go b/provider/bolt/provider.go
index 81fcdd0..035e8d2 100644
--- a/provider/bolt/provider.go
+++ b/provider/bolt/provider.go
@@ -307,11 +307,18 @@ func (p *Provider) Create(ctx context.Context,
 		if e != nil {
 			return
 		}
-		if p.opts.maxSize > 0 &&
-			p.count(store) >= uint64(p.opts.maxSize) {
-			e = p.unsafePop(store, bMD, bData, bIDS, bLRU)
-			if e != nil {
-				return
+		if p.opts.maxSize > 0 {
+			// maxSize may be less than when the sessions were stored
+			for count := p.count(store); count >= uint64(p.opts.maxSize); {
+				e = p.unsafePop(store, bMD, bData, bIDS, bLRU)
+				if e != nil {
+					return
+				}
+				last := count
+				count = p.count(store)
+				if count == last {
+					break
+				}
 			}
 		}
 
-- 
2.43.0


From 1499eec022f93e1ef8407cdceee9c3e205ccc107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:44 +0000
Subject: [PATCH 09/18] fix: bolt Clear works on a store that never held a
 session

---
 provider/bolt/provider.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/provider/bolt/provider.go b/provider/bolt/provider.go
index 035e8d2..2b01244 100644
--- a/provider/bolt/provider.go
+++ b/provider/bolt/provider.go
@@ -868,9 +868,11 @@ func (p *Provider) Clear() (e error) {
 				store                  = p.store(t)
 				bMD, bData, bIDS, bLRU = p.buckets(store)
 			)
-			e = store.Delete(keyCount)
-			if e != nil {
-				return
+			if store.Get(keyCount) != nil {
+				e = store.Delete(keyCount)
+				if e != nil {
+					return
+				}
 			}
 			e = p.deleteBucket(bMD)
 			if e != nil {
-- 
2.43.0


From b340be5c9f27bf56e91e7bcdddf92ca080446a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:49 +0000
Subject: [PATCH 10/18] fix: bolt background check removes the dead sessions it
 was told about

---
 provider/bolt/provider.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/provider/bolt/provider.go b/provider/bolt/provider.go
index 2b01244..21b8f75 100644
--- a/provider/bolt/provider.go
+++ b/provider/bolt/provider.go
@@ -240,7 +240,7 @@ func (p *Provider) doCheck(m map[string]bool) (closed bool) {
 		)
 		for token := range m {
 			md, e = p.getMetadata(bMD, []byte(token))
-			if e == nil {
+			if e != nil {
 				return
 			} else if md == nil {
 				continue
-- 
2.43.0


From 7f2587be81739fc3c242a7b5d95796bcc01fe6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:50 +0000
Subject: [PATCH 11/18] fix: a closed bolt provider no longer clears a shared
 database

---
 provider/bolt/provider.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/provider/bolt/provider.go b/provider/bolt/provider.go
index 21b8f75..54b820a 100644
--- a/provider/bolt/provider.go
+++ b/provider/bolt/provider.go
@@ -99,6 +99,10 @@ func (p *Provider) clear(ch <-chan time.Time) {
 			return
 		case <-ch:
 			p.m.Lock()
+			if p.done != 0 {
+				p.m.Unlock()
+				return
+			}
 			p.doClear()
 			p.m.Unlock()
 		}
-- 
2.43.0


From 041033b02885b793e9b5dd8ebaf363c73636c7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:50 +0000
Subject: [PATCH 12/18] fix: bolt Clear on a closed provider releases the lock

---
 provider/bolt/provider.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/provider/bolt/provider.go b/provider/bolt/provider.go
index 54b820a..28938fc 100644
--- a/provider/bolt/provider.go
+++ b/provider/bolt/provider.go
@@ -899,7 +899,6 @@ func (p *Provider) Clear() (e error) {
 
 	} else {
 		e = sessionid.ErrProviderClosed
-		return
 	}
 	p.m.Unlock()
 	return
-- 
2.43.0


From 24c1d41b346539ecd6e0366deb0207e99965b685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:19 +0000
Subject: [PATCH 13/18] fix: redis refresh of a dead session reports that it
 does not exist

---
 provider/redis/provider.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/provider/redis/provider.go b/provider/redis/provider.go
index 9c67bb9..c6820d1 100644
--- a/provider/redis/provider.go
+++ b/provider/redis/provider.go
@@ -409,6 +409,7 @@ func (p *Provider) Refresh(ctx context.Context, access, refresh, newAccess, newR
 	if e != nil {
 		return
 	} else if md.IsDeleted() {
+		e = sessionid.ErrTokenNotExists
 		p.pushDelete(key)
 		return
 	} else if md.Refresh != refresh {
-- 
2.43.0


From f9122548c41403534b8a01a57b79398e4cccb82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:32 +0000
Subject: [PATCH 14/18] fix: redis Keys, Get and Delete report the token's
 status and hide the bookkeeping entry

---
 provider/redis/provider.go | 48 ++++++++++++++++++++++++++++++++++----
 1 file changed, 44 insertions(+), 4 deletions(-)

diff --git a/provider/redis/provider.go b/provider/redis/provider.go
index c6820d1..4659da5 100644
--- a/provider/redis/provider.go
+++ b/provider/redis/provider.go
@@ -207,7 +207,10 @@ func (p *Provider) DestroyByToken(ctx context.Context, token string) (e error) {
 	return
 }
 func (p *Provider) getMetadata(ctx context.Context, key string, md *_Metadata) (val string, e error) {
-	val, e = p.opts.client.HGet(ctx, key, p.opts.metadataKey).Result()
+	return p.decodeMetadata(p.opts.client.HGet(ctx, key, p.opts.metadataKey), md)
+}
+func (p *Provider) decodeMetadata(cmd *redis.StringCmd, md *_Metadata) (val string, e error) {
+	val, e = cmd.Result()
 	if e != nil {
 		if e.Error() == `redis: nil` {
 			e = sessionid.ErrTokenNotExists
@@ -223,6 +226,21 @@ func (p *Provider) getMetadata(ctx context.Context, key string, md *_Metadata) (
 	return
 }
 
+// checkMetadata return the token's status
+func (p *Provider) checkMetadata(key string, cmd *redis.StringCmd) (e error) {
+	var md _Metadata
+	_, e = p.decodeMetadata(cmd, &md)
+	if e != nil {
+		return
+	} else if md.IsDeleted() {
+		e = sessionid.ErrTokenNotExists
+		p.pushDelete(key)
+	} else if md.IsExpired() {
+		e = sessionid.ErrTokenExpired
+	}
+	return
+}
+
 // Check return true if token not expired
 func (p *Provider) Check(ctx context.Context, token string) (e error) {
 	e = p.checkID(token)
@@ -338,7 +356,7 @@ func (p *Provider) Get(ctx context.Context, token string, keys []string) (vals [
 				break
 			}
 		} else {
-			if str, ok := v.(string); ok {
+			if str, ok := v.(string); ok && keys[i-1] != p.opts.metadataKey {
 				vals[i-1] = sessionid.Value{
 					Exists: true,
 					Bytes:  []byte(str),
@@ -356,11 +374,26 @@ func (p *Provider) Keys(ctx context.Context, token string) (keys []string, e err
 		return
 	}
 
-	keys, e = p.opts.client.HKeys(ctx, p.keyName(token)).Result()
+	key := p.keyName(token)
+	tx := p.opts.client.TxPipeline()
+	defer tx.Close()
+	metadata := tx.HGet(ctx, key, p.opts.metadataKey)
+	fields := tx.HKeys(ctx, key)
+	tx.Exec(ctx)
+	e = p.checkMetadata(key, metadata)
+	if e != nil {
+		return
+	}
+	names, e := fields.Result()
 	if e != nil {
 		e = p.toError(e)
 		return
 	}
+	for _, name := range names {
+		if name != p.opts.metadataKey {
+			keys = append(keys, name)
+		}
+	}
 	return
 }
 
@@ -370,7 +403,14 @@ func (p *Provider) Delete(ctx context.Context, token string, keys []string) (e e
 	if e != nil {
 		return
 	}
-	if len(keys) == 0 {
+	for _, k := range keys {
+		e = p.checkKey(k)
+		if e != nil {
+			return
+		}
+	}
+	e = p.Check(ctx, token)
+	if e != nil || len(keys) == 0 {
 		return
 	}
 	_, e = p.opts.client.HDel(ctx, p.keyName(token), keys...).Result()
-- 
2.43.0


From 61a00f0855ffb49a61c561291a22132068f65654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:52 +0000
Subject: [PATCH 15/18] fix: redis Destroy removes every session of the user
 and nothing else

---
 provider/redis/provider.go | 59 +++++++++++++++++++++++++++++---------
 1 file changed, 46 insertions(+), 13 deletions(-)

diff --git a/provider/redis/provider.go b/provider/redis/provider.go
index 4659da5..927134d 100644
--- a/provider/redis/provider.go
+++ b/provider/redis/provider.go
@@ -3,6 +3,7 @@ package redis
 import (
 	"context"
 	"errors"
+	"strings"
 	"sync"
 	"sync/atomic"
 	"time"
@@ -174,22 +175,54 @@ func (p *Provider) keyName(key string) string {
 
 // Destroy a session by id
 func (p *Provider) Destroy(ctx context.Context, id string) (e error) {
-	result := p.opts.client.Keys(ctx, p.keyName(id+`.*`))
-	e = result.Err()
-	if e != nil {
-		e = p.toError(e)
-		return
+	var (
+		names, keys []string
+		pattern     = escapePattern(p.keyName(id)) + `.*`
+	)
+	for {
+		names, e = p.opts.client.Keys(ctx, pattern).Result()
+		if e != nil {
+			e = p.toError(e)
+			return
+		}
+		keys = keys[:0]
+		for _, name := range names {
+			if p.belongs(name, id) {
+				keys = append(keys, name)
+			}
+		}
+		if len(keys) == 0 {
+			return
+		}
+		e = p.opts.client.Del(ctx, keys...).Err()
+		if e != nil {
+			e = p.toError(e)
+			return
+		}
+		// a session renamed by a concurrent refresh is found next time
 	}
-	keys := result.Val()
-	if len(keys) == 0 {
-		return
+}
+
+// belongs return true if the redis key is a session of id
+func (p *Provider) belongs(key, id string) bool {
+	if !strings.HasPrefix(key, p.opts.keyPrefix) {
+		return false
 	}
-	e = p.opts.client.Del(ctx, keys...).Err()
-	if e != nil {
-		e = p.toError(e)
-		return
+	s, _, _, e := sessionid.Split(key[len(p.opts.keyPrefix):])
+	return e == nil && s == id
+}
+
+// escapePattern return a pattern matching exactly s
+func escapePattern(s string) string {
+	b := make([]byte, 0, len(s)*2)
+	for i := 0; i < len(s); i++ {
+		switch s[i] {
+		case '*', '?', '[', ']', '\\':
+			b = append(b, '\\')
+		}
+		b = append(b, s[i])
 	}
-	return
+	return string(b)
 }
 
 // Destroy a session by token
-- 
2.43.0


From 5b0234e5e3efa3d73eaeb150f1d38a9f75767ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:52 +0000
Subject: [PATCH 16/18] fix: redis creation replaces the old session, and no
 session expires before its deadline

---
 provider/redis/metadata.go | 5 +++++
 provider/redis/provider.go | 8 ++++----
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/provider/redis/metadata.go b/provider/redis/metadata.go
index 2f0d8fa..f7bed5b 100644
--- a/provider/redis/metadata.go
+++ b/provider/redis/metadata.go
@@ -33,3 +33,8 @@ func (md *_Metadata) DoRefresh(access, refresh string, accessDuration, refreshDu
 	md.AccessDeadline = at.Add(accessDuration)
 	md.RefreshDeadline = at.Add(refreshDuration)
 }
+
+// ExpireAt return the deadline rounded up to redis' granularity
+func (md *_Metadata) ExpireAt() time.Time {
+	return md.RefreshDeadline.Add(time.Millisecond - 1)
+}
diff --git a/provider/redis/provider.go b/provider/redis/provider.go
index 927134d..7ec0984 100644
--- a/provider/redis/provider.go
+++ b/provider/redis/provider.go
@@ -152,9 +152,9 @@ func (p *Provider) Create(ctx context.Context,
 	key := p.keyName(access)
 	tx := p.opts.client.TxPipeline()
 	defer tx.Close()
+	tx.Del(ctx, key)
 	tx.HSet(ctx, key, fields...)
-	tx.ExpireAt(ctx, key, md.RefreshDeadline)
-	tx.Expire(ctx, key, p.opts.refresh)
+	tx.PExpireAt(ctx, key, md.ExpireAt())
 	_, e = tx.Exec(ctx)
 	if e != nil {
 		e = p.toError(e)
@@ -337,7 +337,7 @@ func (p *Provider) Put(ctx context.Context, token string, pair []sessionid.PairB
 	tx := p.opts.client.TxPipeline()
 	defer tx.Close()
 	tx.HSet(ctx, key, fields)
-	tx.ExpireAt(ctx, key, md.RefreshDeadline)
+	tx.PExpireAt(ctx, key, md.ExpireAt())
 	_, e = tx.Exec(ctx)
 	if e != nil {
 		e = p.toError(e)
@@ -499,7 +499,7 @@ func (p *Provider) Refresh(ctx context.Context, access, refresh, newAccess, newR
 	tx := p.opts.client.TxPipeline()
 	defer tx.Close()
 	tx.HSet(ctx, key, p.opts.metadataKey, string(b))
-	tx.ExpireAt(ctx, key, md.RefreshDeadline)
+	tx.PExpireAt(ctx, key, md.ExpireAt())
 	tx.Rename(ctx, key, newkey)
 	_, e = tx.Exec(ctx)
 	if e != nil {
-- 
2.43.0


From fb70d4e9814400bf125936e0603cd2b82d3e11c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:53 +0000
Subject: [PATCH 17/18] fix: redis writes, deletions and refreshes apply to the
 session they were checked against

---
 provider/redis/provider.go | 123 ++++++++++++++++++++-----------------
 1 file changed, 66 insertions(+), 57 deletions(-)

diff --git a/provider/redis/provider.go b/provider/redis/provider.go
index 7ec0984..5b370fe 100644
--- a/provider/redis/provider.go
+++ b/provider/redis/provider.go
@@ -319,30 +319,46 @@ func (p *Provider) Put(ctx context.Context, token string, pair []sessionid.PairB
 		fields = append(fields, field.Key, string(field.Value))
 	}
 
-	var md _Metadata
 	key := p.keyName(token)
-	mdStr, e := p.getMetadata(ctx, key, &md)
-	if e != nil {
-		return
-	} else if md.IsDeleted() {
-		e = sessionid.ErrTokenNotExists
-		p.pushDelete(key)
-		return
-	} else if md.IsExpired() {
-		e = sessionid.ErrTokenExpired
+	return p.update(ctx, key, func(tx *redis.Tx, md *_Metadata) (e error) {
+		if md.IsExpired() {
+			e = sessionid.ErrTokenExpired
+			return
+		} else if len(fields) == 0 {
+			return
+		}
+		_, e = tx.TxPipelined(ctx, func(pipe redis.Pipeliner) error {
+			pipe.HSet(ctx, key, fields)
+			pipe.PExpireAt(ctx, key, md.ExpireAt())
+			return nil
+		})
 		return
-	}
-	fields = append(fields, p.opts.metadataKey, mdStr)
+	})
+}
 
-	tx := p.opts.client.TxPipeline()
-	defer tx.Close()
-	tx.HSet(ctx, key, fields)
-	tx.PExpireAt(ctx, key, md.ExpireAt())
-	_, e = tx.Exec(ctx)
-	if e != nil {
-		e = p.toError(e)
-		return
+// update calls f for a session that is not deleted, again if the session
+// changed before f's transaction was executed
+func (p *Provider) update(ctx context.Context, key string, f func(tx *redis.Tx, md *_Metadata) error) (e error) {
+	deleted := false
+	for e = redis.TxFailedErr; e == redis.TxFailedErr; {
+		e = p.opts.client.Watch(ctx, func(tx *redis.Tx) (e error) {
+			var md _Metadata
+			_, e = p.decodeMetadata(tx.HGet(ctx, key, p.opts.metadataKey), &md)
+			if e != nil {
+				return
+			}
+			deleted = md.IsDeleted()
+			if deleted {
+				e = sessionid.ErrTokenNotExists
+				return
+			}
+			return f(tx, &md)
+		}, key)
+	}
+	if deleted {
+		p.pushDelete(key)
 	}
+	e = p.toError(e)
 	return
 }
 
@@ -442,16 +458,20 @@ func (p *Provider) Delete(ctx context.Context, token string, keys []string) (e e
 			return
 		}
 	}
-	e = p.Check(ctx, token)
-	if e != nil || len(keys) == 0 {
-		return
-	}
-	_, e = p.opts.client.HDel(ctx, p.keyName(token), keys...).Result()
-	if e != nil {
-		e = p.toError(e)
+	key := p.keyName(token)
+	return p.update(ctx, key, func(tx *redis.Tx, md *_Metadata) (e error) {
+		if md.IsExpired() {
+			e = sessionid.ErrTokenExpired
+			return
+		} else if len(keys) == 0 {
+			return
+		}
+		_, e = tx.TxPipelined(ctx, func(pipe redis.Pipeliner) error {
+			pipe.HDel(ctx, key, keys...)
+			return nil
+		})
 		return
-	}
-	return
+	})
 }
 func (p *Provider) checkID(token ...string) (e error) {
 	var id, s string
@@ -476,37 +496,26 @@ func (p *Provider) Refresh(ctx context.Context, access, refresh, newAccess, newR
 	if e != nil {
 		return
 	}
-	var md _Metadata
 	key := p.keyName(access)
-	_, e = p.getMetadata(ctx, key, &md)
-	if e != nil {
-		return
-	} else if md.IsDeleted() {
-		e = sessionid.ErrTokenNotExists
-		p.pushDelete(key)
-		return
-	} else if md.Refresh != refresh {
-		e = sessionid.ErrRefreshTokenNotMatched
-		return
-	}
-	md.DoRefresh(newAccess, newRefresh, p.opts.access, p.opts.refresh)
-	b, e := p.opts.coder.Encode(&md)
-	if e != nil {
-		return
-	}
-
 	newkey := p.keyName(newAccess)
-	tx := p.opts.client.TxPipeline()
-	defer tx.Close()
-	tx.HSet(ctx, key, p.opts.metadataKey, string(b))
-	tx.PExpireAt(ctx, key, md.ExpireAt())
-	tx.Rename(ctx, key, newkey)
-	_, e = tx.Exec(ctx)
-	if e != nil {
-		e = p.toError(e)
+	return p.update(ctx, key, func(tx *redis.Tx, md *_Metadata) (e error) {
+		if md.Refresh != refresh {
+			e = sessionid.ErrRefreshTokenNotMatched
+			return
+		}
+		md.DoRefresh(newAccess, newRefresh, p.opts.access, p.opts.refresh)
+		b, e := p.opts.coder.Encode(md)
+		if e != nil {
+			return
+		}
+		_, e = tx.TxPipelined(ctx, func(pipe redis.Pipeliner) error {
+			pipe.HSet(ctx, key, p.opts.metadataKey, string(b))
+			pipe.PExpireAt(ctx, key, md.ExpireAt())
+			pipe.Rename(ctx, key, newkey)
+			return nil
+		})
 		return
-	}
-	return
+	})
 }
 
 // Close provider
-- 
2.43.0


From 0fa1bab81d856d4dca2496bc0beb284a1b4def93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:08 +0000
Subject: [PATCH 18/18] fix: redis background deletion spares sessions in use
 again

---
 provider/redis/provider.go | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/provider/redis/provider.go b/provider/redis/provider.go
index 5b370fe..8409025 100644
--- a/provider/redis/provider.go
+++ b/provider/redis/provider.go
@@ -84,17 +84,36 @@ func (p *Provider) delete(batch int) {
 			}
 		}
 		// do delete
-		keys := make([]string, 0, len(m))
 		for key := range m {
-			keys = append(keys, key)
+			p.deleteKey(key)
 		}
-		p.opts.client.Del(p.ctx, keys...)
 		// clear task
 		for token = range m {
 			delete(m, token)
 		}
 	}
 }
+
+// deleteKey removes a session unless it is in use again
+func (p *Provider) deleteKey(key string) {
+	p.opts.client.Watch(p.ctx, func(tx *redis.Tx) (e error) {
+		var md _Metadata
+		cmd := tx.HGet(p.ctx, key, p.opts.metadataKey)
+		e = cmd.Err()
+		if e != nil && e != redis.Nil {
+			return
+		}
+		_, e = p.decodeMetadata(cmd, &md)
+		if e == nil && !md.IsDeleted() {
+			return
+		}
+		_, e = tx.TxPipelined(p.ctx, func(pipe redis.Pipeliner) error {
+			pipe.Del(p.ctx, key)
+			return nil
+		})
+		return
+	}, key)
+}
 func (p *Provider) tryRead() (token string, yes, closed bool) {
 	select {
 	case <-p.ctx.Done():
-- 
2.43.0

