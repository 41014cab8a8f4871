From e7f1254ec3716e9feb40c05e85385be1180db027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:13 +0000
Subject: [PATCH 01/27] fix: memory cache ack deadline mixed seconds and
 milliseconds

---
 internal/queue/cache/memory_cache.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/queue/cache/memory_cache.go b/internal/queue/cache/memory_cache.go
index f9d0135..5bd3581 100644
--- a/internal/queue/cache/memory_cache.go
+++ b/internal/queue/cache/memory_cache.go
@@ -279,7 +279,7 @@ func (cache *MemoryCache) PullMessages(ctx context.Context, queue string, n int6
 
 		processingEntry := &MemoryMessageEntry{
 			id:    entry.id,
-			score: float64(dtime.Now().Unix() + ackDeadlineMs),
+			score: float64(dtime.NowMs() + ackDeadlineMs),
 		}
 
 		cache.processingQueues[queue], _ = insertEntry(processingEntry, cache.processingQueues[queue])
@@ -302,7 +302,7 @@ func (cache *MemoryCache) TimeoutMessages(_ context.Context, queue string) (ids
 		return nil, nil
 	}
 
-	timeoutTime := dtime.Now().Unix()
+	timeoutTime := dtime.NowMs()
 
 	count := int64(0)
 
-- 
2.43.0


From f29b002fa43deaee1e99b4cd43e01773c72457b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:15 +0000
Subject: [PATCH 02/27] fix: memory cache unlocked and timed out a single
 message per call

---
 internal/queue/cache/memory_cache.go | 38 ++++++++++++++++------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/internal/queue/cache/memory_cache.go b/internal/queue/cache/memory_cache.go
index 5bd3581..5086860 100644
--- a/internal/queue/cache/memory_cache.go
+++ b/internal/queue/cache/memory_cache.go
@@ -220,27 +220,29 @@ func (cache *MemoryCache) UnlockMessages(ctx context.Context, queue string, lock
 	nowMs := dtime.NowMs()
 
 	unlockedMessages := make([]string, 0)
-	for queue := range data {
-		list := data[queue]
 
-		if list == nil {
-			continue
-		}
-
-		for e := list.Front(); e != nil; e = e.Next() {
-			value := e.Value.(*MemoryMessageEntry)
+	lockedMessages := data[queue]
+	if lockedMessages == nil {
+		return unlockedMessages, nil
+	}
 
-			if nowMs >= int64(value.lockUntil) {
-				list.Remove(e)
+	var next *list.Element
+	for e := lockedMessages.Front(); e != nil; e = next {
+		// Removing an element from the list clears its next pointer
+		next = e.Next()
 
-				if score.IsUndefined(value.score) {
-					value.score = defaultScore
-				}
+		value := e.Value.(*MemoryMessageEntry)
 
-				cache.queues[queue], _ = insertEntry(value, cache.queues[queue])
+		if nowMs >= int64(value.lockUntil) {
+			lockedMessages.Remove(e)
 
-				unlockedMessages = append(unlockedMessages, value.id)
+			if score.IsUndefined(value.score) {
+				value.score = defaultScore
 			}
+
+			cache.queues[queue], _ = insertEntry(value, cache.queues[queue])
+
+			unlockedMessages = append(unlockedMessages, value.id)
 		}
 	}
 
@@ -307,7 +309,11 @@ func (cache *MemoryCache) TimeoutMessages(_ context.Context, queue string) (ids
 	count := int64(0)
 
 	result := make([]string, 0)
-	for e := cache.processingQueues[queue].Front(); e != nil; e = e.Next() {
+	var next *list.Element
+	for e := cache.processingQueues[queue].Front(); e != nil; e = next {
+		// Removing an element from the list clears its next pointer
+		next = e.Next()
+
 		value := e.Value.(*MemoryMessageEntry)
 
 		if value.score <= float64(timeoutTime) {
-- 
2.43.0


From b02524d9ae0976dd2883b4355885f7f4acd58473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:23 +0000
Subject: [PATCH 03/27] fix: memory cache score filter examined only the first
 messages of a queue

---
 internal/queue/cache/memory_cache.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/queue/cache/memory_cache.go b/internal/queue/cache/memory_cache.go
index 5086860..51d2fb7 100644
--- a/internal/queue/cache/memory_cache.go
+++ b/internal/queue/cache/memory_cache.go
@@ -266,7 +266,7 @@ func (cache *MemoryCache) PullMessages(ctx context.Context, queue string, n int6
 	result := make([]string, 0, utils.MinInt64(n, total))
 
 	filteredOut := make([]*MemoryMessageEntry, 0)
-	for i := int64(0); i < n && i < total && cache.queues[queue].Len() != 0; i++ {
+	for int64(len(result)) < n && cache.queues[queue].Len() != 0 {
 		element := cache.queues[queue].Front()
 
 		entry := element.Value.(*MemoryMessageEntry)
-- 
2.43.0


From 20f3631c0879db44541268f059d98ae8e4bad3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:42 +0000
Subject: [PATCH 04/27] fix: redis cache removal counted the lock score of a
 message as another message

---
 internal/queue/cache/redis_cache_scripts.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/internal/queue/cache/redis_cache_scripts.go b/internal/queue/cache/redis_cache_scripts.go
index 6ddf55a..aac418e 100644
--- a/internal/queue/cache/redis_cache_scripts.go
+++ b/internal/queue/cache/redis_cache_scripts.go
@@ -1,15 +1,21 @@
 package cache
 
-// Removes all elements from different sorted sets
+// Removes all elements from different sorted sets and returns the number of messages removed
 //
-// KEYS[1-n] -> sorted sets to remove elements
+// KEYS[1-4] -> pools to remove elements, a message is present in at most one of them
+//
+// KEYS[5-n] -> lock score sorted sets, they only hold data of messages present in another pool
 //
 // ARGV[1/n] -> elements to remove from all sorted sets
 const removeElementScript = `
 local total = 0
 
-for _, pool in ipairs(KEYS) do
-	total = total + redis.call('ZREM', pool, unpack(ARGV))
+for i, pool in ipairs(KEYS) do
+	local removed = redis.call('ZREM', pool, unpack(ARGV))
+
+	if i <= 4 then
+		total = total + removed
+	end
 end
 
 return total
-- 
2.43.0


From f180da455c807b954c3b0f3549cf2a49e360c931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:51 +0000
Subject: [PATCH 05/27] fix: redis cache treated glob characters of the
 configured prefix as a pattern

---
 internal/queue/cache/redis_cache.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/queue/cache/redis_cache.go b/internal/queue/cache/redis_cache.go
index ab6e66a..09a44b7 100644
--- a/internal/queue/cache/redis_cache.go
+++ b/internal/queue/cache/redis_cache.go
@@ -27,6 +27,9 @@ var errCacheUriRequired = errors.New("cache.uri (DECKARD_CACHE_URI) is required
 var errCacheConnectionRetryAttemptsInvalid = errors.New("cache.connection.retry.attempts must be greater than 0")
 var errQueueNameContainsClusterHashTag = errors.New("queue names cannot contain '{' or '}'")
 
+// globEscaper escapes the special characters of Redis glob-style patterns
+var globEscaper = strings.NewReplacer(`\`, `\\`, `*`, `\*`, `?`, `\?`, `[`, `\[`, `]`, `\]`)
+
 // RedisClient interface abstracts the differences between single-node and cluster Redis clients
 type RedisClient interface {
 	redis.Cmdable
@@ -281,7 +284,7 @@ func (cache *RedisCache) Flush(ctx context.Context) {
 		metrics.CacheLatency.Record(ctx, dtime.ElapsedTime(now), metric.WithAttributes(attribute.String("op", "flush")))
 	}()
 
-	pattern := cache.fullPrefix() + ":*"
+	pattern := globEscaper.Replace(cache.fullPrefix()) + ":*"
 
 	// Delete only this Deckard instance namespace. Never call FLUSHDB, since users may share
 	// the same Redis with other applications (or another Deckard with a different prefix).
@@ -378,6 +381,9 @@ func (cache *RedisCache) ListQueues(ctx context.Context, pattern string, poolTyp
 		searchPattern = cache.lockPool(pattern, LOCK_NACK)
 	}
 
+	// Only the queue name is a pattern, the configured prefix must be matched literally.
+	searchPattern = globEscaper.Replace(cache.poolPrefix()) + strings.TrimPrefix(searchPattern, cache.poolPrefix())
+
 	// Use SCAN instead of KEYS to avoid blocking Redis.
 	//
 	// SCAN is a "keyless" command, so in cluster mode go-redis cannot route it by hash slot: it
-- 
2.43.0


From f1da33e13ba8bd6b0948b5a9013b3cfa6c18af6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:18 +0000
Subject: [PATCH 06/27] fix: memory storage removal counted a repeated id more
 than once

---
 internal/queue/storage/memory_storage.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/queue/storage/memory_storage.go b/internal/queue/storage/memory_storage.go
index d2b021e..0c1ca73 100644
--- a/internal/queue/storage/memory_storage.go
+++ b/internal/queue/storage/memory_storage.go
@@ -308,6 +308,8 @@ func (storage *MemoryStorage) Remove(_ context.Context, queue string, ids ...str
 				delete(storage.docs, key)
 
 				count++
+
+				break
 			}
 		}
 	}
-- 
2.43.0


From a6e6defb633439e10c8c48be83497dfe89e80268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:46 +0000
Subject: [PATCH 07/27] fix: memory storage hid expired messages from the max
 elements removal, which removed live ones instead

---
 internal/queue/storage/memory_storage.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/internal/queue/storage/memory_storage.go b/internal/queue/storage/memory_storage.go
index 0c1ca73..d099525 100644
--- a/internal/queue/storage/memory_storage.go
+++ b/internal/queue/storage/memory_storage.go
@@ -235,7 +235,7 @@ func (storage *MemoryStorage) Find(_ context.Context, opt *FindOptions) ([]messa
 	defer storage.lock.RUnlock()
 
 	for k := range storage.docs {
-		if (opt == nil || opt.InternalFilter == nil || opt.InternalFilter.ExpiryDate == nil) && isExpired(storage.docs[k]) {
+		if !includesExpired(opt) && isExpired(storage.docs[k]) {
 			continue
 		}
 
@@ -290,6 +290,26 @@ func (storage *MemoryStorage) Find(_ context.Context, opt *FindOptions) ([]messa
 	return messages, nil
 }
 
+// includesExpired checks if expired messages are visible to a search.
+// Searches which filter or sort by expiry date are used to remove messages, so they must see the same messages of Count.
+func includesExpired(opt *FindOptions) bool {
+	if opt == nil {
+		return false
+	}
+
+	if opt.InternalFilter != nil && opt.InternalFilter.ExpiryDate != nil {
+		return true
+	}
+
+	if opt.Sort == nil {
+		return false
+	}
+
+	_, sortByExpiry := (*opt.Sort).Get("expiry_date")
+
+	return sortByExpiry
+}
+
 func isExpired(message *message.Message) bool {
 	return !message.Timeless && (message.ExpiryDate.Before(dtime.Now()) || message.ExpiryDate.Equal(dtime.Now()))
 }
-- 
2.43.0


From e76a598267702d3f247fa8f485f5d26f76123eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:27 +0000
Subject: [PATCH 08/27] fix: memory storage data races between concurrent
 requests

---
 internal/queue/storage/memory_storage.go | 72 ++++++++++++++++--------
 1 file changed, 48 insertions(+), 24 deletions(-)

diff --git a/internal/queue/storage/memory_storage.go b/internal/queue/storage/memory_storage.go
index d099525..239daaa 100644
--- a/internal/queue/storage/memory_storage.go
+++ b/internal/queue/storage/memory_storage.go
@@ -39,6 +39,9 @@ func NewMemoryStorage(ctx context.Context) *MemoryStorage {
 }
 
 func (storage *MemoryStorage) ListQueueConfigurations(ctx context.Context) ([]*configuration.QueueConfiguration, error) {
+	storage.lock.RLock()
+	defer storage.lock.RUnlock()
+
 	configurations := make([]*configuration.QueueConfiguration, len(storage.configurations))
 
 	configurationIndex := 0
@@ -60,12 +63,17 @@ func (storage *MemoryStorage) EditQueueConfiguration(_ context.Context, configur
 		configuration.MaxElements = 0
 	}
 
+	storage.lock.Lock()
 	storage.configurations[configuration.Queue] = configuration
+	storage.lock.Unlock()
 
 	return nil
 }
 
 func (storage *MemoryStorage) GetQueueConfiguration(_ context.Context, queue string) (*configuration.QueueConfiguration, error) {
+	storage.lock.RLock()
+	defer storage.lock.RUnlock()
+
 	return storage.configurations[queue], nil
 }
 
@@ -97,19 +105,15 @@ func (storage *MemoryStorage) Insert(_ context.Context, messages ...*message.Mes
 
 		key := getKey(messages[i])
 
-		storage.lock.RLock()
-		_, present := storage.docs[key]
-		storage.lock.RUnlock()
-
 		storage.lock.Lock()
-		if present {
+		if stored, present := storage.docs[key]; present {
 			modified++
 
-			storage.docs[key].Description = messages[i].Description
-			storage.docs[key].ExpiryDate = messages[i].ExpiryDate
-			storage.docs[key].Metadata = messages[i].Metadata
-			storage.docs[key].Payload = messages[i].Payload
-			storage.docs[key].StringPayload = messages[i].StringPayload
+			stored.Description = messages[i].Description
+			stored.ExpiryDate = messages[i].ExpiryDate
+			stored.Metadata = messages[i].Metadata
+			stored.Payload = messages[i].Payload
+			stored.StringPayload = messages[i].StringPayload
 		} else {
 			inserted++
 
@@ -117,7 +121,7 @@ func (storage *MemoryStorage) Insert(_ context.Context, messages ...*message.Mes
 			messages[i].InternalId = storage.internalCounter
 			now := dtime.Now()
 			messages[i].LastUsage = &now
-			storage.docs[key] = messages[i]
+			storage.docs[key] = copyMessage(messages[i])
 		}
 
 		storage.lock.Unlock()
@@ -134,6 +138,30 @@ func (storage *MemoryStorage) GetStringInternalId(_ context.Context, message *me
 	return strconv.FormatInt(message.InternalId.(int64), 10)
 }
 
+// copyMessage copies a message so the stored value is not shared with callers, since it is changed by acks and nacks.
+func copyMessage(msg *message.Message) *message.Message {
+	result := *msg
+
+	if msg.Diagnostics != nil {
+		result.Diagnostics = &message.MessageDiagnostics{
+			Acks:             copyInt64(msg.Diagnostics.Acks),
+			Nacks:            copyInt64(msg.Diagnostics.Nacks),
+			ConsecutiveAcks:  copyInt64(msg.Diagnostics.ConsecutiveAcks),
+			ConsecutiveNacks: copyInt64(msg.Diagnostics.ConsecutiveNacks),
+		}
+	}
+
+	return &result
+}
+
+func copyInt64(value *int64) *int64 {
+	if value == nil {
+		return nil
+	}
+
+	return utils.Int64Ptr(*value)
+}
+
 func getKey(message *message.Message) string {
 	return message.Queue + ":" + message.ID
 }
@@ -142,6 +170,8 @@ func (storage *MemoryStorage) Count(_ context.Context, findOpts *FindOptions, _
 	count := int64(0)
 
 	storage.lock.RLock()
+	defer storage.lock.RUnlock()
+
 	for _, value := range storage.docs {
 		matches, err := messageMatchesFilter(value, findOpts)
 
@@ -153,7 +183,6 @@ func (storage *MemoryStorage) Count(_ context.Context, findOpts *FindOptions, _
 			count++
 		}
 	}
-	storage.lock.RUnlock()
 
 	return count, nil
 }
@@ -246,7 +275,7 @@ func (storage *MemoryStorage) Find(_ context.Context, opt *FindOptions) ([]messa
 		}
 
 		if matches {
-			messages = append(messages, *storage.docs[k])
+			messages = append(messages, *copyMessage(storage.docs[k]))
 		}
 	}
 
@@ -339,15 +368,14 @@ func (storage *MemoryStorage) Remove(_ context.Context, queue string, ids ...str
 }
 
 func (storage *MemoryStorage) Ack(_ context.Context, msg *message.Message) (modifiedCount int64, err error) {
-	storage.lock.RLock()
-	value, contains := storage.docs[getKey(msg)]
-	storage.lock.RUnlock()
+	storage.lock.Lock()
+	defer storage.lock.Unlock()
 
+	value, contains := storage.docs[getKey(msg)]
 	if !contains {
 		return 0, nil
 	}
 
-	storage.lock.Lock()
 	value.TotalScoreSubtract += msg.LastScoreSubtract
 	value.UsageCount += 1
 	value.LastUsage = msg.LastUsage
@@ -362,21 +390,18 @@ func (storage *MemoryStorage) Ack(_ context.Context, msg *message.Message) (modi
 	*value.Diagnostics.ConsecutiveAcks = *value.Diagnostics.ConsecutiveAcks + 1
 	*value.Diagnostics.ConsecutiveNacks = 0
 
-	storage.lock.Unlock()
-
 	return 1, nil
 }
 
 func (storage *MemoryStorage) Nack(_ context.Context, msg *message.Message) (modifiedCount int64, err error) {
-	storage.lock.RLock()
-	value, contains := storage.docs[getKey(msg)]
-	storage.lock.RUnlock()
+	storage.lock.Lock()
+	defer storage.lock.Unlock()
 
+	value, contains := storage.docs[getKey(msg)]
 	if !contains {
 		return 0, nil
 	}
 
-	storage.lock.Lock()
 	value.Score = msg.Score
 	value.LockMs = msg.LockMs
 
@@ -385,7 +410,6 @@ func (storage *MemoryStorage) Nack(_ context.Context, msg *message.Message) (mod
 	*value.Diagnostics.Nacks = *value.Diagnostics.Nacks + 1
 	*value.Diagnostics.ConsecutiveNacks = *value.Diagnostics.ConsecutiveNacks + 1
 	*value.Diagnostics.ConsecutiveAcks = 0
-	storage.lock.Unlock()
 
 	return 1, nil
 }
-- 
2.43.0


From 6290195f3798d9c8d4f946e919bacd6071f8db6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:30 +0000
Subject: [PATCH 09/27] fix: memory storage mixed up messages of different
 queues when names or ids contain a colon

---
 internal/queue/storage/memory_storage.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/queue/storage/memory_storage.go b/internal/queue/storage/memory_storage.go
index 239daaa..47f2ba3 100644
--- a/internal/queue/storage/memory_storage.go
+++ b/internal/queue/storage/memory_storage.go
@@ -163,7 +163,8 @@ func copyInt64(value *int64) *int64 {
 }
 
 func getKey(message *message.Message) string {
-	return message.Queue + ":" + message.ID
+	// The size of the queue name keeps keys unique, since both the queue and the id may contain the separator
+	return strconv.Itoa(len(message.Queue)) + ":" + message.Queue + ":" + message.ID
 }
 
 func (storage *MemoryStorage) Count(_ context.Context, findOpts *FindOptions, _ *CountOptions) (int64, error) {
-- 
2.43.0


From 9a3aa4f6670f82513608f85d775ce2cd3fe0c77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:02 +0000
Subject: [PATCH 10/27] fix: scores of acks and nacks were not limited to the
 accepted range

---
 internal/queue/score/score.go       | 17 ++++++++++++-----
 internal/service/deckard_service.go | 16 +++++-----------
 2 files changed, 17 insertions(+), 16 deletions(-)

diff --git a/internal/queue/score/score.go b/internal/queue/score/score.go
index 18f1242..f51c753 100644
--- a/internal/queue/score/score.go
+++ b/internal/queue/score/score.go
@@ -68,15 +68,22 @@ func GetAddScore(addRequestScore float64) float64 {
 		return GetScoreByDefaultAlgorithm()
 	}
 
-	if addRequestScore < Min {
-		return Min
-	}
+	return Cap(addRequestScore)
+}
 
-	if addRequestScore > Max {
+// Cap results in the score limited to the values accepted by Deckard.
+//
+// Negative scores and scores which are not a number are converted to the minimum score.
+func Cap(score float64) float64 {
+	if score > Max {
 		return Max
 	}
 
-	return addRequestScore
+	if score >= Min {
+		return score
+	}
+
+	return Min
 }
 
 // GetScoreByDefaultAlgorithm returns the score using the default algorithm.
diff --git a/internal/service/deckard_service.go b/internal/service/deckard_service.go
index 2b150dd..674d505 100644
--- a/internal/service/deckard_service.go
+++ b/internal/service/deckard_service.go
@@ -565,16 +565,10 @@ func (d *Deckard) Ack(ctx context.Context, request *deckard.AckRequest) (*deckar
 	// On unlock process the score is computed by the default algorithm if the score is not set
 	newScore := score.Undefined
 	if request.Score != 0 {
-		newScore = request.Score
+		newScore = score.Cap(request.Score)
 
-	} else if request.LockMs == 0 {
-		newScore = score.GetScoreByDefaultAlgorithm() - request.ScoreSubtract
-
-		if newScore < score.Min {
-			newScore = score.Min
-		} else if newScore > score.Max {
-			newScore = score.Max
-		}
+	} else if request.LockMs <= 0 {
+		newScore = score.Cap(score.GetScoreByDefaultAlgorithm() - request.ScoreSubtract)
 	}
 
 	now := dtime.Now()
@@ -614,9 +608,9 @@ func (d *Deckard) Nack(ctx context.Context, request *deckard.AckRequest) (*decka
 	// On unlock process the minimum score will be used if the score is not set
 	newScore := score.Undefined
 	if request.Score != 0 {
-		newScore = request.Score
+		newScore = score.Cap(request.Score)
 
-	} else if request.LockMs == 0 {
+	} else if request.LockMs <= 0 {
 		newScore = score.Min
 	}
 
-- 
2.43.0


From 86c0c9ac75ca115b2f553b99a23ac045d826e65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:42 +0000
Subject: [PATCH 11/27] fix: requested score of a nack without lock was ignored
 by the cache

---
 internal/queue/queue.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/queue/queue.go b/internal/queue/queue.go
index 9e54731..46be8cf 100644
--- a/internal/queue/queue.go
+++ b/internal/queue/queue.go
@@ -205,7 +205,9 @@ func (pool *Queue) Nack(ctx context.Context, msg *message.Message, timestamp tim
 		return result, nil
 	}
 
-	msg.Score = score.Min
+	if score.IsUndefined(msg.Score) {
+		msg.Score = score.Min
+	}
 
 	result, err := pool.cache.MakeAvailable(ctx, msg)
 
-- 
2.43.0


From 3bba502c2da03aef48679687cad79b1fdeaa5ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:01 +0000
Subject: [PATCH 12/27] fix: an error removing expired messages of a queue
 stopped the removal from other queues

---
 internal/queue/queue_housekeeper.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/queue/queue_housekeeper.go b/internal/queue/queue_housekeeper.go
index ca83a1c..3c7a5d5 100644
--- a/internal/queue/queue_housekeeper.go
+++ b/internal/queue/queue_housekeeper.go
@@ -317,6 +317,7 @@ func RemoveTTLMessages(ctx context.Context, pool *Queue, filterDate *time.Time)
 		messageMap[messages[i].Queue] = append(messageMap[messages[i].Queue], messages[i].ID)
 	}
 
+	var removeErr error
 	for queue := range messageMap {
 		if shutdown.Ongoing() {
 			logger.S(ctx).Info("Shutdown started. Stoping ttl elements removal.")
@@ -331,14 +332,17 @@ func RemoveTTLMessages(ctx context.Context, pool *Queue, filterDate *time.Time)
 		if err != nil {
 			logger.S(ctx).Errorf("Error removing %d elements from %s: %v", len(ids), queue, err)
 
-			return true, err
+			// Other queues must not be affected by the error
+			removeErr = err
+
+			continue
 		}
 
 		metrics.HousekeeperTTLCacheRemoved.Add(ctx, cacheRemoved, metric.WithAttributes(attribute.String("queue", message.GetQueuePrefix(queue))))
 		metrics.HousekeeperTTLStorageRemoved.Add(ctx, storageRemoved, metric.WithAttributes(attribute.String("queue", message.GetQueuePrefix(queue))))
 	}
 
-	return true, nil
+	return true, removeErr
 }
 
 // Checks if there is any queue with max_elements configuration and
-- 
2.43.0


From dc66fa3d33ff1f7efb3ca5219eabad3999250b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:04 +0000
Subject: [PATCH 13/27] fix: recovery could be left as running forever after an
 error, disabling expiration and max elements

---
 internal/queue/queue_housekeeper.go | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/internal/queue/queue_housekeeper.go b/internal/queue/queue_housekeeper.go
index 3c7a5d5..4cb0c15 100644
--- a/internal/queue/queue_housekeeper.go
+++ b/internal/queue/queue_housekeeper.go
@@ -223,10 +223,7 @@ func RecoveryMessagesPool(ctx context.Context, pool *Queue) (metrify bool) {
 	}
 
 	if len(messages) < 4000 {
-		logger.S(ctx).Info("Full recovery finished.")
-
-		_ = pool.cache.Set(ctx, cache.RECOVERY_RUNNING, "false")
-		_ = pool.cache.Set(ctx, cache.RECOVERY_STORAGE_BREAKPOINT_KEY, cache.RECOVERY_FINISHED)
+		finishRecovery(ctx, pool)
 	}
 
 	logger.S(ctx).Debugf("%d messages updated in %s with %s breakpoint.", len(messages), time.Since(t), breakpoint)
@@ -234,6 +231,26 @@ func RecoveryMessagesPool(ctx context.Context, pool *Queue) (metrify bool) {
 	return true
 }
 
+// finishRecovery marks the recovery as finished. If an error occurs the recovery will finish in its next execution.
+// The running status must be cleared first, no other execution would clear it after the recovery is finished.
+func finishRecovery(ctx context.Context, pool *Queue) {
+	err := pool.cache.Set(ctx, cache.RECOVERY_RUNNING, "false")
+	if err != nil {
+		logger.S(ctx).Error("Error to set full recovery status: ", err)
+
+		return
+	}
+
+	err = pool.cache.Set(ctx, cache.RECOVERY_STORAGE_BREAKPOINT_KEY, cache.RECOVERY_FINISHED)
+	if err != nil {
+		logger.S(ctx).Error("Error to set storage breakpoint: ", err)
+
+		return
+	}
+
+	logger.S(ctx).Info("Full recovery finished.")
+}
+
 func tryToStartRecovery(ctx context.Context, pool *Queue) bool {
 	logger.S(ctx).Info("Starting full cache recovery.")
 
@@ -265,8 +282,7 @@ func tryToStartRecovery(ctx context.Context, pool *Queue) bool {
 	if len(messages) == 0 {
 		logger.S(ctx).Info("Storage is empty. Finishing recovery.")
 
-		_ = pool.cache.Set(ctx, cache.RECOVERY_STORAGE_BREAKPOINT_KEY, cache.RECOVERY_FINISHED)
-		_ = pool.cache.Set(ctx, cache.RECOVERY_RUNNING, "false")
+		finishRecovery(ctx, pool)
 
 		return false
 	}
-- 
2.43.0


From 055b384a7eb3c9e8bfbc20f157349284b8cb2c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:37 +0000
Subject: [PATCH 14/27] fix: concurrent recoveries could leave the recovery
 status as running forever

---
 internal/queue/queue_housekeeper.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/queue/queue_housekeeper.go b/internal/queue/queue_housekeeper.go
index 4cb0c15..a1bb469 100644
--- a/internal/queue/queue_housekeeper.go
+++ b/internal/queue/queue_housekeeper.go
@@ -152,6 +152,11 @@ func RecoveryMessagesPool(ctx context.Context, pool *Queue) (metrify bool) {
 	}
 
 	if breakpoint == cache.RECOVERY_FINISHED {
+		// An execution that started while another one was finishing may have left its running status behind
+		if running, err := isRecovering(ctx, pool); err == nil && running {
+			_ = pool.cache.Set(ctx, cache.RECOVERY_RUNNING, "false")
+		}
+
 		return false
 	}
 
-- 
2.43.0


From 8fb77ca444470de259cdf13ffb254635b245dbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:55 +0000
Subject: [PATCH 15/27] fix: messages of a queue name refused by the cache were
 stored and blocked the recovery of every queue

---
 internal/queue/cache/redis_cache.go |  5 +++++
 internal/queue/queue.go             | 14 ++++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/internal/queue/cache/redis_cache.go b/internal/queue/cache/redis_cache.go
index 09a44b7..e7200b2 100644
--- a/internal/queue/cache/redis_cache.go
+++ b/internal/queue/cache/redis_cache.go
@@ -899,6 +899,11 @@ func (cache *RedisCache) generalCacheKey(key string) string {
 	return fmt.Sprint(cache.fullPrefix(), ":{", key, "}")
 }
 
+// ValidateQueueName checks if the cache is able to handle a queue with the provided name
+func (cache *RedisCache) ValidateQueueName(queue string) error {
+	return cache.validateQueueName(queue)
+}
+
 func (cache *RedisCache) validateQueueName(queue string) error {
 	// Braces are reserved even in standalone mode so existing queues remain
 	// migratable to Redis Cluster without ambiguous hash-tag parsing.
diff --git a/internal/queue/queue.go b/internal/queue/queue.go
index 46be8cf..b23a655 100644
--- a/internal/queue/queue.go
+++ b/internal/queue/queue.go
@@ -37,6 +37,11 @@ type DeckardQueue interface {
 	Flush(ctx context.Context) (bool, error)
 }
 
+// queueNameValidator is implemented by caches that do not support all queue names
+type queueNameValidator interface {
+	ValidateQueueName(queue string) error
+}
+
 type Queue struct {
 	storage                   storage.Storage
 	cache                     cache.Cache
@@ -104,6 +109,15 @@ func (pool *Queue) AddMessagesToStorage(ctx context.Context, messages ...*messag
 		}
 
 		queues[queueName] = true
+
+		// A stored message of a queue not supported by the cache would never be delivered and would block the recovery
+		if validator, ok := pool.cache.(queueNameValidator); ok {
+			if err := validator.ValidateQueueName(queueName); err != nil {
+				logger.S(ctx).Errorf("Invalid queue name %s: %v", queueName, err)
+
+				return 0, 0, fmt.Errorf("invalid queue name %s: %w", queueName, err)
+			}
+		}
 	}
 
 	insertions, updates, err := pool.storage.Insert(ctx, messages...)
-- 
2.43.0


From 3a786fcb1d1497d78e29914315648ac02db6972b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:19 +0000
Subject: [PATCH 16/27] fix: a queue configuration read during an edit kept the
 old value in the local cache and dropped later edits

---
 internal/queue/queue_configuration_service.go | 29 +++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/internal/queue/queue_configuration_service.go b/internal/queue/queue_configuration_service.go
index fe02e30..46638ee 100644
--- a/internal/queue/queue_configuration_service.go
+++ b/internal/queue/queue_configuration_service.go
@@ -2,6 +2,7 @@ package queue
 
 import (
 	"context"
+	"sync"
 	"time"
 
 	"github.com/patrickmn/go-cache"
@@ -17,6 +18,10 @@ type QueueConfigurationService interface {
 type DefaultQueueConfigurationService struct {
 	storage    storage.Storage
 	localCache *cache.Cache
+
+	// edits counts the edited configurations, to not keep in the local cache a configuration read before an edit
+	edits     int64
+	editsLock sync.Mutex
 }
 
 func NewQueueConfigurationService(_ context.Context, storage storage.Storage) *DefaultQueueConfigurationService {
@@ -42,6 +47,8 @@ func (queueService *DefaultQueueConfigurationService) EditQueueConfiguration(ctx
 	config, found := queueService.localCache.Get(cfg.Queue)
 
 	if !found {
+		defer queueService.invalidate(cfg.Queue)
+
 		return queueService.storage.EditQueueConfiguration(ctx, cfg)
 	}
 
@@ -49,7 +56,7 @@ func (queueService *DefaultQueueConfigurationService) EditQueueConfiguration(ctx
 
 	// Check if the new configuration is different
 	if cacheConfiguration.MaxElements != cfg.MaxElements {
-		defer queueService.localCache.Delete(cfg.Queue)
+		defer queueService.invalidate(cfg.Queue)
 
 		return queueService.storage.EditQueueConfiguration(ctx, cfg)
 	}
@@ -64,6 +71,10 @@ func (queueService *DefaultQueueConfigurationService) GetQueueConfiguration(ctx
 		return cacheConfig.(*configuration.QueueConfiguration), nil
 	}
 
+	queueService.editsLock.Lock()
+	edits := queueService.edits
+	queueService.editsLock.Unlock()
+
 	var err error
 	var config *configuration.QueueConfiguration
 
@@ -79,7 +90,21 @@ func (queueService *DefaultQueueConfigurationService) GetQueueConfiguration(ctx
 		}
 	}
 
-	queueService.localCache.Set(queue, config, cache.DefaultExpiration)
+	queueService.editsLock.Lock()
+	defer queueService.editsLock.Unlock()
+
+	if queueService.edits == edits {
+		queueService.localCache.Set(queue, config, cache.DefaultExpiration)
+	}
 
 	return config, nil
 }
+
+// invalidate removes the configuration of a queue from the local cache after it has been edited
+func (queueService *DefaultQueueConfigurationService) invalidate(queue string) {
+	queueService.editsLock.Lock()
+	defer queueService.editsLock.Unlock()
+
+	queueService.edits++
+	queueService.localCache.Delete(queue)
+}
-- 
2.43.0


From 62f222921fb246c47e6047de43ff0284bd66c277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:22 +0000
Subject: [PATCH 17/27] fix: flush kept queue configurations in the local cache

---
 internal/queue/queue.go                       | 10 ++++++++++
 internal/queue/queue_configuration_service.go |  9 +++++++++
 2 files changed, 19 insertions(+)

diff --git a/internal/queue/queue.go b/internal/queue/queue.go
index b23a655..85fbd67 100644
--- a/internal/queue/queue.go
+++ b/internal/queue/queue.go
@@ -42,6 +42,11 @@ type queueNameValidator interface {
 	ValidateQueueName(queue string) error
 }
 
+// configurationFlusher is implemented by configuration services that keep configurations of the storage
+type configurationFlusher interface {
+	Flush()
+}
+
 type Queue struct {
 	storage                   storage.Storage
 	cache                     cache.Cache
@@ -458,6 +463,11 @@ func (pool *Queue) Flush(ctx context.Context) (bool, error) {
 		return false, err
 	}
 
+	// Configurations were flushed from storage
+	if flusher, ok := pool.QueueConfigurationService.(configurationFlusher); ok {
+		flusher.Flush()
+	}
+
 	return true, err
 }
 
diff --git a/internal/queue/queue_configuration_service.go b/internal/queue/queue_configuration_service.go
index 46638ee..4b8e70e 100644
--- a/internal/queue/queue_configuration_service.go
+++ b/internal/queue/queue_configuration_service.go
@@ -108,3 +108,12 @@ func (queueService *DefaultQueueConfigurationService) invalidate(queue string) {
 	queueService.edits++
 	queueService.localCache.Delete(queue)
 }
+
+// Flush removes all configurations from the local cache
+func (queueService *DefaultQueueConfigurationService) Flush() {
+	queueService.editsLock.Lock()
+	defer queueService.editsLock.Unlock()
+
+	queueService.edits++
+	queueService.localCache.Flush()
+}
-- 
2.43.0


From b4692abc6f602361eb5152c679d6c251040a4ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:10 +0000
Subject: [PATCH 18/27] fix: a pull looks up missing messages on the primary
 only

With no primary at hand the second look-up of a pull fell back to a secondary,
which may lag behind, and the messages it did not know were dropped from the cache.
---
 internal/queue/storage/mongo_storage.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/queue/storage/mongo_storage.go b/internal/queue/storage/mongo_storage.go
index 6c06a87..b63b35d 100644
--- a/internal/queue/storage/mongo_storage.go
+++ b/internal/queue/storage/mongo_storage.go
@@ -89,7 +89,7 @@ func NewMongoStorage(ctx context.Context) (*MongoStorage, error) {
 		client:                        clientSecondaryPreference,
 		clientPrimaryPreference:       clientPrimaryPreference,
 		messagesCollection:            clientSecondaryPreference.Database(database).Collection(queueCollection),
-		messagesCollectionPrimaryRead: clientPrimaryPreference.Database(database).Collection(queueCollection),
+		messagesCollectionPrimaryRead: clientPrimaryPreference.Database(database).Collection(queueCollection, options.Collection().SetReadPreference(readpref.Primary())),
 		queueConfigurationCollection:  clientSecondaryPreference.Database(database).Collection(queueConfigurationCollection),
 	}, nil
 }
-- 
2.43.0


From 6c51a2987cbbc0bd685c886fb2b29f1e971d2be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:19 +0000
Subject: [PATCH 19/27] fix: recovery and expiry read from the primary

Reads of a lagging secondary made the recovery skip messages for good and
let the expiry remove messages whose time to live had been extended.
---
 internal/queue/storage/mongo_storage.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/internal/queue/storage/mongo_storage.go b/internal/queue/storage/mongo_storage.go
index b63b35d..7ef158f 100644
--- a/internal/queue/storage/mongo_storage.go
+++ b/internal/queue/storage/mongo_storage.go
@@ -387,7 +387,7 @@ func (storage *MongoStorage) Find(ctx context.Context, opt *FindOptions) ([]mess
 	}()
 
 	collection := storage.messagesCollection
-	if opt.Retry {
+	if requiresPrimaryRead(opt) {
 		collection = storage.messagesCollectionPrimaryRead
 	}
 
@@ -407,6 +407,25 @@ func (storage *MongoStorage) Find(ctx context.Context, opt *FindOptions) ([]mess
 	return messages, nil
 }
 
+// requiresPrimaryRead tells whether a read must not miss the latest writes: the second look-up of a pull, the reads
+// of the recovery (ordered by internal id), which never come back to a message they missed, and the search for
+// expired messages, which removes whatever it finds.
+func requiresPrimaryRead(opt *FindOptions) bool {
+	if opt.Retry {
+		return true
+	}
+
+	if opt.InternalFilter != nil && opt.InternalFilter.ExpiryDate != nil {
+		return true
+	}
+
+	if opt.Sort == nil || opt.Sort.Front() == nil {
+		return false
+	}
+
+	return opt.Sort.Front().Key == "_id"
+}
+
 func (storage *MongoStorage) Remove(ctx context.Context, queue string, ids ...string) (deleted int64, err error) {
 	if len(ids) == 0 {
 		return 0, nil
-- 
2.43.0


From 56a624636969c571ecb36f493ca435047e1161c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:25 +0000
Subject: [PATCH 20/27] fix: maintenance tasks could start after the shutdown
 began

A task waiting for its lock or whose timer fired at the same time as the
shutdown was executed nevertheless, possibly with a canceled context or
without the shutdown waiting for it.
---
 internal/cmd/deckard/main.go  |  9 ++++++---
 internal/shutdown/shutdown.go | 21 +++++++++++++++++++++
 2 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/internal/cmd/deckard/main.go b/internal/cmd/deckard/main.go
index dde6b5c..41bdf6b 100644
--- a/internal/cmd/deckard/main.go
+++ b/internal/cmd/deckard/main.go
@@ -203,17 +203,20 @@ func scheduleTask(taskName string, lock *sync.Mutex, taskWaitGroup *sync.WaitGro
 	for {
 		select {
 		case <-time.After(duration):
-			taskWaitGroup.Add(1)
 			if lock != nil {
 				lock.Lock()
 			}
 
-			executeTask(taskName, fn)
+			// The shutdown may have started while waiting for the timer or the lock
+			if shutdown.BeginTask(taskWaitGroup) {
+				executeTask(taskName, fn)
+
+				taskWaitGroup.Done()
+			}
 
 			if lock != nil {
 				lock.Unlock()
 			}
-			taskWaitGroup.Done()
 		case <-shutdown.Started:
 			logger.S(ctx).Debug("Stopping ", taskName, " scheduler.")
 
diff --git a/internal/shutdown/shutdown.go b/internal/shutdown/shutdown.go
index e968499..61e7589 100644
--- a/internal/shutdown/shutdown.go
+++ b/internal/shutdown/shutdown.go
@@ -27,6 +27,9 @@ var CriticalWaitGroup *sync.WaitGroup
 // Shutdown will wait for this wait group to be done after canceling the context.
 var WaitGroup *sync.WaitGroup
 
+// Guards the start of tasks against the start of the shutdown
+var startMutex = &sync.Mutex{}
+
 func init() {
 	CancelChan = make(chan os.Signal, 1)
 	CriticalWaitGroup = &sync.WaitGroup{}
@@ -91,9 +94,27 @@ func Reset() {
 }
 
 func Start() {
+	startMutex.Lock()
+	defer startMutex.Unlock()
+
 	close(Started)
 }
 
+// BeginTask adds a task to the wait group if the shutdown has not started yet.
+// It returns false, without changing the wait group, if the task must not be executed anymore.
+func BeginTask(waitGroup *sync.WaitGroup) bool {
+	startMutex.Lock()
+	defer startMutex.Unlock()
+
+	if Ongoing() {
+		return false
+	}
+
+	waitGroup.Add(1)
+
+	return true
+}
+
 func Finish() {
 	close(Finished)
 }
-- 
2.43.0


From 7859c97600f4efa7228e6a8b25db86837efffd68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:53 +0000
Subject: [PATCH 21/27] fix: the audit of a shutdown was lost or ended the
 process with a panic

The sender closed the channel of the entries as soon as the context was
canceled: tasks still running panicked when they stored an entry, and the
entries still in the channel were not sent.
---
 internal/audit/audit.go      | 20 +++++++++++++++++++-
 internal/cmd/deckard/main.go | 17 +++++++++++++++--
 2 files changed, 34 insertions(+), 3 deletions(-)

diff --git a/internal/audit/audit.go b/internal/audit/audit.go
index 1263d61..7c5ded1 100644
--- a/internal/audit/audit.go
+++ b/internal/audit/audit.go
@@ -132,8 +132,26 @@ func (a *AuditorImpl) StartSender(ctx context.Context) {
 		case <-ctx.Done():
 			zap.S().Info("Sending remaining audit data.")
 
-			close(a.entries)
+			a.sendRemaining(ctx, entriesToSend)
 
+			return
+		}
+	}
+}
+
+// sendRemaining sends the given entries and everything which is still waiting to be sent.
+// The channel must not be closed since there may be someone still storing entries.
+func (a *AuditorImpl) sendRemaining(ctx context.Context, entriesToSend []Entry) {
+	for {
+		select {
+		case entry := <-a.entries:
+			entriesToSend = append(entriesToSend, entry)
+			if len(entriesToSend) >= maxEntriesSize {
+				a.send(ctx, entriesToSend...)
+
+				entriesToSend = make([]Entry, 0, maxEntriesSize)
+			}
+		default:
 			a.send(ctx, entriesToSend...)
 
 			return
diff --git a/internal/cmd/deckard/main.go b/internal/cmd/deckard/main.go
index 41bdf6b..9af5933 100644
--- a/internal/cmd/deckard/main.go
+++ b/internal/cmd/deckard/main.go
@@ -81,12 +81,22 @@ func main() {
 		}
 	}()
 
-	auditor, err := audit.NewAuditor(shutdown.WaitGroup)
+	// The audit sender is the last one to stop, it must send the entries of everything that runs until the end
+	auditCtx, stopAudit := context.WithCancel(context.Background())
+	auditWaitGroup := &sync.WaitGroup{}
+
+	auditor, err := audit.NewAuditor(auditWaitGroup)
 	if err != nil {
 		zap.S().Error("Error to create auditor: ", err)
 		panic(err)
 	}
-	go auditor.StartSender(ctx)
+
+	auditWaitGroup.Add(1)
+	go func() {
+		defer auditWaitGroup.Done()
+
+		auditor.StartSender(auditCtx)
+	}()
 
 	configurationService := queue.NewQueueConfigurationService(ctx, dataStorage)
 
@@ -107,6 +117,9 @@ func main() {
 	<-shutdown.CancelChan
 
 	shutdown.PerformShutdown(ctx, cancel, server)
+
+	stopAudit()
+	auditWaitGroup.Wait()
 }
 
 func isMemoryInstance() bool {
-- 
2.43.0


From 05c8e1c0f7617f30916b76e142c7ececbf6a97de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:16 +0000
Subject: [PATCH 22/27] fix: audit entries could wait for much longer than the
 maximum send time

Every new entry restarted the timer of the sender, so that with a steady
trickle of entries they were only sent when a whole batch was complete.
---
 internal/audit/audit.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/internal/audit/audit.go b/internal/audit/audit.go
index 7c5ded1..56083ae 100644
--- a/internal/audit/audit.go
+++ b/internal/audit/audit.go
@@ -112,23 +112,30 @@ func (a *AuditorImpl) StartSender(ctx context.Context) {
 
 	entriesToSend := make([]Entry, 0, maxEntriesSize)
 
+	// Started by the first entry waiting to be sent
+	var sendTimer <-chan time.Time
+
 	for {
 		a.senderStarted = true
 
 		select {
 		case entry := <-a.entries:
+			if len(entriesToSend) == 0 {
+				sendTimer = time.After(maxSendTime)
+			}
+
 			entriesToSend = append(entriesToSend, entry)
 			if len(entriesToSend) == maxEntriesSize {
 				a.send(ctx, entriesToSend...)
 
 				entriesToSend = make([]Entry, 0, maxEntriesSize)
+				sendTimer = nil
 			}
-		case <-time.After(maxSendTime):
-			if len(entriesToSend) > 0 {
-				a.send(ctx, entriesToSend...)
+		case <-sendTimer:
+			a.send(ctx, entriesToSend...)
 
-				entriesToSend = make([]Entry, 0, maxEntriesSize)
-			}
+			entriesToSend = make([]Entry, 0, maxEntriesSize)
+			sendTimer = nil
 		case <-ctx.Done():
 			zap.S().Info("Sending remaining audit data.")
 
-- 
2.43.0


From ec89592296afee46c6b6055ffe26550342a60a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:16 +0000
Subject: [PATCH 23/27] fix: an audit sink that does not answer blocked
 requests and the shutdown

Batches were sent without a timeout. Once the buffer was full every request
and maintenance task storing an entry waited for the sink, and a shutdown
never ended.
---
 internal/audit/audit.go | 39 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/internal/audit/audit.go b/internal/audit/audit.go
index 56083ae..c43285e 100644
--- a/internal/audit/audit.go
+++ b/internal/audit/audit.go
@@ -11,6 +11,7 @@ import (
 	"io/ioutil"
 	"strings"
 	"sync"
+	"sync/atomic"
 	"time"
 
 	"github.com/takenet/deckard/internal/config"
@@ -31,6 +32,12 @@ const indexAction = "{ \"index\" : { \"_index\" : \"" + esIndex + "\"} }\n"
 var maxSendTime = time.Minute * 5
 var maxEntriesSize = 200
 
+// How long to wait for the answer to a batch of entries
+var sendTimeout = time.Second * 30
+
+// How long to wait for room in the buffer of a working audit
+var storeTimeout = time.Second
+
 type Entry struct {
 	ID                string    `json:"id"`
 	Queue             string    `json:"queue"`
@@ -54,6 +61,9 @@ type AuditorImpl struct {
 	waitGroup     *sync.WaitGroup
 	enabled       bool
 	senderStarted bool
+
+	// The last batch could not be sent
+	failing atomic.Bool
 }
 
 // NewAuditor returns a new auditor with a elastic search.
@@ -194,8 +204,14 @@ func (a *AuditorImpl) send(ctx context.Context, entries ...Entry) {
 
 	logger.S(ctx).Debugf("Sending %d entries to audit", len(entries))
 
+	// Not derived from ctx, which is already canceled when the remaining entries are sent
+	requestCtx, cancel := context.WithTimeout(context.Background(), sendTimeout)
+	defer cancel()
+
 	opt := a.api.Bulk
-	response, err := a.api.Bulk(strings.NewReader(body+"\n"), opt.WithRefresh("true"), opt.WithIndex(esIndex))
+	response, err := a.api.Bulk(strings.NewReader(body+"\n"), opt.WithContext(requestCtx), opt.WithRefresh("true"), opt.WithIndex(esIndex))
+
+	a.failing.Store(err != nil || response.IsError())
 
 	if err != nil {
 		logger.S(ctx).Error("Error sending audit data.", err)
@@ -231,5 +247,24 @@ func (a *AuditorImpl) Store(ctx context.Context, entry Entry) {
 		metrics.AuditorAddToStoreLatency.Record(ctx, dtime.ElapsedTime(entry.Timestamp))
 	}()
 
-	a.entries <- entry
+	select {
+	case a.entries <- entry:
+		return
+	default:
+	}
+
+	// The buffer is full. A working sender makes room quickly, but message traffic
+	// must not wait for an audit which does not work.
+	if !a.failing.Load() {
+		timer := time.NewTimer(storeTimeout)
+		defer timer.Stop()
+
+		select {
+		case a.entries <- entry:
+			return
+		case <-timer.C:
+		}
+	}
+
+	logger.S(ctx).Error("Audit buffer is full, discarding an entry of queue ", entry.Queue, ".")
 }
-- 
2.43.0


From d55aa269ac7c0cdb92681e4d7c946ee8a423ba99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:53 +0000
Subject: [PATCH 24/27] fix: a lock or an ack deadline too long for the clock
 was over at once

---
 internal/dtime/deckard_time.go       | 19 +++++++++++++++++++
 internal/queue/cache/memory_cache.go |  4 ++--
 internal/queue/cache/redis_cache.go  |  4 ++--
 3 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/internal/dtime/deckard_time.go b/internal/dtime/deckard_time.go
index 5f77a61..a50657c 100644
--- a/internal/dtime/deckard_time.go
+++ b/internal/dtime/deckard_time.go
@@ -63,6 +63,25 @@ func NowMs() int64 {
 	return TimeToMs(&t)
 }
 
+// The last time in milliseconds which is exact both as an integer and as the score of a cache
+const maxMs = int64(1) << 53
+
+// NowPlusMs returns the current time in milliseconds plus the given number of milliseconds.
+// A result which is too far away is limited to the last possible time.
+func NowPlusMs(ms int64) int64 {
+	now := NowMs()
+
+	if ms > maxMs-now {
+		return maxMs
+	}
+
+	if now+ms < 0 {
+		return 0
+	}
+
+	return now + ms
+}
+
 func MsPrecision(t *time.Time) time.Time {
 	return MsToTime(TimeToMs(t))
 }
diff --git a/internal/queue/cache/memory_cache.go b/internal/queue/cache/memory_cache.go
index 51d2fb7..98dded2 100644
--- a/internal/queue/cache/memory_cache.go
+++ b/internal/queue/cache/memory_cache.go
@@ -189,7 +189,7 @@ func (cache *MemoryCache) LockMessage(_ context.Context, message *message.Messag
 	cache.processingQueues[message.Queue], result = removeEntry(entry, cache.processingQueues[message.Queue])
 
 	if result {
-		entry.lockUntil = float64(dtime.NowMs() + message.LockMs)
+		entry.lockUntil = float64(dtime.NowPlusMs(message.LockMs))
 
 		switch lockType {
 		case LOCK_ACK:
@@ -281,7 +281,7 @@ func (cache *MemoryCache) PullMessages(ctx context.Context, queue string, n int6
 
 		processingEntry := &MemoryMessageEntry{
 			id:    entry.id,
-			score: float64(dtime.NowMs() + ackDeadlineMs),
+			score: float64(dtime.NowPlusMs(ackDeadlineMs)),
 		}
 
 		cache.processingQueues[queue], _ = insertEntry(processingEntry, cache.processingQueues[queue])
diff --git a/internal/queue/cache/redis_cache.go b/internal/queue/cache/redis_cache.go
index e7200b2..5b351bc 100644
--- a/internal/queue/cache/redis_cache.go
+++ b/internal/queue/cache/redis_cache.go
@@ -628,7 +628,7 @@ func (cache *RedisCache) LockMessage(ctx context.Context, message *message.Messa
 		return false, errors.New("invalid lock time")
 	}
 
-	lockScore := dtime.NowMs() + message.LockMs
+	lockScore := dtime.NowPlusMs(message.LockMs)
 
 	execStart := dtime.Now()
 	defer func() {
@@ -693,7 +693,7 @@ func (cache *RedisCache) PullMessages(ctx context.Context, queue string, n int64
 		ackDeadlineMs = DefaultTimeoutMs
 	}
 
-	newScore := dtime.TimeToMs(&now) + ackDeadlineMs
+	newScore := dtime.NowPlusMs(ackDeadlineMs)
 
 	args := []any{
 		n, newScore,
-- 
2.43.0


From dea9a23423126166e506d25f4d56b6be8e58eb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:03 +0000
Subject: [PATCH 25/27] fix: a very long time to live overflowed and the
 message was expired at once

---
 internal/service/deckard_service.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/internal/service/deckard_service.go b/internal/service/deckard_service.go
index 674d505..04a68ef 100644
--- a/internal/service/deckard_service.go
+++ b/internal/service/deckard_service.go
@@ -312,6 +312,20 @@ func (d *Deckard) Count(ctx context.Context, request *deckard.CountRequest) (*de
 	}, nil
 }
 
+// The longest time to live of a message: 100 years
+const maxTtlMinutes = int64(100 * 365 * 24 * 60)
+
+// ttlDuration converts the time to live of a request, limited to what is possible to add to a date
+func ttlDuration(minutes int64) time.Duration {
+	if minutes > maxTtlMinutes {
+		minutes = maxTtlMinutes
+	} else if minutes < -maxTtlMinutes {
+		minutes = -maxTtlMinutes
+	}
+
+	return time.Minute * time.Duration(minutes)
+}
+
 func (d *Deckard) Add(ctx context.Context, request *deckard.AddRequest) (*deckard.AddResponse, error) {
 	messages := make([]*message.Message, len(request.Messages))
 
@@ -322,7 +336,7 @@ func (d *Deckard) Add(ctx context.Context, request *deckard.AddRequest) (*deckar
 		t := dtime.Now()
 
 		if m.TtlMinutes != 0 {
-			t = t.Add(time.Minute * time.Duration(m.TtlMinutes))
+			t = t.Add(ttlDuration(m.TtlMinutes))
 		}
 
 		if m.Timeless {
-- 
2.43.0


From b4af34ace904829749371c17cd9bc3fb03662cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:15 +0000
Subject: [PATCH 26/27] fix: an ack whose score subtract is not a finite number
 was never audited

---
 internal/audit/audit.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/internal/audit/audit.go b/internal/audit/audit.go
index c43285e..803b3f0 100644
--- a/internal/audit/audit.go
+++ b/internal/audit/audit.go
@@ -9,6 +9,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"io/ioutil"
+	"math"
 	"strings"
 	"sync"
 	"sync/atomic"
@@ -228,12 +229,22 @@ func (a *AuditorImpl) send(ctx context.Context, entries ...Entry) {
 	_ = response.Body.Close()
 }
 
+// finite returns the nearest number that JSON can represent.
+func finite(value float64) float64 {
+	if math.IsNaN(value) {
+		return 0
+	}
+
+	return math.Max(-math.MaxFloat64, math.Min(math.MaxFloat64, value))
+}
+
 func (a *AuditorImpl) Store(ctx context.Context, entry Entry) {
 	if !a.enabled {
 		return
 	}
 
 	entry.Timestamp = dtime.Now()
+	entry.LastScoreSubtract = finite(entry.LastScoreSubtract)
 
 	queuePrefix, queueSuffix := message.GetQueueParts(entry.Queue)
 
-- 
2.43.0


From c585fbafc0ccded349adca82691b9bdbcd527125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:50:02 +0000
Subject: [PATCH 27/27] fix: the size limit of a queue is enforced on what the
 primary stores

The pass read the configured limits, the number of messages and the ones to
remove with a preference for secondaries. One which lags still counts messages
which are gone, so messages of queues below their limit were removed.
---
 internal/queue/queue_housekeeper.go     |  7 +++++--
 internal/queue/storage/mongo_storage.go | 16 +++++++++++++---
 internal/queue/storage/storage.go       | 12 ++++++++++++
 3 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/internal/queue/queue_housekeeper.go b/internal/queue/queue_housekeeper.go
index a1bb469..30ee6c4 100644
--- a/internal/queue/queue_housekeeper.go
+++ b/internal/queue/queue_housekeeper.go
@@ -402,8 +402,11 @@ func (pool *Queue) removeExceedingMessagesFromQueue(ctx context.Context, queueCo
 
 	queue := queueConfiguration.Queue
 
+	// A lagging replica could still count messages which are gone
+	readCtx := storage.WithPrimaryRead(ctx)
+
 	comment := "housekeeper.removeExceedingMessagesFromQueue_1"
-	total, err := pool.storage.Count(ctx, &storage.FindOptions{InternalFilter: &storage.InternalFilter{Queue: queue}, Comment: comment},
+	total, err := pool.storage.Count(readCtx, &storage.FindOptions{InternalFilter: &storage.InternalFilter{Queue: queue}, Comment: comment},
 		&storage.CountOptions{Comment: comment})
 
 	if err != nil {
@@ -424,7 +427,7 @@ func (pool *Queue) removeExceedingMessagesFromQueue(ctx context.Context, queueCo
 	sort.Set("expiry_date", 1)
 
 	comment = "housekeeper.removeExceedingMessagesFromQueue_2"
-	messages, err := pool.storage.Find(ctx, &storage.FindOptions{
+	messages, err := pool.storage.Find(readCtx, &storage.FindOptions{
 		Limit: diff,
 		InternalFilter: &storage.InternalFilter{
 			Queue: queue,
diff --git a/internal/queue/storage/mongo_storage.go b/internal/queue/storage/mongo_storage.go
index 7ef158f..3bf1b80 100644
--- a/internal/queue/storage/mongo_storage.go
+++ b/internal/queue/storage/mongo_storage.go
@@ -47,6 +47,8 @@ type MongoStorage struct {
 	messagesCollection            MongoCollectionInterface
 	messagesCollectionPrimaryRead *mongo.Collection
 	queueConfigurationCollection  *mongo.Collection
+
+	queueConfigurationCollectionPrimaryRead *mongo.Collection
 }
 
 var _ Storage = &MongoStorage{}
@@ -91,6 +93,8 @@ func NewMongoStorage(ctx context.Context) (*MongoStorage, error) {
 		messagesCollection:            clientSecondaryPreference.Database(database).Collection(queueCollection),
 		messagesCollectionPrimaryRead: clientPrimaryPreference.Database(database).Collection(queueCollection, options.Collection().SetReadPreference(readpref.Primary())),
 		queueConfigurationCollection:  clientSecondaryPreference.Database(database).Collection(queueConfigurationCollection),
+
+		queueConfigurationCollectionPrimaryRead: clientPrimaryPreference.Database(database).Collection(queueConfigurationCollection, options.Collection().SetReadPreference(readpref.Primary())),
 	}, nil
 }
 
@@ -225,7 +229,8 @@ func (storage *MongoStorage) ListQueueConfigurations(ctx context.Context) ([]*co
 		metrics.StorageLatency.Record(ctx, dtime.ElapsedTime(now), metric.WithAttributes(attribute.String("op", "list_configuration")))
 	}()
 
-	cursor, err := storage.queueConfigurationCollection.Find(ctx, bson.M{})
+	// Messages are removed because of these configurations, so it must not see old ones.
+	cursor, err := storage.queueConfigurationCollectionPrimaryRead.Find(ctx, bson.M{})
 
 	if err != nil {
 		return nil, fmt.Errorf("error finding queue configurations: %w", err)
@@ -305,7 +310,12 @@ func (storage *MongoStorage) Count(ctx context.Context, findOpt *FindOptions, co
 
 	logger.S(ctx).Debugw("Storage operation: count operation.", "filter", mongoFilter)
 
-	result, err := storage.messagesCollection.CountDocuments(ctx, mongoFilter, options.Count().SetComment(countOpt.Comment))
+	collection := storage.messagesCollection
+	if isPrimaryRead(ctx) {
+		collection = storage.messagesCollectionPrimaryRead
+	}
+
+	result, err := collection.CountDocuments(ctx, mongoFilter, options.Count().SetComment(countOpt.Comment))
 
 	if err != nil {
 		return 0, fmt.Errorf("error counting elements in storage: %w", err)
@@ -387,7 +397,7 @@ func (storage *MongoStorage) Find(ctx context.Context, opt *FindOptions) ([]mess
 	}()
 
 	collection := storage.messagesCollection
-	if requiresPrimaryRead(opt) {
+	if isPrimaryRead(ctx) || requiresPrimaryRead(opt) {
 		collection = storage.messagesCollectionPrimaryRead
 	}
 
diff --git a/internal/queue/storage/storage.go b/internal/queue/storage/storage.go
index b4a111b..150c408 100644
--- a/internal/queue/storage/storage.go
+++ b/internal/queue/storage/storage.go
@@ -47,6 +47,18 @@ type Storage interface {
 	Close(ctx context.Context) error
 }
 
+type primaryReadKey struct{}
+
+// WithPrimaryRead returns a context whose reads must see the latest writes, because what they find decides what is
+// removed. A storage without replicas may ignore it.
+func WithPrimaryRead(ctx context.Context) context.Context {
+	return context.WithValue(ctx, primaryReadKey{}, true)
+}
+
+func isPrimaryRead(ctx context.Context) bool {
+	return ctx.Value(primaryReadKey{}) != nil
+}
+
 type InternalFilter struct {
 	InternalIdBreakpointGt  string
 	InternalIdBreakpointLte string
-- 
2.43.0

