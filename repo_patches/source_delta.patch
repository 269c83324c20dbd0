From ac97db6164872d0823028a9a6be394c1bf27aa37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:45 +0000
Subject: [PATCH 01/22] fix: keep every score handed to storage and cache in
 range

A not-a-number score was accepted by add requests, ack and nack requests did
not cap the score they were given, and a negative lock time left the score
undefined for a message that is not locked.
---
 internal/queue/score/score.go       | 17 ++++++++++++-----
 internal/service/deckard_service.go | 16 +++++-----------
 2 files changed, 17 insertions(+), 16 deletions(-)

diff --git a/internal/queue/score/score.go b/internal/queue/score/score.go
index 18f1242..345c7e5 100644
--- a/internal/queue/score/score.go
+++ b/internal/queue/score/score.go
@@ -68,15 +68,22 @@ func GetAddScore(addRequestScore float64) float64 {
 		return GetScoreByDefaultAlgorithm()
 	}
 
-	if addRequestScore < Min {
-		return Min
-	}
+	return Cap(addRequestScore)
+}
 
-	if addRequestScore > Max {
+// Cap limits a score to the range accepted by Deckard, from Min to Max.
+//
+// A score that is not a number is converted to Min.
+func Cap(score float64) float64 {
+	if score > Max {
 		return Max
 	}
 
-	return addRequestScore
+	if score >= Min {
+		return score
+	}
+
+	return Min
 }
 
 // GetScoreByDefaultAlgorithm returns the score using the default algorithm.
diff --git a/internal/service/deckard_service.go b/internal/service/deckard_service.go
index 2b150dd..674d505 100644
--- a/internal/service/deckard_service.go
+++ b/internal/service/deckard_service.go
@@ -565,16 +565,10 @@ func (d *Deckard) Ack(ctx context.Context, request *deckard.AckRequest) (*deckar
 	// On unlock process the score is computed by the default algorithm if the score is not set
 	newScore := score.Undefined
 	if request.Score != 0 {
-		newScore = request.Score
+		newScore = score.Cap(request.Score)
 
-	} else if request.LockMs == 0 {
-		newScore = score.GetScoreByDefaultAlgorithm() - request.ScoreSubtract
-
-		if newScore < score.Min {
-			newScore = score.Min
-		} else if newScore > score.Max {
-			newScore = score.Max
-		}
+	} else if request.LockMs <= 0 {
+		newScore = score.Cap(score.GetScoreByDefaultAlgorithm() - request.ScoreSubtract)
 	}
 
 	now := dtime.Now()
@@ -614,9 +608,9 @@ func (d *Deckard) Nack(ctx context.Context, request *deckard.AckRequest) (*decka
 	// On unlock process the minimum score will be used if the score is not set
 	newScore := score.Undefined
 	if request.Score != 0 {
-		newScore = request.Score
+		newScore = score.Cap(request.Score)
 
-	} else if request.LockMs == 0 {
+	} else if request.LockMs <= 0 {
 		newScore = score.Min
 	}
 
-- 
2.43.0


From 5db6406aedd761fa184e6fd8ab26447eff2b1910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:03 +0000
Subject: [PATCH 02/22] fix: keep the score provided by a nack request

---
 internal/queue/queue.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/queue/queue.go b/internal/queue/queue.go
index 9e54731..46be8cf 100644
--- a/internal/queue/queue.go
+++ b/internal/queue/queue.go
@@ -205,7 +205,9 @@ func (pool *Queue) Nack(ctx context.Context, msg *message.Message, timestamp tim
 		return result, nil
 	}
 
-	msg.Score = score.Min
+	if score.IsUndefined(msg.Score) {
+		msg.Score = score.Min
+	}
 
 	result, err := pool.cache.MakeAvailable(ctx, msg)
 
-- 
2.43.0


From 5f61c360d23be8bd83a9eae476e5ff75be26645a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:18 +0000
Subject: [PATCH 03/22] fix: return the description of pulled messages and the
 diagnostics of a message read by id

---
 internal/service/deckard_service.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/service/deckard_service.go b/internal/service/deckard_service.go
index 674d505..9d6d40f 100644
--- a/internal/service/deckard_service.go
+++ b/internal/service/deckard_service.go
@@ -427,6 +427,7 @@ func (d *Deckard) Pull(ctx context.Context, request *deckard.PullRequest) (*deck
 	for _, q := range *messages {
 		message := deckard.Message{
 			Id:            q.ID,
+			Description:   q.Description,
 			Queue:         q.Queue,
 			Score:         q.Score,
 			Breakpoint:    q.Breakpoint,
@@ -535,6 +536,10 @@ func (d *Deckard) GetById(ctx context.Context, request *deckard.GetByIdRequest)
 		Metadata:      message.Metadata,
 	}
 
+	if message.Diagnostics != nil {
+		result.Diagnostics = getMessageDiagnostic(message.Diagnostics)
+	}
+
 	return &deckard.GetByIdResponse{
 		Message:              result,
 		Found:                true,
-- 
2.43.0


From 2078de4a1fc299001389e527d443783aad61567f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:25 +0000
Subject: [PATCH 04/22] fix: never finish the cache recovery while it is still
 marked as running

---
 internal/queue/queue_housekeeper.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/internal/queue/queue_housekeeper.go b/internal/queue/queue_housekeeper.go
index ca83a1c..b6f9bcd 100644
--- a/internal/queue/queue_housekeeper.go
+++ b/internal/queue/queue_housekeeper.go
@@ -225,8 +225,7 @@ func RecoveryMessagesPool(ctx context.Context, pool *Queue) (metrify bool) {
 	if len(messages) < 4000 {
 		logger.S(ctx).Info("Full recovery finished.")
 
-		_ = pool.cache.Set(ctx, cache.RECOVERY_RUNNING, "false")
-		_ = pool.cache.Set(ctx, cache.RECOVERY_STORAGE_BREAKPOINT_KEY, cache.RECOVERY_FINISHED)
+		finishRecovery(ctx, pool)
 	}
 
 	logger.S(ctx).Debugf("%d messages updated in %s with %s breakpoint.", len(messages), time.Since(t), breakpoint)
@@ -265,8 +264,7 @@ func tryToStartRecovery(ctx context.Context, pool *Queue) bool {
 	if len(messages) == 0 {
 		logger.S(ctx).Info("Storage is empty. Finishing recovery.")
 
-		_ = pool.cache.Set(ctx, cache.RECOVERY_STORAGE_BREAKPOINT_KEY, cache.RECOVERY_FINISHED)
-		_ = pool.cache.Set(ctx, cache.RECOVERY_RUNNING, "false")
+		finishRecovery(ctx, pool)
 
 		return false
 	}
@@ -280,6 +278,20 @@ func tryToStartRecovery(ctx context.Context, pool *Queue) bool {
 	return true
 }
 
+// finishRecovery marks the recovery as finished only after it is no longer marked as running.
+// If it fails the recovery will be finished by its next execution.
+func finishRecovery(ctx context.Context, pool *Queue) {
+	err := pool.cache.Set(ctx, cache.RECOVERY_RUNNING, "false")
+
+	if err != nil {
+		logger.S(ctx).Error("Error to set full recovery status: ", err)
+
+		return
+	}
+
+	_ = pool.cache.Set(ctx, cache.RECOVERY_STORAGE_BREAKPOINT_KEY, cache.RECOVERY_FINISHED)
+}
+
 // Remove 10000 expired elements ordered by expiration date asc for each queue.
 func RemoveTTLMessages(ctx context.Context, pool *Queue, filterDate *time.Time) (bool, error) {
 	if isRecovering, err := isRecovering(ctx, pool); isRecovering || err != nil {
-- 
2.43.0


From 8ab0190ba2a1af29479e6c27d28f4d2e6bdbc95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:27 +0000
Subject: [PATCH 05/22] fix: count only messages missing from both storage
 reads as not found

---
 internal/queue/queue.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/queue/queue.go b/internal/queue/queue.go
index 46be8cf..0e6e88c 100644
--- a/internal/queue/queue.go
+++ b/internal/queue/queue.go
@@ -350,7 +350,7 @@ func (pool *Queue) Pull(ctx context.Context, queue string, n int64, minScore *fl
 	}
 
 	if len(retryNotFound) > 0 {
-		metrics.QueueNotFoundInStorage.Add(ctx, int64(len(notFound)), metric.WithAttributes(attribute.String("queue", message.GetQueuePrefix(queue))))
+		metrics.QueueNotFoundInStorage.Add(ctx, int64(len(retryNotFound)), metric.WithAttributes(attribute.String("queue", message.GetQueuePrefix(queue))))
 
 		for _, id := range retryNotFound {
 			pool.auditor.Store(ctx, audit.Entry{
-- 
2.43.0


From da797c308357f093709038ad855cd5ee177e6830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:52 +0000
Subject: [PATCH 06/22] fix: unlock every due message of the requested queue
 and of no other in the memory cache

---
 internal/queue/cache/memory_cache.go | 32 ++++++++++++++++------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/internal/queue/cache/memory_cache.go b/internal/queue/cache/memory_cache.go
index f9d0135..07d2021 100644
--- a/internal/queue/cache/memory_cache.go
+++ b/internal/queue/cache/memory_cache.go
@@ -220,28 +220,32 @@ func (cache *MemoryCache) UnlockMessages(ctx context.Context, queue string, lock
 	nowMs := dtime.NowMs()
 
 	unlockedMessages := make([]string, 0)
-	for queue := range data {
-		list := data[queue]
 
-		if list == nil {
-			continue
-		}
+	list := data[queue]
 
-		for e := list.Front(); e != nil; e = e.Next() {
-			value := e.Value.(*MemoryMessageEntry)
+	if list == nil {
+		return unlockedMessages, nil
+	}
 
-			if nowMs >= int64(value.lockUntil) {
-				list.Remove(e)
+	for e := list.Front(); e != nil; {
+		// the element is unlinked from its neighbors if it is removed
+		next := e.Next()
 
-				if score.IsUndefined(value.score) {
-					value.score = defaultScore
-				}
+		value := e.Value.(*MemoryMessageEntry)
 
-				cache.queues[queue], _ = insertEntry(value, cache.queues[queue])
+		if nowMs >= int64(value.lockUntil) {
+			list.Remove(e)
 
-				unlockedMessages = append(unlockedMessages, value.id)
+			if score.IsUndefined(value.score) {
+				value.score = defaultScore
 			}
+
+			cache.queues[queue], _ = insertEntry(value, cache.queues[queue])
+
+			unlockedMessages = append(unlockedMessages, value.id)
 		}
+
+		e = next
 	}
 
 	return unlockedMessages, nil
-- 
2.43.0


From 006602deeb289c67973a08e83165c664999cfacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:52 +0000
Subject: [PATCH 07/22] fix: time out every due message of a queue at once in
 the memory cache

---
 internal/queue/cache/memory_cache.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/queue/cache/memory_cache.go b/internal/queue/cache/memory_cache.go
index 07d2021..69f2ef9 100644
--- a/internal/queue/cache/memory_cache.go
+++ b/internal/queue/cache/memory_cache.go
@@ -311,7 +311,10 @@ func (cache *MemoryCache) TimeoutMessages(_ context.Context, queue string) (ids
 	count := int64(0)
 
 	result := make([]string, 0)
-	for e := cache.processingQueues[queue].Front(); e != nil; e = e.Next() {
+	for e := cache.processingQueues[queue].Front(); e != nil; {
+		// the element is unlinked from its neighbors if it is removed
+		next := e.Next()
+
 		value := e.Value.(*MemoryMessageEntry)
 
 		if value.score <= float64(timeoutTime) {
@@ -323,6 +326,8 @@ func (cache *MemoryCache) TimeoutMessages(_ context.Context, queue string) (ids
 			cache.processingQueues[queue], _ = removeEntry(value, cache.processingQueues[queue])
 			cache.queues[queue], _ = insertEntry(value, cache.queues[queue])
 		}
+
+		e = next
 	}
 
 	return result, nil
-- 
2.43.0


From cd0a4d68986748095569e2a0f303bfe217767fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:52 +0000
Subject: [PATCH 08/22] fix: keep the processing deadline of the memory cache
 in milliseconds

---
 internal/queue/cache/memory_cache.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/queue/cache/memory_cache.go b/internal/queue/cache/memory_cache.go
index 69f2ef9..821cc2c 100644
--- a/internal/queue/cache/memory_cache.go
+++ b/internal/queue/cache/memory_cache.go
@@ -283,7 +283,7 @@ func (cache *MemoryCache) PullMessages(ctx context.Context, queue string, n int6
 
 		processingEntry := &MemoryMessageEntry{
 			id:    entry.id,
-			score: float64(dtime.Now().Unix() + ackDeadlineMs),
+			score: float64(dtime.NowMs() + ackDeadlineMs),
 		}
 
 		cache.processingQueues[queue], _ = insertEntry(processingEntry, cache.processingQueues[queue])
@@ -306,7 +306,7 @@ func (cache *MemoryCache) TimeoutMessages(_ context.Context, queue string) (ids
 		return nil, nil
 	}
 
-	timeoutTime := dtime.Now().Unix()
+	timeoutTime := dtime.NowMs()
 
 	count := int64(0)
 
-- 
2.43.0


From 9233b094d93755867a6e5ea243877619a151171f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:52 +0000
Subject: [PATCH 09/22] fix: do not count messages outside the score range as
 pulled in the memory cache

---
 internal/queue/cache/memory_cache.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/queue/cache/memory_cache.go b/internal/queue/cache/memory_cache.go
index 821cc2c..4703e4e 100644
--- a/internal/queue/cache/memory_cache.go
+++ b/internal/queue/cache/memory_cache.go
@@ -268,7 +268,7 @@ func (cache *MemoryCache) PullMessages(ctx context.Context, queue string, n int6
 	result := make([]string, 0, utils.MinInt64(n, total))
 
 	filteredOut := make([]*MemoryMessageEntry, 0)
-	for i := int64(0); i < n && i < total && cache.queues[queue].Len() != 0; i++ {
+	for i := int64(0); int64(len(result)) < n && i < total && cache.queues[queue].Len() != 0; i++ {
 		element := cache.queues[queue].Front()
 
 		entry := element.Value.(*MemoryMessageEntry)
-- 
2.43.0


From 52c3393d208f5cb046e6347b535f6996c70ab16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:12 +0000
Subject: [PATCH 10/22] fix: load the configuration before creating the metric
 instruments

---
 internal/metrics/metrics.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/metrics/metrics.go b/internal/metrics/metrics.go
index ce719df..7b38d1a 100644
--- a/internal/metrics/metrics.go
+++ b/internal/metrics/metrics.go
@@ -73,6 +73,9 @@ func panicInstrumentationError(err error) {
 }
 
 func init() {
+	// Instruments are created during package initialization, so their settings must be loaded by now
+	config.Configure()
+
 	registry = NewWrappedRegistry(prometheusclient.NewRegistry(), createDefaultMetrics()...)
 
 	var err error
-- 
2.43.0


From 204f2fafbbe5e442635a45c1f6d3cd9a8e00f781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:31 +0000
Subject: [PATCH 11/22] fix: refuse to start when only a server certificate or
 only a key is configured

---
 internal/service/deckard_service.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/service/deckard_service.go b/internal/service/deckard_service.go
index 9d6d40f..8e911fa 100644
--- a/internal/service/deckard_service.go
+++ b/internal/service/deckard_service.go
@@ -133,7 +133,8 @@ func loadTLSCredentials() (credentials.TransportCredentials, error) {
 	certPath := config.TlsServerCertFilePaths.Get()
 	keyPath := config.TlsServerKeyFilePaths.Get()
 
-	if certPath == "" || keyPath == "" {
+	// a missing half is refused below instead of serving without TLS
+	if certPath == "" && keyPath == "" {
 		return nil, nil
 	}
 
-- 
2.43.0


From b14763d4f794770615c9f25628fb3796076480bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:41 +0000
Subject: [PATCH 12/22] fix: keep the expiry date of messages with a very long
 time to live in the future

---
 internal/service/deckard_service.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/service/deckard_service.go b/internal/service/deckard_service.go
index 8e911fa..5d383f1 100644
--- a/internal/service/deckard_service.go
+++ b/internal/service/deckard_service.go
@@ -6,6 +6,7 @@ import (
 	"crypto/x509"
 	"fmt"
 	"io/ioutil"
+	"math"
 	"net"
 	"strings"
 	"time"
@@ -34,6 +35,9 @@ import (
 	"google.golang.org/protobuf/types/known/anypb"
 )
 
+// The longest time to live, in minutes, that can be represented as a duration
+const maxTtlMinutes = int64(math.MaxInt64 / time.Minute)
+
 type Deckard struct {
 	queue                     queue.DeckardQueue
 	queueConfigurationService queue.QueueConfigurationService
@@ -323,7 +327,10 @@ func (d *Deckard) Add(ctx context.Context, request *deckard.AddRequest) (*deckar
 		t := dtime.Now()
 
 		if m.TtlMinutes != 0 {
-			t = t.Add(time.Minute * time.Duration(m.TtlMinutes))
+			// a longer duration does not fit in a time.Duration
+			ttlMinutes := min(max(m.TtlMinutes, -maxTtlMinutes), maxTtlMinutes)
+
+			t = t.Add(time.Minute * time.Duration(ttlMinutes))
 		}
 
 		if m.Timeless {
-- 
2.43.0


From 308793dd2719d01c0720d0a6776691de98ad0500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:40 +0000
Subject: [PATCH 13/22] fix: report an unexpected Redis ping response as a
 failed connection

---
 internal/queue/cache/redis_cache.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/internal/queue/cache/redis_cache.go b/internal/queue/cache/redis_cache.go
index ab6e66a..d1d49a7 100644
--- a/internal/queue/cache/redis_cache.go
+++ b/internal/queue/cache/redis_cache.go
@@ -195,7 +195,11 @@ func waitForSingleNodeClient(ctx context.Context, options *redis.Options) (*redi
 		var pingResult string
 		pingResult, err = redisClient.Ping(ctx).Result()
 
-		if (err == nil && pingResult == "PONG") || !config.CacheConnectionRetryEnabled.GetBool() {
+		if err == nil && pingResult != "PONG" {
+			err = fmt.Errorf("unexpected redis ping response: %q", pingResult)
+		}
+
+		if err == nil || !config.CacheConnectionRetryEnabled.GetBool() {
 			break
 		}
 
@@ -240,7 +244,11 @@ func waitForClusterClient(ctx context.Context, options *redis.ClusterOptions) (*
 		var pingResult string
 		pingResult, err = clusterClient.Ping(ctx).Result()
 
-		if (err == nil && pingResult == "PONG") || !config.CacheConnectionRetryEnabled.GetBool() {
+		if err == nil && pingResult != "PONG" {
+			err = fmt.Errorf("unexpected redis ping response: %q", pingResult)
+		}
+
+		if err == nil || !config.CacheConnectionRetryEnabled.GetBool() {
 			break
 		}
 
-- 
2.43.0


From 36bfa23ac90c3b59f7b2c675c976202f8a0bf99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:15 +0000
Subject: [PATCH 14/22] fix: keep the installed tracer provider so that
 shutdown flushes its spans

---
 internal/trace/trace.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/trace/trace.go b/internal/trace/trace.go
index 67487d1..ea67678 100644
--- a/internal/trace/trace.go
+++ b/internal/trace/trace.go
@@ -32,7 +32,7 @@ func Init() error {
 		return err
 	}
 
-	tracerProvider := sdktrace.NewTracerProvider(
+	tracerProvider = sdktrace.NewTracerProvider(
 		sdktrace.WithBatcher(exporter),
 		sdktrace.WithResource(newResource()),
 	)
-- 
2.43.0


From 534508947daae16b786077d4269a63fd0ab52de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:28 +0000
Subject: [PATCH 15/22] fix: send queued audit entries at shutdown and refuse
 later ones instead of panicking

---
 internal/audit/audit.go | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/internal/audit/audit.go b/internal/audit/audit.go
index 1263d61..919a7e4 100644
--- a/internal/audit/audit.go
+++ b/internal/audit/audit.go
@@ -54,6 +54,10 @@ type AuditorImpl struct {
 	waitGroup     *sync.WaitGroup
 	enabled       bool
 	senderStarted bool
+
+	// Guards the entries channel, which is closed when the sender stops
+	entriesLock sync.RWMutex
+	stopped     bool
 }
 
 // NewAuditor returns a new auditor with a elastic search.
@@ -132,7 +136,17 @@ func (a *AuditorImpl) StartSender(ctx context.Context) {
 		case <-ctx.Done():
 			zap.S().Info("Sending remaining audit data.")
 
-			close(a.entries)
+			// The lock waits for ongoing stores, so the channel must be consumed meanwhile
+			go a.stopStoring()
+
+			for entry := range a.entries {
+				entriesToSend = append(entriesToSend, entry)
+				if len(entriesToSend) == maxEntriesSize {
+					a.send(ctx, entriesToSend...)
+
+					entriesToSend = make([]Entry, 0, maxEntriesSize)
+				}
+			}
 
 			a.send(ctx, entriesToSend...)
 
@@ -141,6 +155,16 @@ func (a *AuditorImpl) StartSender(ctx context.Context) {
 	}
 }
 
+// stopStoring makes the auditor refuse new entries.
+func (a *AuditorImpl) stopStoring() {
+	a.entriesLock.Lock()
+	defer a.entriesLock.Unlock()
+
+	a.stopped = true
+
+	close(a.entries)
+}
+
 func (a *AuditorImpl) send(ctx context.Context, entries ...Entry) {
 	if len(entries) == 0 {
 		return
@@ -206,5 +230,14 @@ func (a *AuditorImpl) Store(ctx context.Context, entry Entry) {
 		metrics.AuditorAddToStoreLatency.Record(ctx, dtime.ElapsedTime(entry.Timestamp))
 	}()
 
+	a.entriesLock.RLock()
+	defer a.entriesLock.RUnlock()
+
+	if a.stopped {
+		logger.S(ctx).Debug("Audit entry ignored because the auditor was stopped.")
+
+		return
+	}
+
 	a.entries <- entry
 }
-- 
2.43.0


From 35ac6925c29764cf3320a6d90825943af7924206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:28 +0000
Subject: [PATCH 16/22] fix: keep ack deadlines and lock times from wrapping
 around with huge durations

---
 internal/queue/cache/cache.go        | 15 +++++++++++++++
 internal/queue/cache/memory_cache.go |  4 ++--
 internal/queue/cache/redis_cache.go  |  4 ++--
 3 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/internal/queue/cache/cache.go b/internal/queue/cache/cache.go
index e28a3f7..1eb6e3e 100644
--- a/internal/queue/cache/cache.go
+++ b/internal/queue/cache/cache.go
@@ -9,6 +9,7 @@ import (
 
 	"github.com/takenet/deckard/internal/queue/message"
 	"github.com/takenet/deckard/internal/queue/pool"
+	"github.com/takenet/deckard/internal/queue/score"
 )
 
 type Type string
@@ -72,3 +73,17 @@ func CreateCache(ctx context.Context, cacheType Type) (Cache, error) {
 
 	return nil, errors.New("invalid cache type")
 }
+
+// deadlineMs returns the instant durationMs after nowMs, limited to the range of instants a score can represent
+// so that it doesn't wrap around to the past with a huge duration.
+func deadlineMs(nowMs int64, durationMs int64) int64 {
+	if durationMs > int64(score.Max)-nowMs {
+		return int64(score.Max)
+	}
+
+	if durationMs < int64(score.Min)-nowMs {
+		return int64(score.Min)
+	}
+
+	return nowMs + durationMs
+}
diff --git a/internal/queue/cache/memory_cache.go b/internal/queue/cache/memory_cache.go
index 4703e4e..f79eaad 100644
--- a/internal/queue/cache/memory_cache.go
+++ b/internal/queue/cache/memory_cache.go
@@ -189,7 +189,7 @@ func (cache *MemoryCache) LockMessage(_ context.Context, message *message.Messag
 	cache.processingQueues[message.Queue], result = removeEntry(entry, cache.processingQueues[message.Queue])
 
 	if result {
-		entry.lockUntil = float64(dtime.NowMs() + message.LockMs)
+		entry.lockUntil = float64(deadlineMs(dtime.NowMs(), message.LockMs))
 
 		switch lockType {
 		case LOCK_ACK:
@@ -283,7 +283,7 @@ func (cache *MemoryCache) PullMessages(ctx context.Context, queue string, n int6
 
 		processingEntry := &MemoryMessageEntry{
 			id:    entry.id,
-			score: float64(dtime.NowMs() + ackDeadlineMs),
+			score: float64(deadlineMs(dtime.NowMs(), ackDeadlineMs)),
 		}
 
 		cache.processingQueues[queue], _ = insertEntry(processingEntry, cache.processingQueues[queue])
diff --git a/internal/queue/cache/redis_cache.go b/internal/queue/cache/redis_cache.go
index d1d49a7..8bd3f2d 100644
--- a/internal/queue/cache/redis_cache.go
+++ b/internal/queue/cache/redis_cache.go
@@ -630,7 +630,7 @@ func (cache *RedisCache) LockMessage(ctx context.Context, message *message.Messa
 		return false, errors.New("invalid lock time")
 	}
 
-	lockScore := dtime.NowMs() + message.LockMs
+	lockScore := deadlineMs(dtime.NowMs(), message.LockMs)
 
 	execStart := dtime.Now()
 	defer func() {
@@ -695,7 +695,7 @@ func (cache *RedisCache) PullMessages(ctx context.Context, queue string, n int64
 		ackDeadlineMs = DefaultTimeoutMs
 	}
 
-	newScore := dtime.TimeToMs(&now) + ackDeadlineMs
+	newScore := deadlineMs(dtime.TimeToMs(&now), ackDeadlineMs)
 
 	args := []any{
 		n, newScore,
-- 
2.43.0


From dcee7ed1321aeaf16ce83f8b240940a86c5e6625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:56 +0000
Subject: [PATCH 17/22] fix: match the Redis key prefix literally when scanning
 keys

---
 internal/queue/cache/redis_cache.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/internal/queue/cache/redis_cache.go b/internal/queue/cache/redis_cache.go
index 8bd3f2d..bd35b46 100644
--- a/internal/queue/cache/redis_cache.go
+++ b/internal/queue/cache/redis_cache.go
@@ -67,6 +67,8 @@ var PROCESSING_POOL_REGEX = regexp.MustCompile("(.+)" + PROCESSING_POOL_SUFFIX +
 var LOCK_ACK_POOL_REGEX = regexp.MustCompile("(.+)" + LOCK_ACK_SUFFIX + "$")
 var LOCK_NACK_POOL_REGEX = regexp.MustCompile("(.+)" + LOCK_NACK_SUFFIX + "$")
 
+var globEscaper = strings.NewReplacer(`\`, `\\`, `*`, `\*`, `?`, `\?`, `[`, `\[`, `]`, `\]`)
+
 func NewRedisCache(ctx context.Context) (*RedisCache, error) {
 	clusterMode := config.RedisClusterMode.GetBool()
 
@@ -289,7 +291,7 @@ func (cache *RedisCache) Flush(ctx context.Context) {
 		metrics.CacheLatency.Record(ctx, dtime.ElapsedTime(now), metric.WithAttributes(attribute.String("op", "flush")))
 	}()
 
-	pattern := cache.fullPrefix() + ":*"
+	pattern := cache.globPattern(cache.fullPrefix() + ":*")
 
 	// Delete only this Deckard instance namespace. Never call FLUSHDB, since users may share
 	// the same Redis with other applications (or another Deckard with a different prefix).
@@ -386,6 +388,8 @@ func (cache *RedisCache) ListQueues(ctx context.Context, pattern string, poolTyp
 		searchPattern = cache.lockPool(pattern, LOCK_NACK)
 	}
 
+	searchPattern = cache.globPattern(searchPattern)
+
 	// Use SCAN instead of KEYS to avoid blocking Redis.
 	//
 	// SCAN is a "keyless" command, so in cluster mode go-redis cannot route it by hash slot: it
@@ -954,6 +958,13 @@ func (cache *RedisCache) fullPrefix() string {
 	return cache.configuredPrefix()
 }
 
+// globPattern escapes the glob-style special characters of the key prefix of a pattern, since the prefix must match literally.
+func (cache *RedisCache) globPattern(pattern string) string {
+	prefix := cache.fullPrefix()
+
+	return globEscaper.Replace(prefix) + strings.TrimPrefix(pattern, prefix)
+}
+
 func (cache *RedisCache) poolPrefix() string {
 	return cache.configuredPrefix() + POOL_SUFFIX
 }
-- 
2.43.0


From 7fb0d1d82606a35f13c57c913bffc16e6986069c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:26 +0000
Subject: [PATCH 18/22] fix: access the memory storage's configurations under
 its lock and release it on Count errors

---
 internal/queue/storage/memory_storage.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/internal/queue/storage/memory_storage.go b/internal/queue/storage/memory_storage.go
index d2b021e..1f55f7a 100644
--- a/internal/queue/storage/memory_storage.go
+++ b/internal/queue/storage/memory_storage.go
@@ -39,6 +39,9 @@ func NewMemoryStorage(ctx context.Context) *MemoryStorage {
 }
 
 func (storage *MemoryStorage) ListQueueConfigurations(ctx context.Context) ([]*configuration.QueueConfiguration, error) {
+	storage.lock.RLock()
+	defer storage.lock.RUnlock()
+
 	configurations := make([]*configuration.QueueConfiguration, len(storage.configurations))
 
 	configurationIndex := 0
@@ -60,12 +63,18 @@ func (storage *MemoryStorage) EditQueueConfiguration(_ context.Context, configur
 		configuration.MaxElements = 0
 	}
 
+	storage.lock.Lock()
+	defer storage.lock.Unlock()
+
 	storage.configurations[configuration.Queue] = configuration
 
 	return nil
 }
 
 func (storage *MemoryStorage) GetQueueConfiguration(_ context.Context, queue string) (*configuration.QueueConfiguration, error) {
+	storage.lock.RLock()
+	defer storage.lock.RUnlock()
+
 	return storage.configurations[queue], nil
 }
 
@@ -142,6 +151,8 @@ func (storage *MemoryStorage) Count(_ context.Context, findOpts *FindOptions, _
 	count := int64(0)
 
 	storage.lock.RLock()
+	defer storage.lock.RUnlock()
+
 	for _, value := range storage.docs {
 		matches, err := messageMatchesFilter(value, findOpts)
 
@@ -153,7 +164,6 @@ func (storage *MemoryStorage) Count(_ context.Context, findOpts *FindOptions, _
 			count++
 		}
 	}
-	storage.lock.RUnlock()
 
 	return count, nil
 }
-- 
2.43.0


From 483131b42afdf494afe9f557cfba374cf9770a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:29 +0000
Subject: [PATCH 19/22] fix: insert, ack and nack in the memory storage decide
 and update in one critical section

---
 internal/queue/storage/memory_storage.go | 25 +++++++++++-------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/internal/queue/storage/memory_storage.go b/internal/queue/storage/memory_storage.go
index 1f55f7a..8cc1aa2 100644
--- a/internal/queue/storage/memory_storage.go
+++ b/internal/queue/storage/memory_storage.go
@@ -103,14 +103,16 @@ func (storage *MemoryStorage) Insert(_ context.Context, messages ...*message.Mes
 		if messages[i].ID == "" {
 			return 0, 0, fmt.Errorf("message has a invalid ID")
 		}
+	}
+
+	storage.lock.Lock()
+	defer storage.lock.Unlock()
 
+	for i := range messages {
 		key := getKey(messages[i])
 
-		storage.lock.RLock()
 		_, present := storage.docs[key]
-		storage.lock.RUnlock()
 
-		storage.lock.Lock()
 		if present {
 			modified++
 
@@ -128,8 +130,6 @@ func (storage *MemoryStorage) Insert(_ context.Context, messages ...*message.Mes
 			messages[i].LastUsage = &now
 			storage.docs[key] = messages[i]
 		}
-
-		storage.lock.Unlock()
 	}
 
 	return inserted, modified, nil
@@ -327,15 +327,15 @@ func (storage *MemoryStorage) Remove(_ context.Context, queue string, ids ...str
 }
 
 func (storage *MemoryStorage) Ack(_ context.Context, msg *message.Message) (modifiedCount int64, err error) {
-	storage.lock.RLock()
+	storage.lock.Lock()
+	defer storage.lock.Unlock()
+
 	value, contains := storage.docs[getKey(msg)]
-	storage.lock.RUnlock()
 
 	if !contains {
 		return 0, nil
 	}
 
-	storage.lock.Lock()
 	value.TotalScoreSubtract += msg.LastScoreSubtract
 	value.UsageCount += 1
 	value.LastUsage = msg.LastUsage
@@ -350,21 +350,19 @@ func (storage *MemoryStorage) Ack(_ context.Context, msg *message.Message) (modi
 	*value.Diagnostics.ConsecutiveAcks = *value.Diagnostics.ConsecutiveAcks + 1
 	*value.Diagnostics.ConsecutiveNacks = 0
 
-	storage.lock.Unlock()
-
 	return 1, nil
 }
 
 func (storage *MemoryStorage) Nack(_ context.Context, msg *message.Message) (modifiedCount int64, err error) {
-	storage.lock.RLock()
+	storage.lock.Lock()
+	defer storage.lock.Unlock()
+
 	value, contains := storage.docs[getKey(msg)]
-	storage.lock.RUnlock()
 
 	if !contains {
 		return 0, nil
 	}
 
-	storage.lock.Lock()
 	value.Score = msg.Score
 	value.LockMs = msg.LockMs
 
@@ -373,7 +371,6 @@ func (storage *MemoryStorage) Nack(_ context.Context, msg *message.Message) (mod
 	*value.Diagnostics.Nacks = *value.Diagnostics.Nacks + 1
 	*value.Diagnostics.ConsecutiveNacks = *value.Diagnostics.ConsecutiveNacks + 1
 	*value.Diagnostics.ConsecutiveAcks = 0
-	storage.lock.Unlock()
 
 	return 1, nil
 }
-- 
2.43.0


From 805c442dbef0b32a933ded3bcf3437688611174e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:52 +0000
Subject: [PATCH 20/22] fix: memory storage keeps and returns its own copies of
 messages

---
 internal/queue/storage/memory_storage.go | 28 ++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/internal/queue/storage/memory_storage.go b/internal/queue/storage/memory_storage.go
index 8cc1aa2..1f8ebc3 100644
--- a/internal/queue/storage/memory_storage.go
+++ b/internal/queue/storage/memory_storage.go
@@ -128,7 +128,7 @@ func (storage *MemoryStorage) Insert(_ context.Context, messages ...*message.Mes
 			messages[i].InternalId = storage.internalCounter
 			now := dtime.Now()
 			messages[i].LastUsage = &now
-			storage.docs[key] = messages[i]
+			storage.docs[key] = copyMessage(messages[i])
 		}
 	}
 
@@ -143,6 +143,30 @@ func (storage *MemoryStorage) GetStringInternalId(_ context.Context, message *me
 	return strconv.FormatInt(message.InternalId.(int64), 10)
 }
 
+// copyMessage copies a message and its diagnostics, the only part of a message that is modified in place.
+func copyMessage(msg *message.Message) *message.Message {
+	result := *msg
+
+	if msg.Diagnostics != nil {
+		result.Diagnostics = &message.MessageDiagnostics{
+			Acks:             copyInt64(msg.Diagnostics.Acks),
+			Nacks:            copyInt64(msg.Diagnostics.Nacks),
+			ConsecutiveAcks:  copyInt64(msg.Diagnostics.ConsecutiveAcks),
+			ConsecutiveNacks: copyInt64(msg.Diagnostics.ConsecutiveNacks),
+		}
+	}
+
+	return &result
+}
+
+func copyInt64(value *int64) *int64 {
+	if value == nil {
+		return nil
+	}
+
+	return utils.Int64Ptr(*value)
+}
+
 func getKey(message *message.Message) string {
 	return message.Queue + ":" + message.ID
 }
@@ -256,7 +280,7 @@ func (storage *MemoryStorage) Find(_ context.Context, opt *FindOptions) ([]messa
 		}
 
 		if matches {
-			messages = append(messages, *storage.docs[k])
+			messages = append(messages, *copyMessage(storage.docs[k]))
 		}
 	}
 
-- 
2.43.0


From 236d7525e2e2e2a78a3ae5ec2f7476185b219c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:55 +0000
Subject: [PATCH 21/22] fix: messages of different queues never share a key in
 the memory storage and are counted once when removed

---
 internal/queue/storage/memory_storage.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/queue/storage/memory_storage.go b/internal/queue/storage/memory_storage.go
index 1f8ebc3..f819fd9 100644
--- a/internal/queue/storage/memory_storage.go
+++ b/internal/queue/storage/memory_storage.go
@@ -168,7 +168,8 @@ func copyInt64(value *int64) *int64 {
 }
 
 func getKey(message *message.Message) string {
-	return message.Queue + ":" + message.ID
+	// the length of the queue name keeps pairs like ("a:b", "c") and ("a", "b:c") apart
+	return strconv.Itoa(len(message.Queue)) + ":" + message.Queue + ":" + message.ID
 }
 
 func (storage *MemoryStorage) Count(_ context.Context, findOpts *FindOptions, _ *CountOptions) (int64, error) {
@@ -342,6 +343,8 @@ func (storage *MemoryStorage) Remove(_ context.Context, queue string, ids ...str
 				delete(storage.docs, key)
 
 				count++
+
+				break
 			}
 		}
 	}
-- 
2.43.0


From 453cbc4c6c6d3507e9b9f62b7d7c8b640a6db4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:06 +0000
Subject: [PATCH 22/22] fix: memory storage find breaks ties with the next sort
 key

---
 internal/queue/storage/memory_storage.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/internal/queue/storage/memory_storage.go b/internal/queue/storage/memory_storage.go
index f819fd9..4e211e1 100644
--- a/internal/queue/storage/memory_storage.go
+++ b/internal/queue/storage/memory_storage.go
@@ -7,7 +7,6 @@ import (
 	"sort"
 	"strconv"
 	"sync"
-	"time"
 
 	"github.com/takenet/deckard/internal/dtime"
 	"github.com/takenet/deckard/internal/queue/configuration"
@@ -292,7 +291,7 @@ func (storage *MemoryStorage) Find(_ context.Context, opt *FindOptions) ([]messa
 
 				switch key {
 				case "expiry_date":
-					if (messages[i].ExpiryDate != time.Time{} || messages[j].ExpiryDate != time.Time{}) {
+					if !messages[i].ExpiryDate.Equal(messages[j].ExpiryDate) {
 						if value == -1 {
 							return messages[i].ExpiryDate.After(messages[j].ExpiryDate)
 						}
@@ -300,11 +299,13 @@ func (storage *MemoryStorage) Find(_ context.Context, opt *FindOptions) ([]messa
 						return messages[i].ExpiryDate.Before(messages[j].ExpiryDate)
 					}
 				case "score":
-					if value == -1 {
-						return messages[i].Score > messages[j].Score
-					}
+					if messages[i].Score != messages[j].Score {
+						if value == -1 {
+							return messages[i].Score > messages[j].Score
+						}
 
-					return messages[i].Score < messages[j].Score
+						return messages[i].Score < messages[j].Score
+					}
 				case "_id":
 					if value == -1 {
 						return messages[i].InternalId.(int64) > messages[j].InternalId.(int64)
-- 
2.43.0

