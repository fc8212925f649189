From d88c2cde14e78c397bd627dc70b5d2e548225697 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 16:51:07 +0000
Subject: [PATCH 01/34] fix: close the UAA token_keys response body on error
 statuses

---
 internal/auth/uaa_client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/auth/uaa_client.go b/internal/auth/uaa_client.go
index 81b6adb..dd865a6 100644
--- a/internal/auth/uaa_client.go
+++ b/internal/auth/uaa_client.go
@@ -100,11 +100,11 @@ func (c *UAAClient) RefreshTokenKeys() error {
 	if err != nil {
 		return fmt.Errorf("failed to get token keys from UAA: %s", err)
 	}
+	defer resp.Body.Close()
 
 	if resp.StatusCode != http.StatusOK {
 		return fmt.Errorf("got an invalid status code talking to UAA %v", resp.Status)
 	}
-	defer resp.Body.Close()
 
 	tokenKeys, err := unmarshalTokenKeys(resp.Body)
 	if err != nil {
-- 
2.43.0


From c05ed3ed23b0c530826fca944356963fc24dc3cc Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 16:51:29 +0000
Subject: [PATCH 02/34] fix: clear the cached OAuth2 token under the mutex that
 guards it

---
 pkg/client/oauth2_http_client.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/client/oauth2_http_client.go b/pkg/client/oauth2_http_client.go
index e56c903..eabc1a1 100644
--- a/pkg/client/oauth2_http_client.go
+++ b/pkg/client/oauth2_http_client.go
@@ -101,7 +101,9 @@ func (c *Oauth2HTTPClient) Do(req *http.Request) (*http.Response, error) {
 	}
 
 	if resp.StatusCode < http.StatusOK || resp.StatusCode >= http.StatusMultipleChoices {
+		c.mu.Lock()
 		c.token = ""
+		c.mu.Unlock()
 		return resp, nil
 	}
 
-- 
2.43.0


From 218478bdfdd182df5dfe1d5e8c883d405811d720 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:47:03 +0000
Subject: [PATCH 03/34] fix: close the leader-election endpoint's response body

---
 cmd/scheduler/main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/scheduler/main.go b/cmd/scheduler/main.go
index ac9eca2..2f90ff1 100644
--- a/cmd/scheduler/main.go
+++ b/cmd/scheduler/main.go
@@ -42,6 +42,7 @@ func main() {
 				log.Printf("failed to read from leaderhip endpoint: %s", err)
 				return false
 			}
+			defer resp.Body.Close()
 
 			return resp.StatusCode == http.StatusOK
 		}))
-- 
2.43.0


From aca5a6a6001ad4b9660923c02b6b7ecab51a0eaa Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:47:03 +0000
Subject: [PATCH 04/34] fix: do not disable certificate verification on the
 process-wide HTTP client

---
 internal/blackbox/blackbox.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/blackbox/blackbox.go b/internal/blackbox/blackbox.go
index 10276c3..f16a794 100644
--- a/internal/blackbox/blackbox.go
+++ b/internal/blackbox/blackbox.go
@@ -69,8 +69,9 @@ func NewHttpEgressClient(httpAddr, uaaAddr, uaaClientId, uaaClientSecret string,
 }
 
 func buildHttpClient(skipTLSVerify bool) *http.Client {
-	client := http.DefaultClient
-	client.Timeout = 10 * time.Second
+	client := &http.Client{
+		Timeout: 10 * time.Second,
+	}
 
 	if skipTLSVerify {
 		client.Transport = &http.Transport{
-- 
2.43.0


From 7d6f72ca41eda9886c4cc152d67f4e1f371ea50c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:57:58 +0000
Subject: [PATCH 05/34] fix: stop the syslog server when the log cache cannot
 be dialled

---
 cmd/syslog-server/main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/syslog-server/main.go b/cmd/syslog-server/main.go
index c962159..be1ae05 100644
--- a/cmd/syslog-server/main.go
+++ b/cmd/syslog-server/main.go
@@ -44,6 +44,9 @@ func main() {
 			cfg.LogCacheTLS.Credentials("log-cache"),
 		),
 	)
+	if err != nil {
+		log.Fatalf("failed to dial log cache: %s", err)
+	}
 
 	client := logcache_v1.NewIngressClient(conn)
 
-- 
2.43.0


From 184d6e5575cb8ed5d2ca82f2701ebb6251929cd5 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 18:00:33 +0000
Subject: [PATCH 06/34] fix: report the read error that ended a PromQL data
 walk

---
 .../promql/data_reader/walking_data_reader.go | 24 +++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/internal/promql/data_reader/walking_data_reader.go b/internal/promql/data_reader/walking_data_reader.go
index e8f9956..f7f05a4 100644
--- a/internal/promql/data_reader/walking_data_reader.go
+++ b/internal/promql/data_reader/walking_data_reader.go
@@ -24,12 +24,26 @@ func (r *WalkingDataReader) Read(
 	in *logcache_v1.ReadRequest,
 ) (*logcache_v1.ReadResponse, error) {
 
-	var result []*loggregator_v2.Envelope
+	var (
+		result  []*loggregator_v2.Envelope
+		readErr error
+	)
+
+	reader := func(
+		ctx context.Context,
+		sourceID string,
+		start time.Time,
+		opts ...client.ReadOption,
+	) ([]*loggregator_v2.Envelope, error) {
+		es, err := r.r(ctx, sourceID, start, opts...)
+		readErr = err
+		return es, err
+	}
 
 	client.Walk(ctx, in.GetSourceId(), func(es []*loggregator_v2.Envelope) bool {
 		result = append(result, es...)
 		return true
-	}, r.r,
+	}, reader,
 		client.WithWalkStartTime(time.Unix(0, in.GetStartTime())),
 		client.WithWalkEndTime(time.Unix(0, in.GetEndTime())),
 		client.WithWalkLimit(int(in.GetLimit())),
@@ -41,6 +55,12 @@ func (r *WalkingDataReader) Read(
 		return nil, err
 	}
 
+	// The walk gives up when a read keeps failing. What was read so far is
+	// not the requested range.
+	if readErr != nil {
+		return nil, readErr
+	}
+
 	return &logcache_v1.ReadResponse{
 		Envelopes: &loggregator_v2.EnvelopeBatch{
 			Batch: result,
-- 
2.43.0


From 7ff8fb3177fbb6486b94c2a0415b3ed44b1a0bc7 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 18:26:05 +0000
Subject: [PATCH 07/34] fix: emit measured metrics when there is no HTTP client
 to ask for the uptime

---
 internal/blackbox/blackbox.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/internal/blackbox/blackbox.go b/internal/blackbox/blackbox.go
index f16a794..a003700 100644
--- a/internal/blackbox/blackbox.go
+++ b/internal/blackbox/blackbox.go
@@ -152,9 +152,15 @@ func EmitMeasuredMetrics(sourceId string, ingressClient logcache_v1.IngressClien
 		return
 	}
 
-	up, err := logCache.LogCacheVMUptime(context.TODO())
-	if err != nil {
-		log.Printf("Couldn't fetch vm uptime, ignoring it: %s", err.Error())
+	var err error
+	up := int64(-1)
+
+	// Without the CF blackbox there is no HTTP client to ask.
+	if logCache != nil {
+		up, err = logCache.LogCacheVMUptime(context.TODO())
+		if err != nil {
+			log.Printf("Couldn't fetch vm uptime, ignoring it: %s", err.Error())
+		}
 	}
 
 	if up >= 0 && up < TEN_MINUTES {
-- 
2.43.0


From dc5505b8e41d666e86eba6a15e03e57811e50828 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 18:26:06 +0000
Subject: [PATCH 08/34] fix: log test metrics that could not be written

---
 internal/blackbox/blackbox.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/blackbox/blackbox.go b/internal/blackbox/blackbox.go
index a003700..c0b4a6d 100644
--- a/internal/blackbox/blackbox.go
+++ b/internal/blackbox/blackbox.go
@@ -126,7 +126,7 @@ func emitTestMetrics(sourceId string, client logcache_v1.IngressClient, timestam
 
 	var err error
 	for retries := 5; retries > 0; retries-- {
-		_, err := client.Send(ctx, &logcache_v1.SendRequest{
+		_, err = client.Send(ctx, &logcache_v1.SendRequest{
 			Envelopes: &loggregator_v2.EnvelopeBatch{
 				Batch: batch,
 			},
-- 
2.43.0


From 9688f041e5ebc89cc7de26cf8116dd21b0bbca8b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 18:52:13 +0000
Subject: [PATCH 09/34] fix: reject tokens whose alg or kid header is not a
 string

---
 internal/auth/uaa_client.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/internal/auth/uaa_client.go b/internal/auth/uaa_client.go
index dd865a6..5106bd9 100644
--- a/internal/auth/uaa_client.go
+++ b/internal/auth/uaa_client.go
@@ -179,10 +179,13 @@ func (c *UAAClient) Read(token string) (Oauth2ClientContext, error) {
 
 	payload, _, err := jose.Decode(trimBearer(token), func(headers map[string]interface{}, payload string) interface{} {
 		if headers["alg"] != "RS256" {
-			return AlgorithmError{Alg: headers["alg"].(string)}
+			return AlgorithmError{Alg: fmt.Sprint(headers["alg"])}
 		}
 
-		keyId := headers["kid"].(string)
+		keyId, ok := headers["kid"].(string)
+		if !ok {
+			return UnknownTokenKeyError{Kid: fmt.Sprint(headers["kid"])}
+		}
 
 		publicKey, err := c.loadOrFetchPublicKey(keyId)
 		if err != nil {
-- 
2.43.0


From 6d515e0311a43c548e013eb282b5cfd74abf56c3 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:09:18 +0000
Subject: [PATCH 10/34] fix: drop parameters that override the source id or
 query the proxy authorised

The gateway sets a request field from a parameter with the field's protobuf or
JSON name, with its value optionally in brackets after the name. A caller could
therefore read any source id with /api/v1/read/MINE?sourceId=OTHER, and run any
query by adding a query[OTHER] parameter to one it was authorised for.
---
 internal/auth/cf_auth_middleware.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/internal/auth/cf_auth_middleware.go b/internal/auth/cf_auth_middleware.go
index f54b400..ba2130f 100644
--- a/internal/auth/cf_auth_middleware.go
+++ b/internal/auth/cf_auth_middleware.go
@@ -3,6 +3,8 @@ package auth
 import (
 	"encoding/json"
 	"net/http"
+	"net/url"
+	"strings"
 	"time"
 
 	"log"
@@ -101,6 +103,12 @@ func (m CFAuthMiddlewareProvider) Middleware(h http.Handler) http.Handler {
 			}
 		}
 
+		// The source ID was authorized as it appears in the path. The gateway
+		// would let a parameter with the field's JSON name override it.
+		q := r.URL.Query()
+		dropParameters(q, "sourceId")
+		r.URL.RawQuery = q.Encode()
+
 		h.ServeHTTP(w, r)
 	})
 
@@ -175,6 +183,7 @@ func (m CFAuthMiddlewareProvider) Middleware(h http.Handler) http.Handler {
 		}
 
 		q := r.URL.Query()
+		dropParameters(q, "query")
 		q.Set("query", modifiedQuery)
 		r.URL.RawQuery = q.Encode()
 
@@ -214,6 +223,16 @@ func (m CFAuthMiddlewareProvider) Middleware(h http.Handler) http.Handler {
 	return router
 }
 
+// dropParameters removes every parameter from which the gateway would set the
+// named request field: it takes "name=value" as well as "name[value]".
+func dropParameters(q url.Values, name string) {
+	for key := range q {
+		if key == name || strings.HasPrefix(key, name+"[") {
+			q.Del(key)
+		}
+	}
+}
+
 func (m CFAuthMiddlewareProvider) authorizeSourceIds(sourceIds []string, c Oauth2ClientContext) []string {
 	var authorizedSourceIds []string
 
-- 
2.43.0


From 5a52df6094fad9f9fc2d98a7c47fbc42c5ce5452 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:26:59 +0000
Subject: [PATCH 11/34] fix: write exactly one access log line per request

---
 internal/auth/access_log.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/auth/access_log.go b/internal/auth/access_log.go
index f7c7d3d..b721a50 100644
--- a/internal/auth/access_log.go
+++ b/internal/auth/access_log.go
@@ -44,9 +44,9 @@ func NewAccessLog(req *http.Request, ts time.Time, host, port string) *AccessLog
 
 func (al *AccessLog) String() string {
 	vcapRequestId := al.request.Header.Get(requestIDHeader)
-	path := al.request.URL.Path
+	path := al.request.URL.EscapedPath()
 	if al.request.URL.RawQuery != "" {
-		path = fmt.Sprintf("%s?%s", al.request.URL.Path, al.request.URL.RawQuery)
+		path = fmt.Sprintf("%s?%s", path, al.request.URL.RawQuery)
 	}
 	remoteHost, remotePort := al.extractRemoteInfo()
 
-- 
2.43.0


From d5821a4f191f71ae0f2929e089abde4074cc8a8c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:58:41 +0000
Subject: [PATCH 12/34] fix: count envelopes while reading the meta of a source

Meta looked every source id up a second time and panicked when truncation
had removed it in between.
---
 internal/cache/store/store.go | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/internal/cache/store/store.go b/internal/cache/store/store.go
index 1be4d84..7a67d30 100644
--- a/internal/cache/store/store.go
+++ b/internal/cache/store/store.go
@@ -485,22 +485,14 @@ func (store *Store) Meta() map[string]logcache_v1.MetaInfo {
 
 	store.storageIndex.Range(func(sourceId interface{}, tree interface{}) bool {
 		tree.(*storage).RLock()
-		metaReport[sourceId.(string)] = tree.(*storage).meta
+		meta := tree.(*storage).meta
+		meta.Count = int64(tree.(*storage).Size())
 		tree.(*storage).RUnlock()
+		metaReport[sourceId.(string)] = meta
 
 		return true
 	})
 
-	// Range over our local copy of metaReport
-	// TODO - shouldn't we just maintain Count on metaReport..?!
-	for sourceId, meta := range metaReport {
-		tree, _ := store.storageIndex.Load(sourceId)
-
-		tree.(*storage).RLock()
-		meta.Count = int64(tree.(*storage).Size())
-		tree.(*storage).RUnlock()
-		metaReport[sourceId] = meta
-	}
 	return metaReport
 }
 
-- 
2.43.0


From 4f95a9b56ecf3f0af1bd25fb3d94f8132f71c8c7 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:58:41 +0000
Subject: [PATCH 13/34] fix: survive truncating a store that holds less than
 its count

A storage between its creation and its first envelope, and a count larger than
what the expiration heap holds, both crashed the truncation loop.
---
 internal/cache/store/store.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/internal/cache/store/store.go b/internal/cache/store/store.go
index 7a67d30..daa5e8c 100644
--- a/internal/cache/store/store.go
+++ b/internal/cache/store/store.go
@@ -191,9 +191,15 @@ func (store *Store) BuildExpirationHeap() *ExpirationHeap {
 
 	store.storageIndex.Range(func(sourceId interface{}, tree interface{}) bool {
 		tree.(*storage).RLock()
+		defer tree.(*storage).RUnlock()
+
+		// A storage that was just initialized has nothing to expire yet
+		if tree.(*storage).Size() == 0 {
+			return true
+		}
+
 		oldestTimestamp := tree.(*storage).Left().Key.(int64)
 		heap.Push(expirationHeap, storageExpiration{timestamp: oldestTimestamp, sourceId: sourceId.(string), tree: tree.(*storage)})
-		tree.(*storage).RUnlock()
 
 		return true
 	})
@@ -219,8 +225,9 @@ func (store *Store) truncate() {
 
 	expirationHeap := store.BuildExpirationHeap()
 
-	// Remove envelopes one at a time, popping state from the expirationHeap
-	for i := 0; i < numberToPrune; i++ {
+	// Remove envelopes one at a time, popping state from the expirationHeap,
+	// which can hold less than the count promised
+	for i := 0; i < numberToPrune && expirationHeap.Len() > 0; i++ {
 		oldest := heap.Pop(expirationHeap)
 		newOldestTimestamp, valid := store.removeOldestEnvelope(oldest.(storageExpiration).tree, oldest.(storageExpiration).sourceId)
 		if valid {
-- 
2.43.0


From 1fa72d6a8a29dad3810ced0963cba3d39a285263 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:58:41 +0000
Subject: [PATCH 14/34] fix: derive the cache period from the oldest envelope

Calling the heap's own Pop returns its last element, not the smallest.
---
 internal/cache/store/store.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/cache/store/store.go b/internal/cache/store/store.go
index daa5e8c..3d6206b 100644
--- a/internal/cache/store/store.go
+++ b/internal/cache/store/store.go
@@ -250,7 +250,7 @@ func (store *Store) truncate() {
 	}
 
 	// Otherwise, grab the next oldest timestamp and use it to update the cache period
-	if oldest := expirationHeap.Pop(); oldest.(storageExpiration).tree != nil {
+	if oldest := heap.Pop(expirationHeap); oldest.(storageExpiration).tree != nil {
 		atomic.StoreInt64(&store.oldestTimestamp, oldest.(storageExpiration).timestamp)
 		cachePeriod := calculateCachePeriod(oldest.(storageExpiration).timestamp)
 		store.metrics.setCachePeriod.Set(float64(cachePeriod))
-- 
2.43.0


From 85dfc3ce03a9f2d4d4f1635224b9e94609acbc49 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:58:41 +0000
Subject: [PATCH 15/34] fix: do not insert into a storage that truncation
 removed

An envelope put between looking its storage up and truncation removing the
emptied storage was stored where no read could find it.
---
 internal/cache/store/store.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/internal/cache/store/store.go b/internal/cache/store/store.go
index 3d6206b..11e4b09 100644
--- a/internal/cache/store/store.go
+++ b/internal/cache/store/store.go
@@ -107,10 +107,16 @@ func (store *Store) getOrInitializeStorage(sourceId string) (*storage, bool) {
 	return envelopeStorage.(*storage), newStorage
 }
 
-func (storage *storage) insertOrSwap(store *Store, e *loggregator_v2.Envelope) {
+// insertOrSwap adds the envelope, unless the storage was emptied and removed
+// from the index in the meantime, in which case it returns false.
+func (storage *storage) insertOrSwap(store *Store, e *loggregator_v2.Envelope) bool {
 	storage.Lock()
 	defer storage.Unlock()
 
+	if storage.removed {
+		return false
+	}
+
 	// If we're at our maximum capacity, remove an envelope before inserting
 	if storage.Size() >= store.maxPerSource {
 		oldestTimestamp := storage.Left().Key.(int64)
@@ -148,6 +154,8 @@ func (storage *storage) insertOrSwap(store *Store, e *loggregator_v2.Envelope) {
 
 	cachePeriod := calculateCachePeriod(storeOldestTimestamp)
 	store.metrics.setCachePeriod.Set(float64(cachePeriod))
+
+	return true
 }
 
 func (store *Store) WaitForTruncationToComplete() bool {
@@ -181,8 +189,12 @@ func (store *Store) truncationLoop(runInterval time.Duration) {
 func (store *Store) Put(envelope *loggregator_v2.Envelope, sourceId string) {
 	store.metrics.incIngress.Add(1)
 
-	envelopeStorage, _ := store.getOrInitializeStorage(sourceId)
-	envelopeStorage.insertOrSwap(store, envelope)
+	for {
+		envelopeStorage, _ := store.getOrInitializeStorage(sourceId)
+		if envelopeStorage.insertOrSwap(store, envelope) {
+			return
+		}
+	}
 }
 
 func (store *Store) BuildExpirationHeap() *ExpirationHeap {
@@ -274,6 +286,7 @@ func (store *Store) removeOldestEnvelope(treeToPrune *storage, sourceId string)
 
 	if treeToPrune.Size() == 0 {
 		store.storageIndex.Delete(sourceId)
+		treeToPrune.removed = true
 		return 0, false
 	}
 
@@ -507,6 +520,9 @@ type storage struct {
 	sourceId string
 	meta     logcache_v1.MetaInfo
 
+	// removed is set once the storage is no longer part of the index
+	removed bool
+
 	*avltree.Tree
 	sync.RWMutex
 }
-- 
2.43.0


From f27e4dd5431be569924ea5832e251d89ba663223 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:58:41 +0000
Subject: [PATCH 16/34] fix: match no envelope for an unknown envelope type

Any gRPC client could crash the process with a number outside the enum.
---
 internal/cache/store/store.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/cache/store/store.go b/internal/cache/store/store.go
index 11e4b09..896b9b6 100644
--- a/internal/cache/store/store.go
+++ b/internal/cache/store/store.go
@@ -493,9 +493,9 @@ func (s *Store) checkEnvelopeType(e *loggregator_v2.Envelope, t logcache_v1.Enve
 	case logcache_v1.EnvelopeType_EVENT:
 		return e.GetEvent() != nil
 	default:
-		// This should never happen. This implies the store is being used
-		// poorly.
-		panic("unknown type")
+		// Requests can carry any number, so a type without a name matches
+		// no envelope.
+		return false
 	}
 }
 
-- 
2.43.0


From cf91bd379503daa34e693256e9df1c92e9eeef77 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:00:26 +0000
Subject: [PATCH 17/34] fix: order the envelopes of a source by timestamp,
 whatever shares one

Fudged timestamps displaced envelopes past later ones, so that a read could
skip envelopes inside its window, return them out of order, exceed its limit by
more than a group or split a group, and lost the 4001st envelope of one
timestamp while still counting it.
---
 internal/cache/store/store.go | 96 +++++++++++++++++------------------
 1 file changed, 46 insertions(+), 50 deletions(-)

diff --git a/internal/cache/store/store.go b/internal/cache/store/store.go
index 896b9b6..eb8ae35 100644
--- a/internal/cache/store/store.go
+++ b/internal/cache/store/store.go
@@ -11,7 +11,6 @@ import (
 	"code.cloudfoundry.org/go-loggregator/rpc/loggregator_v2"
 	"code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
 	"github.com/emirpasic/gods/trees/avltree"
-	"github.com/emirpasic/gods/utils"
 )
 
 type MetricsRegistry interface {
@@ -41,8 +40,7 @@ type Store struct {
 	count           int64
 	oldestTimestamp int64
 
-	maxPerSource      int
-	maxTimestampFudge int64
+	maxPerSource int
 
 	metrics Metrics
 	mc      MemoryConsultant
@@ -62,9 +60,8 @@ type Metrics struct {
 
 func NewStore(maxPerSource int, mc MemoryConsultant, m MetricsRegistry) *Store {
 	store := &Store{
-		maxPerSource:      maxPerSource,
-		maxTimestampFudge: 4000,
-		oldestTimestamp:   MIN_INT64,
+		maxPerSource:    maxPerSource,
+		oldestTimestamp: MIN_INT64,
 
 		metrics: Metrics{
 			incExpired:            m.NewCounter("log_cache_expired"),
@@ -98,7 +95,7 @@ func (store *Store) getOrInitializeStorage(sourceId string) (*storage, bool) {
 	if !existingSourceId {
 		envelopeStorage = &storage{
 			sourceId: sourceId,
-			Tree:     avltree.NewWith(utils.Int64Comparator),
+			Tree:     avltree.NewWith(compareKeys),
 		}
 		store.storageIndex.Store(sourceId, envelopeStorage.(*storage))
 		newStorage = true
@@ -119,8 +116,7 @@ func (storage *storage) insertOrSwap(store *Store, e *loggregator_v2.Envelope) b
 
 	// If we're at our maximum capacity, remove an envelope before inserting
 	if storage.Size() >= store.maxPerSource {
-		oldestTimestamp := storage.Left().Key.(int64)
-		storage.Remove(oldestTimestamp)
+		storage.Remove(storage.Left().Key)
 		storage.meta.Expired++
 		store.metrics.incExpired.Add(1)
 	} else {
@@ -128,22 +124,14 @@ func (storage *storage) insertOrSwap(store *Store, e *loggregator_v2.Envelope) b
 		store.metrics.setStoreSize.Set(float64(atomic.LoadInt64(&store.count)))
 	}
 
-	var timestampFudge int64
-	for timestampFudge = 0; timestampFudge < store.maxTimestampFudge; timestampFudge++ {
-		_, exists := storage.Get(e.Timestamp + timestampFudge)
-
-		if !exists {
-			break
-		}
-	}
-
-	storage.Put(e.Timestamp+timestampFudge, e)
+	storage.sequence++
+	storage.Put(envelopeKey{timestamp: e.Timestamp, sequence: storage.sequence}, e)
 
 	if e.Timestamp > storage.meta.NewestTimestamp {
 		storage.meta.NewestTimestamp = e.Timestamp
 	}
 
-	oldestTimestamp := storage.Left().Key.(int64)
+	oldestTimestamp := storage.Left().Key.(envelopeKey).timestamp
 	storage.meta.OldestTimestamp = oldestTimestamp
 	storeOldestTimestamp := atomic.LoadInt64(&store.oldestTimestamp)
 
@@ -210,7 +198,7 @@ func (store *Store) BuildExpirationHeap() *ExpirationHeap {
 			return true
 		}
 
-		oldestTimestamp := tree.(*storage).Left().Key.(int64)
+		oldestTimestamp := tree.(*storage).Left().Key.(envelopeKey).timestamp
 		heap.Push(expirationHeap, storageExpiration{timestamp: oldestTimestamp, sourceId: sourceId.(string), tree: tree.(*storage)})
 
 		return true
@@ -282,7 +270,7 @@ func (store *Store) removeOldestEnvelope(treeToPrune *storage, sourceId string)
 
 	oldestEnvelope := treeToPrune.Left()
 
-	treeToPrune.Remove(oldestEnvelope.Key.(int64))
+	treeToPrune.Remove(oldestEnvelope.Key)
 
 	if treeToPrune.Size() == 0 {
 		store.storageIndex.Delete(sourceId)
@@ -291,7 +279,7 @@ func (store *Store) removeOldestEnvelope(treeToPrune *storage, sourceId string)
 	}
 
 	newOldestEnvelope := treeToPrune.Left()
-	oldestTimestampAfterRemoval := newOldestEnvelope.Key.(int64)
+	oldestTimestampAfterRemoval := newOldestEnvelope.Key.(envelopeKey).timestamp
 
 	treeToPrune.meta.Expired++
 	treeToPrune.meta.OldestTimestamp = oldestTimestampAfterRemoval
@@ -325,6 +313,12 @@ func (store *Store) Get(
 
 	var res []*loggregator_v2.Envelope
 	traverser(tree.(*storage).Root, start.UnixNano(), end.UnixNano(), func(e *loggregator_v2.Envelope) bool {
+		// Return true to stop traversing. Envelopes that share a timestamp are
+		// not split up, as readers carry on after the last timestamp they got.
+		if n := len(res); n > 0 && n >= limit && e.GetTimestamp() != res[n-1].GetTimestamp() {
+			return true
+		}
+
 		e = store.filterByName(e, nameFilter)
 		if e == nil {
 			return false
@@ -334,8 +328,7 @@ func (store *Store) Get(
 			res = append(res, e)
 		}
 
-		// Return true to stop traversing
-		return len(res) >= limit
+		return false
 	})
 
 	store.metrics.incEgress.Add(float64(len(res)))
@@ -419,7 +412,7 @@ func (s *Store) treeAscTraverse(
 			return true
 		}
 
-		if (t >= end || f(e)) && !isNodeAFudgeSequenceMember(n, 1) {
+		if t >= end || f(e) {
 			return true
 		}
 	}
@@ -427,29 +420,6 @@ func (s *Store) treeAscTraverse(
 	return s.treeAscTraverse(n.Children[1], start, end, f)
 }
 
-func isNodeAFudgeSequenceMember(node *avltree.Node, nextChildIndex int) bool {
-	e := node.Value.(*loggregator_v2.Envelope)
-	timestamp := e.GetTimestamp()
-
-	// check if node is internal to a fudge sequence
-	if timestamp != node.Key.(int64) {
-		return true
-	}
-
-	// node is not internal, but could initiate a fudge sequence, so
-	// check next child
-	nextChild := node.Children[nextChildIndex]
-	if nextChild == nil {
-		return false
-	}
-
-	// if next child exists, check it for fudge sequence membership.
-	// if the child's timestamps don't match, then the parent is the first
-	// member of a fudge sequence.
-	nextEnvelope := nextChild.Value.(*loggregator_v2.Envelope)
-	return (nextEnvelope.GetTimestamp() != nextChild.Key.(int64))
-}
-
 func (s *Store) treeDescTraverse(
 	n *avltree.Node,
 	start int64,
@@ -468,7 +438,7 @@ func (s *Store) treeDescTraverse(
 			return true
 		}
 
-		if (t < start || f(e)) && !isNodeAFudgeSequenceMember(n, 0) {
+		if t < start || f(e) {
 			return true
 		}
 	}
@@ -523,10 +493,36 @@ type storage struct {
 	// removed is set once the storage is no longer part of the index
 	removed bool
 
+	// sequence tells envelopes that share a timestamp apart
+	sequence uint64
+
 	*avltree.Tree
 	sync.RWMutex
 }
 
+// envelopeKey orders the envelopes of a source by timestamp and, among equal
+// timestamps, by arrival.
+type envelopeKey struct {
+	timestamp int64
+	sequence  uint64
+}
+
+func compareKeys(a, b interface{}) int {
+	x, y := a.(envelopeKey), b.(envelopeKey)
+	switch {
+	case x.timestamp < y.timestamp:
+		return -1
+	case x.timestamp > y.timestamp:
+		return 1
+	case x.sequence < y.sequence:
+		return -1
+	case x.sequence > y.sequence:
+		return 1
+	default:
+		return 0
+	}
+}
+
 type ExpirationHeap []storageExpiration
 
 type storageExpiration struct {
-- 
2.43.0


From cb55e4fce0860b01f7f71a044986b85ebd5d5d01 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:02:04 +0000
Subject: [PATCH 18/34] fix: answer a range query that is no matrix with an
 error

A range query whose start equals its end and whose step is zero is evaluated as
an instant query, and its result crashed the log cache.
---
 internal/promql/promql.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/internal/promql/promql.go b/internal/promql/promql.go
index e814c26..a964a59 100644
--- a/internal/promql/promql.go
+++ b/internal/promql/promql.go
@@ -173,8 +173,7 @@ func (q *PromQL) toInstantQueryResult(r *promql.Result) (*logcache_v1.PromQL_Ins
 		}, nil
 
 	default:
-		q.log.Panicf("PromQL: unknown type: %s", r.Value.Type())
-		return nil, nil
+		return nil, fmt.Errorf("PromQL: unknown type: %s", r.Value.Type())
 	}
 }
 
@@ -197,6 +196,9 @@ func (q *PromQL) RangeQuery(ctx context.Context, req *logcache_v1.PromQL_RangeQu
 	if err != nil {
 		return nil, fmt.Errorf("couldn't parse step: %s", err)
 	}
+	if step <= 0 {
+		return nil, fmt.Errorf("step must be positive: %s", req.Step)
+	}
 
 	// TODO: Should there be some boundary checking on Start and End?
 	startTime, err := ParseTime(req.Start)
@@ -262,8 +264,7 @@ func (q *PromQL) toRangeQueryResult(r *promql.Result) (*logcache_v1.PromQL_Range
 		}, nil
 
 	default:
-		q.log.Panicf("PromQL: unknown type: %s", r.Value.Type())
-		return nil, nil
+		return nil, fmt.Errorf("PromQL: unknown type: %s", r.Value.Type())
 	}
 }
 
-- 
2.43.0


From b33698fe7eeaf26ade6d97f40f5cd760652f40e0 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:02:04 +0000
Subject: [PATCH 19/34] fix: keep series with different labels apart

Label values containing a dash could give two label sets the same series id.
---
 internal/promql/promql.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/promql/promql.go b/internal/promql/promql.go
index a964a59..7cd5534 100644
--- a/internal/promql/promql.go
+++ b/internal/promql/promql.go
@@ -7,6 +7,7 @@ import (
 	"log"
 	"regexp"
 	"sort"
+	"strconv"
 	"strings"
 	"time"
 
@@ -565,7 +566,7 @@ func (b *seriesSetBuilder) getSeriesID(tags map[string]string) string {
 
 	var seriesID string
 	for _, k := range keys {
-		seriesID = seriesID + "-" + k + "-" + tags[k]
+		seriesID = seriesID + strconv.Quote(k) + strconv.Quote(tags[k])
 	}
 
 	return seriesID
-- 
2.43.0


From 40beedd119c191350b6c5494922046f1294f4279 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:02:04 +0000
Subject: [PATCH 20/34] fix: apply label matchers as PromQL defines them

Inequality and regular expression matchers were treated as equality, a matcher
on instance_id never saw the label the series carries, and an absent label did
not equal the empty string.
---
 internal/promql/promql.go | 37 +++++++++++++++++--------------------
 1 file changed, 17 insertions(+), 20 deletions(-)

diff --git a/internal/promql/promql.go b/internal/promql/promql.go
index 7cd5534..66b81dc 100644
--- a/internal/promql/promql.go
+++ b/internal/promql/promql.go
@@ -300,8 +300,8 @@ type LogCacheQuerier struct {
 
 func (l *LogCacheQuerier) Select(params *storage.SelectParams, ll ...*labels.Matcher) (storage.SeriesSet, error) {
 	var (
-		metric string
-		ls     []labels.Label
+		metric   string
+		matchers []*labels.Matcher
 	)
 	sourceIDs := make(map[string]struct{})
 	for _, l := range ll {
@@ -313,10 +313,7 @@ func (l *LogCacheQuerier) Select(params *storage.SelectParams, ll ...*labels.Mat
 			addSourceIDsFromLabelMatcher(sourceIDs, l)
 			continue
 		}
-		ls = append(ls, labels.Label{
-			Name:  l.Name,
-			Value: l.Value,
-		})
+		matchers = append(matchers, l)
 	}
 
 	if len(sourceIDs) == 0 {
@@ -346,7 +343,17 @@ func (l *LogCacheQuerier) Select(params *storage.SelectParams, ll ...*labels.Mat
 		}
 
 		for _, e := range envelopeBatch.GetEnvelopes().GetBatch() {
-			if !l.hasLabels(e.GetTags(), ls) {
+			tags := make(map[string]string, len(e.GetTags())+2)
+			for k, v := range e.GetTags() {
+				tags[k] = v
+			}
+
+			tags["source_id"] = e.SourceId
+			if e.InstanceId != "" {
+				tags["instance_id"] = e.InstanceId
+			}
+
+			if !matchesAll(tags, matchers) {
 				continue
 			}
 
@@ -379,16 +386,6 @@ func (l *LogCacheQuerier) Select(params *storage.SelectParams, ll ...*labels.Mat
 
 			e.Timestamp = time.Unix(0, e.GetTimestamp()).Truncate(l.interval).UnixNano()
 
-			tags := e.GetTags()
-			if tags == nil {
-				tags = make(map[string]string)
-			}
-
-			tags["source_id"] = e.SourceId
-			if e.InstanceId != "" {
-				tags["instance_id"] = e.InstanceId
-			}
-
 			builder.add(tags, point{
 				t: e.GetTimestamp() / int64(time.Millisecond),
 				v: f,
@@ -429,9 +426,9 @@ func convertToLabels(tags map[string]string) []labels.Label {
 	return ls
 }
 
-func (l *LogCacheQuerier) hasLabels(tags map[string]string, ls []labels.Label) bool {
-	for _, l := range ls {
-		if v, ok := tags[l.Name]; !ok || v != l.Value {
+func matchesAll(tags map[string]string, matchers []*labels.Matcher) bool {
+	for _, m := range matchers {
+		if !m.Matches(tags[m.Name]) {
 			return false
 		}
 	}
-- 
2.43.0


From 135cdf76cb19421384feabb4423f6a53453ac274 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:02:04 +0000
Subject: [PATCH 21/34] fix: bound PromQL reads by the query's context

Reads went on after the query was cancelled or had timed out.
---
 internal/promql/promql.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/promql/promql.go b/internal/promql/promql.go
index 66b81dc..e738304 100644
--- a/internal/promql/promql.go
+++ b/internal/promql/promql.go
@@ -325,7 +325,7 @@ func (l *LogCacheQuerier) Select(params *storage.SelectParams, ll ...*labels.Mat
 	builder := newSeriesBuilder()
 
 	for sourceID := range sourceIDs {
-		ctx, _ := context.WithTimeout(context.Background(), 5*time.Second)
+		ctx, cancel := context.WithTimeout(l.ctx, 5*time.Second)
 		envelopeBatch, err := l.dataReader.Read(ctx, &logcache_v1.ReadRequest{
 			SourceId:  sourceID,
 			StartTime: l.start.Add(-time.Second).UnixNano(),
@@ -336,6 +336,7 @@ func (l *LogCacheQuerier) Select(params *storage.SelectParams, ll ...*labels.Mat
 				logcache_v1.EnvelopeType_TIMER,
 			},
 		})
+		cancel()
 
 		if err != nil {
 			l.errf(err)
-- 
2.43.0


From 60409ce6ed38e68c12c3d23a64a64bdb00226b91 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:02:50 +0000
Subject: [PATCH 22/34] fix: accept a send request without envelopes

Any client could crash the log cache with an empty SendRequest.
---
 internal/routing/ingress_reverse_proxy.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/routing/ingress_reverse_proxy.go b/internal/routing/ingress_reverse_proxy.go
index f30d4a7..7bcf24d 100644
--- a/internal/routing/ingress_reverse_proxy.go
+++ b/internal/routing/ingress_reverse_proxy.go
@@ -45,7 +45,7 @@ func (p *IngressReverseProxy) Send(ctx context.Context, r *rpc.SendRequest) (*rp
 
 	envelopesByNode := make(map[int][]*loggregator_v2.Envelope)
 
-	for _, e := range r.Envelopes.Batch {
+	for _, e := range r.GetEnvelopes().GetBatch() {
 		for _, idx := range p.l(e.GetSourceId()) {
 			envelopesByNode[idx] = append(envelopesByNode[idx], e)
 		}
-- 
2.43.0


From df069a8ed1af7f2ed152f0ac2d1f938832280e63 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:02:50 +0000
Subject: [PATCH 23/34] fix: keep a node's ranges out of reach of its callers

ListRanges handed out the slice RemoveRange edits in place while it was being
sent, and requests without a range crashed the node.
---
 internal/routing/orchestrator.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/internal/routing/orchestrator.go b/internal/routing/orchestrator.go
index 6c781ef..9ad2517 100644
--- a/internal/routing/orchestrator.go
+++ b/internal/routing/orchestrator.go
@@ -2,6 +2,7 @@ package routing
 
 import (
 	"context"
+	"errors"
 	"sync"
 
 	rpc "code.cloudfoundry.org/log-cache/pkg/rpc/logcache_v1"
@@ -33,6 +34,10 @@ func (o *OrchestratorAgent) AddRange(ctx context.Context, r *rpc.AddRangeRequest
 	o.mu.Lock()
 	defer o.mu.Unlock()
 
+	if r.Range == nil {
+		return nil, errors.New("missing range")
+	}
+
 	o.ranges = append(o.ranges, r.Range)
 
 	return &rpc.AddRangeResponse{}, nil
@@ -45,7 +50,7 @@ func (o *OrchestratorAgent) RemoveRange(ctx context.Context, req *rpc.RemoveRang
 	defer o.mu.Unlock()
 
 	for i, r := range o.ranges {
-		if r.Start == req.Range.Start && r.End == req.Range.End {
+		if r.Start == req.GetRange().GetStart() && r.End == req.GetRange().GetEnd() {
 			o.ranges = append(o.ranges[:i], o.ranges[i+1:]...)
 			break
 		}
@@ -60,7 +65,7 @@ func (o *OrchestratorAgent) ListRanges(ctx context.Context, r *rpc.ListRangesReq
 	defer o.mu.RUnlock()
 
 	return &rpc.ListRangesResponse{
-		Ranges: o.ranges,
+		Ranges: append([]*rpc.Range(nil), o.ranges...),
 	}, nil
 }
 
-- 
2.43.0


From ee089b6f0bfdd0d460f5f41322970aca8d425387 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:02:50 +0000
Subject: [PATCH 24/34] fix: route nothing by ranges of unknown nodes

Ranges of an address that is not part of the cluster were routed to node 0.
---
 internal/routing/routing_table.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/internal/routing/routing_table.go b/internal/routing/routing_table.go
index 2f9a4f6..e233239 100644
--- a/internal/routing/routing_table.go
+++ b/internal/routing/routing_table.go
@@ -80,12 +80,18 @@ func (t *RoutingTable) SetRanges(ctx context.Context, in *rpc.SetRangesRequest)
 
 	t.table = nil
 	for addr, ranges := range in.Ranges {
-		for _, r := range ranges.Ranges {
+		idx, ok := t.addrs[addr]
+		if !ok {
+			// Not a node of ours, so there is nowhere to route to.
+			continue
+		}
+
+		for _, r := range ranges.GetRanges() {
 			var sr Range
 			sr.CloneRpcRange(r)
 
 			t.table = append(t.table, rangeInfo{
-				idx: t.addrs[addr],
+				idx: idx,
 				r:   sr,
 			})
 		}
-- 
2.43.0


From 25c9419823906440712284abeee66de84c3983a8 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:02:50 +0000
Subject: [PATCH 25/34] fix: let several goroutines send through one batching
 client

A OneToOne diode allows a single writer, but every connection and every gRPC
request writes from its own goroutine.
---
 internal/routing/batched_ingress_client.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/routing/batched_ingress_client.go b/internal/routing/batched_ingress_client.go
index 249520e..8d9cd21 100644
--- a/internal/routing/batched_ingress_client.go
+++ b/internal/routing/batched_ingress_client.go
@@ -18,7 +18,7 @@ import (
 type BatchedIngressClient struct {
 	c rpc.IngressClient
 
-	buffer   *diodes.OneToOne
+	buffer   *diodes.ManyToOne
 	size     int
 	interval time.Duration
 	log      *log.Logger
@@ -38,7 +38,7 @@ func NewBatchedIngressClient(
 		interval: interval,
 		log:      log,
 
-		buffer: diodes.NewOneToOne(10000, diodes.AlertFunc(func(dropped int) {
+		buffer: diodes.NewManyToOne(10000, diodes.AlertFunc(func(dropped int) {
 			log.Printf("dropped %d envelopes", dropped)
 			incDroppedMetric.Add(float64(dropped))
 		})),
-- 
2.43.0


From 4c1f30cb1dcd7faa787b43a29ea9423d8f5457e6 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:02:50 +0000
Subject: [PATCH 26/34] fix: let the log cache route what the syslog server
 sends

Envelopes were sent as local only, so they stayed on the receiving node where
reads, which go to the node owning the source id, could not find them.
---
 cmd/syslog-server/main.go                  |  2 +-
 internal/routing/batched_ingress_client.go | 22 +++++++++++++++++++++-
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/cmd/syslog-server/main.go b/cmd/syslog-server/main.go
index be1ae05..034ba08 100644
--- a/cmd/syslog-server/main.go
+++ b/cmd/syslog-server/main.go
@@ -52,7 +52,7 @@ func main() {
 
 	server := syslog.NewServer(
 		loggr,
-		routing.NewBatchedIngressClient(BATCH_CHANNEL_SIZE, BATCH_FLUSH_INTERVAL, client, egressDropped, loggr),
+		routing.NewBatchedIngressClient(BATCH_CHANNEL_SIZE, BATCH_FLUSH_INTERVAL, client, egressDropped, loggr, routing.WithRouting()),
 		m,
 		cfg.SyslogTLSCertPath,
 		cfg.SyslogTLSKeyPath,
diff --git a/internal/routing/batched_ingress_client.go b/internal/routing/batched_ingress_client.go
index 8d9cd21..81c2a21 100644
--- a/internal/routing/batched_ingress_client.go
+++ b/internal/routing/batched_ingress_client.go
@@ -22,6 +22,19 @@ type BatchedIngressClient struct {
 	size     int
 	interval time.Duration
 	log      *log.Logger
+
+	localOnly bool
+}
+
+// BatchedIngressClientOption configures a BatchedIngressClient.
+type BatchedIngressClientOption func(*BatchedIngressClient)
+
+// WithRouting lets the node that receives the envelopes route them to the
+// nodes they belong to. By default the receiving node keeps them.
+func WithRouting() BatchedIngressClientOption {
+	return func(b *BatchedIngressClient) {
+		b.localOnly = false
+	}
 }
 
 // NewBatchedIngressClient returns a new BatchedIngressClient.
@@ -31,6 +44,7 @@ func NewBatchedIngressClient(
 	c rpc.IngressClient,
 	incDroppedMetric metrics.Counter,
 	log *log.Logger,
+	opts ...BatchedIngressClientOption,
 ) *BatchedIngressClient {
 	b := &BatchedIngressClient{
 		c:        c,
@@ -42,6 +56,12 @@ func NewBatchedIngressClient(
 			log.Printf("dropped %d envelopes", dropped)
 			incDroppedMetric.Add(float64(dropped))
 		})),
+
+		localOnly: true,
+	}
+
+	for _, o := range opts {
+		o(b)
 	}
 
 	go b.start()
@@ -79,7 +99,7 @@ func (b *BatchedIngressClient) write(batch []interface{}) {
 
 	ctx, _ := context.WithTimeout(context.Background(), 3*time.Second)
 	_, err := b.c.Send(ctx, &rpc.SendRequest{
-		LocalOnly: true,
+		LocalOnly: b.localOnly,
 		Envelopes: &loggregator_v2.EnvelopeBatch{Batch: e},
 	})
 
-- 
2.43.0


From cc77452e92932ecb4d10b94332a40e1cbca3c353 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:02:50 +0000
Subject: [PATCH 27/34] fix: do not shift the routes of all nodes when one can
 not be dialed

Clients are looked up by node index, so skipping one sent every later node's
envelopes and reads to its neighbour.
---
 internal/cache/log_cache.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/internal/cache/log_cache.go b/internal/cache/log_cache.go
index 219c6ac..e54cf2a 100644
--- a/internal/cache/log_cache.go
+++ b/internal/cache/log_cache.go
@@ -196,8 +196,7 @@ func (c *LogCache) setupRouting(s *store.Store) {
 		if i != c.nodeIndex {
 			conn, err := grpc.Dial(addr, c.dialOpts...)
 			if err != nil {
-				log.Printf("failed to dial %s: %s", addr, err)
-				continue
+				log.Fatalf("failed to dial %s: %s", addr, err)
 			}
 
 			bw := routing.NewBatchedIngressClient(
-- 
2.43.0


From cd57aa980b667eeb18e331079ccaa8cafcc666e7 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:02:50 +0000
Subject: [PATCH 28/34] fix: survive syslog messages without optional fields

Any client could crash the syslog server with a message lacking its app name,
process id, timestamp or text.
---
 internal/syslog/server.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/internal/syslog/server.go b/internal/syslog/server.go
index 7007d7b..a289a3a 100644
--- a/internal/syslog/server.go
+++ b/internal/syslog/server.go
@@ -152,6 +152,10 @@ func (s *Server) parseListener(res *syslog.Result) {
 }
 
 func (s *Server) convertToEnvelope(msg syslog.Message) (*loggregator_v2.Envelope, error) {
+	if msg.Appname() == nil || msg.ProcID() == nil || msg.Timestamp() == nil {
+		return nil, errors.New("expected app name, process id and timestamp in message")
+	}
+
 	sourceType, instanceId := s.sourceTypeInstIdFromPID(*msg.ProcID())
 	env := &loggregator_v2.Envelope{
 		SourceId:   *msg.Appname(),
@@ -176,9 +180,14 @@ func (s *Server) convertToEnvelope(msg syslog.Message) (*loggregator_v2.Envelope
 		}
 	}
 
+	var text string
+	if msg.Message() != nil {
+		text = *msg.Message()
+	}
+
 	env.Message = &loggregator_v2.Envelope_Log{
 		Log: &loggregator_v2.Log{
-			Payload: []byte(strings.TrimSpace(*msg.Message())),
+			Payload: []byte(strings.TrimSpace(text)),
 			Type:    s.typeFromPriority(int(*msg.Priority())),
 		},
 	}
-- 
2.43.0


From c29200eba498f1a1a37ba1ebe5f998c9a93cae34 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:31:10 +0000
Subject: [PATCH 29/34] fix: do not ask the logs provider for an unknown
 envelope type

---
 internal/nozzle/nozzle.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/nozzle/nozzle.go b/internal/nozzle/nozzle.go
index 745a7ff..d557692 100644
--- a/internal/nozzle/nozzle.go
+++ b/internal/nozzle/nozzle.go
@@ -219,7 +219,11 @@ func (n *Nozzle) buildBatchReq() *loggregator_v2.EgressBatchRequest {
 	var selectors []*loggregator_v2.Selector
 
 	for _, selectorType := range n.selectors {
-		selectors = append(selectors, selectorTypes[selectorType])
+		selector, ok := selectorTypes[selectorType]
+		if !ok {
+			n.log.Fatalf("unknown selector: %q", selectorType)
+		}
+		selectors = append(selectors, selector)
 	}
 
 	return &loggregator_v2.EgressBatchRequest{
-- 
2.43.0


From d7c6dd4d300dc725b49694e01d20af2848d1b120 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:48:06 +0000
Subject: [PATCH 30/34] fix: keep accepting syslog connections after a
 temporary failure

---
 internal/syslog/server.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/syslog/server.go b/internal/syslog/server.go
index a289a3a..053d6a3 100644
--- a/internal/syslog/server.go
+++ b/internal/syslog/server.go
@@ -92,6 +92,11 @@ func (s *Server) Start() {
 	for {
 		c, err := l.Accept()
 		if err != nil {
+			if ne, ok := err.(net.Error); ok && ne.Temporary() {
+				s.loggr.Printf("syslog server could not accept a connection: %s", err)
+				time.Sleep(10 * time.Millisecond)
+				continue
+			}
 			s.loggr.Printf("syslog server no longer accepting connections: %s", err)
 			return
 		}
-- 
2.43.0


From 7d6de320ce3dfba8bd352befd364d0043a625242 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:04:42 +0000
Subject: [PATCH 31/34] fix: bound the number of steps of a PromQL range query

---
 internal/promql/promql.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/promql/promql.go b/internal/promql/promql.go
index e738304..cf95ee6 100644
--- a/internal/promql/promql.go
+++ b/internal/promql/promql.go
@@ -18,6 +18,9 @@ import (
 	"github.com/prometheus/prometheus/storage"
 )
 
+// maxRangeQuerySteps bounds the steps of a range query, as Prometheus does.
+const maxRangeQuerySteps = 11000
+
 type PromQL struct {
 	r            DataReader
 	log          *log.Logger
@@ -212,6 +215,12 @@ func (q *PromQL) RangeQuery(ctx context.Context, req *logcache_v1.PromQL_RangeQu
 		return nil, fmt.Errorf("couldn't parse end: %s", err)
 	}
 
+	// The engine allocates a point per step up front, so an unbounded number of
+	// steps lets a single request exhaust the node's memory.
+	if endTime.Sub(startTime)/step > maxRangeQuerySteps {
+		return nil, fmt.Errorf("exceeded maximum resolution of %d points per timeseries: use a larger step or a shorter range", maxRangeQuerySteps)
+	}
+
 	qq, err := queryable.NewRangeQuery(lcq, req.Query, startTime, endTime, step)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 9130ce4cd3451027016ec018f306dc8bcca840da Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:04:52 +0000
Subject: [PATCH 32/34] fix: apply negative source_id matchers of PromQL
 selectors

---
 internal/promql/promql.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/promql/promql.go b/internal/promql/promql.go
index cf95ee6..49ffda8 100644
--- a/internal/promql/promql.go
+++ b/internal/promql/promql.go
@@ -320,7 +320,9 @@ func (l *LogCacheQuerier) Select(params *storage.SelectParams, ll ...*labels.Mat
 		}
 		if l.Name == "source_id" {
 			addSourceIDsFromLabelMatcher(sourceIDs, l)
-			continue
+			if l.Type == labels.MatchEqual || l.Type == labels.MatchRegexp {
+				continue
+			}
 		}
 		matchers = append(matchers, l)
 	}
-- 
2.43.0


From 9644c458ac8cf5aae91fc199754cd907934ced3c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:39:45 +0000
Subject: [PATCH 33/34] fix: bound the leadership probe of the scheduler in
 time

---
 cmd/scheduler/main.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/scheduler/main.go b/cmd/scheduler/main.go
index 2f90ff1..93c0979 100644
--- a/cmd/scheduler/main.go
+++ b/cmd/scheduler/main.go
@@ -6,6 +6,7 @@ import (
 	"net/http"
 	_ "net/http/pprof"
 	"os"
+	"time"
 
 	envstruct "code.cloudfoundry.org/go-envstruct"
 	. "code.cloudfoundry.org/log-cache/internal/scheduler"
@@ -36,8 +37,9 @@ func main() {
 	}
 
 	if cfg.LeaderElectionEndpoint != "" {
+		client := &http.Client{Timeout: 5 * time.Second}
 		opts = append(opts, WithSchedulerLeadership(func() bool {
-			resp, err := http.Get(cfg.LeaderElectionEndpoint)
+			resp, err := client.Get(cfg.LeaderElectionEndpoint)
 			if err != nil {
 				log.Printf("failed to read from leaderhip endpoint: %s", err)
 				return false
-- 
2.43.0


From eb52fa42ab67bb80d369fb9da83b6803510001c0 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:32:38 +0000
Subject: [PATCH 34/34] fix: survive a gRPC read reply without envelopes

---
 pkg/client/client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/client/client.go b/pkg/client/client.go
index 53367ab..0ba1d5a 100644
--- a/pkg/client/client.go
+++ b/pkg/client/client.go
@@ -235,7 +235,7 @@ func (c *Client) grpcRead(ctx context.Context, sourceID string, start time.Time,
 	if err != nil {
 		return nil, err
 	}
-	return resp.Envelopes.Batch, nil
+	return resp.GetEnvelopes().GetBatch(), nil
 }
 
 // Meta returns meta information from the entire LogCache.
-- 
2.43.0

