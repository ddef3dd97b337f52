From ead39c17c8b5db1c49826d02a686eb9fda3f1b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:22 +0000
Subject: [PATCH 01/40] fix: NewDatum keeps the size2 argument

---
 data/datum.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/datum.go b/data/datum.go
index 5db0810..fb0aa7c 100644
--- a/data/datum.go
+++ b/data/datum.go
@@ -22,7 +22,7 @@ func NewDatum(feature []float32,
 			Dim1:       dim1,
 			Dim2:       dim2,
 			Size1:      size1,
-			Size2:      size1,
+			Size2:      size2,
 			GroupLabel: groupLabel,
 		},
 		Value: &pb.DatumValue{
-- 
2.43.0


From e0a5abe44d19f4faed64ae7d771ffd0ae61c167b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:22 +0000
Subject: [PATCH 02/40] fix: aggregated search keeps the better score when
 lower is better, and each entry once

---
 data/aggregator.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/data/aggregator.go b/data/aggregator.go
index 5dd9f33..9970244 100644
--- a/data/aggregator.go
+++ b/data/aggregator.go
@@ -46,7 +46,7 @@ func (a *Aggregator) IsNewScoredBetter(old, new float64) bool {
 			return true
 		}
 	} else {
-		if old < new {
+		if new < old {
 			return true
 		}
 	}
@@ -100,6 +100,16 @@ func (a *Aggregator) InsertToList(scoredDatum *pb.ScoredDatum) error {
 	return nil
 }
 
+// removeFromList removes the entry with given key from the list if it is there
+func (a *Aggregator) removeFromList(keyString string) {
+	for i, e := range a.List {
+		if keyByte, err := GetKeyAsBytes(e.GetDatum()); err == nil && string(keyByte) == keyString {
+			a.List = append(a.List[:i], a.List[i+1:]...)
+			return
+		}
+	}
+}
+
 func (a *Aggregator) Insert(scoredDatum *pb.ScoredDatum) error {
 	scoredDatum.Score = a.BestScore(scoredDatum)
 	if a.Grouped {
@@ -124,6 +134,7 @@ func (a *Aggregator) Insert(scoredDatum *pb.ScoredDatum) error {
 		if previousScore, ok := a.DeDuplicationMap.Get(keyString); ok {
 			if a.IsNewScoredBetter(previousScore.(float64), scoredDatum.GetScore()) {
 				a.DeDuplicationMap.Set(keyString, scoredDatum.GetScore(), cache.NoExpiration)
+				a.removeFromList(keyString) // the entry stays in the list only once
 				return a.InsertToList(scoredDatum)
 			}
 		} else {
-- 
2.43.0


From 89d6bf21713c642edc4149360afd1f59a7e4b78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:25 +0000
Subject: [PATCH 03/40] fix: searches with limit 0 or a huge limit do not panic
 or exhaust memory

---
 data/aggregator.go | 2 +-
 data/search.go     | 9 ++++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/data/aggregator.go b/data/aggregator.go
index 9970244..fefaa3d 100644
--- a/data/aggregator.go
+++ b/data/aggregator.go
@@ -81,7 +81,7 @@ func (a *Aggregator) InsertToList(scoredDatum *pb.ScoredDatum) error {
 	if uint32(len(a.List)) < limit {
 		a.List = append(a.List, scoredDatum)
 		itemAdded = true
-	} else if a.IsNewScoredBetter(a.List[len(a.List)-1].Score, scoredDatum.Score) {
+	} else if limit > 0 && a.IsNewScoredBetter(a.List[len(a.List)-1].Score, scoredDatum.Score) {
 		a.List[len(a.List)-1] = scoredDatum
 		itemAdded = true
 	}
diff --git a/data/search.go b/data/search.go
index 566e714..04dec1a 100644
--- a/data/search.go
+++ b/data/search.go
@@ -63,6 +63,9 @@ type Collector struct {
 // Insert add a new scored datum to collector
 func (c *Collector) Insert(scoredDatum *pb.ScoredDatum) error {
 	itemAdded := false
+	if c.N == 0 {
+		return nil
+	}
 	if uint32(len(c.List)) < c.N {
 		c.List = append(c.List, scoredDatum)
 		itemAdded = true
@@ -303,7 +306,7 @@ func (dt *Data) SearchAnnoy(datum *pb.Datum, config *pb.SearchConfig) *Collector
 		config = DefaultSearchConfig()
 	}
 	c := &Collector{}
-	c.List = make([]*pb.ScoredDatum, 0, config.Limit)
+	c.List = make([]*pb.ScoredDatum, 0)
 	c.DatumKey = datum.Key
 	c.ScoreFunc = GetVectorComparisonFunction(config.ScoreFuncName)
 	c.HigherIsBetter = config.HigherIsBetter
@@ -318,7 +321,7 @@ func (dt *Data) SearchAnnoy(datum *pb.Datum, config *pb.SearchConfig) *Collector
 		dt.Annoyer.AnnoyIndex.GetNnsByVector(datum.Key.Feature, len(index), int(config.Limit), &result, &distances)
 		if result != nil {
 			counter := uint32(0)
-			for i := 0; i < len(result); i++ {
+			for i := 0; i < len(result) && counter < c.N; i++ {
 				datumE := index[result[i]]
 				if datumE != nil && c.PassesFilters(datumE) {
 					scoredDatum := &pb.ScoredDatum{
@@ -351,7 +354,7 @@ func (dt *Data) Search(datum *pb.Datum, config *pb.SearchConfig, c *Collector) *
 			config = DefaultSearchConfig()
 		}
 		c = &Collector{}
-		c.List = make([]*pb.ScoredDatum, 0, config.Limit)
+		c.List = make([]*pb.ScoredDatum, 0)
 		c.DatumKey = datum.Key
 		c.ScoreFunc = GetVectorComparisonFunction(config.ScoreFuncName)
 		c.HigherIsBetter = config.HigherIsBetter
-- 
2.43.0


From 30124b5798a584df81d0bbe3f2f92dee00e417a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:54 +0000
Subject: [PATCH 04/40] fix: requests with missing fields do not crash the node

---
 data/aggregator.go  |  4 ++--
 data/datum.go       |  8 ++++++++
 data/newsync.go     |  4 ++++
 data/search.go      | 10 +++++-----
 node/node.go        |  3 +++
 node/nodeservice.go |  3 +++
 6 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/data/aggregator.go b/data/aggregator.go
index fefaa3d..efb384a 100644
--- a/data/aggregator.go
+++ b/data/aggregator.go
@@ -63,7 +63,7 @@ func (a *Aggregator) BestScore(scoredDatum *pb.ScoredDatum) float64 {
 			isSet = true
 		}
 		for _, datum := range a.Context.GetDatum() {
-			newScore := a.ScoreFunc(scoredDatum.Datum.Key.Feature, datum.Key.Feature)
+			newScore := a.ScoreFunc(scoredDatum.GetDatum().GetKey().GetFeature(), datum.GetKey().GetFeature())
 			if !isSet || a.IsNewScoredBetter(current, newScore) {
 				current = newScore
 				isSet = true
@@ -113,7 +113,7 @@ func (a *Aggregator) removeFromList(keyString string) {
 func (a *Aggregator) Insert(scoredDatum *pb.ScoredDatum) error {
 	scoredDatum.Score = a.BestScore(scoredDatum)
 	if a.Grouped {
-		keyString := util.EncodeToString(scoredDatum.Datum.Key.GroupLabel)
+		keyString := util.EncodeToString(scoredDatum.GetDatum().GetKey().GetGroupLabel())
 		if aGroupAggregatorInterface, ok := a.DeDuplicationMap.Get(keyString); ok {
 			aGroupAggregator := aGroupAggregatorInterface.(AggregatorInterface)
 			return aGroupAggregator.Insert(scoredDatum)
diff --git a/data/datum.go b/data/datum.go
index fb0aa7c..362c945 100644
--- a/data/datum.go
+++ b/data/datum.go
@@ -1,6 +1,8 @@
 package data
 
 import (
+	"errors"
+
 	pb "github.com/bgokden/veri/veriservice"
 
 	"github.com/bgokden/veri/data/gencoder"
@@ -103,10 +105,16 @@ func NewDatum(feature []float32,
 // Gencode
 
 func GetKeyAsBytes(datum *pb.Datum) ([]byte, error) {
+	if datum.GetKey() == nil {
+		return nil, errors.New("Datum has no key")
+	}
 	return gencoder.MarshalKey(datum.Key)
 }
 
 func GetValueAsBytes(datum *pb.Datum) ([]byte, error) {
+	if datum.GetValue() == nil {
+		return nil, errors.New("Datum has no value")
+	}
 	return gencoder.MarshalValue(datum.Value)
 }
 
diff --git a/data/newsync.go b/data/newsync.go
index 2040b5c..160432d 100644
--- a/data/newsync.go
+++ b/data/newsync.go
@@ -2,6 +2,7 @@ package data
 
 import (
 	"bytes"
+	"errors"
 	"io/ioutil"
 	"log"
 	"math/rand"
@@ -25,6 +26,9 @@ func CloseEnough(a, b int64) bool {
 }
 
 func (dt *Data) InsertBDMap(datum *pb.Datum, config *pb.InsertConfig) error {
+	if datum.GetKey() == nil || datum.GetValue() == nil {
+		return errors.New("Datum should have a key and a value")
+	}
 	exprireAt := int64(0)
 	if config != nil && config.TTL != 0 {
 		exprireAt = time.Now().Unix() + int64(config.TTL)
diff --git a/data/search.go b/data/search.go
index 04dec1a..77d89d4 100644
--- a/data/search.go
+++ b/data/search.go
@@ -307,7 +307,7 @@ func (dt *Data) SearchAnnoy(datum *pb.Datum, config *pb.SearchConfig) *Collector
 	}
 	c := &Collector{}
 	c.List = make([]*pb.ScoredDatum, 0)
-	c.DatumKey = datum.Key
+	c.DatumKey = datum.GetKey()
 	c.ScoreFunc = GetVectorComparisonFunction(config.ScoreFuncName)
 	c.HigherIsBetter = config.HigherIsBetter
 	c.N = config.Limit
@@ -318,7 +318,7 @@ func (dt *Data) SearchAnnoy(datum *pb.Datum, config *pb.SearchConfig) *Collector
 		var result []int
 		var distances []float32
 		index := *(dt.Annoyer.DataIndex)
-		dt.Annoyer.AnnoyIndex.GetNnsByVector(datum.Key.Feature, len(index), int(config.Limit), &result, &distances)
+		dt.Annoyer.AnnoyIndex.GetNnsByVector(datum.GetKey().GetFeature(), len(index), int(config.Limit), &result, &distances)
 		if result != nil {
 			counter := uint32(0)
 			for i := 0; i < len(result) && counter < c.N; i++ {
@@ -326,7 +326,7 @@ func (dt *Data) SearchAnnoy(datum *pb.Datum, config *pb.SearchConfig) *Collector
 				if datumE != nil && c.PassesFilters(datumE) {
 					scoredDatum := &pb.ScoredDatum{
 						Datum: datumE,
-						Score: c.ScoreFunc(datum.Key.Feature, datumE.Key.Feature),
+						Score: c.ScoreFunc(datum.GetKey().GetFeature(), datumE.Key.Feature),
 					}
 					// log.Printf("Result %v d: %v\n", result[i], distances[i])
 					c.List = append(c.List, scoredDatum)
@@ -355,7 +355,7 @@ func (dt *Data) Search(datum *pb.Datum, config *pb.SearchConfig, c *Collector) *
 		}
 		c = &Collector{}
 		c.List = make([]*pb.ScoredDatum, 0)
-		c.DatumKey = datum.Key
+		c.DatumKey = datum.GetKey()
 		c.ScoreFunc = GetVectorComparisonFunction(config.ScoreFuncName)
 		c.HigherIsBetter = config.HigherIsBetter
 		c.N = config.Limit
@@ -366,7 +366,7 @@ func (dt *Data) Search(datum *pb.Datum, config *pb.SearchConfig, c *Collector) *
 	dt.LoopDBMap(func(entry *DBMapEntry) error {
 		if c.PassesFilters(entry.Datum) {
 			err := c.Insert(&pb.ScoredDatum{
-				Score: c.ScoreFunc(entry.Datum.Key.Feature, datum.Key.Feature),
+				Score: c.ScoreFunc(entry.Datum.Key.Feature, datum.GetKey().GetFeature()),
 				Datum: entry.Datum,
 			})
 			if err != nil {
diff --git a/node/node.go b/node/node.go
index 95456da..de00a01 100644
--- a/node/node.go
+++ b/node/node.go
@@ -106,6 +106,9 @@ func (n *Node) CheckPeer(peer *pb.Peer) bool {
 }
 
 func (n *Node) AddPeerElement(peer *pb.Peer) error {
+	if peer == nil {
+		return nil
+	}
 	if !n.isPeerSimilarToNode(peer) {
 		idOfPeer := GetIdOfPeer(peer)
 		if oldPeerInterface, ok := n.PeerList.Get(idOfPeer); ok {
diff --git a/node/nodeservice.go b/node/nodeservice.go
index 753ab84..9c29c7f 100644
--- a/node/nodeservice.go
+++ b/node/nodeservice.go
@@ -117,6 +117,9 @@ func (n *Node) GetDataInfo(ctx context.Context, getDataRequest *pb.GetDataReques
 
 func (n *Node) SearchStream(searchRequest *pb.SearchRequest, stream pb.VeriService_SearchStreamServer) error {
 	config := searchRequest.GetConfig()
+	if config == nil {
+		return errors.New("Search request has no config")
+	}
 	uid := config.GetUuid()
 	if uid == "" {
 		uid, err := uuid.NewRandom()
-- 
2.43.0


From 7ddfea72f8530e7470ac29822e4a0f01de67a45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:57 +0000
Subject: [PATCH 05/40] fix: DataStream sends from one goroutine and finishes
 sending before it returns

---
 node/nodeservice.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/node/nodeservice.go b/node/nodeservice.go
index 9c29c7f..9d21bda 100644
--- a/node/nodeservice.go
+++ b/node/nodeservice.go
@@ -84,23 +84,25 @@ func (n *Node) DataStream(getDataRequest *pb.GetDataRequest, stream pb.VeriServi
 		return err
 	}
 	datumStreamAll := make(chan *pb.Datum, 100)
+	sendResult := make(chan error, 1)
 	go func() {
+		var sendErr error
 		for datum := range datumStreamAll {
 			// log.Printf("Send label: %v\n", string(datum.Value.Label))
-			stream.Send(datum)
+			if sendErr == nil { // after a failure only drain
+				sendErr = stream.Send(datum)
+			}
 		}
+		sendResult <- sendErr
 	}()
 	err = dt.StreamAll(datumStreamAll)
+	close(datumStreamAll)
+	sendErr := <-sendResult // a stream has a single sender, which has to finish first
 	if err != nil {
 		return err
 	}
-	close(datumStreamAll)
-	for datum := range datumStreamAll {
-		// log.Printf("Flush - Send label: %v\n", string(datum.Value.Label))
-		stream.Send(datum)
-	}
 	// log.Printf("DataStream finished\n")
-	return nil
+	return sendErr
 }
 
 func (n *Node) GetDataInfo(ctx context.Context, getDataRequest *pb.GetDataRequest) (*pb.DataInfo, error) {
-- 
2.43.0


From 8b4b40b8cc10977175c6ad3dd7081168cea83c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:17 +0000
Subject: [PATCH 06/40] fix: AggregatedSearch leaves the shared search config
 alone and hands over its results before the deadline

---
 data/search.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/data/search.go b/data/search.go
index 77d89d4..b456328 100644
--- a/data/search.go
+++ b/data/search.go
@@ -160,11 +160,19 @@ func GetSearchKey(datum *pb.Datum, config *pb.SearchConfig) string {
 	return util.EncodeToString(append(keyByte, signature...))
 }
 
+// getTimeoutDuration converts a timeout in milliseconds, very large timeouts are limited to a day
+func getTimeoutDuration(timeout uint64) time.Duration {
+	return time.Duration(minUint64(timeout, 24*60*60*1000)) * time.Millisecond
+}
+
 // AggregatedSearch searches and merges other resources
 func (dt *Data) AggregatedSearch(datum *pb.Datum, scoredDatumStreamOutput chan<- *pb.ScoredDatum, upperWaitGroup *sync.WaitGroup, config *pb.SearchConfig) error {
-	duration := time.Duration(config.Timeout) * time.Millisecond
-	timeLimit := time.After(duration)
+	duration := getTimeoutDuration(config.Timeout)
+	timeLimit := time.After(time.Duration(float64(duration) * 0.95)) // leave time to the caller for merging
 	queryKey := GetSearchKey(datum, config)
+	var downstreamConfig pb.SearchConfig
+	copier.Copy(&downstreamConfig, config) // config is shared with other searches
+	config = &downstreamConfig
 	config.Timeout = uint64(float64(config.Timeout) * 0.9) // Decrase timeout for downstream
 	if dt.QueryCache == nil {
 		dt.InitData()
@@ -255,7 +263,7 @@ func CloneResult(result []*pb.ScoredDatum) []*pb.ScoredDatum {
 
 // MultiAggregatedSearch searches and merges other resources
 func (dt *Data) MultiAggregatedSearch(datumList []*pb.Datum, config *pb.SearchConfig, context *pb.SearchContext) ([]*pb.ScoredDatum, error) {
-	duration := time.Duration(config.Timeout) * time.Millisecond
+	duration := getTimeoutDuration(config.Timeout)
 	timeLimit := time.After(duration)
 	// Search Start
 	scoredDatumStream := make(chan *pb.ScoredDatum, 100)
-- 
2.43.0


From 0ea14e9b43fac8c2dab4436709247652abbfb21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:20 +0000
Subject: [PATCH 07/40] fix: searches that are late for the deadline do not
 leak goroutines

---
 data/search.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/data/search.go b/data/search.go
index b456328..cb9326f 100644
--- a/data/search.go
+++ b/data/search.go
@@ -165,6 +165,17 @@ func getTimeoutDuration(timeout uint64) time.Duration {
 	return time.Duration(minUint64(timeout, 24*60*60*1000)) * time.Millisecond
 }
 
+// drainUntilDone lets late searches finish after a timeout, otherwise they would block forever
+func drainUntilDone(scoredDatumStream <-chan *pb.ScoredDatum, done <-chan struct{}) {
+	for {
+		select {
+		case <-scoredDatumStream:
+		case <-done:
+			return
+		}
+	}
+}
+
 // AggregatedSearch searches and merges other resources
 func (dt *Data) AggregatedSearch(datum *pb.Datum, scoredDatumStreamOutput chan<- *pb.ScoredDatum, upperWaitGroup *sync.WaitGroup, config *pb.SearchConfig) error {
 	duration := getTimeoutDuration(config.Timeout)
@@ -229,6 +240,7 @@ func (dt *Data) AggregatedSearch(datum *pb.Datum, scoredDatumStreamOutput chan<-
 			break
 		case <-timeLimit:
 			log.Printf("timeout")
+			go drainUntilDone(scoredDatumStream, waitChannel)
 			dataAvailable = false
 			break
 		}
@@ -299,6 +311,7 @@ func (dt *Data) MultiAggregatedSearch(datumList []*pb.Datum, config *pb.SearchCo
 			break
 		case <-timeLimit:
 			// log.Printf("timeout")
+			go drainUntilDone(scoredDatumStream, waitChannel)
 			dataAvailable = false
 			break
 		}
-- 
2.43.0


From 142c1ddff53bba59abb25c1113fb543dcfb829d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:22 +0000
Subject: [PATCH 08/40] fix: peers answer every vector of a search with several
 query vectors

---
 data/search.go      | 12 ++++++++++--
 node/nodeservice.go |  1 +
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/data/search.go b/data/search.go
index cb9326f..0995653 100644
--- a/data/search.go
+++ b/data/search.go
@@ -2,6 +2,7 @@ package data
 
 import (
 	"encoding/json"
+	"fmt"
 	"log"
 	"sort"
 	"strings"
@@ -282,9 +283,16 @@ func (dt *Data) MultiAggregatedSearch(datumList []*pb.Datum, config *pb.SearchCo
 	var queryWaitGroup sync.WaitGroup
 	waitChannel := make(chan struct{})
 	// loop datumList
-	for _, datum := range datumList {
+	for i, datum := range datumList {
 		queryWaitGroup.Add(1)
-		go dt.AggregatedSearch(datum, scoredDatumStream, &queryWaitGroup, config)
+		datumConfig := config
+		if len(datumList) > 1 && config.Uuid != "" {
+			// Peers answer a query id once, so each datum needs its own id
+			datumConfig = &pb.SearchConfig{}
+			copier.Copy(datumConfig, config)
+			datumConfig.Uuid = fmt.Sprintf("%v-%v", config.Uuid, i)
+		}
+		go dt.AggregatedSearch(datum, scoredDatumStream, &queryWaitGroup, datumConfig)
 	}
 	go func() {
 		defer close(waitChannel)
diff --git a/node/nodeservice.go b/node/nodeservice.go
index 9d21bda..aad91c0 100644
--- a/node/nodeservice.go
+++ b/node/nodeservice.go
@@ -129,6 +129,7 @@ func (n *Node) SearchStream(searchRequest *pb.SearchRequest, stream pb.VeriServi
 			return err
 		}
 		config.Uuid = uid.String()
+		n.QueryUUIDCache.Add(config.Uuid, true, cache.DefaultExpiration)
 	} else {
 		err := n.QueryUUIDCache.Add(uid, true, cache.DefaultExpiration)
 		if err != nil {
-- 
2.43.0


From 091781dfa127adaaeccdb61d0ea3b53f42bda8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:24 +0000
Subject: [PATCH 09/40] fix: index searches do not read outside of vectors, use
 a replaced index or leak native results

---
 data/data.go    |  1 +
 data/newsync.go |  8 ++++++--
 data/search.go  | 10 ++++++++--
 data/util.go    | 10 ++++++++++
 4 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/data/data.go b/data/data.go
index be2b8b9..52abb7f 100644
--- a/data/data.go
+++ b/data/data.go
@@ -29,6 +29,7 @@ type Annoyer struct {
 	DataIndex     *[]*pb.Datum
 	AnnoyIndex    annoyindex.AnnoyIndexAngular
 	BuildFileName string
+	Dim           int // dimension of AnnoyIndex
 }
 
 // Data represents a dataset with similar struture
diff --git a/data/newsync.go b/data/newsync.go
index 160432d..bda5094 100644
--- a/data/newsync.go
+++ b/data/newsync.go
@@ -151,6 +151,7 @@ func (dt *Data) Process(force bool) error {
 		newDataIndex := make([]*pb.Datum, max(1000, int(dt.N)))
 		var newAnnoyIndex annoyindex.AnnoyIndexAngular
 		var newTempFileName string
+		var newDim int
 
 		err := dt.LoopDBMap(func(entry *DBMapEntry) error {
 			n++
@@ -173,15 +174,17 @@ func (dt *Data) Process(force bool) error {
 			if dt.Alive && i < len(newDataIndex) {
 				if newAnnoyIndex == nil {
 					// newAnnoyIndex = annoyindex.NewAnnoyIndexEuclidean(len(datum.Key.Feature))
-					newAnnoyIndex = annoyindex.NewAnnoyIndexAngular(len(entry.Datum.Key.Feature))
+					newDim = max(1, len(entry.Datum.Key.Feature))
+					newAnnoyIndex = annoyindex.NewAnnoyIndexAngular(newDim)
 					tmpfile, err := ioutil.TempFile("", "annoy")
 					if err == nil {
 						newTempFileName = tmpfile.Name()
+						tmpfile.Close()
 						newAnnoyIndex.OnDiskBuild(newTempFileName)
 					}
 
 				}
-				newAnnoyIndex.AddItem(i, entry.Datum.Key.Feature)
+				newAnnoyIndex.AddItem(i, fitToDimension(entry.Datum.Key.Feature, newDim))
 				newDataIndex[i] = entry.Datum
 			}
 			if !dt.Alive || (insertionCounter < limit && rand.Float64() < fraction) {
@@ -219,6 +222,7 @@ func (dt *Data) Process(force bool) error {
 			dt.Annoyer.BuildFileName = newTempFileName
 			dt.Annoyer.AnnoyIndex = newAnnoyIndex
 			dt.Annoyer.DataIndex = &newDataIndex
+			dt.Annoyer.Dim = newDim
 			dt.Annoyer.Unlock()
 			if len(oldFile) > 0 {
 				os.Remove(oldFile)
diff --git a/data/search.go b/data/search.go
index 0995653..cd315f6 100644
--- a/data/search.go
+++ b/data/search.go
@@ -8,9 +8,11 @@ import (
 	"strings"
 	"sync"
 	"time"
+	"unsafe"
 
 	"github.com/jinzhu/copier"
 
+	"github.com/bgokden/veri/annoyindex"
 	"github.com/bgokden/veri/util"
 	pb "github.com/bgokden/veri/veriservice"
 	"github.com/tidwall/gjson"
@@ -342,12 +344,12 @@ func (dt *Data) SearchAnnoy(datum *pb.Datum, config *pb.SearchConfig) *Collector
 	c.N = config.Limit
 	c.Filters = config.Filters
 	c.GroupFilters = config.GroupFilters
+	dt.Annoyer.RLock()
 	if dt.Annoyer.AnnoyIndex != nil && dt.Annoyer.DataIndex != nil && len(*(dt.Annoyer.DataIndex)) > 0 {
-		dt.Annoyer.RLock()
 		var result []int
 		var distances []float32
 		index := *(dt.Annoyer.DataIndex)
-		dt.Annoyer.AnnoyIndex.GetNnsByVector(datum.GetKey().GetFeature(), len(index), int(config.Limit), &result, &distances)
+		dt.Annoyer.AnnoyIndex.GetNnsByVector(fitToDimension(datum.GetKey().GetFeature(), dt.Annoyer.Dim), len(index), int(config.Limit), &result, &distances)
 		if result != nil {
 			counter := uint32(0)
 			for i := 0; i < len(result) && counter < c.N; i++ {
@@ -366,8 +368,12 @@ func (dt *Data) SearchAnnoy(datum *pb.Datum, config *pb.SearchConfig) *Collector
 				}
 			}
 		}
+		// results are allocated by the native library
+		annoyindex.Swig_free(*(*uintptr)(unsafe.Pointer(&result)))
+		annoyindex.Swig_free(*(*uintptr)(unsafe.Pointer(&distances)))
 		dt.Annoyer.RUnlock()
 	} else {
+		dt.Annoyer.RUnlock()
 		log.Println("Fallback to regular search")
 		// return c // Fallback is emptry list now
 		return dt.Search(datum, config, nil)
diff --git a/data/util.go b/data/util.go
index 213a37e..e7d0b67 100644
--- a/data/util.go
+++ b/data/util.go
@@ -25,6 +25,16 @@ func CalculateAverage(avg []float32, p []float32, n float32) []float32 {
 	return avg
 }
 
+// fitToDimension pads with zeros or truncates a vector to given dimension
+func fitToDimension(v []float32, dim int) []float32 {
+	if len(v) == dim {
+		return v
+	}
+	fitted := make([]float32, dim)
+	copy(fitted, v)
+	return fitted
+}
+
 func QuickVectorDistance(arr1 []float32, arr2 []float32) float64 {
 	minLen := min(len(arr1), len(arr2))
 	var ret float64
-- 
2.43.0


From 6489abca09e68e6a03df01e4000affb1f76f85b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:04 +0000
Subject: [PATCH 10/40] fix: data set state shared by concurrent operations is
 synchronized

---
 data/data.go    | 79 ++++++++++++++++++++++++++++++++++++++-----------
 data/dataset.go |  2 ++
 data/insert.go  | 13 ++++----
 data/newsync.go | 28 ++++++++++++------
 data/search.go  |  9 +++---
 node/node.go    |  7 +++--
 6 files changed, 99 insertions(+), 39 deletions(-)

diff --git a/data/data.go b/data/data.go
index 52abb7f..b5aae0d 100644
--- a/data/data.go
+++ b/data/data.go
@@ -56,9 +56,51 @@ type Data struct {
 }
 
 func (d *Data) GetConfig() *pb.DataConfig {
+	d.RLock()
+	defer d.RUnlock()
 	return d.Config
 }
 
+func (dt *Data) isAlive() bool {
+	dt.RLock()
+	defer dt.RUnlock()
+	return dt.Alive
+}
+
+func (dt *Data) isInitialized() bool {
+	dt.RLock()
+	defer dt.RUnlock()
+	return dt.Initialized
+}
+
+func (dt *Data) getN() uint64 {
+	dt.RLock()
+	defer dt.RUnlock()
+	return dt.N
+}
+
+func (dt *Data) getQueryCache() *cache.Cache {
+	dt.RLock()
+	defer dt.RUnlock()
+	return dt.QueryCache
+}
+
+// GetSources returns the list of current sources
+func (dt *Data) GetSources() []DataSource {
+	dt.RLock()
+	sources := dt.Sources
+	dt.RUnlock()
+	if sources == nil {
+		return nil
+	}
+	sourceList := sources.Items()
+	result := make([]DataSource, 0, len(sourceList))
+	for _, sourceItem := range sourceList {
+		result = append(result, sourceItem.Object.(DataSource))
+	}
+	return result
+}
+
 // NewData creates a data struct
 func NewData(config *pb.DataConfig, dataPath string) (*Data, error) {
 	dt := &Data{
@@ -107,9 +149,11 @@ func NewTempData() (*Data, error) {
 
 // Close currently closes underlying kv store
 func (dt *Data) Close() error {
+	dt.Lock()
 	dt.Alive = false
-	if dt.Sources != nil && len(dt.Sources.Items()) > 0 {
-		for dt.N > 0 {
+	dt.Unlock()
+	if len(dt.GetSources()) > 0 {
+		for dt.getN() > 0 {
 			dt.Process(true)
 		}
 	}
@@ -127,16 +171,12 @@ func (dt *Data) DeletePath() error {
 
 // Check if dataset is active
 func (dt *Data) CheckIfActive() bool {
-	if dt.N > 0 {
+	if dt.getN() > 0 {
 		return true
 	}
-	if dt.Sources != nil && len(dt.Sources.Items()) > 0 {
-		sourceList := dt.Sources.Items()
-		for _, sourceItem := range sourceList { // Assumption is that random map runs are random enough
-			source := sourceItem.Object.(DataSource)
-			if source.GetDataInfo().N > 0 {
-				return true
-			}
+	for _, source := range dt.GetSources() {
+		if source.GetDataInfo().GetN() > 0 { // info is nil if source is not reachable
+			return true
 		}
 	}
 	return false
@@ -153,7 +193,7 @@ func (dt *Data) Run() error {
 	nextTime := getCurrentTime()
 	gcCounter := 10
 	for {
-		if !dt.Alive {
+		if !dt.isAlive() {
 			break
 		}
 		if nextTime <= getCurrentTime() {
@@ -205,6 +245,8 @@ func CheckIfUnkownError(err error) bool {
 // GetDataInfo out of data
 func (dt *Data) GetDataInfo() *pb.DataInfo {
 	// log.Printf("Data: %v\n", dt)
+	dt.RLock()
+	defer dt.RUnlock()
 	return &pb.DataInfo{
 		Avg:               dt.Avg,
 		N:                 dt.N,
@@ -224,27 +266,28 @@ func (dt *Data) AddSource(dataSource DataSource) error {
 	if dataSource == nil {
 		return errors.New("DataSource is nil")
 	}
-	if dt.Sources == nil {
+	if !dt.isInitialized() {
 		dt.InitData()
 	}
-	if dt.Sources == nil {
+	dt.RLock()
+	sources := dt.Sources
+	dt.RUnlock()
+	if sources == nil {
 		return errors.New("Sources is still nil")
 	}
-	return dt.Sources.Add(dataSource.GetID(), dataSource, cache.DefaultExpiration)
+	return sources.Add(dataSource.GetID(), dataSource, cache.DefaultExpiration)
 }
 
 func (dt *Data) GetID() string {
-	return dt.Config.Name
+	return dt.GetConfig().Name
 }
 
 func (dt *Data) RunOnRandomSources(sourceLimit int, sourceFunction func(dataSource DataSource) error) error {
-	sourceList := dt.Sources.Items()
-	for _, sourceItem := range sourceList { // Assumption is that random map runs are random enough
+	for _, source := range dt.GetSources() { // Assumption is that random map runs are random enough
 		if sourceLimit < 0 {
 			break
 		}
 		sourceLimit--
-		source := sourceItem.Object.(DataSource)
 		err := sourceFunction(source)
 		if err != nil {
 			return err
diff --git a/data/dataset.go b/data/dataset.go
index 1ec258c..08d21ab 100644
--- a/data/dataset.go
+++ b/data/dataset.go
@@ -117,10 +117,12 @@ func (dts *Dataset) CreateIfNotExists(config *pb.DataConfig) error {
 	if err.Error() == fmt.Sprintf("Item %s already exists", config.Name) {
 		data, errGetNoOp := dts.GetNoOp(config.Name)
 		if errGetNoOp == nil {
+			data.Lock()
 			if config.Version > data.Config.Version {
 				log.Printf("Update Data %v Config.Version: %v\n", config.Name, config.Version)
 				data.Config = config
 			}
+			data.Unlock()
 		} else {
 			log.Printf("Error errGetNoOp: %v\n", errGetNoOp.Error())
 		}
diff --git a/data/insert.go b/data/insert.go
index 46b8ca2..829de83 100644
--- a/data/insert.go
+++ b/data/insert.go
@@ -9,17 +9,20 @@ import (
 
 // Insert inserts data to internal kv store
 func (dt *Data) Insert(datum *pb.Datum, config *pb.InsertConfig) error {
-	if dt.Config != nil && !dt.Config.NoTarget && dt.N >= dt.Config.TargetN {
+	dataConfig := dt.GetConfig()
+	if dataConfig != nil && !dataConfig.NoTarget && dt.getN() >= dataConfig.TargetN {
 		return errors.New("Number of elements is over the target")
 	}
-	if dt.Initialized == false {
+	if !dt.isInitialized() {
 		dt.InitData()
 	}
 	err := dt.InsertBDMap(datum, config)
 	if err != nil {
 		return err
 	}
+	dt.Lock()
 	dt.Dirty = true
+	dt.Unlock()
 	if config == nil {
 		config = &pb.InsertConfig{
 			TTL:   0,
@@ -27,7 +30,7 @@ func (dt *Data) Insert(datum *pb.Datum, config *pb.InsertConfig) error {
 		}
 	}
 	counter := uint32(1)
-	if dt.Config.EnforceReplicationOnInsert && config.Count == 0 {
+	if dataConfig.EnforceReplicationOnInsert && config.Count == 0 {
 		config.Count++
 		// log.Printf("Sending Insert with config.Count: %v ttl: %v\n", config.Count, config.TTL)
 		dt.RunOnRandomSources(5, func(source DataSource) error {
@@ -38,12 +41,12 @@ func (dt *Data) Insert(datum *pb.Datum, config *pb.InsertConfig) error {
 			if err == nil {
 				counter++
 			}
-			if counter >= dt.Config.ReplicationOnInsert {
+			if counter >= dataConfig.ReplicationOnInsert {
 				return errors.New("Replication number reached")
 			}
 			return nil
 		})
-		if counter < dt.Config.ReplicationOnInsert {
+		if counter < dataConfig.ReplicationOnInsert {
 			return errors.New("Replicas is less then Replication Config")
 		}
 	}
diff --git a/data/newsync.go b/data/newsync.go
index bda5094..8b81560 100644
--- a/data/newsync.go
+++ b/data/newsync.go
@@ -97,9 +97,12 @@ func (dt *Data) LoopDBMap(entryFunction func(entry *DBMapEntry) error) error {
 func (dt *Data) Process(force bool) error {
 	diffMap, limit := dt.DataSourceDiffMap()
 	localInfo := dt.GetDataInfo()
+	alive := dt.isAlive()
 	localN := localInfo.N
 	transferLimit := localInfo.N / 10 // this is arbitary
+	dt.RLock()
 	timeDiff := getCurrentTime() - dt.LastRunTimestamp
+	dt.RUnlock()
 	recentInsertCount := atomic.LoadUint64(&(dt.RecentInsertCount))
 	if (timeDiff >= 60 && (recentInsertCount > 0 || limit > transferLimit || timeDiff >= 600)) || force {
 		atomic.StoreUint64(&(dt.RecentInsertCount), 0)
@@ -111,13 +114,16 @@ func (dt *Data) Process(force bool) error {
 		if localN > 0 {
 			fraction = float64(limit) / float64(localN)
 			countMap := make(map[string]uint64, len(diffMap))
+			dt.RLock()
+			sources := dt.Sources
+			dt.RUnlock()
 			go func() {
 				deleted := uint64(0)
 				counter := 0
 				for datum := range datumStream {
 					for id, count := range diffMap {
 						if countMap[id] < count {
-							if sourceItem, ok := dt.Sources.Get(id); ok {
+							if sourceItem, ok := sources.Get(id); ok {
 								if source, ok2 := sourceItem.(DataSource); ok2 {
 									err := source.Insert(datum.Datum, datum.Config)
 									if err != nil && CheckIfUnkownError(err) {
@@ -126,7 +132,7 @@ func (dt *Data) Process(force bool) error {
 									if err == nil {
 										counter++
 									}
-									if err == nil && (!dt.Alive || isEvictionOn(localInfo, config, deleted)) {
+									if err == nil && (!alive || isEvictionOn(localInfo, config, deleted)) {
 										countMap[id]++
 										dt.DeleteBDMap(datum.Datum)
 										deleted++
@@ -143,12 +149,12 @@ func (dt *Data) Process(force bool) error {
 		maxDistance := 0.0
 		avg := make([]float32, 0)
 		hist := make([]float32, 64)
-		nFloat := float32(dt.N)
+		nFloat := float32(localN)
 		if nFloat == 0 {
 			nFloat = 1
 		}
 		histUnit := 1 / nFloat
-		newDataIndex := make([]*pb.Datum, max(1000, int(dt.N)))
+		newDataIndex := make([]*pb.Datum, max(1000, int(localN)))
 		var newAnnoyIndex annoyindex.AnnoyIndexAngular
 		var newTempFileName string
 		var newDim int
@@ -156,12 +162,12 @@ func (dt *Data) Process(force bool) error {
 		err := dt.LoopDBMap(func(entry *DBMapEntry) error {
 			n++
 			avg = CalculateAverage(avg, entry.Datum.Key.Feature, nFloat)
-			distance = VectorDistance(dt.Avg, entry.Datum.Key.Feature)
+			distance = VectorDistance(localInfo.Avg, entry.Datum.Key.Feature)
 			if distance > maxDistance {
 				maxDistance = distance
 			}
-			if dt.MaxDistance != 0 {
-				index := int((distance / dt.MaxDistance) * 64)
+			if localInfo.MaxDistance != 0 {
+				index := int((distance / localInfo.MaxDistance) * 64)
 				if index >= 64 {
 					index = 63
 				}
@@ -171,7 +177,7 @@ func (dt *Data) Process(force bool) error {
 				hist[index] += histUnit
 			}
 			i := int(n - 1)
-			if dt.Alive && i < len(newDataIndex) {
+			if alive && i < len(newDataIndex) {
 				if newAnnoyIndex == nil {
 					// newAnnoyIndex = annoyindex.NewAnnoyIndexEuclidean(len(datum.Key.Feature))
 					newDim = max(1, len(entry.Datum.Key.Feature))
@@ -187,7 +193,7 @@ func (dt *Data) Process(force bool) error {
 				newAnnoyIndex.AddItem(i, fitToDimension(entry.Datum.Key.Feature, newDim))
 				newDataIndex[i] = entry.Datum
 			}
-			if !dt.Alive || (insertionCounter < limit && rand.Float64() < fraction) {
+			if !alive || (insertionCounter < limit && rand.Float64() < fraction) {
 				config := InsertConfigFromExpireAt(uint64(entry.ExprireAt))
 				if config.TTL > 10 {
 					datumStream <- &pb.InsertDatumWithConfig{
@@ -202,11 +208,13 @@ func (dt *Data) Process(force bool) error {
 		if err != nil {
 			return err
 		}
+		dt.Lock()
 		dt.Avg = avg
 		dt.Hist = hist
 		dt.MaxDistance = maxDistance
 		dt.N = n
 		dt.LastRunTimestamp = getCurrentTime()
+		dt.Unlock()
 		if newAnnoyIndex != nil {
 			start := time.Now()
 			newAnnoyIndex.Build(-1) // Previosly 10, -1 creates index dynamically
@@ -229,8 +237,10 @@ func (dt *Data) Process(force bool) error {
 			}
 		}
 	}
+	dt.Lock()
 	dt.Timestamp = getCurrentTime()
 	dt.Dirty = false
+	dt.Unlock()
 	return nil
 }
 
diff --git a/data/search.go b/data/search.go
index cd315f6..d558b6e 100644
--- a/data/search.go
+++ b/data/search.go
@@ -188,11 +188,12 @@ func (dt *Data) AggregatedSearch(datum *pb.Datum, scoredDatumStreamOutput chan<-
 	copier.Copy(&downstreamConfig, config) // config is shared with other searches
 	config = &downstreamConfig
 	config.Timeout = uint64(float64(config.Timeout) * 0.9) // Decrase timeout for downstream
-	if dt.QueryCache == nil {
+	if !dt.isInitialized() {
 		dt.InitData()
 	}
+	queryCache := dt.getQueryCache()
 	if config.CacheDuration > 0 {
-		if result, ok := dt.QueryCache.Get(queryKey); ok {
+		if result, ok := queryCache.Get(queryKey); ok {
 			cachedResult := result.([]*pb.ScoredDatum)
 			resultCopy := CloneResult(cachedResult)
 			for _, i := range resultCopy {
@@ -202,7 +203,7 @@ func (dt *Data) AggregatedSearch(datum *pb.Datum, scoredDatumStreamOutput chan<-
 				upperWaitGroup.Done()
 			}
 			cacheDuration := time.Duration(config.CacheDuration) * time.Second
-			dt.QueryCache.IncrementExpiration(queryKey, cacheDuration)
+			queryCache.IncrementExpiration(queryKey, cacheDuration)
 			return nil
 		}
 	}
@@ -260,7 +261,7 @@ func (dt *Data) AggregatedSearch(datum *pb.Datum, scoredDatumStreamOutput chan<-
 	}
 	if config.CacheDuration > 0 {
 		cacheDuration := time.Duration(config.CacheDuration) * time.Second
-		dt.QueryCache.Set(queryKey, resultCopy, cacheDuration)
+		queryCache.Set(queryKey, resultCopy, cacheDuration)
 		// log.Printf("AggregatedSearch: finished. Set Cache Duration: %v\n", cacheDuration)
 	}
 	return nil
diff --git a/node/node.go b/node/node.go
index de00a01..bcf5db5 100644
--- a/node/node.go
+++ b/node/node.go
@@ -356,9 +356,10 @@ func (n *Node) Info() string {
 		} else {
 			sb.WriteString(fmt.Sprintf("* Name %v Error: %v\n", name, err.Error()))
 		}
-		sourceList := dt.Sources.Items()
-		for _, sourceItem := range sourceList {
-			source := sourceItem.Object.(data.DataSource)
+		if dt == nil {
+			continue
+		}
+		for _, source := range dt.GetSources() {
 			sourceID := source.GetID()
 			sourceInfo := source.GetDataInfo()
 			if sourceInfo != nil {
-- 
2.43.0


From 957cb2562557d93c2bf3bc2bed7ea7ec664fb426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:07 +0000
Subject: [PATCH 11/40] fix: expiring an entry never removes or hides a newer
 one, large TTLs do not overflow

---
 data/newsync.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/data/newsync.go b/data/newsync.go
index 8b81560..bfc6b8a 100644
--- a/data/newsync.go
+++ b/data/newsync.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"io/ioutil"
 	"log"
+	"math"
 	"math/rand"
 	"os"
 	"sync/atomic"
@@ -20,6 +21,10 @@ type DBMapEntry struct {
 	Datum     *pb.Datum
 }
 
+func (e *DBMapEntry) isExpired() bool {
+	return e.ExprireAt != 0 && e.ExprireAt <= time.Now().Unix()
+}
+
 func CloseEnough(a, b int64) bool {
 	c := a - b
 	return c < 10 && c > -10
@@ -31,7 +36,7 @@ func (dt *Data) InsertBDMap(datum *pb.Datum, config *pb.InsertConfig) error {
 	}
 	exprireAt := int64(0)
 	if config != nil && config.TTL != 0 {
-		exprireAt = time.Now().Unix() + int64(config.TTL)
+		exprireAt = time.Now().Unix() + int64(minUint64(config.TTL, math.MaxInt64/2)) // prevents overflow
 	}
 	datum.Clean()
 	entry := &DBMapEntry{
@@ -54,7 +59,7 @@ func (dt *Data) InsertBDMap(datum *pb.Datum, config *pb.InsertConfig) error {
 			if err != nil {
 				return err
 			}
-			if bytes.Compare(valueByte, oldValueByte) == 0 && CloseEnough(entry.ExprireAt, oldEntry.ExprireAt) {
+			if bytes.Compare(valueByte, oldValueByte) == 0 && CloseEnough(entry.ExprireAt, oldEntry.ExprireAt) && !oldEntry.isExpired() {
 				isNewEntry = false
 			}
 		}
@@ -79,8 +84,8 @@ func (dt *Data) LoopDBMap(entryFunction func(entry *DBMapEntry) error) error {
 	var lastError error
 	dt.DBMap.Range(func(key, value interface{}) bool {
 		if mapEntry, ok := value.(*DBMapEntry); ok {
-			if mapEntry.ExprireAt != 0 && mapEntry.ExprireAt <= time.Now().Unix() {
-				dt.DBMap.Delete(key)
+			if mapEntry.isExpired() {
+				dt.DBMap.CompareAndDelete(key, value) // it may be replaced by a newer entry
 				return true
 			}
 			err := entryFunction(mapEntry)
-- 
2.43.0


From 9ed599a3d79e3db576ce8d3ef09ab4a560aa76af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:36 +0000
Subject: [PATCH 12/40] fix: close hands over all entries, also recent ones,
 ones without TTL and already replicated ones

---
 data/data.go    | 18 +++++++++++++---
 data/newsync.go | 57 ++++++++++++++++++++++++++++++++++++++++++-------
 data/sync.go    |  2 +-
 3 files changed, 65 insertions(+), 12 deletions(-)

diff --git a/data/data.go b/data/data.go
index b5aae0d..e310e2e 100644
--- a/data/data.go
+++ b/data/data.go
@@ -3,6 +3,7 @@ package data
 import (
 	"errors"
 	"log"
+	"math"
 	"os"
 	"path"
 	"strings"
@@ -152,10 +153,17 @@ func (dt *Data) Close() error {
 	dt.Lock()
 	dt.Alive = false
 	dt.Unlock()
-	if len(dt.GetSources()) > 0 {
-		for dt.getN() > 0 {
-			dt.Process(true)
+	remaining := uint64(math.MaxUint64)
+	for len(dt.GetSources()) > 0 {
+		_, transferable := dt.countEntries()
+		if transferable == 0 {
+			break
+		}
+		if transferable >= remaining { // sources do not accept now
+			time.Sleep(100 * time.Millisecond)
 		}
+		remaining = transferable
+		dt.Process(true)
 	}
 	// return dt.DB.Close()
 	dt.DeletePath()
@@ -211,6 +219,7 @@ func (dt *Data) Run() error {
 func (dt *Data) DataSourceDiffMap() (map[string]uint64, uint64) {
 	localInfo := dt.GetDataInfo()
 	localN := localInfo.N
+	alive := dt.isAlive()
 	diffMap := map[string]uint64{}
 	sum := uint64(0)
 	dt.RunOnRandomSources(5, func(source DataSource) error {
@@ -227,6 +236,9 @@ func (dt *Data) DataSourceDiffMap() (map[string]uint64, uint64) {
 					diff = 0
 				}
 			}
+			if !alive { // closing hands over everything
+				diff = 1000
+			}
 			diffMap[source.GetID()] = diff
 			sum += diff
 		}
diff --git a/data/newsync.go b/data/newsync.go
index bfc6b8a..4b013ff 100644
--- a/data/newsync.go
+++ b/data/newsync.go
@@ -80,6 +80,40 @@ func (dt *Data) DeleteBDMap(datum *pb.Datum) error {
 	return nil
 }
 
+// deleteEntry deletes the entry unless it is replaced by a newer one
+func (dt *Data) deleteEntry(entry *DBMapEntry) error {
+	keyByte, err := GetKeyAsBytes(entry.Datum)
+	if err != nil {
+		return err
+	}
+	dt.DBMap.CompareAndDelete(string(keyByte), entry)
+	return nil
+}
+
+// isTransferable is false for entries that are about to expire
+func (e *DBMapEntry) isTransferable() bool {
+	return e.ExprireAt == 0 || InsertConfigFromExpireAt(uint64(e.ExprireAt)).TTL > 10
+}
+
+// countEntries counts live entries, and the ones that should be transferred before close
+func (dt *Data) countEntries() (uint64, uint64) {
+	count, transferable := uint64(0), uint64(0)
+	dt.LoopDBMap(func(entry *DBMapEntry) error {
+		count++
+		if entry.isTransferable() {
+			transferable++
+		}
+		return nil
+	})
+	return count, transferable
+}
+
+// transferItem is an entry on its way to other sources
+type transferItem struct {
+	Entry  *DBMapEntry
+	Config *pb.InsertConfig
+}
+
 func (dt *Data) LoopDBMap(entryFunction func(entry *DBMapEntry) error) error {
 	var lastError error
 	dt.DBMap.Range(func(key, value interface{}) bool {
@@ -112,17 +146,24 @@ func (dt *Data) Process(force bool) error {
 	if (timeDiff >= 60 && (recentInsertCount > 0 || limit > transferLimit || timeDiff >= 600)) || force {
 		atomic.StoreUint64(&(dt.RecentInsertCount), 0)
 		config := dt.GetConfig()
-		datumStream := make(chan *pb.InsertDatumWithConfig, limit)
-		defer close(datumStream)
+		datumStream := make(chan *transferItem, limit)
+		transferDone := make(chan struct{})
+		defer func() {
+			close(datumStream)
+			if !alive { // closing waits for the transfer
+				<-transferDone
+			}
+		}()
 		insertionCounter := uint64(0)
 		fraction := float64(0)
-		if localN > 0 {
+		if localN > 0 || !alive {
 			fraction = float64(limit) / float64(localN)
 			countMap := make(map[string]uint64, len(diffMap))
 			dt.RLock()
 			sources := dt.Sources
 			dt.RUnlock()
 			go func() {
+				defer close(transferDone)
 				deleted := uint64(0)
 				counter := 0
 				for datum := range datumStream {
@@ -130,7 +171,7 @@ func (dt *Data) Process(force bool) error {
 						if countMap[id] < count {
 							if sourceItem, ok := sources.Get(id); ok {
 								if source, ok2 := sourceItem.(DataSource); ok2 {
-									err := source.Insert(datum.Datum, datum.Config)
+									err := source.Insert(datum.Entry.Datum, datum.Config)
 									if err != nil && CheckIfUnkownError(err) {
 										log.Printf("Sending Insert error %v\n", err.Error())
 									}
@@ -139,7 +180,7 @@ func (dt *Data) Process(force bool) error {
 									}
 									if err == nil && (!alive || isEvictionOn(localInfo, config, deleted)) {
 										countMap[id]++
-										dt.DeleteBDMap(datum.Datum)
+										dt.deleteEntry(datum.Entry)
 										deleted++
 									}
 								}
@@ -200,9 +241,9 @@ func (dt *Data) Process(force bool) error {
 			}
 			if !alive || (insertionCounter < limit && rand.Float64() < fraction) {
 				config := InsertConfigFromExpireAt(uint64(entry.ExprireAt))
-				if config.TTL > 10 {
-					datumStream <- &pb.InsertDatumWithConfig{
-						Datum:  entry.Datum,
+				if entry.isTransferable() {
+					datumStream <- &transferItem{
+						Entry:  entry,
 						Config: config,
 					}
 					insertionCounter++
diff --git a/data/sync.go b/data/sync.go
index 0cf6ba3..dd7a6bd 100644
--- a/data/sync.go
+++ b/data/sync.go
@@ -24,7 +24,7 @@ type InsertStreamCollector struct {
 
 func InsertConfigFromExpireAt(expiresAt uint64) *pb.InsertConfig {
 	var timeLeftInSeconds uint64
-	if expiresAt > 0 {
+	if expiresAt > uint64(getCurrentTime()) {
 		timeLeftInSeconds = expiresAt - uint64(getCurrentTime())
 	} else {
 		timeLeftInSeconds = 0
-- 
2.43.0


From 8d291f1b54547b409fc1dc47c3df4150de72c127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:39 +0000
Subject: [PATCH 13/40] fix: a data set with entries that are not counted yet
 is active

---
 data/data.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/data/data.go b/data/data.go
index e310e2e..c2cfbb6 100644
--- a/data/data.go
+++ b/data/data.go
@@ -182,6 +182,9 @@ func (dt *Data) CheckIfActive() bool {
 	if dt.getN() > 0 {
 		return true
 	}
+	if count, _ := dt.countEntries(); count > 0 { // N is not updated immediately
+		return true
+	}
 	for _, source := range dt.GetSources() {
 		if source.GetDataInfo().GetN() > 0 { // info is nil if source is not reachable
 			return true
-- 
2.43.0


From 060807525b59f563e85367ffaa3f016a3acb3302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:43 +0000
Subject: [PATCH 14/40] fix: the index is released when the data set is closed
 or empty

---
 data/data.go    |  3 +++
 data/newsync.go | 30 ++++++++++++++++++++++--------
 2 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/data/data.go b/data/data.go
index c2cfbb6..7b4589c 100644
--- a/data/data.go
+++ b/data/data.go
@@ -166,6 +166,9 @@ func (dt *Data) Close() error {
 		dt.Process(true)
 	}
 	// return dt.DB.Close()
+	dt.Annoyer.Lock()
+	dt.Annoyer.release()
+	dt.Annoyer.Unlock()
 	dt.DeletePath()
 	return nil
 }
diff --git a/data/newsync.go b/data/newsync.go
index 4b013ff..44b2d87 100644
--- a/data/newsync.go
+++ b/data/newsync.go
@@ -268,19 +268,19 @@ func (dt *Data) Process(force bool) error {
 			log.Printf("Building annoy index took %s", elapsed)
 			// log.Printf("Updating index. len: %v\n", len(newDataIndex))
 			dt.Annoyer.Lock()
-			if dt.Annoyer.DataIndex != nil {
-				dt.Annoyer.AnnoyIndex.Unload() // Not sure if this is needed
-				annoyindex.DeleteAnnoyIndexAngular(dt.Annoyer.AnnoyIndex)
-			}
-			oldFile := dt.Annoyer.BuildFileName
+			dt.Annoyer.release()
 			dt.Annoyer.BuildFileName = newTempFileName
 			dt.Annoyer.AnnoyIndex = newAnnoyIndex
 			dt.Annoyer.DataIndex = &newDataIndex
 			dt.Annoyer.Dim = newDim
-			dt.Annoyer.Unlock()
-			if len(oldFile) > 0 {
-				os.Remove(oldFile)
+			if !dt.isAlive() { // closed while building
+				dt.Annoyer.release()
 			}
+			dt.Annoyer.Unlock()
+		} else { // there is nothing to index anymore
+			dt.Annoyer.Lock()
+			dt.Annoyer.release()
+			dt.Annoyer.Unlock()
 		}
 	}
 	dt.Lock()
@@ -290,6 +290,20 @@ func (dt *Data) Process(force bool) error {
 	return nil
 }
 
+// release frees the index and its file, it should be called with lock
+func (a *Annoyer) release() {
+	if a.DataIndex != nil {
+		a.AnnoyIndex.Unload() // Not sure if this is needed
+		annoyindex.DeleteAnnoyIndexAngular(a.AnnoyIndex)
+	}
+	if len(a.BuildFileName) > 0 {
+		os.Remove(a.BuildFileName)
+	}
+	a.DataIndex = nil
+	a.AnnoyIndex = nil
+	a.BuildFileName = ""
+}
+
 func (dt *Data) StreamAll(datumStream chan<- *pb.Datum) error {
 	err := dt.LoopDBMap(func(entry *DBMapEntry) error {
 		if entry != nil && entry.Datum != nil {
-- 
2.43.0


From 5edfd00bd1f1b75b8f2d5277e578adc93def5deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:56 +0000
Subject: [PATCH 15/40] fix: average of vectors with different dimensions keeps
 earlier vectors

---
 data/util.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/data/util.go b/data/util.go
index e7d0b67..cfe8b93 100644
--- a/data/util.go
+++ b/data/util.go
@@ -17,7 +17,9 @@ func CalculateAverage(avg []float32, p []float32, n float32) []float32 {
 		return p
 	}
 	if len(avg) < len(p) {
-		avg = make([]float32, len(p))
+		grown := make([]float32, len(p))
+		copy(grown, avg)
+		avg = grown
 	}
 	for i := 0; i < len(p); i++ {
 		avg[i] += p[i] / n
-- 
2.43.0


From 9430102fa439cbd2d33855623bec2f62965b9d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:59 +0000
Subject: [PATCH 16/40] fix: insert does not change the config of the caller,
 one processor runs per data set

---
 data/data.go   | 5 ++---
 data/insert.go | 5 ++++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/data/data.go b/data/data.go
index 7b4589c..afc4173 100644
--- a/data/data.go
+++ b/data/data.go
@@ -198,12 +198,11 @@ func (dt *Data) CheckIfActive() bool {
 
 // Run runs statistical calculation regularly
 func (dt *Data) Run() error {
-	if atomic.LoadInt32(&dt.Runs) >= 1 {
+	if !atomic.CompareAndSwapInt32(&dt.Runs, 0, 1) {
 		log.Printf("Multiple Run calls detected.")
 		return errors.New("Another instance of processor is running for data")
 	}
-	atomic.AddInt32(&dt.Runs, 1)
-	defer atomic.AddInt32(&dt.Runs, -1)
+	defer atomic.StoreInt32(&dt.Runs, 0)
 	nextTime := getCurrentTime()
 	gcCounter := 10
 	for {
diff --git a/data/insert.go b/data/insert.go
index 829de83..c8e8917 100644
--- a/data/insert.go
+++ b/data/insert.go
@@ -31,7 +31,10 @@ func (dt *Data) Insert(datum *pb.Datum, config *pb.InsertConfig) error {
 	}
 	counter := uint32(1)
 	if dataConfig.EnforceReplicationOnInsert && config.Count == 0 {
-		config.Count++
+		config = &pb.InsertConfig{ // config belongs to the caller
+			TTL:   config.TTL,
+			Count: config.Count + 1,
+		}
 		// log.Printf("Sending Insert with config.Count: %v ttl: %v\n", config.Count, config.TTL)
 		dt.RunOnRandomSources(5, func(source DataSource) error {
 			err := source.Insert(datum, config)
-- 
2.43.0


From 057e33db3deaf9da77e25299a4b3a624f212fc25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:09 +0000
Subject: [PATCH 17/40] fix: a data set never removes files outside of its own
 directory

---
 data/data.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/data/data.go b/data/data.go
index afc4173..9f864f4 100644
--- a/data/data.go
+++ b/data/data.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"log"
 	"math"
+	"net/url"
 	"os"
 	"path"
 	"strings"
@@ -108,7 +109,7 @@ func NewData(config *pb.DataConfig, dataPath string) (*Data, error) {
 		Config: config,
 	}
 	// log.Printf("Create Data\n")
-	dt.DBPath = path.Join(dataPath, config.Name)
+	dt.DBPath = path.Join(dataPath, directoryName(config.Name))
 	dt.InitData()
 	return dt, nil
 }
@@ -120,10 +121,23 @@ func NewPreData(config *pb.DataConfig, dataPath string) *Data {
 	}
 	atomic.StoreUint64(&(dt.RecentInsertCount), 0)
 	// log.Printf("Pre Create Data %v\n", dt.Config)
-	dt.DBPath = path.Join(dataPath, config.Name)
+	dt.DBPath = path.Join(dataPath, directoryName(config.Name))
 	return dt
 }
 
+// directoryName maps the name of a data set to a single path element, different for each name
+func directoryName(name string) string {
+	switch name {
+	case "":
+		return "%"
+	case ".":
+		return "%2E"
+	case "..":
+		return "%2E%2E"
+	}
+	return url.PathEscape(name)
+}
+
 func (dt *Data) InitData() error {
 	log.Printf("Init Data %v\n", dt.Config)
 	dt.Lock()
-- 
2.43.0


From 13bf4471af22d80b3fecf55f974e0bd31f10f241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:12 +0000
Subject: [PATCH 18/40] fix: the index of data sets is saved atomically and not
 while it is loaded

---
 data/dataset.go | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/data/dataset.go b/data/dataset.go
index 08d21ab..24b27cc 100644
--- a/data/dataset.go
+++ b/data/dataset.go
@@ -7,6 +7,7 @@ import (
 	"log"
 	"os"
 	"path"
+	"sync"
 	"time"
 
 	"github.com/bgokden/go-cache"
@@ -19,6 +20,8 @@ type Dataset struct {
 	DataList *cache.Cache
 	Path     string
 	DataPath string
+	// indexMutex guards the index file
+	indexMutex sync.Mutex
 }
 
 func closeData(key string, value interface{}) {
@@ -166,6 +169,8 @@ func (dts *Dataset) DataConfigList() []*pb.DataConfig {
 }
 
 func (dts *Dataset) LoadIndex() error {
+	dts.indexMutex.Lock() // saves wait until everything is loaded
+	defer dts.indexMutex.Unlock()
 	indexPath := path.Join(dts.Path, "index.save")
 	file, err := os.OpenFile(indexPath, os.O_APPEND|os.O_CREATE|os.O_RDONLY, 0644)
 	if err != nil {
@@ -209,23 +214,35 @@ func (dts *Dataset) ReloadRuns() error {
 }
 
 func (dts *Dataset) SaveIndex() error {
+	dts.indexMutex.Lock()
+	defer dts.indexMutex.Unlock()
 	indexPath := path.Join(dts.Path, "index.save")
+	tempPath := indexPath + ".tmp" // replaces the index at once, after it is complete
 	sourceList := dts.DataList.Items()
-	file, err := os.OpenFile(indexPath, os.O_TRUNC|os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
+	file, err := os.OpenFile(tempPath, os.O_TRUNC|os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
 	if err != nil {
 		return err
 	}
 	datawriter := bufio.NewWriter(file)
-	for k := range sourceList {
-		data, _ := dts.Get(k)
+	for _, item := range sourceList {
+		data, ok := item.Object.(*Data)
+		if !ok {
+			continue
+		}
 		config := data.GetConfig()
 		jsonData, _ := json.Marshal(config)
 		_, _ = datawriter.WriteString(string(jsonData) + "\n")
 
 	}
-	datawriter.Flush()
+	err = datawriter.Flush()
+	if err == nil {
+		err = file.Sync()
+	}
 	file.Close()
-	return nil
+	if err != nil {
+		return err
+	}
+	return os.Rename(tempPath, indexPath)
 }
 
 func (dts *Dataset) Close() error {
-- 
2.43.0


From 958a94fb9e093f9f669f2f4ecb6ba4b00c83525f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:15 +0000
Subject: [PATCH 19/40] fix: listing or closing data sets does not recreate
 deleted ones

---
 data/dataset.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/data/dataset.go b/data/dataset.go
index 24b27cc..1a93dbd 100644
--- a/data/dataset.go
+++ b/data/dataset.go
@@ -160,8 +160,11 @@ func (dts *Dataset) List() []string {
 func (dts *Dataset) DataConfigList() []*pb.DataConfig {
 	sourceList := dts.DataList.Items()
 	configs := make([]*pb.DataConfig, 0, len(sourceList))
-	for k := range sourceList {
-		data, _ := dts.Get(k)
+	for _, item := range sourceList { // listing does not create or extend data sets
+		data, ok := item.Object.(*Data)
+		if !ok {
+			continue
+		}
 		config := data.GetConfig()
 		configs = append(configs, config)
 	}
@@ -248,9 +251,8 @@ func (dts *Dataset) SaveIndex() error {
 func (dts *Dataset) Close() error {
 	dts.SaveIndex()
 	datalist := dts.DataList.Items()
-	for k := range datalist {
-		data, err := dts.Get(k)
-		if err == nil {
+	for _, item := range datalist {
+		if data, ok := item.Object.(*Data); ok {
 			data.Close()
 		}
 	}
-- 
2.43.0


From a9189e9fc31c05f034daafee2d545de4a6a0f4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:19 +0000
Subject: [PATCH 20/40] fix: using a data set restarts its retention period

---
 data/dataset.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/data/dataset.go b/data/dataset.go
index 1a93dbd..936149b 100644
--- a/data/dataset.go
+++ b/data/dataset.go
@@ -5,6 +5,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"log"
+	"math"
 	"os"
 	"path"
 	"sync"
@@ -22,6 +23,8 @@ type Dataset struct {
 	DataPath string
 	// indexMutex guards the index file
 	indexMutex sync.Mutex
+	// listMutex makes refreshing the expiration of an item atomic
+	listMutex sync.Mutex
 }
 
 func closeData(key string, value interface{}) {
@@ -62,21 +65,34 @@ func GetRetention(retention uint64) time.Duration {
 	if retention == 0 {
 		return time.Duration(14*24) * time.Hour
 	}
+	if retention > uint64(math.MaxInt64/time.Second) { // prevents overflow
+		return cache.NoExpiration
+	}
 	return time.Duration(retention) * time.Second
 }
 
 func (dts *Dataset) Get(name string) (*Data, error) {
-	item, ok := dts.DataList.Get(name)
+	item, ok := dts.getAndExtend(name)
 	if !ok {
 		return dts.GetOrCreateIfNotExists(GetDefaultConfig(name))
 	}
 	if data, ok := item.(*Data); ok {
-		dts.DataList.IncrementExpiration(name, GetRetention(data.GetConfig().Retention))
 		return data, nil
 	}
 	return nil, errors.Errorf("Data %v is currupt", name)
 }
 
+// getAndExtend gets an item and restarts its retention period
+func (dts *Dataset) getAndExtend(name string) (interface{}, bool) {
+	dts.listMutex.Lock()
+	defer dts.listMutex.Unlock()
+	item, ok := dts.DataList.Get(name)
+	if data, isData := item.(*Data); ok && isData {
+		dts.DataList.Replace(name, data, GetRetention(data.GetConfig().Retention))
+	}
+	return item, ok
+}
+
 func (dts *Dataset) GetNoOp(name string) (*Data, error) {
 	item, ok := dts.DataList.Get(name)
 	if !ok {
@@ -111,7 +127,9 @@ func (dts *Dataset) CreateIfNotExists(config *pb.DataConfig) error {
 	preData := NewPreData(config, dts.DataPath)
 	retention := GetRetention(config.Retention)
 	// log.Printf("Data %v Retention: %v Version: %v\n", config.Name, retention, config.Version)
+	dts.listMutex.Lock()
 	err := dts.DataList.Add(config.Name, preData, retention)
+	dts.listMutex.Unlock()
 	if err == nil {
 		go dts.SaveIndex()
 		return preData.InitData()
-- 
2.43.0


From 2ca8036b7b13fbde01de15e5de9e24e57b709651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:58 +0000
Subject: [PATCH 21/40] fix: an insert is not acknowledged by a data set that
 is being removed

---
 data/data.go    | 11 +++++++++++
 data/dataset.go |  2 +-
 data/insert.go  |  7 ++++++-
 3 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/data/data.go b/data/data.go
index 9f864f4..1cca9f2 100644
--- a/data/data.go
+++ b/data/data.go
@@ -210,6 +210,17 @@ func (dt *Data) CheckIfActive() bool {
 	return false
 }
 
+// DeactivateIfEmpty stops accepting entries if there are no entries
+func (dt *Data) DeactivateIfEmpty() bool {
+	dt.Lock()
+	defer dt.Unlock()
+	if count, _ := dt.countEntries(); count > 0 { // inserted in the meantime
+		return false
+	}
+	dt.Alive = false
+	return true
+}
+
 // Run runs statistical calculation regularly
 func (dt *Data) Run() error {
 	if !atomic.CompareAndSwapInt32(&dt.Runs, 0, 1) {
diff --git a/data/dataset.go b/data/dataset.go
index 936149b..983231c 100644
--- a/data/dataset.go
+++ b/data/dataset.go
@@ -220,7 +220,7 @@ func (dts *Dataset) ReloadRuns() error {
 	removeList := make([]string, 0, len(itemList))
 	for key, itemInterface := range itemList {
 		if item, ok := itemInterface.Object.(*Data); ok {
-			if item.CheckIfActive() {
+			if item.CheckIfActive() || !item.DeactivateIfEmpty() {
 				go item.Run()
 			} else {
 				item.Close()
diff --git a/data/insert.go b/data/insert.go
index c8e8917..84d01c8 100644
--- a/data/insert.go
+++ b/data/insert.go
@@ -16,7 +16,12 @@ func (dt *Data) Insert(datum *pb.Datum, config *pb.InsertConfig) error {
 	if !dt.isInitialized() {
 		dt.InitData()
 	}
-	err := dt.InsertBDMap(datum, config)
+	dt.RLock() // it is not deactivated while inserting
+	err := errors.New("Data is closed")
+	if dt.Alive {
+		err = dt.InsertBDMap(datum, config)
+	}
+	dt.RUnlock()
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 3b8f8bccaf48c5eb7060bd399a02cf17532498e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:54 +0000
Subject: [PATCH 22/40] fix: a draining node stays not ready

---
 node/node.go                | 6 +++---
 node/nodeservice.go         | 2 +-
 server/httpservice.go       | 4 ++--
 server/veriserviceserver.go | 4 ++--
 state/state.go              | 9 ++++++---
 5 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/node/node.go b/node/node.go
index bcf5db5..a546ef2 100644
--- a/node/node.go
+++ b/node/node.go
@@ -77,8 +77,8 @@ func (n *Node) AddStaticService(service string) error {
 }
 
 func (n *Node) Close() error {
-	state.Ready = false
-	state.Drain = true
+	state.Drain.Store(true)
+	state.Ready.Store(false)
 	n.Dataset.Close()
 	log.Printf("Graceful close.")
 	return nil
@@ -264,7 +264,7 @@ func (n *Node) SyncWithPeers() {
 			}
 		}
 	}
-	state.Ready = true
+	state.Ready.Store(true)
 	log.Printf("Synced with peers")
 	// fmt.Println(n.Info())
 }
diff --git a/node/nodeservice.go b/node/nodeservice.go
index aad91c0..ff49820 100644
--- a/node/nodeservice.go
+++ b/node/nodeservice.go
@@ -33,7 +33,7 @@ func (n *Node) Search(ctx context.Context, searchRequest *pb.SearchRequest) (*pb
 }
 
 func (n *Node) Insert(ctx context.Context, insertionRequest *pb.InsertionRequest) (*pb.InsertionResponse, error) {
-	if state.Drain {
+	if state.Drain.Load() {
 		return nil, errors.New("Node is in drain mode")
 	}
 	config := insertionRequest.GetConfig()
diff --git a/server/httpservice.go b/server/httpservice.go
index 3aa7590..a43460d 100644
--- a/server/httpservice.go
+++ b/server/httpservice.go
@@ -15,7 +15,7 @@ import (
 // var Ready = false
 
 func GetReady(w http.ResponseWriter, r *http.Request) {
-	if state.Ready {
+	if state.Ready.Load() && !state.Drain.Load() { // periodic tasks may set ready during drain
 		w.WriteHeader(http.StatusOK)
 		w.Header().Set("Content-Type", "application/json")
 		io.WriteString(w, `{"alive": true}`)
@@ -27,7 +27,7 @@ func GetReady(w http.ResponseWriter, r *http.Request) {
 }
 
 func GetHeath(w http.ResponseWriter, r *http.Request) {
-	if state.Health {
+	if state.Health.Load() {
 		w.WriteHeader(http.StatusOK)
 		w.Header().Set("Content-Type", "application/json")
 		io.WriteString(w, `{"alive": true}`)
diff --git a/server/veriserviceserver.go b/server/veriserviceserver.go
index 429ff0d..2390fa9 100644
--- a/server/veriserviceserver.go
+++ b/server/veriserviceserver.go
@@ -14,8 +14,8 @@ import (
 )
 
 func RunServer(configMap map[string]interface{}) {
-	state.Health = true
-	state.Ready = false
+	state.Health.Store(true)
+	state.Ready.Store(false)
 
 	services := configMap["services"].(string)
 	log.Printf("Services: %v\n", services)
diff --git a/state/state.go b/state/state.go
index b868f5a..93c5c4c 100644
--- a/state/state.go
+++ b/state/state.go
@@ -1,5 +1,8 @@
 package state
 
-var Health = false
-var Ready = false
-var Drain = false
+import "sync/atomic"
+
+// These are accessed by concurrent tasks
+var Health atomic.Bool
+var Ready atomic.Bool
+var Drain atomic.Bool
-- 
2.43.0


From 85201a7f0ca10eb69a25e86d8f673c64af0eae03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:56 +0000
Subject: [PATCH 23/40] fix: the server does not remove a data directory given
 by the user

---
 server/veriserviceserver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/veriserviceserver.go b/server/veriserviceserver.go
index 2390fa9..1aaee7e 100644
--- a/server/veriserviceserver.go
+++ b/server/veriserviceserver.go
@@ -53,9 +53,9 @@ func RunServer(configMap map[string]interface{}) {
 		if err != nil {
 			log.Fatal(err)
 		}
+		defer os.RemoveAll(directory) // only a temporary directory is removed
 	}
 	os.MkdirAll(directory, os.ModePerm)
-	defer os.RemoveAll(directory)
 	broadcast := configMap["broadcast"].(string)
 	broadcastAddresses := make([]string, 0)
 	if len(broadcast) > 0 {
-- 
2.43.0


From fcae846ac75fb925f8bf01ef90056da5833389b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:59 +0000
Subject: [PATCH 24/40] fix: concurrent peer messages neither lose the newest
 record nor race

---
 node/node.go        | 12 ++++++++++--
 node/nodeservice.go |  2 ++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/node/node.go b/node/node.go
index a546ef2..7e903a2 100644
--- a/node/node.go
+++ b/node/node.go
@@ -6,6 +6,7 @@ import (
 	"runtime"
 	"sort"
 	"strings"
+	"sync"
 	"time"
 
 	"github.com/bgokden/go-cache"
@@ -24,8 +25,9 @@ func GetIdOfPeer(p *pb.Peer) string {
 }
 
 func SerializeStringArray(list []string) string {
-	sort.Strings(list)
-	return strings.Join(list[:], ",")
+	sorted := append([]string{}, list...) // list is shared
+	sort.Strings(sorted)
+	return strings.Join(sorted, ",")
 }
 
 type NodeConfig struct {
@@ -41,6 +43,8 @@ type Node struct {
 	Port            uint32
 	Folder          string
 	KnownIds        []string
+	knownIdsMutex   sync.RWMutex
+	peerListMutex   sync.Mutex
 	AdvertisedIds   []string
 	Dataset         *data.Dataset
 	ServiceList     *cache.Cache
@@ -111,6 +115,8 @@ func (n *Node) AddPeerElement(peer *pb.Peer) error {
 	}
 	if !n.isPeerSimilarToNode(peer) {
 		idOfPeer := GetIdOfPeer(peer)
+		n.peerListMutex.Lock() // newest one should stay
+		defer n.peerListMutex.Unlock()
 		if oldPeerInterface, ok := n.PeerList.Get(idOfPeer); ok {
 			if oldPeer, ok2 := oldPeerInterface.(*pb.Peer); ok2 {
 				if oldPeer.Timestamp >= peer.Timestamp {
@@ -165,7 +171,9 @@ func unique(strSlice []string) []string {
 
 func (n *Node) GetNodeInfo() *pb.Peer {
 	ids := make([]string, 0)
+	n.knownIdsMutex.RLock()
 	ids = append(ids, n.KnownIds...)
+	n.knownIdsMutex.RUnlock()
 	ids = append(ids, n.AdvertisedIds...)
 	ids = unique(ids)
 	p := &pb.Peer{
diff --git a/node/nodeservice.go b/node/nodeservice.go
index ff49820..f3c1a98 100644
--- a/node/nodeservice.go
+++ b/node/nodeservice.go
@@ -211,6 +211,8 @@ func (n *Node) SendJoinRequest(id string) error {
 		feedbackID := fmt.Sprintf("%v:%v", resp.GetAddress(), n.Port)
 		// log.Printf("(Call Join 3 %v) Feedback ID: %v", n.Port, feedbackID)
 		found := false
+		n.knownIdsMutex.Lock()
+		defer n.knownIdsMutex.Unlock()
 		for _, id := range n.KnownIds {
 			if id == feedbackID {
 				found = true
-- 
2.43.0


From fcbe5531e306fc2feac05e811dc567d306eaafe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:49 +0000
Subject: [PATCH 25/40] fix: pooled connections are not closed while they are
 used and are not lost

---
 util/connpool.go | 138 ++++++++++++++++++++---------------------------
 1 file changed, 58 insertions(+), 80 deletions(-)

diff --git a/util/connpool.go b/util/connpool.go
index 4d48f1d..4fe70af 100644
--- a/util/connpool.go
+++ b/util/connpool.go
@@ -4,7 +4,6 @@ import (
 	"fmt"
 	"log"
 	"sync"
-	"sync/atomic"
 	"time"
 
 	"github.com/goburrow/cache"
@@ -43,20 +42,21 @@ func NewConnectionCache() *ConnectionCache {
 }
 
 func (cc *ConnectionCache) Get(address string) *Connection {
-	if cpInterface, _ := cc.Provider.Get(address); cpInterface != nil {
-		if cp, ok2 := cpInterface.(*ConnectionPool); ok2 {
-			return cp.Get()
+	for i := 0; i < 3; i++ { // pool may be closed after it is received
+		if cpInterface, _ := cc.Provider.Get(address); cpInterface != nil {
+			if cp, ok2 := cpInterface.(*ConnectionPool); ok2 {
+				if conn := cp.Get(); conn != nil {
+					return conn
+				}
+			}
 		}
 	}
 	return nil
 }
 
 func (cc *ConnectionCache) Put(c *Connection) {
-	if cpInterface, _ := cc.Provider.Get(c.Address); cpInterface != nil {
-		if cp, ok2 := cpInterface.(*ConnectionPool); ok2 {
-			atomic.AddInt64(&c.Counter, -1)
-			cp.PutIfHealthy(c)
-		}
+	if c != nil && c.pool != nil {
+		c.pool.PutIfHealthy(c)
 	}
 }
 
@@ -70,24 +70,22 @@ func (cc *ConnectionCache) Close(c *Connection) {
 
 // Func to init pool
 func NewConnectionPool(address string) *ConnectionPool {
-	cp := &ConnectionPool{}
-	cp.Pool = &sync.Pool{
-		New: func() interface{} {
-			return cp.NewConnection(address)
-		},
-	}
-	return cp
+	return &ConnectionPool{Address: address}
 }
 
+// ConnectionPool shares connections, each with up to 20 concurrent users
 type ConnectionPool struct {
-	Pool   *sync.Pool
-	Closed bool
+	sync.Mutex
+	Address     string
+	Connections []*Connection
+	Closed      bool
 }
 
 type Connection struct {
 	Address string
 	Conn    *grpc.ClientConn
-	Counter int64
+	Counter int64 // number of current users, guarded by the pool
+	pool    *ConnectionPool
 }
 
 func (c *Connection) Close() {
@@ -97,9 +95,6 @@ func (c *Connection) Close() {
 }
 
 func (cp *ConnectionPool) NewConnection(address string) *Connection {
-	if cp.Closed {
-		return nil
-	}
 	conn, err := grpc.Dial(address,
 		grpc.WithInsecure(),
 		grpc.WithTimeout(time.Duration(200)*time.Millisecond),
@@ -116,65 +111,58 @@ func (cp *ConnectionPool) NewConnection(address string) *Connection {
 		// Client:  client,
 		Conn:    conn,
 		Counter: 0,
+		pool:    cp,
 	}
 }
 
 func (cp *ConnectionPool) Get() *Connection {
-	c := cp.GetWithRetry(0)
-	if c != nil {
-		atomic.AddInt64(&c.Counter, 1)
-		if atomic.LoadInt64(&c.Counter) <= 20 {
-			cp.Put(c) // if there are less than 20 concurrent users put it back
-		}
-	}
-	return c
-}
-
-func (cp *ConnectionPool) GetWithRetry(count int) *Connection {
-	if count > 3 {
+	cp.Lock()
+	defer cp.Unlock()
+	if cp.Closed {
 		return nil
 	}
-	connectionInterface := cp.Pool.Get()
-	if connectionInterface == nil {
-		return nil
+	open := make([]*Connection, 0, len(cp.Connections))
+	var found *Connection
+	for _, conn := range cp.Connections {
+		if conn.Conn.GetState() == connectivity.Shutdown {
+			continue
+		}
+		open = append(open, conn)
+		if found == nil && conn.Counter < 20 { // if there are less than 20 concurrent users share it
+			found = conn
+		}
 	}
-	if conn, ok := connectionInterface.(*Connection); ok {
-		if conn != nil && conn.Conn != nil {
-			if conn.Conn.GetState() != connectivity.Shutdown {
-				return conn
-			} else {
-				err := conn.Conn.Close()
-				if err != nil {
-					log.Printf("Connection Close Error (expected to be already closed): %v\n", err.Error())
-				}
-
-			}
+	cp.Connections = open
+	if found == nil {
+		found = cp.NewConnection(cp.Address)
+		if found == nil {
+			return nil
 		}
-		count++
-		return cp.GetWithRetry(count)
+		cp.Connections = append(cp.Connections, found)
 	}
-	return nil
-}
-
-func (cp *ConnectionPool) Put(conn *Connection) {
-	cp.Pool.Put(conn)
+	found.Counter++
+	return found
 }
 
+// PutIfHealthy gives a connection back, it is closed after its last user if it is not healthy
 func (cp *ConnectionPool) PutIfHealthy(conn *Connection) {
-	if conn != nil && conn.Conn != nil {
-		if conn.Conn.GetState() == connectivity.Ready {
-			cp.Pool.Put(conn)
-		} else {
-			err := conn.Conn.Close()
-			if err != nil {
-				log.Printf("Connection Close Error: %v\n", err.Error())
-			}
-		}
+	cp.Lock()
+	defer cp.Unlock()
+	conn.Counter--
+	if cp.Closed || conn.Conn.GetState() != connectivity.Ready {
+		cp.closeIfUnused(conn)
 	}
 }
 
 func (cp *ConnectionPool) Close(conn *Connection) {
-	if conn != nil && conn.Conn != nil && atomic.LoadInt64(&conn.Counter) <= 0 {
+	cp.Lock()
+	defer cp.Unlock()
+	cp.closeIfUnused(conn)
+}
+
+// closeIfUnused should be called with lock
+func (cp *ConnectionPool) closeIfUnused(conn *Connection) {
+	if conn != nil && conn.Conn != nil && conn.Counter <= 0 && conn.Conn.GetState() != connectivity.Shutdown {
 		err := conn.Conn.Close()
 		if err != nil {
 			log.Printf("Connection Close Error: %v\n", err.Error())
@@ -182,22 +170,12 @@ func (cp *ConnectionPool) Close(conn *Connection) {
 	}
 }
 
+// CloseAll closes connections, the ones in use are closed after their last user
 func (cp *ConnectionPool) CloseAll() {
+	cp.Lock()
+	defer cp.Unlock()
 	cp.Closed = true
-	for i := 0; i < 1000; i++ { // Maximum 1000 connections will be closed
-		connectionInterface := cp.Pool.Get()
-		if connectionInterface == nil {
-			return // Coonection pool is finished
-		}
-		if conn, ok := connectionInterface.(*Connection); ok {
-			if conn != nil && conn.Conn != nil {
-				err := conn.Conn.Close()
-				if err != nil {
-					log.Printf("Connection Close Error: %v\n", err.Error())
-				}
-			}
-		} else {
-			return
-		}
+	for _, conn := range cp.Connections {
+		cp.closeIfUnused(conn)
 	}
 }
-- 
2.43.0


From 37ffbca918701c861d089af2ae83c9ece66b4e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:49 +0000
Subject: [PATCH 26/40] fix: checking an old peer record does not remove a
 newer one

---
 node/node.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/node/node.go b/node/node.go
index 7e903a2..9c104c8 100644
--- a/node/node.go
+++ b/node/node.go
@@ -104,7 +104,11 @@ func (n *Node) CheckPeer(peer *pb.Peer) bool {
 		}
 		idOfPeer := GetIdOfPeer(peer)
 		log.Printf("Deleting %v since %v is too old (t:%v)\n", idOfPeer, peer.Timestamp, getCurrentTime())
-		n.PeerList.Delete(idOfPeer)
+		n.peerListMutex.Lock()
+		if current, ok := n.PeerList.Get(idOfPeer); ok && current == peer { // it may be updated
+			n.PeerList.Delete(idOfPeer)
+		}
+		n.peerListMutex.Unlock()
 	}
 	return false
 }
-- 
2.43.0


From 5766790e6a08d1358a5ed9e5e1d53f126f53031f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:52 +0000
Subject: [PATCH 27/40] fix: EncodeToString does not refer to memory that can
 be freed or changed

---
 util/util.go | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/util/util.go b/util/util.go
index 297bc85..f424c98 100644
--- a/util/util.go
+++ b/util/util.go
@@ -1,14 +1,6 @@
 package util
 
-import (
-	"reflect"
-	"unsafe"
-)
-
-// BytesToString Alternative to hex.EncodeToString(b)
+// EncodeToString Alternative to hex.EncodeToString(b)
 func EncodeToString(b []byte) string {
-	bh := (*reflect.SliceHeader)(unsafe.Pointer(&b))
-	sh := reflect.StringHeader{bh.Data, bh.Len}
-	return *(*string)(unsafe.Pointer(&sh))
-	// return string(b)
+	return string(b)
 }
-- 
2.43.0


From d2d6ad6ff11255307b407f88973270c3560fc2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:23 +0000
Subject: [PATCH 28/40] fix: a very large result limit does not panic

---
 data/aggregator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/aggregator.go b/data/aggregator.go
index efb384a..f18f547 100644
--- a/data/aggregator.go
+++ b/data/aggregator.go
@@ -156,7 +156,7 @@ func (a *Aggregator) Result() []*pb.ScoredDatum {
 		}
 		return agg.Result()
 	} else {
-		if a.Config.ResultLimit > 0 && len(a.List) > int(a.Config.ResultLimit) {
+		if a.Config.ResultLimit > 0 && uint64(len(a.List)) > a.Config.ResultLimit {
 			return a.List[:a.Config.ResultLimit]
 		}
 		return a.List
-- 
2.43.0


From f844857c4b86d31524d35bd2b5526f2071ae56e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:23 +0000
Subject: [PATCH 29/40] fix: InitData reads the config under its lock

---
 data/data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/data.go b/data/data.go
index 1cca9f2..9917085 100644
--- a/data/data.go
+++ b/data/data.go
@@ -139,9 +139,9 @@ func directoryName(name string) string {
 }
 
 func (dt *Data) InitData() error {
-	log.Printf("Init Data %v\n", dt.Config)
 	dt.Lock()
 	defer dt.Unlock()
+	log.Printf("Init Data %v\n", dt.Config)
 	if dt.Initialized == false {
 		dt.Sources = cache.New(10*time.Minute, 1*time.Minute)
 		dt.QueryCache = cache.New(5*time.Minute, 1*time.Minute)
-- 
2.43.0


From 7a2bf242ba34132624264a0b0a4d0c170ca458f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:59 +0000
Subject: [PATCH 30/40] fix: result limit is applied after grouping and ranking
 by context

---
 data/search.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/data/search.go b/data/search.go
index d558b6e..9da9a00 100644
--- a/data/search.go
+++ b/data/search.go
@@ -188,6 +188,7 @@ func (dt *Data) AggregatedSearch(datum *pb.Datum, scoredDatumStreamOutput chan<-
 	copier.Copy(&downstreamConfig, config) // config is shared with other searches
 	config = &downstreamConfig
 	config.Timeout = uint64(float64(config.Timeout) * 0.9) // Decrase timeout for downstream
+	config.ResultLimit = 0                                 // Results are limited once, after everything is merged
 	if !dt.isInitialized() {
 		dt.InitData()
 	}
-- 
2.43.0


From a81aedce06460b1fc9d7aeaf5875225a11652c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:29 +0000
Subject: [PATCH 31/40] fix: two members that evict the same entry to each
 other do not lose it

---
 data/newsync.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/newsync.go b/data/newsync.go
index 44b2d87..3dbb620 100644
--- a/data/newsync.go
+++ b/data/newsync.go
@@ -64,8 +64,8 @@ func (dt *Data) InsertBDMap(datum *pb.Datum, config *pb.InsertConfig) error {
 			}
 		}
 	}
+	dt.DBMap.Store(mapKey, entry) // also if it is not new, so that a transfer in progress does not delete what is acknowledged here
 	if isNewEntry {
-		dt.DBMap.Store(mapKey, entry)
 		atomic.AddUint64(&(dt.RecentInsertCount), 1)
 	}
 	return nil
-- 
2.43.0


From b9dfa58e02a4ae103ef0476221d81f3398ab6e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:32 +0000
Subject: [PATCH 32/40] fix: cloned results do not copy internal state of
 messages

---
 data/search.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/data/search.go b/data/search.go
index 9da9a00..6f731e1 100644
--- a/data/search.go
+++ b/data/search.go
@@ -271,9 +271,11 @@ func (dt *Data) AggregatedSearch(datum *pb.Datum, scoredDatumStreamOutput chan<-
 func CloneResult(result []*pb.ScoredDatum) []*pb.ScoredDatum {
 	resultCopy := make([]*pb.ScoredDatum, len(result))
 	for i, sd := range result {
-		var scoredDatum pb.ScoredDatum
-		copier.Copy(&scoredDatum, sd)
-		resultCopy[i] = &scoredDatum
+		scoredDatum := &pb.ScoredDatum{Score: sd.Score}
+		if sd.Datum != nil { // internal state of messages should not be copied
+			scoredDatum.Datum = &pb.Datum{Key: sd.Datum.Key, Value: sd.Datum.Value}
+		}
+		resultCopy[i] = scoredDatum
 	}
 	return resultCopy
 }
-- 
2.43.0


From 7c190b471e9a2ce625b7f75e0c1f20f196ac296c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:40 +0000
Subject: [PATCH 33/40] fix: results of peers are grouped once, by the node
 that was asked

---
 data/search.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/data/search.go b/data/search.go
index 6f731e1..ec7a442 100644
--- a/data/search.go
+++ b/data/search.go
@@ -189,6 +189,7 @@ func (dt *Data) AggregatedSearch(datum *pb.Datum, scoredDatumStreamOutput chan<-
 	config = &downstreamConfig
 	config.Timeout = uint64(float64(config.Timeout) * 0.9) // Decrase timeout for downstream
 	config.ResultLimit = 0                                 // Results are limited once, after everything is merged
+	config.GroupLimit = 0                                  // Results are grouped once, after everything is merged
 	if !dt.isInitialized() {
 		dt.InitData()
 	}
-- 
2.43.0


From 6147d7cdd08b6e9fcdcb2d17e6a46b63811e1cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:15 +0000
Subject: [PATCH 34/40] fix: maintenance removes only the data set it found
 empty, not a newer one of that name

---
 data/dataset.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/data/dataset.go b/data/dataset.go
index 983231c..1a54626 100644
--- a/data/dataset.go
+++ b/data/dataset.go
@@ -217,19 +217,23 @@ func (dts *Dataset) LoadIndex() error {
 
 func (dts *Dataset) ReloadRuns() error {
 	itemList := dts.DataList.Items()
-	removeList := make([]string, 0, len(itemList))
+	removeList := make(map[string]*Data, len(itemList))
 	for key, itemInterface := range itemList {
 		if item, ok := itemInterface.Object.(*Data); ok {
 			if item.CheckIfActive() || !item.DeactivateIfEmpty() {
 				go item.Run()
 			} else {
 				item.Close()
-				removeList = append(removeList, key)
+				removeList[key] = item
 			}
 		}
 	}
-	for _, key := range removeList {
-		dts.DataList.Delete(key)
+	for key, item := range removeList {
+		dts.listMutex.Lock()
+		if current, ok := dts.DataList.Get(key); ok && current == item { // it may be created again
+			dts.DataList.Delete(key)
+		}
+		dts.listMutex.Unlock()
 	}
 	return nil
 }
-- 
2.43.0


From d219b1170a2996b64e8012912ebf82f329d40167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:15 +0000
Subject: [PATCH 35/40] fix: maintenance does not remove a data set that is
 being created

---
 data/data.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/data/data.go b/data/data.go
index 9917085..5cd96ac 100644
--- a/data/data.go
+++ b/data/data.go
@@ -214,6 +214,9 @@ func (dt *Data) CheckIfActive() bool {
 func (dt *Data) DeactivateIfEmpty() bool {
 	dt.Lock()
 	defer dt.Unlock()
+	if !dt.Initialized { // it is being created now
+		return false
+	}
 	if count, _ := dt.countEntries(); count > 0 { // inserted in the meantime
 		return false
 	}
-- 
2.43.0


From 3a45265cd5efc1a1bd8f7409f3493783c0218317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:39 +0000
Subject: [PATCH 36/40] fix: a failed pooled connection is not handed out while
 others still use it

---
 util/connpool.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/util/connpool.go b/util/connpool.go
index 4fe70af..4613a46 100644
--- a/util/connpool.go
+++ b/util/connpool.go
@@ -124,11 +124,16 @@ func (cp *ConnectionPool) Get() *Connection {
 	open := make([]*Connection, 0, len(cp.Connections))
 	var found *Connection
 	for _, conn := range cp.Connections {
+		failed := conn.Conn.GetState() == connectivity.TransientFailure
+		if failed {
+			cp.closeIfUnused(conn)
+		}
 		if conn.Conn.GetState() == connectivity.Shutdown {
 			continue
 		}
 		open = append(open, conn)
-		if found == nil && conn.Counter < 20 { // if there are less than 20 concurrent users share it
+		// if there are less than 20 concurrent users share it, a failed one is closed after its last user
+		if found == nil && conn.Counter < 20 && !failed {
 			found = conn
 		}
 	}
-- 
2.43.0


From 68368a9655210bb77fa0b2505bf1c0a4be167f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:32 +0000
Subject: [PATCH 37/40] fix: sources that are added again do not expire

A known source expired ten minutes after it was first added although it was added again with every synchronization, and was missing from searches, replication and rebalancing until the next one.
---
 data/data.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/data/data.go b/data/data.go
index 5cd96ac..cfd371c 100644
--- a/data/data.go
+++ b/data/data.go
@@ -320,7 +320,8 @@ func (dt *Data) AddSource(dataSource DataSource) error {
 	if sources == nil {
 		return errors.New("Sources is still nil")
 	}
-	return sources.Add(dataSource.GetID(), dataSource, cache.DefaultExpiration)
+	sources.Set(dataSource.GetID(), dataSource, cache.DefaultExpiration) // known sources do not expire while they are added again
+	return nil
 }
 
 func (dt *Data) GetID() string {
-- 
2.43.0


From d0b0bc36d872133cc6478d193dbd20b9e7dde93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:45 +0000
Subject: [PATCH 38/40] fix: refreshing the connection cache does not lose open
 connections

---
 util/connpool.go | 53 ++++++++++++++++++++++++++++++++----------------
 1 file changed, 36 insertions(+), 17 deletions(-)

diff --git a/util/connpool.go b/util/connpool.go
index 4613a46..8917760 100644
--- a/util/connpool.go
+++ b/util/connpool.go
@@ -14,17 +14,21 @@ import (
 
 type ConnectionCache struct {
 	Provider goburrow.LoadingCache
+	// pools has the open pool of each address, the provider only decides how long it is kept
+	pools      map[string]*ConnectionPool
+	poolsMutex sync.Mutex
 }
 
 func NewConnectionCache() *ConnectionCache {
+	cc := &ConnectionCache{
+		pools: make(map[string]*ConnectionPool),
+	}
 	load := func(k goburrow.Key) (goburrow.Value, error) {
 		address := fmt.Sprintf("%s", k)
-		return NewConnectionPool(address), nil
+		return cc.getPool(address), nil // a refresh does not replace the pool, otherwise it would not be closed
 	}
 	remove := func(k cache.Key, v cache.Value) {
-		if connectionPool, ok := v.(*ConnectionPool); ok {
-			connectionPool.CloseAll()
-		}
+		cc.closePool(fmt.Sprintf("%s", k))
 	}
 	// Create a loading cache
 	c := goburrow.NewLoadingCache(load,
@@ -34,21 +38,38 @@ func NewConnectionCache() *ConnectionCache {
 		goburrow.WithRemovalListener(remove),
 	)
 
-	cc := &ConnectionCache{
-		Provider: c,
-	}
+	cc.Provider = c
 
 	return cc
 }
 
+// getPool returns the open pool of the address
+func (cc *ConnectionCache) getPool(address string) *ConnectionPool {
+	cc.poolsMutex.Lock()
+	defer cc.poolsMutex.Unlock()
+	cp, ok := cc.pools[address]
+	if !ok {
+		cp = NewConnectionPool(address)
+		cc.pools[address] = cp
+	}
+	return cp
+}
+
+func (cc *ConnectionCache) closePool(address string) {
+	cc.poolsMutex.Lock()
+	cp := cc.pools[address]
+	delete(cc.pools, address)
+	cc.poolsMutex.Unlock()
+	if cp != nil {
+		cp.CloseAll()
+	}
+}
+
 func (cc *ConnectionCache) Get(address string) *Connection {
 	for i := 0; i < 3; i++ { // pool may be closed after it is received
-		if cpInterface, _ := cc.Provider.Get(address); cpInterface != nil {
-			if cp, ok2 := cpInterface.(*ConnectionPool); ok2 {
-				if conn := cp.Get(); conn != nil {
-					return conn
-				}
-			}
+		cc.Provider.Get(address) // keeps it in use
+		if conn := cc.getPool(address).Get(); conn != nil {
+			return conn
 		}
 	}
 	return nil
@@ -61,10 +82,8 @@ func (cc *ConnectionCache) Put(c *Connection) {
 }
 
 func (cc *ConnectionCache) Close(c *Connection) {
-	if cpInterface, _ := cc.Provider.Get(c.Address); cpInterface != nil {
-		if cp, ok2 := cpInterface.(*ConnectionPool); ok2 {
-			cp.Close(c)
-		}
+	if c != nil && c.pool != nil {
+		c.pool.Close(c)
 	}
 }
 
-- 
2.43.0


From 605d9de6b166ccd07ba14072f269ac05f57bbb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:26 +0000
Subject: [PATCH 39/40] fix: score groups with the search context once, the
 combined score of a group was replaced by the context score of its best
 member

---
 data/aggregator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/aggregator.go b/data/aggregator.go
index f18f547..7980b37 100644
--- a/data/aggregator.go
+++ b/data/aggregator.go
@@ -149,7 +149,7 @@ func (a *Aggregator) Insert(scoredDatum *pb.ScoredDatum) error {
 func (a *Aggregator) Result() []*pb.ScoredDatum {
 	if a.Grouped {
 		groupMap := a.DeDuplicationMap.Items()
-		agg := NewAggrator(a.Config, false, a.Context)
+		agg := NewAggrator(a.Config, false, nil) // members are already scored with the context
 		for _, groupAggObject := range groupMap {
 			groupAgg := groupAggObject.Object.(AggregatorInterface)
 			agg.Insert(groupAgg.One())
-- 
2.43.0


From 5bd62b356101d1209a32ecc98de638306c0264da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:28 +0000
Subject: [PATCH 40/40] fix: a search waits for a peer as long as its own
 timeout, not only 10 seconds

---
 node/datasourceclient.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/node/datasourceclient.go b/node/datasourceclient.go
index a3cfc9e..9d23a62 100644
--- a/node/datasourceclient.go
+++ b/node/datasourceclient.go
@@ -28,9 +28,21 @@ type DataSourceClient struct {
 	ConnectionCache *util.ConnectionCache
 }
 
+// searchTimeout is at least 10 seconds, or as long as the search may take, very large timeouts are limited to a day
+func searchTimeout(config *pb.SearchConfig) time.Duration {
+	milliseconds := config.GetTimeout()
+	if milliseconds < 10*1000 {
+		milliseconds = 10 * 1000
+	}
+	if milliseconds > 24*60*60*1000 {
+		milliseconds = 24 * 60 * 60 * 1000
+	}
+	return time.Duration(milliseconds) * time.Millisecond
+}
+
 func (dcs *DataSourceClient) StreamSearch(datum *pb.Datum, scoredDatumStream chan<- *pb.ScoredDatum, queryWaitGroup *sync.WaitGroup, config *pb.SearchConfig) error {
 	defer queryWaitGroup.Done()
-	clientCtx, cancel := context.WithTimeout(context.Background(), 10*time.Second)
+	clientCtx, cancel := context.WithTimeout(context.Background(), searchTimeout(config))
 	defer cancel()
 	conn := dcs.ConnectionCache.Get(dcs.IdOfPeer)
 	if conn == nil {
-- 
2.43.0

