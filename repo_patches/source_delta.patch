From c52c729501130940caac436798bea5ae26b5f666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:10 +0000
Subject: [PATCH 01/25] fix: listing an LFU, size or weight queue from the best
 file no longer reads past the end of a bucket

---
 SmartCache/sim/cache/queue/genericF.go | 2 +-
 SmartCache/sim/cache/queue/lfu.go      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/SmartCache/sim/cache/queue/genericF.go b/SmartCache/sim/cache/queue/genericF.go
index a63efba..7d75347 100644
--- a/SmartCache/sim/cache/queue/genericF.go
+++ b/SmartCache/sim/cache/queue/genericF.go
@@ -48,7 +48,7 @@ func (q *QueueBaseFloat) getQueue() []*files.Stats {
 
 	for idxOVal := len(q.orderedValues) - 1; idxOVal > -1; idxOVal-- {
 		curQueue := q.queue[q.orderedValues[idxOVal]]
-		for idx := len(curQueue); idx > -1; idx-- {
+		for idx := len(curQueue) - 1; idx > -1; idx-- {
 			filename := curQueue[idx]
 			fileStats, inQueue := q.files[filename]
 
diff --git a/SmartCache/sim/cache/queue/lfu.go b/SmartCache/sim/cache/queue/lfu.go
index b07ae31..f78adfe 100644
--- a/SmartCache/sim/cache/queue/lfu.go
+++ b/SmartCache/sim/cache/queue/lfu.go
@@ -45,7 +45,7 @@ func (q *LFU) getQueue() []*files.Stats {
 
 	for idxOVal := len(q.orderedValues) - 1; idxOVal > -1; idxOVal-- {
 		curQueue := q.queue[q.orderedValues[idxOVal]]
-		for idx := len(curQueue); idx > -1; idx-- {
+		for idx := len(curQueue) - 1; idx > -1; idx-- {
 			filename := curQueue[idx]
 			fileStats, inQueue := q.files[filename]
 
-- 
2.43.0


From fe68c8b3b0f1ffc5d399adaa2477dd3f72b61c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:10 +0000
Subject: [PATCH 02/25] fix: dump records of cached files and of statistics
 carry the file name they belong to

---
 SmartCache/sim/cache/aiNN.go        | 14 ++++++++------
 SmartCache/sim/cache/aiRL.go        |  5 +++--
 SmartCache/sim/cache/simpleCache.go |  5 +++--
 SmartCache/sim/cache/weightFun.go   | 12 +++++++-----
 4 files changed, 21 insertions(+), 15 deletions(-)

diff --git a/SmartCache/sim/cache/aiNN.go b/SmartCache/sim/cache/aiNN.go
index e8ad18b..2a1d268 100644
--- a/SmartCache/sim/cache/aiNN.go
+++ b/SmartCache/sim/cache/aiNN.go
@@ -81,24 +81,26 @@ func (cache *AINN) Dumps(fileAndStats bool) [][]byte {
 	if fileAndStats {
 		// ----- Files -----
 		cache.logger.Info("Dump cache files")
-		for file := range queue.Get(cache.files) {
+		for _, file := range queue.GetFromWorst(cache.files) {
 			dumpInfo, _ := json.Marshal(DumpInfo{Type: "FILES"})
 			dumpFile, _ := json.Marshal(file)
 			record, _ := json.Marshal(DumpRecord{
-				Info: string(dumpInfo),
-				Data: string(dumpFile),
+				Info:     string(dumpInfo),
+				Data:     string(dumpFile),
+				Filename: file.Filename,
 			})
 			record = append(record, newLine...)
 			outData = append(outData, record)
 		}
 		// ----- Stats -----
 		cache.logger.Info("Dump cache stats")
-		for _, stats := range cache.stats.Data {
+		for filename, stats := range cache.stats.Data {
 			dumpInfo, _ := json.Marshal(DumpInfo{Type: "STATS"})
 			dumpStats, _ := json.Marshal(stats)
 			record, _ := json.Marshal(DumpRecord{
-				Info: string(dumpInfo),
-				Data: string(dumpStats),
+				Info:     string(dumpInfo),
+				Data:     string(dumpStats),
+				Filename: filename,
 			})
 			record = append(record, newLine...)
 			outData = append(outData, record)
diff --git a/SmartCache/sim/cache/aiRL.go b/SmartCache/sim/cache/aiRL.go
index a1a1dc0..d656520 100644
--- a/SmartCache/sim/cache/aiRL.go
+++ b/SmartCache/sim/cache/aiRL.go
@@ -245,8 +245,9 @@ func (cache *AIRL) Dumps(fileAndStats bool) [][]byte { //nolint:funlen
 			dumpInfo, _ := json.Marshal(DumpInfo{Type: "FILES"})
 			dumpFile, _ := json.Marshal(file)
 			record, _ := json.Marshal(DumpRecord{
-				Info: string(dumpInfo),
-				Data: string(dumpFile),
+				Info:     string(dumpInfo),
+				Data:     string(dumpFile),
+				Filename: file.Filename,
 			})
 			record = append(record, newLine...)
 			outData = append(outData, record)
diff --git a/SmartCache/sim/cache/simpleCache.go b/SmartCache/sim/cache/simpleCache.go
index dc4b80c..167fa2e 100644
--- a/SmartCache/sim/cache/simpleCache.go
+++ b/SmartCache/sim/cache/simpleCache.go
@@ -231,8 +231,9 @@ func (cache *SimpleCache) Dumps(fileAndStats bool) [][]byte {
 			dumpInfo, _ := json.Marshal(DumpInfo{Type: "FILES"})
 			dumpFile, _ := json.Marshal(file)
 			record, _ := json.Marshal(DumpRecord{
-				Info: string(dumpInfo),
-				Data: string(dumpFile),
+				Info:     string(dumpInfo),
+				Data:     string(dumpFile),
+				Filename: file.Filename,
 			})
 			record = append(record, newLine...)
 			outData = append(outData, record)
diff --git a/SmartCache/sim/cache/weightFun.go b/SmartCache/sim/cache/weightFun.go
index d85cba6..7a6c39d 100644
--- a/SmartCache/sim/cache/weightFun.go
+++ b/SmartCache/sim/cache/weightFun.go
@@ -62,20 +62,22 @@ func (cache *WeightFun) Dumps(fileAndStats bool) [][]byte {
 			dumpInfo, _ := json.Marshal(DumpInfo{Type: "FILES"})
 			dumpFile, _ := json.Marshal(file)
 			record, _ := json.Marshal(DumpRecord{
-				Info: string(dumpInfo),
-				Data: string(dumpFile),
+				Info:     string(dumpInfo),
+				Data:     string(dumpFile),
+				Filename: file.Filename,
 			})
 			record = append(record, newLine...)
 			outData = append(outData, record)
 		}
 		// ----- Stats -----
 		cache.logger.Info("Dump cache stats")
-		for _, stats := range cache.stats.Data {
+		for filename, stats := range cache.stats.Data {
 			dumpInfo, _ := json.Marshal(DumpInfo{Type: "STATS"})
 			dumpStats, _ := json.Marshal(stats)
 			record, _ := json.Marshal(DumpRecord{
-				Info: string(dumpInfo),
-				Data: string(dumpStats),
+				Info:     string(dumpInfo),
+				Data:     string(dumpStats),
+				Filename: filename,
 			})
 			record = append(record, newLine...)
 			outData = append(outData, record)
-- 
2.43.0


From 209713c5d8e19e73e7bde5c67724120c19ec33a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 03/25] fix: a dump record that cannot be decoded is rejected
 before it reaches the cache

---
 SmartCache/sim/cache/aiRL.go        | 6 ++++++
 SmartCache/sim/cache/simpleCache.go | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/SmartCache/sim/cache/aiRL.go b/SmartCache/sim/cache/aiRL.go
index d656520..92e0681 100644
--- a/SmartCache/sim/cache/aiRL.go
+++ b/SmartCache/sim/cache/aiRL.go
@@ -362,12 +362,18 @@ func (cache *AIRL) Loads(inputString [][]byte, vars ...interface{}) {
 		case "FILES":
 			var curFileStats files.Stats
 			unmarshalErr = json.Unmarshal([]byte(curRecord.Data), &curFileStats)
+			if unmarshalErr != nil {
+				panic(unmarshalErr)
+			}
 			queue.Insert(cache.files, &curFileStats)
 			cache.size += curFileStats.Size
 			cache.stats.Data[curRecord.Filename] = &curFileStats
 		case "STATS":
 			var curFileStats files.Stats
 			unmarshalErr = json.Unmarshal([]byte(curRecord.Data), &curFileStats)
+			if unmarshalErr != nil {
+				panic(unmarshalErr)
+			}
 			if _, inStats := cache.stats.Data[curRecord.Filename]; !inStats {
 				cache.stats.Data[curRecord.Filename] = &curFileStats
 			}
diff --git a/SmartCache/sim/cache/simpleCache.go b/SmartCache/sim/cache/simpleCache.go
index 167fa2e..88e5f14 100644
--- a/SmartCache/sim/cache/simpleCache.go
+++ b/SmartCache/sim/cache/simpleCache.go
@@ -301,10 +301,10 @@ func (cache *SimpleCache) Loads(inputString [][]byte, _ ...interface{}) {
 		case "FILES":
 			var curFileStats files.Stats
 			unmarshalErr = json.Unmarshal([]byte(curRecord.Data), &curFileStats)
-			queue.Insert(cache.files, &curFileStats)
 			if unmarshalErr != nil {
 				panic(unmarshalErr)
 			}
+			queue.Insert(cache.files, &curFileStats)
 			cache.size += curFileStats.Size
 			cache.stats.Data[curRecord.Filename] = &curFileStats
 		case "STATS":
-- 
2.43.0


From 536877945284bab82c22b2f7e52fe990c1ebfc21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 04/25] fix: the weight function cache decodes dump records as
 they are loaded and reports errors

---
 SmartCache/sim/cache/weightFun.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/SmartCache/sim/cache/weightFun.go b/SmartCache/sim/cache/weightFun.go
index 7a6c39d..eb247db 100644
--- a/SmartCache/sim/cache/weightFun.go
+++ b/SmartCache/sim/cache/weightFun.go
@@ -95,9 +95,14 @@ func (cache *WeightFun) Loads(inputString [][]byte, _ ...interface{}) {
 		unmarshalErr  error
 	)
 	for _, record := range inputString {
-		buffer := record[:len(record)-1]
-		json.Unmarshal(buffer, &curRecord)
-		json.Unmarshal([]byte(curRecord.Info), &curRecordInfo)
+		unmarshalErr = json.Unmarshal(record, &curRecord)
+		if unmarshalErr != nil {
+			panic(unmarshalErr)
+		}
+		unmarshalErr = json.Unmarshal([]byte(curRecord.Info), &curRecordInfo)
+		if unmarshalErr != nil {
+			panic(unmarshalErr)
+		}
 		switch curRecordInfo.Type {
 		case "FILES":
 			var curFileStats files.Stats
-- 
2.43.0


From ec40836668861924640dd9192b67bcf175b23ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 05/25] fix: the neural network cache restores files and
 statistics from its dumps

---
 SmartCache/sim/cache/aiNN.go | 21 ++-------------------
 1 file changed, 2 insertions(+), 19 deletions(-)

diff --git a/SmartCache/sim/cache/aiNN.go b/SmartCache/sim/cache/aiNN.go
index 2a1d268..c978758 100644
--- a/SmartCache/sim/cache/aiNN.go
+++ b/SmartCache/sim/cache/aiNN.go
@@ -8,7 +8,6 @@ import (
 	"simulator/v2/cache/ai/featuremap"
 	"simulator/v2/cache/ai/neuralnet"
 	aiPb "simulator/v2/cache/aiService"
-	"simulator/v2/cache/files"
 	"simulator/v2/cache/queue"
 
 	"google.golang.org/grpc"
@@ -111,24 +110,8 @@ func (cache *AINN) Dumps(fileAndStats bool) [][]byte {
 }
 
 // Loads the AINN cache
-func (cache *AINN) Loads(inputString [][]byte, _ ...interface{}) {
-	var curRecord DumpRecord
-	var curRecordInfo DumpInfo
-
-	for _, record := range inputString {
-		buffer := record[:len(record)-1]
-		json.Unmarshal(buffer, &curRecord)
-		json.Unmarshal([]byte(curRecord.Info), &curRecordInfo)
-		switch curRecordInfo.Type {
-		case "FILES":
-			var curFile files.Stats
-			json.Unmarshal([]byte(curRecord.Data), &curFile)
-			queue.Insert(cache.files, &curFile)
-			cache.size += curFile.Size
-		case "STATS":
-			json.Unmarshal([]byte(curRecord.Data), &cache.stats.Data)
-		}
-	}
+func (cache *AINN) Loads(inputString [][]byte, vars ...interface{}) {
+	cache.SimpleCache.Loads(inputString, vars...)
 }
 
 // func (cache *AINN) getCategory(catKey string, value interface{}) []float64 {
-- 
2.43.0


From e72b6df66a9c4d77bdf7c9daf14f88af4564d2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 06/25] fix: an agent can be written to a dump (its choice
 memory is not representable in JSON)

---
 SmartCache/sim/cache/ai/qlearn/qlearn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SmartCache/sim/cache/ai/qlearn/qlearn.go b/SmartCache/sim/cache/ai/qlearn/qlearn.go
index 64254cc..82e6df4 100644
--- a/SmartCache/sim/cache/ai/qlearn/qlearn.go
+++ b/SmartCache/sim/cache/ai/qlearn/qlearn.go
@@ -191,7 +191,7 @@ type Choice struct {
 
 // Agent used in Qlearning
 type Agent struct {
-	Memory              map[interface{}][]Choice `json:"memory"`
+	Memory              map[interface{}][]Choice `json:"-"`
 	QTable              QTable                   `json:"qtable"`
 	NumStates           int                      `json:"numStates"`
 	NumVars             int                      `json:"numVars"`
-- 
2.43.0


From d62be8c8dc4465be1764e213caaa0f8cd74e4676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 07/25] fix: the dataset verifier cache keeps the initialised
 queue and statistics

---
 SmartCache/sim/cache/lruDatasetVerifier.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/SmartCache/sim/cache/lruDatasetVerifier.go b/SmartCache/sim/cache/lruDatasetVerifier.go
index eb19b2c..85e0bd1 100644
--- a/SmartCache/sim/cache/lruDatasetVerifier.go
+++ b/SmartCache/sim/cache/lruDatasetVerifier.go
@@ -26,9 +26,6 @@ func (cache *LRUDatasetVerifier) Init(param InitParameters) interface{} {
 	param.QueueType = queue.LRUQueue
 	cache.SimpleCache.Init(param)
 
-	cache.files = &queue.LRU{}
-	cache.stats.Data = make(map[int64]*files.Stats)
-
 	cache.datasetFileMap = make(map[int64]bool)
 	datasetFilePath := param.Dataset2TestPath
 
-- 
2.43.0


From e941160376eff9d069734d0c3cb956d8a51380d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:11 +0000
Subject: [PATCH 08/25] fix: job exit code, start, end, CPU count and wrapper
 times of a record are read from its columns

---
 SmartCache/sim/cache/simulation.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/SmartCache/sim/cache/simulation.go b/SmartCache/sim/cache/simulation.go
index cf3909c..ae177d2 100644
--- a/SmartCache/sim/cache/simulation.go
+++ b/SmartCache/sim/cache/simulation.go
@@ -128,6 +128,12 @@ func recordGenerator(csvReader *csv.Reader, curFile *os.File, headerMap []int) c
 			taskMonitorID, _ := strconv.ParseInt(record[headerMap[4]], 10, 64)
 			jobID, _ := strconv.ParseInt(record[headerMap[5]], 10, 64)
 			protocol, _ := strconv.ParseInt(record[headerMap[6]], 10, 64)
+			jobExecExitCode, _ := strconv.ParseInt(record[headerMap[7]], 10, 64)
+			jobStart, _ := strconv.ParseInt(record[headerMap[8]], 10, 64)
+			jobEnd, _ := strconv.ParseInt(record[headerMap[9]], 10, 64)
+			numCPU, _ := strconv.ParseInt(record[headerMap[10]], 10, 64)
+			wrapWC, _ := strconv.ParseFloat(record[headerMap[11]], 64)
+			wrapCPU, _ := strconv.ParseFloat(record[headerMap[12]], 64)
 			size, _ := strconv.ParseFloat(record[headerMap[13]], 64)
 			dataType, _ := strconv.ParseInt(record[headerMap[14]], 10, 64)
 			fileType, _ := strconv.ParseInt(record[headerMap[15]], 10, 64)
@@ -164,6 +170,13 @@ func recordGenerator(csvReader *csv.Reader, curFile *os.File, headerMap []int) c
 				SizeM:         sizeInMegabytes,
 				Campaign:      campaign,
 				Process:       process,
+
+				JobExecExitCode: jobExecExitCode,
+				JobStart:        jobStart,
+				JobEnd:          jobEnd,
+				NumCPU:          numCPU,
+				WrapWC:          wrapWC,
+				WrapCPU:         wrapCPU,
 			}
 
 			// fmt.Println(curRecord)
-- 
2.43.0


From 194242f9b81746a1cdcbd38a7c7bb58152ea82c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:11 +0000
Subject: [PATCH 09/25] fix: plain and .gzip CSV files of a source folder are
 read instead of skipped

---
 SmartCache/sim/cache/simulation.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/SmartCache/sim/cache/simulation.go b/SmartCache/sim/cache/simulation.go
index ae177d2..b8ffb35 100644
--- a/SmartCache/sim/cache/simulation.go
+++ b/SmartCache/sim/cache/simulation.go
@@ -269,8 +269,7 @@ func OpenSimFolder(dirPath *os.File) chan CSVRecord {
 		for _, name := range fileList {
 			fileExt := path.Ext(name)
 			switch fileExt {
-			case ".csv":
-			case ".gz":
+			case ".csv", ".gz", ".gzip":
 				for record := range OpenSimFile(name) {
 					channel <- record
 				}
-- 
2.43.0


From 2bbaec76e73393893ccc5174b86bce38de9aa495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:11 +0000
Subject: [PATCH 10/25] fix: the default of the dataset to test is set on the
 key that is read

---
 SmartCache/sim/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SmartCache/sim/main.go b/SmartCache/sim/main.go
index 833bb63..f806643 100644
--- a/SmartCache/sim/main.go
+++ b/SmartCache/sim/main.go
@@ -91,7 +91,7 @@ func configureViper(configFilenameWithNoExt string) { //nolint:ignore,funlen
 
 	viper.SetDefault("sim.ai.model", "")
 
-	viper.SetDefault("sim.dataset2testpath", "")
+	viper.SetDefault("sim.ai.dataset2TestPath", "")
 }
 
 func simCommand() *cobra.Command { //nolint:ignore,funlen
-- 
2.43.0


From 9df6797683bf3d8936bfc692794859c8e7e4eb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:11 +0000
Subject: [PATCH 11/25] fix: dump files are closed after being written or read

---
 SmartCache/sim/cache/aiRL.go        | 5 +++++
 SmartCache/sim/cache/simpleCache.go | 7 +++++++
 2 files changed, 12 insertions(+)

diff --git a/SmartCache/sim/cache/aiRL.go b/SmartCache/sim/cache/aiRL.go
index 92e0681..a3f1521 100644
--- a/SmartCache/sim/cache/aiRL.go
+++ b/SmartCache/sim/cache/aiRL.go
@@ -334,6 +334,11 @@ func (cache *AIRL) Dump(filename string, fileAndStats bool) {
 	if writeErr != nil {
 		panic(writeErr)
 	}
+
+	closeFileErr := outFile.Close()
+	if closeFileErr != nil {
+		panic(closeFileErr)
+	}
 }
 
 // Loads the AIRL cache
diff --git a/SmartCache/sim/cache/simpleCache.go b/SmartCache/sim/cache/simpleCache.go
index 88e5f14..4d7cfa6 100644
--- a/SmartCache/sim/cache/simpleCache.go
+++ b/SmartCache/sim/cache/simpleCache.go
@@ -275,6 +275,11 @@ func (cache *SimpleCache) Dump(filename string, fileAndStats bool) {
 	if closeDumpErr != nil {
 		panic(closeDumpErr)
 	}
+
+	closeFileErr := outFile.Close()
+	if closeFileErr != nil {
+		panic(closeFileErr)
+	}
 }
 
 // Loads the SimpleCache cache
@@ -328,6 +333,8 @@ func (cache *SimpleCache) Load(filename string) [][]byte {
 	if err != nil {
 		panic(fmt.Sprintf("Error dump file opening: %s", err))
 	}
+	defer inFile.Close()
+
 	greader, gzipErr := gzip.NewReader(inFile)
 	if gzipErr != nil {
 		panic(gzipErr)
-- 
2.43.0


From 7289795723e11f5b37edb0152bde5b8b95f43e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:11 +0000
Subject: [PATCH 12/25] fix: asking for a memory profile no longer skips run
 statistics, dump, event log flush and configuration

---
 SmartCache/sim/cache/simulation.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/SmartCache/sim/cache/simulation.go b/SmartCache/sim/cache/simulation.go
index b8ffb35..6c9455c 100644
--- a/SmartCache/sim/cache/simulation.go
+++ b/SmartCache/sim/cache/simulation.go
@@ -1014,7 +1014,6 @@ func Simulate(cacheType string, cacheInstance Cache, param SimulationParams) { /
 		if profileCloseErr != nil {
 			panic(profileCloseErr)
 		}
-		return
 	}
 
 	elapsedTime := time.Since(simBeginTime)
-- 
2.43.0


From 922ed4126cabcd6c964de130e610b33be320e109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:33 +0000
Subject: [PATCH 13/25] fix: categories reach the eviction agent in the same
 order in every run

---
 SmartCache/sim/cache/aiRLCatStateManager.go | 25 ++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/SmartCache/sim/cache/aiRLCatStateManager.go b/SmartCache/sim/cache/aiRLCatStateManager.go
index 9bc1d45..6b3307c 100644
--- a/SmartCache/sim/cache/aiRLCatStateManager.go
+++ b/SmartCache/sim/cache/aiRLCatStateManager.go
@@ -4,6 +4,7 @@ import (
 	"simulator/v2/cache/ai/featuremap"
 	"simulator/v2/cache/ai/qlearn"
 	"simulator/v2/cache/files"
+	"sort"
 )
 
 // CatState is a struct to manage the state of eviction agent starting from categories
@@ -154,6 +155,18 @@ func (catMan CategoryManager) GetFileCategory(file *files.Stats) int {
 	return curCatIdx
 }
 
+// sortedCategories returns the current categories always in the same order, so
+// that a simulation is reproducible
+func (catMan *CategoryManager) sortedCategories() []int {
+	categories := make([]int, 0, len(catMan.categoryFileListMap))
+	for catID := range catMan.categoryFileListMap {
+		categories = append(categories, catID)
+	}
+	sort.Ints(categories)
+
+	return categories
+}
+
 // GetStateFromCategories generates all the states from the current categories
 func (catMan *CategoryManager) GetStateFromCategories(newStates bool, agent qlearn.Agent, capacity float64, hitRate float64, maxSize float64) chan CatState {
 	catMan.generatorChan = make(chan CatState, len(catMan.categoryFileListMap))
@@ -162,7 +175,7 @@ func (catMan *CategoryManager) GetStateFromCategories(newStates bool, agent qlea
 		defer close(catMan.generatorChan)
 		if newStates {
 			catMan.lastStateAction = make(map[int]CatState)
-			for catID := range catMan.categoryFileListMap {
+			for _, catID := range catMan.sortedCategories() {
 				curCat := catMan.categoryFileFeatureIdx[catID]
 				catMan.buffer = catMan.buffer[:0]
 
@@ -210,8 +223,14 @@ func (catMan *CategoryManager) GetStateFromCategories(newStates bool, agent qlea
 				catMan.generatorChan <- curCatState
 			}
 		} else {
-			for _, curCatState := range catMan.lastStateAction {
-				catMan.generatorChan <- curCatState
+			states := make([]int, 0, len(catMan.lastStateAction))
+			for state := range catMan.lastStateAction {
+				states = append(states, state)
+			}
+			sort.Ints(states)
+
+			for _, state := range states {
+				catMan.generatorChan <- catMan.lastStateAction[state]
 			}
 		}
 	}()
-- 
2.43.0


From 4b3ebe14e73b334a85c5ec2b83e40a2340c1480a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:33 +0000
Subject: [PATCH 14/25] fix: the features of a feature map are in the same
 order in every run

---
 SmartCache/sim/cache/ai/featuremap/featuremap.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/SmartCache/sim/cache/ai/featuremap/featuremap.go b/SmartCache/sim/cache/ai/featuremap/featuremap.go
index 5523f40..dc70611 100644
--- a/SmartCache/sim/cache/ai/featuremap/featuremap.go
+++ b/SmartCache/sim/cache/ai/featuremap/featuremap.go
@@ -8,6 +8,7 @@ import (
 	"os"
 	"path/filepath"
 	"reflect"
+	"sort"
 
 	"go.uber.org/zap"
 )
@@ -125,10 +126,16 @@ func (manager *FeatureManager) Populate(featureMapFilePath string) { //nolint:ig
 	manager.FileFeatureIdxMap = make(map[string]int)
 
 	if mainType := reflect.TypeOf(tmpMap).Kind(); mainType == reflect.Map { //nolint:ignore,nestif
-		mapIter := reflect.ValueOf(tmpMap).MapRange()
-		for mapIter.Next() {
-			feature := mapIter.Key().String()
-			curFeature := mapIter.Value()
+		featureMap := reflect.ValueOf(tmpMap)
+		featureNames := featureMap.MapKeys()
+		// The order of the features must be the same in every run
+		sort.Slice(featureNames, func(i, j int) bool {
+			return featureNames[i].String() < featureNames[j].String()
+		})
+
+		for _, featureName := range featureNames {
+			feature := featureName.String()
+			curFeature := featureMap.MapIndex(featureName)
 
 			if featureType := curFeature.Elem().Kind(); featureType == reflect.Map {
 				featureIter := curFeature.Elem().MapRange()
-- 
2.43.0


From fed7a47ffb4f0f907ccfa9625f6ac4cbafe56a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:33 +0000
Subject: [PATCH 15/25] fix: errors in a feature map are logged instead of
 dereferencing a missing logger

---
 SmartCache/sim/cache/ai/featuremap/featuremap.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SmartCache/sim/cache/ai/featuremap/featuremap.go b/SmartCache/sim/cache/ai/featuremap/featuremap.go
index dc70611..81de5db 100644
--- a/SmartCache/sim/cache/ai/featuremap/featuremap.go
+++ b/SmartCache/sim/cache/ai/featuremap/featuremap.go
@@ -66,7 +66,7 @@ func (manager *FeatureManager) makeFeatureIdxWeights() {
 
 // Parse a feature map file and returns the map of keys and objects.
 func Parse(featureMapFilePath string) FeatureManager {
-	manager := FeatureManager{}
+	manager := FeatureManager{logger: zap.L()}
 	manager.Features = make([]Obj, 0)
 	manager.Populate(featureMapFilePath)
 
-- 
2.43.0


From 81454d0f45a96bc1999769a952495da838620855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:33 +0000
Subject: [PATCH 16/25] fix: the infinite cache updates the statistics of a
 requested file like the other caches

---
 SmartCache/sim/cache/infiniteCache.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/SmartCache/sim/cache/infiniteCache.go b/SmartCache/sim/cache/infiniteCache.go
index b07f8f2..7845bef 100644
--- a/SmartCache/sim/cache/infiniteCache.go
+++ b/SmartCache/sim/cache/infiniteCache.go
@@ -26,6 +26,7 @@ func (cache *InfiniteCache) BeforeRequest(request *Request, hit bool) (*files.St
 	cache.numReq++
 
 	curStats, _ := cache.stats.GetOrCreate(request.Filename, request.Size, request.DayTime, cache.tick)
+	curStats.UpdateStats(hit, request.Size, request.UserID, request.SiteName, request.DayTime)
 
 	return curStats, hit
 }
-- 
2.43.0


From b158fd1778cc4dcc0b17d9a68dda6a723aa90c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:11 +0000
Subject: [PATCH 17/25] fix: the weight function, dataset verifier and infinite
 caches log the files they add

---
 SmartCache/sim/cache/infiniteCache.go      | 14 ++++++++++++++
 SmartCache/sim/cache/lruDatasetVerifier.go | 14 ++++++++++++++
 SmartCache/sim/cache/weightFun.go          | 13 +++++++++++++
 3 files changed, 41 insertions(+)

diff --git a/SmartCache/sim/cache/infiniteCache.go b/SmartCache/sim/cache/infiniteCache.go
index 7845bef..fbeec0a 100644
--- a/SmartCache/sim/cache/infiniteCache.go
+++ b/SmartCache/sim/cache/infiniteCache.go
@@ -1,6 +1,7 @@
 package cache
 
 import (
+	"fmt"
 	"simulator/v2/cache/files"
 	"simulator/v2/cache/queue"
 )
@@ -42,6 +43,19 @@ func (cache *InfiniteCache) UpdatePolicy(request *Request, fileStats *files.Stat
 
 		cache.size += requestedFileSize
 		cache.MaxSize += requestedFileSize
+
+		if cache.logFile != nil {
+			cache.toLogBuffer([]string{
+				fmt.Sprintf("%d", cache.tick),
+				ChoiceAdd,
+				fmt.Sprintf("%0.2f", cache.size),
+				fmt.Sprintf("%0.2f", cache.Capacity()),
+				fmt.Sprintf("%d", fileStats.Filename),
+				fmt.Sprintf("%0.2f", fileStats.Size),
+				fmt.Sprintf("%d", fileStats.Frequency),
+				fmt.Sprintf("%d", fileStats.DeltaLastRequest),
+			})
+		}
 	}
 
 	return added
diff --git a/SmartCache/sim/cache/lruDatasetVerifier.go b/SmartCache/sim/cache/lruDatasetVerifier.go
index 85e0bd1..a2ef32f 100644
--- a/SmartCache/sim/cache/lruDatasetVerifier.go
+++ b/SmartCache/sim/cache/lruDatasetVerifier.go
@@ -3,6 +3,7 @@ package cache
 import (
 	"compress/gzip"
 	"encoding/json"
+	"fmt"
 	"log"
 	"os"
 
@@ -72,6 +73,19 @@ func (cache *LRUDatasetVerifier) UpdatePolicy(request *Request, fileStats *files
 
 				cache.size += requestedFileSize
 				added = true
+
+				if cache.logFile != nil {
+					cache.toLogBuffer([]string{
+						fmt.Sprintf("%d", cache.tick),
+						ChoiceAdd,
+						fmt.Sprintf("%0.2f", cache.size),
+						fmt.Sprintf("%0.2f", cache.Capacity()),
+						fmt.Sprintf("%d", fileStats.Filename),
+						fmt.Sprintf("%0.2f", fileStats.Size),
+						fmt.Sprintf("%d", fileStats.Frequency),
+						fmt.Sprintf("%d", fileStats.DeltaLastRequest),
+					})
+				}
 			}
 		}
 	} else {
diff --git a/SmartCache/sim/cache/weightFun.go b/SmartCache/sim/cache/weightFun.go
index eb247db..ac36ecc 100644
--- a/SmartCache/sim/cache/weightFun.go
+++ b/SmartCache/sim/cache/weightFun.go
@@ -167,6 +167,19 @@ func (cache *WeightFun) UpdatePolicy(request *Request, fileStats *files.Stats, h
 
 			queue.Insert(cache.files, fileStats)
 
+			if cache.logFile != nil {
+				cache.toLogBuffer([]string{
+					fmt.Sprintf("%d", cache.tick),
+					ChoiceAdd,
+					fmt.Sprintf("%0.2f", cache.size),
+					fmt.Sprintf("%0.2f", cache.Capacity()),
+					fmt.Sprintf("%d", fileStats.Filename),
+					fmt.Sprintf("%0.2f", fileStats.Size),
+					fmt.Sprintf("%d", fileStats.Frequency),
+					fmt.Sprintf("%d", fileStats.DeltaLastRequest),
+				})
+			}
+
 			added = true
 		}
 	} else {
-- 
2.43.0


From 5e8b797681af41458584df5e223358e52a47f35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:11 +0000
Subject: [PATCH 18/25] fix: the last request delta category of a file is
 computed from its last request delta

---
 SmartCache/sim/cache/aiRLCatStateManager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SmartCache/sim/cache/aiRLCatStateManager.go b/SmartCache/sim/cache/aiRLCatStateManager.go
index 6b3307c..1c8ae87 100644
--- a/SmartCache/sim/cache/aiRLCatStateManager.go
+++ b/SmartCache/sim/cache/aiRLCatStateManager.go
@@ -134,7 +134,7 @@ func (catMan CategoryManager) GetFileCategory(file *files.Stats) int {
 		case "catNumReq":
 			catMan.buffer = append(catMan.buffer, feature.Index(file.Frequency))
 		case "catDeltaLastRequest":
-			catMan.buffer = append(catMan.buffer, feature.Index(file.Recency))
+			catMan.buffer = append(catMan.buffer, feature.Index(file.DeltaLastRequest))
 		}
 	}
 
-- 
2.43.0


From b1551d1c49a6183327a9b119b3951f4c0741d5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:11 +0000
Subject: [PATCH 19/25] fix: clearing the statistics resets the weights
 together with their sum

---
 SmartCache/sim/cache/files/stats.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/SmartCache/sim/cache/files/stats.go b/SmartCache/sim/cache/files/stats.go
index 2d4f0eb..6bfdc3e 100644
--- a/SmartCache/sim/cache/files/stats.go
+++ b/SmartCache/sim/cache/files/stats.go
@@ -72,6 +72,7 @@ func (s *Manager) GetTotDeletedFileMiss() int {
 func (s *Manager) Clear() {
 	for _, fileStats := range s.Data {
 		fileStats.Recency = 0
+		fileStats.Weight = 0.
 	}
 	s.weightSum = 0.0
 }
-- 
2.43.0


From 8ee2554f5e64d56843b3070e930b8cd47b10fbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:27 +0000
Subject: [PATCH 20/25] fix: the prototype Q-table updates the value of the
 taken action

---
 qLearning_smartCache/qtable/qtable.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/qLearning_smartCache/qtable/qtable.go b/qLearning_smartCache/qtable/qtable.go
index 65ffc1f..783f994 100644
--- a/qLearning_smartCache/qtable/qtable.go
+++ b/qLearning_smartCache/qtable/qtable.go
@@ -206,5 +206,12 @@ func (table *QTable) Update(state []float64, action ActionType, reward float64)
 	stateIdx := table.GetStateIdx(state)
 	actionValue := table.GetAction(stateIdx, action)
 	maxValue := getArgMax(table.states[stateIdx])
-	table.states[stateIdx][action] = actionValue + table.learningRate*(reward+table.DecayRate*table.states[stateIdx][maxValue]-actionValue)
+	actionIdx := 0
+	for idx := 0; idx < len(table.actions); idx++ {
+		if table.actions[idx] == action {
+			actionIdx = idx
+			break
+		}
+	}
+	table.states[stateIdx][actionIdx] = actionValue + table.learningRate*(reward+table.DecayRate*table.states[stateIdx][maxValue]-actionValue)
 }
-- 
2.43.0


From 7ac9f28afc5d48e1321a3bd912c080375d63f7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:27 +0000
Subject: [PATCH 21/25] fix: the prototype cache refuses a file bigger than
 itself instead of looping forever

---
 qLearning_smartCache/cache/cache.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qLearning_smartCache/cache/cache.go b/qLearning_smartCache/cache/cache.go
index bff1fe8..579a939 100644
--- a/qLearning_smartCache/cache/cache.go
+++ b/qLearning_smartCache/cache/cache.go
@@ -83,6 +83,10 @@ func (cache SimCache) GetPoints() float64 {
 // Insert add a file into the cache. If there is no space left, it starts to
 // remove the files with less value and then adds it when there is space
 func (cache *SimCache) Insert(fileName string, size float64) {
+	if size > cache.MaxSize {
+		return
+	}
+
 	if cache.GetSize()+size > cache.MaxSize {
 		for {
 			fileName, _ := cache.GetMinValue()
-- 
2.43.0


From 74f6b702c1586ff3d9cb1405e257935fe754744d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:05 +0000
Subject: [PATCH 22/25] fix: a reporting day without served requests does not
 divide by zero

---
 SmartCache/sim/cache/aiRL.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/SmartCache/sim/cache/aiRL.go b/SmartCache/sim/cache/aiRL.go
index a3f1521..171f9fe 100644
--- a/SmartCache/sim/cache/aiRL.go
+++ b/SmartCache/sim/cache/aiRL.go
@@ -1320,6 +1320,10 @@ func writeQTable(outFilename string, data string) {
 }
 
 func (cache *AIRL) meanNumCategories() int {
+	if len(cache.numDailyCategories) == 0 {
+		return 0
+	}
+
 	return cache.sumNumDailyCategories / len(cache.numDailyCategories)
 }
 
-- 
2.43.0


From c9088d9d202bde9df87260fb87b1b97586a3cd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:41 +0000
Subject: [PATCH 23/25] fix: loading a weightFun dump restores the sum of the
 weights

---
 SmartCache/sim/cache/files/stats.go | 11 +++++++++++
 SmartCache/sim/cache/weightFun.go   |  4 ++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/SmartCache/sim/cache/files/stats.go b/SmartCache/sim/cache/files/stats.go
index 6bfdc3e..b46cff6 100644
--- a/SmartCache/sim/cache/files/stats.go
+++ b/SmartCache/sim/cache/files/stats.go
@@ -77,6 +77,17 @@ func (s *Manager) Clear() {
 	s.weightSum = 0.0
 }
 
+// Load adds the stats of a file from a dump, weight included
+func (s *Manager) Load(filename int64, stats *Stats) {
+	if s.calcWeight {
+		if oldStats, inStats := s.Data[filename]; inStats {
+			s.weightSum -= oldStats.Weight
+		}
+		s.weightSum += stats.Weight
+	}
+	s.Data[filename] = stats
+}
+
 // Dirty indicates if the stats needs a purge
 func (s Manager) Dirty() bool {
 	numDays := s.lastUpdateTime.Sub(s.firstUpdateTime).Hours() / numHoursInADay
diff --git a/SmartCache/sim/cache/weightFun.go b/SmartCache/sim/cache/weightFun.go
index ac36ecc..91d8046 100644
--- a/SmartCache/sim/cache/weightFun.go
+++ b/SmartCache/sim/cache/weightFun.go
@@ -112,7 +112,7 @@ func (cache *WeightFun) Loads(inputString [][]byte, _ ...interface{}) {
 			}
 			queue.Insert(cache.files, &curFileStats)
 			cache.size += curFileStats.Size
-			cache.stats.Data[curRecord.Filename] = &curFileStats
+			cache.stats.Load(curRecord.Filename, &curFileStats)
 		case "STATS":
 			var curFileStats files.Stats
 			unmarshalErr = json.Unmarshal([]byte(curRecord.Data), &curFileStats)
@@ -120,7 +120,7 @@ func (cache *WeightFun) Loads(inputString [][]byte, _ ...interface{}) {
 				panic(unmarshalErr)
 			}
 			if _, inStats := cache.stats.Data[curRecord.Filename]; !inStats {
-				cache.stats.Data[curRecord.Filename] = &curFileStats
+				cache.stats.Load(curRecord.Filename, &curFileStats)
 			}
 		}
 	}
-- 
2.43.0


From 7fb118311a89b96d36c4769295f82561894aeaaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:37 +0000
Subject: [PATCH 24/25] fix: files loaded from a dump are known to the eviction
 agent

---
 SmartCache/sim/cache/aiRL.go | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/SmartCache/sim/cache/aiRL.go b/SmartCache/sim/cache/aiRL.go
index 171f9fe..1f31706 100644
--- a/SmartCache/sim/cache/aiRL.go
+++ b/SmartCache/sim/cache/aiRL.go
@@ -196,6 +196,31 @@ func (cache *AIRL) Init(params InitParameters) interface{} { //nolint:ignore,fun
 	return nil
 }
 
+// ClearFiles remove the cache files
+func (cache *AIRL) ClearFiles() {
+	cache.SimpleCache.ClearFiles()
+	cache.clearCategories()
+}
+
+// Clear the cache files and stats
+func (cache *AIRL) Clear() {
+	cache.SimpleCache.Clear()
+	cache.clearCategories()
+}
+
+// clearCategories forgets the files of the eviction agent
+func (cache *AIRL) clearCategories() {
+	if cache.evictionAgentOK {
+		cache.evictionCategoryManager.Init(
+			cache.evictionFeatureManager.Features,
+			cache.evictionFeatureManager.FeatureIdxWeights,
+			cache.evictionFeatureManager.FileFeatures,
+			cache.evictionFeatureManager.FileFeatureIdxWeights,
+			cache.evictionFeatureManager.FileFeatureIdxMap,
+		)
+	}
+}
+
 // ClearStats the cache stats
 func (cache *AIRL) ClearStats() {
 	cache.SimpleCache.ClearStats()
@@ -373,6 +398,10 @@ func (cache *AIRL) Loads(inputString [][]byte, vars ...interface{}) {
 			queue.Insert(cache.files, &curFileStats)
 			cache.size += curFileStats.Size
 			cache.stats.Data[curRecord.Filename] = &curFileStats
+			if cache.evictionAgentOK {
+				fileCategory := cache.evictionCategoryManager.GetFileCategory(&curFileStats)
+				cache.evictionCategoryManager.AddOrUpdateCategoryFile(fileCategory, &curFileStats)
+			}
 		case "STATS":
 			var curFileStats files.Stats
 			unmarshalErr = json.Unmarshal([]byte(curRecord.Data), &curFileStats)
-- 
2.43.0


From ff594531fab5d6058411a386e348089bc09c0d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:47 +0000
Subject: [PATCH 25/25] fix: a forced or on-free eviction calls the eviction
 agent once

With an addition agent the agent was called a second time after the
call its mode asks for, unlike without an addition agent, and its first
decisions were never judged.
---
 SmartCache/sim/cache/aiRL.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/SmartCache/sim/cache/aiRL.go b/SmartCache/sim/cache/aiRL.go
index 1f31706..53f8f38 100644
--- a/SmartCache/sim/cache/aiRL.go
+++ b/SmartCache/sim/cache/aiRL.go
@@ -1103,8 +1103,6 @@ func (cache *AIRL) UpdatePolicy(request *Request, fileStats *files.Stats, hit bo
 
 							cache.callEvictionAgent()
 						}
-
-						cache.callEvictionAgent()
 					} else {
 						cache.Free(requestedFileSize, false)
 					}
-- 
2.43.0

