package main

// refFields are the fields (name, type) the rules know.
var refFields = map[string][][2]string{
	"cache.AINN": {
		{"SimpleCache", "cache.SimpleCache"},
		{"prevTime", "time.Time"},
		{"curTime", "time.Time"},
		{"Exp", "float32"},
		{"aiClientHost", "string"},
		{"aiClientPort", "string"},
		{"aiClient", "aiservice.AIServiceClient"},
		{"aiFeatureMap", "featuremap.FeatureManager"},
		{"aiFeatureOrder", "[]string"},
		{"aiFeatureSelection", "[]bool"},
		{"aiModel", "*neuralnet.AIModel"},
		{"grpcConn", "*grpc.ClientConn"},
		{"grpcContext", "context.Context"},
		{"grpcCxtCancel", "context.CancelFunc"},
	},
	"cache.AIRL": {
		{"SimpleCache", "cache.SimpleCache"},
		{"rlType", "cache.aiRLType"},
		{"additionAgentOK", "bool"},
		{"evictionAgentOK", "bool"},
		{"evictionType", "cache.evictionType"},
		{"additionAgentBadQValue", "int"},
		{"evictionAgentBadQValue", "int"},
		{"additionAgentPrevQValue", "float64"},
		{"evictionAgentPrevQValue", "float64"},
		{"evictionAgentStep", "int64"},
		{"evictionAgentK", "int64"},
		{"evictionAgentNumCalls", "int64"},
		{"evictionAgentNumForcedCalls", "int64"},
		{"evictionRO", "float64"},
		{"sumNumDailyCategories", "int"},
		{"additionFeatureManager", "featuremap.FeatureManager"},
		{"evictionFeatureManager", "featuremap.FeatureManager"},
		{"additionAgent", "qlearn.Agent"},
		{"evictionAgent", "qlearn.Agent"},
		{"evictionCheckNextStateMap", "map[[8]byte]bool"},
		{"evictionCategoryManager", "cache.CategoryManager"},
		{"actionCounters", "map[qlearn.ActionType]int"},
		{"bufferIdxVector", "[]int"},
		{"numDailyCategories", "[]int"},
	},
	"cache.CSVRecord": {
		{"Day", "int64"},
		{"Region", "int64"},
		{"Filename", "int64"},
		{"FileType", "int64"},
		{"DataType", "int64"},
		{"Campaign", "int64"},
		{"Process", "int64"},
		{"Protocol", "int64"},
		{"TaskMonitorID", "int64"},
		{"TaskID", "int64"},
		{"JobID", "int64"},
		{"SiteName", "int64"},
		{"JobExecExitCode", "int64"},
		{"JobStart", "int64"},
		{"JobEnd", "int64"},
		{"JobSuccess", "bool"},
		{"JobLengthH", "float64"},
		{"JobLengthM", "float64"},
		{"UserID", "int64"},
		{"NumCPU", "int64"},
		{"WrapWC", "float64"},
		{"WrapCPU", "float64"},
		{"CPUTime", "float64"},
		{"IOTime", "float64"},
		{"Size", "float64"},
		{"SizeM", "float64"},
	},
	"cache.CatState": {
		{"Idx", "int"},
		{"Category", "int"},
		{"Files", "[]*files.Stats"},
		{"Action", "qlearn.ActionType"},
	},
	"cache.CategoryManager": {
		{"buffer", "[]int"},
		{"featureIdxWeights", "[]int"},
		{"fileFeatureIdxWeights", "[]int"},
		{"fileFeatures", "[]featuremap.Obj"},
		{"features", "[]featuremap.Obj"},
		{"fileFeatureIdxMap", "map[string]int"},
		{"categoryFileListMap", "map[int][]*files.Stats"},
		{"categoryFileFeatureIdx", "map[int][]int"},
		{"fileSupportDataSizeMap", "map[*files.Stats]float64"},
		{"filesCategoryMap", "map[int64]int"},
		{"categorySizesMap", "map[int]float64"},
		{"categoryStatesMap", "map[int]int"},
		{"generatorChan", "chan cache.CatState"},
		{"lastStateAction", "map[int]cache.CatState"},
	},
	"cache.DatasetFiles": {
		{"SelectedFiles", "[]int64"},
	},
	"cache.DelCatFile": {
		{"Category", "int"},
		{"File", "*files.Stats"},
	},
	"cache.DumpInfo": {
		{"Type", "string"},
	},
	"cache.DumpRecord": {
		{"Info", "string"},
		{"Data", "string"},
		{"Filename", "int64"},
	},
	"cache.FileDump": {
		{"Filename", "int64"},
		{"Size", "float64"},
	},
	"cache.InfiniteCache": {
		{"SimpleCache", "cache.SimpleCache"},
	},
	"cache.InitParameters": {
		{"Log", "bool"},
		{"RedirectReq", "bool"},
		{"Watermarks", "bool"},
		{"CalcWeight", "bool"},
		{"QueueType", "queue.QueueType"},
		{"HighWatermark", "float64"},
		{"LowWatermark", "float64"},
		{"Dataset2TestPath", "string"},
		{"AIFeatureMap", "string"},
		{"AIModel", "string"},
		{"FunctionTypeString", "string"},
		{"WfType", "functions.Type"},
		{"WfParams", "cache.WeightFunctionParameters"},
		{"EvictionAgentType", "string"},
		{"RandSeed", "int64"},
		{"AIRLEvictionK", "int64"},
		{"AIRLType", "string"},
		{"AIRLAdditionFeatureMap", "string"},
		{"AIRLEvictionFeatureMap", "string"},
		{"AIRLAdditionEpsilonStart", "float64"},
		{"AIRLAdditionEpsilonDecay", "float64"},
		{"AIRLAdditionEpsilonUnleash", "bool"},
		{"AIRLEvictionEpsilonStart", "float64"},
		{"AIRLEvictionEpsilonDecay", "float64"},
		{"AIRLEvictionEpsilonUnleash", "bool"},
		{"MaxNumDayDiff", "float64"},
		{"DeltaDaysStep", "float64"},
	},
	"cache.ItDataMcTypes": {},
	"cache.LRUDatasetVerifier": {
		{"SimpleCache", "cache.SimpleCache"},
		{"datasetFileMap", "map[int64]bool"},
	},
	"cache.OutputCSV": {
		{"filename", "string"},
		{"file", "*os.File"},
		{"compressedWriter", "*gzip.Writer"},
		{"csvWriter", "*csv.Writer"},
	},
	"cache.RandomCache": {
		{"SimpleCache", "cache.SimpleCache"},
		{"randomGenerator", "*rand.Rand"},
	},
	"cache.Request": {
		{"Filename", "int64"},
		{"Size", "float64"},
		{"CPUEff", "float64"},
		{"Day", "int64"},
		{"DayTime", "time.Time"},
		{"SiteName", "int64"},
		{"UserID", "int64"},
		{"DataType", "int64"},
		{"FileType", "int64"},
		{"Protocol", "int64"},
	},
	"cache.SimpleCache": {
		{"stats", "files.Manager"},
		{"files", "queue.Queue"},
		{"ordType", "queue.QueueType"},
		{"canRedirect", "bool"},
		{"useWatermarks", "bool"},
		{"logSimulation", "bool"},
		{"calcWeight", "bool"},
		{"hit", "float64"},
		{"miss", "float64"},
		{"size", "float64"},
		{"MaxSize", "float64"},
		{"hitCPUEff", "float64"},
		{"missCPUEff", "float64"},
		{"upperCPUEff", "float64"},
		{"lowerCPUEff", "float64"},
		{"numReq", "int64"},
		{"numRedirected", "int64"},
		{"numAdded", "int64"},
		{"numDeleted", "int64"},
		{"numLocal", "int64"},
		{"numRemote", "int64"},
		{"dataWritten", "float64"},
		{"dataRead", "float64"},
		{"dataDeleted", "float64"},
		{"dataReadOnHit", "float64"},
		{"dataReadOnMiss", "float64"},
		{"dailyfreeSpace", "[]float64"},
		{"sumDailyFreeSpace", "float64"},
		{"highWatermark", "float64"},
		{"lowWatermark", "float64"},
		{"numDailyHit", "int64"},
		{"numDailyMiss", "int64"},
		{"prevTime", "time.Time"},
		{"curTime", "time.Time"},
		{"region", "string"},
		{"bandwidth", "float64"},
		{"redirectSize", "float64"},
		{"tick", "int64"},
		{"logFile", "*cache.OutputCSV"},
		{"logBuffer", "chan []string"},
		{"logClose", "chan bool"},
		{"maxNumDayDiff", "float64"},
		{"deltaDaysStep", "float64"},
		{"logger", "*zap.Logger"},
	},
	"cache.SimulationParams": {
		{"LoadDump", "bool"},
		{"Dump", "bool"},
		{"DumpFilesAndStats", "bool"},
		{"ColdStart", "bool"},
		{"ColdStartNoStats", "bool"},
		{"DataPath", "string"},
		{"OutFile", "string"},
		{"BaseName", "string"},
		{"ResultRunStatsName", "string"},
		{"DumpFilename", "string"},
		{"LoadDumpFileName", "string"},
		{"DumpFileName", "string"},
		{"AIRLEpsilonStart", "float64"},
		{"AIRLEpsilonDecay", "float64"},
		{"CPUprofile", "string"},
		{"MEMprofile", "string"},
		{"WindowSize", "int"},
		{"WindowStart", "int"},
		{"WindowStop", "int"},
		{"OutputUpdateDelay", "float64"},
		{"RecordFilter", "cache.Filter"},
		{"DataTypeFilter", "cache.Filter"},
	},
	"cache.SimulationStats": {
		{"TimeElapsed", "string"},
		{"Extra", "string"},
		{"TotNumRecords", "int64"},
		{"TotJumpedRecords", "int64"},
		{"TotInvalidRecords", "int64"},
		{"TotFilteredRecords", "int64"},
		{"TotRedirectedRecords", "int64"},
		{"SizeRedirectedRecords", "float64"},
		{"AvgSpeed", "string"},
	},
	"cache.SuccessJob":                        {},
	"cache.UsDataMcTypes":                     {},
	"cache.UsMINIAODNOFNALLPCNOT1FNALLFilter": {},
	"cache.UsMINIAODNOT1andT3":                {},
	"cache.UsMINIAODandNOFNALLPCFilter":       {},
	"cache.WeightFun": {
		{"SimpleCache", "cache.SimpleCache"},
		{"weightFunction", "functions.WeightFun"},
		{"fParams", "cache.WeightFunctionParameters"},
	},
	"cache.WeightFunctionParameters": {
		{"Alpha", "float64"},
		{"Beta", "float64"},
		{"Gamma", "float64"},
	},
	"featuremap.FeatureManager": {
		{"Features", "[]featuremap.Obj"},
		{"FileFeatures", "[]featuremap.Obj"},
		{"FeatureIdxMap", "map[string]int"},
		{"FileFeatureIdxMap", "map[string]int"},
		{"FeatureIdxWeights", "[]int"},
		{"FileFeatureIdxWeights", "[]int"},
		{"logger", "*zap.Logger"},
	},
	"featuremap.Obj": {
		{"Name", "string"},
		{"Type", "string"},
		{"ReflectType", "reflect.Kind"},
		{"StringValues", "[]string"},
		{"BoolValues", "[]bool"},
		{"Int64Values", "[]int64"},
		{"Float64Values", "[]float64"},
		{"Buckets", "bool"},
		{"BucketOpenRight", "bool"},
		{"FileFeature", "bool"},
	},
	"featuremap.ObjVal": {
		{"Idx", "int"},
		{"Val", "interface{}"},
	},
	"neuralnet.AIModel": {
		{"Name", "string"},
		{"Layers", "[]neuralnet.ModelLayer"},
	},
	"neuralnet.LayerBias": {
		{"Shape", "[]int"},
		{"Values", "[]float64"},
		{"Tensor", "*mat.Dense"},
	},
	"neuralnet.LayerWeights": {
		{"Shape", "[]int"},
		{"Values", "[][]float64"},
		{"Tensor", "*mat.Dense"},
	},
	"neuralnet.ModelLayer": {
		{"Name", "string"},
		{"Weights", "neuralnet.LayerWeights"},
		{"Bias", "neuralnet.LayerBias"},
		{"ActivationFunction", "string"},
	},
	"qlearn.Agent": {
		{"Memory", "map[interface{}][]qlearn.Choice"},
		{"QTable", "qlearn.QTable"},
		{"NumStates", "int"},
		{"NumVars", "int"},
		{"LearningRate", "float64"},
		{"DiscountFactor", "float64"},
		{"DecayRateEpsilon", "float64"},
		{"Epsilon", "float64"},
		{"MaxEpsilon", "float64"},
		{"MinEpsilon", "float64"},
		{"StepNum", "int64"},
		{"RGenerator", "*rand.Rand"},
		{"UpdateAlgorithm", "qlearn.RLUpdateAlg"},
		{"QValue", "float64"},
		{"allowEpsilonUnleash", "bool"},
		{"logger", "*zap.Logger"},
	},
	"qlearn.Choice": {
		{"State", "int"},
		{"Action", "qlearn.ActionType"},
		{"Tick", "int64"},
		{"DeltaT", "int64"},
		{"Capacity", "float64"},
		{"Hit", "bool"},
		{"Size", "float64"},
		{"Frequency", "int64"},
	},
	"qlearn.QTable": {
		{"States", "[][]int"},
		{"Actions", "[][]float64"},
		{"FeatureManager", "*featuremap.FeatureManager"},
		{"ActionTypeIdxs", "map[qlearn.ActionType]int"},
		{"ActionTypes", "[]qlearn.ActionType"},
		{"IndexWeights", "[]int"},
		{"logger", "*zap.Logger"},
		{"RandomGenerator", "*rand.Rand"},
	},
	"files.Manager": {
		{"Data", "map[int64]*files.Stats"},
		{"deletedFileMiss", "map[int64]int"},
		{"deletedFilesMissLastCount", "int"},
		{"weightSum", "float64"},
		{"calcWeight", "bool"},
		{"firstUpdateTime", "time.Time"},
		{"lastUpdateTime", "time.Time"},
		{"maxNumDayDiff", "float64"},
		{"deltaDaysStep", "float64"},
		{"logger", "*zap.Logger"},
	},
	"files.Stats": {
		{"Filename", "int64"},
		{"FileType", "int64"},
		{"DataType", "int64"},
		{"Weight", "float64"},
		{"Size", "float64"},
		{"Frequency", "int64"},
		{"FrequencyInCache", "int64"},
		{"Recency", "int64"},
		{"NHits", "int64"},
		{"NMiss", "int64"},
		{"StatInsertTime", "time.Time"},
		{"StatLastUpdateTime", "time.Time"},
		{"RequestedTimesMean", "float64"},
		{"RequestedTimes", "[]time.Time"},
		{"DeltaLastRequest", "int64"},
		{"idxLastRequest", "int"},
	},
	"queue.LFU": {
		{"files", "map[int64]*files.Stats"},
		{"lastVal", "map[int64]int64"},
		{"lastIndex", "map[int64]int"},
		{"orderedValues", "[]int64"},
		{"queue", "map[int64][]int64"},
		{"buffer", "[]*files.Stats"},
	},
	"queue.LRU": {
		{"files", "map[int64]*files.Stats"},
		{"lastIndex", "map[int64]int"},
		{"queue", "[]int64"},
		{"buffer", "[]*files.Stats"},
	},
	"queue.QueueBaseFloat": {
		{"files", "map[int64]*files.Stats"},
		{"lastVal", "map[int64]float64"},
		{"lastIndex", "map[int64]int"},
		{"orderedValues", "[]float64"},
		{"queue", "map[float64][]int64"},
		{"buffer", "[]*files.Stats"},
		{"getFeature", "func(file *files.Stats) float64"},
		{"getInsertIdx", "func(orderedValues []float64, oVal float64) int"},
		{"getIndex2Remove", "func(orderedValues []float64, alue2remove float64) int"},
	},
	"queue.QueueNone": {
		{"files", "map[int64]*files.Stats"},
		{"buffer", "[]*files.Stats"},
	},
	"queue.SizeBig": {
		{"QueueBaseFloat", "queue.QueueBaseFloat"},
	},
	"queue.SizeSmall": {
		{"QueueBaseFloat", "queue.QueueBaseFloat"},
	},
	"queue.Weighted": {
		{"QueueBaseFloat", "queue.QueueBaseFloat"},
	},
}

// refFuncs are the functions (signature, names they use) the rules know.
var refFuncs = map[string][2]string{
	"cache.AINN.Dumps":                                    {"cache.AINN,bool->([][]byte)", "\"Dump cache files\" \"Dump cache stats\" \"FILES\" \"STATS\" \"\\n\" .Data .Filename .Info .SimpleCache .Type .files .logger .stats GetFromWorst Info Marshal"},
	"cache.AINN.Init":                                     {"cache.AINN,cache.InitParameters->(interface{})", "\"\" \"avgTime\" \"campain\" \"dataType\" \"fileType\" \"numReq\" \"process\" \"siteName\" \"size\" \"userID\" .AIFeatureMap .AIModel .QueueType .SimpleCache .aiFeatureMap .aiFeatureOrder .aiFeatureSelection .aiModel Init LoadModel Parse"},
	"cache.AINN.Loads":                                    {"cache.AINN,[][]byte,[]interface{}->()", ".SimpleCache Loads"},
	"cache.AIRL.AfterRequest":                             {"cache.AIRL,cache.Request,files.Stats,bool,bool->()", "\"%0.2f\" \"%d\" \"ONK\" .Filename .SimpleCache .additionAgentOK .evictionAgentK .evictionAgentOK .evictionAgentStep .evictionCategoryManager .evictionType .logFile .numDailyCategories .rlType .size .sumNumDailyCategories .tick AfterRequest Capacity GetNumCategories Sprintf callEvictionAgent delayedRewardAdditionAgent delayedRewardEvictionAgent toLogBuffer"},
	"cache.AIRL.BeforeRequest":                            {"cache.AIRL,cache.Request,bool->(*files.Stats, bool)", ".DayTime .Epsilon .Filename .MinEpsilon .QValue .SimpleCache .SiteName .Size .UserID .additionAgent .additionAgentBadQValue .additionAgentOK .additionAgentPrevQValue .curTime .evictionAgent .evictionAgentBadQValue .evictionAgentOK .evictionAgentPrevQValue .numReq .prevTime .stats .tick Equal GetOrCreate ResetMemories UnleashEpsilon UpdateStats"},
	"cache.AIRL.CheckWatermark":                           {"cache.AIRL->(bool)", ".SimpleCache .evictionAgentOK .rlType CheckWatermark"},
	"cache.AIRL.Clear":                                    {"cache.AIRL->()", ".SimpleCache Clear clearCategories"},
	"cache.AIRL.ClearFiles":                               {"cache.AIRL->()", ".SimpleCache ClearFiles clearCategories"},
	"cache.AIRL.ClearStats":                               {"cache.AIRL->()", "\"%0.2f\" \"%d\" \"ONDAYEND\" .SimpleCache .actionCounters .evictionAgentNumCalls .evictionAgentNumForcedCalls .evictionAgentOK .evictionType .logFile .numDailyCategories .size .sumNumDailyCategories .tick Capacity ClearStats Sprintf callEvictionAgent toLogBuffer"},
	"cache.AIRL.Dump":                                     {"cache.AIRL,string,bool->()", "\"Dump cache\" \"filename\" .SimpleCache .logger Close Create Dumps Info NewWriter Sprintf String Write"},
	"cache.AIRL.Dumps":                                    {"cache.AIRL,bool->([][]byte)", "\"ADDAGENT\" \"ADDFEATUREMAPMANAGER\" \"Dump cache addition agent\" \"Dump cache eviction agent\" \"Dump cache files\" \"Dump cache into byte string\" \"Dump cache stats\" \"EVCAGENT\" \"EVCFEATUREMAPMANAGER\" \"FILES\" \"STATS\" \"\\n\" .Data .Filename .Info .SimpleCache .Type .additionAgent .additionAgentOK .additionFeatureManager .evictionAgent .evictionAgentOK .evictionFeatureManager .files .logger .stats GetFromWorst Info Marshal"},
	"cache.AIRL.ExtraOutput":                              {"cache.AIRL,string->(string)", "\"\" \"%0.2f,%0.2f\" \"%0.6f,%0.6f\" \"%d,%0.2f\" \"%d,%d\" \"%d,%d,%d,%d,%d,%d,%d\" \"NONE\" \"No Addition Table...\" \"No Eviction Table...\" \"actionStats\" \"additionQTable\" \"additionQTable.csv\" \"epsilonStats\" \"evictionCategoryStats\" \"evictionQTable\" \"evictionQTable.csv\" \"evictionStats\" \"valueFunctions\" .Epsilon .QValue .SimpleCache .actionCounters .additionAgent .additionAgentOK .evictionAgent .evictionAgentNumCalls .evictionAgentNumForcedCalls .evictionAgentOK .logger Info QTableToString Sprintf meanNumCategories stdDevNumCategories writeQTable"},
	"cache.AIRL.ExtraStats":                               {"cache.AIRL->(string)", ".Epsilon .additionAgent .evictionAgent GetCoverage Sprintf"},
	"cache.AIRL.Free":                                     {"cache.AIRL,float64,bool->(float64)", ".SimpleCache Free"},
	"cache.AIRL.Init":                                     {"cache.AIRL,cache.InitParameters->(interface{})", "\"\" \"Create addition agent\" \"Create eviction agent\" \"Feature maps\" \"NOEVICTION\" \"NONE\" \"NoEviction\" \"None\" \"ONDAYEND\" \"ONFREE\" \"ONK\" \"SCDL\" \"SCDL2\" \"Table creation done\" \"addition map\" \"eviction map\" \"noEviction\" \"noeviction\" \"none\" \"onDayEnd\" \"onFree\" \"onK\" \"on_day_end\" \"on_free\" \"on_k\" \"scdl\" \"scdl2\" .AIRLAdditionEpsilonDecay .AIRLAdditionEpsilonStart .AIRLAdditionEpsilonUnleash .AIRLAdditionFeatureMap .AIRLEvictionEpsilonDecay .AIRLEvictionEpsilonStart .AIRLEvictionEpsilonUnleash .AIRLEvictionFeatureMap .AIRLEvictionK .AIRLType .EvictionAgentType .FeatureIdxWeights .Features .FileFeatureIdxMap .FileFeatureIdxWeights .FileFeatures .QueueType .RandSeed .SimpleCache .actionCounters .additionAgent .additionAgentOK .additionFeatureManager .evictionAgent .evictionAgentK .evictionAgentOK .evictionAgentStep .evictionCategoryManager .evictionCheckNextStateMap .evictionFeatureManager .evictionRO .evictionType .logger .numDailyCategories .rlType Info Init L Parse Sprintf String"},
	"cache.AIRL.Loads":                                    {"cache.AIRL,[][]byte,[]interface{}->()", "\"%+v\" \"ADDAGENT\" \"ADDFEATUREMAPMANAGER\" \"EVCAGENT\" \"EVCFEATUREMAPMANAGER\" \"FILES\" \"Loads cache dump string\" \"STATS\" .Data .Filename .Info .SimpleCache .Size .Type .additionAgent .additionAgentOK .additionFeatureManager .evictionAgent .evictionAgentOK .evictionCategoryManager .evictionFeatureManager .files .logger .size .stats AddOrUpdateCategoryFile GetFileCategory Info Insert ResetParams Sprintf Unmarshal"},
	"cache.AIRL.UpdatePolicy":                             {"cache.AIRL,cache.Request,files.Stats,bool->(bool)", "\"%0.2f\" \"%d\" \"ADD\" \"ADDITION AGENT OK\" \"FORCEDCALL\" \"ONFREE\" \"SKIP\" \"cache\" \"current state\" .Action .ActionTypes .Capacity .DeltaLastRequest .DeltaT .Epsilon .Filename .Frequency .Hit .MaxSize .QTable .SimpleCache .Size .State .Tick .actionCounters .additionAgent .additionAgentOK .evictionAgentOK .evictionCategoryManager .evictionType .files .logFile .logger .rlType .size .tick AddOrUpdateCategoryFile Capacity Debug Free GetBestAction GetFileCategory GetRandomFloat Insert Int SaveMemory SaveMemoryWithNoLimits Size Sprintf Update callEvictionAgent delayedRewardAdditionAgent getState4AdditionAgent punishEvictionAgentOnForcedCall rewardEvictionAfterForcedCall toLogBuffer"},
	"cache.AIRL.callEvictionAgent":                        {"cache.AIRL->(float64, []int64)", "\"%0.2f\" \"%d\" \"DELETE\" \"KEEP\" \"NotDelete\" .Action .Capacity .Category .DeltaLastRequest .DeltaT .File .Filename .Files .Frequency .Idx .MaxSize .SimpleCache .Size .State .Tick .actionCounters .dataDeleted .evictionAgent .evictionAgentNumCalls .evictionCategoryManager .files .logFile .numDeleted .size .stats .tick AddDeletedFileMiss Capacity ClearDeletedFileMiss Get GetStateFromCategories HitRate Remove SaveMemoryWithNoLimits Sort Sprintf deleteFileFromCategory toLogBuffer"},
	"cache.AIRL.checkEvictionNextState":                   {"cache.AIRL,int,int->(bool)", "\"catDeltaLastRequest\" \"catNumReq\" \"catSize\" .FeatureIdxMap .QTable .States .evictionAgent .evictionCheckNextStateMap .evictionFeatureManager PutUint32"},
	"cache.AIRL.clearCategories":                          {"cache.AIRL->()", ".FeatureIdxWeights .Features .FileFeatureIdxMap .FileFeatureIdxWeights .FileFeatures .evictionAgentOK .evictionCategoryManager .evictionFeatureManager Init"},
	"cache.AIRL.delayedRewardAdditionAgent":               {"cache.AIRL,int64,bool->()", ".Action .Hit .Memory .SimpleCache .Size .State .additionAgent .bandwidth .dataRead .dataReadOnHit .dataReadOnMiss .dataWritten .rlType Remember UpdateEpsilon UpdateTable"},
	"cache.AIRL.delayedRewardEvictionAgent":               {"cache.AIRL,int64,bool->()", ".Action .Capacity .Idx .MaxSize .Memory .SimpleCache .State .evictionAgent .evictionCategoryManager Capacity GetStateFromCategories HitRate UpdateEpsilon UpdateTable checkEvictionNextState"},
	"cache.AIRL.getState4AdditionAgent":                   {"cache.AIRL,bool,files.Stats->(int)", "\"deltaLastRequest\" \"hit\" \"hitRate\" \"numReq\" \"percOcc\" \"size\" .DeltaLastRequest .Features .Frequency .Name .QTable .SimpleCache .Size .additionAgent .additionFeatureManager .bufferIdxVector Capacity FeatureIdxs2StateIdx HitRate Index"},
	"cache.AIRL.meanNumCategories":                        {"cache.AIRL->(int)", ".numDailyCategories .sumNumDailyCategories"},
	"cache.AIRL.punishEvictionAgentOnForcedCall":          {"cache.AIRL->()", "\"NotDelete\" .Action .Idx .MaxSize .Memory .SimpleCache .State .evictionAgent .evictionAgentNumForcedCalls .evictionCategoryManager .evictionRO Capacity GetStateFromCategories HitRate UpdateEpsilon UpdateTable checkEvictionNextState"},
	"cache.AIRL.rewardEvictionAfterForcedCall":            {"cache.AIRL,bool->()", ".Action .Idx .MaxSize .SimpleCache .evictionAgent .evictionCategoryManager .evictionRO Capacity GetStateFromCategories HitRate UpdateEpsilon UpdateTable"},
	"cache.AIRL.stdDevNumCategories":                      {"cache.AIRL->(float64)", ".numDailyCategories Sqrt meanNumCategories"},
	"cache.CategoryManager.AddOrUpdateCategoryFile":       {"cache.CategoryManager,int,files.Stats->()", ".Filename .filesCategoryMap deleteFileFromCategory insertFileInCategory"},
	"cache.CategoryManager.GetStateFromCategories":        {"cache.CategoryManager,bool,qlearn.Agent,float64,float64,float64->(chan cache.CatState)", "\"catDeltaLastRequest\" \"catNumReq\" \"catPercOcc\" \"catSize\" \"hitRate\" \"percOcc\" .Action .ActionTypes .Category .Epsilon .Files .Idx .Name .QTable .buffer .categoryFileFeatureIdx .categoryFileListMap .categorySizesMap .features .fileFeatureIdxMap .generatorChan .lastStateAction FeatureIdxs2StateIdx GetBestAction GetRandomFloat GetStateFromCategories$1 Index Ints sortedCategories"},
	"cache.CategoryManager.Init":                          {"cache.CategoryManager,[]featuremap.Obj,[]int,[]featuremap.Obj,[]int,map[string]int->()", ".buffer .categoryFileFeatureIdx .categoryFileListMap .categorySizesMap .categoryStatesMap .featureIdxWeights .features .fileFeatureIdxMap .fileFeatureIdxWeights .fileFeatures .fileSupportDataSizeMap .filesCategoryMap .lastStateAction"},
	"cache.CategoryManager.deleteFileFromCategory":        {"cache.CategoryManager,int,files.Stats->()", ".Filename .categoryFileFeatureIdx .categoryFileListMap .categorySizesMap .fileSupportDataSizeMap .filesCategoryMap"},
	"cache.CategoryManager.insertFileInCategory":          {"cache.CategoryManager,int,files.Stats->()", ".Filename .Size .categoryFileListMap .categorySizesMap .fileSupportDataSizeMap .filesCategoryMap"},
	"cache.CategoryManager.sortedCategories":              {"cache.CategoryManager->([]int)", ".categoryFileListMap Ints"},
	"cache.InfiniteCache.BeforeRequest":                   {"cache.InfiniteCache,cache.Request,bool->(*files.Stats, bool)", ".DayTime .Filename .SimpleCache .SiteName .Size .UserID .numReq .stats .tick GetOrCreate UpdateStats"},
	"cache.InfiniteCache.Init":                            {"cache.InfiniteCache,cache.InitParameters->(interface{})", ".QueueType .SimpleCache Init"},
	"cache.InfiniteCache.UpdatePolicy":                    {"cache.InfiniteCache,cache.Request,files.Stats,bool->(added bool)", "\"%0.2f\" \"%d\" \"ADD\" .DeltaLastRequest .Filename .Frequency .MaxSize .SimpleCache .Size .files .logFile .size .tick Capacity Insert Sprintf toLogBuffer"},
	"cache.LRUDatasetVerifier.Init":                       {"cache.LRUDatasetVerifier,cache.InitParameters->(interface{})", "\"Cannot open file '%s'\\n\" .Dataset2TestPath .QueueType .SelectedFiles .SimpleCache .datasetFileMap Decode Fatalf Init NewDecoder NewReader Open"},
	"cache.LRUDatasetVerifier.UpdatePolicy":               {"cache.LRUDatasetVerifier,cache.Request,files.Stats,bool->(bool)", "\"%0.2f\" \"%d\" \"ADD\" .DeltaLastRequest .Filename .Frequency .MaxSize .SimpleCache .Size .datasetFileMap .files .logFile .size .tick Capacity Free Insert Size Sprintf Update toLogBuffer"},
	"cache.OutputCSV.Create":                              {"cache.OutputCSV,string,bool->()", "\".gz\" .compressedWriter .csvWriter .file .filename Create NewWriter"},
	"cache.RandomCache.Init":                              {"cache.RandomCache,cache.InitParameters->(interface{})", ".RandSeed .SimpleCache .randomGenerator Init New NewSource"},
	"cache.RandomCache.UpdatePolicy":                      {"cache.RandomCache,cache.Request,files.Stats,bool->(bool)", "\"%0.2f\" \"%d\" \"ADD\" .DeltaLastRequest .Filename .Frequency .MaxSize .SimpleCache .Size .files .logFile .randomGenerator .size .tick Capacity Float32 Free Insert Size Sprintf Update toLogBuffer"},
	"cache.SimpleCache.AfterRequest":                      {"cache.SimpleCache,cache.Request,files.Stats,bool,bool->()", ".CPUEff .MaxSize .Protocol .Size .dailyfreeSpace .dataRead .dataReadOnHit .dataReadOnMiss .dataWritten .files .hit .hitCPUEff .lowerCPUEff .miss .missCPUEff .numAdded .numDailyHit .numDailyMiss .numLocal .numRemote .size .stats .sumDailyFreeSpace .tick .upperCPUEff CPUEffBoundDiff Dirty Purge"},
	"cache.SimpleCache.AvgFreeSpace":                      {"cache.SimpleCache->(float64)", ".dailyfreeSpace .sumDailyFreeSpace"},
	"cache.SimpleCache.Bandwidth":                         {"cache.SimpleCache->(float64)", ".bandwidth"},
	"cache.SimpleCache.BandwidthUsage":                    {"cache.SimpleCache->(float64)", ".bandwidth .dataReadOnMiss"},
	"cache.SimpleCache.BeforeRequest":                     {"cache.SimpleCache,cache.Request,bool->(*files.Stats, bool)", ".DayTime .Filename .SiteName .Size .UserID .numReq .stats .tick GetOrCreate UpdateStats"},
	"cache.SimpleCache.CPUEff":                            {"cache.SimpleCache->(float64)", ".hitCPUEff .missCPUEff .numDailyHit .numDailyMiss"},
	"cache.SimpleCache.CPUEffBoundDiff":                   {"cache.SimpleCache->(float64)", "\"it\" \"us\" .region CPUEffLowerBound CPUEffUpperBound IsNaN"},
	"cache.SimpleCache.CPUEffLowerBound":                  {"cache.SimpleCache->(float64)", ".lowerCPUEff .numRemote"},
	"cache.SimpleCache.CPUEffUpperBound":                  {"cache.SimpleCache->(float64)", ".numLocal .upperCPUEff"},
	"cache.SimpleCache.CPUHitEff":                         {"cache.SimpleCache->(float64)", ".hitCPUEff .numDailyHit"},
	"cache.SimpleCache.CPUMissEff":                        {"cache.SimpleCache->(float64)", ".missCPUEff .numDailyMiss"},
	"cache.SimpleCache.Capacity":                          {"cache.SimpleCache->(float64)", ".MaxSize Size"},
	"cache.SimpleCache.Check":                             {"cache.SimpleCache,int64->(bool)", "\"%0.2f\" \"%d\" \"HIT\" \"MISS\" .files .logFile .size .stats .tick Capacity Check IncDeletedFileMiss Sprintf toLogBuffer"},
	"cache.SimpleCache.CheckRedirect":                     {"cache.SimpleCache,int64,float64->(bool)", "\"%0.2f\" \"%d\" \"REDIRECT\" .canRedirect .logFile .numRedirected .redirectSize .size .tick BandwidthUsage Capacity Sprintf toLogBuffer"},
	"cache.SimpleCache.CheckWatermark":                    {"cache.SimpleCache->(bool)", ".highWatermark .lowWatermark .useWatermarks Capacity Free"},
	"cache.SimpleCache.Clear":                             {"cache.SimpleCache->()", ".calcWeight .deltaDaysStep .maxNumDayDiff .stats .tick ClearFiles ClearStats Init"},
	"cache.SimpleCache.ClearFiles":                        {"cache.SimpleCache->()", ".files .size .stats Clear Init"},
	"cache.SimpleCache.ClearStats":                        {"cache.SimpleCache->()", ".dailyfreeSpace .dataDeleted .dataRead .dataReadOnHit .dataReadOnMiss .dataWritten .hit .hitCPUEff .lowerCPUEff .miss .missCPUEff .numAdded .numDailyHit .numDailyMiss .numDeleted .numLocal .numRedirected .numRemote .numReq .redirectSize .sumDailyFreeSpace .upperCPUEff"},
	"cache.SimpleCache.DataDeleted":                       {"cache.SimpleCache->(float64)", ".dataDeleted"},
	"cache.SimpleCache.DataRead":                          {"cache.SimpleCache->(float64)", ".dataRead"},
	"cache.SimpleCache.DataReadOnHit":                     {"cache.SimpleCache->(float64)", ".dataReadOnHit"},
	"cache.SimpleCache.DataReadOnMiss":                    {"cache.SimpleCache->(float64)", ".dataReadOnMiss"},
	"cache.SimpleCache.DataWritten":                       {"cache.SimpleCache->(float64)", ".dataWritten"},
	"cache.SimpleCache.Dump":                              {"cache.SimpleCache,string,bool->()", "\"Dump cache\" \"filename\" .logger Close Create Dumps Info NewWriter Sprintf String Write"},
	"cache.SimpleCache.Dumps":                             {"cache.SimpleCache,bool->([][]byte)", "\"Dump cache files\" \"Dump cache into byte string\" \"Dump cache stats\" \"FILES\" \"STATS\" \"\\n\" .Data .Filename .Info .Type .files .logger .stats GetFromWorst Info Marshal"},
	"cache.SimpleCache.ExtraOutput":                       {"cache.SimpleCache,string->(string)", "\"NONE\""},
	"cache.SimpleCache.ExtraStats":                        {"cache.SimpleCache->(string)", "\"NONE\""},
	"cache.SimpleCache.Free":                              {"cache.SimpleCache,float64,bool->(float64)", "\"%0.2f\" \"%d\" \"DELETE\" \"FREE\" \"cacheSize\" \"delete\" \"fileSize\" \"filename\" \"frequency\" \"recency\" .DeltaLastRequest .Filename .Frequency .MaxSize .Recency .Size .dataDeleted .files .logFile .logger .numDeleted .size .stats .tick AddDeletedFileMiss Capacity ClearDeletedFileMiss Debug Float64 Get GetWorstFilesUp2Size Int64 RemoveWorst Size Sprintf toLogBuffer"},
	"cache.SimpleCache.GetMaxSize":                        {"cache.SimpleCache->(float64)", ".MaxSize"},
	"cache.SimpleCache.GetTotDeletedFileMiss":             {"cache.SimpleCache->(int)", ".stats GetTotDeletedFileMiss"},
	"cache.SimpleCache.HitRate":                           {"cache.SimpleCache->(float64)", ".hit .miss IsNaN"},
	"cache.SimpleCache.Init":                              {"cache.SimpleCache,cache.InitParameters->(interface{})", "\"EXIT\" \"simulationLogFile.csv\" \"type %d not implemented...\" .CalcWeight .DeltaDaysStep .HighWatermark .Log .LowWatermark .MaxNumDayDiff .QueueType .RedirectReq .Watermarks .calcWeight .canRedirect .dailyfreeSpace .deltaDaysStep .files .highWatermark .logBuffer .logClose .logFile .logSimulation .logger .lowWatermark .maxNumDayDiff .ordType .stats .useWatermarks Close Create Errorf Init Init$1 L Sprintf Write"},
	"cache.SimpleCache.Load":                              {"cache.SimpleCache,string->([][]byte)", "\"Error dump file opening: %s\" \"Load cache Dump\" \"\\n\" \"filename\" .logger Close Info NewReader Open Read Sprintf String"},
	"cache.SimpleCache.Loads":                             {"cache.SimpleCache,[][]byte,[]interface{}->()", "\"FILES\" \"Load cache dump string\" \"STATS\" .Data .Filename .Info .Size .Type .files .logger .size .stats Info Insert Unmarshal"},
	"cache.SimpleCache.NumAdded":                          {"cache.SimpleCache->(int64)", ".numAdded"},
	"cache.SimpleCache.NumDeleted":                        {"cache.SimpleCache->(int64)", ".numDeleted"},
	"cache.SimpleCache.NumFiles":                          {"cache.SimpleCache->(int)", ".files Len"},
	"cache.SimpleCache.NumHits":                           {"cache.SimpleCache->(int64)", ".hit"},
	"cache.SimpleCache.NumRedirected":                     {"cache.SimpleCache->(int64)", ".numRedirected"},
	"cache.SimpleCache.NumRequests":                       {"cache.SimpleCache->(int64)", ".numReq"},
	"cache.SimpleCache.RedirectedSize":                    {"cache.SimpleCache->(float64)", ".redirectSize"},
	"cache.SimpleCache.SetBandwidth":                      {"cache.SimpleCache,float64->()", ".bandwidth"},
	"cache.SimpleCache.SetRegion":                         {"cache.SimpleCache,string->()", ".region"},
	"cache.SimpleCache.Size":                              {"cache.SimpleCache->(float64)", ".size"},
	"cache.SimpleCache.StdDevFreeSpace":                   {"cache.SimpleCache->(float64)", ".dailyfreeSpace AvgFreeSpace Sqrt"},
	"cache.SimpleCache.Terminate":                         {"cache.SimpleCache->(error)", ".logFile flushAndCloseLog"},
	"cache.SimpleCache.UpdatePolicy":                      {"cache.SimpleCache,cache.Request,files.Stats,bool->(bool)", "\"%0.2f\" \"%d\" \"ADD\" .DeltaLastRequest .Filename .Frequency .MaxSize .Size .files .logFile .size .tick Capacity Free Insert Size Sprintf Update toLogBuffer"},
	"cache.SimpleCache.WeightedHitRate":                   {"cache.SimpleCache->(float64)", ".dataReadOnHit HitRate"},
	"cache.SimpleCache.flushAndCloseLog":                  {"cache.SimpleCache->()", "\"EXIT\" .logBuffer .logClose"},
	"cache.SimpleCache.toLogBuffer":                       {"cache.SimpleCache,[]string->()", ".logBuffer"},
	"cache.WeightFun.BeforeRequest":                       {"cache.WeightFun,cache.Request,bool->(*files.Stats, bool)", ".Alpha .Beta .DayTime .Filename .Gamma .SimpleCache .SiteName .Size .UserID .fParams .numReq .stats .tick .weightFunction GetOrCreate UpdateStats UpdateWeight"},
	"cache.WeightFun.Dumps":                               {"cache.WeightFun,bool->([][]byte)", "\"Dump cache files\" \"Dump cache into byte string\" \"Dump cache stats\" \"FILES\" \"STATS\" \"\\n\" .Data .Filename .Info .SimpleCache .Type .files .logger .stats GetFromWorst Info Marshal"},
	"cache.WeightFun.ExtraStats":                          {"cache.WeightFun->(string)", ".Alpha .Beta .Gamma .SimpleCache .fParams .stats GetWeightMedian Sprintf"},
	"cache.WeightFun.Init":                                {"cache.WeightFun,cache.InitParameters->(interface{})", ".Alpha .Beta .Gamma .SimpleCache .WfParams .WfType .fParams .weightFunction Exit Init Println"},
	"cache.WeightFun.Loads":                               {"cache.WeightFun,[][]byte,[]interface{}->()", "\"FILES\" \"Load cache dump string\" \"STATS\" .Data .Filename .Info .SimpleCache .Size .Type .files .logger .size .stats Info Insert Load Unmarshal"},
	"cache.WeightFun.UpdatePolicy":                        {"cache.WeightFun,cache.Request,files.Stats,bool->(bool)", "\"%0.2f\" \"%d\" \"ADD\" .DeltaLastRequest .Filename .Frequency .MaxSize .SimpleCache .Size .Weight .files .logFile .size .stats .tick Capacity Free GetWeightMedian Insert Size Sprintf Update toLogBuffer"},
	"featuremap.FeatureManager.Populate":                  {"featuremap.FeatureManager,string->()", "\".gz\" \".gzip\" \".json\" \"Cannot open file\" \"Cannot unmarshal\" \"ERROR: decoding features\" \"Error: deconding features\" \"Feature entries\" \"Not a valid feature JSON\" \"bool\" \"bucket of %s is not a slice\" \"buckets\" \"error\" \"extension\" \"fileFeature\" \"filename\" \"float\" \"int\" \"openRight\" \"string\" \"type\" \"values\" .BoolValues .BucketOpenRight .Buckets .FeatureIdxMap .Features .FileFeature .FileFeatureIdxMap .FileFeatures .Float64Values .Int64Values .Name .ReflectType .StringValues .Type .logger Bool Close Decode Elem Error Exit Ext Interface Key Kind MapIndex MapKeys MapRange NewDecoder NewReader Next Open Populate$1 Slice Sprintf String TypeOf Value ValueOf makeFeatureIdxWeights makeFileFeatureIdxWeights"},
	"featuremap.FeatureManager.makeFeatureIdxWeights":     {"featuremap.FeatureManager->()", ".FeatureIdxWeights .Features Size"},
	"featuremap.FeatureManager.makeFileFeatureIdxWeights": {"featuremap.FeatureManager->()", ".FileFeatureIdxWeights .FileFeatures Size"},
	"qlearn.Agent.DeleteMemory":                           {"qlearn.Agent,interface{}->()", ".Memory"},
	"qlearn.Agent.GetMemories":                            {"qlearn.Agent,interface{}->([]qlearn.Choice)", ".Memory"},
	"qlearn.Agent.Init":                                   {"qlearn.Agent,featuremap.FeatureManager,qlearn.AgentRole,float64,float64,bool,int64->()", "\"Agent\" \"numStates\" \"numVars\" .Actions .DecayRateEpsilon .DiscountFactor .Epsilon .LearningRate .MaxEpsilon .Memory .MinEpsilon .NumStates .NumVars .QTable .RGenerator .RandomGenerator .States .UpdateAlgorithm .allowEpsilonUnleash .logger Info Init Int L"},
	"qlearn.Agent.Remember":                               {"qlearn.Agent,interface{}->([]qlearn.Choice, bool)", ".Memory"},
	"qlearn.Agent.ResetMemories":                          {"qlearn.Agent->()", ".Memory"},
	"qlearn.Agent.ResetParams":                            {"qlearn.Agent,float64,float64->()", ".DecayRateEpsilon .DiscountFactor .Epsilon .LearningRate .MaxEpsilon .MinEpsilon .QValue .StepNum .logger Info L"},
	"qlearn.Agent.ResetQValue":                            {"qlearn.Agent->()", ".QValue"},
	"qlearn.Agent.ResetTableAction":                       {"qlearn.Agent->()", ".QTable ResetActions"},
	"qlearn.Agent.SaveMemory":                             {"qlearn.Agent,interface{},qlearn.Choice->()", ".Memory"},
	"qlearn.Agent.SaveMemoryWithNoLimits":                 {"qlearn.Agent,interface{},qlearn.Choice->()", ".Memory"},
	"qlearn.Agent.UnleashEpsilon":                         {"qlearn.Agent,interface{}->()", ".Epsilon .StepNum .allowEpsilonUnleash UpdateEpsilon"},
	"qlearn.Agent.UpdateEpsilon":                          {"qlearn.Agent->()", ".DecayRateEpsilon .Epsilon .MaxEpsilon .MinEpsilon .StepNum Exp"},
	"qlearn.Agent.UpdateTable":                            {"qlearn.Agent,int,int,qlearn.ActionType,float64->()", "\"ERROR: not implemented...\" .ActionTypeIdxs .Actions .DiscountFactor .LearningRate .QTable .QValue .UpdateAlgorithm GetActionValue GetBestActionValue Sprintf"},
	"qlearn.Agent.getArgMax":                              {"qlearn.Agent,[]float64->(int, float64)", ".RGenerator Intn"},
	"qlearn.QTable.Init":                                  {"qlearn.QTable,featuremap.FeatureManager,[]qlearn.ActionType,int64->()", ".ActionTypeIdxs .ActionTypes .Actions .FeatureIdxWeights .FeatureManager .Features .IndexWeights .RandomGenerator .States .logger L New NewSource Size"},
	"qlearn.QTable.ResetActions":                          {"qlearn.QTable->()", ".Actions"},
	"files.Manager.AddDeletedFileMiss":                    {"files.Manager,int64->()", ".deletedFileMiss"},
	"files.Manager.Clear":                                 {"files.Manager->()", ".Data .Recency .Weight .weightSum"},
	"files.Manager.ClearDeletedFileMiss":                  {"files.Manager->()", ".deletedFileMiss .deletedFilesMissLastCount"},
	"files.Manager.GetOrCreate":                           {"files.Manager,int64,float64,time.Time,int64->(stats *files.Stats, newFile bool)", "\"Updated first time\" .Data .DeltaLastRequest .Filename .Recency .Size .StatInsertTime .firstUpdateTime .lastUpdateTime .logger Info IsZero"},
	"files.Manager.GetTotDeletedFileMiss":                 {"files.Manager->(int)", ".deletedFileMiss .deletedFilesMissLastCount"},
	"files.Manager.GetWeightMedian":                       {"files.Manager->(float64)", ".Data .weightSum"},
	"files.Manager.IncDeletedFileMiss":                    {"files.Manager,int64->()", ".deletedFileMiss"},
	"files.Manager.Init":                                  {"files.Manager,float64,float64,bool->()", ".Data .calcWeight .deletedFileMiss .deltaDaysStep .logger .maxNumDayDiff L"},
	"files.Manager.Load":                                  {"files.Manager,int64,files.Stats->()", ".Data .Weight .calcWeight .weightSum"},
	"files.Manager.Purge":                                 {"files.Manager,func(int64) bool->()", "\"NumDeletedFiles\" \"Purge\" \"Stats purged\" \"in cache\" .Data .Weight .calcWeight .firstUpdateTime .lastUpdateTime .logger .maxNumDayDiff .weightSum Bool Debug DiffLastUpdate Int"},
	"files.Manager.UpdateWeight":                          {"files.Manager,files.Stats,bool,functions.WeightFun,float64,float64,float64->()", ".Weight .weightSum updateWeight"},
	"files.Stats.DiffLastUpdate":                          {"files.Stats,time.Time->(float64)", ".StatLastUpdateTime Hours Sub"},
	"files.Stats.UpdateStats":                             {"files.Stats,bool,float64,int64,int64,time.Time->()", ".Frequency .NHits .NMiss .RequestedTimes .Size .StatLastUpdateTime .idxLastRequest"},
	"files.Stats.getMeanReqTimes":                         {"files.Stats->(float64)", ".RequestedTimes .StatLastUpdateTime IsZero Minutes Sub"},
	"files.Stats.updateWeight":                            {"files.Stats,functions.WeightFun,float64,float64,float64->(float64)", ".Frequency .RequestedTimesMean .Size .Weight getMeanReqTimes"},
	"queue.LFU.Check":                                     {"queue.LFU,int64->(bool)", ".files"},
	"queue.LFU.checkOVal":                                 {"queue.LFU,int64->(bool)", ".queue"},
	"queue.LFU.findIndex":                                 {"queue.LFU,int64,[]int64,int->(int)", ".lastIndex"},
	"queue.LFU.getFileStats":                              {"queue.LFU,int64->(*files.Stats)", ".files Errorf Fatal"},
	"queue.LFU.getFromWorst":                              {"queue.LFU->([]*files.Stats)", ".buffer .files .orderedValues .queue Errorf Fatal"},
	"queue.LFU.getQueue":                                  {"queue.LFU->([]*files.Stats)", ".buffer .files .orderedValues .queue Errorf Fatal"},
	"queue.LFU.getWorstFilesUp2Size":                      {"queue.LFU,float64->([]*files.Stats)", ".Size .buffer .files .orderedValues .queue Errorf Fatal"},
	"queue.LFU.init":                                      {"queue.LFU->()", ".buffer .files .lastIndex .lastVal .orderedValues .queue"},
	"queue.LFU.insert":                                    {"queue.LFU,files.Stats->(err error)", ".Filename .Frequency .files .lastIndex .lastVal .queue Check Errorf checkOVal insertOrderedValue"},
	"queue.LFU.insertOrderedValue":                        {"queue.LFU,int64->()", ".orderedValues Search"},
	"queue.LFU.len":                                       {"queue.LFU->(int)", ".files"},
	"queue.LFU.remove":                                    {"queue.LFU,[]int64->(err error)", ".files .lastIndex .lastVal .queue Errorf findIndex removeOrderedValue"},
	"queue.LFU.removeOrderedValue":                        {"queue.LFU,int64->(error)", ".orderedValues Errorf Search"},
	"queue.LFU.removeWorst":                               {"queue.LFU,[]int64->(err error)", ".files .lastIndex .lastVal .orderedValues .queue Errorf removeOrderedValue"},
	"queue.LFU.update":                                    {"queue.LFU,files.Stats->(err error)", ".Filename .files Errorf insert remove"},
	"queue.LRU.Check":                                     {"queue.LRU,int64->(bool)", ".files"},
	"queue.LRU.findIndex":                                 {"queue.LRU,int64,int->(int)", ".lastIndex .queue"},
	"queue.LRU.getFileStats":                              {"queue.LRU,int64->(*files.Stats)", ".files Errorf Fatal"},
	"queue.LRU.getFromWorst":                              {"queue.LRU->([]*files.Stats)", ".buffer .files .queue Errorf Fatal"},
	"queue.LRU.getQueue":                                  {"queue.LRU->([]*files.Stats)", ".buffer .files .queue Errorf Fatal"},
	"queue.LRU.getWorstFilesUp2Size":                      {"queue.LRU,float64->([]*files.Stats)", ".Size .buffer .files .queue Errorf Fatal"},
	"queue.LRU.init":                                      {"queue.LRU->()", ".buffer .files .lastIndex .queue"},
	"queue.LRU.insert":                                    {"queue.LRU,files.Stats->(err error)", ".Filename .files .lastIndex .queue Check Errorf"},
	"queue.LRU.len":                                       {"queue.LRU->(int)", ".files .queue"},
	"queue.LRU.remove":                                    {"queue.LRU,[]int64->(err error)", ".files .lastIndex .queue Errorf findIndex"},
	"queue.LRU.removeWorst":                               {"queue.LRU,[]int64->(err error)", ".files .lastIndex .queue Errorf"},
	"queue.LRU.update":                                    {"queue.LRU,files.Stats->(err error)", ".Filename .files .lastIndex .queue Errorf findIndex"},
	"queue.QueueBaseFloat.Check":                          {"queue.QueueBaseFloat,int64->(bool)", ".files"},
	"queue.QueueBaseFloat.checkOVal":                      {"queue.QueueBaseFloat,float64->(bool)", ".queue"},
	"queue.QueueBaseFloat.findIndex":                      {"queue.QueueBaseFloat,int64,[]int64,int->(int)", ".lastIndex"},
	"queue.QueueBaseFloat.getFileStats":                   {"queue.QueueBaseFloat,int64->(*files.Stats)", ".files Errorf Fatal"},
	"queue.QueueBaseFloat.getFromWorst":                   {"queue.QueueBaseFloat->([]*files.Stats)", ".buffer .files .orderedValues .queue Errorf Fatal"},
	"queue.QueueBaseFloat.getQueue":                       {"queue.QueueBaseFloat->([]*files.Stats)", ".buffer .files .orderedValues .queue Errorf Fatal"},
	"queue.QueueBaseFloat.getWorstFilesUp2Size":           {"queue.QueueBaseFloat,float64->([]*files.Stats)", ".Size .buffer .files .orderedValues .queue Errorf Fatal"},
	"queue.QueueBaseFloat.init":                           {"queue.QueueBaseFloat->()", ".buffer .files .lastIndex .lastVal .orderedValues .queue"},
	"queue.QueueBaseFloat.insert":                         {"queue.QueueBaseFloat,files.Stats->(err error)", ".Filename .files .getFeature .lastIndex .lastVal .queue Check Errorf checkOVal insertOrderedValue"},
	"queue.QueueBaseFloat.insertOrderedValue":             {"queue.QueueBaseFloat,float64->()", ".getInsertIdx .orderedValues"},
	"queue.QueueBaseFloat.len":                            {"queue.QueueBaseFloat->(int)", ".files"},
	"queue.QueueBaseFloat.remove":                         {"queue.QueueBaseFloat,[]int64->(err error)", ".files .lastIndex .lastVal .queue Errorf findIndex removeOrderedValue"},
	"queue.QueueBaseFloat.removeOrderedValue":             {"queue.QueueBaseFloat,float64->(error)", ".getIndex2Remove .orderedValues Errorf"},
	"queue.QueueBaseFloat.removeWorst":                    {"queue.QueueBaseFloat,[]int64->(err error)", ".files .lastIndex .lastVal .orderedValues .queue Errorf removeOrderedValue"},
	"queue.QueueBaseFloat.update":                         {"queue.QueueBaseFloat,files.Stats->(err error)", ".Filename .files Errorf insert remove"},
	"queue.QueueNone.Check":                               {"queue.QueueNone,int64->(bool)", ".files"},
	"queue.QueueNone.getFileStats":                        {"queue.QueueNone,int64->(*files.Stats)", ".files Errorf Fatal"},
	"queue.QueueNone.getFromWorst":                        {"queue.QueueNone->([]*files.Stats)", "getQueue"},
	"queue.QueueNone.getQueue":                            {"queue.QueueNone->([]*files.Stats)", ".buffer .files"},
	"queue.QueueNone.getWorstFilesUp2Size":                {"queue.QueueNone,float64->([]*files.Stats)", ".Size .buffer .files"},
	"queue.QueueNone.init":                                {"queue.QueueNone->()", ".buffer .files"},
	"queue.QueueNone.insert":                              {"queue.QueueNone,files.Stats->(err error)", ".Filename .files Check Errorf"},
	"queue.QueueNone.len":                                 {"queue.QueueNone->(int)", ".files"},
	"queue.QueueNone.remove":                              {"queue.QueueNone,[]int64->(err error)", ".files"},
	"queue.QueueNone.removeWorst":                         {"queue.QueueNone,[]int64->(err error)", "remove"},
	"queue.QueueNone.update":                              {"queue.QueueNone,files.Stats->(err error)", ".Filename .files Errorf"},
	"queue.SizeBig.init":                                  {"queue.SizeBig->()", ".QueueBaseFloat .Size .getFeature .getIndex2Remove .getInsertIdx Search init"},
	"queue.SizeSmall.init":                                {"queue.SizeSmall->()", ".QueueBaseFloat .Size .getFeature .getIndex2Remove .getInsertIdx Search init"},
	"queue.Weighted.init":                                 {"queue.Weighted->()", ".QueueBaseFloat .Weight .getFeature .getIndex2Remove .getInsertIdx Search init"},
	"cache.CategoryManager.GetFileCategory":               {"cache.CategoryManager,files.Stats->(int)", "\"catDeltaLastRequest\" \"catNumReq\" \"catSize\" .DeltaLastRequest .Frequency .Name .Size .buffer .categoryFileFeatureIdx .categoryFileListMap .categorySizesMap .features .fileFeatureIdxWeights Index"},
	"cache.CategoryManager.GetNumCategories":              {"cache.CategoryManager->(int)", ".categorySizesMap"},
	"cache.ItDataMcTypes.Check":                           {"cache.ItDataMcTypes,cache.CSVRecord->(bool)", ".DataType"},
	"cache.OutputCSV.Close":                               {"cache.OutputCSV->()", ".compressedWriter .csvWriter .file Close Flush"},
	"cache.OutputCSV.Write":                               {"cache.OutputCSV,[]string->()", ".csvWriter Flush Write"},
	"cache.SuccessJob.Check":                              {"cache.SuccessJob,cache.CSVRecord->(bool)", ".JobExecExitCode .JobSuccess"},
	"cache.UsDataMcTypes.Check":                           {"cache.UsDataMcTypes,cache.CSVRecord->(bool)", ".DataType"},
	"cache.UsMINIAODNOFNALLPCNOT1FNALLFilter.Check":       {"cache.UsMINIAODNOFNALLPCNOT1FNALLFilter,cache.CSVRecord->(bool)", ".FileType .SiteName"},
	"cache.UsMINIAODNOT1andT3.Check":                      {"cache.UsMINIAODNOT1andT3,cache.CSVRecord->(bool)", ".FileType .SiteName"},
	"cache.UsMINIAODandNOFNALLPCFilter.Check":             {"cache.UsMINIAODandNOFNALLPCFilter,cache.CSVRecord->(bool)", ".FileType .SiteName"},
	"featuremap.Obj.Index":                                {"featuremap.Obj,interface{}->(int)", ".BoolValues .Buckets .Float64Values .Int64Values .ReflectType .StringValues"},
	"featuremap.Obj.Size":                                 {"featuremap.Obj->(int)", ".BoolValues .Buckets .Float64Values .Int64Values .ReflectType .StringValues"},
	"featuremap.Obj.ToString":                             {"featuremap.Obj,int->(string)", "\"\" \"%09.2f\" \"%d\" \"%t\" \"max\" .BoolValues .Float64Values .Int64Values .ReflectType .StringValues Sprintf"},
	"featuremap.Obj.Value":                                {"featuremap.Obj,int->(interface{})", ".BoolValues .Buckets .Float64Values .Int64Values .ReflectType .StringValues"},
	"featuremap.Obj.Values":                               {"featuremap.Obj->(chan featuremap.ObjVal)", ".BoolValues .Buckets .Float64Values .Idx .Int64Values .ReflectType .StringValues .Val Size Values$1 Values$2 Values$3 Values$4"},
	"neuralnet.AIModel.Predict":                           {"neuralnet.AIModel,mat.Dense->(*mat.Dense)", "\"hard_sigmoid\" \"sigmoid\" \"softmax\" .ActivationFunction .Bias .Layers .Tensor .Weights Add Apply CloneFrom Mul T hardSigmoid sigmoid softMax"},
	"qlearn.Agent.GetActionValue":                         {"qlearn.Agent,int,qlearn.ActionType->(float64)", ".ActionTypeIdxs .Actions .QTable"},
	"qlearn.Agent.GetBestAction":                          {"qlearn.Agent,int->(qlearn.ActionType)", "\"Get best action\" \"idx max value\" \"type best action\" \"values\" .ActionTypes .Actions .QTable .logger Debug Float64s Int getArgMax"},
	"qlearn.Agent.GetBestActionValue":                     {"qlearn.Agent,int->(float64)", "\"Get best action\" \"idx max value\" \"values\" .Actions .QTable .logger Debug Float64s Int getArgMax"},
	"qlearn.Agent.GetCoverage":                            {"qlearn.Agent->(float64, float64)", ".Actions .NumStates .NumVars .QTable"},
	"qlearn.Agent.GetRandomFloat":                         {"qlearn.Agent->(float64)", ".RGenerator Float64"},
	"qlearn.Agent.QTableToString":                         {"qlearn.Agent->(string)", "\"%09.2f\" \",\" \"ActionDeleteAll\" \"ActionDeleteHalf\" \"ActionDeleteOne\" \"ActionDeleteQuarter\" \"ActionNotDelete\" \"ActionNotStore\" \"ActionStore\" \"\\n\" .ActionTypes .Actions .FeatureManager .Features .Name .QTable .States Join Sprintf ToString"},
	"qlearn.QTable.FeatureIdxs2StateIdx":                  {"qlearn.QTable,[]int->(int)", ".IndexWeights"},
	"qlearn.QTable.Features2Idxs":                         {"qlearn.QTable,[]interface{}->([]int)", ".FeatureManager .Features .ReflectType Index"},
	"files.Manager.Dirty":                                 {"files.Manager->(bool)", "\"Dirty Stats\" \"firstTime\" \"lastTime\" \"numDays\" .deltaDaysStep .firstUpdateTime .lastUpdateTime .logger Debug Float64 Format Hours String Sub"},
	"files.Manager.Get":                                   {"files.Manager,int64->(*files.Stats)", "\"Get: no file found\" \"filename\" .Data .logger Error Int64"},
	"files.SortStatsByRecency.Len":                        {"files.SortStatsByRecency->(int)", ""},
	"files.SortStatsByRecency.Less":                       {"files.SortStatsByRecency,int,int->(bool)", ".Recency"},
	"files.SortStatsByRecency.Swap":                       {"files.SortStatsByRecency,int,int->()", ""},
	"main.configureViper":                                 {"string->()", "\"\" \".\" \"FuncAdditiveExp\" \"INFO\" \"SCDL2\" \"T\" \"all\" \"onK\" \"sim.ai.dataset2TestPath\" \"sim.ai.featuremap\" \"sim.ai.model\" \"sim.ai.rl.epsilon.decay\" \"sim.ai.rl.epsilon.start\" \"sim.ai.rl.epsilon.unleash\" \"sim.ai.rl.eviction.k\" \"sim.ai.rl.eviction.type\" \"sim.ai.rl.type\" \"sim.cache.bandwidth.value\" \"sim.cache.size.unit\" \"sim.cache.size.value\" \"sim.cache.watermark.high\" \"sim.cache.watermark.low\" \"sim.cache.watermarks\" \"sim.coldstart\" \"sim.coldstartnostats\" \"sim.cpuprofile\" \"sim.dump\" \"sim.dumpfilename\" \"sim.dumpfilesandstats\" \"sim.loaddump\" \"sim.loaddumpfilename\" \"sim.log\" \"sim.loglevel\" \"sim.memprofile\" \"sim.outputFolder\" \"sim.outputupdatedelay\" \"sim.overwrite\" \"sim.region\" \"sim.seed\" \"sim.weightfunc.alpha\" \"sim.weightfunc.beta\" \"sim.weightfunc.gamma\" \"sim.weightfunc.name\" \"sim.window.size\" \"sim.window.start\" \"sim.window.stop\" \"yaml\" AddConfigPath SetConfigName SetConfigType SetDefault"},
	"main.initZapLog":                                     {"zapcore.Level->(*zap.Logger)", ".EncodeLevel .EncoderConfig .Level Build NewAtomicLevelAt NewDevelopmentConfig"},
	"main.main":                                           {"->()", "\"Print the version number\" \"version\" .Long .Run .Short .Use AddCommand Error Execute Exit Printf Println simCommand"},
	"main.simCommand":                                     {"->(*cobra.Command)", "\"\" \"%0.0f%s\" \"%0.0fGbit\" \"%0.2f\" \"-\" \"CONF_VAR\" \"Config file ABS path\" \"Config file Directory\" \"Config filename\" \"Current Working Dir\" \"DEBUG\" \"ENABLE DEBUG LOG\" \"ENABLE INFO LOG\" \"Get simulation config file\" \"INFO\" \"Load config file\" \"SCDL2\" \"_\" \"aiFeatureMap\" \"aiModel\" \"aiRL\" \"aiRLAdditionEpsilonDecay\" \"aiRLAdditionEpsilonStart\" \"aiRLAdditionEpsilonUnleash\" \"aiRLAdditionFeatureMap\" \"aiRLEpsilonDecay\" \"aiRLEpsilonStart\" \"aiRLEpsilonUnleash\" \"aiRLEvictionEpsilonDecay\" \"aiRLEvictionEpsilonStart\" \"aiRLEvictionEpsilonUnleash\" \"aiRLEvictionFeatureMap\" \"aiRLEvictionK\" \"aiRLType\" \"cacheSize\" \"cacheSizeUnit\" \"cacheType\" \"cache_dump.json.gz\" \"config file\" \"cpuprofile\" \"dataset2TestPath\" \"debug\" \"deltaDaysStep\" \"file\" \"info\" \"it\" \"logLevel\" \"maxNumDayDiff\" \"memprofile\" \"normal\" \"outputUpdateDelay\" \"path\" \"randSeed\" \"run_full_normal\" \"sim config\" \"sim.ai.dataset2TestPath\" \"sim.ai.featuremap\" \"sim.ai.model\" \"sim.ai.rl.epsilon.decay\" \"sim.ai.rl.epsilon.start\" \"sim.ai.rl.epsilon.unleash\" \"sim.ai.rl.eviction.k\" \"sim.ai.rl.eviction.type\" \"sim.ai.rl.type\" \"sim.cache.bandwidth.value\" \"sim.cache.size.unit\" \"sim.cache.size.value\" \"sim.cache.type\" \"sim.cache.watermark.high\" \"sim.cache.watermark.low\" \"sim.cache.watermarks\" \"sim.coldstart\" \"sim.coldstartnostats\" \"sim.cpuprofile\" \"sim.data\" \"sim.dump\" \"sim.dumpfilename\" \"sim.dumpfilesandstats\" \"sim.filetype\" \"sim.loaddump\" \"sim.loaddumpfilename\" \"sim.log\" \"sim.memprofile\" \"sim.outputFolder\" \"sim.outputupdatedelay\" \"sim.overwrite\" \"sim.region\" \"sim.seed\" \"sim.type\" \"sim.weightfunc.alpha\" \"sim.weightfunc.beta\" \"sim.weightfunc.gamma\" \"sim.weightfunc.name\" \"sim.window.size\" \"sim.window.start\" \"sim.window.stop\" \"simBandwidth\" \"simCacheHighWatermark\" \"simCacheLowWatermark\" \"simCacheWatermarks\" \"simColdStart\" \"simColdStartNoStats\" \"simDataPath\" \"simDump\" \"simDumpFileName\" \"simDumpFilesAndStats\" \"simEvictionType\" \"simFileType\" \"simLoadDump\" \"simLoadDumpFileName\" \"simLog\" \"simOutputFolder\" \"simOverwrite\" \"simRedirectReq\" \"simRegion\" \"simType\" \"simWindowSize\" \"simWindowStart\" \"simWindowStop\" \"simulation_results.csv\" \"simulation_run_stats.json\" \"us\" \"weightAlpha\" \"weightBeta\" \"weightFunLRU\" \"weightFunc\" \"weightGamma\" .AIFeatureMap .AIModel .AIRLAdditionEpsilonDecay .AIRLAdditionEpsilonStart .AIRLAdditionEpsilonUnleash .AIRLAdditionFeatureMap .AIRLEpsilonDecay .AIRLEpsilonStart .AIRLEvictionEpsilonDecay .AIRLEvictionEpsilonStart .AIRLEvictionEpsilonUnleash .AIRLEvictionFeatureMap .AIRLEvictionK .AIRLType .Alpha .Args .BaseName .Beta .CPUprofile .ColdStart .ColdStartNoStats .DataPath .DataTypeFilter .Dataset2TestPath .DeltaDaysStep .Dump .DumpFileName .DumpFilename .DumpFilesAndStats .EvictionAgentType .FunctionTypeString .Gamma .HighWatermark .LoadDump .LoadDumpFileName .Log .Long .LowWatermark .MEMprofile .MaxNumDayDiff .OutFile .OutputUpdateDelay .RandSeed .RecordFilter .RedirectReq .ResultRunStatsName .Run .Short .Use .Watermarks .WfParams .WindowSize .WindowStart .WindowStop Abs Base Bool Chdir Create Dir Ext Float64 GetBool GetFloat64 GetInt GetInt64 GetString Getwd Info InitInstance Int Int64 IsExist IsNotExist Join L MkdirAll New PersistentFlags ReadInConfig ReplaceGlobals SetBandwidth SetRegion Simulate Size Sprintf Stat String StringVar Sync ToUpper TrimSuffix configureViper initZapLog simCommand$2$1 simCommand$2$2"},
	"cache.AfterRequest":                                  {"cache.Cache,cache.Request,files.Stats,bool,bool->()", "AfterRequest"},
	"cache.AvgFreeSpace":                                  {"cache.Cache->(float64)", "AvgFreeSpace"},
	"cache.Bandwidth":                                     {"cache.Cache->(float64)", "Bandwidth"},
	"cache.BandwidthUsage":                                {"cache.Cache->(float64)", "BandwidthUsage"},
	"cache.BeforeRequest":                                 {"cache.Cache,cache.Request,bool->(*files.Stats, bool)", "BeforeRequest"},
	"cache.CPUEff":                                        {"cache.Cache->(float64)", "CPUEff"},
	"cache.CPUEffLowerBound":                              {"cache.Cache->(float64)", "CPUEffLowerBound"},
	"cache.CPUEffUpperBound":                              {"cache.Cache->(float64)", "CPUEffUpperBound"},
	"cache.CPUHitEff":                                     {"cache.Cache->(float64)", "CPUHitEff"},
	"cache.CPUMissEff":                                    {"cache.Cache->(float64)", "CPUMissEff"},
	"cache.Capacity":                                      {"cache.Cache->(float64)", "Capacity"},
	"cache.Check":                                         {"cache.Cache,int64->(bool)", "Check"},
	"cache.CheckRedirect":                                 {"cache.Cache,int64,float64->(bool)", "CheckRedirect"},
	"cache.CheckWatermark":                                {"cache.Cache->(bool)", "CheckWatermark"},
	"cache.Clear":                                         {"cache.Cache->()", "Clear"},
	"cache.ClearFiles":                                    {"cache.Cache->()", "ClearFiles"},
	"cache.ClearStats":                                    {"cache.Cache->()", "ClearStats"},
	"cache.Create":                                        {"string,float64,string,string,cache.WeightFunctionParameters->(cache.Cache)", "\"Create LFU Cache\" \"Create LRU Cache\" \"Create Size Big Cache\" \"Create Size Small Cache\" \"Create aiNN Cache\" \"Create aiRL Cache\" \"Create infinite Cache\" \"Create random Cache\" \"Create random lru Cache\" \"aiNN\" \"aiRL\" \"cacheSize\" \"infinite\" \"lfu\" \"lru\" \"lruDatasetVerifier\" \"random\" \"random_lru\" \"sizeBig\" \"sizeSmall\" \"weightFunLRU\" .MaxSize .SimpleCache Exit Float64 GetCacheSize Info L Printf"},
	"cache.DataDeleted":                                   {"cache.Cache->(float64)", "DataDeleted"},
	"cache.DataRead":                                      {"cache.Cache->(float64)", "DataRead"},
	"cache.DataReadOnHit":                                 {"cache.Cache->(float64)", "DataReadOnHit"},
	"cache.DataReadOnMiss":                                {"cache.Cache->(float64)", "DataReadOnMiss"},
	"cache.DataWritten":                                   {"cache.Cache->(float64)", "DataWritten"},
	"cache.Dump":                                          {"cache.Cache,string,bool->()", "Dump"},
	"cache.ExtraOutput":                                   {"cache.Cache,string->(string)", "ExtraOutput"},
	"cache.ExtraStats":                                    {"cache.Cache->(string)", "ExtraStats"},
	"cache.GetCacheSize":                                  {"float64,string->(float64)", "\"G\" \"M\" \"P\" \"T\" \"g\" \"m\" \"p\" \"t\""},
	"cache.GetFile":                                       {"cache.Cache,[]interface{}->(bool, bool)", ".CPUEff .Day .DayTime .FileType .Filename .Protocol .SiteName .Size .UserID AfterRequest BeforeRequest Check CheckRedirect CheckWatermark Unix UpdatePolicy"},
	"cache.GetMaxSize":                                    {"cache.Cache->(float64)", "GetMaxSize"},
	"cache.GetSimulationRunNum":                           {"string->(int)", "\"_run-\" Contains Fatal Name ReadDir"},
	"cache.GetTotDeletedFileMiss":                         {"cache.Cache->(int)", "GetTotDeletedFileMiss"},
	"cache.HashHexDigest":                                 {"string->(string)", "\"%x\" New Sprintf Sum Write"},
	"cache.HashInt":                                       {"string->(uint32)", "HashHexDigest ParseUint"},
	"cache.HitRate":                                       {"cache.Cache->(float64)", "HitRate"},
	"cache.InitCache":                                     {"cache.Cache,cache.InitParameters->(interface{})", "Init"},
	"cache.InitInstance":                                  {"string,cache.Cache,cache.InitParameters->()", "\"\" \"FuncAdditive\" \"FuncAdditiveExp\" \"FuncMultiplicative\" \"Init LFU Cache\" \"Init LRU Cache\" \"Init Size Big Cache\" \"Init Weight Function Cache\" \"Init aiNN Cache\" \"Init aiRL Cache\" \"Init infinite Cache\" \"Init random Cache\" \"Init random lru Cache\" \"aiNN\" \"aiRL\" \"infinite\" \"lfu\" \"lru\" \"lruDatasetVerifier\" \"random\" \"random_lru\" \"sizeBig\" \"sizeSmall\" \"weightFunLRU\" .AIFeatureMap .AIRLAdditionFeatureMap .AIRLEvictionFeatureMap .CalcWeight .FunctionTypeString .QueueType .WfType Exit Info InitCache L Printf Println"},
	"cache.Load":                                          {"cache.Cache,string->([][]byte)", "Load"},
	"cache.Loads":                                         {"cache.Cache,[][]byte,[]interface{}->()", "Loads"},
	"cache.NumAdded":                                      {"cache.Cache->(int64)", "NumAdded"},
	"cache.NumDeleted":                                    {"cache.Cache->(int64)", "NumDeleted"},
	"cache.NumHits":                                       {"cache.Cache->(int64)", "NumHits"},
	"cache.NumRedirected":                                 {"cache.Cache->(int64)", "NumRedirected"},
	"cache.NumRequests":                                   {"cache.Cache->(int64)", "NumRequests"},
	"cache.OpenSimFile":                                   {"string->(chan cache.CSVRecord)", "\",\" \".gz\" \".gzip\" \"CSV header\" \"FIle header\" \"File header\" \"Open Data File\" \"file\" \"filename\" Debug Ext Info Join L NewReader Open Read String getHeaderIndexes recordGenerator"},
	"cache.OpenSimFolder":                                 {"os.File->(chan cache.CSVRecord)", "\".csv\" \".gz\" \".gzip\" Ext Join Name OpenSimFile OpenSimFolder$2 Readdir Slice"},
	"cache.RedirectedSize":                                {"cache.Cache->(float64)", "RedirectedSize"},
	"cache.SetBandwidth":                                  {"cache.Cache,float64->()", "SetBandwidth"},
	"cache.SetRegion":                                     {"cache.Cache,string->()", "SetRegion"},
	"cache.Simulate":                                      {"string,cache.Cache,cache.SimulationParams->()", "\"\" \"%0.2f\" \"%02d:%02d:%02d\" \"%d\" \"%f\" \"%s_run-%02d.csv\" \",\" \".\" \"Action delete all\" \"Action delete half\" \"Action delete one\" \"Action delete quarter\" \"Action not delete\" \"Action not store\" \"Action store\" \"Addition epsilon\" \"Addition qvalue function\" \"CPU efficiency lower bound\" \"CPU efficiency upper bound\" \"CPU efficiency\" \"CPU hit efficiency\" \"CPU miss efficiency\" \"Cache dump loaded!\" \"Enable CPU profiliing\" \"Eviction calls\" \"Eviction epsilon\" \"Eviction forced calls\" \"Eviction qvalue function\" \"Jump records\" \"Loading cache dump\" \"Num.Records/s = %0.2f\" \"Save addition table...\" \"Save eviction table...\" \"Simulation DONE!\" \"Simulation START\" \"Simulation end...\" \"Simulation\" \"Write memprofile\" \"actionStats\" \"additionQTable\" \"aiRL\" \"avg free space\" \"avg it/s\" \"bandwidth usage\" \"bandwidth\" \"cache size\" \"cache\" \"capacity\" \"config.yaml\" \"date\" \"deleted data\" \"elapsedTime\" \"epsilonStats\" \"evictionCategoryStats\" \"evictionQTable\" \"evictionStats\" \"extra\" \"filename\" \"hit rate\" \"hitRate\" \"it/s\" \"num added\" \"num deleted\" \"num hit\" \"num miss after delete\" \"num redirected\" \"num req\" \"numDailyRecords\" \"numFilteredRecords\" \"numInvalidRecords\" \"numJumpedRecords\" \"numRedirected\" \"read data\" \"read on hit data\" \"read on miss data\" \"redirectedData\" \"size redirected\" \"size\" \"std dev free space\" \"step\" \"totRecords\" \"valueFunctions\" \"weighted hit rate\" \"window\" \"windowSize\" \"written data\" .AIRLEpsilonDecay .AIRLEpsilonStart .AvgSpeed .BaseName .CPUTime .CPUprofile .ColdStart .ColdStartNoStats .DataPath .DataTypeFilter .Day .Dump .DumpFileName .DumpFilesAndStats .Extra .FileType .Filename .IOTime .LoadDump .LoadDumpFileName .MEMprofile .OutFile .OutputUpdateDelay .Protocol .RecordFilter .ResultRunStatsName .SiteName .SizeM .SizeRedirectedRecords .TimeElapsed .TotFilteredRecords .TotInvalidRecords .TotJumpedRecords .TotNumRecords .TotRedirectedRecords .UserID .WindowSize .WindowStart .WindowStop AvgFreeSpace Bandwidth BandwidthUsage CPUEff CPUEffLowerBound CPUEffUpperBound CPUHitEff CPUMissEff Capacity Check Clear ClearFiles ClearStats Close Create DataDeleted DataRead DataReadOnHit DataReadOnMiss DataWritten Dir Dump Error ExtraOutput ExtraStats Float64 GetFile GetMaxSize GetSimulationRunNum GetTotDeletedFileMiss HitRate Hours Info Int Int64 IsDir IsInf IsNaN IsRegular IsZero L Load Loads Marshal Minutes Mode Now NumAdded NumDeleted NumHits NumRedirected NumRequests Open OpenSimFile OpenSimFolder Printf RedirectedSize Rename Seconds Simulate$1 Simulate$2 Since Size Split Sprintf StartCPUProfile Stat StdDevFreeSpace StopCPUProfile String Sub Sync Terminate Unix WeightedHitRate Write WriteConfigAs WriteHeapProfile"},
	"cache.Size":                                          {"cache.Cache->(float64)", "Size"},
	"cache.StdDevFreeSpace":                               {"cache.Cache->(float64)", "StdDevFreeSpace"},
	"cache.Terminate":                                     {"cache.Cache->(error)", "Terminate"},
	"cache.UpdatePolicy":                                  {"cache.Cache,cache.Request,files.Stats,bool->(bool)", "UpdatePolicy"},
	"cache.WeightedHitRate":                               {"cache.Cache->(float64)", "WeightedHitRate"},
	"cache.getHeaderIndexes":                              {"[]string->([]int)", "\",\" Split"},
	"cache.recordGenerator":                               {"csv.Reader,os.File,[]int->(chan cache.CSVRecord)", ".CPUTime .Campaign .DataType .Day .FileType .Filename .IOTime .JobEnd .JobExecExitCode .JobID .JobLengthH .JobLengthM .JobStart .JobSuccess .NumCPU .Process .Protocol .Region .SiteName .Size .SizeM .TaskID .TaskMonitorID .UserID .WrapCPU .WrapWC Close Fatal ParseBool ParseFloat ParseInt Read recordGenerator$1"},
	"cache.writeQTable":                                   {"string,string->()", "Close Create WriteString writeQTable$1"},
	"featuremap.Parse":                                    {"string->(featuremap.FeatureManager)", ".Features .logger L Populate"},
	"neuralnet.GetPredictionArgMax":                       {"mat.Dense->(int)", "At Dims"},
	"neuralnet.LoadModel":                                 {"string->(*neuralnet.AIModel)", "\".gz\" \".gzip\" \".json\" .Bias .Layers .Shape .Tensor .Values .Weights Decode Ext Fatalf NewDecoder NewDense NewReader Open Set SetRow"},
	"neuralnet.PrintTensor":                               {"mat.Matrix->()", "\" \" \"%0.2f\" \"(%d,%d)\\n\" \"[\" \"]\" At Dims Print Printf Println"},
	"neuralnet.hardSigmoid":                               {"float64->(float64)", "Max Min"},
	"neuralnet.sigmoid":                                   {"float64->(float64)", "Exp"},
	"neuralnet.softMax":                                   {"mat.Matrix->(*mat.Dense)", "Apply At Dims Exp Set"},
	"qlearn.State2String":                                 {"[]bool->(string)", "\"\" \"0\" \"1\""},
	"qlearn.createOneHot":                                 {"int,int->([]bool)", ""},
	"functions.FileAdditiveExpWeight":                     {"int64,float64,float64,float64,float64,float64->(float64)", "Pow"},
	"functions.FileAdditiveWeight":                        {"int64,float64,float64,float64,float64,float64->(float64)", ""},
	"functions.FileMultiplicativeWeight":                  {"int64,float64,float64,float64,float64,float64->(float64)", "Pow"},
	"functions.FileWeightedRequest":                       {"int64,float64,float64->(float64)", "Exp"},
	"queue.Check":                                         {"queue.Queue,int64->(bool)", "Check"},
	"queue.Get":                                           {"queue.Queue->([]*files.Stats)", "getQueue"},
	"queue.GetFileStats":                                  {"queue.Queue,int64->(*files.Stats)", "getFileStats"},
	"queue.GetFromWorst":                                  {"queue.Queue->([]*files.Stats)", "getFromWorst"},
	"queue.GetWorstFilesUp2Size":                          {"queue.Queue,float64->([]*files.Stats)", "getWorstFilesUp2Size"},
	"queue.Init":                                          {"queue.Queue->()", "init"},
	"queue.Insert":                                        {"queue.Queue,files.Stats->()", "insert"},
	"queue.Len":                                           {"queue.Queue->(int)", "len"},
	"queue.Remove":                                        {"queue.Queue,[]int64->()", "remove"},
	"queue.RemoveWorst":                                   {"queue.Queue,[]int64->()", "removeWorst"},
	"queue.Update":                                        {"queue.Queue,files.Stats->()", "update"},
}

// refConsts are the constants (type and value) the rules know.
var refConsts = map[string]string{
	"cache.ChoiceAdd":                 "untyped string=\"ADD\"",
	"cache.ChoiceDelete":              "untyped string=\"DELETE\"",
	"cache.ChoiceFree":                "untyped string=\"FREE\"",
	"cache.ChoiceKeep":                "untyped string=\"KEEP\"",
	"cache.ChoiceLogBufferDim":        "untyped int=9999",
	"cache.ChoiceRedirect":            "untyped string=\"REDIRECT\"",
	"cache.ChoiceSkip":                "untyped string=\"SKIP\"",
	"cache.DailyBandwidth1Gbit":       "untyped float=10800000",
	"cache.EvictionOnDayEnd":          "untyped int=-2",
	"cache.EvictionOnFree":            "untyped int=-3",
	"cache.EvictionOnK":               "untyped int=-1",
	"cache.LogEventHit":               "untyped string=\"HIT\"",
	"cache.LogEventMiss":              "untyped string=\"MISS\"",
	"cache.MeanCPUDiffIT":             "untyped float=19",
	"cache.MeanCPUDiffUS":             "untyped float=10",
	"cache.SCDL":                      "cache.aiRLType=-1",
	"cache.SCDL2":                     "cache.aiRLType=0",
	"cache.csvHeader":                 "untyped string=\"Filename,SiteName,UserID,TaskID,TaskMonitorID,JobID,Protocol,JobExecExitCode,JobStart,JobEnd,NumCPU,WrapWC,WrapCPU,Size,DataType,FileType,JobLengthH,JobLengthM,JobSuccess,CPUTime,IOTime,reqDay,Region,Campaign,Process\"",
	"cache.eventEvictionOnDayEnd":     "untyped string=\"ONDAYEND\"",
	"cache.eventEvictionOnForcedCall": "untyped string=\"FORCEDCALL\"",
	"cache.eventEvictionOnFree":       "untyped string=\"ONFREE\"",
	"cache.eventEvictionOnK":          "untyped string=\"ONK\"",
	"cache.hashSize":                  "int=8",
	"cache.logBufferExitString":       "untyped string=\"EXIT\"",
	"cache.logBufferLen":              "untyped int=24",
	"cache.maxBadQValueInRow":         "untyped int=8",
	"cache.randThreshold":             "untyped float=1/2",
	"cache.readerBufferSize":          "untyped int=1024",
	"files.NumDaysPointsDecay":        "untyped float=3",
	"files.NumDaysStatsDecay":         "untyped float=7",
	"files.NumRequestedTimes":         "int=32",
	"files.estimatedNumFiles":         "untyped int=524288",
	"files.numHoursInADay":            "untyped float=24",
	"functions.Additive":              "functions.Type=-4",
	"functions.AdditiveExp":           "functions.Type=-3",
	"functions.Multiplicative":        "functions.Type=-2",
	"functions.WeightedRequests":      "functions.Type=-1",
	"qlearn.ActionDeleteAll":          "qlearn.ActionType=-4",
	"qlearn.ActionDeleteHalf":         "qlearn.ActionType=-3",
	"qlearn.ActionDeleteOne":          "qlearn.ActionType=-1",
	"qlearn.ActionDeleteQuarter":      "qlearn.ActionType=-2",
	"qlearn.ActionNotDelete":          "qlearn.ActionType=-5",
	"qlearn.ActionNotStore":           "qlearn.ActionType=-7",
	"qlearn.ActionStore":              "qlearn.ActionType=-6",
	"qlearn.AdditionAgent":            "qlearn.AgentRole=-1",
	"qlearn.EvictionAgent":            "qlearn.AgentRole=-2",
	"qlearn.RLQLearning":              "qlearn.RLUpdateAlg=-1",
	"qlearn.RLSARSA":                  "qlearn.RLUpdateAlg=-2",
	"qlearn.maxStoredPastChoices":     "untyped int=32",
	"queue.LFUQueue":                  "queue.QueueType=-5",
	"queue.LRUQueue":                  "queue.QueueType=-6",
	"queue.NoQueue":                   "queue.QueueType=-1",
	"queue.SizeBigQueue":              "queue.QueueType=-4",
	"queue.SizeSmallQueue":            "queue.QueueType=-3",
	"queue.WeightQueue":               "queue.QueueType=-2",
	"queue.bufferSize":                "untyped int=131072",
	"queue.estimatedNumFiles":         "untyped int=524288",
}

// refFieldsProto are the fields (name, type) the rules know.
var refFieldsProto = map[string][][2]string{
	"cache.FileStats": {
		{"NumReq", "float64"},
		{"Size", "float64"},
		{"Value", "float64"},
	},
	"cache.SimCache": {
		{"MaxSize", "float64"},
		{"files", "map[string]float64"},
		{"stats", "map[string]*cache.FileStats"},
	},
	"qtable.QTable": {
		{"states", "map[uint64][]float64"},
		{"learningRate", "float64"},
		{"DecayRate", "float64"},
		{"features", "[][]float64"},
		{"featureNames", "[]string"},
		{"actions", "[]qtable.ActionType"},
		{"Epsilon", "float64"},
		{"MaxEpsilon", "float64"},
		{"MinEpsilon", "float64"},
	},
}

// refFuncsProto are the functions (signature, names they use) the rules know.
var refFuncsProto = map[string][2]string{
	"cache.SimCache.Init":          {"cache.SimCache->()", ".files .stats"},
	"cache.SimCache.Insert":        {"cache.SimCache,string,float64->()", ".MaxSize .Size .files .stats GetMinValue GetSize Remove"},
	"cache.SimCache.Remove":        {"cache.SimCache,string->()", ".files"},
	"cache.SimCache.UpdateStats":   {"cache.SimCache,string,float64->(float64, float64, float64)", ".NumReq .Size .Value .stats"},
	"qtable.QTable.Init":           {"qtable.QTable,[][]float64,[]string,[]qtable.ActionType->()", "\"Insert state error!!!\" .DecayRate .Epsilon .MaxEpsilon .MinEpsilon .actions .featureNames .features .learningRate .states GetStateIdx PrintTable Printf Println genStates"},
	"qtable.QTable.Update":         {"qtable.QTable,[]float64,qtable.ActionType,float64->()", ".DecayRate .actions .learningRate .states GetAction GetStateIdx getArgMax"},
	"cache.SimCache.GetCapacity":   {"cache.SimCache->(float64)", ".MaxSize GetSize"},
	"cache.SimCache.GetMinValue":   {"cache.SimCache->(string, float64)", "\"\" .Value .files .stats"},
	"cache.SimCache.GetPoints":     {"cache.SimCache->(float64)", ".NumReq .Size .files .stats"},
	"cache.SimCache.GetSize":       {"cache.SimCache->(float64)", ".Size .files .stats"},
	"cache.SimCache.GetStats":      {"cache.SimCache,string->(*cache.FileStats)", ".stats"},
	"qtable.QTable.GenCurState":    {"qtable.QTable,[]float64->([]float64)", ".featureNames .features convertFeature createOneHot"},
	"qtable.QTable.GetAction":      {"qtable.QTable,uint64,qtable.ActionType->(float64)", ".actions .states"},
	"qtable.QTable.GetBestAction":  {"qtable.QTable,[]float64->(qtable.ActionType)", ".actions .states GetStateIdx getArgMax"},
	"qtable.QTable.GetStateIdx":    {"qtable.QTable,[]float64->(uint64)", "Pow"},
	"qtable.QTable.PrintTable":     {"qtable.QTable->()", "\" \" \"%09.2f\" \"[%s]\\t[\" \"]\" .states FormatInt Print Printf Println"},
	"qtable.QTable.convertFeature": {"qtable.QTable,int,float64->(int)", ".features"},
	"qtable.QTable.genStates":      {"qtable.QTable->(chan []float64)", ".features createOneHot genStates$1"},
	"main.main":                    {"->()", "\"Reward step %d -> %0.2f\\r\" \"Total reward -> %0.2f\\n\" \"cacheCap\" \"file%d\" \"gtms\" \"numReq\" \"size\" .DecayRate .Epsilon .MaxEpsilon .MaxSize .MinEpsilon Exp Float64 GenCurState GetBestAction GetCapacity GetMinValue GetPoints Init Insert Int PrintTable Printf Sprintf Update UpdateStats"},
	"qtable.createOneHot":          {"int,int->([]float64)", ""},
	"qtable.getArgMax":             {"[]float64->(int)", ""},
}

// refConstsProto are the constants (type and value) the rules know.
var refConstsProto = map[string]string{
	"main.cacheSize":        "untyped float=1000000",
	"main.maxFileSize":      "untyped int=1000",
	"main.numFiles":         "untyped int=1000",
	"qtable.ActionNotStore": "qtable.ActionType=1",
	"qtable.ActionStore":    "qtable.ActionType=0",
}
