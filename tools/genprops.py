import json
T='go/tricorder/'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),obs=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=[f if f.startswith('go/') else T+f for f in files],
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=hook)))

IFS=["ReadMyMetrics","Go RPC MetricsServer.ListMetrics / GetMetric","HTTP /metricsapi","HTTP /metrics (HTML and ?format=text)"]
p("C01","A group's update function runs once per request, before the group is read",
 "For every request (a listing or a single metric, through any interface) the update function of each group owning a requested single-valued metric runs at most once on behalf of that request, and its run completes before the first value of the group is read for that request; it runs exactly once if no other in-process request is using the group. A request never runs the update function of a group none of whose metrics it asks for.",
 ["schedules","histories"],"every interleaving of any number of requests over any assignment of metrics to groups",
 "TestAPI drives one fixed sequence of sessions on three groups; the interleavings of real requests, and the interfaces besides the internal collector, are not sampled.",
 ["metric.go","api.go"],[("per-request visit of a region","metric.go session.Visit"),("update on 0->1 lock transition","metric.go region.handleLockUnlock")],
 [("visited regions","groups this request already holds","session.visitedRegions"),("lock count","number of in-process requests using the group","region.lockCount")],IFS)
p("C02","No update of a group while an in-process request is reading the group",
 "From the moment a request begins reading values of a group until it has read its last value, no update function of that group starts or is running, whatever other requests do. Hence all values of one group in one response come from the same update, and a request arriving meanwhile reports the same data without running the update function.",
 ["schedules"],"every interleaving of concurrent requests, updates and reads, for variables and callbacks alike",
 "Needs particular interleavings of two or more requests with an update; the tests call sessions sequentially from one goroutine.",
 ["metric.go","html.go","json.go","rpc.go"],[("region event loop serialises lock, unlock and update","metric.go region.handleRequests"),("values are read inside the session","metric.go value.evaluate, updateJsonOrRpcMetric, html.go textEmitMetric")],
 [("lock count","in-process readers of a group","region.lockCount")],IFS)
p("C03","However requests end, their groups become free and later requests proceed",
 "Once no in-process request is using a group, the next request for one of its metrics runs the group's update function again and reports its new data, no matter how earlier requests ended: normally, through a panicking metric callback, or because the client can no longer be written to. Every request comes to an end once the callbacks and update functions it runs have returned.",
 ["schedules","fault_sequences"],"every sequence of normal and failing requests, every point of failure, every interleaving",
 "No test makes a callback panic or a response writer fail; a leaked hold silently freezes a group's data, which single-shot tests cannot see.",
 ["metric.go","html.go","json.go","rpc.go","http.go"],[("deferred close of sessions","metric.go GetAllMetrics, GetAllMetricsByPath, evaluate, updateJsonOrRpcMetric; html.go htmlEmitDirectoryOrMetric"),("release of every visited region","metric.go session.Close")],
 [("lock count","must return to zero","region.lockCount")],IFS)
p("C04","Group ids are stable and unique; equal group id means equal timestamp",
 "In any one response, metrics with the same group id carry the same timestamp; for single-valued metrics it is the time returned by the update-function run whose data they report. All metrics of one group have the group's id, in every response and through every interface, and two different groups, distributions or lists never share an id.",
 ["schedules","histories"],"every history of requests, updates, group, list and distribution creations, including concurrent ones",
 "The tests compare ids and timestamps of one fixed registry read by one goroutine.",
 ["metric.go","messages/api.go"],[("id generator","metric.go newIdSequence"),("timestamp cached per session","metric.go session.Visit, value.TimeStamp")],
 [("update time","time returned by the last update","region.updateTime")],IFS[:3])
p("C05","Replacing an update function takes effect at once and never blocks for good",
 "After registering an update function with a group has returned, every update of that group that starts later calls that function and none registered before; at most one update function of a group is running at any time. Registering neither runs the function, nor disturbs in-process requests, and always returns once the group's running update function, if any, has returned.",
 ["schedules","histories"],"every interleaving of registrations of update functions with requests and updates",
 "No test registers an update function while requests are in process.",
 ["metric.go","api.go"],[("function handed over through the region's event loop","metric.go region.registerUpdateFunc, handleUpdateFunc")],
 [("update function","the function currently registered","region.updateFunc")],["Group.RegisterUpdateFunc"]+IFS)
p("C06","A path holds at most one thing; registration conflicts fail cleanly",
 "A successful metric registration makes exactly that metric reachable at that path. Registering a metric at a path that already is a metric or directory (the root included), or below an existing metric, fails with the path-in-use error and leaves what is registered unchanged. Of any number of concurrent registrations of one free path exactly one succeeds.",
 ["histories","schedules","inputs"],"every history of registrations and unregistrations, sequential or concurrent, over any paths",
 "Tests sample a handful of conflicts in one order and never register concurrently.",
 ["metric.go","api.go"],[("check and store under the directory's lock","metric.go directory.storeMetric, createDirIfNeeded")],
 [("directory contents","name -> metric or directory","directory.contents")],["RegisterMetric and its variants","GetDirectory"]+IFS)
p("C07","Directory registration and lookup are idempotent and handles stay true",
 "Registering a directory returns the one directory at that path, creating missing levels, and the very same handle for as long as it stays registered; looking it up returns that handle too. Both fail with the path-in-use error when the path is or leads through a metric, and a lookup of a missing path fails with the not-found error. A registered handle's absolute path leads back to it, and operations relative to it equal the same operations on the joined absolute path.",
 ["histories","inputs","schedules"],"every history of operations through absolute paths and through handles",
 "Tests look up three fixed paths in one registry.",
 ["metric.go","api.go"],[("create-or-get per level","metric.go directory.createDirIfNeeded, registerDirectory, getDirectoryAndError"),("absolute path from parent links","metric.go listEntry.pathFrom")],
 [("enclosing entry","a directory's place in the tree","directory.enclosingListEntry")],["RegisterDirectory","GetDirectory","DirectorySpec.AbsPath"])
p("C08","Unregistering removes exactly that subtree; stale handles are harmless",
 "Unregistering a path or directory removes exactly that metric, or that directory with everything below it, from all later responses and frees the path for reuse; unregistering the root, an empty relative path or a missing path does nothing. Nothing done through a handle of an unregistered directory changes what is reported: metrics registered through it do not appear, and unregistering it does not remove a newer directory or metric of the same path.",
 ["histories","schedules"],"every history in which directories are unregistered, re-created and used through old handles",
 "Tests unregister three paths once and never use a stale handle.",
 ["metric.go","api.go"],[("identity check before removing a child","metric.go directory.removeChildDirectory"),("removal by name","metric.go directory.removeListEntry")],
 [("directory contents","name -> metric or directory","directory.contents")],["UnregisterPath","UnregisterDirectory"]+IFS)
p("C09","A listing reports every metric under its path exactly once, in order",
 "A listing of a path contains each metric at or below that path exactly once, under its absolute path, and nothing else (single values that are NaN or infinite are left out; nothing there gives an empty listing), depth first with siblings in bytewise order of their names. Leading, trailing and repeated slashes and all-blank components of a path have no meaning; every other character has.",
 ["inputs","histories"],"every registry contents and every spelling of a path",
 "Tests list a few prefixes of one registry with plain names.",
 ["metric.go","api.go","rpc.go","json.go","html.go"],[("depth-first traversal","metric.go directory.GetAllMetrics, GetAllMetricsByPath"),("sorting","metric.go sortListEntries"),("path parsing","metric.go newPathSpec")],
 [("directory contents","name -> metric or directory","directory.contents")],IFS)
p("C10","Concurrent registry operations and listings are atomic per directory",
 "However registrations, unregistrations, lookups and listings run concurrently, every outcome is one that some interleaving of per-directory atomic steps produces. In particular a metric registered from before a listing starts until after it ends is reported exactly once, a metric unregistered before it starts or registered after it ends is not reported, and no registration that returned success is lost unless something unregistered it.",
 ["schedules"],"every interleaving of concurrent registry operations and listings",
 "No test uses the registry from more than one goroutine.",
 ["metric.go"],[("one lock per directory","metric.go directory.lock"),("snapshot of entries before traversal","metric.go directory.listUnsorted")],
 [("directory contents","name -> metric or directory","directory.contents")],["all registration functions"]+IFS)
p("C11","All interfaces report the same metrics",
 "For any path, in-process reads, Go RPC, JSON and text report the same metrics with the same paths, kinds, units, descriptions, group ids, timestamps and values, each in its documented encoding; asking for a single metric gives the listing's entry for it. The HTML pages show each directory's metrics and link each subdirectory so that following links from the top reaches every metric. Asking for a missing metric gives the not-found error in RPC, status 404 in JSON, and a not-exist message in HTML and text. (HTTP cannot address components named '.' or '..', and JSON presumes valid UTF-8.)",
 ["inputs","histories"],"every registry contents, every path, every interface",
 "Tests check encodings of single metrics through internal methods and never go through the HTTP and RPC handlers.",
 ["rpc.go","json.go","html.go","http.go","metric.go","messages/metric.go"],[("per-interface collectors","rpc.go rpcMetricsCollector, json.go jsonMetricsCollector, html.go textCollector, htmlTemplate")],(),IFS)
p("C12","Reported kind, size and value match what was registered",
 "Every response reports the value the registered variable has, or its callback returns, at the time of the request, together with the kind, size in bits, unit and description it was registered with. In Go RPC and in-process reads the value has exactly the Go type documented for its kind, also for variables of type int and uint and of user-defined types, for time pointers (nil meaning the zero time), and for the elements of lists.",
 ["inputs","histories"],"every supported type (including user-defined ones), every value, every way of registering it",
 "Tests register one variable for some of the types with one or two values each.",
 ["metric.go","types/api.go","messages/api.go"],[("kind from reflect type","metric.go getPrimitiveType"),("conversion to API types","metric.go valueToInterface, convertSlice")],
 [("registered variable","read at request time","value.val")],IFS)
p("C13","Times and durations are rendered exactly and convert back exactly",
 "In JSON and text a duration or time appears as the exact decimal number of its metric's unit (milliseconds, or seconds for every other unit) with nine fractional digits, times counting from the Unix epoch and the zero time being 0. Converting a metric to JSON form and back to Go RPC form restores every duration and every non-zero time, alone, in lists and in the timestamp, to the nanosecond; both conversions are idempotent, and a malformed string makes the conversion back fail leaving the metric unchanged.",
 ["inputs"],"every time and duration representable in nanoseconds, negative and pre-epoch ones included, every unit",
 "Tests convert a dozen values; carries, signs and units combine into many more cases.",
 ["duration/duration.go","duration/api.go","messages/metric.go","units/api.go","metric.go"],[("second/nanosecond arithmetic","duration/duration.go mult, div, convert, toString, parse, sinceEpoch"),("JSON <-> Go RPC","messages/metric.go asJson, asGoRPC")],(),["HTTP /metricsapi","HTTP /metrics?format=text","messages.Metric.ConvertToJson / ConvertToGoRPC","duration.ParseWithUnit"])
p("C14","Unsupported metrics are refused and nothing gets registered",
 "Registering something that is not a supported metric (nil, a value that is no pointer, a nil pointer, a pointer to or function returning an unsupported type, a function taking arguments) returns the wrong-type error; a function without exactly one result is refused too. After a refused registration nothing is reported at that path, every other metric is reported as before, and a valid registration of that path succeeds.",
 ["inputs"],"every Go value passed as a metric",
 "Tests try complex128 by pointer and by callback.",
 ["metric.go","api.go"],[("classification of metric values","metric.go newValue, getPrimitiveType")],(),["RegisterMetric"]+IFS)
p("C15","Every distribution value is counted in the bucket its endpoints say",
 "A bucketer has the endpoints its constructor documents (exponential, linear, arbitrary, geometric and the predefined ones), and a distribution using it has one more range than endpoints, adjacent and in order. Every added value is counted in exactly the range with lower <= value < upper, values below the first endpoint in the first and values at or above the last endpoint in the last range; invalid constructor arguments panic.",
 ["inputs"],"every constructor, its arguments, and every value, endpoints themselves included",
 "Tests verify the endpoints of six bucketers and never add values at endpoints of most of them.",
 ["metric.go","api.go"],[("endpoint streams","metric.go newExponentialBucketerStream, newLinearBucketerStream, newGeometricBucketerStream"),("search for the bucket","metric.go findDistributionIndex")],
 [("pieces","the ranges","distribution.pieces")],["messages.Distribution.Ranges","HTTP /metrics text"])
p("C16","Distribution statistics equal those of the values in the distribution",
 "After any history of adding, updating and removing finite values, count, sum, average (the latter two up to floating-point rounding) and the per-range counts are those of the values now in the distribution, the range counts add up to count, and the timestamp is that of the last change. Min and max are the smallest and largest value seen since the distribution was last empty (zero while it is empty). The generation is the number of changes ever made and the non-cumulative flag always tells the kind.",
 ["histories","inputs"],"every history of adds, updates and removes of values in the distribution",
 "Tests run a few short histories; combinations such as emptying and refilling are not sampled.",
 ["metric.go","api.go","messages/api.go"],[("incremental statistics","metric.go distribution.add, update, remove, Snapshot")],
 [("counts, total, min, max, count, generation","running statistics","distribution")],["messages.Distribution","NonCumulativeDistribution.Sum/Count"])
p("C17","Distributions are atomic under concurrent use",
 "Concurrent adds, updates, removes and reads of a distribution behave as if executed one after the other: no change is lost or doubled, every read returns statistics of one moment that agree with each other (range counts with count, average with sum and count, min, max and median with the counts), and the generations successive reads see never decrease.",
 ["schedules"],"every interleaving of concurrent operations and reads of one distribution",
 "No test uses a distribution from two goroutines.",
 ["metric.go"],[("one lock per distribution, snapshot under it","metric.go distribution.lock, Snapshot")],
 [("counts, total, min, max, count, generation","running statistics","distribution")],["messages.Distribution","NonCumulativeDistribution.Sum/Count"])
p("C18","The reported median lies where the middle value lies",
 "Up to floating-point rounding, the median reported for a non-empty distribution lies between min and max. With one or two values it is their average; with an odd number of values it lies within the range (clipped to min and max) containing the middle value, and with an even number between the averages of the lower and of the upper bounds of the ranges containing the two middle values.",
 ["inputs","histories"],"every bucketer and every collection of values",
 "Tests compute the median of seven collections.",
 ["metric.go"],[("interpolation inside the middle range","metric.go calculateMedian, indexToValue, interpolate")],
 [("counts, min, max","input of the estimate","distribution")],["messages.Distribution.Median"])
p("C19","A distribution's unit is fixed by its first registration",
 "A distribution has no unit until it is first registered, gets the unit of that registration, and keeps it: registering it again succeeds with that unit and fails with the wrong-unit error with another. Added durations are converted to that unit exactly (seconds or milliseconds). Adding before a unit is assigned, adding a duration to a distribution with no time unit, or passing a value that is no float32, float64 or duration panics, and the distribution stays as it was and usable.",
 ["histories","inputs"],"every history of registrations and operations with valid and invalid arguments",
 "Tests try one wrong unit and one unassigned unit, and never use a distribution after a panic.",
 ["metric.go","api.go"],[("unit set once","metric.go distribution.SetUnit"),("conversion","metric.go valueToFloat, goDurationToFloat"),("lock released on panic","metric.go AddWithTs, UpdateWithTs, RemoveWithTs")],
 [("unit","assigned unit","distribution.unit, unitSet")],["RegisterMetric","Add/Update/Remove","messages.Distribution"])
p("C20","A list always reports exactly the contents last given to it",
 "A list reports, in order, the elements given at its creation or by the last completed change, with the time of that change, and as long as slices are passed as mutable no later modification of the caller's slice shows. A change to another element type panics and leaves the list unchanged. Under concurrent changes and reads each read returns the complete contents and timestamp of one single change.",
 ["histories","inputs","schedules"],"every element type, every history of changes and slice modifications, every interleaving with reads",
 "Tests change one list twice from one goroutine.",
 ["metric.go","api.go"],[("defensive copy","metric.go asSliceValue, copySlice, convertSlice"),("contents and time replaced under one lock","metric.go listType.ChangeWithTimeStamp, get")],
 [("contents and timestamp","what is reported","listType.aSlice, timeStamp")],["NewList","List.Change"]+IFS)
p("C21","Health and readiness endpoints report exactly the last status set",
 "The health endpoint answers OK with status 200 from the start and whenever last set healthy, and 503 with the given status text while last set unhealthy; the readiness endpoint likewise, but starting with 503 'not ready'. The two never influence each other, setting an empty or 'OK' failure status panics without effect, and concurrent sets and queries are linearizable.",
 ["histories","schedules"],"every history of sets and queries, sequential or concurrent",
 "The package has no tests.",
 ["go/healthserver/api.go","go/healthserver/impl.go"],[("status strings under a mutex","go/healthserver/impl.go setHealth, setReady, healthzHandler, readinessHandler")],
 [("healthStatus, readyStatus","empty means OK","go/healthserver/impl.go")],["HTTP /healthz","HTTP /readiness"])
p("C22","HTTP responses are well formed and the same with and without gzip",
 "JSON responses other than errors are valid JSON arrays (or one object for a single metric) with the documented field names, are labelled as JSON with the tricorder media type; a single metric that JSON cannot express is an error of the server. They are gzip-encoded exactly if the client's Accept-Encoding names gzip with a weight above zero, decoding to the same body and status as the unencoded response, also under concurrent requests. HTML and text pages and the presence probe carry the frame, XSS and content-security headers, HTML escapes everything taken from metric names, units, descriptions and values, text is labelled plain text, and the presence probe answers true.",
 ["inputs","configurations"],"every request path, query and accept-encoding header, every metric name, description and value",
 "Tests never go through the HTTP handlers.",
 ["http.go","json.go","html.go"],[("gzip wrapper","http.go gzipHandler"),("headers","json.go jsonSetUpHeaders, html.go setSecurityHeaders"),("escaping","html.go htmlTemplate")],(),["HTTP /metricsapi","HTTP /metrics","HTTP /has-tricorder-metrics","HTTP /metricsstatic"])
p("C23","Registered flags report their current values under /proc/flags",
 "Registering the application's flags makes each flag appear under /proc/flags by its name with its usage text, its current value at every request, and the kind of what its getter returns, or its string form if that is no supported kind or there is no getter. Its unit is the one set for it beforehand, otherwise seconds for durations and none for others; registering flags again adds the flags defined since and leaves the others as they are.",
 ["histories","inputs"],"every set of flags, every sequence of setting units, registering flags and changing flag values",
 "Tests define five flags and register them once.",
 ["metric.go","api.go"],[("flag metrics","metric.go registerFlags, flagUnit, newValue, toFlagGetter")],
 [("flag units","units set beforehand","flagUnits")],["RegisterFlags","SetFlagUnit"]+IFS)
p("C24","Process metrics describe the running process",
 "Without any registration the process reports below /proc cpu/user and cpu/sys (seconds), memory/total, max-resident-set-size, shared, unshared-data and unshared-stack (bytes), memory/soft-page-fault, hard-page-fault and swaps, io/input, output and num-open-file-descriptors, ipc/sent and received, signals/received, scheduler/voluntary-switches and involuntary-switches, go/num-goroutines and go/version, name, args (joined by '|') and start-time. Each reported counter lies between the operating system's (or runtime's) own figures taken right before and right after the request, in the metric's unit.",
 ["histories","schedules"],"every point of the process's life at which a request arrives",
 "No test looks at the value of a default metric.",
 ["setup.go","wrapper/syscall_linux.go"],[("resource usage group","setup.go initDefaultMetrics, timeValToDuration"),("getrusage","wrapper/syscall_linux.go Getrusage")],
 [("resourceUsage","last sample","setup.go")],IFS)
p("C25","A non-finite value never hides other metrics",
 "A listing reports every metric whose value is finite, even if other metrics below the same path (variables, callbacks, whose value may change between two calls, lists or distributions) are NaN or infinite; in particular a JSON listing stays valid JSON. Single values that are NaN or infinite are left out of listings, and come back as soon as they are finite.",
 ["inputs","histories"],"every mix and every history of finite and non-finite values",
 "Tests check that four constant non-finite single values are left out, on the internal collector only.",
 ["metric.go","json.go"],[("filter before collecting","metric.go collect, value.IsInfNaN"),("filter in the JSON collector","json.go jsonMetricsCollector.Collect")],(),IFS)
p("C26","Value types convert to and from floats and classify consistently",
 "For every type that supports it, converting a value to a float and back restores every value the float can represent (times to within a microsecond), converting a float to an integer or a duration rounds to the nearest integer or nanosecond, halves away from zero; types that do not support it say so and panic. Type, element type, zero value, nil slice, bit size and the int/uint/float/equality predicates of every type agree with each other and with the type derived from a Go value.",
 ["inputs"],"every type and every value",
 "Tests sample about a hundred conversions, none of negative durations or large integers.",
 ["types/api.go","types/types.go","duration/api.go","messages/api.go"],[("conversions","types/api.go FromFloat, ToFloat; duration/api.go FromFloat, ToFloat, FloatToTime, TimeToFloat"),("tables","types/api.go FromGoValueWithSubType, SafeZeroValue, SafeNilSlice, Bits")],(),["package types","package duration","messages.ZeroValue"])
p("C27","Human-readable numbers in HTML show the true value",
 "HTML shows integers without unit exactly, with a comma before every third digit from the right, and integers with any other unit exactly below 1000 (1024 for bytes and bytes per second) and otherwise with three significant digits (the whole part, if it has more) and the suffix of the largest power of that base not exceeding them, rounded correctly (from sixteen digits on, to floating-point precision). Durations that are not negative appear as days, hours, minutes, seconds or sub-second units truncated, never rounded up; times appear in UTC with all their digits.",
 ["inputs"],"every integer, duration and time, every unit",
 "Tests sample two dozen values.",
 ["metric.go","duration/duration.go","html.go"],[("compact form","metric.go iCompactForm, uCompactForm, addSeparators"),("pretty durations","duration/duration.go prettyFormat")],(),["HTTP /metrics","duration.Duration.PrettyFormat"])
p("C28","Requests, changes and unregistered metrics leave nothing behind",
 "What a process keeps on behalf of tricorder depends on what is registered, on the groups created so far and on the requests in progress, not on how much has happened: when a request has ended, normally, through a panicking callback or because the client went away, no goroutine or open file serving it remains; and unregistered metrics and directories, refused registrations, replaced update functions and replaced list contents are let go. So neither goroutines, open files nor memory grow with the number of requests, lookups, changes or registrations made and undone.",
 ["histories","inputs"],"every history of registrations, refusals, unregistrations, replacements, lookups and requests of any length, however they end",
 "A leak of one goroutine or reference per operation shows only in long histories; tests make a handful of calls and never look.",
 ["metric.go","api.go","http.go","json.go","rpc.go","html.go"],[("sessions","metric.go session.Close"),("groups","metric.go newRegion, registerUpdateFunc"),("registry","metric.go directory removal"),("lists","metric.go listType.Change")],(),["all interfaces"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
