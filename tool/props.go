package main

type group struct {
	tags  []string
	inpkg map[string][]string // file below sim/inpkg (its directory is the package) -> declarations it needs
}

type prop struct {
	group  string
	race   bool
	quick  int // number of runs in the quick tier
	rule   string
	real   []string
	stub   []string
	assume []string

	deterministic bool // the property promises it
}

var groups = map[string]group{
	"cache":  {},
	"errors": {},
	"curve": {inpkg: map[string][]string{
		"bandersnatch/curvePoints/bridge.go": {},
		"bandersnatch/fieldElements/bridge.go": {"bandersnatch/fieldElements.bsFieldElement_BigInt", "bandersnatch/fieldElements.CreateRandomFieldElement_Unsafe",
			"bandersnatch/fieldElements.CreateRandomNonZeroFieldElement_Unsafe"}}},
	"field": {},
	"util":  {tags: []string{"callcounters"}},
	"points": {inpkg: map[string][]string{"bandersnatch/pointserializer/bridge.go": {
		"bandersnatch/pointserializer.newMultiSerializer", "bandersnatch/pointserializer.pointSerializerXY",
		"bandersnatch/pointserializer.pointSerializerXAndSignY", "bandersnatch/pointserializer.pointSerializerYAndSignX",
		"bandersnatch/pointserializer.trivialSimpleHeaderSerializer", "bandersnatch/pointserializer.CurvePointSerializerModifyable"}}},
}

var simStub = "goroutine scheduler, sync.Mutex/RWMutex/Once/WaitGroup/Cond/Pool/Map, go statements, time.Now/Sleep/Since, global math/rand, map iteration order: simulator"

var (
	pointsReal = []string{"pointserializer", "curvePoints", "fieldElements", "errorsWithData", "errorTransform"}
	readStub   = []string{simStub, "io.Reader: harness"}
	writeStub  = []string{simStub, "io.Writer: harness"}
)

var props = map[string]prop{
	"P01": {group: "cache", deterministic: true, race: true, quick: 120000,
		rule: "Each seed draws 2-7 threads with 1-5 operations (get, prepopulate, sleep) on 1-3 keys, a cache configuration (element kind, nil callbacks, yields inside of callbacks) and a scheduling policy.",
		real: []string{"internal/testutils PrecomputedCache"}, stub: []string{simStub, "element creation, copy and seeding callbacks: harness"}},
	"P02": {group: "cache", race: true, quick: 120000,
		rule: "As P01, plus 1-4 faults placed at the n'th call of a callback for a key: panic, runtime.Goexit (what t.FailNow does), slow call; optionally re-entrant creation or a nil creation function.",
		real: []string{"internal/testutils PrecomputedCache"}, stub: []string{simStub, "element creation, copy and seeding callbacks: harness"}},
	"P06": {group: "field", quick: 300000,
		rule: "Each seed draws 1-3 streams, each of 1-6 encoded numbers (reduced, boundary, non-reduced, 256-bit) and decoding calls (13 entry points, both byte orders, prefix lengths 0-9), a chunking, and 0-3 faults per stream: end of file, I/O error (alone or together with data), stall, flipped bit, biased to object boundaries.",
		real: []string{"fieldElements (Uint256, FieldElement)", "errorsWithData", "errorTransform", "errorconsts"}, stub: []string{simStub, "io.Reader: harness"}},
	"P07": {group: "field", quick: 300000,
		rule: "Each seed draws 1-3 streams, each receiving 1-6 numbers (any internal representation) through 10 entry points, both byte orders, prefix lengths 0-8, and 0-2 faults per stream: write error at a byte (torn write, error after complete write, nothing written), stall.",
		real: []string{"fieldElements (Uint256, FieldElement)", "errorsWithData", "errorTransform", "errorconsts"}, stub: []string{simStub, "io.Writer: harness"}},
	"P08": {group: "points", quick: 60000,
		rule: "Each seed draws a format (5 kinds of points encodings, byte order, bit headers, subgroup restriction, 6 headers/footers), 1-3 streams with 1-4 encoded points each (some damaged: random, non-reduced, off curve, outside of the subgroup, wrong prefix or framing), destination types and contents, trust levels, a chunking, and 0-3 faults per stream: end of file, I/O error (alone or together with data), stall, flipped bit, biased to object boundaries.",
		real: pointsReal, stub: readStub},
	"P09": {group: "points", quick: 80000,
		rule: "Each seed draws a format (as P08), 1-3 streams each receiving 1-4 points of all types in varied internal representations (some invalid, infinite, outside of the subgroup, or too big for the bit header), and 0-2 faults per stream: write error at a byte (torn write, error after complete write, nothing written), stall.",
		real: pointsReal, stub: writeStub},
	"P11": {group: "points", quick: 60000,
		rule: "As P09 with 1-4 batches or slices of 0-4 points in all containers per stream, and slices that are too long.",
		real: pointsReal, stub: writeStub},
	"P10": {group: "points", quick: 40000,
		rule: "As P08 with 1-4 batches per stream: 0-4 points read by DeserializeCurvePoints, _Bounded, _Variadic, DeserializeSlice into new or existing slices of too small, equal or larger size, slices and pointers of all point types.",
		real: pointsReal, stub: readStub},
	"P13": {group: "points", quick: 20000,
		rule: "Each seed draws 1-10 points, 1-3 nodes that write logs (point by point and in batches, or in slices; each log has its own format) - sources, or relays that decode another node's log and encode it again - and 0-2 readers following a log over connections; per writing node 0-3 of: crash at a written byte or at a sync (only the durable part and an arbitrary part of the rest survive), failed or torn append, stall; per node 0-2 connection faults: cut, I/O error, stall.",
		real: pointsReal, stub: []string{simStub, "disk, network connections, process crash and restart: harness (about 400 lines of node logic: recovery scan, truncation, append, follow)"}},
	"P14": {group: "points", race: true, quick: 8000,
		rule: "Each seed draws 1-6 shared serializers of all kinds, 0-4 of them derived from others, and 1-4 threads with 2-7 operations each: deriving with valid values of every parameter (arguments modified afterwards), refused values and names, queries (results modified afterwards), copies, deserializers, encoding and decoding of points, batches and slices, handing objects over; finally every object is compared with its model by all threads and once more at the end.",
		real: pointsReal, stub: []string{simStub}},
	"P19": {group: "points", race: true, quick: 16000,
		rule: "Each seed draws a format (as P08) and 1-3 threads with 1-5 operations each: decoding or encoding points, batches, slices and numbers, two of three from or to a stream that ends or fails at a drawn byte; each operation is done a second time with an object derived from the first one and a stream that delivers the same bytes and the same failure in other pieces, at other times and together with or after the last bytes; errors are handed over to other threads, which print, query and extend them, and the memory used for decoding and encoding is overwritten.",
		real: pointsReal, stub: []string{simStub, "io.Reader and io.Writer: harness"}},
	"P04": {group: "errors", race: true, quick: 40000,
		rule: "Each seed draws 1-8 initial errors (also exported error values of other packages, foreign errors with and without data) and 1-4 threads with 2-10 operations each: creating and deriving errors in all 14 ways (struct, parameters, map, any; adding, deleting, converting, foreign wrapping; all override and missing-data modes; well-formed, malformed and default messages; refused arguments), queries of text, data, validity and ancestry (directly and through boxes), handing over; what is passed in or handed out is overwritten; foreign errors may panic in Error() at their n'th call.",
		real: []string{"errorsWithData", "exported errors of fieldElements, pointserializer, bandersnatchErrors"}, stub: []string{simStub, "foreign error types: harness"}},
	"P03": {group: "curve", race: true, quick: 30000,
		rule: "Each seed draws 1-4 threads with 1-7 operations each: registering a handler (that returns either answer, panics, ends its goroutine, is slow, reads or changes the registration, or meets an invalid point itself), registering an earlier one again, reading, guarding (register, operate, register the previous one), and operations of 10 kinds with valid and invalid points of all types; the history of registrations, reads and handler calls is checked for linearizability.",
		real: []string{"curvePoints", "fieldElements"}, stub: []string{simStub, "handlers: harness"}},
	"P05": {group: "errors", race: true, quick: 50000,
		rule: "Each seed draws 1-4 of 50 types (acceptable structs: flat, embedded, shadowed, generic, embedded non-structs; and rejected ones: unexported, ambiguous, embedded pointers, recursive, non-structs) and 1-4 threads with 1-7 operations each that use them for the first time: suitability, the three checks of field names (right and wrong ones), creating errors from structs, parameters and maps, reading back in 4 ways, missing or wrong data, foreign errors, handing over; the callers' panics are recovered.",
		real: []string{"errorsWithData", "internal/utils (reflection)"}, stub: []string{simStub}},
	"P15": {group: "curve", race: true, quick: 20000,
		rule: "Each seed draws 1-4 threads with 2-14 operations each out of 1-12 of the 130 operations (so that threads meet in the same functions, from a cold start): field elements, 256- and 512-bit numbers with their preconditions, exponents, points of all types including points at infinity, with destinations and operands drawn from few registers (all cases of aliasing), shared constants of the library and shared normalised values.",
		real: []string{"fieldElements", "exponents", "curvePoints"}, stub: []string{simStub}},
	"P18": {group: "curve", deterministic: true, race: true, quick: 30000,
		rule: "Each seed draws 1-4 descriptions of samplings (1-4 out of 12 kinds: field elements, points of all types, representations, invalid points; the source: the default one, a seeded one, or a simulated one that is crafted, slow or fails) and 1-4 threads that do some of them 1-4 times, and whether a single thread does the same before or after, with another time and another state of all global sources of randomness.",
		real: []string{"fieldElements", "curvePoints", "testutils.DefaultCreateRandFromSeed"}, stub: []string{simStub, "rand.Source in half of the samplings: harness"}},
	"P16": {group: "util", deterministic: true, quick: 60000,
		rule: "Three of four seeds: a history of up to 40 calls that create 2-12 counters in any order (all three ways of creating, attached to each other or not, some only referred to), link, unlink, increment, reset, query and report them, some forbidden, by 1-3 threads that take turns in an order that the schedule decides, map iteration permuted anew before each call. One of four: 1-10 operations on field elements and points in the library built with call counters.",
		real: []string{"internal/callcounters", "fieldElements and curvePoints with tag callcounters"}, stub: []string{simStub}},
	"P17": {group: "util", quick: 400000,
		rule: "Each seed draws 1-3 buffers with thresholds of 0-700 bytes and 1-3 threads with 2-16 calls each (read, read in full, write, reset, set content, invalid use; sizes biased to the threshold) that take turns.",
		real: []string{"internal/testutils FaultyBuffer"}, stub: []string{simStub}},
	"P12": {group: "points", quick: 40000,
		rule: "As P08 and P10, all input untrusted, 4 of 5 objects damaged in one of 12 ways, flipped bits in transit; every point obtained is validated and encoded again.",
		real: pointsReal, stub: readStub},
}
