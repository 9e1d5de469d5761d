#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the texts)."""
import json, os
P = []
def p(id, title, statement, over, text, tests, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": tests, "anchors": a})

FE="bandersnatch/fieldElements/"; CP="bandersnatch/curvePoints/"; PS="bandersnatch/pointserializer/"; EW="bandersnatch/errorsWithData/"

p("P01", "Precomputed samples are reproducible and independent of concurrent users",
  "A cache of precomputed pseudo-random elements is an append-only sequence per key: element i under a key is the i'th element produced by the creation function from the per-key source, whatever goroutines ask for whichever prefixes in whichever order. Every request for n elements returns exactly n of them, as an independent copy of the first n that no other user can change or be changed by, and each element is created exactly once. Requests never deadlock and never race.",
  ["schedules", "histories", "inputs"], "all interleavings of up to 7 goroutines requesting, prepopulating and modifying their copies, all cache configurations",
  "The tests use one goroutine; the guarantees are about all interleavings of lock hand-over (read lock to write lock and back) and about all histories of growing requests.",
  ["internal/testutils/precomputation_meta.go"], [("cache lock per key and for the map", "PrecomputedCache.GetElements"), ("prefix growth", "PrecomputedCache.PrepopulateCache")])
p("P02", "The precomputed cache survives failing, slow and re-entrant callbacks",
  "If a creation, copy or seeding callback of a precomputed cache panics, ends its goroutine, is slow or uses the cache re-entrantly for another key, then the failure reaches the caller that triggered it, and nobody else is affected: no lock stays held, requests by other goroutines and later requests terminate, and what they return is a correct prefix of the key's sequence without missing, zero or duplicated elements.",
  ["schedules", "fault_sequences", "histories"], "all interleavings of up to 7 goroutines with faults at arbitrary calls of the callbacks",
  "Tests never let a callback fail while other goroutines wait for the same page.",
  ["internal/testutils/precomputation_meta.go"], [("unlocking on panic", "PrecomputedCache.GetElements"), ("partially filled pages", "PrecomputedCache.PrepopulateCache")])
p("P03", "The invalid-point handler is an atomic register and a faithful callback",
  "Registering and reading the handler for invalid points is linearizable: every operation takes effect atomically between its call and its return, registering returns the handler that was in force before, and a read gives what was registered last. Whenever a comparison, a query (neutral element, at infinity, in subgroup), a normalisation or a checked conversion of curve points meets an invalid point, the handler in force is called, on the calling goroutine, exactly once per such event, naming only operands, among them an invalid one, and with no lock held - so it may itself register or read handlers, compare points, or panic without blocking anybody; for comparisons and subgroup queries its answer is what is returned. Operands with valid points never trigger the handler. No operation changes the value of its operands or, if it fails, of its destination - in batches all other points stay intact, also if the handler panics - and arithmetic with an invalid operand gives an invalid result.",
  ["schedules", "histories", "fault_sequences"], "all interleavings of goroutines registering, reading and triggering handlers, handlers that panic, are slow or re-enter",
  "Tests register a handler from a single goroutine.",
  [CP+"error_handler.go", CP+"curve_point_xtw.go", CP+"curve_point_axtw.go", CP+"curve_point_doubleproj.go", CP+"batch_operations.go"], [("handler register with lock", "error_handler.go"), ("dispatch", "napEncountered")])
p("P04", "Errors carrying data are immutable values that goroutines can share",
  "An error with data never changes once it was created: its text, its wrapped errors and all data stored in it stay the same whatever is done with it, with errors derived from it by adding, replacing or deleting data, with maps and structs passed in or handed out, and whatever goroutines do so at the same time. Derived errors hold exactly the data that the chosen override mode prescribes (newest wins, oldest wins, or panic on disagreement) and still match their ancestors by errors.Is. Errors that are shared by goroutines - in particular the package's exported error values - can be printed, queried and extended concurrently without data races. What an error prints is what its message and its data prescribe, validation tells beforehand whether printing finds everything the message refers to, neither ever panics, whatever the message, and an error whose type promises a struct of data can always give it.",
  ["schedules", "histories", "programs", "inputs"], "all histories of creating, deriving, querying and printing errors by several goroutines, all interleavings",
  "Tests look at one error at a time from one goroutine; immutability is about all later operations and races are about all schedules.",
  [EW+"errorsWithData.go", EW+"plainErrorWithParams.go", EW+"modify_errors.go", EW+"dataOverride.go", EW+"formatting_interpolate.go"], [("data maps are copied", "plainErrorWithParams.go"), ("override modes", "dataOverride.go"), ("interpolated text", "formatting_interpolate.go")])
p("P05", "Struct metadata for error data is the same for all users from a cold start",
  "Which fields a struct type contributes to error data, and whether it is accepted at all, depends on the type only: every goroutine gets the same answer at the first use of a type, at later uses, and when several goroutines use the type for the first time at once. Types that are rejected are rejected every time and for everybody, reading data back into a struct yields what was put in, and the lookup never deadlocks or races, also if a rejected type makes a caller panic.",
  ["schedules", "histories"], "all interleavings of first uses of valid and invalid struct types, starting with an empty lookup table",
  "The lookup table is filled once per process, so tests see one cold start with one goroutine.",
  [EW+"params_to_data.go"], [("type lookup table and its lock", "params_to_data.go")])
p("P06", "Decoding numbers from a stream accounts for every byte under any fault",
  "Decoding a field element or 256-bit integer (plain, with prefix bits returned, with expected prefix bits; from a stream, buffer or byte slice) reports exactly the number of bytes it took, which is 32 on success whatever the pieces are in which the stream delivers; the value and the prefix are those encoded in these bytes and nothing beyond them is consumed. On truncation or an I/O error the destination is unchanged and the error wraps the stream's own error - end of file only if nothing was read, unexpected end of file otherwise - and carries the number of bytes read, the bytes themselves, whether the object was cut in the middle, and that the failure was due to I/O. A number that is not reduced is stored modulo the field size and reported as non-normalised; a wrong prefix is reported as mismatch without touching the destination.",
  ["inputs", "fault_sequences", "histories"], "all byte streams, all ways to deliver them in pieces, all positions of truncations and I/O errors, sequences of several decodings from the same stream",
  "Tests use in-memory buffers that deliver everything at once and never fail.",
  [FE+"uint256_serialize.go", FE+"field_element_serialize.go"], [("byte accounting", "Uint256.Deserialize"), ("prefixes", "DeserializeWithExpectedPrefix")])
p("P07", "Encoding numbers to a stream accounts for every byte under any fault",
  "Encoding a field element or 256-bit integer (with or without prefix bits; to a stream, buffer or byte slice) writes exactly its 32-byte encoding, which does not depend on the internal representation of the number, never changes the number and never touches output beyond these bytes. If the stream accepts only a part or fails, the reported number of bytes written is what the stream accepted, these bytes are a prefix of the fault-free output, and the error wraps the stream's error and tells bytes written, whether the write was torn, and that I/O was the cause. If the prefix bits do not fit, nothing is written at all.",
  ["inputs", "fault_sequences", "histories"], "all numbers and prefixes, all positions of write errors and torn writes, sequences of encodings to one stream",
  "Tests use buffers that never fail.",
  [FE+"uint256_serialize.go", FE+"field_element_serialize.go"], [("byte accounting", "Uint256.Serialize"), ("prefixes", "SerializeWithPrefix")])
p("P08", "Decoding a curve point is all-or-nothing under any fault",
  "Decoding a single point from a stream either succeeds, having consumed exactly the format's length and stored exactly the point that was encoded there, or fails with an error and leaves the destination point as it was (only a failure of what follows the point, its footer, may leave the complete, correctly decoded point behind). The number of bytes reported is the number taken from the stream in every case, however the stream delivers its bytes. Truncation is reported as end of file if it happens before the first byte and as unexpected end of file otherwise, I/O errors keep their identity, and the error tells whether the stream was left in the middle of a point.",
  ["inputs", "fault_sequences", "configurations"], "all points, formats, endianness and header/footer configurations, all chunkings, all truncation, damage and I/O error positions",
  "Tests use in-memory buffers and a few fault positions.",
  [PS+"serialize_curve_point.go", PS+"basic_serializers.go", PS+"values_serializers.go", PS+"headerSerializer.go", PS+"utils.go"], [("point decoding", "DeserializeCurvePoint"), ("headers", "consumeExpectRead")])
p("P09", "Encoding a curve point is faithful under write faults",
  "Encoding a single point never changes the point and writes exactly the format's bytes: header, body and footer, the same for every representation of the same point. If the stream fails or accepts only a part, the bytes accepted are a prefix of the fault-free output, the reported count equals what the stream accepted, and the error wraps the stream's error. Points that the format cannot represent (invalid points, points at infinity, or points outside of the subgroup for subgroup-only formats) are refused, with the reason, without writing a body.",
  ["inputs", "fault_sequences", "configurations"], "all points and representations, formats and header configurations, all positions of write errors and torn writes",
  "Tests use buffers that never fail, apart from a few fixed positions.",
  [PS+"serialize_curve_point.go", PS+"basic_serializers.go", PS+"values_serializers.go"], [("point encoding", "SerializeCurvePoint"), ("headers", "headerSerializer.go")])
p("P10", "Batch decoding accounts for every point and byte under any fault",
  "Decoding a batch or slice of points yields exactly the points encoded in the stream, in order. If it fails, the points before the failing one are stored in order, their number is what the error reports as points decoded (within a slice, a point whose footer fails counts; within a batch it does not), later destinations are unchanged, and the reported number of bytes is exactly what was taken from the stream; a slice whose destination is too small or cannot be created fails cleanly before any point is stored. A stream that is cut is never reported as complete, and end of file is reported only if the stream ended before anything belonging to the batch was read.",
  ["inputs", "fault_sequences", "configurations"], "all batch sizes, destinations, formats and headers, all chunkings, truncation, damage and I/O error positions",
  "Tests use in-memory buffers, a handful of sizes, and no faults within a batch.",
  [PS+"serialize_curve_points.go", PS+"serialize_curve_point.go", PS+"headerSerializer.go"], [("points decoded", "DeserializeCurvePoints, DeserializeSlice")])
p("P11", "Batch encoding accounts for every point and byte under any fault",
  "Encoding a batch or slice of points writes the concatenation of headers, the encodings of the points in order, and footers, and leaves the points' values unchanged. If the stream fails or a point cannot be encoded, what was accepted is a prefix of the fault-free output, the number of points that the error reports as written is the number of points that were completely accepted without an error (within a slice, a point whose body was accepted counts), and the reported number of bytes is what the stream accepted.",
  ["inputs", "fault_sequences", "configurations"], "all batch sizes, formats and headers, all positions of write errors, torn writes and of points that cannot be encoded",
  "Tests do not inject faults into batches.",
  [PS+"serialize_curve_points.go", PS+"serialize_curve_point.go", PS+"headerSerializer.go"], [("points written", "SerializeCurvePoints, SerializeSlice")])
p("P12", "Damaged or hostile streams never yield an invalid point",
  "Whatever bytes are decoded as untrusted input, every destination point that decoding changes is a valid point on the curve, inside of the prime-order subgroup if the format or the destination's type promises that, and it is the point the bytes encode: encoding it again in the same format gives the bytes consumed. Decoding always terminates with a result or an error, never with a panic, and takes no more from the stream than the format's length.",
  ["inputs", "fault_sequences", "configurations"], "all byte strings, in particular valid encodings damaged in storage or transit and encodings of points outside of curve and subgroup",
  "The space of byte strings and damages cannot be sampled by fixed test vectors.",
  [PS+"basic_serializers.go", PS+"values_serializers.go", CP+"curve_point_impl_serialize.go"], [("validation of untrusted input", "CurvePointFromXYAffine_*, CurvePointFromXAndSignY_*")])
p("P13", "Points survive the trip between nodes that crash, tear and resume",
  "If one node writes a log of points - singly, in batches and in slices, possibly to storage that loses what was not yet made durable in a crash - and other nodes read the log, then every reader obtains exactly the sequence that was written, in order and exactly once, up to the point where the durable bytes end, and there it gets a clean error. Resuming at the position computed from the reported byte counts, after truncating a torn tail, continues the sequence without loss, duplication or reordering.",
  ["fault_sequences", "crash_points", "histories", "schedules"], "all sequences of writes, crash points, torn tails, restarts and chunkings of the connection, concurrently running writers and readers",
  "No test connects writer and reader by anything but a buffer, and none crashes.",
  [PS+"serialize_curve_point.go", PS+"serialize_curve_points.go", PS+"headerSerializer.go"], [("framing by counts", "SerializeSlice / DeserializeSlice")])
p("P14", "Serializers are immutable and can be shared by goroutines",
  "A serializer's behaviour never changes: changing a parameter, copying it or making a deserializer from it gives a new object with just that parameter changed and leaves the original as it was, what is passed in or handed out as parameter shares no memory with it, and invalid parameters are refused without effect. A serializer can be used by any number of goroutines at the same time, for encoding, decoding and deriving others, without data races and with the same results as if each had its own.",
  ["schedules", "histories", "configurations"], "all histories of deriving and using serializers from several goroutines, all interleavings",
  "Tests use each serializer from one goroutine and look at the result once.",
  [PS+"parameterModification.go", PS+"headerSerializer.go", PS+"serialize_curve_point.go", PS+"oop.go"], [("copy on modification", "makeCopyWithParameters"), ("header copies", "headerSerializer.go")])
p("P15", "Arithmetic on private operands is isolated between goroutines",
  "Goroutines that compute on their own field elements and curve points, reading only the library's constants and normalised values that nobody modifies, get the results a single goroutine would get, whatever else runs: there are no data races, no hidden shared scratch space, and operands that are not the destination keep their value. This also holds in all cases where destination and operands are the same object, and for the first use of lazily prepared tables. Coordinates that make no valid point are refused with an error that carries them.",
  ["schedules", "programs"], "all interleavings of goroutines executing arithmetic programs on private operands and shared constants, from a cold start",
  "Tests run arithmetic in one goroutine.",
  [FE+"field_element_montgomery.go", FE+"field_element_square_root.go", FE+"field_element_batch.go", CP+"curve_point_xtw.go", CP+"batch_operations.go", "bandersnatch/exponents"], [("package-level constants and tables", "field_element_constants.go, field_element_square_root.go")])
p("P16", "Call counters give totals independent of registration and iteration order",
  "Whatever the order in which a hierarchy of call counters is created, attached, incremented, reset and reported, each counter's total is the number of its own increments plus and minus what the hierarchy's links prescribe, reports list every displayed counter with its total below its parent, once for each display root above it, and once as rest what a parent counts beyond its children if asked for, the structure report names every counter and marks exactly the hidden ones and those that were never created, and resetting sets all totals to zero. The result never depends on map iteration order; building the structure never duplicates or loses counters; forbidden calls (empty ids, creating a counter twice, incrementing one that was not created) are refused without effect, and looking up an unknown counter fails cleanly. In a build with call counters, each of the library's operations can be counted, and a program counts the sum of what its operations count.",
  ["histories", "programs"], "all orders of registration, all iteration orders of the registry, all sequences of operations",
  "Go randomises map iteration; a test run samples one order per iteration.",
  ["internal/callcounters/callcounters.go", FE+"field_element_montgomery.go"], [("registry", "callcounters.go")])
p("P17", "The fault-injecting buffer used by tests behaves as documented",
  "The buffer that injects I/O failures delivers or accepts data exactly up to its threshold and fails with the designated error from then on (and never earlier, an exhausted buffer just gives end of file), with later calls failing distinguishably as repeated, for every sequence of reads, writes, resets and content changes of every size; it never loses, duplicates or alters bytes, and reads and writes are counted separately.",
  ["histories", "fault_sequences"], "all sequences of operations, sizes and thresholds",
  "It is itself the test suite's fault injector and is tested with one sequence.",
  ["internal/testutils/failingIO.go"], [("thresholds", "FaultyBuffer.Read, FaultyBuffer.Write")])
p("P18", "Sampling depends on the supplied randomness only",
  "Random field elements, points and coordinate representations are a function of the random source passed in: the same source gives the same results in every goroutine, at any time and under any schedule, nothing is drawn from any global source or clock, samples are valid - also if the source is degenerate - and do not depend on which implementation of field elements is sampled, a source that fails affects only its user, and re-randomising a representation never changes the value.",
  ["schedules", "histories"], "all seeds and interleavings of sampling goroutines",
  "A single process with a fixed seed cannot show independence of schedule and of global state.",
  [CP+"curve_point_impl_sampling.go", FE+"utility.go", "internal/testutils/precomputation_meta.go"], [("random sources as arguments", "SetRandomUnsafe and friends")])
p("P19", "Failures are reported completely and independently of delivery",
  "What decoding and encoding (of numbers, points, batches and slices) report - counts, results, the text and the data of errors - depends on the bytes and on the place and kind of a failure only: not on the pieces in which a stream delivers the bytes, on whether a failure comes with the last bytes or after them, on delays, on the goroutine, or on whether a serializer, a copy of it or a deserializer made from it is used. Every error they return is complete: its message finds everything that it refers to and has no formatting problems, tells of the stream's own error, and what it stores under a name equals what the struct promised by its type has. Such errors can be shared by goroutines, which may print, query and extend them at the same time, and they stay the same whatever happens to the memory that was used for decoding and encoding.",
  ["fault_sequences", "schedules", "inputs"], "all formats, all objects (also damaged ones), all places and kinds of failures, all ways to deliver the same bytes, all interleavings of goroutines that share the errors",
  "Tests use one delivery and one goroutine, and rarely look at the texts and data of errors.",
  [PS+"utils.go", PS+"serialize_curve_point.go", PS+"serialize_curve_points.go", PS+"values_serializers.go", PS+"basic_serializers.go", FE+"field_element_serialize.go", FE+"uint256_serialize.go", "internal/errorTransform/error_transform.go", "internal/errorconsts/errorconsts.go"],
  [("errors of framing and bodies", "pointserializer/utils.go"), ("errors of batches and slices", "serialize_curve_points.go"), ("errors of numbers", "uint256_serialize.go")])
# not simulation targets
p("P50", "Field arithmetic is correct",
  "Addition, multiplication, inversion, square roots and conversions of field elements compute the mathematical result modulo the field's prime for all inputs and internal representations.",
  ["inputs"], "all field elements and representations", "The input space cannot be sampled exhaustively.",
  [FE+"field_element_montgomery.go", FE+"uint256_modular.go"], [("Montgomery arithmetic", "uint256_montgomery.go")])
p("P51", "Curve points form the documented group in all coordinate systems",
  "Addition, doubling, negation and comparison of curve points implement the group law of the curve (modulo the documented identifications) for all points and coordinate systems.",
  ["inputs"], "all points and coordinate systems", "Tests sample points.",
  [CP+"curve_point_xtw.go", CP+"curve_point_axtw.go", CP+"curve_point_doubleproj.go"], [("addition formulas", "curve_point_impl_*.go")])
p("P52", "Exponentiation is a homomorphism",
  "Exponentiating a point by an integer of any size and sign gives the same point as repeated addition, for all decompositions used.",
  ["inputs"], "all points and exponents", "Tests sample exponents.",
  ["bandersnatch/exponentiation.go", "bandersnatch/exponents"], [("GLV decomposition", "exponents")])
p("P53", "The message interpolation language is parsed as documented",
  "Every format string of the error message language is tokenised, parsed and interpolated as documented, malformed strings giving a description of the error.",
  ["inputs"], "all format strings", "Tests sample strings.",
  [EW+"formatting_parse.go", EW+"formatting_tokenize.go"], [("parser", "formatting_parse.go")])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
