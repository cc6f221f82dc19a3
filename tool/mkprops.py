import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    anchors={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: anchors["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: anchors["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":anchors})
H="include/dart/heap/";B="include/dart/buffer/";K="include/dart/packet/";D="include/dart/"

p("C01","Mutating one value never changes another value that shares its storage",
 "Copies of a mutable value share storage until one of them is changed. Every operation that changes an object or array (insert, set, erase, clear, resize, push, pop, inject and everything built on them) first gives the value a private copy of any storage it shares, so no other value, and no iterator held on another value, ever observes the change. A value whose storage is not shared is not copied.",
 ["histories","inputs"],"every sequence of copies and mutations, through every public mutator and every smart pointer the container is built with",
 "Tests share a value and mutate it through a few mutators; the guarantee is about every mutator, every overload and every private helper they reach.",
 [H+"detail.tcc",H+"api.tcc",H+"array.tcc",H+"object.tcc",K+"api.tcc",K+"array.tcc",K+"object.tcc"],
 [("private copy taken when the reference count says shared",H+"detail.tcc copy_on_write"),("call before the container is written",H+"api.tcc insert/set, "+H+"array.tcc erase, "+H+"object.tcc erase_key_impl")],
 [("reference-counted map/vector","storage shared between values",D+"../dart.h basic_heap::data")],["value read back through another copy after a mutation"])

p("C02","A finalized value rejects every mutation and its bytes never change",
 "Once a value is in its finalized (flat network buffer) form, every mutating operation on it fails with the state error (or, when an argument is itself unusable, such as an iterator of another representation or a key that is no string, with that argument's error), leaves it finalized and changes nothing. No operation anywhere in the library writes to the bytes of an already built buffer, or hands out a way to write to them.",
 ["histories","inputs"],"every mutator of the dual-mode value, in the finalized state, and every code path that can reach a built buffer",
 "Tests call a handful of mutators on finalized values; the guarantee covers all of them, and the absence of any write path to shared bytes, which a test cannot observe unless it owns the other reader.",
 [K+"api.tcc",K+"array.tcc",K+"object.tcc",K+"detail.tcc",B+"detail.tcc",B+"api.tcc",D+"common.h","include/dart.h"],
 [("state check",K+"detail.tcc get_heap"),("buffers are stored and handed out as pointers to const bytes","include/dart.h basic_buffer, "+B+"api.tcc get_bytes/dup_bytes/share_bytes")])

p("C03","No exception crosses the C interface; each failure becomes its documented code",
 "No function of the C interface lets a C++ exception escape or terminates the process because one was thrown below it: a failure always comes back as an error code. A type error, a state error, a parse error, any other logic error, any other runtime error and anything else each yield their own documented code, the message is recorded for the calling thread, and success yields the success code.",
 ["inputs","fault_sequences"],"every exported function, every argument, and every exception that any library or allocation call underneath can raise",
 "Tests of the C interface exercise a few wrong-type calls; whether every one of several hundred exported functions contains every exception of every callee is a whole-program fact.",
 ["src/helpers.h","src/generic.cc","src/heap.cc","src/buffer.cc"],
 [("catch-all wrapper that maps exception classes to codes","src/helpers.h err_handler"),("noexcept bridge functions","src/helpers.h *_access")])

p("C04","Failed C interface calls yield a usable value and the right error code",
 "A C interface function that returns a value by itself returns the library's valid null value when the operation fails, and the operation's result otherwise, never an uninitialised structure. A function that takes an output structure and reports an error code reports the code of the operation that actually failed: no failure of an inner call is dropped or replaced by success.",
 ["inputs","fault_sequences"],"every exported function and every failure of the operation underneath it",
 "The uninitialised or unchecked path is taken only when the inner operation fails, which tests provoke for a few functions only.",
 ["src/generic.cc","src/heap.cc","src/buffer.cc","src/helpers.h"],
 [("null fallback on error","src/generic.cc, src/heap.cc, src/buffer.cc value-returning wrappers"),("error propagation","src/helpers.h")])

p("C05","Validating untrusted bytes never reads outside the given range",
 "Checking whether a block of bytes is a well formed buffer reads only inside the range the caller passed, whatever the bytes are: every header, table entry, key and value is shown to lie inside the range, and to be suitably aligned, before any field of it is read.",
 ["inputs"],"every byte sequence and length, including truncated, hostile and self-overlapping ones",
 "A fuzzer samples inputs; one missing comparison is only visible for inputs that put exactly that field at the end of the range.",
 [D+"common.h",D+"object.tcc",D+"array.tcc",D+"string.tcc",D+"primitive.tcc",D+"api.tcc"],
 [("recursive bounds-checked walk",D+"common.h valid_buffer"),("per-type checks",D+"object.tcc, "+D+"array.tcc, "+D+"string.tcc, "+D+"primitive.tcc is_valid")])

p("C06","Bytes that pass validation can be traversed without leaving the range",
 "If validation accepts a block of bytes as a buffer, then every later operation that follows the buffer's own structure (its sizes, counts, tables, offsets, key and string lengths, terminators and type tags) stays inside it. In particular validation accepts nothing unless it has checked every structural quantity that the reading operations rely on, for every entry at every level.",
 ["inputs"],"every byte sequence the validator accepts, and every accessor",
 "Only a hostile buffer that breaks exactly the unchecked quantity shows a missing check; ordinary buffers never do.",
 [D+"common.h",D+"object.tcc",D+"array.tcc",D+"string.tcc",D+"primitive.tcc"],
 [("validator checks sizes, table, offsets, tags and recurses into key and value",D+"object.tcc is_valid, "+D+"array.tcc is_valid"),("readers rely on them",D+"object.tcc, "+D+"array.tcc, "+D+"string.tcc")])

p("C07","Reading a value as the wrong type is always reported, never reinterpreted",
 "An operation that needs a particular dynamic type (object, array, string, integer, decimal, boolean) raises the type error when the value has any other type, in every representation and in every overload. Stored bytes or alternatives are only ever interpreted as the type the value currently has, so no operation reads memory as a different type. (A checked lookup may report out of range first, an unusable argument's own error may be reported instead, and a lookup by generic key follows the key's type.)",
 ["inputs","histories"],"every typed accessor, in mutable, finalized and dual-mode values, on every dynamic type",
 "Tests call some accessors on some wrong types; the guarantee is per accessor, per representation and per dynamic type.",
 [H+"primitive.tcc",H+"string.tcc",H+"detail.tcc",H+"api.tcc",H+"object.tcc",H+"array.tcc",B+"detail.tcc",B+"api.tcc",B+"object.tcc",B+"array.tcc",D+"common.h"],
 [("type test before the alternative is read",H+"detail.tcc get_fields/get_elements"),("tag test before the layout is dereferenced",D+"common.h get_object/get_array/aggregate_deref/...")])

p("C08","Operations declared not to throw never raise an error of their own",
 "An operation the library declares as non-throwing completes for every value: it never reaches one of the library's own error raising statements with nothing to stop it, which would terminate the process.",
 ["inputs","histories"],"every function declared noexcept and every value it can be called on",
 "Termination needs the particular wrong-typed or empty value to reach the particular non-throwing wrapper.",
 [D,"include/dart.h","src/helpers.h"],
 [("non-throwing try_ accessors guard throwing ones",H+"detail.tcc try_get_fields"),("catch-all in maybe_as",H+"api.tcc")])

p("C09","All the orderings of object keys agree, for every pair of keys",
 "Every place that orders or looks up object keys uses one and the same total order: the mutable map, the sorters used when a buffer is built from JSON, from key/value pairs or by merging, and the search in a finished buffer. Hence a key present in an object is found in it, whatever bytes the key contains (including bytes above 127 and long keys) and whichever way the object was built.",
 ["inputs","programs"],"every pair of keys (lengths and bytes) and every route by which an object is built and then searched",
 "A disagreement shows only for particular pairs of keys (equal lengths, particular bytes, boundary lengths) landing in the same object.",
 [D+"common.h",D+"common.tcc",D+"object.tcc",D+"connector/json.tcc"],
 [("comparator of the map and of the pair sorter",D+"common.h dart_comparator"),("sorter of parsed JSON members",D+"object.tcc object(rapidjson::Value)"),("search and its prefix shortcut",D+"object.tcc get_key, "+D+"common.tcc prefix_compare")])

p("C10","Strings and keys are byte sequences with explicit length; embedded NULs survive",
 "A string or key keeps its exact bytes and length through every operation: building, parsing, finalizing, definalizing, merging, projecting, looking up and comparing. No operation measures a string by searching for a NUL byte or compares strings up to one.",
 ["inputs"],"every string, including ones with NUL bytes anywhere, through every public route",
 "Tests use ordinary text; a NUL byte in the particular operation is needed to notice the truncation.",
 [D+"object.tcc",D+"array.tcc",D+"string.tcc",D+"common.h",D+"connector/json.tcc",D+"connector/yaml.tcc",H+"string.tcc","src/helpers.h"],
 [("explicit length views",D+"support/string_view.h"),("length prefixed layout",D+"string.tcc")])

p("C11","The network format has one fixed little-endian layout on every host",
 "Every multi-byte quantity stored in or read from a buffer is little-endian, and every structure laid over buffer bytes has the fixed size, field offsets and packing of the published format, independent of the compiler and of the configuration it was built in.",
 ["configurations","inputs"],"every stored scalar, header and table entry, on little- and big-endian hosts",
 "The tests run on one little-endian host, on which a native-endian field is indistinguishable from a correct one.",
 [D+"common.h",D+"support/ordered.h",D+"support/ordered.tcc"],
 [("endian-aware scalar wrapper",D+"support/ordered.h"),("layout structures",D+"common.h object/array/basic_string/primitive/vtable_entry/prefix_entry")])

p("C12","Every part of the library agrees on the wire type table",
 "For each wire type, the tag, the dynamic type it presents as, its alignment, its encoded size, the layout written when a value is finalized, the layout read back, and the one validation applies are those of the same layout, in every place that decides on the tag. A string or number is given a wire type wide enough to hold it.",
 ["inputs","programs"],"every wire type and every dispatch on it",
 "Each dispatch is a separate switch; a wrong arm only shows for values of that wire type going through that particular route.",
 [D+"common.h",D+"common.tcc",H+"detail.tcc",D+"connector/json.tcc",B+"detail.tcc",D+"object.tcc",D+"array.tcc"],
 [("tag dispatches",D+"common.h alignment_of/find_sizeof/valid_type/generic_deref/simplify_type"),("writer",H+"detail.tcc get_raw_type/layout/upper_bound"),("parser",D+"connector/json.tcc json_identify/json_lower")])

p("C13","Every byte of a built buffer is determined by its contents",
 "Equal contents built the same way give byte-identical buffers: memory that becomes a buffer is completely initialised before the contents are laid out in it, so padding never carries leftover memory and bytewise comparison and hashing of buffers are meaningful.",
 ["inputs","histories"],"every route that builds a buffer (finalizing, parsing, merging, projecting, injecting, realigning) and every allocator state",
 "Freshly mapped memory is usually zero, so a missing initialisation passes any test and any single run.",
 [B+"detail.tcc",B+"api.tcc",B+"object.tcc",H+"api.tcc",D+"common.h",D+"connector/json.tcc",D+"api.tcc"],
 [("zero fill after allocation",D+"common.h aligned_alloc and its callers"),("layout constructors clear padding",D+"object.tcc, "+D+"array.tcc, "+D+"common.h pad_bytes")])

p("C14","Contents too large for the format are rejected, never truncated",
 "A key longer than the format's key length field, or an aggregate larger than its size field, is rejected with an error on every route that builds a value or a buffer. No length, count, size or offset is ever silently narrowed into the format.",
 ["inputs"],"every key length and aggregate size, on every building route (insertion, JSON, YAML, pairs, merge, C interface)",
 "It takes 64 KiB keys or gigabyte aggregates, on each route separately, to see a wrap-around.",
 [H+"api.tcc",H+"detail.tcc",D+"common.h",D+"object.tcc",D+"connector/json.tcc",D+"connector/yaml.tcc"],
 [("key length check",H+"api.tcc insert/set, "+D+"connector/json.tcc"),("size check",H+"detail.tcc upper_bound")])

p("C15","Reading shared values from several threads touches no shared mutable state",
 "Operations that do not change a value write nothing but their own locals, their results and reference counts, so values whose reference counts are thread-safe can be read and copied concurrently without synchronisation. The only process-wide mutable state is per-thread error reporting.",
 ["schedules"],"every const operation, every schedule of concurrent readers",
 "A data race shows under particular schedules only and the tests are single threaded.",
 [D,"include/dart.h","src/helpers.h","src/generic.cc"],
 [("const-correctness without mutable members","include/dart.h, "+D+"common.h"),("thread-local error message","src/helpers.h errmsg")])

p("C16","Smart pointers keep exact reference counts and destroy exactly once",
 "Each owner of a shared resource adds exactly one to its reference count while it lives: copying adds one, moving transfers, assigning (also to itself) and destroying release one, and the resource is destroyed exactly when the last owner goes. Views never touch the count.",
 ["histories","schedules"],"every sequence of copies, moves, swaps, assignments, resets and destructions, including self-assignment",
 "Tests check a few counts; leaks, double releases and self-assignment need particular sequences.",
 [D+"support/ptrs.tcc",D+"support/ptrs.h",D+"refcount_traits.h"],
 [("intrusive pointer operations",D+"support/ptrs.tcc"),("uniform access to foreign pointers",D+"refcount_traits.h")])

p("C17","Acquired resources are released exactly once on every path, also on errors",
 "Whatever a function acquires (raw aligned memory, parser and event objects of the YAML library, file or token state) is released exactly once, or handed to an owner, on every way out of it, including the ways that raise an error. Memory is released with the function that matches how it was allocated.",
 ["fault_sequences","inputs"],"every exit of every function that acquires a resource by hand",
 "Leaks and mismatched releases on error exits are invisible to functional tests.",
 [D+"connector/yaml.tcc",D+"common.h","src/helpers.h","src/buffer.cc",B+"api.tcc","src/generic.cc"],
 [("scope guard for the parser",D+"connector/yaml.tcc"),("owning pointers with the matching deleter",D+"common.h, "+D+"shim.h")])

p("C18","No result ever depends on an uninitialised variable",
 "Every local variable, member and output structure has been given a value on every path before it is read, returned or handed on, so results never depend on leftover memory.",
 ["inputs"],"every path through every function of the library and the C interface",
 "Leftover memory often holds a plausible value, so tests pass; the unset path (missing key, empty range, failed call) is rarely taken.",
 [D,"include/dart.h","src"],
 [("definite assignment",D+"object.tcc get_it/get_key_it and all functions with uninitialised locals")])

p("C19","A strongly typed wrapper always holds a value of its type",
 "However a strongly typed wrapper (object, array, string, number, flag, null) is created or assigned from another value, it refuses with the type error any value of another type, so a live wrapper never holds one.",
 ["inputs","programs"],"every constructor, conversion and assignment of every wrapper over every representation",
 "Tests try some wrong types on some wrappers; the guarantee is per constructor and per representation.",
 ["include/dart.h"],
 [("type check in the constructors","include/dart.h basic_object/basic_array/basic_string/basic_number/basic_flag/basic_null")])

p("C20","Unsafe uses are rejected at compile time",
 "Programs that would mutate through a non-owning view or an immutable buffer, assign to the temporary a subscript yields, or keep a view of a temporary value do not compile, for every representation and smart pointer.",
 ["programs"],"every program using the public API in one of these ways",
 "A test that compiles cannot show that something does not compile.",
 ["include/dart.h",D+"common.h",D+"refcount_traits.h"],
 [("deleted and constrained members","include/dart.h")])

p("C21","A mutation that fails leaves the value unchanged",
 "When a mutating operation reports an error of the library (wrong type, missing key, out of range index, oversized key, finalized value), the contents of the value are what they were before the call.",
 ["inputs","histories"],"every mutator and every error it reports",
 "Tests check that the error is raised, rarely that nothing changed, and only for a few mutators.",
 [H+"api.tcc",H+"array.tcc",H+"object.tcc",K+"api.tcc",K+"array.tcc",K+"object.tcc"],
 [("checks precede the write",H+"api.tcc insert/set/erase")])

p("C22","Malformed JSON or YAML is always reported, never half accepted",
 "Every failure status of the underlying JSON and YAML parsers is checked before the parsed result is used, and is reported to the caller as the parse error. No prefix of a malformed document is returned as a value.",
 ["inputs"],"every input text and every parser entry point, in C++ and through the C interface",
 "Tests feed a few malformed documents; each entry point has its own status to check.",
 [D+"connector/json.tcc",D+"connector/yaml.tcc",D+"api.tcc",B+"api.tcc",H+"api.tcc","src/generic.cc","src/heap.cc","src/buffer.cc"],
 [("status checks after each parse",D+"connector/json.tcc, "+D+"connector/yaml.tcc")])

p("C23","Out of range and missing lookups have one defined outcome everywhere",
 "Looking up a missing key or an index past the end never touches storage outside the collection. The plain lookup gives null, the checked lookup raises the out-of-range error, the defaulting lookup gives the default, identically in every representation.",
 ["inputs"],"every index and key, every lookup operation, every representation",
 "Tests use a few indices; an off-by-one on one representation reads past the end only at the boundary.",
 [H+"array.tcc",H+"object.tcc",B+"array.tcc",B+"object.tcc",K+"array.tcc",K+"object.tcc",D+"array.tcc",D+"object.tcc"],
 [("bounds tests before element access",H+"array.tcc get/at/front/back, "+D+"array.tcc get_elem/at_elem"),("end test before key access",D+"object.tcc get_value/at_value")])

p("C24","Building a buffer never writes past the memory reserved for it",
 "The space reserved before laying out a value covers everything the layout writes: headers, one table entry per member plus terminator, every key and value with the worst-case alignment padding of each, and final padding, for every contents and every building route.",
 ["inputs"],"every contents and every building route",
 "An overflow needs contents whose padding exceeds the slack left by other rounding, and then corrupts memory silently.",
 [H+"detail.tcc",D+"object.tcc",D+"array.tcc",D+"common.h",B+"object.tcc",B+"api.tcc",D+"connector/json.tcc"],
 [("reservation",H+"detail.tcc upper_bound, "+D+"common.h sort/merge/inject/project reservation"),("layout",D+"object.tcc, "+D+"array.tcc constructors")])

p("C25","Parsing what was printed gives back the same value",
 "Rendering a value as JSON or YAML text and parsing it again yields an equal value, and finalizing then definalizing yields an equal value, including every number.",
 ["inputs"],"every value","Values are unbounded; round trips are sampled.",
 [D+"connector/json.tcc",D+"connector/yaml.tcc",H+"api.tcc"],[("writer and reader",D+"connector/json.tcc")])
p("C26","Numbers keep their value across representations and conversions",
 "An integer or decimal stored in the narrowest wire type that fits is read back with the same value, and arithmetic and comparison on typed numbers equal those of the machine type.",
 ["inputs"],"every number","Tests sample numbers.",
 [D+"common.h",D+"operators.tcc",D+"conversion_traits.h"],[("narrowing rule",D+"common.h identify_integer/identify_decimal")])
p("C27","Equality is an equivalence relation across all representations",
 "Comparing values for equality is reflexive, symmetric and transitive across mutable, finalized, dual-mode, typed and native values, and equal values have equal contents.",
 ["inputs"],"every pair and triple of values and representations","Pairs of representations and contents are unbounded.",
 [D+"conversion_traits.h",D+"conversions.h",D+"common.h"],[("comparison dispatch",D+"conversion_traits.h")])
p("C28","Iteration visits every element exactly once, keys matching values",
 "Walking an object or array in any representation visits each element exactly once, in order, with key and value iterators in step, forwards and backwards.",
 ["inputs"],"every collection","Sizes and contents are unbounded.",
 [D+"iterator.tcc",D+"object.tcc",D+"array.tcc"],[("iterators",D+"iterator.tcc, "+D+"object.tcc begin/end")])
p("C29","Concurrent last releases destroy a shared value once",
 "When several threads drop the last references to a value at once, the value is destroyed once and after every other access.",
 ["schedules"],"every schedule","Schedules cannot be enumerated by tests.",
 [D+"support/ptrs.tcc"],[("atomic counter",D+"support/ptrs.tcc")])
p("C30","Parsing and validating hostile input needs bounded stack and time",
 "Parsing or validating any input uses stack and time bounded by a modest function of its length.",
 ["inputs"],"every input","Only hostile nesting shows it.",
 [D+"common.h",D+"object.tcc",D+"array.tcc",D+"connector/json.tcc"],[("recursion",D+"common.h valid_buffer")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
from jsonschema import Draft202012Validator as V
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: V(s).validate(x)
print(len(P), max(len(x['title']) for x in P))
for x in P:
    n=x['statement'].count('. ')+1
    if n>3: print(x['id'],n)
