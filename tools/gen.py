#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, st, over, quant, why, files, mech, note=None):
    P.append(dict(id=id, title=title, statement=st, over=over, quant=quant, why=why, files=files, mech=mech, note=note))
I, H, C, S, F = "inputs", "histories", "configurations", "schedules", "fault_sequences"
p("C01", "BitSet behaves as a finite set of bit numbers",
  "Every BitSet operation (set, clear, flip, and, or, xor, combined or-and, assignment, swap, membership, next set/clear bit, count, emptiness, equality, intersection test) gives the result of the same operation on a mathematical set of bit numbers. Equality and emptiness depend only on the members, never on how the set was built, and operations with the set itself as operand are correct.",
  [I, H], "for all sets (arbitrary word patterns, equal or different lengths), all bit numbers, and all pairs/triples of sets", "Unit tests use a few dozen fixed bit patterns; word-boundary and length-mismatch cases and their combinations are not covered.",
  ["src/misc/bitSet.cpp", "src/misc/pv/bitSet.h"], [("trailing zero words are trimmed", "BitSet::recalculateWordsInUse"), ("growth on demand", "BitSet::expandTo")])
p("C02", "BitSet wire encoding is canonical and round-trips",
  "Encoding a BitSet and decoding the bytes gives the same set, for either byte order and however the bytes arrive in pieces, and the encoding is the shortest one of the protocol. Decoding arbitrary bytes yields exactly the set they spell or fails, and a failed decode leaves a well-formed set.",
  [I, F], "for all sets, byte orders, fragmentations of the stream, and arbitrary or truncated byte strings", "Tests encode a handful of sets into one big buffer; partial delivery, truncated and non-canonical encodings are not exercised.",
  ["src/misc/bitSet.cpp"], [("length-prefixed words", "BitSet::serialize"), ("ensureData before use", "BitSet::deserialize")])
p("C03", "Size and string wire encoding round-trips for every value",
  "Every size (and the null marker) and every string survives writing and reading, in either byte order and for every split of the stream over send and receive buffers; the encoding is the protocol's shortest form. Reading arbitrary bytes either yields the value they spell or fails, and substrings are written clipped to the string.",
  [I, F], "for all sizes 0..2^31-1, all string contents and lengths around the encoding thresholds, all buffer splits, all substring offsets and counts", "Tests try a few sizes and strings in buffers that hold everything.",
  ["src/misc/serializeHelper.cpp", "src/misc/pv/serializeHelper.h"], [("three-form size prefix", "SerializeHelper::writeSize/readSize"), ("chunked copy", "SerializeHelper::serializeString/deserializeString")])
p("C04", "ByteBuffer access is exact and stays inside the limit",
  "A typed write stores exactly the value's bytes in the buffer's byte order at the position (or index), changes nothing else, and the matching read returns the value bit for bit; position, limit and remaining always agree. An access that does not fit between position (or index) and limit is refused.",
  [I], "for all values of all scalar types, all positions, limits and indices, both byte orders, arrays", "Tests use fixed values at fixed aligned positions and never probe the limits.",
  ["src/misc/pv/byteBuffer.h"], [("bounds assertions", "ByteBuffer::put/get"), ("byte swapping", "detail::swap")])
p("C05", "A value survives serialization bit for bit",
  "Deserializing the serialized form of any value into a container of the same type reproduces the value exactly, whatever the container held before, for every field type (scalars, strings, scalar/structure/union arrays, structures, unions, nested). This holds in either byte order and for every way the stream is split over send and receive buffers, and exactly the bytes that were produced are consumed.",
  [I, F, C], "for all values of each type, both byte orders, stale previous contents, fragmented and direct transports", "Round-trip tests use fixed values, one big buffer and no transport that splits or bypasses the buffer.",
  ["src/factory/PVField.cpp", "src/factory/PVDataCreateFactory.cpp", "src/factory/PVStructure.cpp", "src/factory/PVUnion.cpp", "src/factory/PVStructureArray.cpp", "src/factory/PVUnionArray.cpp"], [("per-type serialize/deserialize", "PVField::serialize/deserialize"), ("chunked array transfer", "PVValueArray<T>::serialize/deserialize")])
p("C06", "Partial structure updates transfer exactly the selected fields",
  "Serializing a structure with a bit mask and deserializing with the same mask makes every selected field (and everything inside a selected structure) equal to the sender's, leaves every other field of the receiver unchanged, and consumes exactly the bytes produced. A mask never causes access outside the structure.",
  [I, C], "for all masks, all field values on both sides, for structures with nested levels, both byte orders and split streams", "Tests use one or two fixed masks.",
  ["src/factory/PVStructure.cpp", "src/factory/PVField.cpp"], [("offset-indexed mask walk", "PVStructure::serialize/deserialize(..., BitSet*)")])
p("C07", "Type descriptions survive the wire and identify types faithfully",
  "Every type description that can be built decodes from its encoding to an equal description (same kinds, names, order, bounds, identifiers), in either byte order and for split streams. Distinct descriptions have distinct encodings.",
  [C, I], "for all type descriptions within a nesting/width bound, with arbitrary names and bounds", "Tests round-trip a few hand-written structures.",
  ["src/factory/FieldCreateFactory.cpp"], [("type code encoding", "Field::serialize / FieldCreate::deserialize")])
p("C08", "Arbitrary input bytes never corrupt or crash the receiver",
  "Feeding any byte string to the decoders of type descriptions, values, partial updates, bit sets and statuses either produces a well-formed object or reports an error by exception; it never reads or writes outside its buffers, never dereferences a wrong or null object and never aborts. Nothing that was accepted makes a later ordinary use of the object fail.",
  [I, F], "for all byte strings up to the stated length, both byte orders, complete or truncated", "Tests only decode well-formed input.",
  ["src/factory/FieldCreateFactory.cpp", "src/factory/PVUnion.cpp", "src/factory/PVStructure.cpp", "src/misc/status.cpp", "src/misc/bitSet.cpp", "src/misc/serializeHelper.cpp"], [("ensureData", "DeserializableControl"), ("type code validation", "FieldCreate::deserialize")])
p("C09", "Type construction validates names and equality is structural",
  "Building a structure or union type with an empty, ill-formed or duplicate member name is refused and any accepted type lists its members in order, found by name and index alike. Two type descriptions compare equal exactly when they describe the same type (kind, element type, bounds, identifier, member names, order and types).",
  [I, C], "for all member names of bounded length, all pairs of type descriptions in the enumerated grammar", "Tests check a few good and bad names and a few pairs.",
  ["src/factory/FieldCreateFactory.cpp", "src/factory/Compare.cpp"], [("name validation", "Structure/Union constructors"), ("compare", "operator==(Field)")])
p("C10", "Field offsets of a structure are consistent and lookups are exact",
  "In every structure value each field's offset, next offset, parent and full name agree with its position in a depth-first walk; looking a field up by offset or by dotted name returns exactly that field, and a name or offset that is not there is reported as absent and never yields another field.",
  [C, I], "for all structure shapes within a bound and all lookup strings and offsets", "Tests look up a few known names in fixed structures.",
  ["src/factory/PVStructure.cpp", "src/factory/PVField.cpp"], [("offset computation", "PVField::computeOffset"), ("name walk", "PVStructure::getSubFieldImpl")])
p("C11", "A union holds exactly the selected member",
  "After any sequence of selections, assignments and copies a union reports either no selection or exactly one member whose type is the one declared for that selector; impossible selectors, unknown names and values of the wrong type are refused and leave the union as it was.",
  [H, I], "for all histories of a bounded number of operations with arbitrary selectors, names and values", "Tests follow a few fixed sequences.",
  ["src/factory/PVUnion.cpp"], [("selector/value pair", "PVUnion::select/set")])
p("C12", "Declared string and array bounds always hold",
  "A bounded string never holds more characters, a bounded array never more elements and a fixed array never another number of elements than declared, whatever way a value is assigned, converted, copied or decoded; an assignment that would break the bound is refused and leaves the old value. (The raw storage exchange swap(), documented as unchecked, is not an assignment; a reception that fails half way may leave an array empty.)",
  [I, H], "for all values and lengths around the bound, through every public way to assign", "Tests try put() only, with one or two lengths.",
  ["src/pv/pvData.h", "src/factory/PVDataCreateFactory.cpp", "src/factory/PVField.cpp"], [("length check", "PVScalarValue<std::string>::put, checkLength")])
p("C13", "Copying gives equal, independent values and respects immutability",
  "Copying a value into a field of compatible type makes the two compare equal and later changes of one never show in the other; incompatible types are refused without change. Equality is reflexive and symmetric and differs when any single element, selector or member differs, and an immutable field cannot be changed through any assignment.",
  [I, C], "for all values of a set of types, all single-element differences, immutable or not", "Tests compare a few equal and unequal samples.",
  ["src/factory/Compare.cpp", "src/factory/Convert.cpp", "src/factory/PVStructure.cpp", "src/factory/PVField.cpp"], [("copy", "PVField::copy / copyUnchecked"), ("compare", "operator==(PVField)"), ("immutable flag", "PVField::setImmutable")])
p("C14", "Scalar conversions give the C++ cast value or fail",
  "Converting between any two scalar types - by getAs/putFrom, array conversion or cast - gives the value a C++ cast gives whenever the value is representable, for every element and independent of the route taken; conversion from text accepts exactly the numbers in range and otherwise fails without changing the target.",
  [I], "for all values of all source types to all target types, arrays of bounded length, texts of bounded length", "Tests convert a few values per pair.",
  ["src/misc/typeCast.cpp", "src/misc/pv/typeCast.h", "src/pv/pvData.h"], [("conversion table", "castUnsafeV"), ("template casts", "castUnsafe")])
p("C15", "Text to number parsing is exact",
  "Parsing a text as an integer type returns the number the text spells (decimal, octal or hexadecimal, optional sign, surrounding blanks allowed; a negative number given to an unsigned type wraps as in C), accepts only texts that spell a number in the type's range, and otherwise throws. A boolean is spelled true or false in any case and nothing else.",
  [I], "for all texts of bounded length, for each target type", "Tests try a list of sample texts.",
  ["src/misc/parseToPOD.cpp"], [("range-checked parse", "parseToPOD")])
p("C16", "Shared arrays keep their contents, bounds and ownership",
  "A shared array always shows exactly the elements that were put in it: slicing, resizing, reserving, pushing, freezing and thawing preserve the kept elements and never affect another array that shared the storage and later access stays within it. Freezing or thawing hands over the only reference or makes a private copy, so a read-only array never changes.",
  [H, I], "for all sequences of a bounded number of operations with arbitrary sizes, offsets and values", "Tests follow fixed scripts.",
  ["src/misc/pv/sharedVector.h"], [("unique ownership test", "shared_vector::unique/make_unique"), ("bounds bookkeeping", "shared_vector_base::slice/resize")])
p("C17", "Sub-array copy moves exactly the requested elements",
  "Copying count elements with given offsets and strides between arrays puts element k of the selection at its place in the destination and leaves every other destination element unchanged, extending the destination only as far as needed. Requests outside the source, with zero strides or mismatched types are refused without change.",
  [I], "for all offsets, counts, strides (small and near the word limits), lengths and values", "Tests copy one or two fixed ranges.",
  ["src/factory/pvSubArrayCopy.cpp"], [("range checks", "copy(PVValueArray...)")])
p("C18", "Time stamps stay normalized and add and compare correctly",
  "Every operation leaves the nanoseconds within a second; adding or subtracting whole or fractional seconds and differences give the exact time arithmetic, comparison is a total order that agrees with the represented instant, and conversions to EPICS time, time_t and milliseconds are mutually inverse.",
  [I], "for all seconds and nanoseconds in range and all increments", "Tests use a handful of instants.",
  ["src/property/timeStamp.cpp", "src/property/pv/timeStamp.h"], [("normalize", "TimeStamp::normalize")])
p("C19", "Property helpers write what they read and refuse wrong fields",
  "Storing an alarm, time stamp, control, display or enumeration through its helper and reading it back gives the stored value, other fields are untouched, and out-of-range values are refused. A helper attaches only to a structure that has the required fields and reports itself detached otherwise.",
  [I, H, C], "for all stored values and all structures from a family with fields missing or of wrong type", "Tests store and read back one value each.",
  ["src/property/pvAlarm.cpp", "src/property/pvTimeStamp.cpp", "src/property/pvControl.cpp", "src/property/pvDisplay.cpp", "src/property/pvEnumerated.cpp", "src/property/alarm.cpp"], [("attach checks", "PV*::attach")])
p("C20", "Status values survive the wire and stay valid",
  "A status decoded from its encoding has the same type, message and stack; the plain OK status takes one byte. Success means OK or warning, maximize keeps the worse of two, and no decoded status has an unknown type.",
  [I, H], "for all types, messages, byte strings and pairs of statuses", "Tests cover fixed statuses only.",
  ["src/misc/status.cpp", "src/misc/pv/status.h"], [("compact OK", "Status::serialize")])
p("C21", "Request parsing accepts exactly the request grammar",
  "A request text either produces the structure it spells - the requested fields nested by their dotted names, with their options and record options as given - or is refused with a message; it never crashes. Blanks are irrelevant.",
  [I], "for all request texts of bounded length over the grammar's characters, and structured families of longer ones", "Tests parse a list of sample requests.",
  ["src/copy/createRequest.cpp"], [("recursive descent", "CreateRequestImpl")])
p("C22", "A request mapper selects, copies and maps exactly the requested fields",
  "For a structure and a request the mapper's requested structure has exactly the selected fields, each mapped to the same field of the full structure; copying in either direction moves exactly the fields named in the bit mask and translates masks consistently in both directions.",
  [C, I], "for all requests from a family, all masks and values", "Tests use a few fixed requests and masks.",
  ["src/copy/requestmapper.cpp"], [("offset mapping tables", "PVRequestMapper::compute"), ("copyBaseToRequested / copyBaseFromRequested", "PVRequestMapper")])
p("C23", "JSON input and output match the structure",
  "Assigning JSON to a structure sets exactly the named fields to the given values and marks exactly them; unknown names, wrong kinds and malformed nesting are refused by exception and never crash or touch unrelated fields. Printing a value as JSON and parsing it back gives the same value.",
  [I], "for all event sequences of bounded length over a structure with every field kind, and all values", "Tests parse and print a few documents.",
  ["src/json/parseinto.cpp", "src/json/print.cpp", "src/json/parseany.cpp", "src/json/jprint.cpp"], [("field stack", "parseinto.cpp context"), ("yajl callbacks", "json")])
p("C24", "Builders make exactly the described value",
  "Values built with the value builder or the data factory have exactly the described type and initial contents, are independent of the originals they were cloned from, and a freshly created value of a type has the default contents and that type.",
  [C, I], "for all builder programs within a bound, all values cloned", "Tests build a few fixed structures.",
  ["src/factory/PVDataCreateFactory.cpp", "src/copy/valueBuilder.cpp", "src/factory/FieldCreateFactory.cpp"], [("createPVField", "PVDataCreate"), ("FieldBuilder / ValueBuilder", "add*/endNested")])
p("C25", "Mask compression keeps the meaning of the mask",
  "Compressing a field mask selects exactly the same leaf fields as before, uses a structure's bit instead of all its members' bits when everything below is selected, and tells correctly whether anything is selected.",
  [I, C], "for all masks over structures of a bounded shape", "Tests check a few masks.",
  ["src/pvMisc/bitSetUtil.cpp"], [("recursive check", "BitSetUtil::compress")])
p("C26", "Timer callbacks run when due, once per schedule, never after cancel",
  "A scheduled callback is called once (or once per period) not before its due time, in due order and as soon as the timer thread is free; after a successful cancel no further call begins, also when a periodic callback is being called meanwhile; closing the timer stops every pending callback with exactly one notification, and nothing is called after close returned. This holds for any interleaving of callers with the timer thread, including callbacks that schedule, cancel or close.",
  [S, H], "for all schedules of a bounded number of threads and operations under a virtual clock", "Tests run a few scripted timings on real time.",
  ["src/misc/timer.cpp", "src/misc/pv/timer.h"], [("sorted queue under a mutex", "Timer::run"), ("cancel handshake", "Timer::cancel")])
p("C27", "A dynamically typed scalar holds exactly the value assigned",
  "A dynamically typed scalar returns exactly the last value and type assigned, through any sequence of assignment, copy, swap and clear; conversion out follows the scalar conversion rules, type-mismatched references are refused, and text storage is neither leaked nor freed twice.",
  [H, I], "for all sequences of bounded length of assign, copy, swap, clear with arbitrary values", "Tests assign a few values.",
  ["src/misc/anyscalar.cpp", "src/misc/pv/anyscalar.h"], [("tagged storage", "AnyScalar")])
p("C28", "Locks, events, threads and reference counters keep their contracts",
  "A lock is held exactly from acquisition to release, also when an exception passes or a thread locks again; an event wakes one waiter per signal and remembers a signal until consumed; a thread has the name, priority, stack and code asked for, starts when asked, and its destructor waits for it; reference counters can be registered, read and compared, count the live objects of the library, and a monitor shows their changes once per period until stopped. All this whatever the interleaving.",
  [S, H], "for all interleavings of a bounded number of threads and operations, all counter values", "Tests run a few timings.",
  ["src/misc/event.cpp", "src/misc/reftrack.cpp", "src/misc/pv/lock.h", "src/misc/thread.cpp", "src/misc/pv/thread.h"], [("scoped lock", "Lock"), ("event", "Event"), ("thread description", "Thread::Config"), ("counter registry", "registerRefCounter / RefSnapshot / RefMonitor")])
p("C29", "Conversions between text lists and arrays are element-wise exact",
  "Converting arrays to and from lists of texts or a comma separated text moves exactly the requested elements in order, extends only as far as given, and refuses or stops at malformed elements without touching memory outside the arrays.",
  [I], "for all lists, offsets, counts and texts of bounded length", "Tests convert fixed lists.",
  ["src/factory/Convert.cpp"], [("split and parse", "Convert::fromString"), ("element loops", "Convert::fromStringArray/toStringArray")])

p("C30", "Structure and union arrays keep their elements through every change",
  "Appending, removing, compressing, resizing, reserving, replacing, copying and reusing an array of structures or unions keeps every element that is not asked to go, in order, removes exactly the elements asked for (or none, when they are not there), and adds new elements of the element type. Content handed out before a change stays as it was.",
  [H, I], "for all histories of a bounded number of operations, all offsets and counts, all patterns of null elements", "Tests append and remove one or two elements in fixed places.",
  ["src/factory/PVStructureArray.cpp", "src/factory/PVUnionArray.cpp"], [("copy on write of the element list", "PVStructureArray::append/remove/compress/setLength")])

p("C31", "Reference-tracking pointers own as shared_ptr does and list their owners",
  "The debugging variant of shared_ptr and weak_ptr keeps an object alive exactly as long as it has owners, through any history of creation, copy, assignment, cast, swap, reset and locking of weak pointers, and for every pointer lists exactly the pointers that own the same object now; also while other threads copy and drop such pointers.",
  [H, S], "for all histories of a bounded number of operations on a few pointers, and all interleavings of two threads", "Tests list the owners after a few steps.",
  ["src/misc/debugPtr.cpp", "src/misc/pv/debugPtr.h"], [("set of owners under a mutex", "shared_ptr_base::track_new/track_clear/swap")])
p("C32", "Types and shared objects of the library can be used from any thread",
  "Type descriptions can be created, used and released by several threads at once: equal types that live at the same time are one object, a type made while another thread releases an equal one is sound, and types go when nobody uses them. The shared objects of the library are made once and are usable whichever thread asks first; values of one type used by different threads do not disturb each other.",
  [S, H], "for all interleavings of two threads at lock operations, all kinds of types", "Tests use the library from one thread.",
  ["src/factory/FieldCreateFactory.cpp", "src/factory/PVDataCreateFactory.cpp", "src/factory/Convert.cpp", "src/factory/StandardField.cpp", "src/factory/StandardPVField.cpp", "src/property/alarm.cpp"], [("cache of weak references cleaned by destructors", "FieldCreate::Helper::cache / Field::cacheCleanup"), ("singletons", "getFieldCreate / getConvert / getStandardField")])
p("C33", "Printed text shows exactly the stored values",
  "Printing a value, a type, a part of a structure or one element of an array writes every part that was asked for, once, in order, with its name and the value stored, and nothing else; alarms, enumerated values and tables get their usual layout. Texts are quoted when they need to be, and quoted or escaped text is printable and gives the text back. Printing changes neither the value, nor the selection, nor the indentation of the stream.",
  [I], "for all texts and values of bounded size, all selections of fields, all kinds of types", "Tests print a handful of values.",
  ["src/factory/printer.cpp", "src/factory/PVDataCreateFactory.cpp", "src/factory/FieldCreateFactory.cpp", "src/factory/PVStructure.cpp", "src/factory/PVUnion.cpp", "src/factory/TypeFunc.cpp", "src/misc/anyscalar.cpp", "src/misc/bitSet.cpp", "src/misc/status.cpp"], [("escapes and quotes", "escape / maybeQuote"), ("selected printing", "printRaw / expandBS"), ("usual layouts", "printTable / printEnumT / printAlarmTx"), ("values", "dumpValue")])
p("C34", "Whole values in byte vectors",
  "serializeToVector appends exactly the encoding of a value, type, status or bit set to the vector, in the byte order asked for and however long it is, and leaves what was there before; deserializeFromVector and deserializeFromBuffer give back the same value, consume exactly its bytes, and refuse an incomplete encoding with an exception instead of reading past its end.",
  [I], "for all contents of values of bounded size, both byte orders, all previous contents of the vector, every place an encoding can be cut at", "Tests use one value of a few types and never fill the internal buffer.",
  ["src/misc/serializeHelper.cpp", "src/misc/pv/serialize.h", "src/misc/pv/byteBuffer.h", "src/misc/bitSet.cpp", "src/misc/status.cpp"], [("flushing into a vector", "ToString::flushSerializeBuffer"), ("exact input", "FromString::ensureData")])
p("C35", "Type names, type classes and defaults are consistent",
  "Every scalar type and every kind of type has exactly one name and the name names that type; unknown names and codes are refused; the classes integer, unsigned, numeric and primitive contain exactly the documented types; the member of a union guessed for a type has the kind asked for and exactly the type if there is one; a new value has the type it was made for and the default contents.",
  [I], "for all 32-bit type codes, all texts of bounded length as names, all unions of bounded size, all kinds of types", "Tests check some of the names.",
  ["src/factory/TypeFunc.cpp", "src/factory/FieldCreateFactory.cpp", "src/factory/PVDataCreateFactory.cpp", "src/pv/pvIntrospect.h", "src/pv/pvdVersion.cpp"], [("names", "TypeFunc / ScalarTypeFunc"), ("guessing a member", "Union::guess"), ("new values", "PVDataCreate::createPVField")])
p("C36", "Test helpers and exceptions report what happened",
  "A test made with the helpers passes exactly when its condition holds, is reported exactly once, with its text line by line, and never ends the program because a field is missing or has another type; an exception thrown with the library's macros is caught as what it is, tells its message and where it was thrown.",
  [I], "for all operands of bounded size, all shapes of the structure, all messages of bounded length", "The helpers are used by all tests and tested by none.",
  ["src/misc/pvUnitTest.cpp", "src/misc/pv/pvUnitTest.h", "src/misc/pv/epicsException.h", "src/misc/epicsException.cpp"], [("one result per helper", "detail::testPassx"), ("field comparison", "testFieldEqual"), ("origin of an exception", "THROW_EXCEPTION2 / BaseException::what")])

NA = json.load(open(V + "/tools/not_applicable.json")) if os.path.exists(V + "/tools/not_applicable.json") else {}
def main():
    with open(V + "/properties.jsonl", "w") as f:
        for q in P:
            assert len(q["title"]) <= 80, q["title"]
            f.write(json.dumps({"id": q["id"], "title": q["title"], "statement": q["statement"], "quantifier": {"over": q["over"], "text": q["quant"]}, "why_tests_cant": q["why"],
              "anchors": {"files": q["files"], "mechanism": [{"name": a, "where": b} for a, b in q["mech"]]}}) + "\n")
    checks, na = [], []
    for q in P:
        if q["id"] in NA: na.append({"property": q["id"], "reason": NA[q["id"]]}); continue
        if not os.path.exists("%s/harness/%s.cpp" % (V, q["id"])): na.append({"property": q["id"], "reason": "no check built yet"}); continue
        checks.append({"property": q["id"], "quick_cmd": "python3 check.py run %s --tier quick" % q["id"], "thorough_cmd": "python3 check.py run %s --tier thorough" % q["id"],
          "technique": "symbolic execution of the real code (compiled to instrumented LLVM IR), every branch and assertion decided by Z3; counterexamples replayed natively",
          "level": "model_checking",
          "level_note": "Holds for every input within the bounds stated in the harness header and in the evidence (bounds, assumptions); nothing is claimed outside them. Trusted: clang, the instrumentation and its libc/libCom models (sample paths are re-run on the native build), Z3."})
    m = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks, "not_applicable": na, "notes": "One harness file per property in /verif/harness; engine in /verif/engine; see DESIGN.md."}
    json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
main()
import sys; sys.path.insert(0, V + "/tools"); import design; design.write(P)
