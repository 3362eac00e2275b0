#!/usr/bin/env python3
"""Writes known_findings.json: fixes committed in /repo (with their commits) and recorded findings."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIX = { # subject of the fix commit (after "fix: ") -> property
 "BitSet::deserialize leaves a malformed set when the data is incomplete": "C02",
 "SerializeHelper::serializeSubstring writes the substring, not only its size": "C03",
 "ByteBuffer indexed put/get must not access beyond the limit": "C04",
 "PVValueArray::deserialize loses the value received by direct transfer": "C05",
 "partial serialization of structure and union arrays reads past the end": "C05",
 "comparing type descriptions ignores string and array bounds": "C09",
 "FieldCreate::deserialize accepts arrays of structures or unions whose element is something else": "C08",
 "PVUnion::deserialize takes any selector and leaves an inconsistent union on failure": "C08",
 "received values may exceed the bound of a bounded string or array": "C12",
 "fixed string array serialized with the wrong number of elements": "C05",
 "TimeStamp arithmetic leaves nanoseconds outside 0..999999999": "C18",
 "comparing TimeStamps more than 292 years apart overflows": "C18",
 "Status::deserialize accepts unknown status types": "C20",
 "shared_vector::reserve drops elements of a shared array when asked for less than its size": "C16",
 "shared_vector::at accepts the index one past the end": "C16",
 "sub-array copy reads past the source, overflows and over-extends the destination": "C17",
 "fields put into a structure keep the offsets they had on their own": "C10",
 "cloning a structure as PVField takes the members away from the original": "C24",
 "cloning a scalar or scalar array drops its string or array bound": "C24",
 "cloning a union without a selection dereferences a null pointer": "C24",
 "setLength of structure and union arrays loses the content when the length does not change or is refused": "C30",
 "removing elements of structure and union arrays overflows offset+number": "C30",
 "splitting a comma separated list takes too many characters per value": "C29",
 "an array value enclosed in [] is not recognised": "C29",
 "converting a text list fails when the array is longer than the list": "C29",
 "fromStringArray aborts when the list is too short": "C29",
 "toStringArray applies the destination offset to the source": "C29",
 "converting a list of texts to a structure reads past the list and loses its place after an array": "C29",
 "Convert::toLong truncates to 32 bits": "C29",
 "a new fixed size array has no elements and cannot be copied or serialized": "C12",
 "a failed array conversion always reports element 0": "C14",
 "comparing a variant union that has a value with an empty one dereferences null": "C13",
 "PVDisplay::isAttached reports the opposite": "C19",
 "PVEnumerated::choicesMutable reports the opposite": "C19",
 "attaching a property helper ends the earlier attachment also when it fails": "C19",
 "PVTimeStamp::set stores the wrong time over a time stamp that was not normalized": "C19",
 "PVAlarm::set stores half of an alarm with a bad status, and refuses a good alarm over a bad one": "C19",
 "alarm and time stamp helpers write to an immutable status or user tag": "C19",
 "ValueBuilder leaks a field replaced by an array": "C24",
 "ValueBuilder::add does not compile for an array of a given type": "C24",
 "parseJSON loses its place in the structure when an array is expected and not given, or given twice": "C23",
 "parseJSON adds to arrays instead of assigning them, and cannot assign arrays of fixed size": "C23",
 "createRequest ignores record options of one or two characters": "C21",
 "createRequest accepts a list of fields that ends with a comma": "C21",
 "createRequest takes a field whose name ends like a section for that section": "C21",
 "createRequest accepts text that follows the options of a field": "C21",
 "PVRequestMapper accepts an invalid request below the top level": "C22",
 "PVRequestMapper takes the options of a requested field for a selection below it": "C22",
 "PVRequestMapper in Mask mode aborts on a mask with fields which are not selected": "C22",
 "Timer waits too long after a slow callback": "C26",
 "Timer::close notifies callbacks which were cancelled meanwhile": "C26",
 "Timer aborts when a callback schedules itself as periodic": "C26",
 "Timer::cancel has no effect on a periodic callback while it is called": "C26",
 "Timer::close drops a periodic callback which is being called": "C26",
 "Thread::Config::name() followed by << overwrites the name": "C28",
 "epicsRefSnapshotCurrent() always gives an empty string": "C28",
 "swapping two debug shared_ptr to the same object drops one from the list": "C31",
 "debug shared_ptr made from unique_ptr is not tracked": "C31",
 "NULL debug shared_ptr from a cast or lock() is listed as reference": "C31",
 "data race between debug shared_ptr and show_refs()": "C31",
 "escape() prints the digit 9 of a \\x escape as '@'": "C33",
 "printing a sub-structure lost all of its fields": "C33",
 "printJSON() of a sub-structure with a mask printed nothing": "C23",
 "AnyScalar of byte or boolean type is printed as a raw character": "C33",
}
KNOWN = [
 dict(id="immutable-scalar-put", property="C13", what="PVScalarValue<T>::put() on a field made immutable with setImmutable() changes the value (PVField documents an immutable field as one that does not allow changes); not repaired because copyUnchecked, reception and every derived helper store through put()"),
 dict(id="immutable-array-replace", property="C13", what="replace() on an immutable scalar, structure or union array changes the value although pvData.h documents 'Fails for Immutable arrays'; not repaired because copyUnchecked and putFrom, used on immutable destinations, go through replace()"),
 dict(id="immutable-union-select", property="C13", what="PVUnion::select()/set() on an immutable union changes its selection and value; not repaired because copyUnchecked goes through select()/set()"),
]
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines()
out, seen = [], set()
for l in log:
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "): continue
    s = s[5:]
    if s not in FIX: print("no property for fix:", s); continue
    seen.add(s); out.append(dict(status="fixed", property=FIX[s], commit=h, what=s, line="fixed: property=%s %s %s" % (FIX[s], h, s)))
for s in FIX:
    if s not in seen: print("not in /repo:", s)
out += [dict(status="known", **k) for k in KNOWN]
json.dump(out, open(os.path.join(V, "known_findings.json"), "w"), indent=1); open(os.path.join(V, "known_findings.json"), "a").write("\n")
