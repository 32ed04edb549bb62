import json
R="runtime/src/zserio/"
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,observe,state=None,hook=None):
    a={"files":[R+f if not f.startswith("runtime") else f for f in files],"mechanism":[{"name":n,"where":R+w if not w.startswith("runtime") else w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":R+w} for n,m,w in state]
    P.append(dict(id=id,title=title,statement=stmt,quantifier={"over":over,"text":qtext},why_tests_cant=why,anchors=a))

p("S01","Bit stream returns exactly what was written, at exact bit positions",
 "Any sequence of writes of fixed-width integers, booleans, floats, variable-length integers, strings, byte sequences and bit buffers, starting at any bit offset, produces exactly the big-endian most-significant-bit-first bits of those values, touches no other bit, and advances the write position by exactly the encoded length. Reading the same sequence back from the same offset returns exactly the written values and advances the read position identically; a writer without a buffer advances identically to one with a buffer.",
 ["inputs","histories"],"every sequence of typed writes/reads/seeks/alignments, every starting bit offset, every bit width 1..64, every value",
 "Tests use a handful of values, mostly starting at offset 0 with one op kind per stream; the interaction of word-cache refills, offsets, widths and op kinds is unbounded.",
 ["BitStreamWriter.cpp","BitStreamWriter.h","BitStreamReader.cpp","BitStreamReader.h"],
 [("partial byte merge loops","BitStreamWriter.cpp:writeUnsignedBits32Impl"),("word cache","BitStreamReader.cpp:loadCacheNext/readUnsignedBitsImpl")],
 ["buffer content and getBitPosition() after every public call"],
 [("bitIndex/cache","read position and the 64-bit read-ahead cache","BitStreamReader.h:ReaderContext")])
p("S02","Stream operations never cross the buffer end; a rejected one changes nothing",
 "A read, write, seek or alignment that would pass the end of the stream's bit capacity, or whose bit count or value is out of range, is rejected with an exception; every operation that fits succeeds. No bit outside the stream's buffer is ever read or written, and a rejected fixed-width operation or seek leaves position and contents as they were, so that the stream keeps behaving as if it had not been attempted.",
 ["inputs","histories"],"every buffer bit length (including lengths that are not whole bytes or words), every op sequence with rejected operations in between, every alignment",
 "Tests check that an exception is thrown, once, at byte-sized buffer ends, and drop the stream afterwards; behaviour of the stream after a rejected operation is never exercised.",
 ["BitStreamWriter.cpp","BitStreamReader.cpp"],
 [("capacity check","BitStreamWriter.cpp:checkCapacity"),("end-of-stream check in cache refill","BitStreamReader.cpp:readUnsignedBitsImpl"),("seek check","BitStreamReader.cpp:setBitPosition")],
 ["exception or not, getBitPosition(), guard bytes around the buffer, subsequent reads"])
p("S03","Variable-length values have the documented wire format for every value",
 "Every variable-length integer is encoded in the smallest number of bytes with the documented continuation/sign bit layout of its kind, strings and byte sequences are a variable-size length followed by the bytes, and bit buffers a bit length followed by exactly that many bits. Decoding any bit string yields exactly the value that layout defines, or is rejected when the value exceeds its kind's range or the stream ends.",
 ["inputs"],"every value of each of the nine variable-length kinds, and every byte string fed to their decoders",
 "Tests sample boundary values of round trips (write then read), which cannot see a symmetric deviation from the wire format nor non-canonical encodings.",
 ["BitStreamWriter.cpp","BitStreamReader.cpp","SizeConvertUtil.cpp","BitSize.h"],
 [("variable-length encoder","BitStreamWriter.cpp:writeVarNum"),("variable-length decoders","BitStreamReader.cpp:readVar*")],
 ["bytes produced, values decoded, exceptions"])
p("S04","Computed bit sizes equal the bits really written; out-of-range values refused",
 "For every value of every built-in type the computed bit size equals the number of bits that writing it produces, at every offset. A numeric value outside its type's range is refused by the range-checked construction, by validation before writing and by the bit size computation; the lower and upper bounds themselves are accepted.",
 ["inputs"],"every built-in type, every value in and around its bounds, every dynamic bit width",
 "Tests compare a few values to literal constants; equality of three independently coded tables (size, writer, range) over all values is not tested.",
 ["BitSize.h","Types.h","Types.cpp","BitFieldUtil.cpp","BitStreamWriter.cpp"],
 [("size tables","BitSize.h"),("range tables","Types.h:NumericLimits"),("range checks","Types.h:RangeChecker")],
 ["bit size, writer position delta, exceptions"])
p("S05","Float conversions are exact for every bit pattern and round correctly",
 "Reading a 16-, 32- or 64-bit float yields the number its IEEE 754 bit pattern denotes, for every pattern including subnormals, infinities, signed zeros and NaNs. Writing a 32- or 64-bit float stores the value's own bit pattern; converting a single-precision value to half precision rounds to nearest (ties away from zero, magnitudes below the smallest subnormal to zero, too large ones to infinity) and keeps sign, zero, infinity and NaN.",
 ["inputs"],"all 65536 half patterns and all single/double patterns",
 "Tests check a dozen constants; rounding ties, subnormal boundaries and NaN payloads are unsampled.",
 ["FloatUtil.cpp","BitStreamReader.cpp","BitStreamWriter.cpp"],
 [("bit manipulation conversions","FloatUtil.cpp")],["converted bit patterns"])
p("A01","Arrays of every kind, layout and alignment encode and decode exactly",
 "An array written as normal, auto-sized, fixed/implicit, byte-aligned or packed, at any bit offset, occupies exactly its computed bit size, aligned elements start on byte boundaries with the offset recorded for each element being its true byte position, and it decodes to an equal array leaving the position right behind it. For implicit arrays the length is what fits in the remaining bits.",
 ["inputs","configurations"],"every element type, length, offset, layout and alignment combination",
 "Tests use short arrays at offset 0 with smooth values; combinations of layout x alignment x offset x element kind are not enumerated.",
 ["SerializeUtil.h","ArrayTraits.h","DeltaContext.h","BitPositionUtil.h"],
 [("array read/write/bitSizeOf/initializeOffsets","SerializeUtil.h:detail::*Array*")],["bits, positions, sizes, recorded offsets, decoded values"])
p("A02","Packed arrays use delta coding exactly when smaller, with the documented layout",
 "A packed array's descriptor says packed if and only if delta coding is smaller than plain coding and the largest delta fits the limit; packed elements are the first value in plain form followed by signed deltas of the smallest common width that hold every consecutive difference (none when all are equal). Decoding any packed bit stream reconstructs first value plus running sum of deltas, for every integer type, with 64-bit differences handled without loss.",
 ["inputs","histories"],"every sequence of values of every integral type incl. extreme differences, booleans, enums, bitmasks, dynamic bit fields",
 "Tests cover monotone sequences and a few constants; the interplay of delta width, size break-even and extreme values is not sampled.",
 ["DeltaContext.h","ArrayTraits.h"],
 [("init/bitSizeOf/write/read state machine","DeltaContext.h")],["bits, sizes, decoded values"],
 [("delta context","previous element, max delta width, packed flag","DeltaContext.h")])
p("A03","Corrupted or truncated array data cannot exhaust memory or break the reader",
 "Decoding an array whose declared length is larger than the data never allocates more than the configured preallocation limit before the shortage is detected, and ends with an exception; decoding arbitrary bytes as strings, byte sequences, bit buffers and arrays either yields a value consistent with those bytes or throws, never crashing or reading outside the input.",
 ["inputs","configurations"],"every truncated or corrupted input, every preallocation limit",
 "Tests check two hand-written corrupted lengths.",
 ["SerializeUtil.h","BitStreamReader.h"],[("bounded reserve","SerializeUtil.h:readArray"),("length check before allocation","BitStreamReader.h:readBytes")],["bytes allocated, exceptions, decoded values"])
p("T01","Objects validate, serialize to their predicted size and decode equal",
 "Serializing an object yields exactly the bits its schema defines, of exactly the predicted bit size, and deserializing yields an equal object with an equal hash; inconsistent objects (missing or unexpected optional, wrong choice or union branch, out-of-range value, wrong parameter) are rejected before anything is written. Deserializing any truncated or corrupted input is either rejected or gives an object that re-serializes consistently, without crashing.",
 ["inputs","programs"],"every object value of the schema-generated types: structures, choices, unions, parameterised types, optionals, arrays, enums, bitmasks",
 "Tests serialize a few fixed objects.",
 ["SerializeUtil.h","View.h","DataView.h","Optional.h","runtime/test/test_object/std_allocator/CreatorObject.cpp"],
 [("top-level serialize/deserialize","SerializeUtil.h"),("validation","SerializeUtil.h:detail::validate")],["serialized bits, exceptions, equality, hash"])
p("C01","Optional holds exactly the last value assigned, through every lifecycle step",
 "After any sequence of construction, assignment, emplacement, reset, swap, copy and move, including ones that throw and self-assignments, an optional is engaged exactly when the sequence says so and holds exactly that value, whether stored inline or on the heap. Every contained object constructed is destroyed exactly once, access to a disengaged optional is reported, and comparisons follow the ordering in which empty is smallest.",
 ["histories","fault_sequences"],"every interleaving of operations over several optionals with equal and unequal memory resources, small/large/recursive contents and exceptions at any element operation",
 "Tests check one operation at a time on a fresh object.",
 ["Optional.h","Optional.cpp"],[("storage policies","Optional.h"),("copy/move/assign paths","Optional.h:BasicOptional")],["hasValue, value, live object count, memory resource balance"])
p("C02","Variant holds exactly one alternative, the one last set",
 "After any sequence of construction, emplacement, assignment, swap, copy and move, including ones that throw, a variant reports the index of the alternative last set and holds its value, and access to any other alternative is rejected; if setting an alternative failed it reports being valueless and stays usable. Visiting calls the visitor with the active alternative, equal variants compare equal (reflexively) and hash equally, and each contained object is destroyed exactly once.",
 ["histories","fault_sequences"],"every operation history over several variants, with small and heap-stored alternatives and exceptions at any element operation",
 "Tests check single operations from fixed states.",
 ["Variant.h","Variant.cpp"],[("index + heap/in-place storage","Variant.h:BasicVariant")],["index, get/get_if results, live object count, memory balance"])
p("C03","Any holds exactly the last value with its type; wrong-type access is refused",
 "After any sequence of construction, assignment, emplacement, reset, swap, copy and move, including ones that throw, the container is empty or holds exactly the last stored value and type; access with another type is refused with an exception and never reinterprets memory. Each stored object is destroyed exactly once.",
 ["histories","fault_sequences"],"every operation history over several containers, types stored in place and on the heap",
 "Tests check single operations from fixed states.",
 ["Any.h"],[("type-erased holders","Any.h:detail::NonTypedHolder/HeapHolder")],["hasValue, isType, get, live object count, memory balance"])
p("C04","Memory goes back to the resource it came from, propagated as configured",
 "Every block obtained from a memory resource by optionals, variants, any-containers, unique pointers, bit buffers, strings and generated objects is returned to the very same resource, exactly once, with the same size and alignment, through every copy, move, swap, assignment and exception. Copy construction and assignments use the resource that the allocator's propagation settings select, and objects created with a given resource take all their memory from it.",
 ["histories","configurations","fault_sequences"],"every operation history over containers bound to different resources, allocation failing at any point",
 "Tests use one or two resources with fixed scenario; allocation failure is not tested.",
 ["UniquePtr.h","AllocatorHolder.h","Any.h","Optional.h","Variant.h","ppmr/PropagatingPolymorphicAllocator.h","RebindAlloc.h"],
 [("deleter with allocator","UniquePtr.h"),("propagation traits","AllocatorHolder.h")],["allocation log of each resource"])
p("V01","Bit buffers compare, order and hash by their bits only",
 "A bit buffer equals another exactly when both have the same number of bits and those bits are equal, whatever the unused trailing bits of the last byte are; equal bit buffers hash equally and the order is the lexicographic order of the bits, a prefix being smaller, hence a strict total order consistent with equality. Constructing with a bit size exceeding the storage is refused, and copies and moves preserve contents and leave the source usable.",
 ["inputs","histories"],"all bit sizes, all contents incl. garbage in unused bits",
 "Tests compare three or four buffers.",
 ["BitBuffer.h"],[("masked last byte compare","BitBuffer.h")],["==, <, hash, size, data"])
p("V02","Equality, ordering and hashing of data objects agree with each other",
 "For generated data objects, their views, built-in values, optionals, variants and arrays, equality is reflexive, symmetric and field-wise, the less-than relation is the field-wise lexicographic strict order consistent with it, and equal values have equal hash codes that do not vary between runs. Floats compare as IEEE 754 numbers (so a NaN is unequal to everything, and zero equals negative zero, with the same hash). Fields excluded by optionality or the active branch do not influence the result of views.",
 ["inputs"],"all pairs and triples of objects over small field domains",
 "Tests compare hand-picked pairs.",
 ["BuiltInOperators.h","HashCodeUtil.h","Types.h","Optional.h","Variant.h","View.h"],[("field-wise comparison and hashing","BuiltInOperators.h, HashCodeUtil.h")],["results of ==, !=, <, <=, >, >= and hash"])
p("J01","JSON tokenizing follows the grammar with true positions, for any chunking",
 "For any JSON text the token sequence, token values and the line and column of every token and error are those of the grammar, independent of how the input is split into reads, of buffer size and of white space (lines end with CR, LF or CR LF; control characters other than NUL are literal within strings). Malformed text is reported as an error at its position and never silently skipped, accepted as end of input, or crashes.",
 ["inputs","schedules"],"every text over the JSON alphabet (valid and invalid) and every way of splitting it into reads",
 "Tests run some texts with default chunking and compare few positions.",
 ["JsonTokenizer.h","JsonDecoder.h","JsonParser.h"],[("chunk refill and resume","JsonTokenizer.h:decodeNext/checkEof"),("decoder","JsonDecoder.h")],["token kinds, values, line/column, exceptions"],
 [("token position","line/column of current and last token","JsonTokenizer.h")])
p("J02","JSON scalar values decode and encode exactly",
 "Every string of Unicode code points is encoded with the required escapes so that it is valid JSON and decodes to the same bytes; every integer of up to 64 bits decodes to its exact value with the documented signed/unsigned type and anything outside is rejected; finite floating point values are encoded with a fraction or exponent and decode to the same value, any decimal decodes to the nearest double; escapes (\\u only for single bytes, 00 to FF), exponents, true/false/null and special floats decode as the decoder's grammar says (JSON plus NaN, INFINITY and some lenient number forms). A truncated or malformed value is reported as such with the number of characters consumed.",
 ["inputs"],"every byte string given to the decoder, every string/number given to the encoder",
 "Tests use fixed literals.",
 ["JsonDecoder.h","JsonEncoder.h","JsonEncoder.cpp"],[("decode/encode","JsonDecoder.h, JsonEncoder.cpp")],["decoded value, type, consumed count, encoded text"])
p("J03","Objects written as JSON read back equal, enum and bitmask formats included",
 "Writing any object as JSON (with any indentation and enum/bitmask format) and reading it back by its type yields an equal object; the text written is well-formed JSON with one key per set field in schema order. A reader reads the consecutive objects of its stream, each independent of those before. Reading a JSON text with unknown fields, wrong types, out-of-range numbers, unknown enum items or syntax errors is rejected with an exception, after which the reader starts anew at the text that follows. (Spare bits behind the end of a bit buffer are no part of its value.)",
 ["inputs","configurations","histories"],"every object value x indentation x enum format x bitmask format; every mutation of the text",
 "Tests compare fixed object texts.",
 ["JsonWriter.h","JsonReader.h","ZserioTreeCreator.h"],[("writer as walk observer","JsonWriter.h"),("reader adapters over tree creator","JsonReader.h")],["text, read object, exceptions"])
p("W01","Walking visits every set field once, in order, properly nested, as filters allow",
 "A walk over any object emits exactly one event per visible field and array element, in schema order, with begin/end events balanced and array indices exact; unset fields are reported as null values and choice/union only through the active branch. Depth, regular-expression, array-length and combined filters suppress exactly the nodes their definition says, and an observer's or filter's refusal only prunes that subtree or stops siblings as documented.",
 ["inputs","configurations"],"every object shape and every filter/observer response history",
 "Tests walk two or three fixed objects with a few filters.",
 ["Walker.h","WalkerConst.h","IWalkFilter.h","IWalkObserver.h"],[("recursive walk","Walker.h:Walker::walkFields"),("filters","Walker.h")],["sequence of observer and filter calls"])
p("R01","Tree creator accepts exactly the legal call sequences and builds that object",
 "The tree creator accepts a call exactly when its current state and the type allow it and rejects every other call with an exception without being corrupted; the object returned at the end contains exactly the values set. Value conversion accepts exactly the convertible types and in-range values and enum/bitmask names it knows.",
 ["histories","inputs"],"every sequence of begin/set/add/end calls with valid and invalid names, values and nesting",
 "Tests check the happy path and a fixed set of single illegal calls.",
 ["ZserioTreeCreator.h","ZserioTreeCreator.cpp"],[("state machine","ZserioTreeCreator.h")],["exceptions, getFieldType/getElementType, resulting object"],
 [("state","BEFORE_ROOT/IN_COMPOUND/IN_ARRAY and work stack","ZserioTreeCreator.h")])
p("R02","Reflection reads, writes and finds exactly the underlying fields",
 "Through reflection, getting a field by name or dotted path returns the object's own value, setting it changes exactly that field, and unknown names, wrong types and out-of-range numbers are rejected or yield nothing without changing the object. Conversions to numbers and text are accepted exactly when they lose nothing the interface promises, constant access cannot modify, and deep comparison is equal exactly when the values are equal (floating point numbers: up to a few units of rounding).",
 ["inputs","histories"],"every field path, value and value type of the reflectable objects, every sequence of get/set",
 "Tests exercise each accessor a few times.",
 ["ReflectableData.h","IReflectableData.h","ReflectableUtil.h","IntrospectableDataBase.h"],[("accessors","ReflectableData.h"),("deep comparison","ReflectableUtil.h:equal")],["returned values, exceptions, object state"])
p("R03","Type information and read-only views mirror the schema and the data",
 "Type information reports for every built-in type its schema name, kind, C++ type and bit size, and for a descriptor of any kind exactly what it was made of, directly or through a recursive descriptor; questions which do not belong to the kind are refused with an exception, and the category predicates are right for every kind and consistent with each other. Read-only introspection of a view returns the same values, parameters, choice, array elements and function results as the view itself, step by step or by dotted path, serializes every part to its bits, and rejects non-existing names, wrong types and indices beyond the end; it allocates from the given allocator only.",
 ["inputs","configurations"],"all schema kinds and built-in types, all type descriptors, all objects of the generated schema with valid and invalid values, all paths",
 "Tests check a fixed sample of descriptors and one object.",
 ["TypeInfo.h","TypeInfoUtil.cpp","IntrospectableView.h","ITypeInfo.h"],[("descriptor tables","TypeInfo.h"),("predicates","TypeInfoUtil.cpp"),("introspectable views and path lookup","IntrospectableView.h")],["type info getters, introspectable getters"])
p("Q01","SQLite connections and transactions are opened, ended and closed exactly once",
 "A connection object owns at most one database handle, closes an owned handle exactly once and an external handle never, and refuses use when it has none. Starting a transaction begins one only when none is active and tells whether it did; ending commits only when told that it was begun, so that rows become visible to others exactly by the commit and vanish with the handle otherwise. Executing and preparing statements report errors as exceptions and leave the connection usable with all statements finalised.",
 ["histories","fault_sequences"],"every sequence of reset, query, prepare, begin, end and nested transactions, with failing statements in between",
 "Tests run each method once.",
 ["SqliteConnection.h","SqliteFinalizer.h","SqliteException.h"],[("connection type and transaction flag","SqliteConnection.h")],["sqlite autocommit state, handle validity, table contents, exceptions"])
p("Q02","SQL values and schema checks are stored, read and reported exactly",
 "A value bound to a statement column is stored in the storage class of its type and read back equal for every built-in type, enumeration, bitmask and compound (except NaN, which SQLite stores as null); texts may contain any byte, and empty texts and objects of no bits are values, not null. Schema validation reports exactly the columns, types, nullability, primary keys, row counts and hidden columns that the named (or else the first matching) database really has, for tables and columns named by plain identifiers.",
 ["inputs"],"all column types and values; all small table schemas",
 "Tests bind a few values and inspect two tables.",
 ["SqliteUtil.h","ValidationSqliteUtil.h"],[("bind/read","SqliteUtil.h"),("pragma parsing","ValidationSqliteUtil.h")],["values read, reported schema"])
p("F01","Files written are exactly the bytes given and read back the same",
 "Writing a buffer to a file replaces the file's content with exactly those bytes (a trailing partial byte included) at exactly the given name, and reading it returns a buffer of that file's size and content. Any failure to open, size, read or write is reported as an exception and never yields partial data silently.",
 ["inputs","fault_sequences"],"all buffer sizes and names, missing/unreadable/unwritable targets, full device",
 "Tests write one small file.",
 ["FileUtil.cpp","FileUtil.h","SerializeUtil.h"],[("stream IO","FileUtil.cpp")],["file content, exceptions"])
p("X01","Exception messages are the appended text, bounded and always terminated",
 "An exception's message is the concatenation of everything appended to it, in order, with numbers, booleans and enumerations in their textual form, cut off at the fixed capacity and always terminated; appending never overruns the message. Copies hold the same text independently.",
 ["inputs","histories"],"every sequence of appends of all supported kinds and lengths around the capacity",
 "Tests append a few strings.",
 ["CppRuntimeException.cpp","CppRuntimeException.h","StringConvertUtil.h"],[("bounded append","CppRuntimeException.cpp:append")],["what()"])
p("N01","Integers, booleans and floats convert to their exact text",
 "Every integer of every width converts to its canonical decimal text including the minimum and maximum values, booleans to true/false, and floats to a text of their integral part with the fractional digits truncated or an overflow/infinity mark as documented. Nothing is written outside the conversion buffer.",
 ["inputs"],"all integers of all widths, floats around powers of ten and overflow limits",
 "Tests convert six values.",
 ["StringConvertUtil.h"],[("two-digit table conversion","StringConvertUtil.h")],["text produced"])
p("E01","Enumerations and bitmasks map names, values and ordinals one to one",
 "For every enumeration the mappings between item, name, ordinal and underlying value are mutually inverse over exactly the schema's items, and any other name, ordinal or value is rejected; on the wire only valid items are read or written. Bitmask operators are the bitwise operations on the underlying value, values outside the underlying type's range are refused by validation, and the text form lists exactly the named values that are set.",
 ["inputs"],"all names, ordinals and underlying values of all generated enumerations and bitmasks",
 "Tests check some items.",
 ["Enums.h","Bitmasks.h","runtime/test/test_object/std_allocator/ReflectableEnum.cpp"],[("trait tables","Enums.h"),("operators","Bitmasks.h")],["mapping results, exceptions, bits"])
p("P01","Array views and spans address exactly the elements of their data",
 "A span's or array view's size, element access, front/back, sub-ranges, iterators and their arithmetic and comparisons designate exactly the elements of the underlying sequence in order; checked access outside the range is refused. Iterating forward, backward or by jumps visits each element exactly once, and array views hand each element to its view with the correct index-dependent parameters.",
 ["inputs","histories"],"all lengths and sub-ranges, every sequence of iterator movements",
 "Tests use a fixed array of few elements.",
 ["Span.h","ArrayView.h"],[("iterator arithmetic","ArrayView.h")],["elements reached, exceptions, distances"])
p("X02","Extended fields and data-owning views keep value and presence through histories",
 "An extended field carries its presence beside its value: it is present when made, presence changes only when told, setting or reading the value does not change it, and both travel together through copies, moves and assignments (with the given allocator where one is given). Two extended fields are compared by presence first and by value only if both are present, consistently with their hash; generic access reaches the innermost value. A data view owns what it was built or read from: it shows the same data, parameters, nested views and bits after its source changed or went away and through any history of copies and moves, independently of other views; building it from invalid data or from bits which do not decode is refused and leaves nothing behind.",
 ["histories","inputs"],"all histories of construction, copy, move, assignment and presence changes; all objects of the generated schema, valid, invalid and corrupted",
 "Tests cover present and absent once and copy a view once.",
 ["Extended.h","DataView.h","GenericAccessor.h","SerializeUtil.h"],[("presence flag and value","Extended.h"),("owned data and rebinding of the view","DataView.h"),("access through wrappers","GenericAccessor.h")],["presence, values, comparisons, hashes, parameters, bits, exceptions, allocations"])
p("N02","Numeric wrappers compute like their value types and know their bounds",
 "A numeric wrapper holds exactly the value it is given and converts back to it; increments, decrements, compound assignments and comparisons give exactly what the built-in operations of its value type give and return the wrapper itself (the post-forms the old value), through any sequence of operations. The limits of every type, of floats (smallest normal and largest finite number) and of bit fields of any length are exact, impossible lengths and sizes which do not fit are refused. A dynamic bit field viewed with its number of bits is ordered by bits and value, consistently with its hash, and is validated and written as exactly that many bits.",
 ["inputs","histories"],"all values and operation sequences of all numeric wrapper types, all bit lengths",
 "Tests evaluate a few constant expressions.",
 ["Types.h","View.h","BitFieldUtil.cpp","SizeConvertUtil.cpp"],[("wrapper operators and limits","Types.h"),("dynamic bit field views","View.h"),("bit field bounds","BitFieldUtil.cpp")],["values after operations, returned values, limits, comparisons, hashes, exceptions"])
p("U01","Service data delivers exactly the bytes and the object it was made of",
 "Service data made of an object delivers exactly the bits that object serializes to, padded with zeros to whole bytes, on every call, whether it is serialized at once or only when asked; an invalid object is refused when it has to be serialized. If made for introspection it shows exactly that object, else no introspection is offered. Bytes which are held are delivered as given, a view delivers what the viewed bytes are at that time. Service data is independent of its source and of its copies, through any history of changes, copies, moves and assignments.",
 ["histories","inputs"],"all histories of making, copying, moving, assigning and dropping service data of every kind; all objects of the generated schema, valid or not",
 "There are no tests of service data.",
 ["IService.h","SerializeUtil.h","IIntrospectableView.h"],[("service data classes","IService.h")],["bytes, introspected object, exceptions"])
p("G01","Generated C++ code implements exactly the schema it was generated from",
 "For every valid schema the code generator emits C++ that compiles and whose types, validation, sizes and wire format follow the language definition.",
 ["programs"],"all valid zserio schemas and generator options",
 "The repository only contains one generated object set; generator tests need the Java toolchain.",
 ["extension"],[("FreeMarker templates","extension")],["generated sources"])
for x in P:
    if x["id"]=="G01": x["anchors"]["files"]=["extension"]; x["anchors"]["mechanism"]=[{"name":"FreeMarker templates and emitters","where":"extension"}]
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        jsonschema.validate(x,s); f.write(json.dumps(x)+"\n")
print(len(P))
