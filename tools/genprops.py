import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,state=None):
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    assert len(title)<=80,(id,title); P.append(d)
I=["inputs"]; IP=["inputs","programs"]; PR=["programs"]
CODEC=["decoder.go","encoder.go","structstack.go","field.go"]
p("C01","Full-width scalars are laid out at declared width in the byte order in effect",
 "Every integer, float and complex field without a bit count occupies exactly its declared width; Pack emits the value's bytes in the byte order in effect, most significant bit first when the field does not start on a byte boundary, and Unpack reconstructs the identical value, bit for bit (NaN payloads included). Plain int and uint count as 32-bit fields. This holds for every value, every native/binary type pairing of the same signedness, and every starting bit position.",
 IP,"all values of all scalar kinds, both byte orders, all 8 starting bit positions",
 "The suite checks a few literal values at byte-aligned positions; values, orders and alignments multiply to far more cases.",
 CODEC,[("fixed width read/write helpers","decoder.go read8..read64, encoder.go write8..write64"),("kind dispatch","decoder.go read, encoder.go write"),("size table","structstack.go fieldbits")])
p("C02","A field with a bit count of n occupies exactly n bits and round-trips",
 "An integer field declared with n bits contributes exactly the n low bits of its value to the encoding and nothing else: Pack places them contiguously after the preceding field, neighbouring fields' bits are unaffected, and Unpack of an unsigned field returns exactly those n bits zero-extended. Big-endian fields store the bits most significant first; little-endian fields store whole bytes least significant first with the remaining high bits last.",
 IP,"all values, all widths 1..63 of all integer kinds, all 8 starting positions, both byte orders",
 "Tests cover a handful of widths, mostly big endian and starting at aligned positions.",
 CODEC,[("bit cursor","decoder.go readBits/readBit, encoder.go writeBits/writeBit"),("bit indexing","putBit/getBit")],[("bit cursor","number of bits already used in the current byte, always 0..7","decoder.bitCounter / encoder.bitCounter")])
p("C03","Signed bit fields decode to their two's complement value",
 "Unpacking a signed integer field of n bits yields the two's complement interpretation of those n bits, so a negative value whose magnitude fits n bits survives Pack followed by Unpack; unsigned fields are never sign-extended. (Signed 8-bit-wide fields with a bit count are a recorded exception.)",
 IP,"all n-bit patterns of int16, int32, int64, rune and int fields, all widths and positions",
 "Only a few positive sample patterns are tested; the sign bit is one of many data bits.",
 ["decoder.go"],[("sign extension","decoder.go extend16/extend32/extend64")])
p("C04","Booleans: zero is false, true encodes as 1, variant as all ones, inverted flips",
 "A boolean field decodes to true exactly when any of its encoded bits is set, and the inverted flag negates that. Encoding true yields the number 1, or all ones of the field's width with the variant flag; false yields 0; the inverted flag exchanges the two encodings. This holds for every boolean-compatible binary type and bit width.",
 IP,"both truth values, all bit patterns, all flag combinations and binary types",
 "Tests fix a few type/flag pairs and one value each.",
 ["decoder.go","encoder.go","tag.go"],[("bool mapping","decoder.go setUint/setInt, encoder.go intFromField/uintFromField"),("flag parsing","tag.go parse")])
p("C05","Skips and padding move the cursor by exactly their size and encode as zero",
 "A skip of N bytes, and a padding field named underscore, consume exactly their declared number of bits on Unpack and emit exactly that many zero bits on Pack from whatever bit position they start at, leaving all other fields' positions and bits correct.",
 IP,"all skip counts, padding widths and starting bit positions, all data",
 "Tests use byte-aligned skips and few padding widths; the carry of the bit cursor depends on both.",
 CODEC,[("cursor skipping","decoder.go skipBits, encoder.go skipBits"),("padding size","structstack.go fieldbits")])
p("C06","Reported size, packed length and consumed bits always agree",
 "For any value, BitSize equals the number of bits Pack writes and the number of bits Unpack consumes for the same data; SizeOf is that number rounded up to bytes and is the length of the slice Pack returns. This covers every combination of nesting, arrays, slices, strings, pointers, bit widths, skips, conditions and switches.",
 IP,"all declared shapes and all values of them",
 "The size computation is a second implementation of the layout, written separately from the encoder and the decoder; tests compare them only on the shapes they list.",
 ["structstack.go","field.go","packing.go","encoder.go","decoder.go"],[("size computation","structstack.go fieldbits/switcbits"),("buffer allocation","packing.go Pack"),("constant-size shortcut","field.go isTypeTrivial")])
p("C07","A byte-order option governs its field and descendants and nothing after it",
 "A byte-order option applies to the field that carries it, to all elements and nested fields below it unless they carry their own, and never to any following sibling or to fields of the enclosing structure; without an option the order passed by the caller applies, which may be any little or big endian implementation of binary.ByteOrder, binary.NativeEndian included. Encoding and decoding use the same rule, including for the order handed to custom marshalers.",
 IP,"all nestings of order options, conditions and switches",
 "Scope leakage needs specific sibling/nesting sequences that tests do not enumerate.",
 ["decoder.go","encoder.go","tag.go"],[("order save/restore","decoder.go read, encoder.go write")],[("order","byte order in effect","decoder.order / encoder.order")])
p("C08","Conditional fields are present exactly when their condition holds",
 "A field with a condition is encoded, decoded, sized and skipped-over exactly when the condition evaluates to true on the enclosing structure; otherwise it contributes no bits (its skip included) and its destination is left as it was. This applies to every kind of field, including custom marshalers and switches.",
 IP,"all values of the controlling fields, all kinds of conditional fields, in all three operations",
 "Each of the three traversals decides presence separately; tests exercise one or two field kinds.",
 ["decoder.go","encoder.go","structstack.go"],[("condition evaluation","structstack.go evalIf"),("uses","decoder.go read, encoder.go write, structstack.go fieldbits")])
p("C09","A switch processes exactly the first matching case, else the default",
 "A switch structure encodes, decodes and sizes exactly one member: the first whose case value equals the switch value (numeric literals match integer values of any width), otherwise the default member if there is one, otherwise nothing. After decoding, all other members are zero. A second default or a member that is neither case nor default is reported as an error.",
 IP,"all switch values and case lists, in all three operations",
 "Case selection is implemented three times; tests pick few selector values.",
 ["decoder.go","encoder.go","structstack.go"],[("case selection","decoder.go switc, encoder.go switc, structstack.go switcbits")])
p("C10","Count fields and the data they count stay consistent",
 "With sizeof/sizefrom links, Pack writes the current length of the counted slice or string into its count field and Unpack reads exactly as many elements as the count says, whichever end carries the option and whatever ignored or unexported fields surround them. A length that does not fit the count field is an error, never a truncated count. Several counts may be linked to one field (all are written; decoding goes by the last one declared) and one count may be shared by several fields; data whose length differs from a shared count, or that has no count present, is rejected rather than encoded wrongly.",
 IP,"all lengths and counter types, all positions of linked fields in a structure",
 "Tests link adjacent fields with small counts only.",
 ["field.go","decoder.go","encoder.go"],[("link resolution","field.go fieldsFromStruct"),("count read/write","decoder.go read, encoder.go write")],[("links","index of counter and of counted field","field.SIndex/field.TIndex")])
p("C11","Size, bits and while expressions control element and bit counts exactly",
 "A slice or string with a size expression decodes exactly that many elements and refuses to encode any other length; a bits expression sets the field width exactly like a literal bit count; a while expression decodes elements as long as it is true when evaluated before each element. The expressions see the already processed fields of the enclosing structure.",
 IP,"all values of the fields the expressions mention",
 "Tests use one value per expression.",
 ["structstack.go","decoder.go","encoder.go"],[("expression hooks","structstack.go evalSize/evalBits/evalWhile")])
p("C12","Fields are processed once each in declaration order; ignored ones untouched",
 "Every exported, non-ignored field of a structure is encoded and decoded exactly once in declaration order, at any nesting depth; unexported fields and fields tagged as ignored contribute no bits and are never modified.",
 IP,"all field lists and all data",
 "Order and uniqueness are checked on a few hand-written structures.",
 ["field.go","decoder.go","encoder.go"],[("field table","field.go fieldsFromStruct"),("traversal","decoder.go read, encoder.go write")])
p("C13","Truncated input is always rejected",
 "Unpack returns an error whenever the input is shorter than the value being decoded requires, at every possible truncation point and for every kind of field including skips, padding, strings, counted data and partially available bit fields; it never succeeds with made-up data. A count of fixed-size elements that the remaining input cannot hold is rejected before memory for the elements is set aside, however large the count.",
 IP,"every shape, every truncation length, all data and counts",
 "Tests try a single short buffer per path at most.",
 ["decoder.go","packing.go"],[("bounds","decoder.go readBits/readBit/readBytes/skipBits"),("error conversion","packing.go Unpack")])
p("C14","Failures are returned as errors; no panic escapes the entry points",
 "Unpack, Pack, SizeOf and BitSize report every failure (bad tags, wrong argument types, malformed data, failing or panicking custom marshalers, expression failures) through their error result: no panic escapes, a failure is never reported as success, and Pack returns no data together with an error.",
 ["inputs","programs","fault_sequences"],"all failure causes at all points of a traversal, any panic value",
 "Tests trigger selected failures that happen to carry error values.",
 ["packing.go","structstack.go","field.go"],[("recover handlers","packing.go deferred functions")])
p("C15","Unpack never writes its input; Pack changes only counts and back-references",
 "Unpack never modifies the input bytes and modifies nothing but the destination. Pack, SizeOf and BitSize leave the value they are given unchanged except for count fields being synchronised and root/parent references being filled in, and Pack's result shares no memory with the value. Slices that Unpack decodes can be appended to without overwriting the input or other decoded data.",
 IP,"all shapes and values",
 "Tests compare outputs, not side effects on arguments.",
 CODEC,[("writes through reflection","decoder.go read, encoder.go write, structstack.go setancestor")])
p("C16","Pointers, recursive types and per-element sizes are handled at any depth",
 "Pointer fields encode their pointee (nil contributes nothing), decode into a freshly allocated pointee, and are sized by what they point to; self-referential types through pointers or slices are accepted and every operation on finite values terminates. Elements of slices and arrays are sized individually whenever their encoded size can vary.",
 IP,"all type graphs and all finite values of them",
 "Tests contain no recursive type and few pointers.",
 ["field.go","structstack.go","decoder.go","encoder.go"],[("constant-size classification","field.go isTypeTrivial"),("pointer sizing","structstack.go fieldbits")])
p("C17","Custom marshalers take precedence, on values and pointers, and are obeyed",
 "A type implementing the custom pack, unpack or size interfaces, on value or pointer receiver, has exactly those methods used for it wherever it occurs (top level, field, element, pointee): they get the remaining buffer and the order in effect, the cursor continues at the slice they return, their declared size is used, and their errors are returned to the caller.",
 IP,"all placements of custom types and all results their methods may return",
 "Tests use one or two custom types in one position.",
 ["decoder.go","encoder.go","field.go"],[("interface lookup","decoder.go unpacker, encoder.go packer, field.go sizer/bitSizer")])
p("C18","Root and parent references point at the enclosing structures",
 "A root field refers to the outermost structure and a parent field to the nearest enclosing structure whose pointer type fits the field; they occupy no bits, are set before later sibling fields are processed, and expressions may navigate through them in all operations. (Below an element of a while slice, the reference to that element made by Unpack is only required to refer to a structure equal to the element as it was when the reference was set: a recorded finding.)",
 IP,"all nesting depths and type combinations",
 "Tests cover one nesting.",
 ["structstack.go","decoder.go","encoder.go"],[("ancestor stack","structstack.go push/pop/setancestor/root/ancestor")],[("stack","enclosing structures","structstack.stack")])
p("C19","In and out expressions transform the stored value and nothing else",
 "An out expression's value is encoded in place of the field's value and an in expression's value is stored after decoding, evaluated on the enclosing structure; neither changes the encoded width, later fields' positions, or the source value on Pack, and sizes account for the out value.",
 IP,"all field values",
 "One sample per direction is tested.",
 ["decoder.go","encoder.go","structstack.go"],[("expression hooks","decoder.go read, encoder.go write")])
p("C20","Arrays, slices and strings are element sequences; C strings stop at NUL",
 "Arrays, slices and strings encode as their elements in order with no padding or metadata; a slice or string bound to a fixed-size binary array is padded with zero elements on encode, decodes to all elements (strings up to the first NUL), and is rejected when too long. Element conversions between native and binary types apply to every element at every bit position.",
 IP,"all lengths and contents, all native/binary pairings, all starting bit positions",
 "Tests use fixed short literals, always byte aligned.",
 ["decoder.go","encoder.go","field.go"],[("sequence handling","decoder.go read, encoder.go write, field.go Elem")])
p("C21","The decoded result does not depend on the destination's previous content",
 "Unpack into a destination gives every decoded field the value determined by the input alone: slices, strings, pointers, switch members and arrays hold exactly the newly decoded data whatever the destination held before, and decoding the same input twice into the same destination is idempotent.",
 ["inputs","histories"],"all previous destination contents",
 "Tests always decode into fresh values.",
 ["decoder.go"],[("destination initialisation","decoder.go read, switc")])
p("C22","Passing a value or a pointer to it is equivalent; unsettable targets are errors",
 "Pack, SizeOf and BitSize give the same result for a structure passed by value as for a pointer to it, without modifying the by-value argument. Unpack into something that cannot be set (a non-pointer structure, nil, a nil pointer) returns an error instead of silently decoding nothing.",
 IP,"all shapes and values",
 "By-value use is hardly tested.",
 ["packing.go","field.go"],[("argument handling","packing.go fieldFromIntf")])
p("T01","Tag options are parsed exactly as documented or rejected",
 "Every struct tag is either accepted with exactly the documented meaning of each option (type with optional bit count, byte order, boolean flags, links, skip, root/parent/default, expressions with balanced brackets and literals), independent of option order, or rejected with an error. Bit counts outside 1..width-1, unknown options, malformed integers, identifiers and expressions, and options on ignored fields are rejected; expressions given in a dedicated tag key mean the same as inline ones.",
 PR,"all tag strings",
 "The tag grammar is unbounded; tests list a few dozen strings.",
 ["tag.go","field.go"],[("tag parser","tag.go parse"),("tag keys","field.go fieldsFromStruct")])
p("T02","Type strings denote exactly the Go type they spell",
 "A type string denotes the primitive, pointer, array or slice type it spells in Go syntax (string denotes a byte slice), at any nesting; maps, channels, functions, structs, unknown names and malformed array lengths yield errors.",
 PR,"all type strings",
 "Tests sample a few strings; the mapping is compositional over an unbounded language.",
 ["typestr.go"],[("type table","typestr.go typeMap"),("translation","typestr.go typeOfExpr")])
p("K01","Shared caches are race free and locks are always released",
 "Concurrent calls of the package's operations on independent values never race: every piece of process-wide mutable state is accessed only under one common lock (or is never written after initialisation), anything reachable from it is immutable once visible to others, and no call returns or panics with a lock held or acquires one it already holds.",
 ["schedules","histories"],"all interleavings of calls, including failing ones",
 "Tests are sequential; a race needs a particular interleaving.",
 ["field.go","expr/type.go","expr.go"],[("field cache lock","field.go cacheMutex"),("type cache lock","expr/type.go typemutex")],[("caches","process-wide memo tables","field.go fieldCache, expr/type.go typemap")])
p("K02","Results do not depend on the history of earlier calls",
 "The result of an operation depends only on its arguments: earlier calls, successful or failed, on the same or on other types (including types that differ only in their tags or share element types) never change the outcome of a later call.",
 ["histories","programs"],"all sequences of earlier calls",
 "Each test starts with whatever the cache holds and never compares first and later use.",
 ["field.go","expr/type.go"],[("memo tables","field.go cachedFieldsFromStruct, expr/type.go fromreflecttype")])
p("E01","Expression arithmetic, bit and shift operators follow Go for every type",
 "Each arithmetic, bitwise, shift and unary operator yields exactly Go's result for operands of the same primitive type, with that type as the result type (wrap-around, sign and rounding included), and is rejected for types Go does not define it on. Values of named primitive types behave like their underlying type.",
 IP,"all operators, all operand types, all values",
 "There are hundreds of operator/type cells; tests touch a few.",
 ["expr/value.go"],[("operator tables","expr/value.go methods of val")])
p("E02","Comparisons, equality and logic follow Go for every type",
 "Ordering comparisons, equality, inequality and boolean connectives yield exactly Go's result for operands of every primitive type (including NaN behaviour), named primitive types and literals; pointers, slices and maps compare equal to nil exactly when they are nil; mismatched types are rejected. (Both operands of a connective may be evaluated.)",
 IP,"all comparison operators, operand types and values",
 "Operator/type cells are sampled by tests, values barely.",
 ["expr/value.go","expr/type.go"],[("comparison operators","expr/value.go Equal..GreaterEqual, LogicalOr/And")])
p("E03","Untyped literals adopt the other operand's type; otherwise types must match",
 "When one operand is an untyped literal it takes the other operand's type if Go permits that kind of conversion, in either operand position; two integer literals combine as int; operands of different primitive types are rejected instead of being converted. (Nothing is claimed for literals outside the range of that type.)",
 IP,"all pairs of literal kinds and operand types, both positions",
 "Pairs are sampled by tests.",
 ["expr/value.go","expr/type.go"],[("coercion","expr/value.go coerce/promote, expr/type.go assignable")])
p("E04","Operator precedence, associativity and grouping are as in Go",
 "Every expression is grouped by Go's precedence levels with left associativity for binary operators (additive and multiplicative bit operators included), postfix tighter than prefix tighter than binary, and a right-associative ternary below all operators; brackets must match; malformed expressions are rejected, and only the selected ternary branch is evaluated.",
 PR,"all expressions",
 "Combinations of operators are unbounded and tests check some.",
 ["expr/parse.go","expr/eval.go"],[("precedence climbing","expr/parse.go parseexpr"),("evaluation order","expr/eval.go evalnode")])
p("E05","Literals and identifiers denote the values they spell",
 "Integer (decimal, hexadecimal, octal), float, rune, string, boolean and nil literals, escape sequences and identifiers in expressions denote exactly what Go assigns to the same spelling (with $'...' for single-quoted strings), wherever they appear and with or without blanks around operators; anything else is rejected. (Nothing is claimed for binary, 0o or underscore integers, hexadecimal floats, signed exponents, integers beyond 64 bits and raw line ends.)",
 PR,"all literal spellings",
 "The lexical grammar is unbounded.",
 ["expr/lex.go"],[("scanner","expr/lex.go scan*")])
p("E06","Scanning, parsing and evaluation always terminate",
 "Parsing terminates on every input, including input that ends in the middle of any token, literal, escape or bracket, and evaluation of any parsed program terminates.",
 PR,"all expression texts",
 "A hang shows only on particular truncated inputs.",
 ["expr/lex.go","expr/parse.go"],[("end of input handling","expr/lex.go readrune, scan loops")])
p("E07","Expression failures are returned as errors and never panic",
 "Evaluating an expression text or program returns an error for every lexical, syntactic, resolution, type or runtime failure (division by zero, index out of range, nil dereference, bad call) and never panics or reports success for it, whatever the operand types (recursive ones included); the text of the returned error is always available.",
 ["inputs","programs"],"all failing expressions and operands",
 "Tests list some failures, chiefly those that carry error values.",
 ["expr/eval.go","expr/parse.go","expr/value.go"],[("recover handler","expr/eval.go EvalProgram/Eval")])
p("E08","The type mapping is exact, total on supported types and safe on recursion",
 "The expression type computed for a Go type mirrors its kind, element, key, field and signature structure exactly, for recursive types too; unsupported kinds are rejected, repeatedly and without affecting later queries, and types are equal only when structurally the same; the text of every type, recursive ones included, is finite.",
 ["programs","histories"],"all Go types and query orders",
 "Type structure is unbounded; tests list few types.",
 ["expr/type.go"],[("type conversion","expr/type.go fromreflecttype/TypeOf"),("equality","expr/type.go TypeEqual")])
p("E09","Names, members, indexes, calls and references select the right value",
 "Identifier lookup, member access (through pointers too), indexing of arrays, slices, strings and maps, dereference, address-of and function calls yield exactly the selected value with its type; resolvers are consulted in the order they were added; an unknown name, member or wrong argument count is rejected.",
 IP,"all values, indexes and resolver stacks",
 "Tests check few accesses.",
 ["expr/env.go","expr/value.go","expr/package.go","expr/eval.go"],[("resolvers","expr/env.go"),("selection","expr/value.go Dot/Index/Deref/Ref/Call")])
p("E10","The built-in bits functions are the standard library functions they name",
 "In codec expressions the built-in bits package exposes each documented function under its name, bound to the standard library function of that same name, with its parameter and result types; built-in names take precedence over structure fields and the end-of-input flag is true exactly when no input remains.",
 PR,"all built-in names and arguments",
 "A mis-bound entry is invisible unless that function is called.",
 ["expr_19.go","structstack.go"],[("function table","expr_19.go exprStdLib"),("name lookup","structstack.go Resolve")])
p("F01","The PNG structures decode chunk streams faithfully and re-encode them",
 "Decoding a well-formed PNG chunk stream with the provided structures yields every chunk in order with its type, length, checksum and payload in the member selected by its type name (unknown types as raw data), until the input ends; encoding the result reproduces the stream; a truncated stream is an error.",
 ["inputs"],"all chunk sequences and payload bytes",
 "The example decodes one file.",
 ["formats/png/png.go","decoder.go","encoder.go"],[("chunk layout","formats/png/png.go"),("switch/while/parent","decoder.go, encoder.go")])
with open("/verif/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
