#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run from /verif: python3 tools/gen_props.py)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

PARSE="src/parse/mod.rs"; OFF="src/internal/offset.rs"; VIEW="src/internal/view.rs"; STK="src/internal/stack.rs"; BUF="src/parse/buffer.rs"

p("C01","Parser cursor safety: every byte is delivered once, in order, within bounds",
 "For every buffer and every sequence of parser operations, a read of n bytes (of any kind: single byte, slice, fixed array, number, owned vector, skip) succeeds exactly when n is at most the bytes remaining in the innermost open window (or buffer), returns exactly the next n unread bytes, and lowers the remaining count by exactly n. A read that fails returns an error, never panics however large n is, and leaves the position, the remaining count and the open windows unchanged. No byte is ever skipped, delivered twice, or read from outside the buffer or window.",
 ["histories","inputs"],"all operation histories up to a depth over buffers of every small length (plus long buffers with boundary-sized requests), for each of the three parsers",
 "The tests call a handful of parser methods once or twice on one buffer; the contract is over every interleaving of reads, window opens and closes, and over every request size including usize::MAX.",
 [PARSE,OFF,BUF,VIEW],[("ContextOffset::advance / Index::increment_checked",OFF),("SliceParser frames via take_unchecked",PARSE),("VecBuffer::get_slice_unchecked",BUF)],
 [("offset","next unread byte",OFF),("frames","stack of window targets",OFF),("view_stack","stack of disjoint slices",VIEW)],["Parser::consume*","Parser::take_*","Parser::offset/view_len/remainder"])
p("C02","Context-window discipline of all parsers",
 "For every operation history, opening a window of n bytes succeeds exactly when n is at most the remaining count, after which exactly n bytes remain; closing succeeds exactly when at least one window is open and the innermost one is exhausted, and restores precisely the enclosing window's (or buffer's) remaining bytes. Closing with no window open reports that no window exists, closing with unread bytes reports the residue, and any failed open or close leaves the parser unchanged, never panics (however large n is) and never discards a window. The exhausted-window test answers true exactly when a close would succeed, and changes nothing.",
 ["histories","inputs"],"all histories of open/close/read/test up to a depth, nested windows, sizes 0..remaining+1 and near-maximal sizes, on each of the three parsers",
 "No test opens nested windows or provokes a failing close; the property quantifies over all nestings and all failing attempts in between.",
 [PARSE,OFF,VIEW,STK],[("ContextOffset::{set_fit,test_target,enforce_target}",OFF),("SliceParser::{set_fit,test_target,enforce_target}",PARSE),("Stack::push_validated",STK)],
 [("frames","window targets, smallest on top",OFF)],["Parser::set_fit","Parser::test_target","Parser::enforce_target"])
p("C03","The three parser implementations are interchangeable",
 "For every input and every codec type, decoding with the owned-buffer parser, the tracing parser and the borrowed-slice parser gives the same outcome: all three succeed with equal values having consumed the same number of bytes, or all three fail. The same holds operation by operation for any history of direct parser calls.",
 ["inputs","histories"],"all small inputs, all edits of valid encodings for a catalogue of codec types, and all parser-operation histories up to a depth",
 "Nearly all tests decode through one parser only and none compares parsers on malformed input.",
 [PARSE,"src/conv/mod.rs"],[("Parser impls for ByteParser, MemoParser, SliceParser",PARSE),("Decode::try_decode","src/conv/mod.rs")],None,["Decode::try_decode<_, ByteParser/MemoParser/SliceParser>"])
p("C04","Round trip: decoding an encoding returns the value and consumes all of it",
 "For every codec type built from the library's primitives, combinators, macros and derives, and for every value of it, decoding the value's encoding yields an equal value and consumes exactly the bytes that were written. This remains true when the encoding is followed by arbitrary other bytes (for self-delimiting types) or sits inside a larger record.",
 ["inputs","programs"],"all boundary-complete small values of a catalogue of codec types covering every combinator and nesting pairs, times all three parsers",
 "Round trips are tested on single hand-picked values of a few types; the claim is over all values and all compositions.",
 ["src/conv/mod.rs","src/schema.rs","src/dynamic.rs","src/fixed.rs","src/int.rs","src/float.rs","src/zarith.rs","src/seq","src/prim.rs","src/autobox.rs","src/adt.rs"],[("Encode/Decode impls","src/*")],None,["Encode::to_bytes","Decode::parse"])
p("C05","Encoded bytes follow the data-encoding binary layout",
 "For every value, the emitted bytes are exactly the documented layout: big-endian fixed-width numbers, ff/00 booleans and option flags, length prefixes that equal the payload's byte length, field concatenation in declaration order, discriminant followed by payload for unions, zero padding of the declared width, offset form for positive-minimum ranged integers, and sign-and-continuation 7-bit groups for arbitrary-precision integers.",
 ["inputs","programs"],"all boundary-complete small values of the codec catalogue, compared with an independent reference encoder",
 "Tests pin a few literal encodings; a layout change confined to other widths, nestings or values passes them, and a symmetric encoder/decoder change is invisible to round trips.",
 ["src/conv/mod.rs","src/schema.rs","src/dynamic.rs","src/int.rs","src/float.rs","src/zarith.rs","src/seq","src/prim.rs","src/adt.rs","encode_derive/src/lib.rs"],[("Encode::write_to impls","src/*")],None,["Encode::to_bytes","Encode::write_to"])
p("C06","Decoding is total: any byte string gives a value or an error, never a crash",
 "For every codec type and every input byte string, decoding terminates and returns a value or an error: it never panics, aborts, overflows, reads out of bounds, loops forever or allocates beyond a small multiple of the input. The same holds for the length-prefix, skipping and hex-decoding entry points.",
 ["inputs"],"all byte strings up to a length over a tailored alphabet, all 1- and 2-byte inputs, and every single edit, truncation and extension of valid encodings, for the codec catalogue and all parsers",
 "Tests decode well-formed data plus one or two malformed cases; totality is a claim about every malformed input.",
 [PARSE,"src/conv/mod.rs","src/dynamic.rs","src/schema.rs","src/hexstring.rs","src/zarith.rs","src/int.rs"],[("bounds checks before unchecked slicing",PARSE),("LenPref::parse_as_usize","src/dynamic.rs"),("VPadded remainder check","src/dynamic.rs")],None,["Decode::try_decode","ParserExt::skip_dynamic","HexString::from_hex"])
p("C07","A decoder accepts exactly the valid encodings, with the right value",
 "For every codec type and every input, decoding succeeds exactly when a prefix of the input is a valid encoding under the documented layout (legal booleans, option flags and discriminants, in-range numbers, exact element counts, length prefixes that fit and whose payload is used up completely), and it then yields the value that layout assigns and consumes exactly that prefix. Everything else is rejected with an error rather than accepted with a made-up value.",
 ["inputs"],"all byte strings up to a length over a tailored alphabet and every single-byte edit, truncation and extension of valid encodings, for the codec catalogue, against an independent reference decoder",
 "Acceptance of malformed data needs an input that no test contains.",
 ["src/conv/mod.rs",PARSE,"src/schema.rs","src/dynamic.rs","src/adt.rs","src/int.rs","src/seq","src/prim.rs","src/float.rs"],[("take_bool, take_tagword",PARSE),("RangedInt::try_from_underlying","src/int.rs"),("Dynamic::parse enforce_target","src/dynamic.rs")],None,["Decode::parse"])
p("C08","All length oracles agree with the bytes actually written",
 "For every value, the byte count returned by writing it, its computed encoding length, the length of its full-bytes form and the size of the emitted byte string are all equal. Whenever a type declares a fixed length, every one of its values encodes to exactly that many bytes, and whenever a length can be estimated (statically or for a value), the estimate equals the real length.",
 ["inputs","programs","configurations"],"all boundary-complete small values of the catalogue, in the default build and in the build that answers length queries from the estimate",
 "Tests compare one or two lengths; the four oracles are separate code paths per type and must agree on every value.",
 ["src/conv/len.rs","src/conv/mod.rs","src/conv/target.rs","estimable_derive/src/lib.rs","src/dynamic.rs","src/zarith.rs"],[("Estimable / FixedLength impls","src/conv/len.rs"),("EncodeLength blanket impl","src/conv/mod.rs"),("derive(Estimable)","estimable_derive/src/lib.rs")],None,["EncodeLength::enc_len","Estimable::estimate/unknown","FixedLength::LEN","Encode::write_to"])
p("C09","Every output target receives the same bytes and reports the same counts",
 "For every value and every way a byte sequence is split into single-byte, fixed-array and slice pushes (with size hints and boundary marks interspersed), each of the provided output targets ends up holding exactly the concatenation of what was pushed, and every push returns exactly the number of bytes it was given. Writing to a target that already holds data only appends, and size hints and boundary marks never change the content.",
 ["histories","inputs"],"all push/mark/hint histories up to a depth and all catalogue values, on vector, counter, strict builder, segmented builder and hex targets",
 "Tests write through one target at a time; agreement is a relation across targets over all push histories.",
 ["src/conv/target.rs","src/builder/mod.rs","src/builder/strict.rs","src/builder/memo.rs","src/hexstring.rs"],[("Target impls","src/conv/target.rs"),("Builder impls","src/builder/")],None,["Target::push_*","Builder::into_vec","Encode::encode<U>"])
p("C10","Length-prefixed values delimit exactly their payload",
 "For every prefix width and payload, encoding writes a prefix equal to the payload's byte length, and a payload that does not fit the prefix width is never given a wrong (truncated) prefix. Decoding confines the payload to exactly that many bytes: it succeeds only if the prefix fits the enclosing data and the payload uses up all of it, never touches the bytes after it, and nested prefixes never escape their parent.",
 ["inputs"],"payload sizes 0..300 and around 2^8 and 2^16 for each prefix width, all small prefix/payload mismatches, nested prefixes, trailing data",
 "The width boundaries, the under/over-consumption cases and nesting are not reached by the tests, which use one small payload.",
 ["src/dynamic.rs",OFF,PARSE],[("Dynamic Encode/Decode","src/dynamic.rs"),("LenPref impls","src/dynamic.rs"),("set_fit/enforce_target",PARSE)],None,["Dynamic<S,T>::{to_bytes,parse}","Dynamic<S,T>::enc_len"])
p("C11","Ranged integers never hold, accept or emit an out-of-range number",
 "For every range and every candidate number, each checked constructor and integer conversion succeeds exactly when the number lies within the range and then represents precisely that number, and otherwise reports an error without panicking. Decoding accepts exactly the byte patterns of in-range values (an offset from the minimum when the minimum is positive), encoding reproduces them, and the default, minimum and maximum values are the range's nearest-to-zero, lowest and highest numbers.",
 ["inputs"],"every candidate for 8-bit and 16-bit backed ranges and boundary neighbourhoods for 32-bit ones, over ranges with negative, zero and positive minimum",
 "Tests check a few values of three ranges; range errors sit at untested boundaries and in the positive-minimum representation.",
 ["src/int.rs","src/error.rs"],[("BoundsError::restrict","src/error.rs"),("RangedInt conversions and Decode","src/int.rs")],None,["RangedInt::{try_from_i32,try_from_underlying,to_i32,to_underlying,default,min_val,max_val}","TryFrom<int>","Decode"])
p("C12","Ranged floats never hold, accept or emit a number outside their bounds",
 "For every pair of bounds and every 64-bit float pattern, construction and decoding succeed exactly when the number lies between the bounds inclusive, reject NaN always, and preserve the bit pattern through encoding and decoding. No input causes a panic.",
 ["inputs"],"every combination of sign and exponent with boundary mantissas, the immediate neighbours of each bound, infinities, zeros of both signs, subnormals and NaN patterns",
 "NaN, signed zeros, infinities and one-ulp neighbours of the bounds are not sampled by tests.",
 ["src/float.rs","src/error.rs"],[("BoundsError::restrict_float","src/error.rs"),("RangedFloat Decode","src/float.rs")],None,["RangedFloat TryFrom/Decode/Encode"])
p("C13","Bounded sequences respect their element-count bound under every operation",
 "A limited-length sequence never holds more than its limit and an exact-length sequence never has another length when read back, whatever sequence of constructions, conversions, insertions, extensions, collections from iterators and decodings produced it. Operations that would break the bound report an error, or keep just the elements that fit where so documented, without losing or reordering other elements or panicking; and decoding fails on input with too many (or, for exact length, too few) elements.",
 ["histories","inputs"],"all operation histories up to a depth over small limits (0..3), all iterator lengths around the limit, and all small inputs, in both storage configurations",
 "The bound must survive every history of operations; tests push a few elements once.",
 ["src/seq/mod.rs","src/seq/lim.rs","src/seq/fix.rs","src/seq/boundedseq_impl.rs"],[("LimSeq / FixSeq","src/seq/"),("BoundedSeq impls","src/seq/boundedseq_impl.rs")],None,["LimSeq/FixSeq constructors, FromIterator, Extend, Decode, Encode"])
p("C14","Arbitrary-precision naturals and integers encode canonically and decode exactly",
 "Every natural or signed integer encodes to the unique shortest 7-bit-group form (6 bits plus sign in the first byte for signed), and decodes back to itself; decoding any terminated group sequence yields the number it denotes, consumes up to and including the first byte without continuation bit, and fails if there is none. Length queries give the exact byte count for every magnitude.",
 ["inputs"],"every natural and integer up to 2^21 in magnitude, neighbourhoods of every power of two up to 2^300, and all byte strings up to length 3 as decoder input",
 "Bugs sit at group and sign boundaries (2^6, 2^7, 2^13, 2^14, ... 2^64) that hand-picked values miss.",
 ["src/zarith.rs"],[("N and Z Encode/Decode/Estimable","src/zarith.rs"),("take_self_terminating",PARSE)],None,["N/Z to_bytes, parse, enc_len"])
p("C15","Hex strings are a faithful, total textual form of bytes",
 "For every byte string, converting to hex text gives two lowercase digits per byte and parsing it back, in either letter case, gives the same bytes; for every text, parsing succeeds exactly when it has an even number of characters that are all hex digits, and otherwise reports an error without panicking. Comparing hex data with text agrees with parsing the text and comparing bytes.",
 ["inputs"],"all strings up to length 4 over an alphabet of digits, both cases, separators, signs and multi-byte characters; all byte strings of length 1-2 and boundary lengths",
 "Non-ASCII text, sign characters, odd lengths and mixed case combine in ways the tests do not list.",
 ["src/hexstring.rs"],[("HexString::from_hex and conversions","src/hexstring.rs"),("eq_hex","src/hexstring.rs")],None,["HexString::{from_hex,to_hex,eq_hex,TryFrom}","Builder::into_hex"])
p("C16","Segmented output: splitting marks boundaries and never alters the bytes",
 "For every history of pushes, boundary marks, joins and appends on a segmented buffer or builder, the total content and length equal those of the plain concatenation of the pieces in order, and the sequence of segments equals the pieces between boundary marks as documented (repeated soft marks collapse, forced marks do not, joining two buffers keeps both segmentations). Converting to plain bytes, hex or iterating forwards or backwards shows exactly those bytes and segments.",
 ["histories"],"all histories up to a depth of extend, soft/forced mark, cleave, append, concatenation and promotion with pieces of length 0..2, against a list-of-lists model",
 "Segment bookkeeping is a state machine whose bugs need particular sequences of empty pushes and repeated marks.",
 ["src/internal/splitvec.rs","src/builder/memo.rs","src/builder/mod.rs"],[("SplitVec","src/internal/splitvec.rs"),("MemoBuilder","src/builder/memo.rs")],[("spans","lengths of frozen segments and the active one","src/internal/splitvec.rs")],["SplitVec public methods","MemoBuilder / MemoBuffer"],"the crate's own expose_internal feature (repaired to compile)")
p("C17","Discarding a parser accounts for every unread byte and window",
 "For every history, discarding a parser reports exactly the bytes not yet consumed, in order, grouped by the windows that were open (and nothing when all was consumed and no window is open), without error or panic. When complete-parse checking is enabled, top-level decoding fails exactly when the plain decode fails or leaves unread bytes, with every parser and for every type.",
 ["histories","inputs","configurations"],"all parser histories up to a depth followed by discard; all small inputs for the codec catalogue in the complete-parse build",
 "Leftovers after each combination of open windows and partial reads are not exercised by tests, and the feature is off in the test build.",
 [PARSE,"src/conv/mod.rs","src/conv/error.rs"],[("cleanup","src/parse/mod.rs"),("LeftoverState",PARSE),("try_decode under check_complete_parse","src/conv/mod.rs")],None,["Parser::cleanup","Decode::try_decode with check_complete_parse"])
p("C18","Enumerations and tagged unions map tags and variants one to one",
 "For every enumeration and tagged union defined through the library's macros, encoding a variant emits its declared discriminant at the declared width followed by the variant's fields in order, and decoding accepts exactly the declared discriminants and yields that variant; every other discriminant is rejected. The tag queries (value of a variant, list of tags, validity test, conversion from a number) all agree with the declaration.",
 ["inputs","programs"],"every 8- and 16-bit discriminant value and boundary 32-bit ones, for enums and unions with sparse, unordered and extreme tags, unit, tuple and struct variants",
 "Tests use one or two macros invocations with consecutive tags and a single bad tag.",
 ["src/adt.rs",PARSE,"src/parse/error.rs"],[("cstyle! and data! macros","src/adt.rs"),("take_tagword / TagValidator",PARSE)],None,["macro-generated Encode/Decode, get_tagval, iter_tags, is_valid_tag, TryFrom"])
p("C19","Build features change only what they document",
 "Each optional build feature leaves the encoding, the decoded value and the accept/reject decision of every codec type unchanged, except for its documented effect: complete-parse checking only rejects inputs with leftovers, padding checks only reject non-zero padding, implicit hex only reinterprets text inputs, and alternative storage or length-estimation features change nothing observable.",
 ["configurations","inputs"],"every single feature and combinations, times catalogue values and all small inputs",
 "The repository's tests run in one configuration.",
 ["Cargo.toml","src/seq/lim.rs","src/seq/fix.rs","src/conv/mod.rs","src/schema.rs","src/parse/buffer.rs"],[("cfg(feature) branches","src/*")],None,["Encode/Decode results per configuration"])
p("C20","Skipping and keyed lookup are equivalent to reading",
 "For every parser, history and request, skipping n bytes has the same effect on all later reads as reading and discarding them (clipped to the innermost window for the lenient form, all-or-nothing for the strict form); opening or skipping a length-prefixed payload behaves as reading the prefix, opening a window of that size and, for skipping, consuming and closing it. Keyed lookup over fixed-size entries returns the value of the first entry whose key matches, at entry boundaries only, and leaves the parser just after it, or reports absence after consuming all entries.",
 ["histories","inputs"],"all operation histories up to a depth including skips and prefix operations, all association lists of up to 3 entries over a 2-letter alphabet with every key",
 "Tests skip once from a fresh parser and look up one key in one list.",
 [PARSE,"src/dynamic.rs"],[("ParserExt methods",PARSE),("LenPref::parse_as_usize","src/dynamic.rs")],None,["ParserExt::{skip,skip_exactly,skip_dynamic,process_prefix,fast_kv_search}"])
p("C21","Parse buffers expose exactly their bytes and stop at their bounds",
 "For every source type, a parse buffer holds exactly the source's bytes; every checked accessor or split returns exactly the requested range when it lies within the buffer and otherwise panics (or reports absence) as documented, never returning bytes from outside, for all indices and lengths including huge ones.",
 ["inputs"],"all buffers of length 0..6 times all index/length pairs in 0..len+2 and near usize::MAX, all source types",
 "Bounds are off by one only at one index per length, which tests do not probe.",
 [BUF],[("VecBuffer::{get_byte,get_slice}",BUF),("SliceBuffer::{split,take,cut_first}",BUF)],None,["VecBuffer, SliceBuffer methods and From/TryFrom"])
p("C22","The tracing parser's trace shows exactly the reads performed",
 "For every history on the tracing parser, its dumped state consists of exactly the bytes consumed so far, in order, with one segment per successful non-empty consuming operation; the same trace is printed when a read fails, and tracing never changes any result.",
 ["histories"],"all histories up to a depth of reads, skips, windows and failing requests, captured from the standard error stream",
 "Traces are only printed, never compared, in tests.",
 [PARSE,"src/internal/splitvec.rs"],[("MemoParser munches",PARSE)],[("munches","length of each recorded read",PARSE)],["MemoParser::dump_state on stderr"])
p("C23","Byte and text containers convert without loss and enforce their width",
 "For every byte string or text, the fixed-width and variable-width byte and character containers accept exactly the inputs of the declared width (any width for the variable ones), return precisely the same content through every accessor and conversion, and report an error otherwise. Encoding emits the content verbatim and decoding takes exactly the declared width, or everything remaining for variable-width ones.",
 ["inputs"],"all contents of length 0..N+2 over a small alphabet including non-UTF-8 bytes for widths 0..4 and 32/64, all conversion paths",
 "Only matching widths and ASCII text appear in tests.",
 ["src/fixed.rs","src/schema.rs","src/prim.rs"],[("FixedBytes / FixedString","src/fixed.rs"),("Bytes","src/schema.rs")],None,["From/TryFrom/accessors, Encode/Decode of FixedBytes, FixedString, Bytes, String, Vec<u8>"])
p("C24","Derived codecs are the in-order concatenation of their fields",
 "For every struct shape (unit, named, positional, nested), the derived encoder emits the fields' encodings concatenated in declaration order and nothing else, the derived decoder reads the fields in the same order and fails at the first failing field, and the derived length information equals the sum over fields, being statically known exactly when it is for all of them.",
 ["programs","inputs"],"structs of 0..6 fields mixing all field-type kinds, every field-wise combination of boundary values, all truncations and single edits of their encodings",
 "Field order and length derivation bugs need structs with distinguishable, variable-length fields in every position.",
 ["encode_derive/src/lib.rs","decode_derive/src/lib.rs","estimable_derive/src/lib.rs"],[("derive macros","*_derive/src/lib.rs")],None,["#[derive(Encode, Decode, Estimable, FixedLength)]"])
p("C25","Wrapper types add exactly their documented bytes around the inner codec",
 "For every inner type and value: padding of N appends exactly N zero bytes and decoding skips exactly N; virtual padding reserves exactly the last N remaining bytes for what follows, so the inner value can never read them and must use everything before them; the nullable form is present exactly when bytes remain in the current window; the optional form is flag byte plus value; and boxing changes nothing. No wrapper ever panics on short input.",
 ["inputs","programs"],"widths 0..4 over every kind of inner type, all small values, all inputs up to a length in nested windows, on all three parsers",
 "Wrappers are tested once each on a full buffer; their behaviour depends on the enclosing window and on short input.",
 ["src/schema.rs","src/dynamic.rs","src/autobox.rs","src/conv/mod.rs"],[("Padded, Nullable","src/schema.rs"),("VPadded","src/dynamic.rs"),("AutoBox","src/autobox.rs"),("Option<T>","src/conv/mod.rs")],None,["Encode/Decode of the wrappers inside Dynamic windows and records"])
p("C26","Equality, ordering and hashing are those of the represented value",
 "For every value type of the library, two values are equal exactly when they represent the same number, text, bytes, elements or fields; where an order exists it is the order of the represented values, total or partial accordingly and consistent between all comparison operators; equal values hash equally, also through a borrowed form; copies (including copying onto an existing value) equal their source and are independent of it; and the debug form of two different values differs.",
 ["inputs"],"all ordered pairs of values of every value type over the boundary domains of the catalogue, with every comparison operator, hasher, copy and borrowed form",
 "Comparison and hashing are derived or hand-written per type and are relied upon by maps, sets and assertions, but no test compares more than a pair of values.",
 ["src/dynamic.rs","src/autobox.rs","src/schema.rs","src/fixed.rs","src/seq/mod.rs","src/seq/lim.rs","src/seq/fix.rs","src/zarith.rs","src/int.rs","src/float.rs","src/hexstring.rs","src/adt.rs",BUF,"src/builder/strict.rs"],
 [("Dynamic comparison, Hash, Borrow","src/dynamic.rs"),("Hash of data! unions","src/adt.rs"),("derives of the value types","src/*")],None,["PartialEq, Eq, PartialOrd, Ord, Hash, Clone, Borrow, Debug of every value type"])
p("C27","Errors describe the failure that happened",
 "Whenever an operation fails, the error it returns is of the documented kind for that failure and carries the facts of it: the offset, requested size and limit of a read beyond the end, the sizes of a window that does not fit or cannot be closed, the offending byte, tag or boolean with the valid alternatives, the bound violated and the number that violated it, the declared and actual width, length or text. When several things are wrong with an input, the error is that of the first one met in reading order. Errors can be displayed and expose the error that caused them.",
 ["histories","inputs"],"all failing operations of all parser histories up to a depth, all out-of-range numbers, widths, lengths, texts and tags of the other checks' domains, all small inputs and one-edit neighbourhoods of valid encodings for the codec catalogue",
 "Tests only look at whether a result is an error, never at its contents.",
 ["src/error.rs","src/parse/error.rs","src/conv/error.rs",PARSE,OFF],
 [("BoundsError, WidthError, LengthError, HexConvError","src/error.rs"),("ParseError, WindowError, TokenError, TagError","src/parse/error.rs"),("DecodeError","src/conv/error.rs"),("ContextOffset","src/internal/offset.rs")],None,["Err values of Parser methods, Decode::try_decode, TryFrom and validating constructors"])
p("C28","Text forms show the represented value under every format option",
 "Printing a value shows what it represents: naturals and integers in decimal, ranged integers in binary, octal and hexadecimal as their number, hex strings as their lower-case digits, fixed strings as their text with replacement characters for invalid bytes, and wrapped values (length-prefixed, boxed, virtually padded) as their content, each under every width, fill, alignment, sign, zero-padding, alternate and precision option exactly as the standard type of that value; debug forms contain the number, text, bytes, sizes and variant names they stand for; a printed number or hex string reads back as the same value; and a writer that fails part-way is reported, having received a prefix.",
 ["inputs"],"boundary values and short contents over an alphabet, times all combinations of a set of format options, times every writer capacity",
 "Text forms are used in logs, error messages and user-facing output, with options chosen by the caller; tests print a few values with none.",
 ["src/zarith.rs","src/int.rs","src/hexstring.rs","src/fixed.rs","src/dynamic.rs","src/autobox.rs","src/adt.rs",BUF],
 [("Display/Debug of N and Z","src/zarith.rs"),("impl_numeric_fmt","src/int.rs"),("Display, Debug of Dynamic and VPadded","src/dynamic.rs")],None,["Display, Debug, LowerHex, UpperHex, Octal, Binary of the value types"])
p("C29","Hand-written parsers, targets and codecs behave as the built-in ones",
 "A user type that implements only the required operations of Parser, ParserExt, Target, Builder, TagValidator, Encode, Decode or one of the length traits gets, through the provided operations and the library's codecs, exactly the documented behaviour: provided reads, skips, prefixes and keyed lookups follow the abstract cursor with windows; every codec decodes through it to the value and consumption the binary layout defines; every codec writes the exact encoding, count, lengths and unit boundaries into it; hand-written codecs compose with every combinator; and when any single call on a hand-written parser reports an error, the enclosing read or decode reports an error rather than a value (provided reads that document propagation give that very error).",
 ["inputs","fault_sequences","histories"],"operation histories over buffers of up to 6 bytes; tailored inputs and boundary values of every catalogued type; a failure injected at every call of every decode",
 "Parser, Target and Builder are the documented extension points of the runtime; built-in implementors override provided operations, so tests never run the defaults, and no test injects failures.",
 [PARSE,"src/conv/mod.rs","src/conv/target.rs","src/conv/len.rs","src/builder/mod.rs","src/parse/error.rs"],
 [("Parser, ParserExt provided methods",PARSE),("Target::resolve_zero","src/conv/target.rs"),("Builder provided methods","src/builder/mod.rs"),("TagValidator","src/parse/error.rs"),("EncodeLength, Estimable blanket impls","src/conv/len.rs")],None,["values, errors, remaining counts and bytes seen through user-defined implementors"])
p("C30","Safe use has no undefined behaviour, no leak and no double free",
 "Whatever a user does through the safe interface (any operation history on buffers, parsers, builders, bounded sequences and byte containers, any value encoded, any input decoded, any conversion), no execution has undefined behaviour: every access lies within live, initialised memory, references never alias illegally, and every text handed out is valid UTF-8. Every element and every allocation made on the way is released exactly once, also when a decode fails half-way, a bound is exceeded, or a caller-supplied element, iterator or codec panics.",
 ["inputs","histories","fault_sequences"],"tailored inputs and boundary values of every catalogued type; all histories of up to three or four operations on containers, buffers, parsers and builders; a panic injected at every call of every caller-supplied element, iterator and codec; default and alternative container features",
 "Safety is what the crate's users assume of a Rust library; a wrong length or a wrong assumption in an unchecked block corrupts memory silently and ordinary tests pass.",
 [PARSE,"src/conv/mod.rs","src/seq/fix.rs","src/seq/boundedseq_impl.rs","src/fixed.rs","src/dynamic.rs","src/builder/mod.rs"],
 [("byte buffers and windows",PARSE),("FixSeq, LimSeq storage","src/seq/fix.rs"),("codecs","src/conv/mod.rs")],None,["sanitizer and interpreter verdicts, balances of elements and allocations, validity of texts"])
p("C31","Work grows with size: no exponential or quadratic blow-up",
 "Whatever is encoded, decoded, estimated, counted, cloned, compared, hashed or printed, the work done and the memory requested stay within a small multiple of the value's size times its nesting depth: no operation doubles its work with each level of nesting. On flat values, long inputs and long runs of parser, builder or container operations, the work and the memory requested stay proportional to their number. This holds for failing decodes as well.",
 ["inputs","programs"],"all periodic nestings of 14 kinds of compound values, words of up to three kinds, down to 28 and 120 levels; all value trees of up to 8 nodes; runs of up to 2^20 operations or elements; tailored inputs of every catalogued type",
 "A decoder and encoder of untrusted binary data must not be stalled by a few hundred nested bytes; tests use shallow values, on which a doubled pass per level cannot be seen.",
 ["src/dynamic.rs","src/conv/len.rs","src/conv/mod.rs",PARSE,"src/parse/mod.rs","src/builder/memo.rs","src/seq/mod.rs"],
 [("Dynamic::write_to","src/dynamic.rs"),("enc_len, Estimable","src/conv/len.rs"),("take_self_terminating, cleanup","src/parse/mod.rs"),("segmented output","src/builder/memo.rs")],None,["steps of caller-supplied elements, calls of caller-supplied parsers and targets, memory requested, time limit"])
with open("properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
for x in P:
    assert len(x["title"])<=80,x["id"]
