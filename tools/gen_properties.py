#!/usr/bin/env python3
"""Writes /verif/properties.jsonl.  Kept so the wording lives in one readable place."""
import json, os

def P(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    return {
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": n, "meaning": m, "where": w} for (n, m, w) in state],
            "mechanism": [{"name": n, "where": w} for (n, w) in mech],
            "observe_at": list(observe),
            "hook_needed": hook,
        },
    }

props = [
P("C01", "Type layout follows the Canonical ABI for every component type",
  "For every component-level value type, the reported size, alignment and list of flattened core types are exactly those the Canonical ABI defines, and for every function signature the flattened core signature (including replacement by a pointer when the flat limits are exceeded) is too. Two parties compiled against the ABI therefore always agree where each byte and each core value lives.",
  ["inputs", "configurations"], "all value types (every constructor, nesting, number of fields/cases/labels) and all function signatures with all flat limits",
  "The suite checks a dozen hand-picked types; layout is a recursive function over an unbounded type grammar whose interesting cases are combinations (join of unlike cases, padding after odd-sized fields, 8/16/32-bit discriminants and flag words).",
  ["abi/io/size.go", "abi/io/alignment.go", "abi/io/flatten.go", "abi/io/despecialize.go"],
  [("size/alignment recursion", "abi/io/size.go, abi/io/alignment.go"), ("flattening and join of variant cases", "abi/io/flatten.go"), ("specialised types rewritten to records/variants", "abi/io/despecialize.go")],
  observe=["return values of the layout queries"]),
P("C02", "Flat lowering and lifting are exact inverses in ABI order for every value",
  "Lowering any value of any type to core values yields exactly the sequence of core kinds and bit patterns the Canonical ABI prescribes, and lifting that sequence yields the original value back, consuming exactly that many core values. This holds for every case of every variant, whatever the other cases' payload types are.",
  ["inputs"], "all types and all values of each type, as parameters or results passed in core values",
  "Round-trip tests cover five type/value pairs; widening and reinterpretation of variant payloads depend on pairs of unlike cases the tests never combine.",
  ["abi/io/lower.go", "abi/io/lift.go", "abi/values/coerce_value_iterator.go", "abi/values/value.go", "abi/values/int.go", "abi/values/float.go", "abi/values/factory.go"],
  [("flat lowering per type", "abi/io/lower.go"), ("flat lifting per type", "abi/io/lift.go"), ("coercion between joined core kinds", "abi/values/coerce_value_iterator.go")],
  observe=["core values produced by lowering", "value returned by lifting", "number of core values consumed"]),
P("C03", "Values stored in linear memory have the ABI byte image and load back equal",
  "Storing any value of any type at any suitably aligned address inside linear memory writes exactly the byte image the Canonical ABI prescribes, changes no byte outside the value's own range and the ranges it allocated, and loading from that address returns an equal value. Loading any ABI-conformant byte image laid out by another producer, wherever its lists and strings are placed, returns the value it denotes.",
  ["inputs", "configurations"], "all types, values, base addresses, previous memory contents and placements of out-of-line data",
  "The suite stores a few values in one fresh zeroed heap with one allocator; it never looks at the bytes, at padding or at neighbouring data.",
  ["abi/io/store.go", "abi/io/load.go", "abi/io/size.go", "abi/io/alignment.go"],
  [("store per type", "abi/io/store.go"), ("load per type", "abi/io/load.go")],
  state=[("linear memory", "bytes shared with the guest", "abi/types/canonical_options.go")],
  observe=["bytes of linear memory before and after", "value returned by load"]),
P("C04", "Lifting untrusted core values gives the ABI value or an error",
  "For any sequence of core values a guest hands over, lifting either returns exactly the value the Canonical ABI assigns to those bits (integers wrapped to their width, any non-zero word true, every NaN replaced by the canonical NaN) or fails with an error. It always fails for an out-of-range case index, a code point that is a surrogate or beyond the Unicode range, a missing core value or one of the wrong kind, and it never panics.",
  ["inputs"], "all types and all sequences of core values of any length, kind and bit pattern, also for the same data read from linear memory",
  "Tests feed well-formed values plus a few bad characters and case indices; the guest controls every bit.",
  ["abi/io/lift.go", "abi/io/load.go", "abi/io/canonicalize.go", "abi/values/value.go", "abi/values/coerce_value_iterator.go"],
  [("range checks and wrapping in lift/load", "abi/io/lift.go, abi/io/load.go"), ("NaN canonicalisation", "abi/io/canonicalize.go"), ("kind-checked core value iteration", "abi/values/value.go")],
  observe=["value or error returned", "panics"]),
P("C05", "Guest-supplied pointers and lengths never read outside linear memory",
  "For every pointer and length a guest supplies for a string, list, record or spilled argument tuple, lifting succeeds only if the pointer is aligned for its type and the whole range lies inside linear memory, and then reads only that range; otherwise it fails with an error. No combination, including ones whose end wraps around the 32-bit address space, panics, reads elsewhere or is silently shortened.",
  ["inputs", "configurations"], "all pointers, lengths, element types, encodings and memory sizes",
  "The failing combinations are arithmetic coincidences (overflowing sums and products, off-by-one ends) among 2^64 pointer/length pairs; the tests use in-range ones.",
  ["abi/io/load.go", "abi/io/canon_lift.go", "abi/io/alignment.go"],
  [("range check before string and list reads", "abi/io/load.go"), ("range check of spilled values", "abi/io/canon_lift.go")],
  state=[("linear memory", "bytes and current length", "abi/types/canonical_options.go")],
  observe=["value or error returned", "panics"]),
P("C06", "No allocator answer makes lowering write outside its allocations",
  "Whatever address the guest's allocator returns for each request, or if it fails, lowering a value either succeeds having written only inside the ranges it requested, each aligned and inside linear memory, or fails with an error; it never panics. Every range it uses was requested from the allocator with at least the size and alignment the value needs, and a failing allocator always makes the operation fail.",
  ["fault_sequences", "inputs"], "all sequences of allocator answers (any address, any failure) for all values needing out-of-line storage",
  "The tests' allocator is always honest and always succeeds.",
  ["abi/io/store.go", "abi/io/canon_lower.go", "abi/io/lower.go"],
  [("validation of allocator results", "abi/io/store.go, abi/io/canon_lower.go")],
  state=[("linear memory", "bytes shared with the guest", "abi/types/canonical_options.go")],
  observe=["allocator requests", "bytes changed in linear memory", "error returned", "panics"]),
P("C07", "Strings cross every encoding pair unchanged and ill-formed ones are rejected",
  "A string passed between components using any pair of the supported encodings (UTF-8, UTF-16, Latin-1+UTF-16) arrives as the same sequence of Unicode scalar values, stored as the standard encoding of that string with the correct length and tag. Lifting bytes that are not well-formed in the declared encoding fails rather than producing a different string.",
  ["inputs", "configurations"], "all strings, all source and destination encodings, all byte sequences presented as a string",
  "Sixteen sample strings without any supplementary-plane character; no ill-formed input.",
  ["abi/io/store.go", "abi/io/load.go", "abi/io/code_units.go", "encoding/codec.go", "encoding/utf8.go", "encoding/utf16.go", "encoding/latin1.go", "encoding/helper.go", "encoding/factory.go"],
  [("encoding selection and length tagging", "abi/io/store.go, abi/io/code_units.go"), ("decoding of guest strings", "abi/io/load.go")],
  observe=["bytes and length/tag written", "string or error returned"]),
P("C08", "Host values that do not fit their declared type are refused",
  "Passing a host value whose dynamic type or shape does not match the declared component type (wrong kind, missing field or label, unknown or ambiguous case, number that does not fit) makes lowering and storing fail with an error. It never panics and never stores or passes some other value in its place.",
  ["inputs"], "all pairs of declared type and mismatching host value, at every nesting position, flat or in memory",
  "No existing test passes a mismatching value.",
  ["abi/io/lower.go", "abi/io/store.go", "abi/types/cast.go"],
  [("checked conversions of host values", "abi/io/lower.go, abi/io/store.go")],
  observe=["error returned", "panics"]),
P("C09", "Cross-component calls deliver every argument and result unchanged, in order",
  "Calling a lifted function, directly from the host or through a lowered import of another component with its own memory and string encoding, delivers to the callee exactly the arguments passed and to the caller exactly the results returned, each in its position, for every signature. This holds whether parameters and results travel as core values or are spilled to memory because they exceed the flat limits, and the callee's post-return runs exactly once per successful call.",
  ["inputs", "configurations"], "all signatures, argument and result values, flat limits, memories, encodings and call chains",
  "Tests make one-parameter calls that always fit the flat limits, so the spilling path never runs end to end.",
  ["abi/io/canon_lift.go", "abi/io/canon_lower.go", "abi/io/flatten.go"],
  [("lifting/lowering of value lists with spilling", "abi/io/canon_lift.go, abi/io/canon_lower.go")],
  observe=["arguments seen by the callee", "results seen by the caller", "core values at the boundary", "post-return invocations"]),
P("C10", "Handle tables never confuse, resurrect or leak resource handles",
  "Over any history of creating, reading and dropping handles, an index handed out is never one that is still live in the same table, a live index always denotes the representation it was created with, and using an index that was never handed out or has been dropped fails. Tables of different component instances and different resource types never affect each other, and freed indices can be used again without error.",
  ["histories"], "all histories of handle operations over any number of instances, resource types and handles",
  "One scripted history frees handles in the one order that hides free-list mistakes.",
  ["abi/types/handle.go", "abi/io/canon.go", "internal/collections/stack/stack.go"],
  [("slot array and free list", "abi/types/handle.go")],
  state=[("handle table", "slots and free indices per resource type", "abi/types/handle.go")],
  observe=["indices, representations and errors returned"]),
P("C11", "Ownership moves once, borrows end with their call, destructors run once",
  "Over any history of calls passing resources, an owned handle passed on leaves its previous table, a handle that is lent out cannot be dropped or given away until the borrowing call has ended and can be afterwards, a borrowed handle cannot be passed on as owned, and the destructor of a resource runs exactly once, with its representation, when its owning handle is dropped and never for a borrowed one. A call whose callee still holds a borrowed handle when it ends fails.",
  ["histories"], "all interleavings of lift/lower of owned and borrowed handles, drops and call ends, over several calls and instances",
  "The single handle test performs one call, never lends and drops at the same time, and never ends a call with a leaked borrow.",
  ["abi/types/handle.go", "abi/types/context.go", "abi/io/lift.go", "abi/io/lower.go", "abi/io/store.go", "abi/io/load.go", "abi/io/canon.go", "abi/io/canon_lift.go", "abi/io/canon_lower.go"],
  [("lend counting", "abi/types/context.go"), ("own/borrow lifting and lowering", "abi/io/lift.go, abi/io/lower.go"), ("drop and destructor", "abi/io/canon.go")],
  state=[("lend count", "outstanding borrows of an owned handle", "abi/types/handle.go"), ("borrow count", "borrowed handles a call still holds", "abi/types/context.go")],
  observe=["errors returned", "destructor invocations", "representations delivered"]),
P("C12", "Instances are never re-entered mid-call or left while marshalling",
  "A component instance that is waiting for an import it called cannot be entered again, and while values are being lowered into it (including while its own allocator runs) it can neither call out nor be entered: each such attempt fails without running the callee. After every call that completes successfully each instance involved is again enterable and able to call out, and an instance whose entry is refused is left as it was.",
  ["histories", "fault_sequences"], "all nested call trees over several instances, with re-entry attempts from callees, allocators, imports and destructors",
  "Tests only look at the flags after one successful non-nested call.",
  ["abi/io/canon_lift.go", "abi/io/canon_lower.go", "abi/io/canon.go", "abi/types/component_instance.go"],
  [("enter/leave flags around marshalling and calls", "abi/io/canon_lift.go, abi/io/canon_lower.go")],
  state=[("may-enter / may-leave flags", "whether the instance accepts calls / may call out", "abi/types/component_instance.go")],
  observe=["which callees run", "errors returned", "later calls succeeding"]),
P("C13", "LEB128 encoding and decoding agree exactly for every 32-bit value",
  "Encoding any 32-bit unsigned integer yields its shortest LEB128 form, and each of the three decoders returns that integer and the number of bytes consumed, also for longer forms the WebAssembly specification allows. Input that ends early, is longer than five bytes or carries bits beyond 32 is rejected by every decoder, and the decoders never consume bytes after the number.",
  ["inputs"], "all 2^32 integers and all byte sequences",
  "Four sample values; no malformed or non-minimal input.",
  ["leb128/encode.go", "leb128/decode.go"],
  [("encoder", "leb128/encode.go"), ("slice, buffered and plain reader decoders", "leb128/decode.go")],
  observe=["bytes written", "value, count and error returned", "reader position afterwards"]),
P("C14", "Decoding a WebAssembly binary yields exactly the module it encodes",
  "For every module built from the supported sections, types, locals and instructions, decoding its binary encoding returns a document with exactly those types, functions (type index, expanded locals, instructions) and exports, in order. This holds for every legal spelling of the same module: minimal or padded integers, and custom or unsupported sections at any place between the others.",
  ["inputs", "programs"], "all modules over the supported subset and all their legal encodings",
  "Three fixture files, none with locals, several functions, several exports or skipped sections between others.",
  ["binary/read.go", "binary/binary.go", "api/directive.go", "opcode/opcode.go", "leb128/decode.go"],
  [("section and vector readers", "binary/read.go")],
  observe=["document returned"]),
P("C15", "Malformed or truncated binaries are rejected, never mis-read",
  "Decoding any byte sequence either returns the module it is a well-formed encoding of or fails with an error; it never panics. In particular every truncation inside a section, every section or function body whose declared size disagrees with its content, every function/code count mismatch and every unknown type, export kind or opcode is rejected, and memory use stays proportional to the input rather than to counts it declares.",
  ["inputs"], "all byte sequences, in particular every prefix and every corruption of every encoding of a supported module",
  "No existing test decodes an invalid binary.",
  ["binary/read.go", "leb128/decode.go"],
  [("error propagation and size accounting in readers", "binary/read.go")],
  observe=["error returned", "panics", "memory allocated"]),
P("C16", "Binary decoding depends on the bytes only, not on how the reader delivers them",
  "Decoding the same bytes gives the same document or the same rejection whatever way the reader delivers them: in pieces of any size, with empty reads in between, or with the end of input reported together with the last bytes or separately. If the reader reports a failure other than the end of input, decoding fails with that failure, wherever it happens.",
  ["fault_sequences", "inputs"], "all ways a reader may split, delay and end its data, and a read failure at every position",
  "Tests read from files only.",
  ["binary/read.go", "leb128/decode.go"],
  [("reading through the io.Reader contract", "binary/read.go, leb128/decode.go")],
  observe=["document or error returned"]),
P("C17", "WAT tokens tile the source text with exact positions and kinds",
  "For every input, the tokens of the text format lexer, concatenated, reproduce the input exactly, each carries the byte position, line and column where it starts, and each has the kind the WebAssembly text grammar gives it (space, line and nested block comments, strings with escapes, identifiers, parentheses, numbers, keywords). Input that has no such tokenisation, such as an unterminated string or comment, is reported as an error and never as end of input.",
  ["inputs"], "all source texts",
  "About thirty sample inputs, only token kinds compared.",
  ["wat/lex/lexer.go", "wat/lex/dfa.go", "wat/lex/string.go", "wat/token/token.go"],
  [("longest-match rule automata", "wat/lex/lexer.go, wat/lex/dfa.go"), ("position tracking", "wat/lex/lexer.go")],
  observe=["tokens and errors returned"]),
P("C18", "Numeric literals in the text format denote exactly their value",
  "Every integer or float literal of the text format, in every legal spelling (signs, decimal and hexadecimal, underscores, exponents, infinities and NaN payloads), is accepted and yields exactly the 32- or 64-bit value the specification assigns, correctly rounded for floats. Literals that are out of range or malformed are rejected.",
  ["inputs"], "all literals, as constants, indices and limits, in modules and in scripts",
  "A few literals are tokenised in tests; no parsed value is ever compared beyond small decimal integers.",
  ["wat/lex/lexer.go", "wat/parse/parser.go", "wast/parse/parser.go"],
  [("literal classification", "wat/lex/lexer.go"), ("literal conversion", "wat/parse/parser.go")],
  observe=["constants in the parsed tree", "errors returned"]),
P("C19", "Parsing WAT yields exactly the module written, however it is laid out",
  "For every module made of the supported fields and instructions, parsing its text yields a tree with exactly those functions, types, tables, globals, memories and instructions, in order and with the nesting written, whether instructions are folded or plain. Inserting or removing white space and comments between tokens never changes the result.",
  ["inputs", "programs"], "all modules over the supported subset and all their layouts",
  "Six sample modules, at most one field each.",
  ["wat/parse/parser.go", "wat/ast/ast.go", "wat/decoder.go"],
  [("recursive descent parser", "wat/parse/parser.go")],
  observe=["tree returned"]),
P("C20", "Malformed WAT is rejected with an error, never accepted or panicking",
  "Parsing any text either yields the module the text denotes or fails with an error; it never panics and never hangs. A text with a missing, extra or misplaced token, an unknown keyword, or an operand of the wrong kind is rejected.",
  ["inputs"], "all token sequences, in particular every single-token deletion, insertion, replacement and every truncation of valid modules",
  "No existing test parses malformed text.",
  ["wat/parse/parser.go", "wat/lex/lexer.go"],
  [("expectation checks and error propagation", "wat/parse/parser.go")],
  observe=["tree or error returned", "panics"]),
P("C21", "Parsing a WAST script yields exactly the directives written",
  "For every script of the supported directives (modules inline or quoted, return, trap, invalid and malformed assertions with their actions, constants and messages), parsing yields exactly those directives with their operands, in order, independent of layout. A script with a missing, extra, misplaced or unknown token is rejected with an error and never panics.",
  ["inputs", "programs"], "all scripts over the supported directives, all layouts, and all token-level corruptions of them",
  "Four single-directive samples, no malformed script.",
  ["wast/parse/parser.go", "wast/ast/ast.go"],
  [("directive parser with lookahead", "wast/parse/parser.go")],
  observe=["directives or error returned", "panics"]),
P("C22", "WIT tokens tile the source text with exact positions and kinds",
  "For every input, the tokens of the interface-language lexer, concatenated, reproduce the input exactly, each carries the byte position, line and column where it starts, and each has the kind the grammar gives it (space, line and nested block comments, punctuation, keywords, plain and escaped identifiers, integers). Input with no such tokenisation is reported as an error.",
  ["inputs"], "all source texts, including non-ASCII and ill-formed UTF-8",
  "Seven sample inputs; positions never compared.",
  ["wit/lex/lexer.go", "wit/token/types.go"],
  [("rune-wise scanner", "wit/lex/lexer.go")],
  observe=["tokens and errors returned"]),
P("C23", "Parsing WIT yields exactly the packages, interfaces and worlds written",
  "For every document of the supported grammar, parsing yields a tree with exactly the package, uses, interfaces, worlds, functions, resources and type definitions written, in order, with every type (all primitive, container and handle types at any nesting), name, alias and version preserved. Inserting or removing white space and comments between tokens never changes the result.",
  ["inputs", "programs"], "all documents over the grammar and all their layouts",
  "The parser tests iterate over an empty directory, so nothing is compared.",
  ["wit/parse/parser.go", "wit/ast/ast.go"],
  [("recursive descent parser", "wit/parse/parser.go")],
  observe=["tree returned"]),
P("C24", "Malformed WIT is rejected with an error, never accepted or panicking",
  "Parsing any text either yields the document the text denotes or fails with an error; it never panics and never hangs. A text with a missing, extra or misplaced token, or with a keyword or punctuation where a name or type is required, is rejected.",
  ["inputs"], "all token sequences, in particular every single-token deletion, insertion, replacement and every truncation of valid documents",
  "The negative parser tests iterate over an empty directory.",
  ["wit/parse/parser.go", "wit/lex/lexer.go"],
  [("expectation checks and error propagation", "wit/parse/parser.go")],
  observe=["tree or error returned", "panics"]),
P("C25", "Lookahead and cloning never change what a lexer returns next",
  "For both text lexers and any history of peeking, consuming and cloning, each consumption returns the next token of the input as if no peek or clone had ever happened, a peek returns what the next consumption will return, and a clone and its original advance independently. This includes inputs with lexical errors, which peeking reports as errors rather than by panicking, and repeated reads at the end of input.",
  ["histories", "inputs"], "all histories of peek, next and clone over any number of lexers and all inputs",
  "One test peeks repeatedly at the first token of a valid input.",
  ["wat/lex/lexer.go", "wit/lex/lexer.go"],
  [("one-token peek buffer and clone", "wat/lex/lexer.go, wit/lex/lexer.go")],
  state=[("peek buffer", "token read ahead but not consumed", "wat/lex/lexer.go, wit/lex/lexer.go")],
  observe=["tokens and errors returned"]),
P("C26", "Instantiated modules resolve to their own functions and exports",
  "Over any sequence of instantiations in one store, each instance's function addresses, in order, denote exactly its module's functions, no two instances share an address, and previously handed out addresses keep denoting the same functions. Looking up an exported name in an instance yields the address of the function that module exports under that name, and unknown names are reported as absent.",
  ["histories", "inputs"], "all sequences of instantiating modules (the same or different, with any functions and exports) in any number of stores",
  "There is no test of instantiation at all.",
  ["runtime/instance.go", "runtime/store.go"],
  [("address allocation at instantiation", "runtime/instance.go")],
  state=[("store", "functions by address", "runtime/store.go")],
  observe=["function addresses, store contents, export lookups"]),
P("C27", "Text codecs are exact over streams, independent of chunking",
  "Each text codec turns any well-formed text into exactly the standard encoding of that text and back, with a byte length that is the code-unit size times the number of code units. The result does not depend on how the source delivers its bytes, even when a character is split between two reads, text that cannot be represented or is cut off inside a character is reported as an error or replacement and never silently dropped, and a read or write failure is reported.",
  ["inputs", "fault_sequences"], "all texts, codecs, ways of splitting the source, and failures at every position",
  "Tests convert whole short strings only.",
  ["encoding/codec.go", "encoding/helper.go", "encoding/utf8.go", "encoding/utf16.go", "encoding/latin1.go", "encoding/factory.go"],
  [("streaming transform", "encoding/codec.go")],
  observe=["bytes or text produced", "error returned"]),
P("C28", "Operations on separate data do not affect each other",
  "Decoding, encoding, lexing, parsing, marshalling, calling, handling resources and instantiating yield the same results whether they run alone, after one another, by turns (switching wherever one reads, writes, allocates or calls a guest or host function) or at the same time, provided they have inputs, memories, instances and stores of their own. Sharing type descriptions, modules and host values that nobody changes makes no difference.",
  ["schedules", "inputs"], "all interleavings of any operations on separate data",
  "Tests run one operation at a time to its end, so state shared behind the scenes never shows.",
  ["leb128/decode.go", "leb128/encode.go", "binary/read.go", "encoding/codec.go", "abi/io/canon_lift.go", "abi/io/canon_lower.go", "abi/io/load.go", "abi/io/store.go", "wat/lex/lexer.go", "wit/lex/lexer.go", "runtime/instance.go"],
  [("no mutable package state", "all packages")],
  observe=["results, errors, memory contents, tokens, trees, addresses of each operation"]),
P("C29", "Marshalled values are independent copies",
  "Lowering a value, whether it succeeds or fails, leaves the host's value as it was. A lifted value keeps its content when the guest's memory is overwritten or other values are lifted, and changing a lifted value changes neither memory nor any other value, lifted before or later.",
  ["inputs", "histories"], "all types, values, encodings and ways of passing a value, followed by any change to memory or to values",
  "Tests look at a value once, directly after lifting it, and never again at what they passed in.",
  ["abi/io/load.go", "abi/io/lift.go", "abi/io/store.go", "abi/io/lower.go", "abi/io/canon_lift.go", "abi/io/canon_lower.go"],
  [("values are built afresh on every lift", "abi/io/load.go, abi/io/lift.go")],
  observe=["host values and memory after later operations"]),
P("C30", "Core values are taken in order, each once, only as what they are",
  "The core values handed to a lifting operation are taken one at a time, in the order given and each once, with the position and length always exact; asking for another kind than the next value has, or for more than was given, is an error. Through a view onto the shared slots of a variant, also of one variant inside another, a value is reinterpreted bit for bit (up to the payload of a NaN) as the kind asked for, the position below advances alike, and neither the values nor the slot kinds given are changed.",
  ["inputs", "histories"], "all sequences of core values and of requests, through any stack of views",
  "Tests take a few values with matching kinds and never look at the position, at a second use of the same kinds, or at what happens past the end.",
  ["abi/values/value.go", "abi/values/coerce_value_iterator.go", "abi/values/int.go", "abi/values/float.go", "abi/values/factory.go"],
  [("one step per value", "abi/values/value.go")],
  observe=["value, its type and bits, error, position, length, kinds left"]),
P("C31", "Module text is decoded alike however the stream delivers it",
  "Decoding a module's text from a stream gives the same outcome however the stream hands it out: in whatever pieces, with empty reads in between, with the end reported together with the last piece or after it, and whatever the length. A well-formed text is decoded and any other, also one with something else behind the module, is refused; a stream that fails makes decoding fail, whatever came before. One decoder can be used for any number of texts without one affecting the next.",
  ["inputs", "fault_sequences", "histories"], "all texts, all ways of delivering them, failures at every position, and all sequences of texts given to one decoder",
  "Tests decode one whole string, so a piece taken for the whole, a failure ignored or a text cut short never shows.",
  ["wat/decoder.go"],
  [("the whole text is read before it is judged", "wat/decoder.go")],
  observe=["directive or error returned"]),
P("C32", "Values are stored only at aligned places inside linear memory",
  "For every address given for a value to be stored at, by the host directly or by a guest as the place for a call's results, storing succeeds only if the address is aligned for the type and the whole range lies inside linear memory, and then writes only that range and what it requested from the allocator. Otherwise it fails with an error, however large the address is; it never panics, wraps around the address space, moves the value elsewhere or writes outside these ranges.",
  ["inputs", "configurations"], "all addresses, types, values, memory sizes and ways of passing a place for a value",
  "Tests give aligned addresses well inside memory; what matters are the last few bytes of memory and of the address space.",
  ["abi/io/store.go", "abi/io/canon_lower.go", "abi/io/alignment.go"],
  [("range check before a value is stored", "abi/io/store.go"), ("range check of the place for results", "abi/io/canon_lower.go")],
  state=[("linear memory", "bytes shared with the guest", "abi/types/canonical_options.go")],
  observe=["bytes changed in linear memory", "error returned", "panics"]),
]
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in props:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(props))
