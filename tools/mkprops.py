#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
        "mechanism": [{"name": a, "where": b} for a, b in mech],
        "observe_at": observe, "hook_needed": hook}})
T = "The tests parse one hand-made file, a handful of compiled classes and check a few validator calls; "
p("C01", "Parsing any bytes ends in a value or an error, never a crash or a blow-up",
  "For every byte sequence and every parse option, parsing returns either a parsed class or an error: it never panics, overflows an integer, exhausts the stack of an ordinary thread, deadlocks or runs forever, in checked and in optimised builds alike. "
  "The memory it asks for is bounded by a constant plus a constant multiple of the input length. "
  "The same holds for reading, formatting, iterating over and dropping everything a parsed class hands out.",
  ["inputs", "configurations"], "every byte sequence up to any length, both parse options, both cargo features, debug and release arithmetic",
  T + "no malformed input is ever parsed, so no reader is exercised on truncated, cyclic, deeply nested or extreme values.",
  ["src/lib.rs", "src/constant_pool.rs", "src/attributes.rs", "src/bytecode.rs", "src/descriptors.rs"],
  [("bounds checks before every read", "src/lib.rs read_u1/u2/u4/u8"), ("range checks of switch tables and jump targets", "src/bytecode.rs read_opcodes, validate_jump"), ("nesting limits", "src/attributes.rs read_attributes, read_annotation_element_value"), ("non-recursive validation", "src/constant_pool.rs validate_*")],
  ["parse_class", "parse_class_with_options", "ClassFile::constantpool_iter"])
p("C02", "A class file is accepted only as a whole: exact framing, no slack",
  "An accepted input starts with the class-file magic number and is consumed to its last byte: no proper prefix of an accepted input and no accepted input with bytes appended is accepted. "
  "Every attribute whose contents are interpreted occupies exactly the number of bytes its length field declares, at every nesting level; any other declared length is rejected.",
  ["inputs"], "all accepted inputs, all their prefixes and extensions, all declared attribute lengths at all nesting levels",
  T + "no truncation, extension or length perturbation is tried.",
  ["src/lib.rs", "src/attributes.rs"],
  [("end-of-input check", "src/lib.rs parse_class_with_options"), ("expected_end_ix comparison, ensure_length", "src/attributes.rs read_attributes")],
  ["parse_class result"])
p("C03", "Constant pool structure: tags, versions, slots, references and kinds",
  "A class is accepted only if every constant pool entry has a tag defined for the file's major version (method handles, method types and invokedynamic from 51, modules and packages from 53, dynamic constants from 55), a long or double takes two slots both of which are inside the pool, and every reference made by an entry stays inside the pool, is not to the entry itself and is to an entry of a kind that the referring entry allows (for method handles: the kind demanded by the reference kind, where static and special invocations may name interface methods only from version 52). "
  "Slot zero and the second slot of a long or double are never a valid target. Conversely a pool that satisfies these rules and whose names and descriptors are well formed is never a reason for rejection.",
  ["inputs"], "all pools: any order of entries (forward and backward references), any indices, any major version",
  T + "validators are called on entries built by hand; resolution, slot accounting, version gates and out-of-range or self references are not tested.",
  ["src/constant_pool.rs"],
  [("read_constant_pool", "src/constant_pool.rs"), ("ConstantPoolRef::resolve", "src/constant_pool.rs"), ("ConstantPoolEntry::validate", "src/constant_pool.rs")],
  ["parse_class result", "constantpool_iter"],
  state=[("constant_pool", "entries by index, slot 0 and second slots included", "ClassFile")])
p("C04", "Names and descriptors in the constant pool are checked against the JVM grammar",
  "A class is accepted only if every class entry names a binary class name or an array descriptor, every name-and-type has an unqualified name and text as descriptor, every field, method, interface-method, dynamic and invokedynamic entry points at a name-and-type whose descriptor has the matching form, every method type is a method descriptor, every module name and every package name is well formed (JVMS 4.2 and 4.3). "
  "Conversely no well-formed name or descriptor is rejected, and no check depends on the order of the entries.",
  ["inputs"], "all strings as class, member, module and package names and as field and method descriptors, including empty, non-ASCII and non-Unicode ones",
  T + "a dozen names and descriptors are checked.",
  ["src/constant_pool.rs", "src/names.rs", "src/descriptors.rs"],
  [("validate_classinfo_name and friends", "src/constant_pool.rs"), ("is_binary_name, is_unqualified_name, is_module_name", "src/names.rs"), ("is_field_descriptor, is_method_descriptor", "src/descriptors.rs")],
  ["parse_class result"])
p("C05", "Iterating the constant pool reports every entry once, in order, with its values",
  "The constant pool iterator of an accepted class yields exactly one item for each entry that is not raw text or an unusable slot, in pool order, and nothing else. "
  "Each item has the entry's own kind and the exact values it denotes: numeric constants bit for bit, names, descriptors and member references followed through the pool, reference and member kinds, bootstrap indices.",
  ["inputs"], "all accepted pools, up to 65534 entries",
  "One test iterates one pool and counts kinds; values and other kinds are not compared.",
  ["src/constant_pool.rs", "src/lib.rs"],
  [("ConstantPoolIter::next", "src/constant_pool.rs"), ("make_method_handle", "src/constant_pool.rs")],
  ["ClassFile::constantpool_iter"])
p("C06", "Strings: modified UTF-8 is decoded exactly; plain text is borrowed, not copied",
  "Every string reported from an accepted class is the modified UTF-8 decoding of the bytes in the file (encoded NULs and surrogate pairs included); when those bytes are already the decoded text, the reported string is a slice of the input itself. "
  "A string constant that is not representable as Unicode is reported as exactly the raw bytes, wherever it is a literal, and such bytes used as any other name or text cause rejection. Byte slices (code, unknown attributes) are the exact sub-slices of the input.",
  ["inputs"], "all byte strings as pool text, in every place where text is reported",
  T + "one compiled class with an unpaired surrogate is parsed, without looking at the value; borrowing is never observed.",
  ["src/constant_pool.rs", "src/attributes.rs"],
  [("read_constant_utf8", "src/constant_pool.rs"), ("string_literal", "src/constant_pool.rs"), ("SourceDebugExtension", "src/attributes.rs")],
  ["every Cow<str> and &[u8] in the parsed class"])
p("C07", "Descriptors are parsed completely, exactly, and print back as written",
  "Every field, method, local-variable, annotation, enum and record-component descriptor, and every array type named by an instruction, of an accepted class is a complete descriptor with nothing after it, is reported with its exact dimensions, element type, class name, parameters in order and return type, and formats back to the very text it came from. "
  "Text that is not exactly one descriptor, or has more than 255 dimensions, is rejected in each of these places, and none that is well formed is rejected.",
  ["inputs"], "all strings in every place that takes a descriptor; all dimension counts",
  "Unit tests cover about twenty descriptors through the inner functions; the places where descriptors are used are not tested.",
  ["src/descriptors.rs", "src/lib.rs", "src/attributes.rs", "src/constant_pool.rs"],
  [("parse_field_descriptor, parse_method_descriptor, parse_array_descriptor", "src/descriptors.rs"), ("Display impls", "src/descriptors.rs")],
  ["FieldInfo.descriptor", "MethodInfo.descriptor", "Display of descriptors"])
p("C08", "Class header: versions, flags, this, super and interfaces are reported exactly",
  "An accepted class reports the minor and major version as written, exactly those access flags that are defined for classes, its own name, its super class (none exactly when the index is zero), and its interfaces in file order. "
  "A this, super or interface index that is not a class entry naming a plain (non-array) class is rejected.",
  ["inputs"], "all versions, all 65536 flag words, all indices and pool kinds, up to 65535 interfaces",
  T + "the header fields of the parsed classes are not compared.",
  ["src/lib.rs"], [("parse_class_with_options, read_interfaces", "src/lib.rs"), ("ClassName::try_from", "src/descriptors.rs")],
  ["ClassFile fields"])
p("C09", "Fields: order, flags, names, descriptors, uniqueness",
  "An accepted class reports its fields in file order, each with exactly the flags defined for fields, its name, descriptor and attributes. "
  "A field whose name is not an unqualified name is rejected, and so is a second field with the same name and descriptor; fields that differ in either are accepted.",
  ["inputs"], "all field tables, all flag words, all names, all duplicate positions",
  T + "no duplicate or ill-named field is parsed.",
  ["src/lib.rs"], [("read_fields", "src/lib.rs")], ["ClassFile::fields"])
p("C10", "Methods: order, flags, names, initialisers, uniqueness",
  "An accepted class reports its methods in file order, each with exactly the flags defined for methods, its name, descriptor and attributes. "
  "A method name containing '<' or '>' is accepted only as <init> (never in an interface, and only returning void) or <clinit> (only returning void, and from version 51 only without parameters); other names must be unqualified. "
  "A second method with the same name and descriptor is rejected; methods that differ in either are accepted.",
  ["inputs"], "all method tables, flag words, names, versions, interface or not, all duplicate positions",
  T + "no rejection rule for methods is exercised.",
  ["src/lib.rs", "src/names.rs"], [("read_methods", "src/lib.rs"), ("is_unqualified_method_name", "src/names.rs")], ["ClassFile::methods"])
p("C11", "Module classes are accepted only in module shape",
  "A class whose flags include the module flag is accepted only from major version 53, with no other defined class flag, no super class, no interfaces, no fields and no methods. "
  "None of these restrictions applies to a class without the module flag.",
  ["inputs"], "all combinations of version, flag word, super class, interfaces, fields and methods",
  T + "module descriptors with any of these violations are never parsed.",
  ["src/lib.rs"], [("is_module checks", "src/lib.rs parse_class_with_options")], ["parse_class result"])
p("C12", "Dynamic constants and call sites always have their bootstrap method",
  "A class whose constant pool has a dynamic constant or an invokedynamic entry is accepted only if it has exactly one class-level bootstrap-methods attribute and every such entry's bootstrap index is below its number of methods. "
  "A class without such entries is accepted with any number of bootstrap-methods attributes; bootstrap-methods attributes elsewhere do not count.",
  ["inputs"], "all pools with dynamic entries, all numbers, places and sizes of bootstrap tables",
  T + "only compiler-made, consistent bootstrap tables are parsed.",
  ["src/lib.rs", "src/attributes.rs"], [("validate_bootstrap_methods", "src/lib.rs"), ("read_bootstrapmethods_data", "src/attributes.rs")], ["parse_class result", "BootstrapMethods data"])
p("C13", "Attributes: one result per attribute, in order, chosen by exact name alone",
  "Wherever attributes occur (class, field, method, code, record component), an accepted class reports one attribute per entry of the table, in order, under its exact name; a name this library knows selects that attribute's own format everywhere, and any other name, including near misses in case, prefix or suffix, yields the attribute's exact bytes uninterpreted. "
  "Repeated attributes are all reported, each independent of the others, and a count, name index or length that runs past its container or the input is rejected.",
  ["inputs"], "all attribute tables at every level, all names, all lengths (also beyond 65535), all orders and repetitions",
  T + "compiler output only; unknown names, foreign places, repetition and big attributes are not covered.",
  ["src/attributes.rs"], [("read_attributes", "src/attributes.rs")], ["AttributeInfo lists"])
p("C14", "Declaration attributes report exactly what the file says",
  "Constant values, exceptions, inner classes, enclosing methods, synthetic and deprecated markers, signatures, source files and debug extensions, nest hosts and members, permitted subclasses, method parameters, record components and bootstrap methods are reported with every entry, in order, with each optional part absent exactly when its index is zero, names followed through the pool, and inner-class flags masked to the defined ones. "
  "An index of another kind than the attribute demands, an ill-formed parameter or component name, or an undefined method-parameter flag is rejected.",
  ["inputs"], "all contents of these attributes, all index kinds, all flag words, all counts",
  T + "attribute values are not compared and no malformed attribute is parsed.",
  ["src/attributes.rs", "src/constant_pool.rs"], [("read_*_data", "src/attributes.rs"), ("read_cp_*", "src/constant_pool.rs")], ["AttributeData variants"])
p("C15", "Module attributes report the module declaration exactly",
  "The module attribute of an accepted class is reported with its name, flags, optional version, and its requires, exports, opens, uses and provides entries, each complete, in order and with its own names, flags, versions and target lists; module packages and main class likewise. "
  "Wrong-kind indices and undefined flag bits in any of these positions are rejected.",
  ["inputs"], "all module declarations, all index kinds, all flag words",
  T + "module attributes are parsed only where a compiled module-info happens to be among the samples, and not compared.",
  ["src/attributes.rs"], [("read_module_data, read_modulepackages_data", "src/attributes.rs")], ["AttributeData::Module, ModulePackages, ModuleMainClass"])
p("C16", "Annotations are reported exactly, at any nesting",
  "Every annotation (visible, invisible, per parameter, default value) of an accepted class is reported with its type, its elements in order by name, and each value with its own kind and content: constants bit for bit, strings, enum type and constant, class literals including void, nested annotations and arrays to any supported depth. "
  "An unknown value tag, a constant of the wrong pool kind, or an ill-formed type or class literal is rejected.",
  ["inputs"], "all annotation trees, all 256 tags, all index kinds, nesting at least 32 deep",
  T + "annotation values are not compared.",
  ["src/attributes.rs"], [("read_annotation, read_annotation_element_value, read_parameter_annotation_data", "src/attributes.rs")], ["Annotation values"])
p("C17", "Type annotations: every target and path is reported exactly",
  "Every type annotation of an accepted class is reported with the target its target-type byte selects (with that target's operands), its path steps in order, and its annotation. "
  "A target type or path kind the format does not define is rejected.",
  ["inputs"], "all 256 target types, all operands, all paths",
  T + "no type annotation is compared or malformed.",
  ["src/attributes.rs"], [("read_type_annotation_data", "src/attributes.rs")], ["TypeAnnotation values"])
p("C18", "Stack map frames are reported exactly",
  "Every stack map frame of an accepted class is reported with the frame kind its tag selects, its offset delta, its chopped count, and its locals and stack with each verification type, class and code offset. "
  "A reserved frame tag, an undefined verification type or a wrong-kind class index is rejected.",
  ["inputs"], "all 256 frame tags, all verification types, all counts",
  T + "frames are not compared.",
  ["src/attributes.rs"], [("read_stackmaptable_data, read_stackmaptable_verification", "src/attributes.rs")], ["StackMapEntry values"])
p("C19", "Code attributes report limits, bytes, handlers and debug tables exactly",
  "Every code attribute of an accepted class is reported with its stack and local limits, the exact code bytes, its exception table in order (a catch type absent exactly when its index is zero), its line-number, local-variable and local-variable-type tables entry by entry, and its further attributes. "
  "A wrong-kind index or ill-formed variable name in any of these, or a code length running past the input, is rejected.",
  ["inputs"], "all code attributes, all tables and counts, code up to and beyond 65535 bytes",
  T + "code attributes are parsed but their values are not compared.",
  ["src/attributes.rs"], [("read_code_data, read_linenumber_data, read_localvariable_data, read_localvariabletype_data", "src/attributes.rs")], ["CodeData and table values"])
p("C20", "Bytecode decodes to exactly the instructions in the code, tiling it completely",
  "With bytecode parsing on, the reported instructions start at offset zero, follow each other without gap or overlap in increasing offset order up to the end of the code, and each is the instruction its bytes encode, with exact operands (short, wide and implicit forms, switches with their padding, sign-extended immediates, constants and members followed through the pool). "
  "Undefined opcodes, truncated operands, non-zero reserved bytes, inverted switch ranges and pool entries of a kind the instruction does not allow are rejected.",
  ["inputs"], "all code arrays: 256 opcodes, 256 wide forms, all operands, all alignments of switches, all pool kinds per instruction",
  T + "decoded instructions are never compared.",
  ["src/bytecode.rs", "src/constant_pool.rs"], [("read_opcodes", "src/bytecode.rs")], ["ByteCode::opcodes"])
p("C21", "Every jump of a parsed method lands on an instruction",
  "In an accepted class parsed with bytecode, every branch, subroutine jump, and every switch target including the default, lands exactly on the start of an instruction of the same code. "
  "A target before the code, at or past its end, or inside an instruction is rejected whatever the instruction's position and offset value, and code whose targets are all valid is not rejected on their account.",
  ["inputs"], "all branch instructions, all source and target positions, all 16- and 32-bit offsets including extremes",
  T + "no invalid jump is ever parsed.",
  ["src/bytecode.rs"], [("validate_jumps, validate_opcode_jumps, validate_jump", "src/bytecode.rs")], ["parse_class result"])
p("C22", "Looking up an instruction by offset finds it exactly when it is there",
  "For every decoded code and every offset, the lookup returns the position of the instruction starting at that offset, and nothing if no instruction starts there, also for offsets past the end up to the largest representable one.",
  ["inputs"], "all increasing offset sequences and all queried offsets",
  "The unit test queries four sequences of at most three instructions.",
  ["src/bytecode.rs"], [("get_opcode_index", "src/bytecode.rs")], ["ByteCode::get_opcode_index"])
p("C23", "Switching bytecode parsing off changes nothing but the decoded instructions",
  "With bytecode parsing off every code attribute has no decoded instructions, and otherwise the result is the same as with it on; parsing with default options is parsing with bytecode on. "
  "A class is rejected with the option on but accepted with it off only because its code does not decode or has an invalid jump, and is never accepted with it on but rejected with it off.",
  ["inputs", "configurations"], "all inputs under both option values, at all places where code occurs",
  T + "the option is never switched.",
  ["src/lib.rs", "src/attributes.rs"], [("ParseOptions::parse_bytecode, read_code_data", "src/lib.rs, src/attributes.rs")], ["CodeData.bytecode", "parse result under both options"])
p("C24", "The thread-safe build behaves exactly like the default build",
  "For every input and option the library built with the threadsafe feature accepts exactly what the default build accepts and reports the same values, including the iterator's items.",
  ["inputs", "configurations"], "all inputs, both feature sets",
  "The two feature sets are never compared; continuous integration builds one test run each.",
  ["src/constant_pool.rs", "src/lib.rs"], [("CafeRc, CafeCell, peel!", "src/lib.rs, src/constant_pool.rs")], ["parse result in both builds"])
p("C25", "A parsed class can be shared and read by many threads at once",
  "With the threadsafe feature a parsed class can be sent to and shared between threads; any number of threads iterating over its constant pool, in any interleaving, all finish (no deadlock, no poisoning, no panic) and each sees the same sequence of items a single thread sees. "
  "Reading or iterating never takes a lock it already holds and takes nested locks in an order without cycles, for every accepted pool.",
  ["schedules", "inputs"], "all interleavings of any number of reader threads, all accepted pools",
  "An example prints from a few threads; no schedule is explored.",
  ["src/constant_pool.rs", "src/lib.rs"], [("CafeCell = Mutex, peel!", "src/constant_pool.rs"), ("ConstantPoolIter::next, make_method_handle", "src/constant_pool.rs")],
  ["constantpool_iter on several threads", "lock acquire/release events (hook)"], hook="lock event trace of the thread-safe cells (cargo feature verif-hooks)")
p("C26", "Iterators over a pool are independent and stay finished",
  "Any number of constant pool iterators of one class, created at any time and advanced in any interleaving, each yields the full item sequence from its start, unaffected by the others. "
  "Once an iterator has returned nothing it keeps returning nothing, and advancing or dropping iterators changes neither the class nor later iterations.",
  ["histories", "inputs"], "all histories of creating, advancing and dropping iterators over all accepted pools",
  "The test runs one iterator once.",
  ["src/constant_pool.rs"], [("ConstantPoolIter", "src/constant_pool.rs")], ["constantpool_iter"])
p("C27", "Class names can be built only from valid binary names and convert back unchanged",
  "Converting text into a class name succeeds exactly when the text is one or more non-empty segments separated by single slashes, none containing '.', ';' or '['. "
  "The class name's text, its formatting and its conversion back are that same text (still borrowed if it was), and equality, ordering and hashing are those of the text.",
  ["inputs"], "all strings, borrowed and owned, all pairs of names",
  "Two or three names are tried.",
  ["src/descriptors.rs"], [("ClassName TryFrom/From/Deref/Display/derives", "src/descriptors.rs")], ["ClassName"])
p("C28", "Parsing is a pure function of the bytes and the options",
  "The result for an input (accept or reject, every value, the error text) depends only on its bytes and the options: not on earlier parses, successful or failed, not on other threads parsing at the same time, not on where in memory the bytes lie, and not on the run.",
  ["histories", "schedules", "inputs"], "all sequences and interleavings of parses of any inputs",
  T + "each input is parsed once.",
  ["src/lib.rs"], [("no global or thread-local state", "whole crate"), ("HashSet used for membership only", "src/lib.rs read_fields, read_methods")], ["parse result", "Display of ParseError"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
