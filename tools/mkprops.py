"""Writes properties.jsonl (run once by hand when a property changes)."""
import json, os
P = []
G = "asn1_parser/generators/"
def p(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": observe, "hook_needed": None}})

p("C01", "Generated C structs lay out every SEQUENCE member exactly",
  "For every consistent bundle, the headers written by generate-cfs, generate-c and generate-binary compile, and each struct has exactly the members of its SEQUENCE, in order, under the dashes-to-underscores name. Booleans, enumerations and unsigned integers whose width is not 8, 16, 32 or 64 bits are adjacent bitfields of the minimal width, all other members are byte aligned objects of their exact size (stdint integer of the right signedness, float or double, char array, array, nested struct), with no padding in between. The layout of a type is the same whether a member names a built-in type directly, an own alias or a POSIX-named alias.",
  ["inputs", "programs"],
  "all member sequences over all supported member kinds, nesting and arrays, for the three C producing commands",
  "The tests compare the text of a few fixed headers and never compile one; the layout depends on the combination and order of members, which is unbounded.",
  [G + "generator.py", "asn1_parser/utils/size.py", G + "cfs/generator.py", "asn1_parser/asn1/grammar_elements/"],
  [("mapping of ASN.1 types to C types and bit widths", G + "generator.py"), ("bit sizes", "asn1_parser/utils/size.py"), ("packed attribute", G + "cfs/generator.py")],
  ["sizeof, member offsets, widths and signedness of the compiled headers"])
p("C02", "Every value admitted by a range fits the generated field",
  "For every INTEGER or REAL range, each admitted value can be stored in the C field and in the COSMOS item generated for it and read back unchanged (REAL: without overflow), and the field is the smallest one of its kind that can. A range that no supported field can hold is refused instead of being truncated. A POSIX-named alias is only accepted with exactly the range its name promises.",
  ["inputs"],
  "all pairs of range ends at and around every power of two up to 2^65, direct and through aliases and arrays",
  "Tests use a dozen ranges; off-by-one errors live at the ends of the widths nobody sampled.",
  ["asn1_parser/utils/size.py", "asn1_parser/asn1/processor.py", G + "generator.py", G + "cosmos/generator.py"],
  [("get_bit_size and type classes", "asn1_parser/utils/size.py"), ("range to type mapping, POSIX check", "asn1_parser/asn1/processor.py")],
  ["values stored through the compiled C member", "bit size and type of COSMOS items", "exit status"])
p("C03", "COSMOS packets list every member with the right width and type",
  "A packet generated by generate-cosmos lists exactly the leaf members of the requested SEQUENCE, nested SEQUENCEs flattened in place and in order, under the member's own name. Each item has the bit size and COSMOS type of its ASN.1 type (UINT for unsigned, BOOLEAN and ENUMERATED, INT for negative ranges, FLOAT 32/64, STRING of 8 bits per character), and a SEQUENCE OF becomes one array item whose total size is length times element size.",
  ["inputs", "programs"],
  "all member sequences over all supported member kinds, nesting depths, imports and aliases",
  "Tests compare a few complete output files; any other combination of members, nesting and aliases is unchecked.",
  [G + "cosmos/generator.py", G + "cosmos/templates.py", "asn1_parser/utils/size.py"],
  [("recursive item creation", G + "cosmos/generator.py"), ("text templates", G + "cosmos/templates.py")],
  ["items of the COSMOS text file"])
p("C04", "COSMOS annotations follow the model",
  "Each COSMOS item carries the comment of its member as description, its unit as UNITS, LITTLE_ENDIAN exactly if the member's comment says ENDIANNESS(LITTLE), one STATE per enumeration item (and False/True for BOOLEAN) with its value, and LIMITS with the range ends exactly for floating point ranges narrower than the type. The packet carries the comment of its SEQUENCE. Annotations never leak to another item, packet or run.",
  ["inputs", "programs"],
  "all combinations of annotation and type on up to three adjacent members, nested or not",
  "Tests show a few annotated items; leaks between neighbours depend on combinations.",
  [G + "cosmos/generator.py", G + "cosmos/templates.py", "asn1_parser/asn1/grammar.py"],
  [("comment grammar", "asn1_parser/asn1/grammar.py"), ("item annotations", G + "cosmos/templates.py")],
  ["description, UNITS, STATE, LIMITS, endianness of the COSMOS text file"])
p("C05", "cFS header and COSMOS packet describe the same bits",
  "For every SEQUENCE, the cFS struct and the COSMOS packet generated from the same bundle have the same leaf members in the same order with the same widths, signedness and value names, and where all members end on byte boundaries the same offsets and total size. Enumeration constants and COSMOS states have the same values, and the constants of the cFS message id header equal the COSMOS identifier values of the same fields.",
  ["inputs", "programs"],
  "all member sequences and nestings over the supported kinds, both generators run on the same files",
  "No test relates the two generators; each is compared with its own golden files.",
  [G + "generator.py", G + "cosmos/generator.py", G + "cfs/generator.py", "asn1_parser/utils/size.py"],
  [("two independent size computations", G + "generator.py and " + G + "cosmos/generator.py")],
  ["compiled cFS header against COSMOS items"])
p("C06", "cFS message ids are the 16 CCSDS identification bits",
  "For every combination of version (3 bits), packet type, secondary header flag and APID (11 bits) fixed in a CCSDS primary header, generate-cfs defines <MESSAGE>_MID as exactly the 16-bit number made of these fields from most to least significant, absent fields being 0. Hence two messages get the same id only if their header fields are the same, whatever the order in which the fields are written.",
  ["inputs"],
  "all 65536 header values and all subsets and orders of the four fields",
  "Tests sample a few headers; a wrong shift or precedence shows only for particular bit combinations.",
  [G + "cfs/generator.py", "asn1_parser/asn1/processor.py"],
  [("message id computation", G + "cfs/generator.py")],
  ["value of the preprocessed _MID macro"])
p("C07", "cFS msgids header defines every fixed value exactly",
  "For every WITH COMPONENTS specification, at any nesting depth and for any number of specified members, the message id header defines one macro <MESSAGE>_<COMPONENT> per fixed component whose C value is the fixed number or boolean, and defines nothing else.",
  ["inputs", "programs"],
  "all trees of fixed components up to the bound, all value kinds (negative, large, real, boolean)",
  "Tests compare a few generated headers; the combination of nesting, several members and value kinds is open.",
  [G + "cfs/generator.py", "asn1_parser/c_printer.py", "asn1_parser/c_data.py"],
  [("component processing", G + "cfs/generator.py"), ("printing", "asn1_parser/c_printer.py")],
  ["macros defined by the compiled msgids header"])
p("C08", "generate-c initialises objects with exactly the fixed values",
  "For every SEQUENCE with WITH COMPONENTS, the .c file written by generate-c compiles against its header and defines one object, named like the type with a lower-case first letter, whose fixed members have exactly the fixed values and whose other members are zero. This holds at any nesting depth, for any number and order of specified members and any mix of value kinds.",
  ["inputs", "programs"],
  "all trees of fixed components up to the bound, all subsets and orders of members, all value kinds",
  "Tests compare the text of a few .c files and never compile one.",
  [G + "c/generator.py", "asn1_parser/c_printer.py", "asn1_parser/c_data.py"],
  [("initialiser generation", G + "c/generator.py"), ("header/source printing", "asn1_parser/c_printer.py")],
  ["values read from the compiled object"])
p("C09", "Binary files are the memory image of the specified values",
  "For every SEQUENCE with fixed values, generate-binary either writes <name>.bin, the complete image of the packed struct with every value in definition order, in its exact size and in the requested byte order, or refuses (values that do not fit, members without a value, kinds it does not support); it never writes a shorter, longer or reordered image. The image does not depend on the order in which the components are written, on nesting or on other definitions. Read on a machine of that byte order through the struct of the generated header, the file gives back the specified values, and it equals the memory of the object that generate-c initialises.",
  ["inputs", "programs", "configurations"],
  "all member type combinations and boundary values, all orders of components, both byte orders, several messages per module",
  "Tests compare two or three byte strings; wrong sizes, signs or orders show only for particular types, values and permutations.",
  [G + "binary/generator.py", "asn1_parser/c_printer.py"],
  [("value packing", G + "binary/generator.py"), ("file writing", "asn1_parser/c_printer.py")],
  ["bytes of the .bin files, read back through the compiled header"])
p("C10", "Enumeration items get the numbers the model gives them",
  "Items without explicit numbers are numbered from 0 in order, explicitly numbered items keep their number in C, COSMOS and binary headers whatever the order in which they are written, and the field is just wide enough for the largest number. Duplicate, negative or non-consecutive numbers are refused.",
  ["inputs"],
  "all assignments of explicit numbers -1..n to up to n items, all sizes around powers of two",
  "Tests use one or two enumerations; the validity check and sorting depend on the whole assignment.",
  ["asn1_parser/asn1/processor.py", "asn1_parser/asn1/grammar_elements/enumerated.py", G + "generator.py", G + "cosmos/generator.py"],
  [("numbering and checks", "asn1_parser/asn1/processor.py"), ("width", "asn1_parser/asn1/grammar_elements/enumerated.py")],
  ["values of the C enumerators", "COSMOS states", "exit status"])
p("C11", "Definitions may be written in any order",
  "For every acyclic set of type definitions and every order of writing them down, generation succeeds, each generated C header defines every type once and before its first use, and all artefacts mean the same. Circular type definitions are refused, never accepted and never an endless run.",
  ["inputs", "programs"],
  "all dependency graphs on up to four definitions (sequence, enumeration, alias, array members) in all orders, cyclic ones included",
  "Tests contain a few orders of a few files; sorting errors need a particular graph and order.",
  [G + "cfs/module_sorter.py", "asn1_parser/asn1/asn1_bundle_builder.py", "asn1_parser/asn1/validation/asn1_bundle_validator.py"],
  [("definition sorting", G + "cfs/module_sorter.py"), ("cycle check", "asn1_parser/asn1/validation/asn1_bundle_validator.py")],
  ["compiled headers", "COSMOS packets", "exit status"])
p("C12", "Modules can be split and passed in any order",
  "For every acyclic import graph between modules and every order of input files and of --asn1-modules, generation succeeds, each header includes the headers of the modules it imports from so that any of them can be included first or alone, and imported types mean exactly what they mean in their own module, also when reached over several modules or by several paths. Circular imports are refused, never accepted and never an endless run.",
  ["inputs", "programs", "configurations"],
  "all directed graphs on up to four modules, all file orders, all single header inclusions",
  "Tests use a few fixed multi-module bundles in one order.",
  [G + "cfs/module_sorter.py", "asn1_parser/asn1/asn1_bundle_builder.py", "asn1_parser/asn1/asn1_bundle.py", G + "cosmos/generator.py"],
  [("module sorting", G + "cfs/module_sorter.py"), ("dependency resolution", "asn1_parser/asn1/asn1_bundle_builder.py"), ("recursive lookup", G + "cosmos/generator.py")],
  ["compiled headers", "COSMOS packets", "exit status"])
p("C13", "Inconsistent bundles are refused, consistent ones accepted",
  "Every command exits non-zero for a bundle that uses an undefined type, imports from a missing module or a name its module does not define, defines a type or module twice, fixes a component that the SEQUENCE does not have, uses NULL, reverses a range, gives a string or array a negative size, gives a POSIX name another range, or whose --asn1-modules differ from the modules passed (duplicates included). The defect is found wherever in the bundle it is, and a bundle without any of these defects, made of the constructs APG supports, is accepted.",
  ["inputs", "programs", "configurations"],
  "all single and paired defects at all positions of a family of bundles, for all four commands",
  "Tests check one position per message; a check that looks only at the first module, item or nesting level passes them.",
  ["asn1_parser/asn1/validation/asn1_bundle_validator.py", "asn1_parser/asn1/processor.py", "asn1_parser/asn1/asn1_bundle_builder.py", "asn1_parser/main.py"],
  [("bundle validation", "asn1_parser/asn1/validation/asn1_bundle_validator.py"), ("model checks", "asn1_parser/asn1/processor.py")],
  ["exit status"])
p("C14", "A refused bundle changes nothing",
  "When a command refuses its input because of a syntax or consistency error, the output folder and everything in it is exactly as before (and not created if absent). No command ever modifies, creates or removes anything outside its output folder, its input files included.",
  ["inputs", "histories", "configurations"],
  "all refusal kinds x all commands x all previous contents of the output folder",
  "Tests look at error texts only, never at what a refused run left behind.",
  ["asn1_parser/main.py", "asn1_parser/asn1/asn1_bundle_builder.py", G + "cosmos/generator.py", G + "cfs/generator.py"],
  [("validation before generation", "asn1_parser/main.py")],
  ["file tree before and after the run"])
p("C15", "A COSMOS packet does not depend on what else is requested",
  "For every selection and order of messages, the COSMOS file contains exactly one packet per requested message in the requested order, and each packet is the same as when requested alone. A request that names anything but a SEQUENCE of the module is refused and writes nothing. Further runs into the same file append complete packets and leave earlier ones unchanged.",
  ["inputs", "histories"],
  "all sequences of requested messages (repetitions included) and all histories of runs up to the bound",
  "Tests request one fixed list; shared mutable state between packets shows only for particular sequences.",
  [G + "cosmos/generator.py", G + "cosmos/templates.py"],
  [("per message item list", G + "cosmos/generator.py")],
  ["packets of the COSMOS text file"])
p("C16", "Comments and text layout never change the generated code",
  "Adding, removing or changing comments, units, indentation, line breaks or blank lines anywhere the grammar allows them never changes the meaning of generated C or binary files, and changes only descriptions, units and item endianness in COSMOS files. Every comment that is accepted yields artefacts that are still valid.",
  ["inputs", "programs"],
  "all sets of up to two comment positions, all short comment texts over a critical alphabet, all layout variants",
  "Tests have comments at a few places with harmless text.",
  ["asn1_parser/asn1/grammar.py", "asn1_parser/asn1/processor.py", G + "generator.py", "asn1_parser/c_printer.py"],
  [("comment grammar", "asn1_parser/asn1/grammar.py"), ("comment check", "asn1_parser/asn1/processor.py"), ("comment printing", G + "generator.py")],
  ["preprocessed C text, binary files, COSMOS items"])
p("C17", "Generation is deterministic",
  "The same files and arguments give byte-identical artefacts, whatever the hash seed of the interpreter, the working directory, absolute or relative paths, earlier runs in the same process, or the environment. Artefacts contain no date, path or other trace of the run.",
  ["inputs", "schedules", "configurations"],
  "all iteration orders of the sets used (through hash seeds), all path styles and run histories up to the bound",
  "Each test runs once in one environment; an order that depends on hashing differs only between interpreter runs.",
  [G + "cfs/module_sorter.py", "asn1_parser/asn1/asn1_bundle_builder.py", G + "cosmos/generator.py", "asn1_parser/main.py"],
  [("sorted output", G + "cfs/generator.py")],
  ["bytes of all artefacts"])
p("C18", "A failing file operation is never reported as success",
  "Whatever single file operation of a run fails (reading an input, creating a folder, opening, writing or closing an artefact), the command exits non-zero unless all artefacts are complete. A later run without the fault produces exactly the artefacts of an undisturbed run (for COSMOS after removing the partial file).",
  ["fault_sequences", "crash_points"],
  "a fault at every file operation of every command, one and two faults per run, several error codes, short and failing writes",
  "No test injects a fault.",
  ["asn1_parser/c_printer.py", G + "cosmos/generator.py", "asn1_parser/asn1/parser.py", "asn1_parser/main.py"],
  [("file writing", "asn1_parser/c_printer.py"), ("file reading", "asn1_parser/asn1/parser.py")],
  ["exit status, bytes of all artefacts"])
p("C19", "Exactly the documented files are written, and rewriting is idempotent",
  "generate-cfs writes <module>_msg.h and <module>_msgids.h per module, generate-c <module>.h and <module>.c, generate-binary <module>.h plus one .bin per SEQUENCE with fixed values, generate-cosmos <name>.txt, into the given folder (output/<cfs, c, binary or cosmos> of the working folder if none is given; created with its parents if absent) and nothing else. Running again, after any other runs and over any previous content of these files, gives the same artefacts as a run into an empty folder (generate-cosmos appends).",
  ["inputs", "histories", "configurations"],
  "all histories of runs of the four commands over several bundles into one folder up to the bound, all module name shapes",
  "Tests run each command once into a fresh folder.",
  ["asn1_parser/c_printer.py", G + "cfs/generator.py", G + "c/generator.py", G + "binary/generator.py", G + "cosmos/generator.py"],
  [("file names and modes", "asn1_parser/c_printer.py")],
  ["names and bytes of all files in the output folder"])
p("C20", "COSMOS identifier items are exactly the fixed values",
  "In a COSMOS packet an item is an identifier item if and only if the SEQUENCE fixes that very member through WITH COMPONENTS, at whatever nesting depth and whether fixed from the outside or at the member itself, and its identifier value is the fixed value. Members of the same name elsewhere, or the same type used in other members or messages, are not affected.",
  ["inputs", "programs"],
  "all trees of fixed components up to the bound, repeated types and member names included",
  "Tests show the one usual header; confusion between levels, members or messages needs particular trees.",
  [G + "cosmos/generator.py", "asn1_parser/asn1/processor.py"],
  [("component propagation", G + "cosmos/generator.py")],
  ["identifier items of the COSMOS text file"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
