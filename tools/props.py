NA = {}
PROPS = []


def P(id, title, statement, over, quant, why, files, mech, obs, tech, note):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                      mech=mech, obs=obs, tech=tech, note=note))


P("C01", "Expressions mean in the generated program what they mean in the source",
  "Every well-typed expression of the language computes, in the program che produces, the value and the side effects that its operators, their C precedence and associativity and the parentheses written in the source prescribe. No grouping is lost, added or reordered by translation, for arithmetic, bitwise, logical, comparison, assignment, increment, cast, sizeof, pointer, index, field and call operators in any combination.",
  ["programs", "inputs"], "all expression trees up to an operator count, over all operators, all placements of parentheses and unary operators; all operand values of a small grid",
  "The suite translates a few dozen library modules and compares their results for chosen inputs; most operator pairs and nestings never occur in them.",
  ["src/parser.rs", "src/format_c.rs", "src/translator.rs", "src/lexer.rs", "src/types.rs"],
  [("operator strength table and descent", "src/parser.rs operator_strength, parse_seq_expr, parse_prefix_expr"),
   ("re-parenthesising printer", "src/format_c.rs fmt_expr, format_binary_op")],
  ["the generated C compiled with gcc and run"],
  "exhaustive enumeration of expression trees, real translator + compiled output vs. fully parenthesised reference",
  "Bounded-exhaustive: every expression tree within the operator bound is translated by the real che, compiled and executed on a value grid. Trusts gcc and the reference printer.")

P("C02", "Statements keep their control flow and scoping in the generated program",
  "For every function body built from the language's statements (if/else, while, for, switch, switch on strings, break, continue, return, declarations, nesting with and without braces) the generated program executes the same observable actions in the same order as the source prescribes, for every outcome of every condition. In particular an else belongs to the nearest if, switch cases never fall through, every label of a case and only those select it, the default is taken exactly when no label matches, a switch value is evaluated once, and a name refers to its innermost declaration.",
  ["programs", "histories"], "all function bodies up to a statement count; all sequences of branch decisions up to a depth",
  "Tests exercise the handful of bodies in the library under fixed inputs; nestings of loops, switches and dangling elses are mostly absent.",
  ["src/parser.rs", "src/translator.rs", "src/format_c.rs"],
  [("statement parser", "src/parser.rs parse_statement, parse_if, parse_for, read_switch"),
   ("switch translation", "src/translator.rs mk_old_switch, mk_str_switch"), ("statement printer", "src/format_c.rs format_statement, fmt_switch")],
  ["traces of calls made by the compiled program"],
  "exhaustive enumeration of programs x all branch-decision sequences (stateless search on the compiled output)",
  "Bounded-exhaustive over programs and decision sequences, executed on the real translated code. Trusts gcc and the braced reference.")

P("C06", "Import graphs: loops are refused, everything else is loaded exactly once",
  "For every set of modules and every way they import one another, by any relative spelling of a path and in any order, che refuses the project, with a message and without writing C files, exactly when the part reachable from the main module contains an import loop or a module that does not exist. Otherwise every reachable module is translated exactly once, however many paths lead to it, in time that does not depend on the number of those paths, and deptree prints the import tree as it is written.",
  ["programs"], "all directed graphs over up to 4 modules, with self loops, edge orders, directories and path spellings; ladders and chains of growing depth",
  "Tests translate acyclic library imports only; loops, diamonds and different spellings of one path are combinations of several modules.",
  ["src/build.rs", "src/main.rs", "src/resolve.rs", "src/preparser.rs"],
  [("tree loading and loop detection", "src/build.rs load_tree and the path stack"), ("path resolution", "src/resolve.rs")],
  ["exit status, messages and C files of che genc", "che deptree"],
  "exhaustive enumeration of import graphs over the real che against a reachability model",
  "Every import graph up to the bound is written to disk and given to the real che.")

P("C07", "Any source text ends in a translation or a reported error, never a crash",
  "Whatever the bytes of the source file are, che terminates within a bounded time and either produces C code with exit status 0 or exits with status 1 and a message that names a position or a reason. It never hangs, overflows its stack on moderately nested text, panics or is killed by a signal.",
  ["inputs"], "all single-token deletions, duplications, swaps, replacements and truncations of a corpus covering the syntax; all token sequences and all byte strings up to a length",
  "Tests only feed well-formed modules; error paths of the parser and translator are numerous and hidden behind specific token contexts.",
  ["src/lexer.rs", "src/parser.rs", "src/translator.rs", "src/preparser.rs", "src/buf.rs", "src/checkers.rs", "src/main.rs"],
  [("lexer", "src/lexer.rs read_token"), ("parser error paths", "src/parser.rs"), ("checks", "src/checkers.rs")],
  ["exit status, stderr and running time of che genc"],
  "exhaustive enumeration of bounded edits, token sequences and byte strings on the real che",
  "Exhaustive within the edit and length bounds on the real binary.")

P("C08", "Static mistakes are found wherever they are and reported at their place",
  "che refuses, with exit status 1, without writing C files and with a message naming the file and the line (for names also the column) of the mistake: uses of undefined names and unknown types; unused local variables, parameters, loop counters, private functions, variables, constants and imports (a use of another thing of the same name in an inner scope does not count); repeated definitions in one scope; calls of non-functions and calls with a wrong number of arguments, of own, imported and C functions, direct and through function types; functions other than main and void ones whose end can be reached without a return or panic (for any values of conditions; while (true) without a break being the only endless loop); operands of types that do not mix (numbers, signed, unsigned, floating, char, bool, pointer, array, struct, also behind aliases), non-boolean conditions of loops, && and ||, dereference of non-pointers. It does so in every expression, statement and block, in the main and in imported modules, and texts without such mistakes are accepted.",
  ["programs"], "all mistakes x all expression and statement contexts x layouts; all sequences of declare/use/open/close up to a length; all function bodies up to a size; all operators x all pairs of operand types",
  "Tests only translate correct modules; whether a mistake is found depends on where it stands.",
  ["src/translator.rs", "src/types.rs", "src/node_queries.rs", "src/parser.rs", "src/cspec.rs"],
  [("scopes and use marks", "src/translator.rs add_binding, mark_binding_use, end_scope"), ("missing returns", "src/node_queries.rs body_returns"), ("operand rules", "src/types.rs typeof_arith, typeof_plusminus, typeof_cmp"), ("calls", "src/translator.rs typeof_call, src/cspec.rs")],
  ["exit status, messages and C files of che genc"],
  "exhaustive enumeration of bounded programs on the real che against lexical, control-flow and type-rule models",
  "Every program of the bounded spaces is given to the real che and the outcome compared with small reference models.")

P("C09", "panic, calloc!, nelem and main behave as promised in the built program",
  "A panic, in any statement position of any module, writes to standard error the line '*** panic at file:line:column ***' with the place of the panic in the source, then the message formatted from its arguments, each evaluated once, and ends the program with status 1: nothing after it runs, what was printed before is not lost. calloc! returns zeroed memory for any count and size or, when there is none, ends the program with status 1 and a message, wherever it stands in an expression. nelem is the number of elements of any array. main returns the exit status of the program, 0 when it ends without a return, and receives the arguments.",
  ["programs", "fault_sequences"], "all panic sites: statement contexts x messages x layouts x modules; all counts and sizes of a grid; every single allocation failure; all array shapes; all ways main ends",
  "Tests never panic and never run out of memory.",
  ["src/translator.rs", "src/format_c.rs", "src/node_queries.rs"],
  [("panic", "src/translator.rs mk_panic"), ("calloc!", "src/translator.rs mk_calloc_or_panic"), ("nelem", "src/translator.rs translate (nelem macro)")],
  ["exit status, standard output and standard error of the built programs", "interposed calloc"],
  "exhaustive enumeration of sites and of failing allocations (fault injection) on the compiled output",
  "Every site of the bounded space is executed in a run of its own, every allocation fails once.")

P("C10", "Commands build, run, install and test what they are told, and report it",
  "che build and che install leave a working executable at the given place (by default the base name of the source without its extension, in the current directory or $CHELANG_HOME/bin) and exit with 0; if the sources or imports are wrong they exit with 1 and a message and leave existing files alone. che run passes arguments and input to the program and its output and exit status back, and never runs an earlier program. che test runs every *.test.c file under the given directories exactly once, reports each as OK or FAIL, shows the output of failing ones, and exits with 0 only if none failed. Unknown commands and wrong argument counts exit with 1 and a message. Libraries named by #link are linked. Translating the same sources again gives the same C text.",
  ["programs", "inputs", "histories"], "commands x source paths x output places x kinds of programs x existing outputs; argument lists, inputs and statuses; all trees of up to three test files",
  "The test suite runs the library tests only; errors, statuses and places are not covered.",
  ["src/main.rs", "src/main_build.rs", "src/main_run.rs", "src/main_install.rs", "src/main_test.rs", "src/main_genc.rs", "src/build.rs", "src/resolve.rs"],
  [("commands", "src/main_*.rs"), ("building", "src/build.rs build_prog")],
  ["exit statuses, outputs, files"],
  "exhaustive enumeration of command configurations on the real binary in scratch projects",
  "Every configuration within the bounds is executed in a scratch project of its own.")

P("C11", "che exports lists the public interface: all of it and nothing else",
  "For every module che exports prints, in source order, exactly the public constants, types (structures, aliases, arrays, function types, C structures) and functions, these with their return type, name and all parameters (names, pointers, array brackets, const, lists of names, ...), and nothing private; several modules are listed one after another.",
  ["programs"], "all pairs (triples) of kinds of declarations, public and private, in all orders; all library modules",
  "There is no test of this command.",
  ["src/main_exports.rs", "src/parser.rs", "src/format_che.rs"],
  [("collection", "src/parser.rs get_exports"), ("printing", "src/main_exports.rs print_exports")],
  ["output of che exports"],
  "exhaustive enumeration of bounded modules on the real che, output compared token by token",
  "Every module of the bounded space is given to the real che.")

P("C20", "Maps return for every key the value last stored under it, at any size",
  "For every sequence of stores, a map (clip/map, clip/map2, clip/stringtable) answers every lookup as an association list would: a key that was stored is found with the value of its latest store, a key that was not is reported missing, keys are compared by all their bytes (including zero bytes, the empty key, keys that are prefixes of one another and keys with equal hashes), and neither growth nor updates with values of another size lose, mix up or duplicate entries. Size and iteration (clip/map) report each key exactly once with its value, a failed lookup changes nothing, and free releases everything.",
  ["histories", "inputs"], "all store sequences up to a depth over a key set with collisions, from every fill level through several growths",
  "Tests store a handful of keys and a random set; the behaviour at growth boundaries, on hash collisions and on repeated updates depends on the history.",
  ["lib/clip/map.c", "lib/clip/map2.c", "lib/clip/stringtable.c"],
  [("open addressing and growth", "lib/clip/map2.c find_slot, alloc_slot, set"), ("linear entries and iteration", "lib/clip/map.c find, create, next"), ("string table", "lib/clip/stringtable.c set")],
  ["results of the public functions", "AddressSanitizer", "allocation balance"],
  "stateless exhaustive enumeration of operation sequences on the real compiled module vs. association-list model",
  "Every operation sequence within the bound is executed on the translated module under AddressSanitizer and compared with the model after the operations.")

P("C21", "Vectors, queues, lists and string builders keep contents exactly and in order",
  "For every sequence of operations: clip/vec keeps every item in place and unchanged through any growth, with zeroed new entries and the right length; clip/buffer is a byte queue that returns exactly the bytes written, in order, whatever the sizes of the writes and reads, and reports its size; clip/llist keeps its items in order of appending and removes the first occurrence only; strbuilder holds the concatenation of everything added since it was created or cleared, of any length, always zero-terminated, and when memory runs out it reports failure and keeps what it had. Freeing releases everything.",
  ["histories", "fault_sequences"], "all operation sequences up to a depth, from every fill level; every allocation failing in turn (strbuilder)",
  "Tests do one linear fill; interleavings of reads and writes of odd sizes, removals and growth boundaries are histories.",
  ["lib/clip/vec.c", "lib/clip/buffer.c", "lib/clip/llist.c", "lib/strbuilder.c"],
  [("vector growth", "lib/clip/vec.c alloc"), ("clip queue", "lib/clip/buffer.c read, write"), ("list unlinking", "lib/clip/llist.c remove"), ("builder growth", "lib/strbuilder.c grow, addc, addf")],
  ["results of the public functions", "AddressSanitizer", "allocation balance"],
  "stateless exhaustive enumeration of operation sequences and allocation faults on the real compiled modules vs. array models",
  "Every operation sequence within the bound is executed on the translated modules under AddressSanitizer.")

P("C22", "Byte and bit streams deliver exactly what was written, through every backend",
  "For every sequence of operations and every size of chunk: a reader (string, buffer, file, descriptor, user-supplied) returns the bytes of its source in order, advances its position by what it returned and reports the end instead of stale data; a writer stores what fits, in order, counts it and reports what did not; bits written in either bit order are read back unchanged and a read past the last byte is reported; integers survive every endian encoding of their width in the named byte order, with truncated input reported; memory streams behave as a byte array with one position that survives any growth, and give byte 255 and the end of data apart; hex and URL encodings are the standard ones for all bytes; line reading returns every line, of any length and with any byte, exactly once, including an unterminated last one. Closing releases everything.",
  ["histories", "inputs"], "all operation sequences up to a depth over boundary sizes; all bit strings up to a length; all 1- and 2-byte texts; all short line texts and line lengths around the buffer sizes",
  "Tests write one sequence and read it back; the interplay of chunk sizes, ends of input, growth and special bytes is history dependent.",
  ["lib/reader.c", "lib/writer.c", "lib/bits.c", "lib/enc/endian.c", "lib/enc/hex.c", "lib/enc/urlencode.c", "lib/mem.c", "lib/linereader.c", "lib/bytereader.c"],
  [("reader and writer dispatch", "lib/reader.c read, lib/writer.c write"), ("bit cursor", "lib/bits.c read1, write1"), ("memory stream growth", "lib/mem.c memwrite, memputc"), ("line growth", "lib/linereader.c read")],
  ["results of the public functions", "AddressSanitizer", "allocation balance"],
  "stateless exhaustive enumeration of operation sequences and inputs on the real compiled modules vs. byte-array models",
  "Every sequence and input within the bounds is executed on the translated modules under AddressSanitizer.")

P("C23", "String helpers and the tokenizer follow their definitions for every text",
  "For all strings: comparison, prefix and suffix tests (case-insensitive for ASCII where named so), trimming, substrings, formatted strings of any length, splitting by a separator into at most the given number of parts (the last one keeping the rest) and size formatting give what their descriptions say and never touch memory outside the given strings and buffers. The tokenizer, over a string, a file or a reader that returns its data in pieces of any size, consumes exactly the characters of what it recognises: after every sequence of calls its next character, its row:column position and the results of each call are those of a cursor over the whole text, identifiers and numbers are cut or refused at the size of the given buffer, and a failed literal match consumes nothing. Error values carry the first 99 characters of their message.",
  ["histories", "inputs"], "all strings up to a length over small alphabets and all pairs of them; all sequences of tokenizer calls up to a depth over all such inputs and reader chunkings",
  "Tests call each helper on a few strings; lookahead across chunk boundaries and buffer limits only show for particular combinations.",
  ["lib/strings.c", "lib/tokenizer.c", "lib/error.c"],
  [("string helpers", "lib/strings.c"), ("prefetching cursor", "lib/tokenizer.c prefetch, get, literal_follows"), ("bounded reads", "lib/tokenizer.c id, num, read_until, buf_read_set")],
  ["results of the public functions", "AddressSanitizer", "allocation balance"],
  "stateless exhaustive enumeration of inputs and call sequences on the real compiled modules vs. a cursor model",
  "Every text and call sequence within the bounds is executed on the translated modules under AddressSanitizer.")

P("C24", "Command line options are read the same way for every argument list",
  "For every argument list, opt.parse assigns each declared option the value of its last occurrence, accepts grouped flags, stops at the first argument that is not an option or is a lone dash and returns the arguments from there on, and refuses (non-zero exit status, usage text) unknown options, missing values, values that are not numbers of the declared kind and a number of positional arguments other than declared. Options that are not given keep their defaults. Subcommand dispatch calls the command with exactly that name, with the arguments shifted by one, and returns its result.",
  ["inputs"], "all argument lists up to a length over a token set with every kind of option, value and malformed token; every declared number of positional arguments",
  "Tests parse three argument lists; the interaction of options, grouped flags and values is combinatorial.",
  ["lib/opt.c"], [("option parser", "lib/opt.c parse"), ("subcommands", "lib/opt.c dispatch")],
  ["values assigned and the returned argument pointer", "exit status"],
  "exhaustive enumeration of argument vectors on the real compiled module vs. a model parser",
  "Every argument list within the bound is parsed by the translated module and by the model.")

P("C25", "Times, zones and durations convert exactly, for every date and unit",
  "For every day of the supported range and every second of a day, converting a Unix time to a calendar time, formatting it, parsing ISO text with any zone offset and fraction, moving it to the local zone and subtracting two times are exact and agree with the proleptic Gregorian calendar; differences do not depend on the process's time zone or on the zones the times are written in. Durations made from any unit, added, formatted in every named format and parsed back keep their value to the precision of the format, at any size, and formatting never writes past the given buffer. Malformed texts are refused.",
  ["inputs"], "every day from 1902 to beyond 2100, every second of a leap day, all zone offsets by quarter hours, all milliseconds; durations over dense grids up to days in every format; all local offsets listed",
  "Tests check one or two timestamps; month, leap-year, zone and carry boundaries are many.",
  ["lib/time.c"], [("calendar conversion", "lib/time.c fromunix, sub"), ("zones", "lib/time.c tzoffset, iso_tolocal"), ("duration formats", "lib/time.c dur_fmt, parse_duration")],
  ["results of the public functions"],
  "exhaustive enumeration of days, seconds, zones and durations on the real compiled module vs. a calendar model",
  "Every date, zone and duration of the grids is run through the translated module.")

P("C26", "HTTP, CGI and URL texts are parsed exactly and within their limits",
  "For every byte string, however it arrives in pieces, reading an HTTP request or response, a CGI head or a URL accepts exactly the well-formed texts whose fields fit their documented sizes and yields their method, URI, path, query, file name, version, status, headers (in order, first match on lookup) and body unchanged, for all byte values in bodies; truncated, malformed or oversized ones and more than 100 headers are refused, without reading or writing outside the given structures. A request written to a stream is the standard text with percent-encoded parameters and reads back as it was set, and a short write is reported. Error pages, texts and files are served with a status, type and Content-Length that match the body sent. MIME lookup knows its table and nothing else. Connections carry bytes unchanged in both directions; IP addresses parse and format to the same text.",
  ["inputs", "schedules"], "all token sequences up to a length, all single edits, truncations and double deletions of valid texts, every field length around its limit, several chunkings; all page sizes of a grid",
  "Tests parse one request and one response; limits, truncation points and chunk boundaries are many.",
  ["lib/protocols/http.c", "lib/protocols/cgi.c", "lib/url.c", "lib/mime.c", "lib/os/net.c"],
  [("request and response parsers", "lib/protocols/http.c read_request, parse_response, read_body"), ("request writer", "lib/protocols/http.c write_request"), ("pages", "lib/protocols/http.c write_404, serve_text, servefile"), ("CGI head", "lib/protocols/cgi.c parse_head"), ("URL", "lib/url.c parse")],
  ["results of the public functions", "bytes received on the other end of a socket", "AddressSanitizer"],
  "exhaustive enumeration of token sequences, edits and limits on the real compiled modules vs. reference parsers",
  "Every text within the bounds is parsed by the translated modules under AddressSanitizer and by the reference parsers.")

P("C03", "Literals keep their value; comments and white space have none",
  "Every string, character and number literal the compiler accepts has, in the generated program, exactly the bytes, the size and the value that C gives that spelling, wherever it stands: escapes, adjacent parts, line breaks, quotes, percent signs, comment openers and non-ASCII text inside strings are kept. Comments and any white space, CR LF line ends included, may stand between any two tokens without changing what the program does.",
  ["inputs", "programs"], "all strings of up to 3 spelling atoms and all pairs and triples of adjacent parts in seven contexts; all character literals; all short number spellings with suffixes and exponents; every separator between every two tokens of a corpus",
  "Tests contain a handful of literals; which escape stands before which character, and which token a comment follows, is a product no test list covers.",
  ["src/lexer.rs", "src/buf.rs", "src/format_c.rs", "src/parser.rs"],
  [("tokeniser", "src/lexer.rs read_token, read_string_literal, read_number, read_char_literal"), ("literal printer", "src/format_c.rs format_literal")],
  ["bytes and sizes seen by the compiled program"],
  "exhaustive enumeration of bounded literal spellings and layouts on the real translator, compiled and compared",
  "Exhaustive over the stated spelling alphabets. Trusts gcc's reading of numbers and a Python reading of C escapes.")

P("C04", "Declarations keep their types, layout, order independence and initial values",
  "Every struct, union, enum, typedef, module variable, local variable, composite literal and parameter list, in single or list form, has in the generated program the size, field offsets, element types and signedness, constant values and initial contents that the same declarators written one by one have in C. Unlisted members are zero, module variables keep their state between calls, parameters receive their arguments in order, and functions, variables, enums and structs referring to one another by pointer may be declared in any order.",
  ["programs", "inputs"], "all field sequences up to 3 entries from 22 forms, all enum and initialiser lists up to 4 entries, all parameter groupings up to 4 names, typedef chains up to 3, all permutations of 6 mutually dependent declarations",
  "Layout and initialisation errors show only for particular sequences of declarators; the suite declares a few structs.",
  ["src/parser.rs", "src/translator.rs", "src/format_c.rs"],
  [("typedef, enum and form parsing", "src/parser.rs parse_typedef, parse_type_and_forms, parse_form, parse_enum, parse_composite_literal"),
   ("declaration translation and ordering", "src/translator.rs tr_struct_typedef, tr_func_params, reorder_elems"), ("printing", "src/format_c.rs format_form, format_union, fmt_expr")],
  ["sizes, offsets and values printed by the compiled program"],
  "exhaustive enumeration of bounded declarations, real translator + compiled output vs. plain C reference",
  "Bounded-exhaustive; trusts gcc for the reference declarations.")

P("C05", "Modules keep their names apart and share exactly what they publish",
  "The same identifier may be a function, variable, enum constant, struct or typedef, public or private, in any number of modules of a project; every use refers to the declaration of its own module or, when qualified, to the public declaration of that module, in every syntactic position. A module's variables exist once per program whatever import paths lead to it. Private and missing names of other modules are refused with a message and no C code. Public types, constants, functions and function pointers of other modules work wherever local ones do, whatever the names of the files are.",
  ["programs"], "all assignments of 12 kinds of declaration to one name in three modules, in six import topologies and several file names; all access forms to public and private members",
  "Clashes need particular kinds in particular modules; the suite's modules rarely share names.",
  ["src/translator.rs", "src/parser.rs", "src/build.rs", "src/preparser.rs", "src/resolve.rs"],
  [("name prefixing", "src/translator.rs nsprefix, tr_nsid, tr_typename, tr_form"), ("exports", "src/parser.rs get_exports; src/nodes.rs exports_has"), ("headers for importers", "src/translator.rs expand_imports, get_module_synopsis")],
  ["values printed by the linked program; exit status and messages of che genc"],
  "exhaustive enumeration of declaration-kind assignments x import topologies on the real translator, linked and run",
  "Exhaustive within the stated kinds and topologies.")

P("C27", "MD5 and SHA-1 give the standard digest of every message",
  "For every byte message, of any length including none and any byte values, the MD5 and SHA-1 functions give the standard digest, as words, bytes and lower-case hexadecimal text; the text is terminated and never written past the given buffer. Equality of digests holds exactly for equal digests. A digest that was reset starts anew; a finished one accepts no more data and keeps its value. The message is not changed and no memory is lost.",
  ["inputs", "histories"], "every length from 0 to several blocks with four contents, all messages up to 6 (8) bytes over four byte values, every single bit of messages around block boundaries, every byte value, lengths around multiples of blocks and pages, every buffer size",
  "Tests hash one or two messages; padding depends on the length modulo the block size and mistakes show for some lengths or byte values only.",
  ["lib/crypt/md5.c", "lib/crypt/sha1.c", "lib/enc/hex.c"],
  [("padding and length", "lib/crypt/md5.c init_padding, next_byte; lib/crypt/sha1.c end"), ("rounds", "lib/crypt/md5.c md5_feed; lib/crypt/sha1.c sha1_feed"), ("formatting", "lib/crypt/sha1.c format, as_bytes; lib/crypt/md5.c md5_sprint, md5_print")],
  ["digests returned by the public functions", "AddressSanitizer"],
  "exhaustive enumeration of bounded messages on the real compiled modules vs. an independent implementation",
  "Every message of the stated families; the reference is Python's hashlib.")

P("C28", "Compressed data comes back unchanged: LZW and Huffman",
  "For every message over every alphabet size from 1 to 256 (LZW) and every text (Huffman), decompressing what was compressed gives the message back, byte by byte and as a whole, at any length including none, across dictionary overflows and arbitrarily long runs, and however the underlying reader splits the bytes; the LZW output does not depend on that either. Huffman codes are prefix-free and take the minimal number of bits; a tree made from canonical length counts decodes and encodes exactly the canonical codes; printed codes are the ones used. Truncated LZW streams and codes outside a tree are refused; no stream makes the decoders touch memory outside their buffers, and nothing allocated is lost.",
  ["inputs", "schedules"], "all messages up to length 12 (16) over 2 to 4 symbols, all alphabet sizes with all lengths up to 40 (140), 20 alphabets up to length 1100 (2300), every end position around dictionary overflow, runs up to 8.6 million symbols, all truncations and single-bit changes, all two-byte streams; all texts up to length 6 (8), count vectors, Fibonacci counts, all canonical length sets up to depth 4 (5)",
  "Code widths change at particular dictionary sizes, so errors need particular lengths and alphabets; tests compress two messages.",
  ["lib/compress/lzw.c", "lib/compress/huffman.c", "lib/bits.c"],
  [("LZW coder and decoder in step", "lib/compress/lzw.c compress, decode, codewidth, resetdict"), ("Huffman trees", "lib/compress/huffman.c buildtree, treefrom, createnode"), ("Huffman streams", "lib/compress/huffman.c read, write, inittable")],
  ["bytes written and read through the public functions", "AddressSanitizer"],
  "exhaustive enumeration of bounded messages, trees and corruptions on the real compiled modules, round trip and reference coder",
  "Exhaustive within the stated bounds.")

P("C29", "JSON texts are read and written exactly",
  "Every JSON text is accepted and gives the value it denotes, with strings (all escapes, code points and surrogate pairs, as UTF-8), numbers to double precision, nesting, key order and the last of repeated keys; every text that is not JSON, including truncated ones and ones with something after the value, is refused with an error and no value. Formatting any value, to a string or a writer of any chunk size, gives text that this parser and any other JSON parser read back to an equal value; so does writing a single string. Copies are equal to and independent of the original, putting into an object replaces or appends exactly that key, getters give nothing for what isn't there, and no memory is lost on any path.",
  ["inputs", "histories"], "all token sequences up to 7 (9) tokens that are at most one token away from a valid prefix, all string contents up to 3 atoms of 17 and 4 of 8, all escapes and byte values, all number spellings up to 5 (6) characters, sizes around buffer growth, all cuts and single edits of samples; all sequences of up to 3 (4) puts",
  "Tests reencode a dozen texts; escapes, nesting and number formats combine without limit.",
  ["lib/formats/json.c", "lib/tokenizer.c", "lib/strbuilder.c"],
  [("parser", "lib/formats/json.c parse, read_node, readstr, read_num"), ("writers", "lib/formats/json.c format, formatwr, writestr, writenum, write_string"), ("values", "lib/formats/json.c json_put, clone, json_free, get")],
  ["values through the public getters", "written texts read by an independent parser", "AddressSanitizer"],
  "exhaustive enumeration of bounded texts on the real compiled module vs. an independent parser, with round trips",
  "The reference is Python's json module. Unescaped control characters, unknown escapes, lone surrogates and numbers with leading zeros are outside the property.")

P("C30", "CSV, conf, cue sheet, SRT and WebVTT files are read and written exactly",
  "For every well-formed file, whatever its line ends, final newline, blank lines and sizes: the CSV reader gives every value of every line, including empty ones and quoted ones with commas, quotes, line breaks and any bytes, also when the caller leaves a line early, and any table the CSV writer writes reads back equal, here and in other readers; the conf reader gives every key and value, without comments, and stops the program with a non-zero status at a line without a value; the cue parser gives every track with its title and its position to the frame (1/75 s) and refuses more than 100 tracks; the SRT reader gives every block with its index, time range in milliseconds and text, also when text lines are numbers, and printing the blocks gives the file back; the WebVTT reader gives every subtitle, including the last one, with its range without settings and its text without tags. Files that exceed a fixed limit or are malformed are refused or read safely: nothing is read or written out of bounds, nothing hangs, no memory is lost.",
  ["inputs"], "all CSV texts up to 7 (9) characters over comma, quote, CR, LF and a letter, all tables up to 2x2 over 12 values; all conf texts up to 7 (9) characters over 6 and up to 3 of 16 lines; cue sheets over 16 headers x 3 tracks x layouts x line ends and every frame of a minute; SRT and VTT files of up to 2 blocks of up to 2-3 lines of 8 kinds in all line-end variants; every value, line and title length around the buffer sizes",
  "Tests read one sample per format at most; line ends, empty values, missing final newlines, numbers as text and long values combine freely in real files.",
  ["lib/formats/csv.c", "lib/formats/conf.c", "lib/formats/cue.c", "lib/formats/srt.c", "lib/formats/vtt.c"],
  [("CSV", "lib/formats/csv.c readval, nextline, read_quoted_value, writeval"), ("conf", "lib/formats/conf.c next, next_line"), ("cue", "lib/formats/cue.c readcue, readentry, index_pos"), ("SRT", "lib/formats/srt.c readblock, loadline, parsepos, printblock"), ("WebVTT", "lib/formats/vtt.c init, read, cue, printnotags")],
  ["values through the public functions", "panics and exits captured", "AddressSanitizer"],
  "exhaustive enumeration of bounded files on the real compiled modules vs. a reference reader",
  "Exhaustive within the stated bounds; the reference readers are in drivers/formats.c. Quotes inside unquoted CSV values, spaces around conf values and cue commands other than REM, PERFORMER, TITLE, FILE, TRACK and INDEX 00/01 are outside the property.")

P("C31", "Bencode and torrent files are read and written exactly",
  "For every bencoded text nested less than 10 deep the reader gives its integers (64 bits), strings (any bytes), lists and dictionaries with the position after each value, whether they are read or skipped; every other text, in particular any truncated one, ends in a panic and never in reading past the data or in an endless loop. The writer produces the canonical encoding of every sequence of calls into a buffer or a file, counts its bytes and reports a buffer that is too small without writing past it. Parsing a torrent gives all its fields, the files with their joined paths and sizes over 2 GB, the SHA-1 of the exact info bytes, the total size, the number of pieces, their hashes and the size of the last piece; a written torrent parses back equal. Overlong fields are refused, not written past their buffers, and no memory is lost.",
  ["inputs", "histories"], "all texts up to 6 (7) bytes over 10, all trees of writer calls up to 5 (6) values with every buffer size, string lengths up to 1200; about 700 torrents over optional keys, piece counts, file lists and field lengths around the limits, every cut and 5 changes of every byte of some; all lengths 0 to 40 in pieces of 1 to 9 written and parsed back; numbers of every length, up to 9999 files, writes failing at every byte",
  "One snapshot of one torrent exists; numbers, nesting, truncation and the sizes of names vary freely in files from the network.",
  ["lib/formats/bencode.c", "lib/formats/bencode_writer.c", "lib/formats/torrent.c", "lib/crypt/sha1.c"],
  [("reader", "lib/formats/bencode.c more, num, pop, consume, skip"), ("writer", "lib/formats/bencode_writer.c byte, _writenum, buf"), ("torrent", "lib/formats/torrent.c parse, parse_info, parse_file, readpath, npieces, lastlen, writefile")],
  ["values through the public functions", "panics captured", "AddressSanitizer"],
  "exhaustive enumeration of bounded texts, call trees and torrents on the real compiled modules vs. reference coders",
  "The references are a bencode reader in the harness and an encoder with hashlib in Python.")

P("C32", "Pipes, locks and conditions between threads work under every schedule",
  "For every interleaving of any number of writer and reader threads of a pipe: every item written is read exactly once, items of one writer stay in order, and there is one order of all the calls, consistent with real time, in which the pipe is a first-in first-out queue of 32 places; writers wait while it is full, readers wait while it is empty and get false exactly when it is closed and drained; nobody waits forever while somebody could serve them, also with spurious wake-ups. Writing to a closed pipe stops the program. Locks exclude, a signal wakes at least one waiter and a broadcast all, each thread started runs once, waiting for one gives its result, detached ones still run; a freed pipe, lock, condition or thread releases its memory.",
  ["schedules", "histories"], "all schedules of up to 4 threads and 40 items with up to 1-4 (5) preemptions at synchronisation calls or at every memory access, all choices of the woken waiter, up to one spurious wake-up, around the full, empty and wrapped ring",
  "Lost wake-ups and races need one particular preemption; no test runs these functions concurrently.",
  ["lib/os/threads.c"],
  [("pipe", "lib/os/threads.c pread, pwrite, pclose, newpipe, freepipe"), ("wrappers", "lib/os/threads.c start, wait, thr_detach, lock, unlock, unlock_wait_lock, wake_one, wake_all")],
  ["results of the calls under a controlled scheduler", "deadlocks", "allocations"],
  "stateless model checking of the real compiled module: depth-first exploration of all schedules within a preemption bound, linearizability check of every history",
  "Sequentially consistent memory. Preemption points inside the module are its synchronisation calls, and in part of the scenarios every access to shared memory.")

P("C33", "Files, directories and paths are handled exactly",
  "A file written as a whole reads back byte for byte with its exact size, for every content and size including none, and as a terminated string; a file that is missing, a directory, or read or written with an error at any point gives a failure and never part of the content as the whole; no file stays open and no memory is lost. Existence, size, kind and deletion agree with the file system after every sequence of operations. Listing a directory gives every entry except . and .. exactly once, in whatever order the system lists them. The extension is what follows the last dot of the base name, or nothing; base name and directory split every path, with / as the directory of entries of the root; buffers that are too small are reported and never written past. The environment, host name and current directory are the process's.",
  ["inputs", "histories", "fault_sequences"], "all paths up to 7 (9) characters over 4 with every buffer size, all sequences of up to 4 (5) operations, sizes 0 to 400 (1200) and around pages and 64K in 4 contents, a failure at every i/o call, all orders of up to 5 (6) directory entries, links to files, directories and nothing, files up to 40 MB through every reader and writer",
  "One test writes and reads one file; orders, sizes and failures depend on the file system.",
  ["lib/os/fs.c", "lib/os/self.c"],
  [("files", "lib/os/fs.c readfile, readfile_str, writefile, fsize, filesize"), ("directories", "lib/os/fs.c dir_open, dir_next"), ("paths", "lib/os/fs.c fileext, basename, dirname, realpath")],
  ["results of the public functions in a scratch directory", "open files and allocations counted", "AddressSanitizer"],
  "exhaustive enumeration of bounded paths, operation sequences, fault points and listing orders on the real compiled module vs. a reference model",
  "Files over 2 GB may be refused but not cut. Runs as root, so permissions aren't covered.")

P("C34", "Child processes get exactly their arguments and streams; jobs run once",
  "A spawned program sees exactly the given arguments and environment and no other file descriptors than its three standard streams; what is written to its input arrives and ends when the input is released, its output and errors can be read apart, completely and until they end, and waiting gives its own exit status or signal. This holds for several processes at a time in any interleaving of their lives, and when standard streams of the parent are closed. A program that can't be run ends with a non-zero status; a failed spawn returns nothing. After waiting no descriptor, process or memory is left. Running jobs in parallel runs each one exactly once in its own process, at most eight at a time, and returns when all have finished, in whatever order they do, whatever their results and whatever other children end meanwhile; output buffered before appears once.",
  ["inputs", "schedules", "fault_sequences"], "all argument lists up to 3 of 7 (10) strings, all exit codes, 6 signals, data sizes around pipe capacities, all 252 interleavings of two processes' lives, all subsets of closed standard streams, every failing pipe and fork; 0 to 20 (40) jobs in all finishing orders up to 4 (5) jobs and 4 orders beyond; inputs up to several pipe capacities",
  "Tests run cat and echo once; inherited pipe ends and lost counts need particular interleavings.",
  ["lib/os/proc.c", "lib/reader.c", "lib/writer.c"],
  [("spawn", "lib/os/proc.c spawn"), ("wait", "lib/os/proc.c wait"), ("parallel", "lib/os/proc.c parallel, spawnp")],
  ["what a helper process observes and reports", "descriptors, children and allocations counted"],
  "exhaustive enumeration of bounded process histories and finishing orders with real processes",
  "The caller releases the input stream, as the tests do. Schedules inside the kernel are not controlled beyond the order of operations and of finishing.")

P("C35", "Network addresses and TCP connections work exactly",
  "Every IPv4 and IPv6 address text gives its version and bytes, every other text is refused, and formatting gives text of the same address or reports a buffer that is too small. A connection over TCP delivers the bytes written and printed on each side to the other, completely, in order and unchanged however they are split, and reports the end after the other side closes; writing to a closed peer fails without ending the program. Both ends know the right addresses. A protocol, host or port that is malformed, overlong or can't be reached is refused without reading or writing out of bounds; nothing that failed or was closed leaves a descriptor or memory behind.",
  ["inputs", "histories"], "all texts up to 8 (9) pieces over 5 for IPv4 and 11 (13) over 3 for IPv6, with dotted tails, boundary values in all places; all sequences of up to 5 (6) reads, writes and closes of two ends, sizes up to 200 KB in 4 chunkings, addresses of all lengths around the limits; every system call failing with 21 error numbers",
  "Tests parse two addresses and open no connection.",
  ["lib/os/net.c"],
  [("addresses", "lib/os/net.c parse_addr, format_addr, parseaddr, format_address"), ("connections", "lib/os/net.c newconn, connect, net_listen, net_accept, read, write, net_printf, getreader")],
  ["results of the public functions over the loopback interface", "descriptors and allocations counted", "AddressSanitizer"],
  "exhaustive enumeration of bounded address texts and connection histories on the real compiled module vs. a reference",
  "IPv4 over loopback. What a reset connection returns is outside the property.")

P("C36", "UTF-8 and rune strings are read, written and searched exactly",
  "Every code point is encoded in the one shortest UTF-8 form and reads back as itself with its length; every byte sequence that is not such a form reads as the replacement character of one byte, so reading always advances, stays inside the string and ends. Lengths and counts of runes, completeness of a prefix, and searches for runes and substrings from both ends agree with reading the string rune by rune, for every string including malformed ones. Rune strings are copied, appended, duplicated, compared and searched like C strings are, within the given limits and terminated. Lower, upper and title case and the letter and space classes are Unicode's for alphabets with simple case pairs, and cases of every code point agree with each other.",
  ["inputs"], "all code points, all byte sequences up to 3 bytes and all 4-byte ones over class representatives, all strings up to 4 (5) pieces of 11 whole and cut sequences, all rune strings up to 4 (5) runes over 3 with all limits; the case and class tables against the whole code space",
  "No test exercises this module.",
  ["lib/utf.c"],
  [("conversion", "lib/utf.c get_rune, runetochar, runelen, fullrune"), ("strings", "lib/utf.c utfrune, utfrrune, utfutf, utfecpy, utfnlen, runestr*"), ("classes", "lib/utf.c tolowerrune, toupperrune, isalpharune, isspacerune")],
  ["results of the public functions", "AddressSanitizer"],
  "exhaustive enumeration of all code points and all bounded byte and rune strings on the real compiled module vs. a reference decoder",
  "Surrogates may read as themselves or as errors. Cases are compared with Unicode for alphabets unchanged since Unicode 1.")

P("C37", "XML files are walked as the tree they contain; DTDs are read as written",
  "For every document, after any sequence of entering, stepping and leaving, the current node's name and attributes are those of the element of the document that the steps prescribe, or there is none past the last sibling. A document with a missing or mismatched closing tag or one that ends too early gives an error, after which there is no node and nothing can be entered; no file is read out of bounds, hangs the reader or leaves memory or a file open. Element declarations of a DTD give the child lists with their nesting, separators and quantifiers, and attribute lists the names, types and requirements that the text declares; oversized texts are refused.",
  ["inputs", "histories"], "all trees up to 5 (6) elements in several layouts walked by all sequences of up to 5-7 (6-8) operations, every truncation and every single-byte change of documents, sizes around every limit; 120000 (3 million) child lists in order of choices, all attribute lists up to 3 attributes",
  "The test reads one file in one walk.",
  ["lib/formats/xml.c", "lib/formats/dtd.c"],
  [("walk", "lib/formats/xml.c xml_enter, xml_next, xml_leave"), ("tags", "lib/formats/xml.c read_tag"), ("dtd", "lib/formats/dtd.c parse, read_attlist, read_child_list")],
  ["results of the public functions", "AddressSanitizer", "allocations counted"],
  "exhaustive enumeration of bounded trees and operation sequences on the real compiled module vs. a reference tree",
  "Text between tags isn't offered by the module and only appears as white space. The reader may stop the program for files over its limits.")

P("C38", "Images hold the pixels drawn on them, and image files contain those pixels",
  "After any sequence of setting, filling, clearing, blending, mapping, enlarging and pasting, every pixel of an image has the colour the operations prescribe, and a position outside the image is refused or, when pasting, left out, never written elsewhere. Mixing, hue and colour map conversions give the colour within one rounding step. The BMP, PPM and PNG files written are valid and decode to exactly the pixels of the image, and a file that can't be written is reported.",
  ["inputs", "histories"], "all sequences of 3 (4) of 22 operations on images of 1x1 to 3x3, widths up to 70; all half degrees of hue with 81 saturations and lightnesses; files of all sizes up to 40 by 6 and around the limits of stored blocks",
  "No test draws an image; a wrong sign or channel order is only visible in the pixels.",
  ["lib/image.c", "lib/formats/bmp.c", "lib/formats/ppm.c", "lib/formats/png.c"],
  [("drawing", "lib/image.c set, fill, blend, explode, paste, apply"), ("colours", "lib/image.c mix, from_hsl, from_hsv, mapcolor"), ("files", "lib/formats/bmp.c write, ppm.c writeimg, png.c write")],
  ["pixels read back", "files decoded by independent decoders", "AddressSanitizer", "allocations counted"],
  "exhaustive enumeration of bounded operation sequences and image sizes on the real compiled modules vs. reference pixels and decoders",
  "Channel values are 0 to 255. The looks of the test image are not specified.")

P("C39", "Statistics, random numbers, tables and Fourier transforms are computed exactly",
  "For every series, asked at any point while it grows, count, sum, minimum, maximum, average, deviation, percentiles and median are those of the values added so far. Random numbers are inside their range for every seed, evenly spread, and the same seed gives the same numbers; sampling follows the given frequencies. A printed table contains all its values, in columns that line up with at least two spaces between them. The Fourier transform of any size equals the defining sum, in both directions, in place or not.",
  ["inputs", "histories"], "all series histories up to 6 (8) steps over 4 values and queries, series up to 3000 values; 600000 (6 million) seeds and the seeds that lead to the extreme outputs; all tables up to 6 (7) values of 6 (7) lengths in 1 to 4 columns, up to 1100 values; all sizes up to 96 (200) with all unit impulses",
  "No test covers these modules; errors appear at particular sizes, seeds and lengths.",
  ["lib/stats.c", "lib/rnd.c", "lib/table.c", "lib/math/complex.c", "lib/fft.c"],
  [("series", "lib/stats.c add, percentile, sd"), ("random numbers", "lib/rnd.c seed, intn, u; lib/stats.c sample_from_distribution"), ("tables", "lib/table.c pushval, print"), ("transforms", "lib/fft.c kiss_fft_alloc, kiss_fft")],
  ["results of the public functions", "printed output", "AddressSanitizer", "allocations counted"],
  "exhaustive enumeration of bounded histories, seeds, tables and sizes on the real compiled modules vs. direct computation",
  "The multidimensional real transform (kiss_fftndr) is an unfinished port that mixes float and double buffers and is outside the property. Percentile p of n values is the sorted value number n*p/100, at most the last.")

P("C40", "WAV files and sound clips keep every sample",
  "Every PCM WAV file with 1 or 2 channels of 16 or 24 bits gives exactly its frames and its format, whatever information and padding chunks of whatever sizes come before the data, whether the data has its exact length, an unknown length or is followed by other chunks, frame by frame or as a loaded clip. What the writer writes has the standard header and comes back within one step of 16 bits, and copying a file frame by frame keeps every sample. Files that are cut or damaged anywhere are refused or end; nothing outside the buffers is touched and nothing runs on past the end of the file. A clip holds the samples pushed to it; normalizing brings its loudest sample to the level, and silence stays silence; transposing by r gives n*r samples, each between its two neighbours in the original.",
  ["inputs", "histories"], "all combinations of 2 channel counts, 2 sample sizes, 15 x 15 information sizes up to 70001 bytes, 10 paddings (and some up to 3000000 bytes), 6 lengths, 3 ways to end; formats to be refused; all 2^16 and 2^24 sample values; clips up to 16777219 samples; every cut, 12 values of every byte, 22 values of every 4 bytes of 4 layouts; all sequences of up to 3 written frames over 8 (10) values; all clips of up to 5 samples over 6 values transposed by 27 factors",
  "No test covers these modules; errors appear only with certain chunk sizes, at the end of streams or for long clips.",
  ["lib/formats/wav.c", "lib/sound.c", "lib/enc/endian.c"],
  [("reading", "lib/formats/wav.c read_headers, readinfo, more, read_samplef, loadfile"), ("writing", "lib/formats/wav.c open_writer, write_sample"), ("clips", "lib/sound.c push_sample, normalize, transpose")],
  ["results of the public functions", "bytes written", "AddressSanitizer", "a watchdog for loops", "allocations counted"],
  "exhaustive enumeration of bounded file layouts, damages, sample values and clips on the real compiled modules vs. files built from the same samples",
  "Values written are between -1 and 1. What samples a damaged file gives is not specified.")

P("C41", "Text filter programs convert every input exactly, whatever its size",
  "The programs csv2json, jsonl2csv, srt2jsonl, vtt2jsonl, srtadjust, zipranges, decompose, noext and json-table print for every proper input exactly the converted contents: each row, object, subtitle, number range or log line once, in order, with all its characters, whatever the number of lines, the lengths of names, values and lines, and whether the last line is ended. csv2json and jsonl2csv refuse more than 100 columns, and lines that are not JSON are reported and left out; vtt2jsonl reports a broken file. srtadjust maps every time by the line through the two given points, to the millisecond. json-table prints what is not a table as it is. Nothing is written or read outside the buffers.",
  ["inputs"], "csv2json: all tables of 2 columns over 8 cell texts and 3 over 8, 1 to 119 columns, names and values up to 9000 bytes; jsonl2csv: all pairs of 17 values, 1 to 101 columns, lines up to 60000 bytes; subtitles: all sequences of up to 3 of 8 texts, up to 300 subtitles; srtadjust: all pairs of points out of 5 (7) times; zipranges: all sequences of up to 4 (5) of 7 numbers, up to 20000 ranges; decompose: 11 names x 6 decorations x 7 messages; json-table: all pairs of 19 values, all sequences of up to 3 (4) of 10 kinds of lines, up to 250 columns",
  "The repository's tests run each of these programs on at most one short input; overflows and lost lines need long or unusual ones.",
  ["prog/csv2json/csv2json.c", "prog/jsonl2csv/jsonl2csv.c", "prog/srt2jsonl/srt2jsonl.c", "prog/vtt2jsonl/vtt2jsonl.c", "prog/srtadjust/srtadjust.c", "prog/zipranges/zipranges.c", "prog/decompose/decompose.c", "prog/noext/noext.c", "prog/json-table/json-table.c"],
  [("tables", "prog/csv2json, prog/jsonl2csv, prog/json-table"), ("subtitles", "prog/srt2jsonl, prog/vtt2jsonl, prog/srtadjust"), ("lines", "prog/zipranges, prog/decompose, prog/noext")],
  ["exit status", "standard output and error", "AddressSanitizer"],
  "exhaustive enumeration of bounded inputs, each run by the real program translated by the current che behind a fork server, vs. reference conversions",
  "Texts are UTF-8 without NUL bytes; CSV input has no blank lines; subtitles fit the limits of C30.")

P("C42", "Regular expressions find the leftmost longest match and nothing else",
  "The Plan 9 regular expressions of prog/libregexp9: every text of the documented notation is compiled, and texts outside it are refused. regexec and rregexec report a match exactly when there is one, match 0 is the leftmost and among those the longest one, every group is reported where some way of matching has it, unused entries are empty, a start or end given in the match array is kept to, and ^ and $ match at the ends of all lines. '.' and negated classes don't match newlines (with regcompnl '.' does); regcomplit takes every character literally. Characters are runes, in UTF-8 and in rune strings alike. regsub and rregsub put in exactly the matches named, cut to the given size, and always terminate the text. Limits (31 groups, 16 classes, 31 ranges in a class, 19 levels) are reported, never overrun.",
  ["inputs"], "all texts of 1 to 5 (6) symbols over a b . * + ? | ( ) ^ $ on all texts of up to 3 (4) characters over a, b and newline, those of up to 3 symbols with all starts, ends and array sizes; all classes of up to 5 (6) symbols on all texts of 2 characters; escapes, runes of 1 to 4 bytes, literal and newline modes; 150000 (3000000) expression trees up to depth 4 (5) on all texts of up to 4 characters; 1 to 120 alternatives, options and literals, 1 to 31 groups, up to 9 nested repetitions, texts up to 2500 characters; all substitutions of up to 5 (6) symbols with 0 to 4 matches into every size",
  "There are no tests of the expressions; thread lists, optimised starts and relocation go wrong only for particular combinations of operators, texts and positions.",
  ["prog/libregexp9/regexp9.c"],
  [("compile", "regexp9.c: regcomp, regcomplit, regcompnl"), ("search", "regexp9.c: regexec, rregexec"), ("substitute", "regexp9.c: regsub, rregsub")],
  ["results and match arrays", "refusals", "AddressSanitizer", "blocks not released"],
  "exhaustive enumeration of expressions and texts run on the compiled module, vs. a reference that enumerates every way of matching",
  "Classes that are empty or descending or begin with '-' after '^' are outside the notation and only required not to crash; which of several possible group assignments is chosen is free.")

P("C43", "The LC-3 emulator executes every program as the LC-3 does",
  "emu run of an LC-3 image loads the words exactly where the image says (and refuses images longer than the memory), starts at 3000 with the condition zero, and executes every instruction word as the LC-3 architecture defines: registers, condition codes, 16 bit wrap-around of values and addresses, sign extension of every field, PC-relative, indirect and base addressing, subroutine links in R7, the keyboard registers and the traps GETC, OUT, PUTS, IN, PUTSP and HALT. Instructions that don't exist stop the machine with an error. No address leads outside the memory.",
  ["inputs"], "all 65536 instruction words (the illegal ones in part), each in 2 to 8 settings of registers, condition, place and surroundings, each program ending in a dump of the condition, all registers and two checksums of 5632 words of memory; sums and conjunctions of all pairs of 36 values; all 256 characters through every trap and the keyboard device; texts of 0 to 39 words; images of 6 origins up to the last word of the memory",
  "There are no tests of the emulator; an error in one field of one instruction shows only for particular operands.",
  ["prog/emu/lc3.c", "lib/bytereader.c"],
  [("load", "lc3.c: run"), ("instructions", "lc3.c: op_*, sign_extend, update_flags"), ("devices", "lc3.c: mem_read, op_trap")],
  ["output of the emulated program", "exit status", "AddressSanitizer"],
  "exhaustive enumeration of instruction words in generated programs run on the real emulator, each in its own process, vs. a reference machine",
  "Traps other than 20 to 25, JSRR R7, characters over 127 at IN and reading past the end of the input are not settled; programs that don't end are not run.")

P("C46", "The CHIP-8 emulator and disassembler treat every program as CHIP-8 does",
  "emu run of a CHIP-8 program loads it at 200 after the digit sprites (and refuses programs longer than the memory) and executes every instruction as CHIP-8 defines it: registers with VF as carry, not-borrow, popped bit and collision (the flag is what is left when VF is also the result), jumps, skips, calls up to 16 deep, decimal digits, register dumps, sprites that wrap at the edges of the screen, the keys typed, and the two timers, which are run down before the next instruction. Every picture that differs from the previous one is shown. Calls too deep and returns without a call stop the machine with an error. No program reads or writes outside the machine's memory, screen, stack and keys. emu disas prints every instruction of a file in order with its address, name and operands, and marks the targets of calls.",
  ["inputs"], "every instruction word of the machine (words that are none in part), each in 1 to 4 settings of registers, place and surroundings, with a dump of all registers; memory instructions x 16 registers x 4 places with a dump of the memory around; all pairs of values for sums and differences; sprites of 2 (4) heights at 50 (256) rows and 51 columns over each other; calls 1 to 21 deep; all 256 characters x 16 keys, all pairs of keys; every timer value; random numbers under every mask; all 65536 words through the disassembler, files up to 20000 bytes",
  "There are no working tests of the emulator; an error in one instruction shows only for particular operands.",
  ["prog/emu/chip8.c", "prog/emu/chip8instr.c"],
  [("instructions", "chip8.c: step; chip8instr.c: decode"), ("screen", "chip8.c: xor_sprite, xor_pixel, draw"), ("disassembler", "chip8.c: disas; chip8instr.c: print_instr")],
  ["pictures printed by the emulated program", "exit status", "AddressSanitizer and UBSan"],
  "exhaustive enumeration of instruction words in generated programs run on the real emulator, each in its own process, vs. a reference machine",
  "Words that are no instruction, waiting for a key (not implemented), keys and digits over 15 and addresses over FFF are not settled: the emulator must only not crash on them.")

P("C44", "Log, number and file tidying programs report exactly what their input has",
  "trim takes trailing white space off every line of the files it is given and sets the line ends as asked; every other byte stays, exactly the changed files are listed, and a file with a line end it doesn't know is reported and left as it was. stats prints for 1 to 10 columns the count, sum, average, deviation, smallest and largest value and percentiles of exactly the values given, and refuses more columns and lines of different lengths. avg prints for every window of the given size its middle time and its average. hist counts every value once, in bins of one width that cover all values, and draws bars of at most the given width, one block per value where they fit and in proportion where not. multicut prints the chosen columns of every line, whatever its length. logfmt prints every field of a log entry that isn't excluded, with nested names in full, and any line that isn't an entry as it is. bencode prints every value of a file (strings that can't be printed as the hexadecimal numbers of their first bytes). Broken arguments are refused; every input comes to an end, and nothing is read or written outside the buffers.",
  ["inputs"], "trim: all files of up to 4 (5) of 7 symbols with the line formats, every byte, lines up to 100000 bytes, all lists of up to 3 of 6 files; stats: all columns of up to 4 of 8 values, 1 to 39 columns, up to 3000 lines; avg: windows of 1 to 500 on up to 600 lines; hist: all pairs (triples) of 14 values, 400 (1000) first values at 5 scales, 2 to 999 bins, widths 0 to 80, up to 3000 values; multicut: all lines of up to 4 (5) of 7 symbols, 1 to 129 columns, lines up to 20000 bytes; logfmt: 9 levels x 5 times x 5 messages x 7 sets of fields, all pairs of 20 values, all sequences of up to 3 of 12 kinds of lines, names and values up to 9000 bytes, 110 levels, up to 300 fields; bencode: 3 rounds of trees of dictionaries and lists, every byte, strings up to 70000 bytes",
  "The repository has no tests for these programs; lost bytes, endless loops and overflows need certain bytes, equal values, narrow widths or long names.",
  ["prog/trim/trim.c", "prog/stats/stats.c", "prog/avg/avg.c", "prog/hist/hist.c", "prog/multicut/multicut.c", "prog/logfmt/logfmt.c", "prog/bencode/bencode.c"],
  [("files", "prog/trim, prog/bencode"), ("numbers", "prog/stats, prog/avg, prog/hist"), ("lines", "prog/multicut, prog/logfmt")],
  ["exit status", "standard output and error", "files after the run", "AddressSanitizer"],
  "exhaustive enumeration of bounded inputs, each run by the real program translated by the current che behind a fork server, vs. reference results",
  "Time stamps are in UTC; the programs run with TZ=UTC; bencode values are nested up to 10 levels (more is refused).")

P("C45", "The web server serves exactly the files below its directory, for ever",
  "prog/webserver answers every GET request for a path that names, after all links and dots are followed, a file below the directory it was started in, with exactly that file's bytes, their number and the type for its extension; '/' lists the directory, and every other path (missing files, directories, anything that leads outside, also to neighbours whose names begin alike) gives 404. Files below cgi-bin, and no others, are run: their whole output becomes the answer, with their headers, status and environment; scripts that fail give 500. Requests follow each other on a connection, and clients at the same time get each their own answer. No client can end the server: not by leaving at any point of a request or an answer, by broken or endless requests, nor by their number, and nothing is left over from clients that have gone.",
  ["inputs", "schedules", "fault_sequences"], "all paths of up to 3 of 21 segments and of 4 of 8 (6 of 5) with links inside, outside and in circles; path lengths up to 70000; files up to 3 MB; 80 scripts with output up to 200000 bytes, pauses, failures, statuses; clients that close, reset or half close after every byte of a request, and during answers; 1870 broken requests (all sequences of up to 4 (5) of 6 pieces, every part at 21 lengths, 0 to 129 headers); all sequences of up to 3 of 5 (8) kinds of requests on one connection; all 70 interleavings of the 4 steps of two clients for 25 pairs of requests; up to 260 clients with 200 file descriptors",
  "The repository doesn't test the web server; that a client's leaving ends it, or that a path leads out of the directory, needs faults at certain points and unusual paths.",
  ["prog/webserver/webserver.c", "prog/webserver/srvcgi.c", "lib/protocols/http.c", "lib/protocols/cgi.c"],
  [("files", "prog/webserver/webserver.c resolve_path, lib/protocols/http.c servefile"), ("scripts", "prog/webserver/srvcgi.c"), ("clients", "prog/webserver/webserver.c main, client_routine")],
  ["answers on the loopback network", "the server process", "file descriptors", "AddressSanitizer"],
  "exhaustive enumeration of bounded request paths, client fault points and interleavings of two clients, against the real server translated by the current che, vs. a reference file lookup",
  "Clients send one GET request at a time; paths are not percent-decoded; the inner schedule of the server's threads is the kernel's.")
