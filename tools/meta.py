"""What each property says, and where the code behind it is. Source of properties.jsonl and MANIFEST.json."""
FMT = "src/fmt/formatter.rs"
TOK = "src/tokens/tokens.rs"


def mech(*p):
    return [{"name": a, "where": b} for a, b in p]


META = {
    "C01": dict(
        title="Whitespace requests collapse to one deterministic layout",
        statement="The rendered text of a token stream is exactly the text of its literals and language items in order, separated only as asked for: at most one space, at most one blank line, indentation equal to the net level (never below zero) times the configured unit at the start of a line, and line breaks as configured. Consecutive whitespace requests collapse; no line gets trailing whitespace and an empty line gets no indentation. A file additionally ends in exactly one line break.",
        over=["inputs", "configurations"],
        text="Every sequence of appended literals, items, spaces, pushes, lines and indentation changes, at every indentation level, unit and line break.",
        why="The tests render a few dozen fixed streams; the rule has to hold for every order of whitespace requests, where the interesting cases are rare combinations (several pending requests, negative levels, requests before any text).",
        files=[FMT, "src/fmt/config.rs", TOK, "src/tokens/item.rs"],
        mechanism=mech(("collapsing of whitespace requests while streams are built", "src/tokens/tokens.rs: space, push, line, indentation"),
                       ("pending line, space and indentation state of the formatter", "src/fmt/formatter.rs: flush_whitespace, write_str, new_line")),
        observe=["Tokens::to_string", "Tokens::to_file_string", "Tokens::format with any fmt::Config"],
        technique="layout"),
    "C03": dict(
        title="A quoted string denotes exactly its text in the target language",
        statement="Quoting a text for Rust, Python, C, C#, Go, Swift, Java, JavaScript, Dart or Nix produces one well-formed string literal which, read by the rules of that language, denotes exactly that text, whatever characters it contains. This holds as well when the quoted text is assembled from several adjacent pieces.",
        over=["inputs"],
        text="Every sequence of Unicode scalar values (NUL excluded in Nix, which cannot have it), in every split into pieces.",
        why="The tests quote two or three sample strings per language; a wrong escape shows only for particular characters, or pairs of neighbours (an escape followed by a digit, `$` followed by `{`).",
        files=["src/lang/mod.rs", "src/lang/rust.rs", "src/lang/python.rs", "src/lang/c.rs", "src/lang/csharp/mod.rs", "src/lang/go.rs", "src/lang/swift.rs", "src/lang/java/mod.rs", "src/lang/js.rs", "src/lang/dart/mod.rs", "src/lang/nix.rs"],
        mechanism=mech(("escaping of C-like languages", "src/lang/mod.rs: c_family_write_quoted"), ("per-language escaping", "Lang::write_quoted in src/lang/*")),
        observe=["Tokens::to_string of quoted(..) in each language"],
        technique="strings"),
    "C04": dict(
        title="Interpolated expressions in strings stay code, their surroundings text",
        statement="A quoted string with interpolated expressions, in JavaScript and Dart, is one well-formed literal of that language: text before, between and behind the expressions denotes exactly that text, and each expression is interpolated as exactly the code which was given.",
        over=["inputs"],
        text="Every text before and after an expression, including characters which are special to the literal or could join up with the expression, for several shapes of expression.",
        why="The tests interpolate one or two variables between letters and spaces; the failures are at the seams (`$` before the expression, an identifier character behind it, backticks, backslashes).",
        files=["src/lang/js.rs", "src/lang/dart/mod.rs", FMT],
        mechanism=mech(("opening, closing and escaping of interpolating literals", "src/lang/js.rs: open_quote, write_quoted, start_string_eval; src/lang/dart/mod.rs: string_eval_literal"),
                       ("evaluation state in quotes", "src/fmt/formatter.rs: format_cursor")),
        observe=["Tokens::to_string in JavaScript and Dart"],
        technique="strings"),
    "C05": dict(
        title="Building a stream in parts is the same as building it at once",
        statement="Appending, extending or collecting a stream from parts, by value or by reference, through options, slices, vectors, iterators or closures, gives a stream which renders, quotes, imports and reports emptiness the same as one built by making all of the requests in order. Every way of providing a text adds the same literal, and registering an item changes nothing but the imports. Nothing depends on what an iterator claims about its length.",
        over=["inputs", "histories"],
        text="Every sequence of requests, every way of cutting it into up to three parts, every container.",
        why="The tests append a few fixed fragments; pending whitespace at the seams of fragments, and claims of iterators, are only reached by particular cuts.",
        files=[TOK, "src/tokens/format_into.rs", "src/tokens/from_fn.rs", "src/tokens/register.rs", "src/tokens/item.rs", "src/tokens/item_str.rs"],
        mechanism=mech(("re-collapsing whitespace when items are added", "src/tokens/tokens.rs: item, item_ref, extend, extend_by_ref"), ("conversions into a stream", "src/tokens/format_into.rs")),
        observe=["Tokens::append, extend, FromIterator, to_string, walk_imports, is_empty"],
        technique="compose"),
    "C06": dict(
        title="Quotes, interpolation and nesting are balanced and escape as a whole",
        statement="Rendering a stream with string quotes gives, for every nesting of quotes and evaluations, opening and closing delimiters where they were asked for, escapes exactly the literal text which is inside of a quote and leaves the code which is inside of an evaluation alone; an inner quote is escaped as part of the outer text. A stream with a closer that has no opener is refused with an error: it never renders something else, panics or hangs.",
        over=["inputs"],
        text="Every sequence of opening and closing of quotes and evaluations, literals, items and whitespace requests.",
        why="The tests have quotes nested at most twice in well-formed streams; the recursion over nested quotes and the handling of mismatched closers have to hold for every order.",
        files=[FMT, "src/fmt/cursor.rs", "src/lang/mod.rs"],
        mechanism=mech(("state machine over quotes and evaluations", "src/fmt/formatter.rs: format_cursor"), ("nested quoting", "src/fmt/formatter.rs: quoted"), ("buffers for inner quotes", "src/fmt/cursor.rs")),
        observe=["Tokens::to_string with a custom Lang"],
        technique="quotes"),
    "C10": dict(
        title="JavaScript imports bind every item used, once, under the name used",
        statement="In a rendered JavaScript file the import statements bind every imported item which occurs in the body, or is registered, under exactly the name the body uses; no item is imported twice under one name, nothing else is imported, and the order of use does not matter. The module named is exactly the one given, whatever characters its name has. Module paths given relative to the project resolve to the same module from the file's own path.",
        over=["inputs", "configurations"],
        text="Every combination of named, aliased, default and wildcard imports of up to three modules with arbitrary names, every order and registration; every pair of module path and file path.",
        why="The tests have a handful of fixed imports; wrong grouping, lost items and dangling names depend on particular coincidences of modules, names and aliases.",
        files=["src/lang/js.rs", "src/lang/mod.rs", TOK],
        mechanism=mech(("grouping of imports by module", "src/lang/js.rs: imports"), ("relative paths of modules", "src/lang/js.rs: ImportMode, imports"), ("what a body refers to", "src/tokens/tokens.rs: walk_imports")),
        observe=["js::Tokens::format_file"],
        technique="imports"),
    "C11": dict(
        title="Python imports bind every item used, once, under the name used",
        statement="In a rendered Python file the import statements bind every imported item which occurs in the body, or is registered, so that the name or qualified name written in the body refers to exactly that item of that module. No statement or binding is repeated, nothing else is imported, and the order of use does not matter.",
        over=["inputs"],
        text="Every combination of plain, aliased, qualified and module imports with arbitrary module names, names and aliases, in every order.",
        why="The tests have a handful of fixed imports; a reference which is left dangling depends on a particular combination of alias, qualification and sharing of a module.",
        files=["src/lang/python.rs", TOK],
        mechanism=mech(("grouping of imports", "src/lang/python.rs: imports"), ("how an item is written in the body", "src/lang/python.rs: Lang::Item format")),
        observe=["python::Tokens::format_file"],
        technique="imports"),
    "C12": dict(
        title="Rust imports bind every item used, once, under the name used",
        statement="In a rendered Rust file the `use` declarations bring every imported item which occurs in the body, or is registered, into scope so that the path written in the body refers to exactly that item. No name is bound twice, nothing else is imported, and the order of use does not matter.",
        over=["inputs", "configurations"],
        text="Every combination of direct, aliased, qualified and module-aliased imports with arbitrary paths and names, in every order, under every default import mode.",
        why="The tests have a handful of fixed imports; wrong grouping under a shared module depends on particular combinations of aliases and modes.",
        files=["src/lang/rust.rs", TOK],
        mechanism=mech(("collection of imports by module", "src/lang/rust.rs: imports"), ("how an item is written in the body", "src/lang/rust.rs: Lang::Item format")),
        observe=["rust::Tokens::format_file with every rust::Config import mode"],
        technique="imports"),
    "C13": dict(
        title="Java names in the body refer to the types which were imported",
        statement="In a rendered Java file every imported type written in the body is either written with its package or by its simple name, and then the simple name refers to exactly that type under the file's imports, its own package and java.lang. No simple name is imported twice, nothing unused is imported, and the order of use does not matter.",
        over=["inputs", "configurations"],
        text="Every combination of types from equal or different packages, the file's own package and java.lang, with arbitrary coinciding names, in every order, with or without a package for the file.",
        why="The tests have one fixed conflict; wrong references appear only when names of several packages, the own package and java.lang coincide.",
        files=["src/lang/java/mod.rs", TOK],
        mechanism=mech(("imports and conflicts of simple names", "src/lang/java/mod.rs: imports"), ("how a type is written in the body", "src/lang/java/mod.rs: Lang::Item format")),
        observe=["java::Tokens::format_file with and without java::Config::with_package"],
        technique="imports"),
    "C14": dict(
        title="C# names in the body refer to the types which were imported",
        statement="In a rendered C# file every imported type written in the body is either written with its namespace or by its simple name, and then the simple name refers to exactly that type and to no other type used in the file, under the `using` directives and the file's own namespace. No directive is repeated or unused, and the order of use does not matter.",
        over=["inputs", "configurations"],
        text="Every combination of plain and qualified types from equal or different namespaces and the file's own namespace, with arbitrary coinciding names, in every order.",
        why="The tests have no and the documentation one fixed conflict; ambiguous references need several namespaces with coinciding names in a particular order.",
        files=["src/lang/csharp/mod.rs", TOK],
        mechanism=mech(("using directives and conflicts of names", "src/lang/csharp/mod.rs: imports"), ("how a type is written in the body", "src/lang/csharp/mod.rs: Lang::Item format")),
        observe=["csharp::Tokens::format_file with and without csharp::Config::with_namespace"],
        technique="imports"),
}

META["C02"] = dict(
    title="Files join header and body into one layout, the same through every writer",
    statement="A rendered file is the header of its language (package and imports, if there are any), one empty line, and the body, laid out by the same whitespace rules as one stream: it never starts with an empty line, has no two empty lines in a row, no trailing whitespace, and ends in exactly one line break. Writing to a string, to bytes or into a vector of lines gives the same content, as do all shorthands; texts are written unchanged, whatever their characters and the pieces they are written in.",
    over=["inputs", "configurations"],
    text="Every body of literals, items, quoted text and whitespace requests, in every language, with every line break, unit and writer.",
    why="The tests render fixed files, nearly all through one writer; the seam between header and body and pending whitespace depend on the body.",
    files=["src/fmt/fmt_writer.rs", "src/fmt/io_writer.rs", "src/fmt/vec_writer.rs", FMT, "src/lang/mod.rs", "src/lang/csharp/mod.rs", "src/lang/java/mod.rs", "src/lang/go.rs", TOK],
    mechanism=mech(("header and body through one formatter", "format_file of every language in src/lang"), ("line breaks of writers", "src/fmt/*_writer.rs: write_line, write_trailing_line"), ("shorthands", "src/tokens/tokens.rs: to_string, to_file_string, to_vec, to_file_vec")),
    observe=["Tokens::format_file, to_string, to_file_string, to_vec, to_file_vec", "fmt::FmtWriter, IoWriter, VecWriter"])
META["C07"] = dict(
    title="A failure to write or format surfaces, and nothing is written after it",
    statement="If the underlying writer reports an error at any point, or an item refuses to be formatted, rendering reports an error; what was written until then is a beginning of the complete output and nothing is written afterwards. If no error is reported the complete output was written, however many of the writes were short or interrupted.",
    over=["fault_sequences", "inputs"],
    text="Every position of a failing write; every sequence of short, interrupted, failing and refused writes from any point on; every position of an item which fails; files in every language.",
    why="No test has a failing writer; an error which is dropped shows only when the fault hits one particular write.",
    files=["src/fmt/fmt_writer.rs", "src/fmt/io_writer.rs", FMT, "src/lang/mod.rs", "src/lang/rust.rs", "src/lang/python.rs", "src/lang/c.rs", "src/lang/csharp/mod.rs", "src/lang/go.rs", "src/lang/swift.rs", "src/lang/java/mod.rs", "src/lang/js.rs", "src/lang/dart/mod.rs", "src/lang/nix.rs"],
    mechanism=mech(("propagation of errors", "? on every write in src/fmt/formatter.rs and src/lang"), ("complete writes of bytes", "src/fmt/io_writer.rs: write_all")),
    observe=["Tokens::format_file through FmtWriter and IoWriter over a faulty writer", "to_string and friends"])
META["C15"] = dict(
    title="Dart imports cover every item used, once, under the prefix used",
    statement="In a rendered Dart file every imported item in the body is written with its prefix, if it has one, and the file has an import directive of its library with exactly that prefix. Directives are not repeated and nothing else is imported; types of dart:core need no directive unless they have a prefix, in which case the library stays accessible without the prefix as well. The library named is exactly the one given, whatever characters its name has. The order of use does not matter.",
    over=["inputs"],
    text="Every combination of items of libraries and dart:core, with or without prefix, with arbitrary names, in every order.",
    why="The tests have a handful of fixed imports; lost directives depend on a particular combination of libraries and prefixes.",
    files=["src/lang/dart/mod.rs", TOK],
    mechanism=mech(("collection of directives", "src/lang/dart/mod.rs: imports"), ("how an item is written in the body", "src/lang/dart/mod.rs: Lang::Item format")),
    observe=["dart::Tokens::to_file_string"])
META["C16"] = dict(
    title="Go, Swift and C headers cover every item used, once",
    statement="A rendered Go, Swift or C file has, for every imported item which is used or registered, exactly one import or include of its module, of the right kind, and nothing else, and this line names exactly the module given, whatever characters its name has; the body writes each item as that language refers to it. A Go file starts with its package if it has one. The order of use does not matter.",
    over=["inputs", "configurations"],
    text="Every combination of items of arbitrary modules and names, in every order; system and local includes; with and without a Go package.",
    why="The tests have a handful of fixed imports; lost or repeated lines depend on particular coincidences of modules and names.",
    files=["src/lang/go.rs", "src/lang/swift.rs", "src/lang/c.rs", TOK],
    mechanism=mech(("collection of imports", "src/lang/go.rs, src/lang/swift.rs, src/lang/c.rs: imports")),
    observe=["to_file_string, format_file in Go, Swift, C"])

META["C17"] = dict(
    title="A Nix file binds everything its body and its variables refer to",
    statement="In a rendered Nix file every argument, inherited name, name from a `with` and variable which the body refers to is bound: in the argument set (unless scoped), a `with`, or the `let` block, exactly once and with the path or value given. The same goes for everything that the value of a variable refers to, however deeply nested. Nothing else is bound, and the order of use does not matter.",
    over=["inputs", "configurations"],
    text="Every combination of arguments, inherited names, withs and variables, nested in values of variables or not, with arbitrary names, in every order, scoped or not.",
    why="The tests have one example per kind; unbound names depend on how variables nest and on which paths share a root.",
    files=["src/lang/nix.rs", TOK],
    mechanism=mech(("argument set, withs and let block", "src/lang/nix.rs: arguments, withs, imports")),
    observe=["nix::Tokens::format_file with and without nix::Config::with_scoped"])

META["C18"] = dict(
    title="Quotes lay out rows as they stand in the source",
    statement="quote!, quote_in! and quote_fn! append the tokens of a quote in order, and take whitespace only from where the tokens stand: directly behind each other without a space, at any distance in one line with one space; a token in a later line begins a row, with one empty line before it if there was at least one; a row further right than the previous one is indented by one level, and one which returns to the column of an earlier open row goes back to that row's level. A row at a column between open rows, or left of the first, is refused at compile time; nothing else is. What comes behind the last row is not affected by its level.",
    over=["inputs"],
    text="Every placement of the tokens of a quote in lines and columns, for every kind of token.",
    why="The quotes in the tests and documentation stand in a few dozen tidy places; the decisions depend on the order of the columns of all rows so far.",
    files=["genco-macros/src/encoder.rs", "genco-macros/src/quote.rs", "genco-macros/src/cursor.rs", "genco-macros/src/fake.rs", "genco-macros/src/static_buffer.rs", "genco-macros/src/lib.rs", "genco-macros/src/quote_in.rs", "genco-macros/src/quote_fn.rs", "genco-macros/src/ast.rs"],
    mechanism=mech(("whitespace from positions", "genco-macros/src/encoder.rs: step, tokenize_whitespace, finalize"), ("recognition of what stands in a quote", "genco-macros/src/quote.rs: parse_inner"), ("positions of spans", "genco-macros/src/fake.rs, cursor.rs")),
    observe=["the token stream which the macros return", "quote!, quote_in!, quote_fn!"])
META["C19"] = dict(
    title="Control flow and interpolated strings in quotes do what they say",
    statement="An `if`, `if let`, `for` with and without `join`, `match` with guards and attributes, `let` or `ref` scope in a quote appends exactly what its bodies say, as often and in the order in which Rust runs them, each body laid out by its own rows; spaces at the edges of a parenthesised join or arm count. `$[str](..)` is one string whose text is exactly what stands in it, spaces and groups included, with every `$x`, `$(..)` and `$[const](..)` in its place; a line break in it is refused. The check that a language supports interpolation is made if and only if something is interpolated, wherever it is nested.",
    over=["inputs"],
    text="Every construct, nested, at every placement of its tokens, with every value of its conditions and lists; every sequence of parts of a string at every distance.",
    why="The tests use each construct once or twice in tidy places and with one value; the separators between iterations, edges of bodies and groups in strings depend on placement and values.",
    files=["genco-macros/src/encoder.rs", "genco-macros/src/quote.rs", "genco-macros/src/string_parser.rs", "genco-macros/src/requirements.rs", "genco-macros/src/static_buffer.rs"],
    mechanism=mech(("parsing of control flow", "genco-macros/src/quote.rs: parse_condition, parse_loop, parse_match, parse_scope"), ("generated control flow", "genco-macros/src/encoder.rs: encode_repeat, encode_condition, encode_match, encode_scope"), ("interpolated strings", "genco-macros/src/string_parser.rs")),
    observe=["the token stream which the macros return", "quote!"])

NOT_APPLICABLE = {}

META["C08"] = dict(
    title="A value appended to a stream contributes exactly its own text",
    statement="Every value which can be put into a stream as text - an integer of any type, a string in any of its owned, borrowed, shared, static or copy-on-write forms, format arguments, anything displayable, an ItemStr made from any of these, a closure, an option or a list of them - renders as exactly the text the value displays as, in order, nothing added, dropped or re-indented, wherever in the stream it stands and whichever of these ways it is given.",
    over=["inputs"],
    text="Every value of the twelve integer types, every text, in every form it can be given.",
    why="The tests append one or two short sample values of a few types; a truncated, converted or reformatted value shows only for particular values (large, negative, long, empty or non-ASCII ones) in one particular form.",
    files=["src/tokens/format_into.rs", "src/tokens/item_str.rs", "src/tokens/display.rs", "src/tokens/static_literal.rs", "src/tokens/from_fn.rs", "src/tokens/item.rs", FMT],
    mechanism=mech(("conversion of values to items", "src/tokens/format_into.rs, display.rs, static_literal.rs, from_fn.rs"), ("conversion of strings", "src/tokens/item_str.rs: From impls")),
    observe=["Tokens::append", "quote!", "Tokens::to_string"])
META["C09"] = dict(
    title="Streams, items and texts compare, hash and iterate by content",
    statement="Two texts, items or streams are equal exactly if they have the same content, however it is stored, shared, collected or put together; equal ones hash alike, render alike and import alike. Their order is a total order which agrees with equality. A stream compares with a list of items like the list of its own items; its iterators, by reference and by value, go through exactly these items and report how many are left; and a stream collected from its items is equal to it.",
    over=["inputs"],
    text="Every pair (and triple) of texts, items and streams, in every kind of storage.",
    why="The tests compare streams which they expect to be equal; they do not see a comparison which is too generous, an order which is not transitive, or a hash which depends on the storage.",
    files=["src/tokens/item_str.rs", "src/tokens/item.rs", TOK],
    mechanism=mech(("comparison by content", "src/tokens/item_str.rs: PartialEq, Ord, Hash; src/tokens/item.rs"), ("comparison and iteration of streams", "src/tokens/tokens.rs: PartialEq impls, Iter, IntoIter, FromIterator, WalkImports")),
    observe=["==, cmp, hash of ItemStr, Item and Tokens", "Tokens::iter, into_iter, collect, walk_imports"])
META["C20"] = dict(
    title="Comment helpers put every line in the comment, where it stands",
    statement="java::block_comment, csharp::comment, csharp::block_comment and dart::doc_comment append one row per given line, each behind the marker of its language at the indentation of the place, with one space and then exactly the line's text (no space behind the marker of an empty line), in order; the comment starts in a row of its own; Java's has its opening and closing rows around it. Without lines nothing is appended.",
    over=["inputs"],
    text="Every list of lines with any text (without line breaks or the end of the comment), at every indentation, behind and before other text.",
    why="The documentation has one example per helper, at one level with two short lines.",
    files=["src/lang/java/block_comment.rs", "src/lang/csharp/comment.rs", "src/lang/csharp/block_comment.rs", "src/lang/dart/doc_comment.rs", TOK, FMT],
    mechanism=mech(("rows of a comment", "format_into in src/lang/java/block_comment.rs, src/lang/csharp/comment.rs, src/lang/csharp/block_comment.rs, src/lang/dart/doc_comment.rs")),
    observe=["Tokens::to_string of the comments of each language"])
