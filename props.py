"""What is run for each property: harness entries with their bounds (params; `thorough` replaces them in the
thorough tier), the witnesses each run has to reach, and the meaning of the assertion numbers."""
STR = "two adjacent pieces of together %d arbitrary Unicode scalar values, quoted in %s and read back by a reference lexer of that language"
LANGS = "rust python c csharp go swift java js dart nix".split()

def imports(entry, styles, what):
    """Runs of an import harness under other styles of names (see harness/src/bind.rs)."""
    text = {
        1: ("cross", "%s, named by single symbolic letters of either case, whatever they name, every coincidence"),
        2: ("lengths", "%s, one of the names a symbolic letter longer than the others"),
        3: ("padded", "%s, all names 4, 25 or 71 characters long"),
        4: ("many", "%s with concrete names, few modules, every order"),
        5: ("related", "%s of related modules (one within the other, beginning or ending alike, or like the special ones)"),
    }
    out = []
    for style, quick, thorough in styles:
        name, t = text[style]
        q = (quick + [0] * 5)[:5] + [style] + quick[5:]
        th = (thorough + [0] * 5)[:5] + [style] + thorough[5:] if thorough else None
        r = dict(entry=entry, name="%s_%s%d" % (entry, name, quick[0]), params=q, reach=[1], bounds=t % (what % quick[0]))
        if th:
            r["thorough"] = th
            r["bounds"] += " (thorough: %d)" % thorough[0]
        out.append(r)
    return out


PROPS = {
    "C01": dict(
        features=["layout"],
        runs=[
            dict(entry="h_layout", params=[4, 9], thorough=[5, 9], reach=[1],
                 bounds="all streams of 4 operations (thorough: 5) out of 10 kinds, indentation changes -3..4 included, rendered as text and as file",
                 asserts={"1": "rendered text differs from the reference layout", "3": "file differs from the reference layout"}),
            dict(entry="h_layout_width", params=[110, 4], thorough=[400, 9], reach=[1],
                 bounds="indentation widths: level -110..110 (thorough 400), unit tab or 0..4 spaces (thorough 0..9), with and without text, line and space before"),
            dict(entry="h_layout_levels", params=[], reach=[1],
                 bounds="three consecutive levels, the first two any 16-bit values, the last 0..40, differences expressible in 16 bits"),
            dict(entry="h_layout_between", params=[4], thorough=[6], reach=[1],
                 bounds="all streams of 4 operations (thorough 6) out of 7 kinds between two texts, at two levels, units of 4, 1, 0 spaces and tab, line breaks LF and CRLF"),
            dict(entry="h_layout_cfg", params=[4], thorough=[5], reach=[],
                 bounds="all streams of 4 operations (thorough 5) out of 6 kinds under units of 4, 1, 0 spaces and tab, line breaks LF, CRLF and empty"),
        ],
    ),
    "C03": dict(
        features=["strings"],
        runs=[dict(entry="h_str_" + l, params=[2], thorough=[3], bounds=STR % (2, l) + " (thorough: 3)", reach=[1],
                   asserts={"1": "the literal denotes another text", "2": "the literal is malformed"}) for l in LANGS]
          + [dict(entry="h_str_" + l, name="h_str_long_" + l, params=[1, 1], thorough=[2, 1], reach=[1],
                  bounds="1 arbitrary Unicode scalar value (thorough 2) behind plain text of 16 lengths from 1 to 4097 characters, in " + l) for l in LANGS],
    ),
    "C04": dict(
        features=["strings"],
        runs=[dict(entry="h_eval_" + l, params=[2], thorough=[3], reach=[1],
                   bounds="2 arbitrary Unicode scalar values (thorough: 3) split around one or two interpolated expressions out of 9 shapes (arbitrary two-character expressions, identifiers of up to 4097 characters), with an imported or registered item behind or not, in " + l,
                   asserts={"1": "the literal denotes another text or expression", "2": "the literal is malformed"}) for l in "js dart".split()],
    ),
    "C05": dict(
        features=["compose"],
        runs=[
            dict(entry="h_compose", params=[3, 8], thorough=[4, 8], reach=[1],
                 bounds="all streams of 3 requests (thorough 4) out of 9 kinds, every middle part added in 16 ways, as a stream or as a list of streams"),
            dict(entry="h_compose_register", params=[], reach=[1], bounds="tuples of 1 to 8 items, owned or borrowed, registered in two ways between other items"),
            dict(entry="h_compose_deep", params=[4, 5], thorough=[5, 6], reach=[1],
                 bounds="all streams of 4 requests (thorough 5) cut in three, put together in both groupings"),
            dict(entry="h_compose_items", params=[3], thorough=[4], reach=[1],
                 bounds="all lists of 3 items (thorough 4), collected or extended from iterators with 4 kinds of claimed length"),
            dict(entry="h_compose_text", params=[2], thorough=[3], reach=[1],
                 bounds="texts of 2 arbitrary Unicode scalar values (thorough 3), added in 12 ways"),
        ],
    ),
    "C06": dict(
        features=["quotes"],
        runs=[
            dict(entry="h_quotes_deep", params=[6], thorough=[8], reach=[1],
                 bounds="chains of 6 nested quotes and evaluations (thorough 8) with text before or behind each"),
            dict(entry="h_quotes_ws", params=[6], thorough=[8], reach=[1],
                 bounds="all quotes of 6 items (thorough 8): texts, whitespace, nested quotes and evaluations, behind 4 kinds of indentation"),
            dict(entry="h_quotes_long", params=[2], thorough=[3], reach=[1],
                 bounds="2 parts (thorough 3) in one quote: texts, interior quotes or quotes in evaluations of 0, 1, 16, 33, 64, 129 or 257 characters"),
            dict(entry="h_quotes", params=[5, 11], thorough=[6, 11], reach=[1, 2, 3],
                 bounds="all streams of 5 items (thorough 6) out of 12 kinds: literals, quotes, evaluations, whitespace, items"),
            dict(entry="h_quotes_nested", params=[10], thorough=[12], reach=[1],
                 bounds="all well-formed nestings of quotes, evaluations and literals of 10 items (thorough 12)"),
        ],
    ),
    "C08": dict(
        features=["values"],
        runs=[
            dict(entry="h_value_int", params=[], reach=[1], bounds="every value of the 12 integer types, alone, between spaces and in an indented row"),
            dict(entry="h_value_edge", params=[], reach=[1], bounds="the powers of two and ten, the values before them, and their negations, in 7 integer types of 32 bits and more"),
            dict(entry="h_value_digits", params=[], reach=[1], bounds="every value of the 8 and 16 bit integers, read back digit by digit"),
            dict(entry="h_value_text", params=[1], thorough=[2], reach=[1],
                 bounds="texts of 0 or 1 (thorough 2) arbitrary Unicode scalar values with 8 lengths of plain text behind, given in 22 ways"),
            dict(entry="h_value_lists", params=[3], thorough=[4], reach=[1],
                 bounds="lists of up to 3 (thorough 4) texts of up to one arbitrary Unicode scalar value, and of 8 to 65 texts, one of them arbitrary, given in 9 ways"),
        ],
    ),
    "C09": dict(
        features=["content"],
        runs=[
            dict(entry="h_content_str", params=[1], thorough=[2], reach=[1, 2], bounds="two texts of up to 1 (thorough 2) arbitrary Unicode scalar values in both kinds of storage"),
            dict(entry="h_content_str_order", params=[], reach=[1], bounds="three texts of up to one ASCII character in both kinds of storage"),
            dict(entry="h_content_display", params=[1], thorough=[2], reach=[1], bounds="texts of up to 1 (thorough 2) arbitrary Unicode scalar values in 25 format specifications"),
            dict(entry="h_content_item", params=[], reach=[1, 2], bounds="all pairs of items out of 9 kinds"),
            dict(entry="h_content_item_place", params=[], reach=[1, 2], bounds="all pairs of imports and registrations behind up to 2 out of 3 kinds of items"),
            dict(entry="h_content_item_order", params=[5], thorough=[8], reach=[1], bounds="all triples of items out of 6 kinds (thorough 9)"),
            dict(entry="h_content_stream", params=[2, 3], thorough=[3, 3], reach=[1, 2], bounds="all pairs of streams of 2 (thorough 3) requests out of 6 kinds"),
            dict(entry="h_content_iter", params=[3], thorough=[4], reach=[1], bounds="all streams of 3 (thorough 4) requests out of 11 kinds, and 0, 9 or 40 texts behind them"),
        ],
    ),
    "C10": dict(
        features=["imp_js"],
        runs=[
            dict(entry="h_imp_js", params=[3, 6], reach=[1],
                 bounds="3 imported items of 7 kinds (named, aliased, default, wildcard, of 2 modules), names of one symbolic letter out of 8, every coincidence of names; one or none of them registered only; both orders"),
            dict(entry="h_imp_js_path", params=[3], thorough=[4], reach=[1],
                 bounds="module paths and file paths of up to 3 components (thorough 4)"),
        ] + imports("h_imp_js", [(1, [2, 6], [3, 6]), (2, [2, 6], [3, 6]), (3, [2, 6], [3, 6]), (4, [4, 3, 0, 0, 0, 2, 0], None), (4, [6, 1, 0, 0, 0, 2, 0], [6, 2, 0, 0, 0, 2, 0]), (5, [2, 3, 0, 0, 0, 9, 2], [2, 6, 0, 0, 0, 9, 2])], "%d imported items"),
    ),
    "C11": dict(
        features=["imp_python"],
        runs=[dict(entry="h_imp_python", params=[2, 9, 1], thorough=[3, 9, 1], reach=[1],
                   bounds="2 imported items (thorough 3) of 10 kinds with symbolic names, every coincidence of names; both orders"),
              dict(entry="h_imp_python", name="h_imp_python3", params=[3, 5, 0], thorough=[3, 9, 0], reach=[1],
                   bounds="3 imported items of 6 kinds (thorough 10) with symbolic names, modules without dots")]
              + imports("h_imp_python", [(1, [2, 9], [3, 5]), (2, [2, 9], [3, 5]), (3, [2, 9], None), (4, [4, 5, 0, 0, 0, 2, 0], None), (4, [6, 1, 0, 0, 0, 2, 0], None), (5, [2, 5, 0, 0, 0, 9, 2], [2, 9, 0, 0, 0, 9, 2]), (5, [3, 0, 0, 0, 0, 6, 1], [3, 2, 0, 0, 0, 6, 1])], "%d imported items"),
    ),
    "C12": dict(
        features=["imp_rust"],
        runs=[dict(entry="h_imp_rust", params=[2, 9], thorough=[3, 9], reach=[1],
                   bounds="2 imported items (thorough 3) of 10 kinds with symbolic names, every coincidence of names, every default import mode; both orders"),
              dict(entry="h_imp_rust", name="h_imp_rust3", params=[3, 4], reach=[1], bounds="3 imported items of 5 kinds with symbolic names")]
              + imports("h_imp_rust", [(1, [2, 9], [3, 4]), (2, [2, 4], [2, 9]), (3, [2, 4], [2, 9]), (4, [4, 3, 0, 0, 0, 2, 0], None), (4, [5, 1, 0, 0, 0, 2, 0], [6, 1, 0, 0, 0, 2, 0]), (5, [2, 4, 0, 0, 0, 12, 1], [2, 9, 0, 0, 0, 12, 2]), (5, [3, 0, 0, 0, 0, 6, 1], [3, 2, 0, 0, 0, 6, 1])], "%d imported items"),
    ),
    "C13": dict(
        features=["imp_java"],
        runs=[dict(entry="h_imp_java", params=[3, 3], thorough=[4, 3], reach=[1],
                   bounds="3 imported types (thorough 4) of 2 packages, the own package or java.lang, with symbolic names, every coincidence of names; both orders; with and without own package")]
              + imports("h_imp_java", [(1, [2, 3], [3, 3]), (2, [2, 3], [3, 3]), (3, [2, 3], [3, 3]), (4, [4, 3, 0, 0, 0, 1, 2], [4, 3, 0, 0, 0, 2, 2]), (4, [6, 0, 0, 0, 0, 3, 0], None), (5, [2, 2, 0, 0, 0, 10, 2], None), (5, [3, 2, 0, 0, 0, 4, 2], [3, 2, 0, 0, 0, 6, 2])], "%d imported types"),
    ),
    "C14": dict(
        features=["imp_csharp"],
        runs=[dict(entry="h_imp_csharp", params=[3, 4], thorough=[4, 4], reach=[1],
                   bounds="3 imported types (thorough 4) of 2 namespaces or the own namespace, plain or qualified, with symbolic names, every coincidence of names; both orders; with and without own namespace")]
              + imports("h_imp_csharp", [(1, [2, 4], [3, 4]), (2, [2, 4], [3, 4]), (3, [2, 4], [3, 4]), (4, [4, 4, 0, 0, 0, 1, 2], None), (4, [6, 0, 0, 0, 0, 3, 0], None), (5, [2, 3, 0, 0, 0, 9, 2], None), (5, [3, 1, 0, 0, 0, 4, 2], [3, 1, 0, 0, 0, 6, 2])], "%d imported types")
              + [dict(r, name=r["name"] + "_in", bounds=r["bounds"] + ", with or without a namespace of the file which is in another one")
                 for r in imports("h_imp_csharp", [(5, [2, 3, 1, 0, 0, 8, 2], None), (5, [3, 1, 1, 0, 0, 4, 2], [3, 1, 1, 0, 0, 6, 2])], "%d imported types")],
    ),
}
PROPS["C15"] = dict(
    features=["imp_misc"],
    runs=[dict(entry="h_imp_dart", params=[3], thorough=[4], reach=[1],
               bounds="3 imported items (thorough 4) of libraries or dart:core, with or without alias, with symbolic names, every coincidence of names; both orders; one or none registered only")]
          + imports("h_imp_dart", [(1, [3], None), (2, [3], None), (3, [2], [3]), (4, [4, 0, 0, 0, 0, 2, 0], [5, 0, 0, 0, 0, 3, 0]), (5, [2, 0, 0, 0, 0, 8, 2], None), (5, [3, 0, 0, 0, 0, 3, 1], None)], "%d imported items"),
)
PROPS["C16"] = dict(
    features=["imp_misc"],
    runs=[r for l in "go swift c".split() for r in [dict(entry="h_imp_" + l, params=[3], thorough=[4], reach=[1],
               bounds="3 imported items (thorough 4) with symbolic modules and names, every coincidence, both orders, one or none registered only, in " + l)]
          + imports("h_imp_" + l, [(1, [3], None), (2, [3], None), (3, [2], [3]), (4, [4, 0, 0, 0, 0, 2, 0], None if l == "c" else [5, 0, 0, 0, 0, 3, 0]), (5, [2, 0, 0, 0, 0, 9, 2], None), (5, [3, 0, 0, 0, 0, 6, 1], None)], "%d imported items in " + l)],
)
PROPS["C17"] = dict(
    features=["imp_nix"],
    runs=[dict(entry="h_imp_nix", params=[2, 2], thorough=[3, 2], reach=[1],
               bounds="2 items (thorough 3), and one of them again: arguments, inherited names, names of a with, or variables whose values use another item, nested up to 2 levels; symbolic names and paths, every coincidence; both orders; scoped or not")]
          + imports("h_imp_nix", [(1, [2, 1], [2, 2]), (2, [2, 1], [2, 2]), (3, [2, 1], None), (4, [3, 1, 0, 0, 0, 2, 0], None), (5, [2, 1, 0, 0, 0, 8, 1], [2, 2, 0, 0, 0, 8, 2])], "%d items"),
)
def texts(l):
    what = "a module named by %s, its name read back from the header by a reference lexer, in " + l
    return [dict(entry="h_path_" + l, params=[2], thorough=[3], reach=[1], bounds=what % "2 (thorough 3) arbitrary Unicode scalar values"),
            dict(entry="h_path_" + l, name="h_path_long_" + l, params=[1, 1], thorough=[2, 1], reach=[1],
                 bounds=what % "1 (thorough 2) arbitrary Unicode scalar values behind plain text of 6 lengths from 3 to 1025 characters")]


for c, ls in [("C10", ["js"]), ("C15", ["dart"]), ("C16", ["go", "c"])]:
    PROPS[c]["features"].append("imp_text")
    for l in ls:
        PROPS[c]["runs"] += texts(l)
PROPS["C02"] = dict(
    features=["files"],
    runs=[dict(entry="h_writers", params=[4, 8], thorough=[5, 8], reach=[1],
               bounds="all streams of 4 requests (thorough 5) out of 9 kinds, texts and quoted texts of arbitrary Unicode scalar values included, 3 configurations, as text and as file, through all writers"),
          dict(entry="h_pieces", params=[], reach=[1], bounds="text of an item written in pieces of 0 to 2 characters behind pending whitespace"),
          dict(entry="h_file", params=[4, 13], thorough=[5, 13], reach=[1],
               bounds="all bodies of 4 requests (thorough 5) out of 7 kinds in 14 combinations of language and configuration, against the reference layout")],
)
PROPS["C07"] = dict(
    features=["files"],
    runs=[dict(entry="h_fail_fmt", params=[10, 60], reach=[1, 2],
               bounds="a file with header, indentation, quotes and evaluation in 11 languages, the writer failing at any call"),
          dict(entry="h_fail_io", params=[10, 3, 40], thorough=[10, 5, 40], reach=[1, 2],
               bounds="the same files; from any call on 3 calls (thorough 5) are complete, short, interrupted, failing or refused in any order"),
          dict(entry="h_fail_item", params=[5], thorough=[6], reach=[1, 2],
               bounds="all streams of 5 texts, items and ends of quotes (thorough 6), each item failing or not, registered or not, in a quote, in quotes inside of quotes, or outside")],
)
QASSERT = {"1": "the generated code renders something else than the quote says", "2": "rendering fails", "3": "a quote which has to be refused is accepted",
           "4": "a quote is refused without reason", "5": "the check for support of interpolation is missing, or there without need"}
PROPS["C18"] = dict(
    features=["quoting"],
    runs=[dict(entry="h_rows", params=[3, 22], thorough=[4, 22], reach=[1, 2], asserts=QASSERT,
               bounds="quotes of 3 tokens (thorough 4), one of them of any of 22 kinds, each in any of the next three lines at any column 1..100000, with gaps of up to 1000 columns in a line (refused quotes: 1..9)"),
          dict(entry="h_rows_deep", params=[5], thorough=[6], reach=[1, 2], asserts=QASSERT,
               bounds="5 rows (thorough 6) of one word, above one of them up to 70000 empty lines or none, each at any column 1..100000 (refused quotes: 1..9)"),
          dict(entry="h_rows_groups", params=[4], thorough=[5], reach=[1, 2], asserts=QASSERT,
               bounds="4 words and delimiters of groups (thorough 5) in rows at any columns"),
          dict(entry="h_wrappers", params=[], reach=[1, 2], asserts=QASSERT,
               bounds="quote!, quote_in! and quote_fn! of up to 3 tokens in rows at any columns, or of an interpolated string")],
)
PROPS["C19"] = dict(
    features=["quoting"],
    runs=[dict(entry="h_flow", params=[2, 0, 0], thorough=[3, 0, 0], reach=[1], asserts=QASSERT,
               bounds="one of 13 control constructs in a line, with everything at symbolic distances; lists of up to 2 values (thorough 3) from iterators which do not say how many, every value of its condition"),
          dict(entry="h_flow", name="h_flow_rows", params=[2, 0, 2], thorough=[2, 0, 5], reach=[1, 2], asserts=QASSERT,
               bounds="the same constructs, any 2 neighbouring tokens (thorough 5) in rows of their own at any columns"),
          dict(entry="h_flow", name="h_flow_bodies", params=[2, 0, 0, 1], thorough=[2, 1, 0, 1], reach=[1], asserts=QASSERT,
               bounds="the same constructs (thorough: in one another) with bodies which are empty or have one part or two"),
          dict(entry="h_flow", name="h_flow_strings", params=[1, 0, 0, 0, 3], thorough=[2, 1, 0, 0, 5], reach=[1], asserts=QASSERT,
               bounds="the same constructs (thorough: in one another) with a string, interpolated or not, in any one of the bodies"),
          dict(entry="h_flow", name="h_flow_nested", params=[2, 1, 1], reach=[1, 2], asserts=QASSERT, thorough_only=True,
               bounds="a construct in a construct, any token in a row of its own at any column"),
          dict(entry="h_interpolated", params=[1, 1], reach=[1, 2], asserts=QASSERT,
               bounds="an interpolated string of 1 part out of 16 kinds between words, in rows at any columns"),
          dict(entry="h_interpolated", name="h_interpolated_parts", params=[2, 0], thorough=[3, 0], reach=[1, 2], asserts=QASSERT,
               bounds="an interpolated string of 2 parts (thorough 3), one out of 16 kinds and the others out of 4, at symbolic distances, one of them of 300 columns")],
)
PROPS["C20"] = dict(
        features=["comments"],
        runs=[dict(entry="h_comment_" + l, params=[2, 1], thorough=[3, 1], reach=[1],
                   bounds="up to 2 (thorough 3) lines: empty, plain, of up to 257 characters, or one arbitrary Unicode scalar value, at 3 levels, with and without text around, in 5 kinds of list (one which leaves items out)")
              for l in "java csharp csharp_doc dart".split()],
    )
