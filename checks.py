"""Which harnesses decide which property, with their bounds per tier."""
COMMON_ASSUMPTIONS = [
    "bounded: only inputs within the bounds stated per unit are covered",
    "compiled as LLVM IR by clang 18 (libstdc++ 13, boost 1.83 headers) at -O2 with assertions enabled; gcc code generation is outside",
    "memory allocation does not fail; the C locale is in effect",
    "environment models in models/*.cpp stand for the libc/libstdc++/libgumbo code that is only available as shared objects; sampled paths are compared with the real libraries on every run",
    "document trees are built by the harness in the shape libgumbo produces (consistent parent/index links); libgumbo's own parsing is not executed",
]
PROPS = {}
def prop(pid, units, assumptions=()):
    PROPS[pid] = {"units": units, "assumptions": list(assumptions)}
def U(name, src, quick=None, thorough=None, bound="", **kw):
    return dict(name=name, src=src, quick=quick or {}, thorough=thorough or quick or {}, bound=bound, **kw)

prop("C01", [
    U("all steps and shifts", "c01_nth.cpp", {"KIDS": 4}, {"KIDS": 6}, "all 2^64 (step, shift) pairs; up to KIDS siblings, each an element with any of the standard tags, a custom element or a non-element; 4 option sets"),
    U("selected steps", "c01_nth.cpp", {"KIDS": 3, "STEP": 1}, {"KIDS": 4, "STEP": 1}, "15 steps including INT_MIN, INT_MAX; all shifts; up to KIDS siblings"),
])

prop("C02", [
    U("counts and only-child", "c02_counts.cpp", {"KIDS": 5}, {"KIDS": 6}, "up to KIDS siblings/children, each an element of any standard tag, a custom element or a non-element; all counts 0..2^32-1; every trait variant"),
])
prop("C03", [
    U("negated trait list", "c03_not.cpp", {"LIST": 3}, {"LIST": 4}, "lists of up to LIST traits with arbitrary outcomes"),
    U("negated value tests", "c04_attr.cpp", {"VLEN": 4, "LLEN": 3}, {"VLEN": 5, "LLEN": 3}, "attribute values up to VLEN bytes, literals up to LLEN bytes"),
    U("negated attribute presence", "c04_exists.cpp", {"NLEN": 3}, {"NLEN": 4}, "attribute names up to NLEN bytes"),
])
prop("C04", [
    U("value tests", "c04_attr.cpp", {"VLEN": 4, "LLEN": 3}, {"VLEN": 6, "LLEN": 3}, "every value test; attribute values up to VLEN bytes, literals up to LLEN bytes, all byte values (in the literal also NUL, which no value contains); negated and not; on an attribute and on a builtin"),
    U("attribute presence", "c04_exists.cpp", {"NLEN": 3}, {"NLEN": 4}, "attribute names up to NLEN bytes; up to three attributes"),
    U("lists of words", "c04_attr.cpp", {"OP": 4, "WORDS": 1, "VLEN": 5, "LLEN": 5}, {"OP": 4, "WORDS": 1, "VLEN": 6, "LLEN": 6}, "the word test; values up to VLEN and literals up to LLEN bytes of a, b, space and tab"),
])
prop("C05", [
    U("tag names", "c05_tag.cpp", {"LEN": 4}, {"LEN": 8}, "every standard tag and every custom name up to LEN bytes, on both sides"),
    U("long names", "c05_tag.cpp", {"LONG": 300}, {"LONG": 2000}, "custom names of LONG bytes with one free byte anywhere in the first or last 250, names that differ in length by 1 and by 256"),
    U("names written in hext", "c05_tag.cpp", {"PARSED": 1, "LEN": 2}, {"PARSED": 1, "LEN": 3}, "every standard tag, one letter in upper case, and every custom name of up to LEN bytes after x, written in four ways, on every standard tag and custom elements"),
])
prop("C06", [
    U("single pipes", "c06_pipes.cpp", {"LEN": 5, "ARG": 2}, {"LEN": 5, "ARG": 3}, "every string pipe on every string up to LEN bytes with arguments up to ARG bytes"),
    U("chains", "c06_pipes.cpp", {"LEN": 2, "ARG": 1, "CHAIN": 3, "COPY": 1}, {"LEN": 3, "ARG": 1, "CHAIN": 3, "COPY": 1}, "every chain of up to CHAIN string pipes, and its copy, on every string up to LEN bytes"),
    U("long chains", "c06_pipes.cpp", {"LEN": 3, "ARG": 1, "LONGCHAIN": 60, "COPY": 1}, {"LEN": 4, "ARG": 2, "LONGCHAIN": 200, "COPY": 1}, "chains of LONGCHAIN fixed pipes with any pipe at any place, and their copies, on every string of LEN bytes"),
])
prop("C07", [
    U("text", "c07_text.cpp", {"NODES": 4, "TLEN": 2}, {"NODES": 4, "TLEN": 3}, "every tree of NODES nodes (elements, text, whitespace, CDATA, comments, templates) with texts up to TLEN bytes"),
    U("long texts", "c07_text.cpp", {"NODES": 2, "TLEN": 2, "PAD": 5000}, {"NODES": 2, "TLEN": 2, "PAD": 70000}, "the same trees of NODES nodes, every text preceded by PAD bytes of words and gaps", may_miss=["whitespace only"]),
])
prop("C08", [
    U("inner-html", "c08_inner.cpp", {"NODES": 2, "TLEN": 3}, {"NODES": 2, "TLEN": 3}, "every tree of NODES nodes below the element, texts and attribute values up to TLEN bytes"),
    U("every tag", "c08_inner.cpp", {"NODES": 1, "ALLTAGS": 1}, {"NODES": 1, "ALLTAGS": 1}, "one child of every standard tag"),
    U("foreign elements", "c08_inner.cpp", {"NODES": 2, "FOREIGN": 1, "TLEN": 1, "ATTRS": 0}, {"NODES": 2, "FOREIGN": 1, "TLEN": 1}, "elements of 18 tags, the void ones among them, in the HTML, SVG and MathML namespaces, with content", may_miss=["attributes"]),
    U("deeper trees", "c08_inner.cpp", {"NODES": 3, "TLEN": 1, "ATTRS": 0}, {"NODES": 3, "TLEN": 1}, "every tree of NODES nodes, texts up to TLEN bytes", may_miss=["attributes"]),
    U("long texts and values", "c08_inner.cpp", {"NODES": 1, "TLEN": 2, "PAD": 3000}, {"NODES": 2, "TLEN": 1, "PAD": 10000}, "every text, comment and attribute value preceded by PAD bytes"),
])
SH = "every rule tree of RULES rules (children, nested rules, siblings)"
prop("C09", [
    U("judged groups", "c09_tree.cpp", {"RULES": 3, "NODES": 4, "FLAGS": 1, "SOUND": 1}, {"RULES": 3, "NODES": 4, "FLAGS": 1, "TAGS": 3, "SOUND": 1}, SH + " with every optional/greedy marking on every document tree of NODES elements; tags chosen freely per node and rule; each group judged declaratively"),
    U("judged groups, wider rules", "c09_tree.cpp", {"RULES": 4, "NODES": 4, "SOUND": 1}, {"RULES": 4, "NODES": 5, "SOUND": 1}, SH + ", all mandatory, on every document tree of NODES elements"),
    U("judged groups with text nodes, below the root", "c09_tree.cpp", {"RULES": 2, "NODES": 4, "FLAGS": 1, "TEXTS": 1, "SUBROOT": 1, "SOUND": 1}, {"RULES": 2, "NODES": 5, "FLAGS": 1, "TEXTS": 1, "SUBROOT": 1, "SOUND": 1}, "text nodes in the document; extraction started at any node"),
    U("judged groups with any-tag rules, below the root", "c09_tree.cpp", {"RULES": 2, "NODES": 4, "FLAGS": 1, "ANYRULE": 1, "SUBROOT": 1, "SOUND": 1}, {"RULES": 2, "NODES": 5, "FLAGS": 1, "ANYRULE": 1, "SUBROOT": 1, "SOUND": 1}, "rules for any tag; extraction started at any node"),
    U("matches and captures", "c10_single.cpp", {"NODES": 3}, {"NODES": 4}, "one rule with up to two matches and captures of arbitrary outcome per node, every document tree of NODES elements"),
    U("every tag in the document", "c10_single.cpp", {"NODES": 4, "EVERYTAG": 1, "MATCHES": 1, "CAPTURES": 1}, {"NODES": 5, "EVERYTAG": 1, "MATCHES": 1, "CAPTURES": 1}, "the same with every standard tag on every node of the document"),
])
prop("C10", [
    U("one name for all captures", "c09_tree.cpp", {"RULES": 3, "NODES": 5, "SAMENAME": 1}, {"RULES": 4, "NODES": 5, "SAMENAME": 1}, SH + ", all mandatory, every rule capturing by the same name, on every document tree of NODES elements"),
    U("nested rules", "c09_tree.cpp", {"RULES": 3, "NODES": 5}, {"RULES": 3, "NODES": 6}, SH + ", all mandatory, on every document tree of NODES elements"),
    U("wider rules", "c09_tree.cpp", {"RULES": 4, "NODES": 4}, {"RULES": 4, "NODES": 5}, SH + ", all mandatory, on every document tree of NODES elements"),
    U("texts, any-tag rules, extraction below the root", "c09_tree.cpp", {"RULES": 2, "NODES": 4, "TEXTS": 1, "ANYRULE": 1, "SUBROOT": 1}, {"RULES": 3, "NODES": 4, "TEXTS": 1, "ANYRULE": 1, "SUBROOT": 1}, "non-element nodes in the document, rules for any tag, extraction started at any node"),
    U("matches and captures", "c10_single.cpp", {"NODES": 3}, {"NODES": 4}, "one rule with up to two matches and captures of arbitrary outcome per node, every document tree of NODES elements"),
    U("every tag in the document", "c10_single.cpp", {"NODES": 4, "EVERYTAG": 1, "MATCHES": 1, "CAPTURES": 1}, {"NODES": 5, "EVERYTAG": 1, "MATCHES": 1, "CAPTURES": 1}, "the same with every standard tag on every node of the document"),
])
prop("C11", [
    U("sibling groups", "c11_flat.cpp", {"RULES": 3, "NODES": 4, "TAGS": 3}, {"RULES": 4, "NODES": 5, "TAGS": 3}, "every list of RULES sibling rules with every optional/greedy marking on every list of NODES siblings"),
    U("longer groups", "c11_flat.cpp", {"RULES": 4, "NODES": 5}, {"RULES": 4, "NODES": 6}, "as above, two tags"),
    U("nested optional and greedy rules", "c09_tree.cpp", {"RULES": 3, "NODES": 4, "FLAGS": 1}, {"RULES": 3, "NODES": 4, "FLAGS": 1, "TAGS": 3}, SH + " with every marking on every document tree of NODES elements"),
    U("with text nodes and any-tag rules", "c09_tree.cpp", {"RULES": 2, "NODES": 3, "FLAGS": 1, "TEXTS": 1, "ANYRULE": 1, "SUBROOT": 1}, {"RULES": 2, "NODES": 4, "FLAGS": 1, "TEXTS": 1, "ANYRULE": 1, "SUBROOT": 1}, "non-element nodes in the document, rules for any tag, extraction started at any node"),
    U("one name for all captures", "c09_tree.cpp", {"RULES": 3, "NODES": 4, "FLAGS": 1, "SAMENAME": 1}, {"RULES": 3, "NODES": 4, "FLAGS": 1, "TAGS": 3, "SAMENAME": 1}, SH + " with every marking, every rule capturing by the same name, on every document tree of NODES elements"),
    U("relations", "c11_meta.cpp", {"RULES": 3, "NODES": 4}, {"RULES": 3, "NODES": 5}, "relations between extractions with and without an idle optional rule; order; greediness"),
    U("greedy after optional", "c11_known.cpp", {}, {}, "the recorded finding"),
])
prop("C12", [
    U("budget", "c12_budget.cpp", {"RULES": 3, "NODES": 3}, {"RULES": 3, "NODES": 4}, "every 64-bit budget; every rule tree of RULES rules and document tree of NODES nodes"),
    U("budget with text nodes", "c12_budget.cpp", {"RULES": 2, "NODES": 4, "TEXTS": 1}, {"RULES": 3, "NODES": 4, "TEXTS": 1, "ANYRULE": 1}, "every 64-bit budget; every rule tree of RULES rules and document tree of NODES elements and text nodes"),
    U("work that a budget allows", "c12_budget.cpp", {"RULES": 3, "NODES": 4, "FLAGS": 1, "WORK": 1}, {"RULES": 3, "NODES": 4, "FLAGS": 1, "WORK": 1, "TAGS": 3}, "every 64-bit budget; every rule tree of RULES rules with every marking, document tree of NODES nodes: searches of sibling lists, counted by the matches they call, stay below the budget"),
    U("budget with optional and greedy rules", "c12_budget.cpp", {"RULES": 2, "NODES": 3, "FLAGS": 1}, {"RULES": 3, "NODES": 3, "FLAGS": 1}, "as above with every marking"),
])
prop("C13", [
    U("objects", "c13_pure.cpp", {"REGEX": 1}, {"REGEX": 1}, "one object of every match, test, capture and pipe class on scenes with symbolic tags, texts and attribute values: no write to memory that existed before, same answer twice"),
    U("extraction twice", "c09_tree.cpp", {"RULES": 2, "NODES": 4, "FLAGS": 1, "TWICE": 1}, {"RULES": 3, "NODES": 4, "FLAGS": 1, "TWICE": 1}, "extract leaves rule, document and every other object that existed before untouched; a second extraction gives the same result"),
    U("objects on a changed document", "c13_pure.cpp", {"REGEX": 1, "CHANGED": 1}, {"REGEX": 1, "CHANGED": 1}, "the same objects before and after each of 7 changes of the document at the same addresses, and on fresh copies of both"),
    U("extraction from a changed document", "c09_tree.cpp", {"RULES": 2, "NODES": 4, "CHANGED": 1}, {"RULES": 3, "NODES": 4, "CHANGED": 1}, "every rule tree of RULES rules, mandatory, on every document tree of NODES elements, before and after any one element gets another tag or a new child"),
    U("extraction from a changed document, optional and greedy rules", "c09_tree.cpp", {"RULES": 2, "NODES": 3, "CHANGED": 1, "FLAGS": 1}, {"RULES": 2, "NODES": 4, "CHANGED": 1, "FLAGS": 1}, "as above with every marking"),
])
prop("C14", [
    U("copies of parts", "c14_copy.cpp", {"REGEX": 1}, {"REGEX": 1}, "every pair of construction values for one object of every class; copy, assign, move, destroy"),
    U("copies of rules", "c14_rule.cpp", {"RULES": 2, "FLAGS": 1}, {"RULES": 3, "FLAGS": 1}, "every rule tree of RULES rules; copy, assign, move, modify, destroy"),
    U("copies of deeper rules", "c14_rule.cpp", {"RULES": 3}, {"RULES": 4}, "as above"),
])
prop("C15", [
    U("every short text", "c15_parse.cpp", {"MODE": 0, "LEN": 5, "AGAIN": 1}, {"MODE": 0, "LEN": 6, "AGAIN": 1}, "every byte string of up to LEN bytes, parsed by both overloads, and another text parsed afterwards"),
    U("from every scanner state", "c15_parse.cpp", {"MODE": 1, "LEN": 2, "AGAIN": 1}, {"MODE": 1, "LEN": 3, "AGAIN": 1}, "819 prefixes (at least one for every state of the scanner) followed by every byte string of 1 to LEN bytes"),
    U("errors spanning lines", "c15_parse.cpp", {"MODE": 3, "LEN": 2, "AGAIN": 1}, {"MODE": 3, "LEN": 3, "AGAIN": 1}, "invalid expressions, tags and tokens that extend over several lines, followed by every byte string of 1 to LEN bytes"),
])
prop("C16", [
    U("numbers and formulas", "c16_trait.cpp", {"MODE": 0, "LEN": 3}, {"MODE": 0, "LEN": 4}, "every counting trait with every argument of up to LEN bytes of 0-9, n, +, - and ) after six beginnings, on a scene of 17 elements of several types"),
    U("limits of int", "c16_trait.cpp", {"MODE": 1}, {"MODE": 1}, "every counting trait with numbers of up to 22 digits around the limits of 8, 16, 24, 32 and 64 bits, the last two digits free, alone or in a formula"),
    U("lists and :not", "c16_trait.cpp", {"MODE": 2, "LEN": 2}, {"MODE": 2, "LEN": 2}, "every pair of traits, each of 13 or :not of up to LEN of them"),
])
prop("C17", [
    U("every short text", "c15_parse.cpp", {"MODE": 0, "LEN": 5}, {"MODE": 0, "LEN": 6}, "every byte string of up to LEN bytes; the whole message compared with an independent reader of hext"),
    U("from every scanner state", "c15_parse.cpp", {"MODE": 1, "LEN": 2}, {"MODE": 1, "LEN": 2}, "819 prefixes (at least one for every state of the scanner) followed by every byte string of 1 to LEN bytes"),
    U("many lines and columns", "c15_parse.cpp", {"MODE": 2, "LEN": 2}, {"MODE": 2, "LEN": 3}, "texts of 9, 10, 97 to 100 lines and of up to 282 columns followed by every byte string of 1 to LEN bytes"),
    U("errors spanning lines", "c15_parse.cpp", {"MODE": 3, "LEN": 2}, {"MODE": 3, "LEN": 3}, "invalid expressions, tags and tokens that extend over several lines, followed by every byte string of 1 to LEN bytes"),
])
PARSE = ["premature end", "unexpected character"]
prop("C18", [
    U("tokens", "c18_nesting.cpp", {"TOKENS": 4}, {"TOKENS": 5}, "every sequence of up to TOKENS openings, self-closing rules, closing tags, braces, blanks and comments; every one-letter tag name and *", may_miss=PARSE),
    U("longer sequences", "c18_nesting.cpp", {"TOKENS": 7, "DEEP": 1}, {"TOKENS": 8, "DEEP": 1}, "every sequence of up to TOKENS openings, self-closing rules, closing tags and braces over the tag names a, b and B", may_miss=PARSE),
    U("longer tag names", "c18_nesting.cpp", {"TOKENS": 2, "TWO": 1}, {"TOKENS": 3, "TWO": 1}, "tag names of one or two characters (standard and custom ones)", may_miss=PARSE),
    U("markings", "c18_nesting.cpp", {"TOKENS": 3, "FLAGS": 1}, {"TOKENS": 3, "FLAGS": 1}, "every ? and + marking of every rule", may_miss=PARSE),
])
prop("C24", [
    U("expressions on values", "c24_regex.cpp", {"MODE": 0, "ATOMS": 1, "LEN": 3}, {"MODE": 0, "ATOMS": 2, "LEN": 3}, "every sequence of up to ATOMS of 12 atoms (letters, classes, groups, alternatives, anchors) with 5 quantifiers, with and without i, on every attribute value and text of up to LEN bytes without line breaks; =~, filter and replace"),
    U("delimiters, flags and replacements", "c24_regex.cpp", {"MODE": 0, "ATOMS": 1, "LEN": 2, "FORMS": 1}, {"MODE": 0, "ATOMS": 1, "LEN": 3, "FORMS": 1}, "the expressions in each of the three delimiters with every combination of the flags i and c, replacements with and without references"),
    U("values with line breaks", "c24_regex.cpp", {"MODE": 0, "ATOMS": 1, "LEN": 3, "LINES": 1}, {"MODE": 0, "ATOMS": 2, "LEN": 2, "LINES": 1}, "every attribute value, with line breaks ('.' matches them, '^' and '$' match next to them)"),
    U("values with NUL", "c24_regex.cpp", {"MODE": 2, "ATOMS": 1, "LEN": 2}, {"MODE": 2, "ATOMS": 2, "LEN": 2}, "filter and replace after a pipe that appends NUL and up to one free byte"),
    U("longer expressions", "c24_regex.cpp", {"MODE": 0, "ATOMS": 2, "LEN": 2}, {"MODE": 0, "ATOMS": 2, "LEN": 2}, "as above"),
    U("type-matches", "c24_regex.cpp", {"MODE": 1, "ATOMS": 1, "LEN": 2}, {"MODE": 1, "ATOMS": 2, "LEN": 2}, "the same expressions on every standard tag and on custom names of LEN free letters, alone and in :not"),
])
prop("C25", [
    U("tests", "c25_pattern.cpp", {"MODE": 0, "LEN": 2, "VLEN": 1}, {"MODE": 0, "LEN": 2, "VLEN": 2}, "every operator on attributes and builtins, negated or not, every literal of up to LEN bytes in either quotes, values of up to VLEN bytes, any blanks in one of the gaps"),
    U("captures", "c25_pattern.cpp", {"MODE": 1, "LEN": 2, "VLEN": 1}, {"MODE": 1, "LEN": 3, "VLEN": 1}, "one or two captures, mandatory and optional, of attributes and builtins; every capture name of up to LEN bytes, quoted or not"),
    U("pipes", "c25_pattern.cpp", {"MODE": 2, "LEN": 2, "VLEN": 2, "PIPES": 1}, {"MODE": 2, "LEN": 2, "VLEN": 3, "PIPES": 1}, "every pipe with every literal of up to LEN bytes"),
    U("chains of pipes", "c25_pattern.cpp", {"MODE": 2, "LEN": 1, "VLEN": 1, "PIPES": 2}, {"MODE": 2, "LEN": 1, "VLEN": 2, "PIPES": 2}, "every pair of pipes with every literal of up to LEN bytes"),
])
prop("C26", [
    U("one rule", "c26_mix.cpp", {"MODE": 0, "VLEN": 1, "TRAITS": 1, "PATTERNS": 2}, {"MODE": 0, "VLEN": 2, "TRAITS": 1, "PATTERNS": 2}, "up to TRAITS of 12 traits and PATTERNS of 22 patterns in one rule, after nothing, another rule or a rule that breaks off; attribute values of VLEN free bytes"),
    U("traits", "c26_mix.cpp", {"MODE": 0, "VLEN": 2, "TRAITS": 2, "PATTERNS": 1}, {"MODE": 0, "VLEN": 2, "TRAITS": 2, "PATTERNS": 1}, "as above"),
    U("two rules", "c26_mix.cpp", {"MODE": 1, "VLEN": 1, "TRAITS": 1, "PATTERNS": 1}, {"MODE": 1, "VLEN": 1, "TRAITS": 1, "PATTERNS": 2}, "as above in siblings, children and nested rules, one trait or pattern in the other rule"),
    U("patterns next to another rule", "c26_mix.cpp", {"MODE": 1, "VLEN": 1, "TRAITS": 0, "PATTERNS": 2}, {"MODE": 1, "VLEN": 1, "TRAITS": 0, "PATTERNS": 2}, "as above"),
])
HTMLEXT = dict(flags=["-I{REPO}/htmlext"], files=["{REPO}/htmlext/*.cpp", "{REPO}/htmlext/htmlext/*"])
prop("C19", [
    U("every byte", "c19_json.cpp", {"GROUPS": 1, "PAIRS": 1, "KLEN": 2, "VLEN": 3}, {"GROUPS": 1, "PAIRS": 1, "KLEN": 2, "VLEN": 4}, "no group or one group of up to one name of up to KLEN bytes with a value of up to VLEN bytes, all byte values; all four option sets", **HTMLEXT),
    U("two names", "c19_json.cpp", {"GROUPS": 1, "PAIRS": 2, "KLEN": 1, "VLEN": 1}, {"GROUPS": 1, "PAIRS": 2, "KLEN": 2, "VLEN": 1}, "one group of up to PAIRS names and values, all byte values", **HTMLEXT),
    U("repeated names", "c19_json.cpp", {"GROUPS": 1, "PAIRS": 4, "KLEN": 1, "VLEN": 1, "PLAIN": 1}, {"GROUPS": 1, "PAIRS": 5, "KLEN": 1, "VLEN": 1, "PLAIN": 1}, "one group of up to PAIRS names and values of up to one letter", **HTMLEXT),
    U("several groups", "c19_json.cpp", {"GROUPS": 2, "PAIRS": 2, "KLEN": 1, "VLEN": 1, "PLAIN": 1}, {"GROUPS": 3, "PAIRS": 2, "KLEN": 1, "VLEN": 1, "PLAIN": 1}, "up to GROUPS groups of up to PAIRS names and values of up to one letter", **HTMLEXT),
    U("long names and values", "c19_json.cpp", {"GROUPS": 1, "PAIRS": 2, "KLEN": 1, "VLEN": 1, "PLAIN": 1, "PAD": 300}, {"GROUPS": 1, "PAIRS": 3, "KLEN": 1, "VLEN": 1, "PLAIN": 1, "PAD": 5000}, "names and values of PAD fixed bytes and up to one free letter", **HTMLEXT),
    U("many values, names and groups", "c19_json.cpp", {"MANY": 300, "PLAIN": 1}, {"MANY": 2000, "PLAIN": 1}, "MANY values of one name, MANY names or MANY groups, two values of one free letter", may_miss=["empty result"], **HTMLEXT),
])
CLI = dict(flags=["-I{REPO}/htmlext"], ir_flags=["-I{VERIF}/stubs/po"], native_libs=["-lboost_program_options"], models=["streams.cpp"], files=["{REPO}/htmlext/*.cpp", "{REPO}/htmlext/htmlext/*", "{VERIF}/stubs/po/boost/*"])
prop("C20", [
    U("every list of arguments", "c20_cli.cpp", {"MODE": 0, "ARGS": 3, "FORMS": 3}, {"MODE": 0, "ARGS": 4, "FORMS": 3}, "every list of up to ARGS of 20 kinds of arguments (rules and documents given by option or position, valid, invalid or missing; filter, budget, lint, compact, pretty, array, help, version, unknown, repeated) in 4 spellings; standard output a terminal or not; attribute values, filter key and budget digit free", **CLI),
    U("contents of files and rules", "c20_cli.cpp", {"MODE": 2, "FORMS": 0, "LEN": 2, "PAD": 3000}, {"MODE": 2, "FORMS": 3, "LEN": 3, "PAD": 20000}, "a rule and a document read from files, the standard input or an argument: up to LEN free bytes (all values, also NUL and line breaks) in front of or after nothing, 40 or PAD fixed bytes; every byte of the document shows in the result", may_miss=["budget exhausted", "lint", "help or version"], **CLI),
    U("arguments around two rules and two documents", "c20_cli.cpp", {"MODE": 1, "ARGS": 2, "FORMS": 3}, {"MODE": 1, "ARGS": 3, "FORMS": 3}, "up to ARGS of the same arguments before, between or after three rules and two documents", **CLI),
])
def binding(lang, *inc):
    return dict(swig=lang, override=1, flags=["-I" + i for i in inc], native_flags=["-no-pie", "-Wl,--unresolved-symbols=ignore-all"], files=["{REPO}/libhext/bindings/wrapper/*"])
PY = binding("python", "/usr/include/python3.12")
prop("C21", [
    U("every byte", "c21_python.cpp", {"MODE": 0, "GROUPS": 1, "PAIRS": 1, "KLEN": 2, "VLEN": 4}, {"MODE": 0, "GROUPS": 1, "PAIRS": 1, "KLEN": 3, "VLEN": 6}, "results of up to one name of up to KLEN bytes with a value of up to VLEN bytes, all byte values; every outcome of the extraction, every 64-bit budget, failure of any call of the Python API", **PY),
    U("two names", "c21_python.cpp", {"MODE": 0, "GROUPS": 1, "PAIRS": 2, "KLEN": 1, "VLEN": 1}, {"MODE": 0, "GROUPS": 1, "PAIRS": 2, "KLEN": 2, "VLEN": 2}, "as above, up to PAIRS names and values", **PY),
    U("repeated names", "c21_python.cpp", {"MODE": 0, "GROUPS": 1, "PAIRS": 4, "KLEN": 1, "VLEN": 1, "PLAIN": 1}, {"MODE": 0, "GROUPS": 1, "PAIRS": 5, "KLEN": 1, "VLEN": 1, "PLAIN": 1}, "as above, names and values of up to one letter", **PY),
    U("several groups", "c21_python.cpp", {"MODE": 0, "GROUPS": 2, "PAIRS": 2, "KLEN": 1, "VLEN": 1, "PLAIN": 1}, {"MODE": 0, "GROUPS": 3, "PAIRS": 2, "KLEN": 1, "VLEN": 0, "PLAIN": 1}, "as above, up to GROUPS groups", **PY),
    U("many values, names and groups", "c21_python.cpp", {"MODE": 0, "MANY": 300, "PLAIN": 1}, {"MODE": 0, "MANY": 2000, "PLAIN": 1}, "MANY values of one name, MANY names or MANY groups, two values of one free letter", may_miss=["empty result"], **PY),
    U("construction and destruction", "c21_python.cpp", {"MODE": 1, "GROUPS": 0, "PAIRS": 0, "KLEN": 0, "VLEN": 3}, {"MODE": 1, "GROUPS": 0, "PAIRS": 0, "KLEN": 0, "VLEN": 6}, "Html and Rule made of every text of up to VLEN bytes, syntax errors, failure of the creation of the object", **PY),
])
RB = binding("ruby", "/usr/include/ruby-3.2.0", "/usr/include/x86_64-linux-gnu/ruby-3.2.0")
PHP = binding("php", *["/usr/include/php/20230831" + d for d in ("", "/main", "/TSRM", "/Zend", "/ext")])
def both(name, quick, thorough, bound):
    return [U("Ruby: " + name, "c27_ruby.cpp", quick, thorough, bound, **RB), U("PHP: " + name, "c27_php.cpp", quick, thorough, bound, **PHP)]
prop("C27", both("every byte", {"MODE": 0, "GROUPS": 1, "PAIRS": 1, "KLEN": 2, "VLEN": 4}, {"MODE": 0, "GROUPS": 1, "PAIRS": 1, "KLEN": 3, "VLEN": 6}, "results of up to one name of up to KLEN bytes with a value of up to VLEN bytes, all byte values; every outcome of the extraction, every budget")
    + both("two names", {"MODE": 0, "GROUPS": 1, "PAIRS": 2, "KLEN": 1, "VLEN": 1}, {"MODE": 0, "GROUPS": 1, "PAIRS": 2, "KLEN": 2, "VLEN": 2}, "as above, up to PAIRS names and values")
    + both("repeated names", {"MODE": 0, "GROUPS": 1, "PAIRS": 4, "KLEN": 1, "VLEN": 1, "PLAIN": 1}, {"MODE": 0, "GROUPS": 1, "PAIRS": 5, "KLEN": 1, "VLEN": 1, "PLAIN": 1}, "as above, names and values of up to one letter")
    + both("several groups", {"MODE": 0, "GROUPS": 2, "PAIRS": 2, "KLEN": 1, "VLEN": 1, "PLAIN": 1}, {"MODE": 0, "GROUPS": 3, "PAIRS": 2, "KLEN": 1, "VLEN": 0, "PLAIN": 1}, "as above, up to GROUPS groups")
    + both("many values, names and groups", {"MODE": 0, "MANY": 300, "PLAIN": 1}, {"MODE": 0, "MANY": 2000, "PLAIN": 1}, "MANY values of one name, MANY names or MANY groups, two values of one free letter")
    + both("construction", {"MODE": 1, "VLEN": 3}, {"MODE": 1, "VLEN": 6}, "Html and Rule made of every text of up to VLEN bytes, syntax errors"))
NODE = dict(override=1, flags=["-DNAPI_CPP_EXCEPTIONS", "-I/opt/veriftools/node/node_modules/node-addon-api", "-I/usr/include/node", "-I{REPO}/libhext/bindings"], native_flags=["-no-pie", "-fno-sanitize=vptr", "-Wl,--unresolved-symbols=ignore-all"], files=["{REPO}/libhext/bindings/nodejs/src/*"])
prop("C28", [
    U("every byte", "c28_node.cpp", {"MODE": 0, "GROUPS": 1, "PAIRS": 1, "KLEN": 2, "VLEN": 3}, {"MODE": 0, "GROUPS": 1, "PAIRS": 1, "KLEN": 3, "VLEN": 4}, "results of up to one name of up to KLEN bytes with a value of up to VLEN bytes, all byte values; every outcome of the extraction; failure of any call of Node-API", **NODE),
    U("long names and numbers", "c28_node.cpp", {"MODE": 0, "GROUPS": 1, "PAIRS": 1, "KLEN": 9, "VLEN": 0, "NUMBERS": 1}, {"MODE": 0, "GROUPS": 1, "PAIRS": 1, "KLEN": 14, "VLEN": 0, "NUMBERS": 1}, "names of up to KLEN bytes, every integral number as budget", **NODE),
    U("two names", "c28_node.cpp", {"MODE": 0, "GROUPS": 1, "PAIRS": 2, "KLEN": 1, "VLEN": 1}, {"MODE": 0, "GROUPS": 1, "PAIRS": 2, "KLEN": 2, "VLEN": 1}, "as above, up to PAIRS names and values", **NODE),
    U("repeated names", "c28_node.cpp", {"MODE": 0, "GROUPS": 1, "PAIRS": 3, "KLEN": 1, "VLEN": 1, "PLAIN": 1}, {"MODE": 0, "GROUPS": 1, "PAIRS": 4, "KLEN": 1, "VLEN": 1, "PLAIN": 1}, "as above, names and values of up to one letter", **NODE),
    U("several groups", "c28_node.cpp", {"MODE": 0, "GROUPS": 2, "PAIRS": 2, "KLEN": 1, "VLEN": 0, "PLAIN": 1}, {"MODE": 0, "GROUPS": 3, "PAIRS": 1, "KLEN": 1, "VLEN": 0, "PLAIN": 1}, "as above, up to GROUPS groups", **NODE),
    U("many values, names and groups", "c28_node.cpp", {"MODE": 0, "MANY": 300, "PLAIN": 1}, {"MODE": 0, "MANY": 2000, "PLAIN": 1}, "MANY values of one name, MANY names or MANY groups, two values of one free letter", may_miss=["empty result"], **NODE),
    U("construction", "c28_node.cpp", {"MODE": 1, "VLEN": 3}, {"MODE": 1, "VLEN": 6}, "Html and Rule made of every text of up to VLEN bytes, syntax errors, failing calls", **NODE),
    U("any arguments", "c28_node.cpp", {"MODE": 2}, {"MODE": 2}, "both constructors and extract called with up to two arguments of every kind of JavaScript value, and on objects whose construction failed", **NODE),
])
prop("C22", [
    U("every object on every node", "c22_memory.cpp", {"MODE": 0, "NODES": 2}, {"MODE": 0, "NODES": 2}, "one object of every match, test, capture and pipe class on every node of every tree of NODES nodes of every kind (elements with and without original text, unknown, template, foreign, text, whitespace, comment, CDATA) below html"),
    U("extraction on every tree", "c22_memory.cpp", {"MODE": 1, "NODES": 1, "RULES": 2, "ANYRULE": 1, "FLAGS": 1}, {"MODE": 1, "NODES": 2, "RULES": 1, "ANYRULE": 1, "FLAGS": 1}, "up to RULES rules, every marking, every 64-bit budget, started at every node of every tree of NODES nodes of every kind"),
    U("more rules and nodes", "c22_memory.cpp", {"MODE": 1, "NODES": 2, "RULES": 2}, {"MODE": 1, "NODES": 2, "RULES": 2}, "as above, mandatory rules naming a tag"),
])
prop("C23", [
    U("histories", "c23_html.cpp", {"STEPS": 4}, {"STEPS": 5}, "every history of STEPS operations (two constructors, move construction, move assignment also to itself, swap, assignment from a temporary, destruction) on three objects; every text of up to 3 bytes; every size"),
])

def scale(pid, what, size, bound, **kw): PROPS[pid]["units"].append(U("large inputs", "scale.cpp", {"WHAT": what, "SIZE": size}, {"WHAT": what, "SIZE": kw.get("big", size)}, bound))
scale("C01", 1, 70000, "SIZE siblings around symbolic positions")
scale("C02", 2, 70000, "SIZE children or attributes, symbolic counts")
scale("C04", 3, 1500, "attribute values of SIZE bytes", big=5000)
scale("C06", 4, 5000, "strings of SIZE bytes", big=70000)
scale("C07", 5, 300, "SIZE nodes, SIZE levels deep", big=600)
scale("C08", 5, 300, "SIZE nodes, SIZE levels deep", big=600)
scale("C09", 6, 300, "documents of SIZE nodes")
scale("C10", 6, 300, "documents of SIZE nodes")
scale("C12", 6, 300, "documents of SIZE nodes and every 64-bit budget")

def more(pid, *units): PROPS[pid]["units"].extend(units)
def many(pid, what, bound, size=300, big=600, **kw):
    d = {"WHAT": what, **kw.pop("defs", {})}
    more(pid, U("many " + kw.pop("of"), "many.cpp", {**d, "SIZE": size}, {**d, "SIZE": big}, bound, **kw))
ODD = "SIZE of them, one, first, last or in the middle, being different"
many("C03", 4, "lists of SIZE traits, one of which holds or not, and SIZE or SIZE + 1 levels of :not, and their copies", of="traits and levels of :not", size=600, big=2000)
many("C10", 1, "rules with SIZE siblings, levels of children, nested rules, captures or matches, one of which meets a node (or is a match) that suits it or not", of="rules, captures and matches")
many("C11", 5, "SIZE sibling rules, one or all but one or every other of them optional, or one greedy, on one or two complete or incomplete runs of SIZE siblings", of="optional and greedy rules")
many("C14", 1, "copies, assignment, move and swap of rules with SIZE siblings, levels, nested rules, captures or matches", of="rules, captures and matches")
many("C16", 3, "rules with SIZE traits, and :not of SIZE traits: " + ODD, of="traits", defs={"TRAITS": 1}, big=400)
many("C17", 2, "the errors of SIZE nested, sibling and grouped rules", of="rules")
many("C18", 2, "SIZE nested rules, siblings and groups written in hext, one with a free tag name, or with a closing tag missing", of="rules")
many("C25", 3, "rules with SIZE patterns: " + ODD, of="patterns", big=400)
many("C26", 3, "rules with SIZE patterns: " + ODD, of="patterns", big=400)
for pid, kind, of in (("C25", None, "literals, names, blanks, expressions, numbers and comments"), ("C05", 6, "custom tag names"), ("C16", 7, "numbers (with leading zeros)"), ("C18", 6, "tag names, opened and closed"), ("C24", 4, "expressions and values"), ("C24", 9, "type-matches")):
    d = {"WHAT": 6, **({} if kind is None else {"KIND": kind})}
    more(pid, U("long tokens" if kind is None else "long " + of, "many.cpp", {**d, "SIZE": 1100}, {**d, "SIZE": 5000}, of + " of SIZE bytes, one of them free, in hext and in the document", may_miss=["nothing selected"] if kind == 7 else []))
more("C04", U("many words and attributes", "many.cpp", {"WHAT": 7, "SIZE": 300}, {"WHAT": 7, "SIZE": 600}, "SIZE words, in two orders, one of them free; an attribute with a free name among SIZE"))
more("C13", U("many calls", "c13_pure.cpp", {"REGEX": 1, "REPEAT": 300}, {"REGEX": 1, "REPEAT": 2000}, "one object of every class asked REPEAT times"))
more("C15", U("long texts", "c15_parse.cpp", {"MODE": 2, "LEN": 1, "LONGEST": 1000, "AGAIN": 1}, {"MODE": 2, "LEN": 1, "LONGEST": 5000, "AGAIN": 1}, "texts of LONGEST line breaks, blanks, bytes of a comment or of a value, and up to LEN free bytes"))
more("C17", U("thousands of lines and columns", "c15_parse.cpp", {"MODE": 2, "LEN": 1, "LONGEST": 1000}, {"MODE": 2, "LEN": 1, "LONGEST": 2000}, "errors after LONGEST lines or columns, and up to LEN free bytes"))
more("C20", U("many rules and documents", "c20_cli.cpp", {"MODE": 3, "MANY": 300, "FORMS": 0}, {"MODE": 3, "MANY": 300, "FORMS": 3}, "MANY rules or documents given in one of 5 ways, one of them another one or invalid, and one more argument", may_miss=["help or version"], **CLI))
more("C20", U("values of any bytes", "c20_cli.cpp", {"MODE": 4, "LEN": 2}, {"MODE": 4, "LEN": 3}, "values that end with up to LEN free bytes (NUL and line breaks as well), and empty ones, as JSON and filtered", may_miss=["budget exhausted", "lint", "help or version", "error"], **CLI))
more("C23", U("many documents", "c23_html.cpp", {"MANY": 300}, {"MANY": 1000}, "a list of MANY documents that grows, of which one or all after a place are removed"))
more("C24", U("long values", "c24_regex.cpp", {"MODE": 0, "ATOMS": 1, "LEN": 1, "PAD": 300}, {"MODE": 0, "ATOMS": 1, "LEN": 2, "PAD": 300}, "values of PAD fixed and up to LEN free bytes"))
LONG = {"GROUPS": 1, "PAIRS": 1, "KLEN": 1, "VLEN": 1, "PLAIN": 1, "PAD": 70000}; LONGTEXT = {"MODE": 1, "GROUPS": 0, "PAIRS": 0, "KLEN": 0, "VLEN": 1, "PLAIN": 1, "PAD": 70000}
for lang, pid, src, opt in (("", "C21", "c21_python.cpp", PY), ("Ruby: ", "C27", "c27_ruby.cpp", RB), ("PHP: ", "C27", "c27_php.cpp", PHP), ("", "C28", "c28_node.cpp", NODE)):
    more(pid, U(lang + "long names and values", src, {"MODE": 0, **LONG}, {"MODE": 0, **LONG, "PAD": 1000000}, "names and values of PAD bytes and up to one free letter", **opt),
              U(lang + "long texts", src, LONGTEXT, {**LONGTEXT, "PAD": 1000000}, "Html and Rule made of texts of PAD bytes and up to one free letter", **opt))

NOTES = {}
NOT_APPLICABLE = {
    "C29": "the property is about libgumbo's parser, which exists here only as a shared object without source; there is nothing to encode symbolically",
}
