#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only because JSON lines are unpleasant to edit)."""
import json, os
S='libhext/src/'; I='libhext/include/hext/'
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=stmt,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

p('C01','Positional traits select exactly the siblings their arithmetic describes',
 'For every step a and shift b representable as int, an nth-child style trait (nth-child, nth-last-child, nth-of-type, nth-last-of-type and the first/last/odd/even shorthands) matches an element that has a parent element exactly when its 1-based position among its element siblings (counted from the front or the back, restricted to the same type for the of-type forms) equals a*n+b for some integer n >= 0. Text, comment and other non-element siblings never count, a non-element never matches, and the answer is arithmetically exact for the whole int range.',
 ['inputs'],'every (step, shift) pair of ints, every option combination, every list of siblings of mixed node types and tags, every index',
 'Unit tests sample a handful of (a,b) pairs on a few trees; the arithmetic has sign cases, modulo and overflow corners over 2^64 pairs.',
 [S+'NthChildMatch.cpp',I+'NthChildMatch.h'],[('NthChildMatch::matches',S+'NthChildMatch.cpp')],observe=['NthChildMatch::matches'])
p('C02','only-child, only-of-type, empty, child-count and attribute-count are exact',
 'only-child matches an element with a parent element exactly when it has no element sibling, and only-of-type exactly when it has no element sibling of the same type. child-count(n) (with empty meaning zero) matches an element exactly when it has n element children, and attribute-count(n) exactly when it carries n attributes, for every unsigned n; text, comments and whitespace never count and non-elements never match.',
 ['inputs'],'all child lists of mixed node types and tags, all counts n',
 'Tests use a few fixed documents; mixed text/comment/element sibling lists and counts near the extremes are not sampled.',
 [S+'OnlyChildMatch.cpp',S+'ChildCountMatch.cpp',S+'AttributeCountMatch.cpp'],
 [('OnlyChildMatch::matches',S+'OnlyChildMatch.cpp'),('ChildCountMatch::matches',S+'ChildCountMatch.cpp'),('AttributeCountMatch::matches',S+'AttributeCountMatch.cpp')])
p('C03','Negation is an exact complement',
 'A :not(...) trait holds for a node exactly when none of the traits listed inside it holds, and a trailing ! on an attribute or builtin test inverts that test exactly, where a bare name! means the attribute is absent. Copies of a negated test decide exactly like the original.',
 ['inputs'],'all tests and combinations of traits, all nodes and attribute values including missing attributes',
 'Tests pick single examples per operator; complement is a two-sided claim over every subject string, missing attributes and trait combination.',
 [S+'NegateMatch.cpp',S+'NegateTest.cpp',S+'AttributeMatch.cpp'],[('NegateMatch::matches',S+'NegateMatch.cpp'),('NegateTest::test',S+'NegateTest.cpp')])
p('C04','Attribute tests decide exactly their documented string relation',
 'name requires the attribute to exist; =="v", ^="v", $="v", *="v" hold exactly when the attribute value equals, begins with, ends with or contains v byte for byte, and ="w1 w2" holds exactly when every space separated word of the literal occurs as a whole space-delimited word of the value, in any order. A missing attribute satisfies no un-negated test, attribute names are found regardless of case, and the same relations apply to the value of a builtin function.',
 ['inputs'],'all literals, all attribute values, all attribute lists',
 'Substring and word search have boundary corners (overlap, repeated prefixes, empty values, length boundaries) that samples miss.',
 [S+'AttributeMatch.cpp',S+'EqualsTest.cpp',S+'BeginsWithTest.cpp',S+'EndsWithTest.cpp',S+'ContainsTest.cpp',S+'ContainsWordsTest.cpp',S+'StringUtil.cpp',S+'FunctionValueMatch.cpp'],
 [('ContainsWord',S+'StringUtil.cpp'),('ValueTest::test','libhext/src/*Test.cpp'),('AttributeMatch::matches',S+'AttributeMatch.cpp')])
p('C05','Tag names match exactly, including custom tags',
 'A rule that names a tag matches exactly the elements with that tag name, compared without regard to ASCII case, whether the tag is a standard HTML tag or an unknown/custom one, and never a non-element node. A rule with * accepts every element, and two different custom tag names never match each other.',
 ['inputs'],'all tag names (standard and custom), all elements, all spellings of the opening tag text',
 'Tests use a few custom tags; the length/case/prefix handling of unknown tag text is an input-quantified claim.',
 [S+'Rule.cpp',S+'Parser.cpp','libhext/ragel/Parser.cpp.rl'],[('Rule::matches',S+'Rule.cpp'),('Parser::set_open_tag_or_throw','libhext/ragel/Parser.cpp.rl')])
p('C06','String pipes compute their documented function and apply left to right',
 'trim removes exactly the leading and trailing characters of its set (default the HTML whitespace/space set it documents), collapsews trims and turns every inner run of HTML whitespace into one space, tolower/toupper change exactly ASCII letters, prepend/append add exactly their literal. A chain of pipes is applied in the order written, whatever its length, and a copied chain behaves like the original.',
 ['inputs','programs'],'all strings, all chains of pipes',
 'Every string and every chain order; tests cover a few strings and short chains.',
 [S+'TrimPipe.cpp',S+'CollapseWsPipe.cpp',S+'CasePipe.cpp',S+'PrependPipe.cpp',S+'AppendPipe.cpp',S+'StringPipe.cpp',S+'StringUtil.cpp'],
 [('StringPipe::pipe/append',S+'StringPipe.cpp'),('TrimAndCollapseWs',S+'StringUtil.cpp')])
p('C07','@text and @strip-tags yield the text content in document order',
 '@strip-tags of a node is exactly the concatenation, in document order, of all text and whitespace below it and nothing else. @text is the same text with every element that is not an inline element set off by whitespace, with all runs of whitespace collapsed to a single space and both ends trimmed, so its non-whitespace characters are exactly those of @strip-tags.',
 ['inputs'],'all trees of elements, text, whitespace, comment nodes and all text contents',
 'Tree shapes and contents are unbounded; tests fix a few documents.',
 [S+'NodeUtil.cpp',S+'Builtins.cpp',S+'StringUtil.cpp'],[('StripTags',S+'NodeUtil.cpp'),('TrimAndCollapseWs',S+'StringUtil.cpp'),('TagWrapsText',S+'NodeUtil.cpp')])
p('C08','@inner-html serialises every descendant faithfully and in order',
 '@inner-html of an element is the markup of its children in document order: for each descendant element its name, all of its attributes in order with their values delimited by double quotes such that an HTML parser reads the same value back, its content and its closing tag (void elements have none), and text and comments verbatim. The node itself is not included, and a non-element yields the empty string.',
 ['inputs'],'all trees, attribute lists, attribute values and text',
 'Round trip over all attribute values (quotes, backslashes, ampersands) and all tree shapes; tests contain none with special characters.',
 [S+'NodeUtil.cpp'],[('SerializeNode/SerializeAttribute/SerializeElement',S+'NodeUtil.cpp')])
p('C09','Every extraction result is justified by the document',
 'Each result group produced by an extraction corresponds to one genuine occurrence of the rule pattern: every captured value comes from a node inside the searched tree that satisfies the tag, traits and tests of the rule that captured it, child rules match direct children and nested rules match descendants of the node their parent rule matched, and sibling rules of one group match distinct siblings in document order. Every mandatory rule of the pattern contributed to every group, and values of different groups are never mixed.',
 ['inputs','programs'],'all documents and all rule trees',
 'Universally quantified over documents x rules; the test suite is a finite list of pairs.',
 [S+'RuleMatching.cpp',S+'Rule.cpp'],[('MatchRuleGroup/RuleMatchesNodeRecursive',S+'RuleMatching.cpp'),('Rule::extract',S+'Rule.cpp')])
p('C10','No match of a mandatory rule is lost',
 'For a pattern consisting of a single mandatory rule, extraction reports every element of the document, at any depth, that satisfies the rule, each exactly once, siblings in document order. For a sequence of mandatory sibling rules, extraction reports, for each sibling list, the leftmost non-overlapping occurrences and nothing is skipped; results do not depend on unrelated parts of the document.',
 ['inputs','programs'],'all documents, all mandatory rule patterns',
 'A missed match in an unusual tree shape (match as last child, adjacent matches, deep only child) needs that shape.',
 [S+'RuleMatching.cpp'],[('SaveMatchingNodesRecursive',S+'RuleMatching.cpp'),('MatchRuleGroup',S+'RuleMatching.cpp')])
p('C11','Optional and greedy rules follow their documented semantics',
 'An optional rule never prevents a match: removing optional rules that match nothing leaves the results unchanged, and an optional rule captures only a node that lies before the node of the next mandatory rule. A greedy rule consumes every further matching sibling up to the next match of the mandatory rule that follows, and a mandatory greedy rule needs at least one match.',
 ['inputs','programs'],'all documents and all arrangements of mandatory, optional and greedy rules',
 'The matching loop has wrap-around and stop-rule cases whose combinations tests only sample.',
 [S+'RuleMatching.cpp'],[('MatchRuleGroup/MatchRange/FindMandatoryRule',S+'RuleMatching.cpp')])
p('C12','The search budget is a hard and exact limit',
 'With max_searches = 0 extraction is never cut short. With any other value extraction either returns exactly the result of the unlimited extraction or throws MaxSearchError without returning a partial result; there is a finite threshold, depending only on rule and document, below which every budget throws and above which every budget succeeds, and a budget is always honoured, including inside nested rules.',
 ['inputs','configurations'],'all budgets (64 bit), all documents and rules',
 'The threshold behaviour is a claim over every budget value for every document; tests try single budgets.',
 [S+'RuleMatching.cpp',S+'Rule.cpp',I+'MaxSearchError.h'],[('max_searches countdown',S+'RuleMatching.cpp')],
 state=[('max_searches','remaining searches, passed by reference through the recursion',S+'RuleMatching.cpp')])
p('C13','Extraction is a pure function of rule and document',
 'Extracting neither modifies the rule nor the document nor any other shared state, so repeating an extraction, running it after any other extraction, or running extractions of one rule and one document from several threads always gives the same result. The decision of a match or capture does not depend on calls made before.',
 ['inputs','histories','schedules'],'all sequences and interleavings of extractions on shared rules and documents',
 'Interleavings and call histories; tests extract once, single threaded.',
 [S+'Rule.cpp',S+'RuleMatching.cpp',I+'Rule.h'],[('const member functions without shared mutable state',S+'RuleMatching.cpp')])
p('C14','Rules, matches, captures and pipes are independent values',
 'A copy of a rule (by construction or assignment, over any previous value including itself) is deeply independent and extracts exactly what the original extracts; moving or swapping transfers that behaviour unchanged. The same holds for copies and assignments of every match, value test, capture and pipe, with or without an attached pipe, and destroying or changing one object never affects another.',
 ['inputs','histories'],'all rule trees, all sequences of copy, assign, move, swap and mutation',
 'Copy and assignment paths of most classes are not exercised at all by tests.',
 [S+'Rule.cpp',S+'AttributeCapture.cpp',S+'FunctionCapture.cpp',S+'AttributeMatch.cpp',S+'NegateMatch.cpp',S+'NegateTest.cpp',S+'StringPipe.cpp',S+'FunctionValueMatch.cpp',I+'Cloneable.h'],
 [('copy constructors / clone',S+'Rule.cpp')])
p('C15','Parsing any byte string yields a rule or a SyntaxError',
 'For every byte string, ParseHext terminates and either returns a Rule or throws SyntaxError; no other exception escapes, no assertion fails and no memory outside the given range is read. The two ParseHext overloads agree, and after an error the parser can be used again.',
 ['inputs'],'all byte strings (including NUL and non-ASCII bytes) and all their prefixes',
 'The parser is a state machine over untrusted text; tests supply a finite list of texts.',
 [S+'Parser.cpp',S+'ParseHext.cpp','libhext/ragel/hext-machine.rl','libhext/ragel/Parser.cpp.rl'],[('Parser::parse',S+'Parser.cpp'),('throw_unexpected','libhext/ragel/Parser.cpp.rl')])
p('C16','Traits and numbers in hext mean what they say',
 'The rule parsed from a trait matches exactly like the trait it spells: every number is read exactly (sign and all digits) or rejected with SyntaxError when it cannot be represented, an+b / n / even / odd forms give the step and shift written, and each trait name selects its own counting direction and type restriction. :not(...) negates exactly the listed traits.',
 ['inputs','programs'],'all trait spellings and all digit strings',
 'Every digit string and every trait form; tests use one or two digits.',
 [S+'Parser.cpp','libhext/ragel/hext-machine.rl'],[('nth_pattern / trait machines','libhext/ragel/hext-machine.rl')])
p('C17','Syntax errors point at the offending character',
 'A SyntaxError caused by an unexpected character names that character and the 1-based line and column of the first position at which the text cannot be continued to valid hext, echoes the input up to that position with line numbers (as far as the first NUL byte, where a message ends) and, if the text is plain ASCII, puts the marker under that column; a text that ends in the middle of a rule opening, literal or comment is reported as ended prematurely, with the same echo and marker. The text before the reported position is always a viable prefix.',
 ['inputs'],'all invalid texts, with any placement of newlines, tabs and non-ASCII bytes',
 'Line/column arithmetic and marker alignment over all positions; tests check a few messages.',
 [S+'StringUtil.cpp',S+'Parser.cpp','libhext/ragel/Parser.cpp.rl'],[('CharPosition, PrintNumberedLines, DecimalWidth',S+'StringUtil.cpp'),('print_error_location','libhext/ragel/Parser.cpp.rl')])
p('C18','Rule nesting is accepted exactly when tags and braces balance',
 'A text made of well-formed rule openings, self-closing rules, closing tags and { } nesting is accepted exactly when every opened rule is closed by the same tag name, in order, every brace group stands inside an open rule, holds at least one complete rule and is closed; the accepted rule tree has exactly the written structure of children, siblings and nested rules in written order. Everything else is a SyntaxError.',
 ['programs'],'all sequences of open, self-close, close, { and } tokens over tag names',
 'A language-membership claim over all token sequences; tests list some accepted and rejected ones.',
 [S+'Parser.cpp','libhext/ragel/Parser.cpp.rl'],[('push_rule/pop_rule/push_nested/pop_nested/validate_close_tag_or_throw','libhext/ragel/Parser.cpp.rl')],
 state=[('stacks_','result and work stack per nesting level','libhext/src/Parser.h')])
p('C19','JSON output represents the result exactly',
 'The JSON written for a result is valid and decodes to exactly that result: one object per group in order, each key mapped to its value, or to the array of its values in capture order when the key occurs more than once, with all bytes preserved by JSON escaping. The array and pretty options change only the envelope and whitespace; an empty result writes nothing.',
 ['inputs','configurations'],'all results (keys, values, multiplicities), all option combinations',
 'Escaping of every byte and key collision patterns; black-box tests compare a few documents.',
 ['htmlext/htmlext/Json.cpp','htmlext/htmlext/Json.h'],[('PrintJson',"htmlext/htmlext/Json.cpp")])
p('C20','The command line tool prints exactly the extraction results',
 'For every combination of options, htmlext prints for each rule and each document in the order given exactly the results of that extraction (as JSON, or with --filter exactly the values of that key, one per line), and exits 0; an invalid rule, missing input or exhausted search budget prints an error to standard error, nothing of a failed extraction to standard output, and exits non-zero. --lint only checks syntax.',
 ['inputs','configurations'],'all option combinations, rules and documents',
 'Option combinations are a product space; the black-box tests use a fixed option set.',
 ['htmlext/main.cpp','htmlext/htmlext/ProgramOptions.cpp','htmlext/htmlext/Json.cpp'],[('main','htmlext/main.cpp'),('ProgramOptions','htmlext/htmlext/ProgramOptions.cpp')])
p('C21','The Python binding converts results without loss, leak or crash',
 'The Python list returned by an extraction has one dict per group in order, mapping each name to its string value or, for repeated names, to the list of its values in capture order. Every failure of a Python API call is reported as a Python exception with all references released, never as a crash or a leaked or double-released object.',
 ['inputs','fault_sequences'],'all results, and failure of any Python API call',
 'Failing API calls (allocation failure, undecodable bytes) never happen in tests.',
 ['libhext/bindings/python/pyhext.i','libhext/bindings/wrapper/Rule.cpp'],[('typemap(out)','libhext/bindings/python/pyhext.i'),('ScopedPyObject','libhext/bindings/python/pyhext.i')])
p('C22','Matching and capturing is memory safe on every tree',
 'For every tree produced by the HTML parser and every rule, matching, capturing and extracting read only memory belonging to the tree, the rule and their own locals, perform no undefined integer arithmetic and release everything they allocate, also when the extraction ends with an exception. Starting the extraction at any node of the tree is safe.',
 ['inputs','programs'],'all trees (text-only, childless, comment, template and document nodes included), all start nodes and all rules',
 'Absence of out-of-bounds access and leaks is a claim over every tree shape; tests run without sanitizers on fixed documents.',
 [S+'RuleMatching.cpp',S+'NodeUtil.cpp',S+'Rule.cpp'],[('NextNode',S+'NodeUtil.cpp'),('RAII containers',S+'RuleMatching.cpp')])
p('C23','A parsed document is owned exactly once',
 'Whatever sequence of construction, move construction, move assignment (self included) and destruction is applied to Html objects, every parsed document is released exactly once with the options it was created with, and never while an Html still owns it; a moved-from Html has no root.',
 ['histories'],'all sequences of constructions, moves and destructions',
 'Ownership is a claim over operation histories; no test moves an Html.',
 [S+'Html.cpp',I+'Html.h'],[('Html::~Html, move operations',I+'Html.h')],state=[('g_outp_','owned parser output',I+'Html.h')])
p('C24','Regular expression features apply the expression to the right text',
 'An =~ test holds exactly when the expression is found anywhere in the attribute value or builtin text, type-matches exactly when it is found in the element tag name (of custom tags as well), filter yields the first parenthesised group of the first occurrence, or the whole occurrence without groups, and the empty string without occurrence, and replace substitutes every occurrence. The flag i makes exactly that expression case-insensitive.',
 ['inputs','programs'],'all subjects, and all expressions of the supported regex subset',
 'Tests use single subjects per expression; position, group selection and flag scope are quantified over all subjects.',
 [S+'RegexTest.cpp',S+'RegexPipe.cpp',S+'RegexReplacePipe.cpp',S+'TypeRegexMatch.cpp','libhext/ragel/hext-machine.rl'],[('RegexPipe::transform',S+'RegexPipe.cpp'),('regex machine','libhext/ragel/hext-machine.rl')])
p('C25','Patterns parse into exactly the test, capture and pipes written',
 'The rule parsed from an attribute or builtin pattern has exactly the written operator, literal text, negation, capture name, optionality and pipes: literals and names are taken verbatim whatever bytes they contain and whichever quote delimits them, a capture name? never makes the attribute mandatory while one without ? does, and any amount of whitespace between patterns means the same.',
 ['inputs','programs'],'all pattern forms, literals, names and whitespace',
 'Literal content and pattern combinations are unbounded; tests check selected spellings.',
 [S+'Parser.cpp',S+'PatternValues.cpp','libhext/ragel/hext-machine.rl'],[('pattern / capture / pipe machines','libhext/ragel/hext-machine.rl')])
p('C26','The meaning of a pattern does not depend on its neighbours',
 'The tests, flags, literals, pipes and captures of one pattern, trait or rule never influence another one: parsing a rule with several traits, patterns and sibling rules gives exactly the conjunction of what each of them gives alone, and separately parsed texts never influence each other.',
 ['programs','histories'],'all sequences of traits, patterns and rules',
 'Parser state that leaks from one element to the next only shows for particular sequences.',
 [S+'Parser.cpp',S+'PatternValues.cpp','libhext/ragel/hext-machine.rl'],[('PatternValues::reset',S+'PatternValues.cpp')],
 state=[('pv','scratch values shared by all patterns of one parse',S+'PatternValues.h')])
p('C27','The Ruby and PHP bindings convert results without loss',
 'The Ruby array of hashes and the PHP array of arrays returned by an extraction have one entry per group in order, mapping each name to its string value or, for repeated names, to the list of its values in capture order, every byte of every value preserved. Rules and documents are made of the whole text that is given, the budget is passed on unchanged, and a failed extraction or a syntax error is an exception of the language.',
 ['inputs'],'all results (names, values, multiplicities)',
 'Key collision patterns and embedded bytes are not sampled by the binding tests.',
 ['libhext/bindings/ruby/rbhext.i','libhext/bindings/php/phphext.i'],[('typemap(out)','libhext/bindings/ruby/rbhext.i'),('typemap(out)','libhext/bindings/php/phphext.i')])
p('C28','The Node binding converts arguments and results without loss',
 'The JavaScript array returned by an extraction has one object per group in order, mapping each name to its string value or, for repeated names, to the array of its values in capture order; rules and documents are made of the whole text that is given, a budget is passed on unchanged, and invalid arguments, syntax errors, failed extractions and failing Node-API calls are reported as JavaScript exceptions.',
 ['inputs'],'all results and argument values',
 'Key collision patterns and argument types are not exhausted by tests.',
 ['libhext/bindings/nodejs/src/Rule.cpp','libhext/bindings/nodejs/src/Html.cpp'],[('Rule::Extract','libhext/bindings/nodejs/src/Rule.cpp')])
p('C29','HTML input of any bytes becomes a searchable tree',
 'Constructing an Html from any byte buffer of the given size yields a tree whose parent, index and child links are consistent and whose text reflects the buffer, without reading outside the buffer.',
 ['inputs'],'all byte buffers',
 'Arbitrary malformed HTML; tests use a few documents.',
 [S+'Html.cpp'],[('gumbo_parse_with_options',S+'Html.cpp')])
open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
