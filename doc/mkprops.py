import json
HAND='crates/jsonpath_rfc9535/src/'
PEST='crates/jsonpath_rfc9535_pest/src/'
REC='crates/jsonpath_rfc9535_pest_recursive/src/'
SERDE='crates/jsonpath_rfc9535_serde/src/'
ITER='crates/jsonpath_rfc9535_iter/src/'
LOC='crates/jsonpath_rfc9535_locations/src/'
SING='crates/jsonpath_rfc9535_singular_selector/src/'
PARSERS=[HAND+'lexer.rs',HAND+'parser.rs']+[x+'parser.rs' for x in (PEST,REC,SERDE,ITER,LOC,SING)]
GRAM=[HAND+'lexer.rs']+[x+'jsonpath.pest' for x in (PEST,REC,SERDE,ITER,LOC,SING)]
P=[]
def p(id,title,statement,over,text,why,files,mech,obs,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)

p('C01','Every parser accepts exactly the RFC 9535 queries',
 "A query text is accepted by each of the seven parsers (the hand-written one, the two stand-alone grammar-based ones and those of the four evaluating crates) exactly when it is well-formed by the RFC 9535 grammar and its function calls are well-typed; every other text gives an error. The only differences are the documented ones: the crate with singular query selectors also accepts an absolute singular query as a selector and queries without a leading $. This includes blanks, quotes and escapes, number and integer forms, nested brackets and filters, and the end of the text.",
 ['inputs'],"every query text",
 "The compliance suite samples about 700 texts; the accepted language is infinite and each parser is a separate implementation (a state machine, five grammars), so an error shows only on particular combinations of adjacent tokens, nesting and position.",
 PARSERS+GRAM[1:],
 [('state machine lexer',HAND+'lexer.rs lex_*'),('recursive descent over tokens',HAND+'parser.rs'),('PEG grammars','*/src/jsonpath.pest'),('typing assertions','parser.rs assert_well_typed, assert_comparable, assert_compared')],
 ['Parser::parse','JSONPathParser::parse','Query::standard'])
p('C02','A parsed query has the syntax tree its text denotes',
 "For every accepted query each of the seven parsers returns the syntax tree that the text denotes: the same segments and selectors in order, the same names, indices and slice bounds, and filter expressions in which ! binds tighter than comparisons' results are combined, && binds tighter than ||, parentheses group, and operands, arguments and comparison operators stand where they were written. Number literals have the value written (to the precision of doubles), as an integer when they have no fraction and no negative exponent and are within the integers that doubles hold exactly, and string literals the text they denote.",
 ['inputs'],"every accepted query text",
 "Tests compare trees of a few dozen queries; precedence, grouping and literal conversion go wrong only on particular combinations of operators, operands and number forms.",
 PARSERS,[('precedence',HAND+'parser.rs parse_filter_expression; parse_logical_or_expression / parse_logical_and_expression in the grammar-based parsers'),('number conversion','parser.rs parse_number')],
 ['the tree returned by parse'])
p('C03','String literals and quoted names decode to exactly what they denote',
 "In every position in which a query can have a quoted string (names, literals in comparisons, arguments of functions) each of the seven parsers decodes every escape sequence, \\uXXXX in either case of its digits and every surrogate pair to the character it denotes, takes all other characters literally, and keeps their order. Lone or wrongly paired surrogates, unknown or incomplete escapes, unescaped control characters, the unescaped own quote and the escaped other quote are errors.",
 ['inputs'],"every sequence of characters between either kind of quotes, in every position that takes a string",
 "There are 65536 \\u escapes, 2^20 surrogate pairs and unbounded combinations of pieces; tests have a few dozen.",
 [HAND+'parser.rs',HAND+'lexer.rs',PEST+'parser.rs',REC+'parser.rs',SERDE+'unescape.rs',ITER+'unescape.rs',LOC+'unescape.rs',SING+'unescape.rs'],
 [('unescape and surrogate pairs','unescape.rs unescape, decode_hex_char; '+HAND+'parser.rs unescape_string')],['names and string literals in the tree','errors of parse'])
p('C04','Function calls are accepted exactly when they are well-typed',
 "With any functions registered (any number of parameters of value, logical or nodes type, and any result type), each parser accepts a call exactly when the function is registered, the number of arguments is right, every argument is of the declared parameter type (literals, singular queries and value calls for value; logical expressions, queries and logical or nodes calls for logical; queries and nodes calls for nodes) and the call stands where its result type is allowed: compared if and only if it gives a value. Comparisons take only literals, singular queries and value calls, and the operands of logical operators and negation are test expressions, comparisons or parenthesized expressions. A function that was registered again under a standard name is checked with its new declaration.",
 ['programs','configurations'],"every query with function calls, under every set of registered functions",
 "Tests use the five standard functions and some forty calls; the rules are a product of signatures, argument forms, nesting and contexts.",
 PARSERS,[('typing','parser.rs assert_well_typed, is_value_type, is_nodes_type, is_logical_argument, assert_compared, assert_comparable')],['JSONPathParser::parse with functions registered','Parser::parse with functions registered'])
p('C05','Displaying a query gives text that means the same query',
 "The displayed form of every accepted query is well-formed, denotes the same syntax tree when read as RFC 9535 (up to redundant grouping), is accepted by the parser that produced it, and displaying what it then parses gives the same text again. This holds for numbers within the exactly represented integers (up to 2^53) and finite floats, and for all names and strings.",
 ['inputs'],"every accepted query text",
 "Tests compare displayed text of some sixty queries; quoting, parentheses and number formats go wrong for particular characters, nestings and magnitudes.",
 [HAND+'query.rs',PEST+'ast.rs',REC+'ast.rs',SERDE+'ast.rs',ITER+'selector.rs',ITER+'filter.rs',LOC+'selector.rs',LOC+'filter.rs',SING+'selector.rs',SING+'filter.rs'],
 [('Display','fmt of Query, Segment, Selector, FilterExpression'),('quoting','quote')],['to_string of a parsed query'])
p('C06','Child segments select exactly the right nodes in order',
 "A child segment applied to a document gives, for every input node in order and every one of its selectors in order, exactly the values RFC 9535 defines: the member with that name in an object, the element with that index (counted from the end if negative) in an array, every child for a wildcard, and nothing for other kinds of values or missing children. Nodes selected more than once are given as often as they are selected. This holds for every evaluating engine (eager, stack-based, lazy, with locations, with singular query selectors).",
 ['inputs','programs'],"every sequence of child segments with names, indices, slices and wildcards, over every document",
 "Tests are single queries over small hand-picked documents; order and multiplicity depend on combinations of several selectors, segments and kinds of values.",
 [SERDE+'ast.rs',ITER+'iter.rs',ITER+'segment.rs',LOC+'segment.rs',LOC+'selector.rs',SING+'segment.rs',SING+'selector.rs'],
 [('selectors',"Selector::resolve, Selector::resolve_loop, SelectorIter::next"),('segments','Segment::resolve, SegmentIter')],['find, find_loop and the lazy iterator'])
p('C07','Index and slice selectors follow the RFC arithmetic for all integers',
 "For every array length and every index, and every start, end and step of a slice (present or absent, positive, negative or zero, up to the largest integers that can be written), each engine selects exactly the elements RFC 9535 defines, in the order it defines, without overflow, panic or work out of proportion to the array.",
 ['inputs'],"every array length, index, start, end and step",
 "Tests have about forty slices; signs, clamping and boundaries are a four-dimensional product with extremes at 2^53-1.",
 [SERDE+'ast.rs',ITER+'selector.rs',LOC+'selector.rs',SING+'selector.rs'],[('slice and norm_index','slice, norm_index')],['find, find_loop and the lazy iterator'])
p('C08','Descendant segments visit every node once, in document order',
 "A descendant segment applies its selectors to every input node and each of its descendants exactly once for each way the node was reached, a node before its descendants and the elements of an array in order (members in the order in which the object iterates them), and gives the results of each visited node in the order of the selectors. Several descendant segments, descendant segments after slices or filters and documents of any shape follow the same rule, in every engine.",
 ['inputs','programs'],"every query with descendant segments over every document",
 "Order and multiplicity depend on the shape of the document and on how segments are combined; tests use four or five shapes.",
 [SERDE+'ast.rs',ITER+'segment.rs',ITER+'iter.rs',LOC+'segment.rs',SING+'segment.rs'],[('visit','visit, descend, descendants, resolve_loop')],['find, find_loop and the lazy iterator'])
p('C09','Filters select exactly the children for which the expression is true',
 "A filter selector applied to an array or object gives, in order, exactly the children for which its logical expression is true by RFC 9535: a query is true if it selects at least one node (whatever its value), a logical function call if it returns true, &&, || and ! are the Boolean operations, @ is the child being tested and $ the root of the whole document even inside nested filters and arguments. This holds for filters nested in filters, in function arguments and after any segments, in every engine.",
 ['inputs','programs'],"every filter expression over every document",
 "Existence versus truth, nesting of @ and the root, and grouping differ only on particular combinations of expression and document.",
 [SERDE+'ast.rs',ITER+'filter.rs',ITER+'iter.rs',LOC+'filter.rs',SING+'filter.rs'],[('evaluation','FilterExpression::evaluate, is_truthy, logical')],['find, find_loop and the lazy iterator'])
p('C10','Comparisons follow RFC 9535 for every pair of values',
 "For every two comparands (literals, singular queries and functions that give values), the six operators give what RFC 9535 defines: equality by JSON value, deep for arrays and objects and independent of member order, numbers by mathematical value whether written as integers or floats and also inside containers, absence equal only to absence, < only between two numbers or two strings (by code points), never an error or panic. <=, >=, > and != follow from == and < in the defined way.",
 ['inputs'],"every pair of values or absences, every operator, every way to write the comparands",
 "There are 6 operators times all pairs of JSON kinds, number representations and absence, times the ways to obtain them; tests sample some 120.",
 [SERDE+'ast.rs',ITER+'filter.rs',LOC+'filter.rs',SING+'filter.rs'],[('compare, eq, lt','compare, eq, eq_values, lt, from_json_value, nodes_or_singular')],['nodes selected by a filter with the comparison'])
p('C11','Reported locations identify exactly the nodes they are reported for',
 "For every node of a result, the reported location, followed from the root of the document, leads to exactly that node and to the value reported (the same value in memory, not a copy of an equal one). Its textual form is the RFC 9535 normalized path of the node, is unique to that node, is accepted as a query by all parsers, and as a query selects exactly that one node, whatever characters the names have.",
 ['inputs'],"every query, document and member name",
 "Escaping of names and index bookkeeping depend on characters and on selector combinations (negative indices, slices with steps, descendants, filters) that tests sample sparsely.",
 [SERDE+'ast.rs',ITER+'node.rs',LOC+'node.rs',LOC+'selector.rs',LOC+'segment.rs',LOC+'conslist.rs',SING+'node.rs',SING+'conslist.rs'],[('locations','new_child_member, new_child_element, new_array_element, new_object_member, path, quote')],['Node::location','Node::path'])
p('C12','All engines and entry points give the same nodes for the same query',
 "For every query and document, all engines and entry points (recursive, stack-based, lazy, with locations, with singular selectors; through the free functions, an environment, or a query parsed beforehand) give the same nodes in the same order, and fail for the same queries (except where one crate documents additional syntax). The lazy iterator gives the same sequence however its items are taken: one by one, in part, skipping, interleaved with other iterators, and it stays exhausted at the end.",
 ['inputs','histories'],"every query, document and entry point, and every way of consuming the lazy results",
 "The crates are tested one by one against the same small suite; nothing compares them with each other, nor consumes results in part.",
 [SERDE+'ast.rs',SERDE+'env.rs',SERDE+'jsonpath.rs',ITER+'iter.rs',ITER+'env.rs',ITER+'jsonpath.rs',ITER+'query.rs',LOC+'query.rs',LOC+'env.rs',SING+'query.rs',SING+'env.rs'],[('entry points','find, find_loop, Environment::find, Query::find, QueryIter::new')],['nodes and locations'])
p('C13','length, count and value return what RFC 9535 defines for every argument',
 "length gives the number of characters (Unicode scalar values) of a string, elements of an array or members of an object and nothing for any other value or absence; count gives the number of nodes, with repetitions; value gives the value of the only node and nothing for none or several. This holds for every argument, literal, query or nested call, in every engine.",
 ['inputs'],"every argument value, node list and nesting of calls",
 "Tests apply each function to a handful of values.",
 [SERDE+'standard_functions.rs',ITER+'standard_functions.rs',LOC+'standard_functions.rs',SING+'standard_functions.rs'],[('functions','Length, Count, Value'),('argument conversion','unpack_result')],['nodes selected by a filter with the call'])
p('C14','match and search decide I-Regexp patterns correctly',
 "For every pair of strings, match is true exactly when the whole first string, and search exactly when some substring of it, is in the language of the second read as an I-Regexp (RFC 9485), with . matching every character except line feed and carriage return. Both are false if either argument is not a string or the pattern is not a valid regular expression, whether the pattern is a literal or comes from the document.",
 ['inputs'],"every pattern and every subject string",
 "Tests have about sixty pairs; alternatives, classes, escapes, quantifiers, dots and anchors combine freely.",
 [SERDE+'standard_functions.rs',ITER+'standard_functions.rs',LOC+'standard_functions.rs',SING+'standard_functions.rs'],[('pattern translation','map_regex, full_match')],['nodes selected by a filter with the call'])
p('C15','Results do not depend on what was evaluated before',
 "A query evaluated on a document gives the same result whatever queries, patterns, documents, errors and abandoned lazy results came before in the same environment, with the same parser or with the same parsed query, including after more patterns than any cache holds. Evaluating leaves the document and the parsed query as they were.",
 ['histories'],"every sequence of parses and evaluations that share an environment, parser or query",
 "Every test starts from a fresh environment or uses it once; the caches of compiled patterns make state that only sequences can expose.",
 [SERDE+'standard_functions.rs',ITER+'standard_functions.rs',LOC+'standard_functions.rs',SING+'standard_functions.rs',SERDE+'env.rs',ITER+'env.rs'],[('pattern caches','Match, Search: LruCache keyed by pattern'),('global environment','jsonpath.rs lazy_static')],['results of later operations'],
 [('pattern cache','compiled regular expressions by pattern',SERDE+'standard_functions.rs')])
p('C16','Threads sharing environments, parsers or queries do not affect each other',
 "When several threads evaluate queries at the same time in one environment, in the global environment, with one parsed query or one parser, every one of them gets exactly the results it would get alone, under every interleaving, including when they use the same or different patterns, calls within arguments of calls, and full caches. No interleaving leads to a panic, a deadlock, or an endless wait.",
 ['schedules'],"every interleaving of every set of threads",
 "No test uses two threads, and the order in which threads run cannot be chosen by a test.",
 [SERDE+'standard_functions.rs',ITER+'standard_functions.rs',LOC+'standard_functions.rs',SING+'standard_functions.rs',SERDE+'env.rs',ITER+'env.rs',LOC+'env.rs',SING+'env.rs'],[('mutexes around pattern caches','Match::call, Search::call'),('Send + Sync functions','function.rs FunctionExtension')],['results of each thread'],
 [('pattern cache','shared by all threads of an environment',SERDE+'standard_functions.rs')])
p('C17','Parsing any text ends with a query or an error, in proportionate time',
 "For every text, well-formed or not, in any script and with any characters, each of the seven parsers returns a query or an error: it never panics, overflows, loops for ever, or exhausts stack or memory (up to a nesting of several hundred levels), and the time it takes does not grow exponentially with the length or nesting of the text. Displaying the query or the error does not panic either.",
 ['inputs'],"every text",
 "The inputs that crash or stall a parser are malformed in specific places or nested; tests only have some 400 invalid texts.",
 PARSERS+GRAM[1:],[('lexer states',HAND+'lexer.rs'),('unreachable!/unwrap sites','parser.rs of every crate')],['termination of parse','Display of queries and errors'])
p('C18','Evaluating any query on any document ends without a failure',
 "For every accepted query and every JSON document (any numbers, names, kinds and shapes, as deeply nested as the JSON parser admits) evaluation ends with a node list in every engine: no panic, overflow, endless loop or stack exhaustion, and the time it takes is in proportion to the nodes visited and selected.",
 ['inputs'],"every accepted query and document",
 "Failures need particular pairs of query and document, such as extreme numbers, empty containers or nesting.",
 [SERDE+'ast.rs',ITER+'iter.rs',ITER+'filter.rs',LOC+'filter.rs',LOC+'selector.rs',LOC+'segment.rs',SING+'selector.rs'],[('unwrap and unreachable sites','from_json_value, evaluate, slice, call'),('lazy iteration','SegmentIter, SelectorIter')],['termination of find'])
p('C19','Source positions reported by the hand-written parser are exact',
 "For every accepted query, the position ranges attached to the parts of its syntax tree by the hand-written parser are within the text, on character boundaries, and delimit the text of that part; ranges of sibling parts do not overlap and are in the order of the text. For every rejected text, the range attached to the error is within the text and on character boundaries, so that the offending text can be extracted. The tokens of its lexer are in the order of the text, do not overlap, and each delimits exactly its own text (for quoted strings, what is between the quotes) with only blanks and punctuation in between; the last one is the end of the query at the end of the text, or the error that the lexer reports.",
 ['inputs'],"every text",
 "Positions are checked in a few lexer tests with ASCII text; they go wrong with multi-byte characters, blanks, escapes and nesting.",
 [HAND+'lexer.rs',HAND+'parser.rs',HAND+'token.rs',HAND+'query.rs',HAND+'errors.rs'],[('token spans',HAND+'lexer.rs emit, ignore, accept'),('spans of nodes',HAND+'parser.rs')],['span of segments, selectors, filter expressions and errors'])
p('C20','Singular query selectors and implicit roots behave as documented',
 "In the crate with singular query selectors, an absolute singular query used as a selector is evaluated on the root of the document and, if it gives a string, selects the member of that name of an object, if it gives an integer, the element at that index (counted from the end if negative) of an array, and otherwise nothing. A query without a leading $ means the same as with it, and all queries that do without these additions mean the same as in the other crates.",
 ['inputs','programs'],"every query with singular query selectors or without a root identifier, over every document",
 "A few examples are tested; the kinds of values a selector can give times the kinds of values it is applied to, in all positions, are not.",
 [SING+'selector.rs',SING+'parser.rs',SING+'jsonpath.pest',SING+'segment.rs',SING+'query.rs'],[('singular query selector',SING+'selector.rs Selector::resolve'),('implicit root',SING+'parser.rs parse')],['find'])
p('C21','Indices and slice bounds are limited to exactly the interoperable integers',
 "Each parser accepts an integer as index, start, end or step exactly when it is between -(2^53-1) and 2^53-1 and is written without leading zeros, plus sign, fraction, exponent or negative zero, wherever the selector stands (top level, nested queries, function arguments). An accepted integer is taken over with its exact value. In a parser for which another range has been configured, exactly the integers of that range are accepted.",
 ['inputs'],"every integer text in every position of an index or slice",
 "Tests have six integers; the bounds hold separately for four positions in seven parsers.",
 PARSERS,[('range check','parser.rs parse_i_json_int'),('configured range','index_range of the parsers')],['parse'])
p('C22','Errors are classified by their cause',
 "A text that is rejected for one cause only gets the error kind of that cause from each parser: a name error for an unknown function; a type error for a well-formed query whose only fault is a wrong number or type of function arguments, a function result that is used wrongly, or a comparison of something that cannot be compared; a syntax error otherwise. Number ranges of indices and slices count as syntax.",
 ['inputs'],"every rejected text with a single cause",
 "The tests of rejected queries check only that there is an error.",
 [HAND+'errors.rs']+[x+'errors.rs' for x in (PEST,REC,SERDE,ITER,LOC,SING)]+PARSERS,[('error kinds','JSONPathError::syntax, typ, name; JSONPathErrorType')],['kind of the error returned by parse'])
p('C23','Registered functions get converted arguments and their results are used',
 "A function registered in an environment is called for each child tested, with as many arguments as it declares, in order, each converted to its declared parameter type: the value or nothing, a truth value, or the nodes selected in order with their values. What it returns is used according to its declared result type in comparisons, tests, negations, logical expressions and as argument of other calls, also when it replaces a standard function. Each environment uses its own functions.",
 ['programs','configurations'],"every declared signature, call and context, over every document",
 "The tests use only the standard functions, whose declared types cover few combinations.",
 [SERDE+'ast.rs',SERDE+'function.rs',SERDE+'env.rs',ITER+'filter.rs',ITER+'env.rs',LOC+'filter.rs',LOC+'env.rs',SING+'filter.rs',SING+'env.rs'],[('argument conversion','unpack_result, evaluate Function'),('registration','Environment::function_register, JSONPathParser::functions')],['arguments seen by the function','nodes selected'])
p('C24','Location lists behave as immutable sequences that share structure safely',
 "The persistent list used for locations behaves as an immutable sequence under every history of its operations (appending, head, tail, dropping several, last, last several, length, iteration in both partial and full form, comparison, ordering, hashing, cloning, formatting, collecting, dropping): each operation gives what the same operation on a plain sequence gives, and no operation on one list, nor dropping it, changes any other list that shares structure with it. Lists of any length can be built and dropped.",
 ['histories'],"every history of operations on lists that share structure",
 "The tests run ten short fixed histories; sharing shows errors only in branching histories with drops in between.",
 [LOC+'conslist.rs',SING+'conslist.rs'],[('reference-counted cells','ConsList, Drop'),('operations','append, head, tail, tailn, last, lastn, iter, Hash, Ord')],['values of all lists after each operation'])
p('C25','Queries are classified correctly as singular and as empty',
 "For every accepted query, and every query nested in it, a parser says that it is singular exactly when it has only child segments with exactly one name or index selector each (any number of them, including none), and that it is empty exactly when it has no segments at all. A singular query never selects more than one node.",
 ['inputs'],"every accepted query and every nested query",
 "Only two or three classifications are tested, although comparisons and function arguments depend on them.",
 [HAND+'query.rs',PEST+'ast.rs',REC+'ast.rs',SERDE+'ast.rs',ITER+'query.rs',LOC+'query.rs',SING+'query.rs'],[('is_singular, is_empty','Query::is_singular, Query::is_empty')],['Query::is_singular','Query::is_empty'])
p('C26','Every way to parse a text gives the same query or the same error',
 "The ways in which a crate lets its user parse a text agree: the function for standard queries, a newly made parser, the default parser, a parser that has parsed other texts before, and, in the crate with a separate lexer, lexing the text and then parsing the tokens. For every text all of them give the same syntax tree, which is displayed as the same text, or an error of the same kind with the same message and position; and a parser gives the same for a text every time it is asked.",
 ['inputs','histories'],"every text, every way of parsing it, and every text parsed before",
 "Each test uses one way to parse, and a new parser; the ways differ in how the parser is set up (functions, ranges, state of the lexer), which shows only for texts that depend on it.",
 PARSERS+[HAND+'query.rs']+[x+'ast.rs' for x in (PEST,REC,SERDE)],
 [('entry points','Query::standard, Parser::new, JSONPathParser::new, Default, lexer::lex, lexer::tokenize, parse_tokens, JSONPathParser::parse')],
 ['tree, displayed text or error of each'])
p('C27','Queries built from syntax-tree types, and parts used alone, mean what they say',
 "The syntax trees are public types and a user may assemble a query from them without a parser: with or without end markers, with operators of the same kind nested to the left or to the right, with whole numbers given as floats, with or without explicit slice steps. Such a query is classified, displayed, read back and evaluated exactly as the text it stands for. The same holds for the parts that can be used alone: a filter expression evaluated with any root and any current node, the truth of its result, is_literal, the functions behind comparisons, logical operators and function arguments, the functions for slices and indices for all 64-bit integers, nodes and locations put together step by step, and the walks through a document; and the parser of tokens gives a query or an error for every sequence of tokens, whether or not the lexer could have given it.",
 ['inputs'],"every query assembled from the types, every document, every pair of root and current node",
 "Tests obtain every tree from a parser, which always builds it in the same way; a tree of another shape with the same meaning is never evaluated or displayed.",
 [PEST+'ast.rs',REC+'ast.rs',SERDE+'ast.rs',HAND+'query.rs',ITER+'query.rs',ITER+'selector.rs',ITER+'segment.rs',ITER+'filter.rs',LOC+'filter.rs',SING+'filter.rs'],
 [('syntax-tree types','Query::new, Segment, Selector, FilterExpression'),('parts','FilterExpression::evaluate, is_truthy, is_literal, compare, logical, unpack_result, slice, norm_index, Node::new_array_element, Node::path, visit_iter, descendants, Parser::parse_tokens')],
 ['displayed text','nodes found','truth of an expression'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P),[ (x['id'],len(x['title'])) for x in P if len(x['title'])>80])
