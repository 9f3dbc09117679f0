#!/usr/bin/env python3
"""Single source of properties.jsonl (run after editing)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
I="include/wordring/"
p("C01","Fixed-capacity vector behaves as a sequence under every history",
 "After every sequence of modifying operations that stays within the capacity, a fixed-capacity vector holds exactly the elements, in exactly the order, that an ordinary sequence container would hold after the same operations, and every access, iteration in either direction, size query and comparison reports that sequence. An operation that would exceed the capacity or access out of range is the only one that may be refused.",
 ["histories"],"every sequence of insert, erase, resize, assign, push, pop, swap, copy and compare operations, at every position and count, on vectors of every size up to the capacity",
 "Tests sample one position and one size per operation; shifting errors appear only for particular combinations of size, position, count and preceding history.",
 [I+"static_vector/static_vector.hpp"],[("insert/erase element shifting","static_vector::insert, erase"),("iterator arithmetic and bounds","static_vector_iterator / const_static_vector_iterator")])
p("C02","Integer serialisation round-trips in big-endian order",
 "For every integer of every supported width, serialising a range of integers yields exactly the big-endian byte sequence of those integers, and deserialising that byte sequence yields the original integers. Neither direction reads or produces anything beyond the range it was given.",
 ["inputs"],"every integer value (all 8 and 16 bit values, all byte patterns over boundary bytes for 32 and 64 bit) and every sequence of them up to a bounded length, signed and unsigned",
 "Tests use one or two hand-picked values per width; sign, width and byte-position errors are visible only for particular byte patterns.",
 [I+"serialize/serialize.hpp",I+"serialize/serialize_iterator.hpp"],[("byte emission and reassembly","serialize_iterator, deserialize_iterator operator++/operator*")])
p("C03","Tree container equals an ordered forest under every edit history",
 "After every history of insertions, removals, subtree copies, subtree moves, clears, copies and swaps, the tree contains exactly the nodes, values, parent-child relations and sibling order that the same edits produce on an abstract ordered forest. Positions referring to surviving nodes keep referring to the same nodes, and a copied container shows the same content as its original.",
 ["histories"],"every sequence of edit operations, at every legal position, from the empty tree up to a bounded number of edits and nodes, including slot reuse after removal",
 "Link-list corruption depends on where in the sibling list each edit lands and on which freed slots are reused, i.e. on whole histories; tests exercise a few fixed shapes.",
 [I+"tree/tree.hpp"],[("sibling/parent link maintenance","basic_tree::link, unlink, insert, move, erase"),("slot allocation and reuse","basic_tree::allocate, free")])
p("C04","Tree walks visit every node exactly once in the promised order",
 "Starting from any node of any tree, depth-first and breadth-first walks visit every node of that node's subtree exactly once and nothing else, in document pre-order and in level order respectively. Stepping forward and backward among siblings, to the parent, to the first child and to the end position is mutually consistent, so that moving forward and then back returns to the same node.",
 ["inputs"],"every ordered forest shape up to a bounded number of nodes, every start node, both walks, every node position",
 "Tests walk one fixed tree from its root; ordering and termination errors depend on shape (last children, single-child chains, start node with following siblings).",
 [I+"tree/tree_iterator.hpp",I+"tree/tree.hpp",I+"tag_tree/tag_tree_iterator.hpp"],[("walk containers","basic_tree_iterator with stack/queue adaptors, operator++"),("sibling stepping","tree_node_iterator operator++/--, begin, end, parent")])
p("C05","Tag tree equals an ordered document under every edit history",
 "After every history of insertions, removals and moves, a tag tree contains exactly the nodes, parent-child relations and sibling order that the same edits produce on an abstract ordered tree. Its flattened views agree with that document: the serial view reports the start and end of every node in document order in either direction, and the character view reports exactly the concatenated text.",
 ["histories"],"every sequence of insert, erase and move operations at every legal position up to a bounded number of edits and nodes; every flattening of every reached tree",
 "Start/end tag linkage has different cases for first, middle, last and only children and for moves next to the moved node; tests use a handful of shapes.",
 [I+"tag_tree/tag_tree.hpp",I+"tag_tree/serial_iterator.hpp",I+"tag_tree/character_iterator.hpp",I+"tag_tree/tag_tree_iterator.hpp"],[("tag link maintenance","basic_tag_tree::link, unlink, insert, erase, move"),("flattened views","basic_serial_iterator, basic_character_iterator")])
p("C06","Tries hold exactly the strings inserted and not erased",
 "After every history of insertions, erasures, bulk assignments and clears, a trie contains exactly the keys that were inserted and not erased since: it finds each of them with the value last stored for it, denies every other string including proper prefixes and extensions, and reports the right number of keys. Operations on one key never disturb the membership or value of another.",
 ["histories"],"every sequence of insert, erase, value-store, assign and clear operations over small key universes with shared prefixes, for both trie variants and for 1, 2 and 4 byte labels",
 "The double-array relocates colliding nodes and recycles cells, so damage to unrelated keys depends on the exact history of collisions; tests only insert fixed lists.",
 [I+"trie/trie.hpp",I+"trie/trie_base.hpp",I+"trie/stable_trie_base.hpp",I+"trie/trie_heap.hpp"],[("cell relocation","trie_base / stable_trie_base add, relocate, locate"),("free-list","trie_heap allocate, free, reserve")])
p("C07","Trie iteration and lookup navigate the stored keys in order",
 "For every set of stored keys, iterating a trie yields each key exactly once in ascending order and nothing else, and descending from the root label by label reaches a position exactly for the prefixes of stored keys, at which the spelled string, the parent, the children and the is-a-stored-key test are right. Prefix lookup returns the longest stored path and lookup of an absent key returns the end position.",
 ["inputs","histories"],"every subset of small key universes with shared prefixes (and every insertion/erasure order producing them), both trie variants, 1, 2 and 4 byte labels",
 "Order and navigation depend on sibling links rebuilt by every insertion order; tests check a few key sets inserted in one order.",
 [I+"trie/trie_iterator.hpp",I+"trie/trie_base_iterator.hpp",I+"trie/stable_trie_base_iterator.hpp",I+"trie/list_trie_iterator.hpp",I+"trie/trie.hpp"],[("sibling order and descent","trie iterators begin, end, operator++, operator[], parent, string"),("prefix lookup","lookup, search, find")])
p("C08","A trie survives being written out and read back",
 "For every reachable trie content, writing the trie out as integers or as a byte stream and reading that back into any trie object yields a trie with the same keys, values and size, on which later insertions and erasures behave as on the original. Bulk construction from a key list yields the same content as inserting those keys one by one.",
 ["histories"],"every edit history over small key universes, saved at every point, restored into fresh and into non-empty tries, then edited further; every key list for bulk construction; both variants, 1, 2 and 4 byte labels",
 "Loss shows only for layouts with particular node counts, free cells or label widths, and in edits made after reloading; tests reload one fixed trie.",
 [I+"trie/trie_heap.hpp",I+"trie/trie.hpp",I+"trie/trie_heap_iterator.hpp"],[("save and restore","trie_heap assign, stream operators, ibegin/iend"),("bulk build","assign from sorted list")])
p("C09","Atoms map strings to identifiers and back without loss",
 "Within one atom set, for every set of strings, interning a string and looking up its identifier gives back the same string, two strings get the same identifier if and only if they are equal, and strings that were never interned are not reported as present. Atoms compare equal exactly when their strings are equal, and an identifier taken from an atom set keeps naming its string when other strings are looked up or interned and when the set is saved and restored.",
 ["histories"],"every history of interning and erasing over small string universes with shared prefixes, all pairs of strings, both narrow and wide strings",
 "Identifiers are positions inside a relocating trie, so aliasing depends on insertion order and collisions; tests intern a few unrelated words.",
 [I+"string/atom.hpp",I+"trie/stable_trie_base.hpp"],[("identifier allocation","basic_atom_set insert, at, find"),("constant atoms","constant_atom tables")])
p("C10","Incremental string matching reports the true matches",
 "Feeding characters one at a time, a string matcher reports, after each character, a match exactly when the characters fed so far spell the candidate, a partial match exactly when they are a proper prefix of some candidate, and a failure otherwise, and it gives back the characters fed and their number. Resetting and reusing a matcher never changes its answers.",
 ["inputs","histories"],"every pattern set over small alphabets up to a bounded length, every input string up to a longer bound, fed character by character, with reuse",
 "Tests feed one matching and one failing input; boundary errors need particular prefix relations among candidates and inputs.",
 [I+"string/matcher.hpp"],[("state advance","string_matcher push_back, clear")])
p("C11","Decoders implement the Encoding Standard for every byte sequence",
 "For every supported encoding and every byte sequence, decoding yields exactly the code points, the replacement characters and the fatal-mode error that the Encoding Standard prescribes, always terminating and never reading past the input. In particular ill-formed sequences consume exactly the prescribed bytes, so that well-formed text following an error is never swallowed.",
 ["inputs"],"every byte sequence up to three or four bytes over the structurally significant bytes of each encoding, every one- and two-byte sequence without restriction, every end-of-input position, all error modes, all encodings",
 "Each decoder is a state machine whose error recovery depends on exact byte combinations and on where input ends; tests decode a few valid samples per encoding.",
 [I+"whatwg/encoding/coder.hpp",I+"whatwg/encoding/encoding.hpp","lib/whatwg/encoding/indexes_code_point.cpp"],[("decoder handlers","decoder<...>::operator()"),("error handling","process_item, run")])
p("C12","Encoders implement the Encoding Standard for every code point",
 "For every encoding that can be produced and every sequence of Unicode scalar values, encoding yields exactly the bytes the Encoding Standard prescribes in every error mode, always terminating. Decoding what was encoded without error gives the original text back wherever the standard's tables are reversible.",
 ["inputs"],"every Unicode scalar value alone, and every sequence up to a bounded length over representatives of each encoder state and table, fatal and numeric-reference modes, all encodings",
 "Table and state-machine errors affect individual code points or particular mode-switch sequences; tests encode a few words.",
 [I+"whatwg/encoding/coder.hpp",I+"whatwg/encoding/encoding.hpp","lib/whatwg/encoding/indexes_pointer.cpp"],[("encoder handlers","encoder<...>::operator()"),("index lookups","index pointer tables")])
p("C13","Label lookup and byte-order-mark handling select the right encoding",
 "Every label of the Encoding Standard, in any letter case and with surrounding ASCII whitespace, resolves to its encoding and canonical name, and every other string resolves to nothing. Decoding with byte-order-mark handling uses the encoding that the leading bytes announce, strips exactly that mark, and otherwise leaves the text untouched.",
 ["inputs"],"every standard label with case and whitespace variations and single-edit neighbours of labels; every byte prefix up to four bytes over mark-like bytes followed by text, each fallback encoding",
 "The label table has over 200 entries and the mark logic several prefixes of marks; tests try a few.",
 [I+"whatwg/encoding/encoding.hpp","lib/whatwg/encoding/encoding.cpp",I+"whatwg/encoding/encoding_defs.hpp"],[("label table","get_encoding, get_name"),("mark handling","decode, bom_sniff, utf_8_decode")])
p("C14","Conversions between UTF-8, UTF-16 and UTF-32 are lossless",
 "For every sequence of Unicode scalar values, converting between the UTF-8, UTF-16 and UTF-32 forms in any direction yields exactly the standard encoding of the same sequence, and any chain of conversions returns the original. The code point classification predicates agree with their published ranges for every code point.",
 ["inputs"],"every Unicode scalar value alone, and every sequence up to a bounded length over boundary code points; every code point for the predicates",
 "Boundary and surrogate arithmetic errors affect specific ranges; tests convert one or two strings.",
 [I+"whatwg/infra/unicode.hpp",I+"whatwg/infra/infra.hpp"],[("code unit iterators","basic_encoding_iterator / to_string conversions"),("predicates","is_* functions")])
p("C15","String helpers of the Infra Standard hold for every string",
 "For every string, newline normalisation, newline stripping, whitespace stripping and collapsing, ASCII case conversion and comparison, isomorphic encoding and decoding, and splitting on a code point, whitespace or commas give the result the Infra Standard defines, always terminating.",
 ["inputs"],"every string up to a bounded length over an alphabet of CR, LF, tab, form feed, space, comma, upper and lower case letters, digits and non-ASCII code points",
 "Errors hide in leading/trailing/adjacent/all-whitespace combinations, which tests sample sparsely.",
 [I+"whatwg/infra/infra.hpp"],[("string algorithms","normalize_newlines, strip_*, split_*, collect_a_sequence_of_code_points")])
p("C16","URL parsing conforms to the URL Standard for every input string",
 "For every input string, with or without a base, URL parsing either fails or produces the scheme, user name, password, host, port, path, query and fragment that the URL Standard's parser prescribes, always terminating without reading outside the input. Relative references are resolved against the base exactly as prescribed.",
 ["inputs"],"every string up to a bounded length over the structurally significant characters, and every concatenation of URL fragments (schemes, slashes, drive letters, dot segments, credentials, ports, queries) up to a bounded count, against each base in a representative set",
 "The parser is a state machine with dozens of special cases triggered by short character combinations; tests hold a fixed list of URLs.",
 ["lib/whatwg/url/url.cpp",I+"whatwg/url/url.hpp"],[("basic URL parser","basic_url_parser::parse states"),("record","url_record")])
p("C17","Serialised URLs parse back to the same URL",
 "For every input that parses as a URL, serialising the result and parsing that again succeeds and yields an equal URL with an identical serialisation, and leaving out the fragment when serialising changes nothing but the fragment. URLs compare equal exactly when their serialisations are equal.",
 ["inputs"],"every URL reachable from bounded strings and fragment concatenations over the structurally significant characters, each base in a representative set",
 "Round-trip breakage depends on combinations of empty host, dot segments, drive letters, percent-escapes and opaque paths that fixed lists miss.",
 ["lib/whatwg/url/url.cpp",I+"whatwg/url/url.hpp",I+"whatwg/url/host.hpp","lib/whatwg/url/host.cpp"],[("serialiser","url_serializer / host serializer"),("equality","equals")])
p("C18","Host parsing accepts, rejects and normalises addresses correctly",
 "For every string, host parsing yields the IPv4 address, IPv6 address, domain or opaque host that the URL Standard prescribes, or a failure, and never a partially computed value. Serialising an address and parsing it again gives the same address, and the IPv6 text uses the compressed form the standard prescribes.",
 ["inputs"],"every string up to a bounded length over digits, x, hexadecimal digits, dots, colons, brackets, percent and forbidden code points; every combination of address pieces over boundary values; every zero/non-zero pattern of the eight IPv6 pieces",
 "Number syntax, overflow and compression have many boundary combinations, of which tests sample a few.",
 ["lib/whatwg/url/host.cpp",I+"whatwg/url/host.hpp"],[("IPv4/IPv6 parsers","parse_ipv4, parse_ipv4_number, parse_ipv6"),("serialisers","serialize_ipv4, serialize_ipv6")])
p("C19","Percent-encoding escapes exactly the prescribed bytes and is reversible",
 "For every byte and code point and every percent-encode set, encoding leaves a code point alone or replaces it by the percent-escapes of its UTF-8 bytes exactly as the URL Standard's set prescribes. Decoding turns every valid escape into its byte, leaves everything else untouched, and undoes encoding.",
 ["inputs"],"every byte; every code point for each set; every string up to a bounded length over percent sign, hexadecimal and non-hexadecimal characters and non-ASCII text",
 "Each set is a list of individual code points and decoding has boundary cases at the end of input; tests check a few characters.",
 [I+"whatwg/url/infra.hpp"],[("sets and codec","percent_encode, percent_decode, is_*_percent_encode_set")])
p("C20","URL object setters keep the URL valid and change only their own part",
 "For every URL and every assigned string, each property setter of the URL object gives the result the URL Standard's API prescribes: either the named component takes the prescribed value or the URL stays exactly as it was, and afterwards the object's properties, its serialisation and a fresh parse of that serialisation all agree.",
 ["histories","inputs"],"every setter applied with every value of a representative set (empty, delimiters, ports, drive letters, credentials, forbidden characters) to every URL of a representative set, and every sequence of two such assignments",
 "State-override paths of the parser are separate branches for each setter and scheme class, and errors need a particular previous URL.",
 [I+"whatwg/url/api.hpp","lib/whatwg/url/url.cpp"],[("setters","url class set_* / state override branches")])
p("C21","CSS tokenisation conforms to CSS Syntax for every input",
 "For every input text, CSS tokenisation terminates and yields exactly the token sequence, with types, values, numbers and units, that CSS Syntax Level 3 prescribes, including after malformed strings, URLs, escapes and at every possible end of input.",
 ["inputs"],"every string up to a bounded length over the structurally significant characters (quotes, backslash, hash, at, plus, minus, dot, digits, e, u-r-l, parentheses, slash, star, percent, angle, newline, letters, non-ASCII)",
 "Look-ahead of up to three code points makes behaviour depend on short exact combinations and on where the input ends.",
 [I+"wwwc/css_syntax/tokenization.hpp",I+"wwwc/css_syntax/token.hpp",I+"wwwc/css_syntax/input_stream.hpp","lib/wwwc/css_syntax/token.cpp"],[("token consumption","consume_token and helpers"),("input filtering","css input stream preprocessing")])
p("C22","CSS parsing builds the prescribed rules, declarations and blocks",
 "For every token sequence, each CSS parsing entry point terminates and returns the rules, declarations, component values, blocks and functions, with their nesting, importance and contents, that CSS Syntax Level 3 prescribes, recovering from errors exactly where it says and losing no following valid content.",
 ["inputs"],"every sequence up to a bounded length over a token alphabet of identifiers, functions, at-keywords, brackets of each kind, colon, semicolon, comma, whitespace, bang-important and delimiters, for every entry point",
 "Error recovery depends on bracket nesting and on which token follows; tests hold a few well-formed samples.",
 [I+"wwwc/css_syntax/parsing.hpp"],[("parser entry points","parse_* functions"),("consumers","consume_* functions")])
p("C23","Selector parsing accepts exactly the valid selectors",
 "For every text, selector parsing terminates, accepts it if and only if it is a valid selector list of the supported grammar with all of its namespace prefixes declared, and then represents exactly the written compounds, combinators and simple selectors. Nothing is silently ignored before, between or after the parsed selectors.",
 ["inputs"],"every sequence up to a bounded length over a token alphabet of type names, universal, class, id, attribute tests with each operator, namespace bars, combinators, commas, colons and white space",
 "Whitespace as combinator and optional pieces make many short combinations with distinct outcomes; tests list typical selectors.",
 ["lib/wwwc/selectors/grammar.cpp",I+"wwwc/selectors/grammar.hpp"],[("grammar consumers","consume_* selectors")])
p("C24","Selector queries return exactly the matching elements in document order",
 "For every document and every supported selector, a query from any node returns exactly those descendants that match the selector by its definition, each once, in document order, and the single-result query returns the first of them or an explicit nothing.",
 ["inputs"],"every tree shape up to a bounded number of elements with every assignment of names, ids, classes and attributes from small sets, crossed with every selector up to a bounded number of compounds and all combinators",
 "Backtracking over descendant and sibling combinators fails only for particular tree and selector combinations; tests use one document.",
 [I+"wwwc/selectors/grammar.hpp",I+"wwwc/selectors/api.hpp",I+"css/selector.hpp"],[("matching","*_selector::match, match_complex"),("query","query_selector, query_selector_all")])
p("C25","HTML tokenisation conforms to the HTML Standard for every input",
 "For every input text and every start mode (data, RCDATA, raw text, script, plain text), HTML tokenisation terminates and emits exactly the tokens the HTML Standard prescribes: tags with names, attributes and self-closing flag, comments, document types, characters with references resolved, and end of file.",
 ["inputs"],"every string up to a bounded length over the structurally significant characters and multi-character pieces (comment, CDATA, DOCTYPE and script openers), in each start mode; every named and boundary numeric character reference with each kind of following character",
 "Eighty states with end-of-input and error transitions in each; tests hold regular documents only.",
 [I+"whatwg/html/parsing/tokenization.hpp",I+"whatwg/html/parsing/token.hpp","lib/whatwg/html/parsing/atom_tbl.cpp"],[("tokenizer states","on_*_state functions"),("character references","match_named_character_reference, numeric reference end state")])
p("C26","HTML tree construction builds the prescribed document for every input",
 "For every sequence of tags, text and comments, however mis-nested, the HTML parser terminates and builds the document tree the HTML Standard prescribes, always with one html element holding a head and a body or frameset. In particular implied tags, foster parenting, active formatting reconstruction, adoption and foreign content end up in the prescribed places.",
 ["inputs"],"every sequence up to a bounded length over an alphabet of start and end tags from each category the standard distinguishes, text, white space, comments and document types",
 "The result depends on the stack of open elements and formatting list, i.e. on the whole history of tags; tests hold well-formed sample documents.",
 [I+"whatwg/html/parsing/tree_construction_dispatcher.hpp",I+"html/simple_parser.hpp"],[("insertion modes","on_*_insertion_mode functions"),("adoption agency, foster parenting","tree_construction_dispatcher helpers")])
p("C27","Serialised HTML is what the HTML Standard prescribes and parses back",
 "For every tree of nodes, whether parsed or built by hand, and for every node of it, serialising gives exactly the text of the HTML fragment serialisation algorithm, in every string type: exactly the characters the Standard names are escaped, raw text elements are left unescaped, void elements have neither content nor end tag, foreign and namespaced names are written as prescribed. Where the Standard's own parse of that text gives the same tree, the library's parse does too, and serialises again to the identical text.",
 ["inputs"],"every document over bounded sequences of tags (normal, void, raw text, escapable raw text, foreign), every hand-built tree of a bounded size, every text and attribute value up to a bounded length over the significant characters, every attribute namespace and prefix",
 "Escaping depends on the combination of character, position and parent element; tests compare a few documents.",
 [I+"whatwg/html/parsing/serializing.hpp",I+"whatwg/html/syntax/syntax.hpp",I+"html/simple_node.hpp",I+"html/simple_traits.hpp"],[("serialiser","to_string, escape_string, get_attributes_serialized_name, serializes_as_void")])
p("C28","A document does not depend on how its text is delivered",
 "For every HTML text, giving it to the parser as code points (whole or pushed one at a time), UTF-16 code units, UTF-8 or UTF-16 bytes, through any forward iterator, into a tree of any string type, with any mix of CR, LF and CRLF newlines, builds the same document; so does a parser that was used before and cleared. Bytes are decoded with the encoding the HTML Standard determines: a byte order mark first, then the supplied encoding, and while that is only tentative the first declaration in a meta element (charset, or http-equiv and content), malformed bytes becoming U+FFFD. No input makes the parser throw.",
 ["inputs","histories"],"every text up to a bounded length over newline, markup and multi-byte pieces in every form of delivery; every sequence of a bounded number of declaration forms, marks and supplied encodings; every encoding label; every pair of documents from a set through one parser",
 "Newline and code unit state, the restart on a declaration and the precedence of marks and labels depend on combinations of position, form and encoding that tests sample a handful of.",
 [I+"whatwg/html/parsing/input_stream.hpp",I+"whatwg/html/parsing/tree_construction_dispatcher.hpp",I+"whatwg/html/url.hpp",I+"html/simple_parser.hpp",I+"html/simple_html.hpp"],[("input stream","push_code_point, CR state"),("encoding","parse, change_encoding, extract_character_encoding_from_meta_element")])
p("C29","I/O queues deliver every item once, in order",
 "Under every history of reads, multi-item reads, peeks, pushes, prepends and end markers, an I/O queue behaves as the queue the Encoding Standard defines: items come out exactly once and in the order determined by the pushes and prepends, a peek consumes nothing, the end-of-queue marker stays last and is reported again on every later read, and a multi-item read or peek returns as many items as there are before the end. No history loses, repeats or reorders an item.",
 ["histories"],"every sequence of push, push of a sequence, prepend, read, read(n), peek(n) and end marker up to a bounded length, on byte queues and code point queues",
 "Each decoder pushes items back in its own pattern, so a queue error shows only for particular histories of prepends, peeks and ends; tests call each operation once.",
 [I+"whatwg/encoding/terminology.hpp"],[("queue operations","io_queue read, read(n), peek, push, prepend")])
os.chdir(os.path.dirname(os.path.abspath(__file__))+"/..")
with open("properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
for x in P:
    assert len(x["title"])<=80,x["id"]
    for fn in x["anchors"]["files"]: assert os.path.exists("/repo/"+fn),fn
print(len(P))
