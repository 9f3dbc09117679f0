# every .cpp below these directories of /repo/lib
LIBS = { "html": "whatwg/html", "url": "whatwg/url", "encoding": "whatwg/encoding", "css": "wwwc/css_syntax", "selectors": "wwwc/selectors" }
ICU = ["-licuuc", "-licui18n", "-licudata"]
SPECS = {}
SPECS["C01"] = dict(src=["c01_static_vector.cpp"],
    bounds=["capacities 1-4, 8, 17; all histories of depth 3 from empty (capacity 1-3), every operation (pair for capacity 3, 4) from every size with stale slots; capacities 33 and 130 from representative sizes",
            "capacities 1-4, 8, 17; all histories of depth 4/4/3 from empty (capacity 1/2/3), every operation pair from every size with stale slots (capacity 3, 4, 8)"],
    assumptions=["element type with visible moved-from state stands for all element types"])
SPECS["C03"] = dict(src=["c03_tree.cpp"],
    bounds=["all edit histories of depth <=3 from empty (with foreign subtree copies) and of depth 5 on <=4 nodes; every operation on every forest shape of <=6 nodes and every operation pair on every shape of <=4 nodes, each shape built three ways (with and without recycled slots); trees of up to 300 nodes grown, edited and emptied",
            "all edit histories of depth <=4 from empty (with foreign subtree copies) and of depth 6 on <=4 nodes; every operation on every forest shape of <=7 nodes and every operation pair on every shape of <=5 nodes, each built three ways"],
    assumptions=["moving a node before itself may be refused or ignored; both leave the tree unchanged"])
SPECS["C05"] = dict(src=["c05_tag_tree.cpp"], libs=["html", "encoding"],
    bounds=["all edit histories of depth <=4 from empty and of depth 5 on <=4 nodes; every operation on every document shape of <=5 nodes with every kind of leaf, every operation pair on shapes of <=4 nodes, with fresh and recycled slots; all flattened views of every reached document from every node; documents of up to 257 nodes",
            "all edit histories of depth <=4 from empty and of depth 6 on <=4 nodes; every operation on every shape of <=6 nodes, every operation pair on shapes of <=5 nodes; all flattened views of every reached document"],
    assumptions=["moving a node into its own subtree is outside the contract of the tag tree (it has no check for it)"])
SPECS["C04"] = dict(src=["c04_walks.cpp"], libs=["html", "encoding"],
    bounds=["every ordered forest of <=9 nodes (tree) and <=8 nodes (tag tree), built front to back and back to front; every start node; chains, rows, combs, binary and other shapes of up to 70 (wide, chain: 129) nodes",
            "every ordered forest of <=11 nodes (tree) and <=10 nodes (tag tree), built both ways; every start node"])
SPECS["C06"] = dict(src=["c06_trie.cpp"],
    bounds=["6 key universes of 6 keys with shared prefixes x label families (ASCII, 0x00/0xFF, byte-boundary 16/32/64 bit labels); all histories of <=4 operations (19 kinds) and <=6 insert/erase operations (char labels), <=3/5 for wide labels; every insertion order of 6 keys then 6 erasure orders, checked after each step; full 256-label fan-outs in 7 strides; key sets of 10-400 keys (wide labels 10-129) of 7 shapes, keys of up to 400 labels",
            "histories of <=5 operations and <=7 insert/erase operations; every insertion order x every erasure order of 6 keys; all fan-out start labels"],
    assumptions=["the empty string is never a key (documented behaviour of insert)"])
SPECS["C07"] = dict(src=["c07_trie_nav.cpp"],
    bounds=["as C06: all histories of <=4 operations and <=5 insert/erase operations (char), <=3 (wide labels), every insertion order of 6 keys then 2 erasure orders; in each reached trie every position, child order, parent, spelled string, descent by present and absent labels, lookup/search/find of every probe, whole walk; key sets of 10-64 keys of those shapes",
            "histories of <=5 operations and <=6 insert/erase, every insertion order x 144 erasure orders"])
SPECS["C08"] = dict(src=["c08_trie_io.cpp"],
    bounds=["10 ways of saving/restoring (32/16/8 bit integers, iterators, streams with following data, copy, move) x 3 kinds of target x all histories of <=3 operations (char; <=2 wide); every edit pair after restoring; bulk construction from every list of <=4 keys (with duplicates, empty key) and every order of 6 keys, two container kinds; key sets of 10-100 keys of those shapes through 5 ways",
            "histories of <=4 operations; every edit triple after restoring; lists of <=6 keys"])
SPECS["C02"] = dict(src=["c02_serialize.cpp"], bounds=["all 8 and 16 bit values, all 32 bit patterns over 10 boundary bytes, all 64 bit patterns over 4 boundary bytes, every byte value at every position; all sequences of <=4 boundary values; signed, unsigned and character types; sequences of up to 300 values",
    "as quick, 64 bit patterns over 6 boundary bytes, sequences of <=5 values"])
SPECS["C10"] = dict(src=["c10_matcher.cpp"], bounds=["every ordered list of <=3 candidates from 12 words over two letters (incl. empty and duplicate), every input of <=5 characters, one reuse after every input for lists of <=2; narrow, 16 and 32 bit characters; candidates of up to 300 characters",
    "lists of <=4 candidates, reuse for lists of <=3"])
SPECS["C09"] = dict(src=["c09_atoms.cpp"],
    bounds=["4 string universes of 6 strings; all histories of <=3 operations (19 kinds) and <=5 intern/erase operations; every interning order of 6 strings then 3 erasure orders; all pairs of strings, every number as identifier; 8, 16 and 32 bit characters; identifier kept over every single later interning; 10-1000 atoms of up to 300 characters",
            "histories of <=4 operations and <=6 intern/erase operations"],
    assumptions=["identifiers under later interning are explored for single later strings; the pairs for which the current design cannot keep them are listed as known findings"])
SPECS["C11"] = dict(src=["c11_decoders.cpp"], libs=["encoding"],
    bounds=["all 40 encodings; every sequence of <=2 bytes (alone and followed by 3 continuations), every 3 byte UTF-8/JIS X 0212 and 4 byte UTF-8/gb18030 sequence, every byte pair in every ISO-2022-JP shift state, every UTF-16 unit before/after surrogates, every sequence of <=4-6 significant bytes; replacement and fatal mode; every cut of every sequence of <=4 significant bytes into deliveries, through process_queue and text_decoder (reused); every sequence of <=4 segments (whole, cut short or spoiled characters of every class); texts of up to 513 units, in one delivery and in slices",
            "significant byte sequences one byte longer, cuts of <=5 bytes"],
    trust=["data/encoding_index.bin generated from encoding_rs 0.8.35"])
SPECS["C12"] = dict(src=["c12_encoders.cpp"], libs=["encoding"],
    bounds=["37 encoders; every scalar value of planes 0-2 (all planes for UTF-8 and gb18030, plane edges elsewhere), every sequence of <=3 (ISO-2022-JP: <=5) representatives of table and state classes; fatal and numeric-reference modes, whole and in two deliveries; decoded back; texts of up to 257 characters",
            "every scalar value; sequences one longer"],
    trust=["data/encoding_index.bin generated from encoding_rs 0.8.35"])
SPECS["C13"] = dict(src=["c13_labels.cpp"], libs=["encoding"],
    bounds=["all 219 labels x (case, one and two surrounding characters of 10 kinds, every deletion, truncation, substitution by every printable character and look-alikes, insertion, transposition); every string of <=5 characters over 11 label characters; every byte string of <=4 (5 for 3 encodings) mark-like bytes x 40 fallback encodings, whole, ended and not, delivered in two parts; labels and marked texts of up to 300 characters",
            "strings of <=6 label characters, <=5 mark-like bytes for all encodings"],
    assumptions=["nine labels added to the standard after the edition implemented here are left open"],
    trust=["data/labels.tsv from encoding_rs 0.8.35"])
SPECS["C29"] = dict(src=["c29_io_queue.cpp"], libs=["encoding"],
    bounds=["every history of <=5 operations (13 kinds) on byte queues, <=4 on code point queues; queues of up to 771 items filled and drained in every way", "histories of <=6 / <=5 operations"])
SPECS["C14"] = dict(src=["c14_utf.cpp"],
    bounds=["every code point U+0000..U+10FFFF (conversions for the scalar values, alone and between neighbours; predicates for all); every string of <=4 over 15 boundary code points, 16 source/target type pairs x 5 call forms; strings of up to 300 characters", "strings of <=5"],
    assumptions=["input is well formed, as the functions' documentation requires"])
SPECS["C15"] = dict(src=["c15_infra.cpp"],
    bounds=["every string of <=5 over 11 code points (newlines, blanks, comma, letters, digit, 2- and 4-byte characters) in char, char8_t, char16_t, char32_t; every scalar value; every pair of strings of <=3 over 6 letters for matching; every byte string of <=2; strings of up to 300 characters", "strings of <=6, pairs of <=4"],
    assumptions=["input is well formed, as the functions' documentation requires"])
SPECS["C16"] = dict(src=["c16_url_parse.cpp"], libs=["url", "encoding"], link=ICU,
    bounds=["every string of <=6 over 11 URL characters, also after http:// and a:/; every reference of <=5 over 8 characters against 13 bases; every file: reference of <=5 against 5 bases; every sequence of <=4 of 22 tokens (<=3 against 3 bases); every code point <U+0180 in 18 x 6 contexts; 14 schemes x 36 remainders x 6 bases; components, dot segments, ports and drive letters of up to 300 characters", "one character/token more"],
    assumptions=["the edition of the standard the library states (late 2020)", "internationalised domain labels outside a small repertoire are not explored (ICU decides them)"],
    trust=["harness/url_model.hpp, cross-validated with Node 22's URL on 1.3 M inputs (tools/url_xval)"])
SPECS["C17"] = dict(src=["c17_url_roundtrip.cpp"], libs=["url", "encoding"], link=ICU,
    bounds=["the input spaces of C16 (one character shorter) and IPv4/IPv6 host spellings: <=6 characters over 5-6 host characters, <=9 over {0,1,:}; components of up to 300 characters", "one character/token more"])
SPECS["C18"] = dict(src=["c18_host.cpp"], libs=["url", "encoding"], link=ICU,
    bounds=["IPv4: every string of <=6 over {0,x,1,8,.,f}, <=9 over {2,7,.}, every combination of <=4 parts from 17 spellings; IPv6: every string of <=7 over {0,1,f,:,.}, sequences of <=6 of 7 tokens, <=8 of 4 tokens; every address with 8 pieces from 3 and from 4 values; opaque hosts of <=2 over 132 characters; addresses with up to 300 digits or parts", "one character/token more"],
    trust=["harness/url_model.hpp, cross-validated with Node 22's URL on 1.3 M inputs (tools/url_xval)"])
SPECS["C19"] = dict(src=["c19_percent.cpp"], libs=["url", "encoding"], link=ICU,
    bounds=["8 percent-encode sets x every code point below U+3000 and 25 further blocks; every string of <=6 over 8 units for decoding, every %XY of ASCII; every byte string of <=2; percent-encoding after 12 encodings of every string of <=3 over 10 characters x 8 sets x both space modes; queries of <=3 in 6 document encodings x 7 URL kinds; strings of up to 300 characters", "all code points, strings one longer"],
    trust=["harness/enc_model.hpp (cross-validated with encoding_rs), harness/url_model.hpp (cross-validated with Node)"])
SPECS["C20"] = dict(src=["c20_url_setters.cpp"], libs=["url", "encoding"], link=ICU,
    bounds=["13 start URLs: every history of <=2 (<=3 from 3 of them) of 77 setter calls; every value of <=3-4 over 7-13 units for each setter; href with every sequence of <=3 of 10 tokens; values of up to 300 characters", "histories of <=3 from all, values one longer"],
    assumptions=["the edition of the standard the library states (late 2020)"],
    trust=["harness/url_model.hpp, cross-validated with Node 22's URL"])
SPECS["C21"] = dict(src=["c21_css_tokens.cpp"], libs=["css", "encoding"],
    bounds=["every string of <=4 over 27 significant characters; number spellings of <=6 over 9 and <=8 over 5 characters and 16k composed numbers; identifiers/escapes of <=6 over 9; url( tails of <=5 over 10 after 4 openers; strings of <=6 over 8; comments of <=8 over 5; escapes of <=8 hex digits in 6 contexts; every code point <U+0180 and 10 others in 18 x 5 contexts; @charset prologues and BOMs; tokens of up to 300 characters of every kind", "one character more"],
    assumptions=["the edition the library links to (early 2021 editor's draft): identifiers may contain every non-ASCII code point"],
    trust=["harness/css_model.hpp (an independent CSS Syntax tokenizer)"])
SPECS["C22"] = dict(src=["c22_css_parse.cpp"], libs=["css", "encoding"],
    bounds=["every sequence of <=4 of 18 tokens, of <=6 over the bracket tokens, of 5-6 over declaration and rule tokens, through all 8 entry points in 3 input forms (text, tokens, component values) and as bytes; lists of 65 and nesting of 257 of every kind", "one token more"],
    assumptions=["the edition the library links to (early 2021 editor's draft)"],
    trust=["harness/css_model.hpp (an independent CSS Syntax parser)"])
SPECS["C23"] = dict(src=["c23_selector_parse.cpp"], libs=["selectors", "css", "encoding"],
    bounds=["every sequence of <=4 of 20 selector tokens, of <=4 tokens inside an attribute test, of <=6 over the name, namespace and combinator tokens and of <=5 over pseudo and compound tokens, in contexts without namespaces, with one prefix and with a default namespace; compounds, chains, lists and names of up to 300 parts", "one token more"],
    assumptions=["unknown pseudo-classes and pseudo-elements are accepted, as the library documents"],
    trust=["harness/sel_model.hpp (an independent selector parser)", "harness/css_model.hpp"])
SPECS["C24"] = dict(src=["c24_selector_match.cpp"], libs=["selectors", "css", "html", "encoding"],
    bounds=["every tree of <=4 elements named a or b (with and without text and comment noise) x every selector of <=3 compounds and all 4 combinators, <=3 elements x 4 compounds, four document kinds and trees without document x 2 compounds; every attribute value of <=4 characters x 6 operators x 14 operands x 3 modifiers; names, ids, classes, namespaced attributes x 58 selectors; every compound of <=4 simple selectors; from every node; chains, rows and combs of up to 129 elements with selectors of up to 66 compounds", "one element or character more"],
    assumptions=["foreign-element and per-attribute case-insensitivity rules of HTML are left out"],
    trust=["the matching model in harness/c24_selector_match.cpp", "harness/sel_model.hpp"])
SPECS["C25"] = dict(src=["c25_html_tokens.cpp"], libs=["html", "encoding"],
    bounds=["every string of <=5 over 15 markup characters in data mode and of <=4-6 over the alphabets of tags, attributes, comments, declarations, document types, raw text (4 modes), script escapes, CDATA, look-ahead and newlines; all 2231 named references and all their prefixes in 5 contexts x 11 followers; 450 numeric values in every spelling and followers, digit runs up to 80; 265 code points in 94 positions; each text tokenised twice, the second time after clear(); tokens of up to 300 units in every context, 300 attributes", "one piece more"],
    assumptions=["a missing and an empty DOCTYPE identifier are not distinguished, as in the library's token", "parse error codes are not compared"],
    trust=["harness/html_tok_model.hpp (an independent HTML tokenizer)", "data/entities.txt (the Standard's entity table, from golang.org/x/net/html)"])
SPECS["C26"] = dict(src=["c26_html_tree.cpp"], libs=["html", "encoding"], flags=["-D_GLIBCXX_DEBUG"],
    bounds=["each of 238 start and end tags in 42 contexts (with text and comments behind), every pair of them in 6 contexts; every sequence of <=3-6 pieces over the alphabets of formatting, tables, selects, blocks, lists, forms, ruby, document skeleton, foreign content, templates and raw text; the Noah's Ark lists; every SVG/MathML name and attribute adjustment; every DOCTYPE identifier the Standard lists x 7 system identifiers x 4 spellings; 63 characters in 38 positions; the adoption agency at every depth around its limits of 8 outer and 3 inner rounds; every kind of tag repeated and nested up to 200 times, 4097 characters of text", "one piece more; every pair of tags in 42 contexts"],
    assumptions=["the edition of early 2021 (select has its own insertion modes, no search element)", "scripting disabled, no fragment parsing", "DOCTYPE identifiers are judged by the document mode they select, the node does not expose them"],
    trust=["harness/html_tree_model.hpp (an independent tree builder, agreeing with all 1551 applicable html5lib tree-construction tests)", "harness/html_tok_model.hpp"])

SPECS["C27"] = dict(src=["c27_html_serialise.cpp"], libs=["html", "encoding"], flags=[],
    bounds=["documents: 250 tags in 12 contexts and every sequence of <=4 pieces over 4 alphabets, every node of each tree, trees and output in UTF-8, UTF-16 and UTF-32; every text of <=3 (4 in p and style) of 14 pieces in 18 kinds of element; every character below U+0300; every hand-built tree of <=3-5 steps under 7 roots; 6 namespaces x 4 prefixes x 14 names x 14 values of attributes, every value of <=3 of 9 characters; documents, texts and trees of up to 200 of everything (texts: 1025)", "one or two pieces more; every code point"],
    assumptions=["the edition of early 2021 (< and > are not escaped in attribute values, no newline is added after pre)", "scripting disabled", "the round trip is required where the Standard's own algorithms round trip (decided by the reference)"],
    trust=["harness/html_tree_model.hpp (reference parser)", "the 40-line reference serialiser in harness/c27_html_serialise.cpp"])

SPECS["C28"] = dict(src=["c28_html_delivery.cpp"], libs=["html", "encoding"], flags=[],
    bounds=["every text of <=4-6 pieces over 3 alphabets (newlines, multi-byte characters, markup, references) in 16 contexts as code points, UTF-16, UTF-8, UTF-16BE/LE bytes with and without a mark, and pushed one at a time, into trees of 3 string types; every sequence of <=3 of 35 pieces (18 forms of meta declaration) for utf-8, <=2 for 3 other transport encodings, <=1 with 6 kinds of byte order mark; every label; every malformed UTF-8 sequence of <=4 of 15 bytes in 4 contexts; every content attribute of <=6 pieces; every pair of 50 documents through one reused parser; every kind of input element around every power of two up to 4096, declarations around byte 1024", "one piece more"],
    assumptions=["no prescan: a declaration takes effect when the element is inserted (the parse starts over), which the Standard allows", "labels added after the edition implemented are left open", "UTF-16 and UTF-32 input is well formed"],
    trust=["harness/html_tree_model.hpp", "harness/enc_model.hpp and data/encoding_index.bin, data/labels.tsv from encoding_rs"])
