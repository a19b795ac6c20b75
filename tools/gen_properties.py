#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
U = "include/boost/url/"
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[U+f for f in files],
            state=[dict(name=a, meaning=b, where=U+c) for a,b,c in state],
            mechanism=[dict(name=a, where=U+b) for a,b in mech],
            observe_at=list(observe), hook_needed=None)))

prop("C01", "A string is accepted as a URL exactly when RFC 3986 allows it",
 "Constructing a url_view, constructing a url, and set_encoded_url each accept a byte string if and only if it matches the RFC 3986 URI-reference grammar (scheme, authority with userinfo/IPv4/IPv6/IPvFuture/reg-name host and port, every path form, query, fragment, percent-escapes with upper- or lower-case hex); every other string is refused with the invalid_part exception. All three entry points agree on every string.",
 ["inputs"], "every byte string offered to the parser",
 "The tests parse a few hundred hand-picked strings; acceptance is a language-equality statement over all strings, and wrong accepts/rejects live in character-class entries, look-ahead positions and IPv6 group counts no sample reaches.",
 ["detail/parse.hpp","detail/char_type.hpp","impl/url_view.ipp","impl/url_base.ipp"],
 [("parse_url and the parse_*/match_* grammar functions","detail/parse.hpp"),("character-class tables, hex_digit, is_scheme_char","detail/char_type.hpp")],
 [("parser::p_","cursor into the input","detail/parse.hpp")],
 ["url_view(string_view)","url(string_view)","set_encoded_url"])

prop("C02", "Every observer returns exactly its RFC component of the string",
 "For every valid URL, each encoded observer (scheme, origin, authority, userinfo, user, password, host, host-and-port, port, path, query, fragment and their *_part forms, has_authority, has_userinfo) returns exactly the substring RFC 3986 assigns to that component, with and without its separator as documented. The components concatenate back to the input, encoded_url returns the input unchanged, and url_view and url report identical values.",
 ["inputs"], "every valid URL, every observer, for url_view and url",
 "Tests compare a handful of observers on a handful of URLs; which delimiter wins (first '@', first ':', '?' inside a fragment, '/' inside a query) is decided per input.",
 ["detail/parse.hpp","detail/parts.hpp","impl/url_view.ipp","impl/url_base.ipp"],
 [("offset table filled by mark()","detail/parse.hpp"),("get()/length() slicing","detail/parts.hpp"),("observer bodies","impl/url_view.ipp"),("observer bodies","impl/url_base.ipp")],
 [("parts::offset","start of every component","detail/parts.hpp")],
 ["all encoded observers"])

prop("C03", "host_type always names the syntactic kind of the current host",
 "host_type() is none when the host is empty or there is no authority, ipv4 exactly for a dotted quad of decimal octets 0-255 without leading zeros, ipv6 exactly for a bracketed RFC 3986 IPv6address, ipvfuture exactly for a bracketed IPvFuture, and name otherwise. This holds whether the host came from parsing or from any setter, and set_host encodes anything that is not an IP literal or IPv4 address as a name.",
 ["inputs","histories"], "every host string, by every route that can change the host",
 "The unit tests classify a few dozen addresses through one entry point; the space of IPv6 group/compression/embedded-IPv4 shapes and of setter routes is combinatorial.",
 ["detail/parse.hpp","impl/url_base.ipp","host_type.hpp"],
 [("parse_ip_v6, match_ip_v4, parse_ip_literal, parse_plain_hostname","detail/parse.hpp"),("pt_.host updates in the setters","impl/url_base.ipp")],
 [("parts::host","cached host kind","detail/parts.hpp")],
 ["host_type","host","encoded_host"])

prop("C04", "Plain setters and decoded getters round-trip arbitrary bytes",
 "set_user, set_password, set_host, set_query, set_fragment and segment insert/replace accept any byte sequence including NUL and high-bit bytes; the decoded getter then returns exactly those bytes, and the encoded form contains only characters legal in that component with every other byte written as an upper-case percent-escape. Decoded getters return the exact percent-decoding of the encoded component (an IP host is returned verbatim), also when a caller-supplied allocator is used.",
 ["inputs"], "every byte string given to a plain setter, every encoded component given to a decoded getter",
 "Tests try a few reserved characters per setter; a wrong table entry, a size/emit mismatch or a sign-extension bug shows only for particular bytes or byte pairs.",
 ["detail/char_type.hpp","impl/url_base.ipp","url_base.hpp","url_view.hpp"],
 [("pct_encoding encode/encoded_size/decode/raw_decoded_size","detail/char_type.hpp"),("plain setters","impl/url_base.ipp")],
 [], ["set_user/user","set_password/password","set_host/host","set_query/query","set_fragment/fragment","segments insert/replace"])

prop("C05", "A setter changes its own component as documented and nothing else",
 "From every URL state, a setter call whose argument is valid and whose result is not ambiguous succeeds and makes the component it names read back as the argument (adding '//' ':' '@' '?' '#' when needed, and dropping separators - and, where documented, an authority with nothing left in it - when the argument is empty) while every other component, decoded or encoded, keeps its value. The resulting string is exactly the one given by the component-replacement rule in the documentation.",
 ["inputs","histories"], "every reachable URL state x every setter x every legal argument",
 "Tests run each setter from a few starting URLs; the interesting bugs depend on which neighbouring components are present or empty and on growing versus shrinking.",
 ["impl/url_base.ipp","url_base.hpp","detail/parts.hpp"],
 [("setter bodies, resize(id)/resize(first,last), parts::split","impl/url_base.ipp")],
 [("parts::offset","component boundaries moved by every edit","detail/parts.hpp")],
 ["all set_* functions"])

prop("C06", "After any modification history the URL is valid and self-consistent",
 "After any sequence of setter, segment-edit, assignment and normalise calls, successful or throwing, encoded_url() is a syntactically valid URL. Re-parsing that string gives an object whose every observer - components, host_type, segment list and count, parameter list and count - equals the live object's.",
 ["histories","inputs"], "every finite sequence of modifying calls with every argument, from every starting URL",
 "Tests apply one or two setters in a row; cached facts (host kind, segment and parameter counts, component offsets) go stale only along particular histories.",
 ["impl/url_base.ipp","detail/parts.hpp","basic_url.hpp"],
 [("in-place edits keep offsets and cached counts in step","impl/url_base.ipp")],
 [("parts","offsets, nseg, nparam, host","detail/parts.hpp"),("url_base::s_","character buffer","url_base.hpp")],
 ["encoded_url","all observers"])

prop("C07", "A modifying call that throws leaves the URL exactly as it was",
 "If a modifying call throws - because the argument is malformed, because the modification is ambiguous, or because an allocation fails at any point inside the call - the string and every observer of the URL are exactly what they were before the call, and the object remains fully usable. Functions marked noexcept (segment erase, observers, iteration) never throw.",
 ["fault_sequences","histories","inputs"], "every state x every modifying call x every failing argument or failing allocation index",
 "No test injects an allocation failure, and only a few check a URL after a throw.",
 ["impl/url_base.ipp","detail/storage.hpp","basic_url.hpp"],
 [("validate-then-resize-then-write order in each setter","impl/url_base.ipp"),("alloc_storage::reserve allocates before releasing","detail/storage.hpp")],
 [("alloc_storage","buffer, size, capacity","detail/storage.hpp")],
 ["all set_* functions","segments insert/replace","copy assignment"])

prop("C08", "Encoded setters accept exactly the documented grammar in context",
 "Each encoded setter (scheme, origin, authority, userinfo, userinfo part, user, password, password part, host, port, port part, path, query, query part, fragment, fragment part, encoded segment insert/replace) accepts an argument if and only if it matches the documented grammar of that component in the URL's current state (for the path: path-abempty with an authority, else path-absolute, path-rootless with a scheme, path-noscheme without); otherwise it throws invalid_part. Two documented leniencies count as part of the grammar: an origin argument may be followed by a path, which is ignored, and a password argument may not start with ':'. Whether a well-formed argument is refused because the result would be ambiguous is C20.",
 ["inputs","histories"], "every argument string x every URL state",
 "Tests try a few bad arguments per setter from one state; acceptance is again a language equality and depends on the presence of scheme and authority.",
 ["impl/url_base.ipp","detail/parse.hpp","detail/char_type.hpp"],
 [("pct_encoding::validate and parse_*/match_* argument checks","detail/char_type.hpp"),("match_path_*, parse_userinfo, parse_origin, match_port","detail/parse.hpp")],
 [], ["all encoded set_* functions"])

prop("C09", "segments() lists exactly the path's segments, in both directions",
 "For every URL, segments() - of a url_view, a const url and a mutable url - has size() equal to the number of path segments and iterates exactly the '/'-separated segments of the path (a leading '/' is not a segment; an empty path has none), encoded and decoded, never reaching into the query or fragment. Iterating backwards from end() gives the reverse sequence, and every mix of ++ and -- moves consistently.",
 ["inputs","histories"], "every URL, every iterator walk",
 "Tests walk a few paths, mostly without query or fragment.",
 ["impl/url_view.ipp","impl/url_base.ipp","detail/parse.hpp"],
 [("segments iterators parse/++/--","impl/url_view.ipp"),("segments iterators parse/++/--","impl/url_base.ipp"),("nseg counting","detail/parse.hpp")],
 [("parts::nseg","cached segment count","detail/parts.hpp")],
 ["segments()"])

prop("C10", "Editing segments behaves like editing a list of strings",
 "insert, insert_encoded, replace, replace_encoded and erase of one segment or a range act on the sequence of path segments as on a list, keep the path absolute or rootless as it was (inserting into an empty path makes it absolute), leave every other component unchanged, and return an iterator to the segment following the inserted, replaced or erased ones. The only deviations are that an insert or replace whose result would be ambiguous throws and changes nothing, and that an erase whose result would be ambiguous leaves a single '.' segment in front.",
 ["histories","inputs"], "every path x every position/range x every segment text, in every sequence of edits",
 "Tests do a handful of edits on absolute paths that are followed by a query or fragment.",
 ["impl/url_base.ipp","url_base.hpp"],
 [("segments_type::insert*/replace*/erase","impl/url_base.ipp")],
 [("iterator off_/n_","position of the segment in the string","url_base.hpp")],
 ["segments().insert/insert_encoded/replace/replace_encoded/erase"])

prop("C11", "params() lists exactly the query's parameters, in both directions",
 "For every URL, params() - of a url_view, a const url and a mutable url - iterates exactly the '&'-separated pieces of the query in order (none if there is no '?', one empty piece for a bare '?'), each split at its first '=' into key and value (no '=' means an empty value), encoded and decoded, never reaching into the fragment. size() equals the number of pieces and backward iteration from end() gives the reverse sequence.",
 ["inputs","histories"], "every query string, every iterator walk",
 "Tests use two or three queries without fragment and never iterate backwards.",
 ["impl/url_view.ipp","impl/url_base.ipp","detail/parse.hpp"],
 [("params iterators parse/++/--","impl/url_view.ipp"),("params iterators parse/++/--","impl/url_base.ipp"),("parse_query counting","detail/parse.hpp")],
 [("parts::nparam","cached parameter count","detail/parts.hpp")],
 ["params()"])

prop("C12", "Parameter lookup matches decoded keys exactly",
 "contains(k), count(k), find(k), at(k) and operator[](k) compare k byte-for-byte with each parameter's percent-decoded key: count is the number of matches, contains says whether it is nonzero, find returns the first match or end(), at returns its decoded value or throws out_of_range, and operator[] returns its decoded value or an empty string. url_view, const url and url agree.",
 ["inputs"], "every query x every lookup key",
 "Tests look up two or three keys without escapes; matching an escaped key against a plain one has prefix, length and escape-at-end corner cases.",
 ["detail/char_type.hpp","impl/url_view.ipp","impl/url_base.ipp"],
 [("key_equal","detail/char_type.hpp"),("contains/count/find/at/operator[]","impl/url_base.ipp")],
 [], ["params().contains/count/find/at/operator[]"])

prop("C13", "The owned string is always null-terminated and within its storage",
 "After every operation data() is null-terminated at size(), size() is the length of encoded_url(), and capacity() is at least size(); an operation whose result fits the current capacity neither allocates nor moves the string. Every access stays inside the allocated block, and every block obtained from the allocator is returned to it exactly once with the size it was requested with. The allocator is never asked for more than its max_size(); a result that would need more is refused with an exception and the URL is left unchanged.",
 ["histories","inputs"], "every sequence of operations growing and shrinking the URL",
 "Tests do not observe the allocator, and out-of-bounds or unterminated bytes are usually invisible to them.",
 ["detail/storage.hpp","impl/url_base.ipp","url_base.hpp"],
 [("alloc_storage reserve/resize","detail/storage.hpp"),("url_base::resize and memmove of the tail including terminator","impl/url_base.ipp")],
 [("alloc_storage p_/size_/cap_","owned block","detail/storage.hpp")],
 ["data","size","capacity"])

prop("C14", "A static pool hands out disjoint aligned blocks or throws bad_alloc",
 "Every block a static pool's allocator returns lies entirely inside the pool's buffer, is aligned for its type and does not overlap a block returned earlier; a request that does not fit, including one that overflows, throws std::bad_alloc and takes nothing. A URL living in a pool behaves exactly like a heap URL until the pool is exhausted, and an exhausted pool leaves the URL unchanged.",
 ["histories","inputs"], "every pool size, base alignment and sequence of typed allocations; every URL history on every pool size",
 "Tests make one allocation from one pool.",
 ["static_pool.hpp","detail/storage.hpp"],
 [("basic_static_pool::allocate","static_pool.hpp")],
 [("top_","first free byte","static_pool.hpp")],
 ["static_pool::allocator","basic_url with a pool allocator"])

prop("C15", "Known schemes are recognised case-insensitively and nothing else is",
 "string_to_scheme maps exactly the case variants of ftp, file, http, https, ws and wss to their enumerators and every other byte string to unknown; to_string returns the canonical lower-case name for each known scheme and a fixed placeholder otherwise, and converting a name to a scheme and back is the identity on known schemes. is_special(name) is true exactly for the same strings. The answer does not depend on the locale.",
 ["inputs"], "every byte string up to the longest scheme name and beyond",
 "Tests check each name once or twice.",
 ["impl/scheme.ipp","scheme.hpp"],
 [("string_to_scheme, to_string, is_special","impl/scheme.ipp")],
 [], ["string_to_scheme","to_string","is_special"])

prop("C16", "No input makes the parser or views crash, hang or read out of bounds",
 "For every byte sequence - not null-terminated, with any bytes - construction, every observer, every iterator walk and every lookup finish, read only the bytes given, trigger no assertion or undefined behaviour, and either succeed or throw the documented exception. The same holds for every argument passed to a setter.",
 ["inputs"], "every byte string as URL or as setter argument",
 "Tests pass null-terminated literals, so one-byte over-reads go unnoticed, and cover few malformed shapes.",
 ["detail/parse.hpp","detail/char_type.hpp","impl/url_view.ipp","impl/url_base.ipp"],
 [("end checks before each dereference","detail/parse.hpp"),("check_escape","detail/char_type.hpp")],
 [], ["all parsing entry points, observers and iterators"])

prop("C17", "Copies and assignments are equal, independent values",
 "Copy-constructing, move-constructing or copy-assigning a url yields a URL whose string and observers equal the source's; afterwards modifying or destroying either one never affects the other. Self-assignment changes nothing, and a failed copy leaves the destination unchanged.",
 ["histories","inputs","fault_sequences"], "every pair of URL states, every later history of both objects, every failing allocation",
 "No test copies or assigns a URL.",
 ["basic_url.hpp","detail/storage.hpp"],
 [("basic_url copy/move constructors and copy assignment","basic_url.hpp")],
 [], ["basic_url special members"])

prop("C18", "Every valid URL can be built part by part, in any order",
 "Starting from an empty URL and setting, in any order that passes only through unambiguous states, each component of any valid URL to its value yields exactly that URL; setting all components of another URL over an existing one (clearing userinfo as a whole) yields that URL too. Two different orders that both succeed give the same string. Delimiters with nothing behind them that no component setter can create (a bare '//' or '@') are excepted.",
 ["inputs","histories"], "every valid URL x every order of its component setters",
 "Tests build one or two URLs in one order.",
 ["impl/url_base.ipp","url_base.hpp"],
 [("separator insertion in each setter","impl/url_base.ipp")],
 [], ["all set_* functions"])

prop("C19", "Normalising only lower-cases the scheme and is idempotent",
 "normalize() and normalize_scheme() replace ASCII upper-case letters of the scheme by lower-case ones, change no other byte of the URL and no other observer, never allocate or throw, and applying them twice equals applying them once.",
 ["inputs","histories"], "every URL",
 "Tests normalise a few schemes.",
 ["impl/url_base.ipp"],
 [("normalize_scheme","impl/url_base.ipp")],
 [], ["normalize","normalize_scheme"])

prop("C20", "A modification is refused exactly when the result would be ambiguous",
 "With a well-formed argument, a modification is refused with invalid_part exactly when the resulting text would no longer mean what was asked: giving an authority to a URL whose path is non-empty and not rooted, removing the authority from a path starting with '//', removing the scheme when the first rootless segment contains ':', or a segment insert/replace that would create a leading '//' without authority, an empty first rootless segment or a ':' in the first segment of a scheme-less rootless path. In every other case the modification succeeds.",
 ["inputs","histories"], "every URL state x every modification",
 "No test exercises an ambiguous modification.",
 ["impl/url_base.ipp"],
 [("ambiguity checks in setters and segment edits","impl/url_base.ipp")],
 [], ["all set_* functions","segments insert/replace"])

prop("C21", "All build configurations of the library behave identically",
 "Compiled as a separate library, header-only, or stand-alone (standard string_view and error_code instead of Boost's), with or without assertions, with gcc or clang, C++11 to C++20, signed or unsigned plain char and at any optimisation level, the library gives the same observable result - accepted or refused, every observer value, every exception type - for every input and operation history. Every public header can be included on its own, and from any number of translation units.",
 ["configurations","inputs","histories"], "every supported configuration x every input/history",
 "The test program is built in one configuration.",
 ["config.hpp","detail/config.hpp","src.hpp"],
 [("configuration macros and aliases","detail/config.hpp"),("single translation unit include","src.hpp")],
 [], ["whole API"])

prop("C22", "Failures are reported with the documented error types and codes",
 "Every failing call throws an exception of the documented type (invalid_part for malformed or ambiguous arguments, out_of_range for a missing key, the allocator's own exception when memory runs out), all derived from std::exception and from the documented standard base class. Every library error code belongs to the library's category, has a non-empty message, is distinct from success, and compares equal to the parse-error condition exactly for the codes documented to do so.",
 ["inputs"], "every error enumerator and every failing call",
 "Tests check several codes but not the whole table against every other code.",
 ["error.hpp","impl/error.hpp","impl/error.ipp"],
 [("exception types and raise()","impl/error.ipp"),("error categories and default_error_condition","impl/error.ipp")],
 [], ["exceptions","error_code/error_condition"])

prop("C23", "Views borrow: no allocation, no copy, stable under copying",
 "Parsing into a url_view, copying it, and calling any of its encoded observers, iterators or lookups (and the encoded observers and iterators of a url) performs no dynamic allocation, never modifies the viewed characters, and every returned string view points into the viewed buffer. A copied or assigned url_view reports exactly what the original does.",
 ["inputs","histories"], "every input, every observer",
 "Tests never watch the heap or the addresses of returned views.",
 ["url_view.hpp","impl/url_view.ipp","impl/url_base.ipp"],
 [("url_view stores a pointer and offsets only","url_view.hpp")],
 [], ["url_view and url encoded observers"])

prop("C24", "Distinct objects, and observers of one object, are safe across threads",
 "Operations on distinct url, url_view and pool objects made by different threads, and any const observers of one url or url_view called by several threads at once, behave under every interleaving exactly as each thread's operations do alone, without external locking, including on the first use of the library in the process. No operation touches hidden mutable state that another object or another thread can see.",
 ["schedules","inputs"], "every interleaving of every pair of operations on distinct objects and of every pair of observers of one object",
 "Tests are single-threaded; a shared buffer, cache or lazily filled table gives right answers until two threads meet in it.",
 ["url_base.hpp","impl/url_base.ipp","impl/url_view.ipp","detail/char_type.hpp","impl/scheme.ipp","impl/error.ipp","static_pool.hpp"],
 [("functions work on their arguments and the object only; the error categories are the only static objects","impl/error.ipp")],
 [], ["all public functions"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
try:
    import jsonschema
    sc = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in P: jsonschema.validate(p, sc)
    print("valid", len(P))
except ImportError: pass
