import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,observe,state=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    P.append(d)
L='src/lib.rs';A='src/attribute_type.rs';M='src/media_type.rs';AD='src/address.rs';AN='src/anonymizer.rs';E='src/error.rs';N='src/network.rs'

p('C01','No input makes the library panic, overflow or hang',
 'For every text, parsing it as a session description (strict or lenient), as a single line or as a single attribute ends with a value or an error: it never panics, overflows the stack or an integer, aborts or fails to end. The same holds for printing, debug-printing, cloning and anonymizing every session that was accepted, and for every public parsing entry point called with an empty list of lines.',
 ['inputs'],'every text; every accepted session',
 'The tests parse a few hundred hand-written strings; a slice, index, unwrap or arithmetic slip shows only for particular lengths, characters (multi-byte, separators) or token counts that no test has.',
 [L,A,M,AD,N],[('every token access goes through an Option or a length check',A),('integer parsing with range errors',A),('slicing only after starts_with/ends_with',A+' imageattr')],
 ['return value of the parsing entry points','process survival'])
p('C02','Printing an accepted session and parsing it again gives the same session',
 'Every accepted session prints to text that is accepted again, without warnings and in strict mode, and the session obtained is equal to the first in every field; printing it a second time gives the same text. The only thing printing may leave out is a format-parameter attribute whose parameters all have their default values, and the warnings of the first parse.',
 ['inputs'],'every text that is accepted, with every attribute, value and combination of lines',
 'Tests check the round trip of about a hundred single lines and a few documents, with one value per field; defaults, boundary values, optional parts, list lengths and combinations are not reached.',
 [L,A,M,AD],[('Display implementations mirror the parsers',A),('section order in printing','src/lib.rs, src/media_type.rs')],['printed text and the public fields of the re-parsed session'])
p('C03','Every accepted line ends up in its own section, once and in order',
 'After an accepted parse, each session-level line is found at the session and each media-level line in the media section opened by the nearest media line before it; every attribute and bandwidth line appears exactly once and in document order, and there is exactly one media section per supported media line, in order. Exceptions: a repeated session-level connection or timing line replaces the earlier one, a media-level dtls-message attribute is ignored, and the lines of a media section whose media line is unsupported belong to no section.',
 ['inputs'],'every sequence of lines, any number of sections and of lines per section',
 'Tests use at most a few sections with fixed content and look at counts; losing, duplicating, reordering or moving a line in some arrangement is not seen.',
 [L,M],[('split of the line vector at the first media line',L),('section loop',M)],['public fields of the session and getters of its media sections'])
p('C04','Attributes are accepted only at the level where they are allowed',
 'Media-only attributes (candidate, rtpmap, fmtp, mid, msid, rid, ssrc and the like) at session level, and session-only ones (group, identity, ice-lite, ice-pacing, msid-semantic) in a media section, make the document fail with a sequence error; every other attribute is accepted where it stands. The same table governs adding attributes to a session or media section through the API, where a refused attribute changes nothing, and a media-level dtls-message is ignored by the parser but refused by the API.',
 ['inputs'],'every supported attribute at session level and in the first, middle and last media section, next to any other attribute',
 'Tests place only a handful of the 43 attributes at the wrong level.',
 [A,L,M],[('allowed_at_session_level / allowed_at_media_level tables',A),('checks in the session and media builders','src/lib.rs, src/media_type.rs')],['accept/reject of parsing and of the add/set operations'])
p('C05','Only documents with the required line skeleton are accepted',
 'A document without parse errors is accepted only if its first three lines are version, origin and session name, in this order; version, origin and session-name lines do not occur again; a timing line is present at session level and none in a supported media section; there is a session-level connection or every media section has one; and no media section has two connections. A document that meets these rules and the rules on attributes is accepted, and a line whose type is not one of v,o,s,c,b,t,a,m is always an error.',
 ['inputs'],'every sequence of line types',
 'Tests remove one line from one fixed document; the rules are about all orders and repetitions.',
 [L,M],[('parse_sdp_vector takes the first three lines',L),('session and media line loops','src/lib.rs, src/media_type.rs'),('final sanity check',L)],['accept/reject and class of the error'])
p('C06','Accepted sessions satisfy the cross-line consistency rules',
 'A parsed document is accepted exactly if: extmap is not used both at session level and in some media section; every media section with rtcp-mux-only also has rtcp-mux; every payload type of every rid is among the formats of its own media line; and every id in every simulcast attribute is the id of a rid of the same media section with the same direction. The rules apply to every media section and do not depend on the order of the attributes.',
 ['inputs'],'every combination of these attributes over any number of media sections and orders',
 'Tests have one positive and one negative example for some of the rules, with one media section.',
 [L],[('sanity_check_sdp_session',L)],['accept/reject'])
p('C07','Lenient mode turns unsupported lines into warnings; strict mode rejects them',
 'In lenient mode a line that is unsupported is left out and reported as one warning of the session, in document order, and the session is otherwise that of the document without this line (for an unsupported media line: without its section); in strict mode the document is rejected with the first such line. A line that is in error rejects the document in both modes (in strict mode an unsupported line is reported in preference), and without unsupported lines both modes give the same result and no warnings.',
 ['inputs'],'every arrangement of supported, unsupported and wrong lines, both modes',
 'Tests have one document with one unsupported line per mode.',
 [L],[('errors and warnings collected per line, decision after the loop',L)],['result and warnings field in both modes'])
p('C08','Errors and warnings identify the offending line',
 'Every line error and warning carries the zero-based number and the exact text of a line of the input that is itself refused or unsupported on its own; the printed form of the error contains this number and text. A refusal because of a line at the wrong place (a second connection, a misplaced attribute or line type) carries the number of that line.',
 ['inputs'],'every document with any number of bad lines at any position, with blank lines and either line ending in between',
 'Tests check the line number of two or three documents; blank lines, mixed line ends and later sections are not covered.',
 [L,M,E],[('line numbers from enumerate over all lines including blank ones',L),('line_number stored per parsed line',L)],['line number, text and printed form of errors and warnings'])
p('C09','Line endings, blank lines, padding and letter case do not change the result',
 'Replacing CRLF by LF or the other way round (per line), inserting blank or white-space-only lines, adding white space around a line, around the type letter, at the start of the value, after the colon of an attribute or at the end of a line, leaving out the last line end, or changing the letter case of line types, attribute names and of the keywords that are compared without case gives the same verdict and the same session, apart from line numbers and quoted line texts.',
 ['inputs'],'every document and every set of such changes',
 'Tests contain one document with blank lines; the combinations of places and kinds of change are unbounded.',
 [L,A,M,N],[('trim and lowercase of type, value and attribute name','src/lib.rs, src/attribute_type.rs')],['verdict and public fields of the session'])
p('C10','Session-level lines are read exactly or rejected',
 'Version, origin, session name, connection, bandwidth and timing lines are accepted exactly when they follow the supported syntax (version 0, origin with six tokens, network type IN, address matching the declared address type, 64-bit ids and times, 32-bit bandwidth, 8-bit TTL and 32-bit address count), and the session then holds exactly the values written; bandwidth of an unknown kind keeps its name and value. A blank session name is the same as none; text after the sixth token of an origin and after the address count of a connection is ignored.',
 ['inputs'],'every combination of tokens in these lines, at session and (connection, bandwidth) media level',
 'Tests check some tokens one at a time with one or two values; token combinations and boundary values are not reached.',
 [L,N,AD],[('parse_origin, parse_connection, parse_bandwidth, parse_timing, parse_version',L)],['public fields or rejection'])
p('C11','Media lines are read exactly or rejected',
 'A media line yields exactly its media kind, port, port count (0 if absent), protocol and list of formats in order; it is an error unless it has four or more tokens, a port of at most 65535, a 32-bit port count, and for audio and video only integer formats outside 1, 2, 19, 64-95 and above 127. An unknown media kind or protocol is unsupported rather than an error; kinds and protocols are compared without case.',
 ['inputs'],'every combination of kind, port, count, protocol and format list',
 'Tests use about 25 media lines; all protocols with all kinds, the port limit and all 128 payload types are not covered.',
 [M],[('parse_media, parse_media_token, parse_protocol_token',M)],['getters of the media section, class of the refusal'])
p('C12','ICE and transport attributes are read exactly or rejected',
 'Candidate, remote-candidates, rtcp, ice-ufrag, ice-pwd, ice-options, ice-pacing, fingerprint, setup, dtls-message, sctpmap, sctp-port, max-message-size and identity attributes yield exactly the values written, including every optional part and extension in any order, or are refused. Ports above 65535, fingerprints whose length or digits do not fit the hash function, unknown transports, candidate types, TCP types, roles and missing values are refused; unknown hash functions and a candidate extension without value are unsupported; text after the address of rtcp is ignored.',
 ['inputs'],'every combination of token values and of optional parts',
 'Tests cover a few dozen lines; extension order and combination, limits and hash lengths are not exhausted.',
 [A,AD,N],[('parse_candidate and the other attribute parsers',A)],['fields of the attribute, class of the refusal'])
p('C13','Codec, feedback and header-extension attributes are read exactly or rejected',
 'Rtpmap, rtcp-fb, extmap, ptime, maxptime and framerate attributes yield exactly the values written or are refused: payload types up to 127 for rtpmap and any 8-bit value or * for rtcp-fb, 16-bit extension ids with an optional direction, finite non-zero frame rates, and only the documented feedback kinds and parameters. Unknown feedback kinds and parameters are unsupported rather than errors; text after the channel count of an rtpmap is ignored.',
 ['inputs'],'every combination of token values and optional parts',
 'Tests check about 60 such lines; combinations of kind, parameter, extra text, direction and limits are not covered.',
 [A],[('parse_rtpmap, parse_rtcp_fb, parse_extmap, parse_framerate',A)],['fields of the attribute, class of the refusal'])
p('C14','Codec format parameters are read exactly or rejected',
 'A format-parameter attribute sets each named parameter (H.264, VP8/VP9, AV1, Opus, RTX) to the last value written, in any order and any letter case of names, keeps unknown parameters verbatim and in order, and leaves all others at their defaults; a redundancy list and a telephone-event list are kept as written, an invalid event list becomes 0-15. Values outside the range of their parameter, a parameter without value next to others, a redundancy payload type above 128, and a retransmission time before its associated payload type are refused.',
 ['inputs'],'every parameter with every value class, all pairs and orders of parameters, all separators',
 'Tests check some twenty parameter strings; a parameter stored in the wrong field, a wrong limit or a dependence on order is only visible for particular ones.',
 [A],[('parse_fmtp',A)],['fields of the attribute, class of the refusal'])
p('C15','Stream restriction, simulcast and image attributes are read exactly or rejected',
 'Rid, simulcast and imageattr attributes yield exactly the ids, directions, formats, parameters, dependencies, alternatives with their paused marks, and ranges, value lists, aspect ratios and preferences written, for either order of the directions; a missing part, an unknown or repeated direction, a malformed or non-ascending aspect-ratio range or list, or text after the second image list is refused. Unknown keys of an image set and text after the second simulcast list are ignored.',
 ['inputs'],'every combination of the parts of these attributes and list lengths',
 'Tests check about 70 strings of a nested grammar whose combinations are unbounded.',
 [A],[('parse_rid, parse_simulcast, parse_image_attr and helpers',A)],['fields of the attribute, class of the refusal'])
p('C16','Grouping, id, source and flag attributes are read exactly or rejected',
 'Group, mid, msid, msid-semantic, label, ssrc and ssrc-group attributes yield exactly the semantics, ids, tags and values written, in order and without loss; valueless attributes (the direction attributes, bundle-only, end-of-candidates, extmap-allow-mixed, ice-lite, ice-mismatch, rtcp-mux, rtcp-mux-only, rtcp-rsize) yield themselves and are refused with a value. Missing required values are errors, unknown semantics and unknown attribute names are unsupported; text after the application data of msid is ignored.',
 ['inputs'],'every attribute name, and every combination of token values and list lengths',
 'Tests check a few lines per attribute.',
 [A],[('SdpAttribute from_str dispatch and parsers',A)],['fields of the attribute, class of the refusal'])
p('C17','Numbers are exact within their range and refused outside it',
 'For every numeric field of every line and attribute there is a range such that each integer in the range is accepted and stored exactly, and each integer outside it, a negative one, or a token that is not a number is refused; no value is ever wrapped, truncated, clamped or rounded.',
 ['inputs'],'every numeric field and every integer, in particular the neighbourhoods of all powers of two and of ten',
 'Tests check one out-of-range value for a few fields.',
 [L,A,M],[('integer parsing into the exact width, explicit limit checks','src/lib.rs, src/attribute_type.rs, src/media_type.rs')],['stored value or refusal'])
p('C18','Addresses are classified, compared and printed consistently',
 'An address text is read as the IP address or host name it denotes, and printing and reading it again gives an equal address; where an address type is declared, an IP address of the other family is refused and a host name keeps the declared type. Address equality is an equivalence that ignores the letter case of host names, distinguishes host names from IP addresses and different declared types, and agrees before and after conversion.',
 ['inputs'],'every address text, pairs and triples of addresses, both declared types, and every line that carries an address',
 'Tests check eight addresses.',
 [AD,N,L,A],[('Address and ExplicitlyTypedAddress parsing, equality, printing',AD)],['values, equality and printed form of addresses; refusal'])
p('C19','An anonymizer maps consistently and never merges two values',
 'Within one anonymizer, masking the same value of the same kind (IP address, host name, port, origin user, ICE password, ICE user, fingerprint, cname) always gives the same result, and two different values of a kind never give the same result, in any order and however many values of any kind were masked in between. IP addresses stay in their family, host names keep their declared type, and two anonymizers do not influence each other. What a value is masked as depends only on which earlier values of its kind were equal to it or different (for IP addresses: and on the families), not on the values themselves.',
 ['histories'],'every sequence of masking operations, of any length',
 'Tests mask three values of each kind, twice.',
 [AN],[('per-kind maps and counters',AN)],['return values of the mask operations'],[('maps and counters','what was masked so far',AN)])
p('C20','An anonymized session hides what it must and keeps everything else',
 'In the anonymized copy of a session every origin user name, every address (origin, connections at both levels, candidates, related and remote candidates, rtcp), every candidate, related and remote-candidate port, ICE user name (also inside candidates), ICE password, fingerprint and cname is replaced by what the anonymizer gives for it, at session level and in every media section. All other values, the number and order of lines and sections stay the same, the original is unchanged, and anonymizing equal values again, in this or another session with the same anonymizer, gives equal results.',
 ['inputs','histories'],'every accepted session and every sequence of sessions anonymized with one anonymizer',
 'Tests mask single attributes; the session-level test iterates over an empty list of media sections.',
 [AN,L,A,M],[('masked_clone implementations','src/lib.rs, src/media_type.rs, src/attribute_type.rs')],['public fields of the anonymized copy'])
p('C21','Editing a media section has exactly the documented effect',
 'Adding an attribute appends it; setting one removes all of its kind and appends it; removing removes exactly the attributes of that kind; removing codecs empties the format list and removes exactly rtpmap, fmtp, rtcp-fb, sctpmap and sctp-port; adding a codec appends its payload type to the formats and its rtpmap to the attributes; adding a data channel sets kind, formats and the attributes of its protocol; setters replace, and look-ups return the attributes of the kind asked for, in order. Nothing else changes, in any sequence of these operations.',
 ['histories'],'every sequence of editing operations on every kind of media section',
 'Tests apply one or two operations to a fixed section.',
 [M,A],[('SdpMedia methods',M),('kind of an attribute',A)],['getters and printed form after every operation'],[('media line, connection, bandwidth, attributes','the section being edited',M)])
p('C22','A session built through the API is what was put in and survives print and parse',
 'Each building operation on a session (connection, bandwidth, timing, attributes, media sections) has exactly its own effect and nothing else, a refused operation has none, and look-ups return the first attribute of the kind asked for. A session built in any order with valid values, with timing, connections and at least one format per media section, prints to text that parses in strict mode to a session with the same content.',
 ['histories'],'every sequence of building operations',
 'Tests build one or two sessions and look at counts.',
 [L,M],[('SdpSession methods',L),('Display implementations','src/lib.rs, src/media_type.rs, src/attribute_type.rs')],['public fields after every operation; session parsed from the printed text'])
p('C23','Results depend only on the input, not on earlier calls or other threads',
 'Parsing, printing and masking with a fresh anonymizer give the same result for the same input, whatever was parsed, printed or masked before in the process and whatever other threads do at the same time.',
 ['histories','schedules'],'every sequence of calls on every combination of inputs, and every arrangement of calls over threads',
 'Tests never compare a result with that of the same call in another history.',
 [L,A,M,AD,AN],[('no global or thread-local state','src/')],['results of repeated calls'])
p('C24','Every build configuration behaves the same, and the JSON form is faithful',
 'With any combination of the optional features, and with or without overflow checks and debug assertions, the same input gives the same verdict, session, warnings and printed text. With serialization enabled, the JSON form of a session contains every field with its value, in order, and that of an error contains its kind, message, line text (if any) and line number.',
 ['configurations','inputs'],'every combination of features, optimised builds with and without checks; every accepted session and every error',
 'The test suite runs with all features only, and serializes three errors.',
 [E,L,A,M,AD,'Cargo.toml'],[('cfg_attr derives','src/'),('hand-written error serialization',E)],['transcripts of each build; JSON text'])
p('C25','Every attribute value that can be built prints to text that reads back as it',
 'For every attribute built through the API from values allowed by its syntax, the printed form starts with the name of the attribute, parses as this attribute, and yields the same value in every field; flags print as their name only. The one exception is a format-parameter attribute with only default values, which prints as nothing.',
 ['inputs'],'every attribute and every combination of its field values, optional parts and list lengths',
 'Tests print attributes that were parsed from text in its most common form.',
 [A,AD],[('Display and FromStr of each attribute',A)],['printed text and re-parsed fields'])
p('C26','Every public entry point and helper agrees with parsing the whole document',
 'A single line, an attribute, a media value, a network type, an address type or an address parsed by its own public function gives the same value, or is refused in the same class, as when it stands in a document; handing the parsed lines of a document to the line-list parsers of session and media gives the same session or a refusal at the same line number, however the session-level list is divided over calls, and these parsers refuse a line of the wrong level. The fingerprint helpers (hash by name, octet count, octets, conversion from parts) agree with each other and with the attribute. Constructors give values whose fields are those passed and whose optional parts are absent. The kind of an attribute prints as its name, and every error prints its cause, line text and number and gives its cause as its source.',
 ['inputs'],'every text, every list of lines and every division of it, every hash and octet string',
 'Tests call each of these functions with a few texts and never compare two ways to the same value.',
 [L,A,M,AD,N,E],[('parse_sdp_line, parse_session_vector, parse_media_vector, parse_media, parse_attribute, parse_network_type, parse_address_type, parse_unicast_address','src/lib.rs, src/media_type.rs, src/attribute_type.rs, src/network.rs'),('Display and source of errors',E),('fingerprint helpers and constructors',A)],['values, classes of refusal, printed and source form of errors'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
