import json
P=[]
D='validators-derive/src/validator_handlers/'
def p(id,title,st,over,qt,why,files,mech,obs=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=obs or ["parse_string / parse_str / validate_str of a derived type"]
    a["hook_needed"]=None
    assert len(title)<=80,title
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})

p("C01","Domain validators accept exactly the permitted domains and keep their parts",
 "For every combination of the ipv4, local, port and at_least_two_labels settings, a domain validator accepts a string exactly when the part before an optional ':port' is an IDNA-valid ASCII/STD3 domain name within the DNS length limits (one trailing dot allowed), which may be a dotted IPv4 address, the port (if any) is a decimal number without sign that fits in 16 bits, and each setting (Must, Allow, Disallow) permits the value found. On acceptance the stored domain is the normalised (lower-case, punycode) domain without the port, the stored port is that number, and the is_ipv4 / is_local flags, where the struct has them, tell the truth.",
 ["inputs","configurations"],"all 81 setting combinations x all strings",
 "tests try about a dozen strings per setting combination; label lengths, dots, ports, IPv4 look-alikes and IDNA interact in combinations the samples never reach",
 [D+"domain/mod.rs","validators/src/functions/domain.rs","validators/src/functions/ipv4.rs"],
 [("domain handler: port split, IPv4 special case, idna config, TriAllow checks",D+"domain/mod.rs"),("is_local_domain / is_at_least_two_labels_domain","validators/src/functions/domain.rs")])
p("C02","Host validators accept exactly the permitted hosts and keep their parts",
 "For every combination of the local, port and at_least_two_labels settings, a host validator accepts a string exactly when it is an IPv4 address, an IPv6 address (bracketed, or bare when no port follows), or an IDNA-valid domain name without trailing dot, followed by an optional ':port', and every setting permits the value found. On acceptance the stored host, port and is_local flag are those of the input, and the host displays as its text (without brackets).",
 ["inputs","configurations"],"all 27 setting combinations x all strings",
 "tests sample about a dozen strings; the colon is shared by ports and IPv6 and the ambiguity is only settled by trying every arrangement",
 [D+"host/mod.rs","validators/src/models/host.rs"],[("host handler: IPv6/IPv4/domain dispatch and port split",D+"host/mod.rs")])
p("C03","IP validators accept exactly the permitted addresses and keep address and port",
 "For every combination of local and port settings, the ip, ipv4 and ipv6 validators accept a string exactly when it is a textual IP address of the right family (an IPv6 address may be bracketed, and must be when a port follows) with an optional decimal port without sign that fits in 16 bits, and both settings permit the value found. On acceptance the stored address and port equal those of the input.",
 ["inputs","configurations"],"3 validators x 9 setting combinations x all strings",
 "tests try a handful of addresses per combination; octet bounds, compression forms, brackets and port edges are not covered jointly",
 [D+"ip/mod.rs",D+"ipv4/mod.rs",D+"ipv6/mod.rs","validators/src/functions/ip.rs"],[("port split and address parse",D+"ip/mod.rs")])
p("C04","URI-authority text parses back to the same value",
 "For every value accepted by a domain, host, ip, ipv4 or ipv6 validator, its URI-authority string (brackets around IPv6, ':port' exactly when a port is stored) is accepted again by the same validator and yields an equal value (for domains, up to the trailing dot that the text omits) and the same string. For domains, 'is fully qualified' holds exactly when the stored domain ends with a dot, and the non-fully-qualified form is that domain without the dot.",
 ["inputs","configurations"],"all setting combinations x all accepted strings",
 "tests compare single hand-written strings; nothing ties output back to input across the configurations, which each have their own generated code",
 [D+"domain/mod.rs",D+"host/mod.rs",D+"ip/mod.rs",D+"ipv4/mod.rs",D+"ipv6/mod.rs","validators/src/traits/to_uri_authority_string.rs","validators/src/traits/qualify_domain.rs"],
 [("generated ToUriAuthorityString / QualifyDomain impls",D+"domain/mod.rs")],["to_uri_authority_string","is_fully_qualified","get_domain_non_fully_qualified","Display of Host"])
p("C05","Email validators accept exactly the permitted addresses and split them right",
 "For every combination of the comment, ip, local, at_least_two_labels and non_ascii settings, an email validator accepts a string exactly when it is: optional '(comment)', local part, optional '(comment)', '@', optional '(comment)', domain or bracketed IP literal, optional '(comment)', and nothing else; where a comment is any text without ')', an unquoted local part is atext characters with single interior dots, a quoted local part may also contain blanks, any dots and backslash-escaped specials, local part with its quotes and comments is at most 64 bytes, domain part with comments at most 255 bytes both as written and with its host normalised, and each setting permits what is found (non_ascii concerns the local part). On acceptance local part (without the surrounding quotes), host, comments and is_local flag are those of the input, and the quoting flag is set exactly when the local part could not be written unquoted; no input of any length or content panics.",
 ["inputs","configurations"],"all 108 setting combinations x all strings",
 "tests try 17 addresses; the hand-written scanner has escape, dot, comment and byte-position state whose combinations (position 62..65 x quote x comment x non-ASCII) are out of reach of samples",
 [D+"email/mod.rs"],[("hand-written byte scanner v_parse_str",D+"email/mod.rs")],
 state=[("local_part_length / p","byte position while scanning, drives the 64-byte limit",D+"email/mod.rs"),("escaping, last_dot, need_quoted","scanner flags",D+"email/mod.rs")])
p("C06","Email text parses back to the same value",
 "For every value accepted by an email validator, its email string is accepted again by the same validator and yields equal local part, quoting flag, host and comments, and the same string again.",
 ["inputs","configurations"],"all setting combinations x all accepted strings",
 "no test prints an email with a quoted local part or comments and parses it back",
 [D+"email/mod.rs","validators/src/traits/to_email_string.rs"],[("generated ToEmailString impls",D+"email/mod.rs")],["to_email_string"])
p("C07","HTTP and FTP URL validators judge scheme and host locality correctly",
 "An http_url (http_ftp_url) validator accepts a string exactly when it starts, ignoring case, with 'http:' or 'https:' (or 'ftp:'), the URL standard parser accepts it, and the local setting permits its host, where a host is local exactly when it is 'localhost' (optionally with trailing dot), or an IPv4/IPv6 address that is not globally reachable. On acceptance the stored URL equals the standard parser's result, and the https flag or protocol tells the truth.",
 ["inputs","configurations"],"2 validators x 3 local settings x all strings",
 "tests try fewer than ten URLs; scheme spelling, credentials, brackets, encodings and host forms combine freely",
 [D+"http_url/mod.rs",D+"http_ftp_url/mod.rs","validators/src/models/protocol.rs"],[("scheme prefix check and host locality check",D+"http_url/mod.rs"),("Protocol model","validators/src/models/protocol.rs")])
p("C08","Base32/Base64 text validators accept exactly well-formed encodings",
 "The base32, base64 and base64_url validators, under each padding setting, accept exactly the strings over their alphabet whose length and '=' padding are those of an encoding of some byte string (padding complete under Must, absent under Disallow, either under Allow; the empty string is rejected) and keep the accepted text unchanged, whether given as text or bytes. An otherwise well-formed input refused because of its padding is reported as PaddingMust or PaddingDisallow, whichever is the setting; neither is reported under another setting.",
 ["inputs","configurations"],"3 validators x 3 padding settings x all byte strings",
 "tests try about three strings each; every length residue x padding amount x alphabet boundary needs its own sample",
 [D+"base32/mod.rs",D+"base64/mod.rs",D+"base64_url/mod.rs"],[("character loop and padding arithmetic",D+"base64/mod.rs")],["parse_string, parse_str, validate_str, parse_vec_u8, parse_u8_slice, validate_u8_slice"])
p("C09","Decoded Base32/Base64 validators decode losslessly and agree with validation",
 "The base32_decoded, base64_decoded and base64_url_decoded validators accept an input exactly when it is a canonical padded/unpadded encoding permitted by the padding setting, and then yield exactly the bytes whose encoding is that input; every non-empty byte string's encoding is accepted and decodes to it. Validating without parsing gives the same verdict, for text and for bytes. A canonical encoding refused because of its padding is reported as PaddingMust or PaddingDisallow, whichever is the setting; neither is reported under another setting.",
 ["inputs","configurations"],"3 validators x 3 padding settings x all byte strings and their encodings",
 "tests decode one sample each; the parse and validate paths are generated separately and their agreement on malformed padding and trailing bits is never compared",
 [D+"base32_decoded/mod.rs",D+"base64_decoded/mod.rs",D+"base64_url_decoded/mod.rs"],[("structural check plus data-encoding decode",D+"base64_decoded/mod.rs")],["parse_* / validate_* on text and bytes","CollectionLength of the decoded value"])
p("C10","Line and text validators reject exactly the forbidden control characters",
 "A line validator rejects every string containing a control character U+0000-U+0008, U+000A-U+001F or U+007F, and a text validator every string containing U+0000-U+0008, U+000C, U+000E-U+001F or U+007F, at whatever position and under every length setting; every other string within the length limits is accepted and stored unchanged.",
 ["inputs","configurations"],"all length-setting shapes x all strings (every Unicode scalar value at every position)",
 "tests try one NUL at the end of one string; the generated code has a separate scan for each combination of length settings",
 [D+"line/mod.rs",D+"text/mod.rs"],[("per-configuration scan loops",D+"line/mod.rs")])
p("C11","Line and text length limits count bytes or characters exactly",
 "Under byte_length or char_length settings, a line or text validator accepts an otherwise legal string exactly when min <= length <= max and the length after trimming leading and trailing Unicode white space is at least trimmed_min, for whichever of the three limits are given. A string that is too long is reported as too large, one that is too short (before or after trimming) as too small.",
 ["inputs","configurations"],"all presence combinations of min / trimmed_min / max in both units x all strings",
 "tests use one or two settings and short ASCII strings; multi-byte characters, interior versus outer white space and the exact limits are untested",
 [D+"line/mod.rs",D+"text/mod.rs"],[("length counting with early exits",D+"text/mod.rs")])
p("C12","Length validators bound every collection type exactly",
 "A length validator accepts a collection of any supported type exactly when its number of elements lies within the inclusive min..max limits given, stores it unchanged, and reports too small or too large accordingly; the length it then reports itself equals that of the collection.",
 ["inputs","configurations"],"all limit combinations x collections of all supported types and sizes",
 "tests use one Vec; maps, sets, heaps, decoded-bytes newtypes and nested validators are not exercised at the limits",
 [D+"length/mod.rs","validators/src/traits/collection_length.rs"],[("CollectionLength impls","validators/src/traits/collection_length.rs"),("length handler",D+"length/mod.rs")],["parse_collection / validate_collection / len"])
p("C13","MAC address validators accept exactly the configured notation",
 "For every case setting and separator setting (the separator being an ASCII character that is not a hexadecimal digit), a mac_address validator accepts exactly twelve hexadecimal digits in the permitted letter case grouped by twos with the separator required, forbidden or optional at each of the five boundaries, yields their 48-bit value, and its text form (in the configured case and separator) is accepted again with the same value. An otherwise well-formed input refused because of its separators is reported as SeparatorMust or SeparatorDisallow, whichever is the setting; neither is reported under another setting.",
 ["inputs","configurations"],"3 case settings x separator settings x all byte strings",
 "tests try a few whole addresses; per-position separators, case mixes and lengths are combinatorial",
 [D+"mac_address/mod.rs","validators/src/traits/to_mac_address_string.rs"],[("hex scan with optional separators",D+"mac_address/mod.rs")],["parse_string / parse_str / validate_str / to_mac_address_string"])
p("C14","UUID validators accept exactly the configured notation",
 "For every case setting and separator setting (the separator being an ASCII character that is not a hexadecimal digit), a uuid validator accepts exactly thirty-two hexadecimal digits in the permitted letter case in 8-4-4-4-12 groups with the separator required, forbidden or optional at each of the four boundaries, yields their 128-bit value, and its text form (in the configured case and separator) is accepted again with the same value. An otherwise well-formed input refused because of its separators is reported as SeparatorMust or SeparatorDisallow, whichever is the setting; neither is reported under another setting.",
 ["inputs","configurations"],"3 case settings x separator settings x all byte strings",
 "tests try a few whole UUIDs; per-position separators, case mixes and lengths are combinatorial",
 [D+"uuid/mod.rs","validators/src/traits/to_uuid_string.rs"],[("hex scan with optional separators",D+"uuid/mod.rs")],["parse_string / parse_str / validate_str / to_uuid_string"])
p("C15","Number validators enforce range and NaN settings",
 "For every nan setting and range setting (Unlimited, Inside, Outside; inclusive or not; bounds given or not), a number validator accepts a 32/64-bit float, or text that parses as one, exactly when NaN is permitted or required as configured and a non-NaN value satisfies the range, infinities and signed zero included. Violations are reported as too small, too large, forbidden, NaN required or NaN not allowed accordingly, and accepted values are stored unchanged in the struct's width.",
 ["inputs","configurations"],"nan x range settings x all float values and texts",
 "tests try a few values; boundary neighbours, infinities, -0.0, subnormals and f32 rounding per setting are not covered",
 [D+"number/mod.rs","validators-derive/src/common/range.rs"],[("range comparison code generation",D+"number/mod.rs"),("range parameters","validators-derive/src/common/range.rs")],["parse_string / parse_f64 / parse_f32 and validate_ forms"])
p("C16","Integer validators enforce type width and range settings",
 "For every integer width and range setting, a signed_integer or unsigned_integer validator accepts an integer given through any integer width, or decimal text, exactly when it fits the stored type and satisfies the range, and stores that value. Values below are reported as too small, above as too large, inside an excluded range as forbidden.",
 ["inputs","configurations"],"12 integer types x range settings x all 128-bit integers",
 "tests try a few values in one width; the limits of each width crossed with range limits and with the entry point used are not covered",
 [D+"signed_integer/mod.rs",D+"unsigned_integer/mod.rs","validators-derive/src/common/range.rs","validators/src/traits/validate_signed_integer.rs","validators/src/traits/validate_unsigned_integer.rs"],[("width conversion and range comparison",D+"signed_integer/mod.rs"),("default methods forwarding widths","validators/src/traits/validate_signed_integer.rs")],["parse_string, parse_i8..parse_i128, parse_u8..parse_u128, *size and validate_ forms"])
p("C17","Boolean validators recognise exactly the documented spellings",
 "A boolean validator maps y, yes, t, true, on and 1 (any letter case) to true, and n, no, f, false, off and 0 to false, the characters and integers 1/0 and t/f/y/n likewise, booleans to themselves, and rejects every other string, character and integer.",
 ["inputs"],"all strings, all Unicode scalar values, all integers",
 "tests list the accepted spellings but cannot show that nothing else is accepted",
 [D+"boolean/mod.rs"],[("length-dispatched byte matching",D+"boolean/mod.rs")],["parse_string, parse_char, parse_i*/u*, parse_bool and validate_ forms"])
p("C18","Bit and byte size validators read units correctly and enforce the range",
 "A bit or byte validator accepts a string exactly when it is a non-negative number with an optional recognised unit whose size, as read by the size library, satisfies the range setting, honouring the ignore-case setting; integers are accepted exactly when they satisfy the range. The stored size is that size.",
 ["inputs","configurations"],"range and case settings x all strings and integers",
 "tests try three strings; unit spellings x decimal points x range limits x the integer entry points are not covered",
 [D+"bit/mod.rs",D+"byte/mod.rs"],[("byte-unit delegation and range check",D+"bit/mod.rs")],["parse_string / parse_str / parse_u* and validate_ forms"])
p("C19","All entry points of a validator agree and none panics",
 "For every validator and every input, owned-text parsing, borrowed-text parsing and validation without parsing give the same verdict and the same error, and equal parsed values; the byte, integer, float, character and boolean entry points likewise agree with each other across widths, and no input makes any of them panic or hang.",
 ["inputs","configurations"],"all validators x all inputs, arbitrary bytes and Unicode included",
 "tests mostly call one entry point; each is generated separately, and panics hide at multi-byte boundaries and arithmetic edges",
 [D,"validators/src/traits/"],[("separately generated parse and validate bodies",D),("default trait methods","validators/src/traits/")],["all trait methods of every validator"])
p("C20","Serde deserialization applies the validator; serialization reads back",
 "Deserializing any validator from text, bytes, or the integer, float, boolean and character kinds it supports (as JSON or as a plain serde value) succeeds exactly when the corresponding parse entry point accepts the value, and gives an equal value. Serializing a value of a text-like, numeric, boolean or collection validator and deserializing the result gives an equal value, domains up to the trailing dot that their text omits (decoded-bytes, json and phone validators, which serialize their content in another form, excepted; so are formats which cannot carry the value itself, such as JSON for non-finite numbers and self-describing 128-bit integers). The validators which ask the format for one definite kind (ip, host, email, url, text, line, regex, mac_address, uuid, semver, byte and bit) also read back from formats which do not describe themselves.",
 ["inputs","configurations"],"all validators with serde support x serde value kinds x inputs",
 "tests deserialize nothing for most validators; the visitor implementations are generated per validator",
 [D,"validators/src/result/serde_traits.rs"],[("generated Serialize / Deserialize impls",D)],["serde Deserialize / Serialize impls, through JSON and value deserializers"])
p("C21","The Result wrapper captures exactly the validator's outcome",
 "validators::Result holds the same value or the same error that the validator itself would return, whether it is made by conversion or parsing from text, bytes, numbers, characters, booleans or JSON values, or by deserialization (where an invalid value is captured, not raised), and its conversions to and from the standard result and its query methods preserve that outcome.",
 ["inputs","configurations"],"all validators x conversion sources x inputs",
 "tests cover only some conversions with one valid and one invalid sample",
 ["validators/src/result/mod.rs","validators/src/result/built_in_traits.rs","validators/src/result/serde_traits.rs"],[("wrapper constructors and conversions","validators/src/result/built_in_traits.rs"),("wrapper Deserialize impl","validators/src/result/serde_traits.rs")],["validators::Result conversions, FromStr, Deserialize"])
p("C22","Rocket form fields and parameters apply the validator",
 "With the rocket support, a form value or a path parameter is accepted exactly when the validator's text entry point accepts the (decoded) value, and the value obtained is equal; the Result wrapper captures a rejection instead of failing the request.",
 ["inputs","configurations"],"all validators with rocket support x all field and parameter strings",
 "tests check a few fields; the implementations are generated per validator",
 [D,"validators/src/result/rocket_traits.rs"],[("generated FromFormField / FromParam impls",D),("wrapper impls","validators/src/result/rocket_traits.rs")],["rocket FromFormField::from_value, FromParam::from_param"])
p("C23","Every validator error becomes a 400 response with its message under axum",
 "With the axum support, every error that any validator can return converts into a response with status 400 Bad Request whose body is the error's display text.",
 ["inputs","configurations"],"every error type x every error value reachable",
 "tests cover one or two error types",
 ["validators/src/errors/axum_traits.rs"],[("IntoResponse impls","validators/src/errors/axum_traits.rs")],["IntoResponse for each error type"])
p("C24","Local hosts are classified the same and correctly everywhere",
 "An IPv4 address is local exactly when it is private, loopback, link-local, broadcast, documentation or unspecified; an IPv6 address exactly when it is unspecified, loopback, link-local, site-local, unique-local, documentation, a multicast of non-global scope, or embeds a local IPv4 address; a domain exactly when it is 'localhost' in any case with an optional trailing dot. Every validator with a local setting applies this same classification.",
 ["inputs","configurations"],"all addresses (each prefix boundary) x all validators with a local setting",
 "tests sample a few addresses; every block boundary on both sides needs checking, in seven validators",
 ["validators/src/functions/ipv4.rs","validators/src/functions/ipv6.rs","validators/src/functions/ip.rs","validators/src/functions/domain.rs"],[("is_local_ipv4 / is_local_ipv6 / is_local_domain","validators/src/functions/")],["local(Must) / local(Disallow) verdicts of domain, host, ip, ipv4, ipv6, email, http_url, http_ftp_url"])
p("C25","The derive accepts exactly the meaningful attribute programs",
 "A derive compiles exactly when it names one validator, with each known parameter at most once, in its right form and with a meaningful value (non-empty ranges, ordered limits, a required regex present and valid, known non-repeated countries, known serde/rocket options, no contradictory settings unless the conflict parameter allows them), on a struct of the shape that validator needs, with no such attribute on its fields. Every other attribute is reported as a compile-time error, never silently accepted or ignored.",
 ["programs"],"all attribute programs over the parameter grammar",
 "the test suite contains only programs that compile, so acceptance of meaningless programs is never observed",
 ["validators-derive/src/","validators-derive/src/panic.rs","validators-derive/src/common/"],[("attribute parsing of each handler",D),("shared parameter parsing","validators-derive/src/common/")],["rustc accepting or rejecting a derive"])
p("C26","Delegating validators agree exactly with the libraries they wrap",
 "The regex, semver, semver_req, url and json validators accept a string exactly when the wrapped regular expression, version, requirement, URL or JSON parser does, and store exactly its result (regex: the text unchanged); JSON text produced from a json value, minified or beautified, is what the JSON library prints and parses back to an equal value (numbers with a fraction or exponent as exactly as its parser reads them).",
 ["inputs","configurations"],"5 validators x all strings (json: all numbers and values too)",
 "tests try two or three strings each",
 [D+"regex/mod.rs",D+"semver/mod.rs",D+"semver_req/mod.rs",D+"url/mod.rs",D+"json/mod.rs"],[("delegation to the wrapped parser",D+"url/mod.rs")],["parse_* / validate_* and to_*_json_string"])
p("C27","Phone validators accept exactly the union of their countries",
 "A phone validator without countries accepts exactly valid international numbers; with one country exactly the numbers valid for it; with several countries exactly the numbers at least one of them accepts on its own, yielding one entry per accepting country equal to what that country's validator yields.",
 ["inputs","configurations"],"sets of countries x all strings",
 "tests try three numbers for one pair of countries",
 [D+"phone/mod.rs"],[("per-country parse loop",D+"phone/mod.rs")])
p("C28","Every validator works with only its own feature enabled",
 "For every validator, a crate that disables default features and enables only the derive feature and that validator's feature (alone, or with std, serde or the other optional features) builds, can derive and use it, and gets on every input what it gets with everything enabled; validators that do not need the standard library can be derived in a no_std crate.",
 ["configurations","programs"],"31 validators x feature sets",
 "the test suite is only ever built with all features enabled",
 ["validators/Cargo.toml","validators/src/lib.rs","validators-derive/src/","validators/src/errors/mod.rs"],[("cfg gating of modules and re-exports","validators/src/lib.rs")],["cargo check of a crate using the feature set"])
p("C29","An error names a setting the input really violates",
 "When an otherwise well-formed domain, host, IP, email or URL input is rejected because of its settings, the error names a setting (ipv4/ip, local, port, at_least_two_labels, comment; Must or Disallow) that the input actually violates.",
 ["inputs","configurations"],"all setting combinations x all strings",
 "tests only check whether an error occurs, not which",
 [D+"domain/mod.rs",D+"host/mod.rs",D+"ip/mod.rs",D+"email/mod.rs",D+"http_url/mod.rs","validators/src/errors/"],[("TriAllow checks returning specific errors",D+"domain/mod.rs")])
p("C30","Omitted, reordered or respelled parameters do not change a validator",
 "Leaving out a parameter is the same as writing its documented default, the order of parameters does not matter, and 'name = value' means the same as 'name(value)': validators differing only in this give the same verdict and value on every input.",
 ["programs","inputs"],"all parameter subsets and orders x inputs",
 "tests compile one spelling per validator",
 ["validators-derive/src/common/",D],[("parameter defaults of each handler",D),("shared parameter parsing","validators-derive/src/common/")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
try:
    import jsonschema
except ImportError: raise SystemExit
sc=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,sc)
print(len(P))
