"""Writes MANIFEST.json. Run from /verif: python3 tools/manifest.py"""
import json
T="bounded-exhaustive explicit-state exploration of the real code (all token sequences up to a depth), conformance of every state with an executable reference model"
TP="exhaustive enumeration of all attribute programs within bounds, each compiled by the real derive and compared with an accept/reject model"
L="model_checking"
B="Exhaustive within the stated alphabets, depths and families (listed in the evidence file); inputs beyond them are not covered. "
C={
"C01":(T,B+"81 setting combinations; IDNA processing of non-ASCII / xn-- labels is taken from the idna crate."),
"C02":(T,B+"27 setting combinations; IDNA as in C01."),
"C03":(T,B+"27 configurations of ip, ipv4 and ipv6; address grammar in an independent model."),
"C04":(T,B+"135 configurations; every accepted state is printed and parsed again, all 65536 ports."),
"C05":(T,B+"108 setting combinations; recursive-descent model of the address grammar with the length limits."),
"C06":(T,B+"108 setting combinations; every accepted state is printed and parsed again."),
"C07":(T,B+"6 configurations; the url crate is the reference for URL parsing."),
"C08":(T,B+"3 validators x 3 padding settings; encoder and reader written independently."),
"C09":(T,B+"3 validators x 3 padding settings; encoder and reader written independently."),
"C10":(T,B+"every Unicode scalar value at several positions under every length-setting shape."),
"C11":(T,B+"290 limit combinations in both units."),
"C12":(T,B+"15 collection types x all limit combinations of a grid."),
"C13":(T,B+"21 case x separator configurations with 10 separators in every space; all 212 separator configurations in one."),
"C14":(T,B+"21 case x separator configurations with 10 separators in every space; all 212 separator configurations in one."),
"C15":(T,B+"both widths, 3 nan settings, all ranges over two sets of limits; Rust's float parser is the reference for text. The thorough run covers all 2^32 single-precision values on a subset of the configurations."),
"C16":(T,B+"12 integer types, all ranges over a set of limits, every entry point."),
"C17":(T,B+"all scalar values, all ASCII strings to length 3."),
"C18":(T,B+"the byte-unit crate is the reference for reading sizes; without and with its 128-bit sizes (byte-unit-u128)."),
"C19":(T,B+"89 derive sites covering every shape of all 31 validators; the entry points are compared with each other."),
"C20":(T,B+"89 derive sites and 5 collections; every primitive serde kind through a value format of our own (human-readable and not), one which does not describe itself, and serde_json; the parse entry points are the oracle."),
"C21":(T,B+"89 derive sites and 5 collections; every conversion, accessor and deserialization of the wrapper against the entry point."),
"C22":(T,B+"every text validator: FromFormField, a form, a list in a form, FromParam and the Result wrapper in both against parse_str."),
"C23":(T,B+"every error returned while exploring 89 derive sites is turned into a response; the error variants reached are listed in the evidence."),
"C24":(T,B+"every block boundary, single-bit neighbour and first/second group of the address space, on every validator with a local setting."),
"C25":(TP,B+"97,972 attribute programs over two feature sets, each accepted or refused by rustc running the real derive; accept/reject compared with a model of the attribute language. Forms the documentation leaves open are not judged (listed in DESIGN.md)."),
"C26":(T,B+"the wrapped crates are the reference; 8 patterns in both spellings, 13 JSON types."),
"C27":(T,B+"the phonenumber crate is the reference for one country; every country alone and 16 sets (18 thorough)."),
"C30":(TP.replace("compared with an accept/reject model","run on bounded-exhaustive words and compared with the site that writes everything out"),B+"326 groups of derive sites; sites are generated, compiled by the real derive and executed."),
"C28":("exhaustive enumeration of feature sets; every set is built by cargo and the resulting program run on all bounded words, compared with the build with everything enabled",B+"31 validators x 8 feature sets (16 thorough), pairs of network validators (all pairs thorough), without and with no_std; every outcome compared with the all-features build."),
"C29":(T,B+"249 configurations; the error must name a setting the model finds violated."),
}
N={f"C{i:02d}":"check not built yet" for i in range(1,31)}
for k in C: N.pop(k,None)
m={"version":1,"setup_cmd":"./setup.sh",
"hooks":{"guard":"none","enable":"no hooks: every check uses the public API of the crates in /repo","source_commits":[]},
"checks":[{"property":k,"quick_cmd":f"./run.sh {k}","thorough_cmd":f"./run.sh {k} --thorough","technique":t,"level":L,"level_note":n} for k,(t,n) in sorted(C.items())],
"not_applicable":[{"property":k,"reason":r} for k,r in sorted(N.items())],
"notes":"All checks go through run.sh, which rebuilds the harness crate against /repo's working tree. See DESIGN.md."}
json.dump(m,open("MANIFEST.json","w"),indent=1)
