import json
P=[]
def p(id,title,st,over,q,why,files,mech,obs,state=None,hook=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs,hook_needed=hook))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)

G="src/grammar.rs"; A="src/grammar.abnf"; L="src/lib.rs"; N="src/normal/mod.rs"; U="src/utils.rs"
EXT="src/normal/extension.rs"; VAR="src/normal/variant.rs"; PU="src/normal/private_use.rs"; GF="src/grandfathered.rs"
LM="src/normal/language/mod.rs"; LX="src/normal/language/extlang.rs"; LP="src/normal/language/primary.rs"; SC="src/normal/script.rs"; RG="src/normal/region.rs"
ALL=[L,N,U,EXT,VAR,PU,GF,LM,LX,LP,SC,RG,G]

p("C01","Language tags are accepted exactly when RFC 5646 calls them well-formed",
 "Parsing a string or byte sequence as a language tag succeeds if and only if the input is derivable from the RFC 5646 section 2.1 `Language-Tag` production (normal tags, private-use tags and the 26 grandfathered tags), letters matched without regard to ASCII case. Everything else is rejected: the empty input, stray or doubled hyphens, over-long or over-short subtags, misplaced subtags, non-ASCII characters and any byte sequence that is not UTF-8. There is no length limit.",
 ["inputs"],"every byte sequence, of any length, handed to any way of building a language tag",
 "The tests try about 180 fixed strings, never bytes that are not UTF-8, and touch a small share of the transitions of a 1000-line generated automaton.",
 [L,G,A],[("generated automaton for Language-Tag","src/grammar.rs LanguageTag"),("case alternatives spelled out per transition","src/grammar.rs"),("byte decoding before each step","src/grammar.rs validate_bytes"),],
 ["LangTag::new","LangTag::from_bytes","LangTag::from_str","LangTagBuf::new"])

p("C02","Every component type accepts exactly its own grammar production",
 "For each component type (normal tag, private use, private-use subtag, language, primary language, extended-language list and subtag, script, region, variant, variant list, extension, extension list, extension subtag, extension singleton, grandfathered tag), parsing succeeds if and only if the input matches that component's RFC 5646 production, case-insensitively. A primary language is 2 to 8 letters; a list of variants or of extensions may be empty; every other component needs at least one character. Anything else, including non-ASCII text and bytes that are not UTF-8, is rejected.",
 ["inputs"],"every byte sequence and every component type",
 "No test builds any component type from text directly, apart from a handful of valid normal tags.",
 [G,A]+[N,PU,LM,LP,LX,SC,RG,VAR,EXT,GF],[("one generated automaton per production","src/grammar.rs"),("singleton predicate","src/normal/extension.rs Singleton::new"),("table scan","src/grandfathered.rs TryFrom")],
 ["the constructor of every component type"])

p("C03","A normal tag splits into its components losslessly and only one way",
 "For every well-formed normal tag the reported language (primary and extended parts), script, region, variants, extensions and private-use part are exactly the ones the RFC 5646 grammar assigns, each reported absent or empty when the tag has none. Joined in that order with hyphens, the parts that are present spell out the original tag. The answers are the same whether asked of the tag itself or of its typed normal form; tags that are not normal report no script, region, variants, extensions or private-use part.",
 ["inputs"],"every well-formed tag: all combinations of present and absent components, all subtag lengths and counts",
 "Tests query one or two components of five tags, all of which have every following component non-empty, so the boundary after the last component is never crossed.",
 [N,L,LM],[("offset arithmetic chaining one component's end into the next one's start","src/normal/mod.rs language_end, script_range, region_range, variants_range, extensions_range, private_use_offset"),("segment scan","src/normal/mod.rs find_list_end")],
 ["NormalLangTag::language/script/region/variants/extensions/private_use","the same accessors on LangTag"])

p("C04","Each tag has exactly one kind, and every view of it agrees",
 "Every language tag has exactly one kind: normal if it matches the `langtag` production (this includes the nine regular grandfathered tags), otherwise private use if it starts with the `x` singleton, otherwise grandfathered. The kind, the typed view and the typed view's own queries agree with each other and carry the tag's text, or the right registered grandfathered entry. Asking the untyped tag whether it is, or can be viewed as, normal, private use or grandfathered answers by membership in that form alone (so a regular grandfathered tag is both normal and grandfathered), and the language is reported for every normal tag and for no other.",
 ["inputs"],"every well-formed tag, in any letter case",
 "Tests check is_normal on one tag and the language of a few; no test calls kind or the typed view.",
 [L,GF],[("ordered classification","src/lib.rs LangTag::as_typed"),("fallback that assumes the three forms cover everything","src/lib.rs as_typed unwrap")],
 ["LangTag::kind","LangTag::as_typed","TypedLangTag methods","LangTag::is_*/as_*","Kind::is_*"])

p("C05","Iterating a component list yields exactly its subtags, in order, from each end",
 "Iterating a list of variants, extended-language subtags, extensions, an extension's subtags or private-use subtags yields exactly the hyphen-separated elements of that list, in order and once each, and joined again they spell out the list. Any mix of the standard iterator operations (next, nth, count, last, size hints, skipping, and for variants taking from either end, first and last) behaves as on the plain sequence, and an exhausted iterator stays exhausted. An empty list yields nothing.",
 ["inputs","histories"],"every list and every sequence of iterator operations on it",
 "Tests walk one list per type front to back; none mixes directions, uses other operations or continues past the end.",
 [VAR,EXT,PU,LX,LM,N,L],[("offset and end cursors","src/normal/variant.rs VariantsIter"),("segment search","src/normal/mod.rs find_segment_end, find_segment_start"),("extension boundary search","src/normal/extension.rs ExtensionsIter")],
 ["the iterators returned by iter(), extension_subtags(), private_use_subtags(), iter_extension()"],
 [("cursor pair","front and back positions in the list text","src/normal/variant.rs VariantsIter")])

p("C06","Looking up an extension by singleton finds the first one with that singleton",
 "For every list of extensions and every singleton, lookup returns the complete first extension (its singleton and all of its subtags, nothing more) introduced by that singleton, ignoring letter case, and nothing if there is none. Characters inside extension subtags never count as singletons. Iterating over the subtags of a looked-up singleton gives that extension's subtags, and gives nothing when the extension is absent.",
 ["inputs"],"every extension list (repeated singletons, mixed case, subtags that begin with or resemble singletons) and all 34 singletons in either case",
 "Tests look up two lower-case singletons in one two-extension list.",
 [EXT],[("byte scan for singleton then hyphen","src/normal/extension.rs Extensions::get"),("singleton comparison","src/normal/extension.rs Singleton")],
 ["Extensions::get","Extensions::iter_extension","Extension::singleton","Extension::iter"])

p("C07","Equality, ordering and hashing form one consistent case-insensitive relation",
 "For each tag and component type, two values are equal exactly when their texts are the same ignoring ASCII case, equal values hash alike under every hasher, and ordering is a total order that agrees with equality. At the first character where two texts differ ignoring case, the ASCII codes of the two lower-case characters decide the order (of registry entries only totality and consistency are required); a text that is a proper prefix of another always sorts on the same side of it. Owned values, borrowed values and any mix of the two give the same answers.",
 ["inputs"],"all pairs and triples of values of each type, owned or borrowed, in any letter case",
 "Tests compare one pair of tags for equality and one for inequality; nothing tests ordering, hashing or any component type but through string equality.",
 [U]+[L,N,PU,LM,LP,LX,SC,RG,VAR,EXT,GF],[("folding comparison helpers","src/utils.rs"),("hand-written impls per type","PartialEq, Ord and Hash impls in each type's file")],
 ["==, <, cmp, partial_cmp, max/min, sort, Hash on every borrowed and owned type"])

p("C08","Comparing a value with plain text means comparing with the parsed text",
 "A tag or component equals a plain string, string slice, byte slice or byte vector exactly when the two are the same ignoring ASCII case. Ordering against plain text gives the order of the value against that text parsed as the same type, and no order when the text is not valid for the type. Both operand orders and owned or borrowed values agree, and comparing an extension singleton with a byte or character also ignores letter case.",
 ["inputs"],"every value of every type against every text, valid or not",
 "Tests compare with string literals that are equal byte for byte; never unequal, differently cased (except one doc example) or invalid text, never bytes, never ordering.",
 [L,N,PU,LM,LP,LX,SC,RG,VAR,EXT,U],[("foreign comparisons that parse the other side","newtype(ord(..)) on each type"),("singleton comparisons","src/normal/extension.rs")],
 ["PartialEq and PartialOrd with [u8], &[u8], str, &str, Vec<u8>, String, u8, char"])

p("C09","Every component handed out is itself a valid value of its type",
 "Every value obtained from a parsed tag or component through any accessor, iterator, lookup, typed view or constant is well-formed for the type it is presented as: parsing its text again as that type succeeds and gives an equal value. No accessor presents text outside the grammar of its type, whatever valid input it started from.",
 ["inputs"],"every well-formed tag and component, through every chain of accessors",
 "The unchecked constructions behind accessors are never re-validated by the tests; wrong text in a typed wrapper compiles and stays silent.",
 [N,LM,LX,VAR,EXT,PU,GF,L],[("unchecked constructors relying on offset arithmetic","new_unchecked calls in src/normal/*"),("boundaries","src/normal/mod.rs")],
 ["results of all accessors and iterators"])

p("C10","Parsing and exploring borrow the input: nothing is copied or allocated",
 "A borrowed tag is the caller's own text: every component, list and subtag obtained from it occupies the exact range of the original input where that component lies. Parsing a borrowed tag, querying it, iterating it, comparing, ordering and hashing it perform no heap allocation.",
 ["inputs"],"every well-formed tag and every borrowed operation on it",
 "Tests compare text only; none observes addresses or allocations.",
 [L,N,LM,LX,VAR,EXT,PU,GF],[("slices of the inner str","src/normal/*"),("transmuted reference","LangTag::new")],
 ["addresses of returned slices","global allocator calls during borrowed operations"])

p("C11","No input makes the library panic, hang or break memory safety",
 "On every input, every safe public operation returns: no panic, no arithmetic overflow, no endless loop or iteration, no abort. No safe use causes undefined behaviour: no out-of-bounds or dangling access, and every text handed out is valid UTF-8 even when parsing started from arbitrary bytes.",
 ["inputs","histories"],"all byte sequences through all constructors, and on every accepted value all operations in any order",
 "Tests call few accessors on few tags, in a build without sanitizers; invalid text in a str or a one-off slice bound is invisible to them unless it happens to crash.",
 ALL,[("slice bounds derived from automaton-validated text","src/normal/mod.rs"),("unsafe unchecked constructors","src/normal/*, src/grandfathered.rs"),("UTF-8 decoding before validation","src/grammar.rs validate_bytes")],
 ["panics, signals, sanitizer and Miri reports, UTF-8 validity of results"])

p("C12","All ways of building a value agree, and refusal hands the input back",
 "For each type, every constructor and conversion from text or bytes (borrowed or owned, fallible conversion traits, standard parsing, bare validation functions) accepts exactly the same inputs. On success the value's text is the input byte for byte; on refusal the error carries the caller's input unchanged, and for borrowed inputs the very same reference.",
 ["inputs"],"every byte sequence, every type, every constructor",
 "Tests only use one constructor of two types.",
 [L,N,PU,LM,LP,LX,SC,RG,VAR,EXT,GF],[("derived constructors sharing one validator","derive attributes on each type"),("hand-written conversions","src/normal/extension.rs Singleton, src/grandfathered.rs")],
 ["new, from_bytes, from_str, from_string, TryFrom, FromStr, validate_*"])

p("C13","Text survives every conversion byte for byte",
 "Converting a value to text or bytes, displaying it, cloning it, or moving between borrowed and owned forms and back always reproduces the exact original text, including its letter case. No conversion normalises, trims or reorders.",
 ["inputs","histories"],"every valid value of every type through every chain of conversions",
 "Comparisons in tests ignore case, so a conversion that changes case passes them; owned types are never used in tests.",
 [L,N,PU,LM,LP,LX,SC,RG,VAR,EXT,GF],[("derived accessors and conversions","derive attributes on each type"),("hand-written Display","src/grandfathered.rs, src/normal/extension.rs")],
 ["as_str, as_bytes, Display, AsRef, Borrow, From, to_owned, clone, into_string, into_bytes"])

p("C14","Serialization round-trips exactly and deserialization validates",
 "With serialization enabled, every value serializes as a plain string holding exactly its text, and deserializing that string gives back a value with the same text. Deserializing accepts exactly the strings that parsing accepts for that type and reports an error for all others and for non-string data. This holds for borrowed and owned types and does not depend on the data format.",
 ["inputs"],"every string and every type, through several data formats",
 "The serde feature is compiled by the tests but never exercised.",
 [L,N,PU,LM,LP,LX,SC,RG,VAR,EXT],[("derived serde impls","newtype(serde) on each type")],
 ["Serialize and Deserialize of all types, through JSON, CBOR, bincode and serde value deserializers"])

p("C15","The grandfathered registry is complete, exact and case-insensitive",
 "Exactly the 26 grandfathered tags of RFC 5646 parse as grandfathered, in any letter case, each to its own distinct entry, and the published list holds each entry exactly once. Each entry's text, bytes and displayed form are the registered spelling, which parses back to the same entry and is a well-formed language tag. The nine regular entries report their primary language (art, cel, no or zh); the irregular ones report none.",
 ["inputs"],"every byte sequence; all 26 entries in all letter cases",
 "Tests parse four grandfathered tags as generic tags; the registry type itself is never used.",
 [GF,U,L],[("static table and text match","src/grandfathered.rs"),("irregular and regular productions","src/grammar.rs LanguageTag")],
 ["GrandfatheredLangTag::new, try_from, as_str, as_bytes, language, Display","GRANDFATHERED"])

p("C16","Changing letter case changes no answer but the letter case",
 "Two inputs that differ only in ASCII letter case are both accepted or both rejected by every parser, and where accepted every question about them (kind, component boundaries, list elements, extension lookup, grandfathered entry, language) has the same answer up to letter case. Values that compare equal are interchangeable: each accessor applied to both gives values that again compare equal, singletons included.",
 ["inputs"],"all pairs of inputs that differ only in letter case",
 "Tests hold two recased tags and only check acceptance or equality of the whole tag.",
 ALL,[("case alternatives in every automaton","src/grammar.rs"),("folding helpers","src/utils.rs"),("singleton handling","src/normal/extension.rs")],
 ["all accessors on a value and on its recased twin"])

p("C17","Behaviour does not depend on enabled features",
 "The library builds with every combination of its features, including without the standard library, and for each input every operation available in a combination gives the same result as with all features enabled.",
 ["configurations","inputs"],"all feature combinations and every input",
 "The test suite builds only with all features on; the no-std build is never run.",
 ALL,[("feature-conditional attributes and items","cfg_attr(feature = ...) on each type")],
 ["event logs of the same workload under each feature combination"])

p("C18","Compile-time parsing gives the same result as run-time parsing",
 "The compile-time tag macro compiles for exactly the literals that parse as language tags at run time, refuses every other literal with a compile error, and yields a value with exactly the literal's text. The constant constructors, validators and text accessors of all types give the same results when evaluated at compile time as at run time.",
 ["programs","inputs"],"all literals and all constant-evaluable functions",
 "One valid literal is tried; no test can contain a literal that must not compile.",
 [L,G],[("macro","src/lib.rs langtag!"),("const fn automata","src/grammar.rs")],
 ["compiler diagnostics and compiled values of generated programs"])

p("C19","Cost of parsing and exploring grows linearly with the input",
 "The work done to parse, classify, split, compare or hash a tag of any type, to look up an extension, and to iterate a whole list grows at most linearly with the length of the input, for accepted and rejected inputs alike.",
 ["inputs"],"inputs of growing length in every component and every shape, valid and invalid",
 "Tests use inputs of at most a few hundred bytes and measure nothing.",
 [N,EXT,VAR,PU,LX,G,U,L],[("single left-to-right scans","src/normal/mod.rs find_list_end, find_segment_end, find_segment_start"),("one automaton step per character","src/grammar.rs")],
 ["executed basic-block counts per operation at doubling input sizes"])

p("C20","Tags and components work as map and set keys in any letter case",
 "Under any history of insertions, lookups, removals, range queries and iterations, hash and ordered maps or sets keyed by tags or components behave exactly like ones keyed by the lower-cased text. Lookups may use the borrowed or the owned form in any letter case. Sorting and binary search over values agree with this as well.",
 ["histories","inputs"],"all operation histories over maps and sets of every owned and borrowed type",
 "No test puts a tag in a collection.",
 [U,L,N,PU,LM,LP,LX,SC,RG,VAR,EXT,GF],[("hash, equality and order of owned and borrowed forms must coincide","derive(PartialEq, Eq, PartialOrd, Ord, Hash) on owned types; impls in each file; src/utils.rs")],
 ["HashMap, HashSet, BTreeMap, BTreeSet, sort, binary_search"])

p("C21","Answers depend only on the text: not on history, address or threads",
 "Every operation's result is a function of the text alone. Repeating it, performing it after any other operations, on a copy at another address, on a buffer reused for different text, or concurrently from several threads sharing the same values gives the same result, without data races.",
 ["schedules","histories"],"all interleavings of operations on shared values and all call histories",
 "Tests are single calls on fresh values in one thread.",
 ALL,[("stateless functions over borrowed text; no interior mutability","whole crate")],
 ["event digests of concurrent and shuffled workloads, race detector and Miri reports"])
with open("/verif/properties.jsonl","w") as f:
    for d in P:
        assert len(d["title"])<=80,(d["id"],len(d["title"]))
        f.write(json.dumps(d,ensure_ascii=False)+"\n")
print(len(P))
