#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where the property texts live)."""
import json
P = []
V = "core/src/version/"
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in (state or [])],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": observe or [], "hook_needed": hook}})
HOOK = "verif_hooks (cfg ronda_verif): re-exports Spec and VersionSpec, whose trait is private"

prop("C01", "Reading a version text never aborts and rejects exactly the malformed ones",
 "Reading any text as a version returns either a version or an error; it never aborts the caller. "
 "A text is rejected exactly when it has more than one epoch marker '!', or what stands before its '!' is not an (optionally signed) whole number from -32768 to 32767, or it has more than one local marker '+' after the epoch. "
 "Every other text, including empty, separator-only, very long and non-ASCII texts, is accepted.",
 ["inputs"], "every Unicode text",
 "The tests read about 50 well-formed texts and no malformed one; a panic on a malformed epoch went unnoticed.",
 [V+"parsers/conda.rs", V+"version.rs"],
 [("conda_parser", V+"parsers/conda.rs"), ("Version::parse / FromStr", V+"version.rs")],
 observe=["Result of str::parse::<Version>() and of conda_parser, panics caught"])

prop("C02", "A version keeps its text and is split into exactly its components",
 "A version reports back exactly the text it was read from, and its components are, in order: the epoch if one is given, then every maximal run of decimal digits (a number when it is an ASCII numeral of at most 2147483647, otherwise kept as a text) or of other characters (a tag) between the separators '.', '_' and '-', then the text after '+' unchanged if it is not empty; a text with none of these has one empty component. "
 "Component count, component list and indexed access agree, and an index past the end is an error. "
 "With a parser supplied by the caller, the version holds exactly that parser's components, or the parser's error is returned.",
 ["inputs"], "every accepted version text, every index, every caller-supplied parser result",
 "The tests check the number of components for 13 texts and the component values for almost none; lengths beyond 8 components and mixed separators are never reached.",
 [V+"parsers/conda.rs", V+"version.rs", V+"version_part.rs"],
 [("conda_parser", V+"parsers/conda.rs"), ("Version::{as_str,part,parts,part_count,parse}", V+"version.rs")],
 state=[("Version.version", "original text", V+"version.rs"), ("Version.parts", "components", V+"version.rs")],
 observe=["as_str, Display, parts, part(i), part_count"])

prop("C03", "Comparing two versions gives one coherent answer at every entry point",
 "For any two versions exactly one of less, equal and greater is reported; swapping the operands turns the answer around, and a version is equal to itself (also when read again from the same text). "
 "All ways of asking agree: three-way comparison with a version or with a text, the native ordering and equality operators, and the partial ordering.",
 ["inputs"], "all pairs of accepted version texts, both operand orders",
 "24 hand-picked pairs, mostly in one operand order, on short ASCII texts; the quantifier ranges over all pairs.",
 [V+"version.rs", V+"version_part.rs", V+"custom_parts/pep440.rs"],
 [("Version::compare_version / compare_str / compare_iter", V+"version.rs"), ("PartialOrd, PartialEq for Version", V+"version.rs"),
  ("PartialOrd, PartialEq for VersionPart", V+"version_part.rs"), ("compare_pep440_str", V+"custom_parts/pep440.rs")],
 observe=["compare_version, compare_str, partial_cmp, <, <=, >, >=, ==, != on all ordered pairs of a pool"])

prop("C04", "The version order has no cycles",
 "Over any set of versions the reported comparisons form a total preorder: if a is not greater than b and b is not greater than c then a is not greater than c, and versions that compare equal compare alike with every other version. "
 "So sorting any collection, or taking its newest version, gives the same ranking whatever order it is listed in.",
 ["inputs"], "all finite sets of accepted version texts (all triples)",
 "No test relates more than one chain of four versions; a cycle needs three versions of different shape, and several existed.",
 [V+"version.rs", V+"version_part.rs", V+"custom_parts/pep440.rs"],
 [("compare_iter (padding of the shorter version)", V+"version.rs"), ("VersionPart::partial_cmp (rank of kinds)", V+"version_part.rs"),
  ("compare_pep440_str", V+"custom_parts/pep440.rs")],
 observe=["full comparison matrix over a pool of related versions"])

prop("C05", "Release numbers compare by value at the first place they differ",
 "Two versions made only of numbers and separators compare by the first position at which their numbers differ in value, a missing number counting as zero; leading zeros, the choice of separator and appended zero components never matter, however many components there are and however large the numbers. "
 "More generally, when two versions agree on their leading components, whatever follows the first component in which they really differ has no influence on the result.",
 ["inputs"], "all pairs of versions; any number of components, any numeric values",
 "Tests use at most 8 components with one-digit differences; 1.0.1 compared equal to 1 without any test failing.",
 [V+"version.rs", V+"version_part.rs", V+"parsers/conda.rs"],
 [("compare_iter", V+"version.rs"), ("Integer arm of VersionPart::partial_cmp", V+"version_part.rs"), ("get_empty", V+"version_part.rs")],
 observe=["compare_version on pairs"])

prop("C06", "Tags order as dev < other tags < no tag < post, ignoring letter case",
 "Where one version has a tag, a tag containing 'dev' ranks below any other tag, other tags rank alphabetically and below having no tag or a zero there, a tag containing 'post' (even together with 'dev') ranks above having no tag or a zero there and above all tags without 'post', and every tag ranks below a positive number at that place. "
 "Two tags that both contain 'post' rank alike, and so do two 'dev' tags. "
 "Letter case never matters, also outside ASCII.",
 ["inputs"], "all pairs of versions with a common front (possibly empty) followed by a tag, a number or nothing",
 "A handful of pairs with the tags a, alpha, dev, rc, post; nothing on case for dev/post, on embedded or combined markers, or outside ASCII.",
 [V+"custom_parts/pep440.rs", V+"version_part.rs", V+"version.rs"],
 [("compare_pep440_str", V+"custom_parts/pep440.rs"), ("VersionPart::partial_cmp", V+"version_part.rs"), ("compare_iter", V+"version.rs")],
 observe=["compare_version on pairs"])

prop("C07", "Epochs outrank everything and local parts only break ties",
 "A version with a larger epoch ranks above every version with a smaller one whatever follows, and a version with an explicit epoch ranks above every version without one. "
 "A version with a non-empty local part ranks above the same version without it but below that version extended by a positive number, and local parts of the same version compare as plain texts, character by character and case-sensitively.",
 ["inputs"], "all epochs, all pairs of remainders, all local texts",
 "One chain with epochs 1 and 2; no test of local parts at all.",
 [V+"version_part.rs", V+"parsers/conda.rs", V+"version.rs"],
 [("Epoch and LexicographicString arms of VersionPart::partial_cmp", V+"version_part.rs"), ("conda_parser", V+"parsers/conda.rs")],
 observe=["compare_version on pairs"])

prop("C08", "Testing 'a OP b' agrees with the three-way comparison and with prefixes",
 "For ==, !=, <, <=, > and >=, testing 'a OP b' holds exactly when the three-way comparison of a with b says so, and for the two prefix operators exactly when a does, respectively does not, start with b; a text operand gives the same answer as the version read from it. "
 "Testing with the inverted operator always gives the opposite answer, and for the six relational operators testing with the flipped operator and swapped operands gives the same answer. "
 "No operator aborts.",
 ["inputs"], "all pairs of versions, all operators",
 "The existing tests of this are among those that failed (operands were swapped); they use 24 pairs.",
 [V+"version.rs", V+"comp_op.rs"],
 [("Version::compare_to_version / compare_to_str", V+"version.rs"), ("CompOp::invert, CompOp::flip", V+"comp_op.rs")],
 observe=["compare_to_version and compare_to_str for all operators on all ordered pairs of a pool"])

prop("C09", "Operator signs, names and conversions form one consistent vocabulary",
 "Each of the ten operators has its own sign and name; reading a text as a sign (ignoring surrounding whitespace) or as a name (also ignoring letter case) gives the operator it denotes, and every other text is rejected. "
 "Inverting, taking the opposite and flipping are each their own inverse; ordering and factor conversions are consistent with one another.",
 ["inputs"], "all operators, all texts offered as sign or name",
 "Tests list one spelling per operator; the space of surrounding whitespace, case and near-miss texts is unbounded.",
 [V+"comp_op.rs"], [("CompOp::{from_sign,from_name,sign,name,invert,opposite,flip,factor,ord,from_ord}", V+"comp_op.rs")],
 observe=["results of every conversion on every operator; from_sign/from_name on arbitrary texts"])

prop("C10", "A version starts with another iff all the other's components lead it",
 "One version starts with another exactly when the other has no more components and each of the other's components equals the component of the first at the same position (numbers by value, tags ignoring case, any two post tags and any two dev tags alike). "
 "Hence every version starts with itself and with every version it extends, and the relation is transitive.",
 ["inputs"], "all pairs and triples of versions",
 "One pair is tested.",
 [V+"version.rs", V+"version_part.rs"], [("Version::startswith", V+"version.rs"), ("PartialEq for VersionPart", V+"version_part.rs")],
 observe=["startswith on all ordered pairs of a pool"])

prop("C11", "A relational spec selects exactly the versions its operator names",
 "A term 'OP version' (==, !=, <, <=, >, >=), or a bare version (meaning ==), matches a candidate exactly when 'candidate OP version' holds by the version order; a '.*' after the version is ignored for every operator except '!=', and for '=' which tests prefixes. "
 "Thus == and !=, < and >=, > and <= are complementary, and ordering terms select sets closed upwards or downwards. "
 "Matching a candidate text and matching the version read from it agree, a term reports its own text unchanged, and exactly bare versions, '==' terms and '@' terms report being exact.",
 ["inputs"], "all operators, all spec versions, all candidates",
 "About 20 pairs; mostly short releases.",
 [V+"matching.rs", V+"spec_trees.rs", V+"version.rs"],
 [("get_matcher, create_match_enum_from_operator_str, MatchOperator", V+"matching.rs"), ("VersionSpec", V+"spec_trees.rs")],
 observe=["test_match, test_match_version, get_spec, is_exact, exact_value"], hook=HOOK)

prop("C12", "Wildcard specs select exactly the versions that start with the stem",
 "The terms 'V.*', 'V*', '=V' and '=V.*' match exactly the candidates that start with version V, and '!=V.*' exactly the others; '*' matches every version. "
 "Extending a matched candidate by further components keeps it matched.",
 ["inputs"], "all stems V, all candidates",
 "About 15 pairs with two- or three-number stems.",
 [V+"matching.rs", V+"version.rs"],
 [("get_matcher (StartsWith, NotStartsWith, MatchAlways)", V+"matching.rs"), ("Version::startswith", V+"version.rs")],
 observe=["test_match / test_match_version against startswith of the stem"], hook=HOOK)

prop("C13", "Regex, glob and '@' terms match by the candidate's text",
 "A term '^R$' matches exactly the candidates in whose text the regular expression '^R$' is found; a term with a '*' before its trailing stars matches exactly the candidates whose whole text is the term with each '*' replaced by some run of characters, '.' and '+' meaning themselves; a term with '@' (and no '*' or operator) matches only the identical text. "
 "Matching by text is not affected by how the versions compare.",
 ["inputs"], "all expressions and globs of the supported syntax, all candidate texts",
 "All tests of this aborted ('Not implemented') until the matcher was repaired; they use one candidate.",
 [V+"matching.rs"], [("get_matcher, MatchRegex, MatchExact", V+"matching.rs")],
 observe=["test_match / test_match_version"], hook=HOOK)

prop("C14", "Reading or matching any constraint never aborts; bad terms are errors",
 "Reading any text as a term, as an expression or as a constraint returns a value or an error, and matching whatever was accepted against any version returns an answer; neither ever aborts the caller. "
 "A term is an error when it has an unknown, bare or doubled operator, has an operator and contains whitespace, starts with '^' without ending in '$' or the reverse, combines '~=' with '.*', is an invalid regular expression (a term with a '*' before its trailing stars is read as one, too), or names an invalid version. "
 "Every other term is accepted.",
 ["inputs"], "every Unicode text, every candidate",
 "Tests try 6 bad texts; reading the empty text, a non-ASCII first character or '~1.0' aborted.",
 [V+"matching.rs", V+"spec_trees.rs"],
 [("get_matcher", V+"matching.rs"), ("treeify, VersionSpecOrConstraintTree::try_from, ConstraintTree::try_from", V+"spec_trees.rs")],
 observe=["Result of each reader, panics caught; test_match of accepted values"], hook=HOOK)

prop("C15", "An expression matches exactly when its boolean formula is true",
 "An accepted expression matches a version exactly when the formula obtained by reading ',' as and, '|' as or, ',' binding tighter than '|' and parentheses as grouping is true of the answers its terms give for that version. "
 "This holds for any nesting depth and length, whichever reader built the tree, and whether the candidate is given as text or as version; a tree built from a combinator and a list of terms means that combinator over all of them.",
 ["inputs"], "all well-formed expressions, all candidates",
 "The tree tests compare trees with an equality that ignored the combinator, and no test evaluates a tree.",
 [V+"spec_trees.rs"], [("_treeify, _apply_ops", V+"spec_trees.rs"), ("Spec for ConstraintTree", V+"spec_trees.rs"), ("TryFrom<Vec<&str>>", V+"spec_trees.rs")],
 state=[("output, stack", "operand and operator stacks of the expression reader", V+"spec_trees.rs")],
 observe=["test_match / test_match_version of the tree and of each term"], hook=HOOK)

prop("C16", "An expression is accepted exactly when it is well formed",
 "An expression is accepted exactly when its parentheses balance, every combinator stands between two operands, no two operands are adjacent, it has at least one term, and each of its terms is itself acceptable; a text from '^' up to the next '$' at the start of a term is one term even when it contains combinators or parentheses. "
 "Anything else is an error; no expression is partly read.",
 ["inputs"], "all texts over terms, combinators, parentheses and whitespace",
 "No test passes a malformed expression to treeify; trailing combinators and adjacent operands were accepted.",
 [V+"spec_trees.rs"], [("_treeify (tokens, stack discipline)", V+"spec_trees.rs")],
 observe=["Result of treeify and of constraint try_from"], hook=HOOK)

prop("C17", "Rendering an expression and reading it back changes nothing",
 "Rendering the tree of any accepted expression succeeds, and reading the rendered text gives an equal tree, which renders to the same text and matches the same versions. "
 "The rendering has every term of the expression once, in order and unchanged, without whitespace around it, and has parentheses exactly around each nested group.",
 ["inputs"], "all accepted expressions",
 "Six hand-written trees are rendered or read, never both; nesting depth is at most three.",
 [V+"spec_trees.rs"], [("untreeify, ConstraintTree::combine", V+"spec_trees.rs"), ("_treeify", V+"spec_trees.rs")],
 observe=["untreeify, get_spec, treeify of the rendered text"], hook=HOOK)

prop("C18", "Trees are canonical and compare equal only when they are the same",
 "The tree of an expression never nests a group directly inside a group with the same combinator, has at least two parts in every group (a single term stands alone without combinator), and keeps the terms in order; expressions that differ only in whitespace, redundant parentheses or grouping of the same combinator give equal trees. "
 "Two trees are equal exactly when they have the same combinator and the same parts in the same order, at every level. "
 "Printing a tree for debugging always ends.",
 ["inputs"], "all pairs of expressions",
 "The existing equality ignored the combinator and surplus parts, so that the tests based on it could not fail; debug printing recursed forever.",
 [V+"spec_trees.rs"], [("_apply_ops (fusing)", V+"spec_trees.rs"), ("PartialEq and Debug for ConstraintTree, VersionSpecOrConstraintTree", V+"spec_trees.rs")],
 observe=["combinator and parts of trees; == and != on trees; {:?} and {:#?}"], hook=HOOK)

R = "core/src/repodata/repodata.rs"
prop("C19", "Loading an index yields every record with every field as written",
 "When an index file loads, each package entry of the file is present under its own file name in its own section, with build, build number, dependencies in order, checksums, name, size, timestamp and version text exactly as written, its version split as the version text is, and nothing else is present. "
 "The subdir, format version and removed list are as written too; when a file name occurs twice in a section, the last entry counts.",
 ["inputs"], "all valid index documents",
 "One file is loaded, and only its subdir is looked at.",
 [R], [("read_repodata", R), ("derive(Deserialize) for Record, Repodata, RepodataInfo; deserialize_json_str_to_version", R)],
 state=[("Repodata.packages, Repodata.packages_conda", "records by file name", R)],
 observe=["all public fields of the loaded index"])

prop("C20", "A defective index is an error as a whole, never an abort or a partial load",
 "Loading returns an error, and never aborts or returns a part of the index, when the file is missing, is not a readable file, is not UTF-8, is cut off at any point or followed by other text, or when any record or the document lacks a required field, repeats one, has a value of the wrong type or outside its integer range, or has a version text that is not acceptable. "
 "A document without such a defect loads.",
 ["inputs", "fault_sequences"], "all documents with one or more defects at any place",
 "No test loads a defective file; a missing file aborted the caller.",
 [R], [("read_repodata", R), ("deserialize_json_str_to_version", R)],
 observe=["Result of read_repodata, panics caught"])

prop("C21", "How the JSON of an index is written does not matter",
 "Documents that differ only in whitespace, in the order of keys, sections and entries, in the use of JSON escapes, or in additional unknown keys load to the same index, or fail alike.",
 ["inputs"], "all pairs of presentations of the same document",
 "The one test file has one presentation; a version text written with an escape failed the whole file.",
 [R], [("read_repodata, deserialize_json_str_to_version", R)],
 observe=["loaded index of several presentations of one document"])

prop("C22", "Answers depend on the arguments alone, not on history or threads",
 "The result of reading, comparing, matching, rendering or loading depends only on its arguments: repeating a call gives the same result whatever calls were made before it, in whatever order, however many threads make calls at the same time, and also when it is made inside another call (by a caller's parser, path or stream) or after one that failed or panicked. "
 "No call changes the versions, trees or indexes it is given.",
 ["histories", "schedules"], "all call sequences and interleavings",
 "Tests make each call once, from a fresh value; shared state (lazily built matchers) is never exercised out of order or concurrently on purpose.",
 [V+"matching.rs", V+"spec_trees.rs", V+"parsers/conda.rs", V+"custom_parts/pep440.rs", R],
 [("lazy_static regexes", V+"parsers/conda.rs"), ("pure functions over owned values", V+"version.rs")],
 observe=["results of repeated calls across sessions, orders and threads"], hook=HOOK)

PY = "python/src/python_interface.rs"
prop("C23", "The Python class gives the same answers as the Rust library",
 "For any two texts, the Python version objects made from them compare under <, <=, ==, !=, > and >= exactly as the Rust versions do, start with one another exactly when the Rust versions do, and show the original text as their representation. "
 "A text that is not a version raises ValueError; it never terminates the interpreter.",
 ["inputs"], "all pairs of texts, all six operators",
 "The Python package has no tests; its ordering operators were reversed.",
 [PY, V+"version.rs"], [("RustyVersion::__new__, __richcmp__, __repr__, startswith; py_cmp_to_ronda_cmp", PY)],
 observe=["the built extension module, driven from the system Python"])

prop("C24", "Dependency resolution returns a consistent selection or a true conflict",
 "Whenever resolution succeeds, every selected package has all of its dependencies selected at versions its constraints allow, and at most one version of each package is selected; when it fails, no such selection exists.",
 ["inputs", "programs"], "all package universes",
 "The resolver is not compiled.",
 ["core/src/resolve/mod.rs", "core/src/resolve/incompat.rs", "core/src/graph/graph.rs"],
 [("Resolver::solve (not part of the build: the module is commented out in lib.rs)", "core/src/resolve/mod.rs")])

prop("C25", "Versions split by a caller's own parser are ordered by their components alone",
 "A version made with a parser of the caller's own is compared, tested with every operator and prefix-tested by the components that parser delivered, exactly as a version read from a text with these components would be: "
 "two versions with the same components are equal whatever their texts are, two with the same text but different components are not, components compare on their own as they do at the end of a version, and a copy of such a version is the same version. "
 "Comparing it with a text reads that text in the usual way; constraints compare and prefix-test its components, and only '@' terms, globs and regular expressions look at its text. "
 "(Component lists of the shape the built-in reader delivers: not empty, an epoch only in front, numbers not negative, texts not empty.)",
 ["inputs"], "all component lists of that shape, all texts, all pairs of such versions, all terms",
 "No test passes a parser of its own; every test version comes from the built-in reader, where text and components cannot be told apart.",
 [V+"version.rs", V+"version_part.rs", V+"matching.rs"],
 [("Version::parse with a caller's parser", V+"version.rs"), ("compare_iter, startswith", V+"version.rs"), ("VersionPart::partial_cmp, eq", V+"version_part.rs"), ("MatchOperator, MatchRegex, MatchExact", V+"matching.rs")],
 state=[("Version.version", "text", V+"version.rs"), ("Version.parts", "components", V+"version.rs")],
 observe=["compare_version, partial_cmp, ==, compare_to_version, startswith, compare_str, compare_to_str, test_match_version of versions made with a given component list; comparison of single components"], hook=HOOK)

prop("C26", "Whatever was read is shown as what it is, and every error says something",
 "A version is displayed as the text it was read from; its debug form is the bracketed list of its components in order, each with its kind and content, for example [Integer(1), PEP440String(a)], and a component displays the same way on its own. "
 "The debug form of a constraint term is its text in quotes, that of a tree that can be written as an expression is its rendering in quotes, and that of any other tree (for example one built by hand with a group of one group) is its combinator sign followed by the list of its parts in order; spread over several lines, it has the same members. "
 "Every version, term, tree, index and error can be shown without aborting, and every error has a message that is not empty.",
 ["inputs"], "all texts, accepted or not; all trees, also those built by hand; all index files",
 "The tests never look at a debug form of a version or of a tree that cannot be rendered (which aborted), nor at the message of an error.",
 [V+"version.rs", V+"version_part.rs", V+"spec_trees.rs", V+"matching.rs", V+"errors.rs", V+"custom_parts/pep440.rs", R],
 [("Display and Debug of Version and VersionPart", V+"version_part.rs"), ("Debug of VersionSpecOrConstraintTree and ConstraintTree, combine", V+"spec_trees.rs"), ("Display of VersionParsingError", V+"errors.rs")],
 observe=["Display and Debug of versions, components, terms, trees, indexes and errors, panics caught"], hook=HOOK)

prop("C27", "A version taken from an index counts like the same version read from its text",
 "The versions of a loaded index compare, test under every operator, prefix-test and match constraints exactly as versions read from the same texts do, among one another and mixed with them, and exactly as the texts themselves do at the entry points that take texts. "
 "So filtering an index by a constraint keeps exactly the records whose version text matches, and taking the newest of what is left gives a version that no other one exceeds, whatever the order in which the index lists its records.",
 ["inputs"], "all indexes, all pairs of versions in them, all constraints",
 "No test compares or matches a version that came out of an index: the two readers of a version are only ever used apart.",
 [R, V+"version.rs", V+"spec_trees.rs", V+"matching.rs"],
 [("deserialize_json_str_to_version, read_repodata", R), ("compare_version, compare_str, compare_to_version, startswith", V+"version.rs"), ("test_match, test_match_version", V+"spec_trees.rs")],
 observe=["answers on the versions of a loaded index, on their clones, and on versions read from their texts"], hook=HOOK)

prop("C28", "Constraints by order keep equals together, ranges whole, complements exact",
 "A constraint built from the operators <, <=, >, >=, == and != (or a bare version) never tells two versions apart that compare equal. "
 "Terms with <, <=, >, >= and == joined by ',' select a range: whatever lies between two selected versions is selected. "
 "Turning every operator of such a constraint into its opposite and exchanging ',' and '|' gives a constraint that selects exactly the versions that the first one does not.",
 ["inputs"], "all constraints of order terms of any shape, all sets of versions",
 "Each test looks at one candidate at a time; none relates the answers for two candidates or for two constraints.",
 [V+"spec_trees.rs", V+"matching.rs", V+"comp_op.rs", V+"version.rs"],
 [("test_match_version over trees", V+"spec_trees.rs"), ("MatchOperator", V+"matching.rs"), ("CompOp::invert", V+"comp_op.rs"), ("compare_to_version", V+"version.rs")],
 observe=["test_match_version of a constraint and of its dual over a pool of versions; compare_version of all its pairs"], hook=HOOK)

prop("C29", "An index or a record reads alike from every source",
 "An index document means the same however it reaches the library: from a file, whatever form of path and whatever name leads to it, and through the deserialization interface from a text, "
 "from bytes, from a stream that delivers it in pieces of any size, and from an already parsed JSON value without repeated keys. A single record read on its own has the fields it has within an index. "
 "Each of these ways gives the same content, or each gives an error; a stream that fails or ends early gives an error; none aborts.",
 ["inputs"], "all documents, all ways in which a stream can be cut into pieces, interrupted and broken off, all file names",
 "The only test loads one file of the repository by one path.",
 [R],
 [("read_repodata, Repodata, RepodataInfo, Record", R), ("deserialize_json_str_to_version", R)],
 observe=["content or error of Repodata and Record from read_repodata with several kinds of path, and from serde's entry points"], hook=HOOK)

prop("C30", "Constraints stay what they are when they are converted",
 "A combinator read from a text is 'and' for ',', 'or' for '|' and none for every other text. A term or tree turned into a constraint reports the same text, exactness and answers as before, also after copying, "
 "and can be taken out again as exactly what it was, while taking it out as the other kind is an error. Its raw value is its text, its exact value that text if it is exact and nothing otherwise. "
 "Two terms are equal exactly when their texts are; a term and a tree are never equal.",
 ["inputs", "histories"], "all terms and trees, all sequences of conversions and copies, all texts",
 "Conversions occur in tests only as a means; none looks at what is left after one, or converts to the wrong kind.",
 [V+"spec_trees.rs"],
 [("enum_dispatch(Spec) for VersionSpecOrConstraintTree, From and TryInto", V+"spec_trees.rs"), ("Combinator::from", V+"spec_trees.rs"), ("PartialEq for VersionSpec and VersionSpecOrConstraintTree", V+"spec_trees.rs"), ("raw_value, exact_value", V+"spec_trees.rs")],
 observe=["get_spec, raw_value, exact_value, is_exact, test_match_version, ==, !="], hook=HOOK)

with open("/verif/properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
