#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as data here so that the file is easy to review)."""
import json, os
P = []
def p(id, title, stmt, over, qtext, why, files, mech, observe, hook=None, state=None):
    d = {"id": id, "title": title, "statement": stmt,
         "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                     "observe_at": observe, "hook_needed": hook}}
    if state: d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    P.append(d)
S = "crates/syntax/src/"; F = "crates/foundry/src/"; B = "crates/bulloak/src/"

p("C01", "Parsing any text ends in a tree or a diagnostic, never a crash",
  "For every UTF-8 text, parsing it as a tree file terminates and yields either the parsed trees or an error whose message can be rendered; it never panics, overflows, or loops.",
  ["inputs"], "every text up to the stated number of symbolic characters, alone and embedded in tree skeletons",
  "Tests parse a few dozen hand-written trees; crashes need odd byte boundaries, truncated branches, lone slashes, CR/tab mixes or multi-byte characters next to delimiters.",
  [S+"tokenizer.rs", S+"parser.rs", S+"semantics.rs", S+"splitter.rs", S+"error.rs"],
  [("char-boundary-safe scanning", S+"tokenizer.rs: TokenizerI::{char_at,peek,scan}"), ("parser lookahead through Option", S+"parser.rs: parse_branch/parse_condition/parse_action/parse_description"), ("caret rendering", S+"error.rs: notate")],
  ["bulloak_syntax::parse", "Display of the returned error"])
p("C02", "A well-formed tree is parsed into exactly the structure that was drawn",
  "For every well-formed tree, the parsed result has the drawn root name and the same branches, in the same order, with the same kind (condition, action, description), nesting, and word sequence as the text.",
  ["inputs"], "every tree shape within the stated node and depth bounds, with symbolic title characters, glyph styles and indentation widths",
  "Tests fix a handful of shapes; nesting is decided by column comparisons that only misbehave for particular shape/indent/sibling combinations.",
  [S+"tokenizer.rs", S+"parser.rs"],
  [("nesting by column", S+"parser.rs: parse_condition, parse_action"), ("word joining", S+"parser.rs: parse_string"), ("branch glyphs", S+"tokenizer.rs: tokenize")],
  ["bulloak_syntax::parse -> Ast"])
p("C03", "Keywords are recognised in any letter case and only as whole words",
  "A branch is a condition exactly when its first word equals `when` or `given` in any letter case, an action exactly when it equals `it` in any letter case, and no other first word is accepted as a keyword; the spelling changes nothing but the emitted text of that word.",
  ["inputs"], "every spelling of the first word up to the stated length over all ASCII characters (and selected non-ASCII ones), in every branch position",
  "Tests use two or three spellings (it/It/when/When); case handling, prefixes such as `item`, and keywords used later in titles are not sampled.",
  [S+"tokenizer.rs", S+"parser.rs"],
  [("keyword classification", S+"tokenizer.rs: scan_word"), ("kind dispatch", S+"parser.rs: parse_branch, parse_condition")],
  ["bulloak_syntax::parse -> Ast / error"])
p("C04", "Comments and layout never change what is generated",
  "Adding a `//` comment (on its own line or after a branch), trailing blanks, or extra `│`/`─` drawing to a tree leaves the parsed tree unchanged apart from positions, and removes every character of the comment from the result.",
  ["inputs"], "every comment text within the length bound, at every line of the bounded trees, and every choice of layout decoration",
  "Tests contain a few fixed comments; comment text containing glyphs, keywords, slashes or no trailing newline, and comments after identifier-restricted titles, are not covered.",
  [S+"tokenizer.rs", S+"splitter.rs"],
  [("comment skipping", S+"tokenizer.rs: scan_comments and the `/` arm of tokenize"), ("layout characters", S+"tokenizer.rs: tokenize")],
  ["bulloak_syntax::parse -> Ast"])
p("C05", "Malformed trees are rejected and well-formed ones accepted",
  "A token sequence is accepted only if it is a root name followed by branches in which every branch starts with a glyph, every condition has a title of identifier characters, actions contain only descriptions, and the top level ends with, and only with, `└`; every sequence meeting these rules is accepted.",
  ["inputs"], "every sequence of lines up to the stated length over the line alphabet (glyph, indentation, leading word, title), with symbolic title characters",
  "There are about ten rejection tests with fixed texts; the accept/reject boundary over all short trees is not explored.",
  [S+"parser.rs", S+"tokenizer.rs"],
  [("root and branch grammar", S+"parser.rs: parse, parse_root, parse_branch, parse_condition, parse_action"), ("identifier mode", S+"tokenizer.rs: scan_word, is_valid_identifier_char")],
  ["bulloak_syntax::parse accept/reject and error kind"])
p("C06", "Every diagnostic points at the offending text",
  "Every parse diagnostic names the line and column (counted in characters from the start of the file) of the first character of the offending token, and prints that source line with the caret under that column.",
  ["inputs"], "every malformed tree in the bounded family, with symbolic characters (including multi-byte ones) before and at the error position",
  "Tests check a few messages on ASCII trees; line/column arithmetic with multi-byte characters, carriage returns, tabs and comments before the error is not covered.",
  [S+"error.rs", S+"tokenizer.rs", S+"parser.rs", S+"semantics.rs", S+"span.rs"],
  [("position tracking", S+"tokenizer.rs: scan"), ("rendering", S+"error.rs: format_error, notate")],
  ["Display of the error returned by bulloak_syntax::parse"])
p("C07", "Identifier collisions inside a tree are reported, and only those",
  "A well-formed tree is rejected for a duplicate if and only if two conditions, or two top-level actions, of the tree would produce the same Solidity identifier; the diagnostic lists every colliding place.",
  ["inputs"], "every pair/triple of titles within the length bound over letters of both cases, blanks, hyphens, underscores, quotes and stripped characters, at every placement in the bounded trees",
  "The tests use literally equal titles; collisions that only appear after case folding, sanitising or camel-casing are not sampled.",
  [S+"semantics.rs", S+"utils.rs"],
  [("identifier table", S+"semantics.rs: SemanticAnalyzer"), ("identifier mapping", S+"utils.rs: sanitize, to_pascal_case, lower_first_letter")],
  ["bulloak_syntax::parse accept/reject"],
  state=[("identifiers", "identifier -> places where it is produced", S+"semantics.rs")])
p("C08", "A multi-tree file means the same as its trees taken one by one",
  "Parsing a file of several trees separated by one or more blank lines gives the same trees, in order, as parsing each tree alone, and fails exactly when one of them fails; comment blocks between trees change nothing.",
  ["inputs"], "every bounded combination of two or three trees, separators (LF or CRLF, extra blank lines, trailing blanks) and symbolic characters around the boundaries",
  "Tests use LF-only files with fixed separators.",
  [S+"splitter.rs", S+"lib.rs"],
  [("splitting", S+"splitter.rs: split_trees"), ("collection", S+"lib.rs: parse")],
  ["bulloak_syntax::parse"])
p("C09", "Results and diagnostics do not depend on hash-table order",
  "For a given input, the scaffolded text, the reported violations, the fixed file and the diagnostics are the same on every run, whatever the per-process hash seed.",
  ["inputs", "schedules"], "every hash assignment (hash values are unconstrained symbolic values, so every iteration order is covered) for the bounded trees with several duplicate groups",
  "A test run samples one random seed per process; an order dependence passes most of the time.",
  [S+"semantics.rs", F+"hir/combiner.rs", F+"check/violation.rs", F+"scaffold/modifiers.rs"],
  [("duplicate table", S+"semantics.rs"), ("insertion-ordered modifiers", F+"scaffold/modifiers.rs"), ("sets used for membership only", F+"hir/combiner.rs, "+F+"check/violation.rs")],
  ["bulloak_syntax::parse error text", "bulloak_foundry::scaffold::scaffold"])

p("C10", "Exactly one correctly named test per tested branch, in tree order",
  "Scaffolding emits exactly one external test function for every top-level action and for every condition that directly contains actions, and nothing else, in tree order; its name is `test_` plus the camel-cased title, or `test_RevertWhen_`/`test_RevertGiven_` plus the rest when the first action of the condition is `it should revert`.",
  ["inputs"], "every bounded tree shape (mixed actions/conditions, nesting, empty conditions), symbolic title characters and revert-like action texts",
  "Snapshot tests fix about ten trees; order and naming depend on combinations of siblings, nesting and near-miss action texts.",
  [F+"hir/translator.rs", F+"sol/translator.rs", F+"sol/fmt.rs", S+"utils.rs"],
  [("test synthesis", F+"hir/translator.rs: visit_root, visit_condition"), ("name casing", S+"utils.rs: upper_first_letter, sanitize")],
  ["bulloak_foundry::scaffold::scaffold text", "hir::translate"])
p("C11", "Test bodies list every action and description verbatim, in order",
  "The body of each generated test consists of one comment line per action of its branch and per description of that action, in tree order, each carrying the exact words of the tree (descriptions indented by their depth), and no comment text is lost, duplicated, altered or moved to another test.",
  ["inputs"], "every bounded tree with symbolic action/description characters, including quotes, backslashes, braces, semicolons, comment markers and non-ASCII",
  "Comments travel through a string-literal disguise and regular-expression rewriting; only a few plain texts are tested.",
  [F+"hir/translator.rs", F+"sol/translator.rs", F+"sol/fmt.rs", F+"scaffold/mod.rs"],
  [("comment disguise", F+"sol/translator.rs: visit_comment"), ("comment restoration", F+"sol/fmt.rs"), ("description indentation", S+"parser.rs: parse_description")],
  ["bulloak_foundry::scaffold::scaffold text"])
p("C12", "Every non-leaf condition gets one modifier and every test carries its path",
  "Scaffolding defines exactly one modifier per condition that has child conditions (or no actions), and each test is declared with exactly the modifiers of its enclosing conditions that have one, outermost first; every modifier a test uses is defined once and before its first use.",
  ["inputs"], "every bounded tree shape up to the stated depth with symbolic titles",
  "Push/pop balance of the modifier stack only fails for particular nestings with mixed children.",
  [F+"hir/translator.rs", F+"scaffold/modifiers.rs"],
  [("modifier stack", F+"hir/translator.rs: visit_condition"), ("discovery", F+"scaffold/modifiers.rs: ModifierDiscoverer")],
  ["bulloak_foundry::scaffold::scaffold text", "hir::translate"],
  state=[("modifier_stack", "modifiers of the enclosing conditions", F+"hir/translator.rs")])
p("C13", "Skipping modifiers removes the modifier definitions and nothing else",
  "Scaffolding with modifiers skipped yields the same contract as without, minus exactly the modifier definitions: the same pragma, tests, names, order, applied modifiers and bodies.",
  ["inputs", "configurations"], "every bounded tree, crossed with the vm-skip and version settings",
  "Two fixed trees are snapshot-tested with the flag.",
  [F+"sol/translator.rs"],
  [("filtering", F+"sol/translator.rs: visit_contract")],
  ["bulloak_foundry::scaffold::scaffold text"])
p("C14", "vm-skip adds one skip per test, the import and the base, and nothing else",
  "Scaffolding with vm-skip yields the same contract as without, plus exactly one `vm.skip(true);` per test, one import of forge-std's Test and `is Test` on the contract; without it none of the three appears.",
  ["inputs", "configurations"], "every bounded tree (any mixture of top-level actions and conditions), crossed with skip-modifiers",
  "Two fixed trees are snapshot-tested with the flag.",
  [F+"hir/translator.rs", F+"sol/translator.rs"],
  [("skip statement", F+"hir/translator.rs: visit_root, visit_condition"), ("import/base", F+"sol/translator.rs: visit_root, visit_contract")],
  ["bulloak_foundry::scaffold::scaffold text"])
p("C15", "The contract header carries the requested version and the root's name",
  "The generated file starts with the license line and `pragma solidity <requested version>;`, and contains exactly one contract, named after the root of the tree(s).",
  ["inputs", "configurations"], "every version string within the length bound over version characters and every root name over identifier characters",
  "Tests use the default version and a few root names.",
  [F+"sol/translator.rs", F+"sol/fmt.rs", F+"config.rs"],
  [("pragma", F+"sol/translator.rs: visit_root"), ("contract name", F+"sol/translator.rs: visit_contract")],
  ["bulloak_foundry::scaffold::scaffold text"])
p("C16", "Generated output is always well-formed, formatted, collision-free Solidity",
  "Whenever scaffolding a tree succeeds, the output parses as Solidity, formatting it again changes nothing, and no contract in it defines the same function or modifier twice; when no such output exists, scaffolding returns an error instead of crashing.",
  ["inputs", "configurations"], "every bounded tree accepted by the parser, with symbolic characters in root, titles, actions and descriptions, and all flag combinations",
  "Output validity depends on the characters that reach identifiers, string-disguised comments and the formatter; tests use benign texts.",
  [F+"scaffold/mod.rs", F+"sol/translator.rs", F+"sol/fmt.rs", S+"utils.rs"],
  [("formatting", F+"scaffold/mod.rs: scaffold"), ("identifier sanitising", S+"utils.rs: sanitize"), ("comment escaping", F+"sol/fmt.rs")],
  ["bulloak_foundry::scaffold::scaffold result"])
p("C17", "Multi-tree files combine into one contract by the documented rules",
  "For a file with several trees, either every root reads `Name::function` with the same Name, and the output is the one contract `Name` holding every tree's tests in order with the function name inserted after `test_` and each modifier defined once; or scaffolding fails, naming the first offending root.",
  ["inputs"], "every bounded combination of up to three trees with symbolic root names, separators and shared/distinct conditions",
  "Tests cover a few fixed files; dedup, prefixing and mismatch detection depend on the combination of roots and titles.",
  [F+"hir/combiner.rs", F+"hir/mod.rs"],
  [("combination", F+"hir/combiner.rs: Combiner::combine"), ("prefixing", F+"hir/combiner.rs: prefix_test_with"), ("dedup", F+"hir/combiner.rs: collect_modifier")],
  ["bulloak_foundry::scaffold::scaffold", "hir::translate"],
  state=[("unique_modifiers", "modifiers already emitted", F+"hir/combiner.rs")])

p("C18", "What scaffold generates, check accepts",
  "For every tree file that can be scaffolded, running check on that tree and the generated file reports no violation and succeeds; the same holds with vm-skip, any version, and with modifiers skipped on both sides.",
  ["inputs", "configurations"], "every bounded tree/multi-tree file with symbolic titles and roots, for every flag combination",
  "Tests run check on fixed pairs of files, none generated for arbitrary trees.",
  [F+"check/rules/structural_match.rs", F+"check/context.rs", F+"scaffold/mod.rs", F+"sol/mod.rs"],
  [("matching", F+"sol/mod.rs: find_matching_fn"), ("name check", F+"check/rules/structural_match.rs: check_contract_names")],
  ["check verdict for (tree, scaffold(tree))"])
p("C19", "check reports exactly the tests and modifiers that are missing",
  "check reports a missing construct for exactly those functions and modifiers the tree calls for that the Solidity contract does not define with that name and kind (modifiers excepted when skipped), one report each, located at the tree line of the branch; extra constructs never matter.",
  ["inputs", "configurations"], "every subset of the generated constructs kept, renamed, changed in kind, or surrounded by extra Solidity, for bounded trees",
  "Tests have four fixed mismatching files.",
  [F+"check/rules/structural_match.rs", F+"sol/mod.rs"],
  [("presence", F+"check/rules/structural_match.rs: check_fns_structure"), ("match by name and kind", F+"sol/mod.rs: fns_match")],
  ["violations of StructuralMatcher::check", "exit status of `bulloak check`"])
p("C20", "check reports order problems exactly when the order differs",
  "check reports at least one misplaced construct if and only if the constructs present in both tree and contract appear in a different relative order; extra functions, variables, comments and their positions never cause or hide a report.",
  ["inputs"], "every permutation of up to the stated number of constructs interleaved with every placement of extra parts",
  "One fixed reordering is tested.",
  [F+"check/rules/structural_match.rs"],
  [("inversion detection", F+"check/rules/structural_match.rs: check_fns_structure")],
  ["violations of StructuralMatcher::check"])
p("C21", "check verifies that the contract exists and is named after the root",
  "check reports a missing contract exactly when the Solidity file has none, a wrong name exactly when its first contract's name differs from the tree's root, and a missing file exactly when the sibling `.t.sol` does not exist.",
  ["inputs"], "every bounded root name and contract name (symbolic characters), with other top-level items around",
  "Fixed names only.",
  [F+"check/rules/structural_match.rs", F+"check/context.rs"],
  [("contract rule", F+"check/rules/structural_match.rs: StructuralMatcher::check"), ("file pairing", F+"check/context.rs: get_path_with_ext")],
  ["violations of check"])
p("C22", "check --fix repairs everything it claims to fix",
  "After `check --fix` succeeds, the rewritten Solidity file parses and a following check with the same flags reports no fixable violation; the tool never crashes while fixing.",
  ["inputs", "configurations", "histories"], "every subset and permutation of the constructs of bounded trees, extra user parts, contract renames, and both modifier settings",
  "Tests check a handful of fixed broken files; index arithmetic during insertion and reordering depends on which constructs are missing and where extras sit.",
  [F+"check/violation.rs", F+"check/context.rs", B+"check.rs"],
  [("insertion", F+"check/violation.rs: fix, get_insertion_offset"), ("reordering", F+"check/violation.rs: fix_order"), ("two-pass driver", B+"check.rs: run")],
  ["file written by `bulloak check --fix`", "following check"])
p("C23", "check --fix never loses or alters user code",
  "`check --fix` keeps every construct of the user's Solidity file - test bodies, extra functions, state variables, imports, other contracts and comments - exactly once with its content unchanged; it only adds missing constructs, renames the contract, reorders and reformats.",
  ["inputs", "configurations", "histories"], "every bounded arrangement of user parts and bodies around present, missing and misordered constructs",
  "Fixed files only; text-level replacement and slicing fail on repeated text, prefix names and trailing parts.",
  [F+"check/violation.rs", F+"check/context.rs"],
  [("text surgery", F+"check/violation.rs: fix, fix_order"), ("insertion", F+"check/context.rs: insert_function_at")],
  ["file written by `bulloak check --fix`"])
p("C24", "The exit status and report tell the truth about all files",
  "`bulloak check` exits 0 exactly when no file given has a violation, and otherwise prints every violation of every file with a correct total and exits 1; with --fix the success line counts exactly the violations fixed, and a file that cannot be checked is reported and makes the run fail.",
  ["inputs", "configurations", "fault_sequences"], "every combination of up to three files, each clean, violating, unparsable or missing, in every order, with and without --fix",
  "Tests run single files.",
  [B+"check.rs", F+"check/violation.rs"],
  [("aggregation", B+"check.rs: run, exit")],
  ["exit status, stdout and stderr of `bulloak check`"])
p("C25", "Files are only written when and where the user asked",
  "scaffold writes only with -w, only the sibling `.t.sol` of a given tree, and replaces an existing one only with -f; check writes only with --fix and not --stdout, and then only that Solidity file; tree files are never modified.",
  ["inputs", "configurations", "fault_sequences"], "every combination of flags, pre-existing files, tree validity and file names within the bounds",
  "Tests cover two flag combinations.",
  [B+"scaffold.rs", B+"check.rs"],
  [("overwrite guard", B+"scaffold.rs: write_file"), ("stdout switch", B+"check.rs: write")],
  ["file system before and after a run"])
p("C26", "One bad file never affects the others in a batch",
  "When several files are given to scaffold, each good file's output is the same as when it is given alone and is produced, each bad file is reported by name, and the run fails exactly when at least one file is bad.",
  ["inputs", "configurations", "fault_sequences"], "every combination and order of up to three files that are good, malformed, missing or not UTF-8",
  "Tests scaffold single files.",
  [B+"scaffold.rs"],
  [("per-file processing", B+"scaffold.rs: run, process_file, report_errors")],
  ["exit status, stdout, stderr and files of `bulloak scaffold`"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P), "properties")
