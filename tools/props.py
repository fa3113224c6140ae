"""Which harness runs decide which property: (entry, args, seconds), and what every run must reach."""

# entry -> (functions of interest, what is symbolic and what bounds it)
BOUNDS = {
    "h_raw": "every text of exactly {0} characters out of all of ASCII and 139 representative other characters",
    "h_raw_after": "every continuation by {0} such characters of the text prefix number {1}",
    "h_soup": "every sequence of {0} items (glyphs, keywords, one-character words, line breaks with indentation 0-2); variant {1}",
    "h_lines": "every file of a root and {0} lines built from indentation (0-3 levels), glyph, keyword or word, optional second word; variant {1}",
    "h_tree": "every well-formed tree of {0} branches; one branch's title has a word of {1} arbitrary characters",
    "h_keyword": "every word of {0} characters in syntactic position {1}",
    "h_layout": "every well-formed tree of {0} branches with one decoration at any place; comments of {1} arbitrary characters",
    "h_dups": "every arrangement of {0} sibling or nested branches with titles of one or two words of {2} symbolic characters; mode {1}",
    "h_multi": "files of {0} trees with arbitrary separators; mode {1} (1: CRLF, 2: comment blocks)",
    "f_tree": "every well-formed tree of {0} branches; one branch's title has a word of {1} arbitrary characters; aspect {2}",
    "f_revert": "every tree of {0} branches with actions around 'it should revert' in four conditions spellings; {1} arbitrary characters after 'rever'; aspect {2}",
    "f_root": "a small tree under a root of {1} arbitrary characters (variant {0}: 1 = after a capital letter); aspect {2}",
    "f_multi": "files of {0} trees with roots of 4 or 9 kinds and 4 kinds of bodies sharing titles; variant {1}; aspect {2}",
    "f_version": "every version string of {0} characters out of digits, '.', '^', '<', '>', '=', '~', '|', 'x' and blank; vm-skip {1}",
    "f_long": "conditions nested {0} deep with long titles, actions of up to 36 words; aspect {2}",
    "h_hash": "{0} branches with three possible titles, arbitrary hash functions",
    "c_hash": "every tree of {0} branches (two trees with 64) against every arrangement of its functions, with one fixed and with arbitrary hash functions; variant {1} (1 check, 2 check --fix, 4 scaffold, 64 two trees)",
    "c_check": "every tree of {0} branches (two trees with 64) against every arrangement of its functions and modifiers in a contract: present, absent, misnamed, of the other kind, in any order, with extras; variant {1} (bits: 1 extra constructs, 2 an arbitrary identifier character, 4 bodies, comments and layouts, 64 two trees, 128 no descriptions); aspect {2}",
    "c_contract": "every tree of up to {0} branches against files with no, one or two contracts of related names among other declarations, or no file; aspect {2}",
    "c_fix": "every tree of {0} branches against every arrangement of its functions and modifiers, then check --fix and check; variant {1} (bits: 1 extra constructs, 2 a comment with an arbitrary character, 4 bodies, 8 no white space, 16 a stray comment anywhere, 32 CRLF, 64 two trees, 128 no descriptions, 256 five kinds of text after the contract, with and without a line end); aspect {2}",
    "c_batch": "every batch of {0} pairs of files of {1} kinds (good, several violations, missing, malformed, unreadable, a directory), each violation count varied; --fix {2}; whole runs of the command",
    "f_titles": "every tree of {0} branches without descriptions whose condition titles (variant 1: all titles) are of two letters with a symbolic one among two cases, another and '_'; aspect {2}",
    "c_swrites": "scaffold with every combination of -w, -f, -S, 6 spellings of the path, 4 states of the target, good and bad tree, other files around; with {0} other trees given",
    "c_cwrites": "check with every combination of --fix, --stdout, {0} kinds of file pairs, 6 spellings of the path, other files around; {1} other pairs given",
    "c_sbatch": "scaffold over every batch of {0} files of {1} kinds (3 good, 9 bad), with and without -w -f; whole runs of the command",
}

PROPS = {
    "C01": dict(
        quick=[("h_raw", (1, 1), 60), ("h_raw", (2, 1), 60), ("h_raw", (3, 1), 120)]
        + [("h_raw_after", (2, k), 60) for k in range(7)] + [("h_raw_after", (1, k), 60) for k in range(7)],
        thorough=[("h_raw", (4, 1), 2400)] + [("h_raw_after", (3, k), 900) for k in range(7)],
        marks=["accepted", "rejected"]),
    "C02": dict(
        quick=[("h_tree", (1, 2, 2), 60), ("h_tree", (2, 2, 2), 60), ("h_tree", (3, 1, 2), 60), ("h_tree", (4, 1, 2), 90), ("h_lines", (2, 0, 2), 60), ("h_lines", (3, 4, 2), 120), ("h_lines", (3, 20, 2), 60)],
        thorough=[("h_tree", (5, 1, 2), 1200), ("h_tree", (3, 2, 2), 600), ("h_tree", (2, 3, 2), 900), ("h_lines", (3, 0, 2), 900)],
        marks=["accepted"]),
    "C03": dict(
        quick=[("h_keyword", (n, b, 0), 60) for n in (2, 4, 5) for b in range(9)] + [("h_keyword", (1, b, 1), 60) for b in range(9)],
        thorough=[("h_keyword", (n, b, 1), 400) for n in (2, 3) for b in range(9)] + [("h_keyword", (6, b, 0), 400) for b in range(9)],
        marks=["condition keyword", "action keyword"]),
    "C04": dict(
        quick=[("h_layout", (1, 2), 60), ("h_layout", (2, 1), 60), ("h_layout", (3, 1), 90)],
        thorough=[("h_layout", (3, 2), 900), ("h_layout", (4, 1), 900), ("h_layout", (2, 3), 900)],
        marks=["own-line comment", "trailing comment", "blanks", "drawing", "comment before the root"]),
    "C05": dict(
        quick=[("h_soup", (1, 0, 5), 30), ("h_soup", (2, 0, 5), 30), ("h_soup", (2, 1, 5), 30), ("h_soup", (3, 2, 5), 60), ("h_soup", (3, 0, 5), 60), ("h_soup", (4, 2, 5), 90),
               ("h_lines", (2, 0, 5), 60), ("h_lines", (2, 3, 5), 60), ("h_lines", (3, 4, 5), 120), ("h_lines", (3, 20, 5), 60)],
        thorough=[("h_soup", (5, 2, 5), 1200), ("h_soup", (4, 0, 5), 900), ("h_lines", (3, 0, 5), 900), ("h_lines", (4, 4, 5), 1800)],
        marks=["accepted", "rejected"]),
    "C06": dict(
        quick=[("h_soup", (1, 1, 6), 30), ("h_soup", (2, 0, 6), 30), ("h_soup", (2, 1, 6), 30), ("h_soup", (3, 0, 6), 60), ("h_soup", (4, 2, 6), 90),
               ("h_lines", (2, 0, 6), 60), ("h_lines", (2, 3, 6), 60), ("h_lines", (3, 4, 6), 120), ("h_lines", (3, 20, 6), 60)],
        thorough=[("h_soup", (4, 0, 6), 1200), ("h_soup", (5, 2, 6), 1800), ("h_lines", (3, 0, 6), 900)],
        marks=["rejected", "placed"]),
    "C07": dict(
        quick=[("h_dups", (2, 0, 1), 60), ("h_dups", (2, 1, 1), 60), ("h_dups", (2, 2, 1), 60), ("h_dups", (2, 1, 2), 90), ("h_dups", (2, 0, 2), 90)],
        thorough=[("h_dups", (3, 0, 1), 1200), ("h_dups", (3, 1, 1), 1200), ("h_dups", (2, 2, 2), 1200)],
        marks=["collision", "no collision"]),
    "C08": dict(
        quick=[("h_multi", (1, 2), 60), ("h_multi", (2, 2), 60), ("h_multi", (2, 3), 60), ("h_multi", (3, 0), 120)],
        thorough=[("h_multi", (3, 2), 1800), ("h_multi", (3, 1), 900)],
        marks=["accepted", "rejected"]),
    "C09": dict(
        quick=[("h_hash", (3,), 60), ("h_hash", (4,), 60), ("c_hash", (3, 1), 60), ("c_hash", (3, 2), 60), ("c_hash", (4, 4), 60), ("c_hash", (2, 65), 60), ("c_hash", (2, 68), 60)],
        thorough=[("h_hash", (5,), 1800), ("c_hash", (4, 1), 900), ("c_hash", (4, 2), 900), ("c_hash", (2, 66), 300)],
        marks=["rejected", "same"]),
    "C10": dict(
        quick=[("f_tree", (2, 2, 10), 90), ("f_tree", (3, 1, 10), 60), ("f_tree", (4, 1, 10), 90), ("f_tree", (5, 0, 10), 60), ("f_revert", (2, 1, 10), 60), ("f_revert", (3, 0, 10), 60), ("f_revert", (4, 0, 10), 90), ("f_long", (3, 0, 10), 30), ("f_multi", (2, 1, 10), 60), ("f_titles", (5, 1, 10), 60)],
        thorough=[("f_tree", (3, 2, 10), 1200), ("f_tree", (5, 1, 10), 1200), ("f_tree", (6, 0, 10), 600), ("f_tree", (7, 0, 10), 600), ("f_revert", (3, 1, 10), 900)],
        marks=["generated", "refused"]),
    "C11": dict(
        quick=[("f_tree", (2, 2, 11), 90), ("f_tree", (3, 1, 11), 60), ("f_tree", (4, 1, 11), 90), ("f_tree", (5, 0, 11), 60), ("f_revert", (3, 0, 11), 60), ("f_long", (2, 0, 11), 30), ("f_long", (3, 0, 11), 30), ("f_multi", (1, 0, 11), 30), ("f_multi", (2, 0, 11), 30)],
        thorough=[("f_tree", (3, 2, 11), 1800), ("f_tree", (5, 1, 11), 1800), ("f_tree", (6, 0, 11), 600), ("f_tree", (7, 0, 11), 900)],
        marks=["generated"]),
    "C12": dict(
        quick=[("f_tree", (2, 2, 12), 90), ("f_tree", (3, 1, 12), 60), ("f_tree", (4, 1, 12), 90), ("f_tree", (5, 0, 12), 60), ("f_tree", (6, 0, 12), 60), ("f_long", (2, 0, 12), 30), ("f_long", (4, 0, 12), 30), ("f_multi", (2, 0, 12), 60), ("f_multi", (3, 0, 12), 90), ("f_titles", (4, 0, 12), 60), ("f_titles", (6, 0, 12), 60)],
        thorough=[("f_tree", (3, 2, 12), 1800), ("f_tree", (5, 1, 12), 1800), ("f_tree", (7, 0, 12), 1200)],
        marks=["generated", "modifier used"]),
    "C13": dict(
        quick=[("f_tree", (2, 1, 13), 60), ("f_tree", (3, 1, 13), 90), ("f_tree", (4, 0, 13), 60), ("f_tree", (5, 0, 13), 60), ("f_long", (3, 0, 13), 30), ("f_multi", (2, 0, 13), 60), ("f_revert", (2, 0, 13), 60), ("f_root", (0, 1, 13), 60), ("f_titles", (5, 0, 13), 60)],
        thorough=[("f_tree", (2, 2, 13), 900), ("f_tree", (4, 1, 13), 900), ("f_tree", (6, 0, 13), 900), ("f_multi", (3, 0, 13), 900)],
        marks=["generated", "modifiers skipped"]),
    "C14": dict(
        quick=[("f_tree", (2, 1, 14), 60), ("f_tree", (3, 1, 14), 90), ("f_tree", (4, 0, 14), 60), ("f_tree", (5, 0, 14), 60), ("f_long", (3, 0, 14), 30), ("f_multi", (2, 0, 14), 60), ("f_revert", (2, 0, 14), 60), ("f_root", (0, 1, 14), 60)],
        thorough=[("f_tree", (2, 2, 14), 900), ("f_tree", (4, 1, 14), 900), ("f_tree", (6, 0, 14), 900), ("f_multi", (3, 0, 14), 900)],
        marks=["generated"]),
    "C15": dict(
        quick=[("f_root", (0, 1, 15), 60), ("f_root", (0, 2, 15), 60), ("f_root", (1, 1, 15), 60), ("f_root", (1, 2, 15), 60), ("f_version", (3, 0), 30), ("f_version", (5, 1), 30), ("f_multi", (1, 1, 15), 60), ("f_multi", (2, 1, 15), 90), ("f_tree", (3, 0, 15), 60)],
        thorough=[("f_root", (1, 3, 15), 1200), ("f_root", (0, 3, 15), 1200), ("f_version", (8, 1), 300), ("f_multi", (3, 0, 15), 900), ("f_tree", (5, 0, 15), 300)],
        marks=["generated", "refused"]),
    "C16": dict(
        quick=[("f_tree", (2, 1, 16), 60), ("f_tree", (3, 1, 16), 60), ("f_tree", (4, 0, 16), 60), ("f_tree", (5, 0, 16), 60), ("f_root", (0, 1, 16), 60), ("f_root", (0, 2, 16), 60), ("f_root", (1, 1, 16), 60), ("f_multi", (2, 0, 16), 60), ("f_long", (3, 0, 16), 30), ("f_revert", (2, 1, 16), 90), ("f_titles", (5, 1, 16), 60)],
        thorough=[("f_tree", (2, 2, 16), 900), ("f_tree", (4, 1, 16), 900), ("f_root", (1, 2, 16), 900), ("f_multi", (2, 1, 16), 600), ("f_multi", (3, 0, 16), 900)],
        marks=["generated", "refused", "bad contract name", "clash"]),
    "C17": dict(
        quick=[("f_multi", (2, 0, 17), 60), ("f_multi", (2, 1, 17), 60), ("f_multi", (3, 0, 17), 120)],
        thorough=[("f_multi", (3, 1, 17), 1800), ("f_multi", (4, 0, 17), 1800)],
        marks=["combined", "clash", "offending root"]),
    "C18": dict(
        quick=[("f_tree", (2, 1, 18), 60), ("f_tree", (3, 0, 18), 60), ("f_tree", (4, 0, 18), 60), ("f_tree", (5, 0, 18), 90), ("f_revert", (2, 0, 18), 60), ("f_root", (0, 1, 18), 60), ("f_root", (1, 1, 18), 60), ("f_multi", (2, 0, 18), 90), ("f_long", (2, 0, 18), 30), ("f_titles", (4, 1, 18), 60)],
        thorough=[("f_tree", (1, 2, 18), 400), ("f_tree", (3, 1, 18), 900), ("f_tree", (6, 0, 18), 900), ("f_root", (1, 2, 18), 900), ("f_multi", (2, 1, 18), 900), ("f_multi", (3, 0, 18), 1800)],
        marks=["generated", "refused"]),
    "C19": dict(
        quick=[("c_check", (3, 1, 19), 60), ("c_check", (5, 128, 19), 60), ("c_check", (2, 2, 19), 60), ("c_check", (3, 130, 19), 60), ("c_check", (2, 4, 19), 60), ("c_check", (1, 3, 19), 60), ("c_check", (1, 6, 19), 60), ("c_check", (2, 64, 19), 60), ("c_check", (2, 193, 19), 60)],
        thorough=[("c_check", (3, 1, 19), 1200), ("c_check", (3, 2, 19), 900), ("c_check", (1, 7, 19), 900), ("c_check", (2, 5, 19), 900), ("c_check", (6, 128, 19), 900), ("c_check", (4, 0, 19), 900), ("c_check", (2, 65, 19), 900)],
        marks=["missing", "nothing missing"]),
    "C20": dict(
        quick=[("c_check", (3, 1, 20), 60), ("c_check", (5, 128, 20), 60), ("c_check", (2, 2, 20), 60), ("c_check", (3, 130, 20), 60), ("c_check", (2, 4, 20), 60), ("c_check", (1, 3, 20), 60), ("c_check", (1, 6, 20), 60), ("c_check", (2, 64, 20), 60), ("c_check", (2, 193, 20), 60)],
        thorough=[("c_check", (3, 1, 20), 1200), ("c_check", (3, 2, 20), 900), ("c_check", (1, 7, 20), 900), ("c_check", (2, 5, 20), 900), ("c_check", (6, 128, 20), 900), ("c_check", (4, 0, 20), 900), ("c_check", (2, 65, 20), 900)],
        marks=["sorted", "unsorted"]),
    "C21": dict(
        quick=[("c_contract", (2, 2, 21), 60), ("c_contract", (2, 4, 21), 60)],
        thorough=[("c_contract", (3, 6, 21), 900)],
        marks=["right name", "wrong name", "no contract", "no file"]),
    "C22": dict(
        quick=[("c_fix", (2, 1, 22), 60), ("c_fix", (3, 0, 22), 60), ("c_fix", (2, 12, 22), 60), ("c_fix", (1, 5, 22), 60), ("c_fix", (2, 16, 22), 60), ("c_fix", (2, 32, 22), 60), ("c_fix", (2, 64, 22), 60), ("c_contract", (2, 2, 22), 60), ("c_fix", (3, 1, 22), 90), ("c_fix", (2, 385, 22), 60), ("c_fix", (2, 264, 22), 60)],
        thorough=[("c_fix", (2, 5, 22), 300), ("c_fix", (2, 25, 22), 900), ("c_fix", (3, 3, 22), 900), ("c_fix", (4, 0, 22), 900), ("c_fix", (2, 17, 22), 900), ("c_fix", (3, 16, 22), 900), ("c_fix", (2, 65, 22), 900)],
        marks=["fixed"]),
    "C23": dict(
        quick=[("c_fix", (2, 1, 23), 60), ("c_fix", (3, 0, 23), 60), ("c_fix", (1, 3, 23), 60), ("c_fix", (2, 2, 23), 60), ("c_fix", (2, 4, 23), 60), ("c_fix", (1, 13, 23), 60), ("c_fix", (2, 12, 23), 60), ("c_fix", (2, 16, 23), 60), ("c_fix", (2, 24, 23), 60), ("c_fix", (2, 33, 23), 60), ("c_fix", (1, 64, 23), 60), ("c_contract", (2, 2, 23), 60), ("c_fix", (2, 385, 23), 60), ("c_fix", (2, 264, 23), 60), ("c_fix", (4, 128, 23), 60)],
        thorough=[("c_fix", (3, 7, 23), 1200), ("c_fix", (2, 17, 23), 900), ("c_fix", (3, 16, 23), 900), ("c_fix", (4, 0, 23), 900), ("c_fix", (2, 13, 23), 300), ("c_fix", (2, 25, 23), 900), ("c_fix", (2, 65, 23), 900)],
        marks=["added", "nothing added", "reordered"]),
    "C24": dict(
        quick=[("c_batch", (2, 11, 0), 60), ("c_batch", (2, 11, 1), 60), ("c_batch", (3, 8, 0), 90), ("c_batch", (3, 8, 1), 90), ("c_contract", (2, 2, 24), 60)],
        thorough=[("c_batch", (3, 11, 0), 900), ("c_batch", (3, 11, 1), 900), ("c_batch", (4, 7, 0), 1800), ("c_batch", (4, 7, 1), 1800)],
        marks=["fixed", "violations", "all good", "failed"]),
    "C25": dict(
        quick=[("c_swrites", (0,), 60), ("c_swrites", (1,), 60), ("c_cwrites", (11, 0), 60), ("c_cwrites", (11, 1), 60)],
        thorough=[("c_swrites", (0,), 60), ("c_swrites", (1,), 60), ("c_cwrites", (11, 0), 60), ("c_cwrites", (11, 1), 60)],
        marks=["written", "printed"]),
    "C26": dict(
        quick=[("c_sbatch", (2, 12), 60), ("c_sbatch", (3, 12), 120)],
        thorough=[("c_sbatch", (4, 9), 2400)],
        marks=["all bad", "mixed", "all good"]),
}

ASSUMPTIONS = [
    "bounds as listed under coverage.bounds; nothing is claimed beyond them",
    "the LLVM IR of the dev profile (panic=abort, overflow checks in bulloak's crates) behaves like the shipped build",
    "undef reads as 0; allocation never fails",
    "two third-party look-ups are replaced by equivalent slower ones: phf's map (linear scan) and regex's lazy DFA (backtracking)",
    "HashMap hash values are arbitrary but consistent (SipHash replaced by a fresh function per key)",
    "non-ASCII characters are represented by one or more characters of every class the code distinguishes",
    "where files are involved: a stand-in file system in memory (relative paths, no permissions, no short reads or writes, no other process); a run of the command is a call of its main function on a copy of memory",
]
