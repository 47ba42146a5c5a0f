#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of claimed properties below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import check

AI = "abstract interpretation (path-sensitive, symbolic terms and ghost typestates, fixpoint over loops) of the MIR of "
TECH = {
    "C05": (AI + "the evaluator, the word matcher and the transition-table code: typestate of consulted expressions, symbolic set expressions for table rows", "Paths with 1 and 2 (thorough: 3) expressions; table rows for words of 1-3 letters, 0-3 edits, 1-2 states, contents symbolic; std and bit-set calls by their models (bit sets themselves: C31)."),
    "C06": (AI + "next_within_deadline: depth-first search position typestate", "1 and 2 (3) expressions, any queue, layer and word position."),
    "C07": (AI + "next_within_deadline, from_ast and the web handlers", "All paths of the evaluator's step function, all query states; std calls by the models in lib/models.py."),
    "C08": (AI + "next_within_deadline and the iterator, plus a who-writes query on the phase field", "All paths, all states."),
    "C09": (AI + "next_within_deadline and next_single_word: clock-test typestate between search steps", "1 and 2 (3) expressions; the interval is bounded in search steps, not in time."),
    "C10": (AI + "next_within_deadline and next_single_word: obligation typestate (examined, owed, drained)", "1 and 2 (3) expressions; any state at which a slice may begin."),
    "C12": (AI + "next_single_word and the table fill: which rows are valid for which letters", "Any words; table fill for words of 1-3 letters with symbolic contents."),
    "C13": (AI + "next_single_word, optimize_for_wordlist and the phrase search: length and index correspondence of the word and class lists", "Any lists; 1 and 2 (3) expressions in the phrase search."),
    "C16": (AI + "Word's ordering, the word search and the set-up of the search queue", "Any words; sizes as symbolic terms."),
    "C24": (AI + "the table fill, the letter transition and the phrase step: symbolic set expressions per edit count", "0-3 edits, 1-2 states, words of 1-3 letters, contents symbolic."),
    "C32": (AI + "filter_search_phases (symbolic sets over small queues) and the pruning in next_within_deadline", "Queues of 1-3 phases of up to 3 words; success answers unconstrained."),
    "C04": (AI + "QueryAst::new_from_str on given terms (anagram terms inside every kind of term); the generated constraints are read back as values and compared as languages by derivatives", "Banks of 1-4 letters, 5 kinds, terms nested up to 2 (thorough: 3) levels, 1-3 anagrams per line, 1-3 lines."),
    "C20": (AI + "ExpressionAst::new_from_str (options), the compilation of an expression (flags) and the table fill (skipping)", "Terms nested up to 2 (3) levels with every kind of letter set in every place; table fill for words of 1-3 letters, contents symbolic."),
    "C14": (AI + "Word::new on symbolic characters with the Unicode steps uninterpreted; the path summaries are evaluated against the documented spelling for every Unicode character, every maker of a symbol is bounded by 27", "Texts of 0-2 characters; characters without decomposition or case above U+0600 sampled."),
    "C15": (AI + "load_wordlist on symbolic lines (path summaries evaluated on witness lines), sortedness as a typestate, owners of mutable word lists by type", "Files of 1 and 2 lines, about 45 witness lines; inline lists of up to 3 words."),
    "C23": (AI + "the function that compiles a term into states: bit sets as exact index sets, the states read back as values and compared with the term's regular language by derivatives; edges must stay inside the group", "Every construct with 1-3 operands and bounds 0-3 over every construct, two (thorough: three) levels deep; letters distinct. A substring group may also match nothing."),
    "C17": (AI + "the query parser and the expression builders against the grammar: each operator's parse tree is walked symbolically with opaque operands and compared with the documented meaning", "Structural induction: one operator over opaque operands (counts and lengths symbolic where the code allows); the grammar is parsed from the source."),
    "C18": ("grammar reachability (PEG interpretation of src/parser.pest with generated witnesses) plus " + AI + "the tree walkers: every alternative is matched by some text and reaches no panic", "Witnesses up to the generator's bound; operands opaque."),
    "C19": (AI + "QueryAst::new_from_str over line kinds: each directive sets its option and nothing else", "All line kinds the grammar gives, 1-2 lines per query, contents symbolic."),
    "C21": (AI + "QueryAst::new_from_str and the parse error conversion: line-number provenance", "An error line after 0-2 other lines of each kind."),
    "C31": (AI + "the bit-set operations and the letter sets over a known-bits domain: every operation is compared with the set operation element by element, storage is symbolic memory", "Sizes around the block boundaries, 1-3 (4) blocks, 1-3 dimensions; contents symbolic."),
    "C01": ("inventory of unsafe constructs from the compiler's HIR plus " + AI + "every function holding one: each unchecked access is in range on every path (numeric domain, release configuration)", "All inputs; integers assumed below 2^63."),
    "C25": (AI + "the server's request handlers (async bodies put back into straight code): counter ghosts at every exit and at the drop of the future at each await", "All paths; library calls opaque; tokio drops what it abandons."),
    "C26": (AI + "the server's request handlers: clock readings as symbols, deadlines as linear terms over them", "All paths; times as integer nanoseconds; relies on C09."),
    "C28": (AI + "the websocket handler: poll-before-slice typestate, slice length as a bound on a linear term over clock readings", "All paths; relies on C09 and on warp ending the stream when the client goes."),
    "C30": (AI + "the request handlers, the loading of the server's lists and QueryEvaluator::from_ast: which list reaches the evaluator, symbolically", "All paths; map lookups as two-way forks; a default list is assumed to exist."),
    "C03": (AI + "every function the server's routes start, and the progress report: reachability of a panic", "All paths; library calls of the handlers opaque (parsing: C02)."),
    "C29": (AI + "the command-line tool's main, its generated option declarations and readers: which option's value reaches which setter before the first answer, and what is printed per answer, as symbolic text", "Matches of 1, 2, 3 and 11 words, any sequence of answers; runs of 3 answers when main keeps something between answers. clap and the library calls by model."),
    "C11": ("effect analysis over the call graph of the compiler's monomorphised MIR (every function reachable from parsing and searching, each std call classified) plus " + AI + "the flow of clock readings", "All reachable functions; dynamic calls by the types unsized into them."),
    "C27": ("cross-language protocol comparison: " + AI + "the compiled Serialize implementations and frame makers give the messages' JSON shapes; abstract interpretation of the page's scripts (ESTree) against each shape; the directive lines the page can build against the .pest grammar and " + "QueryAst::new_from_str", "All message forms in sequences of up to two, all option values of the page; lists of two words."),
    "C22": (AI + "QueryAst::new_from_str: macro table writes and replacement order", "Macros and uses over 1-3 lines of each kind."),
    "C33": (AI + "the compilation of a term through Expression::from_ast, the letter sets as symbols: the final states are read back as values and their language compared with the term's by derivatives; the transition and success functions over symbolic rows", "Every construct with small counts, two (thorough: three) levels deep; letter sets symbolic (one possibly empty)."),
    "C34": (AI + "the simplification of compiled states: the language read from the states before and after, letter sets as symbols, compared by derivatives", "The same terms as C33; the per-word-list state reduction (optimize_for_wordlist) is not analysed."),
}
NA = {
    "C35": "equality with Levenshtein distance is a statement about run-time tables; its local static part is C24",
    "C36": "completeness of the phrase search depends on the run-time tables and pruning together; its local static parts are C10, C13 and C32",
    "C37": "round trip of printing and parsing is an input/output relation over unbounded trees that the printer is not meant to satisfy for every expression",
    "C38": "promptness under load is a scheduling property of tokio and of run-time durations; the bounded-slice part is C28",
}


def main():
    props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if i in TECH and i in check.MODULES:
            t, n = TECH[i]
            checks.append(dict(property=i, quick_cmd=f"python3 check.py {i}", thorough_cmd=f"python3 check.py {i} --thorough",
                               evidence_file=f"evidence/{i}.json", technique=t, level="other", level_note=n))
        else:
            na.append(dict(property=i, reason=NA.get(i, "no check built yet")))
    d = dict(version=1, setup_cmd="python3 lib/dumps.py", checks=checks, not_applicable=na)
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(d, f, indent=1)
        f.write("\n")


main()
