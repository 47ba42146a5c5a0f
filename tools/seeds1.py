Q, M, X = "noodle/src/query.rs", "noodle/src/matcher.rs", "noodle/src/expression.rs"
SEEDS = [
 dict(id="phrase-limit-skip", prop="C07",
  edits=[(Q, "&& self.results_count >= self.results_limit.unwrap()\n            && !matches!(self.phase, QueryPhase::Done)", "&& self.results_count >= self.results_limit.unwrap()\n            && !matches!(self.phase, QueryPhase::Done | QueryPhase::Phrase { .. })")],
  main='''fn main() {
    let ws = level0(&["ab", "cd", "ef"]);
    // no single word matches, four-letter phrases do
    assert_eq!(matches("....; #limit 2; #words 2", &ws).len(), 2);
}''',
  needs="a limit reached while phrases are being reported", breaks="the results limit is not applied in the phrase search"),
 dict(id="mid-timeout-drops-match", prop="C10",
  edits=[(Q, "                    let word_index = prev_layer.word_index;\n", "                    let word_index = prev_layer.word_index;\n                    if deadline_check_count % 8 == 3 && deadline.is_some() && Some(Instant::now()) > deadline {\n                        prev_layer.word_index += 1;\n                        return QueryResponse::Timeout;\n                    }\n")],
  main='''fn main() {
    let names: Vec<String> = (0..12u8).map(|i| format!("{}{}", (b'a' + i) as char, (b'a' + i) as char)).collect();
    let ws = level0(&names.iter().map(|s| &s[..]).collect::<Vec<_>>());
    let q = "(aabbcc|llkkjj|kkaall); #words 3";
    let all = sorted(matches(q, &ws));
    for slice in [0u64, 1, 3, 5, 10, 20, 40, 80] {
        let ast = QueryAst::new_from_str(q).unwrap();
        let mut ev = QueryEvaluator::from_ast(&ast, &ws);
        let mut got = vec![];
        for n in 0..2000000u64 {
            let d = if n > 200000 { None } else { Some(Instant::now() + Duration::from_micros(slice + n % 7)) };
            match ev.next_within_deadline(d) {
                QueryResponse::Match(p) => got.push(text(&p)),
                QueryResponse::Complete(_) => break,
                _ => {}
            }
        }
        assert_eq!(sorted(got), all, "slices of {} us", slice);
    }
}''',
  needs="a deadline that passes between two clock tests of the phrase search", breaks="the word under examination is skipped when the search is interrupted"),
 dict(id="alive-before-cut", prop="C13",
  edits=[(M, "                if i < new_input_wordlist.len() && *word == *new_input_wordlist[i] {\n                    if class_index != 0 {\n                        new_word_classes.push(class_index);\n                        new_alive_wordlist.push(word);", "                if i < new_input_wordlist.len() && *word == *new_input_wordlist[i] {\n                    new_alive_wordlist.push(word);\n                    if class_index != 0 {\n                        new_word_classes.push(class_index);"),
         (M, "            assert_eq!(new_word_classes.len(), new_alive_wordlist.len());\n            assert_eq!(i,", "            assert!(new_word_classes.len() <= new_alive_wordlist.len());\n            assert_eq!(i,")],
  main='''fn main() {
    // cut out: words that end where nothing is left, kept only by the first expression
    for q in ["ab.*; .*cd; #words 2", "abcd; ..cd", "a*b*; .*"] {
        let ws = level0(&["ab", "abx", "cd", "xcd", "zz", "a", "b", "abc", "bcd", "d"]);
        let pat = matches(q, &ws);
        for m in pat {
            let s: String = m.chars().filter(|c| *c != ' ').collect();
            let ok = match q {
                "abcd; ..cd" => s == "abcd",
                "ab.*; .*cd; #words 2" => s.starts_with("ab") && s.ends_with("cd"),
                _ => s.trim_start_matches('a').chars().all(|c| c == 'b'),
            };
            assert!(ok, "{} reported for {}", m, q);
        }
    }
}''',
  needs="a word that is kept although its table has become empty", breaks="words and classes get out of step"),
 dict(id="fuzz-drop-change", prop="C24",
  edits=[(X, "                    let change_set_group =\n                        self.char_transitions(CharBitset::LETTERS, state_transitions);", "                    let change_set_group =\n                        self.char_transitions(CharBitset::LETTERS_BUT_I, state_transitions);")],
  main='''fn main() {
    let ws = level0(&["bat", "bit", "but"]);
    assert_eq!(sorted(matches("bit !1; #words 1", &ws)), strs(&["bat", "bit", "but"]));
}''',
  needs="a pattern with the letter i in the place that is replaced", breaks="the letter i of a pattern cannot be replaced"),
 dict(id="prefix-keep-len", prop="C12",
  edits=[(M, "                && prefix_len < self.table_chars.len()\n", "                && prefix_len <= self.table_chars.len().wrapping_sub(1)\n"),
         (M, "            self.table_chars = &word.chars[0..partial_len];\n            if partial_len < word_len {\n                continue;\n            }", "            if partial_len < word_len {\n                self.table_chars = &word.chars[0..prefix_len.max(partial_len)];\n                continue;\n            }\n            self.table_chars = &word.chars[..];")],
  main='''fn main() {
    for q in ["ab.", "a.c", ".bd", "a(bc|d)e"] {
        let all = ["abc", "abd", "abe", "acc", "acd", "adc", "ade", "bbd", "abce"];
        let ws = level0(&all);
        let alone: Vec<String> = ws.iter().flat_map(|w| matches(&format!("{}; #words 1", q), std::slice::from_ref(w))).collect();
        assert_eq!(matches(&format!("{}; #words 1", q), &ws), alone, "{}", q);
    }
}''',
  needs="two words with a common prefix of which the first is cut short", breaks="the remembered letters are longer than the part of the table that was filled"),
 dict(id="filter-depth-off", prop="C32",
  edits=[(M, "search_phases.retain(|p| p.depth != w || p.tranche != tranche);\n                }", "search_phases.retain(|p| p.depth > w || p.tranche != tranche);\n                }")],
  main='''fn main() {
    // the common words alone cannot do it, one rare word is needed
    let ws = words(&[("ab", 0), ("cd", 2), ("ef", 1), ("gh", 2)]);
    assert_eq!(sorted(matches("(abef|cdab)", &ws)), strs(&["ab ef", "cd ab"]));
    let ws = words(&[("ab", 0), ("cd", 1), ("x", 3)]);
    assert_eq!(matches("cdab", &ws), strs(&["cd ab"]));
    let ws = words(&[("ab", 0), ("abab", 0), ("cd", 1)]);
    assert_eq!(sorted(matches("(abab|cd)(cd|ab)?", &ws)).len(), 10);
}''',
  needs="a number of words that succeeds below a number of words that cannot", breaks="phases of fewer words are dropped together with a phase of more words"),
]
