#![allow(dead_code, unused_imports)]
use noodle::{parser::QueryAst, QueryEvaluator, QueryResponse, Word};
use std::time::{Duration, Instant};

/// words with rarity levels, in the engine's order
fn words(ws: &[(&str, u8)]) -> Vec<Word> {
    let mut v: Vec<Word> = ws.iter().map(|(w, t)| Word::new(w, *t, 0)).collect();
    v.sort();
    v
}
fn level0(ws: &[&str]) -> Vec<Word> {
    words(&ws.iter().map(|w| (*w, 0)).collect::<Vec<_>>())
}
fn text(p: &[Word]) -> String {
    p.iter().map(|w| w.text.to_string()).collect::<Vec<_>>().join(" ")
}
/// every match of a query, in order, at most `max` responses
fn matches_max(q: &str, ws: &[Word], max: usize) -> Vec<String> {
    let ast = QueryAst::new_from_str(q).unwrap_or_else(|e| panic!("{}: {}", q, e));
    let mut out = vec![];
    for r in QueryEvaluator::from_ast(&ast, ws).take(max) {
        if let QueryResponse::Match(p) = r {
            out.push(text(&p));
        }
    }
    out
}
fn matches(q: &str, ws: &[Word]) -> Vec<String> {
    matches_max(q, ws, 100000)
}
fn sorted(mut v: Vec<String>) -> Vec<String> {
    v.sort();
    v
}
fn strs(v: &[&str]) -> Vec<String> {
    v.iter().map(|s| s.to_string()).collect()
}
