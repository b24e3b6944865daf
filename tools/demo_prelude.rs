#![allow(dead_code, unused_imports, unused_mut)]
use bongo::grammar::passes::PassContext;
use bongo::grammar::{build, Elem, Grammar, ProdElement};
use bongo::parsers::earley::parse;
use bongo::parsers::tree::{Alternative, Node, NodeContent, TreeHandle, TreeOwner};
use bongo::parsers::Token;
use bongo::start_grammar::{wrap_grammar_with_start, StartGrammar};
use bongo::utils::Name;
use std::collections::{BTreeMap, BTreeSet};

type G = Grammar<String, String, String, ()>;
type SG = StartGrammar<String, String, String, ()>;

/// "A: key = x:B c | key2 =": capitals are nonterminals.  The first rule is
/// the one of the start symbol.
fn try_gram(rules: &[&str]) -> Option<G> {
  let start = rules[0].split(':').next().unwrap().trim().to_string();
  build::<String, String, String, ()>(start, |gb| {
    for r in rules {
      let (head, body) = r.split_once(':').unwrap();
      gb.add_rule(head.trim().to_string(), |rb| {
        for p in body.split('|').filter(|p| p.contains('=')) {
          let (key, es) = p.split_once('=').unwrap();
          rb.add_prod(key.trim().to_string(), (), |pb| {
            for e in es.split_whitespace() {
              let (name, e) = match e.split_once(':') {
                Some((n, e)) => (Some(n), e),
                None => (None, e),
              };
              let nt = e.chars().next().unwrap().is_uppercase();
              match (nt, name) {
                (true, Some(n)) => pb.add_named_nonterm(n, e.to_string()),
                (true, None) => pb.add_nonterm(e.to_string()),
                (false, Some(n)) => pb.add_named_term(n, e.to_string()),
                (false, None) => pb.add_term(e.to_string()),
              };
            }
          });
        }
      });
    }
  })
  .ok()
}

fn gram(rules: &[&str]) -> G {
  try_gram(rules).unwrap()
}

fn wrapped(rules: &[&str]) -> SG {
  wrap_grammar_with_start(gram(rules)).ok().unwrap()
}

/// One token for each character: its kind, and its position as value.
fn toks(s: &str) -> Vec<Token<String, usize>> {
  s.chars().enumerate().map(|(i, c)| Token::new(c.to_string(), i)).collect()
}

fn accepts(g: &SG, s: &str) -> bool {
  let owner = TreeOwner::new();
  let h = owner.handle();
  let r = parse(g, &h, toks(s)).is_some();
  r
}

/// The trees below a node, up to a depth.
fn trees(n: &Node<String, String, usize>, depth: usize) -> BTreeSet<String> {
  let mut out = BTreeSet::new();
  if depth == 0 {
    return out;
  }
  for a in n.alts() {
    match a.content() {
      NodeContent::Leaf(l) => {
        out.insert(format!("{}{}", l.kind(), l.value()));
      }
      NodeContent::Branch(b) => {
        let mut acc = vec![String::new()];
        for c in b.nodes() {
          let below = trees(&c, depth - 1);
          acc = acc
            .iter()
            .flat_map(|s| below.iter().map(move |t| format!("{} {}", s, t)))
            .collect();
        }
        out.extend(acc.iter().map(|s| format!("{}({})", b.action(), s.trim())));
      }
    }
  }
  out
}

fn trees_of(g: &SG, s: &str, depth: usize) -> BTreeSet<String> {
  let owner = TreeOwner::new();
  let h = owner.handle();
  let r = match parse(g, &h, toks(s)) {
    Some(n) => trees(&n, depth),
    None => BTreeSet::new(),
  };
  r
}

fn set(items: &[&str]) -> BTreeSet<String> {
  items.iter().map(|s| s.to_string()).collect()
}

fn panics(f: impl FnOnce()) -> bool {
  std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err()
}

