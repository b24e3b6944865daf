//! Grammars: building, reading back, analyses, transformation, printing, items.
//!
//! Symbols are integers: terminals are positive, nonterminals negative in
//! element lists and positive as heads.

use crate::util::*;
use bongo::grammar::passes::{
  firsts::Firsts, follows::Follows, nullable::Nullable, PassContext,
};
use bongo::grammar::transform::nonnull::transform_to_nonnull;
use bongo::grammar::{
  build, Elem, Grammar, GrammarErrors, NonTerminal, Prod, ProdElement, Rule,
  Terminal,
};
use bongo::start_grammar::{
  wrap_grammar_with_start, StartActionKey, StartActionValue, StartGrammar,
  StartNonTerminal, StreamTerminal,
};
use bongo::state::{ProdState, ProdStateSet};
use bongo::utils::{Name, ToDoc, TreeNode, TreeValue, Void};
use serde_json::{json, Value};
use std::collections::BTreeMap;

pub type Gram = Grammar<Terminal, NonTerminal, Name, i64>;
pub type SGram = StartGrammar<Terminal, NonTerminal, Name, i64>;

/// Unusual texts that some scenarios use for names, keys and terminals...
const ODD: [&str; 14] = [
  "", " ", "start", "START", "EOS", "ε", "a b", "E", "e", "\u{301}", "|", "<>",
  "a\0b", "\"",
];
/// ... and, below all the usual ones, for the first nonterminal.
const LOW: [&str; 6] = ["", "START", "EOS", " ", "Start", "<"];

thread_local! {
  static STYLE: std::cell::Cell<usize> = std::cell::Cell::new(0);
  static ODD_BACK: std::cell::RefCell<BTreeMap<String, i64>> =
    std::cell::RefCell::new(BTreeMap::new());
}

/// Selects the texts of a scenario; 0 for the usual ones.
fn set_style(style: usize) {
  STYLE.with(|s| s.set(style));
  let mut back = BTreeMap::new();
  if style > 0 {
    for i in 1..=ODD.len() as i64 {
      back.insert(format!("{:?}", term(i)), i);
      back.insert(format!("{:?}", key(i)), i);
    }
    back.insert(format!("{:?}", nonterm(1)), 1);
  }
  ODD_BACK.with(|b| *b.borrow_mut() = back);
}
fn text(prefix: char, i: i64) -> String {
  let style = STYLE.with(|s| s.get());
  if style > 0 && prefix == 'n' && i == 1 {
    LOW[style % LOW.len()].to_string()
  } else if style > 0 && prefix != 'n' && i >= 1 && i <= ODD.len() as i64 {
    ODD[(i as usize + style) % ODD.len()].to_string()
  } else {
    format!("{}{:03}", prefix, i)
  }
}
pub fn term(i: i64) -> Terminal {
  Terminal::new(&text('t', i))
}
pub fn nonterm(i: i64) -> NonTerminal {
  NonTerminal::new(&text('n', i))
}
pub fn key(i: i64) -> Name {
  Name::new(&text('k', i))
}
pub fn ename(i: i64) -> Name {
  Name::new(&text('e', i))
}
/// The number in a name such as Terminal(t012), "n003" or k007; -1 if there is
/// none.
pub fn num(s: impl std::fmt::Debug) -> i64 {
  let s = format!("{:?}", s);
  if let Some(i) = ODD_BACK.with(|b| b.borrow().get(&s).copied()) {
    return i;
  }
  let digits: String = s.chars().filter(|c| c.is_ascii_digit()).collect();
  digits.parse().unwrap_or(-1)
}
pub fn elem(s: i64) -> Elem<Terminal, NonTerminal> {
  if s > 0 {
    Elem::Term(term(s))
  } else {
    Elem::NonTerm(nonterm(-s))
  }
}
pub fn sym(e: &Elem<Terminal, NonTerminal>) -> i64 {
  match e {
    Elem::Term(t) => num(t),
    Elem::NonTerm(n) => -num(n),
  }
}

/// Builds the described grammar.  "how" selects between the equivalent builder
/// methods.
pub fn build_gram(g: &Value) -> Result<Gram, GrammarErrors<NonTerminal>> {
  let how = g["how"].as_i64().unwrap_or(0);
  let start = nonterm(int(&g["start"]));
  build(&start, |gb| {
    for (ri, r) in arr(&g["rules"]).iter().enumerate() {
      let h = nonterm(int(&r["h"]));
      let body = |rb: &mut bongo::grammar::RuleBuilder<_, _, _, _>| {
        for (pi, p) in arr(&r["p"]).iter().enumerate() {
          let syms: Vec<i64> = arr(&p["e"]).iter().map(int).collect();
          let names: Vec<i64> = arr(&p["n"]).iter().map(int).collect();
          let nm = |j: usize| names.get(j).copied().filter(|n| *n > 0);
          let k = key(int(&p["k"]));
          let v = int(&p["v"]);
          let which = (how + ri as i64 + pi as i64) % 3;
          if how == 1 || (how >= 2 && which == 1) {
            let elems: Vec<ProdElement<Terminal, NonTerminal>> = syms
              .iter()
              .enumerate()
              .map(|(j, s)| match nm(j) {
                Some(n) if j % 2 == 0 => {
                  ProdElement::new_with_name(ename(n), elem(*s))
                }
                Some(n) => ProdElement::new(Some(ename(n)), elem(*s)),
                None if j % 3 == 0 => ProdElement::new_empty(elem(*s)),
                None if j % 3 == 1 => ProdElement::new(None, elem(*s)),
                None => ProdElement::from(elem(*s)),
              })
              .collect();
            if pi % 2 == 0 {
              rb.add_prod_with_elems(k, v, elems);
            } else {
              rb.add_prod_with_elems(&k, &v, &elems);
            }
          } else {
            let kname = text('k', int(&p["k"]));
            let fill =
              |pb: &mut bongo::grammar::ProductionBuilder<_, _, _, _>| {
                for (j, s) in syms.iter().enumerate() {
                  match (nm(j), *s > 0) {
                    (None, true) => {
                      if j % 2 == 0 {
                        pb.add_term(&term(*s));
                      } else {
                        pb.add_term(term(*s));
                      }
                    }
                    (None, false) => {
                      if j % 2 == 0 {
                        pb.add_nonterm(&nonterm(-*s));
                      } else {
                        pb.add_nonterm(nonterm(-*s));
                      }
                    }
                    (Some(n), true) => {
                      pb.add_named_term(ename(n), term(*s));
                    }
                    (Some(n), false) => {
                      let n = text('e', n);
                      pb.add_named_nonterm(n.as_str(), &nonterm(-*s));
                    }
                  }
                }
              };
            if which == 2 {
              rb.add_prod(kname.as_str(), v, fill);
            } else {
              rb.add_prod(k, v, fill);
            }
          }
        }
      };
      if ri % 2 == 0 {
        gb.add_rule(&h, body);
      } else {
        gb.add_rule(h, body);
      }
    }
  })
}

/// The three sets in the Debug form of GrammarErrors, by what their names say.
pub fn errors(e: &dyn std::fmt::Debug) -> Value {
  let s = format!("{:?}", e);
  let mut sets: Vec<(String, Value)> = Vec::new();
  let mut rest = &s[..];
  while let Some(p) = rest.find(": {") {
    let name = rest[..p]
      .rsplit(|c: char| !c.is_alphanumeric() && c != '_')
      .next()
      .unwrap_or("")
      .to_lowercase();
    let body = &rest[p + 3..];
    let end = body.find('}').unwrap_or(0);
    let set = if body[..end].trim().is_empty() {
      json!([])
    } else {
      json!(body[..end].split(',').map(num).collect::<Vec<i64>>())
    };
    sets.push((name, set));
    rest = &body[end..];
  }
  let mut field = |say: &dyn Fn(&str) -> bool| -> Value {
    match sets.iter().position(|(n, _)| say(n)) {
      None => json!([-1]),
      Some(i) => sets.remove(i).1,
    }
  };
  let unreach = field(&|n| n.contains("reach"));
  let noprod = field(&|n| n.contains("prod"));
  let norule = field(&|n| n.contains("rule"));
  json!({"unreach": unreach, "norule": norule, "noprod": noprod})
}

fn prod_json(p: &Prod<Terminal, NonTerminal, Name, i64>) -> Value {
  json!({
    "h": num(p.head()),
    "k": num(p.action_key()),
    "v": p.action_value(),
    "e": p.prod_elements().iter().map(|e| sym(e.elem())).collect::<Vec<_>>(),
    "n": p.prod_elements().iter()
      .map(|e| e.id().map_or(0, num)).collect::<Vec<_>>(),
  })
}

/// Everything about one production that the other accessors show.
fn prod_views(p: &Prod<Terminal, NonTerminal, Name, i64>) -> Value {
  let n = p.num_elements();
  json!({
    "e": p.elements().map(sym).collect::<Vec<_>>(),
    "num": n,
    "at": (0..n + 2).map(|i| p.element_at(i).map_or(0, sym)).collect::<Vec<_>>(),
    "pat": (0..n + 2).map(|i| p.prod_element_at(i)
        .map_or(0, |e| sym(e.elem()))).collect::<Vec<_>>(),
    "patn": (0..n + 2).map(|i| p.prod_element_at(i)
        .and_then(|e| e.id()).map_or(0, num)).collect::<Vec<_>>(),
    "first": p.first_elem().map_or(0, sym),
    "kh": num(p.prod_key().head()),
    "kk": num(p.prod_key().action_key()),
    "asterm": p.elements().map(|e| e.as_term().map_or(0, num)).collect::<Vec<_>>(),
    "asnt": p.elements().map(|e| e.as_nonterm().map_or(0, num)).collect::<Vec<_>>(),
  })
}

fn rule_json(r: &Rule<Terminal, NonTerminal, Name, i64>) -> Value {
  json!({
    "h": num(r.head()),
    "p": r.prods().map(|p| prod_json(&p)).collect::<Vec<_>>(),
  })
}

fn read_gram(g: &Gram, probe: i64) -> Value {
  json!({
    "start": num(g.start_nt()),
    "rules": g.rules().map(|r| rule_json(&r)).collect::<Vec<_>>(),
    "prods": g.prods().map(|p| prod_json(&p)).collect::<Vec<_>>(),
    "views": g.prods().map(|p| prod_views(&p)).collect::<Vec<_>>(),
    "map": g.rule_set().iter()
      .map(|(k, r)| json!({"h": num(k), "r": rule_json(r)})).collect::<Vec<_>>(),
    "look": (1..=probe).map(|i| match g.try_get_rule(&nonterm(i)) {
      None => json!({"some": false, "r": {"h": 0, "p": []}, "again": true}),
      Some(r) => json!({"some": true, "r": rule_json(&r),
                        "again": rule_json(&g.get_rule(&nonterm(i))) == rule_json(&r)}),
    }).collect::<Vec<_>>(),
  })
}

// ---------------------------------------------------------------- wrapping

fn snt(n: &StartNonTerminal<NonTerminal>) -> i64 {
  match n {
    StartNonTerminal::Start => 0,
    StartNonTerminal::NTerm(n) => num(n),
  }
}
/// Terminals stay, end of stream is 100000; nonterminals are negated, the
/// start symbol is -100000.
fn ssym(e: &Elem<StreamTerminal<Terminal>, StartNonTerminal<NonTerminal>>) -> i64 {
  match e {
    Elem::Term(StreamTerminal::EndOfStream) => 100000,
    Elem::Term(StreamTerminal::Term(t)) => num(t),
    Elem::NonTerm(StartNonTerminal::Start) => -100000,
    Elem::NonTerm(StartNonTerminal::NTerm(n)) => -num(n),
  }
}
type SProd<'a> = Prod<
  'a,
  StreamTerminal<Terminal>,
  StartNonTerminal<NonTerminal>,
  StartActionKey<Name>,
  StartActionValue<i64>,
>;
fn sprod_json(p: &SProd) -> Value {
  json!({
    "h": snt(p.head()),
    "k": p.action_key().as_base().map_or(0, num),
    "v": match p.action_value() {
      StartActionValue::Start => -1,
      StartActionValue::ActionValue(v) => *v,
    },
    "e": p.prod_elements().iter().map(|e| ssym(e.elem())).collect::<Vec<_>>(),
    // In the added production the name "start" is shown as 100000.
    "n": p.prod_elements().iter().map(|e| e.id().map_or(0, |n|
        if snt(p.head()) == 0 && n.str() == "start" { 100000 } else { num(n) })).collect::<Vec<_>>(),
  })
}

fn read_wrapped(g: &SGram) -> Value {
  json!({
    "out": "ok",
    "start": snt(g.start_nt()),
    "rules": g.rules().map(|r| json!({
      "h": snt(r.head()),
      "p": r.prods().map(|p| sprod_json(&p)).collect::<Vec<_>>(),
    })).collect::<Vec<_>>(),
    "startrule": g.start_rule().prods().map(|p| sprod_json(&p)).collect::<Vec<_>>(),
    "startprod": sprod_json(&g.start_prod()),
  })
}

// ---------------------------------------------------------------- analyses

type NTree = TreeNode<bongo::grammar::ProdKey<NonTerminal, Name>, Void>;

/// The production key of the root of a witness, if the witness is that
/// production applied to the witnesses of its named children.
fn decode_witness(
  g: &Gram,
  nt: &NonTerminal,
  get: &dyn Fn(&NonTerminal) -> Option<NTree>,
) -> i64 {
  let tree = match get(nt) {
    None => return 0,
    Some(t) => t,
  };
  let rule = match g.try_get_rule(nt) {
    None => return -1,
    Some(r) => r,
  };
  for (i, p) in rule.prods().enumerate() {
    let mut params = BTreeMap::new();
    let mut ok = true;
    for e in p.prod_elements() {
      match (e.id(), e.elem()) {
        (Some(id), Elem::NonTerm(c)) => match get(c) {
          Some(t) => {
            params.insert(id.clone(), TreeValue::Node(Box::new(t)));
          }
          None => ok = false,
        },
        (_, Elem::Term(_)) => ok = false,
        _ => {}
      }
    }
    if ok && TreeNode::new(p.prod_key(), params) == tree {
      return i as i64 + 1;
    }
  }
  -1
}

fn nullable_obs(g: &Gram, ctx: &PassContext<Terminal, NonTerminal, Name, i64>, probe: i64) -> Value {
  match guard(|| ctx.get_pass::<Nullable<NonTerminal, Name>>()) {
    Err(m) => json!({"op": "nullable", "out": "panic", "msg": m}),
    Ok(Err(_)) => json!({"op": "nullable", "out": "err"}),
    Ok(Ok(n)) => {
      let info = n.get_nullable_info();
      let get = |nt: &NonTerminal| info.get_nullable_action(nt).cloned();
      json!({
        "op": "nullable", "out": "ok",
        "is": (1..=probe).filter(|i| n.is_nullable(&nonterm(*i))).collect::<Vec<_>>(),
        "is2": (1..=probe).filter(|i| info.is_nullable(&nonterm(*i))).collect::<Vec<_>>(),
        "set": n.get_nullable_set().iter().map(num).collect::<Vec<_>>(),
        "set2": info.get_nullable_set().iter().map(num).collect::<Vec<_>>(),
        "prods": g.rules().map(|r| json!({
          "h": num(r.head()),
          "np": r.prods().map(|p| n.is_prod_nullable(&p)).collect::<Vec<_>>(),
          "np2": r.prods().map(|p| info.is_prod_nullable(&p)).collect::<Vec<_>>(),
        })).collect::<Vec<_>>(),
        "wit": (1..=probe).map(|i| decode_witness(g, &nonterm(i), &get)).collect::<Vec<_>>(),
      })
    }
  }
}

fn firsts_obs(ctx: &PassContext<Terminal, NonTerminal, Name, i64>, probe: i64) -> Value {
  match guard(|| ctx.get_pass::<Firsts<Terminal, NonTerminal>>()) {
    Err(m) => json!({"op": "firsts", "out": "panic", "msg": m}),
    Ok(Err(_)) => json!({"op": "firsts", "out": "err"}),
    Ok(Ok(f)) => json!({
      "op": "firsts", "out": "ok",
      "first": (1..=probe).map(|i| f.get(&nonterm(i))
        .map_or(vec![], |s| s.iter().map(num).collect::<Vec<_>>())).collect::<Vec<_>>(),
    }),
  }
}

fn follows_obs(ctx: &PassContext<Terminal, NonTerminal, Name, i64>, probe: i64) -> Value {
  match guard(|| ctx.get_pass::<Follows<Terminal, NonTerminal>>()) {
    Err(m) => json!({"op": "follows", "out": "panic", "msg": m}),
    Ok(Err(_)) => json!({"op": "follows", "out": "err"}),
    #[cfg(not(bongo_verif = "follows"))]
    Ok(Ok(_)) => json!({"op": "follows", "out": "unread", "follow": [], "probe": probe}),
    #[cfg(bongo_verif = "follows")]
    Ok(Ok(f)) => json!({
      "op": "follows", "out": "ok",
      "follow": (1..=probe).map(|i| f.verif_get(&nonterm(i))
        .map_or(vec![], |s| s.iter().map(num).collect::<Vec<_>>())).collect::<Vec<_>>(),
    }),
  }
}

/// The lists of truth values in a text.
fn bool_lists(s: &str) -> Vec<Vec<bool>> {
  let mut out = Vec::new();
  for part in s.split('[').skip(1) {
    let inner = part.split(']').next().unwrap();
    let bits: Option<Vec<bool>> = inner
      .split(',')
      .map(str::trim)
      .filter(|x| !x.is_empty())
      .map(|x| x.parse().ok())
      .collect();
    if let Some(bits) = bits {
      if !out.contains(&bits) {
        out.push(bits);
      }
    }
  }
  out
}

fn nonnull_obs(g: &Gram, probe: i64) -> Value {
  let res = guard(|| transform_to_nonnull(g).map_err(|e| e.to_string()));
  let ng = match res {
    Err(m) => return json!({"op": "nonnull", "out": "panic", "msg": m}),
    Ok(Err(_)) => return json!({"op": "nonnull", "out": "err"}),
    Ok(Ok(ng)) => ng,
  };
  // The witnesses, to recognise the recorded null derivations.
  let ctx = PassContext::new(g);
  let nullable = guard(|| ctx.get_pass::<Nullable<NonTerminal, Name>>());
  let wit = |nt: &NonTerminal| match &nullable {
    Ok(Ok(n)) => n.get_nullable_info().get_nullable_action(nt).cloned(),
    _ => None,
  };
  let mut prods = Vec::new();
  for r in ng.rules() {
    let old: Vec<_> = g
      .try_get_rule(r.head())
      .map_or(vec![], |o| o.prods().collect::<Vec<_>>());
    let mut seen = Vec::new();
    for p in r.prods() {
      let kdbg = format!("{:?}", p.action_key());
      let vdbg = format!("{:?}", p.action_value());
      // Which original productions does the key / value mention, and which
      // subset of occurrences does it say was dropped?
      let mut origs: Vec<Value> = Vec::new();
      for (oi, o) in old.iter().enumerate() {
        let nts = o.elements().filter(|e| e.as_nonterm().is_some()).count();
        if !mentions(&kdbg, &format!("{:?}", o.action_key())) {
          continue;
        }
        for bits in bool_lists(&kdbg) {
          if bits.len() != nts {
            continue;
          }
          // Under one name may be any of the dropped occurrences with it.
          let mut args: Vec<BTreeMap<_, _>> = vec![BTreeMap::new()];
          let mut b = 0;
          for e in o.prod_elements() {
            if let Elem::NonTerm(c) = e.elem() {
              if bits[b] {
                if let (Some(id), Some(w)) = (e.id(), wit(c)) {
                  args = args
                    .into_iter()
                    .flat_map(|a| {
                      let mut with = a.clone();
                      with.insert(id.clone(), w.clone());
                      let other = a.contains_key(id) && a != with;
                      std::iter::once(with).chain(other.then_some(a))
                    })
                    .collect();
                }
              }
              b += 1;
            }
          }
          origs.push(json!({
            "o": oi + 1,
            "drop": bits,
            "args": args.iter().any(|a| vdbg.contains(&format!("{:?}", a))),
            "val": mentions(&vdbg, &format!("{:?}", o.action_value())),
          }));
        }
      }
      let dup = seen.iter().any(|k| k == p.action_key());
      seen.push(p.action_key().clone());
      prods.push(json!({
        "h": num(p.head()),
        "e": p.prod_elements().iter().map(|e| sym(e.elem())).collect::<Vec<_>>(),
        "n": p.prod_elements().iter().map(|e| e.id().map_or(0, num)).collect::<Vec<_>>(),
        "orig": origs,
        "dupkey": dup,
      }));
    }
  }
  json!({
    "op": "nonnull", "out": "ok",
    "start": num(ng.start_nt()),
    "heads": ng.rules().map(|r| num(r.head())).collect::<Vec<_>>(),
    "prods": prods,
    "probe": probe,
  })
}

/// `needle` occurs in `hay` as a whole word.
fn mentions(hay: &str, needle: &str) -> bool {
  let word = |c: char| c.is_alphanumeric() || c == '_';
  hay.match_indices(needle).any(|(i, _)| {
    !hay[..i].chars().next_back().map_or(false, word)
      && !hay[i + needle.len()..].chars().next().map_or(false, word)
  })
}

// ---------------------------------------------------------------- printing

/// The text without white space, as runs of word characters and single other
/// characters.
fn tokens(s: &str) -> Vec<String> {
  let mut out: Vec<String> = Vec::new();
  let mut word = false;
  for c in s.chars() {
    if c.is_whitespace() {
      word = false;
    } else if c.is_alphanumeric() && c != 'ε' {
      if word {
        out.last_mut().unwrap().push(c);
      } else {
        out.push(c.to_string());
      }
      word = true;
    } else {
      out.push(c.to_string());
      word = false;
    }
  }
  out
}

fn doc(d: &impl ToDoc) -> String {
  let arena = pretty::Arena::new();
  format!("{}", d.to_doc(&arena).into_doc().pretty(80))
}

/// Action keys and values, printed.
fn docs_obs(g: &Gram) -> Value {
  let w = wrap_grammar_with_start(g.clone()).ok().expect("can be wrapped");
  let keys: Vec<String> = g.prods().map(|p| doc(p.action_key())).collect();
  let wkeys: Vec<String> = w.prods().map(|p| doc(p.action_key())).collect();
  let vals = vec![
    doc(&StartActionValue::<Name>::Start),
    doc(&StartActionValue::ActionValue(Name::new("k000"))),
    doc(&StartActionValue::ActionValue(())),
  ];
  // The transform takes time exponential in the length of productions.
  let short = g.prods().all(|p| p.num_elements() <= 8);
  let nkeys: Vec<Value> = match if short { transform_to_nonnull(g).ok() } else { None } {
    None => vec![],
    Some(t) => t
      .prods()
      .map(|p| {
        let s = format!("{:?}", p.action_key());
        let inner = s.split("action: ").nth(1).unwrap_or("").split(',').next().unwrap_or("").to_string();
        json!([doc(p.action_key()), inner])
      })
      .collect(),
  };
  json!({"op": "docs", "out": "ok", "keys": keys, "wkeys": wkeys, "vals": vals, "nkeys": nkeys})
}

// ---------------------------------------------------------------- identity

fn cmpi(o: std::cmp::Ordering) -> i64 {
  match o {
    std::cmp::Ordering::Less => -1,
    std::cmp::Ordering::Equal => 0,
    std::cmp::Ordering::Greater => 1,
  }
}

fn identity_obs(g: &Gram) -> Vec<Value> {
  let mut ev = Vec::new();
  // Handles obtained in different ways; the identity that each should have is
  // (position of the rule, position of the production in it).
  let mut rules: Vec<(i64, Rule<_, _, _, _>)> = Vec::new();
  for (i, r) in g.rules().enumerate() {
    rules.push((i as i64, r));
    rules.push((i as i64, g.get_rule(r.head())));
  }
  for (i, (_, r)) in g.rule_set().into_iter().enumerate() {
    rules.push((i as i64, r));
  }
  rules.truncate(18);
  let n = rules.len();
  ev.push(json!({
    "op": "cmp", "what": "rule", "out": "ok",
    "id": rules.iter().map(|r| r.0).collect::<Vec<_>>(),
    "eq": (0..n).map(|a| (0..n).map(|b|
       guard(|| rules[a].1 == rules[b].1).map_or(2, |e| e as i64)).collect::<Vec<_>>()).collect::<Vec<_>>(),
    "cmp": (0..n).map(|a| (0..n).map(|b|
       guard(|| cmpi(rules[a].1.cmp(&rules[b].1))).unwrap_or(2)).collect::<Vec<_>>()).collect::<Vec<_>>(),
    "pcmp": (0..n).map(|a| (0..n).map(|b|
       guard(|| rules[a].1.partial_cmp(&rules[b].1).map_or(3, cmpi)).unwrap_or(2)).collect::<Vec<_>>()).collect::<Vec<_>>(),
  }));
  let mut prods: Vec<(i64, Prod<_, _, _, _>)> = Vec::new();
  for (i, p) in g.prods().enumerate() {
    prods.push((i as i64, p));
  }
  let mut i = 0;
  for r in g.rules() {
    for p in g.get_rule(r.head()).prods() {
      prods.push((i, p));
      i += 1;
    }
  }
  prods.truncate(20);
  let n = prods.len();
  ev.push(json!({
    "op": "cmp", "what": "prod", "out": "ok",
    "id": prods.iter().map(|r| r.0).collect::<Vec<_>>(),
    "eq": (0..n).map(|a| (0..n).map(|b|
       guard(|| prods[a].1 == prods[b].1).map_or(2, |e| e as i64)).collect::<Vec<_>>()).collect::<Vec<_>>(),
    "cmp": (0..n).map(|a| (0..n).map(|b|
       guard(|| cmpi(prods[a].1.cmp(&prods[b].1))).unwrap_or(2)).collect::<Vec<_>>()).collect::<Vec<_>>(),
    "pcmp": (0..n).map(|a| (0..n).map(|b|
       guard(|| prods[a].1.partial_cmp(&prods[b].1).map_or(3, cmpi)).unwrap_or(2)).collect::<Vec<_>>()).collect::<Vec<_>>(),
  }));
  // Against a clone: rules refuse, productions are never equal.
  let c = g.clone();
  let ra: Vec<_> = g.rules().take(6).collect();
  let rb: Vec<_> = c.rules().take(6).collect();
  let pa: Vec<_> = g.prods().take(8).collect();
  let pb: Vec<_> = c.prods().take(8).collect();
  ev.push(json!({
    "op": "cross", "out": "ok",
    "req": ra.iter().map(|a| rb.iter().map(|b|
       guard(|| a == b).map_or(2, |e| e as i64)).collect::<Vec<_>>()).collect::<Vec<_>>(),
    "rcmp": ra.iter().map(|a| rb.iter().map(|b|
       guard(|| cmpi(a.cmp(b))).unwrap_or(2)).collect::<Vec<_>>()).collect::<Vec<_>>(),
    "peq": pa.iter().map(|a| pb.iter().map(|b|
       guard(|| a == b).map_or(2, |e| e as i64)).collect::<Vec<_>>()).collect::<Vec<_>>(),
    "pcmp": pa.iter().map(|a| pb.iter().map(|b|
       guard(|| cmpi(a.cmp(b))).unwrap_or(2)).collect::<Vec<_>>()).collect::<Vec<_>>(),
  }));
  ev
}

// ---------------------------------------------------------------- items

type PS<'a> = ProdState<'a, Terminal, NonTerminal, Name, i64>;
type PSS<'a> = ProdStateSet<'a, Terminal, NonTerminal, Name, i64>;

/// The item at position d of production p, by advancing d times.
fn item<'a>(p: &Prod<'a, Terminal, NonTerminal, Name, i64>, d: usize) -> PS<'a> {
  let mut s = ProdState::from_start(*p);
  for _ in 0..d {
    s = s.next_elem_state().expect("the dot can be advanced").1;
  }
  s
}

fn pe(e: Option<&ProdElement<Terminal, NonTerminal>>) -> Value {
  match e {
    None => json!([0, 0]),
    Some(e) => json!([sym(e.elem()), e.id().map_or(0, num)]),
  }
}

/// Names an item: [production index, position], found by looking at what the
/// item says about itself.
fn item_id(prods: &[Prod<Terminal, NonTerminal, Name, i64>], s: &PS) -> Value {
  let p = prods.iter().position(|p| std::ptr::eq(p.prod_elements(), s.prod().prod_elements()));
  let n = s.prod().num_elements();
  // The number of elements left.
  let mut left = 0;
  while left <= n + 1 && s.offset_elem(left).is_some() {
    left += 1;
  }
  json!([p.map_or(0, |p| p + 1), n as i64 - left as i64])
}

fn set_items(prods: &[Prod<Terminal, NonTerminal, Name, i64>], s: &PSS) -> Value {
  let mut seen = Vec::new();
  let mut c = s.clone();
  c.take_closure(|st| {
    seen.push(item_id(prods, st));
    std::iter::empty()
  });
  json!(seen)
}

fn items_obs(g: &Gram, scn: &Value) -> Vec<Value> {
  let prods: Vec<_> = g.prods().collect();
  let mut ev = Vec::new();
  let mut all: Vec<(usize, usize)> = Vec::new();
  for (pi, p) in prods.iter().enumerate() {
    for d in 0..=p.num_elements() {
      all.push((pi, d));
    }
  }
  // Single items.
  for &(pi, d) in &all {
    let p = &prods[pi];
    let r = guard(|| {
      let s = item(p, d);
      let n = p.num_elements();
      let adv: Vec<Value> = arr(&scn["probe_syms"]).iter().map(|x| {
        match s.advance_if(&elem(int(x))) {
          None => json!([0, 0]),
          Some(t) => item_id(&prods, &t),
        }
      }).collect();
      let nx = s.next_elem_state();
      json!({
        "op": "item", "out": "ok", "p": pi + 1, "d": d,
        "id": item_id(&prods, &s),
        "next": s.next_elem().map_or(0, sym),
        "nextpe": pe(s.next_prod_elem()),
        "offs": (0..n + 2).map(|i| s.offset_elem(i).map_or(0, sym)).collect::<Vec<_>>(),
        "offpe": (0..n + 2).map(|i| pe(s.offset_prod_elem(i))).collect::<Vec<_>>(),
        "done": s.is_complete(),
        "k": num(s.action_key()),
        "adv": adv,
        "nxe": pe(nx.as_ref().map(|x| x.0)),
        "nxs": nx.map_or(json!([0, 0]), |x| item_id(&prods, &x.1)),
      })
    });
    ev.push(r.unwrap_or_else(|m| json!({"op": "item", "out": "panic", "msg": m, "p": pi + 1, "d": d})));
  }
  // Comparison of items.
  let pick: Vec<(usize, usize)> = arr(&scn["cmp"]).iter()
    .map(|x| uint(x) % all.len()).map(|i| all[i]).collect();
  let its: Vec<PS> = match guard(|| pick.iter().map(|(p, d)| item(&prods[*p], *d)).collect()) {
    Ok(v) => v,
    Err(m) => {
      ev.push(json!({"op": "icmp", "out": "panic", "msg": m}));
      return ev;
    }
  };
  ev.push(json!({
    "op": "icmp", "out": "ok",
    "id": pick.iter().map(|(p, d)| json!([p + 1, d])).collect::<Vec<_>>(),
    "eq": its.iter().map(|a| its.iter().map(|b| (a == b) as i64).collect::<Vec<_>>()).collect::<Vec<_>>(),
    "cmp": its.iter().map(|a| its.iter().map(|b| cmpi(a.cmp(b))).collect::<Vec<_>>()).collect::<Vec<_>>(),
    "pcmp": its.iter().map(|a| its.iter().map(|b| a.partial_cmp(b).map_or(3, cmpi)).collect::<Vec<_>>()).collect::<Vec<_>>(),
  }));
  // Sets of items.
  for s in arr(&scn["sets"]) {
    let members: Vec<(usize, usize)> =
      arr(s).iter().map(|x| all[uint(x) % all.len()]).collect();
    let r = guard(|| {
      let mk = || members.iter().map(|(p, d)| item(&prods[*p], *d));
      let mut set: PSS = ProdStateSet::new_empty();
      for i in mk() {
        set.add(i);
      }
      let coll: PSS = shaped(mk().collect(), members.len()).collect();
      let rev: PSS = mk().collect::<Vec<_>>().into_iter().rev().collect();
      let mut cl = set.clone();
      let mut expanded = Vec::new();
      cl.take_closure(|st| {
        expanded.push(item_id(&prods, st));
        let next: Vec<PS> = match st.next_elem() {
          Some(Elem::NonTerm(nt)) => g.get_rule(nt).prods().map(ProdState::from_start).collect(),
          _ => vec![],
        };
        next.into_iter()
      });
      // A second expansion that advances dots: closure over the whole
      // production.
      let mut adv = set.clone();
      adv.take_closure(|st| {
        st.next_elem_state().map(|x| x.1).into_iter().collect::<Vec<_>>().into_iter()
      });
      json!({
        "op": "set", "out": "ok",
        "members": members.iter().map(|(p, d)| json!([p + 1, d])).collect::<Vec<_>>(),
        "items": set_items(&prods, &set),
        "coll": set_items(&prods, &coll),
        "same": set == coll && coll == rev && set.cmp(&rev) == std::cmp::Ordering::Equal,
        "complete": set.complete().map(|s| item_id(&prods, &s)).collect::<Vec<_>>(),
        "nexts": set.nexts().map(|(e, s)| json!({
          "e": pe(Some(e)), "s": set_items(&prods, &s)})).collect::<Vec<_>>(),
        "closure": set_items(&prods, &cl),
        "expanded": expanded,
        "advance": set_items(&prods, &adv),
      })
    });
    ev.push(r.unwrap_or_else(|m| json!({"op": "set", "out": "panic", "msg": m})));
  }
  // Comparison of sets.
  let sets: Vec<(Value, PSS)> = arr(&scn["sets"]).iter().map(|s| {
    let members: Vec<(usize, usize)> = arr(s).iter().map(|x| all[uint(x) % all.len()]).collect();
    (json!(members.iter().map(|(p, d)| json!([p + 1, d])).collect::<Vec<_>>()),
     members.iter().map(|(p, d)| item(&prods[*p], *d)).collect())
  }).collect();
  ev.push(json!({
    "op": "scmp", "out": "ok",
    "members": sets.iter().map(|s| s.0.clone()).collect::<Vec<_>>(),
    "eq": sets.iter().map(|a| sets.iter().map(|b| (a.1 == b.1) as i64).collect::<Vec<_>>()).collect::<Vec<_>>(),
    "cmp": sets.iter().map(|a| sets.iter().map(|b| cmpi(a.1.cmp(&b.1))).collect::<Vec<_>>()).collect::<Vec<_>>(),
  }));
  ev
}

// ---------------------------------------------------------------- LR(1)

#[cfg(bongo_verif = "lr")]
fn lr_obs(g: &Gram, scn: &Value) -> Vec<Value> {
  use bongo::parsers::lalr::VerifParseState;
  use std::collections::BTreeSet;
  let prods: Vec<_> = g.prods().collect();
  let ctx = PassContext::new(g);
  let mut all: Vec<(usize, usize)> = Vec::new();
  for (pi, p) in prods.iter().enumerate() {
    for d in 0..=p.num_elements() {
      all.push((pi, d));
    }
  }
  let show = |s: &VerifParseState<Terminal, NonTerminal, Name, i64>| -> Value {
    json!({
      "items": s.items().iter().map(|(ps, la)| json!({
        "i": item_id(&prods, ps), "la": la.iter().map(num).collect::<Vec<_>>()})).collect::<Vec<_>>(),
      "reduce": s.reducable().into_iter().map(num).collect::<Vec<_>>(),
    })
  };
  let mut ev = Vec::new();
  for seed in arr(&scn["lr"]) {
    let items: Vec<(usize, usize, Vec<i64>)> = arr(&seed["items"]).iter().map(|x| {
      let (p, d) = all[uint(&x["i"]) % all.len()];
      (p, d, arr(&x["la"]).iter().map(int).collect())
    }).collect();
    let desc: Vec<Value> = items.iter().map(|(p, d, la)|
      json!({"i": [p + 1, d], "la": la})).collect();
    let r = guard(|| {
      let seed: Vec<(PS, BTreeSet<Terminal>)> = items.iter()
        .map(|(p, d, la)| (item(&prods[*p], *d), la.iter().map(|t| term(*t)).collect()))
        .collect();
      VerifParseState::new(&ctx, seed)
    });
    let mut state = match r {
      Err(m) => { ev.push(json!({"op": "lrstart", "out": "panic", "msg": m, "seed": desc})); continue; }
      Ok(Err(_)) => { ev.push(json!({"op": "lrstart", "out": "err", "seed": desc})); continue; }
      Ok(Ok(s)) => {
        ev.push(json!({"op": "lrstart", "out": "ok", "seed": desc, "st": show(&s)}));
        s
      }
    };
    for t in arr(&seed["shifts"]) {
      let r = guard(|| state.shift(&ctx));
      match r {
        Err(m) => { ev.push(json!({"op": "lrshift", "out": "panic", "msg": m})); break; }
        Ok(Err(_)) => { ev.push(json!({"op": "lrshift", "out": "err"})); break; }
        Ok(Ok(map)) => {
          let on: Vec<i64> = map.keys().map(num).collect();
          let n = map.len();
          ev.push(json!({"op": "lrshift", "out": "ok", "on": on,
            "to": map.values().map(show).collect::<Vec<_>>(),
            "go": if n == 0 { 0 } else { uint(t) % n + 1 }}));
          if n == 0 { break; }
          state = map.into_iter().nth(uint(t) % n).unwrap().1;
        }
      }
    }
  }
  ev
}

#[cfg(not(bongo_verif = "lr"))]
fn lr_obs(_g: &Gram, _scn: &Value) -> Vec<Value> {
  vec![json!({"op": "lrstart", "out": "nohook"})]
}

// ---------------------------------------------------------------- driver

/// {"m":"gram", "g": grammar, "ops": ["build","read","wrap",...]}
pub fn run(scn: &Value) -> Value {
  let gj = &scn["g"];
  set_style(scn["style"].as_u64().unwrap_or(0) as usize);
  let probe = scn["probe"].as_i64().unwrap_or(8);
  let ops: Vec<&str> = arr(&scn["ops"]).iter().filter_map(|o| o.as_str()).collect();
  let mut ev: Vec<Value> = Vec::new();
  let g = match guard(|| build_gram(gj)) {
    Err(m) => {
      ev.push(json!({"op": "build", "out": "panic", "msg": m}));
      return json!({"g": gj, "probe": probe, "ev": ev});
    }
    Ok(Err(e)) => {
      let mut o = errors(&e);
      o["op"] = json!("build");
      o["out"] = json!("err");
      ev.push(o);
      return json!({"g": gj, "probe": probe, "ev": ev});
    }
    Ok(Ok(g)) => {
      ev.push(json!({"op": "build", "out": "ok"}));
      g
    }
  };
  let guarded = |name: &str, f: &dyn Fn() -> Value| -> Value {
    guard(f).unwrap_or_else(|m| json!({"op": name, "out": "panic", "msg": m}))
  };
  let shared = PassContext::new(&g);
  for op in ops {
    match op {
      "read" => {
        ev.push(guarded("read", &|| {
          let a = read_gram(&g, probe);
          let c = g.clone();
          let b = read_gram(&c, probe);
          json!({"op": "read", "out": "ok", "a": a, "clone_same": a == b,
                 "again_same": a == read_gram(&g, probe)})
        }));
      }
      "wrap" => {
        ev.push(guarded("wrap", &|| {
          let w = wrap_grammar_with_start(g.clone());
          match w {
            Err(_) => json!({"op": "wrap", "out": "err"}),
            Ok(w) => {
              let mut o = read_wrapped(&w);
              o["op"] = json!("wrap");
              o
            }
          }
        }));
      }
      "nullable" => ev.push(guarded("nullable", &|| nullable_obs(&g, &shared, probe))),
      "firsts" => ev.push(guarded("firsts", &|| firsts_obs(&shared, probe))),
      "firsts0" => ev.push(guarded("firsts", &|| firsts_obs(&PassContext::new(&g), probe))),
      "follows" => ev.push(guarded("follows", &|| follows_obs(&shared, probe))),
      "follows0" => ev.push(guarded("follows", &|| follows_obs(&PassContext::new(&g), probe))),
      "nonnull" => ev.push(guarded("nonnull", &|| nonnull_obs(&g, probe))),
      "pretty" => {
        ev.push(guarded("pretty", &|| json!({"op": "pretty", "out": "ok",
          "s": tokens(&build_nt(gj).to_pretty())})));
        ev.push(guarded("prettyw", &|| json!({"op": "prettyw", "out": "ok",
          "s": tokens(&wrap_nt(gj).to_pretty())})));
      }
      "debug" => {
        let form = |i: usize, d: &dyn std::fmt::Debug| -> Vec<String> {
          let s = if i % 2 == 0 { format!("{:?}", d) } else { format!("{:#?}", d) };
          tokens(&s).into_iter().filter(|t| t != ",").collect()
        };
        let w = wrap_nt(gj);
        ev.push(guarded("debug", &|| json!({"op": "debug", "out": "ok", "s": form(0, &g), "same": form(0, &g) == form(1, &g)})));
        ev.push(guarded("debugw", &|| json!({"op": "debugw", "out": "ok", "s": form(0, &w), "same": form(0, &w) == form(1, &w)})));
        ev.push(guarded("docs", &|| docs_obs(&g)));
      }
      "identity" => match guard(|| identity_obs(&g)) {
        Ok(mut v) => ev.append(&mut v),
        Err(m) => ev.push(json!({"op": "cmp", "out": "panic", "msg": m})),
      },
      "items" => match guard(|| items_obs(&g, scn)) {
        Ok(mut v) => ev.append(&mut v),
        Err(m) => ev.push(json!({"op": "item", "out": "panic", "msg": m, "p": 0, "d": 0})),
      },
      "lr" => match guard(|| lr_obs(&g, scn)) {
        Ok(mut v) => ev.append(&mut v),
        Err(m) => ev.push(json!({"op": "lrstart", "out": "panic", "msg": m})),
      },
      other => panic!("unknown op {}", other),
    }
  }
  json!({"g": gj, "probe": probe, "ev": ev})
}

/// The same grammar with printable values: AV must implement ToDoc only for
/// the transform's own types, so the plain grammar is printed as it is.
fn build_nt(g: &Value) -> Gram {
  build_gram(g).ok().expect("built before")
}
fn wrap_nt(g: &Value) -> SGram {
  wrap_grammar_with_start(build_gram(g).ok().expect("built before"))
    .ok()
    .expect("can be wrapped")
}
