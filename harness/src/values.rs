//! Symbols, keys, trees and handles as values: comparisons, copies, accessors.
//!
//! A value is described by a sequence of integers; the harness builds it,
//! compares all pairs in all ways, and reads its parts back.

use crate::util::*;
use bongo::grammar::{build, Elem, Grammar, NonTerminal, ProdElement, Terminal};
use bongo::parsers::tree::{Alternative, Node, NodeContent, TreeHandle, TreeOwner};
use bongo::start_grammar::{StartActionKey, StartNonTerminal, StreamTerminal};
use bongo::utils::{fmt as ufmt, Name, TreeNode, TreeValue};
use serde_json::{json, Value};
use std::cmp::Ordering;
use std::collections::BTreeMap;
use std::fmt::Debug;

fn cmpi(o: Ordering) -> i64 {
  match o {
    Ordering::Less => -1,
    Ordering::Equal => 0,
    Ordering::Greater => 1,
  }
}

/// A part of a value: a number, or a text.
trait Make: Ord + Clone + Debug + std::hash::Hash + 'static {
  fn make(i: i64) -> Self;
  fn back(&self) -> i64;
}

impl Make for i64 {
  fn make(i: i64) -> Self {
    i
  }
  fn back(&self) -> i64 {
    *self
  }
}

fn text(i: i64) -> String {
  match i {
    1 => "a".into(),
    2 => "A".into(),
    3 => "".into(),
    4 => "a ".into(),
    5 => "\u{e9}".into(),
    6 => "e\u{301}".into(),
    7 => "a\0".into(),
    8 => "10".into(),
    9 => "9".into(),
    10 => "x".repeat(300),
    11 => format!("{}y", "x".repeat(299)),
    _ => format!("n{}", i),
  }
}

fn untext(s: &str) -> i64 {
  (1..=11).find(|&i| text(i) == s).unwrap_or_else(|| {
    s.strip_prefix('n').and_then(|d| d.parse().ok()).unwrap_or(-1)
  })
}

impl Make for Terminal {
  fn make(i: i64) -> Self {
    Terminal::new(&text(i))
  }
  fn back(&self) -> i64 {
    let s = format!("{:?}", self);
    (1..200).find(|&i| format!("{:?}", Terminal::new(&text(i))) == s).unwrap_or(-1)
  }
}

impl Make for NonTerminal {
  fn make(i: i64) -> Self {
    NonTerminal::new(&text(i))
  }
  fn back(&self) -> i64 {
    let s = format!("{:?}", self);
    (1..200).find(|&i| format!("{:?}", NonTerminal::new(&text(i))) == s).unwrap_or(-1)
  }
}

impl Make for Name {
  fn make(i: i64) -> Self {
    Name::new(&text(i))
  }
  fn back(&self) -> i64 {
    untext(self.str())
  }
}

/// All pairs in all ways.
#[allow(clippy::nonminimal_bool)]
fn compare<T: Ord>(xs: &[T], clone: impl Fn(&T) -> T) -> Value {
  let m = |f: &dyn Fn(&T, &T) -> i64| -> Value {
    json!(xs.iter().map(|a| xs.iter().map(|b| guard(|| f(a, b)).unwrap_or(7)).collect::<Vec<_>>()).collect::<Vec<_>>())
  };
  json!({
    "eq": m(&|a, b| (a == b) as i64),
    "ne": m(&|a, b| (a != b) as i64),
    "cmp": m(&|a, b| cmpi(a.cmp(b))),
    "pcmp": m(&|a, b| a.partial_cmp(b).map_or(3, cmpi)),
    "lt": m(&|a, b| (a < b) as i64),
    "le": m(&|a, b| (a <= b) as i64),
    // Copies, compared with all.
    "copy": m(&|a, b| {
      let c = clone(a);
      if (&c == b) == (b == &c) && (cmpi(c.cmp(b)) == -cmpi(b.cmp(&c))) { cmpi(c.cmp(b)) } else { 5 }
    }),
  })
}

/// Which of them have the same hash.
fn hashes<T: std::hash::Hash>(xs: &[T]) -> Value {
  use std::hash::{BuildHasher, RandomState};
  let st = RandomState::new();
  let hs: Vec<u64> = xs.iter().map(|x| st.hash_one(x)).collect();
  json!(hs.iter().map(|a| hs.iter().map(|b| (a == b) as i64).collect::<Vec<_>>()).collect::<Vec<_>>())
}

fn opt<T: Make>(v: Option<&T>) -> Value {
  v.map_or(json!([]), |v| json!([v.back()]))
}

fn elem<T: Make, N: Make>(d: &[i64]) -> Elem<T, N> {
  if d[0] == 0 {
    Elem::Term(T::make(d[1]))
  } else {
    Elem::NonTerm(N::make(d[1]))
  }
}

fn elem_back<T: Make, N: Make>(e: &Elem<T, N>) -> Value {
  let r = e.as_ref();
  json!({"t": opt(e.as_term()), "n": opt(e.as_nonterm()),
         "rt": opt(r.as_term().copied()), "rn": opt(r.as_nonterm().copied())})
}

fn tree_value<L: Make>(d: &mut std::slice::Iter<i64>) -> TreeValue<L, i64> {
  if *d.next().unwrap() == 0 {
    TreeValue::Leaf(*d.next().unwrap())
  } else {
    TreeValue::Node(Box::new(tree_node(d)))
  }
}

/// action, number of parameters, then name and value of each.
fn tree_node<L: Make>(d: &mut std::slice::Iter<i64>) -> TreeNode<L, i64> {
  let action = L::make(*d.next().unwrap());
  let n = *d.next().unwrap();
  if n == 0 && action.back() % 2 == 0 {
    return TreeNode::from_action(action);
  }
  let params: BTreeMap<Name, TreeValue<L, i64>> =
    (0..n).map(|_| (Name::make(*d.next().unwrap()), tree_value(d))).collect();
  TreeNode::new(action, params)
}

fn described(scn: &Value) -> Vec<Vec<i64>> {
  arr(&scn["vals"]).iter().map(|d| arr(d).iter().map(int).collect()).collect()
}

fn cmps<T: Ord + Clone>(xs: &[T], acc: Vec<Value>) -> Value {
  let mut r = compare(xs, |x| x.clone());
  r["acc"] = json!(acc);
  r
}

fn run_with<T: Make, N: Make>(kind: &str, ds: &[Vec<i64>]) -> Value {
  match kind {
    "term" => {
      let xs: Vec<T> = ds.iter().map(|d| T::make(d[0])).collect();
      let acc = xs.iter().map(|x| json!([x.back()])).collect();
      let mut r = cmps(&xs, acc);
      r["hash"] = hashes(&xs);
      r
    }
    "nonterm" => {
      let xs: Vec<N> = ds.iter().map(|d| N::make(d[0])).collect();
      let acc = xs.iter().map(|x| json!([x.back()])).collect();
      let mut r = cmps(&xs, acc);
      r["hash"] = hashes(&xs);
      r
    }
    "elem" => {
      let xs: Vec<Elem<T, N>> = ds.iter().map(|d| elem(d)).collect();
      let acc = xs.iter().map(elem_back).collect();
      cmps(&xs, acc)
    }
    // name (0 for none), then the element; made in all ways there are.
    "prodelem" => {
      let xs: Vec<ProdElement<T, N>> = ds
        .iter()
        .enumerate()
        .map(|(i, d)| {
          let e = elem(&d[1..]);
          match (d[0], i % 3) {
            (0, 0) => ProdElement::new_empty(e),
            (0, 1) => ProdElement::new(None, e),
            (0, _) => e.into(),
            (n, 0) => ProdElement::new(Some(Name::make(n)), e),
            (n, _) => ProdElement::new_with_name(Name::make(n), e),
          }
        })
        .collect();
      let acc = xs
        .iter()
        .map(|x| json!({"id": opt(x.id()), "e": elem_back(x.elem())}))
        .collect();
      cmps(&xs, acc)
    }
    "streamterm" => {
      let xs: Vec<StreamTerminal<T>> = ds
        .iter()
        .map(|d| if d[0] == 0 { StreamTerminal::EndOfStream } else { StreamTerminal::Term(T::make(d[1])) })
        .collect();
      let acc = xs
        .iter()
        .map(|x| json!({"eos": x.is_eos(), "has": ds.iter().map(|d| x.has_kind(&T::make(d[1]))).collect::<Vec<_>>()}))
        .collect();
      cmps(&xs, acc)
    }
    "startnt" => {
      let xs: Vec<StartNonTerminal<N>> = ds
        .iter()
        .map(|d| if d[0] == 0 { StartNonTerminal::Start } else { StartNonTerminal::NTerm(N::make(d[1])) })
        .collect();
      let acc = xs
        .iter()
        .map(|x| match x {
          StartNonTerminal::Start => json!([]),
          StartNonTerminal::NTerm(n) => json!([n.back()]),
        })
        .collect();
      cmps(&xs, acc)
    }
    "startkey" => {
      let xs: Vec<StartActionKey<N>> = ds
        .iter()
        .map(|d| if d[0] == 0 { StartActionKey::Start } else { StartActionKey::ActionKey(N::make(d[1])) })
        .collect();
      let acc = xs.iter().map(|x| opt(x.as_base())).collect();
      cmps(&xs, acc)
    }
    // head and action key; from grammars with such productions.
    "prodkey" => {
      let gram = |ds: &[&Vec<i64>]| -> Grammar<T, N, T, i64> {
        build(N::make(ds[0][0]), |gb| {
          let mut heads: Vec<i64> = Vec::new();
          for d in ds {
            if !heads.contains(&d[0]) {
              heads.push(d[0]);
            }
          }
          for h in &heads {
            gb.add_rule(N::make(*h), |rb| {
              for d in ds.iter().filter(|d| d[0] == *h) {
                rb.add_prod(T::make(d[1]), 5, |pb| {
                  for h in &heads {
                    pb.add_nonterm(N::make(*h));
                  }
                });
              }
            });
          }
        })
        .unwrap_or_else(|_| panic!("not built"))
      };
      // Half of them from one grammar each.
      let shared: Vec<&Vec<i64>> = ds.iter().step_by(2).collect();
      let one = gram(&shared);
      let find = |g: &Grammar<T, N, T, i64>, d: &[i64]| {
        g.prods()
          .find(|p| p.head() == &N::make(d[0]) && p.action_key() == &T::make(d[1]))
          .map(|p| p.prod_key())
          .unwrap_or_else(|| panic!("production missing"))
      };
      let xs: Vec<_> = ds
        .iter()
        .enumerate()
        .map(|(i, d)| if i % 2 == 0 { find(&one, d) } else { find(&gram(&[d]), d) })
        .collect();
      let acc = xs.iter().map(|x| json!([x.head().back(), x.action_key().back()])).collect();
      cmps(&xs, acc)
    }
    "node" => {
      let xs: Vec<TreeNode<T, i64>> = ds.iter().map(|d| tree_node(&mut d.iter())).collect();
      cmps(&xs, vec![])
    }
    "value" => {
      let xs: Vec<TreeValue<T, i64>> = ds.iter().map(|d| tree_value(&mut d.iter())).collect();
      cmps(&xs, vec![])
    }
    other => panic!("unknown kind {}", other),
  }
}

type HNode<'a> = Node<'a, i64, i64, i64>;
type HAlt<'a> = Alternative<'a, i64, i64, i64>;
type HHandle<'a> = TreeHandle<'a, i64, i64, i64>;

/// {"kind":"handles","trees":[[alt...]...]}: an alternative is [0, kind, value]
/// or [1, action, children...], the children being numbers of nodes of the same
/// tree; each is put into a node of its own.  Handles are obtained in all the
/// ways there are.
fn run_handles(scn: &Value) -> Value {
  let mut hs: Vec<(Vec<i64>, HHandle<'static>)> = Vec::new();
  let mut ns: Vec<(Vec<i64>, HNode<'static>)> = Vec::new();
  let mut als: Vec<(Vec<i64>, HAlt<'static>)> = Vec::new();
  let mut cs: Vec<(Vec<i64>, NodeContent<'static, i64, i64, i64>)> = Vec::new();
  for (t, alts) in arr(&scn["trees"]).iter().enumerate() {
    let t = t as i64 + 1;
    let owner: &'static TreeOwner<i64, i64, i64> = Box::leak(Box::new(TreeOwner::new()));
    let h: &'static HHandle<'static> = Box::leak(Box::new(owner.handle()));
    hs.push((vec![t], h.clone()));
    hs.push((vec![t], owner.handle()));
    let mut nodes: Vec<HNode<'static>> = Vec::new();
    for (i, a) in arr(alts).iter().enumerate() {
      let d: Vec<i64> = arr(a).iter().map(int).collect();
      let alt = if d[0] == 0 {
        h.make_leaf_alt(d[1], d[2])
      } else {
        h.make_branch_alt(d[1], d[2..].iter().map(|k| nodes[*k as usize - 1].clone()))
      };
      let node = h.make_node();
      node.add_alt(&alt);
      let mut name = vec![t];
      name.extend(&d);
      als.push((name.clone(), alt.clone()));
      cs.push((name.clone(), alt.content()));
      let leaked: &'static HNode<'static> = Box::leak(Box::new(node.clone()));
      for got in leaked.alts() {
        if i % 2 == 0 {
          als.push((name.clone(), got.clone()));
        } else {
          cs.push((name.clone(), got.content()));
        }
        if let NodeContent::Branch(b) = got.content() {
          let b: &'static _ = Box::leak(Box::new(b));
          for (k, n) in b.nodes().enumerate() {
            if k < 2 {
              ns.push((vec![t, d[2 + k]], n));
            }
          }
          hs.push((vec![t], b.handle()));
        }
      }
      ns.push((vec![t, i as i64 + 1], node.clone()));
      if i < 2 {
        hs.push((vec![t], node.handle()));
        hs.push((vec![t], alt.handle()));
      }
      nodes.push(node);
    }
  }
  fn ev<T: Ord + Clone>(kind: &str, mut xs: Vec<(Vec<i64>, T)>) -> Value {
    xs.truncate(24);
    let ys: Vec<T> = xs.iter().map(|x| x.1.clone()).collect();
    let mut r = cmps(&ys, vec![]);
    r["op"] = json!("values");
    r["kind"] = json!(kind);
    r["vals"] = json!(xs.iter().map(|x| x.0.clone()).collect::<Vec<_>>());
    r["out"] = json!("ok");
    r
  }
  json!({"ev": [ev("handle", hs), ev("fnode", ns), ev("alt", als), ev("content", cs)]})
}

/// {"m":"values","kind":k,"ty":0|1,"vals":[description...]}
pub fn run(scn: &Value) -> Value {
  let kind = scn["kind"].as_str().unwrap();
  if kind == "handles" {
    return run_handles(scn);
  }
  let ds = described(scn);
  let r = guard(|| match int(&scn["ty"]) {
    0 => run_with::<i64, i64>(kind, &ds),
    1 => run_with::<Terminal, NonTerminal>(kind, &ds),
    _ => run_with::<Name, Name>(kind, &ds),
  });
  let mut e = match r {
    Ok(mut v) => {
      v["out"] = json!("ok");
      v
    }
    Err(msg) => json!({"out": "panic", "msg": msg}),
  };
  e["op"] = json!("values");
  e["kind"] = json!(kind);
  e["vals"] = scn["vals"].clone();
  json!({"ev": [e]})
}

// ---------------------------------------------------------------- formatting

/// A thing to print: a number, a text, or a list, set, tuple or struct of such
/// things made by the helpers.
fn item(d: &Value) -> Box<dyn Debug> {
  #[derive(Clone)]
  struct Any(std::rc::Rc<Box<dyn Debug>>);
  impl Debug for Any {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
      self.0.fmt(f)
    }
  }
  let kids: Vec<Any> = arr(&d["c"]).iter().map(|k| Any(std::rc::Rc::new(item(k)))).collect();
  let names: Vec<String> = arr(&d["f"]).iter().map(|k| k.as_str().unwrap().to_string()).collect();
  let name = d["n"].as_str().unwrap_or("").to_string();
  let once = int(&d["s"]) % 2 == 0;
  match d["k"].as_str().unwrap() {
    "int" => Box::new(int(&d["v"])),
    "str" => Box::new(name),
    "list" if once => Box::new(ufmt::list_fmt(kids)),
    "list" => Box::new(ufmt::list_fmt(kids.into_iter().filter(|_| true))),
    "set" if once => Box::new(ufmt::set_fmt(kids)),
    "set" => Box::new(ufmt::set_fmt(kids.into_iter().filter(|_| true))),
    "tuple" if once => Box::new(ufmt::tuple_fmt(name, kids)),
    "tuple" => Box::new(ufmt::tuple_fmt(name, kids.into_iter().filter(|_| true))),
    "struct" if once => Box::new(ufmt::struct_fmt(name, names.into_iter().zip(kids).collect::<Vec<_>>())),
    "struct" => Box::new(ufmt::struct_fmt(name, names.into_iter().zip(kids))),
    other => panic!("unknown item {}", other),
  }
}

/// Text as a sequence of lines, so that it can be compared without escapes.
fn lines(s: String) -> Value {
  json!(s.split('\n').collect::<Vec<_>>())
}

/// {"m":"show","item":...}: the item, printed several times, in both forms.
pub fn run_show(scn: &Value) -> Value {
  let r = guard(|| {
    let x = item(&scn["item"]);
    json!({"plain": lines(format!("{:?}", x)), "pretty": lines(format!("{:#?}", x)),
           "plain2": lines(format!("{:?}", x)), "pretty2": lines(format!("{:#?}", x))})
  });
  let mut e = match r {
    Ok(mut v) => {
      v["out"] = json!("ok");
      v
    }
    Err(msg) => json!({"out": "panic", "msg": msg}),
  };
  e["op"] = json!("show");
  json!({"ev": [e]})
}
