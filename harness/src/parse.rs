//! Parsing: what comes back, as a graph.

use crate::gram::{build_gram, key, num, term, SGram};
use crate::util::*;
use bongo::grammar::{build, Elem, ProdElement, Terminal};
use bongo::parsers::earley::parse;
use bongo::parsers::tree::{Node, NodeContent, TreeOwner};
use bongo::parsers::Token;
use bongo::start_grammar::{wrap_grammar_with_start, StartGrammar};
use bongo::utils::Name;
use serde_json::{json, Value};
use std::collections::BTreeMap;

type PNode<'a> = Node<'a, Terminal, Name, i64>;
type Owner = TreeOwner<Terminal, Name, i64>;

/// The graph below a node.  Node ids are the positions at which this function
/// first met the node if `ids` is fresh, and stable if `ids` is kept.
pub fn graph<'a>(root: &PNode<'a>, ids: &mut BTreeMap<PNode<'a>, usize>) -> Value {
  graph_by(root, ids, |t| num(t), |k| num(k), |v| *v)
}

fn graph_by<'a, T: Ord + Clone, AK: Ord + Clone, V: Ord>(
  root: &Node<'a, T, AK, V>,
  ids: &mut BTreeMap<Node<'a, T, AK, V>, usize>,
  kind: impl Fn(T) -> i64,
  action: impl Fn(AK) -> i64,
  value: impl Fn(&V) -> i64,
) -> Value {
  let mut id = |n: &Node<'a, T, AK, V>| -> (usize, bool) {
    let next = ids.len() + 1;
    match ids.get(n) {
      Some(i) => (*i, false),
      None => {
        ids.insert(n.clone(), next);
        (next, true)
      }
    }
  };
  let mut nodes: BTreeMap<usize, Vec<Value>> = BTreeMap::new();
  let mut todo = vec![root.clone()];
  let root_id = id(root).0;
  let mut visited = std::collections::BTreeSet::new();
  visited.insert(root.clone());
  while let Some(n) = todo.pop() {
    let me = id(&n).0;
    let mut alts = Vec::new();
    for a in n.alts() {
      match a.content() {
        NodeContent::Leaf(l) => {
          alts.push(json!({"k": "leaf", "t": kind(l.kind()), "v": value(&l.value()), "c": []}))
        }
        NodeContent::Branch(b) => {
          let mut kids = Vec::new();
          for c in b.nodes() {
            let (i, _) = id(&c);
            kids.push(i);
            if visited.insert(c.clone()) {
              todo.push(c);
            }
          }
          alts.push(json!({"k": "br", "t": action(b.action()), "v": 0, "c": kids}));
        }
      }
    }
    nodes.insert(me, alts);
  }
  json!({
    "root": root_id,
    "n": nodes.iter().map(|(i, a)| json!({"i": i, "a": a})).collect::<Vec<_>>(),
  })
}

pub fn tokens(w: &Value, v: &Value) -> Vec<Token<Terminal, i64>> {
  arr(w)
    .iter()
    .zip(arr(v))
    .map(|(t, v)| Token::new(term(int(t)), int(v)))
    .collect()
}

/// {"m":"parse","g":grammar,"inputs":[{"w":[kinds],"v":[values]}...]}
pub fn run(scn: &Value) -> Value {
  let gj = &scn["g"];
  let mut ev = Vec::new();
  let g: SGram = match guard(|| {
    let g = build_gram(gj).map_err(|_| "build")?;
    wrap_grammar_with_start(g).map_err(|_| "wrap")
  }) {
    Ok(Ok(g)) => g,
    Ok(Err(e)) => {
      return json!({"g": gj, "ev": [{"op": "prepare", "out": e}]});
    }
    Err(m) => {
      return json!({"g": gj, "ev": [{"op": "prepare", "out": "panic", "msg": m}]});
    }
  };
  for inp in arr(&scn["inputs"]) {
    let owner: Owner = TreeOwner::new();
    let r = guard(|| {
      let h = owner.handle();
      match parse(&g, &h, tokens(&inp["w"], &inp["v"])) {
        None => json!({"out": "none"}),
        Some(n) => json!({"out": "some", "f": graph(&n, &mut BTreeMap::new())}),
      }
    });
    let mut e = r.unwrap_or_else(|m| json!({"out": "panic", "msg": m}));
    e["op"] = json!("parse");
    e["w"] = inp["w"].clone();
    e["v"] = inp["v"].clone();
    ev.push(e);
  }
  json!({"g": gj, "ev": ev})
}

/// {"m":"share","gs":[grammar...],"ops":[{"o":"parse","g":1,"w":..,"v":..} |
///  {"o":"leaf","t":..,"v":..} | {"o":"branch","k":..,"c":[root index...]} |
///  {"o":"graft","n":root index,"m":root index}]}
pub fn run_share(scn: &Value) -> Value {
  let gs: Vec<SGram> = match guard(|| {
    arr(&scn["gs"])
      .iter()
      .map(|g| {
        wrap_grammar_with_start(build_gram(g).ok().expect("build"))
          .ok()
          .expect("wrap")
      })
      .collect::<Vec<_>>()
  }) {
    Ok(v) => v,
    Err(m) => return json!({"ev": [{"op": "prepare", "out": "panic", "msg": m}]}),
  };
  if scn["threads"].as_bool().unwrap_or(false) {
    return at_once(scn);
  }
  let owner: Owner = TreeOwner::new();
  let h = owner.handle();
  // What else there is in the tree, so that the rest comes after it.
  for i in 0..scn["before"].as_i64().unwrap_or(0) {
    let n = h.make_leaf_node(term(1), -1 - i);
    let _ = n.add_alt(&h.make_branch_alt(key(1), vec![n.clone()]));
  }
  let mut ids: BTreeMap<PNode, usize> = BTreeMap::new();
  let mut roots: Vec<PNode> = Vec::new();
  let mut ev = Vec::new();
  for op in arr(&scn["ops"]) {
    let r = guard(|| match op["o"].as_str().unwrap() {
      "parse" => {
        let g = &gs[uint(&op["g"]) - 1];
        let fresh_owner: Owner = TreeOwner::new();
        let fh = fresh_owner.handle();
        let a = parse(g, &h, tokens(&op["w"], &op["v"]));
        let b = parse(g, &fh, tokens(&op["w"], &op["v"]));
        let fresh = match &b {
          None => json!({"root": 0, "n": []}),
          Some(n) => graph(n, &mut BTreeMap::new()),
        };
        (a, b.is_some(), fresh)
      }
      "leaf" => (
        Some(h.make_leaf_node(term(int(&op["t"])), int(&op["v"]))),
        true,
        json!({"root": 0, "n": []}),
      ),
      "branch" => {
        let kids: Vec<PNode> =
          arr(&op["c"]).iter().map(|i| roots[uint(i) % roots.len()].clone()).collect();
        (
          Some(h.make_branch_node(key(int(&op["k"])), kids)),
          true,
          json!({"root": 0, "n": []}),
        )
      }
      // The user adds to what a parse returned.
      "graft" => {
        let _ = roots[uint(&op["n"]) % roots.len()].add_all(&roots[uint(&op["m"]) % roots.len()]);
        (None, false, json!({"root": 0, "n": []}))
      }
      o => panic!("unknown op {}", o),
    });
    match r {
      Err(m) => {
        ev.push(json!({"op": op["o"], "out": "panic", "msg": m}));
        break;
      }
      Ok((n, fresh_some, fresh)) => {
        let some = n.is_some();
        if let Some(n) = n {
          roots.push(n);
        }
        // Re-read every root so far, with stable node ids.
        let all: Vec<Value> = match guard(|| roots.iter().map(|r| graph(r, &mut ids)).collect()) {
          Ok(v) => v,
          Err(m) => {
            ev.push(json!({"op": op["o"], "out": "panic", "msg": m}));
            break;
          }
        };
        ev.push(json!({"op": op["o"], "out": "ok", "some": some, "arg": op,
                       "fsome": fresh_some, "fresh": fresh, "roots": all}));
      }
    }
  }
  json!({"gs": scn["gs"], "ev": ev})
}

// ------------------------------------------------------- parses at one time

type IGram = StartGrammar<i64, i64, i64, i64>;
type INode = Node<'static, i64, i64, i64>;

fn int_gram(g: &Value) -> IGram {
  let built = build(int(&g["start"]), |gb| {
    for r in arr(&g["rules"]) {
      gb.add_rule(int(&r["h"]), |rb| {
        for p in arr(&r["p"]) {
          rb.add_prod_with_elems(
            int(&p["k"]),
            int(&p["v"]),
            arr(&p["e"])
              .iter()
              .map(int)
              .map(|s| ProdElement::new_empty(if s > 0 { Elem::Term(s) } else { Elem::NonTerm(-s) }))
              .collect::<Vec<_>>(),
          );
        }
      });
    }
  });
  wrap_grammar_with_start(built.ok().expect("build")).ok().expect("wrap")
}

fn int_tokens(op: &Value) -> Vec<Token<i64, i64>> {
  arr(&op["w"]).iter().zip(arr(&op["v"])).map(|(t, v)| Token::new(int(t), int(v))).collect()
}

/// Each parse in a thread of its own, all at one time in one tree.  Recorded as
/// if one came after the other.
fn at_once(scn: &Value) -> Value {
  // These live until the process ends, for the sake of the threads.
  let owner: &'static TreeOwner<i64, i64, i64> = Box::leak(Box::new(TreeOwner::new()));
  let ops = arr(&scn["ops"]);
  let gate = std::sync::Barrier::new(ops.len());
  let parse_one = |op: &Value, owner: &'static TreeOwner<i64, i64, i64>, gate: Option<&std::sync::Barrier>| {
    let g: &'static IGram = Box::leak(Box::new(int_gram(&scn["gs"][uint(&op["g"]) - 1])));
    let h = owner.handle();
    let t = int_tokens(op);
    if let Some(b) = gate {
      b.wait();
    }
    guard(|| parse(g, &h, t))
  };
  let results: Vec<Result<Option<INode>, String>> = std::thread::scope(|s| {
    let hs: Vec<_> = ops
      .iter()
      .map(|op| {
        std::thread::Builder::new()
          .stack_size(64 << 20)
          .spawn_scoped(s, || {
            let (p, g) = (&parse_one, &gate);
            p(op, owner, Some(g))
          })
          .unwrap()
      })
      .collect();
    hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("thread".into()))).collect()
  });
  let read = |n: &INode, ids: &mut BTreeMap<INode, usize>| graph_by(n, ids, |t| t, |k| k, |v| *v);
  let mut ev = Vec::new();
  let mut ids = BTreeMap::new();
  let mut roots: Vec<INode> = Vec::new();
  for (op, r) in ops.iter().zip(results) {
    let r = r.and_then(|n| {
      let own: &'static TreeOwner<i64, i64, i64> = Box::leak(Box::new(TreeOwner::new()));
      let b = parse_one(op, own, None)?;
      let fresh = match &b {
        None => json!({"root": 0, "n": []}),
        Some(n) => read(n, &mut BTreeMap::new()),
      };
      let some = n.is_some();
      roots.extend(n);
      let all = guard(|| roots.iter().map(|r| read(r, &mut ids)).collect::<Vec<Value>>())?;
      Ok(json!({"op": op["o"], "out": "ok", "some": some, "arg": op,
                "fsome": b.is_some(), "fresh": fresh, "roots": all}))
    });
    match r {
      Ok(e) => ev.push(e),
      Err(m) => {
        ev.push(json!({"op": op["o"], "out": "panic", "msg": m}));
        break;
      }
    }
  }
  json!({"gs": scn["gs"], "ev": ev})
}
