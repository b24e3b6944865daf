//! The forest store: single-threaded histories, DOT output, and concurrency.

use crate::util::*;
use bongo::parsers::tree::{Alternative, Node, NodeContent, TreeHandle, TreeOwner};
use bongo::utils::WasChanged;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Barrier, Mutex};
use std::time::{Duration, Instant};

/// Kinds, actions and values: numbers, some of which print with characters
/// that need care in a DOT text.
#[derive(Clone, Copy, PartialEq, Eq)]
struct K(i64);

/// Whether comparisons take long, so that what happens around them is more
/// likely to meet what other threads do.
static SLOW: AtomicBool = AtomicBool::new(false);
static TURN: AtomicUsize = AtomicUsize::new(0);

impl Ord for K {
  fn cmp(&self, other: &Self) -> std::cmp::Ordering {
    if SLOW.load(Ordering::Relaxed) {
      match TURN.fetch_add(1, Ordering::Relaxed) % 7 {
        0 => std::thread::yield_now(),
        3 => (0..50).for_each(|_| std::hint::spin_loop()),
        _ => {}
      }
    }
    self.0.cmp(&other.0)
  }
}

impl PartialOrd for K {
  fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
    Some(self.cmp(other))
  }
}

impl std::fmt::Debug for K {
  fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    match self.0 % 6 {
      2 => write!(f, "{:?}", format!("s{}", self.0)),
      3 => write!(f, "P {{ x: \\{}, y: [1] }}", self.0),
      4 => write!(f, "{:?}", format!("q\"\\n{};", self.0)),
      5 => write!(f, "<{}> -> [label=\"{}\"];", self.0, self.0),
      _ => write!(f, "{}", self.0),
    }
  }
}

fn key(v: &Value) -> K {
  K(int(v))
}

type FNode<'a> = Node<'a, K, K, K>;
type FAlt<'a> = Alternative<'a, K, K, K>;
type FHandle<'a> = TreeHandle<'a, K, K, K>;
type FOwner = TreeOwner<K, K, K>;

struct World<'a> {
  handles: Vec<FHandle<'a>>,
  nodes: Vec<FNode<'a>>,
  alts: Vec<FAlt<'a>>,
}

fn changed(c: WasChanged) -> bool {
  matches!(c, WasChanged::Changed)
}

/// Number of the first node object that equals `n`; 0 if there is none.
fn node_no(nodes: &[FNode], n: &FNode) -> usize {
  nodes.iter().position(|m| m == n).map_or(0, |i| i + 1)
}

fn content(nodes: &[FNode], a: &FAlt) -> Value {
  match a.content() {
    NodeContent::Leaf(l) => json!({"k": "leaf", "t": l.kind().0, "v": l.value().0, "c": []}),
    NodeContent::Branch(b) => json!({"k": "br", "t": b.action().0, "v": 0,
      "c": b.nodes().map(|n| node_no(nodes, &n)).collect::<Vec<_>>()}),
  }
}

/// Everything that can be seen.
fn project(w: &World) -> Value {
  json!({
    "nodes": w.nodes.iter().map(|n|
      n.alts().map(|a| content(&w.nodes, &a)).collect::<Vec<_>>()).collect::<Vec<_>>(),
    // The alternatives that a node returns are equal to the objects they
    // were made as.
    "objs": w.nodes.iter().map(|n| n.alts().map(|a|
      w.alts.iter().position(|b| *b == a).map_or(0, |i| i + 1)).collect::<Vec<_>>()).collect::<Vec<_>>(),
    "tree": w.nodes.iter().map(|n|
      w.handles.iter().position(|h| n.handle() == *h && n.handle().is_same(h))
        .map_or(0, |i| i + 1)).collect::<Vec<_>>(),
    "same": w.nodes.iter().map(|n| node_no(&w.nodes, n)).collect::<Vec<_>>(),
    "alts": w.alts.iter().map(|a| content(&w.nodes, a)).collect::<Vec<_>>(),
    "aeq": w.alts.iter().map(|a| w.alts.iter().position(|b| a == b
      && a.cmp(b) == std::cmp::Ordering::Equal).map_or(0, |i| i + 1)).collect::<Vec<_>>(),
    "atree": w.alts.iter().map(|n|
      w.handles.iter().position(|h| n.handle() == *h).map_or(0, |i| i + 1)).collect::<Vec<_>>(),
  })
}

fn pick<'b, X>(v: &'b [X], i: &Value) -> &'b X {
  &v[uint(i) - 1]
}

/// Performs one operation; the result is what the caller sees.
fn step<'a>(w: &mut World<'a>, op: &Value) -> Value {
  // Copies of handles made up front, so that temporaries live long enough.
  let h = op.get("tree").map(|t| pick(&w.handles, t).clone());
  match op["op"].as_str().unwrap() {
    "node" => {
      let n = h.unwrap().make_node();
      w.nodes.push(n);
      json!({"res": w.nodes.len(), "ch": false})
    }
    "leafalt" => {
      let a = h.unwrap().make_leaf_alt(key(&op["t"]), key(&op["v"]));
      w.alts.push(a);
      json!({"res": w.alts.len(), "ch": false})
    }
    "bralt" => {
      let kids: Vec<FNode> = arr(&op["c"]).iter().map(|i| pick(&w.nodes, i).clone()).collect();
      // The handle is borrowed for the lifetime of the result.
      let h: &'a FHandle<'a> = Box::leak(Box::new(h.unwrap()));
      let a = h.make_branch_alt(key(&op["t"]), shaped(kids, w.alts.len()));
      w.alts.push(a);
      json!({"res": w.alts.len(), "ch": false})
    }
    "leaf" => {
      let n = h.unwrap().make_leaf_node(key(&op["t"]), key(&op["v"]));
      w.nodes.push(n);
      json!({"res": w.nodes.len(), "ch": false})
    }
    "branch" => {
      let kids: Vec<FNode> = arr(&op["c"]).iter().map(|i| pick(&w.nodes, i).clone()).collect();
      let n = h.unwrap().make_branch_node(key(&op["t"]), shaped(kids, w.nodes.len()));
      w.nodes.push(n);
      json!({"res": w.nodes.len(), "ch": false})
    }
    "add" => {
      let c = pick(&w.nodes, &op["n"]).add_alt(pick(&w.alts, &op["a"]));
      json!({"res": 0, "ch": changed(c)})
    }
    // An alternative obtained by reading a node.
    "addof" => {
      let alts: Vec<FAlt> = pick(&w.nodes, &op["m"]).alts().collect();
      let c = match alts.get(uint(&op["i"])) {
        Some(a) => {
          let k = content(&w.nodes, a);
          let c = pick(&w.nodes, &op["n"]).add_alt(a);
          return json!({"res": 0, "ch": changed(c), "took": k});
        }
        None => false,
      };
      json!({"res": 0, "ch": c, "took": {"k": "none", "t": 0, "v": 0, "c": []}})
    }
    "all" => {
      let c = pick(&w.nodes, &op["n"]).add_all(pick(&w.nodes, &op["m"]));
      json!({"res": 0, "ch": changed(c)})
    }
    "dot" => {
      let s = pick(&w.nodes, &op["n"]).to_dot();
      json!({"res": 0, "ch": false, "dot": parse_dot(&s)})
    }
    // Very many nodes and alternatives, in a tree of its own.
    "far" => {
      let owner: &'static FOwner = Box::leak(Box::new(TreeOwner::new()));
      let h: &'static FHandle<'static> = Box::leak(Box::new(owner.handle()));
      let n = int(&op["n"]);
      let mut nodes: Vec<FNode<'static>> = Vec::new();
      let mut alts: Vec<FAlt<'static>> = Vec::new();
      let mut news = 0;
      for i in 1..=n {
        nodes.push(h.make_leaf_node(K(i % 5), K(i)));
      }
      let kids = |nodes: &Vec<FNode<'static>>, i: i64| {
        vec![nodes[i as usize - 1].clone(), nodes[(i % n) as usize].clone()]
      };
      for i in 1..=n {
        let a = h.make_branch_alt(K(i % 3), kids(&nodes, i));
        news += changed(nodes[i as usize - 1].add_alt(&a)) as i64;
        alts.push(a);
      }
      // One node with all of them, and again.
      let hub = h.make_node();
      let mut joined = 0;
      for a in &alts {
        joined += changed(hub.add_alt(a)) as i64;
      }
      let more = h.make_node();
      let first = changed(more.add_all(&hub));
      let second = changed(more.add_all(&hub));
      let distinct_nodes = nodes.iter().collect::<std::collections::BTreeSet<_>>().len();
      let distinct_alts = alts.iter().collect::<std::collections::BTreeSet<_>>().len();
      let numbers: BTreeMap<&FNode, usize> = nodes.iter().enumerate().map(|(i, n)| (n, i + 1)).collect();
      let got: Vec<Value> = arr(&op["at"]).iter().map(|v| {
        let i = int(v);
        let again = h.make_branch_alt(K(i % 3), kids(&nodes, i));
        let leaf = h.make_leaf_alt(K(i % 5), K(i));
        json!({
          "i": i,
          "alts": nodes[i as usize - 1].alts().map(|a| match a.content() {
            NodeContent::Leaf(l) => json!({"k": "leaf", "t": l.kind().0, "v": l.value().0, "c": []}),
            NodeContent::Branch(b) => json!({"k": "br", "t": b.action().0, "v": 0,
              "c": b.nodes().map(|n| numbers.get(&n).copied().unwrap_or(0)).collect::<Vec<_>>()}),
          }).collect::<Vec<_>>(),
          "same": again == alts[i as usize - 1],
          "re": [changed(nodes[i as usize - 1].add_alt(&again)), changed(nodes[i as usize - 1].add_alt(&leaf)),
                 changed(hub.add_alt(&again)), changed(more.add_alt(&again))],
          "ne": changed(hub.add_alt(&leaf)),
        })
      }).collect();
      json!({"res": 0, "ch": false, "news": news, "joined": joined, "first": first, "second": second,
             "nodes": distinct_nodes, "alts": distinct_alts, "hub": hub.alts().count(),
             "more": more.alts().count(), "got": got})
    }
    o => panic!("unknown op {}", o),
  }
}

/// The tokens of a DOT text: punctuation, identifiers, and strings with their
/// escapes undone.
#[derive(Clone, Debug, PartialEq)]
enum Tok {
  Id(String),
  Str(String),
  P(&'static str),
}

fn dot_tokens(s: &str) -> Option<Vec<Tok>> {
  let cs: Vec<char> = s.chars().collect();
  let mut out = Vec::new();
  let mut i = 0;
  while i < cs.len() {
    let c = cs[i];
    if c.is_whitespace() {
      i += 1;
    } else if c == '"' {
      let mut t = String::new();
      i += 1;
      loop {
        match *cs.get(i)? {
          '"' => break,
          '\\' => {
            match *cs.get(i + 1)? {
              'n' | 'l' | 'r' => t.push('\n'),
              c => t.push(c),
            }
            i += 2;
          }
          c => {
            t.push(c);
            i += 1;
          }
        }
      }
      i += 1;
      out.push(Tok::Str(t));
    } else if c == '-' && cs.get(i + 1) == Some(&'>') {
      out.push(Tok::P("->"));
      i += 2;
    } else if let Some(p) = ["{", "}", "[", "]", "=", ";", ","].iter().find(|p| p.starts_with(c)) {
      out.push(Tok::P(p));
      i += 1;
    } else if c.is_alphanumeric() || c == '_' || c == '.' {
      let mut t = String::new();
      while i < cs.len() && (cs[i].is_alphanumeric() || cs[i] == '_' || cs[i] == '.') {
        t.push(cs[i]);
        i += 1;
      }
      out.push(Tok::Id(t));
    } else {
      return None;
    }
  }
  Some(out)
}

/// What a label says: nothing for a node, the action of a branch, or kind and
/// value of a leaf.
fn read_label(l: &str) -> Value {
  if l.is_empty() {
    return json!({"k": "node", "t": 0, "v": 0});
  }
  let nums: Vec<K> = l
    .split(|c: char| !c.is_ascii_digit())
    .filter_map(|x| x.parse::<i64>().ok())
    .map(K)
    .collect();
  for t in &nums {
    if format!("{:?}", t) == l {
      return json!({"k": "br", "t": t.0, "v": 0});
    }
    for v in &nums {
      if format!("{:?}({:?})", t, v) == l {
        return json!({"k": "leaf", "t": t.0, "v": v.0});
      }
    }
  }
  json!({"k": "?", "t": 0, "v": 0})
}

/// The statements of a DOT text, as they are: vertices with labels, and edges
/// in order of appearance.
fn parse_dot(s: &str) -> Value {
  let mut verts: Vec<(String, String)> = Vec::new();
  let mut edges: Vec<(String, String)> = Vec::new();
  let mut bad = 0;
  let toks = dot_tokens(s).unwrap_or_else(|| {
    bad += 1;
    vec![]
  });
  let name = |t: Option<&Tok>| match t {
    Some(Tok::Id(s)) | Some(Tok::Str(s)) => Some(s.clone()),
    _ => None,
  };
  let mut i = 0;
  if name(toks.get(i)).as_deref() != Some("digraph") {
    bad += 1;
  }
  i += 1;
  if name(toks.get(i)).is_some() {
    i += 1;
  }
  if toks.get(i) != Some(&Tok::P("{")) {
    bad += 1;
  }
  i += 1;
  while i < toks.len() && toks[i] != Tok::P("}") {
    if toks[i] == Tok::P(";") {
      i += 1;
      continue;
    }
    let head = match name(toks.get(i)) {
      Some(h) => h,
      None => {
        bad += 1;
        break;
      }
    };
    i += 1;
    let to = if toks.get(i) == Some(&Tok::P("->")) {
      i += 2;
      name(toks.get(i - 1))
    } else {
      None
    };
    let mut label = String::new();
    while toks.get(i) == Some(&Tok::P("[")) {
      i += 1;
      while i < toks.len() && toks[i] != Tok::P("]") {
        let k = name(toks.get(i));
        i += 1;
        if toks.get(i) == Some(&Tok::P("=")) {
          match (k.as_deref(), name(toks.get(i + 1))) {
            (Some("label"), Some(l)) => label = l,
            (Some(_), Some(_)) => {}
            _ => bad += 1,
          }
          i += 2;
        } else if k.is_none() {
          // Separators between attributes are skipped by this as well.
          if !matches!(toks.get(i - 1), Some(Tok::P(",")) | Some(Tok::P(";"))) {
            bad += 1;
          }
        }
      }
      i += 1;
    }
    match to {
      Some(t) => edges.push((head, t)),
      // Defaults for the whole graph are no vertices.
      None if ["node", "edge", "graph"].contains(&head.as_str()) => {}
      None => verts.push((head, label)),
    }
  }
  if i + 1 != toks.len() {
    bad += 1;
  }
  // Vertices by position; edges as pairs of positions.
  let pos: BTreeMap<&String, usize> =
    verts.iter().enumerate().map(|(i, v)| (&v.0, i + 1)).collect();
  json!({
    "bad": bad,
    "ids": pos.len(),
    "v": verts.iter().map(|v| read_label(&v.1)).collect::<Vec<_>>(),
    "e": edges.iter().map(|e| json!([
      pos.get(&e.0).copied().unwrap_or(0),
      pos.get(&e.1).copied().unwrap_or(0)])).collect::<Vec<_>>(),
  })
}

/// {"m":"forest","trees":2,"ops":[...]}
pub fn run(scn: &Value) -> Value {
  let owners: Vec<FOwner> = (0..uint(&scn["trees"]))
    .map(|i| if i % 2 == 0 { TreeOwner::new() } else { TreeOwner::default() })
    .collect();
  // The owners live until the process ends: alternatives borrow handles.
  let owners: &'static Vec<FOwner> = Box::leak(Box::new(owners));
  let mut w = World {
    handles: owners.iter().map(|o| o.handle()).collect(),
    nodes: vec![],
    alts: vec![],
  };
  let quiet = scn["quiet"].as_bool().unwrap_or(false);
  let mut ev = Vec::new();
  let ops = arr(&scn["ops"]);
  for (i, op) in ops.iter().enumerate() {
    let mut e = op.clone();
    match guard(|| step(&mut w, op)) {
      Ok(r) => {
        for (k, v) in r.as_object().unwrap() {
          e[k] = v.clone();
        }
        e["out"] = json!("ok");
      }
      Err(m) => {
        e["out"] = json!("panic");
        e["msg"] = json!(m);
      }
    }
    if quiet && i + 1 < ops.len() && op["op"] != "dot" {
      e["seen"] = json!(false);
    } else {
      match guard(|| project(&w)) {
        Ok(p) => {
          e["seen"] = json!(true);
          e["st"] = p;
        }
        Err(m) => {
          e["out"] = json!("panic");
          e["msg"] = json!(m);
          e["seen"] = json!(false);
          e["broken"] = json!(true);
        }
      }
    }
    ev.push(e);
  }
  json!({"ev": ev})
}

// ------------------------------------------------------------- concurrency

fn read_node(nodes: &[FNode], n: &FNode) -> Value {
  json!(n.alts().map(|a| content(nodes, &a)).collect::<Vec<_>>())
}

/// One operation of a concurrent history.  Nodes 1..base are shared, the
/// results of a thread are its own.
fn conc_step<'a>(
  h: &'a FHandle<'a>,
  nodes: &[FNode<'a>],
  alts: &mut Vec<FAlt<'a>>,
  op: &Value,
) -> Value {
  match op["op"].as_str().unwrap() {
    "add" => {
      // Makes (or finds) the alternative, and adds it.
      let a = if op["k"] == "leaf" {
        h.make_leaf_alt(key(&op["t"]), key(&op["v"]))
      } else {
        h.make_branch_alt(
          key(&op["t"]),
          arr(&op["c"]).iter().map(|i| pick(nodes, i).clone()).collect::<Vec<_>>(),
        )
      };
      let c = pick(nodes, &op["n"]).add_alt(&a);
      alts.push(a);
      json!({"ch": changed(c), "got": []})
    }
    "all" => {
      let c = pick(nodes, &op["n"]).add_all(pick(nodes, &op["m"]));
      json!({"ch": changed(c), "got": []})
    }
    "read" => json!({"ch": false, "got": read_node(nodes, pick(nodes, &op["n"]))}),
    "dot" => {
      // Only for its locking; the content is C15.
      let _ = pick(nodes, &op["n"]).to_dot();
      json!({"ch": false, "got": []})
    }
    "leaf" => {
      let n = h.make_leaf_node(key(&op["t"]), key(&op["v"]));
      json!({"ch": false, "got": read_node(nodes, &n)})
    }
    "branch" => {
      let n = h.make_branch_node(
        key(&op["t"]),
        arr(&op["c"]).iter().map(|i| pick(nodes, i).clone()).collect::<Vec<_>>(),
      );
      json!({"ch": false, "got": read_node(nodes, &n)})
    }
    o => panic!("unknown op {}", o),
  }
}

/// Whether something hung before: the verdict is clear then, and only a short
/// wait is made for what follows.
static HUNG: AtomicBool = AtomicBool::new(false);

/// Waits until `done` reaches `n`, or the time is up.
fn wait_for(done: &AtomicUsize, n: usize, limit: Duration) -> bool {
  let limit = if HUNG.load(Ordering::SeqCst) { Duration::from_millis(200) } else { limit };
  let t0 = Instant::now();
  while done.load(Ordering::SeqCst) < n {
    if t0.elapsed() > limit {
      HUNG.store(true, Ordering::SeqCst);
      return false;
    }
    std::thread::sleep(Duration::from_millis(if t0.elapsed().as_millis() < 50 { 1 } else { 10 }));
  }
  true
}

/// {"m":"conc","kind":"history","nodes":n,"threads":[[op...]...],"jitter":x}
/// {"m":"conc","kind":"stress","threads":n,"ms":t,"mix":[names],"nodes":n}
/// {"m":"conc","kind":"race","threads":n,"rounds":r,"nodes":n,"alts":a}
/// {"m":"conc","kind":"lazy","ops":[...]}
/// {"m":"conc","kind":"bulk","readers":n,"writers":n,"alts":a,"rounds":r}
/// {"m":"conc","kind":"litmus","nodes":n,"pre":[content...],"setup":[op...],
///  "threads":[[op...]...],"noise":n,"ms":t,"rounds":r}
pub fn run_conc(scn: &Value) -> Value {
  SLOW.store(scn["slow"].as_bool().unwrap_or(false), Ordering::SeqCst);
  match scn["kind"].as_str().unwrap() {
    "history" => run_history(scn),
    "stress" => run_stress(scn),
    "race" => run_race(scn),
    "lazy" => run_lazy(scn),
    "bulk" => run_bulk(scn),
    "litmus" => run_litmus(scn),
    k => panic!("unknown kind {}", k),
  }
}

fn limit(scn: &Value) -> Duration {
  Duration::from_millis(scn["limit"].as_u64().unwrap_or(20_000))
}

fn run_history(scn: &Value) -> Value {
  let owner: &'static FOwner = Box::leak(Box::new(TreeOwner::new()));
  let h: &'static FHandle<'static> = Box::leak(Box::new(owner.handle()));
  let nodes: Arc<Vec<FNode<'static>>> =
    Arc::new((0..uint(&scn["nodes"])).map(|_| h.make_node()).collect());
  let threads = arr(&scn["threads"]).clone();
  let n = threads.len();
  let clock = Arc::new(AtomicUsize::new(1));
  let done = Arc::new(AtomicUsize::new(0));
  let go = Arc::new(Barrier::new(n));
  let log: Arc<Mutex<Vec<Value>>> = Arc::new(Mutex::new(Vec::new()));
  let jitter = scn["jitter"].as_u64().unwrap_or(0);
  for (ti, ops) in threads.into_iter().enumerate() {
    let (nodes, clock, done, go, log) =
      (nodes.clone(), clock.clone(), done.clone(), go.clone(), log.clone());
    std::thread::spawn(move || {
      let mut alts = Vec::new();
      let mut mine = Vec::new();
      go.wait();
      for (oi, op) in arr(&ops).iter().enumerate() {
        if jitter > 0 {
          for _ in 0..((ti as u64 * 7 + oi as u64 * 13 + jitter) * 31 % (jitter * 40)) {
            std::hint::spin_loop();
          }
        }
        let s = clock.fetch_add(1, Ordering::SeqCst);
        let r = guard(|| conc_step(h, &nodes, &mut alts, op));
        let e = clock.fetch_add(1, Ordering::SeqCst);
        let mut rec = op.clone();
        rec["thr"] = json!(ti + 1);
        rec["s"] = json!(s);
        rec["e"] = json!(e);
        match r {
          Ok(v) => {
            rec["out"] = json!("ok");
            rec["ch"] = v["ch"].clone();
            rec["got"] = v["got"].clone();
          }
          Err(m) => {
            rec["out"] = json!("panic");
            rec["msg"] = json!(m);
            rec["ch"] = json!(false);
            rec["got"] = json!([]);
          }
        }
        mine.push(rec);
      }
      log.lock().unwrap().extend(mine);
      done.fetch_add(1, Ordering::SeqCst);
    });
  }
  if !wait_for(&done, n, limit(scn)) {
    return json!({"ev": [{"op": "hang", "kind": "history"}], "nodes": scn["nodes"]});
  }
  let mut hist = log.lock().unwrap().clone();
  hist.sort_by_key(|r| r["s"].as_u64());
  // The final state is one more read of everything, after all others.
  let end = 1_000_000;
  for (i, nd) in nodes.iter().enumerate() {
    hist.push(json!({"op": "read", "n": i + 1, "thr": 0, "s": end + 2 * i, "e": end + 2 * i + 1,
      "out": "ok", "ch": false, "got": read_node(&nodes, nd)}));
  }
  json!({"ev": [{"op": "history", "h": hist}], "nodes": scn["nodes"]})
}

fn run_stress(scn: &Value) -> Value {
  let owner: &'static FOwner = Box::leak(Box::new(TreeOwner::new()));
  let h: &'static FHandle<'static> = Box::leak(Box::new(owner.handle()));
  let n = uint(&scn["threads"]);
  let mix: Vec<String> =
    arr(&scn["mix"]).iter().map(|s| s.as_str().unwrap().to_string()).collect();
  let nodes: Arc<Vec<FNode<'static>>> =
    Arc::new((0..uint(&scn["nodes"]).max(2)).map(|i| h.make_leaf_node(K(i as i64), K(0))).collect());
  let base: Arc<Vec<FAlt<'static>>> = Arc::new(vec![
    h.make_leaf_alt(K(1), K(1)),
    h.make_branch_alt(K(2), vec![nodes[0].clone(), nodes[1].clone()]),
  ]);
  let stop = Arc::new(AtomicBool::new(false));
  let done = Arc::new(AtomicUsize::new(0));
  let count = Arc::new(AtomicUsize::new(0));
  let panics = Arc::new(AtomicUsize::new(0));
  for ti in 0..n {
    let (nodes, base, stop, done, count, panics, mix) = (
      nodes.clone(), base.clone(), stop.clone(), done.clone(), count.clone(), panics.clone(), mix.clone(),
    );
    std::thread::spawn(move || {
      let mut x: u64 = 88172645463325252 ^ (ti as u64 + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15);
      let mut rnd = move |m: usize| {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        (x % m as u64) as usize
      };
      let mut calls = 0usize;
      let mut my = 0;
      while !stop.load(Ordering::Relaxed) && calls < 200_000 {
        let a = &nodes[rnd(nodes.len())];
        let b = &nodes[rnd(nodes.len())];
        let v = K(rnd(20) as i64);
        let which = &mix[rnd(mix.len())];
        let r = guard(|| match which.as_str() {
          "node" => drop(h.make_node()),
          "leaf" => drop(h.make_leaf_node(v, v)),
          "branch" => drop(h.make_branch_node(v, vec![a.clone(), b.clone()])),
          "leafalt" => drop(h.make_leaf_alt(v, v)),
          "bralt" => drop(h.make_branch_alt(v, vec![a.clone(), b.clone()])),
          "add" => drop(a.add_alt(&base[rnd(2)])),
          "all" => drop(a.add_all(b)),
          "alts" => drop(a.alts().count()),
          "content" => {
            for alt in a.alts() {
              match alt.content() {
                NodeContent::Leaf(l) => drop((l.kind(), l.value())),
                NodeContent::Branch(b) => drop((b.action(), b.nodes().count())),
              }
            }
          }
          "dot" => drop(a.to_dot()),
          "same" => drop(a.handle().is_same(&b.handle())),
          o => panic!("unknown op {}", o),
        });
        if r.is_err() {
          my += 1;
        }
        calls += 1;
      }
      count.fetch_add(calls, Ordering::SeqCst);
      panics.fetch_add(my, Ordering::SeqCst);
      done.fetch_add(1, Ordering::SeqCst);
    });
  }
  std::thread::sleep(Duration::from_millis(scn["ms"].as_u64().unwrap()));
  stop.store(true, Ordering::SeqCst);
  if !wait_for(&done, n, limit(scn)) {
    return json!({"ev": [{"op": "hang", "kind": "stress"}]});
  }
  json!({"ev": [{"op": "stress", "panics": panics.load(Ordering::SeqCst),
                 "some": count.load(Ordering::SeqCst) > 0}]})
}

/// All threads make the same alternatives and add them to the same nodes, at
/// the same time.
/// Some threads copy all alternatives of a node to another at the same time,
/// and some read that one over and over.
fn run_bulk(scn: &Value) -> Value {
  let (nr, nw) = (uint(&scn["readers"]), uint(&scn["writers"]));
  let na = uint(&scn["alts"]);
  let mut ev = Vec::new();
  for _ in 0..uint(&scn["rounds"]) {
    let owner: &'static FOwner = Box::leak(Box::new(TreeOwner::new()));
    let h: &'static FHandle<'static> = Box::leak(Box::new(owner.handle()));
    let (src, dst) = (h.make_node(), h.make_node());
    for a in 0..na {
      src.add_alt(&h.make_leaf_alt(K(a as i64), K(0)));
    }
    let done = Arc::new(AtomicUsize::new(0));
    let written = Arc::new(AtomicUsize::new(0));
    let go = Arc::new(Barrier::new(nr + nw));
    // What was seen and reported, by each thread.
    let out: Arc<Mutex<(Vec<usize>, usize)>> = Arc::new(Mutex::new((vec![], 0)));
    for ti in 0..nr + nw {
      let (src, dst, done, written, go, out) =
        (src.clone(), dst.clone(), done.clone(), written.clone(), go.clone(), out.clone());
      std::thread::spawn(move || {
        go.wait();
        let r = guard(|| {
          if ti < nw {
            let c = changed(dst.add_all(&src));
            written.fetch_add(1, Ordering::SeqCst);
            (vec![], c as usize)
          } else {
            let mut seen = std::collections::BTreeSet::new();
            loop {
              let last = written.load(Ordering::SeqCst) == nw;
              seen.insert(dst.alts().count());
              if last {
                break;
              }
            }
            (seen.into_iter().collect(), 0)
          }
        });
        match r {
          Ok((s, c)) => {
            let mut o = out.lock().unwrap();
            o.0.extend(s);
            o.1 += c;
          }
          Err(_) => {
            written.fetch_add((ti < nw) as usize, Ordering::SeqCst);
            out.lock().unwrap().1 += 1000;
          }
        }
        done.fetch_add(1, Ordering::SeqCst);
      });
    }
    if !wait_for(&done, nr + nw, limit(scn)) {
      ev.push(json!({"op": "hang", "kind": "bulk"}));
      return json!({"ev": ev});
    }
    let o = out.lock().unwrap();
    let mut seen = o.0.clone();
    seen.sort();
    seen.dedup();
    ev.push(json!({"op": "bulk", "alts": na, "seen": seen, "changed": o.1}));
  }
  json!({"ev": ev})
}

/// An operation of a litmus program, with indexes from 0.
#[derive(Clone, Copy)]
enum Lit {
  Add(usize, usize),
  All(usize, usize),
  Read(usize),
}

fn lits(ops: &Value) -> Vec<Lit> {
  arr(ops)
    .iter()
    .map(|o| match o["op"].as_str().unwrap() {
      "add" => Lit::Add(uint(&o["n"]) - 1, uint(&o["p"]) - 1),
      "all" => Lit::All(uint(&o["n"]) - 1, uint(&o["m"]) - 1),
      "read" => Lit::Read(uint(&o["n"]) - 1),
      o => panic!("unknown op {}", o),
    })
    .collect()
}

/// What an operation returned: what an addition reported, or what was read, as
/// numbers of the alternatives made first; `None` when it panicked.
type LitOut = Option<(bool, Vec<usize>)>;

fn lit_step<'a>(nodes: &[FNode<'a>], pre: &[FAlt<'a>], op: Lit) -> Option<(bool, Vec<FAlt<'a>>)> {
  guard(|| match op {
    Lit::Add(n, p) => (changed(nodes[n].add_alt(&pre[p])), vec![]),
    Lit::All(n, m) => (changed(nodes[n].add_all(&nodes[m])), vec![]),
    Lit::Read(n) => (false, nodes[n].alts().collect()),
  })
  .ok()
}

fn lit_out(keys: &[String], r: Option<(bool, Vec<FAlt>)>) -> LitOut {
  r.map(|(c, alts)| {
    (
      c,
      alts
        .iter()
        .map(|a| {
          let k = content(&[], a).to_string();
          keys.iter().position(|x| *x == k).map_or(0, |i| i + 1)
        })
        .collect(),
    )
  })
}

/// Runs one small program very many times, each time on new nodes, and reports
/// every different outcome once.  The threads are kept, and start each round
/// together; `noise` more threads write to other nodes all the time, so that
/// the lock is always wanted by someone.
fn run_litmus(scn: &Value) -> Value {
  const BATCH: usize = 200;
  let nn = uint(&scn["nodes"]);
  let setup = lits(&scn["setup"]);
  let progs: Vec<Vec<Lit>> = arr(&scn["threads"]).iter().map(lits).collect();
  let n = progs.len();
  let noise = uint(&scn["noise"]);
  let rounds = uint(&scn["rounds"]);
  let limit_ms = Duration::from_millis(scn["ms"].as_u64().unwrap());
  let t0 = Instant::now();
  let mut outcomes: std::collections::BTreeSet<Vec<LitOut>> = Default::default();
  let mut ran = 0;
  while ran < rounds && t0.elapsed() < limit_ms && outcomes.len() < 100 {
    let owner: &'static FOwner = Box::leak(Box::new(TreeOwner::new()));
    let h: &'static FHandle<'static> = Box::leak(Box::new(owner.handle()));
    let made: Vec<FAlt<'static>> = arr(&scn["pre"])
      .iter()
      .map(|c| {
        if c["k"] == "leaf" {
          h.make_leaf_alt(key(&c["t"]), key(&c["v"]))
        } else {
          h.make_branch_alt(key(&c["t"]), vec![])
        }
      })
      .collect();
    let keys: Arc<Vec<String>> = Arc::new(made.iter().map(|a| content(&[], a).to_string()).collect());
    let pre = Arc::new(made);
    let mut first: Vec<Vec<LitOut>> = Vec::new();
    let mut all = Vec::new();
    for _ in 0..BATCH {
      let nodes: Vec<FNode<'static>> = (0..nn).map(|_| h.make_node()).collect();
      first.push(setup.iter().map(|o| lit_out(&keys, lit_step(&nodes, &pre, *o))).collect());
      all.push(nodes);
    }
    let all = Arc::new(all);
    let done = Arc::new(AtomicUsize::new(0));
    let stop = Arc::new(AtomicUsize::new(0));
    let quiet = Arc::new(AtomicUsize::new(0));
    let at = Arc::new(AtomicUsize::new(0));
    let outs: Arc<Mutex<Vec<(usize, Vec<Vec<LitOut>>)>>> = Arc::new(Mutex::new(vec![]));
    for k in 0..noise {
      let (pre, stop, quiet) = (pre.clone(), stop.clone(), quiet.clone());
      std::thread::spawn(move || {
        let mine = h.make_node();
        let mut i = k;
        while stop.load(Ordering::SeqCst) == 0 {
          let _ = guard(|| mine.add_alt(&pre[i % pre.len()]));
          i += 1;
          (0..(i * 37) % 300).for_each(|_| std::hint::spin_loop());
        }
        quiet.fetch_add(1, Ordering::SeqCst);
      });
    }
    for (ti, prog) in progs.iter().enumerate() {
      let prog = prog.clone();
      let (all, pre, keys, done, at, outs) =
        (all.clone(), pre.clone(), keys.clone(), done.clone(), at.clone(), outs.clone());
      std::thread::spawn(move || {
        let mut mine = Vec::new();
        for (r, nodes) in all.iter().enumerate() {
          at.fetch_add(1, Ordering::SeqCst);
          let mut spins = 0;
          while at.load(Ordering::SeqCst) < (r + 1) * n {
            spins += 1;
            if spins > 500 {
              std::thread::yield_now();
            } else {
              std::hint::spin_loop();
            }
          }
          // Starts drift against each other by up to some hundred steps.
          (0..(r * (ti * 29 + 11)) % 97 * (r % 4)).for_each(|_| std::hint::spin_loop());
          let got: Vec<_> = prog.iter().map(|o| lit_step(nodes, &pre, *o)).collect();
          mine.push(got);
        }
        let mine = mine
          .into_iter()
          .map(|got| got.into_iter().map(|r| lit_out(&keys, r)).collect())
          .collect();
        outs.lock().unwrap().push((ti, mine));
        done.fetch_add(1, Ordering::SeqCst);
      });
    }
    let ended = wait_for(&done, n, limit(scn));
    stop.store(1, Ordering::SeqCst);
    if !ended || !wait_for(&quiet, noise, limit(scn)) {
      return json!({"ev": [{"op": "hang", "kind": "litmus"}], "nodes": nn});
    }
    let mut outs = outs.lock().unwrap();
    outs.sort_by_key(|o| o.0);
    for r in 0..BATCH {
      let mut o = first[r].clone();
      for (_, per) in outs.iter() {
        o.extend(per[r].iter().cloned());
      }
      for i in 0..nn {
        o.push(lit_out(&keys, lit_step(&all[r], &pre, Lit::Read(i))));
      }
      outcomes.insert(o);
    }
    ran += BATCH;
  }
  // The operations, in the order in which an outcome lists them.
  let mut ops: Vec<Value> = Vec::new();
  let mut put = |o: &Value, ph: usize, thr: usize| {
    let mut o = o.clone();
    o["ph"] = json!(ph);
    o["thr"] = json!(thr);
    ops.push(o);
  };
  for o in arr(&scn["setup"]) {
    put(o, 0, 0);
  }
  for (ti, p) in arr(&scn["threads"]).iter().enumerate() {
    for o in arr(p) {
      put(o, 1, ti + 1);
    }
  }
  for i in 0..nn {
    put(&json!({"op": "read", "n": i + 1}), 2, 0);
  }
  let pre = arr(&scn["pre"]);
  let ev: Vec<Value> = outcomes
    .iter()
    .map(|o| {
      let items: Vec<Value> = ops
        .iter()
        .zip(o)
        .map(|(op, r)| {
          let mut rec = op.clone();
          rec["out"] = json!(if r.is_some() { "ok" } else { "panic" });
          let (c, got) = r.clone().unwrap_or((false, vec![]));
          rec["ch"] = json!(c);
          rec["got"] = json!(got
            .iter()
            .map(|i| if *i == 0 { json!({"k": "none", "t": 0, "v": 0, "c": []}) } else { pre[*i - 1].clone() })
            .collect::<Vec<_>>());
          rec
        })
        .collect();
      json!({"op": "litmus", "h": items})
    })
    .collect();
  json!({"ev": ev, "nodes": nn, "ran": ran})
}

fn run_race(scn: &Value) -> Value {
  let n = uint(&scn["threads"]);
  let rounds = uint(&scn["rounds"]);
  let na = uint(&scn["alts"]);
  let mut ev = Vec::new();
  for round in 0..rounds {
    let owner: &'static FOwner = Box::leak(Box::new(TreeOwner::new()));
    let h: &'static FHandle<'static> = Box::leak(Box::new(owner.handle()));
    let node = h.make_node();
    let copy = h.make_node();
    let kid = h.make_leaf_node(K(0), K(0));
    let done = Arc::new(AtomicUsize::new(0));
    let go = Arc::new(Barrier::new(n));
    let out: Arc<Mutex<Vec<(usize, Vec<(FAlt, bool)>, Vec<FNode>, usize)>>> = Arc::new(Mutex::new(vec![]));
    for ti in 0..n {
      let (node, copy, kid, done, go, out) =
        (node.clone(), copy.clone(), kid.clone(), done.clone(), go.clone(), out.clone());
      std::thread::spawn(move || {
        go.wait();
        let r = guard(|| {
          let mut got = Vec::new();
          let mut made = Vec::new();
          let mut copied = 0;
          for a in 0..na {
            let a = ((a + if round % 2 == 0 { 0 } else { ti }) % na) as i64;
            let alt = if a % 2 == 0 {
              h.make_leaf_alt(K(a), K(a))
            } else {
              h.make_branch_alt(K(a), vec![kid.clone(), kid.clone()])
            };
            let c = changed(node.add_alt(&alt));
            got.push((alt, c));
            if round % 3 == 1 {
              made.push(h.make_node());
            } else if round % 3 == 2 {
              made.push(h.make_leaf_node(K(100 + ti as i64), K(a)));
            }
            copied += changed(copy.add_all(&node)) as usize;
          }
          (got, made, copied)
        });
        if let Ok((got, made, copied)) = r {
          out.lock().unwrap().push((ti, got, made, copied));
        }
        done.fetch_add(1, Ordering::SeqCst);
      });
    }
    if !wait_for(&done, n, limit(scn)) {
      ev.push(json!({"op": "hang", "kind": "race"}));
      return json!({"ev": ev});
    }
    let all = out.lock().unwrap();
    // Per alternative: how many threads were told that it was new, and how
    // many different alternatives there are for that content.
    let mut per = Vec::new();
    let none: Vec<FNode> = vec![kid.clone()];
    for a in 0..na as i64 {
      let mut news = 0;
      let mut distinct: Vec<FAlt> = Vec::new();
      for (_, got, _, _) in all.iter() {
        for (alt, c) in got {
          let k = content(&none, alt);
          if k["t"] == json!(a) {
            news += *c as i64;
            if !distinct.contains(alt) {
              distinct.push(alt.clone());
            }
          }
        }
      }
      per.push(json!({"a": a, "news": news, "ids": distinct.len()}));
    }
    let mut made: Vec<FNode> = Vec::new();
    let mut total = 0;
    let mut leafs_ok = 0;
    for (ti, _, m, _) in all.iter() {
      total += m.len();
      made.extend(m.iter().cloned());
      for x in m {
        let alts: Vec<Value> = x.alts().map(|a| content(&none, &a)).collect();
        let ok = match round % 3 {
          1 => alts.is_empty(),
          _ => alts.len() == 1 && alts[0]["t"] == json!(100 + *ti as i64),
        };
        leafs_ok += ok as usize;
      }
    }
    made.sort();
    made.dedup();
    ev.push(json!({"op": "race", "threads": n, "alts": na, "finished": all.len(), "per": per,
      "node": node.alts().map(|a| content(&none, &a)).collect::<Vec<_>>(),
      "copy": copy.alts().map(|a| content(&none, &a)).collect::<Vec<_>>(),
      "copied": all.iter().map(|x| x.3).sum::<usize>(),
      "made": total, "distinct": made.len(), "fresh": leafs_ok}));
  }
  json!({"ev": ev})
}

/// Nodes handed over by an iterator that uses the tree itself, alone or with a
/// writer or reader that it waits for in another thread.
fn run_lazy(scn: &Value) -> Value {
  let mut ev = Vec::new();
  for op in arr(&scn["ops"]) {
    let op = op.clone();
    let opc = op.clone();
    let done = Arc::new(AtomicUsize::new(0));
    let out: Arc<Mutex<Option<Result<Value, String>>>> = Arc::new(Mutex::new(None));
    let (d2, o2) = (done.clone(), out.clone());
    std::thread::spawn(move || {
      let r = guard(|| lazy_step(&opc));
      *o2.lock().unwrap() = Some(r);
      d2.fetch_add(1, Ordering::SeqCst);
    });
    if !wait_for(&done, 1, limit(scn)) {
      ev.push(json!({"op": "hang", "kind": "lazy", "how": op["how"]}));
      return json!({"ev": ev});
    }
    let r = out.lock().unwrap().take().unwrap();
    ev.push(match r {
      Ok(v) => json!({"op": "lazy", "out": "ok", "arg": op, "got": v}),
      Err(m) => json!({"op": "lazy", "out": "panic", "msg": m, "arg": op, "got": []}),
    });
  }
  json!({"ev": ev})
}

/// {"target":"alt"|"node","how":[per child what its creation does],"t":action}
fn lazy_step(op: &Value) -> Value {
  let owner: &'static FOwner = Box::leak(Box::new(TreeOwner::new()));
  let h: &'static FHandle<'static> = Box::leak(Box::new(owner.handle()));
  let other = h.make_leaf_node(K(50), K(50));
  let hows: Vec<String> =
    arr(&op["how"]).iter().map(|s| s.as_str().unwrap().to_string()).collect();
  let made: Arc<Mutex<Vec<FNode<'static>>>> = Arc::new(Mutex::new(vec![]));
  let m2 = made.clone();
  let kids = hows.into_iter().enumerate().map(move |(i, how)| {
    let i = i as i64 + 1;
    let n = match how.as_str() {
      "make" => h.make_node(),
      "leaf" => h.make_leaf_node(K(i), K(i)),
      "branch" => h.make_branch_node(K(i), vec![other.clone()]),
      "nested" => h.make_branch_node(K(i), (0..2).map(|j| h.make_leaf_node(K(i), K(j)))),
      "read" => {
        let n = h.make_leaf_node(K(i), K(i));
        for a in n.alts() {
          let _ = a.content();
        }
        let _ = n.to_dot();
        n
      }
      "merge" => {
        let n = h.make_leaf_node(K(i), K(i));
        let _ = n.add_all(&other);
        n
      }
      // Another thread writes to the tree, and this one waits for it.
      "wait" => std::thread::spawn(move || h.make_leaf_node(K(i), K(i))).join().unwrap(),
      // A writer starts in another thread, and this one goes on reading.
      "behind" => {
        let n = h.make_leaf_node(K(i), K(i));
        let started = Arc::new(AtomicBool::new(false));
        let s2 = started.clone();
        let t = std::thread::spawn(move || {
          s2.store(true, Ordering::SeqCst);
          drop(h.make_node());
        });
        while !started.load(Ordering::SeqCst) {
          std::hint::spin_loop();
        }
        std::thread::sleep(Duration::from_millis(5));
        let c = n.alts().count();
        assert_eq!(c, 1);
        drop(t);
        n
      }
      o => panic!("unknown how {}", o),
    };
    m2.lock().unwrap().push(n.clone());
    n
  });
  let alt;
  let node;
  let t = key(&op["t"]);
  let got = if op["target"] == "alt" {
    alt = h.make_branch_alt(t, kids);
    content(&made.lock().unwrap(), &alt)
  } else {
    node = h.make_branch_node(t, kids);
    let alts: Vec<FAlt> = node.alts().collect();
    if alts.len() != 1 {
      return json!([]);
    }
    content(&made.lock().unwrap(), &alts[0])
  };
  let kids: Vec<Value> = made.lock().unwrap().iter().map(|n| json!(n.alts().count())).collect();
  json!({"alt": got, "kids": kids})
}
