//! Passes, token streams, maps, names and iteration helpers.

use crate::gram::{build_gram, num, Gram};
use crate::util::*;
use bongo::grammar::passes::{Pass, PassContext};
use bongo::grammar::{NonTerminal, Terminal};
use bongo::parsers::{Token, TokenStream, VecTokenStream};
use bongo::utils::type_map::{TypeKey, TypeMap};
use bongo::utils::{
  apply_fixed_point, breadth_first_search, change_iter, change_loop,
  fixed_point, merge_value_pairs, take_only, CollectMap, FixedPointProcessor,
  Name, WasChanged,
};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};

fn ch(c: WasChanged) -> bool {
  matches!(c, WasChanged::Changed)
}

/// Adds the outcome of an operation to a copy of its description.
fn outcome(op: &Value, r: Result<Value, String>) -> Value {
  let mut e = op.clone();
  match r {
    Ok(v) => {
      for (k, x) in v.as_object().unwrap() {
        e[k] = x.clone();
      }
      e["out"] = json!("ok");
    }
    Err(m) => {
      e["out"] = json!("panic");
      e["msg"] = json!(m);
    }
  }
  e
}

/// In quiet scenarios, only some operations are followed by a look at
/// everything.
fn hidden(scn: &Value, op: &Value) -> bool {
  scn["quiet"].as_bool().unwrap_or(false) && !op["look"].as_bool().unwrap_or(false)
}

// ------------------------------------------------------------------ passes

type Ctx = PassContext<'static, Terminal, NonTerminal, Name, i64>;

#[derive(Debug, thiserror::Error)]
#[error("pass {0} failed")]
struct PErr(i64);

/// The result of pass I.
struct P<const I: usize> {
  serial: i64,
  start: i64,
}

struct PConf {
  deps: Vec<(usize, usize)>, // (context offset: 0 same, 1 the other; pass)
  fail: String,              // "no", "before", "after", "swallow"
}

#[derive(Default)]
struct PState {
  conf: Vec<PConf>,
  twins: usize,
  ctxs: Vec<&'static Ctx>,
  shape: usize,
  // What the empty results stand for, by context and pass.
  noted: BTreeMap<(usize, usize), (i64, i64)>,
  serial: i64,
  ev: Vec<Value>,
}

impl PState {
  fn shape(&self, p: usize) -> usize {
    if self.shape < 3 { self.shape } else { p % 3 }
  }
}

thread_local! {
  static PS: RefCell<PState> = RefCell::new(PState::default());
}

fn log(v: Value) {
  PS.with(|s| s.borrow_mut().ev.push(v));
}

fn ctx_no(c: &Ctx) -> usize {
  PS.with(|s| {
    s.borrow().ctxs.iter().position(|d| std::ptr::eq(*d, c)).map_or(0, |i| i + 1)
  })
}

/// What pass `i` does.
fn body<R>(
  i: usize,
  pm: &PassContext<Terminal, NonTerminal, Name, i64>,
  make: impl FnOnce(i64, i64) -> R,
) -> Result<R, PErr> {
  // The contexts are all 'static here; this finds out which it is.
  let c = PS.with(|s| {
    s.borrow().ctxs.iter().position(|d| {
      std::ptr::eq(*d as *const Ctx as *const u8, pm as *const _ as *const u8)
    })
  });
  let c = c.expect("a known context");
  let ctx = PS.with(|s| s.borrow().ctxs[c]);
  let start = num(pm.grammar().start_nt());
  log(json!({"op": "run", "c": c + 1, "p": i + 1, "start": start}));
  let (deps, fail) = PS.with(|s| {
    let s = s.borrow();
    (s.conf[i].deps.clone(), s.conf[i].fail.clone())
  });
  let done = |r: Result<i64, PErr>| {
    log(json!({"op": "done", "c": c + 1, "p": i + 1,
      "out": if r.is_ok() { "ok" } else { "err" },
      "v": match &r { Ok(p) => *p, Err(e) => e.0 }}));
    r
  };
  if fail == "before" {
    return done(Err(PErr(i as i64 + 1))).map(|_| unreachable!());
  }
  for (off, d) in deps {
    let n = PS.with(|s| s.borrow().ctxs.len());
    let target = (c + off) % n;
    let cx = if target == c { ctx } else { PS.with(|s| s.borrow().ctxs[target]) };
    if let Err(e) = get(cx, d) {
      if fail != "swallow" {
        return done(Err(PErr(e))).map(|_| unreachable!());
      }
    }
  }
  if fail == "after" {
    return done(Err(PErr(i as i64 + 1))).map(|_| unreachable!());
  }
  let serial = PS.with(|s| {
    let mut s = s.borrow_mut();
    s.serial += 1;
    s.serial
  });
  done(Ok(serial)).map(|s| make(s, start))
}

impl<const I: usize> Pass<Terminal, NonTerminal, Name, i64> for P<I> {
  type Error = PErr;
  fn run_pass(
    pm: &PassContext<Terminal, NonTerminal, Name, i64>,
  ) -> Result<Self, PErr> {
    body(I, pm, |serial, start| P { serial, start })
  }
}

fn ask(
  cx: &'static Ctx,
  i: usize,
  f: impl FnOnce() -> Result<(i64, i64), PErr>,
) -> Result<(i64, i64), i64> {
  log(json!({"op": "get", "c": ctx_no(cx), "p": i + 1}));
  let r = f();
  log(json!({"op": "got", "c": ctx_no(cx), "p": i + 1,
    "out": if r.is_ok() { "ok" } else { "err" },
    "v": match &r { Ok(p) => p.0, Err(e) => e.0 },
    "start": r.as_ref().map_or(0, |p| p.1)}));
  r.map_err(|e| e.0)
}

fn get1<const I: usize>(cx: &'static Ctx) -> Result<(i64, i64), i64> {
  ask(cx, I, || cx.get_pass::<P<I>>().map(|p| (p.serial, p.start)))
}

/// Passes whose results carry nothing: what one stands for is noted beside it.
struct Empty<const I: usize>;

impl<const I: usize> Pass<Terminal, NonTerminal, Name, i64> for Empty<I> {
  type Error = PErr;
  fn run_pass(
    pm: &PassContext<Terminal, NonTerminal, Name, i64>,
  ) -> Result<Self, PErr> {
    body(I, pm, |serial, start| {
      PS.with(|s| s.borrow_mut().noted.insert((place(pm), I), (serial, start)));
      Empty
    })
  }
}

fn place<C>(c: &C) -> usize {
  c as *const C as *const u8 as usize
}

fn get_empty<const I: usize>(cx: &'static Ctx) -> Result<(i64, i64), i64> {
  ask(cx, I, || {
    cx.get_pass::<Empty<I>>()
      .map(|_| PS.with(|s| s.borrow().noted.get(&(place(cx), I)).copied().unwrap_or((0, 0))))
  })
}

/// Passes whose results are large, aligned, and own memory.
#[repr(align(64))]
struct Large<const I: usize> {
  serial: Box<i64>,
  pad: [i64; 60],
  start: Vec<i64>,
}

impl<const I: usize> Pass<Terminal, NonTerminal, Name, i64> for Large<I> {
  type Error = PErr;
  fn run_pass(
    pm: &PassContext<Terminal, NonTerminal, Name, i64>,
  ) -> Result<Self, PErr> {
    body(I, pm, |serial, start| Large {
      serial: Box::new(serial),
      pad: [serial; 60],
      start: vec![start; 3],
    })
  }
}

fn get_large<const I: usize>(cx: &'static Ctx) -> Result<(i64, i64), i64> {
  ask(cx, I, || {
    cx.get_pass::<Large<I>>().map(|p| {
      let whole = p.pad.iter().all(|x| *x == *p.serial) && p.start.len() == 3;
      (if whole { *p.serial } else { -1 }, p.start[0])
    })
  })
}

/// Pass types with one name and one shape, declared in blocks of their own.
fn get_twin(cx: &'static Ctx, p: usize) -> Result<(i64, i64), i64> {
  macro_rules! one {
    ($i:literal) => {{
      struct Twin {
        serial: i64,
        start: i64,
      }
      impl Pass<Terminal, NonTerminal, Name, i64> for Twin {
        type Error = PErr;
        fn run_pass(
          pm: &PassContext<Terminal, NonTerminal, Name, i64>,
        ) -> Result<Self, PErr> {
          body($i, pm, |serial, start| Twin { serial, start })
        }
      }
      ask(cx, $i, || cx.get_pass::<Twin>().map(|p| (p.serial, p.start)))
    }};
  }
  match p {
    0 => one!(0),
    1 => one!(1),
    2 => one!(2),
    3 => one!(3),
    4 => one!(4),
    5 => one!(5),
    _ => panic!("no such pass"),
  }
}

type Getter = fn(&'static Ctx) -> Result<(i64, i64), i64>;

/// The passes as types of three kinds.
macro_rules! getters {
  ($($i:literal)*) => { [$([get1::<$i> as Getter, get_empty::<$i>, get_large::<$i>]),*] };
}

/// With "twins", the passes of the scenario before this number are such types.
fn get(cx: &'static Ctx, p: usize) -> Result<(i64, i64), i64> {
  let all: [[Getter; 3]; 48] = getters!(
    0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23
    24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47);
  if p < PS.with(|s| s.borrow().twins) {
    get_twin(cx, p)
  } else {
    all[p][PS.with(|s| s.borrow().shape(p))](cx)
  }
}

/// {"m":"pass","passes":[{"deps":[[off,p]..],"fail":..}],"starts":[..],
///  "q":[[context, pass]...],"seq":bool,"twins":n}
/// With "seq", the contexts live one after the other, each grammar and each
/// context at the place of the one before; queries come in their order.
pub fn run_pass(scn: &Value) -> Value {
  let conf: Vec<PConf> = arr(&scn["passes"])
    .iter()
    .map(|p| PConf {
      deps: arr(&p["deps"]).iter().map(|d| (uint(&d[0]), uint(&d[1]) - 1)).collect(),
      fail: p["fail"].as_str().unwrap().to_string(),
    })
    .collect();
  // Grammars that differ in their start symbol only.
  let gram = |s: &Value| -> Gram {
    build_gram(&json!({"start": s, "rules": [
      {"h": s, "p": [{"k": 1, "v": 1, "e": [1], "n": [0]}]}]}))
    .ok()
    .expect("builds")
  };
  let leaked = |s: &Value| -> &'static Ctx {
    Box::leak(Box::new(PassContext::new(Box::leak(Box::new(gram(s))))))
  };
  let seq = scn["seq"].as_bool().unwrap_or(false);
  let starts = arr(&scn["starts"]);
  let ctxs: Vec<&'static Ctx> = starts.iter().map(leaked).collect();
  PS.with(|s| *s.borrow_mut() = PState {
    conf,
    twins: scn["twins"].as_u64().unwrap_or(0) as usize,
    ctxs: ctxs.clone(),
    shape: scn["shape"].as_u64().unwrap_or(0) as usize,
    noted: BTreeMap::new(),
    serial: 0,
    ev: vec![],
  });
  let place: *mut Gram = Box::into_raw(Box::new(gram(&starts[0])));
  let cplace: *mut Ctx = Box::into_raw(Box::new(PassContext::new(unsafe { &*place })));
  let mut now = 0;
  for q in arr(&scn["q"]) {
    let c = uint(&q[0]);
    if seq && c != now {
      PS.with(|s| {
        let mut s = s.borrow_mut();
        if now > 0 {
          s.ctxs[now - 1] = ctxs[now - 1];
        }
        // Nothing refers to what was in these places any more.
        unsafe {
          std::ptr::drop_in_place(cplace);
          *place = gram(&starts[c - 1]);
          std::ptr::write(cplace, PassContext::new(&*place));
          s.ctxs[c - 1] = &*cplace;
        }
      });
      now = c;
    }
    let r = guard(|| {
      let cx = PS.with(|s| s.borrow().ctxs[c - 1]);
      get(cx, uint(&q[1]) - 1).is_ok()
    });
    if let Err(m) = r {
      log(json!({"op": "panic", "msg": m}));
      break;
    }
  }
  let ev = PS.with(|s| std::mem::take(&mut s.borrow_mut().ev));
  json!({"ev": ev, "conf": {"p": scn["passes"], "starts": scn["starts"]}})
}

// ----------------------------------------------------------------- streams

thread_local! {
  static CLONED: RefCell<Vec<(u8, i64)>> = RefCell::new(vec![]);
}

/// A token part that says what it is when it is cloned: tokens cannot be
/// looked into, but cloned.
struct Part<const W: u8>(i64);

impl<const W: u8> Clone for Part<W> {
  fn clone(&self) -> Self {
    CLONED.with(|c| c.borrow_mut().push((W, self.0)));
    Part(self.0)
  }
}

type Stream = VecTokenStream<Part<1>, Part<2>>;

fn peek(t: &Token<Part<1>, Part<2>>) -> Value {
  CLONED.with(|c| c.borrow_mut().clear());
  let _copy = t.clone();
  CLONED.with(|c| {
    let c = c.borrow();
    let f = |w| c.iter().find(|x| x.0 == w).map_or(0, |x| x.1);
    json!([f(1), f(2)])
  })
}

/// {"m":"stream","ops":[{"op":"new","toks":[[k,v]..]} | {"op":"next","s":i} |
///  {"op":"clone","s":i} | {"op":"drop","s":i}]}
pub fn run_stream(scn: &Value) -> Value {
  let mut ss: Vec<Option<Stream>> = Vec::new();
  let mut ev = Vec::new();
  for (i, op) in arr(&scn["ops"]).iter().enumerate() {
    let r = guard(|| match op["op"].as_str().unwrap() {
      "new" => {
        let toks = arr(&op["toks"]).iter().map(|t| Token::new(Part::<1>(int(&t[0])), Part::<2>(int(&t[1]))));
        ss.push(Some(if i % 2 == 0 {
          VecTokenStream::from_into_iter(toks.collect::<Vec<_>>())
        } else {
          let toks: Vec<_> = toks.collect();
          let shape = i + toks.len();
          VecTokenStream::from_into_iter(shaped(toks, shape))
        }));
        json!({"some": true, "tok": []})
      }
      "clone" => {
        let c = ss[uint(&op["s"]) - 1].clone();
        ss.push(c);
        json!({"some": true, "tok": []})
      }
      "drop" => {
        ss[uint(&op["s"]) - 1] = None;
        json!({"some": true, "tok": []})
      }
      "next" => match ss[uint(&op["s"]) - 1].as_ref().unwrap().next() {
        None => json!({"some": false, "tok": []}),
        Some((t, rest)) => {
          ss.push(Some(rest));
          json!({"some": true, "tok": peek(&t)})
        }
      },
      // A long stream, read to its end and again from some places.
      "long" => {
        let n = int(&op["n"]);
        let tok = |i: i64| (i % 7 + 1, i);
        let at: Vec<i64> = arr(&op["at"]).iter().map(int).collect();
        let toks = (0..n).map(|i| Token::new(Part::<1>(tok(i).0), Part::<2>(tok(i).1)));
        let mut cur: Stream = if n % 3 == 0 {
          VecTokenStream::from_into_iter(toks)
        } else {
          VecTokenStream::from_into_iter(shaped(toks.collect(), n as usize))
        };
        let mut kept: BTreeMap<i64, Stream> = BTreeMap::new();
        let mut read = 0;
        let mut wrong = 0;
        while read <= n + 5 {
          if at.contains(&read) {
            kept.insert(read, cur.clone());
          }
          match cur.next() {
            None => break,
            Some((t, rest)) => {
              wrong += (peek(&t) != json!([tok(read).0, tok(read).1])) as i64;
              read += 1;
              cur = rest;
            }
          }
        }
        let again: Vec<Value> = kept
          .iter()
          .map(|(p, s)| {
            let mut left = 0;
            let mut cur = s.clone();
            let first = s.next().map_or(json!([]), |(t, _)| peek(&t));
            while left <= n + 5 {
              match cur.next() {
                None => break,
                Some((_, rest)) => cur = rest,
              }
              left += 1;
            }
            json!({"at": p, "left": left, "tok": first})
          })
          .collect();
        json!({"some": true, "tok": [], "read": read, "wrong": wrong, "again": again})
      }
      o => panic!("unknown op {}", o),
    });
    ev.push(outcome(op, r));
  }
  json!({"ev": ev})
}

// -------------------------------------------------------------- CollectMap

fn rel(m: &CollectMap<i64, i64>) -> Value {
  let mut out = Vec::new();
  for (k, vs) in m.iter() {
    for v in vs {
      out.push(json!([k, v]));
    }
  }
  json!(out)
}

/// {"m":"collect","ops":[...]}
pub fn run_collect(scn: &Value) -> Value {
  let mut ms: Vec<CollectMap<i64, i64>> = Vec::new();
  let mut ev = Vec::new();
  for op in arr(&scn["ops"]) {
    let r = guard(|| {
      let at = |k: &str| uint(&op[k]) - 1;
      match op["op"].as_str().unwrap() {
        "new" => {
          ms.push(if ms.len() % 2 == 0 { CollectMap::new() } else { CollectMap::default() });
          json!({"ch": false})
        }
        "seed" => {
          let mut seed: BTreeMap<i64, BTreeSet<i64>> = BTreeMap::new();
          for kv in arr(&op["kvs"]) {
            seed.entry(int(&kv[0])).or_default().insert(int(&kv[1]));
          }
          ms.push(CollectMap::from_seed(seed));
          json!({"ch": false})
        }
        "insert" => json!({"ch": ch(ms[at("m")].insert(int(&op["k"]), int(&op["v"])))}),
        "iter" => {
          let vs: Vec<i64> = arr(&op["vs"]).iter().map(int).collect();
          json!({"ch": ch(ms[at("m")].insert_iter(int(&op["k"]), shaped(vs, ev.len())))})
        }
        "copy" => json!({"ch": ch(ms[at("m")].insert_from_key_set(int(&op["k"]), int(&op["src"])))}),
        "into" => {
          let m = std::mem::take(&mut ms[at("m")]);
          let inner = m.into_inner();
          let r = rel(&CollectMap::from_seed(inner.clone()));
          ms[at("m")] = CollectMap::from_seed(inner);
          json!({"ch": false, "got": r})
        }
        "pairs" => {
          let ps: Vec<(i64, i64)> =
            arr(&op["kvs"]).iter().map(|kv| (int(&kv[0]), int(&kv[1]))).collect();
          let m = merge_value_pairs(shaped(ps, ev.len()));
          json!({"ch": false, "got": rel(&CollectMap::from_seed(m))})
        }
        // The change reports of the helpers.
        "changes" => {
          let bs: Vec<bool> = arr(&op["bs"]).iter().map(|b| b.as_bool().unwrap()).collect();
          let mut calls = 0;
          let it = ch(change_iter(bs.iter(), |b| {
            calls += 1;
            WasChanged::from_changed(*b)
          }));
          let mut j = WasChanged::Unchanged;
          let mut m = WasChanged::Unchanged;
          for b in &bs {
            j = j.join(WasChanged::from_changed(*b));
            m.merge(WasChanged::from_changed(*b));
          }
          let mut jr = WasChanged::Unchanged;
          for b in &bs {
            jr = WasChanged::from_changed(*b).join(jr);
          }
          json!({"ch": it, "calls": calls, "join": [ch(j), ch(m), ch(jr)],
                 "only": take_only(bs.iter()).is_some()})
        }
        o => panic!("unknown op {}", o),
      }
    });
    let bad = r.is_err();
    let mut e = outcome(op, r);
    if hidden(scn, op) && !bad {
      ev.push(e);
      continue;
    }
    e["st"] = json!(ms.iter().map(rel).collect::<Vec<_>>());
    let probe = scn["probe"].as_i64().unwrap_or(6);
    e["get"] = json!(ms.iter().map(|m| (0..=probe).map(|k|
      m.get(&k).map_or(vec![], |s| s.iter().copied().collect::<Vec<_>>())).collect::<Vec<_>>()).collect::<Vec<_>>());
    ev.push(e);
    if bad {
      break;
    }
  }
  json!({"ev": ev})
}

// ------------------------------------------------------- iteration helpers

const CALLS: usize = 400_000;

struct Calls(RefCell<Vec<i64>>);

impl Calls {
  fn add(&self, x: i64) {
    let mut c = self.0.borrow_mut();
    c.push(x);
    if c.len() > CALLS {
      drop(c);
      panic!("does not terminate");
    }
  }
}

/// Values are sets of numbers; an edge (from, to, mask, extra) passes on the
/// intersection with the mask, plus the extra elements.
struct SetProp<'a> {
  edges: &'a Vec<Value>,
  calls: &'a Calls,
}

fn ints(v: &Value) -> BTreeSet<i64> {
  arr(v).iter().map(int).collect()
}

impl FixedPointProcessor<i64, BTreeSet<i64>> for SetProp<'_> {
  fn next(&self, key: &i64, value: &BTreeSet<i64>) -> Vec<(i64, BTreeSet<i64>)> {
    self.calls.add(*key);
    self
      .edges
      .iter()
      .filter(|e| int(&e["f"]) == *key)
      .map(|e| {
        let mask = ints(&e["mask"]);
        let mut v: BTreeSet<i64> = value.intersection(&mask).copied().collect();
        v.extend(ints(&e["add"]));
        (int(&e["t"]), v)
      })
      .collect()
  }
  fn merge(&self, target: &mut BTreeSet<i64>, other: BTreeSet<i64>) -> WasChanged {
    change_iter(other, |x| WasChanged::from_changed(target.insert(x)))
  }
}

/// Values are distances; an edge (from, to, weight) adds its weight.
struct DistProp<'a> {
  edges: &'a Vec<Value>,
  calls: &'a Calls,
}

impl FixedPointProcessor<i64, i64> for DistProp<'_> {
  fn next(&self, key: &i64, value: &i64) -> Vec<(i64, i64)> {
    self.calls.add(*key);
    self
      .edges
      .iter()
      .filter(|e| int(&e["f"]) == *key)
      .map(|e| (int(&e["t"]), value + int(&e["w"])))
      .collect()
  }
  fn merge(&self, target: &mut i64, other: i64) -> WasChanged {
    let smaller = other < *target;
    if smaller {
      *target = other;
    }
    WasChanged::from_changed(smaller)
  }
}

/// {"m":"work","ops":[{"op":"bfs","init":[..],"g":[[succ..]..]} | ...]}
pub fn run_work(scn: &Value) -> Value {
  let mut ev = Vec::new();
  for op in arr(&scn["ops"]) {
    let calls = Calls(RefCell::new(vec![]));
    let r = guard(|| match op["op"].as_str().unwrap() {
      "bfs" => {
        let g = arr(&op["g"]);
        let init: Vec<i64> = arr(&op["init"]).iter().map(int).collect();
        let shape = init.len();
        let res = breadth_first_search(shaped(init, shape), |x| {
          calls.add(*x);
          shaped(arr(&g[*x as usize - 1]).iter().map(int).collect(), *x as usize)
        });
        json!({"res": res.into_iter().collect::<Vec<_>>()})
      }
      "sets" => {
        let mut m: BTreeMap<i64, BTreeSet<i64>> = BTreeMap::new();
        for kv in arr(&op["init"]) {
          m.insert(int(&kv["k"]), ints(&kv["v"]));
        }
        apply_fixed_point(&SetProp { edges: arr(&op["edges"]), calls: &calls }, &mut m);
        json!({"res": m.iter().map(|(k, v)| json!({"k": k, "v": v.iter().collect::<Vec<_>>()})).collect::<Vec<_>>()})
      }
      "dist" => {
        let mut m: BTreeMap<i64, i64> = BTreeMap::new();
        for kv in arr(&op["init"]) {
          m.insert(int(&kv["k"]), int(&kv["v"]));
        }
        apply_fixed_point(&DistProp { edges: arr(&op["edges"]), calls: &calls }, &mut m);
        json!({"res": m.iter().map(|(k, v)| json!({"k": k, "v": v})).collect::<Vec<_>>()})
      }
      "point" => {
        let f = arr(&op["f"]);
        let res = fixed_point(int(&op["start"]), |x| {
          calls.add(*x);
          int(&f[*x as usize - 1])
        });
        json!({"res": res})
      }
      "loop" => {
        let bs = arr(&op["bs"]);
        let mut i = 0;
        change_loop(|| {
          calls.add(i as i64 + 1);
          i += 1;
          WasChanged::from_changed(bs.get(i - 1).map_or(false, |b| b.as_bool().unwrap()))
        });
        json!({"res": i})
      }
      o => panic!("unknown op {}", o),
    });
    let mut e = outcome(op, r);
    let mut c = calls.0.borrow().clone();
    c.truncate(600);
    e["calls"] = json!(c);
    ev.push(e);
  }
  json!({"ev": ev})
}

// ----------------------------------------------------------------- TypeMap

#[derive(PartialEq, Eq, PartialOrd, Ord)]
struct K1(i64);
#[derive(PartialEq, Eq, PartialOrd, Ord)]
struct K2(i64);
#[derive(PartialEq, Eq, PartialOrd, Ord)]
struct K3(String);
#[derive(PartialEq, Eq, PartialOrd, Ord)]
struct K4;
/// Equal when equal modulo 3.
struct K5(i64);
impl PartialEq for K5 {
  fn eq(&self, o: &Self) -> bool {
    self.0 % 3 == o.0 % 3
  }
}
impl Eq for K5 {}
impl PartialOrd for K5 {
  fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
    Some(self.cmp(o))
  }
}
impl Ord for K5 {
  fn cmp(&self, o: &Self) -> std::cmp::Ordering {
    (o.0 % 3).cmp(&(self.0 % 3))
  }
}
impl TypeKey for K1 {
  type ValueType = i64;
}
impl TypeKey for K2 {
  type ValueType = i64;
}
impl TypeKey for K3 {
  type ValueType = Vec<i64>;
}
impl TypeKey for K4 {
  type ValueType = String;
}
impl TypeKey for K5 {
  type ValueType = i64;
}
// Keys with the same representation, but different types.
#[derive(PartialEq, Eq, PartialOrd, Ord)]
struct K6<T>(T);
impl TypeKey for K6<i64> {
  type ValueType = i64;
}
impl TypeKey for K6<u64> {
  type ValueType = i64;
}

/// Two key types with one name and one shape, declared in blocks of their own.
/// `v` = None reads, `v` = Some((x, false)) sets, `v` = Some((x, true)) updates.
fn tm_twin(m: Result<&TypeMap, &mut TypeMap>, t: i64, k: i64, v: Option<(i64, bool)>) -> Option<i64> {
  macro_rules! one {
    () => {{
      #[derive(PartialEq, Eq, PartialOrd, Ord)]
      struct Twin(i64);
      impl TypeKey for Twin {
        type ValueType = i64;
      }
      match (m, v) {
        (Ok(m), _) => m.get(&Twin(k)).copied(),
        (Err(m), Some((v, false))) => {
          m.insert(Twin(k), v);
          None
        }
        (Err(m), Some((v, true))) => m.get_mut(&Twin(k)).map(|x| std::mem::replace(x, v)),
        (Err(_), None) => None,
      }
    }};
  }
  if t == 8 {
    one!()
  } else {
    one!()
  }
}

fn tm_get(m: &TypeMap, t: i64, k: i64) -> i64 {
  let v = match t {
    1 => m.get(&K1(k)).copied(),
    2 => m.get(&K2(k)).copied(),
    3 => m.get(&K3(format!("s{}", k))).map(|v| v[0]),
    4 => m.get(&K4).map(|s| s.parse().unwrap()),
    5 => m.get(&K5(k)).copied(),
    6 => m.get(&K6(k)).copied(),
    8 | 9 => tm_twin(Ok(m), t, k, None),
    _ => m.get(&K6(k as u64)).copied(),
  };
  v.unwrap_or(0)
}

fn tm_set(m: &mut TypeMap, t: i64, k: i64, v: i64) {
  match t {
    1 => m.insert(K1(k), v),
    2 => m.insert(K2(k), v),
    3 => m.insert(K3(format!("s{}", k)), vec![v]),
    4 => m.insert(K4, v.to_string()),
    5 => m.insert(K5(k), v),
    6 => m.insert(K6(k), v),
    8 | 9 => {
      tm_twin(Err(m), t, k, Some((v, false)));
    }
    _ => m.insert(K6(k as u64), v),
  }
}

fn tm_upd(m: &mut TypeMap, t: i64, k: i64, v: i64) -> bool {
  match t {
    1 => m.get_mut(&K1(k)).map(|x| *x = v),
    2 => m.get_mut(&K2(k)).map(|x| *x = v),
    3 => m.get_mut(&K3(format!("s{}", k))).map(|x| x[0] = v),
    4 => m.get_mut(&K4).map(|x| *x = v.to_string()),
    5 => m.get_mut(&K5(k)).map(|x| *x = v),
    6 => m.get_mut(&K6(k)).map(|x| *x = v),
    8 | 9 => tm_twin(Err(m), t, k, Some((v, true))).map(|_| ()),
    _ => m.get_mut(&K6(k as u64)).map(|x| *x = v),
  }
  .is_some()
}

/// {"m":"typemap","maps":n,"keys":n,"ops":[...]}
pub fn run_typemap(scn: &Value) -> Value {
  let mut ms: Vec<TypeMap> = (0..uint(&scn["maps"])).map(|_| TypeMap::new()).collect();
  let keys = int(&scn["keys"]);
  let mut ev = Vec::new();
  for op in arr(&scn["ops"]) {
    let r = guard(|| {
      let m = uint(&op["m"]) - 1;
      match op["op"].as_str().unwrap() {
        "set" => {
          tm_set(&mut ms[m], int(&op["t"]), int(&op["k"]), int(&op["v"]));
          json!({"res": 0})
        }
        "upd" => json!({"res": tm_upd(&mut ms[m], int(&op["t"]), int(&op["k"]), int(&op["v"])) as i64}),
        "merge" => {
          let from = uint(&op["from"]) - 1;
          let mut other = std::mem::replace(&mut ms[from], TypeMap::new());
          ms[m].merge(&mut other);
          ms[from] = other;
          json!({"res": 0})
        }
        o => panic!("unknown op {}", o),
      }
    });
    let mut e = outcome(op, r);
    if hidden(scn, op) && e["out"] == "ok" {
      ev.push(e);
      continue;
    }
    match guard(|| {
      json!(ms.iter().map(|m| (1..=9).map(|t| (1..=keys).map(|k|
        tm_get(m, t, k)).collect::<Vec<_>>()).collect::<Vec<_>>()).collect::<Vec<_>>())
    }) {
      Ok(v) => e["st"] = v,
      Err(m) => {
        e["out"] = json!("panic");
        e["msg"] = json!(m);
        e["st"] = json!([]);
      }
    }
    let bad = e["out"] != "ok";
    ev.push(e);
    if bad {
      break;
    }
  }
  json!({"ev": ev})
}

// ------------------------------------------------------------------- names

fn hash(n: &Name) -> u64 {
  use std::hash::{Hash, Hasher};
  let mut h = std::collections::hash_map::DefaultHasher::new();
  n.hash(&mut h);
  h.finish()
}

fn text(v: &Value) -> String {
  arr(v).iter().map(|c| char::from_u32(int(c) as u32).unwrap()).collect()
}

fn cps(s: &str) -> Vec<u32> {
  s.chars().map(|c| c as u32).collect()
}

/// {"m":"names","ops":[...]}
pub fn run_names(scn: &Value) -> Value {
  let mut ns: Vec<Option<Name>> = Vec::new();
  let mut ev = Vec::new();
  for (i, op) in arr(&scn["ops"]).iter().enumerate() {
    let r = guard(|| {
      let at = |k: &str| uint(&op[k]) - 1;
      match op["op"].as_str().unwrap() {
        "new" => {
          let t = text(&op["text"]);
          ns.push(Some(match i % 3 {
            0 => Name::new(&t),
            1 => Name::new(t.as_str()),
            _ => Name::new(&Name::new(&t)),
          }));
        }
        "clone" => {
          let c = ns[at("i")].clone();
          ns.push(c);
        }
        "drop" => ns[at("i")] = None,
        "push" => ns[at("i")].as_mut().unwrap().make_mut().push_str(&text(&op["text"])),
        "set" => *ns[at("i")].as_mut().unwrap().make_mut() = text(&op["text"]),
        "clear" => ns[at("i")].as_mut().unwrap().make_mut().clear(),
        // Asking for a mutable reference alone changes nothing.
        "touch" => {
          let _ = ns[at("i")].as_mut().unwrap().make_mut();
        }
        o => panic!("unknown op {}", o),
      }
      json!({})
    });
    let mut e = outcome(op, r);
    if hidden(scn, op) && e["out"] == "ok" {
      ev.push(e);
      continue;
    }
    let live: Vec<&Option<Name>> = ns.iter().collect();
    let m = |f: &dyn Fn(&Name, &Name) -> i64| -> Value {
      json!(live.iter().map(|a| live.iter().map(|b| match (a, b) {
        (Some(a), Some(b)) => f(a, b),
        _ => 9,
      }).collect::<Vec<_>>()).collect::<Vec<_>>())
    };
    e["st"] = json!(ns.iter().map(|n| match n {
      None => json!({"live": false, "s": [], "d": [], "g": [], "r": []}),
      Some(n) => json!({"live": true, "s": cps(n.str()), "d": cps(&n.to_string()),
        "g": cps(&format!("{:?}", n)), "r": cps(n.as_ref())}),
    }).collect::<Vec<_>>());
    e["eq"] = m(&|a, b| (a == b) as i64);
    e["cmp"] = m(&|a, b| a.cmp(b) as i64);
    e["pcmp"] = m(&|a, b| a.partial_cmp(b).map_or(5, |o| o as i64));
    e["hash"] = m(&|a, b| (hash(a) == hash(b)) as i64);
    ev.push(e);
  }
  json!({"ev": ev})
}

// ------------------------------------------------------------- MergableMap

#[cfg(bongo_verif = "merge")]
mod merge {
  use super::*;
  use bongo::utils::mergeables::{Mergable, MergableMap, Value as MV, ValueCow, ValueRef};

  /// Appends what is not there yet; reports a change if it appended anything.
  #[derive(Clone, Debug, PartialEq)]
  pub struct L(Vec<i64>);
  impl Mergable for L {
    fn merge(&mut self, other: &Self) -> WasChanged {
      let mut c = WasChanged::Unchanged;
      for x in &other.0 {
        if !self.0.contains(x) {
          self.0.push(*x);
          c = WasChanged::Changed;
        }
      }
      c
    }
  }

  pub fn run(scn: &Value) -> Value {
    let keys = scn["keys"].as_i64().unwrap_or(4);
    let mut ms: Vec<MergableMap<i64, L>> = vec![MergableMap::new(), MergableMap::default()];
    let mut ev = Vec::new();
    for op in arr(&scn["ops"]) {
      let r = guard(|| {
        let at = |k: &str| uint(&op[k]) - 1;
        let m = at("m");
        let mk = || MV::verif_new(int(&op["k"]), L(arr(&op["v"]).iter().map(int).collect()));
        let arg = |k: i64, v: &L| json!({"k": k, "v": v.0});
        match op["op"].as_str().unwrap() {
          "insert" => json!({"ch": ch(ms[m].insert(mk())), "arg": {"k": op["k"], "v": op["v"]}}),
          "owned" => json!({"ch": ch(ms[m].insert_cow(mk())), "arg": {"k": op["k"], "v": op["v"]}}),
          "cowowned" => json!({"ch": ch(ms[m].insert_cow(ValueCow::Owned(mk()))), "arg": {"k": op["k"], "v": op["v"]}}),
          "borrowed" => {
            let v = mk();
            let c = ch(ms[m].insert_cow(&v));
            json!({"ch": c, "arg": arg(*v.key(), v.value())})
          }
          "ref" => {
            let v = mk();
            let c = ch(ms[m].insert_cow(ValueRef::from(&v)));
            json!({"ch": c, "arg": arg(*v.key(), v.value())})
          }
          // Through all conversions.
          "conv" => {
            let v = mk();
            let r = ValueRef::from(&v);
            let cow: ValueCow<i64, L> = ValueCow::from(r);
            let o = cow.to_owned();
            let o2 = MV::from_cow(cow.into_owned());
            let same = o.key() == o2.key() && o.value() == o2.value();
            let c = ch(ms[m].insert(o));
            json!({"ch": c, "arg": if same { arg(*v.key(), v.value()) } else { json!({"k": 0, "v": []}) }})
          }
          // The entry of another map.
          "entry" => {
            let (a, b) = ms.split_at_mut(1);
            let (dst, src) = if m == 0 { (&mut a[0], &b[0]) } else { (&mut b[0], &a[0]) };
            match src.get_entry(&int(&op["k"])) {
              None => json!({"ch": false, "arg": {"k": 0, "v": []}}),
              Some(e) => {
                let shown = arg(*e.key(), e.value());
                let c = ch(dst.insert_cow(e));
                json!({"ch": c, "arg": shown})
              }
            }
          }
          o => panic!("unknown op {}", o),
        }
      });
      let bad = r.is_err();
      let mut e = outcome(op, r);
      if hidden(scn, op) && !bad {
        ev.push(e);
        continue;
      }
      e["st"] = json!(ms.iter().map(|m| (1..=keys).map(|k| match m.get_entry(&k) {
        None => json!({"has": false, "k": 0, "v": []}),
        Some(e) => json!({"has": true, "k": e.key(), "v": e.value().0}),
      }).collect::<Vec<_>>()).collect::<Vec<_>>());
      ev.push(e);
      if bad {
        break;
      }
    }
    json!({"ev": ev})
  }

  trait FromCow {
    fn from_cow(v: Self) -> Self;
  }
  impl FromCow for MV<i64, L> {
    fn from_cow(v: Self) -> Self {
      let mut v = v;
      let copy = v.value().clone();
      *v.value_mut() = copy;
      v
    }
  }
}

#[cfg(bongo_verif = "merge")]
pub fn run_merge(scn: &Value) -> Value {
  merge::run(scn)
}

#[cfg(not(bongo_verif = "merge"))]
pub fn run_merge(_scn: &Value) -> Value {
  json!({"ev": [{"op": "nohook"}]})
}

