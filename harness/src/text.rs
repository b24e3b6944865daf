//! Text ranges and positions.

use crate::util::*;
use bongo::utils::buffer::{BufferRange, TextPos};
use serde_json::{json, Value};

fn text(v: &Value) -> String {
  arr(v).iter().map(|c| char::from_u32(int(c) as u32).unwrap()).collect()
}

fn cps(s: &str) -> Vec<u32> {
  s.chars().map(|c| c as u32).collect()
}

#[cfg(bongo_verif = "textpos")]
fn pos(p: TextPos) -> Value {
  let (l, c, b) = p.verif_parts();
  json!([l, c, b])
}
#[cfg(not(bongo_verif = "textpos"))]
fn pos(_p: TextPos) -> Value {
  json!([])
}

fn show(r: &BufferRange) -> Value {
  json!({
    "s": cps(r.as_str()),
    "len": r.byte_len(),
    "empty": r.empty(),
  })
}

/// {"m":"buffer","ops":[{"op":"new","text":[..]} | {"op":"read","r":i} | ...]}
pub fn run(scn: &Value) -> Value {
  let mut rs: Vec<BufferRange> = Vec::new();
  let mut ev = Vec::new();
  for (i, op) in arr(&scn["ops"]).iter().enumerate() {
    let mut e = op.clone();
    let at = |k: &str| uint(&op[k]) - 1;
    let r = guard(|| match op["op"].as_str().unwrap() {
      "new" => {
        let t = text(&op["text"]);
        rs.push(if i % 2 == 0 {
          BufferRange::new("source", &t)
        } else {
          BufferRange::new(String::from("source"), t)
        });
        json!({"ok": true, "got": []})
      }
      "clone" => {
        let c = rs[at("r")].clone();
        rs.push(c);
        json!({"ok": true, "got": []})
      }
      "read" => match rs[at("r")].read_char() {
        None => json!({"ok": false, "got": []}),
        Some((c, rest)) => {
          rs.push(rest);
          json!({"ok": true, "got": [c as u32]})
        }
      },
      "readm" => match rs[at("r")].read_char_mut() {
        None => json!({"ok": false, "got": []}),
        Some(c) => json!({"ok": true, "got": [c as u32]}),
      },
      "adv" => {
        let res = rs[at("r")].advance_n(uint(&op["n"])).map(|(s, rest)| (cps(s), rest));
        match res {
          None => json!({"ok": false, "got": []}),
          Some((s, rest)) => {
            rs.push(rest);
            json!({"ok": true, "got": s})
          }
        }
      }
      "advm" => match rs[at("r")].advance_n_mut(uint(&op["n"])) {
        None => json!({"ok": false, "got": []}),
        Some(s) => json!({"ok": true, "got": cps(s)}),
      },
      "cut" => {
        let c = rs[at("r")].remove_suffix(&rs[at("q")]);
        rs.push(c);
        json!({"ok": true, "got": []})
      }
      // All positions of a text.
      "pos" => {
        let whole = BufferRange::new("source", text(&op["text"]));
        let n = arr(&op["text"]).len();
        let mut starts = Vec::new();
        let mut ends = Vec::new();
        for i in 0..=n {
          let (_, rest) = whole.advance_n(i).unwrap();
          starts.push(pos(rest.start_pos()));
          ends.push(pos(whole.remove_suffix(&rest).end_pos()));
        }
        json!({"ok": true, "got": [], "starts": starts, "ends": ends,
               "last": pos(whole.end_pos())})
      }
      // A few places in a long, repetitive text.
      "far" | "farpos" => {
        let whole = BufferRange::new("source", text(&op["unit"]).repeat(uint(&op["times"])));
        let mut seen = Vec::new();
        for k in arr(&op["at"]) {
          let (passed, rest) = whole.advance_n(uint(k)).unwrap();
          let before = whole.remove_suffix(&rest);
          let mut o = json!({
            "left": rest.as_str().chars().count(),
            "leftb": rest.byte_len(),
            "next": rest.read_char().map_or(vec![], |(c, _)| vec![c as u32]),
            "passed": passed.chars().count(),
            "before": before.as_str().chars().count(),
            "beforeb": before.byte_len(),
            "last": before.as_str().chars().last().map_or(vec![], |c| vec![c as u32]),
          });
          if op["op"] == "farpos" {
            o["a"] = pos(rest.start_pos());
            o["b"] = pos(before.end_pos());
          }
          seen.push(o);
        }
        json!({"ok": whole.advance_n(whole.as_str().chars().count() + 1).is_none(), "got": [], "seen": seen})
      }
      // Both ends of a range.
      "ends" => {
        let r = &rs[at("r")];
        json!({"ok": true, "got": [], "a": pos(r.start_pos()), "b": pos(r.end_pos())})
      }
      o => panic!("unknown op {}", o),
    });
    match r {
      Ok(v) => {
        for (k, x) in v.as_object().unwrap() {
          e[k] = x.clone();
        }
        e["out"] = json!("ok");
      }
      Err(m) => {
        e["out"] = json!("panic");
        e["msg"] = json!(m);
      }
    }
    match guard(|| rs.iter().map(show).collect::<Vec<_>>()) {
      Ok(v) => e["st"] = json!(v),
      Err(m) => {
        e["out"] = json!("broken");
        e["msg"] = json!(m);
        e["st"] = json!([]);
        ev.push(e);
        break;
      }
    }
    ev.push(e);
  }
  json!({"ev": ev})
}
