//! Executes scenarios against the bongo crate and records what happened.
//!
//! usage: bh SCENARIOS.ndjson OUT.ndjson START
//!
//! One scenario per input line ({"m": module, ...}), one record per output
//! line ({"id": n, "ev": [...], ...}), flushed line by line, so that the driver
//! can tell which scenario hung or aborted.  The harness decides nothing: the
//! records are judged by the TLA+ specification.

mod forest;
mod gram;
mod misc;
mod parse;
mod text;
mod util;
mod values;

use serde_json::{json, Value};
use std::io::{BufRead, Write};

fn run(scn: &Value) -> Value {
  match scn["m"].as_str().unwrap_or("") {
    "parse" => parse::run(scn),
    "share" => parse::run_share(scn),
    "gram" => gram::run(scn),
    "forest" => forest::run(scn),
    "conc" => forest::run_conc(scn),
    "pass" => misc::run_pass(scn),
    "stream" => misc::run_stream(scn),
    "collect" => misc::run_collect(scn),
    "work" => misc::run_work(scn),
    "typemap" => misc::run_typemap(scn),
    "names" => misc::run_names(scn),
    "merge" => misc::run_merge(scn),
    "buffer" => text::run(scn),
    "values" => values::run(scn),
    "show" => values::run_show(scn),
    other => panic!("unknown module {:?}", other),
  }
}

fn main() {
  let args: Vec<String> = std::env::args().collect();
  let input = std::io::BufReader::new(std::fs::File::open(&args[1]).unwrap());
  let mut out = std::fs::OpenOptions::new()
    .append(true)
    .create(true)
    .open(&args[2])
    .unwrap();
  let start: usize = args[3].parse().unwrap();
  std::panic::set_hook(Box::new(|info| {
    if std::env::var_os("BH_VERBOSE").is_some() {
      eprintln!("{}", info);
    }
  }));
  for (i, line) in input.lines().enumerate() {
    if i < start {
      continue;
    }
    let line = line.unwrap();
    let scn: Value = serde_json::from_str(&line).unwrap();
    // Big stack: recursion in the code under test or in Drop must not be
    // limited by the harness.
    let mut rec = std::thread::Builder::new()
      .stack_size(512 << 20)
      .spawn(move || {
        // A panic that escapes the per-operation guards is recorded as well.
        match util::guard(|| run(&scn)) {
          Ok(v) => v,
          Err(msg) => json!({"ev": [{"op": "escape", "out": "panic", "msg": msg}]}),
        }
      })
      .unwrap()
      .join()
      .unwrap_or_else(|_| json!({"ev": [{"op": "escape", "out": "panic", "msg": "?"}]}));
    rec["id"] = json!(i + 1);
    let mut text = serde_json::to_string(&rec).unwrap();
    text.push('\n');
    out.write_all(text.as_bytes()).unwrap();
    out.flush().unwrap();
  }
}
