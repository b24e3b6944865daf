use serde_json::Value;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
  catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
    if let Some(s) = e.downcast_ref::<&str>() {
      s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
      s.clone()
    } else {
      "panic".to_string()
    }
  })
}

pub fn arr(v: &Value) -> &Vec<Value> {
  static EMPTY: Vec<Value> = Vec::new();
  v.as_array().unwrap_or(&EMPTY)
}

pub fn int(v: &Value) -> i64 {
  v.as_i64().unwrap_or_else(|| panic!("int expected, got {}", v))
}

pub fn uint(v: &Value) -> usize {
  int(v) as usize
}

/// The items as an iterator that knows more or less about how many there are.
pub struct Shaped<T> {
  items: std::vec::IntoIter<T>,
  shape: usize,
}

pub fn shaped<T>(items: Vec<T>, shape: usize) -> Shaped<T> {
  Shaped { items: items.into_iter(), shape }
}

impl<T> Iterator for Shaped<T> {
  type Item = T;
  fn next(&mut self) -> Option<T> {
    self.items.next()
  }
  fn size_hint(&self) -> (usize, Option<usize>) {
    let n = self.items.len();
    match self.shape % 7 {
      0 => (n, Some(n)),
      1 => (0, None),
      2 => (0, Some(n)),
      3 => (n / 2, Some(2 * n + 1)),
      4 => (n.min(1), Some(n + 1)),
      5 => (n, None),
      _ => (n.saturating_sub(1), Some(n)),
    }
  }
}
