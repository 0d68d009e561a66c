//! Type-erased access to every iterator type of the crate.
use crate::fb;
use serde_json::{Value, json};

pub trait Rec {
    fn rec(&self) -> Value;
}
impl Rec for f64 {
    fn rec(&self) -> Value {
        fb(*self)
    }
}
impl Rec for &f64 {
    fn rec(&self) -> Value {
        fb(**self)
    }
}
impl Rec for (f64, f64) {
    fn rec(&self) -> Value {
        let (a, b) = (fb(self.0), fb(self.1));
        json!([a[0], a[1], b[0], b[1]])
    }
}
impl Rec for &(f64, f64) {
    fn rec(&self) -> Value {
        (**self).rec()
    }
}
fn opt<T: Rec>(x: Option<T>) -> Value {
    x.map_or(json!([]), |v| v.rec())
}
pub fn list<T: Rec>(it: impl Iterator<Item = T>) -> Value {
    Value::Array(it.map(|x| x.rec()).collect())
}

pub trait DynIt {
    /// one operation on the iterator; `k` is the argument of the skipping operations
    fn op(&mut self, name: &str, k: usize) -> Value;
    fn dup(&self) -> Box<dyn DynIt>;
    /// `old.clone_from(self)` where `old` is an iterator of the same type, else a plain clone
    fn dup_over(&self, old: Box<dyn DynIt>) -> Box<dyn DynIt>;
    fn into_any(self: Box<Self>) -> Box<dyn std::any::Any>;
    /// operations that consume the iterator
    fn fin(self: Box<Self>, name: &str) -> Value;
}

type Sl<I> = fn(&I) -> Value;
pub struct W<I> {
    pub it: I,
    pub as_slice: Option<Sl<I>>,
    pub as_ref: Option<Sl<I>>,
}

impl<I> DynIt for W<I>
where
    I: DoubleEndedIterator + ExactSizeIterator + std::iter::FusedIterator + Clone + std::fmt::Debug + 'static,
    I::Item: Rec,
{
    fn op(&mut self, name: &str, k: usize) -> Value {
        match name {
            "next" => opt(self.it.next()),
            "next_back" => opt(self.it.next_back()),
            "nth" => opt(self.it.nth(k)),
            "nth_back" => opt(self.it.nth_back(k)),
            "len" => json!([self.it.len()]),
            "size_hint" => {
                let (lo, hi) = self.it.size_hint();
                json!([lo, hi.map_or(-1, |h| h as i64)])
            }
            "as_slice" => self.as_slice.map_or(json!({"na": 1}), |f| f(&self.it)),
            "as_ref" => self.as_ref.map_or(json!({"na": 1}), |f| f(&self.it)),
            // whole-rest views through the standard adapters, on a copy
            "rest" => list(self.it.clone()),
            "rest_rev" => list(self.it.clone().rev()),
            "rest_fold" => {
                let mut v = Vec::new();
                self.it.clone().for_each(|x| v.push(x.rec()));
                Value::Array(v)
            }
            "rest_by_ref" => {
                let mut v = Vec::new();
                let mut c = self.it.clone();
                for x in c.by_ref() {
                    v.push(x.rec());
                }
                v.push(opt(c.next()));
                v.push(opt(c.next_back()));
                Value::Array(v)
            }
            "rest_rfold" => {
                let mut v = Vec::new();
                self.it.clone().rfold((), |(), x| v.push(x.rec()));
                Value::Array(v)
            }
            // stop after the first and after the last element, then the rest
            "rest_try" => {
                let mut v = Vec::new();
                let mut c = self.it.clone();
                let _ = c.try_for_each(|x| { v.push(x.rec()); Err::<(), ()>(()) });
                let _ = c.try_rfold((), |(), x| { v.push(x.rec()); Err::<(), ()>(()) });
                v.extend(c.map(|x| x.rec()));
                Value::Array(v)
            }
            // alternately from both ends
            "rest_alt" => {
                let mut v = Vec::new();
                let mut c = self.it.clone();
                loop {
                    let Some(x) = c.next() else { break };
                    v.push(x.rec());
                    let Some(x) = c.next_back() else { break };
                    v.push(x.rec());
                }
                v.push(json!([c.len()]));
                Value::Array(v)
            }
            "rest_zip" => {
                let mut v = Vec::new();
                for (x, y) in self.it.clone().zip(self.it.clone().rev()) {
                    v.push(x.rec());
                    v.push(y.rec());
                }
                Value::Array(v)
            }
            "rest_vec" => list(self.it.clone().collect::<Vec<_>>().into_iter()),
            "rest_pos" => {
                let k = k as usize;
                let mut i = 0;
                let p = self.it.clone().position(|_| { i += 1; i > k });
                let mut i = 0;
                let q = self.it.clone().rposition(|_| { i += 1; i > k });
                json!([p.map_or(-1, |x| x as i64), q.map_or(-1, |x| x as i64)])
            }
            "rest_rev_step2" => list(self.it.clone().rev().step_by(2)),
            "rest_step2" => list(self.it.clone().step_by(2)),
            "rest_skip1_rev" => list(self.it.clone().skip(1).rev()),
            _ => panic!("unknown iterator operation {name}"),
        }
    }
    fn dup(&self) -> Box<dyn DynIt> {
        Box::new(W { it: self.it.clone(), as_slice: self.as_slice, as_ref: self.as_ref })
    }
    fn into_any(self: Box<Self>) -> Box<dyn std::any::Any> {
        self
    }
    fn dup_over(&self, old: Box<dyn DynIt>) -> Box<dyn DynIt> {
        match old.into_any().downcast::<W<I>>() {
            Ok(mut t) => {
                t.it.clone_from(&self.it);
                t
            }
            Err(_) => self.dup(),
        }
    }
    fn fin(self: Box<Self>, name: &str) -> Value {
        match name {
            "count" => json!([self.it.count()]),
            "rcount" => json!([self.it.rev().count()]),
            "first" => opt(self.it.rev().last()),
            "last" => opt(self.it.last()),
            _ => panic!("unknown consuming operation {name}"),
        }
    }
}
