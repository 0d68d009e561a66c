//! The interpreter of job steps.
use crate::iters::DynIt;
use crate::rules::{self, R};
use crate::{bf, fb, u64b};
use gauss_quad::FiniteAboveNegOneF64;
use serde_json::{Value, json};
use std::cell::RefCell;
use std::collections::HashMap;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;
use std::sync::atomic::{AtomicU64, Ordering};

#[derive(Default)]
pub struct St {
    rules: HashMap<i64, R>,
    iters: HashMap<i64, Option<Box<dyn DynIt>>>,
    params: HashMap<i64, FiniteAboveNegOneF64>,
}

/// integers in the log must fit the model checker's 32-bit integers
fn wrap_ints(v: &mut Value) {
    match v {
        Value::Number(n) => {
            if let Some(i) = n.as_i64() {
                *v = json!(i as i32);
            } else if let Some(u) = n.as_u64() {
                *v = json!(u as i32);
            }
        }
        Value::Array(a) => a.iter_mut().for_each(wrap_ints),
        Value::Object(o) => o.values_mut().for_each(wrap_ints),
        _ => {}
    }
}

pub fn run_job(job: &Value) -> Value {
    let mut st = St::default();
    let mut steps = Vec::new();
    for s in job["steps"].as_array().expect("steps") {
        let mut inner = Vec::new();
        let r = match catch_unwind(AssertUnwindSafe(|| step(&mut st, s, &mut inner))) {
            Ok(v) => v,
            Err(e) => {
                let m = e.downcast_ref::<String>().cloned()
                    .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                json!({"panic": 1, "msg": m.chars().filter(|c| c.is_ascii() && *c != '"').take(80).collect::<String>()})
            }
        };
        steps.append(&mut inner);
        let mut rec = s.clone();
        rec["r"] = r;
        let fine = rec["fine"].as_i64() == Some(1) && rec["r"].get("na").is_none();
        if rec.get("quiet").is_none() && !fine {
            wrap_ints(&mut rec);
            steps.push(rec);
        }
    }
    json!({"id": job["id"], "cfg": cfg_name(), "steps": steps})
}

pub fn cfg_name() -> &'static str {
    if cfg!(feature = "cfg-full") { "full" }
    else if cfg!(feature = "cfg-serde") { "serde" }
    else if cfg!(feature = "cfg-rayon") { "rayon" }
    else if cfg!(feature = "cfg-std") { "std" }
    else if cfg!(feature = "cfg-stdlibm") { "stdlibm" }
    else if cfg!(feature = "cfg-stdserde") { "stdserde" }
    else if cfg!(feature = "cfg-rkyv") { "rkyv" }
    else if cfg!(feature = "cfg-zero") { "zero" }
    else if cfg!(feature = "cfg-raylibm") { "raylibm" }
    else { "default" }
}

fn key(s: &Value, k: &str) -> i64 {
    s[k].as_i64().unwrap_or_else(|| panic!("missing {k} in {s}"))
}

fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}
/// a pseudo-random double in (-1, 1) determined by `k`
fn hash01(k: u64) -> f64 {
    let h = mix(k.wrapping_add(0x9e3779b97f4a7c15));
    ((h >> 11) as f64) * (2.0 / 9007199254740992.0) - 1.0
}

/// A pure integrand described by `f`.
fn pure(f: &Value, x: f64) -> f64 {
    let x = x + 0.0; // the two zeros are one abscissa
    match f["kind"].as_str().unwrap() {
        "hash" => hash01(x.to_bits() ^ mix(f["seed"].as_u64().unwrap_or(0))),
        // positive values
        "hashpos" => 0.5 + 0.25 * hash01(x.to_bits() ^ mix(f["seed"].as_u64().unwrap_or(0))),
        // values of very different magnitudes
        "hashmag" => {
            let h = mix(x.to_bits() ^ mix(f["seed"].as_u64().unwrap_or(0)) ^ 0x5bd1e995);
            let (lo, hi) = (f["lo"].as_i64().unwrap(), f["hi"].as_i64().unwrap());
            hash01(h) * 2f64.powi((lo + (h % (hi - lo + 1) as u64) as i64) as i32)
        }
        "const" => bf(&f["c"]),
        "mono" => x.powi(f["k"].as_i64().unwrap() as i32),
        "id" => x,
        // 1 (or the given value) at one abscissa, 0 elsewhere
        "onehot" => if x == bf(&f["x"]) { f.get("v").map_or(1.0, bf) } else { 0.0 },
        // the given value at one abscissa, hash elsewhere
        "spike" => if x == bf(&f["x"]) { bf(&f["v"]) } else { hash01(x.to_bits()) },
        k => panic!("unknown integrand {k}"),
    }
}
const FAULT: &str = "injected integrand fault";

fn with_pool<T: Send>(_thr: i64, f: impl FnOnce() -> T + Send) -> T {
    #[cfg(any(feature = "cfg-rayon", feature = "cfg-raylibm", feature = "cfg-full"))]
    if _thr > 0 {
        use std::sync::OnceLock;
        static POOLS: OnceLock<Mutex<HashMap<i64, &'static rayon::ThreadPool>>> = OnceLock::new();
        let pool: &'static rayon::ThreadPool = {
            let mut m = POOLS.get_or_init(Default::default).lock().unwrap_or_else(|e| e.into_inner());
            *m.entry(_thr).or_insert_with(|| {
                Box::leak(Box::new(rayon::ThreadPoolBuilder::new().num_threads(_thr as usize).build().unwrap()))
            })
        };
        return pool.install(f);
    }
    f()
}

fn ev4(x: f64, y: f64) -> Value {
    let (a, b) = (fb(x), fb(y));
    json!([a[0], a[1], b[0], b[1]])
}

/// The events of one integration, in order, for validation evaluation by evaluation.
fn event(s: &Value, op: &str, r: Value) -> Value {
    let mut rec = json!({"op": op, "r": r});
    if op == "begin" {
        for k in ["src", "a", "b", "f", "par"] {
            if let Some(v) = s.get(k) { rec[k] = v.clone(); }
        }
    }
    wrap_ints(&mut rec);
    rec
}

thread_local! {
    static FAST: std::cell::Cell<Tally> = const { std::cell::Cell::new(Tally { calls: 0, q1: 0, q2: 0, off: 0.0 }) };
}
/// The number of evaluations; the sums modulo 2^64 of their positions in units of (b-a)/(2n) and of the
/// squares of these; the largest distance from an integral position.
#[derive(Clone, Copy, Default)]
struct Tally { calls: u64, q1: u64, q2: u64, off: f64 }
impl Tally {
    fn add(&mut self, x: f64, a: f64, scale: f64) {
        let t = (x - a) * scale;
        let q = (t + 0.5).floor();
        let k = q as i64 as u64;
        self.calls += 1;
        self.q1 = self.q1.wrapping_add(k);
        self.q2 = self.q2.wrapping_add(k.wrapping_mul(k));
        self.off = self.off.max((t - q).abs());
    }
    fn join(self, o: Tally) -> Tally {
        Tally { calls: self.calls + o.calls, q1: self.q1.wrapping_add(o.q1), q2: self.q2.wrapping_add(o.q2), off: self.off.max(o.off) }
    }
}
/// The integrand c + s x, whose calls are counted as cheaply as possible, for maximal degrees.
/// Abscissae in one of the windows are recorded.
fn integ_fast(r: &R, a: f64, b: f64, par: bool, thr: i64, c: f64, s: f64, wins: &[(f64, f64)]) -> Value {
    let seen: Mutex<Vec<Vec<f64>>> = Mutex::new(vec![Vec::new(); wins.len()]);
    let look = |x: f64| {
        for (k, (lo, hi)) in wins.iter().enumerate() {
            if *lo <= x && x <= *hi {
                let mut w = seen.lock().unwrap_or_else(|e| e.into_inner());
                if w[k].len() < 200 { w[k].push(x); }
            }
        }
    };
    // steps of (b-a)/(2n); nothing to count in rules that are not of fixed steps
    let scale = 2.0 * rules::steps(r) / (b - a);
    let scale = if scale.is_finite() { scale } else { 0.0 };
    let run = || {
        if par {
            #[cfg(any(feature = "cfg-rayon", feature = "cfg-raylibm", feature = "cfg-full"))]
            {
                FAST.take();
                rayon::broadcast(|_| FAST.take());
                let v = rules::par_integrate(r, a, b, &|x| {
                    let mut t = FAST.get();
                    t.add(x, a, scale);
                    FAST.set(t);
                    look(x);
                    s * x + c
                });
                // a caller outside of the pool makes some of the evaluations itself
                let own = if rayon::current_thread_index().is_none() { FAST.get() } else { Tally::default() };
                return v.map(|v| (v, rayon::broadcast(|_| FAST.get()).into_iter().fold(own, Tally::join)));
            }
            #[allow(unreachable_code)]
            None
        } else {
            let mut t = Tally::default();
            let v = rules::integrate(r, a, b, &mut |x| { t.add(x, a, scale); look(x); s * x + c });
            Some((v, t))
        }
    };
    match catch_unwind(AssertUnwindSafe(|| with_pool(thr, run))) {
        Ok(Some((v, k))) => {
            let mut w = seen.into_inner().unwrap_or_else(|e| e.into_inner());
            for l in &mut w { l.sort_by(f64::total_cmp); }
            let w: Vec<Value> = w.iter().map(|l| Value::Array(l.iter().map(|x| fb(*x)).collect())).collect();
            json!({"val": fb(v), "callsb": u64b(k.calls), "calls": k.calls as i32, "win": w,
                   "q1": u64b(k.q1), "q2": u64b(k.q2), "off": (k.off * 1e6) as i32})
        }
        Ok(None) => json!({"na": 1}),
        Err(_) => json!({"panic": 1, "ours": 0, "calls": 0}),
    }
}

fn integ(st: &St, s: &Value, inner: &mut Vec<Value>) -> Value {
    let r = &st.rules[&key(s, "src")];
    let (a, b) = (s.get("a").map_or(0.0, bf), s.get("b").map_or(0.0, bf));
    let par = s["par"].as_i64() == Some(1);
    let thr = s["thr"].as_i64().unwrap_or(0);
    let f = &s["f"];
    let kind = f["kind"].as_str().unwrap();
    let log_ev = s["ev"].as_i64() != Some(0);
    let fine = s["fine"].as_i64() == Some(1);
    let fault_at = f["panic_at"].as_u64(); // 1-based call number
    let sticky = f["sticky"].as_i64() == Some(1); // every later call panics, too
    let faulty = |c: u64| fault_at.is_some_and(|k| if sticky { c >= k } else { c == k });
    if kind == "fast" {
        let wins: Vec<(f64, f64)> = f["win"].as_array().map_or(vec![], |w| w.iter().map(|w| (bf(&w["lo"]), bf(&w["hi"]))).collect());
        return integ_fast(r, a, b, par, thr, bf(&f["c"]), bf(&f["s"]), &wins);
    }
    let stall = f["stall"].as_u64().unwrap_or(0);
    let steer = f["steer"].as_u64().unwrap_or(0);
    let res;
    let mut evs: Vec<(f64, f64)>;
    let made;
    let mut follows = -1; // did the execution follow the order it was steered towards?
    if fine { inner.push(event(s, "begin", json!({}))); }
    if par {
        let calls = AtomicU64::new(0);
        let done = AtomicU64::new(0);
        let log = Mutex::new(Vec::new());
        // an execution order to steer towards: the turn of each abscissa
        let turns: HashMap<u64, u64> = match f["order"].as_array() {
            None => HashMap::new(),
            Some(ord) => {
                let mut xs = Vec::new();
                rules::integrate(r, a, b, &mut |x| { xs.push(x); 0.0 });
                xs.sort_by(f64::total_cmp);
                ord.iter().enumerate()
                    .filter_map(|(turn, i)| Some((xs.get(i.as_u64()? as usize - 1)?.to_bits(), turn as u64)))
                    .collect()
            }
        };
        let g = |x: f64| {
            let c = calls.fetch_add(1, Ordering::SeqCst) + 1;
            if stall > 0 {
                // perturb the schedule: uneven, data-dependent work
                for _ in 0..(mix(x.to_bits() ^ stall) % 2000) { std::hint::spin_loop(); }
                if mix(x.to_bits() ^ stall ^ 77) % 4 == 0 { std::thread::yield_now(); }
            }
            if steer > 0 {
                // steer the evaluation order: wait (for a bounded time) until as many evaluations
                // are complete as the abscissa's pseudo-random rank asks for
                let want = mix(x.to_bits() ^ steer) % f["steer_n"].as_u64().unwrap_or(8).max(1);
                let t = std::time::Instant::now();
                while done.load(Ordering::SeqCst) < want && t.elapsed().as_micros() < 150 { std::thread::yield_now(); }
            }
            if let Some(want) = turns.get(&x.to_bits()) {
                let t = std::time::Instant::now();
                while done.load(Ordering::SeqCst) < *want && t.elapsed().as_micros() < 2000 { std::thread::yield_now(); }
            }
            if faulty(c) || (kind == "fault_x" && x == bf(&f["x"])) { panic!("{FAULT}") }
            let y = if kind == "fault_x" { 1.0 } else { pure(f, x) };
            if log_ev { log.lock().unwrap_or_else(|e| e.into_inner()).push((x, y)); }
            done.fetch_add(1, Ordering::SeqCst);
            y
        };
        res = catch_unwind(AssertUnwindSafe(|| with_pool(thr, || rules::par_integrate(r, a, b, &g))));
        evs = log.into_inner().unwrap_or_else(|e| e.into_inner());
        made = calls.into_inner();
        if !turns.is_empty() {
            let done: Vec<u64> = evs.iter().filter_map(|(x, _)| turns.get(&x.to_bits()).copied()).collect();
            follows = done.iter().enumerate().all(|(i, t)| *t == i as u64) as i32;
        }
        if fine {
            for (x, y) in &evs { inner.push(event(s, "eval", ev4(*x, *y))); }
        }
    } else {
        let mut log: Vec<(f64, f64)> = Vec::new();
        let mut calls = 0u64;
        let nested = RefCell::new(&mut *inner);
        let mut g = |x: f64| {
            calls += 1;
            if faulty(calls) || (kind == "fault_x" && x == bf(&f["x"])) { panic!("{FAULT}") }
            let y = match kind {
                "fault_x" => 1.0,
                // depends on the call number only (stateful integrand)
                "seq" => hash01(calls.wrapping_mul(0x1234567).wrapping_add(f["seed"].as_u64().unwrap_or(0))),
                // an integrand that itself integrates (on the same or another rule)
                "nest" => {
                    let sub = &f["sub"];
                    let mut rec = sub.clone();
                    let mut deeper = Vec::new();
                    let v = integ(st, sub, &mut deeper);
                    let ours = v.get("ours").is_some_and(|o| o == 1);
                    let y = v.get("val").map_or(f64::NAN, bf);
                    rec["r"] = v;
                    wrap_ints(&mut rec);
                    let mut n = nested.borrow_mut();
                    n.append(&mut deeper);
                    if sub["fine"].as_i64() != Some(1) { n.push(rec); }
                    // an integrand that does not handle the fault of the inner integration
                    if ours && f["pass"].as_i64() == Some(1) { panic!("{FAULT}") }
                    y
                }
                _ => pure(f, x),
            };
            if fine { nested.borrow_mut().push(event(s, "eval", ev4(x, y))); }
            if log_ev { log.push((x, y)); }
            y
        };
        res = catch_unwind(AssertUnwindSafe(|| Some(rules::integrate(r, a, b, &mut g))));
        evs = log;
        made = calls;
    }
    let mut o = match res {
        Ok(Some(v)) => json!({"val": fb(v)}),
        Ok(None) => return json!({"na": 1}),
        Err(e) => {
            let ours = e.downcast_ref::<String>().is_some_and(|m| m == FAULT)
                || e.downcast_ref::<&str>().is_some_and(|m| *m == FAULT);
            json!({"panic": 1, "ours": ours as i32})
        }
    };
    o["calls"] = json!(made);
    if follows >= 0 { o["follows"] = json!(follows); }
    if fine {
        inner.push(event(s, if o.get("val").is_some() { "return" } else { "fault" }, o.clone()));
    }
    if log_ev {
        evs.sort_by(|p, q| p.0.total_cmp(&q.0));
        o["ev"] = Value::Array(evs.iter().map(|(x, y)| ev4(*x, *y)).collect());
    }
    o
}

fn wrapped(v: Value) -> Value {
    if v.get("na").is_some() { v } else { json!({"v": v}) }
}

fn codes(s: &str) -> Value {
    Value::Array(s.chars().map(|c| json!(c as u32)).collect())
}

fn opt_param(st: &mut St, s: &Value, p: Option<FiniteAboveNegOneF64>) -> Value {
    match p {
        Some(p) => {
            if let Some(d) = s["dst"].as_i64() { st.params.insert(d, p); }
            json!({"some": fb(p.get())})
        }
        None => json!({"none": 1}),
    }
}

fn parse_err(e: &gauss_quad::ParseFiniteAboveNegOneF64Error) -> Value {
    use gauss_quad::ParseFiniteAboveNegOneF64Error as E;
    let k = match e { E::ParseError(_) => "parse", E::InvalidValue(_) => "range" };
    json!({"err": k})
}

fn step(st: &mut St, s: &Value, inner: &mut Vec<Value>) -> Value {
    match s["op"].as_str().expect("op") {
        "new" => {
            let r = match with_pool(s["thr"].as_i64().unwrap_or(0), || rules::build(s)) {
                Some(r) => r,
                None => return json!({"na": 1}),
            };
            let o = rules::project(&r, s);
            st.rules.insert(key(s, "dst"), r);
            o
        }
        "state" => rules::project(&st.rules[&key(s, "src")], s),
        // the same call over and over: recorded once, with the number of different outcomes
        "rep" => {
            let sub = &s["step"];
            let mut seen: Vec<Value> = Vec::new();
            for _ in 0..s["times"].as_u64().unwrap() {
                let o = match catch_unwind(AssertUnwindSafe(|| step(st, sub, &mut Vec::new()))) {
                    Ok(v) => v,
                    Err(_) => json!({"panic": 1, "ours": 0, "calls": 0}),
                };
                if !seen.contains(&o) && seen.len() < 5 { seen.push(o); }
            }
            let mut rec = sub.clone();
            rec["r"] = seen[0].clone();
            wrap_ints(&mut rec);
            inner.push(rec);
            json!({"distinct": seen.len()})
        }
        "integ" => integ(st, s, inner),
        // integrate with an integrand singling out the i-th abscissa of a recorded dry run
        "integ_at" => {
            let mut dry = s.clone();
            dry["f"] = json!({"kind": "id"});
            dry["par"] = json!(0);
            dry["ev"] = json!(1);
            let d = integ(st, &dry, inner);
            let evs = d["ev"].as_array().unwrap();
            if evs.is_empty() { return json!({"na": 1}); }
            let mut xs: Vec<f64> = evs.iter().map(bf).collect();
            xs.sort_by(f64::total_cmp);
            let i = s["i"].as_u64().unwrap() as usize % xs.len();
            let mut real = s.clone();
            real["f"]["x"] = fb(xs[i]);
            let mut o = integ(st, &real, inner);
            o["x"] = fb(xs[i]);
            o
        }
        "views" => rules::views(&st.rules[&key(s, "src")]),
        "clone" => {
            let r = rules::clone(&st.rules[&key(s, "src")]);
            let o = rules::project(&r, s);
            st.rules.insert(key(s, "dst"), r);
            o
        }
        "clone_from" => {
            let r = match rules::clone_from(&st.rules[&key(s, "src")], &st.rules[&key(s, "dst")]) {
                Some(r) => r,
                None => rules::clone(&st.rules[&key(s, "src")]),
            };
            let o = rules::project(&r, s);
            st.rules.insert(key(s, "dst"), r);
            o
        }
        "move" => {
            let r = st.rules.remove(&key(s, "src")).unwrap();
            let r = std::thread::scope(|sc| sc.spawn(move || r).join().unwrap());
            let o = rules::project(&r, s);
            st.rules.insert(key(s, "dst"), r);
            o
        }
        "drop" => {
            st.rules.remove(&key(s, "src"));
            json!({})
        }
        "change_degree" => {
            let r = st.rules.get_mut(&key(s, "src")).unwrap();
            rules::change_degree(r, s["n"].as_u64().unwrap() as u32);
            rules::project(r, s)
        }
        "eq" => match rules::equal(&st.rules[&key(s, "src")], &st.rules[&key(s, "src2")]) {
            Some((e, n)) => json!({"eq": e as i32, "ne": n as i32}),
            None => json!({"na": 1}),
        },
        "conv" => {
            let r = rules::to_jacobi(&st.rules[&key(s, "src")]);
            let o = rules::project(&r, s);
            st.rules.insert(key(s, "dst"), r);
            o
        }
        "debug" => {
            let r = &st.rules[&key(s, "src")];
            let d = crate::each_gauss!(r, q => format!("{q:?}"), n => format!("{n:?}"));
            json!({"len": d.len()})
        }
        // iterators
        "iopen" => {
            let it = rules::open_iter(&st.rules[&key(s, "src")], s["kind"].as_str().unwrap());
            st.iters.insert(key(s, "it"), Some(it));
            json!({})
        }
        "iclone" => {
            let over = if s["from"].as_i64() == Some(1) && key(s, "it") != key(s, "dst") {
                st.iters.get_mut(&key(s, "dst")).and_then(Option::take)
            } else {
                None
            };
            let it = st.iters[&key(s, "it")].as_ref().unwrap();
            let d = match over {
                Some(old) => it.dup_over(old),
                None => it.dup(),
            };
            st.iters.insert(key(s, "dst"), Some(d));
            json!({})
        }
        "iop" => {
            // a skip count: small, or the two halves of a 64-bit number
            let k = match s.get("kb") {
                Some(b) => bf(b).to_bits() as usize,
                None => s["k"].as_i64().unwrap_or(0) as usize,
            };
            let it = st.iters.get_mut(&key(s, "it")).unwrap().as_mut().unwrap();
            wrapped(it.op(s["o"].as_str().unwrap(), k))
        }
        "ifin" => {
            let it = st.iters.get_mut(&key(s, "it")).unwrap().take().unwrap();
            wrapped(it.fin(s["o"].as_str().unwrap()))
        }
        // parameters
        "p_new" => opt_param(st, s, FiniteAboveNegOneF64::new(bf(&s["x"]))),
        "p_try" => match FiniteAboveNegOneF64::try_from(bf(&s["x"])) {
            Ok(p) => opt_param(st, s, Some(p)),
            Err(gauss_quad::InfNanNegOneOrLessError) => json!({"none": 1}),
        },
        "p_default" => opt_param(st, s, Some(FiniteAboveNegOneF64::default())),
        "p_op" => {
            let p = match st.params.get(&key(s, "src")) {
                Some(p) => *p,
                None => return json!({"na": 1}),
            };
            let y = bf(&s["y"]);
            let r = match s["o"].as_str().unwrap() {
                "add" => p.checked_add(y),
                "sub" => p.checked_sub(y),
                "mul" => p.checked_mul(y),
                "div" => p.checked_div(y),
                "pow" => p.checked_pow(y),
                o => panic!("unknown operation {o}"),
            };
            let mut o = opt_param(st, s, r);
            o["x"] = fb(p.get());
            o
        }
        "p_into" => {
            let p = match st.params.get(&key(s, "src")) {
                Some(p) => *p,
                None => return json!({"na": 1}),
            };
            let y: f64 = p.into();
            let c = p;
            let mut d = FiniteAboveNegOneF64::default();
            d.clone_from(&c);
            if c.clone() != d { d = FiniteAboveNegOneF64::default(); }
            json!({"get": fb(p.get()), "into": fb(y), "copy": fb(d.get())})
        }
        "p_cmp" => {
            let (p, q) = match (st.params.get(&key(s, "src")), st.params.get(&key(s, "src2"))) {
                (Some(p), Some(q)) => (*p, *q),
                _ => return json!({"na": 1}),
            };
            let c = p.partial_cmp(&q).map_or(9, |o| o as i32);
            json!({"x": fb(p.get()), "y": fb(q.get()), "cmp": c, "eq": (p == q) as i32,
                   "lt": (p < q) as i32, "le": (p <= q) as i32})
        }
        "p_parse" => {
            let t: String = s["s"].as_array().unwrap().iter()
                .map(|c| char::from_u32(c.as_u64().unwrap() as u32).unwrap()).collect();
            match t.parse::<FiniteAboveNegOneF64>() {
                Ok(p) => opt_param(st, s, Some(p)),
                Err(e) => {
                    let mut o = parse_err(&e);
                    o["nonempty"] = json!(!e.to_string().is_empty() as i32);
                    o
                }
            }
        }
        "p_fmt" => {
            let p = match st.params.get(&key(s, "src")) {
                Some(p) => *p,
                None => return json!({"na": 1}),
            };
            let t = match s["o"].as_str().unwrap() {
                "display" => format!("{p}"),
                "lower" => format!("{p:e}"),
                "upper" => format!("{p:E}"),
                "to_string" => p.to_string(),
                o => panic!("unknown format {o}"),
            };
            let back = t.parse::<FiniteAboveNegOneF64>().map_or(json!({"none": 1}), |q| json!({"some": fb(q.get())}));
            json!({"x": fb(p.get()), "s": codes(&t), "back": back})
        }
        // serialization
        #[cfg(feature = "cfg-full")]
        "ser" => {
            let q = rules::ser::round_trip(&st.rules[&key(s, "src")], s["fmt"].as_str().unwrap());
            match q {
                Ok(Some(r)) => {
                    let o = rules::project(&r, s);
                    st.rules.insert(key(s, "dst"), r);
                    o
                }
                Ok(None) => json!({"na": 1}),
                Err(e) => json!({"err": e.chars().filter(char::is_ascii).take(80).collect::<String>()}),
            }
        }
        // a rule from a document whose pairs were altered
        #[cfg(feature = "cfg-full")]
        "edit" => {
            let q = rules::ser::edit(&st.rules[&key(s, "src")], &|ps: &mut Vec<Value>| {
                // pairs of another number: ascending nodes in (-1, 1), weights of either sign
                if let Some(m) = s["grow"].as_u64().filter(|m| *m as usize != ps.len()) {
                    *ps = (0..m).map(|i| {
                        let x = -1.0 + (2 * i + 1) as f64 / m as f64 + 0.4 * hash01(i) / m as f64;
                        json!([x, 0.25 + hash01(i ^ 0x5555)])
                    }).collect();
                }
                for e in s["ed"].as_array().unwrap() {
                    let n = ps.len() as i64;
                    let (i, c) = ((e["i"].as_i64().unwrap().rem_euclid(n)) as usize, e["c"].as_u64().unwrap() as usize);
                    let x = ps[i][c].as_f64().unwrap();
                    ps[i][c] = json!(if e["v"].is_null() {
                        let b = (x.to_bits() as i64).wrapping_add(e["ulps"].as_i64().unwrap());
                        let y = f64::from_bits(b as u64);
                        if y.is_finite() { y } else { x }
                    } else { bf(&e["v"]) });
                }
            });
            match q {
                Some(r) => {
                    let o = rules::project(&r, s);
                    st.rules.insert(key(s, "dst"), r);
                    o
                }
                None => json!({"na": 1}),
            }
        }
        #[cfg(feature = "cfg-full")]
        "p_ser" => {
            let p = match st.params.get(&key(s, "src")) {
                Some(p) => *p,
                None => return json!({"na": 1}),
            };
            match rules::ser::param_round_trip(p, s["fmt"].as_str().unwrap()) {
                Ok(q) => json!({"x": fb(p.get()), "some": fb(q.get())}),
                Err(_) => json!({"x": fb(p.get()), "none": 1}),
            }
        }
        #[cfg(feature = "cfg-full")]
        "p_de" => match rules::ser::param_from(bf(&s["x"]), s["fmt"].as_str().unwrap()) {
            Ok(y) => json!({"some": fb(y)}),
            Err(_) => json!({"none": 1}),
        },
        #[cfg(feature = "cfg-full")]
        "p_bytes" => {
            use zerocopy::{FromZeros, IntoBytes};
            let p = match st.params.get(&key(s, "src")) {
                Some(p) => *p,
                None => return json!({"na": 1}),
            };
            let b = p.as_bytes();
            let y = f64::from_ne_bytes(b.try_into().unwrap());
            json!({"x": fb(p.get()), "some": fb(y), "zero": fb(FiniteAboveNegOneF64::new_zeroed().get())})
        }
        #[cfg(not(feature = "cfg-full"))]
        "ser" | "edit" | "p_ser" | "p_de" | "p_bytes" => json!({"na": 1}),
        // several threads at once: each repeats the given steps on rules of its own and on shared ones
        "conc" => {
            let n = s["threads"].as_u64().unwrap();
            let subs = s["steps"].as_array().unwrap();
            let shared: HashMap<i64, R> = st.rules.clone();
            let barrier = std::sync::Barrier::new(n as usize);
            let outs: Vec<Vec<Value>> = std::thread::scope(|sc| {
                let hs: Vec<_> = (0..n)
                    .map(|t| {
                        let (shared, barrier) = (shared.clone(), &barrier);
                        sc.spawn(move || {
                            let mut st = St { rules: shared, ..St::default() };
                            barrier.wait();
                            let mut out = Vec::new();
                            for i in 0..subs.len() {
                                // every thread starts at a different step
                                let sub = &subs[(i + t as usize) % subs.len()];
                                let mut inner = Vec::new();
                                let r = catch_unwind(AssertUnwindSafe(|| step(&mut st, sub, &mut inner)))
                                    .unwrap_or_else(|_| json!({"panic": 1}));
                                let mut rec = sub.clone();
                                rec["r"] = r;
                                rec["thread"] = json!(t + 1);
                                wrap_ints(&mut rec);
                                out.append(&mut inner);
                                out.push(rec);
                            }
                            out
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap_or_default()).collect()
            });
            for mut o in outs { inner.append(&mut o); }
            json!({})
        }
        o => panic!("unknown step {o}"),
    }
}

#[allow(dead_code)]
fn _unused() -> Value {
    u64b(0)
}
