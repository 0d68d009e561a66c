//! Type-erased access to every quadrature rule of the crate.
use crate::iters::{DynIt, Rec, W, list};
use crate::{bf, fb, u64b};
use gauss_quad::*;
use serde_json::{Value, json};
use std::num::{NonZeroU32, NonZeroUsize};
use std::sync::Arc;

/// Gauss rules live in leaked boxes so that borrowing iterators can be kept in registers; both kinds
/// are shared, not copied, when a job hands its rules to threads.
#[derive(Clone)]
pub enum R {
    Leg(&'static GaussLegendre),
    Jac(&'static GaussJacobi),
    Lag(&'static GaussLaguerre),
    Her(&'static GaussHermite),
    Ch1(&'static GaussChebyshevFirstKind),
    Ch2(&'static GaussChebyshevSecondKind),
    Mid(Arc<Midpoint>),
    Sim(Arc<Simpson>),
    Tra(Arc<Trapezoid>),
}
use R::*;

pub fn leak<T>(x: T) -> &'static T {
    Box::leak(Box::new(x))
}

#[macro_export]
macro_rules! each_gauss {
    ($r:expr, $q:ident => $e:expr, $n:ident => $ne:expr) => {
        match $r {
            $crate::rules::R::Leg($q) => $e,
            $crate::rules::R::Jac($q) => $e,
            $crate::rules::R::Lag($q) => $e,
            $crate::rules::R::Her($q) => $e,
            $crate::rules::R::Ch1($q) => $e,
            $crate::rules::R::Ch2($q) => $e,
            $crate::rules::R::Mid($n) => $ne,
            $crate::rules::R::Sim($n) => $ne,
            $crate::rules::R::Tra($n) => $ne,
        }
    };
}

pub fn fin(v: &Value) -> FiniteAboveNegOneF64 {
    FiniteAboveNegOneF64::new(bf(v)).expect("job uses an invalid parameter")
}

/// Builds a rule; None if this configuration has no such constructor.
pub fn build(s: &Value) -> Option<R> {
    let fam = s["fam"].as_str().unwrap();
    let n = s["n"].as_u64().unwrap();
    let par = s["par"].as_i64().unwrap_or(0) == 1;
    let nz = NonZeroUsize::new(n as usize).unwrap();
    let n32 = || NonZeroU32::new(n as u32).unwrap();
    let from = s["via"].as_str() == Some("from");
    Some(match (fam, par) {
        ("Legendre", false) => Leg(leak(GaussLegendre::new(nz))),
        ("Cheb1", false) => Ch1(leak(GaussChebyshevFirstKind::new(nz))),
        ("Cheb2", false) => Ch2(leak(GaussChebyshevSecondKind::new(nz))),
        #[cfg(any(feature = "cfg-rayon", feature = "cfg-raylibm", feature = "cfg-full"))]
        ("Legendre", true) => Leg(leak(GaussLegendre::par_new(nz))),
        #[cfg(any(feature = "cfg-rayon", feature = "cfg-raylibm", feature = "cfg-full"))]
        ("Cheb1", true) => Ch1(leak(GaussChebyshevFirstKind::par_new(nz))),
        #[cfg(any(feature = "cfg-rayon", feature = "cfg-raylibm", feature = "cfg-full"))]
        ("Cheb2", true) => Ch2(leak(GaussChebyshevSecondKind::par_new(nz))),
        (_, true) => return None,
        ("Hermite", _) => Her(leak(GaussHermite::new(nz))),
        ("Laguerre", _) => Lag(leak(GaussLaguerre::new(nz, fin(&s["al"])))),
        ("Jacobi", _) => Jac(leak(GaussJacobi::new(nz, fin(&s["al"]), fin(&s["be"])))),
        ("Midpoint", _) if from => Mid(Arc::new(Midpoint::from(n32()))),
        ("Simpson", _) if from => Sim(Arc::new(Simpson::from(n32()))),
        ("Trapezoid", _) if from => Tra(Arc::new(Trapezoid::from(n32()))),
        ("Midpoint", _) => Mid(Arc::new(Midpoint::new(n32()))),
        ("Simpson", _) => Sim(Arc::new(Simpson::new(n32()))),
        ("Trapezoid", _) => Tra(Arc::new(Trapezoid::new(n32()))),
        _ => panic!("unknown family {fam}"),
    })
}

pub fn pairs(r: &R) -> &[(f64, f64)] {
    each_gauss!(r, q => q.as_node_weight_pairs(), _n => &[])
}

fn fnv(h: &mut u64, x: u64) {
    for b in x.to_le_bytes() {
        *h = (*h ^ b as u64).wrapping_mul(0x100000001b3);
    }
}
pub fn digest(p: &[(f64, f64)]) -> u64 {
    let mut h = 0xcbf29ce484222325;
    for (x, w) in p {
        fnv(&mut h, x.to_bits());
        fnv(&mut h, w.to_bits());
    }
    h
}

/// The projection of a rule onto the abstract state of the specification.
/// the number of steps of a fixed-step rule
pub fn steps(r: &R) -> f64 {
    match r {
        Mid(q) => q.degree().get().into(),
        Sim(q) => q.degree().get().into(),
        Tra(q) => q.degree().get().into(),
        _ => 0.0,
    }
}

pub fn project(r: &R, s: &Value) -> Value {
    let p = pairs(r);
    let mut o = json!({ "dg": u64b(digest(p)) });
    o["deg"] = each_gauss!(r, q => json!(q.degree()), n => json!(n.degree().get() as i32));
    o["fam"] = json!(name(r));
    match r {
        Jac(q) => {
            o["al"] = fb(q.alpha().get());
            o["be"] = fb(q.beta().get());
        }
        Lag(q) => o["al"] = fb(q.alpha().get()),
        _ => {}
    }
    match s["log"].as_str() {
        Some("none") => {}
        Some("idx") => {
            o["np"] = json!(p.len());
            o["idx"] = Value::Array(
                s["idx"].as_array().unwrap().iter()
                    .map(|i| i.as_u64().unwrap() as usize)
                    .filter(|i| *i >= 1 && *i <= p.len())
                    .map(|i| { let v = p[i - 1].rec(); json!([i, v[0], v[1], v[2], v[3]]) })
                    .collect(),
            );
        }
        _ => {
            o["np"] = json!(p.len());
            o["pairs"] = list(p.iter());
        }
    }
    o
}

pub fn name(r: &R) -> &'static str {
    match r {
        Leg(_) => "Legendre",
        Jac(_) => "Jacobi",
        Lag(_) => "Laguerre",
        Her(_) => "Hermite",
        Ch1(_) => "Cheb1",
        Ch2(_) => "Cheb2",
        Mid(_) => "Midpoint",
        Sim(_) => "Simpson",
        Tra(_) => "Trapezoid",
    }
}

pub fn integrate(r: &R, a: f64, b: f64, f: &mut dyn FnMut(f64) -> f64) -> f64 {
    match r {
        Leg(q) => q.integrate(a, b, f),
        Jac(q) => q.integrate(a, b, f),
        Lag(q) => q.integrate(f),
        Her(q) => q.integrate(f),
        Ch1(q) => q.integrate(a, b, f),
        Ch2(q) => q.integrate(a, b, f),
        Mid(q) => q.integrate(a, b, f),
        Sim(q) => q.integrate(a, b, f),
        Tra(q) => q.integrate(a, b, f),
    }
}
#[cfg(any(feature = "cfg-rayon", feature = "cfg-raylibm", feature = "cfg-full"))]
pub fn par_integrate(r: &R, a: f64, b: f64, f: &(dyn Fn(f64) -> f64 + Sync)) -> Option<f64> {
    Some(match r {
        Leg(q) => q.par_integrate(a, b, f),
        Jac(q) => q.par_integrate(a, b, f),
        Lag(q) => q.par_integrate(f),
        Her(q) => q.par_integrate(f),
        Ch1(q) => q.par_integrate(a, b, f),
        Ch2(q) => q.par_integrate(a, b, f),
        Mid(q) => q.par_integrate(a, b, f),
        Sim(q) => q.par_integrate(a, b, f),
        Tra(q) => q.par_integrate(a, b, f),
    })
}
#[cfg(not(any(feature = "cfg-rayon", feature = "cfg-raylibm", feature = "cfg-full")))]
pub fn par_integrate(_: &R, _: f64, _: f64, _: &(dyn Fn(f64) -> f64 + Sync)) -> Option<f64> {
    None
}

pub fn change_degree(r: &mut R, n: u32) {
    let n = NonZeroU32::new(n).unwrap();
    match r {
        Mid(q) => Arc::make_mut(q).change_degree(n),
        Sim(q) => Arc::make_mut(q).change_degree(n),
        Tra(q) => Arc::make_mut(q).change_degree(n),
        _ => panic!("change_degree on a Gauss rule"),
    }
}

/// `clone()` of the underlying rule (not of the reference)
pub fn clone(r: &R) -> R {
    match r {
        Leg(q) => Leg(leak((*q).clone())),
        Jac(q) => Jac(leak((*q).clone())),
        Lag(q) => Lag(leak((*q).clone())),
        Her(q) => Her(leak((*q).clone())),
        Ch1(q) => Ch1(leak((*q).clone())),
        Ch2(q) => Ch2(leak((*q).clone())),
        Mid(q) => Mid(Arc::new(Midpoint::clone(q))),
        Sim(q) => Sim(Arc::new(Simpson::clone(q))),
        Tra(q) => {
            let copied: Trapezoid = **q;
            let cloned = Trapezoid::clone(q);
            assert!(copied == cloned);
            Tra(Arc::new(cloned))
        }
    }
}

/// `old.clone_from(new)` on a copy of `old`; None if they are of different types
pub fn clone_from(new: &R, old: &R) -> Option<R> {
    macro_rules! g {
        ($c:ident, $q:expr, $p:expr) => {{
            let mut t = (*$p).clone();
            t.clone_from(*$q);
            $c(leak(t))
        }};
    }
    macro_rules! nc {
        ($c:ident, $t:ty, $q:expr, $p:expr) => {{
            let mut t = <$t>::clone($p);
            t.clone_from(&**$q);
            $c(Arc::new(t))
        }};
    }
    Some(match (new, old) {
        (Leg(q), Leg(p)) => g!(Leg, q, *p),
        (Jac(q), Jac(p)) => g!(Jac, q, *p),
        (Lag(q), Lag(p)) => g!(Lag, q, *p),
        (Her(q), Her(p)) => g!(Her, q, *p),
        (Ch1(q), Ch1(p)) => g!(Ch1, q, *p),
        (Ch2(q), Ch2(p)) => g!(Ch2, q, *p),
        (Mid(q), Mid(p)) => nc!(Mid, Midpoint, q, p),
        (Sim(q), Sim(p)) => nc!(Sim, Simpson, q, p),
        (Tra(q), Tra(p)) => nc!(Tra, Trapezoid, q, p),
        _ => return None,
    })
}

/// `==`, only defined between rules of the same type
pub fn equal(a: &R, b: &R) -> Option<(bool, bool)> {
    Some(match (a, b) {
        (Leg(x), Leg(y)) => (*x == *y, *x != *y),
        (Jac(x), Jac(y)) => (*x == *y, *x != *y),
        (Lag(x), Lag(y)) => (*x == *y, *x != *y),
        (Her(x), Her(y)) => (*x == *y, *x != *y),
        (Ch1(x), Ch1(y)) => (*x == *y, *x != *y),
        (Ch2(x), Ch2(y)) => (*x == *y, *x != *y),
        (Mid(x), Mid(y)) => (**x == **y, **x != **y),
        (Sim(x), Sim(y)) => (**x == **y, **x != **y),
        (Tra(x), Tra(y)) => (**x == **y, **x != **y),
        _ => return None,
    })
}

pub fn to_jacobi(r: &R) -> R {
    match r {
        Leg(q) => Jac(leak(GaussJacobi::from((*q).clone()))),
        Ch1(q) => Jac(leak(GaussJacobi::from((*q).clone()))),
        Ch2(q) => Jac(leak(GaussJacobi::from((*q).clone()))),
        Jac(q) => Jac(leak((*q).clone())),
        _ => panic!("no conversion to Jacobi"),
    }
}

macro_rules! it {
    ($e:expr) => {
        Box::new(W { it: $e, as_slice: None, as_ref: None })
    };
}
macro_rules! it_sl {
    ($e:expr) => {
        Box::new(W {
            it: $e,
            as_slice: Some(|i| list(i.as_slice().iter())),
            as_ref: Some(|i| list(AsRef::<[(f64, f64)]>::as_ref(i).iter())),
        })
    };
}
pub fn open_iter(r: &R, kind: &str) -> Box<dyn DynIt> {
    macro_rules! gauss {
        ($q:expr) => {{
            let q = *$q;
            match kind {
                "nodes" => it!(q.nodes()),
                "weights" => it!(q.weights()),
                "iter" => it_sl!(q.iter()),
                "ref" => it_sl!((&*q).into_iter()),
                "into" => it_sl!(q.clone().into_iter()),
                _ => panic!("unknown iterator kind {kind}"),
            }
        }};
    }
    macro_rules! nc {
        ($q:expr) => {
            match kind {
                "iter" => it!($q.iter()),
                "ref" => it!(($q).into_iter()),
                "into" => it!(Clone::clone($q).into_iter()),
                _ => panic!("unknown iterator kind {kind}"),
            }
        };
    }
    match r {
        Leg(q) => gauss!(q),
        Jac(q) => gauss!(q),
        Lag(q) => gauss!(q),
        Her(q) => gauss!(q),
        Ch1(q) => gauss!(q),
        Ch2(q) => gauss!(q),
        Mid(q) => nc!(&**q),
        Sim(q) => nc!(&**q),
        Tra(q) => nc!(&**q),
    }
}

/// Every view of a rule's data.
pub fn views(r: &R) -> Value {
    macro_rules! nc {
        ($q:expr) => {{
            let q = $q;
            let mut by_for = Vec::new();
            for x in q {
                by_for.push(x.rec());
            }
            json!({"deg": q.degree().get() as i32, "iter": list(q.iter()), "ref": by_for, "into": list(q.clone().into_iter())})
        }};
    }
    match r {
        Mid(q) => nc!(&**q),
        Sim(q) => nc!(&**q),
        Tra(q) => nc!(&**q),
        _ => each_gauss!(r, q => {
            let q = *q;
            let mut by_for = Vec::new();
            for x in q { by_for.push(x.rec()); }
            let mut owned = Vec::new();
            for x in q.clone() { owned.push(x.rec()); }
            json!({
                "deg": q.degree(),
                "nodes": list(q.nodes()),
                "weights": list(q.weights()),
                "iter": list(q.iter()),
                "ref": by_for,
                "into": owned,
                "slice": list(q.as_node_weight_pairs().iter()),
                "boxed": list(q.clone().into_node_weight_pairs().iter()),
                "again": list(q.as_node_weight_pairs().iter()),
            })
        }, _n => unreachable!()),
    }
}

#[cfg(feature = "cfg-full")]
pub mod ser {
    use super::*;
    use serde::{Serialize, de::DeserializeOwned};
    fn rt<T: Serialize + DeserializeOwned>(x: &T, fmt: &str) -> Result<T, String> {
        let e = |e: &dyn std::fmt::Display| e.to_string();
        match fmt {
            "json" => serde_json::from_str(&serde_json::to_string(x).map_err(|x| e(&x))?).map_err(|x| e(&x)),
            "json_pretty" => serde_json::from_slice(&serde_json::to_vec_pretty(x).map_err(|x| e(&x))?).map_err(|x| e(&x)),
            "json_value" => serde_json::from_value(serde_json::to_value(x).map_err(|x| e(&x))?).map_err(|x| e(&x)),
            "bincode" => bincode::deserialize(&bincode::serialize(x).map_err(|x| e(&x))?).map_err(|x| e(&x)),
            _ => Err(format!("unknown format {fmt}")),
        }
    }
    macro_rules! rk {
        ($t:ty, $q:expr) => {{
            let bytes = rkyv::to_bytes::<rkyv::rancor::Error>($q).map_err(|e| e.to_string())?;
            let arch = unsafe { rkyv::access_unchecked::<rkyv::Archived<$t>>(&bytes) };
            rkyv::deserialize::<$t, rkyv::rancor::Error>(arch).map_err(|e| e.to_string())?
        }};
    }
    pub fn round_trip(r: &R, fmt: &str) -> Result<Option<R>, String> {
        if fmt == "rkyv" {
            return Ok(Some(match r {
                Leg(q) => Leg(leak(rk!(GaussLegendre, *q))),
                Jac(q) => Jac(leak(rk!(GaussJacobi, *q))),
                Lag(q) => Lag(leak(rk!(GaussLaguerre, *q))),
                Her(q) => Her(leak(rk!(GaussHermite, *q))),
                Ch1(q) => Ch1(leak(rk!(GaussChebyshevFirstKind, *q))),
                Ch2(q) => Ch2(leak(rk!(GaussChebyshevSecondKind, *q))),
                Mid(q) => Mid(Arc::new(rk!(Midpoint, &**q))),
                Sim(q) => Sim(Arc::new(rk!(Simpson, &**q))),
                Tra(q) => Tra(Arc::new(rk!(Trapezoid, &**q))),
            }));
        }
        Ok(Some(match r {
            Leg(q) => Leg(leak(rt(*q, fmt)?)),
            Jac(q) => Jac(leak(rt(*q, fmt)?)),
            Lag(q) => Lag(leak(rt(*q, fmt)?)),
            Her(q) => Her(leak(rt(*q, fmt)?)),
            Ch1(q) => Ch1(leak(rt(*q, fmt)?)),
            Ch2(q) => Ch2(leak(rt(*q, fmt)?)),
            Mid(q) => Mid(Arc::new(rt(&**q, fmt)?)),
            Sim(q) => Sim(Arc::new(rt(&**q, fmt)?)),
            Tra(q) => Tra(Arc::new(rt(&**q, fmt)?)),
        }))
    }
    /// the array of pairs within a document
    fn pairs_in(v: &mut Value) -> Option<&mut Vec<Value>> {
        let ours = v.as_array().is_some_and(|a| !a.is_empty() && a.iter().all(|p| p.as_array().is_some_and(|p| p.len() == 2 && p.iter().all(Value::is_number))));
        match v {
            Value::Array(a) => if ours { Some(a) } else { a.iter_mut().find_map(pairs_in) },
            Value::Object(m) => m.values_mut().find_map(pairs_in),
            _ => None,
        }
    }
    fn ed<T: Serialize + DeserializeOwned>(x: &T, f: &dyn Fn(&mut Vec<Value>)) -> Option<T> {
        let mut v = serde_json::to_value(x).ok()?;
        f(pairs_in(&mut v)?);
        serde_json::from_value(v).ok()
    }
    /// a rule read from a document in which node-weight pairs were altered
    pub fn edit(r: &R, f: &dyn Fn(&mut Vec<Value>)) -> Option<R> {
        Some(match r {
            Leg(q) => Leg(leak(ed(*q, f)?)),
            Jac(q) => Jac(leak(ed(*q, f)?)),
            Lag(q) => Lag(leak(ed(*q, f)?)),
            Her(q) => Her(leak(ed(*q, f)?)),
            Ch1(q) => Ch1(leak(ed(*q, f)?)),
            Ch2(q) => Ch2(leak(ed(*q, f)?)),
            _ => return None,
        })
    }
    pub fn param_round_trip(p: FiniteAboveNegOneF64, fmt: &str) -> Result<FiniteAboveNegOneF64, String> {
        if fmt == "rkyv" { Ok(rk!(FiniteAboveNegOneF64, &p)) } else { rt(&p, fmt) }
    }
    /// documents that encode an arbitrary double where a parameter is expected
    pub fn param_from(x: f64, fmt: &str) -> Result<f64, String> {
        let g = |p: FiniteAboveNegOneF64| p.get();
        match fmt {
            "json" => serde_json::from_str::<FiniteAboveNegOneF64>(&format!("{x:e}")).map(g).map_err(|e| e.to_string()),
            "json_value" => serde_json::from_value::<FiniteAboveNegOneF64>(json!(x)).map(g).map_err(|e| e.to_string()),
            "json_opt" => serde_json::from_str::<Vec<Option<FiniteAboveNegOneF64>>>(&format!("[{x:e}]"))
                .map(|v| g(v[0].unwrap())).map_err(|e| e.to_string()),
            "bincode" => bincode::deserialize::<FiniteAboveNegOneF64>(&bincode::serialize(&x).unwrap()).map(g).map_err(|e| e.to_string()),
            // a whole rule document with the parameter replaced
            "rule_laguerre" => {
                let q = GaussLaguerre::new(3.try_into().unwrap(), FiniteAboveNegOneF64::new(0.5).unwrap());
                let mut v = serde_json::to_value(&q).unwrap();
                v["alpha"] = json!(x);
                serde_json::from_value::<GaussLaguerre>(v).map(|q| q.alpha().get()).map_err(|e| e.to_string())
            }
            "rule_jacobi_alpha" | "rule_jacobi_beta" => {
                let q = GaussJacobi::new(3.try_into().unwrap(), FiniteAboveNegOneF64::new(0.25).unwrap(), FiniteAboveNegOneF64::new(0.75).unwrap());
                let mut v = serde_json::to_value(&q).unwrap();
                v[&fmt[12..]] = json!(x);
                serde_json::from_value::<GaussJacobi>(v)
                    .map(|q| if fmt.ends_with("alpha") { q.alpha().get() } else { q.beta().get() })
                    .map_err(|e| e.to_string())
            }
            _ => Err(format!("unknown format {fmt}")),
        }
    }
}
