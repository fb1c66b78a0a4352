//! Objective functions described by JSON values.

use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

use cmaes::objective_function::Scale;
use cmaes::{DVector, ObjectiveFunction, ParallelObjectiveFunction};
use serde_json::Value;

use crate::num::{dec, dec_vec};

pub struct Eval {
    pub seq: usize,
    pub inst: usize,
    pub x: Vec<f64>,
    pub v: f64,
}

/// What is shared by all instances of an objective function
#[derive(Default)]
pub struct Shared {
    pub calls: AtomicUsize,
    pub log: Mutex<Vec<Eval>>,
    pub instances: AtomicUsize,
    pub logging: bool,
    /// the runs begun, and of the last one: calls made before it, population size, and generations
    /// that the histories of function values have to span
    pub runs: AtomicUsize,
    pub start: AtomicUsize,
    pub lambda: AtomicUsize,
    pub window: AtomicUsize,
}

/// What the objective function makes of a run of a restarter
struct Plan {
    gens: usize,
    v: f64,
    end: String,
    /// where in the last generation it happens
    at: usize,
}

#[derive(Clone)]
pub struct Obj {
    spec: Arc<Spec>,
    pub shared: Arc<Shared>,
    pub inst: usize,
}

enum Trans {
    Neg,
    /// Multiples of the first number become neighbours of the second
    Ulps(f64, f64),
    Scale(f64),
    Add(f64),
    Cube,
    Quant(f64),
    /// values above the first number are multiplied by the second
    Bend(f64, f64),
    Clip(f64, f64),
    /// the float that is so many places further in the order of all floats
    Order(i64),
}

/// Position of a float in the order of all of them; both zeros are at 0
fn place(v: f64) -> i64 {
    let b = v.abs().to_bits() as i64;
    if v < 0.0 {
        -b
    } else {
        b
    }
}

enum Fault {
    Call(usize, f64),
    CallMod(usize, usize, f64),
    Above(usize, f64, f64),
    ValueBelow(f64, f64),
}

struct Spec {
    base: String,
    script: Vec<f64>,
    cycle: bool,
    center: Vec<f64>,
    cond: f64,
    xscale: f64,
    /// componentwise factors, one after the other
    pre: Vec<Vec<f64>>,
    plan: Vec<Plan>,
    trans: Vec<Trans>,
    faults: Vec<Fault>,
    delay_us: u64,
}

fn mix(mut h: u64) -> u64 {
    h ^= h >> 33;
    h = h.wrapping_mul(0xff51_afd7_ed55_8ccd);
    h ^= h >> 33;
    h = h.wrapping_mul(0xc4ce_b9fe_1a85_ec53);
    h ^ (h >> 33)
}

impl Spec {
    fn new(v: &Value) -> Self {
        let list = |k: &str| v.get(k).and_then(|x| x.as_array()).cloned().unwrap_or_default();
        let trans = list("trans")
            .iter()
            .map(|t| match t[0].as_str().unwrap() {
                "neg" => Trans::Neg,
                "scale" => Trans::Scale(dec(&t[1])),
                "add" => Trans::Add(dec(&t[1])),
                "cube" => Trans::Cube,
                "quant" => Trans::Quant(dec(&t[1])),
                "bend" => Trans::Bend(dec(&t[1]), dec(&t[2])),
                "order" => Trans::Order(t[1].as_i64().unwrap()),
                "ulps" => Trans::Ulps(dec(&t[1]), dec(&t[2])),
                "clip" => Trans::Clip(dec(&t[1]), dec(&t[2])),
                x => panic!("transformation {}", x),
            })
            .collect();
        let faults = list("faults")
            .iter()
            .map(|t| match t[0].as_str().unwrap() {
                "call" => Fault::Call(t[1].as_u64().unwrap() as usize, dec(&t[2])),
                "callmod" => Fault::CallMod(
                    t[1].as_u64().unwrap() as usize,
                    t[2].as_u64().unwrap() as usize,
                    dec(&t[3]),
                ),
                "above" => Fault::Above(t[1].as_u64().unwrap() as usize, dec(&t[2]), dec(&t[3])),
                "vbelow" => Fault::ValueBelow(dec(&t[1]), dec(&t[2])),
                x => panic!("fault {}", x),
            })
            .collect();
        Spec {
            base: v.get("base").and_then(|x| x.as_str()).unwrap_or("sphere").to_string(),
            script: v.get("script").map(dec_vec).unwrap_or_default(),
            cycle: v.get("cycle").and_then(|x| x.as_bool()).unwrap_or(false),
            center: v.get("center").map(dec_vec).unwrap_or_default(),
            cond: v.get("cond").map(dec).unwrap_or(1e6),
            xscale: v.get("xscale").map(dec).unwrap_or(1.0),
            pre: list("pre").iter().map(dec_vec).collect(),
            plan: list("plan")
                .iter()
                .map(|p| Plan {
                    gens: p["gens"].as_u64().unwrap() as usize,
                    v: dec(&p["v"]),
                    end: p["end"].as_str().unwrap().to_string(),
                    at: p["at"].as_u64().unwrap() as usize,
                })
                .collect(),
            trans,
            faults,
            delay_us: v.get("delay").and_then(|x| x.as_u64()).unwrap_or(0),
        }
    }

    fn base(&self, seq: usize, x: &[f64]) -> f64 {
        let n = x.len();
        let x: Vec<f64> = x
            .iter()
            .enumerate()
            .map(|(i, xi)| xi * self.xscale - self.center.get(i).copied().unwrap_or(0.0))
            .collect();
        let frac = |i: usize| if n > 1 { i as f64 / (n - 1) as f64 } else { 0.0 };
        match self.base.as_str() {
            "script" => {
                let m = self.script.len();
                if self.cycle {
                    self.script[seq % m]
                } else {
                    self.script[seq.min(m - 1)]
                }
            }
            "sphere" => x.iter().map(|a| a * a).sum(),
            "ellipsoid" => (0..n).map(|i| self.cond.powf(frac(i)) * x[i] * x[i]).sum(),
            // not aligned with the axes
            "rotated" => {
                let s: f64 = x.iter().sum();
                s * s * self.cond + x.iter().map(|a| a * a).sum::<f64>()
            }
            "cigar" => x[0] * x[0] + self.cond * x[1..].iter().map(|a| a * a).sum::<f64>(),
            "discus" => self.cond * x[0] * x[0] + x[1..].iter().map(|a| a * a).sum::<f64>(),
            "rosenbrock" => {
                if n == 1 {
                    (1.0 - x[0]) * (1.0 - x[0])
                } else {
                    (0..n - 1)
                        .map(|i| {
                            let a = x[i + 1] - x[i] * x[i];
                            let b = 1.0 - x[i];
                            100.0 * a * a + b * b
                        })
                        .sum()
                }
            }
            "rastrigin" => x
                .iter()
                .map(|a| 10.0 + a * a - 10.0 * (2.0 * std::f64::consts::PI * a).cos())
                .sum(),
            "linear" => x.iter().enumerate().map(|(i, a)| a * (i + 1) as f64).sum(),
            "first" => x[0],
            "abs" => x.iter().map(|a| a.abs()).sum(),
            "maxabs" => x.iter().fold(0.0, |m, a| f64::max(m, a.abs())),
            "const" => 1.0,
            "ridge" => x[0] + 100.0 * x[1..].iter().map(|a| a * a).sum::<f64>().sqrt(),
            // a pure function of the point without any structure
            "hash" => {
                let mut h = 7u64;
                for a in &x {
                    h = mix(h ^ a.to_bits());
                }
                (h >> 11) as f64 / (1u64 << 53) as f64
            }
            // depends on the call only
            "noise" => (mix(seq as u64 + 0x9e37_79b9) >> 11) as f64 / (1u64 << 53) as f64,
            // gets worse with every call
            "worse" => seq as f64,
            b => panic!("objective function {}", b),
        }
    }

    /// Values that vary until so many generations before the end that the criteria on the range of
    /// the function values end the run in the planned generation
    fn planned(&self, seq: usize, shared: &Shared) -> f64 {
        let get = |a: &AtomicUsize| a.load(Ordering::SeqCst);
        let (lambda, window) = (get(&shared.lambda).max(1), get(&shared.window));
        let p = &self.plan[(get(&shared.runs).max(1) - 1).min(self.plan.len() - 1)];
        let off = seq.saturating_sub(get(&shared.start));
        let (g, i) = (off / lambda, off % lambda);
        let last = g + 1 == p.gens && i == p.at % lambda;
        match p.end.as_str() {
            "nan first" if off == p.at % lambda => f64::NAN,
            "nan" if last => f64::NAN,
            "target" if last => -100.0,
            "tol" if g + window < p.gens => {
                p.v + 1.0 + 9.0 * (mix(off as u64 + 0x9e37_79b9) >> 11) as f64 / (1u64 << 53) as f64
            }
            "tol" => p.v,
            _ => p.v + 9.0 * (mix(off as u64 + 0x9e37_79b9) >> 11) as f64 / (1u64 << 53) as f64,
        }
    }

    fn value(&self, seq: usize, x: &[f64], shared: &Shared) -> f64 {
        let scaled: Vec<f64>;
        let x = if self.pre.is_empty() {
            x
        } else {
            scaled = (0..x.len()).map(|i| self.pre.iter().fold(x[i], |a, s| a * s[i])).collect();
            &scaled
        };
        let mut v = if self.base == "plan" { self.planned(seq, shared) } else { self.base(seq, x) };
        for t in &self.trans {
            v = match *t {
                Trans::Neg => -v,
                Trans::Scale(c) => v * c,
                Trans::Add(c) => v + c,
                Trans::Cube => v * v * v,
                Trans::Quant(q) => (v / q).floor() * q,
                Trans::Bend(at, c) => {
                    if v > at {
                        v * c
                    } else {
                        v
                    }
                }
                Trans::Clip(lo, hi) => v.max(lo).min(hi),
                Trans::Ulps(unit, at) => {
                    let p = place(at) + (v / unit).round().max(-1e12).min(1e12) as i64;
                    let a = f64::from_bits(p.unsigned_abs());
                    if p < 0 {
                        -a
                    } else {
                        a
                    }
                }
                Trans::Order(k) => {
                    if v.is_finite() {
                        let p = place(v) + k;
                        let a = f64::from_bits(p.unsigned_abs());
                        if p < 0 {
                            -a
                        } else {
                            a
                        }
                    } else {
                        v
                    }
                }
            };
        }
        for f in &self.faults {
            match *f {
                Fault::Call(i, r) if i == seq => v = r,
                Fault::CallMod(m, k, r) if seq % m == k => v = r,
                Fault::Above(i, t, r) if x[i] * self.xscale > t => v = r,
                Fault::ValueBelow(t, r) if v < t => v = r,
                _ => {}
            }
        }
        v
    }
}

impl Obj {
    pub fn new(v: &Value, logging: bool) -> Self {
        Obj {
            spec: Arc::new(Spec::new(v)),
            shared: Arc::new(Shared { logging, ..Default::default() }),
            inst: 0,
        }
    }

    /// Another instance with the same shared log
    pub fn instance(&self) -> Self {
        Obj {
            spec: self.spec.clone(),
            shared: self.shared.clone(),
            inst: self.shared.instances.fetch_add(1, Ordering::SeqCst) + 1,
        }
    }

    /// Another run of a restarter
    pub fn begin_run(&self, lambda: usize, window: usize) {
        let s = &self.shared;
        s.runs.fetch_add(1, Ordering::SeqCst);
        s.start.store(self.calls(), Ordering::SeqCst);
        s.lambda.store(lambda, Ordering::SeqCst);
        s.window.store(window, Ordering::SeqCst);
    }

    pub fn calls(&self) -> usize {
        self.shared.calls.load(Ordering::SeqCst)
    }

    pub fn take_log(&self) -> Vec<Eval> {
        std::mem::take(&mut *self.shared.log.lock().unwrap())
    }

    pub fn eval(&self, x: &DVector<f64>) -> f64 {
        let seq = self.shared.calls.fetch_add(1, Ordering::SeqCst);
        let v = self.spec.value(seq, x.as_slice(), &self.shared);
        if self.spec.delay_us > 0 {
            let h = mix(x[0].to_bits() ^ seq as u64);
            std::thread::sleep(std::time::Duration::from_micros(h % self.spec.delay_us));
        }
        if self.shared.logging {
            self.shared.log.lock().unwrap().push(Eval {
                seq,
                inst: self.inst,
                x: x.as_slice().to_vec(),
                v,
            });
        }
        v
    }
}

impl ObjectiveFunction for Obj {
    fn evaluate(&mut self, x: &DVector<f64>) -> f64 {
        self.eval(x)
    }
}

impl ParallelObjectiveFunction for Obj {
    fn evaluate_parallel(&self, x: &DVector<f64>) -> f64 {
        self.eval(x)
    }
}

type Closure = Box<dyn FnMut(&DVector<f64>) -> f64>;
type ParallelClosure = Box<dyn Fn(&DVector<f64>) -> f64 + Sync>;

/// An objective function, possibly inside one of the wrappers the library provides
pub enum Wrapped {
    Plain(Obj),
    Closure(Closure),
    ParallelClosure(ParallelClosure),
    /// a borrowed closure
    Borrowed(Closure),
    Boxed(Box<dyn ObjectiveFunction>),
    BoxedParallel(Box<dyn ParallelObjectiveFunction>),
    Scaled(Scale<Obj>),
    /// a borrowed Scale
    BorrowedScale(Scale<Obj>),
    ClonedScale(Scale<Obj>),
    ScaledTwice(Scale<Scale<Obj>>),
    ScaledBoxed(Scale<Box<dyn ObjectiveFunction>>),
    ScaledBoxedParallel(Scale<Box<dyn ParallelObjectiveFunction>>),
    ScaledClosure(Scale<Closure>),
}

// Functions that can only be used sequentially are only used sequentially
unsafe impl Sync for Wrapped {}

impl Wrapped {
    pub fn new(obj: Obj, wrap: Option<&Value>) -> Self {
        let w = match wrap {
            None | Some(Value::Null) => return Wrapped::Plain(obj),
            Some(w) => w,
        };
        let scales = |k: &str| dec_vec(&w[k]);
        let closure = |obj: Obj| -> Closure { Box::new(move |x: &DVector<f64>| obj.eval(x)) };
        match w["t"].as_str().unwrap() {
            "plain" => Wrapped::Plain(obj),
            "closure" => Wrapped::Closure(closure(obj)),
            "closurep" => Wrapped::ParallelClosure(Box::new(move |x: &DVector<f64>| obj.eval(x))),
            "closurem" => Wrapped::Borrowed(closure(obj)),
            "box" => Wrapped::Boxed(Box::new(obj)),
            "boxp" => Wrapped::BoxedParallel(Box::new(obj)),
            "scale" => Wrapped::Scaled(Scale::new(obj, scales("s"))),
            "scalem" => Wrapped::BorrowedScale(Scale::new(obj, scales("s"))),
            "scalecl" => Wrapped::ClonedScale(Scale::new(obj, scales("s")).clone()),
            "scale2" => {
                Wrapped::ScaledTwice(Scale::new(Scale::new(obj, scales("s")), scales("s2")))
            }
            "scalebox" => Wrapped::ScaledBoxed(Scale::new(Box::new(obj), scales("s"))),
            "scaleboxp" => Wrapped::ScaledBoxedParallel(Scale::new(Box::new(obj), scales("s"))),
            "boxscale" => Wrapped::Boxed(Box::new(Scale::new(obj, scales("s")))),
            "boxpscale" => Wrapped::BoxedParallel(Box::new(Scale::new(obj, scales("s")))),
            "scalec" => Wrapped::ScaledClosure(Scale::new(closure(obj), scales("s"))),
            t => panic!("wrapper {}", t),
        }
    }

    /// Unwraps the objective function again where that is possible
    pub fn into_obj(self) -> Option<Obj> {
        match self {
            Wrapped::Plain(o) => Some(o),
            Wrapped::Scaled(s) | Wrapped::BorrowedScale(s) | Wrapped::ClonedScale(s) => {
                Some(s.into_wrapped_function())
            }
            Wrapped::ScaledTwice(s) => Some(s.into_wrapped_function().into_wrapped_function()),
            _ => None,
        }
    }

    pub fn scales(&self) -> Option<Vec<f64>> {
        let s = match self {
            Wrapped::Scaled(s) | Wrapped::BorrowedScale(s) | Wrapped::ClonedScale(s) => s.scales(),
            Wrapped::ScaledTwice(s) => s.scales(),
            Wrapped::ScaledBoxed(s) => s.scales(),
            Wrapped::ScaledBoxedParallel(s) => s.scales(),
            Wrapped::ScaledClosure(s) => s.scales(),
            _ => return None,
        };
        Some(s.as_slice().to_vec())
    }

    pub fn apply_scale(&self, x: &DVector<f64>) -> Option<DVector<f64>> {
        Some(match self {
            Wrapped::Scaled(s) | Wrapped::BorrowedScale(s) | Wrapped::ClonedScale(s) => s.scale(x),
            Wrapped::ScaledTwice(s) => s.scale(x),
            Wrapped::ScaledBoxed(s) => s.scale(x),
            Wrapped::ScaledBoxedParallel(s) => s.scale(x),
            Wrapped::ScaledClosure(s) => s.scale(x),
            _ => return None,
        })
    }
}

/// So that a reference is what is evaluated, not what it refers to
fn sequential<F: ObjectiveFunction>(mut f: F, x: &DVector<f64>) -> f64 {
    f.evaluate(x)
}

fn parallel<F: ParallelObjectiveFunction>(f: F, x: &DVector<f64>) -> f64 {
    f.evaluate_parallel(x)
}

impl ObjectiveFunction for Wrapped {
    fn evaluate(&mut self, x: &DVector<f64>) -> f64 {
        match self {
            Wrapped::Plain(o) => ObjectiveFunction::evaluate(o, x),
            Wrapped::Closure(o) => ObjectiveFunction::evaluate(o, x),
            Wrapped::ParallelClosure(o) => ParallelObjectiveFunction::evaluate_parallel(o, x),
            Wrapped::Borrowed(o) => sequential(&mut **o, x),
            Wrapped::Boxed(o) => ObjectiveFunction::evaluate(o, x),
            Wrapped::BoxedParallel(o) => ParallelObjectiveFunction::evaluate_parallel(o, x),
            Wrapped::Scaled(o) | Wrapped::ClonedScale(o) => ObjectiveFunction::evaluate(o, x),
            Wrapped::BorrowedScale(o) => sequential(o, x),
            Wrapped::ScaledTwice(o) => ObjectiveFunction::evaluate(o, x),
            Wrapped::ScaledBoxed(o) => ObjectiveFunction::evaluate(o, x),
            Wrapped::ScaledBoxedParallel(o) => ParallelObjectiveFunction::evaluate_parallel(o, x),
            Wrapped::ScaledClosure(o) => ObjectiveFunction::evaluate(o, x),
        }
    }
}

impl ParallelObjectiveFunction for Wrapped {
    fn evaluate_parallel(&self, x: &DVector<f64>) -> f64 {
        match self {
            Wrapped::Plain(o) => o.evaluate_parallel(x),
            Wrapped::ParallelClosure(o) => parallel(&**o, x),
            Wrapped::BoxedParallel(o) => o.evaluate_parallel(x),
            Wrapped::Scaled(o) | Wrapped::ClonedScale(o) => o.evaluate_parallel(x),
            Wrapped::BorrowedScale(o) => parallel(o, x),
            Wrapped::ScaledTwice(o) => o.evaluate_parallel(x),
            Wrapped::ScaledBoxedParallel(o) => o.evaluate_parallel(x),
            _ => panic!("driver: not a parallel function"),
        }
    }
}

impl ObjectiveFunction for &mut Wrapped {
    fn evaluate(&mut self, x: &DVector<f64>) -> f64 {
        ObjectiveFunction::evaluate(*self, x)
    }
}
