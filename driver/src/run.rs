//! A single `CMAES`, driven by a list of operations and observed after each of them.

use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;

use cmaes::parameters::{Parameters, Weights};
use cmaes::{
    CMAESOptions, Constraints, DVector, Individual, Mode, ObjectiveFunction,
    PlotOptions, TerminationData, CMAES,
};
use serde_json::{json, Map, Value};

use crate::num::*;
use crate::obj::{Eval, Obj, Wrapped};
use crate::{caught, take_output};

/// Constraints that record how they are called
#[derive(Clone)]
pub struct LoggedConstraints {
    spec: Arc<Value>,
    calls: Arc<AtomicUsize>,
    pub log: Arc<Mutex<Vec<(Vec<f64>, bool)>>>,
}

impl std::fmt::Debug for LoggedConstraints {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "LoggedConstraints")
    }
}

impl LoggedConstraints {
    fn new(spec: &Value) -> Self {
        Self {
            spec: Arc::new(spec.clone()),
            calls: Default::default(),
            log: Default::default(),
        }
    }

    pub fn take_log(&self) -> Vec<(Vec<f64>, bool)> {
        std::mem::take(&mut *self.log.lock().unwrap())
    }
}

impl Constraints for LoggedConstraints {
    fn meets_constraints(&self, x: &DVector<f64>) -> bool {
        let n = self.calls.fetch_add(1, Ordering::SeqCst);
        let s = &self.spec;
        let ok = match s["t"].as_str().unwrap() {
            "script" => {
                let script = s["s"].as_array().unwrap();
                match script.get(n) {
                    Some(b) => b.as_i64() == Some(1),
                    None => s["then"].as_i64() == Some(1),
                }
            }
            "half" => x[s["i"].as_u64().unwrap() as usize] >= dec(&s["ge"]),
            "ball" => x.norm() <= dec(&s["r"]),
            "mod" => n as u64 % s["m"].as_u64().unwrap() == s["k"].as_u64().unwrap(),
            "all" => true,
            "none" => false,
            t => panic!("constraints {}", t),
        };
        self.log.lock().unwrap().push((x.as_slice().to_vec(), ok));
        ok
    }

    fn clone_box(&self) -> Box<dyn Constraints> {
        Box::new(self.clone())
    }
}

pub fn mode(v: &Value) -> Mode {
    match v.as_str() {
        None | Some("min") => Mode::Minimize,
        Some("max") => Mode::Maximize,
        Some(m) => panic!("mode {}", m),
    }
}

fn weights(v: &Value) -> Weights {
    match v.as_str().unwrap() {
        "positive" => Weights::Positive,
        "uniform" => Weights::Uniform,
        "negative" => Weights::Negative,
        w => panic!("weights {}", w),
    }
}

/// Applies the options that are present to `o`, in the order in which they are listed under "order"
/// if there is such a list, and through the fields instead of the methods if "fields" is set.
pub fn apply_options(
    mut o: CMAESOptions,
    v: &Value,
) -> (CMAESOptions, Option<LoggedConstraints>) {
    let mut cons = None;
    if let Some(calls) = v.get("calls") {
        // in this order, possibly more than once
        for c in calls.as_array().unwrap() {
            let k = c[0].as_str().unwrap();
            if v["fields"].as_bool().unwrap_or(false) {
                o = apply_field(o, k, &c[1], &mut cons);
            } else {
                o = apply_method(o, k, &c[1], &mut cons);
            }
        }
        return (o, cons);
    }
    let obj = v.as_object().unwrap();
    let keys: Vec<String> = match obj.get("order") {
        Some(k) => k.as_array().unwrap().iter().map(|s| s.as_str().unwrap().into()).collect(),
        None => obj.keys().cloned().collect(),
    };
    let fields = obj.get("fields").and_then(|x| x.as_bool()).unwrap_or(false);
    for k in &keys {
        let x = &obj[k.as_str()];
        if x.is_null() {
            continue;
        }
        if fields {
            o = apply_field(o, k, x, &mut cons);
        } else {
            o = apply_method(o, k, x, &mut cons);
        }
    }
    (o, cons)
}

fn apply_field(
    mut o: CMAESOptions,
    k: &str,
    x: &Value,
    cons: &mut Option<LoggedConstraints>,
) -> CMAESOptions {
    match k {
        "mode" => o.mode = mode(x),
        "pop" => o.population_size = dec_u64(x) as usize,
        "weights" => o.weights = weights(x),
        "cm" => o.cm = dec(x),
        "pupd" => o.parallel_update = x.as_bool().unwrap(),
        "max_evals" => o.max_function_evals = Some(dec_u64(x) as usize),
        "max_gens" => o.max_generations = Some(dec_u64(x) as usize),
        "max_time" => o.max_time = Some(Duration::from_nanos(dec_u64(x))),
        "fun_target" => o.fun_target = Some(dec(x)),
        "tol_fun" => o.tol_fun = dec(x),
        "tol_fun_rel" => o.tol_fun_rel = dec(x),
        "tol_fun_hist" => o.tol_fun_hist = dec(x),
        "tol_x" => o.tol_x = Some(dec(x)),
        "tol_stag" => o.tol_stagnation = Some(dec_u64(x) as usize),
        "tol_x_up" => o.tol_x_up = dec(x),
        "tol_cond" => o.tol_condition_cov = dec(x),
        "seed" => o.seed = Some(dec_u64(x)),
        "set_mean" => o.initial_mean = dec_dvec(x),
        "set_sigma" => o.initial_step_size = dec(x),
        "print" => o.print_gap_evals = Some(dec_u64(x) as usize),
        _ => return apply_method(o, k, x, cons),
    }
    o
}

fn apply_method(
    o: CMAESOptions,
    k: &str,
    x: &Value,
    cons: &mut Option<LoggedConstraints>,
) -> CMAESOptions {
    match k {
        "mode" => o.mode(mode(x)),
        "pop" => o.population_size(dec_u64(x) as usize),
        "weights" => o.weights(weights(x)),
        "cm" => o.cm(dec(x)),
        "pupd" => o.parallel_update(x.as_bool().unwrap()),
        "max_evals" => o.max_function_evals(dec_u64(x) as usize),
        "max_gens" => o.max_generations(dec_u64(x) as usize),
        "max_time" => o.max_time(Duration::from_nanos(dec_u64(x))),
        "fun_target" => o.fun_target(dec(x)),
        "tol_fun" => o.tol_fun(dec(x)),
        "tol_fun_rel" => o.tol_fun_rel(dec(x)),
        "tol_fun_hist" => o.tol_fun_hist(dec(x)),
        "tol_x" => o.tol_x(dec(x)),
        "tol_stag" => o.tol_stagnation(dec_u64(x) as usize),
        "tol_x_up" => o.tol_x_up(dec(x)),
        "tol_cond" => o.tol_condition_cov(dec(x)),
        "seed" => o.seed(dec_u64(x)),
        "set_mean" => o.initial_mean(dec_dvec(x)),
        "set_sigma" => o.initial_step_size(dec(x)),
        "print" => o.enable_printing(dec_u64(x) as usize),
        "plot" => o.enable_plot(PlotOptions::new(
            dec_u64(&x[0]) as usize,
            x[1].as_bool().unwrap_or(false),
        )),
        "bounds" => o.bounds(dec_vec(&x[0]), dec_vec(&x[1])),
        "cons" => {
            let c = LoggedConstraints::new(x);
            *cons = Some(c.clone());
            o.constraints(Box::new(c))
        }
        "max_resamples" => o.max_resamples(match x.as_i64().unwrap() {
            -1 => None,
            n => Some(n as usize),
        }),
        "mean" | "sigma" | "order" | "fields" => o,
        k => panic!("option {}", k),
    }
}

pub fn options(v: &Value) -> (CMAESOptions, Option<LoggedConstraints>) {
    apply_options(CMAESOptions::new(dec_dvec(&v["mean"]), dec(&v["sigma"])), v)
}

pub fn enc_ind(i: Option<&Individual>) -> Value {
    match i {
        Some(i) => json!({"x": enc_vec(i.point.iter()), "v": enc(i.value)}),
        None => json!({"x": [], "v": []}),
    }
}

pub fn enc_params(p: &Parameters) -> Value {
    json!({
        "mode": match p.mode() { Mode::Minimize => "min", Mode::Maximize => "max" },
        "dim": p.dim(),
        "lambda": enc_int(p.lambda() as u64),
        "mu": enc_int(p.mu() as u64),
        "sigma0": enc(p.initial_sigma()),
        "mueff": enc(p.mu_eff()),
        "weights": enc_vec(p.weights().iter()),
        "setting": match p.weights_setting() {
            Weights::Positive => "positive",
            Weights::Uniform => "uniform",
            Weights::Negative => "negative",
        },
        "cc": enc(p.cc()),
        "c1": enc(p.c1()),
        "cs": enc(p.cs()),
        "cmu": enc(p.cmu()),
        "cm": enc(p.cm()),
        "damp": enc(p.damp_s()),
        "max_evals": enc_opt_int(p.max_function_evals()),
        "max_gens": enc_opt_int(p.max_generations()),
        "max_time_us": match p.max_time() {
            Some(t) => enc_int(t.as_micros() as u64),
            None => json!(-1),
        },
        // the same without any capping
        "exact": {
            "max_evals": format!("{:?}", p.max_function_evals()),
            "max_gens": format!("{:?}", p.max_generations()),
            "max_time": match p.max_time() {
                Some(t) => t.as_nanos().to_string(),
                None => "None".to_string(),
            },
            "tol_stag": p.tol_stagnation().to_string(),
            "lambda": p.lambda().to_string(),
        },
        "has_target": p.fun_target().is_some(),
        "fun_target": enc(p.fun_target().unwrap_or(0.0)),
        "tol_fun": enc(p.tol_fun()),
        "tol_fun_rel": enc(p.tol_fun_rel()),
        "tol_fun_hist": enc(p.tol_fun_hist()),
        "tol_x": enc(p.tol_x()),
        "tol_stag": enc_int(p.tol_stagnation() as u64),
        "tol_x_up": enc(p.tol_x_up()),
        "tol_cond": enc(p.tol_condition_cov()),
        "seed": p.seed().to_string(),
        "pupd": p.parallel_update(),
    })
}

pub fn enc_reasons(d: &[cmaes::TerminationReason]) -> Value {
    Value::Array(d.iter().map(|r| json!(format!("{:?}", r))).collect())
}

pub fn enc_result(d: &TerminationData) -> Value {
    json!({
        "reasons": enc_reasons(&d.reasons),
        "cur": enc_ind(d.current_best.as_ref()),
        "best": enc_ind(d.overall_best.as_ref()),
        "mean": enc_vec(d.final_mean.iter()),
    })
}

pub fn enc_evals(log: &[Eval]) -> Value {
    Value::Array(
        log.iter()
            .map(|e| json!({"x": enc_vec(e.x.iter()), "v": enc(e.v)}))
            .collect(),
    )
}

fn enc_cons(log: &[(Vec<f64>, bool)]) -> Value {
    Value::Array(
        log.iter()
            .map(|(x, ok)| json!({"x": enc_vec(x.iter()), "ok": ok}))
            .collect(),
    )
}

fn micros(d: Duration) -> Value {
    enc_int(d.as_micros() as u64)
}

/// All that can be read from a `CMAES`
fn observe<F>(c: &CMAES<F>, full: bool) -> Value {
    let n = c.mean().len();
    let mut m = Map::new();
    m.insert("gen".into(), enc_int(c.generation() as u64));
    m.insert("evals".into(), enc_int(c.function_evals() as u64));
    m.insert("sigma".into(), enc(c.sigma()));
    m.insert("cur".into(), enc_ind(c.current_best_individual()));
    m.insert("best".into(), enc_ind(c.overall_best_individual()));
    m.insert(
        "plot".into(),
        match c.get_plot() {
            Some(p) => json!(p.len()),
            None => json!(-1),
        },
    );
    m.insert("pcap".into(), json!(c.get_plot().map_or(-1, |p| p.capacity() as i64)));
    m.insert("pempty".into(), json!(c.get_plot().map_or(false, |p| p.is_empty())));
    m.insert("mean".into(), enc_vec(c.mean().iter()));
    if full {
        let cov = c.covariance_matrix();
        m.insert(
            "cov".into(),
            Value::Array(
                (0..n)
                    .map(|i| Value::Array((0..n).map(|j| enc(cov[(i, j)])).collect()))
                    .collect(),
            ),
        );
        m.insert("eig".into(), enc_vec(c.eigenvalues().iter()));
        m.insert("ar".into(), enc(c.axis_ratio()));
        m.insert("vec".into(), vectors(c));
    }
    Value::Object(m)
}

#[cfg(cmaes_verif)]
thread_local! {
    static LAST: std::cell::RefCell<Vec<f64>> = const { std::cell::RefCell::new(Vec::new()) };
}

/// The eigenvectors in use as rows of a matrix, empty if they are those of the last call
#[cfg(cmaes_verif)]
fn vectors<F>(c: &CMAES<F>) -> Value {
    let b = cmaes::verif::eigenvectors(c);
    LAST.with(|l| {
        let mut l = l.borrow_mut();
        let seen: Vec<f64> = b.iter().cloned().collect();
        if c.generation() > 0 && *l == seen {
            return json!([]);
        }
        let v = (0..b.nrows())
            .map(|i| Value::Array((0..b.ncols()).map(|j| enc(b[(i, j)])).collect()))
            .collect();
        *l = seen;
        Value::Array(v)
    })
}
#[cfg(not(cmaes_verif))]
fn vectors<F>(_: &CMAES<F>) -> Value {
    json!([])
}

struct Log<'a> {
    obj: &'a Obj,
    cons: &'a Option<LoggedConstraints>,
    evals: bool,
    full: bool,
    out: bool,
    plotdump: bool,
}

/// Sequential and, where the objective function allows it, parallel steps
trait Steps {
    fn par_next(c: &mut CMAES<Self>) -> Option<TerminationData>
    where
        Self: Sized;
    fn par_run(c: &mut CMAES<Self>) -> TerminationData
    where
        Self: Sized;
}

impl Steps for Wrapped {
    fn par_next(c: &mut CMAES<Self>) -> Option<TerminationData> {
        c.next_parallel()
    }
    fn par_run(c: &mut CMAES<Self>) -> TerminationData {
        c.run_parallel()
    }
}

impl<'a> Steps for &'a mut Wrapped {
    fn par_next(_: &mut CMAES<Self>) -> Option<TerminationData> {
        panic!("driver: not a parallel function")
    }
    fn par_run(_: &mut CMAES<Self>) -> TerminationData {
        panic!("driver: not a parallel function")
    }
}

fn is_broken<F>(c: &CMAES<F>) -> bool {
    // The eigendecomposition of a matrix with NaN or infinite entries need not end; such states are
    // only reached by stepping on long after termination
    !c.sigma().is_finite()
        || c.sigma() / c.parameters().initial_sigma() > 1e100
        || c.covariance_matrix().iter().any(|x| !x.is_finite() || x.abs() > 1e100)
        || c.mean().iter().any(|x| !x.is_finite() || x.abs() / c.parameters().initial_sigma().max(1.0) > 1e200)
}

/// Many generations, of which only the values and the changes of the reported reasons are kept
fn long<F: ObjectiveFunction + Steps>(c: &mut CMAES<F>, n: u64, log: &Log) -> Value {
    let (mut vals, mut changes, mut counts) = (vec![], vec![], vec![]);
    let mut last: Option<Vec<String>> = None;
    let mut panicked = String::new();
    for k in 0..n {
        if is_broken(c) {
            break;
        }
        let mut res = None;
        if let Err(p) = caught(|| res = c.next()) {
            panicked = p;
            break;
        }
        let mut ev = log.obj.take_log();
        ev.sort_by_key(|e| e.seq);
        vals.push(Value::Array(ev.iter().map(|e| enc(e.v)).collect()));
        let r: Vec<String> = res
            .map(|d| d.reasons.iter().map(|r| format!("{:?}", r)).collect())
            .unwrap_or_default();
        if last.as_ref() != Some(&r) {
            changes.push(json!({"g": k + 1, "reasons": r}));
            last = Some(r);
        }
        if k % 100 == 0 || k + 1 == n {
            counts.push(json!({"g": k + 1, "gen": c.generation(),
                "evals": c.function_evals(), "calls": log.obj.calls(),
                "cur": c.current_best_individual().map(|i| enc(i.value)),
                "best": c.overall_best_individual().map(|i| enc(i.value))}));
        }
    }
    json!({"op": "long", "panic": panicked, "vals": vals, "changes": changes, "counts": counts})
}

fn do_ops<F: ObjectiveFunction + Steps>(
    c: &mut CMAES<F>,
    ops: &[Value],
    log: &Log,
    steps: &mut Vec<Value>,
    scratch: &str,
) {
    for op in ops {
        let (name, arg) = match op {
            Value::String(s) => (s.as_str(), &Value::Null),
            _ => (op["op"].as_str().unwrap(), op),
        };
        let n = arg.get("n").and_then(|x| x.as_u64()).unwrap_or(1);
        // keep stepping only until (and `past` steps after) the first reason
        let past = arg.get("past").and_then(|x| x.as_u64());
        let every = arg.get("every").and_then(|x| x.as_u64()).unwrap_or(1);
        if name == "long" {
            steps.push(long(c, n, log));
            continue;
        }
        let mut left = None;
        for k in 0..n {
            if is_broken(c) {
                break;
            }
            let t0 = c.elapsed();
            let mut res = None;
            let mut extra = Map::new();
            let r = caught(|| match name {
                "next" => res = c.next(),
                "nextp" => res = F::par_next(c),
                "run" => res = Some(c.run()),
                "runp" => res = Some(F::par_run(c)),
                "observe" => (),
                "sleep" => std::thread::sleep(Duration::from_millis(
                    arg["ms"].as_u64().unwrap(),
                )),
                "plot_add" => c.add_plot_point(),
                "plot_clear" => c.get_mut_plot().unwrap().clear(),
                "plot_save" => {
                    let path = format!("{}/plot{}.png", scratch, steps.len());
                    let r = c.get_plot().unwrap().save_to_file(&path, true);
                    let bytes = std::fs::read(&path).unwrap_or_default();
                    extra.insert(
                        "save".into(),
                        json!({
                            "ok": r.is_ok(),
                            // signature, end marker and size of an image
                            "png": bytes.starts_with(b"\x89PNG\r\n\x1a\n")
                                && bytes.windows(4).any(|w| w == b"IEND"),
                            "size": enc_int(bytes.len() as u64),
                        }),
                    );
                    let _ = std::fs::remove_file(&path);
                }
                "print_info" => c.print_info(),
                "print_init" => c.print_initial_info(),
                "print_final" => c.print_final_info(&[]),
                x => panic!("driver: operation {}", x),
            });
            let t1 = c.elapsed();
            let panicked = r.is_err();
            let stop = {
                let quiet = every > 1 && k % every != 0 && res.is_none() && !panicked;
                let mut ev = log.obj.take_log();
                ev.sort_by_key(|e| e.seq);
                let cons = log.cons.as_ref().map(|c| c.take_log()).unwrap_or_default();
                let out = take_output();
                if !quiet {
                    let mut m = Map::new();
                    m.insert("op".into(), json!(name));
                    m.insert("t0".into(), micros(t0));
                    m.insert("t1".into(), micros(t1));
                    m.insert("calls".into(), json!(log.obj.calls()));
                    m.insert("panic".into(), json!(r.err().unwrap_or_default()));
                    m.insert("done".into(), json!(res.is_some()));
                    m.insert(
                        "res".into(),
                        res.as_ref().map(enc_result).unwrap_or_else(|| json!({})),
                    );
                    if log.evals {
                        m.insert("evs".into(), enc_evals(&ev));
                        m.insert("cons".into(), enc_cons(&cons));
                    }
                    if log.out {
                        m.insert("out".into(), json!(out));
                    }
                    if log.plotdump && c.get_plot().is_some() {
                        m.insert("plotdump".into(), json!(format!("{:?}", c.get_plot().unwrap())));
                    }
                    m.extend(extra);
                    if let Value::Object(o) = observe(c, log.full) {
                        m.extend(o);
                    }
                    steps.push(Value::Object(m));
                }
                if let (Some(past), true) = (past, left.is_none() && res.is_some()) {
                    left = Some(past);
                    past == 0
                } else if let Some(l) = left.as_mut() {
                    *l -= 1;
                    *l == 0
                } else {
                    false
                }
            };
            if panicked {
                return;
            }
            if stop {
                break;
            }
        }
    }
}

pub fn run_case(case: &Value, scratch: &str) -> Value {
    let flag = |k: &str, d: bool| case.get(k).and_then(|x| x.as_bool()).unwrap_or(d);
    let obj = Obj::new(case.get("obj").unwrap_or(&json!({})), flag("evals", true));
    let (opts, cons) = options(&case["opts"]);
    let log = Log {
        obj: &obj,
        cons: &cons,
        evals: flag("evals", true),
        full: flag("full", true),
        out: flag("out", false),
        plotdump: flag("plotdump", false),
    };
    let mut wrapped = Wrapped::new(obj.instance(), case.get("wrap"));
    let empty = vec![];
    let ops = case.get("ops").and_then(|x| x.as_array()).unwrap_or(&empty);
    let mut steps = vec![];
    let mut init = Map::new();
    let mut back = Value::Null;

    take_output();
    if flag("borrow", false) {
        // The run only borrows the objective function
        match caught(|| opts.build(&mut wrapped)) {
            Err(p) => {
                init.insert("panic".into(), json!(p));
            }
            Ok(Err(e)) => {
                init.insert("err".into(), json!(format!("{:?}", e)));
            }
            Ok(Ok(mut c)) => {
                init = init_of(&c, &log);
                do_ops(&mut c, ops, &log, &mut steps, scratch);
            }
        }
    } else {
        match caught(|| opts.build(wrapped)) {
            Err(p) => {
                init.insert("panic".into(), json!(p));
            }
            Ok(Err(e)) => {
                init.insert("err".into(), json!(format!("{:?}", e)));
            }
            Ok(Ok(mut c)) => {
                init = init_of(&c, &log);
                do_ops(&mut c, ops, &log, &mut steps, scratch);
                let f = c.into_objective_function();
                let scales = f.scales();
                back = match f.into_obj() {
                    Some(o) => json!({"inst": o.inst, "calls": o.calls(),
                        "scales": scales.map(|s| enc_vec(&s))}),
                    None => Value::Null,
                };
            }
        }
    }
    json!({"id": case["id"], "kind": "run", "init": init, "steps": steps, "back": back,
           "calls": obj.calls()})
}

fn init_of<F>(c: &CMAES<F>, log: &Log) -> Map<String, Value> {
    let mut init = Map::new();
    init.insert("params".into(), enc_params(c.parameters()));
    init.insert("out".into(), json!(take_output()));
    init.insert("calls".into(), json!(log.obj.calls()));
    if log.plotdump && c.get_plot().is_some() {
        init.insert("plotdump".into(), json!(format!("{:?}", c.get_plot().unwrap())));
    }
    if let Value::Object(o) = observe(c, true) {
        init.extend(o);
    }
    init
}
