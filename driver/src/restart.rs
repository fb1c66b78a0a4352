//! A `Restarter`, observed through the hooks of `cmaes::verif`.

use std::cell::RefCell;
use std::rc::Rc;
use std::time::{Duration, Instant};

use cmaes::parameters::Parameters;
use cmaes::restart::{Local, RestartOptions, RestartStrategy, BIPOP, IPOP};
#[cfg(cmaes_verif)]
use cmaes::verif::{set_observer, Event};
use cmaes::{CMAESOptions, DVector};
use serde_json::{json, Map, Value};

use crate::num::*;
use crate::obj::{Eval, Obj};
use crate::run::{apply_options, enc_ind, enc_params, enc_result, mode};
use crate::{caught, take_output};

struct Run {
    parameters: Parameters,
    mean: DVector<f64>,
    /// calls made before this run
    calls: usize,
    end: Option<(Value, usize, usize, usize)>,
    started: Duration,
    finished: Duration,
}

fn strategy(s: &Value) -> Result<RestartStrategy, String> {
    let factor = s.get("factor").map(dec);
    let inc = s.get("inc").map(|x| dec_u64(x) as usize);
    match s["t"].as_str().unwrap() {
        "local" => Local::new(s["max_runs"].as_u64().unwrap() as usize, factor)
            .map(RestartStrategy::Local)
            .map_err(|e| format!("{:?}", e)),
        "ipop" => match inc {
            Some(inc) => IPOP::new(inc)
                .map(RestartStrategy::IPOP)
                .map_err(|e| format!("{:?}", e)),
            None => Ok(RestartStrategy::IPOP(IPOP::default())),
        },
        "bipop" => {
            if s.get("default").is_some() {
                Ok(RestartStrategy::BIPOP(BIPOP::default()))
            } else {
                BIPOP::new(factor, inc)
                    .map(RestartStrategy::BIPOP)
                    .map_err(|e| format!("{:?}", e))
            }
        }
        t => panic!("strategy {}", t),
    }
}

/// A digest of evaluations in their order
fn digest(log: &[Eval]) -> String {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    let mut put = |x: u64| {
        for i in 0..8 {
            h ^= x >> (8 * i) & 0xff;
            h = h.wrapping_mul(0x100_0000_01b3);
        }
    };
    for e in log {
        for x in &e.x {
            put(x.to_bits());
        }
        put(e.v.to_bits());
    }
    format!("{:016x}", h)
}

/// Tells the objective function about a new run
fn begin(obj: &Obj, p: &Parameters) {
    let window = 10 + (30.0 * p.dim() as f64 / p.lambda() as f64).ceil() as usize;
    obj.begin_run(p.lambda(), window);
}

/// A digest that does not depend on the order
fn bag(log: &[Eval]) -> String {
    let mut sum = 0u64;
    for e in log {
        let one = digest(std::slice::from_ref(e));
        sum = sum.wrapping_add(u64::from_str_radix(&one, 16).unwrap());
    }
    format!("{:016x}", sum)
}

pub fn restart_case(case: &Value) -> Value {
    let flag = |k: &str| case.get(k).and_then(|x| x.as_bool()).unwrap_or(false);
    let obj = Obj::new(case.get("obj").unwrap_or(&json!({})), flag("vals") || flag("digest"));
    let dim = case["dim"].as_u64().unwrap() as usize;
    let mut out = Map::new();
    out.insert("id".into(), case["id"].clone());
    out.insert("kind".into(), json!("restart"));

    let strat = match caught(|| strategy(&case["strategy"])) {
        Err(p) => {
            out.insert("panic".into(), json!(p));
            return Value::Object(out);
        }
        Ok(Err(e)) => {
            out.insert("err".into(), json!(e));
            out.insert("stage".into(), json!("strategy"));
            return Value::Object(out);
        }
        Ok(Ok(s)) => s,
    };
    let empty = json!({});
    let defaults = case.get("defaults").unwrap_or(&empty);
    let (lo, hi) = (dec(&case["range"][0]), dec(&case["range"][1]));
    let default_options = || {
        // "mean" and "sigma" of the default options have no meaning for the runs
        let mean = match defaults.get("mean") {
            Some(m) => dec_dvec(m),
            None => DVector::from(vec![0.0; dim]),
        };
        let sigma = defaults.get("sigma").map(dec).unwrap_or(0.5);
        apply_options(CMAESOptions::new(mean, sigma), defaults).0
    };

    let built = caught(|| {
        let get = |k: &str| case.get(k).filter(|x| !x.is_null());
        if case.get("fields").is_some() {
            // everything is set through the public fields
            let mut o = RestartOptions::new(dim, 0.0..=1.0, RestartStrategy::IPOP(IPOP::default()));
            o.strategy = strat;
            o.search_range = lo..=hi;
            if case.get("defaults").is_some() {
                o.default_options = default_options();
            }
            if let Some(x) = get("mode") {
                o.mode = mode(x);
            }
            if let Some(x) = get("pupd") {
                o.parallel_update = x.as_bool().unwrap();
            }
            o.fun_target = get("fun_target").map(dec);
            o.max_function_evals = get("max_evals").map(|x| dec_u64(x) as usize);
            o.max_time = get("max_time").map(|x| Duration::from_nanos(dec_u64(x)));
            o.max_function_evals_per_run = get("max_evals_run").map(|x| dec_u64(x) as usize);
            o.max_generations_per_run = get("max_gens_run").map(|x| dec_u64(x) as usize);
            o.enable_printing = get("print").map_or(false, |x| x.as_bool().unwrap());
            o.seed = get("seed").map(dec_u64);
            return o.build();
        }
        let mut o = RestartOptions::new(dim, lo..=hi, strat);
        if case.get("defaults").is_some() {
            o = o.default_options(default_options());
        }
        if let Some(x) = get("mode") {
            o = o.mode(mode(x));
        }
        if let Some(x) = get("pupd") {
            o = o.parallel_update(x.as_bool().unwrap());
        }
        if let Some(x) = get("fun_target") {
            o = o.fun_target(dec(x));
        }
        if let Some(x) = get("max_evals") {
            o = o.max_function_evals(dec_u64(x) as usize);
        }
        if let Some(x) = get("max_time") {
            o = o.max_time(Duration::from_nanos(dec_u64(x)));
        }
        if let Some(x) = get("max_evals_run") {
            o = o.max_function_evals_per_run(dec_u64(x) as usize);
        }
        if let Some(x) = get("max_gens_run") {
            o = o.max_generations_per_run(dec_u64(x) as usize);
        }
        if let Some(x) = get("print") {
            o = o.enable_printing(x.as_bool().unwrap());
        }
        if let Some(x) = get("seed") {
            o = o.seed(dec_u64(x));
        }
        o.build()
    });
    let restarter = match built {
        Err(p) => {
            out.insert("panic".into(), json!(p));
            return Value::Object(out);
        }
        Ok(Err(e)) => {
            out.insert("err".into(), json!(format!("{:?}", e)));
            out.insert("stage".into(), json!("options"));
            return Value::Object(out);
        }
        Ok(Ok(r)) => r,
    };
    out.insert("seed".into(), json!(restarter.seed().to_string()));

    let runs: Rc<RefCell<Vec<Run>>> = Default::default();
    let start = Instant::now();
    #[cfg(cmaes_verif)]
    {
        let runs = runs.clone();
        let shared = obj.clone();
        set_observer(Some(Box::new(move |event| {
            let mut runs = runs.borrow_mut();
            match event {
                Event::New { parameters, initial_mean } => {
                    begin(&shared, &parameters);
                    runs.push(Run {
                        parameters,
                        mean: initial_mean,
                        calls: shared.calls(),
                        end: None,
                        started: start.elapsed(),
                        finished: Duration::ZERO,
                    })
                }
                Event::RunEnd { data, generation, function_evals } => {
                    if let Some(run) = runs.last_mut() {
                        run.end =
                            Some((enc_result(&data), generation, function_evals, shared.calls()));
                        run.finished = start.elapsed();
                    }
                }
            }
        })));
    }
    take_output();
    let variant = case.get("variant").and_then(|x| x.as_str()).unwrap_or("run");
    let fresh = std::cell::Cell::new(0usize);
    let make = || {
        fresh.set(fresh.get() + 1);
        obj.instance()
    };
    let result = caught(|| match variant {
        "run" => restarter.run(make),
        "reuse" => restarter.run_with_reuse(make()),
        "par" => restarter.run_parallel(make),
        "parreuse" => restarter.run_parallel_with_reuse(make()),
        v => panic!("driver: variant {}", v),
    });
    #[cfg(cmaes_verif)]
    set_observer(None);
    out.insert("hooks".into(), json!(cfg!(cmaes_verif)));
    out.insert("elapsed".into(), enc_int(start.elapsed().as_micros() as u64));
    out.insert("made".into(), json!(fresh.get()));
    out.insert("out".into(), json!(take_output()));
    out.insert("calls".into(), json!(obj.calls()));
    match result {
        Ok(r) => {
            out.insert("best".into(), enc_ind(r.best.as_ref()));
            out.insert("reason".into(), json!(format!("{:?}", r.reason)));
            out.insert("evals".into(), enc_int(r.function_evals as u64));
            out.insert("runs".into(), enc_int(r.runs as u64));
        }
        Err(p) => {
            out.insert("panic".into(), json!(p));
            out.insert("stage".into(), json!("run"));
        }
    }

    let mut log = obj.take_log();
    log.sort_by_key(|e| e.seq);
    let runs = runs.borrow();
    let mut list = vec![];
    for (k, run) in runs.iter().enumerate() {
        let mut m = Map::new();
        m.insert("params".into(), enc_params(&run.parameters));
        m.insert("mean".into(), enc_vec(run.mean.iter()));
        m.insert("calls0".into(), json!(run.calls));
        m.insert("started".into(), enc_int(run.started.as_micros() as u64));
        if let Some((data, generation, evals, calls)) = &run.end {
            m.insert("finished".into(), enc_int(run.finished.as_micros() as u64));
            m.insert("res".into(), data.clone());
            m.insert("gen".into(), enc_int(*generation as u64));
            m.insert("evals".into(), enc_int(*evals as u64));
            m.insert("calls1".into(), json!(calls));
            let evs: Vec<&Eval> =
                log.iter().filter(|e| e.seq >= run.calls && e.seq < *calls).collect();
            let insts: std::collections::BTreeSet<usize> = evs.iter().map(|e| e.inst).collect();
            m.insert("insts".into(), json!(insts));
            let owned: Vec<Eval> = evs
                .iter()
                .map(|e| Eval { seq: e.seq, inst: e.inst, x: e.x.clone(), v: e.v })
                .collect();
            if flag("digest") {
                m.insert("digest".into(), json!(digest(&owned)));
                m.insert("bag".into(), json!(bag(&owned)));
                // A standalone run with the reported parameters
                if flag("alone") {
                    m.insert("alone".into(), alone(case, run, &default_options, k));
                }
            }
            if flag("vals") && owned.len() <= 5000 {
                // all values, and which evaluations are those of the best individual
                m.insert("vals".into(), enc_vec(owned.iter().map(|e| &e.v)));
                let found: Vec<usize> = owned
                    .iter()
                    .enumerate()
                    .filter(|(_, e)| {
                        enc(e.v) == data["best"]["v"] && enc_vec(e.x.iter()) == data["best"]["x"]
                    })
                    .map(|(i, _)| i + 1)
                    .collect();
                m.insert("found".into(), json!(found));
            }
            m.insert("ended".into(), json!(true));
        } else {
            m.insert("ended".into(), json!(false));
        }
        list.push(Value::Object(m));
    }
    out.insert("list".into(), Value::Array(list));
    take_output();
    Value::Object(out)
}

/// A run outside of a restarter with the mean, seed, population size and step size of `run` and the
/// options of the restarter
fn alone(case: &Value, run: &Run, default_options: &dyn Fn() -> CMAESOptions, k: usize) -> Value {
    let get = |key: &str| case.get(key).filter(|x| !x.is_null());
    let p = &run.parameters;
    let mut o = if case.get("defaults").is_some() {
        default_options()
    } else {
        CMAESOptions::new(run.mean.clone(), 0.5)
    };
    o = o
        .initial_mean(run.mean.clone())
        .initial_step_size(p.initial_sigma())
        .population_size(p.lambda())
        .seed(p.seed());
    o.mode = get("mode").map(mode).unwrap_or(cmaes::Mode::Minimize);
    o.parallel_update = get("pupd").map(|x| x.as_bool().unwrap()).unwrap_or(false);
    o.fun_target = get("fun_target").map(dec);
    o.max_generations = get("max_gens_run").map(|x| dec_u64(x) as usize);
    // local runs of BIPOP have a stricter limit, which is checked elsewhere
    o.max_function_evals = if case["strategy"]["t"].as_str() == Some("bipop") && k > 0 {
        p.max_function_evals()
    } else {
        get("max_evals_run").map(|x| dec_u64(x) as usize)
    };
    let obj = Obj::new(case.get("obj").unwrap_or(&json!({})), true);
    let r = caught(|| {
        let mut c = o.build(obj.clone()).unwrap();
        obj.shared.runs.store(k, std::sync::atomic::Ordering::SeqCst);
        begin(&obj, c.parameters());
        let params = enc_params(c.parameters());
        let d = c.run();
        (params, enc_result(&d), c.generation(), c.function_evals())
    });
    let log = obj.take_log();
    match r {
        Ok((params, res, gen, evals)) => json!({
            "params": params, "res": res, "gen": gen, "evals": evals, "digest": digest(&log), "bag": bag(&log), "panic": "",
        }),
        Err(p) => json!({ "panic": p }),
    }
}
