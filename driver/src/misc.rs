//! Option validation, objective function wrappers and convenience functions.

use cmaes::{Bounds, Constraints, DVector};
use cmaes::{Individual, ObjectiveFunction, ParallelObjectiveFunction};
use serde_json::{json, Value};

use crate::num::*;
use crate::obj::{Obj, Wrapped};
use crate::run::{enc_evals, enc_ind, enc_params, options};
use crate::{caught, take_output};

/// Builds a run and reports what it was built with
pub fn build_case(case: &Value) -> Value {
    let obj = Obj::new(&json!({}), false);
    let id = &case["id"];
    take_output();
    match caught(|| options(&case["opts"]).0.build(obj.clone())) {
        Err(p) => json!({"id": id, "kind": "build", "tag": "panic", "text": p}),
        Ok(Err(e)) => json!({"id": id, "kind": "build", "tag": "err", "text": format!("{:?}", e)}),
        Ok(Ok(c)) => {
            let n = c.mean().len();
            let cov = c.covariance_matrix();
            json!({
                "id": id, "kind": "build", "tag": "ok", "text": "",
                "params": enc_params(c.parameters()),
                "gen": c.generation(), "evals": c.function_evals(), "calls": obj.calls(),
                "mean": enc_vec(c.mean().iter()), "sigma": enc(c.sigma()),
                "cov": (0..n).map(|i| (0..n).map(|j| enc(cov[(i, j)])).collect::<Vec<_>>())
                    .collect::<Vec<_>>(),
                "eig": enc_vec(c.eigenvalues().iter()), "ar": enc(c.axis_ratio()),
                "cur": enc_ind(c.current_best_individual()),
                "best": enc_ind(c.overall_best_individual()),
                "plot": match c.get_plot() { Some(p) => json!(p.len()), None => json!(-1) },
                "out": take_output(),
            })
        }
    }
}

/// Evaluates a wrapped function directly
pub fn scale_case(case: &Value) -> Value {
    let obj = Obj::new(&case["obj"], true);
    let mut w = Wrapped::new(obj.clone(), case.get("wrap"));
    let mut steps = vec![];
    for x in case["points"].as_array().unwrap() {
        let x = dec_dvec(x);
        for par in [false, true] {
            if par && !case["par"].as_bool().unwrap() {
                continue;
            }
            let before = x.clone();
            let v = caught(|| {
                if par {
                    w.evaluate_parallel(&x)
                } else {
                    ObjectiveFunction::evaluate(&mut w, &x)
                }
            });
            steps.push(json!({
                "x": enc_vec(before.iter()),
                "par": par,
                "panic": v.as_ref().err().cloned().unwrap_or_default(),
                "ret": enc(v.unwrap_or(f64::NAN)),
                "evs": enc_evals(&obj.take_log()),
                "scaled": w.apply_scale(&x).map(|s| enc_vec(s.iter())).unwrap_or(json!([])),
                "scales": w.scales().map(|s| enc_vec(&s)).unwrap_or(json!([])),
            }));
        }
    }
    let unwrapped = w.into_obj().map(|o| o.inst == obj.inst);
    json!({"id": case["id"], "kind": "scale", "steps": steps, "unwrapped": unwrapped})
}

/// Asks the box constraints about points
pub fn bounds_case(case: &Value) -> Value {
    let b = Bounds { lower: dec_vec(&case["lo"]), upper: dec_vec(&case["hi"]) };
    let boxed: Box<dyn Constraints> = Box::new(b.clone());
    let asked: Vec<Value> = case["points"]
        .as_array()
        .unwrap()
        .iter()
        .flat_map(|x| {
            let x = dec_dvec(x);
            [b.meets_constraints(&x), boxed.clone().meets_constraints(&x)]
                .map(|ok| json!({"x": enc_vec(x.iter()), "ok": ok}))
        })
        .collect();
    json!({"id": case["id"], "kind": "bounds", "lo": enc_vec(b.lower.iter()),
           "hi": enc_vec(b.upper.iter()), "asked": asked})
}

/// Counts the coordinates of the points of first generations (whose distribution is known without looking
/// at the run) by cells; far more of them than could be written down
pub fn cells_case(case: &Value) -> Value {
    let edges = dec_vec(&case["edges"]);
    let n = case["n"].as_u64().unwrap() as usize;
    let mut hist = vec![0u64; edges.len() + 1];
    let mut calls = 0u64;
    for seed in case["seeds"].as_array().unwrap() {
        let count = std::sync::Mutex::new((&mut hist, &mut calls));
        let (o, _) = options(&case["opts"]);
        let sigma = dec(&case["opts"]["sigma"]);
        let mean = dec_vec(&case["opts"]["mean"]);
        let f = |x: &DVector<f64>| {
            let mut c = count.lock().unwrap();
            for (v, m) in x.iter().zip(&mean) {
                let z = (v - m) / sigma;
                c.0[edges.partition_point(|e| *e <= z)] += 1;
            }
            *c.1 += 1;
            0.0
        };
        let mut c = o.seed(dec_u64(seed)).build(f).unwrap();
        let _ = if case["par"].as_bool().unwrap_or(false) { c.next_parallel() } else { c.next() };
    }
    json!({"id": case["id"], "kind": "cells", "n": calls as usize * n, "hist": hist})
}

/// Calls one of the convenience functions
pub fn conv_case(case: &Value) -> Value {
    let obj = Obj::new(&case["obj"], true);
    let mean = dec_dvec(&case["opts"]["mean"]);
    let sigma = dec(&case["opts"]["sigma"]);
    let f = Wrapped::new(obj.instance(), case.get("wrap"));
    take_output();
    let r: Result<Individual, String> = caught(|| {
        let mean: DVector<f64> = mean;
        match case["fn"].as_str().unwrap() {
            "fmin" => cmaes::fmin(f, mean, sigma),
            "fmin_parallel" => cmaes::fmin_parallel(f, mean, sigma),
            "fmax" => cmaes::fmax(f, mean, sigma),
            "fmax_parallel" => cmaes::fmax_parallel(f, mean, sigma),
            x => panic!("driver: function {}", x),
        }
    });
    let out = take_output();
    let mut evs = obj.take_log();
    evs.sort_by_key(|e| e.seq);
    json!({
        "id": case["id"], "kind": "conv", "fn": case["fn"],
        "panic": r.as_ref().err().cloned().unwrap_or_default(),
        "ret": enc_ind(r.ok().as_ref()),
        "calls": obj.calls(),
        "out": out,
        "evs": if case["evals"].as_bool().unwrap_or(false) { enc_evals(&evs) } else { json!([]) },
    })
}
