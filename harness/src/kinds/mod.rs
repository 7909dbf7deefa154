use crate::common::*;
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub mod automation;
pub mod params;
pub mod transport;
pub mod sampler;
pub mod events;
pub mod recorder;
pub mod envelope;
pub mod adsr;
pub mod mixer;
pub mod buffer;
pub mod resample;
pub mod oscillator;
pub mod convolution;
pub mod shape;
pub mod compressor;
pub mod biquad;
pub mod conversions;
pub mod lifecycle;
pub mod partition;
pub mod commands;
mod readings;
pub mod session;
pub mod notifiers;
pub mod heap;
pub mod graph;
pub mod lanes;
pub mod zoo;
pub mod probe;

pub struct Kind {
    pub name: &'static str,
    pub run: fn(&mut Cx, &Value) -> Result<(), String>,
    /// The concretisations a behaviour is replayed in
    pub variants: fn(&Value, usize) -> Vec<usize>,
}

fn all<const N: usize>(_: &Value, _: usize) -> Vec<usize> {
    (0..N).collect()
}

/// One concretisation per behaviour, in rotation
fn rotate<const N: usize>(_: &Value, index: usize) -> Vec<usize> {
    vec![index % N]
}

pub fn find(name: &str) -> Kind {
    let kinds = [
        Kind { name: "automation", run: automation::run, variants: rotate::<1> },
        Kind { name: "params", run: params::run, variants: rotate::<2> },
        Kind { name: "transport", run: transport::run, variants: rotate::<1> },
        Kind { name: "sampler", run: sampler::run, variants: rotate::<1> },
        Kind { name: "events", run: events::run, variants: rotate::<1> },
        Kind { name: "recorder", run: recorder::run, variants: rotate::<1> },
        Kind { name: "envelope", run: envelope::run, variants: rotate::<1> },
        Kind { name: "mixer", run: mixer::run, variants: rotate::<1> },
        Kind { name: "buffer", run: buffer::run, variants: rotate::<1> },
        Kind { name: "resample", run: resample::run, variants: rotate::<1> },
        Kind { name: "oscillator", run: oscillator::run, variants: rotate::<1> },
        Kind { name: "harmonics", run: oscillator::harmonics, variants: rotate::<1> },
        Kind { name: "convolution", run: convolution::run, variants: rotate::<1> },
        Kind { name: "shape", run: shape::run, variants: rotate::<1> },
        Kind { name: "compressor", run: compressor::run, variants: rotate::<1> },
        Kind { name: "follower", run: compressor::follower, variants: rotate::<1> },
        Kind { name: "biquad", run: biquad::run, variants: rotate::<1> },
        Kind { name: "response", run: biquad::response, variants: rotate::<1> },
        Kind { name: "time", run: conversions::time, variants: rotate::<1> },
        Kind { name: "levels", run: conversions::levels, variants: rotate::<1> },
        Kind { name: "lifecycle", run: lifecycle::run, variants: rotate::<1> },
        Kind { name: "partition", run: partition::run, variants: rotate::<12> },
        Kind { name: "session", run: session::run, variants: rotate::<1> },
        Kind { name: "lanes", run: lanes::run, variants: rotate::<1> },
        Kind { name: "notifiers", run: notifiers::run, variants: rotate::<1> },
        Kind { name: "heap", run: heap::run, variants: rotate::<1> },
        Kind { name: "graph", run: graph::run, variants: rotate::<6> },
    ];
    kinds.into_iter().find(|k| k.name == name).unwrap_or_else(|| panic!("unknown kind {name}"))
}

/// Runs of the real code, for TLC to validate
pub fn record(name: &str, seed: u64, count: usize) -> Value {
    let run: fn(&mut Cx, &mut Vec<Value>) -> Value = match name {
        "adsr" => adsr::record,
        "commands" => commands::record,
        "readings" => readings::record,
        _ => panic!("unknown kind {name}"),
    };
    let mut violations = Vec::new();
    let mut runs = Vec::new();
    for i in 0..count {
        throttle_threads();
        let mut cx = Cx::new(Value::Null, crate::mix_seed(seed, i, 0), i);
        match catch_unwind(AssertUnwindSafe(|| run(&mut cx, &mut violations))) {
            Ok(r) => runs.push(r),
            Err(panic) => violations.push(json!({"message": format!("panic: {}", panic_message(panic)), "run": i, "seed": seed})),
        }
    }
    json!({"violations": violations, "runs": runs})
}
