//! Shape.tla (C17)
use crate::common::*;
use rawdio::{prelude::*, *};
use serde_json::Value;

enum Node {
    Gain(Gain),
    Pan(Pan),
    Shaper(Waveshaper),
}

/// The overdrive parameter that multiplies by this factor
fn overdrive(factor: f64) -> f64 {
    20.0 * factor.log10() / 12.0
}

pub fn run(cx: &mut Cx, trace: &Value) -> Result<(), String> {
    let p = cx.params.clone();
    let own = p["channels"].u();
    // A pan is of left and right
    let channels = if p["kind"].s() == "pan" { own } else { own * cx.copies() };
    let sample_rate = cx.pick(&[48_000usize, 44_100, 997]);
    let max_frames = cx.max_frames();
    let mut rig = Rig::started(sample_rate, channels, max_frames);
    let context = rig.context.as_ref();
    let mut node = match p["kind"].s() {
        "gain" => Node::Gain(Gain::new(context, channels)),
        "pan" => Node::Pan(Pan::new(context, channels)),
        _ => Node::Shaper(match p["shaper"].s() {
            "jagged" => Waveshaper::new(context, channels, &|x: f32| {
                let k = (x * 255.0).round() as i64;
                (10 * (((k + 255) * 37) % 101) - 500) as f32 / 1000.0
            }),
            "square" => Waveshaper::new(context, channels, &|x: f32| x * x),
            "offset" => Waveshaper::new(context, channels, &|_| 0.25),
            "identity" => if cx.chance(0.5) {
                Waveshaper::new(context, channels, &|x: f32| x)
            } else {
                // Every sample is below the threshold
                Waveshaper::soft_saturator(context, channels, Level::unity())
            },
            "clip" => Waveshaper::hard_clip(context, channels, Level::from_linear(0.4)),
            "tanh" => Waveshaper::tanh(context, channels),
            "soft" => Waveshaper::soft_saturator(context, channels, Level::from_linear(0.2)),
            s => panic!("harness: {s}"),
        }),
    };
    let graph_node = match &node {
        Node::Gain(n) => &n.node,
        Node::Pan(n) => &n.node,
        Node::Shaper(n) => &n.node,
    };
    graph_node.connect_to_input();
    graph_node.connect_to_output();
    // A waveshaper is not linear
    let loudness = if p["kind"].s() == "shaper" { 1.0 } else { cx.loudness() };
    let mut log: Vec<String> = Vec::new();
    for step in trace.a() {
        let op = step["op"].a();
        log.push(step["op"].to_string());
        match op[0].s() {
            "set" => {
                let v = op[2].f();
                match (&mut node, op[1].i()) {
                    (Node::Gain(n), _) => n.gain().set_value_now(v / 4.0),
                    (Node::Pan(n), _) => n.pan().set_value_now(v / 4.0),
                    (Node::Shaper(n), 1) => n.overdrive().set_value_now(overdrive(v)),
                    (Node::Shaper(n), _) => n.mix().set_value_now(v / 4.0),
                }
            }
            "process" => {
                let n = op[1].u();
                let parts = cx.partition(n);
                let input: Audio = (0..channels).map(|c| step["x"][c % own].a().iter().map(|j| (j.f() / 510.0) as f32 * loudness).collect()).collect();
                let out = rig.blocks(&input, channels, &parts);
                for c in 0..channels {
                    for i in 0..n {
                        let w = &step["want"][c % own][i];
                        let want = w[0].f() / 2000.0 / w[1].f() + w[2].f() / 4.0 / 510.0;
                        // Curves given in thousandths, and points found in single precision
                        let tol = if p["kind"].s() == "shaper" { 1.5e-3 } else { 1e-6 };
                        cx.eq(|| format!("channel {c} frame {i} (input {}) of {} ({parts:?}) after {}", step["x"][c % own][i], step["op"], log.join(" ")),
                            (out[c][i] / loudness) as f64, want, tol)?;
                    }
                }
            }
            o => panic!("harness: {o}"),
        }
    }
    Ok(())
}
