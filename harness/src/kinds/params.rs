//! Params.tla (C05): every parameter of two of every node, read back
use crate::common::*;
use rawdio::{prelude::*, *};
use serde_json::Value;
use std::sync::atomic::Ordering;

enum Node {
    Gain(Gain), Pan(Pan), Biquad(Biquad), Compressor(Compressor), Waveshaper(Waveshaper), Oscillator(Oscillator), Convolution(Convolution),
}

impl Node {
    fn new(context: &dyn Context, kind: &str, variant: usize) -> Self {
        let channels = 1 + variant % 2;
        match kind {
            "gain" => Node::Gain(Gain::new(context, channels)),
            "pan" => Node::Pan(Pan::new(context, 2)),
            "biquad" => Node::Biquad(Biquad::new(context, channels, [BiquadFilterType::LowPass, BiquadFilterType::HighShelf][variant % 2])),
            "compressor" => Node::Compressor(Compressor::new(context, channels)),
            "waveshaper" => Node::Waveshaper(if variant % 2 == 0 { Waveshaper::tanh(context, channels) } else { Waveshaper::hard_clip(context, channels, Level::unity()) }),
            "oscillator" => Node::Oscillator(if variant % 2 == 0 { Oscillator::sine(context, 440.0, channels) } else { Oscillator::new(context, 440.0, channels, vec![0.0, 1.0, 0.5]) }),
            "convolution" => Node::Convolution(Convolution::new(context, channels, OwnedAudioBuffer::new(3, channels, context.get_sample_rate()))),
            o => panic!("harness: {o}"),
        }
    }

    fn node(&self) -> &GraphNode {
        match self {
            Node::Gain(n) => &n.node, Node::Pan(n) => &n.node, Node::Biquad(n) => &n.node, Node::Compressor(n) => &n.node,
            Node::Waveshaper(n) => &n.node, Node::Oscillator(n) => &n.node, Node::Convolution(n) => &n.node,
        }
    }

    fn parameter(&mut self, name: &str) -> &mut AudioParameter {
        match (self, name) {
            (Node::Gain(n), "gain") => n.gain(),
            (Node::Pan(n), "pan") => n.pan(),
            (Node::Biquad(n), "frequency") => n.frequency(),
            (Node::Biquad(n), "q") => n.q(),
            (Node::Biquad(n), "shelf_gain") => n.shelf_gain(),
            (Node::Biquad(n), "gain") => n.gain(),
            (Node::Compressor(n), "attack") => n.attack(),
            (Node::Compressor(n), "release") => n.release(),
            (Node::Compressor(n), "ratio") => n.ratio(),
            (Node::Compressor(n), "threshold") => n.threshold(),
            (Node::Compressor(n), "knee") => n.knee(),
            (Node::Compressor(n), "wet") => n.wet(),
            (Node::Compressor(n), "dry") => n.dry(),
            (Node::Waveshaper(n), "overdrive") => n.overdrive(),
            (Node::Waveshaper(n), "mix") => n.mix(),
            (Node::Oscillator(n), "frequency") => n.frequency(),
            (Node::Oscillator(n), "gain") => n.gain(),
            (Node::Convolution(n), "wet") => n.wet(),
            (Node::Convolution(n), "dry") => n.dry(),
            (_, o) => panic!("harness: {o}"),
        }
    }
}

const INF: i64 = 2_000_000_000;

fn number(v: &Value) -> f64 {
    match v[1].s() {
        "12dB" => 10f64.powf(12.0 / 20.0),
        "sqrt1/2" => 0.5f64.sqrt(),
        _ => v[0].f() / 1000.0,
    }
}

const TYPES: [&str; 14] = ["gain", "gain", "pan", "pan", "biquad", "biquad", "compressor", "compressor", "waveshaper", "waveshaper",
                           "oscillator", "oscillator", "convolution", "convolution"];

pub fn run(cx: &mut Cx, trace: &Value) -> Result<(), String> {
    let sample_rate = 1 << cx.range(6, 16);
    let max_frames = cx.max_frames();
    let mut rig = Rig::started(sample_rate, 2, max_frames);
    let mixdown = Gain::new(rig.context.as_ref(), 2);
    mixdown.node.connect_to_output();
    let mut nodes: Vec<Node> = TYPES.iter().enumerate().map(|(i, t)| Node::new(rig.context.as_ref(), t, i + cx.variant)).collect();
    for n in &nodes {
        n.node().connect_to(&mixdown.node);
    }
    let mut log: Vec<String> = Vec::new();
    for step in trace.a() {
        let op = step["op"].a();
        log.push(step["op"].to_string());
        if op[0].s() == "process" {
            let parts = cx.partition(op[1].u());
            rig.run(2, &parts);
        } else {
            let p = nodes[op[1].u() - 1].parameter(op[2].s());
            let v = op[3].f() / 1000.0;
            match op[0].s() {
                "now" => p.set_value_now(v),
                "set" => p.set_value_at_time(v, samples(op[4].f(), sample_rate)),
                "ramp" => p.linear_ramp_to_value(v, samples(op[4].f(), sample_rate), samples(op[5].f(), sample_rate)),
                o => panic!("harness: {o}"),
            }
        }
        for e in step["values"].a() {
            let (i, name) = (e["i"].u(), e["p"].s());
            let got = nodes[i - 1].parameter(name).get_value().load(Ordering::Acquire);
            let what = || format!("{} {i}, {name}, after {}", TYPES[i - 1], log.join(" "));
            let v = &e["v"];
            if let Some(exact) = v.get("exact") {
                if exact[0].i().abs() >= INF {
                    continue;
                }
                cx.eq(what, got, number(exact), 1e-9)?;
            } else {
                let (a, b) = (number(&v["from"]), number(&v["to"]));
                let slack = 1e-9 * (1.0 + a.abs().max(b.abs()));
                cx.ensure(got >= a.min(b) - slack && got <= a.max(b) + slack,
                          || format!("{}: expected between {a} and {b}, got {got}", what()))?;
            }
        }
    }
    Ok(())
}
