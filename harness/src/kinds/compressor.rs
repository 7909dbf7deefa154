//! Compressor.tla and Follower.tla (C18)
use crate::common::*;
use crate::kinds::envelope::time_of;
use rawdio::{prelude::*, *};
use serde_json::Value;

fn db(x: f64) -> f64 {
    10f64.powf(x / 20.0)
}

pub fn run(cx: &mut Cx, trace: &Value) -> Result<(), String> {
    let channels = cx.channels(3);
    let sample_rate = cx.pick(&[48_000usize, 44_100, 1000]);
    let max_frames = cx.max_frames();
    let mut rig = Rig::started(sample_rate, channels, max_frames);
    let mut node = Compressor::new(rig.context.as_ref(), channels);
    node.node.connect_to_input();
    node.node.connect_to_output();
    node.attack().set_value_now(0.0);
    node.release().set_value_now(0.0);
    let mut log: Vec<String> = Vec::new();
    for step in trace.a() {
        let op = step["op"].a();
        log.push(step["op"].to_string());
        match op[0].s() {
            "set" => {
                node.threshold().set_value_now(op[1].f());
                node.knee().set_value_now(op[2].f());
                node.ratio().set_value_now(if op[3].i() == 0 { f64::MAX } else { op[3].f() });
                node.wet().set_value_now(op[4].f() / 4.0);
                node.dry().set_value_now(op[5].f() / 4.0);
            }
            "process" => {
                let n = op[1].u();
                let (wet, dry) = (op[3].f() / 4.0, op[4].f() / 4.0);
                let parts = cx.partition(n);
                let mut input: Audio = vec![Vec::new(); channels];
                for i in 0..n {
                    let level = db(step["want"][i][0].f());
                    // Weights with a mean of one
                    let weights: Vec<f64> = match (channels, cx.range(0, 2)) {
                        (1, _) | (_, 0) => vec![1.0; channels],
                        (2, 1) => vec![2.0, 0.0],
                        (2, _) => vec![0.25, 1.75],
                        (3, 1) => vec![0.0, 0.0, 3.0],
                        (3, _) => vec![1.5, 1.0, 0.5],
                        // All in one channel, or in one half more than in the other
                        (_, 1) => {
                            let at = cx.range(0, channels - 1);
                            (0..channels).map(|c| if c == at { channels as f64 } else { 0.0 }).collect()
                        }
                        _ => (0..channels).map(|c| match (channels % 2, c < channels / 2) {
                            (1, _) if c == channels - 1 => 1.0,
                            (_, true) => 0.5,
                            _ => 1.5,
                        }).collect(),
                    };
                    for c in 0..channels {
                        let sign = if (i + c) % 2 == 0 { 1.0 } else { -1.0 };
                        input[c].push((sign * weights[c] * level) as f32);
                    }
                }
                let out = rig.blocks(&input, channels, &parts);
                for c in 0..channels {
                    for i in 0..n {
                        let w = &step["want"][i];
                        let gain = db(w[1][0].f() / w[1][1].f());
                        let want = wet * gain + dry;
                        let x = input[c][i] as f64;
                        if x == 0.0 {
                            cx.ensure(out[c][i] == 0.0, || format!("channel {c} frame {i}: {} from silence", out[c][i]))?;
                            continue;
                        }
                        cx.eq(|| format!("gain of channel {c} frame {i} ({} dB) of {} ({parts:?}) after {}", w[0], step["op"], log.join(" ")), out[c][i] as f64 / x, want, 1e-4)?;
                    }
                }
            }
            o => panic!("harness: {o}"),
        }
    }
    Ok(())
}

pub fn follower(cx: &mut Cx, trace: &Value) -> Result<(), String> {
    let p = cx.params.clone();
    let own = p["channels"].u();
    let channels = own * cx.copies();
    let threshold = p["threshold"].f();
    let sample_rate = cx.pick(&[1000usize, 500, 8000, 48_000]);
    let max_frames = cx.max_frames();
    let mut rig = Rig::started(sample_rate, channels, max_frames);
    let mut node = Compressor::new(rig.context.as_ref(), channels);
    node.node.connect_to_input();
    node.node.connect_to_output();
    let milliseconds = |quarters: usize| time_of(quarters, sample_rate).as_secs_f64() * 1000.0;
    node.attack().set_value_now(milliseconds(p["attack"].u()));
    node.release().set_value_now(milliseconds(p["release"].u()));
    node.ratio().set_value_now(f64::MAX);
    // Input 16 is 0 dB
    node.threshold().set_value_now(20.0 * (threshold / 16.0).log10());
    // One change is taken at a time
    rig.blocks(&vec![vec![0.0; 2]; channels], channels, &[1, 1]);
    let mut log: Vec<String> = Vec::new();
    for step in trace.a() {
        let op = step["op"].a();
        log.push(format!("{} {}", step["op"], step["x"]));
        if op[0].s() == "set" {
            node.attack().set_value_now(milliseconds(op[1].u()));
            node.release().set_value_now(milliseconds(op[2].u()));
            continue;
        }
        let n = op[1].u();
        let parts = cx.partition(n);
        let input: Audio = (0..channels).map(|c| step["x"][c % own].a().iter().map(|x| x.f() as f32 / 16.0).collect()).collect();
        let out = rig.blocks(&input, channels, &parts);
        for i in 0..n {
            let mean = step["total"][i].f() / 65536.0 / own as f64;
            let gain = if mean > threshold { threshold / mean } else { 1.0 };
            for c in 0..channels {
                let x = input[c][i] as f64;
                if x != 0.0 {
                    cx.eq(|| format!("gain of channel {c} frame {i} ({parts:?}) after {}", log.join("; ")), out[c][i] as f64 / x, gain, 1e-3)?;
                }
            }
        }
    }
    Ok(())
}
