//! Oscillator.tla and Harmonics.tla (C15)
use crate::common::*;
use rawdio::{prelude::*, *};
use serde_json::Value;

pub fn run(cx: &mut Cx, trace: &Value) -> Result<(), String> {
    let p = cx.params.clone();
    let sample_rate = p["sr"].u();
    let table: Vec<f64> = p["table"].a().iter().map(|v| v.f()).collect();
    let channels = cx.channels(3);
    let max_frames = cx.pick(&[1, 3, 16, 64, 512]);
    let mut rig = Rig::started(sample_rate, channels, max_frames);
    let mut osc = Oscillator::new(rig.context.as_ref(), p["start"].f(), channels, table);
    osc.node.connect_to_output();
    let mut log: Vec<String> = Vec::new();
    for step in trace.a() {
        let op = step["op"].a();
        log.push(step["op"].to_string());
        match op[0].s() {
            "freq" => osc.frequency().set_value_now(op[1].f()),
            "gain" => osc.gain().set_value_now(op[1].f() / 4.0),
            "process" => {
                let n = op[1].u();
                let parts = if n > 200 { cx.coarse_partition(n) } else { cx.partition(n) };
                let out = rig.run(channels, &parts);
                for (k, at) in step["at"].a().iter().enumerate() {
                    let want = step["want"][k].f() / 4.0 / sample_rate as f64;
                    for c in 0..channels {
                        cx.eq(|| format!("channel {c} frame {at} of {} ({parts:?}) after {}", step["op"], log.join(" ")), out[c][at.u() - 1] as f64, want, 1e-5)?;
                    }
                }
                for c in 1..channels {
                    cx.ensure(out[c] == out[0], || format!("channel {c} differs after {}", log.join(" ")))?;
                }
            }
            o => panic!("harness: {o}"),
        }
    }
    Ok(())
}

pub fn harmonics(cx: &mut Cx, trace: &Value) -> Result<(), String> {
    for step in trace.a() {
        let op = step["op"].a();
        let divisor = op[1].u();
        let levels: Vec<Level> = op[2].a().iter().map(|l| Level::from_linear(l.f() / 4.0)).collect();
        let sample_rate = cx.pick(&[48_000usize, 24_000, 96_000]);
        let channels = cx.channels(2);
        let max_frames = cx.max_frames();
        let mut rig = Rig::started(sample_rate, channels, max_frames);
        let frequency = sample_rate as f64 / divisor as f64;
        // A lone fundamental at unity is a sine oscillator
        let osc = if op[2].a().len() == 1 && op[2][0].i() == 4 && cx.chance(0.5) {
            Oscillator::sine(rig.context.as_ref(), frequency, channels)
        } else {
            Oscillator::with_harmonics(rig.context.as_ref(), frequency, channels, &levels)
        };
        osc.node.connect_to_output();
        let want = step["want"].a();
        let parts = cx.partition(want.len());
        let out = rig.run(channels, &parts);
        for (k, w) in want.iter().enumerate() {
            let value = (w[0].f() + w[1].f() * 2.0f64.sqrt() + w[2].f() * 3.0f64.sqrt()) / 2.0 / 4.0;
            for c in 0..channels {
                cx.eq(|| format!("channel {c} frame {k} of {}", step["op"]), out[c][k] as f64, value, 2e-5)?;
            }
        }
    }
    Ok(())
}
