//! Biquad.tla and Response.tla (C19)
use crate::common::*;
use rawdio::{prelude::*, *};
use serde_json::Value;
use std::f64::consts::TAU;

fn filter_type(name: &str) -> BiquadFilterType {
    match name {
        "lowpass" => BiquadFilterType::LowPass,
        "highpass" => BiquadFilterType::HighPass,
        "bandpass" => BiquadFilterType::BandPass,
        "notch" => BiquadFilterType::Notch,
        "lowshelf" => BiquadFilterType::LowShelf,
        "highshelf" => BiquadFilterType::HighShelf,
        t => panic!("harness: {t}"),
    }
}

pub fn run(cx: &mut Cx, trace: &Value) -> Result<(), String> {
    let p = cx.params.clone();
    let own = p["channels"].u();
    let channels = own * cx.copies();
    let sample_rate = cx.pick(&[48_000usize, 8_000, 44_100, 1024]);
    let max_frames = cx.max_frames();
    let loudness = cx.loudness();
    let mut rig = Rig::started(sample_rate, channels, max_frames);
    let mut node = Biquad::new(rig.context.as_ref(), channels, filter_type(p["type"].s()));
    node.node.connect_to_input();
    node.node.connect_to_output();
    node.frequency().set_value_now(sample_rate as f64 / 4.0);
    node.q().set_value_now(p["qq"].f() / 2.0);
    node.shelf_gain().set_value_now((p["a"].f() / 2.0).powi(2));
    let mut log: Vec<String> = Vec::new();
    for step in trace.a() {
        let op = step["op"].a();
        log.push(format!("{} {}", step["op"], step["x"]));
        match op[0].s() {
            "gain" => node.gain().set_value_now(op[1].f() / 4.0),
            "process" => {
                let n = op[1].u();
                let parts = cx.partition(n);
                let input: Audio = (0..channels).map(|c| step["x"][c % own].a().iter().map(|x| x.f() as f32 * loudness).collect()).collect();
                let out = rig.blocks(&input, channels, &parts);
                for c in 0..channels {
                    for i in 0..n {
                        let want = step["want"][c % own][i].f() / 16384.0 / 4.0;
                        cx.eq(|| format!("{} channel {c} frame {i} ({parts:?}) after {}", p["type"], log.join("; ")), (out[c][i] / loudness) as f64, want, 1e-3)?;
                    }
                }
            }
            o => panic!("harness: {o}"),
        }
    }
    Ok(())
}

/// A tone of amplitude one
fn tone(at: &str, period: usize, n: usize) -> Vec<f32> {
    (0..n).map(|i| match at {
        "zero" => 1.0,
        "half" => if i % 2 == 0 { 1.0 } else { -1.0 },
        _ => (TAU * i as f64 / period as f64).sin() as f32,
    }).collect()
}

/// The amplitude of the last whole periods
fn amplitude(at: &str, period: usize, data: &[f32]) -> f64 {
    match at {
        "zero" => *data.last().unwrap() as f64,
        "half" => data.last().unwrap().abs() as f64,
        _ => {
            let data = &data[data.len() - 2 * period..];
            let (mut s, mut c) = (0.0, 0.0);
            for (i, x) in data.iter().enumerate() {
                let a = TAU * i as f64 / period as f64;
                s += *x as f64 * a.sin();
                c += *x as f64 * a.cos();
            }
            s.hypot(c) / period as f64
        }
    }
}

pub fn response(cx: &mut Cx, trace: &Value) -> Result<(), String> {
    let sample_rate = cx.pick(&[48_000usize, 32_000, 12_000]);
    let max_frames = cx.pick(&[64, 512, 1000]);
    let mut rig = Rig::started(sample_rate, 2, max_frames);
    let mut node = Biquad::new(rig.context.as_ref(), 2, filter_type(trace[0]["op"][1].s()));
    node.node.connect_to_input();
    node.node.connect_to_output();
    let mut period = 0;
    let mut clock = 0;
    let mut log: Vec<String> = Vec::new();
    for step in trace.a() {
        let op = step["op"].a();
        log.push(step["op"].to_string());
        match op[0].s() {
            "set" => {
                // The frequency is given by the frames of a period
                period = op[2].u();
                let to = [sample_rate as f64 / period as f64, op[3].f() / 10.0, (op[4].f() / 10.0).powi(2), op[5].f() / 4.0];
                let frames = match op[6].s() {
                    "now" => 0,
                    "slide" => sample_rate / 20 + 1,
                    _ => sample_rate * 5 + cx.range(0, 99),
                };
                let (from, until) = (samples(clock as f64, sample_rate), samples((clock + frames) as f64, sample_rate));
                for (i, to) in to.into_iter().enumerate() {
                    let parameter = match i { 0 => node.frequency(), 1 => node.q(), 2 => node.shelf_gain(), _ => node.gain() };
                    if frames == 0 {
                        parameter.set_value_now(to);
                    } else {
                        parameter.linear_ramp_to_value(to, from, until);
                    }
                }
                // The end comes one frame after
                if frames > 0 {
                    rig.skip(frames + 8);
                    clock += frames + 8;
                }
            }
            "tone" => {
                let q = op[4].f() / 10.0;
                let s = op[5].f() / 10.0;
                // Long enough for the slowest of poles to settle
                let slow = q.max(1.0 / q).max(s).max(1.0 / s) * period as f64;
                let n = 2 * ((12.0 * slow) as usize + 200);
                let ats = [op[1].s(), op[2].s()];
                // However quiet the tone
                let loudness = cx.pick(&[1.0_f32, 1.0, 1.0e-2, 1.0e-4, 1.0e-6, 50.0]);
                let input: Audio = ats.iter().map(|at| tone(at, period, n).iter().map(|x| x * loudness).collect()).collect();
                let parts = cx.coarse_partition(n);
                let out = rig.blocks(&input, 2, &parts);
                clock += n;
                for c in 0..2 {
                    let want = step["want"][c][0].f() / step["want"][c][1].f();
                    let got = amplitude(ats[c], period, &out[c]) / loudness as f64;
                    cx.eq(|| format!("response of {} at {} (amplitude {loudness}) after {}", trace[0]["op"][1], ats[c], log.join(" ")), got, want, 2e-3)?;
                }
            }
            o => panic!("harness: {o}"),
        }
    }
    Ok(())
}
