//! ReadingsTrace.tla (C12): one thread renders long blocks while another reads
//! the time and every moving parameter as fast as it can. Most readings are
//! left out of the log: those which go back, or ahead, or are between two
//! values the parameter had never are.
use super::zoo::Zoo;
use crate::common::*;
use rawdio::{prelude::*, *};
use serde_json::{json, Value};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Arc;

const RATE: usize = 48_000;
/// Frames for which the parameters move
const RAMP: usize = 400_000;

fn target(kind: &str, index: usize) -> f64 {
    match (kind, index) {
        ("gain", _) => 3.0,
        ("pan", _) => 1.0,
        ("biquad", 0) => 4_000.0,
        ("biquad", 1) => 5.0,
        ("biquad", _) => 0.25,
        ("compressor", i) => [50.0, 500.0, 9.0, -40.0, 12.0, 0.0, 1.0][i],
        ("convolution", i) => [0.0, 1.0][i],
        ("oscillator", i) => [3_000.0, 0.125][i],
        ("waveshaper", i) => [1.0, 0.0][i],
        o => panic!("harness: {o:?}"),
    }
}

struct Ramp {
    value: Box<dyn Fn() -> f64>,
    from: f64,
    to: f64,
}

pub fn record(cx: &mut Cx, violations: &mut Vec<Value>) -> Value {
    let max_frames = cx.pick(&[64, 512, 4096, 4096]);
    let mut rig = Rig::started(RATE, 2, max_frames);
    let kinds = ["gain", "pan", "biquad", "compressor", "convolution", "oscillator", "waveshaper"];
    let mut nodes = Vec::new();
    let mut ramps: Vec<Ramp> = Vec::new();
    let mut names = Vec::new();
    for _ in 0..cx.range(1, 4) {
        let kind = cx.pick(&kinds);
        let style = cx.range(0, 12);
        let mut node = Zoo::new(rig.context.as_mut(), kind, 2, style);
        if kind != "oscillator" {
            node.with(|n| n.connect_to_input());
        }
        node.with(|n| n.connect_to_output());
        for i in 0..node.parameters() {
            let parameter = node.parameter(i);
            let (value, from) = (parameter.get_value(), parameter.get_value().load(SeqCst));
            let to = target(kind, i);
            if from == to {
                continue;
            }
            let end = Timestamp::from_samples(RAMP as f64, RATE);
            parameter.linear_ramp_to_value(to, Timestamp::zero(), end);
            ramps.push(Ramp { value: Box::new(move || value.load(SeqCst)), from, to });
            names.push(format!("{kind} {i}"));
        }
        nodes.push(node);
    }
    let things = ramps.len() + 1;
    let clock = Arc::new(AtomicU64::new(1));
    let done = Arc::new(AtomicBool::new(false));
    let calls = cx.pick(&[8, 20, 40]);
    let frames: Vec<usize> = (0..calls).map(|_| cx.pick(&[max_frames, max_frames, max_frames / 2, max_frames * 2, 1, max_frames - 1])).collect();
    let keep = cx.pick(&[1, 5, 40, 200]);
    let Rig { context, process: mut audio, .. } = rig;
    let mut lines: Vec<(u64, Value)> = Vec::new();
    let mut odd: Vec<(u64, Value)> = Vec::new();
    let mut hang = false;
    let mut total = 0_u64;

    std::thread::scope(|scope| {
        let (finished, stamps) = (done.clone(), clock.clone());
        let audio = &mut audio;
        let handle = scope.spawn(move || {
            let mut log: Vec<(u64, Value)> = Vec::new();
            for n in frames {
                let input = OwnedAudioBuffer::new(n, 2, RATE);
                let mut output = OwnedAudioBuffer::new(n, 2, RATE);
                log.push((stamps.fetch_add(1, SeqCst), json!({"e": "process", "c": [n]})));
                audio.process(&input, &mut output);
                log.push((stamps.fetch_add(1, SeqCst), json!({"e": "processed", "c": []})));
                std::thread::yield_now();
            }
            finished.store(true, SeqCst);
            log
        });
        let mut last = vec![i64::MIN; things];
        let mut kept = 0;
        loop {
            let over = done.load(SeqCst) || handle.is_finished();
            for w in 0..things {
                let before = clock.fetch_add(1, SeqCst);
                let v = match w {
                    0 => (context.current_time().as_seconds() * RATE as f64 * 100.0).round() as i64,
                    _ => {
                        let r = &ramps[w - 1];
                        (((r.value)() - r.from) / (r.to - r.from) * RAMP as f64 * 100.0).round() as i64
                    }
                };
                let after = clock.fetch_add(1, SeqCst);
                let v = v.clamp(-1_000_000_000, 1_000_000_000);
                let near = (v + 50).rem_euclid(100) - 50;
                let strange = v < last[w] || near.abs() > 4;
                total += 1;
                let pair = [(before, json!({"e": "read", "c": [w + 1]})), (after, json!({"e": "got", "c": [w + 1, v]}))];
                if strange && odd.len() < 40 {
                    odd.extend(pair);
                } else if over || (v != last[w] && kept < 600 && total % keep == 0) {
                    kept += 1;
                    lines.extend(pair);
                }
                last[w] = last[w].max(v);
            }
            if over {
                break;
            }
        }
        match handle.join() {
            Ok(log) => lines.extend(log),
            Err(_) => hang = true,
        }
    });
    if hang {
        violations.push(json!({"message": "the audio process panicked"}));
    }
    lines.extend(odd);
    lines.sort_by_key(|l| l.0);
    let lines: Vec<Value> = lines.into_iter().map(|l| l.1).collect();
    drop(nodes);
    json!({"trace": {"lines": lines, "things": things}, "read": names, "readings": total, "max_frames": max_frames})
}
