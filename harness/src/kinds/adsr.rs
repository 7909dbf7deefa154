//! Runs of the ADSR node, recorded for AdsrTrace.tla (C10)
use crate::common::*;
use rawdio::{prelude::*, *};
use serde_json::{json, Value};
use std::time::Duration;

const UNITY: f64 = 1_000_000.0;

pub fn record(cx: &mut Cx, violations: &mut Vec<Value>) -> Value {
    let sample_rate = cx.pick(&[1024usize, 65_536, 44_100, 48_000, 96_000]);
    let offset = if sample_rate.is_power_of_two() { 0.0 } else { 0.2 };
    let channels = cx.channels(3);
    let max_frames = cx.pick(&[1, 7, 16, 64, 512]);
    let mut rig = Rig::started(sample_rate, channels, max_frames);
    let mut adsr = Adsr::new(rig.context.as_ref(), channels, sample_rate);
    adsr.node.connect_to_input();
    adsr.node.connect_to_output();

    let loudness = cx.loudness();
    let mut lines: Vec<Value> = Vec::new();
    let mut clock = 0usize;
    for _ in 0..cx.range(1, 3) {
        // New settings, while idle
        let mut times = [0usize; 3];
        for t in times.iter_mut() {
            *t = cx.pick(&[0, 0, 1, 2, 3, 5, 10, 33, 100, 250]);
        }
        let [a, d, r] = times;
        let sustain = cx.pick(&[0.5, 0.25, 0.9, 0.1, 1.0, 0.0, 0.7]);
        let duration = |n: usize| Duration::from_secs_f64(n as f64 / sample_rate as f64);
        let level = Level::from_linear(sustain);
        if cx.chance(0.5) {
            adsr.set_adsr(duration(a), duration(d), level, duration(r));
        } else {
            // One at a time, in any order; the last one counts
            let mut order = [0, 1, 2, 3, 0, 1, 2, 3];
            for i in (1..8).rev() {
                let j = cx.range(0, i);
                order.swap(i, j);
            }
            for (i, what) in order.iter().enumerate() {
                let last = !order[i + 1..].contains(what);
                let n = |x: usize| if last { duration(x) } else { duration(x * 2 + 17) };
                match what {
                    0 => adsr.set_attack_time(n(a)),
                    1 => adsr.set_decay_time(n(d)),
                    2 => adsr.set_sustain_level(if last { level } else { Level::from_linear(0.33) }),
                    _ => adsr.set_release_time(n(r)),
                }
            }
        }
        lines.push(json!({"set": [a, d, (sustain * UNITY).round() as i64, r], "e": [], "g": 0}));

        // Events over a stretch of frames
        let total = cx.range(20, 60) + cx.pick(&[0, a + d + r, 2 * (a + d + r)]);
        let tail = r + 4;
        let mut events: Vec<Vec<&str>> = vec![Vec::new(); total + tail];
        let count = cx.range(1, 7);
        for _ in 0..count {
            let f = cx.range(0, total - 1);
            let what = cx.pick(&["on", "on", "off"]);
            events[f].push(what);
        }
        events[total].push("off");
        // Issued in any order, but in that of their frame where it is the same
        let mut frames: Vec<usize> = (0..total + tail).filter(|f| !events[*f].is_empty()).collect();
        for i in (1..frames.len()).rev() {
            let j = cx.range(0, i);
            frames.swap(i, j);
        }
        for f in frames {
            for e in &events[f] {
                let at = samples((clock + f) as f64 + offset, sample_rate);
                if *e == "on" { adsr.note_on_at_time(at) } else { adsr.note_off_at_time(at) }
            }
        }

        let n = total + tail;
        let parts = cx.partition(n);
        let input: Audio = (0..channels).map(|_| (0..n).map(|_| cx.range(100, 900) as f32 / cx.pick(&[-256.0, 256.0]) * loudness).collect()).collect();
        let out = rig.blocks(&input, channels, &parts);
        for f in 0..n {
            let gain = out[0][f] as f64 / input[0][f] as f64;
            for c in 1..channels {
                let other = out[c][f] as f64 / input[c][f] as f64;
                if (other - gain).abs() > 1e-6 && violations.len() < 5 {
                    violations.push(json!({"message": format!("frame {f}: gain {gain} on channel 0, {other} on channel {c}")}));
                }
            }
            lines.push(json!({"set": [], "e": events[f], "g": (gain * UNITY).round() as i64}));
        }
        clock += n;
    }
    json!({"trace": {"lines": lines}, "sample_rate": sample_rate, "channels": channels, "max_frames": max_frames})
}
