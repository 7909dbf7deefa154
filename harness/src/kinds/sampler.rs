//! Sampler.tla (C06, C07)
use crate::common::*;
use rawdio::{prelude::*, *};
use serde_json::Value;

const FADE: usize = 4;

/// In frames of the specification
fn fade(position: f64) -> f64 {
    if position >= FADE as f64 {
        return 1.0;
    }
    let t = 2.0 * position / FADE as f64 - 1.0;
    0.5 + 0.5 * (t * std::f64::consts::FRAC_PI_2).sin()
}

pub fn run(cx: &mut Cx, trace: &Value) -> Result<(), String> {
    let length = cx.params["length"].u();
    // The fade is four frames at all of these rates
    let (sample_rate, offset) = cx.pick(&[(64usize, 0.0), (64, 0.125), (61, 0.1), (70, 0.2), (77, 0.2), (79, 0.01), (80, 0.1)]);
    // Each frame of the specification can stand for several
    let unit = if cx.chance(0.9) { 1 } else { cx.pick(&[2usize, 3, 10, 25, 100, 200, 600, 1200]) };
    let (sample_rate, offset) = if unit == 1 { (sample_rate, offset) } else { (80 * unit, cx.pick(&[0.1, 0.3])) };
    let length = length * unit;
    let channels = cx.channels(3);
    let max_frames = if unit > 10 { cx.pick(&[64usize, 500, 4096]) } else { cx.max_frames() };
    let value = |position: usize, channel: usize| -> f64 {
        if position < length { (3 + (position * 7) % 31 + channel * 40) as f64 } else { 0.0 }
    };
    let loudness = cx.loudness();
    let mut sample = OwnedAudioBuffer::new(length, channels, sample_rate);
    for c in 0..channels {
        for f in 0..length {
            sample.set_sample(SampleLocation::new(c, f), value(f, c) as f32 * loudness);
        }
    }
    let mut rig = Rig::started(sample_rate, channels, max_frames);
    let mut sampler = Sampler::new(rig.context.as_ref(), sample);
    sampler.node.connect_to_output();

    let past = rig.pass_time(cx, max_frames, trace, &[("start", 1), ("stop", 1), ("cancel_loop_at", 1), ("loop_at", 1)]);
    // On the frame, or in it
    let at = |v: &Value| {
        if v.i() == 0 { Timestamp::zero() } else { samples(v.f() * unit as f64 + offset + past as f64, sample_rate) }
    };
    let position = |v: &Value| samples(v.f() * unit as f64, sample_rate);
    let mut log: Vec<String> = Vec::new();
    let mut clock = 0;
    for step in trace.a() {
        let op = step["op"].a();
        log.push(step["op"].to_string());
        match op[0].s() {
            "start_now" => sampler.start_now(),
            "stop_now" => sampler.stop_now(),
            "cancel_loop" => sampler.cancel_loop(),
            "cancel_all" => sampler.cancel_all(),
            "loop" => sampler.enable_loop(position(&op[1]), position(&op[2])),
            "start" => sampler.start_from_position_at_time(at(&op[1]), position(&op[2])),
            "stop" => sampler.stop_at_time(at(&op[1])),
            "cancel_loop_at" => sampler.cancel_loop_at_time(at(&op[1])),
            "loop_at" => sampler.enable_loop_at_time(at(&op[1]), position(&op[2]), position(&op[3])),
            "process" => {
                let n = op[1].u();
                let parts = if unit > 10 { cx.coarse_partition(n * unit) } else { cx.partition(n * unit) };
                let out = rig.run(channels, &parts);
                for f in 0..n * unit {
                    let heard = &step["out"][f / unit];
                    let (whole, within) = (f % unit, (f % unit) as f64 / unit as f64);
                    let (a, o) = (heard["a"].a(), heard["o"].a());
                    for c in 0..channels {
                        let got = (out[c][f] / loudness) as f64;
                        let what = || format!("channel {c} frame {clock} (sample rate {sample_rate}, x{unit}, {past} frames before, {parts:?}, {max_frames} at most), heard {heard}, after {}", log.join(" "));
                        let mut active = 0.0;
                        if !a.is_empty() {
                            active = value(a[0].u() * unit + whole, c) * if a[1].i() >= 0 { fade(a[1].f() + within) } else { 1.0 };
                        }
                        let mut maybe = 0.0;
                        for v in o {
                            let sound = value(v[0].u() * unit + whole, c) * fade(FADE as f64 - v[1].f() - within);
                            if v[2].i() == 1 { active += sound } else { maybe += sound }
                        }
                        if maybe == 0.0 {
                            cx.eq(what, got, active, 1e-5)?;
                        } else {
                            // A fade may be cut short for the sake of a new sound
                            cx.ensure(got >= active - 1e-3 && got <= active + maybe + 1e-3,
                                      || format!("{}: expected between {active} and {}, got {got}", what(), active + maybe))?;
                        }
                    }
                    clock += 1;
                }
            }
            o => panic!("harness: {o}"),
        }
    }
    Ok(())
}
