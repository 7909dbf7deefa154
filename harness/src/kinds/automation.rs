//! Automation.tla (C04): the gain parameter of a Gain node that is fed ones
use super::probe;
use crate::common::*;
use rawdio::{prelude::*, *};
use serde_json::Value;

pub fn run(cx: &mut Cx, trace: &Value) -> Result<(), String> {
    // At the rates that are no power of two nothing falls exactly on a frame
    let (sample_rate, exact) = cx.pick(&[(64, true), (1024, true), (65_536, true), (44_100, false), (48_000, false)]);
    let prelude = cx.pick(&[1usize, 1, 7, 300]);
    let max_frames = cx.max_frames();
    let mut rig = Rig::started(sample_rate, 2, max_frames);
    let source = probe::constant(rig.context.as_ref(), 1, 1.0);
    let mut gain = Gain::new(rig.context.as_ref(), 1);
    // A second parameter, which must not be touched
    let mut other = Gain::new(rig.context.as_ref(), 1);
    source.connect_to(&gain.node);
    source.connect_to(&other.node);
    gain.node.connect_to_output();
    let parts = cx.partition(prelude);
    rig.run(1, &parts);
    let prelude = prelude + rig.pass_time(cx, max_frames, trace, &[]);

    let time = |tick: f64| -> f64 {
        let shift = if exact { 0.0 } else { 0.25 };
        prelude as f64 + tick / 2.0 - shift
    };
    let stamp = |tick: f64| samples(time(tick), sample_rate);

    let mut previous = 1.0f64;
    let mut frame = 0usize;
    // The value before the frame on which the ramp in progress began
    let mut ramp: Option<(i64, i64, i64)> = None;
    let mut from = 1.0f64;
    let mut log: Vec<String> = Vec::new();

    for step in trace.a() {
        let op = step["op"].a();
        log.push(step["op"].to_string());
        let p = gain.gain();
        match op[0].s() {
            "set" => {
                if op[2].i() < 0 {
                    p.set_value_now(op[1].f());
                } else {
                    p.set_value_at_time(op[1].f(), stamp(op[2].f()))
                }
            }
            "lin" => p.linear_ramp_to_value(op[1].f(), stamp(op[2].f()), stamp(op[3].f())),
            "exp" => p.exponential_ramp_to_value(op[1].f(), stamp(op[2].f()), stamp(op[3].f())),
            "cancel" => p.cancel_scheduled_changes(),
            "cancel_after" => p.cancel_scheduled_changes_ending_after(stamp(op[1].f())),
            "process" => {
                let n = op[1].u();
                let parts = if n == 0 { vec![0] } else if n > 400 { cx.coarse_partition(n) } else { cx.partition(n) };
                let out = rig.run(1, &parts);
                let directives: Vec<&Value> = step["out"].a().iter().flat_map(|r| std::iter::repeat(&r[0]).take(r[1].u())).collect();
                for f in 0..n {
                    let got = out[0][f] as f64;
                    let d = directives[f].a();
                    let what = || format!("frame {frame} ({} of sample rate {sample_rate}, {max_frames} frames at most), directive {} after {}",
                                          f, directives[f], log.join(" "));
                    match d[0].s() {
                        "hold" => cx.eq(what, got, previous, 1e-6)?,
                        "set" => cx.eq(what, got, d[1].f(), 1e-6)?,
                        kind => {
                            let key = (d[1].i(), d[2].i(), d[3].i());
                            if ramp != Some(key) {
                                ramp = Some(key);
                                from = previous;
                            }
                            let target = d[2].f();
                            let (begin, end) = (prelude as f64 + d[1].f(), time(d[3].f()));
                            let ideal = |at: f64| -> f64 {
                                let x = ((at - begin) / (end - begin)).clamp(0.0, 1.0);
                                if kind == "lin" { from + (target - from) * x } else { from * (target / from).powf(x) }
                            };
                            let now = (prelude + frame) as f64;
                            let (a, b) = (ideal(now), ideal(now + 1.0));
                            let slack = 2e-5 * (1.0 + a.abs().max(b.abs()));
                            cx.ensure(got >= a.min(b) - slack && got <= a.max(b) + slack,
                                      || format!("{}: expected between {a} and {b}, got {got}", what()))?;
                            // It moves
                            if (from - target).abs() > 0.1 && end > now + 1.0 && (now + 1.0 - begin) / (end - begin) > 0.05 {
                                cx.ensure((got - from).abs() > 1e-4, || format!("{}: the ramp does not move from {from}", what()))?;
                            }
                        }
                    }
                    previous = got;
                    frame += 1;
                }
                if frame + prelude > 0 {
                    let read = gain.gain().get_value().load(std::sync::atomic::Ordering::Acquire);
                    cx.eq(|| format!("value read back after frame {frame} after {}", log.join(" ")), read, previous, 1e-6)?;
                }
            }
            o => panic!("harness: {o}"),
        }
    }
    let read = other.gain().get_value().load(std::sync::atomic::Ordering::Acquire);
    cx.eq(|| "another gain".to_string(), read, 1.0, 0.0)
}
