//! Convolution.tla (C16)
use crate::common::*;
use rawdio::{prelude::*, *};
use serde_json::Value;

fn x(c: usize, t: usize) -> f32 {
    let (c, t) = (c as i64 + 1, t as i64);
    (((t * 7 + (t / 5) * 3 + c * 4) % 11) - 5) as f32
}

pub fn run(cx: &mut Cx, trace: &Value) -> Result<(), String> {
    let p = cx.params.clone();
    let taps = p["taps"].a();
    let own = taps.len();
    let channels = own * cx.copies();
    let sample_rate = cx.pick(&[48_000usize, 44_100, 1000]);
    // The response may be padded
    let shortest = 1 + taps.iter().flat_map(|c| c.a().iter().map(|t| t[0].u())).max().unwrap();
    let length = shortest + cx.pick(&[0, 0, 0, 1, 17]);
    let mut impulse = OwnedAudioBuffer::new(length, channels, sample_rate);
    for c in 0..channels {
        let list = &taps[c % own];
        for t in list.a() {
            impulse.add_sample(SampleLocation::new(c, t[0].u()), t[1].f() as f32);
        }
    }
    let max_frames = if length > 1000 { cx.pick(&[64usize, 512, 1000]) } else { cx.pick(&[1, 2, 3, 7, 8, 16, 33, 64, 128, 512]) };
    let mut rig = Rig::started(sample_rate, channels, max_frames);
    let mut node = Convolution::new(rig.context.as_ref(), channels, impulse);
    node.node.connect_to_input();
    node.node.connect_to_output();
    let loudness = cx.loudness();
    let mut time = 0;
    let mut log: Vec<String> = Vec::new();
    for step in trace.a() {
        let op = step["op"].a();
        log.push(step["op"].to_string());
        match op[0].s() {
            "wet" => node.wet().set_value_now(op[1].f() / 4.0),
            "dry" => node.dry().set_value_now(op[1].f() / 4.0),
            "process" => {
                let (n, on) = (op[1].u(), op[2].i() == 1);
                let parts = if n > 100 { cx.coarse_partition(n) } else { cx.partition(n) };
                let input: Audio = (0..channels).map(|c| (0..n).map(|i| if on { x(c % own, time + i) * loudness } else { 0.0 }).collect()).collect();
                let out = rig.blocks(&input, channels, &parts);
                for c in 0..channels {
                    for (k, at) in step["at"].a().iter().enumerate() {
                        let want = step["want"][c % own][k].f() / 4.0;
                        cx.eq(|| format!("channel {c} frame {at} of {} ({parts:?}, max {max_frames}, response of {length}) after {}", step["op"], log.join(" ")),
                            (out[c][at.u() - 1] / loudness) as f64, want, 3e-4)?;
                    }
                }
                time += n;
            }
            o => panic!("harness: {o}"),
        }
    }
    Ok(())
}
