//! Transport.tla (C03)
use super::probe;
use crate::common::*;
use rawdio::{prelude::*, *};
use serde_json::Value;

pub fn run(cx: &mut Cx, trace: &Value) -> Result<(), String> {
    let sample_rate = cx.pick(&[64usize, 1000, 22_050, 44_100, 48_000, 96_000, 192_000]);
    let mut max_frames = cx.max_frames();
    // Frames played before, where the clock may overflow or lose its precision
    let past: usize = if cx.chance(0.001) {
        max_frames = 4096;
        let near = cx.pick(&[1usize << 24, 1 << 24, 1 << 24, 300_000_000, 300_000_000, 1 << 31, 1 << 32]);
        (near + cx.range(0, 40)).min(sample_rate << 30)
    } else {
        0
    };
    // Every frame of the specification stands for this many
    let scale = cx.pick(&[1usize, 1, 2, 37, 160]);
    let mut rig = Rig::new(sample_rate, 3, max_frames);
    if past > 0 {
        rig.context.start();
        rig.skip(past);
        rig.context.stop();
        rig.block(&vec![], 1, 1);
    }
    let c = rig.context.as_ref();
    let mut count = 0u32;
    let counter = probe::node(c, 0, 1, move |cx| {
        for f in 0..cx.output_buffer.frame_count() {
            count += 1;
            cx.output_buffer.set_sample(SampleLocation::new(0, f), count as f32);
        }
    });
    let one = probe::constant(c, 1, 1.0);
    let mut gain = Gain::new(c, 1);
    let mut second = Some(probe::constant(c, 1, 5.0));
    // The block's start time, in frames, goes to the fourth channel
    let output = probe::node(c, 3, 3, move |cx| {
        let frames = cx.output_buffer.frame_count();
        let start = cx.start_time.as_samples(sample_rate).round();
        for f in 0..frames {
            for ch in 0..3 {
                let v = cx.input_buffer.get_sample(SampleLocation::new(ch, f));
                let v = if ch == 2 { v + 10.0 * ((start as usize + f) % 100_000) as f32 } else { v };
                cx.output_buffer.set_sample(SampleLocation::new(ch, f), v);
            }
        }
    });
    one.connect_to(&gain.node);
    counter.connect_channels_to(&output, 0, 0, 1);
    gain.node.connect_channels_to(&output, 0, 1, 1);
    output.connect_to_output();

    let mut log: Vec<String> = Vec::new();
    for step in trace.a() {
        let op = step["op"].a();
        log.push(step["op"].to_string());
        match op[0].s() {
            "start" => rig.context.start(),
            "stop" => rig.context.stop(),
            "gain" => gain.gain().set_value_now(op[1].f()),
            "link" => second.as_ref().unwrap().connect_channels_to(&output, 0, 2, 1),
            "unlink" => second.as_ref().unwrap().disconnect_from_node(&output),
            "drop" => second = None,
            "add" => second = Some(probe::constant(rig.context.as_ref(), 1, 5.0)),
            "process" => {
                let n = op[1].u() * scale;
                let out = rig.block(&vec![], 3, n);
                let first = (step["first"].u() - 1) * scale;
                for f in 0..n {
                    let (a, b, c) = if step["playing"].b() {
                        ((first + f + 1) as f64, step["gain"].f(), step["linked"].f() * 5.0 + 10.0 * ((past + first + f) % 100_000) as f64)
                    } else {
                        (0.0, 0.0, 0.0)
                    };
                    let what = |w: &str| format!("{w} of frame {f} of {n} (x{scale}, sample rate {sample_rate}, {past} frames before) after {}", log.join(" "));
                    cx.eq(|| what("count"), out[0][f] as f64, a, 1e-7)?;
                    cx.eq(|| what("parameter"), out[1][f] as f64, b, 1e-7)?;
                    cx.eq(|| what("link and time"), out[2][f] as f64, c, 1e-7)?;
                }
            }
            o => panic!("harness: {o}"),
        }
        let now = (past + step["now"].u() * scale) as f64 / sample_rate as f64;
        let got = rig.context.current_time().as_seconds();
        cx.ensure((got - now).abs() < 1e-9 + 5e-16 * now, || format!("time ({past} frames before) after {}: expected {now}, got {got}", log.join(" ")))?;
    }
    Ok(())
}
