//! Mixer.tla (C11)
use crate::common::*;
use rawdio::{prelude::*, *};
use serde_json::Value;

pub fn run(cx: &mut Cx, trace: &Value) -> Result<(), String> {
    let p = cx.params.clone();
    let (ins, outs) = (p["in"].u(), p["out"].u());
    let max_frames = cx.max_frames();
    let mut rig = Rig::started(48_000, 8, max_frames);
    let context = rig.context.as_ref();
    let mut mixer = match p["kind"].s() {
        "new" => Mixer::new(context, ins, outs),
        "split" => Mixer::mono_to_stereo_splitter(context),
        "unity" => Mixer::unity(context, ins),
        k => panic!("harness: {k}"),
    };
    mixer.node.connect_to_input();
    mixer.node.connect_to_output();
    // Another one, which has its own matrix
    let mut other = Mixer::new(context, ins, outs);
    other.node.connect_to(&Gain::new(context, outs).node);

    let loudness = cx.loudness();
    let mut log: Vec<String> = Vec::new();
    for step in trace.a() {
        let op = step["op"].a();
        log.push(step["op"].to_string());
        match op[0].s() {
            "set" => {
                let level = op[3].f() / 1000.0;
                mixer.set_level(op[1].u() - 1, op[2].u() - 1, Level::from_linear(level));
                other.set_level(op[1].u() - 1, op[2].u() - 1, Level::from_linear(3.0 - level));
            }
            "process" => {
                let n = cx.pick(&[1usize, 3, 16, 17, 37, 70]);
                let parts = cx.partition(n);
                let input: Audio = (0..ins).map(|_| (0..n).map(|_| (cx.range(0, 2000) as f32 / 64.0 - 15.0) * loudness).collect()).collect();
                let out = rig.blocks(&input, outs, &parts);
                for o in 0..outs {
                    let row = step["m"][o].a();
                    for f in 0..n {
                        let want: f64 = (0..ins).map(|i| row[i].f() / 1000.0 * input[i][f] as f64).sum();
                        let size: f64 = (0..ins).map(|i| (row[i].f() / 1000.0 * input[i][f] as f64).abs()).sum();
                        cx.eq(|| format!("output {o} frame {f} of {parts:?} after {}", log.join(" ")), out[o][f] as f64 / loudness as f64, want / loudness as f64, 1e-6 * (1.0 + size / loudness as f64))?;
                    }
                }
            }
            o => panic!("harness: {o}"),
        }
    }
    Ok(())
}
