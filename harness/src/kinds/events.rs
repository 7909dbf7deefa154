//! Events.tla (C07): ADSR nodes with zero times as gates
use crate::common::*;
use rawdio::{prelude::*, *};
use serde_json::Value;

const MIXER_INPUTS: usize = 8;

pub fn run(cx: &mut Cx, trace: &Value) -> Result<(), String> {
    let gates = cx.params["gates"].u();
    let tick = cx.params["tick"].f();
    let sample_rate = cx.pick(&[64usize, 1024, 65536, 8000, 44_100, 48_000, 96_000, 192_000]);
    // Where times in seconds are exact, events are put exactly on the frames too
    let offset = if sample_rate.is_power_of_two() { cx.pick(&[0.0, 0.0, 0.125]) } else { cx.pick(&[0.1, 0.2]) };
    let channels = cx.channels(2);
    let max_frames = cx.max_frames();
    let mut rig = Rig::started(sample_rate, channels * gates, max_frames);

    let source = Oscillator::new(rig.context.as_ref(), 1_000.0, channels, vec![4.0; 8]);
    let (mixer, gain);
    let sum = if channels * gates <= MIXER_INPUTS {
        let mut m = Mixer::new(rig.context.as_ref(), channels * gates, channels * gates);
        for c in 0..channels * gates {
            m.set_level(c, c, Level::unity());
        }
        mixer = m;
        &mixer.node
    } else {
        gain = Gain::new(rig.context.as_ref(), channels * gates);
        &gain.node
    };
    let mut adsr: Vec<Adsr> = (0..gates).map(|g| {
        let adsr = Adsr::new(rig.context.as_ref(), channels, sample_rate);
        source.node.connect_to(&adsr.node);
        adsr.node.connect_channels_to(sum, 0, g * channels, channels);
        adsr
    }).collect();
    sum.connect_to_output();

    let past = rig.pass_time(cx, max_frames, trace, &[("on", 2), ("off", 2)]);
    let at = |v: &Value| samples((v.f() / tick) + offset + past as f64, sample_rate);
    let mut log: Vec<String> = Vec::new();
    let mut clock = 0;
    for step in trace.a() {
        let op = step["op"].a();
        log.push(step["op"].to_string());
        match op[0].s() {
            "on" => adsr[op[1].u() - 1].note_on_at_time(at(&op[2])),
            "off" => adsr[op[1].u() - 1].note_off_at_time(at(&op[2])),
            "level" => adsr[op[1].u() - 1].set_sustain_level(Level::from_linear(op[2].f() / 8.0)),
            "process" => {
                let n = op[1].u();
                let parts = cx.partition(n);
                let out = rig.run(channels * gates, &parts);
                for g in 0..gates {
                    for f in 0..n {
                        let want = step["out"][g][f].f() / 2.0;
                        for c in 0..channels {
                            let got = out[g * channels + c][f] as f64;
                            cx.eq(|| format!("gate {} channel {c} frame {} (sample rate {sample_rate}, {past} frames before, offset {offset}, {parts:?}, {max_frames} at most), after {}",
                                             g + 1, clock + f, log.join(" ")), got, want, 1e-5)?;
                        }
                    }
                }
                clock += n;
            }
            o => panic!("harness: {o}"),
        }
    }
    Ok(())
}

