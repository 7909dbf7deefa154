//! Recorder.tla (C07, C08)
use crate::common::*;
use rawdio::{prelude::*, *};
use serde_json::Value;

fn value(frame: usize, channel: usize) -> f32 {
    (frame * 32 + channel) as f32
}

pub fn run(cx: &mut Cx, trace: &Value) -> Result<(), String> {
    let units: Vec<usize> = match cx.params.clone().get("units") {
        Some(units) => units.a().iter().map(|u| u.u()).collect(),
        None => vec![1, 1, 3, 100, 1024, 1365, 2048, 4095, 4096, 4097],
    };
    let unit = cx.pick(&units);
    let sample_rate = cx.pick(&[1024usize, 65_536, 44_100, 48_000, 8_000]);
    let offset = if sample_rate.is_power_of_two() { cx.pick(&[0.0, 0.125]) } else { 0.2 };
    let channels = cx.channels(3);
    let max_frames = cx.pick(&[if unit > 100 { 64 } else { 3 }, 100, 512, 4096, 5000]);
    let mut rig = Rig::started(sample_rate, channels, max_frames);
    let source = Gain::new(rig.context.as_ref(), channels);
    source.node.connect_to_input();
    let recorder = Recorder::new(rig.context.as_mut(), channels, sample_rate);
    source.node.connect_to(&recorder.borrow().node);

    let loudness = cx.loudness();
    let past = rig.pass_time(cx, max_frames, trace, &[("stop_at", 1)]);
    let mut log: Vec<String> = Vec::new();
    let mut clock = 0;
    // The frames recorded, and those taken
    let mut stream: Vec<usize> = Vec::new();
    let mut taken = 0;
    for step in trace.a() {
        let op = step["op"].a();
        let x = step["x"].a();
        log.push(step["op"].to_string());
        let what = |w: String| format!("{w} (unit {unit}, sample rate {sample_rate}, {past} frames before, {max_frames} at most) after {}", log.join(" "));
        match op[0].s() {
            "start" => recorder.borrow_mut().record_now(),
            "stop" => recorder.borrow_mut().stop_record_now(),
            "stop_at" => recorder.borrow_mut().stop_record_at_time(
                if op[1].u() == 0 { Timestamp::zero() } else { samples((past + op[1].u() * unit) as f64 + offset, sample_rate) }),
            "process" => {
                let n = op[1].u() * unit;
                let parts = if n > 500 { cx.coarse_partition(n) } else { cx.partition(n) };
                let input: Audio = (0..channels).map(|c| (clock..clock + n).map(|f| value(f, c) * loudness).collect()).collect();
                rig.blocks(&input, 1, &parts);
                clock += n;
                for seg in x {
                    stream.extend(seg[0].u() * unit..seg[1].u() * unit);
                }
            }
            "collect" => {
                rig.context.process_notifications();
                let got = recorder.borrow().is_recording();
                cx.ensure(got == x[0].b(), || what(format!("is_recording() is {got}")))?;
            }
            "take" => {
                let got = recorder.borrow().is_recording();
                cx.ensure(got == x[0].b(), || what(format!("is_recording() is {got}")))?;
                let (low, high) = (x[1].u() * unit, x[2].u() * unit);
                let recording = recorder.borrow_mut().take_recording();
                let frames = recording.as_ref().map_or(0, |r| r.frame_count());
                cx.ensure(taken + frames >= low && taken + frames <= high,
                          || what(format!("{} frames taken in all, expected {low} to {high}", taken + frames)))?;
                if let Some(r) = recording {
                    cx.ensure(r.channel_count() == channels && r.sample_rate() == sample_rate, || what("layout of the recording".into()))?;
                    for c in 0..channels {
                        let data = r.get_channel_data(SampleLocation::channel(c));
                        for f in 0..frames {
                            let want = (value(stream[taken + f], c) * loudness) as f64;
                            cx.eq(|| what(format!("channel {c} frame {} of the recordings", taken + f)), data[f] as f64, want, 0.0)?;
                        }
                    }
                }
                taken += frames;
            }
            o => panic!("harness: {o}"),
        }
    }
    Ok(())
}
