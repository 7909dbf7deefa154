//! Envelope.tla (C09)
use crate::common::*;
use rawdio::{prelude::*, *};
use serde_json::Value;
use std::time::Duration;

/// The time whose coefficient keeps the given number of quarters per frame
pub fn time_of(quarters: usize, sample_rate: usize) -> Duration {
    if quarters == 0 { return Duration::ZERO }
    Duration::from_secs_f64(1.0 / (sample_rate as f64 * (4.0 / quarters as f64).ln()))
}

pub fn run(cx: &mut Cx, trace: &Value) -> Result<(), String> {
    let p = cx.params.clone();
    let (attack, release, num, den) = (p["attack"].u(), p["release"].u(), p["num"].u(), p["den"].u());
    // At these rates the period is exact
    let factor = cx.pick(&[8usize, 64, 1024, 16_000]);
    let sample_rate = factor * num;
    let frequency = (factor * den) as f64;
    let all = p["channels"].u();
    let own = cx.range(1, all);
    let channels = own * cx.copies();
    let max_frames = cx.max_frames();
    let tolerance = 10.0 / 4096.0;

    let mut rig = Rig::started(sample_rate, channels.max(all), max_frames);
    let source = Gain::new(rig.context.as_ref(), channels);
    source.node.connect_to_input();
    let envelope = Envelope::new(rig.context.as_mut(), channels, time_of(attack, sample_rate), time_of(release, sample_rate), frequency);
    source.node.connect_to(&envelope.borrow().node);
    envelope.borrow().node.connect_to_output();

    let loudness = cx.loudness();
    let mut log: Vec<String> = Vec::new();
    for step in trace.a() {
        let op = step["op"].a();
        match op[0].s() {
            "process" => {
                let n = op[1].u();
                log.push(format!("process {n} {}", op[2]));
                let parts = cx.partition(n);
                let input: Audio = (0..channels).map(|c| (0..n).map(|f| (op[2][c % own][f].f() / 4096.0) as f32 * loudness).collect()).collect();
                rig.blocks(&input, channels, &parts);
            }
            "collect" => {
                log.push("collect".into());
                rig.context.process_notifications();
            }
            "take" => {
                log.push("take".into());
                let what = |w: String| format!("{w} (sample rate {sample_rate}, {frequency} per second, {channels} channels, {max_frames} frames at most) after {}", log.join("; "));
                let got = envelope.borrow_mut().take_notifications();
                cx.ensure(got.len() % channels == 0, || what(format!("{} notifications for {channels} channels", got.len())))?;
                let count = got.len() / channels;
                // Which numbers of notified reports may be those expected so far
                let mut feasible = vec![false; count + 1];
                feasible[0] = true;
                for part in step["x"].a() {
                    let reports = part["r"].a();
                    let keep = if channels > all { part["keep"].u().min(64 / channels) } else { part["keep"].u() };
                    for (i, report) in reports.iter().enumerate() {
                        let mut after = vec![false; count + 1];
                        for j in 0..=count {
                            if !feasible[j] { continue }
                            let matches = j < count && (0..channels).all(|c| {
                                let n = &got[j * channels + c];
                                n.channel_index() == c && ((n.peak_level() / loudness) as f64 - report[c % own].f() / 4096.0).abs() <= tolerance
                            });
                            if matches { after[j + 1] = true }
                            if i >= keep { after[j] = true }
                        }
                        cx.checks += channels as u64 - 1;
                        cx.ensure(after.contains(&true), || {
                            let seen: Vec<Vec<(usize, f64)>> = got.chunks(channels).map(|r| r.iter().map(|n| (n.channel_index(), n.peak_level() as f64 * 4096.0)).collect()).collect();
                            what(format!("report {i} of {reports:?}, but got {seen:?}"))
                        })?;
                        feasible = after;
                    }
                }
                cx.ensure(feasible[count], || what(format!("{count} reports are too many")))?;
            }
            o => panic!("harness: {o}"),
        }
    }
    Ok(())
}
