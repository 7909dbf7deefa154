//! Notifiers.tla (C08, C09, C13): many meters and recorders, made and dropped
use crate::common::*;
use rawdio::{prelude::*, *};
use serde_json::Value;
use std::cell::RefCell;
use std::rc::Rc;
use std::time::Duration;

enum Node {
    Meter(Rc<RefCell<Envelope>>),
    Recorder(Rc<RefCell<Recorder>>),
}

fn value(frame: usize, channel: usize) -> f32 {
    (frame * 2 + channel + 1) as f32
}

pub fn run(cx: &mut Cx, trace: &Value) -> Result<(), String> {
    let count = cx.params["nodes"].u();
    let sample_rate = cx.pick(&[8_000usize, 44_100, 48_000]);
    let max_frames = cx.pick(&[1, 3, 16, 64]);
    let mut rig = Rig::started(sample_rate, 2, max_frames);
    let source = Gain::new(rig.context.as_ref(), 2);
    source.node.connect_to_input();

    let mut nodes: Vec<Option<Node>> = (0..count).map(|_| None).collect();

    let mut taken = vec![0; count];
    let mut clock = 0;
    let mut log: Vec<String> = Vec::new();
    for step in trace.a() {
        let op = step["op"].a();
        let x = step["x"].a();
        log.push(step["op"].to_string());
        let n = if op.len() > 1 { op[1].u() - 1 } else { 0 };
        let what = |w: String| format!("{w} ({max_frames} frames at most) after {}", log.join(" "));
        match op[0].s() {
            "new" => {
                let context = rig.context.as_mut();
                nodes[n] = Some(if op[2].s() == "meter" {
                    let meter = Envelope::new(context, 2, Duration::ZERO, Duration::ZERO, sample_rate as f64);
                    source.node.connect_to(&meter.borrow().node);
                    Node::Meter(meter)
                } else {
                    let recorder = Recorder::new(context, 2, sample_rate);
                    source.node.connect_to(&recorder.borrow().node);
                    recorder.borrow_mut().record_now();
                    Node::Recorder(recorder)
                });
                taken[n] = clock;
            }
            "drop" => nodes[n] = None,
            "stop" => match &nodes[n] {
                Some(Node::Recorder(r)) => r.borrow_mut().stop_record_now(),
                _ => panic!("harness: stop"),
            },
            "process" => {
                let frames = op[1].u();
                let input: Audio = (0..2).map(|c| (clock..clock + frames).map(|f| value(f, c)).collect()).collect();
                let parts: Vec<usize> = cx.partition(frames).into_iter()
                    .flat_map(|p| { let mut v = vec![max_frames; p / max_frames]; if p % max_frames > 0 { v.push(p % max_frames) } v })
                    .collect();
                rig.blocks(&input, 1, &parts);
                clock += frames;
            }
            "notify" => {
                rig.context.process_notifications();
                for (i, node) in nodes.iter().enumerate() {
                    cx.checks += 1;
                    if let Some(Node::Recorder(r)) = node {
                        let (got, want) = (r.borrow().is_recording(), x[i][1].b());
                        cx.ensure(got == want, || what(format!("is_recording() of {} is {got}", i + 1)))?;
                    }
                }
            }
            "take" => {
                let (low, high) = (x[0].u(), x[1].u());
                match nodes[n].as_ref().unwrap() {
                    Node::Meter(m) => {
                        let got = m.borrow_mut().take_notifications();
                        cx.ensure(got.len() == 2 * (high - taken[n]), || what(format!("{} values from meter {} for {} frames of two channels", got.len(), n + 1, high - taken[n])))?;
                        for (i, report) in got.iter().enumerate() {
                            let (f, c) = (taken[n] + i / 2, i % 2);
                            cx.ensure(report.channel_index() == c, || what(format!("channel {} in report {i} of meter {}", report.channel_index(), n + 1)))?;
                            cx.eq(|| what(format!("report {i} of meter {}", n + 1)), report.peak_level() as f64, value(f, c) as f64, 1e-6)?;
                        }
                        taken[n] = high;
                    }
                    Node::Recorder(r) => {
                        let recording = r.borrow_mut().take_recording();
                        let frames = recording.as_ref().map_or(0, |r| r.frame_count());
                        let to = taken[n] + frames;
                        cx.ensure(to >= low && to <= high, || what(format!("recorder {}: frames up to {to} taken, expected {low} to {high}", n + 1)))?;
                        for i in 0..frames {
                            for c in 0..2 {
                                let got = recording.as_ref().unwrap().get_sample(SampleLocation::new(c, i));
                                cx.eq(|| what(format!("frame {i} channel {c} of recorder {}", n + 1)), got as f64, value(taken[n] + i, c) as f64, 1e-6)?;
                            }
                        }
                        taken[n] = to;
                    }
                }
            }
            o => panic!("harness: {o}"),
        }
    }

    Ok(())
}
