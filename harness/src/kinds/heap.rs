//! Heap.tla (C22): what the audio process takes from the heap, call by call
use super::partition::{apply, prepare, Change};
use super::zoo::{Zoo, KINDS};
use crate::alloc::heap_use;
use crate::common::*;
use rawdio::{prelude::*, *};
use serde_json::Value;

/// Much less than a buffer of a recording
const MESSAGES: usize = 12_000;
const SAMPLER_EVENTS: usize = 30;

pub fn run(cx: &mut Cx, trace: &Value) -> Result<(), String> {
    let nodes = cx.params["nodes"].u();
    let recorders = cx.params["recorders"].u();
    let sample_rate = cx.pick(&[48_000usize, 44_100, 8_000]);
    let max_frames = cx.pick(&[512usize, 512, 64, 1000, 4096]);
    let mut rig = Rig::new(sample_rate, 4, max_frames);
    rig.context.start();
    let source = Gain::new(rig.context.as_ref(), 2);
    source.node.connect_to_input();
    let crowd = if cx.chance(0.03) { 50 } else { 0 };

    let mut there: Vec<Option<(Zoo, Vec<Gain>)>> = (0..nodes + recorders).map(|_| None).collect();
    // A sampler takes so many events between two calls
    let mut room = vec![0usize; nodes];
    let mut clock = 0;
    let mut log: Vec<String> = Vec::new();
    for step in trace.a() {
        let op = step["op"].a();
        let x = step["x"].a();
        log.push(step["op"].to_string());
        let index = |i: usize| op[i].u() - 1;
        match op[0].s() {
            "add" => {
                let n = index(1);
                let kind = if n < nodes {
                    loop {
                        let kind = cx.pick(&KINDS);
                        if kind != "recorder" { break kind }
                    }
                } else { "recorder" };
                let style = cx.range(0, 59);
                let mut node = Zoo::new(rig.context.as_mut(), kind, 2, style);
                if n < nodes { prepare(&mut node, style, sample_rate, 1); }
                node.with(|node| source.node.connect_to(node));
                log.push(format!("({kind} {style})"));
                let others = (0..crowd).map(|_| Gain::new(rig.context.as_ref(), 2)).collect();
                there[n] = Some((node, others));
                if n < nodes { room[n] = SAMPLER_EVENTS - 1; }
            }
            "drop" => there[index(1)] = None,
            "connect" | "cut" => {
                let (Some((a, _)), Some((b, _))) = (&there[index(1)], &there[index(2)]) else { panic!("harness: {step}") };
                if op[0].s() == "connect" {
                    a.with(|a| b.with(|b| a.connect_to(b)));
                } else {
                    a.with(|a| b.with(|b| a.disconnect_from_node(b)));
                }
            }
            "output" => there[index(1)].as_ref().unwrap().0.with(|n| n.connect_to_output()),
            "input" => there[index(1)].as_ref().unwrap().0.with(|n| n.connect_to_input()),
            "sessions" => {
                let Some((Zoo::Recorder(r), _)) = &there[index(1)] else { panic!("harness: {step}") };
                for _ in 0..op[2].u() {
                    r.borrow_mut().record_now();
                    rig.run(1, &[100]);
                    r.borrow_mut().stop_record_now();
                    rig.run(1, &[10]);
                    rig.context.process_notifications();
                    r.borrow_mut().take_recording();
                    clock += 110;
                }
                room.fill(SAMPLER_EVENTS);
            }
            "use" => {
                let times = if cx.chance(0.1) { cx.range(5, 60) } else { cx.range(1, 3) };
                let sampler = matches!(there[index(1)], Some((Zoo::Sampler(_), _)));
                let times = if sampler { times.min(room[index(1)]) } else { times };
                room[index(1)] -= if sampler { times } else { 0 };
                for _ in 0..times {
                    let start = (clock + cx.pick(&[0, 1, 20, 300, 3000])) as f64 + cx.pick(&[0.0, 0.5]);
                    let end = start + cx.pick(&[0.0, 0.0, 1.0, 100.0, 5000.0]);
                    let change = Change {
                        value: cx.range(0, 3),
                        start: samples(start, sample_rate),
                        end: samples(end, sample_rate),
                        parameter: cx.range(0, 6),
                        exponential: cx.chance(0.4),
                    };
                    apply(&mut there[index(1)].as_mut().unwrap().0, change);
                }
            }
            "record" | "stop" => {
                let Some((Zoo::Recorder(r), _)) = &there[index(1)] else { panic!("harness: {step}") };
                if op[0].s() == "record" { r.borrow_mut().record_now() } else { r.borrow_mut().stop_record_now() }
            }
            "collect" => {
                rig.context.process_notifications();
                for node in there.iter().flatten() {
                    match &node.0 {
                        Zoo::Recorder(r) => drop(r.borrow_mut().take_recording()),
                        Zoo::Envelope(e) => drop(e.borrow_mut().take_notifications()),
                        _ => (),
                    }
                }
            }
            "play" => {
                let (frames, calls) = (op[1].u(), op[2].u());
                let (news, handing, lasts) = (x[0].b(), x[1].a(), x[2].b());
                let (inputs, outputs) = (cx.range(0, 3), cx.range(1, 4));
                let mut input = OwnedAudioBuffer::new(frames, inputs, sample_rate);
                for c in 0..inputs {
                    for s in input.get_channel_data_mut(SampleLocation::channel(c)) {
                        *s = cx.range(0, 200) as f32 / 100.0 - 1.0;
                    }
                }
                let mut output = OwnedAudioBuffer::new(frames, outputs, sample_rate);
                for call in 1..=calls {
                    let used = heap_use(|| rig.process.process(&input, &mut output));
                    if call == 1 && news {
                        continue;
                    }
                    let what = |w: &str| format!("call {call} of {} {w} ({used:?}, sample rate {sample_rate}, {max_frames} frames at most) after {}", step["op"], log.join(" "));
                    if handing.iter().any(|k| k.u() == call) {
                        cx.ensure(!lasts || used.largest < MESSAGES, || what("takes memory for a recording while there are buffers"))?;
                    } else {
                        cx.ensure(used.taken == 0, || what("takes memory, and nothing was new"))?;
                        cx.ensure(used.given == 0, || what("gives memory back, and nothing was new"))?;
                    }
                }
                clock += frames * calls;
                room.fill(SAMPLER_EVENTS);
            }
            o => panic!("harness: {o}"),
        }
    }
    Ok(())
}
