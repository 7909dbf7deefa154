//! CommandsTrace.tla (C12): runs of two real threads, recorded for TLC.
//! Either both run freely, or the audio thread stops in the middle of a block
//! while the control thread goes on.
use super::probe;
use crate::common::*;
use rawdio::{prelude::*, *};
use serde_json::{json, Value};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{mpsc, Arc};
use std::time::Duration;

const RATE: usize = 64;
const PATIENCE: Duration = Duration::from_secs(20);

type Lines = Vec<(u64, Value)>;

struct Log {
    clock: Arc<AtomicU64>,
    lines: Lines,
}

impl Log {
    fn line(&mut self, e: &str, c: Value) {
        let stamp = self.clock.fetch_add(1, SeqCst);
        self.lines.push((stamp, json!({"e": e, "c": c})));
    }
}

struct Control {
    rig_context: Box<dyn Context>,
    a: GraphNode,
    b: GraphNode,
    s: GraphNode,
    d: Option<GraphNode>,
    gain: Gain,
    mixer: Mixer,
    log: Log,
    next: usize,
}

impl Control {
    /// One action of the control thread, start to end
    fn act(&mut self, cx: &mut Cx) {
        let what = cx.pick(&["start", "start", "stop", "connect a", "connect a", "connect b", "disconnect a", "disconnect b", "add", "drop",
            "gain", "gain", "gain", "cancel", "level", "level", "level", "time", "time", "value", "value"]);
        match what {
            "time" => {
                self.log.line("read", json!(["time"]));
                let t = self.rig_context.current_time().as_samples(RATE).round() as i64;
                self.log.line("got", json!(["time", t]));
                return;
            }
            "value" => {
                self.log.line("read", json!(["value"]));
                let v = self.gain.gain().get_value().load(SeqCst).round() as i64;
                self.log.line("got", json!(["value", v]));
                return;
            }
            "add" if self.d.is_some() => return,
            "drop" if self.d.is_none() => return,
            "gain" | "level" => {
                self.next += 1;
                self.log.line("issue", json!([what, self.next]));
                if what == "gain" {
                    self.gain.gain().set_value_now(self.next as f64);
                } else {
                    self.mixer.set_level(2, 2, Level::from_linear(self.next as f64));
                }
                self.log.line("issued", json!([]));
                return;
            }
            _ => (),
        }
        self.log.line("issue", json!([what]));
        match what {
            "start" => self.rig_context.start(),
            "stop" => self.rig_context.stop(),
            "connect a" => self.a.connect_to(&self.s),
            "connect b" => self.b.connect_to(&self.s),
            "disconnect a" => self.a.disconnect_from_node(&self.s),
            "disconnect b" => self.b.disconnect_from_node(&self.s),
            "add" => {
                let d = probe::constant(self.rig_context.as_ref(), 1, 10_000.0);
                d.connect_to(&self.s);
                self.d = Some(d);
            }
            "drop" => self.d = None,
            "cancel" => self.gain.gain().cancel_scheduled_changes(),
            o => panic!("harness: {o}"),
        }
        self.log.line("issued", json!([]));
    }
}

fn pause(cx: &mut Cx, scale: usize) {
    match cx.range(0, 5) {
        0 => (),
        1 => std::thread::yield_now(),
        _ => {
            let n = cx.range(0, scale);
            for _ in 0..n {
                std::hint::spin_loop();
            }
        }
    }
}

fn process(process: &mut dyn AudioProcess, log: &mut Log, frames: usize, violations: &mut Vec<String>) {
    let mut output = OwnedAudioBuffer::new(frames, 3, RATE);
    let input = OwnedAudioBuffer::new(frames, 1, RATE);
    log.line("process", json!([frames]));
    process.process(&input, &mut output);
    let out: Vec<f32> = (0..3).map(|c| output.get_sample(SampleLocation::new(c, frames - 1))).collect();
    log.line("processed", json!(out.iter().map(|v| v.round() as i64).collect::<Vec<_>>()));
    if out.iter().any(|v| v.fract() != 0.0) {
        violations.push(format!("the output {out:?} is not made of whole numbers"));
    }
    // Within a block, only the parameter changes
    for f in 1..frames {
        for c in [0] {
            let (x, y) = (output.get_sample(SampleLocation::new(c, 0)), output.get_sample(SampleLocation::new(c, f)));
            if x != y {
                violations.push(format!("channel {c} changes from {x} to {y} within a block, at frame {f}"));
            }
        }
    }
}

pub fn record(cx: &mut Cx, violations: &mut Vec<Value>) -> Value {
    let rendezvous = cx.chance(0.5);
    let max_frames = cx.pick(&[2, 8, 32]);
    let Rig { context, process: mut audio, .. } = Rig::new(RATE, 3, max_frames);
    let armed = Arc::new(AtomicBool::new(false));
    let (mid_tx, mid_rx) = mpsc::channel::<()>();
    let (go_tx, go_rx) = mpsc::channel::<()>();
    let go_rx = std::sync::Mutex::new(go_rx);
    let mid_tx = std::sync::Mutex::new(mid_tx);
    let one = {
        let armed = armed.clone();
        probe::node(context.as_ref(), 0, 1, move |p| {
            for f in 0..p.output_buffer.frame_count() {
                p.output_buffer.set_sample(SampleLocation::new(0, f), 1.0);
            }
            if armed.load(SeqCst) {
                let _ = mid_tx.lock().unwrap().send(());
                let _ = go_rx.lock().unwrap().recv_timeout(PATIENCE);
            }
        })
    };
    let a = probe::constant(context.as_ref(), 1, 1.0);
    let b = probe::constant(context.as_ref(), 1, 100.0);
    let s = probe::affine(context.as_ref(), 1, 1, 1.0, |_| 0.0);
    let gain = Gain::new(context.as_ref(), 1);
    let mut mixer = Mixer::new(context.as_ref(), 3, 3);
    mixer.set_level(0, 0, Level::unity());
    mixer.set_level(1, 1, Level::unity());
    one.connect_to(&gain.node);
    one.connect_channels_to(&mixer.node, 0, 2, 1);
    gain.node.connect_channels_to(&mixer.node, 0, 1, 1);
    s.connect_channels_to(&mixer.node, 0, 0, 1);
    mixer.node.connect_to_output();
    run_block(audio.as_mut(), RATE, &vec![vec![0.0]], 3, 1);

    let clock = Arc::new(AtomicU64::new(0));
    let mut control = Control { rig_context: context, a, b, s, d: None, gain, mixer, log: Log { clock: clock.clone(), lines: Vec::new() }, next: 1 };
    let mut audio_log = Log { clock, lines: Vec::new() };
    let mut wrong: Vec<String> = Vec::new();
    let mut hang = false;
    let done = Arc::new(AtomicBool::new(false));
    let audio_seed = cx.range(0, 1 << 30) as u64;

    if rendezvous {
        armed.store(true, SeqCst);
        let (work_tx, work_rx) = mpsc::channel::<usize>();
        let (ended_tx, ended_rx) = mpsc::channel::<()>();
        std::thread::scope(|scope| {
            let handle = scope.spawn(|| {
                for frames in work_rx {
                    process(audio.as_mut(), &mut audio_log, frames, &mut wrong);
                    let _ = ended_tx.send(());
                }
            });
            'blocks: for _ in 0..cx.range(4, 14) {
                for _ in 0..cx.range(0, 4) {
                    control.act(cx);
                }
                if cx.chance(0.01) {
                    for _ in 0..cx.pick(&[70, 300, 1100]) {
                        control.act(cx);
                    }
                }
                let frames = cx.pick(&[1, 2, 5, 16]);
                work_tx.send(frames).unwrap();
                // In the middle of every piece of the block
                let mut waited = Duration::ZERO;
                loop {
                    let step = Duration::from_micros(200);
                    if mid_rx.recv_timeout(step).is_ok() {
                        for _ in 0..cx.range(0, 3) {
                            control.act(cx);
                        }
                        let _ = go_tx.send(());
                        waited = Duration::ZERO;
                    } else if ended_rx.try_recv().is_ok() {
                        break;
                    } else {
                        waited += step;
                        if handle.is_finished() {
                            break 'blocks;
                        }
                        if waited > PATIENCE {
                            hang = true;
                            break 'blocks;
                        }
                    }
                }
            }
            drop(work_tx);
            drop(go_tx);
            if handle.join().is_err() {
                hang = true;
            }
        });
    } else {
        let scale = cx.pick(&[200, 2_000, 10_000]);
        std::thread::scope(|scope| {
            let finished = done.clone();
            let (audio, audio_log, wrong) = (&mut audio, &mut audio_log, &mut wrong);
            let handle = scope.spawn(move || {
                let mut audio_cx = Cx::new(Value::Null, audio_seed, 0);
                let mut calls = 0;
                while calls < 60 && !finished.load(SeqCst) {
                    let frames = audio_cx.pick(&[1, 2, 3, 8, 20, 40]);
                    process(audio.as_mut(), audio_log, frames, wrong);
                    pause(&mut audio_cx, 2_000);
                    calls += 1;
                }
                process(audio.as_mut(), audio_log, 40, wrong);
            });
            for _ in 0..cx.range(20, 60) {
                control.act(cx);
                pause(cx, scale);
            }
            done.store(true, SeqCst);
            if handle.join().is_err() {
                hang = true;
            }
        });
    }
    if hang {
        violations.push(json!({"message": "the audio process panicked or did not return"}));
    }
    for w in wrong.iter().take(3) {
        violations.push(json!({"message": w}));
    }
    let mut lines = control.log.lines;
    lines.append(&mut audio_log.lines);
    lines.sort_by_key(|l| l.0);
    let lines: Vec<Value> = lines.into_iter().map(|l| l.1).collect();
    json!({"trace": {"lines": lines}, "rendezvous": rendezvous, "max_frames": max_frames})
}
