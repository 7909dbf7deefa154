//! Session.tla (C20): sessions of the whole API. Every call has to return,
//! without waiting for anything, and write finite samples within the bound
//! that the specification gives.
use super::zoo::{self, Zoo};
use crate::common::*;
use rand::Rng;
use rawdio::{prelude::*, *};
use serde_json::Value;
use std::time::{Duration, Instant};

const MANY: usize = 3000;
const FAR: f64 = 2.0e9;
/// A call that waits at least this long is a stall, if it does so every time
const STALL: Duration = Duration::from_millis(100);
const SLOW: Duration = Duration::from_secs(15);

enum Failure {
    Wrong(String),
    Stalled(String),
}

impl From<String> for Failure {
    fn from(message: String) -> Self {
        Failure::Wrong(message)
    }
}

/// The range of each parameter that has one: least, most and default
fn range(node: &Zoo, parameter: usize) -> (f64, f64, f64) {
    let level = |db: f64| Level::from_db(db).as_linear();
    match (node, parameter) {
        (Zoo::Biquad(_), 0) => (20.0, 20_000.0, 1000.0),
        (Zoo::Biquad(_), 1) => (0.1, 10.0, 0.7),
        (Zoo::Biquad(_), _) => (0.0, level(100.0), 1.0),
        (Zoo::Compressor(_), 0) => (0.0, 1000.0, 1.0),
        (Zoo::Compressor(_), 1) => (0.0, 10_000.0, 10.0),
        (Zoo::Compressor(_), 2) => (1.0, f64::MAX, 3.0),
        (Zoo::Compressor(_), 3) => (-128.0, 24.0, 0.0),
        (Zoo::Compressor(_), 4) => (0.0, 24.0, 0.0),
        (Zoo::Compressor(_), _) => (0.0, level(12.0), 1.0),
        (Zoo::Convolution(_) | Zoo::Waveshaper(_), _) => (0.0, 1.0, 0.5),
        (Zoo::Oscillator(_), 0) => (20.0, 20_000.0, 440.0),
        (Zoo::Pan(_), _) => (-1.0, 1.0, 0.0),
        _ => panic!("harness: no range"),
    }
}

fn value(node: &Zoo, parameter: usize, v: i64, negative: bool) -> f64 {
    if matches!((node, parameter), (Zoo::Gain(_), 0) | (Zoo::Oscillator(_), 1)) {
        let sign = if negative { -1.0 } else { 1.0 };
        return if v == 0 { 0.0 } else { sign * 10.0_f64.powi(v as i32) };
    }
    let (least, most, default) = range(node, parameter);
    match v {
        0 => least,
        1 => most,
        2 => least + (most - least) * 0.37,
        3 => default,
        4 => most + 1.0,
        _ => least - 1.0e3,
    }
}

struct Session {
    rig: Rig,
    nodes: Vec<Option<Zoo>>,
    channels: [usize; 8],
    crowd: Vec<Gain>,
    max_frames: usize,
    sent: usize,
    input: f32,
    outputs: usize,
    inputs: usize,
}

/// How long this thread has run, and how long it has waited for its turn
fn effort() -> Option<(Duration, Duration)> {
    let text = std::fs::read_to_string("/proc/thread-self/schedstat").ok()?;
    let mut numbers = text.split_whitespace().map_while(|v| v.parse().ok().map(Duration::from_nanos));
    Some((numbers.next()?, numbers.next()?))
}

impl Session {
    fn seconds(&self, frames: f64) -> f64 {
        frames / self.rig.sample_rate as f64
    }

    fn time(&self, when: i64) -> Timestamp {
        Timestamp::from_seconds(match when {
            -2 => -1.0,
            -1 => 0.0,
            1_000_000 => FAR,
            k => self.rig.context.current_time().as_seconds() + self.seconds(k as f64 + if k % 2 == 1 { 0.5 } else { 0.0 }),
        })
    }

    fn later(&self, start: Timestamp, duration: i64) -> Timestamp {
        let length = if duration == 1_000_000 { FAR } else { self.seconds(duration as f64) };
        Timestamp::from_seconds((start.as_seconds() + length).min(FAR))
    }

    fn with<R>(&mut self, x: usize, f: impl FnOnce(&mut Zoo) -> R) -> R {
        f(self.nodes[x - 1].as_mut().unwrap_or_else(|| panic!("harness: no node {x}")))
    }

    fn between<R>(&self, x: usize, y: usize, f: impl FnOnce(&GraphNode, &GraphNode) -> R) -> R {
        let (a, b) = (self.nodes[x - 1].as_ref().unwrap(), self.nodes[y - 1].as_ref().unwrap());
        a.with(|a| b.with(|b| f(a, b)))
    }

    fn event(&mut self, x: usize, what: usize, when: i64, a: i64, b: usize) {
        let rate = self.rig.sample_rate;
        let at = self.time(when);
        let channels = self.channels[x - 1];
        let frame = |n: f64| Timestamp::from_seconds(n / rate as f64);
        let position = [frame(0.0), frame(1.0), frame(20.5), frame(300.0), frame(30_000.0), Timestamp::from_seconds(1.0e6)][b];
        let end = [frame(0.0), frame(0.5), frame(22.0), frame(500.0), frame(1.0), Timestamp::from_seconds(FAR)][(b + what) % 6];
        let length = [0.0, 1.0, 0.25, 100.0, 1.0e6, 33.0][b];
        let length = Duration::from_secs_f64(length / rate as f64);
        let level = if a == 0 { Level::zero() } else { Level::from_linear(10.0_f64.powi(a as i32)) };
        self.with(x, |node| match node {
            Zoo::Sampler(s) => match what {
                0 => s.start_now(),
                1 => s.stop_now(),
                2 => s.start_from_position_at_time(at, position),
                3 => s.stop_at_time(at),
                4 => s.enable_loop(position, end),
                5 => s.cancel_loop(),
                6 => s.cancel_all(),
                7 => s.enable_loop_at_time(at, position, end),
                _ => s.cancel_loop_at_time(at),
            },
            Zoo::Adsr(n) => match what {
                0..=2 => n.note_on_at_time(at),
                3 | 4 => n.note_off_at_time(at),
                5 => n.set_attack_time(length),
                6 => n.set_decay_time(length),
                7 => n.set_release_time(length),
                _ => n.set_adsr(length, length, Level::from_db(-6.0), length),
            },
            Zoo::Recorder(r) => match what {
                0..=2 => r.borrow_mut().record_now(),
                3 => r.borrow_mut().stop_record_now(),
                4 | 5 => r.borrow_mut().stop_record_at_time(at),
                6 => drop(r.borrow_mut().take_recording()),
                _ => drop(r.borrow().is_recording()),
            },
            Zoo::Mixer(m) => m.set_level(what % channels, b % channels, level),
            _ => panic!("harness: no events"),
        });
    }

    fn flood(&mut self, x: usize, what: &str) {
        match what {
            "events" => {
                for i in 0..MANY {
                    self.event(x, if i % 5 == 0 { 8 } else { i % 4 }, [0, -1, 40][i % 3], 0, i % 5);
                }
            }
            "changes" => {
                for i in 0..MANY {
                    let at = self.time([-1, 0, 7, 1_000_000][i % 4]);
                    self.with(x, |node| {
                        let v = value(node, 0, (i % 3) as i64, false);
                        node.parameter(0).set_value_at_time(v, at);
                    });
                }
            }
            "connections" => {
                let context = self.rig.context.as_ref();
                let (a, b) = (Gain::new(context, 1), Gain::new(context, 1));
                for i in 0..MANY {
                    if i % 10 < 7 { a.node.connect_to(&b.node) } else { a.node.disconnect_from_node(&b.node) }
                }
            }
            _ => {
                for _ in 0..MANY {
                    drop(Gain::new(self.rig.context.as_ref(), 1));
                }
            }
        }
    }

    fn apply(&mut self, op: &[Value]) {
        let u = |i: usize| op[i].u();
        match op[0].s() {
            "create" => {
                let node = Zoo::new(self.rig.context.as_mut(), op[2].s(), u(3), u(4));
                self.nodes[u(1) - 1] = Some(node);
                self.channels[u(1) - 1] = u(3);
            }
            "drop" => self.nodes[u(1) - 1] = None,
            "connect" => self.between(u(1), u(2), |a, b| a.connect_to(b)),
            "part" => self.between(u(1), u(2), |a, b| a.connect_channels_to(b, u(3), u(4), u(5))),
            "disconnect" => self.between(u(1), u(2), |a, b| a.disconnect_from_node(b)),
            "output" => self.with(u(1), |n| n.with(|n| n.connect_to_output())),
            "input" => self.with(u(1), |n| n.with(|n| n.connect_to_input())),
            "set" => {
                let (x, p, v, how, when, duration) = (u(1), u(2), op[3].i(), op[4].s(), op[5].i(), op[6].i());
                let start = self.time(when);
                let end = self.later(start, duration);
                self.with(x, |node| {
                    let v = value(node, p, v, duration == 2);
                    let parameter = node.parameter(p);
                    match how {
                        "now" => parameter.set_value_now(v),
                        "at" => parameter.set_value_at_time(v, start),
                        "lin" => parameter.linear_ramp_to_value(v, start, end),
                        _ => parameter.exponential_ramp_to_value(v, start, end),
                    }
                });
            }
            "cancel" => {
                let when = op[3].i();
                let at = self.time(when);
                self.with(u(1), |node| {
                    let parameter = node.parameter(op[2].u());
                    if when < 0 { parameter.cancel_scheduled_changes() } else { parameter.cancel_scheduled_changes_ending_after(at) }
                    let _ = parameter.get_value();
                });
            }
            "event" => self.event(u(1), u(2), op[3].i(), op[4].i(), u(5)),
            "start" => self.rig.context.start(),
            "stop" => self.rig.context.stop(),
            "collect" => {
                self.rig.context.process_notifications();
                for node in self.nodes.iter().flatten() {
                    match node {
                        Zoo::Envelope(e) => drop(e.borrow_mut().take_notifications()),
                        Zoo::Recorder(r) => drop(r.borrow_mut().take_recording()),
                        _ => (),
                    }
                }
            }
            "flood" => self.flood(u(1), op[2].s()),
            "crowd" => {
                self.crowd.clear();
                if u(1) == 1 {
                    for _ in 0..1100 {
                        let gain = Gain::new(self.rig.context.as_ref(), 1);
                        if let Some(last) = self.crowd.last() {
                            last.node.connect_to(&gain.node);
                        }
                        self.crowd.push(gain);
                    }
                }
            }
            o => panic!("harness: {o}"),
        }
    }

    fn block(&mut self, cx: &mut Cx, frames: usize, step: &Value, at: usize) -> Result<(), Failure> {
        let style = cx.range(0, 4);
        let input: Audio = (0..self.inputs).map(|c| (0..frames).map(|f| {
            let k = self.sent + f;
            self.input * match style {
                0 => 1.0,
                1 => if (k / 3 + c) % 2 == 0 { 1.0 } else { -1.0 },
                2 => cx.rng.gen_range(-1.0..=1.0),
                3 => ((k as f32) * 0.1).sin(),
                _ => if k % 50 == 0 { 1.0 } else { 0.0 },
            }
        }).collect()).collect();
        self.sent += frames;
        pause();
        let before = effort();
        let since = Instant::now();
        let heard = self.rig.block(&input, self.outputs, frames);
        let took = since.elapsed();
        let (busy, slept) = match (before, effort()) {
            (Some((ran, waited)), Some((ran_after, waited_after))) => {
                let (ran, waited) = (ran_after - ran, waited_after - waited);
                (ran, took.saturating_sub(ran + waited))
            }
            _ => (took, Duration::ZERO),
        };
        let describe = |what: String| format!("at step {at}, a block of {frames} frames (at most {} at once, rate {}): {what}", self.max_frames, self.rig.sample_rate);
        if slept > STALL {
            return Err(Failure::Stalled(describe(format!("the process call waited: it took {took:?}, of which it ran {busy:?} and slept {slept:?}"))));
        }
        cx.ensure(busy < SLOW, || describe(format!("the process call took {took:?}, of which it ran {busy:?}")))?;
        let most = 10.0_f64.powi(step["decades"].i() as i32 + 1) + 1.0e-30;
        let silent = step["silent"].b();
        for (c, data) in heard.iter().enumerate() {
            for (f, v) in data.iter().enumerate() {
                if !v.is_finite() {
                    return Err(describe(format!("frame {f} of channel {c} is {v}")).into());
                }
                if (*v as f64).abs() > most {
                    return Err(describe(format!("frame {f} of channel {c} is {v}, where at most {most} is possible")).into());
                }
                if silent && *v != 0.0 {
                    return Err(describe(format!("frame {f} of channel {c} is {v}, and not silent")).into());
                }
            }
            cx.checks += data.len() as u64;
        }
        let time = self.rig.context.current_time().as_seconds();
        let expected = step["frames"].f() / self.rig.sample_rate as f64;
        cx.eq(|| describe("the time".to_string()), time, expected, 1.0e-9)?;
        Ok(())
    }
}

fn session(cx: &mut Cx, trace: &Value) -> Result<(), Failure> {
    let rate = cx.pick(&[1, 37, 1000, 8000, 22_050, 44_100, 44_100, 48_000, 48_000, 96_000, 192_000]);
    let max_frames = cx.pick(&[1, 5, 16, 64, 512, 1024]);
    let max_channels = cx.pick(&[3, 4, 8]);
    let steps = trace.a();
    let decades = steps[0]["op"].a()[1].i() as i32;
    let mut s = Session {
        rig: Rig::new(rate, max_channels, max_frames),
        nodes: (0..8).map(|_| None).collect(),
        channels: [0; 8],
        crowd: Vec::new(),
        max_frames,
        sent: 0,
        input: if decades < -30 { 0.0_f32.max(10.0_f64.powi(decades) as f32) } else { 10.0_f32.powi(decades) },
        outputs: cx.range(1, 4),
        inputs: cx.range(0, 4),
    };
    for (at, step) in steps.iter().enumerate().skip(1) {
        let op = step["op"].a();
        if op[0].s() == "block" {
            s.block(cx, op[1].u(), step, at)?;
        } else {
            s.apply(op);
        }
    }
    Ok(())
}

pub fn run(cx: &mut Cx, trace: &Value) -> Result<(), String> {
    let seed = cx.rng.gen();
    let mut stalls = 0;
    loop {
        let mut again = Cx::new(cx.params.clone(), seed, cx.variant);
        let result = session(&mut again, trace);
        cx.checks += again.checks;
        match result {
            Ok(()) => return Ok(()),
            Err(Failure::Wrong(message)) => return Err(message),
            Err(Failure::Stalled(message)) => {
                stalls += 1;
                if stalls == 3 {
                    return Err(message);
                }
            }
        }
    }
}
