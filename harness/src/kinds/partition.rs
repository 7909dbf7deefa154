//! Partition.tla (C02): two engines with the same nodes, commands and input,
//! and different blocks, compared sample by sample
use super::zoo::{self, Zoo};
use crate::common::*;
use rawdio::{prelude::*, *};
use serde_json::Value;
use std::time::Duration;

struct Engine {
    rig: Rig,
    input: Gain,
    nodes: Vec<Zoo>,
    _sum: Mixer,
    envelopes: Vec<Vec<(usize, f64)>>,
}

const CHANNELS: usize = 2;

impl Engine {
    fn new(sample_rate: usize, max_frames: usize, kinds: &[&str], styles: &[usize], scale: usize) -> Self {
        let mut rig = Rig::started(sample_rate, CHANNELS, max_frames);
        let context = rig.context.as_mut();
        let input = Gain::new(context, CHANNELS);
        connect_nodes!("input" => input);
        let sum = Mixer::unity(context, CHANNELS);
        let mut nodes = Vec::new();
        // What is heard so far: None is the input
        let mut tails: Vec<Option<usize>> = vec![None];
        for (kind, style) in kinds.iter().zip(styles) {
            let mut node = Zoo::new(context, kind, CHANNELS, *style);
            prepare(&mut node, *style, sample_rate, scale);
            if *kind != "oscillator" && *kind != "sampler" {
                for t in &tails {
                    node.with(|n| match t {
                        None => connect_nodes_ref(&input.node, n),
                        Some(i) => { let source: &Zoo = &nodes[*i]; source.with(|s| connect_nodes_ref(s, n)) }
                    });
                }
                if *kind != "recorder" {
                    tails.clear();
                }
            }
            if *kind != "recorder" {
                tails.push(Some(nodes.len()));
            }
            nodes.push(node);
        }
        for t in &tails {
            match t {
                None => { connect_nodes!(input => sum); }
                Some(i) => nodes[*i].with(|s| connect_nodes_ref(s, &sum.node)),
            }
        }
        connect_nodes!(sum => "output");
        let envelopes = kinds.iter().map(|_| Vec::new()).collect();
        Self { rig, input, nodes, _sum: sum, envelopes }
    }

    fn collect(&mut self) {
        self.rig.context.process_notifications();
        for (node, seen) in self.nodes.iter_mut().zip(&mut self.envelopes) {
            if let Zoo::Envelope(e) = node {
                seen.extend(e.borrow_mut().take_notifications().iter().map(|n| (n.channel_index(), n.peak_level() as f64)));
            }
        }
    }
}

fn connect_nodes_ref(a: &GraphNode, b: &GraphNode) {
    a.connect_to(b);
}

pub fn prepare(node: &mut Zoo, style: usize, sample_rate: usize, scale: usize) {
    let frames = |n: usize| Duration::from_secs_f64(n as f64 * scale as f64 / sample_rate as f64);
    match node {
        Zoo::Adsr(a) => {
            a.set_attack_time(frames(style % 5));
            a.set_decay_time(frames(style / 2 % 4));
            a.set_sustain_level(Level::from_linear(0.3));
            a.set_release_time(frames(1 + style / 3 % 6));
        }
        Zoo::Sampler(s) if style % 2 == 0 => s.start_now(),
        Zoo::Recorder(r) if style % 2 == 0 => r.borrow_mut().record_now(),
        Zoo::Mixer(m) => m.set_level(0, 1, Level::from_db(-10.0)),
        _ => (),
    }
}

/// The same change for both engines
#[derive(Clone, Copy)]
pub struct Change {
    pub value: usize,
    pub start: Timestamp,
    pub end: Timestamp,
    pub parameter: usize,
    pub exponential: bool,
}

/// Values across the range of each parameter
fn value(node: &Zoo, parameter: usize, v: usize) -> f64 {
    match (node, parameter) {
        (Zoo::Biquad(_), 0) => [30.0, 700.0, 5000.0, 15_000.0][v],
        (Zoo::Biquad(_), 1) => [0.1, 0.7, 3.0, 9.0][v],
        (Zoo::Oscillator(_), 0) => [20.0, 110.0, 1234.5, 9876.0][v],
        (Zoo::Compressor(_), 0 | 1) => [0.1, 1.0, 20.0, 100.0][v],
        (Zoo::Compressor(_), 2) => [1.0, 2.0, 5.0, 20.0][v],
        (Zoo::Compressor(_), 3) => [-60.0, -30.0, -12.0, 0.0][v],
        (Zoo::Compressor(_), 4) => [0.0, 1.0, 6.0, 12.0][v],
        (Zoo::Waveshaper(_), 0) => [-6.0, 0.0, 6.0, 20.0][v],
        (Zoo::Pan(_), _) => [-1.0, -0.3, 0.0, 0.9][v],
        _ => [0.1, 0.5, 1.0, 1.5][v],
    }
}

pub fn apply(node: &mut Zoo, c: Change) {
    if node.parameters() > 0 {
        let p = c.parameter % node.parameters();
        let v = value(node, p, c.value);
        let negative = matches!(node, Zoo::Pan(_) | Zoo::Convolution(_) | Zoo::Waveshaper(_)) || matches!(node, Zoo::Compressor(_)) && p >= 3;
        let parameter = node.parameter(p);
        if c.start == c.end {
            parameter.set_value_at_time(v, c.end);
        } else if c.exponential && !negative {
            parameter.exponential_ramp_to_value(v, c.start, c.end);
        } else {
            parameter.linear_ramp_to_value(v, c.start, c.end);
        }
        return;
    }
    match node {
        Zoo::Adsr(a) => if c.value % 2 == 1 { a.note_on_at_time(c.start) } else { a.note_off_at_time(c.start) },
        Zoo::Sampler(s) => match c.value {
            0 => s.stop_at_time(c.start),
            1 => s.start_from_position_at_time(c.start, Timestamp::from_seconds(if c.exponential { 0.01 } else { 0.0 })),
            2 => s.enable_loop_at_time(c.start, Timestamp::from_seconds(0.001), Timestamp::from_seconds(0.006)),
            _ => s.cancel_loop_at_time(c.start),
        },
        Zoo::Recorder(r) => if c.value == 1 { r.borrow_mut().record_now() } else { r.borrow_mut().stop_record_at_time(c.start) },
        Zoo::Mixer(m) => m.set_level(c.value % 2, c.value / 2, Level::from_linear(0.25 * c.parameter as f64)),
        _ => (),
    }
}

fn scaled(cx: &mut Cx, parts: &[Value], scale: usize) -> Vec<usize> {
    let mut at = 0;
    let total: usize = parts.iter().map(|p| p.u()).sum::<usize>() * scale;
    let mut cuts = vec![0];
    for p in parts {
        at += p.u() * scale;
        let lo = *cuts.last().unwrap();
        // The boundaries need not be whole frames of the specification
        let jitter = if at == total || scale == 1 { 0 } else { cx.range(0, scale - 1) };
        cuts.push((at + jitter).min(total).max(lo));
    }
    *cuts.last_mut().unwrap() = total;
    cuts.windows(2).map(|w| w[1] - w[0]).collect()
}

pub fn run(cx: &mut Cx, trace: &Value) -> Result<(), String> {
    let first = zoo::KINDS[cx.variant % zoo::KINDS.len()];
    let second = cx.pick(&zoo::KINDS);
    let kinds = if cx.chance(0.5) { [first, second] } else { [second, first] };
    let styles = [cx.range(0, 59), cx.range(0, 59)];
    let sample_rate = cx.pick(&[44_100, 48_000, 8_000, 64, 44_100]);
    let heavy = kinds.contains(&"convolution");
    let scale = if heavy { cx.pick(&[1, 5, 60]) } else if cx.chance(0.02) { 1100 } else { cx.pick(&[1, 3, 20, 111]) };
    if std::env::var("SHOW").is_ok() { eprintln!("{kinds:?} {styles:?} {sample_rate} {scale}"); }
    let mut engines: Vec<Engine> = Vec::new();
    let mut sources = Vec::new();
    let mut frames_done = 0;
    let mut log = Vec::new();
    for step in trace.a() {
        let op = step["op"].a();
        log.push(step["op"].to_string());
        match op[0].s() {
            "engines" => {
                for m in &op[1..] {
                    let max = if heavy { (m.u() * scale).max(2) } else { m.u() * scale };
                    engines.push(Engine::new(sample_rate, max, &kinds, &styles, scale));
                }
                for c in 0..CHANNELS {
                    sources.push(0.3 + 0.4 * c as f32);
                }
            }
            "change" => {
                // Not before now, wherever within its frame; ends as well
                let time = |cx: &mut Cx, half: usize| {
                    let within = if half % 2 == 1 { cx.pick(&[0.25, 0.5, 0.9]) } else { 0.0 };
                    Timestamp::from_seconds(((half / 2) as f64 * scale as f64 + within) / sample_rate as f64)
                };
                let start = time(cx, op[3].u());
                let end = if op[4].u() == 0 { start } else { time(cx, op[3].u() + 2 * op[4].u()) };
                let c = Change { value: op[2].u(), start, end, parameter: cx.range(0, 6), exponential: cx.chance(0.4) };
                for e in &mut engines {
                    apply(&mut e.nodes[op[1].u() - 1], c);
                }
            }
            "stretch" => {
                let total: usize = op[1].a().iter().map(|p| p.u()).sum::<usize>() * scale;
                let loud = cx.chance(0.8);
                let input: Audio = (0..CHANNELS).map(|_| (0..total).map(|_| {
                    if loud { cx.range(0, 2000) as f32 / 1000.0 - 1.0 } else { 0.0 }
                }).collect()).collect();
                let mut outs = Vec::new();
                for (e, parts) in engines.iter_mut().zip(&op[1..]) {
                    let parts = scaled(cx, parts.a(), scale);
                    outs.push(e.rig.blocks(&input, CHANNELS, &parts));
                    e.collect();
                }
                let peak = outs[0].iter().flatten().fold(1.0_f32, |a, b| a.max(b.abs()));
                let tolerance = if heavy { 2e-4 } else { 2e-5 };
                for c in 0..CHANNELS {
                    for f in 0..total {
                        let (a, b) = (outs[0][c][f], outs[1][c][f]);
                        cx.ensure((a - b).abs() <= tolerance * peak, || {
                            format!("{kinds:?} {styles:?} at {sample_rate} Hz: channel {c} frame {} is {a} or {b}, depending on the blocks: {}",
                                frames_done + f, log.join(" "))
                        })?;
                    }
                }
                frames_done += total;
            }
            o => panic!("harness: {o}"),
        }
    }
    let (a, b) = engines.split_at_mut(1);
    for (i, (x, y)) in a[0].envelopes.iter().zip(&b[0].envelopes).enumerate() {
        cx.ensure(x.len() == y.len(), || format!("{kinds:?}: {} or {} envelope reports, depending on the blocks: {}", x.len(), y.len(), log.join(" ")))?;
        for (u, v) in x.iter().zip(y) {
            let peak = u.1.abs().max(1.0);
            cx.ensure(u.0 == v.0 && (u.1 - v.1).abs() <= 2e-4 * peak, || format!("{kinds:?}: node {i} reports {u:?} or {v:?}, depending on the blocks: {}", log.join(" ")))?;
        }
    }
    for (x, y) in a[0].nodes.iter().zip(&b[0].nodes) {
        if let (Zoo::Recorder(x), Zoo::Recorder(y)) = (x, y) {
            let (x, y) = (x.borrow_mut().take_recording(), y.borrow_mut().take_recording());
            let n = |b: &Option<OwnedAudioBuffer>| b.as_ref().map_or(0, |b| b.frame_count());
            cx.ensure(n(&x) == n(&y), || format!("{kinds:?}: recorded {} or {} frames, depending on the blocks: {}", n(&x), n(&y), log.join(" ")))?;
            for c in 0..CHANNELS {
                for f in 0..n(&x) {
                    let at = SampleLocation::new(c, f);
                    let (u, v) = (x.as_ref().unwrap().get_sample(at), y.as_ref().unwrap().get_sample(at));
                    cx.ensure((u - v).abs() <= 2e-4 * u.abs().max(1.0), || format!("{kinds:?}: recorded {u} or {v} in frame {f}, depending on the blocks: {}", log.join(" ")))?;
                }
            }
        }
    }
    let _ = &a[0].input;
    Ok(())
}
