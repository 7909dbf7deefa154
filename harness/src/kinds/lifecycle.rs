//! Lifecycle.tla (C13): probes that count how often, where and when they are
//! processed and destroyed, among real nodes
use super::{probe, zoo::{noise, Zoo}};
use crate::alloc::{live, owned};
use crate::common::*;
use rawdio::verif_hooks::{DspParameters, DspProcessor, Id};
use rawdio::{prelude::*, *};
use serde_json::Value;
use std::cell::{Cell, RefCell};
use std::rc::{Rc, Weak};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::Arc;

thread_local! { static IN_PROCESS: Cell<bool> = const { Cell::new(false) }; }

#[derive(Default)]
struct Life {
    processed: AtomicUsize,
    destroyed: AtomicUsize,
    by_audio: AtomicBool,
}

struct Probe {
    life: Arc<Life>,
    own: f32,
    weight: f32,
}

impl DspProcessor for Probe {
    fn process_audio(&mut self, cx: &mut ProcessContext) {
        self.life.processed.fetch_add(1, SeqCst);
        for c in 0..2 {
            for f in 0..cx.output_buffer.frame_count() {
                let at = SampleLocation::new(c, f);
                cx.output_buffer.set_sample(at, self.own + self.weight * cx.input_buffer.get_sample(at));
            }
        }
    }
}

impl Drop for Probe {
    fn drop(&mut self) {
        self.life.destroyed.fetch_add(1, SeqCst);
        if IN_PROCESS.with(|p| p.get()) {
            self.life.by_audio.store(true, SeqCst);
        }
    }
}

/// Nodes that pass their input on, or nothing, and can be used without changing
/// that; and who owns the data given to them
fn neutral(context: &mut dyn Context, weight: i64, style: usize) -> (Zoo, Option<usize>) {
    let sr = context.get_sample_rate();
    if weight == 1 {
        return (match style % 4 {
            0 => Zoo::Gain(Gain::new(context, 2)),
            1 => Zoo::Pan(Pan::new(context, 2)),
            2 => Zoo::Mixer(Mixer::unity(context, 2)),
            _ => Zoo::Probe(probe::affine(context, 2, 2, 1.0, |_| 0.0)),
        }, None);
    }
    let kind = ["recorder", "envelope", "adsr", "sampler", "convolution", "biquad", "compressor", "oscillator", "waveshaper", "recorder", "envelope"][style % 11];
    match kind {
        "sampler" => {
            let (owner, sample) = owned(|| noise([500, 20_000][style % 2], 2, sr, 1));
            return (Zoo::Sampler(Sampler::new(context, sample)), Some(owner));
        }
        "convolution" => {
            let (owner, impulse) = owned(|| OwnedAudioBuffer::new([5, 300][style % 2], 2, sr));
            return (Zoo::Convolution(Convolution::new(context, 2, impulse)), Some(owner));
        }
        "waveshaper" => return (Zoo::Waveshaper(Waveshaper::new(context, 2, &|_| 0.0)), None),
        _ => (),
    }
    let mut node = Zoo::new(context, kind, 2, style);
    match &mut node {
        Zoo::Biquad(n) => n.gain().set_value_now(0.0),
        Zoo::Compressor(n) => n.wet().set_value_now(0.0),
        Zoo::Oscillator(n) => n.gain().set_value_now(0.0),
        _ => (),
    }
    (node, None)
}

/// To see whether a shared handle is really gone
enum Shared {
    Recorder(Weak<RefCell<Recorder>>),
    Envelope(Weak<RefCell<Envelope>>),
}

impl Shared {
    fn of(node: &Zoo) -> Option<Self> {
        match node {
            Zoo::Recorder(n) => Some(Shared::Recorder(Rc::downgrade(n))),
            Zoo::Envelope(n) => Some(Shared::Envelope(Rc::downgrade(n))),
            _ => None,
        }
    }

    fn gone(&self) -> bool {
        match self {
            Shared::Recorder(n) => n.strong_count() == 0,
            Shared::Envelope(n) => n.strong_count() == 0,
        }
    }
}

fn touch(node: &mut Zoo) {
    match node {
        Zoo::Gain(n) => {
            n.gain().set_value_now(1.0);
            n.gain().cancel_scheduled_changes_ending_after(Timestamp::from_seconds(1e3));
            let _ = n.gain().get_value();
        }
        Zoo::Pan(n) => n.pan().linear_ramp_to_value(0.0, Timestamp::zero(), Timestamp::from_seconds(1.0)),
        Zoo::Mixer(n) => n.set_level(1, 1, Level::unity()),
        Zoo::Sampler(n) => {
            n.start_from_position_at_time(Timestamp::from_seconds(1e6), Timestamp::zero());
            n.stop_now();
        }
        Zoo::Adsr(n) => n.note_off_at_time(Timestamp::zero()),
        Zoo::Recorder(n) => {
            n.borrow_mut().record_now();
            let _ = n.borrow_mut().take_recording();
        }
        Zoo::Envelope(n) => {
            let _ = n.borrow_mut().take_notifications();
        }
        _ => (),
    }
}

struct World {
    context: Option<Box<dyn Context>>,
    process: Option<Box<dyn AudioProcess + Send>>,
    nodes: Vec<Option<Zoo>>,
}

pub fn run(cx: &mut Cx, trace: &Value) -> Result<(), String> {
    let own: Vec<i64> = cx.params["own"].a().iter().map(|v| v.i()).collect();
    let weight: Vec<i64> = cx.params["weight"].a().iter().map(|v| v.i()).collect();
    let count = own.len();
    let max_frames = cx.pick(&[1, 4, 16]);
    let Rig { context, process, .. } = Rig::started(48_000, 2, max_frames);
    let mut w = World { context: Some(context), process: Some(process), nodes: (0..count).map(|_| None).collect() };
    let mut lives: Vec<Option<Arc<Life>>> = vec![None; count];
    // Whose allocations are a node's, and the data given to it
    let mut owners: Vec<Option<usize>> = vec![None; count];
    let mut given: Vec<Option<usize>> = vec![None; count];
    let mut log: Vec<String> = Vec::new();
    let elsewhere = cx.params.get("pause").is_none() && cx.chance(0.2);

    for step in trace.a() {
        let op = step["op"].a();
        log.push(step["op"].to_string());
        let x = if op.len() > 1 { op[1].u() - 1 } else { 0 };
        let y = if op.len() > 2 { op[2].u() - 1 } else { 0 };
        match op[0].s() {
            "create" => {
                let context = w.context.as_mut().unwrap().as_mut();
                w.nodes[x] = Some(if own[x] > 0 {
                    let life = Arc::new(Life::default());
                    lives[x] = Some(life.clone());
                    let probe = Probe { life, own: own[x] as f32, weight: weight[x] as f32 };
                    Zoo::Probe(GraphNode::new(Id::generate(), context, 2, 2, Box::new(probe), DspParameters::empty()))
                } else {
                    let style = cx.range(0, 99);
                    let (owner, (node, data)) = owned(|| neutral(context, weight[x], style));
                    (owners[x], given[x]) = (Some(owner), data);
                    node
                });
            }
            "drop" => {
                let shared = w.nodes[x].as_ref().and_then(Shared::of);
                w.nodes[x] = None;
                cx.ensure(shared.map_or(true, |s| s.gone()), || format!("node {} lives on although its handle was dropped: {}", x + 1, log.join(" ")))?;
            }
            "connect" => w.nodes[x].as_ref().unwrap().with(|a| w.nodes[y].as_ref().unwrap().with(|b| a.connect_to(b))),
            "disconnect" => w.nodes[x].as_ref().unwrap().with(|a| w.nodes[y].as_ref().unwrap().with(|b| a.disconnect_from_node(b))),
            "output" => w.nodes[x].as_ref().unwrap().with(|a| a.connect_to_output()),
            "drop context" => w.context = None,
            "drop process" => {
                let process = w.process.take();
                if elsewhere {
                    std::thread::spawn(move || drop(process)).join().map_err(|_| "panic in another thread".to_string())?;
                }
            }
            "block" => {
                let before: Vec<usize> = lives.iter().map(|l| l.as_ref().map_or(0, |l| l.processed.load(SeqCst))).collect();
                let frames = cx.pick(&[1, 2, 9]);
                let process = w.process.as_mut().unwrap();
                let input = vec![vec![0.0; frames]; 2];
                let mut body = move || {
                    IN_PROCESS.with(|p| p.set(true));
                    let out = run_block(process.as_mut(), 48_000, &input, 2, frames);
                    IN_PROCESS.with(|p| p.set(false));
                    out
                };
                let out = if elsewhere {
                    std::thread::scope(|s| s.spawn(body).join()).map_err(|_| "panic in the audio thread".to_string())?
                } else {
                    body()
                };
                for c in 0..2 {
                    for f in 0..frames {
                        cx.eq(|| format!("output after {}", log.join(" ")), out[c][f] as f64, step["heard"].f(), 1e-6)?;
                    }
                }
                for x in 0..count {
                    let place = step["place"][x].s();
                    if let Some(life) = &lives[x] {
                        if place == "garbage" || place == "gone" {
                            cx.ensure(life.processed.load(SeqCst) == before[x], || format!("node {} was processed after it was dropped: {}", x + 1, log.join(" ")))?;
                        }
                    }
                }
            }
            o => panic!("harness: {o}"),
        }
        if cx.chance(0.3) {
            w.nodes.iter_mut().flatten().for_each(touch);
            if let Some(context) = &mut w.context {
                context.process_notifications();
            }
        }
        for x in 0..count {
            if let Some(life) = &lives[x] {
                let place = step["place"][x].s();
                let destroyed = life.destroyed.load(SeqCst);
                cx.ensure(destroyed == 0 || place == "garbage" || place == "gone" && destroyed == 1, || {
                    format!("node {} ({place}) was destroyed {destroyed} times: {}", x + 1, log.join(" "))
                })?;
                cx.ensure(!life.by_audio.load(SeqCst), || format!("node {} was destroyed by the audio process: {}", x + 1, log.join(" ")))?;
            }
        }
    }

    // Whatever is garbage must go while the engine lives, and everything when it is dropped
    let last = trace.a().last().unwrap()["place"].clone();
    let log = log.join(" ");
    let garbage: Vec<usize> = (0..count).filter(|&x| (lives[x].is_some() || given[x].is_some()) && last[x].s() == "garbage").collect();
    // Only so many engines can live on
    static LINGERING: AtomicUsize = AtomicUsize::new(0);
    let linger = !garbage.is_empty() && (cx.params.get("pause").is_some() || cx.chance(0.2)) && LINGERING.fetch_add(1, SeqCst) < 600;
    let mut order: Vec<usize> = (0..count + 2).collect();
    for i in (1..order.len()).rev() {
        let j = cx.range(0, i);
        order.swap(i, j);
    }
    let all = lives.clone();
    let mut end = move |w: &mut World| {
        for i in &order {
            match *i {
                i if i < count => w.nodes[i] = None,
                i if i == count => w.context = None,
                _ => w.process = None,
            }
        }
    };
    let judge = move || -> Result<u64, String> {
        for (x, life) in all.iter().enumerate() {
            if let Some(life) = life {
                let n = life.destroyed.load(SeqCst);
                if n != 1 {
                    return Err(format!("node {} was destroyed {n} times after everything was dropped, after {log}", x + 1));
                }
                if life.by_audio.load(SeqCst) {
                    return Err(format!("node {} was destroyed by the audio process, after {log}", x + 1));
                }
            }
        }
        for (x, owner) in owners.iter().enumerate() {
            let left = owner.map_or(0, live);
            if left != 0 {
                return Err(format!("{left} allocations of node {} are left after everything was dropped, after {log}", x + 1));
            }
        }
        Ok(1)
    };
    if linger {
        let lives = lives.clone();
        cx.later(Box::new(move || {
            let waiting: Vec<usize> = garbage.iter().copied().filter(|&x| match (&lives[x], given[x]) {
                (Some(life), _) => life.destroyed.load(SeqCst) == 0,
                (None, Some(owner)) => live(owner) != 0,
                _ => false,
            }).collect();
            if waiting.is_empty() {
                end(&mut w);
                return judge();
            }
            Err(format!("nodes {waiting:?} (from 0) are still not destroyed while the engine lives on"))
        }));
    } else {
        end(&mut w);
        drop(w);
        cx.later(Box::new(judge));
    }
    Ok(())
}
