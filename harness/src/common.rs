#![allow(dead_code)]
use rand::{rngs::StdRng, Rng, SeedableRng};
use rawdio::prelude::*;
use serde_json::Value;
use std::any::Any;
use std::cell::RefCell;

thread_local! { static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) }; }

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let text = format!("{info}");
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(text));
    }));
}

pub fn panic_message(panic: Box<dyn Any + Send>) -> String {
    if let Some(text) = LAST_PANIC.with(|p| p.borrow_mut().take()) {
        return text;
    }
    panic.downcast_ref::<&str>().map(|s| s.to_string()).unwrap_or_else(|| "panic".to_string())
}

/// Every engine starts a thread that ends up to a second after it is dropped
pub fn throttle_threads() {
    thread_local! { static COUNT: RefCell<usize> = const { RefCell::new(0) }; }
    let due = COUNT.with(|c| {
        *c.borrow_mut() += 1;
        *c.borrow() % 32 == 0
    });
    if !due {
        return;
    }
    for _ in 0..400 {
        let status = std::fs::read_to_string("/proc/self/status").unwrap_or_default();
        let threads: usize = status.lines().find_map(|l| l.strip_prefix("Threads:"))
            .and_then(|v| v.trim().parse().ok()).unwrap_or(0);
        if threads < 4000 {
            return;
        }
        std::thread::sleep(std::time::Duration::from_millis(10));
    }
}

/// The context of one run of one behaviour
pub struct Cx {
    pub params: Value,
    pub rng: StdRng,
    pub variant: usize,
    pub checks: u64,
    pub later: Vec<Later>,
}

/// A check of something that takes its time: it is tried again until it succeeds or time is up
pub type Later = Box<dyn FnMut() -> Result<u64, String>>;

impl Cx {
    pub fn later(&mut self, check: Later) {
        self.later.push(check);
    }

    pub fn new(params: Value, seed: u64, variant: usize) -> Self {
        Self { params, rng: StdRng::seed_from_u64(seed), variant, checks: 0, later: Vec::new() }
    }

    pub fn pick<T: Clone>(&mut self, items: &[T]) -> T {
        items[self.rng.gen_range(0..items.len())].clone()
    }

    pub fn chance(&mut self, p: f64) -> bool {
        self.rng.gen_bool(p)
    }

    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        self.rng.gen_range(lo..=hi)
    }

    /// One to `most` channels, and now and then a good many
    pub fn channels(&mut self, most: usize) -> usize {
        if self.chance(0.05) { self.pick(&[5usize, 8, 9, 12, 16, 17, 24]) } else { self.range(1, most) }
    }

    /// What samples are multiplied by, which must not matter to a linear node
    pub fn loudness(&mut self) -> f32 {
        self.pick(&[1.0, 1.0, 1.0, 1.0e-3, 1.0e-7, 1.0e4])
    }

    /// How many times over the channels of the specification are laid side by side
    pub fn copies(&mut self) -> usize {
        if self.chance(0.05) { self.pick(&[2usize, 3, 5, 9]) } else { 1 }
    }

    /// Cut `total` frames into blocks, in a style that depends on the variant
    pub fn partition(&mut self, total: usize) -> Vec<usize> {
        let style = self.range(0, 5);
        let mut parts = Vec::new();
        let mut left = total;
        while left > 0 {
            let n = match style {
                0 => left,
                1 => 1,
                2 => self.range(1, 3),
                3 => self.range(1, 8),
                4 => self.pick(&[1, 2, 4, 5, 16, 17, 33]),
                _ => self.range(1, left),
            };
            let n = n.min(left);
            parts.push(n);
            left -= n;
        }
        parts
    }

    /// Few, large blocks
    pub fn coarse_partition(&mut self, total: usize) -> Vec<usize> {
        let style = self.range(0, 2);
        let mut parts = Vec::new();
        let mut left = total;
        while left > 0 {
            let n = match style {
                0 => left,
                1 => self.pick(&[4095, 4096, 4097, 1, 1000]),
                _ => self.range(left / 5 + 1, left),
            };
            let n = n.min(left);
            parts.push(n);
            left -= n;
        }
        parts
    }

    pub fn max_frames(&mut self) -> usize {
        self.pick(&[1, 2, 3, 4, 7, 8, 16, 64, 100])
    }

    pub fn eq(&mut self, what: impl Fn() -> String, got: f64, want: f64, tol: f64) -> Result<(), String> {
        self.checks += 1;
        if (got - want).abs() <= tol * (1.0 + want.abs()) {
            Ok(())
        } else {
            Err(format!("{}: expected {want}, got {got}", what()))
        }
    }

    pub fn ensure(&mut self, ok: bool, what: impl Fn() -> String) -> Result<(), String> {
        self.checks += 1;
        if ok { Ok(()) } else { Err(what()) }
    }
}

pub type Audio = Vec<Vec<f32>>;

/// An engine: the context and the audio process
pub struct Rig {
    pub context: Box<dyn Context>,
    pub process: Box<dyn AudioProcess + Send>,
    pub sample_rate: usize,
}

impl Rig {
    pub fn new(sample_rate: usize, max_channels: usize, max_frames: usize) -> Self {
        // What is the default need not be said
        let mut options = EngineOptions::default();
        if sample_rate != 44_100 {
            options = options.with_sample_rate(sample_rate);
        }
        if max_channels != 2 {
            options = options.with_maximum_channel_count(max_channels);
        }
        if max_frames != 512 {
            options = options.with_maximum_frame_count(max_frames);
        }
        let (context, process) = match (sample_rate, max_channels, max_frames) {
            (44_100, 2, 512) => create_engine(),
            _ => create_engine_with_options(options),
        };
        Self { context, process, sample_rate }
    }

    pub fn started(sample_rate: usize, max_channels: usize, max_frames: usize) -> Self {
        let mut rig = Self::new(sample_rate, max_channels, max_frames);
        rig.context.start();
        rig
    }

    /// One process call
    pub fn block(&mut self, input: &Audio, output_channels: usize, frames: usize) -> Audio {
        run_block(self.process.as_mut(), self.sample_rate, input, output_channels, frames)
    }

    /// Process a stretch of input cut into the given blocks
    pub fn blocks(&mut self, input: &Audio, output_channels: usize, parts: &[usize]) -> Audio {
        let mut out = vec![Vec::new(); output_channels];
        let mut at = 0;
        for &n in parts {
            let part: Audio = input.iter().map(|c| c[at..at + n].to_vec()).collect();
            let res = self.block(&part, output_channels, n);
            for (o, r) in out.iter_mut().zip(res) {
                o.extend(r);
            }
            at += n;
        }
        out
    }

    /// Let a long time pass before anything happens, now and then; how many frames.
    /// `times` gives the number of the argument of an operation that is a time: one
    /// that is zero, and thus no later than "now", must stay so
    pub fn pass_time(&mut self, cx: &mut Cx, max_frames: usize, trace: &Value, times: &[(&str, usize)]) -> usize {
        let at_zero = trace.a().iter().any(|step| {
            let op = step["op"].a();
            times.iter().any(|(name, i)| op[0].s() == *name && op[*i].i() <= 0)
        });
        if at_zero || !cx.chance(0.008) {
            return 0;
        }
        let mut left = max_frames * cx.pick(&[1_000, 50_003, 170_001]);
        let total = left;
        while left > 0 {
            let n = left.min(cx.pick(&[1_000_000, 300_007]));
            self.block(&vec![], 1, n);
            left -= n;
        }
        total
    }

    /// Process many frames that nobody looks at
    pub fn skip(&mut self, frames: usize) {
        const AT_ONCE: usize = 1 << 19;
        let mut left = frames;
        let input = OwnedAudioBuffer::new(AT_ONCE, 0, self.sample_rate);
        let mut output = OwnedAudioBuffer::new(AT_ONCE, 1, self.sample_rate);
        while left > 0 {
            let n = left.min(AT_ONCE);
            let input = BorrowedAudioBuffer::slice_frames(&input, 0, n);
            let mut output = MutableBorrowedAudioBuffer::slice_frames(&mut output, 0, n);
            self.process.process(&input, &mut output);
            left -= n;
        }
    }

    /// Process silence-input blocks
    pub fn run(&mut self, output_channels: usize, parts: &[usize]) -> Audio {
        self.blocks(&vec![], output_channels, parts)
    }
}

thread_local! { static PAUSE: std::cell::Cell<(usize, u64)> = const { std::cell::Cell::new((0, 0)) }; }

/// Let the clock on the wall go on for a while before the given process call of this thread
pub fn pause_before(call: usize, milliseconds: u64) {
    PAUSE.with(|p| p.set((call, milliseconds)));
}

thread_local! { static PAUSED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }

/// Make the pause that may come before the next process call now
pub fn pause() {
    if PAUSED.with(|p| p.replace(true)) {
        return;
    }
    let (call, milliseconds) = PAUSE.with(|p| p.get());
    if call > 0 {
        PAUSE.with(|p| p.set((call - 1, milliseconds)));
        if call == 1 {
            std::thread::sleep(std::time::Duration::from_millis(milliseconds));
        }
    }
}

pub fn run_block(process: &mut dyn AudioProcess, sample_rate: usize, input: &Audio, output_channels: usize, frames: usize) -> Audio {
    let mut input_buffer = OwnedAudioBuffer::new(frames, input.len(), sample_rate);
    for (c, data) in input.iter().enumerate() {
        input_buffer.fill_from_slice(&data[..frames], SampleLocation::channel(c));
    }
    let mut output_buffer = OwnedAudioBuffer::new(frames, output_channels, sample_rate);
    pause();
    PAUSED.with(|p| p.set(false));
    // Stale contents must not survive
    output_buffer.fill_with_value(7.7e7);
    process.process(&input_buffer, &mut output_buffer);
    (0..output_channels)
        .map(|c| output_buffer.get_channel_data(SampleLocation::channel(c)).to_vec())
        .collect()
}

/// A place in a buffer, said in one of the ways there are to say it
pub fn place(channel: usize, frame: usize) -> SampleLocation {
    match (channel * 7 + frame) % 8 {
        0 => SampleLocation::channel(channel).offset_frames(frame),
        1 => SampleLocation::frame(frame).offset_channels(channel),
        2 => SampleLocation::origin().with_channel(channel).with_frame(frame),
        3 => SampleLocation::origin().offset_frames(frame).offset_channels(channel),
        4 => SampleLocation::new(channel, 0).with_frame(frame),
        5 => SampleLocation::new(5, frame).with_channel(channel),
        _ => SampleLocation::new(channel, frame),
    }
}

pub fn samples(n: f64, sample_rate: usize) -> Timestamp {
    Timestamp::from_seconds(n / sample_rate as f64)
}

// Access to JSON behaviours
pub trait J {
    fn i(&self) -> i64;
    fn u(&self) -> usize;
    fn f(&self) -> f64;
    fn s(&self) -> &str;
    fn a(&self) -> &Vec<Value>;
    fn b(&self) -> bool;
}

impl J for Value {
    fn i(&self) -> i64 { self.as_i64().unwrap_or_else(|| panic!("harness: not an integer: {self}")) }
    fn u(&self) -> usize { self.i() as usize }
    fn f(&self) -> f64 { self.as_f64().unwrap_or_else(|| panic!("harness: not a number: {self}")) }
    fn s(&self) -> &str { self.as_str().unwrap_or_else(|| panic!("harness: not a string: {self}")) }
    fn a(&self) -> &Vec<Value> { self.as_array().unwrap_or_else(|| panic!("harness: not an array: {self}")) }
    fn b(&self) -> bool { self.as_bool().unwrap_or_else(|| panic!("harness: not a boolean: {self}")) }
}
