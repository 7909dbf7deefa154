//! One of every kind of node, behind one interface
#![allow(dead_code)]
use rawdio::{prelude::*, *};
use std::cell::RefCell;
use std::rc::Rc;
use std::time::Duration;

pub enum Zoo {
    Probe(GraphNode),
    Adsr(Adsr),
    Biquad(Biquad),
    Compressor(Compressor),
    Convolution(Convolution),
    Envelope(Rc<RefCell<Envelope>>),
    Gain(Gain),
    Mixer(Mixer),
    Oscillator(Oscillator),
    Pan(Pan),
    Recorder(Rc<RefCell<Recorder>>),
    Sampler(Sampler),
    Waveshaper(Waveshaper),
}

pub const KINDS: [&str; 12] = [
    "adsr", "biquad", "compressor", "convolution", "envelope", "gain", "mixer", "oscillator", "pan", "recorder", "sampler", "waveshaper",
];

pub fn noise(frames: usize, channels: usize, sample_rate: usize, mut seed: u32) -> OwnedAudioBuffer {
    let mut buffer = OwnedAudioBuffer::new(frames, channels, sample_rate);
    for c in 0..channels {
        for f in 0..frames {
            seed = seed.wrapping_mul(1_664_525).wrapping_add(1_013_904_223);
            buffer.set_sample(SampleLocation::new(c, f), (seed >> 8) as f32 / (1 << 23) as f32 - 1.0);
        }
    }
    buffer
}

const FILTERS: [BiquadFilterType; 6] = [
    BiquadFilterType::LowPass, BiquadFilterType::HighPass, BiquadFilterType::BandPass,
    BiquadFilterType::Notch, BiquadFilterType::LowShelf, BiquadFilterType::HighShelf,
];

impl Zoo {
    /// `style` selects among the constructors and their arguments
    pub fn new(context: &mut dyn Context, kind: &str, channels: usize, style: usize) -> Self {
        let sr = context.get_sample_rate();
        match kind {
            "adsr" => Zoo::Adsr(Adsr::new(context, channels, sr)),
            "biquad" => Zoo::Biquad(Biquad::new(context, channels, FILTERS[style % 6])),
            "compressor" => Zoo::Compressor(Compressor::new(context, channels)),
            "convolution" => {
                let length = [1, 5, 64, 300, 17, 2][style % 6];
                let mut impulse = noise(length, channels, sr, style as u32);
                if style % 4 == 0 {
                    impulse.clear();
                    for c in 0..channels {
                        impulse.set_sample(SampleLocation::new(c, 0), 1.0);
                    }
                }
                Zoo::Convolution(Convolution::new(context, channels, impulse))
            }
            "envelope" => {
                let ms = [0, 1, 10, 100][style % 4];
                let per_second = [10.0, 1000.0, 3.7, sr as f64][style / 2 % 4];
                Zoo::Envelope(Envelope::new(context, channels, Duration::from_millis(ms), Duration::from_millis(ms * 3), per_second))
            }
            "gain" => Zoo::Gain(Gain::new(context, channels)),
            "mixer" => Zoo::Mixer(Mixer::unity(context, channels)),
            "oscillator" => Zoo::Oscillator(match style % 3 {
                0 => Oscillator::sine(context, 440.0, channels),
                1 => Oscillator::new(context, 1234.5, channels, vec![0.0, 1.0, -0.25, 0.5, -1.0]),
                _ => Oscillator::with_harmonics(context, 100.0, channels, &[Level::from_db(-3.0), Level::from_db(-9.0), Level::zero(), Level::from_db(-12.0)]),
            }),
            "pan" => Zoo::Pan(Pan::new(context, 2)),
            "recorder" => Zoo::Recorder(Recorder::new(context, channels, sr)),
            "sampler" => Zoo::Sampler(Sampler::new(context, noise([sr / 7 + 3, 500, 20_000, 37][style % 4], channels, sr, 5 + style as u32))),
            "waveshaper" => Zoo::Waveshaper(match style % 4 {
                0 => Waveshaper::tanh(context, channels),
                1 => Waveshaper::soft_saturator(context, channels, Level::from_db(-6.0)),
                2 => Waveshaper::hard_clip(context, channels, Level::from_db(-3.0)),
                _ => Waveshaper::new(context, channels, &|x| x * x * x),
            }),
            o => panic!("harness: {o}"),
        }
    }

    pub fn with<R>(&self, f: impl FnOnce(&GraphNode) -> R) -> R {
        match self {
            Zoo::Probe(n) => f(n),
            Zoo::Adsr(n) => f(&n.node),
            Zoo::Biquad(n) => f(&n.node),
            Zoo::Compressor(n) => f(&n.node),
            Zoo::Convolution(n) => f(&n.node),
            Zoo::Envelope(n) => f(&n.borrow().node),
            Zoo::Gain(n) => f(&n.node),
            Zoo::Mixer(n) => f(&n.node),
            Zoo::Oscillator(n) => f(&n.node),
            Zoo::Pan(n) => f(&n.node),
            Zoo::Recorder(n) => f(&n.borrow().node),
            Zoo::Sampler(n) => f(&n.node),
            Zoo::Waveshaper(n) => f(&n.node),
        }
    }

    pub fn parameters(&mut self) -> usize {
        match self {
            Zoo::Biquad(_) => 4,
            Zoo::Compressor(_) => 7,
            Zoo::Convolution(_) | Zoo::Oscillator(_) | Zoo::Waveshaper(_) => 2,
            Zoo::Gain(_) | Zoo::Pan(_) => 1,
            _ => 0,
        }
    }

    pub fn parameter(&mut self, index: usize) -> &mut AudioParameter {
        match (self, index) {
            (Zoo::Biquad(n), 0) => n.frequency(),
            (Zoo::Biquad(n), 1) => n.q(),
            (Zoo::Biquad(n), 2) => n.shelf_gain(),
            (Zoo::Biquad(n), _) => n.gain(),
            (Zoo::Compressor(n), 0) => n.attack(),
            (Zoo::Compressor(n), 1) => n.release(),
            (Zoo::Compressor(n), 2) => n.ratio(),
            (Zoo::Compressor(n), 3) => n.threshold(),
            (Zoo::Compressor(n), 4) => n.knee(),
            (Zoo::Compressor(n), 5) => n.wet(),
            (Zoo::Compressor(n), _) => n.dry(),
            (Zoo::Convolution(n), 0) => n.wet(),
            (Zoo::Convolution(n), _) => n.dry(),
            (Zoo::Oscillator(n), 0) => n.frequency(),
            (Zoo::Oscillator(n), _) => n.gain(),
            (Zoo::Waveshaper(n), 0) => n.overdrive(),
            (Zoo::Waveshaper(n), _) => n.mix(),
            (Zoo::Gain(n), _) => n.gain(),
            (Zoo::Pan(n), _) => n.pan(),
            _ => panic!("harness: no parameter"),
        }
    }
}
