//! Probe nodes, put into the real graph through the guarded hook
use rawdio::prelude::*;
use rawdio::verif_hooks::{DspParameters, DspProcessor, Id};
use rawdio::ProcessContext;

pub struct Fn1<F>(pub F);

impl<F: FnMut(&mut ProcessContext) + Send + Sync> DspProcessor for Fn1<F> {
    fn process_audio(&mut self, context: &mut ProcessContext) {
        (self.0)(context)
    }
}

pub fn node(
    context: &dyn Context,
    inputs: usize,
    outputs: usize,
    f: impl FnMut(&mut ProcessContext) + Send + Sync + 'static,
) -> GraphNode {
    GraphNode::new(Id::generate(), context, inputs, outputs, Box::new(Fn1(f)), DspParameters::empty())
}

/// Output channel c is `k(c) + w * input[c mod inputs]`
pub fn affine(context: &dyn Context, inputs: usize, outputs: usize, w: f32, k: impl Fn(usize) -> f32 + Send + Sync + 'static) -> GraphNode {
    node(context, inputs, outputs, move |cx| {
        let frames = cx.output_buffer.frame_count();
        for c in 0..outputs {
            for f in 0..frames {
                let x = if inputs > 0 { cx.input_buffer.get_sample(SampleLocation::new(c % inputs, f)) } else { 0.0 };
                cx.output_buffer.set_sample(SampleLocation::new(c, f), k(c) + w * x);
            }
        }
    })
}

/// A source of the given constant on every channel
pub fn constant(context: &dyn Context, outputs: usize, value: f32) -> GraphNode {
    affine(context, 0, outputs, 0.0, move |_| value)
}
