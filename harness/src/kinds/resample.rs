//! Resample.tla (C14)
use crate::common::*;
use rawdio::prelude::*;
use serde_json::Value;

pub fn run(cx: &mut Cx, trace: &Value) -> Result<(), String> {
    let channels = cx.params["channels"].u();
    for step in trace.a() {
        let o: Vec<usize> = step["op"].a()[1..].iter().map(|v| v.u()).collect();
        let [p, q, slen, dlen, sc, sf, dc, df, cn] = o[..] else { panic!("harness") };
        let unit = cx.pick(&[1usize, 10, 300]);
        let mut source = OwnedAudioBuffer::new(slen, channels, p * unit);
        for c in 0..channels {
            for (j, s) in source.get_channel_data_mut(SampleLocation::channel(c)).iter_mut().enumerate() {
                *s = ((7 * j + 13 * c) % 1024) as f32;
            }
        }
        let mut dest = OwnedAudioBuffer::new(dlen, channels, q * unit);
        dest.fill_with_value(-5.0);
        dest.sample_rate_convert_from(&source, SampleLocation::new(sc, sf), SampleLocation::new(dc, df), cn);
        for c in 0..channels {
            let data = dest.get_channel_data(SampleLocation::channel(c));
            let inside = c >= dc && c < dc + cn;
            let untouched = if inside { &data[..df] } else { data };
            cx.ensure(untouched.iter().all(|s| *s == -5.0), || format!("channel {c} was changed where it should not be: {}", step["op"]))?;
            if inside {
                for (k, at) in step["at"].a().iter().enumerate() {
                    let want = step["want"][c - dc][k].f() / q as f64;
                    cx.eq(|| format!("channel {c} frame {at} of {}", step["op"]), data[df + at.u()] as f64, want, 1e-5)?;
                }
            }
        }
    }
    Ok(())
}
