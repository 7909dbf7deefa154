//! Buffer.tla (C14)
use crate::common::*;
use rawdio::prelude::*;
use rawdio::verif_hooks::SampleRange;
use serde_json::Value;

fn value(cell: &Value, i: usize) -> f32 {
    (cell[0].i() * (i as i64 + 1) + cell[1].i()) as f32
}

fn spread(cells: &Value, k: usize) -> Vec<f32> {
    cells.a().iter().flat_map(|c| (0..k).map(move |i| value(c, i))).collect()
}

fn with_view(buffer: &dyn AudioBuffer, path: &[Value], k: usize, f: &mut dyn FnMut(&dyn AudioBuffer)) {
    let Some(step) = path.first() else { return f(buffer) };
    let (x, y) = (step[1].u(), step[2].u());
    let slice = match step[0].s() {
        "frames" => BorrowedAudioBuffer::slice_frames(buffer, x * k, y * k),
        "channels" => BorrowedAudioBuffer::slice_channels(buffer, x, y),
        _ => BorrowedAudioBuffer::slice_channels_and_frames(buffer, x * k, y),
    };
    with_view(&slice, &path[1..], k, f)
}

fn with_view_mut(buffer: &mut dyn AudioBuffer, path: &[Value], k: usize, f: &mut dyn FnMut(&mut dyn AudioBuffer)) {
    let Some(step) = path.first() else { return f(buffer) };
    let (x, y) = (step[1].u(), step[2].u());
    let mut slice = match step[0].s() {
        "frames" => MutableBorrowedAudioBuffer::slice_frames(buffer, x * k, y * k),
        "channels" => MutableBorrowedAudioBuffer::slice_channels(buffer, x, y),
        _ => MutableBorrowedAudioBuffer::slice_channels_and_frames(buffer, x * k, y),
    };
    with_view_mut(&mut slice, &path[1..], k, f)
}

fn range(r: &Value, k: usize) -> SampleRange {
    SampleRange::new(r[0].u(), r[1].u() * k, r[2].u(), r[3].u() * k)
}

/// All of a buffer, through the samples it says it has
fn contents(buffer: &dyn AudioBuffer) -> Vec<Vec<f32>> {
    (0..buffer.channel_count()).map(|c| (0..buffer.frame_count()).map(|f| buffer.get_sample(place(c, f))).collect()).collect()
}

fn compare(cx: &mut Cx, what: &str, got: &[Vec<f32>], want: &[Vec<f32>]) -> Result<(), String> {
    cx.checks += 1;
    if got == want {
        return Ok(());
    }
    if got.len() != want.len() || got.iter().zip(want).any(|(g, w)| g.len() != w.len()) {
        return Err(format!("{what}: {} channels of {:?} frames instead of {} of {:?}", got.len(), got.first().map(|c| c.len()), want.len(), want.first().map(|c| c.len())));
    }
    for c in 0..got.len() {
        for f in 0..got[c].len() {
            if got[c][f] != want[c][f] {
                return Err(format!("{what}: channel {c} frame {f}: expected {}, got {}", want[c][f], got[c][f]));
            }
        }
    }
    Ok(())
}

pub fn run(cx: &mut Cx, trace: &Value) -> Result<(), String> {
    let p = cx.params.clone();
    let k = cx.pick(&[1usize, 1, 2, 3, 7, 8, 15, 16, 17, 19, 32]);
    // Long buffers, too
    let k = if cx.chance(0.03) { cx.pick(&[103usize, 128, 211, 400]) } else { k };
    // A cell that is not zero might stand for one frame that is
    let k = if k == 1 && trace.a().iter().any(|s| s["op"][0].s() == "silent") { 2 } else { k };
    let (frames, sample_rate) = (p["frames"].u() * k, 48_000);
    let make = |b: usize| {
        let channels = p["ch"][b].u();
        let mut buffer = OwnedAudioBuffer::new(frames, channels, sample_rate);
        for c in 0..channels {
            for f in 0..frames {
                let (cell, i) = ((f / k) as i64 + 1, (f % k) as i64 + 1);
                let ch = c as i64 + 1;
                let v = (b as i64 + 1 + ch) * i + 100 * ch + 10 * cell + 5 * b as i64;
                buffer.set_sample(place(c, f), v as f32);
            }
        }
        buffer
    };
    let mut bufs = [make(0), make(1)];
    let mut log: Vec<String> = Vec::new();
    for step in trace.a() {
        let op = step["op"].a();
        let on = (step["on"].s() == "b") as usize;
        let path = step["path"].a();
        log.push(format!("{} of {}{}", step["op"], step["on"], step["path"]));
        let [a, b] = &mut bufs;
        let (dst, src) = if on == 0 { (a, &*b) } else { (b, &*a) };
        let at = |c: &Value, f: &Value| place(c.u(), f.u() * k);
        // What was read, if anything
        let mut read: Option<Vec<Vec<f32>>> = None;
        match op[0].s() {
            "frombuffer" | "extend" | "pad" | "fromslice" | "silent" | "tointerleaved" | "readrange" => {
                with_view(dst, path, k, &mut |view| {
                    let owned = OwnedAudioBuffer::from_buffer(view);
                    read = Some(match op[0].s() {
                        "frombuffer" => contents(&owned),
                        "extend" => {
                            let mut out = Vec::new();
                            with_view(src, op[1].a(), k, &mut |other| out = contents(&owned.extended_with_buffer(other)));
                            out
                        }
                        "readrange" => contents(&BorrowedAudioBuffer::slice(view, range(&op[1], k))),
                        "pad" => contents(&owned.padded_to_length(owned.frame_count() + op[1].u() * k)),
                        "fromslice" => contents(&OwnedAudioBuffer::from_slice(view.get_channel_data(at(&op[1], &op[2])), op[3].u(), sample_rate)),
                        "silent" => vec![(0..view.channel_count()).map(|c| view.channel_is_silent(c) as u8 as f32).collect()],
                        _ => {
                            let (channels, frames) = (op[1].u(), op[2].u() * k);
                            let mut out = vec![7777.0; channels * frames + 5];
                            view.copy_to_interleaved(&mut out, channels, frames);
                            vec![out]
                        }
                    });
                });
            }
            _ => with_view_mut(dst, path, k, &mut |view| match op[0].s() {
                "fill" => view.fill_with_value(op[1].f() as f32),
                "clear" => view.clear(),
                "fillch" => view.fill_channel_with_value(op[1].u(), op[2].f() as f32),
                "set" | "addsample" => {
                    for i in 0..k {
                        let location = at(&op[1], &op[2]).offset_frames(i);
                        if op[0].s() == "set" { view.set_sample(location, op[3].f() as f32) } else { view.add_sample(location, op[3].f() as f32) }
                    }
                }
                "copy" | "add" | "addgain" => with_view(src, op[1].a(), k, &mut |source| {
                    let (from, to) = (at(&op[2], &op[3]), at(&op[4], &op[5]));
                    let (channels, frames) = (op[6].u(), op[7].u() * k);
                    match op[0].s() {
                        "copy" => view.copy_from(source, from, to, channels, frames),
                        "add" => view.add_from(source, from, to, channels, frames),
                        _ => view.add_from_with_gain(source, from, to, channels, frames, op[8].f() as f32),
                    }
                }),
                "applygain" => {
                    let table: Vec<f32> = op[1].a().iter().flat_map(|g| vec![g.f() as f32; k]).collect();
                    view.apply_gain(&table);
                }
                "clearrange" => view.clear_range(&range(&op[1], k)),
                "gainrange" => view.apply_gain_value(&range(&op[1], k), op[2].f() as f32),
                "copywithin" => view.copy_within(&range(&op[1], k), op[2].u() * k),
                "fillrange" => MutableBorrowedAudioBuffer::slice(view, range(&op[1], k)).fill_with_value(op[2].f() as f32),
                "dup" => view.duplicate_channel(at(&op[1], &op[2]), op[3].u(), op[4].u() * k),
                "fillslice" => view.fill_from_slice(&spread(&op[3], k), at(&op[1], &op[2])),
                "interleaved" => {
                    let (cells, channels) = (op[1].a(), op[2].u());
                    let data: Vec<f32> = cells.iter().flat_map(|f| (0..k).flat_map(move |i| f.a().iter().map(move |c| value(c, i)))).collect();
                    view.fill_from_interleaved(&data, channels, cells.len() * k);
                }
                o => panic!("harness: {o}"),
            }),
        }
        let text = log.join("; ");
        for (i, name) in ["a", "b"].iter().enumerate() {
            let want: Vec<Vec<f32>> = step[name].a().iter().map(|c| spread(c, k)).collect();
            compare(cx, &format!("buffer {name} (k = {k}) after {text}"), &contents(&bufs[i]), &want)?;
            // The raw channels, and the iterator, say the same
            for (c, data) in want.iter().enumerate() {
                let raw = bufs[i].get_channel_data(SampleLocation::channel(c)) == &data[..];
                cx.ensure(raw, || format!("channel data of {name} after {text}"))?;
            }
            let all: Vec<f32> = bufs[i].frame_iter().map(|l| bufs[i].get_sample(l)).collect();
            cx.ensure(all == want.concat(), || format!("frame_iter of {name} after {text}"))?;
        }
        if let Some(got) = read {
            let want: Vec<Vec<f32>> = match op[0].s() {
                "silent" => {
                    let got_silent = &got[0];
                    let want: Vec<f32> = step["res"].a().iter().map(|s| s.f() as f32).collect();
                    cx.ensure(*got_silent == want, || format!("silence {got_silent:?} after {text}"))?;
                    continue;
                }
                "tointerleaved" => {
                    let mut w: Vec<f32> = step["res"].a().iter().flat_map(|f| (0..k).flat_map(move |i| f.a().iter().map(move |c| if c[1].i() == 7777 { 7777.0 } else { value(c, i) }))).collect();
                    w.extend([7777.0; 5]);
                    vec![w]
                }
                _ => step["res"].a().iter().map(|c| spread(c, k)).collect(),
            };
            compare(cx, &format!("result (k = {k}) of {text}"), &got, &want)?;
        }
    }
    Ok(())
}
