//! Time.tla and Levels.tla (C21)
use crate::common::*;
use rawdio::prelude::*;
use serde_json::Value;
use std::cmp::Ordering;
use std::time::Duration;

const RESOLUTION: f64 = 1.0 / 4_294_967_296.0;

fn ordering(v: &Value) -> Ordering {
    v.i().cmp(&0)
}

pub fn time(cx: &mut Cx, trace: &Value) -> Result<(), String> {
    let second = cx.params["second"].f();
    let mut regs = [Timestamp::zero(); 3];
    let mut log: Vec<String> = Vec::new();
    for step in trace.a() {
        let op = step["op"].a();
        log.push(step["op"].to_string());
        let r = op[1].u() - 1;
        let make = |unit: &str, parameter: f64, k: f64| match unit {
            "seconds" => Timestamp::from_seconds(k / 4.0),
            "duration" => Timestamp::from_duration(Duration::from_nanos(k as u64 * (1_000_000_000 / parameter as u64))),
            "samples" => Timestamp::from_samples(k, parameter as usize),
            _ => Timestamp::from_beats(k / 4.0, parameter),
        };
        regs[r] = match op[0].s() {
            "zero" => Timestamp::zero(),
            "default" => Timestamp::default(),
            "from" => make(op[2].s(), op[3].f(), op[4].f() * op[5].f()),
            "inc" => {
                let from = regs[op[2].u() - 1];
                let (parameter, k) = (op[4].f(), op[5].f() * op[6].f());
                match op[3].s() {
                    "seconds" => from.incremented_by_seconds(k / 4.0),
                    "samples" => from.incremented_by_samples(k as usize, parameter as usize),
                    _ => from.incremented_by_beats(k / 4.0, parameter),
                }
            }
            "add" => regs[op[2].u() - 1] + regs[op[3].u() - 1],
            _ => regs[op[2].u() - 1] - regs[op[3].u() - 1],
        };
        for a in 0..3 {
            let seconds = step["reg"][a].f() / second;
            let tol = (step["err"][a].f() + 0.5) * RESOLUTION + seconds.abs() * 4.0 * f64::EPSILON;
            let text = || format!("register {a} after {}", log.join(" "));
            let got = regs[a].as_seconds();
            cx.ensure((got - seconds).abs() <= tol, || format!("{}: {seconds} s expected, got {got}", text()))?;
            for rate in [44_100usize, 48_000, 8_000, 96_000] {
                let got = regs[a].as_samples(rate);
                cx.ensure((got - seconds * rate as f64).abs() <= tol * rate as f64 + 1e-6, || format!("{}: {got} frames at {rate} for {seconds} s", text()))?;
            }
            for tempo in [60.0, 120.0, 90.0, 133.7] {
                let got = regs[a].as_beats(tempo);
                cx.ensure((got - seconds * tempo / 60.0).abs() <= tol * tempo / 60.0 + 1e-9, || format!("{}: {got} beats at {tempo} for {seconds} s", text()))?;
            }
            // There and back is exact
            let again = Timestamp::from_seconds(got);
            cx.ensure(again == regs[a] || got.abs() > 1e6 && (again.as_seconds() - got).abs() <= 2.0 * f64::EPSILON * got.abs(), || format!("{}: {got} s reads back as {}", text(), again.as_seconds()))?;
            for b in 0..3 {
                let want = ordering(&step["order"][a][b]);
                if want == Ordering::Equal && a != b {
                    let (x, y) = (regs[a].as_seconds(), regs[b].as_seconds());
                    let tol = (step["err"][a].f() + step["err"][b].f()) * RESOLUTION + x.abs() * 8.0 * f64::EPSILON;
                    cx.ensure((x - y).abs() <= tol, || format!("{}: {x} and {y} (register {b}) should be the same", text()))?;
                } else {
                    let got = regs[a].cmp(&regs[b]);
                    let partial = regs[a].partial_cmp(&regs[b]);
                    cx.ensure(got == want && partial == Some(want) && (regs[a] == regs[b]) == (want == Ordering::Equal),
                        || format!("{}: compared with register {b}: {got:?} instead of {want:?}", text()))?;
                }
            }
        }
    }
    Ok(())
}

pub fn levels(cx: &mut Cx, trace: &Value) -> Result<(), String> {
    let mut regs = [Level::zero(); 3];
    let mut log: Vec<String> = Vec::new();
    for step in trace.a() {
        let op = step["op"].a();
        log.push(step["op"].to_string());
        let r = op[1].u() - 1;
        regs[r] = match op[0].s() {
            "db" => if cx.chance(0.5) { Level::from_db(op[2].f()) } else { Level::from_db_f32(op[2].f() as f32) },
            "linear" => Level::from_linear(10f64.powi(op[2].i() as i32)),
            "unity" => Level::unity(),
            "zero" => Level::zero(),
            _ => regs[r].clamp(&regs[op[2].u() - 1], &regs[op[3].u() - 1]),
        };
        for a in 0..3 {
            let text = || format!("level {a} after {}", log.join(" "));
            let value = step["reg"][a].i();
            cx.eq(|| format!("decibels of {}", text()), regs[a].as_db(), step["db"][a].f(), 1e-9)?;
            let linear = if value == -100000 { 0.0 } else { 10f64.powf(value as f64 / 20.0) };
            let got = regs[a].as_linear();
            cx.ensure((got - linear).abs() <= 1e-9 * linear, || format!("{}: gain {got} instead of {linear}", text()))?;
            let single = regs[a].as_linear_f32();
            cx.ensure((single as f64 - linear).abs() <= 1e-6 * linear + 1e-40, || format!("{}: gain {single} instead of {linear}", text()))?;
            // Where silence begins, between the smallest levels here, is not said
            let zero = regs[a].is_zero();
            if value == -100000 || value >= -200 {
                cx.ensure(zero == (value == -100000), || format!("{}: is_zero {zero}", text()))?;
            }
            let unity = regs[a].is_unity();
            cx.ensure(unity == (value == 0), || format!("{}: is_unity {unity}", text()))?;
            for b in 0..3 {
                let want = ordering(&step["order"][a][b]);
                let close = want == Ordering::Equal && value != -100000 && (got - regs[b].as_linear()).abs() <= 1e-9 * got;
                let order = regs[a].partial_cmp(&regs[b]);
                cx.ensure(close || order == Some(want), || format!("{}: compared with level {b}: {order:?} instead of {want:?}", text()))?;
            }
        }
    }
    Ok(())
}
