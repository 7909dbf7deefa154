//! Graph.tla (C01): probe nodes in the real graph, every block compared with
//! the affine function of the system input that the specification computes
use super::probe;
use crate::common::*;
use rawdio::{connect_nodes, prelude::*};
use serde_json::Value;

struct Named<'a> {
    node: &'a GraphNode,
}

/// One operation by the macro, and the next one with it where the two make a chain
fn chain(nodes: &[Option<GraphNode>], op: &[Value], next: Option<&Value>) -> bool {
    let named = |v: &Value| Named { node: nodes[v.u()].as_ref().unwrap() };
    let last = if op[0].s() == "connect" { &op[2] } else { &op[1] };
    let next = next.map(|n| n["op"].a()).filter(|n| n[1] == *last);
    match (op[0].s(), next.map(|n| (n[0].s(), n))) {
        ("input", Some(("connect", n))) => { connect_nodes!("input" => named(&op[1]) => named(&n[2])); }
        ("input", Some(("output", _))) => { connect_nodes!("input" => named(&op[1]) => "output"); }
        ("connect", Some(("connect", n))) => { connect_nodes!(named(&op[1]) => named(&op[2]) => named(&n[2])); }
        ("connect", Some(("output", _))) => { connect_nodes!(named(&op[1]) => named(&op[2]) => "output"); }
        ("input", _) => { connect_nodes!("input" => named(&op[1])); return false; }
        ("output", _) => { connect_nodes!(named(&op[1]) => "output"); return false; }
        _ => { connect_nodes!(named(&op[1]) => named(&op[2])); return false; }
    }
    true
}

pub fn run(cx: &mut Cx, trace: &Value) -> Result<(), String> {
    let p = cx.params.clone();
    let ins: Vec<usize> = p["in"].a().iter().map(|v| v.u()).collect();
    let outs: Vec<usize> = p["out"].a().iter().map(|v| v.u()).collect();
    let (maxch, sysin, sysout) = (p["maxch"].u(), p["sysin"].u(), p["sysout"].u());

    let max_frames = cx.pick(&[1, 8, 16, 64]);
    let mut rig = Rig::started(48_000, maxch, max_frames);
    let small = p["small"].as_bool() == Some(true);
    let weight = |n: usize| if !small { (n + 1) as f32 } else if n % 3 == 0 { -1.0 } else { 1.0 };
    let make = |rig: &Rig, n: usize| {
        probe::affine(rig.context.as_ref(), ins[n - 1], outs[n - 1], weight(n), move |c| (10 * n + 3 * c + 1) as f32)
    };

    let mut nodes: Vec<Option<GraphNode>> = vec![None];
    for n in 1..=ins.len() {
        nodes.push(Some(make(&rig, n)));
    }

    let steps = trace.a();
    let mut made = false;
    for (i, step) in steps.iter().enumerate() {
        let op = step["op"].a();
        // made together with the operation before, as one chain
        let already = std::mem::take(&mut made);
        let n = op[1].u();
        match op[0].s() {
            _ if already => (),
            "connect" | "input" | "output" if cx.chance(0.5) => made = chain(&nodes, op, steps.get(i + 1)),
            "connect" => nodes[n].as_ref().unwrap().connect_to(nodes[op[2].u()].as_ref().unwrap()),
            "connect_channels" => nodes[n].as_ref().unwrap().connect_channels_to(
                nodes[op[2].u()].as_ref().unwrap(), op[3].u(), op[4].u(), op[5].u()),
            "disconnect" => nodes[n].as_ref().unwrap().disconnect_from_node(nodes[op[2].u()].as_ref().unwrap()),
            "input" => nodes[n].as_ref().unwrap().connect_to_input(),
            "output" => nodes[n].as_ref().unwrap().connect_to_output(),
            "drop" => nodes[n] = None,
            "add" => nodes[n] = Some(make(&rig, n)),
            other => panic!("harness: {other}"),
        }

        let process = match cx.variant {
            0 | 1 => true,
            2 => false,
            _ => cx.chance(0.4),
        };

        if !made && (process || i + 1 == steps.len()) {
            let frames = cx.pick(&[1, 3, 5, 16, 20, 33, 70]);
            let base = cx.range(1, 40);
            let input: Audio = (0..sysin).map(|c| (0..frames).map(|f| (base * (c + 2) + f) as f32).collect()).collect();
            let out = rig.block(&input, sysout, frames);
            for c in 0..sysout {
                let form = step["out"][c].a();
                for f in 0..frames {
                    let want = form[0].f() + (0..sysin).map(|j| form[j + 1].f() * input[j][f] as f64).sum::<f64>();
                    cx.eq(|| format!("step {i} {}: output channel {c} frame {f} of {frames}", step["op"]), out[c][f] as f64, want, 1e-6)?;
                }
            }
        }
    }
    Ok(())
}
