//! Lanes.tla (C01): graphs of hundreds of nodes
use super::probe;
use crate::common::*;
use rawdio::prelude::*;
use serde_json::Value;

struct Lanes {
    head: GraphNode,
    end: GraphNode,
    lanes: Vec<Vec<Option<GraphNode>>>,
}

impl Lanes {
    /// 0 is the beginning, and the one after the last is the end
    fn node(&self, lane: usize, i: usize) -> &GraphNode {
        let nodes = &self.lanes[lane];
        if i == 0 {
            &self.head
        } else if i == nodes.len() + 1 {
            &self.end
        } else {
            nodes[i - 1].as_ref().unwrap_or_else(|| panic!("harness: no node {i}"))
        }
    }

    fn link(&self, lane: usize, i: usize) {
        self.node(lane, i - 1).connect_to(self.node(lane, i));
    }

    fn cut(&self, lane: usize, i: usize) {
        self.node(lane, i - 1).disconnect_from_node(self.node(lane, i));
    }
}

pub fn run(cx: &mut Cx, trace: &Value) -> Result<(), String> {
    let max_frames = cx.pick(&[1, 8, 16]);
    let mut rig = Rig::started(48_000, 2, max_frames);
    let one = |rig: &Rig, k: f32| probe::affine(rig.context.as_ref(), 1, 1, 1.0, move |_| k);
    let mut g = Lanes { head: one(&rig, 0.0), end: one(&rig, 0.0), lanes: (0..8).map(|_| Vec::new()).collect() };
    g.head.connect_to_input();
    g.end.connect_to_output();
    let mut whole_end = [true; 8];
    let steps = trace.a();
    let often = cx.chance(0.7);
    for (i, step) in steps.iter().enumerate() {
        let op = step["op"].a();
        let (l, n) = (op[1].u(), op.get(2).map_or(0, |n| n.u()));
        match op[0].s() {
            "grow" => {
                let before = g.lanes[l].len();
                if before > 0 && whole_end[l] {
                    g.cut(l, before + 1);
                }
                // The order in which the links are made is of no consequence
                let backwards = cx.chance(0.5);
                for _ in 0..n {
                    let node = one(&rig, 1.0);
                    g.lanes[l].push(Some(node));
                }
                let last = if before == 0 || whole_end[l] { before + n + 1 } else { before + n };
                if before == 0 {
                    whole_end[l] = true;
                }
                if backwards {
                    (before + 1..=last).rev().for_each(|i| g.link(l, i));
                } else {
                    (before + 1..=last).for_each(|i| g.link(l, i));
                }
            }
            "cut" => {
                g.cut(l, n);
                if n == g.lanes[l].len() + 1 {
                    whole_end[l] = false;
                }
            }
            "mend" => {
                g.link(l, n);
                if n == g.lanes[l].len() + 1 {
                    whole_end[l] = true;
                }
            }
            "drop" => {
                g.lanes[l][n - 1] = None;
                if n == g.lanes[l].len() {
                    whole_end[l] = false;
                }
            }
            "put" => g.lanes[l][n - 1] = Some(one(&rig, 1.0)),
            "clear" => {
                if cx.chance(0.5) {
                    g.lanes[l].reverse();
                }
                g.lanes[l].clear();
            }
            other => panic!("harness: {other}"),
        }
        if often || cx.chance(0.3) || i + 1 == steps.len() {
            let frames = cx.pick(&[1, 3, 9]);
            let base = cx.range(1, 40);
            let input: Audio = vec![(0..frames).map(|f| (base * 2 + f) as f32).collect()];
            let out = rig.block(&input, 1, frames);
            for f in 0..frames {
                let want = step["out"][0].f() + step["out"][1].f() * input[0][f] as f64;
                cx.eq(|| format!("step {i} {}: frame {f} of {frames}", step["op"]), out[0][f] as f64, want, 1e-6)?;
            }
        }
    }
    Ok(())
}
