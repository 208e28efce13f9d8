//@ at src/simplify/mod.rs
// Simplifying a topology.
#![allow(dead_code, unused)]
use super::simplify;
use super::simplify_edge::simplify_edge;
use topology::{Topology, TopoEdge};

pub struct D(u8);

pub fn code_simplify(t: Topology<D>, a: u64) -> Topology<D> { simplify(t, a) }
pub fn spec_simplify(t: Topology<D>, a: u64) -> Topology<D> {
    let Topology { regions, mut edges } = t;
    for i in 0 .. edges.len() {
        let p = simplify_edge(&edges[i].points, a);
        edges[i].points = p;
    }
    Topology { regions: regions, edges: edges }
}
