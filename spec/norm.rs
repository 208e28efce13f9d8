//@ at src/normalize.rs
// Normalizing: rotation, winding and joining of a ring's edges.
use std::collections::BTreeMap;
use geo::{Point, WindingOrder};
use super::{NormEdge, NormRing};
use topology::{DirectedEdge, Direction, Topology, TopologyBuilder, TopoRegion, TopoRing};
use geo::{Edge, Region, Ring};

type E = NormEdge<u32>;

fn before(a: &Point, b: &Point) -> bool { a.0 < b.0 || (a.0 == b.0 && a.1 < b.1) }
fn edge(points: Vec<Point>, regions: [ *const TopoRegion<u32>; 2 ]) -> E { NormEdge { points: points, regions: regions } }

/// index of the smallest of the points (the first, if there are several)
fn smallest(p: &[Point]) -> usize { p.iter().enumerate().min_by_key(|x| x.1).unwrap().0 }

// ---------------------------------------------------------------- rotation
pub fn pre_rotate_island(e: &E) -> bool { e.points.len() > 0 && e.points[0] == e.points[e.points.len() - 1] }
pub fn code_rotate_island(e: &E) -> E { super::rotate_island_edge(e) }
pub fn spec_rotate_island(e: &E) -> E {
    let n = e.points.len();
    let k = smallest(&e.points[..]);
    if k == 0 { return edge(e.points.clone(), e.regions); }
    let mut v = Vec::new();
    for i in k .. n - 1 { v.push(e.points[i]); }
    for i in 0 .. k + 1 { v.push(e.points[i]); }
    edge(v, e.regions)
}

// ---------------------------------------------------------------- winding
fn sum2(es: &[E]) -> i128 {
    let mut a: i128 = 0;
    for e in es {
        let p = &e.points;
        let mut i = 1;
        while i < p.len() {
            a += p[i - 1].0 as i128 * p[i].1 as i128 - p[i].0 as i128 * p[i - 1].1 as i128;
            i += 1;
        }
    }
    a
}
pub fn pre_norm_winding(es: &Vec<E>) -> bool { sum2(&es[..]) != 0 }
pub fn code_norm_winding(es: &Vec<E>) -> WindingOrder { super::calculate_winding_order_from_edges(es) }
pub fn spec_norm_winding(es: &Vec<E>) -> WindingOrder {
    if sum2(&es[..]) > 0 { WindingOrder::Clockwise } else { WindingOrder::CounterClockwise }
}
fn flip(w: WindingOrder) -> bool { match w { WindingOrder::Clockwise => false, _ => true } }

pub fn pre_wind_edges(es: &Vec<E>, _order: WindingOrder) -> bool { sum2(&es[..]) != 0 }
pub fn code_wind_edges(es: &Vec<E>, order: WindingOrder) -> Vec<E> { super::wind_edges(es, order) }
pub fn spec_wind_edges(es: &Vec<E>, order: WindingOrder) -> Vec<E> {
    let neg = sum2(&es[..]) < 0;
    if neg == flip(order) { return es.clone(); }
    let mut out = Vec::new();
    let n = es.len();
    for i in 0 .. n {
        let e = &es[n - 1 - i];
        let m = e.points.len();
        let mut v = Vec::new();
        for j in 0 .. m { v.push(e.points[m - 1 - j]); }
        out.push(edge(v, e.regions));
    }
    out
}

pub fn pre_rotate_edges(es: &Vec<E>) -> bool { es.len() != 1 }
pub fn code_rotate_edges(es: &Vec<E>) -> Vec<E> { super::rotate_edges(es) }
pub fn spec_rotate_edges(es: &Vec<E>) -> Vec<E> {
    let n = es.len();
    if n == 0 { return Vec::new(); }
    let best = es.iter().enumerate().min_by_key(|x| x.1.points[0]).unwrap().0;
    let mut v = Vec::new();
    for j in best .. n { v.push(es[j].clone()); }
    for j in 0 .. best { v.push(es[j].clone()); }
    v
}

pub fn pre_norm_ring_cmp(a: &NormRing<u32>, b: &NormRing<u32>) -> bool {
    a.edges.len() > 0 && b.edges.len() > 0 && a.edges[0].points.len() > 0 && b.edges[0].points.len() > 0
}
pub fn code_norm_ring_cmp(a: &NormRing<u32>, b: &NormRing<u32>) -> ::std::cmp::Ordering { a.cmp(b) }
pub fn spec_norm_ring_cmp(a: &NormRing<u32>, b: &NormRing<u32>) -> ::std::cmp::Ordering {
    let p = &a.edges[0].points[0];
    let q = &b.edges[0].points[0];
    if before(p, q) { ::std::cmp::Ordering::Less } else if before(q, p) { ::std::cmp::Ordering::Greater } else { ::std::cmp::Ordering::Equal }
}

// ---------------------------------------------------------------- joining
pub fn code_redundant(e: &E) -> bool { e.is_redundant() }
pub fn spec_redundant(e: &E) -> bool { e.regions[0] == e.regions[1] }

pub fn pre_join_related(es: &Vec<E>) -> bool { for e in es { if e.points.len() == 0 { return false; } } true }
pub fn code_join_related(es: &Vec<E>) -> Vec<E> { super::join_related_edges(es) }
fn same(a: &E, b: &E) -> bool { a.regions == b.regions }
pub fn spec_join_related(es: &Vec<E>) -> Vec<E> {
    let mut out: Vec<E> = Vec::new();
    for e in es {
        let n = out.len();
        if n > 0 && same(&out[n - 1], e) {
            out[n - 1].points.extend_from_slice(&e.points[1 ..]);
        } else {
            out.push(e.clone());
        }
    }
    let n = out.len();
    if n > 1 && same(&out[0], &out[n - 1]) {
        let mut p = out[n - 1].points.clone();
        p.extend_from_slice(&out[0].points[1 ..]);
        out[0].points = p;
        out.pop();
    }
    out
}

fn by_first(a: &NormRing<u32>, b: &NormRing<u32>) -> ::std::cmp::Ordering {
    let p = &a.edges[0].points[0];
    let q = &b.edges[0].points[0];
    if before(p, q) { ::std::cmp::Ordering::Less } else if before(q, p) { ::std::cmp::Ordering::Greater } else { ::std::cmp::Ordering::Equal }
}
pub fn code_join_rings(rings: &Vec<NormRing<u32>>) -> Vec<NormRing<u32>> { super::join_adjacent_rings(rings) }
pub fn spec_join_rings(rings: &Vec<NormRing<u32>>) -> Vec<NormRing<u32>> {
    let mut done: Vec<NormRing<u32>> = Vec::new();
    let mut open: BTreeMap<Point, E> = BTreeMap::new();
    for r in rings {
        let mut same: Vec<E> = Vec::new();
        let mut useful: Vec<E> = Vec::new();
        for e in r.edges.iter() { if e.regions[0] == e.regions[1] { same.push(e.clone()); } else { useful.push(e.clone()); } }
        match (same.len(), useful.len()) {
            (0, _) => { done.push(NormRing { edges: useful }); }
            (_, 0) => {}
            _ => {
                for e in useful {
                    assert!(!open.contains_key(&e.points[0]));
                    open.insert(e.points[0], e);
                }
            }
        }
    }
    if open.len() == 0 { return done; }
    while open.len() > 0 {
        let start = *open.keys().next().unwrap();
        let mut end = start;
        let mut es: Vec<E> = Vec::new();
        loop {
            let e = open.remove(&end).unwrap();
            end = *e.points.last().unwrap();
            es.push(e);
            if end == start { break; }
        }
        let es = super::join_related_edges(&es);
        let es = super::rotate_edges(&es);
        done.push(NormRing { edges: es });
    }
    done.sort_by(by_first);
    done
}

// ---------------------------------------------------------------- from and to rings
pub fn code_with_directed(e: &DirectedEdge<u32>) -> E { NormEdge::with_directed_edge(e) }
pub fn spec_with_directed(e: &DirectedEdge<u32>) -> E {
    let t = unsafe { &*e.edge };
    let n = t.points.len();
    let mut v = Vec::new();
    match e.direction {
        Direction::Forward => { for i in 0 .. n { v.push(t.points[i]); } }
        Direction::Backward => { for i in 0 .. n { v.push(t.points[n - 1 - i]); } }
    }
    let second = if t.rings[1].is_null() { ::std::ptr::null() } else { unsafe { (*t.rings[1]).region } };
    edge(v, [ unsafe { (*t.rings[0]).region }, second ])
}

pub fn code_into_ring(r: NormRing<u32>) -> Ring { r.into_ring() }
pub fn spec_into_ring(r: NormRing<u32>) -> Ring {
    let mut v = Vec::new();
    for e in r.edges.iter() { v.push(Edge(e.points.clone().into_boxed_slice())); }
    Ring::Edges(v.into_boxed_slice())
}

// each step in order, on each ring
pub fn code_region_rings(rings: &[TopoRing<u32>], order: WindingOrder) -> Box<[Ring]> { super::normalize_region_rings(rings, order) }
pub fn spec_region_rings(rings: &[TopoRing<u32>], order: WindingOrder) -> Box<[Ring]> {
    let mut all: Vec<NormRing<u32>> = Vec::new();
    for r in rings {
        let mut es: Vec<E> = Vec::new();
        for d in r.directed_edges.iter() { es.push(NormEdge::with_directed_edge(d)); }
        let es = super::join_related_edges(&es);
        let es = super::wind_edges(&es, order);
        let es = super::rotate_edges(&es);
        all.push(NormRing { edges: es });
    }
    let mut all = super::join_adjacent_rings(&all);
    all.sort_by(by_first);
    let v: Vec<Ring> = all.into_iter().map(|r| r.into_ring()).collect();
    v.into_boxed_slice()
}

pub fn code_normalize(t: &Topology<u32>) -> Topology<u32> { super::normalize(t) }
pub fn spec_normalize(t: &Topology<u32>) -> Topology<u32> {
    let mut b = TopologyBuilder::<u32>::new();
    for i in 0 .. t.regions.len() {
        let r = &t.regions[i];
        b.add_region(Region {
            data: r.data,
            outer_rings: super::normalize_region_rings(&r.outer_rings, WindingOrder::Clockwise),
            inner_rings: super::normalize_region_rings(&r.inner_rings, WindingOrder::CounterClockwise),
        });
    }
    b.into_topology()
}
