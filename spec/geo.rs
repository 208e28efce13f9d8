//@ at src/lib.rs
// Rings, areas, winding.
use geo::{self, Point, Ring, Edge, WindingOrder, Region};

/// twice the signed area by the shoelace formula, exactly
fn shoelace(p: &[Point]) -> i128 {
    let mut a: i128 = 0;
    let mut i = 1;
    while i < p.len() {
        a += p[i - 1].0 as i128 * p[i].1 as i128 - p[i].0 as i128 * p[i - 1].1 as i128;
        i += 1;
    }
    a
}
fn winding(a: i128) -> WindingOrder { if a < 0 { WindingOrder::CounterClockwise } else { WindingOrder::Clockwise } }
fn mag(a: i128) -> u64 {
    let m = if a < 0 { -a } else { a };
    if m > 18446744073709551615 { 18446744073709551615 } else { m as u64 }
}
fn clamp(a: i128) -> i64 {
    if a > 9223372036854775807 { 9223372036854775807 }
    else if a < -9223372036854775808 { -9223372036854775808 }
    else { a as i64 }
}

pub fn code_signed_area2(p: &[Point]) -> i64 { geo::signed_area2(p) }
pub fn spec_signed_area2(p: &[Point]) -> i64 { clamp(shoelace(p)) }
pub fn code_area2(p: &[Point]) -> u64 { geo::area2(p) }
pub fn spec_area2(p: &[Point]) -> u64 { mag(shoelace(p)) }
pub fn code_winding(p: &[Point]) -> WindingOrder { geo::winding_order(p) }
pub fn spec_winding(p: &[Point]) -> WindingOrder { winding(shoelace(p)) }
pub fn code_area_winding(p: &[Point]) -> (u64, WindingOrder) { geo::area2_and_winding_order(p) }
pub fn spec_area_winding(p: &[Point]) -> (u64, WindingOrder) { let a = shoelace(p); (mag(a), winding(a)) }

/// a Ring as Edges has the area of its edges' sum
fn ring_area(r: &Ring) -> i128 {
    match *r {
        Ring::Points(ref p) => shoelace(p),
        Ring::Edges(ref e) => {
            let mut a = 0;
            let mut i = 0;
            while i < e.len() { a += shoelace(&e[i].0); i += 1; }
            a
        }
    }
}
pub fn code_ring_area2(r: &Ring) -> u64 { r.area2() }
pub fn spec_ring_area2(r: &Ring) -> u64 { mag(ring_area(r)) }
pub fn code_ring_winding(r: &Ring) -> WindingOrder { r.winding_order() }
pub fn spec_ring_winding(r: &Ring) -> WindingOrder { winding(ring_area(r)) }

pub fn code_ring_edges(r: &Ring) -> Box<[Edge]> { r.edges() }
pub fn spec_ring_edges(r: &Ring) -> Box<[Edge]> {
    match *r {
        Ring::Edges(ref e) => e.clone(),
        Ring::Points(ref p) => {
            let mut v = Vec::new();
            let mut i = 1;
            while i < p.len() {
                v.push(Edge(vec![ p[i - 1], p[i] ].into_boxed_slice()));
                i += 1;
            }
            v.into_boxed_slice()
        }
    }
}

/// every edge has two points or more and starts where the one before it ends
pub fn pre_ring_points(r: &Ring) -> bool {
    match *r {
        Ring::Points(_) => true,
        Ring::Edges(ref e) => {
            let mut i = 0;
            while i < e.len() {
                if e[i].0.len() < 2 { return false; }
                if i > 0 && e[i].0[0] != e[i - 1].0[e[i - 1].0.len() - 1] { return false; }
                i += 1;
            }
            true
        }
    }
}
pub fn code_ring_points(r: &Ring) -> Box<[Point]> { r.points() }
pub fn spec_ring_points(r: &Ring) -> Box<[Point]> {
    match *r {
        Ring::Points(ref p) => p.clone(),
        Ring::Edges(ref e) => {
            let mut v = Vec::new();
            let mut i = 0;
            while i < e.len() {
                let p = &e[i].0;
                if i == 0 { v.push(p[0]); }
                let mut j = 1;
                while j < p.len() { v.push(p[j]); j += 1; }
                i += 1;
            }
            v.into_boxed_slice()
        }
    }
}
