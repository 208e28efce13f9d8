//@ at src/simplify/simplify_edge.rs
// What simplifying an edge means.
#![allow(dead_code, unused)]
use super::{simplify_edge, area2};
use geo;

fn twice(a: &geo::Point, b: &geo::Point, c: &geo::Point) -> u64 {
    let (ax, ay, bx, by, cx, cy) = (a.0 as i128, a.1 as i128, b.0 as i128, b.1 as i128, c.0 as i128, c.1 as i128);
    let t = ax * by - bx * ay + bx * cy - cx * by + cx * ay - ax * cy;
    (if t < 0 { -t } else { t }) as u64
}

pub fn code_simp_area2(a: &geo::Point, b: &geo::Point, c: &geo::Point) -> u64 { area2(a, b, c) }
pub fn spec_simp_area2(a: &geo::Point, b: &geo::Point, c: &geo::Point) -> u64 { twice(a, b, c) }

// ---------------------------------------------------------------- all of it
pub fn code_simp_edge(ps: &[geo::Point], t: u64) -> Box<[geo::Point]> { simplify_edge(ps, t) }
pub fn spec_simp_edge(ps: &[geo::Point], t: u64) -> Box<[geo::Point]> {
    let n = ps.len();
    if n < 3 || (same(&ps[0], &ps[n - 1]) && n < 4) { return ps.to_vec().into_boxed_slice(); }
    keep(ps, &weights(ps), t)
}
fn same(a: &geo::Point, b: &geo::Point) -> bool { a.0 == b.0 && a.1 == b.1 }

/// the weight of every inner point when it is eliminated
fn weights(ps: &[geo::Point]) -> Vec<u64> {
    let n = ps.len();
    let mut w = vec![ 0; n ];
    let mut left = vec![ true; n ];
    let mut least = 0;
    let mut rounds = 2;
    while rounds < n {
        // of the inner points left, the one of smallest weight
        let mut at = 0;
        let mut best = 0;
        let mut i = 1;
        while i < n - 1 {
            if left[i] {
                let mut a = i - 1;
                while !left[a] { a -= 1; }
                let mut c = i + 1;
                while !left[c] { c += 1; }
                let x = twice(&ps[a], &ps[i], &ps[c]);
                if at == 0 || x < best { at = i; best = x; }
            }
            i += 1;
        }
        if best > least { least = best; }
        w[at] = least;
        left[at] = false;
        rounds += 1;
    }
    w
}

/// the ends, and the inner points that weigh more than t; two inner points at least if the ends meet
fn keep(ps: &[geo::Point], w: &[u64], t: u64) -> Box<[geo::Point]> {
    let n = ps.len();
    let mut out = Vec::new();
    let mut i = 0;
    while i < n {
        if i == 0 || i == n - 1 || w[i] > t { out.push(ps[i]); }
        i += 1;
    }
    if same(&ps[0], &ps[n - 1]) && out.len() < 4 {
        let mut a = 1;
        let mut i = 2;
        while i < n - 1 { if w[i] > w[a] { a = i; } i += 1; }
        let mut b = if a == 1 { 2 } else { 1 };
        let mut i = b + 1;
        while i < n - 1 { if i != a && w[i] > w[b] { b = i; } i += 1; }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        return vec![ ps[0], ps[a], ps[b], ps[n - 1] ].into_boxed_slice();
    }
    out.into_boxed_slice()
}

// ---------------------------------------------------------------- whatever the weights are
pub fn code_simp_shape(ps: &[geo::Point], t: u64) -> Box<[geo::Point]> { simplify_edge(ps, t) }
