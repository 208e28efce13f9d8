//@ at src/clip/topology.rs
// Clipping a topology.
use super::*;

/// some data
#[derive(Clone, Copy)]
pub struct D(u8);
fn before(a: &Point, b: &Point) -> bool { a.0 < b.0 || (a.0 == b.0 && a.1 < b.1) }
fn alike(a: &Point, b: &Point) -> bool { a.0 == b.0 && a.1 == b.1 }
// ---------------------------------------------------------------- straight edges along the mask
pub fn pre_new_edge(s: NewEdgeSet, a: &Point, b: &Point) -> bool { s.first_edge_id < 1 << 50 && !alike(a, b) }
pub fn code_new_edge(mut s: NewEdgeSet, a: &Point, b: &Point) -> (BuildDirectedEdge, NewEdgeSet) { let x = s.build_directed_edge(a, b); (x, s) }
pub fn spec_new_edge(mut s: NewEdgeSet, a: &Point, b: &Point) -> (BuildDirectedEdge, NewEdgeSet) { let x = do_new_edge(&mut s, a, b); (x, s) }
fn do_new_edge(s: &mut NewEdgeSet, a: &Point, b: &Point) -> BuildDirectedEdge {
    let forward = before(a, b);
    let key = if forward { BuildEdge(*a, *b) } else { BuildEdge(*b, *a) };
    let next = s.first_edge_id + s.edges.len();
    let dir = if forward { Direction::Forward } else { Direction::Backward };
    if !s.edges.contains_key(&key) { s.edges.insert(key, next); return BuildDirectedEdge { edge_id: next, direction: dir }; }
    BuildDirectedEdge { edge_id: s.edges[&key], direction: dir }
}

pub fn pre_clip_first(p: &[Point], _d: Direction) -> bool { p.len() > 0 }
pub fn code_clip_first(p: &[Point], d: Direction) -> Point { first_point(p, d) }
pub fn spec_clip_first(p: &[Point], d: Direction) -> Point { match d { Direction::Forward => p[0], _ => p[p.len() - 1] } }
pub fn pre_clip_last(p: &[Point], _d: Direction) -> bool { p.len() > 0 }
pub fn code_clip_last(p: &[Point], d: Direction) -> Point { last_point(p, d) }
pub fn spec_clip_last(p: &[Point], d: Direction) -> Point { match d { Direction::Backward => p[0], _ => p[p.len() - 1] } }

// ---------------------------------------------------------------- a ring
pub fn code_clip_ring(mut b: Builder<D>, r: &TopoRing<D>) -> (Option<BuildRing>, Builder<D>) { let x = b.clip_ring(r); (x, b) }
pub fn spec_clip_ring(mut b: Builder<D>, r: &TopoRing<D>) -> (Option<BuildRing>, Builder<D>) { let x = do_clip_ring(&mut b, r); (x, b) }
fn do_clip_ring(b: &mut Builder<D>, r: &TopoRing<D>) -> Option<BuildRing> {
    let mut out = Vec::new();
    let mut a: i128 = 0;
    let mut start: Option<Point> = None;
    let mut at: Option<Point> = None;
    for d in r.directed_edges.iter() {
        if let Some(id) = b.find_old_edge_id(d.edge) {
            let ps = &b.old_edges[id][..];
            let n = ps.len();
            let (p, q) = match d.direction { Direction::Forward => (ps[0], ps[n - 1]), _ => (ps[n - 1], ps[0]) };
            if start.is_none() { start = Some(p); }
            if let Some(last) = at {
                if !alike(&last, &p) {
                    a += exact_signed_area2([ last, p ].iter());
                    out.push(b.new_edges.build_directed_edge(&last, &p));
                }
            }
            out.push(BuildDirectedEdge { edge_id: id, direction: d.direction });
            at = Some(q);
            a += match d.direction { Direction::Forward => exact_signed_area2(ps.iter()), _ => exact_signed_area2(ps.iter().rev()) };
        }
    }
    if let (Some(p), Some(q)) = (start, at) {
        if !alike(&p, &q) {
            out.push(b.new_edges.build_directed_edge(&q, &p));
            a += exact_signed_area2([ q, p ].iter());
        }
    }
    if a == 0 { None } else { Some(BuildRing(out.into_boxed_slice())) }
}

pub fn code_clip_rings(mut b: Builder<D>, rs: &[TopoRing<D>]) -> (Box<[BuildRing]>, Builder<D>) { let x = b.clip_rings(rs); (x, b) }
pub fn spec_clip_rings(mut b: Builder<D>, rs: &[TopoRing<D>]) -> (Box<[BuildRing]>, Builder<D>) { let x = do_clip_rings(&mut b, rs); (x, b) }
fn do_clip_rings(b: &mut Builder<D>, rs: &[TopoRing<D>]) -> Box<[BuildRing]> {
    let mut v = Vec::new();
    for r in rs.iter() {
        if let Some(x) = b.clip_ring(r) { v.push(x); }
    }
    v.into_boxed_slice()
}

pub fn code_clip_region(mut b: Builder<D>, r: &TopoRegion<D>) -> Builder<D> { b.add_region(r); b }
pub fn spec_clip_region(mut b: Builder<D>, r: &TopoRegion<D>) -> Builder<D> { do_clip_region(&mut b, r); b }
fn do_clip_region(b: &mut Builder<D>, r: &TopoRegion<D>) {
    let outer = b.clip_rings(&r.outer_rings);
    if outer.len() == 0 { return; }
    let inner = b.clip_rings(&r.inner_rings);
    b.regions.push(BuildRegion { data: r.data, outer_rings: outer, inner_rings: inner });
}

// ---------------------------------------------------------------- all of it
pub fn code_clip_new(t: &Topology<D>, m: &ClipMask) -> Builder<D> { Builder::new(t, m) }
pub fn spec_clip_new(t: &Topology<D>, m: &ClipMask) -> Builder<D> {
    let mut ids = Vec::new();
    let mut kept: Vec<Box<[Point]>> = Vec::new();
    for e in t.edges.iter() {
        let c = clip_edge(&e.points, m);
        if c.len() < 2 {
            ids.push(None);
        } else {
            ids.push(Some(kept.len()));
            kept.push(c);
        }
    }
    let n = kept.len();
    Builder { regions: Vec::new(), old_edge_0_ptr: t.edges.as_ptr(), old_edges: kept, old_edge_id_finder: ids, new_edges: NewEdgeSet { first_edge_id: n, edges: HashMap::new() } }
}

pub fn code_clip_topology(t: &Topology<D>, m: &ClipMask) -> Topology<D> { clip_topology(t, m) }
pub fn spec_clip_topology(t: &Topology<D>, m: &ClipMask) -> Topology<D> {
    let mut b = Builder::new(t, m);
    for r in t.regions.iter() { b.add_region(r); }
    b.into_topology()
}

// ---------------------------------------------------------------- the result
pub fn code_clip_result(b: Builder<D>) -> Topology<D> { b.into_topology() }
pub fn spec_clip_result(b: Builder<D>) -> Topology<D> {
    // what is left of the old edges, then the new ones at their ids
    let first = b.new_edges.first_edge_id;
    let mut straight = vec![ BuildEdge(Point(0, 0), Point(0, 0)); b.new_edges.edges.len() ];
    for (e, id) in b.new_edges.edges { straight[id - first] = e; }
    let mut es: Vec<TopoEdge<D>> = Vec::new();
    for p in b.old_edges { es.push(TopoEdge { points: p, rings: [ ptr::null(), ptr::null() ] }); }
    for e in straight { es.push(TopoEdge { points: vec![ e.0, e.1 ].into_boxed_slice(), rings: [ ptr::null(), ptr::null() ] }); }
    let edges = es.into_boxed_slice();
    // every region and ring in its place
    let mut rs = Vec::new();
    for r in b.regions {
        let outer = place(&edges, r.outer_rings);
        let inner = place(&edges, r.inner_rings);
        rs.push(TopoRegion { data: r.data, outer_rings: outer, inner_rings: inner });
    }
    let mut regions = rs.into_boxed_slice();
    // now nothing moves any more
    for region in regions.iter_mut() {
        let p = region as *const TopoRegion<D>;
        for ring in region.outer_rings.iter_mut() { link(ring, p); }
        for ring in region.inner_rings.iter_mut() { link(ring, p); }
    }
    Topology { regions: regions, edges: edges }
}
fn place(edges: &[TopoEdge<D>], rings: Box<[BuildRing]>) -> Box<[TopoRing<D>]> {
    let mut out = Vec::new();
    for r in rings.iter() {
        let mut ds = Vec::new();
        for d in r.0.iter() { ds.push(DirectedEdge { edge: &edges[d.edge_id] as *const TopoEdge<D>, direction: d.direction }); }
        out.push(TopoRing { directed_edges: ds.into_boxed_slice(), region: ptr::null() });
    }
    out.into_boxed_slice()
}
fn link(ring: &mut TopoRing<D>, region: *const TopoRegion<D>) {
    ring.region = region;
    for d in ring.directed_edges.iter() {
        let e = unsafe { &mut *(d.edge as *mut TopoEdge<D>) };
        if !e.rings[0].is_null() {
            if !e.rings[1].is_null() { panic!(); }
            e.rings[1] = ring as *const TopoRing<D>;
        } else {
            e.rings[0] = ring as *const TopoRing<D>;
        }
    }
}
