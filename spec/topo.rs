//@ at src/topology/build.rs
// Building a topology.
use super::*;

/// some data
#[derive(Clone, Copy)]
pub struct D(u8);
type B = TopologyBuilder<D>;

/// twice the signed area of a closed path
fn twice(p: &[Point]) -> i128 {
    let mut a: i128 = 0;
    let mut i = 1;
    while i < p.len() {
        a += p[i - 1].0 as i128 * p[i].1 as i128 - p[i].0 as i128 * p[i - 1].1 as i128;
        i += 1;
    }
    a
}
fn before(a: &Point, b: &Point) -> bool { a.0 < b.0 || (a.0 == b.0 && a.1 < b.1) }
fn alike(a: &Point, b: &Point) -> bool { a.0 == b.0 && a.1 == b.1 }

// ---------------------------------------------------------------- edges
pub fn code_build_edge(mut b: B, e: &Edge) -> (Option<BuildDirectedEdge>, B) { let x = b.build_directed_edge(e); (x, b) }
pub fn spec_build_edge(mut b: B, e: &Edge) -> (Option<BuildDirectedEdge>, B) { let x = do_build_edge(&mut b, e); (x, b) }
fn do_build_edge(b: &mut B, e: &Edge) -> Option<BuildDirectedEdge> {
    let n = e.0.len();
    if n < 2 || (n == 2 && alike(&e.0[0], &e.0[1])) { return None; }
    let closed = alike(&e.0[0], &e.0[n - 1]);
    let forward = if closed { twice(&e.0) >= 0 } else { before(&e.0[0], &e.0[n - 1]) };
    let mut v = Vec::new();
    if forward { for i in 0 .. n { v.push(e.0[i]); } } else { for i in 0 .. n { v.push(e.0[n - 1 - i]); } }
    let key = BuildEdge(v);
    let next = b.edges.len();
    let id = if b.edges.contains_key(&key) { b.edges[&key] } else { b.edges.insert(key, next); next };
    Some(BuildDirectedEdge { edge_id: id, direction: if forward { Direction::Forward } else { Direction::Backward } })
}

// ---------------------------------------------------------------- rings, regions
pub fn code_build_ring(mut b: B, r: &Ring) -> (Option<BuildRing>, B) { let x = b.build_ring(r); (x, b) }
pub fn spec_build_ring(mut b: B, r: &Ring) -> (Option<BuildRing>, B) { let x = do_build_ring(&mut b, r); (x, b) }
fn do_build_ring(b: &mut B, r: &Ring) -> Option<BuildRing> {
    if r.area2() == 0 { return None; }
    let es = r.edges();
    let mut v = Vec::new();
    for e in es.iter() {
        if let Some(d) = b.build_directed_edge(e) { v.push(d); }
    }
    Some(BuildRing(v))
}

pub fn code_build_rings(mut b: B, rs: Box<[Ring]>) -> (Vec<BuildRing>, B) { let x = b.build_rings(rs); (x, b) }
pub fn spec_build_rings(mut b: B, rs: Box<[Ring]>) -> (Vec<BuildRing>, B) { let x = do_build_rings(&mut b, rs); (x, b) }
fn do_build_rings(b: &mut B, rs: Box<[Ring]>) -> Vec<BuildRing> {
    let mut v = Vec::new();
    for r in rs.iter() {
        if let Some(x) = b.build_ring(r) { v.push(x); }
    }
    v
}

pub fn code_build_region(mut b: B, r: Region<D>) -> B { b.add_region(r); b }
pub fn spec_build_region(mut b: B, r: Region<D>) -> B { do_build_region(&mut b, r); b }
fn do_build_region(b: &mut B, r: Region<D>) {
    let outer = b.build_rings(r.outer_rings);
    if outer.len() > 0 {
        let inner = b.build_rings(r.inner_rings);
        b.regions.push(BuildRegion { data: r.data, outer_rings: outer, inner_rings: inner });
    }
}

// ---------------------------------------------------------------- the result
pub fn code_build_topology(b: B) -> Topology<D> { b.into_topology() }
pub fn spec_build_topology(b: B) -> Topology<D> {
    // every edge at its id
    let n = b.edges.len();
    let mut slots: Vec<Option<TopoEdge<D>>> = Vec::new();
    for _ in 0 .. n { slots.push(None); }
    for (e, id) in b.edges { slots[id] = Some(TopoEdge { points: e.0.into_boxed_slice(), rings: [ ptr::null(), ptr::null() ] }); }
    let mut es: Vec<TopoEdge<D>> = Vec::new();
    for s in slots { es.push(s.unwrap()); }
    let edges = es.into_boxed_slice();
    // every region and ring in its place
    let mut rs = Vec::new();
    for r in b.regions {
        let outer = place(&edges, r.outer_rings);
        let inner = place(&edges, r.inner_rings);
        rs.push(TopoRegion { data: r.data, outer_rings: outer, inner_rings: inner });
    }
    let mut regions = rs.into_boxed_slice();
    // now nothing moves any more
    for region in regions.iter_mut() {
        let p = region as *const TopoRegion<D>;
        for ring in region.outer_rings.iter_mut() { link(ring, p); }
        for ring in region.inner_rings.iter_mut() { link(ring, p); }
    }
    Topology { regions: regions, edges: edges }
}
fn place(edges: &[TopoEdge<D>], rings: Vec<BuildRing>) -> Box<[TopoRing<D>]> {
    let mut out = Vec::new();
    for r in rings {
        let mut ds = Vec::new();
        for d in r.0.iter() { ds.push(DirectedEdge { edge: &edges[d.edge_id] as *const TopoEdge<D>, direction: d.direction }); }
        out.push(TopoRing { directed_edges: ds.into_boxed_slice(), region: ptr::null() });
    }
    out.into_boxed_slice()
}
fn link(ring: &mut TopoRing<D>, region: *const TopoRegion<D>) {
    ring.region = region;
    for d in ring.directed_edges.iter() {
        let e = unsafe { &mut *(d.edge as *mut TopoEdge<D>) };
        if !e.rings[0].is_null() {
            if !e.rings[1].is_null() { panic!(); }
            e.rings[1] = ring as *const TopoRing<D>;
        } else {
            e.rings[0] = ring as *const TopoRing<D>;
        }
    }
}
