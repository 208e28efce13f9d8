//@ at src/lib.rs
// Clipping with a half-plane.
//
// Reference definitions.  Never compiled into topogeo: the driver adds this
// module to the crate only while it type-checks it for analysis.
use clip::ClipMask;
pub enum ClipLocation { Inside, OnEdge, Outside }
use geo::Point;

// ---------------------------------------------------------------- clip masks
pub fn code_mask_test(mask: &ClipMask, p: &Point) -> impl Sized { mask.test(p) }
pub fn spec_mask_test(mask: &ClipMask, p: &Point) -> ClipLocation {
    // signed distance into the kept half-plane
    let d = match *mask {
        ClipMask::MinX(x) => p.0 as i64 - x as i64,
        ClipMask::MaxX(x) => x as i64 - p.0 as i64,
        ClipMask::MinY(y) => p.1 as i64 - y as i64,
        ClipMask::MaxY(y) => y as i64 - p.1 as i64,
    };
    if d > 0 { ClipLocation::Inside } else if d == 0 { ClipLocation::OnEdge } else { ClipLocation::Outside }
}

fn coord(mask: &ClipMask) -> i128 {
    match *mask { ClipMask::MinX(v) | ClipMask::MaxX(v) | ClipMask::MinY(v) | ClipMask::MaxY(v) => v as i128 }
}
fn is_x(mask: &ClipMask) -> bool {
    match *mask { ClipMask::MinX(_) | ClipMask::MaxX(_) => true, _ => false }
}

/// The segment crosses (or touches) the mask line and is not parallel to it
pub fn pre_mask_intersect(mask: &ClipMask, a: &Point, b: &Point) -> bool {
    let c = coord(mask);
    let (p, q) = if is_x(mask) { (a.0 as i128, b.0 as i128) } else { (a.1 as i128, b.1 as i128) };
    (p < c && c < q) || (q < c && c < p)
}
pub fn code_mask_intersect(mask: &ClipMask, a: &Point, b: &Point) -> Point { mask.intersect(a, b) }
pub fn spec_mask_intersect(mask: &ClipMask, a: &Point, b: &Point) -> Point {
    let c = coord(mask);
    let (ax, ay, bx, by) = (a.0 as i128, a.1 as i128, b.0 as i128, b.1 as i128);
    if is_x(mask) {
        Point(c as u32, (ay + (c - ax) * (by - ay) / (bx - ax)) as u32)
    } else {
        Point((ax + (c - ay) * (bx - ax) / (by - ay)) as u32, c as u32)
    }
}

// ---------------------------------------------------------------- clipping a path
fn loc(mask: &ClipMask, p: &Point) -> ClipLocation { spec_mask_test(mask, p) }
pub fn code_clip_edge(points: &[Point], mask: &ClipMask) -> Box<[Point]> { ::clip::edge::clip_edge(points, mask) }
pub fn spec_clip_edge(points: &[Point], mask: &ClipMask) -> Box<[Point]> {
    let mut out: Vec<Point> = Vec::new();
    if points.len() < 2 { return out.into_boxed_slice(); }
    match loc(mask, &points[0]) { ClipLocation::Inside => out.push(points[0]), _ => {} }
    for i in 0 .. points.len() - 1 {
        let a = points[i];
        let b = points[i + 1];
        match (loc(mask, &a), loc(mask, &b)) {
            (ClipLocation::Inside, ClipLocation::Inside) => out.push(b),
            (ClipLocation::Inside, ClipLocation::OnEdge) => out.push(b),
            (ClipLocation::Inside, ClipLocation::Outside) => out.push(spec_mask_intersect(mask, &a, &b)),
            (ClipLocation::OnEdge, ClipLocation::Inside) => {
                if out.last() != Some(&a) { out.push(a); }
                out.push(b);
            }
            (ClipLocation::Outside, ClipLocation::Inside) => {
                out.push(spec_mask_intersect(mask, &a, &b));
                out.push(b);
            }
            _ => {}
        }
    }
    out.into_boxed_slice()
}

