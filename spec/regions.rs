//@ at src/read/shapefile/geo.rs
// From .shp rings to regions of integer geometry.
use std::io;
use geo::{Ring, Region, Point, WindingOrder};
use super::ShapefileGeoIterator;
use super::shapefile::{ShapefileReader, ShapefileError};
use super::shp::{ShpPolygonRing, ShpPoint, ShpBoundingBox};

fn scale(b: &ShpBoundingBox, p: &ShpPoint) -> Point {
    Point(((p.0 - b.0) / (b.2 - b.0) * 4294967295.0) as u32, ((p.1 - b.3) / (b.1 - b.3) * 4294967295.0) as u32)
}

pub fn code_quantize(b: ShpBoundingBox, p: ShpPoint) -> Point { super::ShapefileQuantizer::new(&b).quantize(&p) }
pub fn spec_quantize(b: ShpBoundingBox, p: ShpPoint) -> Point { scale(&b, &p) }

pub fn pre_regions<R: io::Read, S: io::Read>(x: ShapefileReader<R, S>) -> bool { super::shapefile::vs_join::fine(&x) }
pub fn code_regions<R: io::Read, S: io::Read>(mut x: ShapefileReader<R, S>) -> Option<Result<(Box<[u8]>, Box<[Ring]>, Box<[Ring]>), ShapefileError>> {
    match ShapefileGeoIterator::new(&mut x).next() {
        None => None,
        Some(Err(e)) => Some(Err(e)),
        Some(Ok(Region { data, outer_rings, inner_rings })) => Some(Ok((data.bytes, outer_rings, inner_rings))),
    }
}
pub fn spec_regions<R: io::Read, S: io::Read>(mut x: ShapefileReader<R, S>) -> Option<Result<(Box<[u8]>, Box<[Ring]>, Box<[Ring]>), ShapefileError>> {
    let b = { let b = x.bounding_box(); ShpBoundingBox(b.0, b.1, b.2, b.3) };
    match x.next() {
        None => None,
        Some(Err(e)) => Some(Err(e)),
        Some(Ok(r)) => {
            let mut outer = Vec::new();
            let mut inner = Vec::new();
            for ring in r.rings.iter() {
                let mut points = Vec::new();
                for p in ring.0.iter() { points.push(scale(&b, p)); }
                let ring = Ring::Points(points.into_boxed_slice());
                match ring.winding_order() {
                    WindingOrder::Clockwise => outer.push(ring),
                    _ => inner.push(ring),
                }
            }
            Some(Ok((r.data.bytes, outer.into_boxed_slice(), inner.into_boxed_slice())))
        }
    }
}
