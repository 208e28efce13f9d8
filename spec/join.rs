//@ at src/read/shapefile/shapefile.rs
// Joining .shp and .dbf records.
use std::fs;
use std::io;
use std::path::Path;
use encoding;
use super::{ShapefileReader, ShapefileError};
use super::super::shp;
use super::super::dbf;

type Item = Option<Result<(Box<[shp::ShpPolygonRing]>, Box<[u8]>), ShapefileError>>;

pub fn fine<R: io::Read, S: io::Read>(x: &ShapefileReader<R, S>) -> bool {
    x.shp_reader.header.file_n_bytes <= 8589934590 && dbf::vs_dbf::fine(&x.dbf_reader)
}
pub fn pre_join_next<R: io::Read, S: io::Read>(x: ShapefileReader<R, S>) -> bool {
    fine(&x)
}
/// One call of next() -> what it returns, and both readers
pub fn code_join_next<R: io::Read, S: io::Read>(mut x: ShapefileReader<R, S>) -> (Item, shp::ShpReader<R>, dbf::DbfReader<S>) {
    let r = match x.next() {
        None => None,
        Some(Err(e)) => Some(Err(e)),
        Some(Ok(x)) => Some(Ok((x.rings, x.data.bytes))),
    };
    (r, x.shp_reader, x.dbf_reader)
}
pub fn spec_join_next<R: io::Read, S: io::Read>(x: ShapefileReader<R, S>) -> (Item, shp::ShpReader<R>, dbf::DbfReader<S>) {
    let ShapefileReader { shp_reader: mut a, dbf_reader: mut b } = x;
    let s = a.next();
    let d = b.next();
    let r = match s {
        None => match d {
            None => None,
            Some(_) => Some(Err(ShapefileError::JoinError(String::new()))),
        },
        Some(s) => match d {
            None => Some(Err(ShapefileError::JoinError(String::new()))),
            Some(d) => match s {
                Err(e) => Some(Err(ShapefileError::ShpError(e))),
                Ok(s) => match d {
                    Err(e) => Some(Err(ShapefileError::DbfError(e))),
                    Ok(d) => Some(Ok((s.rings, d.bytes))),
                }
            }
        }
    };
    (r, a, b)
}

pub fn code_join_new<R: io::Read, S: io::Read>(r: R, s: S, e: encoding::EncodingRef) -> Result<(shp::ShpReader<R>, dbf::DbfReader<S>), ShapefileError> {
    match ShapefileReader::new(r, s, e) { Err(e) => Err(e), Ok(x) => Ok((x.shp_reader, x.dbf_reader)) }
}
pub fn spec_join_new<R: io::Read, S: io::Read>(r: R, s: S, e: encoding::EncodingRef) -> Result<(shp::ShpReader<R>, dbf::DbfReader<S>), ShapefileError> {
    match shp::ShpReader::new(r) {
        Err(e) => Err(ShapefileError::ShpError(e)),
        Ok(a) => match dbf::DbfReader::new(s, e) {
            Err(e) => Err(ShapefileError::DbfError(e)),
            Ok(b) => Ok((a, b)),
        }
    }
}

pub fn code_join_open(p: &Path, e: encoding::EncodingRef) -> Result<(shp::ShpReader<io::BufReader<fs::File>>, dbf::DbfReader<io::BufReader<fs::File>>), ShapefileError> {
    match super::open(p, e) { Err(e) => Err(e), Ok(x) => Ok((x.shp_reader, x.dbf_reader)) }
}
pub fn spec_join_open(p: &Path, e: encoding::EncodingRef) -> Result<(shp::ShpReader<io::BufReader<fs::File>>, dbf::DbfReader<io::BufReader<fs::File>>), ShapefileError> {
    match shp::open(p) {
        Err(e) => Err(ShapefileError::ShpError(e)),
        Ok(a) => match dbf::open(&p.with_extension("dbf"), e) {
            Err(e) => Err(ShapefileError::DbfError(e)),
            Ok(b) => Ok((a, b)),
        }
    }
}

// ---------------------------------------------------------------- what a joined reader says of its files
pub fn code_join_fields<R: io::Read, S: io::Read>(x: &ShapefileReader<R, S>) -> Box<[dbf::DbfField]> { x.dbf_fields() }
pub fn spec_join_fields<R: io::Read, S: io::Read>(x: &ShapefileReader<R, S>) -> Box<[dbf::DbfField]> { x.dbf_reader.meta.fields.to_vec().into_boxed_slice() }
pub fn code_join_field<R: io::Read, S: io::Read>(x: &ShapefileReader<R, S>, name: &str) -> Option<dbf::DbfField> { x.get_field(name) }
pub fn spec_join_field<R: io::Read, S: io::Read>(x: &ShapefileReader<R, S>, name: &str) -> Option<dbf::DbfField> { x.dbf_reader.get_field(name) }
pub fn code_join_box<R: io::Read, S: io::Read>(x: &ShapefileReader<R, S>) -> (f64, f64, f64, f64) { let b = x.bounding_box(); (b.0, b.1, b.2, b.3) }
pub fn spec_join_box<R: io::Read, S: io::Read>(x: &ShapefileReader<R, S>) -> (f64, f64, f64, f64) { let b = &x.shp_reader.header.bounding_box; (b.0, b.1, b.2, b.3) }
