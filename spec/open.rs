//@ at src/read/shapefile/mod.rs
// Opening by name, with each encoding.
use std::fs;
use std::io;
use std::path::Path;
use encoding;
use super::shapefile::{ShapefileReader, ShapefileError};
use super::{shp, dbf, shapefile};

type File = io::BufReader<fs::File>;

pub fn code_open_ascii(p: &Path) -> Result<ShapefileReader<File, File>, ShapefileError> { super::open_ascii(p) }
pub fn spec_open_ascii(p: &Path) -> Result<ShapefileReader<File, File>, ShapefileError> { shapefile::open(p, encoding::all::ASCII) }
pub fn code_open_utf8(p: &Path) -> Result<ShapefileReader<File, File>, ShapefileError> { super::open_utf8(p) }
pub fn spec_open_utf8(p: &Path) -> Result<ShapefileReader<File, File>, ShapefileError> { shapefile::open(p, encoding::all::UTF_8) }
pub fn code_open_1252(p: &Path) -> Result<ShapefileReader<File, File>, ShapefileError> { super::open_windows1252(p) }
pub fn spec_open_1252(p: &Path) -> Result<ShapefileReader<File, File>, ShapefileError> { shapefile::open(p, encoding::all::WINDOWS_1252) }

pub fn code_shp_open(p: &Path) -> Result<shp::ShpReader<File>, shp::ShpError> { shp::open(p) }
pub fn spec_shp_open(p: &Path) -> Result<shp::ShpReader<File>, shp::ShpError> {
    let f = match fs::File::open(p) { Ok(f) => f, Err(e) => { return Err(shp::ShpError::IOError(e)); } };
    shp::ShpReader::new(io::BufReader::new(f))
}
pub fn code_dbf_open(p: &Path, e: encoding::EncodingRef) -> Result<dbf::DbfReader<File>, dbf::DbfError> { dbf::open(p, e) }
pub fn spec_dbf_open(p: &Path, e: encoding::EncodingRef) -> Result<dbf::DbfReader<File>, dbf::DbfError> {
    let f = match fs::File::open(p) { Ok(f) => f, Err(e) => { return Err(dbf::DbfError::IOError(e)); } };
    dbf::DbfReader::new(io::BufReader::new(f), e)
}
