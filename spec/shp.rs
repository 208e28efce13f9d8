//@ at src/read/shapefile/shp.rs
// The .shp reader: what `new` and each `next` return for any stream, and the
// state they leave.  A stream is any sequence of bytes followed by a failure.
use std::io;
use super::{ShpReader, ShpHeader, ShpError, ShpPolygonRecord, ShpPolygonRing, ShpPoint, ShpBoundingBox};
use byteorder::{BigEndian, LittleEndian, ByteOrder};

fn be32(b: &[u8], i: usize) -> u32 { BigEndian::read_u32(&b[i .. i + 4]) }
fn le32(b: &[u8], i: usize) -> u32 { LittleEndian::read_u32(&b[i .. i + 4]) }
fn le64(b: &[u8], i: usize) -> f64 { LittleEndian::read_f64(&b[i .. i + 8]) }
fn bad<T>() -> Result<T, ShpError> { Err(ShpError::ParseError(String::new())) }

/// -> announced size, bounding box, bytes counted as read, stream
pub fn code_shp_new<R: io::Read>(r: R) -> Result<(usize, ShpBoundingBox, usize, R), ShpError> {
    match ShpReader::new(r) {
        Ok(x) => Ok((x.header.file_n_bytes, x.header.bounding_box, x.n_bytes_already_read, x.file)),
        Err(e) => Err(e),
    }
}
pub fn spec_shp_new<R: io::Read>(mut r: R) -> Result<(usize, ShpBoundingBox, usize, R), ShpError> {
    let mut b = [ 0u8; 100 ];
    match r.read_exact(&mut b) { Err(e) => return Err(ShpError::IOError(e)), Ok(_) => {} }
    if be32(&b, 0) == 9994 && le32(&b, 28) == 1000 && le32(&b, 32) == 5 {
        Ok((be32(&b, 24) as usize * 2, ShpBoundingBox(le64(&b, 36), le64(&b, 44), le64(&b, 52), le64(&b, 60)), 100, r))
    } else {
        bad()
    }
}

fn points(b: &[u8], np: usize, s: usize, e: usize) -> ShpPolygonRing {
    let mut pts = Vec::new();
    for j in s .. e {
        let o = 44 + 4 * np + 16 * j;
        pts.push(ShpPoint(le64(b, o), le64(b, o + 8)));
    }
    ShpPolygonRing(pts.into_boxed_slice())
}

/// Bytes of a polygon record, after its header
fn record(b: &[u8], number: u32) -> Result<ShpPolygonRecord, ShpError> {
    if b.len() < 44 || le32(b, 0) != 5 { return bad(); }
    let np = le32(b, 36) as usize;
    let nq = le32(b, 40) as usize;
    if np == 0 || b.len() != 44 + 4 * np + 16 * nq { return bad(); }
    let mut rings = Vec::new();
    for i in 0 .. np - 1 {
        let s = le32(b, 44 + 4 * i) as usize;
        let e = le32(b, 48 + 4 * i) as usize;
        if s > nq || e > nq || e < s + 3 { return bad(); }
        rings.push(points(b, np, s, e));
    }
    let s = le32(b, 40 + 4 * np) as usize;
    if s + 4 > nq { return bad(); }
    rings.push(points(b, np, s, nq));
    Ok(ShpPolygonRecord { record_number: number, rings: rings.into_boxed_slice() })
}

/// One call of next() in any reachable state -> what it returns; whether the reader is finished; if it
/// is not, how many bytes it has used and the stream
pub fn pre_shp_next<R: io::Read>(x: ShpReader<R>) -> bool { x.header.file_n_bytes <= 8589934590 }
pub fn code_shp_next<R: io::Read>(mut x: ShpReader<R>) -> (Option<Result<ShpPolygonRecord, ShpError>>, Option<(usize, R)>) {
    let size = x.header.file_n_bytes;
    let r = x.next();
    if x.n_bytes_already_read >= size { (r, None) } else { (r, Some((x.n_bytes_already_read, x.file))) }
}
pub fn spec_shp_next<R: io::Read>(x: ShpReader<R>) -> (Option<Result<ShpPolygonRecord, ShpError>>, Option<(usize, R)>) {
    let ShpReader { file: mut r, n_bytes_already_read: used, header } = x;
    let size = header.file_n_bytes;
    if used >= size { return (None, None); }
    let mut h = [ 0u8; 8 ];
    match r.read_exact(&mut h) { Err(e) => return (Some(Err(ShpError::IOError(e))), None), Ok(_) => {} }
    let n = be32(&h, 4) as usize * 2;
    let mut b = vec![ 0u8; n ];
    match r.read_exact(&mut b) { Err(e) => return (Some(Err(ShpError::IOError(e))), None), Ok(_) => {} }
    match record(&b, be32(&h, 0)) {
        Err(e) => (Some(Err(e)), None),
        Ok(rec) => {
            let used = used + 8 + n;
            if used > size { (Some(bad()), None) }
            else if used == size { (Some(Ok(rec)), None) }
            else { (Some(Ok(rec)), Some((used, r))) }
        }
    }
}

// ---- the same, seen as kinds of result
fn kind<T>(r: &Result<T, ShpError>) -> u32 {
    match *r { Ok(_) => 0, Err(ShpError::IOError(_)) => 1, Err(ShpError::ParseError(_)) => 2 }
}
fn okind<T>(r: &Option<Result<T, ShpError>>) -> u32 { match *r { None => 3, Some(ref r) => kind(r) } }
pub fn code_shp_new_kind<R: io::Read>(r: R) -> u32 { kind(&code_shp_new(r)) }
pub fn spec_shp_new_kind<R: io::Read>(r: R) -> u32 { kind(&spec_shp_new(r)) }
pub fn pre_shp_next_kind<R: io::Read>(x: ShpReader<R>) -> bool { pre_shp_next(x) }
pub fn code_shp_next_kind<R: io::Read>(x: ShpReader<R>) -> u32 { okind(&code_shp_next(x).0) }
pub fn spec_shp_next_kind<R: io::Read>(x: ShpReader<R>) -> u32 { okind(&spec_shp_next(x).0) }

/// whether anything is returned, whether it is an error, and the bytes used so far unless the reader is finished
pub fn pre_shp_progress<R: io::Read>(x: ShpReader<R>) -> bool { pre_shp_next(x) }
pub fn code_shp_progress<R: io::Read>(x: ShpReader<R>) -> (bool, bool, Option<usize>) {
    let (r, s) = code_shp_next(x);
    let k = okind(&r);
    (k == 3, k == 1 || k == 2, match s { None => None, Some((n, _)) => Some(n) })
}
pub fn spec_shp_progress<R: io::Read>(x: ShpReader<R>) -> (bool, bool, Option<usize>) {
    let (r, s) = spec_shp_next(x);
    let k = okind(&r);
    (k == 3, k == 1 || k == 2, match s { None => None, Some((n, _)) => Some(n) })
}
