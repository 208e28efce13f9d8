//@ at src/read/shapefile/dbf.rs
// The .dbf reader: what `new`, `next`, `get_field` and `read_string` return
// for any stream, and the state they leave.
use std::io;
use std::sync::Arc;
use super::{DbfReader, DbfMeta, DbfField, DbfRecord, DbfType, DbfError};
use byteorder::{LittleEndian, ByteOrder};
use encoding;

fn le16(b: &[u8], i: usize) -> usize { LittleEndian::read_u16(&b[i .. i + 2]) as usize }
fn le32(b: &[u8], i: usize) -> u32 { LittleEndian::read_u32(&b[i .. i + 4]) }
fn bad<T>() -> Result<T, DbfError> { Err(DbfError::ParseError(String::new())) }

/// type of a field, by its code
fn kind(c: u8, e: encoding::EncodingRef) -> DbfType {
    if c == 67 { DbfType::Character(e) }
    else if c == 78 { DbfType::Numeric }
    else if c == 76 { DbfType::Logical }
    else if c == 68 { DbfType::Date }
    else if c == 70 { DbfType::FloatingPoint }
    else if c == 64 { DbfType::Timestamp }
    else if c == 79 { DbfType::Double }
    else if c == 43 || c == 124 { DbfType::Long }
    else { DbfType::Unsupported }
}

fn name_len(b: &[u8], o: usize) -> usize {
    let mut n = 0;
    while n < 11 {
        if b[o + n] == 0 { break; }
        n += 1;
    }
    n
}

/// -> number of records, bytes per record, fields, records counted as read, stream
pub fn code_dbf_new<R: io::Read>(r: R, e: encoding::EncodingRef) -> Result<(usize, usize, Box<[DbfField]>, usize, R), DbfError> {
    match DbfReader::new(r, e) {
        Ok(x) => Ok((x.meta.n_records, x.meta.n_bytes_per_record, x.meta.fields.clone(), x.n_records_already_iterated, x.file)),
        Err(e) => Err(e),
    }
}
pub fn spec_dbf_new<R: io::Read>(mut r: R, e: encoding::EncodingRef) -> Result<(usize, usize, Box<[DbfField]>, usize, R), DbfError> {
    let mut h = [ 0u8; 32 ];
    match r.read_exact(&mut h) { Err(e) => return Err(DbfError::IOError(e)), Ok(_) => {} }
    let n = le16(&h, 8);
    if h[2] > 12 || h[3] > 31 || n < 32 { return bad(); }
    let mut b = vec![ 0u8; n - 32 ];
    match r.read_exact(&mut b) { Err(e) => return Err(DbfError::IOError(e)), Ok(_) => {} }
    let mut fields = Vec::new();
    let mut offset = 1;
    let mut i = 0;
    while i < (n - 32) / 32 {
        let d = 32 * i;
        match e.decode(&b[d .. d + name_len(&b, d)], encoding::DecoderTrap::Strict) {
            Err(_) => return bad(),
            Ok(name) => fields.push(DbfField { name: name, data_type: kind(b[d + 11], e), offset: offset, len: b[d + 16] as usize }),
        }
        offset += b[d + 16] as usize;
        i += 1;
    }
    Ok((le32(&h, 4) as usize, le16(&h, 10), fields.into_boxed_slice(), 0, r))
}

/// One call of next() in any reachable state -> the record's bytes, records counted as read, stream
pub fn fine<R: io::Read>(x: &DbfReader<R>) -> bool { x.n_records_already_iterated <= x.meta.n_records && x.meta.n_records <= 4294967295 && x.meta.n_bytes_per_record <= 65535 }
pub fn pre_dbf_next<R: io::Read>(x: DbfReader<R>) -> bool { x.n_records_already_iterated <= x.meta.n_records && x.meta.n_records <= 4294967295 && x.meta.n_bytes_per_record <= 65535 }
pub fn code_dbf_next<R: io::Read>(mut x: DbfReader<R>) -> (Option<Result<Box<[u8]>, DbfError>>, usize, Option<R>) {
    match x.next() {
        None => (None, x.n_records_already_iterated, Some(x.file)),
        Some(Err(e)) => (Some(Err(e)), x.n_records_already_iterated, None),
        Some(Ok(d)) => (Some(Ok(d.bytes)), x.n_records_already_iterated, Some(x.file)),
    }
}
pub fn spec_dbf_next<R: io::Read>(x: DbfReader<R>) -> (Option<Result<Box<[u8]>, DbfError>>, usize, Option<R>) {
    let DbfReader { file: mut r, n_records_already_iterated: used, meta } = x;
    if used == meta.n_records { return (None, used, Some(r)); }
    let mut b = vec![ 0u8; meta.n_bytes_per_record ];
    match r.read_exact(&mut b) {
        Err(e) => (Some(Err(DbfError::IOError(e))), used + 1, None),
        Ok(_) => (Some(Ok(b.into_boxed_slice())), used + 1, Some(r)),
    }
}

pub fn pre_dbf_string(f: &DbfField, d: &DbfRecord) -> bool { f.offset <= 1000000000 && f.len <= 255 }
pub fn code_dbf_string(f: &DbfField, d: &DbfRecord) -> Result<String, DbfError> { f.read_string(d) }
pub fn spec_dbf_string(f: &DbfField, d: &DbfRecord) -> Result<String, DbfError> {
    if f.offset + f.len > d.bytes.len() { return bad(); }
    let b = &d.bytes[f.offset .. f.offset + f.len];
    match f.data_type {
        DbfType::Character(e) => {
            let mut n = 0;
            while n < b.len() {
                if b[b.len() - 1 - n] != 32 { break; }
                n += 1;
            }
            match e.decode(&b[0 .. b.len() - n], encoding::DecoderTrap::Strict) { Ok(s) => Ok(s), Err(_) => bad() }
        }
        DbfType::Long => if b.len() < 4 { bad() } else { Ok(le32(b, 0).to_string()) },
        DbfType::Numeric => {
            match ::regex::bytes::Regex::new("^ *(-?[0-9]+(?:\\.[0-9]+)?)$").unwrap().captures(b) {
                None => bad(),
                Some(c) => Ok(unsafe { String::from_utf8_unchecked(c.get(1).unwrap().as_bytes().to_vec()) }),
            }
        }
        _ => bad(),
    }
}

/// the first field of that name
pub fn code_dbf_field<R: io::Read>(x: &DbfReader<R>, name: &str) -> Option<DbfField> { x.get_field(name) }
pub fn spec_dbf_field<R: io::Read>(x: &DbfReader<R>, name: &str) -> Option<DbfField> {
    let mut i = 0;
    while i < x.meta.fields.len() {
        if x.meta.fields[i].name == name { return Some(x.meta.fields[i].clone()); }
        i += 1;
    }
    None
}

// ---- the same, seen as kinds of result
fn kind_of<T>(r: &Result<T, DbfError>) -> u32 {
    match *r { Ok(_) => 0, Err(DbfError::IOError(_)) => 1, Err(DbfError::ParseError(_)) => 2 }
}
fn okind<T>(r: &Option<Result<T, DbfError>>) -> u32 { match *r { None => 3, Some(ref r) => kind_of(r) } }
pub fn code_dbf_new_kind<R: io::Read>(r: R, e: encoding::EncodingRef) -> u32 { kind_of(&code_dbf_new(r, e)) }
pub fn spec_dbf_new_kind<R: io::Read>(r: R, e: encoding::EncodingRef) -> u32 { kind_of(&spec_dbf_new(r, e)) }
pub fn pre_dbf_next_kind<R: io::Read>(x: DbfReader<R>) -> bool { pre_dbf_next(x) }
pub fn code_dbf_next_kind<R: io::Read>(x: DbfReader<R>) -> u32 { okind(&code_dbf_next(x).0) }
pub fn spec_dbf_next_kind<R: io::Read>(x: DbfReader<R>) -> u32 { okind(&spec_dbf_next(x).0) }

/// whether anything is returned, and the records still to come
pub fn pre_dbf_progress<R: io::Read>(x: DbfReader<R>) -> bool { pre_dbf_next(x) }
pub fn code_dbf_progress<R: io::Read>(x: DbfReader<R>) -> (bool, usize) {
    let n = x.meta.n_records;
    let (r, used, _) = code_dbf_next(x);
    (okind(&r) == 3, n - used)
}
pub fn spec_dbf_progress<R: io::Read>(x: DbfReader<R>) -> (bool, usize) {
    let n = x.meta.n_records;
    let (r, used, _) = spec_dbf_next(x);
    (okind(&r) == 3, n - used)
}
