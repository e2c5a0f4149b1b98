//@include prelude.inc
//@include bytes.inc
//@include zio.inc
// ===== C07 (std build): the blanket adaptor from std::io BufRead + Seek meets the reader contract =====
//TRUST: std::io sources are modelled by VxIo: a memory-backed, infallible BufRead + Seek as documented by std (read returns 0 only at the end or for an empty buffer, seek moves to the requested position or fails, fill_buf is empty only at the end); the ZCursor implementation of it is proved below
//TRUST: AsRef<[u8]> is modelled by VxBytes: as_ref returns the same bytes every time (true of slices, Vec, arrays) and a slice is at most isize::MAX bytes long
pub trait VxBytes { spec fn vb(&self) -> Seq<u8>; fn as_ref(&self) -> (r: &[u8]) ensures r@ == self.vb(), r@.len() <= isize::MAX; }
#[derive(Debug)]
pub struct VxIoErr { pub k: u8 }
pub enum SeekFrom { Start(u64), End(i64), Current(i64) }
pub open spec fn io_to(from: SeekFrom, pos: int, len: int) -> int { match from { SeekFrom::Start(n) => n as int, SeekFrom::End(n) => len + n, SeekFrom::Current(n) => pos + n } }
#[verifier::external_body] pub fn vx_ioerr<E>(k: u8, e: E) -> VxIoErr { VxIoErr { k } }
#[verifier::external_body] pub fn vx_zio_from<E>(e: E) -> ZByteIoError { ZByteIoError::Generic("") }
pub open spec fn io_read(d: Seq<u8>, p0: int, p1: int, b0: Seq<u8>, b1: Seq<u8>, n: int) -> bool {
    0 <= n <= b0.len() && b1.len() == b0.len() && p1 == p0 + n && (n > 0 ==> p0 + n <= d.len()) && (n == 0 ==> b0.len() == 0 || p0 >= d.len()) && (forall|i: int| 0 <= i < n ==> #[trigger] b1[i] == d[p0 + i]) && (forall|i: int| n <= i < b0.len() ==> #[trigger] b1[i] == b0[i])
}
pub assume_specification<T: Clone>[ <[T]>::fill ](s: &mut [T], v: T)
    ensures final(s)@.len() == old(s)@.len(), forall|i: int| 0 <= i < old(s)@.len() ==> cloned(v, #[trigger] final(s)@[i]);
//TRUST: a slice is at most isize::MAX bytes long (guaranteed by the language)
#[verifier::external_body] pub proof fn vx_slice_len(s: &[u8]) ensures s@.len() <= isize::MAX {}
pub fn vx_i64_try_from(n: usize) -> (r: Result<i64, VxIoErr>) ensures r.is_ok() == (n <= i64::MAX), r.is_ok() ==> r.unwrap() == n { if n <= i64::MAX as usize { Ok(n as i64) } else { Err(VxIoErr { k: 0 }) } }
pub trait VxIo: Sized {
    spec fn iod(&self) -> Seq<u8>;
    spec fn iop(&self) -> int;
    fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize, VxIoErr>)
        ensures final(self).iod() == old(self).iod(), r.is_ok(), old(self).iop() <= u64::MAX, final(self).iop() <= u64::MAX, final(buf)@.len() == old(buf)@.len(), io_read(old(self).iod(), old(self).iop(), final(self).iop(), old(buf)@, final(buf)@, r.unwrap() as int);
    fn seek(&mut self, pos: SeekFrom) -> (r: Result<u64, VxIoErr>)
        ensures final(self).iod() == old(self).iod(), old(self).iop() <= u64::MAX, r.is_err() ==> final(self).iop() == old(self).iop(),
            r.is_ok() ==> 0 <= final(self).iop() && final(self).iop() == io_to(pos, old(self).iop(), old(self).iod().len() as int) && r.unwrap() as int == final(self).iop(),
            0 <= old(self).iop() && 0 <= io_to(pos, old(self).iop(), old(self).iod().len() as int) <= u64::MAX ==> r.is_ok();
}
/// the rest of BufRead and the provided methods of std::io, which the adaptor uses
pub trait VxIoBuf: VxIo {
    fn fill_buf(&mut self) -> (r: Result<&[u8], VxIoErr>)
        ensures final(self).iod() == old(self).iod(), final(self).iop() == old(self).iop(), r.is_ok(), 0 <= old(self).iop() ==> (r.unwrap()@.len() == 0 <==> old(self).iop() >= old(self).iod().len());
}
pub trait VxIoProv: VxIoBuf {
    fn stream_position(&mut self) -> (r: Result<u64, VxIoErr>)
        ensures final(self).iod() == old(self).iod(), final(self).iop() == old(self).iop(), r.is_ok() ==> r.unwrap() as int == old(self).iop(), 0 <= old(self).iop() <= u64::MAX ==> r.is_ok();
    fn read_to_end(&mut self, sink: &mut Vec<u8>) -> (r: Result<usize, VxIoErr>)
        ensures final(self).iod() == old(self).iod(), old(self).iop() <= final(self).iop(),
            0 <= old(self).iop() <= old(self).iod().len() && old(self).iod().len() <= usize::MAX ==> r.is_ok() && r.unwrap() as int == old(self).iod().len() - old(self).iop() && final(sink)@ == old(sink)@ + old(self).iod().subrange(old(self).iop(), old(self).iod().len() as int) && final(self).iop() == old(self).iod().len();
}
impl ZSeekFrom {
//@fn crates/zune-core/src/bytestream/reader.rs :: ZSeekFrom::to_std_seek
//@ret r
//@sub std::io::SeekFrom => SeekFrom
//@spec
    ensures io_to(r, 0, 0) == seek_to(self, 0, 0), forall|p: int, l: int| io_to(r, p, l) == #[trigger] seek_to(self, p, l),
//@end
}
impl<T: VxIoProv> ZByteReaderTrait for T {
open spec fn data(&self) -> Seq<u8> { self.iod() }
open spec fn pos(&self) -> int { self.iop() }
//@fn crates/zune-core/src/bytestream/reader/std_readers.rs :: ZByteReaderTrait for T::read_byte_no_error
//@nopub
//@ret r
//@sub ZByteIoError::from => vx_zio_from
//@sub std::io::SeekFrom => SeekFrom
//@end
//@fn crates/zune-core/src/bytestream/reader/std_readers.rs :: ZByteReaderTrait for T::read_exact_bytes
//@nopub
//@at begin
    proof { vx_slice_len(buf); }
//@ret r
//@sub ZByteIoError::from => vx_zio_from
//@sub std::io::SeekFrom => SeekFrom
//@loop 0
    invariant old(self).iop() <= u64::MAX || bytes_read == 0, self.iop() <= u64::MAX || bytes_read == 0, old(buf)@.len() <= isize::MAX, self.iod() == old(self).iod(), buf@.len() == old(buf)@.len(), 0 <= bytes_read <= buf@.len(), 0 <= old(self).iop(), self.iop() == old(self).iop() + bytes_read, bytes_read > 0 ==> self.iop() <= self.iod().len(), forall|i: int| 0 <= i < bytes_read ==> #[trigger] buf@[i] == old(self).iod()[old(self).iop() + i],
    decreases buf@.len() - bytes_read
//@at before tail
    proof { if bytes_read > 0 { assert(buf@ =~= old(self).iod().subrange(old(self).iop(), old(self).iop() + bytes_read)); } }
//@end
//@fn crates/zune-core/src/bytestream/reader/std_readers.rs :: ZByteReaderTrait for T::read_const_bytes
//@nopub
//@ret r
//@sub ZByteIoError::from => vx_zio_from
//@sub std::io::SeekFrom => SeekFrom
//@end
//@fn crates/zune-core/src/bytestream/reader/std_readers.rs :: ZByteReaderTrait for T::read_const_bytes_no_error
//@nopub
//@at after call fill
    proof { assert(buf@ =~= vx_zeros(N as nat)); }
//@ret r
//@sub ZByteIoError::from => vx_zio_from
//@sub std::io::SeekFrom => SeekFrom
//@end
//@fn crates/zune-core/src/bytestream/reader/std_readers.rs :: ZByteReaderTrait for T::read_bytes
//@nopub
//@ret r
//@sub ZByteIoError::from => vx_zio_from
//@sub std::io::SeekFrom => SeekFrom
//@end
//@fn crates/zune-core/src/bytestream/reader/std_readers.rs :: ZByteReaderTrait for T::peek_bytes
//@nopub
//@sub i64::try_from => vx_i64_try_from
//@at begin
    proof { vx_slice_len(buf); }
//@ret r
//@sub ZByteIoError::from => vx_zio_from
//@sub std::io::SeekFrom => SeekFrom
//@end
//@fn crates/zune-core/src/bytestream/reader/std_readers.rs :: ZByteReaderTrait for T::peek_exact_bytes
//@nopub
//@sub i64::try_from => vx_i64_try_from
//@at begin
    proof { vx_slice_len(buf); }
//@ret r
//@sub ZByteIoError::from => vx_zio_from
//@sub std::io::SeekFrom => SeekFrom
//@end
//@fn crates/zune-core/src/bytestream/reader/std_readers.rs :: ZByteReaderTrait for T::z_seek
//@nopub
//@ret r
//@sub ZByteIoError::from => vx_zio_from
//@sub std::io::SeekFrom => SeekFrom
//@end
//@fn crates/zune-core/src/bytestream/reader/std_readers.rs :: ZByteReaderTrait for T::is_eof
//@nopub
//@sub |b| b.is_empty() => |b: &[u8]| -> (e: bool) ensures e == (b@.len() == 0) { b.is_empty() }
//@ret r
//@sub ZByteIoError::from => vx_zio_from
//@sub std::io::SeekFrom => SeekFrom
//@end
//@fn crates/zune-core/src/bytestream/reader/std_readers.rs :: ZByteReaderTrait for T::z_position
//@nopub
//@ret r
//@sub ZByteIoError::from => vx_zio_from
//@sub std::io::SeekFrom => SeekFrom
//@end
//@fn crates/zune-core/src/bytestream/reader/std_readers.rs :: ZByteReaderTrait for T::read_remaining
//@nopub
//@ret r
//@sub ZByteIoError::from => vx_zio_from
//@sub std::io::SeekFrom => SeekFrom
//@end
}
//@type crates/zune-core/src/bytestream/reader/no_std_readers.rs :: ZCursor
//@end
impl<T: VxBytes> ZCursor<T> {
//@fn crates/zune-core/src/bytestream/reader/no_std_readers.rs :: ZCursor::skip
//@spec
    ensures final(self).stream == old(self).stream, old(self).position + num <= usize::MAX ==> final(self).position == old(self).position + num,
//@end
//@fn crates/zune-core/src/bytestream/reader/no_std_readers.rs :: ZCursor::rewind
//@spec
    ensures final(self).stream == old(self).stream, final(self).position == (if old(self).position >= num { old(self).position - num } else { 0 }),
//@end
//@fn crates/zune-core/src/bytestream/reader/no_std_readers.rs :: ZCursor::split
//@ret r
//@spec
    ensures self.position <= self.stream.vb().len() ==> r.0@ == self.stream.vb().subrange(0, self.position as int) && r.1@ == self.stream.vb().subrange(self.position as int, self.stream.vb().len() as int), self.position > self.stream.vb().len() ==> r.0@ == self.stream.vb() && r.1@.len() == 0,
//@end
//@fn crates/zune-core/src/bytestream/reader/no_std_readers.rs :: ZCursor::peek_bytes_impl
//@sub core::cmp::min => vx_min
//@ret r
//@spec
    ensures r.is_ok(), *final(self) == *old(self), final(buf)@.len() == old(buf)@.len(), 
        ({ let d = old(self).stream.vb(); let p = old(self).position as int; let n = if p >= d.len() { 0 } else if p + old(buf)@.len() <= d.len() { old(buf)@.len() as int } else { d.len() - p };
            p + n <= usize::MAX && r.unwrap() == n && (forall|i: int| 0 <= i < n ==> #[trigger] final(buf)@[i] == d[p + i]) && forall|i: int| n <= i < old(buf)@.len() ==> #[trigger] final(buf)@[i] == old(buf)@[i] }),
//@end
//@fn crates/zune-core/src/bytestream/reader/no_std_readers.rs :: ZCursor::read_bytes_impl
//@ret r
//@spec
    ensures r.is_ok(), final(self).stream == old(self).stream, final(buf)@.len() == old(buf)@.len(), 
        ({ let d = old(self).stream.vb(); let p = old(self).position as int; let n = if p >= d.len() { 0 } else if p + old(buf)@.len() <= d.len() { old(buf)@.len() as int } else { d.len() - p };
            final(self).position == p + n && p + n <= usize::MAX && r.unwrap() == n && (forall|i: int| 0 <= i < n ==> #[trigger] final(buf)@[i] == d[p + i]) && forall|i: int| n <= i < old(buf)@.len() ==> #[trigger] final(buf)@[i] == old(buf)@[i] }),
//@end
}
impl<T: VxBytes> VxIo for ZCursor<T> {
open spec fn iod(&self) -> Seq<u8> { self.stream.vb() }
open spec fn iop(&self) -> int { self.position as int }
//@fn crates/zune-core/src/bytestream/reader/std_readers.rs :: Read for ZCursor::read
//@nopub
//@ret r
//@sub std::io::Result<usize> => Result<usize, VxIoErr>
//@sub std::io::Error::new => vx_ioerr
//@sub std::io::ErrorKind::Other => 0u8
//@end
//@fn crates/zune-core/src/bytestream/reader/std_readers.rs :: Seek for ZCursor::seek
//@nopub
//@ret r
//@sub std::io::Result<u64> => Result<u64, VxIoErr>
//@sub std::io::SeekFrom => SeekFrom
//@sub std::io::Error::new => vx_ioerr
//@sub std::io::ErrorKind::Other => 0u8
//@end
}
impl<T: VxBytes> VxIoBuf for ZCursor<T> {
//@fn crates/zune-core/src/bytestream/reader/std_readers.rs :: BufRead for ZCursor::fill_buf
//@nopub
//@ret r
//@sub std::io::Result<&[u8]> => Result<&[u8], VxIoErr>
//@end
}
//@include prelude_end.inc
