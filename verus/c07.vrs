//@include prelude.inc
//@include bytes.inc
//@include zio.inc
// ===== C07: the in-memory byte source meets the reader contract (no_std build: ZCursor implements ZByteReaderTrait itself) =====
//TRUST: AsRef<[u8]> is modelled by VxBytes: as_ref returns the same bytes every time (true of slices, Vec, arrays) and a slice is at most isize::MAX bytes long
pub trait VxBytes { spec fn vb(&self) -> Seq<u8>; fn as_ref(&self) -> (r: &[u8]) ensures r@ == self.vb(), r@.len() <= isize::MAX; }
//@type crates/zune-core/src/bytestream/reader/no_std_readers.rs :: ZCursor
//@end
impl<T: VxBytes> ZCursor<T> {
//@fn crates/zune-core/src/bytestream/reader/no_std_readers.rs :: ZCursor::skip
//@spec
    ensures final(self).stream == old(self).stream, old(self).position + num <= usize::MAX ==> final(self).position == old(self).position + num,
//@end
//@fn crates/zune-core/src/bytestream/reader/no_std_readers.rs :: ZCursor::rewind
//@spec
    ensures final(self).stream == old(self).stream, final(self).position == (if old(self).position >= num { old(self).position - num } else { 0 }),
//@end
//@fn crates/zune-core/src/bytestream/reader/no_std_readers.rs :: ZCursor::split
//@ret r
//@spec
    ensures self.position <= self.stream.vb().len() ==> r.0@ == self.stream.vb().subrange(0, self.position as int) && r.1@ == self.stream.vb().subrange(self.position as int, self.stream.vb().len() as int), self.position > self.stream.vb().len() ==> r.0@ == self.stream.vb() && r.1@.len() == 0,
//@end
//@fn crates/zune-core/src/bytestream/reader/no_std_readers.rs :: ZCursor::peek_bytes_impl
//@sub core::cmp::min => vx_min
//@ret r
//@spec
    ensures r.is_ok(), *final(self) == *old(self), final(buf)@.len() == old(buf)@.len(), 
        ({ let d = old(self).stream.vb(); let p = old(self).position as int; let n = if p >= d.len() { 0 } else if p + old(buf)@.len() <= d.len() { old(buf)@.len() as int } else { d.len() - p };
            p + n <= usize::MAX && r.unwrap() == n && (forall|i: int| 0 <= i < n ==> #[trigger] final(buf)@[i] == d[p + i]) && forall|i: int| n <= i < old(buf)@.len() ==> #[trigger] final(buf)@[i] == old(buf)@[i] }),
//@end
//@fn crates/zune-core/src/bytestream/reader/no_std_readers.rs :: ZCursor::read_bytes_impl
//@ret r
//@spec
    ensures r.is_ok(), final(self).stream == old(self).stream, final(buf)@.len() == old(buf)@.len(), 
        ({ let d = old(self).stream.vb(); let p = old(self).position as int; let n = if p >= d.len() { 0 } else if p + old(buf)@.len() <= d.len() { old(buf)@.len() as int } else { d.len() - p };
            final(self).position == p + n && p + n <= usize::MAX && r.unwrap() == n && (forall|i: int| 0 <= i < n ==> #[trigger] final(buf)@[i] == d[p + i]) && forall|i: int| n <= i < old(buf)@.len() ==> #[trigger] final(buf)@[i] == old(buf)@[i] }),
//@end
//@fn crates/zune-core/src/bytestream/reader/no_std_readers.rs :: ZCursor::read_byte_no_error_impl
//@ret r
//@spec
    ensures final(self).stream == old(self).stream, r == (if old(self).position < old(self).stream.vb().len() { old(self).stream.vb()[old(self).position as int] } else { 0 }), old(self).stream.vb().len() <= isize::MAX, final(self).position == (if old(self).position < usize::MAX { old(self).position + 1 } else { usize::MAX as int }),
//@end
//@fn crates/zune-core/src/bytestream/reader/no_std_readers.rs :: ZCursor::read_exact_bytes_impl
//@ret r
//@sub self.read_bytes(buf) => self.read_bytes_impl(buf)
//@spec
    ensures final(self).stream == old(self).stream, final(buf)@.len() == old(buf)@.len(), r.is_ok() <==> old(self).position + old(buf)@.len() <= old(self).stream.vb().len() || old(buf)@.len() == 0,
        r.is_err() ==> final(self).position == old(self).position,
        r.is_ok() ==> final(self).position == old(self).position + old(buf)@.len() && (old(buf)@.len() > 0 ==> final(buf)@ == old(self).stream.vb().subrange(old(self).position as int, old(self).position + old(buf)@.len())),
//@end
//@fn crates/zune-core/src/bytestream/reader/no_std_readers.rs :: ZCursor::peek_exact_bytes_impl
//@ret r
//@spec
    ensures *final(self) == *old(self), final(buf)@.len() == old(buf)@.len(), r.is_ok() <==> old(self).position + old(buf)@.len() <= old(self).stream.vb().len() || old(buf)@.len() == 0,
        r.is_ok() && old(buf)@.len() > 0 ==> final(buf)@ == old(self).stream.vb().subrange(old(self).position as int, old(self).position + old(buf)@.len()),
//@end
//@fn crates/zune-core/src/bytestream/reader/no_std_readers.rs :: ZCursor::read_const_bytes_impl
//@ret r
//@spec
    ensures final(self).stream == old(self).stream, r.is_ok() <==> old(self).position + N <= old(self).stream.vb().len(),
        r.is_err() ==> final(self).position == old(self).position && final(buf)@ == old(buf)@,
        r.is_ok() ==> final(self).position == old(self).position + N && final(buf)@ == old(self).stream.vb().subrange(old(self).position as int, old(self).position + N),
//@end
//@fn crates/zune-core/src/bytestream/reader/no_std_readers.rs :: ZCursor::read_const_bytes_no_error_impl
//@spec
    ensures final(self).stream == old(self).stream, old(self).position + N > old(self).stream.vb().len() ==> final(self).position == old(self).position && final(buf)@ == old(buf)@,
        old(self).position + N <= old(self).stream.vb().len() ==> final(self).position == old(self).position + N && final(buf)@ == old(self).stream.vb().subrange(old(self).position as int, old(self).position + N),
//@end
//@fn crates/zune-core/src/bytestream/reader/no_std_readers.rs :: ZCursor::z_seek_impl
//@ret r
//@spec
    requires old(self).stream.vb().len() <= usize::MAX,
    ensures final(self).stream == old(self).stream, r.is_ok() <==> 0 <= seek_to(from, old(self).position as int, old(self).stream.vb().len() as int) <= usize::MAX,
        r.is_ok() ==> final(self).position == seek_to(from, old(self).position as int, old(self).stream.vb().len() as int) && r.unwrap() == final(self).position, r.is_err() ==> final(self).position == old(self).position,
//@end
//@fn crates/zune-core/src/bytestream/reader/no_std_readers.rs :: ZCursor::is_eof_impl
//@ret r
//@spec
    ensures *final(self) == *old(self), r.is_ok(), r.unwrap() == (old(self).position >= old(self).stream.vb().len()),
//@end
//@fn crates/zune-core/src/bytestream/reader/no_std_readers.rs :: ZCursor::z_position_impl
//@ret r
//@spec
    ensures *final(self) == *old(self), r.is_ok(), r.unwrap() == old(self).position,
//@end
//@fn crates/zune-core/src/bytestream/reader/no_std_readers.rs :: ZCursor::read_remaining_impl
//@ret r
//@sub alloc::vec::Vec => Vec
//@spec
    ensures final(self).stream == old(self).stream, r.is_ok() <==> old(self).position <= old(self).stream.vb().len(), r.is_err() ==> *final(self) == *old(self) && final(sink)@ == old(sink)@,
        r.is_ok() ==> r.unwrap() == old(self).stream.vb().len() - old(self).position && final(sink)@ == old(sink)@ + old(self).stream.vb().subrange(old(self).position as int, old(self).stream.vb().len() as int) && final(self).position == old(self).stream.vb().len(),
//@end
}
impl<T: VxBytes> ZByteReaderTrait for ZCursor<T> {
open spec fn data(&self) -> Seq<u8> { self.stream.vb() }
open spec fn pos(&self) -> int { self.position as int }
//@fn crates/zune-core/src/bytestream/reader/zcursor_no_std.rs :: ZByteReaderTrait for ZCursor::read_byte_no_error
//@nopub
//@ret r
//@sub alloc::vec::Vec => Vec
//@end
//@fn crates/zune-core/src/bytestream/reader/zcursor_no_std.rs :: ZByteReaderTrait for ZCursor::read_exact_bytes
//@nopub
//@ret r
//@sub alloc::vec::Vec => Vec
//@end
//@fn crates/zune-core/src/bytestream/reader/zcursor_no_std.rs :: ZByteReaderTrait for ZCursor::read_const_bytes
//@nopub
//@ret r
//@sub alloc::vec::Vec => Vec
//@end
//@fn crates/zune-core/src/bytestream/reader/zcursor_no_std.rs :: ZByteReaderTrait for ZCursor::read_const_bytes_no_error
//@nopub
//@ret r
//@sub alloc::vec::Vec => Vec
//@end
//@fn crates/zune-core/src/bytestream/reader/zcursor_no_std.rs :: ZByteReaderTrait for ZCursor::read_bytes
//@nopub
//@ret r
//@sub alloc::vec::Vec => Vec
//@end
//@fn crates/zune-core/src/bytestream/reader/zcursor_no_std.rs :: ZByteReaderTrait for ZCursor::peek_bytes
//@nopub
//@ret r
//@sub alloc::vec::Vec => Vec
//@end
//@fn crates/zune-core/src/bytestream/reader/zcursor_no_std.rs :: ZByteReaderTrait for ZCursor::peek_exact_bytes
//@nopub
//@ret r
//@sub alloc::vec::Vec => Vec
//@end
//@fn crates/zune-core/src/bytestream/reader/zcursor_no_std.rs :: ZByteReaderTrait for ZCursor::z_seek
//@nopub
//@ret r
//@sub alloc::vec::Vec => Vec
//@end
//@fn crates/zune-core/src/bytestream/reader/zcursor_no_std.rs :: ZByteReaderTrait for ZCursor::is_eof
//@nopub
//@ret r
//@sub alloc::vec::Vec => Vec
//@end
//@fn crates/zune-core/src/bytestream/reader/zcursor_no_std.rs :: ZByteReaderTrait for ZCursor::z_position
//@nopub
//@ret r
//@sub alloc::vec::Vec => Vec
//@end
//@fn crates/zune-core/src/bytestream/reader/zcursor_no_std.rs :: ZByteReaderTrait for ZCursor::read_remaining
//@nopub
//@ret r
//@sub alloc::vec::Vec => Vec
//@end
}
//@include prelude_end.inc
