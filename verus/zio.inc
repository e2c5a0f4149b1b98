// ---- the contract of a byte source / byte sink; C07 and C08 prove that ZCursor and the in-memory sinks meet it ----
//TRUST: sources and sinks other than ZCursor, Vec<u8>, &mut Vec<u8>, &mut [u8] (std::io readers and writers) are assumed to meet the ZByteReaderTrait / ZByteWriterTrait contracts
//TRUST: the error enum ZByteIoError is re-declared without its std::io variant (its values carry no meaning in any contract)
#[derive(Debug)]
pub enum ZByteIoError { NotEnoughBytes(usize, usize), NotEnoughBuffer(usize, usize), Generic(&'static str), SeekError(&'static str) }
//@type crates/zune-core/src/bytestream/reader.rs :: ZSeekFrom
//@end
pub proof fn lemma_z16() ensures 0u16 << 8 == 0, (0u16 | 0u16) == 0 { assert(0u16 << 8 == 0u16) by(bit_vector); assert((0u16 | 0u16) == 0) by(bit_vector); }
pub proof fn lemma_z32() ensures 0u32 << 8 == 0, 0u32 << 16 == 0, 0u32 << 24 == 0, (0u32 | 0u32) == 0 { assert(0u32 << 8 == 0u32) by(bit_vector); assert(0u32 << 16 == 0u32) by(bit_vector); assert(0u32 << 24 == 0u32) by(bit_vector); assert((0u32 | 0u32) == 0) by(bit_vector); }
pub proof fn lemma_z64() ensures 0u64 << 8 == 0, 0u64 << 16 == 0, 0u64 << 24 == 0, 0u64 << 32 == 0, 0u64 << 40 == 0, 0u64 << 48 == 0, 0u64 << 56 == 0, (0u64 | 0u64) == 0 { assert(0u64 << 8 == 0u64) by(bit_vector); assert(0u64 << 16 == 0u64) by(bit_vector); assert(0u64 << 24 == 0u64) by(bit_vector); assert(0u64 << 32 == 0u64) by(bit_vector); assert(0u64 << 40 == 0u64) by(bit_vector); assert(0u64 << 48 == 0u64) by(bit_vector); assert(0u64 << 56 == 0u64) by(bit_vector); assert((0u64 | 0u64) == 0) by(bit_vector); }
pub open spec fn vx_zeros(n: nat) -> Seq<u8> { Seq::new(n, |i: int| 0u8) }
pub open spec fn seek_to(from: ZSeekFrom, pos: int, len: int) -> int { match from { ZSeekFrom::Start(n) => n as int, ZSeekFrom::End(n) => len + n, ZSeekFrom::Current(n) => pos + n } }
pub trait ZByteReaderTrait: Sized {
    spec fn data(&self) -> Seq<u8>;
    spec fn pos(&self) -> int;
    /// reading never changes the data; a read that fits returns the bytes at the position and advances by exactly that many
    fn read_byte_no_error(&mut self) -> (r: u8)
        requires 0 <= old(self).pos(),
        ensures final(self).data() == old(self).data(), old(self).pos() <= final(self).pos(),
            old(self).pos() < old(self).data().len() ==> r == old(self).data()[old(self).pos()] && final(self).pos() == old(self).pos() + 1,
            old(self).pos() >= old(self).data().len() ==> r == 0 && final(self).pos() >= old(self).data().len();
    fn read_const_bytes<const N: usize>(&mut self, buf: &mut [u8; N]) -> (r: Result<(), ZByteIoError>)
        requires 0 <= old(self).pos(),
        ensures final(self).data() == old(self).data(), old(self).pos() <= final(self).pos(),
            N > 0 || old(self).pos() <= old(self).data().len() ==> (r.is_ok() <==> old(self).pos() + N <= old(self).data().len()), r.is_err() ==> final(self).pos() == old(self).pos(), r.is_ok() ==> final(self).pos() == old(self).pos() + N,
            r.is_ok() && N > 0 ==> final(buf)@ == old(self).data().subrange(old(self).pos(), old(self).pos() + N) && final(self).pos() == old(self).pos() + N;
    fn read_const_bytes_no_error<const N: usize>(&mut self, buf: &mut [u8; N])
        requires 0 <= old(self).pos(),
        ensures final(self).data() == old(self).data(), old(self).pos() <= final(self).pos(),
            old(self).pos() + N <= old(self).data().len() && N > 0 ==> final(buf)@ == old(self).data().subrange(old(self).pos(), old(self).pos() + N) && final(self).pos() == old(self).pos() + N,
            old(self).pos() + N > old(self).data().len() ==> final(self).pos() == old(self).pos(),
            old(self).pos() + N > old(self).data().len() ==> final(buf)@ == old(buf)@ || final(buf)@ == vx_zeros(N as nat);
    fn read_exact_bytes(&mut self, buf: &mut [u8]) -> (r: Result<(), ZByteIoError>)
        requires 0 <= old(self).pos(),
        ensures final(self).data() == old(self).data(), old(self).pos() <= final(self).pos(), final(buf)@.len() == old(buf)@.len(),
            r.is_ok() <==> old(self).pos() + old(buf)@.len() <= old(self).data().len() || old(buf)@.len() == 0, r.is_err() ==> final(self).pos() == old(self).pos(), r.is_ok() ==> final(self).pos() == old(self).pos() + old(buf)@.len(),
            r.is_ok() && old(buf)@.len() > 0 ==> final(buf)@ == old(self).data().subrange(old(self).pos(), old(self).pos() + old(buf)@.len()) && final(self).pos() == old(self).pos() + old(buf)@.len();
    fn read_bytes(&mut self, buf: &mut [u8]) -> (r: Result<usize, ZByteIoError>)
        requires 0 <= old(self).pos(),
        ensures final(self).data() == old(self).data(), 0 <= final(self).pos(), final(buf)@.len() == old(buf)@.len(),
            r.is_ok() ==> final(self).pos() == old(self).pos() + r.unwrap() && r.unwrap() <= old(buf)@.len() && (r.unwrap() > 0 ==> old(self).pos() + r.unwrap() <= old(self).data().len()) && (r.unwrap() == 0 ==> old(buf)@.len() == 0 || old(self).pos() >= old(self).data().len()),
            r.is_ok() ==> forall|i: int| 0 <= i < r.unwrap() ==> #[trigger] final(buf)@[i] == old(self).data()[old(self).pos() + i];
    fn peek_bytes(&mut self, buf: &mut [u8]) -> (r: Result<usize, ZByteIoError>)
        requires 0 <= old(self).pos(),
        ensures final(self).data() == old(self).data(), 0 <= final(self).pos(), final(buf)@.len() == old(buf)@.len(),
            r.is_ok() ==> final(self).pos() == old(self).pos() && r.unwrap() <= old(buf)@.len() && (r.unwrap() > 0 ==> old(self).pos() + r.unwrap() <= old(self).data().len()) && (r.unwrap() == 0 ==> old(buf)@.len() == 0 || old(self).pos() >= old(self).data().len()),
            r.is_ok() ==> forall|i: int| 0 <= i < r.unwrap() ==> #[trigger] final(buf)@[i] == old(self).data()[old(self).pos() + i];
    fn peek_exact_bytes(&mut self, buf: &mut [u8]) -> (r: Result<(), ZByteIoError>)
        requires 0 <= old(self).pos(),
        ensures final(self).data() == old(self).data(), final(buf)@.len() == old(buf)@.len(), final(self).pos() == old(self).pos(),
            r.is_ok() <==> old(self).pos() + old(buf)@.len() <= old(self).data().len() || old(buf)@.len() == 0,
            r.is_ok() && old(buf)@.len() > 0 ==> final(buf)@ == old(self).data().subrange(old(self).pos(), old(self).pos() + old(buf)@.len());
    fn z_seek(&mut self, from: ZSeekFrom) -> (r: Result<u64, ZByteIoError>)
        requires 0 <= old(self).pos(), old(self).data().len() <= usize::MAX,
        ensures final(self).data() == old(self).data(), 0 <= final(self).pos(),
            r.is_ok() ==> final(self).pos() == seek_to(from, old(self).pos(), old(self).data().len() as int) && r.unwrap() as int == final(self).pos(),
            r.is_err() ==> final(self).pos() == old(self).pos(),
            0 <= seek_to(from, old(self).pos(), old(self).data().len() as int) <= usize::MAX ==> r.is_ok();
    fn read_remaining(&mut self, sink: &mut Vec<u8>) -> (r: Result<usize, ZByteIoError>)
        requires 0 <= old(self).pos(),
        ensures final(self).data() == old(self).data(), old(self).pos() <= final(self).pos(),
            old(self).pos() <= old(self).data().len() && old(self).data().len() <= usize::MAX ==> r.is_ok() && r.unwrap() as int == old(self).data().len() - old(self).pos() && final(sink)@ == old(sink)@ + old(self).data().subrange(old(self).pos(), old(self).data().len() as int) && final(self).pos() == old(self).data().len();
    fn is_eof(&mut self) -> (r: Result<bool, ZByteIoError>)
        requires 0 <= old(self).pos(),
        ensures final(self).data() == old(self).data(), final(self).pos() == old(self).pos(),
            r.is_ok() ==> r.unwrap() == (old(self).pos() >= old(self).data().len()), r.is_ok();
    fn z_position(&mut self) -> (r: Result<u64, ZByteIoError>)
        requires 0 <= old(self).pos(),
        ensures final(self).data() == old(self).data(), final(self).pos() == old(self).pos(), r.is_ok() ==> r.unwrap() as int == old(self).pos(), old(self).pos() <= usize::MAX ==> r.is_ok();
}
pub trait ZByteWriterTrait: Sized {
    spec fn sunk(&self) -> Seq<u8>;
    /// Ok(n) means the first n bytes were appended and nothing else changed
    fn write_bytes(&mut self, buf: &[u8]) -> (r: Result<usize, ZByteIoError>)
        ensures r.is_ok() ==> r.unwrap() <= buf@.len() && final(self).sunk() == old(self).sunk() + buf@.subrange(0, r.unwrap() as int);
    fn flush_bytes(&mut self) -> (r: Result<(), ZByteIoError>)
        ensures final(self).sunk() == old(self).sunk();
    /// Ok means every byte of `buf` was appended, in order, and nothing else changed
    fn write_all_bytes(&mut self, buf: &[u8]) -> (r: Result<(), ZByteIoError>)
        ensures r.is_ok() ==> final(self).sunk() == old(self).sunk() + buf@;
    fn write_const_bytes<const N: usize>(&mut self, buf: &[u8; N]) -> (r: Result<(), ZByteIoError>)
        ensures r.is_ok() ==> final(self).sunk() == old(self).sunk() + buf@;
    fn reserve_capacity(&mut self, size: usize) -> (r: Result<(), ZByteIoError>)
        ensures final(self).sunk() == old(self).sunk();
}
pub struct ZReader<T> { pub inner: T, pub temp_buffer: Vec<u8> }
impl<T: ZByteReaderTrait> ZReader<T> {
pub open spec fn wf(&self) -> bool { 0 <= self.inner.pos() }
pub open spec fn data(&self) -> Seq<u8> { self.inner.data() }
pub open spec fn pos(&self) -> int { self.inner.pos() }
//@fn crates/zune-core/src/bytestream/reader.rs :: ZReader::new
//@ret r
//@spec
    ensures r.inner == source,
//@end
//@fn crates/zune-core/src/bytestream/reader.rs :: ZReader::consume
//@ret r
//@spec
    ensures r == self.inner,
//@end
//@fn crates/zune-core/src/bytestream/reader.rs :: ZReader::skip
//@ret r
//@spec
    requires old(self).wf(), old(self).data().len() <= usize::MAX, num <= i64::MAX
    ensures final(self).temp_buffer@ == old(self).temp_buffer@, final(self).wf(), final(self).data() == old(self).data(), r.is_ok() ==> final(self).pos() == old(self).pos() + num && r.unwrap() as int == final(self).pos(), r.is_err() ==> final(self).pos() == old(self).pos(), old(self).pos() + num <= usize::MAX ==> r.is_ok(),
//@end
//@fn crates/zune-core/src/bytestream/reader.rs :: ZReader::rewind
//@ret r
//@spec
    requires old(self).wf(), old(self).data().len() <= usize::MAX, num <= i64::MAX
    ensures final(self).temp_buffer@ == old(self).temp_buffer@, final(self).wf(), final(self).data() == old(self).data(), r.is_ok() ==> final(self).pos() == old(self).pos() - num && r.unwrap() as int == final(self).pos(), r.is_err() ==> final(self).pos() == old(self).pos(), num <= old(self).pos() && old(self).pos() - num <= usize::MAX ==> r.is_ok(),
//@end
//@fn crates/zune-core/src/bytestream/reader.rs :: ZReader::seek
//@ret r
//@spec
    requires old(self).wf(), old(self).data().len() <= usize::MAX
    ensures final(self).wf(), final(self).data() == old(self).data(), r.is_ok() ==> final(self).pos() == seek_to(from, old(self).pos(), old(self).data().len() as int) && r.unwrap() as int == final(self).pos(), r.is_err() ==> final(self).pos() == old(self).pos(),
        0 <= seek_to(from, old(self).pos(), old(self).data().len() as int) <= usize::MAX ==> r.is_ok(),
//@end
//@fn crates/zune-core/src/bytestream/reader.rs :: ZReader::set_position
//@ret r
//@spec
    requires old(self).wf(), old(self).data().len() <= usize::MAX
    ensures final(self).wf(), final(self).data() == old(self).data(), r.is_ok(), final(self).pos() == position,
//@end
//@fn crates/zune-core/src/bytestream/reader.rs :: ZReader::position
//@ret r
//@spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).data() == old(self).data(), final(self).pos() == old(self).pos(), r.is_ok() ==> r.unwrap() as int == old(self).pos(), old(self).pos() <= usize::MAX ==> r.is_ok(),
//@end
//@fn crates/zune-core/src/bytestream/reader.rs :: ZReader::read_bytes
//@ret r
//@spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).data() == old(self).data(), final(buf)@.len() == old(buf)@.len(),
        r.is_ok() ==> final(self).pos() == old(self).pos() + r.unwrap() && r.unwrap() <= old(buf)@.len() && (r.unwrap() > 0 ==> old(self).pos() + r.unwrap() <= old(self).data().len()) && (r.unwrap() == 0 ==> old(buf)@.len() == 0 || old(self).pos() >= old(self).data().len()),
        r.is_ok() ==> forall|i: int| 0 <= i < r.unwrap() ==> #[trigger] final(buf)@[i] == old(self).data()[old(self).pos() + i],
//@end
//@fn crates/zune-core/src/bytestream/reader.rs :: ZReader::peek_at
//@ret r
//@sub &mut self.temp_buffer[..] => self.temp_buffer.as_mut_slice()
//@at after call resize
    proof { assert(self.temp_buffer@.len() == num_bytes); assert(self.inner.pos() == old(self).inner.pos() + position); }
//@at after let result
    proof { assert(self.temp_buffer@.len() == num_bytes); assert(result.is_ok() && num_bytes > 0 ==> self.temp_buffer@ == old(self).data().subrange(old(self).pos() + position, old(self).pos() + position + num_bytes)); }
//@spec
    requires old(self).wf(), old(self).data().len() <= usize::MAX, position <= i64::MAX
    ensures final(self).wf(), final(self).data() == old(self).data(), old(self).pos() + position <= usize::MAX ==> final(self).pos() == old(self).pos(),
        old(self).pos() + position <= usize::MAX && num_bytes <= 20 * 1024 * 1024 ==> (r.is_ok() <==> old(self).pos() + position + num_bytes <= old(self).data().len() || num_bytes == 0),
        r.is_ok() ==> r.unwrap()@.len() == num_bytes && (num_bytes > 0 ==> r.unwrap()@ == old(self).data().subrange(old(self).pos() + position, old(self).pos() + position + num_bytes)),
//@end
//@fn crates/zune-core/src/bytestream/reader.rs :: ZReader::read_u8
//@ret r
//@spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).data() == old(self).data(), old(self).pos() <= final(self).pos(),
        old(self).pos() < old(self).data().len() ==> r == old(self).data()[old(self).pos()] && final(self).pos() == old(self).pos() + 1,
        old(self).pos() >= old(self).data().len() ==> r == 0 && final(self).pos() >= old(self).data().len(),
//@end
//@fn crates/zune-core/src/bytestream/reader.rs :: ZReader::read_u8_err
//@ret r
//@spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).data() == old(self).data(), old(self).pos() <= final(self).pos(),
        r.is_ok() <==> old(self).pos() < old(self).data().len(),
        r.is_ok() ==> r.unwrap() == old(self).data()[old(self).pos()] && final(self).pos() == old(self).pos() + 1,
//@end
//@fn crates/zune-core/src/bytestream/reader.rs :: ZReader::read_fixed_bytes_or_error
//@ret r
//@spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).data() == old(self).data(), old(self).pos() <= final(self).pos(),
        N > 0 ==> (r.is_ok() <==> old(self).pos() + N <= old(self).data().len()), r.is_err() ==> final(self).pos() == old(self).pos(),
        r.is_ok() && N > 0 ==> r.unwrap()@ == old(self).data().subrange(old(self).pos(), old(self).pos() + N) && final(self).pos() == old(self).pos() + N,
//@end
//@fn crates/zune-core/src/bytestream/reader.rs :: ZReader::read_fixed_bytes_or_zero
//@ret r
//@spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).data() == old(self).data(), old(self).pos() <= final(self).pos(),
        old(self).pos() + N <= old(self).data().len() && N > 0 ==> r@ == old(self).data().subrange(old(self).pos(), old(self).pos() + N) && final(self).pos() == old(self).pos() + N,
        old(self).pos() + N > old(self).data().len() ==> r@ == vx_zeros(N as nat),
//@at begin
    proof { assert([0u8; N]@ =~= vx_zeros(N as nat)); }
//@end
//@fn crates/zune-core/src/bytestream/reader.rs :: ZReader::read_exact_bytes
//@ret r
//@spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).data() == old(self).data(), old(self).pos() <= final(self).pos(), final(buf)@.len() == old(buf)@.len(),
        r.is_ok() <==> old(self).pos() + old(buf)@.len() <= old(self).data().len() || old(buf)@.len() == 0,
        r.is_ok() && old(buf)@.len() > 0 ==> final(buf)@ == old(self).data().subrange(old(self).pos(), old(self).pos() + old(buf)@.len()) && final(self).pos() == old(self).pos() + old(buf)@.len(),
//@end
//@fn crates/zune-core/src/bytestream/reader.rs :: ZReader::eof
//@ret r
//@spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).data() == old(self).data(), old(self).pos() <= final(self).pos(), final(self).pos() == old(self).pos(),
        r.is_ok() ==> r.unwrap() == (old(self).pos() >= old(self).data().len()), r.is_ok(),
//@end
//@fn crates/zune-core/src/bytestream/reader.rs :: ZReader::get_u16_inner_or_default
//@expand
//@ret r
//@sub core::mem::size_of::<u16>() => 2
//@spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).data() == old(self).data(), old(self).pos() <= final(self).pos(),
        old(self).pos() + 2 <= old(self).data().len() ==> r == (if mode is BE { be16(old(self).data().subrange(old(self).pos(), old(self).pos() + 2)) } else { le16(old(self).data().subrange(old(self).pos(), old(self).pos() + 2)) }) && final(self).pos() == old(self).pos() + 2,
        old(self).pos() + 2 > old(self).data().len() ==> r == 0,
//@at begin
    proof { assert forall|s: Seq<u8>| s.len() == 2 && (forall|i: int| 0 <= i < 2 ==> s[i] == 0) implies #[trigger] be16(s) == 0 by { assert(s[0] == 0 && s[1] == 0); lemma_z16(); } assert forall|s: Seq<u8>| s.len() == 2 && (forall|i: int| 0 <= i < 2 ==> s[i] == 0) implies #[trigger] le16(s) == 0 by { assert(s[0] == 0 && s[1] == 0); lemma_z16(); } }
//@end
//@fn crates/zune-core/src/bytestream/reader.rs :: ZReader::get_u16_inner_or_die
//@expand
//@ret r
//@sub core::mem::size_of::<u16>() => 2
//@spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).data() == old(self).data(), old(self).pos() <= final(self).pos(),
        r.is_ok() <==> old(self).pos() + 2 <= old(self).data().len(),
        r.is_ok() ==> r.unwrap() == (if mode is BE { be16(old(self).data().subrange(old(self).pos(), old(self).pos() + 2)) } else { le16(old(self).data().subrange(old(self).pos(), old(self).pos() + 2)) }) && final(self).pos() == old(self).pos() + 2,
//@end
//@fn crates/zune-core/src/bytestream/reader.rs :: ZReader::get_u16_be
//@expand
//@ret r
//@spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).data() == old(self).data(), old(self).pos() <= final(self).pos(),
        old(self).pos() + 2 <= old(self).data().len() ==> r == be16(old(self).data().subrange(old(self).pos(), old(self).pos() + 2)) && final(self).pos() == old(self).pos() + 2,
        old(self).pos() + 2 > old(self).data().len() ==> r == 0,
//@end
//@fn crates/zune-core/src/bytestream/reader.rs :: ZReader::get_u16_be_err
//@expand
//@ret r
//@spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).data() == old(self).data(), old(self).pos() <= final(self).pos(),
        r.is_ok() <==> old(self).pos() + 2 <= old(self).data().len(),
        r.is_ok() ==> r.unwrap() == be16(old(self).data().subrange(old(self).pos(), old(self).pos() + 2)) && final(self).pos() == old(self).pos() + 2,
//@end
//@fn crates/zune-core/src/bytestream/reader.rs :: ZReader::get_u16_le
//@expand
//@ret r
//@spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).data() == old(self).data(), old(self).pos() <= final(self).pos(),
        old(self).pos() + 2 <= old(self).data().len() ==> r == le16(old(self).data().subrange(old(self).pos(), old(self).pos() + 2)) && final(self).pos() == old(self).pos() + 2,
        old(self).pos() + 2 > old(self).data().len() ==> r == 0,
//@end
//@fn crates/zune-core/src/bytestream/reader.rs :: ZReader::get_u16_le_err
//@expand
//@ret r
//@spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).data() == old(self).data(), old(self).pos() <= final(self).pos(),
        r.is_ok() <==> old(self).pos() + 2 <= old(self).data().len(),
        r.is_ok() ==> r.unwrap() == le16(old(self).data().subrange(old(self).pos(), old(self).pos() + 2)) && final(self).pos() == old(self).pos() + 2,
//@end
//@fn crates/zune-core/src/bytestream/reader.rs :: ZReader::get_u32_inner_or_default
//@expand
//@ret r
//@sub core::mem::size_of::<u32>() => 4
//@spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).data() == old(self).data(), old(self).pos() <= final(self).pos(),
        old(self).pos() + 4 <= old(self).data().len() ==> r == (if mode is BE { be32(old(self).data().subrange(old(self).pos(), old(self).pos() + 4)) } else { le32(old(self).data().subrange(old(self).pos(), old(self).pos() + 4)) }) && final(self).pos() == old(self).pos() + 4,
        old(self).pos() + 4 > old(self).data().len() ==> r == 0,
//@at begin
    proof { assert forall|s: Seq<u8>| s.len() == 4 && (forall|i: int| 0 <= i < 4 ==> s[i] == 0) implies #[trigger] be32(s) == 0 by { assert(s[0] == 0 && s[1] == 0 && s[2] == 0 && s[3] == 0); lemma_z32(); } assert forall|s: Seq<u8>| s.len() == 4 && (forall|i: int| 0 <= i < 4 ==> s[i] == 0) implies #[trigger] le32(s) == 0 by { assert(s[0] == 0 && s[1] == 0 && s[2] == 0 && s[3] == 0); lemma_z32(); } }
//@end
//@fn crates/zune-core/src/bytestream/reader.rs :: ZReader::get_u32_inner_or_die
//@expand
//@ret r
//@sub core::mem::size_of::<u32>() => 4
//@spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).data() == old(self).data(), old(self).pos() <= final(self).pos(),
        r.is_ok() <==> old(self).pos() + 4 <= old(self).data().len(),
        r.is_ok() ==> r.unwrap() == (if mode is BE { be32(old(self).data().subrange(old(self).pos(), old(self).pos() + 4)) } else { le32(old(self).data().subrange(old(self).pos(), old(self).pos() + 4)) }) && final(self).pos() == old(self).pos() + 4,
//@end
//@fn crates/zune-core/src/bytestream/reader.rs :: ZReader::get_u32_be
//@expand
//@ret r
//@spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).data() == old(self).data(), old(self).pos() <= final(self).pos(),
        old(self).pos() + 4 <= old(self).data().len() ==> r == be32(old(self).data().subrange(old(self).pos(), old(self).pos() + 4)) && final(self).pos() == old(self).pos() + 4,
        old(self).pos() + 4 > old(self).data().len() ==> r == 0,
//@end
//@fn crates/zune-core/src/bytestream/reader.rs :: ZReader::get_u32_be_err
//@expand
//@ret r
//@spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).data() == old(self).data(), old(self).pos() <= final(self).pos(),
        r.is_ok() <==> old(self).pos() + 4 <= old(self).data().len(),
        r.is_ok() ==> r.unwrap() == be32(old(self).data().subrange(old(self).pos(), old(self).pos() + 4)) && final(self).pos() == old(self).pos() + 4,
//@end
//@fn crates/zune-core/src/bytestream/reader.rs :: ZReader::get_u32_le
//@expand
//@ret r
//@spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).data() == old(self).data(), old(self).pos() <= final(self).pos(),
        old(self).pos() + 4 <= old(self).data().len() ==> r == le32(old(self).data().subrange(old(self).pos(), old(self).pos() + 4)) && final(self).pos() == old(self).pos() + 4,
        old(self).pos() + 4 > old(self).data().len() ==> r == 0,
//@end
//@fn crates/zune-core/src/bytestream/reader.rs :: ZReader::get_u32_le_err
//@expand
//@ret r
//@spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).data() == old(self).data(), old(self).pos() <= final(self).pos(),
        r.is_ok() <==> old(self).pos() + 4 <= old(self).data().len(),
        r.is_ok() ==> r.unwrap() == le32(old(self).data().subrange(old(self).pos(), old(self).pos() + 4)) && final(self).pos() == old(self).pos() + 4,
//@end
//@fn crates/zune-core/src/bytestream/reader.rs :: ZReader::get_u64_inner_or_default
//@expand
//@ret r
//@sub core::mem::size_of::<u64>() => 8
//@spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).data() == old(self).data(), old(self).pos() <= final(self).pos(),
        old(self).pos() + 8 <= old(self).data().len() ==> r == (if mode is BE { be64(old(self).data().subrange(old(self).pos(), old(self).pos() + 8)) } else { le64(old(self).data().subrange(old(self).pos(), old(self).pos() + 8)) }) && final(self).pos() == old(self).pos() + 8,
        old(self).pos() + 8 > old(self).data().len() ==> r == 0,
//@at begin
    proof { assert forall|s: Seq<u8>| s.len() == 8 && (forall|i: int| 0 <= i < 8 ==> s[i] == 0) implies #[trigger] be64(s) == 0 by { assert(s[0] == 0 && s[1] == 0 && s[2] == 0 && s[3] == 0 && s[4] == 0 && s[5] == 0 && s[6] == 0 && s[7] == 0); lemma_z64(); } assert forall|s: Seq<u8>| s.len() == 8 && (forall|i: int| 0 <= i < 8 ==> s[i] == 0) implies #[trigger] le64(s) == 0 by { assert(s[0] == 0 && s[1] == 0 && s[2] == 0 && s[3] == 0 && s[4] == 0 && s[5] == 0 && s[6] == 0 && s[7] == 0); lemma_z64(); } }
//@end
//@fn crates/zune-core/src/bytestream/reader.rs :: ZReader::get_u64_inner_or_die
//@expand
//@ret r
//@sub core::mem::size_of::<u64>() => 8
//@spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).data() == old(self).data(), old(self).pos() <= final(self).pos(),
        r.is_ok() <==> old(self).pos() + 8 <= old(self).data().len(),
        r.is_ok() ==> r.unwrap() == (if mode is BE { be64(old(self).data().subrange(old(self).pos(), old(self).pos() + 8)) } else { le64(old(self).data().subrange(old(self).pos(), old(self).pos() + 8)) }) && final(self).pos() == old(self).pos() + 8,
//@end
//@fn crates/zune-core/src/bytestream/reader.rs :: ZReader::get_u64_be
//@expand
//@ret r
//@spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).data() == old(self).data(), old(self).pos() <= final(self).pos(),
        old(self).pos() + 8 <= old(self).data().len() ==> r == be64(old(self).data().subrange(old(self).pos(), old(self).pos() + 8)) && final(self).pos() == old(self).pos() + 8,
        old(self).pos() + 8 > old(self).data().len() ==> r == 0,
//@end
//@fn crates/zune-core/src/bytestream/reader.rs :: ZReader::get_u64_be_err
//@expand
//@ret r
//@spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).data() == old(self).data(), old(self).pos() <= final(self).pos(),
        r.is_ok() <==> old(self).pos() + 8 <= old(self).data().len(),
        r.is_ok() ==> r.unwrap() == be64(old(self).data().subrange(old(self).pos(), old(self).pos() + 8)) && final(self).pos() == old(self).pos() + 8,
//@end
//@fn crates/zune-core/src/bytestream/reader.rs :: ZReader::get_u64_le
//@expand
//@ret r
//@spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).data() == old(self).data(), old(self).pos() <= final(self).pos(),
        old(self).pos() + 8 <= old(self).data().len() ==> r == le64(old(self).data().subrange(old(self).pos(), old(self).pos() + 8)) && final(self).pos() == old(self).pos() + 8,
        old(self).pos() + 8 > old(self).data().len() ==> r == 0,
//@end
//@fn crates/zune-core/src/bytestream/reader.rs :: ZReader::get_u64_le_err
//@expand
//@ret r
//@spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).data() == old(self).data(), old(self).pos() <= final(self).pos(),
        r.is_ok() <==> old(self).pos() + 8 <= old(self).data().len(),
        r.is_ok() ==> r.unwrap() == le64(old(self).data().subrange(old(self).pos(), old(self).pos() + 8)) && final(self).pos() == old(self).pos() + 8,
//@end
}
//@type crates/zune-core/src/bytestream/reader.rs :: Mode
//@end
pub struct ZWriter<T> { pub buffer: T, pub bytes_written: usize }
impl<T: ZByteWriterTrait> ZWriter<T> {
pub open spec fn out(&self) -> Seq<u8> { self.buffer.sunk() }
//@fn crates/zune-core/src/bytestream/writer.rs :: ZWriter::new
//@ret r
//@spec
    ensures r.out() == data.sunk(), r.bytes_written == 0,
//@end
//@fn crates/zune-core/src/bytestream/writer.rs :: ZWriter::write
//@ret r
//@spec
    requires old(self).bytes_written + buf@.len() <= usize::MAX,
    ensures r.is_ok() ==> r.unwrap() <= buf@.len() && final(self).out() == old(self).out() + buf@.subrange(0, r.unwrap() as int) && final(self).bytes_written == old(self).bytes_written + r.unwrap(),
        r.is_err() ==> final(self).bytes_written == old(self).bytes_written,
//@end
//@fn crates/zune-core/src/bytestream/writer.rs :: ZWriter::inner
//@ret r
//@spec
    ensures r.sunk() == self.out(),
//@end
//@fn crates/zune-core/src/bytestream/writer.rs :: ZWriter::inner_ref
//@ret r
//@spec
    ensures r.sunk() == self.out(),
//@end
//@fn crates/zune-core/src/bytestream/writer.rs :: ZWriter::write_all
//@ret r
//@spec
    requires old(self).bytes_written + buf@.len() <= usize::MAX,
    ensures r.is_ok() ==> final(self).out() == old(self).out() + buf@ && final(self).bytes_written == old(self).bytes_written + buf@.len(),
        r.is_err() ==> final(self).bytes_written == old(self).bytes_written,
//@end
//@fn crates/zune-core/src/bytestream/writer.rs :: ZWriter::write_const_bytes
//@ret r
//@spec
    requires old(self).bytes_written + N <= usize::MAX,
    ensures r.is_ok() ==> final(self).out() == old(self).out() + byte@ && final(self).bytes_written == old(self).bytes_written + N,
        r.is_err() ==> final(self).bytes_written == old(self).bytes_written,
//@end
//@fn crates/zune-core/src/bytestream/writer.rs :: ZWriter::write_u8_err
//@ret r
//@spec
    requires old(self).bytes_written + 1 <= usize::MAX,
    ensures r.is_ok() ==> final(self).out() == old(self).out() + seq![byte] && final(self).bytes_written == old(self).bytes_written + 1,
        r.is_err() ==> final(self).bytes_written == old(self).bytes_written,
//@end
//@fn crates/zune-core/src/bytestream/writer.rs :: ZWriter::write_u8
//@spec
    requires old(self).bytes_written + 1 <= usize::MAX,
    ensures final(self).bytes_written == old(self).bytes_written || (final(self).bytes_written == old(self).bytes_written + 1 && final(self).out() == old(self).out() + seq![byte]),
//@end
//@fn crates/zune-core/src/bytestream/writer.rs :: ZWriter::write_u16_inner_or_die
//@expand
//@ret r
//@spec
    requires old(self).bytes_written + 2 <= usize::MAX,
    ensures r.is_ok() ==> final(self).out() == old(self).out() + (if mode is BE { be16b(byte) } else { le16b(byte) }) && final(self).bytes_written == old(self).bytes_written + 2,
        r.is_err() ==> final(self).bytes_written == old(self).bytes_written,
//@end
//@fn crates/zune-core/src/bytestream/writer.rs :: ZWriter::write_u16_be_err
//@expand
//@ret r
//@spec
    requires old(self).bytes_written + 2 <= usize::MAX,
    ensures r.is_ok() ==> final(self).out() == old(self).out() + be16b(byte) && final(self).bytes_written == old(self).bytes_written + 2,
        r.is_err() ==> final(self).bytes_written == old(self).bytes_written,
//@end
//@fn crates/zune-core/src/bytestream/writer.rs :: ZWriter::write_u16_le_err
//@expand
//@ret r
//@spec
    requires old(self).bytes_written + 2 <= usize::MAX,
    ensures r.is_ok() ==> final(self).out() == old(self).out() + le16b(byte) && final(self).bytes_written == old(self).bytes_written + 2,
        r.is_err() ==> final(self).bytes_written == old(self).bytes_written,
//@end
//@fn crates/zune-core/src/bytestream/writer.rs :: ZWriter::write_u32_inner_or_die
//@expand
//@ret r
//@spec
    requires old(self).bytes_written + 4 <= usize::MAX,
    ensures r.is_ok() ==> final(self).out() == old(self).out() + (if mode is BE { be32b(byte) } else { le32b(byte) }) && final(self).bytes_written == old(self).bytes_written + 4,
        r.is_err() ==> final(self).bytes_written == old(self).bytes_written,
//@end
//@fn crates/zune-core/src/bytestream/writer.rs :: ZWriter::write_u32_be_err
//@expand
//@ret r
//@spec
    requires old(self).bytes_written + 4 <= usize::MAX,
    ensures r.is_ok() ==> final(self).out() == old(self).out() + be32b(byte) && final(self).bytes_written == old(self).bytes_written + 4,
        r.is_err() ==> final(self).bytes_written == old(self).bytes_written,
//@end
//@fn crates/zune-core/src/bytestream/writer.rs :: ZWriter::write_u32_le_err
//@expand
//@ret r
//@spec
    requires old(self).bytes_written + 4 <= usize::MAX,
    ensures r.is_ok() ==> final(self).out() == old(self).out() + le32b(byte) && final(self).bytes_written == old(self).bytes_written + 4,
        r.is_err() ==> final(self).bytes_written == old(self).bytes_written,
//@end
//@fn crates/zune-core/src/bytestream/writer.rs :: ZWriter::write_u64_inner_or_die
//@expand
//@ret r
//@spec
    requires old(self).bytes_written + 8 <= usize::MAX,
    ensures r.is_ok() ==> final(self).out() == old(self).out() + (if mode is BE { be64b(byte) } else { le64b(byte) }) && final(self).bytes_written == old(self).bytes_written + 8,
        r.is_err() ==> final(self).bytes_written == old(self).bytes_written,
//@end
//@fn crates/zune-core/src/bytestream/writer.rs :: ZWriter::write_u64_be_err
//@expand
//@ret r
//@spec
    requires old(self).bytes_written + 8 <= usize::MAX,
    ensures r.is_ok() ==> final(self).out() == old(self).out() + be64b(byte) && final(self).bytes_written == old(self).bytes_written + 8,
        r.is_err() ==> final(self).bytes_written == old(self).bytes_written,
//@end
//@fn crates/zune-core/src/bytestream/writer.rs :: ZWriter::write_u64_le_err
//@expand
//@ret r
//@spec
    requires old(self).bytes_written + 8 <= usize::MAX,
    ensures r.is_ok() ==> final(self).out() == old(self).out() + le64b(byte) && final(self).bytes_written == old(self).bytes_written + 8,
        r.is_err() ==> final(self).bytes_written == old(self).bytes_written,
//@end
//@fn crates/zune-core/src/bytestream/writer.rs :: ZWriter::bytes_written
//@ret r
//@spec
    ensures r == self.bytes_written,
//@end
//@fn crates/zune-core/src/bytestream/writer.rs :: ZWriter::reserve
//@ret r
//@spec
    ensures final(self).out() == old(self).out(), final(self).bytes_written == old(self).bytes_written,
//@end
}
