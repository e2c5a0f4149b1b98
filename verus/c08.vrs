//@include prelude.inc
//@include bytes.inc
//@include zio2.inc
// ===== C08: writers =====
//TRUST: std::io::Write sinks are modelled by VxWrite, the contract std documents for Write (write: Ok(n) means the first n bytes were taken; write_all: Ok means all of them were; flush changes nothing)
#[derive(Debug)]
pub struct VxIoErr { pub k: u8 }
#[verifier::external_body] pub fn vx_zio_from<E>(e: E) -> ZByteIoError { ZByteIoError::Generic("") }
pub trait VxWrite: Sized {
    spec fn iow(&self) -> Seq<u8>;
    /// a sink in memory (Vec<u8>) takes every byte
    spec fn io_never_fails() -> bool;
    fn write(&mut self, buf: &[u8]) -> (r: Result<usize, VxIoErr>)
        ensures r.is_ok() ==> r.unwrap() <= buf@.len() && final(self).iow() == old(self).iow() + buf@.subrange(0, r.unwrap() as int);
    fn write_all(&mut self, buf: &[u8]) -> (r: Result<(), VxIoErr>)
        ensures Self::io_never_fails() ==> r.is_ok(), r.is_ok() ==> final(self).iow() == old(self).iow() + buf@;
    fn flush(&mut self) -> (r: Result<(), VxIoErr>)
        ensures final(self).iow() == old(self).iow();
}
impl<T: VxWrite> ZByteWriterTrait for T {
open spec fn sunk(&self) -> Seq<u8> { self.iow() }
open spec fn never_fails() -> bool { Self::io_never_fails() }
//@fn crates/zune-core/src/bytestream/writer/std_writer.rs :: ZByteWriterTrait for T::write_bytes
//@nopub
//@ret r
//@sub ZByteIoError::StdIoError => vx_zio_from
//@end
//@fn crates/zune-core/src/bytestream/writer/std_writer.rs :: ZByteWriterTrait for T::write_all_bytes
//@nopub
//@ret r
//@sub ZByteIoError::StdIoError => vx_zio_from
//@end
//@fn crates/zune-core/src/bytestream/writer/std_writer.rs :: ZByteWriterTrait for T::write_const_bytes
//@nopub
//@ret r
//@sub ZByteIoError::StdIoError => vx_zio_from
//@end
//@fn crates/zune-core/src/bytestream/writer/std_writer.rs :: ZByteWriterTrait for T::flush_bytes
//@nopub
//@ret r
//@sub ZByteIoError::StdIoError => vx_zio_from
//@end
//@fn crates/zune-core/src/bytestream/writer/std_writer.rs :: ZByteWriterTrait for T::reserve_capacity
//@sub _: usize => vx_unused: usize
//@nopub
//@ret r
//@sub ZByteIoError::StdIoError => vx_zio_from
//@end
}
//@include wnone.inc
//@include prelude_end.inc
