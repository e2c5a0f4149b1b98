impl<T: ZByteWriterTrait> ZWriter<T> {
//@fn crates/zune-core/src/bytestream/writer.rs :: ZWriter::write_u16_inner_or_none
//@expand
//@spec
    requires old(self).bytes_written + 2 <= usize::MAX,
    ensures T::never_fails() ==> final(self).bytes_written == old(self).bytes_written + 2, final(self).bytes_written == old(self).bytes_written || (final(self).bytes_written == old(self).bytes_written + 2 && final(self).out() == old(self).out() + (if mode is BE { be16b(byte) } else { le16b(byte) })),
//@end
//@fn crates/zune-core/src/bytestream/writer.rs :: ZWriter::write_u16_be
//@expand
//@spec
    requires old(self).bytes_written + 2 <= usize::MAX,
    ensures T::never_fails() ==> final(self).bytes_written == old(self).bytes_written + 2, final(self).bytes_written == old(self).bytes_written || (final(self).bytes_written == old(self).bytes_written + 2 && final(self).out() == old(self).out() + be16b(byte)),
//@end
//@fn crates/zune-core/src/bytestream/writer.rs :: ZWriter::write_u16_le
//@expand
//@spec
    requires old(self).bytes_written + 2 <= usize::MAX,
    ensures T::never_fails() ==> final(self).bytes_written == old(self).bytes_written + 2, final(self).bytes_written == old(self).bytes_written || (final(self).bytes_written == old(self).bytes_written + 2 && final(self).out() == old(self).out() + le16b(byte)),
//@end
//@fn crates/zune-core/src/bytestream/writer.rs :: ZWriter::write_u32_inner_or_none
//@expand
//@spec
    requires old(self).bytes_written + 4 <= usize::MAX,
    ensures T::never_fails() ==> final(self).bytes_written == old(self).bytes_written + 4, final(self).bytes_written == old(self).bytes_written || (final(self).bytes_written == old(self).bytes_written + 4 && final(self).out() == old(self).out() + (if mode is BE { be32b(byte) } else { le32b(byte) })),
//@end
//@fn crates/zune-core/src/bytestream/writer.rs :: ZWriter::write_u32_be
//@expand
//@spec
    requires old(self).bytes_written + 4 <= usize::MAX,
    ensures T::never_fails() ==> final(self).bytes_written == old(self).bytes_written + 4, final(self).bytes_written == old(self).bytes_written || (final(self).bytes_written == old(self).bytes_written + 4 && final(self).out() == old(self).out() + be32b(byte)),
//@end
//@fn crates/zune-core/src/bytestream/writer.rs :: ZWriter::write_u32_le
//@expand
//@spec
    requires old(self).bytes_written + 4 <= usize::MAX,
    ensures T::never_fails() ==> final(self).bytes_written == old(self).bytes_written + 4, final(self).bytes_written == old(self).bytes_written || (final(self).bytes_written == old(self).bytes_written + 4 && final(self).out() == old(self).out() + le32b(byte)),
//@end
//@fn crates/zune-core/src/bytestream/writer.rs :: ZWriter::write_u64_inner_or_none
//@expand
//@spec
    requires old(self).bytes_written + 8 <= usize::MAX,
    ensures T::never_fails() ==> final(self).bytes_written == old(self).bytes_written + 8, final(self).bytes_written == old(self).bytes_written || (final(self).bytes_written == old(self).bytes_written + 8 && final(self).out() == old(self).out() + (if mode is BE { be64b(byte) } else { le64b(byte) })),
//@end
//@fn crates/zune-core/src/bytestream/writer.rs :: ZWriter::write_u64_be
//@expand
//@spec
    requires old(self).bytes_written + 8 <= usize::MAX,
    ensures T::never_fails() ==> final(self).bytes_written == old(self).bytes_written + 8, final(self).bytes_written == old(self).bytes_written || (final(self).bytes_written == old(self).bytes_written + 8 && final(self).out() == old(self).out() + be64b(byte)),
//@end
//@fn crates/zune-core/src/bytestream/writer.rs :: ZWriter::write_u64_le
//@expand
//@spec
    requires old(self).bytes_written + 8 <= usize::MAX,
    ensures T::never_fails() ==> final(self).bytes_written == old(self).bytes_written + 8, final(self).bytes_written == old(self).bytes_written || (final(self).bytes_written == old(self).bytes_written + 8 && final(self).out() == old(self).out() + le64b(byte)),
//@end
}
