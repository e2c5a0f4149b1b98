//@type crates/zune-png/src/enums.rs :: PngChunkType
//@attrs #[derive(Debug, Copy, Clone, Eq, PartialEq, Structural)]
//@end
//@type crates/zune-png/src/decoder.rs :: PngChunk
//@end
//@fn crates/zune-png/src/headers/writers.rs :: write_chunk
//@ret r
//@spec
    requires old(writer).bytes_written + data@.len() + 12 <= usize::MAX, chunk.length == data@.len(), data@.len() <= u32::MAX,
    // C09: the chunk on the wire is length, type, data and the CRC-32 of type and data
    ensures r.is_ok() ==> final(writer).out() == old(writer).out() + be32b(data@.len() as u32) + chunk.chunk@ + data@ + be32b(crc32(chunk.chunk@ + data@)) && final(writer).bytes_written == old(writer).bytes_written + 12 + data@.len(),
//@at begin
    proof { lemma_crc_cat(chunk.chunk@, data@, 0xffffffff); }
//@at before tail
    proof { assert(writer.out() =~= old(writer).out() + be32b(data@.len() as u32) + chunk.chunk@ + data@ + be32b(crc32(chunk.chunk@ + data@))); }
//@end
