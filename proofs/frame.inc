verus! {
// ---------- WAL frames: items and the specification of the header ----------
pub enum WalError { Corrupt(&'static str), Unimplemented(&'static str), Codec(String), Storage(String), State(String), Other }
pub type WalResult<T> = Result<T, WalError>;
// crc32c of a byte string: uninterpreted (the property does not depend on which checksum it is)
pub uninterp spec fn crc_spec(b: Seq<u8>) -> u32;
#[verifier::external_body]
pub fn crc32c(b: &[u8]) -> (r: u32) ensures r == crc_spec(b@) { 0 }

//@ item src/wal/frame.rs :: const FRAME_VERSION
//@ item src/wal/frame.rs :: const FRAME_MAGIC
//@ item src/wal/frame.rs :: const INITIAL_FRAME_SEQ
//@ fn src/wal/frame.rs :: frame_header_size
@sig
pub const fn frame_header_size() -> (r: usize)
@ensures
   r == 24,
//@ end
//@ execconst src/wal/frame.rs :: FRAME_HEADER_SIZE ensures FRAME_HEADER_SIZE == 24

#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@ item src/wal/frame.rs :: enum FrameType
//@ item src/wal/frame.rs :: struct FrameHeader
pub open spec fn ft_code(t: FrameType) -> u16 {
    match t {
        FrameType::TxnBegin => 0, FrameType::TxnAppend => 1, FrameType::TxnCommit => 2,
        FrameType::TxnAbort => 3, FrameType::SealMarker => 4, FrameType::TypedAppend => 5,
    }
}
/// The bytes of a header, as documented: magic, version, kind, sequence, length, checksum.
pub open spec fn header_bytes(h: FrameHeader) -> Seq<u8> {
    h.magic.le() + h.version.le() + ft_code(h.frame_type).le() + h.seq.le() + h.len.le() + h.crc32c.le()
}
pub open spec fn frame_bytes(seq: u64, t: FrameType, payload: Seq<u8>) -> Seq<u8> {
    header_bytes(FrameHeader { magic: FRAME_MAGIC, version: FRAME_VERSION, frame_type: t, seq, len: payload.len() as u32, crc32c: crc_spec(payload) }) + payload
}


/// What the bytes at some place of a segment are: a complete frame, one cut short, or neither.
pub enum Parse { Short, Bad, Frame(FrameHeader) }
pub open spec fn kind_of(code: u16) -> Option<FrameType> {
    if code == 0 { Some(FrameType::TxnBegin) } else if code == 1 { Some(FrameType::TxnAppend) } else if code == 2 { Some(FrameType::TxnCommit) }
    else if code == 3 { Some(FrameType::TxnAbort) } else if code == 4 { Some(FrameType::SealMarker) } else if code == 5 { Some(FrameType::TypedAppend) } else { None }
}
pub open spec fn parse(b: Seq<u8>) -> Parse {
    if b.len() < 24 { Parse::Short } else {
        let magic = spec_u32_from_le_bytes(b.subrange(0, 4));
        let version = spec_u16_from_le_bytes(b.subrange(4, 6));
        let kind = kind_of(spec_u16_from_le_bytes(b.subrange(6, 8)));
        let seq = spec_u64_from_le_bytes(b.subrange(8, 16));
        let len = spec_u32_from_le_bytes(b.subrange(16, 20));
        let crc = spec_u32_from_le_bytes(b.subrange(20, 24));
        if magic != FRAME_MAGIC || version != FRAME_VERSION || kind is None || seq == 0 { Parse::Bad }
        else if b.len() < 24 + len { Parse::Short }
        else if crc != crc_spec(b.subrange(24, 24 + len)) { Parse::Bad }
        else { Parse::Frame(FrameHeader { magic, version, frame_type: kind->0, seq, len, crc32c: crc }) }
    }
}
pub open spec fn short_reason(s: &str) -> bool { s@ == "frame header truncated"@ || s@ == "frame payload truncated"@ }
/// the contract of FrameHeader::decode_from
pub open spec fn decoded_header(b: Seq<u8>, r: WalResult<(FrameHeader, &[u8])>) -> bool {
    match parse(b) {
        Parse::Frame(h) => r is Ok && (r->Ok_0).0 == h && (r->Ok_0).1@ == b.subrange(24 + h.len, b.len() as int),
        Parse::Short => r is Err && (r->Err_0 matches WalError::Corrupt(s) && short_reason(s)),
        Parse::Bad => r is Err && (r->Err_0 matches WalError::Corrupt(s) && !short_reason(s)),
    }
}
} // verus!
