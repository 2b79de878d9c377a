verus! {
// ---------- WAL storage: assumed contracts on the file system (fusio) ----------
// Reading gives the bytes the file holds; `content` is the state before the function under contract changes anything.
#[verifier::external_body]
pub struct Path { _p: () }
#[verifier::external_body]
pub struct DynFsRef { _p: () }
#[verifier::external_body]
pub struct DynFileBox { _p: () }
#[verifier::external_body]
pub struct FusioError { _p: () }
#[verifier::external_body]
pub struct OpenOptions { _p: () }
impl Clone for Path { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Path {
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) { unimplemented!() }
}
pub uninterp spec fn content(fs: DynFsRef, p: Path) -> Seq<u8>;
pub uninterp spec fn file_content(f: DynFileBox) -> Seq<u8>;
impl DynFsRef {
    #[verifier::external_body]
    pub fn open_read(&self, path: &Path) -> (r: Result<DynFileBox, FusioError>)
        ensures r is Ok ==> file_content(r->Ok_0) == content(*self, *path),
    { unimplemented!() }
}
impl DynFileBox {
    #[verifier::external_body]
    pub fn read_to_end_at(&mut self, buf: Vec<u8>, pos: u64) -> (r: (Result<(), FusioError>, Vec<u8>))
        ensures
            file_content(*final(self)) == file_content(*old(self)),
            r.0 is Ok && pos <= file_content(*old(self)).len() ==> r.1@ == buf@ + file_content(*old(self)).skip(pos as int),
            r.0 is Ok ==> r.1@.len() <= usize::MAX,
    { unimplemented!() }
}
impl FrameHeader {
    /// proved in unit c01_frame (property C01)
    #[verifier::external_body]
    pub fn decode_from(bytes: &[u8]) -> (r: WalResult<(FrameHeader, &[u8])>)
        ensures decoded_header(bytes@, r),
    { unimplemented!() }
}
pub fn vx_res_with<A, E>(r: Result<(), E>, a: A) -> (o: Result<A, E>)
    ensures r is Ok ==> o == Ok::<A, E>(a), r is Err ==> o is Err,
{ match r { Ok(_) => Ok(a), Err(e) => Err(e) } }
#[verifier::external_body]
pub fn vx_str_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }

//@ item src/wal/storage.rs :: struct SegmentDescriptor
impl Clone for SegmentDescriptor { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@ item src/wal/storage.rs :: struct SegmentFrameBounds
//@ item src/wal/storage.rs :: struct TailMetadata
pub struct WalStorage { pub fs: DynFsRef, pub root: Path }

/// a complete frame of a segment: its header and where it starts
pub struct Fr { pub h: FrameHeader, pub off: int }
pub enum Stop { End, Torn, Corrupt }
pub struct Walk { pub frames: Seq<Fr>, pub stop: Stop }
/// The frames of a segment from `off` on, up to its end, an incomplete frame, or corruption.
pub open spec fn walk(d: Seq<u8>, off: int) -> Walk
    decreases d.len() - off,
{
    if off < 0 || off >= d.len() { Walk { frames: Seq::empty(), stop: Stop::End } } else {
        match parse(d.subrange(off, d.len() as int)) {
            Parse::Short => Walk { frames: Seq::empty(), stop: Stop::Torn },
            Parse::Bad => Walk { frames: Seq::empty(), stop: Stop::Corrupt },
            Parse::Frame(h) => {
                let rest = walk(d, off + 24 + h.len);
                Walk { frames: seq![Fr { h, off }] + rest.frames, stop: rest.stop }
            }
        }
    }
}
pub open spec fn fr_end(f: Fr) -> int { f.off + 24 + f.h.len }
pub open spec fn payload_at(d: Seq<u8>, f: Fr) -> Seq<u8> { d.subrange(f.off + 24, fr_end(f)) }
/// length of the complete frames
pub open spec fn kept_len(w: Walk) -> int { if w.frames.len() == 0 { 0 } else { fr_end(w.frames.last()) } }
pub proof fn lemma_walk_frame(d: Seq<u8>, off: int, h: FrameHeader)
    requires 0 <= off < d.len(), parse(d.subrange(off, d.len() as int)) == Parse::Frame(h),
    ensures
        off + 24 + h.len <= d.len(),
        walk(d, off) == (Walk { frames: seq![Fr { h, off }] + walk(d, off + 24 + h.len).frames, stop: walk(d, off + 24 + h.len).stop }),
{
}
/// every listed frame lies inside the data
pub proof fn lemma_walk_inside(d: Seq<u8>, off: int)
    requires 0 <= off,
    ensures
        forall|i: int| 0 <= i < walk(d, off).frames.len() ==> off <= (#[trigger] walk(d, off).frames[i]).off && fr_end(walk(d, off).frames[i]) <= d.len(),
        walk(d, off).stop is End && off <= d.len() ==> (if walk(d, off).frames.len() == 0 { off == d.len() } else { fr_end(walk(d, off).frames.last()) == d.len() }),
    decreases d.len() - off,
{
    if off < d.len() {
        match parse(d.subrange(off, d.len() as int)) {
            Parse::Frame(h) => {
                lemma_walk_inside(d, off + 24 + h.len);
                let rest = walk(d, off + 24 + h.len);
                assert forall|i: int| 0 <= i < walk(d, off).frames.len() implies off <= (#[trigger] walk(d, off).frames[i]).off && fr_end(walk(d, off).frames[i]) <= d.len() by {
                    if i > 0 { assert(walk(d, off).frames[i] == rest.frames[i - 1]); }
                }
                if rest.frames.len() > 0 { assert(walk(d, off).frames.last() == rest.frames.last()); }
            }
            _ => {}
        }
    }
}
} // verus!
