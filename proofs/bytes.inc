verus! {
// ---- assumed contracts: little-endian integer <-> byte conversions and slice splitting (std) ----
pub trait VxLe: Sized {
    spec fn le(self) -> Seq<u8>;
    fn vx_to_le_bytes(self) -> (r: Vec<u8>) ensures r@ == self.le();
}
impl VxLe for u16 {
    open spec fn le(self) -> Seq<u8> { spec_u16_to_le_bytes(self) }
    #[verifier::external_body]
    fn vx_to_le_bytes(self) -> (r: Vec<u8>) { self.to_le_bytes().to_vec() }
}
impl VxLe for u32 {
    open spec fn le(self) -> Seq<u8> { spec_u32_to_le_bytes(self) }
    #[verifier::external_body]
    fn vx_to_le_bytes(self) -> (r: Vec<u8>) { self.to_le_bytes().to_vec() }
}
impl VxLe for u64 {
    open spec fn le(self) -> Seq<u8> { spec_u64_to_le_bytes(self) }
    #[verifier::external_body]
    fn vx_to_le_bytes(self) -> (r: Vec<u8>) { self.to_le_bytes().to_vec() }
}
#[verifier::external_body]
pub fn vx_u16_from_le_bytes(b: [u8; 2]) -> (r: u16) ensures r == spec_u16_from_le_bytes(b@) { u16::from_le_bytes(b) }
#[verifier::external_body]
pub fn vx_u32_from_le_bytes(b: [u8; 4]) -> (r: u32) ensures r == spec_u32_from_le_bytes(b@) { u32::from_le_bytes(b) }
#[verifier::external_body]
pub fn vx_u64_from_le_bytes(b: [u8; 8]) -> (r: u64) ensures r == spec_u64_from_le_bytes(b@) { u64::from_le_bytes(b) }

#[verifier::external_body]
pub fn vx_split_at(b: &[u8], n: usize) -> (r: (&[u8], &[u8]))
    requires n <= b@.len(),
    ensures r.0@ == b@.subrange(0, n as int), r.1@ == b@.subrange(n as int, b@.len() as int),
{ b.split_at(n) }

pub trait VxCopy { spec fn seq(&self) -> Seq<u8>; fn vx_copy_from_slice(&mut self, s: &[u8]) requires s@.len() == old(self).seq().len() ensures final(self).seq() == s@; }
impl<const N: usize> VxCopy for [u8; N] {
    open spec fn seq(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn vx_copy_from_slice(&mut self, s: &[u8]) { self.copy_from_slice(s) }
}
#[verifier::external_body]
pub fn vx_extend(v: &mut Vec<u8>, s: &[u8]) ensures final(v)@ == old(v)@ + s@ { v.extend_from_slice(s) }
} // verus!
