//TRUST: slice::copy_within is assumed to copy the old contents of the source range to the destination and to leave the rest
pub trait VxCopyWithin { spec fn vx_s(&self) -> Seq<u8>;
    fn vx_copy_within(&mut self, lo: usize, hi: usize, dest: usize)
        requires lo <= hi <= old(self).vx_s().len(), dest + (hi - lo) <= old(self).vx_s().len(),
        ensures final(self).vx_s().len() == old(self).vx_s().len(), forall|i: int| 0 <= i < old(self).vx_s().len() ==> #[trigger] final(self).vx_s()[i] == if dest <= i < dest + (hi - lo) { old(self).vx_s()[lo + (i - dest)] } else { old(self).vx_s()[i] };
}
impl VxCopyWithin for [u8] { open spec fn vx_s(&self) -> Seq<u8> { self@ }
    #[verifier::external_body] fn vx_copy_within(&mut self, lo: usize, hi: usize, dest: usize) { self.copy_within(lo..hi, dest) } }
