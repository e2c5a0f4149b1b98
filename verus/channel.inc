// Channel is untyped raw memory managed with unsafe code: its operations are trusted contracts here
// (samples::<T> is what reinterpret_as::<T> returns); the native part compares them with a Vec model.
pub trait Sample: Copy { spec fn sz() -> int; }
impl Sample for u8 { open spec fn sz() -> int { 1 } }
impl Sample for u16 { open spec fn sz() -> int { 2 } }
impl Sample for f32 { open spec fn sz() -> int { 4 } }
#[verifier::external_body] pub struct Channel { x: usize }
#[verifier::external_body] #[derive(Debug)] pub struct ChannelErrors { x: usize }
pub enum ImageOperationsErrors { InvalidChannelLayout(&'static str) }
pub enum ImageErrors { OperationsError(ImageOperationsErrors), GenericStr(&'static str), GenericString(String) }
pub uninterp spec fn samples<T>(c: Channel) -> Seq<T>;
pub uninterp spec fn typed<T>(c: Channel) -> bool;
impl Channel {
#[verifier::external_body] pub fn new_with_length<T: Sample>(length: usize) -> (r: Channel) requires length as int % T::sz() == 0 ensures typed::<T>(r), samples::<T>(r).len() == length as int / T::sz() { unimplemented!() }
#[verifier::external_body] pub fn new_with_capacity<T: Sample>(capacity: usize) -> (r: Channel) ensures typed::<T>(r), samples::<T>(r).len() == 0 { unimplemented!() }
#[verifier::external_body] pub fn extend<T: Sample>(&mut self, data: &[T]) requires typed::<T>(*old(self)) ensures typed::<T>(*final(self)), samples::<T>(*final(self)) == samples::<T>(*old(self)) + data@ { unimplemented!() }
#[verifier::external_body] pub fn reinterpret_as<T>(&self) -> (r: Result<&[T], ChannelErrors>) ensures r is Ok <==> typed::<T>(*self), r is Ok ==> r->Ok_0@ == samples::<T>(*self) { unimplemented!() }
#[verifier::external_body] pub fn reinterpret_as_mut<T: Sample>(&mut self) -> (r: Result<&mut [T], ChannelErrors>) ensures typed::<T>(*old(self)) ==> r is Ok && typed::<T>(*final(self)) && r->Ok_0@ == samples::<T>(*old(self)) && samples::<T>(*final(self)) == final(r->Ok_0)@ { unimplemented!() }
#[verifier::external_body] pub fn len(&self) -> (r: usize) ensures typed::<u8>(*self) ==> r == samples::<u8>(*self).len(), typed::<u16>(*self) ==> r == 2 * samples::<u16>(*self).len(), typed::<f32>(*self) ==> r == 4 * samples::<f32>(*self).len() { unimplemented!() }
}
