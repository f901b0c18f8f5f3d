pub use digest::{self, Digest};
use digest::{consts::*, FixedOutput, FixedOutputReset, HashMarker, Output, OutputSizeUser, Reset, Update};
macro_rules! h { ($n:ident, $s:ty, $d:expr) => {
    #[derive(Clone, Default)] pub struct $n { b: Vec<u8> }
    impl HashMarker for $n {}
    impl OutputSizeUser for $n { type OutputSize = $s; }
    impl Update for $n { fn update(&mut self, d: &[u8]) { self.b.extend_from_slice(d) } }
    impl FixedOutput for $n { fn finalize_into(self, out: &mut Output<Self>) { ksymrt::hash($d, &self.b, out.as_mut_slice()) } }
    impl Reset for $n { fn reset(&mut self) { self.b.clear() } }
    impl FixedOutputReset for $n { fn finalize_into_reset(&mut self, out: &mut Output<Self>) { ksymrt::hash($d, &self.b, out.as_mut_slice()); self.b.clear() } }
    impl std::io::Write for $n { fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { self.b.extend_from_slice(b); Ok(b.len()) } fn flush(&mut self) -> std::io::Result<()> { Ok(()) } }
} }
h!(Sha224, U28, 224); h!(Sha256, U32, 256); h!(Sha384, U48, 384); h!(Sha512, U64, 512); h!(Sha512_256, U32, 5256);
