#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)] pub struct Digest(pub [u8; 16]);
impl std::ops::Deref for Digest { type Target = [u8; 16]; fn deref(&self) -> &[u8; 16] { &self.0 } }
impl From<Digest> for [u8; 16] { fn from(d: Digest) -> Self { d.0 } }
pub fn compute<T: AsRef<[u8]>>(d: T) -> Digest { let mut o = [0u8; 16]; ksymrt::hash(5, d.as_ref(), &mut o); Digest(o) }
#[derive(Default, Clone)] pub struct Context(Vec<u8>);
impl Context { pub fn new() -> Self { Self::default() } pub fn consume<T: AsRef<[u8]>>(&mut self, d: T) { self.0.extend_from_slice(d.as_ref()) } pub fn finalize(self) -> Digest { compute(self.0) } pub fn compute(self) -> Digest { compute(self.0) } }
