//! The memory backends every memory property is checked on, including a user-supplied one that makes
//! the shortest transfers the trait permits.
use tinywasm::engine::{Config, MemoryBackend};
use tinywasm::{LazyLinearMemory, LinearMemory, PagedMemory, Trap, VecMemory};

/// A correct user backend: the default trait methods over transfers of at most `CHUNK` bytes.
pub struct Short<const CHUNK: usize>(pub Vec<u8>);
impl<const CHUNK: usize> LinearMemory for Short<CHUNK> {
    fn len(&self) -> usize { self.0.len() }
    fn grow_to(&mut self, n: usize) -> Result<(), Trap> { self.0.resize(n, 0); Ok(()) }
    fn read(&self, a: usize, dst: &mut [u8]) -> usize {
        let n = dst.len().min(CHUNK).min(self.0.len().saturating_sub(a));
        if n > 0 { dst[..n].copy_from_slice(&self.0[a..a + n]) }
        n
    }
    fn write(&mut self, a: usize, src: &[u8]) -> usize {
        let n = src.len().min(CHUNK).min(self.0.len().saturating_sub(a));
        if n > 0 { self.0[a..a + n].copy_from_slice(&src[..n]) }
        n
    }
}
fn size(ty: &tinywasm::types::MemoryType) -> usize { ty.page_count_initial() as usize * ty.page_size() as usize }

pub type Backend = (&'static str, fn() -> Config);
fn with(b: MemoryBackend) -> Config { Config::new().with_memory_backend(b) }
macro_rules! be { ($n:literal, $e:expr) => { ($n, (|| with($e)) as fn() -> Config) } }
pub const VEC: Backend = ("vec", Config::new);
pub fn all() -> Vec<Backend> {
    vec![
        VEC,
        be!("paged(1)", MemoryBackend::paged(1)), be!("paged(2)", MemoryBackend::paged(2)), be!("paged(4)", MemoryBackend::paged(4)), be!("paged(8)", MemoryBackend::paged(8)), be!("paged(16)", MemoryBackend::paged(16)), be!("paged(32)", MemoryBackend::paged(32)), be!("paged(65536)", MemoryBackend::paged(65536)),
        be!("lazy vec", MemoryBackend::custom(|ty| LazyLinearMemory::try_new(ty, MemoryBackend::vec()))),
        be!("lazy paged(8)", MemoryBackend::custom(|ty| LazyLinearMemory::try_new(ty, MemoryBackend::paged(8)))),
        be!("user paged(4)", MemoryBackend::custom(|ty| PagedMemory::try_new(size(&ty), 4).map_err(Into::into))),
        be!("user vec", MemoryBackend::custom(|ty| VecMemory::try_new(size(&ty)).map_err(Into::into))),
        be!("user short(1)", MemoryBackend::custom(|ty| Ok(Short::<1>(vec![0; size(&ty)])))),
        be!("user short(3)", MemoryBackend::custom(|ty| Ok(Short::<3>(vec![0; size(&ty)])))),
    ]
}
