//! names of the generator interface (uninterpreted)
pub mod prelude { pub struct SmallRng; }
pub use prelude::SmallRng;
pub trait Rng { fn gen_range<T, A, B>(&mut self, lo: A, hi: B) -> T { unimplemented!() } }
pub trait SeedableRng: Sized { fn seed_from_u64(s: u64) -> Self { unimplemented!() } }
impl Rng for SmallRng {}
impl SeedableRng for SmallRng {}
