//! Stand-in: the stand-in of `p256` takes any generator.
pub trait Rand0_6CompatExt: Sized {
    fn compat(self) -> Self {
        self
    }
}
impl<T> Rand0_6CompatExt for T {}
