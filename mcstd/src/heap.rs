//! Whose allocations are counted: those made while explored code runs within `inside`, except by the
//! explorer and the simulated kernels.
use std::cell::Cell;

pub struct Flag(Cell<bool>);
// There is one OS thread.
unsafe impl Sync for Flag {}
static ON: Flag = Flag(Cell::new(false));

/// Whether an allocation made now counts.
#[inline]
pub fn counting() -> bool {
    ON.0.get()
}
pub(crate) fn set(on: bool) -> bool {
    ON.0.replace(on)
}
pub struct Was(bool);
impl Drop for Was {
    fn drop(&mut self) {
        ON.0.set(self.0)
    }
}
pub(crate) fn outside() -> Was {
    Was(set(false))
}
/// Run code of the crate: what it allocates counts.
pub fn inside<R>(f: impl FnOnce() -> R) -> R {
    let _was = Was(set(true));
    f()
}
