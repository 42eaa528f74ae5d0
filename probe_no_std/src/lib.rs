//! Compiles only if the tested crate really does without the standard library (whose panic handler
//! would be a second one), and, without the feature `alloc`, without an allocator.
#![no_std]

use graph_safe_compare::basic;
use graph_safe_compare::utils::RefId;
use graph_safe_compare::Node;

#[panic_handler]
fn panic(_: &core::panic::PanicInfo<'_>) -> ! {
    loop {}
}

#[cfg(feature = "alloc")]
mod memory {
    use core::alloc::{GlobalAlloc, Layout};
    struct Nothing;
    // Never used: this is not run.
    unsafe impl GlobalAlloc for Nothing {
        unsafe fn alloc(&self, _: Layout) -> *mut u8 {
            core::ptr::null_mut()
        }
        unsafe fn dealloc(&self, _: *mut u8, _: Layout) {}
    }
    #[global_allocator]
    static NOTHING: Nothing = Nothing;
}

#[derive(Clone, Copy)]
pub struct List<'l>(&'l Item<'l>);
pub struct Item<'l> {
    value: u32,
    next: Option<&'l Item<'l>>,
}
impl<'l> Node for List<'l> {
    type Cmp = bool;
    type Id = RefId<&'l Item<'l>>;
    type Index = u8;
    fn id(&self) -> Self::Id {
        RefId(self.0)
    }
    fn get_edge(&self, i: &u8) -> Option<Self> {
        if *i == 0 {
            self.0.next.map(List)
        } else {
            None
        }
    }
    fn equiv_modulo_edges(&self, other: &Self) -> bool {
        self.0.value == other.0.value
    }
}

#[no_mangle]
pub extern "C" fn gsc(a: u32, b: u32, limit: u8) -> bool {
    let ends = [Item { value: a, next: None }, Item { value: b, next: None }];
    let (x, y) = (Item { value: 0, next: Some(&ends[0]) }, Item { value: 0, next: Some(&ends[1]) });
    let mut r = basic::equiv(List(&x), List(&y)) && basic::limited_equiv(limit, List(&x), List(&y)).is_ok_and(|r| r);
    #[cfg(feature = "alloc")]
    {
        r &= graph_safe_compare::deep_safe::equiv(List(&x), List(&y)) && graph_safe_compare::wide_safe::equiv(List(&x), List(&y));
    }
    #[cfg(any(feature = "wyrng", feature = "oorandom"))]
    {
        use graph_safe_compare::cycle_safe::modes::interleave::random::{default::RandomNumberGenerator, NumberGenerator};
        r &= RandomNumberGenerator::default().rand_upto(core::num::NonZeroU16::MAX) > 0;
    }
    r
}
