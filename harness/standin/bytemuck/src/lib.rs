//! Stand-in for the part of bytemuck that the prover's trace reader uses.
pub use bytemuck_derive::{Pod, Zeroable};
/// # Safety
/// Every bit pattern is a value, and there is no padding.
pub unsafe trait Pod: Copy + 'static {}
/// # Safety
/// All zero bytes are a value.
pub unsafe trait Zeroable: Sized {}
pub fn bytes_of_mut<T: Pod>(t: &mut T) -> &mut [u8] {
    unsafe { std::slice::from_raw_parts_mut(t as *mut T as *mut u8, std::mem::size_of::<T>()) }
}
