use crate::bitblock::BitBlock;
pub unsafe fn or_assign(a: &mut [BitBlock], b: &[BitBlock]) { unimplemented!() }
