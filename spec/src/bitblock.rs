#[repr(C, align(32))]
#[derive(Clone)]
pub struct BitBlock { pub bytes: [u8; 32] }
