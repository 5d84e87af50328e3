pub mod rs_std { pub struct CppWaker { _opaque: [u8; 0] } }
