//! A type with too many variants: this must not compile, or panic.
#[cfg(feature = "reject8")]
pub fn eight() { let p = enum_like::PackedU8::new(crate::v::N::<257>(256)); println!("ACCEPTED PackedU8 of a type with 257 variants: {:?} comes back", p.get()); }
#[cfg(feature = "reject16")]
pub fn sixteen() { let p = enum_like::PackedU16::new(crate::v::N::<65537>(65536)); println!("ACCEPTED PackedU16 of a type with 65537 variants: {:?} comes back", p.get()); }
