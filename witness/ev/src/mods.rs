mod vec_u8 { use super::*; use enum_vec::vec_u8::EnumVec; const WIDTH: usize = 8; const NAME: &str = "vec_u8"; const SMALL: bool = false;
macro_rules! KCASES { ($p:expr, $s:expr, $q:expr, $o:expr, $b:expr) => { case::<2>($p, $s, $q, $o, &mut $b); case::<3>($p, $s, $q, $o, &mut $b); case::<5>($p, $s, $q, $o, &mut $b); case::<16>($p, $s, $q, $o, &mut $b); case::<17>($p, $s, $q, $o, &mut $b); case::<130>($p, $s, $q, $o, &mut $b); case::<256>($p, $s, $q, $o, &mut $b); } }
include!("ops.rs"); }
mod vec_u16 { use super::*; use enum_vec::vec_u16::EnumVec; const WIDTH: usize = 16; const NAME: &str = "vec_u16"; const SMALL: bool = false;
macro_rules! KCASES { ($p:expr, $s:expr, $q:expr, $o:expr, $b:expr) => { case::<2>($p, $s, $q, $o, &mut $b); case::<5>($p, $s, $q, $o, &mut $b); case::<17>($p, $s, $q, $o, &mut $b); case::<200>($p, $s, $q, $o, &mut $b); case::<1000>($p, $s, $q, $o, &mut $b); case::<65536>($p, $s, $q, $o, &mut $b); } }
include!("ops.rs"); }
mod vec_u32 { use super::*; use enum_vec::vec_u32::EnumVec; const WIDTH: usize = 32; const NAME: &str = "vec_u32"; const SMALL: bool = false;
macro_rules! KCASES { ($p:expr, $s:expr, $q:expr, $o:expr, $b:expr) => { case::<2>($p, $s, $q, $o, &mut $b); case::<5>($p, $s, $q, $o, &mut $b); case::<33>($p, $s, $q, $o, &mut $b); case::<300>($p, $s, $q, $o, &mut $b); case::<70000>($p, $s, $q, $o, &mut $b); case::<4294967296>($p, $s, $q, $o, &mut $b); } }
include!("ops.rs"); }
mod vec_u64 { use super::*; use enum_vec::vec_u64::EnumVec; const WIDTH: usize = 64; const NAME: &str = "vec_u64"; const SMALL: bool = false;
macro_rules! KCASES { ($p:expr, $s:expr, $q:expr, $o:expr, $b:expr) => { case::<2>($p, $s, $q, $o, &mut $b); case::<5>($p, $s, $q, $o, &mut $b); case::<40>($p, $s, $q, $o, &mut $b); case::<131072>($p, $s, $q, $o, &mut $b); case::<8589934597>($p, $s, $q, $o, &mut $b); case::<18446744073709551615>($p, $s, $q, $o, &mut $b); } }
include!("ops.rs"); }
mod vec_u128 { use super::*; use enum_vec::vec_u128::EnumVec; const WIDTH: usize = 128; const NAME: &str = "vec_u128"; const SMALL: bool = false;
macro_rules! KCASES { ($p:expr, $s:expr, $q:expr, $o:expr, $b:expr) => { case::<2>($p, $s, $q, $o, &mut $b); case::<5>($p, $s, $q, $o, &mut $b); case::<200>($p, $s, $q, $o, &mut $b); case::<1099511627776>($p, $s, $q, $o, &mut $b); case::<18446744073709551615>($p, $s, $q, $o, &mut $b); } }
include!("ops.rs"); }
mod smallvec_u32 { use super::*; use enum_vec::smallvec_u32::EnumVec; const WIDTH: usize = 32; const NAME: &str = "smallvec_u32"; const SMALL: bool = true;
macro_rules! KCASES { ($p:expr, $s:expr, $q:expr, $o:expr, $b:expr) => { case::<2>($p, $s, $q, $o, &mut $b); case::<5>($p, $s, $q, $o, &mut $b); case::<33>($p, $s, $q, $o, &mut $b); case::<300>($p, $s, $q, $o, &mut $b); case::<70000>($p, $s, $q, $o, &mut $b); case::<4294967296>($p, $s, $q, $o, &mut $b); } }
include!("ops.rs"); }
fn run_all(p: &str, seed: u64, q: usize, m: Option<&str>, only: Option<(usize, u64, usize)>) -> bool {
 let mut bad = false;
 if !bad && (m.is_none() || m == Some("vec_u8")) { bad |= vec_u8::run(p, seed, q, only, &[]); }
 if !bad && (m.is_none() || m == Some("vec_u16")) { bad |= vec_u16::run(p, seed, q, only, &[]); }
 if !bad && (m.is_none() || m == Some("vec_u32")) { bad |= vec_u32::run(p, seed, q, only, &[]); }
 if !bad && (m.is_none() || m == Some("vec_u64")) { bad |= vec_u64::run(p, seed, q, only, &[]); }
 if !bad && (m.is_none() || m == Some("vec_u128")) { bad |= vec_u128::run(p, seed, q, only, &[]); }
 if !bad && (m.is_none() || m == Some("smallvec_u32")) { bad |= smallvec_u32::run(p, seed, q, only, &[]); }
 bad
}
