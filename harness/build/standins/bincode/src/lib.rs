//! Stand-in for `bincode`: values of serde in a compact form which does not describe itself.
pub mod config { pub fn standard() {} }
pub mod serde;
