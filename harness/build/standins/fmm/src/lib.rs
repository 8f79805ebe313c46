//! Stand-in for `fmm`, which is not available here: a module is the text of the MIR module it was made of.
pub mod ir { #[derive(Clone, Debug)] pub struct Module(pub String); }
pub mod types { pub struct Void; pub fn void_type() -> Void { Void } }
pub mod analysis {
    use crate::{ir::Module, types::Void};
    pub mod cps { use super::*; pub fn transform(_: &mut Module, _: Void) -> Result<(), std::fmt::Error> { Ok(()) } }
    pub mod c_calling_convention { use super::*; pub fn transform(_: &mut Module, _: usize) -> Result<(), std::fmt::Error> { Ok(()) } }
    pub mod validation { use super::*; pub fn validate(_: &Module) -> Result<(), std::fmt::Error> { Ok(()) } }
}
