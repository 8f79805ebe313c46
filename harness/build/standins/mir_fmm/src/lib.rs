//! Stand-in for `mir-fmm`: the same checks and transformations of MIR, whose text then stands for the code.
#[derive(Clone, Debug)]
pub struct Configuration { pub yield_function_name: String }
#[derive(Debug)]
pub struct CompileError(String);
impl std::fmt::Display for CompileError { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(&self.0) } }
impl std::error::Error for CompileError {}
pub fn compile(module: &mir::ir::Module, _: &Configuration) -> Result<fmm::ir::Module, CompileError> {
    let e = |e: String| CompileError(e);
    mir::analysis::type_check::check(module).map_err(|x| e(format!("{x:?}")))?;
    let m = mir::analysis::optimization::string_concatenation::transform(module);
    let m = mir::analysis::alpha_conversion::transform(&m);
    let m = mir::analysis::normalization::transform(&m);
    let m = mir::analysis::environment_inference::transform(&m);
    let m = mir::analysis::lambda_lifting::transform(&m);
    let m = mir::analysis::reference_count::transform(&m).map_err(|x| e(format!("{x:?}")))?;
    mir::analysis::type_check::check(&m).map_err(|x| e(format!("{x:?}")))?;
    Ok(fmm::ir::Module(format!("{m:?}\n")))
}
