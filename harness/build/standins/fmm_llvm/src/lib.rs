pub struct InstructionConfiguration { pub allocate_function_name: String, pub reallocate_function_name: String, pub free_function_name: String, pub unreachable_function_name: Option<String> }
pub fn compile_to_bit_code(m: &fmm::ir::Module, _: &InstructionConfiguration, target: Option<&str>) -> Result<Vec<u8>, std::fmt::Error> {
    Ok(format!("target {}\n{}", target.unwrap_or("none"), m.0).into_bytes())
}
