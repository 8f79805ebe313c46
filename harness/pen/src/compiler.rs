//! Drives the real front end (parse, ast-hir, hir-mir) and the MIR passes in the order in which
//! lib/app/src/module_compiler.rs and lib/mir-fmm/src/lib.rs apply them.
use fnv::FnvHashMap;
use std::collections::HashMap;
use std::rc::Rc;

const PRELUDE_PREFIX: &str = "prelude:";
const PRELUDE: &[&str] = &["Hash", "List", "Map", "Number", "String"];

pub struct Unit {
    pub path: String,
    pub module: Rc<mir::ir::Module>,
    pub interface: interface::Module,
    pub tests: Option<test_info::Module>,
    /// Compiled from /repo only (and so reusable for every case).
    pub permanent: bool,
}

#[derive(Debug)]
pub struct Failure {
    pub stage: &'static str,
    pub message: String,
}

fn fail(stage: &'static str, message: impl ToString) -> Failure {
    Failure { stage, message: message.to_string() }
}

pub fn configuration() -> hir_mir::CompileConfiguration {
    let q = |s: &str| format!("{PRELUDE_PREFIX}{s}");
    hir_mir::CompileConfiguration {
        list_type: hir_mir::ListTypeConfiguration {
            empty_function_name: q("EmptyList"),
            concatenate_function_name: q("ConcatenateLists"),
            equal_function_name: q("EqualLists"),
            maybe_equal_function_name: q("MaybeEqualLists"),
            prepend_function_name: q("PrependToList"),
            deconstruct_function_name: q("FirstRest"),
            lazy_function_name: q("LazyList"),
            first_function_name: q("First"),
            rest_function_name: q("Rest"),
            list_type_name: q("List"),
            first_rest_type_name: q("FirstRest"),
            size_function_name: q("ListSize"),
            debug_function_name: q("DebugList"),
        },
        map_type: hir_mir::MapTypeConfiguration {
            context_function_name: q("NewMapContext"),
            context_type_name: q("MapContext"),
            empty_function_name: q("NewMap"),
            empty_type_name: q("Empty"),
            equal_function_name: q("EqualMaps"),
            maybe_equal_function_name: q("MaybeEqualMaps"),
            get_function_name: q("GetMap"),
            map_type_name: q("Map"),
            merge_function_name: q("MergeMaps"),
            delete_function_name: q("DeleteMap"),
            set_function_name: q("SetMap"),
            size_function_name: q("MapSize"),
            debug_function_name: q("DebugMap"),
            hash: hir_mir::HashConfiguration {
                combine_function_name: q("CombineHashes"),
                number_hash_function_name: q("HashNumber"),
                string_hash_function_name: q("HashString"),
                list_hash_function_name: q("HashList"),
                map_hash_function_name: q("HashMap"),
            },
            iteration: hir_mir::MapTypeIterationConfiguration {
                iterator_type_name: q("MapIterator"),
                iterate_function_name: q("IterateMap"),
                key_function_name: q("MapIteratorKey"),
                value_function_name: q("MapIteratorValue"),
                rest_function_name: q("MapIteratorRest"),
            },
        },
        number_type: hir_mir::NumberTypeConfiguration { debug_function_name: q("DebugNumber") },
        string_type: hir_mir::StringTypeConfiguration { equal_function_name: q("EqualStrings") },
        spawn_function_name: "_pen_spawn".into(),
        race_function_name: "_pen_race".into(),
        debug_function_name: "_pen_debug".into(),
    }
}

pub struct Compiler {
    pub units: HashMap<String, Rc<Unit>>,
    preludes: Vec<interface::Module>,
    pub texts: HashMap<String, String>,
    configuration: hir_mir::CompileConfiguration,
    active: Vec<String>,
}

impl Compiler {
    pub fn new() -> Result<Self, Failure> {
        let mut c = Self { units: Default::default(), preludes: vec![], texts: Default::default(), configuration: configuration(), active: vec![] };
        for name in PRELUDE {
            let path = format!("prelude/{name}.pen");
            let text = c.text(&path)?;
            let ast = parse::parse(&text, &path).map_err(|e| fail("parse", e))?;
            let hir = ast_hir::compile_prelude(&ast, PRELUDE_PREFIX).map_err(|e| fail("hir", e))?;
            let (module, interface) = hir_mir::compile_prelude(&hir).map_err(|e| fail("check", e))?;
            c.preludes.push(interface.clone());
            c.units.insert(path.clone(), Rc::new(Unit { path, module: Rc::new(lower(&module)?), interface, tests: None, permanent: true }));
        }
        Ok(c)
    }

    fn text(&self, path: &str) -> Result<String, Failure> {
        if let Some(t) = self.texts.get(path) {
            return Ok(t.clone());
        }
        std::fs::read_to_string(format!("/repo/packages/{path}")).map_err(|e| fail("file", format!("{path}: {e}")))
    }

    /// Removes what was compiled from texts given in a case.
    pub fn reset(&mut self) {
        self.texts.clear();
        self.active.clear();
        self.units.retain(|_, u| u.permanent);
    }

    pub fn compile(&mut self, path: &str, test: bool) -> Result<Rc<Unit>, Failure> {
        if let Some(u) = self.units.get(path) {
            return Ok(u.clone());
        }
        if self.active.iter().any(|p| p == path) {
            return Err(fail("import", format!("{path}: circular imports")));
        }
        let text = self.text(path)?;
        let ast = parse::parse(&text, path).map_err(|e| fail("parse", e))?;
        let package = path.split('/').next().unwrap().to_string();
        let mut interfaces: FnvHashMap<ast::ModulePath, interface::Module> = Default::default();
        let mut permanent = !self.texts.contains_key(path);
        self.active.push(path.into());
        for import in ast.imports() {
            let (p, cs) = match import.module_path() {
                ast::ModulePath::External(p) => (p.package().to_lowercase(), p.components()),
                ast::ModulePath::Internal(p) => (package.clone(), p.components()),
            };
            let u = self.compile(&format!("{p}/{}.pen", cs.join("/")), false)?;
            permanent &= u.permanent;
            interfaces.insert(import.module_path().clone(), u.interface.clone());
        }
        self.active.pop();
        let hir = ast_hir::compile(&ast, &format!("{path}:"), &interfaces, &self.preludes).map_err(|e| fail("hir", e))?;
        let (module, interface, tests) = if test {
            let (module, tests) = hir_mir::compile_test(
                &hir,
                &self.configuration,
                &hir_mir::TestModuleConfiguration { test_function_prefix: "_pen_test_".into() },
            )
            .map_err(|e| fail("check", e))?;
            (module, interface::Module::new(vec![], vec![], vec![]), Some(tests))
        } else {
            let (module, interface) = hir_mir::compile(&hir, &self.configuration).map_err(|e| fail("check", e))?;
            (module, interface, None)
        };
        let unit = Rc::new(Unit { path: path.into(), module: Rc::new(lower(&module)?), interface, tests, permanent });
        self.units.insert(path.into(), unit.clone());
        Ok(unit)
    }
}

pub fn lower(module: &mir::ir::Module) -> Result<mir::ir::Module, Failure> {
    use mir::analysis::*;
    type_check::check(module).map_err(|e| fail("mir", e))?;
    let module = optimization::string_concatenation::transform(module);
    let module = alpha_conversion::transform(&module);
    let module = normalization::transform(&module);
    let module = environment_inference::transform(&module);
    let module = lambda_lifting::transform(&module);
    let module = reference_count::transform(&module).map_err(|e| fail("count", e))?;
    type_check::check(&module).map_err(|e| fail("mir", e))?;
    for type_ in &variant_type_collection::collect(&module) {
        if !module.type_information().information().contains_key(type_) {
            return Err(fail("information", format!("{type_:?}")));
        }
    }
    Ok(module)
}
