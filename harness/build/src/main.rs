//! The command `pen` with all its modules except for the reading of arguments (clap is not available here).
#![allow(dead_code)]
#[path = "/repo/cmd/pen/src/application_configuration.rs"] mod application_configuration;
#[path = "/repo/cmd/pen/src/compile_configuration.rs"] mod compile_configuration;
#[path = "/repo/cmd/pen/src/dependency_resolver.rs"] mod dependency_resolver;
#[path = "/repo/cmd/pen/src/documentation_configuration.rs"] mod documentation_configuration;
#[path = "/repo/cmd/pen/src/file_path_configuration.rs"] mod file_path_configuration;
#[path = "/repo/cmd/pen/src/infrastructure.rs"] mod infrastructure;
#[path = "/repo/cmd/pen/src/main_module_compiler.rs"] mod main_module_compiler;
#[path = "/repo/cmd/pen/src/main_package_directory_finder.rs"] mod main_package_directory_finder;
#[path = "/repo/cmd/pen/src/module_compiler.rs"] mod module_compiler;
#[path = "/repo/cmd/pen/src/module_formatter.rs"] mod module_formatter;
#[path = "/repo/cmd/pen/src/package_builder.rs"] mod package_builder;
#[path = "/repo/cmd/pen/src/package_creator.rs"] mod package_creator;
#[path = "/repo/cmd/pen/src/package_documentation_generator.rs"] mod package_documentation_generator;
#[path = "/repo/cmd/pen/src/package_formatter.rs"] mod package_formatter;
#[path = "/repo/cmd/pen/src/package_test_information_compiler.rs"] mod package_test_information_compiler;
#[path = "/repo/cmd/pen/src/prelude_module_compiler.rs"] mod prelude_module_compiler;
#[path = "/repo/cmd/pen/src/test_configuration.rs"] mod test_configuration;
#[path = "/repo/cmd/pen/src/test_linker.rs"] mod test_linker;
#[path = "/repo/cmd/pen/src/test_module_compiler.rs"] mod test_module_compiler;
#[path = "/repo/cmd/pen/src/test_runner.rs"] mod test_runner;
use std::collections::BTreeMap;
use std::io::Write;

struct Arguments { plain: Vec<String>, options: BTreeMap<char, Vec<String>> }
/// Options with the number of values which they take.
fn arguments(rest: &[String], options: &[(char, usize)]) -> Arguments {
    let mut a = Arguments { plain: vec![], options: options.iter().map(|o| (o.0, vec![])).collect() };
    let mut i = 0;
    while i < rest.len() {
        let long = rest[i] == "--target";
        let o = if long { Some('t') } else { rest[i].strip_prefix('-').and_then(|x| x.chars().next()) };
        match o.and_then(|c| options.iter().find(|o| o.0 == c)) {
            Some((c, n)) => { a.options.get_mut(c).unwrap().extend_from_slice(&rest[i + 1..i + 1 + n]); i += 1 + n }
            None => { a.plain.push(rest[i].clone()); i += 1 }
        }
    }
    a
}
fn main() {
    let all: Vec<String> = std::env::args().skip(1).collect();
    if let Some(p) = std::env::var_os("PEN_LOG") {
        let _ = std::fs::OpenOptions::new().append(true).create(true).open(p).unwrap().write_all((all.join(" ") + "\n").as_bytes());
    }
    let (command, rest) = all.split_first().unwrap();
    let a = arguments(rest, match command.as_str() {
        "compile-main" => &[('t', 1), ('c', 2)],
        "resolve-dependency" => &[('p', 1), ('o', 1), ('i', 1)],
        "compile-package-test-information" => &[('o', 1)],
        "link-test" => &[('o', 1), ('i', 1)],
        _ => &[('t', 1)],
    });
    let p = &a.plain;
    let target = a.options.get(&'t').and_then(|v| v.first()).map(|s| s.as_str());
    let strs = |v: &'_ Vec<String>| -> Vec<String> { v.clone() };
    let refs = |v: &'static [String]| -> Vec<&'static str> { v.iter().map(|s| s.as_str()).collect() };
    let leak = |v: Vec<String>| -> &'static [String] { Box::leak(v.into_boxed_slice()) };
    let o = |c: char| -> &'static [String] { leak(strs(&a.options[&c])) };
    let r = match command.as_str() {
        "build" => package_builder::build(target, false),
        "test" => test_runner::run(),
        "create" => package_creator::create(p.iter().find(|x| *x != "--library").unwrap(), p.iter().any(|x| x == "--library")),
        "document" => package_documentation_generator::generate(&p[0], &p[1], &p[2]),
        "format" if p.iter().any(|x| x == "--stdin") => module_formatter::format(),
        "format" => package_formatter::format(p.iter().any(|x| x == "--check")),
        "compile" => module_compiler::compile(&p[0], &p[1], &p[2], &p[3], target),
        "compile-main" => main_module_compiler::compile(&p[0], &p[1], &p[2], &o('c').chunks(2).map(|c| (c[0].as_str(), c[1].as_str())).collect(), target),
        "compile-prelude" => prelude_module_compiler::compile(&p[0], &p[1], &p[2], target),
        "compile-test" => test_module_compiler::compile(&p[0], &p[1], &p[2], &p[3], target),
        "resolve-dependency" => dependency_resolver::resolve(&p[0], &p[1], &p[2], &p[3], &refs(o('i')), &o('p')[0], &o('o')[0]),
        "compile-package-test-information" => package_test_information_compiler::compile(&refs(leak(strs(p))), &o('o')[0]),
        "link-test" => test_linker::link(&refs(leak(strs(p))), &o('i')[0], &o('o')[0]),
        _ => unreachable!(),
    };
    if let Err(e) = r {
        infra::log_error(e.as_ref()).unwrap();
        std::process::exit(1);
    }
}
