HEAD = r"""#!/bin/sh
# Run in the repository: builds a project several times. Exit code 0 when builds are as they must be.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
cp -r "$here/harness" "$here/pen" "$here/penrt" "$work/"
find "$work" -name Cargo.toml -o -name '*.rs' | xargs sed -i "s|/repo/|$repo/|g"
cd "$work/harness" || exit 0
CARGO_TARGET_DIR="$work/target" RUSTFLAGS="-A warnings -C debuginfo=0" cargo build --offline -q --locked || exit 0
mkdir -p "$work/tools/bin" "$work/tools/packages" "$work/place/main"
cp "$here"/tools/* "$work/tools/bin/"
cp "$work/target/debug/harness-build" "$work/tools/bin/pen"
chmod +x "$work"/tools/bin/*
for p in prelude ffi; do
  mkdir "$work/tools/packages/$p"
  cp "$repo/packages/$p/"*.pen "$repo/packages/$p/pen.json" "$work/tools/packages/$p/"
done
mkdir "$work/tools/packages/sys"
echo '{"type":"system","dependencies":{}}' > "$work/tools/packages/sys/pen.json"
printf 'type Context {\n  x number\n}\n\nUnsafeNew = \\() Context {\n  Context{x: 1}\n}\n' > "$work/tools/packages/sys/Context.pen"
printf '#!/bin/sh\nwhile [ "$1" != -o ]; do shift; done\no=$2\nshift 2\ncat "$@" > "$o"\n' > "$work/tools/packages/sys/pen-link.sh"
chmod +x "$work/tools/packages/sys/pen-link.sh"
build() {
  (cd "$work/place/main" && PATH="$work/tools/bin:/usr/bin:/bin" PEN_ROOT="$work/tools" PEN_LOG="$work/log" TURTLE_SEED=1 HOME="$work" timeout 60 pen build)
}
package() {
  mkdir -p "$1"
  printf '{"type":"%s","dependencies":{%s}}' "$2" "$3" > "$1/pen.json"
}
set -ex
cd "$work/place"
"""
PLANTS = {
"c35-joined-names": dict(property="C35", harness="build",
 edits=[("lib/app/src/common/module_id_calculator.rs", "    source_file.hash(&mut hasher);", "    source_file\n        .components()\n        .collect::<String>()\n        .hash(&mut hasher);")],
 needs="two modules of the same file name in folders whose names joined are the same", breaks="Their objects and interfaces overwrite each other.", cases=[],
 demo=HEAD + r"""package main library
mkdir -p main/D/E main/DE
printf 'Foo = \\() number {\n  71\n}\n' > main/D/E/Y.pen
printf 'Bar = \\() number {\n  72\n}\n' > main/DE/Y.pen
build
grep -aq 'Number(71.0)' $(find main/.pen -name libmain.a)
grep -aq 'Number(72.0)' $(find main/.pen -name libmain.a)
"""),
"c35-same-length": dict(property="C35", harness="build",
 edits=[("lib/infra/src/file_system.rs", "        std::fs::write(&path, data)\n", """        // Keep files which are up to date.
        if path
            .metadata()
            .map(|metadata| metadata.is_file() && metadata.len() == data.len() as u64)
            .unwrap_or_default()
        {
            return Ok(());
        }

        std::fs::write(&path, data)
""")],
 needs="a module whose interface or object changes but keeps its length", breaks="Files of an earlier build are kept.", cases=[],
 demo=HEAD + r"""package main library
printf 'Foo = \\() number {\n  71\n}\n' > main/X.pen
printf "import 'X\n\nBar = \\() number {\n  X'Foo()\n}\n" > main/Y.pen
build
printf 'Far = \\() number {\n  72\n}\n' > main/X.pen
printf "import 'X\n\nBar = \\() number {\n  X'Far()\n}\n" > main/Y.pen
build
grep -aq 'Number(72.0)' $(find main/.pen -name libmain.a)
"""),
"c35-interface-once": dict(property="C35", harness="build",
 edits=[("lib/app/src/module_compiler.rs", """        compile_configuration,
    )?;
    infrastructure.file_system.write(
        interface_file,
        &interface_serializer::serialize(&module_interface)?,
    )?;

    Ok(())
}

#[allow(clippy::too_many_arguments)]
pub fn compile_main(""", """        compile_configuration,
    )?;

    let interface = interface_serializer::serialize(&module_interface)?;

    // Do not touch interfaces so that modules which import them are not compiled again.
    if !infrastructure.file_system.exists(interface_file)
        || infrastructure
            .file_system
            .read_to_vec(interface_file)?
            .starts_with(&interface[..interface.len().min(64)])
            .eq(&false)
    {
        infrastructure.file_system.write(interface_file, &interface)?;
    }

    Ok(())
}

#[allow(clippy::too_many_arguments)]
pub fn compile_main(""")],
 needs="a change of an interface behind its first 64 bytes", breaks="Modules see interfaces of earlier builds.", cases=[],
 demo=HEAD + r"""package main library
printf 'type Point {\n  x number\n  y number\n}\n\nFoo = \\() number {\n  71\n}\n' > main/X.pen
printf "import 'X\n\nBar = \\() number {\n  X'Foo()\n}\n" > main/Y.pen
build
printf 'type Point {\n  x number\n  y number\n}\n\nFar = \\() number {\n  72\n}\n' > main/X.pen
printf "import 'X\n\nBar = \\() number {\n  X'Far()\n}\n" > main/Y.pen
build
"""),
"c35-fetched-before": dict(property="C35", harness="build",
 edits=[("lib/app/src/package_initializer/external_package_initializer.rs", """    infrastructure
        .external_package_initializer
        .initialize(package_url, &package_directory)?;

    package_build_script_compiler::compile_external(""", """    // Packages which have been fetched do not change.
    if infrastructure.file_system.exists(&package_directory) {
        return Ok(());
    }

    infrastructure
        .external_package_initializer
        .initialize(package_url, &package_directory)?;

    package_build_script_compiler::compile_external(""")],
 needs="a build which stops while packages are fetched, and another one when it would not", breaks="Packages which the former did not reach are never fetched.", cases=[],
 demo=HEAD + r"""package main library "\"A\":\"file://$PWD/a\""
package a library "\"B\":\"file://$PWD/b\""
printf "import A'X\n\nBar = \\() number {\n  X'Foo()\n}\n" > main/Y.pen
printf "import B'X\n\nFoo = \\() number {\n  X'Foo()\n}\n" > a/X.pen
if build; then exit 1; fi
package b library
printf 'Foo = \\() number {\n  71\n}\n' > b/X.pen
build
"""),
"c35-archives-by-name": dict(property="C35", harness="build",
 edits=[("lib/app/src/package_build_script_compiler.rs", """                    external_package_topological_sorter::sort(&external_package_configurations)?
                        .iter()
                        .map(|url| {""", """                    external_package_configurations
                        .keys()
                        .map(|url| {""")],
 needs="a package which depends on one whose URL comes before its own", breaks="Archives are linked in the order of URLs, and not before those which they depend on.", cases=[],
 demo=HEAD + r"""package main application "\"A\":\"file://$PWD/z\",\"Os\":\"pen:///sys\""
package z library "\"B\":\"file://$PWD/b\""
package b library
printf "import A'X\n\nmain = \\(ctx context) none {\n  _ = X'Foo()\n\n  none\n}\n" > main/main.pen
printf "import B'X\n\nFoo = \\() number {\n  X'Foo() + 71\n}\n" > z/X.pen
printf 'Foo = \\() number {\n  72\n}\n' > b/X.pen
build
one=$(grep -abo 'Number(71.0)' main/app | head -1 | cut -d: -f1)
two=$(grep -abo 'Number(72.0)' main/app | tail -1 | cut -d: -f1)
test "$one" -lt "$two"
"""),
"c36-last-lines": dict(property="C36", harness="build",
 edits=[("lib/app/src/package_format_checker.rs", "        if source != module_formatter::format(&source, &path)? {\n", "        if source.trim_end() != module_formatter::format(&source, &path)?.trim_end() {\n")],
 needs="a module which is formatted but for empty lines at its end", breaks="The check passes a module which formatting changes.", cases=[],
 demo=HEAD + r"""package main library
printf 'Foo = \\() number {\n  71\n}\n' > main/X.pen
(cd main && PATH="$work/tools/bin:$PATH" PEN_ROOT="$work/tools" pen format --check)
printf 'Foo = \\() number {\n  71\n}\n\n\n' > main/X.pen
cp main/X.pen X.before
! (cd main && PATH="$work/tools/bin:$PATH" PEN_ROOT="$work/tools" pen format --check)
cmp main/X.pen X.before
"""),
"c36-listed-once": dict(property="C36", harness="build",
 edits=[("lib/app/src/package_format_checker.rs", "        paths.sort();\n", "        paths.sort_by_key(|path| path.trim_end_matches(\".pen\").rsplit('/').next().map(str::to_owned));\n        paths.dedup_by_key(|path| path.trim_end_matches(\".pen\").rsplit('/').next().map(str::to_owned));\n")],
 needs="two untidy modules of one name in different folders", breaks="The check lists only one of them.", cases=[],
 demo=HEAD + r"""package main library
mkdir main/D
printf 'Foo = \\() number {\n  71\n}\n\n\n' > main/X.pen
cp main/X.pen main/D/X.pen
(cd main && PATH="$work/tools/bin:$PATH" PEN_ROOT="$work/tools" pen format --check) 2> error && exit 1
grep -q 'D/X.pen' error
sed 's|D/X.pen||' error | grep -q X.pen
"""),
"c36-blank-message": dict(property="C36", harness="build",
 edits=[("lib/infra/src/test_linker.rs", "            let message = unsafe {{ {foreign_name}() }};\n            println!(\"\\t{{}}\\t{name}\", if message.as_slice().is_empty() {{ \"OK\" }} else {{ \"FAIL\" }});\n\n            if message.as_slice().is_empty() {{\n", "            let message = unsafe {{ {foreign_name}() }};\n            let passed = message.as_slice().iter().all(u8::is_ascii_whitespace);\n            println!(\"\\t{{}}\\t{name}\", if passed {{ \"OK\" }} else {{ \"FAIL\" }});\n\n            if passed {{\n")],
 needs="a test whose error is a string of spaces", breaks="The test is reported as passed.", cases=[],
 demo=HEAD + r"""package main library
printf 'Test = \\() none | error {\n  error(" ")\n}\n' > main/X.test.pen
mkdir -p "$work/tools/cmd/test/src"
for m in debug heap spawn unreachable; do touch "$work/tools/cmd/test/src/$m.rs"; done
cat > "$work/tools/bin/cargo" <<'END'
#!/bin/sh
# Stands in for Cargo: links the program with tests which all give a string of a space.
set -e
mkdir -p w target/release
cat > w/ffi.rs <<'EOF'
#[repr(C)] pub struct ByteString { p: *const u8, n: usize }
impl ByteString { pub fn as_slice(&self) -> &[u8] { unsafe { std::slice::from_raw_parts(self.p, self.n) } } }
EOF
cp src/*.rs w/
cd w
rustc --edition 2021 --crate-type rlib --crate-name ffi ffi.rs
echo 'struct b { const char *p; unsigned long n; };' > t.c
grep -o 'fn _pen_test_[0-9a-f]*' main.rs | sort -u | while read f n; do echo "struct b $n(void) { struct b x = {\" \", 1}; return x; }" >> t.c; done
gcc -c t.c
ar crs libmain_test.a t.o
rustc --edition 2021 -A warnings --extern ffi=libffi.rlib -L . -o ../target/release/test main.rs
END
chmod +x "$work/tools/bin/cargo"
(cd main && PATH="$work/tools/bin:$PATH" PEN_ROOT="$work/tools" PEN_LOG="$work/log" TURTLE_SEED=1 timeout 100 pen test > ../out) && exit 1
grep -q 'FAIL.*Test' out
"""),
}
