import json, struct
def n(x): return {"n": "%016x" % struct.unpack(">Q", struct.pack(">d", float(x)))[0]}
def f(**k): return {x: k.get(x, False) for x in ("append", "create", "createNew", "read", "truncate", "write")}
def files(start, *ops): return {"start": [dict(p=p, v=v) for p, v in start.items()], "ops": list(ops)}
def rs(*r): return {"out": [dict(r=x) if not isinstance(x, tuple) else dict(r=x[0], disk=x[1]) for x in r]}
def s(t): return {"s": list(t.encode())}
OK = {"ok": True}
def sql(*ops): return {"uri": "sqlite://demo?mode=rwc", "options": [0, 1, 8000], "ops": [dict(q=q, a=list(a), reads=q.startswith("select")) for q, *a in ops]}
PLANTS = {
"c19-copy-over-longer": dict(property="C19", harness="os-sync",
 edits=[("packages/os-sync/ffi/library/src/file.rs", """    fs::copy(
        utilities::decode_path(&src)?,
        utilities::decode_path(&dest)?,
    )?;
""", """    let mut source = fs::File::open(utilities::decode_path(&src)?)?;
    let mut destination = fs::OpenOptions::new()
        .write(true)
        .create(true)
        .open(utilities::decode_path(&dest)?)?;

    std::io::copy(&mut source, &mut destination)?;
""")],
 needs="copying a file onto a longer one", breaks="The end of the former contents stays behind those which were copied.",
 cases=[(files({"a": [1], "b": [2, 3, 4]}, dict(o="copy", p="/a", q="/b"), dict(o="remove", p="/a")), rs(OK, (OK, [{"p": ["b"], "v": [1]}])))]),
"c19-move-by-copy": dict(property="C19", harness="os",
 edits=[("packages/os/ffi/library/src/file.rs", """    fs::rename(
        utilities::decode_path(&src)?,
        utilities::decode_path(&dest)?,
    )
    .await?;
""", """    fs::copy(
        utilities::decode_path(&src)?,
        utilities::decode_path(&dest)?,
    )
    .await?;
    fs::remove_file(utilities::decode_path(&src)?).await?;
""")],
 needs="moving a folder, or a file which is open", breaks="Folders cannot be moved, and files which are open lose their name.",
 cases=[(files({"d": [-1]}, dict(o="move", p="/d", q="/e")), rs((OK, [{"p": ["e"], "v": [-1]}])))]),
"c19-append-creates": dict(property="C19", harness="os",
 edits=[("packages/os/ffi/library/src/open_file_options.rs", ".create(options.create)", ".create(options.create || options.append)")],
 needs="opening a missing file to append, without the option to create it", breaks="Opening succeeds and makes the file.",
 cases=[(files({}, dict(o="open", p="/a", f=f(append=True))), {"out": [{"r": {"ok": False}, "disk": []}]})]),
"c20-create-parents": dict(property="C20", harness="os-sync",
 edits=[("packages/os-sync/ffi/library/src/directory.rs", "fs::create_dir(", "fs::create_dir_all(")],
 needs="creating a folder which exists, or one in a missing folder", breaks="It succeeds.",
 cases=[(files({"d": [-1]}, dict(o="mkdir", p="/d")), {"out": [{"r": {"ok": False}}]})]),
"c20-skipped-arguments": dict(property="C20", harness="os",
 edits=[("packages/os/ffi/library/src/process.rs", "            args.iter()\n", "            args.iter()\n                .filter(|string| !string.as_slice().is_empty())\n")],
 needs="running a command with an empty argument", breaks="The command does not get the argument.",
 demo="""#!/bin/sh
# Run in the repository. Exit code 0 when a command gets all of its arguments.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
cp -r "$here/harness" "$here/penrt" "$work/"
find "$work" -name Cargo.toml -o -name '*.rs' | xargs sed -i "s|/repo/|$repo/|g"
mkdir "$work/place"
cd "$work/harness" || exit 0
CARGO_TARGET_DIR="$work/target" RUSTFLAGS="-A warnings -C debuginfo=0" cargo build --offline -q --locked || exit 0
cd "$work/place"
printf '#!/bin/sh\\necho $# > out\\n' > count
chmod +x count
echo '{"ops": [{"o": "run", "c": "'"$work"'/place/count", "as": ["a", "", "b"]}], "result": "'"$work"'/result"}' > "$work/case"
CASE="$work/case" timeout 60 "$work/target/debug/harness-os"
cat "$work/result"
grep -q '"got":\\[51,10\\]' "$work/result"
""", cases=[]),
"c21-sent-in-full": dict(property="C21", harness="os",
 edits=[("packages/os/ffi/library/src/tcp.rs", "    Ok((socket.lock().await.write(data.as_slice()).await? as f64).into())", """    let size = data.as_slice().len();

    socket.lock().await.write(data.as_slice()).await?;

    Ok((size as f64).into())""")],
 needs="sending more than what the buffers of a connection take at once", breaks="The number of bytes sent counts bytes which were not.",
 demo=r"""#!/bin/sh
# Run in the repository. Exit code 0 when no more bytes are reported as sent than buffers can hold.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
cp -r "$here/harness" "$here/penrt" "$work/"
find "$work" -name Cargo.toml -o -name '*.rs' | xargs sed -i "s|/repo/|$repo/|g"
cat > "$work/harness/src/main.rs" <<'END'
use ffi::{Any, Arc, ByteString};
use native as _;
#[path = "../../penrt/penrt.rs"]
#[allow(dead_code)]
mod penrt;
#[repr(C)]
#[derive(Clone)]
struct Object(Arc<Any>);
#[ffi::any]
#[derive(Clone)]
struct Held(Object);
#[no_mangle] extern "C" fn _pen_os_tcp_stream_to_any(x: Object) -> Any { Held(x).into() }
#[no_mangle] extern "C" fn _pen_os_tcp_listener_to_any(x: Object) -> Any { Held(x).into() }
#[no_mangle] extern "C" fn _pen_os_tcp_accepted_stream_to_any(x: Object) -> Any { Held(x).into() }
#[no_mangle] extern "C" fn _pen_os_udp_socket_to_any(x: Object) -> Any { Held(x).into() }
#[no_mangle] extern "C" fn _pen_os_udp_datagram_to_any(x: Object) -> Any { Held(x).into() }
#[no_mangle] extern "C" fn _pen_os_file_to_any(x: Object) -> Any { Held(x).into() }
#[no_mangle] extern "C" fn _pen_os_file_metadata_to_any(x: Object) -> Any { Held(x).into() }
ffi::import!(_pen_os_tcp_connect, async fn(address: ByteString) -> Any);
ffi::import!(_pen_os_tcp_send, async fn(stream: Object, data: ByteString) -> Any);
fn main() {
    let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
    let a = l.local_addr().unwrap().to_string();
    tokio::runtime::Builder::new_multi_thread().enable_all().build().unwrap().block_on(async move {
        let x = _pen_os_tcp_connect(a.as_str().into()).await;
        let s = <&Held>::try_from(&x).unwrap().0.clone();
        let _peer = l.accept().unwrap();
        let x = _pen_os_tcp_send(s, vec![7u8; 64 << 20].into()).await;
        let n = f64::from(penrt::number::take(x).unwrap());
        println!("{n} bytes reported");
        assert!(n < (64 << 20) as f64, "nobody has received them");
    });
}
END
cd "$work/harness" || exit 0
CARGO_TARGET_DIR="$work/target" RUSTFLAGS="-A warnings -C debuginfo=0" cargo build --offline -q --locked || exit 0
timeout 60 "$work/target/debug/harness-os"
""", cases=[]),
"c25-wide-integers": dict(property="C25", harness="sql",
 edits=[("packages/sql/ffi/src/pool.rs", "row.try_get::<i64, _>(index) {\n                    ffi::Number::from(number as f64).into()", "row.try_get::<i64, _>(index) {\n                    ffi::Number::from(number as i32 as f64).into()")],
 needs="a column of an integer beyond 32 bits", breaks="The number is another one.",
 cases=[(sql(["select 9007199254740992"]), {"out": [[[n(9007199254740992)]]]})]),
"c25-whole-numbers": dict(property="C25", harness="sql",
 edits=[("packages/sql/ffi/src/pool.rs", "            query = query.bind(f64::from(number));", """            let number = f64::from(number);

            query = if number.fract() == 0.0 {
                query.bind(number as i64)
            } else {
                query.bind(number)
            };""")],
 needs="an argument which is a whole number beyond 64 bits", breaks="The argument becomes the largest integer.",
 cases=[(sql(["create table t (v)"], ["insert into t values (?)", n(1e300)], ["select v from t"]), {"out": [n(0), n(1), [[n(1e300)]]]})]),
"c25-many-rows": dict(property="C25", harness="sql",
 edits=[("packages/sql/ffi/src/pool.rs", """    .iter()
    .rev()
""", """    .iter()
    .rev()
    .take(256)
""")],
 needs="a query whose rows are more than 256", breaks="Rows before the last 256 are missing.",
 cases=[(sql(["create table t (v)"], ["insert into t with recursive c(x) as (select 1 union all select x + 1 from c where x < 300) select x from c"], ["select v from t order by v"]),
         {"out": [n(0), n(300), [[n(i)] for i in range(1, 301)]]})]),
}
