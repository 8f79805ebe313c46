import sqlite3, struct
from os_common import *

NUMBERS = dict(zero=0.0, one=1.0, half=0.5, minus=-7.0, huge=1e300, tiny=5e-324, big=9007199254740992.0, third=1 / 3, infinite=float("inf"),
               wide=2.0 ** 40 + 1, minusWide=-2.0 ** 52 - 1, edge=2.0 ** 31, second=1700000000.0, milliseconds=1700000000000.0)
TEXTS = dict(empty="", a="a", accent="h\u00e9 \u4e16\U0001f600", quote="'; drop table t; --", digits="12", long="long " * 3000, null="null", mark="?1 ? $1 :a")
T = "create table t (id integer primary key, v, n real, s text)"
# What the statements of the model are in SQL; the first part says whether they are sent as queries, executed, or as either.
STATEMENTS = {
    "create": ("x", T), "drop": ("x", "drop table t"),
    "insert": ("x", "insert into t values (?, ?, ?, ?)"),
    "insertReturning": ("q", "insert into t (id, v) values (?, ?) returning v, id"),
    "insertTwo": ("x", "insert into t (id, v) values (?, ?), (?, ?)"),
    "update": ("x", "update t set v = ? where id = ?"), "updateMany": ("x", "update t set v = ? where id <= ?"),
    "delete": ("x", "delete from t where id = ?"), "deleteAll": ("x", "delete from t"), "deleteEqual": ("x", "delete from t where v = ?"),
    "all": ("q", "select id, v, n, s from t order by id"), "descending": ("q", "select * from t order by id desc"),
    "one": ("q", "select id, v, n, s from t where id = ?"), "equal": ("q", "select * from t where v = ? order by id"),
    "between": ("q", "select * from t where id between ? and ? order by id"),
    "echo": ("q", "select ?, ?, ?, ?"), "count": ("q", "select count(*) from t"), "literals": ("q", None),
    "many": ("q", "with recursive c(x) as (select 1 where ?1 > 0 union all select x + 1 from c where x < ?1) select x from c"),
    "manyDown": ("q", "with recursive c(x) as (select 1 where ?1 > 0 union all select x + 1 from c where x < ?1) select x from c order by x desc"),
    "syntax": ("", "selec 1"), "noTable": ("", "select * from missing"), "noColumn": ("", "select missing from t"), "notext": ("", None),
    "burst": ("x", "insert into t (id, v) values (?, ?)"),
}


def bits(f):
    return "%016x" % struct.unpack(">Q", struct.pack(">d", f))[0]


def argument(v):
    k = v["k"]
    if k == "none":
        return None
    if k == "num":
        return dict(n=bits(NUMBERS[v["x"]]))
    if k == "key":
        return dict(n=bits(float(v["x"])))
    if k == "str":
        return dict(s=list(TEXTS[v["x"]].encode()))
    if k == "bool":
        return v["x"]
    return dict(s=[104, 255, 105]) if k == "notext" else dict(l=True)


def case_of(rng, b, i):
    ops = []
    for s in b["h"]:
        how, text = STATEMENTS[s["q"]]
        if "literals" in s:
            text = "select " + ", ".join("%d" % NUMBERS[v["x"]] if v["k"] == "num" else "'%s'" % TEXTS[v["x"]].replace("'", "''") for v in s["literals"])
        o = dict(q=[115, 101, 108, 101, 99, 116, 32, 39, 254, 39] if text is None else text, reads=s.get("reads", how == "q"))
        if s["q"] == "burst":
            o["all"] = [[argument(v) for v in a] for a in s["a"]]
        else:
            o["a"] = [argument(v) for v in s["a"]]
        ops.append(o)
    most = rng.choice([1, 1, 2, 3])
    return dict(uri="sqlite://db-%d?mode=rwc" % i, options=[rng.choice([0, 1]), most, 8000], ops=ops)


def shown(v):
    """Booleans come out of the database as numbers or booleans."""
    return dict(n=bits(float(v))) if isinstance(v, bool) else v


def right(r, x, down=False):
    if not r["ok"]:
        return x == dict(error=True)
    if "upto" in r:
        want = [[dict(n=bits(float(i)))] for i in range(1, r["upto"] + 1)]
        return x == (want[::-1] if down else want)
    if "rows" in r:
        return isinstance(x, list) and all(isinstance(y, list) for y in x) and [[shown(v) for v in y] for y in x] == [[argument(v) for v in y] for y in r["rows"]]
    if "count" in r:
        return x == dict(n=bits(float(r["count"])))
    return isinstance(x, dict) and "n" in x


def kept(path):
    """What another program finds in the database."""
    d = sqlite3.connect(path)
    try:
        return [[None if v is None else dict(n=bits(float(v))) if isinstance(v, (int, float)) else dict(s=list(v.encode())) for v in row] for row in d.execute("select id, v, n, s from t order by id")]
    except sqlite3.OperationalError:
        return None
    finally:
        d.close()


def body(check):
    r = vf.tlc_samples("Sql", "Sql.cfg", 3, vf.tier(2400, 60000), depth=18)
    check.add_tlc(r)
    check.sample(dict(history=r.behaviours[0]["h"]))
    with Places() as places:
        folder = places.folder()
        cmd = [places.binary("sql")]
        cases = [case_of(check.rng, b, i) for i, b in enumerate(r.behaviours)]
        shards = 6
        with ThreadPoolExecutor(shards) as ex:
            parts = list(ex.map(lambda i: vf.Runner(cmd, timeout=40, limit=10, cwd=folder, user=places.user).run(cases[i::shards]), range(shards)))
        results = [None] * len(cases)
        for i, p in enumerate(parts):
            results[i::shards] = p
        for i, (b, c, x) in enumerate(zip(r.behaviours, cases, results)):
            if "skipped" in x:
                continue
            check.count("histories")
            check.count("traces_validated_against_impl")
            if x.get("pool") is not True:
                check.violation("%s: %s" % (short(c), x), dict(case=c, got=x))
                continue
            for j, (s, o, y) in enumerate(zip(b["h"], c["ops"], x["out"])):
                check.count("statements")
                if not (all(right(s["r"], z) for z in y) if "all" in o else right(s["r"], y, s["q"] == "manyDown")):
                    check.violation("after %s, %s with %s gives %s instead of %s" % (short([z["q"] for z in b["h"][:j]]), o["q"], short(s["a"]), short(y), short(s["r"])), dict(case=c, want=b, got=x))
                    break
            else:
                want = [[argument(v) for v in row] for row in b["rows"]] if b["there"] else None
                got = kept(os.path.join(folder, "db-%d" % i))
                if got != want:
                    check.violation("after %s the database holds %s instead of %s" % (short([z["q"] for z in b["h"]]), short(got), short(want)), dict(case=c, want=b, got=got))
        # Databases which are not there.
        bad = [dict(uri=u, options=[0, 1, 300], ops=[]) for u in ("nonsense", "", "sqlite://missing/db", "other://x", "sqlite://absent?mode=ro", [115, 255])]
        for c, x in zip(bad, vf.Runner(cmd, timeout=40, limit=10, cwd=folder, user=places.user).run(bad)):
            check.count("missing_databases")
            if x.get("pool") != dict(error=True):
                check.violation("a pool for %s gives %s" % (c["uri"], x), dict(case=c, got=x))
    check.assumptions.append("SQLite itself is right; other databases are not run")


vf.main("C25", "model_checking", body)
