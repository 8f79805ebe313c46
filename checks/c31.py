from eval_common import *

# Fixed programs whose meaning is known; the ones listed as findings fail.
FIXED = [
    ("a variable hidden in the second block of an if-map expression",
     "f = \\(o number, y number | error) number {\n  x = if y = {number: number}[0] {\n    0\n  } else {\n    z = y\n    0\n  }\n\n  x\n}\n\nMain = \\(o number) number {\n  f(o, 1)\n}\n", 0),
    ("a variable read in the second block of an if-map expression",
     "f = \\(o number, y number) number {\n  if y = {number: number}[0] {\n    0\n  } else {\n    y\n  }\n}\n\nMain = \\(o number) number {\n  f(o, 1)\n}\n", 1),
    ("a renamed parameter", "f = \\(y number) number {\n  x = y\n  y = 100\n  x\n}\n\nMain = \\(o number) number {\n  f(1)\n}\n", 1),
]


def body(check):
    cmd = binary()
    n = vf.tier(700, 12000)
    progs = generate(check, "all", n, depth=3)
    progs += generate(check, "all", n, depth=2, base=500000 + vf.SEED * 7919 % 100000)
    if vf.tier(0, 1):
        progs += generate(check, "all", 1200, depth=4, fuel=8000, base=900000 + vf.SEED * 7919 % 50000)
    forms(check, cmd, FAMILIES["all"], step=vf.tier(2, 1))
    todo = evaluate(check, cmd, progs, "a module")
    check.sample(dict(text=module(todo[0]["p"]), gives=todo[0]["v"], prints=todo[0]["out"]))
    outs = run(cmd, [dict(texts={"main/M.pen": t}, roots=["main/M.pen"], calls=[dict(fn="Main", args=[0])], budget=300000) for _, t, _ in FIXED], timeout=60)
    for (what, t, want), o in zip(FIXED, outs):
        if o.get("results", [{}])[0].get("v") != want:
            check.violation("%s: %s rather than %s\n%s" % (what, o, want, t), dict(text=t, got=o, want=want), key=what)


vf.main("C31", "model_checking", body)
