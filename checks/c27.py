from eval_common import *


def body(check):
    cmd = binary()
    n = vf.tier(600, 12000)
    progs = generate(check, "lists", n, depth=3)
    progs += generate(check, "lists", n, depth=2, base=500000 + vf.SEED * 7919 % 100000)
    if vf.tier(0, 1):
        progs += generate(check, "lists", 1200, depth=4, fuel=8000, base=900000 + vf.SEED * 7919 % 50000)
    forms(check, cmd, FAMILIES["lists"], step=vf.tier(2, 1))
    todo = evaluate(check, cmd, progs, "a module over lists")
    check.sample(dict(text=module(todo[0]["p"]), gives=todo[0]["v"], prints=todo[0]["out"]))


vf.main("C27", "model_checking", body)
