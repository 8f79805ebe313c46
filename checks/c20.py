from os_common import *

KINDS = ("mkdir", "rmdir", "list", "move", "copy", "remove")


def body(check):
    with ThreadPoolExecutor(3) as ex:
        tree = ex.submit(vf.tlc_behaviours, "Files", "FilesTree.cfg", workers=4)
        mix = ex.submit(vf.tlc_samples, "Files", "FilesDirs.cfg", 2, vf.tier(1200, 40000), depth=13)
        gen = ex.submit(vf.tlc_samples, "ProcessGen", "ProcessGen.cfg", 2, vf.tier(300, 8000), depth=12)
        rs = [x.result() for x in (tree, mix, gen)]
    for r in rs:
        check.add_tlc(r)
    some = [b for b in rs[0].behaviours if b["h"][-1]["o"]["o"] in KINDS[:3]]
    step = vf.tier(31, 1)
    check.sample(dict(history=rs[1].behaviours[-1]))
    check.sample(dict(process=rs[2].behaviours[-1]["ops"]))
    replay_files(check, some[vf.SEED % step::step] + rs[1].behaviours, KINDS)
    replay_processes(check, rs[2].behaviours)
    check.assumptions.append("the clock of the machine is not set while the check runs")


vf.main("C20", "model_checking", body)
