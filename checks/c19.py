from os_common import *

KINDS = ("open", "read", "limit", "write", "close", "copy", "move", "remove", "size")


def body(check):
    with ThreadPoolExecutor(3) as ex:
        flags = ex.submit(vf.tlc_behaviours, "Files", "FilesFlags.cfg", workers=2)
        tree = ex.submit(vf.tlc_behaviours, "Files", "FilesTree.cfg", workers=3)
        mix = ex.submit(vf.tlc_samples, "Files", "FilesMix.cfg", 3, vf.tier(4500, 90000), depth=15)
        rs = [x.result() for x in (flags, tree, mix)]
    for r in rs:
        check.add_tlc(r)
    step = vf.tier(3, 1)
    some = [b for b in rs[1].behaviours if b["h"][-1]["o"]["o"] in KINDS]
    behaviours = rs[0].behaviours[vf.SEED % step::step] + some[vf.SEED % (step * 7)::vf.tier(21, 1)] + rs[2].behaviours
    check.sample(dict(history=rs[2].behaviours[-1]))
    replay_files(check, behaviours, KINDS)
    check.assumptions.append("the file system of the machine holds what was written to it")


vf.main("C19", "model_checking", body)
