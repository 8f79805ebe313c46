from format_common import *


def body(check):
    # any layout, comments anywhere
    def place(b, i):
        return Text(b["toks"], b["layout"], comment_seed=i) if i % 3 else with_comments(b, check.rng, i)
    formatting(check, "FormatMeaning.cfg", "formatting changes the meaning", vf.tier(2600, 24000), place)


if __name__ == "__main__":
    vf.main("C12", "model_checking", body)
