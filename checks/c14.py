from format_common import *

BROKEN_TYPE = ["f = \\() A {\n  !# c\n{none:[none\n \n]|A}}\ng=\\(x none)none{y}\n"]


def body(check):
    formatting(check, "FormatLayout.cfg", "formatted text is not stable or not laid out as specified", vf.tier(2600, 24000),
               lambda b, i: with_comments(b, check.rng, i, types=False), BROKEN_TYPE)


if __name__ == "__main__":
    vf.main("C14", "model_checking", body)
