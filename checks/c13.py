from format_common import *

JOINED = ["x = \\() number {\n  foo(1) # a\n    .bar(2) # b\n}\n", "x = \\() number {\n  foo(1 # a\n  ).bar(2 # b\n  )\n}\n"]


def body(check):
    formatting(check, "FormatComments.cfg", "formatting changes the comments", vf.tier(2600, 24000),
               lambda b, i: with_comments(b, check.rng, i), JOINED)


if __name__ == "__main__":
    vf.main("C13", "model_checking", body)
