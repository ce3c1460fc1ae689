"""C19: texts fit the memory they are written to."""
from ..ctx import Result
from ..text import Text


def run(ctx):
    r = Result()
    r.rule = ("Every write of a text (sprintf, snprintf, strcpy, strcat, strncpy, strncat, fgets, %s of scanf, copies of a string's "
              "bytes) goes to memory whose size is known, and the largest text that can be written there, terminator included, is at "
              "most that size: sizes and lengths are linear forms over string lengths and digit counts, computed along every path, "
              "into the helpers that are handed a buffer.  A text is used only when it is terminated, is not written over while it is "
              "read, and is not cut (names abbreviated in a local array for printing excepted).")
    A = Text(ctx.prog)
    A.run()
    for k, t in sorted(A.bad.items()):
        r.bad(k, t)
    r.obligations += len(A.writes)
    r.floor("text_writes", len(A.writes), 12)
    r.samples = ["%s #%d" % k for k in sorted(A.writes)][:40]
    return r
