P = "EmbPattern.py"
H = """
from pyembroidery import *
def pat(cmds, n=6):
    p = EmbPattern()
    for i in range(n):
        p.add_thread(EmbThread(thread=i * 1000))
    for i, c in enumerate(cmds):
        p.stitches.append([i * 10.0, i * 3.0, c])
    return p
"""
seeds = [
 dict(id="c25-one-entry-block", property="C25",
  edits=[(P, """            if command == NEEDLE_SET and colorblock_start != pos:""", """            if command == NEEDLE_SET and colorblock_start < pos - 1:""")],
  needs="two needle changes one entry apart", what="the block of one entry is merged with the next and the threads shift",
  demo=H + """
p = pat([STITCH, STITCH, NEEDLE_SET, NEEDLE_SET, STITCH])
assert [t.color for b, t in p.get_as_colorblocks()] == [0, 1000, 2000]
"""),
 dict(id="c25-block-upper-bits", property="C25",
  edits=[(P, """            command = stitch[2] & COMMAND_MASK
            if command == last_command or last_command == NO_COMMAND:""", """            command = stitch[2]
            if command == last_command or last_command == NO_COMMAND:""")],
  needs="needle or color changes that carry a thread or needle number in their upper bits, next to each other", what="a run of one command is divided",
  demo=H + """
p = pat([STITCH, encode_thread_change(NEEDLE_SET, None, 3), encode_thread_change(NEEDLE_SET, None, 4), STITCH])
assert [len(b) for b in p.get_as_command_blocks()] == [1, 2, 1]
"""),
 dict(id="c25-shared-block", property="C25",
  edits=[(P, """                if len(stitchblock) > 0:
                    yield (stitchblock, thread)
                    stitchblock = []
                if flags == COLOR_CHANGE:""", """                if len(stitchblock) > 0:
                    yield (stitchblock, thread)
                    del stitchblock[:]
                if flags == COLOR_CHANGE:""")],
  needs="a caller that keeps the blocks instead of using each up before the next is made", what="blocks handed out earlier are emptied",
  demo=H + """
p = pat([STITCH, STITCH, JUMP, STITCH, COLOR_CHANGE, STITCH])
n = [len(b) for b, t in p.get_as_stitchblock()]
assert n == [2, 1, 1]
assert [len(b) for b, t in list(p.get_as_stitchblock())] == [2, 1, 1]
"""),
 dict(id="c25-stitchblock-thread", property="C25",
  edits=[(P, """                    stitchblock = []
                if flags == COLOR_CHANGE:
                    thread = self.get_thread_or_filler(thread_index)
                    thread_index += 1""", """                    stitchblock = []
                    if flags == COLOR_CHANGE:
                        thread = self.get_thread_or_filler(thread_index)
                        thread_index += 1""")],
  needs="a color change that does not directly follow a stitch (after a trim or jump, or another color change)", what="blocks after it come with the wrong thread",
  demo=H + """
for cmds in ([STITCH, COLOR_CHANGE, STITCH], [STITCH, TRIM, COLOR_CHANGE, STITCH], [STITCH, COLOR_CHANGE, JUMP, STITCH]):
    assert [t.color for b, t in pat(cmds).get_as_stitchblock()] == [0, 1000], cmds
"""),
]
