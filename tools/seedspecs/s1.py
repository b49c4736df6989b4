seeds = [
 dict(id="c15-field-carry", property="C15",
  edits=[("EmbFunctions.py", "    return command | (order << 24) | (needle << 16) | (thread << 8)", "    return command | (order << 24) | (needle << 16) | ((thread & 0x7F) << 8)")],
  needs="a thread number of 127 or more", what="thread numbers from 127 up lose their high bit",
  demo="""from pyembroidery import *
from pyembroidery.EmbFunctions import *
for t in (0, 5, 126, 127, 200, 254):
    assert decode_embroidery_command(encode_thread_change(COLOR_CHANGE, t, 3, 4)) == (COLOR_CHANGE, t, 3, 4), t
"""),
 dict(id="c15-needle-minus", property="C15",
  edits=[("EmbFunctions.py", "    needle >>= 16\n    needle -= 1\n    if needle == -1:", "    needle >>= 16\n    needle -= 1\n    if needle in (-1, 254):")],
  needs="needle number 254", what="needle 254 unpacks as absent",
  demo="""from pyembroidery import *
from pyembroidery.EmbFunctions import *
assert decode_embroidery_command(encode_thread_change(NEEDLE_SET, 1, 254, 0)) == (NEEDLE_SET, 1, 254, 0)
"""),
 dict(id="c26-insert-relative", property="C26",
  edits=[("EmbPattern.py", "            position += len(self.stitches)  # I need positive positions.", "            position += len(self.stitches) + 1  # I need positive positions.")],
  needs="a relative insert at a negative position", what="relative insertion with a negative position lands one entry late",
  demo="""from pyembroidery import *
p = EmbPattern()
for i in range(4):
    p.stitch_abs(10 * i, i)
p.stitch(1, 1, position=-2)
assert [list(s[:2]) for s in p.stitches] == [[0,0],[10,1],[11,2],[20,2],[30,3]], p.stitches
"""),
 dict(id="c26-add-command-tracks", property="C26",
  edits=[("EmbPattern.py", '''        that require an update"""
        self.stitches.append([x, y, cmd])''', '''        that require an update"""
        self.stitches.append([x, y, cmd])
        self._previousX += x''')],
  needs="a parameter-only command with a nonzero first parameter followed by a relative call", what="command parameters move the current position",
  demo="""from pyembroidery import *
p = EmbPattern()
p.stitch_abs(10, 10)
p.add_command(MATRIX_SCALE, 2, 2)
p.stitch(5, 5)
assert list(p.stitches[-1][:2]) == [15, 15], p.stitches
"""),
]
