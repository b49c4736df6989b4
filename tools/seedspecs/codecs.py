HEAD = """from pyembroidery import *
import os, tempfile
D = tempfile.mkdtemp()
def trip(ext, cmds, **kw):
    p = EmbPattern()
    p.add_thread(0xFF0000); p.add_thread(0x00FF00); p.add_thread(0x0000FF)
    for c, x, y in cmds:
        p.add_stitch_absolute(c, x, y)
    p.add_stitch_absolute(END, cmds[-1][1], cmds[-1][2])
    fn = os.path.join(D, "a." + ext)
    write(p, fn, dict(encode=False, **kw))
    q = read(fn)
    os.remove(fn)
    return [(s[2] & 0xFF, round(s[0]), round(s[1])) for s in q.stitches]
try:
"""
TAIL = """
finally:
    os.rmdir(D)
"""
def demo(body):
    return HEAD + "".join("    " + l + "\n" for l in body.strip().split("\n")) + TAIL
seeds = [
 dict(id="c10-short-form", property="C10",
  edits=[("PecWriter.py", "    if not long and -64 < value < 63:", "    if not long and -64 < value < 65:")],
  needs="a step of exactly 64 units", what="a step of 64 is written in the 7-bit form and read back as -64",
  demo=demo("""for d in (62, 63, 64, 65):
    r = trip("pec", [(STITCH, 0, 0), (STITCH, d, 0), (STITCH, d, 3)])
    assert (STITCH, d, 3) in r, (d, r)""")),
 dict(id="c10-signed12", property="C10",
  edits=[("PecReader.py", "    b &= 0xFFF\n    if b > 0x7FF:", "    b &= 0xFFF\n    if b > 0x7BF:")],
  needs="a jump or stitch of 1984 units or more", what="long positive steps come back negative",
  demo=demo("""for d in (1000, 1900, 2000, 2040):
    r = trip("pec", [(STITCH, 0, 0), (JUMP, d, 0), (STITCH, d, 3)])
    assert (STITCH, d, 3) in r, (d, r)""")),
 dict(id="c11-signed8", property="C11",
  edits=[("ReadHelper.py", "    if b > 127:", "    if b > 126:")],
  needs="a step of exactly 127 units", what="a displacement byte of 127 is read as -129",
  demo=demo("""for ext in ("exp", "jef"):
    r = trip(ext, [(STITCH, 0, 0), (STITCH, 127, 0), (STITCH, 127, 3)])
    assert (STITCH, 127, 3) in r, (ext, r)""")),
 dict(id="c13-u01-needle", property="C13",
  edits=[("U01Reader.py", "        if 0x09 <= command <= 0x17:", "        if 0x09 <= command < 0x16:")],
  needs="needle 14", what="the reader stops at the change to needle 14",
  demo=demo("""p = EmbPattern()
for n in range(1, 15):
    p.needle_change(n); p.stitch(5, 5)
p.end()
fn = os.path.join(D, "a.u01")
write(p, fn, dict(encode=False))
q = read(fn); os.remove(fn)
assert len([s for s in q.stitches if s[2] & 0xFF == STITCH]) == 14, q.stitches""")),
 dict(id="c13-xxx-reserved", property="C13",
  edits=[("XxxReader.py", "        if b1 == 0x7D or b1 == 0x7E:", "        if 0x7B <= b1 <= 0x7E:")],
  needs="a stitch of 123 units to the right", what="a short stitch of 123 is taken for a long one",
  demo=demo("""r = trip("xxx", [(STITCH, 0, 0), (STITCH, 123, 0), (STITCH, 123, 3), (STITCH, 120, 3), (STITCH, 120, 6)])
assert (STITCH, 123, 3) in r, r""")),
 dict(id="c09-stop-code", property="C09",
  edits=[("DstWriter.py", "    elif flags == STOP:\n        b2 = 0b11000011", "    elif flags == STOP:\n        b2 = 0b01000011")],
  needs="a stop command in a DST file", what="stops are written with the code of a sequin mode change",
  demo=demo("""r = trip("dst", [(STITCH, 0, 0), (STITCH, 9, 0), (STOP, 9, 0), (STITCH, 9, 9)])
assert [c for c in r if c[0] in (STOP, COLOR_CHANGE)], r""")),
 dict(id="c09-end-mask", property="C09",
  edits=[("DstReader.py", "        if len(byte) != 3:", "        if len(byte) != 3 or byte[0] == 0x1A:")],
  needs="a step whose first byte is 0x1A, for example ten left and nine up", what="the reader stops at such a step, taking it for the end-of-file mark",
  demo=demo("""for y in range(-20, 21):
    for x in range(-20, 21):
        r = trip("dst", [(STITCH, 0, 0), (STITCH, x, y), (STITCH, 5, y)])
        assert (STITCH, 5, y) in r, (x, y, r)""")),
 dict(id="c11-exp-stop", property="C11",
  edits=[("ExpWriter.py", """        elif data == STOP:
            f.write(b"\\x80\\x01\\x00\\x00")""", """        elif data == STOP:
            f.write(b"\\x80\\x02\\x00\\x00")""")],
  needs="a stop command in an EXP file", what="stops come back as zero-length stitches",
  demo=demo("""r = trip("exp", [(STITCH, 0, 0), (STITCH, 9, 0), (STOP, 9, 0), (STITCH, 9, 9)])
assert [c for c in r if c[0] in (STOP, COLOR_CHANGE)], r""")),
 dict(id="c11-jef-short", property="C11",
  edits=[("JefWriter.py", "        if data == STITCH:\n            write_int_8(f, dx)", "        if data == STITCH:\n            write_int_8(f, min(dx, 126))")],
  needs="a stitch of 127 units to the right", what="steps of 127 shrink to 126, everything after is shifted",
  demo=demo("""r = trip("jef", [(STITCH, 0, 0), (STITCH, 127, 0), (STITCH, 127, 3)])
assert (STITCH, 127, 3) in r, r""")),
]
