H = "from pyembroidery import *\nfrom io import BytesIO\nimport importlib, signal\ndef rd(m, b):\n    return read_embroidery(importlib.import_module('pyembroidery.' + m), BytesIO(bytes(b)))\n"
seeds = [
 dict(id="c18-tbf-hang", property="C18",
  edits=[("TbfReader.py", """        if read_int_8(f) == 0x45:
            thread = EmbThread()""", """        mark = read_int_8(f)
        if mark == 0x20:
            break
        if mark == 0x45:
            thread = EmbThread()"""), ("TbfReader.py", """            read_int_8(f)  # Should be 0x20 " "
            out.add_thread(thread)
        else:
            break
""", """            read_int_8(f)  # Should be 0x20 " "
            out.add_thread(thread)
        elif mark == 0x00:
            break
""")],
  needs="a TBF file that ends inside its color table", what="reading never ends",
  demo=H + """
signal.alarm(20)
try:
    rd("TbfReader", b"\\x01" * 0x20e + b"\\x45\\x01\\x02\\x03\\x20\\x45\\x01")
except TypeError:
    pass
"""),
 dict(id="c18-sew-palette", property="C18",
  edits=[("SewReader.py", """        index %= len(threads)
""", """        if index > len(threads):
            index %= len(threads)
""")],
  needs="a SEW file whose color number is exactly the size of the palette", what="reading fails with an IndexError",
  demo=H + """
from pyembroidery.EmbThreadSew import get_thread_set
n = len(get_thread_set())
p = rd("SewReader", b"\\x01\\x00" + bytes([n, 0]) + bytes(0x1d78))
assert len(p.threadlist) == 1
"""),
 dict(id="c18-zxy-needle", property="C18",
  edits=[("ZxyReader.py", """            needle = b[2]
            out.needle_change(needle)""", """            if b[2] != 0:
                needle = b[2]
            out.needle_change(needle)""")],
  needs="a ZXY file whose first needle change is to needle 0", what="reading fails with an UnboundLocalError",
  demo=H + """
p = rd("ZxyReader", bytes(3) + b"\\x20\\x01\\x00" + b"\\x20\\xff\\x00")
assert len(p.stitches) == 2, p.stitches
"""),
 dict(id="c19-dsz-end", property="C19",
  edits=[("DszReader.py", """            needle = (ctrl - 0x83) >> 1
            out.needle_change(needle)
            continue
        break  # Uncaught Control
""", """            needle = (ctrl - 0x83) >> 1
            out.needle_change(needle)
            continue
        if ctrl & 0x80:
            return  # end
        break  # Uncaught Control
""")],
  needs="a DSZ file with an end record of its own", what="the pattern read has no END",
  demo=H + """
p = rd("DszReader", b" " * 512 + b"\\x01\\x01\\x80" + b"\\x00\\x00\\x9f")
assert p.stitches[-1][2] == END, p.stitches
"""),
 dict(id="c19-u01-partial", property="C19",
  edits=[("U01Reader.py", """        if len(byte) != 3:
            break
        ctrl = byte[0]""", """        if len(byte) == 0:
            break
        ctrl = byte[0]""")],
  needs="a U01 file cut off in the middle of a record", what="reading fails with an IndexError instead of giving the stitches before the cut",
  demo=H + """
p = rd("U01Reader", bytes(0x100) + b"\\x00\\x01\\x01" * 5 + b"\\x00\\x01")
assert len(p.stitches) == 6, p.stitches
"""),
 dict(id="c19-ksm-pad", property="C19",
  edits=[("KsmReader.py", """        if len(byte) != 3:
            break
""", """        if len(byte) != 3:
            if len(byte) == 0:
                break
            byte += bytearray(3 - len(byte))
""")],
  needs="a KSM file cut off in the middle of a record", what="a stitch is made up from half a record",
  demo=H + """
p = rd("KsmReader", bytes(0x200) + b"\\x01\\x01\\x00" * 5 + b"\\x09")
assert len(p.stitches) == 6, p.stitches
"""),
 dict(id="c19-gcode-none", property="C19",
  edits=[("ExyReader.py", "XX", "XX")], needs="", what="", demo="")
]
seeds.pop()
