T = "EmbThread.py"
H = "from pyembroidery import *\n"
seeds = [
 dict(id="c23-weight-eq", property="C23",
  edits=[(T, """        if self.weight != other.weight:
            return False
        return True""", """        if self.weight and other.weight and self.weight != other.weight:
            return False
        return True""")],
  needs="two threads of which only one has a weight", what="threads that differ in their weight compare equal",
  demo=H + """
assert EmbThread("red", weight="40") != EmbThread("red")
assert EmbThread("red") != EmbThread("red", weight="40")
"""),
 dict(id="c23-hash-alpha", property="C23",
  edits=[(T, """    def __hash__(self):
        return self.color & 0xFFFFFF""", """    def __hash__(self):
        return hash(self.color)""")],
  needs="two equal threads, one with its opacity bits set, in one set or palette", what="equal threads have different hashes",
  demo=H + """
assert len({EmbThread(0x123456), EmbThread(0xFF123456)}) == 1
"""),
 dict(id="c23-copy-chart", property="C23",
  edits=[(T, """            self.brand = thread.brand
            self.chart = thread.chart
            self.weight = thread.weight
        elif""", """            self.brand = thread.brand
            self.chart = thread.chart or self.chart
            self.weight = thread.weight
        elif""")],
  needs="a thread set again from one without a chart", what="an earlier chart name stays",
  demo=H + """
t = EmbThread("red", chart="old"); t.set(EmbThread("blue"))
assert t == EmbThread("blue")
"""),
 dict(id="c23-tuple-color", property="C23",
  edits=[(T, """                        (color[0] & 0xFF) << 16
                        | (color[1] & 0xFF) << 8
                        | (color[2] & 0xFF)""", """                        (color[0] & 0xFF) << 16
                        | (color[1] & 0x7F) << 8
                        | (color[2] & 0xFF)""")],
  needs="a thread set from a tuple with a green of 128 or more", what="the top bit of green is lost",
  demo=H + """
assert EmbThread({"color": (1, 200, 3)}).get_green() == 200
"""),
]
