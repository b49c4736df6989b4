M = "EmbMatrix.py"
H = """
from pyembroidery import *
from pyembroidery.EmbMatrix import EmbMatrix
def near(a, b): return all(abs(x - y) < 1e-6 for x, y in zip(a, b))
"""
seeds = [
 dict(id="c27-rotate-about", property="C27",
  edits=[(M, """            self.post_translate(x, y)
            self.post_rotate(theta)
            self.post_translate(-x, -y)""", """            self.post_translate(x, y)
            self.post_rotate(theta)
            self.post_translate(-x, y if y < 0 else -y)""")],
  needs="a rotation about a point with a negative y", what="the point rotated about does not stay in place",
  demo=H + """
for y in (20, -20):
    m = EmbMatrix(); m.post_rotate(30, 10, y)
    assert near(m.point_in_matrix_space(10, y), (10, y)), y
"""),
 dict(id="c27-pre-scale", property="C27",
  edits=[(M, """        if sy is None:
            sy = sx
        self.m = self.matrix_multiply(self.get_scale(sx, sy), self.m)""", """        if not sy:
            sy = 1
        self.m = self.matrix_multiply(self.get_scale(sx, sy), self.m)""")],
  needs="pre_scale with one factor for both directions", what="the y direction is not scaled",
  demo=H + """
m = EmbMatrix(); m.pre_scale(3)
assert near(m.point_in_matrix_space(1, 1), (3, 3))
"""),
 dict(id="c27-transform-flags", property="C27",
  edits=[("EmbPattern.py", """        for stitch in self.stitches:
            matrix.apply(stitch)""", """        for stitch in self.stitches:
            stitch[:] = matrix.point_in_matrix_space(stitch[0], stitch[1]) + [stitch[2] & COMMAND_MASK]""")],
  needs="commands with a thread, needle or order number in their upper bits", what="transforming a pattern drops the numbers packed in its commands",
  demo=H + """
p = EmbPattern(); c = encode_thread_change(NEEDLE_SET, 1, 3, 2)
p.stitches = [[0, 0, STITCH], [1, 2, c]]
m = EmbMatrix(); m.post_translate(1, 1)
p.transform(m)
assert p.stitches == [[1, 1, STITCH], [2, 3, c]], p.stitches
"""),
]
