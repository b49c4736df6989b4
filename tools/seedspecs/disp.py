H = "from pyembroidery import *\nfrom io import BytesIO\nimport os, tempfile\n"
seeds = [
 dict(id="c20-falsy-setting", property="C20",
  edits=[("EmbPattern.py", """            if not ("round" in settings):""", """            if not settings.get("round"):"""),
         ("EmbPattern.py", """            if not ("full_jump" in settings):""", """            if not settings.get("full_jump"):""")],
  needs="a caller that turns a writer's option off (round or full_jump False) for a writer that turns it on", what="the writer's default overrides a setting the caller made",
  demo=H + """
class W:
    FULL_JUMP = True
    ROUND = True
    @staticmethod
    def write(p, f, s=None):
        W.got = [x[:] for x in p.stitches]

p = EmbPattern(); p.add_stitch_absolute(STITCH, 0.25, 0); p.add_stitch_absolute(STITCH, 10.25, 0); p.end()
write_embroidery(W, p, BytesIO(), {"round": False, "full_jump": False})
assert any(x[0] == 10.25 for x in W.got), W.got
"""),
 dict(id="c20-dotted-name", property="C20",
  edits=[("EmbPattern.py", """        return os.path.splitext(filename)[1][1:]""", """        return os.path.basename(filename).partition(".")[2]""")],
  needs="a file name with more than one dot", what="a design saved as rose.v2.dst is refused, and not read",
  demo=H + """
d = tempfile.mkdtemp()
try:
    p = EmbPattern(); p.add_block([(0, 0), (100, 0)], "red")
    n = os.path.join(d, "rose.v2.dst")
    write(p, n)
    assert read(n) is not None
finally:
    import shutil
    shutil.rmtree(d)
"""),
 dict(id="c20-read-settings", property="C20",
  edits=[("EmbPattern.py", """        pattern = EmbPattern.static_read(filename_from, settings)
        if pattern is None:""", """        pattern = EmbPattern.static_read(filename_from)
        if pattern is None:""")],
  needs="convert with settings the reader uses", what="the reader does not get the caller's settings",
  demo=H + """
d = tempfile.mkdtemp()
try:
    p = EmbPattern(); p.add_block([(0, 0), (100, 0)], "red")
    s = {"trim_at": 2}
    b = os.path.join(d, "b.csv")
    a2 = os.path.join(d, "a.dst"); write(p, a2, {"encode": False})
    import pyembroidery.DstReader as D
    got = []
    old = D.read
    D.read = lambda f, out, settings=None: (got.append(settings), old(f, out, settings))
    convert(a2, b, s)
    D.read = old
    assert got[0] == s, got
finally:
    import shutil
    shutil.rmtree(d)
"""),
 dict(id="c21-leak-on-error", property="C21",
  edits=[("EmbPattern.py", """                with open(f, "rb") as stream:
                    reader.read(stream, pattern, settings)""", """                stream = open(f, "rb")
                reader.read(stream, pattern, settings)
                stream.close()""")],
  needs="a file the reader raises an error for", what="the file is left open when the reader raises",
  demo=H + """
class R:
    @staticmethod
    def read(f, out, settings=None):
        R.f = f
        raise ValueError

try:
    read_embroidery(R, os.path.abspath(__file__) if "__file__" in globals() else "setup.py")
except ValueError:
    pass
assert R.f.closed
"""),
 dict(id="c21-truncate-early", property="C21",
  edits=[("EmbPattern.py", """        if pattern is None:
            return
        if settings is None:
            settings = {}
        else:
            settings = settings.copy()
        try:
            encode = writer.ENCODE""", """        if pattern is None:
            return
        if EmbPattern.is_str(stream):
            mode = "w" if getattr(writer, "WRITE_FILE_IN_TEXT_MODE", False) else "wb"
            with open(stream, mode) as f:
                return EmbPattern.write_embroidery(writer, pattern, f, settings)
        if settings is None:
            settings = {}
        else:
            settings = settings.copy()
        try:
            encode = writer.ENCODE""")],
  needs="saving over an existing file a pattern the encoder cannot normalise", what="the existing file is emptied before the error",
  demo=H + """
d = tempfile.mkdtemp()
try:
    n = os.path.join(d, "a.dst")
    p = EmbPattern(); p.add_block([(0, 0), (100, 0)], "red")
    write(p, n)
    size = os.path.getsize(n)
    p.stitches.append([None, None, STITCH])
    try:
        write(p, n)
    except Exception:
        pass
    assert os.path.getsize(n) == size
finally:
    import shutil
    shutil.rmtree(d)
"""),
 dict(id="c21-closes-stream", property="C21",
  edits=[("EmbPattern.py", """        if EmbPattern.is_str(stream):
            text_mode = False
            try:
                text_mode = writer.WRITE_FILE_IN_TEXT_MODE
            except AttributeError:
                pass
            if text_mode:
                with open(stream, "w") as stream:
                    writer.write(pattern, stream, settings)
            else:
                with open(stream, "wb") as stream:
                    writer.write(pattern, stream, settings)
        else:
            writer.write(pattern, stream, settings)""", """        if EmbPattern.is_str(stream):
            text_mode = False
            try:
                text_mode = writer.WRITE_FILE_IN_TEXT_MODE
            except AttributeError:
                pass
            stream = open(stream, "w" if text_mode else "wb")
        try:
            writer.write(pattern, stream, settings)
        except Exception:
            stream.close()
            raise
        if hasattr(stream, "name"):
            stream.close()""")],
  needs="saving to an open file, or a stream for which the format fails", what="the caller's own stream is closed",
  demo=H + """
p = EmbPattern(); p.add_block([(0, 0), (100, 0)], "red")
with tempfile.TemporaryFile() as f:
    write_dst(p, f)
    assert not f.closed
"""),
]
