H = "from pyembroidery import *\nfrom io import BytesIO\n"
seeds = [
 dict(id="c01-vp3-description", property="C01",
  edits=[("Vp3Writer.py", """    if thread.description is not None:
        vp3_write_string_8(f, thread.description)
    else:
        vp3_write_string_8(f, thread.hex_color())""", """    if thread.description is None:
        thread.description = thread.hex_color()
    vp3_write_string_8(f, thread.description)""")],
  needs="a design whose thread has no description, saved as VP3", what="saving writes a description into the caller's thread",
  demo=H + """
p = EmbPattern(); p.add_thread({"color": 0x123456}); p.add_stitch_absolute(STITCH, 0, 0); p.add_stitch_absolute(STITCH, 10, 0); p.end()

write_vp3(p, BytesIO())
assert p.threadlist[0].description is None
"""),
 dict(id="c01-settings-shared", property="C01",
  edits=[("EmbPattern.py", """            settings = {}
        else:
            settings = settings.copy()
        try:
            encode = writer.ENCODE""", """            settings = {}
        elif "encode" in settings:
            settings = settings.copy()
        try:
            encode = writer.ENCODE""")],
  needs="one settings dictionary used for two saves in different formats", what="saving fills the caller's settings with one format's limits",
  demo=H + """
p = EmbPattern(); p.add_block([(0, 0), (100, 0)], "red")
s = {"tie_on": True}
write_exp(p, BytesIO(), s)
assert s == {"tie_on": True}, s
"""),
 dict(id="c02-normal-extras", property="C02",
  edits=[("EmbEncoder.py", """        source = self.source_pattern.extras
        dest = self.destination_pattern.extras
        dest.update(source)""", """        source = self.source_pattern.extras
        dest = self.destination_pattern.extras
        if len(dest) == 0:
            self.destination_pattern.extras = source
        else:
            dest.update(source)""")],
  needs="metadata set on the normalized pattern afterwards", what="a normalized pattern shares its metadata with the source",
  demo=H + """
p = EmbPattern(); p.add_block([(0, 0), (100, 0)], "red"); p.extras["name"] = "a"
q = p.get_normalized_pattern(); q.extras["name"] = "b"
assert p.extras["name"] == "a"
"""),
 dict(id="c02-merge-threads", property="C02",
  edits=[("EmbPattern.py", """            new_pattern.add_stitch_absolute(stitch[2], stitch[0], stitch[1])
        new_pattern.threadlist.extend(self.threadlist)
        new_pattern.extras.update(self.extras)
        return new_pattern

    def get_stable_pattern""", """            new_pattern.add_stitch_absolute(stitch[2], stitch[0], stitch[1])
        new_pattern.threadlist = self.threadlist or new_pattern.threadlist
        new_pattern.extras.update(self.extras)
        return new_pattern

    def get_stable_pattern""")],
  needs="a thread added to the pattern get_pattern_merge_jumps returned", what="the merged pattern shares its thread list with the original",
  demo=H + """
p = EmbPattern(); p.add_block([(0, 0), (100, 0)], "red")
q = p.get_pattern_merge_jumps(); q.add_thread("blue")
assert len(p.threadlist) == 1
"""),
]
