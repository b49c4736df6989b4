H = """from pyembroidery import *
def enc(cmds, **kw):
    p = EmbPattern()
    for c in (0xFF0000, 0x00FF00, 0x0000FF, 0xFF0000):
        p.add_thread(c)
    for c, x, y in cmds:
        p.add_stitch_absolute(c, x, y)
    q = p.get_normalized_pattern(kw)
    return [(s[2] & 0xFF, s[0], s[1]) for s in q.stitches], q
"""
E = "EmbEncoder.py"
seeds = [
 dict(id="c03-planned-command", property="C03",
  edits=[(E, "            self.add_thread_change(STOP, change[1], change[2])", "            self.add_thread_change(change[0], change[1], change[2])")],
  needs="a format that changes threads with STOP (tbf-like settings) and a source with an explicit COLOR_CHANGE or NEEDLE_SET",
  what="the source's own change command reaches formats that only know STOP",
  demo=H + """
r, q = enc([(STITCH, 0, 0), (COLOR_BREAK, 0, 0), (STITCH, 5, 5), (END, 5, 5)], thread_change_command=STOP)
assert not [c for c in r if c[0] in (COLOR_CHANGE, NEEDLE_SET)]
r, q = enc([(STITCH, 0, 0), (COLOR_CHANGE, 0, 0), (STITCH, 5, 5), (NEEDLE_SET, 5, 5), (STITCH, 9, 9), (END, 5, 5)], thread_change_command=STOP)
assert not [c for c in r if c[0] in (COLOR_CHANGE, NEEDLE_SET)], r
"""),
 dict(id="c03-sequin-toggle", property="C03",
  edits=[(E, "        if contingency == CONTINGENCY_SEQUIN_UTILIZE:\n            self.add(SEQUIN_MODE)", "        if contingency != CONTINGENCY_SEQUIN_REMOVE:\n            self.add(SEQUIN_MODE)")],
  needs="sequins written to a format that replaces them by jumps or stitches", what="sequin mode commands reach formats without sequins",
  demo=H + """
for s in (CONTINGENCY_SEQUIN_JUMP, CONTINGENCY_SEQUIN_STITCH, CONTINGENCY_SEQUIN_REMOVE):
    r, q = enc([(STITCH, 0, 0), (SEQUIN_MODE, 0, 0), (SEQUIN_EJECT, 5, 5), (STITCH, 9, 9), (END, 9, 9)], sequin_contingency=s)
    assert not [c for c in r if c[0] in (SEQUIN_MODE, SEQUIN_EJECT)], r
"""),
 dict(id="c04-empty", property="C04",
  edits=[(E, "        if flags != END:\n            self.end_here()", "        if self.stitch is not None and flags != END:\n            self.end_here()")],
  needs="a pattern without any command", what="an empty pattern is encoded without END",
  demo=H + """
r, q = enc([(STITCH, 0, 0)])
assert [c[0] for c in r] == [STITCH, END], r
r, q = enc([])
assert [c[0] for c in r] == [END], r
"""),
 dict(id="c04-after-end", property="C04",
  edits=[(E, "                self.end_here()\n                break", "                self.end_here()\n                if self.position + 1 >= len(source) or not self.lookahead_stitch():\n                    break")],
  needs="a source with a stray END followed by a speed, stop or stitch command and whose lookahead still sees stitches", what="commands are emitted after END",
  demo=H + """
r, q = enc([(STITCH, 0, 0), (END, 0, 0), (TRIM, 5, 5)])
assert [c[0] for c in r].count(END) == 1 and r[-1][0] == END
p = EmbPattern()
p.stitches = [[0, 0, STITCH], [0, 0, END | 0x100], [5, 5, STITCH]]
r = p.get_normalized_pattern().stitches
assert [c[2] & 0xFF for c in r].count(END) == 1 and r[-1][2] & 0xFF == END, r
"""),
 dict(id="c05-break-needle-at", property="C05",
  edits=[(E, """                elif self.state_jumping:
                    self.needle_to(x, y)
                    self.state_jumping = False
                else:
                    self.needle_to(x, y)""", """                else:
                    self.needle_to(x, y)""")],
  needs="STITCH_BREAK, then NEEDLE_AT, then a JUMP", what="a needle_at no longer ends a stitch break, later jumps are dropped",
  demo=H + """
r, q = enc([(STITCH, 0, 0), (STITCH_BREAK, 0, 0), (JUMP, 3, 3), (STITCH, 5, 5), (JUMP, 50, 5), (STITCH, 60, 5), (END, 9, 9)])
assert (JUMP, 50, 5) in r and (JUMP, 3, 3) not in r, r
r, q = enc([(STITCH, 0, 0), (STITCH_BREAK, 0, 0), (JUMP, 3, 3), (NEEDLE_AT, 5, 5), (JUMP, 50, 5), (STITCH, 60, 5), (END, 9, 9)])
assert (JUMP, 50, 5) in r, r
"""),
 dict(id="c05-sequin-position", property="C05",
  edits=[(E, """            self.add(STITCH, new_x, new_y)
        self.update_needle_position(new_x, new_y)

    def slow""", """            self.stitch_at(new_x, new_y)
        if contingency == CONTINGENCY_SEQUIN_UTILIZE:
            self.update_needle_position(new_x, new_y)

    def slow""")],
  needs="a sequin replaced by a jump, followed by a command without a point of its own (stop, trim, color change, end)",
  what="the needle position is not updated after a sequin written as a jump, what follows lands at the place before it",
  demo=H + """
for s in (CONTINGENCY_SEQUIN_JUMP, CONTINGENCY_SEQUIN_STITCH, CONTINGENCY_SEQUIN_UTILIZE):
    r, q = enc([(STITCH, 0, 0), (SEQUIN_EJECT, 5, 5), (STOP, 5, 5), (STITCH, 9, 9), (END, 9, 9)], sequin_contingency=s)
    assert (STOP, 5, 5) in r, r
"""),
 dict(id="c06-trim", property="C06",
  edits=[(E, """        if self.state_sequin_mode:
            # Can't trim""", """        if self.state_sequin_mode and not self.explicit_trim:
            # Can't trim""")],
  needs="sequins in use, explicit trims, and a color change or trim while sequin mode is on", what="a trim is emitted inside sequin mode",
  demo=H + """
for ex in (False, True):
    r, q = enc([(STITCH, 0, 0), (SEQUIN_MODE, 0, 0), (SEQUIN_EJECT, 5, 5), (TRIM, 5, 5), (STITCH, 9, 9), (END, 9, 9)],
               sequin_contingency=CONTINGENCY_SEQUIN_UTILIZE, explicit_trim=ex)
    on = False
    for c in r:
        if c[0] == SEQUIN_MODE: on = not on
        assert not (on and c[0] in (TRIM, JUMP)), r
"""),
 dict(id="c06-eject", property="C06",
  edits=[(E, "                if not self.state_sequin_mode:\n                    self.toggle_sequins()", "                if not self.state_sequin_mode and self.position:\n                    self.toggle_sequins()")],
  needs="a design that starts with a sequin, without an explicit sequin mode command", what="the first sequin is ejected outside sequin mode",
  demo=H + """
for first in ([(STITCH, 0, 0)], []):
    r, q = enc(first + [(SEQUIN_EJECT, 5, 5), (STITCH, 9, 9), (END, 9, 9)], sequin_contingency=CONTINGENCY_SEQUIN_UTILIZE)
    on = False
    for c in r:
        if c[0] == SEQUIN_MODE: on = not on
        assert c[0] != SEQUIN_EJECT or on, r
"""),
 dict(id="c07-repeated-thread", property="C07",
  edits=[(E, """            threadlist.append(change[3])
            if self.order_index != 0:""", """            if change[3] not in threadlist:
                threadlist.append(change[3])
            if self.order_index != 0:""")],
  needs="a design that comes back to a color used before", what="a repeated thread is not declared again, threads and changes no longer match",
  demo=H + """
c = []
for k in range(4):
    c += [(STITCH, k, 0), (STITCH, k, 9), (COLOR_BREAK, k, 9)]
r, q = enc(c[:6])
assert len(q.threadlist) == 2
r, q = enc(c)
assert len(q.threadlist) == len([x for x in r if x[0] == COLOR_CHANGE]) + 1, (r, q.threadlist)
"""),
 dict(id="c07-undeclared", property="C07",
  edits=[(E, """        if self.order_index == -1:
            self.next_change_sequence()
        self.state_trimmed = False""", """        if self.order_index == -1 and not self.state_sequin_mode:
            self.next_change_sequence()
        self.state_trimmed = False""")],
  needs="sequin mode switched on before anything is stitched", what="stitches are emitted before any thread is declared",
  demo=H + """
for first in ([], [(SEQUIN_MODE, 0, 0)]):
    r, q = enc(first + [(SEQUIN_EJECT, 5, 5), (STITCH, 9, 9), (END, 9, 9)], sequin_contingency=CONTINGENCY_SEQUIN_UTILIZE)
    assert len(q.threadlist) == 1, (r, q.threadlist)
"""),
]
