prop("C15", "Thread, needle and order numbers packed in a command unpack unchanged",
     "Packing a command with any combination of a thread number, a needle number and an order number, each absent or in 0..254, "
     "and unpacking it again gives exactly the same command and numbers, with absent ones still absent. The plain command of a packed "
     "value is the low byte, whatever numbers ride along.",
     ["inputs"], "every command byte and every combination of absent / 0..254 for the three numbers (about 4 billion combinations)",
     "tests pack a handful of triples; a field overlap or sign slip shows only for particular combinations of numbers",
     ["EmbFunctions.py", "EmbConstant.py"], [("encode_thread_change", "EmbFunctions.py"), ("decode_embroidery_command", "EmbFunctions.py")],
     ["return values of the packing and unpacking functions"],
     technique="abstract interpretation of pack/unpack in a relational (affine + bit-field) domain",
     note="complete for the stated ranges: every command byte x presence combination is one obligation over symbolic field values")
prop("C26", "Relative and absolute building calls place commands where the caller asked",
     "Each building call appends (or, with a position, inserts) exactly one command of the named kind: absolute calls at the given "
     "point, relative calls at the current point plus the displacement, inserted relative calls at the point of the entry before them. "
     "No other entry changes, and the current point afterwards is the one just appended; commands added without a position in the "
     "design (parameters only) leave the current point alone.",
     ["inputs", "histories"], "every coordinate, every earlier command list, every building call, every insertion place",
     "tests build a few patterns with a few displacements; the property is about every history of mixed calls",
     ["EmbPattern.py"], [("add_stitch_absolute / add_stitch_relative", "EmbPattern.py"), ("insert_stitch_relative", "EmbPattern.py"),
                         ("add_command / prepend_command", "EmbPattern.py")],
     ["EmbPattern.stitches after each call"],
     technique="abstract interpretation of each building method on an arbitrary pattern (affine domain), induction over call histories",
     note="appending is shown for lists of any length; insertion for the first / middle / last / from-the-end place of a list of three symbolic entries")

CODEC_TECH = ("abstract interpretation of writer and reader (affine + bit-field domain): the writer's loop is summarised into byte records, "
              "the reader is interpreted on arbitrary record sequences and compared at every record boundary")
CODEC_NOTE = ("steps are integers inside the format's own limit; palette search, header text and drawings are replaced by arbitrary values; the "
              "reader's interpolate_trims heuristic is taken as the identity (it is configurable and documented as lossy)")
CODEC_OVER = ["inputs", "histories"]
CODEC_WHY = ("tests write one or two designs and compare counts or extents; a wrong bit, a reserved byte or a threshold off by one shows only for "
             "particular displacements or command sequences")


def codec(id, name, limits, extra, files, reader):
    prop(id, "%s stitch data is read back as written" % name,
         "For every normalised command list (stitches, jumps, trims, stops and color changes with integer steps inside the format's limit: %s) "
         "the stitch records the writer emits are read back by the reader of the same format as the same commands, in the same order, at exactly the "
         "same positions: every stitch comes back as a stitch at its point (including zero-length ones and ones at exactly the limit), every jump as a "
         "movement to its point, stops and color changes as a stop or a color change at the same point, and the reader neither stops early, nor "
         "runs across a record, nor misses the end of the data, which it reports as one END. %s" % (limits, extra),
         CODEC_OVER, "every displacement inside the limit, every command, every list length and every order of commands",
         CODEC_WHY, files, [(f.replace(".py", ""), f) for f in files], ["command list after writing and reading"] ,
         technique=CODEC_TECH, note=CODEC_NOTE)


codec("C09", "DST", "121 units per axis",
      "A trim may come back as three jumps that return to the same point.", ["DstWriter.py", "DstReader.py"], "DstReader")
codec("C10", "PEC", "2047 units per axis",
      "A jump may be preceded by a trim and a stitch or color change that follows a jump by one extra stitch at the place reached; trims and stops are not "
      "part of the stitch data (stops have become color changes by then). PES files carry the same block.",
      ["PecWriter.py", "PecReader.py"], "PecReader")
codec("C11", "EXP and JEF", "127 units per axis",
      "For JEF, trims are written when the trims setting asks for them, as jumps without displacement; color changes and stops are told apart by the "
      "palette.", ["ExpWriter.py", "ExpReader.py", "JefWriter.py", "JefReader.py"], "ExpReader")
codec("C13", "XXX, U01 and TBF", "124 units per axis for XXX, 127 for U01 and TBF",
      "U01 and TBF have needle changes instead of color changes; a U01 needle change comes back with the needle number written (1 to 14). A TBF jump without displacement "
      "may come back as a trim.",
      ["XxxWriter.py", "XxxReader.py", "U01Writer.py", "U01Reader.py", "TbfWriter.py", "TbfReader.py"], "XxxReader")

ENC_TECH = ("abstract interpretation of the encoder on an arbitrary source list: fixpoint of the encoding loop partitioned by the encoder's flags, with "
            "ghost state for what each source command emits (typestate)")
ENC_NOTE = ("every list length and order of STITCH, JUMP, TRIM, STOP, END, COLOR_CHANGE, NEEDLE_SET, SEQUIN_MODE, SEQUIN_EJECT, SLOW, FAST, SEW_TO, "
            "NEEDLE_AT, STITCH_BREAK, SEQUENCE_BREAK, COLOR_BREAK, FRAME_EJECT and an unknown command, any coordinates, under 17 settings (3 thread change "
            "commands x 4 sequin contingencies; explicit trims, step limits, rounding, full jumps, long stitches); inline settings, matrix and tie commands "
            "are outside")
ENC_OVER = ["inputs", "histories"]
ENC_WHY = "tests encode a few short lists; which commands interact depends on the order of many of them and on the settings"


def encoder(id, title, statement, observe):
    prop(id, title, statement, ENC_OVER, "every source command list, every coordinate, the settings listed", ENC_WHY,
         ["EmbEncoder.py"], [("Transcoder.transcode", "EmbEncoder.py")], observe, technique=ENC_TECH, note=ENC_NOTE)


encoder("C03", "Encoding leaves only commands the target format knows",
        "Whatever commands the source contains, the encoded pattern contains only STITCH, JUMP, TRIM, STOP, END, the one thread change command chosen by the "
        "settings, SLOW and FAST unless the format does not write speeds, and SEQUIN_MODE and SEQUIN_EJECT only when the sequin contingency is "
        "to utilize them.", ["commands of the encoded pattern"])
encoder("C04", "An encoded pattern ends with exactly one END",
        "Whatever the source contains (including nothing, no END, or several ENDs with commands after them) the encoded pattern "
        "has exactly one END and it is the last command.", ["commands of the encoded pattern"])
encoder("C05", "Encoding keeps every source command, in order and in place",
        "Each source command up to the first END contributes to the encoded list, in source order, exactly what it stands for: a stitch contributes a stitch at its point "
        "(after any movement needed to get there), a jump a jump to its point unless it directly follows a stitch break, "
        "a trim or sequence break one trim exactly when something was sewn since the last trim, stop or thread change, a color "
        "change or color break a thread change, a stop a stop, a frame eject a jump to its point and a stop, a sequin "
        "what the sequin contingency says, unknown commands nothing. Commands without a place of their own are placed where the needle is; nothing else is added.",
        ["commands and positions of the encoded pattern"])
encoder("C06", "Encoded sequins appear only in sequin mode, jumps and trims only outside",
        "In an encoded pattern that utilizes sequins every SEQUIN_EJECT comes while sequin mode is switched on by the SEQUIN_MODE commands before it, "
        "and every JUMP and TRIM comes while it is switched off.", ["commands of the encoded pattern"])
encoder("C07", "Threads of an encoded pattern match its thread changes",
        "Where threads are changed with COLOR_CHANGE, the encoded pattern has one thread more than color changes as each change is made; where they are changed with STOP, one per "
        "change; where with NEEDLE_SET, the source's thread list. A thread is declared before anything is sewn.",
        ["thread list and thread changes of the encoded pattern"])

prop("C25", "Iterating over a pattern covers its commands exactly, in order",
     "get_as_stitches reports every entry once, in order, with its index, place and command. get_match_commands yields exactly the entries with the "
     "command asked for and count_stitch_commands counts them; upper bits of the command (thread, needle, order) do not matter. get_as_command_blocks divides the list without gaps or overlap into runs of one "
     "command. get_as_stitchblock yields each maximal run of stitches once, none empty, with the thread of the color changes passed. "
     "get_as_colorblocks divides the list in blocks that begin where the one before ended, a COLOR_CHANGE being the last entry of its block, a NEEDLE_SET the "
     "first of its block and a COLOR_BREAK in no block, no block empty, the k-th block with the k-th thread. None of them changes the pattern or a block already handed out.",
     ["inputs"], "every command list", "tests iterate over a few fixed patterns; delimiters at the ends, next to each other or with upper bits in use are rarely sampled",
     ["EmbPattern.py"], [("EmbPattern.get_as_colorblocks", "EmbPattern.py"), ("EmbPattern.get_as_stitchblock", "EmbPattern.py"),
                         ("EmbPattern.get_as_command_blocks", "EmbPattern.py")],
     ["sequence of blocks or entries yielded"],
     technique="abstract interpretation of each generator with ghost state for what its yields have covered: induction over lists of any length, and all command histories "
               "up to a bound kept apart for the relations the induction loses",
     note="get_as_command_blocks, get_as_stitches, get_match_commands by induction for every list; get_as_colorblocks and get_as_stitchblock partly by induction, fully for "
          "lists up to 3 entries (4 in the thorough tier) of any coordinates and upper bits")

prop("C27", "Matrix operations compose as documented and move every point accordingly",
     "A matrix sends a point to its affine image and keeps what follows the coordinates (the command). a @ b (and a @= b) sends a point where a sends its image under b; "
     "post_translate, post_scale and post_rotate apply their step before the existing transform, the pre_ forms after it; scaling or rotating about a point "
     "leaves that point in place; reset gives the identity; after inverse, the matrix undoes what it did (if it can be inverted); matrices are equal exactly if their entries are; no "
     "operation changes another matrix. EmbPattern.translate and transform move every entry so and change no command. The encoder's translate, scale and rotate settings and its MATRIX_ commands "
     "move stitches accordingly, MATRIX_SCALE and MATRIX_ROTATE about the needle's place.",
     ["inputs"], "every matrix, point, angle, factor and displacement (over the reals)",
     "tests transform a few points by a few matrices; a swapped entry or sign shows only for general matrices",
     ["EmbMatrix.py", "EmbPattern.py", "EmbEncoder.py"], [("EmbMatrix", "EmbMatrix.py"), ("EmbPattern.transform / translate", "EmbPattern.py"),
                                                         ("Transcoder matrix handling", "EmbEncoder.py")],
     ["points after the transformation"],
     technique="abstract interpretation in a polynomial domain (values are polynomials over the symbolic entries, coordinates and parameters), compared with the specification's polynomials",
     note="exact over the reals; rounding of floats is outside; pattern-wide operations on three symbolic entries; encoder settings on one to two stitches")

OWN_TECH = "ownership and effect analysis by abstract interpretation: the caller's objects carry labels, every mutation and every object reachable from the result is checked"
prop("C01", "Saving never changes the caller's pattern, threads or settings",
     "Writing a pattern in any supported format, with any of the writer's own encode setting, encoding on or encoding off, leaves the pattern object, its command list and "
     "entries, its thread list and threads, its metadata and the settings passed exactly as they were. Normalizing a pattern does too.",
     ["inputs"], "every pattern (any commands, threads, metadata), every writer in supported_formats, encoding as set by the writer, on and off",
     "tests write a few patterns and look at the file; a writer that edits a shared thread, entry or setting shows only in what the caller still holds",
     ["EmbPattern.py", "EmbEncoder.py", "PesWriter.py", "PecWriter.py", "Vp3Writer.py", "PngWriter.py"],
     [("EmbPattern.write_embroidery", "EmbPattern.py"), ("every writer's write", "PesWriter.py"), ("Transcoder.transcode", "EmbEncoder.py")],
     ["the caller's pattern, threads and settings after saving"], technique=OWN_TECH,
     note="low-level byte output, palette distance and PEC/PNG drawing primitives are taken as free of effects on the pattern's objects; when encoding, the writer gets an arbitrary pattern that shares "
          "the source's threads")
prop("C02", "Patterns derived from a pattern are independent of it, and questions do not change it",
     "Copies (EmbPattern(p), copy, copy.copy, copy.deepcopy), sums (add_pattern, +, +=) and derived patterns (stable, merged, trimmed, normalized) hold a command list, entries, "
     "thread list and metadata of their own: whatever is done to one afterwards, the other pattern stays as it was; threads may be shared, except by deepcopy. Deriving a pattern does not change the "
     "one it is derived from, nor do counting, bounds, iteration and the other questions about a pattern.",
     ["inputs", "histories"], "every pattern, every derivation, every later history of changes to either pattern",
     "tests compare a copy with its original right after copying; shared entries show only when one of them is changed later",
     ["EmbPattern.py", "EmbEncoder.py"], [("EmbPattern.copy / __deepcopy__ / add_pattern", "EmbPattern.py"), ("get_stable_pattern and the other derivations", "EmbPattern.py"),
                                         ("Transcoder.transcode", "EmbEncoder.py")],
     ["both patterns after changing either"], technique=OWN_TECH,
     note="metadata values themselves are taken as immutable (strings)")
prop("C23", "Threads compare, hash and copy by their visible colour and all their texts",
     "Two threads are equal exactly if the visible RGB colour and every text field (description, catalog number, details, brand, chart, weight) are; != is the negation; a thread equals its colour number and "
     "no other kind of object. Equal threads have equal hashes. Setting a thread from another copies every field; setting from a dictionary puts each value into its field and leaves the "
     "others. Red, green and blue, the hex colour, the opaque colour and set_color agree with the colour number.",
     ["inputs"], "every colour number (opacity bits included), every text, absent or present",
     "tests compare a few threads; a field left out or a bit more in the hash shows only for particular pairs",
     ["EmbThread.py"], [("EmbThread.__eq__ / __hash__ / set", "EmbThread.py"), ("get_red ... hex_color", "EmbThread.py")],
     ["comparison results, hashes, fields"], technique="abstract interpretation with symbolic bit fields and texts (affine + bit-field domain)",
     note="parsing of colour names and hex strings is outside (text to number)")
DISP_TECH = ("abstract interpretation of every public entry point with the formats' own read / write functions replaced by recorders: which module is called, on which stream, with which "
             "pattern, settings and limits, on every path")
prop("C20", "Every format is reached by its extension and its own functions, with its own limits",
     "supported_formats lists every format once, with distinct extensions in lower case; reading or writing a file by name uses the module of the format with that "
     "extension, whatever the case of the letters and however many dots the name has, and an unknown extension gives None when reading and an IOError when writing; each read_x / write_x function uses the reader / writer of "
     "format x; every reader and writer gets the stream, the pattern (a new one if none is given) and the settings of the caller; convert reads with the one and writes with "
     "the other. Unless the caller's settings say otherwise, each limit or option the writer declares (MAX_STITCH_DISTANCE, MAX_JUMP_DISTANCE, FULL_JUMP, ROUND, WRITES_SPEEDS, SEQUIN_CONTINGENCY, "
     "THREAD_CHANGE_COMMAND, EXPLICIT_TRIM, TRANSLATE, SCALE, ROTATE, ENCODE) reaches the encoder; what the caller sets wins.",
     ["inputs"], "every format, reader, writer, named function and declared option; file names in several spellings; any pattern",
     "tests use a few formats by name; a dispatch or default wrong for one format, one spelling or one setting is not sampled",
     ["EmbPattern.py", "PyEmbroidery.py"], [("EmbPattern.supported_formats", "EmbPattern.py"), ("EmbPattern.static_read / static_write", "EmbPattern.py"),
                                            ("EmbPattern.write_embroidery / read_embroidery", "EmbPattern.py")],
     ["module called with what; encoder's settings"], technique=DISP_TECH,
     note="complete over the registry as it stands in the source; extensions are tried in four spellings of file names each")
prop("C21", "Files are opened in the format's mode, closed on every path, and the caller's streams stay open",
     "Reading or writing by file name opens exactly that file once, for reading or writing, in text mode exactly if the format asks for it, gives the open file to the format, and has "
     "closed it afterwards, also when the format raises; the error of the format reaches the caller. A file is not opened for writing (which empties it) before the pattern has been "
     "normalised. A stream the caller passes is used as it is and left open.",
     ["inputs", "histories"], "every format, every entry point by name and by stream, normal and exceptional return of the format",
     "tests do not look at open files, nor make a format fail half-way",
     ["EmbPattern.py"], [("EmbPattern.read_embroidery", "EmbPattern.py"), ("EmbPattern.write_embroidery", "EmbPattern.py")],
     ["files opened, their mode, open or closed afterwards"], technique="typestate analysis of streams by abstract interpretation of the entry points, with formats that return or raise",
     note="what a format does inside with further files (none do) is checked by a query on its syntax tree")

READ_TECH = ("abstract interpretation of every reader on an unknown file of unknown length: each loop to a fixpoint, every failing operation and every list built judged on each path")
prop("C18", "Reading any file ends, and a whole file does not make a reader fail",
     "Whatever bytes a file holds, reading it ends: every loop of a reader leaves at the end of the input or counts toward its bound. Where the input isn't cut short, no reader of a "
     "binary format fails with AttributeError, TypeError, NameError, UnboundLocalError, IndexError or KeyError, whatever values the file holds; colour numbers stay inside the palette.",
     ["inputs"], "every file content, every reader",
     "tests read a few well-formed files; an odd colour number, command byte or an early end of the file is not among them",
     ["ReadHelper.py", "EmbThreadPec.py", "EmbThreadJef.py", "DstReader.py", "DatReader.py", "TbfReader.py", "JefReader.py"],
     [("every reader's read", "PecReader.py"), ("read_int_8 and the other helpers", "ReadHelper.py")],
     ["termination, exceptions"], technique=READ_TECH,
     note="text formats (CSV, JSON, g-code, COL, INF, EDR) for their loops only; struct.error and decoding errors are outside; HUS decompression is replaced by unknown data")
prop("C19", "What a reader returns is a finished pattern of known commands and numbers",
     "Every entry a reader of a stitch format makes has numeric coordinates and a known command; the pattern has exactly one END, which nothing follows, if anything was read (CSV and JSON keep what "
     "the file says). A file cut off in its stitch data gives no entry made up from missing data (HUS and XXX excepted) and is read without an error (BRO, PMV, SHV, SPX and XXX excepted).",
     ["inputs", "crash points"], "every file content, every point of truncation, every reader of stitches",
     "tests read whole files; a truncated one, or one whose last command is unusual, is not among them",
     ["DstReader.py", "ExpReader.py", "U01Reader.py", "MitReader.py", "GcodeReader.py", "PmvReader.py", "ReadHelper.py"],
     [("every reader's read", "DstReader.py"), ("EmbPattern.end / add_stitch_relative", "EmbPattern.py")],
     ["the command list a reader returns"], technique=READ_TECH,
     note="one reader (SHV) is undecided for one obligation and says so in its evidence")
