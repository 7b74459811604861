from . import schema

REPLAY = "TLA+ specification explored by TLC; every behaviour replayed on the real code and compared with the specification's prediction"
CHECKS = {}
NOT_APPLICABLE = {}
HOOKS = ["d3ba0f7bd788dba01ad0a21e5493941c5bb43508"]


def reg(prop, fn, rule, note, technique=REPLAY):
    CHECKS[prop] = (fn, rule, technique, note)


reg("C01", schema.c01, "instances composed attribute by attribute by spec/Compose.tla; a case is distinct by its text",
    "All 74 entities; every attribute and every pair of attributes in every alternative, from two bases; random assignments. Trusts the schema table, TLC and the STEP reader in chk/step.py.")
reg("C05", schema.c05, "instances composed attribute by attribute by spec/Compose.tla; a case is distinct by its text",
    "As C01, comparing the public fields of the loaded objects. Attributes that are not public are not observable.")

from . import loader
reg("C06", loader.c06, "one file per (reference attribute, list position, target type or opaque or missing or itself), and random instance graphs; distinct by text",
    "Complete matrix of reference attributes x target types, plus simulated graphs of 7 instances. Trusts the table of admissible types in spec/IfcSchema.tla.")
reg("C03", loader.c03, "every permutation of four statements under every choice of numbers from a pool, and random graphs; distinct by text",
    "Numbers from a pool reaching 2^64-1; graphs of 9 instances; files of up to 2500 (thorough: 20000) instances (Bulk).")
reg("C02", loader.c02, "opaque instance texts written piece by piece by spec/Opaque.tla, malformed instances of supported entities by spec/Malformed.tla; distinct by text",
    "All texts of up to 2 pieces (thorough: 3) over 19 tricky pieces and 10 keywords in 3 positions, longer ones simulated; every attribute of every entity with four wrong kinds of value.")
reg("C04", loader.c04, "files of one instance of every entity with layout or comments in one gap, in all gaps, and (thorough) in random gaps; distinct by text",
    "All listed gaps, six fillers, two attribute assignments per entity.")
reg("C08", loader.c08, "every prefix of three files (one with every entity), every pair (thorough: triple) of missing structural tokens, added text; distinct by text",
    "Exhaustive over cut points of three files and over pairs/triples of the structural tokens.")

from . import faults
reg("C07", faults.c07, "a valid statement of every entity, or a whole file, with faults happening to its tokens; distinct by text",
    "Thorough: every single fault from a pool of 85 tokens at every token of every entity and of a whole file, and simulated chains of up to 12 faults. Faults within a token only through replacement.")

from . import header
reg("C09", header.c09, "headers with one or two deviating fields, and a grid of time stamps around calendar boundaries; distinct by text",
    "All pairs of alternatives of all ten fields; time stamps over years x dates x clock times x zones with calendar arithmetic in the specification. View items with apostrophes are not covered.")

from . import values
reg("C10", values.c10, "texts put together from pieces (letters, codes, separators) by spec/Strings.tla, in files and through the interface; distinct by text",
    "All texts of up to 2 (thorough: 3) of 48 pieces, longer ones simulated, in ten places of five entities. Texts with apostrophes: only how they are written.")
reg("C11", values.c11, "real literals written digit by digit by spec/Numbers.tla; distinct by literal",
    "All literals of up to 2+3 digits from {0,1,9} (thorough: 3+3 from {0,1,5,9}) with signs and exponents, simulated ones of up to 38 digits; ten carriers. Magnitudes up to 1e300.")
reg("C12", values.c12, "every enumeration attribute of every entity with every item, near misses and foreign items; distinct by instance text",
    "All items and all attributes; near misses of a quarter (thorough: all) of the items. Trusts the tables in spec/IfcSchema.tla and spec/EnumApi.tla.")

from . import guid
reg("C13", guid.c13, "ids reached by changing digits and bits of four ids (spec/Guid.tla), and texts that are no ids (spec/GuidBad.tla); distinct by text",
    "Every digit and every bit of four ids (thorough: also every pair of bits of one id by simulation), random ids; near misses at every position. Randomness of new ids is only tested for validity and distinctness.")

from . import datamap
reg("C14", datamap.c14, "histories of operations on the data map (spec/MapRuns.tla) from empty and loaded models; distinct by history",
    "Every history of 2 (thorough: 3) operations over three numbers and five types from three starts, random ones of 40 (thorough: 60) with all lookups compared after every step; recorded random histories of the real map checked against spec/MapTrace.tla. Lookup of absent numbers or with a wrong type is not constrained.")
reg("C15", datamap.c15, "histories of operations on the data map (spec/MapRuns.tla) from empty and loaded models; distinct by history",
    "As C14, for operations that allocate numbers: direct ones and seven constructors that add up to five instances. Numbers up to 2 000 000 000; allocation next to the largest representable number is excluded.")

from . import api
reg("C16", api.c16, "histories of a constructor and setters in which an instance can be handed over in several forms (spec/ApiRuns.tla), each with its twin that uses references only; distinct by history",
    "Every constructor argument and every first setter in all forms and all accepted types (thorough: pairs), random histories of up to 14 setters. A form counts as broken only where the twin behaves otherwise.")
reg("C17", api.c17, "histories of a constructor and setters (spec/ApiRuns.tla); distinct by history",
    "67 classes, every argument of every parameter and of every setter (thorough: every pair of constructor arguments, every two setters), random histories of up to 14 setters, compared attribute by attribute and loaded again. LocalPlacement::new_relative is judged by C23.")

from . import builder
NOTE = "Every single call from a state with all kinds of types and materials (thorough: every two), random programs of up to 80 (thorough: 110) calls over 36 kinds of call; lengths on a grid of 1/8 m and exact in the specification. Zero directions and slabs of no length are excluded as invalid input."
RULE = "programs of builder calls (spec/BuilderRuns.tla): every call and its arguments; distinct by program"
for p in ("C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27"):
    reg(p, builder.check(p), RULE, NOTE)

from . import extractor
for p in ("C28", "C29"):
    reg(p, extractor.check(p), "relations of a fixed cast of objects, and edits after loading (spec/ExtractorRuns.tla); distinct by file and edits",
        "All pairs (thorough: triples) of relations of a kind over two relating and two related objects with all member lists up to two; random models of 10 (13) relations of all kinds with up to three edits; every question asked of every object.")

from . import views
reg("C30", views.c30, "models of geometry with every alternative of every kind, and changes after loading (spec/ViewsRuns.tla); distinct by model and changes",
    "One instance of each of 15 kinds in every combination of missing, derived and two or three given parts over a base of 38 instances (thorough: a second one using it); random models of 62 (98) instances with four changes of loaded instances and inline parts. Only poly lines whose points are all in the plane or all in space, and not empty.")

from . import kinds
reg("C31", kinds.c31, "models of instances of 24 kinds and changes to them (spec/KindsRuns.tla); distinct by file and changes",
    "Every change to loaded models of two instances (each kind next to three others), random histories of 14 (thorough: 40) changes; every instance and every kind asked after every change.")

from . import disk
reg("C32", disk.c32, "histories of writing, changing, spoiling and loading files (spec/DiskRuns.tla); distinct by history",
    "All histories of 4 (thorough: 5) steps with few places, random ones of 24 (60) steps on three files with 16 names; files are whole pieces: a header, statements, a footer, text or bytes that belong to no model.")

from . import built
reg("C33", built.c33, "programs of builder calls (spec/BuiltRuns.tla) whose files are loaded and asked; distinct by program",
    "Every single call from a state with all kinds of types and materials, random programs of up to 80 and of 300 calls; every question asked of every object. Names with apostrophes are left out: a known finding of C05.")
