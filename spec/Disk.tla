------------------------------------- MODULE Disk -------------------------------------
(***************************************************************************)
(* Models in files: a program holds a model, writes it to files and loads  *)
(* it from files, while other programs change, spoil and remove files.     *)
(* A file is a sequence of pieces; it is a model exactly if it is a header,*)
(* statements, and a footer, all of it text.                               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC

Paths == << "a.ifc", "b", "dir/c.IFC", "Z<U+00FC>rich plan.txt", "nowhere/d.ifc" >>     \* the last one has no folder
Directory == << "DIR" >>
Absent == << "ABSENT" >>
Header == "H"
Footer == "F"
Badpiece == "BAD"         \* bytes that are no text
Badname == "BADNAME"      \* a statement with such bytes in the name
Stray == "STRAY"          \* text that is no part of a model
IsStatement(p) == p \notin {Header, Footer, Badpiece, Badname, Stray, "DIR", "ABSENT"}

VARIABLES mem,      \* statements of the model held, each the name of a material or unknown instance, in the order of their numbers
          disk,     \* path -> pieces
          res       \* whether the last operation succeeded
dvars == << mem, disk, res >>

Valid(c) == /\ Len(c) >= 2 /\ c[1] = Header /\ c[Len(c)] = Footer
            /\ \A i \in 2..(Len(c) - 1) : IsStatement(c[i])
Whole(s) == << Header >> \o s \o << Footer >>

Load(p)  == LET ok == Valid(disk[p]) IN
            /\ mem' = IF ok THEN SubSeq(disk[p], 2, Len(disk[p]) - 1) ELSE mem
            /\ res' = ok /\ UNCHANGED disk
Writable(p) == disk[p] /= Directory /\ p /= Paths[Len(Paths)]
Save(p)  == Writable(p) /\ disk' = [disk EXCEPT ![p] = Whole(mem)] /\ res' = TRUE /\ UNCHANGED mem
Add(s)   == mem' = Append(mem, s) /\ res' = TRUE /\ UNCHANGED disk
Isfile(p) == disk[p] \notin { Directory, Absent }
\* another program puts a piece at a place of a file, takes one away, or removes the file
Spoil(p, i, x) == Isfile(p) /\ disk' = [disk EXCEPT ![p] = InsertAt(@, i, x)] /\ res' = TRUE /\ UNCHANGED mem
Tear(p, i) == Isfile(p) /\ i \in DOMAIN disk[p] /\ disk' = [disk EXCEPT ![p] = RemoveAt(@, i)] /\ res' = TRUE /\ UNCHANGED mem
Erase(p) == Isfile(p) /\ disk' = [disk EXCEPT ![p] = Absent] /\ res' = TRUE /\ UNCHANGED mem

Empty == [p \in Range(Paths) |-> IF p = "dir/c.IFC" THEN Directory ELSE Absent]
\* what is loaded after it was saved is what was saved
RoundTrip == \A p \in Range(Paths) : Valid(Whole(mem))
FailedLoadKeeps == [][~res' => mem' = mem /\ disk' = disk]_dvars
=============================================================================
