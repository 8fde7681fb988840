-------------------------------- MODULE Cli ---------------------------------
(***************************************************************************)
(* The command line tool (C14): a run is a state machine over the file     *)
(* system.  A file system maps paths to entries                            *)
(*   [k |-> "dir" | "bytes" | "image", pic, f, big]                        *)
(* where pic names the picture ("M(x)" is x watermarked with the tool's    *)
(* parameters, "J(x)" and "G(x)" are x after a lossy JPEG or GIF round     *)
(* trip), f the format of the content and big whether a mark fits.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Formats == [ x \in {"png", "PNG", "bmp", "pgm", "ppm", "tiff", "TIFF", "tif", "jpg", "jpeg", "gif"} |->
             CASE x \in {"png", "PNG"} -> "png" [] x = "bmp" -> "bmp" [] x \in {"pgm", "ppm"} -> "pnm"
               [] x \in {"tiff", "TIFF", "tif"} -> "tiff" [] x \in {"jpg", "jpeg"} -> "jpeg" [] x = "gif" -> "gif" ]
Dir == [k |-> "dir", pic |-> "", f |-> "", big |-> FALSE]
Marked(pic, f) == LET m == "M(" \o pic \o ")" IN CASE f = "jpeg" -> "J(" \o m \o ")" [] f = "gif" -> "G(" \o m \o ")" [] OTHER -> m
Put(fs, p, e) == [ x \in DOMAIN fs \cup {p} |-> IF x = p THEN e ELSE fs[x] ]
RECURSIVE MakeDirs(_, _)
MakeDirs(fs, chain) == IF chain = << >> THEN fs
                       ELSE MakeDirs(IF Head(chain) \in DOMAIN fs THEN fs ELSE Put(fs, Head(chain), Dir), Tail(chain))
\* an input is a record [path, stem, ext]; it can be processed if it holds a large enough picture in the format its extension names
Processable(fs, i) == /\ i.ext \in DOMAIN Formats /\ i.path \in DOMAIN fs
                      /\ fs[i.path].k = "image" /\ fs[i.path].f = Formats[i.ext] /\ fs[i.path].big
OutName(dir, suffix, i) == dir \o "/" \o i.stem \o "-" \o suffix \o "." \o i.ext
OutEntry(fs, i) == [k |-> "image", pic |-> Marked(fs[i.path].pic, Formats[i.ext]), f |-> Formats[i.ext], big |-> TRUE]
\* how a run begins: "usage" and "nosuffix" end well, "badargs" and "badout" do not; none of them writes anything
Begins(fs, a) == IF a.form = "badargs" THEN "badargs"
                 ELSE IF a.form = "help" \/ a.inputs = << >> THEN "usage"
                 ELSE IF ~a.hassuffix THEN "nosuffix"
                 ELSE IF a.hasout /\ \E n \in 1..Len(a.chain) : a.chain[n] \in DOMAIN fs /\ fs[a.chain[n]].k # "dir" THEN "badout"
                 ELSE "go"
OutDir(a) == IF a.hasout THEN a.chain[Len(a.chain)] ELSE a.cwd
Prepared(fs, a) == IF a.hasout THEN MakeDirs(fs, a.chain) ELSE fs
Blocked(fs, a, i) == OutName(OutDir(a), a.suffix, i) \in DOMAIN fs /\ fs[OutName(OutDir(a), a.suffix, i)].k = "dir"
Step(fs, a, i) == Put(fs, OutName(OutDir(a), a.suffix, i), OutEntry(fs, i))
\* the whole run: <<file system, "ok" or "fail">>
RECURSIVE Inputs(_, _, _)
Inputs(fs, a, n) == IF n > Len(a.inputs) THEN << fs, "ok" >>
                    ELSE IF ~Processable(fs, a.inputs[n]) \/ Blocked(fs, a, a.inputs[n]) THEN << fs, "fail" >>
                    ELSE Inputs(Step(fs, a, a.inputs[n]), a, n + 1)
Run(fs, a) == CASE Begins(fs, a) \in {"usage", "nosuffix"} -> << fs, "ok" >>
                [] Begins(fs, a) \in {"badargs", "badout"} -> << fs, "fail" >>
                [] OTHER -> Inputs(Prepared(fs, a), a, 1)
=============================================================================
