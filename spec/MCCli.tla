-------------------------------- MODULE MCCli -------------------------------
(***************************************************************************)
(* Runs of the tool over one folder layout: every list of inputs up to     *)
(* Longest from Pool, every suffix, output folder and form of arguments.   *)
(***************************************************************************)
EXTENDS Cli, TLC, Json, IOUtils, CSV
CONSTANTS Longest, Pool, Suffixes, Outs, Forms
VARIABLES fs, a, n, status
vars == << fs, a, n, status >>
I(path, stem, ext, arg) == [path |-> path, stem |-> stem, ext |-> ext, arg |-> arg]
All == [ gray     |-> I("work/a.png", "a", "png", "a.png"),
         bmp      |-> I("work/b.bmp", "b", "bmp", "b.bmp"),
         namesake |-> I("work/sub/a.png", "a", "png", "sub/a.png"),
         dotted   |-> I("work/d.two.pgm", "d.two", "pgm", "./d.two.pgm"),
         absolute |-> I("other/e.TIFF", "e", "TIFF", "@/other/e.TIFF"),
         jpeg     |-> I("work/j.jpg", "j", "jpg", "j.jpg"),
         gif      |-> I("work/g.gif", "g", "gif", "g.gif"),
         rgba     |-> I("work/q.PNG", "q", "PNG", "q.PNG"),
         sixteen  |-> I("work/s.png", "s", "png", "s.png"),
         previous |-> I("work/a-m.png", "a-m", "png", "a-m.png"),
         dashed   |-> I("work/-z 1.png", "-z 1", "png", "-z 1.png"),
         \* ^ stands for letters beyond ASCII
         foreign  |-> I("work/caf^ 2.ppm", "caf^ 2", "ppm", "caf^ 2.ppm"),
         missing  |-> I("work/nope.png", "nope", "png", "nope.png"),
         junk     |-> I("work/junk.png", "junk", "png", "junk.png"),
         cut      |-> I("work/cut.png", "cut", "png", "cut.png"),
         small    |-> I("work/small.png", "small", "png", "small.png"),
         plain    |-> I("work/plain", "plain", "", "plain"),
         folder   |-> I("work/folder.png", "folder", "png", "folder.png") ]
Image(p, f) == [k |-> "image", pic |-> p, f |-> f, big |-> TRUE]
Bytes(p) == [k |-> "bytes", pic |-> p, f |-> "", big |-> FALSE]
Layout == [ p \in {"work", "other", "work/sub", "work/out", "work/blocked", "work/blocked/b-m.bmp", "work/folder.png"} |-> Dir ]
       @@ ("work/a.png" :> Image("a", "png")) @@ ("work/b.bmp" :> Image("b", "bmp")) @@ ("work/sub/a.png" :> Image("c", "png"))
       @@ ("work/d.two.pgm" :> Image("d", "pnm")) @@ ("other/e.TIFF" :> Image("e", "tiff")) @@ ("work/j.jpg" :> Image("j", "jpeg"))
       @@ ("work/g.gif" :> Image("g", "gif")) @@ ("work/q.PNG" :> Image("q", "png")) @@ ("work/a-m.png" :> Image("p", "png")) @@ ("work/s.png" :> Image("s", "png"))
       @@ ("work/-z 1.png" :> Image("z", "png")) @@ ("work/caf^ 2.ppm" :> Image("h", "pnm")) @@ ("work/junk.png" :> Bytes("junk")) @@ ("work/cut.png" :> Bytes("cut"))
       @@ ("work/small.png" :> [k |-> "image", pic |-> "small", f |-> "png", big |-> FALSE]) @@ ("work/plain" :> Image("a", "png"))
       @@ ("work/keep.txt" :> Bytes("keep")) @@ ("work/out/a-m.png" :> Image("c", "png")) @@ ("work/out/keep.txt" :> Bytes("keep"))
       @@ ("work/sub/b-m.bmp" :> Bytes("junk")) @@ ("a-m.png" :> Bytes("keep"))
OutAll == [ none   |-> [arg |-> "", chain |-> << >>],
            out    |-> [arg |-> "out", chain |-> << "work/out" >>],
            new    |-> [arg |-> "new", chain |-> << "work/new" >>],
            deep   |-> [arg |-> "new/deep/er", chain |-> << "work/new", "work/new/deep", "work/new/deep/er" >>],
            up     |-> [arg |-> "../other", chain |-> << "other" >>],
            dots   |-> [arg |-> "sub/../out/", chain |-> << "work/out" >>],
            here   |-> [arg |-> ".", chain |-> << "work" >>],
            abs    |-> [arg |-> "@/far/away", chain |-> << "far", "far/away" >>],
            file   |-> [arg |-> "keep.txt", chain |-> << "work/keep.txt" >>],
            infile |-> [arg |-> "keep.txt/x", chain |-> << "work/keep.txt", "work/keep.txt/x" >>],
            blocked|-> [arg |-> "blocked", chain |-> << "work/blocked" >>] ]
FormOf(f) == CASE f \in {"unknown", "twice", "novalue"} -> "badargs" [] f = "help" -> "help" [] OTHER -> "go"
Lists == UNION { [1..k -> Pool] : k \in 0..Longest }
Arguments == { [inputs |-> [ m \in 1..Len(l) |-> All[l[m]] ], hassuffix |-> s # "(none)", suffix |-> IF s = "(none)" THEN "" ELSE s,
                hasout |-> o # "none", out |-> OutAll[o].arg, chain |-> OutAll[o].chain, cwd |-> "work", form |-> FormOf(f), layout |-> f] :
                l \in Lists, s \in Suffixes, o \in Outs, f \in Forms }
Init == fs = Layout /\ a \in Arguments /\ n = 0 /\ status = "new"
Start == /\ status = "new"
         /\ status' = CASE Begins(fs, a) \in {"usage", "nosuffix"} -> "ok" [] Begins(fs, a) \in {"badargs", "badout"} -> "fail" [] OTHER -> "go"
         /\ fs' = IF Begins(fs, a) = "go" THEN Prepared(fs, a) ELSE fs
         /\ n' = 1 /\ UNCHANGED a
Mark == /\ status = "go" /\ n <= Len(a.inputs)
        /\ Processable(fs, a.inputs[n]) /\ ~Blocked(fs, a, a.inputs[n])
        /\ fs' = Step(fs, a, a.inputs[n]) /\ n' = n + 1 /\ UNCHANGED << a, status >>
Stop == /\ status = "go" /\ n <= Len(a.inputs)
        /\ ~Processable(fs, a.inputs[n]) \/ Blocked(fs, a, a.inputs[n])
        /\ status' = "fail" /\ UNCHANGED << fs, a, n >>
Finish == status = "go" /\ n > Len(a.inputs) /\ status' = "ok" /\ UNCHANGED << fs, a, n >>
Next == Start \/ Mark \/ Stop \/ Finish
Spec == Init /\ [][Next]_vars
\* ---- what a user relies on
Written == IF status = "new" THEN {} ELSE { OutName(OutDir(a), a.suffix, a.inputs[m]) : m \in 1..(n - 1) }
OthersKept == \A p \in DOMAIN Layout : p \notin Written => fs[p] = Layout[p]
NothingElse == \A p \in DOMAIN fs \ DOMAIN Layout : p \in Written \/ (fs[p] = Dir /\ a.hasout /\ \E m \in 1..Len(a.chain) : p = a.chain[m])
EachMarked == \A p \in Written : fs[p].k = "image" /\ fs[p].pic \in UNION { { Marked(x, y) : x \in {"a", "b", "c", "d", "e", "j", "g", "q", "p", "z", "h", "s", "M(a)", "M(c)"} } : y \in {"png", "jpeg", "gif"} }
AllDone == status = "ok" /\ a.form = "go" /\ a.hassuffix => n > Len(a.inputs)
FailsOnlyWithCause == status = "fail" => a.form = "badargs" \/ n <= Len(a.inputs)
AsWhole == status \in {"ok", "fail"} => Run(Layout, a) = << fs, status >>
Stats == PrintT(<< "STATS", TLCGet("stats").diameter >>)
Dump == status # "new" \/ CSVWrite("%1$s", << ToJson([a |-> a, fs |-> { [p |-> p, e |-> Layout[p]] : p \in DOMAIN Layout }]) >>, IOEnv.OUT)
=============================================================================
