-------------------------------- MODULE Accft --------------------------------
(***************************************************************************)
(* The accft program as a whole: command line and files in; exit status    *)
(* and files out.  Composes Cli (the command line), FileFormats (the       *)
(* instance and the initial solution) and SetCover (what a solution is).   *)
(* A record: args, files (before) and dirs, then status, error, what the   *)
(* files became, and the text at the output path.                          *)
(***************************************************************************)
EXTENDS FileFormats, RecordLoop
C == INSTANCE Cli
cRLo == Recs[1].rlo
cRHi == Recs[1].rhi
cCLo == Recs[1].clo
cCHi == Recs[1].chi
cRealMax == Recs[1].rmax
\* ---- what was asked for
Args(r) == C!Parse(r.args)
FmtOf(w) == CASE w = <<82, 65, 73, 76>> -> "RAIL" [] w = <<83, 67, 80>> -> "SCP" [] w = <<67, 86, 82, 80>> -> "CVRP" [] w = <<77, 80, 83>> -> "MPS" [] OTHER -> ""
FileAt(r, p) == {i \in DOMAIN r.files : r.files[i].name = p}
TextAt(r, p) == r.files[CHOOSE i \in FileAt(r, p) : TRUE].txt
OutPath(s) == IF C!Given(s, "sol") # <<>> THEN C!Given(s, "sol") ELSE C!SolName(C!Given(s, "inst"))
Folder(p) == LET i == LastAt(p, LAMBDA c : c = 47) IN IF i = 0 THEN <<>> ELSE Upto(p, i - 1)
Writable(r, p) == Folder(p) \in Set(r.dirs) /\ p \notin Set(r.dirs)
Described(r, s) ==
    LET fmt == IF C!Given(s, "parser") = <<>> /\ s.set["parser"] = <<>> THEN "RAIL" ELSE FmtOf(C!Given(s, "parser"))
        p == C!Given(s, "inst")
        q == C!Given(s, "init")
        hasw == q # <<>>
    IN IF fmt = "" \/ FileAt(r, p) = {} \/ (hasw /\ FileAt(r, q) = {}) THEN Nothing
       ELSE LET w == Read(fmt, TextAt(r, p), hasw) IN IF hasw THEN WithInit(w, TextAt(r, q)) ELSE w
\* an output on top of an input, or with a strange default name, is not judged
Strange(r, s) == OutPath(s) \in {r.files[i].name : i \in DOMAIN r.files} \/ (C!Given(s, "sol") = <<>> /\ C!Stem(C!BaseName(C!Given(s, "inst"))) = <<>>)

\* ---- what came out
Success(r) == r.status = 0
\* thousandths, for costs below 10^6
RECURSIVE Int9(_, _)
Int9(d, a) == IF d = <<>> THEN a ELSE Int9(Tail(d), 10 * a + Head(d))
Milli(v) == LET d == Strip(v.d)
                sh == v.e + 3
                x == IF sh >= 0 THEN d \o Zeros(IF d = <<>> THEN 0 ELSE IF sh > 9 THEN 9 ELSE sh) ELSE IF Len(d) + sh <= 0 THEN <<>> ELSE Upto(d, Len(d) + sh)
            IN IF Len(x) > 8 THEN 99999999 ELSE Int9(x, 0)
MAbs(x) == IF x < 0 THEN -x ELSE x
ValidOutput(r, w, unit) ==
    LET L == TokLines(r.out)
        s == Sol(L)
        c == RealTok(L[1][1])
        sum == FoldLeft(LAMBDA a, j : a + (IF unit THEN 1000 ELSE Milli(w.costs[j + 1])), 0, s.sol)
    IN /\ r.hasout
       /\ s.v = "ok" /\ ValidInit(w, s.sol)
       /\ (unit \/ \A j \in DOMAIN w.costs : Milli(w.costs[j]) < 1000000 /\ ~w.costs[j].neg) => (Len(s.sol) < 50 => MAbs(Milli(c) - sum) <= Len(s.sol) + 2 + sum \div 131072)
Judge(r) ==
    LET s == Args(r)
        w == IF s.err THEN Nothing ELSE Described(r, s)
        out == OutPath(s)
        can == ~s.err /\ Writable(r, out)
    IN \* a crash is never fine, a failure is told
       /\ r.status >= 0 /\ r.status < 126
       /\ (~Success(r) => r.told)
       /\ (s.err => ~Success(r))
       /\ (~s.err /\ ~Strange(r, s)) =>
            /\ (w.v = "bad" \/ ~can) => ~Success(r)
            /\ (w.v = "ok" /\ can) => Success(r)
            /\ (Success(r) /\ w.v \in {"ok", "any"} /\ w.nr > 0) => ValidOutput(r, w, s.unit)
\* nothing but the output is created, nothing is changed
Files(r) ==
    LET s == Args(r)
    IN (s.err \/ ~Strange(r, s)) =>
         /\ \A i \in DOMAIN r.files : r.files[i].same
         /\ \A i \in DOMAIN r.new : ~s.err /\ r.new[i] = OutPath(s)
ExitStatus == Judge(R)
OnlyTheOutput == Files(R)
=============================================================================
