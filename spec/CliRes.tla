------------------------------- MODULE CliRes -------------------------------
EXTENDS Cli, RecordLoop
cRealMax == Recs[1].rmax
S == Parse(R.args)
Near(x, w) == LET v == RealPrefix(w) IN LeqReal(x.lo, x.f, v.d, v.e) /\ LeqReal(v.d, v.e, x.hi, x.f) /\ (v.d = <<>> \/ x.neg = v.neg)
Errors == LET s == S IN R.ok = ~s.err
Sets == LET s == S IN (R.ok /\ ~s.err) =>
    /\ \A n \in Names \ {"sol"} :
          IF s.set[n] = <<>> THEN R.env[n] = R.def[n]
          ELSE IF n \in Paths THEN R.env[n] = s.set[n][1]
          ELSE IF n \in Naturals64 THEN R.env[n] = IntPrefix(s.set[n][1]).d
          ELSE Near(R.env[n], s.set[n][1])
    /\ R.env.unit = s.unit
    /\ R.env.alpha = R.def.alpha /\ R.env.minfix = R.def.minfix
    /\ R.rnd                                                        \* the generator is the one of the seed
Output == LET s == S
              p == Given(s, "inst")
          IN (R.ok /\ ~s.err) => IF Given(s, "sol") # <<>> THEN R.env.sol = Given(s, "sol")
                                 ELSE Stem(BaseName(p)) # <<>> => R.env.sol = SolName(p)
Defaults == R.def = Recs[1].def
=============================================================================
