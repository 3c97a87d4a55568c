------------------------------- MODULE Report -------------------------------
(***************************************************************************)
(* P01: what a run shows (on screen and in its log).  A report is a        *)
(* sequence of parts; c is the configuration of the run:                   *)
(*   c.cmd  "ha" | "qha" | "soec"                                          *)
(*   c.fail "none" | "read" (input refused) | "run" (calculation refused)  *)
(*          | "volume" (a quasi-harmonic run which finds no volume)        *)
(*   qha:   c.scheme, c.eos (EoS minimisation, c.form), c.np pressures,    *)
(*          c.many (at least fifty temperatures)                           *)
(*   soec:  c.dens (density given), c.polar, c.plots                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

If(b, s) == IF b THEN s ELSE <<>>
Closing == <<"saved", "cite-quantas", "cite-method", "finish">>

Options(c) ==
    CASE c.cmd = "ha" -> <<"calculator", "temperature", "units">>
      [] c.cmd = "qha" -> <<"calculator", "approach", "polynomial", "temperature", "pressure", "units">>
      [] c.cmd = "soec" -> <<"calculator", "units">>
Shown(c) ==   \* the input
    CASE c.cmd = "ha" -> <<"job", "system", "volumes">>
      [] c.cmd = "qha" -> <<"job", "system", "volumes">> \o If(c.eos, <<"eos-parameters">>)
      [] c.cmd = "soec" -> <<"job", "stiffness", "compliance">>
Before(c) ==  \* of the calculation, shown although it is refused later
    CASE c.cmd \in {"ha", "qha"} -> <<"start">>
      [] c.cmd = "soec" -> <<"averages">> \o If(c.dens, <<"velocities">>) \o <<"eigenvalues">>
\* a minimisation that finds no volume stops after the steps which precede it
Search(c) == (IF c.scheme = "freq" THEN <<"frequency-fit", "free-energy">> ELSE <<"harmonic", "regression">>) \o <<"minimisation">>
Steps(c) ==
    CASE c.cmd = "ha" -> <<"zero-point", "thermal", "entropy", "heat-capacity", "vibrational", "total", "end">>
      [] c.cmd = "qha" -> Search(c) \o (IF c.scheme = "freq" THEN <<"properties">>
                                        ELSE <<"interpolation">> \o If(~c.eos, <<"bulk-modulus">>))
                          \o <<"enthalpy">>
                          \o (IF c.many THEN <<"expansion", "isobaric", "adiabatic", "gruneisen">> ELSE <<"few-temperatures">>)
                          \o <<"end">> \o [p \in 1..c.np |-> "results"]
      [] c.cmd = "soec" -> <<"young-compressibility", "shear-poisson">> \o If(c.dens, <<"waves">>)
                          \o If(c.polar, <<"polar">>) \o <<"time">> \o If(c.polar /\ c.plots, <<"figures">>)
Outline(c) ==
    LET head == Options(c) \o <<"reading">>
    IN  CASE c.fail = "read" -> head \o <<"error">>
          [] c.fail = "run" -> head \o Shown(c) \o Before(c) \o <<"error">>
          [] c.fail = "volume" -> head \o Shown(c) \o Before(c) \o Search(c) \o <<"error">>
          [] OTHER -> head \o Shown(c) \o Before(c) \o Steps(c) \o Closing
\* what has to be known before a part can be shown
Needs(p) ==
    CASE p \in {"job", "system", "volumes", "eos-parameters", "stiffness", "compliance", "start", "averages", "velocities",
                "eigenvalues"} -> "input"
      [] p \in {"results", "saved", "figures", "cite-quantas", "cite-method", "finish"} -> "results"
      [] OTHER -> "options"
Gives(p, c) ==
    CASE p = "reading" /\ c.fail # "read" -> {"input"}
      [] p \in {"end", "time"} /\ c.fail = "none" -> {"results"}
      [] OTHER -> {}
Configs(NP) ==
    [cmd : {"ha"}, fail : {"none", "read", "run"}]
    \cup [cmd : {"qha"}, fail : {"none", "read", "run", "volume"}, scheme : {"td", "freq"}, eos : BOOLEAN, np : NP,
          many : BOOLEAN, form : {"M", "BM", "V", "PT"}]
    \cup [cmd : {"soec"}, fail : {"none", "read", "run"}, dens : BOOLEAN, polar : BOOLEAN, plots : BOOLEAN]
=============================================================================
