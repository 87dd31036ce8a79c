------------------------------ MODULE LogRoute ------------------------------
(* Routing of process output (launch.logging.get_output_loggers): options,   *)
(* the loggers with their handlers, and what every destination receives.     *)
(* An option is [t |-> "name", v] (a preset) or [t |-> "dict", stdout,       *)
(* stderr, both] (sequences of words; what is not given is empty).           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
LOCAL INSTANCE SequencesExt

Sources == <<"stdout", "stderr">>
Words == {"screen", "log", "own_log"}
Names == {"screen", "log", "both", "own_log", "full"}
Dict(b, o, e) == [t |-> "dict", both |-> b, stdout |-> o, stderr |-> e, bad |-> FALSE]

(* What the documentation says about the presets: where each source goes.    *)
(* Destinations: screen, the launch log, the file of the source, the file of *)
(* both sources of the process.                                              *)
Screen == "screen"
Shared == "launch.log"
Own(p, src) == p \o "-" \o src \o ".log"
Joint(p) == p \o ".log"
PresetTo(v, p, src) ==
  CASE v = "screen" -> {Screen}
    [] v = "log" -> {Shared} \cup (IF src = "stderr" THEN {Screen} ELSE {})
    [] v = "both" -> {Shared, Screen}
    [] v = "own_log" -> {Own(p, src), Joint(p)}
    [] v = "full" -> {Screen, Shared, Own(p, src), Joint(p)}
DictTo(o, p, src) ==
  LET b == ToSet(o.both)
      m == ToSet(o[src]) IN
  (IF "screen" \in b \cup m THEN {Screen} ELSE {})
  \cup (IF "log" \in b \cup m THEN {Shared} ELSE {})
  \cup (IF "own_log" \in m THEN {Own(p, src)} ELSE {})
  \cup (IF "own_log" \in b THEN {Joint(p)} ELSE {})
Valid(o) == IF o.t = "name" THEN o.v \in Names
            ELSE /\ ~o.bad
                 /\ ToSet(o.both) \cup ToSet(o.stdout) \cup ToSet(o.stderr) \subseteq Words
(* an override in the environment replaces the choice of the process *)
Chosen(op) == IF op.ov # "-" THEN [t |-> "name", v |-> op.ov] ELSE op.opt
To(o, p, src) == IF o.t = "name" THEN PresetTo(o.v, p, src) ELSE DictTo(o, p, src)

(* The mechanism: loggers collect handlers, a handler appends to one place.  *)
(* s.hd: logger -> handlers; s.out: destination -> lines; s.h: what happened *)
Empty == [x \in {} |-> <<>>]
Init0 == [hd |-> Empty, out |-> Empty, h |-> <<>>]
HandlersOf(s, name) == IF name \in DOMAIN s.hd THEN s.hd[name] ELSE {}
AddHandlers(s, name, ds) == [s EXCEPT !.hd = (name :> (HandlersOf(s, name) \cup ds)) @@ @]
Log(s, name, text) ==
  LET ds == HandlersOf(s, name) IN
  [s EXCEPT !.out = [d \in ds |-> Append(IF d \in DOMAIN @ THEN @[d] ELSE <<>>, text)] @@ @]
Logger(p, src) == p \o "-" \o src
Step(s, op) ==
  CASE op.o = "conf" ->
         IF ~Valid(Chosen(op)) THEN s
         ELSE LET s1 == AddHandlers(s, Logger(op.p, "stdout"), To(Chosen(op), op.p, "stdout"))
                  s2 == AddHandlers(s1, Logger(op.p, "stderr"), To(Chosen(op), op.p, "stderr"))
              IN [s2 EXCEPT !.h = Append(@, op)]
    [] op.o = "line" -> [Log(s, Logger(op.p, op.src), op.text) EXCEPT !.h = Append(@, op)]
    [] op.o = "msg" -> \* a message of launch itself
         [Log(AddHandlers(s, op.p, {Screen, Shared}), op.p, op.text) EXCEPT !.h = Append(@, op)]
    [] op.o = "rotate" -> \* somebody moves a log file away; what follows is a new file
         [s EXCEPT !.out = [d \in DOMAIN @ |-> IF d = op.p THEN <<>> ELSE @[d]], !.h = Append(@, op)]
    [] op.o = "reset" -> Init0
=============================================================================
