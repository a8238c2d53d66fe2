--------------------------- MODULE TraceTraining ---------------------------
(* Training runs of the implementation against Training.                     *)
(*                                                                           *)
(* Input (JSON, environment variable TRACE):                                 *)
(*   runs [start, max, years, val, err, events]: first iteration, iterations *)
(*     asked for, games of each year, games of validation, events in order:  *)
(*       [k |-> "forward", train, part, w, g]  the model is given games g    *)
(*                  in training mode or not, asked for a part or all of the  *)
(*                  decisions; w are the weights                             *)
(*       [k |-> "loss", n, w]         its next loss, numbered 1, 2, ...      *)
(*       [k |-> "step", g, lr, w, v]  a step on the gradients of the losses  *)
(*                  numbered g; weights before and after                     *)
(*   means [losses, used, value, eval, after, resets]: direct calls of       *)
(*     estimate_loss: losses (in 1/10000) of the batches that it used.       *)
EXTENDS Training, TLC, Json, IOUtils
D == JsonDeserialize(IOEnv.TRACE)
VARIABLES c, i, last, rate, bad    \* last loss, last learning rate
vars == <<tvars, c, i, last, rate, bad>>
NR == Len(D.runs)
AsSet(s) == {s[j] : j \in 1..Len(s)}
R == D.runs[c]
E == R.events[i]
Games == AsSet(R.years[((R.start + iter) % Len(R.years)) + 1])
Val == AsSet(R.val)

\* closing what comes to an end without an event of its own
CanEndValidate == mode = "validate"
IterationDone == seen = Games
Init == TInit /\ c = 0 /\ i = 1 /\ last = 0 /\ rate = 0 /\ bad = {}
Choose == /\ c = 0
          /\ \E x \in 1..(NR + Len(D.means)) :
               /\ c' = x
               /\ weights' = IF x <= NR /\ Len(D.runs[x].events) > 0 THEN D.runs[x].events[1].w ELSE 0
          /\ UNCHANGED <<iter, seen, mode, pending, steps, losses, valSeen, valRef, since, i, last, rate, bad>>
IsRun == c # 0 /\ c <= NR
More == IsRun /\ i <= Len(R.events) /\ bad = {}

Fail(what) == /\ bad' = bad \cup {<<what, i>>} /\ i' = i + 1
              /\ UNCHANGED <<tvars, c, last, rate>>
Go(A) == A /\ i' = i + 1 /\ UNCHANGED <<c, last, rate, bad>>
Quiet(A) == A /\ UNCHANGED <<c, i, last, rate, bad>>

DoEndValidate ==
  /\ More /\ mode = "validate" /\ E.k = "forward" /\ E.train
  /\ IF valRef = {} \/ valSeen = valRef THEN Quiet(EndValidate)
     ELSE Fail("validation on other games")
DoEndIteration ==
  /\ More /\ mode # "validate" /\ E.k = "forward" /\ E.train /\ pending = 0 /\ IterationDone
  /\ Quiet(EndIteration(Games))
Forward ==
  /\ More /\ E.k = "forward"
  /\ IF E.w # weights THEN Fail("weights changed without a step")
     ELSE IF pending # 0 THEN Fail("loss without a step")
     ELSE IF E.train
     THEN /\ mode # "validate" /\ ~IterationDone
          /\ IF AsSet(E.g) = {} \/ Cardinality(AsSet(E.g)) # Len(E.g) THEN Fail("batch")
             ELSE IF ~(AsSet(E.g) \subseteq Games) THEN Fail("game of another year")
             ELSE IF AsSet(E.g) \cap seen # {} THEN Fail("game trained on twice")
             ELSE IF iter >= R.max THEN Fail("too many iterations")
             ELSE IF since > Horizon THEN Fail("no validation")
             ELSE Go(BeginBatch(AsSet(E.g), Games))
     ELSE IF E.part THEN Fail("validation on a part of the decisions")
     ELSE IF Cardinality(AsSet(E.g)) # Len(E.g) \/ ~(AsSet(E.g) \subseteq Val) THEN Fail("validation games")
     ELSE IF mode = "validate" /\ AsSet(E.g) \cap valSeen # {} THEN Fail("game validated twice")
     ELSE IF mode = "between" THEN Fail("validation without training")
     ELSE Go(Validate(AsSet(E.g), Val))
LossEvent ==
  /\ More /\ E.k = "loss"
  /\ IF E.w # weights THEN Fail("weights changed without a step")
     ELSE IF mode = "train"
     THEN IF pending # 0 THEN Fail("loss without a step")
          ELSE IF E.n <= last THEN Fail("loss out of order")
          ELSE /\ Loss /\ i' = i + 1 /\ last' = E.n /\ UNCHANGED <<c, rate, bad>>
     ELSE Go(UNCHANGED tvars)
StepEvent ==
  /\ More /\ E.k = "step"
  /\ IF mode # "train" \/ pending = 0 THEN Fail("step without a loss")
     ELSE IF E.w # weights THEN Fail("weights changed without a step")
     ELSE IF E.g # <<last>> THEN Fail("step on other gradients")
     ELSE IF steps <= Warmup /\ (E.lr - Rate(steps) > 2 \/ Rate(steps) - E.lr > 2) THEN Fail("learning rate")
     ELSE IF steps > Warmup /\ E.lr > rate THEN Fail("learning rate rises after the warm-up")
     ELSE IF steps > 0 /\ E.v = E.w THEN Fail("step without effect")
     ELSE /\ Step(E.v) /\ i' = i + 1 /\ rate' = E.lr /\ UNCHANGED <<c, last, bad>>
\* at the end: all games of all iterations
Close ==
  /\ IsRun /\ (i = Len(R.events) + 1 \/ (bad # {} /\ i <= Len(R.events) + 1))
  /\ i' = Len(R.events) + 2
  /\ bad' = IF bad # {} THEN bad
            ELSE IF R.err # "" THEN {<<"crash", i>>}
            ELSE IF pending # 0 THEN {<<"loss without a step", i>>}
            ELSE IF mode = "validate" /\ valRef # {} /\ valSeen # valRef THEN {<<"validation on other games", i>>}
            ELSE IF seen # Games \/ iter # R.max - 1 THEN {<<"iteration not complete", i>>}
            ELSE IF valRef = {} /\ mode # "validate" THEN {<<"no validation", i>>}
            ELSE {}
  /\ UNCHANGED <<tvars, c, last, rate>>

\* estimate_loss: the mean over all losses of the batches used
RECURSIVE Total(_, _)
Total(s, n) == IF n = 0 THEN 0 ELSE s[n] + Total(s, n - 1)
Abs(x) == IF x < 0 THEN -x ELSE x
Mean ==
  /\ c > NR /\ i = 1 /\ i' = 2
  /\ LET m == D.means[c - NR]  n == Len(m.losses) IN
     bad' = (IF m.err # "" THEN {<<"crash", 1>>} ELSE
              (IF Abs(n*m.value - Total(m.losses, n)) <= 3*n THEN {} ELSE {<<"not the mean", 1>>})
              \cup (IF m.eval THEN {} ELSE {<<"validation in training mode", 1>>})
              \cup (IF m.after THEN {} ELSE {<<"training mode not restored", 1>>})
              \cup (IF m.again THEN {} ELSE {<<"loader not reset", 1>>})
              \cup (IF m.grad THEN {<<"gradients recorded", 1>>} ELSE {}))
  /\ UNCHANGED <<tvars, c, last, rate>>
Next == Choose \/ DoEndValidate \/ DoEndIteration \/ Forward \/ LossEvent \/ StepEvent \/ Close \/ Mean
TraceSpec == Init /\ [][Next]_vars
Done == c # 0 /\ IF IsRun THEN i = Len(R.events) + 2 ELSE i = 2
Report == ~Done \/ PrintT(ToJson([verdict |-> c, bad |-> bad, steps |-> steps]))
=============================================================================
