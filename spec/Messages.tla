------------------------------ MODULE Messages ------------------------------
(* Message publication: who receives what, and in which form. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
VARIABLES info,   \* known subscribers: name -> [k: kind, lv: level it wants, en, col]
          subs,   \* names in order of subscription (a name subscribed twice is there twice)
          time    \* [tics, tps]
msgvars == <<info, subs, time>>
Color(lv) == CASE lv = 1 -> "32" [] lv = 2 -> "33" [] lv = 3 -> "31" [] lv = 10 -> "36" [] OTHER -> "00"
Wants(n, lv) == LET i == info[n] IN
  CASE i.k = "rec" -> TRUE
    [] i.k \in {"cust", "cfile"} -> lv = i.lv
    [] i.k = "play" -> lv = 101
    [] OTHER -> lv < 100
Times(n) == Cardinality({j \in 1..Len(subs) : subs[j] = n})
Manager == {n \in DOMAIN info : info[n].k = "mgr"}
\* how often a message of this level reaches n
Copies(n, lv) == IF ~info[n].en \/ ~Wants(n, lv) THEN 0
                 ELSE IF info[n].k = "cfile" THEN (LET m == CHOOSE m \in Manager : TRUE IN IF Manager = {} THEN 0 ELSE IF info[m].en THEN Times(m) ELSE 0) ELSE Times(n)
RECURSIVE Pow10(_)
Pow10(k) == IF k = 0 THEN 1 ELSE 10 * Pow10(k - 1)
Digits(tps) == CASE tps = 1 -> 0 [] tps = 8 -> 1 [] tps = 10 -> 1 [] tps = 1000 -> 3 [] tps = 1024 -> 3 [] tps = 10000 -> 4 [] tps = 1000000 -> 6
Scaled(rem, tps) == IF tps = 8 THEN (rem * 10) \div 8 ELSE IF tps = 1024 THEN (rem * 1000) \div 1024 ELSE IF tps = 1 THEN 0 ELSE rem
Clock == <<time.tics \div time.tps, Scaled(time.tics % time.tps, time.tps), IF Digits(time.tps) = 0 THEN 1 ELSE Digits(time.tps)>>
\* one delivery: <<level, clock, mark before the text, text, mark after it>>
Form(n, lv, t) == LET k == info[n].k c == (k = "thr") \/ (k \in {"cout", "tc"} /\ info[n].col) IN
  IF k = "play" THEN << 0 - 1, <<>>, "", t, "" >>
  ELSE << lv, Clock, IF k = "rec" THEN ToString(lv) ELSE IF c THEN Color(lv) ELSE "", t, IF c THEN "00" ELSE "" >>
Plain(lv, t) == << lv, Clock, "", t, "" >>
Received(n, lv, t) == [j \in 1..Copies(n, lv) |-> Form(n, lv, t)]
NewSub(n, k, lv, col) == info' = [m \in DOMAIN info \cup {n} |-> IF m = n THEN [k |-> k, lv |-> lv, en |-> TRUE, col |-> col] ELSE info[m]] /\ UNCHANGED <<subs, time>>
Subscribe(n) == subs' = Append(subs, n) /\ UNCHANGED <<info, time>>
Unsubscribe(n) == subs' = SelectSeq(subs, LAMBDA x : x # n) /\ UNCHANGED <<info, time>>
Enable(n, v) == info' = [info EXCEPT ![n].en = v] /\ UNCHANGED <<subs, time>>
Colour(n, v) == info' = [info EXCEPT ![n].col = v] /\ UNCHANGED <<subs, time>>
Find(n) == IF Times(n) > 0 THEN n ELSE ""
\* got: name -> deliveries; "none": what is printed when nobody subscribes
Std(n) == n = "none" \/ info[n].k \in {"cout", "lcout", "thr"}      \* what it gets is what is printed
PublishIs(lv, t, got) == \A n \in DOMAIN got : got[n] = IF Std(n) /\ subs = <<>> THEN <<Plain(lv, t)>> ELSE IF n = "none" THEN <<>> ELSE Received(n, lv, t)
\* k threads publish messages <<i, 0>>, <<i, 1>> .. <<i, cnt - 1>> at the same time
Of(s, i) == SelectSeq(s, LAMBDA x : x[4][1] = i)
Each(n, lv, s, k, cnt) == /\ Len(s) = k * cnt
                          /\ \A i \in 0..(k - 1) : Of(s, i) = [j \in 1..cnt |-> IF n = "none" THEN Plain(lv, <<i, j - 1>>) ELSE Form(n, lv, <<i, j - 1>>)]
Some(n, lv, s, k, cnt) == \A i \in 0..(k - 1) : LET o == Of(s, i) IN
     /\ \A a, b \in 1..Len(o) : a < b => o[a][4][2] < o[b][4][2]
     /\ \A a \in 1..Len(o) : o[a] = Form(n, lv, <<i, o[a][4][2]>>)
ParIs(k, cnt, lv, tog, got) == \A n \in DOMAIN got :
  IF n = "none" THEN (IF subs # <<>> THEN got[n] = <<>> ELSE tog # "" \/ Each(n, lv, got[n], k, cnt))
  ELSE IF Std(n) /\ subs = <<>> THEN \A i \in 0..(k - 1) : Of(got[n], i) = [j \in 1..cnt |-> Plain(lv, <<i, j - 1>>)]
  ELSE LET c == Copies(n, lv) IN
       IF tog # "" /\ (n = tog \/ (info[n].k = "cfile" /\ tog \in Manager)) THEN (info[n].en /\ Wants(n, lv) /\ Some(n, lv, got[n], k, cnt)) \/ got[n] = <<>>
       ELSE IF c = 0 THEN got[n] = <<>> ELSE c = 1 => Each(n, lv, got[n], k, cnt)
Toggled(tog) == subs' = (IF tog = "" THEN subs ELSE Append(SelectSeq(subs, LAMBDA x : x # tog), tog)) /\ UNCHANGED <<info, time>>
=============================================================================
