---------------------------- MODULE Trace_Memory ----------------------------
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
TraceTypes == Trace[1].types
VARIABLES vs, l
INSTANCE Memory WITH Types <- TraceTypes
tvars == <<vs, l>>
TraceInit == l = 1 /\ vs = <<>>
Ev == Trace[l]
Seen == TableIs(vs', Ev.tab) /\ NamesAre(vs', Ev.names) /\ AddressesAre(vs', Ev.at) /\ Distinct(vs')
Vars(tab, v, p) == [i \in 1..Len(tab) |-> [a |-> tab[i].a, n |-> tab[i].n, t |-> tab[i].t, d |-> tab[i].d, loc |-> tab[i].loc, v |-> v[i], p |-> p[i]]]
TraceNext ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ CASE Ev.e = "scn" -> vs' = <<>>
       [] Ev.e = "end" -> UNCHANGED vs
       [] Ev.e = "decl" -> Declare(Ev.n, Ev.t, Ev.d, Ev.nc, Ev.loc, Ev.ea, Ev.r) /\ Seen
       [] Ev.e = "del" -> Delete(IF Ev.by = "deln" THEN (IF Ev.n = "" THEN {} ELSE Named(Ev.n)) ELSE At(Ev.a), Ev.r) /\ Seen
       [] Ev.e = "resize" -> Resize(IF Ev.by = "name" THEN Named(Ev.n) ELSE At(Ev.a), Ev.d, Ev.r) /\ Seen /\ ContentIs(vs', Ev.v, Ev.p)
       [] Ev.e = "name" -> Rename(Ev.a, Ev.n, Ev.r) /\ Seen
       [] Ev.e = "set" -> SetVal(Ev.k, Ev.v)
       [] Ev.e = "point" -> SetPtr(Ev.k, Ev.a)
       [] Ev.e = "text" -> \* the text itself is one more anonymous variable
            LET i == Holder(Ev.k) w == vs[i] u == [vs EXCEPT ![i].v[CellIx(w, Ev.k, VCells(w.t, w.d))] = Ev.v] IN
            /\ vs' = IF Ev.new = <<>> THEN u
                     ELSE LET m == Ev.new[1] IN Append(u, [a |-> m.a, n |-> "", t |-> "char", d |-> m.d, loc |-> TRUE, v |-> m.v, p |-> <<>>])
            /\ Seen
       [] Ev.e = "ref" -> RefIs(Ev.n, Ev.path, Ev.r, Ev.a, Ev.t, Ev.left) /\ UNCHANGED vs
       [] Ev.e = "nameof" -> Ev.r = 1 /\ Ev.ra = Ev.a /\ UNCHANGED vs
       [] Ev.e = "clear" -> Clear(Ev.a) /\ ContentIs(vs', Ev.v, Ev.p)
       [] Ev.e = "dump" -> UNCHANGED vs /\ ContentIs(vs', Ev.v, Ev.p)
       [] Ev.e = "reset" -> Reset /\ Seen
       [] Ev.e = "wrote" -> UNCHANGED vs /\ Seen /\ ContentIs(vs', Ev.v, Ev.p)
       [] Ev.e = "read" -> Ev.ok = 1 /\ Restore(Ev.sel, Vars(Ev.tab, Ev.v, Ev.p)) /\ Seen
       [] OTHER -> FALSE      \* the program died
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Progress == TLCSet(7, IF TLCGet(7) < l THEN l ELSE TLCGet(7))
ASSUME TLCSet(7, 1)
TraceAccepted == PrintT(<<"REACHED", TLCGet(7) - 1>>) /\ TLCGet(7) - 1 = Len(Trace)
=============================================================================
