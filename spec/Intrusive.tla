----------------------------- MODULE Intrusive -----------------------------
(* Shared-ownership handles (sleipnir/util/intrusive_shared_ptr.hpp).         *)
(*                                                                          *)
(* Handles are the named root handles plus one handle `next` stored inside  *)
(* every object.  A handle is U (no C++ object exists), 0 (null) or an       *)
(* object.  `cnt` is maintained by explicit increments and decrements, as    *)
(* the counter functions supplied by the user are called, so that            *)
(* CountExact is a real statement about the algorithm and not a definition.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NBase,      \* root handles of type Ptr<Base>:    1..NBase
          NDer,       \* root handles of type Ptr<Derived>: NBase+1..NBase+NDer
          OBase,      \* objects of dynamic type Base:      1..OBase
          ODer,       \* objects of dynamic type Derived:   OBase+1..OBase+ODer
          EMIT

Roots == 1..(NBase+NDer)
IsD(h) == h > NBase
Objs == 1..(OBase+ODer)
IsDObj(o) == o > OBase
U == -1
VARIABLES root, next, alive, cnt, destroyed, act
vars == <<root, next, alive, cnt, destroyed>>

Refs(o, r, n, al) == Cardinality({h \in Roots : r[h] = o})
                     + Cardinality({p \in Objs : al[p] /\ n[p] = o})

Init == /\ root = [h \in Roots |-> U]
        /\ next = [o \in Objs |-> 0]
        /\ alive = [o \in Objs |-> FALSE]
        /\ cnt = [o \in Objs |-> 0]
        /\ destroyed = <<>>
        /\ act = [op |-> "init"]

(* A world is a record so that one C++ operation can be a composition of     *)
(* primitive steps.                                                          *)
World == [root |-> root, next |-> next, alive |-> alive, cnt |-> cnt, log |-> <<>>]

RECURSIVE Dec(_, _)
Dec(w, o) ==            \* dec_ref_count(o) when a handle lets go of o
  IF o <= 0 THEN w
  ELSE IF w.cnt[o] > 1 THEN [w EXCEPT !.cnt[o] = @ - 1]
  ELSE \* last release: the object is destroyed, then its own handle lets go
       LET nx == w.next[o]
           w1 == [w EXCEPT !.cnt[o] = 0, !.alive[o] = FALSE, !.next[o] = 0,
                           !.log = Append(@, o)]
       IN Dec(w1, nx)
Inc(w, o) == IF o <= 0 THEN w ELSE [w EXCEPT !.cnt[o] = @ + 1]

(* handle locations: <<"r", h>> a root, <<"n", o>> the handle inside object o *)
Get(w, loc) == IF loc[1] = "r" THEN w.root[loc[2]] ELSE w.next[loc[2]]
Put(w, loc, v) == IF loc[1] = "r" THEN [w EXCEPT !.root[loc[2]] = v]
                                  ELSE [w EXCEPT !.next[loc[2]] = v]

(* copy assignment: the new target is held before the old one is released *)
CopyAssign(w, d, s) ==
  LET new == Get(w, s)  old == Get(w, d)
  IN IF new = old THEN w
     ELSE Dec(Put(Inc(w, new), d, new), old)
(* move assignment exchanges the targets *)
MoveAssign(w, d, s) ==
  LET new == Get(w, s)  old == Get(w, d)
  IN IF new = old THEN w ELSE Put(Put(w, d, new), s, old)
(* assigning null moves from a temporary null handle *)
Null(w, d) == LET old == Get(w, d) IN Dec(Put(w, d, 0), old)

Do(w, a) == /\ root' = w.root /\ next' = w.next /\ alive' = w.alive /\ cnt' = w.cnt
            /\ destroyed' = w.log
            /\ act' = a

IsU(h) == root[h] = U
IsC(h) == root[h] # U
RLoc(h) == <<"r", h>>
NLoc(h) == <<"n", root[h]>>      \* the handle inside the object root h refers to
Deref(h) == root[h] > 0
(* static types: a Derived handle can only hold Derived objects *)
OkType(h, o) == IsD(h) => (o <= 0 \/ IsDObj(o))

Make ==   \* a fresh object under the handle: explicit constructor, make_, allocate_
  \E h \in Roots, o \in Objs, how \in {"new", "make", "alloc"} :
     /\ IsU(h) /\ ~alive[o] /\ (IsD(h) => IsDObj(o)) /\ (~IsD(h) /\ how # "new" => ~IsDObj(o))
     /\ Do([Inc([World EXCEPT !.alive[o] = TRUE], o) EXCEPT !.root[h] = o],
           [op |-> "make", h |-> h, o |-> o, how |-> how])
Adopt ==  \* second handle made from a raw pointer to a live object
  \E h \in Roots, g \in Roots :
     /\ IsU(h) /\ Deref(g) /\ (IsD(h) => IsD(g))
     /\ Do([Inc(World, root[g]) EXCEPT !.root[h] = root[g]], [op |-> "adopt", h |-> h, g |-> g])
Empty ==  \* default constructor / from nullptr / from a null raw pointer
  \E h \in Roots, how \in {"default", "nullptr", "nullraw"} :
     /\ IsU(h) /\ Do([World EXCEPT !.root[h] = 0], [op |-> "empty", h |-> h, how |-> how])
CopyCtor ==
  \E h, g \in Roots : /\ IsU(h) /\ IsC(g) /\ (IsD(h) => IsD(g))
     /\ Do([Inc(World, root[g]) EXCEPT !.root[h] = root[g]], [op |-> "copyctor", h |-> h, g |-> g])
MoveCtor ==
  \E h, g \in Roots : /\ IsU(h) /\ IsC(g) /\ h # g /\ (IsD(h) => IsD(g))
     /\ Do([World EXCEPT !.root[h] = root[g], !.root[g] = 0], [op |-> "movector", h |-> h, g |-> g])
CopyA ==
  \E h, g \in Roots : /\ IsC(h) /\ IsC(g) /\ (IsD(h) => IsD(g))
     /\ Do(CopyAssign(World, RLoc(h), RLoc(g)), [op |-> "copy", h |-> h, g |-> g])
MoveA ==
  \E h, g \in Roots : /\ IsC(h) /\ IsC(g) /\ (IsD(h) <=> IsD(g))
     /\ Do(MoveAssign(World, RLoc(h), RLoc(g)), [op |-> "move", h |-> h, g |-> g])
ConvMoveA ==  \* base = std::move(derived): the source ends up null or not holding a Base
  \E h, g \in Roots : /\ IsC(h) /\ IsC(g) /\ ~IsD(h) /\ IsD(g)
     /\ Do(LET w == World new == root[g] old == root[h]
           IN IF new = old THEN w ELSE Dec([w EXCEPT !.root[h] = new, !.root[g] = 0], old),
           [op |-> "convmove", h |-> h, g |-> g])
Swap ==
  \E h, g \in Roots : /\ IsC(h) /\ IsC(g) /\ h < g /\ (IsD(h) <=> IsD(g))
     /\ Do([World EXCEPT !.root[h] = root[g], !.root[g] = root[h]], [op |-> "swap", h |-> h, g |-> g])
SetNull ==
  \E h \in Roots : IsC(h) /\ Do(Null(World, RLoc(h)), [op |-> "null", h |-> h])
Drop ==
  \E h \in Roots : IsC(h) /\ Do(Dec([World EXCEPT !.root[h] = U], root[h]), [op |-> "drop", h |-> h])
(* handles stored inside objects *)
NextFrom ==   \* h->next = g ; h->next = std::move(g) ; h->next = nullptr
  \E h, g \in Roots : /\ Deref(h) /\ IsC(g)
     /\ Do(CopyAssign(World, NLoc(h), RLoc(g)), [op |-> "setnext", h |-> h, g |-> g])
NextMove ==
  \E h, g \in Roots : /\ Deref(h) /\ IsC(g) /\ ~IsD(g)
     /\ Do(MoveAssign(World, NLoc(h), RLoc(g)), [op |-> "movenext", h |-> h, g |-> g])
NextNull ==
  \E h \in Roots : Deref(h) /\ Do(Null(World, NLoc(h)), [op |-> "nullnext", h |-> h])
FromNext ==   \* h = g->next, including h = h->next where h held the last reference
  \E h, g \in Roots : /\ IsC(h) /\ Deref(g) /\ ~IsD(h)
     /\ Do(CopyAssign(World, RLoc(h), NLoc(g)), [op |-> "fromnext", h |-> h, g |-> g])
FromNextMove ==
  \E h, g \in Roots : /\ IsC(h) /\ Deref(g) /\ ~IsD(h)
     /\ Do(MoveAssign(World, RLoc(h), NLoc(g)), [op |-> "movefromnext", h |-> h, g |-> g])
CtorNext ==
  \E h, g \in Roots : /\ IsU(h) /\ Deref(g) /\ ~IsD(h)
     /\ Do([Inc(World, next[root[g]]) EXCEPT !.root[h] = next[root[g]]], [op |-> "ctornext", h |-> h, g |-> g])
NextNext ==   \* h->next = h->next->next
  \E h \in Roots : /\ Deref(h) /\ next[root[h]] > 0
     /\ Do(CopyAssign(World, NLoc(h), <<"n", next[root[h]]>>), [op |-> "skipnext", h |-> h])

Next == Make \/ Adopt \/ Empty \/ CopyCtor \/ MoveCtor \/ CopyA \/ MoveA \/ ConvMoveA \/ Swap \/ SetNull
        \/ Drop \/ NextFrom \/ NextMove \/ NextNull \/ FromNext \/ FromNextMove \/ CtorNext \/ NextNext
Spec == Init /\ [][Next]_vars

(* ------------------------------ the property ---------------------------- *)
TypeOK == \A h \in Roots : root[h] \in ({U, 0} \cup Objs) /\ OkType(h, root[h])
CountExact == \A o \in Objs : cnt[o] = Refs(o, root, next, alive)
NoDangling == /\ \A h \in Roots : root[h] > 0 => alive[root[h]]
              /\ \A o \in Objs : alive[o] /\ next[o] > 0 => alive[next[o]]
AliveIffHeld == \A o \in Objs : alive[o] <=> cnt[o] > 0
DestroyOnce == \A i, j \in 1..Len(destroyed) : i # j => destroyed[i] # destroyed[j]
(* an object dies only in a step that removed its last handle, and never comes back except by Make *)
DiesAtLastRelease ==
  [][\A o \in Objs : (alive[o] /\ ~alive'[o]) <=> (\E i \in 1..Len(destroyed') : destroyed'[i] = o)]_vars

St(r, n, al, c) == [r |-> r, n |-> n, al |-> al, c |-> c]
View == <<root, next, alive, cnt>>
Emit == EMIT => PrintT("@E" \o ToJson([f |-> St(root, next, alive, cnt), a |-> act',
                              t |-> St(root', next', alive', cnt'), d |-> destroyed']))
=============================================================================
