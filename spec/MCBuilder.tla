------------------------------ MODULE MCBuilder ------------------------------
(***************************************************************************)
(* Why objects built piece by piece have a value of their own: the objects *)
(* live in cells; a term register is a cell, an expression is a list of    *)
(* cells with coefficients, and putting a term in an expression, reading   *)
(* one from it and copying one make a new cell.  val is the state that     *)
(* Builder describes (values, no cells).  Invariants: the cells spell the  *)
(* values, no cell belongs to two objects, an expression never has two     *)
(* equal keys.  With Share, a read gives the cell itself (iteration over   *)
(* an expression once did): then Spells is violated.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Terms, Exprs, Pieces, MaxLen, MaxCells, Big, Share
VARIABLES cell,  \* cell number -> pieces
          own,   \* term register -> cell
          list,  \* expression -> sequence of [k: cell, c: coefficient]
          tval, xval

vars == <<cell, own, list, tval, xval>>
Coefs == {-1, 1}
Live == {own[t] : t \in Terms} \cup UNION {{list[x][i].k : i \in 1..Len(list[x])} : x \in Exprs}
FreeCells == (1..MaxCells) \ Live
Fresh == CHOOSE k \in FreeCells : \A j \in FreeCells : k <= j
Init == \E f \in {[t \in Terms |-> CHOOSE f \in [Terms -> 1..Cardinality(Terms)] : \A a, b \in Terms : f[a] = f[b] => a = b]} :
          /\ own = f[CHOOSE t \in Terms : TRUE]
          /\ cell = [k \in 1..MaxCells |-> <<>>]
          /\ list = [x \in Exprs |-> <<>>]
          /\ tval = [t \in Terms |-> <<>>]
          /\ xval = [x \in Exprs |-> <<>>]   \* a function from terms to coefficients: here the empty one

Add(t, p) == /\ Len(tval[t]) < MaxLen
             /\ cell' = [cell EXCEPT ![own[t]] = Append(@, p)]
             /\ tval' = [tval EXCEPT ![t] = Append(@, p)]
             /\ UNCHANGED <<own, list, xval>>
Clear(t) == /\ cell' = [cell EXCEPT ![own[t]] = <<>>]
            /\ tval' = [tval EXCEPT ![t] = <<>>]
            /\ UNCHANGED <<own, list, xval>>
Copy(t, u) == /\ FreeCells # {}
              /\ cell' = [cell EXCEPT ![Fresh] = cell[own[u]]]
              /\ own' = [own EXCEPT ![t] = Fresh]
              /\ tval' = [tval EXCEPT ![t] = tval[u]]
              /\ UNCHANGED <<list, xval>>
Put(x, t, c) ==
  LET hit == {i \in 1..Len(list[x]) : cell[list[x][i].k] = cell[own[t]]}
      old == IF tval[t] \in DOMAIN xval[x] THEN xval[x][tval[t]] ELSE 0
      D == (DOMAIN xval[x] \cup {tval[t]}) \ (IF old + c = 0 THEN {tval[t]} ELSE {})
  IN /\ xval' = [xval EXCEPT ![x] = [k \in D |-> IF k = tval[t] THEN old + c ELSE xval[x][k]]]
     /\ IF hit = {} THEN /\ FreeCells # {}
                         /\ cell' = [cell EXCEPT ![Fresh] = cell[own[t]]]
                         /\ list' = [list EXCEPT ![x] = Append(@, [k |-> Fresh, c |-> c])]
        ELSE LET i == CHOOSE i \in hit : TRUE
             IN /\ cell' = cell
                /\ list' = [list EXCEPT ![x] = IF @[i].c + c = 0 THEN SubSeq(@, 1, i - 1) \o SubSeq(@, i + 1, Len(@))
                                               ELSE [@ EXCEPT ![i].c = @ + c]]
     /\ UNCHANGED <<own, tval>>
Read(t, x, i) ==
  /\ i <= Len(list[x])
  /\ tval' = [tval EXCEPT ![t] = cell[list[x][i].k]]
  /\ IF Share THEN own' = [own EXCEPT ![t] = list[x][i].k] /\ cell' = cell
     ELSE /\ FreeCells # {}
          /\ own' = [own EXCEPT ![t] = Fresh]
          /\ cell' = [cell EXCEPT ![Fresh] = cell[list[x][i].k]]
  /\ UNCHANGED <<list, xval>>
Assign(x, y) ==  \* a copy of an expression copies its cells
  /\ x # y /\ Cardinality(FreeCells) >= Len(list[y])
  /\ LET f == CHOOSE f \in [1..Len(list[y]) -> FreeCells] : \A i, j \in 1..Len(list[y]) : i < j => f[i] < f[j]
     IN /\ cell' = [k \in 1..MaxCells |-> IF \E i \in DOMAIN f : f[i] = k THEN cell[list[y][CHOOSE i \in DOMAIN f : f[i] = k].k] ELSE cell[k]]
        /\ list' = [list EXCEPT ![x] = [i \in 1..Len(list[y]) |-> [k |-> f[i], c |-> list[y][i].c]]]
  /\ xval' = [xval EXCEPT ![x] = xval[y]]
  /\ UNCHANGED <<own, tval>>
Next == \/ \E t \in Terms, p \in Pieces : Add(t, p)
        \/ \E t \in Terms : Clear(t)
        \/ \E t, u \in Terms : Copy(t, u)
        \/ \E x \in Exprs, t \in Terms, c \in Coefs : Put(x, t, c)
        \/ \E x \in Exprs, t \in Terms, i \in 1..MaxCells : Read(t, x, i)
        \/ \E x, y \in Exprs : Assign(x, y)
Bound == /\ \A x \in Exprs : Len(list[x]) <= 2
         /\ \A x \in Exprs : \A i \in 1..Len(list[x]) : list[x][i].c \in -Big..Big

Spells == /\ \A t \in Terms : cell[own[t]] = tval[t]
          /\ \A x \in Exprs : /\ DOMAIN xval[x] = {cell[list[x][i].k] : i \in 1..Len(list[x])}
                              /\ \A i \in 1..Len(list[x]) : xval[x][cell[list[x][i].k]] = list[x][i].c
Owned == /\ \A t, u \in Terms : own[t] = own[u] => t = u
         /\ \A x \in Exprs : \A i \in 1..Len(list[x]) :
              /\ \A t \in Terms : own[t] # list[x][i].k
              /\ \A y \in Exprs : \A j \in 1..Len(list[y]) : list[x][i].k = list[y][j].k => x = y /\ i = j
(* the numbers of the cells do not matter: only contents and ownership     *)
Names == <<[t \in Terms |-> cell[own[t]]], [x \in Exprs |-> [i \in 1..Len(list[x]) |-> <<cell[list[x][i].k], list[x][i].c>>]], tval, xval, Owned>>
Keys == \A x \in Exprs : \A i, j \in 1..Len(list[x]) : cell[list[x][i].k] = cell[list[x][j].k] => i = j
=============================================================================
