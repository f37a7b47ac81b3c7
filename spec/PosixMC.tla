------------------------------- MODULE PosixMC -------------------------------
(* Exhaustive exploration of a small file system, of descriptors and of record locks: the
   specification keeps the invariants a file system must have, and failed operations change nothing. *)
EXTENDS Posix
CONSTANTS Kind, MaxIno, MaxFd, MaxDepth
VARIABLES st, last
Pa(cs) == [abs |-> FALSE, c |-> cs, slash |-> FALSE, raw |-> "", n |-> 1]
Names == {"a", "b"}
Paths == {Pa(<<n>>) : n \in Names} \cup {Pa(<<n, m>>) : n \in Names, m \in Names} \cup {Pa(<<"..", "a">>)}
Fl(c) == [a |-> FALSE, n |-> TRUE, t |-> FALSE, s |-> FALSE, x |-> FALSE, c |-> c]
FsOps == {[op |-> k, p |-> x, q |-> x, m |-> 448] : k \in {"mkdir", "rmdir", "unlink", "chdir"}, x \in Paths}
    \cup {[op |-> k, p |-> x, q |-> y, m |-> 448] : k \in {"rename", "link", "symlink"}, x \in Paths, y \in Paths}
    \cup {[op |-> "open", p |-> x, q |-> x, m |-> 384, am |-> "rw", fl |-> Fl(c)] : x \in {Pa(<<"a">>), Pa(<<"b">>)}, c \in BOOLEAN}
Off(n) == OInt(n)
IoOps == {[op |-> "close", f |-> f, pr |-> p] : f \in 3..4, p \in 0..1} \cup {[op |-> "dup", f |-> f, pr |-> p] : f \in 3..4, p \in 0..1}
    \cup {[op |-> "dup2", f |-> f, g |-> g, pr |-> p] : f \in 3..4, g \in 3..5, p \in 0..1}
    \cup {[op |-> "lseek", f |-> f, o |-> Off(n), w |-> w, pr |-> 0] : f \in 3..4, n \in {-1, 0, 2}, w \in {"set", "cur", "end"}}
    \cup {[op |-> "write", f |-> f, seed |-> 1, i |-> 0, k |-> 1, pr |-> p] : f \in 3..4, p \in 0..1}
    \cup {[op |-> "ftruncate", f |-> 3, o |-> Off(n), pr |-> 0] : n \in {0, 2}}
LkOps == {[op |-> k, f |-> 3, t |-> t, w |-> "set", o |-> Off(a), n |-> Off(n), pr |-> p] :
              k \in {"setlk"}, t \in {"r", "w", "u"}, a \in 0..3, n \in {0, 1, 2, -2}, p \in 0..1}
    \cup {[op |-> "close", f |-> 4, pr |-> p] : p \in 0..1}
    \cup {[op |-> "open", p |-> Pa(<<"a">>), q |-> Pa(<<"a">>), m |-> 384, am |-> "rw", fl |-> Fl(FALSE), pr |-> p] : p \in 0..1}
Ops == IF Kind = "fs" THEN {[pr |-> 0] @@ o : o \in FsOps} ELSE IF Kind = "io" THEN IoOps ELSE LkOps
Do(s, o) ==
  LET p == o.pr IN
  CASE o.op = "mkdir" -> Mkdir(s, p, o) [] o.op = "rmdir" -> Rmdir(s, p, o) [] o.op = "unlink" -> Unlink(s, p, o)
    [] o.op = "chdir" -> Chdir(s, p, o) [] o.op = "rename" -> Rename(s, p, o) [] o.op = "link" -> Link(s, p, o)
    [] o.op = "symlink" -> Symlink(s, p, o) [] o.op = "open" -> Open(s, p, o) [] o.op = "close" -> Close(s, p, o)
    [] o.op = "dup" -> Dup(s, p, o) [] o.op = "dup2" -> Dup2(s, p, o) [] o.op = "lseek" -> Lseek(s, p, o)
    [] o.op = "write" -> Output(s, p, o.f, o.seed, o.i, o.k) [] o.op = "ftruncate" -> Ftruncate(s, p, o)
    [] o.op = "setlk" -> Setlk(s, p, o)
S0 == InitState(1, 1, {}, 18, MaxFd, 2)
S1 == Open(S0, 0, [op |-> "open", p |-> Pa(<<"a">>), m |-> 384, am |-> "rw", fl |-> Fl(TRUE)]).s
Init == /\ st = IF Kind = "fs" THEN S0 ELSE Fork(IF Kind = "io" THEN Dup(S1, 0, [f |-> 3]).s ELSE S1, 0, 1)
        /\ last = ""
Next == \E o \in Ops : LET x == Do(st, o) IN st' = x.s /\ last' = x.e
Spec == Init /\ [][Next]_<<st, last>>
Inv == WellFormed(st)
(* what an operation that failed leaves behind is what was there before *)
FailKeeps == [][last' # "" => st' = st]_<<st, last>>
(* writes never shrink a file and descriptors that share a description share its offset *)
Small == /\ st.nxt <= MaxIno + 1 /\ \A i \in DOMAIN st.ino : Len(st.ino[i].log) <= 3 /\ st.ino[i].nl <= 2
         /\ TLCGet("level") <= MaxDepth
(* versions and offsets only grow: leave them out of the fingerprint where they do not matter *)
View == <<[st EXCEPT !.ino = [i \in DOMAIN st.ino |-> [st.ino[i] EXCEPT !.ver = 0]], !.nxto = 0,
                     !.ofd = {<<k, st.ofd[k]>> : k \in UNION {{st.proc[q].fds[f].o : f \in DOMAIN st.proc[q].fds} : q \in DOMAIN st.proc}}]>>
=============================================================================
