-------------------------------- MODULE Posix --------------------------------
(***************************************************************************)
(* The part of POSIX that SML/NJ's Posix.FileSys, Posix.IO and OS.FileSys   *)
(* expose: a file tree, open file descriptions, descriptor tables of a set  *)
(* of related processes, record locks and directory streams.                *)
(* Do(s, p, o) is the outcome of operation o by process p in state s:       *)
(*    [e   |-> name of the error ("" if none),                              *)
(*     r   |-> the tuple of results (strings) or ANY,                       *)
(*     s   |-> the next state]                                              *)
(* The operations are total and deterministic except for what POSIX leaves  *)
(* open (directory order, access times, which conflicting lock is named).   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Bitwise



(* ---- offsets: <<hi, lo>> stands for hi * 2^20 + lo, 0 <= lo < 2^20 ------- *)
B == 1048576
Norm(h, l) == <<h + (l \div B), l % B>>
OAdd(a, b) == Norm(a[1] + b[1], a[2] + b[2])
OSub(a, b) == Norm(a[1] - b[1], a[2] - b[2])
OInt(n) == Norm(0, n)
OLt(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
OLe(a, b) == a = b \/ OLt(a, b)
OMax(a, b) == IF OLt(a, b) THEN b ELSE a
OMin(a, b) == IF OLt(a, b) THEN a ELSE b
Zero == <<0, 0>>
One == <<0, 1>>
Neg(a) == a[1] < 0
(* distance b - a as a number, clipped to 0..2^30 *)
ODist(a, b) == IF OLe(b, a) THEN 0 ELSE IF b[1] - a[1] > 1000 THEN 1073741824 ELSE (b[1] - a[1]) * B + (b[2] - a[2])
Inf == <<1073741823, 0>>

(* ---- file contents: a log of writes and truncations, newest first --------- *)
Dat(seed, i) == (seed * 31 + i * 7 + (i \div 64) * 3) % 251
RECURSIVE ByteAt(_, _, _)
ByteAt(log, k, p) ==
  IF k > Len(log) THEN 0
  ELSE LET x == log[k] IN
       IF x.k = "t" THEN IF OLe(x.o, p) THEN 0 ELSE ByteAt(log, k + 1, p)
       ELSE LET d == ODist(x.o, p) IN
            IF OLe(x.o, p) /\ d < x.n THEN Dat(x.seed, x.i + d) ELSE ByteAt(log, k + 1, p)
Bytes(log, o, n) == [j \in 1..n |-> ByteAt(log, 1, OAdd(o, OInt(j - 1)))]

(* ---- state ---------------------------------------------------------------- *)
AnyR == "ANY"
Err(s, e) == [e |-> e, r |-> <<>>, s |-> s]
Ok(s, r) == [e |-> "", r |-> r, s |-> s]
Free(s) == [e |-> AnyR, r |-> <<>>, s |-> s]     \* outcome left open

Upd(f, k, v) == TLCEval([x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]])
Del(f, k) == TLCEval([x \in (DOMAIN f) \ {k} |-> f[x]])
Ino(s, i) == s.ino[i]
SetI(s, i, v) == [s EXCEPT !.ino[i] = v]
IsDir(s, i) == s.ino[i].t = "d"

NewInode(s, p, t, mode) ==
  [t |-> t, mode |-> mode, uid |-> s.uid, gid |-> s.gid, nl |-> IF t = "d" THEN 2 ELSE 1,
   log |-> <<>>, size |-> Zero, tgt |-> [abs |-> FALSE, c |-> <<>>, slash |-> FALSE, raw |-> "", n |-> 0],
   ents |-> <<>>, par |-> 0, ver |-> 0, at |-> {"now"}, mt |-> {"now"}, pipe |-> <<>>, dead |-> FALSE]

InitState(uid, gid, groups, umask, lim, depth) ==
  LET s0 == [uid |-> uid, gid |-> gid]
      dir(i) == [NewInode(s0, 0, "d", 493) EXCEPT !.par = IF i = 1 THEN 1 ELSE i - 1,
                   !.ents = IF i = depth THEN <<>> ELSE ("up" :> i + 1)]
  IN [ino |-> [i \in 1..depth |-> dir(i)], nxt |-> depth + 1, uid |-> uid, gid |-> gid, groups |-> groups,
      ofd |-> <<>>, nxto |-> 1,
      proc |-> (0 :> [cwd |-> depth, umask |-> umask, fds |-> <<>>, ds |-> <<>>, lim |-> lim]),
      locks |-> {}, out |-> FALSE, tmp |-> depth, inoname |-> <<>>]
Proc(s, p) == s.proc[p]

(* ---- permissions: all files belong to the user, or the user is root ------- *)
Bit(m, b) == (m \div b) % 2 = 1
May(s, i, what) ==    \* what: 4 read, 2 write, 1 execute/search
  LET x == s.ino[i] IN
  IF s.uid = 0 THEN what # 1 \/ x.t = "d" \/ Bit(x.mode, 64) \/ Bit(x.mode, 8) \/ Bit(x.mode, 1)
  ELSE LET cls == IF x.uid = s.uid THEN 64 ELSE IF x.gid = s.gid \/ x.gid \in s.groups THEN 8 ELSE 1
       IN Bit(x.mode, what * cls)

(* ---- path resolution ------------------------------------------------------- *)
(* result: e, lt in norm/dot/root, par, name, i (0: absent), sl (trailing slash), out *)
WR(e, lt, par, name, i) == [e |-> e, lt |-> lt, par |-> par, name |-> name, i |-> i]
RECURSIVE Walk(_, _, _, _, _, _)
Walk(s, cur, cs, follow, slash, n) ==
  IF cs = <<>> THEN (IF IsDir(s, cur) THEN WR("", "dot", s.ino[cur].par, ".", cur) ELSE WR("notdir", "", 0, "", 0))
  ELSE
  LET c == Head(cs)
      last == Len(cs) = 1
  IN IF ~IsDir(s, cur) THEN WR("notdir", "", 0, "", 0)
     ELSE IF ~May(s, cur, 1) THEN WR("SEARCH", "", 0, "", 0)     \* fails: usually EACCES
     ELSE IF c = "." THEN IF last THEN WR("", "dot", cur, ".", cur) ELSE Walk(s, cur, Tail(cs), follow, slash, n)
     ELSE IF c = ".." THEN LET u == s.ino[cur].par
                           IN IF cur = 1 THEN WR("OUT", "", 0, "", 0)
                              ELSE IF last THEN WR("", "dotdot", u, "..", u) ELSE Walk(s, u, Tail(cs), follow, slash, n)
     ELSE IF Len(c) > 255 /\ ~s.ino[cur].dead THEN WR("nametoolong", "", 0, "", 0)
     ELSE IF c \notin DOMAIN s.ino[cur].ents
          THEN IF last THEN WR("", "norm", cur, c, 0) ELSE WR("noent", "", 0, "", 0)
     ELSE LET i == s.ino[cur].ents[c]
              x == s.ino[i]
          IN IF x.t = "l" /\ (~last \/ follow)
             THEN IF n >= 40 THEN WR("loop", "", 0, "", 0)
                  ELSE Walk(s, IF x.tgt.abs THEN 1 ELSE cur, x.tgt.c \o Tail(cs), follow, slash \/ (last /\ x.tgt.slash), n + 1)
             ELSE IF last THEN WR("", "norm", cur, c, i)
             ELSE IF x.t # "d" THEN WR("notdir", "", 0, "", 0)
             ELSE Walk(s, i, Tail(cs), follow, slash, n)

(* a path argument: [abs, c, slash, raw, n] *)
W(s, p, pa, follow) ==
  IF pa.n = 0 THEN WR("noent", "", 0, "", 0)
  ELSE IF pa.n >= 4096 THEN WR("nametoolong", "", 0, "", 0)
  ELSE LET w == Walk(s, IF pa.abs THEN 1 ELSE s.proc[p].cwd, pa.c, follow \/ FALSE, pa.slash, 0)
       IN IF w.e = "" /\ pa.slash /\ w.i # 0 /\ ~IsDir(s, w.i) /\ follow THEN WR("notdir", "", 0, "", 0) ELSE w
(* the object a path denotes *)
Look(s, p, pa, follow) ==
  LET w == W(s, p, pa, follow \/ pa.slash) IN IF w.e # "" THEN w ELSE IF w.i = 0 THEN WR("noent", "", 0, "", 0) ELSE w

Touch(x) == [x EXCEPT !.mt = {"now"}]
AddEnt(s, d, name, i) ==
  [s EXCEPT !.ino[d].ents = Upd(@, name, i), !.ino[d].mt = {"now"}, !.ino[d].ver = @ + 1]
DelEnt(s, d, name) ==
  [s EXCEPT !.ino[d].ents = Del(@, name), !.ino[d].mt = {"now"}, !.ino[d].ver = @ + 1]
(* a fresh inode under name in directory d *)
Create(s, d, name, x) ==
  LET i == s.nxt
      s1 == [s EXCEPT !.ino = Upd(@, i, [x EXCEPT !.par = d]), !.nxt = @ + 1]
  IN AddEnt(s1, d, name, i)
(* may a new entry be made where w says? *)
NewErr(s, w) ==
  IF w.e # "" THEN w.e ELSE IF w.lt # "norm" \/ w.i # 0 THEN "exist"
  ELSE ""
NewErr2(s, w) == IF s.ino[w.par].dead THEN "noent" ELSE IF ~May(s, w.par, 2) THEN "acces" ELSE ""
WithNew(s, p, pa, needSlashOk, f(_, _)) ==
  LET w == W(s, p, pa, FALSE)
      e1 == NewErr(s, w)
      e2 == IF e1 # "" THEN e1 ELSE IF pa.slash /\ ~needSlashOk THEN "noent" ELSE NewErr2(s, w)
  IN IF e2 # "" THEN Err(s, e2) ELSE f(s, w)

MAnd(a, b) == a & b
Masked(s, p, m) == m - MAnd(m, s.proc[p].umask)

Mkdir(s, p, o) ==
  LET f(t, w) == Ok(Create(t, w.par, w.name, NewInode(t, p, "d", Masked(t, p, MAnd(o.m, 1023)))), <<>>)
  IN WithNew(s, p, o.p, TRUE, f)
Mkfifo(s, p, o) ==
  LET f(t, w) == Ok(Create(t, w.par, w.name, NewInode(t, p, "p", Masked(t, p, MAnd(o.m, 4095)))), <<>>)
  IN WithNew(s, p, o.p, FALSE, f)
Symlink(s, p, o) ==
  IF o.p.n = 0 THEN Err(s, "noent") ELSE IF o.p.n >= 4096 THEN Err(s, "nametoolong")
  ELSE LET f(t, w) == Ok(Create(t, w.par, w.name,
                        [NewInode(t, p, "l", 511) EXCEPT !.tgt = o.p, !.size = OInt(o.p.n)]), <<>>)
       IN WithNew(s, p, o.q, FALSE, f)
Link(s, p, o) ==
  LET w == Look(s, p, o.p, FALSE)
  IN IF w.e # "" THEN Err(s, w.e)
     ELSE LET f(t, v) == IF IsDir(t, w.i) THEN Err(t, "perm")
                         ELSE Ok([AddEnt(t, v.par, v.name, w.i) EXCEPT !.ino[w.i].nl = @ + 1], <<>>)
          IN WithNew(s, p, o.q, FALSE, f)
Unlink(s, p, o) ==
  LET w == W(s, p, o.p, FALSE)
  IN IF w.e # "" THEN Err(s, w.e)
     ELSE IF w.lt # "norm" THEN Err(s, "isdir")
     ELSE IF w.i = 0 THEN Err(s, "noent")
     ELSE IF o.p.slash THEN Err(s, IF IsDir(s, w.i) THEN "isdir" ELSE "notdir")
     ELSE IF ~May(s, w.par, 2) THEN Err(s, "acces")
     ELSE IF IsDir(s, w.i) THEN Err(s, "isdir")
     ELSE Ok([DelEnt(s, w.par, w.name) EXCEPT !.ino[w.i].nl = @ - 1], <<>>)
Rmdir(s, p, o) ==
  LET w == W(s, p, o.p, FALSE)
  IN IF w.e # "" THEN Err(s, w.e)
     ELSE IF w.lt = "dot" THEN Err(s, "inval")
     ELSE IF w.lt = "dotdot" THEN Err(s, "notempty")
     ELSE IF w.i = 0 THEN Err(s, "noent")
     ELSE IF ~May(s, w.par, 2) THEN Err(s, "acces")
     ELSE IF ~IsDir(s, w.i) THEN Err(s, "notdir")
     ELSE IF DOMAIN s.ino[w.i].ents # {} THEN Err(s, "notempty")
     ELSE Ok([DelEnt(s, w.par, w.name) EXCEPT !.ino[w.i].dead = TRUE, !.ino[w.i].nl = 0], <<>>)
RECURSIVE Anc(_, _, _)
Anc(s, a, d) == a = d \/ (d # 1 /\ Anc(s, a, s.ino[d].par))        \* a is d or above it
Rename(s, p, o) ==
  LET v == W(s, p, o.p, FALSE)
      w == W(s, p, o.q, FALSE)
  IN IF (v.e # "" \/ v.i = 0) /\ w.e # "" THEN [e |-> "EITHER", r |-> {IF v.e # "" THEN v.e ELSE "noent", w.e}, s |-> s]
     ELSE IF v.e # "" THEN [e |-> "EITHER", r |-> {v.e} \cup (IF w.lt # "norm" THEN {"busy"} ELSE {}), s |-> s]
     ELSE IF w.e # "" THEN [e |-> "EITHER", r |-> {w.e} \cup (IF v.lt # "norm" THEN {"busy"} ELSE {}), s |-> s]
     ELSE IF v.lt # "norm" \/ w.lt # "norm" THEN Err(s, "busy")
     ELSE IF v.i = 0 THEN Err(s, "noent")
     ELSE LET isd == IsDir(s, v.i) IN
     IF ~isd /\ (o.p.slash \/ o.q.slash) THEN Err(s, "notdir")
     ELSE IF isd /\ v.par # w.par /\ Anc(s, v.i, w.par) THEN Err(s, "inval")
     ELSE IF w.i # 0 /\ v.par # w.par /\ IsDir(s, w.i) /\ Anc(s, w.i, v.par) THEN Err(s, "notempty")
     ELSE IF v.i = w.i THEN Ok(s, <<>>)
     ELSE IF ~May(s, v.par, 2) THEN Err(s, "acces")
     ELSE IF w.i = 0 /\ s.ino[w.par].dead THEN Err(s, "noent")
     ELSE IF ~May(s, w.par, 2) THEN Err(s, "acces")
     ELSE IF w.i # 0 /\ isd /\ ~IsDir(s, w.i) THEN Err(s, "notdir")
     ELSE IF w.i # 0 /\ ~isd /\ IsDir(s, w.i) THEN Err(s, "isdir")
     ELSE IF isd /\ v.par # w.par /\ ~May(s, v.i, 2) THEN Err(s, "acces")
     ELSE IF w.i # 0 /\ isd /\ DOMAIN s.ino[w.i].ents # {} THEN Err(s, "notempty")
     ELSE LET s1 == IF w.i = 0 THEN s
                    ELSE IF isd THEN [s EXCEPT !.ino[w.i].dead = TRUE, !.ino[w.i].nl = 0]
                    ELSE [s EXCEPT !.ino[w.i].nl = @ - 1]
              s2 == AddEnt(DelEnt(s1, v.par, v.name), w.par, w.name, v.i)
          IN Ok(IF isd THEN [s2 EXCEPT !.ino[v.i].par = w.par] ELSE s2, <<>>)
Readlink(s, p, o) ==
  LET w == Look(s, p, o.p, FALSE)
  IN IF w.e # "" THEN Err(s, w.e) ELSE IF s.ino[w.i].t # "l" THEN Err(s, "inval")
     ELSE Ok([s EXCEPT !.ino[w.i].at = @ \cup {"now"}], <<s.ino[w.i].tgt.raw>>)

(* ---- attributes -------------------------------------------------------------- *)
NoSuid(s, x, byRoot) ==   \* a write or truncation by an ordinary user, or a change of owner
  IF byRoot \/ x.t = "d" THEN x
  ELSE LET m1 == IF Bit(x.mode, 2048) THEN x.mode - 2048 ELSE x.mode
           m2 == IF Bit(m1, 1024) /\ Bit(m1, 8) THEN m1 - 1024 ELSE m1
       IN [x EXCEPT !.mode = m2]
SetMode(s, i, m) == IF s.uid # 0 /\ s.ino[i].uid # s.uid THEN Err(s, "perm")
                    ELSE LET mm == MAnd(m, 4095)
                             x == s.ino[i]
                             own == s.uid = 0 \/ x.gid = s.gid \/ x.gid \in s.groups
                         IN Ok(SetI(s, i, [x EXCEPT !.mode = IF Bit(mm, 1024) /\ ~own THEN mm - 1024 ELSE mm]), <<>>)
NoId == -1
SetOwn(s, i, u, g) ==
  LET x == s.ino[i]
      okU == s.uid = 0 \/ u = NoId \/ (x.uid = s.uid /\ u = x.uid)
      okG == s.uid = 0 \/ g = NoId \/ (x.uid = s.uid /\ (g = s.gid \/ g \in s.groups))
  IN IF ~okU \/ ~okG THEN Err(s, "perm")
     ELSE Ok(SetI(s, i, [NoSuid(s, x, FALSE) EXCEPT !.uid = IF u = NoId THEN @ ELSE u,
                                                    !.gid = IF g = NoId THEN @ ELSE g]), <<>>)
AtPath(s, p, o, follow, f(_, _)) ==
  LET w == Look(s, p, o.p, follow) IN IF w.e # "" THEN Err(s, w.e) ELSE f(s, w.i)
Chmod(s, p, o) == LET f(t, i) == SetMode(t, i, o.m) IN AtPath(s, p, o, TRUE, f)
Chown(s, p, o) == LET f(t, i) == SetOwn(t, i, o.u, o.g) IN AtPath(s, p, o, TRUE, f)
Utime(s, p, o) ==
  LET f(t, i) ==
        IF t.uid # 0 /\ t.ino[i].uid # t.uid /\ (o.at # "-" \/ ~May(t, i, 2)) THEN Err(t, IF o.at = "-" THEN "acces" ELSE "perm")
        ELSE Ok(SetI(t, i, [t.ino[i] EXCEPT !.at = {IF o.at = "-" THEN "now" ELSE o.at},
                                            !.mt = {IF o.at = "-" THEN "now" ELSE o.mt}]), <<>>)
  IN AtPath(s, p, o, TRUE, f)

(* the result of stat: type, mode, inode number, device, links, uid, gid, size, atime, mtime, ctime.
   Inode numbers are learned: the same object always has the same one and objects differ. *)
StatRes(s, i, r) ==
  LET x == s.ino[i]
      known == i \in DOMAIN s.inoname
      ok == /\ Len(r) = 11
            /\ r[1] = x.t /\ r[2] = ToString(MAnd(x.mode, 3583))
            /\ (known => r[3] = s.inoname[i])
            /\ (~known => \A j \in DOMAIN s.inoname : s.inoname[j] # r[3] \/ s.ino[j].nl = 0)
            /\ r[4] = "dev"
            /\ (x.t # "d" => r[5] = ToString(x.nl))
            /\ r[6] = ToString(x.uid) /\ r[7] = ToString(x.gid)
            /\ (x.t \in {"r", "l"} => r[8] = x.size)
            /\ (r[9] \in x.at \/ (x.t = "d" /\ r[9] = "now")) /\ r[10] \in x.mt /\ r[11] = "now"
  IN [ok |-> ok, s |-> IF ok THEN [s EXCEPT !.inoname = Upd(@, i, r[3]),
                                            !.ino[i].at = {r[9]} \cup (IF x.t = "d" THEN @ ELSE {})] ELSE s]

(* ---- descriptors --------------------------------------------------------------- *)
Fds(s, p) == s.proc[p].fds
IsFd(s, p, f) == f \in DOMAIN s.proc[p].fds
Std(f) == f \in 0..2
O(s, p, f) == s.ofd[s.proc[p].fds[f].o]
FreeFd(s, p, base) ==
  LET used == DOMAIN s.proc[p].fds \cup {0, 1, 2}
      cand == {n \in base..(base + Cardinality(used)) : n \notin used}
  IN CHOOSE n \in cand : \A m \in cand : n <= m
SetFd(s, p, f, o, ce) == [s EXCEPT !.proc[p].fds = Upd(@, f, [o |-> o, ce |-> ce])]
MkOfd(i, am, fl) == [i |-> i, off |-> Zero, am |-> am, app |-> fl.a, nb |-> fl.n, sy |-> fl.s, ds |-> FALSE]
(* new description for inode i on the lowest descriptor *)
Opened(s, p, i, am, fl) ==
  LET f == FreeFd(s, p, 0)
  IN IF f >= s.proc[p].lim THEN Err(s, "mfile")
     ELSE Ok(SetFd([s EXCEPT !.ofd = Upd(@, s.nxto, MkOfd(i, am, fl)), !.nxto = @ + 1], p, f, s.nxto, FALSE), <<ToString(f)>>)
Reads(am) == am \in {"r", "rw"}
Writes(am) == am \in {"w", "rw"}
Full(s, p) == FreeFd(s, p, 0) >= s.proc[p].lim
(* who holds inode i open *)
Holders(s, i, wr) == \E q \in DOMAIN s.proc : \E f \in DOMAIN s.proc[q].fds :
      LET d == s.ofd[s.proc[q].fds[f].o] IN d.i = i /\ (IF wr THEN Writes(d.am) ELSE Reads(d.am))
Open(s, p, o) ==
  LET fl == o.fl
      follow == ~(fl.c /\ fl.x)
      w == W(s, p, o.p, follow)
  IN IF Full(s, p) /\ o.p.n # 0 /\ o.p.n < 4096 THEN Err(s, "mfile")
     ELSE IF w.e # "" THEN Err(s, w.e)
     ELSE IF fl.c /\ o.p.slash THEN Err(s, "isdir")
     ELSE IF w.i = 0
     THEN IF ~fl.c THEN Err(s, "noent")
          ELSE IF s.ino[w.par].dead THEN Err(s, "noent")
          ELSE IF ~May(s, w.par, 2) THEN Err(s, "acces")
          ELSE LET s1 == Create(s, w.par, w.name, NewInode(s, p, "r", Masked(s, p, MAnd(o.m, 4095))))
               IN Opened(s1, p, s.nxt, o.am, fl)
     ELSE LET x == s.ino[w.i] IN
          IF fl.c /\ fl.x THEN Err(s, "exist")
          ELSE IF x.t = "l" THEN Err(s, "loop")
          ELSE IF x.t = "d" /\ (fl.c \/ Writes(o.am) \/ fl.t) THEN Err(s, "isdir")
          ELSE IF (Reads(o.am) /\ ~May(s, w.i, 4)) \/ ((Writes(o.am) \/ fl.t) /\ ~May(s, w.i, 2)) THEN Err(s, "acces")
          ELSE IF x.t = "p" /\ o.am = "w" /\ fl.n /\ ~Holders(s, w.i, FALSE) THEN Err(s, "nxio")
          ELSE LET s1 == IF fl.t /\ x.t = "r"
                         THEN SetI(s, w.i, [NoSuid(s, x, s.uid = 0) EXCEPT !.log = <<>>, !.size = Zero, !.mt = {"now"}])
                         ELSE s
               IN Opened(s1, p, w.i, o.am, fl)
Fstat(s, p, o) == IF IsFd(s, p, o.f) THEN O(s, p, o.f).i ELSE 0
(* dropping a descriptor: the process loses its locks on that file; a pipe nobody holds is emptied *)
Drop(s, p, f) ==
  LET i == O(s, p, f).i
      s1 == [s EXCEPT !.proc[p].fds = Del(@, f), !.locks = {k \in @ : ~(k.i = i /\ k.p = p)}]
  IN IF s1.ino[i].t = "p" /\ ~Holders(s1, i, FALSE) /\ ~Holders(s1, i, TRUE)
     THEN [s1 EXCEPT !.ino[i].pipe = <<>>] ELSE s1
Close(s, p, o) == IF ~IsFd(s, p, o.f) THEN Err(s, "badf") ELSE Ok(Drop(s, p, o.f), <<>>)
Dup(s, p, o) ==
  IF ~IsFd(s, p, o.f) THEN Err(s, "badf") ELSE IF Full(s, p) THEN Err(s, "mfile")
  ELSE LET g == FreeFd(s, p, 0) IN Ok(SetFd(s, p, g, Fds(s, p)[o.f].o, FALSE), <<ToString(g)>>)
DupFd(s, p, o) ==
  IF ~IsFd(s, p, o.f) THEN Err(s, "badf") ELSE IF o.g < 0 \/ o.g >= s.proc[p].lim THEN Err(s, "inval")
  ELSE LET g == FreeFd(s, p, o.g)
       IN IF g >= s.proc[p].lim THEN Err(s, "mfile") ELSE Ok(SetFd(s, p, g, Fds(s, p)[o.f].o, FALSE), <<ToString(g)>>)
Dup2(s, p, o) ==
  IF ~IsFd(s, p, o.f) \/ o.g < 0 \/ o.g >= s.proc[p].lim THEN Err(s, "badf")
  ELSE IF o.f = o.g THEN Ok(s, <<>>)
  ELSE LET oid == Fds(s, p)[o.f].o
           s1 == IF IsFd(s, p, o.g) THEN Drop(s, p, o.g) ELSE s
       IN Ok(SetFd(s1, p, o.g, oid, FALSE), <<>>)
NoFl == [a |-> FALSE, n |-> FALSE, s |-> FALSE]
Pipe(s, p, o) ==
  LET i == s.nxt
      s1 == [s EXCEPT !.ino = Upd(@, i, [NewInode(s, p, "p", 384) EXCEPT !.nl = 1]), !.nxt = @ + 1]
      a == Opened(s1, p, i, "r", [NoFl EXCEPT !.n = o.nb])
      b == Opened(a.s, p, i, "w", [NoFl EXCEPT !.n = o.nb])
  IN IF a.e # "" \/ b.e # "" THEN Err(s, "mfile") ELSE Ok(b.s, <<a.r[1], b.r[1]>>)
Take(n, q) == SubSeq(q, 1, IF n < Len(q) THEN n ELSE Len(q))
Min2(a, b) == IF a < b THEN a ELSE b
(* bytes obtained by reading at most n: [e, b, s] *)
Input(s, p, f, n) ==
  IF ~IsFd(s, p, f) \/ ~Reads(O(s, p, f).am) THEN [e |-> "badf", b |-> <<>>, s |-> s]
  ELSE LET d == O(s, p, f)
           x == s.ino[d.i]
           oid == Fds(s, p)[f].o
       IN IF x.t = "d" THEN [e |-> "ISDIR", b |-> <<>>, s |-> s]      \* EISDIR, or EINVAL beyond the end
          ELSE IF x.t = "p"
          THEN IF n = 0 THEN [e |-> "", b |-> <<>>, s |-> s]
               ELSE IF x.pipe = <<>> /\ Holders(s, d.i, TRUE) THEN [e |-> IF d.nb THEN "again" ELSE "BLOCKS", b |-> <<>>, s |-> s]
               ELSE LET m == Min2(n, Len(x.pipe))
                    IN [e |-> "", b |-> SubSeq(x.pipe, 1, m),
                        s |-> [s EXCEPT !.ino[d.i].pipe = SubSeq(@, m + 1, Len(@)), !.ino[d.i].at = @ \cup {"now"}]]
          ELSE LET m == Min2(n, ODist(d.off, x.size))
               IN [e |-> "", b |-> Bytes(x.log, d.off, m),
                   s |-> [s EXCEPT !.ofd[oid].off = OAdd(@, OInt(m)),
                                   !.ino[d.i].at = IF n > 0 THEN @ \cup {"now"} ELSE @]]
(* [e, n, s]: writing n bytes of data stream seed from index i *)
Output(s, p, f, seed, i, n) ==
  IF ~IsFd(s, p, f) \/ ~Writes(O(s, p, f).am) THEN [e |-> "badf", n |-> 0, s |-> s]
  ELSE LET d == O(s, p, f)
           x == s.ino[d.i]
           oid == Fds(s, p)[f].o
       IN IF x.t = "p"
          THEN IF n = 0 THEN [e |-> "", n |-> 0, s |-> s]
               ELSE IF ~Holders(s, d.i, FALSE) THEN [e |-> "pipe", n |-> 0, s |-> s]
               ELSE [e |-> "", n |-> n, s |-> [s EXCEPT !.ino[d.i].pipe = @ \o [k \in 1..n |-> Dat(seed, i + k - 1)],
                                                        !.ino[d.i].mt = {"now"}]]
          ELSE IF n = 0 THEN [e |-> "", n |-> 0, s |-> s]
          ELSE LET at == IF d.app THEN x.size ELSE d.off
                   end == OAdd(at, OInt(n))
               IN [e |-> "", n |-> n,
                   s |-> [s EXCEPT !.ofd[oid].off = end,
                                   !.ino[d.i] = [NoSuid(s, x, s.uid = 0) EXCEPT
                                       !.log = <<[k |-> "w", o |-> at, seed |-> seed, i |-> i, n |-> n]>> \o @,
                                       !.size = OMax(@, end), !.mt = {"now"}]]]
PipeFull(s, p, o) ==     \* the data may not fit into the pipe (of at least one page)
  IsFd(s, p, o.f) /\ Writes(O(s, p, o.f).am) /\ O(s, p, o.f).nb
  /\ LET i == O(s, p, o.f).i IN s.ino[i].t = "p" /\ Holders(s, i, FALSE) /\ Len(s.ino[i].pipe) + o.k > 4096
Lseek(s, p, o) ==
  IF ~IsFd(s, p, o.f) THEN Err(s, "badf")
  ELSE LET d == O(s, p, o.f)
           x == s.ino[d.i]
           base == IF o.w = "set" THEN Zero ELSE IF o.w = "cur" THEN d.off ELSE x.size
           new == OAdd(base, o.o)
       IN IF x.t = "p" THEN Err(s, "spipe")
          ELSE IF x.t = "d" THEN Free(s)
          ELSE IF Neg(new) THEN Err(s, "inval")
          ELSE Ok([s EXCEPT !.ofd[Fds(s, p)[o.f].o].off = new], <<new>>)
Ftruncate(s, p, o) ==
  IF Neg(o.o) THEN Err(s, "inval")
  ELSE IF ~IsFd(s, p, o.f) THEN Err(s, "badf")
  ELSE LET d == O(s, p, o.f)
           x == s.ino[d.i]
       IN IF x.t # "r" \/ ~Writes(d.am) THEN Err(s, "inval")
          ELSE Ok(SetI(s, d.i, [NoSuid(s, x, s.uid = 0) EXCEPT
                    !.log = <<[k |-> "t", o |-> o.o]>> \o @, !.size = o.o,
                    !.mt = {"now"}]), <<>>)
Getfd(s, p, o) == IF ~IsFd(s, p, o.f) THEN Err(s, "badf") ELSE Ok(s, <<IF Fds(s, p)[o.f].ce THEN "1" ELSE "0">>)
Setfd(s, p, o) == IF ~IsFd(s, p, o.f) THEN Err(s, "badf") ELSE Ok([s EXCEPT !.proc[p].fds[o.f].ce = o.ce], <<>>)
B01(b) == IF b THEN "1" ELSE "0"
Getfl(s, p, o) == IF ~IsFd(s, p, o.f) THEN Err(s, "badf")
                  ELSE LET d == O(s, p, o.f) IN Ok(s, <<B01(d.app), B01(d.nb), B01(d.sy), d.am>>)
Setfl(s, p, o) == IF ~IsFd(s, p, o.f) THEN Err(s, "badf")
                  ELSE LET k == Fds(s, p)[o.f].o IN Ok([s EXCEPT !.ofd[k].app = o.fl.a, !.ofd[k].nb = o.fl.n], <<>>)
Fsync(s, p, o) == IF ~IsFd(s, p, o.f) THEN Err(s, "badf")
                  ELSE IF s.ino[O(s, p, o.f).i].t = "p" THEN Err(s, "inval") ELSE Ok(s, <<>>)

(* ---- directory streams ------------------------------------------------------------ *)
Opendir(s, p, o) ==
  LET w == Look(s, p, o.p, TRUE)
  IN IF Full(s, p) /\ o.p.n # 0 /\ o.p.n < 4096 THEN Err(s, "mfile")
     ELSE IF w.e # "" THEN Err(s, w.e)
     ELSE IF ~IsDir(s, w.i) THEN Err(s, "notdir")
     ELSE IF ~May(s, w.i, 4) THEN Err(s, "acces")
     ELSE LET f == FreeFd(s, p, 0)
              r == Opened(s, p, w.i, "r", [NoFl EXCEPT !.n = TRUE])
          IN IF r.e # "" THEN r
             ELSE Ok([r.s EXCEPT !.proc[p].fds[f].ce = TRUE,
                        !.ofd[s.nxto].ds = TRUE,
                        !.proc[p].ds = Upd(@, o.d, [f |-> f, o |-> s.nxto, i |-> w.i, open |-> TRUE,
                                     left |-> DOMAIN s.ino[w.i].ents, ver |-> s.ino[w.i].ver])], <<>>)
DsFresh(s, p, k) ==   \* the stream still reads the directory it was opened on, unchanged
  LET d == s.proc[p].ds[k] IN /\ IsFd(s, p, d.f) /\ Fds(s, p)[d.f].o = d.o
                              /\ s.ino[d.i].ver = d.ver
Rewind(s, p, o) ==
  LET d == s.proc[p].ds[o.d]
  IN IF ~d.open THEN Err(s, "SysErr")
     ELSE Ok([s EXCEPT !.proc[p].ds[o.d].left = DOMAIN s.ino[d.i].ents, !.proc[p].ds[o.d].ver = s.ino[d.i].ver], <<>>)
Closedir(s, p, o) ==
  LET d == s.proc[p].ds[o.d]
      s1 == [s EXCEPT !.proc[p].ds[o.d].open = FALSE]
  IN IF ~d.open THEN Ok(s, <<>>)
     ELSE IF ~IsFd(s, p, d.f) THEN Err(s1, "badf")
     ELSE Ok(Drop(s1, p, d.f), <<>>)

(* ---- working directory ------------------------------------------------------------- *)
Chdir(s, p, o) ==
  LET w == Look(s, p, o.p, TRUE)
  IN IF w.e # "" THEN Err(s, w.e) ELSE IF ~IsDir(s, w.i) THEN Err(s, "notdir")
     ELSE IF ~May(s, w.i, 1) THEN Err(s, "acces")
     ELSE Ok([s EXCEPT !.proc[p].cwd = w.i], <<>>)
RECURSIVE PathOf(_, _)
PathOf(s, i) ==     \* sequence of names from the root
  IF i = 1 THEN <<>>
  ELSE LET u == s.ino[i].par
           nm == CHOOSE n \in DOMAIN s.ino[u].ents : s.ino[u].ents[n] = i
       IN Append(PathOf(s, u), nm)
RECURSIVE Live(_, _)
Live(s, i) == i = 1 \/ (~s.ino[i].dead /\ Live(s, s.ino[i].par))

RECURSIVE SumLen(_)
SumLen(q) == IF q = <<>> THEN 0 ELSE 1 + Len(Head(q)) + SumLen(Tail(q))
RECURSIVE Reach(_, _)
Reach(s, i) == May(s, i, 1) /\ (i = 1 \/ Reach(s, s.ino[i].par))      \* all directories on the way can be searched

(* ---- record locks ------------------------------------------------------------------- *)
(* a lock: [i, p, t, a, b] covers bytes a..b of inode i (b = Inf: to the end) *)
LRange(s, p, o) ==    \* [e, a, b]
  LET d == O(s, p, o.f)
      base == IF o.w = "set" THEN Zero ELSE IF o.w = "cur" THEN d.off ELSE s.ino[d.i].size
      st == OAdd(base, o.o)
  IN IF Neg(st) THEN [e |-> "inval", a |-> Zero, b |-> Zero]
     ELSE IF o.n = Zero THEN [e |-> "", a |-> st, b |-> Inf]
     ELSE IF Neg(o.n) THEN IF Neg(OAdd(st, o.n)) THEN [e |-> "inval", a |-> Zero, b |-> Zero]
                           ELSE [e |-> "", a |-> OAdd(st, o.n), b |-> OSub(st, One)]
     ELSE [e |-> "", a |-> st, b |-> OSub(OAdd(st, o.n), One)]
Overlap(k, a, b) == OLe(k.a, b) /\ OLe(a, k.b)
Conflicts(s, p, i, t, a, b) ==
  {k \in s.locks : k.i = i /\ k.p # p /\ Overlap(k, a, b) /\ (t = "w" \/ k.t = "w")}
(* remove a..b from the locks of p on i, then add type t there and merge *)
Cut(k, a, b) ==
  IF ~Overlap(k, a, b) THEN {k}
  ELSE (IF OLt(k.a, a) THEN {[k EXCEPT !.b = OSub(a, One)]} ELSE {}) \cup
       (IF OLt(b, k.b) THEN {[k EXCEPT !.a = OAdd(b, One)]} ELSE {})
RECURSIVE Merge(_, _)
Merge(ks, k) ==   \* add k to ks, joining locks of the same type that overlap or touch it
  LET adj == {j \in ks : j.i = k.i /\ j.p = k.p /\ j.t = k.t /\
                 (Overlap(j, k.a, k.b) \/ (j.b # Inf /\ OAdd(j.b, One) = k.a) \/ (k.b # Inf /\ OAdd(k.b, One) = j.a))}
  IN IF adj = {} THEN ks \cup {k}
     ELSE LET j == CHOOSE x \in adj : TRUE
          IN Merge(ks \ {j}, [k EXCEPT !.a = OMin(j.a, @), !.b = OMax(j.b, @)])
PutLock(s, p, i, t, a, b) ==
  LET mine == {k \in s.locks : k.i = i /\ k.p = p}
      rest == UNION {Cut(k, a, b) : k \in mine}
      new == IF t = "u" THEN rest ELSE Merge(rest, [i |-> i, p |-> p, t |-> t, a |-> a, b |-> b])
  IN [s EXCEPT !.locks = (@ \ mine) \cup new]
LockRes(k) == <<k.t, "set", k.a, IF k.b = Inf THEN Zero ELSE OAdd(OSub(k.b, k.a), One), "p" \o ToString(k.p)>>
Setlk(s, p, o) ==
  IF ~IsFd(s, p, o.f) THEN Err(s, "badf")
  ELSE LET d == O(s, p, o.f)
           g == LRange(s, p, o)
       IN IF g.e # "" THEN Err(s, g.e)
          ELSE IF (o.t = "r" /\ ~Reads(d.am)) \/ (o.t = "w" /\ ~Writes(d.am)) THEN Err(s, "badf")
          ELSE IF o.t # "u" /\ Conflicts(s, p, d.i, o.t, g.a, g.b) # {} THEN Err(s, "again")
          ELSE Ok(PutLock(s, p, d.i, o.t, g.a, g.b), <<o.t, o.w, o.o, o.n, "none">>)
(* getlk: the set of acceptable answers *)
Getlk(s, p, o) ==
  IF ~IsFd(s, p, o.f) THEN [e |-> "badf", rs |-> {}]
  ELSE LET d == O(s, p, o.f)
           g == LRange(s, p, o)
       IN IF o.t = "u" THEN [e |-> "inval", rs |-> {}]
          ELSE IF g.e # "" THEN [e |-> g.e, rs |-> {}]
          ELSE LET cs == Conflicts(s, p, d.i, o.t, g.a, g.b)
               IN [e |-> "", rs |-> IF cs = {} THEN {<<"u", o.w, o.o, o.n, "p">>} ELSE {LockRes(k) : k \in cs}]

(* ---- processes ------------------------------------------------------------------------ *)
(* helper process q starts as a copy of p (locks are not inherited; directory streams not used) *)
Fork(s, p, q) == [s EXCEPT !.proc = Upd(@, q, [s.proc[p] EXCEPT !.ds = <<>>])]
RECURSIVE DropAll(_, _)
DropAll(s, q) == IF DOMAIN s.proc[q].fds = {} THEN s
                 ELSE DropAll(Drop(s, q, CHOOSE f \in DOMAIN s.proc[q].fds : TRUE), q)
Exit(s, q) == LET s1 == DropAll(s, q) IN [s1 EXCEPT !.proc = Del(@, q)]

(* ---- every operation ------------------------------------------------------------------- *)
At(s, p, f) == s.ino[O(s, p, f).i]
FdOp(s, p, o, g(_, _)) == IF ~IsFd(s, p, o.f) THEN Err(s, "badf") ELSE g(s, O(s, p, o.f).i)

(* which of the patterns (the first 1 to 17 bytes of data stream 0) a string read matches *)
Matched(b) == IF Len(b) \in 1..17 /\ b = [j \in 1..Len(b) |-> Dat(0, j - 1)] THEN ToString(Len(b)) ELSE "-"
(* Accept(s, p, o, e, r): the set of next states (at most one) when o by p ended with error e and results r *)
Same(x, e, r) == IF x.e = "SEARCH" THEN (IF e # "" THEN {x.s} ELSE {})
                 ELSE IF x.e = "ISDIR" THEN (IF e \in {"isdir", "inval"} THEN {x.s} ELSE {})
                 ELSE IF x.e = "EITHER" THEN (IF e \in x.r \/ ("SEARCH" \in x.r /\ e # "") \/ "OUT" \in x.r THEN {[x.s EXCEPT !.out = @ \/ "OUT" \in x.r]} ELSE {})
                 ELSE IF x.e = "OUT" THEN {[x.s EXCEPT !.out = TRUE]}      \* left the modelled part of the file tree
                 ELSE IF x.e = AnyR \/ (x.e = e /\ (e # "" \/ x.r = r)) THEN {x.s} ELSE {}
Accept(s, p, o, e, r) ==
  IF s.out THEN {s} ELSE
  CASE o.op = "mkdir" -> Same(Mkdir(s, p, o), e, r)
    [] o.op = "mkfifo" -> Same(Mkfifo(s, p, o), e, r)
    [] o.op = "symlink" -> Same(Symlink(s, p, o), e, r)
    [] o.op = "link" -> Same(Link(s, p, o), e, r)
    [] o.op = "unlink" -> Same(Unlink(s, p, o), e, r)
    [] o.op = "rmdir" -> Same(Rmdir(s, p, o), e, r)
    [] o.op = "rename" -> Same(Rename(s, p, o), e, r)
    [] o.op = "readlink" -> Same(Readlink(s, p, o), e, r)
    [] o.op = "chmod" -> Same(Chmod(s, p, o), e, r)
    [] o.op = "chown" -> Same(Chown(s, p, o), e, r)
    [] o.op = "utime" -> Same(Utime(s, p, o), e, r)
    [] o.op = "fchmod" -> Same(LET g(t, i) == SetMode(t, i, o.m) IN FdOp(s, p, o, g), e, r)
    [] o.op = "fchown" -> Same(LET g(t, i) == SetOwn(t, i, o.u, o.g) IN FdOp(s, p, o, g), e, r)
    [] o.op \in {"stat", "lstat"} ->
         LET w == Look(s, p, o.p, o.op = "stat")
         IN IF w.e # "" THEN Same(Err(s, w.e), e, r)
            ELSE IF e # "" THEN {} ELSE LET z == StatRes(s, w.i, r) IN IF z.ok THEN {z.s} ELSE {}
    [] o.op = "fstat" ->
         IF ~IsFd(s, p, o.f) THEN Same(Err(s, "badf"), e, r)
         ELSE IF e # "" THEN {} ELSE LET z == StatRes(s, O(s, p, o.f).i, r) IN IF z.ok THEN {z.s} ELSE {}
    [] o.op = "access" ->
         LET w == Look(s, p, o.p, TRUE)
             ok == w.e = "" /\ \A k \in {4, 2, 1} : Bit(o.a, k) => May(s, w.i, k)
         IN Same(Ok(s, <<B01(ok)>>), e, r)
    [] o.op = "open" -> Same(Open(s, p, o), e, r)
    [] o.op = "ftruncate" -> Same(Ftruncate(s, p, o), e, r)
    [] o.op = "umask" -> Same(Ok([s EXCEPT !.proc[p].umask = MAnd(o.m, 511)], <<ToString(s.proc[p].umask)>>), e, r)
    [] o.op = "opendir" -> Same(Opendir(s, p, o), e, r)
    [] o.op = "readdir" ->
         IF o.d \notin DOMAIN s.proc[p].ds THEN {s}
         ELSE LET d == s.proc[p].ds[o.d] IN
         IF ~d.open THEN Same(Err(s, "SysErr"), e, r)
         ELSE IF ~DsFresh(s, p, o.d) THEN {[s EXCEPT !.proc[p].ds[o.d].ver = -1]}
         ELSE IF e # "" THEN {}
         ELSE IF r[1] = "0" THEN (IF d.left = {} THEN {s} ELSE {})
         ELSE IF r[2] \in d.left THEN {[s EXCEPT !.proc[p].ds[o.d].left = @ \ {r[2]}, !.ino[d.i].at = @ \cup {"now"}]} ELSE {}
    [] o.op = "readall" ->
         IF o.d \notin DOMAIN s.proc[p].ds THEN {s}
         ELSE LET d == s.proc[p].ds[o.d] IN
         IF ~d.open THEN Same(Err(s, "SysErr"), e, r)
         ELSE IF ~DsFresh(s, p, o.d) THEN {[s EXCEPT !.proc[p].ds[o.d].ver = -1]}
         ELSE IF e # "" THEN {}
         ELSE IF {r[k] : k \in DOMAIN r} = d.left /\ Len(r) = Cardinality(d.left)
         THEN {[s EXCEPT !.proc[p].ds[o.d].left = {}, !.ino[d.i].at = @ \cup {"now"}]} ELSE {}
    [] o.op = "rewinddir" -> IF o.d \notin DOMAIN s.proc[p].ds THEN {s} ELSE Same(Rewind(s, p, o), e, r)
    [] o.op = "closedir" -> IF o.d \notin DOMAIN s.proc[p].ds THEN {s} ELSE Same(Closedir(s, p, o), e, r)
    [] o.op = "chdir" -> Same(Chdir(s, p, o), e, r)
    [] o.op = "getcwd" ->
         LET c == s.proc[p].cwd
         IN IF ~Live(s, c) THEN Same(Err(s, "noent"), e, r)
            ELSE IF o.long THEN {s}          \* permission to search the parents may be needed
            ELSE Same(Ok(s, <<[abs |-> TRUE, c |-> PathOf(s, c)]>>), e, r)
    [] o.op = "isdir" -> Same(LET w == Look(s, p, o.p, TRUE) IN IF w.e # "" THEN Err(s, w.e) ELSE Ok(s, <<B01(s.ino[w.i].t = "d")>>), e, r)
    [] o.op = "islink" -> Same(LET w == Look(s, p, o.p, FALSE) IN IF w.e # "" THEN Err(s, w.e) ELSE Ok(s, <<B01(s.ino[w.i].t = "l")>>), e, r)
    [] o.op = "filesize" -> LET w == Look(s, p, o.p, TRUE)
         IN IF w.e # "" THEN Same(Err(s, w.e), e, r) ELSE IF s.ino[w.i].t = "d" THEN {s} ELSE Same(Ok(s, <<s.ino[w.i].size>>), e, r)
    [] o.op = "modtime" -> LET w == Look(s, p, o.p, TRUE)
         IN IF w.e # "" THEN Same(Err(s, w.e), e, r) ELSE IF e = "" /\ r[1] \in s.ino[w.i].mt THEN {s} ELSE {}
    [] o.op = "fullpath" ->
         LET w == Look(s, p, [o.p EXCEPT !.n = IF @ = 0 THEN 0 ELSE 1], TRUE)     \* worked out one step at a time
         IN IF ~Live(s, s.proc[p].cwd) \/ ~Reach(s, s.proc[p].cwd) THEN {[s EXCEPT !.out = TRUE]}   \* may not get back
            ELSE IF o.p.n >= 4096 /\ e # "" THEN {s}
            ELSE IF w.e = "loop" THEN {s}
            ELSE IF w.e # "" THEN (IF e # "" THEN {s} ELSE {})
            ELSE IF ~Live(s, s.proc[p].cwd) \/ ~Live(s, w.i) THEN {s}
            ELSE IF e = "nametoolong" /\ SumLen(PathOf(s, w.par)) > 3500 THEN {s}     \* beyond PATH_MAX
            ELSE IF IsDir(s, w.i) THEN (IF e = "acces" THEN {s} ELSE Same(Ok(s, <<[abs |-> TRUE, c |-> PathOf(s, w.i)]>>), e, r))
            ELSE IF w.lt # "norm" THEN {s}
            ELSE IF e = "acces" THEN {s}
            ELSE Same(Ok(s, <<[abs |-> TRUE, c |-> Append(PathOf(s, w.par), w.name)]>>), e, r)
    [] o.op = "samefile" ->
         LET v == Look(s, p, o.p, TRUE)
             w == Look(s, p, o.q, TRUE)
         IN Same(IF v.e # "" THEN Err(s, v.e) ELSE IF w.e # "" THEN Err(s, w.e) ELSE Ok(s, <<B01(v.i = w.i)>>), e, r)
    [] o.op = "pathconf" ->       \* most limits do not depend on the file, which then need not exist
         IF o.v = "" THEN Same(Err(s, "inval"), e, r)
         ELSE LET w == Look(s, p, o.p, TRUE)
              IN IF w.e # "" /\ e # "" THEN Same(Err(s, w.e), e, r) ELSE Same(Ok(s, <<o.v>>), e, r)
    [] o.op = "fpathconf" -> IF o.v = "" THEN Same(Err(s, "inval"), e, r)
         ELSE IF ~IsFd(s, p, o.f) /\ e # "" THEN Same(Err(s, "badf"), e, r) ELSE Same(Ok(s, <<o.v>>), e, r)
    [] o.op = "tmpname" ->    \* a new, empty file of its own in $TMPDIR (the root directory here), mode 600
         IF ~Live(s, s.tmp) \/ ~Reach(s, s.tmp) \/ ~May(s, s.tmp, 2) THEN {s}       \* falls back to another directory
         ELSE IF Full(s, p) THEN Same(Err(s, "mfile"), e, r)
         ELSE IF e # "" THEN {}
         ELSE IF r[1].abs /\ Len(r[1].c) = 1 + Len(PathOf(s, s.tmp)) /\ r[1].c[Len(r[1].c)] \notin DOMAIN s.ino[s.tmp].ents
                 /\ SubSeq(r[1].c, 1, Len(r[1].c) - 1) = PathOf(s, s.tmp)
              THEN {Create(s, s.tmp, r[1].c[Len(r[1].c)], NewInode(s, p, "r", 384))} ELSE {}
    [] o.op = "read" ->
         LET x == Input(s, p, o.f, o.n)
         IN IF o.n = 0 THEN Same(Ok(s, <<0, <<>>, "-">>), e, r)          \* nothing asked for: no system call is made
            ELSE IF x.e # "" THEN Same(Err(x.s, x.e), e, r)
            ELSE IF e = "" /\ r = <<Len(x.b), x.b, Matched(x.b)>> THEN {x.s} ELSE {}
    [] o.op = "readarr" ->
         LET x == Input(s, p, o.f, o.k)
         IN IF x.e # "" THEN Same(Err(x.s, x.e), e, r)
            ELSE IF e = "" /\ r = <<Len(x.b), [j \in 1..o.n |-> IF j > o.i /\ j <= o.i + Len(x.b) THEN x.b[j - o.i] ELSE 238]>>
                 THEN {x.s} ELSE {}
    [] o.op = "write" /\ PipeFull(s, p, o) ->
         \* a non-blocking pipe takes what fits (requests up to a page all or nothing), and says how much that was
         IF e = "again" THEN IF s.ino[O(s, p, o.f).i].pipe # <<>> THEN {s} ELSE {}
         ELSE IF e # "" THEN {}
         ELSE IF r[1] < 1 \/ r[1] > o.k \/ (o.k <= 4096 /\ r[1] # o.k) THEN {}
         ELSE {Output(s, p, o.f, o.seed, o.i, r[1]).s}
    [] o.op = "write" ->
         LET x == Output(s, p, o.f, o.seed, o.i, o.k)
         IN IF x.e # "" THEN Same(Err(x.s, x.e), e, r) ELSE IF e = "" /\ r = <<x.n>> THEN {x.s} ELSE {}
    [] o.op = "lseek" -> Same(Lseek(s, p, o), e, r)
    [] o.op = "close" -> Same(Close(s, p, o), e, r)
    [] o.op = "dup" -> Same(Dup(s, p, o), e, r)
    [] o.op = "dup2" -> Same(Dup2(s, p, o), e, r)
    [] o.op = "dupfd" -> Same(DupFd(s, p, o), e, r)
    [] o.op = "pipe" -> Same(Pipe(s, p, o), e, r)
    [] o.op = "getfd" -> Same(Getfd(s, p, o), e, r)
    [] o.op = "setfd" -> Same(Setfd(s, p, o), e, r)
    [] o.op = "getfl" -> Same(Getfl(s, p, o), e, r)
    [] o.op = "setfl" -> Same(Setfl(s, p, o), e, r)
    [] o.op = "fsync" -> Same(Fsync(s, p, o), e, r)
    [] o.op = "setlk" -> Same(Setlk(s, p, o), e, r)
    [] o.op = "getlk" -> LET x == Getlk(s, p, o)
         IN IF x.e # "" THEN Same(Err(s, x.e), e, r) ELSE IF e = "" /\ r \in x.rs THEN {s} ELSE {}
    [] o.op = "fork" -> IF e = "" THEN {Fork(s, p, o.q)} ELSE {}
    [] o.op = "exit" -> IF e = "" THEN {Exit(s, o.q)} ELSE {}
    [] o.op = "nop" -> IF e = "" THEN {s} ELSE {}

Brief(s) == [ino |-> [i \in DOMAIN s.ino |-> <<s.ino[i].t, s.ino[i].mode, s.ino[i].nl, s.ino[i].size, s.ino[i].ents, s.ino[i].tgt.raw, s.ino[i].at, s.ino[i].mt, s.ino[i].dead>>],
             ofd |-> [k \in DOMAIN s.ofd |-> <<s.ofd[k].i, s.ofd[k].am, s.ofd[k].off, s.ofd[k].app, s.ofd[k].nb>>], proc |-> s.proc, locks |-> s.locks]
(* ---- sanity of the specification itself (checked on the small model) -------------------- *)
EntCount(s, i) == Cardinality({<<d, n>> \in {<<d, n>> \in (DOMAIN s.ino) \X UNION {DOMAIN s.ino[d].ents : d \in DOMAIN s.ino} :
                       n \in DOMAIN s.ino[d].ents} : s.ino[d].ents[n] = i})
WellFormed(s) ==
  /\ \A i \in DOMAIN s.ino : \A n \in DOMAIN s.ino[i].ents : s.ino[i].ents[n] \in DOMAIN s.ino
  /\ \A i \in DOMAIN s.ino : s.ino[i].t # "d" => s.ino[i].ents = <<>>
  /\ \A i \in DOMAIN s.ino : s.ino[i].dead => s.ino[i].ents = <<>>
  \* a live directory other than the root has exactly one name, in its parent
  /\ \A i \in DOMAIN s.ino : (s.ino[i].t = "d" /\ i # 1 /\ ~s.ino[i].dead) =>
        (EntCount(s, i) = 1 /\ \E n \in DOMAIN s.ino[s.ino[i].par].ents : s.ino[s.ino[i].par].ents[n] = i)
  \* link counts are the numbers of names
  /\ \A i \in DOMAIN s.ino : s.ino[i].t \in {"r", "l"} => s.ino[i].nl = EntCount(s, i)
  \* no cycles
  /\ \A i \in DOMAIN s.ino : (s.ino[i].t = "d" /\ ~s.ino[i].dead) => Anc(s, 1, i)
  /\ \A q \in DOMAIN s.proc : \A f \in DOMAIN s.proc[q].fds : s.proc[q].fds[f].o \in DOMAIN s.ofd /\ f >= 3 /\ f < s.proc[q].lim
  \* locks of different processes do not conflict; locks of one process do not overlap
  /\ \A k, j \in s.locks : (k # j /\ k.i = j.i /\ Overlap(k, j.a, j.b)) => (k.p # j.p /\ k.t = "r" /\ j.t = "r")
=============================================================================
