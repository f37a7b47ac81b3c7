From 3602a1546aacc2459d46d76b361ea59ca3f517aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:22 +0000
Subject: [PATCH 01/36] fix: ListMapFn and IntListMap all/alli returned false
 on every map

---
 smlnj-lib/Util/int-list-map.sml | 4 ++--
 smlnj-lib/Util/list-map-fn.sml  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/smlnj-lib/Util/int-list-map.sml b/smlnj-lib/Util/int-list-map.sml
index 2ce7928..403e3a2 100644
--- a/smlnj-lib/Util/int-list-map.sml
+++ b/smlnj-lib/Util/int-list-map.sml
@@ -309,13 +309,13 @@ structure IntListMap :> ORD_MAP where type Key.ord_key = Int.int =
    * are checked in key order.
    *)
     fun all pred = let
-	  fun all' [] = false
+	  fun all' [] = true
 	    | all' ((_, x)::r) = pred x andalso all' r
 	  in
 	    all'
 	  end
     fun alli pred = let
-	  fun all' [] = false
+	  fun all' [] = true
 	    | all' (arg::r) = pred arg andalso all' r
 	  in
 	    all'
diff --git a/smlnj-lib/Util/list-map-fn.sml b/smlnj-lib/Util/list-map-fn.sml
index 62de987..b2540d2 100644
--- a/smlnj-lib/Util/list-map-fn.sml
+++ b/smlnj-lib/Util/list-map-fn.sml
@@ -316,13 +316,13 @@ functor ListMapFn (K : ORD_KEY) :> ORD_MAP where type Key.ord_key = K.ord_key =
    * are checked in key order.
    *)
     fun all pred = let
-	  fun all' [] = false
+	  fun all' [] = true
 	    | all' ((_, x)::r) = pred x andalso all' r
 	  in
 	    all'
 	  end
     fun alli pred = let
-	  fun all' [] = false
+	  fun all' [] = true
 	    | all' (arg::r) = pred arg andalso all' r
 	  in
 	    all'
-- 
2.43.0


From 8681458260b3867944b84b55072fcf6aa82084d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:50 +0000
Subject: [PATCH 02/36] fix: IntBinaryMap.insertWith ignored the combining
 function

---
 smlnj-lib/Util/int-binary-map.sml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smlnj-lib/Util/int-binary-map.sml b/smlnj-lib/Util/int-binary-map.sml
index d718218..2525077 100644
--- a/smlnj-lib/Util/int-binary-map.sml
+++ b/smlnj-lib/Util/int-binary-map.sml
@@ -178,7 +178,7 @@ structure IntBinaryMap :> ORD_MAP where type Key.ord_key = Int.int =
 		else let
 		  val v' = comb(x, value, v)
 		  in
-		    T{key=x,value=v,left=left,right=right,cnt=cnt}
+		    T{key=x,value=v',left=left,right=right,cnt=cnt}
 		  end
 	  in
 	    insert m
-- 
2.43.0


From ee60f45b800bc950ebe215c01c8efbc68ac6355a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:38 +0000
Subject: [PATCH 03/36] fix: IntListMap.findAndRemove raised NotFound for keys
 above the largest one

---
 smlnj-lib/Util/int-list-map.sml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smlnj-lib/Util/int-list-map.sml b/smlnj-lib/Util/int-list-map.sml
index 403e3a2..da71dc5 100644
--- a/smlnj-lib/Util/int-list-map.sml
+++ b/smlnj-lib/Util/int-list-map.sml
@@ -103,7 +103,7 @@ structure IntListMap :> ORD_MAP where type Key.ord_key = Int.int =
 	  end
 
     fun findAndRemove (l, key) = let
-	  fun f (_, []) = raise LibBase.NotFound
+	  fun f (_, []) = NONE
 	    | f (prefix, (elem as (key', x)) :: r) =
                   if (key' < key) then f(elem :: prefix, r)
                   else if (key' = key) then SOME(List.revAppend(prefix, r), x)
-- 
2.43.0


From 515242694e7ab109ad8efa959ea67ab433d2f2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:25 +0000
Subject: [PATCH 04/36] fix: a masked signal that was already received was
 passed to its handler

Signals received before they were masked (and GC signals, which the OS cannot
mask) were still handed to the ML handler while masked, which ended the process
with "inconsistent state HANDLER(mask=1<>0)".  They now stay pending until they
are unmasked.
---
 base/runtime/include/vproc-state.h  |  4 +++-
 base/runtime/kernel/ml-state.c      |  1 +
 base/runtime/mach-dep/signal-util.c |  6 +++++-
 base/runtime/mach-dep/unix-signal.c | 29 ++++++++++++++++++++++++++---
 4 files changed, 35 insertions(+), 5 deletions(-)

diff --git a/base/runtime/include/vproc-state.h b/base/runtime/include/vproc-state.h
index 218eb02..e054572 100644
--- a/base/runtime/include/vproc-state.h
+++ b/base/runtime/include/vproc-state.h
@@ -44,12 +44,14 @@ struct vproc_state {
     Word_t	vp_inMLFlag;		/* True while executing ML code */
     Word_t	vp_handlerPending;	/* Is there a signal handler pending? */
     Word_t	vp_inSigHandler;	/* Is an ML signal handler active? */
-    sig_count_t	vp_totalSigCount;	/* summary count for all signals */
+    sig_count_t	vp_totalSigCount;	/* summary count for all unmasked signals */
     sig_count_t	vp_sigCounts[SIGMAP_SZ]; /* counts of signals. */
     int		vp_sigCode;		/* the code and count of the next */
     int		vp_sigCount;		/* signal to handle. */
     int		vp_nextPendingSig;	/* the index in sigCounts of the next */
 					/* signal to handle. */
+    char	vp_sigMasked[SIGMAP_SZ]; /* which signals ML has masked; these stay */
+					/* pending until they are unmasked */
     int		vp_gcSigState;		/* the state of the GC signal handler */
     int         vp_gcSigThreshold;      /* the generation threshold for generating a */
                                         /* GC signal (0 => all, 1 => gen 1, ...) */
diff --git a/base/runtime/kernel/ml-state.c b/base/runtime/kernel/ml-state.c
index be52d0e..42629db 100644
--- a/base/runtime/kernel/ml-state.c
+++ b/base/runtime/kernel/ml-state.c
@@ -121,6 +121,7 @@ PVT void InitVProcState (vproc_state_t *vsp)
     vsp->vp_gcTime			= NEW_OBJ(Time_t);
 
     for (i = 0;  i < SIGMAP_SZ;  i++) {
+	vsp->vp_sigMasked[i] = 0;
 	vsp->vp_sigCounts[i].nReceived = 0;
 	vsp->vp_sigCounts[i].nHandled = 0;
     }
diff --git a/base/runtime/mach-dep/signal-util.c b/base/runtime/mach-dep/signal-util.c
index 8c9f7f4..26d9a55 100644
--- a/base/runtime/mach-dep/signal-util.c
+++ b/base/runtime/mach-dep/signal-util.c
@@ -36,6 +36,10 @@ void GCSignal (vproc_state_t *vsp, int nGen)
     }
 
     vsp->vp_sigCounts[RUNSIG_GC].nReceived++;
+    if (vsp->vp_sigMasked[RUNSIG_GC]) {
+      /* it stays pending until it is unmasked (see SetSignalMask) */
+        return;
+    }
     vsp->vp_totalSigCount.nReceived++;
 
     if (vsp->vp_inMLFlag && (! vsp->vp_handlerPending) && (! vsp->vp_inSigHandler)) {
@@ -64,7 +68,7 @@ void ChooseSignal (vproc_state_t *vsp)
 	i++;
 	if (i == SIGMAP_SZ) i = MIN_SYSTEM_SIG;
 	delta = vsp->vp_sigCounts[i].nReceived - vsp->vp_sigCounts[i].nHandled;
-    } while (delta == 0);
+    } while ((delta == 0) || vsp->vp_sigMasked[i]);
     vsp->vp_nextPendingSig = i;
 
   /* record the signal and count */
diff --git a/base/runtime/mach-dep/unix-signal.c b/base/runtime/mach-dep/unix-signal.c
index 9607f5a..ac8278e 100644
--- a/base/runtime/mach-dep/unix-signal.c
+++ b/base/runtime/mach-dep/unix-signal.c
@@ -6,6 +6,7 @@
  * Unix specific code to support ML signals.
  */
 
+#include <string.h>
 #include "ml-unixdep.h"
 #include "signal-sysdep.h"
 #include "ml-base.h"
@@ -215,10 +216,13 @@ sig, vsp->vp_inMLFlag, vsp->vp_handlerPending, vsp->vp_inSigHandler);
  */
 void SetSignalMask (ml_val_t sigList)
 {
-    SigMask_t	mask;
-    int		i;
+    vproc_state_t *vsp = SELF_VPROC;
+    SigMask_t	mask, all;
+    int		i, nPending;
+    char	masked[SIGMAP_SZ];
 
     SIG_ClearMask(mask);
+    memset (masked, 0, sizeof(masked));
 
     if (sigList != OPTION_NONE) {
 	sigList = OPTION_get(sigList);
@@ -227,17 +231,36 @@ void SetSignalMask (ml_val_t sigList)
 	    for (i = 0;  i < NUM_SYSTEM_SIGS;  i++) {
 		SIG_AddToMask(mask, SigInfo[i].id);
 	    }
+	    memset (masked, 1, sizeof(masked));
 	}
 	else {
 	    while (sigList != LIST_nil) {
 		ml_val_t	car = LIST_hd(sigList);
 		int		sig = REC_SELINT(car, 0);
-		SIG_AddToMask(mask, sig);
+		if (IS_SYSTEM_SIG(sig))
+		    SIG_AddToMask(mask, sig);
+		masked[sig] = 1;
 		sigList = LIST_tl(sigList);
 	    }
 	}
     }
 
+  /* Signals that were received before they were masked, but that have not been
+   * passed to the ML handler yet, must stay pending until they are unmasked.
+   */
+    SIG_ClearMask(all);
+    for (i = 0;  i < NUM_SYSTEM_SIGS;  i++) {
+	SIG_AddToMask(all, SigInfo[i].id);
+    }
+    SIG_SetMask(all);
+    for (i = MIN_SYSTEM_SIG, nPending = 0;  i < SIGMAP_SZ;  i++) {
+	vsp->vp_sigMasked[i] = masked[i];
+	if (! masked[i])
+	    nPending += vsp->vp_sigCounts[i].nReceived - vsp->vp_sigCounts[i].nHandled;
+    }
+    vsp->vp_totalSigCount.nReceived = vsp->vp_totalSigCount.nHandled + nPending;
+    vsp->vp_handlerPending = FALSE;  /* set again on return to ML, if necessary */
+
     SIG_SetMask(mask);
 
 } /* end of SetSignalMask */
-- 
2.43.0


From 615403ce39c2d72d317808b7abcc51c29bb0a9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:46 +0000
Subject: [PATCH 05/36] fix: CML wrapHandler handlers of one choice branch
 caught exceptions of others

When a synchronization blocked, the events of a choice were logged inside the
dynamic extent of the handlers installed by the events logged before them, so an
exception raised by another branch's wrapper, or by the thread after the
synchronization, was passed to the wrong handler.
---
 cml/src/core-cml/event.sml | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/cml/src/core-cml/event.sml b/cml/src/core-cml/event.sml
index 7b67a07..48dab86 100644
--- a/cml/src/core-cml/event.sml
+++ b/cml/src/core-cml/event.sml
@@ -279,12 +279,16 @@ fun sayGrp (msg, eg) = let
 		val escape = escape k
 		val (transId, setFlg) = mkFlg()
 		fun log [] = S.atomicDispatch ()
-		  | log (blockFn :: r) =
-		      escape (blockFn {
+		  | log (blockFn :: r) = (
+		    (* the remaining events are logged outside the scope of any
+		     * exception handlers that are installed by blockFn.
+		     *)
+		      callcc (fn nextK => escape (blockFn {
 			  transId = transId,
 			  cleanUp = setFlg,
-			  next = fn () => log r
-			})
+			  next = throw nextK
+			}));
+		      log r)
 		in
 		  log blockFns; error "[log]"
 		end)
@@ -388,12 +392,13 @@ fun sayGrp (msg, eg) = let
 		fun setFlg flg () = (
 		      transId := R.CANCEL; flg := true; chkCVars())
 		fun log [] = S.atomicDispatch ()
-		  | log ((blockFn, flg) :: r) =
-		      escape (blockFn {
+		  | log ((blockFn, flg) :: r) = (
+		      callcc (fn nextK => escape (blockFn {
 			  transId = transId,
 			  cleanUp = setFlg flg,
-			  next = fn () => log r
-			})
+			  next = throw nextK
+			}));
+		      log r)
 		in
 		  log blockFns; error "[log]"
 		end)
-- 
2.43.0


From bcf2a35f76512fee76a5c8d28f86b25a84496fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:43 +0000
Subject: [PATCH 06/36] fix: CML barriers could be used only once and ignored
 resignations

An enrollment stayed marked as waiting after a barrier synchronization, so its
next wait raised Fail; resign did not lower the number of enrolled threads, so the
remaining threads waited forever; and resigning twice left the atomic region open.
---
 cml/src/core-cml/barrier.sml | 58 ++++++++++++++++++++++++------------
 1 file changed, 39 insertions(+), 19 deletions(-)

diff --git a/cml/src/core-cml/barrier.sml b/cml/src/core-cml/barrier.sml
index 3c02d81..744499c 100644
--- a/cml/src/core-cml/barrier.sml
+++ b/cml/src/core-cml/barrier.sml
@@ -56,44 +56,64 @@ structure Barrier :> BARRIER =
     fun return (RAISE exn) = raise exn
       | return (VALUE x) = x
 
+  (* complete a barrier synchronization: update the global state and wake up the
+   * waiting threads.  This must be called from an atomic region.
+   *)
+    fun release (BAR{state, update, nWaiting, waiting, ...}) = let
+	  val result = let
+		val x = update(!state)
+		in
+		  state := x;
+		  VALUE x
+		end handle exn => RAISE exn
+	  in
+	    List.app (wakeupThd result) (List.rev(!waiting));
+	    nWaiting := 0;
+	    waiting := [];
+	    result
+	  end
+
   (* synchronize on a barrier *)
-    fun wait (ENROLL{bar=BAR{state, update, nEnrolled, nWaiting, waiting}, sts}) = (
+    fun wait (ENROLL{bar as BAR{nEnrolled, nWaiting, waiting, ...}, sts}) = (
 	  S.atomicBegin();
 	  case !sts
 	   of ENROLLED => (
-		sts := WAITING;
 		nWaiting := !nWaiting+1;
 		if (!nWaiting = !nEnrolled)
 		  then let (* all threads are at the barrier, so we can proceed *)
-		    val result = let
-			  val x = update(!state)
-			  in
-			    state := x;
-			    VALUE x
-			  end handle exn => RAISE exn
+		    val result = release bar
 		    in
-		      List.app (wakeupThd result) (!waiting);
-		      nWaiting := 0;
-		      waiting := [];
 		      S.atomicEnd ();
 		      return result
 		    end
-		  else (
-		    sts := WAITING;
-		    return (callcc (fn resumeK => (
-		      waiting := (S.getCurThread(), resumeK) :: !waiting;
-		      S.atomicDispatch())))))
+		  else let
+		    val _ = (sts := WAITING)
+		    val result = callcc (fn resumeK => (
+			  waiting := (S.getCurThread(), resumeK) :: !waiting;
+			  S.atomicDispatch()))
+		    in
+		      sts := ENROLLED;
+		      return result
+		    end)
 	    | WAITING => (S.atomicEnd(); raise Fail "multiple barrier waits")
 	    | RESIGNED => (S.atomicEnd(); raise Fail "barrier wait after resignation")
 	  (* end case *))
 
   (* resign from an enrolled barrier *)
-    fun resign (ENROLL{bar, sts}) = (
+    fun resign (ENROLL{bar as BAR{nEnrolled, nWaiting, ...}, sts}) = (
 	  S.atomicBegin();
 	  case !sts
-	   of RESIGNED => () (* ignore multiple resignations *)
+	   of RESIGNED => S.atomicEnd() (* ignore multiple resignations *)
 	    | WAITING => (S.atomicEnd(); raise Fail "resign while waiting")
-	    | ENROLLED => (sts := RESIGNED; S.atomicEnd()))
+	    | ENROLLED => (
+		sts := RESIGNED;
+		nEnrolled := !nEnrolled - 1;
+	      (* the remaining threads may all be waiting already *)
+		if (!nWaiting > 0) andalso (!nWaiting = !nEnrolled)
+		  then ignore (release bar)
+		  else ();
+		S.atomicEnd())
+	  (* end case *))
 
   (* get the current state of the barrier *)
     fun value (ENROLL{bar=BAR{state, ...}, ...}) = !state
-- 
2.43.0


From 9327958db604af2dcf3e89fc21fbc5b43b2961f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:25 +0000
Subject: [PATCH 07/36] fix: GC code was shared between functions with
 different live registers

sameCallingConvention compared root lists with ListPair.all, which ignores
the excess of the longer list, so a function with a live floating-point (or
further boxed) argument could use GC entry code that does not save it.
---
 base/compiler/CodeGen/cpscompile/invokegc.sml | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/base/compiler/CodeGen/cpscompile/invokegc.sml b/base/compiler/CodeGen/cpscompile/invokegc.sml
index 699a7a6..abc979b 100644
--- a/base/compiler/CodeGen/cpscompile/invokegc.sml
+++ b/base/compiler/CodeGen/cpscompile/invokegc.sml
@@ -712,10 +712,10 @@ functor InvokeGC (
 	    | eqF (T.FLOAD(_,ea1,_), T.FLOAD(_,ea2,_)) = eqEA(ea1, ea2)
 	    | eqF _ = false
 	  in
-	    ListPair.all eqR (b1, b2)
+	    ListPair.allEq eqR (b1, b2)
 	      andalso eqR(ret1, ret2)
-	      andalso ListPair.all eqR (i1, i2)
-	      andalso ListPair.all eqF (f1, f2)
+	      andalso ListPair.allEq eqR (i1, i2)
+	      andalso ListPair.allEq eqF (f1, f2)
 	  end
       | sameCallingConvention _ = false
 
-- 
2.43.0


From e5032aa5fd88a9a2092cfe0ef835ba4a2a96a5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:47 +0000
Subject: [PATCH 08/36] fix: Posix.IO.lseek must return after raising SysErr

---
 base/runtime/c-libs/posix-io/lseek.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/runtime/c-libs/posix-io/lseek.c b/base/runtime/c-libs/posix-io/lseek.c
index 0b14853..4fbd313 100644
--- a/base/runtime/c-libs/posix-io/lseek.c
+++ b/base/runtime/c-libs/posix-io/lseek.c
@@ -28,7 +28,7 @@ ml_val_t _ml_P_IO_lseek (ml_state_t *msp, ml_val_t arg)
     pos = lseek(fd, offset, whence);
 
     if (pos < 0) {
-	RAISE_SYSERR (msp, (int)pos);
+	return RAISE_SYSERR (msp, (int)pos);
     }
 
     INT64_ALLOC(msp, box_pos, pos);
-- 
2.43.0


From 31e9962f5fb38423baf20fb1745bf35fa8f6e753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:47 +0000
Subject: [PATCH 09/36] fix: Posix.IO.getfl must ask for the file status flags
 (F_GETFL)

---
 base/runtime/c-libs/posix-io/fcntl_gfl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/runtime/c-libs/posix-io/fcntl_gfl.c b/base/runtime/c-libs/posix-io/fcntl_gfl.c
index 4d75c7c..4f62fea 100644
--- a/base/runtime/c-libs/posix-io/fcntl_gfl.c
+++ b/base/runtime/c-libs/posix-io/fcntl_gfl.c
@@ -20,7 +20,7 @@ ml_val_t _ml_P_IO_fcntl_gfl (ml_state_t *msp, ml_val_t arg)
     int             flag;
     ml_val_t        flags, mode, obj;
 
-    flag = fcntl(fd, F_GETFD);
+    flag = fcntl(fd, F_GETFL);
 
     if (flag < 0)
 	return RAISE_SYSERR(msp, flag);
-- 
2.43.0


From f4bb37834be77d280812f33dddff7761f42f4bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:47 +0000
Subject: [PATCH 10/36] fix: descriptors of records built by fcntl_l, tcgetattr
 and the Date functions

---
 base/runtime/c-libs/posix-io/fcntl_l.c      | 2 +-
 base/runtime/c-libs/posix-tty/tcgetattr.c   | 2 +-
 base/runtime/c-libs/smlnj-date/unix-date.c  | 2 +-
 base/runtime/c-libs/smlnj-date/win32-date.c | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/base/runtime/c-libs/posix-io/fcntl_l.c b/base/runtime/c-libs/posix-io/fcntl_l.c
index 96ff7d6..8567513 100644
--- a/base/runtime/c-libs/posix-io/fcntl_l.c
+++ b/base/runtime/c-libs/posix-io/fcntl_l.c
@@ -45,7 +45,7 @@ ml_val_t _ml_P_IO_fcntl_l (ml_state_t *msp, ml_val_t arg)
     INT64_ALLOC(msp, start, flock.l_start)
     INT64_ALLOC(msp, length, flock.l_len)
 
-    ML_AllocWrite (msp, 0, MAKE_DESC (DTAG_record, 5));
+    ML_AllocWrite (msp, 0, MAKE_DESC (5, DTAG_record));
     ML_AllocWrite (msp, 1, INT_CtoML(flock.l_type));
     ML_AllocWrite (msp, 2, INT_CtoML(flock.l_whence));
     ML_AllocWrite (msp, 3, start);
diff --git a/base/runtime/c-libs/posix-tty/tcgetattr.c b/base/runtime/c-libs/posix-tty/tcgetattr.c
index 371df11..6e47472 100644
--- a/base/runtime/c-libs/posix-tty/tcgetattr.c
+++ b/base/runtime/c-libs/posix-tty/tcgetattr.c
@@ -45,7 +45,7 @@ ml_val_t _ml_P_TTY_tcgetattr (ml_state_t *msp, ml_val_t arg)
     SYSWORD_ALLOC (msp, ispeed, cfgetispeed (&data));
     SYSWORD_ALLOC (msp, ospeed, cfgetospeed (&data));
 
-    ML_AllocWrite (msp, 0, MAKE_DESC(DTAG_record, 7));
+    ML_AllocWrite (msp, 0, MAKE_DESC(7, DTAG_record));
     ML_AllocWrite (msp, 1, iflag);
     ML_AllocWrite (msp, 2, oflag);
     ML_AllocWrite (msp, 3, cflag);
diff --git a/base/runtime/c-libs/smlnj-date/unix-date.c b/base/runtime/c-libs/smlnj-date/unix-date.c
index e6cafad..1930568 100644
--- a/base/runtime/c-libs/smlnj-date/unix-date.c
+++ b/base/runtime/c-libs/smlnj-date/unix-date.c
@@ -12,7 +12,7 @@
 ml_val_t _ml_alloc_tm (ml_state_t *msp, const struct tm *tm)
 {
 
-    ML_AllocWrite(msp, 0, MAKE_DESC(DTAG_record, 9));
+    ML_AllocWrite(msp, 0, MAKE_DESC(9, DTAG_record));
     ML_AllocWrite(msp, 1, INT_CtoML(tm->tm_sec));
     ML_AllocWrite(msp, 2, INT_CtoML(tm->tm_min));
     ML_AllocWrite(msp, 3, INT_CtoML(tm->tm_hour));
diff --git a/base/runtime/c-libs/smlnj-date/win32-date.c b/base/runtime/c-libs/smlnj-date/win32-date.c
index b6edb30..f545a64 100644
--- a/base/runtime/c-libs/smlnj-date/win32-date.c
+++ b/base/runtime/c-libs/smlnj-date/win32-date.c
@@ -68,7 +68,7 @@ int _ml_year_day (const SYSTEMTIME *st)
 ml_val_t _ml_alloc_tm (ml_state_t *msp, const SYSTEMTIME *st, BOOL isDST)
 {
   /* The SYSTEMTIME struct has everything that we need except the day of the year */
-    ML_AllocWrite(msp, 0, MAKE_DESC(DTAG_record, 9));
+    ML_AllocWrite(msp, 0, MAKE_DESC(9, DTAG_record));
     ML_AllocWrite(msp, 1, INT_CtoML(st->wSecond));
     ML_AllocWrite(msp, 2, INT_CtoML(st->wMinute));
     ML_AllocWrite(msp, 3, INT_CtoML(st->wHour));
-- 
2.43.0


From 2b46e0186c3e8f650b14e10bf4f9f2479c0eb781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:47 +0000
Subject: [PATCH 11/36] fix: OS.IO.poll with descriptors that are ready in
 several ways or listed twice (select version)

---
 base/runtime/c-libs/posix-os/poll.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/base/runtime/c-libs/posix-os/poll.c b/base/runtime/c-libs/posix-os/poll.c
index e207621..ea112bc 100644
--- a/base/runtime/c-libs/posix-os/poll.c
+++ b/base/runtime/c-libs/posix-os/poll.c
@@ -142,12 +142,13 @@ PVT ml_val_t ML_Poll (ml_state_t *msp, ml_val_t pollList, struct timeval *timeou
 {
     fd_set	rset, wset, eset;
     fd_set	*rfds, *wfds, *efds;
-    int		maxFD, sts, fd, flag;
+    int		maxFD, nItems, sts, fd, flag;
     ml_val_t	l, item;
 
     rfds = wfds = efds = NIL(fd_set *);
-    maxFD = 0;
+    maxFD = nItems = 0;
     for (l = pollList;  l != LIST_nil;  l = LIST_tl(l)) {
+	nItems++;
 	item	= LIST_hd(l);
 	fd	= REC_SELINT(item, 0);
 	flag	= REC_SELINT(item, 1);
@@ -182,7 +183,7 @@ PVT ml_val_t ML_Poll (ml_state_t *msp, ml_val_t pollList, struct timeval *timeou
     else if (sts == 0)
 	return LIST_nil;
     else {
-	ml_val_t	*resVec = NEW_VEC(ml_val_t, sts);
+	ml_val_t	*resVec = NEW_VEC(ml_val_t, nItems);
 	int		i, resFlag;
 
 	for (i = 0, l = pollList;  l != LIST_nil;  l = LIST_tl(l)) {
@@ -202,9 +203,7 @@ PVT ml_val_t ML_Poll (ml_state_t *msp, ml_val_t pollList, struct timeval *timeou
 	    }
 	}
 
-	ASSERT(i == sts);
-
-	for (i = sts-1, l = LIST_nil;  i >= 0;  i--) {
+	for (i--, l = LIST_nil;  i >= 0;  i--) {
 	    item = resVec[i];
 	    LIST_cons (msp, l, item, l);
 	}
-- 
2.43.0


From 59c2b9e16ab4d87334be80f5f4fed989e187280e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:19 +0000
Subject: [PATCH 12/36] fix: exec functions must not collect garbage while
 holding the argument list; exece must make room for the environment

---
 base/runtime/c-libs/posix-process/exec.c  | 13 +++++++++++--
 base/runtime/c-libs/posix-process/exece.c | 19 ++++++++++++++++---
 base/runtime/c-libs/posix-process/execp.c | 13 +++++++++++--
 3 files changed, 38 insertions(+), 7 deletions(-)

diff --git a/base/runtime/c-libs/posix-process/exec.c b/base/runtime/c-libs/posix-process/exec.c
index fa2bb68..3b0f7a4 100644
--- a/base/runtime/c-libs/posix-process/exec.c
+++ b/base/runtime/c-libs/posix-process/exec.c
@@ -9,6 +9,7 @@
 #include "ml-c.h"
 #include "cfun-proto-list.h"
 #include <unistd.h>
+#include <errno.h>
 
 /* _ml_P_Process_exec : string * string list -> 'a
  *
@@ -16,7 +17,7 @@
  */
 ml_val_t _ml_P_Process_exec (ml_state_t *msp, ml_val_t arg)
 {
-    int             sts;
+    int             sts, err;
     ml_val_t        path = REC_SEL(arg, 0);
     ml_val_t        arglst = REC_SEL(arg, 1);
     char            **argv;
@@ -28,7 +29,10 @@ ml_val_t _ml_P_Process_exec (ml_state_t *msp, ml_val_t arg)
         nArgs++;
     }
 
-    cp = PTR_MLtoC(char *, ML_AllocRaw(msp, BYTES_TO_WORDS((nArgs + 1) * sizeof(char *))));
+  /* note that the vector is not allocated in the ML heap, since that might cause a GC */
+    cp = NEW_VEC(char *, nArgs + 1);
+    if (cp == NIL(char **))
+	return RAISE_ERROR(msp, "no malloc memory");
     argv = cp;
     for (p = arglst;  p != LIST_nil;  p = LIST_tl(p)) {
         *cp++ = STR_MLtoC(LIST_hd(p));
@@ -36,6 +40,11 @@ ml_val_t _ml_P_Process_exec (ml_state_t *msp, ml_val_t arg)
     *cp++ = 0;  /* terminate the argv[] */
 
     sts = execv(STR_MLtoC(path), argv);
+
+  /* the exec has failed */
+    err = errno;
+    FREE (argv);
+    errno = err;
     CHK_RETURN (msp, sts)
 
 } /* end of _ml_P_Process_exec */
diff --git a/base/runtime/c-libs/posix-process/exece.c b/base/runtime/c-libs/posix-process/exece.c
index fb72af0..d65f561 100644
--- a/base/runtime/c-libs/posix-process/exece.c
+++ b/base/runtime/c-libs/posix-process/exece.c
@@ -9,6 +9,7 @@
 #include "ml-c.h"
 #include "cfun-proto-list.h"
 #include <unistd.h>
+#include <errno.h>
 
 /* _ml_P_Process_exece : string * string list * string list -> 'a
  *
@@ -16,20 +17,27 @@
  */
 ml_val_t _ml_P_Process_exece (ml_state_t *msp, ml_val_t arg)
 {
-    int             sts;
+    int             sts, err;
     ml_val_t        path = REC_SEL(arg, 0);
     ml_val_t        arglst = REC_SEL(arg, 1);
     ml_val_t        envlst = REC_SEL(arg, 2);
     char            **argv, **envp;
     ml_val_t        p;
     char            **cp;
-    int             nArgs;
+    int             nArgs, nEnv = 0;
 
     for (nArgs = 0, p = arglst; p != LIST_nil; p = LIST_tl(p)) {
         nArgs++;
     }
 
-    cp = PTR_MLtoC(char *, ML_AllocRaw(msp, BYTES_TO_WORDS((nArgs + 1) * sizeof(char *))));
+    for (p = envlst; p != LIST_nil; p = LIST_tl(p)) {
+        nEnv++;
+    }
+
+  /* note that the vector is not allocated in the ML heap, since that might cause a GC */
+    cp = NEW_VEC(char *, nArgs + 1 + nEnv + 1);
+    if (cp == NIL(char **))
+	return RAISE_ERROR(msp, "no malloc memory");
     argv = cp;
     for (p = arglst;  p != LIST_nil;  p = LIST_tl(p)) {
         *cp++ = STR_MLtoC(LIST_hd(p));
@@ -43,6 +51,11 @@ ml_val_t _ml_P_Process_exece (ml_state_t *msp, ml_val_t arg)
 
     sts = execve(STR_MLtoC(path), argv, envp);
 
+  /* the exec has failed */
+    err = errno;
+    FREE (argv);
+    errno = err;
+
     CHK_RETURN (msp, sts)
 
 } /* end of _ml_P_Process_exece */
diff --git a/base/runtime/c-libs/posix-process/execp.c b/base/runtime/c-libs/posix-process/execp.c
index 355e11c..78744a8 100644
--- a/base/runtime/c-libs/posix-process/execp.c
+++ b/base/runtime/c-libs/posix-process/execp.c
@@ -9,6 +9,7 @@
 #include "ml-c.h"
 #include "cfun-proto-list.h"
 #include <unistd.h>
+#include <errno.h>
 
 /* _ml_P_Process_execp : string * string list -> 'a
  *
@@ -16,7 +17,7 @@
  */
 ml_val_t _ml_P_Process_execp (ml_state_t *msp, ml_val_t arg)
 {
-    int             sts;
+    int             sts, err;
     ml_val_t        file = REC_SEL(arg, 0);
     ml_val_t        arglst = REC_SEL(arg, 1);
     char            **argv;
@@ -28,7 +29,10 @@ ml_val_t _ml_P_Process_execp (ml_state_t *msp, ml_val_t arg)
         nArgs++;
     }
 
-    cp = PTR_MLtoC(char *, ML_AllocRaw(msp, BYTES_TO_WORDS((nArgs + 1) * sizeof(char *))));
+  /* note that the vector is not allocated in the ML heap, since that might cause a GC */
+    cp = NEW_VEC(char *, nArgs + 1);
+    if (cp == NIL(char **))
+	return RAISE_ERROR(msp, "no malloc memory");
     argv = cp;
     for (p = arglst;  p != LIST_nil;  p = LIST_tl(p)) {
         *cp++ = STR_MLtoC(LIST_hd(p));
@@ -37,6 +41,11 @@ ml_val_t _ml_P_Process_execp (ml_state_t *msp, ml_val_t arg)
 
     sts = execvp(STR_MLtoC(file), argv);
 
+  /* the exec has failed */
+    err = errno;
+    FREE (argv);
+    errno = err;
+
     CHK_RETURN (msp, sts)
 
 } /* end of _ml_P_Process_execp */
-- 
2.43.0


From c0fbbecd3fb7b4401352204be370aaa805891e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:19 +0000
Subject: [PATCH 13/36] fix: waitpid with WNOHANG must not inspect an
 uninitialized status

---
 base/runtime/c-libs/posix-process/waitpid.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/runtime/c-libs/posix-process/waitpid.c b/base/runtime/c-libs/posix-process/waitpid.c
index de72cad..561f141 100644
--- a/base/runtime/c-libs/posix-process/waitpid.c
+++ b/base/runtime/c-libs/posix-process/waitpid.c
@@ -21,7 +21,7 @@ ml_val_t _ml_P_Process_waitpid (ml_state_t *msp, ml_val_t arg)
     ml_val_t	ml_options = REC_SEL(arg, 1);
     int		options = SYSWORD_MLtoC(ml_options);
     int		pid;
-    int		status, how, val;
+    int		status = 0, how, val;
     ml_val_t	r;
 
     pid = waitpid(REC_SELINT(arg, 0), &status, options);
-- 
2.43.0


From 3676b861066d950045e8e3b69868c2895234d1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:19 +0000
Subject: [PATCH 14/36] fix: the address family of a socket address is in host
 byte order

---
 base/runtime/c-libs/smlnj-sockets/getaddrfamily.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/runtime/c-libs/smlnj-sockets/getaddrfamily.c b/base/runtime/c-libs/smlnj-sockets/getaddrfamily.c
index a469480..8d8c4dc 100644
--- a/base/runtime/c-libs/smlnj-sockets/getaddrfamily.c
+++ b/base/runtime/c-libs/smlnj-sockets/getaddrfamily.c
@@ -20,6 +20,6 @@ ml_val_t _ml_Sock_getaddrfamily (ml_state_t *msp, ml_val_t arg)
 {
     struct sockaddr *addr = GET_SEQ_DATAPTR(struct sockaddr, arg);
 
-    return ML_SysConst (msp, &_Sock_AddrFamily, ntohs(addr->sa_family));
+    return ML_SysConst (msp, &_Sock_AddrFamily, addr->sa_family);
 
 } /* end of _ml_Sock_getaddrfamily */
-- 
2.43.0


From a6f485b3ffd84c6603ae36d2fedb746724d6c635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:19 +0000
Subject: [PATCH 15/36] fix: getservbyport takes the port in network byte order

---
 base/runtime/c-libs/smlnj-sockets/getservbyport.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/runtime/c-libs/smlnj-sockets/getservbyport.c b/base/runtime/c-libs/smlnj-sockets/getservbyport.c
index c3c4af9..84ccee9 100644
--- a/base/runtime/c-libs/smlnj-sockets/getservbyport.c
+++ b/base/runtime/c-libs/smlnj-sockets/getservbyport.c
@@ -25,6 +25,6 @@ ml_val_t _ml_NetDB_getservbyport (ml_state_t *msp, ml_val_t arg)
     else
 	proto = STR_MLtoC(OPTION_get(mlProto));
 
-    return _util_NetDB_mkservent (msp, getservbyport (REC_SELINT(arg, 0), proto));
+    return _util_NetDB_mkservent (msp, getservbyport (htons(REC_SELINT(arg, 0)), proto));
 
 } /* end of _ml_NetDB_getservbyport */
-- 
2.43.0


From 1fc59410b9858bbcfac6c101cface32a87202c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:19 +0000
Subject: [PATCH 16/36] fix: recvfrom must shrink the data vector before
 allocating the address

---
 base/runtime/c-libs/smlnj-sockets/recvfrom.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/runtime/c-libs/smlnj-sockets/recvfrom.c b/base/runtime/c-libs/smlnj-sockets/recvfrom.c
index 585af1d..600bd95 100644
--- a/base/runtime/c-libs/smlnj-sockets/recvfrom.c
+++ b/base/runtime/c-libs/smlnj-sockets/recvfrom.c
@@ -39,8 +39,7 @@ ml_val_t _ml_Sock_recvfrom (ml_state_t *msp, ml_val_t arg)
     if (n < 0)
 	return RAISE_SYSERR(msp, sts);
     else {
-	ml_val_t	data = ML_CData (msp, addrBuf, addrLen);
-	ml_val_t	addr, res;
+	ml_val_t	data, addr, res;
 
 	if (n == 0)
 	    res = ML_string0;
@@ -51,6 +50,7 @@ ml_val_t _ml_Sock_recvfrom (ml_state_t *msp, ml_val_t arg)
 	    SEQHDR_ALLOC (msp, res, DESC_string, vec, n);
 	}
 
+	data = ML_CData (msp, addrBuf, addrLen);
 	SEQHDR_ALLOC (msp, addr, DESC_word8vec, data, addrLen);
 	REC_ALLOC2(msp, res, res, addr);
 
-- 
2.43.0


From e019cfb86ad7747a9f9796d28d8958beb08b462a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:56 +0000
Subject: [PATCH 17/36] fix: UnixSock.toAddr must reject path names that do not
 fit a socket address

---
 base/runtime/c-libs/smlnj-sockets/to-unixaddr.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/base/runtime/c-libs/smlnj-sockets/to-unixaddr.c b/base/runtime/c-libs/smlnj-sockets/to-unixaddr.c
index 43110c7..c30d9fb 100644
--- a/base/runtime/c-libs/smlnj-sockets/to-unixaddr.c
+++ b/base/runtime/c-libs/smlnj-sockets/to-unixaddr.c
@@ -4,6 +4,8 @@
  */
 
 #include "ml-unixdep.h"
+#include <errno.h>
+#include <string.h>
 #include "sockets-osdep.h"
 #include INCLUDE_TYPES_H
 #include INCLUDE_SOCKET_H
@@ -26,6 +28,11 @@ ml_val_t _ml_Sock_tounixaddr (ml_state_t *msp, ml_val_t arg)
     int			len;
     ml_val_t		data, res;
 
+    if (strlen(path) >= sizeof(addr.sun_path)) {
+	errno = ENAMETOOLONG;
+	return RAISE_SYSERR(msp, -1);
+    }
+
     memset(&addr, 0, sizeof(struct sockaddr_un));
 
     addr.sun_family = AF_UNIX;
-- 
2.43.0


From 32e12386e2c4a3a3c657c4905f0c84f871f549e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:56 +0000
Subject: [PATCH 18/36] fix: Posix.TTY.TC.getpgrp must raise SysErr on failure

---
 base/runtime/c-libs/posix-tty/tcgetpgrp.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/base/runtime/c-libs/posix-tty/tcgetpgrp.c b/base/runtime/c-libs/posix-tty/tcgetpgrp.c
index 9da3719..b6253b6 100644
--- a/base/runtime/c-libs/posix-tty/tcgetpgrp.c
+++ b/base/runtime/c-libs/posix-tty/tcgetpgrp.c
@@ -5,6 +5,7 @@
 
 #include "ml-unixdep.h"
 #include <termios.h>
+#include <unistd.h>
 #include "ml-base.h"
 #include "ml-values.h"
 #include "ml-objects.h"
@@ -18,7 +19,8 @@
 ml_val_t _ml_P_TTY_tcgetpgrp (ml_state_t *msp, ml_val_t arg)
 {
     int         fd = INT_MLtoC(arg);
+    int         pgrp = tcgetpgrp(fd);
 
-    return INT_CtoML(tcgetpgrp(fd));
+    CHK_RETURN(msp, pgrp)
 
 } /* end of _ml_P_TTY_tcgetpgrp */
-- 
2.43.0


From a298ac2f37c94094df8aea51ac14459c78c30320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:57 +0000
Subject: [PATCH 19/36] fix: building a list of C strings must keep the partial
 list alive and must not overrun the allocation area

---
 base/runtime/gc/import-heap.c |  2 +-
 base/runtime/gc/ml-objects.c  | 32 +++++++++++++++++---------------
 2 files changed, 18 insertions(+), 16 deletions(-)

diff --git a/base/runtime/gc/import-heap.c b/base/runtime/gc/import-heap.c
index 4b8720c..a1c44fe 100644
--- a/base/runtime/gc/import-heap.c
+++ b/base/runtime/gc/import-heap.c
@@ -192,8 +192,8 @@ ml_state_t *ImportHeapImage (const char *fname, heap_params_t *params)
         msp->ml_pc              =
         msp->ml_linkReg         = GET_CODE_ADDR(funct);
       /* setup the arguments to the imported function */
+        args = ML_CStringList (msp, CmdLineArgs); /* might cause a GC */
         cmdName = ML_CString(msp, MLCmdName);
-        args = ML_CStringList (msp, CmdLineArgs);
         REC_ALLOC2(msp, msp->ml_arg, cmdName, args);
 /*
 SayDebug("arg = %#x : [%#x, %#x]\n", msp->ml_arg, REC_SEL(msp->ml_arg, 0), REC_SEL(msp->ml_arg, 1));
diff --git a/base/runtime/gc/ml-objects.c b/base/runtime/gc/ml-objects.c
index 806c785..8164ec9 100644
--- a/base/runtime/gc/ml-objects.c
+++ b/base/runtime/gc/ml-objects.c
@@ -77,29 +77,31 @@ ml_val_t ML_CString (ml_state_t *msp, const char *v)
  */
 ml_val_t ML_CStringList (ml_state_t *msp, char **strs)
 {
-    int         i, j;
+    int         i;
     ml_val_t    p, s;
-    Word_t      nbytes;
 
     for (i = 0;  strs[i] != NIL(char *);  i++)
         continue;
 
-    /* Make sure we have enough space to allocate the list */
-    nbytes = i * (3 * WORD_SZB);
-    for (j = 0;  j < i;  j++) {
-        size_t len = strlen(strs[j]);
-        Word_t nwords = BYTES_TO_WORDS(len + 1);
-        if (len > 0 && nwords <= SMALL_OBJ_SZW) {
-            nbytes += WORD_SZB * (nwords + 1); /* +1 for the descriptor word */
-        }
-    }
-    if (NeedGC (msp, nbytes)) {
-        InvokeGC (msp, 0);
-    }
-
     p = LIST_nil;
     while (i-- > 0) {
+        Word_t nwords = BYTES_TO_WORDS(strlen(strs[i]) + 1);
+      /* make sure we have enough space to allocate the string (data, if it is small,
+       * and header) and the list cell.
+       */
+        Word_t nbytes = (3 + 3) * WORD_SZB;
+        if (nwords <= SMALL_OBJ_SZW) {
+            nbytes += WORD_SZB * (nwords + 1); /* +1 for the descriptor word */
+        }
+        if (NeedGC (msp, nbytes)) {
+            InvokeGCWithRoots (msp, 0, &p, NIL(ml_val_t *));
+        }
+      /* allocating a large string can also cause a GC, so we keep the list in a root;
+       * note that the argument register is dead during a C call.
+       */
+        msp->ml_arg = p;
         s = ML_CString(msp, strs[i]);
+        p = msp->ml_arg;
         LIST_cons(msp, p, s, p);
     }
 
-- 
2.43.0


From a29285bcef6da8ed4a8766e40d6639a229ea8cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:57 +0000
Subject: [PATCH 20/36] fix: include the declaration of htons for getservbyport

---
 base/runtime/c-libs/smlnj-sockets/getservbyport.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/base/runtime/c-libs/smlnj-sockets/getservbyport.c b/base/runtime/c-libs/smlnj-sockets/getservbyport.c
index 84ccee9..0a28065 100644
--- a/base/runtime/c-libs/smlnj-sockets/getservbyport.c
+++ b/base/runtime/c-libs/smlnj-sockets/getservbyport.c
@@ -5,6 +5,7 @@
 
 #include "sockets-osdep.h"
 #include INCLUDE_SOCKET_H
+#include INCLUDE_IN_H
 #include "ml-base.h"
 #include "ml-values.h"
 #include "ml-objects.h"
-- 
2.43.0


From b88e78979dfa57b4e3a62739cae93fe8bf2183ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:44 +0000
Subject: [PATCH 21/36] fix: F_GETLK must not report an uninitialized process
 ID

---
 base/runtime/c-libs/posix-io/fcntl_l.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/base/runtime/c-libs/posix-io/fcntl_l.c b/base/runtime/c-libs/posix-io/fcntl_l.c
index 8567513..baca1be 100644
--- a/base/runtime/c-libs/posix-io/fcntl_l.c
+++ b/base/runtime/c-libs/posix-io/fcntl_l.c
@@ -34,6 +34,7 @@ ml_val_t _ml_P_IO_fcntl_l (ml_state_t *msp, ml_val_t arg)
     flock.l_whence = REC_SELINT(flock_rep, 1);
     flock.l_start = (off_t)INT64_MLtoC(start);
     flock.l_len = (off_t)INT64_MLtoC(length);
+    flock.l_pid = 0;	/* not set by F_GETLK when there is no conflicting lock */
 
     sts = fcntl(fd, cmd, &flock);
 
-- 
2.43.0


From 8c091ce5bd9de8b87a82e9d6697be429b2afc99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:44 +0000
Subject: [PATCH 22/36] fix: literal records must not box the untagged numbers
 of spilled arguments

---
 base/compiler/CPS/main/new-literals.sml | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/base/compiler/CPS/main/new-literals.sml b/base/compiler/CPS/main/new-literals.sml
index 129b974..5a06788 100644
--- a/base/compiler/CPS/main/new-literals.sml
+++ b/base/compiler/CPS/main/new-literals.sml
@@ -519,7 +519,10 @@ structure NewLiterals : LITERALS =
 	      in
 		fn (C.VAR x) => inDomain x
 		 | (C.LABEL _) => bug "unexpected LABEL"
-		 | (C.NUM n) => true
+		(* an untagged number in a record is raw data (e.g., in a record of spilled
+		 * arguments), whereas the literal representation is boxed
+		 *)
+		 | (C.NUM{ty={tag, ...}, ...}) => tag
 		 | (C.REAL r) => true
 		 | (C.STRING s) => true
 		 | C.VOID => false
-- 
2.43.0


From 3dbf1ea09f4ab831b47324da8e440c6844ddaa59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:30 +0000
Subject: [PATCH 23/36] fix: strings read by Posix.IO.readVec and
 Socket.recv*From must be padded for pattern matching

---
 base/runtime/c-libs/posix-io/read.c          | 9 ++++++++-
 base/runtime/c-libs/smlnj-sockets/recvfrom.c | 8 +++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/base/runtime/c-libs/posix-io/read.c b/base/runtime/c-libs/posix-io/read.c
index f2c3ceb..d2a4a22 100644
--- a/base/runtime/c-libs/posix-io/read.c
+++ b/base/runtime/c-libs/posix-io/read.c
@@ -22,7 +22,7 @@ ml_val_t _ml_P_IO_read (ml_state_t *msp, ml_val_t arg)
     int		    fd = REC_SELINT(arg, 0);
     int		    nbytes = REC_SELINT(arg, 1);
     ml_val_t	    vec, res;
-    int		    n;
+    int		    m, n;
 
     if (nbytes == 0)
 	return ML_string0;
@@ -35,6 +35,13 @@ ml_val_t _ml_P_IO_read (ml_state_t *msp, ml_val_t arg)
     else if (n == 0)
 	return ML_string0;
 
+  /* pad the last word of the vector with zero bytes so that string pattern
+   * matching on the result will work.
+   */
+    for (m = n;  (m & (WORD_SZB-1)) != 0;  m++) {
+	PTR_MLtoC(char, vec)[m] = '\0';
+    }
+
     if (n < nbytes) {
       /* we need to shrink the vector */
 	ML_ShrinkRaw (msp, vec, BYTES_TO_WORDS(n));
diff --git a/base/runtime/c-libs/smlnj-sockets/recvfrom.c b/base/runtime/c-libs/smlnj-sockets/recvfrom.c
index 600bd95..4308916 100644
--- a/base/runtime/c-libs/smlnj-sockets/recvfrom.c
+++ b/base/runtime/c-libs/smlnj-sockets/recvfrom.c
@@ -24,7 +24,7 @@ ml_val_t _ml_Sock_recvfrom (ml_state_t *msp, ml_val_t arg)
     int		nbytes = REC_SELINT(arg, 1);
     int		flag = 0;
     ml_val_t	vec;
-    int		n;
+    int		m, n;
 
     if (REC_SEL(arg, 2) == ML_true) flag |= MSG_OOB;
     if (REC_SEL(arg, 3) == ML_true) flag |= MSG_PEEK;
@@ -44,6 +44,12 @@ ml_val_t _ml_Sock_recvfrom (ml_state_t *msp, ml_val_t arg)
 	if (n == 0)
 	    res = ML_string0;
 	else {
+	  /* pad the last word of the vector with zero bytes so that string pattern
+	   * matching on the result will work.
+	   */
+	    for (m = n;  (m & (WORD_SZB-1)) != 0;  m++) {
+		PTR_MLtoC(char, vec)[m] = '\0';
+	    }
 	    if (n < nbytes)
 	      /* we need to shrink the vector */
 		ML_ShrinkRaw (msp, vec, BYTES_TO_WORDS(n));
-- 
2.43.0


From c8afc07a414dd16a2821709ba1d210e762cba212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:43:30 +0000
Subject: [PATCH 24/36] fix: Posix.Process.kill K_SAME_GROUP signalled every
 process, not the caller's group

---
 base/system/Basis/Implementation/Posix/posix-process.sml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/system/Basis/Implementation/Posix/posix-process.sml b/base/system/Basis/Implementation/Posix/posix-process.sml
index e92c59c..3681b5b 100644
--- a/base/system/Basis/Implementation/Posix/posix-process.sml
+++ b/base/system/Basis/Implementation/Posix/posix-process.sml
@@ -114,7 +114,7 @@ structure POSIX_Process =
 
     val kill' : s_int * s_int -> unit = cfun "kill"
     fun kill (K_PROC (PID pid),Sig.SIG s) = kill'(pid, s)
-      | kill (K_SAME_GROUP,Sig.SIG s) = kill'(~1, s)
+      | kill (K_SAME_GROUP,Sig.SIG s) = kill'(0, s)
       | kill (K_GROUP (PID pid),Sig.SIG s) = kill'(~pid, s)
 
 (* TODO: generalize to finer-grain sleeping (bug #173); also alarm *)
-- 
2.43.0


From 7d1b9efd7f82b7863e8a6fa74e3b6b6df2f25804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:12 +0000
Subject: [PATCH 25/36] fix: Socket.Ctl.getRCVBUF and setRCVBUF acted on the
 send buffer

---
 base/system/Basis/Implementation/Sockets/socket.sml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/system/Basis/Implementation/Sockets/socket.sml b/base/system/Basis/Implementation/Sockets/socket.sml
index 9771ddd..2cb815e 100644
--- a/base/system/Basis/Implementation/Sockets/socket.sml
+++ b/base/system/Basis/Implementation/Sockets/socket.sml
@@ -88,7 +88,7 @@ structure SocketImp : SOCKET =
 	  val ctlSNDBUF    : (sockFD * int option) -> int =
 		sockFn "ctlSNDBUF"
 	  val ctlRCVBUF    : (sockFD * int option) -> int =
-		sockFn "ctlSNDBUF"
+		sockFn "ctlRCVBUF"
 	in
       (* get/set socket options *)
 	fun getDEBUG x = getOpt ctlDEBUG x
-- 
2.43.0


From 2fa9341204e006034955733b018a0bcbe69fbd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:12 +0000
Subject: [PATCH 26/36] fix: the oob flag of the Socket operations was taken
 for peek or don't_route and vice versa

---
 .../Basis/Implementation/Sockets/socket.sml      | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/base/system/Basis/Implementation/Sockets/socket.sml b/base/system/Basis/Implementation/Sockets/socket.sml
index 2cb815e..ba78be5 100644
--- a/base/system/Basis/Implementation/Sockets/socket.sml
+++ b/base/system/Basis/Implementation/Sockets/socket.sml
@@ -285,7 +285,7 @@ structure SocketImp : SOCKET =
 	val fd = getfd sock
 	val (vec, i, len) = vbuf buffer
     in
-	if (len > 0) then sendV (fd, vec, i, len, don't_route, oob) else 0
+	if (len > 0) then sendV (fd, vec, i, len, oob, don't_route) else 0
     end
     fun sendVec' arg = sendVec'0 fdB arg
     fun sendVecNB' arg = wrapNB_o (sendVec'0 fdNB) arg
@@ -304,7 +304,7 @@ structure SocketImp : SOCKET =
 	val fd = getfd sock
 	val (arr, i, len) = abuf buffer
     in
-	if (len > 0) then sendA (fd, arr, i, len, don't_route, oob) else 0
+	if (len > 0) then sendA (fd, arr, i, len, oob, don't_route) else 0
     end
     fun sendArr' arg = sendArr'0 fdB arg
     fun sendArrNB' arg = wrapNB_o (sendArr'0 fdNB) arg
@@ -333,7 +333,7 @@ structure SocketImp : SOCKET =
 	val (vec, i, len) = vbuf buffer
     in
 	if (len > 0) then
-	    sendToV(fd, vec, i, len, don't_route, oob, addr)
+	    sendToV(fd, vec, i, len, oob, don't_route, addr)
 	else 0;
 	()
     end
@@ -357,7 +357,7 @@ structure SocketImp : SOCKET =
 	val (arr, i, len) = abuf buffer
     in
 	if (len > 0) then
-	    sendToA(fd, arr, i, len, don't_route, oob, addr)
+	    sendToA(fd, arr, i, len, oob, don't_route, addr)
 	else 0;
 	()
     end
@@ -372,7 +372,7 @@ structure SocketImp : SOCKET =
       fun recvV _ (_, 0, _, _) = W8V.fromList[]
 	| recvV getfd (sock, nbytes, peek, oob) =
 	    if nbytes < 0 then raise Size
-	    else recvV' (getfd sock, nbytes, peek, oob)
+	    else recvV' (getfd sock, nbytes, oob, peek)
       val recvA : (int * w8array * int * int * bool * bool) -> int
 	    = sockFn "recvBuf"
     in
@@ -398,7 +398,7 @@ structure SocketImp : SOCKET =
 	val fd = getfd sock
 	val (buf, i, sz) = abuf buffer
     in
-	if sz > 0 then recvA (fd, buf, i, sz, peek, oob) else 0
+	if sz > 0 then recvA (fd, buf, i, sz, oob, peek) else 0
     end
     fun recvArr' arg = recvArr'0 fdB arg
     fun recvArrNB' arg = wrapNB_o (recvArr'0 fdNB) arg
@@ -411,7 +411,7 @@ structure SocketImp : SOCKET =
 	| recvFromV getfd (sock, sz, peek, oob) =
 	  if sz < 0 then raise Size
 	  else let val fd = getfd sock
-		   val (data, addr) = recvFromV' (fd, sz, peek, oob)
+		   val (data, addr) = recvFromV' (fd, sz, oob, peek)
 	       in
 		   (data, ADDR addr)
 	       end
@@ -447,7 +447,7 @@ structure SocketImp : SOCKET =
 	val (buf, i, sz) = abuf asl
     in
 	if sz > 0 then let
-		val (n, addr) = recvFromA(fd, buf, i, sz, peek, oob)
+		val (n, addr) = recvFromA(fd, buf, i, sz, oob, peek)
 	    in
 		(n, ADDR addr)
 	    end
-- 
2.43.0


From 6133ca34bfc921b1db429a4f4eded5bb81c3761c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:12 +0000
Subject: [PATCH 27/36] fix: UnixSock.fromAddr read beyond the address of an
 unnamed socket

---
 base/runtime/c-libs/smlnj-sockets/from-unixaddr.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/base/runtime/c-libs/smlnj-sockets/from-unixaddr.c b/base/runtime/c-libs/smlnj-sockets/from-unixaddr.c
index fecee4b..46757fb 100644
--- a/base/runtime/c-libs/smlnj-sockets/from-unixaddr.c
+++ b/base/runtime/c-libs/smlnj-sockets/from-unixaddr.c
@@ -24,6 +24,10 @@ ml_val_t _ml_Sock_fromunixaddr (ml_state_t *msp, ml_val_t arg)
 
     ASSERT(addr->sun_family == AF_UNIX);
 
+  /* the address of an unnamed socket ends before sun_path */
+    if (GET_SEQ_LEN(arg) <= (char *)(addr->sun_path) - (char *)addr)
+	return ML_string0;
+
     return ML_CString(msp, addr->sun_path);
 
 } /* end of _ml_Sock_fromunixaddr */
-- 
2.43.0


From f305fa814b4552a47bd36417293a8f38655d627d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:12 +0000
Subject: [PATCH 28/36] fix: NetDB.getByAddr passed a pair as the address
 family

---
 base/system/Basis/Implementation/Sockets/net-db.sml | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/system/Basis/Implementation/Sockets/net-db.sml b/base/system/Basis/Implementation/Sockets/net-db.sml
index 64c732f..2f0ebfd 100644
--- a/base/system/Basis/Implementation/Sockets/net-db.sml
+++ b/base/system/Basis/Implementation/Sockets/net-db.sml
@@ -46,12 +46,12 @@ structure NetDB : NET_DB =
 	    })
       val getNetByName' : string -> netent option
 	    = netdbFun "getNetByName"
-      val getNetByAddr' : (SysWord.word * Socket.af) -> netent option
+      val getNetByAddr' : (SysWord.word * int) -> netent option
 	    = netdbFun "getNetByAddr"
     in
     val getByName = getNetEnt o getNetByName'
     fun getByAddr (NETADDR addr, Socket.AF.AF af) =
-	  getNetEnt(getNetByAddr'(addr, af))
+	  getNetEnt(getNetByAddr'(addr, #1 af))
     end (* local *)
 
     fun scan getc strm = let
-- 
2.43.0


From efac0aef63d6cb6ba67396f313ae61f3d6317a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:22 +0000
Subject: [PATCH 29/36] fix: Socket.familyOfAddr crashed on the empty address
 of an unnamed datagram source

---
 base/runtime/c-libs/smlnj-sockets/getaddrfamily.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/base/runtime/c-libs/smlnj-sockets/getaddrfamily.c b/base/runtime/c-libs/smlnj-sockets/getaddrfamily.c
index 8d8c4dc..4f007c2 100644
--- a/base/runtime/c-libs/smlnj-sockets/getaddrfamily.c
+++ b/base/runtime/c-libs/smlnj-sockets/getaddrfamily.c
@@ -20,6 +20,8 @@ ml_val_t _ml_Sock_getaddrfamily (ml_state_t *msp, ml_val_t arg)
 {
     struct sockaddr *addr = GET_SEQ_DATAPTR(struct sockaddr, arg);
 
-    return ML_SysConst (msp, &_Sock_AddrFamily, addr->sa_family);
+  /* the source of a datagram from an unnamed socket has no address at all */
+    return ML_SysConst (msp, &_Sock_AddrFamily,
+	(GET_SEQ_LEN(arg) == 0) ? AF_UNSPEC : addr->sa_family);
 
 } /* end of _ml_Sock_getaddrfamily */
-- 
2.43.0


From 5403c30eecbf5634529d7f31e06412b9c7f6deab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:31 +0000
Subject: [PATCH 30/36] fix: Timer.checkCPUTimer counted the time of the
 collector twice

---
 base/system/Basis/Implementation/internal-timer.sml | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/base/system/Basis/Implementation/internal-timer.sml b/base/system/Basis/Implementation/internal-timer.sml
index b3d10c2..c9c6116 100644
--- a/base/system/Basis/Implementation/internal-timer.sml
+++ b/base/system/Basis/Implementation/internal-timer.sml
@@ -30,7 +30,8 @@ structure InternalTimer : sig
     fun getTime () = let
 	  val (usr, sys, gc) = gettime' ()
 	  in {
-	    nongc = { usr = mkTime usr, sys = mkTime sys },
+	  (* note that the user time includes the time spent by the collector *)
+	    nongc = { usr = mkTime (usr - gc), sys = mkTime sys },
 	    gc    = { usr = mkTime gc, sys = Time.zeroTime }
 	  } end
     end (* local *)
-- 
2.43.0


From 75cf95f98741cc4e23030bc8f03e34c5417d2c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:31 +0000
Subject: [PATCH 31/36] fix: a pending signal whose handler was removed raised
 Fail in the program

---
 base/runtime/mach-dep/unix-signal.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/base/runtime/mach-dep/unix-signal.c b/base/runtime/mach-dep/unix-signal.c
index ac8278e..3757be6 100644
--- a/base/runtime/mach-dep/unix-signal.c
+++ b/base/runtime/mach-dep/unix-signal.c
@@ -70,8 +70,6 @@ void PauseUntilSignal (vproc_state_t *vsp)
 void SetSignalState (vproc_state_t *vsp, int sigNum, int sigState)
 {
 /* QUESTIONS:
- * If we disable a signal that has pending signals, should the pending
- * signals be discarded?
  * How do we keep track of the state of non-UNIX signals (e.g., GC).
  */
     switch (sigNum) {
@@ -98,6 +96,14 @@ void SetSignalState (vproc_state_t *vsp, int sigNum, int sigState)
 	else Die ("SetSignalState: unknown signal %d\n", sigNum);
     } /* end of switch */
 
+    if (sigState != ML_SIG_ENABLED) {
+      /* discard the pending signals, since there is no handler for them now */
+	int	n = vsp->vp_sigCounts[sigNum].nReceived - vsp->vp_sigCounts[sigNum].nHandled;
+	vsp->vp_sigCounts[sigNum].nHandled += n;
+	if (! vsp->vp_sigMasked[sigNum])
+	    vsp->vp_totalSigCount.nHandled += n;
+    }
+
 } /* end of SetSignalState */
 
 
-- 
2.43.0


From 0f5846d7e8248015ece66190270fdfb7b90ac477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:31 +0000
Subject: [PATCH 32/36] fix: Date.toTime of a date in UTC was off by twice the
 local offset

---
 base/system/Basis/Implementation/date.sml | 24 +++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/base/system/Basis/Implementation/date.sml b/base/system/Basis/Implementation/date.sml
index fa8b640..c25948c 100644
--- a/base/system/Basis/Implementation/date.sml
+++ b/base/system/Basis/Implementation/date.sml
@@ -356,19 +356,19 @@ structure Date : DATE =
     fun fromTimeUniv t = tm2date (gmTime t, SOME Time.zeroTime)
 
   (* return the UTC time corresponding to the given date. *)
-    fun toTime (date as DATE{offset, ...}) = let
-	  val t = mkTime' (date2tm date)
+    fun toTime (date as DATE{offset = NONE, ...}) = nsToTime (mkTime' (date2tm date))
+      | toTime (DATE d) = let
+	(* note that representation of a date is canonical, which means that the
+	 * offset has already been applied, so we do not need to adjust by the
+	 * date's offset; the fields of the date are in UTC.
+	 *)
+	  val epoch = toAbsoluteDay {year = 1970, month = 1, day = 1}
+	  val day = toAbsoluteDay {
+		  year = #year d, month = monthToInt(#month d) + 1, day = #day d
+		} - epoch
+	  val sec = ((day * 24 + #hour d) * 60 + #minute d) * 60 + #second d
 	  in
-	    case offset
-	     of NONE => nsToTime t
-	      | SOME offset =>
-		(* note that representation of a date is canonical, which means that the
-		 * offset has already been applied, so we do not need to adjust by the
-		 * date's offset.  On the other hand, mkTime' returns the _local_ time,
-		 * so we do need to adjust for the local offset.
-		 *)
-		  Time.+(nsToTime t, localOffsetForTime t)  (* converts local time to UTC *)
-	    (* end case *)
+	    if (day < 0) then raise Date else Time.fromSeconds (Int.toLarge sec)
 	  end
 
   (* date comparison does not take into account the offset
-- 
2.43.0


From bc00d5520e344c75f266d86eb5c9dfd81d90d2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:31 +0000
Subject: [PATCH 33/36] fix: Date.fmt took the character after %% for a
 conversion

---
 base/system/Basis/Implementation/date.sml | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/base/system/Basis/Implementation/date.sml b/base/system/Basis/Implementation/date.sml
index c25948c..1c667b2 100644
--- a/base/system/Basis/Implementation/date.sml
+++ b/base/system/Basis/Implementation/date.sml
@@ -404,7 +404,7 @@ structure Date : DATE =
 		      fun continue (len, ss') = (len, SS.slice(start, 0, SOME 2), ss')
 		      in
 			case SS.getc rest
-			 of NONE => (1, SS.full "%", rest)
+			 of NONE => (1, SS.full "%%", rest)
 			  | SOME(#"a", ss') => continue(3, ss')
 			  | SOME(#"A", ss') => continue(20, ss')
 			  | SOME(#"b", ss') => continue(3, ss')
@@ -426,6 +426,7 @@ structure Date : DATE =
 			  | SOME(#"y", ss') => continue(2, ss')
 			  | SOME(#"Y", ss') => continue(4, ss')
 			  | SOME(#"Z", ss') => continue(3, ss')
+			  | SOME(#"%", ss') => continue(1, ss')
 			  | SOME(c, ss') => (1, SS.full(String.str c), ss')
 			(* end case *)
 		      end
-- 
2.43.0


From bb7a1b5639364bc2abf65b5dd28c94d954584183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:36 +0000
Subject: [PATCH 34/36] fix: INT_CtoML multiplies in the width of ML values

Integers of 31 bits or more (Posix.ProcEnv.time) overflowed on 64-bit systems.
---
 base/runtime/include/ml-values.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/runtime/include/ml-values.h b/base/runtime/include/ml-values.h
index e6af1e2..7f9d9cc 100644
--- a/base/runtime/include/ml-values.h
+++ b/base/runtime/include/ml-values.h
@@ -38,7 +38,7 @@
 #endif
 
 #define INT_MLtoC(n)		(((Int_t)(n)) >> 1)
-#define INT_CtoML(n)		((ml_val_t)(Int_t)(2*(n) + 1))
+#define INT_CtoML(n)		((ml_val_t)(2*(Int_t)(n) + 1))
 #define PTR_MLtoC(ty,p)		PTR_CAST(ty *, p)
 #define PTR_CtoML(p)		PTR_CAST(ml_val_t, p)
 #else
-- 
2.43.0


From 4befbe3eb1753d5584f50fc290b222f0a02158f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:36 +0000
Subject: [PATCH 35/36] fix: check for heap space while building the list of
 groups

---
 base/runtime/c-libs/posix-procenv/getgroups.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/base/runtime/c-libs/posix-procenv/getgroups.c b/base/runtime/c-libs/posix-procenv/getgroups.c
index 9196b32..b24b538 100644
--- a/base/runtime/c-libs/posix-procenv/getgroups.c
+++ b/base/runtime/c-libs/posix-procenv/getgroups.c
@@ -11,6 +11,7 @@
 #include "ml-values.h"
 #include "ml-objects.h"
 #include "ml-c.h"
+#include "gc.h"
 #include "cfun-proto-list.h"
 
 /* some OSs use int[] as the second argument to getgroups(), when gid_t
@@ -35,6 +36,9 @@ PVT ml_val_t mkList (ml_state_t *msp, int ngrps, gid gidset[])
 
     p = LIST_nil;
     while (ngrps-- > 0) {
+      /* make sure that there is space for the word and the list cell */
+	if (NeedGC (msp, (2 + 3) * WORD_SZB))
+	    InvokeGCWithRoots (msp, 0, &p, NIL(ml_val_t *));
         WORD_ALLOC (msp, w, (Word_t)(gidset[ngrps]));
 	LIST_cons(msp, p, w, p);
     }
-- 
2.43.0


From fdb2cdc88a3c7a04606f2ccf77cc735fc55d0889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:36 +0000
Subject: [PATCH 36/36] fix: check for heap space while building the result of
 OS.IO.poll

---
 base/runtime/c-libs/posix-os/poll.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/base/runtime/c-libs/posix-os/poll.c b/base/runtime/c-libs/posix-os/poll.c
index ea112bc..3686a3b 100644
--- a/base/runtime/c-libs/posix-os/poll.c
+++ b/base/runtime/c-libs/posix-os/poll.c
@@ -27,6 +27,7 @@
 #include "ml-c.h"
 #include "ml-values.h"
 #include "ml-objects.h"
+#include "gc.h"
 #include "cfun-proto-list.h"
 
 /* bit masks for polling descriptors (see src/sml-nj/boot/Unix/os-io.sml) */
@@ -183,9 +184,11 @@ PVT ml_val_t ML_Poll (ml_state_t *msp, ml_val_t pollList, struct timeval *timeou
     else if (sts == 0)
 	return LIST_nil;
     else {
-	ml_val_t	*resVec = NEW_VEC(ml_val_t, nItems);
+	struct { int fd, flag; } *resVec;
 	int		i, resFlag;
 
+	resVec = MALLOC(nItems * sizeof(*resVec));
+
 	for (i = 0, l = pollList;  l != LIST_nil;  l = LIST_tl(l)) {
 	    item	= LIST_hd(l);
 	    fd		= REC_SELINT(item, 0);
@@ -198,13 +201,16 @@ PVT ml_val_t ML_Poll (ml_state_t *msp, ml_val_t pollList, struct timeval *timeou
 	    if (((flag & ERR_BIT) != 0) && FD_ISSET(fd, efds))
 		resFlag |= ERR_BIT;
 	    if (resFlag != 0) {
-		REC_ALLOC2 (msp, item, INT_CtoML(fd), INT_CtoML(resFlag));
-		resVec[i++] = item;
+		resVec[i].fd = fd;
+		resVec[i++].flag = resFlag;
 	    }
 	}
 
 	for (i--, l = LIST_nil;  i >= 0;  i--) {
-	    item = resVec[i];
+	  /* make sure that there is space for the pair and the list cell */
+	    if (NeedGC (msp, (3 + 3) * WORD_SZB))
+		InvokeGCWithRoots (msp, 0, &l, NIL(ml_val_t *));
+	    REC_ALLOC2 (msp, item, INT_CtoML(resVec[i].fd), INT_CtoML(resVec[i].flag));
 	    LIST_cons (msp, l, item, l);
 	}
 
-- 
2.43.0

