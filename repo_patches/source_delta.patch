From 36591f89687dec1407d44f61c7c20903ca365861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:04 +0000
Subject: [PATCH 01/34] fix: SMA, WMA, TRIMA, VAR, CORREL and BETA streaming
 with a period of 1 must not use the absent memory

The lookback is 0 then, so StateInit allocates no memory and TA_X_State
dereferenced NULL. TRIMA also read the middle bar (the current one for a
period of 2 or 3) before storing it.
---
 ta-lib-rt/c/src/ta_func/ta_BETA.c   | 12 ++++++++----
 ta-lib-rt/c/src/ta_func/ta_CORREL.c |  5 +++++
 ta-lib-rt/c/src/ta_func/ta_SMA.c    |  5 +++++
 ta-lib-rt/c/src/ta_func/ta_TRIMA.c  | 13 +++++++++++--
 ta-lib-rt/c/src/ta_func/ta_VAR.c    |  5 +++++
 ta-lib-rt/c/src/ta_func/ta_WMA.c    |  5 +++++
 6 files changed, 39 insertions(+), 6 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_BETA.c b/ta-lib-rt/c/src/ta_func/ta_BETA.c
index 3f0df77..e50d456 100644
--- a/ta-lib-rt/c/src/ta_func/ta_BETA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_BETA.c
@@ -473,7 +473,8 @@ double x,y,temp;
     return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
   }
 
-  temp = POP_FROM_MEM(inReal0);
+  /* With a period of 1 there is no memory: the trailing value is the current one. */
+  temp = (MEM_SIZE > 0) ? POP_FROM_MEM(inReal0) : inReal0;
 
   if( !TA_IS_ZERO(STATE.last_price_x) )
      x = (temp-STATE.last_price_x)/STATE.last_price_x;
@@ -481,7 +482,7 @@ double x,y,temp;
      x = 0.0;
   STATE.last_price_x = temp;
 
-  temp = POP_FROM_MEM(inReal1);
+  temp = (MEM_SIZE > 0) ? POP_FROM_MEM(inReal1) : inReal1;
 
   if( !TA_IS_ZERO(STATE.last_price_y) )
      y = (temp-STATE.last_price_y)/STATE.last_price_y;
@@ -503,8 +504,11 @@ double x,y,temp;
   STATE.S_x -= x;
   STATE.S_y -= y;
 
-  PUSH_TO_MEM(inReal0,inReal0);
-  PUSH_TO_MEM(inReal1,inReal1);
+  if (MEM_SIZE > 0)
+  {
+     PUSH_TO_MEM(inReal0,inReal0);
+     PUSH_TO_MEM(inReal1,inReal1);
+  }
 
    return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 }
diff --git a/ta-lib-rt/c/src/ta_func/ta_CORREL.c b/ta-lib-rt/c/src/ta_func/ta_CORREL.c
index daef286..39980a2 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CORREL.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CORREL.c
@@ -385,6 +385,11 @@
 /**** END GENCODE SECTION 8 - DO NOT DELETE THIS LINE ****/
 
    /* insert state based TA func code here. */
+   /* Period of 1: there is no memory, a single value does not vary. */
+   if (MEM_SIZE == 0) {
+      VALUE_HANDLE_DEREF(outReal) = 0.0;
+      return ENUM_VALUE(RetCode,TA_SUCCESS,Success); }
+
    if (FIRST_LAUNCH)
         {
             STATE.sumXY = 0.0;
diff --git a/ta-lib-rt/c/src/ta_func/ta_SMA.c b/ta-lib-rt/c/src/ta_func/ta_SMA.c
index 768a6b0..6dc59f3 100644
--- a/ta-lib-rt/c/src/ta_func/ta_SMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_SMA.c
@@ -385,6 +385,11 @@ TA_RetCode TA_PREFIX(INT_SMA)( int    startIdx,
 /**** END GENCODE SECTION 8 - DO NOT DELETE THIS LINE ****/
 
    /* insert state based TA func code here. */
+   /* Period of 1: there is no memory, the output is the input itself. */
+   if (MEM_SIZE == 0) {
+      VALUE_HANDLE_DEREF(outReal) = inReal;
+      return ENUM_VALUE(RetCode,TA_SUCCESS,Success); }
+
    if (FIRST_LAUNCH)
   {
       STATE.periodTotal = 0;
diff --git a/ta-lib-rt/c/src/ta_func/ta_TRIMA.c b/ta-lib-rt/c/src/ta_func/ta_TRIMA.c
index b08c9d5..863264a 100644
--- a/ta-lib-rt/c/src/ta_func/ta_TRIMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_TRIMA.c
@@ -582,6 +582,11 @@ double tempReal;
 /**** END GENCODE SECTION 8 - DO NOT DELETE THIS LINE ****/
 
    /* insert state based TA func code here. */
+   /* Period of 1: there is no memory, the output is the input itself. */
+   if (MEM_SIZE == 0) {
+      VALUE_HANDLE_DEREF(outReal) = inReal;
+      return ENUM_VALUE(RetCode,TA_SUCCESS,Success); }
+
    if (FIRST_LAUNCH)
     {
     STATE.numerator = 0;
@@ -643,8 +648,12 @@ double tempReal;
    STATE.numerator    -= STATE.numeratorSub;
    STATE.numeratorSub -= POP_FROM_MEM(inReal);
 
-   middle = STATE.middleIdx++ % STATE.mem_size;
-   tempReal = MEM_IDX_NS(inReal, middle);
+   /* With a period of 2 or 3 the middle is the current value, which isn't in memory yet. */
+   middle = STATE.middleIdx++;
+   if (middle == (int)(STATE.mem_index-1))
+       tempReal = inReal;
+   else
+       tempReal = MEM_IDX_NS(inReal, middle % STATE.mem_size);
    STATE.numeratorSub += tempReal;
 
    /* Step (2) */
diff --git a/ta-lib-rt/c/src/ta_func/ta_VAR.c b/ta-lib-rt/c/src/ta_func/ta_VAR.c
index ccfe33b..24cb809 100644
--- a/ta-lib-rt/c/src/ta_func/ta_VAR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_VAR.c
@@ -441,6 +441,11 @@ TA_RetCode TA_PREFIX(INT_VAR)( int    startIdx,
 /**** END GENCODE SECTION 8 - DO NOT DELETE THIS LINE ****/
 
    /* insert state based TA func code here. */
+   /* Period of 1: there is no memory, a single value does not vary. */
+   if (MEM_SIZE == 0) {
+      VALUE_HANDLE_DEREF(outReal) = 0.0;
+      return ENUM_VALUE(RetCode,TA_SUCCESS,Success); }
+
    if (FIRST_LAUNCH)
     {
         STATE.periodTotal1 = 0.;
diff --git a/ta-lib-rt/c/src/ta_func/ta_WMA.c b/ta-lib-rt/c/src/ta_func/ta_WMA.c
index 108ca8b..3d12293 100644
--- a/ta-lib-rt/c/src/ta_func/ta_WMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_WMA.c
@@ -409,6 +409,11 @@
 /**** END GENCODE SECTION 8 - DO NOT DELETE THIS LINE ****/
 
    /* insert state based TA func code here. */
+   /* Period of 1: there is no memory, the output is the input itself. */
+   if (MEM_SIZE == 0) {
+      VALUE_HANDLE_DEREF(outReal) = inReal;
+      return ENUM_VALUE(RetCode,TA_SUCCESS,Success); }
+
 
  if (FIRST_LAUNCH)
     {
-- 
2.43.0


From 04dc498637e813842147eea5e439268c2659022c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:38 +0000
Subject: [PATCH 02/34] fix: EMA and WLMA streaming with a default period, an
 unstable period or Metastock seeding

The smoothing ratio was derived from the INT_MIN placeholder, the last seed
bar was applied twice when an unstable period is set, and a period of 1 with
Metastock compatibility asked for more data on the first bar.
---
 ta-lib-rt/c/src/ta_func/ta_EMA.c  | 12 +++++++++---
 ta-lib-rt/c/src/ta_func/ta_WLMA.c | 12 +++++++++---
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_EMA.c b/ta-lib-rt/c/src/ta_func/ta_EMA.c
index 1e9b0da..6ca81bb 100644
--- a/ta-lib-rt/c/src/ta_func/ta_EMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_EMA.c
@@ -375,6 +375,9 @@ TA_RetCode TA_PREFIX(INT_EMA)( int               startIdx,
 
 {
    /* insert local variable here */
+   /* The default must be known before the ratio is derived from it. */
+   if( (int)optInTimePeriod == TA_INTEGER_DEFAULT )
+      optInTimePeriod = 30;
    return TA_INT_EMA_StateInit(_state, optInTimePeriod, PER_TO_K( optInTimePeriod ));
 
 #ifdef SUPPRESS_CODE_BLOCK_BELOW
@@ -512,9 +515,11 @@ TA_RetCode TA_PREFIX(INT_EMA)( int               startIdx,
                   {
                       VALUE_HANDLE_DEREF(outReal) = STATE.prevMA;
                       return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
-                  }
+                 }
+                 /* This bar is already part of the seed. */
+                 return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
 
-                } else
+               } else
                   return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
           }
          }
@@ -522,7 +527,8 @@ TA_RetCode TA_PREFIX(INT_EMA)( int               startIdx,
            if (FIRST_LAUNCH)
             {
               STATE.prevMA = inReal;
-              return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
+              if (NEED_MORE_DATA)
+                  return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
             }
       }
 
diff --git a/ta-lib-rt/c/src/ta_func/ta_WLMA.c b/ta-lib-rt/c/src/ta_func/ta_WLMA.c
index 3eed354..3f72d43 100644
--- a/ta-lib-rt/c/src/ta_func/ta_WLMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_WLMA.c
@@ -372,6 +372,9 @@ TA_RetCode TA_PREFIX(INT_WLMA)( int               startIdx,
 
 {
    /* insert local variable here */
+   /* The default must be known before the ratio is derived from it. */
+   if( (int)optInTimePeriod == TA_INTEGER_DEFAULT )
+      optInTimePeriod = 30;
    return TA_INT_WLMA_StateInit(_state, optInTimePeriod, PER_TO_WILDERS_K( optInTimePeriod ));
 
 #ifdef SUPPRESS_CODE_BLOCK_BELOW
@@ -509,9 +512,11 @@ TA_RetCode TA_PREFIX(INT_WLMA)( int               startIdx,
                   {
                       VALUE_HANDLE_DEREF(outReal) = STATE.prevMA;
                       return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
-                  }
+                 }
+                 /* This bar is already part of the seed. */
+                 return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
 
-                } else
+               } else
                   return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
           }
          }
@@ -519,7 +524,8 @@ TA_RetCode TA_PREFIX(INT_WLMA)( int               startIdx,
            if (FIRST_LAUNCH)
             {
               STATE.prevMA = inReal;
-              return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
+              if (NEED_MORE_DATA)
+                  return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
             }
       }
 
-- 
2.43.0


From fe7a43949359312be5704700fa823d6ca18b6e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:53 +0000
Subject: [PATCH 03/34] fix: KAMA streaming uses the bar one period back when
 an unstable period lengthens its memory

---
 ta-lib-rt/c/src/ta_func/ta_KAMA.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_KAMA.c b/ta-lib-rt/c/src/ta_func/ta_KAMA.c
index 315b8ab..c02cdcc 100644
--- a/ta-lib-rt/c/src/ta_func/ta_KAMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_KAMA.c
@@ -485,11 +485,12 @@
 
      if (((int)STATE.mem_index-1) > STATE.optInTimePeriod)
      {
-         STATE.sumROC1 -= std_fabs(STATE.trailingValue-POP_FROM_MEM(inReal));
+         STATE.sumROC1 -= std_fabs(STATE.trailingValue-MEM_IDX_NS(inReal, (STATE.mem_index-1-STATE.optInTimePeriod) % MEM_SIZE));
          STATE.sumROC1 += std_fabs(inReal-STATE.yestReal);
      }
 
-    STATE.trailingValue = POP_FROM_MEM(inReal);
+    /* The memory is longer than the period when there is an unstable period. */
+    STATE.trailingValue = MEM_IDX_NS(inReal, (STATE.mem_index-1-STATE.optInTimePeriod) % MEM_SIZE);
     periodROC = inReal - STATE.trailingValue;
 
 
-- 
2.43.0


From 8f2e76abd23623ecf947ff6335786286911c2d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:53 +0000
Subject: [PATCH 04/34] fix: T3 streaming with a period of 1 or an unstable
 period

---
 ta-lib-rt/c/src/ta_func/ta_T3.c | 47 +++++++++++++++------------------
 1 file changed, 21 insertions(+), 26 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_T3.c b/ta-lib-rt/c/src/ta_func/ta_T3.c
index 7a200c9..ab57ec6 100644
--- a/ta-lib-rt/c/src/ta_func/ta_T3.c
+++ b/ta-lib-rt/c/src/ta_func/ta_T3.c
@@ -480,6 +480,13 @@
     STATE.c4 = 1.0 + 3.0 * STATE.optInVFactor - STATE.c1 + 3.0 * t;
    }
 
+   if (STATE.optInTimePeriod == 1 && FIRST_LAUNCH)
+   {
+       /* Without smoothing all the seeds are the first value. */
+       STATE.e1 = STATE.e2 = STATE.e3 = STATE.e4 = STATE.e5 = STATE.e6 = inReal;
+       if (NEED_MORE_DATA)
+           return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
+   } else
    if ((int)_cur_idx < STATE.optInTimePeriod)
    {
        STATE.tempReal += inReal;
@@ -553,34 +560,22 @@
                                STATE.e6 = STATE.tempReal / STATE.optInTimePeriod;
                                STATE.tempReal = STATE.e6;
                            } else
-                               return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
+                                  return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
+                           /* This bar is already part of the seed. */
+                           if (NEED_MORE_DATA)
+                                  return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
+                       } else
+                       {
+                           STATE.e1  = (STATE.k*inReal)+(STATE.one_minus_k*STATE.e1);
+                           STATE.e2  = (STATE.k*STATE.e1)+(STATE.one_minus_k*STATE.e2);
+                           STATE.e3  = (STATE.k*STATE.e2)+(STATE.one_minus_k*STATE.e3);
+                           STATE.e4  = (STATE.k*STATE.e3)+(STATE.one_minus_k*STATE.e4);
+                           STATE.e5  = (STATE.k*STATE.e4)+(STATE.one_minus_k*STATE.e5);
+                           STATE.e6  = (STATE.k*STATE.e5)+(STATE.one_minus_k*STATE.e6);
+                           if (NEED_MORE_DATA)
+                                  return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
                        }
 
-   if (NEED_MORE_DATA)
-   {
-
-   STATE.e1  = (STATE.k*inReal)+(STATE.one_minus_k*STATE.e1);
-   STATE.e2  = (STATE.k*STATE.e1)+(STATE.one_minus_k*STATE.e2);
-   STATE.e3  = (STATE.k*STATE.e2)+(STATE.one_minus_k*STATE.e3);
-   STATE.e4  = (STATE.k*STATE.e3)+(STATE.one_minus_k*STATE.e4);
-   STATE.e5  = (STATE.k*STATE.e4)+(STATE.one_minus_k*STATE.e5);
-   STATE.e6  = (STATE.k*STATE.e5)+(STATE.one_minus_k*STATE.e6);
-   return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
-   } else
-       if (STATE.firstOutput == 0)
-       {
-           STATE.firstOutput = 1;
-           VALUE_HANDLE_DEREF(outReal) = STATE.c1*STATE.e6+STATE.c2*STATE.e5+STATE.c3*STATE.e4+STATE.c4*STATE.e3;
-           return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
-       }
-
-   STATE.e1  = (STATE.k*inReal)+(STATE.one_minus_k*STATE.e1);
-   STATE.e2  = (STATE.k*STATE.e1)+(STATE.one_minus_k*STATE.e2);
-   STATE.e3  = (STATE.k*STATE.e2)+(STATE.one_minus_k*STATE.e3);
-   STATE.e4  = (STATE.k*STATE.e3)+(STATE.one_minus_k*STATE.e4);
-   STATE.e5  = (STATE.k*STATE.e4)+(STATE.one_minus_k*STATE.e5);
-   STATE.e6  = (STATE.k*STATE.e5)+(STATE.one_minus_k*STATE.e6);
-
    VALUE_HANDLE_DEREF(outReal) = STATE.c1*STATE.e6+STATE.c2*STATE.e5+STATE.c3*STATE.e4+STATE.c4*STATE.e3;
 
    return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
-- 
2.43.0


From b4549b13ac92dd7500abd414533de74cf8445b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:53 +0000
Subject: [PATCH 05/34] fix: NATR divides by the close of the bar it outputs

The close was looked up with the index into the internal TRANGE buffer, so
any call whose startIdx is above the lookback used other bars' closes, and a
zero close cleared outReal[0]. Also honour the unstable period when streaming
ATR and NATR with a period of 1, and free that NATR state.
---
 ta-lib-rt/c/src/ta_func/ta_ATR.c  | 20 ++++++++++++-----
 ta-lib-rt/c/src/ta_func/ta_NATR.c | 37 +++++++++++++++++--------------
 2 files changed, 34 insertions(+), 23 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_ATR.c b/ta-lib-rt/c/src/ta_func/ta_ATR.c
index d94e087..06ae02e 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ATR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ATR.c
@@ -407,11 +407,6 @@ TA_RetCode retCode;
    /* insert local variable here */
 
 
-             if( STATE.optInTimePeriod <= 1 )
-             {
-                /* No smoothing needed. Just do a TRANGE. */
-                return FUNCTION_CALL_STATE(TRANGE)( (struct TA_TRANGE_State*) STATE.StateTRANGE, inHigh, inLow, inClose, outReal );
-             }
 
              TA_RetCode retCode;
 #define TA_ATR_SUPPRESS_EXIT_ON_NOT_ENOUGH_DATA
@@ -453,9 +448,17 @@ double tempReal, tempATR;
     }
 
    retCode = FUNCTION_CALL_STATE(TRANGE)( STATE.StateTRANGE,inHigh, inLow, inClose, &tempReal );
-
    if( retCode != ENUM_VALUE(RetCode,TA_SUCCESS,Success)) return retCode;
 
+   if( STATE.optInTimePeriod <= 1 )
+   {
+      /* No smoothing needed. Just do a TRANGE. */
+      if (NEED_MORE_DATA)
+         return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
+      VALUE_HANDLE_DEREF(outReal) = tempReal;
+      return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+   }
+
    if (STATE.firstATR == 1)
    {
      retCode = FUNCTION_CALL_STATE(SMA)( STATE.StateSMA, tempReal, &tempATR );
@@ -581,6 +584,11 @@ double tempReal, tempATR;
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   if (_state == NULL)
+      return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+      return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+
 
         TA_RetCode retCode;
 
diff --git a/ta-lib-rt/c/src/ta_func/ta_NATR.c b/ta-lib-rt/c/src/ta_func/ta_NATR.c
index db40d8e..9a24b13 100644
--- a/ta-lib-rt/c/src/ta_func/ta_NATR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_NATR.c
@@ -314,7 +314,7 @@
     * provided outReal.
     */
    outIdx = 1;
-   tempValue = inClose[today];
+   tempValue = inClose[startIdx];
    if( !TA_IS_ZERO(tempValue) )
       outReal[0] = (prevATR/tempValue)*100.0;
    else
@@ -328,11 +328,11 @@
       prevATR *= optInTimePeriod - 1;
       prevATR += tempBuffer[today++];
       prevATR /= optInTimePeriod;
-      tempValue = inClose[today];
+      tempValue = inClose[startIdx+outIdx];
       if( !TA_IS_ZERO(tempValue) )
          outReal[outIdx] = (prevATR/tempValue)*100.0;
       else
-         outReal[0] = 0.0;
+         outReal[outIdx] = 0.0;
       outIdx++;
    }
 
@@ -430,11 +430,6 @@ TA_RetCode retCode;
 /**** END GENCODE SECTION 7 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
-        if( STATE.optInTimePeriod <= 1 )
-        {
-           /* No smoothing needed. Just do a TRANGE. */
-           return FUNCTION_CALL_STATE(TRANGE)( (struct TA_TRANGE_State*) STATE.StateTRANGE, inHigh, inLow, inClose, outReal );
-        }
 
         TA_RetCode retCode;
 #define TA_NATR_SUPPRESS_EXIT_ON_NOT_ENOUGH_DATA
@@ -474,9 +469,17 @@ double tempReal, tempATR;
          }
 
         retCode = FUNCTION_CALL_STATE(TRANGE)( STATE.StateTRANGE,inHigh, inLow, inClose, &tempReal );
-
         if( retCode != ENUM_VALUE(RetCode,TA_SUCCESS,Success)) return retCode;
 
+        if( STATE.optInTimePeriod <= 1 )
+        {
+           /* No smoothing needed. Just do a TRANGE. */
+           if (NEED_MORE_DATA)
+              return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
+           VALUE_HANDLE_DEREF(outReal) = tempReal;
+           return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+        }
+
         if (STATE.firstATR == 1)
         {
           retCode = FUNCTION_CALL_STATE(SMA)( STATE.StateSMA, tempReal, &tempATR );
@@ -604,11 +607,11 @@ double tempReal, tempATR;
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
-        if( STATE_P.optInTimePeriod <= 1 )
-        {
-           /* No smoothing needed. Just do a TRANGE. */
-           return FUNCTION_CALL_STATE_FREE(TRANGE)( (struct TA_TRANGE_State**) &STATE_P.StateTRANGE);
-        }
+   if (_state == NULL)
+      return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+      return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+
 
         TA_RetCode retCode;
 
@@ -876,7 +879,7 @@ TA_RetCode retCode;
 /* Generated */       outIdx--;
 /* Generated */    }
 /* Generated */    outIdx = 1;
-/* Generated */    tempValue = inClose[today];
+/* Generated */    tempValue = inClose[startIdx];
 /* Generated */    if( !TA_IS_ZERO(tempValue) )
 /* Generated */       outReal[0] = (prevATR/tempValue)*100.0;
 /* Generated */    else
@@ -887,11 +890,11 @@ TA_RetCode retCode;
 /* Generated */       prevATR *= optInTimePeriod - 1;
 /* Generated */       prevATR += tempBuffer[today++];
 /* Generated */       prevATR /= optInTimePeriod;
-/* Generated */       tempValue = inClose[today];
+/* Generated */       tempValue = inClose[startIdx+outIdx];
 /* Generated */       if( !TA_IS_ZERO(tempValue) )
 /* Generated */          outReal[outIdx] = (prevATR/tempValue)*100.0;
 /* Generated */       else
-/* Generated */          outReal[0] = 0.0;
+/* Generated */          outReal[outIdx] = 0.0;
 /* Generated */       outIdx++;
 /* Generated */    }
 /* Generated */    VALUE_HANDLE_DEREF(outBegIdx)    = startIdx;
-- 
2.43.0


From 39db0e1040160ecd461dcf3ede7b64f60e2a21b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:53 +0000
Subject: [PATCH 06/34] fix: StateFree of composed functions accepts an already
 freed (NULL) state

They dereferenced it before the NULL check that all other functions do.
---
 ta-lib-rt/c/src/ta_func/ta_ACCBANDS.c | 5 +++++
 ta-lib-rt/c/src/ta_func/ta_ADXR.c     | 5 +++++
 ta-lib-rt/c/src/ta_func/ta_APO.c      | 5 +++++
 ta-lib-rt/c/src/ta_func/ta_BBANDS.c   | 5 +++++
 ta-lib-rt/c/src/ta_func/ta_DEMA.c     | 5 +++++
 ta-lib-rt/c/src/ta_func/ta_MA.c       | 5 +++++
 ta-lib-rt/c/src/ta_func/ta_MACD.c     | 5 +++++
 ta-lib-rt/c/src/ta_func/ta_MACDEXT.c  | 5 +++++
 ta-lib-rt/c/src/ta_func/ta_MAVP.c     | 5 +++++
 ta-lib-rt/c/src/ta_func/ta_SAR.c      | 5 +++++
 ta-lib-rt/c/src/ta_func/ta_SAREXT.c   | 5 +++++
 ta-lib-rt/c/src/ta_func/ta_STDDEV.c   | 5 +++++
 ta-lib-rt/c/src/ta_func/ta_STOCH.c    | 5 +++++
 ta-lib-rt/c/src/ta_func/ta_STOCHF.c   | 5 +++++
 ta-lib-rt/c/src/ta_func/ta_STOCHRSI.c | 5 +++++
 ta-lib-rt/c/src/ta_func/ta_TEMA.c     | 5 +++++
 ta-lib-rt/c/src/ta_func/ta_TRIX.c     | 5 +++++
 17 files changed, 85 insertions(+)

diff --git a/ta-lib-rt/c/src/ta_func/ta_ACCBANDS.c b/ta-lib-rt/c/src/ta_func/ta_ACCBANDS.c
index 001be92..d3cca0b 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ACCBANDS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ACCBANDS.c
@@ -603,6 +603,11 @@ double tempReal,tempReal1,tempReal2;
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   if (_state == NULL)
+      return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+      return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+
    TA_RetCode retCode;
    retCode = FUNCTION_CALL_STATE_FREE(SMA)( (struct TA_SMA_State**) &STATE_P.stateSMA1 );
    if (retCode != ENUM_VALUE(RetCode,TA_SUCCESS,Success)) return retCode;
diff --git a/ta-lib-rt/c/src/ta_func/ta_ADXR.c b/ta-lib-rt/c/src/ta_func/ta_ADXR.c
index fbeae8d..ff8560c 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ADXR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ADXR.c
@@ -509,6 +509,11 @@ double tempReal;
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   if (_state == NULL)
+      return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+      return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+
 ENUM_DECLARATION(RetCode) retCode;
 retCode = FUNCTION_CALL_STATE_FREE(ADX)((struct TA_ADX_State**)&STATE_P.ADXState);
 if (retCode != ENUM_VALUE(RetCode,TA_SUCCESS,Success)) return retCode;
diff --git a/ta-lib-rt/c/src/ta_func/ta_APO.c b/ta-lib-rt/c/src/ta_func/ta_APO.c
index 4ffec00..ccc97f8 100644
--- a/ta-lib-rt/c/src/ta_func/ta_APO.c
+++ b/ta-lib-rt/c/src/ta_func/ta_APO.c
@@ -705,6 +705,11 @@ int res1, res2;
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   if (_state == NULL)
+      return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+      return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+
      int res = FUNCTION_CALL_STATE_FREE(MA)((struct TA_MA_State**)&STATE_P.fastMAState);
      if (res != ENUM_VALUE(RetCode,TA_SUCCESS,Success)) return res;
 
diff --git a/ta-lib-rt/c/src/ta_func/ta_BBANDS.c b/ta-lib-rt/c/src/ta_func/ta_BBANDS.c
index 5f30d63..9a0d212 100644
--- a/ta-lib-rt/c/src/ta_func/ta_BBANDS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_BBANDS.c
@@ -727,6 +727,11 @@
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   if (_state == NULL)
+      return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+      return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+
         TA_RetCode retCode;
         retCode = FUNCTION_CALL_STATE_FREE(MA)( (struct TA_MA_State**) &STATE_P.stateMA );
         if (retCode != ENUM_VALUE(RetCode,TA_SUCCESS,Success)) return retCode;
diff --git a/ta-lib-rt/c/src/ta_func/ta_DEMA.c b/ta-lib-rt/c/src/ta_func/ta_DEMA.c
index 7e01523..7829dd4 100644
--- a/ta-lib-rt/c/src/ta_func/ta_DEMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_DEMA.c
@@ -558,6 +558,11 @@
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   if (_state == NULL)
+      return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+      return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+
 
 
         int res = FUNCTION_CALL_STATE_FREE(EMA)((struct TA_EMA_State**)&STATE_P.state_EMA);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MA.c b/ta-lib-rt/c/src/ta_func/ta_MA.c
index 7e04646..68badbd 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MA.c
@@ -660,6 +660,11 @@ return retValue;
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   if (_state == NULL)
+      return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+      return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+
 ENUM_DECLARATION(RetCode) retValue;
 
 if( STATE_P.optInTimePeriod != 1 )
diff --git a/ta-lib-rt/c/src/ta_func/ta_MACD.c b/ta-lib-rt/c/src/ta_func/ta_MACD.c
index c386b82..4814ee4 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MACD.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MACD.c
@@ -943,6 +943,11 @@ k2 = (double)0.15; /* Fix 12 */
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   if (_state == NULL)
+      return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+      return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+
     ENUM_DECLARATION(RetCode) retCode;
     retCode = FUNCTION_CALL_STATE_FREE(EMA)((struct TA_EMA_State**)&STATE_P.slowEMAState);
     if (retCode != ENUM_VALUE(RetCode,TA_SUCCESS,Success)) return retCode;
diff --git a/ta-lib-rt/c/src/ta_func/ta_MACDEXT.c b/ta-lib-rt/c/src/ta_func/ta_MACDEXT.c
index 5fcb6dc..15016dd 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MACDEXT.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MACDEXT.c
@@ -810,6 +810,11 @@ int tempInteger, tempInteger2;
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   if (_state == NULL)
+      return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+      return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+
         ENUM_DECLARATION(RetCode) retCode;
         retCode = FUNCTION_CALL_STATE_FREE(MA)((struct TA_MA_State**)&STATE_P.slowMAState);
         if (retCode != ENUM_VALUE(RetCode,TA_SUCCESS,Success)) return retCode;
diff --git a/ta-lib-rt/c/src/ta_func/ta_MAVP.c b/ta-lib-rt/c/src/ta_func/ta_MAVP.c
index 34b2bca..e6c4a45 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MAVP.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MAVP.c
@@ -568,6 +568,11 @@
 /* Generated */ #endif
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
+   if (_state == NULL)
+      return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+      return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+
    FUNCTION_CALL_STATE_FREE(MA) ((struct TA_MA_State**)&STATE_P.MAState);
 
 /**** START GENCODE SECTION 10 - DO NOT DELETE THIS LINE ****/
diff --git a/ta-lib-rt/c/src/ta_func/ta_SAR.c b/ta-lib-rt/c/src/ta_func/ta_SAR.c
index 21cd96a..f54fef9 100644
--- a/ta-lib-rt/c/src/ta_func/ta_SAR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_SAR.c
@@ -890,6 +890,11 @@ double ep_temp;
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   if (_state == NULL)
+      return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+      return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+
 TA_RetCode retCode;
 retCode = FUNCTION_CALL_STATE_FREE(MINUS_DM)( (struct TA_MINUS_DM_State**) &STATE_P.stateMINUS_DM );
 if (retCode != ENUM_VALUE(RetCode,TA_SUCCESS,Success)) return retCode;
diff --git a/ta-lib-rt/c/src/ta_func/ta_SAREXT.c b/ta-lib-rt/c/src/ta_func/ta_SAREXT.c
index a5856a2..6a8d7b3 100644
--- a/ta-lib-rt/c/src/ta_func/ta_SAREXT.c
+++ b/ta-lib-rt/c/src/ta_func/ta_SAREXT.c
@@ -1179,6 +1179,11 @@ if( optInAccelerationShort > optInAccelerationMaxShort )
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   if (_state == NULL)
+      return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+      return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+
  if (STATE_P.optInStartValue == 0)
   {
     TA_RetCode retCode;
diff --git a/ta-lib-rt/c/src/ta_func/ta_STDDEV.c b/ta-lib-rt/c/src/ta_func/ta_STDDEV.c
index 8345d65..c29bd18 100644
--- a/ta-lib-rt/c/src/ta_func/ta_STDDEV.c
+++ b/ta-lib-rt/c/src/ta_func/ta_STDDEV.c
@@ -583,6 +583,11 @@ void TA_PREFIX(INT_stddev_using_precalc_ma)( const INPUT_TYPE *inReal,
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   if (_state == NULL)
+      return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+      return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+
    FUNCTION_CALL_STATE_FREE(VAR)((struct TA_VAR_State**)&STATE_P.var_state);
 /**** START GENCODE SECTION 10 - DO NOT DELETE THIS LINE ****/
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_STOCH.c b/ta-lib-rt/c/src/ta_func/ta_STOCH.c
index 2613887..d564d91 100644
--- a/ta-lib-rt/c/src/ta_func/ta_STOCH.c
+++ b/ta-lib-rt/c/src/ta_func/ta_STOCH.c
@@ -901,6 +901,11 @@
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   if (_state == NULL)
+      return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+      return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+
         TA_RetCode retCode;
         retCode = FUNCTION_CALL_STATE_FREE(MA)( (struct TA_MA_State**) &STATE_P.stateMA1 );
         if (retCode != ENUM_VALUE(RetCode,TA_SUCCESS,Success)) return retCode;
diff --git a/ta-lib-rt/c/src/ta_func/ta_STOCHF.c b/ta-lib-rt/c/src/ta_func/ta_STOCHF.c
index 9754424..3c5e275 100644
--- a/ta-lib-rt/c/src/ta_func/ta_STOCHF.c
+++ b/ta-lib-rt/c/src/ta_func/ta_STOCHF.c
@@ -841,6 +841,11 @@ TA_RetCode retCode;
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   if (_state == NULL)
+      return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+      return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+
         TA_RetCode retCode;
         retCode = FUNCTION_CALL_STATE_FREE(MA)( (struct TA_MA_State**) &STATE_P.stateMA1 );
         if (retCode != ENUM_VALUE(RetCode,TA_SUCCESS,Success)) return retCode;
diff --git a/ta-lib-rt/c/src/ta_func/ta_STOCHRSI.c b/ta-lib-rt/c/src/ta_func/ta_STOCHRSI.c
index 15f6384..20938d8 100644
--- a/ta-lib-rt/c/src/ta_func/ta_STOCHRSI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_STOCHRSI.c
@@ -615,6 +615,11 @@ TA_RetCode retCode;
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   if (_state == NULL)
+      return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+      return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+
         TA_RetCode retCode;
         retCode = FUNCTION_CALL_STATE_FREE(RSI)( (struct TA_RSI_State**) &STATE_P.stateRSI );
         if (retCode != ENUM_VALUE(RetCode,TA_SUCCESS,Success)) return retCode;
diff --git a/ta-lib-rt/c/src/ta_func/ta_TEMA.c b/ta-lib-rt/c/src/ta_func/ta_TEMA.c
index 4aaf978..6a3569c 100644
--- a/ta-lib-rt/c/src/ta_func/ta_TEMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_TEMA.c
@@ -568,6 +568,11 @@
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   if (_state == NULL)
+      return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+      return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+
 
         int res = FUNCTION_CALL_STATE_FREE(EMA)((struct TA_EMA_State**)&STATE_P.state_EMA);
         if (res == ENUM_VALUE(RetCode,TA_SUCCESS,Success))
diff --git a/ta-lib-rt/c/src/ta_func/ta_TRIX.c b/ta-lib-rt/c/src/ta_func/ta_TRIX.c
index 4e48687..52bf2ef 100644
--- a/ta-lib-rt/c/src/ta_func/ta_TRIX.c
+++ b/ta-lib-rt/c/src/ta_func/ta_TRIX.c
@@ -528,6 +528,11 @@
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   if (_state == NULL)
+      return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+   if (STATE == NULL)
+      return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+
         TA_RetCode retCode;
         retCode = FUNCTION_CALL_STATE_FREE(EMA)( (struct TA_EMA_State**) &STATE_P.stateEMA1 );
         if (retCode != ENUM_VALUE(RetCode,TA_SUCCESS,Success)) return retCode;
-- 
2.43.0


From 11148e34ddfd10d4bd03085ff281d76d5322c52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:21 +0000
Subject: [PATCH 07/34] fix: streaming of the linear regression functions and
 TSF

The streamed sum weighted the newest bar 1 instead of 0; four of them also
suppressed the generated early return of LINEARREG instead of their own, so
their state was never initialised. The constant sums are computed in double:
the int product overflows for a period above 1024.
---
 ta-lib-rt/c/src/ta_func/ta_LINEARREG.c        | 18 ++++++++---------
 ta-lib-rt/c/src/ta_func/ta_LINEARREG_ANGLE.c  | 20 +++++++++----------
 .../c/src/ta_func/ta_LINEARREG_INTERCEPT.c    | 20 +++++++++----------
 ta-lib-rt/c/src/ta_func/ta_LINEARREG_SLOPE.c  | 20 +++++++++----------
 ta-lib-rt/c/src/ta_func/ta_TSF.c              | 20 +++++++++----------
 5 files changed, 49 insertions(+), 49 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_LINEARREG.c b/ta-lib-rt/c/src/ta_func/ta_LINEARREG.c
index 82a880c..067e24d 100644
--- a/ta-lib-rt/c/src/ta_func/ta_LINEARREG.c
+++ b/ta-lib-rt/c/src/ta_func/ta_LINEARREG.c
@@ -231,8 +231,8 @@
    outIdx = 0; /* Index into the output. */
    today = startIdx;
 
-   SumX = optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
-   SumXSqr = optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
+   SumX = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
+   SumXSqr = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
    Divisor = SumX * SumX - optInTimePeriod * SumXSqr;
 
    while( today <= endIdx )
@@ -357,8 +357,8 @@
 
    if (FIRST_LAUNCH)
         { // init const values
-            STATE.SumX = STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * 0.5;
-            STATE.SumXSqr = STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * ( 2 * STATE.optInTimePeriod - 1 ) / 6;
+            STATE.SumX = (double)STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * 0.5;
+            STATE.SumXSqr = (double)STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * ( 2 * STATE.optInTimePeriod - 1 ) / 6;
             STATE.Divisor = STATE.SumX * STATE.SumX - STATE.optInTimePeriod * STATE.SumXSqr;
           // init sums
             STATE.SumXY = 0;
@@ -368,14 +368,14 @@
 
    if (NEED_MORE_DATA)
    {
+       STATE.SumXY += STATE.SumY; // the latest bar has a weight of 0: (i-1)*a+(i-2)*b+ ... +0*z
        STATE.SumY += inReal;
-       STATE.SumXY += STATE.SumY; // at the end shall be (i*a+(i-1)*b+(i-2)*c ... +z)
       PUSH_TO_MEM(inReal,inReal);
       return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
    }
 
+   STATE.SumXY += STATE.SumY; // the latest bar has a weight of 0: (i-1)*a+(i-2)*b+ ... +0*z
    STATE.SumY += inReal;
-   STATE.SumXY += STATE.SumY; // at the end shall be (i*a+(i-1)*b+(i-2)*c ... +z)
 
    m = ( STATE.optInTimePeriod * STATE.SumXY - STATE.SumX * STATE.SumY) / STATE.Divisor;
    b = ( STATE.SumY - m * STATE.SumX ) / (double)STATE.optInTimePeriod;
@@ -383,7 +383,7 @@
 
    tempReal = POP_FROM_MEM(inReal);
    STATE.SumY -= tempReal;
-   STATE.SumXY  -= tempReal*STATE.optInTimePeriod;
+   STATE.SumXY  -= tempReal*(STATE.optInTimePeriod-1);
    PUSH_TO_MEM(inReal,inReal);
 
    return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
@@ -701,8 +701,8 @@
 /* Generated */    }
 /* Generated */    outIdx = 0; 
 /* Generated */    today = startIdx;
-/* Generated */    SumX = optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
-/* Generated */    SumXSqr = optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
+/* Generated */    SumX = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
+/* Generated */    SumXSqr = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
 /* Generated */    Divisor = SumX * SumX - optInTimePeriod * SumXSqr;
 /* Generated */    while( today <= endIdx )
 /* Generated */    {
diff --git a/ta-lib-rt/c/src/ta_func/ta_LINEARREG_ANGLE.c b/ta-lib-rt/c/src/ta_func/ta_LINEARREG_ANGLE.c
index f0e189b..c1dd648 100644
--- a/ta-lib-rt/c/src/ta_func/ta_LINEARREG_ANGLE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_LINEARREG_ANGLE.c
@@ -233,8 +233,8 @@
    outIdx = 0; /* Index into the output. */
    today = startIdx;
 
-   SumX = optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
-   SumXSqr = optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
+   SumX = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
+   SumXSqr = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
    Divisor = SumX * SumX - optInTimePeriod * SumXSqr;
 
    while( today <= endIdx )
@@ -327,7 +327,7 @@
 /**** END GENCODE SECTION 7 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
-#define TA_LINEARREG_SUPPRESS_EXIT_ON_NOT_ENOUGH_DATA
+#define TA_LINEARREG_ANGLE_SUPPRESS_EXIT_ON_NOT_ENOUGH_DATA
 double m, tempReal;
 /**** START GENCODE SECTION 8 - DO NOT DELETE THIS LINE ****/
 /* Generated */ 
@@ -358,8 +358,8 @@ double m, tempReal;
 
         if (FIRST_LAUNCH)
              { // init const values
-                 STATE.SumX = STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * 0.5;
-                 STATE.SumXSqr = STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * ( 2 * STATE.optInTimePeriod - 1 ) / 6;
+                 STATE.SumX = (double)STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * 0.5;
+                 STATE.SumXSqr = (double)STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * ( 2 * STATE.optInTimePeriod - 1 ) / 6;
                  STATE.Divisor = STATE.SumX * STATE.SumX - STATE.optInTimePeriod * STATE.SumXSqr;
                // init sums
                  STATE.SumXY = 0;
@@ -369,21 +369,21 @@ double m, tempReal;
 
         if (NEED_MORE_DATA)
         {
+            STATE.SumXY += STATE.SumY; // the latest bar has a weight of 0: (i-1)*a+(i-2)*b+ ... +0*z
             STATE.SumY += inReal;
-            STATE.SumXY += STATE.SumY; // at the end shall be (i*a+(i-1)*b+(i-2)*c ... +z)
            PUSH_TO_MEM(inReal,inReal);
            return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
         }
 
+        STATE.SumXY += STATE.SumY; // the latest bar has a weight of 0: (i-1)*a+(i-2)*b+ ... +0*z
         STATE.SumY += inReal;
-        STATE.SumXY += STATE.SumY; // at the end shall be (i*a+(i-1)*b+(i-2)*c ... +z)
 
         m = ( STATE.optInTimePeriod * STATE.SumXY - STATE.SumX * STATE.SumY) / STATE.Divisor;
         VALUE_HANDLE_DEREF(outReal) = std_atan(m) * ( 180.0 / PI );
 
         tempReal = POP_FROM_MEM(inReal);
         STATE.SumY -= tempReal;
-        STATE.SumXY  -= tempReal*STATE.optInTimePeriod;
+        STATE.SumXY  -= tempReal*(STATE.optInTimePeriod-1);
         PUSH_TO_MEM(inReal,inReal);
 
    return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
@@ -701,8 +701,8 @@ double m, tempReal;
 /* Generated */    }
 /* Generated */    outIdx = 0; 
 /* Generated */    today = startIdx;
-/* Generated */    SumX = optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
-/* Generated */    SumXSqr = optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
+/* Generated */    SumX = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
+/* Generated */    SumXSqr = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
 /* Generated */    Divisor = SumX * SumX - optInTimePeriod * SumXSqr;
 /* Generated */    while( today <= endIdx )
 /* Generated */    {
diff --git a/ta-lib-rt/c/src/ta_func/ta_LINEARREG_INTERCEPT.c b/ta-lib-rt/c/src/ta_func/ta_LINEARREG_INTERCEPT.c
index 7e88184..a76e110 100644
--- a/ta-lib-rt/c/src/ta_func/ta_LINEARREG_INTERCEPT.c
+++ b/ta-lib-rt/c/src/ta_func/ta_LINEARREG_INTERCEPT.c
@@ -231,8 +231,8 @@
    outIdx = 0; /* Index into the output. */
    today = startIdx;
 
-   SumX = optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
-   SumXSqr = optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
+   SumX = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
+   SumXSqr = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
    Divisor = SumX * SumX - optInTimePeriod * SumXSqr;
 
    while( today <= endIdx )
@@ -325,7 +325,7 @@
 /**** END GENCODE SECTION 7 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
-#define TA_LINEARREG_SUPPRESS_EXIT_ON_NOT_ENOUGH_DATA
+#define TA_LINEARREG_INTERCEPT_SUPPRESS_EXIT_ON_NOT_ENOUGH_DATA
 double m, tempReal;
 /**** START GENCODE SECTION 8 - DO NOT DELETE THIS LINE ****/
 /* Generated */ 
@@ -356,8 +356,8 @@ double m, tempReal;
 
         if (FIRST_LAUNCH)
              { // init const values
-                 STATE.SumX = STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * 0.5;
-                 STATE.SumXSqr = STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * ( 2 * STATE.optInTimePeriod - 1 ) / 6;
+                 STATE.SumX = (double)STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * 0.5;
+                 STATE.SumXSqr = (double)STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * ( 2 * STATE.optInTimePeriod - 1 ) / 6;
                  STATE.Divisor = STATE.SumX * STATE.SumX - STATE.optInTimePeriod * STATE.SumXSqr;
                // init sums
                  STATE.SumXY = 0;
@@ -367,14 +367,14 @@ double m, tempReal;
 
         if (NEED_MORE_DATA)
         {
+            STATE.SumXY += STATE.SumY; // the latest bar has a weight of 0: (i-1)*a+(i-2)*b+ ... +0*z
             STATE.SumY += inReal;
-            STATE.SumXY += STATE.SumY; // at the end shall be (i*a+(i-1)*b+(i-2)*c ... +z)
            PUSH_TO_MEM(inReal,inReal);
            return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
         }
 
+        STATE.SumXY += STATE.SumY; // the latest bar has a weight of 0: (i-1)*a+(i-2)*b+ ... +0*z
         STATE.SumY += inReal;
-        STATE.SumXY += STATE.SumY; // at the end shall be (i*a+(i-1)*b+(i-2)*c ... +z)
 
         m = ( STATE.optInTimePeriod * STATE.SumXY - STATE.SumX * STATE.SumY) / STATE.Divisor;
 
@@ -382,7 +382,7 @@ double m, tempReal;
 
         tempReal = POP_FROM_MEM(inReal);
         STATE.SumY -= tempReal;
-        STATE.SumXY  -= tempReal*STATE.optInTimePeriod;
+        STATE.SumXY  -= tempReal*(STATE.optInTimePeriod-1);
         PUSH_TO_MEM(inReal,inReal);
 
    return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
@@ -700,8 +700,8 @@ double m, tempReal;
 /* Generated */    }
 /* Generated */    outIdx = 0; 
 /* Generated */    today = startIdx;
-/* Generated */    SumX = optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
-/* Generated */    SumXSqr = optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
+/* Generated */    SumX = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
+/* Generated */    SumXSqr = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
 /* Generated */    Divisor = SumX * SumX - optInTimePeriod * SumXSqr;
 /* Generated */    while( today <= endIdx )
 /* Generated */    {
diff --git a/ta-lib-rt/c/src/ta_func/ta_LINEARREG_SLOPE.c b/ta-lib-rt/c/src/ta_func/ta_LINEARREG_SLOPE.c
index 3b3e44e..3e98a51 100644
--- a/ta-lib-rt/c/src/ta_func/ta_LINEARREG_SLOPE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_LINEARREG_SLOPE.c
@@ -230,8 +230,8 @@
    outIdx = 0; /* Index into the output. */
    today = startIdx;
 
-   SumX = optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
-   SumXSqr = optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
+   SumX = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
+   SumXSqr = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
    Divisor = SumX * SumX - optInTimePeriod * SumXSqr;
 
    while( today <= endIdx )
@@ -323,7 +323,7 @@
 /**** END GENCODE SECTION 7 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
-#define TA_LINEARREG_SUPPRESS_EXIT_ON_NOT_ENOUGH_DATA
+#define TA_LINEARREG_SLOPE_SUPPRESS_EXIT_ON_NOT_ENOUGH_DATA
 double tempReal;
 /**** START GENCODE SECTION 8 - DO NOT DELETE THIS LINE ****/
 /* Generated */ 
@@ -354,8 +354,8 @@ double tempReal;
 
         if (FIRST_LAUNCH)
              { // init const values
-                 STATE.SumX = STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * 0.5;
-                 STATE.SumXSqr = STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * ( 2 * STATE.optInTimePeriod - 1 ) / 6;
+                 STATE.SumX = (double)STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * 0.5;
+                 STATE.SumXSqr = (double)STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * ( 2 * STATE.optInTimePeriod - 1 ) / 6;
                  STATE.Divisor = STATE.SumX * STATE.SumX - STATE.optInTimePeriod * STATE.SumXSqr;
                // init sums
                  STATE.SumXY = 0;
@@ -365,20 +365,20 @@ double tempReal;
 
         if (NEED_MORE_DATA)
         {
+            STATE.SumXY += STATE.SumY; // the latest bar has a weight of 0: (i-1)*a+(i-2)*b+ ... +0*z
             STATE.SumY += inReal;
-            STATE.SumXY += STATE.SumY; // at the end shall be (i*a+(i-1)*b+(i-2)*c ... +z)
            PUSH_TO_MEM(inReal,inReal);
            return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
         }
 
+        STATE.SumXY += STATE.SumY; // the latest bar has a weight of 0: (i-1)*a+(i-2)*b+ ... +0*z
         STATE.SumY += inReal;
-        STATE.SumXY += STATE.SumY; // at the end shall be (i*a+(i-1)*b+(i-2)*c ... +z)
 
         VALUE_HANDLE_DEREF(outReal) = ( STATE.optInTimePeriod * STATE.SumXY - STATE.SumX * STATE.SumY) / STATE.Divisor;
 
         tempReal = POP_FROM_MEM(inReal);
         STATE.SumY -= tempReal;
-        STATE.SumXY  -= tempReal*STATE.optInTimePeriod;
+        STATE.SumXY  -= tempReal*(STATE.optInTimePeriod-1);
         PUSH_TO_MEM(inReal,inReal);
 
    return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
@@ -695,8 +695,8 @@ double tempReal;
 /* Generated */    }
 /* Generated */    outIdx = 0; 
 /* Generated */    today = startIdx;
-/* Generated */    SumX = optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
-/* Generated */    SumXSqr = optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
+/* Generated */    SumX = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
+/* Generated */    SumXSqr = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
 /* Generated */    Divisor = SumX * SumX - optInTimePeriod * SumXSqr;
 /* Generated */    while( today <= endIdx )
 /* Generated */    {
diff --git a/ta-lib-rt/c/src/ta_func/ta_TSF.c b/ta-lib-rt/c/src/ta_func/ta_TSF.c
index f6e7847..aed44a7 100644
--- a/ta-lib-rt/c/src/ta_func/ta_TSF.c
+++ b/ta-lib-rt/c/src/ta_func/ta_TSF.c
@@ -231,8 +231,8 @@
    outIdx = 0; /* Index into the output. */
    today = startIdx;
 
-   SumX = optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
-   SumXSqr = optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
+   SumX = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
+   SumXSqr = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
    Divisor = SumX * SumX - optInTimePeriod * SumXSqr;
 
    while( today <= endIdx )
@@ -326,7 +326,7 @@
 /**** END GENCODE SECTION 7 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
-#define TA_LINEARREG_SUPPRESS_EXIT_ON_NOT_ENOUGH_DATA
+#define TA_TSF_SUPPRESS_EXIT_ON_NOT_ENOUGH_DATA
 double m, b, tempReal;
 /**** START GENCODE SECTION 8 - DO NOT DELETE THIS LINE ****/
 /* Generated */ 
@@ -357,8 +357,8 @@ double m, b, tempReal;
 
         if (FIRST_LAUNCH)
              { // init const values
-                 STATE.SumX = STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * 0.5;
-                 STATE.SumXSqr = STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * ( 2 * STATE.optInTimePeriod - 1 ) / 6;
+                 STATE.SumX = (double)STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * 0.5;
+                 STATE.SumXSqr = (double)STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * ( 2 * STATE.optInTimePeriod - 1 ) / 6;
                  STATE.Divisor = STATE.SumX * STATE.SumX - STATE.optInTimePeriod * STATE.SumXSqr;
                // init sums
                  STATE.SumXY = 0;
@@ -368,14 +368,14 @@ double m, b, tempReal;
 
         if (NEED_MORE_DATA)
         {
+            STATE.SumXY += STATE.SumY; // the latest bar has a weight of 0: (i-1)*a+(i-2)*b+ ... +0*z
             STATE.SumY += inReal;
-            STATE.SumXY += STATE.SumY; // at the end shall be (i*a+(i-1)*b+(i-2)*c ... +z)
            PUSH_TO_MEM(inReal,inReal);
            return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
         }
 
+        STATE.SumXY += STATE.SumY; // the latest bar has a weight of 0: (i-1)*a+(i-2)*b+ ... +0*z
         STATE.SumY += inReal;
-        STATE.SumXY += STATE.SumY; // at the end shall be (i*a+(i-1)*b+(i-2)*c ... +z)
 
         m = ( STATE.optInTimePeriod * STATE.SumXY - STATE.SumX * STATE.SumY) / STATE.Divisor;
         b = ( STATE.SumY - m * STATE.SumX ) / (double)STATE.optInTimePeriod;
@@ -383,7 +383,7 @@ double m, b, tempReal;
 
         tempReal = POP_FROM_MEM(inReal);
         STATE.SumY -= tempReal;
-        STATE.SumXY  -= tempReal*STATE.optInTimePeriod;
+        STATE.SumXY  -= tempReal*(STATE.optInTimePeriod-1);
         PUSH_TO_MEM(inReal,inReal);
 
    return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
@@ -701,8 +701,8 @@ double m, b, tempReal;
 /* Generated */    }
 /* Generated */    outIdx = 0; 
 /* Generated */    today = startIdx;
-/* Generated */    SumX = optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
-/* Generated */    SumXSqr = optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
+/* Generated */    SumX = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
+/* Generated */    SumXSqr = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
 /* Generated */    Divisor = SumX * SumX - optInTimePeriod * SumXSqr;
 /* Generated */    while( today <= endIdx )
 /* Generated */    {
-- 
2.43.0


From c73f0ab40ccf0fdcc057d125206c46274fb6dbdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:21 +0000
Subject: [PATCH 08/34] fix: SUM and AVGDEV streaming output the whole window

SUM returned the last input, AVGDEV left one value of the window out.
---
 ta-lib-rt/c/src/ta_func/ta_AVGDEV.c |  8 +++++---
 ta-lib-rt/c/src/ta_func/ta_SUM.c    | 10 +++++-----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_AVGDEV.c b/ta-lib-rt/c/src/ta_func/ta_AVGDEV.c
index 47682c2..c102a93 100644
--- a/ta-lib-rt/c/src/ta_func/ta_AVGDEV.c
+++ b/ta-lib-rt/c/src/ta_func/ta_AVGDEV.c
@@ -340,11 +340,10 @@
    }
 
 
-   STATE.sum -= POP_FROM_MEM(inReal);
    STATE.sum += inReal;
-   PUSH_TO_MEM(inReal, inReal);
 
-   temp = 0.0;
+   /* The memory has the period-1 values before this one. */
+   temp = std_fabs(inReal - STATE.sum / STATE.optInTimePeriod);
 
    FOR_ALL_MEM(i) {
        temp += std_fabs(MEM_IDX_NS(inReal,i) - STATE.sum / STATE.optInTimePeriod);
@@ -352,6 +351,9 @@
 
    VALUE_HANDLE_DEREF(outReal) = temp / STATE.optInTimePeriod;
 
+   STATE.sum -= POP_FROM_MEM(inReal);
+   PUSH_TO_MEM(inReal, inReal);
+
    return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 }
 
diff --git a/ta-lib-rt/c/src/ta_func/ta_SUM.c b/ta-lib-rt/c/src/ta_func/ta_SUM.c
index f8c4179..4952ece 100644
--- a/ta-lib-rt/c/src/ta_func/ta_SUM.c
+++ b/ta-lib-rt/c/src/ta_func/ta_SUM.c
@@ -356,11 +356,11 @@
       VALUE_HANDLE_DEREF(outReal) =  0;
       return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
 
-   } else {             
-       _state->tempSum -= POP_FROM_MEM(inReal);
-       _state->tempSum += inReal;
-       PUSH_TO_MEM(inReal,inReal);
-       VALUE_HANDLE_DEREF(outReal) = inReal;
+   } else {
+        _state->tempSum += inReal;
+        VALUE_HANDLE_DEREF(outReal) = _state->tempSum;
+        _state->tempSum -= POP_FROM_MEM(inReal);
+        PUSH_TO_MEM(inReal,inReal);
        return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
    }
 
-- 
2.43.0


From 7850da43dbbe2c73de6a166f12f9d8e0e196e3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:21 +0000
Subject: [PATCH 09/34] fix: SAREXT streaming with a start value asks for a
 second bar

---
 ta-lib-rt/c/src/ta_func/ta_SAREXT.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ta-lib-rt/c/src/ta_func/ta_SAREXT.c b/ta-lib-rt/c/src/ta_func/ta_SAREXT.c
index 6a8d7b3..cc00bea 100644
--- a/ta-lib-rt/c/src/ta_func/ta_SAREXT.c
+++ b/ta-lib-rt/c/src/ta_func/ta_SAREXT.c
@@ -896,7 +896,11 @@ if( optInAccelerationShort > optInAccelerationMaxShort )
              if (retCode != ENUM_VALUE(RetCode,TA_SUCCESS,Success)) return retCode;
              STATE.isLong = (ep_temp > 0)?0:1;
              } else
+             {
+                 if(FIRST_LAUNCH)
+                    return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
                  STATE.isLong = (STATE.optInStartValue > 0)?1:0;
+             }
 
              SAR_ROUNDING(STATE.newHigh);
              SAR_ROUNDING(STATE.newLow);
-- 
2.43.0


From 7ac4e20c9af8df8dd1c6a211d1d5d876b7f1bf70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:21 +0000
Subject: [PATCH 10/34] fix: ULTOSC streaming with default or 1 bar periods

The INT_MIN placeholders were sorted as periods, and a period of 1 removed a
value that had not been stored yet.
---
 ta-lib-rt/c/src/ta_func/ta_ULTOSC.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_ULTOSC.c b/ta-lib-rt/c/src/ta_func/ta_ULTOSC.c
index e7a3bbf..dbec4ca 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ULTOSC.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ULTOSC.c
@@ -429,6 +429,11 @@ DEFINE_CIRCBUF_STRUCT(ULTOSC, double)
        x = x ^ y; \
     }
 
+   //the defaults must be known before sorting
+    if ((int)optInTimePeriod1 == TA_INTEGER_DEFAULT) optInTimePeriod1 = 7;
+    if ((int)optInTimePeriod2 == TA_INTEGER_DEFAULT) optInTimePeriod2 = 14;
+    if ((int)optInTimePeriod3 == TA_INTEGER_DEFAULT) optInTimePeriod3 = 28;
+
    //sort optIns
     if (optInTimePeriod1 < optInTimePeriod2) {
         if (optInTimePeriod3 < optInTimePeriod1) swap(optInTimePeriod1, optInTimePeriod3);
@@ -582,6 +587,10 @@ DEFINE_CIRCBUF_STRUCT(ULTOSC, double)
         STATE.b1Total += trueRange;
     }
 
+    /* Stored before the trailing values are removed: with a period of 1 it is one of them. */
+    CIRCBUF_STRUCT_CURRENT_EL(ULTOSC, periodA) = closeMinusTrueLow;
+    CIRCBUF_STRUCT_CURRENT_EL(ULTOSC, periodB) = trueRange;
+
     if (!(NEED_MORE_DATA))
     {
         tempDouble = 0.0;
@@ -603,8 +612,6 @@ DEFINE_CIRCBUF_STRUCT(ULTOSC, double)
         STATE.a1Total -= CIRCBUF_STRUCT_EL(ULTOSC, periodA, idx);
         STATE.b1Total -= CIRCBUF_STRUCT_EL(ULTOSC, periodB, idx);
 }
-    CIRCBUF_STRUCT_CURRENT_EL(ULTOSC, periodA) = closeMinusTrueLow;
-    CIRCBUF_STRUCT_CURRENT_EL(ULTOSC, periodB) = trueRange;
 
     CIRCBUF_STRUCT_NEXT( ULTOSC, periodA);
     CIRCBUF_STRUCT_NEXT( ULTOSC, periodB);
-- 
2.43.0


From f7b14230dcb22967e9c82fa358f6334adfe1c6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:21 +0000
Subject: [PATCH 11/34] fix: APO and PPO streaming with default periods or the
 WLMA type

The periods were swapped before the INT_MIN placeholders were replaced, and
TA_MAType_WLMA was rejected.
---
 ta-lib-rt/c/src/ta_func/ta_APO.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_APO.c b/ta-lib-rt/c/src/ta_func/ta_APO.c
index ccc97f8..07dd7cd 100644
--- a/ta-lib-rt/c/src/ta_func/ta_APO.c
+++ b/ta-lib-rt/c/src/ta_func/ta_APO.c
@@ -491,13 +491,6 @@ TA_RetCode TA_PREFIX(INT_PO)( int    startIdx,
 
 int tempInteger;
 TA_RetCode retCode;
-if( optInSlowPeriod < optInFastPeriod )
-{
-    /* swap */
-    tempInteger     = optInSlowPeriod;
-    optInSlowPeriod = optInFastPeriod;
-    optInFastPeriod = tempInteger;
-}
 
 
  #ifndef TA_FUNC_NO_RANGE_CHECK
@@ -519,10 +512,18 @@ if( optInSlowPeriod < optInFastPeriod )
     #if !defined(_MANAGED) && !defined(_JAVA)
     if( (int)optInMAType == TA_INTEGER_DEFAULT )
        optInMAType = (TA_MAType)0;
-    else if( ((int)optInMAType < 0) || ((int)optInMAType > 8) )
+    else if( ((int)optInMAType < 0) || ((int)optInMAType > 9) )
        return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 
     #endif /* !defined(_MANAGED) && !defined(_JAVA)*/
+    /* Make sure slow is really slower than the fast period! */
+    if( optInSlowPeriod < optInFastPeriod )
+    {
+        /* swap */
+        tempInteger     = optInSlowPeriod;
+        optInSlowPeriod = optInFastPeriod;
+        optInFastPeriod = tempInteger;
+    }
     STATE = TA_Calloc(1, sizeof(struct TA_APO_State));
     STATE_P.mem_index = 0;
     STATE_P.optInFastPeriod = optInFastPeriod;
-- 
2.43.0


From 7756b5ae5dc804796e37293ba8318f958830bc7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:29 +0000
Subject: [PATCH 12/34] fix: BBANDS lookback covers the standard deviation

With MAMA (fixed lookback) and a longer period the bands were misaligned and
outBegIdx was below what the standard deviation needs. Streaming reported
success before the moving average had a value.
---
 ta-lib-rt/c/src/ta_func/ta_BBANDS.c | 41 ++++++++++++++++++++++++-----
 1 file changed, 35 insertions(+), 6 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_BBANDS.c b/ta-lib-rt/c/src/ta_func/ta_BBANDS.c
index 9a0d212..d4f3722 100644
--- a/ta-lib-rt/c/src/ta_func/ta_BBANDS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_BBANDS.c
@@ -99,6 +99,7 @@
 /**** END GENCODE SECTION 1 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   int lookbackMA, lookbackStdDev;
 
 /**** START GENCODE SECTION 2 - DO NOT DELETE THIS LINE ****/
 /* Generated */ #ifndef TA_FUNC_NO_RANGE_CHECK
@@ -132,8 +133,12 @@
    UNUSED_VARIABLE(optInNbDevUp);
    UNUSED_VARIABLE(optInNbDevDn);
 
-   /* The lookback is driven by the middle band moving average. */
-   return LOOKBACK_CALL(MA)( optInTimePeriod, optInMAType );                          
+   /* The lookback is driven by the middle band moving average, except
+    * when it needs less data than the standard deviation (e.g. MAMA).
+    */
+   lookbackMA     = LOOKBACK_CALL(MA)( optInTimePeriod, optInMAType );
+   lookbackStdDev = LOOKBACK_CALL(STDDEV)( optInTimePeriod, 1.0 );
+   return max( lookbackMA, lookbackStdDev );
 }
 
 /**** START GENCODE SECTION 3 - DO NOT DELETE THIS LINE ****/
@@ -213,7 +218,7 @@
 {
    /* Insert local variables here. */
    ENUM_DECLARATION(RetCode) retCode;
-   int i;
+   int i, lookbackTotal;
    double tempReal, tempReal2;
    ARRAY_REF(tempBuffer1);
    ARRAY_REF(tempBuffer2);
@@ -311,6 +316,17 @@
    #endif
 
 
+   /* Move up the start index if there is not enough initial data. */
+   lookbackTotal = LOOKBACK_CALL(BBANDS)( optInTimePeriod, optInNbDevUp, optInNbDevDn, optInMAType );
+   if( startIdx < lookbackTotal )
+      startIdx = lookbackTotal;
+   if( startIdx > endIdx )
+   {
+      VALUE_HANDLE_DEREF_TO_ZERO(outBegIdx);
+      VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
+      return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+   }
+
    /* Calculate the middle band, which is a moving average.
     * The other two bands will simply add/substract the
     * standard deviation from this middle band.
@@ -569,10 +585,14 @@
 /**** END GENCODE SECTION 8 - DO NOT DELETE THIS LINE ****/
 
    /* insert state based TA func code here. */
-   retCode = FUNCTION_CALL_STATE(MA)( (struct TA_MA_State*) STATE.stateMA, inReal, &tempReal2 );
-   if (retCode != ENUM_VALUE(RetCode,TA_SUCCESS,Success) && retCode != ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData)) return retCode;
    retCode = FUNCTION_CALL_STATE(STDDEV)( (struct TA_STDDEV_State*) STATE.stateSTDDEV, inReal, &tempReal );
+   if (retCode != ENUM_VALUE(RetCode,TA_SUCCESS,Success) && retCode != ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData)) return retCode;
+   /* The moving average starts later when it needs less data than the standard deviation. */
+   if (STATE.mem_index <= MEM_SIZE - ((struct TA_MA_State*) STATE.stateMA)->mem_size)
+      return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
+   retCode = FUNCTION_CALL_STATE(MA)( (struct TA_MA_State*) STATE.stateMA, inReal, &tempReal2 );
    if (retCode != ENUM_VALUE(RetCode,TA_SUCCESS,Success)) return retCode;
+   if (NEED_MORE_DATA) return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
 
 
    VALUE_HANDLE_DEREF(outRealMiddleBand) = tempReal2;
@@ -940,7 +960,7 @@ TA_RetCode retCode;
 /* Generated */ #endif
 /* Generated */ {
 /* Generated */    ENUM_DECLARATION(RetCode) retCode;
-/* Generated */    int i;
+/* Generated */    int i, lookbackTotal;
 /* Generated */    double tempReal, tempReal2;
 /* Generated */    ARRAY_REF(tempBuffer1);
 /* Generated */    ARRAY_REF(tempBuffer2);
@@ -1006,6 +1026,15 @@ TA_RetCode retCode;
 /* Generated */       if( (tempBuffer1 == inReal) || (tempBuffer2 == inReal) )
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    #endif
+/* Generated */    lookbackTotal = LOOKBACK_CALL(BBANDS)( optInTimePeriod, optInNbDevUp, optInNbDevDn, optInMAType );
+/* Generated */    if( startIdx < lookbackTotal )
+/* Generated */       startIdx = lookbackTotal;
+/* Generated */    if( startIdx > endIdx )
+/* Generated */    {
+/* Generated */       VALUE_HANDLE_DEREF_TO_ZERO(outBegIdx);
+/* Generated */       VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
+/* Generated */       return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+/* Generated */    }
 /* Generated */    retCode = FUNCTION_CALL(MA)( startIdx, endIdx, inReal,
 /* Generated */                                 optInTimePeriod, optInMAType,
 /* Generated */                                 outBegIdx, outNBElement, tempBuffer1 );
-- 
2.43.0


From b5bd8a243b56e183165caf97be634559b4c71e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:07 +0000
Subject: [PATCH 13/34] fix: MACDEXT streaming delays whichever moving average
 needs less data

---
 ta-lib-rt/c/src/ta_func/ta_MACDEXT.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_MACDEXT.c b/ta-lib-rt/c/src/ta_func/ta_MACDEXT.c
index 15016dd..0f08e0d 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MACDEXT.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MACDEXT.c
@@ -655,10 +655,13 @@ int tempInteger, tempInteger2;
            tempInteger2 = LOOKBACK_CALL(MA)( STATE.optInFastPeriod, STATE.optInFastMAType );
            if (tempInteger2 < 0) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 
-           STATE.fastMADelay = abs( tempInteger - tempInteger2 );
+           /* The one needing less data starts later (the slow one when negative). */
+           STATE.fastMADelay = tempInteger - tempInteger2;
          }
 
         /* Calculate the slow MA.  */
+        retCode1 = ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
+        if (-STATE.fastMADelay < (int) STATE.mem_index)
         retCode1 = FUNCTION_CALL_STATE(MA)( STATE.slowMAState, inReal, &slowMA );
 
         if( retCode1 != ENUM_VALUE(RetCode,TA_SUCCESS,Success) &&
-- 
2.43.0


From 1ef5e206fd72d4c814e409c58341ff020659ad53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:28 +0000
Subject: [PATCH 14/34] fix: MAVP rejects a minimum period above the maximum
 and computes in place

---
 ta-lib-rt/c/src/ta_func/ta_MAVP.c | 33 +++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_MAVP.c b/ta-lib-rt/c/src/ta_func/ta_MAVP.c
index e6c4a45..2dafb41 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MAVP.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MAVP.c
@@ -116,6 +116,9 @@
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
 /**** END GENCODE SECTION 2 - DO NOT DELETE THIS LINE ****/
    
+   if( optInMinPeriod > optInMaxPeriod )
+      return -1;
+
    return LOOKBACK_CALL(MA)(optInMaxPeriod, optInMAType);
 }
 
@@ -187,6 +190,7 @@
    int i, j, lookbackTotal, outputSize, tempInt, curPeriod;
    ARRAY_INT_REF(localPeriodArray);
    ARRAY_REF(localOutputArray);
+   ARRAY_REF(localResultArray);
    VALUE_HANDLE_INT(localBegIdx);
    VALUE_HANDLE_INT(localNbElement);
    ENUM_DECLARATION(RetCode) retCode;
@@ -238,6 +242,8 @@
    /* Identify the minimum number of price bar needed
     * to calculate at least one output.
     */
+   if( optInMinPeriod > optInMaxPeriod )
+      return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
    lookbackTotal = LOOKBACK_CALL(MA)(optInMaxPeriod,optInMAType);
 
    /* Move up the start index if there is not
@@ -270,6 +276,7 @@
 
    /* Allocate intermediate local buffer. */
    ARRAY_ALLOC(localOutputArray,outputSize);
+   ARRAY_ALLOC(localResultArray,outputSize);
    ARRAY_INT_ALLOC(localPeriodArray,outputSize);
 
    /* Copy caller array of period into local buffer.
@@ -311,25 +318,29 @@
            if( retCode != ENUM_VALUE(RetCode,TA_SUCCESS,Success) )
 		   {
               ARRAY_FREE(localOutputArray);
+              ARRAY_FREE(localResultArray);
 			  ARRAY_INT_FREE(localPeriodArray);
               VALUE_HANDLE_DEREF_TO_ZERO(outBegIdx);
               VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
               return retCode;
 	       }
 		   
-		   outReal[i] = localOutputArray[i];
+		   localResultArray[i] = localOutputArray[i];
 		   for( j=i+1; j < outputSize; j++ )
 		   {
 			   if( localPeriodArray[j] == curPeriod )
 			   {
 				   localPeriodArray[j] = 0; /* Flag to avoid recalculation */
-				   outReal[j] = localOutputArray[j];
+				   localResultArray[j] = localOutputArray[j];
 			   }
 		   }		   
 	   }
    }
 
+   ARRAY_MEMMOVE(outReal,0,localResultArray,0,outputSize);
+
    ARRAY_FREE(localOutputArray);
+   ARRAY_FREE(localResultArray);
    ARRAY_INT_FREE(localPeriodArray);
 
    /* Done. Inform the caller of the success. */
@@ -404,6 +415,13 @@
 
    /* insert state init code here. */
 
+ if( optInMinPeriod > optInMaxPeriod )
+ {
+    TA_Free( STATE );
+    STATE = NULL;
+    return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
+ }
+
  return FUNCTION_CALL_STATE_INIT(MA) ((struct TA_MA_State**)&STATE_P.MAState, STATE_P.optInMaxPeriod, STATE_P.optInMAType );
 }
 
@@ -760,6 +778,7 @@ TA_RetCode retCode;
 /* Generated */    int i, j, lookbackTotal, outputSize, tempInt, curPeriod;
 /* Generated */    ARRAY_INT_REF(localPeriodArray);
 /* Generated */    ARRAY_REF(localOutputArray);
+/* Generated */    ARRAY_REF(localResultArray);
 /* Generated */    VALUE_HANDLE_INT(localBegIdx);
 /* Generated */    VALUE_HANDLE_INT(localNbElement);
 /* Generated */    ENUM_DECLARATION(RetCode) retCode;
@@ -791,6 +810,8 @@ TA_RetCode retCode;
 /* Generated */        return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */     #endif 
 /* Generated */  #endif 
+/* Generated */    if( optInMinPeriod > optInMaxPeriod )
+/* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    lookbackTotal = LOOKBACK_CALL(MA)(optInMaxPeriod,optInMAType);
 /* Generated */    if( startIdx < lookbackTotal )
 /* Generated */       startIdx = lookbackTotal;
@@ -812,6 +833,7 @@ TA_RetCode retCode;
 /* Generated */    }   
 /* Generated */    outputSize = endIdx - tempInt + 1;
 /* Generated */    ARRAY_ALLOC(localOutputArray,outputSize);
+/* Generated */    ARRAY_ALLOC(localResultArray,outputSize);
 /* Generated */    ARRAY_INT_ALLOC(localPeriodArray,outputSize);
 /* Generated */    for( i=0; i < outputSize; i++ )
 /* Generated */    {
@@ -833,23 +855,26 @@ TA_RetCode retCode;
 /* Generated */            if( retCode != ENUM_VALUE(RetCode,TA_SUCCESS,Success) )
 /* Generated */ 		   {
 /* Generated */               ARRAY_FREE(localOutputArray);
+/* Generated */               ARRAY_FREE(localResultArray);
 /* Generated */ 			  ARRAY_INT_FREE(localPeriodArray);
 /* Generated */               VALUE_HANDLE_DEREF_TO_ZERO(outBegIdx);
 /* Generated */               VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
 /* Generated */               return retCode;
 /* Generated */ 	       }
-/* Generated */ 		   outReal[i] = localOutputArray[i];
+/* Generated */ 		   localResultArray[i] = localOutputArray[i];
 /* Generated */ 		   for( j=i+1; j < outputSize; j++ )
 /* Generated */ 		   {
 /* Generated */ 			   if( localPeriodArray[j] == curPeriod )
 /* Generated */ 			   {
 /* Generated */ 				   localPeriodArray[j] = 0; 
-/* Generated */ 				   outReal[j] = localOutputArray[j];
+/* Generated */ 				   localResultArray[j] = localOutputArray[j];
 /* Generated */ 			   }
 /* Generated */ 		   }		   
 /* Generated */ 	   }
 /* Generated */    }
+/* Generated */    ARRAY_MEMMOVE(outReal,0,localResultArray,0,outputSize);
 /* Generated */    ARRAY_FREE(localOutputArray);
+/* Generated */    ARRAY_FREE(localResultArray);
 /* Generated */    ARRAY_INT_FREE(localPeriodArray);
 /* Generated */    VALUE_HANDLE_DEREF(outBegIdx) = startIdx;
 /* Generated */    VALUE_HANDLE_DEREF(outNBElement) = outputSize;
-- 
2.43.0


From d39406fccfc9ba89a2982c6586467fec9b0b6240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:59 +0000
Subject: [PATCH 15/34] fix: STOCH and STOCHF in place with the D output, and
 streaming while the K window fills

---
 ta-lib-rt/c/src/ta_func/ta_STOCH.c  | 23 +++++++----------------
 ta-lib-rt/c/src/ta_func/ta_STOCHF.c | 23 +++++++----------------
 2 files changed, 14 insertions(+), 32 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_STOCH.c b/ta-lib-rt/c/src/ta_func/ta_STOCH.c
index d564d91..ee1bf41 100644
--- a/ta-lib-rt/c/src/ta_func/ta_STOCH.c
+++ b/ta-lib-rt/c/src/ta_func/ta_STOCH.c
@@ -411,12 +411,6 @@
       {
          tempBuffer = outSlowK;
       }
-      else if( (outSlowD == inHigh) ||
-               (outSlowD == inLow)  ||
-               (outSlowD == inClose) )
-      {
-         tempBuffer = outSlowD;
-      }
       else
       {
          #if !defined( _MANAGED ) && !defined(_JAVA)
@@ -725,7 +719,7 @@
                         STATE.lowest_exp = MEM_SIZE;
                         j = STATE.mem_index-1;
                         p = MEM_SIZE;
-                        for (i = 0; i < MEM_SIZE; i++)
+                        for (i = 0; i < MEM_SIZE && i < STATE.mem_index-1; i++)
                         {
                             temp = MEM_IDX_NS(inLow, (--j) % MEM_SIZE);
                             p--;
@@ -749,7 +743,7 @@
                         STATE.highest_exp = MEM_SIZE;
                         j = STATE.mem_index-1;
                         p = MEM_SIZE;
-                        for ( i = 0; i < MEM_SIZE; i++)
+                        for ( i = 0; i < MEM_SIZE && i < STATE.mem_index-1; i++)
                         {
                             temp = MEM_IDX_NS(inHigh, (--j) % MEM_SIZE);
                             p--;
@@ -766,8 +760,11 @@
                             STATE.highest_exp = MEM_SIZE;
                         }
 
-   PUSH_TO_MEM(inHigh,inHigh);
-   PUSH_TO_MEM(inLow,inLow);
+   if (MEM_SIZE > 0)
+   {
+      PUSH_TO_MEM(inHigh,inHigh);
+      PUSH_TO_MEM(inLow,inLow);
+   }
 
    if (NEED_MORE_DATA)
        return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
@@ -1216,12 +1213,6 @@ TA_RetCode retCode;
 /* Generated */       {
 /* Generated */          tempBuffer = outSlowK;
 /* Generated */       }
-/* Generated */       else if( (outSlowD == inHigh) ||
-/* Generated */                (outSlowD == inLow)  ||
-/* Generated */                (outSlowD == inClose) )
-/* Generated */       {
-/* Generated */          tempBuffer = outSlowD;
-/* Generated */       }
 /* Generated */       else
 /* Generated */       {
 /* Generated */          #if !defined( _MANAGED ) && !defined(_JAVA)
diff --git a/ta-lib-rt/c/src/ta_func/ta_STOCHF.c b/ta-lib-rt/c/src/ta_func/ta_STOCHF.c
index 3c5e275..d0df992 100644
--- a/ta-lib-rt/c/src/ta_func/ta_STOCHF.c
+++ b/ta-lib-rt/c/src/ta_func/ta_STOCHF.c
@@ -367,12 +367,6 @@
       {
          tempBuffer = outFastK;
       }
-      else if( (outFastD == inHigh) ||
-               (outFastD == inLow)  ||
-               (outFastD == inClose) )
-      {
-         tempBuffer = outFastD;
-      }
       else
       {
          #if !defined( _MANAGED ) && !defined( _JAVA )
@@ -667,7 +661,7 @@ TA_RetCode retCode;
                         STATE.lowest_exp = MEM_SIZE;
                         j = STATE.mem_index-1;
                         p = MEM_SIZE;
-                        for (i = 0; i < MEM_SIZE; i++)
+                        for (i = 0; i < MEM_SIZE && i < STATE.mem_index-1; i++)
                         {
                             temp = MEM_IDX_NS(inLow, (--j) % MEM_SIZE);
                             p--;
@@ -691,7 +685,7 @@ TA_RetCode retCode;
                         STATE.highest_exp = MEM_SIZE;
                         j = STATE.mem_index-1;
                         p = MEM_SIZE;
-                        for ( i = 0; i < MEM_SIZE; i++)
+                        for ( i = 0; i < MEM_SIZE && i < STATE.mem_index-1; i++)
                         {
                             temp = MEM_IDX_NS(inHigh, (--j) % MEM_SIZE);
                             p--;
@@ -708,8 +702,11 @@ TA_RetCode retCode;
                             STATE.highest_exp = MEM_SIZE;
                         }
 
-   PUSH_TO_MEM(inHigh,inHigh);
-   PUSH_TO_MEM(inLow,inLow);
+   if (MEM_SIZE > 0)
+   {
+      PUSH_TO_MEM(inHigh,inHigh);
+      PUSH_TO_MEM(inLow,inLow);
+   }
 
    if (NEED_MORE_DATA)
        return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
@@ -1125,12 +1122,6 @@ TA_RetCode retCode;
 /* Generated */       {
 /* Generated */          tempBuffer = outFastK;
 /* Generated */       }
-/* Generated */       else if( (outFastD == inHigh) ||
-/* Generated */                (outFastD == inLow)  ||
-/* Generated */                (outFastD == inClose) )
-/* Generated */       {
-/* Generated */          tempBuffer = outFastD;
-/* Generated */       }
 /* Generated */       else
 /* Generated */       {
 /* Generated */          #if !defined( _MANAGED ) && !defined( _JAVA )
-- 
2.43.0


From 5ce9c889ba9583769e4295737e51d26ccc87f13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:52 +0000
Subject: [PATCH 16/34] fix: streaming candlestick patterns keep their period
 totals over the right bars

---
 ta-lib-rt/c/src/ta_func/ta_CDL2CROWS.c        |  6 ++-
 ta-lib-rt/c/src/ta_func/ta_CDL3BLACKCROWS.c   | 16 ++------
 ta-lib-rt/c/src/ta_func/ta_CDL3INSIDE.c       | 18 +--------
 ta-lib-rt/c/src/ta_func/ta_CDLABANDONEDBABY.c | 27 ++-----------
 ta-lib-rt/c/src/ta_func/ta_CDLBREAKAWAY.c     | 12 +-----
 ta-lib-rt/c/src/ta_func/ta_CDLCOUNTERATTACK.c | 21 ++--------
 ta-lib-rt/c/src/ta_func/ta_CDLEVENINGSTAR.c   | 23 ++---------
 ta-lib-rt/c/src/ta_func/ta_CDLHIGHWAVE.c      | 13 +------
 ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKEMOD.c    |  7 +---
 ta-lib-rt/c/src/ta_func/ta_CDLKICKING.c       | 26 ++-----------
 .../c/src/ta_func/ta_CDLKICKINGBYLENGTH.c     | 26 ++-----------
 ta-lib-rt/c/src/ta_func/ta_CDLLONGLINE.c      | 26 ++++---------
 ta-lib-rt/c/src/ta_func/ta_CDLMORNINGSTAR.c   | 23 ++---------
 ta-lib-rt/c/src/ta_func/ta_CDLRICKSHAWMAN.c   | 32 ++++-----------
 .../c/src/ta_func/ta_CDLRISEFALL3METHODS.c    | 28 +++----------
 ta-lib-rt/c/src/ta_func/ta_CDLSHOOTINGSTAR.c  | 25 ++----------
 ta-lib-rt/c/src/ta_func/ta_CDLSHORTLINE.c     | 26 ++++---------
 ta-lib-rt/c/src/ta_func/ta_CDLSPINNINGTOP.c   | 19 +++------
 .../c/src/ta_func/ta_CDLSTALLEDPATTERN.c      | 39 +++----------------
 ta-lib-rt/c/src/ta_func/ta_CDLTRISTAR.c       | 11 +-----
 ta-lib-rt/c/src/ta_func/ta_CDLUNIQUE3RIVER.c  | 18 +--------
 .../c/src/ta_func/ta_CDLUPSIDEGAP2CROWS.c     | 18 +--------
 ta-lib-rt/c/src/ta_func/ta_utility.h          | 12 ++++++
 23 files changed, 92 insertions(+), 380 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_CDL2CROWS.c b/ta-lib-rt/c/src/ta_func/ta_CDL2CROWS.c
index 1e51a1d..b8a6068 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDL2CROWS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDL2CROWS.c
@@ -379,10 +379,12 @@
        else
            VALUE_HANDLE_DEREF(outInteger) = 0;
 
-       STATE.BodyLongPeriodTotal += TA_CANDLERANGE_STATE_IDX(  BodyLong, i2 ) - TA_CANDLERANGE_STATE( BodyLong, -MEM_SIZE );
-   } else  STATE.BodyLongPeriodTotal += TA_CANDLERANGE_STATE_CUR( BodyLong );
+    }
 
 
+
+   TA_CANDLETOTAL_STATE_UPDATE( BodyLong, STATE.BodyLongPeriodTotal, 2 );
+
    PUSH_TO_MEM(inOpen,inOpen);
    PUSH_TO_MEM(inHigh,inHigh);
    PUSH_TO_MEM(inLow,inLow);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDL3BLACKCROWS.c b/ta-lib-rt/c/src/ta_func/ta_CDL3BLACKCROWS.c
index ec59f27..739d3ee 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDL3BLACKCROWS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDL3BLACKCROWS.c
@@ -405,21 +405,11 @@ unsigned int i1,i2,i3;
             else
                 VALUE_HANDLE_DEREF(outInteger) = 0;
 
-            STATE.ShadowVeryShortPeriodTotal2 -= TA_CANDLERANGE_STATE( ShadowVeryShort,  STATE.periodShadowVeryShort-2 );
-            STATE.ShadowVeryShortPeriodTotal1 -= TA_CANDLERANGE_STATE( ShadowVeryShort,  STATE.periodShadowVeryShort-1 );
-            STATE.ShadowVeryShortPeriodTotal0 -= TA_CANDLERANGE_STATE( ShadowVeryShort,  STATE.periodShadowVeryShort );
         }
 
-
-        if (STATE.mem_index-1 >= 2)
-        {
-          STATE.ShadowVeryShortPeriodTotal2 += TA_CANDLERANGE_STATE_IDX(  ShadowVeryShort, i2 );
-          STATE.ShadowVeryShortPeriodTotal1 += TA_CANDLERANGE_STATE_IDX(  ShadowVeryShort, i1 );
-          STATE.ShadowVeryShortPeriodTotal0 += TA_CANDLERANGE_STATE_CUR( ShadowVeryShort );
-        }
-
-
-
+        TA_CANDLETOTAL_STATE_UPDATE( ShadowVeryShort, STATE.ShadowVeryShortPeriodTotal2, 2 );
+        TA_CANDLETOTAL_STATE_UPDATE( ShadowVeryShort, STATE.ShadowVeryShortPeriodTotal1, 1 );
+        TA_CANDLETOTAL_STATE_UPDATE( ShadowVeryShort, STATE.ShadowVeryShortPeriodTotal0, 0 );
 
         PUSH_TO_MEM(inOpen,inOpen);
         PUSH_TO_MEM(inHigh,inHigh);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDL3INSIDE.c b/ta-lib-rt/c/src/ta_func/ta_CDL3INSIDE.c
index 24383d6..a922421 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDL3INSIDE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDL3INSIDE.c
@@ -395,22 +395,8 @@ unsigned int i1,i2;
 
                 }
 
-
-                if (STATE.mem_index-1 >= 2)
-                {
-                  STATE.BodyLongPeriodTotal += TA_CANDLERANGE_STATE_IDX( BodyLong, i2 );
-                }
-
-                if (STATE.mem_index-1 >= 1)
-                {
-                  STATE.BodyShortPeriodTotal += TA_CANDLERANGE_STATE_IDX( BodyShort, i1 );
-                }
-
-                if (!(NEED_MORE_DATA))
-                {
-                 STATE.BodyLongPeriodTotal -= TA_CANDLERANGE_STATE( BodyLong, -STATE.periodBodyLong );
-                 STATE.BodyShortPeriodTotal -= TA_CANDLERANGE_STATE( BodyShort, -STATE.periodBodyShort );
-                }
+                TA_CANDLETOTAL_STATE_UPDATE( BodyLong, STATE.BodyLongPeriodTotal, 2 );
+                TA_CANDLETOTAL_STATE_UPDATE( BodyShort, STATE.BodyShortPeriodTotal, 1 );
 
                 PUSH_TO_MEM(inOpen,inOpen);
                 PUSH_TO_MEM(inHigh,inHigh);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLABANDONEDBABY.c b/ta-lib-rt/c/src/ta_func/ta_CDLABANDONEDBABY.c
index c419bf3..097694e 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLABANDONEDBABY.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLABANDONEDBABY.c
@@ -475,30 +475,9 @@
 
          }
 
-
-         if ((int)STATE.mem_index-1 >= STATE.gapBodyLong)
-         {
-           STATE.BodyLongPeriodTotal += TA_CANDLERANGE_STATE_IDX(  BodyLong, i2 );
-         }
-
-         if ((int)STATE.mem_index-1 >= STATE.gapBodyDoji)
-         {
-           STATE.BodyDojiPeriodTotal += TA_CANDLERANGE_STATE_IDX(  BodyDoji, i1 );
-         }
-
-         if ((int)STATE.mem_index-1 >= STATE.gapBodyShort)
-         {
-           STATE.BodyShortPeriodTotal += TA_CANDLERANGE_STATE_CUR( BodyShort );
-         }
-
-
-
-         if (!(NEED_MORE_DATA))
-         {
-          STATE.BodyLongPeriodTotal -= TA_CANDLERANGE_STATE( BodyLong, -STATE.periodBodyLong );
-          STATE.BodyDojiPeriodTotal -= TA_CANDLERANGE_STATE( BodyDoji, -STATE.periodBodyDoji );
-          STATE.BodyShortPeriodTotal -= TA_CANDLERANGE_STATE( BodyShort, -STATE.periodBodyShort );
-         }
+         TA_CANDLETOTAL_STATE_UPDATE( BodyLong, STATE.BodyLongPeriodTotal, 2 );
+         TA_CANDLETOTAL_STATE_UPDATE( BodyDoji, STATE.BodyDojiPeriodTotal, 1 );
+         TA_CANDLETOTAL_STATE_UPDATE( BodyShort, STATE.BodyShortPeriodTotal, 0 );
 
          PUSH_TO_MEM(inOpen,inOpen);
          PUSH_TO_MEM(inHigh,inHigh);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLBREAKAWAY.c b/ta-lib-rt/c/src/ta_func/ta_CDLBREAKAWAY.c
index fd4f6a1..8ddc187 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLBREAKAWAY.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLBREAKAWAY.c
@@ -411,17 +411,7 @@ unsigned int i1,i2,i3,i4;
 
         }
 
-
-        if ((int)STATE.mem_index-1 >= 4)
-        {
-           STATE.BodyLongPeriodTotal += TA_CANDLERANGE_STATE_IDX(  BodyLong, i4 );
-        }
-
-
-        if (!(NEED_MORE_DATA))
-        {
-         STATE.BodyLongPeriodTotal -= TA_CANDLERANGE_STATE_CUR( BodyLong );
-        }
+        TA_CANDLETOTAL_STATE_UPDATE( BodyLong, STATE.BodyLongPeriodTotal, 4 );
 
         PUSH_TO_MEM(inOpen,inOpen);
         PUSH_TO_MEM(inHigh,inHigh);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLCOUNTERATTACK.c b/ta-lib-rt/c/src/ta_func/ta_CDLCOUNTERATTACK.c
index 2c8a049..441051b 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLCOUNTERATTACK.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLCOUNTERATTACK.c
@@ -397,24 +397,9 @@ unsigned int i1;
                 VALUE_HANDLE_DEREF(outInteger) = 0;
         }
 
-
-        if ((int)STATE.mem_index-1 >= STATE.gapEqual)
-        {
-           STATE.EqualPeriodTotal += TA_CANDLERANGE_STATE_IDX(  Equal, i1 );
-        }
-
-        if ((int)STATE.mem_index-1 >= STATE.gapBodyLong)
-        {
-           STATE.BodyLongPeriodTotal1 += TA_CANDLERANGE_STATE_IDX(  BodyLong, i1 );
-           STATE.BodyLongPeriodTotal0 += TA_CANDLERANGE_STATE_CUR( BodyLong );
-        }
-
-        if (!(NEED_MORE_DATA))
-        {
-         STATE.EqualPeriodTotal -= TA_CANDLERANGE_STATE( Equal, -STATE.periodEqual-1 );
-         STATE.BodyLongPeriodTotal1 -= TA_CANDLERANGE_STATE( BodyLong, -STATE.periodBodyLong-1 );
-         STATE.BodyLongPeriodTotal0 -= TA_CANDLERANGE_STATE_CUR( BodyLong );
-        }
+        TA_CANDLETOTAL_STATE_UPDATE( Equal, STATE.EqualPeriodTotal, 1 );
+        TA_CANDLETOTAL_STATE_UPDATE( BodyLong, STATE.BodyLongPeriodTotal1, 1 );
+        TA_CANDLETOTAL_STATE_UPDATE( BodyLong, STATE.BodyLongPeriodTotal0, 0 );
 
         PUSH_TO_MEM(inOpen,inOpen);
         PUSH_TO_MEM(inHigh,inHigh);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLEVENINGSTAR.c b/ta-lib-rt/c/src/ta_func/ta_CDLEVENINGSTAR.c
index 51ec7e2..40f23aa 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLEVENINGSTAR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLEVENINGSTAR.c
@@ -440,26 +440,9 @@ int i1,i2;
 
         }
 
-
-        if ((int)STATE.mem_index-1 >= STATE.gapBodyLong)
-        {
-          STATE.BodyLongPeriodTotal += TA_CANDLERANGE_STATE_IDX(  BodyLong, i2 );
-        }
-
-        if ((int)STATE.mem_index-1 >= STATE.gapBodyShort)
-        {
-          STATE.BodyShortPeriodTotal += TA_CANDLERANGE_STATE_IDX(  BodyShort, i1 );
-          STATE.BodyShortPeriodTotal2 += TA_CANDLERANGE_STATE_CUR( BodyShort );
-        }
-
-
-
-        if (!(NEED_MORE_DATA))
-        {
-         STATE.BodyLongPeriodTotal -= TA_CANDLERANGE_STATE( BodyLong, -STATE.periodBodyLong );
-         STATE.BodyShortPeriodTotal -= TA_CANDLERANGE_STATE( BodyShort, -STATE.periodBodyShort );
-         STATE.BodyShortPeriodTotal2 -= TA_CANDLERANGE_STATE( BodyShort, GET_LOCAL_IDX(-STATE.periodBodyShort+1) );
-        }
+        TA_CANDLETOTAL_STATE_UPDATE( BodyLong, STATE.BodyLongPeriodTotal, 2 );
+        TA_CANDLETOTAL_STATE_UPDATE( BodyShort, STATE.BodyShortPeriodTotal, 1 );
+        TA_CANDLETOTAL_STATE_UPDATE( BodyShort, STATE.BodyShortPeriodTotal2, 0 );
 
         PUSH_TO_MEM(inOpen,inOpen);
         PUSH_TO_MEM(inHigh,inHigh);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLHIGHWAVE.c b/ta-lib-rt/c/src/ta_func/ta_CDLHIGHWAVE.c
index 97e8c4a..47ed43f 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLHIGHWAVE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLHIGHWAVE.c
@@ -370,17 +370,8 @@
 
                 }
 
-
-                STATE.BodyPeriodTotal += TA_CANDLERANGE_STATE_CUR( BodyShort );
-                STATE.ShadowPeriodTotal += TA_CANDLERANGE_STATE_CUR( ShadowVeryLong );
-
-
-
-                if (!(NEED_MORE_DATA))
-                {
-                   STATE.BodyPeriodTotal -= TA_CANDLERANGE_STATE( BodyShort, -TA_CANDLEAVGPERIOD(BodyShort) );
-                   STATE.ShadowPeriodTotal -= TA_CANDLERANGE_STATE( ShadowVeryLong, -TA_CANDLEAVGPERIOD(ShadowVeryLong) );
-                }
+                TA_CANDLETOTAL_STATE_UPDATE( BodyShort, STATE.BodyPeriodTotal, 0 );
+                TA_CANDLETOTAL_STATE_UPDATE( ShadowVeryLong, STATE.ShadowPeriodTotal, 0 );
 
                 if (MEM_SIZE > 0)
                 {
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKEMOD.c b/ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKEMOD.c
index 0a2d90a..edf08c0 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKEMOD.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKEMOD.c
@@ -460,12 +460,7 @@ int i1,i2,i3;
 
                 }
 
-                if ((int)STATE.mem_index-1 >= STATE.gapNear)
-                    STATE.NearPeriodTotal += TA_CANDLERANGE_STATE_IDX( Near, i2 );
-
-                if ((int)STATE.mem_index-1 >= (int)MEM_SIZE-3)
-                    STATE.NearPeriodTotal -= TA_CANDLERANGE_STATE( Near, -STATE.periodNear-2 );
-
+                TA_CANDLETOTAL_STATE_UPDATE( Near, STATE.NearPeriodTotal, 2 );
 
                 PUSH_TO_MEM(inOpen,inOpen);
                 PUSH_TO_MEM(inHigh,inHigh);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLKICKING.c b/ta-lib-rt/c/src/ta_func/ta_CDLKICKING.c
index a097ddb..2bd83c1 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLKICKING.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLKICKING.c
@@ -421,28 +421,10 @@ int i1;
 
         }
 
-
-        if ((int)STATE.mem_index-1 >= STATE.gapShadowVeryShort)
-        {
-          STATE.ShadowVeryShortPeriodTotal0 += TA_CANDLERANGE_STATE_CUR(  ShadowVeryShort );
-          STATE.ShadowVeryShortPeriodTotal1 += TA_CANDLERANGE_STATE_IDX(  ShadowVeryShort, i1 );
-        }
-
-        if ((int)STATE.mem_index-1 >= STATE.gapBody)
-        {
-          STATE.BodyPeriodTotal0 += TA_CANDLERANGE_STATE_CUR( BodyLong );
-          STATE.BodyPeriodTotal1 += TA_CANDLERANGE_STATE_IDX( BodyLong, i1 );
-        }
-
-
-
-        if (!(NEED_MORE_DATA))
-        {
-         STATE.ShadowVeryShortPeriodTotal0 -= TA_CANDLERANGE_STATE( ShadowVeryShort, -STATE.periodShadowVeryShort );
-         STATE.BodyPeriodTotal0 -= TA_CANDLERANGE_STATE( BodyShort, -STATE.periodBody );
-         STATE.ShadowVeryShortPeriodTotal1 -= TA_CANDLERANGE_STATE( ShadowVeryShort, -STATE.periodShadowVeryShort - 1);
-         STATE.BodyPeriodTotal1 -= TA_CANDLERANGE_STATE( BodyShort, -STATE.periodBody - 1 );
-        }
+        TA_CANDLETOTAL_STATE_UPDATE( ShadowVeryShort, STATE.ShadowVeryShortPeriodTotal0, 0 );
+        TA_CANDLETOTAL_STATE_UPDATE( ShadowVeryShort, STATE.ShadowVeryShortPeriodTotal1, 1 );
+        TA_CANDLETOTAL_STATE_UPDATE( BodyLong, STATE.BodyPeriodTotal0, 0 );
+        TA_CANDLETOTAL_STATE_UPDATE( BodyLong, STATE.BodyPeriodTotal1, 1 );
 
         PUSH_TO_MEM(inOpen,inOpen);
         PUSH_TO_MEM(inHigh,inHigh);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLKICKINGBYLENGTH.c b/ta-lib-rt/c/src/ta_func/ta_CDLKICKINGBYLENGTH.c
index caa3097..d49ce09 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLKICKINGBYLENGTH.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLKICKINGBYLENGTH.c
@@ -428,28 +428,10 @@ int i1;
 
         }
 
-
-        if ((int)STATE.mem_index-1 >= STATE.gapShadowVeryShort)
-        {
-          STATE.ShadowVeryShortPeriodTotal0 += TA_CANDLERANGE_STATE_CUR(  ShadowVeryShort );
-          STATE.ShadowVeryShortPeriodTotal1 += TA_CANDLERANGE_STATE_IDX(  ShadowVeryShort, i1 );
-        }
-
-        if ((int)STATE.mem_index-1 >= STATE.gapBody)
-        {
-          STATE.BodyPeriodTotal0 += TA_CANDLERANGE_STATE_CUR( BodyLong );
-          STATE.BodyPeriodTotal1 += TA_CANDLERANGE_STATE_IDX( BodyLong, i1 );
-        }
-
-
-
-        if (!(NEED_MORE_DATA))
-        {
-         STATE.ShadowVeryShortPeriodTotal0 -= TA_CANDLERANGE_STATE( ShadowVeryShort, -STATE.periodShadowVeryShort );
-         STATE.BodyPeriodTotal0 -= TA_CANDLERANGE_STATE( BodyShort, -STATE.periodBody );
-         STATE.ShadowVeryShortPeriodTotal1 -= TA_CANDLERANGE_STATE( ShadowVeryShort, -STATE.periodShadowVeryShort - 1);
-         STATE.BodyPeriodTotal1 -= TA_CANDLERANGE_STATE( BodyShort, -STATE.periodBody - 1 );
-        }
+        TA_CANDLETOTAL_STATE_UPDATE( ShadowVeryShort, STATE.ShadowVeryShortPeriodTotal0, 0 );
+        TA_CANDLETOTAL_STATE_UPDATE( ShadowVeryShort, STATE.ShadowVeryShortPeriodTotal1, 1 );
+        TA_CANDLETOTAL_STATE_UPDATE( BodyLong, STATE.BodyPeriodTotal0, 0 );
+        TA_CANDLETOTAL_STATE_UPDATE( BodyLong, STATE.BodyPeriodTotal1, 1 );
 
         PUSH_TO_MEM(inOpen,inOpen);
         PUSH_TO_MEM(inHigh,inHigh);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLLONGLINE.c b/ta-lib-rt/c/src/ta_func/ta_CDLLONGLINE.c
index 899df25..365a2f3 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLLONGLINE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLLONGLINE.c
@@ -379,28 +379,16 @@
 
                 }
 
+                TA_CANDLETOTAL_STATE_UPDATE( ShadowShort, STATE.ShadowPeriodTotal, 0 );
+                TA_CANDLETOTAL_STATE_UPDATE( BodyLong, STATE.BodyPeriodTotal, 0 );
 
-                if ((int)STATE.mem_index-1 >= STATE.gapShadow)
+                if (MEM_SIZE > 0)
                 {
-                  STATE.ShadowPeriodTotal += TA_CANDLERANGE_STATE_CUR(  ShadowShort );
+                   PUSH_TO_MEM(inOpen,inOpen);
+                   PUSH_TO_MEM(inHigh,inHigh);
+                   PUSH_TO_MEM(inLow,inLow);
+                   PUSH_TO_MEM(inClose,inClose);
                 }
-
-                if ((int)STATE.mem_index-1 >= STATE.gapBody)
-                {
-                  STATE.BodyPeriodTotal += TA_CANDLERANGE_STATE_CUR( BodyLong );
-                }
-
-
-                if (!(NEED_MORE_DATA))
-                {
-                 STATE.ShadowPeriodTotal -= TA_CANDLERANGE_STATE( ShadowShort, -STATE.periodShadow );
-                 STATE.BodyPeriodTotal -= TA_CANDLERANGE_STATE( BodyLong, -STATE.periodBody );
-                }
-
-                PUSH_TO_MEM(inOpen,inOpen);
-                PUSH_TO_MEM(inHigh,inHigh);
-                PUSH_TO_MEM(inLow,inLow);
-                PUSH_TO_MEM(inClose,inClose);
                 if (NEED_MORE_DATA) return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
 
    return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLMORNINGSTAR.c b/ta-lib-rt/c/src/ta_func/ta_CDLMORNINGSTAR.c
index 36c9278..81241c5 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLMORNINGSTAR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLMORNINGSTAR.c
@@ -430,26 +430,9 @@ int i1,i2;
 
         }
 
-
-        if ((int)STATE.mem_index-1 >= STATE.gapBodyLong)
-        {
-          STATE.BodyLongPeriodTotal += TA_CANDLERANGE_STATE_IDX(  BodyLong, i2 );
-        }
-
-        if ((int)STATE.mem_index-1 >= STATE.gapBodyShort)
-        {
-          STATE.BodyShortPeriodTotal += TA_CANDLERANGE_STATE_IDX(  BodyShort, i1 );
-          STATE.BodyShortPeriodTotal2 += TA_CANDLERANGE_STATE_CUR( BodyShort );
-        }
-
-
-
-        if (!(NEED_MORE_DATA))
-        {
-         STATE.BodyLongPeriodTotal -= TA_CANDLERANGE_STATE( BodyLong, -STATE.periodBodyLong );
-         STATE.BodyShortPeriodTotal -= TA_CANDLERANGE_STATE( BodyShort, -STATE.periodBodyShort );
-         STATE.BodyShortPeriodTotal2 -= TA_CANDLERANGE_STATE( BodyShort, GET_LOCAL_IDX(-STATE.periodBodyShort+1) );
-        }
+        TA_CANDLETOTAL_STATE_UPDATE( BodyLong, STATE.BodyLongPeriodTotal, 2 );
+        TA_CANDLETOTAL_STATE_UPDATE( BodyShort, STATE.BodyShortPeriodTotal, 1 );
+        TA_CANDLETOTAL_STATE_UPDATE( BodyShort, STATE.BodyShortPeriodTotal2, 0 );
 
         PUSH_TO_MEM(inOpen,inOpen);
         PUSH_TO_MEM(inHigh,inHigh);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLRICKSHAWMAN.c b/ta-lib-rt/c/src/ta_func/ta_CDLRICKSHAWMAN.c
index cc020fb..7798ecd 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLRICKSHAWMAN.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLRICKSHAWMAN.c
@@ -416,33 +416,17 @@
 
                 }
 
+                TA_CANDLETOTAL_STATE_UPDATE( BodyDoji, STATE.BodyDojiPeriodTotal, 0 );
+                TA_CANDLETOTAL_STATE_UPDATE( ShadowLong, STATE.ShadowLongPeriodTotal, 0 );
+                TA_CANDLETOTAL_STATE_UPDATE( Near, STATE.NearPeriodTotal, 0 );
 
-                if ((int)STATE.mem_index-1 >= STATE.gapBodyDoji)
+                if (MEM_SIZE > 0)
                 {
-                  STATE.BodyDojiPeriodTotal += TA_CANDLERANGE_STATE_CUR(  BodyDoji );
+                   PUSH_TO_MEM(inOpen,inOpen);
+                   PUSH_TO_MEM(inHigh,inHigh);
+                   PUSH_TO_MEM(inLow,inLow);
+                   PUSH_TO_MEM(inClose,inClose);
                 }
-
-                if ((int)STATE.mem_index-1 >= STATE.gapShadowLong)
-                {
-                  STATE.ShadowLongPeriodTotal += TA_CANDLERANGE_STATE_CUR( ShadowLong );
-                }
-
-                if ((int)STATE.mem_index-1 >= STATE.gapNear)
-                {
-                  STATE.NearPeriodTotal += TA_CANDLERANGE_STATE_CUR( Near );
-                }
-
-                if (!(NEED_MORE_DATA))
-                {
-                 STATE.BodyDojiPeriodTotal -= TA_CANDLERANGE_STATE( BodyDoji, -STATE.periodBodyDoji );
-                 STATE.ShadowLongPeriodTotal -= TA_CANDLERANGE_STATE( ShadowLong, -STATE.periodShadowLong );
-                 STATE.NearPeriodTotal -= TA_CANDLERANGE_STATE( Near, -STATE.periodNear );
-                }
-
-                PUSH_TO_MEM(inOpen,inOpen);
-                PUSH_TO_MEM(inHigh,inHigh);
-                PUSH_TO_MEM(inLow,inLow);
-                PUSH_TO_MEM(inClose,inClose);
                 if (NEED_MORE_DATA) return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
 
    return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLRISEFALL3METHODS.c b/ta-lib-rt/c/src/ta_func/ta_CDLRISEFALL3METHODS.c
index ca64ff9..d203520 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLRISEFALL3METHODS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLRISEFALL3METHODS.c
@@ -442,29 +442,11 @@ int i1, i2, i3, i4;
 
         }
 
-
-        if ((int)STATE.mem_index-1 >= STATE.periodBodyShort)
-        {
-            STATE.BodyPeriodTotal1 += TA_CANDLERANGE_STATE_IDX(  BodyShort, i1 );
-            STATE.BodyPeriodTotal2 += TA_CANDLERANGE_STATE_IDX(  BodyShort, i2 );
-            STATE.BodyPeriodTotal3 += TA_CANDLERANGE_STATE_IDX(  BodyShort, i3 );
-        }
-
-        if ((int)STATE.mem_index-1 >= STATE.periodBodyLong)
-        {
-            STATE.BodyPeriodTotal4 += TA_CANDLERANGE_STATE_IDX(  BodyLong, i4 );
-            STATE.BodyPeriodTotal0 += TA_CANDLERANGE_STATE_CUR(  BodyLong );
-        }
-
-        if (!(NEED_MORE_DATA))
-        {
-            STATE.BodyPeriodTotal1 -= TA_CANDLERANGE_STATE( BodyShort, -STATE.periodBodyShort-1 );
-            STATE.BodyPeriodTotal2 -= TA_CANDLERANGE_STATE( BodyShort, -STATE.periodBodyShort-2 );
-            STATE.BodyPeriodTotal3 -= TA_CANDLERANGE_STATE( BodyShort, -STATE.periodBodyShort-3 );
-
-            STATE.BodyPeriodTotal4 -= TA_CANDLERANGE_STATE( BodyLong, -STATE.periodBodyLong-4 );
-            STATE.BodyPeriodTotal0 -= TA_CANDLERANGE_STATE( BodyLong, -STATE.periodBodyLong );
-        }
+        TA_CANDLETOTAL_STATE_UPDATE( BodyLong, STATE.BodyPeriodTotal4, 4 );
+        TA_CANDLETOTAL_STATE_UPDATE( BodyShort, STATE.BodyPeriodTotal3, 3 );
+        TA_CANDLETOTAL_STATE_UPDATE( BodyShort, STATE.BodyPeriodTotal2, 2 );
+        TA_CANDLETOTAL_STATE_UPDATE( BodyShort, STATE.BodyPeriodTotal1, 1 );
+        TA_CANDLETOTAL_STATE_UPDATE( BodyLong, STATE.BodyPeriodTotal0, 0 );
 
         PUSH_TO_MEM(inOpen,inOpen);
         PUSH_TO_MEM(inHigh,inHigh);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLSHOOTINGSTAR.c b/ta-lib-rt/c/src/ta_func/ta_CDLSHOOTINGSTAR.c
index c1974d0..b8db3fe 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLSHOOTINGSTAR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLSHOOTINGSTAR.c
@@ -404,28 +404,9 @@ int i1;
 
         }
 
-
-        if ((int)STATE.mem_index-1 >= STATE.gapBody)
-        {
-          STATE.BodyPeriodTotal += TA_CANDLERANGE_STATE_CUR(  BodyLong );
-        }
-
-        if ((int)STATE.mem_index-1 >= STATE.gapShadowLong)
-        {
-          STATE.ShadowLongPeriodTotal += TA_CANDLERANGE_STATE_CUR(  ShadowLong );
-        }
-
-        if ((int)STATE.mem_index-1 >= STATE.gapShadowVeryShort)
-        {
-          STATE.ShadowVeryShortPeriodTotal += TA_CANDLERANGE_STATE_CUR( ShadowVeryShort );
-        }
-
-        if (!(NEED_MORE_DATA))
-        {
-         STATE.ShadowLongPeriodTotal -= TA_CANDLERANGE_STATE( ShadowLong, -STATE.periodShadowLong );
-         STATE.ShadowVeryShortPeriodTotal -= TA_CANDLERANGE_STATE( ShadowVeryShort, -STATE.periodShadowVeryShort );
-         STATE.BodyPeriodTotal -= TA_CANDLERANGE_STATE( BodyShort, -STATE.periodBody );
-        }
+        TA_CANDLETOTAL_STATE_UPDATE( BodyShort, STATE.BodyPeriodTotal, 0 );
+        TA_CANDLETOTAL_STATE_UPDATE( ShadowLong, STATE.ShadowLongPeriodTotal, 0 );
+        TA_CANDLETOTAL_STATE_UPDATE( ShadowVeryShort, STATE.ShadowVeryShortPeriodTotal, 0 );
 
         PUSH_TO_MEM(inOpen,inOpen);
         PUSH_TO_MEM(inHigh,inHigh);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLSHORTLINE.c b/ta-lib-rt/c/src/ta_func/ta_CDLSHORTLINE.c
index 54385c3..d05127f 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLSHORTLINE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLSHORTLINE.c
@@ -375,28 +375,16 @@
 
                 }
 
+                TA_CANDLETOTAL_STATE_UPDATE( ShadowShort, STATE.ShadowPeriodTotal, 0 );
+                TA_CANDLETOTAL_STATE_UPDATE( BodyShort, STATE.BodyPeriodTotal, 0 );
 
-                if ((int)STATE.mem_index-1 >= STATE.gapShadow)
+                if (MEM_SIZE > 0)
                 {
-                  STATE.ShadowPeriodTotal += TA_CANDLERANGE_STATE_CUR(  ShadowShort );
+                   PUSH_TO_MEM(inOpen,inOpen);
+                   PUSH_TO_MEM(inHigh,inHigh);
+                   PUSH_TO_MEM(inLow,inLow);
+                   PUSH_TO_MEM(inClose,inClose);
                 }
-
-                if ((int)STATE.mem_index-1 >= STATE.gapBody)
-                {
-                  STATE.BodyPeriodTotal += TA_CANDLERANGE_STATE_CUR( BodyShort );
-                }
-
-
-                if (!(NEED_MORE_DATA))
-                {
-                 STATE.ShadowPeriodTotal -= TA_CANDLERANGE_STATE( ShadowShort, -STATE.periodShadow );
-                 STATE.BodyPeriodTotal -= TA_CANDLERANGE_STATE( BodyShort, -STATE.periodBody );
-                }
-
-                PUSH_TO_MEM(inOpen,inOpen);
-                PUSH_TO_MEM(inHigh,inHigh);
-                PUSH_TO_MEM(inLow,inLow);
-                PUSH_TO_MEM(inClose,inClose);
                 if (NEED_MORE_DATA) return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
 
    return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLSPINNINGTOP.c b/ta-lib-rt/c/src/ta_func/ta_CDLSPINNINGTOP.c
index 8829cac..6056dc1 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLSPINNINGTOP.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLSPINNINGTOP.c
@@ -362,22 +362,15 @@
 
                 }
 
+                TA_CANDLETOTAL_STATE_UPDATE( BodyShort, STATE.BodyPeriodTotal, 0 );
 
-                if ((int)STATE.mem_index-1 >= STATE.gapBody)
+                if (MEM_SIZE > 0)
                 {
-                  STATE.BodyPeriodTotal += TA_CANDLERANGE_STATE_CUR( BodyShort );
+                   PUSH_TO_MEM(inOpen,inOpen);
+                   PUSH_TO_MEM(inHigh,inHigh);
+                   PUSH_TO_MEM(inLow,inLow);
+                   PUSH_TO_MEM(inClose,inClose);
                 }
-
-
-                if (!(NEED_MORE_DATA))
-                {
-                 STATE.BodyPeriodTotal -= TA_CANDLERANGE_STATE( BodyShort, -STATE.periodBody );
-                }
-
-                PUSH_TO_MEM(inOpen,inOpen);
-                PUSH_TO_MEM(inHigh,inHigh);
-                PUSH_TO_MEM(inLow,inLow);
-                PUSH_TO_MEM(inClose,inClose);
                 if (NEED_MORE_DATA) return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
 
    return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLSTALLEDPATTERN.c b/ta-lib-rt/c/src/ta_func/ta_CDLSTALLEDPATTERN.c
index 3b5a4ce..6353d25 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLSTALLEDPATTERN.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLSTALLEDPATTERN.c
@@ -457,39 +457,12 @@ int i1, i2, i3;
 
         }
 
-
-        if ((int)STATE.mem_index-1 >= STATE.gapBodyLong)
-        {
-          STATE.BodyLongPeriodTotal1 += TA_CANDLERANGE_STATE_IDX( BodyLong, i1 );
-          STATE.BodyLongPeriodTotal2 += TA_CANDLERANGE_STATE_IDX( BodyLong, i2 );
-        }
-
-        if ((int)STATE.mem_index-1 >= STATE.gapBodyShort)
-        {
-          STATE.BodyShortPeriodTotal += TA_CANDLERANGE_STATE_CUR( BodyShort );
-        }
-
-        if ((int)STATE.mem_index-1 >= STATE.gapShadowVeryShort)
-        {
-          STATE.ShadowVeryShortPeriodTotal += TA_CANDLERANGE_STATE_IDX( ShadowVeryShort, i1 );
-        }
-
-        if ((int)STATE.mem_index-1 >= STATE.gapNear)
-        {
-          STATE.NearPeriodTotal1 += TA_CANDLERANGE_STATE_IDX( Near, i1 );
-          STATE.NearPeriodTotal2 += TA_CANDLERANGE_STATE_IDX( Near, i2 );
-        }
-
-
-        if (!(NEED_MORE_DATA))
-        {
-          STATE.BodyLongPeriodTotal1 -= TA_CANDLERANGE_STATE( BodyLong, -STATE.periodBodyLong-1 );
-          STATE.BodyLongPeriodTotal2 -= TA_CANDLERANGE_STATE( BodyLong, -STATE.periodBodyLong-2 );
-          STATE.BodyShortPeriodTotal -= TA_CANDLERANGE_STATE( BodyShort, -STATE.periodBodyShort );
-          STATE.ShadowVeryShortPeriodTotal -= TA_CANDLERANGE_STATE( ShadowVeryShort, -STATE.periodShadowVeryShort );
-          STATE.NearPeriodTotal1 -= TA_CANDLERANGE_STATE( Near, -STATE.periodNear-1 );
-          STATE.NearPeriodTotal2 -= TA_CANDLERANGE_STATE( Near, -STATE.periodNear-2 );
-        }
+        TA_CANDLETOTAL_STATE_UPDATE( BodyLong, STATE.BodyLongPeriodTotal2, 2 );
+        TA_CANDLETOTAL_STATE_UPDATE( BodyLong, STATE.BodyLongPeriodTotal1, 1 );
+        TA_CANDLETOTAL_STATE_UPDATE( BodyShort, STATE.BodyShortPeriodTotal, 0 );
+        TA_CANDLETOTAL_STATE_UPDATE( ShadowVeryShort, STATE.ShadowVeryShortPeriodTotal, 1 );
+        TA_CANDLETOTAL_STATE_UPDATE( Near, STATE.NearPeriodTotal2, 2 );
+        TA_CANDLETOTAL_STATE_UPDATE( Near, STATE.NearPeriodTotal1, 1 );
 
         PUSH_TO_MEM(inOpen,inOpen);
         PUSH_TO_MEM(inHigh,inHigh);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLTRISTAR.c b/ta-lib-rt/c/src/ta_func/ta_CDLTRISTAR.c
index 1ecf297..4870b70 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLTRISTAR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLTRISTAR.c
@@ -399,16 +399,7 @@ int i1, i2;
 
         }
 
-
-        if ((int)STATE.mem_index-1 >= STATE.gapBody)
-        {
-          STATE.BodyPeriodTotal += TA_CANDLERANGE_STATE_IDX(  BodyDoji, i2 );
-        }
-
-        if (!(NEED_MORE_DATA))
-        {
-         STATE.BodyPeriodTotal -= TA_CANDLERANGE_STATE( BodyDoji, -STATE.periodBody );
-        }
+        TA_CANDLETOTAL_STATE_UPDATE( BodyDoji, STATE.BodyPeriodTotal, 2 );
 
         PUSH_TO_MEM(inOpen,inOpen);
         PUSH_TO_MEM(inHigh,inHigh);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLUNIQUE3RIVER.c b/ta-lib-rt/c/src/ta_func/ta_CDLUNIQUE3RIVER.c
index d45dfb5..f505e76 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLUNIQUE3RIVER.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLUNIQUE3RIVER.c
@@ -396,22 +396,8 @@ int i1,i2;
 
         }
 
-
-        if ((int)STATE.mem_index-1 >= STATE.gapBodyShort)
-        {
-          STATE.BodyShortPeriodTotal += TA_CANDLERANGE_STATE_CUR(  BodyShort );
-        }
-
-        if ((int)STATE.mem_index-1 >= STATE.gapBodyLong)
-        {
-          STATE.BodyLongPeriodTotal += TA_CANDLERANGE_STATE_IDX(  BodyLong, i2 );
-        }
-
-        if (!(NEED_MORE_DATA))
-        {
-         STATE.BodyShortPeriodTotal -= TA_CANDLERANGE_STATE( BodyShort, -STATE.periodBodyShort);
-         STATE.BodyLongPeriodTotal -= TA_CANDLERANGE_STATE( BodyLong, -STATE.periodBodyLong );
-        }
+        TA_CANDLETOTAL_STATE_UPDATE( BodyShort, STATE.BodyShortPeriodTotal, 0 );
+        TA_CANDLETOTAL_STATE_UPDATE( BodyLong, STATE.BodyLongPeriodTotal, 2 );
 
         PUSH_TO_MEM(inOpen,inOpen);
         PUSH_TO_MEM(inHigh,inHigh);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLUPSIDEGAP2CROWS.c b/ta-lib-rt/c/src/ta_func/ta_CDLUPSIDEGAP2CROWS.c
index fa80293..7f57f7d 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLUPSIDEGAP2CROWS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLUPSIDEGAP2CROWS.c
@@ -399,22 +399,8 @@ int i1,i2;
 
                 }
 
-
-                if ((int)STATE.mem_index-1 >= STATE.gapBodyShort)
-                {
-                  STATE.BodyShortPeriodTotal += TA_CANDLERANGE_STATE_IDX(  BodyShort, i1 );
-                }
-
-                if ((int)STATE.mem_index-1 >= STATE.gapBodyLong)
-                {
-                  STATE.BodyLongPeriodTotal += TA_CANDLERANGE_STATE_IDX(  BodyLong, i2 );
-                }
-
-                if (!(NEED_MORE_DATA))
-                {
-                 STATE.BodyShortPeriodTotal -= TA_CANDLERANGE_STATE( BodyShort, -STATE.periodBodyShort);
-                 STATE.BodyLongPeriodTotal -= TA_CANDLERANGE_STATE( BodyLong, -STATE.periodBodyLong );
-                }
+                TA_CANDLETOTAL_STATE_UPDATE( BodyShort, STATE.BodyShortPeriodTotal, 1 );
+                TA_CANDLETOTAL_STATE_UPDATE( BodyLong, STATE.BodyLongPeriodTotal, 2 );
 
                 PUSH_TO_MEM(inOpen,inOpen);
                 PUSH_TO_MEM(inHigh,inHigh);
diff --git a/ta-lib-rt/c/src/ta_func/ta_utility.h b/ta-lib-rt/c/src/ta_func/ta_utility.h
index 1789fc7..c0f8d43 100644
--- a/ta-lib-rt/c/src/ta_func/ta_utility.h
+++ b/ta-lib-rt/c/src/ta_func/ta_utility.h
@@ -525,6 +525,18 @@ void TA_S_INT_stddev_using_precalc_ma( const float  *inReal,
 #define TA_CANDLERANGE_STATE(SET,IDX) ( IDX!=0?(TA_CANDLERANGE_STATE_IDX(SET,GET_LOCAL_IDX(IDX))):(TA_CANDLERANGE_STATE_CUR(SET)) )
 #define TA_CANDLEAVERAGE_STATE(SET,SUM,IDX) ( IDX!=0?(TA_CANDLEAVERAGE_STATE_IDX(SET,SUM,GET_LOCAL_IDX(IDX))):(TA_CANDLEAVERAGE_STATE_CUR(SET,SUM)) )
 
+/* Move to the next bar the sum of the TA_CANDLEAVGPERIOD(SET) ranges preceding
+ * the bar that is K bars before the current one. To be used before the current
+ * bar is stored in the state memory.
+ */
+#define TA_CANDLETOTAL_STATE_UPDATE(SET,TOTAL,K) \
+    { \
+        if( (int)STATE.mem_index-1 >= (K) ) \
+            TOTAL += TA_CANDLERANGE_STATE( SET, -(K) ); \
+        if( (int)STATE.mem_index-1 >= (K)+TA_CANDLEAVGPERIOD(SET) ) \
+            TOTAL -= TA_CANDLERANGE_STATE( SET, -(K)-TA_CANDLEAVGPERIOD(SET) ); \
+    }
+
 #define TA_REALBODYGAPUP_STATE_IDX(IDX2,IDX1)     ( min(MEM_IDX_NS(inOpen,IDX2),MEM_IDX_NS(inClose,IDX2)) > max(MEM_IDX_NS(inOpen,IDX1),MEM_IDX_NS(inClose,IDX1)) )
 #define TA_REALBODYGAPDOWN_STATE_IDX(IDX2,IDX1)   ( max(MEM_IDX_NS(inOpen,IDX2),MEM_IDX_NS(inClose,IDX2)) < min(MEM_IDX_NS(inOpen,IDX1),MEM_IDX_NS(inClose,IDX1)) )
 #define TA_CANDLEGAPUP_STATE_IDX(IDX2,IDX1)       ( MEM_IDX_NS(inLow,IDX2) > MEM_IDX_NS(inHigh,IDX1) )
-- 
2.43.0


From d8b22219d124c9ba79a6428959b6c874128cc3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:26 +0000
Subject: [PATCH 17/34] fix: CDLMATHOLD streaming keeps its period totals over
 the right bars

---
 ta-lib-rt/c/src/ta_func/ta_CDLMATHOLD.c | 24 ++++--------------------
 1 file changed, 4 insertions(+), 20 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLMATHOLD.c b/ta-lib-rt/c/src/ta_func/ta_CDLMATHOLD.c
index 42dcada..b3e4224 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLMATHOLD.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLMATHOLD.c
@@ -478,26 +478,10 @@ int i1, i2, i3, i4;
         }
 
 
-        if ((int)STATE.mem_index-1 >= STATE.periodBodyShort)
-        {
-            STATE.BodyPeriodTotal1 += TA_CANDLERANGE_STATE_IDX(  BodyShort, i1 );
-            STATE.BodyPeriodTotal2 += TA_CANDLERANGE_STATE_IDX(  BodyShort, i2 );
-            STATE.BodyPeriodTotal3 += TA_CANDLERANGE_STATE_IDX(  BodyShort, i3 );
-        }
-
-        if ((int)STATE.mem_index-1 >= STATE.periodBodyLong)
-        {
-            STATE.BodyPeriodTotal4 += TA_CANDLERANGE_STATE_IDX(  BodyLong, i4 );
-        }
-
-        if (!(NEED_MORE_DATA))
-        {
-            STATE.BodyPeriodTotal1 -= TA_CANDLERANGE_STATE( BodyShort, -STATE.periodBodyShort-1 );
-            STATE.BodyPeriodTotal2 -= TA_CANDLERANGE_STATE( BodyShort, -STATE.periodBodyShort-2 );
-            STATE.BodyPeriodTotal3 -= TA_CANDLERANGE_STATE( BodyShort, -STATE.periodBodyShort-3 );
-
-            STATE.BodyPeriodTotal4 -= TA_CANDLERANGE_STATE( BodyLong, -STATE.periodBodyLong-4 );
-        }
+        TA_CANDLETOTAL_STATE_UPDATE( BodyLong, STATE.BodyPeriodTotal4, 4 );
+        TA_CANDLETOTAL_STATE_UPDATE( BodyShort, STATE.BodyPeriodTotal3, 3 );
+        TA_CANDLETOTAL_STATE_UPDATE( BodyShort, STATE.BodyPeriodTotal2, 2 );
+        TA_CANDLETOTAL_STATE_UPDATE( BodyShort, STATE.BodyPeriodTotal1, 1 );
 
         PUSH_TO_MEM(inOpen,inOpen);
         PUSH_TO_MEM(inHigh,inHigh);
-- 
2.43.0


From 464bb7516e02c5d4fae2666b443e14b786499989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:52 +0000
Subject: [PATCH 18/34] fix: TRIX starts its first EMA so that outputs line up
 with startIdx

---
 ta-lib-rt/c/src/ta_func/ta_TRIX.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_TRIX.c b/ta-lib-rt/c/src/ta_func/ta_TRIX.c
index 52bf2ef..4bd48c2 100644
--- a/ta-lib-rt/c/src/ta_func/ta_TRIX.c
+++ b/ta-lib-rt/c/src/ta_func/ta_TRIX.c
@@ -234,7 +234,7 @@
 
    /* Calculate the first EMA */   
    k = PER_TO_K(optInTimePeriod);  
-   retCode = FUNCTION_CALL(INT_EMA)( (startIdx-totalLookback), endIdx, inReal,
+   retCode = FUNCTION_CALL(INT_EMA)( (startIdx-totalLookback)+emaLookback, endIdx, inReal,
                                      optInTimePeriod, k,
                                      VALUE_HANDLE_OUT(begIdx), VALUE_HANDLE_OUT(nbElement),
 								     tempBuffer );
@@ -775,7 +775,7 @@ TA_RetCode retCode;
 /* Generated */       }
 /* Generated */    #endif
 /* Generated */    k = PER_TO_K(optInTimePeriod);  
-/* Generated */    retCode = FUNCTION_CALL(INT_EMA)( (startIdx-totalLookback), endIdx, inReal,
+/* Generated */    retCode = FUNCTION_CALL(INT_EMA)( (startIdx-totalLookback)+emaLookback, endIdx, inReal,
 /* Generated */                                      optInTimePeriod, k,
 /* Generated */                                      VALUE_HANDLE_OUT(begIdx), VALUE_HANDLE_OUT(nbElement),
 /* Generated */ 								     tempBuffer );
-- 
2.43.0


From 1ed8907a4c0318fa54f3a9f9634ad0e175235477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:17 +0000
Subject: [PATCH 19/34] fix: no conversion of NaN or huge values to int in
 HT_DCPHASE, HT_SINE, HT_TRENDLINE, HT_TRENDMODE and MAVP

---
 ta-lib-rt/c/src/ta_func/ta_HT_DCPHASE.c   |  6 +++---
 ta-lib-rt/c/src/ta_func/ta_HT_SINE.c      |  6 +++---
 ta-lib-rt/c/src/ta_func/ta_HT_TRENDLINE.c |  6 +++---
 ta-lib-rt/c/src/ta_func/ta_HT_TRENDMODE.c | 12 ++++++------
 ta-lib-rt/c/src/ta_func/ta_MAVP.c         | 20 +++++++++++---------
 5 files changed, 26 insertions(+), 24 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_HT_DCPHASE.c b/ta-lib-rt/c/src/ta_func/ta_HT_DCPHASE.c
index 4da4838..4c9b786 100644
--- a/ta-lib-rt/c/src/ta_func/ta_HT_DCPHASE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_HT_DCPHASE.c
@@ -401,7 +401,7 @@
 
       /* Compute Dominant Cycle Phase */
       DCPeriod    = smoothPeriod+0.5;
-      DCPeriodInt = (int)DCPeriod;
+      DCPeriodInt = (DCPeriod > 0.0) ? (int)DCPeriod : 0;
       realPart = 0.0;
       imagPart = 0.0;
 
@@ -684,7 +684,7 @@ DEFINE_HILBERT_VARIABLES_STRUCT(HT_DCPHASE)
 
    /* Compute Dominant Cycle Phase */
    DCPeriod    = STATE.smoothPeriod+0.5;
-   DCPeriodInt = (int)DCPeriod;
+   DCPeriodInt = (DCPeriod > 0.0) ? (int)DCPeriod : 0;
    realPart = 0.0;
    imagPart = 0.0;
 
@@ -1234,7 +1234,7 @@ DEFINE_HILBERT_VARIABLES_STRUCT(HT_DCPHASE)
 /* Generated */       period = (0.2*period) + (0.8 * tempReal);
 /* Generated */       smoothPeriod = (0.33*period)+(0.67*smoothPeriod);
 /* Generated */       DCPeriod    = smoothPeriod+0.5;
-/* Generated */       DCPeriodInt = (int)DCPeriod;
+/* Generated */       DCPeriodInt = (DCPeriod > 0.0) ? (int)DCPeriod : 0;
 /* Generated */       realPart = 0.0;
 /* Generated */       imagPart = 0.0;
 /* Generated */       idx = smoothPrice_Idx;
diff --git a/ta-lib-rt/c/src/ta_func/ta_HT_SINE.c b/ta-lib-rt/c/src/ta_func/ta_HT_SINE.c
index cf611cf..925e2f8 100644
--- a/ta-lib-rt/c/src/ta_func/ta_HT_SINE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_HT_SINE.c
@@ -409,7 +409,7 @@
 
       /* Compute Dominant Cycle Phase */
       DCPeriod    = smoothPeriod+0.5;
-      DCPeriodInt = (int)DCPeriod;
+      DCPeriodInt = (DCPeriod > 0.0) ? (int)DCPeriod : 0;
       realPart = 0.0;
       imagPart = 0.0;
 
@@ -700,7 +700,7 @@ STATE.smoothPeriod = (0.33*STATE.period)+(0.67*STATE.smoothPeriod);
 
 /* Compute Dominant Cycle Phase */
 DCPeriod    = STATE.smoothPeriod+0.5;
-DCPeriodInt = (int)DCPeriod;
+DCPeriodInt = (DCPeriod > 0.0) ? (int)DCPeriod : 0;
 realPart = 0.0;
 imagPart = 0.0;
 
@@ -1272,7 +1272,7 @@ else {
 /* Generated */       period = (0.2*period) + (0.8 * tempReal);
 /* Generated */       smoothPeriod = (0.33*period)+(0.67*smoothPeriod);
 /* Generated */       DCPeriod    = smoothPeriod+0.5;
-/* Generated */       DCPeriodInt = (int)DCPeriod;
+/* Generated */       DCPeriodInt = (DCPeriod > 0.0) ? (int)DCPeriod : 0;
 /* Generated */       realPart = 0.0;
 /* Generated */       imagPart = 0.0;
 /* Generated */       idx = smoothPrice_Idx;
diff --git a/ta-lib-rt/c/src/ta_func/ta_HT_TRENDLINE.c b/ta-lib-rt/c/src/ta_func/ta_HT_TRENDLINE.c
index db9fc2c..34178d1 100644
--- a/ta-lib-rt/c/src/ta_func/ta_HT_TRENDLINE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_HT_TRENDLINE.c
@@ -404,7 +404,7 @@
 
       /* Compute Trendline */
       DCPeriod    = smoothPeriod+0.5;
-      DCPeriodInt = (int)DCPeriod;
+      DCPeriodInt = (DCPeriod > 0.0) ? (int)DCPeriod : 0;
 
       /* idx is used to iterate for up to 50 of the last
        * value of smoothPrice.
@@ -666,7 +666,7 @@ STATE.smoothPeriod = (0.33*STATE.period)+(0.67*STATE.smoothPeriod);
 
 /* Compute Dominant Cycle Phase */
 DCPeriod    = STATE.smoothPeriod+0.5;
-DCPeriodInt = (int)DCPeriod;
+DCPeriodInt = (DCPeriod > 0.0) ? (int)DCPeriod : 0;
 
 
 PUSH_TO_MEM(inReal,inReal);
@@ -1198,7 +1198,7 @@ else {
 /* Generated */       period = (0.2*period) + (0.8 * tempReal);
 /* Generated */       smoothPeriod = (0.33*period)+(0.67*smoothPeriod);
 /* Generated */       DCPeriod    = smoothPeriod+0.5;
-/* Generated */       DCPeriodInt = (int)DCPeriod;
+/* Generated */       DCPeriodInt = (DCPeriod > 0.0) ? (int)DCPeriod : 0;
 /* Generated */       idx = today;
 /* Generated */       tempReal = 0.0;
 /* Generated */       for( i=0; i < DCPeriodInt; i++ )
diff --git a/ta-lib-rt/c/src/ta_func/ta_HT_TRENDMODE.c b/ta-lib-rt/c/src/ta_func/ta_HT_TRENDMODE.c
index 2e8959c..a476f67 100644
--- a/ta-lib-rt/c/src/ta_func/ta_HT_TRENDMODE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_HT_TRENDMODE.c
@@ -418,7 +418,7 @@
       /* Compute Dominant Cycle Phase */
       prevDCPhase = DCPhase;
       DCPeriod    = smoothPeriod+0.5;
-      DCPeriodInt = (int)DCPeriod;
+      DCPeriodInt = (DCPeriod > 0.0) ? (int)DCPeriod : 0;
       realPart = 0.0;
       imagPart = 0.0;
 
@@ -464,7 +464,7 @@
 
       /* Compute Trendline */
       DCPeriod    = smoothPeriod+0.5;
-      DCPeriodInt = (int)DCPeriod;
+      DCPeriodInt = (DCPeriod > 0.0) ? (int)DCPeriod : 0;
 
       /* idx is used to iterate for up to 50 of the last
        * value of smoothPrice.
@@ -763,7 +763,7 @@ double sine, leadSine;
         /* Compute Dominant Cycle Phase */
         STATE.prevDCPhase = STATE.DCPhase;
         DCPeriod    = STATE.smoothPeriod+0.5;
-        DCPeriodInt = (int)DCPeriod;
+        DCPeriodInt = (DCPeriod > 0.0) ? (int)DCPeriod : 0;
         realPart = 0.0;
         imagPart = 0.0;
 
@@ -808,7 +808,7 @@ double sine, leadSine;
 
         /* Compute Trendline */
         DCPeriod    = STATE.smoothPeriod+0.5;
-        DCPeriodInt = (int)DCPeriod;
+        DCPeriodInt = (DCPeriod > 0.0) ? (int)DCPeriod : 0;
 
 
         PUSH_TO_MEM(inReal,inReal);
@@ -1406,7 +1406,7 @@ double sine, leadSine;
 /* Generated */       smoothPeriod = (0.33*period)+(0.67*smoothPeriod);
 /* Generated */       prevDCPhase = DCPhase;
 /* Generated */       DCPeriod    = smoothPeriod+0.5;
-/* Generated */       DCPeriodInt = (int)DCPeriod;
+/* Generated */       DCPeriodInt = (DCPeriod > 0.0) ? (int)DCPeriod : 0;
 /* Generated */       realPart = 0.0;
 /* Generated */       imagPart = 0.0;
 /* Generated */       idx = smoothPrice_Idx;
@@ -1442,7 +1442,7 @@ double sine, leadSine;
 /* Generated */       sine     = std_sin(DCPhase*deg2Rad);
 /* Generated */       leadSine = std_sin((DCPhase+45)*deg2Rad);
 /* Generated */       DCPeriod    = smoothPeriod+0.5;
-/* Generated */       DCPeriodInt = (int)DCPeriod;
+/* Generated */       DCPeriodInt = (DCPeriod > 0.0) ? (int)DCPeriod : 0;
 /* Generated */       idx = today;
 /* Generated */       tempReal = 0.0;
 /* Generated */       for( i=0; i < DCPeriodInt; i++ )
diff --git a/ta-lib-rt/c/src/ta_func/ta_MAVP.c b/ta-lib-rt/c/src/ta_func/ta_MAVP.c
index 2dafb41..ceff31f 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MAVP.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MAVP.c
@@ -284,11 +284,12 @@
 	*/
    for( i=0; i < outputSize; i++ )
    {
-      tempInt = (int)(inPeriods[startIdx+i]);
-	  if( tempInt < optInMinPeriod )
-		  tempInt = optInMinPeriod;
-	  else if( tempInt > optInMaxPeriod )
+      if( !(inPeriods[startIdx+i] >= optInMinPeriod) )
+          tempInt = optInMinPeriod;
+      else if( inPeriods[startIdx+i] > optInMaxPeriod )
           tempInt = optInMaxPeriod;
+      else
+          tempInt = (int)(inPeriods[startIdx+i]);
       localPeriodArray[i] = tempInt;
    }
 
@@ -477,7 +478,7 @@
    /* insert state based TA func code here. */
 
    if (inPeriods > STATE.optInMaxPeriod) period = STATE.optInMaxPeriod;
-   else if(inPeriods < STATE.optInMinPeriod) period = STATE.optInMinPeriod;
+   else if(!(inPeriods >= STATE.optInMinPeriod)) period = STATE.optInMinPeriod;
    else period = inPeriods;
 
 
@@ -837,11 +838,12 @@ TA_RetCode retCode;
 /* Generated */    ARRAY_INT_ALLOC(localPeriodArray,outputSize);
 /* Generated */    for( i=0; i < outputSize; i++ )
 /* Generated */    {
-/* Generated */       tempInt = (int)(inPeriods[startIdx+i]);
-/* Generated */ 	  if( tempInt < optInMinPeriod )
-/* Generated */ 		  tempInt = optInMinPeriod;
-/* Generated */ 	  else if( tempInt > optInMaxPeriod )
+/* Generated */       if( !(inPeriods[startIdx+i] >= optInMinPeriod) )
+/* Generated */           tempInt = optInMinPeriod;
+/* Generated */       else if( inPeriods[startIdx+i] > optInMaxPeriod )
 /* Generated */           tempInt = optInMaxPeriod;
+/* Generated */       else
+/* Generated */           tempInt = (int)(inPeriods[startIdx+i]);
 /* Generated */       localPeriodArray[i] = tempInt;
 /* Generated */    }
 /* Generated */    for( i=0; i < outputSize; i++ )
-- 
2.43.0


From 6d5530351f73c4314146cf5cf5d2bc61fc769abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:13 +0000
Subject: [PATCH 20/34] fix: StateFree of CCI, MFI, ULTOSC and the Hilbert
 transform functions accepts an already freed (NULL) state

---
 ta-lib-rt/c/src/ta_common/ta_memory.h | 2 +-
 ta-lib-rt/c/src/ta_func/ta_utility.h  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_common/ta_memory.h b/ta-lib-rt/c/src/ta_common/ta_memory.h
index ef55221..e39282e 100644
--- a/ta-lib-rt/c/src/ta_common/ta_memory.h
+++ b/ta-lib-rt/c/src/ta_common/ta_memory.h
@@ -398,7 +398,7 @@
 #define CIRCBUF_STRUCT_NEXT(taFunc, var) { \
     struct TA_##taFunc##_STATE_CIRCBUF* buf = (struct TA_##taFunc##_STATE_CIRCBUF*) STATE.var; \
     if(buf->idx < buf->size-1) buf->idx++; else buf->idx = 0;}
-#define FREE_CIRCBUF_STRUCT(taFunc, var) { \
+#define FREE_CIRCBUF_STRUCT(taFunc, var) if (_state != NULL && STATE != NULL) { \
     struct TA_##taFunc##_STATE_CIRCBUF* buf = (struct TA_##taFunc##_STATE_CIRCBUF*) STATE_P.var; \
     if (buf != NULL) { \
         if (buf->circbuf != NULL) free(buf->circbuf); \
diff --git a/ta-lib-rt/c/src/ta_func/ta_utility.h b/ta-lib-rt/c/src/ta_func/ta_utility.h
index c0f8d43..a2d304f 100644
--- a/ta-lib-rt/c/src/ta_func/ta_utility.h
+++ b/ta-lib-rt/c/src/ta_func/ta_utility.h
@@ -339,7 +339,7 @@ void TA_S_INT_stddev_using_precalc_ma( const float  *inReal,
     STATE_P.var = calloc(1, sizeof(struct TA_##taFunc##_HILBERT_STRUCT)); \
     if (STATE_P.var == NULL) return ENUM_VALUE(RetCode, TA_ALLOC_ERR, AllocErr ); }
 
-#define FREE_HILBERT_VARIABLES_STRUCT(var) { \
+#define FREE_HILBERT_VARIABLES_STRUCT(var) if (_state != NULL && STATE != NULL) { \
     if (STATE_P.var != NULL) { \
         free (STATE_P.var);    \
         STATE_P.var = NULL; }  }
-- 
2.43.0


From a062cb6d46bbfeea18d94b8d41f554edbd7e873a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:13 +0000
Subject: [PATCH 21/34] fix: saving and loading a circular buffer detects
 failed I/O on its header

---
 ta-lib-rt/c/src/ta_common/ta_memory.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_common/ta_memory.h b/ta-lib-rt/c/src/ta_common/ta_memory.h
index e39282e..72fd72e 100644
--- a/ta-lib-rt/c/src/ta_common/ta_memory.h
+++ b/ta-lib-rt/c/src/ta_common/ta_memory.h
@@ -410,9 +410,9 @@
     int io_circbuf_res; \
     struct TA_##taFunc##_STATE_CIRCBUF* str_circbuf = STATE.var; \
     io_circbuf_res = fwrite(&str_circbuf->idx,sizeof(str_circbuf->idx),1,_file); \
-    if (io_circbuf_res < 0) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); \
+    if (io_circbuf_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); \
     io_circbuf_res = fwrite(&str_circbuf->size,sizeof(str_circbuf->size),1,_file); \
-    if (io_circbuf_res < 0) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); \
+    if (io_circbuf_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); \
     if (str_circbuf->size > 0) { \
     io_circbuf_res = fwrite(str_circbuf->circbuf,sizeof(type),str_circbuf->size,_file); \
     if (io_circbuf_res < str_circbuf->size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); }\
@@ -422,9 +422,9 @@
     int io_circbuf_res; int circbuf_idx; int circbuf_size;\
     if (STATE_P.var != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam); \
     io_circbuf_res = fread(&circbuf_idx,sizeof(circbuf_idx),1,_file); \
-    if (io_circbuf_res < 0) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); \
+    if (io_circbuf_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); \
     io_circbuf_res = fread(&circbuf_size,sizeof(circbuf_size),1,_file); \
-    if (io_circbuf_res < 0) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); \
+    if (io_circbuf_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); \
     CREATE_CIRCBUF_STRUCT(taFunc, var, type, circbuf_size) \
     struct TA_##taFunc##_STATE_CIRCBUF* str_circbuf = STATE_P.var;  \
     str_circbuf->idx = circbuf_idx; \
-- 
2.43.0


From 8846776180137e38c985f22f2170b1025a7809b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:37 +0000
Subject: [PATCH 22/34] fix: MACDFIX saves and loads the state of its MACD

---
 ta-lib-rt/c/src/ta_func/ta_MACDFIX.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ta-lib-rt/c/src/ta_func/ta_MACDFIX.c b/ta-lib-rt/c/src/ta_func/ta_MACDFIX.c
index 9f6ac53..a943b26 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MACDFIX.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MACDFIX.c
@@ -496,6 +496,8 @@ return FUNCTION_CALL_STATE_INIT(INT_MACD)((struct TA_MACD_State**) _state,
 /**** END GENCODE SECTION 11 - DO NOT DELETE THIS LINE ****/
 
 {
+   return FUNCTION_CALL_STATE_SAVE(MACD)( (struct TA_MACD_State*) _state, _file );
+#ifdef SUPPRESS_CODE_BLOCK_BELOW
    /* insert local variable here */
 
 /**** START GENCODE SECTION 12 - DO NOT DELETE THIS LINE ****/
@@ -525,6 +527,7 @@ return FUNCTION_CALL_STATE_INIT(INT_MACD)((struct TA_MACD_State**) _state,
 
    /* insert state save code here. */   
    return 0;
+#endif
 }
 
 /**** START GENCODE SECTION 13 - DO NOT DELETE THIS LINE ****/
@@ -544,6 +547,8 @@ return FUNCTION_CALL_STATE_INIT(INT_MACD)((struct TA_MACD_State**) _state,
 /* Generated */ #endif
 /**** END GENCODE SECTION 13 - DO NOT DELETE THIS LINE ****/
 {
+   return FUNCTION_CALL_STATE_LOAD(MACD)( (struct TA_MACD_State**) _state, _file );
+#ifdef SUPPRESS_CODE_BLOCK_BELOW
    /* insert local variable here */
 
 /**** START GENCODE SECTION 14 - DO NOT DELETE THIS LINE ****/
@@ -575,6 +580,7 @@ return FUNCTION_CALL_STATE_INIT(INT_MACD)((struct TA_MACD_State**) _state,
 
    /* insert state load code here. */   
    return 0;
+#endif
 }
 
 /**** START GENCODE SECTION 15 - DO NOT DELETE THIS LINE ****/
-- 
2.43.0


From 9cf769ac7574178d39fdcfeb7bafcc6a4541fda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:02 +0000
Subject: [PATCH 23/34] fix: StateInit and StateLoad report a failed allocation
 instead of using the NULL memory

---
 ta-lib-rt/c/src/ta_func/ta_ACCBANDS.c            |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_ACOS.c                |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_AD.c                  |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_ADD.c                 |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_ADOSC.c               |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_ADX.c                 |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_ADXR.c                |  7 ++++++-
 ta-lib-rt/c/src/ta_func/ta_APO.c                 |  7 ++++++-
 ta-lib-rt/c/src/ta_func/ta_AROON.c               |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_AROONOSC.c            |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_ASIN.c                |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_ATAN.c                |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_ATR.c                 |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_AVGDEV.c              |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_AVGPRICE.c            |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_BBANDS.c              |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_BETA.c                |  7 ++++++-
 ta-lib-rt/c/src/ta_func/ta_BOP.c                 |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CCI.c                 |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDL2CROWS.c           |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDL3BLACKCROWS.c      |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDL3INSIDE.c          |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDL3LINESTRIKE.c      |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDL3OUTSIDE.c         |  7 ++++++-
 ta-lib-rt/c/src/ta_func/ta_CDL3STARSINSOUTH.c    |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDL3WHITESOLDIERS.c   |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLABANDONEDBABY.c    |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLADVANCEBLOCK.c     |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLBELTHOLD.c         |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLBREAKAWAY.c        |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLCLOSINGMARUBOZU.c  |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLCONCEALBABYSWALL.c |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLCOUNTERATTACK.c    |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLDARKCLOUDCOVER.c   |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLDOJI.c             |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLDOJISTAR.c         |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLDRAGONFLYDOJI.c    |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLENGULFING.c        |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLEVENINGDOJISTAR.c  |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLEVENINGSTAR.c      |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLGAPSIDESIDEWHITE.c |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLGRAVESTONEDOJI.c   |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLHAMMER.c           |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLHANGINGMAN.c       |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLHARAMI.c           |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLHARAMICROSS.c      |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLHIGHWAVE.c         |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKE.c          |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKEMOD.c       |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLHOMINGPIGEON.c     |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLIDENTICAL3CROWS.c  |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLINNECK.c           |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLINVERTEDHAMMER.c   |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLKICKING.c          |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLKICKINGBYLENGTH.c  |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLLADDERBOTTOM.c     |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLLONGLEGGEDDOJI.c   |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLLONGLINE.c         |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLMARUBOZU.c         |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLMATCHINGLOW.c      |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLMATHOLD.c          |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLMORNINGDOJISTAR.c  |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLMORNINGSTAR.c      |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLONNECK.c           |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLPIERCING.c         |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLRICKSHAWMAN.c      |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLRISEFALL3METHODS.c |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLSEPARATINGLINES.c  |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLSHOOTINGSTAR.c     |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLSHORTLINE.c        |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLSPINNINGTOP.c      |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLSTALLEDPATTERN.c   |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLSTICKSANDWICH.c    |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLTAKURI.c           |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLTASUKIGAP.c        |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLTHRUSTING.c        |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLTRISTAR.c          |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLUNIQUE3RIVER.c     |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLUPSIDEGAP2CROWS.c  |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CDLXSIDEGAP3METHODS.c |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CEIL.c                |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CMO.c                 |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_CORREL.c              |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_COS.c                 |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_COSH.c                |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_DEMA.c                |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_DIV.c                 |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_DX.c                  |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_EMA.c                 |  7 ++++++-
 ta-lib-rt/c/src/ta_func/ta_EXP.c                 |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_FLOOR.c               |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_HT_DCPERIOD.c         |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_HT_DCPHASE.c          |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_HT_PHASOR.c           |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_HT_SINE.c             |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_HT_TRENDLINE.c        |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_HT_TRENDMODE.c        |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_IMI.c                 |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_KAMA.c                |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_LINEARREG.c           |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_LINEARREG_ANGLE.c     |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_LINEARREG_INTERCEPT.c |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_LINEARREG_SLOPE.c     |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_LN.c                  |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_LOG10.c               |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_MA.c                  |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_MACD.c                |  7 ++++++-
 ta-lib-rt/c/src/ta_func/ta_MACDEXT.c             |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_MACDFIX.c             |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_MAMA.c                |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_MAVP.c                |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_MAX.c                 |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_MAXINDEX.c            |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_MEDPRICE.c            |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_MFI.c                 |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_MIDPOINT.c            |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_MIDPRICE.c            |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_MIN.c                 |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_MININDEX.c            |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_MINMAX.c              |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_MINMAXINDEX.c         |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_MINUS_DI.c            |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_MINUS_DM.c            |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_MOM.c                 |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_MULT.c                |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_NATR.c                |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_NVI.c                 |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_OBV.c                 |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_PLUS_DI.c             |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_PLUS_DM.c             |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_PPO.c                 |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_PVI.c                 |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_PVT.c                 |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_ROC.c                 |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_ROCP.c                |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_ROCR.c                |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_ROCR100.c             |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_RSI.c                 |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_SAR.c                 |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_SAREXT.c              |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_SIN.c                 |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_SINH.c                |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_SMA.c                 |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_SQRT.c                |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_STDDEV.c              |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_STOCH.c               |  7 ++++++-
 ta-lib-rt/c/src/ta_func/ta_STOCHF.c              |  7 ++++++-
 ta-lib-rt/c/src/ta_func/ta_STOCHRSI.c            |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_SUB.c                 |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_SUM.c                 |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_T3.c                  |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_TAN.c                 |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_TANH.c                |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_TEMA.c                |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_TRANGE.c              |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_TRIMA.c               |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_TRIX.c                |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_TSF.c                 |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_TYPPRICE.c            |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_ULTOSC.c              |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_VAR.c                 |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_WCLPRICE.c            |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_WILLR.c               |  6 +++++-
 ta-lib-rt/c/src/ta_func/ta_WLMA.c                |  7 ++++++-
 ta-lib-rt/c/src/ta_func/ta_WMA.c                 |  6 +++++-
 ta-lib-rt/c/src/tools/gen_code/gen_code.c        | 10 +++++++++-
 166 files changed, 843 insertions(+), 166 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_ACCBANDS.c b/ta-lib-rt/c/src/ta_func/ta_ACCBANDS.c
index d3cca0b..c0a4dbb 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ACCBANDS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ACCBANDS.c
@@ -369,12 +369,14 @@ TA_RetCode retCode;
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ACCBANDS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_ACCBANDS_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_ACCBANDS_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ACCBANDS_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -719,6 +721,7 @@ TA_RetCode retCode;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ACCBANDS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -727,6 +730,7 @@ TA_RetCode retCode;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_ACCBANDS_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_ACCBANDS_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_ACOS.c b/ta-lib-rt/c/src/ta_func/ta_ACOS.c
index c2529f9..85b3dd9 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ACOS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ACOS.c
@@ -205,11 +205,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ACOS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_ACOS_Lookback();
 /* Generated */    #ifndef TA_ACOS_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ACOS_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -463,6 +465,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ACOS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -471,6 +474,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_ACOS_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_ACOS_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_AD.c b/ta-lib-rt/c/src/ta_func/ta_AD.c
index 262d2ae..307e3d9 100644
--- a/ta-lib-rt/c/src/ta_func/ta_AD.c
+++ b/ta-lib-rt/c/src/ta_func/ta_AD.c
@@ -252,11 +252,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_AD_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_AD_Lookback();
 /* Generated */    #ifndef TA_AD_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_AD_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -551,6 +553,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_AD_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -559,6 +562,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_AD_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_AD_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.ad,sizeof(STATE_P.ad),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_ADD.c b/ta-lib-rt/c/src/ta_func/ta_ADD.c
index 620e17c..a117517 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ADD.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ADD.c
@@ -217,11 +217,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ADD_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_ADD_Lookback();
 /* Generated */    #ifndef TA_ADD_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ADD_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -485,6 +487,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ADD_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -493,6 +496,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_ADD_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_ADD_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_ADOSC.c b/ta-lib-rt/c/src/ta_func/ta_ADOSC.c
index a8c2fe4..4edf310 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ADOSC.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ADOSC.c
@@ -390,13 +390,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ADOSC_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInFastPeriod = optInFastPeriod;
 /* Generated */    STATE_P.optInSlowPeriod = optInSlowPeriod;
 /* Generated */    MEM_SIZE_P = TA_ADOSC_Lookback(optInFastPeriod, optInSlowPeriod );
 /* Generated */    #ifndef TA_ADOSC_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ADOSC_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -725,6 +727,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ADOSC_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -733,6 +736,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_ADOSC_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_ADOSC_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInFastPeriod,sizeof(STATE_P.optInFastPeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_ADX.c b/ta-lib-rt/c/src/ta_func/ta_ADX.c
index 34efe34..98f5b30 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ADX.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ADX.c
@@ -585,12 +585,14 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ADX_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_ADX_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_ADX_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ADX_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -967,6 +969,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ADX_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -975,6 +978,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_ADX_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_ADX_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_ADXR.c b/ta-lib-rt/c/src/ta_func/ta_ADXR.c
index ff8560c..a825a34 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ADXR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ADXR.c
@@ -302,12 +302,14 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ADXR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_ADXR_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_ADXR_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ADXR_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -323,6 +325,7 @@
 
    // TODO only one double is needed for memory
    MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ADXR_Data));
+   if (MEM_SIZE_P > 0 && MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 
    return FUNCTION_CALL_STATE_INIT(ADX)((struct TA_ADX_State**)&STATE_P.ADXState, STATE_P.optInTimePeriod);
 }
@@ -617,6 +620,7 @@ TA_RetCode retCode;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ADXR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -625,6 +629,7 @@ TA_RetCode retCode;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_ADXR_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_ADXR_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_APO.c b/ta-lib-rt/c/src/ta_func/ta_APO.c
index 07dd7cd..e55307d 100644
--- a/ta-lib-rt/c/src/ta_func/ta_APO.c
+++ b/ta-lib-rt/c/src/ta_func/ta_APO.c
@@ -445,14 +445,16 @@ TA_RetCode TA_PREFIX(INT_PO)( int    startIdx,
 /* Generated */ 
 /* Generated */    #endif /* !defined(_MANAGED) && !defined(_JAVA)*/
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_APO_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInFastPeriod = optInFastPeriod;
 /* Generated */    STATE_P.optInSlowPeriod = optInSlowPeriod;
 /* Generated */    STATE_P.optInMAType = optInMAType;
 /* Generated */    MEM_SIZE_P = TA_APO_Lookback(optInFastPeriod, optInSlowPeriod, optInMAType );
 /* Generated */    #ifndef TA_APO_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_APO_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -525,6 +527,7 @@ TA_RetCode retCode;
         optInFastPeriod = tempInteger;
     }
     STATE = TA_Calloc(1, sizeof(struct TA_APO_State));
+    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
     STATE_P.mem_index = 0;
     STATE_P.optInFastPeriod = optInFastPeriod;
     STATE_P.optInSlowPeriod = optInSlowPeriod;
@@ -825,6 +828,7 @@ TA_RetCode retCode;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_APO_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -833,6 +837,7 @@ TA_RetCode retCode;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_APO_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_APO_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInFastPeriod,sizeof(STATE_P.optInFastPeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_AROON.c b/ta-lib-rt/c/src/ta_func/ta_AROON.c
index 5023801..61bd07e 100644
--- a/ta-lib-rt/c/src/ta_func/ta_AROON.c
+++ b/ta-lib-rt/c/src/ta_func/ta_AROON.c
@@ -341,12 +341,14 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_AROON_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_AROON_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_AROON_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_AROON_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -703,6 +705,7 @@ double temp;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_AROON_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -711,6 +714,7 @@ double temp;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_AROON_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_AROON_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_AROONOSC.c b/ta-lib-rt/c/src/ta_func/ta_AROONOSC.c
index da47e01..84407a9 100644
--- a/ta-lib-rt/c/src/ta_func/ta_AROONOSC.c
+++ b/ta-lib-rt/c/src/ta_func/ta_AROONOSC.c
@@ -352,12 +352,14 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_AROONOSC_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_AROONOSC_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_AROONOSC_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_AROONOSC_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -698,6 +700,7 @@ double temp;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_AROONOSC_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -706,6 +709,7 @@ double temp;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_AROONOSC_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_AROONOSC_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_ASIN.c b/ta-lib-rt/c/src/ta_func/ta_ASIN.c
index 8ff0efe..3337c14 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ASIN.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ASIN.c
@@ -205,11 +205,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ASIN_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_ASIN_Lookback();
 /* Generated */    #ifndef TA_ASIN_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ASIN_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -463,6 +465,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ASIN_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -471,6 +474,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_ASIN_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_ASIN_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_ATAN.c b/ta-lib-rt/c/src/ta_func/ta_ATAN.c
index 5c866c4..d909bf6 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ATAN.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ATAN.c
@@ -202,11 +202,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ATAN_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_ATAN_Lookback();
 /* Generated */    #ifndef TA_ATAN_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ATAN_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -460,6 +462,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ATAN_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -468,6 +471,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_ATAN_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_ATAN_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_ATR.c b/ta-lib-rt/c/src/ta_func/ta_ATR.c
index 06ae02e..eb889bd 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ATR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ATR.c
@@ -355,12 +355,14 @@ TA_RetCode retCode;
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ATR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_ATR_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_ATR_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ATR_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -706,6 +708,7 @@ TA_RetCode retCode;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ATR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -714,6 +717,7 @@ TA_RetCode retCode;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_ATR_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_ATR_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_AVGDEV.c b/ta-lib-rt/c/src/ta_func/ta_AVGDEV.c
index c102a93..f0f4229 100644
--- a/ta-lib-rt/c/src/ta_func/ta_AVGDEV.c
+++ b/ta-lib-rt/c/src/ta_func/ta_AVGDEV.c
@@ -262,12 +262,14 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_AVGDEV_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_AVGDEV_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_AVGDEV_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_AVGDEV_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -552,6 +554,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_AVGDEV_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -560,6 +563,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_AVGDEV_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_AVGDEV_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_AVGPRICE.c b/ta-lib-rt/c/src/ta_func/ta_AVGPRICE.c
index 6400773..5007102 100644
--- a/ta-lib-rt/c/src/ta_func/ta_AVGPRICE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_AVGPRICE.c
@@ -226,11 +226,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_AVGPRICE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_AVGPRICE_Lookback();
 /* Generated */    #ifndef TA_AVGPRICE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_AVGPRICE_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -508,6 +510,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_AVGPRICE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -516,6 +519,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_AVGPRICE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_AVGPRICE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_BBANDS.c b/ta-lib-rt/c/src/ta_func/ta_BBANDS.c
index d4f3722..c21917b 100644
--- a/ta-lib-rt/c/src/ta_func/ta_BBANDS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_BBANDS.c
@@ -501,6 +501,7 @@
 /* Generated */ 
 /* Generated */    #endif /* !defined(_MANAGED) && !defined(_JAVA)*/
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_BBANDS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    STATE_P.optInNbDevUp = optInNbDevUp;
@@ -508,8 +509,9 @@
 /* Generated */    STATE_P.optInMAType = optInMAType;
 /* Generated */    MEM_SIZE_P = TA_BBANDS_Lookback(optInTimePeriod, optInNbDevUp, optInNbDevDn, optInMAType );
 /* Generated */    #ifndef TA_BBANDS_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_BBANDS_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -866,6 +868,7 @@ TA_RetCode retCode;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_BBANDS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -874,6 +877,7 @@ TA_RetCode retCode;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_BBANDS_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_BBANDS_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_BETA.c b/ta-lib-rt/c/src/ta_func/ta_BETA.c
index e50d456..63173f0 100644
--- a/ta-lib-rt/c/src/ta_func/ta_BETA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_BETA.c
@@ -361,12 +361,14 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_BETA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_BETA_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_BETA_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_BETA_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -379,6 +381,7 @@
    MEM_SIZE_P--;
    if (MEM_SIZE_P > 0)
      MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_BETA_Data));
+   if (MEM_SIZE_P > 0 && MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 
    return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 }
@@ -728,6 +731,7 @@ double x,y,temp;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_BETA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -736,6 +740,7 @@ double x,y,temp;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_BETA_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_BETA_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_BOP.c b/ta-lib-rt/c/src/ta_func/ta_BOP.c
index ea3d263..dbeb626 100644
--- a/ta-lib-rt/c/src/ta_func/ta_BOP.c
+++ b/ta-lib-rt/c/src/ta_func/ta_BOP.c
@@ -225,11 +225,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_BOP_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_BOP_Lookback();
 /* Generated */    #ifndef TA_BOP_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_BOP_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -513,6 +515,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_BOP_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -521,6 +524,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_BOP_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_BOP_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_CCI.c b/ta-lib-rt/c/src/ta_func/ta_CCI.c
index d42dc6a..5b4f3a7 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CCI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CCI.c
@@ -337,12 +337,14 @@ DEFINE_CIRCBUF_STRUCT(CCI, double)
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CCI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_CCI_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_CCI_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CCI_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -656,6 +658,7 @@ double lastValue, sum, theAverage;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CCI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -664,6 +667,7 @@ double lastValue, sum, theAverage;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CCI_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CCI_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDL2CROWS.c b/ta-lib-rt/c/src/ta_func/ta_CDL2CROWS.c
index b8a6068..98a2d4d 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDL2CROWS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDL2CROWS.c
@@ -280,11 +280,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDL2CROWS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDL2CROWS_Lookback();
 /* Generated */    #ifndef TA_CDL2CROWS_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDL2CROWS_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -600,6 +602,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDL2CROWS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -608,6 +611,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDL2CROWS_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDL2CROWS_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyLongPeriodTotal,sizeof(STATE_P.BodyLongPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDL3BLACKCROWS.c b/ta-lib-rt/c/src/ta_func/ta_CDL3BLACKCROWS.c
index 739d3ee..f9e4112 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDL3BLACKCROWS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDL3BLACKCROWS.c
@@ -294,11 +294,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDL3BLACKCROWS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDL3BLACKCROWS_Lookback();
 /* Generated */    #ifndef TA_CDL3BLACKCROWS_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDL3BLACKCROWS_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -631,6 +633,7 @@ unsigned int i1,i2,i3;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDL3BLACKCROWS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -639,6 +642,7 @@ unsigned int i1,i2,i3;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDL3BLACKCROWS_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDL3BLACKCROWS_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.ShadowVeryShortPeriodTotal0,sizeof(STATE_P.ShadowVeryShortPeriodTotal0),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDL3INSIDE.c b/ta-lib-rt/c/src/ta_func/ta_CDL3INSIDE.c
index a922421..5ed67b2 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDL3INSIDE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDL3INSIDE.c
@@ -289,11 +289,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDL3INSIDE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDL3INSIDE_Lookback();
 /* Generated */    #ifndef TA_CDL3INSIDE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDL3INSIDE_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -618,6 +620,7 @@ unsigned int i1,i2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDL3INSIDE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -626,6 +629,7 @@ unsigned int i1,i2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDL3INSIDE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDL3INSIDE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyLongPeriodTotal,sizeof(STATE_P.BodyLongPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDL3LINESTRIKE.c b/ta-lib-rt/c/src/ta_func/ta_CDL3LINESTRIKE.c
index 2901e2d..32e8b71 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDL3LINESTRIKE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDL3LINESTRIKE.c
@@ -300,11 +300,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDL3LINESTRIKE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDL3LINESTRIKE_Lookback();
 /* Generated */    #ifndef TA_CDL3LINESTRIKE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDL3LINESTRIKE_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -652,6 +654,7 @@ unsigned int i1,i2,i3;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDL3LINESTRIKE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -660,6 +663,7 @@ unsigned int i1,i2,i3;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDL3LINESTRIKE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDL3LINESTRIKE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.NearPeriodTotal3,sizeof(STATE_P.NearPeriodTotal3),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDL3OUTSIDE.c b/ta-lib-rt/c/src/ta_func/ta_CDL3OUTSIDE.c
index f8cebb6..ca20f1a 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDL3OUTSIDE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDL3OUTSIDE.c
@@ -268,11 +268,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDL3OUTSIDE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDL3OUTSIDE_Lookback();
 /* Generated */    #ifndef TA_CDL3OUTSIDE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDL3OUTSIDE_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -284,6 +286,7 @@
 
 //   MEM_SIZE_P--;
    MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDL3OUTSIDE_Data));
+   if (MEM_SIZE_P > 0 && MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
    return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 }
 
@@ -574,6 +577,7 @@ int i1, i2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDL3OUTSIDE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -582,6 +586,7 @@ int i1, i2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDL3OUTSIDE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDL3OUTSIDE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDL3STARSINSOUTH.c b/ta-lib-rt/c/src/ta_func/ta_CDL3STARSINSOUTH.c
index 0336b61..be2b67a 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDL3STARSINSOUTH.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDL3STARSINSOUTH.c
@@ -329,11 +329,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDL3STARSINSOUTH_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDL3STARSINSOUTH_Lookback();
 /* Generated */    #ifndef TA_CDL3STARSINSOUTH_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDL3STARSINSOUTH_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -722,6 +724,7 @@ unsigned int i1,i2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDL3STARSINSOUTH_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -730,6 +733,7 @@ unsigned int i1,i2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDL3STARSINSOUTH_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDL3STARSINSOUTH_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyLongPeriodTotal,sizeof(STATE_P.BodyLongPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDL3WHITESOLDIERS.c b/ta-lib-rt/c/src/ta_func/ta_CDL3WHITESOLDIERS.c
index c59ba43..d6d8803 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDL3WHITESOLDIERS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDL3WHITESOLDIERS.c
@@ -342,11 +342,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDL3WHITESOLDIERS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDL3WHITESOLDIERS_Lookback();
 /* Generated */    #ifndef TA_CDL3WHITESOLDIERS_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDL3WHITESOLDIERS_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -755,6 +757,7 @@ unsigned int i1,i2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDL3WHITESOLDIERS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -763,6 +766,7 @@ unsigned int i1,i2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDL3WHITESOLDIERS_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDL3WHITESOLDIERS_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.ShadowVeryShortPeriodTotal0,sizeof(STATE_P.ShadowVeryShortPeriodTotal0),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLABANDONEDBABY.c b/ta-lib-rt/c/src/ta_func/ta_CDLABANDONEDBABY.c
index 097694e..c1f3eaf 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLABANDONEDBABY.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLABANDONEDBABY.c
@@ -350,12 +350,14 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLABANDONEDBABY_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInPenetration = optInPenetration;
 /* Generated */    MEM_SIZE_P = TA_CDLABANDONEDBABY_Lookback(optInPenetration );
 /* Generated */    #ifndef TA_CDLABANDONEDBABY_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLABANDONEDBABY_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -711,6 +713,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLABANDONEDBABY_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -719,6 +722,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLABANDONEDBABY_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLABANDONEDBABY_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInPenetration,sizeof(STATE_P.optInPenetration),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLADVANCEBLOCK.c b/ta-lib-rt/c/src/ta_func/ta_CDLADVANCEBLOCK.c
index e6a2857..7e6aa8a 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLADVANCEBLOCK.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLADVANCEBLOCK.c
@@ -378,11 +378,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLADVANCEBLOCK_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLADVANCEBLOCK_Lookback();
 /* Generated */    #ifndef TA_CDLADVANCEBLOCK_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLADVANCEBLOCK_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -830,6 +832,7 @@ int i1,i2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLADVANCEBLOCK_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -838,6 +841,7 @@ int i1,i2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLADVANCEBLOCK_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLADVANCEBLOCK_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.ShadowShortPeriodTotal0,sizeof(STATE_P.ShadowShortPeriodTotal0),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLBELTHOLD.c b/ta-lib-rt/c/src/ta_func/ta_CDLBELTHOLD.c
index c380a8e..471c87e 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLBELTHOLD.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLBELTHOLD.c
@@ -284,11 +284,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLBELTHOLD_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLBELTHOLD_Lookback();
 /* Generated */    #ifndef TA_CDLBELTHOLD_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLBELTHOLD_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -637,6 +639,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLBELTHOLD_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -645,6 +648,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLBELTHOLD_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLBELTHOLD_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.ShadowVeryShortPeriodTotal,sizeof(STATE_P.ShadowVeryShortPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLBREAKAWAY.c b/ta-lib-rt/c/src/ta_func/ta_CDLBREAKAWAY.c
index 8ddc187..cc3a22a 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLBREAKAWAY.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLBREAKAWAY.c
@@ -294,11 +294,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLBREAKAWAY_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLBREAKAWAY_Lookback();
 /* Generated */    #ifndef TA_CDLBREAKAWAY_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLBREAKAWAY_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -627,6 +629,7 @@ unsigned int i1,i2,i3,i4;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLBREAKAWAY_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -635,6 +638,7 @@ unsigned int i1,i2,i3,i4;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLBREAKAWAY_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLBREAKAWAY_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyLongPeriodTotal,sizeof(STATE_P.BodyLongPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLCLOSINGMARUBOZU.c b/ta-lib-rt/c/src/ta_func/ta_CDLCLOSINGMARUBOZU.c
index b458467..243e373 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLCLOSINGMARUBOZU.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLCLOSINGMARUBOZU.c
@@ -298,11 +298,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLCLOSINGMARUBOZU_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLCLOSINGMARUBOZU_Lookback();
 /* Generated */    #ifndef TA_CDLCLOSINGMARUBOZU_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLCLOSINGMARUBOZU_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -651,6 +653,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLCLOSINGMARUBOZU_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -659,6 +662,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLCLOSINGMARUBOZU_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLCLOSINGMARUBOZU_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.ShadowVeryShortPeriodTotal,sizeof(STATE_P.ShadowVeryShortPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLCONCEALBABYSWALL.c b/ta-lib-rt/c/src/ta_func/ta_CDLCONCEALBABYSWALL.c
index 25f7f7f..3252e1e 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLCONCEALBABYSWALL.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLCONCEALBABYSWALL.c
@@ -303,11 +303,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLCONCEALBABYSWALL_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLCONCEALBABYSWALL_Lookback();
 /* Generated */    #ifndef TA_CDLCONCEALBABYSWALL_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLCONCEALBABYSWALL_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -652,6 +654,7 @@ unsigned int i1,i2,i3;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLCONCEALBABYSWALL_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -660,6 +663,7 @@ unsigned int i1,i2,i3;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLCONCEALBABYSWALL_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLCONCEALBABYSWALL_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.ShadowVeryShortPeriodTotal1,sizeof(STATE_P.ShadowVeryShortPeriodTotal1),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLCOUNTERATTACK.c b/ta-lib-rt/c/src/ta_func/ta_CDLCOUNTERATTACK.c
index 441051b..717fc7c 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLCOUNTERATTACK.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLCOUNTERATTACK.c
@@ -294,11 +294,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLCOUNTERATTACK_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLCOUNTERATTACK_Lookback();
 /* Generated */    #ifndef TA_CDLCOUNTERATTACK_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLCOUNTERATTACK_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -627,6 +629,7 @@ unsigned int i1;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLCOUNTERATTACK_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -635,6 +638,7 @@ unsigned int i1;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLCOUNTERATTACK_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLCOUNTERATTACK_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyLongPeriodTotal0,sizeof(STATE_P.BodyLongPeriodTotal0),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLDARKCLOUDCOVER.c b/ta-lib-rt/c/src/ta_func/ta_CDLDARKCLOUDCOVER.c
index 53f8275..cf8d68d 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLDARKCLOUDCOVER.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLDARKCLOUDCOVER.c
@@ -310,12 +310,14 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLDARKCLOUDCOVER_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInPenetration = optInPenetration;
 /* Generated */    MEM_SIZE_P = TA_CDLDARKCLOUDCOVER_Lookback(optInPenetration );
 /* Generated */    #ifndef TA_CDLDARKCLOUDCOVER_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLDARKCLOUDCOVER_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -639,6 +641,7 @@ int i1;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLDARKCLOUDCOVER_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -647,6 +650,7 @@ int i1;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLDARKCLOUDCOVER_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLDARKCLOUDCOVER_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInPenetration,sizeof(STATE_P.optInPenetration),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLDOJI.c b/ta-lib-rt/c/src/ta_func/ta_CDLDOJI.c
index 3523601..af348a1 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLDOJI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLDOJI.c
@@ -276,11 +276,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLDOJI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLDOJI_Lookback();
 /* Generated */    #ifndef TA_CDLDOJI_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLDOJI_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -593,6 +595,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLDOJI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -601,6 +604,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLDOJI_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLDOJI_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyDojiPeriodTotal,sizeof(STATE_P.BodyDojiPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLDOJISTAR.c b/ta-lib-rt/c/src/ta_func/ta_CDLDOJISTAR.c
index 3eb838b..55a33bf 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLDOJISTAR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLDOJISTAR.c
@@ -290,11 +290,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLDOJISTAR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLDOJISTAR_Lookback();
 /* Generated */    #ifndef TA_CDLDOJISTAR_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLDOJISTAR_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -632,6 +634,7 @@ int i1;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLDOJISTAR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -640,6 +643,7 @@ int i1;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLDOJISTAR_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLDOJISTAR_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.DojiPeriodTotal,sizeof(STATE_P.DojiPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLDRAGONFLYDOJI.c b/ta-lib-rt/c/src/ta_func/ta_CDLDRAGONFLYDOJI.c
index f362ba7..15b6ee4 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLDRAGONFLYDOJI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLDRAGONFLYDOJI.c
@@ -293,11 +293,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLDRAGONFLYDOJI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLDRAGONFLYDOJI_Lookback();
 /* Generated */    #ifndef TA_CDLDRAGONFLYDOJI_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLDRAGONFLYDOJI_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -635,6 +637,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLDRAGONFLYDOJI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -643,6 +646,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLDRAGONFLYDOJI_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLDRAGONFLYDOJI_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyDojiPeriodTotal,sizeof(STATE_P.BodyDojiPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLENGULFING.c b/ta-lib-rt/c/src/ta_func/ta_CDLENGULFING.c
index 3a07d6a..6267198 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLENGULFING.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLENGULFING.c
@@ -274,11 +274,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLENGULFING_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLENGULFING_Lookback();
 /* Generated */    #ifndef TA_CDLENGULFING_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLENGULFING_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -579,6 +581,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLENGULFING_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -587,6 +590,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLENGULFING_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLENGULFING_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLEVENINGDOJISTAR.c b/ta-lib-rt/c/src/ta_func/ta_CDLEVENINGDOJISTAR.c
index ecd51e1..47583d6 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLEVENINGDOJISTAR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLEVENINGDOJISTAR.c
@@ -338,12 +338,14 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLEVENINGDOJISTAR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInPenetration = optInPenetration;
 /* Generated */    MEM_SIZE_P = TA_CDLEVENINGDOJISTAR_Lookback(optInPenetration );
 /* Generated */    #ifndef TA_CDLEVENINGDOJISTAR_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLEVENINGDOJISTAR_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -707,6 +709,7 @@ int i1,i2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLEVENINGDOJISTAR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -715,6 +718,7 @@ int i1,i2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLEVENINGDOJISTAR_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLEVENINGDOJISTAR_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInPenetration,sizeof(STATE_P.optInPenetration),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLEVENINGSTAR.c b/ta-lib-rt/c/src/ta_func/ta_CDLEVENINGSTAR.c
index 40f23aa..c6369b7 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLEVENINGSTAR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLEVENINGSTAR.c
@@ -330,12 +330,14 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLEVENINGSTAR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInPenetration = optInPenetration;
 /* Generated */    MEM_SIZE_P = TA_CDLEVENINGSTAR_Lookback(optInPenetration );
 /* Generated */    #ifndef TA_CDLEVENINGSTAR_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLEVENINGSTAR_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -672,6 +674,7 @@ int i1,i2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLEVENINGSTAR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -680,6 +683,7 @@ int i1,i2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLEVENINGSTAR_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLEVENINGSTAR_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInPenetration,sizeof(STATE_P.optInPenetration),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLGAPSIDESIDEWHITE.c b/ta-lib-rt/c/src/ta_func/ta_CDLGAPSIDESIDEWHITE.c
index 6377984..3fae97c 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLGAPSIDESIDEWHITE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLGAPSIDESIDEWHITE.c
@@ -290,11 +290,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLGAPSIDESIDEWHITE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLGAPSIDESIDEWHITE_Lookback();
 /* Generated */    #ifndef TA_CDLGAPSIDESIDEWHITE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLGAPSIDESIDEWHITE_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -639,6 +641,7 @@ int i1,i2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLGAPSIDESIDEWHITE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -647,6 +650,7 @@ int i1,i2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLGAPSIDESIDEWHITE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLGAPSIDESIDEWHITE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.NearPeriodTotal,sizeof(STATE_P.NearPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLGRAVESTONEDOJI.c b/ta-lib-rt/c/src/ta_func/ta_CDLGRAVESTONEDOJI.c
index 5918d5f..edcb2e7 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLGRAVESTONEDOJI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLGRAVESTONEDOJI.c
@@ -280,11 +280,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLGRAVESTONEDOJI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLGRAVESTONEDOJI_Lookback();
 /* Generated */    #ifndef TA_CDLGRAVESTONEDOJI_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLGRAVESTONEDOJI_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -623,6 +625,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLGRAVESTONEDOJI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -631,6 +634,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLGRAVESTONEDOJI_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLGRAVESTONEDOJI_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyDojiPeriodTotal,sizeof(STATE_P.BodyDojiPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLHAMMER.c b/ta-lib-rt/c/src/ta_func/ta_CDLHAMMER.c
index 937e225..c0d0833 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLHAMMER.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLHAMMER.c
@@ -306,11 +306,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHAMMER_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLHAMMER_Lookback();
 /* Generated */    #ifndef TA_CDLHAMMER_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLHAMMER_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -683,6 +685,7 @@ int i1;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHAMMER_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -691,6 +694,7 @@ int i1;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLHAMMER_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLHAMMER_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyPeriodTotal,sizeof(STATE_P.BodyPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLHANGINGMAN.c b/ta-lib-rt/c/src/ta_func/ta_CDLHANGINGMAN.c
index 085136f..9a2e954 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLHANGINGMAN.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLHANGINGMAN.c
@@ -306,11 +306,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHANGINGMAN_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLHANGINGMAN_Lookback();
 /* Generated */    #ifndef TA_CDLHANGINGMAN_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLHANGINGMAN_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -683,6 +685,7 @@ int i1;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHANGINGMAN_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -691,6 +694,7 @@ int i1;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLHANGINGMAN_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLHANGINGMAN_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyPeriodTotal,sizeof(STATE_P.BodyPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLHARAMI.c b/ta-lib-rt/c/src/ta_func/ta_CDLHARAMI.c
index 17adadf..9f60ec6 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLHARAMI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLHARAMI.c
@@ -301,11 +301,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHARAMI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLHARAMI_Lookback();
 /* Generated */    #ifndef TA_CDLHARAMI_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLHARAMI_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -656,6 +658,7 @@ int i1;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHARAMI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -664,6 +667,7 @@ int i1;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLHARAMI_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLHARAMI_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyShortPeriodTotal,sizeof(STATE_P.BodyShortPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLHARAMICROSS.c b/ta-lib-rt/c/src/ta_func/ta_CDLHARAMICROSS.c
index 4a091e9..22fd769 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLHARAMICROSS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLHARAMICROSS.c
@@ -297,11 +297,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHARAMICROSS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLHARAMICROSS_Lookback();
 /* Generated */    #ifndef TA_CDLHARAMICROSS_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLHARAMICROSS_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -653,6 +655,7 @@ int i1;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHARAMICROSS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -661,6 +664,7 @@ int i1;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLHARAMICROSS_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLHARAMICROSS_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyDojiPeriodTotal,sizeof(STATE_P.BodyDojiPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLHIGHWAVE.c b/ta-lib-rt/c/src/ta_func/ta_CDLHIGHWAVE.c
index 47ed43f..5d33fa6 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLHIGHWAVE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLHIGHWAVE.c
@@ -276,11 +276,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHIGHWAVE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLHIGHWAVE_Lookback();
 /* Generated */    #ifndef TA_CDLHIGHWAVE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLHIGHWAVE_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -596,6 +598,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHIGHWAVE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -604,6 +607,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLHIGHWAVE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLHIGHWAVE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyPeriodTotal,sizeof(STATE_P.BodyPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKE.c b/ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKE.c
index 3198dcb..8a741e6 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKE.c
@@ -298,11 +298,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHIKKAKE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLHIKKAKE_Lookback();
 /* Generated */    #ifndef TA_CDLHIKKAKE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLHIKKAKE_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -637,6 +639,7 @@ int i1,i2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHIKKAKE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -645,6 +648,7 @@ int i1,i2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLHIKKAKE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLHIKKAKE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.patternResult,sizeof(STATE_P.patternResult),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKEMOD.c b/ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKEMOD.c
index edf08c0..fea8364 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKEMOD.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKEMOD.c
@@ -330,11 +330,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHIKKAKEMOD_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLHIKKAKEMOD_Lookback();
 /* Generated */    #ifndef TA_CDLHIKKAKEMOD_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLHIKKAKEMOD_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -688,6 +690,7 @@ int i1,i2,i3;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHIKKAKEMOD_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -696,6 +699,7 @@ int i1,i2,i3;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLHIKKAKEMOD_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLHIKKAKEMOD_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.patternResult,sizeof(STATE_P.patternResult),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLHOMINGPIGEON.c b/ta-lib-rt/c/src/ta_func/ta_CDLHOMINGPIGEON.c
index 199497d..06e5c7f 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLHOMINGPIGEON.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLHOMINGPIGEON.c
@@ -291,11 +291,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHOMINGPIGEON_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLHOMINGPIGEON_Lookback();
 /* Generated */    #ifndef TA_CDLHOMINGPIGEON_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLHOMINGPIGEON_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -637,6 +639,7 @@ int i1;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHOMINGPIGEON_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -645,6 +648,7 @@ int i1;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLHOMINGPIGEON_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLHOMINGPIGEON_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyLongPeriodTotal,sizeof(STATE_P.BodyLongPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLIDENTICAL3CROWS.c b/ta-lib-rt/c/src/ta_func/ta_CDLIDENTICAL3CROWS.c
index 37166c6..554547b 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLIDENTICAL3CROWS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLIDENTICAL3CROWS.c
@@ -316,11 +316,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLIDENTICAL3CROWS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLIDENTICAL3CROWS_Lookback();
 /* Generated */    #ifndef TA_CDLIDENTICAL3CROWS_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLIDENTICAL3CROWS_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -695,6 +697,7 @@ int i1,i2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLIDENTICAL3CROWS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -703,6 +706,7 @@ int i1,i2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLIDENTICAL3CROWS_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLIDENTICAL3CROWS_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.ShadowVeryShortPeriodTotal0,sizeof(STATE_P.ShadowVeryShortPeriodTotal0),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLINNECK.c b/ta-lib-rt/c/src/ta_func/ta_CDLINNECK.c
index 9d0b5ff..0f9e489 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLINNECK.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLINNECK.c
@@ -292,11 +292,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLINNECK_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLINNECK_Lookback();
 /* Generated */    #ifndef TA_CDLINNECK_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLINNECK_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -636,6 +638,7 @@ int i1;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLINNECK_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -644,6 +647,7 @@ int i1;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLINNECK_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLINNECK_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyLongPeriodTotal,sizeof(STATE_P.BodyLongPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLINVERTEDHAMMER.c b/ta-lib-rt/c/src/ta_func/ta_CDLINVERTEDHAMMER.c
index 5101675..48c266f 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLINVERTEDHAMMER.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLINVERTEDHAMMER.c
@@ -301,11 +301,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLINVERTEDHAMMER_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLINVERTEDHAMMER_Lookback();
 /* Generated */    #ifndef TA_CDLINVERTEDHAMMER_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLINVERTEDHAMMER_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -663,6 +665,7 @@ int i1;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLINVERTEDHAMMER_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -671,6 +674,7 @@ int i1;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLINVERTEDHAMMER_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLINVERTEDHAMMER_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyPeriodTotal,sizeof(STATE_P.BodyPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLKICKING.c b/ta-lib-rt/c/src/ta_func/ta_CDLKICKING.c
index 2bd83c1..d1dfb2d 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLKICKING.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLKICKING.c
@@ -304,11 +304,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLKICKING_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLKICKING_Lookback();
 /* Generated */    #ifndef TA_CDLKICKING_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLKICKING_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -654,6 +656,7 @@ int i1;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLKICKING_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -662,6 +665,7 @@ int i1;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLKICKING_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLKICKING_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyPeriodTotal0,sizeof(STATE_P.BodyPeriodTotal0),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLKICKINGBYLENGTH.c b/ta-lib-rt/c/src/ta_func/ta_CDLKICKINGBYLENGTH.c
index d49ce09..1cf4f80 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLKICKINGBYLENGTH.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLKICKINGBYLENGTH.c
@@ -306,11 +306,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLKICKINGBYLENGTH_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLKICKINGBYLENGTH_Lookback();
 /* Generated */    #ifndef TA_CDLKICKINGBYLENGTH_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLKICKINGBYLENGTH_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -661,6 +663,7 @@ int i1;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLKICKINGBYLENGTH_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -669,6 +672,7 @@ int i1;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLKICKINGBYLENGTH_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLKICKINGBYLENGTH_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyPeriodTotal0,sizeof(STATE_P.BodyPeriodTotal0),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLLADDERBOTTOM.c b/ta-lib-rt/c/src/ta_func/ta_CDLLADDERBOTTOM.c
index ac07488..a331423 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLLADDERBOTTOM.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLLADDERBOTTOM.c
@@ -282,11 +282,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLLADDERBOTTOM_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLLADDERBOTTOM_Lookback();
 /* Generated */    #ifndef TA_CDLLADDERBOTTOM_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLLADDERBOTTOM_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -618,6 +620,7 @@ int i1, i2, i3, i4;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLLADDERBOTTOM_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -626,6 +629,7 @@ int i1, i2, i3, i4;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLLADDERBOTTOM_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLLADDERBOTTOM_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.ShadowVeryShortPeriodTotal,sizeof(STATE_P.ShadowVeryShortPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLLONGLEGGEDDOJI.c b/ta-lib-rt/c/src/ta_func/ta_CDLLONGLEGGEDDOJI.c
index 0efb80e..a95f5ed 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLLONGLEGGEDDOJI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLLONGLEGGEDDOJI.c
@@ -279,11 +279,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLLONGLEGGEDDOJI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLLONGLEGGEDDOJI_Lookback();
 /* Generated */    #ifndef TA_CDLLONGLEGGEDDOJI_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLLONGLEGGEDDOJI_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -620,6 +622,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLLONGLEGGEDDOJI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -628,6 +631,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLLONGLEGGEDDOJI_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLLONGLEGGEDDOJI_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyDojiPeriodTotal,sizeof(STATE_P.BodyDojiPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLLONGLINE.c b/ta-lib-rt/c/src/ta_func/ta_CDLLONGLINE.c
index 365a2f3..b9554d0 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLLONGLINE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLLONGLINE.c
@@ -280,11 +280,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLLONGLINE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLLONGLINE_Lookback();
 /* Generated */    #ifndef TA_CDLLONGLINE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLLONGLINE_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -609,6 +611,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLLONGLINE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -617,6 +620,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLLONGLINE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLLONGLINE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.ShadowPeriodTotal,sizeof(STATE_P.ShadowPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLMARUBOZU.c b/ta-lib-rt/c/src/ta_func/ta_CDLMARUBOZU.c
index b6307bd..56c2d63 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLMARUBOZU.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLMARUBOZU.c
@@ -276,11 +276,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLMARUBOZU_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLMARUBOZU_Lookback();
 /* Generated */    #ifndef TA_CDLMARUBOZU_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLMARUBOZU_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -621,6 +623,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLMARUBOZU_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -629,6 +632,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLMARUBOZU_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLMARUBOZU_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.ShadowVeryShortPeriodTotal,sizeof(STATE_P.ShadowVeryShortPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLMATCHINGLOW.c b/ta-lib-rt/c/src/ta_func/ta_CDLMATCHINGLOW.c
index 81708ca..916316e 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLMATCHINGLOW.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLMATCHINGLOW.c
@@ -273,11 +273,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLMATCHINGLOW_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLMATCHINGLOW_Lookback();
 /* Generated */    #ifndef TA_CDLMATCHINGLOW_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLMATCHINGLOW_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -602,6 +604,7 @@ int i1;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLMATCHINGLOW_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -610,6 +613,7 @@ int i1;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLMATCHINGLOW_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLMATCHINGLOW_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.EqualPeriodTotal,sizeof(STATE_P.EqualPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLMATHOLD.c b/ta-lib-rt/c/src/ta_func/ta_CDLMATHOLD.c
index b3e4224..d88dca2 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLMATHOLD.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLMATHOLD.c
@@ -347,12 +347,14 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLMATHOLD_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInPenetration = optInPenetration;
 /* Generated */    MEM_SIZE_P = TA_CDLMATHOLD_Lookback(optInPenetration );
 /* Generated */    #ifndef TA_CDLMATHOLD_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLMATHOLD_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -713,6 +715,7 @@ int i1, i2, i3, i4;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLMATHOLD_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -721,6 +724,7 @@ int i1, i2, i3, i4;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLMATHOLD_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLMATHOLD_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInPenetration,sizeof(STATE_P.optInPenetration),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLMORNINGDOJISTAR.c b/ta-lib-rt/c/src/ta_func/ta_CDLMORNINGDOJISTAR.c
index 1e542fd..fb36a82 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLMORNINGDOJISTAR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLMORNINGDOJISTAR.c
@@ -332,12 +332,14 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLMORNINGDOJISTAR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInPenetration = optInPenetration;
 /* Generated */    MEM_SIZE_P = TA_CDLMORNINGDOJISTAR_Lookback(optInPenetration );
 /* Generated */    #ifndef TA_CDLMORNINGDOJISTAR_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLMORNINGDOJISTAR_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -701,6 +703,7 @@ int i1,i2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLMORNINGDOJISTAR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -709,6 +712,7 @@ int i1,i2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLMORNINGDOJISTAR_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLMORNINGDOJISTAR_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInPenetration,sizeof(STATE_P.optInPenetration),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLMORNINGSTAR.c b/ta-lib-rt/c/src/ta_func/ta_CDLMORNINGSTAR.c
index 81241c5..aaeb376 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLMORNINGSTAR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLMORNINGSTAR.c
@@ -320,12 +320,14 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLMORNINGSTAR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInPenetration = optInPenetration;
 /* Generated */    MEM_SIZE_P = TA_CDLMORNINGSTAR_Lookback(optInPenetration );
 /* Generated */    #ifndef TA_CDLMORNINGSTAR_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLMORNINGSTAR_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -662,6 +664,7 @@ int i1,i2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLMORNINGSTAR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -670,6 +673,7 @@ int i1,i2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLMORNINGSTAR_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLMORNINGSTAR_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInPenetration,sizeof(STATE_P.optInPenetration),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLONNECK.c b/ta-lib-rt/c/src/ta_func/ta_CDLONNECK.c
index ccab91e..0169ea1 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLONNECK.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLONNECK.c
@@ -284,11 +284,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLONNECK_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLONNECK_Lookback();
 /* Generated */    #ifndef TA_CDLONNECK_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLONNECK_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -631,6 +633,7 @@ int i1;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLONNECK_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -639,6 +642,7 @@ int i1;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLONNECK_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLONNECK_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.EqualPeriodTotal,sizeof(STATE_P.EqualPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLPIERCING.c b/ta-lib-rt/c/src/ta_func/ta_CDLPIERCING.c
index 1d898ca..b284c57 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLPIERCING.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLPIERCING.c
@@ -284,11 +284,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLPIERCING_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLPIERCING_Lookback();
 /* Generated */    #ifndef TA_CDLPIERCING_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLPIERCING_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -622,6 +624,7 @@ int i1;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLPIERCING_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -630,6 +633,7 @@ int i1;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLPIERCING_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLPIERCING_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyLongPeriodTotal0,sizeof(STATE_P.BodyLongPeriodTotal0),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLRICKSHAWMAN.c b/ta-lib-rt/c/src/ta_func/ta_CDLRICKSHAWMAN.c
index 7798ecd..8a64109 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLRICKSHAWMAN.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLRICKSHAWMAN.c
@@ -306,11 +306,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLRICKSHAWMAN_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLRICKSHAWMAN_Lookback();
 /* Generated */    #ifndef TA_CDLRICKSHAWMAN_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLRICKSHAWMAN_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -653,6 +655,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLRICKSHAWMAN_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -661,6 +664,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLRICKSHAWMAN_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLRICKSHAWMAN_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyDojiPeriodTotal,sizeof(STATE_P.BodyDojiPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLRISEFALL3METHODS.c b/ta-lib-rt/c/src/ta_func/ta_CDLRISEFALL3METHODS.c
index d203520..04f2d2d 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLRISEFALL3METHODS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLRISEFALL3METHODS.c
@@ -314,11 +314,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLRISEFALL3METHODS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLRISEFALL3METHODS_Lookback();
 /* Generated */    #ifndef TA_CDLRISEFALL3METHODS_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLRISEFALL3METHODS_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -678,6 +680,7 @@ int i1, i2, i3, i4;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLRISEFALL3METHODS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -686,6 +689,7 @@ int i1, i2, i3, i4;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLRISEFALL3METHODS_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLRISEFALL3METHODS_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyPeriodTotal0,sizeof(STATE_P.BodyPeriodTotal0),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLSEPARATINGLINES.c b/ta-lib-rt/c/src/ta_func/ta_CDLSEPARATINGLINES.c
index 91600a0..ba37e8e 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLSEPARATINGLINES.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLSEPARATINGLINES.c
@@ -301,11 +301,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLSEPARATINGLINES_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLSEPARATINGLINES_Lookback();
 /* Generated */    #ifndef TA_CDLSEPARATINGLINES_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLSEPARATINGLINES_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -673,6 +675,7 @@ int i1;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLSEPARATINGLINES_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -681,6 +684,7 @@ int i1;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLSEPARATINGLINES_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLSEPARATINGLINES_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.ShadowVeryShortPeriodTotal,sizeof(STATE_P.ShadowVeryShortPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLSHOOTINGSTAR.c b/ta-lib-rt/c/src/ta_func/ta_CDLSHOOTINGSTAR.c
index b8db3fe..b2068c7 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLSHOOTINGSTAR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLSHOOTINGSTAR.c
@@ -297,11 +297,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLSHOOTINGSTAR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLSHOOTINGSTAR_Lookback();
 /* Generated */    #ifndef TA_CDLSHOOTINGSTAR_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLSHOOTINGSTAR_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -638,6 +640,7 @@ int i1;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLSHOOTINGSTAR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -646,6 +649,7 @@ int i1;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLSHOOTINGSTAR_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLSHOOTINGSTAR_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyPeriodTotal,sizeof(STATE_P.BodyPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLSHORTLINE.c b/ta-lib-rt/c/src/ta_func/ta_CDLSHORTLINE.c
index d05127f..878801f 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLSHORTLINE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLSHORTLINE.c
@@ -276,11 +276,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLSHORTLINE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLSHORTLINE_Lookback();
 /* Generated */    #ifndef TA_CDLSHORTLINE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLSHORTLINE_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -605,6 +607,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLSHORTLINE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -613,6 +616,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLSHORTLINE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLSHORTLINE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.ShadowPeriodTotal,sizeof(STATE_P.ShadowPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLSPINNINGTOP.c b/ta-lib-rt/c/src/ta_func/ta_CDLSPINNINGTOP.c
index 6056dc1..c894863 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLSPINNINGTOP.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLSPINNINGTOP.c
@@ -268,11 +268,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLSPINNINGTOP_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLSPINNINGTOP_Lookback();
 /* Generated */    #ifndef TA_CDLSPINNINGTOP_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLSPINNINGTOP_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -585,6 +587,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLSPINNINGTOP_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -593,6 +596,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLSPINNINGTOP_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLSPINNINGTOP_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyPeriodTotal,sizeof(STATE_P.BodyPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLSTALLEDPATTERN.c b/ta-lib-rt/c/src/ta_func/ta_CDLSTALLEDPATTERN.c
index 6353d25..3986bb2 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLSTALLEDPATTERN.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLSTALLEDPATTERN.c
@@ -332,11 +332,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLSTALLEDPATTERN_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLSTALLEDPATTERN_Lookback();
 /* Generated */    #ifndef TA_CDLSTALLEDPATTERN_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLSTALLEDPATTERN_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -704,6 +706,7 @@ int i1, i2, i3;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLSTALLEDPATTERN_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -712,6 +715,7 @@ int i1, i2, i3;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLSTALLEDPATTERN_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLSTALLEDPATTERN_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyLongPeriodTotal1,sizeof(STATE_P.BodyLongPeriodTotal1),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLSTICKSANDWICH.c b/ta-lib-rt/c/src/ta_func/ta_CDLSTICKSANDWICH.c
index c6b80bf..e6482f7 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLSTICKSANDWICH.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLSTICKSANDWICH.c
@@ -274,11 +274,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLSTICKSANDWICH_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLSTICKSANDWICH_Lookback();
 /* Generated */    #ifndef TA_CDLSTICKSANDWICH_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLSTICKSANDWICH_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -605,6 +607,7 @@ int i1, i2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLSTICKSANDWICH_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -613,6 +616,7 @@ int i1, i2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLSTICKSANDWICH_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLSTICKSANDWICH_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.EqualPeriodTotal,sizeof(STATE_P.EqualPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLTAKURI.c b/ta-lib-rt/c/src/ta_func/ta_CDLTAKURI.c
index 34f5410..c78dd61 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLTAKURI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLTAKURI.c
@@ -297,11 +297,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLTAKURI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLTAKURI_Lookback();
 /* Generated */    #ifndef TA_CDLTAKURI_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLTAKURI_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -654,6 +656,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLTAKURI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -662,6 +665,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLTAKURI_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLTAKURI_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyDojiPeriodTotal,sizeof(STATE_P.BodyDojiPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLTASUKIGAP.c b/ta-lib-rt/c/src/ta_func/ta_CDLTASUKIGAP.c
index 3253df0..29258f8 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLTASUKIGAP.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLTASUKIGAP.c
@@ -291,11 +291,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLTASUKIGAP_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLTASUKIGAP_Lookback();
 /* Generated */    #ifndef TA_CDLTASUKIGAP_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLTASUKIGAP_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -637,6 +639,7 @@ int i1, i2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLTASUKIGAP_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -645,6 +648,7 @@ int i1, i2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLTASUKIGAP_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLTASUKIGAP_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.NearPeriodTotal,sizeof(STATE_P.NearPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLTHRUSTING.c b/ta-lib-rt/c/src/ta_func/ta_CDLTHRUSTING.c
index c545320..1a9dc86 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLTHRUSTING.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLTHRUSTING.c
@@ -290,11 +290,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLTHRUSTING_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLTHRUSTING_Lookback();
 /* Generated */    #ifndef TA_CDLTHRUSTING_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLTHRUSTING_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -637,6 +639,7 @@ int i1;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLTHRUSTING_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -645,6 +648,7 @@ int i1;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLTHRUSTING_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLTHRUSTING_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.EqualPeriodTotal,sizeof(STATE_P.EqualPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLTRISTAR.c b/ta-lib-rt/c/src/ta_func/ta_CDLTRISTAR.c
index 4870b70..65aeafe 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLTRISTAR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLTRISTAR.c
@@ -288,11 +288,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLTRISTAR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLTRISTAR_Lookback();
 /* Generated */    #ifndef TA_CDLTRISTAR_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLTRISTAR_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -619,6 +621,7 @@ int i1, i2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLTRISTAR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -627,6 +630,7 @@ int i1, i2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLTRISTAR_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLTRISTAR_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyPeriodTotal,sizeof(STATE_P.BodyPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLUNIQUE3RIVER.c b/ta-lib-rt/c/src/ta_func/ta_CDLUNIQUE3RIVER.c
index f505e76..f23dad8 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLUNIQUE3RIVER.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLUNIQUE3RIVER.c
@@ -288,11 +288,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLUNIQUE3RIVER_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLUNIQUE3RIVER_Lookback();
 /* Generated */    #ifndef TA_CDLUNIQUE3RIVER_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLUNIQUE3RIVER_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -624,6 +626,7 @@ int i1,i2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLUNIQUE3RIVER_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -632,6 +635,7 @@ int i1,i2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLUNIQUE3RIVER_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLUNIQUE3RIVER_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyLongPeriodTotal,sizeof(STATE_P.BodyLongPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLUPSIDEGAP2CROWS.c b/ta-lib-rt/c/src/ta_func/ta_CDLUPSIDEGAP2CROWS.c
index 7f57f7d..21c32b4 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLUPSIDEGAP2CROWS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLUPSIDEGAP2CROWS.c
@@ -291,11 +291,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLUPSIDEGAP2CROWS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLUPSIDEGAP2CROWS_Lookback();
 /* Generated */    #ifndef TA_CDLUPSIDEGAP2CROWS_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLUPSIDEGAP2CROWS_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -627,6 +629,7 @@ int i1,i2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLUPSIDEGAP2CROWS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -635,6 +638,7 @@ int i1,i2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLUPSIDEGAP2CROWS_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLUPSIDEGAP2CROWS_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyLongPeriodTotal,sizeof(STATE_P.BodyLongPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLXSIDEGAP3METHODS.c b/ta-lib-rt/c/src/ta_func/ta_CDLXSIDEGAP3METHODS.c
index 4ef4bf8..2830800 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLXSIDEGAP3METHODS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLXSIDEGAP3METHODS.c
@@ -272,11 +272,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLXSIDEGAP3METHODS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLXSIDEGAP3METHODS_Lookback();
 /* Generated */    #ifndef TA_CDLXSIDEGAP3METHODS_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLXSIDEGAP3METHODS_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -581,6 +583,7 @@ int i1,i2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLXSIDEGAP3METHODS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -589,6 +592,7 @@ int i1,i2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLXSIDEGAP3METHODS_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLXSIDEGAP3METHODS_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_CEIL.c b/ta-lib-rt/c/src/ta_func/ta_CEIL.c
index 26b69a8..5e42e08 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CEIL.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CEIL.c
@@ -208,11 +208,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CEIL_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CEIL_Lookback();
 /* Generated */    #ifndef TA_CEIL_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CEIL_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -466,6 +468,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CEIL_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -474,6 +477,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CEIL_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CEIL_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_CMO.c b/ta-lib-rt/c/src/ta_func/ta_CMO.c
index 426b769..8b5e430 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CMO.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CMO.c
@@ -448,12 +448,14 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CMO_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_CMO_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_CMO_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CMO_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -769,6 +771,7 @@ double tempValue1, tempValue2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CMO_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -777,6 +780,7 @@ double tempValue1, tempValue2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CMO_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CMO_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CORREL.c b/ta-lib-rt/c/src/ta_func/ta_CORREL.c
index 39980a2..58a65fd 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CORREL.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CORREL.c
@@ -315,12 +315,14 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CORREL_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_CORREL_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_CORREL_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CORREL_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -642,6 +644,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CORREL_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -650,6 +653,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CORREL_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CORREL_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_COS.c b/ta-lib-rt/c/src/ta_func/ta_COS.c
index 0449fc0..cba34d7 100644
--- a/ta-lib-rt/c/src/ta_func/ta_COS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_COS.c
@@ -208,11 +208,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_COS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_COS_Lookback();
 /* Generated */    #ifndef TA_COS_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_COS_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -466,6 +468,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_COS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -474,6 +477,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_COS_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_COS_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_COSH.c b/ta-lib-rt/c/src/ta_func/ta_COSH.c
index a55af67..91a63c6 100644
--- a/ta-lib-rt/c/src/ta_func/ta_COSH.c
+++ b/ta-lib-rt/c/src/ta_func/ta_COSH.c
@@ -208,11 +208,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_COSH_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_COSH_Lookback();
 /* Generated */    #ifndef TA_COSH_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_COSH_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -465,6 +467,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_COSH_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -473,6 +476,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_COSH_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_COSH_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_DEMA.c b/ta-lib-rt/c/src/ta_func/ta_DEMA.c
index 7829dd4..20cca59 100644
--- a/ta-lib-rt/c/src/ta_func/ta_DEMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_DEMA.c
@@ -375,12 +375,14 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_DEMA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_DEMA_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_DEMA_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_DEMA_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -673,6 +675,7 @@ TA_RetCode retCode;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_DEMA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -681,6 +684,7 @@ TA_RetCode retCode;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_DEMA_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_DEMA_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_DIV.c b/ta-lib-rt/c/src/ta_func/ta_DIV.c
index cc3a702..90e33b4 100644
--- a/ta-lib-rt/c/src/ta_func/ta_DIV.c
+++ b/ta-lib-rt/c/src/ta_func/ta_DIV.c
@@ -213,11 +213,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_DIV_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_DIV_Lookback();
 /* Generated */    #ifndef TA_DIV_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_DIV_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -479,6 +481,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_DIV_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -487,6 +490,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_DIV_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_DIV_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_DX.c b/ta-lib-rt/c/src/ta_func/ta_DX.c
index f63be0a..af48231 100644
--- a/ta-lib-rt/c/src/ta_func/ta_DX.c
+++ b/ta-lib-rt/c/src/ta_func/ta_DX.c
@@ -522,12 +522,14 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_DX_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_DX_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_DX_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_DX_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -885,6 +887,7 @@ double minusDI, plusDI;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_DX_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -893,6 +896,7 @@ double minusDI, plusDI;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_DX_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_DX_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_EMA.c b/ta-lib-rt/c/src/ta_func/ta_EMA.c
index 6ca81bb..d994f53 100644
--- a/ta-lib-rt/c/src/ta_func/ta_EMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_EMA.c
@@ -394,12 +394,14 @@ TA_RetCode TA_PREFIX(INT_EMA)( int               startIdx,
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_EMA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_EMA_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_EMA_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_EMA_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -440,6 +442,7 @@ TA_RetCode TA_PREFIX(INT_EMA)( int               startIdx,
        return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 
     STATE = TA_Calloc(1, sizeof(struct TA_EMA_State));
+    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
     STATE_P.mem_index = 0;
     STATE_P.optInTimePeriod = optInTimePeriod;
     STATE_P.optInK_1 = optInK_1;
@@ -749,6 +752,7 @@ TA_RetCode TA_PREFIX(INT_EMA)( int               startIdx,
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_EMA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -757,6 +761,7 @@ TA_RetCode TA_PREFIX(INT_EMA)( int               startIdx,
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_EMA_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_EMA_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_EXP.c b/ta-lib-rt/c/src/ta_func/ta_EXP.c
index bf74448..85ee092 100644
--- a/ta-lib-rt/c/src/ta_func/ta_EXP.c
+++ b/ta-lib-rt/c/src/ta_func/ta_EXP.c
@@ -208,11 +208,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_EXP_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_EXP_Lookback();
 /* Generated */    #ifndef TA_EXP_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_EXP_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -466,6 +468,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_EXP_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -474,6 +477,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_EXP_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_EXP_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_FLOOR.c b/ta-lib-rt/c/src/ta_func/ta_FLOOR.c
index 8c2137f..317fa7f 100644
--- a/ta-lib-rt/c/src/ta_func/ta_FLOOR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_FLOOR.c
@@ -208,11 +208,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_FLOOR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_FLOOR_Lookback();
 /* Generated */    #ifndef TA_FLOOR_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_FLOOR_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -466,6 +468,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_FLOOR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -474,6 +477,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_FLOOR_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_FLOOR_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_HT_DCPERIOD.c b/ta-lib-rt/c/src/ta_func/ta_HT_DCPERIOD.c
index a3788a5..c6f6bfd 100644
--- a/ta-lib-rt/c/src/ta_func/ta_HT_DCPERIOD.c
+++ b/ta-lib-rt/c/src/ta_func/ta_HT_DCPERIOD.c
@@ -406,11 +406,13 @@ DEFINE_HILBERT_VARIABLES_STRUCT(HT_DCPERIOD)
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_HT_DCPERIOD_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_HT_DCPERIOD_Lookback();
 /* Generated */    #ifndef TA_HT_DCPERIOD_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_HT_DCPERIOD_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -837,6 +839,7 @@ DEFINE_HILBERT_VARIABLES_STRUCT(HT_DCPERIOD)
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_HT_DCPERIOD_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -845,6 +848,7 @@ DEFINE_HILBERT_VARIABLES_STRUCT(HT_DCPERIOD)
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_HT_DCPERIOD_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_HT_DCPERIOD_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    // Warning: STATE_P.detrender must be loaded manually!
diff --git a/ta-lib-rt/c/src/ta_func/ta_HT_DCPHASE.c b/ta-lib-rt/c/src/ta_func/ta_HT_DCPHASE.c
index 4c9b786..b072770 100644
--- a/ta-lib-rt/c/src/ta_func/ta_HT_DCPHASE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_HT_DCPHASE.c
@@ -490,11 +490,13 @@ DEFINE_HILBERT_VARIABLES_STRUCT(HT_DCPHASE)
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_HT_DCPHASE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_HT_DCPHASE_Lookback();
 /* Generated */    #ifndef TA_HT_DCPHASE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_HT_DCPHASE_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -984,6 +986,7 @@ DEFINE_HILBERT_VARIABLES_STRUCT(HT_DCPHASE)
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_HT_DCPHASE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -992,6 +995,7 @@ DEFINE_HILBERT_VARIABLES_STRUCT(HT_DCPHASE)
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_HT_DCPHASE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_HT_DCPHASE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    // Warning: STATE_P.detrender must be loaded manually!
diff --git a/ta-lib-rt/c/src/ta_func/ta_HT_PHASOR.c b/ta-lib-rt/c/src/ta_func/ta_HT_PHASOR.c
index f382ef1..8645951 100644
--- a/ta-lib-rt/c/src/ta_func/ta_HT_PHASOR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_HT_PHASOR.c
@@ -423,11 +423,13 @@ DEFINE_HILBERT_VARIABLES_STRUCT(HT_PHASOR)
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_HT_PHASOR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_HT_PHASOR_Lookback();
 /* Generated */    #ifndef TA_HT_PHASOR_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_HT_PHASOR_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -876,6 +878,7 @@ DEFINE_HILBERT_VARIABLES_STRUCT(HT_PHASOR)
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_HT_PHASOR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -884,6 +887,7 @@ DEFINE_HILBERT_VARIABLES_STRUCT(HT_PHASOR)
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_HT_PHASOR_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_HT_PHASOR_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    // Warning: STATE_P.detrender must be loaded manually!
diff --git a/ta-lib-rt/c/src/ta_func/ta_HT_SINE.c b/ta-lib-rt/c/src/ta_func/ta_HT_SINE.c
index 925e2f8..6275340 100644
--- a/ta-lib-rt/c/src/ta_func/ta_HT_SINE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_HT_SINE.c
@@ -498,11 +498,13 @@ DEFINE_HILBERT_VARIABLES_STRUCT(HT_SINE)
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_HT_SINE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_HT_SINE_Lookback();
 /* Generated */    #ifndef TA_HT_SINE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_HT_SINE_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -1013,6 +1015,7 @@ else {
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_HT_SINE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -1021,6 +1024,7 @@ else {
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_HT_SINE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_HT_SINE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    // Warning: STATE_P.detrender must be loaded manually!
diff --git a/ta-lib-rt/c/src/ta_func/ta_HT_TRENDLINE.c b/ta-lib-rt/c/src/ta_func/ta_HT_TRENDLINE.c
index 34178d1..adae7fe 100644
--- a/ta-lib-rt/c/src/ta_func/ta_HT_TRENDLINE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_HT_TRENDLINE.c
@@ -471,11 +471,13 @@ DEFINE_HILBERT_VARIABLES_STRUCT(HT_TRENDLINE)
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_HT_TRENDLINE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_HT_TRENDLINE_Lookback();
 /* Generated */    #ifndef TA_HT_TRENDLINE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_HT_TRENDLINE_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -946,6 +948,7 @@ else {
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_HT_TRENDLINE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -954,6 +957,7 @@ else {
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_HT_TRENDLINE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_HT_TRENDLINE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    // Warning: STATE_P.detrender must be loaded manually!
diff --git a/ta-lib-rt/c/src/ta_func/ta_HT_TRENDMODE.c b/ta-lib-rt/c/src/ta_func/ta_HT_TRENDMODE.c
index a476f67..2161a67 100644
--- a/ta-lib-rt/c/src/ta_func/ta_HT_TRENDMODE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_HT_TRENDMODE.c
@@ -559,11 +559,13 @@ DEFINE_HILBERT_VARIABLES_STRUCT(HT_TRENDMODE)
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_HT_TRENDMODE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_HT_TRENDMODE_Lookback();
 /* Generated */    #ifndef TA_HT_TRENDMODE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_HT_TRENDMODE_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -1129,6 +1131,7 @@ double sine, leadSine;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_HT_TRENDMODE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -1137,6 +1140,7 @@ double sine, leadSine;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_HT_TRENDMODE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_HT_TRENDMODE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    // Warning: STATE_P.detrender must be loaded manually!
diff --git a/ta-lib-rt/c/src/ta_func/ta_IMI.c b/ta-lib-rt/c/src/ta_func/ta_IMI.c
index 469d2a2..3f3b310 100644
--- a/ta-lib-rt/c/src/ta_func/ta_IMI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_IMI.c
@@ -268,12 +268,14 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_IMI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_IMI_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_IMI_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_IMI_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -580,6 +582,7 @@ double tempClose, tempOpen;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_IMI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -588,6 +591,7 @@ double tempClose, tempOpen;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_IMI_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_IMI_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_KAMA.c b/ta-lib-rt/c/src/ta_func/ta_KAMA.c
index c02cdcc..a50e995 100644
--- a/ta-lib-rt/c/src/ta_func/ta_KAMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_KAMA.c
@@ -391,12 +391,14 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_KAMA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_KAMA_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_KAMA_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_KAMA_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -722,6 +724,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_KAMA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -730,6 +733,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_KAMA_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_KAMA_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_LINEARREG.c b/ta-lib-rt/c/src/ta_func/ta_LINEARREG.c
index 067e24d..05698f1 100644
--- a/ta-lib-rt/c/src/ta_func/ta_LINEARREG.c
+++ b/ta-lib-rt/c/src/ta_func/ta_LINEARREG.c
@@ -289,12 +289,14 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_LINEARREG_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_LINEARREG_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_LINEARREG_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_LINEARREG_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -592,6 +594,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_LINEARREG_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -600,6 +603,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_LINEARREG_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_LINEARREG_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_LINEARREG_ANGLE.c b/ta-lib-rt/c/src/ta_func/ta_LINEARREG_ANGLE.c
index c1dd648..dff8ba4 100644
--- a/ta-lib-rt/c/src/ta_func/ta_LINEARREG_ANGLE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_LINEARREG_ANGLE.c
@@ -290,12 +290,14 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_LINEARREG_ANGLE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_LINEARREG_ANGLE_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_LINEARREG_ANGLE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_LINEARREG_ANGLE_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -592,6 +594,7 @@ double m, tempReal;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_LINEARREG_ANGLE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -600,6 +603,7 @@ double m, tempReal;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_LINEARREG_ANGLE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_LINEARREG_ANGLE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_LINEARREG_INTERCEPT.c b/ta-lib-rt/c/src/ta_func/ta_LINEARREG_INTERCEPT.c
index a76e110..c54792a 100644
--- a/ta-lib-rt/c/src/ta_func/ta_LINEARREG_INTERCEPT.c
+++ b/ta-lib-rt/c/src/ta_func/ta_LINEARREG_INTERCEPT.c
@@ -288,12 +288,14 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_LINEARREG_INTERCEPT_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_LINEARREG_INTERCEPT_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_LINEARREG_INTERCEPT_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_LINEARREG_INTERCEPT_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -591,6 +593,7 @@ double m, tempReal;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_LINEARREG_INTERCEPT_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -599,6 +602,7 @@ double m, tempReal;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_LINEARREG_INTERCEPT_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_LINEARREG_INTERCEPT_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_LINEARREG_SLOPE.c b/ta-lib-rt/c/src/ta_func/ta_LINEARREG_SLOPE.c
index 3e98a51..1db63b4 100644
--- a/ta-lib-rt/c/src/ta_func/ta_LINEARREG_SLOPE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_LINEARREG_SLOPE.c
@@ -286,12 +286,14 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_LINEARREG_SLOPE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_LINEARREG_SLOPE_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_LINEARREG_SLOPE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_LINEARREG_SLOPE_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -587,6 +589,7 @@ double tempReal;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_LINEARREG_SLOPE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -595,6 +598,7 @@ double tempReal;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_LINEARREG_SLOPE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_LINEARREG_SLOPE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_LN.c b/ta-lib-rt/c/src/ta_func/ta_LN.c
index c21090f..3b78e9b 100644
--- a/ta-lib-rt/c/src/ta_func/ta_LN.c
+++ b/ta-lib-rt/c/src/ta_func/ta_LN.c
@@ -208,11 +208,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_LN_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_LN_Lookback();
 /* Generated */    #ifndef TA_LN_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_LN_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -466,6 +468,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_LN_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -474,6 +477,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_LN_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_LN_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_LOG10.c b/ta-lib-rt/c/src/ta_func/ta_LOG10.c
index 1ce5358..aece7ff 100644
--- a/ta-lib-rt/c/src/ta_func/ta_LOG10.c
+++ b/ta-lib-rt/c/src/ta_func/ta_LOG10.c
@@ -208,11 +208,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_LOG10_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_LOG10_Lookback();
 /* Generated */    #ifndef TA_LOG10_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_LOG10_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -466,6 +468,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_LOG10_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -474,6 +477,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_LOG10_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_LOG10_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_MA.c b/ta-lib-rt/c/src/ta_func/ta_MA.c
index 68badbd..e3fab18 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MA.c
@@ -388,13 +388,15 @@ ENUM_DECLARATION(RetCode) retValue;
 /* Generated */ 
 /* Generated */    #endif /* !defined(_MANAGED) && !defined(_JAVA)*/
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    STATE_P.optInMAType = optInMAType;
 /* Generated */    MEM_SIZE_P = TA_MA_Lookback(optInTimePeriod, optInMAType );
 /* Generated */    #ifndef TA_MA_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MA_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -872,6 +874,7 @@ ENUM_DECLARATION(RetCode) retValue;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -880,6 +883,7 @@ ENUM_DECLARATION(RetCode) retValue;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MA_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MA_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MACD.c b/ta-lib-rt/c/src/ta_func/ta_MACD.c
index 4814ee4..20216f8 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MACD.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MACD.c
@@ -586,14 +586,16 @@ ENUM_DECLARATION(RetCode) retCode;
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MACD_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInFastPeriod = optInFastPeriod;
 /* Generated */    STATE_P.optInSlowPeriod = optInSlowPeriod;
 /* Generated */    STATE_P.optInSignalPeriod = optInSignalPeriod;
 /* Generated */    MEM_SIZE_P = TA_MACD_Lookback(optInFastPeriod, optInSlowPeriod, optInSignalPeriod );
 /* Generated */    #ifndef TA_MACD_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MACD_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -695,6 +697,7 @@ k2 = (double)0.15; /* Fix 12 */
        return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 
     STATE = TA_Calloc(1, sizeof(struct TA_MACD_State));
+    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
     STATE_P.mem_index = 0;
     STATE_P.optInFastPeriod = optInFastPeriod;
     STATE_P.optInSlowPeriod = optInSlowPeriod;
@@ -1067,6 +1070,7 @@ TA_RetCode retCode;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MACD_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -1075,6 +1079,7 @@ TA_RetCode retCode;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MACD_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MACD_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInFastPeriod,sizeof(STATE_P.optInFastPeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MACDEXT.c b/ta-lib-rt/c/src/ta_func/ta_MACDEXT.c
index 0f08e0d..2e1d6b4 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MACDEXT.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MACDEXT.c
@@ -545,6 +545,7 @@ ENUM_DECLARATION(RetCode) retCode;
 /* Generated */ 
 /* Generated */    #endif /* !defined(_MANAGED) && !defined(_JAVA)*/
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MACDEXT_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInFastPeriod = optInFastPeriod;
 /* Generated */    STATE_P.optInFastMAType = optInFastMAType;
@@ -554,8 +555,9 @@ ENUM_DECLARATION(RetCode) retCode;
 /* Generated */    STATE_P.optInSignalMAType = optInSignalMAType;
 /* Generated */    MEM_SIZE_P = TA_MACDEXT_Lookback(optInFastPeriod, optInFastMAType, optInSlowPeriod, optInSlowMAType, optInSignalPeriod, optInSignalMAType );
 /* Generated */    #ifndef TA_MACDEXT_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MACDEXT_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -943,6 +945,7 @@ TA_RetCode retCode;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MACDEXT_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -951,6 +954,7 @@ TA_RetCode retCode;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MACDEXT_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MACDEXT_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInFastPeriod,sizeof(STATE_P.optInFastPeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MACDFIX.c b/ta-lib-rt/c/src/ta_func/ta_MACDFIX.c
index a943b26..3ec16b7 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MACDFIX.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MACDFIX.c
@@ -260,12 +260,14 @@ return FUNCTION_CALL_STATE_INIT(INT_MACD)((struct TA_MACD_State**) _state,
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MACDFIX_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInSignalPeriod = optInSignalPeriod;
 /* Generated */    MEM_SIZE_P = TA_MACDFIX_Lookback(optInSignalPeriod );
 /* Generated */    #ifndef TA_MACDFIX_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MACDFIX_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -561,6 +563,7 @@ return FUNCTION_CALL_STATE_INIT(INT_MACD)((struct TA_MACD_State**) _state,
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MACDFIX_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -569,6 +572,7 @@ return FUNCTION_CALL_STATE_INIT(INT_MACD)((struct TA_MACD_State**) _state,
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MACDFIX_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MACDFIX_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInSignalPeriod,sizeof(STATE_P.optInSignalPeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MAMA.c b/ta-lib-rt/c/src/ta_func/ta_MAMA.c
index 21652e4..e090279 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MAMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MAMA.c
@@ -535,13 +535,15 @@ DEFINE_HILBERT_VARIABLES_STRUCT(MAMA)
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MAMA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInFastLimit = optInFastLimit;
 /* Generated */    STATE_P.optInSlowLimit = optInSlowLimit;
 /* Generated */    MEM_SIZE_P = TA_MAMA_Lookback(optInFastLimit, optInSlowLimit );
 /* Generated */    #ifndef TA_MAMA_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MAMA_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -1034,6 +1036,7 @@ DEFINE_HILBERT_VARIABLES_STRUCT(MAMA)
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MAMA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -1042,6 +1045,7 @@ DEFINE_HILBERT_VARIABLES_STRUCT(MAMA)
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MAMA_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MAMA_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInFastLimit,sizeof(STATE_P.optInFastLimit),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MAVP.c b/ta-lib-rt/c/src/ta_func/ta_MAVP.c
index ceff31f..fca359c 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MAVP.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MAVP.c
@@ -399,14 +399,16 @@
 /* Generated */ 
 /* Generated */    #endif /* !defined(_MANAGED) && !defined(_JAVA)*/
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MAVP_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInMinPeriod = optInMinPeriod;
 /* Generated */    STATE_P.optInMaxPeriod = optInMaxPeriod;
 /* Generated */    STATE_P.optInMAType = optInMAType;
 /* Generated */    MEM_SIZE_P = TA_MAVP_Lookback(optInMinPeriod, optInMaxPeriod, optInMAType );
 /* Generated */    #ifndef TA_MAVP_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MAVP_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -697,6 +699,7 @@ TA_RetCode retCode;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MAVP_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -705,6 +708,7 @@ TA_RetCode retCode;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MAVP_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MAVP_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInMinPeriod,sizeof(STATE_P.optInMinPeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MAX.c b/ta-lib-rt/c/src/ta_func/ta_MAX.c
index dfab3ff..76de97d 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MAX.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MAX.c
@@ -298,12 +298,14 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MAX_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_MAX_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_MAX_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MAX_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -598,6 +600,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MAX_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -606,6 +609,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MAX_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MAX_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MAXINDEX.c b/ta-lib-rt/c/src/ta_func/ta_MAXINDEX.c
index 8224f8d..4b48c8c 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MAXINDEX.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MAXINDEX.c
@@ -292,12 +292,14 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MAXINDEX_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_MAXINDEX_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_MAXINDEX_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MAXINDEX_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -603,6 +605,7 @@ VALUE_HANDLE_DEREF(outInteger) = STATE.maxIdx-1;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MAXINDEX_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -611,6 +614,7 @@ VALUE_HANDLE_DEREF(outInteger) = STATE.maxIdx-1;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MAXINDEX_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MAXINDEX_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MEDPRICE.c b/ta-lib-rt/c/src/ta_func/ta_MEDPRICE.c
index bdd4ed2..e2854f4 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MEDPRICE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MEDPRICE.c
@@ -221,11 +221,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MEDPRICE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_MEDPRICE_Lookback();
 /* Generated */    #ifndef TA_MEDPRICE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MEDPRICE_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -488,6 +490,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MEDPRICE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -496,6 +499,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MEDPRICE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MEDPRICE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_MFI.c b/ta-lib-rt/c/src/ta_func/ta_MFI.c
index d23d1c1..b93961b 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MFI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MFI.c
@@ -419,12 +419,14 @@ DEFINE_CIRCBUF_STRUCT(MFI, MoneyFlow)
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MFI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_MFI_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_MFI_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MFI_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -763,6 +765,7 @@ DEFINE_CIRCBUF_STRUCT(MFI, MoneyFlow)
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MFI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -771,6 +774,7 @@ DEFINE_CIRCBUF_STRUCT(MFI, MoneyFlow)
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MFI_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MFI_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MIDPOINT.c b/ta-lib-rt/c/src/ta_func/ta_MIDPOINT.c
index 7d548f1..dcae201 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MIDPOINT.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MIDPOINT.c
@@ -286,12 +286,14 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MIDPOINT_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_MIDPOINT_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_MIDPOINT_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MIDPOINT_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -560,6 +562,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MIDPOINT_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -568,6 +571,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MIDPOINT_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MIDPOINT_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MIDPRICE.c b/ta-lib-rt/c/src/ta_func/ta_MIDPRICE.c
index 37855d4..76bec2a 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MIDPRICE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MIDPRICE.c
@@ -292,12 +292,14 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MIDPRICE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_MIDPRICE_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_MIDPRICE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MIDPRICE_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -578,6 +580,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MIDPRICE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -586,6 +589,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MIDPRICE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MIDPRICE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MIN.c b/ta-lib-rt/c/src/ta_func/ta_MIN.c
index 98df43f..dabf8d3 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MIN.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MIN.c
@@ -299,12 +299,14 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MIN_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_MIN_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_MIN_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MIN_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -599,6 +601,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MIN_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -607,6 +610,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MIN_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MIN_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MININDEX.c b/ta-lib-rt/c/src/ta_func/ta_MININDEX.c
index 171ed0a..892834b 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MININDEX.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MININDEX.c
@@ -292,12 +292,14 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MININDEX_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_MININDEX_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_MININDEX_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MININDEX_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -605,6 +607,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MININDEX_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -613,6 +616,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MININDEX_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MININDEX_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MINMAX.c b/ta-lib-rt/c/src/ta_func/ta_MINMAX.c
index 8c9e157..0d61671 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MINMAX.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MINMAX.c
@@ -324,12 +324,14 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MINMAX_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_MINMAX_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_MINMAX_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MINMAX_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -663,6 +665,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MINMAX_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -671,6 +674,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MINMAX_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MINMAX_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MINMAXINDEX.c b/ta-lib-rt/c/src/ta_func/ta_MINMAXINDEX.c
index 8a19912..fb4018f 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MINMAXINDEX.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MINMAXINDEX.c
@@ -324,12 +324,14 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MINMAXINDEX_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_MINMAXINDEX_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_MINMAXINDEX_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MINMAXINDEX_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -687,6 +689,7 @@ return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MINMAXINDEX_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -695,6 +698,7 @@ return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MINMAXINDEX_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MINMAXINDEX_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MINUS_DI.c b/ta-lib-rt/c/src/ta_func/ta_MINUS_DI.c
index 38a5da0..46d4ec0 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MINUS_DI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MINUS_DI.c
@@ -529,12 +529,14 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MINUS_DI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_MINUS_DI_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_MINUS_DI_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MINUS_DI_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -893,6 +895,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MINUS_DI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -901,6 +904,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MINUS_DI_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MINUS_DI_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MINUS_DM.c b/ta-lib-rt/c/src/ta_func/ta_MINUS_DM.c
index de16fc5..1fd9a86 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MINUS_DM.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MINUS_DM.c
@@ -442,12 +442,14 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MINUS_DM_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_MINUS_DM_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_MINUS_DM_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MINUS_DM_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -775,6 +777,7 @@ double diffP, diffM;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MINUS_DM_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -783,6 +786,7 @@ double diffP, diffM;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MINUS_DM_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MINUS_DM_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MOM.c b/ta-lib-rt/c/src/ta_func/ta_MOM.c
index 98e47f1..b78a819 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MOM.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MOM.c
@@ -290,12 +290,14 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MOM_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_MOM_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_MOM_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MOM_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -553,6 +555,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MOM_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -561,6 +564,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MOM_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MOM_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MULT.c b/ta-lib-rt/c/src/ta_func/ta_MULT.c
index 03f7be4..764737b 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MULT.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MULT.c
@@ -213,11 +213,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MULT_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_MULT_Lookback();
 /* Generated */    #ifndef TA_MULT_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MULT_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -479,6 +481,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MULT_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -487,6 +490,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MULT_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MULT_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_NATR.c b/ta-lib-rt/c/src/ta_func/ta_NATR.c
index 9a24b13..1feb3a4 100644
--- a/ta-lib-rt/c/src/ta_func/ta_NATR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_NATR.c
@@ -377,12 +377,14 @@ TA_RetCode retCode;
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_NATR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_NATR_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_NATR_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_NATR_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -726,6 +728,7 @@ TA_RetCode retCode;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_NATR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -734,6 +737,7 @@ TA_RetCode retCode;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_NATR_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_NATR_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_NVI.c b/ta-lib-rt/c/src/ta_func/ta_NVI.c
index d38e01b..6564c3d 100644
--- a/ta-lib-rt/c/src/ta_func/ta_NVI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_NVI.c
@@ -227,11 +227,13 @@ int outIdx;
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_NVI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_NVI_Lookback();
 /* Generated */    #ifndef TA_NVI_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_NVI_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -505,6 +507,7 @@ int outIdx;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_NVI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -513,6 +516,7 @@ int outIdx;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_NVI_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_NVI_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.prevNVI,sizeof(STATE_P.prevNVI),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_OBV.c b/ta-lib-rt/c/src/ta_func/ta_OBV.c
index 8ee6a25..d4bff49 100644
--- a/ta-lib-rt/c/src/ta_func/ta_OBV.c
+++ b/ta-lib-rt/c/src/ta_func/ta_OBV.c
@@ -225,11 +225,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_OBV_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_OBV_Lookback();
 /* Generated */    #ifndef TA_OBV_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_OBV_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -511,6 +513,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_OBV_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -519,6 +522,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_OBV_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_OBV_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.prevOBV,sizeof(STATE_P.prevOBV),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_PLUS_DI.c b/ta-lib-rt/c/src/ta_func/ta_PLUS_DI.c
index 5323dca..6f96320 100644
--- a/ta-lib-rt/c/src/ta_func/ta_PLUS_DI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_PLUS_DI.c
@@ -529,12 +529,14 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_PLUS_DI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_PLUS_DI_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_PLUS_DI_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_PLUS_DI_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -894,6 +896,7 @@ double tempReal, tempReal2, diffP, diffM;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_PLUS_DI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -902,6 +905,7 @@ double tempReal, tempReal2, diffP, diffM;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_PLUS_DI_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_PLUS_DI_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_PLUS_DM.c b/ta-lib-rt/c/src/ta_func/ta_PLUS_DM.c
index 44c5747..4c7d15b 100644
--- a/ta-lib-rt/c/src/ta_func/ta_PLUS_DM.c
+++ b/ta-lib-rt/c/src/ta_func/ta_PLUS_DM.c
@@ -443,12 +443,14 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_PLUS_DM_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_PLUS_DM_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_PLUS_DM_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_PLUS_DM_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -775,6 +777,7 @@ double diffP, diffM;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_PLUS_DM_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -783,6 +786,7 @@ double diffP, diffM;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_PLUS_DM_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_PLUS_DM_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_PPO.c b/ta-lib-rt/c/src/ta_func/ta_PPO.c
index d335e08..a05e201 100644
--- a/ta-lib-rt/c/src/ta_func/ta_PPO.c
+++ b/ta-lib-rt/c/src/ta_func/ta_PPO.c
@@ -306,14 +306,16 @@ return FUNCTION_CALL_STATE_INIT(INT_PO)((struct TA_APO_State**)_state, optInFast
 /* Generated */ 
 /* Generated */    #endif /* !defined(_MANAGED) && !defined(_JAVA)*/
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_PPO_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInFastPeriod = optInFastPeriod;
 /* Generated */    STATE_P.optInSlowPeriod = optInSlowPeriod;
 /* Generated */    STATE_P.optInMAType = optInMAType;
 /* Generated */    MEM_SIZE_P = TA_PPO_Lookback(optInFastPeriod, optInSlowPeriod, optInMAType );
 /* Generated */    #ifndef TA_PPO_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_PPO_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -577,6 +579,7 @@ return FUNCTION_CALL_STATE_LOAD(APO)((struct TA_APO_State**)_state, _file);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_PPO_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -585,6 +588,7 @@ return FUNCTION_CALL_STATE_LOAD(APO)((struct TA_APO_State**)_state, _file);
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_PPO_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_PPO_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInFastPeriod,sizeof(STATE_P.optInFastPeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_PVI.c b/ta-lib-rt/c/src/ta_func/ta_PVI.c
index d16edb7..9d0f17f 100644
--- a/ta-lib-rt/c/src/ta_func/ta_PVI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_PVI.c
@@ -229,11 +229,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_PVI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_PVI_Lookback();
 /* Generated */    #ifndef TA_PVI_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_PVI_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -506,6 +508,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_PVI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -514,6 +517,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_PVI_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_PVI_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.prevPVI,sizeof(STATE_P.prevPVI),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_PVT.c b/ta-lib-rt/c/src/ta_func/ta_PVT.c
index c727701..1e4e7c1 100644
--- a/ta-lib-rt/c/src/ta_func/ta_PVT.c
+++ b/ta-lib-rt/c/src/ta_func/ta_PVT.c
@@ -224,11 +224,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_PVT_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_PVT_Lookback();
 /* Generated */    #ifndef TA_PVT_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_PVT_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -498,6 +500,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_PVT_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -506,6 +509,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_PVT_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_PVT_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.prevPVT,sizeof(STATE_P.prevPVT),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_ROC.c b/ta-lib-rt/c/src/ta_func/ta_ROC.c
index 20177b1..6987f64 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ROC.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ROC.c
@@ -293,12 +293,14 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ROC_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_ROC_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_ROC_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ROC_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -557,6 +559,7 @@ double tempReal;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ROC_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -565,6 +568,7 @@ double tempReal;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_ROC_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_ROC_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_ROCP.c b/ta-lib-rt/c/src/ta_func/ta_ROCP.c
index 2b0600a..4c10be1 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ROCP.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ROCP.c
@@ -294,12 +294,14 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ROCP_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_ROCP_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_ROCP_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ROCP_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -557,6 +559,7 @@ double tempReal;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ROCP_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -565,6 +568,7 @@ double tempReal;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_ROCP_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_ROCP_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_ROCR.c b/ta-lib-rt/c/src/ta_func/ta_ROCR.c
index a409468..3bd19df 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ROCR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ROCR.c
@@ -295,12 +295,14 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ROCR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_ROCR_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_ROCR_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ROCR_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -558,6 +560,7 @@ double tempReal;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ROCR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -566,6 +569,7 @@ double tempReal;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_ROCR_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_ROCR_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_ROCR100.c b/ta-lib-rt/c/src/ta_func/ta_ROCR100.c
index f82d58c..636bdb7 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ROCR100.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ROCR100.c
@@ -294,12 +294,14 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ROCR100_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_ROCR100_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_ROCR100_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ROCR100_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -557,6 +559,7 @@ double tempReal;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ROCR100_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -565,6 +568,7 @@ double tempReal;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_ROCR100_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_ROCR100_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_RSI.c b/ta-lib-rt/c/src/ta_func/ta_RSI.c
index 09fcaf5..9a26b37 100644
--- a/ta-lib-rt/c/src/ta_func/ta_RSI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_RSI.c
@@ -453,12 +453,14 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_RSI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_RSI_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_RSI_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_RSI_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -772,6 +774,7 @@ double tempValue1, tempValue2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_RSI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -780,6 +783,7 @@ double tempValue1, tempValue2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_RSI_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_RSI_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_SAR.c b/ta-lib-rt/c/src/ta_func/ta_SAR.c
index f54fef9..a3c3f56 100644
--- a/ta-lib-rt/c/src/ta_func/ta_SAR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_SAR.c
@@ -541,13 +541,15 @@ TA_RetCode retCode;
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SAR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInAcceleration = optInAcceleration;
 /* Generated */    STATE_P.optInMaximum = optInMaximum;
 /* Generated */    MEM_SIZE_P = TA_SAR_Lookback(optInAcceleration, optInMaximum );
 /* Generated */    #ifndef TA_SAR_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_SAR_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -1016,6 +1018,7 @@ TA_RetCode retCode;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SAR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -1024,6 +1027,7 @@ TA_RetCode retCode;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_SAR_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_SAR_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInAcceleration,sizeof(STATE_P.optInAcceleration),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_SAREXT.c b/ta-lib-rt/c/src/ta_func/ta_SAREXT.c
index cc00bea..1238496 100644
--- a/ta-lib-rt/c/src/ta_func/ta_SAREXT.c
+++ b/ta-lib-rt/c/src/ta_func/ta_SAREXT.c
@@ -786,6 +786,7 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SAREXT_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInStartValue = optInStartValue;
 /* Generated */    STATE_P.optInOffsetOnReverse = optInOffsetOnReverse;
@@ -797,8 +798,9 @@
 /* Generated */    STATE_P.optInAccelerationMaxShort = optInAccelerationMaxShort;
 /* Generated */    MEM_SIZE_P = TA_SAREXT_Lookback(optInStartValue, optInOffsetOnReverse, optInAccelerationInitLong, optInAccelerationLong, optInAccelerationMaxLong, optInAccelerationInitShort, optInAccelerationShort, optInAccelerationMaxShort );
 /* Generated */    #ifndef TA_SAREXT_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_SAREXT_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -1326,6 +1328,7 @@ TA_RetCode retCode;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SAREXT_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -1334,6 +1337,7 @@ TA_RetCode retCode;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_SAREXT_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_SAREXT_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInStartValue,sizeof(STATE_P.optInStartValue),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_SIN.c b/ta-lib-rt/c/src/ta_func/ta_SIN.c
index f58ef85..a1d1948 100644
--- a/ta-lib-rt/c/src/ta_func/ta_SIN.c
+++ b/ta-lib-rt/c/src/ta_func/ta_SIN.c
@@ -208,11 +208,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SIN_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_SIN_Lookback();
 /* Generated */    #ifndef TA_SIN_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_SIN_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -466,6 +468,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SIN_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -474,6 +477,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_SIN_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_SIN_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_SINH.c b/ta-lib-rt/c/src/ta_func/ta_SINH.c
index eb1dafb..b9dc522 100644
--- a/ta-lib-rt/c/src/ta_func/ta_SINH.c
+++ b/ta-lib-rt/c/src/ta_func/ta_SINH.c
@@ -208,11 +208,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SINH_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_SINH_Lookback();
 /* Generated */    #ifndef TA_SINH_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_SINH_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -466,6 +468,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SINH_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -474,6 +477,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_SINH_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_SINH_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_SMA.c b/ta-lib-rt/c/src/ta_func/ta_SMA.c
index 6dc59f3..ba76553 100644
--- a/ta-lib-rt/c/src/ta_func/ta_SMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_SMA.c
@@ -320,12 +320,14 @@ TA_RetCode TA_PREFIX(INT_SMA)( int    startIdx,
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SMA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_SMA_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_SMA_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_SMA_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -606,6 +608,7 @@ TA_RetCode TA_PREFIX(INT_SMA)( int    startIdx,
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SMA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -614,6 +617,7 @@ TA_RetCode TA_PREFIX(INT_SMA)( int    startIdx,
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_SMA_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_SMA_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_SQRT.c b/ta-lib-rt/c/src/ta_func/ta_SQRT.c
index 7059f9d..ec0f85a 100644
--- a/ta-lib-rt/c/src/ta_func/ta_SQRT.c
+++ b/ta-lib-rt/c/src/ta_func/ta_SQRT.c
@@ -208,11 +208,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SQRT_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_SQRT_Lookback();
 /* Generated */    #ifndef TA_SQRT_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_SQRT_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -466,6 +468,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SQRT_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -474,6 +477,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_SQRT_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_SQRT_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_STDDEV.c b/ta-lib-rt/c/src/ta_func/ta_STDDEV.c
index c29bd18..101eb3f 100644
--- a/ta-lib-rt/c/src/ta_func/ta_STDDEV.c
+++ b/ta-lib-rt/c/src/ta_func/ta_STDDEV.c
@@ -387,13 +387,15 @@ void TA_PREFIX(INT_stddev_using_precalc_ma)( const INPUT_TYPE *inReal,
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_STDDEV_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    STATE_P.optInNbDev = optInNbDev;
 /* Generated */    MEM_SIZE_P = TA_STDDEV_Lookback(optInTimePeriod, optInNbDev );
 /* Generated */    #ifndef TA_STDDEV_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_STDDEV_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -690,6 +692,7 @@ TA_RetCode retCode;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_STDDEV_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -698,6 +701,7 @@ TA_RetCode retCode;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_STDDEV_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_STDDEV_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_STOCH.c b/ta-lib-rt/c/src/ta_func/ta_STOCH.c
index ee1bf41..db1ab53 100644
--- a/ta-lib-rt/c/src/ta_func/ta_STOCH.c
+++ b/ta-lib-rt/c/src/ta_func/ta_STOCH.c
@@ -612,6 +612,7 @@
 /* Generated */ 
 /* Generated */    #endif /* !defined(_MANAGED) && !defined(_JAVA)*/
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_STOCH_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInFastK_Period = optInFastK_Period;
 /* Generated */    STATE_P.optInSlowK_Period = optInSlowK_Period;
@@ -620,8 +621,9 @@
 /* Generated */    STATE_P.optInSlowD_MAType = optInSlowD_MAType;
 /* Generated */    MEM_SIZE_P = TA_STOCH_Lookback(optInFastK_Period, optInSlowK_Period, optInSlowK_MAType, optInSlowD_Period, optInSlowD_MAType );
 /* Generated */    #ifndef TA_STOCH_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_STOCH_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -634,6 +636,7 @@
  if (MEM_SIZE_P > 0)
      MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_STOCH_Data));
  else MEM_P = NULL;
+ if (MEM_SIZE_P > 0 && MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 
    retCode = FUNCTION_CALL_STATE_INIT(MA)( (struct TA_MA_State**) &STATE_P.stateMA1, optInSlowK_Period, optInSlowK_MAType );
    if (retCode != ENUM_VALUE(RetCode,TA_SUCCESS,Success)) return retCode;
@@ -1026,6 +1029,7 @@ TA_RetCode retCode;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_STOCH_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -1034,6 +1038,7 @@ TA_RetCode retCode;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_STOCH_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_STOCH_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInFastK_Period,sizeof(STATE_P.optInFastK_Period),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_STOCHF.c b/ta-lib-rt/c/src/ta_func/ta_STOCHF.c
index d0df992..1c5dd71 100644
--- a/ta-lib-rt/c/src/ta_func/ta_STOCHF.c
+++ b/ta-lib-rt/c/src/ta_func/ta_STOCHF.c
@@ -541,14 +541,16 @@ TA_RetCode retCode;
 /* Generated */ 
 /* Generated */    #endif /* !defined(_MANAGED) && !defined(_JAVA)*/
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_STOCHF_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInFastK_Period = optInFastK_Period;
 /* Generated */    STATE_P.optInFastD_Period = optInFastD_Period;
 /* Generated */    STATE_P.optInFastD_MAType = optInFastD_MAType;
 /* Generated */    MEM_SIZE_P = TA_STOCHF_Lookback(optInFastK_Period, optInFastD_Period, optInFastD_MAType );
 /* Generated */    #ifndef TA_STOCHF_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_STOCHF_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -561,6 +563,7 @@ TA_RetCode retCode;
       if (MEM_SIZE_P > 0)
           MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_STOCHF_Data));
       else MEM_P = NULL;
+      if (MEM_SIZE_P > 0 && MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 
         retCode = FUNCTION_CALL_STATE_INIT(MA)( (struct TA_MA_State**) &STATE_P.stateMA1, optInFastD_Period, optInFastD_MAType );
         if (retCode != ENUM_VALUE(RetCode,TA_SUCCESS,Success)) return retCode;
@@ -958,6 +961,7 @@ TA_RetCode retCode;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_STOCHF_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -966,6 +970,7 @@ TA_RetCode retCode;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_STOCHF_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_STOCHF_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInFastK_Period,sizeof(STATE_P.optInFastK_Period),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_STOCHRSI.c b/ta-lib-rt/c/src/ta_func/ta_STOCHRSI.c
index 20938d8..1cd619d 100644
--- a/ta-lib-rt/c/src/ta_func/ta_STOCHRSI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_STOCHRSI.c
@@ -423,6 +423,7 @@ TA_RetCode retCode;
 /* Generated */ 
 /* Generated */    #endif /* !defined(_MANAGED) && !defined(_JAVA)*/
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_STOCHRSI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    STATE_P.optInFastK_Period = optInFastK_Period;
@@ -430,8 +431,9 @@ TA_RetCode retCode;
 /* Generated */    STATE_P.optInFastD_MAType = optInFastD_MAType;
 /* Generated */    MEM_SIZE_P = TA_STOCHRSI_Lookback(optInTimePeriod, optInFastK_Period, optInFastD_Period, optInFastD_MAType );
 /* Generated */    #ifndef TA_STOCHRSI_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_STOCHRSI_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -734,6 +736,7 @@ TA_RetCode retCode;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_STOCHRSI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -742,6 +745,7 @@ TA_RetCode retCode;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_STOCHRSI_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_STOCHRSI_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_SUB.c b/ta-lib-rt/c/src/ta_func/ta_SUB.c
index c2a437b..223dc26 100644
--- a/ta-lib-rt/c/src/ta_func/ta_SUB.c
+++ b/ta-lib-rt/c/src/ta_func/ta_SUB.c
@@ -214,11 +214,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SUB_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_SUB_Lookback();
 /* Generated */    #ifndef TA_SUB_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_SUB_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -480,6 +482,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SUB_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -488,6 +491,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_SUB_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_SUB_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_SUM.c b/ta-lib-rt/c/src/ta_func/ta_SUM.c
index 4952ece..8c0e7b7 100644
--- a/ta-lib-rt/c/src/ta_func/ta_SUM.c
+++ b/ta-lib-rt/c/src/ta_func/ta_SUM.c
@@ -278,12 +278,14 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SUM_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_SUM_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_SUM_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_SUM_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -561,6 +563,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SUM_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -569,6 +572,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_SUM_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_SUM_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_T3.c b/ta-lib-rt/c/src/ta_func/ta_T3.c
index ab57ec6..238fba4 100644
--- a/ta-lib-rt/c/src/ta_func/ta_T3.c
+++ b/ta-lib-rt/c/src/ta_func/ta_T3.c
@@ -401,13 +401,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_T3_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    STATE_P.optInVFactor = optInVFactor;
 /* Generated */    MEM_SIZE_P = TA_T3_Lookback(optInTimePeriod, optInVFactor );
 /* Generated */    #ifndef TA_T3_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_T3_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -804,6 +806,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_T3_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -812,6 +815,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_T3_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_T3_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_TAN.c b/ta-lib-rt/c/src/ta_func/ta_TAN.c
index e00631f..a99243e 100644
--- a/ta-lib-rt/c/src/ta_func/ta_TAN.c
+++ b/ta-lib-rt/c/src/ta_func/ta_TAN.c
@@ -207,11 +207,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TAN_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_TAN_Lookback();
 /* Generated */    #ifndef TA_TAN_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_TAN_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -465,6 +467,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TAN_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -473,6 +476,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_TAN_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_TAN_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_TANH.c b/ta-lib-rt/c/src/ta_func/ta_TANH.c
index a79a452..3d2ca7c 100644
--- a/ta-lib-rt/c/src/ta_func/ta_TANH.c
+++ b/ta-lib-rt/c/src/ta_func/ta_TANH.c
@@ -208,11 +208,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TANH_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_TANH_Lookback();
 /* Generated */    #ifndef TA_TANH_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_TANH_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -466,6 +468,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TANH_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -474,6 +477,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_TANH_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_TANH_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_TEMA.c b/ta-lib-rt/c/src/ta_func/ta_TEMA.c
index 6a3569c..ac6db2b 100644
--- a/ta-lib-rt/c/src/ta_func/ta_TEMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_TEMA.c
@@ -377,12 +377,14 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TEMA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_TEMA_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_TEMA_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_TEMA_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -689,6 +691,7 @@ TA_RetCode retCode;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TEMA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -697,6 +700,7 @@ TA_RetCode retCode;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_TEMA_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_TEMA_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_TRANGE.c b/ta-lib-rt/c/src/ta_func/ta_TRANGE.c
index 4f54221..0bb20d1 100644
--- a/ta-lib-rt/c/src/ta_func/ta_TRANGE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_TRANGE.c
@@ -260,11 +260,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TRANGE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_TRANGE_Lookback();
 /* Generated */    #ifndef TA_TRANGE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_TRANGE_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -551,6 +553,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TRANGE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -559,6 +562,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_TRANGE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_TRANGE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_TRIMA.c b/ta-lib-rt/c/src/ta_func/ta_TRIMA.c
index 863264a..edc4114 100644
--- a/ta-lib-rt/c/src/ta_func/ta_TRIMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_TRIMA.c
@@ -516,12 +516,14 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TRIMA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_TRIMA_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_TRIMA_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_TRIMA_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -876,6 +878,7 @@ double tempReal;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TRIMA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -884,6 +887,7 @@ double tempReal;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_TRIMA_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_TRIMA_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_TRIX.c b/ta-lib-rt/c/src/ta_func/ta_TRIX.c
index 4bd48c2..dd02e9f 100644
--- a/ta-lib-rt/c/src/ta_func/ta_TRIX.c
+++ b/ta-lib-rt/c/src/ta_func/ta_TRIX.c
@@ -344,12 +344,14 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TRIX_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_TRIX_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_TRIX_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_TRIX_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -650,6 +652,7 @@ TA_RetCode retCode;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TRIX_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -658,6 +661,7 @@ TA_RetCode retCode;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_TRIX_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_TRIX_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_TSF.c b/ta-lib-rt/c/src/ta_func/ta_TSF.c
index aed44a7..77639eb 100644
--- a/ta-lib-rt/c/src/ta_func/ta_TSF.c
+++ b/ta-lib-rt/c/src/ta_func/ta_TSF.c
@@ -289,12 +289,14 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TSF_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_TSF_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_TSF_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_TSF_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -592,6 +594,7 @@ double m, b, tempReal;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TSF_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -600,6 +603,7 @@ double m, b, tempReal;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_TSF_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_TSF_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_TYPPRICE.c b/ta-lib-rt/c/src/ta_func/ta_TYPPRICE.c
index 9f89a75..1e3f314 100644
--- a/ta-lib-rt/c/src/ta_func/ta_TYPPRICE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_TYPPRICE.c
@@ -223,11 +223,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TYPPRICE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_TYPPRICE_Lookback();
 /* Generated */    #ifndef TA_TYPPRICE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_TYPPRICE_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -498,6 +500,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TYPPRICE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -506,6 +509,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_TYPPRICE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_TYPPRICE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_ULTOSC.c b/ta-lib-rt/c/src/ta_func/ta_ULTOSC.c
index dbec4ca..6b31d7a 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ULTOSC.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ULTOSC.c
@@ -468,14 +468,16 @@ DEFINE_CIRCBUF_STRUCT(ULTOSC, double)
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ULTOSC_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod1 = optInTimePeriod1;
 /* Generated */    STATE_P.optInTimePeriod2 = optInTimePeriod2;
 /* Generated */    STATE_P.optInTimePeriod3 = optInTimePeriod3;
 /* Generated */    MEM_SIZE_P = TA_ULTOSC_Lookback(optInTimePeriod1, optInTimePeriod2, optInTimePeriod3 );
 /* Generated */    #ifndef TA_ULTOSC_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ULTOSC_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -853,6 +855,7 @@ DEFINE_CIRCBUF_STRUCT(ULTOSC, double)
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ULTOSC_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -861,6 +864,7 @@ DEFINE_CIRCBUF_STRUCT(ULTOSC, double)
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_ULTOSC_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_ULTOSC_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod1,sizeof(STATE_P.optInTimePeriod1),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_VAR.c b/ta-lib-rt/c/src/ta_func/ta_VAR.c
index 24cb809..8dd0050 100644
--- a/ta-lib-rt/c/src/ta_func/ta_VAR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_VAR.c
@@ -375,13 +375,15 @@ TA_RetCode TA_PREFIX(INT_VAR)( int    startIdx,
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_VAR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    STATE_P.optInNbDev = optInNbDev;
 /* Generated */    MEM_SIZE_P = TA_VAR_Lookback(optInTimePeriod, optInNbDev );
 /* Generated */    #ifndef TA_VAR_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_VAR_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -677,6 +679,7 @@ TA_RetCode TA_PREFIX(INT_VAR)( int    startIdx,
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_VAR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -685,6 +688,7 @@ TA_RetCode TA_PREFIX(INT_VAR)( int    startIdx,
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_VAR_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_VAR_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_WCLPRICE.c b/ta-lib-rt/c/src/ta_func/ta_WCLPRICE.c
index 49726a7..faad47c 100644
--- a/ta-lib-rt/c/src/ta_func/ta_WCLPRICE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_WCLPRICE.c
@@ -222,11 +222,13 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_WCLPRICE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_WCLPRICE_Lookback();
 /* Generated */    #ifndef TA_WCLPRICE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_WCLPRICE_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -497,6 +499,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_WCLPRICE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -505,6 +508,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_WCLPRICE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_WCLPRICE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_WILLR.c b/ta-lib-rt/c/src/ta_func/ta_WILLR.c
index 1f9d893..70ee549 100644
--- a/ta-lib-rt/c/src/ta_func/ta_WILLR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_WILLR.c
@@ -341,12 +341,14 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_WILLR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_WILLR_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_WILLR_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_WILLR_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -696,6 +698,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_WILLR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -704,6 +707,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_WILLR_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_WILLR_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_WLMA.c b/ta-lib-rt/c/src/ta_func/ta_WLMA.c
index 3f72d43..6b0c421 100644
--- a/ta-lib-rt/c/src/ta_func/ta_WLMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_WLMA.c
@@ -391,12 +391,14 @@ TA_RetCode TA_PREFIX(INT_WLMA)( int               startIdx,
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_WLMA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_WLMA_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_WLMA_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_WLMA_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -437,6 +439,7 @@ TA_RetCode TA_PREFIX(INT_WLMA)( int               startIdx,
        return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 
     STATE = TA_Calloc(1, sizeof(struct TA_WLMA_State));
+    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
     STATE_P.mem_index = 0;
     STATE_P.optInTimePeriod = optInTimePeriod;
     STATE_P.optInK_1 = optInK_1;
@@ -746,6 +749,7 @@ TA_RetCode TA_PREFIX(INT_WLMA)( int               startIdx,
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_WLMA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -754,6 +758,7 @@ TA_RetCode TA_PREFIX(INT_WLMA)( int               startIdx,
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_WLMA_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_WLMA_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_WMA.c b/ta-lib-rt/c/src/ta_func/ta_WMA.c
index 3d12293..ff020ca 100644
--- a/ta-lib-rt/c/src/ta_func/ta_WMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_WMA.c
@@ -344,12 +344,14 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_WMA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_WMA_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_WMA_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_WMA_Data));
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }
 /* Generated */    else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
@@ -645,6 +647,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_WMA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -653,6 +656,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_WMA_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_WMA_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/tools/gen_code/gen_code.c b/ta-lib-rt/c/src/tools/gen_code/gen_code.c
index 9def3fd..12c2e92 100644
--- a/ta-lib-rt/c/src/tools/gen_code/gen_code.c
+++ b/ta-lib-rt/c/src/tools/gen_code/gen_code.c
@@ -1839,6 +1839,8 @@ void printFunc( FILE *out,
                    printIndent( out, indent );
                    fprintf( out, "STATE = TA_Calloc(1, sizeof(struct TA_%s_State));\n", funcName);
                    printIndent( out, indent );
+                   fprintf( out, "if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);\n");
+                   printIndent( out, indent );
                    fprintf( out, "io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);\n");
                    printIndent( out, indent );
                    fprintf( out, "if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);\n");
@@ -1855,6 +1857,8 @@ void printFunc( FILE *out,
                    printIndent( out, indent );
                    fprintf( out, "if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_%s_Data));\n", funcName);
                    printIndent( out, indent );
+                   fprintf( out, "if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);\n");
+                   printIndent( out, indent );
                    fprintf( out, "io_res = fread(STATE_P.memory,sizeof(struct TA_%s_Data),STATE_P.mem_size,_file);\n", funcName);
                    printIndent( out, indent );
                    fprintf( out, "if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } \n");
@@ -2543,6 +2547,8 @@ void printFunc( FILE *out,
        printIndent( out, indent);
        fprintf( out, "STATE = TA_Calloc(1, sizeof(struct TA_%s_State));\n", funcName);
        printIndent( out, indent);
+       fprintf( out, "if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);\n");
+       printIndent( out, indent);
        fprintf( out, "STATE_P.mem_index = 0;\n");
 
        int word_idx = 0;
@@ -2572,9 +2578,11 @@ void printFunc( FILE *out,
        printIndent( out, indent );
        fprintf( out, "#ifndef TA_%s_SUPPRESS_MEMORY_ALLOCATION\n", funcName);
        printIndent( out, indent);
-       fprintf( out, "if (MEM_SIZE_P > 0)\n");
+       fprintf( out, "if (MEM_SIZE_P > 0) {\n");
        printIndent( out, indent+6 );
        fprintf( out, "MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_%s_Data));\n", funcName);
+       printIndent( out, indent+6 );
+       fprintf( out, "if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr); }\n");
        printIndent( out, indent );
        fprintf( out, "else\n");
        printIndent( out, indent );
-- 
2.43.0


From 10caae3431e8ba1b0c80cc5389af743ffacc53fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:24 +0000
Subject: [PATCH 24/34] fix: batch functions report TA_ALLOC_ERR when their
 temporary buffer cannot be allocated

---
 ta-lib-rt/c/src/ta_func/ta_ATR.c      | 16 ++++++++++++++
 ta-lib-rt/c/src/ta_func/ta_MAVP.c     | 22 ++++++++++++++++++
 ta-lib-rt/c/src/ta_func/ta_NATR.c     | 16 ++++++++++++++
 ta-lib-rt/c/src/ta_func/ta_STOCH.c    | 32 +++++++++++++++++++++++++++
 ta-lib-rt/c/src/ta_func/ta_STOCHF.c   | 32 +++++++++++++++++++++++++++
 ta-lib-rt/c/src/ta_func/ta_STOCHRSI.c | 16 ++++++++++++++
 6 files changed, 134 insertions(+)

diff --git a/ta-lib-rt/c/src/ta_func/ta_ATR.c b/ta-lib-rt/c/src/ta_func/ta_ATR.c
index eb889bd..d60f304 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ATR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ATR.c
@@ -249,6 +249,14 @@
 
    /* Allocate an intermediate buffer for TRANGE. */
    ARRAY_ALLOC(tempBuffer, lookbackTotal+(endIdx-startIdx)+1 );
+   #if !defined( _JAVA )
+   if( !tempBuffer )
+   {
+      VALUE_HANDLE_DEREF_TO_ZERO(outBegIdx);
+      VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
+      return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+   }
+   #endif
 
    /* Do TRANGE in the intermediate buffer. */
    retCode = FUNCTION_CALL(TRANGE)( (startIdx-lookbackTotal+1), endIdx,
@@ -833,6 +841,14 @@ TA_RetCode retCode;
 /* Generated */                                     outBegIdx, outNBElement, outReal );
 /* Generated */    }
 /* Generated */    ARRAY_ALLOC(tempBuffer, lookbackTotal+(endIdx-startIdx)+1 );
+/* Generated */    #if !defined( _JAVA )
+/* Generated */    if( !tempBuffer )
+/* Generated */    {
+/* Generated */       VALUE_HANDLE_DEREF_TO_ZERO(outBegIdx);
+/* Generated */       VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
+/* Generated */       return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    }
+/* Generated */    #endif
 /* Generated */    retCode = FUNCTION_CALL(TRANGE)( (startIdx-lookbackTotal+1), endIdx,
 /* Generated */                                     inHigh, inLow, inClose,
 /* Generated */                                     VALUE_HANDLE_OUT(outBegIdx1), VALUE_HANDLE_OUT(outNbElement1),
diff --git a/ta-lib-rt/c/src/ta_func/ta_MAVP.c b/ta-lib-rt/c/src/ta_func/ta_MAVP.c
index fca359c..1a0d84a 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MAVP.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MAVP.c
@@ -278,6 +278,17 @@
    ARRAY_ALLOC(localOutputArray,outputSize);
    ARRAY_ALLOC(localResultArray,outputSize);
    ARRAY_INT_ALLOC(localPeriodArray,outputSize);
+   #if !defined( _JAVA )
+   if( !localOutputArray || !localResultArray || !localPeriodArray )
+   {
+      if( localOutputArray ) { ARRAY_FREE( localOutputArray ); }
+      if( localResultArray ) { ARRAY_FREE( localResultArray ); }
+      if( localPeriodArray ) { ARRAY_INT_FREE( localPeriodArray ); }
+      VALUE_HANDLE_DEREF_TO_ZERO(outBegIdx);
+      VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
+      return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+   }
+   #endif
 
    /* Copy caller array of period into local buffer.
     * At the same time, truncate to min/max.
@@ -840,6 +851,17 @@ TA_RetCode retCode;
 /* Generated */    ARRAY_ALLOC(localOutputArray,outputSize);
 /* Generated */    ARRAY_ALLOC(localResultArray,outputSize);
 /* Generated */    ARRAY_INT_ALLOC(localPeriodArray,outputSize);
+/* Generated */    #if !defined( _JAVA )
+/* Generated */    if( !localOutputArray || !localResultArray || !localPeriodArray )
+/* Generated */    {
+/* Generated */       if( localOutputArray ) { ARRAY_FREE( localOutputArray ); }
+/* Generated */       if( localResultArray ) { ARRAY_FREE( localResultArray ); }
+/* Generated */       if( localPeriodArray ) { ARRAY_INT_FREE( localPeriodArray ); }
+/* Generated */       VALUE_HANDLE_DEREF_TO_ZERO(outBegIdx);
+/* Generated */       VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
+/* Generated */       return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    }
+/* Generated */    #endif
 /* Generated */    for( i=0; i < outputSize; i++ )
 /* Generated */    {
 /* Generated */       if( !(inPeriods[startIdx+i] >= optInMinPeriod) )
diff --git a/ta-lib-rt/c/src/ta_func/ta_NATR.c b/ta-lib-rt/c/src/ta_func/ta_NATR.c
index 1feb3a4..92b5434 100644
--- a/ta-lib-rt/c/src/ta_func/ta_NATR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_NATR.c
@@ -264,6 +264,14 @@
 
    /* Allocate an intermediate buffer for TRANGE. */
    ARRAY_ALLOC(tempBuffer, lookbackTotal+(endIdx-startIdx)+1 );
+   #if !defined( _JAVA )
+   if( !tempBuffer )
+   {
+      VALUE_HANDLE_DEREF_TO_ZERO(outBegIdx);
+      VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
+      return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+   }
+   #endif
 
    /* Do TRANGE in the intermediate buffer. */
    retCode = FUNCTION_CALL(TRANGE)( (startIdx-lookbackTotal+1), endIdx,
@@ -853,6 +861,14 @@ TA_RetCode retCode;
 /* Generated */                                     outBegIdx, outNBElement, outReal );
 /* Generated */    }
 /* Generated */    ARRAY_ALLOC(tempBuffer, lookbackTotal+(endIdx-startIdx)+1 );
+/* Generated */    #if !defined( _JAVA )
+/* Generated */    if( !tempBuffer )
+/* Generated */    {
+/* Generated */       VALUE_HANDLE_DEREF_TO_ZERO(outBegIdx);
+/* Generated */       VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
+/* Generated */       return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    }
+/* Generated */    #endif
 /* Generated */    retCode = FUNCTION_CALL(TRANGE)( (startIdx-lookbackTotal+1), endIdx,
 /* Generated */                                     inHigh, inLow, inClose,
 /* Generated */                                     VALUE_HANDLE_OUT(outBegIdx1), VALUE_HANDLE_OUT(outNbElement1),
diff --git a/ta-lib-rt/c/src/ta_func/ta_STOCH.c b/ta-lib-rt/c/src/ta_func/ta_STOCH.c
index db1ab53..1bc9a4c 100644
--- a/ta-lib-rt/c/src/ta_func/ta_STOCH.c
+++ b/ta-lib-rt/c/src/ta_func/ta_STOCH.c
@@ -404,6 +404,14 @@
        * the input.
        */
       ARRAY_ALLOC( tempBuffer, endIdx-today+1 );
+      #if !defined( _JAVA )
+      if( !tempBuffer )
+      {
+         VALUE_HANDLE_DEREF_TO_ZERO(outBegIdx);
+         VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
+         return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+      }
+      #endif
    #else
       if( (outSlowK == inHigh) || 
           (outSlowK == inLow)  || 
@@ -417,6 +425,14 @@
             bufferIsAllocated = 1;
          #endif
          ARRAY_ALLOC( tempBuffer, endIdx-today+1 );
+         #if !defined( _JAVA )
+         if( !tempBuffer )
+         {
+            VALUE_HANDLE_DEREF_TO_ZERO(outBegIdx);
+            VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
+            return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+         }
+         #endif
       }
    #endif
 
@@ -1211,6 +1227,14 @@ TA_RetCode retCode;
 /* Generated */    #endif
 /* Generated */    #if defined(USE_SINGLE_PRECISION_INPUT) || defined( USE_SUBARRAY )
 /* Generated */       ARRAY_ALLOC( tempBuffer, endIdx-today+1 );
+/* Generated */       #if !defined( _JAVA )
+/* Generated */       if( !tempBuffer )
+/* Generated */       {
+/* Generated */          VALUE_HANDLE_DEREF_TO_ZERO(outBegIdx);
+/* Generated */          VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
+/* Generated */          return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */       }
+/* Generated */       #endif
 /* Generated */    #else
 /* Generated */       if( (outSlowK == inHigh) || 
 /* Generated */           (outSlowK == inLow)  || 
@@ -1224,6 +1248,14 @@ TA_RetCode retCode;
 /* Generated */             bufferIsAllocated = 1;
 /* Generated */          #endif
 /* Generated */          ARRAY_ALLOC( tempBuffer, endIdx-today+1 );
+/* Generated */          #if !defined( _JAVA )
+/* Generated */          if( !tempBuffer )
+/* Generated */          {
+/* Generated */             VALUE_HANDLE_DEREF_TO_ZERO(outBegIdx);
+/* Generated */             VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
+/* Generated */             return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */          }
+/* Generated */          #endif
 /* Generated */       }
 /* Generated */    #endif
 /* Generated */    while( today <= endIdx )
diff --git a/ta-lib-rt/c/src/ta_func/ta_STOCHF.c b/ta-lib-rt/c/src/ta_func/ta_STOCHF.c
index 1c5dd71..15e48bd 100644
--- a/ta-lib-rt/c/src/ta_func/ta_STOCHF.c
+++ b/ta-lib-rt/c/src/ta_func/ta_STOCHF.c
@@ -360,6 +360,14 @@
        * the input.
        */
       ARRAY_ALLOC( tempBuffer, endIdx-today+1 );
+      #if !defined( _JAVA )
+      if( !tempBuffer )
+      {
+         VALUE_HANDLE_DEREF_TO_ZERO(outBegIdx);
+         VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
+         return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+      }
+      #endif
    #else
       if( (outFastK == inHigh) || 
           (outFastK == inLow)  || 
@@ -373,6 +381,14 @@
             bufferIsAllocated = 1;
          #endif
          ARRAY_ALLOC(tempBuffer, endIdx-today+1 );
+         #if !defined( _JAVA )
+         if( !tempBuffer )
+         {
+            VALUE_HANDLE_DEREF_TO_ZERO(outBegIdx);
+            VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
+            return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+         }
+         #endif
       }
    #endif
 
@@ -1120,6 +1136,14 @@ TA_RetCode retCode;
 /* Generated */    #endif
 /* Generated */    #if defined(USE_SINGLE_PRECISION_INPUT) || defined( USE_SUBARRAY )
 /* Generated */       ARRAY_ALLOC( tempBuffer, endIdx-today+1 );
+/* Generated */       #if !defined( _JAVA )
+/* Generated */       if( !tempBuffer )
+/* Generated */       {
+/* Generated */          VALUE_HANDLE_DEREF_TO_ZERO(outBegIdx);
+/* Generated */          VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
+/* Generated */          return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */       }
+/* Generated */       #endif
 /* Generated */    #else
 /* Generated */       if( (outFastK == inHigh) || 
 /* Generated */           (outFastK == inLow)  || 
@@ -1133,6 +1157,14 @@ TA_RetCode retCode;
 /* Generated */             bufferIsAllocated = 1;
 /* Generated */          #endif
 /* Generated */          ARRAY_ALLOC(tempBuffer, endIdx-today+1 );
+/* Generated */          #if !defined( _JAVA )
+/* Generated */          if( !tempBuffer )
+/* Generated */          {
+/* Generated */             VALUE_HANDLE_DEREF_TO_ZERO(outBegIdx);
+/* Generated */             VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
+/* Generated */             return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */          }
+/* Generated */          #endif
 /* Generated */       }
 /* Generated */    #endif
 /* Generated */    while( today <= endIdx )
diff --git a/ta-lib-rt/c/src/ta_func/ta_STOCHRSI.c b/ta-lib-rt/c/src/ta_func/ta_STOCHRSI.c
index 1cd619d..657bef1 100644
--- a/ta-lib-rt/c/src/ta_func/ta_STOCHRSI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_STOCHRSI.c
@@ -322,6 +322,14 @@
    tempArraySize = (endIdx - startIdx) + 1 + lookbackSTOCHF;
 
    ARRAY_ALLOC( tempRSIBuffer, tempArraySize );
+   #if !defined( _JAVA )
+   if( !tempRSIBuffer )
+   {
+      VALUE_HANDLE_DEREF_TO_ZERO(outBegIdx);
+      VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
+      return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+   }
+   #endif
 
    retCode = FUNCTION_CALL(RSI)(startIdx-lookbackSTOCHF, 
                                 endIdx, 
@@ -883,6 +891,14 @@ TA_RetCode retCode;
 /* Generated */    VALUE_HANDLE_DEREF(outBegIdx) = startIdx;
 /* Generated */    tempArraySize = (endIdx - startIdx) + 1 + lookbackSTOCHF;
 /* Generated */    ARRAY_ALLOC( tempRSIBuffer, tempArraySize );
+/* Generated */    #if !defined( _JAVA )
+/* Generated */    if( !tempRSIBuffer )
+/* Generated */    {
+/* Generated */       VALUE_HANDLE_DEREF_TO_ZERO(outBegIdx);
+/* Generated */       VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
+/* Generated */       return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    }
+/* Generated */    #endif
 /* Generated */    retCode = FUNCTION_CALL(RSI)(startIdx-lookbackSTOCHF, 
 /* Generated */                                 endIdx, 
 /* Generated */                                 inReal, 
-- 
2.43.0


From 58cfc56f5784d6cf5a1e58ea441f75db3aa9e56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:55 +0000
Subject: [PATCH 25/34] fix: TA_FunctionDescriptionXML returns a NUL terminated
 string

---
 ta-lib-rt/c/src/tools/gen_code/gen_code.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ta-lib-rt/c/src/tools/gen_code/gen_code.c b/ta-lib-rt/c/src/tools/gen_code/gen_code.c
index 12c2e92..7be73ce 100644
--- a/ta-lib-rt/c/src/tools/gen_code/gen_code.c
+++ b/ta-lib-rt/c/src/tools/gen_code/gen_code.c
@@ -4793,7 +4793,9 @@ void convertFileToCArray( FILE *in, FILE *out )
        position++;
        c = getc(in);
    }
- 
+
+   /* Terminate the array so that it can be used as a C string. */
+   fprintf( out, position == 0 ? "0x00" : ",0x00" );
 }
 
 void printJavaFunctionAnnotation(const TA_FuncInfo *funcInfo)
-- 
2.43.0


From 30c01887b5aec49f690a1dda6aab771f4a713e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:55 +0000
Subject: [PATCH 26/34] fix: TA_SetUnstablePeriod and TA_GetUnstablePeriod
 reject TA_FUNC_UNST_NONE instead of indexing out of bounds

---
 ta-lib-rt/c/src/ta_func/ta_utility.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_utility.c b/ta-lib-rt/c/src/ta_func/ta_utility.c
index 2fb4b10..bbef606 100644
--- a/ta-lib-rt/c/src/ta_func/ta_utility.c
+++ b/ta-lib-rt/c/src/ta_func/ta_utility.c
@@ -68,7 +68,7 @@ TA_RetCode TA_SetUnstablePeriod( TA_FuncUnstId id,
 {
    int i;
 
-   if( id > ENUM_VALUE(FuncUnstId,TA_FUNC_UNST_ALL,FuncUnstAll) )
+   if( ((int)id < 0) || (id > ENUM_VALUE(FuncUnstId,TA_FUNC_UNST_ALL,FuncUnstAll)) )
       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 
    if( id == ENUM_VALUE(FuncUnstId,TA_FUNC_UNST_ALL,FuncUnstAll) )
@@ -100,7 +100,7 @@ unsigned int Core::GetUnstablePeriod( enum class FuncUnstId id )
 unsigned int TA_GetUnstablePeriod( TA_FuncUnstId id )
 #endif
 {
-   if( id >= ENUM_VALUE(FuncUnstId,TA_FUNC_UNST_ALL,FuncUnstAll) )
+   if( ((int)id < 0) || (id >= ENUM_VALUE(FuncUnstId,TA_FUNC_UNST_ALL,FuncUnstAll)) )
 	   return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 
    #if defined( _MANAGED )
-- 
2.43.0


From cf0cef8cae370ab55e01774f0e4c8e26d401a745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:37 +0000
Subject: [PATCH 27/34] fix: the XML API description gives the suggested range
 of integer parameters

---
 .../c/src/tools/gen_code/print_funcs_xml.c    |    6 +-
 ta-lib-rt/ta_func_api.xml                     | 2400 ++++++++---------
 2 files changed, 1203 insertions(+), 1203 deletions(-)

diff --git a/ta-lib-rt/c/src/tools/gen_code/print_funcs_xml.c b/ta-lib-rt/c/src/tools/gen_code/print_funcs_xml.c
index e4db2f3..43c67c9 100644
--- a/ta-lib-rt/c/src/tools/gen_code/print_funcs_xml.c
+++ b/ta-lib-rt/c/src/tools/gen_code/print_funcs_xml.c
@@ -186,9 +186,9 @@ void print_opt_input_arg(FILE *file, int indent, const TA_OptInputParameterInfo
         fprintf(file, "%.*s<Range>\n", indent+1, t);
         fprintf(file, "%.*s<Minimum>%d</Minimum>\n", indent+2, t, integerRange->min);
         fprintf(file, "%.*s<Maximum>%d</Maximum>\n", indent+2, t, integerRange->max);
-        fprintf(file, "%.*s<SuggestedStart>%d</SuggestedStart>\n", indent+2, t, integerRange->max);
-        fprintf(file, "%.*s<SuggestedEnd>%d</SuggestedEnd>\n", indent+2, t, integerRange->max);
-        fprintf(file, "%.*s<SuggestedIncrement>%d</SuggestedIncrement>\n", indent+2, t, integerRange->max);
+        fprintf(file, "%.*s<SuggestedStart>%d</SuggestedStart>\n", indent+2, t, integerRange->suggested_start);
+        fprintf(file, "%.*s<SuggestedEnd>%d</SuggestedEnd>\n", indent+2, t, integerRange->suggested_end);
+        fprintf(file, "%.*s<SuggestedIncrement>%d</SuggestedIncrement>\n", indent+2, t, integerRange->suggested_increment);
         fprintf(file, "%.*s</Range>\n", indent+1, t);
         fprintf(file, "%.*s<DefaultValue>%d</DefaultValue>\n", indent+1, t, (int)optInputInfo->defaultValue);
     }
diff --git a/ta-lib-rt/ta_func_api.xml b/ta-lib-rt/ta_func_api.xml
index eeec395..86f1c4b 100644
--- a/ta-lib-rt/ta_func_api.xml
+++ b/ta-lib-rt/ta_func_api.xml
@@ -62,9 +62,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>20</DefaultValue>
 					</OptionalInputArgument>
@@ -104,9 +104,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>20</DefaultValue>
 					</OptionalInputArgument>
@@ -161,9 +161,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>20</DefaultValue>
 					</OptionalInputArgument>
@@ -314,9 +314,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>20</DefaultValue>
 					</OptionalInputArgument>
@@ -344,9 +344,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>20</DefaultValue>
 					</OptionalInputArgument>
@@ -1079,9 +1079,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -1092,9 +1092,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -1138,9 +1138,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -1151,9 +1151,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -1194,9 +1194,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -1207,9 +1207,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -1340,9 +1340,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -1353,9 +1353,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -1383,9 +1383,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -1396,9 +1396,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -1490,9 +1490,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -1532,9 +1532,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -1575,9 +1575,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -1700,9 +1700,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -1730,9 +1730,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -1796,9 +1796,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -1838,9 +1838,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -1881,9 +1881,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -2006,9 +2006,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -2036,9 +2036,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -2099,9 +2099,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>12</DefaultValue>
 					</OptionalInputArgument>
@@ -2112,9 +2112,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>26</DefaultValue>
 					</OptionalInputArgument>
@@ -2152,9 +2152,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>12</DefaultValue>
 					</OptionalInputArgument>
@@ -2165,9 +2165,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>26</DefaultValue>
 					</OptionalInputArgument>
@@ -2214,9 +2214,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>12</DefaultValue>
 					</OptionalInputArgument>
@@ -2227,9 +2227,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>26</DefaultValue>
 					</OptionalInputArgument>
@@ -2342,9 +2342,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>12</DefaultValue>
 					</OptionalInputArgument>
@@ -2355,9 +2355,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>26</DefaultValue>
 					</OptionalInputArgument>
@@ -2391,9 +2391,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>12</DefaultValue>
 					</OptionalInputArgument>
@@ -2404,9 +2404,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>26</DefaultValue>
 					</OptionalInputArgument>
@@ -2485,9 +2485,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -2523,9 +2523,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -2573,9 +2573,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -2704,9 +2704,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -2734,9 +2734,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -2809,9 +2809,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -2847,9 +2847,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -2890,9 +2890,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -3007,9 +3007,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -3037,9 +3037,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -3499,9 +3499,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -3541,9 +3541,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -3584,9 +3584,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -3709,9 +3709,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -3739,9 +3739,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -4040,9 +4040,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -4074,9 +4074,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -4117,9 +4117,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -4226,9 +4226,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -4256,9 +4256,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -4318,9 +4318,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -4386,9 +4386,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -4477,9 +4477,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -4648,9 +4648,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -4712,9 +4712,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -4837,9 +4837,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -4875,9 +4875,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -4918,9 +4918,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -5035,9 +5035,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -5065,9 +5065,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -5372,9 +5372,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -5414,9 +5414,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -5457,9 +5457,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -5582,9 +5582,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -5612,9 +5612,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -22797,9 +22797,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -22831,9 +22831,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -22874,9 +22874,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -22983,9 +22983,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -23013,9 +23013,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -23088,9 +23088,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -23126,9 +23126,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -23169,9 +23169,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -23286,9 +23286,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -23316,9 +23316,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -23762,9 +23762,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -23796,9 +23796,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -23839,9 +23839,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -23948,9 +23948,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -23978,9 +23978,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -24276,9 +24276,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -24318,9 +24318,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -24361,9 +24361,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -24486,9 +24486,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -24516,9 +24516,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -24587,9 +24587,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -24621,9 +24621,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -24664,9 +24664,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -24773,9 +24773,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -24803,9 +24803,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -27054,9 +27054,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -27092,9 +27092,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -27135,9 +27135,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -27252,9 +27252,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -27282,9 +27282,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -27353,9 +27353,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -27387,9 +27387,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -27430,9 +27430,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -27539,9 +27539,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -27569,9 +27569,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -27643,9 +27643,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -27677,9 +27677,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -27720,9 +27720,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -27829,9 +27829,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -27859,9 +27859,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -27930,9 +27930,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -27964,9 +27964,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -28007,9 +28007,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -28116,9 +28116,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -28146,9 +28146,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -28220,9 +28220,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -28254,9 +28254,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -28297,9 +28297,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -28406,9 +28406,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -28436,9 +28436,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -28507,9 +28507,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -28541,9 +28541,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -28584,9 +28584,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -28693,9 +28693,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -28723,9 +28723,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -29165,9 +29165,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -29205,9 +29205,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -29254,9 +29254,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -29369,9 +29369,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -29405,9 +29405,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -29478,9 +29478,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>12</DefaultValue>
 					</OptionalInputArgument>
@@ -29491,9 +29491,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>26</DefaultValue>
 					</OptionalInputArgument>
@@ -29504,9 +29504,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>9</DefaultValue>
 					</OptionalInputArgument>
@@ -29538,9 +29538,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>12</DefaultValue>
 					</OptionalInputArgument>
@@ -29551,9 +29551,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>26</DefaultValue>
 					</OptionalInputArgument>
@@ -29564,9 +29564,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>9</DefaultValue>
 					</OptionalInputArgument>
@@ -29621,9 +29621,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>12</DefaultValue>
 					</OptionalInputArgument>
@@ -29634,9 +29634,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>26</DefaultValue>
 					</OptionalInputArgument>
@@ -29647,9 +29647,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>9</DefaultValue>
 					</OptionalInputArgument>
@@ -29784,9 +29784,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>12</DefaultValue>
 					</OptionalInputArgument>
@@ -29797,9 +29797,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>26</DefaultValue>
 					</OptionalInputArgument>
@@ -29810,9 +29810,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>9</DefaultValue>
 					</OptionalInputArgument>
@@ -29840,9 +29840,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>12</DefaultValue>
 					</OptionalInputArgument>
@@ -29853,9 +29853,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>26</DefaultValue>
 					</OptionalInputArgument>
@@ -29866,9 +29866,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>9</DefaultValue>
 					</OptionalInputArgument>
@@ -29933,9 +29933,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>12</DefaultValue>
 					</OptionalInputArgument>
@@ -29952,9 +29952,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>26</DefaultValue>
 					</OptionalInputArgument>
@@ -29971,9 +29971,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>9</DefaultValue>
 					</OptionalInputArgument>
@@ -30011,9 +30011,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>12</DefaultValue>
 					</OptionalInputArgument>
@@ -30030,9 +30030,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>26</DefaultValue>
 					</OptionalInputArgument>
@@ -30049,9 +30049,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>9</DefaultValue>
 					</OptionalInputArgument>
@@ -30112,9 +30112,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>12</DefaultValue>
 					</OptionalInputArgument>
@@ -30131,9 +30131,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>26</DefaultValue>
 					</OptionalInputArgument>
@@ -30150,9 +30150,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>9</DefaultValue>
 					</OptionalInputArgument>
@@ -30293,9 +30293,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>12</DefaultValue>
 					</OptionalInputArgument>
@@ -30312,9 +30312,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>26</DefaultValue>
 					</OptionalInputArgument>
@@ -30331,9 +30331,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>9</DefaultValue>
 					</OptionalInputArgument>
@@ -30367,9 +30367,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>12</DefaultValue>
 					</OptionalInputArgument>
@@ -30386,9 +30386,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>26</DefaultValue>
 					</OptionalInputArgument>
@@ -30405,9 +30405,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>9</DefaultValue>
 					</OptionalInputArgument>
@@ -30462,9 +30462,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>9</DefaultValue>
 					</OptionalInputArgument>
@@ -30496,9 +30496,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>9</DefaultValue>
 					</OptionalInputArgument>
@@ -30553,9 +30553,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>9</DefaultValue>
 					</OptionalInputArgument>
@@ -30690,9 +30690,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>9</DefaultValue>
 					</OptionalInputArgument>
@@ -30720,9 +30720,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>9</DefaultValue>
 					</OptionalInputArgument>
@@ -31241,9 +31241,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>2</DefaultValue>
 					</OptionalInputArgument>
@@ -31254,9 +31254,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -31298,9 +31298,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>2</DefaultValue>
 					</OptionalInputArgument>
@@ -31311,9 +31311,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -31360,9 +31360,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>2</DefaultValue>
 					</OptionalInputArgument>
@@ -31373,9 +31373,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -31496,9 +31496,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>2</DefaultValue>
 					</OptionalInputArgument>
@@ -31509,9 +31509,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -31545,9 +31545,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>2</DefaultValue>
 					</OptionalInputArgument>
@@ -31558,9 +31558,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -31626,9 +31626,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -31660,9 +31660,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -31703,9 +31703,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -31812,9 +31812,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -31842,9 +31842,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -31901,9 +31901,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -31935,9 +31935,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -31978,9 +31978,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -32087,9 +32087,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -32117,9 +32117,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -32410,9 +32410,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -32456,9 +32456,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -32499,9 +32499,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -32632,9 +32632,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -32662,9 +32662,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -32716,9 +32716,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -32750,9 +32750,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -32793,9 +32793,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -32902,9 +32902,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -32932,9 +32932,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -32990,9 +32990,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -33028,9 +33028,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -33071,9 +33071,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -33188,9 +33188,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -33218,9 +33218,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -33280,9 +33280,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -33314,9 +33314,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -33357,9 +33357,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -33466,9 +33466,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -33496,9 +33496,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -33555,9 +33555,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -33589,9 +33589,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -33632,9 +33632,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -33741,9 +33741,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -33771,9 +33771,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -33841,9 +33841,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -33875,9 +33875,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -33925,9 +33925,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -34048,9 +34048,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -34078,9 +34078,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -34145,9 +34145,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -34179,9 +34179,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -34229,9 +34229,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -34352,9 +34352,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -34382,9 +34382,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -34464,9 +34464,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -34506,9 +34506,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -34549,9 +34549,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -34674,9 +34674,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -34704,9 +34704,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -34774,9 +34774,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -34812,9 +34812,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -34855,9 +34855,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -34972,9 +34972,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -35002,9 +35002,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -35053,9 +35053,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -35087,9 +35087,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -35130,9 +35130,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -35239,9 +35239,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -35269,9 +35269,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -35555,9 +35555,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -35597,9 +35597,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -35640,9 +35640,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -35765,9 +35765,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -35795,9 +35795,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -36305,9 +36305,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -36347,9 +36347,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -36390,9 +36390,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -36515,9 +36515,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -36545,9 +36545,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -36615,9 +36615,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -36653,9 +36653,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -36696,9 +36696,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -36813,9 +36813,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -36843,9 +36843,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -36894,9 +36894,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>12</DefaultValue>
 					</OptionalInputArgument>
@@ -36907,9 +36907,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>26</DefaultValue>
 					</OptionalInputArgument>
@@ -36947,9 +36947,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>12</DefaultValue>
 					</OptionalInputArgument>
@@ -36960,9 +36960,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>26</DefaultValue>
 					</OptionalInputArgument>
@@ -37009,9 +37009,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>12</DefaultValue>
 					</OptionalInputArgument>
@@ -37022,9 +37022,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>26</DefaultValue>
 					</OptionalInputArgument>
@@ -37137,9 +37137,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>12</DefaultValue>
 					</OptionalInputArgument>
@@ -37150,9 +37150,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>26</DefaultValue>
 					</OptionalInputArgument>
@@ -37186,9 +37186,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>12</DefaultValue>
 					</OptionalInputArgument>
@@ -37199,9 +37199,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>26</DefaultValue>
 					</OptionalInputArgument>
@@ -37680,9 +37680,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -37714,9 +37714,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -37757,9 +37757,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -37866,9 +37866,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -37896,9 +37896,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -37947,9 +37947,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -37981,9 +37981,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -38024,9 +38024,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -38133,9 +38133,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -38163,9 +38163,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -38214,9 +38214,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -38248,9 +38248,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -38291,9 +38291,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -38400,9 +38400,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -38430,9 +38430,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -38481,9 +38481,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -38515,9 +38515,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -38558,9 +38558,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -38667,9 +38667,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -38697,9 +38697,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -38767,9 +38767,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -38801,9 +38801,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -38844,9 +38844,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -38953,9 +38953,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -38983,9 +38983,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -40643,9 +40643,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -40677,9 +40677,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -40720,9 +40720,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -40829,9 +40829,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -40859,9 +40859,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -41106,9 +41106,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -41154,9 +41154,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -41211,9 +41211,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -41334,9 +41334,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -41378,9 +41378,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -41475,9 +41475,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -41488,9 +41488,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -41507,9 +41507,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -41555,9 +41555,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -41568,9 +41568,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -41587,9 +41587,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -41643,9 +41643,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -41656,9 +41656,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -41675,9 +41675,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -41820,9 +41820,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -41833,9 +41833,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -41852,9 +41852,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -41888,9 +41888,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -41901,9 +41901,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -41920,9 +41920,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -42005,9 +42005,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -42018,9 +42018,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -42066,9 +42066,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -42079,9 +42079,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -42135,9 +42135,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -42148,9 +42148,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -42293,9 +42293,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -42306,9 +42306,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -42342,9 +42342,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -42355,9 +42355,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -42423,9 +42423,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -42436,9 +42436,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -42449,9 +42449,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -42489,9 +42489,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -42502,9 +42502,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -42515,9 +42515,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -42571,9 +42571,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -42584,9 +42584,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -42597,9 +42597,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -42726,9 +42726,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -42739,9 +42739,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -42752,9 +42752,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -42788,9 +42788,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -42801,9 +42801,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -42814,9 +42814,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -43083,9 +43083,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -43117,9 +43117,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -43160,9 +43160,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -43269,9 +43269,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -43299,9 +43299,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -43410,9 +43410,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -43458,9 +43458,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -43515,9 +43515,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -43638,9 +43638,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -43682,9 +43682,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -44146,9 +44146,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -44180,9 +44180,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -44223,9 +44223,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -44332,9 +44332,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -44362,9 +44362,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -44660,9 +44660,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -44694,9 +44694,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -44737,9 +44737,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -44846,9 +44846,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -44876,9 +44876,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -44943,9 +44943,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -44977,9 +44977,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -45020,9 +45020,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -45129,9 +45129,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -45159,9 +45159,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -45233,9 +45233,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -45267,9 +45267,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -45310,9 +45310,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -45419,9 +45419,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -45449,9 +45449,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -45779,9 +45779,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>7</DefaultValue>
 					</OptionalInputArgument>
@@ -45792,9 +45792,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -45805,9 +45805,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>28</DefaultValue>
 					</OptionalInputArgument>
@@ -45847,9 +45847,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>7</DefaultValue>
 					</OptionalInputArgument>
@@ -45860,9 +45860,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -45873,9 +45873,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>28</DefaultValue>
 					</OptionalInputArgument>
@@ -45916,9 +45916,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>7</DefaultValue>
 					</OptionalInputArgument>
@@ -45929,9 +45929,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -45942,9 +45942,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>28</DefaultValue>
 					</OptionalInputArgument>
@@ -46067,9 +46067,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>7</DefaultValue>
 					</OptionalInputArgument>
@@ -46080,9 +46080,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -46093,9 +46093,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>28</DefaultValue>
 					</OptionalInputArgument>
@@ -46123,9 +46123,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>7</DefaultValue>
 					</OptionalInputArgument>
@@ -46136,9 +46136,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -46149,9 +46149,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>28</DefaultValue>
 					</OptionalInputArgument>
@@ -46208,9 +46208,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -46256,9 +46256,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -46313,9 +46313,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -46436,9 +46436,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -46480,9 +46480,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -46796,9 +46796,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -46838,9 +46838,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -46881,9 +46881,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -47006,9 +47006,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -47036,9 +47036,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -47107,9 +47107,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -47141,9 +47141,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -47184,9 +47184,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -47293,9 +47293,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -47323,9 +47323,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -47389,9 +47389,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -47423,9 +47423,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -47466,9 +47466,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -47575,9 +47575,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -47605,9 +47605,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
-- 
2.43.0


From 7fb8c824095b6724bb57791eb4e02a7b5e627618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:43 +0000
Subject: [PATCH 28/34] fix: STOCH and STOCHF do not copy K values after the D
 average failed

---
 ta-lib-rt/c/src/ta_func/ta_STOCH.c  | 10 ++++++++--
 ta-lib-rt/c/src/ta_func/ta_STOCHF.c | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_STOCH.c b/ta-lib-rt/c/src/ta_func/ta_STOCH.c
index 1bc9a4c..134ee44 100644
--- a/ta-lib-rt/c/src/ta_func/ta_STOCH.c
+++ b/ta-lib-rt/c/src/ta_func/ta_STOCH.c
@@ -536,7 +536,10 @@
     *  caller buffer because more input data then the
     *  requested range was needed for doing %D).
     */
-   ARRAY_MEMMOVE( outSlowK, 0, tempBuffer,lookbackDSlow,(int)VALUE_HANDLE_DEREF(outNBElement));
+   if( retCode == ENUM_VALUE(RetCode,TA_SUCCESS,Success) )
+   {
+      ARRAY_MEMMOVE( outSlowK, 0, tempBuffer,lookbackDSlow,(int)VALUE_HANDLE_DEREF(outNBElement));
+   }
 
    /* Don't need K anymore, free it if it was allocated here. */
    #if defined(USE_SINGLE_PRECISION_INPUT)
@@ -1332,7 +1335,10 @@ TA_RetCode retCode;
 /* Generated */                                        tempBuffer, optInSlowD_Period,
 /* Generated */                                        optInSlowD_MAType,
 /* Generated */                                        outBegIdx, outNBElement, outSlowD );
-/* Generated */    ARRAY_MEMMOVE( outSlowK, 0, tempBuffer,lookbackDSlow,(int)VALUE_HANDLE_DEREF(outNBElement));
+/* Generated */    if( retCode == ENUM_VALUE(RetCode,TA_SUCCESS,Success) )
+/* Generated */    {
+/* Generated */       ARRAY_MEMMOVE( outSlowK, 0, tempBuffer,lookbackDSlow,(int)VALUE_HANDLE_DEREF(outNBElement));
+/* Generated */    }
 /* Generated */    #if defined(USE_SINGLE_PRECISION_INPUT)
 /* Generated */       ARRAY_FREE( tempBuffer ); 
 /* Generated */    #else
diff --git a/ta-lib-rt/c/src/ta_func/ta_STOCHF.c b/ta-lib-rt/c/src/ta_func/ta_STOCHF.c
index 15e48bd..e212e81 100644
--- a/ta-lib-rt/c/src/ta_func/ta_STOCHF.c
+++ b/ta-lib-rt/c/src/ta_func/ta_STOCHF.c
@@ -482,7 +482,10 @@
     *  caller buffer because more input data then the
     *  requested range was needed for doing %D).
     */
-   ARRAY_MEMMOVE( outFastK, 0, tempBuffer, lookbackFastD, (int)VALUE_HANDLE_DEREF(outNBElement) );
+   if( retCode == ENUM_VALUE(RetCode,TA_SUCCESS,Success) )
+   {
+      ARRAY_MEMMOVE( outFastK, 0, tempBuffer, lookbackFastD, (int)VALUE_HANDLE_DEREF(outNBElement) );
+   }
 
    /* Don't need K anymore, free it if it was allocated here. */
    #if defined(USE_SINGLE_PRECISION_INPUT)
@@ -1237,7 +1240,10 @@ TA_RetCode retCode;
 /* Generated */       VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
 /* Generated */       return retCode; 
 /* Generated */    }
-/* Generated */    ARRAY_MEMMOVE( outFastK, 0, tempBuffer, lookbackFastD, (int)VALUE_HANDLE_DEREF(outNBElement) );
+/* Generated */    if( retCode == ENUM_VALUE(RetCode,TA_SUCCESS,Success) )
+/* Generated */    {
+/* Generated */       ARRAY_MEMMOVE( outFastK, 0, tempBuffer, lookbackFastD, (int)VALUE_HANDLE_DEREF(outNBElement) );
+/* Generated */    }
 /* Generated */    #if defined(USE_SINGLE_PRECISION_INPUT)
 /* Generated */       ARRAY_FREE( tempBuffer ); 
 /* Generated */    #else
-- 
2.43.0


From 4adaa76b2d3b51944a4e43d06718864f870f18c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:47 +0000
Subject: [PATCH 29/34] fix: TA_SetInputParamPricePtr left a partly set input
 after refusing a NULL component

---
 ta-lib-rt/c/src/ta_abstract/ta_abstract.c | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_abstract/ta_abstract.c b/ta-lib-rt/c/src/ta_abstract/ta_abstract.c
index 67fffa9..6a1c744 100644
--- a/ta-lib-rt/c/src/ta_abstract/ta_abstract.c
+++ b/ta-lib-rt/c/src/ta_abstract/ta_abstract.c
@@ -948,15 +948,29 @@ TA_RetCode TA_SetInputParamPricePtr( TA_ParamHolder     *param,
       return TA_INVALID_PARAM_HOLDER_TYPE;
    }
 
+   /* All the required components must be provided. */
+   #define CHECK_PARAM_INFO(lowerParam,upperParam) \
+   { \
+      if( (paramInfo->flags & TA_IN_PRICE_##upperParam) && (lowerParam == NULL) ) \
+      { \
+         return TA_BAD_PARAM; \
+      } \
+   }
+
+   CHECK_PARAM_INFO(open, OPEN );
+   CHECK_PARAM_INFO(high, HIGH );
+   CHECK_PARAM_INFO(low, LOW );
+   CHECK_PARAM_INFO(close, CLOSE );
+   CHECK_PARAM_INFO(volume, VOLUME );
+   CHECK_PARAM_INFO(openInterest, OPENINTEREST );
+
+   #undef CHECK_PARAM_INFO
+
    /* keep a copy of the provided parameter. */
    #define SET_PARAM_INFO(lowerParam,upperParam) \
    { \
       if( paramInfo->flags & TA_IN_PRICE_##upperParam ) \
       { \
-         if( lowerParam == NULL ) \
-         { \
-            return TA_BAD_PARAM; \
-         } \
          paramHolderPriv->in[paramIndex].data.inPrice.lowerParam = lowerParam; \
       } \
    }
-- 
2.43.0


From 2d9eeacc20a75431d2664329285e840417dc0a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:57 +0000
Subject: [PATCH 30/34] fix: IMI's unstable period skips bars instead of
 widening the window

---
 ta-lib-rt/c/src/ta_func/ta_IMI.c | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_IMI.c b/ta-lib-rt/c/src/ta_func/ta_IMI.c
index 3f3b310..c1e241d 100644
--- a/ta-lib-rt/c/src/ta_func/ta_IMI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_IMI.c
@@ -213,7 +213,7 @@
 		double upsum = .0, downsum = .0;
 		int i;
 
-		for (i = startIdx - lookback; i <= startIdx; i++) {
+		for (i = startIdx - optInTimePeriod + 1; i <= startIdx; i++) {
 			double close = inClose[i];
 			double open = inOpen[i];
 
@@ -312,6 +312,7 @@
    /* insert local variable here */
 #define TA_IMI_SUPPRESS_EXIT_ON_NOT_ENOUGH_DATA
 double tempClose, tempOpen;
+size_t leaving;
 /**** START GENCODE SECTION 8 - DO NOT DELETE THIS LINE ****/
 /* Generated */ 
 /* Generated */ #ifndef TA_FUNC_NO_RANGE_CHECK
@@ -349,6 +350,19 @@ double tempClose, tempOpen;
                 STATE.downsum += (inOpen - inClose);
             }
 
+            /* with an unstable period the memory holds more bars than the window */
+            if (STATE.mem_index >= (size_t)STATE.optInTimePeriod) {
+                leaving = (_cur_idx + MEM_SIZE - (STATE.optInTimePeriod - 1)) % MEM_SIZE;
+                tempClose = MEM_IDX_NS(inClose, leaving);
+                tempOpen = MEM_IDX_NS(inOpen, leaving);
+
+                if (tempClose > tempOpen) {
+                    STATE.upsum -= (tempClose - tempOpen);
+                } else {
+                    STATE.downsum -= (tempOpen - tempClose);
+                }
+            }
+
             PUSH_TO_MEM(inOpen,inOpen);
             PUSH_TO_MEM(inClose,inClose);
             return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
@@ -364,8 +378,9 @@ double tempClose, tempOpen;
 
          VALUE_HANDLE_DEREF(outReal) = 100.0*(STATE.upsum/(STATE.upsum + STATE.downsum));
 
-         tempClose = POP_FROM_MEM(inClose);
-         tempOpen = POP_FROM_MEM(inOpen);
+         leaving = (_cur_idx + MEM_SIZE - (STATE.optInTimePeriod - 1)) % MEM_SIZE;
+         tempClose = MEM_IDX_NS(inClose, leaving);
+         tempOpen = MEM_IDX_NS(inOpen, leaving);
 
          if (tempClose > tempOpen) {
              STATE.upsum -= (tempClose - tempOpen);
@@ -688,7 +703,7 @@ double tempClose, tempOpen;
 /* Generated */    while (startIdx <= endIdx) {
 /* Generated */ 		double upsum = .0, downsum = .0;
 /* Generated */ 		int i;
-/* Generated */ 		for (i = startIdx - lookback; i <= startIdx; i++) {
+/* Generated */ 		for (i = startIdx - optInTimePeriod + 1; i <= startIdx; i++) {
 /* Generated */ 			double close = inClose[i];
 /* Generated */ 			double open = inOpen[i];
 /* Generated */ 			if (close > open) {
-- 
2.43.0


From d281835597f161995ee4124af6511d8aaa271a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:12 +0000
Subject: [PATCH 31/34] fix: WMA and TRIMA with long periods compute their
 divider in double instead of overflowing an int

---
 ta-lib-rt/c/src/ta_func/ta_TRIMA.c | 12 ++++++------
 ta-lib-rt/c/src/ta_func/ta_WMA.c   | 16 ++++++++--------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_TRIMA.c b/ta-lib-rt/c/src/ta_func/ta_TRIMA.c
index edc4114..4741d99 100644
--- a/ta-lib-rt/c/src/ta_func/ta_TRIMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_TRIMA.c
@@ -339,7 +339,7 @@
        *       on assignement to the factor variable.
        */
       i = (optInTimePeriod>>1);
-      factor = (i+1)*(i+1); 
+      factor = (double)(i+1)*(i+1); 
       factor = 1.0/factor;
 
       /* Initialize all the variable before
@@ -412,7 +412,7 @@
        *  - Adjustment of numeratorAdd is different. See Step (2).
        */
       i = (optInTimePeriod>>1);
-      factor = i*(i+1); 
+      factor = (double)i*(i+1); 
       factor = 1.0/factor;
 
       /* Initialize all the variable before
@@ -599,12 +599,12 @@ double tempReal;
             if( (STATE.optInTimePeriod % 2) == 1 )
             {
                 i = (STATE.optInTimePeriod>>1);
-                STATE.factor = (i+1)*(i+1);
+                STATE.factor = (double)(i+1)*(i+1);
                 STATE.factor = 1.0/STATE.factor;
                 STATE.middleIdx   = i;
             } else {
                 i = (STATE.optInTimePeriod>>1);
-                STATE.factor = i*(i+1);
+                STATE.factor = (double)i*(i+1);
                 STATE.factor = 1.0/STATE.factor;
 
                 STATE.middleIdx   = i - 1;
@@ -991,7 +991,7 @@ double tempReal;
 /* Generated */    if( (optInTimePeriod % 2) == 1 )
 /* Generated */    {
 /* Generated */       i = (optInTimePeriod>>1);
-/* Generated */       factor = (i+1)*(i+1); 
+/* Generated */       factor = (double)(i+1)*(i+1); 
 /* Generated */       factor = 1.0/factor;
 /* Generated */       trailingIdx = startIdx-lookbackTotal;
 /* Generated */       middleIdx   = trailingIdx + i;
@@ -1034,7 +1034,7 @@ double tempReal;
 /* Generated */    else
 /* Generated */    {
 /* Generated */       i = (optInTimePeriod>>1);
-/* Generated */       factor = i*(i+1); 
+/* Generated */       factor = (double)i*(i+1); 
 /* Generated */       factor = 1.0/factor;
 /* Generated */       trailingIdx = startIdx-lookbackTotal;
 /* Generated */       middleIdx   = trailingIdx + i - 1;
diff --git a/ta-lib-rt/c/src/ta_func/ta_WMA.c b/ta-lib-rt/c/src/ta_func/ta_WMA.c
index ff020ca..defcfdb 100644
--- a/ta-lib-rt/c/src/ta_func/ta_WMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_WMA.c
@@ -158,8 +158,8 @@
 /**** END GENCODE SECTION 3 - DO NOT DELETE THIS LINE ****/
 {
    /* Insert local variables here. */
-   int inIdx, outIdx, i, trailingIdx, divider;
-   double periodSum, periodSub, tempReal, trailingValue;
+   int inIdx, outIdx, i, trailingIdx;
+   double periodSum, periodSub, tempReal, trailingValue, divider;
    int lookbackTotal;
 
    #if defined( USE_SINGLE_PRECISION_INPUT )
@@ -232,9 +232,9 @@
 
    /* Calculate the divider (always an integer value).
     * By induction: 1+2+3+4+'n' = n(n+1)/2
-    * '>>1' is usually faster than '/2' for unsigned.
+    * In double: with a long period n(n+1) exceeds an int.
     */
-   divider = (optInTimePeriod*(optInTimePeriod+1))>>1;
+   divider = (double)optInTimePeriod*(optInTimePeriod+1)/2;
 
    /* The algo used here use a very basic property of
     * multiplication/addition: (x*2) = x+x
@@ -421,7 +421,7 @@
     {
             STATE.periodSum = 0.;
             STATE.periodSub = 0.;
-            STATE.divider =  (STATE.optInTimePeriod*(STATE.optInTimePeriod+1))>>1; //const
+            STATE.divider =  (double)STATE.optInTimePeriod*(STATE.optInTimePeriod+1)/2; //const
     }
 
  if (NEED_MORE_DATA)
@@ -720,8 +720,8 @@
 /* Generated */                      double        outReal[] )
 /* Generated */ #endif
 /* Generated */ {
-/* Generated */    int inIdx, outIdx, i, trailingIdx, divider;
-/* Generated */    double periodSum, periodSub, tempReal, trailingValue;
+/* Generated */    int inIdx, outIdx, i, trailingIdx;
+/* Generated */    double periodSum, periodSub, tempReal, trailingValue, divider;
 /* Generated */    int lookbackTotal;
 /* Generated */    #if defined( USE_SINGLE_PRECISION_INPUT )
 /* Generated */       ARRAY_MEMMOVEMIX_VAR;
@@ -763,7 +763,7 @@
 /* Generated */       #endif
 /* Generated */       return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    }
-/* Generated */    divider = (optInTimePeriod*(optInTimePeriod+1))>>1;
+/* Generated */    divider = (double)optInTimePeriod*(optInTimePeriod+1)/2;
 /* Generated */    outIdx      = 0;
 /* Generated */    trailingIdx = startIdx - lookbackTotal;
 /* Generated */    periodSum = periodSub = (double)0.0;
-- 
2.43.0


From d209382d471df6ed0ea98e70ae2677950a337492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:13 +0000
Subject: [PATCH 32/34] fix: gen_code overran its buffer on a description
 containing an ampersand

---
 ta-lib-rt/c/src/tools/gen_code/print_utils.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ta-lib-rt/c/src/tools/gen_code/print_utils.c b/ta-lib-rt/c/src/tools/gen_code/print_utils.c
index f5938cf..752cfcf 100644
--- a/ta-lib-rt/c/src/tools/gen_code/print_utils.c
+++ b/ta-lib-rt/c/src/tools/gen_code/print_utils.c
@@ -124,6 +124,7 @@ void ReplaceReservedXmlCharacters(const char *input, char *output )
             strcpy(tempString, currentPosition+1);
         }
         sprintf(currentPosition, "&amp;%s", tempString);
+        currentPosition++; /* Step over the '&' just written. */
     }
 
     /* Replace '<' with "&lt;" */
-- 
2.43.0


From 69957dad8d963492d19c630bf74abfb0bbd0bd3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:25 +0000
Subject: [PATCH 33/34] fix: gen_code writes parameter names into the XML
 description without escaping them

---
 ta-lib-rt/c/src/tools/gen_code/print_funcs_xml.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ta-lib-rt/c/src/tools/gen_code/print_funcs_xml.c b/ta-lib-rt/c/src/tools/gen_code/print_funcs_xml.c
index 43c67c9..fc9bb39 100644
--- a/ta-lib-rt/c/src/tools/gen_code/print_funcs_xml.c
+++ b/ta-lib-rt/c/src/tools/gen_code/print_funcs_xml.c
@@ -134,7 +134,8 @@ void print_arguments_input_required(FILE *file, int indent, const struct TA_Func
 void print_opt_input_arg(FILE *file, int indent, const TA_OptInputParameterInfo * optInputInfo, const char* field_name)
 {
     fprintf(file, "%.*s<%s>\n", indent, t, field_name);
-    fprintf(file, "%.*s<Name>%s</Name>\n", indent+1, t, optInputInfo->displayName);
+    ReplaceReservedXmlCharacters(optInputInfo->displayName, tempString);
+    fprintf(file, "%.*s<Name>%s</Name>\n", indent+1, t, (optInputInfo->displayName == NULL)? "" : tempString);
     ReplaceReservedXmlCharacters(optInputInfo->hint, tempString);
     fprintf(file, "%.*s<ShortDescription>%s</ShortDescription>\n", indent+1, t, (optInputInfo->hint == NULL)? "" : tempString);
     if(optInputInfo->flags != 0)
-- 
2.43.0


From d96ea3f309c69690358fec45df1073db47b3b609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:53 +0000
Subject: [PATCH 34/34] fix: gen_code declared integer inputs const in the bar
 memory of a stream, so such a function did not compile

---
 ta-lib-rt/c/src/tools/gen_code/gen_code.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ta-lib-rt/c/src/tools/gen_code/gen_code.c b/ta-lib-rt/c/src/tools/gen_code/gen_code.c
index 7be73ce..02d0f07 100644
--- a/ta-lib-rt/c/src/tools/gen_code/gen_code.c
+++ b/ta-lib-rt/c/src/tools/gen_code/gen_code.c
@@ -1487,7 +1487,7 @@ void printFunc( FILE *out,
          inputDoubleArrayType  = (stateStruct)? "float" : "const float";
       else
          inputDoubleArrayType  = (stateStruct)? "double" : "const double";
-      inputIntArrayType     = "const int";
+      inputIntArrayType     = (stateStruct)? "int" : "const int";
       outputDoubleArrayType = "double";
       outputIntArrayType    = "int";
       outputIntParam        = "int";
-- 
2.43.0

