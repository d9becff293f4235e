From a136e70bab4c7debe78c8a4ee346fd4b61be769b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:18 +0000
Subject: [PATCH 01/49] fix: set the variogram of every band for windows of
 fewer than two observations

---
 src/cxx/misc.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cxx/misc.c b/src/cxx/misc.c
index 97c4a0b..2b7c948 100644
--- a/src/cxx/misc.c
+++ b/src/cxx/misc.c
@@ -109,18 +109,18 @@ int adjust_median_variogram
        for(i = 0; i < dim1_len; i++)
        {
            output_array[i] = 0;
+       }
        *date_vario = 0;
        return (SUCCESS);
-       }
     }
     if (dim2_len == 1)
     {
         for (i = 0; i < dim1_len; i++)
         {
             output_array[i] = array[i][dim2_start];
-            *date_vario = clrx[dim2_start];
-            return (SUCCESS);
         }
+        *date_vario = clrx[dim2_start];
+        return (SUCCESS);
     }
 
     var = (float*)malloc((dim2_len-1) * sizeof(float));
-- 
2.43.0


From 0b22e65f09d9dcf09bd22cb1f69853f01e0e81ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:18 +0000
Subject: [PATCH 02/49] fix: quick_sort_index recurses on the right part only
 (infinite recursion on equal keys)

---
 src/cxx/utilities.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxx/utilities.c b/src/cxx/utilities.c
index c416b4c..ee47360 100644
--- a/src/cxx/utilities.c
+++ b/src/cxx/utilities.c
@@ -171,7 +171,7 @@ void quick_sort_index (int arr[], int *index,  int left, int right)
     }
     if (ind < right)
     {
-        quick_sort_index(arr, index,  ind - 1, right);
+        quick_sort_index(arr, index,  ind, right);
     }
 }
 
-- 
2.43.0


From ce593a64e3136332f19b9ef9e52aedb4d87842c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:26 +0000
Subject: [PATCH 03/49] fix: convert_year_doy_to_ordinal initialises the result
 for dates of 1973 too

---
 src/cxx/input.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxx/input.c b/src/cxx/input.c
index 9233688..d45b326 100644
--- a/src/cxx/input.c
+++ b/src/cxx/input.c
@@ -113,9 +113,9 @@ int convert_year_doy_to_ordinal
         RETURN_ERROR ("Landsat data starts from 1973", FUNC_NAME, ERROR);
     }
 
+    *jday = ORDINAL_DATE_LAST_DAY_1972;
     if (year != LANDSAT_START_YEAR)
     {
-        *jday = ORDINAL_DATE_LAST_DAY_1972;
         for (i = LANDSAT_START_YEAR; i < year; i++)
         {
             status = is_leap_year(i);
-- 
2.43.0


From 82a296928f3f4abae4d5c9147641da88b26aa57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:51 +0000
Subject: [PATCH 04/49] fix: store the thermal band of every observation in the
 insufficient-observation path

---
 src/cxx/cold.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cxx/cold.c b/src/cxx/cold.c
index 8ff799a..c81b15f 100644
--- a/src/cxx/cold.c
+++ b/src/cxx/cold.c
@@ -5183,10 +5183,10 @@ int inefficientobs_procedure
                         clry[k][n_clr] = (float)buf_s2[i];
                     else if(k == 6){
                         if (b_c2 == TRUE){
-                            clry[k][n_sn] = 0;
+                            clry[k][n_clr] = 0;
                         }
                         else{
-                            clry[k][n_sn] = (float)(buf_t[i] * 10 - 27320);
+                            clry[k][n_clr] = (float)(buf_t[i] * 10 - 27320);
                         }
                    }
                 }
-- 
2.43.0


From 236fd27520c3a4c19217047bcce7478c293a547f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:51 +0000
Subject: [PATCH 05/49] fix: keep the green band aligned with its dates in the
 insufficient-observation path

---
 src/cxx/cold.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cxx/cold.c b/src/cxx/cold.c
index c81b15f..298b6a9 100644
--- a/src/cxx/cold.c
+++ b/src/cxx/cold.c
@@ -5206,8 +5206,10 @@ int inefficientobs_procedure
 
         n_clr = 0;
         float band2_median; // probably not good practice to declare here....
-        quick_sort_float(clry[1], 0, end - 1);
-        matlab_2d_float_median(clry, 1, end, &band2_median);
+        // sort a copy: the green band has to stay aligned with the dates and the other bands
+        memcpy(temp_v_dif[1], clry[1], end * sizeof(float));
+        quick_sort_float(temp_v_dif[1], 0, end - 1);
+        matlab_2d_float_median(temp_v_dif, 1, end, &band2_median);
 
         n_clr = 0;
         for (i = 0; i < end; i++)
-- 
2.43.0


From 4126215bc9a7335277ff80016a1783503641d0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:51 +0000
Subject: [PATCH 06/49] fix: keep dates aligned with every band in the
 permanent snow path

---
 src/cxx/cold.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/cxx/cold.c b/src/cxx/cold.c
index 298b6a9..1870317 100644
--- a/src/cxx/cold.c
+++ b/src/cxx/cold.c
@@ -4868,6 +4868,7 @@ int inefficientobs_procedure
     int i_start;
     int i_span;
     int *clrx;                       /* clear pixel curve in X direction (date)    */
+    int *clrx_band;             /* dates of one band without saturated observations */
     float **clry;                    /* clear pixel curve in Y direction (spectralbands)    */
     float **fit_cft;                 /* Fitted coefficients 2-D array.        */
     float *rmse;                     /* Root Mean Squared Error array.        */
@@ -5002,6 +5003,13 @@ int inefficientobs_procedure
 
         i_start = 1; /* the first observation for TSFit */
 
+        /* dates of the unsaturated observations of one band */
+        clrx_band = malloc(n_sn * sizeof(int));
+        if (clrx_band == NULL)
+        {
+            RETURN_ERROR("ERROR allocating clrx_band memory", FUNC_NAME, FAILURE);
+        }
+
         /**********************************************************/
         /*                                                        */
         /* Treat saturated and unsaturated pixels differently.    */
@@ -5018,7 +5026,7 @@ int inefficientobs_procedure
                 {
                     if (clry[k][i] > 0.0 && clry[k][i] < 10000.0)
                     {
-                        clrx[i_span] = clrx[i];
+                        clrx_band[i_span] = clrx[i];
                         clry[k][i_span] = clry[k][i];
                         i_span++;
                     }
@@ -5031,7 +5039,7 @@ int inefficientobs_procedure
                 }
                 else
                 {
-                    status = auto_ts_fit_float(clrx, clry, k, k, 0, i_span-1, MIN_NUM_C,
+                    status = auto_ts_fit_float(clrx_band, clry, k, k, 0, i_span-1, MIN_NUM_C,
                              fit_cft, &rmse[k], temp_v_dif);
 
                     if (status != SUCCESS)
@@ -5047,13 +5055,13 @@ int inefficientobs_procedure
                     //printf("clry: %f\n", (float)clry[k][i]);
                     if (clry[k][i] > -9320 && clry[k][i] < 7070)
                     {
-                        clrx[i_span] = clrx[i];
+                        clrx_band[i_span] = clrx[i];
                         clry[k][i_span] = clry[k][i];
                         i_span++;
                     }
                  }
 
-                status = auto_ts_fit_float(clrx, clry, k, k, 0, i_span-1, MIN_NUM_C,
+                status = auto_ts_fit_float(clrx_band, clry, k, k, 0, i_span-1, MIN_NUM_C,
                          fit_cft, &rmse[k], temp_v_dif);
 
                 if (status != SUCCESS)
@@ -5064,6 +5072,8 @@ int inefficientobs_procedure
         }
 
 
+        free(clrx_band);
+
         /**********************************************************/
         /*                                                        */
         /*                                                        */
-- 
2.43.0


From aae7327d4378a32331937167069d0cc0fcab99c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:05 +0000
Subject: [PATCH 07/49] fix: no valid observation at all leaves no observation
 to sort and average

---
 src/cxx/cold.c | 9 ++++++---
 src/cxx/misc.c | 6 ++++++
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/cxx/cold.c b/src/cxx/cold.c
index 1870317..a97ccc8 100644
--- a/src/cxx/cold.c
+++ b/src/cxx/cold.c
@@ -5217,9 +5217,12 @@ int inefficientobs_procedure
         n_clr = 0;
         float band2_median; // probably not good practice to declare here....
         // sort a copy: the green band has to stay aligned with the dates and the other bands
-        memcpy(temp_v_dif[1], clry[1], end * sizeof(float));
-        quick_sort_float(temp_v_dif[1], 0, end - 1);
-        matlab_2d_float_median(temp_v_dif, 1, end, &band2_median);
+        if (end > 0)
+        {
+            memcpy(temp_v_dif[1], clry[1], end * sizeof(float));
+            quick_sort_float(temp_v_dif[1], 0, end - 1);
+            matlab_2d_float_median(temp_v_dif, 1, end, &band2_median);
+        }
 
         n_clr = 0;
         for (i = 0; i < end; i++)
diff --git a/src/cxx/misc.c b/src/cxx/misc.c
index 2b7c948..ef2706b 100644
--- a/src/cxx/misc.c
+++ b/src/cxx/misc.c
@@ -1191,6 +1191,12 @@ void matlab_unique
     int k, b;
     int k_new = 0;
 
+    if (nums == 0)
+    {
+        *new_nums = 0;
+        return;
+    }
+
     for (k = 1, k_new = 1; k < nums; k++)
     {
         if (clrx[k] == clrx[k-1])
-- 
2.43.0


From b220e77ec3781e8d5a678b85ace1ac2cb62fb392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:15 +0000
Subject: [PATCH 08/49] fix: no thermal model from too few thermal readings in
 the permanent snow path (crashed with none or one)

---
 src/cxx/cold.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/cxx/cold.c b/src/cxx/cold.c
index a97ccc8..de0f677 100644
--- a/src/cxx/cold.c
+++ b/src/cxx/cold.c
@@ -5061,12 +5061,19 @@ int inefficientobs_procedure
                     }
                  }
 
-                status = auto_ts_fit_float(clrx_band, clry, k, k, 0, i_span-1, MIN_NUM_C,
-                         fit_cft, &rmse[k], temp_v_dif);
+                if (i_span < MIN_NUM_C * N_TIMES){ // too few thermal readings to fit a model
+                    for(i = 0; i < MAX_NUM_C; i++)
+                        fit_cft[k][i] = 0;
+                }
+                else
+                {
+                    status = auto_ts_fit_float(clrx_band, clry, k, k, 0, i_span-1, MIN_NUM_C,
+                             fit_cft, &rmse[k], temp_v_dif);
 
-                if (status != SUCCESS)
-                    RETURN_ERROR ("Calling auto_ts_fit_float\n",
-                           FUNC_NAME, EXIT_FAILURE);
+                    if (status != SUCCESS)
+                        RETURN_ERROR ("Calling auto_ts_fit_float\n",
+                               FUNC_NAME, EXIT_FAILURE);
+                }
 
               }
         }
-- 
2.43.0


From 2b002b47d5e2b48b8141507f1a79ea723ea42427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:49 +0000
Subject: [PATCH 09/49] fix: angles of (anti)parallel change vectors are not
 NaN when rounding leaves [-1, 1]

---
 src/cxx/misc.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/cxx/misc.c b/src/cxx/misc.c
index ef2706b..c3c2df9 100644
--- a/src/cxx/misc.c
+++ b/src/cxx/misc.c
@@ -2996,7 +2996,8 @@ double MeanAngl
                 norm1 += v_diff[j][i] * v_diff[j][i];
                 norm2 += v_diff[j][i+1] * v_diff[j][i+1];
             }
-            tmp = acos(product / (sqrt(norm1) * sqrt(norm2)));
+            tmp = product / (sqrt(norm1) * sqrt(norm2));
+            tmp = acos(tmp > 1 ? 1 : tmp < -1 ? -1 : tmp); // rounding may leave [-1, 1]
             angl_sum += (tmp * 180.0)/PI;
         }
         y = angl_sum/(i_count-1);
@@ -3036,7 +3037,8 @@ float MeanAngl_float
                 norm1 += v_diff[j][i] * v_diff[j][i];
                 norm2 += v_diff[j][i+1] * v_diff[j][i+1];
             }
-            tmp = acosf(product / (sqrtf(norm1) * sqrtf(norm2)));
+            tmp = product / (sqrtf(norm1) * sqrtf(norm2));
+            tmp = acosf(tmp > 1 ? 1 : tmp < -1 ? -1 : tmp); // rounding may leave [-1, 1]
             angl_sum += (tmp * 180.0)/PI;
         }
         y = angl_sum/(i_count-1);
@@ -3077,7 +3079,8 @@ float MeanAngl_float_selective
                 norm1 += v_diff[lasso_bands[j]][i] * v_diff[lasso_bands[j]][i];
                 norm2 += v_diff[lasso_bands[j]][i+1] * v_diff[lasso_bands[j]][i+1];
             }
-            tmp = acosf(product / (sqrtf(norm1) * sqrtf(norm2)));
+            tmp = product / (sqrtf(norm1) * sqrtf(norm2));
+            tmp = acosf(tmp > 1 ? 1 : tmp < -1 ? -1 : tmp); // rounding may leave [-1, 1]
             angl_sum += (tmp * 180.0)/PI;
         }
         y = angl_sum/(i_count-1);
@@ -3116,7 +3119,9 @@ float MediumAngl(
                 norm1 += v_diff[j][i] * v_diff[j][i];
                 norm2 += v_diff[j][i+1] * v_diff[j][i+1];
             }
-            angle[i] = (acos(product / (sqrt(norm1) * sqrt(norm2)))  * 180.0) / PI;
+            double tmp = product / (sqrt(norm1) * sqrt(norm2));
+            tmp = tmp > 1 ? 1 : tmp < -1 ? -1 : tmp; // rounding may leave [-1, 1]
+            angle[i] = (acos(tmp)  * 180.0) / PI;
             //printf("%f\n", angle[i]);
         }
 
@@ -3180,6 +3185,8 @@ float angl_scatter_measure
             interm = (float)(product / (sqrtf(norm1) * sqrtf(norm2)));
             if(interm > 1)
                 interm = 1;
+            if(interm < -1)
+                interm = -1;
             angle[i] = (acos(interm)  * 180.0) / PI;
             angle_sum = angle_sum + angle[i];
             //printf("%f\n", angle[i]);
-- 
2.43.0


From bacc2aa158e4ecc246e35479b1f4075f03c3be42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:58 +0000
Subject: [PATCH 10/49] fix: the start-of-series record counts the observations
 its model is fitted to

---
 src/cxx/cold.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxx/cold.c b/src/cxx/cold.c
index de0f677..f1b36ef 100644
--- a/src/cxx/cold.c
+++ b/src/cxx/cold.c
@@ -3704,7 +3704,7 @@ int stand_procedure
                     rec_cg[*num_fc].category = 10 + MIN_NUM_C;
                     rec_cg[*num_fc].change_prob = 100;
                     rec_cg[*num_fc].t_start = clrx[i_dense-1];
-                    rec_cg[*num_fc].num_obs = i_start - i_dense + 1;  //SY 09182018
+                    rec_cg[*num_fc].num_obs = i_start - i_dense;  //SY 09182018
 
 //                    if ((i_start - 1 + adj_conse) < end)
 //                        rec_cg[*num_fc].t_confirmed = clrx[i_start + adj_conse - 1];
-- 
2.43.0


From 8c990fa9177e7892d640d0ec6d98abc44a3691a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:58 +0000
Subject: [PATCH 11/49] fix: a full result array ends the segmentation instead
 of being reallocated

---
 src/cxx/cold.c | 53 ++++++++------------------------------------------
 1 file changed, 8 insertions(+), 45 deletions(-)

diff --git a/src/cxx/cold.c b/src/cxx/cold.c
index f1b36ef..630eecc 100644
--- a/src/cxx/cold.c
+++ b/src/cxx/cold.c
@@ -3754,21 +3754,6 @@ int stand_procedure
                     /**********************************************/
 
                     *num_fc = *num_fc + 1;
-                    if (*num_fc >= NUM_FC)
-                    {
-                        /******************************************/
-                        /*                                        */
-                        /* Reallocate memory for rec_cg.          */
-                        /*                                        */
-                        /******************************************/
-
-                        rec_cg = realloc(rec_cg, (*num_fc + 1) * sizeof(Output_t));
-                        if (rec_cg == NULL)
-                        {
-                            RETURN_ERROR("ERROR allocating rec_cg memory",
-                                         FUNC_NAME, FAILURE);
-                        }
-                    }
                 }
             } /* end of initializing model */
 
@@ -4353,21 +4338,9 @@ int stand_procedure
 
                     *num_fc = *num_fc + 1;
 
+                    /* the result array belongs to the caller and is full */
                     if (*num_fc >= NUM_FC)
-                    {
-                        /******************************************/
-                        /*                                        */
-                        /* Reallocate memory for rec_cg.          */
-                        /*                                        */
-                        /******************************************/
-
-                        rec_cg = realloc(rec_cg, (*num_fc + 1) * sizeof(Output_t));
-                        if (rec_cg == NULL)
-                        {
-                            RETURN_ERROR("ERROR allocating rec_cg memory",
-                                                 FUNC_NAME, FAILURE);
-                        }
-                    }
+                        break;
 
                     /**********************************************/
                     /*                                            */
@@ -4428,7 +4401,12 @@ int stand_procedure
     /*                                                            */
     /**************************************************************/
     // printf("main part finished \n");
-    if (bl_train == 1)
+    if (*num_fc >= NUM_FC)
+    {
+        /* no room for the rest of the series; counted again below */
+        *num_fc = *num_fc - 1;
+    }
+    else if (bl_train == 1)
     {
 
         /**********************************************************/
@@ -4704,21 +4682,6 @@ int stand_procedure
              }
 
             //*num_fc = *num_fc + 1;
-            if (*num_fc >= NUM_FC)
-            {
-                /**************************************************/
-                /*                                                */
-                /* Reallocate memory for rec_cg.                  */
-                /*                                                */
-                /**************************************************/
-
-                rec_cg = realloc(rec_cg, (*num_fc + 1) * sizeof(Output_t));
-                if (rec_cg == NULL)
-                {
-                    RETURN_ERROR("ERROR allocating rec_cg memory",
-                                 FUNC_NAME, FAILURE);
-                }
-            }
         }else{
            *num_fc = *num_fc - 1;
         }
-- 
2.43.0


From dee303870caed63f1d0ae91d79931c7a367c98ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:58 +0000
Subject: [PATCH 12/49] fix: reconstruction computes the snow percentage its
 fallback depends on

---
 src/cxx/cold.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cxx/cold.c b/src/cxx/cold.c
index 630eecc..0963f24 100644
--- a/src/cxx/cold.c
+++ b/src/cxx/cold.c
@@ -5543,6 +5543,8 @@ int obcold_reconstruction_procedure
 
     break_list = (int* )malloc(break_date_len * sizeof(int));
 
+    sn_pct = (float) sn_sum/ (float) (sn_sum + clear_sum + 0.01);
+
     if (clear_sum < N_TIMES * MAX_NUM_C){
         result = inefficientobs_procedure(valid_num_scenes,valid_date_array, buf_b, buf_g, buf_r, buf_n, buf_s1, buf_s2, buf_t,
                                  fmask_buf, id_range,sn_pct,rec_cg, num_fc, b_c2);
-- 
2.43.0


From 558cb5066a20c715edab243d790e9f7ff07f03a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:58 +0000
Subject: [PATCH 13/49] fix: a reconstructed record counts the observations its
 model is fitted to

---
 src/cxx/cold.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxx/cold.c b/src/cxx/cold.c
index 0963f24..8809c88 100644
--- a/src/cxx/cold.c
+++ b/src/cxx/cold.c
@@ -5760,7 +5760,7 @@ int obcold_reconstruction_procedure
             rec_cg[*num_fc].t_end = clrx[i_break - 1];
 
             // rec_cg[*num_fc].t_confirmed = 0;
-            rec_cg[*num_fc].num_obs = i_break - i_last_break + 1;
+            rec_cg[*num_fc].num_obs = i_break - i_last_break;
             rec_cg[*num_fc].category = 0 + update_num_c;
 
             /* note that each time we calculate change magnitude for the last curve, not current curve*/
-- 
2.43.0


From b4b9dec65336714ea9cd6ed088ac8884f4e16d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:58 +0000
Subject: [PATCH 14/49] fix: reconstruction stops at the capacity of the result
 array

---
 src/cxx/cold.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxx/cold.c b/src/cxx/cold.c
index 8809c88..30c98cf 100644
--- a/src/cxx/cold.c
+++ b/src/cxx/cold.c
@@ -5577,7 +5577,7 @@ int obcold_reconstruction_procedure
         }
 
 
-        for(j = 0; j < break_num + 1; j++) // break_num + 1 is because the segment = break_num + 1
+        for(j = 0; j < break_num + 1 && *num_fc < NUM_FC; j++) // break_num + 1 is because the segment = break_num + 1
         {
             if (j == break_num) // last break, using last_obs + 1 as break
                 i_break_tmp = end;
-- 
2.43.0


From 829637a747eecf4dac70b580497c011358238830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:44 +0000
Subject: [PATCH 15/49] fix: number change-map blocks by the blocks per row

assemble_cmmaps took the block column modulo n_block_y, so tiles with
n_block_x != n_block_y read wrong or missing block files.
---
 src/python/pycold/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pycold/utils.py b/src/python/pycold/utils.py
index 2be7943..bbe763d 100644
--- a/src/python/pycold/utils.py
+++ b/src/python/pycold/utils.py
@@ -124,7 +124,7 @@ def assemble_cmmaps(
     ]
     for iblock in range(dataset_info.nblocks):
         current_block_y = int(np.floor(iblock / dataset_info.n_block_x)) + 1
-        current_block_x = iblock % dataset_info.n_block_y + 1
+        current_block_x = iblock % dataset_info.n_block_x + 1
         try:
             cm_block = np.load(
                 join(result_path, "{}_x{}_y{}.npy".format(prefix, current_block_x, current_block_y))
-- 
2.43.0


From db7b5406986c6607e4f2e29c713ffd60fc6c1745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:44 +0000
Subject: [PATCH 16/49] fix: leave the pixels of a missing change-map block at
 the no-data value

A block file that could not be read raised UnboundLocalError or repeated
the previous block.
---
 src/python/pycold/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pycold/utils.py b/src/python/pycold/utils.py
index bbe763d..110d8d3 100644
--- a/src/python/pycold/utils.py
+++ b/src/python/pycold/utils.py
@@ -131,7 +131,7 @@ def assemble_cmmaps(
             ).astype(output_type)
         except OSError as e:
             print("Reading CM files fails: {}".format(e))
-        #    continue
+            continue
 
         # if prefix == "CM_date":
         #    cm_block_copy = cm_block.copy()
-- 
2.43.0


From 8ccc4756457155a5ca51e60f3d338d369192a26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:44 +0000
Subject: [PATCH 17/49] fix: stitch tiles whose block rows and columns differ
 in number

assemble_array split the row of blocks into n_block_x pieces instead of
one piece per block row.
---
 src/python/pycold/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pycold/utils.py b/src/python/pycold/utils.py
index 110d8d3..486d66c 100644
--- a/src/python/pycold/utils.py
+++ b/src/python/pycold/utils.py
@@ -312,7 +312,7 @@ def assemble_array(array_list, n_block_x):
     """
     full_feature_array = np.hstack(array_list)
     full_feature_array = np.vstack(
-        np.hsplit(full_feature_array, n_block_x)
+        np.hsplit(full_feature_array, len(array_list) // n_block_x)
     )  # (nrows, ncols, nfeatures)
     return full_feature_array
 
-- 
2.43.0


From 832344895758762b89f3c1749e489ad983333da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:44 +0000
Subject: [PATCH 18/49] fix: stitch exported maps whose block rows and columns
 differ in number

---
 src/python/pycold/imagetool/export_change_map.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/pycold/imagetool/export_change_map.py b/src/python/pycold/imagetool/export_change_map.py
index a6c5353..662acbc 100644
--- a/src/python/pycold/imagetool/export_change_map.py
+++ b/src/python/pycold/imagetool/export_change_map.py
@@ -578,7 +578,7 @@ def main(
             ]
 
             results = np.hstack(tmp_map_blocks)
-            results = np.vstack(np.hsplit(results, config["n_block_x"]))
+            results = np.vstack(np.hsplit(results, config["n_block_y"]))
 
             for x in range(config["n_blocks"]):
                 os.remove(os.path.join(out_path, "tmp_map_block{}_{}.npy".format(x + 1, year)))
@@ -604,7 +604,7 @@ def main(
                 ]
 
                 results = np.hstack(tmp_map_blocks)
-                results = np.vstack(np.hsplit(results, config["n_block_x"]))
+                results = np.vstack(np.hsplit(results, config["n_block_y"]))
                 ninput = 0
                 for band_idx, band_name in enumerate(coefs_bands):
                     for coef_index, coef in enumerate(coefs):
-- 
2.43.0


From 7ee68980a6aa0434651e9efa4ae1fb34c682eea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:42 +0000
Subject: [PATCH 19/49] fix: mode_median_by failed with the scalar result of
 scipy's mode

---
 src/python/pycold/ob_analyst.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pycold/ob_analyst.py b/src/python/pycold/ob_analyst.py
index 7cb1b7b..b543a76 100644
--- a/src/python/pycold/ob_analyst.py
+++ b/src/python/pycold/ob_analyst.py
@@ -267,7 +267,7 @@ def mode_median_by(input_array_mode, input_array_median, index_array):
     # Split input array with those start, stop ones
     split_mode = [a1_sorted[i:j] for i, j in zip(cut_idx[:-1], cut_idx[1:])]
     split_median = [a2_sorted[i:j] for i, j in zip(cut_idx[:-1], cut_idx[1:])]
-    mode_list = [stats.mode(x)[0][0] for x in split_mode]
+    mode_list = [stats.mode(x, keepdims=True)[0][0] for x in split_mode]
     median_list = [np.median(x[~np.isnan(x)]) for x in split_median]
     return mode_list, median_list
 
-- 
2.43.0


From ddba46a067028fafd2aed86f9b15507b874e48bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:41 +0000
Subject: [PATCH 20/49] fix: unlabelled pixels are not training samples of the
 last category

generate_sample_num stored the count of label 0 under index -1.
---
 src/python/pycold/pyclassifier.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/python/pycold/pyclassifier.py b/src/python/pycold/pyclassifier.py
index 010b10f..b657682 100644
--- a/src/python/pycold/pyclassifier.py
+++ b/src/python/pycold/pyclassifier.py
@@ -113,7 +113,8 @@ def generate_sample_num(label, sample_parameters):
 
     """
     unique_category, unique_counts_category = np.unique(
-        label[label <= sample_parameters["total_landcover_category"]], return_counts=True
+        label[(label >= 1) & (label <= sample_parameters["total_landcover_category"])],
+        return_counts=True,
     )
     counts_category = np.array([0] * sample_parameters["total_landcover_category"])
     for x in range(len(unique_counts_category)):
-- 
2.43.0


From 818b718368e348f47c299685c411390f7873e16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:04 +0000
Subject: [PATCH 21/49] fix: the scale factors of the second short-wave
 infrared and the thermal band were swapped

---
 src/python/pycold/imagetool/prepare_ard.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/python/pycold/imagetool/prepare_ard.py b/src/python/pycold/imagetool/prepare_ard.py
index 75ed6a1..1217640 100644
--- a/src/python/pycold/imagetool/prepare_ard.py
+++ b/src/python/pycold/imagetool/prepare_ard.py
@@ -1009,8 +1009,8 @@ def single_image_stacking(
             B3 = (10000 * (B3 * 2.75e-05 - 0.2)).astype(np.int16)
             B4 = (10000 * (B4 * 2.75e-05 - 0.2)).astype(np.int16)
             B5 = (10000 * (B5 * 2.75e-05 - 0.2)).astype(np.int16)
-            B7 = (10000 * (B7 * 2.75e-05 - 0.2)).astype(np.int16)
-            B6 = (10 * (B6 * 0.00341802 + 149)).astype(np.int16)
+            B6 = (10000 * (B6 * 2.75e-05 - 0.2)).astype(np.int16)
+            B7 = (10 * (B7 * 0.00341802 + 149)).astype(np.int16)
 
         # if path_array is not None, we will eliminate those observation that has different path with its assigned path
         if path_array is not None:  # meaning that single-path processing
@@ -1491,8 +1491,8 @@ def single_image_stacking_collection2(
         B3 = (10000 * (B3 * 2.75e-05 - 0.2)).astype(np.int16)
         B4 = (10000 * (B4 * 2.75e-05 - 0.2)).astype(np.int16)
         B5 = (10000 * (B5 * 2.75e-05 - 0.2)).astype(np.int16)
-        B7 = (10000 * (B7 * 2.75e-05 - 0.2)).astype(np.int16)
-        B6 = (10 * (B6 * 0.00341802 + 149)).astype(np.int16)
+        B6 = (10000 * (B6 * 2.75e-05 - 0.2)).astype(np.int16)
+        B7 = (10 * (B7 * 0.00341802 + 149)).astype(np.int16)
 
         if is_partition is True:
             # width of a block
-- 
2.43.0


From 73e7b02bc7398b0ac7a84f2e5d26c6cc9e5ffae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:04 +0000
Subject: [PATCH 22/49] fix: QA values with the fill bit set decode to fill
 whatever other bits are set

---
 src/python/pycold/imagetool/prepare_ard.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/python/pycold/imagetool/prepare_ard.py b/src/python/pycold/imagetool/prepare_ard.py
index 1217640..e131d7b 100644
--- a/src/python/pycold/imagetool/prepare_ard.py
+++ b/src/python/pycold/imagetool/prepare_ard.py
@@ -127,6 +127,7 @@ def qabitval_array(packedint_array: np.ndarray):
     unpacked[QA_SNOW_unpacked > 0] = QA_SNOW
     unpacked[QA_SHADOW_unpacked > 0] = QA_SHADOW
     unpacked[QA_CLOUD_unpacked > 0] = QA_CLOUD
+    unpacked[geek.bitwise_and(packedint_array, 1) > 0] = QA_FILL
     return unpacked
 
 
@@ -156,6 +157,7 @@ def qabitval_array_c2(packedint_array: np.ndarray):
     unpacked[QA_SHADOW_unpacked > 0] = QA_SHADOW
     unpacked[QA_CLOUD_unpacked > 0] = QA_CLOUD
     unpacked[QA_DILATED_unpacked > 0] = QA_CLOUD
+    unpacked[geek.bitwise_and(packedint_array, 1) > 0] = QA_FILL
 
     return unpacked
 
-- 
2.43.0


From a56d6286dc557eefa0767299bcc89ea6f78e684b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:54 +0000
Subject: [PATCH 23/49] fix: a block without an image inside the date range is
 an empty block

---
 src/python/pycold/imagetool/tile_processing.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/python/pycold/imagetool/tile_processing.py b/src/python/pycold/imagetool/tile_processing.py
index 184cd8d..1ced83a 100644
--- a/src/python/pycold/imagetool/tile_processing.py
+++ b/src/python/pycold/imagetool/tile_processing.py
@@ -238,15 +238,14 @@ def get_stack_date(
         )
         for folder_name in img_files
     ]
+    files_date = list(zip(img_dates, img_files))
     if low_datebound > 0:
-        img_dates, img_files = zip(
-            *filter(lambda x: x[0] >= low_datebound, zip(img_dates, img_files))
-        )
+        files_date = [x for x in files_date if x[0] >= low_datebound]
     if high_datebound > 0:
-        img_dates, img_files = zip(
-            *filter(lambda x: x[0] <= high_datebound, zip(img_dates, img_files))
-        )
-    files_date_zip = sorted(zip(img_dates, img_files))
+        files_date = [x for x in files_date if x[0] <= high_datebound]
+    if len(files_date) == 0:
+        return None, None
+    files_date_zip = sorted(files_date)
     img_files_sorted = [x[1] for x in files_date_zip]
     img_dates_sorted = np.asarray([x[0] for x in files_date_zip])
     img_tstack = np.dstack(
-- 
2.43.0


From 104e83536ec63eeeaaa3968f2169f457d2b74dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:54 +0000
Subject: [PATCH 24/49] fix: read_blockdata skipped Sentinel-2 images and
 failed for an empty block

---
 src/python/pycold/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/python/pycold/utils.py b/src/python/pycold/utils.py
index 486d66c..58ec580 100644
--- a/src/python/pycold/utils.py
+++ b/src/python/pycold/utils.py
@@ -318,7 +318,9 @@ def assemble_array(array_list, n_block_x):
 
 
 def read_blockdata(block_folder, total_pixels, total_bands):
-    img_files = [f for f in os.listdir(block_folder) if f.startswith("L")]
+    img_files = [f for f in os.listdir(block_folder) if f.startswith("L") or f.startswith("S")]
+    if len(img_files) == 0:
+        return None, None
 
     # sort image files by dates
     img_dates = [
-- 
2.43.0


From 36cb699b6ae6d52458d78553b0eb188732242f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:33 +0000
Subject: [PATCH 25/49] fix: stack of a block was read with the pixel count of
 the tile

---
 src/python/pycold/ob_analyst.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/python/pycold/ob_analyst.py b/src/python/pycold/ob_analyst.py
index b543a76..506309c 100644
--- a/src/python/pycold/ob_analyst.py
+++ b/src/python/pycold/ob_analyst.py
@@ -1106,7 +1106,9 @@ class ObjectAnalystHPC:
         if img_stack is None and img_dates_sorted is None:
             block_folder = join(self.stack_path, "block_x{}_y{}".format(block_x, block_y))
             img_stack, img_dates_sorted = read_blockdata(
-                block_folder, self.dataset_info.n_cols * self.dataset_info.n_rows, self.band_num + 1
+                block_folder,
+                self.dataset_info.block_width * self.dataset_info.block_height,
+                self.band_num + 1,
             )
         obia_breaks = self.get_allobiaresult_asarray(block_x, block_y)
         result_collect = []
-- 
2.43.0


From c783d15cc65f2917ee06206304b142f86f2b36b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:06 +0000
Subject: [PATCH 26/49] fix: reporting a failed pixel failed itself and ended
 the block

---
 src/python/pycold/imagetool/tile_processing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pycold/imagetool/tile_processing.py b/src/python/pycold/imagetool/tile_processing.py
index 1ced83a..4385afb 100644
--- a/src/python/pycold/imagetool/tile_processing.py
+++ b/src/python/pycold/imagetool/tile_processing.py
@@ -533,7 +533,7 @@ def main(
                             "COLD fails at original_row {}, original_col {} ({})".format(
                                 original_row,
                                 original_col,
-                                datetime.now.strftime("%Y-%m-%d %H:%M:%S"),
+                                datetime.now(TZ).strftime("%Y-%m-%d %H:%M:%S"),
                             )
                         )
                     except Exception:
-- 
2.43.0


From 5afd324a97d6c48222a7e2a1edcf68827faf3dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:49 +0000
Subject: [PATCH 27/49] fix: a failed pixel took over the change magnitudes of
 the pixel before it

---
 src/python/pycold/imagetool/tile_processing.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/python/pycold/imagetool/tile_processing.py b/src/python/pycold/imagetool/tile_processing.py
index 4385afb..40d1722 100644
--- a/src/python/pycold/imagetool/tile_processing.py
+++ b/src/python/pycold/imagetool/tile_processing.py
@@ -536,6 +536,9 @@ def main(
                                 datetime.now(TZ).strftime("%Y-%m-%d %H:%M:%S"),
                             )
                         )
+                        if method == "OBCOLD":
+                            CM = np.full(n_cm_maps, -9999, dtype=np.short)
+                            CM_date = np.full(n_cm_maps, -9999, dtype=np.short)
                     except Exception:
                         if method == "OBCOLD":
                             CM = np.full(n_cm_maps, -9999, dtype=np.short)
-- 
2.43.0


From 1e240452c49ebe1261f1308c160bc7ee5c1cd1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:49 +0000
Subject: [PATCH 28/49] fix: with fewer than 16 cores nobody assembled the
 CM_date maps and all waited for ever

---
 src/python/pycold/imagetool/tile_processing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pycold/imagetool/tile_processing.py b/src/python/pycold/imagetool/tile_processing.py
index 40d1722..cb80be5 100644
--- a/src/python/pycold/imagetool/tile_processing.py
+++ b/src/python/pycold/imagetool/tile_processing.py
@@ -635,7 +635,7 @@ def main(
                     cm_output_interval,
                     clean=False,
                 )
-            if rank == 16:
+            if rank == min(16, n_cores):
                 assemble_cmmaps(
                     dataset_info,
                     result_path,
-- 
2.43.0


From ca08bc1fc79467ed98a51333ffafa4298413720e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:49 +0000
Subject: [PATCH 29/49] fix: the reconstruction used images outside the
 requested date range

---
 src/python/pycold/imagetool/tile_processing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pycold/imagetool/tile_processing.py b/src/python/pycold/imagetool/tile_processing.py
index cb80be5..e7aa984 100644
--- a/src/python/pycold/imagetool/tile_processing.py
+++ b/src/python/pycold/imagetool/tile_processing.py
@@ -732,7 +732,7 @@ def main(
             block_y = int((block_id - 1) / dataset_info.n_block_x) + 1
             block_x = int((block_id - 1) % dataset_info.n_block_x) + 1
             img_tstack, img_dates_sorted = get_stack_date(
-                dataset_info, block_x, block_y, stack_path
+                dataset_info, block_x, block_y, stack_path, low_datebound, upper_datebound
             )
             result_collect = ob_analyst.reconstruct_reccg(
                 block_id=block_id,
-- 
2.43.0


From 4c72d0416d28e4689ab6f09c2101fee4b730b533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:23 +0000
Subject: [PATCH 30/49] fix: a block without records ended the OBCOLD workflow

---
 src/python/pycold/ob_analyst.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/python/pycold/ob_analyst.py b/src/python/pycold/ob_analyst.py
index 506309c..cd5d55f 100644
--- a/src/python/pycold/ob_analyst.py
+++ b/src/python/pycold/ob_analyst.py
@@ -1147,6 +1147,8 @@ class ObjectAnalystHPC:
         return result_collect
 
     def save_obcoldrecords(self, block_id, result_collect):
+        if not result_collect:  # no record in the block
+            return
         block_x = get_block_x(block_id, self.dataset_info.n_block_x)
         block_y = get_block_y(block_id, self.dataset_info.n_block_x)
         np.save(
-- 
2.43.0


From 20cc86abad0784be7f31e7164fd1109c671f0cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:41 +0000
Subject: [PATCH 31/49] fix: the disturbance type of a pixel's last break was
 taken from the next pixel's record, and the last break of a block was dropped

---
 src/python/pycold/imagetool/export_change_map.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/python/pycold/imagetool/export_change_map.py b/src/python/pycold/imagetool/export_change_map.py
index 662acbc..3208d59 100644
--- a/src/python/pycold/imagetool/export_change_map.py
+++ b/src/python/pycold/imagetool/export_change_map.py
@@ -197,8 +197,11 @@ def getcategory_cold(cold_plot, i_curve):
         and cold_plot[i_curve]["magnitude"][2] < -t_c
         and cold_plot[i_curve]["magnitude"][4] < -t_c
     ):
+        # only the next record of the same pixel tells about afforestation
         if (
-            cold_plot[i_curve + 1]["coefs"][3, 1] > np.abs(cold_plot[i_curve]["coefs"][3, 1])
+            i_curve + 1 < len(cold_plot)
+            and cold_plot[i_curve + 1]["pos"] == cold_plot[i_curve]["pos"]
+            and cold_plot[i_curve + 1]["coefs"][3, 1] > np.abs(cold_plot[i_curve]["coefs"][3, 1])
             and cold_plot[i_curve + 1]["coefs"][2, 1] < -np.abs(cold_plot[i_curve]["coefs"][2, 1])
             and cold_plot[i_curve + 1]["coefs"][4, 1] < -np.abs(cold_plot[i_curve]["coefs"][4, 1])
         ):
@@ -216,8 +219,11 @@ def getcategory_obcold(cold_plot, i_curve, last_dist_type):
         and cold_plot[i_curve]["magnitude"][2] < -t_c
         and cold_plot[i_curve]["magnitude"][4] < -t_c
     ):
+        # only the next record of the same pixel tells about afforestation
         if (
-            cold_plot[i_curve + 1]["coefs"][3, 1] > np.abs(cold_plot[i_curve]["coefs"][3, 1])
+            i_curve + 1 < len(cold_plot)
+            and cold_plot[i_curve + 1]["pos"] == cold_plot[i_curve]["pos"]
+            and cold_plot[i_curve + 1]["coefs"][3, 1] > np.abs(cold_plot[i_curve]["coefs"][3, 1])
             and cold_plot[i_curve + 1]["coefs"][2, 1] < -np.abs(cold_plot[i_curve]["coefs"][2, 1])
             and cold_plot[i_curve + 1]["coefs"][4, 1] < -np.abs(cold_plot[i_curve]["coefs"][4, 1])
         ):
@@ -493,11 +499,7 @@ def main(
                     current_processing_pos = curve["pos"]
                     current_dist_type = 0
 
-                if (
-                    curve["change_prob"] < 100
-                    or curve["t_break"] == 0
-                    or count == (len(cold_block) - 1)
-                ):  # last segment
+                if curve["change_prob"] < 100 or curve["t_break"] == 0:  # last segment
                     continue
 
                 i_col = (
-- 
2.43.0


From 1ef87ab002bd21e886c0dc10a0e3323e71930b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:41 +0000
Subject: [PATCH 32/49] fix: the S-CCD breaks of the last pixel of a block were
 not exported

---
 src/python/pycold/imagetool/export_change_map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pycold/imagetool/export_change_map.py b/src/python/pycold/imagetool/export_change_map.py
index 3208d59..3439c68 100644
--- a/src/python/pycold/imagetool/export_change_map.py
+++ b/src/python/pycold/imagetool/export_change_map.py
@@ -458,7 +458,7 @@ def main(
         if method == "SCCDOFFLINE":
             for count, plot in enumerate(cold_block):
                 for i_count, curve in enumerate(plot.rec_cg):
-                    if curve["t_break"] == 0 or count == (len(cold_block) - 1):  # last segment
+                    if curve["t_break"] == 0:  # last segment
                         continue
 
                     i_col = (
-- 
2.43.0


From 4245e062acede7af473b38a89ce295bf74639cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:41 +0000
Subject: [PATCH 33/49] fix: raster files of maps that are not square were
 created with rows and columns swapped

---
 src/python/pycold/imagetool/export_change_map.py | 8 ++++----
 src/python/pycold/utils.py                       | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/python/pycold/imagetool/export_change_map.py b/src/python/pycold/imagetool/export_change_map.py
index 3439c68..e5c5d6e 100644
--- a/src/python/pycold/imagetool/export_change_map.py
+++ b/src/python/pycold/imagetool/export_change_map.py
@@ -588,7 +588,7 @@ def main(
             outname = "{}_{}.tif".format(mode_string, method)
             outfile = os.path.join(out_path, outname)
             outdriver1 = gdal.GetDriverByName("GTiff")
-            outdata = outdriver1.Create(outfile, rows, cols, 1, gdal.GDT_Int16)
+            outdata = outdriver1.Create(outfile, cols, rows, 1, gdal.GDT_Int16)
             outdata.GetRasterBand(1).WriteArray(results)
             outdata.FlushCache()
             outdata.SetGeoTransform(trans)
@@ -614,7 +614,7 @@ def main(
                         outname = "{}_{}_{}_{}.tif".format(mode_string, method, band_name, coef)
                         outfile = os.path.join(out_path, outname)
                         outdriver1 = gdal.GetDriverByName("GTiff")
-                        outdata = outdriver1.Create(outfile, rows, cols, 1, gdal.GDT_Float32)
+                        outdata = outdriver1.Create(outfile, cols, rows, 1, gdal.GDT_Float32)
                         outdata.GetRasterBand(1).WriteArray(results[:, :, ninput])
                         outdata.FlushCache()
                         outdata.SetGeoTransform(trans)
@@ -639,7 +639,7 @@ def main(
         outname = "{}_{}.tif".format(mode_string, method)
         outfile = os.path.join(out_path, outname)
         outdriver1 = gdal.GetDriverByName("GTiff")
-        outdata = outdriver1.Create(outfile, rows, cols, 1, gdal.GDT_Int16)
+        outdata = outdriver1.Create(outfile, cols, rows, 1, gdal.GDT_Int16)
         outdata.GetRasterBand(1).WriteArray(recent_dist)
         outdata.FlushCache()
         outdata.SetGeoTransform(trans)
@@ -657,7 +657,7 @@ def main(
         outname = "{}_{}.tif".format(mode_string, method)
         outfile = os.path.join(out_path, outname)
         outdriver1 = gdal.GetDriverByName("GTiff")
-        outdata = outdriver1.Create(outfile, rows, cols, 1, gdal.GDT_Int16)
+        outdata = outdriver1.Create(outfile, cols, rows, 1, gdal.GDT_Int16)
         outdata.GetRasterBand(1).WriteArray(first_dist)
         outdata.FlushCache()
         outdata.SetGeoTransform(trans)
diff --git a/src/python/pycold/utils.py b/src/python/pycold/utils.py
index 58ec580..251ad1d 100644
--- a/src/python/pycold/utils.py
+++ b/src/python/pycold/utils.py
@@ -525,7 +525,7 @@ def generate_rowcolimage(ref_image_path, out_path):
     index = (i + 1) * 10000 + j + 1
 
     outdriver1 = gdal.GetDriverByName("GTiff")
-    outdata = outdriver1.Create(out_path, rows, cols, 1, gdal.GDT_Int32)
+    outdata = outdriver1.Create(out_path, cols, rows, 1, gdal.GDT_Int32)
     outdata.GetRasterBand(1).WriteArray(index)
     outdata.FlushCache()
     outdata.SetGeoTransform(trans)
-- 
2.43.0


From a648b5c0208590d10221a600479d2c24902db900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:47 +0000
Subject: [PATCH 34/49] fix: the block maps of S-CCD results were never saved,
 so their export failed

---
 .../pycold/imagetool/export_change_map.py      | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/python/pycold/imagetool/export_change_map.py b/src/python/pycold/imagetool/export_change_map.py
index e5c5d6e..b2ea215 100644
--- a/src/python/pycold/imagetool/export_change_map.py
+++ b/src/python/pycold/imagetool/export_change_map.py
@@ -558,15 +558,15 @@ def main(
                                 :
                             ] = feature_row[index]
 
-            # save the temp dataset out
-            for year in range(year_lowbound, year_uppbound + 1):
-                outfile = os.path.join(out_path, "tmp_map_block{}_{}.npy".format(iblock + 1, year))
-                np.save(outfile, results_block[year - year_lowbound])
-                if coefs is not None:
-                    outfile = os.path.join(
-                        out_path, "tmp_coefmap_block{}_{}.npy".format(iblock + 1, year)
-                    )
-                    np.save(outfile, results_block_coefs[:, :, :, year - year_lowbound])
+        # save the temp dataset out
+        for year in range(year_lowbound, year_uppbound + 1):
+            outfile = os.path.join(out_path, "tmp_map_block{}_{}.npy".format(iblock + 1, year))
+            np.save(outfile, results_block[year - year_lowbound])
+            if coefs is not None:
+                outfile = os.path.join(
+                    out_path, "tmp_coefmap_block{}_{}.npy".format(iblock + 1, year)
+                )
+                np.save(outfile, results_block_coefs[:, :, :, year - year_lowbound])
 
     # wait for all processes
     comm.Barrier()
-- 
2.43.0


From e3473eee9416cc4a899227425cb699efe2e66b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:47 +0000
Subject: [PATCH 35/49] fix: exporting coefficients failed when the record file
 of a block is missing

---
 src/python/pycold/imagetool/export_change_map.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/python/pycold/imagetool/export_change_map.py b/src/python/pycold/imagetool/export_change_map.py
index b2ea215..52e453f 100644
--- a/src/python/pycold/imagetool/export_change_map.py
+++ b/src/python/pycold/imagetool/export_change_map.py
@@ -436,6 +436,11 @@ def main(
             for year in range(year_lowbound, year_uppbound + 1):
                 outfile = os.path.join(out_path, "tmp_map_block{}_{}.npy".format(iblock + 1, year))
                 np.save(outfile, results_block[year - year_lowbound])
+                if coefs is not None:
+                    outfile = os.path.join(
+                        out_path, "tmp_coefmap_block{}_{}.npy".format(iblock + 1, year)
+                    )
+                    np.save(outfile, results_block_coefs[:, :, :, year - year_lowbound])
             continue
         if method == "SCCDOFFLINE":
             file = open(os.path.join(reccg_path, filename), "rb")
-- 
2.43.0


From d1b280aed06bcf1037a7d94cf26fc91e55dac126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:45 +0000
Subject: [PATCH 36/49] fix: the export could not read S-CCD results that carry
 a near-real-time model

---
 src/python/pycold/imagetool/export_change_map.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/python/pycold/imagetool/export_change_map.py b/src/python/pycold/imagetool/export_change_map.py
index 52e453f..2436744 100644
--- a/src/python/pycold/imagetool/export_change_map.py
+++ b/src/python/pycold/imagetool/export_change_map.py
@@ -32,14 +32,15 @@ output_nrtmodel = np.dtype(
     [
         ("t_start_since1982", np.short),
         ("num_obs", np.short),
-        ("obs", np.short, (6, 5)),
-        ("obs_date_since1982", np.short, 5),
+        ("obs", np.short, (6, 8)),
+        ("obs_date_since1982", np.short, 8),
         ("covariance", np.float32, (6, 36)),
-        ("nrt_coefPs", np.float32, (6, 6)),
+        ("nrt_coefs", np.float32, (6, 6)),
         ("H", np.float32, 6),
         ("rmse_sum", np.uint32, 6),
-        ("cm_outputs", np.short),
-        ("cm_outputs_date", np.short),
+        ("norm_cm", np.short),
+        ("cm_angle", np.short),
+        ("conse_last", np.ubyte),
     ],
     align=True,
 )
-- 
2.43.0


From 67258cfc95906a8beb1362870ee73c4208092441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:04 +0000
Subject: [PATCH 37/49] fix: identifying disturbances failed for states without
 a model (void and queue mode)

---
 src/python/pycold/colds.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/python/pycold/colds.py b/src/python/pycold/colds.py
index 14bdd61..d6f5e48 100644
--- a/src/python/pycold/colds.py
+++ b/src/python/pycold/colds.py
@@ -504,7 +504,9 @@ def sccd_identify(
         transform_mode=transform_mode,
     )
     if (
-        sccd_pack.nrt_mode == defaults["SCCD"]["NRT_MONITOR_SNOW"]
+        sccd_pack.nrt_mode == defaults["SCCD"]["NRT_VOID"]
+        or sccd_pack.nrt_mode == defaults["SCCD"]["NRT_QUEUE_STANDARD"]
+        or sccd_pack.nrt_mode == defaults["SCCD"]["NRT_MONITOR_SNOW"]
         or sccd_pack.nrt_mode == defaults["SCCD"]["NRT_QUEUE_SNOW"]
         or int(sccd_pack.nrt_mode / 10) == 1
     ):
-- 
2.43.0


From 54d79d62679d1f96e08b3b0e4c3d2aa5f1787d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:51 +0000
Subject: [PATCH 38/49] fix: change-magnitude layers that do not cover the
 series were written outside their arrays

---
 src/python/pycold/colds.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/python/pycold/colds.py b/src/python/pycold/colds.py
index d6f5e48..89fc386 100644
--- a/src/python/pycold/colds.py
+++ b/src/python/pycold/colds.py
@@ -238,6 +238,21 @@ def cold_detect(
         dates, ts_b, ts_g, ts_r, ts_n, ts_s1, ts_s2, ts_t, qas
     )
 
+    if b_output_cm and len(dates) > 0:
+        # the layers are filled by date, so they have to cover all dates of the series
+        interval = 60 if cm_output_interval == 0 else cm_output_interval
+        start = dates[0] if starting_date == 0 else starting_date
+        if interval < 0:
+            raise ValueError("cm_output_interval must not be negative. Got {}".format(interval))
+        if start > dates.min():
+            raise ValueError(
+                "starting_date ({}) must not be later than the first date of the series".format(start)
+            )
+        if n_cm != 0 and n_cm <= (dates.max() - start) // interval:
+            raise ValueError(
+                "n_cm ({}) is too small for the date range of the series".format(n_cm)
+            )
+
     return _cold_detect(
         dates,
         ts_b,
-- 
2.43.0


From 49c879df29716491070ef09a6ce77f1dd8d2437a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:09 +0000
Subject: [PATCH 39/49] fix: return the same structure for a pixel in void mode
 when pinpoint is requested

---
 src/python/pycold/_colds_cython.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pycold/_colds_cython.pyx b/src/python/pycold/_colds_cython.pyx
index 1add35a..90cd534 100644
--- a/src/python/pycold/_colds_cython.pyx
+++ b/src/python/pycold/_colds_cython.pyx
@@ -407,7 +407,7 @@ cpdef _sccd_detect(np.ndarray[np.int64_t, ndim=1, mode='c'] dates,
                                    SccdReccgPinpoint(pos, output_rec_cg_pinpoint)]
             elif nrt_mode == 0:  # void mode
                 return [SccdOutput(pos, np.array([]), min_rmse, nrt_mode, np.array([]),
-                                   np.array([])), output_rec_cg_pinpoint]
+                                   np.array([])), SccdReccgPinpoint(pos, output_rec_cg_pinpoint)]
             else:
                 raise RuntimeError("No correct nrt_mode (mode={}) returned for pos = {} ".format(nrt_mode, pos))
 
-- 
2.43.0


From 3f6931a34c4b72e52c2764d471c764c59d39eee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:04 +0000
Subject: [PATCH 40/49] fix: sccd_update no longer changes the caller's
 min_rmse

---
 src/python/pycold/_colds_cython.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pycold/_colds_cython.pyx b/src/python/pycold/_colds_cython.pyx
index 90cd534..17fb016 100644
--- a/src/python/pycold/_colds_cython.pyx
+++ b/src/python/pycold/_colds_cython.pyx
@@ -484,7 +484,7 @@ cpdef _sccd_update(sccd_pack,
     else:
         nrt_model_new = np.empty(1, dtype=nrtmodel_dt)
 
-    min_rmse = sccd_pack.min_rmse
+    min_rmse = sccd_pack.min_rmse.copy()  # sccd() writes to it
 
     # memory view
     cdef Output_sccd [:] rec_cg_view = rec_cg_new
-- 
2.43.0


From 35a766c7d374efe391b2a8e82a077e4cd3142f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:36 +0000
Subject: [PATCH 41/49] fix: updating a monitored pixel took the unused slots
 of its model for observations of 1982

---
 src/cxx/s_ccd.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cxx/s_ccd.c b/src/cxx/s_ccd.c
index 82fd1f0..11064a2 100644
--- a/src/cxx/s_ccd.c
+++ b/src/cxx/s_ccd.c
@@ -167,6 +167,9 @@ int sccd(
         //  if monitor mode, will append output_nrtmodel default conse-1 obs
         for (k = 0; k < DEFAULT_CONSE_SCCD; k++)
         {
+            // slots beyond the conse of the model are unused and kept zero
+            if (nrt_model->obs_date_since1982[k] == 0)
+                break;
             for (i_b = 0; i_b < TOTAL_IMAGE_BANDS_SCCD; i_b++)
             {
                 clry[i_b][k] = nrt_model->obs[i_b][k];
-- 
2.43.0


From fcd09f913c72bed93e7893dbd1dcecefea7ce2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:56 +0000
Subject: [PATCH 42/49] fix: a truncated observation queue dropped the newest
 observation

---
 src/cxx/s_ccd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxx/s_ccd.c b/src/cxx/s_ccd.c
index 11064a2..ef871c4 100644
--- a/src/cxx/s_ccd.c
+++ b/src/cxx/s_ccd.c
@@ -2509,7 +2509,7 @@ int step3_processing_end(
         *num_obs_queue = *n_clr - prev_i_break;
         if (*num_obs_queue > MAX_OBS_QUEUE)
         {
-            istart_queue = *n_clr - 1 - MAX_OBS_QUEUE;
+            istart_queue = *n_clr - MAX_OBS_QUEUE;
             *num_obs_queue = MAX_OBS_QUEUE;
         }
         else
-- 
2.43.0


From 0248c821d0367db918458f1a8fba584226050d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:56 +0000
Subject: [PATCH 43/49] fix: the start-up segment of S-CCD read observations
 before the start of the series

---
 src/cxx/s_ccd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxx/s_ccd.c b/src/cxx/s_ccd.c
index ef871c4..8328894 100644
--- a/src/cxx/s_ccd.c
+++ b/src/cxx/s_ccd.c
@@ -1347,7 +1347,7 @@ int step1_cold_initialize(
             }
         }
 
-        ini_conse = conse;
+        ini_conse = min(conse, *i_start - *i_dense);
 
         v_dif_magg = (float **)allocate_2d_array(TOTAL_IMAGE_BANDS_SCCD,
                                                  ini_conse, sizeof(float));
-- 
2.43.0


From bbe2b4cb7e17033b5848281d6ffe539dd99a1585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:17 +0000
Subject: [PATCH 44/49] fix: pinpoint snapshots read past the end of the series

---
 src/cxx/s_ccd.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cxx/s_ccd.c b/src/cxx/s_ccd.c
index 8328894..008d43e 100644
--- a/src/cxx/s_ccd.c
+++ b/src/cxx/s_ccd.c
@@ -1882,9 +1882,9 @@ int step2_KF_ChangeDetection(
                     {
                         for (i_b = 0; i_b < TOTAL_IMAGE_BANDS_SCCD; i_b++)
                         {
-                            rec_cg_pinpoint[current_pinpoint].obs[i_b][k] = (short int)clry[i_b][cur_i + k];
+                            rec_cg_pinpoint[current_pinpoint].obs[i_b][k] = cur_i + k < *n_clr ? (short int)clry[i_b][cur_i + k] : 0;
                         }
-                        rec_cg_pinpoint[current_pinpoint].obs_date_since1982[k] = (short int)(clrx[cur_i + k] - ORDINAL_LANDSAT4_LAUNCH);
+                        rec_cg_pinpoint[current_pinpoint].obs_date_since1982[k] = cur_i + k < *n_clr ? (short int)(clrx[cur_i + k] - ORDINAL_LANDSAT4_LAUNCH) : 0;
                     }
                     for (i_b = 0; i_b < TOTAL_IMAGE_BANDS_SCCD; i_b++)
                     {
-- 
2.43.0


From ce13b751f06edd49d0ea4602e6c8514107684ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:17 +0000
Subject: [PATCH 45/49] fix: an update that trains the model of a just-broken
 pixel left the pixel in queue mode

---
 src/cxx/s_ccd.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cxx/s_ccd.c b/src/cxx/s_ccd.c
index 008d43e..a3cb240 100644
--- a/src/cxx/s_ccd.c
+++ b/src/cxx/s_ccd.c
@@ -3028,7 +3028,9 @@ int sccd_standard(
             }
             else if (*nrt_mode % 10 == NRT_MONITOR2QUEUE)
             {
-                if (clrx[n_clr - conse] - nrt_model->obs_date_since1982[0] - ORDINAL_LANDSAT4_LAUNCH < STATUS_DELEY_DAYS)
+                if (bl_train == 1)
+                    new_mode = NRT_MONITOR_STANDARD;
+                else if (clrx[n_clr - conse] - nrt_model->obs_date_since1982[0] - ORDINAL_LANDSAT4_LAUNCH < STATUS_DELEY_DAYS)
                 {
                     prev_i_break = 0;
                 }
-- 
2.43.0


From 96d0f6fd0f8d5ad305250991ce4a4190f0b75121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:17 +0000
Subject: [PATCH 46/49] fix: the observations a snow model keeps were filtered
 twice

---
 src/cxx/s_ccd.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cxx/s_ccd.c b/src/cxx/s_ccd.c
index a3cb240..b73a066 100644
--- a/src/cxx/s_ccd.c
+++ b/src/cxx/s_ccd.c
@@ -3271,13 +3271,14 @@ int sccd_snow(
             /*  initialize a and p                                        */
             /*                                                            */
             /**************************************************************/
-            step1_ssm_initialize(&instance[i_b], clrx, clry[i_b], i_start, n_clr - 1,
+            // the last DEFAULT_CONSE_SCCD observations are kept for the next update
+            step1_ssm_initialize(&instance[i_b], clrx, clry[i_b], i_start, n_clr - DEFAULT_CONSE_SCCD - 1,
                                  fit_cft, cov_p[i_b], i_b, &sum_square_vt[i_b], n_clr);
             nrt_model[0].H[i_b] = instance[i_b].H;
         }
 
         nrt_model[0].t_start_since1982 = (short int)(clrx[0] - ORDINAL_LANDSAT4_LAUNCH);
-        nrt_model[0].num_obs = n_clr;
+        nrt_model[0].num_obs = n_clr - DEFAULT_CONSE_SCCD;
 
         *nrt_status = NRT_MONITOR_SNOW;
     }
-- 
2.43.0


From ae58c278e4eea403a5dab2a5fd5ae8007dc6b8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:17 +0000
Subject: [PATCH 47/49] fix: S-CCD accepted a conse its model has no room for

---
 src/cxx/s_ccd.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cxx/s_ccd.c b/src/cxx/s_ccd.c
index b73a066..b0dcfca 100644
--- a/src/cxx/s_ccd.c
+++ b/src/cxx/s_ccd.c
@@ -95,6 +95,11 @@ int sccd(
         RETURN_ERROR("Invalid nrt_mode", FUNC_NAME, ERROR);
     }
 
+    if (conse > DEFAULT_CONSE_SCCD)
+    {
+        RETURN_ERROR("conse exceeds the observations a model can keep", FUNC_NAME, ERROR);
+    }
+
     // mode update condition 1: replace NRT_MONITOR2QUEUE with NRT_QUEUE_STANDARD as input
     // if (*nrt_mode % 10 == NRT_MONITOR2QUEUE)
     //     *nrt_mode = 10 + NRT_QUEUE_STANDARD;
-- 
2.43.0


From e2168ae701352a0afbbb09df1bd965dd5e9aa007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:17 +0000
Subject: [PATCH 48/49] fix: more S-CCD breaks than the result arrays hold were
 written past them

---
 src/cxx/s_ccd.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/cxx/s_ccd.c b/src/cxx/s_ccd.c
index b0dcfca..b77d64a 100644
--- a/src/cxx/s_ccd.c
+++ b/src/cxx/s_ccd.c
@@ -1846,7 +1846,7 @@ int step2_KF_ChangeDetection(
                 current_pinpoint = *num_fc_pinpoint - 1;
             }
 
-            if (break_mag > CM_outputs[current_CM_n])
+            if ((break_mag > CM_outputs[current_CM_n]) && (current_pinpoint < NUM_FC))
             // if ((*num_fc_pinpoint == 0) | (clrx[cur_i] - rec_cg_pinpoint[*num_fc_pinpoint - 1].t_break > AVE_DAYS_IN_A_YEAR))// must has a gap of 1 year with the last pinpoint break
             {
                 for (conse_last = 1; conse_last <= conse; conse_last++)
@@ -1969,6 +1969,11 @@ int step2_KF_ChangeDetection(
         }
     }
 
+    if ((change_flag == TRUE) && (*num_curve >= NUM_FC))
+    {
+        RETURN_ERROR("No room for another break", FUNC_NAME, ERROR);
+    }
+
     if (change_flag == TRUE)
     {
         tmp = (mean_angle * 100);
@@ -2862,6 +2867,10 @@ int sccd_standard(
                                               cov_p, fit_cft, rec_cg, sum_square_vt, &num_obs_processed,
                                               t_start, b_pinpoint, rec_cg_pinpoint, num_fc_pinpoint, gate_tcg,
                                               &norm_cm_scale100, &cm_angle_scale100, CM_outputs, T_MAX_CG_SCCD);
+            if (status == ERROR)
+            {
+                RETURN_ERROR("Calling step2_KF_ChangeDetection\n", FUNC_NAME, ERROR);
+            }
 
             if (status == CHANGEDETECTED)
             {
-- 
2.43.0


From 8cad0ec6aa5892547faaea53ede4263e00f73f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:18 +0000
Subject: [PATCH 49/49] fix: an update that finds a break and trains the next
 model left the pixel in queue mode

---
 src/cxx/s_ccd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cxx/s_ccd.c b/src/cxx/s_ccd.c
index b77d64a..beadf65 100644
--- a/src/cxx/s_ccd.c
+++ b/src/cxx/s_ccd.c
@@ -3028,7 +3028,7 @@ int sccd_standard(
         {
             if (*nrt_mode / 10 == 1)
             { // the change has been detected previously, so predictability is not been confirmed
-                new_mode = NRT_QUEUE_STANDARD + 10;
+                new_mode = bl_train == 1 ? NRT_MONITOR_STANDARD : NRT_QUEUE_STANDARD + 10;
             }
             else
                 new_mode = NRT_MONITOR2QUEUE; // NRT_MONITOR2QUEU always has firm predictability
-- 
2.43.0

