From fb6bc0d251d14414c7b52a62e4d8abe1dd23ee63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:48 +0000
Subject: [PATCH 01/78] fix: read particle links of any width from linkage and
 prio files

The indices were read with %4d, which splits numbers of more than four
digits although up to 20000 particles per frame are supported and
written.
---
 liboptv/src/tracking_frame_buf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/liboptv/src/tracking_frame_buf.c b/liboptv/src/tracking_frame_buf.c
index a75b4c6..d5b9d7c 100644
--- a/liboptv/src/tracking_frame_buf.c
+++ b/liboptv/src/tracking_frame_buf.c
@@ -280,7 +280,7 @@ int read_path_frame(corres *cor_buf, P *path_buf, \
     targets = 0;
     do {
         if (linkagein != NULL) {
-            read_res = fscanf(linkagein, "%4d %4d %lf %lf %lf\n",
+            read_res = fscanf(linkagein, "%d %d %lf %lf %lf\n",
 	            &(path_buf->prev), &(path_buf->next), &discard, &discard, &discard);
             if (!read_res) {
                 printf("Error with linkage file format in: %s.%d\n",
@@ -295,7 +295,7 @@ int read_path_frame(corres *cor_buf, P *path_buf, \
         }
         
         if (prioin != NULL) {
-            read_res = fscanf( prioin, "%4d %4d %lf %lf %lf %d\n",
+            read_res = fscanf( prioin, "%d %d %lf %lf %lf %d\n",
                 &read_res, &read_res, &discard, &discard, &discard,
                 &(path_buf->prio) );
             if (!read_res) {
-- 
2.43.0


From e1143ec2c3a2b0b00d0c087ddd7cd26254e363c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:13 +0000
Subject: [PATCH 02/78] fix: report cut-short target, linkage and prio files as
 errors

Only a scan count of 0 was treated as a format error; at end of file fscanf
returns EOF, so a truncated file yielded stale or uninitialised records.
---
 liboptv/src/tracking_frame_buf.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/liboptv/src/tracking_frame_buf.c b/liboptv/src/tracking_frame_buf.c
index d5b9d7c..4732ff3 100644
--- a/liboptv/src/tracking_frame_buf.c
+++ b/liboptv/src/tracking_frame_buf.c
@@ -59,7 +59,7 @@ int read_targets(target buffer[], char* file_base, int frame_num) {
         goto handle_error;
     }
 
-    if (fscanf(FILEIN, "%d\n", &num_targets) == 0) {
+    if (fscanf(FILEIN, "%d\n", &num_targets) != 1) {
         printf("Bad format for file: %s\n", filein);
         goto handle_error;
     }
@@ -70,7 +70,7 @@ int read_targets(target buffer[], char* file_base, int frame_num) {
 		  &(buffer[tix].nx),   &(buffer[tix].ny),
 		  &(buffer[tix].sumg), &(buffer[tix].tnr) );
       
-      if (scanf_ok == 0) {
+      if (scanf_ok != 8) {
         printf("Bad format for file: %s\n", filein);
         goto handle_error;
       }
@@ -282,7 +282,7 @@ int read_path_frame(corres *cor_buf, P *path_buf, \
         if (linkagein != NULL) {
             read_res = fscanf(linkagein, "%d %d %lf %lf %lf\n",
 	            &(path_buf->prev), &(path_buf->next), &discard, &discard, &discard);
-            if (!read_res) {
+            if (read_res != 5) {
                 printf("Error with linkage file format in: %s.%d\n",
                     linkage_file_base, frame_num);
                 targets = -1;
@@ -298,7 +298,7 @@ int read_path_frame(corres *cor_buf, P *path_buf, \
             read_res = fscanf( prioin, "%d %d %lf %lf %lf %d\n",
                 &read_res, &read_res, &discard, &discard, &discard,
                 &(path_buf->prio) );
-            if (!read_res) {
+            if (read_res != 6) {
                 printf("Error with linkage file format in: %s.%d\n",
                     linkage_file_base, frame_num);
                 targets = -1;
-- 
2.43.0


From b0ed42325f854937bb24eacca99320d257f38251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:22 +0000
Subject: [PATCH 03/78] fix: name target files of non-positive frame numbers
 the same way when writing

read_targets() and both functions' documentation take a frame number of 0 or
less to mean a file name without number; write_targets() did so only for 0.
---
 liboptv/src/tracking_frame_buf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/liboptv/src/tracking_frame_buf.c b/liboptv/src/tracking_frame_buf.c
index 4732ff3..a868ae4 100644
--- a/liboptv/src/tracking_frame_buf.c
+++ b/liboptv/src/tracking_frame_buf.c
@@ -106,7 +106,7 @@ int write_targets(target buffer[], int num_targets, char* file_base, \
     int	tix, printf_ok, success = 0;
     char fileout[STR_MAX_LEN + 1];
     
-    if (frame_num == 0){
+    if (frame_num <= 0){
         sprintf(fileout, "%s%s", file_base, "_targets");
     } else {
         sprintf(fileout, "%s%04d%s", file_base, frame_num, "_targets");
-- 
2.43.0


From 412216dfe8d4601ae49539c5bbb84d3b26382df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:22 +0000
Subject: [PATCH 04/78] fix: sorting an empty target or coordinate list reads
 outside it

---
 liboptv/src/correspondences.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/liboptv/src/correspondences.c b/liboptv/src/correspondences.c
index 2b9e764..3dc0db9 100644
--- a/liboptv/src/correspondences.c
+++ b/liboptv/src/correspondences.c
@@ -71,7 +71,7 @@ void qs_con (n_tupel *con, int left, int right){
 */
 
 void quicksort_target_y (target *pix, int num) {
-  qs_target_y (pix, 0, num-1);
+  if (num > 0) qs_target_y (pix, 0, num-1);
 }
 
 /* qs_target_y() uses quicksort algorithm to 
@@ -118,7 +118,7 @@ void qs_target_y (target *pix, int left, int right){
    integer num equal to the length of the array pix
 */
 void quicksort_coord2d_x (coord_2d *crd, int num) {
-	qs_coord2d_x (crd, 0, num-1);
+	if (num > 0) qs_coord2d_x (crd, 0, num-1);
 }
 
 void qs_coord2d_x (coord_2d	*crd, int left, int right){
-- 
2.43.0


From 860a9a08a4962973f9529a61a0dbe8f83dddc82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:57 +0000
Subject: [PATCH 05/78] fix: candidate search drops a target exactly as far
 away as a nearer one already found

---
 liboptv/src/track.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/liboptv/src/track.c b/liboptv/src/track.c
index b439874..23f7419 100644
--- a/liboptv/src/track.c
+++ b/liboptv/src/track.c
@@ -275,15 +275,15 @@ int candsearch_in_pix (target next[], int num_targets, double cent_x, double cen
                             p4 = p3; p3 = p2; p2 = p1; p1 = j;
                             d4 = d3; d3 = d2; d2 = d1; d1 = d;
                         }
-                        else if ( d1 < d &&  d < d2 ) {
+                        else if ( d < d2 ) {
                             p4 = p3; p3 = p2; p2 = j;
                             d4 = d3; d3 = d2; d2 = d;
                         }
-                        else if ( d2 < d && d < d3 ) {
+                        else if ( d < d3 ) {
                             p4 = p3; p3 = j;
                             d4 = d3; d3 = d;
                         }
-                        else if ( d3 < d && d < d4 ) {
+                        else if ( d < d4 ) {
                             p4 = j;
                             d4 = d;
                         }
-- 
2.43.0


From b761cb481cca7dabd3a809158c8bf585694db445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:21 +0000
Subject: [PATCH 06/78] fix: candidate search can start past the first targets
 of its window in long lists

---
 liboptv/src/track.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/liboptv/src/track.c b/liboptv/src/track.c
index 23f7419..7227688 100644
--- a/liboptv/src/track.c
+++ b/liboptv/src/track.c
@@ -259,6 +259,7 @@ int candsearch_in_pix (target next[], int num_targets, double cent_x, double cen
             }
 
             j0 -= 12;  if (j0 < 0) j0 = 0;             /* due to trunc */
+            while (j0 > 0 && next[j0 - 1].y > ymin) j0--;
             for (j = j0; j<num_targets; j++) {           /* candidate search */
                 if (next[j].tnr != TR_UNUSED ) {
                     if (next[j].y > ymax ) break;                     /* finish search */
@@ -348,6 +349,7 @@ int candsearch_in_pix_rest (target next[], int num_targets, double cent_x, doubl
             }	
 
             j0 -= 12;  if (j0 < 0) j0 = 0;             /* due to trunc */	
+            while (j0 > 0 && next[j0 - 1].y > ymin) j0--;
             for (j = j0; j<num_targets; j++) {           /* candidate search */	
                 if (next[j].tnr == TR_UNUSED ) {	
                     if (next[j].y > ymax ) break;                     /* finish search */	
-- 
2.43.0


From c26136bc9328b4dd514b6b9cd418ccf3ec40cbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:55 +0000
Subject: [PATCH 07/78] fix: epipolar candidate search can start past the first
 points of its band in long lists

---
 liboptv/src/epi.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/liboptv/src/epi.c b/liboptv/src/epi.c
index f14ceef..77d98e1 100644
--- a/liboptv/src/epi.c
+++ b/liboptv/src/epi.c
@@ -180,6 +180,7 @@ int find_candidate (coord_2d *crd, target *pix, int num,
   /* due to truncation error we might shift to smaller x */
   j0 -= 12;  
   if (j0 < 0)  j0 = 0; 
+  while (j0 > 0 && crd[j0 - 1].x > xa - tol_band_width) j0--;
 
   for (j = j0; j < num; j++) {  /* candidate search */
       	
-- 
2.43.0


From 1d12fbccd9bedeb1fad4b9cfc5e1bd9f01ce2904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:43 +0000
Subject: [PATCH 08/78] fix: correspondences() binding allocates and reads all
 four match counts

---
 py_bind/optv/correspondences.pyx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/py_bind/optv/correspondences.pyx b/py_bind/optv/correspondences.pyx
index 1b14fc3..54108c9 100644
--- a/py_bind/optv/correspondences.pyx
+++ b/py_bind/optv/correspondences.pyx
@@ -164,7 +164,8 @@ def correspondences(list img_pts, list flat_coords, list cals,
         np.ndarray[ndim=3, dtype=np.float64_t] clique_targs
         
         # Return buffers:
-        int *match_counts = <int *> malloc(num_cams * sizeof(int))
+        # corresp() always fills 4 counts: quads, triplets, pairs, total.
+        int *match_counts = <int *> malloc(4 * sizeof(int))
         n_tupel *corresp_buf
     
     # Initialize frame partially, without the extra momory used by init_frame.
@@ -214,7 +215,7 @@ def correspondences(list img_pts, list flat_coords, list cals,
         sorted_corresp[clique_type] = clique_ids
     
     # Clean up.
-    num_targs = match_counts[num_cams - 1]
+    num_targs = match_counts[3]
     free(frm.targets)
     free(frm.num_targets)
     free(calib)
-- 
2.43.0


From c44fd0319e47eeafc53f401168bd110d39e64556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:43 +0000
Subject: [PATCH 09/78] fix: single-camera correspondences return the target's
 y, and do not leak

---
 py_bind/optv/correspondences.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py_bind/optv/correspondences.pyx b/py_bind/optv/correspondences.pyx
index 54108c9..6bfad42 100644
--- a/py_bind/optv/correspondences.pyx
+++ b/py_bind/optv/correspondences.pyx
@@ -251,7 +251,7 @@ def single_cam_correspondence(list img_pts, list flat_coords, list cals):
     """
     cdef: 
         int pt, num_points
-        coord_2d *corrected = <coord_2d *> malloc(sizeof(coord_2d *))
+        coord_2d *corrected
     
     corrected = (<MatchedCoords>flat_coords[0]).buf
 
@@ -277,7 +277,7 @@ def single_cam_correspondence(list img_pts, list flat_coords, list cals):
         if p1 > -1:
             targ = img_pts[0][p1]
             clique_targs[0, pt, 0] = (<Target> targ)._targ.x
-            clique_targs[0, pt, 1] = (<Target> targ)._targ.x
+            clique_targs[0, pt, 1] = (<Target> targ)._targ.y
             # we also update the tnr, see docstring of correspondences
             (<Target> targ)._targ.tnr = pt
 
-- 
2.43.0


From def86348f9ef122aeea1fff855aa1350ee70f3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:43 +0000
Subject: [PATCH 10/78] fix: targ_rec overflows its waiting list on targets
 with a wide growth front

---
 liboptv/src/segmentation.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/liboptv/src/segmentation.c b/liboptv/src/segmentation.c
index fbe6e9d..ea30a26 100644
--- a/liboptv/src/segmentation.c
+++ b/liboptv/src/segmentation.c
@@ -55,7 +55,7 @@ int targ_rec (unsigned char *img, target_par *targ_par, int xmin,
 
     register unsigned char    gv, gvref;
 
-    targpix waitlist[2048];
+    targpix *waitlist; /* pixels whose neighbours still have to be tested */
 
     /* avoid many dereferences */
     int imx, imy;
@@ -71,6 +71,9 @@ int targ_rec (unsigned char *img, target_par *targ_par, int xmin,
     img0 = (unsigned char *) calloc (imx*imy, 1);
     memcpy(img0, img, imx*imy);
 
+    /* a pixel is put on the waiting list at most once */
+    waitlist = (targpix *) malloc((imx*imy + 1) * sizeof(targpix));
+
     // printf("in segmentation.c memcpy succeded\n");
 
     /* Make sure the min/max coordinates don't cause us to access memory
@@ -199,6 +202,7 @@ int targ_rec (unsigned char *img, target_par *targ_par, int xmin,
               }
           } /*  end of if-loop  */
     }
+    free(waitlist);
     free(img0);
     /* protect pix from zero memory */
     if (n_targets < 1){
-- 
2.43.0


From 2939ec91e9bd877bd706edb5da9cc6ac8ebbe64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:43 +0000
Subject: [PATCH 11/78] fix: target_recognition() rejects subranges and
 misreads non-contiguous images

---
 py_bind/optv/segmentation.pyx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/py_bind/optv/segmentation.pyx b/py_bind/optv/segmentation.pyx
index d40dff9..1551930 100644
--- a/py_bind/optv/segmentation.pyx
+++ b/py_bind/optv/segmentation.pyx
@@ -68,11 +68,15 @@ def target_recognition(np.ndarray[np.uint8_t, ndim=2] img, TargetParams tpar, in
     else:
         ymin, ymax = subrange_y
     
-    if img.shape[0] != ymax or img.shape[1] != xmax:
+    if img.shape[0] != cparam._control_par[0].imy \
+        or img.shape[1] != cparam._control_par[0].imx:
         raise ValueError("dimensions are not correct")
 
     assert img.dtype == DTYPE
 
+    # The C code assumes one row directly after the other.
+    img = np.ascontiguousarray(img)
+
     # The core liboptv call:
     num_targs = targ_rec(<unsigned char *>img.data, tpar._targ_par, 
         xmin, xmax, ymin, ymax, cparam._control_par, cam, targs)
-- 
2.43.0


From 37946819e3ac1c6065ba6b0e9cdb1fe4fa157007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:43 +0000
Subject: [PATCH 12/78] fix: filter_3 wraps negative filter results around to
 maximal brightness

---
 liboptv/src/image_processing.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/liboptv/src/image_processing.c b/liboptv/src/image_processing.c
index e58fed0..0347c41 100644
--- a/liboptv/src/image_processing.c
+++ b/liboptv/src/image_processing.c
@@ -51,7 +51,7 @@ int filter_3(unsigned char *img, unsigned char *img_lp, filter_t filt,
         *ptr7, *ptr8, *ptr9;
 	int end;
 	double sum = 0;
-	unsigned short buf;
+	int buf;
 	register int i, j;
     int image_size = cpar->imx * cpar->imy;
 
-- 
2.43.0


From c310bf6f46cf4ae6af1c3e59be3ac73bcffba5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:43 +0000
Subject: [PATCH 13/78] fix: prepare_image filters in place, mixing filtered
 and unfiltered pixels

---
 liboptv/src/image_processing.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/liboptv/src/image_processing.c b/liboptv/src/image_processing.c
index 0347c41..8ff4786 100644
--- a/liboptv/src/image_processing.c
+++ b/liboptv/src/image_processing.c
@@ -396,7 +396,11 @@ int prepare_image(unsigned char  *img, unsigned char  *img_hp, int dim_lp,
   /* filter highpass image, if wanted */
   switch (filter_hp) {
     case 0: break;
-    case 1: lowpass_3 (img_hp, img_hp, cpar);   break;
+    case 1:
+        /* the filters can't work in place */
+        copy_images (img_hp, img_lp, cpar);
+        lowpass_3 (img_lp, img_hp, cpar);
+        break;
     case 2:
         /* read filter elements from parameter file */
         fp = fopen (filter_file, "r");
@@ -408,7 +412,8 @@ int prepare_image(unsigned char  *img, unsigned char  *img_hp, int dim_lp,
         }
         fclose (fp);
 
-        filter_3 (img_hp, img_hp, filt, cpar);
+        copy_images (img_hp, img_lp, cpar);
+        filter_3 (img_lp, img_hp, filt, cpar);
         break;
   }
   
-- 
2.43.0


From 142cd9e208411865d17f7f1e352ec7aed0c818f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:43 +0000
Subject: [PATCH 14/78] fix: prepare_image crashes on a missing filter file and
 accepts one cut short

---
 liboptv/src/image_processing.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/liboptv/src/image_processing.c b/liboptv/src/image_processing.c
index 8ff4786..df650e6 100644
--- a/liboptv/src/image_processing.c
+++ b/liboptv/src/image_processing.c
@@ -404,9 +404,14 @@ int prepare_image(unsigned char  *img, unsigned char  *img_hp, int dim_lp,
     case 2:
         /* read filter elements from parameter file */
         fp = fopen (filter_file, "r");
+        if (fp == NULL) {
+            free (img_lp);
+            return 0;
+        }
         for (i = 0; i < 9; i++) {
-            if (fscanf(fp, "%lf", (double *)filt + i) == 0) {
+            if (fscanf(fp, "%lf", (double *)filt + i) != 1) {
                 fclose(fp);
+                free (img_lp);
                 return 0;
             }
         }
-- 
2.43.0


From 3654b7b199c9eb9116927855aff6e053b2829818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:43 +0000
Subject: [PATCH 15/78] fix: preprocess_image() ignores output_img, array
 strides and the filter file

---
 py_bind/optv/image_processing.pyx | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/py_bind/optv/image_processing.pyx b/py_bind/optv/image_processing.pyx
index 6add162..c70cf82 100644
--- a/py_bind/optv/image_processing.pyx
+++ b/py_bind/optv/image_processing.pyx
@@ -35,28 +35,36 @@ def preprocess_image(np.ndarray[ndim=2, dtype=np.uint8_t] input_img,
     # check arrays dimensions
     if input_img.ndim != 2:
         raise TypeError("Input array must be two-dimensional")
-    if (output_img is not None) and (input_img.shape[0] != output_img.shape[0] or
-                         input_img.shape[1] != output_img.shape[1]):
+    if output_img is None:
+        output_img = np.empty((input_img.shape[0], input_img.shape[1]), 
+            dtype=np.uint8)
+    elif (input_img.shape[0] != output_img.shape[0] or
+          input_img.shape[1] != output_img.shape[1]):
         raise ValueError("Different shapes of input and output images.")
-    else:
-        output_img = np.empty_like(input_img)
+    if (input_img.shape[0] != control._control_par[0].imy or
+        input_img.shape[1] != control._control_par[0].imx):
+        raise ValueError("Image size differs from the control parameters.")
     
     if filter_hp == 2:
         if filter_file == None or not isinstance(filter_file, string_types):
             raise ValueError("Expecting a filter file name, received None or non-string.")
+        filter_file = filter_file.encode()
     else:
         filter_file=b""
-        
-    for arr in (input_img, output_img):
-        if not arr.flags['C_CONTIGUOUS']:
-            np.ascontiguousarray(arr)
     
-    if (1 != prepare_image( < unsigned char *> input_img.data,
-                            < unsigned char *> output_img.data,
+    # The C code assumes one row directly after the other.
+    cdef:
+        np.ndarray[ndim=2, dtype=np.uint8_t] src = np.ascontiguousarray(input_img)
+        np.ndarray[ndim=2, dtype=np.uint8_t] dest = np.ascontiguousarray(output_img)
+    
+    if (1 != prepare_image( < unsigned char *> src.data,
+                            < unsigned char *> dest.data,
                             lowpass_dim,
                             filter_hp,
                             filter_file,
                             control._control_par)):
         raise Exception("prepare_image C function failed: "
                       + "failure of memory allocation or filter file reading")
+    if dest is not output_img:
+        output_img[...] = dest
     return output_img              
-- 
2.43.0


From acf4b112835940451ebd567fd8b848ac84b60918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:04 +0000
Subject: [PATCH 16/78] fix: fast_box_blur darkens the last lines, dividing by
 more lines than it sums

---
 liboptv/src/image_processing.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/liboptv/src/image_processing.c b/liboptv/src/image_processing.c
index df650e6..3048cf1 100644
--- a/liboptv/src/image_processing.c
+++ b/liboptv/src/image_processing.c
@@ -236,7 +236,7 @@ int fast_box_blur(int filt_span, unsigned char *src, unsigned char *dest,
         
         for (ptr3 = col_accum; ptr3 < end; ptr1++, ptr2++, ptr3++, ptrz++) {
             *ptr3 -= (*ptr1 + *ptr2);
-            *ptrz = n * (*ptr3) / nq / (2*i+1);
+            *ptrz = n * (*ptr3) / nq / (2*i-1);
         }
     }
     
-- 
2.43.0


From ccd60deb2aab731d313d075153f9805d86969afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:10 +0000
Subject: [PATCH 17/78] fix: compare_sequence_par compares the image names of
 the first sequence with themselves

---
 liboptv/src/parameters.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/liboptv/src/parameters.c b/liboptv/src/parameters.c
index 785328d..5ad5d3a 100644
--- a/liboptv/src/parameters.c
+++ b/liboptv/src/parameters.c
@@ -99,7 +99,7 @@ int compare_sequence_par(sequence_par *sp1, sequence_par *sp2) {
         return 0; /*not equal*/
 
     for (cam = 0; cam < sp1->num_cams; cam++) {
-        if (strcmp(sp1->img_base_name[cam],sp1->img_base_name[cam]) !=0){
+        if (strcmp(sp1->img_base_name[cam],sp2->img_base_name[cam]) !=0){
             return 0; /*not equal*/
         }
     }
-- 
2.43.0


From 4e07e9e88ed316183b45ba989ef426348c6dab6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:41 +0000
Subject: [PATCH 18/78] fix: parameter readers accept files cut short, crash on
 missing ones and overflow on long names

---
 liboptv/src/parameters.c | 85 +++++++++++++++++++++-------------------
 1 file changed, 44 insertions(+), 41 deletions(-)

diff --git a/liboptv/src/parameters.c b/liboptv/src/parameters.c
index 5ad5d3a..cfbbe80 100644
--- a/liboptv/src/parameters.c
+++ b/liboptv/src/parameters.c
@@ -37,15 +37,15 @@ sequence_par* read_sequence_par(char *filename, int num_cams) {
     ret = new_sequence_par(num_cams);
 
     for (cam = 0; cam < num_cams; cam++) {
-        read_ok = fscanf(par_file, "%s\n", line);
-        if (read_ok == 0) goto handle_error;
+        read_ok = fscanf(par_file, "%239s\n", line);
+        if (read_ok != 1) goto handle_error;
         
         strncpy(ret->img_base_name[cam], line, SEQ_FNAME_MAX_LEN);
     }
     
-    if( (read_ok = fscanf(par_file, "%d\n", &(ret->first))) == 0)
+    if( (read_ok = fscanf(par_file, "%d\n", &(ret->first))) != 1)
         goto handle_error;
-    if( (read_ok = fscanf(par_file, "%d\n", &(ret->last))) == 0)    
+    if( (read_ok = fscanf(par_file, "%d\n", &(ret->last))) != 1)    
         goto handle_error;
 
     fclose(par_file);
@@ -156,15 +156,16 @@ parsing to fail */
     setlocale(LC_NUMERIC,"C");
     
     fpp = fopen(filename, "r");
-    if(fscanf(fpp, "%lf\n", &(ret->dvxmin)) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->dvxmax)) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->dvymin)) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->dvymax)) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->dvzmin)) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->dvzmax)) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->dangle)) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->dacc)) == 0) goto handle_error;
-    if(fscanf(fpp, "%d\n", &(ret->add)) == 0) goto handle_error;
+    if (fpp == NULL) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->dvxmin)) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->dvxmax)) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->dvymin)) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->dvymax)) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->dvzmin)) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->dvzmax)) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->dangle)) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->dacc)) != 1) goto handle_error;
+    if(fscanf(fpp, "%d\n", &(ret->add)) != 1) goto handle_error;
     fclose (fpp);
     
     ret->dsumg = ret->dn = ret->dnx = ret->dny = 0;
@@ -173,7 +174,7 @@ parsing to fail */
 handle_error:
     printf("Error reading tracking parameters from %s\n", filename);
     free(ret);
-    fclose (fpp);
+    if (fpp != NULL) fclose (fpp);
     return NULL;
 }
 
@@ -227,19 +228,20 @@ parsing to fail */
     setlocale(LC_NUMERIC,"C");
     
     fpp = fopen(filename, "r");
-    if(fscanf(fpp, "%lf\n", &(ret->X_lay[0])) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->Zmin_lay[0])) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->Zmax_lay[0])) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->X_lay[1])) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->Zmin_lay[1])) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->Zmax_lay[1])) == 0) goto handle_error;
+    if (fpp == NULL) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->X_lay[0])) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->Zmin_lay[0])) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->Zmax_lay[0])) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->X_lay[1])) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->Zmin_lay[1])) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->Zmax_lay[1])) != 1) goto handle_error;
     
-    if(fscanf(fpp, "%lf\n", &(ret->cnx)) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->cny)) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->cn)) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->csumg)) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->corrmin)) == 0) goto handle_error;
-    if(fscanf(fpp, "%lf\n", &(ret->eps0)) == 0) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->cnx)) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->cny)) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->cn)) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->csumg)) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->corrmin)) != 1) goto handle_error;
+    if(fscanf(fpp, "%lf\n", &(ret->eps0)) != 1) goto handle_error;
     
     fclose (fpp);
     return ret;
@@ -247,7 +249,7 @@ parsing to fail */
 handle_error:
     printf("Error reading volume parameters from %s\n", filename);
     free(ret);
-    fclose(fpp);
+    if (fpp != NULL) fclose(fpp);
     return NULL;
 }
 
@@ -353,30 +355,31 @@ parsing to fail */
 
     if (fscanf(par_file, "%d\n", &num_cams) != 1) {
         printf("Could not read number of cameras from %s", filename);
+        fclose(par_file);
         return NULL;
     }
     ret = new_control_par(num_cams);
     for (cam = 0; cam < ret->num_cams; cam++) {
-        if (fscanf(par_file, "%s\n", line) == 0) goto handle_error;
+        if (fscanf(par_file, "%239s\n", line) != 1) goto handle_error;
         strncpy(ret->img_base_name[cam], line, SEQ_FNAME_MAX_LEN);
         
-        if (fscanf(par_file, "%s\n", line) == 0) goto handle_error;
+        if (fscanf(par_file, "%239s\n", line) != 1) goto handle_error;
         strncpy(ret->cal_img_base_name[cam], line, SEQ_FNAME_MAX_LEN);
     }
     
     
-    if(fscanf(par_file, "%d\n", &(ret->hp_flag)) == 0) goto handle_error;
-    if(fscanf(par_file, "%d\n", &(ret->allCam_flag)) == 0) goto handle_error;
-    if(fscanf(par_file, "%d\n", &(ret->tiff_flag)) == 0) goto handle_error;
-    if(fscanf(par_file, "%d\n", &(ret->imx)) == 0) goto handle_error;
-    if(fscanf(par_file, "%d\n", &(ret->imy)) == 0) goto handle_error;
-    if(fscanf(par_file, "%lf\n", &(ret->pix_x)) == 0) goto handle_error;
-    if(fscanf(par_file, "%lf\n", &(ret->pix_y)) == 0) goto handle_error;
-    if(fscanf(par_file, "%d\n", &(ret->chfield)) == 0) goto handle_error;
-    if(fscanf(par_file, "%lf\n", &(ret->mm->n1)) == 0) goto handle_error;
-    if(fscanf(par_file, "%lf\n", &(ret->mm->n2[0])) == 0) goto handle_error;
-    if(fscanf(par_file, "%lf\n", &(ret->mm->n3)) == 0) goto handle_error;
-    if(fscanf(par_file, "%lf\n", &(ret->mm->d[0])) == 0) goto handle_error; 
+    if(fscanf(par_file, "%d\n", &(ret->hp_flag)) != 1) goto handle_error;
+    if(fscanf(par_file, "%d\n", &(ret->allCam_flag)) != 1) goto handle_error;
+    if(fscanf(par_file, "%d\n", &(ret->tiff_flag)) != 1) goto handle_error;
+    if(fscanf(par_file, "%d\n", &(ret->imx)) != 1) goto handle_error;
+    if(fscanf(par_file, "%d\n", &(ret->imy)) != 1) goto handle_error;
+    if(fscanf(par_file, "%lf\n", &(ret->pix_x)) != 1) goto handle_error;
+    if(fscanf(par_file, "%lf\n", &(ret->pix_y)) != 1) goto handle_error;
+    if(fscanf(par_file, "%d\n", &(ret->chfield)) != 1) goto handle_error;
+    if(fscanf(par_file, "%lf\n", &(ret->mm->n1)) != 1) goto handle_error;
+    if(fscanf(par_file, "%lf\n", &(ret->mm->n2[0])) != 1) goto handle_error;
+    if(fscanf(par_file, "%lf\n", &(ret->mm->n3)) != 1) goto handle_error;
+    if(fscanf(par_file, "%lf\n", &(ret->mm->d[0])) != 1) goto handle_error; 
     
     fclose(par_file);
     ret->mm->nlay = 1;
-- 
2.43.0


From d1e66adfa03435a844063a5c15f1079c7cdf26d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:41 +0000
Subject: [PATCH 19/78] fix: write_target_par crashes when the file can't be
 created

---
 liboptv/src/parameters.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/liboptv/src/parameters.c b/liboptv/src/parameters.c
index cfbbe80..e790537 100644
--- a/liboptv/src/parameters.c
+++ b/liboptv/src/parameters.c
@@ -536,8 +536,10 @@ int compare_target_par(target_par *targ1, target_par *targ2) {
 void write_target_par(target_par *targ, char *filename) {
     FILE *file = fopen(filename, "w");
 
-    if (file == NULL)
+    if (file == NULL) {
         printf("Can't create file: %s\n", filename);
+        return;
+    }
 
     fprintf(file, "%d\n%d\n%d\n%d\n%d\n%d\n%d\n%d\n%d\n%d\n%d\n%d\n%d",
             targ->gvthres[0],
-- 
2.43.0


From d560f9bfc2b11fb3f0b9330a9aa419dcf80b80bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:41 +0000
Subject: [PATCH 20/78] fix: write_ori reports failure when no distortion file
 is asked for

---
 liboptv/src/calibration.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/liboptv/src/calibration.c b/liboptv/src/calibration.c
index 6e7a973..e7448c1 100644
--- a/liboptv/src/calibration.c
+++ b/liboptv/src/calibration.c
@@ -43,7 +43,10 @@ int write_ori (Exterior Ex, Interior I, Glass G, ap_52 ap, \
   fclose (fp);
   fp = NULL;
   
-  if (add_file == NULL) goto finalize;
+  if (add_file == NULL) {
+        success = 1;
+        goto finalize;
+  }
   fp = fopen (add_file, "w");
   if (! fp) {
         printf("Can't open ascii file: %s\n", add_file);
-- 
2.43.0


From 066080b27c27d796fa5761bf9f21ceda68eeef78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:41 +0000
Subject: [PATCH 21/78] fix: read_ori accepts distortion files cut short and
 leaks the file on errors

---
 liboptv/src/calibration.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/liboptv/src/calibration.c b/liboptv/src/calibration.c
index e7448c1..fef9b68 100644
--- a/liboptv/src/calibration.c
+++ b/liboptv/src/calibration.c
@@ -103,22 +103,22 @@ int read_ori (Exterior Ex[], Interior I[], Glass G[], char *ori_file, \
   scan_res = fscanf (fp, "%lf %lf %lf %lf %lf %lf",
 	  &(Ex->x0), &(Ex->y0), &(Ex->z0),
 	  &(Ex->omega), &(Ex->phi), &(Ex->kappa));
-  if (scan_res != 6) return 0;
+  if (scan_res != 6) goto handle_error;
   
   /* Exterior rotation matrix */
   for (i=0; i<3; i++) {
     scan_res = fscanf (fp, " %lf %lf %lf",
         &(Ex->dm[i][0]), &(Ex->dm[i][1]), &(Ex->dm[i][2]));
-    if (scan_res != 3) return 0;
+    if (scan_res != 3) goto handle_error;
   }
 
   /* Interior */
   scan_res = fscanf (fp, "%lf %lf %lf", &(I->xh), &(I->yh), &(I->cc));
-  if (scan_res != 3) return 0;
+  if (scan_res != 3) goto handle_error;
   
   /* Glass */
   scan_res = fscanf (fp, "%lf %lf %lf", &(G->vec_x), &(G->vec_y), &(G->vec_z));
-  if (scan_res != 3) return 0;
+  if (scan_res != 3) goto handle_error;
   
   fclose(fp);
   
@@ -130,6 +130,7 @@ int read_ori (Exterior Ex[], Interior I[], Glass G[], char *ori_file, \
     scan_res = fscanf (fp, "%lf %lf %lf %lf %lf %lf %lf",
         &(addp->k1), &(addp->k2), &(addp->k3), &(addp->p1), &(addp->p2),
         &(addp->scx), &(addp->she));
+    if (scan_res != 7) goto handle_error;
     fclose (fp);
   } else {
     printf("no addpar fallback used\n"); // Waits for proper logging.
-- 
2.43.0


From abeb4da5c6b57be4e6b1d11d8d2dc5f2e430c9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:41 +0000
Subject: [PATCH 22/78] fix: read_calblock silently drops the points after a
 malformed line

---
 liboptv/src/sortgrid.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/liboptv/src/sortgrid.c b/liboptv/src/sortgrid.c
index cc72b4c..ae961b9 100644
--- a/liboptv/src/sortgrid.c
+++ b/liboptv/src/sortgrid.c
@@ -163,7 +163,7 @@ handle_error:
 */
 vec3d* read_calblock(int *num_points, char* filename) {
     FILE* fpp = NULL;
-    int	dummy, k = 0;
+    int	dummy, scan_res, k = 0;
     vec3d fix;
     vec3d *ret = (vec3d *) malloc(1); /* reallocated every line */
        
@@ -174,15 +174,15 @@ vec3d* read_calblock(int *num_points, char* filename) {
     }
     
     /* Single-pass read-reallocate.*/
-    while (fscanf(fpp, "%d %lf %lf %lf\n", &(dummy),&(fix[0]),
-            &(fix[1]),&(fix[2])) == 4) 
+    while ((scan_res = fscanf(fpp, "%d %lf %lf %lf\n", &(dummy),&(fix[0]),
+            &(fix[1]),&(fix[2]))) == 4) 
     {
         ret = (vec3d *) realloc(ret, (k + 1) * sizeof(vec3d));
         vec_copy(ret[k], fix);
         k++;
     }
     
-    if (k == 0) {
+    if (k == 0 || scan_res != EOF) {
         printf("Empty of badly formatted file: %s\n", filename);
         goto handle_error;
     }
-- 
2.43.0


From 07b80dcc1627795549bfbb9c0d3b669adeb9a8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:41 +0000
Subject: [PATCH 23/78] fix: read_man_ori_fix uses unread numbers of short
 files and closes its file twice

---
 liboptv/src/orientation.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/liboptv/src/orientation.c b/liboptv/src/orientation.c
index 21f23c2..4a7a03e 100644
--- a/liboptv/src/orientation.c
+++ b/liboptv/src/orientation.c
@@ -725,8 +725,12 @@ int read_man_ori_fix(vec3d fix4[4], char* calblock_filename,
 
     for (i=0; i<cam; i++)
         fscanf (fpp, "%d %d %d %d \n", &dummy, &dummy, &dummy, &dummy);
-    fscanf (fpp, "%d %d %d %d \n", &nr[0], &nr[1], &nr[2], &nr[3]);
+    if (fscanf (fpp, "%d %d %d %d \n", &nr[0], &nr[1], &nr[2], &nr[3]) != 4) {
+        printf("Bad format for file: %s\n", man_ori_filename);
+        goto handle_error;
+    }
     fclose (fpp);
+    fpp = NULL;
 
     /* read the id and positions of the fixed points, assign the pre-defined to fix4 */
     fix = read_calblock(&num_fix, calblock_filename);
-- 
2.43.0


From 511a6d2bb6c2ab472cf9ef417dbca89779afb52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:59 +0000
Subject: [PATCH 24/78] fix: reading parameters in Python from a bad file
 leaves an object without data, which crashes

---
 py_bind/optv/parameters.pyx | 48 ++++++++++++++++++++++++-------------
 1 file changed, 31 insertions(+), 17 deletions(-)

diff --git a/py_bind/optv/parameters.pyx b/py_bind/optv/parameters.pyx
index a5c703c..2ce51d1 100644
--- a/py_bind/optv/parameters.pyx
+++ b/py_bind/optv/parameters.pyx
@@ -222,8 +222,12 @@ cdef class TrackingParams:
         Reads tracking parameters from an old-style .par file having the
         objects' arguments ordered one per line.
         """
-        free(self._track_par)
-        self._track_par = c_read_track_par(file_name)
+        cdef track_par *read_par = c_read_track_par(file_name)
+        if read_par == NULL:
+            raise IOError("Problem reading tracking parameters.")
+        
+        self._track_par[0] = read_par[0]
+        free(read_par)
     
     # Checks for equality between this and other trackParams objects
     # Gives the ability to use "==" and "!=" operators on two trackParams objects
@@ -382,12 +386,14 @@ cdef class SequenceParams:
         filename - path to the text file containing the parameters.
         num_cams - expected number of cameras
         """
-        # free the memory of previous C struct and its inner strings before 
-        # creating a new one.
-        c_free_sequence_par(self._sequence_par)
-        
         # read parameters from file to a new sequence_par C struct
-        self._sequence_par = c_read_sequence_par(filename, num_cams)
+        cdef sequence_par *read_par = c_read_sequence_par(filename, num_cams)
+        if read_par == NULL:
+            raise IOError("Problem reading sequence parameters.")
+        
+        # free the memory of previous C struct and its inner strings.
+        c_free_sequence_par(self._sequence_par)
+        self._sequence_par = read_par
         
     # Get image base name of camera #cam
     def get_img_base_name(self, cam):
@@ -540,10 +546,13 @@ cdef class VolumeParams:
         Argument:
         filename - path to the text file containing the parameters.
         """
-        # free the memory of previous C struct 
-        free(self._volume_par)
         # read parameters from file to a new volume_par C struct
-        self._volume_par = c_read_volume_par(filename)
+        cdef volume_par *read_par = c_read_volume_par(filename)
+        if read_par == NULL:
+            raise IOError("Problem reading volume parameters.")
+        
+        self._volume_par[0] = read_par[0]
+        free(read_par)
     
     # Checks for equality between self and other VolumeParams objects
     # Gives the ability to use "==" and "!=" operators on two VolumeParams objects
@@ -677,13 +686,17 @@ cdef class ControlParams:
     # Arguments:
     # filename - path to text file containing the parameters.
     def read_control_par(self, filename):
-        # free the memory of previous C struct and its inner strings before creating a new one
+        # read parameters from file to a new control_par C struct
+        cdef control_par *read_par = c_read_control_par(filename)
+        if read_par == NULL:
+            raise IOError("Problem reading control parameters.")
+        
+        # free the memory of previous C struct and its inner strings
         c_free_control_par(self._control_par)
         # memory for _multimedia_params' mm_np struct was just freed,
         # so set _multimedia params' mm_np pointer to NULL to avoid double free corruption 
         self._multimedia_params._mm_np = NULL
-        # read parameters from file to a new control_par C struct
-        self._control_par = c_read_control_par(filename)
+        self._control_par = read_par
         # set _multimedia_params's _mm_np to the new mm_np that just allocated and read into _control_par
         self._multimedia_params.set_mm_np(self._control_par[0].mm)
         
@@ -871,11 +884,12 @@ cdef class TargetParams:
         
         Fills up the fields of the object from the file and returns.
         """
-        free(self._targ_par)
-        self._targ_par = read_target_par(inp_filename)
-        
-        if self._targ_par == NULL:
+        cdef target_par *read_par = read_target_par(inp_filename)
+        if read_par == NULL:
             raise IOError("Problem reading target recognition parameters.")
+        
+        self._targ_par[0] = read_par[0]
+        free(read_par)
     
     def __dealloc__(self):
         free(self._targ_par)
-- 
2.43.0


From 27b3b1639e5f1d33e6199aa1f3fce98016852969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:59 +0000
Subject: [PATCH 25/78] fix: Calibration.from_file ignores the fallback file
 and crashes later on a bad one

---
 py_bind/optv/calibration.pyx | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/py_bind/optv/calibration.pyx b/py_bind/optv/calibration.pyx
index 613bc61..2b8f74a 100644
--- a/py_bind/optv/calibration.pyx
+++ b/py_bind/optv/calibration.pyx
@@ -71,10 +71,15 @@ cdef class Calibration:
         fallback_file - optional path to file used in case ``add_file`` fails
             to open.
         """
-        free(self._calibration);
-        self._calibration = read_calibration(
+        cdef calibration *read_cal = read_calibration(
             (<char *>ori_file if ori_file != None else < char *> 0),
-            (<char *>add_file if add_file != None else < char *> 0), NULL)
+            (<char *>add_file if add_file != None else < char *> 0),
+            (<char *>fallback_file if fallback_file != None else < char *> 0))
+        if read_cal == NULL:
+            raise IOError("Problem reading calibration.")
+        
+        free(self._calibration)
+        self._calibration = read_cal
         
     def write(self, filename, add_file):
         """
-- 
2.43.0


From 41cb05a7e287488cca9ab4772c7721fd6c79637e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:59 +0000
Subject: [PATCH 26/78] fix: image base names set from Python lose their end
 when not ASCII and overflow when long

---
 py_bind/optv/parameters.pyx | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/py_bind/optv/parameters.pyx b/py_bind/optv/parameters.pyx
index 2ce51d1..eebff60 100644
--- a/py_bind/optv/parameters.pyx
+++ b/py_bind/optv/parameters.pyx
@@ -9,6 +9,8 @@ cimport numpy as numpy
 from cpython cimport PyObject, Py_INCREF
 
 cdef extern from "optv/parameters.h":
+    enum: SEQ_FNAME_MAX_LEN
+    
     int c_compare_mm_np "compare_mm_np"(mm_np * mm_np1, mm_np * mm_np2)
     
     track_par * c_read_track_par "read_track_par"(char * file_name)
@@ -405,7 +407,9 @@ cdef class SequenceParams:
     def set_img_base_name(self, cam, str new_img_name):
         py_byte_string = new_img_name.encode('UTF-8')
         cdef char * c_string = py_byte_string
-        strncpy(self._sequence_par[0].img_base_name[cam], c_string, len(new_img_name) + 1)
+        if len(py_byte_string) >= SEQ_FNAME_MAX_LEN:
+            raise ValueError("Image base name is too long.")
+        strncpy(self._sequence_par[0].img_base_name[cam], c_string, len(py_byte_string) + 1)
     
     # Checks for equality between this and other SequenceParams objects
     # Gives the ability to use "==" and "!=" operators on two SequenceParams objects
@@ -710,7 +714,9 @@ cdef class ControlParams:
     def set_img_base_name(self, cam, str new_img_name):
         py_byte_string = new_img_name.encode('UTF-8')
         cdef char * c_string = py_byte_string
-        strncpy(self._control_par[0].img_base_name[cam], c_string, len(new_img_name) + 1)
+        if len(py_byte_string) >= SEQ_FNAME_MAX_LEN:
+            raise ValueError("Image base name is too long.")
+        strncpy(self._control_par[0].img_base_name[cam], c_string, len(py_byte_string) + 1)
     
     # Get calibration image base name of camera #cam
     def get_cal_img_base_name(self, cam):
@@ -722,7 +728,9 @@ cdef class ControlParams:
     def set_cal_img_base_name(self, cam, str new_img_name):
         py_byte_string = new_img_name.encode('UTF-8')
         cdef char * c_string = py_byte_string
-        strncpy(self._control_par[0].cal_img_base_name[cam], c_string, len(new_img_name) + 1)
+        if len(py_byte_string) >= SEQ_FNAME_MAX_LEN:
+            raise ValueError("Image base name is too long.")
+        strncpy(self._control_par[0].cal_img_base_name[cam], c_string, len(py_byte_string) + 1)
     
     def get_multimedia_params(self):
         return self._multimedia_params
-- 
2.43.0


From 0c244270a092802654c6ad6d81af3887345e2881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:59 +0000
Subject: [PATCH 27/78] fix: Python parameter accessors write and read outside
 fixed-size arrays

---
 py_bind/optv/parameters.pyx | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/py_bind/optv/parameters.pyx b/py_bind/optv/parameters.pyx
index eebff60..3c3b272 100644
--- a/py_bind/optv/parameters.pyx
+++ b/py_bind/optv/parameters.pyx
@@ -103,6 +103,8 @@ cdef class MultimediaParams:
     def set_layers(self, refr_index, thickness):
         if len(refr_index) != len(thickness):
             raise ValueError("Lengths of refractive index and thickness must be equal.")
+        elif len(refr_index) > sizeof(self._mm_np[0].n2) / sizeof(self._mm_np[0].n2[0]):
+            raise ValueError("Too many layers.")
         else:
             for i in range(len(refr_index)):
                 self._mm_np[0].n2[i] = refr_index[i]
@@ -474,6 +476,8 @@ cdef class VolumeParams:
         return wrap_1d_c_arr_as_ndarray(self, arr_size , numpy.NPY_DOUBLE, self._volume_par[0].X_lay, copy)
     
     def set_X_lay(self, X_lay):
+        if len(X_lay) != 2:
+            raise ValueError("Expected two values.")
         for i in range(len(X_lay)):
             self._volume_par[0].X_lay[i] = X_lay[i]
             
@@ -482,6 +486,8 @@ cdef class VolumeParams:
         return wrap_1d_c_arr_as_ndarray(self, arr_size , numpy.NPY_DOUBLE, self._volume_par[0].Zmin_lay, copy)
 
     def set_Zmin_lay(self, Zmin_lay):
+        if len(Zmin_lay) != 2:
+            raise ValueError("Expected two values.")
         for i in range(len(Zmin_lay)):
             self._volume_par[0].Zmin_lay[i] = Zmin_lay[i]
             
@@ -490,6 +496,8 @@ cdef class VolumeParams:
         return wrap_1d_c_arr_as_ndarray(self, arr_size , numpy.NPY_DOUBLE, self._volume_par[0].Zmax_lay, copy)
     
     def set_Zmax_lay(self, Zmax_lay):
+        if len(Zmax_lay) != 2:
+            raise ValueError("Expected two values.")
         for i in range(len(Zmax_lay)):
             self._volume_par[0].Zmax_lay[i] = Zmax_lay[i]
             
@@ -803,6 +811,9 @@ cdef class TargetParams:
         copy - if True, return a copy of the underlying array. This way the 
             original is safe.
         """
+        if num_cams > 4:
+            raise ValueError("Can't get more than 4 grey-level thresholds.")
+        
         return wrap_1d_c_arr_as_ndarray(self, num_cams, numpy.NPY_INT, 
             self._targ_par.gvthres, (1 if copy else 0))
         
-- 
2.43.0


From b475550f810fd869fba4244becc52ebea5b4f9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:59 +0000
Subject: [PATCH 28/78] fix: parameter objects made alike compare different
 because unset fields are left uninitialised

---
 liboptv/src/parameters.c    | 12 ++++++------
 py_bind/optv/parameters.pyx | 11 ++++++-----
 2 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/liboptv/src/parameters.c b/liboptv/src/parameters.c
index e790537..bfc0015 100644
--- a/liboptv/src/parameters.c
+++ b/liboptv/src/parameters.c
@@ -73,12 +73,12 @@ sequence_par * new_sequence_par(int num_cams) {
     int cam;
     sequence_par *ret;
 
-    ret = (sequence_par *) malloc(sizeof(sequence_par));
+    ret = (sequence_par *) calloc(1, sizeof(sequence_par));
     ret->img_base_name = (char **) calloc(num_cams, sizeof(char *));
 
     ret->num_cams = num_cams;
     for (cam = 0; cam < num_cams; cam++) {
-        ret->img_base_name[cam] = (char *) malloc(SEQ_FNAME_MAX_LEN);
+        ret->img_base_name[cam] = (char *) calloc(SEQ_FNAME_MAX_LEN, 1);
     }
     return ret;
 }
@@ -286,7 +286,7 @@ int compare_volume_par(volume_par *v1, volume_par *v2) {
 */
 control_par * new_control_par(int cams) {
     int cam;
-    control_par *ret = (control_par *) malloc(sizeof(control_par));
+    control_par *ret = (control_par *) calloc(1, sizeof(control_par));
 
     ret->num_cams = cams;
 
@@ -294,11 +294,11 @@ control_par * new_control_par(int cams) {
     ret->cal_img_base_name = (char **) calloc(ret->num_cams, sizeof(char *));
 
     for (cam = 0; cam < ret->num_cams; cam++) {
-        ret->img_base_name[cam] = (char *) malloc(SEQ_FNAME_MAX_LEN);
-        ret->cal_img_base_name[cam] = (char *) malloc(SEQ_FNAME_MAX_LEN);
+        ret->img_base_name[cam] = (char *) calloc(SEQ_FNAME_MAX_LEN, 1);
+        ret->cal_img_base_name[cam] = (char *) calloc(SEQ_FNAME_MAX_LEN, 1);
     }
 
-    ret->mm = (mm_np *) malloc(sizeof(mm_np));
+    ret->mm = (mm_np *) calloc(1, sizeof(mm_np));
 
     return ret;
 }
diff --git a/py_bind/optv/parameters.pyx b/py_bind/optv/parameters.pyx
index 3c3b272..bac7590 100644
--- a/py_bind/optv/parameters.pyx
+++ b/py_bind/optv/parameters.pyx
@@ -1,5 +1,5 @@
 # Implementation of Python binding to parameters.h
-from libc.stdlib cimport malloc, free
+from libc.stdlib cimport malloc, calloc, free
 from libc.string cimport strncpy
 
 import numpy
@@ -77,7 +77,8 @@ cdef class MultimediaParams:
         n3 - index of refraction of final medium (e.g. water, 1.33).
         d - thickness of all but first and last layers, [mm].
         """
-        self._mm_np = < mm_np *> malloc(sizeof(mm_np))
+        self._mm_np = < mm_np *> calloc(1, sizeof(mm_np))
+        self._mm_np[0].nlay = 1
         
         if kwargs.has_key('n1') and kwargs['n1'] is not None:
             self.set_n1(kwargs['n1'])
@@ -184,7 +185,7 @@ cdef class TrackingParams:
             positions that have enough targets but no matching correspondence
             result (boolean int).
         """
-        self._track_par = < track_par *> malloc(sizeof(track_par))
+        self._track_par = < track_par *> calloc(1, sizeof(track_par))
         
         if 'accel_lim' in kwds:
             self.set_dacc(kwds['accel_lim'])
@@ -447,7 +448,7 @@ cdef class VolumeParams:
             calculated from match of the different target measures to the 
             reference values in this object.
         """
-        self._volume_par = < volume_par *> malloc(sizeof(volume_par))
+        self._volume_par = < volume_par *> calloc(1, sizeof(volume_par))
         
         if 'x_span' in kwargs:
             self.set_X_lay(kwargs['x_span'])
@@ -785,7 +786,7 @@ cdef class TargetParams:
         if gvthresh is None:
             gvthresh = [0] * 4
         
-        self._targ_par = <target_par *> malloc(sizeof(target_par))
+        self._targ_par = <target_par *> calloc(1, sizeof(target_par))
         
         self.set_max_discontinuity(discont)
         self.set_grey_thresholds(gvthresh)
-- 
2.43.0


From c3b95d7ecdacf4d033101e34dd1c59da6f4025e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:59 +0000
Subject: [PATCH 29/78] fix: comparing a parameter object to None crashes

---
 py_bind/optv/parameters.pyx | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/py_bind/optv/parameters.pyx b/py_bind/optv/parameters.pyx
index bac7590..3e9d261 100644
--- a/py_bind/optv/parameters.pyx
+++ b/py_bind/optv/parameters.pyx
@@ -138,8 +138,11 @@ cdef class MultimediaParams:
     def set_n3(self, n3):
         self._mm_np[0].n3 = n3
 
-    def __richcmp__(MultimediaParams self, MultimediaParams other, operator):
-        c_compare_result = c_compare_mm_np(self._mm_np, other._mm_np)
+    def __richcmp__(self, other, operator):
+        if not (isinstance(self, MultimediaParams) and isinstance(other, MultimediaParams)):
+            return NotImplemented
+        c_compare_result = c_compare_mm_np((<MultimediaParams>self)._mm_np, 
+            (<MultimediaParams>other)._mm_np)
         if (operator == 2):  # "==" action was performed
             return (c_compare_result != 0)
         elif(operator == 3):  # "!=" action was performed
@@ -236,8 +239,11 @@ cdef class TrackingParams:
     
     # Checks for equality between this and other trackParams objects
     # Gives the ability to use "==" and "!=" operators on two trackParams objects
-    def __richcmp__(TrackingParams self, TrackingParams other, operator):
-        c_compare_result = c_compare_track_par(self._track_par, other._track_par)
+    def __richcmp__(self, other, operator):
+        if not (isinstance(self, TrackingParams) and isinstance(other, TrackingParams)):
+            return NotImplemented
+        c_compare_result = c_compare_track_par((<TrackingParams>self)._track_par, 
+            (<TrackingParams>other)._track_par)
         if (operator == 2):  # "==" action was performed
             return (c_compare_result != 0)
         elif(operator == 3):  # "!=" action was performed
@@ -416,8 +422,11 @@ cdef class SequenceParams:
     
     # Checks for equality between this and other SequenceParams objects
     # Gives the ability to use "==" and "!=" operators on two SequenceParams objects
-    def __richcmp__(SequenceParams self, SequenceParams other, operator):
-        c_compare_result = c_compare_sequence_par(self._sequence_par, other._sequence_par)
+    def __richcmp__(self, other, operator):
+        if not (isinstance(self, SequenceParams) and isinstance(other, SequenceParams)):
+            return NotImplemented
+        c_compare_result = c_compare_sequence_par((<SequenceParams>self)._sequence_par, 
+            (<SequenceParams>other)._sequence_par)
         if (operator == 2):  # "==" action was performed
             return (c_compare_result != 0)
         elif(operator == 3):  # "!=" action was performed
@@ -569,8 +578,11 @@ cdef class VolumeParams:
     
     # Checks for equality between self and other VolumeParams objects
     # Gives the ability to use "==" and "!=" operators on two VolumeParams objects
-    def __richcmp__(VolumeParams self, VolumeParams other, operator):
-        c_compare_result = c_compare_volume_par(self._volume_par, other._volume_par)
+    def __richcmp__(self, other, operator):
+        if not (isinstance(self, VolumeParams) and isinstance(other, VolumeParams)):
+            return NotImplemented
+        c_compare_result = c_compare_volume_par((<VolumeParams>self)._volume_par, 
+            (<VolumeParams>other)._volume_par)
         if (operator == 2):  # "==" action was performed
             return (c_compare_result != 0)
         elif(operator == 3):  # "!=" action was performed
@@ -746,8 +758,11 @@ cdef class ControlParams:
     
     # Checks for equality between this and other ControlParams objects
     # Gives the ability to use "==" and "!=" operators on two ControlParams objects
-    def __richcmp__(ControlParams self, ControlParams other, operator):
-        c_compare_result = c_compare_control_par(self._control_par, other._control_par)
+    def __richcmp__(self, other, operator):
+        if not (isinstance(self, ControlParams) and isinstance(other, ControlParams)):
+            return NotImplemented
+        c_compare_result = c_compare_control_par((<ControlParams>self)._control_par, 
+            (<ControlParams>other)._control_par)
         if (operator == 2):  # "==" action was performed
             return (c_compare_result != 0)
         elif(operator == 3):  # "!=" action was performed
-- 
2.43.0


From 3a02cbe314b7f76d6cb3db1e749540310d1acf35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:59 +0000
Subject: [PATCH 30/78] fix: TargetParams objects can't be compared, though
 documented to be

---
 py_bind/optv/parameters.pyx | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/py_bind/optv/parameters.pyx b/py_bind/optv/parameters.pyx
index 3e9d261..8bc01ed 100644
--- a/py_bind/optv/parameters.pyx
+++ b/py_bind/optv/parameters.pyx
@@ -30,6 +30,7 @@ cdef extern from "optv/parameters.h":
     int c_compare_control_par "compare_control_par"(control_par * c1, control_par * c2);
     
     target_par* read_target_par(char *filename)
+    int c_compare_target_par "compare_target_par"(target_par * t1, target_par * t2)
 
 cdef numpy.ndarray wrap_1d_c_arr_as_ndarray(object base_obj, 
     int arr_size, int num_type, void * data, int copy):
@@ -926,5 +927,18 @@ cdef class TargetParams:
         self._targ_par[0] = read_par[0]
         free(read_par)
     
+    # Checks for equality between self and other TargetParams objects
+    # Gives the ability to use "==" and "!=" operators on two TargetParams objects
+    def __richcmp__(self, other, operator):
+        if not (isinstance(self, TargetParams) and isinstance(other, TargetParams)):
+            return NotImplemented
+        c_compare_result = c_compare_target_par((<TargetParams>self)._targ_par, 
+            (<TargetParams>other)._targ_par)
+        if (operator == 2):  # "==" action was performed
+            return (c_compare_result != 0)
+        elif(operator == 3):  # "!=" action was performed
+                return (c_compare_result == 0)
+        else: raise TypeError("Unhandled comparison operator " + operator)
+    
     def __dealloc__(self):
         free(self._targ_par)
-- 
2.43.0


From c8a406f0de009431f35d69e1c8e87d75c239ab6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:32 +0000
Subject: [PATCH 31/78] fix: read_man_ori_fix takes the wrong camera's points
 after an unreadable row

---
 liboptv/src/orientation.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/liboptv/src/orientation.c b/liboptv/src/orientation.c
index 4a7a03e..fa40698 100644
--- a/liboptv/src/orientation.c
+++ b/liboptv/src/orientation.c
@@ -723,8 +723,12 @@ int read_man_ori_fix(vec3d fix4[4], char* calblock_filename,
         goto handle_error;
     }
 
-    for (i=0; i<cam; i++)
-        fscanf (fpp, "%d %d %d %d \n", &dummy, &dummy, &dummy, &dummy);
+    for (i=0; i<cam; i++) {
+        if (fscanf (fpp, "%d %d %d %d \n", &dummy, &dummy, &dummy, &dummy) != 4) {
+            printf("Bad format for file: %s\n", man_ori_filename);
+            goto handle_error;
+        }
+    }
     if (fscanf (fpp, "%d %d %d %d \n", &nr[0], &nr[1], &nr[2], &nr[3]) != 4) {
         printf("Bad format for file: %s\n", man_ori_filename);
         goto handle_error;
-- 
2.43.0


From 0e734d531ac24f14a13286aa5e720e74660135c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:13 +0000
Subject: [PATCH 32/78] fix: image names too long for a parameter record are
 split over the following fields

---
 liboptv/src/parameters.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/liboptv/src/parameters.c b/liboptv/src/parameters.c
index bfc0015..c149431 100644
--- a/liboptv/src/parameters.c
+++ b/liboptv/src/parameters.c
@@ -23,7 +23,7 @@
    any reason, returns NULL.
 */
 sequence_par* read_sequence_par(char *filename, int num_cams) {
-    char line[SEQ_FNAME_MAX_LEN];
+    char line[SEQ_FNAME_MAX_LEN + 1]; /* one more shows a name is too long */
     FILE* par_file;
     int cam, read_ok;
     sequence_par *ret;
@@ -37,8 +37,8 @@ sequence_par* read_sequence_par(char *filename, int num_cams) {
     ret = new_sequence_par(num_cams);
 
     for (cam = 0; cam < num_cams; cam++) {
-        read_ok = fscanf(par_file, "%239s\n", line);
-        if (read_ok != 1) goto handle_error;
+        read_ok = fscanf(par_file, "%240s\n", line);
+        if (read_ok != 1 || strlen(line) >= SEQ_FNAME_MAX_LEN) goto handle_error;
         
         strncpy(ret->img_base_name[cam], line, SEQ_FNAME_MAX_LEN);
     }
@@ -337,7 +337,7 @@ control_par * new_control_par(int cams) {
     any reason, returns NULL.
 */
 control_par* read_control_par(char *filename) {
-    char line[SEQ_FNAME_MAX_LEN];
+    char line[SEQ_FNAME_MAX_LEN + 1]; /* one more shows a name is too long */
     FILE* par_file;
     int cam;
     int num_cams;
@@ -360,10 +360,12 @@ parsing to fail */
     }
     ret = new_control_par(num_cams);
     for (cam = 0; cam < ret->num_cams; cam++) {
-        if (fscanf(par_file, "%239s\n", line) != 1) goto handle_error;
+        if (fscanf(par_file, "%240s\n", line) != 1
+            || strlen(line) >= SEQ_FNAME_MAX_LEN) goto handle_error;
         strncpy(ret->img_base_name[cam], line, SEQ_FNAME_MAX_LEN);
         
-        if (fscanf(par_file, "%239s\n", line) != 1) goto handle_error;
+        if (fscanf(par_file, "%240s\n", line) != 1
+            || strlen(line) >= SEQ_FNAME_MAX_LEN) goto handle_error;
         strncpy(ret->cal_img_base_name[cam], line, SEQ_FNAME_MAX_LEN);
     }
     
-- 
2.43.0


From 70058f7f47c2e6804edc1c85cb40b1f7f9f6ce99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:34 +0000
Subject: [PATCH 33/78] fix: points exactly on the distortion center are left
 unset by distortion and correction

---
 liboptv/src/trafo.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/liboptv/src/trafo.c b/liboptv/src/trafo.c
index 8690a20..e453876 100644
--- a/liboptv/src/trafo.c
+++ b/liboptv/src/trafo.c
@@ -181,6 +181,11 @@ void distort_brown_affin (double x, double y, ap_52 ap, double *x1, double *y1){
       
       *x1 = ap.scx * x - sin(ap.she) * y;  *y1 = cos(ap.she) * y;
     }
+  else
+    {
+      /* The center of distortion is not moved. */
+      *x1 = 0;  *y1 = 0;
+    }
 }
 
 /*  correct distorted to flat-image coordinates, see correct_brown_affine_exact(),
@@ -210,7 +215,11 @@ void correct_brown_affine_exact(double x, double y, ap_52 ap,
     double  r, rq, xq, yq;
     int itnum = 0;
   
-    if ((x == 0) && (y == 0)) return;
+    if ((x == 0) && (y == 0)) {
+        /* The center of distortion is not moved. */
+        *x1 = 0; *y1 = 0;
+        return;
+    }
     
     /* Initial guess for the flat point is the distorted point, assuming 
        distortion is small. */
-- 
2.43.0


From 94da20e89753227a40444c49c5aedda39b09f7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:48 +0000
Subject: [PATCH 34/78] fix: tangential distortion of y is computed from the
 already distorted x

---
 liboptv/src/trafo.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/liboptv/src/trafo.c b/liboptv/src/trafo.c
index e453876..9617f6e 100644
--- a/liboptv/src/trafo.c
+++ b/liboptv/src/trafo.c
@@ -167,17 +167,18 @@ void metric_to_pixel(double * x_pixel
     double *x1, *y1 - output metric distorted parameters.
 */
 void distort_brown_affin (double x, double y, ap_52 ap, double *x1, double *y1){
-  double		r;
+  double		r, x0;
   
   
   r = sqrt (x*x + y*y);
   if (r != 0)
     {
+      x0 = x; /* The formula for y, too, needs the undistorted x. */
       x += x * (ap.k1*r*r + ap.k2*r*r*r*r + ap.k3*r*r*r*r*r*r)
 	+ ap.p1 * (r*r + 2*x*x) + 2*ap.p2*x*y;
       
       y += y * (ap.k1*r*r + ap.k2*r*r*r*r + ap.k3*r*r*r*r*r*r)
-	+ ap.p2 * (r*r + 2*y*y) + 2*ap.p1*x*y;
+	+ ap.p2 * (r*r + 2*y*y) + 2*ap.p1*x0*y;
       
       *x1 = ap.scx * x - sin(ap.she) * y;  *y1 = cos(ap.she) * y;
     }
-- 
2.43.0


From 4c192fa8cb2cc46ed3abf3aa988a982a30d3f3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:38 +0000
Subject: [PATCH 35/78] fix: correcting a distorted point unshears it by the
 flat instead of the distorted y

---
 liboptv/src/trafo.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/liboptv/src/trafo.c b/liboptv/src/trafo.c
index 9617f6e..aeb45fd 100644
--- a/liboptv/src/trafo.c
+++ b/liboptv/src/trafo.c
@@ -213,7 +213,7 @@ void correct_brown_affin (double x, double y, ap_52 ap, double *x1, double *y1)
 void correct_brown_affine_exact(double x, double y, ap_52 ap, 
     double *x1, double *y1, double tol)
 {
-    double  r, rq, xq, yq;
+    double  r, rq, xq, yq, ya;
     int itnum = 0;
   
     if ((x == 0) && (y == 0)) {
@@ -227,12 +227,16 @@ void correct_brown_affine_exact(double x, double y, ap_52 ap,
     rq = sqrt (x*x + y*y);
     xq = x; yq = y;
     
+    /* The affine part is applied last when distorting, so what it sheared is
+       the distorted y, not the flat one. */
+    ya = y/cos(ap.she);
+    
     do {
         r = rq;
-        xq = (x + yq*sin(ap.she))/ap.scx
+        xq = (x + ya*sin(ap.she))/ap.scx
             - xq * (ap.k1*r*r + ap.k2*r*r*r*r + ap.k3*r*r*r*r*r*r)
             - ap.p1 * (r*r + 2*xq*xq) - 2*ap.p2*xq*yq;
-        yq = y/cos(ap.she)
+        yq = ya
             - yq * (ap.k1*r*r + ap.k2*r*r*r*r + ap.k3*r*r*r*r*r*r)
             - ap.p2 * (r*r + 2*yq*yq) - 2*ap.p1*xq*yq;
         rq = sqrt (xq*xq + yq*yq);
@@ -249,10 +253,10 @@ void correct_brown_affine_exact(double x, double y, ap_52 ap,
     /* Final step uses the iteratively-found R and x, y to apply the exact
        correction, equivalent to one more iteration. */
     r = rq;
-    *x1 = (x + yq*sin(ap.she))/ap.scx
+    *x1 = (x + ya*sin(ap.she))/ap.scx
 	    - xq * (ap.k1*r*r + ap.k2*r*r*r*r + ap.k3*r*r*r*r*r*r)
     	- ap.p1 * (r*r + 2*xq*xq) - 2*ap.p2*xq*yq;
-    *y1 = y/cos(ap.she)
+    *y1 = ya
 	    - yq * (ap.k1*r*r + ap.k2*r*r*r*r + ap.k3*r*r*r*r*r*r)
     	- ap.p2 * (r*r + 2*yq*yq) - 2*ap.p1*xq*yq;
 }
-- 
2.43.0


From 206dd0ffbf1f82071f44d6f85423c708bbaf6482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:07 +0000
Subject: [PATCH 36/78] fix: multimedia look-up at the edge of the table mixes
 in values from its other end

---
 liboptv/src/multimed.c | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/liboptv/src/multimed.c b/liboptv/src/multimed.c
index 2abe438..1752976 100644
--- a/liboptv/src/multimed.c
+++ b/liboptv/src/multimed.c
@@ -341,7 +341,7 @@ void init_mmlut (volume_par *vpar, control_par *cpar, Calibration *cal) {
    Calibration parameters pointer, *cal
 */
 double get_mmf_from_mmlut (Calibration *cal, vec3d pos){
-    int i, ir,iz, nr,nz, rw, v4[4];
+    int ir,iz, nr,nz, rw, v4[4];
     double R, sr, sz, mmf = 1.0;
     vec3d temp;
     
@@ -361,10 +361,11 @@ double get_mmf_from_mmlut (Calibration *cal, vec3d pos){
     nz = cal->mmlut.nz;
     nr = cal->mmlut.nr;
     
-    /* check whether point is inside camera's object volume */
-    if (ir > nr)
+    /* check whether point is inside camera's object volume, i.e. in a box that
+       has all four vertices in the table. */
+    if (ir < 0  ||  ir >= nr - 1)
         return (0);
-    if (iz < 0  ||  iz > nz)
+    if (temp[2] < 0  ||  iz < 0  ||  iz >= nz - 1)
         return (0);
   
     /* bilinear interpolation in r/z box */
@@ -376,12 +377,6 @@ double get_mmf_from_mmlut (Calibration *cal, vec3d pos){
     v4[2] = (ir+1)*nz + iz;
     v4[3] = (ir+1)*nz + (iz+1);
   
-    /* 2. check wther point is inside camera's object volume */
-    /* important for epipolar line computation */
-    for (i = 0; i < 4; i++)
-        if (v4[i] < 0  ||  v4[i] > nr*nz)
-            return (0);
-    
     /* interpolate */
     mmf = cal->mmlut.data[v4[0]] * (1-sr)*(1-sz)
         + cal->mmlut.data[v4[1]] * (1-sr)*sz
-- 
2.43.0


From 4b13c707b27ffd6728e253b09f738f77eee33d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:49 +0000
Subject: [PATCH 37/78] fix: rebuilding the multimedia look-up table keeps the
 old values under a new geometry

---
 liboptv/src/multimed.c | 51 ++++++++++++++++++++++--------------------
 1 file changed, 27 insertions(+), 24 deletions(-)

diff --git a/liboptv/src/multimed.c b/liboptv/src/multimed.c
index 1752976..38bd68f 100644
--- a/liboptv/src/multimed.c
+++ b/liboptv/src/multimed.c
@@ -222,7 +222,7 @@ void move_along_ray(double glob_Z, vec3d vertex, vec3d direct, vec3d out) {
         specific data.
     
     Output:
-    initializes data in cal->mmlut->data
+    initializes data in cal->mmlut->data, replacing a table already there.
 */ 
 void init_mmlut (volume_par *vpar, control_par *cpar, Calibration *cal) {
   register int  i,j, nr, nz;
@@ -256,6 +256,11 @@ void init_mmlut (volume_par *vpar, control_par *cpar, Calibration *cal) {
   Zmin_t=Zmin;
   Zmax_t=Zmax;
 
+  /* A table made earlier holds for the parameters of that time, and must not 
+     be used when making the new one. */
+  free(cal->mmlut.data);
+  cal->mmlut.data = NULL;
+
   /* intersect with image vertices rays */
   cal_t = *cal;
 
@@ -307,29 +312,27 @@ void init_mmlut (volume_par *vpar, control_par *cpar, Calibration *cal) {
   cal->mmlut.nz = nz;
   cal->mmlut.rw = rw;
   
-  if (cal->mmlut.data == NULL) {
-      data = (double *) malloc (nr*nz * sizeof (double));
-  
-      /* fill mmlut structure */
-      Ri = (double *) malloc (nr * sizeof (double));
-      for (i = 0; i < nr; i++)
-        Ri[i] = i*rw;
-
-      Zi = (double *) malloc (nz * sizeof (double));
-      for (i = 0; i < nz; i++)
-        Zi[i] = Zmin_t + i*rw;
-
-      for (i = 0; i < nr; i++) {
-        for (j = 0; j < nz; j++) {
-            vec_set(xyz, Ri[i] + cal_t.ext_par.x0, cal_t.ext_par.y0, Zi[j]);
-            data[i*nz + j] = multimed_r_nlay(&cal_t, cpar->mm, xyz);
-        } /* nr */
-      } /* nz */
-    
-      free (Ri);
-      free (Zi);
-      cal->mmlut.data = data;
-    }
+  data = (double *) malloc (nr*nz * sizeof (double));
+
+  /* fill mmlut structure */
+  Ri = (double *) malloc (nr * sizeof (double));
+  for (i = 0; i < nr; i++)
+    Ri[i] = i*rw;
+
+  Zi = (double *) malloc (nz * sizeof (double));
+  for (i = 0; i < nz; i++)
+    Zi[i] = Zmin_t + i*rw;
+
+  for (i = 0; i < nr; i++) {
+    for (j = 0; j < nz; j++) {
+        vec_set(xyz, Ri[i] + cal_t.ext_par.x0, cal_t.ext_par.y0, Zi[j]);
+        data[i*nz + j] = multimed_r_nlay(&cal_t, cpar->mm, xyz);
+    } /* nr */
+  } /* nz */
+
+  free (Ri);
+  free (Zi);
+  cal->mmlut.data = data;
 }
 
 
-- 
2.43.0


From 289795a2ff43a9451d6af92a665807d2c1263681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:29 +0000
Subject: [PATCH 38/78] fix: dumbbell length is truncated to whole millimeters

---
 liboptv/include/orientation.h | 2 +-
 liboptv/src/orientation.c     | 4 ++--
 py_bind/optv/orientation.pxd  | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/liboptv/include/orientation.h b/liboptv/include/orientation.h
index 2b2535a..72a2438 100644
--- a/liboptv/include/orientation.h
+++ b/liboptv/include/orientation.h
@@ -41,7 +41,7 @@ double skew_midpoint(vec3d vert1, vec3d direct1, vec3d vert2, vec3d direct2,
 double point_position(vec2d targets[], int num_cams, mm_np *multimed_pars,
     Calibration* cals[], vec3d res);
 double weighted_dumbbell_precision(vec2d** targets, int num_targs, int num_cams,
-    mm_np *multimed_pars, Calibration* cals[], int db_length, double db_weight);
+    mm_np *multimed_pars, Calibration* cals[], double db_length, double db_weight);
 
 double* orient(Calibration* cal, control_par *cpar, int nfix, vec3d fix[], target pix[], 
             orient_par *flags, double sigmabeta[20]);
diff --git a/liboptv/src/orientation.c b/liboptv/src/orientation.c
index fa40698..ab5964a 100644
--- a/liboptv/src/orientation.c
+++ b/liboptv/src/orientation.c
@@ -139,13 +139,13 @@ double point_position(vec2d targets[], int num_cams, mm_np *multimed_pars,
     mm_np *multimed_pars - multimedia parameters struct for ray tracing through
         several layers.
     Calibration* cals[] - each camera's calibration object.
-    int db_length - distance between two consecutive targets (assuming the
+    double db_length - distance between two consecutive targets (assuming the
         targets list is a 2 by 2 list of dumbbell frames).
     double db_weight - the weight of the average length error compared to
         the average ray convergence error.
 */
 double weighted_dumbbell_precision(vec2d** targets, int num_targs, int num_cams,
-    mm_np *multimed_pars, Calibration* cals[], int db_length, double db_weight)
+    mm_np *multimed_pars, Calibration* cals[], double db_length, double db_weight)
 {
     int pt;
     double dtot = 0, len_err_tot = 0, dist;
diff --git a/py_bind/optv/orientation.pxd b/py_bind/optv/orientation.pxd
index 7228d34..fb172c2 100644
--- a/py_bind/optv/orientation.pxd
+++ b/py_bind/optv/orientation.pxd
@@ -31,6 +31,6 @@ cdef extern from "optv/orientation.h":
     orient_par* read_orient_par(char *filename)
     double weighted_dumbbell_precision(vec2d** targets, int num_targs, 
         int num_cams, mm_np *multimed_pars, calibration* cals[], 
-        int db_length, double db_weight)
+        double db_length, double db_weight)
 
 cdef calibration** cal_list2arr(list cals)
-- 
2.43.0


From 1af280cc214dfa7bb82a9332bcad33339d56133f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:20 +0000
Subject: [PATCH 39/78] fix: positioning functions leak their cameras and read
 missing ones

---
 py_bind/optv/orientation.pyx | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/py_bind/optv/orientation.pyx b/py_bind/optv/orientation.pyx
index b3ef927..91b0194 100644
--- a/py_bind/optv/orientation.pyx
+++ b/py_bind/optv/orientation.pyx
@@ -137,6 +137,7 @@ def single_cam_point_positions(np.ndarray[ndim=3, dtype=pos_t] targets,
                             calib[0], cparam._control_par.mm, vparam._volume_par, 
                             <vec3d> np.PyArray_GETPTR2(res, pt, 0));
 
+    free(calib)
     return res, rcm
           
 
@@ -170,6 +171,10 @@ def multi_cam_point_positions(np.ndarray[ndim=3, dtype=pos_t] targets,
 
     num_targets = targets.shape[0]
     num_cams = targets.shape[1]
+    if num_cams != len(cals):
+        free(calib)
+        raise ValueError("Number of cameras differs between targets and calibrations: "
+                         + str(num_cams) + " != " + str(len(cals)))
     res = np.empty((num_targets, 3))
     rcm = np.empty(num_targets)
 
@@ -179,6 +184,7 @@ def multi_cam_point_positions(np.ndarray[ndim=3, dtype=pos_t] targets,
                                  cparam._control_par.mm, calib,
                                  <vec3d> np.PyArray_GETPTR2(res, pt, 0))
 
+    free(calib)
     return res, rcm
 
 def external_calibration(Calibration cal, 
@@ -331,11 +337,19 @@ def dumbbell_target_func(np.ndarray[ndim=3, dtype=pos_t] targets,
     
     num_cams = targets.shape[1]
     num_pts = targets.shape[0]
+    if num_cams != len(cals):
+        free(calib)
+        raise ValueError("Number of cameras differs between targets and calibrations: "
+                         + str(num_cams) + " != " + str(len(cals)))
     ctargets = <vec2d **>calloc(num_pts, sizeof(vec2d*))
     
     for pt in range(num_pts):
         targ = targets[pt]
         ctargets[pt] = <vec2d *>(targ.data)
     
-    return weighted_dumbbell_precision(ctargets, num_pts, num_cams, 
+    res = weighted_dumbbell_precision(ctargets, num_pts, num_cams, 
         cparam._control_par.mm, calib,  db_length, db_weight)
+
+    free(ctargets)
+    free(calib)
+    return res
-- 
2.43.0


From 9dd814d30242507a9e3e66bdbeb931a709b343d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:33 +0000
Subject: [PATCH 40/78] fix: the y extent of the tracked volume starts from
 uninitialised memory

---
 liboptv/src/tracking_run.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/liboptv/src/tracking_run.c b/liboptv/src/tracking_run.c
index 8c983ae..1ac814b 100644
--- a/liboptv/src/tracking_run.c
+++ b/liboptv/src/tracking_run.c
@@ -67,6 +67,7 @@ tracking_run *tr_new(sequence_par *seq_par, track_par *tpar,
     tr->lmax = norm((tpar->dvxmin - tpar->dvxmax), \
                     (tpar->dvymin - tpar->dvymax), \
                     (tpar->dvzmin - tpar->dvzmax));
+    tr->ymin = tr->ymax = 0; /* extended to the visible range below */
     volumedimension(&(vpar->X_lay[1]), &(vpar->X_lay[0]), &(tr->ymax),
                     &(tr->ymin), &(vpar->Zmax_lay[1]), &(vpar->Zmin_lay[0]),
                     vpar, cpar, cal);
-- 
2.43.0


From a2954323b07c72a40f83ac9f57feb761b69a3d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:56 +0000
Subject: [PATCH 41/78] fix: the angle of collinear displacements is not a
 number when rounding pushes its cosine past 1

---
 liboptv/src/track.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/liboptv/src/track.c b/liboptv/src/track.c
index 7227688..5c1fef0 100644
--- a/liboptv/src/track.c
+++ b/liboptv/src/track.c
@@ -192,6 +192,7 @@ int pos3d_in_bounds(vec3d pos, track_par *bounds) {
 void angle_acc(vec3d start, vec3d pred, vec3d cand, double *angle, double *acc)
 {
     vec3d v0, v1;
+    double cosine;
 
     vec_subt(pred, start, v0);
     vec_subt(cand, start, v1);
@@ -204,8 +205,11 @@ void angle_acc(vec3d start, vec3d pred, vec3d cand, double *angle, double *acc)
     } else if ((v0[0] == v1[0]) && (v0[1] == v1[1]) && (v0[2] == v1[2])) {
         *angle = 0;         // otherwise it returns NaN
     } else {
-        *angle = (200./M_PI) * acos(vec_dot(v0, v1) / vec_norm(v0) \
-                                    / vec_norm(v1));
+        /* rounding may push the cosine of parallel vectors past 1 */
+        cosine = vec_dot(v0, v1) / vec_norm(v0) / vec_norm(v1);
+        if (cosine > 1.0) cosine = 1.0;
+        if (cosine < -1.0) cosine = -1.0;
+        *angle = (200./M_PI) * acos(cosine);
     }
 }
 
-- 
2.43.0


From cb161b7bed28d3395a2d79bda9a943fb017c9681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:41 +0000
Subject: [PATCH 42/78] fix: velocity limits are applied to added particles
 against their direction of motion

---
 liboptv/src/track.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/liboptv/src/track.c b/liboptv/src/track.c
index 5c1fef0..a0ab592 100644
--- a/liboptv/src/track.c
+++ b/liboptv/src/track.c
@@ -898,7 +898,7 @@ void trackcorr_c_loop (tracking_run *run_info, int step) {
                     in_volume = 1;
                 }
 
-                vec_subt(X[3], X[4], diff_pos);
+                vec_subt(X[4], X[3], diff_pos);
                 if ( in_volume == 1 && pos3d_in_bounds(diff_pos, tpar) ) {
                     angle_acc(X[3], X[4], X[5], &angle, &acc);
 
@@ -967,7 +967,7 @@ void trackcorr_c_loop (tracking_run *run_info, int step) {
                         in_volume = 1;
                     }
 
-                    vec_subt(X[2], X[3], diff_pos);
+                    vec_subt(X[3], X[1], diff_pos);
                     if ( in_volume == 1 && pos3d_in_bounds(diff_pos, tpar) ) {
                         angle_acc(X[1], X[2], X[3], &angle, &acc);
 
-- 
2.43.0


From c6f552b818e98685980535924907aa6f9f5c64c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:08 +0000
Subject: [PATCH 43/78] fix: tracking reads frames outside a sequence shorter
 than its buffer

---
 liboptv/src/track.c | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/liboptv/src/track.c b/liboptv/src/track.c
index a0ab592..37a732d 100644
--- a/liboptv/src/track.c
+++ b/liboptv/src/track.c
@@ -37,6 +37,20 @@
 /* internal-use defines, not needed by the outside world. */
 #define TR_UNUSED -1
 
+/* empty_frame() clears what a frame of the buffer holds from earlier use, for
+   places in the buffer that lie outside the sequence.
+   
+   Arguments:
+   frame *frm - the frame to clear.
+*/
+static void empty_frame(frame *frm) {
+    int cam;
+    
+    frm->num_parts = 0;
+    for (cam = 0; cam < frm->num_cams; cam++)
+        frm->num_targets[cam] = 0;
+}
+
 /* track_forward_start() - initializes the tracking frame buffer with the 
    first frames.
    
@@ -51,7 +65,10 @@ void track_forward_start(tracking_run *tr) {
          step < tr->seq_par->first + TR_BUFSPACE - 1; 
          step++) 
     {
-        fb_read_frame_at_end(tr->fb, step, 0);
+        if (step <= tr->seq_par->last)
+            fb_read_frame_at_end(tr->fb, step, 0);
+        else
+            empty_frame(tr->fb->buf[tr->fb->buf_len - 1]);
         fb_next(tr->fb);
     }
     fb_prev(tr->fb);
@@ -1099,7 +1116,10 @@ double trackback_c (tracking_run *run_info)
 
     /* Prime the buffer with first frames */
     for (step = seq_par->last; step > seq_par->last - 4; step--) {
-        fb_read_frame_at_end(fb, step, 1);
+        if (step >= seq_par->first)
+            fb_read_frame_at_end(fb, step, 1);
+        else
+            empty_frame(fb->buf[fb->buf_len - 1]);
         fb_next(fb);
     }
     fb_prev(fb);
-- 
2.43.0


From 124ec11a0c849416a8ce36ce1aebed7ae7ce2932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:30 +0000
Subject: [PATCH 44/78] fix: a Tracker whose constructor fails crashes when it
 is collected

---
 py_bind/optv/tracker.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py_bind/optv/tracker.pyx b/py_bind/optv/tracker.pyx
index cbf47d3..0720862 100644
--- a/py_bind/optv/tracker.pyx
+++ b/py_bind/optv/tracker.pyx
@@ -94,6 +94,8 @@ cdef class Tracker:
     
     def __dealloc__(self):
         # Don't call tr_free, just free the memory that belongs to us.
+        if self.run_info == NULL: # __init__ failed
+            return
         fb_free(self.run_info.fb)
         free(self.run_info.cal) # allocated by cal_list2arr, leafs belong to
                                 # owner of the Tracker.
-- 
2.43.0


From ad2434cf0ac93d038480f781d78b4f178c99bec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:29 +0000
Subject: [PATCH 45/78] fix: restarting a tracking run leaves a frame of the
 run before in the buffer

---
 liboptv/src/track.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/liboptv/src/track.c b/liboptv/src/track.c
index 37a732d..45cdbcc 100644
--- a/liboptv/src/track.c
+++ b/liboptv/src/track.c
@@ -72,6 +72,8 @@ void track_forward_start(tracking_run *tr) {
         fb_next(tr->fb);
     }
     fb_prev(tr->fb);
+    /* nothing precedes the first frame, whatever an earlier run left here */
+    empty_frame(tr->fb->buf[0]);
 }
 
 /* reset_foundpix_array() sets default values for foundpix objects in an array.
-- 
2.43.0


From 3ed6c28d0ae91a6c7115adc4b6a47381153abd11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:27 +0000
Subject: [PATCH 46/78] fix: a Tracker uses file names that may have been
 collected

---
 py_bind/optv/tracker.pyx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/py_bind/optv/tracker.pyx b/py_bind/optv/tracker.pyx
index 0720862..eff49aa 100644
--- a/py_bind/optv/tracker.pyx
+++ b/py_bind/optv/tracker.pyx
@@ -39,8 +39,10 @@ cdef class Tracker:
             files. See the ``default_naming`` member (which is the default).
         """
         # We need to keep a reference to the Python objects so that their
-        # allocations are not freed.
-        self._keepalive = (cpar, vpar, tpar, spar, cals)
+        # allocations are not freed. The frame buffer also points into the
+        # file names, and not all names are in use elsewhere.
+        self._keepalive = (cpar, vpar, tpar, spar, cals,
+            tuple(naming.values()))
         
         self.run_info = tr_new(spar._sequence_par, tpar._track_par,
             vpar._volume_par, cpar._control_par, TR_BUFSPACE, MAX_TARGETS,
-- 
2.43.0


From 1e90b0e451a898d8390c07a6ec3efb485cea79a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:05 +0000
Subject: [PATCH 47/78] fix: unmatched points in sortgrid's result carried
 uninitialised memory

---
 liboptv/src/sortgrid.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/liboptv/src/sortgrid.c b/liboptv/src/sortgrid.c
index ae961b9..cf70081 100644
--- a/liboptv/src/sortgrid.c
+++ b/liboptv/src/sortgrid.c
@@ -52,7 +52,7 @@ target* sortgrid (Calibration* cal, control_par *cpar, int nfix, vec3d fix[], in
   double        xp,yp;
       
   /* sorted pix should be just of the same size as fix[] */
-  sorted_pix = (target *) malloc(nfix * sizeof(target));
+  sorted_pix = (target *) calloc(nfix, sizeof(target));
 
   for (i=0; i<nfix; i++) sorted_pix[i].pnr = -999;
 
-- 
2.43.0


From e91f7bc2d2b844eaafeb0eea4078e11d1e26768f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:38 +0000
Subject: [PATCH 48/78] fix: orient() compared corrected detections with
 distorted projections

---
 liboptv/src/orientation.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/liboptv/src/orientation.c b/liboptv/src/orientation.c
index ab5964a..431dfbd 100644
--- a/liboptv/src/orientation.c
+++ b/liboptv/src/orientation.c
@@ -360,9 +360,9 @@ double* orient (Calibration* cal_in, control_par *cpar, int nfix, vec3d fix[],
             case 3: if ((i % 3) == 0)  continue;  break;
         }
 
-        /* get metric flat-image coordinates of the detected point */
+        /* get metric (distorted) coordinates of the detected point, to compare
+           to the projection below, which is distorted too. */
         pixel_to_metric (&xc, &yc, pix[i].x, pix[i].y, cpar);
-        correct_brown_affin (xc, yc, cal->added_par, &xc, &yc);
 
         /* Projected 2D position on sensor of corresponding known point */
         rotation_matrix(&(cal->ext_par));
-- 
2.43.0


From bc9fad1503931d24cc459dfcfb336c0c77022e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:50 +0000
Subject: [PATCH 49/78] fix: orient() reset the glass vector it fits in every
 iteration

---
 liboptv/src/orientation.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/liboptv/src/orientation.c b/liboptv/src/orientation.c
index 431dfbd..f14a356 100644
--- a/liboptv/src/orientation.c
+++ b/liboptv/src/orientation.c
@@ -334,10 +334,6 @@ double* orient (Calibration* cal_in, control_par *cpar, int nfix, vec3d fix[],
     ident[8] = cal->added_par.scx;
     ident[9] = cal->added_par.she;
 
-    safety_x = cal->glass_par.vec_x;
-    safety_y = cal->glass_par.vec_y;
-    safety_z = cal->glass_par.vec_z;
-    
     /* main loop, program runs through it, until none of the beta values
       comes over a threshold and no more points are thrown out
       because of their residuals */
@@ -347,6 +343,11 @@ double* orient (Calibration* cal_in, control_par *cpar, int nfix, vec3d fix[],
     while ((stopflag == 0) && (itnum < NUM_ITER)) {
       itnum++;
 
+      /* the current glass vector, restored after each derivative */
+      safety_x = cal->glass_par.vec_x;
+      safety_y = cal->glass_par.vec_y;
+      safety_z = cal->glass_par.vec_z;
+
       for (i = 0, n = 0; i < nfix; i++) {
         /* check for correct correspondence
         note that we do not use anymore pointer in fix, the points are read by
-- 
2.43.0


From ef9cef552b19b63848a6e9d90297e3b9e4e30a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:24 +0000
Subject: [PATCH 50/78] fix: raw_orient() wrote outside its arrays when given
 more than five points

---
 liboptv/src/orientation.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/liboptv/src/orientation.c b/liboptv/src/orientation.c
index f14a356..9ef1bf4 100644
--- a/liboptv/src/orientation.c
+++ b/liboptv/src/orientation.c
@@ -614,18 +614,15 @@ double* orient (Calibration* cal_in, control_par *cpar, int nfix, vec3d fix[],
 
 int raw_orient (Calibration* cal, control_par *cpar, int nfix, vec3d fix[], target pix[])
 {
-    double  X[10][6], y[10], XPX[6][6], XPy[6], beta[6];
-    int     i, j, n, itnum, stopflag;
+    double  (*X)[6], *y, XPX[6][6], XPy[6], beta[6];
+    int     i, n, itnum, stopflag;
     double  dm = 0.0001,  drad = 0.0001;
     double 	xp, yp, xc, yc;
     vec3d   pos;
 
-    /* init X, y (set to zero) */
-    for (i = 0; i < 10; i++) {
-      for (j = 0; j < 6; j++)
-        X[i][j] = 0;
-      y[i] = 0;
-    }
+    /* two rows for each point */
+    X = calloc(2*nfix + 1, sizeof(*X));
+    y = (double *) calloc(2*nfix + 1, sizeof(double));
 
     cal->added_par.k1 = 0;
     cal->added_par.k2 = 0;
@@ -691,6 +688,9 @@ int raw_orient (Calibration* cal, control_par *cpar, int nfix, vec3d fix[], targ
     
     }
 
+    free(X);
+    free(y);
+
     if (stopflag) {
         rotation_matrix(&(cal->ext_par));
     }
-- 
2.43.0


From 1a7f974eca9d27c901558795bf77629bebf1abc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:55 +0000
Subject: [PATCH 51/78] fix: orient() and raw_orient() took singular and
 underdetermined systems as solved

---
 liboptv/src/orientation.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/liboptv/src/orientation.c b/liboptv/src/orientation.c
index 9ef1bf4..aa40b72 100644
--- a/liboptv/src/orientation.c
+++ b/liboptv/src/orientation.c
@@ -253,7 +253,7 @@ double* orient (Calibration* cal_in, control_par *cpar, int nfix, vec3d fix[],
 {
     int  	i,j,n, itnum, stopflag, n_obs=0, maxsize;
 
-    double  ident[IDT], XPX[NPAR][NPAR], XPy[NPAR], beta[NPAR], omega=0;
+    double  ident[IDT], XPX[NPAR][NPAR] = {{0}}, XPy[NPAR], beta[NPAR] = {0}, omega=0;
     double xp, yp, xpd, ypd, xc, yc, r, qq, p, sumP;
 
     int numbers;
@@ -499,6 +499,8 @@ double* orient (Calibration* cal_in, control_par *cpar, int nfix, vec3d fix[],
       P[n_obs+9] = ( ! flags->sheflag) ?  POS_INF : 1;
 
       n_obs += IDT;
+      if (n_obs < numbers) break;       /* not enough points */
+
       sumP = 0;
       for (i = 0; i < n_obs; i++) {       	/* homogenize */
           p = sqrt (P[i]);
@@ -520,7 +522,8 @@ double* orient (Calibration* cal_in, control_par *cpar, int nfix, vec3d fix[],
 
       stopflag = 1;
       for (i = 0; i < numbers; i++) {
-          if (fabs (beta[i]) > CONVERGENCE)  stopflag = 0;
+          if (! (fabs (beta[i]) <= CONVERGENCE))  stopflag = 0;
+          if (! isfinite(beta[i])) itnum = NUM_ITER;  /* singular, give up */
       }
 
       if ( ! flags->ccflag) beta[6] = 0.0;
@@ -639,7 +642,8 @@ int raw_orient (Calibration* cal, control_par *cpar, int nfix, vec3d fix[], targ
     itnum = 0;
     stopflag = 0;
 
-    while ((stopflag == 0) && (itnum < 20)) {
+    /* fewer than three points don't determine an orientation */
+    while ((stopflag == 0) && (itnum < 20) && (nfix >= 3)) {
         ++itnum;
 
         for (i = 0, n = 0; i < nfix; i++) {
@@ -675,8 +679,9 @@ int raw_orient (Calibration* cal, control_par *cpar, int nfix, vec3d fix[], targ
     
         stopflag = 1;
         for (i = 0; i < 6; i++) {
-          if (fabs (beta[i]) > 0.1 )
+          if (! (fabs (beta[i]) <= 0.1))
             stopflag = 0;
+          if (! isfinite(beta[i])) itnum = 20;      /* singular, give up */
         }
     
         cal->ext_par.x0 += beta[0];
-- 
2.43.0


From 5c4ab3a14c6c2192c568c1a51a995f1ede54edc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:10 +0000
Subject: [PATCH 52/78] fix: raw_orient() left a half-fitted or undefined
 orientation behind when it failed

---
 liboptv/src/orientation.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/liboptv/src/orientation.c b/liboptv/src/orientation.c
index aa40b72..2c6c0a6 100644
--- a/liboptv/src/orientation.c
+++ b/liboptv/src/orientation.c
@@ -610,7 +610,7 @@ double* orient (Calibration* cal_in, control_par *cpar, int nfix, vec3d fix[],
     Output:
     Calibration *cal overwritten with the updated orientation, only 6 external parameters
                      being updated: x,y,z,omega,phi,kappa
-    returns 1 for success, 0 for failure of convergence
+    returns 1 for success, 0 for failure of convergence (then cal is unchanged)
 
 */
 
@@ -622,6 +622,7 @@ int raw_orient (Calibration* cal, control_par *cpar, int nfix, vec3d fix[], targ
     double  dm = 0.0001,  drad = 0.0001;
     double 	xp, yp, xc, yc;
     vec3d   pos;
+    Calibration cal_in = *cal;
 
     /* two rows for each point */
     X = calloc(2*nfix + 1, sizeof(*X));
@@ -698,6 +699,8 @@ int raw_orient (Calibration* cal, control_par *cpar, int nfix, vec3d fix[], targ
 
     if (stopflag) {
         rotation_matrix(&(cal->ext_par));
+    } else {
+        *cal = cal_in;
     }
     return stopflag;
 }
-- 
2.43.0


From 3bf22235c09d568e7dd138402a1a1dc5f016db32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:45 +0000
Subject: [PATCH 53/78] fix: full_calibration() attributed residuals to the
 wrong points when some were unmatched

---
 py_bind/optv/orientation.pyx | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/py_bind/optv/orientation.pyx b/py_bind/optv/orientation.pyx
index 91b0194..fba8c75 100644
--- a/py_bind/optv/orientation.pyx
+++ b/py_bind/optv/orientation.pyx
@@ -293,7 +293,7 @@ def full_calibration(Calibration cal,
     orip[0].sheflag = (1 if 'shear' in flags else 0)
     orip[0].interfflag = 0 # This also solves for the glass, I'm skipping it.
     
-    err_est = np.empty((NPAR + 1) * sizeof(double))
+    err_est = np.empty(NPAR + 1)
     residuals = orient(cal._calibration, cparam._control_par, len(ref_pts), 
         ref_coord, img_pts._tarr, orip, <double *>err_est.data)
     
@@ -303,12 +303,13 @@ def full_calibration(Calibration cal,
         free(residuals)
         raise ValueError("Orientation iteration failed, need better setup.")
     
-    ret = np.empty((len(img_pts), 2))
-    used = np.empty(len(img_pts), dtype=np.int_)
+    # The residuals are those of the matched points only, in their order.
+    used = np.array([ix for ix in range(len(ref_pts))
+        if img_pts[ix].pnr() == ix], dtype=np.int_)
+    ret = np.empty((len(used), 2))
     
-    for ix in range(len(img_pts)):
+    for ix in range(len(used)):
         ret[ix] = (residuals[2*ix], residuals[2*ix + 1])
-        used[ix] = img_pts[ix].pnr()
     
     free(residuals)
     return ret, used, err_est
-- 
2.43.0


From 5e3be3996d73ee09df2eea53b0089193a8e17325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:00 +0000
Subject: [PATCH 54/78] fix: calibration functions of the bindings read outside
 arrays of too few points or columns

---
 py_bind/optv/orientation.pyx | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/py_bind/optv/orientation.pyx b/py_bind/optv/orientation.pyx
index fba8c75..78cfc72 100644
--- a/py_bind/optv/orientation.pyx
+++ b/py_bind/optv/orientation.pyx
@@ -47,6 +47,9 @@ def match_detection_to_ref(Calibration cal,
         target *sorted_targs
         TargetArray t = TargetArray()
 
+    if ref_pts.shape[1] != 3:
+        raise ValueError("Need an (n,3) array of reference points.")
+
     ref_pts = np.ascontiguousarray(ref_pts)
     ref_coord = <vec3d *> ref_pts.data
 
@@ -211,6 +214,10 @@ def external_calibration(Calibration cal,
         target *targs
         vec3d *ref_coord
     
+    if ref_pts.shape[1] != 3 or len(img_pts) < len(ref_pts):
+        raise ValueError("Need an (n,3) array of reference points and as many "
+            "image points.")
+    
     ref_pts = np.ascontiguousarray(ref_pts)
     ref_coord = <vec3d *>ref_pts.data
     
@@ -274,6 +281,10 @@ def full_calibration(Calibration cal,
         orient_par *orip
         double *residuals
     
+    if ref_pts.shape[1] != 3 or len(img_pts) < len(ref_pts):
+        raise ValueError("Need an (n,3) array of reference points and as many "
+            "image points.")
+    
     ref_pts = np.ascontiguousarray(ref_pts)
     ref_coord = <vec3d *>ref_pts.data
 
-- 
2.43.0


From abf5bfec596bc82c3324a6783b363617525024c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:18 +0000
Subject: [PATCH 55/78] fix: a Target taken from an array outlives the memory
 it points to

TargetArray frees its targets when collected, while Targets taken from it
kept pointing there, so read_targets(...)[0].pos() read freed memory.
---
 py_bind/optv/tracking_framebuf.pxd | 1 +
 py_bind/optv/tracking_framebuf.pyx | 1 +
 2 files changed, 2 insertions(+)

diff --git a/py_bind/optv/tracking_framebuf.pxd b/py_bind/optv/tracking_framebuf.pxd
index 1a29a35..435d66b 100644
--- a/py_bind/optv/tracking_framebuf.pxd
+++ b/py_bind/optv/tracking_framebuf.pxd
@@ -38,6 +38,7 @@ cdef extern from "optv/tracking_frame_buf.h":
 cdef class Target:
     cdef target* _targ
     cdef int _owns_data
+    cdef object _owner # of the memory, when it is not the Target itself.
     cdef void set(Target self, target* targ)
 
 cdef class TargetArray:
diff --git a/py_bind/optv/tracking_framebuf.pyx b/py_bind/optv/tracking_framebuf.pyx
index 06b5f3f..8b41672 100644
--- a/py_bind/optv/tracking_framebuf.pyx
+++ b/py_bind/optv/tracking_framebuf.pyx
@@ -187,6 +187,7 @@ cdef class TargetArray:
         
         ret = Target()
         ret.set(self._tarr + ix)
+        ret._owner = self # the target lives in this array's memory.
         return ret
     
     def __len__(self):
-- 
2.43.0


From d057f2f3aaeb96cbe52e5f1b2bdef414663cf34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:18 +0000
Subject: [PATCH 56/78] fix: read_targets() returns an array of length -1 when
 its file is bad

Its len() raised SystemError, and using it as input read outside memory.
---
 py_bind/optv/tracking_framebuf.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/py_bind/optv/tracking_framebuf.pyx b/py_bind/optv/tracking_framebuf.pyx
index 8b41672..62608bb 100644
--- a/py_bind/optv/tracking_framebuf.pyx
+++ b/py_bind/optv/tracking_framebuf.pyx
@@ -221,6 +221,9 @@ def read_targets(basename, int frame_num):
     c_string = py_byte_string
     
     num_targets = c_read_targets(tarr, c_string, frame_num)
+    if num_targets < 0:
+        free(tarr)
+        raise IOError("Problem reading targets.")
     ret.set(tarr, num_targets, 1)
     
     return ret
-- 
2.43.0


From 28a8dac9aaed35b37f7cb76b0a12f05a98c3cbfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:10 +0000
Subject: [PATCH 57/78] fix: image names of cameras that do not exist are read
 and written outside memory

---
 py_bind/optv/parameters.pxd |  1 +
 py_bind/optv/parameters.pyx | 30 ++++++++++++++++++++++++------
 2 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/py_bind/optv/parameters.pxd b/py_bind/optv/parameters.pxd
index b9149b5..4165c0e 100644
--- a/py_bind/optv/parameters.pxd
+++ b/py_bind/optv/parameters.pxd
@@ -13,6 +13,7 @@ cdef extern from "optv/parameters.h":
         int dsumg, dn, dnx, dny, add
     
     ctypedef struct sequence_par:
+        int num_cams
         char ** img_base_name
         int first, last
         
diff --git a/py_bind/optv/parameters.pyx b/py_bind/optv/parameters.pyx
index 8bc01ed..65c7c20 100644
--- a/py_bind/optv/parameters.pyx
+++ b/py_bind/optv/parameters.pyx
@@ -409,8 +409,12 @@ cdef class SequenceParams:
         
     # Get image base name of camera #cam
     def get_img_base_name(self, cam):
-        cdef char * c_str = self._sequence_par[0].img_base_name[cam]
-        cdef py_str = c_str
+        cdef char * c_str
+        cdef py_str
+        if not 0 <= cam < self._sequence_par[0].num_cams:
+            raise IndexError("No such camera: " + str(cam))
+        c_str = self._sequence_par[0].img_base_name[cam]
+        py_str = c_str
         return py_str
     
     # Set image base name for camera #cam
@@ -419,6 +423,8 @@ cdef class SequenceParams:
         cdef char * c_string = py_byte_string
         if len(py_byte_string) >= SEQ_FNAME_MAX_LEN:
             raise ValueError("Image base name is too long.")
+        if not 0 <= cam < self._sequence_par[0].num_cams:
+            raise IndexError("No such camera: " + str(cam))
         strncpy(self._sequence_par[0].img_base_name[cam], c_string, len(py_byte_string) + 1)
     
     # Checks for equality between this and other SequenceParams objects
@@ -728,8 +734,12 @@ cdef class ControlParams:
         
     # Get image base name of camera #cam
     def get_img_base_name(self, cam):
-        cdef char * c_str = self._control_par[0].img_base_name[cam]
-        cdef py_str = c_str
+        cdef char * c_str
+        cdef py_str
+        if not 0 <= cam < self._control_par[0].num_cams:
+            raise IndexError("No such camera: " + str(cam))
+        c_str = self._control_par[0].img_base_name[cam]
+        py_str = c_str
         return py_str
     
     # Set image base name for camera #cam
@@ -738,12 +748,18 @@ cdef class ControlParams:
         cdef char * c_string = py_byte_string
         if len(py_byte_string) >= SEQ_FNAME_MAX_LEN:
             raise ValueError("Image base name is too long.")
+        if not 0 <= cam < self._control_par[0].num_cams:
+            raise IndexError("No such camera: " + str(cam))
         strncpy(self._control_par[0].img_base_name[cam], c_string, len(py_byte_string) + 1)
     
     # Get calibration image base name of camera #cam
     def get_cal_img_base_name(self, cam):
-        cdef char * c_str = self._control_par[0].cal_img_base_name[cam]
-        cdef py_str = c_str
+        cdef char * c_str
+        cdef py_str
+        if not 0 <= cam < self._control_par[0].num_cams:
+            raise IndexError("No such camera: " + str(cam))
+        c_str = self._control_par[0].cal_img_base_name[cam]
+        py_str = c_str
         return py_str
     
     # Set calibration image base name for camera #cam
@@ -752,6 +768,8 @@ cdef class ControlParams:
         cdef char * c_string = py_byte_string
         if len(py_byte_string) >= SEQ_FNAME_MAX_LEN:
             raise ValueError("Image base name is too long.")
+        if not 0 <= cam < self._control_par[0].num_cams:
+            raise IndexError("No such camera: " + str(cam))
         strncpy(self._control_par[0].cal_img_base_name[cam], c_string, len(py_byte_string) + 1)
     
     def get_multimedia_params(self):
-- 
2.43.0


From decfa2306ae3361069b986faecbdb3cff3a732c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:59 +0000
Subject: [PATCH 58/78] fix: reading a parameter or calibration file frees
 memory still in use by others

Trackers and array views (copy=False) of multimedia parameters point to the
C structs of parameter objects; from_file() and read_*() freed them.
---
 py_bind/optv/calibration.pyx |  5 +++--
 py_bind/optv/parameters.pyx  | 24 +++++++++++++-----------
 2 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/py_bind/optv/calibration.pyx b/py_bind/optv/calibration.pyx
index 2b8f74a..e0e8f4c 100644
--- a/py_bind/optv/calibration.pyx
+++ b/py_bind/optv/calibration.pyx
@@ -78,8 +78,9 @@ cdef class Calibration:
         if read_cal == NULL:
             raise IOError("Problem reading calibration.")
         
-        free(self._calibration)
-        self._calibration = read_cal
+        # Others (a Tracker) may point to our C struct: keep its address.
+        self._calibration[0] = read_cal[0]
+        free(read_cal)
         
     def write(self, filename, add_file):
         """
diff --git a/py_bind/optv/parameters.pyx b/py_bind/optv/parameters.pyx
index 65c7c20..7a8d6bf 100644
--- a/py_bind/optv/parameters.pyx
+++ b/py_bind/optv/parameters.pyx
@@ -403,9 +403,10 @@ cdef class SequenceParams:
         if read_par == NULL:
             raise IOError("Problem reading sequence parameters.")
         
-        # free the memory of previous C struct and its inner strings.
-        c_free_sequence_par(self._sequence_par)
-        self._sequence_par = read_par
+        # Others (a Tracker) may point to our C struct: keep its address, and
+        # free the previous content with its inner strings.
+        self._sequence_par[0], read_par[0] = read_par[0], self._sequence_par[0]
+        c_free_sequence_par(read_par)
         
     # Get image base name of camera #cam
     def get_img_base_name(self, cam):
@@ -723,14 +724,15 @@ cdef class ControlParams:
         if read_par == NULL:
             raise IOError("Problem reading control parameters.")
         
-        # free the memory of previous C struct and its inner strings
-        c_free_control_par(self._control_par)
-        # memory for _multimedia_params' mm_np struct was just freed,
-        # so set _multimedia params' mm_np pointer to NULL to avoid double free corruption 
-        self._multimedia_params._mm_np = NULL
-        self._control_par = read_par
-        # set _multimedia_params's _mm_np to the new mm_np that just allocated and read into _control_par
-        self._multimedia_params.set_mm_np(self._control_par[0].mm)
+        # Others (a Tracker, array views of the multimedia parameters) may
+        # point to our C structs: keep their address, and free the previous
+        # content with its inner strings.
+        self._multimedia_params._mm_np[0] = read_par.mm[0]
+        self._control_par[0], read_par[0] = read_par[0], self._control_par[0]
+        free(self._control_par[0].mm)
+        self._control_par[0].mm = self._multimedia_params._mm_np
+        read_par.mm = NULL # which is _multimedia_params' now.
+        c_free_control_par(read_par)
         
     # Get image base name of camera #cam
     def get_img_base_name(self, cam):
-- 
2.43.0


From 796fe78eb6e839247cfe3e5dfa197ec151fadb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:59 +0000
Subject: [PATCH 59/78] fix: asking an unread Frame, or for a camera it does
 not have, crashes

---
 py_bind/optv/tracking_framebuf.pyx | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/py_bind/optv/tracking_framebuf.pyx b/py_bind/optv/tracking_framebuf.pyx
index 62608bb..ca79d64 100644
--- a/py_bind/optv/tracking_framebuf.pyx
+++ b/py_bind/optv/tracking_framebuf.pyx
@@ -311,6 +311,9 @@ cdef class Frame:
             np.ndarray[ndim=2, dtype=pos_t] pos3d
             double *vec
         
+        if self._frm == NULL: # dummy frame, nothing read yet.
+            return np.empty((0, 3))
+        
         pos3d = np.empty((self._frm.num_parts, 3))
         for pt in range(self._frm.num_parts):
             vec = <double *>np.PyArray_GETPTR2(pos3d, pt, 0)
@@ -336,6 +339,11 @@ cdef class Frame:
             np.ndarray[ndim=2, dtype=pos_t] pos2d
             int tix
         
+        if not 0 <= cam < self._num_cams:
+            raise IndexError("No such camera: " + str(cam))
+        if self._frm == NULL: # dummy frame, nothing read yet.
+            return np.empty((0, 2))
+        
         pos2d = np.empty((self._frm.num_parts, 2))
         for pt in range(self._frm.num_parts):
             tix = self._frm.correspond[pt].p[cam]
-- 
2.43.0


From 02ce6e2f8eb29e5d328ac018959cdda85f9712e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:59 +0000
Subject: [PATCH 60/78] fix: positioning functions misread target arrays that
 do not have two columns

---
 py_bind/optv/orientation.pyx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/py_bind/optv/orientation.pyx b/py_bind/optv/orientation.pyx
index 78cfc72..04e70fe 100644
--- a/py_bind/optv/orientation.pyx
+++ b/py_bind/optv/orientation.pyx
@@ -102,6 +102,9 @@ def point_positions(np.ndarray[ndim=3, dtype=pos_t] targets,
         np.ndarray[ndim=2, dtype=pos_t] res
         np.ndarray[ndim=1, dtype=pos_t] rcm
 
+    if targets.shape[2] != 2:
+        raise ValueError("Need an (n,cameras,2) array of targets.")
+
     if len(cals) == 1:
         res, rcm = single_cam_point_positions(targets, cparam, cals, vparam)
     elif len(cals) > 1:
@@ -349,6 +352,9 @@ def dumbbell_target_func(np.ndarray[ndim=3, dtype=pos_t] targets,
     
     num_cams = targets.shape[1]
     num_pts = targets.shape[0]
+    if targets.shape[2] != 2:
+        free(calib)
+        raise ValueError("Need an (n,cameras,2) array of targets.")
     if num_cams != len(cals):
         free(calib)
         raise ValueError("Number of cameras differs between targets and calibrations: "
-- 
2.43.0


From b874543a76cad297622d8f822b20d7dc1f2f0f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:23 +0000
Subject: [PATCH 61/78] fix: correspondences() of two or three cameras writes
 past its scratch table when many candidates are ambiguous

---
 liboptv/src/correspondences.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/liboptv/src/correspondences.c b/liboptv/src/correspondences.c
index 3dc0db9..82f1d38 100644
--- a/liboptv/src/correspondences.c
+++ b/liboptv/src/correspondences.c
@@ -620,7 +620,7 @@ n_tupel *correspondences (frame *frm, coord_2d **corrected,
   /* Allocation of scratch buffers for internal tasks and return-value 
      space. 
   */
-  con0 = (n_tupel *) malloc(cpar->num_cams*nmax * sizeof(n_tupel));
+  con0 = (n_tupel *) malloc(4*nmax * sizeof(n_tupel)); /* as searched below */
   con = (n_tupel *) malloc(cpar->num_cams*nmax * sizeof(n_tupel)); 
   
   tim = safely_allocate_target_usage_marks(cpar->num_cams);
-- 
2.43.0


From 60d071b15a7731167b7386545c4ca47695e24f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:32 +0000
Subject: [PATCH 62/78] fix: peak_fit runs out of its fixed tables on images
 with many or large spots

---
 liboptv/src/segmentation.c | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/liboptv/src/segmentation.c b/liboptv/src/segmentation.c
index ea30a26..c8596f9 100644
--- a/liboptv/src/segmentation.c
+++ b/liboptv/src/segmentation.c
@@ -249,6 +249,7 @@ int peak_fit (unsigned char *img, target_par *targ_par, int xmin, int xmax,
 int ymin, int ymax, control_par *cpar, int num_cam, target pix[]){
     int imx, imy; /* save dereferencing of same in cpar */
     int           n_peaks=0;        /* # of peaks detected */
+    int           max_peaks=4096;   /* # of peaks there is room for */
     int           n_wait;               /* size of waitlist for connectivity */
     int           x8[4], y8[4];         /* neighbours for connectivity */
     int           p2;               /* considered point number */
@@ -264,11 +265,9 @@ int ymin, int ymax, control_par *cpar, int num_cam, target pix[]){
     unsigned char gv, gvref;      /* current and reference greyvalue */
     unsigned char gv1, gv2;           /* greyvalues for profile test */
     double        x1,x2,y1,y2,s12;    /* values for profile test */
-    short         *label_img;           /* target number labeling */
-    /* the following were not assigned, probably from globals */
-    int nmax = 1024; 
+    int           *label_img;           /* target number labeling */
     peak          *peaks, *ptr_peak;    /* detected peaks */
-    targpix       waitlist[2048];     /* pix to be tested for connectivity */
+    targpix       *waitlist;          /* pix to be tested for connectivity */
 
     imx = cpar->imx;
     imy = cpar->imy;
@@ -277,9 +276,9 @@ int ymin, int ymax, control_par *cpar, int num_cam, target pix[]){
     disco = targ_par->discont;
 
     /* allocate memory */
-    label_img = (short *) calloc (imx*imy, sizeof(short));
-    peaks = (peak *) calloc (4*nmax, sizeof(peak));
-    ptr_peak = peaks;
+    label_img = (int *) calloc (imx*imy, sizeof(int));
+    peaks = (peak *) calloc (max_peaks, sizeof(peak));
+    waitlist = (targpix *) malloc ((imx*imy + 1) * sizeof(targpix));
 
 
     /* connectivity analysis with peak search and discontinuity criterion */
@@ -304,6 +303,11 @@ int ymin, int ymax, control_par *cpar, int num_cam, target pix[]){
            &&   gv >= *(img + n+imx+1) )
             {
               /* label peak in label_img, initialize peak */
+              if (n_peaks == max_peaks) {
+                  max_peaks *= 2;
+                  peaks = (peak *) realloc (peaks, max_peaks * sizeof(peak));
+              }
+              ptr_peak = peaks + n_peaks;
               n_peaks++;
               *(label_img + n) = n_peaks;
               ptr_peak->pos = n;
@@ -317,7 +321,6 @@ int ymin, int ymax, control_par *cpar, int num_cam, target pix[]){
               ptr_peak->y = 0;
               ptr_peak->n_touch = 0;
               for (k=0; k<4; k++)   ptr_peak->touch[k] = 0;
-              ptr_peak++;
 
               waitlist[0][0] = j;  waitlist[0][1] = i;  n_wait = 1;
 
@@ -370,6 +373,8 @@ int ymin, int ymax, control_par *cpar, int num_cam, target pix[]){
             }
     }
 
+    free (waitlist);
+
     /* 2.:    process label image */
     /*        (collect data for center of gravity, shape and brightness parameters) */
     /*        get touch events */
-- 
2.43.0


From a9ed734ac1447a8fddfe21db9f561d6516a08173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:00 +0000
Subject: [PATCH 63/78] fix: peak_fit reads outside the image when the window
 reaches its rim

---
 liboptv/src/segmentation.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/liboptv/src/segmentation.c b/liboptv/src/segmentation.c
index c8596f9..2ff0e0c 100644
--- a/liboptv/src/segmentation.c
+++ b/liboptv/src/segmentation.c
@@ -272,6 +272,13 @@ int ymin, int ymax, control_par *cpar, int num_cam, target pix[]){
     imx = cpar->imx;
     imy = cpar->imy;
 
+    /* Make sure the min/max coordinates don't cause us to access memory
+       outside the image memory, pixels on its rim have no 8 neighbours. */
+    if (xmin <= 0) xmin = 1;
+    if (ymin <= 0) ymin = 1;
+    if (xmax >= imx) xmax = imx - 1;
+    if (ymax > imy) ymax = imy;
+
     thres = targ_par->gvthres[num_cam];
     disco = targ_par->discont;
 
-- 
2.43.0


From b41a4ea404d679b0e0f657013647d26ec458f387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:26 +0000
Subject: [PATCH 64/78] fix: peak_fit counts a spot unified with the first one
 twice

---
 liboptv/src/segmentation.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/liboptv/src/segmentation.c b/liboptv/src/segmentation.c
index 2ff0e0c..76fcf8c 100644
--- a/liboptv/src/segmentation.c
+++ b/liboptv/src/segmentation.c
@@ -465,7 +465,7 @@ int ymin, int ymax, control_par *cpar, int num_cam, target pix[]){
 
           /* otherwise unify targets */
           unified++;
-          peaks[i].unr = p2;
+          peaks[i].unr = p2 + 1; /* 0 is for targets not unified */
           peaks[p2].x += peaks[i].x;
           peaks[p2].y += peaks[i].y;
           peaks[p2].sumg += peaks[i].sumg;
-- 
2.43.0


From d575b81a43196308e9a094fa6051509eccf32e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:00 +0000
Subject: [PATCH 65/78] fix: peak_fit adds one spot to several of its
 neighbours

---
 liboptv/src/segmentation.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/liboptv/src/segmentation.c b/liboptv/src/segmentation.c
index 76fcf8c..fe2807b 100644
--- a/liboptv/src/segmentation.c
+++ b/liboptv/src/segmentation.c
@@ -474,6 +474,7 @@ int ymin, int ymax, control_par *cpar, int num_cam, target pix[]){
           if (peaks[i].ymin < peaks[p2].ymin)   peaks[p2].ymin = peaks[i].ymin;
           if (peaks[i].xmax > peaks[p2].xmax)   peaks[p2].xmax = peaks[i].xmax;
           if (peaks[i].ymax > peaks[p2].ymax)   peaks[p2].ymax = peaks[i].ymax;
+          break; /* part of one other target only */
       }
     }
 
-- 
2.43.0


From fa83a62537b2b187a66f55f1d96d58cd0a359f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:27 +0000
Subject: [PATCH 66/78] fix: peak_fit wraps bright greyvalues around in its
 profile test

---
 liboptv/src/segmentation.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/liboptv/src/segmentation.c b/liboptv/src/segmentation.c
index fe2807b..c80ecdf 100644
--- a/liboptv/src/segmentation.c
+++ b/liboptv/src/segmentation.c
@@ -262,7 +262,7 @@ int ymin, int ymax, control_par *cpar, int num_cam, target pix[]){
     int           unified=0;          /* # of unified targets */
     int       non_unified=0;          /* # of tested, but not unified targets */
     register int  i, j, k, l, m, n;     /* loop variables */
-    unsigned char gv, gvref;      /* current and reference greyvalue */
+    int           gv, gvref;      /* current and reference greyvalue */
     unsigned char gv1, gv2;           /* greyvalues for profile test */
     double        x1,x2,y1,y2,s12;    /* values for profile test */
     int           *label_img;           /* target number labeling */
-- 
2.43.0


From 810bdead6dbc63fe437b0eee876647198cf4fb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:21 +0000
Subject: [PATCH 67/78] fix: tr_new_legacy crashes when a parameter file can't
 be read

---
 liboptv/src/tracking_run.c | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/liboptv/src/tracking_run.c b/liboptv/src/tracking_run.c
index 1ac814b..00d61f5 100644
--- a/liboptv/src/tracking_run.c
+++ b/liboptv/src/tracking_run.c
@@ -13,14 +13,30 @@
    char *tpar_fname - path to tracking parameters file.
    char *vpar_fname - path to volume parameters file.
    char *cpar_fname - path to control parameters file.
+   
+   Returns:
+   the new run, or NULL if one of the files can't be read.
 */
 tracking_run* tr_new_legacy(char *seq_par_fname, char *tpar_fname,
     char *vpar_fname, char *cpar_fname, Calibration **cal) 
 {
     control_par *cpar = read_control_par(cpar_fname);
-    sequence_par *seq_par = read_sequence_par(seq_par_fname, cpar->num_cams);
-    return tr_new(seq_par, read_track_par(tpar_fname), 
-        read_volume_par(vpar_fname), cpar, 4, 20000,
+    sequence_par *seq_par = NULL;
+    track_par *tpar = read_track_par(tpar_fname);
+    volume_par *vpar = read_volume_par(vpar_fname);
+    
+    if (cpar != NULL)
+        seq_par = read_sequence_par(seq_par_fname, cpar->num_cams);
+    
+    if (seq_par == NULL || tpar == NULL || vpar == NULL) {
+        if (seq_par != NULL) free_sequence_par(seq_par);
+        if (cpar != NULL) free_control_par(cpar);
+        free(tpar);
+        free(vpar);
+        return NULL;
+    }
+    
+    return tr_new(seq_par, tpar, vpar, cpar, 4, 20000,
         "res/rt_is", "res/ptv_is", "res/added", cal, 10000);
 }
 
-- 
2.43.0


From 13059f836e666cfcde41d81d6e89281eca82375a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:36 +0000
Subject: [PATCH 68/78] fix: tr_free loses the frames of the buffer and the
 sequence names

---
 liboptv/src/tracking_run.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/liboptv/src/tracking_run.c b/liboptv/src/tracking_run.c
index 00d61f5..2c5d11d 100644
--- a/liboptv/src/tracking_run.c
+++ b/liboptv/src/tracking_run.c
@@ -100,9 +100,9 @@ tracking_run *tr_new(sequence_par *seq_par, track_par *tpar,
    TrackingRun *tr - points to the TrackingRun object to free.
 */
 void tr_free(tracking_run *tr) {
+    if (tr->fb->_vptr != NULL) fb_free(tr->fb); /* unless already done */
     free(tr->fb);
-    free(tr->seq_par->img_base_name);
-    free(tr->seq_par);
+    free_sequence_par(tr->seq_par);
     free(tr->tpar);
     free(tr->vpar);
     free_control_par(tr->cpar);
-- 
2.43.0


From f5f4befc868ecb20d666480e51f064e487c6f6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:52 +0000
Subject: [PATCH 69/78] fix: orient never frees its copy of the calibration nor
 yh

---
 liboptv/src/orientation.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/liboptv/src/orientation.c b/liboptv/src/orientation.c
index 2c6c0a6..3ecf32c 100644
--- a/liboptv/src/orientation.c
+++ b/liboptv/src/orientation.c
@@ -581,15 +581,18 @@ double* orient (Calibration* cal_in, control_par *cpar, int nfix, vec3d fix[],
     free(X);
     free(P);
     free(y);
+    free(yh);
     free(Xbeta);
     free(Xh);
 
     if (stopflag){
         rotation_matrix(&(cal->ext_par));
         memcpy(cal_in, cal, sizeof (Calibration));
+        free(cal);
         return resi;
     }
     else {
+        free(cal);
         free(resi);
         return NULL;
     }
-- 
2.43.0


From 1f494b01fa6743e2fe49e8211ae18ffb2a69e336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:13 +0000
Subject: [PATCH 70/78] fix: failed ControlParams and SequenceParams
 constructors crash

---
 py_bind/optv/parameters.pyx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/py_bind/optv/parameters.pyx b/py_bind/optv/parameters.pyx
index 7a8d6bf..504664f 100644
--- a/py_bind/optv/parameters.pyx
+++ b/py_bind/optv/parameters.pyx
@@ -442,6 +442,8 @@ cdef class SequenceParams:
         else: raise TypeError("Unhandled comparison operator " + operator)
         
     def __dealloc__(self):
+        if self._sequence_par == NULL: # __init__ failed
+            return
         c_free_sequence_par(self._sequence_par)
         
 cdef class VolumeParams:
@@ -795,7 +797,10 @@ cdef class ControlParams:
         # function from freeing it. MultimediaParams object will free this
         # memory in its python destructor when there will be no references to it.
         
-        self._control_par[0].mm = NULL
+        if self._control_par == NULL: # __init__ failed
+            return
+        if self._multimedia_params is not None:
+            self._control_par[0].mm = NULL
         c_free_control_par(self._control_par)
 
 cdef class TargetParams:
-- 
2.43.0


From 7723d258a9b36bf55e37fd80a2f004e0ab16a8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:30 +0000
Subject: [PATCH 71/78] fix: Frame.read never frees its array of target names

---
 py_bind/optv/tracking_framebuf.pyx | 37 ++++++++++++++++--------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/py_bind/optv/tracking_framebuf.pyx b/py_bind/optv/tracking_framebuf.pyx
index ca79d64..bbc5a44 100644
--- a/py_bind/optv/tracking_framebuf.pyx
+++ b/py_bind/optv/tracking_framebuf.pyx
@@ -282,23 +282,26 @@ cdef class Frame:
         cdef char **targ_fb = <char **> malloc(self._num_cams*sizeof(char *))
         cdef char* pb
         
-        for cam in range(self._num_cams):
-            targ_fb[cam] = target_file_base[cam]
-        
-        if prio_file_base is None:
-            pb = NULL
-        else:
-            pb = prio_file_base
-        
-        if self._frm == NULL:
-            self._frm = <frame *> malloc(sizeof(frame))
-        else:
-            # free existing substructures because allocating new ones.
-            free_frame(self._frm)
-        
-        frame_init(self._frm, self._num_cams, MAX_TARGETS)
-        success = read_frame(self._frm, corres_file_base, linkage_file_base, 
-            pb, targ_fb, frame_num)
+        try:
+            for cam in range(self._num_cams):
+                targ_fb[cam] = target_file_base[cam]
+            
+            if prio_file_base is None:
+                pb = NULL
+            else:
+                pb = prio_file_base
+            
+            if self._frm == NULL:
+                self._frm = <frame *> malloc(sizeof(frame))
+            else:
+                # free existing substructures because allocating new ones.
+                free_frame(self._frm)
+            
+            frame_init(self._frm, self._num_cams, MAX_TARGETS)
+            success = read_frame(self._frm, corres_file_base, 
+                linkage_file_base, pb, targ_fb, frame_num)
+        finally:
+            free(targ_fb)
         
         return success
      
-- 
2.43.0


From e9a417cc78354bab70c5a6d8443178fbbd92eedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:53 +0000
Subject: [PATCH 72/78] fix: bindings lose their target and calibration arrays
 when arguments are wrong

---
 py_bind/optv/orientation.pyx       | 15 +++++++++++++--
 py_bind/optv/segmentation.pyx      |  3 ++-
 py_bind/optv/tracking_framebuf.pyx |  3 ++-
 3 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/py_bind/optv/orientation.pyx b/py_bind/optv/orientation.pyx
index 04e70fe..f847881 100644
--- a/py_bind/optv/orientation.pyx
+++ b/py_bind/optv/orientation.pyx
@@ -126,11 +126,15 @@ def single_cam_point_positions(np.ndarray[ndim=3, dtype=pos_t] targets,
         np.ndarray[ndim=2, dtype=pos_t] res
         np.ndarray[ndim=1, dtype=pos_t] rcm
         np.ndarray[ndim=2, dtype=pos_t] targ
-        calibration ** calib = cal_list2arr(cals)
+        calibration ** calib
         int cam, num_cams
 
+    if targets.shape[2] != 2:
+        raise ValueError("Need an (n,cameras,2) array of targets.")
+
     # So we can address targets.data directly instead of get_ptr stuff:
     targets = np.ascontiguousarray(targets)
+    calib = cal_list2arr(cals)
     
     num_targets = targets.shape[0]
     num_cams = targets.shape[1]
@@ -169,11 +173,15 @@ def multi_cam_point_positions(np.ndarray[ndim=3, dtype=pos_t] targets,
         np.ndarray[ndim=2, dtype=pos_t] res
         np.ndarray[ndim=1, dtype=pos_t] rcm
         np.ndarray[ndim=2, dtype=pos_t] targ
-        calibration ** calib = cal_list2arr(cals)
+        calibration ** calib
         int cam, num_cams
 
+    if targets.shape[2] != 2:
+        raise ValueError("Need an (n,cameras,2) array of targets.")
+
     # So we can address targets.data directly instead of get_ptr stuff:
     targets = np.ascontiguousarray(targets)
+    calib = cal_list2arr(cals)
 
     num_targets = targets.shape[0]
     num_cams = targets.shape[1]
@@ -221,6 +229,9 @@ def external_calibration(Calibration cal,
         raise ValueError("Need an (n,3) array of reference points and as many "
             "image points.")
     
+    if img_pts.shape[1] != 2:
+        raise ValueError("Need an (n,2) array of image points.")
+    
     ref_pts = np.ascontiguousarray(ref_pts)
     ref_coord = <vec3d *>ref_pts.data
     
diff --git a/py_bind/optv/segmentation.pyx b/py_bind/optv/segmentation.pyx
index 1551930..0e99fad 100644
--- a/py_bind/optv/segmentation.pyx
+++ b/py_bind/optv/segmentation.pyx
@@ -51,7 +51,7 @@ def target_recognition(np.ndarray[np.uint8_t, ndim=2] img, TargetParams tpar, in
     cdef:
         TargetArray t = TargetArray()
         target *ret
-        target *targs = <target *> calloc(1024*20, sizeof(target))
+        target *targs
         int num_targs
         int xmin, xmax, ymin, ymax
     
@@ -78,6 +78,7 @@ def target_recognition(np.ndarray[np.uint8_t, ndim=2] img, TargetParams tpar, in
     img = np.ascontiguousarray(img)
 
     # The core liboptv call:
+    targs = <target *> calloc(1024*20, sizeof(target))
     num_targs = targ_rec(<unsigned char *>img.data, tpar._targ_par, 
         xmin, xmax, ymin, ymax, cparam._control_par, cam, targs)
     
diff --git a/py_bind/optv/tracking_framebuf.pyx b/py_bind/optv/tracking_framebuf.pyx
index bbc5a44..4711f94 100644
--- a/py_bind/optv/tracking_framebuf.pyx
+++ b/py_bind/optv/tracking_framebuf.pyx
@@ -212,7 +212,7 @@ def read_targets(basename, int frame_num):
     """
     cdef:
         int num_targets
-        target *tarr = <target *>malloc(MAX_TARGETS * sizeof(target))
+        target *tarr
         TargetArray ret = TargetArray()
         char* c_string
     
@@ -220,6 +220,7 @@ def read_targets(basename, int frame_num):
     py_byte_string = basename.encode('UTF-8')
     c_string = py_byte_string
     
+    tarr = <target *>malloc(MAX_TARGETS * sizeof(target))
     num_targets = c_read_targets(tarr, c_string, frame_num)
     if num_targets < 0:
         free(tarr)
-- 
2.43.0


From 4c615859f5a59a3351c17a05f13107e19d3e8afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:11 +0000
Subject: [PATCH 73/78] fix: Tracker loses the frame buffer, and the
 calibration array if naming is wrong

---
 py_bind/optv/tracker.pyx | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/py_bind/optv/tracker.pyx b/py_bind/optv/tracker.pyx
index eff49aa..464dcc0 100644
--- a/py_bind/optv/tracker.pyx
+++ b/py_bind/optv/tracker.pyx
@@ -44,10 +44,16 @@ cdef class Tracker:
         self._keepalive = (cpar, vpar, tpar, spar, cals,
             tuple(naming.values()))
         
+        # Anything that can fail comes before taking memory.
+        cdef:
+            char *corres = naming['corres']
+            char *linkage = naming['linkage']
+            char *prio = naming['prio']
+            double tol = flatten_tol
+        
         self.run_info = tr_new(spar._sequence_par, tpar._track_par,
             vpar._volume_par, cpar._control_par, TR_BUFSPACE, MAX_TARGETS,
-            naming['corres'], naming['linkage'], naming['prio'], 
-            cal_list2arr(cals), flatten_tol)
+            corres, linkage, prio, cal_list2arr(cals), tol)
     
     def restart(self):
         """
@@ -99,6 +105,7 @@ cdef class Tracker:
         if self.run_info == NULL: # __init__ failed
             return
         fb_free(self.run_info.fb)
+        free(self.run_info.fb)
         free(self.run_info.cal) # allocated by cal_list2arr, leafs belong to
                                 # owner of the Tracker.
         free(self.run_info) # not using tr_free() which assumes ownership of 
-- 
2.43.0


From 84bf6b994d14f401ae1eb9398ad4fb97dc9cfa4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:32 +0000
Subject: [PATCH 74/78] fix: correspondences() never frees its array of
 coordinate lists

---
 py_bind/optv/correspondences.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/py_bind/optv/correspondences.pyx b/py_bind/optv/correspondences.pyx
index 6bfad42..b2e0dcb 100644
--- a/py_bind/optv/correspondences.pyx
+++ b/py_bind/optv/correspondences.pyx
@@ -153,6 +153,9 @@ def correspondences(list img_pts, list flat_coords, list cals,
         sorted_pos, sorted_corresp, num_targs = single_cam_correspondence(img_pts, flat_coords, cals)
         return sorted_pos, sorted_corresp, num_targs
 
+    if len(img_pts) < num_cams or len(flat_coords) < num_cams:
+        raise ValueError("Need targets and flat coordinates for each camera.")
+
     cdef:        
         calibration **calib = <calibration **> malloc(
             num_cams * sizeof(calibration *))
@@ -219,6 +222,7 @@ def correspondences(list img_pts, list flat_coords, list cals,
     free(frm.targets)
     free(frm.num_targets)
     free(calib)
+    free(corrected)
     free(match_counts)
     free(corresp_buf) # Note this for future returning of correspondences.
     
-- 
2.43.0


From 3a088fe58def273a73af3836adb95d3c19fa721c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:16 +0000
Subject: [PATCH 75/78] fix: a backward tracking run never adds particles

The volume check compared the height with limits that are both zero, so
that it could not succeed; compare with the limits of the illuminated
volume, as the forward run does.
---
 liboptv/src/track.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/liboptv/src/track.c b/liboptv/src/track.c
index 45cdbcc..0e18b16 100644
--- a/liboptv/src/track.c
+++ b/liboptv/src/track.c
@@ -1093,7 +1093,7 @@ double trackback_c (tracking_run *run_info)
     double angle, acc, dl;
     vec3d diff_pos, X[6];     /* 6 reference points used in the algorithm */
     vec2d n[4], v2[4];     // replaces xn,yn, x2[4], y2[4],
-    double rr, Ymin = 0, Ymax = 0;
+    double rr;
     double npart = 0, nlinks = 0;
     foundpix *w;
 
@@ -1198,7 +1198,7 @@ double trackback_c (tracking_run *run_info)
 
                         /* volume check */
                         if ( vpar->X_lay[0] < X[3][0] && X[3][0] < vpar->X_lay[1] &&
-                             Ymin < X[3][1] && X[3][1] < Ymax &&
+                             run_info->ymin < X[3][1] && X[3][1] < run_info->ymax &&
                              vpar->Zmin_lay[0] < X[3][2] && X[3][2] < vpar->Zmax_lay[1])
                         {in_volume = 1;}
 
-- 
2.43.0


From cb1e912e4f290e38fd5bcabf5b33ca2cdeb54da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:02 +0000
Subject: [PATCH 76/78] fix: reading a frame overruns its arrays when the files
 hold more

A target file or particle file with more entries than the frame has room
for was written past the end of the arrays, and a negative number of
targets was taken for a count. Such files are refused now. The frame's
target counts are one per camera, not one per target.
---
 liboptv/include/tracking_frame_buf.h |  5 +++
 liboptv/src/tracking_frame_buf.c     | 57 +++++++++++++++++++++++++---
 py_bind/optv/tracking_framebuf.pyx   |  6 +--
 3 files changed, 59 insertions(+), 9 deletions(-)

diff --git a/liboptv/include/tracking_frame_buf.h b/liboptv/include/tracking_frame_buf.h
index fa2a8f7..eaf4437 100644
--- a/liboptv/include/tracking_frame_buf.h
+++ b/liboptv/include/tracking_frame_buf.h
@@ -25,6 +25,8 @@ target;
 
 int compare_targets(target *t1, target *t2);
 int read_targets(target buffer[], char* file_base, int frame_num);
+int read_targets_max(target buffer[], int max_targets, char* file_base, \
+    int frame_num);
 int write_targets(target buffer[], int num_targets, char* file_base, \
     int frame_num);
 
@@ -61,6 +63,9 @@ void reset_links(P *self);
 int read_path_frame(corres *cor_buf, P *path_buf, \
     char *corres_file_base, char *linkage_file_base, 
     char *prio_file_base, int frame_num);
+int read_path_frame_max(corres *cor_buf, P *path_buf, int max_parts, \
+    char *corres_file_base, char *linkage_file_base, 
+    char *prio_file_base, int frame_num);
 int write_path_frame(corres *cor_buf, P *path_buf, int num_parts,\
     char *corres_file_base, char *linkage_file_base, 
     char *prio_file_base, int frame_num);
diff --git a/liboptv/src/tracking_frame_buf.c b/liboptv/src/tracking_frame_buf.c
index a868ae4..59f9b23 100644
--- a/liboptv/src/tracking_frame_buf.c
+++ b/liboptv/src/tracking_frame_buf.c
@@ -9,6 +9,7 @@ reading targets, correspondences, etc.
 #include <string.h>
 #include <stdio.h>
 #include <stdlib.h>
+#include <limits.h>
 #include "tracking_frame_buf.h"
 
 /* Check that target t1 is equal to target t2, i.e. all their fields are equal.
@@ -42,6 +43,22 @@ int compare_targets(target *t1, target *t2) {
 */
 
 int read_targets(target buffer[], char* file_base, int frame_num) {
+    return read_targets_max(buffer, INT_MAX, file_base, frame_num);
+}
+
+/* read_targets_max() is read_targets() for a buffer of limited size. Files
+ * holding more targets than that are not read.
+ * 
+ * Arguments:
+ * int max_targets - number of targets that fit in the buffer.
+ * others: as in read_targets().
+ * 
+ * Returns:
+ * the number of targets found in the file, or -1 if an error occurred.
+*/
+int read_targets_max(target buffer[], int max_targets, char* file_base,
+    int frame_num)
+{
     FILE *FILEIN;
     int	tix, num_targets, scanf_ok;
     char filein[STR_MAX_LEN + 1];
@@ -59,10 +76,14 @@ int read_targets(target buffer[], char* file_base, int frame_num) {
         goto handle_error;
     }
 
-    if (fscanf(FILEIN, "%d\n", &num_targets) != 1) {
+    if (fscanf(FILEIN, "%d\n", &num_targets) != 1 || num_targets < 0) {
         printf("Bad format for file: %s\n", filein);
         goto handle_error;
     }
+    if (num_targets > max_targets) {
+        printf("Too many targets in file: %s\n", filein);
+        goto handle_error;
+    }
     for (tix = 0; tix < num_targets; tix++)	{
 	  scanf_ok = fscanf (FILEIN, "%d %lf %lf %d %d %d %d %d\n",
 		  &(buffer[tix].pnr),  &(buffer[tix].x),
@@ -227,6 +248,24 @@ void reset_links(P *self) {
 int read_path_frame(corres *cor_buf, P *path_buf, \
     char *corres_file_base, char *linkage_file_base, char *prio_file_base,
     int frame_num)
+{
+    return read_path_frame_max(cor_buf, path_buf, INT_MAX, corres_file_base,
+        linkage_file_base, prio_file_base, frame_num);
+}
+
+/* read_path_frame_max() is read_path_frame() for buffers of limited size.
+ * Frames of more points than that are not read.
+ * 
+ * Arguments:
+ * int max_parts - number of points that fit in each of the buffers.
+ * others: as in read_path_frame().
+ * 
+ * Returns:
+ * The number of points read for this frame. -1 on failure.
+*/
+int read_path_frame_max(corres *cor_buf, P *path_buf, int max_parts,
+    char *corres_file_base, char *linkage_file_base, char *prio_file_base,
+    int frame_num)
 {
     FILE *filein, *linkagein = NULL, *prioin = NULL;
     char fname[STR_MAX_LEN];
@@ -279,6 +318,12 @@ int read_path_frame(corres *cor_buf, P *path_buf, \
     
     targets = 0;
     do {
+        if (targets >= max_parts) {
+            printf("Too many points in: %s.%d\n", corres_file_base, frame_num);
+            targets = -1;
+            break;
+        }
+        
         if (linkagein != NULL) {
             read_res = fscanf(linkagein, "%d %d %lf %lf %lf\n",
 	            &(path_buf->prev), &(path_buf->next), &discard, &discard, &discard);
@@ -438,7 +483,7 @@ void frame_init(frame *new_frame, int num_cams, int max_targets) {
     new_frame->correspond = (corres *) calloc(max_targets, sizeof(corres));
     
     new_frame->targets = (target**) calloc(num_cams, sizeof(target*));
-    new_frame->num_targets = (int *) calloc(max_targets, sizeof(int));
+    new_frame->num_targets = (int *) calloc(num_cams, sizeof(int));
     
     for (cam = 0; cam < num_cams; cam++) {
         new_frame->targets[cam] = \
@@ -501,16 +546,16 @@ int read_frame(frame *self, char *corres_file_base, char *linkage_file_base,
 {
     int cam;
     
-    self->num_parts = read_path_frame(self->correspond, self->path_info,
-        corres_file_base, linkage_file_base, prio_file_base, frame_num);
+    self->num_parts = read_path_frame_max(self->correspond, self->path_info,
+        self->max_targets, corres_file_base, linkage_file_base, prio_file_base, frame_num);
     if (self->num_parts == -1) return 0;
     
     /* Prevent crashes by testing for initial allocation */
     if (self->num_targets == 0) return 0;
     
     for (cam = 0; cam < self->num_cams; cam++) {
-        self->num_targets[cam] = read_targets(
-            self->targets[cam], target_file_base[cam], frame_num);
+        self->num_targets[cam] = read_targets_max(
+            self->targets[cam], self->max_targets, target_file_base[cam], frame_num);
         if (self->num_targets[cam] == -1) return 0;
     }
     
diff --git a/py_bind/optv/tracking_framebuf.pyx b/py_bind/optv/tracking_framebuf.pyx
index 4711f94..e8705db 100644
--- a/py_bind/optv/tracking_framebuf.pyx
+++ b/py_bind/optv/tracking_framebuf.pyx
@@ -7,8 +7,8 @@ import numpy as np
 from optv.vec_utils cimport vec3d, vec_copy
 
 cdef extern from "optv/tracking_frame_buf.h":
-    int c_read_targets "read_targets" (target buffer[], \
-        char* file_base, int frame_num)
+    int c_read_targets "read_targets_max" (target buffer[], \
+        int max_targets, char* file_base, int frame_num)
     int write_targets(target buffer[], int num_targets, char* file_base, \
         int frame_num)
     
@@ -221,7 +221,7 @@ def read_targets(basename, int frame_num):
     c_string = py_byte_string
     
     tarr = <target *>malloc(MAX_TARGETS * sizeof(target))
-    num_targets = c_read_targets(tarr, c_string, frame_num)
+    num_targets = c_read_targets(tarr, MAX_TARGETS, c_string, frame_num)
     if num_targets < 0:
         free(tarr)
         raise IOError("Problem reading targets.")
-- 
2.43.0


From 275071074f0ae485146dc927ef2bd66fc3685ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:33 +0000
Subject: [PATCH 77/78] fix: long names of frame files overrun the buffers they
 are composed in

Reading or writing frame files under a path of more than 255 characters
wrote past the end of local arrays. Such calls fail now.
---
 liboptv/src/tracking_frame_buf.c | 65 +++++++++++++++++++++++---------
 1 file changed, 47 insertions(+), 18 deletions(-)

diff --git a/liboptv/src/tracking_frame_buf.c b/liboptv/src/tracking_frame_buf.c
index 59f9b23..b8c59bc 100644
--- a/liboptv/src/tracking_frame_buf.c
+++ b/liboptv/src/tracking_frame_buf.c
@@ -12,6 +12,28 @@ reading targets, correspondences, etc.
 #include <limits.h>
 #include "tracking_frame_buf.h"
 
+/* frame_file_name() composes the name of a file from its base and the number
+ * of the frame it belongs to.
+ * 
+ * Arguments:
+ * char *name - receives the name, has room for STR_MAX_LEN characters.
+ * char *format - printf-like, with a string and an integer.
+ * char *file_base - the base name.
+ * int frame_num - number of the frame.
+ * 
+ * Returns:
+ * True if the name fits, otherwise 0.
+ */
+static int frame_file_name(char *name, const char *format, char *file_base,
+    int frame_num)
+{
+    int len = snprintf(name, STR_MAX_LEN + 1, format, file_base, frame_num);
+    
+    if (len >= 0 && len <= STR_MAX_LEN) return 1;
+    printf("File name too long, based on: %s\n", file_base);
+    return 0;
+}
+
 /* Check that target t1 is equal to target t2, i.e. all their fields are equal.
  * 
  * Arguments:
@@ -59,16 +81,16 @@ int read_targets(target buffer[], char* file_base, int frame_num) {
 int read_targets_max(target buffer[], int max_targets, char* file_base,
     int frame_num)
 {
-    FILE *FILEIN;
-    int	tix, num_targets, scanf_ok;
+    FILE *FILEIN = NULL;
+    int	tix, num_targets, scanf_ok, name_ok;
     char filein[STR_MAX_LEN + 1];
 
     if (frame_num > 0) {
-        sprintf(filein, "%s%04d%s", file_base, frame_num, "_targets");
+        name_ok = frame_file_name(filein, "%s%04d_targets", file_base, frame_num);
     } else {
-        strncpy(filein, file_base, STR_MAX_LEN);
-        strncat(filein, "_targets", STR_MAX_LEN);
+        name_ok = frame_file_name(filein, "%s_targets", file_base, frame_num);
     }
+    if (!name_ok) goto handle_error;
     
     FILEIN = fopen (filein, "r");
     if (! FILEIN) {
@@ -123,15 +145,16 @@ handle_error:
 int write_targets(target buffer[], int num_targets, char* file_base, \
     int frame_num) {
     
-    FILE *FILEOUT;
-    int	tix, printf_ok, success = 0;
+    FILE *FILEOUT = NULL;
+    int	tix, printf_ok, name_ok, success = 0;
     char fileout[STR_MAX_LEN + 1];
     
     if (frame_num <= 0){
-        sprintf(fileout, "%s%s", file_base, "_targets");
+        name_ok = frame_file_name(fileout, "%s_targets", file_base, frame_num);
     } else {
-        sprintf(fileout, "%s%04d%s", file_base, frame_num, "_targets");
+        name_ok = frame_file_name(fileout, "%s%04d_targets", file_base, frame_num);
     }
+    if (!name_ok) goto finalize;
 
     FILEOUT = fopen(fileout, "w");
     if (! FILEOUT) {
@@ -267,8 +290,8 @@ int read_path_frame_max(corres *cor_buf, P *path_buf, int max_parts,
     char *corres_file_base, char *linkage_file_base, char *prio_file_base,
     int frame_num)
 {
-    FILE *filein, *linkagein = NULL, *prioin = NULL;
-    char fname[STR_MAX_LEN];
+    FILE *filein = NULL, *linkagein = NULL, *prioin = NULL;
+    char fname[STR_MAX_LEN + 1];
     int read_res = 0, targets = -1, alt_link = 0;
     double discard; /* For position values that are to be read again from a 
                        differnt file. */
@@ -277,7 +300,8 @@ int read_path_frame_max(corres *cor_buf, P *path_buf, int max_parts,
     a record of path and correspondence info. We don't need the nuber of points
     because we read to EOF anyway. */
     
-    sprintf(fname, "%s.%d", corres_file_base, frame_num);
+    if (!frame_file_name(fname, "%s.%d", corres_file_base, frame_num))
+        goto finalize;
     filein = fopen (fname, "r");
     if (!filein) {
         /* Keeping the printf until we have proper logging. */
@@ -289,7 +313,8 @@ int read_path_frame_max(corres *cor_buf, P *path_buf, int max_parts,
     if (!read_res) goto finalize;
     
     if (linkage_file_base != NULL) {
-        sprintf(fname, "%s.%d", linkage_file_base, frame_num);
+        if (!frame_file_name(fname, "%s.%d", linkage_file_base, frame_num))
+            goto finalize;
         linkagein = fopen (fname, "r");
         
         if (!linkagein) {
@@ -303,7 +328,8 @@ int read_path_frame_max(corres *cor_buf, P *path_buf, int max_parts,
     }
     
     if (prio_file_base != NULL) {
-        sprintf(fname, "%s.%d", prio_file_base, frame_num);
+        if (!frame_file_name(fname, "%s.%d", prio_file_base, frame_num))
+            goto finalize;
         prioin = fopen (fname, "r");
         
         if (!prioin) {
@@ -411,19 +437,21 @@ int write_path_frame(corres *cor_buf, P *path_buf, int num_parts,\
     char *corres_file_base, char *linkage_file_base, char *prio_file_base,
     int frame_num) 
 {
-    FILE *corres_file, *linkage_file = NULL, *prio_file = NULL;
+    FILE *corres_file = NULL, *linkage_file = NULL, *prio_file = NULL;
     char corres_fname[STR_MAX_LEN + 1], linkage_fname[STR_MAX_LEN + 1];
     char prio_fname[STR_MAX_LEN + 1];
     int	pix, success = 0;
 
-    sprintf(corres_fname, "%s.%d", corres_file_base, frame_num);
+    if (!frame_file_name(corres_fname, "%s.%d", corres_file_base, frame_num))
+        goto finalize;
     corres_file = fopen (corres_fname, "w");
     if (corres_file == NULL) {
         printf("Can't open file %s for writing\n", corres_fname);
         goto finalize;
     }
     
-    sprintf(linkage_fname, "%s.%d", linkage_file_base, frame_num);
+    if (!frame_file_name(linkage_fname, "%s.%d", linkage_file_base, frame_num))
+        goto finalize;
     linkage_file = fopen (linkage_fname, "w");
     if (linkage_file == NULL) {
         printf("Can't open file %s for writing\n", linkage_fname);
@@ -434,7 +462,8 @@ int write_path_frame(corres *cor_buf, P *path_buf, int num_parts,\
     fprintf(linkage_file, "%d\n", num_parts);
     
     if (prio_file_base != NULL) {
-        sprintf(prio_fname, "%s.%d", prio_file_base, frame_num);
+        if (!frame_file_name(prio_fname, "%s.%d", prio_file_base, frame_num))
+            goto finalize;
         prio_file = fopen (prio_fname, "w");
         if (prio_file == NULL) {
             printf("Can't open file %s for writing\n", prio_fname);
-- 
2.43.0


From c0e76ed436f4b4b7678a739acf9a8b1774baeebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:02 +0000
Subject: [PATCH 78/78] fix: images of more than 20480 spots overrun the array
 of targets

target_recognition() allocates as many targets as there can be.
---
 py_bind/optv/segmentation.pyx | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/py_bind/optv/segmentation.pyx b/py_bind/optv/segmentation.pyx
index 0e99fad..366d4b2 100644
--- a/py_bind/optv/segmentation.pyx
+++ b/py_bind/optv/segmentation.pyx
@@ -31,9 +31,6 @@ def target_recognition(np.ndarray[np.uint8_t, ndim=2] img, TargetParams tpar, in
     """
     Detects targets (contiguous bright blobs) in an image.
     
-    Limited to ~20,000 targets per image for now. This limitation comes from
-    the structure of underlying C code.
-    
     Arguments:
     np.ndarray img - a numpy array holding the 8-bit gray image.
     TargetParams tpar - target recognition parameters s.a. size bounds etc.
@@ -78,7 +75,8 @@ def target_recognition(np.ndarray[np.uint8_t, ndim=2] img, TargetParams tpar, in
     img = np.ascontiguousarray(img)
 
     # The core liboptv call:
-    targs = <target *> calloc(1024*20, sizeof(target))
+    # A target takes at least one pixel; without any, there's a placeholder.
+    targs = <target *> calloc(max(1, img.size), sizeof(target))
     num_targs = targ_rec(<unsigned char *>img.data, tpar._targ_par, 
         xmin, xmax, ymin, ymax, cparam._control_par, cam, targs)
     
-- 
2.43.0

