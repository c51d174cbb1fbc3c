From 431732b5b4c70bd55d7d51d3bf57e16c4ce7299c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:47 +0000
Subject: [PATCH 01/49] fix: do not index MEDIUM_TYPE_STR with MT_UNDEFINED
 when logging PMC, periodic and Mur faces

---
 src/surface.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface.c b/src/surface.c
index 98056d8..c66c81e 100644
--- a/src/surface.c
+++ b/src/surface.c
@@ -440,7 +440,7 @@ void initExternalPecPmcSurfaces( void )
              (unsigned long)externalSurfaceList[boundary].boundaryNumber ,
              bbox[XLO] , bbox[XHI] , bbox[YLO] , bbox[YHI] , bbox[ZLO] , bbox[ZHI] ,           
              BOUNDARY_TYPE_STR[boundaryType] , 
-             (unsigned long)boundaryType , MEDIUM_TYPE_STR[mediumType] );
+             (unsigned long)boundaryType , mediumType == MT_UNDEFINED ? "NONE" : MEDIUM_TYPE_STR[mediumType] );
 
     switch( mediumType )
     {
-- 
2.43.0


From a5cbe9ec22c515dbea61c59cf452d4a3bf138846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:24 +0000
Subject: [PATCH 02/49] fix: blank mesh lines no longer make strtrim read
 before the start of the line buffer

---
 src/mesh.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/mesh.c b/src/mesh.c
index afcd59d..35a7a4d 100644
--- a/src/mesh.c
+++ b/src/mesh.c
@@ -424,6 +424,14 @@ void strtrim( char *string )
    *  non-whitespace characters from each end.
    */
   while( isspace( *(++startPointer) ) );
+
+  /* Nothing but whitespace - don't scan backwards past the start of the buffer. */
+  if( *startPointer == '\0' )
+  {
+    *string = '\0';
+    return;
+  }
+
   while( isspace( *(--endPointer) ) && endPointer != startPointer );
 
   if( string + stringLength - 1 != endPointer )
-- 
2.43.0


From 57ee8dbfb75e508987e04b935ad3a5493893703d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:14 +0000
Subject: [PATCH 03/49] fix: periodic faces use the wrapped neighbour cell
 length, so graded meshes stay periodic

---
 src/grid.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/grid.c b/src/grid.c
index d3983f1..d1e1546 100644
--- a/src/grid.c
+++ b/src/grid.c
@@ -601,18 +601,33 @@ void initCellEdges( void )
   for( i = gibox[XHI] ; i <= gobox[XHI] - 1 ; i++ ) dex[i] = xlines[gibox[XHI]-gibox[XLO]] - xlines[gibox[XHI]-gibox[XLO]-1];
   dex[gobox[XLO]-1] = dex[gobox[XLO]];
   dex[gobox[XHI]] = dex[gobox[XHI]-1];
+  if( outerSurfaceType( XLO ) == BT_PERIODIC )
+  {
+    dex[gobox[XLO]-1] = dex[gobox[XHI]-1];
+    dex[gobox[XHI]] = dex[gobox[XLO]];
+  }
 
   for( j = gobox[YLO] ; j <= gibox[YLO] - 1 ; j++ ) dey[j] = ylines[1] - ylines[0];
   for( j = gibox[YLO] ; j <= gibox[YHI] - 1 ; j++ ) dey[j] = ylines[j-gibox[YLO]+1] - ylines[j-gibox[YLO]];
   for( j = gibox[YHI] ; j <= gobox[YHI] - 1 ; j++ ) dey[j] = ylines[gibox[YHI]-gibox[YLO]] - ylines[gibox[YHI]-gibox[YLO]-1];
   dey[gobox[YLO]-1] = dey[gobox[YLO]];
   dey[gobox[YHI]] = dey[gobox[YHI]-1];
+  if( outerSurfaceType( YLO ) == BT_PERIODIC )
+  {
+    dey[gobox[YLO]-1] = dey[gobox[YHI]-1];
+    dey[gobox[YHI]] = dey[gobox[YLO]];
+  }
 
   for( k = gobox[ZLO] ; k <= gibox[ZLO] - 1 ; k++ ) dez[k] = zlines[1] - zlines[0];
   for( k = gibox[ZLO] ; k <= gibox[ZHI] - 1 ; k++ ) dez[k] = zlines[k-gibox[ZLO]+1] - zlines[k-gibox[ZLO]];
   for( k = gibox[ZHI] ; k <= gobox[ZHI] - 1 ; k++ ) dez[k] = zlines[gibox[ZHI]-gibox[ZLO]] - zlines[gibox[ZHI]-gibox[ZLO]-1];
   dez[gobox[ZLO]-1] = dez[gobox[ZLO]];
   dez[gobox[ZHI]] = dez[gobox[ZHI]-1];
+  if( outerSurfaceType( ZLO ) == BT_PERIODIC )
+  {
+    dez[gobox[ZLO]-1] = dez[gobox[ZHI]-1];
+    dez[gobox[ZHI]] = dez[gobox[ZLO]];
+  }
 
   /* Find minimum and maximum primary grid edge lengths. */
   message( MSG_DEBUG3 , 0 , "  Edge lengths along x-axis:\n" );
-- 
2.43.0


From 887d5b34e87c2f1743187a9b2098dfa8f57d55a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:13 +0000
Subject: [PATCH 04/49] fix: media declared with type PEC behave as PEC, not as
 free space

---
 src/medium.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/medium.c b/src/medium.c
index 7e44411..de5db07 100644
--- a/src/medium.c
+++ b/src/medium.c
@@ -408,6 +408,12 @@ void initMedia( void )
     calcCoeffFromParam( &(item->alpha) , &(item->beta) , &(item->gamma) , item->dalpha , item->dbeta ,
                         dt , item->eps_r , item->sigma , item->mu_r , 
                         item->numPoles , item->residues , item->poles );
+    if( item->type == MT_PEC )
+    {
+      /* Important that beta is exactly zero for PEC! */
+      item->alpha = -1.0;
+      item->beta  = 0.0;
+    }
     message( MSG_DEBUG3 , 0 , "    Medium#=%lu: eps_r=%g, sigma=%g, mu_r=%g, alpha=%g, beta=%g, gamma=%g, npole=%d\n" , mediumNumber,
 	     item->eps_r , item->sigma , item->mu_r ,  item->alpha , item->beta , item->gamma , item->numPoles );
     for( int poleIdx = 0 ; poleIdx < item->numPoles ; poleIdx++ )
-- 
2.43.0


From cb1bcd4e0b9d13bc5d29b15116ea92987a1e3600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:13 +0000
Subject: [PATCH 05/49] fix: apply wires after surfaces, the order the manual
 documents

---
 src/vulture.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/vulture.c b/src/vulture.c
index c15e5ab..344ada6 100644
--- a/src/vulture.c
+++ b/src/vulture.c
@@ -116,13 +116,13 @@ int main ( int argc , char **argv )
   /* This can set medium parameters on the gibox surfaces. */
   initBlocks();
 
-  /* Apply lines to grid - must be done before external PML/MUR boundaries. */
-  /* This can set medium parameters on the gibox surfaces. */
-  initLines();
-
   /* Initialise internal surfaces - must be done before external PML/MUR boundaries. */
   /* This can set medium parameters on the gibox surfaces. */
   initInternalSurfaces();
+
+  /* Apply lines to grid - must be done before external PML/MUR boundaries. */
+  /* This can set medium parameters on the gibox surfaces. */
+  initLines();
   
   /*  Initialise the external boundaries. */
   initExternalSurfaces();
-- 
2.43.0


From 1450b168a03e6405d38a793fd4e4ca100ed68c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:17 +0000
Subject: [PATCH 06/49] fix: bounding boxes with klo above khi are rejected
 like those of the other axes

---
 src/bounding_box.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bounding_box.h b/src/bounding_box.h
index de73e49..24ee6a4 100644
--- a/src/bounding_box.h
+++ b/src/bounding_box.h
@@ -30,7 +30,7 @@
 /* True if XLO <= XHI etc. */
 inline bool bboxIsNormal( int bbox[6] )
 {
-  return ( bbox[XLO] <= bbox[XHI] && bbox[YLO] <= bbox[YHI] && bbox[ZLO] <= bbox[ZLO] );
+  return ( bbox[XLO] <= bbox[XHI] && bbox[YLO] <= bbox[YHI] && bbox[ZLO] <= bbox[ZHI] );
 }
 
 /* True if (normal) bbox1 is within (normal) bbox2. */
-- 
2.43.0


From 595db2010a7d3eb38e97a55e13c74346245cfb5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:17 +0000
Subject: [PATCH 07/49] fix: lumped sources longer than one edge are rejected,
 as their message says

---
 src/bounding_box.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/bounding_box.c b/src/bounding_box.c
index 82fd467..ca0e67b 100644
--- a/src/bounding_box.c
+++ b/src/bounding_box.c
@@ -149,7 +149,6 @@ bool bboxIsElemental( int bbox[6] )
   case BB_VOLUME:
     if( maxSize == 1 )
       return true;
-    return true;
     break;  
   default:
      break;
-- 
2.43.0


From adaba83f74b0eedcf4a253977a6b65cbb4d4f9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:17 +0000
Subject: [PATCH 08/49] fix: messages for unknown medium and waveform types
 print the tag, not an enum as a pointer

---
 src/medium.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/medium.c b/src/medium.c
index de5db07..7b4fe44 100644
--- a/src/medium.c
+++ b/src/medium.c
@@ -110,7 +110,7 @@ bool parseMT( char *line )
 
   if( !foundType )
   {
-    message( MSG_LOG , 0 , "  Invalid medium: %s\n" , type );
+    message( MSG_LOG , 0 , "  Invalid medium: %s\n" , typeStr );
     return false;
   }
 
-- 
2.43.0


From e08a7673d06853d5c7a74f0e3746eaa46241de6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:17 +0000
Subject: [PATCH 09/49] fix: ideal lumped voltage sources have the amplitude of
 the small resistance limit

---
 src/source.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/source.c b/src/source.c
index ded5da7..c60661b 100644
--- a/src/source.c
+++ b/src/source.c
@@ -563,7 +563,7 @@ void initSources( void )
       else
       {
         /* Ideal zero resistance voltage source. */
-        item->size = -0.5 * item->size / length;
+        item->size = -2.0 * item->size / length;
         setMediumOnGrid( item->gbbox , MT_PEC , FACE_MASK_ALL );
         item->type = ST_EFIELD;       
       }
-- 
2.43.0


From ad65f4142af1162d7129cbd2a1086c140b97eb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:21 +0000
Subject: [PATCH 10/49] fix: unknown waveform type message prints the tag, not
 an enum as a pointer

---
 src/waveform.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/waveform.c b/src/waveform.c
index f048bbe..fc648d2 100644
--- a/src/waveform.c
+++ b/src/waveform.c
@@ -191,7 +191,7 @@ bool parseWF( char *line )
 
   if( !foundType )
   {
-    message( MSG_LOG , 0 , "  Invalid waveform: %s\n" , type );
+    message( MSG_LOG , 0 , "  Invalid waveform: %s\n" , typeStr );
     return false;
   }
 
-- 
2.43.0


From d5cbcd52417ee1520eda3395811f6c1d448f284b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:21 +0000
Subject: [PATCH 11/49] fix: narrow Gaussian pulses default to the documented
 width of two time steps

---
 src/waveform.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/waveform.c b/src/waveform.c
index fc648d2..48c8333 100644
--- a/src/waveform.c
+++ b/src/waveform.c
@@ -287,7 +287,7 @@ void initWaveforms( void )
       break;
     case WT_NARROW_GAUSSIAN_PULSE:
       if( item->width < 0 )
-         item->width = 8.0 * del_t;
+         item->width = 2.0 * del_t;
       if( item->delay < 0 )
          item->delay = 12.0 * del_t;
       item->frequency = 0.0;
-- 
2.43.0


From ed455b35342f5bd890396080421ced362e5dc6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:42 +0000
Subject: [PATCH 12/49] fix: surface current density sources divide by the cell
 width normal to their sheet

---
 src/source.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/source.c b/src/source.c
index c60661b..dbe255e 100644
--- a/src/source.c
+++ b/src/source.c
@@ -227,7 +227,6 @@ static CoordAxis sourceSurfaceNormal[NUM_SOURCE_TAGS]
         CA_UNDEFINED , CA_UNDEFINED , CA_UNDEFINED ,
         CA_UNDEFINED , CA_UNDEFINED , CA_UNDEFINED ,
         CA_UNDEFINED , CA_UNDEFINED , CA_UNDEFINED ,
-        YDIR         , ZDIR         , XDIR         ,
         ZDIR         , XDIR         , YDIR         ,
         YDIR         , ZDIR         , XDIR         ,
         ZDIR         , XDIR         , YDIR         ,
@@ -235,6 +234,7 @@ static CoordAxis sourceSurfaceNormal[NUM_SOURCE_TAGS]
         ZDIR         , XDIR         , YDIR         ,
         YDIR         , ZDIR         , XDIR         ,
         ZDIR         , XDIR         , YDIR         ,
+        YDIR         , ZDIR         , XDIR         ,
         CA_UNDEFINED , CA_UNDEFINED , CA_UNDEFINED ,      
         CA_UNDEFINED , CA_UNDEFINED , CA_UNDEFINED ,      
         CA_UNDEFINED , CA_UNDEFINED , CA_UNDEFINED ,
-- 
2.43.0


From cb6eb9ce6b16628a17bb36e5047154444580274c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:14 +0000
Subject: [PATCH 13/49] fix: a run of zero time steps performs none, instead of
 wrapping around

---
 src/simulation.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulation.c b/src/simulation.c
index 55a5bcd..621c01c 100644
--- a/src/simulation.c
+++ b/src/simulation.c
@@ -153,7 +153,7 @@ void propagate( void )
 	
   startTimer( 0 , numTimeSteps );
 
-  for ( timeStepNumber = 0 ; timeStepNumber <= numTimeSteps - 1 ; timeStepNumber++ )  {
+  for ( timeStepNumber = 0 ; timeStepNumber < numTimeSteps ; timeStepNumber++ )  {
 
     /* Electric field time. */
     timeE = timeStepNumber * dt;
-- 
2.43.0


From 909f2b8625ba28451e54b4e255076bf7a56e4bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:14 +0000
Subject: [PATCH 14/49] fix: negative numbers of time steps are rejected, not
 read as huge unsigned ones

---
 src/simulation.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/simulation.c b/src/simulation.c
index 621c01c..d5cc0a3 100644
--- a/src/simulation.c
+++ b/src/simulation.c
@@ -87,19 +87,19 @@ bool parseCN( char *line )
 bool parseNT( char *line )
 {
 
-  unsigned long numSteps = 0UL;
+  long numSteps = 0L;
 
-  if( sscanf( line , "%lu" , &numSteps ) != 1 )
+  if( sscanf( line , "%ld" , &numSteps ) != 1 )
     return false;  
 
-  if( numSteps < 0UL )
+  if( numSteps < 0L )
   {
     message( MSG_LOG , 0 , "  Number of time steps must be >= 0!\n" );
     return false;
   }
   else
   {
-    setNumTimeSteps( numSteps );
+    setNumTimeSteps( (unsigned long) numSteps );
   }
 
   return true;
-- 
2.43.0


From 3a451d055248d923938a7cbfefbcf01cd55e6634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:14 +0000
Subject: [PATCH 15/49] fix: Courant numbers that are not positive are rejected

---
 src/simulation.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/simulation.c b/src/simulation.c
index d5cc0a3..233fcfa 100644
--- a/src/simulation.c
+++ b/src/simulation.c
@@ -74,6 +74,11 @@ bool parseCN( char *line )
     message( MSG_LOG , 0 , "  Courant number must less than 1!\n" );
     return false;
   }
+  else if( courantNum <= 0.0 )
+  {
+    message( MSG_LOG , 0 , "  Courant number must be greater than 0!\n" );
+    return false;
+  }
   else
   {
     setCourantNumber( (real) courantNum );
-- 
2.43.0


From c7d53c6318877ccdc45a7633e8798ebb8c3a8e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:14 +0000
Subject: [PATCH 16/49] fix: plane wave azimuth must be below 360 degrees, as
 documented

---
 src/planewave.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/planewave.c b/src/planewave.c
index 7edcf51..1594784 100644
--- a/src/planewave.c
+++ b/src/planewave.c
@@ -229,7 +229,7 @@ bool parsePW( char *line )
     message( MSG_LOG , 0 , "\n  Incident angle theta must be in range [0,180] degrees.\n" );
     return false;
   }
-  if( phi < 0.0 || phi > 360.0 )
+  if( phi < 0.0 || phi >= 360.0 )
   {
     message( MSG_LOG , 0 , "\n  Incident angle phi must be in range [0,360) degrees.\n" );
     return false;
-- 
2.43.0


From b033361ea16a325772268605ba60b3166beff524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:14 +0000
Subject: [PATCH 17/49] fix: a single output frequency no longer divides by
 zero

---
 src/observer.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/observer.c b/src/observer.c
index d7c81c4..5f74c73 100644
--- a/src/observer.c
+++ b/src/observer.c
@@ -440,7 +440,8 @@ void initObservers( void )
   }
   else
   {
-    stepFreq = ( stopFreq - startFreq ) / ( numFreq - 1 );
+    /* A single frequency has no step. */
+    stepFreq = numFreq > 1 ? ( stopFreq - startFreq ) / ( numFreq - 1 ) : 0.0;
   }
 
   message( MSG_LOG , 0 , "  Observer freqs: fstart=%g MHz, fstop=%g MHz, fstep=%g MHz, fnumber=%lu\n" , 
-- 
2.43.0


From 933e4d8ca70daa32e66dbd4ecb04b2d952857f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:14 +0000
Subject: [PATCH 18/49] fix: impulse.dat header counts only the time steps that
 are run

---
 src/observer.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/observer.c b/src/observer.c
index 5f74c73..79d9653 100644
--- a/src/observer.c
+++ b/src/observer.c
@@ -421,6 +421,12 @@ void initObservers( void )
     stopTimeStep = numTimeSteps - 1UL;
   }
   
+  /* Output cannot continue beyond the end of the run. */
+  if( stopTimeStep >= numTimeSteps )
+    stopTimeStep = numTimeSteps - 1UL;
+  if( startTimeStep > stopTimeStep + 1UL )
+    startTimeStep = stopTimeStep + 1UL;
+
   startTime = startTimeStep * dt;
   stopTime = stopTimeStep * dt;
   numOutTimeSteps = stopTimeStep - startTimeStep + 1UL; 
-- 
2.43.0


From e857244d77614a3fa02bb6c0bd5f308e1796a3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:31 +0000
Subject: [PATCH 19/49] fix: observer times are logged with the conversion for
 unsigned long

---
 src/observer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/observer.c b/src/observer.c
index 79d9653..5c98055 100644
--- a/src/observer.c
+++ b/src/observer.c
@@ -431,7 +431,7 @@ void initObservers( void )
   stopTime = stopTimeStep * dt;
   numOutTimeSteps = stopTimeStep - startTimeStep + 1UL; 
 
-  message( MSG_LOG , 0 , "  Observer times: tstart=%ul (%g ns), tstop=%ul (%g ns), numsteps=%lu\n" , 
+  message( MSG_LOG , 0 , "  Observer times: tstart=%lu (%g ns), tstop=%lu (%g ns), numsteps=%lu\n" , 
                             startTimeStep , startTime / 1e-9 , stopTimeStep , stopTime / 1e-9 , numOutTimeSteps );
 
 
-- 
2.43.0


From 14ae16f8796501639545af72b59ceaa4ac421f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:31 +0000
Subject: [PATCH 20/49] fix: zero observer steps no longer make the output
 loops endless

---
 src/observer.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/observer.c b/src/observer.c
index 5c98055..e3756a7 100644
--- a/src/observer.c
+++ b/src/observer.c
@@ -258,6 +258,9 @@ bool parseOP( char *line )
       message( MSG_LOG , 0 , "  Steps must be positive or zero:\n" );
       return false;
     }
+    /* A zero step means no stride. */
+    for( int direction = XDIR ; direction <= ZDIR ; direction++ )
+      if( step[direction] == 0 ) step[direction] = 1;
   }
   else
   {
-- 
2.43.0


From 035f54981f5e7767cbaa85c9fed306d303e31b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:03 +0000
Subject: [PATCH 21/49] fix: PML layers on low faces carry the adjoining cell's
 medium, like those on high faces

---
 src/pml.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pml.c b/src/pml.c
index 8b808e7..7ea5287 100644
--- a/src/pml.c
+++ b/src/pml.c
@@ -486,7 +486,7 @@ void initPmlMaterialArrays( void )
   for( region = ZLO ; region <= ZHI ; region++ )
   {
     if( region == ZLO )
-      offset = +1;
+      offset = 0;
     else
       offset = -1;
     field = EX;
@@ -533,7 +533,7 @@ void initPmlMaterialArrays( void )
   for( region = YLO ; region <= YHI ; region++ )
   {
     if( region == YLO )
-      offset = +1;
+      offset = 0;
     else
       offset = -1;
     field = EX;
@@ -580,7 +580,7 @@ void initPmlMaterialArrays( void )
   for( region = XLO ; region <= XHI ; region++ )
   {
     if( region == XLO )
-      offset = +1;
+      offset = 0;
     else
       offset = -1;
     field = EX;
-- 
2.43.0


From 16e143ecf44b6e51012db392d43813cdd03c57ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:59 +0000
Subject: [PATCH 22/49] fix: plane wave boxes that are not volumes are rejected

---
 src/planewave.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/planewave.c b/src/planewave.c
index 1594784..c44a2fa 100644
--- a/src/planewave.c
+++ b/src/planewave.c
@@ -215,6 +215,11 @@ bool parsePW( char *line )
     message( MSG_LOG , 0 , "  Bounding box is outside mesh:\n" );
     return false;
   }
+  else if( bboxType( mbbox ) != BB_VOLUME )
+  {
+    message( MSG_LOG , 0 , "  Bounding box is not a volume:\n" );
+    return false;
+  }
 
   /* Check waveform exists. */
   if( !isWaveform( waveformName , &waveformNumber ) )
-- 
2.43.0


From f129405e9bc75b1c1743db84e8f79a9b98cbb1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:46 +0000
Subject: [PATCH 23/49] fix: field locations outside the mesh lines are no
 longer read outside their arrays

---
 src/grid.c | 71 ++++++++++++++++++++++++++++++++++++------------------
 1 file changed, 47 insertions(+), 24 deletions(-)

diff --git a/src/grid.c b/src/grid.c
index d1e1546..65b9560 100644
--- a/src/grid.c
+++ b/src/grid.c
@@ -1408,47 +1408,70 @@ void getGridBoundingBox( int innerBox[6] , int outerBox[6] )
 
 }
 
-/* Get location of field point (in grid indices.) in physical units. */
-void getFieldPhysicalLocation( real r[3] , FieldComponent field , int ig , int jg , int kg )
+/* Get physical coordinate of a grid line. The outermost edges continue beyond the mesh. */
+static real gridLineLocation( int ig , CoordAxis dir , real lines[] , real edges[] )
 {
 
-  int im, jm, km;   // Mesh indices.
+  int im;   // Mesh index.
+  real coord;
+
+  im = ig - gibox[2*dir];
+
+  if( im >= 0 && im < numLines[dir] )
+    return lines[im];
+
+  if( im < 0 )
+  {
+    coord = lines[0];
+    for( int i = gibox[2*dir] - 1 ; i >= ig ; i-- )
+      coord -= edges[i];
+  }
+  else
+  {
+    coord = lines[numLines[dir]-1];
+    for( int i = gibox[2*dir+1] ; i < ig ; i++ )
+      coord += edges[i];
+  }
+
+  return coord;
+
+}
 
-  im = ig - gibox[XLO];
-  jm = jg - gibox[YLO];
-  km = kg - gibox[ZLO];
+/* Get location of field point (in grid indices.) in physical units. */
+void getFieldPhysicalLocation( real r[3] , FieldComponent field , int ig , int jg , int kg )
+{
 
   switch( field )
   {
   case EX:
-    r[XDIR] = xlines[im] + 0.5 * dex[ig];
-    r[YDIR] = ylines[jm];
-    r[ZDIR] = zlines[km];
+    r[XDIR] = gridLineLocation( ig , XDIR , xlines , dex ) + 0.5 * dex[ig];
+    r[YDIR] = gridLineLocation( jg , YDIR , ylines , dey );
+    r[ZDIR] = gridLineLocation( kg , ZDIR , zlines , dez );
     break;
   case EY:
-    r[XDIR] = xlines[im];
-    r[YDIR] = ylines[jm] + 0.5 * dey[jg];
-    r[ZDIR] = zlines[km];
+    r[XDIR] = gridLineLocation( ig , XDIR , xlines , dex );
+    r[YDIR] = gridLineLocation( jg , YDIR , ylines , dey ) + 0.5 * dey[jg];
+    r[ZDIR] = gridLineLocation( kg , ZDIR , zlines , dez );
     break;
   case EZ:
-    r[XDIR] = xlines[im];
-    r[YDIR] = ylines[jm];
-    r[ZDIR] = zlines[km] + 0.5 * dez[kg];
+    r[XDIR] = gridLineLocation( ig , XDIR , xlines , dex );
+    r[YDIR] = gridLineLocation( jg , YDIR , ylines , dey );
+    r[ZDIR] = gridLineLocation( kg , ZDIR , zlines , dez ) + 0.5 * dez[kg];
     break;
   case HX:
-    r[XDIR] = xlines[im];
-    r[YDIR] = ylines[jm] + 0.5 * dey[jg];
-    r[ZDIR] = zlines[km] + 0.5 * dez[kg];
+    r[XDIR] = gridLineLocation( ig , XDIR , xlines , dex );
+    r[YDIR] = gridLineLocation( jg , YDIR , ylines , dey ) + 0.5 * dey[jg];
+    r[ZDIR] = gridLineLocation( kg , ZDIR , zlines , dez ) + 0.5 * dez[kg];
     break;
   case HY:
-    r[XDIR] = xlines[im] + 0.5 * dex[ig];
-    r[YDIR] = ylines[jm];
-    r[ZDIR] = zlines[km] + 0.5 * dez[kg];
+    r[XDIR] = gridLineLocation( ig , XDIR , xlines , dex ) + 0.5 * dex[ig];
+    r[YDIR] = gridLineLocation( jg , YDIR , ylines , dey );
+    r[ZDIR] = gridLineLocation( kg , ZDIR , zlines , dez ) + 0.5 * dez[kg];
     break;
   case HZ:
-    r[XDIR] = xlines[im] + 0.5 * dex[ig];
-    r[YDIR] = ylines[jm] + 0.5 * dey[jg];
-    r[ZDIR] = zlines[km];
+    r[XDIR] = gridLineLocation( ig , XDIR , xlines , dex ) + 0.5 * dex[ig];
+    r[YDIR] = gridLineLocation( jg , YDIR , ylines , dey ) + 0.5 * dey[jg];
+    r[ZDIR] = gridLineLocation( kg , ZDIR , zlines , dez );
     break;
   default:
     assert( 0 );
-- 
2.43.0


From 3b3fa3c80f3513966dccccba943f802f1fc74009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:18 +0000
Subject: [PATCH 24/49] fix: grid type test compares edge lengths both ways and
 relative to the edges

---
 src/grid.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/grid.c b/src/grid.c
index 65b9560..d74af1d 100644
--- a/src/grid.c
+++ b/src/grid.c
@@ -44,7 +44,7 @@
 #include "util.h"
 
 /* Tolerance on grid type test */
-#define GRID_TYPE_TOL 1e-5    
+#define GRID_TYPE_TOL 1e-3    
 
 /* Tolerance on medium checking test. */
 #define CHECK_LIMITS_RTOL    1e-8
@@ -1548,21 +1548,21 @@ void setGridType( void )
   bool zIsUniform = true;
 
   for( int i = gibox[XLO] + 1 ; i <= gibox[XHI] - 1 ; i++ ) 
-    if( dex[i] - dex[i-1] >  GRID_TYPE_TOL )
+    if( fabs( dex[i] - dex[gibox[XLO]] ) > GRID_TYPE_TOL * dex[gibox[XLO]] )
       xIsUniform = false;
 
   for( int j = gibox[YLO] + 1 ; j <= gibox[YHI] - 1 ; j++ ) 
-    if( dey[j] - dey[j-1] >  GRID_TYPE_TOL )
+    if( fabs( dey[j] - dey[gibox[YLO]] ) > GRID_TYPE_TOL * dey[gibox[YLO]] )
       yIsUniform = false;
 
   for( int k = gibox[ZLO] + 1 ; k <= gibox[ZHI] - 1 ; k++ ) 
-    if( dez[k] - dez[k-1] >  GRID_TYPE_TOL )
+    if( fabs( dez[k] - dez[gibox[ZLO]] ) > GRID_TYPE_TOL * dez[gibox[ZLO]] )
       zIsUniform = false;
     
   if( xIsUniform && yIsUniform && zIsUniform )
   {
-    if( ( fabs( dex[gibox[XLO]] - dey[gibox[YLO]] ) < GRID_TYPE_TOL ) &&
-        ( fabs( dey[gibox[YLO]] - dez[gibox[ZLO]] ) < GRID_TYPE_TOL ) )
+    if( ( fabs( dex[gibox[XLO]] - dey[gibox[YLO]] ) < GRID_TYPE_TOL * dex[gibox[XLO]] ) &&
+        ( fabs( dey[gibox[YLO]] - dez[gibox[ZLO]] ) < GRID_TYPE_TOL * dey[gibox[YLO]] ) )
     {
       gridType = GT_CUBIC;
     }
-- 
2.43.0


From df5a0b1fc57505d343e37fbdf2470e59e29e7a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:53 +0000
Subject: [PATCH 25/49] fix: impedance sheet adjacency flags are initialised on
 the whole grid, rims included

---
 src/sibc.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/sibc.c b/src/sibc.c
index 7b9b752..ee81011 100644
--- a/src/sibc.c
+++ b/src/sibc.c
@@ -230,9 +230,10 @@ void initSibcSurfaces( SurfaceIndex number , SurfaceItem *surfaceList )
   bool ****isSibcFace;
   message( MSG_DEBUG1 , 0 , "  Allocating SIBC utilisation array\n" );
   isSibcFace = allocArray( &bytes , sizeof( bool ) , 4 , numCells[XDIR] , numCells[YDIR] , numCells[ZDIR] , 3 );
-  setSibcFace( isSibcFace , gobox , XDIR , false );
-  setSibcFace( isSibcFace , gobox , YDIR , false );
-  setSibcFace( isSibcFace , gobox , ZDIR , false );
+  int wholeGrid[6] = { 0 , numCells[XDIR] , 0 , numCells[YDIR] , 0 , numCells[ZDIR] };
+  setSibcFace( isSibcFace , wholeGrid , XDIR , false );
+  setSibcFace( isSibcFace , wholeGrid , YDIR , false );
+  setSibcFace( isSibcFace , wholeGrid , ZDIR , false );
 
   /* Set up SIBC surfaces. */
   surface = 0;
-- 
2.43.0


From a809c211f25a7a70c3ce42040a96a69d140461c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:09 +0000
Subject: [PATCH 26/49] fix: impedance sheets find the sheet adjoining their
 fourth rim in the cell next to it

---
 src/sibc.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sibc.c b/src/sibc.c
index ee81011..14d81b9 100644
--- a/src/sibc.c
+++ b/src/sibc.c
@@ -344,7 +344,7 @@ void initSibcSurfaces( SurfaceIndex number , SurfaceItem *surfaceList )
               sibcArray[surface].isAdjB[ii][jj][kk][0] = isSibcFace[i][j][k][YDIR];
               sibcArray[surface].isAdjB[ii][jj][kk][1] = isSibcFace[i][j+1][k][YDIR];
               sibcArray[surface].isAdjB[ii][jj][kk][2] = isSibcFace[i][j][k][ZDIR];
-              sibcArray[surface].isAdjB[ii][jj][kk][3] = isSibcFace[i][j+1][k+1][ZDIR];       
+              sibcArray[surface].isAdjB[ii][jj][kk][3] = isSibcFace[i][j][k+1][ZDIR];       
             }
         break;
       case YDIR:
@@ -359,7 +359,7 @@ void initSibcSurfaces( SurfaceIndex number , SurfaceItem *surfaceList )
               sibcArray[surface].isAdjB[ii][jj][kk][0] = isSibcFace[i][j][k][ZDIR];
               sibcArray[surface].isAdjB[ii][jj][kk][1] = isSibcFace[i][j][k+1][ZDIR];
               sibcArray[surface].isAdjB[ii][jj][kk][2] = isSibcFace[i][j][k][XDIR];
-              sibcArray[surface].isAdjB[ii][jj][kk][3] = isSibcFace[i+1][j][k+1][XDIR];       
+              sibcArray[surface].isAdjB[ii][jj][kk][3] = isSibcFace[i+1][j][k][XDIR];       
             }
         break;
       case ZDIR:
@@ -374,7 +374,7 @@ void initSibcSurfaces( SurfaceIndex number , SurfaceItem *surfaceList )
               sibcArray[surface].isAdjB[ii][jj][kk][0] = isSibcFace[i][j][k][XDIR];
               sibcArray[surface].isAdjB[ii][jj][kk][1] = isSibcFace[i+1][j][k][XDIR];
               sibcArray[surface].isAdjB[ii][jj][kk][2] = isSibcFace[i][j][k][YDIR];
-              sibcArray[surface].isAdjB[ii][jj][kk][3] = isSibcFace[i+1][j+1][k][YDIR];
+              sibcArray[surface].isAdjB[ii][jj][kk][3] = isSibcFace[i][j+1][k][YDIR];
             }
         break;
       default:
-- 
2.43.0


From 208c2c9201e0b54f8a936d522913387c5401c9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:49 +0000
Subject: [PATCH 27/49] fix: field beside the rims of impedance sheets takes
 the curl of the rim field, alike for every normal

---
 src/sibc.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/sibc.c b/src/sibc.c
index 14d81b9..dcbe3a1 100644
--- a/src/sibc.c
+++ b/src/sibc.c
@@ -654,10 +654,10 @@ void updateSibcSurfacesHfield( void )
             Hz[i][j][k+1]   = Hz[i][j][k+1]   + GAMMA_HZ(i,j,k+1)   * edgeWeightyh * dEy_dx( Eyb , i );
 
             /* Apply parallel adjacent magnetic field correction */
-            Hx[i][j+1][k] = Hx[i][j+1][k] - GAMMA_HX(i,j+1,k) * 0.5 * edgeWeightzh * (!sibcArray[surface].isAdjA[ii][jj][kk][0] * dEz_dx( Eza, i-1) + !sibcArray[surface].isAdjB[ii][jj][kk][0] * dEz_dx( Ezb, i));
-            Hx[i][j-1][k] = Hx[i][j-1][k] + GAMMA_HX(i,j-1,k) * 0.5 * edgeWeightzl * (!sibcArray[surface].isAdjA[ii][jj][kk][1] * dEz_dx( Eza, i-1) + !sibcArray[surface].isAdjB[ii][jj][kk][1] * dEz_dx( Ezb, i));
-            Hx[i][j][k+1] = Hx[i][j][k+1] - GAMMA_HX(i,j,k+1) * 0.5 * edgeWeightyh * (!sibcArray[surface].isAdjA[ii][jj][kk][2] * dEy_dx( Eya, i-1) + !sibcArray[surface].isAdjB[ii][jj][kk][2] * dEy_dx( Eyb, i));
-            Hx[i][j][k-1] = Hx[i][j][k-1] + GAMMA_HX(i,j,k-1) * 0.5 * edgeWeightyl * (!sibcArray[surface].isAdjA[ii][jj][kk][3] * dEy_dx( Eya, i-1) + !sibcArray[surface].isAdjB[ii][jj][kk][3] * dEy_dx( Eyb, i));
+            Hx[i][j+1][k] = Hx[i][j+1][k] + GAMMA_HX(i,j+1,k) * 0.5 * edgeWeightzh * (!sibcArray[surface].isAdjA[ii][jj][kk][1] * dEz_dy( Eza , j + 1 ) + !sibcArray[surface].isAdjB[ii][jj][kk][1] * dEz_dy( Ezb , j + 1 ));
+            Hx[i][j-1][k] = Hx[i][j-1][k] - GAMMA_HX(i,j-1,k) * 0.5 * edgeWeightzl * (!sibcArray[surface].isAdjA[ii][jj][kk][0] * dEz_dy( Eza , j - 1 ) + !sibcArray[surface].isAdjB[ii][jj][kk][0] * dEz_dy( Ezb , j - 1 ));
+            Hx[i][j][k+1] = Hx[i][j][k+1] - GAMMA_HX(i,j,k+1) * 0.5 * edgeWeightyh * (!sibcArray[surface].isAdjA[ii][jj][kk][3] * dEy_dz( Eya , k + 1 ) + !sibcArray[surface].isAdjB[ii][jj][kk][3] * dEy_dz( Eyb , k + 1 ));
+            Hx[i][j][k-1] = Hx[i][j][k-1] + GAMMA_HX(i,j,k-1) * 0.5 * edgeWeightyl * (!sibcArray[surface].isAdjA[ii][jj][kk][2] * dEy_dz( Eya , k - 1 ) + !sibcArray[surface].isAdjB[ii][jj][kk][2] * dEy_dz( Eyb , k - 1 ));
           }
       break;
     case YDIR:
@@ -687,10 +687,10 @@ void updateSibcSurfacesHfield( void )
             Hx[i+1][j][k]   = Hx[i+1][j][k]   + GAMMA_HX(i+1,j,k)   * edgeWeightzh * dEz_dy( Ezb , j );
 
             /* Apply parallel adjacent magnetic field correction */
-            Hy[i][j][k+1] = Hy[i][j][k+1] + GAMMA_HY(i,j,k+1) * 0.5 * edgeWeightzh * (!sibcArray[surface].isAdjA[ii][jj][kk][0] * dEz_dy( Eza, j-1) + !sibcArray[surface].isAdjB[ii][jj][kk][0] * dEz_dy( Exb, j));
-            Hy[i][j][k-1] = Hy[i][j][k-1] - GAMMA_HY(i,j,k-1) * 0.5 * edgeWeightzl * (!sibcArray[surface].isAdjA[ii][jj][kk][1] * dEz_dy( Eza, j-1) + !sibcArray[surface].isAdjB[ii][jj][kk][1] * dEz_dy( Exb, j));
-            Hy[i+1][j][k] = Hy[i+1][j][k] + GAMMA_HY(i+1,j,k) * 0.5 * edgeWeightxh * (!sibcArray[surface].isAdjA[ii][jj][kk][2] * dEx_dy( Exa, j-1) + !sibcArray[surface].isAdjB[ii][jj][kk][2] * dEx_dy( Exb, j));
-            Hy[i-1][j][k] = Hy[i-1][j][k] - GAMMA_HY(i-1,j,k) * 0.5 * edgeWeightxl * (!sibcArray[surface].isAdjA[ii][jj][kk][3] * dEx_dy( Exa, j-1) + !sibcArray[surface].isAdjB[ii][jj][kk][3] * dEx_dy( Exb, j));
+            Hy[i][j][k+1] = Hy[i][j][k+1] + GAMMA_HY(i,j,k+1) * 0.5 * edgeWeightxh * (!sibcArray[surface].isAdjA[ii][jj][kk][1] * dEx_dz( Exa , k + 1 ) + !sibcArray[surface].isAdjB[ii][jj][kk][1] * dEx_dz( Exb , k + 1 ));
+            Hy[i][j][k-1] = Hy[i][j][k-1] - GAMMA_HY(i,j,k-1) * 0.5 * edgeWeightxl * (!sibcArray[surface].isAdjA[ii][jj][kk][0] * dEx_dz( Exa , k - 1 ) + !sibcArray[surface].isAdjB[ii][jj][kk][0] * dEx_dz( Exb , k - 1 ));
+            Hy[i+1][j][k] = Hy[i+1][j][k] - GAMMA_HY(i+1,j,k) * 0.5 * edgeWeightzh * (!sibcArray[surface].isAdjA[ii][jj][kk][3] * dEz_dx( Eza , i + 1 ) + !sibcArray[surface].isAdjB[ii][jj][kk][3] * dEz_dx( Ezb , i + 1 ));
+            Hy[i-1][j][k] = Hy[i-1][j][k] + GAMMA_HY(i-1,j,k) * 0.5 * edgeWeightzl * (!sibcArray[surface].isAdjA[ii][jj][kk][2] * dEz_dx( Eza , i - 1 ) + !sibcArray[surface].isAdjB[ii][jj][kk][2] * dEz_dx( Ezb , i - 1 ));
           }
       break;
     case ZDIR:
@@ -720,10 +720,10 @@ void updateSibcSurfacesHfield( void )
             Hy[i][j+1][k]   = Hy[i][j+1][k]   + GAMMA_HY(i,j+1,k)   * edgeWeightxh * dEx_dz( Exb , k );
 
             /* Apply parallel adjacent magnetic field correction */
-            Hz[i+1][j][k] = Hz[i+1][j][k] + GAMMA_HZ(i+1,j,k) * 0.5 * edgeWeightyh * (!sibcArray[surface].isAdjA[ii][jj][kk][0] * dEy_dz( Eya, k-1) + !sibcArray[surface].isAdjB[ii][jj][kk][0] * dEy_dz( Eyb, k));
-            Hz[i-1][j][k] = Hz[i-1][j][k] - GAMMA_HZ(i-1,j,k) * 0.5 * edgeWeightyl * (!sibcArray[surface].isAdjA[ii][jj][kk][1] * dEy_dz( Eya, k-1) + !sibcArray[surface].isAdjB[ii][jj][kk][1] * dEy_dz( Eyb, k));
-            Hz[i][j+1][k] = Hz[i][j+1][k] + GAMMA_HZ(i,j+1,k) * 0.5 * edgeWeightxh * (!sibcArray[surface].isAdjA[ii][jj][kk][2] * dEx_dz( Exa, k-1) + !sibcArray[surface].isAdjB[ii][jj][kk][2] * dEx_dz( Exb, k));
-            Hz[i][j-1][k] = Hz[i][j-1][k] - GAMMA_HZ(i,j-1,k) * 0.5 * edgeWeightxl * (!sibcArray[surface].isAdjA[ii][jj][kk][3] * dEx_dz( Exa, k-1) + !sibcArray[surface].isAdjB[ii][jj][kk][3] * dEx_dz( Exb, k));
+            Hz[i+1][j][k] = Hz[i+1][j][k] + GAMMA_HZ(i+1,j,k) * 0.5 * edgeWeightyh * (!sibcArray[surface].isAdjA[ii][jj][kk][1] * dEy_dx( Eya , i + 1 ) + !sibcArray[surface].isAdjB[ii][jj][kk][1] * dEy_dx( Eyb , i + 1 ));
+            Hz[i-1][j][k] = Hz[i-1][j][k] - GAMMA_HZ(i-1,j,k) * 0.5 * edgeWeightyl * (!sibcArray[surface].isAdjA[ii][jj][kk][0] * dEy_dx( Eya , i - 1 ) + !sibcArray[surface].isAdjB[ii][jj][kk][0] * dEy_dx( Eyb , i - 1 ));
+            Hz[i][j+1][k] = Hz[i][j+1][k] - GAMMA_HZ(i,j+1,k) * 0.5 * edgeWeightxh * (!sibcArray[surface].isAdjA[ii][jj][kk][3] * dEx_dy( Exa , j + 1 ) + !sibcArray[surface].isAdjB[ii][jj][kk][3] * dEx_dy( Exb , j + 1 ));
+            Hz[i][j-1][k] = Hz[i][j-1][k] + GAMMA_HZ(i,j-1,k) * 0.5 * edgeWeightxl * (!sibcArray[surface].isAdjA[ii][jj][kk][2] * dEx_dy( Exa , j - 1 ) + !sibcArray[surface].isAdjB[ii][jj][kk][2] * dEx_dy( Exb , j - 1 ));
           }
       break;
     default:
-- 
2.43.0


From dae45ade7ef819158b72bc9c187d2c6cba8dba65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:21 +0000
Subject: [PATCH 28/49] fix: passivity of impedance sheets is the definiteness
 of I-S'S, not the signs of its elements

---
 src/sibc.c | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/sibc.c b/src/sibc.c
index dcbe3a1..213b153 100644
--- a/src/sibc.c
+++ b/src/sibc.c
@@ -807,19 +807,17 @@ void tportS2Z( real Z[2][2] , real S[2][2] )
 bool isPassiveS( real S[2][2] )
 {
 
-  bool elem00;
-  bool elem01;
-  bool elem10;
-  bool elem11;
-
-  /* Compare elements of I - transpose(conj(S)) * S to zero matrix. */
-  elem00 = ( 1 - ( S[0][0] * S[0][0] + S[1][0] * S[1][0] ) ) >= 0.0;
-  elem01 = ( S[0][0] * S[0][1] - S[1][0] * S[1][1] ) >= 0.0;
-  elem10 = ( S[0][1] * S[0][0] - S[1][1] * S[1][0] ) >= 0.0;
-  elem11 = ( 1 - ( S[0][1] * S[0][1] + S[1][1] * S[1][1] ) ) >= 0.0;
-
-  /* Passive if positive definite. */
-  return ( elem00 && elem01 && elem10 && elem11 );
+  real elem00;
+  real elem01;
+  real elem11;
+
+  /* Elements of symmetric matrix I - transpose(conj(S)) * S. */
+  elem00 = 1.0 - ( S[0][0] * S[0][0] + S[1][0] * S[1][0] );
+  elem01 = -( S[0][0] * S[0][1] + S[1][0] * S[1][1] );
+  elem11 = 1.0 - ( S[0][1] * S[0][1] + S[1][1] * S[1][1] );
+
+  /* Passive if no negative eigenvalue. */
+  return ( elem00 >= 0.0 && elem11 >= 0.0 && elem00 * elem11 - elem01 * elem01 >= 0.0 );
 
 }
 
-- 
2.43.0


From e7579634d8a721c3aa556179af9830b53a84ac17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:48 +0000
Subject: [PATCH 29/49] fix: sheet rims on opposite periodic faces are one edge
 with the field of the sheet on both sides

---
 src/sibc.c | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/sibc.c b/src/sibc.c
index 213b153..cdfb23b 100644
--- a/src/sibc.c
+++ b/src/sibc.c
@@ -772,6 +772,28 @@ void updateSibcSurfacesHfield( void )
 
   } /* for */
   
+  /* Rims on opposite periodic faces are the same edge and take the field of the faces on both sides. */
+  for( SurfaceIndex surface = 0 ; surface < numSibcSurface ; surface++ )
+  {
+    int *gbbox = sibcArray[surface].gbbox;
+    CoordAxis normal = sibcArray[surface].normal;
+    if( outerSurfaceType( XLO ) == BT_PERIODIC && ( gbbox[XLO] == gobox[XLO] || gbbox[XHI] == gobox[XHI] + ( normal == XDIR ) ) )
+      for( j = gbbox[YLO] - 1 ; j <= gbbox[YHI] ; j++ )
+        for( k = gbbox[ZLO] - 1 ; k <= gbbox[ZHI] ; k++ )
+          if( j >= gobox[YLO] && j < gobox[YHI] && k >= gobox[ZLO] && k < gobox[ZHI] )
+            Hx[gobox[XLO]][j][k] = Hx[gobox[XHI]][j][k] = 0.5 * ( Hx[gobox[XLO]][j][k] + Hx[gobox[XHI]][j][k] );
+    if( outerSurfaceType( YLO ) == BT_PERIODIC && ( gbbox[YLO] == gobox[YLO] || gbbox[YHI] == gobox[YHI] + ( normal == YDIR ) ) )
+      for( i = gbbox[XLO] - 1 ; i <= gbbox[XHI] ; i++ )
+        for( k = gbbox[ZLO] - 1 ; k <= gbbox[ZHI] ; k++ )
+          if( i >= gobox[XLO] && i < gobox[XHI] && k >= gobox[ZLO] && k < gobox[ZHI] )
+            Hy[i][gobox[YLO]][k] = Hy[i][gobox[YHI]][k] = 0.5 * ( Hy[i][gobox[YLO]][k] + Hy[i][gobox[YHI]][k] );
+    if( outerSurfaceType( ZLO ) == BT_PERIODIC && ( gbbox[ZLO] == gobox[ZLO] || gbbox[ZHI] == gobox[ZHI] + ( normal == ZDIR ) ) )
+      for( i = gbbox[XLO] - 1 ; i <= gbbox[XHI] ; i++ )
+        for( j = gbbox[YLO] - 1 ; j <= gbbox[YHI] ; j++ )
+          if( i >= gobox[XLO] && i < gobox[XHI] && j >= gobox[YLO] && j < gobox[YHI] )
+            Hz[i][j][gobox[ZLO]] = Hz[i][j][gobox[ZHI]] = 0.5 * ( Hz[i][j][gobox[ZLO]] + Hz[i][j][gobox[ZHI]] );
+  } /* for */
+
   return;
 
 }
-- 
2.43.0


From c7044fd10b0cd6c572ce5f9eb441f3bbc614c3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:27 +0000
Subject: [PATCH 30/49] fix: a mesh ends with its EN card: files without it and
 cards after it are errors

---
 src/mesh.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/mesh.c b/src/mesh.c
index 35a7a4d..a9b27da 100644
--- a/src/mesh.c
+++ b/src/mesh.c
@@ -326,6 +326,10 @@ void readMesh( char fileName[] )
     if( thisCardType == CT_ERROR )
       message( MSG_ERROR , 0 , "*** Error: Invalid card on line %lu:\n  %s" , lineNumber , rawLine ); 
 
+    /* Check mesh has not already ended. */
+    if( sectionNumber >= NUM_SECTIONS )
+      message( MSG_ERROR , 0 , "*** Error: Card type %s on line %lu follows end of mesh\n" , CT_STRING[thisCardType] , lineNumber );
+
     /* Check card is valid in this section. */
     if( !isValidInSection[sectionNumber][thisCardType] )
       message( MSG_ERROR , 0 , "*** Error: Card type %s on line %lu is invalid in mesh section %d\n" , CT_STRING[thisCardType] , lineNumber , sectionNumber );
@@ -398,6 +402,10 @@ void readMesh( char fileName[] )
 
   fclose(meshFilePointer);
 
+  /* Check mesh is complete. */
+  if( sectionNumber < NUM_SECTIONS )
+    message( MSG_ERROR , 0 , "*** Error: Mesh file ended before end of Section %d\n" , sectionNumber );
+
   reportMesh();
 
   return;
-- 
2.43.0


From 1c027a06c6b09ac6e37f4389412c6ee237178192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:02 +0000
Subject: [PATCH 31/49] fix: comments among the mesh line values of XL, YL and
 ZL cards are skipped

---
 src/mesh.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/mesh.c b/src/mesh.c
index a9b27da..39726d1 100644
--- a/src/mesh.c
+++ b/src/mesh.c
@@ -507,9 +507,17 @@ bool meshReadRealArray( int size , real *v )
 {
 
   double value;
+  int c;
 
   for( int k = 0 ; k < size ; k++ )
   {
+    /* Skip comments. */
+    while( ( c = fgetc( meshFilePointer ) ) != EOF && ( isspace( c ) || c == '#' ) )
+      if( c == '#' )
+        while( c != EOF && c != '\n' )
+          c = fgetc( meshFilePointer );
+    ungetc( c , meshFilePointer );
+
     if( fscanf( meshFilePointer , "%lf" , &value ) != 1 )
       return false;
     else
-- 
2.43.0


From ff617057f45ab060731b2e3fed0777feeb06f469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:08 +0000
Subject: [PATCH 32/49] fix: the part of a mesh line beyond the buffer is not
 taken for another card

---
 src/mesh.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/mesh.c b/src/mesh.c
index 39726d1..95b85fc 100644
--- a/src/mesh.c
+++ b/src/mesh.c
@@ -308,6 +308,20 @@ void readMesh( char fileName[] )
 
     lineNumber++; 
 
+    /* Only comments and white space may extend beyond the buffer. */
+    if( !strchr( rawLine , '\n' ) )
+    {
+      bool isComment = ( strchr( rawLine , '#' ) != NULL );
+      int c;
+
+      while( ( c = fgetc( meshFilePointer ) ) != EOF && c != '\n' )
+      {
+        isComment = isComment || c == '#';
+        if( !isComment && !isspace( c ) )
+          message( MSG_ERROR , 0 , "*** Error: Line %lu is too long\n" , lineNumber );
+      }
+    }
+
     /* Make copy for parsing. Keep original for error reporting. */
     strncpy( line , rawLine , BUFFER_LENGTH );
 
-- 
2.43.0


From f2b3605acf3e1ec4452b8ac7da6e76356483cc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:03 +0000
Subject: [PATCH 33/49] fix: a single character set in white space is not taken
 for an empty line

---
 src/mesh.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/mesh.c b/src/mesh.c
index 95b85fc..b6059dc 100644
--- a/src/mesh.c
+++ b/src/mesh.c
@@ -458,8 +458,6 @@ void strtrim( char *string )
 
   if( string + stringLength - 1 != endPointer )
     *(endPointer + 1) = '\0';
-  else if( startPointer != string && endPointer == startPointer )
-    *string = '\0';
 
   /* Shift the string back to the start of the buffer. */
   endPointer = string;
-- 
2.43.0


From 9b4be0ce9eea11ff92c0f5120ff477c6667495c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:39 +0000
Subject: [PATCH 34/49] fix: face masks of MB cards must be exactly six binary
 digits

---
 src/bounding_box.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/bounding_box.c b/src/bounding_box.c
index ca0e67b..1aaf36d 100644
--- a/src/bounding_box.c
+++ b/src/bounding_box.c
@@ -322,15 +322,18 @@ FaceMask setFaceMaskFromString( char *maskStr )
 {
   
   FaceMask mask = 0;
-  long lmask = 0;
-  char *junk = NULL;
+  int numDigits = 0;
 
-  lmask = strtol( maskStr , &junk , 2 );
+  /* Must be exactly six binary digits. */
+  for( numDigits = 0 ; maskStr[numDigits] ; numDigits++ )
+  {
+    if( numDigits == 6 || ( maskStr[numDigits] != '0' && maskStr[numDigits] != '1' ) )
+      return FACE_MASK_ERROR;
+    mask = 2 * mask + ( maskStr[numDigits] - '0' );
+  }
 
-  if( lmask < 0 || lmask > 63L || *junk )
-    mask = FACE_MASK_ERROR;  
-  else
-    mask = (FaceMask)lmask;
+  if( numDigits != 6 )
+    return FACE_MASK_ERROR;
   
   return mask;
 
-- 
2.43.0


From 8e25fce922209e69e672b1f1d163745aba65ada4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:39 +0000
Subject: [PATCH 35/49] fix: unstable poles in the MT card of a Debye medium
 are rejected

---
 src/medium.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/medium.c b/src/medium.c
index 7b4fe44..61e2f15 100644
--- a/src/medium.c
+++ b/src/medium.c
@@ -160,6 +160,14 @@ bool parseMT( char *line )
     if( numScanned == 7 || numScanned == 9 || numScanned == 11 )
     {
       numPoles = ( numScanned - 5 ) / 2; 
+      for( int poleIdx = 0 ; poleIdx < numPoles ; poleIdx++ )
+      {
+        if( poles[poleIdx] > 0.0 )
+        {
+          message( MSG_LOG , 0 , "  Poles must have non-positive real part\n" );
+          return false;
+        }
+      }
     }
     else
     {
-- 
2.43.0


From f1277e71a51588c4c5e65a2fe1742e2e7aadb2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:39 +0000
Subject: [PATCH 36/49] fix: negative numbers in OT and OF cards are rejected

---
 src/observer.c | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/observer.c b/src/observer.c
index e3756a7..e5a4390 100644
--- a/src/observer.c
+++ b/src/observer.c
@@ -335,15 +335,27 @@ bool parseFF( char *line )
 bool parseOT( char *line )
 {
 
-  if( sscanf( line , "%lu %lu" , &startTimeStep , &stopTimeStep ) != 2 )
+  long start = 0;
+  long stop = 0;
+
+  if( sscanf( line , "%ld %ld" , &start , &stop ) != 2 )
     return false;
 
-  if( stopTimeStep < startTimeStep )
+  if( start < 0 )
+  {
+    message( MSG_LOG , 0 , "  Start time-step must be >= 0!\n" );
+    return false; 
+  }
+
+  if( stop < start )
   {
     message( MSG_LOG , 0 , "  Stop time-step must be >= start time-step!\n" );
     return false; 
   }
 
+  startTimeStep = (unsigned long)start;
+  stopTimeStep = (unsigned long)stop;
+
   isOT = true;
 
   return true;
@@ -356,9 +368,9 @@ bool parseOF( char *line )
 
   double fstart = -1.0;
   double fstop = -1.0;
-  unsigned long num = 0;
+  long num = 0;
 
-  if( sscanf( line , "%lf %lf %lu" , &fstart , &fstop , &num ) != 3 )
+  if( sscanf( line , "%lf %lf %ld" , &fstart , &fstop , &num ) != 3 )
     return false;
 
   if( fstart < 0 )
@@ -381,14 +393,14 @@ bool parseOF( char *line )
     stopFreq = (real) fstop;
   }
 
-  if( num < 1UL )
+  if( num < 1L )
   {
     message( MSG_LOG , 0 , "  Number of frequencies must be >= 1!\n" );
     return false; 
   }
   else
   {
-    numFreq = num;
+    numFreq = (unsigned long)num;
   }
 
   isOF = true;
-- 
2.43.0


From 32f2bc8b843ec1c9e5343f3715b4349835e390cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:39 +0000
Subject: [PATCH 37/49] fix: boundary types that are not valid on a surface are
 rejected

---
 src/surface.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/surface.c b/src/surface.c
index c66c81e..a885a47 100644
--- a/src/surface.c
+++ b/src/surface.c
@@ -316,7 +316,7 @@ void initExternalSurfaceParameters( void )
       }       
       break;
     default:
-      assert( 0 );
+      message( MSG_ERROR , 0 , "*** Error: Boundary type %s is not valid on external surface %s\n" , BOUNDARY_TYPE_STR[type] , FACE[surface] );
       break;
     }
   }
@@ -391,6 +391,7 @@ void initInternalSurfaces( void )
       numSibc++;
       break;
     default:
+      message( MSG_ERROR , 0 , "*** Error: Boundary type %s is not valid on an internal surface\n" , BOUNDARY_TYPE_STR[type] );
       break;
     }
   }
-- 
2.43.0


From 8f6a8159fdef69083934d080311ca675cd30c32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:39 +0000
Subject: [PATCH 38/49] fix: a negative waveform delay is not replaced by the
 default

---
 src/waveform.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/waveform.c b/src/waveform.c
index 48c8333..0a25a7f 100644
--- a/src/waveform.c
+++ b/src/waveform.c
@@ -23,6 +23,7 @@
  */
 
 #include <assert.h>
+#include <float.h>
 #include <math.h>
 #include <stdio.h>
 
@@ -35,6 +36,9 @@
 #include "simulation.h"
 #include "grid.h"
 
+/* Delay of a waveform whose card gives none. */
+#define NO_DELAY ( -FLT_MAX )
+
 /* 
  * Waveform class. 
  */
@@ -166,7 +170,7 @@ bool parseWF( char *line )
   WaveformIndex waveformNumber;
   bool foundType = false;
   double size = -1.0;
-  double delay = -1.0;
+  double delay = NO_DELAY;
   double width = -1.0;
   double frequency = -1.0;
 
@@ -281,21 +285,21 @@ void initWaveforms( void )
     case WT_RICKER_WAVELET:
       if( item->width < 0 )
          item->width = 5.0 * sqrt( 2.0 ) * del_t;
-      if( item->delay < 0 )
+      if( item->delay == NO_DELAY )
          item->delay = 40.0 * del_t;
       item->frequency = 0.0;
       break;
     case WT_NARROW_GAUSSIAN_PULSE:
       if( item->width < 0 )
          item->width = 2.0 * del_t;
-      if( item->delay < 0 )
+      if( item->delay == NO_DELAY )
          item->delay = 12.0 * del_t;
       item->frequency = 0.0;
       break;
     case WT_MODULATED_GAUSSIAN_PULSE:
       if( item->width < 0 )
          item->width = 20.0 * sqrt( 2.0 ) * del_t;
-      if( item->delay < 0 )
+      if( item->delay == NO_DELAY )
          item->delay = 120.0 * del_t;
       if( item->frequency < 0 )
          item->frequency = 0.05 / del_t;
@@ -304,14 +308,14 @@ void initWaveforms( void )
     case WT_DIFFERENTIATED_COMPACT_PULSE:
       if( item->width < 0 )
          item->width = 20.0 * del_t; 
-      if( item->delay < 0 )
+      if( item->delay == NO_DELAY )
          item->delay = 0.0; 
       item->frequency = 0.0;
       break;
     case WT_MODULATED_COMPACT_PULSE:
       if( item->width < 0 )
          item->width = 80.0 * del_t;   
-      if( item->delay < 0 )
+      if( item->delay == NO_DELAY )
          item->delay = 0.0;
       if( item->frequency < 0 )
          item->frequency = 0.05 / del_t;
@@ -319,13 +323,13 @@ void initWaveforms( void )
     case WT_RAMPED_SINUSOID:
       if( item->width < 0 )
          item->width = 20.0 * del_t;   
-      if( item->delay < 0 )
+      if( item->delay == NO_DELAY )
          item->delay = 0.0;
       if( item->frequency < 0 )
          item->frequency = 0.05 / del_t;
       break;
     case WT_EXTERNAL:
-      if( item->delay < 0 )
+      if( item->delay == NO_DELAY )
          item->delay = 0.0;
       item->tableSize = loadExternalWaveform( item->fileName , &(item->table) );
       item->lastIdx = 0UL;
-- 
2.43.0


From 793e78a705e6902a0c183d3d191da08fcb900691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:10 +0000
Subject: [PATCH 39/49] fix: a BE card without the boundaries of its faces is
 rejected

---
 src/boundary.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/boundary.c b/src/boundary.c
index 2dece6f..61c9499 100644
--- a/src/boundary.c
+++ b/src/boundary.c
@@ -95,7 +95,10 @@ bool parseBE( char *line )
     else
     {
       if( !isBoundary( FACE[surface] , &number ) )
-        message( MSG_LOG , 0 , "  Failed to set depth for PML on %s boundary\n" , BOUNDARY_TYPE_STR[surface] );
+      {
+        message( MSG_LOG , 0 , "  Failed to set depth for PML on %s boundary\n" , FACE[surface] );
+        return false;
+      }
       setBoundaryNumLayers( number , depth[surface] );
     }
 
-- 
2.43.0


From 32ebd220f32e03dc4458c969dec8d8743b6b515e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:10 +0000
Subject: [PATCH 40/49] fix: option -n without a value does not read past the
 arguments

---
 src/vulture.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vulture.c b/src/vulture.c
index 344ada6..ffd786a 100644
--- a/src/vulture.c
+++ b/src/vulture.c
@@ -225,7 +225,7 @@ void parseOption( int argc , char *argv[] , char meshFileName[] )
     }
     else if( strncmp( argv[1] , "-n" , 2 ) == 0  || strncmp( argv[1] , "--num-proc" , 10 ) == 0 )
     {
-      if( argc > 0 )
+      if( argc > 2 )
       {
         options.numThread = strtod( argv[2] , &ptr );      
         if( options.numThread == 0 )
-- 
2.43.0


From 9c483edff80d56d6dcc72bde72c20d9f6f72c85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:10 +0000
Subject: [PATCH 41/49] fix: the documented long options --readmesh and
 --numproc are recognised

---
 src/vulture.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vulture.c b/src/vulture.c
index ffd786a..95f3bfd 100644
--- a/src/vulture.c
+++ b/src/vulture.c
@@ -219,11 +219,11 @@ void parseOption( int argc , char *argv[] , char meshFileName[] )
     {
       options.logLevel = MSG_DEBUG3;
     }
-    else if( strncmp( argv[1] , "-m" , 2 ) == 0  || strncmp( argv[1] , "--read-mesh" , 11 ) == 0 )
+    else if( strncmp( argv[1] , "-m" , 2 ) == 0  || strncmp( argv[1] , "--read-mesh" , 11 ) == 0 || strncmp( argv[1] , "--readmesh" , 10 ) == 0 )
     {
       options.readOnly = true;
     }
-    else if( strncmp( argv[1] , "-n" , 2 ) == 0  || strncmp( argv[1] , "--num-proc" , 10 ) == 0 )
+    else if( strncmp( argv[1] , "-n" , 2 ) == 0  || strncmp( argv[1] , "--num-proc" , 10 ) == 0 || strncmp( argv[1] , "--numproc" , 9 ) == 0 )
     {
       if( argc > 2 )
       {
-- 
2.43.0


From 2f7b0dc5f3e8ee214069666964c9fec5b828a4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:02 +0000
Subject: [PATCH 42/49] fix: gvulture -p draws the arrow of a flat source at
 the high side of the mesh without reading past the mesh lines

---
 src/gnuplot.c | 60 +++++++++++++++++++++++++++++++++++----------------
 1 file changed, 41 insertions(+), 19 deletions(-)

diff --git a/src/gnuplot.c b/src/gnuplot.c
index 9e20bb9..24765f6 100644
--- a/src/gnuplot.c
+++ b/src/gnuplot.c
@@ -47,6 +47,7 @@ void gnuplotLine( FILE *outputFile , int bbox[6] , CoordAxis direction );
 void gnuplotSurface( FILE *outputFile , int bbox[6] , CoordAxis direction );
 void gnuplotVolume( FILE *outputFile , int bbox[6] );
 void bboxInRealUnits( real physbbox[6] , int bbox[6] );
+void arrowBoxInRealUnits( real physbbox[6] , int bbox[6] );
 real indexInRealUnits( int index , CoordAxis dir );
 bool equalBoundaries();
 
@@ -357,21 +358,21 @@ void gnuplotBoundingBoxArrow( FILE *outputFile , int ibbox[6] , FieldComponent f
 {
 
   real bbox[6];
+  int arrowBox[6];
   real length = 1.0;
   real halfWidth = 0.5;
 
-  bboxInRealUnits( bbox , ibbox );
+  for( int face = XLO ; face <= ZHI ; face++ )
+    arrowBox[face] = ibbox[face];
 
   switch( field )
   {
   case EX:
   case HX:
-    if( ibbox[XHI] == ibbox[XLO] )
-    {
-      ibbox[XHI] += 2;
-      bboxInRealUnits( bbox , ibbox );
-    }
-    length = ( bbox[XHI] - bbox[XLO] ) / ( ibbox[XHI] - ibbox[XLO] );
+    if( arrowBox[XHI] == arrowBox[XLO] )
+      arrowBox[XHI] += 2;
+    arrowBoxInRealUnits( bbox , arrowBox );
+    length = ( bbox[XHI] - bbox[XLO] ) / ( arrowBox[XHI] - arrowBox[XLO] );
     halfWidth = 0.5 * length;
     fprintf( outputFile , "%g %g %g\n" , bbox[XLO] , ( bbox[YLO] + bbox[YHI] ) * 0.5 , ( bbox[ZLO] + bbox[ZHI] ) * 0.5 );
     fprintf( outputFile , "%g %g %g\n" , bbox[XHI] , ( bbox[YLO] + bbox[YHI] ) * 0.5 , ( bbox[ZLO] + bbox[ZHI] ) * 0.5 );
@@ -381,12 +382,10 @@ void gnuplotBoundingBoxArrow( FILE *outputFile , int ibbox[6] , FieldComponent f
     break;
   case EY:
   case HY:
-    if( ibbox[YHI] == ibbox[YLO] )
-    {
-      ibbox[YHI] += 2;
-      bboxInRealUnits( bbox , ibbox );
-    }
-    length = ( bbox[YHI] - bbox[YLO] ) / ( ibbox[YHI] - ibbox[YLO] );
+    if( arrowBox[YHI] == arrowBox[YLO] )
+      arrowBox[YHI] += 2;
+    arrowBoxInRealUnits( bbox , arrowBox );
+    length = ( bbox[YHI] - bbox[YLO] ) / ( arrowBox[YHI] - arrowBox[YLO] );
     halfWidth = 0.5 * length;
     fprintf( outputFile , "%g %g %g\n" , ( bbox[XLO] + bbox[XHI] ) * 0.5, bbox[YLO] , ( bbox[ZLO] + bbox[ZHI] ) * 0.5 );
     fprintf( outputFile , "%g %g %g\n" , ( bbox[XLO] + bbox[XHI] ) * 0.5, bbox[YHI] , ( bbox[ZLO] + bbox[ZHI] ) * 0.5 );
@@ -396,12 +395,10 @@ void gnuplotBoundingBoxArrow( FILE *outputFile , int ibbox[6] , FieldComponent f
     break;
   case EZ:
   case HZ:
-    if( ibbox[ZHI] == ibbox[ZLO] )
-    {
-      ibbox[ZHI] += 2;
-      bboxInRealUnits( bbox , ibbox );
-    }
-    length = ( bbox[ZHI] - bbox[ZLO] ) / ( ibbox[ZHI] - ibbox[ZLO] );
+    if( arrowBox[ZHI] == arrowBox[ZLO] )
+      arrowBox[ZHI] += 2;
+    arrowBoxInRealUnits( bbox , arrowBox );
+    length = ( bbox[ZHI] - bbox[ZLO] ) / ( arrowBox[ZHI] - arrowBox[ZLO] );
     halfWidth = 0.5 * length;
     fprintf( outputFile , "%g %g %g\n" , ( bbox[XLO] + bbox[XHI] ) * 0.5 , ( bbox[YLO] + bbox[YHI] ) * 0.5 , bbox[ZLO] );
     fprintf( outputFile , "%g %g %g\n" , ( bbox[XLO] + bbox[XHI] ) * 0.5 , ( bbox[YLO] + bbox[YHI] ) * 0.5 , bbox[ZHI] );
@@ -531,6 +528,31 @@ void bboxInRealUnits( real physbbox[6] , int bbox[6] )
 
 }
 
+/* Convert bounding box of an arrow, which may end outside of the mesh, to physical units. */
+void arrowBoxInRealUnits( real physbbox[6] , int bbox[6] )
+{
+
+  real lo[3] = { bbox[XLO] , bbox[YLO] , bbox[ZLO] };
+  real hi[3] = { bbox[XHI] , bbox[YHI] , bbox[ZHI] };
+  real physlo[3] = { lo[XDIR] , lo[YDIR] , lo[ZDIR] };
+  real physhi[3] = { hi[XDIR] , hi[YDIR] , hi[ZDIR] };
+
+  if( isPhysicalUnits )
+  {
+    nodeInPhysicalUnits( physlo , lo );
+    nodeInPhysicalUnits( physhi , hi );
+  }
+
+  for( CoordAxis dir = XDIR ; dir <= ZDIR ; dir++ )
+  {
+    physbbox[2*dir] = physlo[dir];
+    physbbox[2*dir+1] = physhi[dir];
+  }
+
+  return;
+
+}
+
 /* Convert coordinate line index to physical units. */
 real indexInRealUnits( int index , CoordAxis dir )
 {
-- 
2.43.0


From 2c85f1cb38c41ca3d7aeaac2f80fd903cda01a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:52 +0000
Subject: [PATCH 43/49] fix: the gnuplot script is complete without observers
 and with option -e

---
 src/gnuplot.c | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/gnuplot.c b/src/gnuplot.c
index 24765f6..7fddf34 100644
--- a/src/gnuplot.c
+++ b/src/gnuplot.c
@@ -113,23 +113,22 @@ void gnuplotScript( bool isExternalSurfaces )
   fprintf( scriptFile , "set ylabel 'y [%s]'\n" , unitStr[units] );
   fprintf( scriptFile , "set zlabel 'z [%s]'\n" , unitStr[units] );
   fprintf( scriptFile , "set title '%s'\n" , getCommentReference() );
-  fprintf( scriptFile , "splot 'gnuplot-lines.dat'    ti ''                  w l   ls 1 , \\\n" );
+  fprintf( scriptFile , "splot 'gnuplot-lines.dat'    ti ''                  w l   ls 1" );
   if( isExternalSurfaces ) 
-    fprintf( scriptFile , "      'gnuplot-external.dat' ti 'External surfaces' w l   ls 2 , \\\n" );
-  else
-    fprintf( scriptFile , "#      'gnuplot-external.dat' ti 'External surfaces' w l   ls 2 , \\\n" );    
+    fprintf( scriptFile , " , \\\n      'gnuplot-external.dat' ti 'External surfaces' w l   ls 2" );
   if( thereAreInternalSurfaces( BT_UNDEFINED ) )
-    fprintf( scriptFile , "      'gnuplot-surface.dat'  ti 'Internal surfaces' w l   ls 3 , \\\n" );
+    fprintf( scriptFile , " , \\\n      'gnuplot-surface.dat'  ti 'Internal surfaces' w l   ls 3" );
   if( thereAreBlocks( MT_UNDEFINED ) )
-    fprintf( scriptFile , "      'gnuplot-block.dat'    ti 'Blocks'            w l   ls 4 , \\\n" );
+    fprintf( scriptFile , " , \\\n      'gnuplot-block.dat'    ti 'Blocks'            w l   ls 4" );
   if( thereAreLines( TW_UNDEFINED ) )
-    fprintf( scriptFile , "      'gnuplot-wires.dat'    ti 'Wires'            w l   ls 7 , \\\n" );
+    fprintf( scriptFile , " , \\\n      'gnuplot-wires.dat'    ti 'Wires'            w l   ls 7" );
   if( thereAreSources( ST_UNDEFINED ) )
-    fprintf( scriptFile , "      'gnuplot-source.dat'      ti 'Sources'           w l   ls 5 , \\\n" );
+    fprintf( scriptFile , " , \\\n      'gnuplot-source.dat'      ti 'Sources'           w l   ls 5" );
   if( thereArePlaneWaves() )
-    fprintf( scriptFile , "      'gnuplot-planewave.dat'   ti 'Plane waves'       w l   ls 5 , \\\n" );
+    fprintf( scriptFile , " , \\\n      'gnuplot-planewave.dat'   ti 'Plane waves'       w l   ls 5" );
   if( thereAreObservers() )
-    fprintf( scriptFile , "      'gnuplot-observer.dat' ti 'Observers'         w poi ls 6\n" );
+    fprintf( scriptFile , " , \\\n      'gnuplot-observer.dat' ti 'Observers'         w poi ls 6" );
+  fprintf( scriptFile , "\n" );
   fprintf( scriptFile , "set output\n" );
   fprintf( scriptFile , "set term pop\n" );
   fprintf( scriptFile , "replot\n");
-- 
2.43.0


From c5eec3a083d340cd065c774b8c548f679fa09115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:03 +0000
Subject: [PATCH 44/49] fix: a boundary file that is cut short or holds
 negative counts is an error

---
 src/filter.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/filter.c b/src/filter.c
index c57dcc8..a7259d8 100644
--- a/src/filter.c
+++ b/src/filter.c
@@ -86,7 +86,7 @@ yfPoleResidue yfReadPoleResidue( char fileName[] )
   fp = fopen( fileName , "r" );
 
   numScanned = fscanf( fp , "%d" , &numPoles );
-  if( numScanned != 1 )
+  if( numScanned != 1 || numPoles < 0 )
     message( MSG_ERROR , 0 , "error reading number of poles from %s.\n" , fileName );
 
   numScanned = fscanf( fp , "%lf" , &asymp );
@@ -98,6 +98,9 @@ yfPoleResidue yfReadPoleResidue( char fileName[] )
   for( k = 0 ; k < pr.numPoles ; k++ )
   {
     numScanned = fscanf( fp , "%lf %lf %lf %lf" , &pole_r , &pole_i , &residue_r , &residue_i );
+    if( numScanned != 4 )
+      message( MSG_ERROR , 0 , "error reading poles and residues from %s.\n" , fileName );
+
     pr.poles[k] = pole_r + I * pole_i;
     pr.residues[k] = residue_r + I * residue_i;
   }
@@ -159,7 +162,7 @@ yfPoleResidueM yfReadPoleResidueM( char prmFileName[] )
     message( MSG_ERROR , 0 , "cannot open pole-residue matrix file %s.\n" , prmFileName );
 
   numScanned = fscanf( fp , "%d %d" , &m , &n );
-  if( numScanned != 2 )
+  if( numScanned != 2 || m < 1 || n < 1 )
     message( MSG_ERROR , 0 , "error reading extents from %s.\n" , prmFileName );
 
   prm = yfAllocPoleResidueM( m , n );
@@ -169,12 +172,21 @@ yfPoleResidueM yfReadPoleResidueM( char prmFileName[] )
     {
 
       numScanned = fscanf( fp , "%d" , &numPoles );
+      if( numScanned != 1 || numPoles < 0 )
+        message( MSG_ERROR , 0 , "error reading number of poles from %s.\n" , prmFileName );
+
       numScanned = fscanf( fp , "%lf" , &asymp );
+      if( numScanned != 1 )
+        message( MSG_ERROR , 0 , "error reading asymptote from %s.\n" , prmFileName );
+
       prm.pr[row][col] = yfAllocPoleResidue( numPoles , asymp , NULL , NULL );
 
       for( int k = 0 ; k < numPoles ; k++ )
       {
         numScanned = fscanf( fp , "%lf %lf %lf %lf" , &pole_r , &pole_i , &residue_r , &residue_i );
+        if( numScanned != 4 )
+          message( MSG_ERROR , 0 , "error reading poles and residues from %s.\n" , prmFileName );
+
         prm.pr[row][col].poles[k] = pole_r + I * pole_i;
         prm.pr[row][col].residues[k] = residue_r + I * residue_i;
       }
-- 
2.43.0


From 08203626be0b2379385259b412323e7cc18b29cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:04 +0000
Subject: [PATCH 45/49] fix: mesh file names of 1024 and more characters are
 terminated

---
 src/gvulture.c | 2 +-
 src/vulture.c  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gvulture.c b/src/gvulture.c
index 126d50c..0b96c69 100644
--- a/src/gvulture.c
+++ b/src/gvulture.c
@@ -173,7 +173,7 @@ void parseOption( int argc , char *argv[] , char meshFileName[] )
   if( argc != 2 )
     printUsage();
   else
-    strncpy( meshFileName , argv[1] , PATH_SIZE );
+    strncpy( meshFileName , argv[1] , PATH_SIZE - 1 );
 
   return;
 
diff --git a/src/vulture.c b/src/vulture.c
index 95f3bfd..5f25ac0 100644
--- a/src/vulture.c
+++ b/src/vulture.c
@@ -273,7 +273,7 @@ void parseOption( int argc , char *argv[] , char meshFileName[] )
   if( argc != 2 )
     printUsage();
   else
-    strncpy( meshFileName , argv[1] , PATH_SIZE );
+    strncpy( meshFileName , argv[1] , PATH_SIZE - 1 );
 
   return;
 
-- 
2.43.0


From 8f36ba264d08163228a64d1c82e252ea7977efd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:36 +0000
Subject: [PATCH 46/49] fix: observer steps near the largest integer do not
 overflow the node index

---
 src/observer.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/observer.c b/src/observer.c
index e5a4390..321f43a 100644
--- a/src/observer.c
+++ b/src/observer.c
@@ -24,6 +24,7 @@
 
 #include <assert.h>
 #include <string.h>
+#include <limits.h>
 #include <math.h>
 
 #include "observer.h"
@@ -259,8 +260,12 @@ bool parseOP( char *line )
       return false;
     }
     /* A zero step means no stride. */
+    /* Keep the steps well below the largest integer so that adding them to a node index cannot overflow. */
     for( int direction = XDIR ; direction <= ZDIR ; direction++ )
+    {
       if( step[direction] == 0 ) step[direction] = 1;
+      if( step[direction] > INT_MAX / 2 ) step[direction] = INT_MAX / 2;
+    }
   }
   else
   {
-- 
2.43.0


From b55fcea4f772b21defc701756d6cf88d9c4f07d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:36 +0000
Subject: [PATCH 47/49] fix: negative mesh version numbers are rejected instead
 of overflowing the hash

---
 src/mesh.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mesh.c b/src/mesh.c
index b6059dc..2a4d475 100644
--- a/src/mesh.c
+++ b/src/mesh.c
@@ -224,6 +224,9 @@ bool parseVM( char *line )
 unsigned long meshVersionNumber( int versionMajor , int versionMinor , int versionPatch )
 {
 
+  if( versionMajor < 0 || versionMinor < 0 || versionPatch < 0 )
+    message( MSG_ERROR , 0 , "Mesh version number (%d.%d.%d) is negative!\n" , versionMajor , versionMinor , versionPatch );
+
   if( versionMajor >= 2000 || versionMinor >= 1000 || versionPatch >= 1000 )
     message( MSG_ERROR , 0 , "Mesh version number (%d.%d.%d) too large for hashing function!\n" , 
              versionMajor , versionMinor , versionPatch );
-- 
2.43.0


From 695064f8bb0ae34c9560b25c82f584d1c0ff68b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:18 +0000
Subject: [PATCH 48/49] fix: frequency counts beyond the largest array extent
 are an error

---
 src/observer.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/observer.c b/src/observer.c
index 321f43a..bbb2dab 100644
--- a/src/observer.c
+++ b/src/observer.c
@@ -470,6 +470,10 @@ void initObservers( void )
     stepFreq = numFreq > 1 ? ( stopFreq - startFreq ) / ( numFreq - 1 ) : 0.0;
   }
 
+  /* Array extents are integers. */
+  if( numFreq > INT_MAX )
+    message( MSG_ERROR , 0 , "Too many observer frequencies: %lu!\n" , numFreq );
+
   message( MSG_LOG , 0 , "  Observer freqs: fstart=%g MHz, fstop=%g MHz, fstep=%g MHz, fnumber=%lu\n" , 
                             startFreq / 1e6 , stopFreq / 1e6 , stepFreq / 1e6 , numFreq );
  
-- 
2.43.0


From 61a5146beba96e4d162e71cbfbb3da02f7baf40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:05 +0000
Subject: [PATCH 49/49] fix: grid dump compares update coefficients relative to
 their size

---
 src/grid.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/grid.c b/src/grid.c
index d74af1d..8367511 100644
--- a/src/grid.c
+++ b/src/grid.c
@@ -1739,9 +1739,9 @@ void dumpMediaOnGrid( FieldComponent field )
 char decodeAlphaBeta( real alpha , real beta )
 {
 
-  if( fabs( alpha - 1.0 ) < 1e-6 && fabs( beta - dt / eps0 ) < 1e-6 )
+  if( fabs( alpha - 1.0 ) < 1e-6 && fabs( beta - dt / eps0 ) < 1e-5 * dt / eps0 )
     return '.'; /* Free space. */
-  else if( fabs( alpha + 1.0 ) < 1e-6 && fabs( beta ) < 1e-6 ) 
+  else if( fabs( alpha + 1.0 ) < 1e-6 && fabs( beta ) < 1e-6 * dt / eps0 ) 
     return '*'; /* PEC. */
   else
     return 'o'; /* Other. */
@@ -1753,7 +1753,7 @@ char decodeAlphaBeta( real alpha , real beta )
 char decodeGamma( real gamma )
 {
 
-  if( fabs( gamma - dt / mu0 ) < 1e-6 )
+  if( fabs( gamma - dt / mu0 ) < 1e-5 * dt / mu0 )
     return '.'; /* Free space. */
   else
     return 'o'; /* Other. */
-- 
2.43.0

