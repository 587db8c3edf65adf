From 77e1e121626f63b2ca0f8610068a4c522a26cc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:09 +0000
Subject: [PATCH 001/174] fix: workers without semaphores consume one signal at
 a time

A worker in polling mode copied the watcher's counter after waking up, so it
processed one pulse (or ray) for any number of signals that had arrived in the
meantime and stayed behind for good.
---
 source/RKMomentEngine.c    | 4 ++--
 source/RKPulseEngine.c     | 4 ++--
 source/RKPulseRingFilter.c | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/source/RKMomentEngine.c b/source/RKMomentEngine.c
index b39ee6a..6919c67 100644
--- a/source/RKMomentEngine.c
+++ b/source/RKMomentEngine.c
@@ -293,7 +293,7 @@ static void *momentEngineCore(void *in) {
     //        [ t0 - t1 ]
     // [    t0 - t2     ]
     //
-    uint64_t tic = me->tic;
+    uint64_t tic = 1;
 
     RKModuloPath path;
     RKPulse *S, *E, *pulses[RKMaximumPulsesPerRay];
@@ -316,7 +316,7 @@ static void *momentEngineCore(void *in) {
             while (tic == me->tic && engine->state & RKEngineStateWantActive) {
                 usleep(1000);
             }
-            tic = me->tic;
+            tic++;
         }
         if (!(engine->state & RKEngineStateWantActive)) {
             break;
diff --git a/source/RKPulseEngine.c b/source/RKPulseEngine.c
index 10f820e..8b18826 100644
--- a/source/RKPulseEngine.c
+++ b/source/RKPulseEngine.c
@@ -401,7 +401,7 @@ static void *pulseEngineCore(void *_in) {
     //        [ t0 - t1 ]
     // [    t0 - t2     ]
     //
-    uint64_t tic = me->tic;
+    uint64_t tic = 1;
     uint16_t configIndex = -1;
 
     while (engine->state & RKEngineStateWantActive) {
@@ -416,7 +416,7 @@ static void *pulseEngineCore(void *_in) {
             while (tic == me->tic && engine->state & RKEngineStateWantActive) {
                 usleep(1000);
             }
-            tic = me->tic;
+            tic++;
         }
         if (!(engine->state & RKEngineStateWantActive)) {
             break;
diff --git a/source/RKPulseRingFilter.c b/source/RKPulseRingFilter.c
index 062ff25..0b73f9b 100644
--- a/source/RKPulseRingFilter.c
+++ b/source/RKPulseRingFilter.c
@@ -225,7 +225,7 @@ static void *ringFilterCore(void *_in) {
     //        [ t0 - t1 ]
     // [    t0 - t2     ]
     //
-    uint64_t tic = me->tic;
+    uint64_t tic = 1;
 
     RKIQZ Z, xi, yi, yk;
     int kOffset, iOffset;
@@ -243,7 +243,7 @@ static void *ringFilterCore(void *_in) {
             while (tic == me->tic && engine->state & RKEngineStateWantActive) {
                 usleep(1000);
             }
-            tic = me->tic;
+            tic++;
         }
         if (!(engine->state & RKEngineStateWantActive)) {
             break;
-- 
2.43.0


From a6bef50d7dd4c14dbf630f3c1903c5e774bd1a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:22 +0000
Subject: [PATCH 002/174] fix: keep the ring filter within the gate range and
 its buffers for any worker count

---
 source/RKPulseRingFilter.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/source/RKPulseRingFilter.c b/source/RKPulseRingFilter.c
index 0b73f9b..2c8653d 100644
--- a/source/RKPulseRingFilter.c
+++ b/source/RKPulseRingFilter.c
@@ -168,7 +168,11 @@ static void *ringFilterCore(void *_in) {
     RKIQZ xx;
     RKIQZ yy;
     const int depth = RKMaximumIIRFilterTaps;
-    size_t filterSize = depth * engine->radarDescription->pulseCapacity / engine->coreCount * sizeof(RKFloat);
+    // The most gates a worker can be assigned: an even share that is rounded up to the SIMD alignment
+    const uint32_t capacity = engine->radarDescription->pulseCapacity;
+    const uint32_t gatesPerBlock = RKMemoryAlignSize / sizeof(RKFloat);
+    const uint32_t share = (capacity + engine->coreCount - 1) / engine->coreCount;
+    size_t filterSize = depth * ((share + gatesPerBlock - 1) / gatesPerBlock) * gatesPerBlock * sizeof(RKFloat);
     POSIX_MEMALIGN_CHECK(posix_memalign((void **)&xx.i, RKMemoryAlignSize, 2 * filterSize));
     POSIX_MEMALIGN_CHECK(posix_memalign((void **)&xx.q, RKMemoryAlignSize, 2 * filterSize));
     POSIX_MEMALIGN_CHECK(posix_memalign((void **)&yy.i, RKMemoryAlignSize, 2 * filterSize));
@@ -229,6 +233,7 @@ static void *ringFilterCore(void *_in) {
 
     RKIQZ Z, xi, yi, yk;
     int kOffset, iOffset;
+    uint32_t inputLength;
 
     k = 0;    // pulse index
     while (engine->state & RKEngineStateWantActive) {
@@ -280,8 +285,9 @@ static void *ringFilterCore(void *_in) {
                 // Store x[n] at index k
                 kOffset = (k * 2 + p) * me->processLength;
                 Z = RKGetSplitComplexDataFromPulse(pulse, p);
-                memcpy(xx.i + kOffset, Z.i + me->processOrigin, me->processLength * sizeof(RKFloat));
-                memcpy(xx.q + kOffset, Z.q + me->processOrigin, me->processLength * sizeof(RKFloat));
+                inputLength = me->processOrigin < capacity ? MIN(capacity - me->processOrigin, me->processLength) : 0;
+                memcpy(xx.i + kOffset, Z.i + me->processOrigin, inputLength * sizeof(RKFloat));
+                memcpy(xx.q + kOffset, Z.q + me->processOrigin, inputLength * sizeof(RKFloat));
 
                 #if defined(DEBUG_IIR)
 
@@ -479,7 +485,7 @@ static void *pulseRingWatcher(void *_in) {
         worker->parent = engine;
         worker->processOrigin = origin;
         worker->processLength = length;
-        worker->outputLength = MIN(gateCount - origin, length);
+        worker->outputLength = origin < gateCount ? MIN(gateCount - origin, length) : 0;
         origin += length;
         if (engine->verbose > 1) {
             RKLog(">%s %s @ %p\n", engine->name, worker->semaphoreName, worker->sem);
@@ -540,7 +546,7 @@ static void *pulseRingWatcher(void *_in) {
                     RKPulseRingFilterWorker *worker = &engine->workers[c];
                     worker->processOrigin = origin;
                     worker->processLength = length;
-                    worker->outputLength = MIN(gateCount - origin, length);
+                    worker->outputLength = origin < gateCount ? MIN(gateCount - origin, length) : 0;
                     origin += length;
                     if (engine->verbose) {
                         RKLog("%s C%d %s    %s    %s  %s\n", engine->name, c,
@@ -738,7 +744,7 @@ static void *pulseRingWatcherV1(void *_in) {
         worker->parent = engine;
         worker->processOrigin = origin;
         worker->processLength = length;
-        worker->outputLength = MIN(gateCount - origin, length);
+        worker->outputLength = origin < gateCount ? MIN(gateCount - origin, length) : 0;
         origin += length;
         if (engine->verbose > 1) {
             RKLog(">%s %s @ %p\n", engine->name, worker->semaphoreName, worker->sem);
@@ -847,7 +853,7 @@ static void *pulseRingWatcherV1(void *_in) {
                 RKPulseRingFilterWorker *worker = &engine->workers[c];
                 worker->processOrigin = origin;
                 worker->processLength = length;
-                worker->outputLength = MIN(gateCount - origin, length);
+                worker->outputLength = origin < gateCount ? MIN(gateCount - origin, length) : 0;
                 origin += length;
                 if (engine->verbose) {
                     RKLog("%s C%d %s    %s    %s  %s\n", engine->name, c,
-- 
2.43.0


From 71a3bd3ab13aa0b73bf0723c8ad74172be61ef7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:15 +0000
Subject: [PATCH 003/174] fix: wrap interpolated azimuths of exactly 360
 degrees to 0

---
 source/RKDSP.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/RKDSP.c b/source/RKDSP.c
index e0b2cd9..3ae9cf2 100644
--- a/source/RKDSP.c
+++ b/source/RKDSP.c
@@ -26,11 +26,12 @@ float RKGetMinorSectorInDegrees(const float angle1, const float angle2) {
 float RKInterpolatePositiveAngles(const float angleBefore, const float angleAfter, const float alpha) {
     float value = RKGetSignedMinorSectorInDegrees(angleAfter, angleBefore);
     value = angleBefore + alpha * value;
-    if (value > 360.0f) {
-        value -= 360.0f;
-    } else if (value < 0.0f) {
+    if (value < 0.0f) {
         value += 360.0f;
     }
+    if (value >= 360.0f) {
+        value -= 360.0f;
+    }
     return value;
 }
 
-- 
2.43.0


From 0b6c1076bc82a10391fd0e0f1fb2d1df402c7a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:45 +0000
Subject: [PATCH 004/174] fix: stopping a steer engine or file manager that is
 not active does nothing

---
 source/RKFileManager.c |  8 +++++---
 source/RKSteerEngine.c | 10 ++++++++++
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/source/RKFileManager.c b/source/RKFileManager.c
index da8d791..e6f35a8 100644
--- a/source/RKFileManager.c
+++ b/source/RKFileManager.c
@@ -455,7 +455,7 @@ static void *fileRemover(void *in) {
 
     RKLog(">%s Stopped.\n", me->name);
 
-    engine->state ^= RKEngineStateActive;
+    engine->state &= ~RKEngineStateActive;
     return NULL;
 }
 
@@ -741,7 +741,10 @@ int RKFileManagerStop(RKFileManager *engine) {
         }
         return RKResultEngineDeactivatedMultipleTimes;
     }
-    pthread_mutex_lock(&engine->mutex);
+    if (!(engine->state & RKEngineStateWantActive)) {
+        RKLog("%s Not active.\n", engine->name);
+        return RKResultEngineDeactivatedMultipleTimes;
+    }
     RKLog("%s Stopping ...\n", engine->name);
     engine->state |= RKEngineStateDeactivating;
     engine->state ^= RKEngineStateWantActive;
@@ -751,7 +754,6 @@ int RKFileManagerStop(RKFileManager *engine) {
     if (engine->state != (RKEngineStateAllocated | RKEngineStateProperlyWired)) {
         RKLog("%s Inconsistent state 0x%04x\n", engine->name, engine->state);
     }
-    pthread_mutex_unlock(&engine->mutex);
     return RKResultSuccess;
 }
 
diff --git a/source/RKSteerEngine.c b/source/RKSteerEngine.c
index 1a5c88c..ac422fa 100644
--- a/source/RKSteerEngine.c
+++ b/source/RKSteerEngine.c
@@ -451,6 +451,16 @@ int RKSteerEngineStart(RKSteerEngine *engine) {
 }
 
 int RKSteerEngineStop(RKSteerEngine *engine) {
+    if (engine->state & RKEngineStateDeactivating) {
+        if (engine->verbose > 1) {
+            RKLog("%s Info. Engine is being or has been deactivated.\n", engine->name);
+        }
+        return RKResultEngineDeactivatedMultipleTimes;
+    }
+    if (!(engine->state & RKEngineStateWantActive)) {
+        RKLog("%s Not active.\n", engine->name);
+        return RKResultEngineDeactivatedMultipleTimes;
+    }
     RKLog("%s Stopping ...\n", engine->name);
     engine->state |= RKEngineStateDeactivating;
     engine->state ^= RKEngineStateWantActive;
-- 
2.43.0


From 586ac694b97c1d2928d6c6b9e22ac93dad8af6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:45 +0000
Subject: [PATCH 005/174] fix: stopping a radar relay that is not active does
 nothing

---
 source/RKRadarRelay.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/RKRadarRelay.c b/source/RKRadarRelay.c
index 9bea8e7..0112fee 100644
--- a/source/RKRadarRelay.c
+++ b/source/RKRadarRelay.c
@@ -386,6 +386,10 @@ int RKRadarRelayStop(RKRadarRelay *engine) {
         }
         return RKResultEngineDeactivatedMultipleTimes;
     }
+    if (!(engine->state & RKEngineStateWantActive)) {
+        RKLog("%s Not active.\n", engine->name);
+        return RKResultEngineDeactivatedMultipleTimes;
+    }
     if (engine->verbose) {
         RKLog("%s Stopping ...\n", engine->name);
     }
-- 
2.43.0


From 7844b5e0b0456104a28b6cb0b5f87db5a80862b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:21 +0000
Subject: [PATCH 006/174] fix: modify the engine state word atomically so that
 a request to stop is never lost

---
 headers/RadarKit/RKTypes.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/headers/RadarKit/RKTypes.h b/headers/RadarKit/RKTypes.h
index dd903f1..47a070d 100644
--- a/headers/RadarKit/RKTypes.h
+++ b/headers/RadarKit/RKTypes.h
@@ -897,7 +897,12 @@ enum {
 //                    RKEngineStateActive -
 //                    (RKEngineStateChildAllocated | RKEngineStateChildProperlyWired | RKEngineStateAllocated | RKEngineStateProperlyWired)
 //
+// The state word is modified by the engine threads and the caller of EngineStop, i.e., |= and ^= must be atomic
+#ifdef __cplusplus
 typedef uint32_t RKEngineState;
+#else
+typedef _Atomic uint32_t RKEngineState;
+#endif
 enum {
     RKEngineStateNull                            = 0,                          // Nothing
     RKEngineStateSleep0                          = 1,                          // Usually for a wait just outside of the main while loop
-- 
2.43.0


From 99d26da71db745bec3cd5e250ce6d8fc8ed2e611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:01 +0000
Subject: [PATCH 007/174] fix: clear all display data of a skipped ray

---
 source/RKMomentEngine.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKMomentEngine.c b/source/RKMomentEngine.c
index 6919c67..ff20517 100644
--- a/source/RKMomentEngine.c
+++ b/source/RKMomentEngine.c
@@ -156,7 +156,7 @@ static void zeroOutRay(RKRay *ray) {
         *f++ = NAN;
     }
     uint8_t *u = RKGetUInt8DataFromRay(ray, RKBaseProductIndexZ);
-    memset(u, 0, RKBaseProductCount * sizeof(uint8_t));
+    memset(u, 0, RKBaseProductCount * ray->header.capacity * sizeof(uint8_t));
 }
 
 int RKNoiseFromConfig(RKMomentScratch *space, RKPulse **pulses, const uint16_t pulseCount) {
-- 
2.43.0


From c3e79cafb909e71c9191ace6c78da80f1aff887e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:01 +0000
Subject: [PATCH 008/174] fix: a ray never has more pulses than the worker has
 room for

---
 source/RKMomentEngine.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKMomentEngine.c b/source/RKMomentEngine.c
index ff20517..f256e8b 100644
--- a/source/RKMomentEngine.c
+++ b/source/RKMomentEngine.c
@@ -732,7 +732,7 @@ static void *pulseGatherer(void *_in) {
                 count = 0;
                 i1 = i0;
             }
-            if (i1 != i0 || count == RKMaximumPulsesPerRay || pulse->header.marker & RKMarkerSweepEnd) {
+            if (i1 != i0 || count == RKMaximumPulsesPerRay - 1 || pulse->header.marker & RKMarkerSweepEnd) {
                 i1 = i0;
                 if (engine->excludeBoundaryPulses) {
                     // Sweep engine looks for i0 change and share that pulse. Remove for non-sharing mode.
-- 
2.43.0


From 0a4f8078df3cec3ce9c51ca12d59c34b53052e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:01 +0000
Subject: [PATCH 009/174] fix: the last pulse of a sweep is the end of its own
 ray and never part of the next

---
 source/RKMomentEngine.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/source/RKMomentEngine.c b/source/RKMomentEngine.c
index f256e8b..cf47232 100644
--- a/source/RKMomentEngine.c
+++ b/source/RKMomentEngine.c
@@ -736,12 +736,10 @@ static void *pulseGatherer(void *_in) {
                 i1 = i0;
                 if (engine->excludeBoundaryPulses) {
                     // Sweep engine looks for i0 change and share that pulse. Remove for non-sharing mode.
-                    if (count > 1) {
+                    // The last pulse of a sweep is always part of its ray.
+                    if (count > 1 && !(pulse->header.marker & RKMarkerSweepEnd)) {
                         count--;
                     }
-                    if (pulse->header.marker & RKMarkerSweepEnd) {
-                        count++;
-                    }
                 }
                 if (count > 0) {
                     // Number of samples in this ray and the correct plan index
@@ -781,8 +779,14 @@ static void *pulseGatherer(void *_in) {
                     }
                 }
             }
-            // Keep counting up
-            count++;
+            if (pulse->header.marker & RKMarkerSweepEnd) {
+                // The last pulse of a sweep is never shared with the ray that follows
+                engine->momentSource[j].origin = RKNextModuloS(k, engine->radarDescription->pulseBufferDepth);
+                count = 0;
+            } else {
+                // Keep counting up
+                count++;
+            }
         }
 
         // Check finished rays
-- 
2.43.0


From 1e797db7508c8b3bf33a1b4b6dd6a4aec22d9286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:57 +0000
Subject: [PATCH 010/174] fix: a PPI sweep is not marked as an RHI as well

---
 source/RKSweepEngine.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKSweepEngine.c b/source/RKSweepEngine.c
index 8b8a43a..1b5427b 100644
--- a/source/RKSweepEngine.c
+++ b/source/RKSweepEngine.c
@@ -944,7 +944,7 @@ RKSweep *RKSweepCollect(RKSweepEngine *engine, const uint8_t scratchSpaceIndex)
     sweep->header.endTime = (time_t)E->header.endTime.tv_sec;
     sweep->header.baseProductList = overallBaseProductList;
     sweep->header.isPPI = (config->startMarker & RKMarkerScanTypeMask) == RKMarkerScanTypePPI;
-    sweep->header.isRHI = (config->startMarker & RKMarkerScanTypeMask) == RKMarkerScanTypePPI;
+    sweep->header.isRHI = (config->startMarker & RKMarkerScanTypeMask) == RKMarkerScanTypeRHI;
     if (!sweep->header.isPPI && !sweep->header.isRHI) {
         config = &engine->configBuffer[T->header.configIndex];
         sweep->header.isPPI = (config->startMarker & RKMarkerScanTypeMask) == RKMarkerScanTypePPI;
-- 
2.43.0


From 6737429e8b6b072b06808867c62158cd745ba8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:57 +0000
Subject: [PATCH 011/174] fix: a product carries the whole VCP definition of
 its sweep

---
 source/RKProduct.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKProduct.c b/source/RKProduct.c
index 2dc5303..7881499 100644
--- a/source/RKProduct.c
+++ b/source/RKProduct.c
@@ -101,7 +101,7 @@ int RKProductInitFromSweep(RKProduct *product, const RKSweep *sweep) {
     product->header.SNRThreshold = sweep->header.config.SNRThreshold;
     product->header.SQIThreshold = sweep->header.config.SQIThreshold;
     memcpy(product->header.waveformName, sweep->header.config.waveformName, sizeof(RKName));
-    memcpy(product->header.vcpDefinition, sweep->header.config.vcpDefinition, sizeof(RKMaximumCommandLength));
+    memcpy(product->header.vcpDefinition, sweep->header.config.vcpDefinition, RKMaximumCommandLength);
 
     // Expand if the current capacity is not sufficient
     if (product->capacity < requiredCapacity) {
-- 
2.43.0


From 606ec4045e989ae775b4898a58040719f1d8588a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:57 +0000
Subject: [PATCH 012/174] fix: the sweep engine waits for its ray releaser when
 it is stopped

---
 source/RKSweepEngine.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/RKSweepEngine.c b/source/RKSweepEngine.c
index 1b5427b..97550b4 100644
--- a/source/RKSweepEngine.c
+++ b/source/RKSweepEngine.c
@@ -533,6 +533,10 @@ static void *rayGatherer(void *in) {
         pthread_join(tidSweepManager, NULL);
         tidSweepManager = (pthread_t)0;
     }
+    if (tidRayReleaser) {
+        pthread_join(tidRayReleaser, NULL);
+        tidRayReleaser = (pthread_t)0;
+    }
     for (p = 0; p < productCount; p++) {
         RKSweepEngineUndescribeProduct(engine, engine->baseMomentProductIds[p]);
     }
-- 
2.43.0


From 9fca5f7a9d39db6b8faa3d110d6cf5ce2501b98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:27 +0000
Subject: [PATCH 013/174] fix: rays of a later sweep are not released in place
 of those of an old one

---
 source/RKSweepEngine.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/RKSweepEngine.c b/source/RKSweepEngine.c
index 97550b4..492d5ad 100644
--- a/source/RKSweepEngine.c
+++ b/source/RKSweepEngine.c
@@ -68,7 +68,10 @@ static void *rayReleaser(void *in) {
     // Set them free
     for (i = 0; i < space->rayCount; i++) {
         ray = space->rays[i];
-        ray->header.s = RKRayStatusVacant;
+        if (ray->header.s & RKRayStatusOverviewed) {
+            // Otherwise, the slot has been reused for a ray of a later sweep
+            ray->header.s = RKRayStatusVacant;
+        }
     }
     space->rayCount = 0;
 
-- 
2.43.0


From 97e636bc3c7ff6794873fd6daf89eef3bb506a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:08 +0000
Subject: [PATCH 014/174] fix: a rejected configuration change does not keep
 the lock

---
 source/RKConfig.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/RKConfig.c b/source/RKConfig.c
index 9ba3871..674d0c3 100644
--- a/source/RKConfig.c
+++ b/source/RKConfig.c
@@ -162,6 +162,8 @@ void RKConfigAdvance(RKConfig *configs, uint32_t *configIndex, uint32_t configBu
                 waveform = (RKWaveform *)va_arg(args, void *);
                 if (waveform == NULL || waveform->filterCounts[0] == 0) {
                     RKLog("Bad input for RKConfigKeyWaveform\n");
+                    va_end(args);
+                    pthread_mutex_unlock(&lock);
                     return;
                 }
                 newConfig->waveform = waveform;
@@ -173,6 +175,8 @@ void RKConfigAdvance(RKConfig *configs, uint32_t *configIndex, uint32_t configBu
                 waveform = (RKWaveform *)va_arg(args, void *);
                 if (waveform == NULL || waveform->filterCounts[0] == 0) {
                     RKLog("Bad input for RKConfigKeyWaveformDecimate\n");
+                    va_end(args);
+                    pthread_mutex_unlock(&lock);
                     return;
                 }
                 newConfig->waveformDecimate = waveform;
-- 
2.43.0


From 8d32de21e5db33ff23909bfd61b7114ecebab474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:08 +0000
Subject: [PATCH 015/174] fix: a configuration being made does not carry the
 identifier of the current one

---
 source/RKConfig.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/RKConfig.c b/source/RKConfig.c
index 674d0c3..01a538d 100644
--- a/source/RKConfig.c
+++ b/source/RKConfig.c
@@ -67,8 +67,8 @@ void RKConfigAdvance(RKConfig *configs, uint32_t *configIndex, uint32_t configBu
     RKWaveform *waveform;
     RKWaveformCalibration *waveformCal;
 
-    // Copy everything
-    memcpy(newConfig, oldConfig, sizeof(RKConfig));
+    // Copy everything but the identifier, which is updated once the new configuration is complete
+    memcpy((char *)newConfig + sizeof(RKIdentifier), (char *)oldConfig + sizeof(RKIdentifier), sizeof(RKConfig) - sizeof(RKIdentifier));
 
     n = 0;
     uint32_t key = va_arg(args, RKConfigKey);
-- 
2.43.0


From 93f02362b3c012fd527a72f1f3157fee105a33bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:08 +0000
Subject: [PATCH 016/174] fix: pass the PRF to RKAddConfig as the double it is
 read as

---
 source/RKRadar.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/RKRadar.c b/source/RKRadar.c
index 61f0338..e5e7d34 100644
--- a/source/RKRadar.c
+++ b/source/RKRadar.c
@@ -1552,7 +1552,7 @@ int RKSetWaveformToImpulse(RKRadar *radar) {
 }
 
 int RKSetPRF(RKRadar *radar, const uint32_t prf) {
-    RKAddConfig(radar, RKConfigKeyPRF, prf, RKConfigKeyNull);
+    RKAddConfig(radar, RKConfigKeyPRF, (double)prf, RKConfigKeyNull);
     return RKResultSuccess;
 }
 
@@ -1787,7 +1787,7 @@ int RKGoLive(RKRadar *radar) {
     // Add a dummy config to get things started if there hasn't been one from the user
     if (radar->configIndex == 0) {
         RKAddConfig(radar,
-                    RKConfigKeyPRF, 1000,
+                    RKConfigKeyPRF, 1000.0,
                     RKConfigKeySystemNoise, 0.1, 0.1,
                     RKConfigKeySystemZCal, -27.0, -27.0,
                     RKConfigKeySystemDCal, -0.01,
@@ -2744,7 +2744,7 @@ void RKSetStatusReady(RKRadar *radar, RKStatus *status) {
 // Note:
 //     The last key must be RKConfigKeyNull
 // Example:
-//     RKConfigAdd(radar, RKConfigKeyPRF, 1000, RKConfigNull) to set PRF
+//     RKConfigAdd(radar, RKConfigKeyPRF, 1000.0, RKConfigNull) to set PRF
 //     RKConfigAdd(radar, RKConfigKeySystemNoise, 0.3, 0.2, RKConfigNull) to set noise
 //
 // Users normally don't have to deal with these
-- 
2.43.0


From 74703e602ac9f029b90c33a4af7039fd49d8fa6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:55 +0000
Subject: [PATCH 017/174] fix: a keyword without a value does not take what is
 left of an earlier line

---
 source/RKPreference.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/RKPreference.c b/source/RKPreference.c
index 2f0fad1..05d7a0c 100644
--- a/source/RKPreference.c
+++ b/source/RKPreference.c
@@ -74,7 +74,9 @@ int RKPreferenceUpdate(RKPreference *preference) {
             while (*s != '\0' && (*s != ' ' && *s != '\t')) {
                 s++;
             }
-            *s++ = '\0';
+            if (*s != '\0') {
+                *s++ = '\0';
+            }
             // Now, find the first character
             while (*s != '\0' && (*s == ' ' || *s == '\t')) {
                 s++;
-- 
2.43.0


From 734357386c61cd572e4e3928c065ac65db9e87a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:55 +0000
Subject: [PATCH 018/174] fix: close the preference file after reading it

---
 source/RKPreference.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/RKPreference.c b/source/RKPreference.c
index 05d7a0c..0a088f5 100644
--- a/source/RKPreference.c
+++ b/source/RKPreference.c
@@ -139,6 +139,8 @@ int RKPreferenceUpdate(RKPreference *preference) {
 
     free(line);
 
+    fclose(fid);
+
     return RKResultSuccess;
 }
 
-- 
2.43.0


From f38d854ad5e080ac9ec5dc1cddbf5e87e9e893a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:55 +0000
Subject: [PATCH 019/174] fix: indented lines of a preference file are read as
 any other line

---
 source/RKPreference.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/RKPreference.c b/source/RKPreference.c
index 0a088f5..74bfb7a 100644
--- a/source/RKPreference.c
+++ b/source/RKPreference.c
@@ -61,6 +61,8 @@ int RKPreferenceUpdate(RKPreference *preference) {
             break;
         }
         RKStripTail(line);
+        // Indentation is not part of the keyword
+        memmove(line, line + strspn(line, " \t"), strlen(line + strspn(line, " \t")) + 1);
         if (line[0] == '#' || strlen(line) < 2) {
             #if defined(DEBUG)
             printf("Skip line %d %s\n", i, line);
-- 
2.43.0


From dcba0ec545686f1961a0c6622bd4852092e59b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:55 +0000
Subject: [PATCH 020/174] fix: counting a preference keyword ends and counts
 only that keyword

---
 source/RKPreference.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/RKPreference.c b/source/RKPreference.c
index 74bfb7a..8af75cd 100644
--- a/source/RKPreference.c
+++ b/source/RKPreference.c
@@ -167,12 +167,14 @@ RKPreferenceObject *RKPreferenceFindKeyword(RKPreference *preference, const char
 
 int RKPreferenceGetKeywordCount(RKPreference *preference, const char *keyword) {
     int k = 0;
+    int count = 0;
     while (k < RKPreferenceObjectCount && preference->objects[k].isValid == true) {
         if (!strcasecmp(preference->objects[k].keyword, keyword)) {
-            k++;
+            count++;
         }
+        k++;
     }
-    return k;
+    return count;
 }
 
 int RKPreferenceGetValueOfKeyword(RKPreference *preference, const int verb, const char *keyword, void *target, const int type, const int count) {
-- 
2.43.0


From 43035e31e022dc2fc0ffe14abaee1f20933c2722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:55 +0000
Subject: [PATCH 021/174] fix: looking for a preference keyword starts over
 after an update

---
 source/RKPreference.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/RKPreference.c b/source/RKPreference.c
index 8af75cd..e6a3402 100644
--- a/source/RKPreference.c
+++ b/source/RKPreference.c
@@ -47,6 +47,8 @@ int RKPreferenceUpdate(RKPreference *preference) {
     }
     memset(preference->objects, 0, RKPreferenceObjectCount * sizeof(RKPreferenceObject));
     preference->count = 0;
+    preference->previousIndex = 0;
+    preference->previousKeyword[0] = '\0';
 
     char *line = (char *)malloc(RKMaximumStringLength);
 
-- 
2.43.0


From 66ddbfd730ca0e43f9a8622e8a4dbfa3f97eda4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:55 +0000
Subject: [PATCH 022/174] fix: a preference string that does not fit is cut and
 terminated

---
 source/RKPreference.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKPreference.c b/source/RKPreference.c
index e6a3402..ca31e83 100644
--- a/source/RKPreference.c
+++ b/source/RKPreference.c
@@ -232,7 +232,7 @@ int RKPreferenceGetValueOfKeyword(RKPreference *preference, const int verb, cons
                     break;
                 case RKParameterTypeString:
                     // For string type, count is used as the maximum length, i = count ensure there is only 1 iteration
-                    strncpy((char *)target, object->valueString, count);
+                    snprintf((char *)target, count, "%s", object->valueString);
                     k += snprintf(string + k, RKMaximumStringLength - k, " %s", (char *)target);
                     i = count;
                     break;
-- 
2.43.0


From cedeefad2889d6eeca050d5d3d46107c7a3bdbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:55 +0000
Subject: [PATCH 023/174] fix: an incomplete control is reported as such, an
 unclosed quote ends at the end of the string

---
 source/RKFoundation.c | 5 ++++-
 source/RKPreference.c | 2 ++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/source/RKFoundation.c b/source/RKFoundation.c
index e44c4c8..6503ee4 100644
--- a/source/RKFoundation.c
+++ b/source/RKFoundation.c
@@ -2080,9 +2080,12 @@ void RKParseQuotedStrings(const char *source, ...) {
         q = *s++;
         // Look for the ending quote
         e = s;
-        while (*e != q && *e != q) {
+        while (*e != q && *e != '\0') {
             e++;
         }
+        if (*e == '\0') {
+            break;
+        }
         length = (size_t)(e - s);
         strncpy(string, s, length);
         string[length] = '\0';
diff --git a/source/RKPreference.c b/source/RKPreference.c
index ca31e83..1838109 100644
--- a/source/RKPreference.c
+++ b/source/RKPreference.c
@@ -248,6 +248,8 @@ int RKPreferenceGetValueOfKeyword(RKPreference *preference, const int verb, cons
 }
 
 int RKControlFromPreferenceObject(RKControl *control, RKPreferenceObject *object) {
+    control->label[0] = '\0';
+    control->command[0] = '\0';
     RKParseQuotedStrings(object->valueString, control->label, control->command, NULL);
     if (strlen(control->label) == 0 || strlen(control->command) == 0) {
         RKLog("Warning. Incomplete control. %s\n", object->valueString);
-- 
2.43.0


From 5999058ff095bd20f2be6572feb1cc0470468b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:55 +0000
Subject: [PATCH 024/174] fix: strip tabs at the end of a line, and nothing of
 an empty string

---
 source/RKMisc.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/RKMisc.c b/source/RKMisc.c
index 567b8d4..acfc94f 100644
--- a/source/RKMisc.c
+++ b/source/RKMisc.c
@@ -1018,8 +1018,11 @@ char *RKSignalString(const int signal) {
 // Strip out \r, \n, white space, \10 (BS), etc.
 int RKStripTail(char *string) {
     int k = 0;
+    if (*string == '\0') {
+        return 0;
+    }
     char *c = string + strlen(string) - 1;
-    while (c != string && (*c == '\r' || *c == '\n' || *c == ' ' || *c == 10)) {
+    while (c != string && (*c == '\r' || *c == '\n' || *c == ' ' || *c == '\t')) {
         *c-- = '\0';
         k++;
     }
-- 
2.43.0


From 0415e582a8411bdee5630cd4971d770d3543a590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:24 +0000
Subject: [PATCH 025/174] fix: overlong keywords and words of a preference file
 are cut

---
 source/RKPreference.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/RKPreference.c b/source/RKPreference.c
index 1838109..a2faae9 100644
--- a/source/RKPreference.c
+++ b/source/RKPreference.c
@@ -95,7 +95,7 @@ int RKPreferenceUpdate(RKPreference *preference) {
                     *e = '\0';
                 }
             }
-            strncpy(preference->objects[k].keyword, line, RKNameLength);
+            snprintf(preference->objects[k].keyword, RKNameLength, "%s", line);
             strncpy(preference->objects[k].valueString, s, RKMaximumStringLength);
             RKStripTail(preference->objects[k].valueString);
             preference->objects[k].isValid = true;
@@ -113,7 +113,7 @@ int RKPreferenceUpdate(RKPreference *preference) {
 					   !strncasecmp(preference->objects[k].valueString, "true", 4) ||
 					   !strncasecmp(preference->objects[k].valueString, "yes", 3) ||
 					   !strncasecmp(preference->objects[k].valueString, "no", 2)) {
-				sscanf(preference->objects[k].valueString, "%s %s %s %s",
+				sscanf(preference->objects[k].valueString, "%127s %127s %127s %127s",
 					   preference->objects[k].subStrings[0],
 					   preference->objects[k].subStrings[1],
 					   preference->objects[k].subStrings[2],
-- 
2.43.0


From 3742b3361b32f3062ad8e28e1fd0cf4dbe7a355b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:58 +0000
Subject: [PATCH 026/174] fix: scanning a JSON element respects quotes, escapes
 and the end of the string

---
 source/RKMisc.c | 44 ++++++++++++++++++++++++++++----------------
 1 file changed, 28 insertions(+), 16 deletions(-)

diff --git a/source/RKMisc.c b/source/RKMisc.c
index acfc94f..4045075 100644
--- a/source/RKMisc.c
+++ b/source/RKMisc.c
@@ -404,7 +404,7 @@ void RKReviseLogicalValues(char *string) {
 
 char *RKJSONSkipWhiteSpaces(const char *haystack) {
     char *c = (char *)haystack;
-    while (*c == ' ' || *c == '\r' || *c == '\n') {
+    while (*c == ' ' || *c == '\t' || *c == '\r' || *c == '\n') {
         c++;
     }
     return c;
@@ -430,20 +430,31 @@ char *RKJSONScanPassed(char *destination, const char *source, const char delimit
 
     c = RKJSONSkipWhiteSpaces(c);
 
+    // Nothing in an empty object or array, or after the last element
+    if (*c == '}' || *c == ')' || *c == ']') {
+        *d = '\0';
+        return RKJSONSkipWhiteSpaces(c + 1);
+    }
+
     while (c < end) {
-        switch (*c) {
-            case '\\':
+        bool quoted = doubleQuote || singleQuote;
+        // Inside of a quoted string, only an escape or the same quote has a meaning
+        if (slash) {
+            slash = false;
+        } else if (quoted) {
+            if (*c == '\\') {
                 slash = true;
-                break;
+            } else if (*c == '"' && doubleQuote) {
+                doubleQuote = false;
+            } else if (*c == '\'' && singleQuote) {
+                singleQuote = false;
+            }
+        } else switch (*c) {
             case '\'':
-                singleQuote = !singleQuote;
+                singleQuote = true;
                 break;
             case '"':
-                if (!slash) {
-                    doubleQuote = !doubleQuote;
-                } else {
-                    slash = false;
-                }
+                doubleQuote = true;
                 break;
             case '{':
                 curly++;
@@ -467,15 +478,14 @@ char *RKJSONScanPassed(char *destination, const char *source, const char delimit
                 break;
         }
 
-        if (doubleQuote) {
+        if (quoted || doubleQuote || singleQuote) {
+            space = false;
             *d++ = *c;
         } else {
             // Allow only one space character right after a color (:) or a comma (,)
-            if (*c == ':' || *c == ',') {
-                space = true;
-            }
-            if (*c != '\r' && *c != '\n') {
+            if (*c != '\t' && *c != '\r' && *c != '\n') {
                 if (*c != ' ') {
+                    space = *c == ':' || *c == ',';
                     *d++ = *c;
                 } else if (*c == ' ' && space == true) {
                     space = false;
@@ -511,7 +521,9 @@ char *RKJSONScanPassed(char *destination, const char *source, const char delimit
             round == 0 &&
             square == 0 &&
             (*c == delimiter || *c == '}' || *c == ')' || *c == ']' || *c == '\0')) {
-            c++;
+            if (*c != '\0') {
+                c++;
+            }
             break;
         }
     }
-- 
2.43.0


From 131c66ab4a2258299c176e0189b23a1ea681ddbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:58 +0000
Subject: [PATCH 027/174] fix: looking up a JSON key finds keys only and
 returns the whole value

---
 source/RKMisc.c | 160 +++++++++++++++++++++---------------------------
 1 file changed, 71 insertions(+), 89 deletions(-)

diff --git a/source/RKMisc.c b/source/RKMisc.c
index 4045075..7e01554 100644
--- a/source/RKMisc.c
+++ b/source/RKMisc.c
@@ -93,6 +93,69 @@ char *RKGetBackgroundColorOfCubeIndex(const int c) {
 
 #pragma mark - JSON / Dictionary / Parsing
 
+// Find the end of the value that starts at source: the character after a quoted string, an object or an array,
+// the delimiter after a plain value, or the end of the string if the value is incomplete
+static char *RKJSONEndOfValue(const char *source) {
+    char *c = (char *)source;
+    char quote = '\0';
+    int depth = 0;
+    while (*c != '\0') {
+        if (quote) {
+            if (*c == '\\' && *(c + 1) != '\0') {
+                c++;
+            } else if (*c == quote) {
+                quote = '\0';
+                if (depth == 0) {
+                    return c + 1;
+                }
+            }
+        } else if (*c == '"' || *c == '\'') {
+            quote = *c;
+        } else if (*c == '{' || *c == '[') {
+            depth++;
+        } else if (*c == '}' || *c == ']') {
+            if (depth == 0) {
+                return c;
+            }
+            if (--depth == 0) {
+                return c + 1;
+            }
+        } else if (depth == 0 && *c == ',') {
+            return c;
+        }
+        c++;
+    }
+    return c;
+}
+
+// Length of the value that starts at source and ends at end, without the white spaces before the delimiter
+static size_t RKJSONLengthOfValue(const char *source, const char *end) {
+    while (end > source && (*(end - 1) == ' ' || *(end - 1) == '\t' || *(end - 1) == '\r' || *(end - 1) == '\n')) {
+        end--;
+    }
+    return (size_t)(end - source);
+}
+
+// Find the next key, a quoted string that is followed by a colon. Returns the start of its value, NULL if there is none
+static char *RKJSONNextKey(char **key, size_t *length, const char *source) {
+    char *c = (char *)source;
+    while (*c != '\0') {
+        if (*c != '"' && *c != '\'') {
+            c++;
+            continue;
+        }
+        char *e = RKJSONEndOfValue(c);
+        char *v = RKJSONSkipWhiteSpaces(e);
+        if (*v == ':') {
+            *key = c + 1;
+            *length = (size_t)(e - c - 2);
+            return RKJSONSkipWhiteSpaces(v + 1);
+        }
+        c = e;
+    }
+    return NULL;
+}
+
 // ks = start of a keyword, should begin with quote or space
 char *RKExtractJSON(char *ks, uint8_t *type, char *key, char *value) {
     char *ke = NULL;
@@ -185,7 +248,7 @@ char *RKExtractJSON(char *ks, uint8_t *type, char *key, char *value) {
 // LIMITATIONS:
 //  - Not a generic function, many assumptions
 //  - Static array variable limited to 8 elements
-//  - Cannot handle certain conditions within quoted strings
+//  - A value of more than 255 characters is cut
 //
 char *RKGetValueOfKey(const char *string, const char *key) {
     static char valueStrings[8][256];
@@ -202,96 +265,15 @@ char *RKGetValueOfKey(const char *string, const char *key) {
     char *valueString = valueStrings[k];
     k = k == 7 ? 0 : k + 1;
     pthread_mutex_unlock(&lock);
-    char *s, *e;
+    char *name, *s = (char *)string;
     size_t len;
-    char quotedKey[256];
-    sprintf(quotedKey, "\"%s\"", key);
-    char *keyPosition = strcasestr(string, quotedKey);
-    if (keyPosition == NULL) {
-        sprintf(quotedKey, "'%s'", key);
-        keyPosition = strcasestr(string, quotedKey);
-    }
-
-    if (keyPosition != NULL) {
-        // Find start of the value
-        s = strchr(keyPosition + strlen(quotedKey), ':');
-        if (s != NULL) {
-            do {
-                s++;
-            } while (*s == ' ' || *s == '\r' || *s == '\n');
-        } else {
-            return NULL;
-        }
-        // Array
-        if (*s == '[') {
-            // Find the end of bracket, return the entire array
-            e = s + 1;
-            while (*e != ']') {
-                e++;
-            }
-            len = e - s + 1;
-            if (len > 0) {
-                strncpy(valueString, s, len);
-                valueString[len] = '\0';
-            } else {
-                valueString[0] = '\0';
-            }
-            return valueString;
-        } else if (*s == '{') {
-            // Find the end of curly bracket, return the entire dictionary
-            e = s + 1;
-            while (*e != '}') {
-                e++;
-            }
-            len = e - s + 1;
-            if (len > 0) {
-                strncpy(valueString, s, len);
-                valueString[len] = '\0';
-            } else {
-                valueString[0] = '\0';
-            }
-            return valueString;
-        } else if (*s == '"') {
-            // Find the end of double quote, return the entire string
-            e = s + 1;
-            while (*e != '"') {
-                e++;
-            }
-            len = e - s + 1;
-            if (len > 0) {
-                strncpy(valueString, s, len);
-                valueString[len] = '\0';
-            } else {
-                valueString[0] = '\0';
-            }
-            return valueString;
-        } else if (*s == '\'') {
-            // Find the end of single quote, return the entire string
-            e = s + 1;
-            while (*e != '\'') {
-                e++;
-            }
-            len = e - s + 1;
-            if (len > 0) {
-                strncpy(valueString, s, len);
-                valueString[len] = '\0';
-            } else {
-                valueString[0] = '\0';
-            }
-            return valueString;
-        }
-        // Find end of the value
-        e = s;
-        while (*e != ',' && *e != '}' && *e != ']') {
-            e++;
-        }
-        len = MIN(255, e - s);
-        if (len > 0) {
-            strncpy(valueString, s, len);
-            valueString[len] = '\0';
-        } else {
-            valueString[0] = '\0';
+    while ((s = RKJSONNextKey(&name, &len, s)) != NULL) {
+        if (len != strlen(key) || strncasecmp(name, key, len)) {
+            continue;
         }
+        len = MIN(sizeof(valueStrings[0]) - 1, RKJSONLengthOfValue(s, RKJSONEndOfValue(s)));
+        memcpy(valueString, s, len);
+        valueString[len] = '\0';
         return valueString;
     }
     return NULL;
-- 
2.43.0


From 38709c55bd0f6b74559c423dda5a015df2682fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:58 +0000
Subject: [PATCH 028/174] fix: replacing JSON values keeps the text around them

---
 source/RKMisc.c | 138 +++++++++++++++++++-----------------------------
 1 file changed, 53 insertions(+), 85 deletions(-)

diff --git a/source/RKMisc.c b/source/RKMisc.c
index 7e01554..df03b40 100644
--- a/source/RKMisc.c
+++ b/source/RKMisc.c
@@ -279,106 +279,74 @@ char *RKGetValueOfKey(const char *string, const char *key) {
     return NULL;
 }
 
+// Replace the value that starts at s, returns the end of the new value
+static char *RKJSONReplaceValue(char *s, int value) {
+    char *e = s + RKJSONLengthOfValue(s, RKJSONEndOfValue(s));
+    char valueString[32];
+    int k = sprintf(valueString, "%d", value);
+    memmove(s + k, e, strlen(e) + 1);
+    memcpy(s, valueString, k);
+    return s + k;
+}
+
 void RKReplaceAllValuesOfKey(char *string, const char *key, int value) {
-    int k;
-    char *s = strstr(string, key);
-    char *e;
+    char *name, *s = string;
     size_t l;
-    char valueString[32];
-    while (s != NULL) {
-        s += strlen(key);
-        while (*s != '\0' && (*s == '"' || *s == ' ' || *s == ':')) {
-            s++;
-        }
-        if (*s == '\0') {
-            break;
-        }
-        e = s;
-        while (*e != '\0' && (*e != '}' && *e != ',' && *e != ']')) {
-            e++;
+    while ((s = RKJSONNextKey(&name, &l, s)) != NULL) {
+        if (l != strlen(key) || strncmp(name, key, l)) {
+            continue;
         }
-        if (*e == '\0') {
+        if (*RKJSONEndOfValue(s) == '\0') {
             fprintf(stderr, "RKReplaceAllValuesOfKey() encountered an incomplete JSON string.\n");
             return;
         }
-        // Now value should be in between s & e
-        k = sprintf(valueString, "%d", value);
-        if (k < 0) {
-            fprintf(stderr, "RKReplaceAllValuesOfKey() encountered an expected results from sprintf().\n");
-            return;
-        }
-        if (e - s < k) {
-            // Need to add another character
-            l = strlen(e);
-            memmove(e + k - 1, e, l);
-            *(e + k + -1 + l) = '\0';
-        }
-        memcpy(s, valueString, k);
-        //strncpy(s, valueString, k);
-        //snprintf(s, k, "%s", valueString) < 0 ? abort() : (void)0;
-        s = strstr(e, key);
+        s = RKJSONReplaceValue(s, value);
     }
 }
 
+// Replace the Enum of the first object with a name that contains key
 void RKReplaceEnumOfKey(char *string, const char *key, int value) {
-    int k;
-    char *s = strcasestr(string, key);
-    char *e;
+    char *name, *o = string;
     size_t l;
-    char valueString[32];
-    if (s == NULL) {
-        return;
-    }
-    s = strstr(s, "Enum");
-    if (s == NULL) {
-        return;
-    }
-    s += 6;
-    //printf("Enum of %s found.  %s\n", key, s);
-    while (*s != '\0' && (*s == '"' || *s == ' ' || *s == ':')) {
-        s++;
-    }
-    if (*s == '\0') {
-        return;
-    }
-    e = s;
-    while (*e != '\0' && (*e != '}' && *e != ',' && *e != ']')) {
-        e++;
-    }
-    if (*e == '\0') {
-        fprintf(stderr, "RKReplaceEnumOfKey() encountered an incomplete JSON string.\n");
-        return;
-    }
-    // Now value should be in between s & e
-    k = sprintf(valueString, "%d", value);
-    if (k < 0) {
-        fprintf(stderr, "RKReplaceEnumOfKey() encountered an expected results from sprintf().\n");
-    }
-    //printf("s = %p   e = %p   valueString = %s   k = %d ==? %d\n", s, e, valueString, (int)(e - s), k);
-    if (e - s < k) {
-        // Need to add another character
-        l = strlen(e);
-        memmove(e + k - 1, e, l);
-        *(e + k + -1 + l) = '\0';
+    while ((o = RKJSONNextKey(&name, &l, o)) != NULL) {
+        char word[l + 1];
+        memcpy(word, name, l);
+        word[l] = '\0';
+        if (*o != '{' || strcasestr(word, key) == NULL) {
+            continue;
+        }
+        char *s = RKJSONSkipWhiteSpaces(o + 1);
+        while (*s != '}' && (s = RKJSONNextKey(&name, &l, s)) != NULL) {
+            char *e = RKJSONEndOfValue(s);
+            if (*e == '\0') {
+                fprintf(stderr, "RKReplaceEnumOfKey() encountered an incomplete JSON string.\n");
+                return;
+            }
+            if (l == 4 && !strncmp(name, "Enum", 4)) {
+                RKJSONReplaceValue(s, value);
+                return;
+            }
+            s = RKJSONSkipWhiteSpaces(e);
+        }
     }
-    memcpy(s, valueString, k);
 }
 
 void RKReviseLogicalValues(char *string) {
-    char *token;
-    token = strcasestr(string, "\"true\"");
-    while (token) {
-        sprintf(token, "true");
-        memmove(token + 4, token + 6, strlen(token + 6));
-        memset(token + 4 + strlen(token + 6), '\0', 2 * sizeof(char));
-        token = strcasestr(token + 6, "\"true\"");
-    }
-    token = strcasestr(string, "\"false\"");
-    while (token) {
-        sprintf(token, "false");
-        memmove(token + 5, token + 7, strlen(token + 7));
-        memset(token + 5 + strlen(token + 7), '\0', 2 * sizeof(char));
-        token = strcasestr(token + 7, "\"false\"");
+    char *c = string;
+    while (*c != '\0') {
+        if (*c != '"') {
+            c++;
+            continue;
+        }
+        char *e = RKJSONEndOfValue(c);
+        size_t l = (size_t)(e - c) - 2;
+        // A key remains as it is
+        if (*RKJSONSkipWhiteSpaces(e) != ':' && ((l == 4 && !strncasecmp(c, "\"true\"", 6)) || (l == 5 && !strncasecmp(c, "\"false\"", 7)))) {
+            memcpy(c, l == 4 ? "true" : "false", l);
+            memmove(c + l, e, strlen(e) + 1);
+            e = c + l;
+        }
+        c = e;
     }
 }
 
-- 
2.43.0


From 3edd816fc1f76aa2cdf3b31c30d6fff0a8c8fcdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:59 +0000
Subject: [PATCH 029/174] fix: iterating JSON pairs respects nested values and
 ends at the end of the string

---
 source/RKMisc.c | 209 ++++++++++++------------------------------------
 1 file changed, 51 insertions(+), 158 deletions(-)

diff --git a/source/RKMisc.c b/source/RKMisc.c
index df03b40..3f95975 100644
--- a/source/RKMisc.c
+++ b/source/RKMisc.c
@@ -158,91 +158,40 @@ static char *RKJSONNextKey(char **key, size_t *length, const char *source) {
 
 // ks = start of a keyword, should begin with quote or space
 char *RKExtractJSON(char *ks, uint8_t *type, char *key, char *value) {
-    char *ke = NULL;
-    if (*ks == '\0' || strlen(ks) < 3) {
-        fprintf(stderr, "Empty JSON string.\n");
-        return NULL;
-    }
-    while (*ks != '"' && *ks != '\0') {
-        ks++;
-    }
-    ke = ++ks;
-    while (*ke != '"' && *ke != '\0') {
-        ke++;
-    }
-    if (*ke == '\0') {
-        fprintf(stderr, "Expected a close quote for keyword %s\n", ks == NULL ? "(NULL)" : ks);
-        fprintf(stderr, "Original: %s\n", ks);
-        if (ke == NULL) {
-            return NULL;
-        }
-    }
-    // Now a keyword is in betwee ks & ke
-    strncpy(key, ks, ke - ks);
-    key[ke - ks] = '\0';
     char *os, *oe;
-    os = ke + 1;
-    while (*os != ':' && *os != '\0') {
-        os++;
-    }
-    // Space character(s) in between ':' and '{'
-    os++;
-    while (*os == ' ') {
-        os++;
-    }
-    if (*os == '{') {
-        // This is an object, recursively call myself.
-        *type = RKJSONObjectTypeObject;
-        oe = os + 1;
-        while (*oe != '}') {
-            oe++;
-        }
-        oe++;
-        strncpy(value, os, oe - os);
-        value[oe - os] = '\0';
-        #if defined(DEBUG_HEAVY)
-        fprintf(stderr, "Key '%s' Object '%s'\n", key, value);
-        #endif
-    } else if (*os == '[') {
-        // This is an array
-        *type = RKJSONObjectTypeArray;
-        oe = os + 1;
-        while (*oe != ']') {
-            oe++;
-        }
-        oe++;
-        strncpy(value, os, oe - os);
-        value[oe - os] = '\0';
-        #if defined(DEBUG_HEAVY)
-        fprintf(stderr, "Key '%s' Array '%s'\n", key, value);
-        #endif
-    } else if (*os == '"') {
-        // This is a string
-        *type = RKJSONObjectTypeString;
-        oe = os + 1;
-        while (*oe != '"') {
-            oe++;
-        }
-        oe++;
-        strncpy(value, os, oe - os);
-        value[oe - os] = '\0';
-    } else {
-        // This is just a plain value
-        *type = RKJSONObjectTypePlain;
-        oe = os + 1;
-        while (*oe != ',' && *oe != '}') {
-            oe++;
-        }
-        strncpy(value, os, oe - os);
-        value[oe - os] = '\0';
-        #if defined(DEBUG_HEAVY)
-        fprintf(stderr, "Key '%s' Value '%s'\n", key, value);
-        #endif
-    }
-    while (*oe == ' ') {
-        oe++;
+    size_t length;
+    *type = RKJSONObjectTypeUnknown;
+    *key = '\0';
+    *value = '\0';
+    os = RKJSONNextKey(&ks, &length, ks);
+    if (os == NULL) {
+        // No more
+        return ks + strlen(ks);
+    }
+    strncpy(key, ks, length);
+    key[length] = '\0';
+    switch (*os) {
+        case '{':
+            *type = RKJSONObjectTypeObject;
+            break;
+        case '[':
+            *type = RKJSONObjectTypeArray;
+            break;
+        case '"':
+            *type = RKJSONObjectTypeString;
+            break;
+        default:
+            *type = RKJSONObjectTypePlain;
+            break;
     }
-    return oe;
+    oe = RKJSONEndOfValue(os);
+    length = RKJSONLengthOfValue(os, oe);
+    strncpy(value, os, length);
+    value[length] = '\0';
+    #if defined(DEBUG_HEAVY)
+    fprintf(stderr, "Key '%s' Value '%s'\n", key, value);
+    #endif
+    return RKJSONSkipWhiteSpaces(oe);
 }
 
 // LIMITATIONS:
@@ -1475,88 +1424,32 @@ char *RKCountryFromPosition(const double latitude, const double longitude) {
 }
 
 char *RKGetNextKeyValue(char *json, char *key, char *value) {
-    char *c = json;
-    char *e = c + strlen(c);
-    char *ks, *ke, *vs, *ve;
-    // Forward until the next non-space character
-    while (*c == ' ' && c < e) {
-        c++;
-    }
-    if (c == e) {
-        *key = '\0';
-        return NULL;
-    }
-    // Find the key
-    ks = c;
-    switch (*ks) {
-        case '"':
-            ks++;
-            ke = strchr(ks, '"');
-            break;
-        case '\'':
-            ks++;
-            ke = strchr(ks, '\'');
-            break;
-        default:
-            ke = strchr(ks, ':');
-            ke--;
-            break;
-    }
+    char *c, *name;
+    size_t length;
     if (key) {
-        memcpy(key, ks, ke - ks);
-        key[ke - ks] = '\0';
+        *key = '\0';
     }
-    // Find the delimiter ':'
-    c = strchr(ke, ':');
+    c = json ? RKJSONNextKey(&name, &length, json) : NULL;
     if (c == NULL) {
-        fprintf(stderr, "Incomplete string?\n");
-        return NULL;
-    }
-    c++;
-    // Forward until the next non-space character
-    while (*c == ' ' && c < e) {
-        c++;
-    }
-    if (c == e) {
-        *value = '\0';
+        if (value) {
+            *value = '\0';
+        }
         return NULL;
     }
-    // If this is bracketed piece, find the start and end
-    vs = c++;
-    switch (*vs) {
-        case '"':
-            ve = strchr(c, '"');
-            break;
-        case '[':
-            ve = strchr(c, ']');
-            break;
-        case '{':
-            ve = strchr(c, '}');
-            break;
-        case '\'':
-            ve = strchr(c, '\'');
-            break;
-        default:
-            ve = strchr(c, ',');
-            if (ve == NULL) {
-                ve = e;
-            }
-            ve--;
-            break;
-    }
+    if (key) {
+        memmove(key, name, length);
+        key[length] = '\0';
+    }
+    char *e = RKJSONEndOfValue(c);
+    length = RKJSONLengthOfValue(c, e);
+    // Forward to the next pair before value, which may share the memory of json, changes
+    e = RKJSONSkipWhiteSpaces(e);
+    char *next = *e == ',' ? RKJSONSkipWhiteSpaces(e + 1) : NULL;
     if (value) {
-        memcpy(value, vs, ve - vs + 1);
-        value[ve - vs + 1] = '\0';
+        memmove(value, c, length);
+        value[length] = '\0';
     }
-    if (ve == e - 1) {
-        c = NULL;
-    } else {
-        c = ve + 1;
-        while (c < e && (*c == ',' || *c == ' ')) {
-            c++;
-        }
-    }
-    return c;
+    return next;
 }
 
 int RKMergeColumns(char *text, const char *left, const char *right, const int indent) {
-- 
2.43.0


From 630c448ac2961120737d729a2797bcc8c270ab79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:59 +0000
Subject: [PATCH 030/174] fix: a lone quote is not unquoted

---
 source/RKMisc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/RKMisc.c b/source/RKMisc.c
index 3f95975..ca110c1 100644
--- a/source/RKMisc.c
+++ b/source/RKMisc.c
@@ -946,6 +946,9 @@ int RKUnquote(char *string) {
         return (int)strlen(string);
     }
     char *e = strrchr(string + 1, q);
+    if (e == NULL) {
+        return (int)strlen(string);
+    }
     int k = (int)(e - string - 1);
     memmove(string, string + 1, k);
     string[k] = '\0';
-- 
2.43.0


From a9a170065ae9d658e102ad6f7cf2b5959e490d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:22 +0000
Subject: [PATCH 031/174] fix: a stream subscription survives its text form

---
 source/RKFoundation.c | 46 +++++++++++++++++++++----------------------
 1 file changed, 22 insertions(+), 24 deletions(-)

diff --git a/source/RKFoundation.c b/source/RKFoundation.c
index 6503ee4..0317207 100644
--- a/source/RKFoundation.c
+++ b/source/RKFoundation.c
@@ -1558,31 +1558,31 @@ RKStream RKStreamFromString(const char * string) {
     while (j++ < strlen(string)) {
         switch (*c) {
             case '0':
-                flag = (flag & !(RKStream)RKStreamStatusMask) | RKStreamStatusPositions;
+                flag = (flag & ~(RKStream)RKStreamStatusMask) | RKStreamStatusPositions;
                 break;
             case '1':
-                flag = (flag & !(RKStream)RKStreamStatusMask) | RKStreamStatusPulses;
+                flag = (flag & ~(RKStream)RKStreamStatusMask) | RKStreamStatusPulses;
                 break;
             case '2':
-                flag = (flag & !(RKStream)RKStreamStatusMask) | RKStreamStatusRays;
+                flag = (flag & ~(RKStream)RKStreamStatusMask) | RKStreamStatusRays;
                 break;
             case '3':
-                flag = (flag & !(RKStream)RKStreamStatusMask) | RKStreamStatusIngest;
+                flag = (flag & ~(RKStream)RKStreamStatusMask) | RKStreamStatusIngest;
                 break;
             case '4':
-                flag = (flag & !(RKStream)RKStreamStatusMask) | RKStreamStatusEngines;
+                flag = (flag & ~(RKStream)RKStreamStatusMask) | RKStreamStatusEngines;
                 break;
             case '5':
-                flag = (flag & !(RKStream)RKStreamStatusMask) | RKStreamStatusBuffers;
+                flag = (flag & ~(RKStream)RKStreamStatusMask) | RKStreamStatusBuffers;
                 break;
             case '6':
-                flag = (flag & !(RKStream)RKStreamStatusMask) | RKStreamASCIIArtZ;
+                flag = (flag & ~(RKStream)RKStreamStatusMask) | RKStreamASCIIArtZ;
                 break;
             case '7':
-                flag = (flag & !(RKStream)RKStreamStatusMask) | RKStreamASCIIArtHealth;
+                flag = (flag & ~(RKStream)RKStreamStatusMask) | RKStreamASCIIArtHealth;
                 break;
             case '8':
-                flag = (flag & !(RKStream)RKStreamStatusMask) | RKStreamASCIIArtVCP;
+                flag = (flag & ~(RKStream)RKStreamStatusMask) | RKStreamASCIIArtVCP;
                 break;
             case 'x':
                 flag |= RKStreamStatusTerminalChange;
@@ -1699,21 +1699,19 @@ RKStream RKStreamFromString(const char * string) {
 int RKStringFromStream(char *string, RKStream stream) {
     int j = 0;
     // Exclusive part from RKStreamStatusMask
-    if (stream & RKStreamStatusPulses) {
-        j += sprintf(string + j, "1");
-    } else if (stream & RKStreamStatusRays) {
-        j += sprintf(string + j, "2");
-    } else if (stream & RKStreamStatusPositions) {
-        j += sprintf(string + j, "3");
-    } else if (stream & RKStreamStatusEngines) {
-        j += sprintf(string + j, "4");
-    } else if (stream & RKStreamStatusBuffers) {
-        j += sprintf(string + j, "5");
-    } else if (stream & RKStreamASCIIArtZ) {
-        j += sprintf(string + j, "6");
-    } else if (stream & RKStreamASCIIArtHealth) {
-        j += sprintf(string + j, "7");
-    }
+    switch (stream & RKStreamStatusMask) {
+        case RKStreamStatusPositions: j += sprintf(string + j, "0"); break;
+        case RKStreamStatusPulses:    j += sprintf(string + j, "1"); break;
+        case RKStreamStatusRays:      j += sprintf(string + j, "2"); break;
+        case RKStreamStatusIngest:    j += sprintf(string + j, "3"); break;
+        case RKStreamStatusEngines:   j += sprintf(string + j, "4"); break;
+        case RKStreamStatusBuffers:   j += sprintf(string + j, "5"); break;
+        case RKStreamASCIIArtZ:       j += sprintf(string + j, "6"); break;
+        case RKStreamASCIIArtHealth:  j += sprintf(string + j, "7"); break;
+        case RKStreamASCIIArtVCP:     j += sprintf(string + j, "8"); break;
+        default: break;
+    }
+    if (stream & RKStreamStatusTerminalChange)  { j += sprintf(string + j, "x"); }
     if (stream & RKStreamStatusProcessorStatus) { j += sprintf(string + j, "!"); }
     if (stream & RKStreamHealthInJSON)          { j += sprintf(string + j, "h"); }
     if (stream & RKStreamDisplayZ)              { j += sprintf(string + j, "z"); }
-- 
2.43.0


From 884c26c868c3a8c40ed9b726cf133984919b56e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:22 +0000
Subject: [PATCH 032/174] fix: numeric arrays after a bracket and large
 unsigned numbers are parsed

---
 source/RKFoundation.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/RKFoundation.c b/source/RKFoundation.c
index 0317207..0602def 100644
--- a/source/RKFoundation.c
+++ b/source/RKFoundation.c
@@ -2020,7 +2020,7 @@ size_t RKParseCommaDelimitedValues(void *valueStorage, RKValueType type, const s
                 i64v[s] = (int64_t)atol(c);
                 break;
             case RKValueTypeUInt64:
-                u64v[s] = (uint64_t)atol(c);
+                u64v[s] = (uint64_t)strtoull(c, NULL, 10);
                 break;
             default:
                 break;
@@ -2046,7 +2046,7 @@ size_t RKParseNumericArray(void *valueStorage, RKValueType type, const size_t si
     if ((s = strchr(valueString, '[')) == NULL) {
         return RKParseCommaDelimitedValues(valueStorage, type, size, valueString);
     }
-    if ((e = strchr(valueString, ']')) == NULL) {
+    if ((e = strchr(s, ']')) == NULL) {
         fprintf(stderr, "Expected a close bracket for an array that begins with '['.\n");
         return 0;
     }
-- 
2.43.0


From 15267bb7805e09739acbe3829d9242cb7c37d19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:23 +0000
Subject: [PATCH 033/174] fix: words and the maximum of a product description
 are taken as given

---
 source/RKFoundation.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/RKFoundation.c b/source/RKFoundation.c
index 0602def..a32360d 100644
--- a/source/RKFoundation.c
+++ b/source/RKFoundation.c
@@ -2293,6 +2293,7 @@ int RKParseProductDescription(RKProductDesc *desc, const char *inputString) {
     // Product name is mandatory
     keyString = RKGetValueOfKey(inputString, "name");
     if (keyString) {
+        RKUnquote(keyString);
         strncpy(desc->name, keyString, RKNameLength - 1);
     } else {
         return RKResultIncompleteProductDescription;
@@ -2300,6 +2301,7 @@ int RKParseProductDescription(RKProductDesc *desc, const char *inputString) {
     // Product symbol is mandatory
     keyString = RKGetValueOfKey(inputString, "symbol");
     if (keyString) {
+        RKUnquote(keyString);
         strncpy(desc->symbol, keyString, 7);
     } else {
         return RKResultIncompleteProductDescription;
@@ -2338,10 +2340,12 @@ int RKParseProductDescription(RKProductDesc *desc, const char *inputString) {
     // Optional values
     keyString = RKGetValueOfKey(inputString, "unit");
     if (keyString) {
+        RKUnquote(keyString);
         strncpy(desc->unit, keyString, 5);
     }
     keyString = RKGetValueOfKey(inputString, "colormap");
     if (keyString) {
+        RKUnquote(keyString);
         strncpy(desc->colormap, keyString, 9);
     }
     keyString = RKGetValueOfKey(inputString, "minimumValue");
@@ -2350,7 +2354,7 @@ int RKParseProductDescription(RKProductDesc *desc, const char *inputString) {
     }
     keyString = RKGetValueOfKey(inputString, "maximumValue");
     if (keyString) {
-        desc->mininimumValue = (RKFloat)atof(keyString);
+        desc->maximumValue = (RKFloat)atof(keyString);
     }
     return RKResultSuccess;
 }
-- 
2.43.0


From a8757acdfaaa078b0d0707333798eb40e865f388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:24 +0000
Subject: [PATCH 034/174] fix: parts of a path with few or no slashes

---
 source/RKMisc.c | 44 +++++++++++++++++---------------------------
 1 file changed, 17 insertions(+), 27 deletions(-)

diff --git a/source/RKMisc.c b/source/RKMisc.c
index ca110c1..81beaa2 100644
--- a/source/RKMisc.c
+++ b/source/RKMisc.c
@@ -785,34 +785,23 @@ char *RKLastPartOfPath(const char *path) {
 }
 
 char *RKLastTwoPartsOfPath(const char *path) {
-    char *a0 = strchr((char *)path, '/');
-    char *a1 = strchr(a0 + 1, '/');
-    char *a2 = strchr(a1 + 1, '/');
-    if (a0 == NULL) {
-        return a0;
-    } else if (a1 != NULL) {
-        if (a2 == NULL) {
-            return a1;
-        } else if (a2 != NULL) {
-            do {
-                a0 = a1;
-                a1 = a2;
-                a2 = strchr(a2 + 1, '/');
-            } while (a2 != NULL);
-        }
-    }
-    return a0 + 1;
+    return RKLastNPartsOfPath(path, 2);
 }
 
 char *RKLastNPartsOfPath(const char *path, const int n) {
     char *a = (char *)path + strlen(path);
     int k = 0;
-    do {
-        if (*--a == '/') {
-            k++;
+    while (a > path) {
+        if (*(a - 1) == '/' && ++k >= n) {
+            break;
         }
-    } while (a > path && k < n);
-    return a + 1;
+        a--;
+    }
+    // No slash in front of the first part
+    while (*a == '/') {
+        a++;
+    }
+    return a;
 }
 
 char *RKFolderOfFilename(const char *filename) {
@@ -823,20 +812,21 @@ char *RKFolderOfFilename(const char *filename) {
     } else if (s == filename) {
         strcpy(folder, "/");
     } else {
-        strncpy(folder, filename, sizeof(folder) - 1);
-        folder[sizeof(folder) - 1] = '\0';
+        size_t n = MIN((size_t)(s - filename), sizeof(folder) - 1);
+        memcpy(folder, filename, n);
+        folder[n] = '\0';
     }
     return folder;
 }
 
 char *RKFileExtension(const char *filename) {
     static char ext[16];
-    char *e = strrchr((char *)filename, '.');
+    char *e = strrchr(RKLastPartOfPath(filename), '.');
     if (e == NULL) {
         ext[0] = '\0';
         return ext;
     }
-    strcpy(ext, e);
+    snprintf(ext, sizeof(ext), "%s", e);
     return ext;
 }
 
@@ -857,7 +847,7 @@ char *RKPathStringByExpandingTilde(const char *path) {
             } else {
                 k++;
             }
-            snprintf(fullpath + k, sizeof(fullpath) - k, "/%s", c + 2);
+            snprintf(fullpath + k, sizeof(fullpath) - k, "/%s", *(c + 1) == '\0' ? "" : c + 2);
         } else {
             fprintf(stderr, "Error. HOME environmental variable not set.\n");
             snprintf(fullpath, sizeof(fullpath), "%s", c);
-- 
2.43.0


From 6fbb2edfad21b3390df244561425f3e3fd9796d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:24 +0000
Subject: [PATCH 035/174] fix: no comma after the sign of a negative number

---
 source/RKMisc.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/source/RKMisc.c b/source/RKMisc.c
index 81beaa2..9bc8f38 100644
--- a/source/RKMisc.c
+++ b/source/RKMisc.c
@@ -529,11 +529,13 @@ char *RKIntegerToCommaStyleString(const long long num) {
         return string;
     }
 
-    k = (int)(strlen(string) - 1) / 3;
+    // A sign is not a digit to group
+    const int n = num < 0 ? 1 : 0;
+    k = (int)(strlen(string) - 1 - n) / 3;
     i = (int)(strlen(string) + k);
     j = 1;
     string[i] = '\0';
-    while (i > 0) {
+    while (i > n) {
         i--;
         string[i] = string[i - k];
         if (j > 3) {
@@ -597,7 +599,9 @@ char *RKFloatToCommaStyleString(const double num) {
         return string;
     }
 
-    k = (int)(strlen(string) - 5) / 3;
+    // A sign is not a digit to group
+    const int n = string[0] == '-' ? 1 : 0;
+    k = (int)(strlen(string) - 5 - n) / 3;
     i = (int)(strlen(string) + k);
     j = 1;
     string[i] = '\0';
@@ -607,7 +611,7 @@ char *RKFloatToCommaStyleString(const double num) {
     string[i - 4] = '.';
     i -= 4;
 
-    while (i > 0) {
+    while (i > n) {
         i--;
         string[i] = string[i - k];
         if (j > 3) {
-- 
2.43.0


From b6439d62708aa5ffcd0ccba798c112d441847ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:25 +0000
Subject: [PATCH 036/174] fix: the short form of a small payload stays within
 it

---
 source/RKMisc.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/source/RKMisc.c b/source/RKMisc.c
index 9bc8f38..d91f659 100644
--- a/source/RKMisc.c
+++ b/source/RKMisc.c
@@ -1521,6 +1521,10 @@ char *RKBinaryString(char *dst, void *src, const size_t count) {
 }
 
 void RKHeadTailBinaryString(char *dst, void *src, const size_t count) {
+    if (count <= 30) {
+        RKBinaryString(dst, src, count);
+        return;
+    }
     char *tail = RKBinaryString(dst, src, 25);
     RKBinaryString(tail + sprintf(tail, " ... "), src + count - 5, 5);
 }
@@ -1547,6 +1551,10 @@ char *RKBytesInHex(char *dst, void *src, const size_t count) {
 }
 
 void RKHeadTailBytesInHex(char *dst, void *src, const size_t count) {
+    if (count <= 10) {
+        RKBytesInHex(dst, src, count);
+        return;
+    }
     char *dummy = RKBytesInHex(dst, src, 7);
     RKBytesInHex(dummy + sprintf(dummy, " ... "), src + count - 3, 3);
 }
@@ -1562,6 +1570,10 @@ void RKRadarHubPayloadString(char *dst, void *src, const size_t count) {
         }
     }
     //printf("r = %d   bound / 2 = %d\n", r, (int)bound / 2);
+    if (count == 0) {
+        sprintf(dst, "b''");
+        return;
+    }
     if (r > bound * 2 / 3) {
         RKHeadTailBinaryString(dst, src, count);
     } else {
-- 
2.43.0


From bdd17d96fa9fed706b01dddef35dde976b2af750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:32 +0000
Subject: [PATCH 037/174] fix: unit and color map of a product description are
 not cut

---
 source/RKFoundation.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/RKFoundation.c b/source/RKFoundation.c
index a32360d..ad26a5b 100644
--- a/source/RKFoundation.c
+++ b/source/RKFoundation.c
@@ -2341,12 +2341,12 @@ int RKParseProductDescription(RKProductDesc *desc, const char *inputString) {
     keyString = RKGetValueOfKey(inputString, "unit");
     if (keyString) {
         RKUnquote(keyString);
-        strncpy(desc->unit, keyString, 5);
+        strncpy(desc->unit, keyString, RKNameLength - 1);
     }
     keyString = RKGetValueOfKey(inputString, "colormap");
     if (keyString) {
         RKUnquote(keyString);
-        strncpy(desc->colormap, keyString, 9);
+        strncpy(desc->colormap, keyString, RKNameLength - 1);
     }
     keyString = RKGetValueOfKey(inputString, "minimumValue");
     if (keyString) {
-- 
2.43.0


From 2a263ae3f214897f5c5fe7c99d98cbd41197c458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:32 +0000
Subject: [PATCH 038/174] fix: an identifier that is not given is zero

---
 source/RKFoundation.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/RKFoundation.c b/source/RKFoundation.c
index ad26a5b..239fa59 100644
--- a/source/RKFoundation.c
+++ b/source/RKFoundation.c
@@ -2360,11 +2360,11 @@ int RKParseProductDescription(RKProductDesc *desc, const char *inputString) {
 }
 
 RKProductId RKProductIdFromString(const char *string) {
-    return (RKProductId)strtoul(string, NULL, 10);
+    return string ? (RKProductId)strtoul(string, NULL, 10) : 0;
 }
 
 RKIdentifier RKIdentifierFromString(const char *string) {
-    return (RKIdentifier)strtouq(string, NULL, 10);
+    return string ? (RKIdentifier)strtouq(string, NULL, 10) : 0;
 }
 
 #pragma mark - Simple Engine Free
-- 
2.43.0


From d1d86d8d1f3dd190423bd5a580152e2ae7fb5121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:15 +0000
Subject: [PATCH 039/174] fix: a clock needs a buffer larger than its stride

---
 source/RKClock.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKClock.c b/source/RKClock.c
index 5ede489..01238f0 100644
--- a/source/RKClock.c
+++ b/source/RKClock.c
@@ -12,7 +12,7 @@
 #pragma mark Life Cycle
 
 RKClock *RKClockInitWithSize(const uint32_t size, const uint32_t stride) {
-    if (size < stride) {
+    if (size <= stride) {
         RKLog("Error. Clock size must be greater than stride.\n");
         return NULL;
     }
-- 
2.43.0


From 9e9ec6ab0a36fe3676e61474c298bdc632f27107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:15 +0000
Subject: [PATCH 040/174] fix: every reading of the clock is averaged once

---
 source/RKClock.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/source/RKClock.c b/source/RKClock.c
index 01238f0..86124f3 100644
--- a/source/RKClock.c
+++ b/source/RKClock.c
@@ -170,6 +170,11 @@ double RKClockGetTime(RKClock *clock, const double u, struct timeval *timeval) {
     }
     // We are done with the indices; update them for the next call
     clock->index = RKNextModuloS(k, clock->size);
+    // The second reading is also a part of the averages
+    if (clock->count == 1) {
+        clock->sum_u0 += u;
+        clock->sum_x0 += x;
+    }
     // Derive time only if the clock has been called at least once. Otherwise (1.0 / clock->count) would be undefined
     if (clock->count > 1) {
         // Quick check on the previous time to make sure we are still continuous
@@ -185,7 +190,7 @@ double RKClockGetTime(RKClock *clock, const double u, struct timeval *timeval) {
             }
         }
         // Index of the reading from before of stride
-        if (clock->count > clock->stride) {
+        if (clock->count >= clock->stride) {
             j = RKPreviousNModuloS(k, clock->stride, clock->size);
         } else {
             j = 0;
@@ -211,7 +216,7 @@ double RKClockGetTime(RKClock *clock, const double u, struct timeval *timeval) {
                 RKLog("%s b = %.2e   du/dx = %s   offset = %.3f us", clock->name, clock->b, RKFloatToCommaStyleString(1.0 / clock->dx), 1.0e6 * clock->offsetSeconds);
             }
         }
-        if (clock->count > clock->stride) {
+        if (clock->count >= clock->stride) {
             clock->sum_u0 = clock->sum_u0 + u - clock->uBuffer[j];
             clock->sum_x0 = clock->sum_x0 + x - clock->xBuffer[j];
             if (clock->count % 2 == 0) {
@@ -224,8 +229,8 @@ double RKClockGetTime(RKClock *clock, const double u, struct timeval *timeval) {
             clock->sum_u0 += u;
             clock->sum_x0 += x;
             if (clock->count % 2 == 0) {
-                clock->u0 = clock->sum_u0 / clock->count;
-                clock->x0 = clock->sum_x0 / clock->count;
+                clock->u0 = clock->sum_u0 / (clock->count + 1);
+                clock->x0 = clock->sum_x0 / (clock->count + 1);
             }
             // Update dx / du as a decaying function
             if (!clock->hasWisdom) {
-- 
2.43.0


From 3fd7a62dc909ee57121d236cd9308ce94f1766d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:16 +0000
Subject: [PATCH 041/174] fix: the clock starts over when its reference is
 missing or restarts

---
 source/RKClock.c | 56 ++++++++++++++++++++++++++++++++----------------
 1 file changed, 38 insertions(+), 18 deletions(-)

diff --git a/source/RKClock.c b/source/RKClock.c
index 86124f3..5543038 100644
--- a/source/RKClock.c
+++ b/source/RKClock.c
@@ -127,9 +127,9 @@ void RKClockSetHighPrecision(RKClock *clock, const bool value) {
 //   us up to the precision of microseconds. If more than such precision is needed. The
 //   reference time should be set to a running reference.
 //
-double RKClockGetTime(RKClock *clock, const double u, struct timeval *timeval) {
+double RKClockGetTime(RKClock *clock, const double tic, struct timeval *timeval) {
     int j = 0;
-    double x, dx, du, y;
+    double u, x, dx, du, y;
     struct timeval t;
     bool recent = true;
     
@@ -145,6 +145,20 @@ double RKClockGetTime(RKClock *clock, const double u, struct timeval *timeval) {
         x = (double)t.tv_sec + 1.0e-6 * (double)t.tv_usec;
     }
     y = x;
+    // A reference that is not a number is replaced with an internal uniform reference
+    if (!isfinite(tic) && !clock->useInternalReference) {
+        clock->useInternalReference = true;
+        clock->count = 0;
+        clock->index = 0;
+    }
+    u = clock->useInternalReference ? (double)clock->tic++ : tic;
+    // Start over when the reference does, it does not go backward otherwise
+    j = RKPreviousModuloS(clock->index, clock->size);
+    if (clock->count > 0 && u < clock->uBuffer[j]) {
+        RKLog("%s Warning. Self reset  du = %s\n", clock->name, RKFloatToCommaStyleString(u - clock->uBuffer[j]));
+        clock->count = 0;
+        clock->index = 0;
+    }
     // Reset the references when clock count = 0 or it has been a while
     if (x - clock->latestTime > RKClockAWhile && clock->count > 0) {
         RKLog("%s Warning. Self reset  %f - %f = %f   count = %u\n", clock->name, x, clock->latestTime, x - clock->latestTime, clock->count);
@@ -160,14 +174,10 @@ double RKClockGetTime(RKClock *clock, const double u, struct timeval *timeval) {
         clock->sum_u0 = u;
     }
     // Predict x0 and u0 using a running average, so we need to keep u's and x's.
-    const int k = clock->index;
+    int k = clock->index;
     clock->tBuffer[k] = t;
     clock->xBuffer[k] = x;
-    if (clock->useInternalReference) {
-        clock->uBuffer[k] = clock->tic++;
-    } else {
-        clock->uBuffer[k] = u;
-    }
+    clock->uBuffer[k] = u;
     // We are done with the indices; update them for the next call
     clock->index = RKNextModuloS(k, clock->size);
     // The second reading is also a part of the averages
@@ -203,20 +213,29 @@ double RKClockGetTime(RKClock *clock, const double u, struct timeval *timeval) {
         du = clock->uBuffer[k] - clock->uBuffer[j];
         if (recent) {
             if (du <= 1.0e-7 || du > 1.0e9) {
-                if (clock->tic == 0) {
-                    RKLog("%s Warning. Reference tic change of %.e per second is unexpected.\n", clock->name, du);
-                    RKLog("%s Warning. Will be replaced with an internal uniform reference.\n", clock->name);
-                }
-                // Override with own tic?
+                RKLog("%s Warning. Reference tic change of %.e per second is unexpected.\n", clock->name, du);
+                RKLog("%s Warning. Will be replaced with an internal uniform reference.\n", clock->name);
+                // Override with own tic, start over from this reading
                 clock->useInternalReference = true;
-                clock->uBuffer[k] = clock->tic++;
-                du = clock->uBuffer[k] - clock->uBuffer[j];
+                u = (double)clock->tic++;
+                k = 0;
+                clock->index = RKNextModuloS(k, clock->size);
+                clock->count = 0;
+                clock->tBuffer[k] = t;
+                clock->xBuffer[k] = x;
+                clock->uBuffer[k] = u;
+                clock->x0 = x;
+                clock->u0 = u;
+                clock->sum_x0 = x;
+                clock->sum_u0 = u;
             }
             if (clock->count == clock->stride) {
                 RKLog("%s b = %.2e   du/dx = %s   offset = %.3f us", clock->name, clock->b, RKFloatToCommaStyleString(1.0 / clock->dx), 1.0e6 * clock->offsetSeconds);
             }
         }
-        if (clock->count >= clock->stride) {
+        if (clock->count == 0) {
+            // Just started over
+        } else if (clock->count >= clock->stride) {
             clock->sum_u0 = clock->sum_u0 + u - clock->uBuffer[j];
             clock->sum_x0 = clock->sum_x0 + x - clock->xBuffer[j];
             if (clock->count % 2 == 0) {
@@ -239,8 +258,8 @@ double RKClockGetTime(RKClock *clock, const double u, struct timeval *timeval) {
         }
         // Derive time using a linear relation after it has tracked for a while
         y = clock->x0 + clock->dx * (u - clock->u0);
-        if (!isfinite(y)) {
-            y = 0.0;
+        if (clock->count == 0 || !isfinite(y)) {
+            y = x;
         }
     }
     clock->count++;
@@ -278,6 +297,7 @@ void RKClockReset(RKClock *clock) {
     clock->index = 0;
     clock->count = 0;
     clock->tic = 0;
+    clock->useInternalReference = false;
     clock->latestTime = 0;
     clock->infoShown = false;
     RKLog("%s Reset   du/dx = %s\n", clock->name, RKFloatToCommaStyleString(1.0 / clock->dx));
-- 
2.43.0


From 74c243e54d95dda9d69cb2b1981c351f2a2fc970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:16 +0000
Subject: [PATCH 042/174] fix: the clock does not go backward

---
 source/RKClock.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/source/RKClock.c b/source/RKClock.c
index 5543038..4c0a1c7 100644
--- a/source/RKClock.c
+++ b/source/RKClock.c
@@ -160,10 +160,11 @@ double RKClockGetTime(RKClock *clock, const double tic, struct timeval *timeval)
         clock->index = 0;
     }
     // Reset the references when clock count = 0 or it has been a while
-    if (x - clock->latestTime > RKClockAWhile && clock->count > 0) {
+    if (fabs(x - clock->latestTime) > RKClockAWhile && clock->count > 0) {
         RKLog("%s Warning. Self reset  %f - %f = %f   count = %u\n", clock->name, x, clock->latestTime, x - clock->latestTime, clock->count);
         clock->count = 0;
         clock->index = 0;
+        clock->latestTime = x;
     }
     // These parameters should be reset when the clock is restarted
     if (clock->count == 0) {
@@ -276,12 +277,12 @@ double RKClockGetTime(RKClock *clock, const double tic, struct timeval *timeval)
 
 #endif
 
+    // Hold the time rather than going backward
+    y = MAX(y, clock->latestTime);
+
     clock->yBuffer[k] = y;
     clock->zBuffer[k] = clock->dx;
 
-    if (y < clock->latestTime && !recent) {
-        RKLog("%s WARNING. Going back in time?  x = %f < %f = latestTime\n", clock->name, y, clock->latestTime);
-    }
     clock->latestTime = y;
 
     return y + clock->offsetSeconds;
-- 
2.43.0


From f745c5b30aee6714b11c0fb980a53828cd86c53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:26 +0000
Subject: [PATCH 043/174] fix: wisdom of the clock is not about its internal
 reference

---
 source/RKClock.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/source/RKClock.c b/source/RKClock.c
index 4c0a1c7..275ddf9 100644
--- a/source/RKClock.c
+++ b/source/RKClock.c
@@ -183,8 +183,8 @@ double RKClockGetTime(RKClock *clock, const double tic, struct timeval *timeval)
     clock->index = RKNextModuloS(k, clock->size);
     // The second reading is also a part of the averages
     if (clock->count == 1) {
-        clock->sum_u0 += u;
-        clock->sum_x0 += x;
+        clock->sum_u0 = clock->stride > 1 ? clock->sum_u0 + u : u;
+        clock->sum_x0 = clock->stride > 1 ? clock->sum_x0 + x : x;
     }
     // Derive time only if the clock has been called at least once. Otherwise (1.0 / clock->count) would be undefined
     if (clock->count > 1) {
@@ -243,8 +243,6 @@ double RKClockGetTime(RKClock *clock, const double tic, struct timeval *timeval)
                 clock->u0 = clock->sum_u0 / clock->stride;
                 clock->x0 = clock->sum_x0 / clock->stride;
             }
-            // Update dx / du as a decaying function
-            clock->dx = clock->a * clock->dx + clock->b * dx / du;
         } else {
             clock->sum_u0 += u;
             clock->sum_x0 += x;
@@ -252,10 +250,12 @@ double RKClockGetTime(RKClock *clock, const double tic, struct timeval *timeval)
                 clock->u0 = clock->sum_u0 / (clock->count + 1);
                 clock->x0 = clock->sum_x0 / (clock->count + 1);
             }
-            // Update dx / du as a decaying function
-            if (!clock->hasWisdom) {
-                clock->dx = dx / du;
-            }
+        }
+        // Update dx / du as a decaying function
+        if (clock->count > clock->stride) {
+            clock->dx = clock->a * clock->dx + clock->b * dx / du;
+        } else if (clock->count > 0 && (!clock->hasWisdom || clock->useInternalReference)) {
+            clock->dx = dx / du;
         }
         // Derive time using a linear relation after it has tracked for a while
         y = clock->x0 + clock->dx * (u - clock->u0);
-- 
2.43.0


From 1035927fa3762a72b4a74f1adcb75fb856039342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:16 +0000
Subject: [PATCH 044/174] fix: clearing a ray buffer clears all of its data

---
 source/RKFoundation.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKFoundation.c b/source/RKFoundation.c
index 239fa59..bfff077 100644
--- a/source/RKFoundation.c
+++ b/source/RKFoundation.c
@@ -1459,7 +1459,7 @@ int RKClearRayBuffer(RKBuffer buffer, const uint32_t count) {
         ray->header.s = RKRayStatusVacant;
         ray->header.i = -(uint64_t)count + k;
         ray->header.gateCount = 0;
-        memset(ray->data, 0, RKBaseProductCount * ray->header.capacity * (sizeof(uint8_t) + sizeof(float)));
+        memset(ray->data, 0, ray->header.capacity * (RKMomentCount * sizeof(int16_t) + RKBaseProductCount * (sizeof(uint8_t) + sizeof(float))));
     }
     return RKResultSuccess;
 }
-- 
2.43.0


From d3d5aa5b5b9085e3bc09e86b2e6403aaded4cc50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:35 +0000
Subject: [PATCH 045/174] fix: the float data of a ray conform to SIMD
 alignment for every capacity

---
 source/RKFoundation.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/source/RKFoundation.c b/source/RKFoundation.c
index bfff077..e5e82ce 100644
--- a/source/RKFoundation.c
+++ b/source/RKFoundation.c
@@ -1384,6 +1384,10 @@ void RKPulseDuplicateSplitComplex(RKPulse *pulse) {
 //    float              fdata[RKBaseProductCount][capacity];
 //    int16_t            sdata[RKMomentCount][capacity];       (deprecating)
 //
+// The block of uint8_t data is padded so that the float data that come next conform to SIMD alignment for every capacity
+#define RKRayUInt8BlockSize(capacity)   ((RKBaseProductCount * (size_t)(capacity) * sizeof(uint8_t) + RKMemoryAlignSize - 1) / RKMemoryAlignSize * RKMemoryAlignSize)
+#define RKRayDataSize(capacity)         ((size_t)(capacity) * (RKMomentCount * sizeof(int16_t) + RKBaseProductCount * sizeof(float)) + RKRayUInt8BlockSize(capacity))
+
 size_t RKRayBufferAlloc(RKBuffer *mem, const uint32_t capacity, const uint32_t count) {
     size_t alignment = RKMemoryAlignSize / sizeof(RKFloat);
     if (capacity != (capacity / alignment) * alignment) {
@@ -1397,8 +1401,8 @@ size_t RKRayBufferAlloc(RKBuffer *mem, const uint32_t capacity, const uint32_t c
         return 0;
     }
     //size_t raySize = headerSize + RKBaseProductCount * capacity * (sizeof(uint8_t) + sizeof(float) + sizeof(int16_t));
-    size_t raySize = RKRayHeaderPaddedSize + capacity * (RKMomentCount * sizeof(int16_t) + RKBaseProductCount * (sizeof(uint8_t) + sizeof(float)));
-    if (raySize != (raySize / alignment) * alignment) {
+    size_t raySize = RKRayHeaderPaddedSize + RKRayDataSize(capacity);
+    if (raySize != (raySize / RKMemoryAlignSize) * RKMemoryAlignSize) {
         RKLog("Error. The total ray size %s does not conform to SIMD alignment.", RKUIntegerToCommaStyleString(raySize));
         return 0;
     }
@@ -1428,7 +1432,7 @@ void RKRayBufferFree(RKBuffer mem) {
 // Get a ray from a ray buffer
 RKRay *RKGetRayFromBuffer(RKBuffer buffer, const uint32_t k) {
     RKRay *ray = (RKRay *)buffer;
-    size_t raySize = RKRayHeaderPaddedSize + ray->header.capacity * (RKMomentCount * sizeof(int16_t) + RKBaseProductCount * (sizeof(uint8_t) + sizeof(float)));
+    size_t raySize = RKRayHeaderPaddedSize + RKRayDataSize(ray->header.capacity);
     return (RKRay *)((void *)ray + k * raySize);
 }
 
@@ -1449,7 +1453,7 @@ uint8_t *RKGetUInt8DataFromRay(RKRay *ray, const RKBaseProductIndex m) {
 float *RKGetFloatDataFromRay(RKRay *ray, const RKBaseProductIndex m) {
     void *d = (void *)ray->data;
     d += RKMomentCount * ray->header.capacity * sizeof(int16_t);
-    d += RKBaseProductCount * ray->header.capacity * sizeof(uint8_t);
+    d += RKRayUInt8BlockSize(ray->header.capacity);
     return (float *)(d + m * ray->header.capacity * sizeof(float));
 }
 
@@ -1459,7 +1463,7 @@ int RKClearRayBuffer(RKBuffer buffer, const uint32_t count) {
         ray->header.s = RKRayStatusVacant;
         ray->header.i = -(uint64_t)count + k;
         ray->header.gateCount = 0;
-        memset(ray->data, 0, ray->header.capacity * (RKMomentCount * sizeof(int16_t) + RKBaseProductCount * (sizeof(uint8_t) + sizeof(float))));
+        memset(ray->data, 0, RKRayDataSize(ray->header.capacity));
     }
     return RKResultSuccess;
 }
-- 
2.43.0


From b3235f86995c9c6d62ad1a67d20f65b0362753d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:56 +0000
Subject: [PATCH 046/174] fix: the differential phase of every gate gets its
 own calibration offset in the pulse-pair processors

---
 source/RKPulsePair.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/RKPulsePair.c b/source/RKPulsePair.c
index 9952ea4..bf5633e 100644
--- a/source/RKPulsePair.c
+++ b/source/RKPulsePair.c
@@ -134,15 +134,16 @@ void RKUpdateRadarProductsInScratchSpace(RKMomentScratch *space, const int gateC
     w = space->pcal;
     ri = space->C[0].i;
     rq = space->C[0].q;
-    s[0] = atan2f(*rq++, *ri++);
-    for (k = 1; k < gateCount; k++) {
+    for (k = 0; k < gateCount; k++) {
         s[k] = atan2f(*rq++, *ri++) + *w++;
         if (s[k] < -M_PI) {
             s[k] += 2.0f * M_PI;
         } else if (s[k] >= M_PI) {
             s[k] -= 2.0f * M_PI;
         }
-        *v++ = space->KDPFactor * (s[k] - s[k - 1]);
+        if (k > 0) {
+            *v++ = space->KDPFactor * (s[k] - s[k - 1]);
+        }
     }
 }
 
-- 
2.43.0


From a6ba35bb5a65976fb35f936c429b4bcb10233167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:56 +0000
Subject: [PATCH 047/174] fix: the cross-correlations of a ray do not include
 those of earlier rays in RKPulsePairATSR()

---
 source/RKPulsePairATSR.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/RKPulsePairATSR.c b/source/RKPulsePairATSR.c
index bd1e0c4..01f4243 100644
--- a/source/RKPulsePairATSR.c
+++ b/source/RKPulsePairATSR.c
@@ -284,6 +284,8 @@ int RKPulsePairATSR(RKMomentScratch *space, RKPulse **pulses, const uint16_t pul
         RKZeroOutIQZ(&space->R[p][1], gateCount);
         RKZeroOutIQZ(&space->RX[p][0], gateCount);
         RKZeroOutIQZ(&space->RX[p][1], gateCount);
+        RKZeroOutIQZ(&space->C[p], gateCount);
+        RKZeroOutIQZ(&space->CX[p][0], gateCount);
     }
     // Go through the even pulses for hc and vx
     n = 0;
-- 
2.43.0


From 5c7f599bed1c9c2dc58f93be81e3835fcbec56cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:56 +0000
Subject: [PATCH 048/174] fix: the differential phase of the first gate stays
 within its range in RKPulsePairATSR()

---
 source/RKPulsePairATSR.c | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/source/RKPulsePairATSR.c b/source/RKPulsePairATSR.c
index 01f4243..7768c4c 100644
--- a/source/RKPulsePairATSR.c
+++ b/source/RKPulsePairATSR.c
@@ -203,17 +203,12 @@ void RKUpdateATSRProductsInScratchSpace(RKMomentScratch *space, const int gateCo
     rq = space->C[0].q;      // Im(Ra) bi
     ci = space->C[1].i;      // Re(Rb) c
     cq = space->C[1].q;      // Im(Rb) di
-    s[0] = 0.5f * atan2f(*rq * *ci - *ri * *cq, *ri * *ci + *rq * *cq) + *w++;
-    ri++;
-    rq++;
-    ci++;
-    cq++;
     // arg( Ra * Rb')
     // arg( ( a+bi ) * ( c+di )')
     // arg( ( a+bi ) * ( c-di ))
     // arg( ( ac + bd ) * ( bc-ad )i)
     // atan2( bc-ad, ac + bd)
-    for (k = 1; k < gateCount; k++) {
+    for (k = 0; k < gateCount; k++) {
         s[k] = 0.5f * atan2f(*rq * *ci - *ri * *cq, *ri * *ci + *rq * *cq) + *w++;
         ri++;
         rq++;
@@ -224,7 +219,9 @@ void RKUpdateATSRProductsInScratchSpace(RKMomentScratch *space, const int gateCo
         } else if (s[k] >= M_PI) {
             s[k] -= 2.0f * M_PI;
         }
-        *v++ = space->KDPFactor * (s[k] - s[k - 1]);
+        if (k > 0) {
+            *v++ = space->KDPFactor * (s[k] - s[k - 1]);
+        }
     }
 }
 
-- 
2.43.0


From aae78763f29b63cf619263c1e2882b1460a2ac08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:56 +0000
Subject: [PATCH 049/174] fix: range calibration covers the gates that each
 filter delivers

---
 source/RKCalibrator.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/RKCalibrator.c b/source/RKCalibrator.c
index 0c3ccb8..5c55631 100644
--- a/source/RKCalibrator.c
+++ b/source/RKCalibrator.c
@@ -13,9 +13,9 @@ void RKCalibratorSimple(RKUserResource _Nullable ignore, RKMomentScratch *space)
     RKFloat r = 0.0f;
     RKConfig *config = space->config;
     RKFilterAnchor *filterAnchors = config->waveformDecimate->filterAnchors[0];
-    for (k = 0; k < config->waveformDecimate->count; k++) {
+    for (k = 0; k < config->waveformDecimate->filterCounts[0]; k++) {
         //RKLog("RKCalibratorSimple: k=%d: %d ... %d\n", k, filterAnchors[k].outputOrigin, MIN(filterAnchors[k].outputOrigin + filterAnchors[k].maxDataLength, space->gateCount));
-        for (i = filterAnchors[k].inputOrigin; i < MIN(filterAnchors[k].outputOrigin + filterAnchors[k].maxDataLength, space->gateCount); i++) {
+        for (i = filterAnchors[k].outputOrigin; i < MIN(filterAnchors[k].outputOrigin + filterAnchors[k].maxDataLength, space->gateCount); i++) {
             r = (RKFloat)i * space->gateSizeMeters;
             for (p = 0; p < 2; p++) {
                 space->S2Z[p][i] = 20.0f * log10f(r) + config->systemZCal[p] + config->ZCal[k][p] - filterAnchors[k].sensitivityGain - space->samplingAdjustment;
-- 
2.43.0


From bb9fe0b7a1ab6f23a8b93dc587311fb8525e837e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:56 +0000
Subject: [PATCH 050/174] fix: the lag-4 moments of a ray come from lag 4

---
 source/RKScratch.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/RKScratch.c b/source/RKScratch.c
index 34863d2..7533079 100644
--- a/source/RKScratch.c
+++ b/source/RKScratch.c
@@ -305,7 +305,7 @@ int makeRayFromScratch(RKMomentScratch *scratch, RKRay *ray) {
     RKFloat *iHR1q = scratch->R[0][1].q;    int16_t *oHR1q = RKGetInt16DataFromRay(ray, RKMomentIndexHR1q);
     RKFloat *iHR2  = scratch->aR[0][2];     int16_t *oHR2  = RKGetInt16DataFromRay(ray, RKMomentIndexHR2);
     RKFloat *iHR3  = scratch->aR[0][3];     int16_t *oHR3  = RKGetInt16DataFromRay(ray, RKMomentIndexHR3);
-    RKFloat *iHR4  = scratch->aR[0][3];     int16_t *oHR4  = RKGetInt16DataFromRay(ray, RKMomentIndexHR4);
+    RKFloat *iHR4  = scratch->aR[0][4];     int16_t *oHR4  = RKGetInt16DataFromRay(ray, RKMomentIndexHR4);
     RKFloat *iVmi  = scratch->mX[1].i;      int16_t *oVmi  = RKGetInt16DataFromRay(ray, RKMomentIndexVmi);
     RKFloat *iVmq  = scratch->mX[1].q;      int16_t *oVmq  = RKGetInt16DataFromRay(ray, RKMomentIndexVmq);
     RKFloat *iVR0  = scratch->aR[1][0];     int16_t *oVR0  = RKGetInt16DataFromRay(ray, RKMomentIndexVR0);
@@ -313,7 +313,7 @@ int makeRayFromScratch(RKMomentScratch *scratch, RKRay *ray) {
     RKFloat *iVR1q = scratch->R[1][1].q;    int16_t *oVR1q = RKGetInt16DataFromRay(ray, RKMomentIndexVR1q);
     RKFloat *iVR2  = scratch->aR[1][2];     int16_t *oVR2  = RKGetInt16DataFromRay(ray, RKMomentIndexVR2);
     RKFloat *iVR3  = scratch->aR[1][3];     int16_t *oVR3  = RKGetInt16DataFromRay(ray, RKMomentIndexVR3);
-    RKFloat *iVR4  = scratch->aR[1][3];     int16_t *oVR4  = RKGetInt16DataFromRay(ray, RKMomentIndexVR4);
+    RKFloat *iVR4  = scratch->aR[1][4];     int16_t *oVR4  = RKGetInt16DataFromRay(ray, RKMomentIndexVR4);
 
     // Convert float to 16-bit representation (-32768 - 32767) using ...
     for (k = 0; k < MIN(scratch->capacity, scratch->gateCount); k++) {
-- 
2.43.0


From 3b7d28ee2638bc245d60b8c0c9ebbf291deb5a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:56 +0000
Subject: [PATCH 051/174] fix: products of the V channel are censored by the
 thresholds of the V channel

---
 source/RKScratch.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/source/RKScratch.c b/source/RKScratch.c
index 7533079..3b9a474 100644
--- a/source/RKScratch.c
+++ b/source/RKScratch.c
@@ -435,13 +435,16 @@ int makeRayFromScratch(RKMomentScratch *scratch, RKRay *ray) {
             *ZHo++ = *ZHi;
             *VHo++ = *VHi;
             *WHo++ = *WHi;
-            *ZVo++ = *ZVi;
-            *VVo++ = *VVi;
-            *WVo++ = *WVi;
         } else {
             *ZHo++ = NAN;
             *VHo++ = NAN;
             *WHo++ = NAN;
+        }
+        if (*mask & RKCellMaskKeepV) {
+            *ZVo++ = *ZVi;
+            *VVo++ = *VVi;
+            *WVo++ = *WVi;
+        } else {
             *ZVo++ = NAN;
             *VVo++ = NAN;
             *WVo++ = NAN;
-- 
2.43.0


From 8ccafa8b17418ada6e2129950b9c52dc8948fe66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:56 +0000
Subject: [PATCH 052/174] fix: the differential phase stays within its range in
 RKSpectralMoment()

---
 source/RKSpectralMoment.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/RKSpectralMoment.c b/source/RKSpectralMoment.c
index cb8e759..81b7961 100644
--- a/source/RKSpectralMoment.c
+++ b/source/RKSpectralMoment.c
@@ -181,6 +181,7 @@ int RKSpectralMoment(RKMomentScratch *space, RKPulse **pulses, const uint16_t pu
             space->RhoHV[g] = sqrtf(( Ci[g] * Ci[g] + Cq[g] * Cq[g] ) / (space->aR[0][0][g] * space->aR[1][0][g]));
             // space->RhoHV[g] = sqrtf(( Ci[g] * Ci[g] + Cq[g] * Cq[g] ) / ((1.0f + 1.0f/space->SNR[0][g]) * (1.0f + 1.0f/space->SNR[1][g])) / (space->aR[0][0][g] * space->aR[1][0][g]));
             space->PhiDP[g] = atan2(Cq[g], Ci[g]) + space->pcal[g];
+            space->PhiDP[g] = RKSingleWrapTo2PI(space->PhiDP[g]);
             if (g > 1) {
                 space->KDP[g] = space->PhiDP[g] - space->PhiDP[g - 1];
                 space->KDP[g] = RKSingleWrapTo2PI(space->KDP[g]);
-- 
2.43.0


From 3fec034d7c7fcc56fa73f10bca19ef4993778cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:56 +0000
Subject: [PATCH 053/174] fix: RKMultiLag() does not use more lags than there
 are pulses

---
 source/RKMultiLag.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/source/RKMultiLag.c b/source/RKMultiLag.c
index 78be144..d27c27b 100644
--- a/source/RKMultiLag.c
+++ b/source/RKMultiLag.c
@@ -23,13 +23,11 @@ int RKMultiLag(RKMomentScratch *space, RKPulse **pulses, const uint16_t pulseCou
     // Get the start pulse to know the capacity
     RKPulse *pulse = pulses[0];
     const uint32_t gateCount = pulse->header.downSampledGateCount;
-	const int lagCount = space->userLagChoice == 0 ? MIN(pulseCount, RKMaximumLagCount) : MIN(space->userLagChoice + 1, RKMaximumLagCount);
+	// A lag needs at least one pair of pulses
+	const int lagChoice = MIN(space->userLagChoice, pulseCount - 1);
+	const int lagCount = lagChoice == 0 ? MIN(pulseCount, RKMaximumLagCount) : MIN(lagChoice + 1, RKMaximumLagCount);
 	const RKFloat tiny = 1.0e-6;
 
-	if (lagCount > pulseCount) {
-		RKLog("WARNING. Memory leak in RKMultiLag.\n");
-	}
-
     //
     //  ACF
     //
@@ -134,7 +132,7 @@ int RKMultiLag(RKMomentScratch *space, RKPulse **pulses, const uint16_t pulseCou
 
     // For now, all cells use the same lag choice
     for (k = 0; k < gateCount; k++) {
-        space->mask[k] = space->userLagChoice;
+        space->mask[k] = lagChoice;
     }
 
     // Mark the calculated moments
-- 
2.43.0


From f9347e7fe5d989b77b3ef237336dcfe2098fed11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:51 +0000
Subject: [PATCH 054/174] fix: a ray without gates does not run past the
 scratch space

---
 source/RKScratch.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKScratch.c b/source/RKScratch.c
index 3b9a474..be0375b 100644
--- a/source/RKScratch.c
+++ b/source/RKScratch.c
@@ -418,7 +418,7 @@ int makeRayFromScratch(RKMomentScratch *scratch, RKRay *ray) {
 
     // Simple despeckling: censor the current cell if the next cell is censored
     mask = scratch->mask;
-    for (k = 0; k < MIN(scratch->capacity, scratch->gateCount) - 1; k++) {
+    for (k = 1; k < MIN(scratch->capacity, scratch->gateCount); k++) {
         if (!(*(mask + 1) & RKCellMaskKeepH)) {
             *mask &= ~RKCellMaskKeepH;
         }
-- 
2.43.0


From 67f4425751b1e90f1645b624bcec3c6b05baa173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:13 +0000
Subject: [PATCH 055/174] fix: a truncated or malformed waveform file is
 rejected

---
 source/RKFileHeader.c |  4 +++
 source/RKWaveform.c   | 59 +++++++++++++++++++++++++------------------
 2 files changed, 39 insertions(+), 24 deletions(-)

diff --git a/source/RKFileHeader.c b/source/RKFileHeader.c
index 85eaca0..9d115ea 100644
--- a/source/RKFileHeader.c
+++ b/source/RKFileHeader.c
@@ -90,6 +90,10 @@ RKFileHeader *RKFileHeaderRead(FILE *fid) {
         free(fileHeaderV1);
     } else {
         RKWaveform *waveform = RKWaveformReadFromReference(fid);
+        if (waveform == NULL) {
+            RKLog("Error. Failed reading waveform.\n");
+            exit(EXIT_FAILURE);
+        }
         fileHeader->config.waveform = waveform;
         fileHeader->config.waveformDecimate = RKWaveformCopy(waveform);
         RKWaveformDecimate(fileHeader->config.waveformDecimate, fileHeader->desc.pulseToRayRatio);
diff --git a/source/RKWaveform.c b/source/RKWaveform.c
index 489f5ee..78220b8 100644
--- a/source/RKWaveform.c
+++ b/source/RKWaveform.c
@@ -1028,24 +1028,37 @@ RKResult RKWaveformWriteFile(RKWaveform *waveform, const char *filename) {
 
 RKWaveform *RKWaveformReadFromReference(FILE *fid) {
     int j, k;
-    size_t r;
-    RKWaveFileGlobalHeader *fileHeader = (RKWaveFileGlobalHeader *)malloc(sizeof(RKWaveFileGlobalHeader));
-    r = fread(fileHeader, sizeof(RKWaveFileGlobalHeader), 1, fid);
-    if (r == 0) {
+    RKWaveFileGlobalHeader fileHeader;
+    if (fread(&fileHeader, sizeof(RKWaveFileGlobalHeader), 1, fid) != 1) {
         RKLog("Error. No file header from %p.\n", fid);
+        return NULL;
+    }
+    if (fileHeader.count == 0 || fileHeader.count > RKMaximumWaveformCount) {
+        RKLog("Error. This waveform is invalid.  count = %d\n", fileHeader.count);
+        return NULL;
     }
-    RKWaveform *waveform = RKWaveformInitWithCountAndDepth(fileHeader->count, fileHeader->depth);
-    strncpy(waveform->name, fileHeader->name, RKNameLength);
-    waveform->type = fileHeader->type;
-    waveform->fc = fileHeader->fc;
-    waveform->fs = fileHeader->fs;
+    if (fileHeader.depth == 0 || fileHeader.depth > RKMaximumGateCount) {
+        RKLog("Error. This waveform is invalid.  depth = %u\n", fileHeader.depth);
+        return NULL;
+    }
+    for (k = 0; k < fileHeader.count; k++) {
+        if (fileHeader.filterCounts[k] == 0 || fileHeader.filterCounts[k] > RKMaximumFilterCount) {
+            RKLog("Error. This waveform is invalid.  filterCounts[%d] = %d\n", k, fileHeader.filterCounts[k]);
+            return NULL;
+        }
+    }
+    RKWaveform *waveform = RKWaveformInitWithCountAndDepth(fileHeader.count, fileHeader.depth);
+    strncpy(waveform->name, fileHeader.name, RKNameLength - 1);
+    waveform->type = fileHeader.type;
+    waveform->fc = fileHeader.fc;
+    waveform->fs = fileHeader.fs;
     for (k = 0; k < waveform->count; k++) {
-        waveform->filterCounts[k] = fileHeader->filterCounts[k];
+        waveform->filterCounts[k] = fileHeader.filterCounts[k];
     }
     for (k = 0; k < waveform->count; k++) {
-        r = fread(waveform->filterAnchors[k], sizeof(RKFilterAnchor), fileHeader->filterCounts[k], fid);
-        if (r == 0) {
+        if (fread(waveform->filterAnchors[k], sizeof(RKFilterAnchor), waveform->filterCounts[k], fid) != waveform->filterCounts[k]) {
             RKLog("Error. Unable to read filter anchors from %p\n", fid);
+            RKWaveformFree(waveform);
             return NULL;
         }
         // Output data from the first filter is allowed up to the maximum
@@ -1056,15 +1069,14 @@ RKWaveform *RKWaveformReadFromReference(FILE *fid) {
                       RKIntegerToCommaStyleString(waveform->filterAnchors[k][j].length),
                       RKIntegerToCommaStyleString(waveform->depth));
                 RKWaveformFree(waveform);
-                fclose(fid);
                 return NULL;
             }
-            if (waveform->filterAnchors[k][j].origin > RKMaximumGateCount) {
-                RKLog("Error. This waveform is invalid.  origin = %s > %s (RKMaximumGateCount)\n",
+            if (waveform->filterAnchors[k][j].origin > waveform->depth - waveform->filterAnchors[k][j].length) {
+                RKLog("Error. This waveform is invalid.  origin = %s + length = %s > depth %s\n",
                       RKIntegerToCommaStyleString(waveform->filterAnchors[k][j].origin),
-                      RKIntegerToCommaStyleString(RKMaximumGateCount));
+                      RKIntegerToCommaStyleString(waveform->filterAnchors[k][j].length),
+                      RKIntegerToCommaStyleString(waveform->depth));
                 RKWaveformFree(waveform);
-                fclose(fid);
                 return NULL;
             }
             if (waveform->filterAnchors[k][j].inputOrigin > RKMaximumGateCount) {
@@ -1072,7 +1084,6 @@ RKWaveform *RKWaveformReadFromReference(FILE *fid) {
                       RKIntegerToCommaStyleString(waveform->filterAnchors[k][j].inputOrigin),
                       RKIntegerToCommaStyleString(RKMaximumGateCount));
                 RKWaveformFree(waveform);
-                fclose(fid);
                 return NULL;
             }
             if (waveform->filterAnchors[k][j].outputOrigin > RKMaximumGateCount) {
@@ -1080,20 +1091,20 @@ RKWaveform *RKWaveformReadFromReference(FILE *fid) {
                       RKIntegerToCommaStyleString(waveform->filterAnchors[k][j].outputOrigin),
                       RKIntegerToCommaStyleString(RKMaximumGateCount));
                 RKWaveformFree(waveform);
-                fclose(fid);
                 return NULL;
             }
         }
-        r = fread(waveform->samples[k], sizeof(RKComplex), waveform->depth, fid);
-        if (r == 0) {
+        if (fread(waveform->samples[k], sizeof(RKComplex), waveform->depth, fid) != waveform->depth) {
             RKLog("Error. Failed reading complex samples from %p.\n", fid);
+            RKWaveformFree(waveform);
+            return NULL;
         }
-        r = fread(waveform->iSamples[k], sizeof(RKInt16C), waveform->depth, fid);
-        if (r == 0) {
+        if (fread(waveform->iSamples[k], sizeof(RKInt16C), waveform->depth, fid) != waveform->depth) {
             RKLog("Error. Failed reading int16 samples from %p.\n", fid);
+            RKWaveformFree(waveform);
+            return NULL;
         }
     }
     RKWaveformCalculateGain(waveform, RKWaveformGainAll);
-    free(fileHeader);
     return waveform;
 }
-- 
2.43.0


From 5b19191177509015f13e2f1d2d4a0c3e57c933e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:13 +0000
Subject: [PATCH 056/174] fix: RKWaveformInitFromSampleArrays() does not fill
 more groups than there are

---
 source/RKWaveform.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKWaveform.c b/source/RKWaveform.c
index 78220b8..7a455a5 100644
--- a/source/RKWaveform.c
+++ b/source/RKWaveform.c
@@ -111,7 +111,7 @@ RKWaveform *RKWaveformInitFromSampleArrays(const RKComplex **samples, const uint
     }
 
     // Everything simple, no TFM business
-    for (int j = 0; j < count; j++) {
+    for (int j = 0; j < waveform->count; j++) {
         waveform->filterCounts[j] = 1;
         waveform->filterAnchors[j][0].name = 0;
         waveform->filterAnchors[j][0].origin = 0;
-- 
2.43.0


From b596ffc9c16c6eb0bde4f8b67d878cb347158502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:13 +0000
Subject: [PATCH 057/174] fix: an unnamed waveform is named after the file, not
 after its path

---
 source/RKWaveform.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/source/RKWaveform.c b/source/RKWaveform.c
index 7a455a5..8a2a36f 100644
--- a/source/RKWaveform.c
+++ b/source/RKWaveform.c
@@ -1014,12 +1014,8 @@ RKResult RKWaveformWriteFile(RKWaveform *waveform, const char *filename) {
         return RKResultFailedToOpenFileForWriting;
     }
     if (strlen(waveform->name) == 0) {
-        char *lastPart = strchr(filename, '/');
-        if (lastPart == NULL) {
-            strcpy(waveform->name, filename);
-        } else {
-            strcpy(waveform->name, lastPart + 1);
-        }
+        char *lastPart = strrchr(filename, '/');
+        snprintf(waveform->name, RKNameLength, "%s", lastPart == NULL ? filename : lastPart + 1);
     }
     RKWaveformWriteToReference(waveform, fid);
     fclose(fid);
-- 
2.43.0


From 97ec624670e9c9794461ae002a1563fcb7289ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:13 +0000
Subject: [PATCH 058/174] fix: RKHilbertTransform() of one sample

---
 source/RKDSP.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/source/RKDSP.c b/source/RKDSP.c
index 3ae9cf2..9ff575e 100644
--- a/source/RKDSP.c
+++ b/source/RKDSP.c
@@ -304,15 +304,16 @@ void RKHilbertTransform(RKFloat *w, RKComplex *b, const int n) {
 
     out[0][0] *= s;
     out[0][1] *= s;
-    out[nfft >> 1][0] *= s;
-    out[nfft >> 1][1] *= s;
-
-    s = 2.0f / nfft;
-    for (i = 1; i < nfft >> 1; i++) {
-        out[i][0] *= s;
-        out[i][1] *= s;
+    if (nfft > 1) {
+        out[nfft >> 1][0] *= s;
+        out[nfft >> 1][1] *= s;
+        s = 2.0f / nfft;
+        for (i = 1; i < nfft >> 1; i++) {
+            out[i][0] *= s;
+            out[i][1] *= s;
+        }
+        memset(&out[(nfft >> 1) + 1][0], 0, ((nfft >> 1) - 1) * sizeof(fftwf_complex));
     }
-    memset(&out[(nfft >> 1) + 1][0], 0, ((nfft >> 1) - 1) * sizeof(fftwf_complex));
 
     fftwf_execute(plan_rev);
 
-- 
2.43.0


From d99c127953aa06e1062cbe4306ea481b07fc2449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:57 +0000
Subject: [PATCH 059/174] fix: waveform samples can be processed in whole
 vectors

---
 source/RKWaveform.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/source/RKWaveform.c b/source/RKWaveform.c
index 8a2a36f..d63c6ff 100644
--- a/source/RKWaveform.c
+++ b/source/RKWaveform.c
@@ -59,6 +59,11 @@ static void RKWaveformCalculateGain(RKWaveform *waveform, RKWaveformGain gainCal
     }
 }
 
+// Size in bytes, rounded up so that the SIMD functions can go through whole vectors
+static size_t RKWaveformPaddedSize(const size_t size) {
+    return (size + RKMemoryAlignSize - 1) / RKMemoryAlignSize * RKMemoryAlignSize;
+}
+
 #pragma mark - Life Cycle
 
 RKWaveform *RKWaveformInitWithCountAndDepth(const uint8_t count, const uint32_t depth) {
@@ -72,8 +77,8 @@ RKWaveform *RKWaveformInitWithCountAndDepth(const uint8_t count, const uint32_t
         RKLog("Warning. Waveform count is clamped to %s\n", RKIntegerToCommaStyleString(waveform->count));
     }
     for (k = 0; k < waveform->count; k++) {
-        POSIX_MEMALIGN_CHECK(posix_memalign((void **)&waveform->samples[k], RKMemoryAlignSize, waveform->depth * sizeof(RKComplex)));
-        POSIX_MEMALIGN_CHECK(posix_memalign((void **)&waveform->iSamples[k], RKMemoryAlignSize, waveform->depth * sizeof(RKInt16C)));
+        POSIX_MEMALIGN_CHECK(posix_memalign((void **)&waveform->samples[k], RKMemoryAlignSize, RKWaveformPaddedSize(waveform->depth * sizeof(RKComplex))));
+        POSIX_MEMALIGN_CHECK(posix_memalign((void **)&waveform->iSamples[k], RKMemoryAlignSize, RKWaveformPaddedSize(waveform->depth * sizeof(RKInt16C))));
         if (waveform->samples[k] == NULL || waveform->iSamples[k] == NULL) {
             RKLog("Error. Unable to allocate memory.\n");
             exit(EXIT_FAILURE);
@@ -301,8 +306,8 @@ RKResult RKWaveformAppendWaveform(RKWaveform *waveform, const RKWaveform *append
     //waveform->iSamples[0] = realloc(waveform->iSamples[0], depth * sizeof(RKInt16C));
     RKComplex *samples = waveform->samples[0];
     RKInt16C *iSamples = waveform->iSamples[0];
-    POSIX_MEMALIGN_CHECK(posix_memalign((void **)&waveform->samples[0], RKMemoryAlignSize, depth * sizeof(RKComplex)));
-    POSIX_MEMALIGN_CHECK(posix_memalign((void **)&waveform->iSamples[0], RKMemoryAlignSize, depth * sizeof(RKInt16C)));
+    POSIX_MEMALIGN_CHECK(posix_memalign((void **)&waveform->samples[0], RKMemoryAlignSize, RKWaveformPaddedSize(depth * sizeof(RKComplex))));
+    POSIX_MEMALIGN_CHECK(posix_memalign((void **)&waveform->iSamples[0], RKMemoryAlignSize, RKWaveformPaddedSize(depth * sizeof(RKInt16C))));
     memcpy(waveform->samples[0], samples, waveform->depth * sizeof(RKComplex));
     memcpy(waveform->iSamples[0], iSamples, waveform->depth * sizeof(RKInt16C));
     free(samples);
@@ -692,8 +697,8 @@ void RKWaveformDownConvert(RKWaveform *waveform) {
 
     int nfft = (int)powf(2.0f, ceilf(log2f((float)waveform->depth)));
 
-    POSIX_MEMALIGN_CHECK(posix_memalign((void **)&w, RKMemoryAlignSize, nfft * sizeof(RKFloat)));
-    POSIX_MEMALIGN_CHECK(posix_memalign((void **)&s, RKMemoryAlignSize, nfft * sizeof(RKComplex)));
+    POSIX_MEMALIGN_CHECK(posix_memalign((void **)&w, RKMemoryAlignSize, RKWaveformPaddedSize(nfft * sizeof(RKFloat))));
+    POSIX_MEMALIGN_CHECK(posix_memalign((void **)&s, RKMemoryAlignSize, RKWaveformPaddedSize(nfft * sizeof(RKComplex))));
 
     // Generate an SSB equivalent so that a real-valued function cos(omega t) becomes exp(i omage t)
     if (!(waveform->type & RKWaveformTypeIsComplex)) {
-- 
2.43.0


From 3711518570c2629284ae3f8d76c4b93b453fa562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:57 +0000
Subject: [PATCH 060/174] fix: an appended waveform keeps its full scale

---
 source/RKWaveform.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/RKWaveform.c b/source/RKWaveform.c
index d63c6ff..e75804c 100644
--- a/source/RKWaveform.c
+++ b/source/RKWaveform.c
@@ -331,6 +331,7 @@ RKResult RKWaveformAppendWaveform(RKWaveform *waveform, const RKWaveform *append
     waveform->filterAnchors[0][1].subCarrierFrequency = appendix->filterAnchors[0][0].subCarrierFrequency;
     waveform->filterAnchors[0][1].sensitivityGain = appendix->filterAnchors[0][0].sensitivityGain;
     waveform->filterAnchors[0][1].filterGain = appendix->filterAnchors[0][0].filterGain;
+    waveform->filterAnchors[0][1].fullScale = appendix->filterAnchors[0][0].fullScale;
 
     memcpy(waveform->iSamples[0] + waveform->depth, appendix->iSamples[0], appendix->depth * sizeof(RKInt16C));
     memcpy(waveform->samples[0] + waveform->depth, appendix->samples[0], appendix->depth * sizeof(RKComplex));
-- 
2.43.0


From 9505b69087d089e5af0712ed7f89076068fa5ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:37 +0000
Subject: [PATCH 061/174] fix: the filter of an appended waveform starts where
 its samples are

---
 source/RKWaveform.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKWaveform.c b/source/RKWaveform.c
index e75804c..400862a 100644
--- a/source/RKWaveform.c
+++ b/source/RKWaveform.c
@@ -323,7 +323,7 @@ RKResult RKWaveformAppendWaveform(RKWaveform *waveform, const RKWaveform *append
     waveform->filterAnchors[0][0].outputOrigin = waveform->filterAnchors[0][0].length + transitionSamples;
 
     waveform->filterAnchors[0][1].name = waveform->filterAnchors[0][0].name + 1;
-    waveform->filterAnchors[0][1].origin = waveform->filterAnchors[0][0].length;
+    waveform->filterAnchors[0][1].origin = waveform->depth + appendix->filterAnchors[0][0].origin;
     waveform->filterAnchors[0][1].length = appendix->filterAnchors[0][0].length;
     waveform->filterAnchors[0][1].inputOrigin = waveform->filterAnchors[0][0].length;
     waveform->filterAnchors[0][1].outputOrigin = 0;
-- 
2.43.0


From a96ec0658e970803c17a46aef331e3d1c166222e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:14 +0000
Subject: [PATCH 062/174] fix: product files of an RHI can be read

---
 source/RKProductFile.c | 10 ++++++++++
 source/RKSweepFile.c   |  5 +++++
 2 files changed, 15 insertions(+)

diff --git a/source/RKProductFile.c b/source/RKProductFile.c
index cdbd4a1..e2df0e6 100644
--- a/source/RKProductFile.c
+++ b/source/RKProductFile.c
@@ -298,6 +298,11 @@ void RKProductDimensionsFromFile(const char *filename, uint32_t *rayCount, uint3
     if ((r = nc_inq_dimid(ncid, "Azimuth", &tmpId)) != NC_NOERR) {
         r = nc_inq_dimid(ncid, "azimuth", &tmpId);
     }
+    if (r != NC_NOERR) {
+        if ((r = nc_inq_dimid(ncid, "Elevation", &tmpId)) != NC_NOERR) {
+            r = nc_inq_dimid(ncid, "elevation", &tmpId);
+        }
+    }
     if (r != NC_NOERR) {
         if ((r = nc_inq_dimid(ncid, "Beam", &tmpId)) != NC_NOERR) {
             r = nc_inq_dimid(ncid, "beam", &tmpId);
@@ -361,6 +366,11 @@ void RKProductReadFileIntoBuffer(RKProduct *product, const char *filename, const
     if ((r = nc_inq_dimid(ncid, "Azimuth", &tmpId)) != NC_NOERR) {
         r = nc_inq_dimid(ncid, "azimuth", &tmpId);
     }
+    if (r != NC_NOERR) {
+        if ((r = nc_inq_dimid(ncid, "Elevation", &tmpId)) != NC_NOERR) {
+            r = nc_inq_dimid(ncid, "elevation", &tmpId);
+        }
+    }
     if (r != NC_NOERR) {
         if ((r = nc_inq_dimid(ncid, "Beam", &tmpId)) != NC_NOERR) {
             r = nc_inq_dimid(ncid, "beam", &tmpId);
diff --git a/source/RKSweepFile.c b/source/RKSweepFile.c
index aa6ea33..4b7924a 100644
--- a/source/RKSweepFile.c
+++ b/source/RKSweepFile.c
@@ -117,6 +117,11 @@ RKSweep *RKSweepFileRead(const char *inputFile) {
             if ((r = nc_inq_dimid(ncid, "Azimuth", &tmpId)) != NC_NOERR) {
                 r = nc_inq_dimid(ncid, "azimuth", &tmpId);
             }
+            if (r != NC_NOERR) {
+                if ((r = nc_inq_dimid(ncid, "Elevation", &tmpId)) != NC_NOERR) {
+                    r = nc_inq_dimid(ncid, "elevation", &tmpId);
+                }
+            }
             if (r != NC_NOERR) {
                 if ((r = nc_inq_dimid(ncid, "Beam", &tmpId)) != NC_NOERR) {
                     r = nc_inq_dimid(ncid, "beam", &tmpId);
-- 
2.43.0


From 3701490f352587d4646e9a9d025c4fdd767c32b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:14 +0000
Subject: [PATCH 063/174] fix: the wavelength of a product file is read from
 its value, not from its unit

---
 source/RKProductFile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKProductFile.c b/source/RKProductFile.c
index e2df0e6..d868926 100644
--- a/source/RKProductFile.c
+++ b/source/RKProductFile.c
@@ -453,7 +453,7 @@ void RKProductReadFileIntoBuffer(RKProduct *product, const char *filename, const
         product->header.gateSizeMeters = 0.0f;
     }
     nc_get_att_long(ncid, NC_GLOBAL, "Time", &product->header.startTime);
-    r = nc_get_att_float(ncid, NC_GLOBAL, "Wavelength-unit", &product->header.wavelength);
+    r = nc_get_att_float(ncid, NC_GLOBAL, "Wavelength-value", &product->header.wavelength);
     if (r != NC_NOERR) {
         product->header.wavelength = 0.0f;
     }
-- 
2.43.0


From 18ffa7d15f6d1157f1f87b750466f1bb728c87ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:14 +0000
Subject: [PATCH 064/174] fix: the pulse width of a product file is in
 microseconds

---
 source/RKProductFile.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/RKProductFile.c b/source/RKProductFile.c
index d868926..a848c28 100644
--- a/source/RKProductFile.c
+++ b/source/RKProductFile.c
@@ -174,7 +174,7 @@ int RKProductFileWriterNC(RKProduct *product, const char *filename) {
     tmpi = (int)(1.0f / product->header.prt[0]);
     nc_put_att_int(ncid, NC_GLOBAL, "PRF-value", NC_INT, 1, &tmpi);
     put_global_text_att(ncid, "PulseWidth-unit", "MicroSeconds");
-    tmpf = (float)product->header.pw[0] * 1000.0f;
+    tmpf = (float)product->header.pw[0] * 1.0e6f;
     nc_put_att_float(ncid, NC_GLOBAL, "PulseWidth-value", NC_FLOAT, 1, &tmpf);
     put_global_text_att(ncid, "MaximumRange-unit", "KiloMeters");
     tmpf = 1.0e-3f * product->header.gateSizeMeters * product->header.gateCount;
@@ -472,10 +472,10 @@ void RKProductReadFileIntoBuffer(RKProduct *product, const char *filename, const
     if (r == NC_NOERR && product->header.wavelength == 0.0f && product->header.prt[0] > 0.0f) {
         product->header.wavelength = 4.0f * fv * (RKFloat)product->header.prt[0];
     }
-    nc_get_att_int(ncid, NC_GLOBAL, "PulseWidth-value", &iv);
-    r = nc_get_att_text(ncid, NC_GLOBAL, "PulseWidth-unit", stringValue);
+    r = nc_get_att_float(ncid, NC_GLOBAL, "PulseWidth-value", &fv);
+    getGlobalTextAttribute(stringValue, "PulseWidth-unit", ncid);
     if (r == NC_NOERR && !strcasecmp("microseconds", stringValue)) {
-        product->header.pw[0] = 1.0e-3 * (float)iv;
+        product->header.pw[0] = 1.0e-6f * fv;
     }
     get_global_float_att(ncid, floatType, "NoiseH-ADU", &product->header.noise[0]);
     get_global_float_att(ncid, floatType, "NoiseV-ADU", &product->header.noise[1]);
-- 
2.43.0


From 2956830d834d2efda48b5fdb75d542864586d225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:14 +0000
Subject: [PATCH 065/174] fix: the PRF of a product file is rounded, not
 truncated

---
 source/RKProductFile.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/RKProductFile.c b/source/RKProductFile.c
index a848c28..d1841a4 100644
--- a/source/RKProductFile.c
+++ b/source/RKProductFile.c
@@ -171,7 +171,7 @@ int RKProductFileWriterNC(RKProduct *product, const char *filename) {
     nc_put_att_float(ncid, NC_GLOBAL, "RangeFolded", NC_FLOAT, 1, &tmpf);
     put_global_text_att(ncid, "RadarParameters", "PRF PulseWidth MaximumRange");
     put_global_text_att(ncid, "PRF-unit", "Hertz");
-    tmpi = (int)(1.0f / product->header.prt[0]);
+    tmpi = (int)roundf(1.0f / product->header.prt[0]);
     nc_put_att_int(ncid, NC_GLOBAL, "PRF-value", NC_INT, 1, &tmpi);
     put_global_text_att(ncid, "PulseWidth-unit", "MicroSeconds");
     tmpf = (float)product->header.pw[0] * 1.0e6f;
@@ -461,7 +461,7 @@ void RKProductReadFileIntoBuffer(RKProduct *product, const char *filename, const
     if (r == NC_NOERR) {
         if (iv == 0) {
             RKLog("Warning. Recorded PRF = 0 Hz. Assuming 1000 Hz ...\n");
-            product->header.prt[0] = 1000.0f;
+            product->header.prt[0] = 1.0e-3f;
         } else {
             product->header.prt[0] = 1.0f / (RKFloat)iv;
         }
-- 
2.43.0


From dd38846f1267d1a2f7eca11733d791a2338b15f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:14 +0000
Subject: [PATCH 066/174] fix: writing a product does not alter its data

---
 source/RKProductFile.c | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/source/RKProductFile.c b/source/RKProductFile.c
index d1841a4..2201e67 100644
--- a/source/RKProductFile.c
+++ b/source/RKProductFile.c
@@ -33,7 +33,7 @@ static int get_global_float_att(const int ncid, const nc_type type, const char *
 }
 
 int RKProductFileWriterNC(RKProduct *product, const char *filename) {
-    int j;
+    int j, k;
     int ncid;
     int dimensionIds[2];
     int variableIdAzimuth;
@@ -44,7 +44,7 @@ int RKProductFileWriterNC(RKProduct *product, const char *filename) {
 
     int tmpi;
     float tmpf;
-    float *x;
+    RKFloat *x;
 
     // Check for basic requirements
     if (strlen(product->desc.name) == 0) {
@@ -224,14 +224,17 @@ int RKProductFileWriterNC(RKProduct *product, const char *filename) {
     }
     nc_put_var_float(ncid, variableIdGateWidth, array1D);
 
+    // Non-finite values are stored as missing, one ray at a time
     x = product->data;
-    for (j = 0; j < product->header.rayCount * product->header.gateCount; j++) {
-        if (!isfinite(*x)) {
-            *x = W2_MISSING_DATA;
+    for (j = 0; j < product->header.rayCount; j++) {
+        for (k = 0; k < product->header.gateCount; k++) {
+            array1D[k] = isfinite(*x) ? *x : W2_MISSING_DATA;
+            x++;
         }
-        x++;
+        const size_t start[] = {j, 0};
+        const size_t count[] = {1, product->header.gateCount};
+        nc_put_vara_float(ncid, variableIdData, start, count, array1D);
     }
-    nc_put_var_float(ncid, variableIdData, product->data);
 
 #elif RKloat == double
 
@@ -252,14 +255,17 @@ int RKProductFileWriterNC(RKProduct *product, const char *filename) {
     }
     nc_put_var_double(ncid, variableIdGateWidth, array1D);
 
+    // Non-finite values are stored as missing, one ray at a time
     x = product->data;
-    for (j = 0; j < product->header.rayCount * product->header.gateCount; j++) {
-        if (!isfinite(*x)) {
-            *x = W2_MISSING_DATA;
+    for (j = 0; j < product->header.rayCount; j++) {
+        for (k = 0; k < product->header.gateCount; k++) {
+            array1D[k] = isfinite(*x) ? *x : W2_MISSING_DATA;
+            x++;
         }
-        x++;
+        const size_t start[] = {j, 0};
+        const size_t count[] = {1, product->header.gateCount};
+        nc_put_vara_double(ncid, variableIdData, start, count, array1D);
     }
-    nc_put_var_float(ncid, variableIdData, product->data);
 
 #else
 
-- 
2.43.0


From 1268b88d3d9ad29645e39a9cd24939533ebd2cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:14 +0000
Subject: [PATCH 067/174] fix: the beam width of a product that is neither PPI
 nor RHI is set

---
 source/RKProductFile.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/RKProductFile.c b/source/RKProductFile.c
index 2201e67..0fd578c 100644
--- a/source/RKProductFile.c
+++ b/source/RKProductFile.c
@@ -217,6 +217,8 @@ int RKProductFileWriterNC(RKProduct *product, const char *filename) {
         for (j = 0; j < product->header.rayCount; j++) {
             array1D[j] = RKUMinDiff(product->endElevation[j], product->startElevation[j]);
         }
+    } else {
+        memset(array1D, 0, product->header.rayCount * sizeof(RKFloat));
     }
     nc_put_var_float(ncid, variableIdBeamwidth, array1D);
     for (j = 0; j < product->header.rayCount; j++) {
@@ -248,6 +250,8 @@ int RKProductFileWriterNC(RKProduct *product, const char *filename) {
         for (j = 0; j < product->header.rayCount; j++) {
             array1D[j] = RKUMinDiff(product->endElevation[j], product->startElevation[j]);
         }
+    } else {
+        memset(array1D, 0, product->header.rayCount * sizeof(RKFloat));
     }
     nc_put_var_double(ncid, variableIdBeamwidth, array1D);
     for (j = 0; j < product->header.rayCount; j++) {
-- 
2.43.0


From f544d7248de158c3522590ff1bd88595a88c797e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:14 +0000
Subject: [PATCH 068/174] fix: a file that is not NetCDF is not used any
 further

---
 source/RKProductFile.c | 6 +++---
 source/RKSweepFile.c   | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/source/RKProductFile.c b/source/RKProductFile.c
index 0fd578c..58b5a5d 100644
--- a/source/RKProductFile.c
+++ b/source/RKProductFile.c
@@ -65,7 +65,7 @@ int RKProductFileWriterNC(RKProduct *product, const char *filename) {
     }
 
     // Open a file
-    if ((j = nc_create(filename, NC_MODE, &ncid)) > 0) {
+    if ((j = nc_create(filename, NC_MODE, &ncid)) != NC_NOERR) {
         RKLog("Error. Unable to create %s   nc_create returned %d\n", filename, j);
         return RKResultFailedToOpenFileForProduct;
     }
@@ -297,7 +297,7 @@ void RKProductDimensionsFromFile(const char *filename, uint32_t *rayCount, uint3
     }
 
     // Read the first file
-    if ((r = nc_open(filename, NC_NOWRITE, &ncid)) > 0) {
+    if ((r = nc_open(filename, NC_NOWRITE, &ncid)) != NC_NOERR) {
         RKLog("%s Error opening file %s (%s)\n", name, filename, nc_strerror(r));
         return;
     }
@@ -362,7 +362,7 @@ void RKProductReadFileIntoBuffer(RKProduct *product, const char *filename, const
     }
 
     // Read the first file
-    if ((r = nc_open(filename, NC_NOWRITE, &ncid)) > 0) {
+    if ((r = nc_open(filename, NC_NOWRITE, &ncid)) != NC_NOERR) {
         RKLog("%s Error opening file %s (%s)\n", name, filename, nc_strerror(r));
         return;
     }
diff --git a/source/RKSweepFile.c b/source/RKSweepFile.c
index 4b7924a..2f8415e 100644
--- a/source/RKSweepFile.c
+++ b/source/RKSweepFile.c
@@ -109,7 +109,7 @@ RKSweep *RKSweepFileRead(const char *inputFile) {
         // Read in the header from the very first file that exists
         if (RKFilenameExists(filename)) {
             // Read the first file
-            if ((r = nc_open(filename, NC_NOWRITE, &ncid)) > 0) {
+            if ((r = nc_open(filename, NC_NOWRITE, &ncid)) != NC_NOERR) {
                 RKLog("%s Error opening file %s (%s)\n", name, inputFile, nc_strerror(r));
                 return NULL;
             }
@@ -326,7 +326,7 @@ RKSweep *RKSweepFileRead(const char *inputFile) {
         productList |= products[k];
 
         // Open the file
-        if ((r = nc_open(filename, NC_NOWRITE, &ncid)) > 0) {
+        if ((r = nc_open(filename, NC_NOWRITE, &ncid)) != NC_NOERR) {
             RKLog("%s Error opening file %s (%s)\n", name, inputFile, nc_strerror(r));
             free(scratch);
             return NULL;
-- 
2.43.0


From 2360f957b64502296b0c90f763cc955bfec6e1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:03 +0000
Subject: [PATCH 069/174] fix: a damaged product file does not make the readers
 leave their buffers

---
 source/RKProduct.c     |  14 ++++-
 source/RKProductFile.c | 136 ++++++++++++++++++++++++++++++-----------
 source/RKSweepFile.c   | 107 ++++++++++++++++++++++----------
 3 files changed, 187 insertions(+), 70 deletions(-)

diff --git a/source/RKProduct.c b/source/RKProduct.c
index 7881499..fae429d 100644
--- a/source/RKProduct.c
+++ b/source/RKProduct.c
@@ -19,9 +19,14 @@ size_t RKProductBufferAlloc(RKProduct **buffer, const uint32_t depth, const uint
     memset(products, 0, depth * sizeof(RKProduct));
 
     size_t size = 0;
+    if ((size_t)gateCount * rayCount > UINT32_MAX) {
+        RKLog("Error. Product of %u x %u is too large.\n", rayCount, gateCount);
+        free(products);
+        return 0;
+    }
     uint32_t capacity = gateCount * rayCount;
-    uint32_t headSize = rayCount * sizeof(RKFloat);
-    uint32_t dataSize = capacity * sizeof(RKFloat);
+    size_t headSize = rayCount * sizeof(RKFloat);
+    size_t dataSize = capacity * sizeof(RKFloat);
 
     for (i = 0; i < depth; i++) {
         RKProduct *product = &products[i];
@@ -33,6 +38,11 @@ size_t RKProductBufferAlloc(RKProduct **buffer, const uint32_t depth, const uint
         product->endElevation = (RKFloat *)malloc(headSize);
         product->data = (RKFloat *)malloc(dataSize);
         product->capacity = capacity;
+        if (product->startAzimuth == NULL || product->endAzimuth == NULL || product->startElevation == NULL || product->endElevation == NULL || product->data == NULL) {
+            RKLog("Error. Unable to allocate product buffer.\n");
+            RKProductBufferFree(products, i + 1);
+            return 0;
+        }
         memset(product->startAzimuth, 0, headSize);
         memset(product->endAzimuth, 0, headSize);
         memset(product->startElevation, 0, headSize);
diff --git a/source/RKProductFile.c b/source/RKProductFile.c
index 58b5a5d..1dede13 100644
--- a/source/RKProductFile.c
+++ b/source/RKProductFile.c
@@ -9,16 +9,60 @@
 #include <RadarKit/RKProductFile.h>
 
 #if RKFloat == float
-#define rk_nc_get_var_float   nc_get_var_float
+#define rk_nc_get_vara_float   nc_get_vara_float
 #else
-#define rk_nc_get_var_float   nc_get_var_double
+#define rk_nc_get_vara_float   nc_get_vara_double
 #endif
 
-static void getGlobalTextAttribute(char *dst, const char *name, const int ncid) {
+static void getGlobalTextAttribute(char *dst, const size_t size, const char *name, const int ncid) {
     size_t n = 0;
-    nc_get_att_text(ncid, NC_GLOBAL, name, dst);
-    nc_inq_attlen(ncid, NC_GLOBAL, name, &n);
-    dst[n] = 0;
+    nc_type type;
+    dst[0] = '\0';
+    if (nc_inq_att(ncid, NC_GLOBAL, name, &type, &n) != NC_NOERR || type != NC_CHAR) {
+        return;
+    }
+    char *text = (char *)malloc(n + 1);
+    if (text == NULL) {
+        return;
+    }
+    if (nc_get_att_text(ncid, NC_GLOBAL, name, text) == NC_NOERR) {
+        text[n] = '\0';
+        snprintf(dst, size, "%s", text);
+    }
+    free(text);
+}
+
+// Only attributes of one value are taken
+static bool isGlobalScalarAttribute(const int ncid, const char *name) {
+    size_t n = 0;
+    return nc_inq_attlen(ncid, NC_GLOBAL, name, &n) == NC_NOERR && n == 1;
+}
+
+static int getGlobalFloatAttribute(const int ncid, const char *name, float *value) {
+    return isGlobalScalarAttribute(ncid, name) ? nc_get_att_float(ncid, NC_GLOBAL, name, value) : NC_ENOTATT;
+}
+
+static int getGlobalDoubleAttribute(const int ncid, const char *name, double *value) {
+    return isGlobalScalarAttribute(ncid, name) ? nc_get_att_double(ncid, NC_GLOBAL, name, value) : NC_ENOTATT;
+}
+
+static int getGlobalIntAttribute(const int ncid, const char *name, int *value) {
+    return isGlobalScalarAttribute(ncid, name) ? nc_get_att_int(ncid, NC_GLOBAL, name, value) : NC_ENOTATT;
+}
+
+static int getGlobalLongAttribute(const int ncid, const char *name, long *value) {
+    return isGlobalScalarAttribute(ncid, name) ? nc_get_att_long(ncid, NC_GLOBAL, name, value) : NC_ENOTATT;
+}
+
+// Read rayCount x gateCount values, or rayCount values when gateCount = 0
+static int getArray(const int ncid, const int variableId, const size_t rayCount, const size_t gateCount, RKFloat *dst) {
+    int n = 0;
+    const size_t start[] = {0, 0};
+    const size_t count[] = {rayCount, gateCount};
+    if (nc_inq_varndims(ncid, variableId, &n) != NC_NOERR || n != (gateCount ? 2 : 1)) {
+        return NC_EBADDIM;
+    }
+    return rk_nc_get_vara_float(ncid, variableId, start, count, dst);
 }
 
 static int put_global_text_att(const int ncid, const char *att, const char *text) {
@@ -26,6 +70,9 @@ static int put_global_text_att(const int ncid, const char *att, const char *text
 }
 
 static int get_global_float_att(const int ncid, const nc_type type, const char *att, void *dest) {
+    if (!isGlobalScalarAttribute(ncid, att)) {
+        return NC_ENOTATT;
+    }
     if (type == NC_FLOAT) {
         return nc_get_att_float(ncid, NC_GLOBAL, att, (float *)dest);
     }
@@ -409,65 +456,67 @@ void RKProductReadFileIntoBuffer(RKProduct *product, const char *filename, const
 
     // Double check the dimensions
     if (product->header.rayCount != (uint32_t)rayCount || product->header.gateCount != (uint32_t)gateCount) {
-        RKLog("Warning. Inconsistent dimentions: %u x %u  vs  %u x %u\n",
+        RKLog("Error. Inconsistent dimentions: %u x %u  vs  %u x %u\n",
               (uint32_t)rayCount, (uint32_t)gateCount, product->header.rayCount, product->header.gateCount);
+        nc_close(ncid);
+        return;
     }
     RKGetSymbolFromFilename(filename, product->desc.symbol);
 
     // Global attributes
-    getGlobalTextAttribute(product->desc.name, "TypeName", ncid);
-    getGlobalTextAttribute(product->desc.unit, "Unit-value", ncid);
-    getGlobalTextAttribute(product->desc.colormap, "ColorMap-value", ncid);
-    getGlobalTextAttribute(stringValue, "ScanType", ncid);
+    getGlobalTextAttribute(product->desc.name, sizeof(product->desc.name), "TypeName", ncid);
+    getGlobalTextAttribute(product->desc.unit, sizeof(product->desc.unit), "Unit-value", ncid);
+    getGlobalTextAttribute(product->desc.colormap, sizeof(product->desc.colormap), "ColorMap-value", ncid);
+    getGlobalTextAttribute(stringValue, sizeof(stringValue), "ScanType", ncid);
     if (!strcmp(stringValue, "PPI")) {
         product->header.isPPI = true;
     } else if (!strcmp(stringValue, "RHI")) {
         product->header.isRHI = true;
     }
-    getGlobalTextAttribute(product->header.radarName, "radarName-value", ncid);
-    getGlobalTextAttribute(product->header.waveformName, "Waveform", ncid);
-    getGlobalTextAttribute(product->header.vcpDefinition, "RadarKit-VCP-Definition", ncid);
+    getGlobalTextAttribute(product->header.radarName, sizeof(product->header.radarName), "radarName-value", ncid);
+    getGlobalTextAttribute(product->header.waveformName, sizeof(product->header.waveformName), "Waveform", ncid);
+    getGlobalTextAttribute(product->header.vcpDefinition, sizeof(product->header.vcpDefinition), "RadarKit-VCP-Definition", ncid);
 
-    r = nc_get_att_double(ncid, NC_GLOBAL, "LatitudeDouble", &product->header.latitude);
+    r = getGlobalDoubleAttribute(ncid, "LatitudeDouble", &product->header.latitude);
     if (r != NC_NOERR) {
-        r = nc_get_att_float(ncid, NC_GLOBAL, "Latitude", &fv);
+        r = getGlobalFloatAttribute(ncid, "Latitude", &fv);
         if (r == NC_NOERR) {
             product->header.latitude = (double)fv;
         }
     }
-    r = nc_get_att(ncid, NC_GLOBAL, "LongitudeDouble", &product->header.longitude);
+    r = getGlobalDoubleAttribute(ncid, "LongitudeDouble", &product->header.longitude);
     if (r != NC_NOERR) {
-        r = nc_get_att_float(ncid, NC_GLOBAL, "Longitude", &fv);
+        r = getGlobalFloatAttribute(ncid, "Longitude", &fv);
         if (r == NC_NOERR) {
             product->header.longitude = (double)fv;
         }
     }
-    r = nc_get_att_float(ncid, NC_GLOBAL, "Heading", &product->header.heading);
+    r = getGlobalFloatAttribute(ncid, "Heading", &product->header.heading);
     if (r != NC_NOERR && showInfo) {
         RKLog("No radar heading found.\n");
     }
-    r = nc_get_att_float(ncid, NC_GLOBAL, "Height", &product->header.radarHeight);
+    r = getGlobalFloatAttribute(ncid, "Height", &product->header.radarHeight);
     if (r != NC_NOERR && showInfo) {
         RKLog("No radar height found.\n");
     }
-    r = nc_get_att_float(ncid, NC_GLOBAL, "Elevation", &product->header.sweepElevation);
+    r = getGlobalFloatAttribute(ncid, "Elevation", &product->header.sweepElevation);
     if (r != NC_NOERR && product->header.isPPI) {
         RKLog("Warning. No sweep elevation found.\n");
     }
-    r = nc_get_att_float(ncid, NC_GLOBAL, "Azimuth", &product->header.sweepAzimuth);
+    r = getGlobalFloatAttribute(ncid, "Azimuth", &product->header.sweepAzimuth);
     if (r != NC_NOERR && product->header.isRHI) {
         RKLog("Warning. No sweep azimuth found.\n");
     }
-    r = nc_get_att_float(ncid, NC_GLOBAL, "GateSize", &product->header.gateSizeMeters);
+    r = getGlobalFloatAttribute(ncid, "GateSize", &product->header.gateSizeMeters);
     if (r != NC_NOERR) {
         product->header.gateSizeMeters = 0.0f;
     }
-    nc_get_att_long(ncid, NC_GLOBAL, "Time", &product->header.startTime);
-    r = nc_get_att_float(ncid, NC_GLOBAL, "Wavelength-value", &product->header.wavelength);
+    getGlobalLongAttribute(ncid, "Time", &product->header.startTime);
+    r = getGlobalFloatAttribute(ncid, "Wavelength-value", &product->header.wavelength);
     if (r != NC_NOERR) {
         product->header.wavelength = 0.0f;
     }
-    r = nc_get_att_int(ncid, NC_GLOBAL, "PRF-value", &iv);
+    r = getGlobalIntAttribute(ncid, "PRF-value", &iv);
     if (r == NC_NOERR) {
         if (iv == 0) {
             RKLog("Warning. Recorded PRF = 0 Hz. Assuming 1000 Hz ...\n");
@@ -478,12 +527,12 @@ void RKProductReadFileIntoBuffer(RKProduct *product, const char *filename, const
     } else {
         RKLog("Warning. No PRF information found.\n");
     }
-    r = nc_get_att_float(ncid, NC_GLOBAL, "Nyquist_Vel-value", &fv);
+    r = getGlobalFloatAttribute(ncid, "Nyquist_Vel-value", &fv);
     if (r == NC_NOERR && product->header.wavelength == 0.0f && product->header.prt[0] > 0.0f) {
         product->header.wavelength = 4.0f * fv * (RKFloat)product->header.prt[0];
     }
-    r = nc_get_att_float(ncid, NC_GLOBAL, "PulseWidth-value", &fv);
-    getGlobalTextAttribute(stringValue, "PulseWidth-unit", ncid);
+    r = getGlobalFloatAttribute(ncid, "PulseWidth-value", &fv);
+    getGlobalTextAttribute(stringValue, sizeof(stringValue), "PulseWidth-unit", ncid);
     if (r == NC_NOERR && !strcasecmp("microseconds", stringValue)) {
         product->header.pw[0] = 1.0e-6f * fv;
     }
@@ -534,7 +583,7 @@ void RKProductReadFileIntoBuffer(RKProduct *product, const char *filename, const
         r = nc_inq_varid(ncid, "elevation", &tmpId);
     }
     if (r == NC_NOERR) {
-        rk_nc_get_var_float(ncid, tmpId, product->startElevation);
+        getArray(ncid, tmpId, rayCount, 0, product->startElevation);
     } else {
         RKLog("Warning. No elevation array.\n");
     }
@@ -544,7 +593,7 @@ void RKProductReadFileIntoBuffer(RKProduct *product, const char *filename, const
         r = nc_inq_varid(ncid, "azimuth", &tmpId);
     }
     if (r == NC_NOERR) {
-        rk_nc_get_var_float(ncid, tmpId, product->startAzimuth);
+        getArray(ncid, tmpId, rayCount, 0, product->startAzimuth);
     } else {
         RKLog("Warning. No azimuth array.\n");
     }
@@ -556,16 +605,23 @@ void RKProductReadFileIntoBuffer(RKProduct *product, const char *filename, const
                 r = nc_inq_varid(ncid, "gatewidth", &tmpId);
             }
         }
-        if (r == NC_NOERR) {
-            nc_get_var_float(ncid, tmpId, product->data);
-            product->header.gateSizeMeters = product->data[0];
+        if (r == NC_NOERR && getArray(ncid, tmpId, rayCount, 0, product->endAzimuth) == NC_NOERR) {
+            product->header.gateSizeMeters = product->endAzimuth[0];
+            memset(product->endAzimuth, 0, rayCount * sizeof(RKFloat));
         }
     }
 
     // Data array
     r = nc_inq_varid(ncid, product->desc.name, &tmpId);
     if (r == NC_NOERR) {
-        rk_nc_get_var_float(ncid, tmpId, product->data);
+        r = getArray(ncid, tmpId, rayCount, gateCount, product->data);
+    }
+    if (r != NC_NOERR) {
+        RKLog("Error. Unable to read %s (%s)\n", product->desc.name, nc_strerror(r));
+        for (r = 0; r < product->capacity; r++) {
+            product->data[r] = NAN;
+        }
+    } else {
         fp = product->data;
         for (r = 0; r < product->capacity; r++) {
             if (*fp == missing || *fp == folded) {
@@ -588,7 +644,9 @@ RKProduct *RKProductFileReaderNC(const char *inputFile, const bool showInfo) {
 
     RKProductDimensionsFromFile(inputFile, &rayCount, &gateCount);
 
-    RKProductBufferAlloc(&product, 1, rayCount, gateCount);
+    if (rayCount == 0 || gateCount == 0 || RKProductBufferAlloc(&product, 1, rayCount, gateCount) == 0) {
+        return NULL;
+    }
 
     RKProductReadFileIntoBuffer(product, inputFile, showInfo);
 
@@ -623,7 +681,11 @@ RKProductCollection *RKProductCollectionInitWithFilename(const char *firstFilena
         return NULL;
     }
 
-    RKProductBufferAlloc(&productCollection->products, productCollection->count, rayCount, gateCount);
+    if (rayCount == 0 || gateCount == 0 || RKProductBufferAlloc(&productCollection->products, productCollection->count, rayCount, gateCount) == 0) {
+        RKLog("RKProductCollectionInitWithFilename() Unable to read %s\n", firstFilename);
+        free(productCollection);
+        return NULL;
+    }
     for (k = 0; k < productCollection->count; k++) {
         if (strlen(list[k]) > 40) {
             RKLog("RKProductCollectionInitWithFilename() ...%s\n", RKLastNPartsOfPath(list[k], 3));
diff --git a/source/RKSweepFile.c b/source/RKSweepFile.c
index 2f8415e..4c406d6 100644
--- a/source/RKSweepFile.c
+++ b/source/RKSweepFile.c
@@ -10,11 +10,51 @@
 
 #include <RadarKit/RKSweepFile.h>
 
-static void getGlobalTextAttribute(char *dst, const char *name, const int ncid) {
+static void getGlobalTextAttribute(char *dst, const size_t size, const char *name, const int ncid) {
     size_t n = 0;
-    nc_get_att_text(ncid, NC_GLOBAL, name, dst);
-    nc_inq_attlen(ncid, NC_GLOBAL, name, &n);
-    dst[n] = 0;
+    nc_type type;
+    dst[0] = '\0';
+    if (nc_inq_att(ncid, NC_GLOBAL, name, &type, &n) != NC_NOERR || type != NC_CHAR) {
+        return;
+    }
+    char *text = (char *)malloc(n + 1);
+    if (text == NULL) {
+        return;
+    }
+    if (nc_get_att_text(ncid, NC_GLOBAL, name, text) == NC_NOERR) {
+        text[n] = '\0';
+        snprintf(dst, size, "%s", text);
+    }
+    free(text);
+}
+
+// Only attributes of one value are taken
+static bool isGlobalScalarAttribute(const int ncid, const char *name) {
+    size_t n = 0;
+    return nc_inq_attlen(ncid, NC_GLOBAL, name, &n) == NC_NOERR && n == 1;
+}
+
+static int getGlobalFloatAttribute(const int ncid, const char *name, float *value) {
+    return isGlobalScalarAttribute(ncid, name) ? nc_get_att_float(ncid, NC_GLOBAL, name, value) : NC_ENOTATT;
+}
+
+static int getGlobalDoubleAttribute(const int ncid, const char *name, double *value) {
+    return isGlobalScalarAttribute(ncid, name) ? nc_get_att_double(ncid, NC_GLOBAL, name, value) : NC_ENOTATT;
+}
+
+static int getGlobalIntAttribute(const int ncid, const char *name, int *value) {
+    return isGlobalScalarAttribute(ncid, name) ? nc_get_att_int(ncid, NC_GLOBAL, name, value) : NC_ENOTATT;
+}
+
+// Read rayCount x gateCount values, or rayCount values when gateCount = 0
+static int getArray(const int ncid, const int variableId, const size_t rayCount, const size_t gateCount, float *dst) {
+    int n = 0;
+    const size_t start[] = {0, 0};
+    const size_t count[] = {rayCount, gateCount};
+    if (nc_inq_varndims(ncid, variableId, &n) != NC_NOERR || n != (gateCount ? 2 : 1)) {
+        return NC_EBADDIM;
+    }
+    return nc_get_vara_float(ncid, variableId, start, count, dst);
 }
 
 RKSweep *RKSweepFileRead(const char *inputFile) {
@@ -152,6 +192,12 @@ RKSweep *RKSweepFileRead(const char *inputFile) {
             // Derive the RKMemoryAlignSize compliant capacity
             capacity = (uint32_t)ceilf((float)gateCount / RKMemoryAlignSize) * RKMemoryAlignSize;
 
+            if (rayCount == 0 || rayCount > RKMaximumRaysPerSweep || gateCount == 0) {
+                RKLog("Error. Unexpected dimensions %s x %s\n", RKIntegerToCommaStyleString(rayCount), RKIntegerToCommaStyleString(gateCount));
+                nc_close(ncid);
+                return NULL;
+            }
+
             RKLog("rayCount = %s   gateCount = %s   capacity = %s\n",
                   RKIntegerToCommaStyleString(rayCount), RKIntegerToCommaStyleString(gateCount), RKIntegerToCommaStyleString(capacity));
 
@@ -177,36 +223,36 @@ RKSweep *RKSweepFileRead(const char *inputFile) {
             ray = (RKRay *)sweep->rayBuffer;
 
             // Global attributes
-            getGlobalTextAttribute(typeName, "TypeName", ncid);
-            getGlobalTextAttribute(scanType, "ScanType", ncid);
-            getGlobalTextAttribute(sweep->header.desc.name, "radarName-value", ncid);
-            r = nc_get_att_double(ncid, NC_GLOBAL, "LatitudeDouble", &sweep->header.desc.latitude);
+            getGlobalTextAttribute(typeName, sizeof(typeName), "TypeName", ncid);
+            getGlobalTextAttribute(scanType, sizeof(scanType), "ScanType", ncid);
+            getGlobalTextAttribute(sweep->header.desc.name, sizeof(sweep->header.desc.name), "radarName-value", ncid);
+            r = getGlobalDoubleAttribute(ncid, "LatitudeDouble", &sweep->header.desc.latitude);
             if (r != NC_NOERR) {
-                r = nc_get_att_float(ncid, NC_GLOBAL, "Latitude", &fv);
+                r = getGlobalFloatAttribute(ncid, "Latitude", &fv);
                 if (r == NC_NOERR) {
                     sweep->header.desc.latitude = (double)fv;
                 }
             }
-            r = nc_get_att(ncid, NC_GLOBAL, "LongitudeDouble", &sweep->header.desc.longitude);
+            r = getGlobalDoubleAttribute(ncid, "LongitudeDouble", &sweep->header.desc.longitude);
             if (r != NC_NOERR) {
-                r = nc_get_att_float(ncid, NC_GLOBAL, "Longitude", &fv);
+                r = getGlobalFloatAttribute(ncid, "Longitude", &fv);
                 if (r == NC_NOERR) {
                     sweep->header.desc.longitude = (double)fv;
                 }
             }
-            r = nc_get_att_float(ncid, NC_GLOBAL, "Heading", &sweep->header.desc.heading);
+            r = getGlobalFloatAttribute(ncid, "Heading", &sweep->header.desc.heading);
             if (r != NC_NOERR) {
                 RKLog("No radar heading found.\n");
             }
-            r = nc_get_att_float(ncid, NC_GLOBAL, "Height", &sweep->header.desc.radarHeight);
+            r = getGlobalFloatAttribute(ncid, "Height", &sweep->header.desc.radarHeight);
             if (r != NC_NOERR) {
                 RKLog("No radar height found.\n");
             }
-            r = nc_get_att_float(ncid, NC_GLOBAL, "Elevation", &ray->header.sweepElevation);
+            r = getGlobalFloatAttribute(ncid, "Elevation", &ray->header.sweepElevation);
             if (r != NC_NOERR && sweep->header.config.startMarker & RKMarkerScanTypePPI) {
                 RKLog("Warning. No sweep elevation found.\n");
             }
-            r = nc_get_att_float(ncid, NC_GLOBAL, "Azimuth", &ray->header.sweepAzimuth);
+            r = getGlobalFloatAttribute(ncid, "Azimuth", &ray->header.sweepAzimuth);
             if (r != NC_NOERR && sweep->header.config.startMarker & RKMarkerScanTypeRHI) {
                 RKLog("Warning. No sweep azimuth found.\n");
             }
@@ -217,7 +263,7 @@ RKSweep *RKSweepFileRead(const char *inputFile) {
                 sweep->header.config.sweepAzimuth = ray->header.sweepAzimuth;
                 sweep->header.config.startMarker |= RKMarkerScanTypeRHI;
             }
-            r = nc_get_att_int(ncid, NC_GLOBAL, "PRF-value", &iv);
+            r = getGlobalIntAttribute(ncid, "PRF-value", &iv);
             if (r == NC_NOERR) {
                 if (iv == 0) {
                     RKLog("Warning. Recorded PRF = 0 Hz, assuming 1000 Hz.\n");
@@ -227,7 +273,7 @@ RKSweep *RKSweepFileRead(const char *inputFile) {
             } else {
                 RKLog("Warning. No PRF information found.\n");
             }
-            r = nc_get_att_float(ncid, NC_GLOBAL, "Nyquist_Vel-value", &fv);
+            r = getGlobalFloatAttribute(ncid, "Nyquist_Vel-value", &fv);
             if (r == NC_NOERR) {
                 sweep->header.desc.wavelength = 4.0f * fv * (RKFloat)sweep->header.config.prt[0];
                 RKLog("Radar wavelength = %.4f m\n", sweep->header.desc.wavelength);
@@ -237,8 +283,7 @@ RKSweep *RKSweepFileRead(const char *inputFile) {
             if ((r = nc_inq_varid(ncid, "Elevation", &tmpId)) != NC_NOERR) {
                 r = nc_inq_varid(ncid, "elevation", &tmpId);
             }
-            if (r == NC_NOERR) {
-                nc_get_var_float(ncid, tmpId, scratch);
+            if (r == NC_NOERR && getArray(ncid, tmpId, rayCount, 0, scratch) == NC_NOERR) {
                 fp = (float *)scratch;
                 for (j = 0; j < rayCount; j++) {
                     ray = RKGetRayFromBuffer(sweep->rayBuffer, j);
@@ -253,8 +298,7 @@ RKSweep *RKSweepFileRead(const char *inputFile) {
             if ((r = nc_inq_varid(ncid, "Azimuth", &tmpId)) != NC_NOERR) {
                 r = nc_inq_varid(ncid, "azimuth", &tmpId);
             }
-            if (r == NC_NOERR) {
-                nc_get_var_float(ncid, tmpId, scratch);
+            if (r == NC_NOERR && getArray(ncid, tmpId, rayCount, 0, scratch) == NC_NOERR) {
                 fp = (float *)scratch;
                 for (j = 0; j < rayCount; j++) {
                     ray = RKGetRayFromBuffer(sweep->rayBuffer, j);
@@ -270,8 +314,7 @@ RKSweep *RKSweepFileRead(const char *inputFile) {
                     r = nc_inq_varid(ncid, "gatewidth", &tmpId);
                 }
             }
-            if (r == NC_NOERR) {
-                nc_get_var_float(ncid, tmpId, scratch);
+            if (r == NC_NOERR && getArray(ncid, tmpId, rayCount, 0, scratch) == NC_NOERR) {
                 fp = (float *)scratch;
                 for (j = 0; j < rayCount; j++) {
                     ray = RKGetRayFromBuffer(sweep->rayBuffer, j);
@@ -288,8 +331,7 @@ RKSweep *RKSweepFileRead(const char *inputFile) {
                     r = nc_inq_varid(ncid, "beamwidth", &tmpId);
                 }
             }
-            if (r == NC_NOERR) {
-                nc_get_var_float(ncid, tmpId, scratch);
+            if (r == NC_NOERR && getArray(ncid, tmpId, rayCount, 0, scratch) == NC_NOERR) {
                 fp = (float *)scratch;
                 for (j = 0; j < rayCount; j++) {
                     ray = RKGetRayFromBuffer(sweep->rayBuffer, j);
@@ -323,13 +365,10 @@ RKSweep *RKSweepFileRead(const char *inputFile) {
             RKLog("%s not found.\n", filename);
             continue;
         }
-        productList |= products[k];
-
         // Open the file
         if ((r = nc_open(filename, NC_NOWRITE, &ncid)) != NC_NOERR) {
-            RKLog("%s Error opening file %s (%s)\n", name, inputFile, nc_strerror(r));
-            free(scratch);
-            return NULL;
+            RKLog("%s Error opening file %s (%s)\n", name, filename, nc_strerror(r));
+            continue;
         }
 
         RKLog("%s %s (*)\n", name, filename);
@@ -338,9 +377,15 @@ RKSweep *RKSweepFileRead(const char *inputFile) {
         r = nc_inq_varid(ncid, productNames[k], &tmpId);
         if (r != NC_NOERR) {
             RKLog("Base moment %s not found.\n", productNames[k]);
+            nc_close(ncid);
             continue;
         }
-        nc_get_var_float(ncid, tmpId, scratch);
+        if ((r = getArray(ncid, tmpId, rayCount, gateCount, scratch)) != NC_NOERR) {
+            RKLog("Base moment %s cannot be read (%s).\n", productNames[k], nc_strerror(r));
+            nc_close(ncid);
+            continue;
+        }
+        productList |= products[k];
         fp = (float *)scratch;
         for (j = 0; j < rayCount * gateCount; j++) {
             if (*fp == w2_missing_data || *fp == w2_range_folded) {
-- 
2.43.0


From 5ff8325d5f69b3f32fbcbf844defd69de1c0d5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:03 +0000
Subject: [PATCH 070/174] fix: the path of a sweep file may contain dots

---
 source/RKSweepFile.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/source/RKSweepFile.c b/source/RKSweepFile.c
index 4c406d6..3bd1a00 100644
--- a/source/RKSweepFile.c
+++ b/source/RKSweepFile.c
@@ -89,13 +89,10 @@ RKSweep *RKSweepFileRead(const char *inputFile) {
 
     // Find the last '.'
     char *e = NULL;
-    e = strstr(inputFile, ".");
+    e = strrchr(inputFile, '.');
     if (e == NULL) {
         e = (char *)inputFile + strlen(inputFile) - 1;
     }
-    while (*(e + 1) >= '0' && *(e + 1) <= '9') {
-        e = strstr(e + 1, ".");
-    }
     // Find the previous '-'
     char *b = e;
     while (b != inputFile && *b != '-') {
-- 
2.43.0


From c895c356cd3e8ebfbe1ebca59a1d5ce0ec9fd44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:03 +0000
Subject: [PATCH 071/174] fix: a list of more than seven product files is
 sorted without leaving the list of symbols

---
 source/RKFoundation.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKFoundation.c b/source/RKFoundation.c
index e5e82ce..fec3cf4 100644
--- a/source/RKFoundation.c
+++ b/source/RKFoundation.c
@@ -510,7 +510,7 @@ int RKListFilesWithSamePrefix(const char *filename, char list[][RKMaximumPathLen
     strcpy(desiredSymbol[k++], "P");
     strcpy(desiredSymbol[k++], "R");
     strcpy(desiredSymbol[k++], "K");
-    for (k = 0; k < count; k++) {
+    for (k = 0; k < MIN(count, 7); k++) {
         RKGetSymbolFromFilename(list[k], symbol);
         //printf("k = %d   symbol = %s\n", k, symbol);
         if (!strcmp(symbol, desiredSymbol[k])) {
-- 
2.43.0


From 23fb83d08bd1107c0e1893da82cff1744a512a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:03 +0000
Subject: [PATCH 072/174] fix: copy the name of a waveform without a warning of
 the compiler

---
 source/RKWaveform.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKWaveform.c b/source/RKWaveform.c
index 400862a..33bf613 100644
--- a/source/RKWaveform.c
+++ b/source/RKWaveform.c
@@ -1050,7 +1050,7 @@ RKWaveform *RKWaveformReadFromReference(FILE *fid) {
         }
     }
     RKWaveform *waveform = RKWaveformInitWithCountAndDepth(fileHeader.count, fileHeader.depth);
-    strncpy(waveform->name, fileHeader.name, RKNameLength - 1);
+    memcpy(waveform->name, fileHeader.name, RKNameLength - 1);
     waveform->type = fileHeader.type;
     waveform->fc = fileHeader.fc;
     waveform->fs = fileHeader.fs;
-- 
2.43.0


From 9d2beca56e466eb48a4838d36a8179340db2e0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:33 +0000
Subject: [PATCH 073/174] fix: pulses of version 5 and 6 files can be read

---
 source/RKFoundation.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKFoundation.c b/source/RKFoundation.c
index fec3cf4..b740fa5 100644
--- a/source/RKFoundation.c
+++ b/source/RKFoundation.c
@@ -1245,7 +1245,7 @@ int RKReadPulseFromFileReference(RKPulse *pulse, RKFileHeader *fileHeader, FILE
             pulse->header.n = headerV1->n;
             pulse->header.t = headerV1->t;
             pulse->header.gateCount = headerV1->gateCount;
-            pulse->header.downSampledGateCount = header->downSampledGateCount;
+            pulse->header.downSampledGateCount = headerV1->downSampledGateCount;
             pulse->header.pulseWidthSampleCount = headerV1->pulseWidthSampleCount;
             pulse->header.marker = headerV1->marker;
             pulse->header.time = headerV1->time;
-- 
2.43.0


From d51c0911d6c91e3653ece857727352061e7fa1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:33 +0000
Subject: [PATCH 074/174] fix: a recorded pulse that is larger than the buffer
 is refused

---
 source/RKFoundation.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/RKFoundation.c b/source/RKFoundation.c
index b740fa5..81aab98 100644
--- a/source/RKFoundation.c
+++ b/source/RKFoundation.c
@@ -1305,13 +1305,13 @@ int RKReadPulseFromFileReference(RKPulse *pulse, RKFileHeader *fileHeader, FILE
             RKInt16C *x = RKGetInt16CDataFromPulse(pulse, j);
             gateCount = pulse->header.gateCount;
             pulse->header.downSampledGateCount = 0;
-            readsize = fread(x, sizeof(RKInt16C), gateCount, fid);
+            readsize = gateCount > capacity ? 0 : fread(x, sizeof(RKInt16C), gateCount, fid);
         } else if (fileHeader->dataType == RKRawDataTypeAfterMatchedFilter) {
             RKComplex *x = RKGetComplexDataFromPulse(pulse, j);
             gateCount = pulse->header.downSampledGateCount;
-            readsize = fread(x, sizeof(RKComplex), gateCount, fid);
+            readsize = gateCount > capacity ? 0 : fread(x, sizeof(RKComplex), gateCount, fid);
             RKIQZ z = RKGetSplitComplexDataFromPulse(pulse, j);
-            for (i = 0; i < gateCount; i++) {
+            for (i = 0; i < readsize; i++) {
                 z.i[i] = x[i].i;
                 z.q[i] = x[i].q;
             }
-- 
2.43.0


From ba3d2feeac5627f9b00a7249889e18f29f609f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:53 +0000
Subject: [PATCH 075/174] fix: the header of a version 5 file is converted
 within its fields

---
 source/RKFileHeader.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/source/RKFileHeader.c b/source/RKFileHeader.c
index 9d115ea..2ca009b 100644
--- a/source/RKFileHeader.c
+++ b/source/RKFileHeader.c
@@ -61,14 +61,13 @@ RKFileHeader *RKFileHeaderRead(FILE *fid) {
         fileHeader->config.prt[0] = fileHeaderV1->config.prt[0];
         fileHeader->config.prt[1] = fileHeaderV1->config.prt[1];
         fileHeader->config.pw[0] = fileHeaderV1->config.pw[0];
-        fileHeader->config.pw[1] = fileHeaderV1->config.prt[1];
+        fileHeader->config.pw[1] = fileHeaderV1->config.pw[1];
         fileHeader->config.pulseGateCount = fileHeaderV1->config.pulseGateCount;
         fileHeader->config.pulseGateSize = fileHeaderV1->config.pulseGateSize;
         fileHeader->config.ringFilterGateCount = fileHeaderV1->config.pulseRingFilterGateCount;
         fileHeader->config.waveformId[0] = fileHeaderV1->config.waveformId[0];
-        memcpy(fileHeader->config.noise, fileHeaderV1->config.noise, (6 + 22 * 2 + 22 + 22 + 2) * sizeof(RKFloat));
-        strcpy(fileHeader->config.waveformName, fileHeaderV1->config.waveform);
-        strcat(fileHeader->config.waveformName, "-syn");
+        memcpy(fileHeader->config.noise, fileHeaderV1->config.noise, (6 + 4 * RKMaximumFilterCount + 2) * sizeof(RKFloat));
+        snprintf(fileHeader->config.waveformName, RKNameLength, "%.*s-syn", RKNameLength - 5, fileHeaderV1->config.waveform);
         // Initialize a waveformDecimate that matches the original config->filterAnchors
         uint32_t u32 = 0;
         for (k = 0; k < fileHeaderV1->config.filterCount; k++) {
-- 
2.43.0


From 31cf065177c1af45f78919dfb9c8f9aefc99822e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:54 +0000
Subject: [PATCH 076/174] fix: a file header with impossible sizes is refused

---
 source/RKFileHeader.c | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/source/RKFileHeader.c b/source/RKFileHeader.c
index 2ca009b..18d9f4c 100644
--- a/source/RKFileHeader.c
+++ b/source/RKFileHeader.c
@@ -69,13 +69,21 @@ RKFileHeader *RKFileHeaderRead(FILE *fid) {
         memcpy(fileHeader->config.noise, fileHeaderV1->config.noise, (6 + 4 * RKMaximumFilterCount + 2) * sizeof(RKFloat));
         snprintf(fileHeader->config.waveformName, RKNameLength, "%.*s-syn", RKNameLength - 5, fileHeaderV1->config.waveform);
         // Initialize a waveformDecimate that matches the original config->filterAnchors
-        uint32_t u32 = 0;
-        for (k = 0; k < fileHeaderV1->config.filterCount; k++) {
-            u32 += fileHeaderV1->config.filterAnchors[k].length;
+        uint64_t u64 = 0;
+        for (k = 0; k < MIN(fileHeaderV1->config.filterCount, RKMaximumFilterCount); k++) {
+            u64 += fileHeaderV1->config.filterAnchors[k].length;
+        }
+        bool valid = fileHeaderV1->config.filterCount <= RKMaximumFilterCount && u64 > 0 && u64 <= RKMaximumGateCount;
+        for (k = 0; valid && k < fileHeaderV1->config.filterCount; k++) {
+            valid = fileHeaderV1->config.filterAnchors[k].origin <= u64 - fileHeaderV1->config.filterAnchors[k].length;
+        }
+        if (!valid) {
+            RKLog("Error. The filters of this file are invalid.\n");
+            exit(EXIT_FAILURE);
         }
         // No raw (uncompressed) data prior to this built. Talk to Boonleng if you managed to, and needed to, process one
-        RKWaveform *waveform = RKWaveformInitWithCountAndDepth(1, u32);
-        strcpy(waveform->name, fileHeaderV1->config.waveform);
+        RKWaveform *waveform = RKWaveformInitWithCountAndDepth(1, (uint32_t)u64);
+        snprintf(waveform->name, RKNameLength, "%.*s", RKNameLength - 1, fileHeaderV1->config.waveform);
         waveform->fs = 0.5f * 3.0e8 / (fileHeader->config.pulseGateSize * fileHeader->desc.pulseToRayRatio);
         waveform->filterCounts[0] = fileHeaderV1->config.filterCount;
         for (k = 0; k < waveform->filterCounts[0]; k++) {
@@ -88,6 +96,10 @@ RKFileHeader *RKFileHeaderRead(FILE *fid) {
         fileHeader->config.waveformDecimate = RKWaveformCopy(waveform);
         free(fileHeaderV1);
     } else {
+        if (fileHeader->desc.pulseToRayRatio == 0) {
+            RKLog("Error. The down-sampling ratio of this file is invalid.\n");
+            exit(EXIT_FAILURE);
+        }
         RKWaveform *waveform = RKWaveformReadFromReference(fid);
         if (waveform == NULL) {
             RKLog("Error. Failed reading waveform.\n");
-- 
2.43.0


From c415686b8332b4cccd5c86a7937692a3fe3098cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:07 +0000
Subject: [PATCH 077/174] fix: command queue refuses or waits when full and
 counts under its lock

---
 headers/RadarKit/RKTypes.h |  3 ++-
 source/RKFoundation.c      | 31 ++++++++++++++++++++-----------
 2 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/headers/RadarKit/RKTypes.h b/headers/RadarKit/RKTypes.h
index 47a070d..ef609b4 100644
--- a/headers/RadarKit/RKTypes.h
+++ b/headers/RadarKit/RKTypes.h
@@ -405,7 +405,8 @@ N(RKResultProductDescriptionNotSet) \
 N(RKResultProductDimensionsNotSet) \
 N(RKResultProductStartTimeNotSet) \
 N(RKResultProductGateSizeNotSet) \
-N(RKResultNoRadar)
+N(RKResultNoRadar) \
+N(RKResultCommandQueueFull)
 
 #define N(x) x,
 enum {
diff --git a/source/RKFoundation.c b/source/RKFoundation.c
index 81aab98..696b894 100644
--- a/source/RKFoundation.c
+++ b/source/RKFoundation.c
@@ -2410,7 +2410,8 @@ RKCommandQueue *RKCommandQueueInit(const uint16_t depth, const bool nonblocking)
     memset(queue, 0, sizeof(RKCommandQueue));
     queue->depth = depth;
     queue->nonblocking = nonblocking;
-    queue->buffer = (RKCommand *)malloc(queue->depth * sizeof(RKCommand));
+    // One more slot than the depth so that the most recent withdrawal stays intact until the next one
+    queue->buffer = (RKCommand *)malloc((queue->depth + 1) * sizeof(RKCommand));
     if (queue->buffer == NULL) {
         RKLog("Error. Unable to allocate command queue.\n");
         free(queue);
@@ -2421,18 +2422,17 @@ RKCommandQueue *RKCommandQueueInit(const uint16_t depth, const bool nonblocking)
 }
 
 RKCommand *RKCommandQueuePop(RKCommandQueue *queue) {
-    if (queue->count == 0) {
+    pthread_mutex_lock(&queue->lock);
+    while (queue->count == 0) {
+        pthread_mutex_unlock(&queue->lock);
         if (queue->nonblocking) {
             return NULL;
-        } else {
-            do {
-                usleep(1000);
-            } while (queue->count == 0);
         }
+        usleep(1000);
+        pthread_mutex_lock(&queue->lock);
     }
     RKCommand *command = &queue->buffer[queue->tail];
-    queue->tail = RKNextModuloS(queue->tail, queue->depth);
-    pthread_mutex_lock(&queue->lock);
+    queue->tail = RKNextModuloS(queue->tail, queue->depth + 1);
     queue->count--;
     queue->toc++;
     pthread_mutex_unlock(&queue->lock);
@@ -2440,16 +2440,25 @@ RKCommand *RKCommandQueuePop(RKCommandQueue *queue) {
 }
 
 int RKCommandQueuePush(RKCommandQueue *queue, RKCommand *command) {
-    memcpy(&queue->buffer[queue->head], command, sizeof(RKCommand));
-    queue->head = RKNextModuloS(queue->head, queue->depth);
     pthread_mutex_lock(&queue->lock);
+    while (queue->count >= queue->depth) {
+        pthread_mutex_unlock(&queue->lock);
+        if (queue->nonblocking) {
+            return RKResultCommandQueueFull;
+        }
+        usleep(1000);
+        pthread_mutex_lock(&queue->lock);
+    }
+    memcpy(&queue->buffer[queue->head], command, sizeof(RKCommand));
+    queue->head = RKNextModuloS(queue->head, queue->depth + 1);
     queue->count++;
-    pthread_mutex_unlock(&queue->lock);
     queue->tic++;
+    pthread_mutex_unlock(&queue->lock);
     return RKResultSuccess;
 }
 
 int RKCommandQueueFree(RKCommandQueue *queue) {
+    pthread_mutex_destroy(&queue->lock);
     free(queue->buffer);
     free(queue);
     return RKResultSuccess;
-- 
2.43.0


From c5d446e49e1d15361cd362a21c70f62870485989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:37 +0000
Subject: [PATCH 078/174] fix: stopping the recorder completes the current file

---
 source/RKRawDataRecorder.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/RKRawDataRecorder.c b/source/RKRawDataRecorder.c
index 4c08143..5e8c1d3 100644
--- a/source/RKRawDataRecorder.c
+++ b/source/RKRawDataRecorder.c
@@ -277,11 +277,13 @@ static void *pulseRecorder(void *in) {
         n++;
     }
 
+    // Complete the current file
     if (engine->fd) {
+        RKRawDataRecorderCacheFlush(engine);
         close(engine->fd);
         engine->fd = 0;
-        if (engine->fileWriteCount == 0) {
-            remove(filename);
+        if (engine->fileManager) {
+            RKFileManagerAddFile(engine->fileManager, filename, RKFileTypeIQ);
         }
     }
 
-- 
2.43.0


From 3a9e07ef527e22cacf11dfd8ee62ff43004228a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:37 +0000
Subject: [PATCH 079/174] fix: recorder never misses a change of its switch

---
 source/RKRawDataRecorder.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/source/RKRawDataRecorder.c b/source/RKRawDataRecorder.c
index 5e8c1d3..9839392 100644
--- a/source/RKRawDataRecorder.c
+++ b/source/RKRawDataRecorder.c
@@ -48,7 +48,7 @@ static void *pulseRecorder(void *in) {
 
     struct timeval t0, t1;
 
-    bool record = engine->record;
+    bool record = false, wantRecord;
 
     RKPulse *pulse;
     RKConfig *config;
@@ -130,8 +130,11 @@ static void *pulseRecorder(void *in) {
         // Consider we are writing to a file at this point
         engine->state |= RKEngineStateWritingFile;
 
+        // The switch may change at any time so consider only one value for this pulse
+        wantRecord = engine->record;
+
         // Assess the configIndex, or if we reached the maximum pulse count for a file; or when user just decided to start/stop recording
-        if (j != pulse->header.configIndex || n >= engine->maximumRecordDepth || record != engine->record) {
+        if (j != pulse->header.configIndex || n >= engine->maximumRecordDepth || record != wantRecord) {
             j = pulse->header.configIndex;
             config = &engine->configBuffer[pulse->header.configIndex];
             waveform = config->waveform;
@@ -189,7 +192,7 @@ static void *pulseRecorder(void *in) {
             if (engine->verbose > 1) {
                 RKLog("%s New I/Q %s ...\n", engine->name, filename);
             }
-            if (engine->record && config->i > 1003) {
+            if (wantRecord && config->i > 1003) {
                 RKPreparePath(filename);
                 // 4-KB raw data file header
                 memcpy(&fileHeader->config, config, sizeof(RKConfig));
@@ -227,7 +230,7 @@ static void *pulseRecorder(void *in) {
         }
 
         // Pulse to write cache
-        if (engine->record && engine->fd) {
+        if (wantRecord && engine->fd) {
             if (fileHeader->dataType == RKRawDataTypeFromTransceiver) {
                 len += RKRawDataRecorderCacheWrite(engine, &pulse->header, sizeof(RKPulseHeader));
                 len += RKRawDataRecorderCacheWrite(engine, RKGetInt16CDataFromPulse(pulse, 0), pulse->header.gateCount * sizeof(RKInt16C));
@@ -273,7 +276,7 @@ static void *pulseRecorder(void *in) {
 
         // Update pulseIndex for the next watch
         k = RKNextModuloS(k, engine->radarDescription->pulseBufferDepth);
-        record = engine->record;
+        record = wantRecord;
         n++;
     }
 
-- 
2.43.0


From 34699184938d6d071334da04663b856a8247dfd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:37 +0000
Subject: [PATCH 080/174] fix: recorder started again does not record old
 pulses

---
 source/RKRawDataRecorder.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/RKRawDataRecorder.c b/source/RKRawDataRecorder.c
index 9839392..07824cf 100644
--- a/source/RKRawDataRecorder.c
+++ b/source/RKRawDataRecorder.c
@@ -50,6 +50,9 @@ static void *pulseRecorder(void *in) {
 
     bool record = false, wantRecord;
 
+    // Start from the next pulse; the ones that are already in the buffer belong to the past
+    k = *engine->pulseIndex;   // pulse index
+
     RKPulse *pulse;
     RKConfig *config;
     RKWaveform *waveform;
@@ -86,7 +89,6 @@ static void *pulseRecorder(void *in) {
     gettimeofday(&t1, NULL); t1.tv_sec -= 1;
 
     j = 0;   // config index
-    k = 0;   // pulse index
     n = 0;   // pulse sample count
     while (engine->state & RKEngineStateWantActive) {
         // The pulse
-- 
2.43.0


From 1980391967b706046d7c1cc5f52436d55c407b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:55 +0000
Subject: [PATCH 081/174] fix: recorder goes on without a file that cannot be
 opened

---
 source/RKRawDataRecorder.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/RKRawDataRecorder.c b/source/RKRawDataRecorder.c
index 07824cf..8b7dc40 100644
--- a/source/RKRawDataRecorder.c
+++ b/source/RKRawDataRecorder.c
@@ -202,6 +202,12 @@ static void *pulseRecorder(void *in) {
                 engine->fd = open(filename, O_CREAT | O_WRONLY, 0000644);
                 engine->fileWriteCount = 0;
                 engine->cacheWriteIndex = 0;
+                if (engine->fd < 0) {
+                    RKLog("%s Error. Unable to open %s for writing.\n", engine->name, filename);
+                    engine->fd = 0;
+                }
+            }
+            if (engine->fd) {
                 len = RKRawDataRecorderCacheWrite(engine, fileHeader, sizeof(RKFileHeader));
                 // 512-B wave header
                 strcpy(waveGlobalHeader->name, waveform->name);
-- 
2.43.0


From 50801f0f9709981716d80a7f1b96e5ad7936f9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:56 +0000
Subject: [PATCH 082/174] fix: recorder writes out what a short write left

---
 source/RKRawDataRecorder.c | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/source/RKRawDataRecorder.c b/source/RKRawDataRecorder.c
index 8b7dc40..5fe962b 100644
--- a/source/RKRawDataRecorder.c
+++ b/source/RKRawDataRecorder.c
@@ -430,6 +430,24 @@ char *RKRawDataRecorderStatusString(RKRawDataRecorder *engine) {
     return engine->statusBuffer[RKPreviousModuloS(engine->statusBufferIndex, RKBufferSSlotCount)];
 }
 
+// Write everything, a regular write() may take only a part of it
+static size_t RKRawDataRecorderWrite(RKRawDataRecorder *engine, const void *payload, const size_t size) {
+    size_t writtenSize = 0;
+    while (writtenSize < size) {
+        ssize_t r = write(engine->fd, (char *)payload + writtenSize, size - writtenSize);
+        if (r < 0 && errno == EINTR) {
+            continue;
+        }
+        if (r <= 0) {
+            RKLog("%s Error in write().   writtenSize = %s\n", engine->name, RKIntegerToCommaStyleString((long)writtenSize));
+            break;
+        }
+        writtenSize += r;
+    }
+    engine->fileWriteCount++;
+    return writtenSize;
+}
+
 size_t RKRawDataRecorderCacheWrite(RKRawDataRecorder *engine, const void *payload, const size_t size) {
     if (size == 0) {
         return 0;
@@ -448,16 +466,11 @@ size_t RKRawDataRecorderCacheWrite(RKRawDataRecorder *engine, const void *payloa
         lastChunkSize = engine->cacheSize - engine->cacheWriteIndex;
         memcpy(engine->cache + engine->cacheWriteIndex, payload, lastChunkSize);
         remainingSize = size - lastChunkSize;
-        writtenSize = (uint32_t)write(engine->fd, engine->cache, engine->cacheSize);
-        engine->fileWriteCount++;
-        if (writtenSize != engine->cacheSize) {
-            RKLog("%s Error in write().   writtenSize = %s\n", RKIntegerToCommaStyleString((long)writtenSize));
-        }
+        writtenSize = RKRawDataRecorderWrite(engine, engine->cache, engine->cacheSize);
         engine->cacheFlushCount++;
         engine->cacheWriteIndex = 0;
         if (remainingSize >= engine->cacheSize) {
-            writtenSize += (uint32_t)write(engine->fd, (char *)(payload + lastChunkSize), remainingSize);
-            engine->fileWriteCount++;
+            writtenSize += RKRawDataRecorderWrite(engine, (char *)(payload + lastChunkSize), remainingSize);
             return writtenSize;
         }
     }
@@ -470,8 +483,7 @@ size_t RKRawDataRecorderCacheFlush(RKRawDataRecorder *engine) {
     if (engine->cacheWriteIndex == 0) {
         return 0;
     }
-    size_t writtenSize = write(engine->fd, engine->cache, engine->cacheWriteIndex);
+    size_t writtenSize = RKRawDataRecorderWrite(engine, engine->cache, engine->cacheWriteIndex);
     engine->cacheWriteIndex = 0;
-    engine->fileWriteCount++;
     return writtenSize;
 }
-- 
2.43.0


From 828343ec33ebbb5db54d4d5187937d794f6aec96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:21 +0000
Subject: [PATCH 083/174] fix: health logger follows its switch and rotates on
 every minute

---
 source/RKHealthLogger.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/source/RKHealthLogger.c b/source/RKHealthLogger.c
index 88b113f..d2caf6f 100644
--- a/source/RKHealthLogger.c
+++ b/source/RKHealthLogger.c
@@ -27,8 +27,8 @@ static void *healthLogger(void *in) {
     char filename[RKMaximumPathLength] = "";
 
 	time_t unixTime;
-	struct tm *timeStruct;
-	int min = -1;
+	time_t min = -1;
+	bool record = false, wantRecord;
 
 	// Update the engine state
     engine->state |= RKEngineStateWantActive;
@@ -85,11 +85,14 @@ static void *healthLogger(void *in) {
         } else {
             unixTime = (time_t)atol(keyValue);
         }
-        timeStruct = gmtime(&unixTime);
-        if (min != timeStruct->tm_min) {
-            min = timeStruct->tm_min;
-            if (engine->record && engine->fid) {
+        // A new minute, or when user just decided to start / stop recording
+        wantRecord = engine->record;
+        if (min != unixTime / 60 || record != wantRecord) {
+            min = unixTime / 60;
+            record = wantRecord;
+            if (engine->fid) {
                 fclose(engine->fid);
+                engine->fid = NULL;
                 if (engine->verbose) {
                     RKLog("%s %sRecorded%s %s\n",
                           engine->name,
@@ -114,7 +117,7 @@ static void *healthLogger(void *in) {
             i += strftime(filename + i, 10, "%Y%m%d", gmtime(&unixTime));
             i += sprintf(filename + i, "/%s-", desc->filePrefix);
             strftime(filename + i, 22, "%Y%m%d-%H%M%S.json", gmtime(&unixTime));
-            if (engine->record) {
+            if (wantRecord) {
                 RKPreparePath(filename);
                 engine->fid = fopen(filename, "w");
                 if (engine->fid == NULL) {
-- 
2.43.0


From f29488ca4096712db48b97658f41677dcc707c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:21 +0000
Subject: [PATCH 084/174] fix: stopping the health logger announces the last
 file

---
 source/RKHealthLogger.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/RKHealthLogger.c b/source/RKHealthLogger.c
index d2caf6f..a731c25 100644
--- a/source/RKHealthLogger.c
+++ b/source/RKHealthLogger.c
@@ -145,6 +145,9 @@ static void *healthLogger(void *in) {
     if (engine->fid != NULL) {
         fclose(engine->fid);
         engine->fid = NULL;
+        if (engine->fileManager) {
+            RKFileManagerAddFile(engine->fileManager, filename, RKFileTypeHealth);
+        }
     }
 
     engine->state ^= RKEngineStateActive;
-- 
2.43.0


From 727e722909d8346b4feb7892ea7589b8693ce765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:21 +0000
Subject: [PATCH 085/174] fix: health logger never overwrites a log when the
 time repeats

---
 source/RKHealthLogger.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/source/RKHealthLogger.c b/source/RKHealthLogger.c
index a731c25..165b48d 100644
--- a/source/RKHealthLogger.c
+++ b/source/RKHealthLogger.c
@@ -41,8 +41,6 @@ static void *healthLogger(void *in) {
 
     engine->state |= RKEngineStateActive;
 
-    gettimeofday(&t0, NULL);
-
 	// Here comes the busy loop
 	// i  anonymous
     k = 0;   // health index
@@ -81,6 +79,7 @@ static void *healthLogger(void *in) {
         char *keyValue = RKGetValueOfKey(health->string, "Log Time");
         if (keyValue == NULL) {
             RKLog("%s Error. No log time found.\n", engine->name);
+            gettimeofday(&t0, NULL);
             unixTime = (time_t)t0.tv_sec;
         } else {
             unixTime = (time_t)atol(keyValue);
@@ -119,7 +118,7 @@ static void *healthLogger(void *in) {
             strftime(filename + i, 22, "%Y%m%d-%H%M%S.json", gmtime(&unixTime));
             if (wantRecord) {
                 RKPreparePath(filename);
-                engine->fid = fopen(filename, "w");
+                engine->fid = fopen(filename, "a");
                 if (engine->fid == NULL) {
                     RKLog("%s Error. Unable to create file for health log.\n", engine->name);
                 }
-- 
2.43.0


From 8d2be77af7e8ce383b7d6bb45b20cc3b3f65a090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:21 +0000
Subject: [PATCH 086/174] fix: health logger started again does not log old
 records

---
 source/RKHealthLogger.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/RKHealthLogger.c b/source/RKHealthLogger.c
index 165b48d..449c505 100644
--- a/source/RKHealthLogger.c
+++ b/source/RKHealthLogger.c
@@ -30,6 +30,9 @@ static void *healthLogger(void *in) {
 	time_t min = -1;
 	bool record = false, wantRecord;
 
+    // Start from the next health, the ones that are already in the buffer belong to the past
+    k = *engine->healthIndex;   // health index
+
 	// Update the engine state
     engine->state |= RKEngineStateWantActive;
     engine->state ^= RKEngineStateActivating;
@@ -43,7 +46,6 @@ static void *healthLogger(void *in) {
 
 	// Here comes the busy loop
 	// i  anonymous
-    k = 0;   // health index
     while (engine->state & RKEngineStateWantActive) {
         // Get the latest health
         health = &engine->healthBuffer[k];
-- 
2.43.0


From f932e2aeb7473b1f6366b53e1ee3001f41e9f836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:46 +0000
Subject: [PATCH 087/174] fix: health record is complete when the enum of a GPS
 reading gets shorter

---
 source/RKHealthEngine.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/RKHealthEngine.c b/source/RKHealthEngine.c
index 8d60438..dbfc417 100644
--- a/source/RKHealthEngine.c
+++ b/source/RKHealthEngine.c
@@ -216,6 +216,7 @@ static void *healthConsolidator(void *_in) {
         if (isnan(heading) || (desc->initFlags & RKInitFlagIgnoreHeading) || (desc->initFlags & RKInitFlagIgnoreGPS)) {
             // If there is also supplied GPS, replace the enum of the GPS readings to not wired
             RKReplaceEnumOfKey(string, "heading", RKStatusEnumNotWired);
+            i = (int)strlen(string);
             // Concatenate with heading values if GPS values are not reported
             i += sprintf(string + i,
                          "\"Heading Override\":{\"Value\":true,\"Enum\":0}, "
@@ -240,6 +241,7 @@ static void *healthConsolidator(void *_in) {
             // If there is also supplied GPS, replace the enum of the GPS readings to not wired
             RKReplaceEnumOfKey(string, "latitude", RKStatusEnumNotWired);
             RKReplaceEnumOfKey(string, "longitude", RKStatusEnumNotWired);
+            i = (int)strlen(string);
             // Concatenate with latitude, longitude and heading values if GPS values are not reported
             i += sprintf(string + i,
                          "\"GPS Override\":{\"Value\":true,\"Enum\":0}, "
-- 
2.43.0


From 5b35d3c83faac8cd85657aa6b825e7e699736062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:46 +0000
Subject: [PATCH 088/174] fix: health record is never written beyond its string

---
 source/RKHealthEngine.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/RKHealthEngine.c b/source/RKHealthEngine.c
index dbfc417..1594707 100644
--- a/source/RKHealthEngine.c
+++ b/source/RKHealthEngine.c
@@ -165,6 +165,12 @@ static void *healthConsolidator(void *_in) {
         for (j = 0; j < desc->healthNodeCount; j++) {
             n = indices[j];
             if (engine->healthNodes[j].active && strlen(engine->healthNodes[j].healths[n].string) > 6) {   // {"k":0} is at least 7 chars
+                if (i + strlen(engine->healthNodes[j].healths[n].string) > RKMaximumStringLength - 512) {              // Leave room for the tags below
+                    if (engine->verbose) {
+                        RKLog("%s Warning. No room for the health of node %d.\n", engine->name, j);
+                    }
+                    continue;
+                }
                 i += sprintf(string + i, "%s", engine->healthNodes[j].healths[n].string + 1);              // Ignore the first "{"
                 i -= RKStripTail(string);                                                                  // Strip away white spaces
                 i--;                                                                                       // Ignore the last "}"
-- 
2.43.0


From ad98281aaa97aebafa5604a7a890b6966bdc3327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:00 +0000
Subject: [PATCH 089/174] fix: health engine never writes into the slots of the
 nodes

---
 source/RKHealthEngine.c | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/source/RKHealthEngine.c b/source/RKHealthEngine.c
index 1594707..1eb1287 100644
--- a/source/RKHealthEngine.c
+++ b/source/RKHealthEngine.c
@@ -33,6 +33,10 @@ static void *healthConsolidator(void *_in) {
     uint32_t *indices = (uint32_t *)malloc(desc->healthNodeCount * sizeof(uint32_t));
     memset(indices, 0xFF, desc->healthNodeCount * sizeof(uint32_t));
 
+    // Old readings of the nodes that are disconnected, the slots of the nodes are theirs to fill at any time
+    RKHealth *oldHealths = (RKHealth *)malloc(desc->healthNodeCount * sizeof(RKHealth));
+    memset(oldHealths, 0, desc->healthNodeCount * sizeof(RKHealth));
+
 	// Update the engine state
 	engine->state |= RKEngineStateWantActive;
 	engine->state ^= RKEngineStateActivating;
@@ -95,12 +99,15 @@ static void *healthConsolidator(void *_in) {
         engine->state ^= RKEngineStateSleep1;
         engine->state |= RKEngineStateSleep2;
         // Wait until all the flags are ready (wait when any flag is still vacant)
+        for (j = 0; j < desc->healthNodeCount; j++) {
+            oldHealths[j].flag = RKHealthFlagVacant;
+        }
         s = 0;
         while (engine->state & RKEngineStateWantActive) {
             allTrue = true;
             for (j = 0; j < desc->healthNodeCount; j++) {
                 if (engine->healthNodes[j].active) {
-                    allTrue &= engine->healthNodes[j].healths[indices[j]].flag == RKHealthFlagReady;
+                    allTrue &= engine->healthNodes[j].healths[indices[j]].flag == RKHealthFlagReady || oldHealths[j].flag == RKHealthFlagReady;
                 }
             }
             if (allTrue) {
@@ -113,12 +120,10 @@ static void *healthConsolidator(void *_in) {
                         if (engine->healthNodes[j].active && engine->healthNodes[j].healths[indices[j]].flag != RKHealthFlagReady) {
                             RKLog("%s Replacing enum in node %d @ %d ...\n", engine->name, j, indices[j]);
                             // This node has been disconnected, duplicate the latest reading, set all enum to old
-                            n = indices[j];
-                            RKHealth *h0 = &engine->healthNodes[j].healths[n];
-                            n = RKPreviousModuloS(n, desc->healthBufferDepth);
+                            RKHealth *h0 = &oldHealths[j];
+                            n = RKPreviousModuloS(indices[j], desc->healthBufferDepth);
                             RKHealth *h1 = &engine->healthNodes[j].healths[n];
-                            // Copy over the previous health to current health, set all enums to old
-                            h0->i += desc->healthBufferDepth;
+                            // Make a copy of the previous health, set all enums to old
                             strcpy(h0->string, h1->string);
                             RKReplaceAllValuesOfKey(h0->string, "Enum", RKStatusEnumOld);
                             h0->flag = RKHealthFlagReady;
@@ -163,19 +168,25 @@ static void *healthConsolidator(void *_in) {
         // Combine all the active JSON strings
         i = sprintf(string, "{");
         for (j = 0; j < desc->healthNodeCount; j++) {
-            n = indices[j];
-            if (engine->healthNodes[j].active && strlen(engine->healthNodes[j].healths[n].string) > 6) {   // {"k":0} is at least 7 chars
-                if (i + strlen(engine->healthNodes[j].healths[n].string) > RKMaximumStringLength - 512) {              // Leave room for the tags below
+            if (!engine->healthNodes[j].active) {
+                continue;
+            }
+            RKHealth *h = &engine->healthNodes[j].healths[indices[j]];
+            if (!(h->flag & RKHealthFlagReady)) {
+                h = &oldHealths[j];
+            }
+            if (strlen(h->string) > 6) {                                                                   // {"k":0} is at least 7 chars
+                if (i + strlen(h->string) > RKMaximumStringLength - 512) {                                 // Leave room for the tags below
                     if (engine->verbose) {
                         RKLog("%s Warning. No room for the health of node %d.\n", engine->name, j);
                     }
                     continue;
                 }
-                i += sprintf(string + i, "%s", engine->healthNodes[j].healths[n].string + 1);              // Ignore the first "{"
+                i += sprintf(string + i, "%s", h->string + 1);                                             // Ignore the first "{"
                 i -= RKStripTail(string);                                                                  // Strip away white spaces
                 i--;                                                                                       // Ignore the last "}"
                 i += sprintf(string + i, ", ");                                                            // Get ready to concatenante
-                engine->healthNodes[j].healths[n].flag |= RKHealthFlagUsed;
+                h->flag |= RKHealthFlagUsed;
             }
         }
 
@@ -295,6 +306,7 @@ static void *healthConsolidator(void *_in) {
     }
 
     free(indices);
+    free(oldHealths);
 
     engine->state ^= RKEngineStateActive;
     return NULL;
-- 
2.43.0


From f25f356421673660b4f4bfe55f3067d49af83c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:55 +0000
Subject: [PATCH 090/174] fix: lock of a command queue is aligned

---
 headers/RadarKit/RKTypes.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/headers/RadarKit/RKTypes.h b/headers/RadarKit/RKTypes.h
index ef609b4..bdf7058 100644
--- a/headers/RadarKit/RKTypes.h
+++ b/headers/RadarKit/RKTypes.h
@@ -1665,6 +1665,9 @@ typedef struct rk_task {
     RKEventType          endingEvent;                                          // Ending event that indicates completion of the task
 } RKTask;
 
+#pragma pack(pop)
+
+// Not packed: a mutex must be properly aligned
 typedef struct rk_command_queue {
     uint16_t             head;                                                 // Head index (for push)
     uint16_t             tail;                                                 // Tail index (for pop)
@@ -1677,6 +1680,4 @@ typedef struct rk_command_queue {
     uint32_t             toc;                                                  // Withdrawal count
 } RKCommandQueue;
 
-#pragma pack(pop)
-
 #endif /* defined(__RadarKit_Types__) */
-- 
2.43.0


From 74194f0b1975f4fbea1b604c18dc9af666fb1fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:42 +0000
Subject: [PATCH 091/174] fix: client send resumes a partial send at the right
 place, reports errors and keeps its time limit

---
 source/RKNetwork.c | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/source/RKNetwork.c b/source/RKNetwork.c
index 2f7ccab..4424a1a 100644
--- a/source/RKNetwork.c
+++ b/source/RKNetwork.c
@@ -24,6 +24,7 @@ ssize_t RKNetworkSendPackets(int sd, ...) {
     ssize_t   sentSize = 0;
 
     int       timeout_count = 0;
+    int       result = RKResultSuccess;
 
     va_start(arg, sd);
 
@@ -32,19 +33,26 @@ ssize_t RKNetworkSendPackets(int sd, ...) {
     while (payload != NULL) {
         payloadSize = va_arg(arg, ssize_t);
         // RKLog("RKNetworkSendPackets : payloadSize = %d @ %p\n", (int)payloadSize, payload);
-        sentSize = 0;
         totalSentSize = 0;
-        while (totalSentSize < payloadSize && timeout_count++ < RKNetworkTimeoutSeconds / 10) {
-            if ((sentSize = send(sd, payload + sentSize, payloadSize - sentSize, 0)) > 0) {
+        while (totalSentSize < payloadSize) {
+            if ((sentSize = send(sd, payload + totalSentSize, payloadSize - totalSentSize, 0)) > 0) {
                 totalSentSize += sentSize;
+            } else if (sentSize < 0 && errno != EAGAIN && errno != EWOULDBLOCK && errno != EINTR) {
+                RKLog("RKNetworkSendPackets Unable to send()\n");
+                result = RKResultIncompleteSend;
+                break;
             }
             if (totalSentSize < payloadSize) {
+                if (timeout_count++ >= RKNetworkTimeoutSeconds * 10) {
+                    result = RKResultTimeout;
+                    break;
+                }
                 usleep(10000);
-            } else if (sentSize < 0) {
-                RKLog("RKNetworkSendPackets Unable to send()\n");
-                return -RKResultIncompleteSend;
             }
         }
+        if (result != RKResultSuccess) {
+            break;
+        }
         grandTotalSentSize += totalSentSize;
         //RKLog("RKNetworkSendPackets : grandTotalSentSize = %d\n", (int)grandTotalSentSize);
         payload = va_arg(arg, void *);
@@ -52,8 +60,8 @@ ssize_t RKNetworkSendPackets(int sd, ...) {
 
     va_end(arg);
 
-    if (timeout_count >= RKNetworkTimeoutSeconds / 10) {
-        return -RKResultTimeout;
+    if (result != RKResultSuccess) {
+        return -result;
     }
     return grandTotalSentSize;
 }
-- 
2.43.0


From f542c747023b735cb090b152a2da7ffaa761f4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:42 +0000
Subject: [PATCH 092/174] fix: operator send resumes a partial send at the
 right place, reports errors and releases its lock

---
 source/RKServer.c | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/source/RKServer.c b/source/RKServer.c
index 8969c81..264a839 100644
--- a/source/RKServer.c
+++ b/source/RKServer.c
@@ -745,6 +745,7 @@ ssize_t RKOperatorSendPackets(RKOperator *O, ...) {
     ssize_t   sentSize = 0;
 
     int timeout_count = 0;
+    int result = RKResultSuccess;
 
     pthread_mutex_lock(&O->lock);
 
@@ -755,19 +756,25 @@ ssize_t RKOperatorSendPackets(RKOperator *O, ...) {
     while (payload != NULL) {
         payloadSize = va_arg(arg, ssize_t);
         //printf("size %d @ %p\n", (int)payloadSize, payload);
-        sentSize = 0;
         totalSentSize = 0;
-        while (totalSentSize < payloadSize && timeout_count++ < RKSocketTimeCountOf10ms) {
-            if ((sentSize = send(O->sid, payload + sentSize, payloadSize - sentSize, 0)) > 0) {
+        while (totalSentSize < payloadSize) {
+            if ((sentSize = send(O->sid, payload + totalSentSize, payloadSize - totalSentSize, 0)) > 0) {
                 totalSentSize += sentSize;
+            } else if (sentSize < 0 && errno != EAGAIN && errno != EWOULDBLOCK && errno != EINTR) {
+                result = RKResultIncompleteSend;
+                break;
             }
             if (totalSentSize < payloadSize) {
+                if (timeout_count++ >= RKSocketTimeCountOf10ms) {
+                    result = RKResultTimeout;
+                    break;
+                }
                 usleep(1000);
-            } else if (sentSize < 0) {
-                pthread_mutex_unlock(&O->lock);
-                return RKResultIncompleteSend;
             }
         }
+        if (result != RKResultSuccess) {
+            break;
+        }
         grandTotalSentSize += totalSentSize;
         payload = va_arg(arg, void *);
     }
@@ -776,8 +783,8 @@ ssize_t RKOperatorSendPackets(RKOperator *O, ...) {
 
     pthread_mutex_unlock(&O->lock);
 
-    if (timeout_count >= RKSocketTimeCountOf10ms) {
-        return RKResultTimeout;
+    if (result != RKResultSuccess) {
+        return -result;
     }
 
     return grandTotalSentSize;
-- 
2.43.0


From 7da1aac93c117c50694d737598317fede5f829b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:42 +0000
Subject: [PATCH 093/174] fix: text messages of concurrent threads use their
 own delimiter

---
 source/RKServer.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/source/RKServer.c b/source/RKServer.c
index 264a839..7255761 100644
--- a/source/RKServer.c
+++ b/source/RKServer.c
@@ -795,15 +795,19 @@ ssize_t RKOperatorSendString(RKOperator *O, const char *string) {
 }
 
 ssize_t RKOperatorSendDelimitedString(RKOperator *O, const char *string) {
-    O->delimString.type = RKNetworkPacketTypePlainText;
-    O->delimString.size = (uint32_t)strlen(string);
-    return RKOperatorSendPackets(O, &O->delimString, sizeof(RKNetDelimiter), string, O->delimString.size, NULL);
+    // A copy for this message, other threads may be sending through the same operator
+    RKNetDelimiter delimiter = O->delimString;
+    delimiter.type = RKNetworkPacketTypePlainText;
+    delimiter.size = (uint32_t)strlen(string);
+    return RKOperatorSendPackets(O, &delimiter, sizeof(RKNetDelimiter), string, delimiter.size, NULL);
 }
 
 ssize_t RKOperatorSendCommandResponse(RKOperator *O, const char *string) {
-    O->delimString.type = RKNetworkPacketTypeCommandResponse;
-    O->delimString.size = (uint32_t)strlen(string);
-    return RKOperatorSendPackets(O, &O->delimString, sizeof(RKNetDelimiter), string, O->delimString.size, NULL);
+    // A copy for this message, other threads may be sending through the same operator
+    RKNetDelimiter delimiter = O->delimString;
+    delimiter.type = RKNetworkPacketTypeCommandResponse;
+    delimiter.size = (uint32_t)strlen(string);
+    return RKOperatorSendPackets(O, &delimiter, sizeof(RKNetDelimiter), string, delimiter.size, NULL);
 }
 
 ssize_t RKOperatorSendBeacon(RKOperator *O) {
-- 
2.43.0


From 6536ddfa7f1aadb1826795c9e21829aa892d015b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:40 +0000
Subject: [PATCH 094/174] fix: client takes the end of a connection for what it
 is, whatever errno says

---
 source/RKClient.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/RKClient.c b/source/RKClient.c
index af1d8d2..28816dd 100644
--- a/source/RKClient.c
+++ b/source/RKClient.c
@@ -233,7 +233,7 @@ void *theClient(void *in) {
                                 } else {
                                     usleep(10000);
                                 }
-                            } else if (errno != EAGAIN) {
+                            } else if (r == 0 || (errno != EAGAIN && errno != EINTR)) {
                                 if (C->verbose > 1) {
                                     RKLog("%s Error. RKMessageFormatFixedBlock   r=%d  k=%d  errno=%d (%s)  %d\n",
                                           C->name, r, k, errno, RKErrnoString(errno), readCount);
@@ -279,7 +279,7 @@ void *theClient(void *in) {
                                 } else {
                                     usleep(10000);
                                 }
-                            } else if (errno != EAGAIN) {
+                            } else if (r == 0 || (errno != EAGAIN && errno != EINTR)) {
                                 if (C->verbose > 1) {
                                     RKLog("%s Error. RKMessageFormatFixedHeaderVariableBlock:1  r = %d  k = %d  errno = %d (%s)\n",
                                           C->name, r, k, errno, RKErrnoString(errno));
@@ -337,7 +337,7 @@ void *theClient(void *in) {
                                 } else {
                                     usleep(10000);
                                 }
-                            } else if (errno != EAGAIN) {
+                            } else if (r == 0 || (errno != EAGAIN && errno != EINTR)) {
                                 RKLog("%s Error. PCMessageFormatFixedHeaderVariableBlock:2  size=%d   r=%d  k=%d  errno=%d (%s)\n",
                                       C->name, C->netDelimiter.size, r, k, errno, RKErrnoString(errno));
                                 readCount = C->timeoutSeconds * 1000;
-- 
2.43.0


From f028f47f077768e620779a7de9b2c2d654c5b791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:40 +0000
Subject: [PATCH 095/174] fix: client never delivers an incomplete payload, its
 time limit is about a peer that stalls

---
 source/RKClient.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/source/RKClient.c b/source/RKClient.c
index 28816dd..fee15f8 100644
--- a/source/RKClient.c
+++ b/source/RKClient.c
@@ -228,6 +228,7 @@ void *theClient(void *in) {
                         while (readCount++ < C->timeoutSeconds * 100) {
                             if ((r = (int)read(C->sd, buf + k, C->blockLength - k)) > 0) {
                                 k += r;
+                                readCount = 0;
                                 if (k >= C->blockLength) {
                                     break;
                                 } else {
@@ -252,7 +253,7 @@ void *theClient(void *in) {
                                 RKLog("... errno = %d ...\n", errno);
                             }
                         }
-                        if (readCount >= C->timeoutSeconds * 100) {
+                        if (k < C->blockLength) {
                             if (C->verbose > 1) {
                                 RKLog("%s Not a proper frame.  timeoutCount = %d  errno = %d\n", C->name, readCount, errno);
                             }
@@ -270,6 +271,7 @@ void *theClient(void *in) {
                             if ((r = (int)read(C->sd, delimiter + k, sizeof(RKNetDelimiter) - k)) > 0) {
                                 if (r > 0) {
                                     k += r;
+                                    readCount = 0;
                                     if (k == sizeof(RKNetDelimiter)) {
                                         break;
                                     } else if (k > sizeof(RKNetDelimiter)) {
@@ -328,6 +330,7 @@ void *theClient(void *in) {
                                 #endif
                                 if (r > 0) {
                                     k += r;
+                                    readCount = 0;
                                     if (k == C->netDelimiter.size) {
                                         break;
                                     } else if (k > C->netDelimiter.size) {
@@ -360,7 +363,7 @@ void *theClient(void *in) {
                         #endif
                         // Add a NULL character to the end of payload
                         cbuf[k] = '\0';
-                        if (readCount >= C->timeoutSeconds * 1000) {
+                        if (k != C->netDelimiter.size) {
                             break;
                         }
                         readOkay = true;
-- 
2.43.0


From e31273bb0fcd66dba0ee8d35fdd58bf71d3e8a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:40 +0000
Subject: [PATCH 096/174] fix: client buffer has room for the end of a payload
 of the maximum size

---
 source/RKClient.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKClient.c b/source/RKClient.c
index fee15f8..8818995 100644
--- a/source/RKClient.c
+++ b/source/RKClient.c
@@ -33,7 +33,7 @@ void *theClient(void *in) {
 
     FILE *fid = NULL;
 
-    void *buf = (void *)malloc(RKMaximumPacketSize);
+    void *buf = (void *)malloc(RKMaximumPacketSize + 1);
     if (buf == NULL) {
         RKLog("Error. Unable to allocate space for a buffer.\n");
         return (void *)RKResultErrorCreatingOperatorRoutine;
-- 
2.43.0


From 4ec4b9e39bda3ad91d99cfefc5a80c49407c606c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:40 +0000
Subject: [PATCH 097/174] fix: client delivers every line once and complete

---
 source/RKClient.c | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/source/RKClient.c b/source/RKClient.c
index 8818995..23e5fb8 100644
--- a/source/RKClient.c
+++ b/source/RKClient.c
@@ -31,8 +31,6 @@ void *theClient(void *in) {
 
     C->state = RKClientStateCreating;
 
-    FILE *fid = NULL;
-
     void *buf = (void *)malloc(RKMaximumPacketSize + 1);
     if (buf == NULL) {
         RKLog("Error. Unable to allocate space for a buffer.\n");
@@ -149,7 +147,6 @@ void *theClient(void *in) {
 
         // Server is almost ready to receive (could still be in EINPROGRESS, then select() -> 0)
         if (C->init) {
-            fid = NULL;
             FD_ZERO(&C->wfd);
             FD_ZERO(&C->efd);
             FD_SET(C->sd, &C->wfd);
@@ -372,16 +369,23 @@ void *theClient(void *in) {
                     case RKNetworkMessageFormatNewLine:
                     default:
                         
-                        if (fid == NULL) {
-                            fid = fdopen(C->sd, "r");
-                            if (fid < 0) {
-                                RKLog("%s Error. Unable to open a file descriptor for socket.\n", C->name);
-                                return (void *)-1;
+                        // Bytes beyond the line stay in the socket, where select() sees them
+                        k = 0;
+                        readCount = 0;
+                        while (readCount++ < C->timeoutSeconds * 100) {
+                            if ((r = (int)read(C->sd, cbuf + k, 1)) > 0) {
+                                readCount = 0;
+                                if (cbuf[k++] == '\n' || k == RKMaximumPacketSize - 1) {
+                                    readOkay = true;
+                                    break;
+                                }
+                            } else if (r == 0 || (errno != EAGAIN && errno != EINTR)) {
+                                break;
+                            } else {
+                                usleep(10000);
                             }
                         }
-                        if (fgets(buf, RKMaximumPacketSize, fid) != NULL) {
-                            readOkay = true;
-                        }
+                        cbuf[k] = '\0';
                         break;
                 } // switch (C->format) ...
 
@@ -395,7 +399,6 @@ void *theClient(void *in) {
                     }
                     pthread_mutex_unlock(&C->lock);
                     close(C->sd);
-                    fid = NULL;
                     continue;
                 } else {
                     pthread_mutex_lock(&C->lock);
-- 
2.43.0


From f30294a14423f8ec229401c4576c3a8a1b19634f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:40 +0000
Subject: [PATCH 098/174] fix: client closes its connection however it ends

---
 source/RKClient.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKClient.c b/source/RKClient.c
index 23e5fb8..ac82afd 100644
--- a/source/RKClient.c
+++ b/source/RKClient.c
@@ -398,7 +398,6 @@ void *theClient(void *in) {
                         C->state = RKClientStateReconnecting;
                     }
                     pthread_mutex_unlock(&C->lock);
-                    close(C->sd);
                     continue;
                 } else {
                     pthread_mutex_lock(&C->lock);
@@ -450,6 +449,7 @@ void *theClient(void *in) {
                 break;
             } // if (r == 0) ...
         }
+        close(C->sd);
 
         // Wait a while before trying to reconnect
         k = 31;
-- 
2.43.0


From a4131b97ed7a31216742247aff419761cbddc23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:40 +0000
Subject: [PATCH 099/174] fix: a client can be stopped at any time

---
 source/RKClient.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/source/RKClient.c b/source/RKClient.c
index ac82afd..6b7c07c 100644
--- a/source/RKClient.c
+++ b/source/RKClient.c
@@ -29,8 +29,6 @@ void *theClient(void *in) {
     struct timeval previousBeaconTime = {0, 0};
     bool readOkay;
 
-    C->state = RKClientStateCreating;
-
     void *buf = (void *)malloc(RKMaximumPacketSize + 1);
     if (buf == NULL) {
         RKLog("Error. Unable to allocate space for a buffer.\n");
@@ -50,7 +48,12 @@ void *theClient(void *in) {
     // Here comes the infinite loop until being stopped
     while (C->state < RKClientStateDisconnecting) {
 
-        C->state = RKClientStateResolvingIP;
+        // Not when being stopped in the meantime
+        pthread_mutex_lock(&C->lock);
+        if (C->state < RKClientStateDisconnecting) {
+            C->state = RKClientStateResolvingIP;
+        }
+        pthread_mutex_unlock(&C->lock);
 
         // Resolve hostname to IP address
         if (C->verbose > 1) {
@@ -557,6 +560,7 @@ void RKClientSetCloseHandler(RKClient *C, int (*routine)(RKClient *)) {
 #pragma mark - Interactions
 
 void RKClientStart(RKClient *C, const bool waitForConnection) {
+    C->state = RKClientStateCreating;
     pthread_mutex_init(&C->lock, NULL);
     pthread_attr_init(&C->threadAttributes);
     if (pthread_create(&C->threadId, &C->threadAttributes, theClient, C)) {
@@ -576,7 +580,7 @@ void RKClientStart(RKClient *C, const bool waitForConnection) {
 }
 
 void RKClientStop(RKClient *C) {
-    if (C->state > RKClientStateCreating && C->state < RKClientStateDisconnecting) {
+    if (C->state >= RKClientStateCreating && C->state < RKClientStateDisconnecting) {
         RKLog("%s Disconnecting ...\n", C->name);
         pthread_mutex_lock(&C->lock);
         C->state = RKClientStateDisconnecting;
-- 
2.43.0


From cf1fb8b1e27faa55525e7da657fbe12949ccb1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:22 +0000
Subject: [PATCH 100/174] fix: server takes every command line as it comes,
 none waits for the next bytes

---
 source/RKServer.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/RKServer.c b/source/RKServer.c
index 7255761..b33cce4 100644
--- a/source/RKServer.c
+++ b/source/RKServer.c
@@ -191,6 +191,8 @@ void *RKOperatorRoutine(void *in) {
         RKLog("%s unable to get a file descriptor fro socket descriptor.\n", M->name);
         return (void *)RKResultSDToFDError;
     }
+    // No read ahead, so that select() sees the lines that follow and payloads remain in the socket
+    setvbuf(fp, NULL, _IONBF, 0);
 
     // Run loop for the read/write
     while (M->state == RKServerStateActive && O->state == RKOperatorStateActive) {
-- 
2.43.0


From f74ee745db342e216549c4d8da29459a6ce3cb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:22 +0000
Subject: [PATCH 101/174] fix: server never overwrites a command that waits or
 is being executed

---
 source/RKServer.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/RKServer.c b/source/RKServer.c
index b33cce4..64ae949 100644
--- a/source/RKServer.c
+++ b/source/RKServer.c
@@ -250,6 +250,10 @@ void *RKOperatorRoutine(void *in) {
                 // Exceptions
                 RKLog("%s %s Encountered an exception error.\n", M->name, O->name);
                 break;
+            } else if (FD_ISSET(O->sid, &rfd) && RKNextModuloS(O->commandIndexWrite, RKServerBufferDepth) == O->commandIndexRead) {
+                // All slots are taken, the command stays in the socket until one is free
+                gettimeofday(&latestReadTime, NULL);
+                usleep(1000);
             } else if (FD_ISSET(O->sid, &rfd)) {
                 // Ready to read (command)
                 gettimeofday(&latestReadTime, NULL);
-- 
2.43.0


From dc2974cfd09832d7868e952ba7d02fcbe212cbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:22 +0000
Subject: [PATCH 102/174] fix: server executes the commands that a client sent
 before it disconnected

---
 source/RKServer.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/RKServer.c b/source/RKServer.c
index 64ae949..dddd9d0 100644
--- a/source/RKServer.c
+++ b/source/RKServer.c
@@ -259,7 +259,10 @@ void *RKOperatorRoutine(void *in) {
                 gettimeofday(&latestReadTime, NULL);
                 str = O->commands[O->commandIndexWrite];
                 if (fgets(str, RKMaximumCommandLength - 1, fp) == NULL) {
-                    // When the socket has been disconnected by the client
+                    // When the socket has been disconnected by the client, after the commands it sent
+                    while (O->commandIndexRead != O->commandIndexWrite && M->state == RKServerStateActive && O->state == RKOperatorStateActive) {
+                        usleep(10000);
+                    }
                     O->cmd = NULL;
                     RKLog("%s %s Client disconnected.\n", M->name, O->name);
                     if (M->t != NULL) {
-- 
2.43.0


From 43867a77441018f509f601ac6c01c5a99012ba95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:22 +0000
Subject: [PATCH 103/174] fix: server closes the connection of an operator only
 once

---
 headers/RadarKit/RKServer.h | 1 +
 source/RKServer.c           | 8 ++++++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/headers/RadarKit/RKServer.h b/headers/RadarKit/RKServer.h
index a08fe7b..13d118e 100644
--- a/headers/RadarKit/RKServer.h
+++ b/headers/RadarKit/RKServer.h
@@ -76,6 +76,7 @@ struct rk_operator  {
     int              iid;                                  // Instant identifier
     int              timeoutSeconds;                       // Timeout in seconds
     int              sid;                                  // Socket identifier of the client
+    FILE             *fp;                                  // Stream of the socket for reading lines
     RKOperatorState  state;                                // Connection state
     pthread_t        tidRead;                              // Thread ID of the operator ingest
     pthread_t        tidExecute;                           // Thread ID of the operator execution
diff --git a/source/RKServer.c b/source/RKServer.c
index dddd9d0..7d1cd52 100644
--- a/source/RKServer.c
+++ b/source/RKServer.c
@@ -187,6 +187,7 @@ void *RKOperatorRoutine(void *in) {
 
     // Get a file descriptor for get line
     fp = fdopen(O->sid, "r");
+    O->fp = fp;
     if (fp == NULL) {
         RKLog("%s unable to get a file descriptor fro socket descriptor.\n", M->name);
         return (void *)RKResultSDToFDError;
@@ -305,7 +306,6 @@ void *RKOperatorRoutine(void *in) {
 
     pthread_join(O->tidExecute, NULL);
     pthread_mutex_destroy(&O->lock);
-    fclose(fp);
 
     O->state = RKOperatorStateHungUp;
 
@@ -407,7 +407,11 @@ void RKOperatorFree(RKOperator *O) {
     const int k = O->iid;
 
     pthread_join(O->tidRead, NULL);
-    close(O->sid);
+    if (O->fp) {
+        fclose(O->fp);
+    } else {
+        close(O->sid);
+    }
     free(O);
 
     M->busy[k] = false;
-- 
2.43.0


From add260afff227f10129010de522532bb118b3952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:22 +0000
Subject: [PATCH 104/174] fix: stopping a server ends its operators and
 releases its port

---
 source/RKServer.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/source/RKServer.c b/source/RKServer.c
index 7d1cd52..a4a9784 100644
--- a/source/RKServer.c
+++ b/source/RKServer.c
@@ -140,6 +140,16 @@ void *RKServerRoutine(void *in) {
         RKLog("%s Returning ...\n", M->name);
     }
 
+    // Operators use the server, they must be gone before it is
+    M->state = RKServerStateClosing;
+    for (k = 0; k < M->maxClient; k++) {
+        if (M->operators[k] != NULL) {
+            shutdown(M->operators[k]->sid, SHUT_RD);
+            RKOperatorFree(M->operators[k]);
+        }
+    }
+    close(M->sd);
+
     M->state = RKServerStateFree;
 
     return NULL;
-- 
2.43.0


From 2073aeab4d257431c2fd53d033cef8c4c9b34bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:22 +0000
Subject: [PATCH 105/174] fix: server never takes an incomplete payload from a
 client for a complete one

---
 source/RKServer.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/source/RKServer.c b/source/RKServer.c
index a4a9784..c858bb5 100644
--- a/source/RKServer.c
+++ b/source/RKServer.c
@@ -628,6 +628,7 @@ ssize_t RKServerReceiveUserPayload(RKOperator *O, void *buffer, RKNetworkMessage
                 if ((r = read(O->sid, delimiter + k, sizeof(RKNetDelimiter) - k)) > 0) {
                     if (r) {
                         k += r;
+                        readCount = 0;
                         if (k == sizeof(RKNetDelimiter)) {
                             break;
                         } else if (k > sizeof(RKNetDelimiter)) {
@@ -637,7 +638,7 @@ ssize_t RKServerReceiveUserPayload(RKOperator *O, void *buffer, RKNetworkMessage
                     } else {
                         usleep(10000);
                     }
-                } else if (errno != EAGAIN) {
+                } else if (r == 0 || (errno != EAGAIN && errno != EINTR)) {
                     RKLog("%s %s Error. RKMessageFormatFixedHeaderVariableBlock   r = %d   k = %d   errno = %d (%s)\n",
                               M->name, O->name, r, k, errno, RKErrnoString(errno));
                     break;
@@ -657,6 +658,7 @@ ssize_t RKServerReceiveUserPayload(RKOperator *O, void *buffer, RKNetworkMessage
                 if (M->verbose > 1) {
                     RKLog("%s netDelimiter.size = 0\n", M->name);
                 }
+                k = 0;
                 readOkay = true;
                 break;
             } else if (delimiter->size > RKMaximumPacketSize) {
@@ -671,12 +673,13 @@ ssize_t RKServerReceiveUserPayload(RKOperator *O, void *buffer, RKNetworkMessage
             while (readCount++ < M->timeoutSeconds * 100) {
                 if ((r = (int)read(O->sid, buffer + k, delimiter->size - k)) > 0) {
                     k += r;
+                    readCount = 0;
                     if (k >= delimiter->size) {
                         break;
                     } else {
                         usleep(10000);
                     }
-                } else if (errno != EAGAIN) {
+                } else if (r == 0 || (errno != EAGAIN && errno != EINTR)) {
                     if (M->verbose > 1) {
                         RKLog("%s Error. RKMessageFormatFixedBlock   r=%d  k=%d  errno=%d (%s)  %d\n",
                               O->name, r, k, errno, RKErrnoString(errno), readCount);
@@ -690,7 +693,7 @@ ssize_t RKServerReceiveUserPayload(RKOperator *O, void *buffer, RKNetworkMessage
                     RKLog("... errno = %d ...\n", errno);
                 }
             }
-            if (readCount >= O->timeoutSeconds * 100) {
+            if (k < delimiter->size) {
                 if (M->verbose > 1) {
                     RKLog("%s Not a proper frame.  timeoutCount = %d  errno = %d\n", O->name, readCount, errno);
                 }
@@ -708,12 +711,13 @@ ssize_t RKServerReceiveUserPayload(RKOperator *O, void *buffer, RKNetworkMessage
             while (readCount++ < M->timeoutSeconds * 100) {
                 if ((r = (int)read(O->sid, buffer + k, blockLength - k)) > 0) {
                     k += r;
+                    readCount = 0;
                     if (k >= blockLength) {
                         break;
                     } else {
                         usleep(10000);
                     }
-                } else if (errno != EAGAIN) {
+                } else if (r == 0 || (errno != EAGAIN && errno != EINTR)) {
                     if (M->verbose > 1) {
                         RKLog("%s Error. RKMessageFormatFixedBlock   r=%d  k=%d  errno=%d (%s)  %d\n",
                               O->name, r, k, errno, RKErrnoString(errno), readCount);
@@ -727,7 +731,7 @@ ssize_t RKServerReceiveUserPayload(RKOperator *O, void *buffer, RKNetworkMessage
                     RKLog("... errno = %d ...\n", errno);
                 }
             }
-            if (readCount >= O->timeoutSeconds * 100) {
+            if (k < blockLength) {
                 if (M->verbose > 1) {
                     RKLog("%s Not a proper frame.  timeoutCount = %d  errno = %d\n", O->name, readCount, errno);
                 }
-- 
2.43.0


From dc022abdc6447e7db48a55431f6e1f7a91bc7f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:27 +0000
Subject: [PATCH 106/174] fix: server puts the pieces of a header that arrives
 in pieces at the right place

---
 source/RKServer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKServer.c b/source/RKServer.c
index c858bb5..ebb72a5 100644
--- a/source/RKServer.c
+++ b/source/RKServer.c
@@ -625,7 +625,7 @@ ssize_t RKServerReceiveUserPayload(RKOperator *O, void *buffer, RKNetworkMessage
             k = 0;
             readCount = 0;
             while (readCount++ < O->timeoutSeconds * 100) {
-                if ((r = read(O->sid, delimiter + k, sizeof(RKNetDelimiter) - k)) > 0) {
+                if ((r = read(O->sid, (void *)delimiter + k, sizeof(RKNetDelimiter) - k)) > 0) {
                     if (r) {
                         k += r;
                         readCount = 0;
-- 
2.43.0


From 78d62a017a77c9db024df1c96be3e075298b6013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:27 +0000
Subject: [PATCH 107/174] fix: command is not taken away from the handler that
 executes it when a client disconnects

---
 source/RKServer.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/source/RKServer.c b/source/RKServer.c
index ebb72a5..71cc4b9 100644
--- a/source/RKServer.c
+++ b/source/RKServer.c
@@ -274,7 +274,6 @@ void *RKOperatorRoutine(void *in) {
                     while (O->commandIndexRead != O->commandIndexWrite && M->state == RKServerStateActive && O->state == RKOperatorStateActive) {
                         usleep(10000);
                     }
-                    O->cmd = NULL;
                     RKLog("%s %s Client disconnected.\n", M->name, O->name);
                     if (M->t != NULL) {
                         M->t(O);
-- 
2.43.0


From 41cc9aecb6c0d60bce12917c708b2ca5bca1cb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:59 +0000
Subject: [PATCH 108/174] fix: file manager never removes a folder that still
 holds something

---
 source/RKFileManager.c | 27 ++++++---------------------
 1 file changed, 6 insertions(+), 21 deletions(-)

diff --git a/source/RKFileManager.c b/source/RKFileManager.c
index e6f35a8..226b54a 100644
--- a/source/RKFileManager.c
+++ b/source/RKFileManager.c
@@ -137,9 +137,8 @@ static bool isFolderEmpty(const char *path) {
 }
 
 static void refreshFileList(RKFileRemover *me) {
-    int i, j, k;
+    int j, k;
     struct stat fileStat;
-    char command[RKMaximumPathLength + 8];
     char string[RKMaximumStringLength];
     char format[32];
 
@@ -187,15 +186,9 @@ static void refreshFileList(RKFileRemover *me) {
             return;
         } else if (count == 0) {
             RKLog(">%s Removing %s ...\n", me->name, string);
-            i = snprintf(command, RKMaximumCommandLength, "rm -rf %s", string);
-            if (i < 0) {
-                RKLog("%s Error. Failed generating system command.\n", me->name);
-                RKLog("%s Error. path = %s.\n", me->name, string);
-                break;
-            }
-            i = system(command);
-            if (i) {
-                RKLog("Error. system(%s) -> %d   errno = %d\n", command, i, errno);
+            // Fails if the folder still holds something that is not managed here, which must be kept
+            if (rmdir(string)) {
+                RKLog("%s Info. Keeping %s   errno = %d\n", me->name, string, errno);
             }
         } else if (count == me->capacity - me->count) {
             RKLog("%s Info. At capacity. Suggest keeping less data on main host.\n", me->name);
@@ -271,7 +264,6 @@ static void *fileRemover(void *in) {
     const int c = me->id;
 
     char path[RKMaximumPathLength + 256];
-    char command[RKMaximumPathLength];
     char parentFolder[RKFileManagerFilenameLength] = "";
     struct timeval time = {0, 0};
 
@@ -408,15 +400,8 @@ static void *fileRemover(void *in) {
                 sprintf(path, "%s/%s", me->path, parentFolder);
                 if (isFolderEmpty(path)) {
                     RKLog("%s Removing folder %s that is empty ...\n", me->name, path);
-                    k = snprintf(command, RKMaximumCommandLength, "rm -rf %s", path);
-                    if (k < 0) {
-                        RKLog("%s Error. Failed generating system command.\n", me->name);
-                        RKLog("%s Error. path = %s.\n", me->name, path);
-                        break;
-                    }
-                    k = system(command);
-                    if (k) {
-                        RKLog("Error. system(%s) -> %d   errno = %d\n", command, k, errno);
+                    if (rmdir(path)) {
+                        RKLog("%s Info. Keeping %s   errno = %d\n", me->name, path, errno);
                     }
                 }
                 RKLog("%s New parentFolder = %s -> %s\n", me->name, parentFolder, folders[indexedStats[me->index].folderId]);
-- 
2.43.0


From 05d8f33565d4751e79550d6d2f3ad4ab4aad4248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:59 +0000
Subject: [PATCH 109/174] fix: file manager derives the time of a file from its
 name alone

---
 source/RKFileManager.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/RKFileManager.c b/source/RKFileManager.c
index 226b54a..429531e 100644
--- a/source/RKFileManager.c
+++ b/source/RKFileManager.c
@@ -61,6 +61,7 @@ static time_t timeFromFilename(const char *filename) {
         return 0;
     }
     struct tm tm;
+    memset(&tm, 0, sizeof(struct tm));
     strptime(yyyymmdd, "%Y%m%d-%H%M%S", &tm);
     return mktime(&tm);
 }
-- 
2.43.0


From 1aab08d6dc404307ccd13288663ef13f75cf765b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:59 +0000
Subject: [PATCH 110/174] fix: file manager refuses a file that is not in its
 folder before it changes its list, and releases the lock

---
 source/RKFileManager.c | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/source/RKFileManager.c b/source/RKFileManager.c
index 429531e..ad89ee3 100644
--- a/source/RKFileManager.c
+++ b/source/RKFileManager.c
@@ -750,10 +750,23 @@ int RKFileManagerAddFile(RKFileManager *engine, const char *filename, RKFileType
         return RKResultEngineNotActive;
     }
 
+    // [me->path]/YYYYMMDD/RK-YYYYMMDD-...
+    struct stat fileStat;
+    const size_t length = strlen(me->path);
+    char *lastPart = strrchr(filename, '/');
+    if (strncmp(me->path, filename, length) || filename[length] != '/' || lastPart == filename + length) {
+        RKLog("%s File %s does not belong here (%s).\n", engine->name, filename, me->path);
+        return RKResultFileManagerInconsistentFolder;
+    }
+
     pthread_mutex_lock(&engine->mutex);
 
-    struct stat fileStat;
-    stat(filename, &fileStat);
+    // The remover may have removed it already
+    if (stat(filename, &fileStat)) {
+        RKLog("%s File %s does not exist.\n", engine->name, filename);
+        pthread_mutex_unlock(&engine->mutex);
+        return RKResultFileManagerInconsistentFolder;
+    }
 
     gettimeofday(&me->latestTime, NULL);
 
@@ -772,7 +785,6 @@ int RKFileManagerAddFile(RKFileManager *engine, const char *filename, RKFileType
     uint32_t k = me->count;
 
     // Extract out the date portion
-    char *lastPart = strrchr(filename, '/');
     if (lastPart) {
         if (strlen(lastPart) > RKFileManagerFilenameLength - 1) {
             RKLog("%s Error. I could crash here.\n", me->name);
@@ -790,16 +802,9 @@ int RKFileManagerAddFile(RKFileManager *engine, const char *filename, RKFileType
         strncpy(filenames[k], filename, RKFileManagerFilenameLength - 1);
     }
 
-    if (strncmp(me->path, filename, strlen(me->path))) {
-        RKLog("%s File %s does not belong here (%s).\n", engine->name, filename, me->path);
-        return RKResultFileManagerInconsistentFolder;
-    }
-
-    // [me->path]/YYYYMMDD/RK-YYYYMMDD-...
-
     int folderId = 0;
     char *folder = engine->scratch;
-    strcpy(folder, filename + strlen(me->path) + 1);
+    strcpy(folder, filename + length + 1);
     char *e = strrchr(folder, '/');
     *e = '\0';
     if (strlen(folder) > RKFileManagerFilenameLength - 1) {
-- 
2.43.0


From 0803cb1991872670bf1aabdfd935233ec3590ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:59 +0000
Subject: [PATCH 111/174] fix: file manager neither overwrites entries still to
 be removed nor runs past the end of its lists

---
 source/RKFileManager.c | 44 +++++++++++++++++++++++++++---------------
 1 file changed, 28 insertions(+), 16 deletions(-)

diff --git a/source/RKFileManager.c b/source/RKFileManager.c
index ad89ee3..614af6c 100644
--- a/source/RKFileManager.c
+++ b/source/RKFileManager.c
@@ -8,7 +8,7 @@
 
 #include <RadarKit/RKFileManager.h>
 
-#define RKFileManagerFolderListCapacity      60
+#define RKFileManagerFolderListCapacity      3660
 #define RKFileManagerLogFileListCapacity     1000
 
 // The way RadarKit names the files should be relatively short:
@@ -372,7 +372,7 @@ static void *fileRemover(void *in) {
         }
 
         // Removing files
-        while (me->usage > me->limit) {
+        while (me->usage > me->limit && me->index != me->count) {
             // Build the complete path from various components
             sprintf(path, "%s/%s/%s", me->path, folders[indexedStats[me->index].folderId], filenames[indexedStats[me->index].index]);
             if (engine->verbose) {
@@ -411,18 +411,17 @@ static void *fileRemover(void *in) {
 
             // Update the index for next check or refresh it entirely if there are too many files
             me->index++;
-            if (me->index == me->capacity) {
+            if (me->index == me->capacity && me->count < me->capacity) {
                 me->index = 0;
-                if (me->reusable) {
-                    if (engine->verbose) {
-                        RKLog("%s Reusable file list rotated to 0.\n", me->name);
-                    }
-                } else {
-                    if (engine->verbose) {
-                        RKLog("%s Refreshing file list ...\n", me->name);
-                    }
-                    refreshFileList(me);
+                if (engine->verbose) {
+                    RKLog("%s Reusable file list rotated to 0.\n", me->name);
+                }
+            }
+            if (me->index == me->count && !me->reusable) {
+                if (engine->verbose) {
+                    RKLog("%s Refreshing file list ...\n", me->name);
                 }
+                refreshFileList(me);
             }
         }
 
@@ -784,6 +783,19 @@ int RKFileManagerAddFile(RKFileManager *engine, const char *filename, RKFileType
     // Copy over the filename and stats to the internal buffer
     uint32_t k = me->count;
 
+    // The previous entry, the list is empty if there is none left to remove
+    const uint32_t p = RKPreviousModuloS(k, me->capacity);
+    const bool empty = me->count == me->index;
+
+    // No more space in the list: add the size and refresh the list when everything in it is removed
+    if (RKNextModuloS(k, me->capacity) == me->index ||
+        (!empty && indexedStats[p].folderId == RKFileManagerFolderListCapacity - 1)) {
+        me->reusable = false;
+        me->usage += fileStat.st_size;
+        pthread_mutex_unlock(&engine->mutex);
+        return RKResultFileManagerBufferNotResuable;
+    }
+
     // Extract out the date portion
     if (lastPart) {
         if (strlen(lastPart) > RKFileManagerFilenameLength - 1) {
@@ -810,16 +822,16 @@ int RKFileManagerAddFile(RKFileManager *engine, const char *filename, RKFileType
     if (strlen(folder) > RKFileManagerFilenameLength - 1) {
         RKLog("%s Warning. Folder name is too long.\n", engine->name);
     }
-    if (k == 0) {
+    if (empty) {
         // The data folder is empty
         folderId = 0;
         strcpy(folders[0], folder);
     } else {
-        folderId = indexedStats[k - 1].folderId;
+        folderId = indexedStats[p].folderId;
         // If same folder as the previous entry, no need to add another folder in the list. Add one otherwise.
-        if (strcmp(folder, folders[indexedStats[k - 1].folderId])) {
+        if (strcmp(folder, folders[indexedStats[p].folderId])) {
             folderId++;
-            strcpy(folders[indexedStats[k - 1].folderId + 1], folder);
+            strcpy(folders[indexedStats[p].folderId + 1], folder);
         }
     }
     //printf("%s --> %s / %s (%d)\n", filename, folder, filenames[k], folderId);
-- 
2.43.0


From b7a89e3e2d108ae79052ed13261f201e1881a023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:59 +0000
Subject: [PATCH 112/174] fix: file manager knows the usage and the oldest
 files of an archive that does not fit into its list

---
 source/RKFileManager.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/source/RKFileManager.c b/source/RKFileManager.c
index 614af6c..d00559e 100644
--- a/source/RKFileManager.c
+++ b/source/RKFileManager.c
@@ -176,6 +176,7 @@ static void refreshFileList(RKFileRemover *me) {
     }
 
     // Go through all files in the folders
+    bool truncated = false;
     for (j = 0, k = 0; k < folderCount && me->count < me->capacity; k++) {
         snprintf(string, sizeof(string), "%s/%s", me->path, folders[k]);
         int count = listFilesInFolder(&filenames[me->count], me->capacity - me->count, string);
@@ -192,6 +193,11 @@ static void refreshFileList(RKFileRemover *me) {
                 RKLog("%s Info. Keeping %s   errno = %d\n", me->name, string, errno);
             }
         } else if (count == me->capacity - me->count) {
+            truncated = true;
+            if (me->count > 0) {
+                // The oldest files of this folder may not be in the list, leave it for the next refresh
+                break;
+            }
             RKLog("%s Info. At capacity. Suggest keeping less data on main host.\n", me->name);
         }
         me->count += count;
@@ -225,7 +231,7 @@ static void refreshFileList(RKFileRemover *me) {
     }
 
     // We can operate in a circular buffer fashion if all the files are accounted
-    if (me->count < me->capacity) {
+    if (!truncated) {
         me->reusable = true;
     } else {
         me->reusable = false;
@@ -237,16 +243,20 @@ static void refreshFileList(RKFileRemover *me) {
         me->usage = 0;
         for (k = 0; k < folderCount; k++) {
             struct dirent *dir;
-            sprintf(string, "%s/%s/%s", me->path, folders[k], filenames[j]);
+            sprintf(string, "%s/%s", me->path, folders[k]);
             DIR *did = opendir(string);
             if (did == NULL) {
                 fprintf(stderr, "Unable to list folder '%s'\n", string);
                 continue;
             }
             while ((dir = readdir(did)) != NULL) {
-                sprintf(string, "%s/%s/%s", me->path, folders[k], dir->d_name);
-                stat(string, &fileStat);
-                me->usage += fileStat.st_size;
+                if (dir->d_name[0] == '.') {
+                    continue;
+                }
+                snprintf(string, sizeof(string), "%s/%s/%s", me->path, folders[k], dir->d_name);
+                if (lstat(string, &fileStat) == 0 && S_ISREG(fileStat.st_mode)) {
+                    me->usage += fileStat.st_size;
+                }
             }
             closedir(did);
         }
-- 
2.43.0


From 7b5e664da1f55445d8f780f5295d06714e235c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:59 +0000
Subject: [PATCH 113/174] fix: file manager does not count a file twice that
 was being written when it started

---
 source/RKFileManager.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/source/RKFileManager.c b/source/RKFileManager.c
index d00559e..909c3f1 100644
--- a/source/RKFileManager.c
+++ b/source/RKFileManager.c
@@ -797,6 +797,22 @@ int RKFileManagerAddFile(RKFileManager *engine, const char *filename, RKFileType
     const uint32_t p = RKPreviousModuloS(k, me->capacity);
     const bool empty = me->count == me->index;
 
+    // The file may be in the list already if it was there, incomplete, when the list was refreshed
+    const time_t fileTime = timeFromFilename(lastPart + 1);
+    for (uint32_t i = k; i != me->index;) {
+        i = RKPreviousModuloS(i, me->capacity);
+        if (indexedStats[i].time < fileTime) {
+            break;
+        }
+        if (!strcmp(filenames[indexedStats[i].index], lastPart + 1) &&
+            !strncmp(folders[indexedStats[i].folderId], filename + length + 1, lastPart - filename - length - 1)) {
+            me->usage += fileStat.st_size - indexedStats[i].size;
+            indexedStats[i].size = fileStat.st_size;
+            pthread_mutex_unlock(&engine->mutex);
+            return RKResultSuccess;
+        }
+    }
+
     // No more space in the list: add the size and refresh the list when everything in it is removed
     if (RKNextModuloS(k, me->capacity) == me->index ||
         (!empty && indexedStats[p].folderId == RKFileManagerFolderListCapacity - 1)) {
-- 
2.43.0


From f8fe205b18a0dc5c9360c24d5d9a8749b13cc2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:59 +0000
Subject: [PATCH 114/174] fix: file manager does not delete everything in the
 archives for which no limit is set

---
 source/RKFileManager.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/RKFileManager.c b/source/RKFileManager.c
index 909c3f1..3f9d6b0 100644
--- a/source/RKFileManager.c
+++ b/source/RKFileManager.c
@@ -704,7 +704,8 @@ void RKFileManagerSetHealthDataLimit(RKFileManager *engine, const size_t limit)
 int RKFileManagerStart(RKFileManager *engine) {
     // File manager is always assumed wired, dataPath may be empty
     engine->state |= RKEngineStateProperlyWired;
-    if (engine->userRawDataUsageLimit == 0 && engine->userMomentDataUsageLimit == 0 && engine->userHealthDataUsageLimit == 0 &&
+    // The limits that are not set individually are derived from the overall limit
+    if ((engine->userRawDataUsageLimit == 0 || engine->userMomentDataUsageLimit == 0 || engine->userHealthDataUsageLimit == 0) &&
         engine->usagelimit == 0) {
         engine->usagelimit = RKFileManagerDefaultUsageLimit;
         RKLog("%s Usage limit not set, use default %s%s B%s (%s %s)\n",
-- 
2.43.0


From 06b74965251d95d0cfd961f610be9d564698dc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:12 +0000
Subject: [PATCH 115/174] fix: file manager releases the list of folders when
 it stops

---
 source/RKFileManager.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/RKFileManager.c b/source/RKFileManager.c
index 3f9d6b0..0529541 100644
--- a/source/RKFileManager.c
+++ b/source/RKFileManager.c
@@ -445,6 +445,7 @@ static void *fileRemover(void *in) {
         }
     }
 
+    free(folders);
     free(filenames);
     free(indexedStats);
 
-- 
2.43.0


From 95478ff6b90b324630c67631ea3ebd37499d8369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:12 +0000
Subject: [PATCH 116/174] fix: scan command for a volume without any component
 is refused

---
 source/RKSteerEngine.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/source/RKSteerEngine.c b/source/RKSteerEngine.c
index ac422fa..5ea57a0 100644
--- a/source/RKSteerEngine.c
+++ b/source/RKSteerEngine.c
@@ -1019,11 +1019,11 @@ int RKSteerEngineExecuteString(RKSteerEngine *engine, const char *string, char _
         int k = 0;
         char *saved;
         char *token = strchr(string, ' ');
-        do {
-            token++;
-        } while (*token == ' ' && k++ < 8);
-        if (*token == ' ') {
-            RKLog("%s Unxpected vol command string\n", engine->name);
+        if (token != NULL) {
+            token += strspn(token, " ");
+        }
+        if (token == NULL || *token == '\0') {
+            sprintf(response, "NAK. Ill-defined volume." RKEOL);
             return RKResultFailedToSetVCP;
         }
         strncpy(engine->scanString, token, RKMaximumStringLength - 1);
-- 
2.43.0


From da9e2388260f437fb5c34c37caec0e43ff335afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:12 +0000
Subject: [PATCH 117/174] fix: scan command that is refused leaves the line-up
 as it was, and is answered

---
 source/RKSteerEngine.c | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/source/RKSteerEngine.c b/source/RKSteerEngine.c
index 5ea57a0..45cf0c0 100644
--- a/source/RKSteerEngine.c
+++ b/source/RKSteerEngine.c
@@ -206,7 +206,7 @@ int RKSteerEngineAddPPISet(RKSteerEngine *engine, const char *string, const bool
     char *token = strtok(elevations, ",");
     while (token != NULL && k++ < 100) {
         const int m = sscanf(token, "%f", &elevationStart);
-        if (m == 0) {
+        if (m < 1) {
             sprintf(response, "NAK. Ill-defined PPI component.   m = %d" RKEOL, m);
             return RKResultIncompleteScanDescription;
         }
@@ -261,7 +261,7 @@ int RKSteerEngineAddRHISet(RKSteerEngine *engine, const char *string, const bool
     char *token = strtok(azimuths, ",");
     while (token != NULL && k++ < 180) {
         const int o = sscanf(token, "%f", &azimuthStart);
-        if (o == 0) {
+        if (o < 1) {
             sprintf(response, "NAK. Ill-defined RHI component.   o = %d" RKEOL, m);
             return RKResultIncompleteScanDescription;
             break;
@@ -920,7 +920,7 @@ bool RKSteerEngineIsExecutable(const char *string) {
     return (RKSteerCommandFromString(string) & RKSteerCommandInstructionMask) != RKSteerCommandNone;
 }
 
-int RKSteerEngineExecuteString(RKSteerEngine *engine, const char *string, char _Nullable *response) {
+static int executeString(RKSteerEngine *engine, const char *string, char _Nullable *response) {
     const RKSteerCommand command = RKSteerCommandFromString(string);
     const bool immediatelyDo = RKSteerCommandIsImmediate(command);
     const bool onlyOnce = RKSteerCommandIsOnce(command);
@@ -1051,6 +1051,7 @@ int RKSteerEngineExecuteString(RKSteerEngine *engine, const char *string, char _
                     mode = RKScanModeSpeedDown;
                 } else {
                     RKLog("%s Error. Scan mode '%s' not understood.\n", engine->name, symbol);
+                    sprintf(response, "NAK. Scan mode '%s' not understood." RKEOL, symbol);
                     valid = false;
                     break;
                 }
@@ -1087,8 +1088,15 @@ int RKSteerEngineExecuteString(RKSteerEngine *engine, const char *string, char _
                 valid = result == RKResultSuccess;
             } else if (!strcmp("ss", symbol)) {
                 result = RKResultFailedToExecuteCommand;
+                sprintf(response, "NAK. Scan mode '%s' not understood." RKEOL, symbol);
+                valid = false;
+            } else {
+                sprintf(response, "NAK. Scan mode '%s' not understood." RKEOL, symbol);
                 valid = false;
             }
+            if (!valid) {
+                break;
+            }
             token = strtok_r(NULL, "/", &saved);
         }
 
@@ -1145,6 +1153,16 @@ int RKSteerEngineExecuteString(RKSteerEngine *engine, const char *string, char _
     return RKResultSuccess;
 }
 
+int RKSteerEngineExecuteString(RKSteerEngine *engine, const char *string, char _Nullable *response) {
+    const RKScanObject saved = engine->vcpHandle;
+    const int result = executeString(engine, string, response);
+    if (result != RKResultSuccess) {
+        // A command that is refused changes nothing
+        engine->vcpHandle = saved;
+    }
+    return result;
+}
+
 static char *scanModeString(const RKScanMode mode) {
     switch (mode) {
         case RKScanModePPI:
-- 
2.43.0


From cfd3324ba6ec39f6cb26bc4fd1967e3ad06d0834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:12 +0000
Subject: [PATCH 118/174] fix: scan command either takes all the sweeps it
 lists or is refused

---
 source/RKSteerEngine.c | 45 ++++++++++++++++++++----------------------
 1 file changed, 21 insertions(+), 24 deletions(-)

diff --git a/source/RKSteerEngine.c b/source/RKSteerEngine.c
index 45cf0c0..6aecbce 100644
--- a/source/RKSteerEngine.c
+++ b/source/RKSteerEngine.c
@@ -150,7 +150,7 @@ int RKSteerEngineAddPinchSweep(RKSteerEngine *engine, const RKScanPath scan) {
     if (V->onDeckCount < RKMaximumScanCount) {
         V->onDeckScans[V->onDeckCount++] = scan;
     } else {
-        RKLog("%s Error. Cannot add more scans.  V->onDeckScans = %d\n", engine->name, V->onDeckScans);
+        RKLog("%s Error. Cannot add more scans.  V->onDeckCount = %d\n", engine->name, V->onDeckCount);
         return RKResultTooBig;
     }
     return RKResultSuccess;
@@ -173,8 +173,8 @@ RKScanPath RKSteerEngineMakeScanPath(RKScanMode mode,
 }
 
 int RKSteerEngineAddPPISet(RKSteerEngine *engine, const char *string, const bool once, char *response) {
-    char args[4][256] = {"", "", "", ""};
-    const int n = sscanf(string, "%*s %255s %255s %255s %255s", args[0], args[1], args[2], args[3]);
+    char args[4][RKMaximumStringLength] = {"", "", "", ""};
+    const int n = sscanf(string, "%*s %4095s %4095s %4095s %4095s", args[0], args[1], args[2], args[3]);
 
     float azimuthStart, azimuthEnd, elevationStart, elevationEnd, rate;
 
@@ -202,9 +202,8 @@ int RKSteerEngineAddPPISet(RKSteerEngine *engine, const char *string, const bool
         rate = RKDefaultScanSpeed;
     }
 
-    int k = 0;
     char *token = strtok(elevations, ",");
-    while (token != NULL && k++ < 100) {
+    while (token != NULL) {
         const int m = sscanf(token, "%f", &elevationStart);
         if (m < 1) {
             sprintf(response, "NAK. Ill-defined PPI component.   m = %d" RKEOL, m);
@@ -214,10 +213,10 @@ int RKSteerEngineAddPPISet(RKSteerEngine *engine, const char *string, const bool
 
         RKScanPath scan = RKSteerEngineMakeScanPath(RKScanModePPI, elevationStart, elevationEnd, azimuthStart, azimuthEnd, rate);
 
-        if (once) {
-            RKSteerEngineAddPinchSweep(engine, scan);
-        } else{
-            RKSteerEngineAddLineupSweep(engine, scan);
+        const int result = once ? RKSteerEngineAddPinchSweep(engine, scan) : RKSteerEngineAddLineupSweep(engine, scan);
+        if (result != RKResultSuccess) {
+            sprintf(response, "NAK. Too many sweeps." RKEOL);
+            return result;
         }
         token = strtok(NULL, ",");
     }
@@ -226,8 +225,8 @@ int RKSteerEngineAddPPISet(RKSteerEngine *engine, const char *string, const bool
 }
 
 int RKSteerEngineAddRHISet(RKSteerEngine *engine, const char *string, const bool once, char *response) {
-    char args[4][256] = {"", "", "", ""};
-    const int n = sscanf(string, "%*s %255s %255s %255s %255s", args[0], args[1], args[2], args[3]);
+    char args[4][RKMaximumStringLength] = {"", "", "", ""};
+    const int n = sscanf(string, "%*s %4095s %4095s %4095s %4095s", args[0], args[1], args[2], args[3]);
 
     float azimuthStart, elevationStart, elevationEnd, rate;
 
@@ -257,9 +256,8 @@ int RKSteerEngineAddRHISet(RKSteerEngine *engine, const char *string, const bool
 
     bool flip = false;
 
-    int k = 0;
     char *token = strtok(azimuths, ",");
-    while (token != NULL && k++ < 180) {
+    while (token != NULL) {
         const int o = sscanf(token, "%f", &azimuthStart);
         if (o < 1) {
             sprintf(response, "NAK. Ill-defined RHI component.   o = %d" RKEOL, m);
@@ -271,10 +269,10 @@ int RKSteerEngineAddRHISet(RKSteerEngine *engine, const char *string, const bool
             RKSteerEngineMakeScanPath(RKScanModeRHI, elevationEnd, elevationStart, azimuthStart, 0, -rate) :
             RKSteerEngineMakeScanPath(RKScanModeRHI, elevationStart, elevationEnd, azimuthStart, 0, rate);
 
-        if (once) {
-            RKSteerEngineAddPinchSweep(engine, scan);
-        } else{
-            RKSteerEngineAddLineupSweep(engine, scan);
+        const int result = once ? RKSteerEngineAddPinchSweep(engine, scan) : RKSteerEngineAddLineupSweep(engine, scan);
+        if (result != RKResultSuccess) {
+            sprintf(response, "NAK. Too many sweeps." RKEOL);
+            return result;
         }
         token = strtok(NULL, ",");
         flip = !flip;
@@ -1016,7 +1014,6 @@ static int executeString(RKSteerEngine *engine, const char *string, char _Nullab
     } else if (motion == RKSteerCommandVolume) {
 
         // vol p 2 45 18/p 4 45 18/p 6 45 18/p 8 45 18/p 10 45 18/p 12 45 18 - PPI set like the pp example
-        int k = 0;
         char *saved;
         char *token = strchr(string, ' ');
         if (token != NULL) {
@@ -1030,9 +1027,8 @@ static int executeString(RKSteerEngine *engine, const char *string, char _Nullab
 
         RKScanMode mode = RKScanModeNone;
 
-        k = 0;
         token = strtok_r(engine->scanString, "/", &saved);
-        while (token != NULL && k++ < 100) {
+        while (token != NULL) {
             // parse in the usual way
             const int m = sscanf(token, "%3s %255s %255s %255s", symbol, args[0], args[1], args[2]);
             if (m < 2) {
@@ -1075,10 +1071,11 @@ static int executeString(RKSteerEngine *engine, const char *string, char _Nullab
 
                 RKScanPath scan = RKSteerEngineMakeScanPath(mode, elevationStart, elevationEnd, azimuthStart, azimuthEnd, rate);
 
-                if (onlyOnce) {
-                    RKSteerEngineAddPinchSweep(engine, scan);
-                } else {
-                    RKSteerEngineAddLineupSweep(engine, scan);
+                result = onlyOnce ? RKSteerEngineAddPinchSweep(engine, scan) : RKSteerEngineAddLineupSweep(engine, scan);
+                if (result != RKResultSuccess) {
+                    sprintf(response, "NAK. Too many sweeps." RKEOL);
+                    valid = false;
+                    break;
                 }
             } else if (!strcmp("pp", symbol)) {
                 result = RKSteerEngineAddPPISet(engine, token, onlyOnce, response);
-- 
2.43.0


From 3d5ad196ea69676c6582959897f61c3f4ded7d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:12 +0000
Subject: [PATCH 119/174] fix: summary of a long line-up does not run past the
 end of its strings

---
 source/RKSteerEngine.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/source/RKSteerEngine.c b/source/RKSteerEngine.c
index 6aecbce..79a9799 100644
--- a/source/RKSteerEngine.c
+++ b/source/RKSteerEngine.c
@@ -1134,7 +1134,10 @@ static int executeString(RKSteerEngine *engine, const char *string, char _Nullab
         }
 
         int k = sprintf(engine->dump, "New volume\n");
-        RKIndentCopy(engine->dump + k, summary, 31);
+        // Indented, this takes less than twice the space
+        char excerpt[RKMaximumStringLength / 2];
+        snprintf(excerpt, sizeof(excerpt), "%s", summary);
+        RKIndentCopy(engine->dump + k, excerpt, 31);
         RKStripTail(engine->dump + k);
         RKLog("%s %s\n", engine->name, engine->dump);
 
@@ -1176,7 +1179,7 @@ static char *scanModeString(const RKScanMode mode) {
     return "NAN";
 }
 
-static size_t makeSweepMessage(RKScanPath *scanPaths, char *string, const int count, const RKScanHitter linetag) {
+static size_t makeSweepMessage(RKScanPath *scanPaths, char *string, const int count, const RKScanHitter linetag, const size_t size) {
     size_t k = 0;
     char prefix[8];
     switch (linetag){
@@ -1216,6 +1219,11 @@ static size_t makeSweepMessage(RKScanPath *scanPaths, char *string, const int co
 
     // Second pass, actually print it out using the consitent column width
     for (int i = 0; i < count; i++) {
+        // No more than the string can hold, the longest line takes less than half of this reserve
+        if (k + 512 > size) {
+            k += sprintf(string + k, "%-7s ...\n", prefix);
+            break;
+        }
         k += sprintf(string + k, "%-7s %d : %s%s%s",
                      prefix,
                      i,
@@ -1266,12 +1274,14 @@ static size_t makeSweepMessage(RKScanPath *scanPaths, char *string, const int co
 
 size_t RKSteerEngineScanSummary(RKSteerEngine *engine, char *string) {
     RKScanObject *V = &engine->vcpHandle;
-    size_t s = makeSweepMessage(V->batterScans, string, V->sweepCount, RKScanAtBat);
+    // What follows the summary in a response takes less than this reserve
+    const size_t size = RKMaximumStringLength - 512;
+    size_t s = makeSweepMessage(V->batterScans, string, V->sweepCount, RKScanAtBat, size);
     if (V->onDeckCount != V->inTheHoleCount || memcmp(V->onDeckScans, V->inTheHoleScans, RKMaximumScanCount * sizeof(RKScanPath))) {
-        s += makeSweepMessage(V->onDeckScans, string + s, V->onDeckCount, RKScanPinch);
+        s += makeSweepMessage(V->onDeckScans, string + s, V->onDeckCount, RKScanPinch, size - s);
     }
     if (V->option & RKScanOptionRepeat) {
-        s += makeSweepMessage(V->inTheHoleScans, string + s, V->inTheHoleCount, RKScanLine);
+        s += makeSweepMessage(V->inTheHoleScans, string + s, V->inTheHoleCount, RKScanLine, size - s);
     }
     if (V->sweepCount == 0 && V->onDeckCount == 0 && V->inTheHoleCount == 0) {
         s = sprintf(string, "(empty)\n");
-- 
2.43.0


From 6070badc44b6e4e650d38df2e9a57be835e7be7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:12 +0000
Subject: [PATCH 120/174] fix: sweep that follows a sector or a PPI does not
 end before it begins

---
 source/RKSteerEngine.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/RKSteerEngine.c b/source/RKSteerEngine.c
index 79a9799..90b4e24 100644
--- a/source/RKSteerEngine.c
+++ b/source/RKSteerEngine.c
@@ -850,6 +850,7 @@ RKScanAction *RKSteerEngineGetAction(RKSteerEngine *engine, RKPosition *pos) {
     // Sweep ended, go to the next sweep
     if (V->progress & RKScanProgressEnd) {
         V->progress ^= RKScanProgressEnd;
+        const bool isPPI = scan->mode == RKScanModePPI;
         V->i = RKNextModuloS(V->i, V->sweepCount);
         if (V->i == 0) {
             if (V->option & RKScanOptionRepeat) {
@@ -863,6 +864,10 @@ RKScanAction *RKSteerEngineGetAction(RKSteerEngine *engine, RKPosition *pos) {
                 V->active = false;
             }
         }
+        // Data collection carries on through the setup of the next sweep from PPI to PPI only
+        if (!(isPPI && V->batterScans[V->i].mode == RKScanModePPI)) {
+            V->progress &= ~RKScanProgressMiddle;
+        }
         V->progress |= RKScanProgressSetup;
     }
 
-- 
2.43.0


From 81fb1e3404f58afe7db848e7b4b88248a8f3b86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:12 +0000
Subject: [PATCH 121/174] fix: pedestal that has not yet accelerated is stopped
 as well

---
 source/RKSteerEngine.c | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/source/RKSteerEngine.c b/source/RKSteerEngine.c
index 90b4e24..9329696 100644
--- a/source/RKSteerEngine.c
+++ b/source/RKSteerEngine.c
@@ -546,17 +546,13 @@ RKScanAction *RKSteerEngineGetAction(RKSteerEngine *engine, RKPosition *pos) {
     if (V->active == false || V->sweepCount == 0) {
         if (V->progress & RKScanProgressStopPedestal) {
             RKLog("%s Stopping pedestal ...\n", engine->name);
-            if (fabs(pos->elevationVelocityDegreesPerSecond) > RKPedestalVelocityTolerance) {
-                action->mode[a] = RKPedestalInstructTypeModeStandby | RKPedestalInstructTypeAxisElevation;
-                action->value[a] = 0.0f;
-                V->tic = 0;
-                a++;
-            }
-            if (fabs(pos->azimuthVelocityDegreesPerSecond) > RKPedestalVelocityTolerance) {
-                action->mode[a] = RKPedestalInstructTypeModeStandby | RKPedestalInstructTypeAxisAzimuth;
-                action->value[a] = 0.0f;
-                V->tic = 0;
-            }
+            // Both axes at any velocity, an axis may be about to follow an earlier instruction
+            action->mode[a] = RKPedestalInstructTypeModeStandby | RKPedestalInstructTypeAxisElevation;
+            action->value[a] = 0.0f;
+            a++;
+            action->mode[a] = RKPedestalInstructTypeModeStandby | RKPedestalInstructTypeAxisAzimuth;
+            action->value[a] = 0.0f;
+            V->tic = 0;
             V->progress ^= RKScanProgressStopPedestal;
             V->progress = RKScanProgressNone;
         }
-- 
2.43.0


From 1509f6470725ffa0c259e4938c6526ee12c7406d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:12 +0000
Subject: [PATCH 122/174] fix: sweep begins with its setup when a scan is
 started right after a stop or advanced in the middle of a sweep

---
 source/RKSteerEngine.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/RKSteerEngine.c b/source/RKSteerEngine.c
index 9329696..c131e61 100644
--- a/source/RKSteerEngine.c
+++ b/source/RKSteerEngine.c
@@ -92,6 +92,9 @@ void RKSteerEngineStopSweeps(RKSteerEngine *engine) {
 }
 
 void RKSteerEngineStartSweeps(RKSteerEngine *engine) {
+    if (engine->vcpHandle.progress & RKScanProgressStopPedestal) {
+        engine->vcpHandle.progress = RKScanProgressNone;
+    }
     engine->vcpHandle.active = true;
 }
 
@@ -963,6 +966,7 @@ static int executeString(RKSteerEngine *engine, const char *string, char _Nullab
             return RKResultSuccess;
             break;
         case RKSteerCommandScanNext:
+            engine->vcpHandle.progress = RKScanProgressNone;
             RKSteerEngineNextHitter(engine);
             sprintf(response, "ACK. Volume advanced." RKEOL);
             return RKResultSuccess;
-- 
2.43.0


From d4323689da4935836362d7ce0e88dd079d457d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:12 +0000
Subject: [PATCH 123/174] fix: pedestal is stopped when there is no scan left

---
 source/RKSteerEngine.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/source/RKSteerEngine.c b/source/RKSteerEngine.c
index c131e61..503d549 100644
--- a/source/RKSteerEngine.c
+++ b/source/RKSteerEngine.c
@@ -123,6 +123,10 @@ void RKSteerEngineNextHitter(RKSteerEngine *engine) {
     V->onDeckCount = V->inTheHoleCount;
     V->i = 0;
     V->active = true;
+    if (V->sweepCount == 0) {
+        // Nothing left to do
+        RKSteerEngineStopSweeps(engine);
+    }
 }
 
 void RKSteerEngineArmSweeps(RKSteerEngine *engine, const RKScanRepeat repeat) {
@@ -134,6 +138,10 @@ void RKSteerEngineArmSweeps(RKSteerEngine *engine, const RKScanRepeat repeat) {
     }
     engine->vcpHandle.i = 0;
     engine->vcpHandle.active = true;
+    if (engine->vcpHandle.sweepCount == 0) {
+        // Nothing to do
+        RKSteerEngineStopSweeps(engine);
+    }
 }
 
 int RKSteerEngineAddLineupSweep(RKSteerEngine *engine, const RKScanPath scan) {
-- 
2.43.0


From cbdc761d369ced49d7fbb9a72490cf94ac5eaaeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:12 +0000
Subject: [PATCH 124/174] fix: scan command does not interfere with the action
 that is being derived from a position

---
 headers/RadarKit/RKSteerEngine.h |  1 +
 source/RKSteerEngine.c           | 14 +++++++++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/headers/RadarKit/RKSteerEngine.h b/headers/RadarKit/RKSteerEngine.h
index fa31b0a..06919a5 100644
--- a/headers/RadarKit/RKSteerEngine.h
+++ b/headers/RadarKit/RKSteerEngine.h
@@ -149,6 +149,7 @@ struct rk_position_steer_engine {
     char                   response[RKMaximumStringLength];
     char                   dump[RKMaximumStringLength];
     pthread_t              threadId;
+    pthread_mutex_t        mutex;
 
     // Status / health
     size_t                 memoryUsage;
diff --git a/source/RKSteerEngine.c b/source/RKSteerEngine.c
index 503d549..70f9513 100644
--- a/source/RKSteerEngine.c
+++ b/source/RKSteerEngine.c
@@ -402,10 +402,12 @@ RKSteerEngine *RKSteerEngineInit(void) {
     engine->vcpHandle.toc = 3;
     engine->memoryUsage = sizeof(RKSteerEngine);
     engine->state = RKEngineStateAllocated;
+    pthread_mutex_init(&engine->mutex, NULL);
     return engine;
 }
 
 void RKSteerEngineFree(RKSteerEngine *engine) {
+    pthread_mutex_destroy(&engine->mutex);
     free(engine);
 }
 
@@ -535,7 +537,7 @@ void RKSteerEngineUpdatePositionFlags(RKSteerEngine *engine, RKPosition *positio
     }
 }
 
-RKScanAction *RKSteerEngineGetAction(RKSteerEngine *engine, RKPosition *pos) {
+static RKScanAction *getAction(RKSteerEngine *engine, RKPosition *pos) {
     RKScanAction *action = &engine->actions[engine->actionIndex];
     memset(action, 0, sizeof(RKScanAction));
 
@@ -886,6 +888,14 @@ RKScanAction *RKSteerEngineGetAction(RKSteerEngine *engine, RKPosition *pos) {
     return action;
 }
 
+RKScanAction *RKSteerEngineGetAction(RKSteerEngine *engine, RKPosition *pos) {
+    // A command must not change the scan halfway
+    pthread_mutex_lock(&engine->mutex);
+    RKScanAction *action = getAction(engine, pos);
+    pthread_mutex_unlock(&engine->mutex);
+    return action;
+}
+
 RKSteerCommand RKSteerCommandFromString(const char *string) {
     char token[64];
     int s = sscanf(string, "%63s %*s", token);
@@ -1167,12 +1177,14 @@ static int executeString(RKSteerEngine *engine, const char *string, char _Nullab
 }
 
 int RKSteerEngineExecuteString(RKSteerEngine *engine, const char *string, char _Nullable *response) {
+    pthread_mutex_lock(&engine->mutex);
     const RKScanObject saved = engine->vcpHandle;
     const int result = executeString(engine, string, response);
     if (result != RKResultSuccess) {
         // A command that is refused changes nothing
         engine->vcpHandle = saved;
     }
+    pthread_mutex_unlock(&engine->mutex);
     return result;
 }
 
-- 
2.43.0


From d8d9ee1e0028752b2bcb032c6930b6deea88a4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:54 +0000
Subject: [PATCH 125/174] fix: empty scan command is not taken for the previous
 one

---
 source/RKSteerEngine.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKSteerEngine.c b/source/RKSteerEngine.c
index 70f9513..ae91a54 100644
--- a/source/RKSteerEngine.c
+++ b/source/RKSteerEngine.c
@@ -900,7 +900,7 @@ RKSteerCommand RKSteerCommandFromString(const char *string) {
     char token[64];
     int s = sscanf(string, "%63s %*s", token);
     RKSteerCommand type = RKSteerCommandNone;
-    if (s == 0) {
+    if (s < 1) {
         return type;
     } else if (!strcmp(token, "home")) {
         type = RKSteerCommandHome | RKSteerCommandImmediate;
-- 
2.43.0


From 838d1f30fa01fbd830542e1a25b8250b3b4bd397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:55 +0000
Subject: [PATCH 126/174] fix: RHI and sector begin only when their other axis
 has come to rest

---
 source/RKSteerEngine.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/source/RKSteerEngine.c b/source/RKSteerEngine.c
index ae91a54..f99fa54 100644
--- a/source/RKSteerEngine.c
+++ b/source/RKSteerEngine.c
@@ -641,7 +641,9 @@ static RKScanAction *getAction(RKSteerEngine *engine, RKPosition *pos) {
                     action->value[a] = 0.0f;
                     V->tic = 0;
                 }
-                if (udel < RKPedestalPositionTolerance && udaz < RKPedestalPositionTolerance) {
+                // Not when the other axis is only passing by, it was just told to stand by
+                if (udel < RKPedestalPositionTolerance && udaz < RKPedestalPositionTolerance &&
+                    fabsf(pos->azimuthVelocityDegreesPerSecond) < RKPedestalVelocityTolerance) {
                     action->mode[0] = RKPedestalInstructTypeModeSlew | RKPedestalInstructTypeAxisElevation;
                     action->value[0] = scan->elevationSlew;
                     V->tic = 0;
@@ -728,7 +730,9 @@ static RKScanAction *getAction(RKSteerEngine *engine, RKPosition *pos) {
                     action->value[a] = 0.0f;
                     V->tic = 0;
                 }
-                if (udel < RKPedestalPositionTolerance && udaz < RKPedestalPositionTolerance) {
+                // Not when the other axis is only passing by, it was just told to stand by
+                if (udel < RKPedestalPositionTolerance && udaz < RKPedestalPositionTolerance &&
+                    fabsf(pos->elevationVelocityDegreesPerSecond) < RKPedestalVelocityTolerance) {
                     action->mode[0] = RKPedestalInstructTypeModeSlew | RKPedestalInstructTypeAxisAzimuth;
                     action->value[0] = scan->azimuthSlew;
                     V->tic = 0;
-- 
2.43.0


From 0b08dbc510e0c9f248912a6b46efae88938905aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:23 +0000
Subject: [PATCH 127/174] fix: pointing is complete only when the antenna has
 come to rest

---
 source/RKSteerEngine.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/RKSteerEngine.c b/source/RKSteerEngine.c
index f99fa54..a5c1b6a 100644
--- a/source/RKSteerEngine.c
+++ b/source/RKSteerEngine.c
@@ -779,7 +779,10 @@ static RKScanAction *getAction(RKSteerEngine *engine, RKPosition *pos) {
                     action->value[a] = 0.0f;
                     V->tic = 0;
                 }
-                if (udel < RKPedestalPositionTolerance && udaz < RKPedestalPositionTolerance) {
+                // Not when an axis is only passing by, it was just told to stand by
+                if (udel < RKPedestalPositionTolerance && udaz < RKPedestalPositionTolerance &&
+                    fabsf(pos->elevationVelocityDegreesPerSecond) <= RKPedestalVelocityTolerance &&
+                    fabsf(pos->azimuthVelocityDegreesPerSecond) <= RKPedestalVelocityTolerance) {
                     if (verbose) {
                         RKLog("%s Info. Pointing (EL %.2f°, AZ %.2f°)\n", engine->name,
                             scan->elevationStart, scan->azimuthStart);
-- 
2.43.0


From f4fd8d8db53a5ac388c9be88eb2c89538795d0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:23 +0000
Subject: [PATCH 128/174] fix: WebSocket frame that has partially arrived is
 not overwritten by one that is sent

---
 headers/RadarKit/RKWebSocket.h |  3 ++-
 source/RKWebSocket.c           | 31 +++++++++++++++----------------
 2 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/headers/RadarKit/RKWebSocket.h b/headers/RadarKit/RKWebSocket.h
index fcc9c21..7987f8a 100644
--- a/headers/RadarKit/RKWebSocket.h
+++ b/headers/RadarKit/RKWebSocket.h
@@ -80,7 +80,8 @@ struct rk_websocket {
     uint32_t                 timeoutCount;                                     // Internal variable
     uint64_t                 tic;
 
-    uint8_t                  frame[RKWebSocketFrameSize];                      // A local buffer to store a frame
+    uint8_t                  frame[RKWebSocketFrameSize];                      // A local buffer to store a frame that is being received
+    uint8_t                  outgoingFrame[RKWebSocketFrameSize];              // A local buffer to store a frame that is being sent
 };
 
 RKWebSocket *RKWebSocketInit(const char *, const char *);
diff --git a/source/RKWebSocket.c b/source/RKWebSocket.c
index e14c2b6..8e5b177 100644
--- a/source/RKWebSocket.c
+++ b/source/RKWebSocket.c
@@ -40,9 +40,9 @@ static int RKSocketRead(RKWebSocket *W, uint32_t origin, size_t size) {
 static int RKSocketWrite(RKWebSocket *W, size_t size) {
     W->tic++;
     if (W->useSSL) {
-        return SSL_write(W->ssl, W->frame, (int)size);
+        return SSL_write(W->ssl, W->outgoingFrame, (int)size);
     }
-    return (int)write(W->sd, W->frame, size);
+    return (int)write(W->sd, W->outgoingFrame, size);
 }
 
 static size_t RKWebSocketFrameEncode(void *buf, RFC6455_OPCODE code, const void *src, size_t size) {
@@ -136,7 +136,7 @@ static size_t RKWebSocketFrameGetTargetSize(void *buf) {
 }
 
 static int RKWebSocketPingPong(RKWebSocket *W, const bool ping, const char *message, const int len) {
-    size_t size = RKWebSocketFrameEncode(W->frame,
+    size_t size = RKWebSocketFrameEncode(W->outgoingFrame,
         ping ? RFC6455_OPCODE_PING : RFC6455_OPCODE_PONG,
         message, message == NULL ? 0 : (len == 0 ? strlen(message) : len));
     int r = RKSocketWrite(W, size);
@@ -156,8 +156,7 @@ static int RKWebSocketPong(RKWebSocket *W, const char *message, const int len) {
     return RKWebSocketPingPong(W, false, message, len);
 }
 
-static void RKShowWebsocketFrameHeader(RKWebSocket *W) {
-    uint8_t *c = (uint8_t *)W->frame;
+static void RKShowWebsocketFrameHeader(const uint8_t *c) {
     ws_frame_header *h = (ws_frame_header *)c;
     if (h->mask) {
         printf("%02x %02x   %02x %02x %02x %02x    %02x %02x %02x %02x %02x %02x %02x %02x ..."
@@ -234,7 +233,7 @@ static int RKWebSocketConnect(RKWebSocket *W) {
     } else if (W->verbose) {
         RKLog("%s Using default secret %s ...\n", W->name, W->secret);
     }
-    sprintf(buf,
+    sprintf((char *)W->outgoingFrame,
         "GET %s HTTP/1.1\r\n"
         "Host: %s\r\n"
         "Upgrade: websocket\r\n"
@@ -246,10 +245,10 @@ static int RKWebSocketConnect(RKWebSocket *W) {
         W->host,
         W->secret);
     if (W->verbose > 2) {
-        printf("%s", buf);
+        printf("%s", (char *)W->outgoingFrame);
     }
 
-    RKSocketWrite(W, strlen(buf));
+    RKSocketWrite(W, strlen((char *)W->outgoingFrame));
     do {
         r = RKSocketRead(W, r, RKWebSocketFrameSize - r);
     } while (r == 0 || strstr((char *)buf, "\r\n\r\n") == NULL);
@@ -366,7 +365,7 @@ void *transporter(void *in) {
                             printf("RKWebSocket.transporter: WRITE \033[38;5;154m%s\033[m (%zu)\n",
                                    message, payload->size);
                         }
-                        size = RKWebSocketFrameEncode(W->frame, RFC6455_OPCODE_BINARY, payload->source, payload->size);
+                        size = RKWebSocketFrameEncode(W->outgoingFrame, RFC6455_OPCODE_BINARY, payload->source, payload->size);
                         r = RKSocketWrite(W, size);
                         if (r < 0) {
                             if (W->verbose) {
@@ -443,7 +442,7 @@ void *transporter(void *in) {
                     }
                     if (W->verbose > 1) {
                         if (W->verbose > 2) {
-                            printf("%2u read  ", total); RKShowWebsocketFrameHeader(W);
+                            printf("%2u read  ", total); RKShowWebsocketFrameHeader(W->frame);
                         }
                         if (size != 4 && h->opcode == RFC6455_OPCODE_PING) {
                             RKBytesInHex(show, anchor, size);
@@ -479,10 +478,10 @@ void *transporter(void *in) {
                     char *word = words[rand() % 8];
                     r = RKWebSocketPing(W, word, (int)strlen(word));
                     if (W->verbose > 1) {
-                        p32 = (uint32_t *)&W->frame[2];
+                        p32 = (uint32_t *)&W->outgoingFrame[2];
                         ws_mask_key key = {.u32 = *p32};
                         for (i = 0; i < 4; i++) {
-                            uword[i] = W->frame[6 + i] ^ key.code[i % 4];
+                            uword[i] = W->outgoingFrame[6 + i] ^ key.code[i % 4];
                         }
                         RKLog("%s C-PING: %s%s%s (%zu)\n", W->name,
                               rkGlobalParameters.showColor ? RKLimeColor : "",
@@ -490,7 +489,7 @@ void *transporter(void *in) {
                               rkGlobalParameters.showColor ? RKNoColor : "",
                               strlen(word));
                         if (W->verbose > 2) {
-                            printf("%s %2d sent  ", W->name, r); RKShowWebsocketFrameHeader(W);
+                            printf("%s %2d sent  ", W->name, r); RKShowWebsocketFrameHeader(W->outgoingFrame);
                         }
                     }
                 }
@@ -502,10 +501,10 @@ void *transporter(void *in) {
                     memcpy(message, anchor, h->len); message[h->len] = '\0';
                     RKWebSocketPong(W, message, h->len);
                     if (W->verbose > 1) {
-                        p32 = (uint32_t *)&W->frame[2];
+                        p32 = (uint32_t *)&W->outgoingFrame[2];
                         ws_mask_key key = {.u32 = *p32};
                         for (i = 0; i < 4; i++) {
-                            uword[i] = W->frame[6 + i] ^ key.code[i % 4];
+                            uword[i] = W->outgoingFrame[6 + i] ^ key.code[i % 4];
                         }
                         if (h->len != 4) {
                             RKBytesInHex(show, message, h->len);
@@ -518,7 +517,7 @@ void *transporter(void *in) {
                               rkGlobalParameters.showColor ? RKNoColor : "",
                               h->len);
                         if (W->verbose > 2) {
-                            printf("%2d sent  ", r); RKShowWebsocketFrameHeader(W);
+                            printf("%2d sent  ", r); RKShowWebsocketFrameHeader(W->outgoingFrame);
                         }
                     }
                 } else if (h->opcode == RFC6455_OPCODE_PONG) {
-- 
2.43.0


From bf4323b3e377113673b9094a1186f6550d88756d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:24 +0000
Subject: [PATCH 129/174] fix: largest WebSocket frame does not run past the
 end of its buffer

---
 source/RKWebSocket.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/RKWebSocket.c b/source/RKWebSocket.c
index 8e5b177..e6e5606 100644
--- a/source/RKWebSocket.c
+++ b/source/RKWebSocket.c
@@ -64,10 +64,10 @@ static size_t RKWebSocketFrameEncode(void *buf, RFC6455_OPCODE code, const void
     }
     if (r > 65535) {
         h->len = 127;
-        // Frame header can be up to 10 bytes
-        if (r > RKWebSocketFrameSize - 10) {
-            r = RKWebSocketFrameSize - 10;
-            fprintf(stderr, "I am limited to %d bytes\n", RKWebSocketFrameSize - 10);
+        // Frame header and mask key can be up to 14 bytes, plus one for the terminating character
+        if (r > RKWebSocketFrameSize - 15) {
+            r = RKWebSocketFrameSize - 15;
+            fprintf(stderr, "I am limited to %d bytes\n", RKWebSocketFrameSize - 15);
         }
         *((uint64_t *)payload) = htonll((uint64_t)r);
         payload += 8;
-- 
2.43.0


From db7efe1e8ad8c5298eb3617f2bc54e6d0ff39bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:25 +0000
Subject: [PATCH 130/174] fix: header of a WebSocket response is recognized in
 any order, case and length

---
 source/RKWebSocket.c | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/source/RKWebSocket.c b/source/RKWebSocket.c
index e6e5606..ef911c8 100644
--- a/source/RKWebSocket.c
+++ b/source/RKWebSocket.c
@@ -11,21 +11,21 @@
 #pragma mark - Static Methods
 
 static char *RKGetHandshakeArgument(const char *buf, const char *key) {
-    static char argument[80] = {0};
-    char *b, *e;
-    b = strstr(buf, key);
-    if (b == NULL) {
-        argument[0] = '\0';
-        return argument;
-    }
-    b += strlen(key);
-    while (*b == ':' || *b == ' ') {
-        b++;
-    }
-    e = strstr(b, RKEOL);
-    size_t l = (size_t)(e - b);
-    memcpy(argument, b, l);
-    argument[l] = '\0';
+    static char argument[64] = {0};
+    const size_t l = strlen(key);
+    argument[0] = '\0';
+    // A header is a line that starts with the key, which is not case sensitive
+    const char *b = strstr(buf, RKEOL);
+    while (b) {
+        b += strlen(RKEOL);
+        if (!strncasecmp(b, key, l) && b[l] == ':') {
+            b += l + 1;
+            b += strspn(b, " ");
+            snprintf(argument, sizeof(argument), "%.*s", (int)strcspn(b, "\r\n"), b);
+            break;
+        }
+        b = strstr(b, RKEOL);
+    }
     return argument;
 }
 
-- 
2.43.0


From eb8cb1fe429e668335989d6c4ba495ec51c31459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:25 +0000
Subject: [PATCH 131/174] fix: WebSocket response is read until its end, which
 may not come at all

---
 source/RKWebSocket.c | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/source/RKWebSocket.c b/source/RKWebSocket.c
index ef911c8..ca5c86c 100644
--- a/source/RKWebSocket.c
+++ b/source/RKWebSocket.c
@@ -249,15 +249,35 @@ static int RKWebSocketConnect(RKWebSocket *W) {
     }
 
     RKSocketWrite(W, strlen((char *)W->outgoingFrame));
+    // Collect the response until the end of its header
+    uint32_t n = 0, k = 0;
+    fd_set rfd;
+    struct timeval timeout;
+    buf[0] = '\0';
     do {
-        r = RKSocketRead(W, r, RKWebSocketFrameSize - r);
-    } while (r == 0 || strstr((char *)buf, "\r\n\r\n") == NULL);
-    if (r < 0) {
+        FD_ZERO(&rfd);
+        FD_SET(W->sd, &rfd);
+        timeout.tv_sec = 0;
+        timeout.tv_usec = W->timeoutDeltaMicroseconds;
+        r = select(W->sd + 1, &rfd, NULL, NULL, &timeout);
+        if (r > 0) {
+            r = RKSocketRead(W, n, RKWebSocketFrameSize - 1 - n);
+            if (r > 0) {
+                n += r;
+                buf[n] = '\0';
+            } else {
+                r = -1;
+            }
+        } else if (r == 0 && k++ > RKWebSocketTimeoutThresholdSeconds * 1.0e6f / W->timeoutDeltaMicroseconds) {
+            r = -1;
+        }
+    } while (r >= 0 && W->wantActive && n < RKWebSocketFrameSize - 1 && (c = strstr(buf, "\r\n\r\n")) == NULL);
+    if (r < 0 || (c = strstr(buf, "\r\n\r\n")) == NULL) {
         fprintf(stderr, "Error during handshake.\n");
-        fprintf(stderr, "%s", (char *)buf);
+        fprintf(stderr, "%s", buf);
         return -1;
     }
-    buf[r] = '\0';
+    c[2] = '\0';
     if (W->verbose > 1) {
         printf("%s", buf);
     }
-- 
2.43.0


From a413e5d9a3ccf6ac87764bcb795c7028f127c638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:26 +0000
Subject: [PATCH 132/174] fix: WebSocket frames are received completely,
 however their bytes are divided up

---
 headers/RadarKit/RKWebSocket.h |   1 +
 source/RKWebSocket.c           | 114 ++++++++++++++++++---------------
 2 files changed, 64 insertions(+), 51 deletions(-)

diff --git a/headers/RadarKit/RKWebSocket.h b/headers/RadarKit/RKWebSocket.h
index 7987f8a..3cbde53 100644
--- a/headers/RadarKit/RKWebSocket.h
+++ b/headers/RadarKit/RKWebSocket.h
@@ -80,6 +80,7 @@ struct rk_websocket {
     uint32_t                 timeoutCount;                                     // Internal variable
     uint64_t                 tic;
 
+    uint32_t                 received;                                         // Number of bytes in the frame being received
     uint8_t                  frame[RKWebSocketFrameSize];                      // A local buffer to store a frame that is being received
     uint8_t                  outgoingFrame[RKWebSocketFrameSize];              // A local buffer to store a frame that is being sent
 };
diff --git a/source/RKWebSocket.c b/source/RKWebSocket.c
index ca5c86c..4d0d9b6 100644
--- a/source/RKWebSocket.c
+++ b/source/RKWebSocket.c
@@ -113,7 +113,8 @@ static size_t RKWebSocketFrameDecode(void **dst, void *buf) {
     payload[r + 4 * h->mask] = '\0';
     if (h->mask) {
         ws_mask_key key = {.u32 = *(uint32_t *)payload};
-        for (int i = 0; i < h->len; i++) {
+        payload += 4;
+        for (size_t i = 0; i < r; i++) {
             payload[i] ^= key.code[i % 4];
         }
     }
@@ -121,14 +122,26 @@ static size_t RKWebSocketFrameDecode(void **dst, void *buf) {
     return r;
 }
 
-static size_t RKWebSocketFrameGetTargetSize(void *buf) {
+// The number of bytes a frame needs, or its header if that has not arrived
+static size_t RKWebSocketFrameGetTargetSize(void *buf, const size_t count) {
     size_t r = sizeof(ws_frame_header);
     void *xlen = buf + sizeof(ws_frame_header);
     ws_frame_header *h = (ws_frame_header *)buf;
+    if (count < r) {
+        return r;
+    }
+    r += 4 * h->mask;
     if (h->len == 127) {
-        r += 8 + ntohll(*(uint64_t *)xlen);
+        r += 8;
+        if (count >= r) {
+            const uint64_t size = ntohll(*(uint64_t *)xlen);
+            r += MIN(size, UINT32_MAX);
+        }
     } else if (h->len == 126) {
-        r += 2 + ntohs(*(uint16_t *)xlen);
+        r += 2;
+        if (count >= r) {
+            r += ntohs(*(uint16_t *)xlen);
+        }
     } else {
         r += h->len;
     }
@@ -278,6 +291,7 @@ static int RKWebSocketConnect(RKWebSocket *W) {
         return -1;
     }
     c[2] = '\0';
+    const uint32_t headerSize = (uint32_t)(c - buf) + 4;
     if (W->verbose > 1) {
         printf("%s", buf);
     }
@@ -307,6 +321,10 @@ static int RKWebSocketConnect(RKWebSocket *W) {
         return -1;
     }
 
+    // Whatever follows the response belongs to the first frame
+    W->received = n - headerSize;
+    memmove(W->frame, W->frame + headerSize, W->received);
+
     // Discard all pending deliveries
     W->payloadTail = W->payloadHead;
 
@@ -340,9 +358,8 @@ void *transporter(void *in) {
     struct timeval timeout;
     time_t s1, s0;
 
-    uint32_t origin = 0;
-    uint32_t total = 0;
     uint32_t *p32;
+    uint8_t next;
 
     W->tic = 1;
 
@@ -415,7 +432,6 @@ void *transporter(void *in) {
             //
             //  wait up to tv_usec if there is nothing left to send
             //
-            size = 0;
             FD_ZERO(&rfd);
             FD_ZERO(&efd);
             FD_SET(W->sd, &rfd);
@@ -433,52 +449,15 @@ void *transporter(void *in) {
                     break;
                 } else if (FD_ISSET(W->sd, &rfd)) {
                     // There is something to read
-                    r = RKSocketRead(W, origin, RKWebSocketFrameSize);
+                    r = RKSocketRead(W, W->received, RKWebSocketFrameSize - 1 - W->received);
                     if (r <= 0) {
                         if (W->verbose) {
-                            fprintf(stderr, "Error. RKSocketRead() = %d   origin = %u\n", r, origin);
+                            fprintf(stderr, "Error. RKSocketRead() = %d   received = %u\n", r, W->received);
                         }
                         W->connected = false;
                         break;
                     }
-                    if (origin == 0) {
-                        targetFrameSize = RKWebSocketFrameGetTargetSize(W->frame);
-                        total = r;
-                    } else {
-                        total += r;
-                    }
-                    if (total < targetFrameSize) {
-                        origin += r;
-                        continue;
-                    } else {
-                        origin = 0;
-                    }
-                    size = RKWebSocketFrameDecode((void **)&anchor, W->frame);
-                    if (!h->fin) {
-                        fprintf(stderr, "I need upgrade!\n"
-                                        "I need upgrade!\n"
-                                        "I need upgrade!\n"
-                                        "I cannot handle frames with h->fin = 0.\n");
-                    }
-                    if (W->verbose > 1) {
-                        if (W->verbose > 2) {
-                            printf("%2u read  ", total); RKShowWebsocketFrameHeader(W->frame);
-                        }
-                        if (size != 4 && h->opcode == RFC6455_OPCODE_PING) {
-                            RKBytesInHex(show, anchor, size);
-                        } else if (size > 32) {
-                            RKHeadTailBytesInHex(show, anchor, size);
-                        } else {
-                            memcpy(show, anchor, size);
-                            show[size] = '\0';
-                        }
-                        RKLog("%s S-%s: %s%s%s (%zu)\n", W->name,
-                              OPCODE_STRING(h->opcode),
-                              rkGlobalParameters.showColor ? RKOrangeColor : "",
-                              show,
-                              rkGlobalParameters.showColor ? RKNoColor : "",
-                              size);
-                    }
+                    W->received += r;
                     W->timeoutCount = 0;
                 } else {
                     // This shall not reach
@@ -514,8 +493,35 @@ void *transporter(void *in) {
                     }
                 }
             }
-            // Interpret the payload if something was read
-            if (size > 0) {
+            // Interpret every frame that has completely arrived
+            while (W->connected && W->received >= (targetFrameSize = RKWebSocketFrameGetTargetSize(W->frame, W->received))) {
+                next = W->frame[targetFrameSize];
+                size = RKWebSocketFrameDecode(&anchor, W->frame);
+                if (!h->fin) {
+                    fprintf(stderr, "I need upgrade!\n"
+                                    "I need upgrade!\n"
+                                    "I need upgrade!\n"
+                                    "I cannot handle frames with h->fin = 0.\n");
+                }
+                if (W->verbose > 1) {
+                    if (W->verbose > 2) {
+                        printf("%2zu read  ", targetFrameSize); RKShowWebsocketFrameHeader(W->frame);
+                    }
+                    if (size != 4 && h->opcode == RFC6455_OPCODE_PING) {
+                        RKBytesInHex(show, anchor, size);
+                    } else if (size > 32) {
+                        RKHeadTailBytesInHex(show, anchor, size);
+                    } else {
+                        memcpy(show, anchor, size);
+                        show[size] = '\0';
+                    }
+                    RKLog("%s S-%s: %s%s%s (%zu)\n", W->name,
+                          OPCODE_STRING(h->opcode),
+                          rkGlobalParameters.showColor ? RKOrangeColor : "",
+                          show,
+                          rkGlobalParameters.showColor ? RKNoColor : "",
+                          size);
+                }
                 if (h->opcode == RFC6455_OPCODE_PING) {
                     // Make a copy since payload --> W->buf or the behavior is unpredictable
                     memcpy(message, anchor, h->len); message[h->len] = '\0';
@@ -544,13 +550,19 @@ void *transporter(void *in) {
                     W->timeoutCount = 0;
                 } else if (h->opcode == RFC6455_OPCODE_CLOSE) {
                     W->connected = false;
-                    break;
                 } else if (h->opcode == RFC6455_OPCODE_TEXT || h->opcode == RFC6455_OPCODE_BINARY) {
                     if (W->onMessage) {
                         W->onMessage(W, anchor, size);
                     }
                 }
-                W->timeoutCount = 0;
+                // Keep what arrived of the next frame
+                W->frame[targetFrameSize] = next;
+                W->received -= targetFrameSize;
+                memmove(W->frame, W->frame + targetFrameSize, W->received);
+            }
+            if (targetFrameSize > RKWebSocketFrameSize - 1) {
+                RKLog("%s Error. Frame of %zu bytes is too large.\n", W->name, targetFrameSize);
+                W->connected = false;
             }
         } // while (W->wantActive && W->connected) ...
         if (W->sd) {
-- 
2.43.0


From 08551cf92e2dad2919bdd56699dd2f92ea1205c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:27 +0000
Subject: [PATCH 133/174] fix: WebSocket frame is sent completely when the
 socket takes only a part of it

---
 source/RKWebSocket.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/source/RKWebSocket.c b/source/RKWebSocket.c
index 4d0d9b6..dc77563 100644
--- a/source/RKWebSocket.c
+++ b/source/RKWebSocket.c
@@ -38,11 +38,21 @@ static int RKSocketRead(RKWebSocket *W, uint32_t origin, size_t size) {
 }
 
 static int RKSocketWrite(RKWebSocket *W, size_t size) {
+    int r;
+    size_t s = 0;
     W->tic++;
-    if (W->useSSL) {
-        return SSL_write(W->ssl, W->outgoingFrame, (int)size);
+    while (s < size) {
+        if (W->useSSL) {
+            r = SSL_write(W->ssl, W->outgoingFrame + s, (int)(size - s));
+        } else {
+            r = (int)write(W->sd, W->outgoingFrame + s, size - s);
+        }
+        if (r <= 0) {
+            return r;
+        }
+        s += r;
     }
-    return (int)write(W->sd, W->outgoingFrame, size);
+    return (int)s;
 }
 
 static size_t RKWebSocketFrameEncode(void *buf, RFC6455_OPCODE code, const void *src, size_t size) {
-- 
2.43.0


From dacbedb105bb4b259750ff0768d9ceca28c28f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:27 +0000
Subject: [PATCH 134/174] fix: WebSocket is not taken as connected after an
 error while waiting to write

---
 source/RKWebSocket.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/RKWebSocket.c b/source/RKWebSocket.c
index dc77563..0eeb448 100644
--- a/source/RKWebSocket.c
+++ b/source/RKWebSocket.c
@@ -575,6 +575,7 @@ void *transporter(void *in) {
                 W->connected = false;
             }
         } // while (W->wantActive && W->connected) ...
+        W->connected = false;
         if (W->sd) {
             if (W->verbose > 1) {
                 RKLog("%s Closing socket sd = %d ...\n", W->name, W->sd);
-- 
2.43.0


From 5d3a8f20bbad9d5fed9647cab6de6b26d706a784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:28 +0000
Subject: [PATCH 135/174] fix: WebSocket message that does not fit into the
 queue does not discard those in it

---
 source/RKWebSocket.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/RKWebSocket.c b/source/RKWebSocket.c
index 0eeb448..2bdde96 100644
--- a/source/RKWebSocket.c
+++ b/source/RKWebSocket.c
@@ -762,6 +762,11 @@ void RKWebSocketWait(RKWebSocket *W) {
 int RKWebSocketSend(RKWebSocket *W, void *source, const size_t size) {
     pthread_mutex_lock(&W->lock);
     uint16_t k = W->payloadHead == RKWebSocketPayloadDepth - 1 ? 0 : W->payloadHead + 1;
+    if (k == W->payloadTail) {
+        // Too many pending deliveries, adding one more would discard all of them
+        pthread_mutex_unlock(&W->lock);
+        return -1;
+    }
     W->payloads[k].source = source;
     W->payloads[k].size = size;
     W->payloadHead = k;
-- 
2.43.0


From 0006e4cd3d3bcce1a7293c2a3414550be8aa66f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:29 +0000
Subject: [PATCH 136/174] fix: address of a WebSocket may come with a protocol
 and without a port

---
 source/RKWebSocket.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/source/RKWebSocket.c b/source/RKWebSocket.c
index 2bdde96..71c87c4 100644
--- a/source/RKWebSocket.c
+++ b/source/RKWebSocket.c
@@ -648,14 +648,13 @@ RKWebSocket *RKWebSocketInit(const char *host, const char *path) {
     }
     n = strstr(c, ":");
     if (n == NULL) {
-        W->port = 80;
-        strcpy(W->host, host);
+        W->port = W->useSSL ? 443 : 80;
+        snprintf(W->host, sizeof(W->host), "%s", c);
     } else {
         W->port = atoi(n + 1);
         len = (size_t)(n - c);
         if (len) {
-            strncpy(W->host, c, len);
-            W->host[len] = '\0';
+            snprintf(W->host, sizeof(W->host), "%.*s", (int)len, c);
         } else {
             sprintf(W->host, "localhost");
         }
@@ -667,7 +666,7 @@ RKWebSocket *RKWebSocketInit(const char *host, const char *path) {
     if (path == NULL || strlen(path) == 0) {
         sprintf(W->path, "/");
     } else {
-        strcpy(W->path, path);
+        snprintf(W->path, sizeof(W->path), "%s", path);
     }
     // Establish the SSL context if necessary
     if (W->useSSL) {
-- 
2.43.0


From c4d0fe896e719c499a116d44f7be2ccd46e3d43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:29 +0000
Subject: [PATCH 137/174] fix: stopping a WebSocket that is not active does
 nothing

---
 source/RKWebSocket.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/RKWebSocket.c b/source/RKWebSocket.c
index 71c87c4..e3bdf36 100644
--- a/source/RKWebSocket.c
+++ b/source/RKWebSocket.c
@@ -738,15 +738,19 @@ void RKWebSocketStart(RKWebSocket *W) {
     pthread_mutex_unlock(&W->lock);
     if (pthread_create(&W->threadId, &W->threadAttributes, transporter, W)) {
         fprintf(stderr, "Unable to launch a run loop\n");
+        W->wantActive = false;
     }
     return;
 }
 
 void RKWebSocketStop(RKWebSocket *W) {
     pthread_mutex_lock(&W->lock);
+    const bool active = W->wantActive;
     W->wantActive = false;
     pthread_mutex_unlock(&W->lock);
-    pthread_join(W->threadId, NULL);
+    if (active) {
+        pthread_join(W->threadId, NULL);
+    }
 }
 
 void RKWebSocketWait(RKWebSocket *W) {
-- 
2.43.0


From f8373e0efb1f8c05faa0826d68288e527cc14cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:30 +0000
Subject: [PATCH 138/174] fix: description of a WebSocket ping does not run
 past the end of its string

---
 source/RKWebSocket.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKWebSocket.c b/source/RKWebSocket.c
index e3bdf36..38c2726 100644
--- a/source/RKWebSocket.c
+++ b/source/RKWebSocket.c
@@ -360,7 +360,7 @@ void *transporter(void *in) {
     char words[][5] = {"love", "hope", "cool", "cute", "sexy", "nice", "calm", "wish"};
     char uword[5] = "xxxx";
     char message[256];
-    char show[256];
+    char show[512];
 
     fd_set rfd;
     fd_set wfd;
-- 
2.43.0


From e5b71db72009de9a9d30964e290b0c64db177e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:31 +0000
Subject: [PATCH 139/174] fix: secure WebSocket connects again after a
 connection has ended

---
 source/RKWebSocket.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/RKWebSocket.c b/source/RKWebSocket.c
index 38c2726..b050d81 100644
--- a/source/RKWebSocket.c
+++ b/source/RKWebSocket.c
@@ -237,8 +237,12 @@ static int RKWebSocketConnect(RKWebSocket *W) {
         return -1;
     }
     if (W->useSSL) {
+        SSL_clear(W->ssl);
         SSL_set_fd(W->ssl, W->sd);
-        SSL_connect(W->ssl);
+        if ((r = SSL_connect(W->ssl)) <= 0) {
+            RKLog("%s Error. SSL connection failed.  r = %d\n", W->name, r);
+            return -1;
+        }
     }
 
     char *buf = (char *)W->frame;
-- 
2.43.0


From b9e226c7fd32aefe7bec9ef27ed442c658839b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:58 +0000
Subject: [PATCH 140/174] fix: description of an oversized WebSocket ping does
 not run past the end of its string

---
 source/RKWebSocket.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKWebSocket.c b/source/RKWebSocket.c
index b050d81..914b0a5 100644
--- a/source/RKWebSocket.c
+++ b/source/RKWebSocket.c
@@ -521,7 +521,7 @@ void *transporter(void *in) {
                     if (W->verbose > 2) {
                         printf("%2zu read  ", targetFrameSize); RKShowWebsocketFrameHeader(W->frame);
                     }
-                    if (size != 4 && h->opcode == RFC6455_OPCODE_PING) {
+                    if (size != 4 && size < 128 && h->opcode == RFC6455_OPCODE_PING) {
                         RKBytesInHex(show, anchor, size);
                     } else if (size > 32) {
                         RKHeadTailBytesInHex(show, anchor, size);
-- 
2.43.0


From e46320d2b45df3386d17c274fbbc6ae81e885aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:03 +0000
Subject: [PATCH 141/174] fix: freeing a secure WebSocket frees its SSL objects

---
 source/RKWebSocket.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/RKWebSocket.c b/source/RKWebSocket.c
index 914b0a5..69cefc7 100644
--- a/source/RKWebSocket.c
+++ b/source/RKWebSocket.c
@@ -688,6 +688,10 @@ RKWebSocket *RKWebSocketInit(const char *host, const char *path) {
 }
 
 void RKWebSocketFree(RKWebSocket *W) {
+    if (W->useSSL) {
+        SSL_free(W->ssl);
+        SSL_CTX_free(W->sslContext);
+    }
     pthread_attr_destroy(&W->threadAttributes);
     pthread_mutex_destroy(&W->lock);
     free(W);
-- 
2.43.0


From 81c539002a79496f0f0b5478c48b59c81db76da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:30 +0000
Subject: [PATCH 142/174] fix: WebSocket frame that comes with the response is
 delivered even when the connection ends right after

---
 source/RKWebSocket.c | 145 ++++++++++++++++++++++---------------------
 1 file changed, 74 insertions(+), 71 deletions(-)

diff --git a/source/RKWebSocket.c b/source/RKWebSocket.c
index 69cefc7..1533fa1 100644
--- a/source/RKWebSocket.c
+++ b/source/RKWebSocket.c
@@ -383,6 +383,80 @@ void *transporter(void *in) {
 
         // Run loop for read and write
         while (W->wantActive && W->connected) {
+            // Interpret every frame that has completely arrived
+            while (W->connected && W->received >= (targetFrameSize = RKWebSocketFrameGetTargetSize(W->frame, W->received))) {
+                next = W->frame[targetFrameSize];
+                size = RKWebSocketFrameDecode(&anchor, W->frame);
+                if (!h->fin) {
+                    fprintf(stderr, "I need upgrade!\n"
+                                    "I need upgrade!\n"
+                                    "I need upgrade!\n"
+                                    "I cannot handle frames with h->fin = 0.\n");
+                }
+                if (W->verbose > 1) {
+                    if (W->verbose > 2) {
+                        printf("%2zu read  ", targetFrameSize); RKShowWebsocketFrameHeader(W->frame);
+                    }
+                    if (size != 4 && size < 128 && h->opcode == RFC6455_OPCODE_PING) {
+                        RKBytesInHex(show, anchor, size);
+                    } else if (size > 32) {
+                        RKHeadTailBytesInHex(show, anchor, size);
+                    } else {
+                        memcpy(show, anchor, size);
+                        show[size] = '\0';
+                    }
+                    RKLog("%s S-%s: %s%s%s (%zu)\n", W->name,
+                          OPCODE_STRING(h->opcode),
+                          rkGlobalParameters.showColor ? RKOrangeColor : "",
+                          show,
+                          rkGlobalParameters.showColor ? RKNoColor : "",
+                          size);
+                }
+                if (h->opcode == RFC6455_OPCODE_PING) {
+                    // Make a copy since payload --> W->buf or the behavior is unpredictable
+                    memcpy(message, anchor, h->len); message[h->len] = '\0';
+                    RKWebSocketPong(W, message, h->len);
+                    if (W->verbose > 1) {
+                        p32 = (uint32_t *)&W->outgoingFrame[2];
+                        ws_mask_key key = {.u32 = *p32};
+                        for (i = 0; i < 4; i++) {
+                            uword[i] = W->outgoingFrame[6 + i] ^ key.code[i % 4];
+                        }
+                        if (h->len != 4) {
+                            RKBytesInHex(show, message, h->len);
+                        } else {
+                            memcpy(show, message, h->len + 1);
+                        }
+                        RKLog("%s C-PONG: %s%s%s (%zu)\n", W->name,
+                              rkGlobalParameters.showColor ? RKLimeColor : "",
+                              show,
+                              rkGlobalParameters.showColor ? RKNoColor : "",
+                              h->len);
+                        if (W->verbose > 2) {
+                            printf("%2d sent  ", r); RKShowWebsocketFrameHeader(W->outgoingFrame);
+                        }
+                    }
+                } else if (h->opcode == RFC6455_OPCODE_PONG) {
+                    W->timeoutCount = 0;
+                } else if (h->opcode == RFC6455_OPCODE_CLOSE) {
+                    W->connected = false;
+                } else if (h->opcode == RFC6455_OPCODE_TEXT || h->opcode == RFC6455_OPCODE_BINARY) {
+                    if (W->onMessage) {
+                        W->onMessage(W, anchor, size);
+                    }
+                }
+                // Keep what arrived of the next frame
+                W->frame[targetFrameSize] = next;
+                W->received -= targetFrameSize;
+                memmove(W->frame, W->frame + targetFrameSize, W->received);
+            }
+            if (targetFrameSize > RKWebSocketFrameSize - 1) {
+                RKLog("%s Error. Frame of %zu bytes is too large.\n", W->name, targetFrameSize);
+                W->connected = false;
+            }
+            if (!W->connected) {
+                break;
+            }
             //
             //  Write
             //
@@ -507,77 +581,6 @@ void *transporter(void *in) {
                     }
                 }
             }
-            // Interpret every frame that has completely arrived
-            while (W->connected && W->received >= (targetFrameSize = RKWebSocketFrameGetTargetSize(W->frame, W->received))) {
-                next = W->frame[targetFrameSize];
-                size = RKWebSocketFrameDecode(&anchor, W->frame);
-                if (!h->fin) {
-                    fprintf(stderr, "I need upgrade!\n"
-                                    "I need upgrade!\n"
-                                    "I need upgrade!\n"
-                                    "I cannot handle frames with h->fin = 0.\n");
-                }
-                if (W->verbose > 1) {
-                    if (W->verbose > 2) {
-                        printf("%2zu read  ", targetFrameSize); RKShowWebsocketFrameHeader(W->frame);
-                    }
-                    if (size != 4 && size < 128 && h->opcode == RFC6455_OPCODE_PING) {
-                        RKBytesInHex(show, anchor, size);
-                    } else if (size > 32) {
-                        RKHeadTailBytesInHex(show, anchor, size);
-                    } else {
-                        memcpy(show, anchor, size);
-                        show[size] = '\0';
-                    }
-                    RKLog("%s S-%s: %s%s%s (%zu)\n", W->name,
-                          OPCODE_STRING(h->opcode),
-                          rkGlobalParameters.showColor ? RKOrangeColor : "",
-                          show,
-                          rkGlobalParameters.showColor ? RKNoColor : "",
-                          size);
-                }
-                if (h->opcode == RFC6455_OPCODE_PING) {
-                    // Make a copy since payload --> W->buf or the behavior is unpredictable
-                    memcpy(message, anchor, h->len); message[h->len] = '\0';
-                    RKWebSocketPong(W, message, h->len);
-                    if (W->verbose > 1) {
-                        p32 = (uint32_t *)&W->outgoingFrame[2];
-                        ws_mask_key key = {.u32 = *p32};
-                        for (i = 0; i < 4; i++) {
-                            uword[i] = W->outgoingFrame[6 + i] ^ key.code[i % 4];
-                        }
-                        if (h->len != 4) {
-                            RKBytesInHex(show, message, h->len);
-                        } else {
-                            memcpy(show, message, h->len + 1);
-                        }
-                        RKLog("%s C-PONG: %s%s%s (%zu)\n", W->name,
-                              rkGlobalParameters.showColor ? RKLimeColor : "",
-                              show,
-                              rkGlobalParameters.showColor ? RKNoColor : "",
-                              h->len);
-                        if (W->verbose > 2) {
-                            printf("%2d sent  ", r); RKShowWebsocketFrameHeader(W->outgoingFrame);
-                        }
-                    }
-                } else if (h->opcode == RFC6455_OPCODE_PONG) {
-                    W->timeoutCount = 0;
-                } else if (h->opcode == RFC6455_OPCODE_CLOSE) {
-                    W->connected = false;
-                } else if (h->opcode == RFC6455_OPCODE_TEXT || h->opcode == RFC6455_OPCODE_BINARY) {
-                    if (W->onMessage) {
-                        W->onMessage(W, anchor, size);
-                    }
-                }
-                // Keep what arrived of the next frame
-                W->frame[targetFrameSize] = next;
-                W->received -= targetFrameSize;
-                memmove(W->frame, W->frame + targetFrameSize, W->received);
-            }
-            if (targetFrameSize > RKWebSocketFrameSize - 1) {
-                RKLog("%s Error. Frame of %zu bytes is too large.\n", W->name, targetFrameSize);
-                W->connected = false;
-            }
         } // while (W->wantActive && W->connected) ...
         W->connected = false;
         if (W->sd) {
-- 
2.43.0


From 530881753763d32ca31b4aad0d449022de44b443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:30 +0000
Subject: [PATCH 143/174] fix: WebSocket whose ping or pong can not be sent is
 not taken as connected

---
 source/RKWebSocket.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/RKWebSocket.c b/source/RKWebSocket.c
index 1533fa1..a69ee98 100644
--- a/source/RKWebSocket.c
+++ b/source/RKWebSocket.c
@@ -163,8 +163,9 @@ static int RKWebSocketPingPong(RKWebSocket *W, const bool ping, const char *mess
         ping ? RFC6455_OPCODE_PING : RFC6455_OPCODE_PONG,
         message, message == NULL ? 0 : (len == 0 ? strlen(message) : len));
     int r = RKSocketWrite(W, size);
-    if (r < 0) {
+    if (r <= 0) {
         fprintf(stderr, "Error. Unable to write. r = %d\n", r);
+        W->connected = false;
     } else if (W->verbose > 2) {
         printf("Frame of size %zu / %d sent.\n", size, r);
     }
-- 
2.43.0


From 114d865a97df247d1a312126b62bfef059975ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:18 +0000
Subject: [PATCH 144/174] fix: WebSocket whose request can not be sent does not
 wait for the response

---
 source/RKWebSocket.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/RKWebSocket.c b/source/RKWebSocket.c
index a69ee98..9f662a3 100644
--- a/source/RKWebSocket.c
+++ b/source/RKWebSocket.c
@@ -276,7 +276,10 @@ static int RKWebSocketConnect(RKWebSocket *W) {
         printf("%s", (char *)W->outgoingFrame);
     }
 
-    RKSocketWrite(W, strlen((char *)W->outgoingFrame));
+    if ((r = RKSocketWrite(W, strlen((char *)W->outgoingFrame))) <= 0) {
+        RKLog("%s Error. Unable to send request.  r = %d\n", W->name, r);
+        return -1;
+    }
     // Collect the response until the end of its header
     uint32_t n = 0, k = 0;
     fd_set rfd;
-- 
2.43.0


From 3a6996d24cd19130e45415b907557d8010808a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:32 +0000
Subject: [PATCH 145/174] fix: product stream sends the header of the ray

---
 source/RKCommandCenter.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/source/RKCommandCenter.c b/source/RKCommandCenter.c
index f7f118f..e7efdbe 100644
--- a/source/RKCommandCenter.c
+++ b/source/RKCommandCenter.c
@@ -897,12 +897,12 @@ int socketStreamHandler(RKOperator *O) {
                 uint32_t productCount = __builtin_popcount(productList);
                 //RKLog("ProductCount = %d / %x\n", productCount, productList);
 
-                rayHeader.gateCount /= user->rayDownSamplingRatio;
-                rayHeader.gateSizeMeters *= (float)user->rayDownSamplingRatio;
+                rayHeaderV1.gateCount /= user->rayDownSamplingRatio;
+                rayHeaderV1.gateSizeMeters *= (float)user->rayDownSamplingRatio;
 
                 O->delimTx.type = RKNetworkPacketTypeRayDisplay;
-                O->delimTx.size = (uint32_t)(sizeof(RKRayHeader) + productCount * rayHeader.gateCount * sizeof(float));
-                RKOperatorSendPackets(O, &O->delimTx, sizeof(RKNetDelimiter), &rayHeader, sizeof(RKRayHeader), NULL);
+                O->delimTx.size = (uint32_t)(sizeof(RKRayHeaderV1) + productCount * rayHeaderV1.gateCount * sizeof(float));
+                RKOperatorSendPackets(O, &O->delimTx, sizeof(RKNetDelimiter), &rayHeaderV1, sizeof(RKRayHeaderV1), NULL);
 
                 for (j = 0; j < productCount; j++) {
                     if (productList & RKBaseProductListFloatZ) {
@@ -940,10 +940,10 @@ int socketStreamHandler(RKOperator *O) {
                     }
                     if (f32Data) {
                         float *lowRateData = (float *)user->string;
-                        for (i = 0, k = 0; i < rayHeader.gateCount; i++, k += user->rayDownSamplingRatio) {
+                        for (i = 0, k = 0; i < rayHeaderV1.gateCount; i++, k += user->rayDownSamplingRatio) {
                             lowRateData[i] = f32Data[k];
                         }
-                        RKOperatorSendPackets(O, lowRateData, rayHeader.gateCount * sizeof(float), NULL);
+                        RKOperatorSendPackets(O, lowRateData, rayHeaderV1.gateCount * sizeof(float), NULL);
                     }
                 }
                 ray->header.s |= RKRayStatusStreamed;
-- 
2.43.0


From acc137513f56fa0413e0d88178b7d2beb3682595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:32 +0000
Subject: [PATCH 146/174] fix: display stream sends all the products that its
 header lists

---
 source/RKCommandCenter.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKCommandCenter.c b/source/RKCommandCenter.c
index e7efdbe..a914f63 100644
--- a/source/RKCommandCenter.c
+++ b/source/RKCommandCenter.c
@@ -1027,7 +1027,7 @@ int socketStreamHandler(RKOperator *O) {
                 if (user->streams & RKStreamDisplaySv) {
                     rayHeaderV1.baseProductList |= RKBaseProductListUInt8Sv;
                 }
-                uint32_t displayList = rayHeaderV1.baseProductList & RKBaseProductListUInt8ZVWDPR;
+                uint32_t displayList = rayHeaderV1.baseProductList & RKBaseProductListUInt8ZVWDPRKSQ;
                 uint32_t displayCount = __builtin_popcount(displayList);
                 //RKLog("displayCount = %d / %x\n", productCount, productList);
 
-- 
2.43.0


From 30eb95fc62ed6b2dc515ed281a18d63b74b37df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:32 +0000
Subject: [PATCH 147/174] fix: health stream goes on with healths that the
 reporter has used

---
 source/RKCommandCenter.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/RKCommandCenter.c b/source/RKCommandCenter.c
index a914f63..52c5d31 100644
--- a/source/RKCommandCenter.c
+++ b/source/RKCommandCenter.c
@@ -801,13 +801,13 @@ int socketStreamHandler(RKOperator *O) {
             user->healthIndex = endIndex;
         }
         s = 0;
-        while (user->radar->healths[user->healthIndex].flag != RKHealthFlagReady && engine->server->state == RKServerStateActive && s++ < 20) {
+        while (!(user->radar->healths[user->healthIndex].flag & RKHealthFlagReady) && engine->server->state == RKServerStateActive && s++ < 20) {
             if (s % 10 == 0 && engine->verbose > 1) {
                 RKLog("%s %s sleep 0/%.1f s  RKHealth\n", engine->name, O->name, s * 0.1f);
             }
             usleep(50000);
         }
-        if (user->radar->healths[user->healthIndex].flag == RKHealthFlagReady && engine->server->state == RKServerStateActive) {
+        if (user->radar->healths[user->healthIndex].flag & RKHealthFlagReady && engine->server->state == RKServerStateActive) {
             j = 0;
             k = 0;
             while (user->healthIndex != endIndex && k < RKMaximumStringLength - 200) {
-- 
2.43.0


From 4b274afe340c6f69ffb094e58581a7f3efacdb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:32 +0000
Subject: [PATCH 148/174] fix: health and status streams that start before the
 first one do not wait for the slot to come around

---
 source/RKCommandCenter.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/RKCommandCenter.c b/source/RKCommandCenter.c
index 52c5d31..44e2d7f 100644
--- a/source/RKCommandCenter.c
+++ b/source/RKCommandCenter.c
@@ -784,6 +784,8 @@ int socketStreamHandler(RKOperator *O) {
             }
         } else {
             RKLog("%s %s No Status / Deactivated.   statusIndex = %d\n", engine->name, O->name, user->statusIndex);
+            // Not there yet, start over from the latest one
+            user->streamsInProgress &= ~(RKStream)RKStreamStatusProcessorStatus;
         }
     }
 
@@ -825,6 +827,8 @@ int socketStreamHandler(RKOperator *O) {
             }
         } else {
             RKLog("%s %s No Health / Deactivated.   healthIndex = %d / %d\n", engine->name, O->name, user->healthIndex, user->radar->healthIndex);
+            // Not there yet, start over from the latest one
+            user->streamsInProgress &= ~(RKStream)RKStreamHealthInJSON;
         }
     }
 
-- 
2.43.0


From b740feed9e7436667dd7f36020d3a9c205acf395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:40 +0000
Subject: [PATCH 149/174] fix: ray streams that start before the first ray do
 not send slots without one

---
 source/RKCommandCenter.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/source/RKCommandCenter.c b/source/RKCommandCenter.c
index 44e2d7f..c749289 100644
--- a/source/RKCommandCenter.c
+++ b/source/RKCommandCenter.c
@@ -862,6 +862,11 @@ int socketStreamHandler(RKOperator *O) {
         if (ray->header.s & RKRayStatusReady && engine->server->state == RKServerStateActive) {
             while (user->rayIndex != endIndex) {
                 ray = RKGetRayFromBuffer(user->radar->rays, user->rayIndex);
+                if (!(ray->header.s & RKRayStatusReady)) {
+                    // No ray in this slot, the stream started before the first one
+                    user->rayIndex = RKNextModuloS(user->rayIndex, user->radar->desc.rayBufferDepth);
+                    continue;
+                }
                 // Duplicate and send the header with only selected products
                 //memcpy(&rayHeader, &ray->header, sizeof(RKRayHeader));
                 copyRayHeader(&rayHeaderV1, &ray->header);
@@ -995,6 +1000,11 @@ int socketStreamHandler(RKOperator *O) {
         if (ray->header.s & RKRayStatusReady && engine->server->state == RKServerStateActive) {
             while (user->rayIndex != endIndex) {
                 ray = RKGetRayFromBuffer(user->radar->rays, user->rayIndex);
+                if (!(ray->header.s & RKRayStatusReady)) {
+                    // No ray in this slot, the stream started before the first one
+                    user->rayIndex = RKNextModuloS(user->rayIndex, user->radar->desc.rayBufferDepth);
+                    continue;
+                }
                 // Duplicate and send the header with only selected products
                 // memcpy(&rayHeader, &ray->header, sizeof(RKRayHeader));
                 copyRayHeader(&rayHeaderV1, &ray->header);
-- 
2.43.0


From 62cb9cbefe74d347d2068fba50a52f8352350ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:40 +0000
Subject: [PATCH 150/174] fix: responses to commands do not end up within the
 messages of a stream

---
 source/RKCommandCenter.c | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/source/RKCommandCenter.c b/source/RKCommandCenter.c
index c749289..ba568cc 100644
--- a/source/RKCommandCenter.c
+++ b/source/RKCommandCenter.c
@@ -399,6 +399,7 @@ int socketStreamHandler(RKOperator *O) {
 
     int gid;
     ssize_t size;
+    ssize_t dataSize;
     uint32_t endIndex;
 
     gettimeofday(&t0, NULL);
@@ -911,7 +912,7 @@ int socketStreamHandler(RKOperator *O) {
 
                 O->delimTx.type = RKNetworkPacketTypeRayDisplay;
                 O->delimTx.size = (uint32_t)(sizeof(RKRayHeaderV1) + productCount * rayHeaderV1.gateCount * sizeof(float));
-                RKOperatorSendPackets(O, &O->delimTx, sizeof(RKNetDelimiter), &rayHeaderV1, sizeof(RKRayHeaderV1), NULL);
+                size = 0;
 
                 for (j = 0; j < productCount; j++) {
                     if (productList & RKBaseProductListFloatZ) {
@@ -948,13 +949,15 @@ int socketStreamHandler(RKOperator *O) {
                         f32Data = NULL;
                     }
                     if (f32Data) {
-                        float *lowRateData = (float *)user->string;
+                        float *lowRateData = (float *)(user->string + size);
                         for (i = 0, k = 0; i < rayHeaderV1.gateCount; i++, k += user->rayDownSamplingRatio) {
                             lowRateData[i] = f32Data[k];
                         }
-                        RKOperatorSendPackets(O, lowRateData, rayHeaderV1.gateCount * sizeof(float), NULL);
+                        size += rayHeaderV1.gateCount * sizeof(float);
                     }
                 }
+                // The message goes out in one call, so that no response to a command comes in between
+                RKOperatorSendPackets(O, &O->delimTx, sizeof(RKNetDelimiter), &rayHeaderV1, sizeof(RKRayHeaderV1), user->string, size, NULL);
                 ray->header.s |= RKRayStatusStreamed;
                 user->rayIndex = RKNextModuloS(user->rayIndex, user->radar->desc.rayBufferDepth);
             }
@@ -1050,7 +1053,7 @@ int socketStreamHandler(RKOperator *O) {
 
                 O->delimTx.type = RKNetworkPacketTypeRayDisplay;
                 O->delimTx.size = (uint32_t)(sizeof(RKRayHeaderV1) + displayCount * rayHeaderV1.gateCount * sizeof(uint8_t));
-                RKOperatorSendPackets(O, &O->delimTx, sizeof(RKNetDelimiter), &rayHeaderV1, sizeof(RKRayHeaderV1), NULL);
+                size = 0;
 
                 for (j = 0; j < displayCount; j++) {
                     if (displayList & RKBaseProductListUInt8Z) {
@@ -1087,13 +1090,15 @@ int socketStreamHandler(RKOperator *O) {
                         u8Data = NULL;
                     }
                     if (u8Data) {
-                        uint8_t *lowRateData = (uint8_t *)user->string;
+                        uint8_t *lowRateData = (uint8_t *)(user->string + size);
                         for (i = 0, k = 0; i < rayHeaderV1.gateCount; i++, k += user->rayDownSamplingRatio) {
                             lowRateData[i] = u8Data[k];
                         }
-                        RKOperatorSendPackets(O, lowRateData, rayHeaderV1.gateCount * sizeof(uint8_t), NULL);
+                        size += rayHeaderV1.gateCount * sizeof(uint8_t);
                     }
                 }
+                // The message goes out in one call, so that no response to a command comes in between
+                RKOperatorSendPackets(O, &O->delimTx, sizeof(RKNetDelimiter), &rayHeaderV1, sizeof(RKRayHeaderV1), user->string, size, NULL);
                 ray->header.s |= RKRayStatusStreamed;
                 user->rayIndex = RKNextModuloS(user->rayIndex, user->radar->desc.rayBufferDepth);
             } // while (user->rayIndex != endIndex) ...
@@ -1233,7 +1238,7 @@ int socketStreamHandler(RKOperator *O) {
                         ray = sweep->rays[k];
                         memcpy(&rayHeader, &ray->header, sizeof(RKRayHeader));
                         rayHeader.baseProductList = sweepHeader.baseProductList;
-                        size += RKOperatorSendPackets(O, &O->delimTx, sizeof(RKNetDelimiter), &rayHeader, sizeof(RKRayHeader), NULL);
+                        dataSize = 0;
                         productList = sweepHeader.baseProductList;
                         if (engine->verbose > 1 && (k < 3 || k == sweepHeader.rayCount - 1)) {
                             RKLog(">%s %s k = %d   moments = %s   (%x)\n", engine->name, O->name, k, user->scratch + 1, productList);
@@ -1273,12 +1278,15 @@ int socketStreamHandler(RKOperator *O) {
                                 f32Data = NULL;
                             }
                             if (f32Data) {
-                                size += RKOperatorSendPackets(O, f32Data, sweep->header.gateCount * sizeof(float), NULL);
+                                memcpy(user->string + dataSize, f32Data, sweep->header.gateCount * sizeof(float));
+                                dataSize += sweep->header.gateCount * sizeof(float);
                                 user->timeLastOut = time;
                             } else if (k == 0) {
                                 RKLog("No data found %04Xh", productList);
                             }
                         } // for (j = 0; ...
+                        // The message goes out in one call, so that no response to a command comes in between
+                        size += RKOperatorSendPackets(O, &O->delimTx, sizeof(RKNetDelimiter), &rayHeader, sizeof(RKRayHeader), user->string, dataSize, NULL);
                     } // for (k = 0; ...
 
                     gettimeofday(&timevalTx, NULL);
-- 
2.43.0


From c375a0ed28d099bd923c2f911bf96f50a6e48895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:40 +0000
Subject: [PATCH 151/174] fix: radar description and controls are not announced
 with the delimiter of the streams

---
 source/RKCommandCenter.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/source/RKCommandCenter.c b/source/RKCommandCenter.c
index ba568cc..2e71f74 100644
--- a/source/RKCommandCenter.c
+++ b/source/RKCommandCenter.c
@@ -107,6 +107,9 @@ int socketCommandHandler(RKOperator *O) {
 
     RKStream stream;
 
+    // A delimiter for this thread, the stream thread uses the one of the operator
+    RKNetDelimiter delimiter;
+
     while (commandString != NULL) {
         if ((commandStringEnd = strchr(commandString, ';')) != NULL) {
             *commandStringEnd = '\0';
@@ -226,9 +229,10 @@ int socketCommandHandler(RKOperator *O) {
                     break;
 
                 case 'i':
-                    O->delimTx.type = RKNetworkPacketTypeRadarDescription;
-                    O->delimTx.size = (uint32_t)sizeof(RKRadarDesc);
-                    RKOperatorSendPackets(O, &O->delimTx, sizeof(RKNetDelimiter), &user->radar->desc, sizeof(RKRadarDesc), NULL);
+                    delimiter = O->delimString;
+                    delimiter.type = RKNetworkPacketTypeRadarDescription;
+                    delimiter.size = (uint32_t)sizeof(RKRadarDesc);
+                    RKOperatorSendPackets(O, &delimiter, sizeof(RKNetDelimiter), &user->radar->desc, sizeof(RKRadarDesc), NULL);
                     break;
 
                 case 'q':
@@ -329,9 +333,10 @@ int socketCommandHandler(RKOperator *O) {
                 case 'a':
                     RKLog("%s %s Queue command '%s' to relay.\n", engine->name, O->name, commandString);
                     RKRadarRelayExec(user->radar->radarRelay, commandString, user->commandResponse);
-                    O->delimTx.type = RKNetworkPacketTypeControls;
-                    O->delimTx.size = (uint32_t)strlen(user->commandResponse);
-                    RKOperatorSendPackets(O, &O->delimTx, sizeof(RKNetDelimiter), user->commandResponse, O->delimTx.size, NULL);
+                    delimiter = O->delimString;
+                    delimiter.type = RKNetworkPacketTypeControls;
+                    delimiter.size = (uint32_t)strlen(user->commandResponse);
+                    RKOperatorSendPackets(O, &delimiter, sizeof(RKNetDelimiter), user->commandResponse, O->delimTx.size, NULL);
 
                 case 'r':
                     // Change radar
-- 
2.43.0


From 763523c265d01b5d34e382225d156b5d45942ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:36 +0000
Subject: [PATCH 152/174] fix: sweep stream of a relay starts with the next
 sweep

---
 source/RKCommandCenter.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/RKCommandCenter.c b/source/RKCommandCenter.c
index 2e71f74..4abca3b 100644
--- a/source/RKCommandCenter.c
+++ b/source/RKCommandCenter.c
@@ -355,6 +355,7 @@ int socketCommandHandler(RKOperator *O) {
                     k = user->rayIndex;
                     pthread_mutex_lock(&user->mutex);
                     user->streamsInProgress = RKStreamNull;
+                    user->scratchSpaceIndex = user->radar->sweepEngine->scratchSpaceIndex;
                     pthread_mutex_unlock(&user->mutex);
                     RKLog(">%s %s Reset progress.\n", engine->name, O->name);
                     sprintf(user->commandResponse, "{\"type\": \"init\", \"access\": 0x%016lx, \"streams\": 0x%lx, \"indices\":[%d,%d]}" RKEOL,
-- 
2.43.0


From 6cc59a3d610636208fbc1489ebf7cf9b9a8f2e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:15 +0000
Subject: [PATCH 153/174] fix: relay answers an authentication with the
 controls it got only, and with as many bytes as there are

---
 source/RKCommandCenter.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/RKCommandCenter.c b/source/RKCommandCenter.c
index 4abca3b..9ad2f75 100644
--- a/source/RKCommandCenter.c
+++ b/source/RKCommandCenter.c
@@ -336,7 +336,8 @@ int socketCommandHandler(RKOperator *O) {
                     delimiter = O->delimString;
                     delimiter.type = RKNetworkPacketTypeControls;
                     delimiter.size = (uint32_t)strlen(user->commandResponse);
-                    RKOperatorSendPackets(O, &delimiter, sizeof(RKNetDelimiter), user->commandResponse, O->delimTx.size, NULL);
+                    RKOperatorSendPackets(O, &delimiter, sizeof(RKNetDelimiter), user->commandResponse, delimiter.size, NULL);
+                    break;
 
                 case 'r':
                     // Change radar
-- 
2.43.0


From 09b9677f4ae94adb54ab60624950e9a05d673e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:15 +0000
Subject: [PATCH 154/174] fix: name of the radar that a client selects is not
 used as a format

---
 source/RKCommandCenter.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/RKCommandCenter.c b/source/RKCommandCenter.c
index 9ad2f75..b75b9b4 100644
--- a/source/RKCommandCenter.c
+++ b/source/RKCommandCenter.c
@@ -341,7 +341,8 @@ int socketCommandHandler(RKOperator *O) {
 
                 case 'r':
                     // Change radar
-                    sscanf("%s", commandString + 1, sval1);
+                    sval1[0] = '\0';
+                    sscanf(commandString + 1, "%s", sval1);
                     RKLog(">%s %s Selected radar %s\n", engine->name, O->name, sval1);
                     snprintf(user->commandResponse, RKMaximumPacketSize, "ACK. %s selected." RKEOL, sval1);
                     RKOperatorSendCommandResponse(O, user->commandResponse);
-- 
2.43.0


From 0e9e4b8689237c7ec1bf821aec2c4a8c392e9e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:15 +0000
Subject: [PATCH 155/174] fix: client that registers more products than there
 can be does not write past its descriptions

---
 source/RKCommandCenter.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/RKCommandCenter.c b/source/RKCommandCenter.c
index b75b9b4..2d6f5a9 100644
--- a/source/RKCommandCenter.c
+++ b/source/RKCommandCenter.c
@@ -291,6 +291,11 @@ int socketCommandHandler(RKOperator *O) {
 
                 case 'u':
                     // Turn this user into an active node with user product return
+                    if (user->productCount >= RKMaximumProductCount) {
+                        sprintf(user->commandResponse, "NAK. Unable to register product." RKEOL);
+                        RKOperatorSendCommandResponse(O, user->commandResponse);
+                        break;
+                    }
                     RKParseProductDescription(&user->productDescriptions[user->productCount], commandString + 1);
                     RKLog("%s Registering external product %d: '%s' (%s) ...", engine->name,
                           user->productDescriptions[user->productCount].key,
-- 
2.43.0


From 040d7ba84b5c9fca400b4d2bb0175d44d9cefb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:39 +0000
Subject: [PATCH 156/174] fix: symbol of seven characters in the response to a
 registration is terminated

---
 source/RKCommandCenter.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKCommandCenter.c b/source/RKCommandCenter.c
index 2d6f5a9..c082f33 100644
--- a/source/RKCommandCenter.c
+++ b/source/RKCommandCenter.c
@@ -307,7 +307,7 @@ int socketCommandHandler(RKOperator *O) {
                         //         user->productDescriptions[user->productCount].key,
                         //         user->productDescriptions[user->productCount].symbol,
                         //         user->productIds[user->productCount]);
-                        strncpy(symbol, user->productDescriptions[user->productCount].symbol, 7);
+                        snprintf(symbol, sizeof(symbol), "%s", user->productDescriptions[user->productCount].symbol);
                         snprintf(user->commandResponse, RKMaximumCommandLength, "ACK. {\"type\": \"productDescription\", \"key\":%u, \"symbol\":\"%s\", \"pid\":%u}" RKEOL,
                                 user->productDescriptions[user->productCount].key,
                                 symbol,
-- 
2.43.0


From 0fc9fe109713fcefe64458da8183b6f35a391f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:56 +0000
Subject: [PATCH 157/174] fix: products are looked for within the product
 buffer only

---
 source/RKSweepEngine.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/source/RKSweepEngine.c b/source/RKSweepEngine.c
index 492d5ad..3b6d0d3 100644
--- a/source/RKSweepEngine.c
+++ b/source/RKSweepEngine.c
@@ -733,11 +733,11 @@ char *RKSweepEngineLatestSummary(RKSweepEngine *engine) {
 RKProductId RKSweepEngineDescribeProduct(RKSweepEngine *engine, RKProductDesc desc) {
     int i = 0;
     RKProductId productId = 42;
-    while (engine->productBuffer[i].flag & RKProductStatusActive && i < RKMaximumProductCount) {
+    while (i < engine->productBufferDepth && engine->productBuffer[i].flag & RKProductStatusActive) {
         productId++;
         i++;
     }
-    if (i == RKMaximumProductCount) {
+    if (i == engine->productBufferDepth) {
         RKLog("%s Error. Unable to add anymore user products.\n", engine->name);
         return 0;
     }
@@ -758,13 +758,13 @@ RKProductId RKSweepEngineDescribeProduct(RKSweepEngine *engine, RKProductDesc de
 
 int RKSweepEngineUndescribeProduct(RKSweepEngine *engine, RKProductId productId) {
     int i = 0;
-    while (i < RKMaximumProductCount) {
+    while (i < engine->productBufferDepth) {
         if (engine->productBuffer[i].pid == productId) {
             break;
         }
         i++;
     }
-    if (i == RKMaximumProductCount) {
+    if (i == engine->productBufferDepth) {
         RKLog("%s Error. Unable to locate productId = 0x%04x.\n", engine->name, productId);
         return RKResultFailedToFindProductId;
     }
@@ -785,13 +785,13 @@ int RKSweepEngineUndescribeProduct(RKSweepEngine *engine, RKProductId productId)
 
 RKProduct *RKSweepEngineGetVacantProduct(RKSweepEngine *engine, RKSweep *sweep, RKProductId productId) {
     int i = 0;
-    while (i < RKMaximumProductCount) {
+    while (i < engine->productBufferDepth) {
         if (engine->productBuffer[i].pid == productId) {
             break;
         }
         i++;
     }
-    if (i == RKMaximumProductCount) {
+    if (i == engine->productBufferDepth) {
         RKLog("%s Error. Unable to locate productId = %d.\n", engine->name, productId);
         return NULL;
     }
-- 
2.43.0


From 6ceb771ba2a5d9cb876c4eb6896e8dccd99f9e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:56 +0000
Subject: [PATCH 158/174] fix: products that are registered at the same time
 get slots of their own

---
 source/RKSweepEngine.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/RKSweepEngine.c b/source/RKSweepEngine.c
index 3b6d0d3..a6539f3 100644
--- a/source/RKSweepEngine.c
+++ b/source/RKSweepEngine.c
@@ -733,15 +733,17 @@ char *RKSweepEngineLatestSummary(RKSweepEngine *engine) {
 RKProductId RKSweepEngineDescribeProduct(RKSweepEngine *engine, RKProductDesc desc) {
     int i = 0;
     RKProductId productId = 42;
+    // Several clients may be registering at the same time, one slot must not be given to two of them
+    pthread_mutex_lock(&engine->productMutex);
     while (i < engine->productBufferDepth && engine->productBuffer[i].flag & RKProductStatusActive) {
         productId++;
         i++;
     }
     if (i == engine->productBufferDepth) {
         RKLog("%s Error. Unable to add anymore user products.\n", engine->name);
+        pthread_mutex_unlock(&engine->productMutex);
         return 0;
     }
-    pthread_mutex_lock(&engine->productMutex);
     engine->productBuffer[i].i = 0;
     engine->productBuffer[i].pid = productId;
     engine->productBuffer[i].desc = desc;
-- 
2.43.0


From ba24549f458bee28112e5773067c896009faff9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:56 +0000
Subject: [PATCH 159/174] fix: products that clients return are stored when
 they fit only, and never past the product

---
 source/RKCommandCenter.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/source/RKCommandCenter.c b/source/RKCommandCenter.c
index c082f33..0cc4947 100644
--- a/source/RKCommandCenter.c
+++ b/source/RKCommandCenter.c
@@ -1322,16 +1322,25 @@ int socketStreamHandler(RKOperator *O) {
                         }
                         productId = RKProductIdFromString(RKGetValueOfKey(user->string, "productId"));
                         identifier = RKIdentifierFromString(RKGetValueOfKey(user->string, "configId"));
+                        // The data that follow are consumed in any case, and only become the product when they fit
+                        size = RKServerReceiveUserPayload(O, user->scratch, RKNetworkMessageFormatHeaderDefinedSize);
+                        if (size < 0) {
+                            RKLog("%s %s Error. Failed receiving user product data ...\n", engine->name, O->name);
+                            continue;
+                        }
                         if (user->productIds[k] != productId) {
                             RKLog("%s %s Warning. Inconsistent productId = %d (expected) != %d (reported)\n", engine->name, O->name, user->productIds[k], productId);
                         } else if (sweep->header.config.i != identifier) {
                             RKLog("%s %s Warning. Inconsistent configId = %lu (expected) != %lu (reported)\n", engine->name, O->name, sweep->header.config.i, identifier);
+                        } else if ((size_t)size != (size_t)sweep->header.rayCount * sweep->header.gateCount * sizeof(RKFloat)) {
+                            RKLog("%s %s Warning. Inconsistent size = %zu (expected) != %zd (received)\n", engine->name, O->name,
+                                  (size_t)sweep->header.rayCount * sweep->header.gateCount * sizeof(RKFloat), size);
                         } else {
                             product = RKSweepEngineGetVacantProduct(user->radar->sweepEngine, sweep, productId);
                             if (product) {
                                 // Transfer important meta data and prepare the necessary buffer size
                                 RKProductInitFromSweep(product, sweep);
-                                size = RKServerReceiveUserPayload(O, product->data, RKNetworkMessageFormatHeaderDefinedSize);
+                                memcpy(product->data, user->scratch, size);
                                 if (user->radar->sweepEngine->verbose > 1) {
                                     RKLog("%s %s %s (%d) -> %u %zu\n",
                                           engine->name, O->name, user->string, strlen(user->string), productId, identifier);
@@ -1339,13 +1348,7 @@ int socketStreamHandler(RKOperator *O) {
                                 RKShowArray(product->data, product->desc.symbol, product->header.gateCount, product->header.rayCount);
                                 RKSweepEngineSetProductComplete(user->radar->sweepEngine, sweep, product);
                             } else {
-                                // Still need to consume this packet so we dump it to a scratch space
                                 RKLog("Warning. Unable to retrieve storage for incoming sweep.\n");
-                                size = RKServerReceiveUserPayload(O, user->scratch, RKNetworkMessageFormatHeaderDefinedSize);
-                            }
-                            if (size < 0) {
-                                RKLog("%s %s Error. Failed receiving user product data ...\n", engine->name, O->name);
-                                continue;
                             }
                         } // else (user->productIds[k] == productId && sweep->header.config.i == identifier)
                     } // for (k = 0; k < user->productCount; k++) ...
-- 
2.43.0


From 6462b03e23b714c784c254dca88f684fb8f8883a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:29 +0000
Subject: [PATCH 160/174] fix: scope stream with fewer samples per radar or
 ratio shows what the header says

---
 source/RKCommandCenter.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/source/RKCommandCenter.c b/source/RKCommandCenter.c
index 0cc4947..e3e8479 100644
--- a/source/RKCommandCenter.c
+++ b/source/RKCommandCenter.c
@@ -1494,17 +1494,19 @@ int socketStreamHandler(RKOperator *O) {
                     scale = 1.0f / sqrtf((float)user->radar->pulseEngine->filterAnchors[0][0].length);
                     yH = RKGetComplexDataFromPulse(pulse, 0);
                     yV = RKGetComplexDataFromPulse(pulse, 1);
-                    for (i = 0; i < pulseHeader.downSampledGateCount; i++) {
+                    for (i = 0; i < pulseHeader.gateCount; i++) {
                         userDataH->i   = (int16_t)(scale * yH->i);
-                        userDataH++->q = (int16_t)(scale * yH++->q);
+                        userDataH++->q = (int16_t)(scale * yH->q);
                         userDataV->i   = (int16_t)(scale * yV->i);
-                        userDataV++->q = (int16_t)(scale * yV++->q);
+                        userDataV++->q = (int16_t)(scale * yV->q);
+                        yH += k;
+                        yV += k;
                     }
                     break;
 
                 default:
                     // I/Q data from Int16C samples
-                    pulseHeader.gateCount = MIN(4096, pulseHeader.pulseWidthSampleCount + 10);
+                    pulseHeader.gateCount = MIN(MIN(4096, pulseHeader.gateCount), pulseHeader.pulseWidthSampleCount + 10);
                     for (i = 0; i < pulseHeader.gateCount; i++) {
                         *userDataH++ = *c16DataH;
                         *userDataV++ = *c16DataV;
-- 
2.43.0


From 35de08e97f3145473675f8b85944f134534f012b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:29 +0000
Subject: [PATCH 161/174] fix: scope stream of a relay, which has no pulse
 engine, passes on the pulses it got

---
 source/RKCommandCenter.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/source/RKCommandCenter.c b/source/RKCommandCenter.c
index e3e8479..9c1bb5f 100644
--- a/source/RKCommandCenter.c
+++ b/source/RKCommandCenter.c
@@ -1389,12 +1389,14 @@ int socketStreamHandler(RKOperator *O) {
         // Roll back a little so that(pulse index % waveform count) matches the desired waveIndex
         s = 0;
         pulse = RKGetPulseFromBuffer(user->radar->pulses, endIndex);
-        while (pulse->header.i % user->radar->pulseEngine->filterGroupCount != user->transmitWaveIndex && s++ < user->radar->pulseEngine->filterGroupCount) {
-            endIndex = RKPreviousModuloS(endIndex, user->radar->desc.pulseBufferDepth);
-            pulse = RKGetPulseFromBuffer(user->radar->pulses, endIndex);
+        if (user->radar->desc.initFlags & RKInitFlagSignalProcessor) {
+            while (pulse->header.i % user->radar->pulseEngine->filterGroupCount != user->transmitWaveIndex && s++ < user->radar->pulseEngine->filterGroupCount) {
+                endIndex = RKPreviousModuloS(endIndex, user->radar->desc.pulseBufferDepth);
+                pulse = RKGetPulseFromBuffer(user->radar->pulses, endIndex);
+            }
+            //printf("wi = %d  %d\n", user->transmitWaveIndex, (int)pulse->header.i % user->radar->pulseEngine->filterGroupCount);
+            user->transmitWaveIndex = RKNextModuloS(user->transmitWaveIndex, user->radar->pulseEngine->filterGroupCount);
         }
-        //printf("wi = %d  %d\n", user->transmitWaveIndex, (int)pulse->header.i % user->radar->pulseEngine->filterGroupCount);
-        user->transmitWaveIndex = RKNextModuloS(user->transmitWaveIndex, user->radar->pulseEngine->filterGroupCount);
         //pulse = RKGetPulseFromBuffer(user->radar->pulses, endIndex);
         s = 0;
         while (!(pulse->header.s & RKPulseStatusProcessed) && s++ < 100) {
@@ -1506,7 +1508,10 @@ int socketStreamHandler(RKOperator *O) {
 
                 default:
                     // I/Q data from Int16C samples
-                    pulseHeader.gateCount = MIN(MIN(4096, pulseHeader.gateCount), pulseHeader.pulseWidthSampleCount + 10);
+                    pulseHeader.gateCount = MIN(4096, pulseHeader.gateCount);
+                    if (user->radar->desc.initFlags & RKInitFlagSignalProcessor) {
+                        pulseHeader.gateCount = MIN(pulseHeader.gateCount, pulseHeader.pulseWidthSampleCount + 10);
+                    }
                     for (i = 0; i < pulseHeader.gateCount; i++) {
                         *userDataH++ = *c16DataH;
                         *userDataV++ = *c16DataV;
-- 
2.43.0


From f49edc1f1a2978c7f796f40ac59ac1ab85640877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:29 +0000
Subject: [PATCH 162/174] fix: ASCII art that starts before the first ray, or
 with few gates, does not divide by zero

---
 source/RKCommandCenter.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/RKCommandCenter.c b/source/RKCommandCenter.c
index 9c1bb5f..6ccdcf1 100644
--- a/source/RKCommandCenter.c
+++ b/source/RKCommandCenter.c
@@ -608,9 +608,9 @@ int socketStreamHandler(RKOperator *O) {
         } else if (k == RKStreamASCIIArtZ) {
             // Stream "6" - ASCII art of reflectivity
             ray = RKGetLatestRayIndex(user->radar, &endIndex);
-            if ((user->streamsInProgress & RKStreamStatusMask) != RKStreamASCIIArtZ) {
+            if (ray && (user->streamsInProgress & RKStreamStatusMask) != RKStreamASCIIArtZ) {
                 user->streamsInProgress = RKStreamASCIIArtZ;
-                user->asciiArtStride = ray->header.gateCount / (user->terminalSize.ws_col - 20);
+                user->asciiArtStride = MAX(1, ray->header.gateCount / (user->terminalSize.ws_col - 20));
                 user->rayIndex = endIndex;
                 if (engine->verbose) {
                     RKLog("%s %s Streaming RKRay ASCII art -> %d (0x%02x %s).\n", engine->name, O->name, endIndex,
-- 
2.43.0


From 183f28cceccbf776d09100b0b2edbcd303b36ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:29 +0000
Subject: [PATCH 163/174] fix: no ray is the latest one when none is ready

---
 source/RKRadar.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKRadar.c b/source/RKRadar.c
index e5e7d34..53e8388 100644
--- a/source/RKRadar.c
+++ b/source/RKRadar.c
@@ -3016,7 +3016,7 @@ RKRay *RKGetLatestRayIndex(RKRadar *radar, uint32_t *index) {
         *index = RKPreviousModuloS(*index, radar->desc.rayBufferDepth);
         ray = RKGetRayFromBuffer(radar->rays, *index);
     }
-    if (k == radar->desc.rayBufferDepth) {
+    if (!(ray->header.s & RKRayStatusReady)) {
         ray = NULL;
     }
     return ray;
-- 
2.43.0


From 686036574bda68f560f846f9ec794a0d38d69e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:02 +0000
Subject: [PATCH 164/174] fix: merging columns ends when a column is empty and
 does not pad lines that are wider than the column

---
 source/RKMisc.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/source/RKMisc.c b/source/RKMisc.c
index d91f659..7f34c65 100644
--- a/source/RKMisc.c
+++ b/source/RKMisc.c
@@ -1456,6 +1456,12 @@ int RKMergeColumns(char *text, const char *left, const char *right, const int in
     int w = 0, m = 0, n;
     char format[indent + 4];
     char *plain;
+    if (*ls == '\0') {
+        ls = NULL;
+    }
+    if (*rs == '\0') {
+        rs = NULL;
+    }
     memset(format, ' ', indent);
     sprintf(format + indent, "%%s");
     //printf("%s--\n", right);
@@ -1466,8 +1472,9 @@ int RKMergeColumns(char *text, const char *left, const char *right, const int in
             n = (int)strlen(plain);
             //printf("%s (%d) -> %s (%d)\n", ls, (int)(le - ls), plain, n);
             m += sprintf(text + m, format, ls);
-            memset(text + m, ' ', u - n);
-            m += (u - n);
+            n = MAX(0, u - n);
+            memset(text + m, ' ', n);
+            m += n;
             ls = le + 1;
             if (*ls == '\0') {
                 ls = NULL;
@@ -1485,8 +1492,9 @@ int RKMergeColumns(char *text, const char *left, const char *right, const int in
             w = MAX(w, n);
             //printf("%s (%d) -> %s (%d) |%c|\n", rs, (int)(re - rs), plain, n, *(re + 1));
             m += sprintf(text + m, "%s", rs);
-            memset(text + m, ' ', v - n);
-            m += (v - n);
+            n = MAX(0, v - n);
+            memset(text + m, ' ', n);
+            m += n;
             rs = re + 1;
             if (*rs == '\0') {
                 rs = NULL;
-- 
2.43.0


From 794aa13e804abebb1eb6100dbd49e9323249ab1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:02 +0000
Subject: [PATCH 165/174] fix: overview of a health does not need status
 indicators to be there, nor to be short

---
 source/RKRadar.c | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/source/RKRadar.c b/source/RKRadar.c
index 53e8388..d10c498 100644
--- a/source/RKRadar.c
+++ b/source/RKRadar.c
@@ -3574,12 +3574,14 @@ int RKHealthOverview(char *text, const char *json, const RKTextPreferences flag)
 
     //static struct winsize terminalSize = {.ws_col = 0, .ws_row = 0};
 
-    char key[RKNameLength];
-    char value[RKStatusStringLength];
+    // A key or a value can be as long as the string. Each pair, at least 9 characters, becomes a line with up to 50 more
+    int count = 0;
+    char key[RKMaximumStringLength];
+    char value[RKMaximumStringLength];
     char string[RKMaximumStringLength];
-    char dots[RKMaximumStringLength], labels[RKMaximumStringLength];
+    char dots[8 * RKMaximumStringLength] = "", labels[8 * RKMaximumStringLength] = "";
     char prefix[RKNameLength], posfix[RKNameLength];
-    char state[4];
+    char state[RKMaximumStringLength];
     char symbol[] = "o";
     RKStatusEnum u;
     bool isLabel;
@@ -3657,7 +3659,7 @@ int RKHealthOverview(char *text, const char *json, const RKTextPreferences flag)
             }
             if (isLabel) {
                 e = value + strlen(value) - 1;
-                if ((*value == '"' && *e == '"') || (*value == '\'' && *e == '\'')) {
+                if (e > value && ((*value == '"' && *e == '"') || (*value == '\'' && *e == '\''))) {
                     *e = '\0';
                     s = value + 1;
                 } else {
@@ -3667,6 +3669,7 @@ int RKHealthOverview(char *text, const char *json, const RKTextPreferences flag)
             } else {
                 nd += sprintf(dots + nd, "%s%s%s %s\n", prefix, symbol, posfix, key);
             }
+            count++;
         }
     }
 
@@ -3677,7 +3680,14 @@ int RKHealthOverview(char *text, const char *json, const RKTextPreferences flag)
     #endif
 
     if (flag & RKTextPreferencesDrawBackground) {
-        char temp[8196];
+        // Each pair takes a line of both columns at most, which are 26 and 38 wide, or more for those that are wider
+        char *temp = (char *)malloc(nd + nl + (count + 1) * 80);
+        if (temp == NULL) {
+            RKLog("Error. Unable to allocate memory.\n");
+            *text = '\0';
+            return 0;
+        }
+        temp[0] = '\0';
         int w = RKMergeColumns(temp, dots, labels, 4);
         // Another indent at the end and the two border chars
         w += 4 + 2;
@@ -3703,7 +3713,9 @@ int RKHealthOverview(char *text, const char *json, const RKTextPreferences flag)
         *(d + m++) = '+';
         *(d + m++) = '\n';
         *(d + m) = '\0';
+        free(temp);
     } else {
+        *text = '\0';
         RKMergeColumns(text, dots, labels, 0);
         m = (int)strlen(text);
     }
-- 
2.43.0


From e244c2752bd34c6e3cd8a129d48fb5f340773f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:24 +0000
Subject: [PATCH 166/174] fix: health messages longer than a string do not
 bring the command centre down

---
 source/RKCommandCenter.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/RKCommandCenter.c b/source/RKCommandCenter.c
index 6ccdcf1..ae6b085 100644
--- a/source/RKCommandCenter.c
+++ b/source/RKCommandCenter.c
@@ -834,7 +834,7 @@ int socketStreamHandler(RKOperator *O) {
             }
             if (j) {
                 // Take out the last '\n', replace it with somethign else + EOL
-                snprintf(user->string + k - 1, RKMaximumStringLength - k, "" RKEOL);
+                snprintf(user->string + k - 1, sizeof(user->string) - k + 1, "" RKEOL);
                 O->delimTx.type = RKNetworkPacketTypeHealth;
                 O->delimTx.size = k;
                 RKOperatorSendPackets(O, &O->delimTx, sizeof(RKNetDelimiter), user->string, O->delimTx.size, NULL);
-- 
2.43.0


From 0f0791f2b33dad3d004c7631b99a797c74b8d451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:44 +0000
Subject: [PATCH 167/174] fix: relay takes rays apart as the server sends them,
 with all of their products

---
 source/RKRadarRelay.c | 117 ++++++++++++++++++++++++++++++++++--------
 1 file changed, 97 insertions(+), 20 deletions(-)

diff --git a/source/RKRadarRelay.c b/source/RKRadarRelay.c
index 0112fee..67ed1d6 100644
--- a/source/RKRadarRelay.c
+++ b/source/RKRadarRelay.c
@@ -41,6 +41,34 @@ static int RKRadarRelayGreet(RKClient *client) {
     return RKResultSuccess;
 }
 
+static void copyRayHeader(RKRayHeader *destination, const RKRayHeaderV1 *source) {
+    // Everything but the capacity and the status, which belong to the local slot
+    destination->i               = source->i;
+    destination->n               = source->n;
+    destination->marker          = source->marker;
+    destination->baseMomentList  = 0;
+    destination->baseProductList = source->baseProductList;
+    destination->configIndex     = source->configIndex;
+    destination->configSubIndex  = source->configSubIndex;
+    destination->gateCount       = source->gateCount;
+    destination->pulseCount      = source->pulseCount;
+    destination->gateSizeMeters  = source->gateSizeMeters;
+    destination->sweepElevation  = source->sweepElevation;
+    destination->sweepAzimuth    = source->sweepAzimuth;
+    destination->startTime       = source->startTime;
+    destination->startTimeDouble = source->startTimeDouble;
+    destination->startAzimuth    = source->startAzimuth;
+    destination->startElevation  = source->startElevation;
+    destination->endTime         = source->endTime;
+    destination->endTimeDouble   = source->endTimeDouble;
+    destination->endAzimuth      = source->endAzimuth;
+    destination->endElevation    = source->endElevation;
+    destination->fftOrder        = source->fftOrder;
+    destination->reserved1       = source->reserved1;
+    destination->reserved2       = source->reserved2;
+    destination->reserved3       = source->reserved3;
+}
+
 static int RKRadarRelayRead(RKClient *client) {
     // The shared user resource pointer
     RKRadarRelay *engine = (RKRadarRelay *)client->userResource;
@@ -48,15 +76,18 @@ static int RKRadarRelayRead(RKClient *client) {
     int j, k;
     RKHealth *health;
     RKStatus *status;
-    RKRay *ray = (RKRay *)engine->rayBuffer;
+    RKRay *ray;
+    RKRayHeaderV1 rayHeaderV1;
     RKPulse *pulse = (RKPulse *)engine->pulseBuffer;
 
+    uint8_t *source;
     uint8_t *u8Data = NULL;
+    float *f32Data = NULL;
+    size_t size;
     uint32_t productList;
     uint32_t productCount;
     uint32_t rxGateCount = 0;
 
-    const uint32_t localRayCapacity = ray->header.capacity;
     const uint32_t localPulseCapacity = pulse->header.capacity;
 
     RKInt16C *c16DataH = NULL;
@@ -144,25 +175,37 @@ static int RKRadarRelayRead(RKClient *client) {
             break;
 
         case RKNetworkPacketTypeRayDisplay:
-            // Override the status of the payload
-            ray = (RKRay *)client->userPayload;
-            rxGateCount = ray->header.gateCount;
-
-            //printf("%s Display packet -> %d (remote/local capacity %d / %d).\n", engine->name, *engine->rayIndex, ray->header.capacity, localRayCapacity);
-
-            ray->header.capacity = localRayCapacity;
-            if (ray->header.gateCount > localRayCapacity) {
-                ray->header.gateCount = localRayCapacity;
+            // The server sends the first version of the ray header
+            if (client->netDelimiter.size < sizeof(RKRayHeaderV1)) {
+                RKLog("%s Error. Ray of %u B is too short.\n", engine->name, client->netDelimiter.size);
+                break;
+            }
+            memcpy(&rayHeaderV1, client->userPayload, sizeof(RKRayHeaderV1));
+            rxGateCount = rayHeaderV1.gateCount;
+            productList = rayHeaderV1.baseProductList & (RKBaseProductListUInt8ZVWDPRKSQ | RKBaseProductListFloatZVWDPRKSQ);
+            productCount = __builtin_popcount(productList);
+            size = sizeof(RKRayHeaderV1) +
+                   __builtin_popcount(productList & RKBaseProductListUInt8ZVWDPRKSQ) * rxGateCount * sizeof(uint8_t) +
+                   __builtin_popcount(productList & RKBaseProductListFloatZVWDPRKSQ) * rxGateCount * sizeof(float);
+            if (productList != rayHeaderV1.baseProductList || size != client->netDelimiter.size) {
+                RKLog("%s Error. Inconsistent ray.   baseProductList = %08x   gateCount = %u   size = %u\n", engine->name,
+                      rayHeaderV1.baseProductList, rayHeaderV1.gateCount, client->netDelimiter.size);
+                break;
             }
-            ray->header.s = RKRayStatusProcessing;
 
-            // Now we get a slot to fill it in
+            // Now we get a slot to fill it in, throw away gates if this relay cannot accomodate them
             ray = RKGetRayFromBuffer(engine->rayBuffer, *engine->rayIndex);
-            memcpy(&ray->header, client->userPayload, sizeof(RKRayHeader));
+            ray->header.s = RKRayStatusProcessing;
+            copyRayHeader(&ray->header, &rayHeaderV1);
+            if (ray->header.gateCount > ray->header.capacity) {
+                ray->header.gateCount = ray->header.capacity;
+            }
 
-            productList = ray->header.baseProductList;
-            productCount = __builtin_popcount(productList);
+            // The data in the order the server sends them
+            source = (uint8_t *)client->userPayload + sizeof(RKRayHeaderV1);
             for (j = 0; j < productCount; j++) {
+                u8Data = NULL;
+                f32Data = NULL;
                 if (productList & RKBaseProductListUInt8Z) {
                     productList ^= RKBaseProductListUInt8Z;
                     u8Data = RKGetUInt8DataFromRay(ray, RKBaseProductIndexZ);
@@ -184,18 +227,52 @@ static int RKRadarRelayRead(RKClient *client) {
                 } else if (productList & RKBaseProductListUInt8K) {
                     productList ^= RKBaseProductListUInt8K;
                     u8Data = RKGetUInt8DataFromRay(ray, RKBaseProductIndexK);
+                } else if (productList & RKBaseProductListUInt8Q) {
+                    productList ^= RKBaseProductListUInt8Q;
+                    u8Data = RKGetUInt8DataFromRay(ray, RKBaseProductIndexQ);
                 } else if (productList & RKBaseProductListUInt8Sh) {
                     productList ^= RKBaseProductListUInt8Sh;
                     u8Data = RKGetUInt8DataFromRay(ray, RKBaseProductIndexSh);
                 } else if (productList & RKBaseProductListUInt8Sv) {
                     productList ^= RKBaseProductListUInt8Sv;
                     u8Data = RKGetUInt8DataFromRay(ray, RKBaseProductIndexSv);
-                } else {
-                    u8Data = NULL;
+                } else if (productList & RKBaseProductListFloatZ) {
+                    productList ^= RKBaseProductListFloatZ;
+                    f32Data = RKGetFloatDataFromRay(ray, RKBaseProductIndexZ);
+                } else if (productList & RKBaseProductListFloatV) {
+                    productList ^= RKBaseProductListFloatV;
+                    f32Data = RKGetFloatDataFromRay(ray, RKBaseProductIndexV);
+                } else if (productList & RKBaseProductListFloatW) {
+                    productList ^= RKBaseProductListFloatW;
+                    f32Data = RKGetFloatDataFromRay(ray, RKBaseProductIndexW);
+                } else if (productList & RKBaseProductListFloatD) {
+                    productList ^= RKBaseProductListFloatD;
+                    f32Data = RKGetFloatDataFromRay(ray, RKBaseProductIndexD);
+                } else if (productList & RKBaseProductListFloatP) {
+                    productList ^= RKBaseProductListFloatP;
+                    f32Data = RKGetFloatDataFromRay(ray, RKBaseProductIndexP);
+                } else if (productList & RKBaseProductListFloatR) {
+                    productList ^= RKBaseProductListFloatR;
+                    f32Data = RKGetFloatDataFromRay(ray, RKBaseProductIndexR);
+                } else if (productList & RKBaseProductListFloatK) {
+                    productList ^= RKBaseProductListFloatK;
+                    f32Data = RKGetFloatDataFromRay(ray, RKBaseProductIndexK);
+                } else if (productList & RKBaseProductListFloatQ) {
+                    productList ^= RKBaseProductListFloatQ;
+                    f32Data = RKGetFloatDataFromRay(ray, RKBaseProductIndexQ);
+                } else if (productList & RKBaseProductListFloatSh) {
+                    productList ^= RKBaseProductListFloatSh;
+                    f32Data = RKGetFloatDataFromRay(ray, RKBaseProductIndexSh);
+                } else if (productList & RKBaseProductListFloatSv) {
+                    productList ^= RKBaseProductListFloatSv;
+                    f32Data = RKGetFloatDataFromRay(ray, RKBaseProductIndexSv);
                 }
-
                 if (u8Data) {
-                    memcpy(u8Data, client->userPayload + sizeof(RKRayHeader) + j * rxGateCount * sizeof(uint8_t), ray->header.gateCount * sizeof(uint8_t));
+                    memcpy(u8Data, source, ray->header.gateCount * sizeof(uint8_t));
+                    source += rxGateCount * sizeof(uint8_t);
+                } else if (f32Data) {
+                    memcpy(f32Data, source, ray->header.gateCount * sizeof(float));
+                    source += rxGateCount * sizeof(float);
                 }
             }
             ray->header.s = RKRayStatusProcessed | RKRayStatusReady;
-- 
2.43.0


From 1cf212668535fc91cc834a11a31272b994e5fd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:44 +0000
Subject: [PATCH 168/174] fix: relay keeps the V samples of pulses that are
 longer than its capacity

---
 source/RKRadarRelay.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/source/RKRadarRelay.c b/source/RKRadarRelay.c
index 67ed1d6..bde87d5 100644
--- a/source/RKRadarRelay.c
+++ b/source/RKRadarRelay.c
@@ -139,10 +139,19 @@ static int RKRadarRelayRead(RKClient *client) {
             break;
 
         case RKNetworkPacketTypePulseData:
+            if (client->netDelimiter.size < sizeof(RKPulseHeader)) {
+                RKLog("%s Error. Pulse of %u B is too short.\n", engine->name, client->netDelimiter.size);
+                break;
+            }
             // Override the status of the payload
             pulse = (RKPulse *)client->userPayload;
             pulseStatus = pulse->header.s;
-            //rxGateCount = pulse->header.capacity;
+            rxGateCount = pulse->header.gateCount;
+            if (client->netDelimiter.size != sizeof(RKPulseHeader) + 2 * rxGateCount * sizeof(RKInt16C)) {
+                RKLog("%s Error. Inconsistent pulse.   gateCount = %u   size = %u\n", engine->name,
+                      rxGateCount, client->netDelimiter.size);
+                break;
+            }
 
             //printf("%s Pulse packet -> %d (remote/local capacity %d / %d).\n", engine->name, *engine->pulseIndex, pulse->header.capacity, localPulseCapacity);
 
@@ -164,7 +173,7 @@ static int RKRadarRelayRead(RKClient *client) {
             c16DataV = RKGetInt16CDataFromPulse(pulse, 1);
 
             memcpy(c16DataH, client->userPayload + sizeof(RKPulseHeader), pulseSize);
-            memcpy(c16DataV, client->userPayload + sizeof(RKPulseHeader) + pulseSize, pulseSize);
+            memcpy(c16DataV, client->userPayload + sizeof(RKPulseHeader) + rxGateCount * sizeof(RKInt16C), pulseSize);
 
             // Restore the pulse status
             pulse->header.s = pulseStatus;
-- 
2.43.0


From cee70630d2299e8a1937470ee4020c6dcebf8e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:44 +0000
Subject: [PATCH 169/174] fix: relay stores the healths that come in one
 message one by one, with their time

---
 source/RKRadarRelay.c | 41 +++++++++++++++++++++++++++++------------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/source/RKRadarRelay.c b/source/RKRadarRelay.c
index bde87d5..ee3adf4 100644
--- a/source/RKRadarRelay.c
+++ b/source/RKRadarRelay.c
@@ -80,6 +80,7 @@ static int RKRadarRelayRead(RKClient *client) {
     RKRayHeaderV1 rayHeaderV1;
     RKPulse *pulse = (RKPulse *)engine->pulseBuffer;
 
+    char *c, *e, *end;
     uint8_t *source;
     uint8_t *u8Data = NULL;
     float *f32Data = NULL;
@@ -120,18 +121,34 @@ static int RKRadarRelayRead(RKClient *client) {
             break;
 
         case RKNetworkPacketTypeHealth:
-            // Queue up the health
-            k = *engine->healthIndex;
-            health = &engine->healthBuffer[k];
-            strncpy(health->string, client->userPayload, RKMaximumStringLength - 1);
-            health->flag = RKHealthFlagReady;
-            k = RKNextModuloS(k, engine->radarDescription->healthBufferDepth);
-            health = &engine->healthBuffer[k];
-            health->string[0] = '\0';
-            health->flag = RKHealthFlagVacant;
-            *engine->healthIndex = k;
-            if (engine->verbose > 1) {
-                RKLog("%s RKNetworkPacketTypeHealth: %d\n", engine->name, k);
+            // Queue up the healths, one per line, as the server sends several of them at once
+            c = (char *)client->userPayload;
+            end = c + client->netDelimiter.size;
+            while (c < end) {
+                e = c;
+                while (e < end && *e != '\0' && *e != '\r' && *e != '\n') {
+                    e++;
+                }
+                size = e - c;
+                if (size > 0) {
+                    k = *engine->healthIndex;
+                    health = &engine->healthBuffer[k];
+                    size = MIN(size, RKMaximumStringLength - 1);
+                    memcpy(health->string, c, size);
+                    health->string[size] = '\0';
+                    gettimeofday(&health->time, NULL);
+                    health->timeDouble = (double)health->time.tv_sec + 1.0e-6 * (double)health->time.tv_usec;
+                    health->flag = RKHealthFlagReady;
+                    k = RKNextModuloS(k, engine->radarDescription->healthBufferDepth);
+                    health = &engine->healthBuffer[k];
+                    health->string[0] = '\0';
+                    health->flag = RKHealthFlagVacant;
+                    *engine->healthIndex = k;
+                    if (engine->verbose > 1) {
+                        RKLog("%s RKNetworkPacketTypeHealth: %d\n", engine->name, k);
+                    }
+                }
+                c = e + 1;
             }
             break;
 
-- 
2.43.0


From 6d12710e60abc4934a537abe493a07086b05e0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:49 +0000
Subject: [PATCH 170/174] fix: relay and recorder do not use waveforms,
 configurations and messages that are not theirs

---
 source/RKRadarRelay.c      | 15 +++++++++++++++
 source/RKRawDataRecorder.c |  5 +++--
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/source/RKRadarRelay.c b/source/RKRadarRelay.c
index ee3adf4..106f064 100644
--- a/source/RKRadarRelay.c
+++ b/source/RKRadarRelay.c
@@ -105,6 +105,10 @@ static int RKRadarRelayRead(RKClient *client) {
             break;
 
         case RKNetworkPacketTypeProcessorStatus:
+            if (client->netDelimiter.size != sizeof(RKStatus)) {
+                RKLog("%s Error. Status of %u B is not what I can handle.\n", engine->name, client->netDelimiter.size);
+                break;
+            }
             // Queue up the status
             k = *engine->statusIndex;
             status = &engine->statusBuffer[k];
@@ -183,6 +187,7 @@ static int RKRadarRelayRead(RKClient *client) {
             // Now we get a slot to fill it in
             pulse = RKGetPulseFromBuffer(engine->pulseBuffer, *engine->pulseIndex);
             memcpy(&pulse->header, client->userPayload, sizeof(RKPulseHeader));
+            pulse->header.configIndex %= engine->radarDescription->configBufferDepth;
 
             pulseSize = pulse->header.gateCount * sizeof(RKInt16C);
 
@@ -227,6 +232,8 @@ static int RKRadarRelayRead(RKClient *client) {
                 ray->header.gateCount = ray->header.capacity;
             }
 
+            ray->header.configIndex %= engine->radarDescription->configBufferDepth;
+
             // The data in the order the server sends them
             source = (uint8_t *)client->userPayload + sizeof(RKRayHeaderV1);
             for (j = 0; j < productCount; j++) {
@@ -319,8 +326,16 @@ static int RKRadarRelayRead(RKClient *client) {
             break;
 
         case RKNetworkPacketTypeSweepHeader:
+            if (client->netDelimiter.size != sizeof(RKSweepHeader)) {
+                RKLog("%s Error. Sweep header of %u B is not what I can handle.\n", engine->name, client->netDelimiter.size);
+                break;
+            }
             gettimeofday(&engine->sweepTic, NULL);
             memcpy(&engine->sweepHeaderCache, client->userPayload, sizeof(RKSweepHeader));
+            // Addresses are those of the remote radar
+            engine->sweepHeaderCache.config.waveform = NULL;
+            engine->sweepHeaderCache.config.waveformDecimate = NULL;
+            engine->sweepHeaderCache.config.userResource = NULL;
             memcpy(&engine->configBuffer[*engine->configIndex], &engine->sweepHeaderCache.config, sizeof(RKConfig));
             *engine->configIndex = RKNextModuloS(*engine->configIndex, engine->radarDescription->configBufferDepth);
             engine->sweepRayIndex = 0;
diff --git a/source/RKRawDataRecorder.c b/source/RKRawDataRecorder.c
index 5fe962b..fc06ea0 100644
--- a/source/RKRawDataRecorder.c
+++ b/source/RKRawDataRecorder.c
@@ -194,7 +194,8 @@ static void *pulseRecorder(void *in) {
             if (engine->verbose > 1) {
                 RKLog("%s New I/Q %s ...\n", engine->name, filename);
             }
-            if (wantRecord && config->i > 1003) {
+            // Pulses of a relay come without a waveform, which a file can not do without
+            if (wantRecord && waveform && config->i > 1003) {
                 RKPreparePath(filename);
                 // 4-KB raw data file header
                 memcpy(&fileHeader->config, config, sizeof(RKConfig));
@@ -229,7 +230,7 @@ static void *pulseRecorder(void *in) {
                 }
             } else {
                 len = sizeof(RKFileHeader) + sizeof(RKWaveFileGlobalHeader);
-                for (i = 0; i < waveform->count; i++) {
+                for (i = 0; waveform && i < waveform->count; i++) {
                     len += waveform->filterCounts[i] * sizeof(RKFilterAnchor);
                     len += waveform->depth * sizeof(RKComplex);
                     len += waveform->depth * sizeof(RKInt16C);
-- 
2.43.0


From f02bd5f7c41e847c03309c74c69b0ffad356f809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:16 +0000
Subject: [PATCH 171/174] fix: command to a relay is always answered, and with
 its own response when several clients ask

---
 headers/RadarKit/RKRadarRelay.h |  1 +
 source/RKRadarRelay.c           | 70 +++++++++++++++++++++------------
 2 files changed, 46 insertions(+), 25 deletions(-)

diff --git a/headers/RadarKit/RKRadarRelay.h b/headers/RadarKit/RKRadarRelay.h
index 84b6fa8..b99e619 100644
--- a/headers/RadarKit/RKRadarRelay.h
+++ b/headers/RadarKit/RKRadarRelay.h
@@ -45,6 +45,7 @@ typedef struct rk_radar_relay {
     char                             latestCommand[RKMaximumCommandLength];
     pthread_t                        tidBackground;
     RKStream                         streams;
+    pthread_mutex_t                  mutex;
 
     // For handling sweeps
     RKSweepHeader                    sweepHeaderCache;
diff --git a/source/RKRadarRelay.c b/source/RKRadarRelay.c
index 106f064..9a7d3f9 100644
--- a/source/RKRadarRelay.c
+++ b/source/RKRadarRelay.c
@@ -390,6 +390,10 @@ static void *radarRelay(void *in) {
     desc.timeoutSeconds = RKNetworkTimeoutSeconds;
     desc.verbose = 1;
 
+    // The one from the previous start, if any
+    if (engine->client) {
+        RKClientFree(engine->client);
+    }
     engine->client = RKClientInitWithDesc(desc);
     engine->memoryUsage += sizeof(RKClient) + RKMaximumPacketSize;
 
@@ -436,11 +440,16 @@ RKRadarRelay *RKRadarRelayInit(void) {
             rkGlobalParameters.showColor ? RKNoColor : "");
     engine->memoryUsage += sizeof(RKRadarRelay);
     engine->state = RKEngineStateAllocated;
+    pthread_mutex_init(&engine->mutex, NULL);
 
     return (RKRadarRelay *)engine;
 }
 
 void RKRadarRelayFree(RKRadarRelay *engine) {
+    if (engine->client) {
+        RKClientFree(engine->client);
+    }
+    pthread_mutex_destroy(&engine->mutex);
     free(engine);
 }
 
@@ -526,6 +535,9 @@ int RKRadarRelayStop(RKRadarRelay *engine) {
 }
 
 int RKRadarRelayExec(RKRadarRelay *engine, const char *command, char *response) {
+    if (response != NULL) {
+        sprintf(response, "NAK. Radar Relay not active." RKEOL);
+    }
     if (!(engine->state & RKEngineStateWantActive)) {
         return RKResultEngineNotActive;
     }
@@ -535,37 +547,45 @@ int RKRadarRelayExec(RKRadarRelay *engine, const char *command, char *response)
     }
     if (!strcmp(command, "disconnect")) {
         RKClientStop(client);
-    } else {
-        if (client->state < RKClientStateConnected) {
-            if (response != NULL) {
-                sprintf(response, "NAK. Radar Relay not connected." RKEOL);
-            }
-            return RKResultIncompleteReceive;
+        if (response != NULL) {
+            sprintf(response, "ACK. Disconnected." RKEOL);
         }
-        int s = 0;
-        uint32_t responseIndex = engine->responseIndex;
-        uint32_t size = snprintf(engine->latestCommand, RKMaximumCommandLength, "%s" RKEOL, command);
-        RKNetworkSendPackets(client->sd, engine->latestCommand, size, NULL);
-        while (responseIndex == engine->responseIndex) {
-            usleep(10000);
-            if (++s % 100 == 0) {
-                RKLog("%s Waited %.2f s for response.\n", client->name, (float)s * 0.01f);
-            }
-            if ((float)s * 0.01f >= 3.0f) {
-                RKLog("%s should time out.\n", client->name);
-                break;
-            }
+        return RKResultSuccess;
+    }
+    // Several clients may be asking at the same time, a response must not be given to two of them
+    pthread_mutex_lock(&engine->mutex);
+    if (client->state != RKClientStateConnected) {
+        if (response != NULL) {
+            sprintf(response, "NAK. Radar Relay not connected." RKEOL);
         }
-        if (responseIndex == engine->responseIndex) {
-            if (response != NULL) {
-                sprintf(response, "NAK. Timeout." RKEOL);
-            }
-            return RKResultTimeout;
+        pthread_mutex_unlock(&engine->mutex);
+        return RKResultIncompleteReceive;
+    }
+    int s = 0;
+    uint32_t responseIndex = engine->responseIndex;
+    uint32_t size = MIN(snprintf(engine->latestCommand, RKMaximumCommandLength, "%s" RKEOL, command), RKMaximumCommandLength - 1);
+    RKNetworkSendPackets(client->sd, engine->latestCommand, size, NULL);
+    while (responseIndex == engine->responseIndex) {
+        usleep(10000);
+        if (++s % 100 == 0) {
+            RKLog("%s Waited %.2f s for response.\n", client->name, (float)s * 0.01f);
         }
+        if ((float)s * 0.01f >= 3.0f || !(engine->state & RKEngineStateWantActive)) {
+            RKLog("%s should time out.\n", client->name);
+            break;
+        }
+    }
+    if (responseIndex == engine->responseIndex) {
         if (response != NULL) {
-            strcpy(response, engine->responses[responseIndex]);
+            sprintf(response, "NAK. Timeout." RKEOL);
         }
+        pthread_mutex_unlock(&engine->mutex);
+        return RKResultTimeout;
+    }
+    if (response != NULL) {
+        strcpy(response, engine->responses[responseIndex]);
     }
+    pthread_mutex_unlock(&engine->mutex);
     return RKResultSuccess;
 }
 
-- 
2.43.0


From ff9bc3a966fe3ce31a893085f4bbd69cab2d7ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:16 +0000
Subject: [PATCH 172/174] fix: relay tells the controls and the response to its
 own streams from responses to commands

---
 headers/RadarKit/RKRadarRelay.h |  3 +++
 source/RKRadarRelay.c           | 23 ++++++++++++++++++-----
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/headers/RadarKit/RKRadarRelay.h b/headers/RadarKit/RKRadarRelay.h
index b99e619..903e8ce 100644
--- a/headers/RadarKit/RKRadarRelay.h
+++ b/headers/RadarKit/RKRadarRelay.h
@@ -42,6 +42,9 @@ typedef struct rk_radar_relay {
     RKClient                         *client;
     uint32_t                         responseIndex;
     char                             responses[RKRadarRelayFeedbackDepth][RKRadarRelayFeedbackCapacity];
+    uint32_t                         greetResponseCount;
+    uint32_t                         controlsIndex;
+    char                             controls[RKRadarRelayFeedbackCapacity];
     char                             latestCommand[RKMaximumCommandLength];
     pthread_t                        tidBackground;
     RKStream                         streams;
diff --git a/source/RKRadarRelay.c b/source/RKRadarRelay.c
index 9a7d3f9..dbe0dbf 100644
--- a/source/RKRadarRelay.c
+++ b/source/RKRadarRelay.c
@@ -26,6 +26,8 @@ static int RKRadarRelayGreet(RKClient *client) {
         pthread_mutex_unlock(&engine->client->lock);
         return RKResultIncompleteSend;
     }
+    // The response to the streams is not for anyone who asks
+    engine->greetResponseCount = engine->streams == RKStreamNull ? 0 : 1;
     if (engine->streams != RKStreamNull) {
         if (engine->verbose) {
             RKLog("%s Resuming stream ...\n", engine->name);
@@ -318,8 +320,17 @@ static int RKRadarRelayRead(RKClient *client) {
         case RKNetworkPacketTypePlainText:
             break;
 
-        case RKNetworkPacketTypeCommandResponse:
         case RKNetworkPacketTypeControls:
+            // Response to an authentication
+            strncpy(engine->controls, client->userPayload, RKRadarRelayFeedbackCapacity - 1);
+            engine->controlsIndex++;
+            break;
+
+        case RKNetworkPacketTypeCommandResponse:
+            if (engine->greetResponseCount) {
+                engine->greetResponseCount--;
+                break;
+            }
             // Queue up the feedback
             strncpy(engine->responses[engine->responseIndex], client->userPayload, RKRadarRelayFeedbackCapacity - 1);
             engine->responseIndex = RKNextModuloS(engine->responseIndex, RKRadarRelayFeedbackDepth);
@@ -562,10 +573,12 @@ int RKRadarRelayExec(RKRadarRelay *engine, const char *command, char *response)
         return RKResultIncompleteReceive;
     }
     int s = 0;
-    uint32_t responseIndex = engine->responseIndex;
+    const bool authenticate = command[0] == 'a';
+    volatile uint32_t *index = authenticate ? &engine->controlsIndex : &engine->responseIndex;
+    const uint32_t responseIndex = *index;
     uint32_t size = MIN(snprintf(engine->latestCommand, RKMaximumCommandLength, "%s" RKEOL, command), RKMaximumCommandLength - 1);
     RKNetworkSendPackets(client->sd, engine->latestCommand, size, NULL);
-    while (responseIndex == engine->responseIndex) {
+    while (responseIndex == *index) {
         usleep(10000);
         if (++s % 100 == 0) {
             RKLog("%s Waited %.2f s for response.\n", client->name, (float)s * 0.01f);
@@ -575,7 +588,7 @@ int RKRadarRelayExec(RKRadarRelay *engine, const char *command, char *response)
             break;
         }
     }
-    if (responseIndex == engine->responseIndex) {
+    if (responseIndex == *index) {
         if (response != NULL) {
             sprintf(response, "NAK. Timeout." RKEOL);
         }
@@ -583,7 +596,7 @@ int RKRadarRelayExec(RKRadarRelay *engine, const char *command, char *response)
         return RKResultTimeout;
     }
     if (response != NULL) {
-        strcpy(response, engine->responses[responseIndex]);
+        strcpy(response, authenticate ? engine->controls : engine->responses[responseIndex]);
     }
     pthread_mutex_unlock(&engine->mutex);
     return RKResultSuccess;
-- 
2.43.0


From 9a91ab4458f45b2b237cc2075e3827eeb085dbc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:36 +0000
Subject: [PATCH 173/174] fix: streams that are asked for while a relay is
 connecting are not lost

---
 headers/RadarKit/RKRadarRelay.h |   1 +
 source/RKRadarRelay.c           | 107 ++++++++++++++++++++------------
 2 files changed, 69 insertions(+), 39 deletions(-)

diff --git a/headers/RadarKit/RKRadarRelay.h b/headers/RadarKit/RKRadarRelay.h
index 903e8ce..0b5143e 100644
--- a/headers/RadarKit/RKRadarRelay.h
+++ b/headers/RadarKit/RKRadarRelay.h
@@ -48,6 +48,7 @@ typedef struct rk_radar_relay {
     char                             latestCommand[RKMaximumCommandLength];
     pthread_t                        tidBackground;
     RKStream                         streams;
+    RKStream                         streamsSent;
     pthread_mutex_t                  mutex;
 
     // For handling sweeps
diff --git a/source/RKRadarRelay.c b/source/RKRadarRelay.c
index dbe0dbf..3f21540 100644
--- a/source/RKRadarRelay.c
+++ b/source/RKRadarRelay.c
@@ -27,13 +27,14 @@ static int RKRadarRelayGreet(RKClient *client) {
         return RKResultIncompleteSend;
     }
     // The response to the streams is not for anyone who asks
-    engine->greetResponseCount = engine->streams == RKStreamNull ? 0 : 1;
-    if (engine->streams != RKStreamNull) {
+    engine->streamsSent = engine->streams;
+    engine->greetResponseCount = engine->streamsSent == RKStreamNull ? 0 : 1;
+    if (engine->streamsSent != RKStreamNull) {
         if (engine->verbose) {
             RKLog("%s Resuming stream ...\n", engine->name);
         }
         size = sprintf(command, "s");
-        size += RKStringFromStream(command + size, engine->streams);
+        size += RKStringFromStream(command + size, engine->streamsSent);
         size += sprintf(command + size, RKEOL);
         RKNetworkSendPackets(engine->client->sd, command, size, NULL);
     }
@@ -76,6 +77,7 @@ static int RKRadarRelayRead(RKClient *client) {
     RKRadarRelay *engine = (RKRadarRelay *)client->userResource;
 
     int j, k;
+    RKCommand command;
     RKHealth *health;
     RKStatus *status;
     RKRay *ray;
@@ -98,6 +100,19 @@ static int RKRadarRelayRead(RKClient *client) {
     RKPulseStatus pulseStatus = RKPulseStatusVacant;
     uint32_t pulseSize = 0;
 
+    // Streams that have changed after the greeting and before the client was considered connected
+    if (engine->streamsSent != engine->streams && pthread_mutex_trylock(&engine->mutex) == 0) {
+        if (engine->streamsSent != engine->streams) {
+            engine->streamsSent = engine->streams;
+            engine->greetResponseCount++;
+            k = sprintf(command, "s");
+            k += RKStringFromStream(command + k, engine->streamsSent);
+            k += sprintf(command + k, RKEOL);
+            RKNetworkSendPackets(client->sd, command, k, NULL);
+        }
+        pthread_mutex_unlock(&engine->mutex);
+    }
+
     switch (client->netDelimiter.type) {
         case RKNetworkPacketTypeBeacon:
             // Ignore beacon
@@ -378,6 +393,43 @@ static int RKRadarRelayRead(RKClient *client) {
     return RKResultSuccess;
 }
 
+// Send a command and wait for the response, engine->mutex must be locked
+static int askRemote(RKRadarRelay *engine, const char *command, char *response) {
+    RKClient *client = engine->client;
+    if (client->state != RKClientStateConnected) {
+        if (response != NULL) {
+            sprintf(response, "NAK. Radar Relay not connected." RKEOL);
+        }
+        return RKResultIncompleteReceive;
+    }
+    int s = 0;
+    const bool authenticate = command[0] == 'a';
+    volatile uint32_t *index = authenticate ? &engine->controlsIndex : &engine->responseIndex;
+    const uint32_t responseIndex = *index;
+    uint32_t size = MIN(snprintf(engine->latestCommand, RKMaximumCommandLength, "%s" RKEOL, command), RKMaximumCommandLength - 1);
+    RKNetworkSendPackets(client->sd, engine->latestCommand, size, NULL);
+    while (responseIndex == *index) {
+        usleep(10000);
+        if (++s % 100 == 0) {
+            RKLog("%s Waited %.2f s for response.\n", client->name, (float)s * 0.01f);
+        }
+        if ((float)s * 0.01f >= 3.0f || !(engine->state & RKEngineStateWantActive)) {
+            RKLog("%s should time out.\n", client->name);
+            break;
+        }
+    }
+    if (responseIndex == *index) {
+        if (response != NULL) {
+            sprintf(response, "NAK. Timeout." RKEOL);
+        }
+        return RKResultTimeout;
+    }
+    if (response != NULL) {
+        strcpy(response, authenticate ? engine->controls : engine->responses[responseIndex]);
+    }
+    return RKResultSuccess;
+}
+
 #pragma mark - Delegate Workers
 
 static void *radarRelay(void *in) {
@@ -565,49 +617,26 @@ int RKRadarRelayExec(RKRadarRelay *engine, const char *command, char *response)
     }
     // Several clients may be asking at the same time, a response must not be given to two of them
     pthread_mutex_lock(&engine->mutex);
-    if (client->state != RKClientStateConnected) {
-        if (response != NULL) {
-            sprintf(response, "NAK. Radar Relay not connected." RKEOL);
-        }
-        pthread_mutex_unlock(&engine->mutex);
-        return RKResultIncompleteReceive;
-    }
-    int s = 0;
-    const bool authenticate = command[0] == 'a';
-    volatile uint32_t *index = authenticate ? &engine->controlsIndex : &engine->responseIndex;
-    const uint32_t responseIndex = *index;
-    uint32_t size = MIN(snprintf(engine->latestCommand, RKMaximumCommandLength, "%s" RKEOL, command), RKMaximumCommandLength - 1);
-    RKNetworkSendPackets(client->sd, engine->latestCommand, size, NULL);
-    while (responseIndex == *index) {
-        usleep(10000);
-        if (++s % 100 == 0) {
-            RKLog("%s Waited %.2f s for response.\n", client->name, (float)s * 0.01f);
-        }
-        if ((float)s * 0.01f >= 3.0f || !(engine->state & RKEngineStateWantActive)) {
-            RKLog("%s should time out.\n", client->name);
-            break;
-        }
-    }
-    if (responseIndex == *index) {
-        if (response != NULL) {
-            sprintf(response, "NAK. Timeout." RKEOL);
-        }
-        pthread_mutex_unlock(&engine->mutex);
-        return RKResultTimeout;
-    }
-    if (response != NULL) {
-        strcpy(response, authenticate ? engine->controls : engine->responses[responseIndex]);
-    }
+    int r = askRemote(engine, command, response);
     pthread_mutex_unlock(&engine->mutex);
-    return RKResultSuccess;
+    return r;
 }
 
 int RKRadarRelayUpdateStreams(RKRadarRelay *engine, RKStream newStream) {
     char command[RKMaximumStringLength];
     if (engine->streams != newStream) {
         engine->streams = newStream;
-        sprintf(command, "s%s", RKStringOfStream(newStream));
-        RKRadarRelayExec(engine, command, NULL);
+        if (!(engine->state & RKEngineStateWantActive)) {
+            return RKResultSuccess;
+        }
+        pthread_mutex_lock(&engine->mutex);
+        // Not connected: sent with the greeting, or as soon as something comes
+        if (engine->streamsSent != engine->streams && engine->client->state == RKClientStateConnected) {
+            engine->streamsSent = engine->streams;
+            sprintf(command, "s%s", RKStringOfStream(engine->streamsSent));
+            askRemote(engine, command, NULL);
+        }
+        pthread_mutex_unlock(&engine->mutex);
     }
     return RKResultSuccess;
 }
-- 
2.43.0


From bf4ec668bc13e44a296ff642b251648e4364600c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:58 +0000
Subject: [PATCH 174/174] fix: streams of a client of a relay are not dropped
 when another client subscribes or leaves at the same time

---
 headers/RadarKit/RKCommandCenter.h | 1 +
 source/RKCommandCenter.c           | 6 +++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/headers/RadarKit/RKCommandCenter.h b/headers/RadarKit/RKCommandCenter.h
index b5931c3..a042f99 100644
--- a/headers/RadarKit/RKCommandCenter.h
+++ b/headers/RadarKit/RKCommandCenter.h
@@ -68,6 +68,7 @@ typedef struct rk_command_center {
     int                              radarCount;
     RKUser                           users[RKCommandCenterMaxConnections];
     pthread_mutex_t                  mutex;
+    pthread_mutex_t                  streamMutex;
 
     // Status / health
     size_t                           memoryUsage;
diff --git a/source/RKCommandCenter.c b/source/RKCommandCenter.c
index ae6b085..d67bda4 100644
--- a/source/RKCommandCenter.c
+++ b/source/RKCommandCenter.c
@@ -22,7 +22,8 @@ static void consolidateStreams(RKCommandCenter *engine) {
     int j, k;
     RKStream consolidatedStreams;
 
-    // Consolidate streams
+    // Consolidate streams, one user at a time so that the last one knows of all
+    pthread_mutex_lock(&engine->streamMutex);
     for (j = 0; j < RKCommandCenterMaxRadars; j++) {
         RKRadar *radar = engine->radars[j];
         if (radar == NULL) {
@@ -40,6 +41,7 @@ static void consolidateStreams(RKCommandCenter *engine) {
         }
         RKRadarRelayUpdateStreams(radar->radarRelay, consolidatedStreams);
     }
+    pthread_mutex_unlock(&engine->streamMutex);
 }
 
 static void copyRayHeader(RKRayHeaderV1 *destination, RKRayHeader *source) {
@@ -1649,6 +1651,7 @@ RKCommandCenter *RKCommandCenterInit(void) {
     engine->memoryUsage = sizeof(RKCommandCenter);
     engine->server = RKServerInit();
     pthread_mutex_init(&engine->mutex, NULL);
+    pthread_mutex_init(&engine->streamMutex, NULL);
     RKServerSetName(engine->server, engine->name);
     RKServerSetWelcomeHandler(engine->server, &socketInitialHandler);
     RKServerSetCommandHandler(engine->server, &socketCommandHandler);
@@ -1660,6 +1663,7 @@ RKCommandCenter *RKCommandCenterInit(void) {
 
 void RKCommandCenterFree(RKCommandCenter *engine) {
     pthread_mutex_destroy(&engine->mutex);
+    pthread_mutex_destroy(&engine->streamMutex);
     RKServerFree(engine->server);
     free(engine);
     return;
-- 
2.43.0

