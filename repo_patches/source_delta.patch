From 71ab2670dcbcc746727ee33abc7056c2bd5ba30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:57 +0000
Subject: [PATCH 01/20] fix: recompute the sum of squared excesses when an
 extreme excess is evicted

peaks_update_stats overwrote e2 with the square of the last stored value
instead of accumulating it, so the variance (hence the method-of-moments
tail fit) was wrong every time the smallest or largest excess left the
window.
---
 src/peaks.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/peaks.c b/src/peaks.c
index fcaaadc..97010d7 100644
--- a/src/peaks.c
+++ b/src/peaks.c
@@ -42,7 +42,7 @@ static unsigned long peaks_update_stats(struct Peaks *peaks) {
         // value = *iterator;
         double value = peaks->container.data[i];
         peaks->e += value;
-        peaks->e2 = value * value;
+        peaks->e2 += value * value;
         if (is_nan(peaks->min) || (value < peaks->min)) {
             peaks->min = value;
         }
-- 
2.43.0


From a2ac545c010ffa7e0592b434a277c5a76f060374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:59 +0000
Subject: [PATCH 02/20] fix: never select a tail fit whose scale is not
 positive

For excesses of small magnitude (about 1e-8 and below) a spurious root of
the likelihood equation gives gamma = 0 and sigma = -0, whose computed
log-likelihood was +inf. It won the selection, collapsing the anomaly
threshold on the excess threshold (every excess was flagged).
---
 src/peaks.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/peaks.c b/src/peaks.c
index 97010d7..cec2ea4 100644
--- a/src/peaks.c
+++ b/src/peaks.c
@@ -101,6 +101,10 @@ double peaks_var(struct Peaks const *peaks) {
 double log_likelihood(struct Peaks const *peaks, double gamma, double sigma) {
     unsigned long Nt_local = ubend_size(&(peaks->container));
     double Nt = (double)Nt_local;
+    if (!(sigma > 0.)) {
+        // not a valid GPD: it must never beat a valid one
+        return _NAN;
+    }
     if (gamma == 0.) {
         return -Nt * xlog(sigma) - peaks->e / sigma;
     }
-- 
2.43.0


From c9154c4f7eda4d058678dc6ee6619f613b88b270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:59 +0000
Subject: [PATCH 03/20] fix: refuse a tail container that cannot hold its
 capacity

With max_excess = 0 every excess was written past the end of the buffer,
and a max_excess whose size in bytes overflows gave a buffer far smaller
than the recorded capacity. Both are now reported as a failed allocation.
---
 src/ubend.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ubend.c b/src/ubend.c
index 9a58175..0a8f517 100644
--- a/src/ubend.c
+++ b/src/ubend.c
@@ -14,7 +14,14 @@ int ubend_init(struct Ubend *ubend, unsigned long capacity) {
     ubend->filled = 0;
     ubend->capacity = capacity;
     ubend->last_erased_data = _NAN;
-    ubend->data = (double *)xmalloc(capacity * __SIZEOF_DOUBLE__);
+    ubend->data = 0x0;
+    // the container must hold at least one value and its size
+    // in bytes must not overflow
+    unsigned long const bytes = capacity * __SIZEOF_DOUBLE__;
+    if ((capacity == 0) || (bytes / __SIZEOF_DOUBLE__ != capacity)) {
+        return -ERR_MEMORY_ALLOCATION_FAILED;
+    }
+    ubend->data = (double *)xmalloc(bytes);
     if (ubend->data) {
         return 0;
     }
-- 
2.43.0


From 91afec0aed26352b84027d81d0fc8421ea4eb43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:59 +0000
Subject: [PATCH 04/20] fix: do not release the tail buffer twice

Freeing a container kept the dangling pointer, so a second spot_free on
the same structure released the buffer again.
---
 src/ubend.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ubend.c b/src/ubend.c
index 0a8f517..9956345 100644
--- a/src/ubend.c
+++ b/src/ubend.c
@@ -35,6 +35,7 @@ void ubend_free(struct Ubend *ubend) {
     ubend->last_erased_data = _NAN;
     if (ubend->data) {
         xfree(ubend->data);
+        ubend->data = 0x0;
     }
 }
 
-- 
2.43.0


From c1187b5c233d778a4857e2029fa6ab062d52810a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:59 +0000
Subject: [PATCH 05/20] fix: reject NaN level and q parameters

spot_init accepted NaN since every comparison with it is false; the
detector then never flagged anything.
---
 src/spot.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/spot.c b/src/spot.c
index 7dc4ed7..83670e5 100644
--- a/src/spot.c
+++ b/src/spot.c
@@ -23,10 +23,11 @@ static const char *license = LICENSE;
 
 int spot_init(struct Spot *spot, double q, int low, int discard_anomalies,
               double level, unsigned long max_excess) {
-    if ((level < 0.) || (level >= 1.)) {
+    // the conditions are written so as to reject NaN too
+    if (!((level >= 0.) && (level < 1.))) {
         return -ERR_LEVEL_OUT_OF_BOUNDS;
     }
-    if ((q >= (1. - level)) || (q <= 0.0)) {
+    if (!((q < (1. - level)) && (q > 0.0))) {
         return -ERR_Q_OUT_OF_BOUNDS;
     }
     spot->q = q;
-- 
2.43.0


From d210f08bfd8d2317e221f17c78cf2f4a821bcc7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:59 +0000
Subject: [PATCH 06/20] fix: do not write before an empty output buffer

libspot_version/license/error wrote buffer[-1] when size was 0.
---
 src/spot.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spot.c b/src/spot.c
index 83670e5..2d858ba 100644
--- a/src/spot.c
+++ b/src/spot.c
@@ -173,7 +173,7 @@ void set_allocators(malloc_fn m, free_fn f) { internal_set_allocators(m, f); }
  * @return char* pointer to the output buffer
  */
 static char *strncpy(char *dst, const char *src, unsigned long size) {
-    if (dst) {
+    if (dst && size) {
         unsigned long i = 0;
         for (; (i < size) && (src[i] != '\0'); i++) {
             dst[i] = src[i];
-- 
2.43.0


From 786b2220e0001b0367e861c9fc5dbf9006f0eee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:59 +0000
Subject: [PATCH 07/20] fix: exponential of large arguments and logarithm of
 infinity

Beyond about 1.5e9 the exponent computed by xexp did not fit in an int
(or even in an unsigned int, which is undefined behaviour): xexp(2e9) was
0 and xexp(-2e9) was +inf, so far tail probabilities could be infinite
or NaN. xlog(+inf) was NaN.
---
 src/xmath.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/xmath.c b/src/xmath.c
index 81dfcb8..7661dcf 100644
--- a/src/xmath.c
+++ b/src/xmath.c
@@ -325,6 +325,10 @@ double xexp(double x) {
     if (x < 0) {
         return 1.0 / xexp(-x);
     }
+    if (x > 1024.0) {
+        // it overflows (besides, k below may not fit in an integer)
+        return _INFINITY;
+    }
     if (x > LOG2) {
         unsigned int k = x / LOG2;
         double r = x - LOG2 * (double)k;
@@ -344,6 +348,9 @@ double xlog(double x) {
     if (x == 0) {
         return -_INFINITY;
     }
+    if (x == _INFINITY) {
+        return _INFINITY;
+    }
     // double_cast casted = {.d = x};
     // if (casted.bits.exponent == 1022 || casted.bits.exponent == 1023) {
     //     // 1/2 < x < 1
-- 
2.43.0


From c2e3e4f5e81ff2507d8b3a0620ce8b74b5b4af4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:35 +0000
Subject: [PATCH 08/20] fix: P2 marker positions when a value equals the
 current minimum

---
 src/p2.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/p2.c b/src/p2.c
index 88e4360..3ca6779 100644
--- a/src/p2.c
+++ b/src/p2.c
@@ -138,8 +138,10 @@ static double quantile(struct P2 *p2, double const *x, unsigned long size) {
             while (xj > p2->q[k]) {
                 k++;
             }
-            k--;
-            // here q[k] < x < q[k + 1]
+            if (k > 0) {
+                k--;
+            }
+            // here q[k] <= x <= q[k + 1]
             for (i = k + 1; i < 5; i++) {
                 p2->n[i] += 1.0;
             }
-- 
2.43.0


From 24b5e17e75cfc5b33510be990504ca65d9f7d0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:32 +0000
Subject: [PATCH 09/20] fix: the quantile of less than five values is
 undefined, not zero

---
 src/p2.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/p2.c b/src/p2.c
index 3ca6779..ce17244 100644
--- a/src/p2.c
+++ b/src/p2.c
@@ -116,7 +116,8 @@ static double quantile(struct P2 *p2, double const *x, unsigned long size) {
     double qp;
 
     if (size < 5) {
-        return 0.0;
+        // not enough data: the quantile is not defined (NaN)
+        return 0.0 / 0.0;
     }
     // init q with the 5 first values
     for (i = 0; i < 5; i++) {
-- 
2.43.0


From 0d1b9a3adecc947129103fd6c625d9ec952c7645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:09 +0000
Subject: [PATCH 10/20] fix: a new fit forgets the excesses and the thresholds
 of the previous one

---
 include/peaks.h | 7 +++++++
 include/ubend.h | 7 +++++++
 src/peaks.c     | 8 ++++++++
 src/spot.c      | 6 ++++++
 src/ubend.c     | 6 ++++++
 5 files changed, 34 insertions(+)

diff --git a/include/peaks.h b/include/peaks.h
index 2a99670..c540801 100644
--- a/include/peaks.h
+++ b/include/peaks.h
@@ -30,6 +30,13 @@ int peaks_init(struct Peaks *peaks, unsigned long size);
  */
 void peaks_free(struct Peaks *peaks);
 
+/**
+ * @brief Forget the stored peaks (the memory is kept)
+ *
+ * @param peaks Peaks instance
+ */
+void peaks_clear(struct Peaks *peaks);
+
 /**
  * @brief Insert a new peak
  *
diff --git a/include/ubend.h b/include/ubend.h
index 0852761..d9b8a7d 100644
--- a/include/ubend.h
+++ b/include/ubend.h
@@ -42,6 +42,13 @@ int ubend_init(struct Ubend *ubend, unsigned long capacity);
  */
 void ubend_free(struct Ubend *ubend);
 
+/**
+ * @brief Forget the stored data (the memory is kept)
+ *
+ * @param ubend Ubend instance
+ */
+void ubend_clear(struct Ubend *ubend);
+
 /**
  * @brief Return the current size of the container
  *
diff --git a/src/peaks.c b/src/peaks.c
index cec2ea4..22d73e7 100644
--- a/src/peaks.c
+++ b/src/peaks.c
@@ -26,6 +26,14 @@ void peaks_free(struct Peaks *peaks) {
     ubend_free(&(peaks->container));
 }
 
+void peaks_clear(struct Peaks *peaks) {
+    peaks->e = 0.0;
+    peaks->e2 = 0.0;
+    peaks->min = _NAN;
+    peaks->max = _NAN;
+    ubend_clear(&(peaks->container));
+}
+
 static unsigned long peaks_update_stats(struct Peaks *peaks) {
     unsigned long max_iteration;
 
diff --git a/src/spot.c b/src/spot.c
index 2d858ba..826dc7e 100644
--- a/src/spot.c
+++ b/src/spot.c
@@ -82,6 +82,12 @@ int spot_fit(struct Spot *spot, double const *data, unsigned long size) {
     // total number of excesses
     spot->Nt = 0;
     spot->n = size;
+    // forget the thresholds and the tail of a previous fit
+    spot->anomaly_threshold = _NAN;
+    spot->excess_threshold = _NAN;
+    spot->tail.gamma = _NAN;
+    spot->tail.sigma = _NAN;
+    peaks_clear(&(spot->tail.peaks));
 
     // compute excess threshold
     double et;
diff --git a/src/ubend.c b/src/ubend.c
index 9956345..5eacd42 100644
--- a/src/ubend.c
+++ b/src/ubend.c
@@ -39,6 +39,12 @@ void ubend_free(struct Ubend *ubend) {
     }
 }
 
+void ubend_clear(struct Ubend *ubend) {
+    ubend->cursor = 0;
+    ubend->filled = 0;
+    ubend->last_erased_data = _NAN;
+}
+
 unsigned long ubend_size(struct Ubend const *ubend) {
     if (ubend->filled) {
         return ubend->capacity;
-- 
2.43.0


From ea5ff371e70e72e3fc7400260478ddb6cbdd3868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:24 +0000
Subject: [PATCH 11/20] fix: python fit accepts any sequence, reports its
 errors and does not leak

---
 python/libspotmodule.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/python/libspotmodule.c b/python/libspotmodule.c
index 0af61aa..e6346ba 100644
--- a/python/libspotmodule.c
+++ b/python/libspotmodule.c
@@ -129,7 +129,8 @@ PyDoc_STRVAR(Spot_fit_doc,
              "on training data");
 
 static PyObject *Spot_fit(Spot *self, PyObject *data) {
-    PyObject *seq = PySequence_Fast(data, "cannot turn arg into sequence");
+    // a new list (whatever the input sequence is)
+    PyObject *seq = PySequence_List(data);
     if (seq == NULL) {
         return NULL;
     }
@@ -137,11 +138,21 @@ static PyObject *Spot_fit(Spot *self, PyObject *data) {
     unsigned long size = (unsigned long)PyList_Size(seq);
 
     // allocate a new raw buffer to pass to the fit method
-    double *x = malloc(size * sizeof(double));
+    double *x = malloc((size ? size : 1) * sizeof(double));
+    if (x == NULL) {
+        Py_DECREF(seq);
+        return PyErr_NoMemory();
+    }
     for (unsigned long i = 0; i < size; i++) {
         // https://docs.python.org/3/c-api/float.html#c.PyFloat_AsDouble
         x[i] = PyFloat_AsDouble(PyList_GetItem(seq, i));
+        if (PyErr_Occurred()) {
+            free(x);
+            Py_DECREF(seq);
+            return NULL;
+        }
     }
+    Py_DECREF(seq);
     // libspot API call
     int result = spot_fit(&(self->_spot), x, size);
     // free the buffer
@@ -152,6 +163,7 @@ static PyObject *Spot_fit(Spot *self, PyObject *data) {
         char buffer[256];
         libspot_error(-result, buffer, 256);
         PyErr_SetString(PyExc_RuntimeError, buffer);
+        return NULL;
     }
     Py_RETURN_NONE;
 }
-- 
2.43.0


From 2de6a26c8828c47a0637cc37753d63303d56f9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:24 +0000
Subject: [PATCH 12/20] fix: python methods raise on an argument that is not a
 number

---
 python/libspotmodule.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/python/libspotmodule.c b/python/libspotmodule.c
index e6346ba..f8ed559 100644
--- a/python/libspotmodule.c
+++ b/python/libspotmodule.c
@@ -173,6 +173,9 @@ PyDoc_STRVAR(Spot_step_doc, "step($self, x)\n--\n\n"
 
 static PyObject *Spot_step(Spot *self, PyObject *x) {
     double z = PyFloat_AsDouble(x);
+    if (PyErr_Occurred()) {
+        return NULL;
+    }
 
     // libspot API call
     int result = spot_step(&(self->_spot), z);
@@ -185,6 +188,9 @@ PyDoc_STRVAR(Spot_quantile_doc, "quantile($self, q)\n--\n\n"
 
 static PyObject *Spot_quantile(Spot *self, PyObject *x) {
     double q = PyFloat_AsDouble(x);
+    if (PyErr_Occurred()) {
+        return NULL;
+    }
 
     // libspot API call
     double z = spot_quantile(&(self->_spot), q);
@@ -198,6 +204,9 @@ PyDoc_STRVAR(Spot_probability_doc,
 
 static PyObject *Spot_probability(Spot *self, PyObject *x) {
     double z = PyFloat_AsDouble(x);
+    if (PyErr_Occurred()) {
+        return NULL;
+    }
 
     // libspot API call
     double q = spot_probability(&(self->_spot), z);
-- 
2.43.0


From 42fc29504ca87f8ed1569202e422bc0aa5af927e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:24 +0000
Subject: [PATCH 13/20] fix: python Spot objects release their own memory

---
 python/libspotmodule.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/libspotmodule.c b/python/libspotmodule.c
index f8ed559..5f3b55f 100644
--- a/python/libspotmodule.c
+++ b/python/libspotmodule.c
@@ -265,7 +265,11 @@ static void Spot_dealloc(Spot *self) {
     // free internal structure
     // libspot API call
     spot_free(&(self->_spot));
-    // Py_TYPE(self)->tp_free((PyObject *)self);
+    // release the object itself and its reference to its (heap) type
+    PyTypeObject *type = Py_TYPE(self);
+    freefunc tp_free = (freefunc)PyType_GetSlot(type, Py_tp_free);
+    tp_free(self);
+    Py_DECREF(type);
 }
 
 static const PyMemberDef Spot_members[] = {
-- 
2.43.0


From c260b52ffc511aba634e244df2ad4890c90d5280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:47 +0000
Subject: [PATCH 14/20] fix: python Spot can be initialized again without
 losing memory

---
 python/libspotmodule.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/python/libspotmodule.c b/python/libspotmodule.c
index 5f3b55f..4837b8f 100644
--- a/python/libspotmodule.c
+++ b/python/libspotmodule.c
@@ -113,14 +113,19 @@ static int Spot_init(Spot *self, PyObject *args, PyObject *kwds) {
         return -1;
 
     // libspot API call
-    int result = spot_init(&(self->_spot), q, low, discard_anomalies, level,
-                           max_excess);
+    struct Spot spot;
+    int result =
+        spot_init(&spot, q, low, discard_anomalies, level, max_excess);
     if (result < 0) {
         char buffer[256];
         libspot_error(-result, buffer, 256);
         PyErr_SetString(PyExc_RuntimeError, buffer);
+        return -1;
     }
-    return result;
+    // release the memory of a previous call
+    spot_free(&(self->_spot));
+    self->_spot = spot;
+    return 0;
 }
 
 PyDoc_STRVAR(Spot_fit_doc,
-- 
2.43.0


From 48489497ddd0bd0d9f39d622c3192938cccf987d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:47 +0000
Subject: [PATCH 15/20] fix: js fit only copies the given view of the data

---
 wasm/index.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/wasm/index.ts b/wasm/index.ts
index 2095cc1..a123c08 100644
--- a/wasm/index.ts
+++ b/wasm/index.ts
@@ -198,7 +198,10 @@ export class Spot {
     // reserve heap
     const arrayPtr = libspot._malloc(data.length * data.BYTES_PER_ELEMENT);
     // copy array (converted to bytes) to the heap
-    libspot.HEAPU8.set(new Uint8Array(data.buffer), arrayPtr);
+    libspot.HEAPU8.set(
+      new Uint8Array(data.buffer, data.byteOffset, data.byteLength),
+      arrayPtr
+    );
     // call the function
     const code = spotFit(this.ptr, arrayPtr, data.length);
     if (code < 0) {
-- 
2.43.0


From bf12b50ea6fb63ade01d5b71c4a43ae4f4c71499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:47 +0000
Subject: [PATCH 16/20] fix: js fit releases its buffer when it fails

---
 wasm/index.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wasm/index.ts b/wasm/index.ts
index a123c08..587dff5 100644
--- a/wasm/index.ts
+++ b/wasm/index.ts
@@ -204,11 +204,11 @@ export class Spot {
     );
     // call the function
     const code = spotFit(this.ptr, arrayPtr, data.length);
+    // release heap
+    libspot._free(arrayPtr);
     if (code < 0) {
       throw new Error(libspotError(-code));
     }
-    // release heap
-    libspot._free(arrayPtr);
     return code;
   }
 
-- 
2.43.0


From e8bc744cdfad204813296402012c3a81c4beac63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:47 +0000
Subject: [PATCH 17/20] fix: js does not free the content of a structure that
 was not initialized

---
 wasm/index.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/wasm/index.ts b/wasm/index.ts
index 587dff5..c48789a 100644
--- a/wasm/index.ts
+++ b/wasm/index.ts
@@ -165,11 +165,13 @@ export class Spot {
     maxExcess = 500,
   }: SpotConfig) {
     this.ptr = spotNew();
-    freg.register(this, this.ptr); // kind of destructor
     const code = spotInit(this.ptr, q, low, discardAnomalies, level, maxExcess);
     if (code < 0) {
+      // nothing has been allocated inside the structure
+      libspot._free(this.ptr);
       throw new Error(libspotError(-code));
     }
+    freg.register(this, this.ptr); // kind of destructor
   }
 
   anomaly_threshold() {
-- 
2.43.0


From e187295a035d487e5a1c0d2acbc050aaa8466310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:13 +0000
Subject: [PATCH 18/20] fix: the Grimshaw root search follows the scale of the
 excesses

---
 src/estimator.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/estimator.c b/src/estimator.c
index 700dd2d..cc971c4 100644
--- a/src/estimator.c
+++ b/src/estimator.c
@@ -62,7 +62,10 @@ double grimshaw_estimator(struct Peaks const *peaks, double *gamma,
     double maxi = peaks->max;
     double mean = peaks_mean(peaks);
 
-    double epsilon = xmin(BRENT_DEFAULT_EPSILON, 0.5 / maxi);
+    // the roots are of the order of the inverse of the excesses so the search
+    // must follow their scale (close to zero only rounding errors remain)
+    double epsilon = xmin(1e3 * BRENT_DEFAULT_EPSILON / mean, 0.5 / maxi);
+    double tol = 1e-3 * epsilon;
     double r;
     double a, b;
 
@@ -76,8 +79,7 @@ double grimshaw_estimator(struct Peaks const *peaks, double *gamma,
     // left root -------------------------------------------------------------
     a = -1.0 / maxi + epsilon;
     b = -epsilon;
-    r = brent(&found[left], a, b, grimshaw_w, (void *)peaks,
-              BRENT_DEFAULT_EPSILON);
+    r = brent(&found[left], a, b, grimshaw_w, (void *)peaks, tol);
     if (found[left]) {
         roots[left] = r;
     }
@@ -85,8 +87,7 @@ double grimshaw_estimator(struct Peaks const *peaks, double *gamma,
     // right root -------------------------------------------------------------
     a = epsilon;
     b = 2.0 * (mean - mini) / (mini * mini);
-    r = brent(&found[right], a, b, grimshaw_w, (void *)peaks,
-              BRENT_DEFAULT_EPSILON);
+    r = brent(&found[right], a, b, grimshaw_w, (void *)peaks, tol);
     if (found[right]) {
         roots[right] = r;
     }
-- 
2.43.0


From 72c7688cbd4f6455d1314a513e145480aaa92a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:40 +0000
Subject: [PATCH 19/20] fix: python methods of an uninitialized object raise
 instead of crashing

---
 python/libspotmodule.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/python/libspotmodule.c b/python/libspotmodule.c
index 4837b8f..3764466 100644
--- a/python/libspotmodule.c
+++ b/python/libspotmodule.c
@@ -128,6 +128,16 @@ static int Spot_init(Spot *self, PyObject *args, PyObject *kwds) {
     return 0;
 }
 
+// a subclass may not call Spot.__init__: there is no storage then
+static int Spot_is_ready(Spot *self) {
+    if (self->_spot.tail.peaks.container.data == NULL) {
+        PyErr_SetString(PyExc_RuntimeError,
+                        "The Spot object has not been initialized");
+        return 0;
+    }
+    return 1;
+}
+
 PyDoc_STRVAR(Spot_fit_doc,
              "fit($self, data)\n--\n\n"
              "Compute the first excess and anomaly thresholds based "
@@ -158,6 +168,10 @@ static PyObject *Spot_fit(Spot *self, PyObject *data) {
         }
     }
     Py_DECREF(seq);
+    if (!Spot_is_ready(self)) {
+        free(x);
+        return NULL;
+    }
     // libspot API call
     int result = spot_fit(&(self->_spot), x, size);
     // free the buffer
@@ -182,6 +196,9 @@ static PyObject *Spot_step(Spot *self, PyObject *x) {
         return NULL;
     }
 
+    if (!Spot_is_ready(self)) {
+        return NULL;
+    }
     // libspot API call
     int result = spot_step(&(self->_spot), z);
 
-- 
2.43.0


From 21e72d15e851027d370d9478d8b128a25aa63a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:02 +0000
Subject: [PATCH 20/20] fix: js reports an exhausted heap instead of writing at
 address 0

---
 wasm/index.ts | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/wasm/index.ts b/wasm/index.ts
index c48789a..ce86be3 100644
--- a/wasm/index.ts
+++ b/wasm/index.ts
@@ -60,13 +60,22 @@ const stringify = (raw: Uint8Array) => {
   return new TextDecoder("utf-8").decode(raw).replace(/\0/g, "");
 };
 
+// reserve some bytes on the heap (0 means that the memory is exhausted)
+const alloc = (size: number): number => {
+  const ptr = libspot._malloc(size);
+  if (ptr === 0) {
+    throw new Error("Memory allocation failed");
+  }
+  return ptr;
+};
+
 /**
  *
  * @returns the version of the library
  */
 export const libspotVersion = (): string => {
   const size = 24;
-  let ptr = libspot._malloc(size);
+  let ptr = alloc(size);
   libspot.ccall("libspot_version", null, ["number", "number"], [ptr, size]);
   const version = stringify(libspot.HEAPU8.slice(ptr, ptr + size).buffer);
   libspot._free(ptr);
@@ -80,7 +89,7 @@ export const libspotVersion = (): string => {
  */
 export const libspotError = (code: number): string => {
   const size = 256;
-  let ptr = libspot._malloc(size);
+  let ptr = alloc(size);
   // fill with zeros
   libspot.HEAPU8.fill(0, ptr, ptr + size);
   libspot.ccall(
@@ -165,6 +174,9 @@ export class Spot {
     maxExcess = 500,
   }: SpotConfig) {
     this.ptr = spotNew();
+    if (this.ptr === 0) {
+      throw new Error("Memory allocation failed");
+    }
     const code = spotInit(this.ptr, q, low, discardAnomalies, level, maxExcess);
     if (code < 0) {
       // nothing has been allocated inside the structure
@@ -198,7 +210,7 @@ export class Spot {
    */
   fit(data: Float64Array) {
     // reserve heap
-    const arrayPtr = libspot._malloc(data.length * data.BYTES_PER_ELEMENT);
+    const arrayPtr = alloc(data.length * data.BYTES_PER_ELEMENT);
     // copy array (converted to bytes) to the heap
     libspot.HEAPU8.set(
       new Uint8Array(data.buffer, data.byteOffset, data.byteLength),
-- 
2.43.0

