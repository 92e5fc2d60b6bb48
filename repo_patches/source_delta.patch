From 923f013b62728298667f9cc98fcdea478b637ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:48 +0000
Subject: [PATCH 01/56] fix: do not abort when a query is outside the
 coordinates of a variable resolution axis

---
 libsrc/geomodelgrids/utils/Indexing.cc | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/libsrc/geomodelgrids/utils/Indexing.cc b/libsrc/geomodelgrids/utils/Indexing.cc
index 96060fa..c0a5fa3 100644
--- a/libsrc/geomodelgrids/utils/Indexing.cc
+++ b/libsrc/geomodelgrids/utils/Indexing.cc
@@ -78,9 +78,6 @@ geomodelgrids::utils::IndexingVariable::getIndex(const double x) const {
     size_t indexL = 0;
     size_t indexR = _numX - 1;
     const double xN = (_order == ASCENDING) ? _x[0] + x : _x[0] - x;
-    const double tolerance = 1.0e-6;
-    assert((ASCENDING == _order && (xN >= _x[indexL]-tolerance) && (xN <= _x[indexR]+tolerance)) ||
-           (DESCENDING == _order && (xN <= _x[indexL]+tolerance) && (xN >= _x[indexR]-tolerance)));
 
     typedef bool (*cmp_fn)(const double,
                            const double);
@@ -94,9 +91,9 @@ geomodelgrids::utils::IndexingVariable::getIndex(const double x) const {
             indexL = indexM;
         } // if/else
     } // while
-    assert((ASCENDING == _order && xN >= _x[indexL]-tolerance && _x[indexR] > _x[indexL]) ||
-           (DESCENDING == _order && xN <= _x[indexL]+tolerance && _x[indexR] <= _x[indexL]));
+    assert((ASCENDING == _order && _x[indexR] > _x[indexL]) || (DESCENDING == _order && _x[indexR] <= _x[indexL]));
 
+    // A point outside the coordinates has an index outside the range [0, _numX-1].
     index = double(indexL) + (xN - _x[indexL]) / (_x[indexR] - _x[indexL]);
     return index;
 }
-- 
2.43.0


From a1daab1a80865040a93f980643e466f0d8fd1a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:40 +0000
Subject: [PATCH 02/56] fix: choose the interpolation cell independently of the
 hyperslab in memory

---
 libsrc/geomodelgrids/serial/Hyperslab.cc | 66 ++++++++++++++----------
 1 file changed, 38 insertions(+), 28 deletions(-)

diff --git a/libsrc/geomodelgrids/serial/Hyperslab.cc b/libsrc/geomodelgrids/serial/Hyperslab.cc
index 62edad3..8f9a07d 100644
--- a/libsrc/geomodelgrids/serial/Hyperslab.cc
+++ b/libsrc/geomodelgrids/serial/Hyperslab.cc
@@ -57,6 +57,17 @@ private:
     typedef void (_Hyperslab::*interpolate_fn_type)(double* const values,
                                                     const double indexFloat[]);
 
+    /** Get index of "lower" point along dimension (lowest index of cell used to interpolate at target point).
+     *
+     * The index does not depend on the current hyperslab.
+     *
+     * @param[in] indexFloat Floating point index of target point.
+     * @param[in] dim Dimension.
+     * @returns Index of point in dataset.
+     */
+    hsize_t _lowerIndex(const double indexFloat[],
+                        const size_t dim) const;
+
     /** Compute values at point using bilinear interpolation in 2-D.
      *
      * @param[out] values Preallocated array for interpolated values.
@@ -203,7 +214,7 @@ geomodelgrids::serial::_Hyperslab::getSlab(const double indexFloat[]) {
     const size_t spaceDim = ndims - 1; // last dimension is values
     if (origin) {
         for (size_t i = 0; i < spaceDim; ++i) {
-            if (( indexFloat[i] - double(origin[i]) < 0.0) ||
+            if (( _lowerIndex(indexFloat, i) < origin[i]) ||
                 ( indexFloat[i] >= double(origin[i]+dims[i]-1)) ) {
                 needsNewSlab = true;
                 break;
@@ -219,6 +230,7 @@ geomodelgrids::serial::_Hyperslab::getSlab(const double indexFloat[]) {
         // Get hyperslab with target point in the center.
         for (size_t i = 0; i < spaceDim; ++i) {
             hsize_t index = (indexFloat[i] >= dims[i]-1) ? hsize_t(std::floor(indexFloat[i] - (dims[i]-1)/ 2)) : 0;
+            index = std::min(index, _lowerIndex(indexFloat, i));
             index = std::min(index, dimsAll[i]-dims[i]);
             origin[i] = index;
         } // for
@@ -247,6 +259,19 @@ geomodelgrids::serial::_Hyperslab::nearest(double* const values,
 } // nearest
 
 
+// ------------------------------------------------------------------------------------------------
+// Get index of "lower" point along dimension.
+hsize_t
+geomodelgrids::serial::_Hyperslab::_lowerIndex(const double indexFloat[],
+                                               const size_t dim) const {
+    const double tolerance = 1.0e-12;
+    const hsize_t maxIndex = (_hyperslab._dimsAll[dim] > 1) ? _hyperslab._dimsAll[dim]-2 : 0;
+    const hsize_t index = hsize_t(std::max(0.0, std::floor(indexFloat[dim]-tolerance)));
+
+    return std::min(index, maxIndex);
+} // _lowerIndex
+
+
 // ------------------------------------------------------------------------------------------------
 void
 geomodelgrids::serial::_Hyperslab::_interpolate2D(double* const values,
@@ -266,25 +291,18 @@ geomodelgrids::serial::_Hyperslab::_interpolate2D(double* const values,
     assert(indexSlab[0] >= 0.0 && indexSlab[0] <= _hyperslab._dims[0]-1);
     assert(indexSlab[1] >= 0.0 && indexSlab[1] <= _hyperslab._dims[1]-1);
 
-    // Coordinate of "lower" point (corner of cell with lowest indices containing target point).
-    const double tolerance = 1.0e-12;
-    const double dfloor[spaceDim] = {
-        std::max(0.0, std::floor(indexSlab[0]-tolerance)),
-        std::max(0.0, std::floor(indexSlab[1]-tolerance)),
-    };
-
-    // Index of "lower" point
+    // Index within hyperslab of "lower" point (corner of cell with lowest indices containing target point).
     const hsize_t ifloor[spaceDim] = {
-        hsize_t(dfloor[0]),
-        hsize_t(dfloor[1]),
+        _lowerIndex(indexFloat, 0) - _hyperslab._origin[0],
+        _lowerIndex(indexFloat, 1) - _hyperslab._origin[1],
     };
     assert(ifloor[0] < _hyperslab._dims[0]);
     assert(ifloor[1] < _hyperslab._dims[1]);
 
     // Coordinates within cell relative to "lower" point.
     const double xRef[spaceDim] = {
-        indexSlab[0] - dfloor[0],
-        indexSlab[1] - dfloor[1],
+        indexSlab[0] - double(ifloor[0]),
+        indexSlab[1] - double(ifloor[1]),
     };
 
     const double wts[2][2] = {
@@ -344,19 +362,11 @@ geomodelgrids::serial::_Hyperslab::_interpolate3D(double* const values,
     assert(indexSlab[1] >= 0.0 && indexSlab[1] <= _hyperslab._dims[1]-1);
     assert(indexSlab[2] >= 0.0 && indexSlab[2] <= _hyperslab._dims[2]-1);
 
-    // Coordinate of "lower" point (corner of cell with lowest indices containing target point).
-    const double tolerance = 1.0e-12;
-    const double dfloor[spaceDim] = {
-        std::max(0.0, std::floor(indexSlab[0]-tolerance)),
-        std::max(0.0, std::floor(indexSlab[1]-tolerance)),
-        std::max(0.0, std::floor(indexSlab[2]-tolerance)),
-    };
-
-    // Index of "lower" point
+    // Index within hyperslab of "lower" point (corner of cell with lowest indices containing target point).
     const hsize_t ifloor[spaceDim] = {
-        hsize_t(dfloor[0]),
-        hsize_t(dfloor[1]),
-        hsize_t(dfloor[2]),
+        _lowerIndex(indexFloat, 0) - _hyperslab._origin[0],
+        _lowerIndex(indexFloat, 1) - _hyperslab._origin[1],
+        _lowerIndex(indexFloat, 2) - _hyperslab._origin[2],
     };
     assert(ifloor[0] < _hyperslab._dims[0]);
     assert(ifloor[1] < _hyperslab._dims[1]);
@@ -364,9 +374,9 @@ geomodelgrids::serial::_Hyperslab::_interpolate3D(double* const values,
 
     // Coordinates within cell relative to "lower" point.
     const double xRef[spaceDim] = {
-        indexSlab[0] - dfloor[0],
-        indexSlab[1] - dfloor[1],
-        indexSlab[2] - dfloor[2],
+        indexSlab[0] - double(ifloor[0]),
+        indexSlab[1] - double(ifloor[1]),
+        indexSlab[2] - double(ifloor[2]),
     };
 
     const double wts[2][2][2] = {
-- 
2.43.0


From b27b378130837d6da6a9f8423a8e8f45afb0b610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:40 +0000
Subject: [PATCH 03/56] fix: leave a query uninitialized after a failed
 initialize and after finalize

---
 libsrc/geomodelgrids/serial/Query.cc | 39 ++++++++++++++++------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/libsrc/geomodelgrids/serial/Query.cc b/libsrc/geomodelgrids/serial/Query.cc
index 4b63196..e363a47 100644
--- a/libsrc/geomodelgrids/serial/Query.cc
+++ b/libsrc/geomodelgrids/serial/Query.cc
@@ -91,29 +91,33 @@ void
 geomodelgrids::serial::Query::initialize(const std::vector<std::string>& modelFilenames,
                                          const std::vector<std::string>& valueNames,
                                          const std::string& inputCRSString) {
-    _valuesLowercase = _Query::toLower(valueNames);
-
-    for (size_t i = 0; i < _models.size(); ++i) {
-        _models[i].reset();
-    } // for
+    // Remain uninitialized unless everything below succeeds.
+    _valuesLowercase.clear();
+    _valuesIndex.clear();
+    _models.clear();
 
+    const std::vector<std::string> valuesLowercase = _Query::toLower(valueNames);
     const size_t numModels = modelFilenames.size();
-    _models.resize(numModels);
-    _valuesIndex.resize(numModels);
+    std::vector<std::unique_ptr<geomodelgrids::serial::Model> > models(numModels);
+    std::vector<values_map_type> valuesIndex(numModels);
     std::map<size_t, std::string> valueUnits;
     for (size_t iModel = 0; iModel < numModels; ++iModel) {
-        _models[iModel] = std::make_unique<geomodelgrids::serial::Model>();assert(_models[iModel]);
-        _models[iModel]->setInputCRS(inputCRSString);
-        _models[iModel]->open(modelFilenames[iModel].c_str(), geomodelgrids::serial::Model::READ);
-        _models[iModel]->loadMetadata();
-        _models[iModel]->initialize();
+        models[iModel] = std::make_unique<geomodelgrids::serial::Model>();assert(models[iModel]);
+        models[iModel]->setInputCRS(inputCRSString);
+        models[iModel]->open(modelFilenames[iModel].c_str(), geomodelgrids::serial::Model::READ);
+        models[iModel]->loadMetadata();
+        models[iModel]->initialize();
 
-        _valuesIndex[iModel] = _Query::createModelValuesIndex(*_models[iModel], _valuesLowercase);
+        valuesIndex[iModel] = _Query::createModelValuesIndex(*models[iModel], valuesLowercase);
 
-        const std::vector<std::string>& modelValues = _models[iModel]->getValueNames();
-        const std::vector<std::string>& modelUnitsLower = _Query::toLower(_models[iModel]->getValueUnits());
-        _Query::checkUnits(&valueUnits, _valuesIndex[iModel], modelValues, modelUnitsLower);
+        const std::vector<std::string>& modelValues = models[iModel]->getValueNames();
+        const std::vector<std::string>& modelUnitsLower = _Query::toLower(models[iModel]->getValueUnits());
+        _Query::checkUnits(&valueUnits, valuesIndex[iModel], modelValues, modelUnitsLower);
     } // for
+
+    _valuesLowercase = valuesLowercase;
+    _valuesIndex.swap(valuesIndex);
+    _models.swap(models);
 } // initialize
 
 
@@ -251,6 +255,9 @@ geomodelgrids::serial::Query::finalize(void) {
             _models[i]->close();
         } // if
     } // for
+    _models.clear();
+    _valuesIndex.clear();
+    _valuesLowercase.clear();
 } // finalize
 
 
-- 
2.43.0


From b1dfa0304c3799dab37d0ddb4c7e5d79f3f3fcda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:56 +0000
Subject: [PATCH 04/56] fix: allow for roundoff at the upper boundary of a
 hyperslab

---
 libsrc/geomodelgrids/serial/Hyperslab.cc | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/libsrc/geomodelgrids/serial/Hyperslab.cc b/libsrc/geomodelgrids/serial/Hyperslab.cc
index 8f9a07d..2ae3825 100644
--- a/libsrc/geomodelgrids/serial/Hyperslab.cc
+++ b/libsrc/geomodelgrids/serial/Hyperslab.cc
@@ -288,8 +288,9 @@ geomodelgrids::serial::_Hyperslab::_interpolate2D(double* const values,
         indexFloat[0] - _hyperslab._origin[0],
         indexFloat[1] - _hyperslab._origin[1],
     };
-    assert(indexSlab[0] >= 0.0 && indexSlab[0] <= _hyperslab._dims[0]-1);
-    assert(indexSlab[1] >= 0.0 && indexSlab[1] <= _hyperslab._dims[1]-1);
+    const double roundoff = 1.0e-6; // Point on upper boundary may be outside by roundoff.
+    assert(indexSlab[0] >= 0.0 && indexSlab[0] <= _hyperslab._dims[0]-1+roundoff);
+    assert(indexSlab[1] >= 0.0 && indexSlab[1] <= _hyperslab._dims[1]-1+roundoff);
 
     // Index within hyperslab of "lower" point (corner of cell with lowest indices containing target point).
     const hsize_t ifloor[spaceDim] = {
@@ -358,9 +359,10 @@ geomodelgrids::serial::_Hyperslab::_interpolate3D(double* const values,
         indexFloat[1] - _hyperslab._origin[1],
         indexFloat[2] - _hyperslab._origin[2],
     };
-    assert(indexSlab[0] >= 0.0 && indexSlab[0] <= _hyperslab._dims[0]-1);
-    assert(indexSlab[1] >= 0.0 && indexSlab[1] <= _hyperslab._dims[1]-1);
-    assert(indexSlab[2] >= 0.0 && indexSlab[2] <= _hyperslab._dims[2]-1);
+    const double roundoff = 1.0e-6; // Point on upper boundary may be outside by roundoff.
+    assert(indexSlab[0] >= 0.0 && indexSlab[0] <= _hyperslab._dims[0]-1+roundoff);
+    assert(indexSlab[1] >= 0.0 && indexSlab[1] <= _hyperslab._dims[1]-1+roundoff);
+    assert(indexSlab[2] >= 0.0 && indexSlab[2] <= _hyperslab._dims[2]-1+roundoff);
 
     // Index within hyperslab of "lower" point (corner of cell with lowest indices containing target point).
     const hsize_t ifloor[spaceDim] = {
-- 
2.43.0


From 5a54d9db053c7684da8726430cb3a2f81c03060f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:56 +0000
Subject: [PATCH 05/56] fix: do not drop the last point of a points file
 without a trailing newline

---
 libsrc/geomodelgrids/apps/Query.cc     | 2 +-
 libsrc/geomodelgrids/apps/QueryElev.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libsrc/geomodelgrids/apps/Query.cc b/libsrc/geomodelgrids/apps/Query.cc
index d24c2c4..00eab72 100644
--- a/libsrc/geomodelgrids/apps/Query.cc
+++ b/libsrc/geomodelgrids/apps/Query.cc
@@ -83,7 +83,7 @@ geomodelgrids::apps::Query::run(int argc,
     while (true) {
         double srcX, srcY, srcZ;
         sin >> srcX >> srcY >> srcZ;
-        if (sin.eof() || !sin.good()) {
+        if (sin.fail()) {
             break;
         } // if
 
diff --git a/libsrc/geomodelgrids/apps/QueryElev.cc b/libsrc/geomodelgrids/apps/QueryElev.cc
index 24a2250..8c3d052 100644
--- a/libsrc/geomodelgrids/apps/QueryElev.cc
+++ b/libsrc/geomodelgrids/apps/QueryElev.cc
@@ -76,7 +76,7 @@ geomodelgrids::apps::QueryElev::run(int argc,
     while (true) {
         double srcX, srcY;
         sin >> srcX >> srcY;
-        if (sin.eof() || !sin.good()) {
+        if (sin.fail()) {
             break;
         } // if
 
-- 
2.43.0


From de86d1142c193306efad34f8e2ceb5ecffd04643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:56 +0000
Subject: [PATCH 06/56] fix: include the maximum depth of a virtual borehole in
 spite of roundoff

---
 libsrc/geomodelgrids/apps/Borehole.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libsrc/geomodelgrids/apps/Borehole.cc b/libsrc/geomodelgrids/apps/Borehole.cc
index 959191d..4d07fa1 100644
--- a/libsrc/geomodelgrids/apps/Borehole.cc
+++ b/libsrc/geomodelgrids/apps/Borehole.cc
@@ -68,7 +68,8 @@ geomodelgrids::apps::Borehole::run(int argc,
     } else if (groundSurf != 0.0) {
         groundSurf += groundOffset;
     } // if
-    const size_t numPoints = size_t(1 + _maxDepth / _dz);
+    const double tolerance = 1.0e-6; // Include the maximum depth if roundoff puts it just below a multiple of dz.
+    const size_t numPoints = size_t(1 + _maxDepth / _dz + tolerance);
 
     std::ofstream sout(_outputFilename);
     if (!sout.is_open() && !sout.good()) {
-- 
2.43.0


From 922e4cdaccf1c3e69661aab48168e35fcef76a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:03 +0000
Subject: [PATCH 07/56] fix: report lower bound of raster bounding box below
 its upper bound

---
 libsrc/geomodelgrids/utils/GeoTiff.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libsrc/geomodelgrids/utils/GeoTiff.cc b/libsrc/geomodelgrids/utils/GeoTiff.cc
index 3c2ecdf..6ecc2de 100644
--- a/libsrc/geomodelgrids/utils/GeoTiff.cc
+++ b/libsrc/geomodelgrids/utils/GeoTiff.cc
@@ -148,7 +148,7 @@ geomodelgrids::utils::GeoTiff::getBBox(double* minX,
 
     const double _maxY = _transform[3];
     const double dy = _transform[5];
-    if (minY) { *minY = _maxY - dy * _numRows; }
+    if (minY) { *minY = _maxY + dy * _numRows; }
     if (maxY) { *maxY = _maxY; }
 }
 
-- 
2.43.0


From 9fba8ae048a681dd27856ea3b2b8d6febe95a20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:03 +0000
Subject: [PATCH 08/56] fix: closing a raster must not unregister the GDAL
 drivers of others

---
 libsrc/geomodelgrids/utils/GeoTiff.cc | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/libsrc/geomodelgrids/utils/GeoTiff.cc b/libsrc/geomodelgrids/utils/GeoTiff.cc
index 6ecc2de..48ced55 100644
--- a/libsrc/geomodelgrids/utils/GeoTiff.cc
+++ b/libsrc/geomodelgrids/utils/GeoTiff.cc
@@ -276,10 +276,7 @@ geomodelgrids::utils::GeoTiff::close(void) {
         GDALClose(_dataset);
         _dataset = nullptr;
     } // if
-    if (_driver) {
-        GDALDestroyDriverManager();
-        _driver = nullptr;
-    } // if
+    _driver = nullptr; // Drivers are shared with other rasters, so leave them registered.
 }
 
 
-- 
2.43.0


From bb52e2e7bb28b6ce0558e337cd130fc11c74fbad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:27 +0000
Subject: [PATCH 09/56] fix: georeference isosurface raster so that values are
 at pixel centers

---
 libsrc/geomodelgrids/apps/Isosurface.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libsrc/geomodelgrids/apps/Isosurface.cc b/libsrc/geomodelgrids/apps/Isosurface.cc
index e7c0524..35aae97 100644
--- a/libsrc/geomodelgrids/apps/Isosurface.cc
+++ b/libsrc/geomodelgrids/apps/Isosurface.cc
@@ -190,7 +190,7 @@ geomodelgrids::apps::Isosurface::run(int argc,
         writer.setNumBands(numIsosurfaces);
         writer.setBandLabels(bandLabels);
         writer.setCRS(_bboxCRS.c_str());
-        writer.setBBox(_minX, _maxX, _minY, _maxY);
+        writer.setBBox(_minX, _minX + numX*_horizRes, _minY, _minY + numY*_horizRes);
         writer.setNoDataValue(geomodelgrids::NODATA_VALUE);
         writer.create(_outputFilename.c_str());
 
-- 
2.43.0


From 50afc3e3698b04e7e50277eda166d045f40e388d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:30 +0000
Subject: [PATCH 10/56] fix: refuse an inverted bounding box for an isosurface

---
 libsrc/geomodelgrids/apps/Isosurface.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libsrc/geomodelgrids/apps/Isosurface.cc b/libsrc/geomodelgrids/apps/Isosurface.cc
index 35aae97..6ed71d4 100644
--- a/libsrc/geomodelgrids/apps/Isosurface.cc
+++ b/libsrc/geomodelgrids/apps/Isosurface.cc
@@ -367,6 +367,7 @@ geomodelgrids::apps::Isosurface::_parseArgs(int argc,
         } // if
         if (((_maxX - _minX)/_horizRes < 0) || ((_maxY - _minY) / _horizRes < 0)) {
             msg << "    - Invalid bounding box. Use --bbox=XMIN,XMAX,YMIN,YMAX\n";
+            optionsOkay = false;
         } // if
         if (0.0 == _horizRes) {
             msg << "    - Missing horizontal resolution. Use --resolution=RESOLUTION\n";
-- 
2.43.0


From 045748a9a909eab2e6644a5ccdfbefe0add51519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:30 +0000
Subject: [PATCH 11/56] fix: refine isosurface search to the requested vertical
 resolution

---
 libsrc/geomodelgrids/apps/Isosurface.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/libsrc/geomodelgrids/apps/Isosurface.cc b/libsrc/geomodelgrids/apps/Isosurface.cc
index 6ed71d4..421c979 100644
--- a/libsrc/geomodelgrids/apps/Isosurface.cc
+++ b/libsrc/geomodelgrids/apps/Isosurface.cc
@@ -389,8 +389,8 @@ geomodelgrids::apps::Isosurface::_parseArgs(int argc,
             msg << "    - Maximum depth (" << _maxDepth << ") must be positive.\n";
             optionsOkay = false;
         } // if
-        if (_numSearchPoints < 2) {
-            msg << "    - Number of search points (" << _numSearchPoints << ") must be at least 2.\n";
+        if (_numSearchPoints < 3) {
+            msg << "    - Number of search points (" << _numSearchPoints << ") must be at least 3.\n";
             optionsOkay = false;
         } // if
         if (_isosurfaces.empty()) {
@@ -471,7 +471,9 @@ geomodelgrids::apps::Isosurfacer::initialize(void) {
     } // for
     _query->initialize(_app._modelFilenames, valueNames, _app._bboxCRS);
 
-    _numLevels = size_t(ceil(log(_app._maxDepth/_app._vertRes) / log(_app._numSearchPoints)));
+    // Each level reduces the search interval by a factor of the number of search points minus one.
+    const double numLevels = ceil(log(_app._maxDepth/_app._vertRes) / log(_app._numSearchPoints - 1.0));
+    _numLevels = (numLevels > 1.0) ? size_t(numLevels) : 1;
     assert(_numLevels >= 1);
 
     const size_t numValues = _app._isosurfaces.size();
-- 
2.43.0


From 9db23f3a2588b8201cfe0541b3b2a6ca39ed37c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:51 +0000
Subject: [PATCH 12/56] fix: avoid division by zero where values are uniform
 and equal to the isovalue

---
 libsrc/geomodelgrids/apps/Isosurface.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libsrc/geomodelgrids/apps/Isosurface.cc b/libsrc/geomodelgrids/apps/Isosurface.cc
index 421c979..09247cd 100644
--- a/libsrc/geomodelgrids/apps/Isosurface.cc
+++ b/libsrc/geomodelgrids/apps/Isosurface.cc
@@ -540,7 +540,9 @@ geomodelgrids::apps::Isosurfacer::query(double* values,
         _query->query(&_vbuffer[0], x, y, zBot);
         const double vBot = _vbuffer[iValue];
 
-        if (((vTop <= vTarget) && (vTarget <= vBot)) || ((vTop >= vTarget) && (vTarget >= vBot))) {
+        if (vTop == vTarget) {
+            values[iValue] = topElev - zTop;
+        } else if (((vTop <= vTarget) && (vTarget <= vBot)) || ((vTop >= vTarget) && (vTarget >= vBot))) {
             const double a = (vTop-vBot) / (zTop-zBot);
             const double b = vTop - a*zTop;
             values[iValue] = topElev - (vTarget - b) / a;
-- 
2.43.0


From fee82085c21595d6f7a645c383707ee7f91ed2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:57 +0000
Subject: [PATCH 13/56] fix: find isosurface when the value at an end of the
 search interval is on the other side of it

---
 libsrc/geomodelgrids/apps/Isosurface.cc | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/libsrc/geomodelgrids/apps/Isosurface.cc b/libsrc/geomodelgrids/apps/Isosurface.cc
index 09247cd..5bae02d 100644
--- a/libsrc/geomodelgrids/apps/Isosurface.cc
+++ b/libsrc/geomodelgrids/apps/Isosurface.cc
@@ -600,12 +600,12 @@ geomodelgrids::apps::LineSearchDown::search(const double zTop,
                                             const double vTarget,
                                             const size_t iValue) {
     size_t iTop = 0;
-    for (size_t iPt = 1; iPt < _numSearchPoints; ++iPt) {
+    for (size_t iPt = 0; iPt < _numSearchPoints; ++iPt) {
         const double z = zTop - iPt*dz;
         _query->query(&_vbuffer[0], _x, _y, z);
         const double v = _vbuffer[iValue];
         if (v >= vTarget) {
-            iTop = iPt - 1;
+            iTop = (iPt > 0) ? iPt - 1 : 0;
             break;
         } // if
 
@@ -630,18 +630,19 @@ geomodelgrids::apps::LineSearchUp::search(const double zTop,
                                           const double dz,
                                           const double vTarget,
                                           const size_t iValue) {
-    size_t iTop = 0;
-    for (size_t iPt = 1; iPt < _numSearchPoints; ++iPt) {
+    bool isReached = false; // Values may be below the target at the bottom of the search interval.
+    for (size_t iPt = 0; iPt < _numSearchPoints; ++iPt) {
         const double z = zBot + iPt * dz;
         _query->query(&_vbuffer[0], _x, _y, z);
         const double v = _vbuffer[iValue];
-        if (v < vTarget) {
-            iTop = _numSearchPoints - iPt - 1;
-            break;
-        } // if
+        if (v >= vTarget) {
+            isReached = true;
+        } else if (isReached) {
+            return _numSearchPoints - iPt - 1;
+        } // if/else
 
     } // for
-    return iTop;
+    return isReached ? 0 : _numSearchPoints - 2;
 }
 
 
-- 
2.43.0


From 9f882502f57ad68bdddfe0c8e20760ec4b85d27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:49 +0000
Subject: [PATCH 14/56] fix: report the unit of each axis of a coordinate
 system, not of the first axis

---
 libsrc/geomodelgrids/utils/CRSTransformer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libsrc/geomodelgrids/utils/CRSTransformer.cc b/libsrc/geomodelgrids/utils/CRSTransformer.cc
index f30d767..4644a1b 100644
--- a/libsrc/geomodelgrids/utils/CRSTransformer.cc
+++ b/libsrc/geomodelgrids/utils/CRSTransformer.cc
@@ -232,7 +232,7 @@ geomodelgrids::utils::_CRSTransformer::getAxisUnit(std::string* unit,
     assert(projCoordSys);
 
     const char* buffer = nullptr;
-    proj_cs_get_axis_info(nullptr, projCoordSys, 0, nullptr, nullptr, nullptr, nullptr, &buffer, nullptr, nullptr);
+    proj_cs_get_axis_info(nullptr, projCoordSys, axisIndex, nullptr, nullptr, nullptr, nullptr, &buffer, nullptr, nullptr);
     if (strcasecmp("metre", buffer) == 0) {
         *unit = "meter";
     } else if (strcasecmp("meter", buffer) == 0) {
-- 
2.43.0


From c842359b7f3df95d669c3fa4653e1d2892729e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:49 +0000
Subject: [PATCH 15/56] fix: flag a model coordinate system that is not valid
 instead of aborting

---
 libsrc/geomodelgrids/apps/Info.cc            | 15 ++++++++++++---
 libsrc/geomodelgrids/utils/CRSTransformer.cc |  7 ++++++-
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/libsrc/geomodelgrids/apps/Info.cc b/libsrc/geomodelgrids/apps/Info.cc
index fba6e3d..9901012 100644
--- a/libsrc/geomodelgrids/apps/Info.cc
+++ b/libsrc/geomodelgrids/apps/Info.cc
@@ -272,7 +272,11 @@ geomodelgrids::apps::Info::_printCoordSys(geomodelgrids::serial::Model* const mo
     std::string xUnit;
     std::string yUnit;
     std::string zUnit;
-    geomodelgrids::utils::CRSTransformer::getCRSUnits(&xUnit, &yUnit, &zUnit, model->getCRSString().c_str());
+    try {
+        geomodelgrids::utils::CRSTransformer::getCRSUnits(&xUnit, &yUnit, &zUnit, model->getCRSString().c_str());
+    } catch (const std::runtime_error&) {
+        // Units are left as unknown for an invalid CRS.
+    } // try/catch
     std::cout << _Info::indent(2) << "Coordinate system units:"
               << " x=" << xUnit << ", y=" << yUnit << ", z=" << zUnit << "\n";
 
@@ -455,8 +459,13 @@ geomodelgrids::apps::_Info::verifyCoordSys(const geomodelgrids::serial::Model* m
 
     std::string xUnit;
     std::string yUnit;
-    geomodelgrids::utils::CRSTransformer::getCRSUnits(&xUnit, &yUnit, nullptr,
-                                                      model->getCRSString().c_str());
+    try {
+        geomodelgrids::utils::CRSTransformer::getCRSUnits(&xUnit, &yUnit, nullptr,
+                                                          model->getCRSString().c_str());
+    } catch (const std::runtime_error& err) {
+        std::cout << "FAIL\n" << _Info::indent(3) << err.what() << "\n";
+        ok = false;
+    } // try/catch
     if (xUnit != yUnit) {
         if (ok) { std::cout << "FAIL\n"; }
         std::cout << _Info::indent(3) << "Units for x (" << xUnit << ") and y (" << yUnit
diff --git a/libsrc/geomodelgrids/utils/CRSTransformer.cc b/libsrc/geomodelgrids/utils/CRSTransformer.cc
index 4644a1b..117cb90 100644
--- a/libsrc/geomodelgrids/utils/CRSTransformer.cc
+++ b/libsrc/geomodelgrids/utils/CRSTransformer.cc
@@ -174,7 +174,12 @@ geomodelgrids::utils::CRSTransformer::getCRSUnits(std::string* xUnit,
     if (!crsString || (0 == strlen(crsString))) { return; }
 
     PJ_CONTEXT* context = PJ_DEFAULT_CTX;
-    PJ* proj = proj_create(context, crsString);assert(proj);
+    PJ* proj = proj_create(context, crsString);
+    if (!proj) {
+        std::stringstream msg;
+        msg << "Error creating CRS from '" << crsString << "'.";
+        throw std::runtime_error(msg.str());
+    } // if
     PJ* projCoordSys = proj_crs_get_coordinate_system(context, proj);
     if (projCoordSys) {
         _CRSTransformer::getUnits(xUnit, yUnit, zUnit, projCoordSys);
-- 
2.43.0


From 78b24365cc7bc46fc22c57094977f14a33af7084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:49 +0000
Subject: [PATCH 16/56] fix: do not carry over metadata from other models when
 printing information about a model

---
 libsrc/geomodelgrids/apps/Info.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libsrc/geomodelgrids/apps/Info.cc b/libsrc/geomodelgrids/apps/Info.cc
index 9901012..83cd5e3 100644
--- a/libsrc/geomodelgrids/apps/Info.cc
+++ b/libsrc/geomodelgrids/apps/Info.cc
@@ -73,9 +73,11 @@ geomodelgrids::apps::Info::run(int argc,
         return 0;
     } // if
 
-    geomodelgrids::serial::Model model;
+    const std::streamsize precision = std::cout.precision();
     const size_t numModels = _modelFilenames.size();
     for (size_t i = 0; i < numModels; ++i) {
+        geomodelgrids::serial::Model model; // New object, so that metadata of other models is not carried over.
+        std::cout.precision(precision);
         model.open(_modelFilenames[i].c_str(), geomodelgrids::serial::Model::READ);
 
         std::cout << "Model: " << _modelFilenames[i] << std::endl;
-- 
2.43.0


From 7a899ea64eb81a1f3e4dffde2f514f23350252fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:24 +0000
Subject: [PATCH 17/56] fix: verify the extent of surfaces and blocks with
 variable resolution

---
 libsrc/geomodelgrids/apps/Info.cc | 34 ++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/libsrc/geomodelgrids/apps/Info.cc b/libsrc/geomodelgrids/apps/Info.cc
index 83cd5e3..cff6413 100644
--- a/libsrc/geomodelgrids/apps/Info.cc
+++ b/libsrc/geomodelgrids/apps/Info.cc
@@ -26,6 +26,11 @@ namespace geomodelgrids {
             std::string indent(const size_t level,
                                const size_t width=4);
 
+            /// Length of grid along an axis with uniform (coordinates is nullptr) or variable resolution.
+            double length(const double resolution,
+                          const double* coordinates,
+                          const size_t numPoints);
+
             void verifyCoordSys(const geomodelgrids::serial::Model* model);
 
             void verifySurface(const geomodelgrids::serial::Surface* topography,
@@ -364,9 +369,9 @@ geomodelgrids::apps::Info::_printBlocks(geomodelgrids::serial::Model* const mode
         const size_t* dims = blocks[i]->getDims();
         std::cout << _Info::indent(3) << "Number of points: x=" << dims[0] << ", y=" << dims[1] << ", z=" << dims[2] << "\n";
 
-        const double dim_x = blocks[i]->getResolutionX() * (dims[0] - 1);
-        const double dim_y = blocks[i]->getResolutionY() * (dims[1] - 1);
-        const double dim_z = blocks[i]->getResolutionZ() * (dims[2] - 1);
+        const double dim_x = _Info::length(blocks[i]->getResolutionX(), blocks[i]->getCoordinatesX(), dims[0]);
+        const double dim_y = _Info::length(blocks[i]->getResolutionY(), blocks[i]->getCoordinatesY(), dims[1]);
+        const double dim_z = _Info::length(blocks[i]->getResolutionZ(), blocks[i]->getCoordinatesZ(), dims[2]);
         std::cout << _Info::indent(3) << "Dimensions: x=" << dim_x << ", y=" << dim_y << ", z=" << dim_z << "\n";
     } // for
 } // _printBlocks
@@ -452,6 +457,15 @@ geomodelgrids::apps::_Info::indent(const size_t level,
 } // indent
 
 
+// ------------------------------------------------------------------------------------------------
+double
+geomodelgrids::apps::_Info::length(const double resolution,
+                                   const double* coordinates,
+                                   const size_t numPoints) {
+    return (coordinates && numPoints > 0) ? fabs(coordinates[numPoints-1] - coordinates[0]) : resolution * (numPoints-1);
+} // length
+
+
 // ------------------------------------------------------------------------------------------------
 void
 geomodelgrids::apps::_Info::verifyCoordSys(const geomodelgrids::serial::Model* model) {
@@ -496,14 +510,17 @@ geomodelgrids::apps::_Info::verifySurface(const geomodelgrids::serial::Surface*
     resolution[0] = surface->getResolutionX();
     resolution[1] = surface->getResolutionY();
     const size_t* numTopo = surface->getDims();
+    double length[2];
+    length[0] = _Info::length(surface->getResolutionX(), surface->getCoordinatesX(), numTopo[0]);
+    length[1] = _Info::length(surface->getResolutionY(), surface->getCoordinatesY(), numTopo[1]);
 
     const double tolerance = 1.0e-6;
     const std::string dimLabel[2] = { "x", "y" };
     for (size_t iDim = 0; iDim < 2; ++iDim) {
-        if (fabs(1.0 - resolution[iDim]*(numTopo[iDim]-1)/dimsDomain[iDim]) > tolerance) {
+        if (fabs(1.0 - length[iDim]/dimsDomain[iDim]) > tolerance) {
             if (ok) { std::cout << "FAIL\n"; }
             std::cout << _Info::indent(3) << "Surface '" << name << "' does not span the domain in the " << dimLabel[iDim]
-                      << " dimension (surface=" << resolution[iDim]*numTopo[iDim] << ", domain=" << dimsDomain[iDim] << ").\n";
+                      << " dimension (surface=" << length[iDim] + resolution[iDim] << ", domain=" << dimsDomain[iDim] << ").\n";
             ok = false;
         } // if
     } // for
@@ -527,16 +544,19 @@ geomodelgrids::apps::_Info::verifyBlock(geomodelgrids::serial::Block* block,
     resolution[0] = block->getResolutionX();
     resolution[1] = block->getResolutionY();
     const size_t* numBlock = block->getDims();
+    double length[2];
+    length[0] = _Info::length(block->getResolutionX(), block->getCoordinatesX(), numBlock[0]);
+    length[1] = _Info::length(block->getResolutionY(), block->getCoordinatesY(), numBlock[1]);
 
     const double tolerance = 1.0e-6;
 
     // Verify block spans the domain.
     const std::string dimLabel[2] = { "x", "y" };
     for (size_t iDim = 0; iDim < 2; ++iDim) {
-        if (fabs(1.0 - resolution[iDim]*(numBlock[iDim]-1)/dimsDomain[iDim]) > tolerance) {
+        if (fabs(1.0 - length[iDim]/dimsDomain[iDim]) > tolerance) {
             if (ok) { std::cout << "FAIL\n"; }
             std::cout << _Info::indent(3) << "Block '" << block->getName() << "' does not span the domain in the "
-                      << dimLabel[iDim] << " dimension (block=" << resolution[iDim]*numBlock[iDim] << ", domain="
+                      << dimLabel[iDim] << " dimension (block=" << length[iDim] + resolution[iDim] << ", domain="
                       << dimsDomain[iDim] << ").\n";
             ok = false;
         } // if
-- 
2.43.0


From f998f3f580fb3f375cb027f1f62a24672b62cd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:51 +0000
Subject: [PATCH 18/56] fix: do not abort when printing information about a
 model with incomplete metadata

---
 libsrc/geomodelgrids/apps/Info.cc | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/libsrc/geomodelgrids/apps/Info.cc b/libsrc/geomodelgrids/apps/Info.cc
index cff6413..f08938e 100644
--- a/libsrc/geomodelgrids/apps/Info.cc
+++ b/libsrc/geomodelgrids/apps/Info.cc
@@ -250,18 +250,22 @@ geomodelgrids::apps::Info::_printDescription(geomodelgrids::serial::Model* const
     const double* dims = model->getDims();
     std::cout << _Info::indent(1) << "Dimensions of model: x=" << dims[0] << ", y="<< dims[1] << ", z=" << dims[2] << "\n";
 
-    const double* bbox = _Info::computeBoundingBox(model);
     std::cout << _Info::indent(1) << "Bounding box (WGS84):" << std::resetiosflags(std::ios::fixed);
-    for (size_t i = 0; i < 4; ++i) {
-        const size_t dim = 2;
-        std::cout << " ("
-                  << std::setprecision(6)
-                  << bbox[i*dim+0]
-                  << ", "
-                  << std::setprecision(7)
-                  << bbox[i*dim+1]
-                  << ")";
-    } // for
+    try {
+        const double* bbox = _Info::computeBoundingBox(model);
+        for (size_t i = 0; i < 4; ++i) {
+            const size_t dim = 2;
+            std::cout << " ("
+                      << std::setprecision(6)
+                      << bbox[i*dim+0]
+                      << ", "
+                      << std::setprecision(7)
+                      << bbox[i*dim+1]
+                      << ")";
+        } // for
+    } catch (const std::runtime_error&) {
+        std::cout << " unknown"; // CRS is missing or not valid.
+    } // try/catch
     std::cout << "\n";
 } // _printDescription
 
@@ -305,9 +309,8 @@ geomodelgrids::apps::Info::_printValues(geomodelgrids::serial::Model* const mode
     const std::vector<std::string>& names = model->getValueNames();
     const std::vector<std::string>& units = model->getValueUnits();
     const size_t size = names.size();
-    assert(units.size() == size);
     for (size_t i = 0; i < size; ++i) {
-        std::cout << _Info::indent(2) << i << ": " << names[i] << " (" << units[i] << ")" << "\n";
+        std::cout << _Info::indent(2) << i << ": " << names[i] << " (" << (i < units.size() ? units[i] : "unknown") << ")" << "\n";
     } // for
 
     switch (model->getDataLayout()) {
-- 
2.43.0


From 850037ec6a94212205b63fd39879a7a3c222fedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:11 +0000
Subject: [PATCH 19/56] fix: refuse a model whose units, blocks or surfaces do
 not match its values or rank instead of crashing

---
 libsrc/geomodelgrids/serial/Block.cc   |  6 +++++-
 libsrc/geomodelgrids/serial/Model.cc   | 15 +++++++++++++++
 libsrc/geomodelgrids/serial/Surface.cc |  6 +++++-
 3 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/libsrc/geomodelgrids/serial/Block.cc b/libsrc/geomodelgrids/serial/Block.cc
index cec79b2..90a7e5d 100644
--- a/libsrc/geomodelgrids/serial/Block.cc
+++ b/libsrc/geomodelgrids/serial/Block.cc
@@ -122,7 +122,11 @@ geomodelgrids::serial::Block::loadMetadata(geomodelgrids::serial::HDF5* const h5
     hsize_t* hdims = nullptr;
     int ndims = 0;
     h5->getDatasetDims(&hdims, &ndims, blockPath.c_str());
-    assert(4 == ndims);
+    if (4 != ndims) {
+        delete[] hdims;hdims = nullptr;
+        msg << indent << "    Rank of dataset for block " << blockPath << " (" << ndims << ") is not 4.\n";
+        throw std::runtime_error(msg.str().c_str());
+    } // if
     for (int i = 0; i < 3; ++i) {
         _dims[i] = hdims[i];
     } // for
diff --git a/libsrc/geomodelgrids/serial/Model.cc b/libsrc/geomodelgrids/serial/Model.cc
index ffb0efb..9c991f6 100644
--- a/libsrc/geomodelgrids/serial/Model.cc
+++ b/libsrc/geomodelgrids/serial/Model.cc
@@ -244,6 +244,21 @@ geomodelgrids::serial::Model::loadMetadata(void) {
     } // for
     std::sort(_blocks.begin(), _blocks.end(), Block::compare);
 
+    // Units and blocks must match the names of the values.
+    const bool complete = !missingAttributes;
+    if (complete && (_valueNames.size() != _valueUnits.size())) {
+        msg << indent << "    Number of units in /data_units (" << _valueUnits.size()
+            << ") does not match number of names in /data_values (" << _valueNames.size() << ").\n";
+        missingAttributes = true;
+    } // if
+    for (size_t i = 0; complete && i < numBlocks; ++i) {
+        if (_blocks[i]->getNumValues() < _valueNames.size()) {
+            msg << indent << "    Number of values in blocks/" << _blocks[i]->getName() << " (" << _blocks[i]->getNumValues()
+                << ") is less than number of names in /data_values (" << _valueNames.size() << ").\n";
+            missingAttributes = true;
+        } // if
+    } // for
+
     if (missingAttributes) { throw std::runtime_error(msg.str().c_str()); }
 } // loadMetadata
 
diff --git a/libsrc/geomodelgrids/serial/Surface.cc b/libsrc/geomodelgrids/serial/Surface.cc
index 648d93c..cb1dbba 100644
--- a/libsrc/geomodelgrids/serial/Surface.cc
+++ b/libsrc/geomodelgrids/serial/Surface.cc
@@ -85,7 +85,11 @@ geomodelgrids::serial::Surface::loadMetadata(geomodelgrids::serial::HDF5* const
     hsize_t* hdims = nullptr;
     int ndims = 0;
     h5->getDatasetDims(&hdims, &ndims, surfacePath.c_str());
-    assert(3 == ndims);
+    if (3 != ndims) {
+        delete[] hdims;hdims = nullptr;
+        msg << indent << "    Rank of dataset for surface " << surfacePath << " (" << ndims << ") is not 3.\n";
+        throw std::runtime_error(msg.str().c_str());
+    } // if
     for (int i = 0; i < 2; ++i) {
         _dims[i] = hdims[i];
     } // for
-- 
2.43.0


From cf6f26841e6b407fdec8851b60632e46e23e0f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:37 +0000
Subject: [PATCH 20/56] fix: group or dataset in an absent group does not
 exist, instead of aborting

---
 libsrc/geomodelgrids/serial/HDF5.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libsrc/geomodelgrids/serial/HDF5.cc b/libsrc/geomodelgrids/serial/HDF5.cc
index 75bb504..2a6a969 100644
--- a/libsrc/geomodelgrids/serial/HDF5.cc
+++ b/libsrc/geomodelgrids/serial/HDF5.cc
@@ -146,7 +146,7 @@ geomodelgrids::serial::HDF5::hasGroup(const char* name) {
     assert(name);
 
     bool exists = false;
-    if (H5Lexists(_file, name, H5P_DEFAULT)) {
+    if (H5Lexists(_file, name, H5P_DEFAULT) > 0) {
         _HDF5Access h5access;
         h5access.object = H5Oopen(_file, name, H5P_DEFAULT);assert(h5access.object >= 0);
         H5O_info_t info;
@@ -173,7 +173,7 @@ geomodelgrids::serial::HDF5::hasDataset(const char* name) {
     assert(name);
 
     bool exists = false;
-    if (H5Lexists(_file, name, H5P_DEFAULT)) {
+    if (H5Lexists(_file, name, H5P_DEFAULT) > 0) {
         _HDF5Access h5access;
         h5access.object = H5Oopen(_file, name, H5P_DEFAULT);assert(h5access.object >= 0);
         H5O_info_t info;
-- 
2.43.0


From 6aba1cf3b4ddf82782cc73cdacfe2397da8be510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:20 +0000
Subject: [PATCH 21/56] fix: refuse an attribute with unexpected type or shape
 instead of aborting or overrunning memory

---
 libsrc/geomodelgrids/serial/HDF5.cc | 66 +++++++++++++++++++----------
 1 file changed, 43 insertions(+), 23 deletions(-)

diff --git a/libsrc/geomodelgrids/serial/HDF5.cc b/libsrc/geomodelgrids/serial/HDF5.cc
index 2a6a969..2e00e6a 100644
--- a/libsrc/geomodelgrids/serial/HDF5.cc
+++ b/libsrc/geomodelgrids/serial/HDF5.cc
@@ -49,6 +49,45 @@ struct geomodelgrids::serial::_HDF5Access {
         if (datatype >= 0) { H5Tclose(datatype); }
     } // destructor
 
+    /** Check that attribute holds values of the expected class and get its shape.
+     *
+     * @param[in] isString True if expecting strings, false if expecting numbers.
+     * @returns Number of values in attribute.
+     */
+    hsize_t checkAttribute(const bool isString) {
+        datatype = H5Aget_type(attribute);
+        if (datatype < 0) { throw std::runtime_error("Could not get datatype of"); }
+        if (isString != (H5T_STRING == H5Tget_class(datatype))) {
+            throw std::runtime_error(isString ? "Expected text in" : "Expected numbers in");
+        } // if
+
+        dataspace = H5Aget_space(attribute);
+        if (dataspace < 0) { throw std::runtime_error("Could not get dataspace of"); }
+        const hssize_t numValues = H5Sget_simple_extent_npoints(dataspace);
+        if (numValues < 0) { throw std::runtime_error("Could not get dataspace of"); }
+        return numValues;
+    } // checkAttribute
+
+    /** Check that attribute holds a single value.
+     *
+     * @param[in] isString True if expecting a string, false if expecting a number.
+     */
+    void checkScalarAttribute(const bool isString) {
+        if (1 != checkAttribute(isString)) { throw std::runtime_error("Expected a single value in"); }
+    } // checkScalarAttribute
+
+    /** Check that attribute holds a list of values.
+     *
+     * @param[in] isString True if expecting strings, false if expecting numbers.
+     * @returns Number of values in attribute.
+     */
+    hsize_t checkListAttribute(const bool isString) {
+        const hsize_t numValues = checkAttribute(isString);
+        if (1 != H5Sget_simple_extent_ndims(dataspace)) { throw std::runtime_error("Expected a list of values in"); }
+        if (0 == numValues) { throw std::runtime_error("Expected at least one value in"); }
+        return numValues;
+    } // checkListAttribute
+
 };
 
 // ------------------------------------------------------------------------------------------------
@@ -298,6 +337,7 @@ geomodelgrids::serial::HDF5::readAttribute(const char* path,
 
         h5access.attribute = H5Aopen_by_name(_file, path, name, H5P_DEFAULT, H5P_DEFAULT);
         if (h5access.attribute < 0) { throw std::runtime_error("Could not open"); }
+        h5access.checkScalarAttribute(false);
 
         hid_t err = H5Aread(h5access.attribute, datatype, value);
         if (err < 0) { throw std::runtime_error("Could not read"); }
@@ -328,13 +368,7 @@ geomodelgrids::serial::HDF5::readAttribute(const char* path,
 
         h5access.attribute = H5Aopen_by_name(_file, path, name, H5P_DEFAULT, H5P_DEFAULT);
         if (h5access.attribute < 0) { throw std::runtime_error("Could not open"); }
-
-        h5access.dataspace = H5Aget_space(h5access.attribute);
-        if (h5access.dataspace < 0) { throw std::runtime_error("Could not get dataspace of"); }
-        const hsize_t ndims = H5Sget_simple_extent_ndims(h5access.dataspace);assert(1 == ndims);
-        hsize_t dims[1];
-        H5Sget_simple_extent_dims(h5access.dataspace, dims, nullptr);
-        const hsize_t numValues = dims[0];assert(numValues > 0);
+        const hsize_t numValues = h5access.checkListAttribute(false);
 
         hsize_t typeNumBytes = H5Tget_size(datatype);
         void* buffer = (void*) new char[numValues * typeNumBytes];
@@ -368,12 +402,7 @@ geomodelgrids::serial::HDF5::readAttribute(const char* path,
 
         h5access.attribute = H5Aopen_by_name(_file, path, name, H5P_DEFAULT, H5P_DEFAULT);
         if (h5access.attribute < 0) { throw std::runtime_error("Could not open"); }
-
-        h5access.datatype = H5Aget_type(h5access.attribute);
-        if (h5access.datatype < 0) { throw std::runtime_error("Could not get datatype of"); }
-
-        h5access.dataspace = H5Aget_space(h5access.attribute);
-        if (h5access.dataspace < 0) { throw std::runtime_error("Could not get dataspace of"); }
+        h5access.checkScalarAttribute(true);
 
         char* buffer = nullptr;
         if (0 == H5Tis_variable_str(h5access.datatype)) { // Fixed length strings
@@ -420,16 +449,7 @@ geomodelgrids::serial::HDF5::readAttribute(const char* path,
 
         h5access.attribute = H5Aopen_by_name(_file, path, name, H5P_DEFAULT, H5P_DEFAULT);
         if (h5access.attribute < 0) { throw std::runtime_error("Could not open"); }
-
-        h5access.datatype = H5Aget_type(h5access.attribute);
-        if (h5access.datatype < 0) { throw std::runtime_error("Could not get datatype of"); }
-
-        h5access.dataspace = H5Aget_space(h5access.attribute);
-        if (h5access.dataspace < 0) { throw std::runtime_error("Could not get dataspace of"); }
-        const hsize_t ndims = H5Sget_simple_extent_ndims(h5access.dataspace);assert(1 == ndims);
-        hsize_t dims[1];
-        H5Sget_simple_extent_dims(h5access.dataspace, dims, nullptr);
-        const hsize_t numStrings = dims[0];assert(numStrings > 0);
+        const hsize_t numStrings = h5access.checkListAttribute(true);
 
         char** buffer = new char*[numStrings];
         if (0 == H5Tis_variable_str(h5access.datatype)) { // Fixed length strings
-- 
2.43.0


From fa93d2713c3d92ca70a50a2397993bc86fc5d988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:08 +0000
Subject: [PATCH 22/56] fix: split grids into batches that never exceed the
 limit, for any size of grid and limit

---
 geomodelgrids/create/utils/batch.py | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/geomodelgrids/create/utils/batch.py b/geomodelgrids/create/utils/batch.py
index d9c5cf4..1a48b5d 100644
--- a/geomodelgrids/create/utils/batch.py
+++ b/geomodelgrids/create/utils/batch.py
@@ -5,6 +5,13 @@ import logging
 import math
 
 
+def _root(value, power):
+    """Get largest integer whose power does not exceed value.
+    """
+    root = round(value**(1.0 / power))
+    return root if root**power <= value else root - 1
+
+
 class BatchGenerator2D():
     """Iterator for batches of points for 2D domains.
 
@@ -31,7 +38,7 @@ class BatchGenerator2D():
             self.bnum_x = num_x
             self.bnum_y = num_y
         else:
-            num_xy = round(max_nvalues**0.5)
+            num_xy = _root(max_nvalues, 2)
             if num_x > num_xy and num_y > num_xy:
                 self.bnum_x = self.bnum_y = num_xy
             elif num_x <= num_xy:
@@ -120,12 +127,12 @@ class BatchGenerator3D():
             self.bnum_y = num_y
             self.bnum_z = num_z
         else:
-            num_xyz = round(max_nvalues**(1.0 / 3.0))
+            num_xyz = _root(max_nvalues, 3)
             if num_x > num_xyz and num_y > num_xyz and num_z > num_xyz:
                 self.bnum_x = self.bnum_y = self.bnum_z = num_xyz
             elif num_z <= num_xyz:
                 self.bnum_z = num_z
-                num_xy = round((max_nvalues // num_z)**0.5)
+                num_xy = _root(max_nvalues // num_z, 2)
                 if num_x > num_xy and num_y > num_xy:
                     self.bnum_x = self.bnum_y = num_xy
                 elif num_x <= num_xy:
@@ -138,19 +145,28 @@ class BatchGenerator3D():
                     raise ValueError("Unknown case")
             elif num_x <= num_xyz:
                 self.bnum_x = num_x
-                num_yz = round((max_nvalues // num_x)**0.5)
+                num_yz = _root(max_nvalues // num_x, 2)
                 if num_y > num_yz and num_z > num_yz:
                     self.bnum_y = self.bnum_z = num_yz
                 elif num_y <= num_yz:
                     self.bnum_y = num_y
                     self.bnum_z = max_nvalues // (num_x * num_y)
+                elif num_z <= num_yz:
+                    self.bnum_z = num_z
+                    self.bnum_y = max_nvalues // (num_x * num_z)
                 else:
                     raise ValueError("Unknown case")
             elif num_y <= num_xyz:
                 self.bnum_y = num_y
-                num_xz = round((max_nvalues // num_y)**0.5)
+                num_xz = _root(max_nvalues // num_y, 2)
                 if num_x > num_xz and num_z > num_xz:
                     self.bnum_x = self.bnum_z = num_xz
+                elif num_x <= num_xz:
+                    self.bnum_x = num_x
+                    self.bnum_z = max_nvalues // (num_x * num_y)
+                elif num_z <= num_xz:
+                    self.bnum_z = num_z
+                    self.bnum_x = max_nvalues // (num_y * num_z)
                 else:
                     raise ValueError("Unknown case")
             else:
-- 
2.43.0


From ce8909492a3050c9591a4dac4a0fd6c27d893fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:24 +0000
Subject: [PATCH 23/56] fix: last row of a uniform grid was left out when
 dimension / resolution is rounded down

---
 geomodelgrids/create/core/model.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/geomodelgrids/create/core/model.py b/geomodelgrids/create/core/model.py
index 7bb7325..c2bd959 100644
--- a/geomodelgrids/create/core/model.py
+++ b/geomodelgrids/create/core/model.py
@@ -13,6 +13,13 @@ from geomodelgrids.create.utils import batch
 from geomodelgrids.create.io.hdf5 import HDF5Storage
 
 
+def _num_points(dim, resolution):
+    """Get number of points with uniform resolution along dimension, allowing for roundoff in the ratio.
+    """
+    TOLERANCE = 1.0e-6
+    return 1 + int(TOLERANCE + dim / resolution)
+
+
 class Surface():
     """Model surface.
 
@@ -61,8 +68,8 @@ class Surface():
         Returns:
             Tuple of number of points along each dimension (num_x, num_y).
         """
-        num_x = 1 + int(self.model_metadata.dim_x / self.x_resolution) if self.x_resolution else len(self.x_coordinates)
-        num_y = 1 + int(self.model_metadata.dim_y / self.y_resolution) if self.y_resolution else len(self.y_coordinates)
+        num_x = _num_points(self.model_metadata.dim_x, self.x_resolution) if self.x_resolution else len(self.x_coordinates)
+        num_y = _num_points(self.model_metadata.dim_y, self.y_resolution) if self.y_resolution else len(self.y_coordinates)
         return (num_x, num_y, 1)
 
     def get_batches(self, batch_size):
@@ -191,15 +198,15 @@ class Block():
             Tuple of number of points along each dimension (num_x, num_y, num_z).
         """
         if self.x_resolution:
-            num_x = 1 + int(self.model_metadata.dim_x / self.x_resolution)
+            num_x = _num_points(self.model_metadata.dim_x, self.x_resolution)
         else:
             num_x = len(self.x_coordinates)
         if self.y_resolution:
-            num_y = 1 + int(self.model_metadata.dim_y / self.y_resolution)
+            num_y = _num_points(self.model_metadata.dim_y, self.y_resolution)
         else:
             num_y = len(self.y_coordinates)
         if self.z_resolution:
-            num_z = 1 + int((self.z_top - self.z_bot) / self.z_resolution)
+            num_z = _num_points(self.z_top - self.z_bot, self.z_resolution)
         else:
             num_z = len(self.z_coordinates)
         return (num_x, num_y, num_z)
-- 
2.43.0


From 410191ec0949cd32ebd6f8849ea59a66f621706c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:24 +0000
Subject: [PATCH 24/56] fix: import of surfaces and blocks without a batch size
 failed or gave blocks without points

---
 geomodelgrids/create/apps/create_model.py |  2 +-
 geomodelgrids/create/core/model.py        | 14 ++++++++------
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/geomodelgrids/create/apps/create_model.py b/geomodelgrids/create/apps/create_model.py
index 8907cfb..c71a911 100644
--- a/geomodelgrids/create/apps/create_model.py
+++ b/geomodelgrids/create/apps/create_model.py
@@ -85,7 +85,7 @@ class App():
                         model.save_top_surface(elevation, batch)
                 else:
                     points = model.top_surface.generate_points()
-                    elevation = datasrc.get_top_surface()
+                    elevation = datasrc.get_top_surface(points)
                     model.save_top_surface(elevation)
             if model.topo_bathy:
                 model.init_topography_bathymetry()
diff --git a/geomodelgrids/create/core/model.py b/geomodelgrids/create/core/model.py
index c2bd959..031b57c 100644
--- a/geomodelgrids/create/core/model.py
+++ b/geomodelgrids/create/core/model.py
@@ -249,7 +249,7 @@ class Block():
             y_start = 0
             y_end = num_y
             z_start = 0
-            z_end = 0
+            z_end = num_z
 
         if self.x_resolution:
             x1 = numpy.linspace(0.0, self.x_resolution * (num_x - 1), num_x)[x_start:x_end]
@@ -314,7 +314,7 @@ class Block():
                 indices = numpy.arange(0, surf_range[1]-surf_range[0], step=block_skip, dtype=numpy.int64)
             else:
                 surf_range = None
-                indices = numpy.arange(0, surfae_dim+0.5, step=block_skip, dtype=numpy.int64)
+                indices = numpy.arange(0, surfae_dim, step=block_skip, dtype=numpy.int64)
             return (surf_range, indices)
 
         def _get_slice_variable(block_coordinates, surface_coordinates, batch_range):
@@ -350,16 +350,18 @@ class Block():
             raise ValueError("Cannot use variable y-resolution block with uniform y-resolution surface.")
 
         surface_dims = surface.get_dims()
+        batch_xrange = batch.x_range if batch else None
+        batch_yrange = batch.y_range if batch else None
         if self.x_resolution:
             (surf_xrange, x_indices) = _get_slice_uniform(self.x_resolution, surface_dims[0],
-                                                          surface.x_resolution, batch.x_range)
+                                                          surface.x_resolution, batch_xrange)
         else:
-            (surf_xrange, x_indices) = _get_slice_variable(self.x_coordinates, surface.x_coordinates, batch.x_range)
+            (surf_xrange, x_indices) = _get_slice_variable(self.x_coordinates, surface.x_coordinates, batch_xrange)
         if self.y_resolution:
             (surf_yrange, y_indices) = _get_slice_uniform(self.y_resolution, surface_dims[1],
-                                                          surface.y_resolution, batch.y_range)
+                                                          surface.y_resolution, batch_yrange)
         else:
-            (surf_yrange, y_indices) = _get_slice_variable(self.y_coordinates, surface.y_coordinates, batch.y_range)
+            (surf_yrange, y_indices) = _get_slice_variable(self.y_coordinates, surface.y_coordinates, batch_yrange)
 
         if batch:
             surface_batch = BatchSurface(surf_xrange, surf_yrange)
-- 
2.43.0


From 8842ca196315716873a07c0f2dc6b205e091044b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:24 +0000
Subject: [PATCH 25/56] fix: batches of a block with variable resolution
 conformed to the surface at the start of the domain

---
 geomodelgrids/create/core/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomodelgrids/create/core/model.py b/geomodelgrids/create/core/model.py
index 031b57c..a7c9bbb 100644
--- a/geomodelgrids/create/core/model.py
+++ b/geomodelgrids/create/core/model.py
@@ -327,8 +327,8 @@ class Block():
                     if math.fabs(scoords_sorted[index] - block_coord) > TOLERANCE:
                         raise ValueError(
                             f"Could not find surface coordinate matching block coordinate ({block_coord}).")
-                indices -= indices[0]
                 surf_range = (numpy.min(indices), numpy.max(indices)+1)
+                indices -= surf_range[0]
             else:
                 scoords_sorted = numpy.array(surface_coordinates)
                 scoords_sorted.sort()
-- 
2.43.0


From db0d71e8484d2c49558ede01108d68abbbbfcac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:24 +0000
Subject: [PATCH 26/56] fix: surface of a batch with a single row or column of
 points lost a dimension

---
 geomodelgrids/create/core/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomodelgrids/create/core/model.py b/geomodelgrids/create/core/model.py
index a7c9bbb..0724f20 100644
--- a/geomodelgrids/create/core/model.py
+++ b/geomodelgrids/create/core/model.py
@@ -369,7 +369,7 @@ class Block():
             surface_batch = None
 
         elevation = surface.storage.load_surface(surface, surface_batch)
-        return numpy.float64(elevation[numpy.ix_(x_indices, y_indices, [0])].squeeze())
+        return numpy.float64(elevation[numpy.ix_(x_indices, y_indices, [0])][:, :, 0])
 
     def get_attributes(self):
         """Get attributes associated with block.
-- 
2.43.0


From 9b085121607c82deea2ea755e5bc7c1d02d788ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:24 +0000
Subject: [PATCH 27/56] fix: the offset of the top points of a block was
 applied to the first points of every batch

---
 geomodelgrids/create/core/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geomodelgrids/create/core/model.py b/geomodelgrids/create/core/model.py
index 0724f20..c559e9b 100644
--- a/geomodelgrids/create/core/model.py
+++ b/geomodelgrids/create/core/model.py
@@ -274,7 +274,8 @@ class Block():
                     (domain_top - domain_bot) * (self.z_top - z[:, :, iz] - domain_bot)
         else:
             z = self.z_top - z
-        z[:, :, 0] += self.z_top_offset  # Adjust top points by offset
+        if z_start == 0:
+            z[:, :, 0] += self.z_top_offset  # Adjust top points by offset
 
         xyz_geo = numpy.stack((x, y, z), axis=3)
         xyz_model = numpy.zeros(xyz_geo.shape)
-- 
2.43.0


From acfd5c989ad07dad71b8ec4d8fe1bc38e006761b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:24 +0000
Subject: [PATCH 28/56] fix: the command-line tool for creating models never
 passed on the configuration or the choice of all steps

---
 geomodelgrids/create/apps/create_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geomodelgrids/create/apps/create_model.py b/geomodelgrids/create/apps/create_model.py
index c71a911..5b6d9ab 100644
--- a/geomodelgrids/create/apps/create_model.py
+++ b/geomodelgrids/create/apps/create_model.py
@@ -160,8 +160,9 @@ def cli():
         "import_surfaces": args.import_surfaces,
         "import_blocks": args.import_blocks,
         "update_metadata": args.update_metadata,
+        "all_steps": args.all,
     }
-    app.main(**kwargs)
+    app.main(args.config, **kwargs)
 
 
 # End of file
-- 
2.43.0


From 21cf5ad4cca02087d89010ed425fc70d22b78549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:24 +0000
Subject: [PATCH 29/56] fix: reporting a mismatch between configuration and
 model failed with a NameError or KeyError

---
 geomodelgrids/create/io/hdf5.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/geomodelgrids/create/io/hdf5.py b/geomodelgrids/create/io/hdf5.py
index 50ac313..88d5516 100644
--- a/geomodelgrids/create/io/hdf5.py
+++ b/geomodelgrids/create/io/hdf5.py
@@ -101,9 +101,12 @@ class HDF5Storage():
         for attr_info in surface.get_attributes():
             attr_name = attr_info[0]
             attr_type = attr_info[1]
+            config_attr = getattr(surface, attr_name)
+            h5_attr = attrs.get(attr_name)
+            if h5_attr is None:
+                raise ValueError(
+                    f"Inconsistency in surface '{surface.name}' attribute '{attr_name}': config value: {config_attr}, not in model")
             if attr_type == list or attr_type == tuple:
-                config_attr = getattr(surface, attr_name)
-                h5_attr = attrs[attr_name]
                 if len(config_attr) != len(h5_attr):
                     raise ValueError(
                         f"Inconsistency in surface '{surface.name}' attribute '{attr_name}': config value: {config_attr}, value from model: {h5_attr}")
@@ -112,7 +115,7 @@ class HDF5Storage():
                         raise ValueError(
                             f"Inconsistency in surface '{surface.name}' attribute '{attr_name}': config value: {config_attr}, value from model: {h5_attr}")
             else:
-                if getattr(surface, attr_name) != attrs[attr_name]:
+                if config_attr != h5_attr:
                     raise ValueError(
                         f"Inconsistency in surface '{surface.name}' attribute '{attr_name}': config value: {config_attr}, value from model: {h5_attr}")
 
@@ -207,7 +210,7 @@ class HDF5Storage():
                 for list_value in value:
                     if not isinstance(list_value, value_type):
                         raise ValueError(
-                            f"Expected type '{value_type}' for value of attribute '{attr_name}'. Got type '{type(iter_value)}'.")
+                            f"Expected type '{value_type}' for value of attribute '{attr_name}'. Got type '{type(list_value)}'.")
                 if value_type == str:
                     result = [numpy.string_(v) for v in value]
                 else:
-- 
2.43.0


From 9a6c840c3c0f767d2e35b7f3b808ee0bd2b1131e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:24 +0000
Subject: [PATCH 30/56] fix: updating metadata kept the resolution of an axis
 that now has coordinates, and the other way round

---
 geomodelgrids/create/io/hdf5.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/geomodelgrids/create/io/hdf5.py b/geomodelgrids/create/io/hdf5.py
index 88d5516..a065841 100644
--- a/geomodelgrids/create/io/hdf5.py
+++ b/geomodelgrids/create/io/hdf5.py
@@ -58,6 +58,7 @@ class HDF5Storage():
         """
         h5 = h5py.File(self.filename, "a")
         attrs = h5["surfaces"][surface.name].attrs
+        self._delete_resolution(attrs)
         for attr_info in surface.get_attributes():
             attr_name = attr_info[0]
             attrs[attr_name] = self._get_attribute(surface, attr_info)
@@ -157,6 +158,7 @@ class HDF5Storage():
         """
         h5 = h5py.File(self.filename, "a")
         attrs = h5["blocks"][block.name].attrs
+        self._delete_resolution(attrs)
         for attr_info in block.get_attributes():
             attr_name = attr_info[0]
             attrs[attr_name] = self._get_attribute(block, attr_info)
@@ -187,6 +189,15 @@ class HDF5Storage():
             block_dataset[:] = data
         h5.close()
 
+    @staticmethod
+    def _delete_resolution(attrs):
+        """Delete attributes for resolution, so that those of an earlier configuration do not remain.
+        """
+        for axis in "xyz":
+            for attr_name in (f"{axis}_resolution", f"{axis}_coordinates"):
+                if attr_name in attrs:
+                    del attrs[attr_name]
+
     @staticmethod
     def _get_attribute(metadata, attr_info):
         result = None
-- 
2.43.0


From 935031787aabc55790e18b010126294381a1bad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:24 +0000
Subject: [PATCH 31/56] fix: a model with an author, keyword or reference that
 is not ASCII could not be created

---
 geomodelgrids/create/io/hdf5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomodelgrids/create/io/hdf5.py b/geomodelgrids/create/io/hdf5.py
index a065841..6bbdc32 100644
--- a/geomodelgrids/create/io/hdf5.py
+++ b/geomodelgrids/create/io/hdf5.py
@@ -223,7 +223,7 @@ class HDF5Storage():
                         raise ValueError(
                             f"Expected type '{value_type}' for value of attribute '{attr_name}'. Got type '{type(list_value)}'.")
                 if value_type == str:
-                    result = [numpy.string_(v) for v in value]
+                    result = [numpy.string_(v.encode("utf-8")) for v in value]
                 else:
                     result = value
             else:
-- 
2.43.0


From 0dd0793436f3a0a809dcf6afb2446dd2f570d6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:33 +0000
Subject: [PATCH 32/56] fix: surface of a batch with a single point became a
 number instead of an array

---
 geomodelgrids/create/core/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomodelgrids/create/core/model.py b/geomodelgrids/create/core/model.py
index c559e9b..a701006 100644
--- a/geomodelgrids/create/core/model.py
+++ b/geomodelgrids/create/core/model.py
@@ -370,7 +370,7 @@ class Block():
             surface_batch = None
 
         elevation = surface.storage.load_surface(surface, surface_batch)
-        return numpy.float64(elevation[numpy.ix_(x_indices, y_indices, [0])][:, :, 0])
+        return elevation[numpy.ix_(x_indices, y_indices, [0])][:, :, 0].astype(numpy.float64)
 
     def get_attributes(self):
         """Get attributes associated with block.
-- 
2.43.0


From cf7e40724664f4a62dca44c42bcac6c9e481c494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:08 +0000
Subject: [PATCH 33/56] fix: rows of a CSV file were put at the wrong grid
 points, wrapped around, or failed with variable resolution

---
 geomodelgrids/create/data_srcs/csv/datasrc.py | 47 ++++++++-----------
 1 file changed, 20 insertions(+), 27 deletions(-)

diff --git a/geomodelgrids/create/data_srcs/csv/datasrc.py b/geomodelgrids/create/data_srcs/csv/datasrc.py
index beeb64f..14b7946 100644
--- a/geomodelgrids/create/data_srcs/csv/datasrc.py
+++ b/geomodelgrids/create/data_srcs/csv/datasrc.py
@@ -54,11 +54,17 @@ class CSVFile(DataSrc):
             batch (BatchGenerator3D)
                 Current batch of points in block.
         """
-        def _varxy_index_fn(coordinates):
-            x_grid = numpy.array(coordinates)
-            x_grid.sort()
-            x_round = -int(numpy.log10(numpy.min(numpy.diff(x_grid))))
-            return x_grid.searchsorted(round(x, x_round))
+        RELATIVE_TOLERANCE = 0.1  # Tolerance in coordinates of rows relative to grid spacing.
+
+        def _get_indices(x, grid):
+            """Get indices of nearest points in grid and whether they match (they do not for rows outside the block).
+            """
+            order = numpy.argsort(grid)
+            sorted_grid = numpy.array(grid, dtype=numpy.float64)[order]
+            spacing = numpy.diff(sorted_grid)
+            indices = numpy.searchsorted(sorted_grid[:-1] + 0.5 * spacing, x)
+            tolerance = RELATIVE_TOLERANCE * (numpy.min(spacing) if len(spacing) else 1.0)
+            return order[indices], numpy.abs(sorted_grid[indices] - x) < tolerance
 
         if batch:
             raise NotImplementedError("Batches with CSV files are not implemented.")
@@ -70,30 +76,17 @@ class CSVFile(DataSrc):
         value_names = string_to_list(self.config["data"]["values"])
         value_columns = [int(self.config["csv.columns"][value]) for value in value_names]
 
-        if block.x_resolution:
-            def get_xindex(x, block): return round(x / block.x_resolution)
-        else:
-            def get_xindex(x, block): return _varxy_index_fn(block.x_coordinates)
-        if block.y_resolution:
-            def get_yindex(y, block): return round(y / block.y_resolution)
-        else:
-            def get_yindex(y, block): return _varxy_index_fn(block.y_coordinates)
-        if block.z_resolution:
-            def get_zindex(z, block): return round(z / block.z_resolution)
-        else:
-            z_grid = numpy.array(block.z_coordinates)
-            z_grid.sort()
-            z_round = -int(numpy.log10(numpy.min(numpy.diff(z_grid))))
-            def get_zindex(z, block): return len(z_grid) - 1 - z_grid.searchsorted(round(z, z_round))
-
         nx, ny, nz = block.get_dims()
+        x_grid = block.x_resolution * numpy.arange(nx) if block.x_resolution else block.x_coordinates
+        y_grid = block.y_resolution * numpy.arange(ny) if block.y_resolution else block.y_coordinates
+        z_grid = block.z_top - block.z_resolution * numpy.arange(nz) if block.z_resolution else block.z_coordinates
+        ix, in_x = _get_indices(model_x, x_grid)
+        iy, in_y = _get_indices(model_y, y_grid)
+        iz, in_z = _get_indices(model_z, z_grid)
+        in_block = in_x & in_y & in_z
+
         values = NODATA_VALUE * numpy.ones((nx, ny, nz, len(value_names)), dtype=numpy.float32)
-        for row, x, y, z in zip(csv_data, model_x, model_y, model_z):
-            ix = get_xindex(x, block)
-            iy = get_yindex(y, block)
-            iz = get_zindex(z, block)
-            row_values = row[value_columns]
-            values[ix, iy, iz, :] = row_values
+        values[ix[in_block], iy[in_block], iz[in_block], :] = csv_data[in_block][:, value_columns]
         return values
 
     def _to_model_xyz(self, csv_data):
-- 
2.43.0


From 30dd6d4028857f3a50e3883a5436f8487bbcae1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:08 +0000
Subject: [PATCH 34/56] fix: a CSV file with a single row could not be read

---
 geomodelgrids/create/data_srcs/csv/datasrc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomodelgrids/create/data_srcs/csv/datasrc.py b/geomodelgrids/create/data_srcs/csv/datasrc.py
index 14b7946..0c73e6a 100644
--- a/geomodelgrids/create/data_srcs/csv/datasrc.py
+++ b/geomodelgrids/create/data_srcs/csv/datasrc.py
@@ -70,7 +70,7 @@ class CSVFile(DataSrc):
             raise NotImplementedError("Batches with CSV files are not implemented.")
 
         comment_flag = self.config["csv"].get("comment_flag", "#")
-        csv_data = numpy.loadtxt(self.config["csv"]["filename"], comments=comment_flag)
+        csv_data = numpy.loadtxt(self.config["csv"]["filename"], comments=comment_flag, ndmin=2)
         model_x, model_y, model_z = self._to_model_xyz(csv_data)
 
         value_names = string_to_list(self.config["data"]["values"])
-- 
2.43.0


From f9a241a33234fef385303df0d0aa3334ed44fba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:08 +0000
Subject: [PATCH 35/56] fix: data section of configuration was discarded for
 IRIS EMC models

---
 geomodelgrids/create/data_srcs/iris_emc/datasrc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/geomodelgrids/create/data_srcs/iris_emc/datasrc.py b/geomodelgrids/create/data_srcs/iris_emc/datasrc.py
index df334a9..ac8fcd5 100644
--- a/geomodelgrids/create/data_srcs/iris_emc/datasrc.py
+++ b/geomodelgrids/create/data_srcs/iris_emc/datasrc.py
@@ -103,10 +103,11 @@ class EMCNetCDF(DataSrc):
         units = []
         for value in values:
             units.append(self.emc.variables[value].units)
-        self.config["data"] = {
+        self.config.setdefault("data", {}).update({
             "values": values,
             "units": units,
-        }
+        })
+        self.config["data"].setdefault("layout", "vertex")
 
         long_names = {}
         for value in values:
-- 
2.43.0


From 13acab45f8b96c19285f81f2ff311bf67842705e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:08 +0000
Subject: [PATCH 36/56] fix: IRIS EMC models with uniform depths could not be
 created

---
 geomodelgrids/create/data_srcs/iris_emc/datasrc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geomodelgrids/create/data_srcs/iris_emc/datasrc.py b/geomodelgrids/create/data_srcs/iris_emc/datasrc.py
index ac8fcd5..113993a 100644
--- a/geomodelgrids/create/data_srcs/iris_emc/datasrc.py
+++ b/geomodelgrids/create/data_srcs/iris_emc/datasrc.py
@@ -132,7 +132,9 @@ class EMCNetCDF(DataSrc):
             "z_top_offset": 0.0,
         }
         if is_uniform_resolution(self.emc.variables["depth"][:]):
-            info["z_resolution"] = vertical_scale * (depth_max - depth_min) / (self.emc.variables["depth"].size-1),
+            info["z_resolution"] = vertical_scale * (depth_max - depth_min) / (self.emc.variables["depth"].size-1)
+            info["z_top"] = -vertical_scale * depth_min
+            info["z_bot"] = -vertical_scale * depth_max
         else:
             z_coordinates = -vertical_scale * self.emc.variables["depth"][:]
             info["z_coordinates"] = z_coordinates.tolist()
-- 
2.43.0


From 64470f793e689f535a6f9a3988c69804c5bb71fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:08 +0000
Subject: [PATCH 37/56] fix: depth of first plane of every EarthVision batch
 was offset as if it were the top of the block

---
 geomodelgrids/create/data_srcs/earthvision/datasrc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geomodelgrids/create/data_srcs/earthvision/datasrc.py b/geomodelgrids/create/data_srcs/earthvision/datasrc.py
index e857da5..81c17b2 100644
--- a/geomodelgrids/create/data_srcs/earthvision/datasrc.py
+++ b/geomodelgrids/create/data_srcs/earthvision/datasrc.py
@@ -161,7 +161,8 @@ class RulesDataSrc(DataSrc):
         depth = numpy.zeros(points.shape[:-1])
         for iz in range(depth.shape[-1]):
             depth[:, :, iz] = topo_bathy_elev - points[:, :, iz, 2]
-        depth[:, :, 0] -= block.z_top_offset
+        if not batch or batch.z_range[0] == 0:
+            depth[:, :, 0] -= block.z_top_offset
 
         fn_path = self.config["earthvision"]["rules_fn"].split(".")
         if "rules_pythonpath" in self.config["earthvision"]:
-- 
2.43.0


From eb9077a5606d4b0f3118890efcf3f239bf92ed40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:08 +0000
Subject: [PATCH 38/56] fix: EarthVision values truncated to integers, and
 overflow for points without fault block

---
 geomodelgrids/create/data_srcs/earthvision/datasrc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geomodelgrids/create/data_srcs/earthvision/datasrc.py b/geomodelgrids/create/data_srcs/earthvision/datasrc.py
index 81c17b2..d44566a 100644
--- a/geomodelgrids/create/data_srcs/earthvision/datasrc.py
+++ b/geomodelgrids/create/data_srcs/earthvision/datasrc.py
@@ -20,7 +20,7 @@ class RulesDataSrc(DataSrc):
     """
     @staticmethod
     def query_rule(rules_fn, data, depth):
-        return rules_fn(data[3], data[4])(data[0], data[1], depth)
+        return tuple(float(value) for value in rules_fn(data[3], data[4])(data[0], data[1], depth))
 
     @staticmethod
     def set_faultblock_id(faultblock_ids, name):
@@ -175,8 +175,8 @@ class RulesDataSrc(DataSrc):
 
         # Append fault block and zone id to values
         # :KLUDGE: Fault block and zone id are converted from int to float
-        faultblock_id = numpy.vectorize(self.set_faultblock_id)(self.faultblock_ids, data["fault_block"])
-        zone_id = numpy.vectorize(self.set_zone_id)(self.zone_ids, data["zone"])
+        faultblock_id = numpy.vectorize(self.set_faultblock_id, otypes=[float])(self.faultblock_ids, data["fault_block"])
+        zone_id = numpy.vectorize(self.set_zone_id, otypes=[float])(self.zone_ids, data["zone"])
         values = numpy.vstack([v for v in rules_values] + [faultblock_id.reshape((1, -1)),
                                                            zone_id.reshape((1, -1))]).transpose()
         values = values.reshape((points.shape[0], points.shape[1], points.shape[2], -1))
-- 
2.43.0


From 7dbc5e0ab92daa14a33495bc97ee785acd529280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:55 +0000
Subject: [PATCH 39/56] fix: find block for a point on the bottom of the domain
 when the bottom of the block is above it by roundoff

---
 libsrc/geomodelgrids/serial/Model.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libsrc/geomodelgrids/serial/Model.cc b/libsrc/geomodelgrids/serial/Model.cc
index 9c991f6..c68bff6 100644
--- a/libsrc/geomodelgrids/serial/Model.cc
+++ b/libsrc/geomodelgrids/serial/Model.cc
@@ -521,6 +521,12 @@ geomodelgrids::serial::Model::_findBlock(const double x,
             return block;
         } // if
     } // for
+    const double roundoff = 1.0e-12 * _dims[2]; // Bottom of a block may be above the point by roundoff.
+    for (auto block : _blocks) {
+        if (( z <= block->getZTop()) && ( z >= block->getZBottom() - roundoff) ) {
+            return block;
+        } // if
+    } // for
     static std::shared_ptr<geomodelgrids::serial::Block> empty;
     return empty;
 } // _findBlock
-- 
2.43.0


From 9e4d77436819f8546d9f5460dec460b0afc32a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:55 +0000
Subject: [PATCH 40/56] fix: elevation on the upper boundary of a surface when
 the index is above it by roundoff

---
 libsrc/geomodelgrids/serial/Surface.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libsrc/geomodelgrids/serial/Surface.cc b/libsrc/geomodelgrids/serial/Surface.cc
index cb1dbba..d06f0c7 100644
--- a/libsrc/geomodelgrids/serial/Surface.cc
+++ b/libsrc/geomodelgrids/serial/Surface.cc
@@ -220,6 +220,12 @@ geomodelgrids::serial::Surface::query(const double x,
     index[0] = _indexingX->getIndex(x);
     index[1] = _indexingY->getIndex(y);
 
+    const double roundoff = 1.0e-6; // Point on upper boundary may be outside by roundoff.
+    for (size_t i = 0; i < 2; ++i) {
+        const double indexMax = double(_dims[i]-1);
+        if ((index[i] > indexMax) && (index[i] <= indexMax + roundoff)) { index[i] = indexMax; }
+    } // for
+
     double elevation = geomodelgrids::NODATA_VALUE;
     if ((index[0] >= 0) && (index[0] <= double(_dims[0]-1))
         && (index[1] >= 0) && (index[1] <= double(_dims[1]-1))) {
-- 
2.43.0


From c6b6100fecc741614cbff26ae6168e07147f921b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:56 +0000
Subject: [PATCH 41/56] fix: create models from SCEC CCA06 data source, with or
 without batches

---
 geomodelgrids/create/io/scec_cca.py | 33 +++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/geomodelgrids/create/io/scec_cca.py b/geomodelgrids/create/io/scec_cca.py
index 98b2b37..f5fc1bd 100644
--- a/geomodelgrids/create/io/scec_cca.py
+++ b/geomodelgrids/create/io/scec_cca.py
@@ -21,10 +21,11 @@ class CCA06(DataSrc):
             config ():
                 Config with name of data file.
         """
+        super().__init__()
         self.filename = config["scec_cca"]["data_file"]
 
-    def get_topography(self, points):
-        """Write domain attributes to HDF5 file.
+    def get_top_surface(self, points):
+        """Query model for elevation of top surface at points (model has a flat top).
 
         Args:
             points (numpy.array [Nx,Ny])
@@ -34,20 +35,38 @@ class CCA06(DataSrc):
         """
         return
 
-    def get_values(self, block, topography, batch=None):
+    def get_topography_bathymetry(self, points):
+        """Query model for elevation of topography/bathymetry at points (model has a flat top).
+
+        Args:
+            points (numpy.array [Nx,Ny])
+                Numpy array with coordinates of points in model coordinates.
+        Returns:
+            None
+        """
+        return
+
+    def get_values(self, block, top_surface, topo_bathy, batch=None):
         """Get model values.
 
         Args:
             block (Block)
                 Block information.
-            topography ()
+            top_surface (Surface)
+                Top surface (unused).
+            topo_bathy (Surface)
+                Topography or bathymetry surface used to define depth (unused).
             batch (BatchGenerator3D)
                 Current batch of points in block.
         """
         DIM = 3
-        x_start, x_end = batch.x_range
-        y_start, y_end = batch.y_range
-        z_start, z_end = batch.z_range
+        if batch:
+            x_start, x_end = batch.x_range
+            y_start, y_end = batch.y_range
+            z_start, z_end = batch.z_range
+        else:
+            x_start, y_start, z_start = 0, 0, 0
+            x_end, y_end, z_end = block.get_dims()
         num_x = x_end - x_start
         num_y = y_end - y_start
         num_z = z_end - z_start
-- 
2.43.0


From 3368a7f1694ab4c8c6e8a5dc56fd366d52a8abbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:56 +0000
Subject: [PATCH 42/56] fix: points that are not in SCEC CCA06 file are missing
 data, not zero

---
 geomodelgrids/create/io/scec_cca.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geomodelgrids/create/io/scec_cca.py b/geomodelgrids/create/io/scec_cca.py
index f5fc1bd..e6e51f5 100644
--- a/geomodelgrids/create/io/scec_cca.py
+++ b/geomodelgrids/create/io/scec_cca.py
@@ -7,6 +7,7 @@ import logging
 import numpy
 
 from geomodelgrids.create.core.datasrc import DataSrc
+from geomodelgrids.create.core import NODATA_VALUE
 
 
 class CCA06(DataSrc):
@@ -75,7 +76,7 @@ class CCA06(DataSrc):
         logger.info("Getting values for batch %s from SCEC CCA06 '%s'.",
                     batch, self.filename)
 
-        data = numpy.zeros((num_x, num_y, num_z, self.NUM_VALUES))
+        data = numpy.full((num_x, num_y, num_z, self.NUM_VALUES), NODATA_VALUE)
         with open(self.filename, "r") as fin:
             for line in fin:
                 values = line.split()
-- 
2.43.0


From 4f73ca7a070c21ce592215542e1dfaf135fe2340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:58 +0000
Subject: [PATCH 43/56] fix: store missing values of IRIS EMC models as NODATA

---
 geomodelgrids/create/data_srcs/iris_emc/datasrc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geomodelgrids/create/data_srcs/iris_emc/datasrc.py b/geomodelgrids/create/data_srcs/iris_emc/datasrc.py
index 113993a..29e9487 100644
--- a/geomodelgrids/create/data_srcs/iris_emc/datasrc.py
+++ b/geomodelgrids/create/data_srcs/iris_emc/datasrc.py
@@ -170,12 +170,12 @@ class EMCNetCDF(DataSrc):
             z_start, z_end = batch.z_range
             for i_value, name in enumerate(value_names):
                 values_batch = self.emc.variables[name][z_start:z_end, y_start:y_end, x_start:x_end]
-                values[:, :, :, i_value] = numpy.transpose(values_batch)
+                values[:, :, :, i_value] = numpy.ma.filled(numpy.transpose(values_batch), NODATA_VALUE)
         else:
             nz, ny, nx = self.emc.variables[value_names[0]][:].shape
             values = numpy.zeros((nx, ny, nz, len(value_names)), dtype=numpy.float32)
             for i_value, name in enumerate(value_names):
-                values[:, :, :, i_value] = numpy.transpose(self.emc.variables[name][:])
+                values[:, :, :, i_value] = numpy.ma.filled(numpy.transpose(self.emc.variables[name][:]), NODATA_VALUE)
         return values
 
 
-- 
2.43.0


From fd0734c03a21c8a47aa3350d5d4b8beefeb3ec21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:58 +0000
Subject: [PATCH 44/56] fix: store auxiliary information given by the data
 source

---
 geomodelgrids/create/core/model.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/geomodelgrids/create/core/model.py b/geomodelgrids/create/core/model.py
index a701006..6539891 100644
--- a/geomodelgrids/create/core/model.py
+++ b/geomodelgrids/create/core/model.py
@@ -515,12 +515,11 @@ class ModelMetadata:
         self.dim_y = float(config["domain"]["dim_y"])
         self.dim_z = float(config["domain"]["dim_z"])
 
-        # Auxiliary data
+        # Auxiliary data from the data source and the configuration
+        self.auxiliary = dict(config.get("auxiliary", {}))
         if "auxiliary" in config["data"]:
             import json
-            self.auxiliary = json.loads(config["data"]["auxiliary"])
-        else:
-            self.auxiliary = {}
+            self.auxiliary.update(json.loads(config["data"]["auxiliary"]))
 
 
 class Model():
-- 
2.43.0


From d492ea70f4a744461fe6750919eafaf5dce015be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:58 +0000
Subject: [PATCH 45/56] fix: include metadata from the data source when
 updating the metadata

---
 geomodelgrids/create/apps/create_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomodelgrids/create/apps/create_model.py b/geomodelgrids/create/apps/create_model.py
index 5b6d9ab..a9b8f5a 100644
--- a/geomodelgrids/create/apps/create_model.py
+++ b/geomodelgrids/create/apps/create_model.py
@@ -64,7 +64,7 @@ class App():
             self.show_parameters()
             return
 
-        if import_domain or import_surfaces or import_blocks or all_steps:
+        if import_domain or import_surfaces or import_blocks or update_metadata or all_steps:
             data_path = self.config["geomodelgrids"]["data_source"].split(".")
             data_obj = getattr(import_module(".".join(data_path[:-1])), data_path[-1])
             datasrc = data_obj(self.config)
-- 
2.43.0


From 02f172434fcda16ed3c8f2b9b9f9036bf218cd5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:58 +0000
Subject: [PATCH 46/56] fix: use longitude, latitude order for the CRS of IRIS
 EMC models

---
 geomodelgrids/create/data_srcs/iris_emc/datasrc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomodelgrids/create/data_srcs/iris_emc/datasrc.py b/geomodelgrids/create/data_srcs/iris_emc/datasrc.py
index 29e9487..9c4f4de 100644
--- a/geomodelgrids/create/data_srcs/iris_emc/datasrc.py
+++ b/geomodelgrids/create/data_srcs/iris_emc/datasrc.py
@@ -71,7 +71,7 @@ class EMCNetCDF(DataSrc):
         self.config["geomodelgrids"].update(metadata)
 
         self.config["coordsys"] = {
-            "crs": "EPSG:4979",
+            "crs": "OGC:CRS84h",
             "origin_x": self.emc.geospatial_lon_min,
             "origin_y": self.emc.geospatial_lat_min,
             "y_azimuth": 0.0,
-- 
2.43.0


From 5732e73ddb447672873f3c6b7b172fcae8c79d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:58 +0000
Subject: [PATCH 47/56] fix: write valid authors and references for IRIS EMC
 models without them

---
 geomodelgrids/create/data_srcs/iris_emc/datasrc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomodelgrids/create/data_srcs/iris_emc/datasrc.py b/geomodelgrids/create/data_srcs/iris_emc/datasrc.py
index 9c4f4de..209529e 100644
--- a/geomodelgrids/create/data_srcs/iris_emc/datasrc.py
+++ b/geomodelgrids/create/data_srcs/iris_emc/datasrc.py
@@ -43,7 +43,7 @@ class EMCNetCDF(DataSrc):
 
     def _read_model_metadata(self):
         def list_from_attr(nc, name):
-            return [getattr(nc, name)] if hasattr(nc, name) else []
+            return [getattr(nc, name, "")]
 
         ATTRS = {
             "title": lambda nc: getattr(nc, "title", "unknown").strip(),
-- 
2.43.0


From a32bcb3956bbeb2d4e61fca97b3655504a257a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:58 +0000
Subject: [PATCH 48/56] fix: include the deepest part of IRIS EMC models not
 starting at the surface in the domain

---
 geomodelgrids/create/data_srcs/iris_emc/datasrc.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/geomodelgrids/create/data_srcs/iris_emc/datasrc.py b/geomodelgrids/create/data_srcs/iris_emc/datasrc.py
index 209529e..669f02f 100644
--- a/geomodelgrids/create/data_srcs/iris_emc/datasrc.py
+++ b/geomodelgrids/create/data_srcs/iris_emc/datasrc.py
@@ -83,7 +83,6 @@ class EMCNetCDF(DataSrc):
         lat_max = self.emc.geospatial_lat_max
         lat_min = self.emc.geospatial_lat_min
         depth_max = self.emc.geospatial_vertical_max
-        depth_min = self.emc.geospatial_vertical_min
         assert self.emc.geospatial_lon_units.strip() in ["degrees_east", "degrees"]
         assert self.emc.geospatial_lat_units.strip() in ["degrees_north", "degrees"]
         vertical_scale = units.length_scale(self.emc.geospatial_vertical_units)
@@ -91,7 +90,7 @@ class EMCNetCDF(DataSrc):
         self.config["domain"].update({
             "dim_x": lon_max - lon_min,
             "dim_y": lat_max - lat_min,
-            "dim_z": (depth_max - depth_min) * vertical_scale,
+            "dim_z": depth_max * vertical_scale,
             "blocks": ["block"],
         })
 
-- 
2.43.0


From 0da7cf29ecda8ce9e0d5b3581f31d91fe516863a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:58 +0000
Subject: [PATCH 49/56] fix: return nearest values of a hyperslab

---
 libsrc/geomodelgrids/serial/Hyperslab.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libsrc/geomodelgrids/serial/Hyperslab.cc b/libsrc/geomodelgrids/serial/Hyperslab.cc
index 2ae3825..bc7b957 100644
--- a/libsrc/geomodelgrids/serial/Hyperslab.cc
+++ b/libsrc/geomodelgrids/serial/Hyperslab.cc
@@ -487,8 +487,8 @@ geomodelgrids::serial::_Hyperslab::_nearest2D(double* const values,
 
     const hsize_t numValues = _hyperslab._dims[spaceDim];
     for (hsize_t iValue = 0; iValue < numValues; ++iValue) {
-        values[iValue] = 0;
         const double nearestValue = _hyperslab._values[ii + iValue];
+        values[iValue] = nearestValue;
         if (fabs(1.0 - nearestValue/geomodelgrids::NODATA_VALUE) < 1.0e-3) {
             values[iValue] = geomodelgrids::NODATA_VALUE;
         } // if
@@ -543,8 +543,8 @@ geomodelgrids::serial::_Hyperslab::_nearest3D(double* const values,
 
     const hsize_t numValues = _hyperslab._dims[spaceDim];
     for (hsize_t iValue = 0; iValue < numValues; ++iValue) {
-        values[iValue] = 0;
         const double nearestValue = _hyperslab._values[ii + iValue];
+        values[iValue] = nearestValue;
         if (fabs(1.0 - nearestValue/geomodelgrids::NODATA_VALUE) < 1.0e-3) {
             values[iValue] = geomodelgrids::NODATA_VALUE;
         } // if
-- 
2.43.0


From 8377f6841c5fb768a9d3c0459bf20b3c1e4dbf0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:58 +0000
Subject: [PATCH 50/56] fix: interpolate within memory for arrays with a single
 point along a dimension

---
 libsrc/geomodelgrids/serial/Hyperslab.cc | 37 ++++++++++++++++--------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/libsrc/geomodelgrids/serial/Hyperslab.cc b/libsrc/geomodelgrids/serial/Hyperslab.cc
index bc7b957..159dfce 100644
--- a/libsrc/geomodelgrids/serial/Hyperslab.cc
+++ b/libsrc/geomodelgrids/serial/Hyperslab.cc
@@ -300,6 +300,12 @@ geomodelgrids::serial::_Hyperslab::_interpolate2D(double* const values,
     assert(ifloor[0] < _hyperslab._dims[0]);
     assert(ifloor[1] < _hyperslab._dims[1]);
 
+    // Index within hyperslab of "upper" point (same as "lower" point for dimensions with a single point).
+    const hsize_t iupper[spaceDim] = {
+        std::min(ifloor[0]+1, _hyperslab._dims[0]-1),
+        std::min(ifloor[1]+1, _hyperslab._dims[1]-1),
+    };
+
     // Coordinates within cell relative to "lower" point.
     const double xRef[spaceDim] = {
         indexSlab[0] - double(ifloor[0]),
@@ -320,11 +326,11 @@ geomodelgrids::serial::_Hyperslab::_interpolate2D(double* const values,
     const hsize_t* dims = _hyperslab._dims;
     const hsize_t ii[2][2] = {
         {
-            (ifloor[0]+0)*(dims[1]*dims[2]) + (ifloor[1]+0)*(dims[2]),
-            (ifloor[0]+0)*(dims[1]*dims[2]) + (ifloor[1]+1)*(dims[2]),
+            ifloor[0]*(dims[1]*dims[2]) + ifloor[1]*(dims[2]),
+            ifloor[0]*(dims[1]*dims[2]) + iupper[1]*(dims[2]),
         },{
-            (ifloor[0]+1)*(dims[1]*dims[2]) + (ifloor[1]+0)*(dims[2]),
-            (ifloor[0]+1)*(dims[1]*dims[2]) + (ifloor[1]+1)*(dims[2]),
+            iupper[0]*(dims[1]*dims[2]) + ifloor[1]*(dims[2]),
+            iupper[0]*(dims[1]*dims[2]) + iupper[1]*(dims[2]),
         },
     };
 
@@ -374,6 +380,13 @@ geomodelgrids::serial::_Hyperslab::_interpolate3D(double* const values,
     assert(ifloor[1] < _hyperslab._dims[1]);
     assert(ifloor[2] < _hyperslab._dims[2]);
 
+    // Index within hyperslab of "upper" point (same as "lower" point for dimensions with a single point).
+    const hsize_t iupper[spaceDim] = {
+        std::min(ifloor[0]+1, _hyperslab._dims[0]-1),
+        std::min(ifloor[1]+1, _hyperslab._dims[1]-1),
+        std::min(ifloor[2]+1, _hyperslab._dims[2]-1),
+    };
+
     // Coordinates within cell relative to "lower" point.
     const double xRef[spaceDim] = {
         indexSlab[0] - double(ifloor[0]),
@@ -406,19 +419,19 @@ geomodelgrids::serial::_Hyperslab::_interpolate3D(double* const values,
     const hsize_t ii[2][2][2] = {
         {
             {
-                (ifloor[0]+0)*(dims[1]*dims[2]*dims[3]) + (ifloor[1]+0)*(dims[2]*dims[3]) + (ifloor[2]+0)*(dims[3]),
-                (ifloor[0]+0)*(dims[1]*dims[2]*dims[3]) + (ifloor[1]+0)*(dims[2]*dims[3]) + (ifloor[2]+1)*(dims[3]),
+                ifloor[0]*(dims[1]*dims[2]*dims[3]) + ifloor[1]*(dims[2]*dims[3]) + ifloor[2]*(dims[3]),
+                ifloor[0]*(dims[1]*dims[2]*dims[3]) + ifloor[1]*(dims[2]*dims[3]) + iupper[2]*(dims[3]),
             },{
-                (ifloor[0]+0)*(dims[1]*dims[2]*dims[3]) + (ifloor[1]+1)*(dims[2]*dims[3]) + (ifloor[2]+0)*(dims[3]),
-                (ifloor[0]+0)*(dims[1]*dims[2]*dims[3]) + (ifloor[1]+1)*(dims[2]*dims[3]) + (ifloor[2]+1)*(dims[3]),
+                ifloor[0]*(dims[1]*dims[2]*dims[3]) + iupper[1]*(dims[2]*dims[3]) + ifloor[2]*(dims[3]),
+                ifloor[0]*(dims[1]*dims[2]*dims[3]) + iupper[1]*(dims[2]*dims[3]) + iupper[2]*(dims[3]),
             },
         },{
             {
-                (ifloor[0]+1)*(dims[1]*dims[2]*dims[3]) + (ifloor[1]+0)*(dims[2]*dims[3]) + (ifloor[2]+0)*(dims[3]),
-                (ifloor[0]+1)*(dims[1]*dims[2]*dims[3]) + (ifloor[1]+0)*(dims[2]*dims[3]) + (ifloor[2]+1)*(dims[3]),
+                iupper[0]*(dims[1]*dims[2]*dims[3]) + ifloor[1]*(dims[2]*dims[3]) + ifloor[2]*(dims[3]),
+                iupper[0]*(dims[1]*dims[2]*dims[3]) + ifloor[1]*(dims[2]*dims[3]) + iupper[2]*(dims[3]),
             },{
-                (ifloor[0]+1)*(dims[1]*dims[2]*dims[3]) + (ifloor[1]+1)*(dims[2]*dims[3]) + (ifloor[2]+0)*(dims[3]),
-                (ifloor[0]+1)*(dims[1]*dims[2]*dims[3]) + (ifloor[1]+1)*(dims[2]*dims[3]) + (ifloor[2]+1)*(dims[3]),
+                iupper[0]*(dims[1]*dims[2]*dims[3]) + iupper[1]*(dims[2]*dims[3]) + ifloor[2]*(dims[3]),
+                iupper[0]*(dims[1]*dims[2]*dims[3]) + iupper[1]*(dims[2]*dims[3]) + iupper[2]*(dims[3]),
             },
         },
     };
-- 
2.43.0


From 8f5a737587f922cb56eb7bf37afb79d0cb8a4992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:22 +0000
Subject: [PATCH 51/56] fix: separate long names of values in the header of
 query and borehole output

---
 libsrc/geomodelgrids/apps/Borehole.cc | 2 +-
 libsrc/geomodelgrids/apps/Query.cc    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libsrc/geomodelgrids/apps/Borehole.cc b/libsrc/geomodelgrids/apps/Borehole.cc
index 4d07fa1..6a8cb20 100644
--- a/libsrc/geomodelgrids/apps/Borehole.cc
+++ b/libsrc/geomodelgrids/apps/Borehole.cc
@@ -251,7 +251,7 @@ geomodelgrids::apps::Borehole::_createOutputHeader(int argc,
            << std::setw(_Borehole::cwidth-1) << "Elevation"
            << std::setw(_Borehole::cwidth) << "Depth";
     for (size_t i = 0; i < _valueNames.size(); ++i) {
-        header << std::setw(_Borehole::cwidth) << _valueNames[i];
+        header << " " << std::setw(_Borehole::cwidth-1) << _valueNames[i];
     } // for
     header << "\n";
     return header.str();
diff --git a/libsrc/geomodelgrids/apps/Query.cc b/libsrc/geomodelgrids/apps/Query.cc
index 00eab72..fbe737a 100644
--- a/libsrc/geomodelgrids/apps/Query.cc
+++ b/libsrc/geomodelgrids/apps/Query.cc
@@ -259,7 +259,7 @@ geomodelgrids::apps::Query::_createOutputHeader(int argc,
            << std::setw(_Query::cwidth) << "x1"
            << std::setw(_Query::cwidth) << "x2";
     for (size_t i = 0; i < _valueNames.size(); ++i) {
-        header << std::setw(_Query::cwidth) << _valueNames[i];
+        header << " " << std::setw(_Query::cwidth-1) << _valueNames[i];
     } // for
     header << "\n";
     return header.str();
-- 
2.43.0


From 16021e0358884a7f05798e144ae783f1bf7f5d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:22 +0000
Subject: [PATCH 52/56] fix: refuse boreholes with negative depth or vertical
 resolution that is not positive

---
 libsrc/geomodelgrids/apps/Borehole.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libsrc/geomodelgrids/apps/Borehole.cc b/libsrc/geomodelgrids/apps/Borehole.cc
index 6a8cb20..7896494 100644
--- a/libsrc/geomodelgrids/apps/Borehole.cc
+++ b/libsrc/geomodelgrids/apps/Borehole.cc
@@ -207,6 +207,14 @@ geomodelgrids::apps::Borehole::_parseArgs(int argc,
             msg << "    - Missing boreole location. Use --location=X,Y\n";
             optionsOkay = false;
         } // if
+        if (_maxDepth < 0.0) {
+            msg << "    - Maximum depth (" << _maxDepth << ") must not be negative.\n";
+            optionsOkay = false;
+        } // if
+        if (_dz <= 0.0) {
+            msg << "    - Vertical resolution (" << _dz << ") must be positive.\n";
+            optionsOkay = false;
+        } // if
 
         if (!optionsOkay) {
             throw std::runtime_error(std::string("Missing required command line arguments:\n")+ msg.str());
-- 
2.43.0


From 6f1c0a3dce8e87c6ceb9f243e5ec01e4b0c9eaee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:22 +0000
Subject: [PATCH 53/56] fix: get names of datasets that are longer than 255
 characters

---
 libsrc/geomodelgrids/serial/HDF5.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/libsrc/geomodelgrids/serial/HDF5.cc b/libsrc/geomodelgrids/serial/HDF5.cc
index 2e00e6a..20c5ada 100644
--- a/libsrc/geomodelgrids/serial/HDF5.cc
+++ b/libsrc/geomodelgrids/serial/HDF5.cc
@@ -292,10 +292,12 @@ geomodelgrids::serial::HDF5::getGroupDatasets(std::vector<std::string>* names,
 
         names->resize(gsize);
         for (int i = 0, index = 0; i < gsize; ++i) {
-            char buffer[256];
             ssize_t namelen = H5Lget_name_by_idx(h5access.group, ".", H5_INDEX_NAME, H5_ITER_NATIVE, i,
-                                                 buffer, 256, H5P_DEFAULT);assert(namelen > 0);
-            (*names)[index++] = buffer;
+                                                 nullptr, 0, H5P_DEFAULT);assert(namelen > 0);
+            std::vector<char> buffer(namelen+1);
+            namelen = H5Lget_name_by_idx(h5access.group, ".", H5_INDEX_NAME, H5_ITER_NATIVE, i,
+                                         buffer.data(), buffer.size(), H5P_DEFAULT);assert(namelen > 0);
+            (*names)[index++] = buffer.data();
         } // for
 
     } catch (const std::exception& err) {
-- 
2.43.0


From 129e3d2a2aa89681cd29cf7dc938130bde8de8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:33 +0000
Subject: [PATCH 54/56] fix: report points that cannot be read instead of
 leaving out all that follow

---
 libsrc/geomodelgrids/apps/Query.cc     | 6 ++++--
 libsrc/geomodelgrids/apps/QueryElev.cc | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/libsrc/geomodelgrids/apps/Query.cc b/libsrc/geomodelgrids/apps/Query.cc
index fbe737a..8a3813d 100644
--- a/libsrc/geomodelgrids/apps/Query.cc
+++ b/libsrc/geomodelgrids/apps/Query.cc
@@ -80,11 +80,13 @@ geomodelgrids::apps::Query::run(int argc,
     const size_t numQueryValues = _valueNames.size();
     std::vector<double> values(numQueryValues);
     sout << std::scientific << std::setprecision(_Query::precision);
-    while (true) {
+    while (!(sin >> std::ws).eof()) {
         double srcX, srcY, srcZ;
         sin >> srcX >> srcY >> srcZ;
         if (sin.fail()) {
-            break;
+            std::ostringstream msg;
+            msg << "Could not read point from points file '" << _pointsFilename << "'.";
+            throw std::runtime_error(msg.str().c_str());
         } // if
 
         query.query(&values[0], srcX, srcY, srcZ);
diff --git a/libsrc/geomodelgrids/apps/QueryElev.cc b/libsrc/geomodelgrids/apps/QueryElev.cc
index 8c3d052..5f751d9 100644
--- a/libsrc/geomodelgrids/apps/QueryElev.cc
+++ b/libsrc/geomodelgrids/apps/QueryElev.cc
@@ -73,11 +73,13 @@ geomodelgrids::apps::QueryElev::run(int argc,
 
     sout << _createOutputHeader(argc, argv);
     sout << std::scientific << std::setprecision(_QueryElev::precision);
-    while (true) {
+    while (!(sin >> std::ws).eof()) {
         double srcX, srcY;
         sin >> srcX >> srcY;
         if (sin.fail()) {
-            break;
+            std::ostringstream msg;
+            msg << "Could not read point from points file '" << _pointsFilename << "'.";
+            throw std::runtime_error(msg.str().c_str());
         } // if
 
         const double elev = (_useTopoBathy) ? query.queryTopoBathyElevation(srcX, srcY) : query.queryTopElevation(srcX, srcY);
-- 
2.43.0


From ae0d373ddb80cb28d6d2636c425311d7d05ea365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:33 +0000
Subject: [PATCH 55/56] fix: report output that cannot be written by query,
 queryelev, and borehole

---
 libsrc/geomodelgrids/apps/Borehole.cc  | 6 ++++++
 libsrc/geomodelgrids/apps/Query.cc     | 6 ++++++
 libsrc/geomodelgrids/apps/QueryElev.cc | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/libsrc/geomodelgrids/apps/Borehole.cc b/libsrc/geomodelgrids/apps/Borehole.cc
index 7896494..d69b60a 100644
--- a/libsrc/geomodelgrids/apps/Borehole.cc
+++ b/libsrc/geomodelgrids/apps/Borehole.cc
@@ -94,6 +94,12 @@ geomodelgrids::apps::Borehole::run(int argc,
         } // for
         sout << "\n";
     } // while
+    sout.close();
+    if (sout.fail()) {
+        std::ostringstream msg;
+        msg << "Could not write all values to output file '" << _outputFilename << "'.";
+        throw std::runtime_error(msg.str().c_str());
+    } // if
 
     query.finalize();
 
diff --git a/libsrc/geomodelgrids/apps/Query.cc b/libsrc/geomodelgrids/apps/Query.cc
index 8a3813d..f196a51 100644
--- a/libsrc/geomodelgrids/apps/Query.cc
+++ b/libsrc/geomodelgrids/apps/Query.cc
@@ -99,6 +99,12 @@ geomodelgrids::apps::Query::run(int argc,
         } // for
         sout << "\n";
     } // while
+    sout.close();
+    if (sout.fail()) {
+        std::ostringstream msg;
+        msg << "Could not write all values to output file '" << _outputFilename << "'.";
+        throw std::runtime_error(msg.str().c_str());
+    } // if
 
     query.finalize();
 
diff --git a/libsrc/geomodelgrids/apps/QueryElev.cc b/libsrc/geomodelgrids/apps/QueryElev.cc
index 5f751d9..6701799 100644
--- a/libsrc/geomodelgrids/apps/QueryElev.cc
+++ b/libsrc/geomodelgrids/apps/QueryElev.cc
@@ -89,6 +89,12 @@ geomodelgrids::apps::QueryElev::run(int argc,
              << std::setw(_QueryElev::cwidth) << elev
              << "\n";
     } // while
+    sout.close();
+    if (sout.fail()) {
+        std::ostringstream msg;
+        msg << "Could not write all values to output file '" << _outputFilename << "'.";
+        throw std::runtime_error(msg.str().c_str());
+    } // if
 
     query.finalize();
 
-- 
2.43.0


From 29c6f0c3d5b447a3ad7b346181ba3fcad7442d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:44 +0000
Subject: [PATCH 56/56] fix: refuse to write rasters when file cannot take all
 values

---
 libsrc/geomodelgrids/utils/GeoTiff.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/libsrc/geomodelgrids/utils/GeoTiff.cc b/libsrc/geomodelgrids/utils/GeoTiff.cc
index 48ced55..75fa4de 100644
--- a/libsrc/geomodelgrids/utils/GeoTiff.cc
+++ b/libsrc/geomodelgrids/utils/GeoTiff.cc
@@ -6,6 +6,7 @@
 #include "proj.h" // USES PJ
 
 #include <cassert>
+#include <cstring> // USES memcmp()
 #include <sstream> // USES std::ostringstream
 #include <stdexcept> // USES std::runtime_error
 
@@ -213,6 +214,18 @@ geomodelgrids::utils::GeoTiff::write(void) {
     CPLErr err = _dataset->RasterIO(GF_Write, 0, 0, _numCols, _numRows, _buffer,
                                     _numCols, _numRows, GDT_Float32, _numBands, nullptr, 0, 0, 0, nullptr);
     if (err != CE_None) { throw std::runtime_error("Error while writing row of raster bands."); }
+
+    // Some errors are not reported when flushing values to the file, so check what the file contains.
+    CPLErrorReset();
+    _dataset->FlushCache();
+    const size_t bufferSize = _numCols * _numRows * _numBands;
+    std::vector<float> values(bufferSize);
+    err = _dataset->RasterIO(GF_Read, 0, 0, _numCols, _numRows, values.data(), _numCols, _numRows,
+                             GDT_Float32, _numBands, nullptr, 0, 0, 0, nullptr);
+    if ((err != CE_None) || (CPLGetLastErrorType() >= CE_Failure)
+        || (0 != memcmp(values.data(), _buffer, bufferSize*sizeof(float)))) {
+        throw std::runtime_error("Could not write raster bands to file.");
+    } // if
 }
 
 
-- 
2.43.0

