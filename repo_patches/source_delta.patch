From 61251192b800d2e8e1f42fec6986aee4ab33012a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:35 +0000
Subject: [PATCH 01/23] fix: wavelength query keeps the last child's values
 when a parent octant is missing

---
 libsrc/cencalvm/query/VMQuery.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libsrc/cencalvm/query/VMQuery.cc b/libsrc/cencalvm/query/VMQuery.cc
index 40b17d9..10ccd12 100644
--- a/libsrc/cencalvm/query/VMQuery.cc
+++ b/libsrc/cencalvm/query/VMQuery.cc
@@ -419,7 +419,7 @@ cencalvm::query::VMQuery::_queryWave(cencalvm::storage::PayloadStruct* pPayload,
 	<< "for location " << lon << ", " << lat << ", " << elev
 	<< ".\nUsing values from child octant.";
       _pErrHandler->warning(msg.str().c_str());
-      etree_search(pDB, *pAddr, &resAddr, "*", pPayload);
+      *pPayload = childPayload;
       return;
     } // if
   } // while
-- 
2.43.0


From e882108294ed489166a152913c0fbbd92273f3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:59 +0000
Subject: [PATCH 02/23] fix: an unknown query value no longer leaves its
 selector indeterminate

---
 libsrc/cencalvm/query/VMQuery.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libsrc/cencalvm/query/VMQuery.cc b/libsrc/cencalvm/query/VMQuery.cc
index 10ccd12..464fb28 100644
--- a/libsrc/cencalvm/query/VMQuery.cc
+++ b/libsrc/cencalvm/query/VMQuery.cc
@@ -180,6 +180,7 @@ cencalvm::query::VMQuery::queryVals(const char* const* names,
 	    << "  Vp, Vs, Density, Qp, Qs, DepthFreeSurf, FaultBlock, Zone,"
 	    << " elevation.";
 	_pErrHandler->error(msg.str().c_str());
+	_pQueryVals[iVal] = -1;
       } // else
     } // for
   } // if
-- 
2.43.0


From a01fd0ed27c825e040e23d542c192f17c9e48397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:17 +0000
Subject: [PATCH 03/23] fix: ground surface from the regional model never comes
 from an interior octant

---
 libsrc/cencalvm/query/VMQuery.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libsrc/cencalvm/query/VMQuery.cc b/libsrc/cencalvm/query/VMQuery.cc
index 464fb28..39721c8 100644
--- a/libsrc/cencalvm/query/VMQuery.cc
+++ b/libsrc/cencalvm/query/VMQuery.cc
@@ -467,7 +467,7 @@ cencalvm::query::VMQuery::_queryElev(etree_addr_t* pAddr,
   bool found = (!err && ETREE_INTERIOR != resAddr.type);
   if (!found && 0 != _dbExt) {
     err = etree_search(_dbExt, *pAddr, &resAddr, "*", &payload);
-    found = 0 == err;
+    found = (!err && ETREE_INTERIOR != resAddr.type);
     dbElev = _dbExt;
   } // if
 
-- 
2.43.0


From f3f4c726695b5e73b4a26082095c8b6d1313b836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:23 +0000
Subject: [PATCH 04/23] fix: destroying an open query closes the databases
 before the error handler goes away

---
 libsrc/cencalvm/query/VMQuery.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libsrc/cencalvm/query/VMQuery.cc b/libsrc/cencalvm/query/VMQuery.cc
index 39721c8..b0c5b40 100644
--- a/libsrc/cencalvm/query/VMQuery.cc
+++ b/libsrc/cencalvm/query/VMQuery.cc
@@ -56,10 +56,10 @@ cencalvm::query::VMQuery::VMQuery(void) :
 // Default destructor.
 cencalvm::query::VMQuery::~VMQuery(void)
 { // destructor
+  close();
   delete[] _pQueryVals; _pQueryVals = 0;
   delete _pGeom; _pGeom = 0;
   delete _pErrHandler; _pErrHandler = 0;
-  close();
 } // destructor
 
 // ----------------------------------------------------------------------
-- 
2.43.0


From 8e7df3bdea6d5733d9f30c1c2740e91a0857a82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:23 +0000
Subject: [PATCH 05/23] fix: setting a null query geometry does not dereference
 it

---
 libsrc/cencalvm/query/VMQuery.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libsrc/cencalvm/query/VMQuery.cc b/libsrc/cencalvm/query/VMQuery.cc
index b0c5b40..9ac5ace 100644
--- a/libsrc/cencalvm/query/VMQuery.cc
+++ b/libsrc/cencalvm/query/VMQuery.cc
@@ -68,7 +68,7 @@ void
 cencalvm::query::VMQuery::geometry(const storage::Geometry* pGeom)
 { // geometry
   delete _pGeom;
-  _pGeom = (0 != _pGeom) ? pGeom->clone() : 0;
+  _pGeom = (0 != pGeom) ? pGeom->clone() : 0;
 } // geometry
 
 // ----------------------------------------------------------------------
-- 
2.43.0


From 9d10657185a2e51ac252b74685f5074a9704cf9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:23 +0000
Subject: [PATCH 06/23] fix: failure to close the regional database names that
 database

---
 libsrc/cencalvm/query/VMQuery.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libsrc/cencalvm/query/VMQuery.cc b/libsrc/cencalvm/query/VMQuery.cc
index 9ac5ace..2d75656 100644
--- a/libsrc/cencalvm/query/VMQuery.cc
+++ b/libsrc/cencalvm/query/VMQuery.cc
@@ -113,7 +113,7 @@ cencalvm::query::VMQuery::close(void)
 
   if (0 != _dbExt && 0 != etree_close(_dbExt)) {
     std::ostringstream msg;
-    msg << "Could not close the etree database '" << _filename << "'.";
+    msg << "Could not close the etree database '" << _filenameExt << "'.";
     _pErrHandler->error(msg.str().c_str());
   } // if
   _dbExt = 0;
-- 
2.43.0


From cd33fd37e067b790cafbfafa2c094ed50018bd62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:03 +0000
Subject: [PATCH 07/23] fix: a query that fails returns no-data values and
 keeps its ERROR status

---
 libsrc/cencalvm/query/VMQuery.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libsrc/cencalvm/query/VMQuery.cc b/libsrc/cencalvm/query/VMQuery.cc
index 2d75656..abac286 100644
--- a/libsrc/cencalvm/query/VMQuery.cc
+++ b/libsrc/cencalvm/query/VMQuery.cc
@@ -204,6 +204,7 @@ cencalvm::query::VMQuery::query(double** ppVals,
   double elevRef = 0.0;
 
   cencalvm::storage::PayloadStruct payload;
+  bool failed = false;
   try {
     double elevQuery = elev;
     bool useAddr = false;
@@ -222,13 +223,17 @@ cencalvm::query::VMQuery::query(double** ppVals,
       (this->*_queryFn)(&payload, &addr, _dbExt, lon, lat, elevQuery, useAddr);
     } // if
   } catch (const std::exception& err) {
+      _setNoData(&payload);
+      failed = true;
       _pErrHandler->error(err.what());
   } catch (...) {
+    _setNoData(&payload);
+    failed = true;
     _pErrHandler->error("Unknown C++ error");
   } // catch
 
   // If not found in any model, trigger warning
-  if (cencalvm::storage::Payload::NODATABLOCK == payload.FaultBlock) {
+  if (!failed && cencalvm::storage::Payload::NODATABLOCK == payload.FaultBlock) {
     std::ostringstream msg;
     msg
       << std::resetiosflags(std::ios::fixed)
-- 
2.43.0


From 9d75d960dc9e09408c225e9599bd99e2728e2d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:03 +0000
Subject: [PATCH 08/23] fix: ground surface elevation is no-data when
 determining it fails

---
 libsrc/cencalvm/query/VMQuery.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libsrc/cencalvm/query/VMQuery.cc b/libsrc/cencalvm/query/VMQuery.cc
index abac286..206a7bb 100644
--- a/libsrc/cencalvm/query/VMQuery.cc
+++ b/libsrc/cencalvm/query/VMQuery.cc
@@ -283,8 +283,10 @@ cencalvm::query::VMQuery::query(double** ppVals,
 	  try {
 	    elevRef = _queryElev(&addr, lon, lat, elev);
 	  } catch (const std::exception& err) {
+	    elevRef = cencalvm::storage::Payload::NODATAVAL;
 	    _pErrHandler->error(err.what());
 	  } catch (...) {
+	    elevRef = cencalvm::storage::Payload::NODATAVAL;
 	    _pErrHandler->error("Unknown C++ error");
 	  } // catch
 	(*ppVals)[i] = elevRef;
-- 
2.43.0


From 5b5d9af5f52372f0c4d4b1a7fe7124ec951a0423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:12 +0000
Subject: [PATCH 09/23] fix: locations on the upper faces of the root octant or
 without finite coordinates are outside

---
 libsrc/cencalvm/storage/GeomCenCA.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libsrc/cencalvm/storage/GeomCenCA.cc b/libsrc/cencalvm/storage/GeomCenCA.cc
index 05c91a4..23bce89 100644
--- a/libsrc/cencalvm/storage/GeomCenCA.cc
+++ b/libsrc/cencalvm/storage/GeomCenCA.cc
@@ -90,9 +90,9 @@ cencalvm::storage::GeomCenCA::lonLatElevToAddr(etree_addr_t* pAddr,
     (x - _projXNWRoot) * sin(azR) + (y - _projYNWRoot) * cos(azR);
   const double r = (elev-_MAXELEV)*_VERTEXAG + _ROOTLEN;
 
-  if (p < 0.0 || p > _ROOTLEN ||
-      q < 0.0 || q > _ROOTLEN ||
-      r < 0.0 || r > _ROOTLEN) {
+  if (!(p >= 0.0 && p < _ROOTLEN &&
+	q >= 0.0 && q < _ROOTLEN &&
+	r >= 0.0 && r < _ROOTLEN)) {
       pAddr->x = -1;
       pAddr->y = -1;
       pAddr->z = -1;
-- 
2.43.0


From b33b11c23397827a9cd181ec9b7b919af2f971d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:49 +0000
Subject: [PATCH 10/23] fix: one failed projection does not make every later
 projection fail

---
 libsrc/cencalvm/storage/Projector.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libsrc/cencalvm/storage/Projector.cc b/libsrc/cencalvm/storage/Projector.cc
index fa4b4db..f2069f6 100644
--- a/libsrc/cencalvm/storage/Projector.cc
+++ b/libsrc/cencalvm/storage/Projector.cc
@@ -71,6 +71,7 @@ cencalvm::storage::Projector::project(double* pX,
   assert(0 != _pProj);
 
   PJ_COORD src = proj_coord(proj_torad(lon), proj_torad(lat), 0.0, 0.0);
+  proj_errno_reset(_pProj); // error from earlier call must not stick
   PJ_COORD dest = proj_trans(_pProj, PJ_FWD, src);
   if (proj_errno(_pProj)) {
     std::ostringstream msg;
@@ -97,6 +98,7 @@ cencalvm::storage::Projector::invProject(double* pLon,
   assert(0 != _pProj);
 
   PJ_COORD src = proj_coord(x, y, 0.0, 0.0);
+  proj_errno_reset(_pProj); // error from earlier call must not stick
   PJ_COORD dest = proj_trans(_pProj, PJ_INV, src);
   if (proj_errno(_pProj)) {
     std::ostringstream msg;
-- 
2.43.0


From 3c58d016f3aa61943f1d46b6aa746d799d953bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:12 +0000
Subject: [PATCH 11/23] fix: averaging keeps a database's sole root octant

---
 libsrc/cencalvm/average/AvgEngine.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/libsrc/cencalvm/average/AvgEngine.cc b/libsrc/cencalvm/average/AvgEngine.cc
index f5ac4fd..ec09fc0 100644
--- a/libsrc/cencalvm/average/AvgEngine.cc
+++ b/libsrc/cencalvm/average/AvgEngine.cc
@@ -155,9 +155,18 @@ cencalvm::average::AvgEngine::_averageOctant(etree_addr_t* pAddr,
   assert(0 != _dbAvg);
   assert(0 != _pPendingOctants);
 
-  // if at root, we are done
-  if (pAddr->level <= 0)
+  // if at root, we are done (a root octant that is a leaf has no
+  // ancestors but is still part of the database)
+  if (pAddr->level <= 0) {
+    if (ETREE_LEAF == pAddr->type) {
+      if (0 != etree_append(_dbAvg, *pAddr, &payload))
+	throw std::runtime_error("Error occurred while trying to append octant "
+				 "to etree.");
+      ++_octantCounter.input;
+      ++_octantCounter.output;
+    } // if
     return;
+  } // if
 
   int pendingLevel = _findParent(pAddr);
   assert(pendingLevel == pAddr->level-1);
-- 
2.43.0


From 159f5e0445d2b706f9b2770f32cab27282508ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:15 +0000
Subject: [PATCH 12/23] fix: averaging a database without a schema is an error,
 not a crash

---
 libsrc/cencalvm/average/Averager.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libsrc/cencalvm/average/Averager.cc b/libsrc/cencalvm/average/Averager.cc
index e6d3d72..5aee64d 100644
--- a/libsrc/cencalvm/average/Averager.cc
+++ b/libsrc/cencalvm/average/Averager.cc
@@ -83,13 +83,15 @@ cencalvm::average::Averager::average(void)
     throw std::runtime_error(msg.str());
   } // if
   const char* schema = etree_getschema(_dbIn);
-  if (0 != strcmp(schema, cencalvm::storage::Payload::SCHEMA)) {
+  if (0 == schema ||
+      0 != strcmp(schema, cencalvm::storage::Payload::SCHEMA)) {
     std::ostringstream msg;
     msg
       << "Schema of input etree database '" << _filenameIn
       << "' doesn't match the expected schema.\n"
       << "Expected schema is\n'" << cencalvm::storage::Payload::SCHEMA
-      << "'\nand database schema is\n'" << schema << "'";
+      << "'\nand database schema is\n'" << ((0 != schema) ? schema : "")
+      << "'";
     throw std::runtime_error(msg.str());
   } // if
 
-- 
2.43.0


From 4284606a5d03a9f25304fba6b15e4318ee416a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:15 +0000
Subject: [PATCH 13/23] fix: averaging reports a failure to close its databases

---
 libsrc/cencalvm/average/Averager.cc | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/libsrc/cencalvm/average/Averager.cc b/libsrc/cencalvm/average/Averager.cc
index 5aee64d..69335f8 100644
--- a/libsrc/cencalvm/average/Averager.cc
+++ b/libsrc/cencalvm/average/Averager.cc
@@ -132,8 +132,19 @@ cencalvm::average::Averager::average(void)
   if (!_quiet)
     engine.printOctantInfo();
 
-  etree_close(_dbIn); _dbIn = 0;
-  etree_close(_dbAvg); _dbAvg = 0;
+  const int errIn = etree_close(_dbIn); _dbIn = 0;
+  const int errAvg = etree_close(_dbAvg); _dbAvg = 0;
+  if (0 != errIn) {
+    std::ostringstream msg;
+    msg << "Could not close etree database '" << _filenameIn << "'.";
+    throw std::runtime_error(msg.str());
+  } // if
+  if (0 != errAvg) {
+    std::ostringstream msg;
+    msg << "Could not close averaged etree database '" << _filenameOut
+	<< "'.";
+    throw std::runtime_error(msg.str());
+  } // if
 } // average
   
 // version
-- 
2.43.0


From 2643f488257a8c826dd96728c275d4ea7e407064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:07 +0000
Subject: [PATCH 14/23] fix: a failure to close a new database is reported

---
 libsrc/cencalvm/create/VMCreator.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libsrc/cencalvm/create/VMCreator.cc b/libsrc/cencalvm/create/VMCreator.cc
index 9418afd..f62114e 100644
--- a/libsrc/cencalvm/create/VMCreator.cc
+++ b/libsrc/cencalvm/create/VMCreator.cc
@@ -102,7 +102,9 @@ cencalvm::create::VMCreator::closeDB(void)
     std::cout << "Closing database '" << _filename << "'." << std::endl;
 
   if (0 != _pDB) {
-    etree_close(_pDB); _pDB = 0;
+    const int err = etree_close(_pDB); _pDB = 0;
+    if (0 != err)
+      throw std::runtime_error("Could not close etree database.");
   } // if
 } // closeDB
 
-- 
2.43.0


From af783a9c024986e50d66a5d6ce26e4998e459cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:10 +0000
Subject: [PATCH 15/23] fix: inserting a point outside the domain is an error

---
 libsrc/cencalvm/create/VMCreator.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libsrc/cencalvm/create/VMCreator.cc b/libsrc/cencalvm/create/VMCreator.cc
index f62114e..30c2878 100644
--- a/libsrc/cencalvm/create/VMCreator.cc
+++ b/libsrc/cencalvm/create/VMCreator.cc
@@ -192,7 +192,12 @@ cencalvm::create::VMCreator::insert(const storage::PayloadStruct& payload,
   etree_addr_t addr;
   addr.level = pGeom->level(resHoriz);
   addr.type = ETREE_LEAF;
-  pGeom->lonLatElevToAddr(&addr, lon, lat, elev);
+  if (0 != pGeom->lonLatElevToAddr(&addr, lon, lat, elev)) {
+    std::ostringstream msg;
+    msg << "Location (" << lon << ", " << lat << ", " << elev
+	<< ") is outside the domain of the velocity model.";
+    throw std::runtime_error(msg.str());
+  } // if
 
   if (0 != etree_insert(_pDB, addr, &payload))
     throw std::runtime_error(etree_strerror(etree_errno(_pDB)));
-- 
2.43.0


From 9edf28529bc84e81a6e9c42cec0f7a5d89be8085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:10 +0000
Subject: [PATCH 16/23] fix: an unreadable grid header is an error

---
 libsrc/cencalvm/create/GridIngester.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/libsrc/cencalvm/create/GridIngester.cc b/libsrc/cencalvm/create/GridIngester.cc
index 3d3defa..0c0560d 100644
--- a/libsrc/cencalvm/create/GridIngester.cc
+++ b/libsrc/cencalvm/create/GridIngester.cc
@@ -163,12 +163,13 @@ cencalvm::create::GridIngester::_addGrid(VMCreator* pCreator,
     int numZ = 0;
     int numTotal = 0;
     fin >> resHoriz >> resVert >> numX >> numY >> numZ >> numTotal;
-    if (0.0 == resHoriz ||
-	0.0 == resVert) {
+    if (fin.fail() ||
+	!(resHoriz > 0.0) ||
+	!(resVert > 0.0)) {
       std::ostringstream msg;
       msg << "Could not read horizontal and vertical resolution in '"
 	  << filename << "'.";
-      std::runtime_error(msg.str());
+      throw std::runtime_error(msg.str());
     } // if
     // convert resHoriz and resVert from km to m
     resHoriz *= 1.0e+3;
-- 
2.43.0


From 273640ce353f68ddb2c0e90e7b7b6e4f6aabbc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:28 +0000
Subject: [PATCH 17/23] fix: the last grid file is ingested without a newline
 behind its name

---
 libsrc/cencalvm/create/GridIngester.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libsrc/cencalvm/create/GridIngester.cc b/libsrc/cencalvm/create/GridIngester.cc
index 0c0560d..a4f1eaf 100644
--- a/libsrc/cencalvm/create/GridIngester.cc
+++ b/libsrc/cencalvm/create/GridIngester.cc
@@ -116,7 +116,7 @@ cencalvm::create::GridIngester::_readParams(std::string** ppGridFilenames,
     assert(numGrids < capacity);
     std::string filename;
     fin >> filename;
-    if (fin.good())
+    if (!fin.fail())
       gridFilenames[numGrids++] = filename;
   } // while
 
-- 
2.43.0


From 8f313eebe32bb50b1a04258ef2e95dd0880b143c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:03 +0000
Subject: [PATCH 18/23] fix: cencalvmquery queries the last location without a
 newline behind it

---
 applications/query/cencalvmquery.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/applications/query/cencalvmquery.cc b/applications/query/cencalvmquery.cc
index 3618b33..11b0dfe 100644
--- a/applications/query/cencalvmquery.cc
+++ b/applications/query/cencalvmquery.cc
@@ -297,7 +297,7 @@ main(int argc,
 
   // Continue operating on locations until end of file, reading fails,
   // or writing fails
-  while (!fileIn.eof() && fileIn.good() && fileOut.good()) {
+  while (!fileIn.fail() && fileOut.good()) {
     // Query database
     query.query(&pVals, numVals, lon, lat, elev);
 
-- 
2.43.0


From b7fac0b828c2c9563b06326a73956333566bc079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:04 +0000
Subject: [PATCH 19/23] fix: cencalvmquery refuses a missing or zero query
 resolution

---
 applications/query/cencalvmquery.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/applications/query/cencalvmquery.cc b/applications/query/cencalvmquery.cc
index 11b0dfe..2daa4b9 100644
--- a/applications/query/cencalvmquery.cc
+++ b/applications/query/cencalvmquery.cc
@@ -252,7 +252,7 @@ main(int argc,
   if (0 == strcasecmp(queryType.c_str(), "maxres"))
     query.queryType(cencalvm::query::VMQuery::MAXRES);
   else {
-    if (queryRes < 0.0) {
+    if (!(queryRes > 0.0)) {
       std::cerr << "Query resolution must be a positive value.";
       usage();
       return 1;
-- 
2.43.0


From 020be52192585246667d587b0d2bdbd1da5f7054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:07 +0000
Subject: [PATCH 20/23] fix: cencalvmisosurface processes the last location
 without a newline behind it

---
 applications/query/cencalvmisosurface.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/applications/query/cencalvmisosurface.cc b/applications/query/cencalvmisosurface.cc
index a196d36..48b1217 100644
--- a/applications/query/cencalvmisosurface.cc
+++ b/applications/query/cencalvmisosurface.cc
@@ -385,7 +385,7 @@ main(int argc,
     
   // Continue operating on locations until end of file, reading fails,
   // or writing fails
-  while (!fileIn.eof() && fileIn.good() && fileOut.good()) {
+  while (!fileIn.fail() && fileOut.good()) {
 
     const double elevTopo = queryElev(&query, lon, lat);
     double elevUpper = (squashOn) ? 0.0 : elevTopo;
-- 
2.43.0


From 6ef6085c560bd9b0060d868c1dedf331e81d81f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:07 +0000
Subject: [PATCH 21/23] fix: cencalvmisosurface stops when the query cannot be
 set up

---
 applications/query/cencalvmisosurface.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/applications/query/cencalvmisosurface.cc b/applications/query/cencalvmisosurface.cc
index 48b1217..a875647 100644
--- a/applications/query/cencalvmisosurface.cc
+++ b/applications/query/cencalvmisosurface.cc
@@ -348,8 +348,9 @@ main(int argc,
   cencalvm::query::VMQuery query;
 
   const bool squashOn = squashLimit != squashDefault;
-  initialize(&query, filenameDB.c_str(), filenameDBExt.c_str(), 
-	     cacheSize, squashLimit, squashOn);
+  if (0 != initialize(&query, filenameDB.c_str(), filenameDBExt.c_str(), 
+		      cacheSize, squashLimit, squashOn))
+    return 1;
 
   // Open input file to read locations
   std::ifstream fileIn(filenameIn.c_str());
-- 
2.43.0


From 91cf40a6d5172f0007ab38b299ce7c9e803837bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:07 +0000
Subject: [PATCH 22/23] fix: cencalvmisosurface searches even a range of less
 than its resolution

---
 applications/query/cencalvmisosurface.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/applications/query/cencalvmisosurface.cc b/applications/query/cencalvmisosurface.cc
index a875647..797c100 100644
--- a/applications/query/cencalvmisosurface.cc
+++ b/applications/query/cencalvmisosurface.cc
@@ -267,8 +267,9 @@ searchVs(cencalvm::query::VMQuery* query,
 { // searchVs
   assert(0 != query);
 
+  const double range = elevLimitUpper - elevLimitLower;
   const int niters = 
-    int(1 + ceil(log( (elevLimitUpper - elevLimitLower) / 25.0) / log(2.0)));
+    (range > 25.0) ? int(1 + ceil(log(range / 25.0) / log(2.0))) : 1;
 
   const int numVals = 1;
   double* vals = (numVals > 0) ? new double[numVals] : 0;
-- 
2.43.0


From fd59c1ed35091f0b35cb16995aecb7d55eaf3fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:14 +0000
Subject: [PATCH 23/23] fix: isosurface depth when squashing is on

Queries are relative to the ground when squashing is on, but the stair-step
correction queried absolute elevations and the depth was computed as the
difference of an absolute and a relative elevation.
---
 applications/query/cencalvmisosurface.cc | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/applications/query/cencalvmisosurface.cc b/applications/query/cencalvmisosurface.cc
index 797c100..deda1ce 100644
--- a/applications/query/cencalvmisosurface.cc
+++ b/applications/query/cencalvmisosurface.cc
@@ -209,9 +209,12 @@ initialize(cencalvm::query::VMQuery* query,
 double
 queryElev(cencalvm::query::VMQuery* query,
 	  const double lon,
-	  const double lat)
+	  const double lat,
+	  const bool squashOn,
+	  double* pElevRef)
 { // queryElev
   assert(0 != query);
+  assert(0 != pElevRef);
 
   // Get handle to error handler
   cencalvm::storage::ErrorHandler* errHandler = query->errorHandler();
@@ -235,6 +238,10 @@ queryElev(cencalvm::query::VMQuery* query,
   query->query(&vals, numVals, lon, lat, -5.0e+3);
   double elev = vals[0];
   
+  // Elevations are relative to the surface when squashing is on
+  const double elevRef = (squashOn) ? elev : 0.0;
+  *pElevRef = elevRef;
+
   // Correct elevation for stair-stepping grid
   const char* valNames[] = { "Vs" };
   query->queryVals(valNames, numVals);
@@ -243,7 +250,7 @@ queryElev(cencalvm::query::VMQuery* query,
   const double dx = -12.5;
   for (int iter=0; iter < niters; ++iter) {
     const double elevQ = elev + iter*dx;
-    query->query(&vals, numVals, lon, lat, elevQ);
+    query->query(&vals, numVals, lon, lat, elevQ-elevRef);
     const double vs = vals[0];
     if (vs > 0.0) {
       elev = elevQ;
@@ -389,9 +396,10 @@ main(int argc,
   // or writing fails
   while (!fileIn.fail() && fileOut.good()) {
 
-    const double elevTopo = queryElev(&query, lon, lat);
-    double elevUpper = (squashOn) ? 0.0 : elevTopo;
-    double elevLower = (squashOn) ? -elevTopo+elevMin : elevMin;
+    double elevRef = 0.0;
+    const double elevTopo = queryElev(&query, lon, lat, squashOn, &elevRef);
+    double elevUpper = elevTopo - elevRef;
+    double elevLower = elevMin - elevRef;
     const double elevVs = searchVs(&query, vsTarget, lon, lat, elevUpper, elevLower);
 
     // If query generated a warning or error, dump message to std::cerr
@@ -403,7 +411,7 @@ main(int argc,
       errHandler->resetStatus();
     } // if
 
-    const double distIsosurf = (elevVs != 1.0e+6) ? elevTopo - elevVs : -999.0;
+    const double distIsosurf = (elevVs != 1.0e+6) ? elevUpper - elevVs : -999.0;
 
     // Write values returned by query to output file
     fileOut
-- 
2.43.0

