From 3cba28e4861a4ed22d54e91e8a979ea0efa00899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:51 +0000
Subject: [PATCH 01/16] fix: give every scalar member of the state and message
 types an initial value

---
 include/navigine/navigation-core/geolevel.h          |  2 +-
 include/navigine/navigation-core/location_point.h    |  4 ++--
 include/navigine/navigation-core/navigation_input.h  | 12 ++++++------
 include/navigine/navigation-core/navigation_output.h |  8 ++++----
 include/navigine/navigation-core/navigation_state.h  |  6 +++---
 include/navigine/navigation-core/reference_point.h   |  8 ++++----
 include/navigine/navigation-core/transmitter.h       |  8 ++++----
 src/measurements/measurement_preprocessor.h          |  2 +-
 src/position_postprocessor/position_smoother_ab.h    |  2 +-
 src/position_postprocessor/position_smoother_lstsq.h |  2 +-
 .../include/complementary_filter.h                   |  2 +-
 .../include/navigation_structures.h                  |  2 +-
 .../position_estimation/include/position_smoother.h  |  2 +-
 .../position_estimation/include/transmitter.h        |  6 +++---
 standalone_algorithms/trilateteration/src/beacon.cpp |  1 +
 15 files changed, 34 insertions(+), 33 deletions(-)

diff --git a/include/navigine/navigation-core/geolevel.h b/include/navigine/navigation-core/geolevel.h
index 268e018..3fb80e5 100644
--- a/include/navigine/navigation-core/geolevel.h
+++ b/include/navigine/navigation-core/geolevel.h
@@ -29,7 +29,7 @@ struct GeoLevel
   GeoReferencePoints referencePoints;
   LevelGeometry geometry;
   Graph<GeoPoint> graph;
-  double altitude;
+  double altitude = 0.0;
 };
 
 typedef std::vector<std::shared_ptr<GeoLevel> > GeoLevels;
diff --git a/include/navigine/navigation-core/location_point.h b/include/navigine/navigation-core/location_point.h
index 2fb1c1e..f2e854c 100644
--- a/include/navigine/navigation-core/location_point.h
+++ b/include/navigine/navigation-core/location_point.h
@@ -16,8 +16,8 @@ namespace navigation_core {
 struct LocationPoint
 {
   LevelId level;
-  double x;
-  double y;
+  double x = 0.0;
+  double y = 0.0;
 };
 
 typedef std::vector<LocationPoint> PolyLine;
diff --git a/include/navigine/navigation-core/navigation_input.h b/include/navigine/navigation-core/navigation_input.h
index 3859486..1e589da 100644
--- a/include/navigine/navigation-core/navigation_input.h
+++ b/include/navigine/navigation-core/navigation_input.h
@@ -21,8 +21,8 @@ namespace navigation_core {
 template <typename MeasurementData>
 struct MeasurementDataWithTimeStamp
 {
-  MeasurementData data;
-  long long ts;
+  MeasurementData data = {};
+  long long ts = 0;
 };
 
 struct RadioMeasurementData
@@ -35,7 +35,7 @@ struct RadioMeasurementData
     WIFI_RTT
   };
 
-  Type type;
+  Type type = Type::WIFI;
   TransmitterId id;
   double rssi = 0;
   double power = 0;
@@ -54,14 +54,14 @@ struct SensorMeasurementData
     ORIENTATION
   };
 
-  Type       type;
+  Type       type = Type::ACCELEROMETER;
   Vector3d   values;
 };
 
 struct NmeaMeasurementData
 {
-  int sentenceNumber;
-  int satellitesNumber;
+  int sentenceNumber = 0;
+  int satellitesNumber = 0;
 };
 
 using RadioMeasurementsData = std::vector<RadioMeasurementData>;
diff --git a/include/navigine/navigation-core/navigation_output.h b/include/navigine/navigation-core/navigation_output.h
index 17edabe..f0c3240 100644
--- a/include/navigine/navigation-core/navigation_output.h
+++ b/include/navigine/navigation-core/navigation_output.h
@@ -24,15 +24,15 @@ enum class Provider { GNSS, INDOOR, FUSED, NONE };
 
 struct NavigationOutput
 {
-  NavigationStatus status;
+  NavigationStatus status = NAVIGATION_ERROR;
 
   LevelId posLevel;       // Level identifier
   double posLatitude = 0.0;
   double posLongitude = 0.0;
   double posAltitude = 0.0;
-  double posR;           // Output radius (meters)
-  double posOrientation; // Output orientation in radians (clockwise)
-  Provider provider;
+  double posR = 0.0;           // Output radius (meters)
+  double posOrientation = 0.0; // Output orientation in radians (clockwise)
+  Provider provider = Provider::NONE;
 };
 
 } } // namespace navigine::navigation_core
diff --git a/include/navigine/navigation-core/navigation_state.h b/include/navigine/navigation-core/navigation_state.h
index ab90ba2..82eca90 100644
--- a/include/navigine/navigation-core/navigation_state.h
+++ b/include/navigine/navigation-core/navigation_state.h
@@ -60,9 +60,9 @@ class NavigationState
     RadioMeasurementsData        mMeasurements;
     std::vector<XYParticle>  mLikelihoodMapPoints;
     std::vector<double>      mLikelihoodMapWeights;
-    double                   mHeading;
-    double                   mStepLen;
-    int                      mStepCounter;
+    double                   mHeading = 0;
+    double                   mStepLen = 0;
+    int                      mStepCounter = 0;
     XYPoint                  mIndoorPosition;
     XYPoint                  mOutdoorPosition;
 };
diff --git a/include/navigine/navigation-core/reference_point.h b/include/navigine/navigation-core/reference_point.h
index a80ae7f..2aaa61d 100644
--- a/include/navigine/navigation-core/reference_point.h
+++ b/include/navigine/navigation-core/reference_point.h
@@ -17,10 +17,10 @@ namespace navigation_core {
 
 struct SignalStatistics
 {
-  TransmitterType type;
-  double mean;
-  double variance;
-  size_t nMeasurements;
+  TransmitterType type = TransmitterType::UNKNOWN;
+  double mean = 0.0;
+  double variance = 0.0;
+  size_t nMeasurements = 0;
 
   void addMeasurement(double meas);
 };
diff --git a/include/navigine/navigation-core/transmitter.h b/include/navigine/navigation-core/transmitter.h
index 5e4db4f..3289426 100644
--- a/include/navigine/navigation-core/transmitter.h
+++ b/include/navigine/navigation-core/transmitter.h
@@ -11,9 +11,9 @@ namespace navigation_core {
 
 struct PathlossModel
 {
-  double A;
-  double B;
-  double power;
+  double A = 0.0;
+  double B = 0.0;
+  double power = 0.0;
 
   inline double operator()(double r) const {
     static constexpr double MIN_DISTANCE = 0.01;
@@ -40,7 +40,7 @@ struct Transmitter
   TransmitterId id;
   Point point;
   PathlossModel pathlossModel;
-  TransmitterType type;
+  TransmitterType type = TransmitterType::UNKNOWN;
 
   bool operator== (const Transmitter& tx)const { return id == tx.id; }
   bool operator<  (const Transmitter& tx)const { return id < tx.id; }
diff --git a/src/measurements/measurement_preprocessor.h b/src/measurements/measurement_preprocessor.h
index bdb58f6..145238b 100644
--- a/src/measurements/measurement_preprocessor.h
+++ b/src/measurements/measurement_preprocessor.h
@@ -83,7 +83,7 @@ class MeasurementsPreprocessor: public boost::static_visitor<>
     const bool mUseWifi;
     const bool mUseBle;
     const bool mIsTracking;
-    long long mLastSignalTs;
+    long long mLastSignalTs = 0;
 
     RadioMeasurementBuffer mRadiosBuffer;
     long long mCurrentTs;
diff --git a/src/position_postprocessor/position_smoother_ab.h b/src/position_postprocessor/position_smoother_ab.h
index 200c620..3e679a4 100644
--- a/src/position_postprocessor/position_smoother_ab.h
+++ b/src/position_postprocessor/position_smoother_ab.h
@@ -23,7 +23,7 @@ class PositionSmootherAB: public PositionSmoother
     double mAlpha = 0.0;
 
     Position mPosition;
-    long long mTsMs;
+    long long mTsMs = 0;
 };
 
 } } // namespace navigine::navigation_core
diff --git a/src/position_postprocessor/position_smoother_lstsq.h b/src/position_postprocessor/position_smoother_lstsq.h
index 7310b86..6f18179 100644
--- a/src/position_postprocessor/position_smoother_lstsq.h
+++ b/src/position_postprocessor/position_smoother_lstsq.h
@@ -22,7 +22,7 @@ class PositionSmootherLstsq: public PositionSmoother
     bool mUseBarriers;
     PolynomialFit mPolyFitX;
     PolynomialFit mPolyFitY;
-    long long mStartTime;
+    long long mStartTime = 0;
 };
 
 } } // namespace navigine::navigation_core
diff --git a/standalone_algorithms/complementary_filter/include/complementary_filter.h b/standalone_algorithms/complementary_filter/include/complementary_filter.h
index 0a72253..c1623df 100644
--- a/standalone_algorithms/complementary_filter/include/complementary_filter.h
+++ b/standalone_algorithms/complementary_filter/include/complementary_filter.h
@@ -10,7 +10,7 @@ struct SensorMeasurement
 {
   enum class Type { ACCELEROMETER, MAGNETOMETER, GYROSCOPE, BAROMETER, LOCATION, ORIENTATION};
 
-  Type        type;
+  Type        type    = Type::ACCELEROMETER;
   long long   ts      = -1;
   Vector3d    values  = Vector3d();
 };
diff --git a/standalone_algorithms/position_estimation/include/navigation_structures.h b/standalone_algorithms/position_estimation/include/navigation_structures.h
index 80b6ead..160a7e6 100644
--- a/standalone_algorithms/position_estimation/include/navigation_structures.h
+++ b/standalone_algorithms/position_estimation/include/navigation_structures.h
@@ -33,7 +33,7 @@ struct RadioMeasurement
 {
   enum class Type {WIFI, BEACON};
 
-  Type            type;    
+  Type            type        = Type::WIFI;
   long long       ts          = 0;
   std::string     id          = "";   // Entry id (bssid, mac, major+minor+uuid)
   double          rssi        = 0;
diff --git a/standalone_algorithms/position_estimation/include/position_smoother.h b/standalone_algorithms/position_estimation/include/position_smoother.h
index db54733..fda8ff9 100644
--- a/standalone_algorithms/position_estimation/include/position_smoother.h
+++ b/standalone_algorithms/position_estimation/include/position_smoother.h
@@ -18,7 +18,7 @@ class PositionSmoother
     double          mAlpha     = 0.0;
 
     Position        mPosition;
-    long long       mTsMs;
+    long long       mTsMs      = 0;
 };
 
 } } // namespace navigine::navigation_core
diff --git a/standalone_algorithms/position_estimation/include/transmitter.h b/standalone_algorithms/position_estimation/include/transmitter.h
index 3924be3..e149254 100644
--- a/standalone_algorithms/position_estimation/include/transmitter.h
+++ b/standalone_algorithms/position_estimation/include/transmitter.h
@@ -11,9 +11,9 @@ struct Transmitter
     enum class Type { WIFI, BEACON };
 
     std::string  id;
-    double  x;
-    double  y;
-    Type  type;
+    double  x = 0.0;
+    double  y = 0.0;
+    Type  type = Type::WIFI;
 
     bool operator<  (const Transmitter& tx)const { return id < tx.id; }
 };
diff --git a/standalone_algorithms/trilateteration/src/beacon.cpp b/standalone_algorithms/trilateteration/src/beacon.cpp
index 9482fea..ac672a9 100644
--- a/standalone_algorithms/trilateteration/src/beacon.cpp
+++ b/standalone_algorithms/trilateteration/src/beacon.cpp
@@ -173,6 +173,7 @@ void IBeacon::setUuid( const char * uuid )
 BeaconMeas::BeaconMeas()
 : mBeaconPtr (0)
 , mRssi      (TRANSMITTER_POINT_UNUSED)
+, mDistance  (0.)
 {
 
 }
-- 
2.43.0


From 273da16f0f921f70f270daa09a81a6d8a1d2b5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:43 +0000
Subject: [PATCH 02/16] fix: average the k heaviest reference points instead of
 an empty range

---
 src/knn/knn_utils.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/knn/knn_utils.cpp b/src/knn/knn_utils.cpp
index 1c40fc6..e529252 100644
--- a/src/knn/knn_utils.cpp
+++ b/src/knn/knn_utils.cpp
@@ -354,8 +354,7 @@ XYPoint calcKHeaviestRefPointsAverage(const Radiomap& radiomap,
                                      size_t k)
 {
   k = std::min(k, rpToWeight.size());
-  std::vector<std::pair<ReferencePointId, double>> kHeaviestPoints;
-  kHeaviestPoints.reserve(k);
+  std::vector<std::pair<ReferencePointId, double>> kHeaviestPoints(k);
   std::partial_sort_copy(
       rpToWeight.begin(), rpToWeight.end(),
       kHeaviestPoints.begin(), kHeaviestPoints.end(),
-- 
2.43.0


From 95a0f122b161564e74e0a0a210ef518bb0c0d7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:43 +0000
Subject: [PATCH 03/16] fix: triangulate the remaining levels when one level
 can not be triangulated

---
 src/knn/knn_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/knn/knn_utils.cpp b/src/knn/knn_utils.cpp
index e529252..ff68636 100644
--- a/src/knn/knn_utils.cpp
+++ b/src/knn/knn_utils.cpp
@@ -55,7 +55,7 @@ std::map<LevelId, std::vector<RefPointsTriangle>> triangulate(const std::shared_
       if (triangles.empty())
       {
         // triangulation failed!
-        return levelTriangles;
+        continue;
       }
 #ifdef DEBUG_OUTPUT_TRIANGULATION
       std::ofstream debugOs;
-- 
2.43.0


From ef371cf3abb1dedee361702bbf677886eab51047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:43 +0000
Subject: [PATCH 04/16] fix: misplaced parenthesis in the vertical offset of
 calculateAltitude

---
 src/trilateration.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trilateration.cpp b/src/trilateration.cpp
index f55ee26..5bff23c 100644
--- a/src/trilateration.cpp
+++ b/src/trilateration.cpp
@@ -104,7 +104,7 @@ boost::optional<double> Trilateration::calculateAltitude(const Level& level, con
     for (const auto& msr : radioMsrs)
     {
       Transmitter<XYZPoint> tx = level.transmitter(msr.id);
-      double deltaZ = std::sqrt(pow(msr.distance, 2) - pow((x - tx.point.x), 2 - pow((y - tx.point.y), 2)));
+      double deltaZ = std::sqrt(pow(msr.distance, 2) - pow((x - tx.point.x), 2) - pow((y - tx.point.y), 2));
       if (!std::isnan(deltaZ))
       {
         nanFlag = false;
-- 
2.43.0


From 85715c2f2bc7a53e27d2cc3bf15427c8a3ea68f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:43 +0000
Subject: [PATCH 05/16] fix: do not pop from the empty buffer when the sigma
 filter window is zero

---
 src/position_estimator/position_estimator_outdoor.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/position_estimator/position_estimator_outdoor.cpp b/src/position_estimator/position_estimator_outdoor.cpp
index aba6627..061779c 100644
--- a/src/position_estimator/position_estimator_outdoor.cpp
+++ b/src/position_estimator/position_estimator_outdoor.cpp
@@ -11,6 +11,9 @@ namespace navigation_core {
 
 bool SigmaFilter::add(const XYPoint& point)
 {
+  if (mSigmaWindow == 0)
+    return true; // nothing is kept, so there is nothing to compare with
+
   bool pntValid = false;
   if (mGNSSbuffer.size() == mSigmaWindow) {
     double sumX = 0;
-- 
2.43.0


From b70bd1d9507faea5f5cbec4752caed3e9d6f5ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:43 +0000
Subject: [PATCH 06/16] fix: to_minus_Pi_Pi never returned for huge or infinite
 angles

---
 src/sensor_fusion/complementary_filter.cpp                       | 1 +
 .../complementary_filter/src/complementary_filter.cpp            | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/sensor_fusion/complementary_filter.cpp b/src/sensor_fusion/complementary_filter.cpp
index b0f74c5..f432352 100644
--- a/src/sensor_fusion/complementary_filter.cpp
+++ b/src/sensor_fusion/complementary_filter.cpp
@@ -17,6 +17,7 @@ static const double LPF_TIME_CONSTANT_SEC   = 1.0;
 
 double to_minus_Pi_Pi(double x)
 {
+  x = std::fmod(x, 2 * M_PI);
   while ( x >= M_PI ) x -= 2 * M_PI;
   while ( x < -M_PI ) x += 2 * M_PI;
   return x;
diff --git a/standalone_algorithms/complementary_filter/src/complementary_filter.cpp b/standalone_algorithms/complementary_filter/src/complementary_filter.cpp
index 3fc0d15..c7e9200 100644
--- a/standalone_algorithms/complementary_filter/src/complementary_filter.cpp
+++ b/standalone_algorithms/complementary_filter/src/complementary_filter.cpp
@@ -9,6 +9,7 @@ static const double DOUBLE_EPSILON          = 1e-8;
 
 double to_minus_Pi_Pi(double x)
 {
+  x = std::fmod(x, 2 * M_PI);
   while ( x >= M_PI ) x -= 2 * M_PI;
   while ( x < -M_PI ) x += 2 * M_PI;
   return x;
-- 
2.43.0


From 198895fa2cc4dc1a92584b15c2a474638648d625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:43 +0000
Subject: [PATCH 07/16] fix: decode eddystone messages (type 204) as EDDYSTONE,
 not WIFI

---
 tools/verification/helpers.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tools/verification/helpers.cpp b/tools/verification/helpers.cpp
index 73ebe23..2a8da4b 100644
--- a/tools/verification/helpers.cpp
+++ b/tools/verification/helpers.cpp
@@ -22,6 +22,7 @@ NLOHMANN_JSON_SERIALIZE_ENUM(navigine::navigation_core::RadioMeasurementData::Ty
   {navigine::navigation_core::RadioMeasurementData::Type::WIFI, 201},
   {navigine::navigation_core::RadioMeasurementData::Type::BEACON, 203},
   {navigine::navigation_core::RadioMeasurementData::Type::BLUETOOTH, 202},
+  {navigine::navigation_core::RadioMeasurementData::Type::EDDYSTONE, 204},
   {navigine::navigation_core::RadioMeasurementData::Type::WIFI_RTT, 205}
 })
 
-- 
2.43.0


From 83554217db8296b084c854c83176e3ea54bb61d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:43 +0000
Subject: [PATCH 08/16] fix: decode the documented power and stddev fields of
 radio messages

---
 tools/verification/helpers.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tools/verification/helpers.cpp b/tools/verification/helpers.cpp
index 2a8da4b..62c830a 100644
--- a/tools/verification/helpers.cpp
+++ b/tools/verification/helpers.cpp
@@ -86,6 +86,12 @@ static void from_json(const nlohmann::json& j, RadioMeasurementData& radioMsr)
 
   if (j.count("distance"))
     j.at("distance").get_to(radioMsr.distance);
+
+  if (j.count("power"))
+    j.at("power").get_to(radioMsr.power);
+
+  if (j.count("stddev"))
+    j.at("stddev").get_to(radioMsr.stddev);
 }
 
 static void from_json(const nlohmann::json& j, NmeaMeasurementData& nmeaMsr)
-- 
2.43.0


From b89783dafe05b7425f586c77419c22ae201db1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:43 +0000
Subject: [PATCH 09/16] fix: store the averaged distance of duplicate beacon
 measurements

---
 standalone_algorithms/trilateteration/src/trilateration.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/standalone_algorithms/trilateteration/src/trilateration.cpp b/standalone_algorithms/trilateteration/src/trilateration.cpp
index e6d2ede..83f8d8a 100644
--- a/standalone_algorithms/trilateteration/src/trilateration.cpp
+++ b/standalone_algorithms/trilateteration/src/trilateration.cpp
@@ -264,6 +264,7 @@ int Trilateration::deleteDuplicateMeasurements( vector<BeaconMeas>& beaconMeas )
     distance /= (std::max)(nOfMeasFromSameAp, 1);
      
     itBeaconMeas->setRssi( rssi );
+    itBeaconMeas->setDistance( distance );
   }
 
   if (beaconMeas.size() < 3)
-- 
2.43.0


From e0e52d557f43867d6617f4dc3a1354b9ae06596f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:43 +0000
Subject: [PATCH 10/16] fix: do not add a new trilateration result on top of
 the previous one

---
 standalone_algorithms/trilateteration/src/trilateration.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/standalone_algorithms/trilateteration/src/trilateration.cpp b/standalone_algorithms/trilateteration/src/trilateration.cpp
index 83f8d8a..891ad14 100644
--- a/standalone_algorithms/trilateteration/src/trilateration.cpp
+++ b/standalone_algorithms/trilateteration/src/trilateration.cpp
@@ -173,6 +173,7 @@ void Trilateration::printXyToFile( char* filename ) const
 
 int Trilateration::calculateTrilaterationCoordinates()
 {
+  mXY.assign( 2, 0.0 );
   double normalizeCoefficient = 0.0;
   //take revert values, because lower is the distance, greater the weight gets
   for (unsigned int i = 0; i < mBeaconMeas.size(); i++)
-- 
2.43.0


From 66e95e4d2496e5cdc21d39571075320531b0c278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:43 +0000
Subject: [PATCH 11/16] fix: do not write through a null FILE in printXyToFile

---
 standalone_algorithms/trilateteration/src/trilateration.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/standalone_algorithms/trilateteration/src/trilateration.cpp b/standalone_algorithms/trilateteration/src/trilateration.cpp
index 891ad14..15ad6c7 100644
--- a/standalone_algorithms/trilateteration/src/trilateration.cpp
+++ b/standalone_algorithms/trilateteration/src/trilateration.cpp
@@ -166,6 +166,8 @@ void Trilateration::printXyToFile( char* filename ) const
 {
   FILE *f;
   f = fopen( filename, "w" );
+  if (f == NULL)
+    return;
   fprintf( f, "%lf %lf \n", mXY[ 0 ], mXY[ 1 ] );
   fclose( f );
 }
-- 
2.43.0


From a1fc9343319938157b791b0ed75c2c83048766a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:52 +0000
Subject: [PATCH 12/16] fix: setErrorMessage appended to the messages of all
 earlier errors without bound

---
 standalone_algorithms/trilateteration/src/trilateration.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/standalone_algorithms/trilateteration/src/trilateration.cpp b/standalone_algorithms/trilateteration/src/trilateration.cpp
index 15ad6c7..79c80a7 100644
--- a/standalone_algorithms/trilateteration/src/trilateration.cpp
+++ b/standalone_algorithms/trilateteration/src/trilateration.cpp
@@ -407,7 +407,7 @@ void Trilateration::solveLinearSystem( vector<double> matrixA,
 
 void Trilateration::setErrorMessage(const char* errorMsg )
 {
-  Trilateration::mErrorMessage += errorMsg;
+  Trilateration::mErrorMessage = errorMsg;
 }
 
 
-- 
2.43.0


From f726510f9f25707894dccb875edefbe09626aab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:51 +0000
Subject: [PATCH 13/16] fix: report the time of the last motion after the step
 itself, the no-action rule needs it

---
 src/sensor_fusion/sensor_fusion.cpp | 3 ++-
 src/sensor_fusion/sensor_fusion.h   | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sensor_fusion/sensor_fusion.cpp b/src/sensor_fusion/sensor_fusion.cpp
index a419761..517d95e 100644
--- a/src/sensor_fusion/sensor_fusion.cpp
+++ b/src/sensor_fusion/sensor_fusion.cpp
@@ -44,10 +44,11 @@ MotionInfo SensorFusion::calculateDisplacement(const SensorMeasurement& msr, lon
     motionInfo.distance     = std::accumulate(steps.begin(), steps.end(), 0.0,
                                 [](double sum, const Step& s) { return sum + s.len; });
     motionInfo.distance    *= mStepMultiplier;
-    motionInfo.lastMotionTs = tsMs;
+    mLastMotionTs           = tsMs;
     mStepCounter           += steps.size();
     motionInfo.stepCounter  = mStepCounter;
   }
+  motionInfo.lastMotionTs = mLastMotionTs;
 
   return motionInfo;
 }
diff --git a/src/sensor_fusion/sensor_fusion.h b/src/sensor_fusion/sensor_fusion.h
index 9cc56b2..9354d85 100644
--- a/src/sensor_fusion/sensor_fusion.h
+++ b/src/sensor_fusion/sensor_fusion.h
@@ -32,6 +32,7 @@ private:
   Pedometer mPedometer;
   int mStepCounter = 0;
   double mPrevHeading = 0.0;
+  long long mLastMotionTs = 0;
 };
 
 } } // namespace navigine::navigation_core
-- 
2.43.0


From 613b6d1d999980d7229691e9013ca621d379a263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:51 +0000
Subject: [PATCH 14/16] fix: compare stored and measured signals by their
 difference without diff mode

---
 src/knn/knn_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/knn/knn_utils.cpp b/src/knn/knn_utils.cpp
index ff68636..7e631f8 100644
--- a/src/knn/knn_utils.cpp
+++ b/src/knn/knn_utils.cpp
@@ -254,7 +254,7 @@ std::map<ReferencePointId, double> calcRpWeightsKnn(
       {
         double apW = trWeights[it1->txId];
         rpNormalize[rpId] += apW;
-        double weight = std::max(fabs(it1->rssiDatabase + it1->rssiMeasured) * apW, MIN_RP_WEIGHT);
+        double weight = std::max(fabs(fabs(it1->rssiDatabase) - fabs(it1->rssiMeasured)) * apW, MIN_RP_WEIGHT);
         rpWeights[rpId] += weight;
       }
     }
-- 
2.43.0


From 13b5e1ad74358ac376e44809715e59b87db39497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:13 +0000
Subject: [PATCH 15/16] fix: positioning on a level without fingerprints threw
 out_of_range

---
 src/knn/knn_utils.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/knn/knn_utils.cpp b/src/knn/knn_utils.cpp
index 7e631f8..5d4bd43 100644
--- a/src/knn/knn_utils.cpp
+++ b/src/knn/knn_utils.cpp
@@ -121,6 +121,7 @@ std::map<LevelId, std::set<TransmitterId>> getLevelReferenceTransmittersMap(cons
   for (const auto& level : levelCollector->levels())
   {
     const LevelId levelId = level.id();
+    levelTransmitters[levelId]; // a level without fingerprints has an empty set
     for (const ReferencePoint<XYPoint>& rp : level.radiomap().referencePoints())
     {
       const std::map<TransmitterId, SignalStatistics>& rpFingerprint = rp.fingerprints;
-- 
2.43.0


From 070d3ea5deb9b774e27e3c23ab0830ede08ecda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:13 +0000
Subject: [PATCH 16/16] fix: reject satellite fixes less accurate than the
 accepted maximum

---
 src/position_estimator/position_estimator_outdoor.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/position_estimator/position_estimator_outdoor.cpp b/src/position_estimator/position_estimator_outdoor.cpp
index 061779c..0cb3a42 100644
--- a/src/position_estimator/position_estimator_outdoor.cpp
+++ b/src/position_estimator/position_estimator_outdoor.cpp
@@ -113,6 +113,9 @@ Position PositionEstimatorOutdoor::calculatePosition(
         return mLastGpsPosition;
   }
 
+  if (gpsPos.deviation > mMaxGpsDeviation)
+    return Position(); // too inaccurate to be accepted
+
   //TODO find map closest to previous position (at least check if inside)!!!!
   for (const Level& level: mLevelIndex->levels())
   {
-- 
2.43.0

