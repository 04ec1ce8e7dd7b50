From d00533fe293725e412c856567302edfb8d99a7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:10 +0000
Subject: [PATCH 01/24] fix: UTCTime <= and >= compare nanoseconds when the
 seconds are equal

---
 common/utctime.cxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/common/utctime.cxx b/common/utctime.cxx
index ea2fcf5..8574771 100644
--- a/common/utctime.cxx
+++ b/common/utctime.cxx
@@ -28,8 +28,8 @@ bool UTCTime::operator>(const UTCTime& other) const
 }
 bool UTCTime::operator>=(const UTCTime& other) const
 {
-    return (sec >= other.sec) ? true
-                              : (sec < other.sec) ? false : (nsec >= other.nsec) ? true : false;
+    return (sec > other.sec) ? true
+                             : (sec < other.sec) ? false : (nsec >= other.nsec) ? true : false;
 }
 bool UTCTime::operator<(const UTCTime& other) const
 {
@@ -38,8 +38,8 @@ bool UTCTime::operator<(const UTCTime& other) const
 }
 bool UTCTime::operator<=(const UTCTime& other) const
 {
-    return (sec <= other.sec) ? true
-                              : (sec > other.sec) ? false : (nsec <= other.nsec) ? true : false;
+    return (sec < other.sec) ? true
+                             : (sec > other.sec) ? false : (nsec <= other.nsec) ? true : false;
 }
 
 bool UTCTime::operator==(const UTCTime& other) const
-- 
2.43.0


From 6bc0368c69ec3e216fcb64d7a5cd40d23532174e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:10 +0000
Subject: [PATCH 02/24] fix: GNSS week/time-of-week conversion: milliseconds
 scale and int overflow of week seconds

---
 common/utctime.cxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/common/utctime.cxx b/common/utctime.cxx
index 8574771..50d0d35 100644
--- a/common/utctime.cxx
+++ b/common/utctime.cxx
@@ -199,8 +199,8 @@ UTCTime UTCTime::now()
 UTCTime UTCTime::fromGPS(int week, int tow_ms)
 {
     UTCTime out;
-    out.sec = week * SEC_IN_WEEK + tow_ms / 1000 + GPS_UTC_OFFSET;
-    out.nsec = (tow_ms % 1000) * E9;
+    out.sec = int64_t(week) * SEC_IN_WEEK + tow_ms / 1000 + GPS_UTC_OFFSET;
+    out.nsec = (tow_ms % 1000) * E6;
     out.wrapNsec();
     return out;
 }
@@ -237,8 +237,8 @@ UTCTime UTCTime::fromGalileo(int week, int tow_ms)
 UTCTime UTCTime::fromGlonass(int week, int tow_ms)
 {
     UTCTime out;
-    out.sec = int64_t(week * SEC_IN_WEEK) + tow_ms / 1000 + GLO_UTC_OFFSET;
-    out.nsec = (tow_ms % 1000) * E9;
+    out.sec = int64_t(week) * SEC_IN_WEEK + tow_ms / 1000 + GLO_UTC_OFFSET;
+    out.nsec = (tow_ms % 1000) * E6;
     out.wrapNsec();
     return out;
 }
-- 
2.43.0


From 0b144f03e06d10d5ae9209b54ae13443ed355e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:10 +0000
Subject: [PATCH 03/24] fix: UTCTime constructors keep nsec in [0, 1e9) for
 negative inputs and for seconds just below an integer

---
 common/utctime.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/common/utctime.h b/common/utctime.h
index 0f239ae..18ed7b9 100644
--- a/common/utctime.h
+++ b/common/utctime.h
@@ -49,11 +49,12 @@ class UTCTime
     static constexpr int BD_UTC_OFFSET = GPS_UTC_OFFSET + GPS_BEIDOU_OFFSET;
 
     constexpr UTCTime(const int64_t _sec, const int64_t _nsec)
-        : sec(_sec + _nsec / E9), nsec(_nsec % E9)
+        : sec(_sec + _nsec / E9 - (_nsec % E9 < 0 ? 1 : 0)),
+          nsec(_nsec % E9 + (_nsec % E9 < 0 ? E9 : 0))
     {
     }
 
-    constexpr UTCTime(const double _sec) : sec((int64_t)_sec), nsec((int64_t)(_sec * E9) % E9) {}
+    constexpr UTCTime(const double _sec) : UTCTime((int64_t)0, (int64_t)(_sec * E9)) {}
 
     UTCTime();
 
-- 
2.43.0


From 3aae899d9b0fe2ed2996853d8a6f6be1e25fb33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:10 +0000
Subject: [PATCH 04/24] fix: fromGlonassTimeOfDay returns the closest time
 across midnight, as documented

---
 common/utctime.cxx | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/common/utctime.cxx b/common/utctime.cxx
index 50d0d35..b6613cc 100644
--- a/common/utctime.cxx
+++ b/common/utctime.cxx
@@ -213,6 +213,17 @@ UTCTime UTCTime::fromGlonassTimeOfDay(const UTCTime& ref, int tod_ms)
     int glonass_tow_ms = (glonass_day * SEC_IN_DAY) * 1000 + tod_ms;
 
     UTCTime out = UTCTime::fromGlonass(glonass_week, glonass_tow_ms);
+
+    // ref and the requested time of day may lie on different sides of midnight
+    const UTCTime dt = out - ref;
+    if (dt.sec >= SEC_IN_DAY / 2)
+    {
+        out -= SEC_IN_DAY;
+    }
+    else if (dt.sec < -SEC_IN_DAY / 2)
+    {
+        out += SEC_IN_DAY;
+    }
     return out;
 }
 
-- 
2.43.0


From cea302a9bfa3ae371d6bcf366e3ea251317beb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:15 +0000
Subject: [PATCH 05/24] fix: DQuat eight-argument constructor binds its real
 and dual parts to its own storage

---
 common/math/dquat.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/math/dquat.h b/common/math/dquat.h
index dc77701..8582457 100644
--- a/common/math/dquat.h
+++ b/common/math/dquat.h
@@ -81,8 +81,9 @@ class DQuat
           const T& dx,
           const T& dy,
           const T& dz)
-        : buf_{rw, rx, ry, rz, dw, dx, dy, dz}, arr_(buf_)
+        : DQuat(buf_)
     {
+        arr_ << rw, rx, ry, rz, dw, dx, dy, dz;
     }
 
     DQuat(const Eigen::Ref<const Vec8> arr) : DQuat(arr.data()) {}
-- 
2.43.0


From cec88ce5bd04c5e187888574da3040de2c28e1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:16 +0000
Subject: [PATCH 06/24] fix: GPS ephemeris is complete only when subframes 1-3
 carry one issue of data

---
 common/ephemeris/gps.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/ephemeris/gps.cxx b/common/ephemeris/gps.cxx
index f5b44df..f0f6681 100644
--- a/common/ephemeris/gps.cxx
+++ b/common/ephemeris/gps.cxx
@@ -96,6 +96,7 @@ bool GPSEphemeris::parse(const uint8_t* buf, size_t size)
 
     // Reset synchronization
     iode1 = iode2 = iode3 = 0;
+    collected_subframes = 0;
 
     return true;
 }
@@ -178,7 +179,6 @@ bool GPSEphemeris::frame3(const uint8_t* buf)
     iode3 = getBit<8>(buf, 216);
     idot = getBit<14, Signed>(buf, 224) * P2_43 * PI;
 
-    iode3 = iode;
     collected_subframes |= FRAME3;
 
     return true;
-- 
2.43.0


From c4bed29e72a033c54c1ba384c11479ed2f386671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:17 +0000
Subject: [PATCH 07/24] fix: Galileo page parser checks the page size and reads
 the data validity bits of word 5 from bits 71 and 72

---
 common/ephemeris/galileo.cxx | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/common/ephemeris/galileo.cxx b/common/ephemeris/galileo.cxx
index 817f3d7..ee4f62f 100644
--- a/common/ephemeris/galileo.cxx
+++ b/common/ephemeris/galileo.cxx
@@ -47,7 +47,12 @@ double GalileoEphemeris::getWavelength(int frequency) const
 
 bool GalileoEphemeris::parse(const uint8_t* msg, size_t size)
 {
-    (void)size;
+    if (size < 32)
+    {
+        dbg("Incomplete Galileo page");
+        return false;
+    }
+
     // swap buffer endianness
     uint8_t buf[64];
     const uint8_t* p = msg;
@@ -277,8 +282,8 @@ bool GalileoEphemeris::frame5(const uint8_t* buf)
     bgd_e1_e5b = getBit<10, Signed>(buf, 57) * P2_32;
     e5b_hs = getBit<2>(buf, 67);
     e1b_hs = getBit<2>(buf, 69);
-    e5b_dvs = getBit<1>(buf, 70);
-    e1b_dvs = getBit<1>(buf, 71);
+    e5b_dvs = getBit<1>(buf, 71);
+    e1b_dvs = getBit<1>(buf, 72);
     // week = getBit<12>(buf, 72);
     // tow = getBit<20>(buf, 84); // Use frame 0 for time
 
-- 
2.43.0


From a55b8581cfce1f9eb9bd42c9d50c97c36098e22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:17 +0000
Subject: [PATCH 08/24] fix: Galileo word 4 of another satellite leaves the
 ephemeris unchanged

---
 common/ephemeris/galileo.cxx | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/common/ephemeris/galileo.cxx b/common/ephemeris/galileo.cxx
index ee4f62f..e956432 100644
--- a/common/ephemeris/galileo.cxx
+++ b/common/ephemeris/galileo.cxx
@@ -252,8 +252,13 @@ bool GalileoEphemeris::frame3(const uint8_t* buf)
 bool GalileoEphemeris::frame4(const uint8_t* buf)
 {
     int type = getBit<6>(buf, 0);
-    iod[3] = getBit<10>(buf, 6);
     int svid = getBit<6>(buf, 16);
+    if (svid != sat)
+    {
+        dbg("Galileo satellite id doesn't match: expected {}, got {}", fmt(sat, svid));
+        return false;
+    }
+    iod[3] = getBit<10>(buf, 6);
     cic = getBit<16, Signed>(buf, 22) * P2_29;
     cis = getBit<16, Signed>(buf, 38) * P2_29;
     tocs = getBit<14>(buf, 54) * 60.0;
@@ -266,11 +271,6 @@ bool GalileoEphemeris::frame4(const uint8_t* buf)
         dbg("Galileo word type 4 error : expected=4, got {}", fmt(type));
         return false;
     }
-    if (svid != sat)
-    {
-        dbg("Galileo satellite id doesn't match: expected {}, got {}", fmt(sat, svid));
-        return false;
-    }
     collected_subframes |= FRAME4;
     return true;
 }
-- 
2.43.0


From 52ee43c0cf2f5e26b15c342ef3c364c6b1eae494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:17 +0000
Subject: [PATCH 09/24] fix: Galileo week number does not accumulate the
 rollover offset when more pages arrive after completion

---
 common/ephemeris/galileo.cxx | 3 ++-
 common/ephemeris/galileo.h   | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/common/ephemeris/galileo.cxx b/common/ephemeris/galileo.cxx
index e956432..9cfb5db 100644
--- a/common/ephemeris/galileo.cxx
+++ b/common/ephemeris/galileo.cxx
@@ -168,6 +168,7 @@ bool GalileoEphemeris::parse(const uint8_t* msg, size_t size)
 
     // Compute time stamps
     iode = iodc = iod[0];
+    week = gst_week;
     UTCTime ttr = UTCTime::fromGalileo(week, tow * 1000.0);
     double dt = (UTCTime::fromGalileo(week, toes * 1000.0) - ttr).toSec();
     if (dt > 302400.0)
@@ -185,7 +186,7 @@ bool GalileoEphemeris::frame0(const uint8_t* buf)
 {
     int type = getBit<6>(buf, 0);
     time_f = getBit<2>(buf, 6);
-    week = getBit<12>(buf, 96);
+    gst_week = getBit<12>(buf, 96);
     tow = getBit<20>(buf, 108);
     if (type != 0)
     {
diff --git a/common/ephemeris/galileo.h b/common/ephemeris/galileo.h
index afe6357..b4715c8 100644
--- a/common/ephemeris/galileo.h
+++ b/common/ephemeris/galileo.h
@@ -67,6 +67,7 @@ class GalileoEphemeris final : public KeplerianEphemeris
     };
 
     int time_f;
+    uint16_t gst_week = 0;  // 12 bit Galileo week of word 0, as transmitted
     int iod[4] = {0};
 
     void setRandom();
-- 
2.43.0


From b17bd1f64d26a3275fb47994ff89f513c0c16731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:17 +0000
Subject: [PATCH 10/24] fix: GLONASS ephemeris times use the current day N_T,
 not the almanac reference day N_A

---
 common/ephemeris/glonass.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/ephemeris/glonass.cxx b/common/ephemeris/glonass.cxx
index 160649c..00913f4 100644
--- a/common/ephemeris/glonass.cxx
+++ b/common/ephemeris/glonass.cxx
@@ -201,7 +201,7 @@ bool GlonassEphemeris::convertTime()
     static UTCTime Jan1_1996 = UTCTime::fromCalendar(1996, 1, 1, 0, 0, 0);
     UTCTime start_of_year =
         Jan1_1996 + (N4_ - 1) * (3 * UTCTime::SEC_IN_YEAR + UTCTime::SEC_IN_LEAP_YEAR) - (3 * 3600);
-    UTCTime start_of_day = start_of_year + (NA_ - 1) * UTCTime::SEC_IN_DAY;
+    UTCTime start_of_day = start_of_year + (NT_ - 1) * UTCTime::SEC_IN_DAY;
 
     // Convert t_k (tof) to UTC
     if (got(FRAME1))
-- 
2.43.0


From b651b011848b4d515e30b74275fb4d2ad661d4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:23 +0000
Subject: [PATCH 11/24] fix: CircularBuffer::pop_back destroys the last element
 instead of the free slot behind it

---
 common/circular_buffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/circular_buffer.h b/common/circular_buffer.h
index 5e89fe9..01cdba5 100644
--- a/common/circular_buffer.h
+++ b/common/circular_buffer.h
@@ -54,8 +54,8 @@ class CircularBuffer
     }
     void pop_back()
     {
-        tail_->~T();  // call destructor manually without freeing memory
         tail_--;
+        tail_->~T();  // call destructor manually without freeing memory
     }
 
     template <typename... Args>
-- 
2.43.0


From 5af20ccfe70960aa87da6bde91212dfd3f878c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:23 +0000
Subject: [PATCH 12/24] fix: CircularBuffer push_back/push_front construct the
 element in the free slot instead of assigning to raw memory

---
 common/circular_buffer.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/circular_buffer.h b/common/circular_buffer.h
index 01cdba5..61a78f9 100644
--- a/common/circular_buffer.h
+++ b/common/circular_buffer.h
@@ -71,7 +71,7 @@ class CircularBuffer
     {
         if (full())
             pop_front();
-        *tail_ = obj;
+        new (&*tail_) T(obj);
         ++tail_;
     }
 
@@ -90,7 +90,7 @@ class CircularBuffer
             pop_back();
 
         --head_;
-        *head_ = obj;
+        new (&*head_) T(obj);
     }
 
     T* data() { return buf_; }
-- 
2.43.0


From e27b0b6281da6058c6fe0f2a6c6811849879fcbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:48 +0000
Subject: [PATCH 13/24] fix: give the models' local Jacobian helpers internal
 linkage

PoseJacobian and VecJacobian were defined differently in several translation
units of mc::models.  Where by_elements is not inlined the linker keeps one of
them for all models, and RelativeCarrierPhase reads past its Jacobian.
---
 models/gnss_dynamics_model.cxx          | 4 ++++
 models/imu_model.cxx                    | 4 ++++
 models/prange_model.cxx                 | 4 ++++
 models/relative_carrier_phase_model.cxx | 4 ++++
 4 files changed, 16 insertions(+)

diff --git a/models/gnss_dynamics_model.cxx b/models/gnss_dynamics_model.cxx
index 63886f8..064572f 100644
--- a/models/gnss_dynamics_model.cxx
+++ b/models/gnss_dynamics_model.cxx
@@ -10,6 +10,8 @@ GnssDynamics::GnssDynamics(const UTCTime& t0, const UTCTime& tf, const Vec3& Xi)
 {
 }
 
+namespace {
+
 template <int N>
 struct VecJacobian final : public Eigen::Map<Eigen::Matrix<double, 3, N, Eigen::RowMajor>>
 {
@@ -19,6 +21,8 @@ struct VecJacobian final : public Eigen::Map<Eigen::Matrix<double, 3, N, Eigen::
     auto sw() { return this->row(2); }
 };
 
+}  // namespace
+
 bool GnssDynamics::Evaluate(const double* const* parameters,
                             double* residuals,
                             double** jacobians) const
diff --git a/models/imu_model.cxx b/models/imu_model.cxx
index e94b661..6ba529a 100644
--- a/models/imu_model.cxx
+++ b/models/imu_model.cxx
@@ -132,6 +132,8 @@ Error ImuModel::finished()
     return Error::none();
 }
 
+namespace {
+
 struct PoseJacobian
 {
     PoseJacobian(double* ptr) : mat(ptr) {}
@@ -153,6 +155,8 @@ struct PoseJacobian
     Map<Matrix<double, 9, 8, RowMajor>> mat;
 };
 
+}  // namespace
+
 bool ImuModel::Evaluate(const double* const* parameters, double* _res, double** _jac) const
 {
     const math::DQuat<double> start_pose(parameters[0]);
diff --git a/models/prange_model.cxx b/models/prange_model.cxx
index 9837e0c..6a53161 100644
--- a/models/prange_model.cxx
+++ b/models/prange_model.cxx
@@ -52,6 +52,8 @@ double PseudorangeModel::computeSagnac(const Vec3& rec_pos_ecef)
            C_LIGHT;
 }
 
+namespace {
+
 struct PoseJacobian final : public MatRM36
 {
     auto drho_drot() { return block<1, 3>(0, 0); }
@@ -72,6 +74,8 @@ struct VecJacobian final : public Eigen::Map<Eigen::Matrix<double, 3, N, Eigen::
     auto dsw() { return this->row(2); }
 };
 
+}  // namespace
+
 bool PseudorangeModel::Evaluate(const double* const* parameters,
                                 double* _residual,
                                 double** jacobians) const
diff --git a/models/relative_carrier_phase_model.cxx b/models/relative_carrier_phase_model.cxx
index 3b9c9df..2e9bde9 100644
--- a/models/relative_carrier_phase_model.cxx
+++ b/models/relative_carrier_phase_model.cxx
@@ -63,6 +63,8 @@ void RelativeCarrierPhase::computeSatState(const meas::GnssObservation& obs,
     }
 }
 
+namespace {
+
 struct PoseJacobian final : public Vec6
 {
     auto drot() { return head<3>(); }
@@ -71,6 +73,8 @@ struct PoseJacobian final : public Vec6
     Vec8 by_elements(const DQ& Q) { return (*this).transpose() * Q.dGenDParam(); }
 };
 
+}  // namespace
+
 bool RelativeCarrierPhase::Evaluate(const double* const* parameters,
                                     double* residual,
                                     double** jacobians) const
-- 
2.43.0


From 57780177e5183acb8f5e246de213de91e23171a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:36 +0000
Subject: [PATCH 14/24] fix: satellite velocity is NaN at perigee and apogee

The rate of the true anomaly was computed as 0/0 when sin(E) = 0 (and as noise
for a circular orbit near those points).
---
 common/satellite/satellite_state.cxx | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/common/satellite/satellite_state.cxx b/common/satellite/satellite_state.cxx
index 4eb065e..c2fb050 100644
--- a/common/satellite/satellite_state.cxx
+++ b/common/satellite/satellite_state.cxx
@@ -41,11 +41,9 @@ Error eph2Sat(const UTCTime& t,
     const double sek = sin(ek);
     const double cek = cos(ek);
 
-    const double ekdot = mkdot / (1.0 - eph.ecc * cek);
-
     const double tak = atan2(sqrt(1.0 - eph.ecc * eph.ecc) * sek, cek - eph.ecc);
-    const double takdot =
-        sek * ekdot * (1.0 + eph.ecc * cos(tak)) / (sin(tak) * (1.0 - eph.ecc * cek));
+    const double takdot = mkdot * sqrt(1.0 - eph.ecc * eph.ecc) /
+                          ((1.0 - eph.ecc * cek) * (1.0 - eph.ecc * cek));
 
     const double phik = tak + eph.w;
     const double sphik2 = sin(2.0 * phik);
-- 
2.43.0


From 89833d3bdd2e4c50bfd0d2cb40c4e4dee0f24037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:36 +0000
Subject: [PATCH 15/24] fix: satellite clock polynomial refers to toc, and its
 rate has the factor two of the quadratic term

---
 common/satellite/satellite_state.cxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/common/satellite/satellite_state.cxx b/common/satellite/satellite_state.cxx
index c2fb050..90a9f6b 100644
--- a/common/satellite/satellite_state.cxx
+++ b/common/satellite/satellite_state.cxx
@@ -91,13 +91,13 @@ Error eph2Sat(const UTCTime& t,
     sat_state->vel.z() = ypkdot * sik + ypk * cik * ikdot;
 
     const double clk_dt = (t - eph.toc).toSec();
-    double dts = eph.af0 + eph.af1 * dt + eph.af2 * clk_dt * clk_dt;
+    double dts = eph.af0 + eph.af1 * clk_dt + eph.af2 * clk_dt * clk_dt;
 
     // Correct for relativistic effects on the satellite clock
     dts -= 2.0 * sqrt(GM_EARTH * A) * eph.ecc * sek / (C_LIGHT * C_LIGHT);
 
-    sat_state->clk(0) = dts;                           // satellite clock bias (sec)
-    sat_state->clk(1) = (eph.af1 + eph.af2 * clk_dt);  // satellite drift rate (sec/s)
+    sat_state->clk(0) = dts;                                 // satellite clock bias (sec)
+    sat_state->clk(1) = (eph.af1 + 2.0 * eph.af2 * clk_dt);  // satellite drift rate (sec/s)
     sat_state->t = t;
 
     return Error::none();
-- 
2.43.0


From 2b569d1c25eb273dc6b00307e55517c8d733985a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:01 +0000
Subject: [PATCH 16/24] fix: Quat::log small-angle series divides the
 fifth-order term by w^5

---
 common/math/quat.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/math/quat.h b/common/math/quat.h
index af20a3c..0226838 100644
--- a/common/math/quat.h
+++ b/common/math/quat.h
@@ -261,7 +261,7 @@ class Quat
             const T w2 = w() * w();
             const T w3 = w2 * w();
             const T w5 = w3 * w2;
-            th = 2. * (norm_v / w() - n3 / (3 * w3) + (n5 / 5 * w5));
+            th = 2. * (norm_v / w() - n3 / (3 * w3) + n5 / (5 * w5));
             const T th2 = th * th;
             const T th4 = th2 * th2;
             e = 1. / 12. + th2 / 720. + th4 / 30240.;
-- 
2.43.0


From 712a1d36315a8b1e87dae8838109d308268f922d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:01 +0000
Subject: [PATCH 17/24] fix: copies of ImuErrorState view their own data

---
 models/imu_state.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/models/imu_state.h b/models/imu_state.h
index 2a1d9f5..d88024b 100644
--- a/models/imu_state.h
+++ b/models/imu_state.h
@@ -11,6 +11,12 @@ struct ImuErrorState : public Vec9
 {
     ImuErrorState();
 
+    // The maps have to view this object's data, not that of the object it is copied from
+    ImuErrorState(const ImuErrorState& other)
+        : Vec9(other), alpha(data()), beta(data() + 3), gamma(data() + 6)
+    {
+    }
+
     template <typename Derived>
     ImuErrorState(const Eigen::MatrixBase<Derived>& other)
         : Vec9(other), alpha(data()), beta(data() + 3), gamma(data() + 6)
@@ -22,6 +28,12 @@ struct ImuErrorState : public Vec9
     Eigen::Map<Vec3> beta;
     Eigen::Map<Vec3> gamma;
 
+    ImuErrorState& operator=(const ImuErrorState& other)
+    {
+        Vec9::operator=(other);
+        return *this;
+    }
+
     template <typename Derived>
     ImuErrorState& operator=(const Eigen::MatrixBase<Derived>& other)
     {
-- 
2.43.0


From ff8efb4ed73cda249aee13f79900c100a324ec58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:01 +0000
Subject: [PATCH 18/24] fix: ImuModel pose Jacobians hold for poses other than
 the identity

---
 models/imu_model.cxx | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/models/imu_model.cxx b/models/imu_model.cxx
index 6ba529a..758eac9 100644
--- a/models/imu_model.cxx
+++ b/models/imu_model.cxx
@@ -195,9 +195,9 @@ bool ImuModel::Evaluate(const double* const* parameters, double* _res, double**
             jac.dr1_drot() = skew(start_pose.rotation().rotp(
                 end_pose.translation() - start_pose.translation() - 0.5 * GRAVITY * dt * dt));
             jac.dr2_drot() = -dt * skew(start_pose.rotation().rotp(GRAVITY));
-            jac.dr3_drot() = -log_jac * adjusted_state.gamma.R() * start_pose.rotation().R();
+            jac.dr3_drot() = -log_jac * adjusted_state.gamma.R();
 
-            jac.dr1_dpos() = -start_pose.rotation().R().matrix();
+            jac.dr1_dpos() = -Mat3::Identity();
             jac.dr2_dpos().setZero();
             jac.dr3_dpos().setZero();
 
@@ -210,9 +210,11 @@ bool ImuModel::Evaluate(const double* const* parameters, double* _res, double**
 
             jac.dr1_drot().setZero();
             jac.dr2_drot().setZero();
-            jac.dr3_drot() = log_jac * adjusted_state.gamma.R() * start_pose.rotation().R();
+            const Mat3 R_start_end =
+                (start_pose.rotation().R() * end_pose.rotation().R().transpose()).matrix();
+            jac.dr3_drot() = log_jac * adjusted_state.gamma.R() * R_start_end;
 
-            jac.dr1_dpos() = start_pose.rotation().R().matrix();
+            jac.dr1_dpos() = R_start_end;
             jac.dr2_dpos().setZero();
             jac.dr3_dpos().setZero();
 
-- 
2.43.0


From 6bf6ad9a7387618581ed2f55ce05ba82a6df7bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:30 +0000
Subject: [PATCH 19/24] fix: EKF dynamics rotate gravity into the body frame

---
 core/ekf/rtk_ekf_impl.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ekf/rtk_ekf_impl.cxx b/core/ekf/rtk_ekf_impl.cxx
index 5e27f4a..893258d 100644
--- a/core/ekf/rtk_ekf_impl.cxx
+++ b/core/ekf/rtk_ekf_impl.cxx
@@ -40,7 +40,7 @@ ErrorState dynamics(const State& x, const Input& u, StateJac* dxdx, InputJac* dx
     ErrorState xdot;
     xdot.pose.head<3>() = omega;
     xdot.pose.tail<3>() = x.vel;
-    xdot.vel = x.pose.rota(gravity) + acc;
+    xdot.vel = x.pose.rotp(gravity) + acc;
     xdot.acc_bias.setZero();
     xdot.gyro_bias.setZero();
     xdot.gps_clk.setZero();
-- 
2.43.0


From cae816da51ee048c565a4a166feefdcda0884449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:30 +0000
Subject: [PATCH 20/24] fix: EKF error dynamics are the linearisation of its
 dynamics

---
 core/ekf/rtk_ekf_impl.cxx | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/core/ekf/rtk_ekf_impl.cxx b/core/ekf/rtk_ekf_impl.cxx
index 893258d..cc94514 100644
--- a/core/ekf/rtk_ekf_impl.cxx
+++ b/core/ekf/rtk_ekf_impl.cxx
@@ -6,28 +6,35 @@ namespace ekf {
 
 #define T transpose()
 
+static const Vec3 gravity = Vec3::Unit(2) * 9.80665;
+
 ErrorState dynamics(const State& x, const Input& u, StateJac* dxdx, InputJac* dxdu)
 {
     const Vec3 omega = u.gyro - x.gyro_bias;
     const Vec3 acc = u.accel - x.acc_bias;
-    static const Vec3 gravity = Vec3::Unit(2) * 9.80665;
 
     if (dxdx)
     {
         dxdx->setZero();
         auto dRotdRot = dxdx->dPose_dPose.block<3, 3>(0, 0);
         auto dPosdRot = dxdx->dPose_dPose.block<3, 3>(3, 0);
+        auto dPosdPos = dxdx->dPose_dPose.block<3, 3>(3, 3);
         auto dPosdVel = dxdx->dPose_dVel.block<3, 3>(3, 0);
         auto dRotdBg = dxdx->dPose_dGyroBias.block<3, 3>(0, 0);
         auto dVeldRot = dxdx->dVel_dPose.block<3, 3>(0, 0);
 
         dRotdRot = -skew(omega);
         dPosdRot = -skew(x.vel);
+        dPosdPos = -skew(omega);
         dPosdVel.setIdentity();
         dRotdBg = -Mat3::Identity();
-        dVeldRot = -skew(acc);
+        dVeldRot = skew(x.pose.rotp(gravity));
 
         dxdx->dVel_dAccBias = -Mat3::Identity();
+
+        dxdx->dGpsClk_dGpsClk(0, 1) = 1.0;
+        dxdx->dGalClk_dGalClk(0, 1) = 1.0;
+        dxdx->dGloClk_dGloClk(0, 1) = 1.0;
     }
 
     if (dxdu)
@@ -62,9 +69,14 @@ ErrorState errorStateDynamics(const ErrorState& dx,
                               const Input& eta)
 {
     ErrorState out = ErrorState::Zero();
-    out.pose.head<3>() = -(u.gyro - x.gyro_bias).cross(dx.pose.head<3>()) - dx.gyro_bias + eta.gyro;
-    out.pose.tail<3>() = dx.vel - x.vel.cross(dx.pose.head<3>());
-    out.vel = (-dx.acc_bias + eta.accel) - (u.accel - x.acc_bias).cross(dx.pose.head<3>());
+    const Vec3 omega = u.gyro - x.gyro_bias;
+    out.pose.head<3>() = -omega.cross(dx.pose.head<3>()) - dx.gyro_bias + eta.gyro;
+    out.pose.tail<3>() =
+        dx.vel - x.vel.cross(dx.pose.head<3>()) - omega.cross(dx.pose.tail<3>());
+    out.vel = (-dx.acc_bias + eta.accel) + x.pose.rotp(gravity).cross(dx.pose.head<3>());
+    out.gps_clk << dx.gps_clk(1), 0;
+    out.gal_clk << dx.gal_clk(1), 0;
+    out.glo_clk << dx.glo_clk(1), 0;
     return out;
 }
 
-- 
2.43.0


From f234fcb968bbc95a5b7b29f0ec0c1241df5fc628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:41 +0000
Subject: [PATCH 21/24] fix: a late EKF measurement at the time of an earlier
 one does not apply that one twice

---
 core/ekf/rtk_ekf_estimator.h | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/core/ekf/rtk_ekf_estimator.h b/core/ekf/rtk_ekf_estimator.h
index 4037f19..5010db7 100644
--- a/core/ekf/rtk_ekf_estimator.h
+++ b/core/ekf/rtk_ekf_estimator.h
@@ -118,16 +118,33 @@ class RtkEkfEstimator
 
         auto it = measurements_.insert(Meas{meas_time, z});
 
-        if (meas_time < t())
+        if (meas_time <= t())
         {
             // Out-of-order measurement.  We need to rewind to apply it.
-            MeasIterator catchup_begin = measurements_.lower_bound(Meas{meas_time, {}});
-
-            // rewind the state buffer
-            while (t() > catchup_begin->t)
+            while (t() > meas_time)
             {
                 states_.pop_back();
             }
+
+            // A state at this time already includes measurements that have to come after this one
+            const auto next = std::next(it);
+            if (t() == meas_time && next != measurements_.end() && next->t == meas_time)
+            {
+                if (states_.size() > 1)
+                {
+                    states_.pop_back();
+                    it = measurements_.lower_bound(Meas{meas_time, {}});
+                }
+                else
+                {
+                    // there is nothing to rewind to: apply it on top of them
+                    handleMeas(*it);
+                    while (it != measurements_.end() && it->t == meas_time)
+                    {
+                        ++it;
+                    }
+                }
+            }
         }
 
         rollFilter(it, measurements_.end());
-- 
2.43.0


From c157be68798a6d6adb25839ea46258873624d579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:41 +0000
Subject: [PATCH 22/24] fix: an EKF update by a partly filled measurement reads
 only what it filled

---
 core/ekf/ekf_gen/ekf_gen_matrix_manip.py | 2 ++
 core/ekf/ekf_gen/ekf_gen_templates.py    | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/ekf/ekf_gen/ekf_gen_matrix_manip.py b/core/ekf/ekf_gen/ekf_gen_matrix_manip.py
index 791d07d..4165b18 100644
--- a/core/ekf/ekf_gen/ekf_gen_matrix_manip.py
+++ b/core/ekf/ekf_gen/ekf_gen_matrix_manip.py
@@ -425,6 +425,8 @@ def sparse_meas_update(cfg, key):
     return {
         "SPARSE_PHT": SPARSE_PHT,
         "SPARSE_INNOVATION": SPARSE_INNOVATION,
+        "SINV": symbol_varname["Sinv"],
+        "RES": symbol_varname["res"],
         "SPARSE_KALMAN_GAIN": SPARSE_KALMAN_GAIN,
         "SPARSE_COMPUTE_ERROR_STATE": SPARSE_COMPUTE_ERROR_STATE,
         "SPARSE_COVARIANCE_UPDATE": SPARSE_COVARIANCE_UPDATE,
diff --git a/core/ekf/ekf_gen/ekf_gen_templates.py b/core/ekf/ekf_gen/ekf_gen_templates.py
index 8bfd700..921b43c 100644
--- a/core/ekf/ekf_gen/ekf_gen_templates.py
+++ b/core/ekf/ekf_gen/ekf_gen_templates.py
@@ -687,9 +687,9 @@ Error doUpdate<{Meas}>(Out<Snapshot> snap,
 
     // S⁻¹ = (HPHᵀ + R)⁻¹
     {SPARSE_INNOVATION}
-    check(mc::isFinite(Sinv), "numerical issues in innovation");
+    check(mc::isFinite({SINV}), "numerical issues in innovation");
 
-    const double mahal = res.transpose() * Sinv * res;
+    const double mahal = {RES}.transpose() * {SINV} * {RES};
     // Gating values with prob less than MAX_PROB (using χ² distribution with DOF = SIZE-1)
     if (mahal > {Meas}::MAX_MAHAL)
     {{
-- 
2.43.0


From 467afb0dc56231ca0c269917df7320dc01e94aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:41 +0000
Subject: [PATCH 23/24] fix: an EKF covariance made from process noise is
 diagonal

---
 core/ekf/ekf_gen/ekf_gen_state.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/core/ekf/ekf_gen/ekf_gen_state.py b/core/ekf/ekf_gen/ekf_gen_state.py
index 4b95a34..0aa2f7a 100644
--- a/core/ekf/ekf_gen/ekf_gen_state.py
+++ b/core/ekf/ekf_gen/ekf_gen_state.py
@@ -777,15 +777,17 @@ def covariance_dense(cfg):
 def covariance_from_process_cov(cfg):
     states = cfg["state_composition"]
     out = []
-    for s in states:
+    for i, s in enumerate(states):
+        name = make_camel(s.name)
         if s.variable:
             out.append(
-                f"{make_camel(s.name)}_{make_camel(s.name)}_buf_ = tile(cov.{make_camel(s.name)}.asDiagonal(), {s.bundle_size}, {s.bundle_size});"
+                f"{name}_{name}_buf_ = cov.{name}.replicate({s.bundle_size}, 1).asDiagonal();"
             )
         else:
-            out.append(
-                f"{make_camel(s.name)}_{make_camel(s.name)} = cov.{make_camel(s.name)}.asDiagonal();"
-            )
+            out.append(f"{name}_{name} = cov.{name}.asDiagonal();")
+        for other in states[i + 1 :]:
+            buf = "_buf_" if s.variable or other.variable else ""
+            out.append(f"{name}_{make_camel(other.name)}{buf}.setZero();")
     return "\n    ".join(out)
 
 
-- 
2.43.0


From dae973755b5c8d64e408c8fb951f90a0d0a0e8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:41 +0000
Subject: [PATCH 24/24] fix: copying an EKF state copies its time

---
 core/ekf/ekf_gen/ekf_gen_state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ekf/ekf_gen/ekf_gen_state.py b/core/ekf/ekf_gen/ekf_gen_state.py
index 0aa2f7a..85960a8 100644
--- a/core/ekf/ekf_gen/ekf_gen_state.py
+++ b/core/ekf/ekf_gen/ekf_gen_state.py
@@ -217,7 +217,7 @@ def covariance_dense_decl(cfg):
 def copy_state(cfg):
     states = cfg['state_composition']
 
-    out = []
+    out = ["t = other.t;"]
     for s in [s for s in states if not s.variable]:
         out.append(f"{s.name} = other.{s.name};")
     out.append("")
-- 
2.43.0

