From 94f9ad2b96ae46066c8212501e09370be9f826c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:14 +0000
Subject: [PATCH 01/61] fix: CircularBuffer::pop_back destroys the last
 element, not the slot past it

---
 common/circular_buffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/circular_buffer.h b/common/circular_buffer.h
index 5e89fe9..01cdba5 100644
--- a/common/circular_buffer.h
+++ b/common/circular_buffer.h
@@ -54,8 +54,8 @@ class CircularBuffer
     }
     void pop_back()
     {
-        tail_->~T();  // call destructor manually without freeing memory
         tail_--;
+        tail_->~T();  // call destructor manually without freeing memory
     }
 
     template <typename... Args>
-- 
2.43.0


From 21a8c056b0e4dd78dd48626809108af5583e7cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:14 +0000
Subject: [PATCH 02/61] fix: CircularBuffer::push_back/push_front construct the
 element instead of assigning to raw memory

---
 common/circular_buffer.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/circular_buffer.h b/common/circular_buffer.h
index 01cdba5..61a78f9 100644
--- a/common/circular_buffer.h
+++ b/common/circular_buffer.h
@@ -71,7 +71,7 @@ class CircularBuffer
     {
         if (full())
             pop_front();
-        *tail_ = obj;
+        new (&*tail_) T(obj);
         ++tail_;
     }
 
@@ -90,7 +90,7 @@ class CircularBuffer
             pop_back();
 
         --head_;
-        *head_ = obj;
+        new (&*head_) T(obj);
     }
 
     T* data() { return buf_; }
-- 
2.43.0


From ec009ec56febf2eb513a2ed517d41826a284d5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:14 +0000
Subject: [PATCH 03/61] fix: copying a CircularBuffer copies its elements
 instead of aliasing the source's memory

---
 common/circular_buffer.h | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/common/circular_buffer.h b/common/circular_buffer.h
index 61a78f9..154a1fe 100644
--- a/common/circular_buffer.h
+++ b/common/circular_buffer.h
@@ -16,6 +16,16 @@ class CircularBuffer
     struct const_iterator;
 
     CircularBuffer() = default;
+    CircularBuffer(const CircularBuffer& other) { append(other); }
+    CircularBuffer& operator=(const CircularBuffer& other)
+    {
+        if (this != &other)
+        {
+            clear();
+            append(other);
+        }
+        return *this;
+    }
 
     ~CircularBuffer() { clear(); }
     const_iterator begin() const { return head_; }
@@ -97,6 +107,14 @@ class CircularBuffer
     const T* data() const { return buf_; }
 
  private:
+    void append(const CircularBuffer& other)
+    {
+        for (const T& obj : other)
+        {
+            push_back(obj);
+        }
+    }
+
     uint8_t memory_[SIZE * sizeof(T)];
     T* buf_ = reinterpret_cast<T*>(memory_);
     iterator end_ = {buf_ + SIZE, this};
-- 
2.43.0


From 4f3bf5756cd0ff0afed19134bd1dddec63351a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:49 +0000
Subject: [PATCH 04/61] fix: UTCTime >= and <= compare the nanoseconds of
 stamps within the same second

---
 common/utctime.cxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/common/utctime.cxx b/common/utctime.cxx
index ea2fcf5..8574771 100644
--- a/common/utctime.cxx
+++ b/common/utctime.cxx
@@ -28,8 +28,8 @@ bool UTCTime::operator>(const UTCTime& other) const
 }
 bool UTCTime::operator>=(const UTCTime& other) const
 {
-    return (sec >= other.sec) ? true
-                              : (sec < other.sec) ? false : (nsec >= other.nsec) ? true : false;
+    return (sec > other.sec) ? true
+                             : (sec < other.sec) ? false : (nsec >= other.nsec) ? true : false;
 }
 bool UTCTime::operator<(const UTCTime& other) const
 {
@@ -38,8 +38,8 @@ bool UTCTime::operator<(const UTCTime& other) const
 }
 bool UTCTime::operator<=(const UTCTime& other) const
 {
-    return (sec <= other.sec) ? true
-                              : (sec > other.sec) ? false : (nsec <= other.nsec) ? true : false;
+    return (sec < other.sec) ? true
+                             : (sec > other.sec) ? false : (nsec <= other.nsec) ? true : false;
 }
 
 bool UTCTime::operator==(const UTCTime& other) const
-- 
2.43.0


From c8c06706d61053662dd5ac8b061febb48b07c971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:49 +0000
Subject: [PATCH 05/61] fix: GPS and GLONASS times keep their milliseconds, and
 weeks past 3550 do not overflow

---
 common/utctime.cxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/common/utctime.cxx b/common/utctime.cxx
index 8574771..50d0d35 100644
--- a/common/utctime.cxx
+++ b/common/utctime.cxx
@@ -199,8 +199,8 @@ UTCTime UTCTime::now()
 UTCTime UTCTime::fromGPS(int week, int tow_ms)
 {
     UTCTime out;
-    out.sec = week * SEC_IN_WEEK + tow_ms / 1000 + GPS_UTC_OFFSET;
-    out.nsec = (tow_ms % 1000) * E9;
+    out.sec = int64_t(week) * SEC_IN_WEEK + tow_ms / 1000 + GPS_UTC_OFFSET;
+    out.nsec = (tow_ms % 1000) * E6;
     out.wrapNsec();
     return out;
 }
@@ -237,8 +237,8 @@ UTCTime UTCTime::fromGalileo(int week, int tow_ms)
 UTCTime UTCTime::fromGlonass(int week, int tow_ms)
 {
     UTCTime out;
-    out.sec = int64_t(week * SEC_IN_WEEK) + tow_ms / 1000 + GLO_UTC_OFFSET;
-    out.nsec = (tow_ms % 1000) * E9;
+    out.sec = int64_t(week) * SEC_IN_WEEK + tow_ms / 1000 + GLO_UTC_OFFSET;
+    out.nsec = (tow_ms % 1000) * E6;
     out.wrapNsec();
     return out;
 }
-- 
2.43.0


From 8efc56b88658fab6759efb06bd13749dd910632b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:49 +0000
Subject: [PATCH 06/61] fix: fromGlonassTimeOfDay returns the closest instant
 across midnight, as documented

---
 common/utctime.cxx | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/common/utctime.cxx b/common/utctime.cxx
index 50d0d35..c7a2efa 100644
--- a/common/utctime.cxx
+++ b/common/utctime.cxx
@@ -213,6 +213,15 @@ UTCTime UTCTime::fromGlonassTimeOfDay(const UTCTime& ref, int tod_ms)
     int glonass_tow_ms = (glonass_day * SEC_IN_DAY) * 1000 + tod_ms;
 
     UTCTime out = UTCTime::fromGlonass(glonass_week, glonass_tow_ms);
+    const double dt = (out - ref).toSec();
+    if (dt > SEC_IN_DAY / 2)
+    {
+        out -= SEC_IN_DAY;
+    }
+    else if (dt < -SEC_IN_DAY / 2)
+    {
+        out += SEC_IN_DAY;
+    }
     return out;
 }
 
-- 
2.43.0


From f1a50cbebb7a6b14438fc0cd9082c8f8d2bed7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:43 +0000
Subject: [PATCH 07/61] fix: closing a log again (or destroying its Logger)
 keeps the end time it was closed with

---
 common/logging/log_writer.cxx | 8 ++++++++
 common/logging/log_writer.h   | 1 +
 2 files changed, 9 insertions(+)

diff --git a/common/logging/log_writer.cxx b/common/logging/log_writer.cxx
index 7fc6957..6fdca61 100644
--- a/common/logging/log_writer.cxx
+++ b/common/logging/log_writer.cxx
@@ -23,10 +23,18 @@ void Logger::open(const UTCTime& start_time, const std::string& directory)
     utils::removeDirectoryIfExist(directory_);
     utils::makeDirectoryIfNotExist(directory_);
     createManifest(start_time);
+    open_ = true;
 }
 
 void Logger::close(const UTCTime& t_end)
 {
+    // A log ends when it is first closed
+    if (!open_)
+    {
+        return;
+    }
+    open_ = false;
+
     while (!streams_.empty())
     {
         streams_.erase(streams_.begin());
diff --git a/common/logging/log_writer.h b/common/logging/log_writer.h
index 91d5f05..374a33a 100644
--- a/common/logging/log_writer.h
+++ b/common/logging/log_writer.h
@@ -117,6 +117,7 @@ class Logger
     std::experimental::filesystem::path directory_;
     YAML::Node manifest_;
     std::string log_id_;
+    bool open_ = false;
     std::unordered_map<int, Stream> streams_;
 };
 
-- 
2.43.0


From 08049be22b140d104b1ff9a012f95dea51754ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:43 +0000
Subject: [PATCH 08/61] fix: streams of different keys never share a file name
 (200 and 2000 were both LOG_KEY_2000)

---
 common/logging/log_key.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/logging/log_key.h b/common/logging/log_key.h
index c552103..60040d7 100644
--- a/common/logging/log_key.h
+++ b/common/logging/log_key.h
@@ -52,7 +52,7 @@ inline std::string logKeyName(int key)
     case ESTIMATE:
         return "ESTIMATE";
     default:
-        return fmt::format("LOG_KEY_{:0^4}", key);
+        return fmt::format("LOG_KEY_{:0>4}", key);
     }
 }
 
-- 
2.43.0


From 994a5552b58ff3748974d7d9b834500382078d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:43 +0000
Subject: [PATCH 09/61] fix: ephemeris stream headers declare exactly the bytes
 written for each record

---
 common/logging/log_format.cxx | 16 ----------------
 common/logging/serialize.cxx  |  2 +-
 2 files changed, 1 insertion(+), 17 deletions(-)

diff --git a/common/logging/log_format.cxx b/common/logging/log_format.cxx
index 0727f19..e185b43 100644
--- a/common/logging/log_format.cxx
+++ b/common/logging/log_format.cxx
@@ -64,10 +64,6 @@ YAML::Node format(const ephemeris::GPSEphemeris& eph)
     node["fit_interval_flag"] = format(eph.fit_interval_flag);
     node["age_of_data_offset"] = format(eph.age_of_data_offset);
     node["tgd"] = format(eph.tgd);
-    node["iode1"] = format(eph.iode1);
-    node["iode2"] = format(eph.iode2);
-    node["iode3"] = format(eph.iode3);
-    node["collected_subframes"] = format(eph.collected_subframes);
     return node;
 }
 YAML::Node format(const ephemeris::GalileoEphemeris& eph)
@@ -114,9 +110,6 @@ YAML::Node format(const ephemeris::GalileoEphemeris& eph)
     node["e1b_hs"] = format(eph.e1b_hs);
     node["e5b_dvs"] = format(eph.e5b_dvs);
     node["e1b_dvs"] = format(eph.e1b_dvs);
-    node["collected_subframes"] = format(eph.collected_subframes);
-    node["time_f"] = format(eph.time_f);
-    node["iod"] = format(eph.iod, 4);
     return node;
 }
 
@@ -140,15 +133,6 @@ YAML::Node format(const ephemeris::GlonassEphemeris& eph)
     node["taun"] = format(eph.taun);
     node["gamn"] = format(eph.gamn);
     node["dtaun"] = format(eph.dtaun);
-    node["frame_flags"] = format(eph.frame_flags_);
-    node["time_mark"] = format(eph.time_mark_);
-    node["tk_h"] = format(eph.tk_h_);
-    node["tk_m"] = format(eph.tk_m_);
-    node["tk_s"] = format(eph.tk_s_);
-    node["tb"] = format(eph.tb_);
-    node["NT"] = format(eph.NT_);
-    node["N4"] = format(eph.N4_);
-    node["NA"] = format(eph.NA_);
     return node;
 }
 
diff --git a/common/logging/serialize.cxx b/common/logging/serialize.cxx
index 4bc5653..0af09b8 100644
--- a/common/logging/serialize.cxx
+++ b/common/logging/serialize.cxx
@@ -107,7 +107,7 @@ DEF_SERIALIZE(ephemeris::GalileoEphemeris,
               ecc, sqrta, omega0, i0, w, omegadot, idot, cuc, cus, crc, crs, cic, cis, ai0, ai1, ai2,
               bgd_e1_e5a, bgd_e1_e5b, e5b_hs, e1b_hs, e5b_dvs, e1b_dvs)
 DEF_SERIALIZE(ephemeris::GlonassEphemeris,
-              gnssID, sat, toe, iode, slot, svh, sva, age, toe, tof, pos, vel, acc, taun, gamn,
+              gnssID, sat, toe, iode, slot, svh, sva, age, tof, pos, vel, acc, taun, gamn,
               dtaun)
 // clang-format on
 
-- 
2.43.0


From b7a0338aed08789c0e2ca4b1d4dfecf06607b960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:12 +0000
Subject: [PATCH 10/61] fix: a log without streams can be read (and amended)

---
 common/logging/log_reader.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/logging/log_reader.cxx b/common/logging/log_reader.cxx
index 6dc4295..fcfab03 100644
--- a/common/logging/log_reader.cxx
+++ b/common/logging/log_reader.cxx
@@ -124,7 +124,8 @@ void LogReader::openLog(const fs::path& directory)
     start_time_ = std::min(start_time_, log_start_time);
     end_time_ = std::max(end_time_, log_end_time);
 
-    for (const auto key : node["keys"].as<std::vector<int>>())
+    // A log without streams has no list of keys
+    for (const auto key : node["keys"].as<std::vector<int>>(std::vector<int>{}))
     {
         const std::string stream_data_file = directory / fs::path(logKeyName(key) + ".log");
         streams_.emplace(key, stream_data_file);
-- 
2.43.0


From 3767748b880d9fc8cdf7e7275fe36c58480f5c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:57 +0000
Subject: [PATCH 11/61] fix: GLONASS positions are propagated from the closest
 ephemeris, not from whatever state the caller passes in

---
 common/satellite/satellite_state.cxx | 18 ++----------------
 1 file changed, 2 insertions(+), 16 deletions(-)

diff --git a/common/satellite/satellite_state.cxx b/common/satellite/satellite_state.cxx
index 4eb065e..4057fbb 100644
--- a/common/satellite/satellite_state.cxx
+++ b/common/satellite/satellite_state.cxx
@@ -119,22 +119,8 @@ Error eph2Sat(const UTCTime& t,
 
     // Position
     Vec6 x;
-    if (sat_state->t == INVALID_TIME)
-    {
-        auto p = x.head<3>();
-        auto v = x.tail<3>();
-        p = eph.pos;
-        v = eph.vel;
-    }
-    else
-    {
-        // Seed from last time
-        dt = (t - sat_state->t).toSec();
-        auto p = x.head<3>();
-        auto v = x.tail<3>();
-        p = sat_state->pos;
-        v = sat_state->vel;
-    }
+    x.head<3>() = eph.pos;
+    x.tail<3>() = eph.vel;
 
     double timestep = dt < 0.0 ? -TSTEP : TSTEP;
     int i = 0;
-- 
2.43.0


From 2f4baa24d9a637787c941dd94b5d73e45d2bf83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:48 +0000
Subject: [PATCH 12/61] fix: generated accessors of blocks with two variable
 sizes take the sizes in row, column order

The argument lists came from Python sets, so their order changed from run to run and
between a declaration and its uses; with two different sizes the wrong block was used.
---
 core/ekf/ekf_gen/ekf_gen.py              |  8 ++++----
 core/ekf/ekf_gen/ekf_gen_matrix_manip.py |  8 ++++----
 core/ekf/ekf_gen/ekf_gen_state.py        | 18 +++++++++---------
 core/ekf/rtk_ekf_impl.cxx                |  4 ++--
 4 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/core/ekf/ekf_gen/ekf_gen.py b/core/ekf/ekf_gen/ekf_gen.py
index f2a8de9..a17268a 100644
--- a/core/ekf/ekf_gen/ekf_gen.py
+++ b/core/ekf/ekf_gen/ekf_gen.py
@@ -79,9 +79,9 @@ def make_jacobian(name, matrix, row_states, col_states):
                     out.append(f"Mat<{sr.dx}, {sc.dx}> {jac_member_name(sr, sc)};")
                 if sr.variable and sr.name == None:
                     # Per-observation block accessor
-                    args = {f"int idx"}
+                    args = ["int idx"]
                     if sc.variable:
-                        args.add(f"int {sc.counter_var}")
+                        args.append(f"int {sc.counter_var}")
                     start_idx = f"idx * {sr.base_dx}"
                     block = f"{buffer_name(sr,sc)}.block({start_idx}, 0, {sr.base_dx}, {dim(sc)})"
                     decl = f"inline auto {jac_member_name(sr, sc)}({', '.join(args)})"
@@ -90,7 +90,7 @@ def make_jacobian(name, matrix, row_states, col_states):
                     out.append(f"{decl} const {impl}")
 
                 if sr.variable or sc.variable:
-                    args = {f"int {s.counter_var}" for s in [sr, sc] if s.variable}
+                    args = list(dict.fromkeys(f"int {s.counter_var}" for s in [sr, sc] if s.variable))
                     block = f"{buffer_name(sr, sc)}.block(0, 0, {dim(sr)}, {dim(sc)})"
                     fname = f"inline auto {jac_member_name(sr, sc)}"
                     if sr.variable and sr.name == None:
@@ -196,7 +196,7 @@ def make_jacobian_dense_impl(matrix, name, row_states, col_states):
         col_expr = 0
         for c, cs in enumerate(col_states):
             if rs.variable or cs.variable:
-                args = {f"{s.counter_var}" for s in (rs, cs) if s.variable}
+                args = list(dict.fromkeys(f"{s.counter_var}" for s in (rs, cs) if s.variable))
                 assigner = f"out.block({row_expr}, {col_expr}, {dim(rs)}, {dim(cs)})"
                 fname = f"{jac_member_name(rs, cs)}"
                 if rs.variable and rs.name == None:
diff --git a/core/ekf/ekf_gen/ekf_gen_matrix_manip.py b/core/ekf/ekf_gen/ekf_gen_matrix_manip.py
index 791d07d..8b9e615 100644
--- a/core/ekf/ekf_gen/ekf_gen_matrix_manip.py
+++ b/core/ekf/ekf_gen/ekf_gen_matrix_manip.py
@@ -49,7 +49,7 @@ def create_symbolic_dynamics_jacobian(cfg):
                 name = jac_member_name(rstate, cstate)
                 row.append(ConstBlock(name, dim(rstate), dim(cstate), rstate.dx, cstate.dx))
                 if rstate.variable or cstate.variable:
-                    args = {s.counter_var for s in [rstate, cstate] if s.variable}
+                    args = list(dict.fromkeys(s.counter_var for s in [rstate, cstate] if s.variable))
                     symbol_varname[name] = f"dxdx.{name}({', '.join(args)})"
                 else:
                     symbol_varname[name] = f"dxdx.{name}"
@@ -66,7 +66,7 @@ def create_symbolic_dynamics_jacobian(cfg):
                 name = jac_member_name(rstate, cstate)
                 row.append(ConstBlock(name, dim(rstate), dim(cstate), rstate.dx, cstate.dx))
                 if rstate.variable or cstate.variable:
-                    args = {s.counter_var for s in [rstate, cstate] if s.variable}
+                    args = list(dict.fromkeys(s.counter_var for s in [rstate, cstate] if s.variable))
                     symbol_varname[name] = f"dxdu.{name}({', '.join(args)})"
                 else:
                     symbol_varname[name] = f"dxdu.{name}"
@@ -85,7 +85,7 @@ def create_symbolic_covariance(cfg, var_name):
         if not rs.variable and not cs.variable:
             return f"{make_camel(rs.name)}_{make_camel(cs.name)}"
         else:
-            args = ', '.join({f"{s.counter_var}" for s in [rs, cs] if s.variable})
+            args = ', '.join(dict.fromkeys(f"{s.counter_var}" for s in [rs, cs] if s.variable))
             return f"{make_camel(rs.name)}_{make_camel(cs.name)}({args})"
 
     for r, rstate in enumerate(states):
@@ -343,7 +343,7 @@ def create_symbolic_measurement_jacobian(cfg, key):
             name = f"{jac_member_name(sr, sc)}"
             dzdx.append(ConstBlock(name, dim(meas_state), dim(sc), sr.dx, sc.dx))
             if meas_state.variable or sc.variable:
-                args = {s.counter_var for s in (meas_state, sc) if s.variable}
+                args = list(dict.fromkeys(s.counter_var for s in (meas_state, sc) if s.variable))
                 symbol_varname[
                     name] = f"dzdx.{name}{'_all' if meas_state.variable else ''}({','.join(args)})"
             else:
diff --git a/core/ekf/ekf_gen/ekf_gen_state.py b/core/ekf/ekf_gen/ekf_gen_state.py
index 4b95a34..599f958 100644
--- a/core/ekf/ekf_gen/ekf_gen_state.py
+++ b/core/ekf/ekf_gen/ekf_gen_state.py
@@ -48,7 +48,7 @@ def error_state_dense_decl(cfg):
 
     if len(variable_states) > 0:
         out_type = "Eigen::VectorXd"
-        args = {f"int {s.counter_var}" for s in variable_states}
+        args = list(dict.fromkeys(f"int {s.counter_var}" for s in variable_states))
     else:
         args = {}
         out_type = f"Vec<{sum([s.dx for s in states])}>"
@@ -149,7 +149,7 @@ def covariance_members(cfg):
             if not s1.variable and not s2.variable:
                 out.append(f"Mat<{s1.dx}, {s2.dx}> {member_name(s1, s2)};")
             if s1.variable or s2.variable:
-                args = {f"int {s.counter_var}" for s in [s1, s2] if s.variable}
+                args = list(dict.fromkeys(f"int {s.counter_var}" for s in [s1, s2] if s.variable))
                 block = f"{buffer_name(s1, s2)}.block(0, 0, {dim(s1)}, {dim(s2)})"
                 out.append(
                     f"inline auto {member_name(s1, s2)}({', '.join(args)}){{ return {block}; }}"
@@ -206,7 +206,7 @@ def covariance_dense_decl(cfg):
 
     if len(variable_states) > 0:
         out_type = "Eigen::MatrixXd"
-        args = {f"int {s.counter_var}" for s in variable_states}
+        args = list(dict.fromkeys(f"int {s.counter_var}" for s in variable_states))
     else:
         args = {}
         dx = sum([s.dx for s in states])
@@ -510,7 +510,7 @@ def input_dense_decl(cfg):
 
     if len(variable_states) > 0:
         out_type = "Eigen::VectorXd"
-        args = {f"int {s.counter_var}" for s in variable_states}
+        args = list(dict.fromkeys(f"int {s.counter_var}" for s in variable_states))
     else:
         args = {}
         out_type = f"Vec<{sum([s.dx for s in states])}>"
@@ -535,7 +535,7 @@ def process_covariance_dense_decl(cfg):
 
     if len(variable_states) > 0:
         out_type = "Eigen::MatrixXd"
-        args = {f"int {s.counter_var}" for s in variable_states}
+        args = list(dict.fromkeys(f"int {s.counter_var}" for s in variable_states))
     else:
         args = {}
         dx = sum([s.dx for s in states])
@@ -561,7 +561,7 @@ def input_covariance_dense_decl(cfg):
 
     if len(variable_states) > 0:
         out_type = "Eigen::MatrixXd"
-        args = {f"int {s.counter_var}" for s in variable_states}
+        args = list(dict.fromkeys(f"int {s.counter_var}" for s in variable_states))
     else:
         args = {}
         dx = sum([s.dx for s in states])
@@ -670,7 +670,7 @@ def make_dense_vector(states, name):
     out = []
     if len(variable_states) > 0:
         out_type = "Eigen::VectorXd"
-        args = {f"int {s.counter_var}" for s in variable_states}
+        args = list(dict.fromkeys(f"int {s.counter_var}" for s in variable_states))
     else:
         args = {}
         dx = sum([s.dx for s in states])
@@ -707,7 +707,7 @@ def make_dense_matrix(row_states, col_states, name, symmetric=False, diagonal=Fa
     variable_col_states = [s for s in col_states if s.variable]
     if len(variable_rows_states) > 0 or len(variable_col_states) > 0:
         out_type = "Eigen::MatrixXd"
-        args = {f"int {s.counter_var}" for s in variable_rows_states + variable_col_states}
+        args = list(dict.fromkeys(f"int {s.counter_var}" for s in variable_rows_states + variable_col_states))
     else:
         args = {}
         r_dx = sum([s.dx for s in fixed_rows_states])
@@ -729,7 +729,7 @@ def make_dense_matrix(row_states, col_states, name, symmetric=False, diagonal=Fa
                 getter = f"{make_camel(rs.name)}_{make_camel(cs.name)}"
         else:
             assign = f"out.block({row_accum}, {col_accum}, {dim(rs)}, {dim(cs)})"
-            args = {s.counter_var for s in (rs, cs) if s.variable}
+            args = list(dict.fromkeys(s.counter_var for s in (rs, cs) if s.variable))
             if diagonal:
                 getter = f"{make_camel(rs.name)}.replicate({rs.counter_var}, 1).asDiagonal()"
             else:
diff --git a/core/ekf/rtk_ekf_impl.cxx b/core/ekf/rtk_ekf_impl.cxx
index 5e27f4a..e9d9420 100644
--- a/core/ekf/rtk_ekf_impl.cxx
+++ b/core/ekf/rtk_ekf_impl.cxx
@@ -215,8 +215,8 @@ fixAndHoldMeas::Residual h<fixAndHoldMeas>(const fixAndHoldMeas::ZType& z,
 
     if (jac)
     {
-        jac->dSd_all(num_sd, num_fix_and_hold).setZero();
-        jac->dSd_all(num_sd, num_fix_and_hold).diagonal().setConstant(-1.0);
+        jac->dSd_all(num_fix_and_hold, num_sd).setZero();
+        jac->dSd_all(num_fix_and_hold, num_sd).diagonal().setConstant(-1.0);
     }
 
     return res;
-- 
2.43.0


From 5a3918b29650c6cfb06362bbb6116749ab086375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:34 +0000
Subject: [PATCH 13/61] fix: generated filter code never reads the unset part
 of variable-size buffers

Jacobians, covariances and residuals of variable-size states and measurements only have
their used block written, but finiteness checks and gating looked at the whole buffer.
---
 core/ekf/ekf_gen/ekf_gen.py              | 3 ++-
 core/ekf/ekf_gen/ekf_gen_matrix_manip.py | 4 +++-
 core/ekf/ekf_gen/ekf_gen_state.py        | 9 +++++----
 core/ekf/ekf_gen/ekf_gen_templates.py    | 2 +-
 core/ekf/rtk_ekf_impl.cxx                | 4 ++--
 5 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/core/ekf/ekf_gen/ekf_gen.py b/core/ekf/ekf_gen/ekf_gen.py
index a17268a..86449b8 100644
--- a/core/ekf/ekf_gen/ekf_gen.py
+++ b/core/ekf/ekf_gen/ekf_gen.py
@@ -46,7 +46,8 @@ def make_jacobian(name, matrix, row_states, col_states):
         for row in matrix:
             for sr, sc in row:
                 if sr.variable or sc.variable:
-                    out.append(f"Mat<{sr.dx}, {sc.dx}> {buffer_name(sr, sc)};")
+                    type_name = f"Mat<{sr.dx}, {sc.dx}>"
+                    out.append(f"{type_name} {buffer_name(sr, sc)} = {type_name}::Zero();")
         return "\n    ".join(out)
 
     def dim(s):
diff --git a/core/ekf/ekf_gen/ekf_gen_matrix_manip.py b/core/ekf/ekf_gen/ekf_gen_matrix_manip.py
index 8b9e615..c1b1d8f 100644
--- a/core/ekf/ekf_gen/ekf_gen_matrix_manip.py
+++ b/core/ekf/ekf_gen/ekf_gen_matrix_manip.py
@@ -401,7 +401,7 @@ def sparse_meas_update(cfg, key):
     else:
         inverse = f"llt().solve(MatX::Identity(size_{meas_state.name}, size_{meas_state.name}))"
         inverse = "inverse()"
-        HPHT_impl.append(f"{make_type(Sinv[0,0])} Sinv;")
+        HPHT_impl.append(f"{make_type(Sinv[0,0])} Sinv = {make_type(Sinv[0,0])}::Zero();")
         block_args = f"0,0,size_{meas_state.name},size_{meas_state.name}"
         HPHT_impl.append(f"Sinv.block({block_args}) = HPHT.block({block_args}).{inverse};")
     tmp = "\n    ".join(HPHT_impl)
@@ -425,6 +425,8 @@ def sparse_meas_update(cfg, key):
     return {
         "SPARSE_PHT": SPARSE_PHT,
         "SPARSE_INNOVATION": SPARSE_INNOVATION,
+        "RES": symbol_varname["res"],
+        "SINV": symbol_varname["Sinv"],
         "SPARSE_KALMAN_GAIN": SPARSE_KALMAN_GAIN,
         "SPARSE_COMPUTE_ERROR_STATE": SPARSE_COMPUTE_ERROR_STATE,
         "SPARSE_COVARIANCE_UPDATE": SPARSE_COVARIANCE_UPDATE,
diff --git a/core/ekf/ekf_gen/ekf_gen_state.py b/core/ekf/ekf_gen/ekf_gen_state.py
index 599f958..bc1d39f 100644
--- a/core/ekf/ekf_gen/ekf_gen_state.py
+++ b/core/ekf/ekf_gen/ekf_gen_state.py
@@ -24,7 +24,7 @@ def error_state_buffers(cfg):
 
     out = []
     for s in variable_states:
-        out.append(f"Vec<{s.dx}> {s.name}_buf_;")
+        out.append(f"Vec<{s.dx}> {s.name}_buf_ = Vec<{s.dx}>::Zero();")
 
     return "\n    ".join(out)
 
@@ -122,7 +122,8 @@ def covariance_buffers(cfg):
             if r > c:
                 continue
             if s1.variable or s2.variable:
-                out.append(f"Mat<{s1.dx}, {s2.dx}> {buffer_name(s1, s2)};")
+                type_name = f"Mat<{s1.dx}, {s2.dx}>"
+                out.append(f"{type_name} {buffer_name(s1, s2)} = {type_name}::Zero();")
     return "\n    ".join(out)
 
 
@@ -578,8 +579,8 @@ def finite_state(cfg):
     for i, s in enumerate(fixed_states):
         out.append(f"is_finite &= mc::isFinite(x.{s.name});")
     for s in variable_states:
-        out.append(f"for (const auto& sub_field : x.{s.name}){{")
-        out.append("    is_finite &= mc::isFinite(sub_field);")
+        out.append(f"for (size_t i = 0; i < x.{s.counter_var}; ++i) {{")
+        out.append(f"    is_finite &= mc::isFinite(x.{s.name}[i]);")
         out.append("}")
     out.append("return is_finite;")
     return "\n    ".join(out)
diff --git a/core/ekf/ekf_gen/ekf_gen_templates.py b/core/ekf/ekf_gen/ekf_gen_templates.py
index 8bfd700..d52311a 100644
--- a/core/ekf/ekf_gen/ekf_gen_templates.py
+++ b/core/ekf/ekf_gen/ekf_gen_templates.py
@@ -689,7 +689,7 @@ Error doUpdate<{Meas}>(Out<Snapshot> snap,
     {SPARSE_INNOVATION}
     check(mc::isFinite(Sinv), "numerical issues in innovation");
 
-    const double mahal = res.transpose() * Sinv * res;
+    const double mahal = {RES}.dot({SINV} * {RES});
     // Gating values with prob less than MAX_PROB (using χ² distribution with DOF = SIZE-1)
     if (mahal > {Meas}::MAX_MAHAL)
     {{
diff --git a/core/ekf/rtk_ekf_impl.cxx b/core/ekf/rtk_ekf_impl.cxx
index e9d9420..9141f93 100644
--- a/core/ekf/rtk_ekf_impl.cxx
+++ b/core/ekf/rtk_ekf_impl.cxx
@@ -118,7 +118,7 @@ obsMeas::Residual h<obsMeas>(const obsMeas::ZType& z,
     const math::Quat<double> q_b2e = (x.pose.rotation().inverse() * x.T_I2e.rotation());
     const Vec3 v_I2g_e = q_b2e.rotp(v_I2g_b);
 
-    obsMeas::Residual residual;
+    obsMeas::Residual residual = obsMeas::Residual::Zero();
 
     for (size_t i = 0; i < z.size(); ++i)
     {
@@ -207,7 +207,7 @@ fixAndHoldMeas::Residual h<fixAndHoldMeas>(const fixAndHoldMeas::ZType& z,
           "estimate.  num_sd = {}, num_fix_and_hold = {}",
           fmt(num_sd, num_fix_and_hold));
 
-    fixAndHoldMeas::Residual res;
+    fixAndHoldMeas::Residual res = fixAndHoldMeas::Residual::Zero();
     for (int i = 0; i < num_sd; ++i)
     {
         res[i] = (z[i] - x.sd[i])[0];
-- 
2.43.0


From 8495d0fb7c22aa99d8e0bc25e8434c622bdd91ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:09 +0000
Subject: [PATCH 14/61] fix: copying a generated state keeps its time stamp

---
 core/ekf/ekf_gen/ekf_gen_state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ekf/ekf_gen/ekf_gen_state.py b/core/ekf/ekf_gen/ekf_gen_state.py
index bc1d39f..b8a2276 100644
--- a/core/ekf/ekf_gen/ekf_gen_state.py
+++ b/core/ekf/ekf_gen/ekf_gen_state.py
@@ -218,7 +218,7 @@ def covariance_dense_decl(cfg):
 def copy_state(cfg):
     states = cfg['state_composition']
 
-    out = []
+    out = ["t = other.t;"]
     for s in [s for s in states if not s.variable]:
         out.append(f"{s.name} = other.{s.name};")
     out.append("")
-- 
2.43.0


From 0f60f76b45d969ed3c7f671aaedb4f0b33bd73d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:56 +0000
Subject: [PATCH 15/61] fix: the estimator rewinds past every state that
 already includes later measurements

---
 core/ekf/rtk_ekf_estimator.cxx | 48 ++++++++++++++++++++++++++++++++++
 core/ekf/rtk_ekf_estimator.h   | 21 ++++++---------
 2 files changed, 56 insertions(+), 13 deletions(-)

diff --git a/core/ekf/rtk_ekf_estimator.cxx b/core/ekf/rtk_ekf_estimator.cxx
index d3a6969..0d63d4a 100644
--- a/core/ekf/rtk_ekf_estimator.cxx
+++ b/core/ekf/rtk_ekf_estimator.cxx
@@ -182,6 +182,54 @@ void RtkEkfEstimator::handleMeas(const Meas& meas)
                meas.z);
 }
 
+bool RtkEkfEstimator::isAheadOf(const MeasIterator& meas) const
+{
+    if (t() > meas->t)
+    {
+        return true;
+    }
+
+    // A state includes the measurements up to a quantum past its own time
+    for (auto it = std::next(meas); it != measurements_.end(); ++it)
+    {
+        if (it->t > t().quantized())
+        {
+            break;
+        }
+        if (!std::holds_alternative<ImuMeas>(it->z))
+        {
+            return true;
+        }
+    }
+    return false;
+}
+
+RtkEkfEstimator::MeasIterator RtkEkfEstimator::rewind(const MeasIterator& meas)
+{
+    MeasIterator begin = meas;
+    while (states_.size() > 1 && isAheadOf(meas))
+    {
+        // Re-apply what the removed states included, unless all of that comes after meas anyway
+        begin = t() > meas->t ? meas : measurements_.lower_bound(Meas{t(), {}});
+        states_.pop_back();
+    }
+
+    if (!isAheadOf(meas))
+    {
+        return begin;
+    }
+
+    // There is nothing older than the front of the buffer to go back to, so fuse the measurement on
+    // top of it, and carry on with the measurements that the front does not include yet
+    handleMeas(*meas);
+    MeasIterator next = std::next(meas);
+    while (next != measurements_.end() && !(next->t > t().quantized()))
+    {
+        ++next;
+    }
+    return next;
+}
+
 const RtkEkfEstimator::Meas& RtkEkfEstimator::rollFilter(const MeasIterator& start,
                                                          const MeasIterator& end)
 {
diff --git a/core/ekf/rtk_ekf_estimator.h b/core/ekf/rtk_ekf_estimator.h
index 4037f19..7e6e206 100644
--- a/core/ekf/rtk_ekf_estimator.h
+++ b/core/ekf/rtk_ekf_estimator.h
@@ -118,19 +118,7 @@ class RtkEkfEstimator
 
         auto it = measurements_.insert(Meas{meas_time, z});
 
-        if (meas_time < t())
-        {
-            // Out-of-order measurement.  We need to rewind to apply it.
-            MeasIterator catchup_begin = measurements_.lower_bound(Meas{meas_time, {}});
-
-            // rewind the state buffer
-            while (t() > catchup_begin->t)
-            {
-                states_.pop_back();
-            }
-        }
-
-        rollFilter(it, measurements_.end());
+        rollFilter(rewind(it), measurements_.end());
 
         dropOldMeasurements();
 
@@ -152,6 +140,13 @@ class RtkEkfEstimator
 
     void handleMeas(const Meas& meas);
 
+    // Rewinds the state buffer to a state that no measurement ordered after `meas` has been applied
+    // to, and returns the first measurement to roll forward from
+    MeasIterator rewind(const MeasIterator& meas);
+
+    // true if the newest state includes a measurement that is ordered after `meas`
+    bool isAheadOf(const MeasIterator& meas) const;
+
     const Meas& rollFilter(const MeasIterator& start, const MeasIterator& end);
 
     const Snapshot& snap() const { return states_.back(); }
-- 
2.43.0


From 7828e056320687b17fdcc4c9ab3878ec6cf61bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:00 +0000
Subject: [PATCH 16/61] fix: an IMU sample within a time quantum of the newest
 state does not abort the estimator

---
 core/ekf/rtk_ekf_estimator.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ekf/rtk_ekf_estimator.cxx b/core/ekf/rtk_ekf_estimator.cxx
index 0d63d4a..4293bec 100644
--- a/core/ekf/rtk_ekf_estimator.cxx
+++ b/core/ekf/rtk_ekf_estimator.cxx
@@ -93,7 +93,7 @@ void RtkEkfEstimator::handleImu(const UTCTime& meas_time, const ImuMeas& z)
 
 void RtkEkfEstimator::handleImu(const UTCTime& meas_time, const Input& z)
 {
-    if (meas_time > t())
+    if (meas_time > t().quantized())
     {
         Snapshot& snap = states_.back();
         states_.emplace_back();
-- 
2.43.0


From 539e8436d93e02e6d942d9b8e48ed265b151fa4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:00 +0000
Subject: [PATCH 17/61] fix: satellite observations reach the measurement model
 with their constellation

---
 core/ekf/rtk_ekf_estimator.cxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/ekf/rtk_ekf_estimator.cxx b/core/ekf/rtk_ekf_estimator.cxx
index 4293bec..9fcc1ae 100644
--- a/core/ekf/rtk_ekf_estimator.cxx
+++ b/core/ekf/rtk_ekf_estimator.cxx
@@ -154,7 +154,9 @@ void RtkEkfEstimator::handleObsMeas(const UTCTime& meas_time,
     for (const auto& o : obs_bundle)
     {
         check(o.t == meas_time, "all measurement timestamps in a GNSS bundle must match");
-        z.push_back({Vec2(o.pseudorange, o.doppler), getCache(o.t, o.gnss_id, o.sat_num)});
+        z.push_back({Vec2(o.pseudorange, o.doppler),
+                     getCache(o.t, o.gnss_id, o.sat_num),
+                     o.gnss_id});
     }
 
     const auto res = update<obsMeas>(make_out(snap()), z, obs_cov_, u());
-- 
2.43.0


From 04c2954219f8c6c467bfc8ffde86c4dbd83e03a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:35 +0000
Subject: [PATCH 18/61] fix: the estimator rejects observations it has no
 satellite or ephemeris for instead of aborting

---
 common/satellite/satellite.h         |  7 +++++
 common/satellite/satellite_state.cxx | 10 +++++++
 common/satellite/satellite_state.h   |  4 +++
 core/ekf/rtk_ekf_estimator.cxx       | 43 ++++++++++++++++++++++++++--
 core/ekf/rtk_ekf_estimator.h         | 12 ++++----
 5 files changed, 68 insertions(+), 8 deletions(-)

diff --git a/common/satellite/satellite.h b/common/satellite/satellite.h
index 6b29c8d..133c9b7 100644
--- a/common/satellite/satellite.h
+++ b/common/satellite/satellite.h
@@ -24,6 +24,8 @@ class SatelliteBase
 
     virtual double carrierWavelength(int freq) const = 0;
     virtual int almanacSize() const = 0;
+    // True if the almanac has an ephemeris that is current enough to compute the state at t
+    virtual bool hasEphemeris(const UTCTime& t) const = 0;
 
  private:
     uint8_t gnss_id_;  // GNSS system
@@ -91,6 +93,11 @@ class Satellite : public SatelliteBase
 
     int almanacSize() const override { return almanac_.size(); }
 
+    bool hasEphemeris(const UTCTime& t) const override
+    {
+        return !almanac_.empty() && isCurrent(t, findClosestEphemeris(t));
+    }
+
     Error getState(const UTCTime& t, Out<SatelliteState> sat_state) const override
     {
         return eph2Sat(t, findClosestEphemeris(t), sat_state);
diff --git a/common/satellite/satellite_state.cxx b/common/satellite/satellite_state.cxx
index 4057fbb..a8956b2 100644
--- a/common/satellite/satellite_state.cxx
+++ b/common/satellite/satellite_state.cxx
@@ -9,6 +9,16 @@ static constexpr double MAXDTOE = 7200;  // Maximum allowable age of ephemeris (
 namespace mc {
 namespace satellite {
 
+bool isCurrent(const UTCTime& t, const ephemeris::KeplerianEphemeris& eph)
+{
+    return std::fabs((t - eph.toe).toSec()) <= MAXDTOE;
+}
+
+bool isCurrent(const UTCTime&, const ephemeris::GlonassEphemeris&)
+{
+    return true;  // propagated numerically, however old it is
+}
+
 Error eph2Sat(const UTCTime& t,
               const ephemeris::KeplerianEphemeris& eph,
               Out<SatelliteState> sat_state)
diff --git a/common/satellite/satellite_state.h b/common/satellite/satellite_state.h
index 4f8a762..67b0c79 100644
--- a/common/satellite/satellite_state.h
+++ b/common/satellite/satellite_state.h
@@ -24,6 +24,10 @@ struct SatelliteState
 Error eph2Sat(const UTCTime& t, const ephemeris::KeplerianEphemeris& eph, Out<SatelliteState> sat);
 Error eph2Sat(const UTCTime& t, const ephemeris::GlonassEphemeris& eph, Out<SatelliteState> sat);
 
+// True if the ephemeris is not too old (or too far ahead) to compute the state at t
+bool isCurrent(const UTCTime& t, const ephemeris::KeplerianEphemeris& eph);
+bool isCurrent(const UTCTime& t, const ephemeris::GlonassEphemeris& eph);
+
 Vec6 glonassOrbit(const Vec6& x, const Vec3& acc);
 
 }  // namespace satellite
diff --git a/core/ekf/rtk_ekf_estimator.cxx b/core/ekf/rtk_ekf_estimator.cxx
index 9fcc1ae..a1dd760 100644
--- a/core/ekf/rtk_ekf_estimator.cxx
+++ b/core/ekf/rtk_ekf_estimator.cxx
@@ -70,7 +70,37 @@ void RtkEkfEstimator::dropOldMeasurements()
 
 bool RtkEkfEstimator::hasCache(int gnss_id, int sat_num) const
 {
-    return sat_cache_.find(cacheId(gnss_id, sat_num)) != sat_cache_.end();
+    // The registry drops old satellites when it runs full
+    const satellite::SatelliteBase* sat;
+    return sat_cache_.find(cacheId(gnss_id, sat_num)) != sat_cache_.end() &&
+           sat_manager_.getSat(gnss_id, sat_num, make_out(sat)).ok();
+}
+
+Error RtkEkfEstimator::checkBundle(const std::vector<meas::GnssObservation>& bundle) const
+{
+    if (bundle.size() * 2 > obsMeas::MAX_SIZE)
+    {
+        warn("Too many observations in one bundle: {}", fmt(bundle.size()));
+        return Error::create("Too many observations");
+    }
+
+    for (const auto& obs : bundle)
+    {
+        const satellite::SatelliteBase* sat;
+        if (!hasCache(obs.gnss_id, obs.sat_num))
+        {
+            warn("Unknown {} Satellite {}", fmt(obs.gnss_id, obs.sat_num));
+            return Error::create("Unknown satellite");
+        }
+        sat_manager_.getSat(obs.gnss_id, obs.sat_num, make_out(sat));
+        // The signal was transmitted up to a second before it was received
+        if (!sat->hasEphemeris(obs.t) || !sat->hasEphemeris(obs.t - 1.0))
+        {
+            warn("No current ephemeris for {} Satellite {}", fmt(obs.gnss_id, obs.sat_num));
+            return Error::create("Stale ephemeris");
+        }
+    }
+    return Error::none();
 }
 
 const satellite::SatelliteCache& RtkEkfEstimator::getCache(const UTCTime& t,
@@ -150,10 +180,19 @@ void RtkEkfEstimator::handleObsMeas(const UTCTime& meas_time,
         handleImu(meas_time, u());
     }
     obsMeas::ZType z;
+    std::vector<const meas::GnssObservation*> used;
     z.reserve(obs_bundle.size());
+    used.reserve(obs_bundle.size());
     for (const auto& o : obs_bundle)
     {
         check(o.t == meas_time, "all measurement timestamps in a GNSS bundle must match");
+        if (!hasCache(o.gnss_id, o.sat_num))
+        {
+            // The satellite has been dropped since the bundle was accepted
+            warn("Unknown {} Satellite {}", fmt(o.gnss_id, o.sat_num));
+            continue;
+        }
+        used.push_back(&o);
         z.push_back({Vec2(o.pseudorange, o.doppler),
                      getCache(o.t, o.gnss_id, o.sat_num),
                      o.gnss_id});
@@ -167,7 +206,7 @@ void RtkEkfEstimator::handleObsMeas(const UTCTime& meas_time,
             const Vec2& z_i = z[i].z;
             const Vec2 residual_i = res.res().segment<2>(i * 2);
             const Vec2 zhat = z_i - residual_i;
-            const int sat_id = obs_bundle[i].sat_num;
+            const int sat_id = used[i]->sat_num;
             log_->log(logging::GPS_OBS_RESIDUAL, meas_time, sat_id, residual_i, z_i, zhat);
         }
     }
diff --git a/core/ekf/rtk_ekf_estimator.h b/core/ekf/rtk_ekf_estimator.h
index 7e6e206..afa61f5 100644
--- a/core/ekf/rtk_ekf_estimator.h
+++ b/core/ekf/rtk_ekf_estimator.h
@@ -106,13 +106,10 @@ class RtkEkfEstimator
 
         if constexpr (std::is_same_v<T, std::vector<meas::GnssObservation>>)
         {
-            for (const auto& obs : z)
+            const Error err = checkBundle(z);
+            if (!err.ok())
             {
-                if (!hasCache(obs.gnss_id, obs.sat_num))
-                {
-                    warn("Unknown {} Satellite {}", fmt(obs.gnss_id, obs.sat_num));
-                    return Error::create("Unknown satellite");
-                }
+                return err;
             }
         }
 
@@ -129,6 +126,9 @@ class RtkEkfEstimator
 
     bool hasCache(int gnss_id, int sat_num) const;
 
+    // Checks that every observation of the bundle can be used
+    Error checkBundle(const std::vector<meas::GnssObservation>& bundle) const;
+
     const satellite::SatelliteCache& getCache(const UTCTime& t, int gnss_id, int sat_id) const;
 
     void handleImu(const UTCTime& meas_time, const ImuMeas& z);
-- 
2.43.0


From 0c5ec07a4312640a37aece2d41df30814ca69c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:39 +0000
Subject: [PATCH 19/61] fix: GPS ephemerides never mix the third subframe of
 one issue with the others of another

---
 common/ephemeris/gps.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/ephemeris/gps.cxx b/common/ephemeris/gps.cxx
index f5b44df..f0f6681 100644
--- a/common/ephemeris/gps.cxx
+++ b/common/ephemeris/gps.cxx
@@ -96,6 +96,7 @@ bool GPSEphemeris::parse(const uint8_t* buf, size_t size)
 
     // Reset synchronization
     iode1 = iode2 = iode3 = 0;
+    collected_subframes = 0;
 
     return true;
 }
@@ -178,7 +179,6 @@ bool GPSEphemeris::frame3(const uint8_t* buf)
     iode3 = getBit<8>(buf, 216);
     idot = getBit<14, Signed>(buf, 224) * P2_43 * PI;
 
-    iode3 = iode;
     collected_subframes |= FRAME3;
 
     return true;
-- 
2.43.0


From 6ed537b19ebbdb9f4ee071e8a59928d0cd00da6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:39 +0000
Subject: [PATCH 20/61] fix: GPS reference times past the end of the week of
 transmission are not a week early

---
 common/ephemeris/gps.cxx | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/common/ephemeris/gps.cxx b/common/ephemeris/gps.cxx
index f0f6681..5c4d11f 100644
--- a/common/ephemeris/gps.cxx
+++ b/common/ephemeris/gps.cxx
@@ -15,6 +15,8 @@ constexpr double GPSEphemeris::LAMBDA_L1;
 constexpr double GPSEphemeris::LAMBDA_L2;
 constexpr double GPSEphemeris::LAMBDA_L5;
 
+static constexpr int64_t SEC_IN_HALF_WEEK = UTCTime::SEC_IN_WEEK / 2;
+
 GPSEphemeris::GPSEphemeris(int sat_id)
 {
     gnssID = GnssID::GPS;
@@ -90,9 +92,13 @@ bool GPSEphemeris::parse(const uint8_t* buf, size_t size)
 
     dbg("Got all subframes");
 
-    // Set toe and toc
-    toe = UTCTime::fromGPS(week, toes * 1000);
-    toc = UTCTime::fromGPS(week, tocs * 1000);
+    // Set toe and toc, which may be in the week after (or before) the one of transmission
+    const auto closestWeek = [&](int64_t sow) {
+        const int64_t dt = sow - tow;
+        return dt > SEC_IN_HALF_WEEK ? week - 1 : dt < -SEC_IN_HALF_WEEK ? week + 1 : week;
+    };
+    toe = UTCTime::fromGPS(closestWeek(toes), toes * 1000);
+    toc = UTCTime::fromGPS(closestWeek(tocs), tocs * 1000);
 
     // Reset synchronization
     iode1 = iode2 = iode3 = 0;
@@ -109,7 +115,7 @@ bool GPSEphemeris::frame1(const uint8_t* buf)
         return false;
     }
     dbg("GOT FRAME 1");
-    // double tow = getBit<17>(buf, 24) * 6.0;
+    tow = getBit<17>(buf, 24) * 6;
     int week_mod = getBit<10>(buf, 48);  // This is the week modulo 2^10
     code_on_L2 = getBit<2>(buf, 58);
     ura = getBit<4>(buf, 60);
-- 
2.43.0


From 5e7feea83e316e1e1aefcd584366a06d2301cf97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:57 +0000
Subject: [PATCH 21/61] fix: incomplete Galileo pages are rejected instead of
 read past their end

---
 common/ephemeris/galileo.cxx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/common/ephemeris/galileo.cxx b/common/ephemeris/galileo.cxx
index 817f3d7..8e3fcd3 100644
--- a/common/ephemeris/galileo.cxx
+++ b/common/ephemeris/galileo.cxx
@@ -47,7 +47,12 @@ double GalileoEphemeris::getWavelength(int frequency) const
 
 bool GalileoEphemeris::parse(const uint8_t* msg, size_t size)
 {
-    (void)size;
+    if (size < 32)
+    {
+        dbg("Incomplete Galileo page");
+        return false;
+    }
+
     // swap buffer endianness
     uint8_t buf[64];
     const uint8_t* p = msg;
-- 
2.43.0


From 578a1d29b63b966ac320def75272408c9f4be4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:57 +0000
Subject: [PATCH 22/61] fix: a Galileo ephemeris is yielded once (its week was
 moved 1024 weeks ahead by every further page)

---
 common/ephemeris/galileo.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/ephemeris/galileo.cxx b/common/ephemeris/galileo.cxx
index 8e3fcd3..6fe6553 100644
--- a/common/ephemeris/galileo.cxx
+++ b/common/ephemeris/galileo.cxx
@@ -178,6 +178,9 @@ bool GalileoEphemeris::parse(const uint8_t* msg, size_t size)
     toe = UTCTime::fromGalileo(week, toes * 1000);
     toc = UTCTime::fromGalileo(week, tocs * 1000.0);
 
+    // The next ephemeris needs all of its words again
+    collected_subframes = 0x00;
+
     return true;
 }
 
-- 
2.43.0


From aa9af6e710c1ae887473d865517734f5cf2434b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:57 +0000
Subject: [PATCH 23/61] fix: a Galileo clock word of another satellite does not
 overwrite the one collected

---
 common/ephemeris/galileo.cxx | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/common/ephemeris/galileo.cxx b/common/ephemeris/galileo.cxx
index 6fe6553..397fecd 100644
--- a/common/ephemeris/galileo.cxx
+++ b/common/ephemeris/galileo.cxx
@@ -255,8 +255,13 @@ bool GalileoEphemeris::frame3(const uint8_t* buf)
 bool GalileoEphemeris::frame4(const uint8_t* buf)
 {
     int type = getBit<6>(buf, 0);
-    iod[3] = getBit<10>(buf, 6);
     int svid = getBit<6>(buf, 16);
+    if (svid != sat)
+    {
+        dbg("Galileo satellite id doesn't match: expected {}, got {}", fmt(sat, svid));
+        return false;
+    }
+    iod[3] = getBit<10>(buf, 6);
     cic = getBit<16, Signed>(buf, 22) * P2_29;
     cis = getBit<16, Signed>(buf, 38) * P2_29;
     tocs = getBit<14>(buf, 54) * 60.0;
@@ -269,11 +274,6 @@ bool GalileoEphemeris::frame4(const uint8_t* buf)
         dbg("Galileo word type 4 error : expected=4, got {}", fmt(type));
         return false;
     }
-    if (svid != sat)
-    {
-        dbg("Galileo satellite id doesn't match: expected {}, got {}", fmt(sat, svid));
-        return false;
-    }
     collected_subframes |= FRAME4;
     return true;
 }
-- 
2.43.0


From 7da87c9de6be4a16f8c224cfd976964a01fb5e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:57 +0000
Subject: [PATCH 24/61] fix: Galileo data validity flags are read from their
 own bits, not from the E1-B health status

---
 common/ephemeris/galileo.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/ephemeris/galileo.cxx b/common/ephemeris/galileo.cxx
index 397fecd..be76210 100644
--- a/common/ephemeris/galileo.cxx
+++ b/common/ephemeris/galileo.cxx
@@ -285,8 +285,8 @@ bool GalileoEphemeris::frame5(const uint8_t* buf)
     bgd_e1_e5b = getBit<10, Signed>(buf, 57) * P2_32;
     e5b_hs = getBit<2>(buf, 67);
     e1b_hs = getBit<2>(buf, 69);
-    e5b_dvs = getBit<1>(buf, 70);
-    e1b_dvs = getBit<1>(buf, 71);
+    e5b_dvs = getBit<1>(buf, 71);
+    e1b_dvs = getBit<1>(buf, 72);
     // week = getBit<12>(buf, 72);
     // tow = getBit<20>(buf, 84); // Use frame 0 for time
 
-- 
2.43.0


From a25de8fe9b1a5fdca69b0ee7a47d0910d6c904e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:57 +0000
Subject: [PATCH 25/61] fix: GLONASS ephemeris times are on the day of the
 ephemeris, not of the almanac

---
 common/ephemeris/glonass.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/ephemeris/glonass.cxx b/common/ephemeris/glonass.cxx
index 160649c..00913f4 100644
--- a/common/ephemeris/glonass.cxx
+++ b/common/ephemeris/glonass.cxx
@@ -201,7 +201,7 @@ bool GlonassEphemeris::convertTime()
     static UTCTime Jan1_1996 = UTCTime::fromCalendar(1996, 1, 1, 0, 0, 0);
     UTCTime start_of_year =
         Jan1_1996 + (N4_ - 1) * (3 * UTCTime::SEC_IN_YEAR + UTCTime::SEC_IN_LEAP_YEAR) - (3 * 3600);
-    UTCTime start_of_day = start_of_year + (NA_ - 1) * UTCTime::SEC_IN_DAY;
+    UTCTime start_of_day = start_of_year + (NT_ - 1) * UTCTime::SEC_IN_DAY;
 
     // Convert t_k (tof) to UTC
     if (got(FRAME1))
-- 
2.43.0


From 8a82acc00b739689cd3e92627c574484c78da43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:50 +0000
Subject: [PATCH 26/61] fix: GLONASS times do not overflow after 2067

---
 common/ephemeris/glonass.cxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/common/ephemeris/glonass.cxx b/common/ephemeris/glonass.cxx
index 00913f4..84b6268 100644
--- a/common/ephemeris/glonass.cxx
+++ b/common/ephemeris/glonass.cxx
@@ -199,8 +199,9 @@ bool GlonassEphemeris::convertTime()
         return false;
 
     static UTCTime Jan1_1996 = UTCTime::fromCalendar(1996, 1, 1, 0, 0, 0);
-    UTCTime start_of_year =
-        Jan1_1996 + (N4_ - 1) * (3 * UTCTime::SEC_IN_YEAR + UTCTime::SEC_IN_LEAP_YEAR) - (3 * 3600);
+    UTCTime start_of_year = Jan1_1996 - (3 * 3600);
+    start_of_year.sec +=
+        int64_t(N4_ - 1) * (3 * UTCTime::SEC_IN_YEAR + UTCTime::SEC_IN_LEAP_YEAR);
     UTCTime start_of_day = start_of_year + (NT_ - 1) * UTCTime::SEC_IN_DAY;
 
     // Convert t_k (tof) to UTC
-- 
2.43.0


From 44b648ae02b8105dda1362ba832172d922ff26ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:37 +0000
Subject: [PATCH 27/61] fix: Galileo word 0 is used as the time only when it
 carries one

---
 common/ephemeris/galileo.cxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/common/ephemeris/galileo.cxx b/common/ephemeris/galileo.cxx
index be76210..71f5fb7 100644
--- a/common/ephemeris/galileo.cxx
+++ b/common/ephemeris/galileo.cxx
@@ -187,6 +187,11 @@ bool GalileoEphemeris::parse(const uint8_t* msg, size_t size)
 bool GalileoEphemeris::frame0(const uint8_t* buf)
 {
     int type = getBit<6>(buf, 0);
+    if (getBit<2>(buf, 6) != 2)
+    {
+        dbg("Galileo word type 0 carries no time");
+        return false;
+    }
     time_f = getBit<2>(buf, 6);
     week = getBit<12>(buf, 96);
     tow = getBit<20>(buf, 108);
-- 
2.43.0


From 2fe23a138c1953fef2b7830d7f9c2c4b747c8b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:07 +0000
Subject: [PATCH 28/61] fix: a UBX message without payload no longer stops the
 parser

---
 parsers/ubx/ubx.cxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parsers/ubx/ubx.cxx b/parsers/ubx/ubx.cxx
index 47145a4..f780680 100644
--- a/parsers/ubx/ubx.cxx
+++ b/parsers/ubx/ubx.cxx
@@ -235,6 +235,11 @@ void Ubx::receive_callback(const uint8_t *buf, size_t size)
                 prev_byte_ = byte;
                 restart();
             }
+            else if (length_ == 0)
+            {
+                // no payload, the checksum comes next
+                parse_state_ = GOT_PAYLOAD;
+            }
             break;
         case GOT_LENGTH2:
             if (buffer_head_ < length_)
-- 
2.43.0


From 8a1f63e99c7edbfc1587bc852ce1d5aa312b0142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:07 +0000
Subject: [PATCH 29/61] fix: an oversized UBX message is reported instead of
 throwing out of the receive callback

---
 parsers/ubx/ubx.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsers/ubx/ubx.cxx b/parsers/ubx/ubx.cxx
index f780680..0a4a32c 100644
--- a/parsers/ubx/ubx.cxx
+++ b/parsers/ubx/ubx.cxx
@@ -229,7 +229,7 @@ void Ubx::receive_callback(const uint8_t *buf, size_t size)
             parse_state_ = GOT_LENGTH2;
             if (length_ > BUFFER_SIZE)
             {
-                warn("UBX message 0x{x}-0x{x} is too long ({} > {})",
+                warn("UBX message 0x{:x}-0x{:x} is too long ({} > {})",
                      fmt(message_class_, message_type_, length_, BUFFER_SIZE));
                 num_errors_++;
                 prev_byte_ = byte;
-- 
2.43.0


From 30a9adcbe54a351593d7933b7b7acba4b6d15e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:07 +0000
Subject: [PATCH 30/61] fix: the checksum of a UBX message is not taken for the
 start of another

---
 parsers/ubx/ubx.cxx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parsers/ubx/ubx.cxx b/parsers/ubx/ubx.cxx
index 0a4a32c..f584969 100644
--- a/parsers/ubx/ubx.cxx
+++ b/parsers/ubx/ubx.cxx
@@ -195,6 +195,7 @@ void Ubx::receive_callback(const uint8_t *buf, size_t size)
     for (size_t i = 0; i < size; ++i)
     {
         const uint8_t byte = buf[i];
+        bool got_message = false;
 
         switch (parse_state_)
         {
@@ -277,7 +278,7 @@ void Ubx::receive_callback(const uint8_t *buf, size_t size)
                 parse_state_ = START;
                 end_message_ = true;
                 start_message_ = false;
-                prev_byte_ = byte;
+                got_message = true;
             }
             else
             {
@@ -289,7 +290,8 @@ void Ubx::receive_callback(const uint8_t *buf, size_t size)
                 end_message_ = false;
             }
         }
-        prev_byte_ = byte;
+        // the last byte of a message is not the start of the next one
+        prev_byte_ = got_message ? 0 : byte;
     }
 }
 
-- 
2.43.0


From 50d7a00a66f25e6e834a9d66922251204666a761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:07 +0000
Subject: [PATCH 31/61] fix: the UBX version is read from the extensions of the
 version message only

---
 parsers/ubx/ubx.cxx    | 5 ++++-
 parsers/ubx/ubx_defs.h | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/parsers/ubx/ubx.cxx b/parsers/ubx/ubx.cxx
index f584969..3d21deb 100644
--- a/parsers/ubx/ubx.cxx
+++ b/parsers/ubx/ubx.cxx
@@ -425,7 +425,10 @@ void Ubx::write(const uint8_t *byte, const size_t size)
 
 void Ubx::versionCb()
 {
-    for (int i = 0; i < 20; ++i)
+    // only as many extensions as this message has (the buffer may hold more of an older one)
+    const int header = offsetof(MON_VER_t, extension);
+    const int num_extensions = (length_ - header) / static_cast<int>(sizeof(MON_VER_t::extension[0]));
+    for (int i = 0; i < num_extensions; ++i)
     {
         if (strncmp(in_message_.MON_VER.extension[i], "PROTVER=", 8) == 0)
         {
diff --git a/parsers/ubx/ubx_defs.h b/parsers/ubx/ubx_defs.h
index e1bf217..767ee14 100644
--- a/parsers/ubx/ubx_defs.h
+++ b/parsers/ubx/ubx_defs.h
@@ -825,7 +825,7 @@ typedef struct
 {
     char sw_version[30];     // Zero-terminated Software Version String.
     char hw_version[10];     // Zero-terminated Hardware Version String
-    char extension[30][10];  // Extended software information strings
+    char extension[66][30];  // Extended software information strings
 } __attribute__((packed)) MON_VER_t;
 
 typedef float R4;
-- 
2.43.0


From 8d496cdadb5328b606ca8317f7216f756c59b793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:07 +0000
Subject: [PATCH 32/61] fix: UBX version and module name are initialised and
 terminated

---
 parsers/ubx/ubx.cxx | 10 +++++-----
 parsers/ubx/ubx.h   |  6 +++---
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/parsers/ubx/ubx.cxx b/parsers/ubx/ubx.cxx
index 3d21deb..66ee1d9 100644
--- a/parsers/ubx/ubx.cxx
+++ b/parsers/ubx/ubx.cxx
@@ -449,9 +449,9 @@ void Ubx::versionCb()
 void Ubx::extractVersionString(const char *str)
 {
     // Get major version
-    char tmp[5];
+    char tmp[5] = {};
     const char *s = str + 8;
-    for (int j = 0; j < 5; j++)
+    for (int j = 0; j < 4; j++)
     {
         if (*s == '.')
         {
@@ -466,7 +466,7 @@ void Ubx::extractVersionString(const char *str)
 
     // Get minor version
     memset(tmp, 0, sizeof(tmp));
-    for (int j = 0; j < 5; j++)
+    for (int j = 0; j < 4; j++)
     {
         if (*s == 0)
         {
@@ -482,11 +482,11 @@ void Ubx::extractVersionString(const char *str)
 void Ubx::extractModuleName(const char *str)
 {
     const char *s = str + 4;
-    for (size_t i = 0; i < sizeof(module_name_); i++)
+    memset(module_name_, 0, sizeof(module_name_));
+    for (size_t i = 0; i < sizeof(module_name_) - 1; i++)
     {
         if (*s == 0)
         {
-            module_name_[i] = 0;
             break;
         }
 
diff --git a/parsers/ubx/ubx.h b/parsers/ubx/ubx.h
index 119af75..9cc18a8 100644
--- a/parsers/ubx/ubx.h
+++ b/parsers/ubx/ubx.h
@@ -127,9 +127,9 @@ class Ubx : public async_comm::CommListener
     // local storage
     volatile bool new_data_;
 
-    int major_version_;
-    int minor_version_;
-    char module_name_[10];
+    int major_version_ = 0;
+    int minor_version_ = 0;
+    char module_name_[10] = {};
 
     // Serial Port
     void write(const uint8_t byte);
-- 
2.43.0


From 63a95c8b10681e0cac3fa5c455295c46efc049d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:07 +0000
Subject: [PATCH 33/61] fix: the UBX survey-in request asks for 3 cm and holds
 nothing of earlier messages

---
 parsers/ubx/ubx.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parsers/ubx/ubx.cxx b/parsers/ubx/ubx.cxx
index 66ee1d9..f725fe2 100644
--- a/parsers/ubx/ubx.cxx
+++ b/parsers/ubx/ubx.cxx
@@ -117,9 +117,10 @@ bool Ubx::sendMessage(uint8_t msg_class, uint8_t msg_id, UbxMessage &message, ui
 
 void Ubx::startSurveyIn()
 {
+    memset(&out_message_, 0, sizeof(CFG_TMODE3_t));
     out_message_.CFG_TMODE3.flags = CFG_TMODE3_t::SURVEY_IN;
     out_message_.CFG_TMODE3.svin_min_dur = 60;   // Wait at least 1 minute
-    out_message_.CFG_TMODE3.svin_acc_limit = 3;  // At least within 3 centimeters
+    out_message_.CFG_TMODE3.svin_acc_limit = 300;  // At least within 3 centimeters
     sendMessage(CLASS_CFG, CFG_TMODE3, out_message_, sizeof(CFG_TMODE3_t));
 }
 
-- 
2.43.0


From 49ea02a916ebb29100924e55f05aacc8c089d99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:07 +0000
Subject: [PATCH 34/61] fix: UBX configuration values of four bytes are sent

---
 parsers/ubx/ubx.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsers/ubx/ubx.cxx b/parsers/ubx/ubx.cxx
index f725fe2..e29c83c 100644
--- a/parsers/ubx/ubx.cxx
+++ b/parsers/ubx/ubx.cxx
@@ -398,7 +398,7 @@ void Ubx::configure(uint8_t version,
     {
         out_message_.CFG_VALSET.cfg_data.bytes[0] = cfgData;
     }
-    if (size == 2)
+    if (size == 2 || size == 4)
     {
         out_message_.CFG_VALSET.cfg_data.word = cfgData;
     }
-- 
2.43.0


From b7911a20aa773dbaa09a7b13d399bcb296442a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:52 +0000
Subject: [PATCH 35/61] fix: filter code can be generated for variable states
 that depend on themselves and on others

Factoring out the last term of a sum built an identity block without its largest size.
---
 core/ekf/ekf_gen/symb_algebra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ekf/ekf_gen/symb_algebra.py b/core/ekf/ekf_gen/symb_algebra.py
index 12a228f..6267614 100644
--- a/core/ekf/ekf_gen/symb_algebra.py
+++ b/core/ekf/ekf_gen/symb_algebra.py
@@ -115,7 +115,7 @@ def factor_first_term(expr):
 def factor_last_term(expr):
     def strip_last_term(expr):
         if len(expr) == 1:
-            return ConstBlock("I", expr.rows, expr.rows), expr
+            return ConstBlock("I", expr.rows, expr.rows, expr.max_rows, expr.max_rows), expr
         elif isinstance(expr, Mult):
             if len(expr) == 2:
                 return expr[0], expr[1]
-- 
2.43.0


From 0bf76ca2c976a361c47aead2eb53830005e41c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:53 +0000
Subject: [PATCH 36/61] fix: a covariance made from initial variances is their
 diagonal matrix

The variances of variable states were replaced by uninitialised memory, and the
covariances between different fixed states were left uninitialised.
---
 core/ekf/ekf_gen/ekf_gen_state.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/ekf/ekf_gen/ekf_gen_state.py b/core/ekf/ekf_gen/ekf_gen_state.py
index b8a2276..a6d62c2 100644
--- a/core/ekf/ekf_gen/ekf_gen_state.py
+++ b/core/ekf/ekf_gen/ekf_gen_state.py
@@ -778,10 +778,14 @@ def covariance_dense(cfg):
 def covariance_from_process_cov(cfg):
     states = cfg["state_composition"]
     out = []
+    for r, s1 in enumerate(states):
+        for s2 in states[r + 1:]:
+            suffix = "_buf_" if s1.variable or s2.variable else ""
+            out.append(f"{make_camel(s1.name)}_{make_camel(s2.name)}{suffix}.setZero();")
     for s in states:
         if s.variable:
             out.append(
-                f"{make_camel(s.name)}_{make_camel(s.name)}_buf_ = tile(cov.{make_camel(s.name)}.asDiagonal(), {s.bundle_size}, {s.bundle_size});"
+                f"{make_camel(s.name)}_{make_camel(s.name)}_buf_ = cov.{make_camel(s.name)}.replicate({s.bundle_size}, 1).asDiagonal();"
             )
         else:
             out.append(
-- 
2.43.0


From f6a92595c2433a9e7f85884d678c7e935fc4708d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:18 +0000
Subject: [PATCH 37/61] fix: the PID controller cuts its integrator back when
 it saturates the output

---
 sim/controllers/pid.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sim/controllers/pid.cxx b/sim/controllers/pid.cxx
index f0b1744..7b7faa1 100644
--- a/sim/controllers/pid.cxx
+++ b/sim/controllers/pid.cxx
@@ -67,7 +67,7 @@ double PID::run(double dt, double x, double x_c, bool update_integrator, double
     double u_sat = (u > options_.max)
                        ? options_.max
                        : (u < (double)-1.0 * options_.max) ? (double)-1.0 * options_.max : u;
-    if (u != u_sat && abs(i_term) > abs(u - p_term + d_term) && options_.ki > (double)0.0)
+    if (u != u_sat && abs(i_term) > abs(u_sat - p_term + d_term) && options_.ki > (double)0.0)
         integrator_ = (u_sat - p_term + d_term) / options_.ki;
 
     // Set output
-- 
2.43.0


From ca9f3cd615f62094646ea682074ae4a169553ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:18 +0000
Subject: [PATCH 38/61] fix: the waypoint follower starts at its first waypoint

---
 sim/dynamics/car.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sim/dynamics/car.h b/sim/dynamics/car.h
index 6655936..b35788a 100644
--- a/sim/dynamics/car.h
+++ b/sim/dynamics/car.h
@@ -44,7 +44,7 @@ struct SimCar final : public Dynamics
             return options_.waypoints[current_waypoint_ % options_.waypoints.size()];
         }
         Options options_;
-        int current_waypoint_;
+        int current_waypoint_ = 0;
     };
 
     SimCar(const Options& options);
-- 
2.43.0


From 86afec70ed4a692fc6cba86d5fd0f50ae79b2683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:53 +0000
Subject: [PATCH 39/61] fix: filter code with several variable-sized
 measurements of one type compiles

---
 core/ekf/ekf_gen/ekf_gen.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/core/ekf/ekf_gen/ekf_gen.py b/core/ekf/ekf_gen/ekf_gen.py
index 86449b8..b7595a5 100644
--- a/core/ekf/ekf_gen/ekf_gen.py
+++ b/core/ekf/ekf_gen/ekf_gen.py
@@ -428,11 +428,25 @@ def meas_types(cfg):
     return "\n\n".join(meas_types)
 
 
+def has_earlier_meas_of_same_type(cfg, key):
+    # Measurements with metadata have a type of their own, the others share std::vector<type>
+    if 'metadata' in cfg["measurements"][key]:
+        return False
+    meas_type = State(key, cfg["measurements"][key]['type']).type
+    for k, item in cfg["measurements"].items():
+        if k == key:
+            return False
+        other = State(k, item['type'])
+        if 'metadata' not in item and other.variable and other.type == meas_type:
+            return True
+    return False
+
+
 def meas_is_finite(cfg, key):
     namespaces = "::".join(cfg["namespaces"])
     meas_cfg = cfg["measurements"][key]
     meas_state = State(key, meas_cfg['type'])
-    if meas_state.variable:
+    if meas_state.variable and not has_earlier_meas_of_same_type(cfg, key):
         out = f"bool isFinite(const {namespaces}::{make_camel(key)}Meas::ZType& z) {{\n"
         out += "    bool is_finite = true;\n"
         out += "    for (size_t i = 0; i < z.size(); ++i) {\n"
-- 
2.43.0


From 650f06e7f98262465ca92a0fc785a326c42a3a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:05 +0000
Subject: [PATCH 40/61] fix: configuration lists with a malformed element are
 reported like other malformed values

---
 utils/config.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/config.h b/utils/config.h
index 0beddbf..69caf31 100644
--- a/utils/config.h
+++ b/utils/config.h
@@ -98,7 +98,7 @@ class Config
                         (*out) = node[key_path[i]].as<T>();
                         return true;
                     }
-                    catch (const YAML::TypedBadConversion<T>& e)
+                    catch (const YAML::BadConversion& e)
                     {
                         error("Unable to convert {}", fmt(key));
                         error("{}", fmt(e.what()));
-- 
2.43.0


From b5731207ef195f9f1953de426ae730b6c75fcd6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:05 +0000
Subject: [PATCH 41/61] fix: configuration keys below a scalar are reported as
 missing

---
 utils/config.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/config.h b/utils/config.h
index 69caf31..749c131 100644
--- a/utils/config.h
+++ b/utils/config.h
@@ -89,7 +89,7 @@ class Config
         std::vector<std::string> key_path = split_string(key, '/');
         for (size_t i = 0; i < key_path.size(); ++i)
         {
-            if (node[key_path[i]])
+            if (!node.IsScalar() && node[key_path[i]])
             {
                 if (i == key_path.size() - 1)
                 {
-- 
2.43.0


From 68a908a802dc23b2364c85ae11504983d8e6ec61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:05 +0000
Subject: [PATCH 42/61] fix: configuration matrices are read only from lists of
 exactly their size

---
 utils/config.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/utils/config.h b/utils/config.h
index 749c131..7d5701b 100644
--- a/utils/config.h
+++ b/utils/config.h
@@ -43,7 +43,7 @@ struct convert<Eigen::Matrix<T, Rows, Cols>>
                 ++it;
             }
         }
-        return true;
+        return it == node.end();
     }
 };
 }  // namespace YAML
@@ -63,6 +63,11 @@ class Config
         std::vector<typename T::Scalar> row_major;
         if (get(key, make_out(row_major), required))
         {
+            if (row_major.size() != Rows * Cols)
+            {
+                error("{} has {} elements, not {}", fmt(key, row_major.size(), Rows * Cols));
+                return false;
+            }
             (*out) = Eigen::Map<Eigen::Matrix<typename T::Scalar, Rows, Cols, Eigen::RowMajor>>(
                 row_major.data());
             return true;
@@ -76,6 +81,11 @@ class Config
         std::vector<typename T::Scalar> row_major;
         if (get(key, make_out(row_major), required))
         {
+            if (row_major.size() != Rows)
+            {
+                error("{} has {} elements, not {}", fmt(key, row_major.size(), Rows));
+                return false;
+            }
             (*out) = Eigen::Map<Eigen::Matrix<typename T::Scalar, Rows, 1>>(row_major.data());
             return true;
         }
-- 
2.43.0


From 574d2eb8b6bd76d341c5026b372b5afd365bee1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:01 +0000
Subject: [PATCH 43/61] fix: simulated ephemerides are released once their
 recorded time is reached, and may run out

---
 sim/sensors/gnss.cxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sim/sensors/gnss.cxx b/sim/sensors/gnss.cxx
index 4128fe9..df44ac3 100644
--- a/sim/sensors/gnss.cxx
+++ b/sim/sensors/gnss.cxx
@@ -147,7 +147,7 @@ bool GnssSim::sample(const UTCTime& t,
 
 bool GnssSim::sampleGpsEph(const UTCTime& t, Out<ephemeris::GPSEphemeris> eph)
 {
-    if (std::get<UTCTime>(gps_ephemerides_.front()) >= t)
+    if (!gps_ephemerides_.empty() && std::get<UTCTime>(gps_ephemerides_.front()) <= t)
     {
         (*eph) = std::get<ephemeris::GPSEphemeris>(gps_ephemerides_.front());
         gps_ephemerides_.erase(gps_ephemerides_.begin());
@@ -158,7 +158,7 @@ bool GnssSim::sampleGpsEph(const UTCTime& t, Out<ephemeris::GPSEphemeris> eph)
 }
 bool GnssSim::sampleGloEph(const UTCTime& t, Out<ephemeris::GlonassEphemeris> eph)
 {
-    if (std::get<UTCTime>(glo_ephemerides_.front()) >= t)
+    if (!glo_ephemerides_.empty() && std::get<UTCTime>(glo_ephemerides_.front()) <= t)
     {
         (*eph) = std::get<ephemeris::GlonassEphemeris>(glo_ephemerides_.front());
         glo_ephemerides_.erase(glo_ephemerides_.begin());
@@ -169,7 +169,7 @@ bool GnssSim::sampleGloEph(const UTCTime& t, Out<ephemeris::GlonassEphemeris> ep
 }
 bool GnssSim::sampleGalEph(const UTCTime& t, Out<ephemeris::GalileoEphemeris> eph)
 {
-    if (std::get<UTCTime>(gal_ephemerides_.front()) >= t)
+    if (!gal_ephemerides_.empty() && std::get<UTCTime>(gal_ephemerides_.front()) <= t)
     {
         (*eph) = std::get<ephemeris::GalileoEphemeris>(gal_ephemerides_.front());
         gal_ephemerides_.erase(gal_ephemerides_.begin());
-- 
2.43.0


From cd5cc4afbdd97a8b2fcffa151519663b24d937ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:01 +0000
Subject: [PATCH 44/61] fix: simulated satellite observations carry their time

---
 sim/sensors/gnss.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sim/sensors/gnss.cxx b/sim/sensors/gnss.cxx
index df44ac3..fd1fd7f 100644
--- a/sim/sensors/gnss.cxx
+++ b/sim/sensors/gnss.cxx
@@ -132,6 +132,7 @@ bool GnssSim::sample(const UTCTime& t,
             doppler += normal_(gen_) * options_.doppler_stdev_;
 
             obs->emplace_back();
+            obs->back().t = t;
             obs->back().pseudorange = pseudorange;
             obs->back().doppler = doppler;
             obs->back().carrier_phase = carrier_phase;
-- 
2.43.0


From 4de9a8c798543f8008d68b1adc0caf1ab7839ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:01 +0000
Subject: [PATCH 45/61] fix: simulated accelerometer reports the specific force
 in its own frame

---
 sim/sensors/imu.cxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sim/sensors/imu.cxx b/sim/sensors/imu.cxx
index 2364c3d..cbcef46 100644
--- a/sim/sensors/imu.cxx
+++ b/sim/sensors/imu.cxx
@@ -25,8 +25,9 @@ bool ImuSim::sample(const UTCTime& t, const math::TwoJet<double>& x, Out<meas::I
         accel_bias_ += randomNormal<Vec3>() * options_.accel_noise_stdev * dt;
         gyro_bias_ += randomNormal<Vec3>() * options_.gyro_noise_stdev * dt;
 
-        imu->accel = x.d2x.linear() + accel_bias_ +
-                     randomNormal<Vec3>() * options_.accel_noise_stdev - x.x.rota(GRAVITY);
+        imu->accel = x.d2x.linear() + x.dx.angular().cross(x.dx.linear()) + accel_bias_ +
+                     randomNormal<Vec3>() * options_.accel_noise_stdev -
+                     x.x.rotation().rotp(GRAVITY);
         imu->gyro = x.dx.angular() + gyro_bias_ + randomNormal<Vec3>() * options_.gyro_noise_stdev;
         imu->t = t;
         return true;
-- 
2.43.0


From e179f084a687e691effb4c631deead70158367b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:36 +0000
Subject: [PATCH 46/61] fix: a quaternion multiplied in place by itself is
 squared

---
 common/math/quat.h | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/common/math/quat.h b/common/math/quat.h
index af20a3c..93ebce9 100644
--- a/common/math/quat.h
+++ b/common/math/quat.h
@@ -100,17 +100,8 @@ class Quat
     }
     Quat& operator*=(const Quat& q)
     {
-        const T _w = w();
-        const T _x = x();
-        const T _y = y();
-        const T _z = z();
-
-        // clang-format off
-        arr_ << _w * q.w() - _x * q.x() - _y * q.y() - _z * q.z(),
-                _w * q.x() + _x * q.w() + _y * q.z() - _z * q.y(),
-                _w * q.y() - _x * q.z() + _y * q.w() + _z * q.x(),
-                _w * q.z() + _x * q.y() - _y * q.x() + _z * q.w();
-        // clang-format on
+        // The product is computed before it is stored: q may share its memory with this quaternion
+        arr_ = otimes(q).elements();
         return *this;
     }
 
-- 
2.43.0


From a7cbfa2d9be1bfbccaeb61e46e7749f5e50ffa71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:36 +0000
Subject: [PATCH 47/61] fix: in-place quaternion inversion, rotation-matrix and
 eight-element constructors

---
 common/math/dquat.h | 5 +++--
 common/math/quat.h  | 8 ++++++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/common/math/dquat.h b/common/math/dquat.h
index dc77701..141e320 100644
--- a/common/math/dquat.h
+++ b/common/math/dquat.h
@@ -81,8 +81,9 @@ class DQuat
           const T& dx,
           const T& dy,
           const T& dz)
-        : buf_{rw, rx, ry, rz, dw, dx, dy, dz}, arr_(buf_)
+        : DQuat(buf_)
     {
+        arr_ << rw, rx, ry, rz, dw, dx, dy, dz;
     }
 
     DQuat(const Eigen::Ref<const Vec8> arr) : DQuat(arr.data()) {}
@@ -118,7 +119,7 @@ class DQuat
     }
 
     template <typename Derived>
-    Quat<T>& operator=(Eigen::MatrixBase<Derived> const& in)
+    DQuat& operator=(Eigen::MatrixBase<Derived> const& in)
     {
         arr_ = in;
         return *this;
diff --git a/common/math/quat.h b/common/math/quat.h
index 93ebce9..61c2a8c 100644
--- a/common/math/quat.h
+++ b/common/math/quat.h
@@ -38,7 +38,7 @@ class Quat
 
     Quat(const T* data) : arr_(const_cast<T*>(data)) {}
 
-    Quat(const SO3<T>& rot) { this = Quat<T>::from_R(rot); }
+    Quat(const SO3<T>& rot) : Quat(Quat<T>::from_R(rot.matrix())) {}
 
     Quat(const T& roll, const T& pitch, const T& yaw) : arr_(buf_)
     {
@@ -479,7 +479,11 @@ class Quat
         return v + w() * t + t.colwise().cross(arr_.template segment<3>(1));
     }
 
-    Quat& invert() { arr_.template block<3, 1>(1, 0) *= (T)-1.0; }
+    Quat& invert()
+    {
+        arr_.template block<3, 1>(1, 0) *= (T)-1.0;
+        return *this;
+    }
 
     Quat inverse() const
     {
-- 
2.43.0


From b1e58452669923eb1bd69eaf4a8ac3e2bdb34bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:36 +0000
Subject: [PATCH 48/61] fix: the logarithm of a dual quaternion near its
 negative identity keeps its direction

---
 common/math/dquat.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/common/math/dquat.h b/common/math/dquat.h
index 141e320..29442d5 100644
--- a/common/math/dquat.h
+++ b/common/math/dquat.h
@@ -296,11 +296,11 @@ class DQuat
             const T r02 = r0 * r0;
             const T r03 = r02 * r0;
             const T r05 = r03 * r02;
+            const T r07 = r05 * r02;
             const T th4 = th2 * th2;
-            const T th6 = th4 * th2;
-            const T a = 1. - 1. / (3. * r03) * th2 + 1. / (5. * r05) * th4;
-            const T c =
-                5. / 24. - 379. / 1920. * th2 + 46073. / 322560. * th4 - 127431. / 1146880. * th6;
+            const T a = 1. / r0 - 1. / (3. * r03) * th2 + 1. / (5. * r05) * th4;
+            const T c = -1. / r0 + 1. / (3. * r03) - 1. / (5. * r05) * th2 +
+                        1. / (7. * r07) * th4;  // (r0-a)/th2
             // clang-format off
             wv << (T)2.0 * a * r,
                   (T)2.0 * (a * d + (gm*c - d0)*r);
@@ -349,11 +349,11 @@ class DQuat
             const T r02 = r0 * r0;
             const T r03 = r02 * r0;
             const T r05 = r03 * r02;
+            const T r07 = r05 * r02;
             const T s4 = s2 * s2;
-            const T s6 = s4 * s2;
-            const T a1 = 1. - 1. / (3. * r03) * s2 + 1. / (5. * r05) * s4;
-            const T c1 =
-                5. / 24. - 379. / 1920. * s2 + 46073. / 322560. * s4 - 127431. / 1146880. * s6;
+            const T a1 = 1. / r0 - 1. / (3. * r03) * s2 + 1. / (5. * r05) * s4;
+            const T c1 = -1. / r0 + 1. / (3. * r03) - 1. / (5. * r05) * s2 +
+                         1. / (7. * r07) * s4;  // (r0-a1)/s2
             v = (T)2.0 * (a1 * d + (gm * c1 - d0) * r);
 
             const double th4 = th2 * th2;
-- 
2.43.0


From 937b0bf7cb2e5bd26e94b0e06d15920b839cf8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:36 +0000
Subject: [PATCH 49/61] fix: logarithms and their Jacobians at and near a half
 turn

---
 common/math/quat.h |  4 ++--
 common/math/se3.h  |  7 ++++---
 common/math/so3.h  | 13 ++++++-------
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/common/math/quat.h b/common/math/quat.h
index 61c2a8c..785ff07 100644
--- a/common/math/quat.h
+++ b/common/math/quat.h
@@ -241,8 +241,8 @@ class Quat
             const T th2 = th * th;
             const T a = sin(th) / th;
             const T b = (1 - cos(th)) / th2;
-            const T c = (1 - a) / th2;
-            e = (b - 2 * c) / (2 * a);
+            // (b - 2c) / 2a, which is 0/0 at a half turn
+            e = (1 - a / (2 * b)) / th2;
         }
         else
         {
diff --git a/common/math/se3.h b/common/math/se3.h
index 955e2dc..8b196c0 100644
--- a/common/math/se3.h
+++ b/common/math/se3.h
@@ -173,7 +173,8 @@ class SE3
             a = sin(th) / th;
             b = ((T)1. - cos(th)) / th2;
             c = ((T)1. - a) / th2;
-            e = (b * 0.5 - c) / a;
+            // (b/2 - c) / a, which is 0/0 at a half turn
+            e = (1. - a / (2. * b)) / th2;
             C1 = (a - 2 * b) / th2;
             C2 = (b - 3 * c) / th2;
         }
@@ -212,9 +213,9 @@ class SE3
         {
             const T a = sin(th) / th;
             const T b = ((T)1. - cos(th)) / th2;
-            const T c = ((T)1. - a) / th2;
 
-            e = (b * 0.5 - c) / a;
+            // (b/2 - c) / a, which is 0/0 at a half turn
+            e = (1. - a / (2. * b)) / th2;
         }
 
         Vec3 wxt = w.cross(t_);
diff --git a/common/math/so3.h b/common/math/so3.h
index bc509cb..1160505 100644
--- a/common/math/so3.h
+++ b/common/math/so3.h
@@ -162,7 +162,8 @@ class SO3
             auto v = qarr.template tail<3>();
             T& w = qarr[0];
             T norm_v = v.norm();
-            return 2.0 * std::atan2(norm_v, w) * v / norm_v;
+            // The quaternion of a rotation matrix turns the other way
+            return -2.0 * std::atan2(norm_v, w) * v / norm_v;
         }
     }
 
@@ -203,20 +204,18 @@ class SO3
         else  // theta close to Pi
         {
             // First, go to quaternion, then compute the axis-angle
-            // Because the quaternion log is inverse the rotation log,
-            // we need to return the negative transpose of the quaternion jacobian
+            // The quaternion log is inverse the rotation log
             Quat<T> q = Quat<T>::from_R(rot_);
             w = -q.log();
             const T th2 = w.squaredNorm();
             const T th = sqrt(th2);
             a = sin(th) / th;
             b = (1 - cos(th)) / th2;
-            c = (1 - a) / th2;
 
-            // log_q = log_Rᵀ
-            const T e = (b - 2 * c) / (2 * a);
+            // (b - 2c) / 2a, which is 0/0 at a half turn
+            const T e = (1 - a / (2 * b)) / th2;
             const Mat3 sk_w = skew(w);
-            *jac = -Mat3::Identity() + 1. / 2. * sk_w - e * sk_w * sk_w;
+            *jac = Mat3::Identity() - 1. / 2. * sk_w + e * sk_w * sk_w;
 
             return w;
         }
-- 
2.43.0


From 0fd2e720630cd66b49e161cd3f708246199f66be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:36 +0000
Subject: [PATCH 50/61] fix: the rotation between two opposite, or nearly
 equal, unit vectors

---
 common/math/quat.h | 10 ++++++++--
 common/math/so3.h  | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/common/math/quat.h b/common/math/quat.h
index 785ff07..ae45046 100644
--- a/common/math/quat.h
+++ b/common/math/quat.h
@@ -347,9 +347,15 @@ class Quat
 
     static Quat from_two_unit_vectors(const Vec3& u, const Vec3& v)
     {
+        const Vec3 axis = u.cross(v);
+        const T sin_theta = axis.norm();
         const T cos_theta = u.dot(v);
-        const Vec3 axis = u.cross(v).normalized();
-        return from_axis_angle(axis, -acos(cos_theta));
+        if (sin_theta < (T)1e-12)
+        {
+            // Opposite vectors are a half turn apart, about any axis perpendicular to them
+            return cos_theta > 0 ? Identity() : make_pure(u.unitOrthogonal());
+        }
+        return from_axis_angle(axis / sin_theta, -atan2(sin_theta, cos_theta));
     }
 
     static Quat Identity()
diff --git a/common/math/so3.h b/common/math/so3.h
index 1160505..4a40433 100644
--- a/common/math/so3.h
+++ b/common/math/so3.h
@@ -250,9 +250,15 @@ class SO3
         const Vec3 u2 = _u2.normalized();
 
         const Vec3 axis = u1.cross(u2);
-        const T c = u1.dot(u2);  // cosine of angle
+        const T s = axis.norm();  // sine of angle
+        const T c = u1.dot(u2);   // cosine of angle
+        if (s < (T)1e-12)
+        {
+            // Opposite vectors are a half turn apart, about any axis perpendicular to them
+            return c > 0 ? identity() : exp(u1.unitOrthogonal() * (T)M_PI);
+        }
 
-        return exp(axis.normalized() * acos(c));
+        return exp(axis / s * std::atan2(s, c));
     }
 
     // SO3 is self-adjoint
-- 
2.43.0


From 2aac2bb1c42b02494b71c4f6b42b44a21e0afdbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:02 +0000
Subject: [PATCH 51/61] fix: the signal's travel time is found in a bounded
 number of steps even between two ephemerides

---
 common/satellite/satellite_cache.cxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/common/satellite/satellite_cache.cxx b/common/satellite/satellite_cache.cxx
index 87ee842..869e610 100644
--- a/common/satellite/satellite_cache.cxx
+++ b/common/satellite/satellite_cache.cxx
@@ -42,7 +42,9 @@ void SatelliteCache::update(const UTCTime& t, const Vec3 rec_pos_ecef, const Sat
 
     sat.getState(t, make_out(state));
     double dt = std::numeric_limits<double>::max();
-    while (abs(dt) * state.vel.norm() > 1e-3)  // get millimeter-accurate
+    // get millimeter-accurate; near the switch from one ephemeris to the next, the time may
+    // alternate between both sides forever
+    for (int i = 0; i < 10 && std::abs(dt) * state.vel.norm() > 1e-3; ++i)
     {
         // Compute how long it took for the signal to get here (including Sagnac Correction)
         Vec3 los_to_sat = state.pos - rec_pos_ecef;
-- 
2.43.0


From 89dc677269b4b5b4123bd61d097f09f46903496d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:23 +0000
Subject: [PATCH 52/61] fix: satellite velocities at perigee and apogee

---
 common/satellite/satellite_state.cxx | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/common/satellite/satellite_state.cxx b/common/satellite/satellite_state.cxx
index a8956b2..2dccf69 100644
--- a/common/satellite/satellite_state.cxx
+++ b/common/satellite/satellite_state.cxx
@@ -51,11 +51,9 @@ Error eph2Sat(const UTCTime& t,
     const double sek = sin(ek);
     const double cek = cos(ek);
 
-    const double ekdot = mkdot / (1.0 - eph.ecc * cek);
-
     const double tak = atan2(sqrt(1.0 - eph.ecc * eph.ecc) * sek, cek - eph.ecc);
     const double takdot =
-        sek * ekdot * (1.0 + eph.ecc * cos(tak)) / (sin(tak) * (1.0 - eph.ecc * cek));
+        sqrt(1.0 - eph.ecc * eph.ecc) * mkdot / ((1.0 - eph.ecc * cek) * (1.0 - eph.ecc * cek));
 
     const double phik = tak + eph.w;
     const double sphik2 = sin(2.0 * phik);
-- 
2.43.0


From 5d4ba59c498d4c80b793ce138c2390a779c5448a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:51 +0000
Subject: [PATCH 53/61] fix: satellite clock drift counts from the clock's
 reference time, and its rate is the derivative

---
 common/satellite/satellite_state.cxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/common/satellite/satellite_state.cxx b/common/satellite/satellite_state.cxx
index 2dccf69..98ac7d1 100644
--- a/common/satellite/satellite_state.cxx
+++ b/common/satellite/satellite_state.cxx
@@ -101,13 +101,13 @@ Error eph2Sat(const UTCTime& t,
     sat_state->vel.z() = ypkdot * sik + ypk * cik * ikdot;
 
     const double clk_dt = (t - eph.toc).toSec();
-    double dts = eph.af0 + eph.af1 * dt + eph.af2 * clk_dt * clk_dt;
+    double dts = eph.af0 + eph.af1 * clk_dt + eph.af2 * clk_dt * clk_dt;
 
     // Correct for relativistic effects on the satellite clock
     dts -= 2.0 * sqrt(GM_EARTH * A) * eph.ecc * sek / (C_LIGHT * C_LIGHT);
 
-    sat_state->clk(0) = dts;                           // satellite clock bias (sec)
-    sat_state->clk(1) = (eph.af1 + eph.af2 * clk_dt);  // satellite drift rate (sec/s)
+    sat_state->clk(0) = dts;                                 // satellite clock bias (sec)
+    sat_state->clk(1) = (eph.af1 + 2.0 * eph.af2 * clk_dt);  // satellite drift rate (sec/s)
     sat_state->t = t;
 
     return Error::none();
-- 
2.43.0


From c4107c14b0845c9d0725fe66d01ee31fc03976ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:51 +0000
Subject: [PATCH 54/61] fix: Galileo orbits use the gravitational constant of
 Galileo

---
 common/defs.h                        | 1 +
 common/satellite/satellite_state.cxx | 5 +++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/common/defs.h b/common/defs.h
index 0450cc2..122717c 100644
--- a/common/defs.h
+++ b/common/defs.h
@@ -7,6 +7,7 @@ namespace mc {
 
 constexpr double C_LIGHT = 299792458.0;                 // speed of light (m/s)
 static constexpr double GM_EARTH = 3.986005e14;         // Mass of the earth (kg)
+static constexpr double GM_EARTH_GALILEO = 3.986004418e14;  // the value that Galileo uses
 static constexpr double OMEGA_EARTH = 7.2921151467e-5;  // Angular Velocity of the earth (rad/s)
 
 static constexpr double TIME_QUANTIZATION = 1e-4;  // Time quantization for measurement alignment
diff --git a/common/satellite/satellite_state.cxx b/common/satellite/satellite_state.cxx
index 98ac7d1..95811fb 100644
--- a/common/satellite/satellite_state.cxx
+++ b/common/satellite/satellite_state.cxx
@@ -34,8 +34,9 @@ Error eph2Sat(const UTCTime& t,
           fmt(MAXDTOE, dt, eph.toe.str(), t.str()));
 
     // https://www.ngs.noaa.gov/gps-toolbox/bc_velo/bc_velo.c
+    const double gm = eph.gnssID == GnssID::Galileo ? GM_EARTH_GALILEO : GM_EARTH;
     const double A = eph.sqrta * eph.sqrta;
-    const double n0 = sqrt(GM_EARTH / (A * A * A));
+    const double n0 = sqrt(gm / (A * A * A));
     const double mkdot = n0 + eph.delta_n;
     const double mk = eph.m0 + mkdot * dt;
 
@@ -104,7 +105,7 @@ Error eph2Sat(const UTCTime& t,
     double dts = eph.af0 + eph.af1 * clk_dt + eph.af2 * clk_dt * clk_dt;
 
     // Correct for relativistic effects on the satellite clock
-    dts -= 2.0 * sqrt(GM_EARTH * A) * eph.ecc * sek / (C_LIGHT * C_LIGHT);
+    dts -= 2.0 * sqrt(gm * A) * eph.ecc * sek / (C_LIGHT * C_LIGHT);
 
     sat_state->clk(0) = dts;                                 // satellite clock bias (sec)
     sat_state->clk(1) = (eph.af1 + 2.0 * eph.af2 * clk_dt);  // satellite drift rate (sec/s)
-- 
2.43.0


From 812b12532f15afbf821f28dfecccd07105cd0f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:54 +0000
Subject: [PATCH 55/61] fix: computing the time of transmission for the
 measurement models ends

Near the switch from one ephemeris to the next, the time of transmission
may alternate between both sides of the switch forever.
---
 models/prange_model.cxx                 | 4 +++-
 models/relative_carrier_phase_model.cxx | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/models/prange_model.cxx b/models/prange_model.cxx
index 9837e0c..da3d477 100644
--- a/models/prange_model.cxx
+++ b/models/prange_model.cxx
@@ -30,7 +30,9 @@ void PseudorangeModel::computeConstants(const Vec3& rec_pos_ecef)
 
     sat_.getState(obs_.t, make_out(sat_state_));
     double dt = std::numeric_limits<double>::max();
-    while (abs(dt) * sat_state_.vel.norm() > 1e-3)  // get millimeter-accurate
+    // get millimeter-accurate; near the switch from one ephemeris to the next, the time may
+    // alternate between both sides forever
+    for (int i = 0; i < 10 && std::abs(dt) * sat_state_.vel.norm() > 1e-3; ++i)
     {
         // Compute how long it took for the signal to get here (including Sagnac Correction)
         Vec3 los_to_sat = sat_state_.pos - rec_pos_ecef;
diff --git a/models/relative_carrier_phase_model.cxx b/models/relative_carrier_phase_model.cxx
index 3b9c9df..e8cbf4e 100644
--- a/models/relative_carrier_phase_model.cxx
+++ b/models/relative_carrier_phase_model.cxx
@@ -50,7 +50,9 @@ void RelativeCarrierPhase::computeSatState(const meas::GnssObservation& obs,
 {
     sat.getState(obs.t, sat_state);
     double dt = std::numeric_limits<double>::max();
-    while (abs(dt) * sat_state->vel.norm() > 1e-3)  // get millimeter-accurate
+    // get millimeter-accurate; near the switch from one ephemeris to the next, the time may
+    // alternate between both sides forever
+    for (int i = 0; i < 10 && std::abs(dt) * sat_state->vel.norm() > 1e-3; ++i)
     {
         // Compute how long it took for the signal to get here (including Sagnac Correction)
         const Vec3 los_to_sat = sat_state->pos - rec_pos_ecef;
-- 
2.43.0


From 987fa4767ba05d4b067d292c654eaf506a19cf27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:56 +0000
Subject: [PATCH 56/61] fix: all Jacobians of the pseudorange model use the
 whole weight matrix

The Jacobians with respect to velocity, clock, switch and lever arm used
only its diagonal, so they were wrong for correlated measurements.
---
 models/prange_model.cxx | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/models/prange_model.cxx b/models/prange_model.cxx
index da3d477..e765b0f 100644
--- a/models/prange_model.cxx
+++ b/models/prange_model.cxx
@@ -134,17 +134,19 @@ bool PseudorangeModel::Evaluate(const double* const* parameters,
         {
             VecJacobian<3> jac(jacobians[1]);
             jac.drho().setZero();
-            jac.ddop() = sw_var * -e.T * sqrt_inv_cov_(1, 1) * R_E2n.T * R_n2b.T;
+            jac.ddop() = sw_var * -e.T * R_E2n.T * R_n2b.T;
             jac.dsw().setZero();
+            jac.applyOnTheLeft(sqrt_inv_cov_);
         }
 
         // res_by_clk
         if (jacobians[2])
         {
             VecJacobian<2> jac(jacobians[2]);
-            jac.drho() << sw_var * C_LIGHT / 1e9 * sqrt_inv_cov_(0, 0), 0;
-            jac.ddop() << 0, sw_var * C_LIGHT / 1e9 * sqrt_inv_cov_(1, 1);
+            jac.drho() << sw_var * C_LIGHT / 1e9, 0;
+            jac.ddop() << 0, sw_var * C_LIGHT / 1e9;
             jac.dsw().setZero();
+            jac.applyOnTheLeft(sqrt_inv_cov_);
         }
 
         // res_by_T_r2n
@@ -164,17 +166,19 @@ bool PseudorangeModel::Evaluate(const double* const* parameters,
         if (jacobians[4])
         {
             Eigen::Map<Vec3> jac(jacobians[4]);
-            jac(0) = sqrt_inv_cov_(0, 0) * (est_prange - obs_.pseudorange);
-            jac(1) = sqrt_inv_cov_(1, 1) * (est_doppler - obs_.doppler);
-            jac(2) = -sqrt_inv_cov_(2, 2);
+            jac(0) = est_prange - obs_.pseudorange;
+            jac(1) = est_doppler - obs_.doppler;
+            jac(2) = -1.0;
+            jac.applyOnTheLeft(sqrt_inv_cov_);
         }
         // res_by_p_b2g
         if (jacobians[5])
         {
             VecJacobian<3> jac(jacobians[5]);
-            jac.drho() = -sw_var * sqrt_inv_cov_(0, 0) * e.T * R_e2r.T * R_r2n.T * R_n2b.T;
+            jac.drho() = -sw_var * e.T * R_e2r.T * R_r2n.T * R_n2b.T;
             jac.ddop().setZero();
             jac.dsw().setZero();
+            jac.applyOnTheLeft(sqrt_inv_cov_);
         }
     }
 
-- 
2.43.0


From 37e414d865ae47c38ca27c71e114def14df30c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:13 +0000
Subject: [PATCH 57/61] fix: helper types of the measurement models no longer
 collide when linked together

---
 models/gnss_dynamics_model.cxx          | 5 +++++
 models/prange_model.cxx                 | 5 +++++
 models/relative_carrier_phase_model.cxx | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/models/gnss_dynamics_model.cxx b/models/gnss_dynamics_model.cxx
index 63886f8..b82858b 100644
--- a/models/gnss_dynamics_model.cxx
+++ b/models/gnss_dynamics_model.cxx
@@ -10,6 +10,9 @@ GnssDynamics::GnssDynamics(const UTCTime& t0, const UTCTime& tf, const Vec3& Xi)
 {
 }
 
+// (local to this file: other models have their own types of the same name)
+namespace {
+
 template <int N>
 struct VecJacobian final : public Eigen::Map<Eigen::Matrix<double, 3, N, Eigen::RowMajor>>
 {
@@ -19,6 +22,8 @@ struct VecJacobian final : public Eigen::Map<Eigen::Matrix<double, 3, N, Eigen::
     auto sw() { return this->row(2); }
 };
 
+}  // namespace
+
 bool GnssDynamics::Evaluate(const double* const* parameters,
                             double* residuals,
                             double** jacobians) const
diff --git a/models/prange_model.cxx b/models/prange_model.cxx
index e765b0f..c5be74f 100644
--- a/models/prange_model.cxx
+++ b/models/prange_model.cxx
@@ -54,6 +54,9 @@ double PseudorangeModel::computeSagnac(const Vec3& rec_pos_ecef)
            C_LIGHT;
 }
 
+// (local to this file: other models have their own types of the same name)
+namespace {
+
 struct PoseJacobian final : public MatRM36
 {
     auto drho_drot() { return block<1, 3>(0, 0); }
@@ -74,6 +77,8 @@ struct VecJacobian final : public Eigen::Map<Eigen::Matrix<double, 3, N, Eigen::
     auto dsw() { return this->row(2); }
 };
 
+}  // namespace
+
 bool PseudorangeModel::Evaluate(const double* const* parameters,
                                 double* _residual,
                                 double** jacobians) const
diff --git a/models/relative_carrier_phase_model.cxx b/models/relative_carrier_phase_model.cxx
index e8cbf4e..be4e611 100644
--- a/models/relative_carrier_phase_model.cxx
+++ b/models/relative_carrier_phase_model.cxx
@@ -65,6 +65,9 @@ void RelativeCarrierPhase::computeSatState(const meas::GnssObservation& obs,
     }
 }
 
+// (local to this file: other models have their own types of the same name)
+namespace {
+
 struct PoseJacobian final : public Vec6
 {
     auto drot() { return head<3>(); }
@@ -73,6 +76,8 @@ struct PoseJacobian final : public Vec6
     Vec8 by_elements(const DQ& Q) { return (*this).transpose() * Q.dGenDParam(); }
 };
 
+}  // namespace
+
 bool RelativeCarrierPhase::Evaluate(const double* const* parameters,
                                     double* residual,
                                     double** jacobians) const
-- 
2.43.0


From 31e78d7b6798b5618e9b62cf149f00b3a743b2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:47 +0000
Subject: [PATCH 58/61] fix: the inertial model's pose Jacobians are right away
 from the identity

---
 models/imu_model.cxx | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/models/imu_model.cxx b/models/imu_model.cxx
index e94b661..803d798 100644
--- a/models/imu_model.cxx
+++ b/models/imu_model.cxx
@@ -191,9 +191,9 @@ bool ImuModel::Evaluate(const double* const* parameters, double* _res, double**
             jac.dr1_drot() = skew(start_pose.rotation().rotp(
                 end_pose.translation() - start_pose.translation() - 0.5 * GRAVITY * dt * dt));
             jac.dr2_drot() = -dt * skew(start_pose.rotation().rotp(GRAVITY));
-            jac.dr3_drot() = -log_jac * adjusted_state.gamma.R() * start_pose.rotation().R();
+            jac.dr3_drot() = -log_jac * adjusted_state.gamma.R();
 
-            jac.dr1_dpos() = -start_pose.rotation().R().matrix();
+            jac.dr1_dpos() = -Mat3::Identity();
             jac.dr2_dpos().setZero();
             jac.dr3_dpos().setZero();
 
@@ -206,9 +206,12 @@ bool ImuModel::Evaluate(const double* const* parameters, double* _res, double**
 
             jac.dr1_drot().setZero();
             jac.dr2_drot().setZero();
-            jac.dr3_drot() = log_jac * adjusted_state.gamma.R() * start_pose.rotation().R();
+            // (the end pose is perturbed in its own frame)
+            const Mat3 R_end_to_start =
+                start_pose.rotation().R().matrix() * end_pose.rotation().R().matrix().transpose();
+            jac.dr3_drot() = log_jac * adjusted_state.gamma.R() * R_end_to_start;
 
-            jac.dr1_dpos() = start_pose.rotation().R().matrix();
+            jac.dr1_dpos() = R_end_to_start;
             jac.dr2_dpos().setZero();
             jac.dr3_dpos().setZero();
 
-- 
2.43.0


From c3aed01406af4902cb576bb5dbf83f4ea08cee13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:24 +0000
Subject: [PATCH 59/61] fix: the circular buffer takes copies of its own
 elements before discarding any

---
 common/circular_buffer.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/common/circular_buffer.h b/common/circular_buffer.h
index 154a1fe..613b6b7 100644
--- a/common/circular_buffer.h
+++ b/common/circular_buffer.h
@@ -71,36 +71,37 @@ class CircularBuffer
     template <typename... Args>
     void emplace_back(Args&&... args)
     {
+        // (before anything falls out at the front, which may be what this is made of)
+        new (&*tail_) T(args...);
         if (full())
             pop_front();
-        new (&*tail_) T(args...);
         ++tail_;
     }
 
     void push_back(const T& obj)
     {
+        new (&*tail_) T(obj);
         if (full())
             pop_front();
-        new (&*tail_) T(obj);
         ++tail_;
     }
 
     template <typename... Args>
     void emplace_front(Args&&... args)
     {
+        // (before anything falls out at the back, which may be what this is made of)
+        new (&*(head_ - 1)) T(args...);
         if (full())
             pop_back();
         --head_;
-        new (&*head_) T(args...);
     }
 
     void push_front(const T& obj)
     {
+        new (&*(head_ - 1)) T(obj);
         if (full())
             pop_back();
-
         --head_;
-        new (&*head_) T(obj);
     }
 
     T* data() { return buf_; }
-- 
2.43.0


From 9f8bbdd68ac8baa6bfdec891d27a7e3cf098149b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:49 +0000
Subject: [PATCH 60/61] fix: the rotation logarithm's Jacobian is a number when
 rounding takes the trace past 3

---
 common/math/so3.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/math/so3.h b/common/math/so3.h
index 4a40433..548bbb6 100644
--- a/common/math/so3.h
+++ b/common/math/so3.h
@@ -184,7 +184,8 @@ class SO3
         T a, b, c;
         if (t >= 3.0 - eps)  // Theta close to zero
         {
-            const T th = std::acos((t - 1.) / 2.);
+            // Rounding may take the trace past 3
+            const T th = t < 3. ? std::acos((t - 1.) / 2.) : T(0);
             const T th2 = th * th;
             const T th4 = th2 * th2;
             a = 1. - th2 / 6. + th4 / 120.;
-- 
2.43.0


From 25fdb4407e525550661d3de846b76612e7e1f4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:49 +0000
Subject: [PATCH 61/61] fix: the logarithm of a rotation just short of a half
 turn does not turn past it

---
 common/math/so3.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/common/math/so3.h b/common/math/so3.h
index 548bbb6..6bdbee2 100644
--- a/common/math/so3.h
+++ b/common/math/so3.h
@@ -162,8 +162,9 @@ class SO3
             auto v = qarr.template tail<3>();
             T& w = qarr[0];
             T norm_v = v.norm();
-            // The quaternion of a rotation matrix turns the other way
-            return -2.0 * std::atan2(norm_v, w) * v / norm_v;
+            // The quaternion of a rotation matrix turns the other way, and may turn past a half turn
+            const T sign = w < 0. ? 1. : -1.;
+            return sign * 2.0 * std::atan2(norm_v, std::abs(w)) * v / norm_v;
         }
     }
 
@@ -206,8 +207,9 @@ class SO3
         {
             // First, go to quaternion, then compute the axis-angle
             // The quaternion log is inverse the rotation log
+            // The quaternion may turn past a half turn, its opposite does not
             Quat<T> q = Quat<T>::from_R(rot_);
-            w = -q.log();
+            w = q.w() < 0. ? Vec3(-(q * T(-1.)).log()) : Vec3(-q.log());
             const T th2 = w.squaredNorm();
             const T th = sqrt(th2);
             a = sin(th) / th;
-- 
2.43.0

