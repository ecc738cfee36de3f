From 0b018034047711d6be9589d7a26882610edc541d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:07 +0000
Subject: [PATCH 01/31] fix: unit_vector_t constructor normalized its
 parameters instead of its members

---
 src/core_geometric.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core_geometric.hpp b/src/core_geometric.hpp
index 3ce7484..aa91035 100644
--- a/src/core_geometric.hpp
+++ b/src/core_geometric.hpp
@@ -77,9 +77,9 @@ public:
     unit_vector_t(double n1, double n2, double n3) : n1(n1), n2(n2), n3(n3)
     {
         auto n = std::sqrt(n1 * n1 + n2 * n2 + n3 * n3);
-        n1 /= n;
-        n2 /= n;
-        n3 /= n;
+        this->n1 /= n;
+        this->n2 /= n;
+        this->n3 /= n;
     }
 
     template<typename ScalarType>
-- 
2.43.0


From e4ec88822f549ad50aaf5a023cbc14d711ea31e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:07 +0000
Subject: [PATCH 02/31] fix: rational_number_t did not put zero into canonical
 form, so 0/4 != 0

---
 src/core_rational.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core_rational.hpp b/src/core_rational.hpp
index e391319..bd09abe 100644
--- a/src/core_rational.hpp
+++ b/src/core_rational.hpp
@@ -189,6 +189,10 @@ private:
             num /= g;
             den /= g;
         }
+        else
+        {
+            den = 1;
+        }
         if (den < 0)
         {
             num *= -1;
-- 
2.43.0


From 22122724e9de05b534ee15fd75f490134d0600e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:07 +0000
Subject: [PATCH 03/31] fix: derivable_tuple_t comparison operators called a
 misspelled member function and could not be instantiated

---
 src/core_tuple.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core_tuple.hpp b/src/core_tuple.hpp
index f8d82bc..4b855dd 100644
--- a/src/core_tuple.hpp
+++ b/src/core_tuple.hpp
@@ -227,8 +227,8 @@ template<typename DerivedType, typename... Types>
 struct mara::derivable_tuple_t
 {
     //=========================================================================
-    bool operator==(const DerivedType& other) const { return __impl.operator==(other.__impl).to_sequenc().all(); }
-    bool operator!=(const DerivedType& other) const { return __impl.operator!=(other.__impl).to_sequenc().any(); }
+    bool operator==(const DerivedType& other) const { return __impl.operator==(other.__impl).to_sequence().all(); }
+    bool operator!=(const DerivedType& other) const { return __impl.operator!=(other.__impl).to_sequence().any(); }
     template<typename T> DerivedType operator*(const T& other)   const { return DerivedType{{__impl.operator*(other)}}; }
     template<typename T> DerivedType operator/(const T& other)   const { return DerivedType{{__impl.operator/(other)}}; }
     DerivedType operator+(const DerivedType& other) const { return DerivedType{{__impl.operator+(other.__impl)}}; }
-- 
2.43.0


From 6c8c7768b8fc2481d46c267aab2fc8124ae6318d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:32 +0000
Subject: [PATCH 04/31] fix: dimensional_value_t::pow could not be used with a
 negative exponent (unsigned arithmetic on the dimensions)

---
 src/core_dimensional.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core_dimensional.hpp b/src/core_dimensional.hpp
index 9840923..3e82f35 100644
--- a/src/core_dimensional.hpp
+++ b/src/core_dimensional.hpp
@@ -221,7 +221,7 @@ struct mara::dimensional_value_t
      * @note       Since non-integer dimensions are not supported, all units
      *             must divide the exponent, if it is negative.
      */
-    template<int N, unsigned D=1>
+    template<int N, int D=1>
     auto pow() const
     {
         static_assert((C * N) % D == 0, "non-integer dimensions not supported");
-- 
2.43.0


From 9c7d5375c1cb4bdebdc4f8c48456b7c72599487e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:41 +0000
Subject: [PATCH 05/31] fix: iterating over an empty access pattern of rank > 1
 visited elements that do not exist

---
 src/core_ndarray.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core_ndarray.hpp b/src/core_ndarray.hpp
index 5e37083..993b88e 100644
--- a/src/core_ndarray.hpp
+++ b/src/core_ndarray.hpp
@@ -553,7 +553,7 @@ public:
 
         for (std::size_t n = 0; n < Rank; ++n)
         {
-            s[n] = (final[n] - start[n] - 1) / jumps[n] + 1;
+            s[n] = start[n] < final[n] ? (final[n] - start[n] - 1) / jumps[n] + 1 : 0;
         }
         return s;
     }
@@ -716,7 +716,7 @@ public:
 
 
     //=========================================================================
-    iterator begin() const { return { *this, start }; }
+    iterator begin() const { return { *this, empty() ? final : start }; }
     iterator end() const { return { *this, final }; }
 
 
-- 
2.43.0


From 6221937b49773817f8e2f985ed368a280b1660a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:41 +0000
Subject: [PATCH 06/31] fix: shape_t::volume accumulated the element count in
 an int

---
 src/core_ndarray.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core_ndarray.hpp b/src/core_ndarray.hpp
index 993b88e..235c970 100644
--- a/src/core_ndarray.hpp
+++ b/src/core_ndarray.hpp
@@ -327,7 +327,7 @@ public:
 
     std::size_t volume() const
     {
-        return std::accumulate(this->begin(), this->end(), 1, std::multiplies<>());
+        return std::accumulate(this->begin(), this->end(), std::size_t(1), std::multiplies<>());
     }
 
     bool contains(const index_t<Rank>& index) const
-- 
2.43.0


From b1cc6cfb7a44526022ace980c875fd37a7fe6d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:01 +0000
Subject: [PATCH 07/31] fix: access_pattern_t::within rejected selections with
 jumps > 1 that stay inside the array

---
 src/core_ndarray.hpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/core_ndarray.hpp b/src/core_ndarray.hpp
index 235c970..8a7995a 100644
--- a/src/core_ndarray.hpp
+++ b/src/core_ndarray.hpp
@@ -704,12 +704,20 @@ public:
      */
     bool within(const shape_t<Rank>& parent_shape) const
     {
-        auto zero = make_uniform_index<Rank>(0);
-        auto t1 = map_index(zero);
-        auto t2 = map_index(shape().last_index());
+        auto s = shape();
 
-        return (t1 >= zero && t1 <= parent_shape.last_index() &&
-                t2 >= zero && t2 <= parent_shape.last_index());
+        for (std::size_t n = 0; n < Rank; ++n)
+        {
+            if (start[n] > parent_shape[n])
+            {
+                return false;
+            }
+            if (s[n] > 0 && start[n] + jumps[n] * (s[n] - 1) >= parent_shape[n])
+            {
+                return false;
+            }
+        }
+        return true;
     }
 
 
-- 
2.43.0


From 7c2ada2dec20304e0275f327ae8497ee064b7a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:12 +0000
Subject: [PATCH 08/31] fix: select_axis accepted regions outside of the array

---
 src/core_ndarray.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core_ndarray.hpp b/src/core_ndarray.hpp
index 8a7995a..aedb57f 100644
--- a/src/core_ndarray.hpp
+++ b/src/core_ndarray.hpp
@@ -870,6 +870,11 @@ public:
         accessor.final[axis_to_select] = is_final_from_the_end ? array.shape(axis_to_select) - final : final;
         accessor.jumps[axis_to_select] = jumps;
 
+        if (! accessor.within(array.shape()))
+        {
+            throw std::logic_error("out-of-bounds selection");
+        }
+
         auto mapping = [accessor, array] (auto index)
         {
             return array(accessor.map_index(index));
-- 
2.43.0


From 72fa400eeb6d17aed8d296131c4cbae26c779b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:57 +0000
Subject: [PATCH 09/31] fix: tree contains() shifted by a negative amount at an
 interior node

---
 src/core_tree.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core_tree.hpp b/src/core_tree.hpp
index ebe5288..8324416 100644
--- a/src/core_tree.hpp
+++ b/src/core_tree.hpp
@@ -489,6 +489,10 @@ struct mara::arithmetic_binary_tree_t
         {
             return index.level == 0 && ! index.coordinates.any();
         }
+        if (index.level == 0)
+        {
+            return false;
+        }
         return child_at(index.orthant()).contains(index.advance_level());
     }
 
-- 
2.43.0


From 66a1151d939205e3c36de41ccea8e5566a733a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:57 +0000
Subject: [PATCH 10/31] fix: tree find() threw when the target is an interior
 node

---
 src/core_tree.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/core_tree.hpp b/src/core_tree.hpp
index 8324416..994659f 100644
--- a/src/core_tree.hpp
+++ b/src/core_tree.hpp
@@ -301,6 +301,10 @@ struct mara::arithmetic_binary_tree_t
      */
     const value_type& value() const
     {
+        if (! has_value())
+        {
+            throw std::out_of_range("mara::arithmetic_binary_tree_t::value (not a leaf)");
+        }
         return std::get<0>(__impl);
     }
 
@@ -315,6 +319,10 @@ struct mara::arithmetic_binary_tree_t
      */
     const children_array_type& children() const
     {
+        if (has_value())
+        {
+            throw std::out_of_range("mara::arithmetic_binary_tree_t::children (leaf node)");
+        }
         return *std::get<1>(__impl);
     }
 
-- 
2.43.0


From 98a4817fb05c902dffd290c7a049b60f4748a40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:57 +0000
Subject: [PATCH 11/31] fix: hilbert_index passed the level instead of the
 number of cells per side

---
 src/core_tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core_tree.hpp b/src/core_tree.hpp
index 994659f..44fdd3c 100644
--- a/src/core_tree.hpp
+++ b/src/core_tree.hpp
@@ -1075,5 +1075,5 @@ std::size_t mara::hilbert_index(tree_index_t<2> index)
         return d;
     };
 
-    return xy2d(index.level, index.coordinates[0], index.coordinates[1]);
+    return xy2d(1 << index.level, index.coordinates[0], index.coordinates[1]);
 }
-- 
2.43.0


From d2f70e8e92342959cc31148c1b8dec8229608552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:58 +0000
Subject: [PATCH 12/31] fix: config options given as text were accepted with
 trailing garbage (N=1e3 was read as N=1)

---
 src/app_config.hpp | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/app_config.hpp b/src/app_config.hpp
index d143f4f..1abe684 100644
--- a/src/app_config.hpp
+++ b/src/app_config.hpp
@@ -108,8 +108,8 @@ public:
         }
         switch (template_items.at(key).index())
         {
-            case 0: return std::move(*this).set(key, config_parameter_t(std::stoi(value)));
-            case 1: return std::move(*this).set(key, config_parameter_t(std::stod(value)));
+            case 0: return std::move(*this).set(key, config_parameter_t(parse<int>(key, value)));
+            case 1: return std::move(*this).set(key, config_parameter_t(parse<double>(key, value)));
             case 2: return std::move(*this).set(key, config_parameter_t(value));
         }
         return *this;
@@ -144,6 +144,25 @@ public:
     auto end() const { return parameters.end(); }
 
 private:
+    //=========================================================================
+    template<typename ValueType>
+    static ValueType parse(std::string key, std::string value)
+    {
+        auto num_parsed = std::size_t(0);
+        auto result = ValueType();
+
+        if constexpr (std::is_same<ValueType, int>::value)
+            result = std::stoi(value, &num_parsed);
+        else
+            result = std::stod(value, &num_parsed);
+
+        if (num_parsed != value.size())
+        {
+            throw std::invalid_argument("config got invalid value '" + value + "' for option " + key);
+        }
+        return result;
+    }
+
     //=========================================================================
     config_parameter_map_t parameters;
     config_parameter_map_t template_items;
-- 
2.43.0


From f6840b88a50fd626bb29f1b9a1524c222bf2a54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:32 +0000
Subject: [PATCH 13/31] fix: read empty strings back from HDF5 as empty, not as
 a single null character

---
 src/app_serialize.hpp | 6 +++++-
 src/core_hdf5.hpp     | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/app_serialize.hpp b/src/app_serialize.hpp
index a5ecfc8..ed4465c 100644
--- a/src/app_serialize.hpp
+++ b/src/app_serialize.hpp
@@ -321,8 +321,12 @@ struct h5::hdf5_type_info<mara::config_parameter_t>
         if (dtype.with_size(1) == Datatype::c_s1())          return h5::prepare<std::string>(dtype, space);
         throw std::invalid_argument("invalid HDF5 type for config_parameter_t (std::variant<int, double, std::string>)");
     }
-    static auto finalize(mara::config_parameter_t&& value)
+    static auto finalize(mara::config_parameter_t&& value) -> mara::config_parameter_t
     {
+        if (std::holds_alternative<std::string>(value))
+        {
+            return hdf5_type_info<std::string>::finalize(std::get<std::string>(std::move(value)));
+        }
         return std::move(value);
     }
     static auto get_address(mara::config_parameter_t& value) -> void*
diff --git a/src/core_hdf5.hpp b/src/core_hdf5.hpp
index dcaf458..7264c1e 100644
--- a/src/core_hdf5.hpp
+++ b/src/core_hdf5.hpp
@@ -478,7 +478,7 @@ struct h5::hdf5_type_info<std::string>
     static auto make_dataspace_for(const native_type&) { return Dataspace::scalar(); }
     static auto convert_to_writable(const native_type& value) { return value; }
     static auto prepare(const Datatype& type, const Dataspace&) { return native_type(type.size(), 0); }
-    static auto finalize(native_type&& value) { return std::move(value); }
+    static auto finalize(native_type&& value) { return native_type(value.data()); } // drop the null character an empty string is padded with
     static auto get_address(native_type& value) { return value.data(); }
     static auto get_address(const native_type& value) { return value.data(); }
 };
-- 
2.43.0


From 7ae8c3d411b51c8bd9cd87489c0be3a159fba2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:50 +0000
Subject: [PATCH 14/31] fix: sedov wrote the run config of a checkpoint where a
 restart does not look for it

---
 src/subprog_sedov.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/subprog_sedov.cpp b/src/subprog_sedov.cpp
index 47b921a..1de83d2 100644
--- a/src/subprog_sedov.cpp
+++ b/src/subprog_sedov.cpp
@@ -489,7 +489,7 @@ void SedovProblem<HydroSystem>::write_checkpoint(const app_state_t& state, std::
     auto file = h5::File(mara::filesystem::join(outdir, mara::create_numbered_filename("chkpt", count, "h5")), "w");
     write_solution(file.require_group("solution"), state.solution_state);
     mara::write_schedule(file.require_group("schedule"), state.schedule);
-    mara::write_config(file.require_group("config"), state.run_config);
+    mara::write_config(file.require_group("run_config"), state.run_config);
 
     std::printf("write checkpoint: %s\n", file.filename().data());
 }
-- 
2.43.0


From 7d6237aaa2a24262a4f65fe153c2fa8af046a7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:18 +0000
Subject: [PATCH 15/31] fix: a restart repeated the tasks already done at the
 checkpoint, overwriting the checkpoint itself

---
 src/subprog_boilerplate.cpp |  4 +++-
 src/subprog_cloud.cpp       | 14 ++++++++------
 src/subprog_sedov.cpp       | 14 ++++++++------
 3 files changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/subprog_boilerplate.cpp b/src/subprog_boilerplate.cpp
index c8092ac..0825956 100644
--- a/src/subprog_boilerplate.cpp
+++ b/src/subprog_boilerplate.cpp
@@ -201,9 +201,11 @@ struct app_state_t
 static void write_checkpoint(const app_state_t& state)
 {
     auto count = state.schedule.num_times_performed("write_checkpoint");
+    auto schedule = state.schedule;
+    schedule.mark_as_completed("write_checkpoint"); // a restarted run goes on from after this checkpoint
     auto file = h5::File(mara::create_numbered_filename("chkpt", count, "h5"), "w");
     write_solution(file.require_group("solution"), state.solution_state);
-    mara::write_schedule(file.require_group("schedule"), state.schedule);
+    mara::write_schedule(file.require_group("schedule"), schedule);
     mara::write_config(file.require_group("run_config"), state.run_config);
 
     std::printf("write checkpoint: %s\n", file.filename().data());
diff --git a/src/subprog_cloud.cpp b/src/subprog_cloud.cpp
index e2d9a96..6a1a719 100644
--- a/src/subprog_cloud.cpp
+++ b/src/subprog_cloud.cpp
@@ -758,9 +758,11 @@ static auto create_run_config(int argc, const char* argv[])
 void CloudProblem::write_checkpoint(const app_state_t& state, std::string outdir)
 {
     auto count = state.schedule.num_times_performed("write_checkpoint");
+    auto schedule = state.schedule;
+    schedule.mark_as_completed("write_checkpoint"); // a restarted run goes on from after this checkpoint
     auto file = h5::File(mara::filesystem::join(outdir, mara::create_numbered_filename("chkpt", count, "h5")), "w");
     write_solution(file.require_group("solution"), state.solution);
-    mara::write_schedule(file.require_group("schedule"), state.schedule);
+    mara::write_schedule(file.require_group("schedule"), schedule);
     mara::write_config(file.require_group("config"), state.run_config);
 
     std::printf("write checkpoint: %s\n", file.filename().data());
@@ -831,11 +833,6 @@ auto CloudProblem::run_tasks(const app_state_t& state)
     auto next_state = state;
     auto outdir = state.run_config.get_string("outdir");
 
-    if (state.schedule.is_due("write_checkpoint"))
-    {
-        write_checkpoint(state, outdir);
-        next_state.schedule.mark_as_completed("write_checkpoint");
-    }
     if (state.schedule.is_due("write_diagnostics"))
     {
         write_diagnostics(state, outdir);
@@ -846,6 +843,11 @@ auto CloudProblem::run_tasks(const app_state_t& state)
         write_time_series(state, outdir);
         next_state.schedule.mark_as_completed("write_time_series");
     }
+    if (state.schedule.is_due("write_checkpoint"))
+    {
+        write_checkpoint(next_state, outdir);
+        next_state.schedule.mark_as_completed("write_checkpoint");
+    }
     return next_state;
 }
 
diff --git a/src/subprog_sedov.cpp b/src/subprog_sedov.cpp
index 1de83d2..492ea76 100644
--- a/src/subprog_sedov.cpp
+++ b/src/subprog_sedov.cpp
@@ -486,9 +486,11 @@ template<typename HydroSystem>
 void SedovProblem<HydroSystem>::write_checkpoint(const app_state_t& state, std::string outdir)
 {
     auto count = state.schedule.num_times_performed("write_checkpoint");
+    auto schedule = state.schedule;
+    schedule.mark_as_completed("write_checkpoint"); // a restarted run goes on from after this checkpoint
     auto file = h5::File(mara::filesystem::join(outdir, mara::create_numbered_filename("chkpt", count, "h5")), "w");
     write_solution(file.require_group("solution"), state.solution_state);
-    mara::write_schedule(file.require_group("schedule"), state.schedule);
+    mara::write_schedule(file.require_group("schedule"), schedule);
     mara::write_config(file.require_group("run_config"), state.run_config);
 
     std::printf("write checkpoint: %s\n", file.filename().data());
@@ -562,11 +564,6 @@ auto SedovProblem<HydroSystem>::run_tasks(const app_state_t& state)
     auto next_state = state;
     auto outdir = state.run_config.get_string("outdir");
 
-    if (state.schedule.is_due("write_checkpoint"))
-    {
-        write_checkpoint(state, outdir);
-        next_state.schedule.mark_as_completed("write_checkpoint");
-    }
     if (state.schedule.is_due("write_diagnostics"))
     {
         write_diagnostics(state, outdir);
@@ -577,6 +574,11 @@ auto SedovProblem<HydroSystem>::run_tasks(const app_state_t& state)
         write_time_series(state, outdir);
         next_state.schedule.mark_as_completed("write_time_series");
     }
+    if (state.schedule.is_due("write_checkpoint"))
+    {
+        write_checkpoint(next_state, outdir);
+        next_state.schedule.mark_as_completed("write_checkpoint");
+    }
     return next_state;
 }
 
-- 
2.43.0


From 7f099e546e83fdd1d9180b1f67867d60aed08b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:52 +0000
Subject: [PATCH 16/31] fix: only trees of rank 2 could be read from HDF5

---
 src/app_serialize_tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app_serialize_tree.hpp b/src/app_serialize_tree.hpp
index 6fb2f7c..23d0d06 100644
--- a/src/app_serialize_tree.hpp
+++ b/src/app_serialize_tree.hpp
@@ -138,7 +138,7 @@ void mara::read_tree(h5::Group&& group, arithmetic_binary_tree_t<ValueType, Rank
     for (auto dataset : group)
     {
         auto value = group.read<ValueType>(dataset);
-        tree = std::move(tree).insert(mara::read_tree_index<2>(dataset), value);
+        tree = std::move(tree).insert(mara::read_tree_index<Rank>(dataset), value);
     }
 }
 
-- 
2.43.0


From 9772408f75f8e7ff9e8f1ed902d021bf15d79717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:14 +0000
Subject: [PATCH 17/31] fix: the time step of angular-momentum conserving
 binary runs was computed from the blocks of the empty linear momentum tree

---
 src/subprog_binary_scheme.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/subprog_binary_scheme.cpp b/src/subprog_binary_scheme.cpp
index 9bbf3a1..263af0f 100644
--- a/src/subprog_binary_scheme.cpp
+++ b/src/subprog_binary_scheme.cpp
@@ -1111,7 +1111,7 @@ double binary::maximum_timestep(const solution_t& solution,
     auto binary = mara::compute_two_body_state(solution.orbital_elements, solution.time.value);
     auto spacing_at_root = 2.0 * solver_data.domain_radius.value / solver_data.block_size;
 
-    return solution.conserved_u.indexes().map([&] (auto index)
+    return primitive.indexes().map([&] (auto index)
     {
         auto xc = solver_data.cell_centers.at(index);
         auto pc = primitive.at(index);
-- 
2.43.0


From 312dcc2beebe2b9b6ac43964d96bff9dd2d54d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:18 +0000
Subject: [PATCH 18/31] fix: require_dataset compared an existing data set's
 creation properties with the defaults rather than those asked for

---
 src/core_hdf5.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core_hdf5.hpp b/src/core_hdf5.hpp
index 7264c1e..67840c8 100644
--- a/src/core_hdf5.hpp
+++ b/src/core_hdf5.hpp
@@ -850,7 +850,7 @@ public:
 
             if (dset.get_type() == type &&
                 dset.get_space() == space &&
-                dset.get_creation_plist() == PropertyList::dataset_create())
+                dset.get_creation_plist() == creation_plist)
             {
                 return dset;
             }
-- 
2.43.0


From aeb01b692a4e3214d3b479dda414d1814b836bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:41 +0000
Subject: [PATCH 19/31] fix: failures of several HDF5 library calls went
 unnoticed (size and iteration of closed groups, string sizes, compound
 members, names)

---
 src/core_hdf5.hpp | 38 ++++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/src/core_hdf5.hpp b/src/core_hdf5.hpp
index 67840c8..0613675 100644
--- a/src/core_hdf5.hpp
+++ b/src/core_hdf5.hpp
@@ -133,10 +133,10 @@ struct h5::hyperslab_t
 class h5::PropertyList final
 {
 public:
-    static PropertyList dataset_create() { return H5Pcreate(H5P_DATASET_CREATE); }
+    static PropertyList dataset_create() { return detail::check(H5Pcreate(H5P_DATASET_CREATE)); }
 
     ~PropertyList() { close(); }
-    PropertyList(const PropertyList& other) : id(H5Pcopy(other.id)) {}
+    PropertyList(const PropertyList& other) : id(detail::check(H5Pcopy(other.id))) {}
     PropertyList(PropertyList&& other)
     {
         id = other.id;
@@ -187,10 +187,10 @@ class h5::Datatype final
 public:
 
     //=========================================================================
-    static Datatype native_double()             { return H5Tcopy(H5T_NATIVE_DOUBLE); }
-    static Datatype native_int()                { return H5Tcopy(H5T_NATIVE_INT); }
-    static Datatype native_ulong()              { return H5Tcopy(H5T_NATIVE_ULONG); }
-    static Datatype c_s1()                      { return H5Tcopy(H5T_C_S1); }
+    static Datatype native_double()             { return detail::check(H5Tcopy(H5T_NATIVE_DOUBLE)); }
+    static Datatype native_int()                { return detail::check(H5Tcopy(H5T_NATIVE_INT)); }
+    static Datatype native_ulong()              { return detail::check(H5Tcopy(H5T_NATIVE_ULONG)); }
+    static Datatype c_s1()                      { return detail::check(H5Tcopy(H5T_C_S1)); }
 
 
     //=========================================================================
@@ -200,11 +200,11 @@ public:
         static_assert(std::is_standard_layout<StructureType>::value,
             "can only make compound HDF5 types from standard layout structs");
 
-        auto h5_type = H5Tcreate(H5T_COMPOUND, sizeof(StructureType));
+        auto h5_type = Datatype(detail::check(H5Tcreate(H5T_COMPOUND, sizeof(StructureType))));
 
         for (auto member : members)
         {
-            H5Tinsert(h5_type, std::get<0>(member), std::get<1>(member), std::get<2>(member).id);
+            detail::check(H5Tinsert(h5_type.id, std::get<0>(member), std::get<1>(member), std::get<2>(member).id));
         }
         return h5_type;
     }
@@ -247,13 +247,19 @@ public:
 
     std::size_t size() const
     {
-        return detail::check(H5Tget_size(id));
+        auto result = H5Tget_size(id);
+
+        if (result == 0)
+        {
+            throw std::invalid_argument("cannot get the size of the HDF5 data type");
+        }
+        return result;
     }
 
     Datatype with_size(std::size_t size) const
     {
         Datatype other = *this;
-        H5Tset_size(other.id, size);
+        detail::check(H5Tset_size(other.id, size));
         return other;
     }
 
@@ -551,16 +557,16 @@ private:
     {
         auto op = [] (auto, auto, auto, auto) { return 0; };
         auto idx = hsize_t(0);
-        H5Literate(id, H5_INDEX_NAME, H5_ITER_INC, &idx, op, nullptr);
+        detail::check(H5Literate(id, H5_INDEX_NAME, H5_ITER_INC, &idx, op, nullptr));
         return idx;
     }
 
     bool contains(const std::string& name, Object object) const
     {
-        if (H5Lexists(id, name.data(), H5P_DEFAULT))
+        if (detail::check(H5Lexists(id, name.data(), H5P_DEFAULT)))
         {
             H5O_info_t info;
-            H5Oget_info_by_name(id, name.data(), &info, H5P_DEFAULT);
+            detail::check(H5Oget_info_by_name(id, name.data(), &info, H5P_DEFAULT));
 
             switch (object)
             {
@@ -621,8 +627,8 @@ private:
         {
             static char name[1024];
 
-            if (H5Lget_name_by_idx(id, ".",
-                H5_INDEX_NAME, H5_ITER_NATIVE, idx, name, 1024, H5P_DEFAULT) > 1024)
+            if (detail::check(H5Lget_name_by_idx(id, ".",
+                H5_INDEX_NAME, H5_ITER_NATIVE, idx, name, 1024, H5P_DEFAULT)) >= 1024)
             {
                 throw std::overflow_error("object names longer than 1024 are not supported");
             }
@@ -980,7 +986,7 @@ public:
     {
         char result[2048];
 
-        if (H5Fget_name(link.id, result, 2048) > 2048)
+        if (detail::check(H5Fget_name(link.id, result, 2048)) >= 2048)
         {
             throw std::invalid_argument("the HDF5 filename is too long");
         }
-- 
2.43.0


From db4285e01ef2da1f0ddf3f2390eb66c0812f4dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:22 +0000
Subject: [PATCH 20/31] fix: HDF5 identifiers were leaked by move assignment
 and released twice after close (terminating for data spaces)

---
 src/core_hdf5.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/core_hdf5.hpp b/src/core_hdf5.hpp
index 0613675..77c02f4 100644
--- a/src/core_hdf5.hpp
+++ b/src/core_hdf5.hpp
@@ -148,6 +148,7 @@ public:
         if (id != -1)
         {
             H5Pclose(id);
+            id = -1;
         }
     }
 
@@ -225,13 +226,15 @@ public:
         if (id != -1)
         {
             H5Tclose(id);
+            id = -1;
         }
     }
 
     Datatype& operator=(const Datatype& other)
     {
+        auto new_id = detail::check(H5Tcopy(other.id));
         close();
-        id = detail::check(H5Tcopy(other.id));
+        id = new_id;
         return *this;
     }
 
@@ -327,8 +330,9 @@ public:
 
     Dataspace& operator=(const Dataspace& other)
     {
+        auto new_id = detail::check(H5Scopy(other.id));
         close();
-        id = detail::check(H5Scopy(other.id));
+        id = new_id;
         return *this;
     }
 
@@ -347,6 +351,7 @@ public:
         if (id != -1)
         {
             detail::check(H5Sclose(id));
+            id = -1;
         }
     }
 
@@ -676,6 +681,7 @@ public:
     Dataset(const Dataset&) = delete;
     Dataset& operator=(Dataset&& other)
     {
+        close();
         link = std::move(other.link);
         return *this;
     }
@@ -914,6 +920,7 @@ public:
     Group(Group&& other) : Location(std::move(other.link)) {}
     Group& operator=(Group&& other)
     {
+        close();
         link = std::move(other.link);
         return *this;
     }
@@ -967,6 +974,7 @@ public:
 
     File& operator=(File&& other)
     {
+        close();
         link = std::move(other.link);
         return *this;
     }
-- 
2.43.0


From 35a34c4455c489cae6285bee05911ec55c999ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:34 +0000
Subject: [PATCH 21/31] fix: reconstruct_method=pcm was ignored by the binary
 solver

---
 src/subprog_binary_scheme.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/subprog_binary_scheme.cpp b/src/subprog_binary_scheme.cpp
index 263af0f..70d5ab0 100644
--- a/src/subprog_binary_scheme.cpp
+++ b/src/subprog_binary_scheme.cpp
@@ -789,7 +789,7 @@ auto validate_q = [] (auto solution, auto solver_data)
 //=============================================================================
 binary::solution_t binary::advance_u(const solution_t& solution, const solver_data_t& solver_data, mara::unit_time<double> dt, bool safe_mode)
 {
-    auto th = safe_mode ? 0.0 : solver_data.plm_theta;
+    auto th = safe_mode || solver_data.reconstruct_method == reconstruct_method_t::pcm ? 0.0 : solver_data.plm_theta;
     auto spacing_at_root = 2.0 * solver_data.domain_radius.value / solver_data.block_size;
     auto estimate_gradient = [th, spacing_at_root] (std::size_t axis)
     {
@@ -905,7 +905,7 @@ binary::solution_t binary::advance_u(const solution_t& solution, const solver_da
 
 binary::solution_t binary::advance_q(const solution_t& solution, const solver_data_t& solver_data, mara::unit_time<double> dt, bool safe_mode)
 {
-    auto th = safe_mode ? 0.0 : solver_data.plm_theta;
+    auto th = safe_mode || solver_data.reconstruct_method == reconstruct_method_t::pcm ? 0.0 : solver_data.plm_theta;
     auto spacing_at_root = 2.0 * solver_data.domain_radius.value / solver_data.block_size;
     auto estimate_gradient = [th, spacing_at_root] (std::size_t axis)
     {
-- 
2.43.0


From 6da7c708561071118d682bbbefa7478472b21e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:45 +0000
Subject: [PATCH 22/31] fix: stopping a thread pool could miss a worker about
 to wait, and never return

---
 src/core_thread_pool.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core_thread_pool.hpp b/src/core_thread_pool.hpp
index 16387c2..8df8c44 100644
--- a/src/core_thread_pool.hpp
+++ b/src/core_thread_pool.hpp
@@ -85,7 +85,10 @@ public:
     {
         if (! stop)
         {
-            stop = true;
+            {
+                std::lock_guard<std::mutex> lock(mutex); // a worker may be between its check of stop and its wait
+                stop = true;
+            }
             condition.notify_all();
 
             for (auto& thread : threads)
-- 
2.43.0


From c1a41af2996676f2f612e1ac1628e676fed5f554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:45 +0000
Subject: [PATCH 23/31] fix: an exception thrown by a thread pool task
 terminated the program instead of reaching the future

---
 src/core_thread_pool.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/core_thread_pool.hpp b/src/core_thread_pool.hpp
index 8df8c44..fe691d2 100644
--- a/src/core_thread_pool.hpp
+++ b/src/core_thread_pool.hpp
@@ -107,7 +107,14 @@ public:
 
         enqueue_internal([fn, promised_result, args...]
         {
-            promised_result->set_value(fn(args...));
+            try
+            {
+                promised_result->set_value(fn(args...));
+            }
+            catch (...)
+            {
+                promised_result->set_exception(std::current_exception());
+            }
         });
         return promised_result->get_future();
     }
-- 
2.43.0


From 6c51029c125f2710905efdac6cc60005e79ea8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:45 +0000
Subject: [PATCH 24/31] fix: mean_anomaly is measured from the time of periapse

---
 src/model_two_body.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model_two_body.hpp b/src/model_two_body.hpp
index 035abc7..90c4ff5 100644
--- a/src/model_two_body.hpp
+++ b/src/model_two_body.hpp
@@ -486,7 +486,7 @@ double mara::mean_anomaly(const full_orbital_elements_t& params, double t)
         t += P;
     }
     auto omega = 2 * M_PI / P;
-    return omega * t;
+    return omega * (t - params.tau);
 }
 
 mara::full_orbital_elements_t mara::diff(const full_orbital_elements_t& a, const full_orbital_elements_t& b)
-- 
2.43.0


From 9254dbbb4ee83904d439a261a82be98bf12ce621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:40 +0000
Subject: [PATCH 25/31] fix: begin_live_binary is given in orbits, as
 documented; convert it to code time

---
 src/subprog_binary_solver_data.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/subprog_binary_solver_data.cpp b/src/subprog_binary_solver_data.cpp
index 768fe43..ca4bf0c 100644
--- a/src/subprog_binary_solver_data.cpp
+++ b/src/subprog_binary_solver_data.cpp
@@ -90,7 +90,7 @@ binary::solver_data_t binary::create_solver_data(const mara::config_t& run_confi
     result.softening_radius      = run_config.get_double("softening_radius");
     result.gst_suppr_radius      = run_config.get_double("source_term_softening") * std::min(min_dx, min_dy).value;
     result.plm_theta             = run_config.get_double("plm_theta");
-    result.begin_live_binary     = run_config.get_double("begin_live_binary");
+    result.begin_live_binary     = run_config.get_double("begin_live_binary") * 2 * M_PI;
     result.axisymmetric_cs2      = run_config.get_int("axisymmetric_cs2");
     result.conserve_linear_p     = run_config.get_int("conserve_linear_p");
     result.fixed_dt              = run_config.get_int("fixed_dt");
-- 
2.43.0


From b82a9915df0407a2c1cda0ba11dd78a3fb225916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:40 +0000
Subject: [PATCH 26/31] fix: atmosphere with_total_mass scales the present
 coefficient

---
 src/model_atmosphere.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model_atmosphere.hpp b/src/model_atmosphere.hpp
index 1979f2f..cfa7093 100644
--- a/src/model_atmosphere.hpp
+++ b/src/model_atmosphere.hpp
@@ -97,7 +97,7 @@ struct mara::power_law_atmosphere_model
     power_law_atmosphere_model with_outer_index  (double new_n2) const { return {f0, r0, rc, n1, new_n2}; }
     power_law_atmosphere_model with_total_mass(double new_total_mass) const
     {
-        return with_coefficient(new_total_mass / total_mass());
+        return with_coefficient(f0 * new_total_mass / total_mass());
     }
 
     double mass_within_cutoff() const
-- 
2.43.0


From 36caf6e03acb96d95eec60806c934d50ba08011d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:59 +0000
Subject: [PATCH 27/31] fix: require_dir creates absolute paths where they are
 named, not below the working directory

---
 src/app_filesystem.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/app_filesystem.hpp b/src/app_filesystem.hpp
index f7a952e..f723a53 100644
--- a/src/app_filesystem.hpp
+++ b/src/app_filesystem.hpp
@@ -136,11 +136,11 @@ std::string mara::filesystem::parent(std::string path)
 
 void mara::filesystem::require_dir(std::string path)
 {
-    auto partial = std::string(".");
+    auto partial = std::string();
 
     for (auto dir : split(path))
     {
-        partial += "/" + dir;
+        partial += dir + "/";
         mkdir(partial.c_str(), S_IRWXU | S_IRWXG | S_IROTH | S_IXOTH);
     }
 }
-- 
2.43.0


From 1a476475993dd9ecc1d12bcee116864bf53473ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:59 +0000
Subject: [PATCH 28/31] fix: remove_recurse removes symbolic links instead of
 emptying the directories they point to

---
 src/app_filesystem.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/app_filesystem.hpp b/src/app_filesystem.hpp
index f723a53..64b71d3 100644
--- a/src/app_filesystem.hpp
+++ b/src/app_filesystem.hpp
@@ -158,7 +158,7 @@ int mara::filesystem::remove_recurse(std::string path)
      * https://stackoverflow.com/questions/2256945/removing-a-non-empty-directory-programmatically-in-c-or-c
      * 
      * Uses methods:
-     * opendir, closedir, readdir, rmdir, unlink, stat, S_ISDIR
+     * opendir, closedir, readdir, rmdir, unlink, lstat, S_ISDIR
      * 
      * Uses structs:
      * dirent, statbuf
@@ -185,7 +185,7 @@ int mara::filesystem::remove_recurse(std::string path)
             std::snprintf(&buf[0], buf.size(), "%s/%s", path.data(), p->d_name);
             struct stat statbuf;
 
-            if (! stat(buf.data(), &statbuf))
+            if (! lstat(buf.data(), &statbuf))
             {
                 if (S_ISDIR(statbuf.st_mode))
                 {
-- 
2.43.0


From a674570a3707c33090e71b67a85392ac28cca4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:59 +0000
Subject: [PATCH 29/31] fix: isfile and isdir test the file type, not bits
 shared by several types

---
 src/app_filesystem.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/app_filesystem.hpp b/src/app_filesystem.hpp
index 64b71d3..5ed65d7 100644
--- a/src/app_filesystem.hpp
+++ b/src/app_filesystem.hpp
@@ -214,7 +214,7 @@ bool mara::filesystem::isfile(std::string path)
 
     if (stat(path.data(), &s) == 0)
     {
-        return s.st_mode & S_IFREG;
+        return S_ISREG(s.st_mode);
     }
     return false;
 }
@@ -225,7 +225,7 @@ bool mara::filesystem::isdir(std::string path)
 
     if (stat(path.data(), &s) == 0)
     {
-        return s.st_mode & S_IFDIR;
+        return S_ISDIR(s.st_mode);
     }
     return false;
 }
-- 
2.43.0


From d186bef394adf38509c428209d16376165574165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:59 +0000
Subject: [PATCH 30/31] fix: an invalid sub-program name exits with a failure
 status

---
 src/app_main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app_main.cpp b/src/app_main.cpp
index e27f866..9106c49 100644
--- a/src/app_main.cpp
+++ b/src/app_main.cpp
@@ -91,5 +91,5 @@ int main(int argc, const char* argv[])
     }
 
     std::cout << "invalid sub-program '" << argv[1] << "'\n";
-    return 0;
+    return 1;
 }
-- 
2.43.0


From f1097836ea5d7afd19e39eed066c7f4f6a5033ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:59 +0000
Subject: [PATCH 31/31] fix: sedov time series does not read before the first
 zone when the pressure peak is there

---
 src/subprog_sedov.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/subprog_sedov.cpp b/src/subprog_sedov.cpp
index 492ea76..8789972 100644
--- a/src/subprog_sedov.cpp
+++ b/src/subprog_sedov.cpp
@@ -291,7 +291,7 @@ auto SedovProblem<HydroSystem>::compute_time_series_data(const solution_state_t&
 
     auto find_vertex = [rc, vc] (auto i)
     {
-        return mara::parabola_vertex(
+        return i == 0 ? rc(i) : mara::parabola_vertex(
             rc(i - 1), rc(i), rc(i + 1),
             vc(i - 1), vc(i), vc(i + 1)).first;
     };
-- 
2.43.0

