From ed331de8d23e4563eb3b8b93beee6b52a57ef66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:39 +0000
Subject: [PATCH 01/21] fix: renumber hopping coordinates when
 HoppingBlocks::filter removes sites

---
 cppcore/src/system/HoppingBlocks.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/cppcore/src/system/HoppingBlocks.cpp b/cppcore/src/system/HoppingBlocks.cpp
index c2041a7..7f84134 100644
--- a/cppcore/src/system/HoppingBlocks.cpp
+++ b/cppcore/src/system/HoppingBlocks.cpp
@@ -78,13 +78,23 @@ void HoppingBlocks::append(HopID family_id, ArrayXi&& rows, ArrayXi&& cols) {
 }
 
 void HoppingBlocks::filter(VectorX<bool> const& keep) {
-    using std::begin; using std::end;
+    // The remaining sites are renumbered consecutively
+    auto new_index = std::vector<storage_idx_t>(static_cast<size_t>(keep.size()));
+    auto count = storage_idx_t{0};
+    for (auto i = idx_t{0}; i < keep.size(); ++i) {
+        new_index[i] = count;
+        if (keep[i]) { ++count; }
+    }
+    num_sites = count;
 
-    num_sites = std::accumulate(begin(keep), end(keep), idx_t{0});
     for (auto& block : blocks) {
         block.erase(std::remove_if(block.begin(), block.end(), [&](COO coo) {
             return !keep[coo.row] || !keep[coo.col];
         }), block.end());
+
+        for (auto& coo : block) {
+            coo = {new_index[coo.row], new_index[coo.col]};
+        }
     }
 }
 
-- 
2.43.0


From dae9220567f302ccaf30f7b67e1b62d90caf93b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:16 +0000
Subject: [PATCH 02/21] fix: reject generated hoppings with out of range site
 indices

---
 cppcore/src/system/HoppingBlocks.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cppcore/src/system/HoppingBlocks.cpp b/cppcore/src/system/HoppingBlocks.cpp
index 7f84134..6070759 100644
--- a/cppcore/src/system/HoppingBlocks.cpp
+++ b/cppcore/src/system/HoppingBlocks.cpp
@@ -62,6 +62,14 @@ void HoppingBlocks::append(HopID family_id, ArrayXi&& rows, ArrayXi&& cols) {
                                  "`from` and `to` indices must be equal");
     }
 
+    auto const in_range = [&](ArrayXi const& indices) {
+        return ((indices >= 0) && (indices < static_cast<storage_idx_t>(num_sites))).all();
+    };
+    if (!in_range(rows) || !in_range(cols)) {
+        throw std::runtime_error("When generating hoppings, the `from` and `to` indices "
+                                 "must refer to existing sites");
+    }
+
     auto& block = blocks[family_id.as<size_t>()];
     block.reserve(block.size() + rows.size());
 
-- 
2.43.0


From 27a246ccf461959882c2f8ad375de63ac0251d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:14 +0000
Subject: [PATCH 03/21] fix: find_nearest must not return a site when the
 sublattice has none

---
 cppcore/src/system/System.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cppcore/src/system/System.cpp b/cppcore/src/system/System.cpp
index cfd3490..11a68a2 100644
--- a/cppcore/src/system/System.cpp
+++ b/cppcore/src/system/System.cpp
@@ -67,6 +67,10 @@ Range System::sublattice_range(string_view sublattice) const {
 
 idx_t System::find_nearest(Cartesian target_position, string_view sublattice_name) const {
     auto const range = sublattice_range(sublattice_name);
+    if (range.start == range.end) {
+        throw std::runtime_error("System::find_nearest() there are no sites to choose from");
+    }
+
     auto nearest_index = range.start;
     auto min_distance = (positions[range.start] - target_position).norm();
 
-- 
2.43.0


From 48293f4b8348e1132941d8f3a4798cdff72bc27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:02 +0000
Subject: [PATCH 04/21] fix: reject negative IDs in Registry lookups

---
 cppcore/src/system/Registry.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cppcore/src/system/Registry.cpp b/cppcore/src/system/Registry.cpp
index cfe8eb6..d37af5d 100644
--- a/cppcore/src/system/Registry.cpp
+++ b/cppcore/src/system/Registry.cpp
@@ -54,7 +54,7 @@ NameMap Registry<ID>::name_map() const {
 template<class ID>
 string_view Registry<ID>::name(ID id) const {
     auto const index = id.value();
-    if (index >= size()) {
+    if (index < 0 || index >= size()) {
         throw std::out_of_range("There is no {} with ID = {}"_format(kind<ID>(), index));
     }
     return names[index];
@@ -63,7 +63,7 @@ string_view Registry<ID>::name(ID id) const {
 template<class ID>
 MatrixXcd const& Registry<ID>::energy(ID id) const {
     auto const index = id.value();
-    if (index >= size()) {
+    if (index < 0 || index >= size()) {
         throw std::out_of_range("There is no {} with ID = {}"_format(kind<ID>(), index));
     }
     return energies[index];
-- 
2.43.0


From ab21e45811aba5bb40197adfb78f5ddca0cd320b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:02 +0000
Subject: [PATCH 05/21] fix: reject Green's function indices equal to the
 Hamiltonian size

---
 cppcore/src/KPM.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cppcore/src/KPM.cpp b/cppcore/src/KPM.cpp
index fb4f730..dba2f9d 100644
--- a/cppcore/src/KPM.cpp
+++ b/cppcore/src/KPM.cpp
@@ -102,7 +102,7 @@ ArrayXd KPM::calc_dos(ArrayXd const& energy, double broadening, idx_t num_random
 
 ArrayXcd KPM::calc_greens(idx_t row, idx_t col, ArrayXd const& energy, double broadening) const {
     auto const size = model.hamiltonian().rows();
-    if (row < 0 || row > size || col < 0 || col > size) {
+    if (row < 0 || row >= size || col < 0 || col >= size) {
         throw std::logic_error("KPM::calc_greens(i,j): invalid value for i or j.");
     }
 
@@ -115,9 +115,9 @@ ArrayXcd KPM::calc_greens(idx_t row, idx_t col, ArrayXd const& energy, double br
 std::vector<ArrayXcd> KPM::calc_greens_vector(idx_t row, std::vector<idx_t> const& cols,
                                               ArrayXd const& energy, double broadening) const {
     auto const size = model.hamiltonian().rows();
-    auto const row_error = row < 0 || row > size;
+    auto const row_error = row < 0 || row >= size;
     auto const col_error = std::any_of(cols.begin(), cols.end(),
-                                       [&](idx_t col) { return col < 0 || col > size; });
+                                       [&](idx_t col) { return col < 0 || col >= size; });
     if (row_error || col_error) {
         throw std::logic_error("KPM::calc_greens(i,j): invalid value for i or j.");
     }
-- 
2.43.0


From 0af3e937be6364505dbfdcc5b3793f5fa09b4146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:02 +0000
Subject: [PATCH 06/21] fix: reject conductivity directions with an unknown
 second axis

---
 cppcore/src/KPM.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cppcore/src/KPM.cpp b/cppcore/src/KPM.cpp
index dba2f9d..082bd03 100644
--- a/cppcore/src/KPM.cpp
+++ b/cppcore/src/KPM.cpp
@@ -132,7 +132,7 @@ ArrayXd KPM::calc_conductivity(ArrayXd const& chemical_potential, double broaden
                                double temperature, string_view direction, idx_t num_random,
                                idx_t num_points) const {
     auto const xyz = std::string("xyz");
-    if (direction.size() != 2 || xyz.find_first_of(direction) == std::string::npos) {
+    if (direction.size() != 2 || direction.find_first_not_of(xyz) != std::string::npos) {
         throw std::logic_error("Invalid direction: must be 'xx', 'xy', 'zz', or similar.");
     }
 
-- 
2.43.0


From 3c3638c51a6221f75417b07349cdd87cc1511556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:02 +0000
Subject: [PATCH 07/21] fix: a rejected Model::add must leave the model
 unchanged

---
 cppcore/src/Model.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cppcore/src/Model.cpp b/cppcore/src/Model.cpp
index 28f5016..359eb87 100644
--- a/cppcore/src/Model.cpp
+++ b/cppcore/src/Model.cpp
@@ -11,12 +11,12 @@ Model::Model(Lattice const& lattice)
       hopping_registry(lattice.hopping_registry()) {}
 
 void Model::add(Primitive new_primitive) {
-    primitive = new_primitive;
     for (auto i = lattice.ndim(); i < 3; ++i) {
-        if (primitive.size[i] != 1) {
+        if (new_primitive.size[i] != 1) {
             throw std::logic_error("Primitive shape has more dimensions than the lattice");
         }
     }
+    primitive = new_primitive;
     clear_structure();
 }
 
@@ -73,14 +73,14 @@ void Model::add(HoppingModifier const& m) {
 }
 
 void Model::add(SiteGenerator const& g) {
-    structure_modifiers.emplace_back(g);
     site_registry.register_family(g.name, g.energy);
+    structure_modifiers.emplace_back(g);
     clear_structure();
 }
 
 void Model::add(HoppingGenerator const& g) {
-    structure_modifiers.emplace_back(g);
     hopping_registry.register_family(g.name, g.energy);
+    structure_modifiers.emplace_back(g);
     clear_structure();
 }
 
-- 
2.43.0


From 99182c046454304edfaa7e39a260bcb0421bf8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:02 +0000
Subject: [PATCH 08/21] fix: replacing a shape must also replace its lattice
 offset

---
 cppcore/src/Model.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cppcore/src/Model.cpp b/cppcore/src/Model.cpp
index 359eb87..c3a8316 100644
--- a/cppcore/src/Model.cpp
+++ b/cppcore/src/Model.cpp
@@ -28,8 +28,10 @@ void Model::set_wave_vector(Cartesian const& new_wave_vector) {
 }
 
 void Model::add(Shape const& new_shape) {
+    // The offset of a previously added shape must not accumulate
+    auto const original_offset = (lattice.get_offset() - shape.lattice_offset).eval();
+    lattice.set_offset(original_offset + new_shape.lattice_offset);
     shape = new_shape;
-    lattice.set_offset(lattice.get_offset() + shape.lattice_offset);
     clear_structure();
 }
 
-- 
2.43.0


From 1970707f982a2cb5aca02b88397123c4c339a9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:18 +0000
Subject: [PATCH 09/21] fix: clearing the modifiers must discard the results
 built with them

---
 cppcore/include/Model.hpp |  4 ++--
 cppcore/src/Model.cpp     | 14 ++++++++++++++
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/cppcore/include/Model.hpp b/cppcore/include/Model.hpp
index a59337d..ade7d4b 100644
--- a/cppcore/include/Model.hpp
+++ b/cppcore/include/Model.hpp
@@ -78,8 +78,8 @@ public: // get information
     double hamiltonian_build_seconds() const { return hamiltonian_build_time.elapsed_seconds(); }
 
 public:
-    void clear_structure_modifiers() { structure_modifiers.clear(); }
-    void clear_hamiltonian_modifiers() { hamiltonian_modifiers.clear(); }
+    void clear_structure_modifiers();
+    void clear_hamiltonian_modifiers();
     void clear_all_modifiers() { clear_structure_modifiers(); clear_hamiltonian_modifiers(); }
 
 private:
diff --git a/cppcore/src/Model.cpp b/cppcore/src/Model.cpp
index c3a8316..fbc9d4a 100644
--- a/cppcore/src/Model.cpp
+++ b/cppcore/src/Model.cpp
@@ -86,6 +86,20 @@ void Model::add(HoppingGenerator const& g) {
     clear_structure();
 }
 
+void Model::clear_structure_modifiers() {
+    structure_modifiers.clear();
+    // Discard the families which were introduced by site and hopping generators
+    site_registry = lattice.site_registry();
+    hopping_registry = lattice.hopping_registry();
+    clear_structure();
+}
+
+void Model::clear_hamiltonian_modifiers() {
+    hamiltonian_modifiers.clear();
+    complex_override = false;
+    clear_hamiltonian();
+}
+
 bool Model::is_multiorbital() const {
     return site_registry.has_multiple_orbitals() || hopping_registry.has_multiple_orbitals();
 }
-- 
2.43.0


From 9d2b4945ea4e16b339f12145c59f511432592a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:18 +0000
Subject: [PATCH 10/21] fix: a rejected anonymous hopping must not register its
 energy

---
 cppcore/src/Lattice.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cppcore/src/Lattice.cpp b/cppcore/src/Lattice.cpp
index 1fdc1d2..8c7eb1f 100644
--- a/cppcore/src/Lattice.cpp
+++ b/cppcore/src/Lattice.cpp
@@ -105,6 +105,7 @@ void Lattice::add_hopping(Index3D relative_index, string_view from_sub, string_v
 
 void Lattice::add_hopping(Index3D relative_index, string_view from_sub, string_view to_sub,
                           MatrixXcd const& energy) {
+    auto is_new_name = false;
     auto const hopping_name = [&] {
         // Look for an existing hopping ID with the same energy
         auto const it = std::find_if(hoppings.begin(), hoppings.end(), [&](Hoppings::reference r) {
@@ -117,11 +118,18 @@ void Lattice::add_hopping(Index3D relative_index, string_view from_sub, string_v
         } else {
             auto const name = "__anonymous__{}"_format(hoppings.size());
             register_hopping_energy(name, energy);
+            is_new_name = true;
             return name;
         }
     }();
 
-    add_hopping(relative_index, from_sub, to_sub, hopping_name);
+    try {
+        add_hopping(relative_index, from_sub, to_sub, hopping_name);
+    } catch (...) {
+        // A rejected hopping must not leave an unused family behind
+        if (is_new_name) { hoppings.erase(hopping_name); }
+        throw;
+    }
 }
 
 void Lattice::set_offset(Cartesian position) {
-- 
2.43.0


From 3d23428dcf0e2cb7db05c43f789fbf5054fd7613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:26 +0000
Subject: [PATCH 11/21] fix: arrayref of a mutable std::vector must be
 one-dimensional

---
 cppcore/include/numeric/dense.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cppcore/include/numeric/dense.hpp b/cppcore/include/numeric/dense.hpp
index 222a756..e538735 100644
--- a/cppcore/include/numeric/dense.hpp
+++ b/cppcore/include/numeric/dense.hpp
@@ -306,7 +306,7 @@ ArrayConstRef arrayref(std::vector<scalar_t> const& v) {
 
 template<class scalar_t>
 ArrayRef arrayref(std::vector<scalar_t>& v) {
-    return arrayref(v.data(), 1, true, static_cast<idx_t>(v.size()));
+    return arrayref(v.data(), static_cast<idx_t>(v.size()));
 }
 
 /// Range from 0 to `size` of scalar type `T` which does not have to be an integral type
-- 
2.43.0


From 35dd9eb6f97b0f5967261abaaa43b8bfe37f98cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:07 +0000
Subject: [PATCH 12/21] fix: an alias of an alias must share the alias id of
 the original sublattice

---
 cppcore/src/Lattice.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cppcore/src/Lattice.cpp b/cppcore/src/Lattice.cpp
index 8c7eb1f..a227046 100644
--- a/cppcore/src/Lattice.cpp
+++ b/cppcore/src/Lattice.cpp
@@ -47,7 +47,7 @@ void Lattice::add_sublattice(string_view name, Cartesian position,
 
 void Lattice::add_alias(string_view alias_name, string_view original_name, Cartesian position) {
     auto const& original = sublattice(original_name);
-    auto const alias_id = SubAliasID(original.unique_id);
+    auto const alias_id = original.alias_id; // the original may itself be an alias
     auto const unique_id = make_unique_sublattice_id(alias_name);
     sublattices[alias_name] = {position, original.energy, unique_id, alias_id};
 }
-- 
2.43.0


From cf36247460b8259e806711c97df14a92c52040e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:43 +0000
Subject: [PATCH 13/21] fix: a period longer than the foundation must not
 address sites outside of it

---
 cppcore/src/system/Symmetry.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cppcore/src/system/Symmetry.cpp b/cppcore/src/system/Symmetry.cpp
index 5d3993c..2344b67 100644
--- a/cppcore/src/system/Symmetry.cpp
+++ b/cppcore/src/system/Symmetry.cpp
@@ -64,6 +64,11 @@ std::vector<Translation> TranslationalSymmetry::translations(Foundation const& f
                 boundary_slice[n] = symmetry_area.left[n];
             else if (direction[n] < 0)
                 boundary_slice[n] = symmetry_area.right[n];
+
+            // No sites on this edge: the period is longer than the foundation
+            if (direction[n] != 0 && (boundary_slice[n].start < 0 ||
+                                      boundary_slice[n].end > foundation.get_spatial_size()[n]))
+                return;
         }
 
         auto const shift_index = direction.cwiseProduct(symmetry_area.middle);
-- 
2.43.0


From e0bc9d4dc93ddbd4cc7c79e63953d2b5c61c0a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:29 +0000
Subject: [PATCH 14/21] fix: the conjugate hoppings between lead unit cells
 must be conjugated

---
 cppcore/include/leads/HamiltonianPair.hpp |  9 ++++
 cppcore/src/leads/Structure.cpp           | 50 +++++++++++++----------
 pybinding/leads.py                        |  5 ++-
 3 files changed, 41 insertions(+), 23 deletions(-)

diff --git a/cppcore/include/leads/HamiltonianPair.hpp b/cppcore/include/leads/HamiltonianPair.hpp
index 6f2c1ad..7fdc5e8 100644
--- a/cppcore/include/leads/HamiltonianPair.hpp
+++ b/cppcore/include/leads/HamiltonianPair.hpp
@@ -28,6 +28,15 @@ namespace detail {
             matrix.insert(i, j) = hopping;
         });
 
+        // The second boundary holds the hoppings which start from the previous unit cell
+        auto previous = system;
+        previous.positions.x -= system.boundaries[0].shift.x();
+        previous.positions.y -= system.boundaries[0].shift.y();
+        previous.positions.z -= system.boundaries[0].shift.z();
+        modifiers.apply_to_hoppings<scalar_t>(previous, 1, [&](idx_t i, idx_t j, scalar_t hopping) {
+            matrix.insert(j, i) = num::conjugate(hopping);
+        });
+
         h1->makeCompressed();
         cpb::detail::throw_if_invalid(*h1);
 
diff --git a/cppcore/src/leads/Structure.cpp b/cppcore/src/leads/Structure.cpp
index f86ec26..b7559a0 100644
--- a/cppcore/src/leads/Structure.cpp
+++ b/cppcore/src/leads/Structure.cpp
@@ -49,32 +49,38 @@ Structure::Structure(Foundation const& foundation, Spec const& lead)
         system.compressed_sublattices.verify(size);
     }
 
-    system.boundaries.push_back([&]{
-        auto const size = static_cast<int>(indices.size());
-        auto hopping_blocks = HoppingBlocks(size, system.hopping_registry.name_map());
+    // Hoppings from the unit cell to the previous one and, for the conjugate terms (which are
+    // stored the other way around), hoppings from the previous unit cell to this one.
+    auto const size = static_cast<int>(indices.size());
+    auto forward = HoppingBlocks(size, system.hopping_registry.name_map());
+    auto backward = HoppingBlocks(size, system.hopping_registry.name_map());
 
-        for (auto const& site : slice) {
-            if (!junction.is_valid[site.get_slice_idx()]) {
-                continue;
-            }
+    for (auto const& site : slice) {
+        if (!junction.is_valid[site.get_slice_idx()]) {
+            continue;
+        }
 
-            auto const shifted_site = [&]{
-                Index3D shift_index = Index3D::Zero();
-                shift_index[lead.axis] = lead.sign;
-                return site.shifted(shift_index);
-            }();
+        auto const shifted_site = [&]{
+            Index3D shift_index = Index3D::Zero();
+            shift_index[lead.axis] = lead.sign;
+            return site.shifted(shift_index);
+        }();
 
-            auto const index = lead_index(finalized_indices[site]);
-            shifted_site.for_each_neighbor([&](Site neighbor, Hopping hopping) {
-                auto const neighbor_index = lead_index(finalized_indices[neighbor]);
-                if (neighbor_index >= 0) {
-                    hopping_blocks.add(hopping.family_id, index, neighbor_index);
-                }
-            });
-        }
+        auto const index = lead_index(finalized_indices[site]);
+        shifted_site.for_each_neighbor([&](Site neighbor, Hopping hopping) {
+            auto const neighbor_index = lead_index(finalized_indices[neighbor]);
+            if (neighbor_index < 0) { return; }
+
+            if (!hopping.is_conjugate) {
+                forward.add(hopping.family_id, index, neighbor_index);
+            } else {
+                backward.add(hopping.family_id, neighbor_index, index);
+            }
+        });
+    }
 
-        return System::Boundary{hopping_blocks, shift};
-    }());
+    system.boundaries.push_back({forward, shift});
+    system.boundaries.push_back({backward, -shift});
 }
 
 }} // namespace cpb::leads
diff --git a/pybinding/leads.py b/pybinding/leads.py
index 635cb35..eae202a 100644
--- a/pybinding/leads.py
+++ b/pybinding/leads.py
@@ -97,8 +97,9 @@ class Lead:
         pos = self.system.positions
         sub = self.system.sublattices
         inner_hoppings = self.system.hoppings.tocoo()
-        boundary = self.system.boundaries[0]
+        boundary, previous = self.system.boundaries  # hoppings to and from the previous unit cell
         outer_hoppings = boundary.hoppings.tocoo()
+        previous_hoppings = previous.hoppings.tocoo()
 
         props = structure_plot_properties(**kwargs)
         props['site'].setdefault('radius', self.system.lattice.site_radius_for_plot())
@@ -110,6 +111,8 @@ class Lead:
             plot_hoppings(pos, inner_hoppings, offset=offset, blend=blend, **props['hopping'])
             plot_hoppings(pos, outer_hoppings, offset=offset - boundary.shift, blend=blend,
                           boundary=(1, boundary.shift), **props['boundary'])
+            plot_hoppings(pos, previous_hoppings, offset=offset, blend=blend,
+                          boundary=(1, previous.shift), **props['boundary'])
 
         label_pos = _center(pos, lead_length * boundary.shift * 1.5)
         pltutils.annotate_box("lead {}".format(self.index), label_pos, bbox=dict(alpha=0.7))
-- 
2.43.0


From c3f6d956f40deb3d3435931ec7831328e7e57a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:08 +0000
Subject: [PATCH 15/21] fix: a failing lead must not leave the others half
 built

---
 cppcore/src/leads/Leads.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cppcore/src/leads/Leads.cpp b/cppcore/src/leads/Leads.cpp
index 6628452..e725f76 100644
--- a/cppcore/src/leads/Leads.cpp
+++ b/cppcore/src/leads/Leads.cpp
@@ -13,9 +13,12 @@ void Leads::make_structure(Foundation const& foundation) {
         return;
     }
 
+    // If any lead fails, none of them should be left behind
+    auto new_structures = std::vector<leads::Structure>();
     for (auto const& spec : specs) {
-        structures.emplace_back(foundation, spec);
+        new_structures.emplace_back(foundation, spec);
     }
+    structures = std::move(new_structures);
 }
 
 void Leads::make_hamiltonian(Lattice const& lattice, HamiltonianModifiers const& modifiers,
@@ -24,9 +27,12 @@ void Leads::make_hamiltonian(Lattice const& lattice, HamiltonianModifiers const&
         return;
     }
 
+    // If any lead fails, none of them should be left behind
+    auto new_hamiltonians = std::vector<leads::HamiltonianPair>();
     for (auto const& structure : structures) {
-        hamiltonians.emplace_back(structure.system, lattice, modifiers, is_double, is_complex);
+        new_hamiltonians.emplace_back(structure.system, lattice, modifiers, is_double, is_complex);
     }
+    hamiltonians = std::move(new_hamiltonians);
 }
 
 void Leads::clear_structure() {
-- 
2.43.0


From eaa22e7894c8b8694ded838906f233c769314f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:35 +0000
Subject: [PATCH 16/21] fix: generated sites must also be accounted for in the
 boundary hoppings

---
 cppcore/src/system/StructureModifiers.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cppcore/src/system/StructureModifiers.cpp b/cppcore/src/system/StructureModifiers.cpp
index 48e49c5..b0cb56c 100644
--- a/cppcore/src/system/StructureModifiers.cpp
+++ b/cppcore/src/system/StructureModifiers.cpp
@@ -55,6 +55,9 @@ void apply(SiteGenerator const& g, System& s) {
     auto const nsites = new_positions.size();
     s.compressed_sublattices.add(s.site_registry.id(g.name), norb, nsites);
     s.hopping_blocks.add_sites(nsites);
+    for (auto& boundary : s.boundaries) {
+        boundary.hopping_blocks.add_sites(nsites);
+    }
     s.positions = concat(s.positions, new_positions);
 }
 
-- 
2.43.0


From f4d3a8688e7dbd65df146f97f1ab0a431d70bd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:05 +0000
Subject: [PATCH 17/21] fix: hopping terms must be placed at the Hamiltonian
 indices of their own sites

---
 .../hamiltonian/HamiltonianModifiers.hpp      | 33 ++++++++++++-------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/cppcore/include/hamiltonian/HamiltonianModifiers.hpp b/cppcore/include/hamiltonian/HamiltonianModifiers.hpp
index f206740..77f96bd 100644
--- a/cppcore/include/hamiltonian/HamiltonianModifiers.hpp
+++ b/cppcore/include/hamiltonian/HamiltonianModifiers.hpp
@@ -162,11 +162,8 @@ class IndexTranslator {
 public:
     /// A translator is specific to a system and hopping family -- the matrix dimensions
     IndexTranslator(System const& system, MatrixXcd const& hopping_matrix)
-        : term_size(hopping_matrix.rows(), hopping_matrix.cols()),
-          sys_start(system.compressed_sublattices.start_index(term_size.row),
-                    system.compressed_sublattices.start_index(term_size.col)),
-          ham_start(system.to_hamiltonian_indices(sys_start.row)[0],
-                    system.to_hamiltonian_indices(sys_start.col)[0]) {}
+        : sublattices(system.compressed_sublattices),
+          term_size(hopping_matrix.rows(), hopping_matrix.cols()) {}
 
     /// Loop over all Hamiltonian indices matching the System indices given in `coordinates`:
     ///     lambda(idx_t row, idx_t col, scalar_t value)
@@ -174,11 +171,11 @@ public:
     template<class C, class F, class V, class scalar_t = typename V::Scalar> CPB_ALWAYS_INLINE
     void for_each(C const& coordinates, V const& hopping_buffer, F lambda) const {
         auto const* data = hopping_buffer.data();
-        for (auto i = ham_start.row; i < ham_start.row + term_size.row; ++i) {
-            for (auto j = ham_start.col; j < ham_start.col + term_size.col; ++j) {
+        for (auto i = idx_t{0}; i < term_size.row; ++i) {
+            for (auto j = idx_t{0}; j < term_size.col; ++j) {
                 for (auto const& coo : coordinates) {
-                    auto const ham_row = i + (coo.row - sys_start.row) * term_size.row;
-                    auto const ham_col = j + (coo.col - sys_start.col) * term_size.col;
+                    auto const ham_row = i + ham_start(coo.row, term_size.row);
+                    auto const ham_col = j + ham_start(coo.col, term_size.col);
 
                     auto const value = *data++;
                     if (value != scalar_t{0}) {
@@ -190,9 +187,20 @@ public:
     }
 
 private:
+    /// The first Hamiltonian index of the given site. The sites which have the same number of
+    /// orbitals aren't necessarily consecutive: generators may add new sublattices at the end.
+    idx_t ham_start(idx_t site, idx_t num_orbitals) const {
+        for (auto const& sub : sublattices) {
+            if (site >= sub.sys_end()) { continue; }
+            if (sub.num_orbitals() != num_orbitals) { break; }
+            return sub.ham_start() + (site - sub.sys_start()) * num_orbitals;
+        }
+        throw std::runtime_error("The size of a hopping matrix doesn't match the number of "
+                                 "orbitals of the sites which it connects.");
+    }
+
+    CompressedSublattices const& sublattices; ///< of the system for which this was constructed
     COO term_size; ///< size the hopping matrix (single hopping term)
-    COO sys_start; ///< start index in System coordinates
-    COO ham_start; ///< start index in Hamiltonian coordinates
 };
 
 /**
@@ -244,7 +252,8 @@ void HamiltonianModifiers::apply_to_hoppings_impl(System const& system,
 
     // Fast path: Modifiers don't need to be applied and the single-orbital model
     // allows direct mapping between sites and Hamiltonian matrix elements.
-    if (hopping.empty() && !hopping_registry.has_multiple_orbitals()) {
+    if (hopping.empty() && !hopping_registry.has_multiple_orbitals()
+        && !system.site_registry.has_multiple_orbitals()) {
         for (auto const& block : system_or_boundary.hopping_blocks) {
             auto const energy = num::force_cast<scalar_t>(
                 hopping_registry.energy(block.family_id())
-- 
2.43.0


From 9d2e3938eb2b6e540090eacbebfa8f236b50ee95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:04 +0000
Subject: [PATCH 18/21] fix: leads whose modifiers return complex values must
 be promoted to complex

---
 cppcore/src/Model.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cppcore/src/Model.cpp b/cppcore/src/Model.cpp
index fbc9d4a..8f011d5 100644
--- a/cppcore/src/Model.cpp
+++ b/cppcore/src/Model.cpp
@@ -135,7 +135,12 @@ Hamiltonian const& Model::hamiltonian() const {
 Leads const& Model::leads() const {
     system();
     hamiltonian();
-    _leads.make_hamiltonian(lattice, hamiltonian_modifiers, is_double(), is_complex());
+    try {
+        _leads.make_hamiltonian(lattice, hamiltonian_modifiers, is_double(), is_complex());
+    } catch (ComplexOverride const&) {
+        // The modifiers returned complex values only for the leads but not for the main system
+        _leads.make_hamiltonian(lattice, hamiltonian_modifiers, is_double(), true);
+    }
     return _leads;
 }
 
-- 
2.43.0


From 3c1419f8f179b4ae1682481b8d4568288c7e083d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:06 +0000
Subject: [PATCH 19/21] fix: reordering the KPM Hamiltonian of a disconnected
 system read past the index queue

---
 cppcore/src/kpm/OptimizedHamiltonian.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/cppcore/src/kpm/OptimizedHamiltonian.cpp b/cppcore/src/kpm/OptimizedHamiltonian.cpp
index 6aa083a..27d9ddc 100644
--- a/cppcore/src/kpm/OptimizedHamiltonian.cpp
+++ b/cppcore/src/kpm/OptimizedHamiltonian.cpp
@@ -102,6 +102,9 @@ void OptimizedHamiltonian::create_reordered(Indices const& idx, Scale<> s) {
     auto slice_border_indices = std::vector<storage_idx_t>();
     slice_border_indices.push_back(1);
 
+    // All original indices before this one are already mapped
+    auto first_unmapped = idx_t{0};
+
     // Fill the reordered matrix row by row
     auto const h_view = sparse::make_loop(h);
     for (auto h2_row = 0; h2_row < system_size; ++h2_row) {
@@ -138,6 +141,14 @@ void OptimizedHamiltonian::create_reordered(Indices const& idx, Scale<> s) {
 
         // Reached the end of a slice
         if (h2_row == slice_border_indices.back() - 1) {
+            // The queue only covers what is connected to the starting index. If that is exhausted,
+            // continue with the first of the remaining indices (the system is disconnected).
+            if (h2_row + 1 < system_size
+                && static_cast<idx_t>(index_queue.size()) == h2_row + 1) {
+                while (reorder_map[first_unmapped] >= 0) { ++first_unmapped; }
+                reorder_map[first_unmapped] = static_cast<storage_idx_t>(index_queue.size());
+                index_queue.push_back(static_cast<storage_idx_t>(first_unmapped));
+            }
             slice_border_indices.push_back(static_cast<storage_idx_t>(index_queue.size()));
         }
     }
-- 
2.43.0


From db498949a5d20e61657fe599a79f3ff23cbc3527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:42:58 +0000
Subject: [PATCH 20/21] fix: keep the sampled slice of a lead's junction inside
 the foundation

---
 cppcore/src/leads/Spec.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cppcore/src/leads/Spec.cpp b/cppcore/src/leads/Spec.cpp
index 14951bd..c5f7fc1 100644
--- a/cppcore/src/leads/Spec.cpp
+++ b/cppcore/src/leads/Spec.cpp
@@ -89,9 +89,11 @@ SliceIndex3D attachment_slice(Foundation const& foundation, Spec const& spec) {
 Junction::Junction(Foundation const& foundation, Spec const& spec)
     : slice_index(attachment_slice(foundation, spec)) {
     // The lead's shape.contains() should be invoked in the center of the shape slice
+    // or at the edge of the foundation which is closest to it
     auto si3d = shape_slice(foundation, spec.shape);
     auto const si = si3d[spec.axis];
-    si3d[spec.axis] = (si.start + si.end) / 2;
+    auto const last = foundation.get_spatial_size()[spec.axis] - 1;
+    si3d[spec.axis] = std::min(std::max((si.start + si.end) / 2, 0), last);
     auto const slice = foundation[si3d];
     is_valid = spec.shape.contains(slice.positions());
 
-- 
2.43.0


From fe09f6f66bb470807338d9b0a483632cf12f11dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:42:58 +0000
Subject: [PATCH 21/21] fix: attach all leads until no lead's junction needs
 new sites

---
 cppcore/src/leads/Leads.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/cppcore/src/leads/Leads.cpp b/cppcore/src/leads/Leads.cpp
index e725f76..96c651a 100644
--- a/cppcore/src/leads/Leads.cpp
+++ b/cppcore/src/leads/Leads.cpp
@@ -1,10 +1,17 @@
 #include "leads/Leads.hpp"
+#include "system/Foundation.hpp"
 
 namespace cpb {
 
 void Leads::create_attachment_area(Foundation& foundation) const {
-    for (auto const& spec : specs) {
-        leads::create_attachment_area(foundation, spec);
+    // The sites which are added for one lead may move the junction of another one further out.
+    // Repeat until there's nothing left to add.
+    auto num_sites = idx_t{-1};
+    while (num_sites != foundation.get_states().count()) {
+        num_sites = foundation.get_states().count();
+        for (auto const& spec : specs) {
+            leads::create_attachment_area(foundation, spec);
+        }
     }
 }
 
-- 
2.43.0

