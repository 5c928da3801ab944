From 1d66e7e3bbf34d7fa90d80ae77687e3094db39a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:02 +0000
Subject: [PATCH 01/81] fix: a zero-length time step of an SPM cell must not
 change its state

The stress-driven crack and LAM models divide by the length of the step, so a
step of 0 s turned the geometric states into NaN (and later made the OCV
interpolation index out of range).
---
 src/cells/Cell_SPM/Cell_SPM_dstate.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cells/Cell_SPM/Cell_SPM_dstate.cpp b/src/cells/Cell_SPM/Cell_SPM_dstate.cpp
index 6239d8b..6e50731 100644
--- a/src/cells/Cell_SPM/Cell_SPM_dstate.cpp
+++ b/src/cells/Cell_SPM/Cell_SPM_dstate.cpp
@@ -266,6 +266,10 @@ void Cell_SPM::timeStep_CC(double dt, int nstep)
     throw 10;
   }
 
+  //!< no time passes -> nothing changes. (the stress-driven degradation models divide by the length of the step)
+  if (dt == 0 || nstep <= 0)
+    return;
+
   const bool print = true;
 
   //!< Update the stress values stored in the attributes with the stress of the previous time step
-- 
2.43.0


From 95c9912e4fe86b4c34d36335e4355fb78ebe7866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:04 +0000
Subject: [PATCH 02/81] fix: copy assignment of a Deep_ptr must compile

---
 src/types/Deep_ptr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/Deep_ptr.hpp b/src/types/Deep_ptr.hpp
index 2b7d8ed..d14f9fc 100644
--- a/src/types/Deep_ptr.hpp
+++ b/src/types/Deep_ptr.hpp
@@ -58,7 +58,7 @@ public:
   /// Copy assignment operator
   Deep_ptr &operator=(const Deep_ptr &other)
   {
-    if (this != &other) ptr = other ? other->copy() : nullptr;
+    if (this != &other) ptr.reset(other ? other->copy() : nullptr);
 
     return *this;
   }
-- 
2.43.0


From ab912255af1890cef0178ef8606371ca298593b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:04 +0000
Subject: [PATCH 03/81] fix: comparing nullptr with a Deep_ptr must not recurse
 forever

---
 src/types/Deep_ptr.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/types/Deep_ptr.hpp b/src/types/Deep_ptr.hpp
index d14f9fc..355d9d9 100644
--- a/src/types/Deep_ptr.hpp
+++ b/src/types/Deep_ptr.hpp
@@ -90,17 +90,17 @@ public:
 
   [[nodiscard]] friend bool operator==(std::nullptr_t, const Deep_ptr<T> &rhs) noexcept
   {
-    return rhs == nullptr;
+    return rhs.ptr == nullptr;
   }
 
   [[nodiscard]] friend bool operator!=(const Deep_ptr<T> &lhs, std::nullptr_t) noexcept
   {
-    return !(lhs == nullptr);
+    return lhs.ptr != nullptr;
   }
 
   [[nodiscard]] friend bool operator!=(std::nullptr_t, const Deep_ptr<T> &rhs) noexcept
   {
-    return rhs != nullptr;
+    return rhs.ptr != nullptr;
   }
 };
 
-- 
2.43.0


From f1c4006b8f69b75146e93ad9ee3eceeae74c15bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:15 +0000
Subject: [PATCH 04/81] fix: highest cell voltage of a series module was its
 summed lower limit

---
 src/modules/Module.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/modules/Module.cpp b/src/modules/Module.cpp
index 511d075..9deeb96 100644
--- a/src/modules/Module.cpp
+++ b/src/modules/Module.cpp
@@ -141,7 +141,9 @@ double Module::getVhigh()
 {
   //!< return the voltage of the cell with the highest voltage
   //!< 	note CELL not child SU
-  double Vhigh = Vmin(); // #TODO
+  if (SUs.empty()) return Vmin();
+
+  double Vhigh = SUs[0]->getVhigh(); // do not start from a module limit, that of a series module is above any cell voltage.
   for (const auto &SU : SUs)
     Vhigh = std::max(Vhigh, SU->getVhigh()); //!< will be called recursively to the cell levels
 
-- 
2.43.0


From 0403e2c774f995be4266b8228fc4351003c89544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:15 +0000
Subject: [PATCH 05/81] fix: series module did not restore the current of its
 first member

---
 src/modules/Module_s.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/Module_s.cpp b/src/modules/Module_s.cpp
index 1d8e466..b38c3a3 100644
--- a/src/modules/Module_s.cpp
+++ b/src/modules/Module_s.cpp
@@ -106,7 +106,7 @@ Status Module_s::setCurrent(double Inew, bool checkV, bool print)
                   << getStatusMessage(status) << '\n';
 
 
-      for (int j{ i }; j > 0; j--)
+      for (int j{ i }; j >= 0; j--)
         SUs[j]->setCurrent(Iolds[j], false, false); // #TODO this can start from j{i-1} since probably SUs[i] failed to assign any currents.
 
       return status; // #TODO setCurrent here may be costly.
-- 
2.43.0


From 274924c6a651f6dbd06048a617cdd895d5f54de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:15 +0000
Subject: [PATCH 06/81] fix: module restored every refused state into the
 refusing member

---
 src/modules/Module.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/Module.cpp b/src/modules/Module.cpp
index 9deeb96..2c7d576 100644
--- a/src/modules/Module.cpp
+++ b/src/modules/Module.cpp
@@ -236,7 +236,7 @@ Status Module::setStates(setStates_t s, bool checkV, bool print)
                   << ". Restoring the old states, status: " << getStatusMessage(status) << '\n';
 
       for (size_t j = 0; j <= i; j++)
-        SUs[i]->setStates(spn_orig, false, print); //!< restore the original states without checking validity (they should be valid)
+        SUs[j]->setStates(spn_orig, false, print); //!< restore the original states without checking validity (they should be valid)
 
       return status;
     }
-- 
2.43.0


From c006b00cf67619e314799fa17171655bd915451a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:15 +0000
Subject: [PATCH 07/81] fix: contact resistance heat of a parallel module
 counted currents repeatedly

---
 src/modules/Module_p.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/Module_p.cpp b/src/modules/Module_p.cpp
index 612d1bf..046cfe2 100644
--- a/src/modules/Module_p.cpp
+++ b/src/modules/Module_p.cpp
@@ -314,8 +314,8 @@ void Module_p::timeStep_CC(double dt, int nstep)
     therm.time += nstep * dt;
 
     //!< Increase the heat from the contact resistances
-    double Ii = 0; //!< current through resistor I
     for (size_t i = 0; i < SUs.size(); i++) {
+      double Ii = 0;                                  //!< current through resistor i
       for (size_t j = i; j < SUs.size(); j++) // #TODO very important! Not calculating current for Rcontact properly!!!!!!!!!!
         Ii += SUs[j]->I();                    //!< resistor i sees the currents through the cells 'behind' them
 
-- 
2.43.0


From 8d66fae143bac0186988e3082f38db62692ce0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:15 +0000
Subject: [PATCH 08/81] fix: parallel module failed although the second
 redistribution succeeded

---
 src/modules/Module_p.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modules/Module_p.cpp b/src/modules/Module_p.cpp
index 046cfe2..555ffd7 100644
--- a/src/modules/Module_p.cpp
+++ b/src/modules/Module_p.cpp
@@ -366,8 +366,8 @@ void Module_p::timeStep_CC(double dt, int nstep)
   //!< check if the cell's voltage is valid #TODO I changed this to make redistribute everytime!
   auto status = redistributeCurrent(false, true); //!< don't check the currents
   if (status != Status::Success) {
-    auto status = redistributeCurrent(false, true); //!< don't check the currents
-    throw 100000;                                   //!< #TODO
+    status = redistributeCurrent(false, true); //!< don't check the currents
+    if (status != Status::Success) throw 100000; //!< #TODO
   }
 }
 
-- 
2.43.0


From 98f6591f76df337ab8acbe6afa7595adec21d03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:25 +0000
Subject: [PATCH 09/81] fix: blocking ageing and temperature through a
 StorageUnit pointer must reach the cells of modules and batteries

---
 src/StorageUnit.hpp    | 2 +-
 src/modules/Module.hpp | 2 +-
 src/system/Battery.hpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/StorageUnit.hpp b/src/StorageUnit.hpp
index 2bd8e99..0e0f373 100644
--- a/src/StorageUnit.hpp
+++ b/src/StorageUnit.hpp
@@ -61,7 +61,7 @@ public:
 
   virtual void getStates(getStates_t s) = 0;       //!< returns one long array with the states
   virtual viewStates_t viewStates() { return {}; } //!< Only for cells to see individual states.
-  void setBlockDegAndTherm(bool block) { blockDegAndTherm = block; }
+  virtual void setBlockDegAndTherm(bool block) { blockDegAndTherm = block; }
   virtual void setParent(StorageUnit *p) { parent = p; }                             //!< set the parent
   virtual Status setCurrent(double Inew, bool checkV = true, bool print = true) = 0; //
   virtual Status setVoltage(double Vnew, bool checkI = true, bool print = true)
diff --git a/src/modules/Module.hpp b/src/modules/Module.hpp
index 731d1f7..cf04b5f 100644
--- a/src/modules/Module.hpp
+++ b/src/modules/Module.hpp
@@ -170,7 +170,7 @@ public:
 #endif
   }
 
-  void setBlockDegAndTherm(bool block)
+  void setBlockDegAndTherm(bool block) override
   {
     for (auto &SU : SUs)
       SU->setBlockDegAndTherm(block);
diff --git a/src/system/Battery.hpp b/src/system/Battery.hpp
index 12673f4..507eed6 100644
--- a/src/system/Battery.hpp
+++ b/src/system/Battery.hpp
@@ -54,7 +54,7 @@ public:
   Module *getCells() { return cells.get(); }
   //!< int getNstates() { return cells->getNstates() + 1; } //!< +1 for the temperature of this battery
   void getStates(getStates_t &s) override; //!< returns one long array with the states
-  void setBlockDegAndTherm(bool block);
+  void setBlockDegAndTherm(bool block) override;
 
   Status setCurrent(double Inew, bool checkV = true, bool print = true) override
   {
-- 
2.43.0


From f4f5350bbfde3b092cdf64cce4d87d817fcf435a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:25 +0000
Subject: [PATCH 10/81] fix: members of a copied module or battery still had
 the original as their parent

---
 src/modules/Module.hpp   | 6 ++++++
 src/modules/Module_p.hpp | 7 ++++++-
 src/modules/Module_s.hpp | 7 ++++++-
 src/system/Battery.hpp   | 7 ++++++-
 4 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/modules/Module.hpp b/src/modules/Module.hpp
index cf04b5f..8413d33 100644
--- a/src/modules/Module.hpp
+++ b/src/modules/Module.hpp
@@ -69,6 +69,12 @@ protected:
     return Ncells = transform_sum(SUs, free::get_Ncells<SU_t>);
   }
 
+  void linkSUs() //!< make this module the parent of its SUs, after copying them along with a module.
+  {
+    for (auto &SU : SUs)
+      SU->setParent(this);
+  }
+
   double thermalModel_cell();
   double thermalModel_coupled(int Nneighbours, double Tneighbours[], double Kneighbours[], double Aneighb[], double tim);
 
diff --git a/src/modules/Module_p.hpp b/src/modules/Module_p.hpp
index 00a187b..47ec89c 100644
--- a/src/modules/Module_p.hpp
+++ b/src/modules/Module_p.hpp
@@ -44,6 +44,11 @@ public:
 
   void timeStep_CC(double dt, int steps = 1) override;
 
-  Module_p *copy() override { return new Module_p(*this); }
+  Module_p *copy() override
+  {
+    auto m = new Module_p(*this);
+    m->linkSUs();
+    return m;
+  }
 };
 } // namespace slide
\ No newline at end of file
diff --git a/src/modules/Module_s.hpp b/src/modules/Module_s.hpp
index 2f481c2..88c2ad7 100644
--- a/src/modules/Module_s.hpp
+++ b/src/modules/Module_s.hpp
@@ -45,6 +45,11 @@ public:
   Status setCurrent(double Inew, bool checkV = true, bool print = true) override; //!< set a module current
   void timeStep_CC(double dt, int steps = 1) override;
 
-  Module_s *copy() override { return new Module_s(*this); }
+  Module_s *copy() override
+  {
+    auto m = new Module_s(*this);
+    m->linkSUs();
+    return m;
+  }
 };
 } // namespace slide
diff --git a/src/system/Battery.hpp b/src/system/Battery.hpp
index 507eed6..b72354d 100644
--- a/src/system/Battery.hpp
+++ b/src/system/Battery.hpp
@@ -92,7 +92,12 @@ public:
   void storeData() override;
   void writeData(const std::string &prefix) override;
 
-  Battery *copy() override { return new Battery(*this); }
+  Battery *copy() override
+  {
+    auto b = new Battery(*this);
+    if (b->cells) b->cells->setParent(b);
+    return b;
+  }
 };
 
 } // namespace slide
-- 
2.43.0


From eac5e28900ccd7edaaf3450501721c0f87b05e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:25 +0000
Subject: [PATCH 11/81] fix: battery must consume exactly its own states, and
 only when they were accepted

---
 src/system/Battery.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/system/Battery.cpp b/src/system/Battery.cpp
index 0581721..c5f7686 100644
--- a/src/system/Battery.cpp
+++ b/src/system/Battery.cpp
@@ -106,7 +106,10 @@ void Battery::setBlockDegAndTherm(bool block)
 Status Battery::setStates(setStates_t s, bool checkStates, bool print)
 {
   auto status = cells->setStates(s, checkStates, print);
-  setT(s.back()); //!< #TODO probably here we need to check?
+  if (isStatusBad(status)) return status;
+
+  setT(s[0]); //!< the battery temperature follows the states of its module. #TODO probably here we need to check?
+  s = s.last(s.size() - 1);
   return status;
 }
 
-- 
2.43.0


From 84298342e92496534df76913f7a2042ed0e32458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:25 +0000
Subject: [PATCH 12/81] fix: highest and lowest cell voltage of a battery are
 those of a cell

---
 src/system/Battery.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/system/Battery.hpp b/src/system/Battery.hpp
index b72354d..4d1c705 100644
--- a/src/system/Battery.hpp
+++ b/src/system/Battery.hpp
@@ -70,8 +70,8 @@ public:
   double getOCV() override { return cells->getOCV() * nseries; }
   double V() override { return cells->V() * nseries; }
   Status checkVoltage(double &v, bool print) noexcept override;      //!< get the voltage and check if it is valid
-  double getVhigh() override { return cells->getVhigh() * nseries; } //!< return the voltage of the cell with the highest voltage
-  double getVlow() override { return cells->getVlow() * nseries; }   //!< return the voltage of the cell with the lowest voltage
+  double getVhigh() override { return cells->getVhigh(); }           //!< return the voltage of the cell with the highest voltage
+  double getVlow() override { return cells->getVlow(); }             //!< return the voltage of the cell with the lowest voltage
 
   //!< thermal model
   double T() override { return cool->T(); }
-- 
2.43.0


From 1861d3e602976e75666c65d7d9afc8df3b43a366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:25 +0000
Subject: [PATCH 13/81] fix: module must refuse empty, owned or too many
 members without accessing invalid memory

---
 src/modules/Module.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/modules/Module.cpp b/src/modules/Module.cpp
index 2c7d576..0280c53 100644
--- a/src/modules/Module.cpp
+++ b/src/modules/Module.cpp
@@ -77,14 +77,28 @@ void Module::setSUs(SUs_span_t c, bool checkCells, bool print)
 
   const bool verb = print && (settings::printBool::printCrit);
 
+  //!< there is only room for so many SUs in the buffers used to set currents, voltages and temperatures
+  if (c.size() > settings::MODULE_NSUs_MAX) {
+    if (verb)
+      std::cerr << "ERROR in Module::setCells, " << c.size() << " SUs are too many, at most "
+                << settings::MODULE_NSUs_MAX << " can be connected. Throwing 10.\n";
+    throw 10;
+  }
+
   //!< check the cells don't have parents yet (unless it is this module)
   for (size_t i = 0; i < c.size(); i++) {
+    if (!c[i]) {
+      if (verb)
+        std::cerr << "ERROR in Module::setCells, SU " << i << " is empty. Throwing 10.\n";
+      throw 10;
+    }
+
     auto p = c[i]->getParent();
     if (p != nullptr && p != this) //!< #TODO probably cannot be this since it is a unique_ptr
     {
       if (verb)
         std::cerr << "ERROR in Module::setCells, SU " << i << ", already has a parent "
-                  << "with full ID: " << parent->getFullID() << ". Throwing 10.\n";
+                  << "with full ID: " << p->getFullID() << ". Throwing 10.\n";
       std::cout << "Throwed in File: " << __FILE__ << ", line: " << __LINE__ << '\n';
       throw 10;
     }
-- 
2.43.0


From 8d9b948b631c45963d923273700cecea06811f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:25 +0000
Subject: [PATCH 14/81] fix: series module reported a stale voltage after a
 member was changed directly

---
 src/modules/Module_s.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/modules/Module_s.cpp b/src/modules/Module_s.cpp
index b38c3a3..5b7a31b 100644
--- a/src/modules/Module_s.cpp
+++ b/src/modules/Module_s.cpp
@@ -55,11 +55,8 @@ double Module_s::V()
   //!< sum of the voltage of all cells
   //!< bool verb = print && (settings::printBool::printCrit); //!< print if the (global) verbose-setting is above the threshold
 
-  //!< if the stored value is up to date, return that one
-  if (Vmodule_valid)
-    return Vmodule;
-
-  //!< else calculate the voltage
+  //!< always calculate the voltage, SUs may have changed without this module knowing (e.g. when balancing individual cells).
+  //!< SUs keep their own voltages up to date.
   Vmodule = 0;
   for (size_t i = 0; i < getNSUs(); i++) {
     const auto v_i = SUs[i]->V();
-- 
2.43.0


From 1866d34d1c7012ea1d34ea580ec58f0778c45544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:05 +0000
Subject: [PATCH 15/81] fix: parallel module must keep the total current when
 redistributing, and restore its currents when refusing a new one

---
 src/modules/Module_p.cpp | 44 +++++++++++++++++++++++++++++++---------
 1 file changed, 34 insertions(+), 10 deletions(-)

diff --git a/src/modules/Module_p.cpp b/src/modules/Module_p.cpp
index 555ffd7..8ca336e 100644
--- a/src/modules/Module_p.cpp
+++ b/src/modules/Module_p.cpp
@@ -124,7 +124,12 @@ Status Module_p::redistributeCurrent(bool checkV, bool print)
   for (; iter < maxIteration; iter++) {
     double error{ 0 };
 
-    const auto Vmean = std::accumulate(Va.begin(), Va.begin() + nSU, 0.0) / nSU; // Compute the mean voltage
+    double Vmean{ 0 }, Ctot{ 0 };
+    for (size_t i = 0; i < nSU; i++) { // Capacity-weighted mean voltage such that the updates below preserve the total current.
+      Vmean += Va[i] * SUs[i]->Cap();
+      Ctot += SUs[i]->Cap();
+    }
+    Vmean /= Ctot;
 
     for (size_t i = 0; i < nSU; i++) // Compute the error between mean voltage and individual cell voltages
       error += std::abs(Vmean - Va[i]);
@@ -183,6 +188,10 @@ Status Module_p::setVoltage(double Vnew, bool checkI, bool print)
   if constexpr (settings::printNumIterations)
     std::cout << "setVoltage iterations: " << iter << '\n';
 
+  if (StatusNow != Status::Success) // Restore the old currents if the voltage could not be reached.
+    for (size_t i{}; i < SUs.size(); i++)
+      SUs[i]->setCurrent(Iolds[i]);
+
   return StatusNow; // #TODO add some voltage/current etc. check
 }
 
@@ -220,39 +229,55 @@ Status Module_p::setCurrent(double Inew, bool checkV, bool print)
 
   const auto dI = (Inew - Itot) / nSU; // #TODO must change if charge/discharge.
 
+  const auto restoreCurrents = [&]() {
+    for (size_t i{}; i < SUs.size(); i++)
+      SUs[i]->setCurrent(Iolds[i]);
+  };
+
   for (size_t i{}; i < SUs.size(); i++) {
     Ia[i] += dI;
     StatusNow = SUs[i]->setCurrent(Ia[i]); // #TODO worse status should be here.
-    if (!isStatusOK(StatusNow)) return StatusNow;
+    if (!isStatusOK(StatusNow)) {
+      restoreCurrents();
+      return StatusNow;
+    }
   }
 
   getVall(Va, print);
 
   int iter{ 0 };
   for (; iter < maxIteration; iter++) {
-    double Vmean{ 0 }, error{ 0 };
+    double Vmean{ 0 }, Ctot{ 0 }, error{ 0 };
 
-    for (size_t i = 0; i < nSU; i++)
-      Vmean += Va[i];
+    for (size_t i = 0; i < nSU; i++) { // Capacity-weighted mean such that the updates below preserve the total current.
+      Vmean += Va[i] * SUs[i]->Cap();
+      Ctot += SUs[i]->Cap();
+    }
 
-    Vmean /= nSU;
+    Vmean /= Ctot;
 
     for (size_t i = 0; i < nSU; i++)
       error += std::abs(Vmean - Va[i]);
 
-    if (error < 1e-9) {
+    if (error < 1e-9 && isStatusOK(StatusNow)) {
       StatusNow = Status::Success;
       break;
     }
 
+    StatusNow = Status::Success;
     for (size_t i = 0; i < nSU; i++) {
       Ia[i] = Ia[i] - (Vmean - Va[i]) * SUs[i]->Cap();
-      if (!isStatusSuccessful(SUs[i]->setCurrent(Ia[i])))
-        std::cout << "This should not happen!!" << std::endl; // #TODO
+      const auto status = SUs[i]->setCurrent(Ia[i]);
+      if (isStatusBad(status)) StatusNow = status; // This SU still has its previous current.
     }
     getVall(Va, print);
   }
 
+  if (iter == maxIteration) { // The voltages could not be equalised.
+    restoreCurrents();
+    return isStatusBad(StatusNow) ? StatusNow : Status::RedistributeCurrent_failed;
+  }
+
   //!< voltage of cell i is outside the valid range, but within safety limits
   //!< indicate this happened but continue setting states
   if (isStatusWarning(StatusNow)) { // #TODO maybe we should not need to set current equally immediately?
@@ -272,7 +297,6 @@ Status Module_p::setCurrent(double Inew, bool checkV, bool print)
 
   if constexpr (settings::printNumIterations)
     if (iter != 0) std::cout << "setCurrent iterations: " << iter << '\n';
-  // #TODO set old currents back here!
   return StatusNow; //!< #TODO problem
 }
 
-- 
2.43.0


From 8ad0f8f5c6824ba77790447c23c5700f4934d205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:08 +0000
Subject: [PATCH 16/81] fix: a refused voltage must leave the old current

---
 src/utility/free_functions.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/utility/free_functions.hpp b/src/utility/free_functions.hpp
index a37613c..3c90a25 100644
--- a/src/utility/free_functions.hpp
+++ b/src/utility/free_functions.hpp
@@ -27,7 +27,8 @@ inline Status setVoltage_iterative(Tsu *su, double Vset)
   // New redistributeCurrent without PI control:
   //!< get cell voltages
   constexpr int maxIteration = 50;
-  double Ia{ su->I() };
+  const double Iold{ su->I() };
+  double Ia{ Iold };
 
   for (int iter{ 0 }; iter < maxIteration; iter++) {
     const auto Va = su->V();
@@ -43,6 +44,8 @@ inline Status setVoltage_iterative(Tsu *su, double Vset)
     su->setCurrent(Ia);
   }
 
+  su->setCurrent(Iold); //!< restore the original current
+
   return Status::RedistributeCurrent_failed; // #TODO change to setVoltage failed.
 }
 
-- 
2.43.0


From 6e4577d8923008ceab53d049e64c4da268346903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:38 +0000
Subject: [PATCH 17/81] fix: voltage of an SPM cell was stale after its
 temperature changed or it degraded

---
 src/cells/Cell_SPM/Cell_SPM.cpp        | 2 ++
 src/cells/Cell_SPM/Cell_SPM_dstate.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/cells/Cell_SPM/Cell_SPM.cpp b/src/cells/Cell_SPM/Cell_SPM.cpp
index ce31e03..76c0c17 100644
--- a/src/cells/Cell_SPM/Cell_SPM.cpp
+++ b/src/cells/Cell_SPM/Cell_SPM.cpp
@@ -554,6 +554,8 @@ void Cell_SPM::setT(double Ti)
 
   st.T() = Ti; //!< #TODO if we need to check if we are in limits.  if T is in limits.
 
+  Vcell_valid = false; //!< the voltage depends on the temperature
+
   //!< the stress values stored in the class variables for stress are no longer valid because the state has changed
   sparam.s_dai_update = false;
   sparam.s_lares_update = false;
diff --git a/src/cells/Cell_SPM/Cell_SPM_dstate.cpp b/src/cells/Cell_SPM/Cell_SPM_dstate.cpp
index 6e50731..c7e9829 100644
--- a/src/cells/Cell_SPM/Cell_SPM_dstate.cpp
+++ b/src/cells/Cell_SPM/Cell_SPM_dstate.cpp
@@ -362,6 +362,8 @@ void Cell_SPM::timeStep_CC(double dt, int nstep)
     //!< degradation accumulation
     for (size_t i = 0; i < st.size(); i++)
       st[i] += d_st[i] * dt * nstep;
+
+    Vcell_valid = false; //!< the voltage depends on the states which have degraded
   }
 }
 
-- 
2.43.0


From 6d3b1b1b75e034feabbc202cd5c58a12ed036855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:38 +0000
Subject: [PATCH 18/81] fix: illegal states (not a number, negative lost
 lithium, no active material or diffusion) must be refused as invalid

---
 src/cells/Cell_ECM/Cell_ECM.hpp |  2 +-
 src/cells/Cell_SPM/Cell_SPM.cpp | 27 +++++++++++++++++----------
 src/utility/free_functions.hpp  |  4 ++--
 3 files changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/cells/Cell_ECM/Cell_ECM.hpp b/src/cells/Cell_ECM/Cell_ECM.hpp
index 0ee305b..8e1d562 100644
--- a/src/cells/Cell_ECM/Cell_ECM.hpp
+++ b/src/cells/Cell_ECM/Cell_ECM.hpp
@@ -318,7 +318,7 @@ inline bool Cell_ECM<N_RC>::validStates(bool print)
 
   bool range = free::check_SOC(SOC());
 
-  if (T() < Tmin() || T() > Tmax()) {
+  if (!(T() >= Tmin() && T() <= Tmax())) { //!< also refuses nan
     if (verb)
       std::cerr << "ERROR in Cell_ECM::validState, T is outside of the range, "
                 << Tmin() << " <= T <= " << Tmax()
diff --git a/src/cells/Cell_SPM/Cell_SPM.cpp b/src/cells/Cell_SPM/Cell_SPM.cpp
index 76c0c17..447897d 100644
--- a/src/cells/Cell_SPM/Cell_SPM.cpp
+++ b/src/cells/Cell_SPM/Cell_SPM.cpp
@@ -141,7 +141,7 @@ bool Cell_SPM::getCSurf(double &cps, double &cns, bool print)
 
   //!< check if the surface concentration is within the allowed range
   //!< 	0 < cp < Cmaxpos  &&  0 < cn < Cmaxneg
-  const auto flag = !(cps <= 0 || cns <= 0 || cps >= Cmaxpos || cns >= Cmaxneg);
+  const auto flag = (cps > 0 && cns > 0 && cps < Cmaxpos && cns < Cmaxneg); //!< false for nan
 
   return flag;
 }
@@ -402,7 +402,7 @@ bool Cell_SPM::validStates(bool print)
 
   bool range = free::check_SOC(SOC()); //!< check whether SoC in the allowed range
 
-  if (T() < Tmin() || T() > Tmax()) {
+  if (!(T() >= Tmin() && T() <= Tmax())) { //!< also refuses nan
     if (verb)
       std::cerr << "ERROR in Cell_SPM::validState, T is outside of the range, " << Tmin()
                 << " <= T <= " << Tmax() << ", value is " << T() << '\n';
@@ -424,22 +424,29 @@ bool Cell_SPM::validStates(bool print)
   //!< a negative value might lead to a further decrease in SEI thickness,
   //!< so it will keep getting more and more negative
 
-  if (st.delta() <= 0) {
+  if (!(st.delta() > 0)) {
     std::cerr << "Error in State::validState. The SEI thickness delta is " << st.delta()
               << ", which is too low. Only strictly positive values are allowed.\n";
     range = false;
   }
 
   //!< lost lithium  a value of 0 is allowed (it won't lead to errors in the code)
-  if (st.LLI() < 0) {
+  if (!(st.LLI() >= 0)) {
     std::cerr << "Error in State::validState. The lost lithium LLI is " << st.LLI()
               << ", which is too low. Only non-negative values are allowed.\n";
-    throw 15;
+    range = false;
+  }
+
+  //!< amount of active material and diffusion constants
+  if (!(st.thickp() > 0 && st.thickn() > 0 && st.ep() > 0 && st.en() > 0 && st.Dp() > 0 && st.Dn() > 0)) {
+    std::cerr << "Error in State::validState. The thickness, volume fraction and diffusion constant of both electrodes "
+              << "must be strictly positive.\n";
+    range = false;
   }
 
   const double app = 3 * st.ep() / geo.Rp;
 
-  if (std::abs(st.ap() - app) / st.ap() > tol) {
+  if (!(std::abs(st.ap() - app) / st.ap() <= tol)) {
     if (verb)
       std::cerr << "SOME ERROR #TODO!\n";
     range = false;
@@ -447,7 +454,7 @@ bool Cell_SPM::validStates(bool print)
 
   const double ann = 3 * st.en() / geo.Rn;
 
-  if (std::abs(st.an() - ann) / st.an() > tol) {
+  if (!(std::abs(st.an() - ann) / st.an() <= tol)) {
     if (verb)
       std::cerr << "SOME ERROR #TODO!\n";
     range = false;
@@ -458,14 +465,14 @@ bool Cell_SPM::validStates(bool print)
   //!< which might grow CS proportional to the existing CS (so a value of 0 gives 0 increase)
   //!< a negative value might lead to a further decrease in CS, so it will keep getting more
   //!< and more negative
-  if (st.CS() < 0) {
+  if (!(st.CS() >= 0)) {
     std::cerr << "Error in State::validState. The crack surface area is " << st.CS()
               << ", which is too low. It must be strictly positive.\n";
     range = false;
   }
 
   //!< specific resistance of the electrodes (one value for both electrodes combined)
-  if (st.rDCp() < 0 || st.rDCn() < 0 || st.rDCcc() < 0) {
+  if (!(st.rDCp() >= 0 && st.rDCn() >= 0 && st.rDCcc() >= 0)) {
     std::cerr << "Error in State::validState. The specific resistance is "
               << "too low, it must be strictly positive.\n";
     range = false;
@@ -476,7 +483,7 @@ bool Cell_SPM::validStates(bool print)
   //!< so it will keep getting more and more negative
 
   const bool delpl = st.delta_pl() < 0;
-  if (st.delta_pl() < 0) {
+  if (!(st.delta_pl() >= 0)) {
     std::cerr << "Error in State::validState. The thickness of the plated lithium is "
               << st.delta_pl() << ", which is too low. Only positive values are allowed.\n";
     range = false;
diff --git a/src/utility/free_functions.hpp b/src/utility/free_functions.hpp
index 3c90a25..e257044 100644
--- a/src/utility/free_functions.hpp
+++ b/src/utility/free_functions.hpp
@@ -106,7 +106,7 @@ auto get_I(const T &SU) { return SU->I(); }
 template <bool Print = settings::printBool::printCrit>
 auto inline check_SOC(double SOCnew, double SOC_min = 0, double SOC_max = 1)
 {
-  if (SOCnew < SOC_min || SOCnew > SOC_max) //!< check that the input argument is valid
+  if (!(SOCnew >= SOC_min && SOCnew <= SOC_max)) //!< check that the input argument is valid
   {
     if constexpr (Print)
       std::cerr << "ERROR in some Cell, illegal input value of SOC: "
@@ -161,7 +161,7 @@ auto inline check_voltage(double &v, auto &su) //!< Check voltage.
     return Status::V_not_calculated;
   }
 
-  if (v <= 0) {
+  if (!(v > 0)) { //!< also if it is nan
     if (printCrit)
       std::cout << "Error in Cell::setStates when getting the voltage, which is "
                 << v << " restoring the old states.\n";
-- 
2.43.0


From bf9948eed21f4bfa168346d6f0ce0a474af4d5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:58 +0000
Subject: [PATCH 19/81] fix: the ageing variation of an SPM cell was ignored
 (and would have scaled activation energies)

---
 src/cells/Cell_SPM/Cell_SPM.cpp       | 7 +++++++
 src/cells/Cell_SPM/param/CSparam.hpp  | 5 +++--
 src/cells/Cell_SPM/param/LAMparam.hpp | 5 +++--
 src/cells/Cell_SPM/param/PLparam.hpp  | 3 +--
 src/cells/Cell_SPM/param/SEIparam.hpp | 5 +++--
 5 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/cells/Cell_SPM/Cell_SPM.cpp b/src/cells/Cell_SPM/Cell_SPM.cpp
index 447897d..a945c14 100644
--- a/src/cells/Cell_SPM/Cell_SPM.cpp
+++ b/src/cells/Cell_SPM/Cell_SPM.cpp
@@ -640,6 +640,13 @@ void Cell_SPM::setC(double cp0, double cn0)
 Cell_SPM::Cell_SPM(std::string IDi, const DEG_ID &degid, double capf, double resf, double degfsei, double degflam) : Cell_SPM()
 {
   ID = IDi;
+
+  //!< store the variations
+  var_cap = capf;
+  var_R = resf;
+  var_degSEI = degfsei;
+  var_degLAM = degflam;
+
   //!< Set the resistance
 
   st.rDCcc() *= resf; //!< current collector
diff --git a/src/cells/Cell_SPM/param/CSparam.hpp b/src/cells/Cell_SPM/param/CSparam.hpp
index 3a7a35a..cbbe60b 100644
--- a/src/cells/Cell_SPM/param/CSparam.hpp
+++ b/src/cells/Cell_SPM/param/CSparam.hpp
@@ -31,8 +31,9 @@ struct CSparam
 
   auto &operator*=(double a)
   {
-    for (auto &item : *this)
-      item *= a;
+    //!< only the rates are scaled, not the activation energies and other constants
+    for (auto *item : { &CS1alpha, &CS2alpha, &CS3alpha, &CS4alpha, &CS5k })
+      *item *= a;
 
     return *this;
   }
diff --git a/src/cells/Cell_SPM/param/LAMparam.hpp b/src/cells/Cell_SPM/param/LAMparam.hpp
index 09f5cac..e6aaab2 100644
--- a/src/cells/Cell_SPM/param/LAMparam.hpp
+++ b/src/cells/Cell_SPM/param/LAMparam.hpp
@@ -34,8 +34,9 @@ struct LAMparam //!< #TODO if begin and end is ok for alignment.
 
   auto &operator*=(double a)
   {
-    for (auto &item : *this)
-      item *= a;
+    //!< only the rates are scaled, not the activation energies and other constants
+    for (auto *item : { &lam1p, &lam1n, &lam2ap, &lam2bp, &lam2an, &lam2bn, &lam3k, &lam4p, &lam4n })
+      *item *= a;
 
     return *this;
   }
diff --git a/src/cells/Cell_SPM/param/PLparam.hpp b/src/cells/Cell_SPM/param/PLparam.hpp
index 5428bce..9e27570 100644
--- a/src/cells/Cell_SPM/param/PLparam.hpp
+++ b/src/cells/Cell_SPM/param/PLparam.hpp
@@ -22,8 +22,7 @@ struct PLparam
 
   auto &operator*=(double a)
   {
-    for (auto &item : *this)
-      item *= a;
+    pl1k *= a; //!< only the rate is scaled, not the activation energy
 
     return *this;
   }
diff --git a/src/cells/Cell_SPM/param/SEIparam.hpp b/src/cells/Cell_SPM/param/SEIparam.hpp
index dc886b4..f9b2077 100644
--- a/src/cells/Cell_SPM/param/SEIparam.hpp
+++ b/src/cells/Cell_SPM/param/SEIparam.hpp
@@ -40,8 +40,9 @@ struct SEIparam
 
   auto &operator*=(double a)
   {
-    for (auto &item : *this)
-      item *= a;
+    //!< only the rates are scaled, not the activation energies and other constants
+    for (auto *item : { &sei1k, &sei2k, &sei2D, &sei3k, &sei3D, &sei4k, &sei4D })
+      *item *= a;
 
     return *this;
   }
-- 
2.43.0


From e2b4b88a9f06337fb62a82ae05c47f9fd6633b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:41 +0000
Subject: [PATCH 20/81] fix: tangential stress used the concentration of the
 mirrored node

---
 src/cells/Cell_SPM/Cell_SPM_degradation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cells/Cell_SPM/Cell_SPM_degradation.cpp b/src/cells/Cell_SPM/Cell_SPM_degradation.cpp
index 6ebd624..8e034ef 100644
--- a/src/cells/Cell_SPM/Cell_SPM_degradation.cpp
+++ b/src/cells/Cell_SPM/Cell_SPM_degradation.cpp
@@ -598,8 +598,8 @@ void Cell_SPM::getDaiStress(double *sigma_p, double *sigma_n, sigma_type &sigma_
       sigma_r_p[i_rev] = 2 * sparam.omegap * sparam.Ep / (3 * (1 - sparam.nup)) * (ap - bp_x); //!< ap = int (c x^2, x=0..R), bp = int (c x^2 , x=0..r)
       sigma_r_n[i_rev] = 2 * sparam.omegan * sparam.En / (3 * (1 - sparam.nun)) * (an - bn_x);
 
-      sigma_t_p[i_rev] = sparam.omegap * sparam.Ep / (3 * (1 - sparam.nup)) * (2 * ap + bp_x - cp[i]);
-      sigma_t_n[i_rev] = sparam.omegan * sparam.En / (3 * (1 - sparam.nun)) * (2 * an + bn_x - cn[i]);
+      sigma_t_p[i_rev] = sparam.omegap * sparam.Ep / (3 * (1 - sparam.nup)) * (2 * ap + bp_x - cp[i_rev]);
+      sigma_t_n[i_rev] = sparam.omegan * sparam.En / (3 * (1 - sparam.nun)) * (2 * an + bn_x - cn[i_rev]);
     }
 
     //!< Make the hydrostatic stress sh = (sr + 2sp)/3
-- 
2.43.0


From 3d85a4fbf6d7d05df328286058f69ead8576a4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:19 +0000
Subject: [PATCH 21/81] fix: lowest cell voltage of a parallel module was
 capped at its upper limit

---
 src/modules/Module.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/modules/Module.cpp b/src/modules/Module.cpp
index 0280c53..e465e1b 100644
--- a/src/modules/Module.cpp
+++ b/src/modules/Module.cpp
@@ -167,7 +167,9 @@ double Module::getVhigh()
 double Module::getVlow()
 {
   //!< return the voltage of the cell with the lowest voltage note CELL not child SU
-  double Vlow = Vmax(); // #TODO
+  if (SUs.empty()) return Vmax();
+
+  double Vlow = SUs[0]->getVlow(); // do not start from a module limit, every cell might be above it.
   for (const auto &SU : SUs)
     Vlow = std::min(Vlow, SU->getVlow()); //!< will be called recursively to the cell levels
 
-- 
2.43.0


From f5c65240763d4685ab57861739a1ea8383b6625c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:16 +0000
Subject: [PATCH 22/81] fix: states of a cell whose area decreases by the
 fourth material-loss model are valid

---
 src/cells/Cell_SPM/Cell_SPM.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/cells/Cell_SPM/Cell_SPM.cpp b/src/cells/Cell_SPM/Cell_SPM.cpp
index a945c14..eed95e4 100644
--- a/src/cells/Cell_SPM/Cell_SPM.cpp
+++ b/src/cells/Cell_SPM/Cell_SPM.cpp
@@ -444,9 +444,18 @@ bool Cell_SPM::validStates(bool print)
     range = false;
   }
 
+  //!< effective surface area, a = 3e/R. The 4th LAM model decreases the area without the volume fraction so then it can be smaller
+  bool decreasing_area = false;
+  for (const auto lam_id : deg_id.LAM_id)
+    decreasing_area = decreasing_area || lam_id == 4;
+
+  const auto valid_area = [decreasing_area](double a, double a_expected) {
+    return a > 0 && ((decreasing_area && a < a_expected) || std::abs(a - a_expected) / a <= tol);
+  };
+
   const double app = 3 * st.ep() / geo.Rp;
 
-  if (!(std::abs(st.ap() - app) / st.ap() <= tol)) {
+  if (!valid_area(st.ap(), app)) {
     if (verb)
       std::cerr << "SOME ERROR #TODO!\n";
     range = false;
@@ -454,7 +463,7 @@ bool Cell_SPM::validStates(bool print)
 
   const double ann = 3 * st.en() / geo.Rn;
 
-  if (!(std::abs(st.an() - ann) / st.an() <= tol)) {
+  if (!valid_area(st.an(), ann)) {
     if (verb)
       std::cerr << "SOME ERROR #TODO!\n";
     range = false;
-- 
2.43.0


From f98680c223d88b0d3813171a285df7156d8ee75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:16 +0000
Subject: [PATCH 23/81] fix: entropic coefficient of the anode must be taken at
 the lithium fraction of the anode

---
 src/cells/Cell_SPM/Cell_SPM_dstate.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cells/Cell_SPM/Cell_SPM_dstate.cpp b/src/cells/Cell_SPM/Cell_SPM_dstate.cpp
index c7e9829..a5f5651 100644
--- a/src/cells/Cell_SPM/Cell_SPM_dstate.cpp
+++ b/src/cells/Cell_SPM/Cell_SPM_dstate.cpp
@@ -186,7 +186,7 @@ void Cell_SPM::dState_degradation(bool print, State_SPM &d_state)
 
   const bool bound = true;
   //!< calculate the anode potential (needed for various degradation models)
-  const double dOCVn = OCV_curves.dOCV_neg.interp(zp_surf, print, bound); //!< entropic coefficient of the anode potential [V K-1]
+  const double dOCVn = OCV_curves.dOCV_neg.interp(zn_surf, print, bound); //!< entropic coefficient of the anode potential [V K-1]
   const double OCV_n = OCV_curves.OCV_neg.interp(zn_surf, print, bound);  //!< anode potential [V]
   const double OCVnt = OCV_n + (st.T() - T_ref) * dOCVn;                  //!< anode potential at the cell's temperature [V]
 
-- 
2.43.0


From 9490049abfb8b739bde418d52b13707b288042ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:28 +0000
Subject: [PATCH 24/81] fix: data points were not stored at the requested
 interval

---
 src/procedures/Cycler.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/procedures/Cycler.cpp b/src/procedures/Cycler.cpp
index 7aab5d5..6a63a93 100644
--- a/src/procedures/Cycler.cpp
+++ b/src/procedures/Cycler.cpp
@@ -118,6 +118,9 @@ Status Cycler::rest(double tlim, double dt, int ndt_data, ThroughputData &th)
     if (nOnce * dti > (tlim - ttot)) //!< we are close to the total time -> set nOnce to 1
       nOnce = 1;
 
+    if (boolStoreData) //!< don't step over the time at which the next data point is due
+      nOnce = std::min(nOnce, ndt_data - idat);
+
     if (dti > tlim - ttot) //!< the last time step, ensure we end up exactly at the right time
       dti = tlim - ttot;
 
@@ -270,6 +273,9 @@ Status Cycler::CC(double I, double vlim, double tlim, double dt, int ndt_data, T
     if (nOnce * dti > tlim - ttot) //!< we are close to the total time -> set nOnce to 1
       nOnce = 1;
 
+    if (boolStoreData) //!< don't step over the time at which the next data point is due
+      nOnce = std::min(nOnce, ndt_data - idat);
+
     if (dti > tlim - ttot) //!< the last time step, ensure we end up exactly at the right time
       dti = tlim - ttot;
 
-- 
2.43.0


From 9d222b432eaf08343628a0ed9b21d0627ebe0ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:28 +0000
Subject: [PATCH 25/81] fix: time spent in a constant voltage phase was not
 counted

---
 src/procedures/Cycler.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/procedures/Cycler.cpp b/src/procedures/Cycler.cpp
index 6a63a93..7075fe9 100644
--- a/src/procedures/Cycler.cpp
+++ b/src/procedures/Cycler.cpp
@@ -467,6 +467,7 @@ Status Cycler::CV(double Vset, double Ilim, double tlim, double dt, int ndt_data
     const auto dAh = std::abs(su->I() * dti / 3600.0);
     vi = su->V();
     ttot += dti;
+    th.time() += dti;
     th.Ah() += dAh;
     th.Wh() += dAh * vi;
 
-- 
2.43.0


From 2a396e02a8dce3a5393c0c2099b26a793877c899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:28 +0000
Subject: [PATCH 26/81] fix: constant voltage phase threw an error when its
 steps did not exactly add up to the time limit

---
 src/procedures/Cycler.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/procedures/Cycler.cpp b/src/procedures/Cycler.cpp
index 7075fe9..05fd441 100644
--- a/src/procedures/Cycler.cpp
+++ b/src/procedures/Cycler.cpp
@@ -445,6 +445,7 @@ Status Cycler::CV(double Vset, double Ilim, double tlim, double dt, int ndt_data
   bool Vtolerance = false; //!< boolean indicating if the voltage tolerance was reached
   double dI, a;            //!< change in current we will apply to keep the voltage constant
   bool reach;
+  bool ttotReached = (nt == 0); //!< boolean indicating if tlim has been reached
 
   for (size_t i = 0; i < nt; i++) {
     su->setVoltage(Vset);
@@ -497,12 +498,14 @@ Status Cycler::CV(double Vset, double Ilim, double tlim, double dt, int ndt_data
       Vtolerance = false; //!< but without reaching the voltage tolerance
       break;
     }
+
+    ttotReached = (i + 1 == nt); //!< don't compare times, their sum is affected by rounding
   } //!< end time integration
 
   //!< *********************************************************** TERMINATE ******************************************************************************
   //!< check why we stopped the time integration
   Status succ;
-  if (ttot >= tlim)
+  if (ttotReached)
     succ = Status::ReachedTimeLimit; //!< time limit
   else if (Itot)                     //!< #TODO why a bool named Itot? It looks like double.
   {
-- 
2.43.0


From f4d9e32587ff24f151a348ab3f2af340b8796d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:19 +0000
Subject: [PATCH 27/81] fix: setting a current: the discharge limit was applied
 to charging, and failures to set it were ignored

---
 src/procedures/Cycler.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/procedures/Cycler.cpp b/src/procedures/Cycler.cpp
index 05fd441..c907d02 100644
--- a/src/procedures/Cycler.cpp
+++ b/src/procedures/Cycler.cpp
@@ -203,11 +203,15 @@ Status Cycler::setCurrent(double I, double vlim)
     return status;
   }
 
+  if (isStatusBad(status)) //!< the current could not be set for another reason, the initial current still applies
+    return status;
+
   const double Vnew = su->V();
   //!< check if the voltage limit was exceeded while setting the current
-  if (I < 0 && Vini <= vlim && Vnew > vlim) //!< charging -> exceeded if Vini < vlim  & Vnew > vlim
-    return Status::ReachedVoltageLimit;
-  else {
+  if (I < 0) {
+    if (Vini <= vlim && Vnew > vlim) //!< charging -> exceeded if Vini < vlim  & Vnew > vlim
+      return Status::ReachedVoltageLimit;
+  } else {
     if (Vini >= vlim && Vnew < vlim) return Status::ReachedVoltageLimit; //!< #TODO why Vini check?
   }
 
-- 
2.43.0


From 4577784285b38b2a16ffd0d7cad8187d76f24a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:19 +0000
Subject: [PATCH 28/81] fix: constant voltage phase continued when the voltage
 could not be set

---
 src/procedures/Cycler.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/procedures/Cycler.cpp b/src/procedures/Cycler.cpp
index c907d02..a5c2541 100644
--- a/src/procedures/Cycler.cpp
+++ b/src/procedures/Cycler.cpp
@@ -452,7 +452,8 @@ Status Cycler::CV(double Vset, double Ilim, double tlim, double dt, int ndt_data
   bool ttotReached = (nt == 0); //!< boolean indicating if tlim has been reached
 
   for (size_t i = 0; i < nt; i++) {
-    su->setVoltage(Vset);
+    const auto statusV = su->setVoltage(Vset);
+    if (isStatusBad(statusV)) return statusV; //!< stop if the voltage cannot be applied
 
     //!< change length of the time step in the last iteration to get exactly tlim seconds
     if (i + 1 == nt)
-- 
2.43.0


From c3077d45e6418db583062d7778b42301a25e5353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:20 +0000
Subject: [PATCH 29/81] fix: last step of a constant current phase stopped by a
 cell voltage was not counted

---
 src/procedures/Cycler.cpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/procedures/Cycler.cpp b/src/procedures/Cycler.cpp
index a5c2541..abdc5b7 100644
--- a/src/procedures/Cycler.cpp
+++ b/src/procedures/Cycler.cpp
@@ -294,6 +294,14 @@ Status Cycler::CC(double I, double vlim, double tlim, double dt, int ndt_data, T
       return Status::timeStep_CC_failed;
     }
 
+    //!< Increase the throughput
+    const auto dt_now = dti * nOnce;
+    th.time() += dt_now;
+    ttot += dt_now;
+    th.Ah() += std::abs(I) * dt_now / 3600.0;
+    idat += nOnce;
+    th.Wh() += std::abs(I) * dt_now / 3600 * su->V();
+
     //!< get the voltage
     if (diagnostic) {
       const auto status = su->checkVoltage(vi, true);
@@ -314,15 +322,6 @@ Status Cycler::CC(double I, double vlim, double tlim, double dt, int ndt_data, T
       }
     }
 
-    auto myVnow = su->V();
-    //!< Increase the throughput
-    const auto dt_now = dti * nOnce;
-    th.time() += dt_now;
-    ttot += dt_now;
-    th.Ah() += std::abs(I) * dt_now / 3600.0;
-    idat += nOnce;
-    th.Wh() += std::abs(I) * dt_now / 3600 * vi;
-
     //!< Store a data point if needed
     if (boolStoreData && idat >= ndt_data) {
       storeData();
-- 
2.43.0


From 1133c2fb5a7e14a30b7dcb5b2bbe4e0f34266315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:20 +0000
Subject: [PATCH 30/81] fix: capacity test must restore the states of the unit

---
 src/procedures/Cycler.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/procedures/Cycler.cpp b/src/procedures/Cycler.cpp
index abdc5b7..59adec7 100644
--- a/src/procedures/Cycler.cpp
+++ b/src/procedures/Cycler.cpp
@@ -653,6 +653,8 @@ double Cycler::testCapacity(double &Ah, double &ttot)
     return 0;
   }
 
+  su->setStates(sini_span, false, true); //!< restore the original states
+
   Ah = th1.Ah() + th2.Ah();
   return th2.Ah();
 }
-- 
2.43.0


From d4cb0ef8742cf55d4660e03314df906d9be50056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:20 +0000
Subject: [PATCH 31/81] fix: constant current phase must stop at the safety
 limits of the cycler

---
 src/procedures/Cycler.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/procedures/Cycler.cpp b/src/procedures/Cycler.cpp
index 59adec7..21c2fd0 100644
--- a/src/procedures/Cycler.cpp
+++ b/src/procedures/Cycler.cpp
@@ -328,6 +328,10 @@ Status Cycler::CC(double I, double vlim, double tlim, double dt, int ndt_data, T
       idat = 0;
     }
 
+    const auto safetyStatus = free::check_safety(vi, *this);
+    if (safetyStatus != Status::SafeVoltage)
+      return safetyStatus;
+
     //!< check the voltage limit
     if (((I < 0) && (vi > vlim)) || ((I > 0) && (vi < vlim))) { //!< charging -> exceeded if Vnew > vlim
       vtot = true;                                              //!< indicate the voltage limit was reached
-- 
2.43.0


From 56d789d3845ea2496ad12575fc68c580b224ad41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:20 +0000
Subject: [PATCH 32/81] fix: rows of a data file written by consecutive flushes
 were glued together

---
 src/utility/free_functions.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/utility/free_functions.hpp b/src/utility/free_functions.hpp
index e257044..8d48e1e 100644
--- a/src/utility/free_functions.hpp
+++ b/src/utility/free_functions.hpp
@@ -61,6 +61,9 @@ inline void write_data(std::ofstream &file, std::vector<double> &data, size_t N
     file << data[i];
   }
 
+  if (!data.empty())
+    file << '\n'; //!< what is written next starts on a new line
+
   data.clear(); //!< reset the index to 0 since we can overwrite the stored data
 }
 
-- 
2.43.0


From 059e339eff74c461eb99d02110a0de5ec7e80430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:59 +0000
Subject: [PATCH 33/81] fix: parallel module checked the voltage of its members
 when told not to, so it could not keep its current or rest

---
 src/modules/Module_p.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/modules/Module_p.cpp b/src/modules/Module_p.cpp
index 8ca336e..42ed88c 100644
--- a/src/modules/Module_p.cpp
+++ b/src/modules/Module_p.cpp
@@ -141,7 +141,7 @@ Status Module_p::redistributeCurrent(bool checkV, bool print)
     // Update the currents based on the difference between mean and individual voltages
     for (size_t i = 0; i < nSU; i++) {
       Ia[i] = Ia[i] - (Vmean - Va[i]) * SUs[i]->Cap();
-      SUs[i]->setCurrent(Ia[i]);
+      SUs[i]->setCurrent(Ia[i], checkV, print);
     }
 
     getVall(Va, print);
@@ -231,12 +231,12 @@ Status Module_p::setCurrent(double Inew, bool checkV, bool print)
 
   const auto restoreCurrents = [&]() {
     for (size_t i{}; i < SUs.size(); i++)
-      SUs[i]->setCurrent(Iolds[i]);
+      SUs[i]->setCurrent(Iolds[i], false, false);
   };
 
   for (size_t i{}; i < SUs.size(); i++) {
     Ia[i] += dI;
-    StatusNow = SUs[i]->setCurrent(Ia[i]); // #TODO worse status should be here.
+    StatusNow = SUs[i]->setCurrent(Ia[i], checkV, print); // #TODO worse status should be here.
     if (!isStatusOK(StatusNow)) {
       restoreCurrents();
       return StatusNow;
@@ -267,7 +267,7 @@ Status Module_p::setCurrent(double Inew, bool checkV, bool print)
     StatusNow = Status::Success;
     for (size_t i = 0; i < nSU; i++) {
       Ia[i] = Ia[i] - (Vmean - Va[i]) * SUs[i]->Cap();
-      const auto status = SUs[i]->setCurrent(Ia[i]);
+      const auto status = SUs[i]->setCurrent(Ia[i], checkV, print);
       if (isStatusBad(status)) StatusNow = status; // This SU still has its previous current.
     }
     getVall(Va, print);
-- 
2.43.0


From 9b833a30128a55dcee12629950fb28b0e62bd414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:00 +0000
Subject: [PATCH 34/81] fix: voltage of a parallel module could only be set for
 a narrow range of resistances of its members

---
 src/modules/Module_p.cpp | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/src/modules/Module_p.cpp b/src/modules/Module_p.cpp
index 42ed88c..e82fb60 100644
--- a/src/modules/Module_p.cpp
+++ b/src/modules/Module_p.cpp
@@ -160,11 +160,14 @@ Status Module_p::setVoltage(double Vnew, bool checkI, bool print)
 
   auto StatusNow = Status::RedistributeCurrent_failed;
 
-  std::array<double, settings::MODULE_NSUs_MAX> Iolds, Ia, Va;
+  std::array<double, settings::MODULE_NSUs_MAX> Iolds, Ia, Va, Vi, Ri, a, g;
 
   //!< get the old currents so we can revert if needed
-  for (size_t i{}; i < SUs.size(); i++)
+  for (size_t i{}; i < SUs.size(); i++) {
     Ia[i] = Iolds[i] = SUs[i]->I();
+    Vi[i] = SUs[i]->V();
+    Ri[i] = std::max(SUs[i]->getRtot(), 1e-6); //!< local resistance of the SU, -dV/dI, updated in every iteration
+  }
 
   int iter{ 0 };
   for (; iter < maxIteration; iter++) {
@@ -174,14 +177,33 @@ Status Module_p::setVoltage(double Vnew, bool checkI, bool print)
     for (size_t i = 0; i < nSU; i++)
       error += std::abs(Vnew - Va[i]);
 
-    if (error < 1e-10) {
+    if (error < 1e-8) {
       StatusNow = Status::Success;
       break;
     }
 
+    //!< Linearise the SUs as Vi - Ri * dI. From the far end to the terminals, the current from SU i onwards is then a[i] - g[i] * (voltage before contact i)
+    for (size_t k{ 0 }; k < nSU; k++) {
+      const auto i = nSU - 1 - k;
+      const double gi = 1 / Ri[i] + (k == 0 ? 0 : g[i + 1]);
+      const double ai = Ia[i] + Vi[i] / Ri[i] + (k == 0 ? 0 : a[i + 1]);
+      a[i] = ai / (1 + Rcontact[i] * gi);
+      g[i] = gi / (1 + Rcontact[i] * gi);
+    }
+
+    double V_contact{ Vnew }; //!< voltage in between the contacts, walking from the terminals to the far end
     for (size_t i = 0; i < nSU; i++) {
-      Ia[i] += -0.2 * (Vnew - Va[i]) / 0.001;
-      SUs[i]->setCurrent(Ia[i]);
+      V_contact += Rcontact[i] * (a[i] - g[i] * V_contact);
+
+      const double Iold = Ia[i], Vold = Vi[i];
+      const auto status = SUs[i]->setCurrent(Iold - (V_contact - Vold) / Ri[i]);
+      Ia[i] = SUs[i]->I(); //!< unchanged if the current was refused
+      Vi[i] = SUs[i]->V();
+
+      if (isStatusBad(status))
+        Ri[i] *= 2; //!< try again with a smaller step
+      else if (std::abs(Vi[i] - Vold) > 1e-9)
+        Ri[i] = std::clamp(-(Vi[i] - Vold) / (Ia[i] - Iold), Ri[i] / 5, Ri[i] * 5);
     }
   }
 
@@ -190,7 +212,7 @@ Status Module_p::setVoltage(double Vnew, bool checkI, bool print)
 
   if (StatusNow != Status::Success) // Restore the old currents if the voltage could not be reached.
     for (size_t i{}; i < SUs.size(); i++)
-      SUs[i]->setCurrent(Iolds[i]);
+      SUs[i]->setCurrent(Iolds[i], false, false);
 
   return StatusNow; // #TODO add some voltage/current etc. check
 }
-- 
2.43.0


From b875d0b5c4920523be5ae9bcf9be9d02c18c1a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:07 +0000
Subject: [PATCH 35/81] fix: setting the voltage of an ECM cell outside its
 range of SOC threw instead of being refused

---
 src/cells/Cell_ECM/Cell_ECM.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cells/Cell_ECM/Cell_ECM.hpp b/src/cells/Cell_ECM/Cell_ECM.hpp
index 8e1d562..c49c24e 100644
--- a/src/cells/Cell_ECM/Cell_ECM.hpp
+++ b/src/cells/Cell_ECM/Cell_ECM.hpp
@@ -205,8 +205,12 @@ inline Status Cell_ECM<N_RC>::setVoltage(double Vnew, bool checkI, bool print)
   const double Iold = st.I();
   // #TODO check if V is sensible here.
 
-  const double ocv = getOCV();
-  double v_now = ocv - Vnew;
+  double v_now{};
+  try {
+    v_now = getOCV() - Vnew;
+  } catch (int) { //!< there is no OCV outside the range of SOC
+    return Status::V_not_calculated;
+  }
 
   for (size_t i{}; i < N_RC; i++)
     v_now -= Rp[i] * st.Ir(i);
-- 
2.43.0


From 720f2921e1ba6f8900d15e695ff11be3859d20c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:02 +0000
Subject: [PATCH 36/81] fix: search for the current of a given voltage could
 diverge to infinite currents

---
 src/utility/free_functions.hpp | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/utility/free_functions.hpp b/src/utility/free_functions.hpp
index 8d48e1e..3f1e180 100644
--- a/src/utility/free_functions.hpp
+++ b/src/utility/free_functions.hpp
@@ -12,9 +12,12 @@
 #include "../settings/settings.hpp"
 #include "../types/Status.hpp"
 
+#include <algorithm>
+#include <cmath>
 #include <fstream>
 #include <string>
 #include <numeric>
+#include <span>
 #include <vector>
 #include <fstream>
 #include <iostream>
@@ -27,24 +30,29 @@ inline Status setVoltage_iterative(Tsu *su, double Vset)
   // New redistributeCurrent without PI control:
   //!< get cell voltages
   constexpr int maxIteration = 50;
-  const double Iold{ su->I() };
-  double Ia{ Iold };
+  std::vector<double> statesOld;
+  su->getStates(statesOld);
+  double Ib{}, Vb{};                          //!< current and voltage in the previous iteration
+  double R{ std::max(su->getRtot(), 1e-6) }; //!< local resistance of the SU, -dV/dI, updated in every iteration
 
   for (int iter{ 0 }; iter < maxIteration; iter++) {
+    const auto Ia = su->I();
     const auto Va = su->V();
     if (std::abs(Vset - Va) < 1e-6)
       return Status::Success;
 
-    const auto Ib = (Vset > Va) ? Ia - 0.01 * su->Cap() : Ia + 0.01 * su->Cap();
-    su->setCurrent(Ib);
-    const auto Vb = su->V();
+    if (iter > 0 && Ia != Ib && std::abs(Va - Vb) > 1e-9)
+      R = std::clamp(-(Va - Vb) / (Ia - Ib), R / 5, R * 5); //!< False-Position method.
 
-    const double slope = (Ia - Ib) / (Va - Vb);
-    Ia = Ib - (Vb - Vset) * slope; //!< False-Position method.
-    su->setCurrent(Ia);
+    Ib = Ia;
+    Vb = Va;
+
+    if (isStatusBad(su->setCurrent(Ia - (Vset - Va) / R)))
+      R *= 2; //!< the current was refused, try a smaller step
   }
 
-  su->setCurrent(Iold); //!< restore the original current
+  std::span<double> spn{ statesOld };
+  su->setStates(spn, false, false); //!< restore the original currents
 
   return Status::RedistributeCurrent_failed; // #TODO change to setVoltage failed.
 }
-- 
2.43.0


From 0a51be50fc2f50f2f6bc4a8a9845a412598688f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:44 +0000
Subject: [PATCH 37/81] hook: let the runtime checks select storage and thermal
 settings (SLIDE_VERIF)

---
 src/settings/settings.hpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/settings/settings.hpp b/src/settings/settings.hpp
index edb4e0b..f05a912 100644
--- a/src/settings/settings.hpp
+++ b/src/settings/settings.hpp
@@ -48,18 +48,30 @@ constexpr bool overwrite_data = true; //!< if this is false then folder overwrit
 //!< Data storage  //!< from slidepack
 constexpr int DATASTORE_NHIST = 100; //!< length of the arrays with the histograms (if 1)
 
+#if defined(SLIDE_VERIF) && defined(SLIDE_VERIF_DATASTORE_CELL) //!< runtime checks select their own value
+constexpr auto DATASTORE_CELL = cellDataStorageLevel::SLIDE_VERIF_DATASTORE_CELL;
+#else
 constexpr auto DATASTORE_CELL = cellDataStorageLevel::storeTimeData; //!< if 0, no cell-level data is stored
+#endif
                                                                      //!< if 1, statistics about I, V and T are stored, as well as overall utilisation (throughput)
                                                                      //!< if 2, current, voltage, temperature, soc is stored at every time step, as well as overall utilisation (throughput)
 
 
+#if defined(SLIDE_VERIF) && defined(SLIDE_VERIF_DATASTORE_MODULE) //!< runtime checks select their own value
+constexpr auto DATASTORE_MODULE = moduleDataStorageLevel::SLIDE_VERIF_DATASTORE_MODULE;
+#else
 constexpr auto DATASTORE_MODULE = moduleDataStorageLevel::noStorage; //!< See moduleDataStorageLevel for different options.
+#endif
 
 //!< constexpr int DATASTORE_MODULE = 0; //!< if 0, no module-level data is stored
 //!< if 2, current, voltage, temperature, soc is stored at every time step, as well as overall utilisation (throughput)
 //!< constexpr int DATASTORE_BATT = 0; //!< if 0, no module-level data is stored
 //!< if 2, current, voltage, temperature, soc is stored at every time step, as well as overall utilisation (throughput)
+#if defined(SLIDE_VERIF) && defined(SLIDE_VERIF_DATASTORE_COOL) //!< runtime checks select their own value
+constexpr int DATASTORE_COOL = SLIDE_VERIF_DATASTORE_COOL;
+#else
 constexpr int DATASTORE_COOL = 0; //!< if 0, no data is stored
+#endif
                                   //!< if 1, statistics about the cooling system is stored
                                   //!< if 2, operating power etc is stored every time step
 
@@ -75,7 +87,11 @@ constexpr size_t CYCLER_NDATA_MAX{ 10000 }; //!< length of the arrays which hold
                                             //!< 1 CC cycle ~ 2 hours. So if you store data every 20s, 1 cycle gives 360 data points -> 10k is about 30 cycles
 
 constexpr size_t CELL_NDATA_HIST_MAX = 10'000'000; //!< If histogram then write data every 10 millionth data.
+#if defined(SLIDE_VERIF) && defined(SLIDE_VERIF_CELL_NDATA) //!< runtime checks select their own value
+constexpr size_t CELL_NDATA_INST_MAX = SLIDE_VERIF_CELL_NDATA;
+#else
 constexpr size_t CELL_NDATA_INST_MAX = 100'000;    //!< If it is storing every data then we should have much less storage.
+#endif
 
 constexpr size_t MODULE_NDATA_MAX{ CYCLER_NDATA_MAX }; //!< if we store cell-level data, make the array as long as the one in Cycler
 
@@ -89,7 +105,11 @@ constexpr size_t CELL_NSTATE_MAX{ 30 }; //!< maximum number of states of all typ
                          //!< if 2, current, voltage, temperature, soc is stored at every time step, as well as overall utilisation (throughput)
 
 //!< temperature
+#if defined(SLIDE_VERIF) && defined(SLIDE_VERIF_T_MODEL) //!< runtime checks select their own value
+constexpr int T_MODEL{ SLIDE_VERIF_T_MODEL };
+#else
 constexpr int T_MODEL{ 0 }; //!< which thermal model to use
+#endif
                             //!< 	0 no thermal model
                             //!< 	1 individual cell bulk thermal model
                             //!< 	2 coupled cell thermal model with cooling from modules
-- 
2.43.0


From bc6232f239462a6956379c1feeaf84b598e78916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:35 +0000
Subject: [PATCH 38/81] fix: write histogram data instead of failing to
 compile, count far outliers on the right side, write all bin edges

---
 src/types/Histogram.hpp                   | 17 ++++++++++-------
 src/types/data_storage/CellDataWriter.hpp |  4 +++-
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/types/Histogram.hpp b/src/types/Histogram.hpp
index 3db1312..94a65db 100644
--- a/src/types/Histogram.hpp
+++ b/src/types/Histogram.hpp
@@ -31,7 +31,7 @@ class Histogram
 {
   std::vector<size_t> bins;
   Tdata x_min{}, x_max{}, dx{ 1 };
-  int Nbins;
+  int Nbins{};
 
 public:
   Histogram() = default;
@@ -49,11 +49,14 @@ public:
      * bins[0] is number of elements less than x_min
      * bins[end] is number of elements more than x_max
      * */
-    auto i = static_cast<int>(1 + (x - x_min) / dx);
-
-    const auto ssize = static_cast<int>(bins.size());
-    i = std::max(0, std::min(i, ssize - 1)); // #TODO what happens if container is empty?
-    bins[i]++;
+    if (bins.empty()) return; //!< default constructed, there is nowhere to put x
+
+    if (x < x_min)
+      bins.front()++;
+    else if (x < x_max)
+      bins[std::min(Nbins, static_cast<int>(1 + (x - x_min) / dx))]++;
+    else
+      bins.back()++;
   }
 
   std::span<const size_t> viewBinValues() const noexcept { return bins; }
@@ -61,7 +64,7 @@ public:
   [[nodiscard]] constexpr auto begin() noexcept { return bins.begin(); }
   [[nodiscard]] constexpr auto end() noexcept { return bins.end(); }
 
-  auto getEdgeValues() const noexcept { return range_fix(x_min, x_max, dx); }
+  auto getEdgeValues() const noexcept { return FixedData<Tdata>(x_min, dx, bins.empty() ? 0 : Nbins + 1); }
 
   auto size() const noexcept { return bins.size(); }
 
diff --git a/src/types/data_storage/CellDataWriter.hpp b/src/types/data_storage/CellDataWriter.hpp
index 546cd25..8f5374f 100644
--- a/src/types/data_storage/CellDataWriter.hpp
+++ b/src/types/data_storage/CellDataWriter.hpp
@@ -43,7 +43,9 @@ void writeDataImpl(std::ofstream &file, auto &cell, auto &dataStorage)
   if constexpr (settings::data::writeCumulativeData)
     writeVarAndStates(file, cell);
 
-  if constexpr (N >= settings::cellDataStorageLevel::storeHistogramData)
+  if constexpr (N == settings::cellDataStorageLevel::storeHistogramData)
+    slide::writeData(file, dataStorage.data);
+  else if constexpr (N > settings::cellDataStorageLevel::storeHistogramData)
     free::write_data(file, dataStorage.data, 7);
   //!< else write nothing.
 }
-- 
2.43.0


From 53945c7d723dad9e5ae77919dd306ec3ea2a59b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:52 +0000
Subject: [PATCH 39/81] fix: rate the converter for the entire battery when the
 number of series or parallel copies is set after the module

---
 src/system/Battery.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/system/Battery.cpp b/src/system/Battery.cpp
index c5f7686..98c08f9 100644
--- a/src/system/Battery.cpp
+++ b/src/system/Battery.cpp
@@ -23,6 +23,7 @@ void Battery::setSeriesandParallel(unsigned int ser, unsigned int par)
 {
   nseries = ser;
   nparallel = par;
+  if (cells) conv.setPower(Cap() * Vmax()); //!< the converter is rated for the entire battery, see setModule
 }
 
 void Battery::setModule(Deep_ptr<Module> &&module)
-- 
2.43.0


From 80170447a096b0f8e4e473c28ed6e3b721e6ab09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:11 +0000
Subject: [PATCH 40/81] fix: interpolation in nearly equidistant tables used
 the wrong segment or read past the end

---
 src/utility/interpolation.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/utility/interpolation.hpp b/src/utility/interpolation.hpp
index 955c146..b66291e 100644
--- a/src/utility/interpolation.hpp
+++ b/src/utility/interpolation.hpp
@@ -68,7 +68,13 @@ auto linInt_noexcept(bool bound, Tx &xdat, Ty &ydat, int nin, double x, bool is_
 
     if (is_fixed) {
       double dt = xdat[1] - xdat[0];
-      i_low = static_cast<int>((x - xdat[0]) / dt) + 1;
+      i_low = std::min(static_cast<int>((x - xdat[0]) / dt) + 1, nin - 1);
+
+      //!< steps are only equal within a tolerance, so the first guess can be some points off.
+      while (i_low > 1 && x < xdat[i_low - 1])
+        i_low--;
+      while (i_low < nin - 1 && x > xdat[i_low])
+        i_low++;
     } else {
       //!< binary search algorithm:
       //!< i_low will be the first index which compares greater than x;
-- 
2.43.0


From d2e9f273c574636aa47ed40d973ee83b45175e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:11 +0000
Subject: [PATCH 41/81] fix: interpolating at nan read before the start of the
 table

---
 src/utility/interpolation.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/utility/interpolation.hpp b/src/utility/interpolation.hpp
index b66291e..ea19995 100644
--- a/src/utility/interpolation.hpp
+++ b/src/utility/interpolation.hpp
@@ -48,7 +48,7 @@ auto linInt_noexcept(bool bound, Tx &xdat, Ty &ydat, int nin, double x, bool is_
   //!< check that x is within the limits of the data points
 
   if (bound) {
-    if (x < xdat[0]) {
+    if (!(x >= xdat[0])) { //!< also if x is nan
       status = -1;
       return std::make_pair(yy, status);
     } else if (x > xdat[nin - 1]) {
@@ -57,7 +57,9 @@ auto linInt_noexcept(bool bound, Tx &xdat, Ty &ydat, int nin, double x, bool is_
     }
   }
 
-  if (x <= xdat[0])
+  if (std::isnan(x))
+    yy = x; //!< there is no closest value
+  else if (x <= xdat[0])
     yy = ydat[0]; //!< if x is below the minimum value, return the y value of the first data point
   else if (x >= xdat[nin - 1])
     yy = ydat[nin - 1]; //!< if x is above the maximum value, return the y value of the last data point
-- 
2.43.0


From fb95088cee206657c1eadf86d9dc2ee611bfc4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:11 +0000
Subject: [PATCH 42/81] fix: checking the steps of a table with less than two
 points read past its end

---
 src/types/XYdata.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/types/XYdata.hpp b/src/types/XYdata.hpp
index 0f535ef..53d381e 100644
--- a/src/types/XYdata.hpp
+++ b/src/types/XYdata.hpp
@@ -25,6 +25,8 @@ namespace slide {
 template <typename Tx>
 bool check_is_fixed(Tx &xdat) //!< Checks if steps are fixed length. #TODO should not be here.
 {
+  if (xdat.size() < 2) return false; //!< there are no steps
+
   const double dt = xdat[1] - xdat[0];
   const double tol = 0.01 * dt; //!< Tolerance.
 
-- 
2.43.0


From 214c88300547a199635c71df091b89c78517858a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:11 +0000
Subject: [PATCH 43/81] fix: adding to a full SmallVector wrote past its end

---
 src/types/SmallVector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/SmallVector.hpp b/src/types/SmallVector.hpp
index 1930d47..4f5b33e 100644
--- a/src/types/SmallVector.hpp
+++ b/src/types/SmallVector.hpp
@@ -28,7 +28,7 @@ public:
 
   inline void push_back(const T &&elem)
   {
-    if (N > Nmax) {
+    if (N >= Nmax) {
       std::cerr << "Array is very small! Please increase its size from settings!\n";
       throw 1234;
     }
-- 
2.43.0


From 61805debd82adefae96a48f11a926ac90612a712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:12 +0000
Subject: [PATCH 44/81] fix: rank-one update of a Cholesky factor scaled only
 half of the updated elements

---
 src/types/matrix.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/types/matrix.hpp b/src/types/matrix.hpp
index 69e8121..d623131 100644
--- a/src/types/matrix.hpp
+++ b/src/types/matrix.hpp
@@ -68,9 +68,9 @@ void cholUpdate(slide::Matrix<double, N, N> &L, std::array<double, N> x, bool is
 
     for (int j = k + 1; (k != (N - 1) && (j < N)); j++) {
       if (isDowndate)
-        L[j][k] -= s * x[j] / c;
+        L[j][k] = (L[j][k] - s * x[j]) / c;
       else
-        L[j][k] += s * x[j] / c;
+        L[j][k] = (L[j][k] + s * x[j]) / c;
       x[j] = c * x[j] - s * L[j][k];
     }
   }
-- 
2.43.0


From c693db39bba9fcc62c6ffc222a171ab04ccf27b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:12 +0000
Subject: [PATCH 45/81] fix: range_fix could miss the last point because of
 rounding

---
 src/utility/util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/util.hpp b/src/utility/util.hpp
index 4d54d41..2f01ce4 100644
--- a/src/utility/util.hpp
+++ b/src/utility/util.hpp
@@ -89,7 +89,7 @@ namespace slide {
 
 inline FixedData<double> range_fix(double x_min, double x_max, double x_step)
 {
-  int Nstep = static_cast<int>((x_max - x_min) / x_step) + 1;
+  int Nstep = static_cast<int>((x_max - x_min) / x_step * (1 + 1e-12)) + 1; //!< a whole number of steps must not be rounded down
   return FixedData<double>(x_min, x_step, Nstep);
 }
 
-- 
2.43.0


From 1cc91e7c77015ea6dd7eb60cb5928b63df945013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:42 +0000
Subject: [PATCH 46/81] fix: reading an empty file or one with only a byte
 order mark never ended, white space before a matrix swallowed its first digit

---
 src/utility/io/read_CSVfiles.hpp | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/utility/io/read_CSVfiles.hpp b/src/utility/io/read_CSVfiles.hpp
index b62717e..1d5776b 100644
--- a/src/utility/io/read_CSVfiles.hpp
+++ b/src/utility/io/read_CSVfiles.hpp
@@ -53,6 +53,16 @@ inline auto getFile(std::string name)
   static std::map<std::string, std::string> fileMap;
 }
 
+inline void ignoreBOM(std::ifstream &in)
+{
+  char c = '.';
+
+  while (in >> c && c < 45) //!< Ignore byte order mark (BOM) at the beginning
+    ;
+
+  if (in) in.putback(c);
+}
+
 template <typename Tpath, typename T, size_t ROW, size_t COL>
 void loadCSV_mat(const Tpath &name, Matrix<T, ROW, COL> &x)
 {
@@ -76,8 +86,7 @@ void loadCSV_mat(const Tpath &name, Matrix<T, ROW, COL> &x)
 
   char c = '.';
 
-  while (in.peek() <= 32) //!< Ignore byte order mark (BOM) at the beginning
-    in >> c;
+  ignoreBOM(in);
 
   for (size_t i = 0; i < ROW; i++) {
     //!< read all but the last column
@@ -99,17 +108,6 @@ void loadCSV_1col(const Tpath &name, std::array<T, ROW> &x)
   std::memcpy(&x, &temp, sizeof temp);
 }
 
-inline void ignoreBOM(std::ifstream &in)
-{
-  char c = '.';
-
-  do {
-    in >> c;
-  } while (c < 45); //!< Ignore byte order mark (BOM) at the beginning
-
-  in.putback(c);
-}
-
 template <typename Tpath, typename Tx, typename Ty>
 void loadCSV_2col(const Tpath &name, Tx &x, Ty &y, int n = 0)
 {
-- 
2.43.0


From d4e9724fd60218a9660ae9d9be96be21118941b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:04 +0000
Subject: [PATCH 47/81] fix: short or malformed tables were read as made-up or
 truncated data, longer ones past the end of an array

---
 src/utility/io/read_CSVfiles.hpp | 90 +++++++++++++++++++++++++-------
 1 file changed, 72 insertions(+), 18 deletions(-)

diff --git a/src/utility/io/read_CSVfiles.hpp b/src/utility/io/read_CSVfiles.hpp
index 1d5776b..22c0344 100644
--- a/src/utility/io/read_CSVfiles.hpp
+++ b/src/utility/io/read_CSVfiles.hpp
@@ -17,6 +17,7 @@
 #include <iostream>
 #include <fstream>
 #include <cassert>
+#include <algorithm>
 #include <sstream>
 #include <vector>
 #include <map>
@@ -63,6 +64,18 @@ inline void ignoreBOM(std::ifstream &in)
   if (in) in.putback(c);
 }
 
+inline bool isSeparator(std::istream &in) //!< reads the separator between two columns
+{
+  char c;
+  return (in >> c) && c == ',';
+}
+
+inline bool isEndOfFile(std::istream &in) //!< only white space is left
+{
+  in >> std::ws;
+  return in.eof();
+}
+
 template <typename Tpath, typename T, size_t ROW, size_t COL>
 void loadCSV_mat(const Tpath &name, Matrix<T, ROW, COL> &x)
 {
@@ -75,6 +88,7 @@ void loadCSV_mat(const Tpath &name, Matrix<T, ROW, COL> &x)
   //!< 	 *
   //!< 	 * THROWS
   //!< 	 * 2 		could not open the file
+  //!< 	 * 3 		the file does not contain exactly one number for every row and column
   //!< 	 */
   std::ifstream in(name, std::ios_base::in);
 
@@ -84,16 +98,21 @@ void loadCSV_mat(const Tpath &name, Matrix<T, ROW, COL> &x)
     throw 2;
   }
 
-  char c = '.';
-
   ignoreBOM(in);
 
-  for (size_t i = 0; i < ROW; i++) {
-    //!< read all but the last column
-    for (size_t j = 0; j < COL - 1; j++) {
-      in >> x[i][j] >> c; //!< Read number and comma
+  for (size_t i = 0; i < ROW; i++)
+    for (size_t j = 0; j < COL; j++) {
+      if (j > 0 && !isSeparator(in)) in.setstate(std::ios_base::failbit); //!< Read comma, there is none before the first column.
+
+      if (!(in >> x[i][j])) { //!< Read number
+        std::cerr << "Error in ReadCSVfiles::loadCSV_mat. File " << name << " has no number at row " << i << ", column " << j << '\n';
+        throw 3;
+      }
     }
-    in >> x[i][COL - 1]; //!< Read only number since there is no comma.
+
+  if (!isEndOfFile(in)) {
+    std::cerr << "Error in ReadCSVfiles::loadCSV_mat. File " << name << " is larger than " << ROW << " rows and " << COL << " columns.\n";
+    throw 3;
   }
 
   in.close();
@@ -124,6 +143,7 @@ void loadCSV_2col(const Tpath &name, Tx &x, Ty &y, int n = 0)
    *
    * THROWS
    * 2 		could not open the specified file
+   * 3 		the rows of the file have different lengths or contain something else than numbers
    */
 
   std::ifstream in(name, std::ios_base::in);
@@ -138,21 +158,39 @@ void loadCSV_2col(const Tpath &name, Tx &x, Ty &y, int n = 0)
   ignoreBOM(in);
 
   int j = 0;
-  char c;
+  auto readRow = [&](auto &x_i, auto &y_i) {
+    if (isEndOfFile(in)) return false;
+
+    if (!((in >> x_i) && isSeparator(in) && (in >> y_i))) {
+      std::cerr << "Error in ReadCSVfiles::loadCSV_2col. File " << name << " has no two numbers at row " << j << '\n';
+      throw 3;
+    }
+    return true;
+  };
+
   if constexpr (std::is_same<std::vector<double>, Tx>::value) {
     x.clear(); //!< Sometimes pre-allocated vectors are passed; therefore, cleared to be able to use push_back.
     y.clear();
 
     double x_i, y_i;
-    while ((n == 0 || j < n) && (in >> x_i >> c >> y_i)) //!< Read file.
+    while ((n == 0 || j < n) && readRow(x_i, y_i)) //!< Read file.
     {
       x.push_back(x_i);
       y.push_back(y_i);
       j++;
     }
-  } else {                                                 //!< It must be a std::array, then just read without clear.
-    while ((n == 0 || j < n) && (in >> x[j] >> c >> y[j])) //!< Read file.
+  } else { //!< It must be a std::array, then just read without clear.
+    typename Tx::value_type x_i;
+    typename Ty::value_type y_i;
+    while ((n == 0 || j < n) && readRow(x_i, y_i)) { //!< Read file.
+      if (static_cast<size_t>(j) >= std::min(x.size(), y.size())) {
+        std::cerr << "Error in ReadCSVfiles::loadCSV_2col. File " << name << " has more rows than the array.\n";
+        throw 3;
+      }
+      x[j] = x_i;
+      y[j] = y_i;
       j++;
+    }
   }
 }
 
@@ -172,6 +210,7 @@ void loadCSV_Ncol(const Tpath &name, DynamicMatrix<Tx> &x, int n = 0)
    *
    * THROWS
    * 2 		could not open the specified file
+   * 3 		the rows of the file have different lengths or contain something else than numbers
    */
 
   std::ifstream in(name, std::ios_base::in);
@@ -189,21 +228,32 @@ void loadCSV_Ncol(const Tpath &name, DynamicMatrix<Tx> &x, int n = 0)
 
   std::string line;
 
-  int n_rows{ 0 };
+  int n_rows{ 0 }, n_cols{ 0 };
   while ((n == 0 || n_rows < n) && std::getline(in, line)) //!< Read file.
   {
-    n_rows++;
     std::istringstream in_line(line);
+    if (isEndOfFile(in_line)) continue; //!< empty line
+
     double x_i;
-    char c;
-    while (in_line >> x_i) {
+    int n_cols_i{ 0 };
+    do {
+      if (!(in_line >> x_i)) {
+        std::cerr << "Error in ReadCSVfiles::loadCSV_Ncol. File " << name << " has something else than a number at row " << n_rows << '\n';
+        throw 3;
+      }
       x.data.push_back(x_i);
-      in_line >> c;
+      n_cols_i++;
+    } while (!isEndOfFile(in_line) && isSeparator(in_line));
+
+    if (n_rows == 0) n_cols = n_cols_i;
+
+    if (n_cols_i != n_cols || !in_line.eof()) {
+      std::cerr << "Error in ReadCSVfiles::loadCSV_Ncol. File " << name << " has a row of a different length at row " << n_rows << '\n';
+      throw 3;
     }
+    n_rows++;
   }
 
-  int n_cols = x.data.size() / n_rows;
-
   x.reshape(n_cols, n_rows);
 
   x.data.shrink_to_fit();
@@ -231,6 +281,7 @@ void loadCSV_2col(const Tpath &name, std::span<double> &x, std::span<double> &y,
    *
    * THROWS
    * 2 		could not open the specified file
+   * 3 		the rows of the file have different lengths or contain something else than numbers
    */
 
   static std::map<std::string, XYplain> XYdataMap;
@@ -249,6 +300,9 @@ void loadCSV_2col(const Tpath &name, std::span<double> &x, std::span<double> &y,
   if (n == 0) {
     x = std::span<double>(XYdataMap[name_str].x_vec);
     y = std::span<double>(XYdataMap[name_str].y_vec);
+  } else if (static_cast<size_t>(n) > XYdataMap[name_str].x_vec.size()) {
+    std::cerr << "Error in ReadCSVfiles::loadCSV_2col. File " << name << " has less than " << n << " rows.\n";
+    throw 3;
   } else {
     x = std::span<double>(&XYdataMap[name_str].x_vec[0], &XYdataMap[name_str].x_vec[0] + n); // #TODO temporary solution using pointers instead of iterators.
     y = std::span<double>(&XYdataMap[name_str].y_vec[0], &XYdataMap[name_str].y_vec[0] + n);
-- 
2.43.0


From e6e81292a2845cfb17091e53fa3b1af03907a1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:04 +0000
Subject: [PATCH 48/81] fix: data race on the cache of tables when cells are
 made in several threads

---
 src/utility/io/read_CSVfiles.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/utility/io/read_CSVfiles.hpp b/src/utility/io/read_CSVfiles.hpp
index 22c0344..b1355bf 100644
--- a/src/utility/io/read_CSVfiles.hpp
+++ b/src/utility/io/read_CSVfiles.hpp
@@ -21,6 +21,7 @@
 #include <sstream>
 #include <vector>
 #include <map>
+#include <mutex>
 #include <span>
 #include <cstring> //!< -> for memcpy
 
@@ -285,6 +286,9 @@ void loadCSV_2col(const Tpath &name, std::span<double> &x, std::span<double> &y,
    */
 
   static std::map<std::string, XYplain> XYdataMap;
+  static std::mutex XYdataMutex; //!< cells can be made in different threads
+
+  const std::lock_guard<std::mutex> lock(XYdataMutex);
 
   auto name_str = name.string();
 
-- 
2.43.0


From 22b087640444ea91a28eabf1ed4a1459e1417c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:48 +0000
Subject: [PATCH 49/81] fix: simulated OCV discharge reports lithium fractions
 outside the measured curves

discharge_noexcept always returned true, so starting fractions for which no
electrode potential is known gave a curve instead of the documented error.
---
 src/procedures/determine_OCV.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/procedures/determine_OCV.cpp b/src/procedures/determine_OCV.cpp
index 87cf711..69d2608 100644
--- a/src/procedures/determine_OCV.cpp
+++ b/src/procedures/determine_OCV.cpp
@@ -160,6 +160,12 @@ auto discharge_noexcept(const slide::XYdata_vv &OCVp, const slide::XYdata_vv &OC
     std::tie(ocvpi, flag_ocvpi) = slide::linInt_noexcept(bound, OCVp.x, OCVp.y, OCVp.size(), sp);
     std::tie(ocvni, flag_ocvni) = slide::linInt_noexcept(bound, OCVn.x, OCVn.y, OCVn.size(), sn);
 
+    if (flag_ocvpi || flag_ocvni) {
+      std::cerr << "Error in deterimineOCV::discharge from linInt when getting the voltage. positive li-fraction is "
+                << sp << " negative li-fraction is " << sn << ". Both should be between 0 and 1.\n";
+      flag = false;
+    }
+
     return ocvpi - ocvni; //!< OCV = OCV_cathode - OCV_anode, cell voltage in this time step
   };
 
@@ -173,8 +179,9 @@ auto discharge_noexcept(const slide::XYdata_vv &OCVp, const slide::XYdata_vv &OC
   };
 
   auto step = [&]() {
-    for (size_t i = 0; (!end && i < nstore); i++) {
+    for (size_t i = 0; (flag && !end && i < nstore); i++) {
       v = interpolate();
+      if (!flag) return;
 
       Ah += I * dt / 3600;
       sp += I * dt / (n * F) / AMp / cmaxp;
@@ -193,9 +200,12 @@ auto discharge_noexcept(const slide::XYdata_vv &OCVp, const slide::XYdata_vv &OC
   //!< *********************************************************** 2 discharge & measure voltage ***********************************************************************
   //!< std::cout << "===========================\n";
   v = interpolate();
+  if (!flag) return flag;
+
   store();
   while (!end) {
     step();
+    if (!flag) return flag;
     store();
   }
 
@@ -210,7 +220,7 @@ auto discharge_noexcept(const slide::XYdata_vv &OCVp, const slide::XYdata_vv &OC
   fp[1] = (fp[0] + fp[2]) / 2.0;
   fn[1] = (fn[0] + fn[2]) / 2.0;
 
-  return flag; //!< Flag is never false.
+  return flag;
 }
 
 auto discharge_noexcept(const slide::XYdata_vv &OCVp, const slide::XYdata_vv &OCVn, double cap, const double AMp, const double AMn, const double cmaxp,
-- 
2.43.0


From 8207a9c140537c46d21afd1ca4843ba5cee3d446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:14 +0000
Subject: [PATCH 50/81] fix: an OCV curve without data points is not valid

validOCV read the first row of an empty table.
---
 src/procedures/determine_OCV.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/procedures/determine_OCV.cpp b/src/procedures/determine_OCV.cpp
index 69d2608..325db2f 100644
--- a/src/procedures/determine_OCV.cpp
+++ b/src/procedures/determine_OCV.cpp
@@ -58,6 +58,11 @@ bool validOCV(bool checkRange, slide::XYdata_vv &data)
    * bool 		true if the OCV curve has the correct format
    */
 
+  if (data.size() == 0) {
+    std::cerr << "illegal value in deterimineOCV::validOCV: there are no data points.\n";
+    return false;
+  }
+
   //!< Check if the range of the first column is valid
   bool range;                                                                 //!< boolean to indicate of the first column has the correct range
   if (checkRange) {                                                           //!< check the first column has the correct range, from 0 to 1
-- 
2.43.0


From ccd3041c3387b32a61b37280d56f35b106a8329e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:54 +0000
Subject: [PATCH 51/81] fix: check-up leaked a copy of every cell

---
 src/procedures/Procedure.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/procedures/Procedure.cpp b/src/procedures/Procedure.cpp
index 6eaf862..5d4ca01 100644
--- a/src/procedures/Procedure.cpp
+++ b/src/procedures/Procedure.cpp
@@ -443,12 +443,12 @@ void Procedure::checkUp(StorageUnit *su, double Ah, int nrCycle)
 
   checkUp_prep(su); //!< bring to correct voltage
 
-  //!< get a vector with pointers to the cells
-  std::vector<Cell *> cells;
+  //!< get a vector with copies of the cells
+  std::vector<std::unique_ptr<Cell>> cells;
 
   auto copyCells = [&cells](auto *su_now) {
     if (auto c = dynamic_cast<Cell *>(su_now))
-      cells.push_back(static_cast<Cell *>(c->copy()));
+      cells.emplace_back(static_cast<Cell *>(c->copy()));
   };
 
   visit_SUs(su, copyCells);
@@ -481,7 +481,7 @@ void Procedure::checkUp(StorageUnit *su, double Ah, int nrCycle)
     file << Ah << ',' << nrCycle << ',';
 
     const auto th = cell->getThroughputs();       // #TODO if throughputs are saved then they should be included in states. Therefore this should not be needed.
-    const auto cap = Cycler(cell).testCapacity(); // #TODO this should be done in parallel.
+    const auto cap = Cycler(cell.get()).testCapacity(); // #TODO this should be done in parallel.
 
     file << th.time() << ',' << th.Ah() << ',' << th.Wh() << ',' << cap;
 
-- 
2.43.0


From 81a0e39cc665bc9a295d7ae26b29b8f793be1741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:54 +0000
Subject: [PATCH 52/81] fix: column names of a check-up were glued together

---
 src/procedures/Procedure.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/procedures/Procedure.cpp b/src/procedures/Procedure.cpp
index 5d4ca01..71d6ef0 100644
--- a/src/procedures/Procedure.cpp
+++ b/src/procedures/Procedure.cpp
@@ -466,7 +466,7 @@ void Procedure::checkUp(StorageUnit *su, double Ah, int nrCycle)
   //!< else write the cumulative charge throughput
   file.open(name, std::ios_base::app); //!< open from scratch, clear whatever was in the file before
 
-  file << "ID,var_cap,var_R,var_degSEI,var_degLAM,Ah,CycleNumber";
+  file << "ID,var_cap,var_R,var_degSEI,var_degLAM,Ah,CycleNumber,";
   file << "time [s],Current throughput [Ah],Energy throughput [Wh],Capacity [Ah],States\n";
 
   for (auto &cell : cells) {
-- 
2.43.0


From 97302b74e00e28d60d9fa47fbc02c25c51410b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:54 +0000
Subject: [PATCH 53/81] fix: check-up assumed at least one cell and all of the
 type of the first one

---
 src/procedures/Procedure.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/procedures/Procedure.cpp b/src/procedures/Procedure.cpp
index 71d6ef0..bcfbb9d 100644
--- a/src/procedures/Procedure.cpp
+++ b/src/procedures/Procedure.cpp
@@ -459,7 +459,6 @@ void Procedure::checkUp(StorageUnit *su, double Ah, int nrCycle)
   //  open and clear whatever was there since we want to write the most recent stats only
 
   //!< do the main checkup, which writes the throughput, capacity and state of every cell
-  const size_t start = (typeid(*cells[0]) == typeid(Cell_SPM)) ? 2 * settings::nch : 0; // #TODO : Consider having different type of cells.
   //!< Write the throughput of each cell
 
   //!< If this is the first checkup, start by writing the cell IDs and cell-to-cell parameters
@@ -485,6 +484,7 @@ void Procedure::checkUp(StorageUnit *su, double Ah, int nrCycle)
 
     file << th.time() << ',' << th.Ah() << ',' << th.Wh() << ',' << cap;
 
+    const size_t start = (typeid(*cell) == typeid(Cell_SPM)) ? 2 * settings::nch : 0;
     const auto st_view = cell->viewStates();         //!< write the state of a cell, if an SPM cell, skip the concentration states since they don't give info
     for (size_t i{ start }; i < st_view.size(); i++) //!< loop for each state variable (rows)
       file << ',' << st_view[i];
-- 
2.43.0


From eb122000be978f0e3675d9779d465bcd7c03f9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:54 +0000
Subject: [PATCH 54/81] fix: throughput file named a column which is not
 written

---
 src/procedures/Procedure.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/procedures/Procedure.cpp b/src/procedures/Procedure.cpp
index bcfbb9d..9cb79d2 100644
--- a/src/procedures/Procedure.cpp
+++ b/src/procedures/Procedure.cpp
@@ -616,7 +616,7 @@ void Procedure::writeThroughput(const std::string &SUID, double Ahtot)
   std::ofstream file;
   if (Ahtot == 0) {
     file.open(PathVar::results / name); //!< open from scratch, clear whatever was in the file before
-    file << "ID number" << ',' << "cells charge throughput" << ','
+    file << "cells charge throughput" << ','
          << "Cells energy throughput" << ','
          << "total energy to operate the thermal management system" << ','
          << "losses in the converter" << '\n';
-- 
2.43.0


From 72ea13951173c6309c50f34e9f1bd90dd454817c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:54 +0000
Subject: [PATCH 55/81] fix: histogram of the energy of the air conditioning
 was that of its heat

---
 src/procedures/Procedure.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/procedures/Procedure.cpp b/src/procedures/Procedure.cpp
index 9cb79d2..b61ffc8 100644
--- a/src/procedures/Procedure.cpp
+++ b/src/procedures/Procedure.cpp
@@ -574,7 +574,7 @@ void Procedure::checkMod(StorageUnit *su)
         file_histograms << GetHistograms(c->HVACdata.tData).Qac << '\n';
 
         file_histograms << "Eac histogram:\n";
-        file_histograms << GetHistograms(c->HVACdata.tData).Qac << '\n';
+        file_histograms << GetHistograms(c->HVACdata.tData).Eac << '\n';
       }
     }
   };
-- 
2.43.0


From 5a2f1b98f51265a02490576244080b0f07ec75da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:54 +0000
Subject: [PATCH 56/81] fix: balancing skipped all cells of a battery and all
 other than SPM cells

---
 src/procedures/Procedure.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/procedures/Procedure.cpp b/src/procedures/Procedure.cpp
index b61ffc8..6215b1f 100644
--- a/src/procedures/Procedure.cpp
+++ b/src/procedures/Procedure.cpp
@@ -382,11 +382,13 @@ Status Procedure::rebalance(StorageUnit *su)
   constexpr int ndata = 0;
 
   //!< if it is a module, recursively call this function on all children to rebalance the cells
-  if (auto m = dynamic_cast<Module *>(su)) {
-    for (auto &cs_k : m->getSUs()) {
+  if (auto b = dynamic_cast<Battery *>(su)) {
+    return rebalance(b->getCells());
+  } else if (auto m = dynamic_cast<Module *>(su)) {
+    for (size_t k{ 0 }; k < m->getNSUs(); k++) {
+      auto &cs_k = m->getSUs()[k];
       const auto status = rebalance(cs_k.get());
       if (!isStatusSuccessful(status)) {
-        const auto k = std::distance(m->getSUs()[0].get(), cs_k.get());
         std::cout << "Error when rebalancing of SU " << k << " whose ID = "
                   << cs_k->getFullID() << ", error " << getStatusMessage(status) << ".\n";
 
@@ -394,7 +396,7 @@ Status Procedure::rebalance(StorageUnit *su)
       }
     }
 
-  } else if (typeid(*su) == typeid(Cell_SPM)) { // #TODO why only SPM?
+  } else {
     const double Iset = su->Cap() * Cset;
     const double Ilim = su->Cap() * Clim;
     ThroughputData th{};
-- 
2.43.0


From c9443a4819da85f9c096bd5406b99e8d1c2c6134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:54 +0000
Subject: [PATCH 57/81] fix: cycle ageing without balancing or check-ups
 divided by zero

---
 src/procedures/Procedure.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/procedures/Procedure.cpp b/src/procedures/Procedure.cpp
index 6215b1f..9362edc 100644
--- a/src/procedures/Procedure.cpp
+++ b/src/procedures/Procedure.cpp
@@ -65,7 +65,7 @@ void Procedure::cycleAge(StorageUnit *su, int Ncycle, int Ncheck, int Nbal, bool
                 << " and hot spot T = " << K_to_Celsius(su->getThotSpot()) << '\n';
 
     //!< Balance (in this thread) and do a check-up (on a separate thread) if needed
-    balanceCheckup(su, balance && (i % Nbal == 0), (i % Ncheck == 0), th.Ah(), i, pref);
+    balanceCheckup(su, balance && (Nbal > 0) && (i % Nbal == 0), (Ncheck > 0) && (i % Ncheck == 0), th.Ah(), i, pref);
 
     const auto th_before = th.Ah();
     succ = cyc.CC(Icha, Vmax, TIME_INF, dt, ndata, th); //!< CC charge
-- 
2.43.0


From c8c20449fc3f101cddc9253b872dd94de8ed7090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:09 +0000
Subject: [PATCH 58/81] fix: final check-up of an ageing procedure that stopped
 early recorded the requested number of cycles

---
 src/procedures/Procedure.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/procedures/Procedure.cpp b/src/procedures/Procedure.cpp
index 9362edc..e3dea86 100644
--- a/src/procedures/Procedure.cpp
+++ b/src/procedures/Procedure.cpp
@@ -58,7 +58,8 @@ void Procedure::cycleAge(StorageUnit *su, int Ncycle, int Ncheck, int Nbal, bool
   Clock clk{};
 
   //!< loop for cycle ageing
-  for (int i = 0; i < Ncycle; i++) {
+  int i = 0; //!< number of cycles done so far
+  for (; i < Ncycle; i++) {
     if (!unitTest)
       std::cout << "SU " << su->getFullID() << " starting loop iteration " << i << " after "
                 << clk << " with V = " << su->V() << ", T = " << K_to_Celsius(su->T())
@@ -123,8 +124,8 @@ void Procedure::cycleAge(StorageUnit *su, int Ncycle, int Ncheck, int Nbal, bool
   //!< because usage statistics of cells and modules (or their cooling systems) are not copied over in copy()
   if (!unitTest) std::cout << "Doing a final checkup after " << th.Ah() << " Ah.\n";
   writeThroughput(su->getFullID(), th.Ah());
-  checkUp(su, th.Ah(), Ncycle); //!< check-up of the cells
-  checkMod(su);                 //!< check-up of the modules
+  checkUp(su, th.Ah(), i); //!< check-up of the cells
+  checkMod(su);            //!< check-up of the modules
 
   //!< push a write such that if cells still have cycling data, this is written
   if constexpr (settings::DATASTORE_CELL == settings::cellDataStorageLevel::storeTimeData)
@@ -188,7 +189,8 @@ void Procedure::useCaseAge(StorageUnit *su, int cool)
   Clock clk;
 
   //!< loop for use case ageing
-  for (unsigned i = 0; i < Ncycle; i++) {
+  unsigned i = 0; //!< number of cycles done so far
+  for (; i < Ncycle; i++) {
     if (!unitTest)
       std::cout << "SU " << su->getFullID() << " starting loop iteration " << i << " after "
                 << clk << " with V = " << su->V() << ", T = " << K_to_Celsius(su->T())
@@ -261,8 +263,8 @@ void Procedure::useCaseAge(StorageUnit *su, int cool)
   //!< This checkup will write the usage statistics, so it must be called with the actual SU and not with a copy
   //!< because usage statistics of cells and modules (or their cooling systems) are not copied over in copy()
   writeThroughput(su->getFullID(), th.Ah());
-  checkUp(su, th.Ah(), Ncycle); //!< check-up of the cells #TODO if we can use the previous definition of this task_indv
-  checkMod(su);                 //!< check-up of the modules
+  checkUp(su, th.Ah(), i); //!< check-up of the cells #TODO if we can use the previous definition of this task_indv
+  checkMod(su);            //!< check-up of the modules
 
   //!< push a write such that if cells still have cycling data, this is written
   if constexpr (settings::DATASTORE_CELL == settings::cellDataStorageLevel::storeTimeData)
-- 
2.43.0


From cbe3ab4489f260c9f9adfefacbbfebc602894d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:09 +0000
Subject: [PATCH 59/81] fix: throughput file of an ageing procedure that does
 not start with a check-up had no header and kept old data

---
 src/procedures/Procedure.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/procedures/Procedure.cpp b/src/procedures/Procedure.cpp
index e3dea86..05820a1 100644
--- a/src/procedures/Procedure.cpp
+++ b/src/procedures/Procedure.cpp
@@ -57,6 +57,8 @@ void Procedure::cycleAge(StorageUnit *su, int Ncycle, int Ncheck, int Nbal, bool
   //!< Make a clock to measure how long the simulation takes
   Clock clk{};
 
+  writeThroughput(su->getFullID(), 0); //!< start a new file
+
   //!< loop for cycle ageing
   int i = 0; //!< number of cycles done so far
   for (; i < Ncycle; i++) {
@@ -188,6 +190,8 @@ void Procedure::useCaseAge(StorageUnit *su, int cool)
   //!< Make a clock to measure how long the simulation takes
   Clock clk;
 
+  writeThroughput(su->getFullID(), 0); //!< start a new file
+
   //!< loop for use case ageing
   unsigned i = 0; //!< number of cycles done so far
   for (; i < Ncycle; i++) {
-- 
2.43.0


From ebc7f9b76cfa0b819f7a24956afd18597158857c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:57 +0000
Subject: [PATCH 60/81] fix: an error in a worker thread terminated the program

Errors from time steps of parallel modules are handled by their callers, but an
exception which leaves a std::thread calls std::terminate. Now it is thrown again
after all threads finished.
---
 src/utility/parallelisation.hpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/utility/parallelisation.hpp b/src/utility/parallelisation.hpp
index 42ef21e..51b7e1f 100644
--- a/src/utility/parallelisation.hpp
+++ b/src/utility/parallelisation.hpp
@@ -12,6 +12,7 @@
 
 #include "../settings/settings.hpp"
 
+#include <exception>
 #include <thread>
 #include <vector>
 
@@ -40,17 +41,28 @@ void run(Tfun task_indv, int i_end, unsigned int numMaxParallelWorkers = setting
       std::vector<std::thread> threads;
       threads.reserve(N_th_max);
 
+      std::vector<std::exception_ptr> errors(N_th_max); //!< An exception must not leave its thread, it is thrown again after all threads finished.
+
       for (unsigned int i_begin = 0; i_begin < N_th_max; i_begin++) //!< indices for the threads
       {
         //!< Multi threaded simul:
 
-        threads.emplace_back(task_par, i_begin, i_end, N_th_max);
+        threads.emplace_back([&, i_begin] {
+          try {
+            task_par(i_begin, i_end, N_th_max);
+          } catch (...) {
+            errors[i_begin] = std::current_exception();
+          }
+        });
       }
 
       for (auto &th : threads) {
         if (th.joinable())
           th.join();
       }
+
+      for (auto &error : errors)
+        if (error) std::rethrow_exception(error);
     }
   } else {
     task_par(0, i_end, 1);
-- 
2.43.0


From 34deed65306caeb77dc1b75e5690bfeb98dcbb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:57 +0000
Subject: [PATCH 61/81] fix: currents of parallel modules did not converge for
 branches with large resistance times capacity

setCurrent and redistributeCurrent used a fixed-point iteration with step Cap. It
diverges when resistance times capacity exceeds 2 (e.g. strings in parallel with
contact resistances), and never reaches its tolerance if the SUs are parallel
modules. Use the Newton iterations of setVoltage for all three.
---
 src/modules/Module_p.cpp | 229 +++++++++++++--------------------------
 src/modules/Module_p.hpp |   1 +
 2 files changed, 77 insertions(+), 153 deletions(-)

diff --git a/src/modules/Module_p.cpp b/src/modules/Module_p.cpp
index e82fb60..9e62656 100644
--- a/src/modules/Module_p.cpp
+++ b/src/modules/Module_p.cpp
@@ -91,235 +91,158 @@ void Module_p::getVall(std::span<double> Vall, bool print) // #TODO span may not
 }
 
 /**
- * @brief Redistribute the current among the SUs to balance the voltage.
+ * @brief Solve the currents of the SUs such that all see the same terminal voltage.
  *
- * Iteratively adjusts the current of each SU to balance the voltages across them.
+ * Newton iterations on the ladder of contact resistances and SUs. Every SU is linearised with its local
+ * resistance, which is updated from the voltages it shows. Therefore, convergence depends neither on the
+ * capacities nor on the resistances of the SUs.
  *
- * @param checkV Unused parameter (can be removed if not required).
- * @param print Unused parameter (can be removed if not required).
- * @return The status of the operation.
+ * @param target The voltage or the total current to reach.
+ * @param isVoltage True if the target is the terminal voltage, false if it is the total current.
+ * @param checkV Check the voltages of the SUs when setting their currents.
+ * @param print Print error messages.
+ * @return Success or, if the target could not be reached, why not. Then, the currents of the SUs are unchanged.
  */
-Status Module_p::redistributeCurrent(bool checkV, bool print)
+Status Module_p::solveCurrents(double target, bool isVoltage, bool checkV, bool print)
 {
-  // New redistributeCurrent without PI control:
-  //!< get cell voltages
-  std::array<double, settings::MODULE_NSUs_MAX> Va, Vb, Ia, Ib; //!< #TODO if we should make them vector.
-
-  //!< voltage and initial current of each cell //!< #TODO it is a constant value SU.
-  constexpr int maxIteration = 2500;
+  constexpr int maxIteration = 100;
   const auto nSU = getNSUs();
 
-  auto StatusNow = Status::RedistributeCurrent_failed;
-
-  if (nSU <= 1) return Status::Success;
-
-  double Itot{ 0 };
-  getVall(Va, print);
-  for (size_t i = 0; i < nSU; i++) {
-    Ia[i] = SUs[i]->I();
-    Itot += Ia[i]; // We also need to preserve sum of the currents!
-  }
-
-  int iter{ 0 };
-  for (; iter < maxIteration; iter++) {
-    double error{ 0 };
-
-    double Vmean{ 0 }, Ctot{ 0 };
-    for (size_t i = 0; i < nSU; i++) { // Capacity-weighted mean voltage such that the updates below preserve the total current.
-      Vmean += Va[i] * SUs[i]->Cap();
-      Ctot += SUs[i]->Cap();
-    }
-    Vmean /= Ctot;
-
-    for (size_t i = 0; i < nSU; i++) // Compute the error between mean voltage and individual cell voltages
-      error += std::abs(Vmean - Va[i]);
-
-
-    if (error < 1e-10) // Return success if the error is below the threshold
-      return Status::Success;
-
-    // Update the currents based on the difference between mean and individual voltages
-    for (size_t i = 0; i < nSU; i++) {
-      Ia[i] = Ia[i] - (Vmean - Va[i]) * SUs[i]->Cap();
-      SUs[i]->setCurrent(Ia[i], checkV, print);
-    }
-
-    getVall(Va, print);
-  }
-
-  if constexpr (settings::printNumIterations)
-    std::cout << "redistributeCurrent iterations: " << iter << '\n';
-
-  return StatusNow;
-}
-
-Status Module_p::setVoltage(double Vnew, bool checkI, bool print)
-{
-  constexpr int maxIteration = 50;
-  const auto nSU = getNSUs();
+  if (nSU == 0) return Status::Success;
 
   auto StatusNow = Status::RedistributeCurrent_failed;
 
   std::array<double, settings::MODULE_NSUs_MAX> Iolds, Ia, Va, Vi, Ri, a, g;
 
   //!< get the old currents so we can revert if needed
-  for (size_t i{}; i < SUs.size(); i++) {
+  for (size_t i{}; i < nSU; i++) {
     Ia[i] = Iolds[i] = SUs[i]->I();
     Vi[i] = SUs[i]->V();
     Ri[i] = std::max(SUs[i]->getRtot(), 1e-6); //!< local resistance of the SU, -dV/dI, updated in every iteration
   }
 
+  auto StatusRefused = Status::Success; //!< why the latest current was refused.
+
   int iter{ 0 };
   for (; iter < maxIteration; iter++) {
     getVall(Va, print);
 
-    double error{ 0 };
+    double Vmean{ 0 }, Itot{ 0 }, Isum{ 0 }, error{ 0 };
+    for (size_t i = 0; i < nSU; i++) {
+      Vmean += Va[i] / nSU;
+      Itot += Ia[i];
+      Isum += std::abs(Ia[i]);
+    }
+
+    const double Vtarget = isVoltage ? target : Vmean;
     for (size_t i = 0; i < nSU; i++)
-      error += std::abs(Vnew - Va[i]);
+      error += std::abs(Vtarget - Va[i]);
 
-    if (error < 1e-8) {
+    const bool isItotReached = isVoltage || std::abs(Itot - target) <= 1e-12 * (1 + Isum);
+    if (isItotReached && error < 1e-10 * nSU * std::max(1.0, std::abs(Vtarget))) {
       StatusNow = Status::Success;
       break;
     }
 
     //!< Linearise the SUs as Vi - Ri * dI. From the far end to the terminals, the current from SU i onwards is then a[i] - g[i] * (voltage before contact i)
+    //!< All voltages here are relative to Vtarget, such that no digits of the currents are lost.
     for (size_t k{ 0 }; k < nSU; k++) {
       const auto i = nSU - 1 - k;
       const double gi = 1 / Ri[i] + (k == 0 ? 0 : g[i + 1]);
-      const double ai = Ia[i] + Vi[i] / Ri[i] + (k == 0 ? 0 : a[i + 1]);
+      const double ai = Ia[i] + (Vi[i] - Vtarget) / Ri[i] + (k == 0 ? 0 : a[i + 1]);
       a[i] = ai / (1 + Rcontact[i] * gi);
       g[i] = gi / (1 + Rcontact[i] * gi);
     }
 
-    double V_contact{ Vnew }; //!< voltage in between the contacts, walking from the terminals to the far end
+    StatusRefused = Status::Success;
+    double V_contact = isVoltage ? 0 : (a[0] - target) / g[0]; //!< voltage in between the contacts, walking from the terminals to the far end
     for (size_t i = 0; i < nSU; i++) {
       V_contact += Rcontact[i] * (a[i] - g[i] * V_contact);
 
       const double Iold = Ia[i], Vold = Vi[i];
-      const auto status = SUs[i]->setCurrent(Iold - (V_contact - Vold) / Ri[i]);
+      const auto status = SUs[i]->setCurrent(Iold - (V_contact - (Vold - Vtarget)) / Ri[i], checkV, print);
       Ia[i] = SUs[i]->I(); //!< unchanged if the current was refused
       Vi[i] = SUs[i]->V();
 
-      if (isStatusBad(status))
+      if (isStatusBad(status)) {
+        StatusRefused = status;
         Ri[i] *= 2; //!< try again with a smaller step
-      else if (std::abs(Vi[i] - Vold) > 1e-9)
+      } else if (std::abs(Vi[i] - Vold) > 1e-9)
         Ri[i] = std::clamp(-(Vi[i] - Vold) / (Ia[i] - Iold), Ri[i] / 5, Ri[i] * 5);
     }
   }
 
   if constexpr (settings::printNumIterations)
-    std::cout << "setVoltage iterations: " << iter << '\n';
+    if (iter != 0) std::cout << "solveCurrents iterations: " << iter << '\n';
 
-  if (StatusNow != Status::Success) // Restore the old currents if the voltage could not be reached.
-    for (size_t i{}; i < SUs.size(); i++)
+  if (StatusNow != Status::Success) { // Restore the old currents if the target could not be reached.
+    for (size_t i{}; i < nSU; i++)
       SUs[i]->setCurrent(Iolds[i], false, false);
 
-  return StatusNow; // #TODO add some voltage/current etc. check
+    if (isStatusBad(StatusRefused)) StatusNow = StatusRefused;
+  }
+
+  return StatusNow;
+}
+
+/**
+ * @brief Redistribute the current among the SUs to balance the voltage.
+ *
+ * Adjusts the current of each SU to balance the voltages across them, while the total current stays the same.
+ *
+ * @param checkV Check the voltages of the SUs when setting their currents.
+ * @param print Print error messages.
+ * @return The status of the operation.
+ */
+Status Module_p::redistributeCurrent(bool checkV, bool print)
+{
+  if (getNSUs() <= 1) return Status::Success;
+
+  return solveCurrents(I(), false, checkV, print); // We also need to preserve sum of the currents!
+}
+
+Status Module_p::setVoltage(double Vnew, bool checkI, bool print)
+{
+  return solveCurrents(Vnew, true, true, print); // #TODO add some voltage/current etc. check
 }
 
 Status Module_p::setCurrent(double Inew, bool checkV, bool print)
 {
   /*
    * Set the current of a parallel module
-   * This function takes small steps adapting the current of each connected cell until the total current is reached
-   * 	 step 1 	change I by a bit  -> measure V_cell -> derive Rtot
-   * 	 step 2 	do 50% of Inew-I() by increasing current proportionally to this resistance
-   * 	 step 3   	iteratively change I of the cell with the smallest V (charge) or biggest V (discharge)
+   * 	 step 1 	distribute the change of the current equally
+   * 	 step 2   	redistribute the current such that the voltages are equal
    *
-   * THROWS
-   * 2 	checkV is true && the voltage is outside the allowed range but still in the safety range
-   * 3 	checkV is true && the voltage is outside the safety limits, old current is restored
-   * 15 	after setting the current, the voltage of the cells are too far apart
+   * If the current can not be set, the old currents are restored.
    */
 
-  const bool verb = print && (settings::printBool::printCrit); //!< print if the (global) verbose-setting is above the threshold
-
-  constexpr int maxIteration = 10550;
   const auto nSU = getNSUs();
 
-  auto StatusNow = Status::Success;
-
-  std::array<double, settings::MODULE_NSUs_MAX> Iolds, Ia, Va;
+  std::array<double, settings::MODULE_NSUs_MAX> Iolds;
 
   double Itot{ 0 };
 
   //!< get the old currents so we can revert if needed
   for (size_t i{}; i < SUs.size(); i++) {
-    Ia[i] = Iolds[i] = SUs[i]->I();
+    Iolds[i] = SUs[i]->I();
     Itot += Iolds[i];
   }
 
   const auto dI = (Inew - Itot) / nSU; // #TODO must change if charge/discharge.
 
-  const auto restoreCurrents = [&]() {
-    for (size_t i{}; i < SUs.size(); i++)
-      SUs[i]->setCurrent(Iolds[i], false, false);
-  };
-
-  for (size_t i{}; i < SUs.size(); i++) {
-    Ia[i] += dI;
-    StatusNow = SUs[i]->setCurrent(Ia[i], checkV, print); // #TODO worse status should be here.
-    if (!isStatusOK(StatusNow)) {
-      restoreCurrents();
-      return StatusNow;
-    }
-  }
-
-  getVall(Va, print);
-
-  int iter{ 0 };
-  for (; iter < maxIteration; iter++) {
-    double Vmean{ 0 }, Ctot{ 0 }, error{ 0 };
-
-    for (size_t i = 0; i < nSU; i++) { // Capacity-weighted mean such that the updates below preserve the total current.
-      Vmean += Va[i] * SUs[i]->Cap();
-      Ctot += SUs[i]->Cap();
-    }
-
-    Vmean /= Ctot;
-
-    for (size_t i = 0; i < nSU; i++)
-      error += std::abs(Vmean - Va[i]);
-
-    if (error < 1e-9 && isStatusOK(StatusNow)) {
-      StatusNow = Status::Success;
-      break;
-    }
+  auto StatusNow = Status::Success;
 
-    StatusNow = Status::Success;
-    for (size_t i = 0; i < nSU; i++) {
-      Ia[i] = Ia[i] - (Vmean - Va[i]) * SUs[i]->Cap();
-      const auto status = SUs[i]->setCurrent(Ia[i], checkV, print);
-      if (isStatusBad(status)) StatusNow = status; // This SU still has its previous current.
-    }
-    getVall(Va, print);
-  }
+  for (size_t i{}; i < SUs.size() && isStatusOK(StatusNow); i++)
+    StatusNow = SUs[i]->setCurrent(Iolds[i] + dI, checkV, print); // #TODO worse status should be here.
 
-  if (iter == maxIteration) { // The voltages could not be equalised.
-    restoreCurrents();
-    return isStatusBad(StatusNow) ? StatusNow : Status::RedistributeCurrent_failed;
-  }
+  if (isStatusOK(StatusNow))
+    StatusNow = solveCurrents(Inew, false, checkV, print);
 
-  //!< voltage of cell i is outside the valid range, but within safety limits
-  //!< indicate this happened but continue setting states
-  if (isStatusWarning(StatusNow)) { // #TODO maybe we should not need to set current equally immediately?
-    if (verb)
-      std::cout << "warning in Module_p::setCurrent, the voltage of cell with id "
-                << SUs[0]->getFullID() << " is outside the allowed range for Inew = " << Inew / getNSUs()
-                << ". Continue for now since we are going to redistribute the current to equalise the voltages.\n";
-
-  } else if (isStatusBad(StatusNow)) {
-    if (verb)
-      std::cout << "ERROR " << getStatusMessage(StatusNow) << " in Module_p::setCurrent when setting the current of cell "
-                << " with id " << SUs[0]->getFullID() << " for Inew = " << Inew / nSU
-                << ". Try to recover using the iterative version of setCurrent.\n";
-    //!< throw error, the catch statement will use the iterative function
-    // #TODO give exact id, temporarily set to SUs[0]
-  }
+  if (!isStatusOK(StatusNow)) // The current is not possible or the voltages could not be equalised.
+    for (size_t i{}; i < SUs.size(); i++)
+      SUs[i]->setCurrent(Iolds[i], false, false);
 
-  if constexpr (settings::printNumIterations)
-    if (iter != 0) std::cout << "setCurrent iterations: " << iter << '\n';
-  return StatusNow; //!< #TODO problem
+  return StatusNow;
 }
 
 
diff --git a/src/modules/Module_p.hpp b/src/modules/Module_p.hpp
index 47ec89c..f632b48 100644
--- a/src/modules/Module_p.hpp
+++ b/src/modules/Module_p.hpp
@@ -19,6 +19,7 @@ class Module_p : public Module
 {
 protected:
   void getVall(std::span<double> Vall, bool print = true); //!< get the voltage of all SUs while accounting for the contact resistance
+  Status solveCurrents(double target, bool isVoltage, bool checkV, bool print); //!< solve the currents of all SUs for a terminal voltage or a total current
 
 public:
   Module_p() : Module("moduleP") {} //!< #TODO note this constructor should never be used. It can't determine which coolsystem to use
-- 
2.43.0


From 5845a380f03e48548e0e7e15eb1e911f56e844f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:09 +0000
Subject: [PATCH 62/81] fix: states with an invalid module temperature aborted
 or left the module half changed

---
 src/modules/Module.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/modules/Module.cpp b/src/modules/Module.cpp
index e465e1b..97b1e44 100644
--- a/src/modules/Module.cpp
+++ b/src/modules/Module.cpp
@@ -260,8 +260,18 @@ Status Module::setStates(setStates_t s, bool checkV, bool print)
   } //!< end loop to set the cell states
 
   //!< set the module temperature
-  assert(s[0] >= PhyConst::Kelvin); //!< #TODO here we are checking but should we?
-  setT(s[0]);
+  try {
+    setT(s[0]);
+  } catch (int) { //!< temperature outside the allowed range
+    if (verb)
+      std::cerr << "ERROR in Module::setStates, the temperature of module " << getFullID()
+                << " is outside the allowed range. Restoring the old states.\n";
+
+    for (auto &SU : SUs)
+      SU->setStates(spn_orig, false, print); //!< restore the original states without checking validity (they should be valid)
+
+    return Status::Invalid_states;
+  }
   s = s.last(s.size() - 1);
 
   //!< check that the cells are valid for this module configuration (same I if series, same V if parallel)
-- 
2.43.0


From 7d7a6b35988f27033531ac10fc0aab073458dd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:53 +0000
Subject: [PATCH 63/81] fix: parallel module accepted currents for which its
 members have no voltage

---
 src/modules/Module_p.cpp | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/modules/Module_p.cpp b/src/modules/Module_p.cpp
index 9e62656..9dba54a 100644
--- a/src/modules/Module_p.cpp
+++ b/src/modules/Module_p.cpp
@@ -114,24 +114,45 @@ Status Module_p::solveCurrents(double target, bool isVoltage, bool checkV, bool
 
   std::array<double, settings::MODULE_NSUs_MAX> Iolds, Ia, Va, Vi, Ri, a, g;
 
+  auto hasVoltage = [](double V) { return V > 0 && std::isfinite(V); }; //!< 0 if the voltage could not be calculated
+
+  //!< set the current of SU i, or one in between its old current and the new one if there is no voltage at the new one.
+  auto trySetCurrent = [&](size_t i, double Iold, double Inew) {
+    auto status = SUs[i]->setCurrent(Inew, checkV, print);
+    for (int k{ 0 }; k < 20 && !isStatusBad(status) && !hasVoltage(SUs[i]->V()); k++) {
+      Inew = k < 19 ? (Inew + Iold) / 2 : Iold;
+      status = SUs[i]->setCurrent(Inew, checkV, print);
+    }
+    return status;
+  };
+
   //!< get the old currents so we can revert if needed
   for (size_t i{}; i < nSU; i++) {
-    Ia[i] = Iolds[i] = SUs[i]->I();
+    Iolds[i] = SUs[i]->I();
+    if (!hasVoltage(SUs[i]->V())) trySetCurrent(i, 0, Iolds[i] / 2); //!< start from a current for which there is a voltage
+    Ia[i] = SUs[i]->I();
     Vi[i] = SUs[i]->V();
     Ri[i] = std::max(SUs[i]->getRtot(), 1e-6); //!< local resistance of the SU, -dV/dI, updated in every iteration
   }
 
   auto StatusRefused = Status::Success; //!< why the latest current was refused.
 
-  int iter{ 0 };
-  for (; iter < maxIteration; iter++) {
+  int iter{ 0 }, nRefused{ 0 };
+  for (; iter < maxIteration && nRefused < 20; iter++) {
     getVall(Va, print);
 
     double Vmean{ 0 }, Itot{ 0 }, Isum{ 0 }, error{ 0 };
+    bool haveVoltage{ true };
     for (size_t i = 0; i < nSU; i++) {
       Vmean += Va[i] / nSU;
       Itot += Ia[i];
       Isum += std::abs(Ia[i]);
+      haveVoltage = haveVoltage && hasVoltage(Vi[i]);
+    }
+
+    if (!haveVoltage) { //!< there is an SU without voltage whatever its current is
+      StatusRefused = Status::V_not_calculated;
+      break;
     }
 
     const double Vtarget = isVoltage ? target : Vmean;
@@ -160,7 +181,7 @@ Status Module_p::solveCurrents(double target, bool isVoltage, bool checkV, bool
       V_contact += Rcontact[i] * (a[i] - g[i] * V_contact);
 
       const double Iold = Ia[i], Vold = Vi[i];
-      const auto status = SUs[i]->setCurrent(Iold - (V_contact - (Vold - Vtarget)) / Ri[i], checkV, print);
+      const auto status = trySetCurrent(i, Iold, Iold - (V_contact - (Vold - Vtarget)) / Ri[i]);
       Ia[i] = SUs[i]->I(); //!< unchanged if the current was refused
       Vi[i] = SUs[i]->V();
 
@@ -170,6 +191,8 @@ Status Module_p::solveCurrents(double target, bool isVoltage, bool checkV, bool
       } else if (std::abs(Vi[i] - Vold) > 1e-9)
         Ri[i] = std::clamp(-(Vi[i] - Vold) / (Ia[i] - Iold), Ri[i] / 5, Ri[i] * 5);
     }
+
+    nRefused = isStatusBad(StatusRefused) ? nRefused + 1 : 0; //!< in a row
   }
 
   if constexpr (settings::printNumIterations)
-- 
2.43.0


From ed9af010225ce7bb907f33dd6102d21aa258d96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:17 +0000
Subject: [PATCH 64/81] fix: an illegal battery temperature must not leave the
 cells with the refused states

---
 src/system/Battery.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/system/Battery.cpp b/src/system/Battery.cpp
index 98c08f9..61ccb2f 100644
--- a/src/system/Battery.cpp
+++ b/src/system/Battery.cpp
@@ -106,10 +106,19 @@ void Battery::setBlockDegAndTherm(bool block)
 
 Status Battery::setStates(setStates_t s, bool checkStates, bool print)
 {
+  std::vector<double> sorig;
+  cells->getStates(sorig);
+
   auto status = cells->setStates(s, checkStates, print);
   if (isStatusBad(status)) return status;
 
-  setT(s[0]); //!< the battery temperature follows the states of its module. #TODO probably here we need to check?
+  try {
+    setT(s[0]); //!< the battery temperature follows the states of its module.
+  } catch (int) { //!< temperature outside the allowed range
+    std::span<double> spn_orig{ sorig };
+    cells->setStates(spn_orig, false, print); //!< restore the original states without checking validity (they should be valid)
+    return Status::Invalid_states;
+  }
   s = s.last(s.size() - 1);
   return status;
 }
-- 
2.43.0


From 1ef93aed7821e41cd7b1c063f134fc0313bedd7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:08 +0000
Subject: [PATCH 65/81] fix: statistics of the air conditioner were not stored

The data member of CoolSystem_HVACData had the type of the data of the fan, for which
storing and writing do nothing.
---
 src/cooling/data_storage/CoolSystem_HVACData.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cooling/data_storage/CoolSystem_HVACData.hpp b/src/cooling/data_storage/CoolSystem_HVACData.hpp
index 9203957..253501f 100644
--- a/src/cooling/data_storage/CoolSystem_HVACData.hpp
+++ b/src/cooling/data_storage/CoolSystem_HVACData.hpp
@@ -17,8 +17,8 @@ class CoolSystem_HVAC;
 
 struct CoolSystem_HVACData
 {
-  CoolSystem_HVACCumulative cData;              //!< Cumulative variables.
-  [[no_unique_address]] CoolSystemData_t tData; //!< Time data (histogram or basic data)
+  CoolSystem_HVACCumulative cData;                   //!< Cumulative variables.
+  [[no_unique_address]] CoolSystem_HVACData_t tData; //!< Time data (histogram or basic data)
 
 public:
   void initialise(CoolSystem_HVAC &cs, double Qac_per_cell); //!< Do nothing.
-- 
2.43.0


From 79f4f9eb0c7d349e21f2b6b0e7b11940b702151a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:08 +0000
Subject: [PATCH 66/81] fix: time data of cooling systems held means since the
 start instead of since the previous sample

---
 src/cooling/data_storage/CoolSystemData.cpp      | 5 +++++
 src/cooling/data_storage/CoolSystem_HVACData.cpp | 3 +++
 2 files changed, 8 insertions(+)

diff --git a/src/cooling/data_storage/CoolSystemData.cpp b/src/cooling/data_storage/CoolSystemData.cpp
index ae89822..158f1f6 100644
--- a/src/cooling/data_storage/CoolSystemData.cpp
+++ b/src/cooling/data_storage/CoolSystemData.cpp
@@ -67,6 +67,11 @@ void CoolSystemData::storeData(CoolSystem &cs, CoolSystemInst_t &data)
                    cData.Qevac / cData.time, //!< cooling power
                    cData.E / cData.time,     //!< operating energy
                    cs.getFlr() });           //!< flow rate
+
+  //!< reset variables to calculate the mean
+  cData.E = 0;
+  cData.Qevac = 0;
+  cData.time = 0;
 }
 
 //!< ----- writeData ------
diff --git a/src/cooling/data_storage/CoolSystem_HVACData.cpp b/src/cooling/data_storage/CoolSystem_HVACData.cpp
index 39a6afd..fa3cd81 100644
--- a/src/cooling/data_storage/CoolSystem_HVACData.cpp
+++ b/src/cooling/data_storage/CoolSystem_HVACData.cpp
@@ -57,6 +57,9 @@ void CoolSystem_HVACData::storeData(CoolSystem_HVAC &cs, CoolSystem_HVACInst_t &
   const double Eacmean = cData.Eac / cs.coolData.cData.time;
 
   data.push_back({ cs.Q_ac, Eacmean }); //!< flow rate
+
+  //!< reset variables to calculate the mean
+  cData.Eac = 0;
 }
 
 //!< ----- writeData ------
-- 
2.43.0


From 4b6ba713c616071e3660910224923fafd6eaf00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:08 +0000
Subject: [PATCH 67/81] fix: the histogram file of a cooling system held the
 energy since the last sample as its total operating energy

---
 src/cooling/data_storage/CoolSystemData.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cooling/data_storage/CoolSystemData.cpp b/src/cooling/data_storage/CoolSystemData.cpp
index 158f1f6..e49f5cb 100644
--- a/src/cooling/data_storage/CoolSystemData.cpp
+++ b/src/cooling/data_storage/CoolSystemData.cpp
@@ -105,7 +105,7 @@ void CoolSystemData::writeData(CoolSystem &cs, const std::string &prefix, CoolSy
   auto file = openFile(prefix);
   //!< write the number of cells and the total operating energy [J]
   file << cs.Ncells << '\n';
-  file << cData.E << '\n';
+  file << cData.Eoperate << '\n';
   file << "\n\n";
 
   file << data.T << '\n'
-- 
2.43.0


From d59beb069b78d10f8c664e364fd35afcd27c023c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:27 +0000
Subject: [PATCH 68/81] fix: modules which store data never counted their
 charge and energy throughput and time

The counters were also left uninitialised.
---
 src/modules/Module.hpp   | 12 +++++++++++-
 src/modules/Module_p.cpp |  3 +++
 src/modules/Module_s.cpp |  2 ++
 3 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/modules/Module.hpp b/src/modules/Module.hpp
index 8413d33..5fd306d 100644
--- a/src/modules/Module.hpp
+++ b/src/modules/Module.hpp
@@ -55,7 +55,7 @@ protected:
   bool par{ true };            //!< if true, some functions will be calculated parallel using multithreaded computing
                                //!< data storage
 
-  State<0, settings::data::N_CumulativeModule> st_module;
+  State<0, settings::data::N_CumulativeModule> st_module{}; //!< cumulative throughput and time
   std::vector<double> data; //!< Time data
 
 
@@ -75,6 +75,16 @@ protected:
       SU->setParent(this);
   }
 
+  void updateThroughput(double Ibefore, double time) //!< account for having carried the current Ibefore [A] for a time [s]
+  {
+    if constexpr (settings::DATASTORE_MODULE >= settings::moduleDataStorageLevel::storeCumulativeData) {
+      const double dAh = std::abs(Ibefore) * time / 3600.0;
+      st_module.time() += time;
+      st_module.Ah() += dAh;
+      st_module.Wh() += dAh * V();
+    }
+  }
+
   double thermalModel_cell();
   double thermalModel_coupled(int Nneighbours, double Tneighbours[], double Kneighbours[], double Aneighb[], double tim);
 
diff --git a/src/modules/Module_p.cpp b/src/modules/Module_p.cpp
index 9dba54a..3fbf5c4 100644
--- a/src/modules/Module_p.cpp
+++ b/src/modules/Module_p.cpp
@@ -289,6 +289,7 @@ void Module_p::timeStep_CC(double dt, int nstep)
   }
 
   //!< we simply take one CC time step on every cell
+  const double Ibefore = I(); //!< current of the time step
   auto task_indv = [&](int i) { SUs[i]->timeStep_CC(dt, nstep); };
 
   try {
@@ -361,6 +362,8 @@ void Module_p::timeStep_CC(double dt, int nstep)
     status = redistributeCurrent(false, true); //!< don't check the currents
     if (status != Status::Success) throw 100000; //!< #TODO
   }
+
+  updateThroughput(Ibefore, nstep * dt);
 }
 
 } // namespace slide
\ No newline at end of file
diff --git a/src/modules/Module_s.cpp b/src/modules/Module_s.cpp
index 5b7a31b..6122341 100644
--- a/src/modules/Module_s.cpp
+++ b/src/modules/Module_s.cpp
@@ -133,6 +133,7 @@ void Module_s::timeStep_CC(double dt, int nstep)
   }
 
   //!< we simply take one CC time step on every cell
+  const double Ibefore = I(); //!< current of the time step
   auto task_indv = [&](int i) { SUs[i]->timeStep_CC(dt, nstep); };
 
   try {
@@ -190,6 +191,7 @@ setT(thermalModel(1, Tneigh, Kneigh, Aneigh, therm.time));*/
   }
 
   Vmodule_valid = false; //!< we have changed the SOC/concnetration, so the stored voltage is no longer valid
+  updateThroughput(Ibefore, nstep * dt);
 }
 
 } // namespace slide
\ No newline at end of file
-- 
2.43.0


From 4025491e27e148881f50f079e42a6ae3b146506a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:08 +0000
Subject: [PATCH 69/81] fix: after one child was refused a temperature, the
 others refused later time steps because of their time keeping

---
 src/modules/Module.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/modules/Module.cpp b/src/modules/Module.cpp
index 97b1e44..1e2b46f 100644
--- a/src/modules/Module.cpp
+++ b/src/modules/Module.cpp
@@ -312,6 +312,7 @@ double Module::thermalModel_cell()
   double tim = 0;
 
   //!< calculate cells' temperature
+  int err = 0; //!< first error of a child SU, thrown on after all of them have done this period
   for (size_t i = 0; i < getNSUs(); i++) {
     try {
       Tnew[i] = SUs[i]->thermalModel(3, Tsu, Ksu, Asu, tim);
@@ -319,9 +320,10 @@ double Module::thermalModel_cell()
       if constexpr (settings::printBool::printCrit)
         std::cout << "Error in module " << getFullID() << " when calculating the thermal balance of child SU "
                   << i << ", error " << e << ". throwing it on.\n";
-      throw e;
+      if (err == 0) err = e;
     }
   }
+  if (err != 0) throw err;
 
   //!< Set all the new temperatures to the children
   for (size_t i = 0; i < getNSUs(); i++)
@@ -378,6 +380,7 @@ double Module::thermalModel_coupled(int Nneighbours, double Tneighbours[], doubl
     Asu[0] = therm.A;
 
     //!< Loop to cool each child SU
+    int err = 0; //!< first error of a child SU, thrown on after all of them have done this period, else their time keeping differs
     for (size_t i = 0; i < getNSUs(); i++) {
 
       //!< left cell
@@ -409,9 +412,10 @@ double Module::thermalModel_coupled(int Nneighbours, double Tneighbours[], doubl
         if constexpr (settings::printBool::printCrit)
           std::cout << "Error in module " << getFullID() << " when calculating the thermal balance of child SU "
                     << i << ", error " << e << ". throwing it on.\n";
-        throw e;
+        if (err == 0) err = e;
       }
     }
+    if (err != 0) throw err;
 
     //!< The cooling fluid in the module heats up from cooling all cells
     double Etot = 0;
-- 
2.43.0


From 1a1b06aceed25f08d7425b46e5cb11a76f0ad948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:01 +0000
Subject: [PATCH 70/81] fix: after its OCV curves or characterisation
 parameters were changed, a cell reported the voltage of the old ones

---
 src/cells/Cell_SPM/Cell_SPM_fitting.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cells/Cell_SPM/Cell_SPM_fitting.cpp b/src/cells/Cell_SPM/Cell_SPM_fitting.cpp
index e7c32e6..656fda1 100644
--- a/src/cells/Cell_SPM/Cell_SPM_fitting.cpp
+++ b/src/cells/Cell_SPM/Cell_SPM_fitting.cpp
@@ -218,6 +218,8 @@ void Cell_SPM::setOCVcurve(const std::string &namepos, const std::string &namene
    *
    */
 
+  Vcell_valid = false; //!< the stored voltage was calculated with the old curves
+
   //!< Store the OCV curves
   try {
     OCV_curves.OCV_neg.setCurve(PathVar::data / nameneg); //!< the OCV curve of the anode, the first column gives the lithium fractions (increasing), the 2nd column gives the OCV vs li/li+
@@ -307,6 +309,8 @@ void Cell_SPM::setCharacterisationParam(double Dp, double Dn, double kpi, double
 
   //!< overwrite the cycling related parameters
   overwriteCharacterisationStates(Dp, Dn, r);
+
+  Vcell_valid = false;
 }
 
 //!< void Cell_SPM::setRamping(double Istep, double tstep)
-- 
2.43.0


From db1ad8f0da444d903238bb9dabd39f299f6b9cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:08 +0000
Subject: [PATCH 71/81] fix: the name of an ageing setting without loss of
 active material had a stray dash

---
 src/cells/Cell_SPM/param/DEG_ID.hpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/cells/Cell_SPM/param/DEG_ID.hpp b/src/cells/Cell_SPM/param/DEG_ID.hpp
index 3f39109..b6b60fa 100644
--- a/src/cells/Cell_SPM/param/DEG_ID.hpp
+++ b/src/cells/Cell_SPM/param/DEG_ID.hpp
@@ -142,10 +142,7 @@ struct DEG_ID
         id += std::to_string(lam_id) + '-';
 
     // Mechanism separator
-    if (LAM_id.empty())
-      id += '_';
-    else
-      id.back() = '_'; // If LAM_id is not empty then it will print an extra '-' therefore we need to replace it with mechanism separator.
+    id.back() = '_'; // There is an extra '-' at the end therefore we need to replace it with mechanism separator.
 
     // Print plating model
     id += std::to_string(pl_id);
-- 
2.43.0


From f9c89878eccbb767e03aa5cb3054ab346cbca30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:10 +0000
Subject: [PATCH 72/81] fix: the norm of a vector could not be computed, and
 negative elements cancelled in odd norms

---
 src/utility/slide_aux.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utility/slide_aux.hpp b/src/utility/slide_aux.hpp
index c9a28c6..286dc1d 100644
--- a/src/utility/slide_aux.hpp
+++ b/src/utility/slide_aux.hpp
@@ -46,7 +46,7 @@ double norm_sq(const T &x)
   else {
     double sum = 0;
     for (const auto &x_i : x)
-      sum += std::pow(x_i, N);
+      sum += std::pow(std::abs(x_i), N);
 
     return sum;
   }
@@ -56,7 +56,7 @@ double norm_sq(const T &x)
 template <int N, typename T> //!< Takes vector or array:
 double norm(const T &x)
 {
-  const double norm_square = norm_sq(x);
+  const double norm_square = norm_sq<N>(x);
 
   if (N < 2)
     return norm_square;
-- 
2.43.0


From bb55e82710ac52c789b27632768c5bc58e07dd3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:16 +0000
Subject: [PATCH 73/81] fix: the MCMC header could not be compiled on its own,
 and of its outputs only the first could be read

---
 src/optimisation/MCMC.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/optimisation/MCMC.hpp b/src/optimisation/MCMC.hpp
index 659fca1..fff8cc9 100644
--- a/src/optimisation/MCMC.hpp
+++ b/src/optimisation/MCMC.hpp
@@ -18,8 +18,16 @@
 
 #pragma once
 
-#include <cstdlib>
+#include "../settings/settings.hpp"
+#include "../types/matrix.hpp"
+#include "../utility/slide_aux.hpp"
+
 #include <array>
+#include <cmath>
+#include <cstdlib>
+#include <iostream>
+#include <utility>
+#include <vector>
 
 namespace slide {
 template <size_t N>
@@ -68,7 +76,7 @@ struct MCMC_Input
   {
     if (i < N_PARAM)
       return param[i];
-    else if (i == N_PARAM)
+    else if (i < N_PARAM + N_OUTPUT)
       return logR[i - N_PARAM];
     else {
       std::cout << "THIS SHOULD NOT HAPPEN out of bounds for MCMC_Input.\n";
@@ -80,7 +88,7 @@ struct MCMC_Input
   {
     if (i < N_PARAM)
       return param[i];
-    else if (i == N_PARAM)
+    else if (i < N_PARAM + N_OUTPUT)
       return logR[i - N_PARAM];
     else {
       std::cout << "THIS SHOULD NOT HAPPEN out of bounds for MCMC_Input.\n";
-- 
2.43.0


From 75888497ba7a166f9d78f35ff4da150744618042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:56 +0000
Subject: [PATCH 74/81] fix: a parallel loop did nothing if the number of
 hardware threads was not known

---
 src/utility/parallelisation.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/utility/parallelisation.hpp b/src/utility/parallelisation.hpp
index 51b7e1f..faa4272 100644
--- a/src/utility/parallelisation.hpp
+++ b/src/utility/parallelisation.hpp
@@ -33,10 +33,12 @@ void run(Tfun task_indv, int i_end, unsigned int numMaxParallelWorkers = setting
     if (numMaxParallelWorkers == 1)
       task_par(0, i_end, 1);
     else {
+      const unsigned int N_hardware = std::max(1u, std::thread::hardware_concurrency()); //!< 0 if it is not known
+
       if (numMaxParallelWorkers < 1)
-        numMaxParallelWorkers = std::thread::hardware_concurrency();
+        numMaxParallelWorkers = N_hardware;
 
-      const unsigned int N_th_max = std::min(numMaxParallelWorkers, std::thread::hardware_concurrency());
+      const unsigned int N_th_max = std::min(numMaxParallelWorkers, N_hardware);
 
       std::vector<std::thread> threads;
       threads.reserve(N_th_max);
-- 
2.43.0


From 15bdece0d1b156e800b419669c8be964f444598d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:56 +0000
Subject: [PATCH 75/81] fix: a parallel loop ended the program if the system
 could not start another thread

---
 src/utility/parallelisation.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/utility/parallelisation.hpp b/src/utility/parallelisation.hpp
index faa4272..5282963 100644
--- a/src/utility/parallelisation.hpp
+++ b/src/utility/parallelisation.hpp
@@ -13,6 +13,7 @@
 #include "../settings/settings.hpp"
 
 #include <exception>
+#include <system_error>
 #include <thread>
 #include <vector>
 
@@ -48,14 +49,19 @@ void run(Tfun task_indv, int i_end, unsigned int numMaxParallelWorkers = setting
       for (unsigned int i_begin = 0; i_begin < N_th_max; i_begin++) //!< indices for the threads
       {
         //!< Multi threaded simul:
-
-        threads.emplace_back([&, i_begin] {
+        auto work = [&, i_begin] {
           try {
             task_par(i_begin, i_end, N_th_max);
           } catch (...) {
             errors[i_begin] = std::current_exception();
           }
-        });
+        };
+
+        try {
+          threads.emplace_back(work);
+        } catch (const std::system_error &) { //!< the system has no more threads, so do it here
+          work();
+        }
       }
 
       for (auto &th : threads) {
-- 
2.43.0


From 717608f62d1c781511b6f47240cd861a854d084a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:56 +0000
Subject: [PATCH 76/81] fix: interpolation in an empty table read outside of it

---
 src/utility/interpolation.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/utility/interpolation.hpp b/src/utility/interpolation.hpp
index ea19995..e46576f 100644
--- a/src/utility/interpolation.hpp
+++ b/src/utility/interpolation.hpp
@@ -40,11 +40,16 @@ auto linInt_noexcept(bool bound, Tx &xdat, Ty &ydat, int nin, double x, bool is_
    *
    * OUT
    * y 		y value corresponding to x
-   * status     0 if successful, 1 if x>first and -1 if x < last
+   * status     0 if successful, 1 if x>first and -1 if x < last or there are no data points
    */
 
   double yy{ 0.0 }; //!< Some programs depend on 0.0 initial condition when status != 0, do not change.
   int status = 0;   //!< Set the status as inverse of bound. So that first two branches of if are invalid if bound is true.
+  if (nin < 1) { //!< there are no data points, thus no closest one either
+    status = -1;
+    return std::make_pair(yy, status);
+  }
+
   //!< check that x is within the limits of the data points
 
   if (bound) {
@@ -119,12 +124,15 @@ double linInt(bool verbose, bool bound, Tx &xdat, Ty &ydat, int nin, double x, b
    * THROWS
    * 1 		if bound = true && if x is out of bounds, i.e. smaller than the smallest value of xdat or larger than the largest value of xdat
    * 				i.e. bound AND (x < xdat [0] OR x > xdat[end])
+   * 		1 		if there are no data points
    */
 
   auto [yy, status] = linInt_noexcept(bound, xdat, ydat, nin, x, is_fixed);
 
   if (status) {
-    if (verbose)
+    if (verbose && nin < 1)
+      std::cerr << "ERROR in Interpolation::linInt: there are no data points.\n";
+    else if (verbose)
       std::cerr << "ERROR in Interpolation::linInt: x is out of bounds. x = " << x << " while xmin = " << xdat[0] << " and xmax is " << xdat[nin - 1] << ".\n";
     throw 1;
   }
-- 
2.43.0


From f5283610a1852a4eb728114369f1535867c7c5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:35 +0000
Subject: [PATCH 77/81] fix: a cooling system made without a number of cells
 had a negative heat transfer coefficient

---
 src/cooling/CoolSystem.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cooling/CoolSystem.cpp b/src/cooling/CoolSystem.cpp
index acf30fb..b083fbc 100644
--- a/src/cooling/CoolSystem.cpp
+++ b/src/cooling/CoolSystem.cpp
@@ -66,6 +66,7 @@ CoolSystem::CoolSystem()
   constexpr auto n_modules = settings::MODULE_NSUs_MAX; //!< Because we do not know number of modules.
 
   flowrate = settings::cool::flowrate_perCell * n_modules; //!< #TODO Why multiply with Module NSUs_MAX;
+  Across *= n_modules;                                     //!< else the flow speed is out of the range for which getH() is valid
   fluid_V = V_perCell * n_modules;
   control_strategy = 1;                      //!< #TODO -> magic number to enum.
   control_onoff_Ton = PhyConst::Kelvin + 35; //!< on/off control: go on at 35 degrees
-- 
2.43.0


From 20a5e3637d1c86518de04ef3f93371dfc997594c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:16 +0000
Subject: [PATCH 78/81] fix: states written to a file ran into each other

---
 src/utility/util.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/utility/util.hpp b/src/utility/util.hpp
index 2f01ce4..1958f1d 100644
--- a/src/utility/util.hpp
+++ b/src/utility/util.hpp
@@ -22,6 +22,7 @@
 
 
 #include <string>
+#include <fstream>
 #include <iostream>
 #include <array>
 #include <vector>
@@ -45,6 +46,7 @@ void output_printer(const std::vector<T> &vec, const auto &save_path)
       if (i != 0) out_file << ',';
       out_file << state[i];
     }
+    out_file << '\n';
   }
 
   out_file.close();
-- 
2.43.0


From da6986cab4511f44fc3d63500280fadb52dcb9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:11 +0000
Subject: [PATCH 79/81] fix: the current of the parallel resistance of a cell
 without one was read outside of its states

---
 src/cells/Cell_ECM/Cell_ECM.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/cells/Cell_ECM/Cell_ECM.hpp b/src/cells/Cell_ECM/Cell_ECM.hpp
index c49c24e..02aef7d 100644
--- a/src/cells/Cell_ECM/Cell_ECM.hpp
+++ b/src/cells/Cell_ECM/Cell_ECM.hpp
@@ -58,7 +58,13 @@ public:
   Cell_ECM(std::string IDi) : Cell_ECM() { ID = std::move(IDi); }
 
   inline double I() const override { return st.I(); }
-  inline double getIr() { return st.Ir(); } //!< current through the parallel resistance
+  inline double getIr() //!< current through the (first) parallel resistance, 0 if there is none
+  {
+    if constexpr (N_RC > 0)
+      return st.Ir();
+    else
+      return 0;
+  }
   inline double SOC() override { return st.SOC(); }
   inline double T() override { return st.T(); }
 
-- 
2.43.0


From 50dd3825176740d506fb3923aa103d366f4885bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:29 +0000
Subject: [PATCH 80/81] fix: a stop at the safety limits was reported as an
 unknown status

The messages of the statuses had none for the two which a cycler returns when it
stops at the safety limits.
---
 src/types/Status.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/types/Status.hpp b/src/types/Status.hpp
index ba21336..76e6d9f 100644
--- a/src/types/Status.hpp
+++ b/src/types/Status.hpp
@@ -73,6 +73,10 @@ inline const char *getStatusMessage(Status status)
     return "Vmax is violated!";
   case Status::VMAX_violation:
     return "VMAX is violated!";
+  case Status::VMINsafety_violation:
+    return "The lower safety limit of the voltage is violated!";
+  case Status::VMAXsafety_violation:
+    return "The upper safety limit of the voltage is violated!";
   case Status::V_not_calculated:
     return "V could not be calculated at all!";
   case Status::SOC_limits_violation:
-- 
2.43.0


From 43c182b1333c37366eb8db781de52100532c0617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:59 +0000
Subject: [PATCH 81/81] fix: a parallel module refused currents which one of
 its members could not carry before the redistribution

Module_p::setCurrent checked the voltages of its members when the change of the
current was still distributed equally, and in every step on the way to equal
voltages. A module of uneven members, e.g. a large module next to a single cell,
refused currents it can carry. The voltages are now checked after the redistribution.
---
 src/modules/Module_p.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/modules/Module_p.cpp b/src/modules/Module_p.cpp
index 3fbf5c4..19f23a9 100644
--- a/src/modules/Module_p.cpp
+++ b/src/modules/Module_p.cpp
@@ -118,10 +118,10 @@ Status Module_p::solveCurrents(double target, bool isVoltage, bool checkV, bool
 
   //!< set the current of SU i, or one in between its old current and the new one if there is no voltage at the new one.
   auto trySetCurrent = [&](size_t i, double Iold, double Inew) {
-    auto status = SUs[i]->setCurrent(Inew, checkV, print);
+    auto status = SUs[i]->setCurrent(Inew, false, print);
     for (int k{ 0 }; k < 20 && !isStatusBad(status) && !hasVoltage(SUs[i]->V()); k++) {
       Inew = k < 19 ? (Inew + Iold) / 2 : Iold;
-      status = SUs[i]->setCurrent(Inew, checkV, print);
+      status = SUs[i]->setCurrent(Inew, false, print);
     }
     return status;
   };
@@ -198,6 +198,14 @@ Status Module_p::solveCurrents(double target, bool isVoltage, bool checkV, bool
   if constexpr (settings::printNumIterations)
     if (iter != 0) std::cout << "solveCurrents iterations: " << iter << '\n';
 
+  for (size_t i{}; checkV && i < nSU && StatusNow == Status::Success; i++) { //!< not earlier, other currents may be tried on the way to the solution
+    const auto status = SUs[i]->setCurrent(SUs[i]->I(), true, print);
+    if (isStatusBad(status)) {
+      StatusRefused = status;
+      StatusNow = status;
+    }
+  }
+
   if (StatusNow != Status::Success) { // Restore the old currents if the target could not be reached.
     for (size_t i{}; i < nSU; i++)
       SUs[i]->setCurrent(Iolds[i], false, false);
@@ -256,7 +264,7 @@ Status Module_p::setCurrent(double Inew, bool checkV, bool print)
   auto StatusNow = Status::Success;
 
   for (size_t i{}; i < SUs.size() && isStatusOK(StatusNow); i++)
-    StatusNow = SUs[i]->setCurrent(Iolds[i] + dI, checkV, print); // #TODO worse status should be here.
+    StatusNow = SUs[i]->setCurrent(Iolds[i] + dI, false, print); //!< the voltages are checked after the redistribution
 
   if (isStatusOK(StatusNow))
     StatusNow = solveCurrents(Inew, false, checkV, print);
-- 
2.43.0

