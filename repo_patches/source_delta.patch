From 67a7bfebd997cab3cb0a0785fea40e98f8643527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:39 +0000
Subject: [PATCH 01/51] fix: move crystal atoms to the unit cell also without
 symmetry operations

The bond generator assumes that all atoms are in the unit cell and lost
some bonds of outside atoms in CrystalStructureAdapter with no symops.
---
 src/diffpy/srreal/CrystalStructureAdapter.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srreal/CrystalStructureAdapter.cpp b/src/diffpy/srreal/CrystalStructureAdapter.cpp
index 9db5f0d..ee1d2d8 100644
--- a/src/diffpy/srreal/CrystalStructureAdapter.cpp
+++ b/src/diffpy/srreal/CrystalStructureAdapter.cpp
@@ -194,7 +194,8 @@ CrystalStructureAdapter::expandLatticeAtom(const Atom& a0) const
         eqsumpos.push_back(a0.xyz_cartn);
         eqduplicity.push_back(1);
     }
-    // calculate mean values from equivalent sites and adjust any roundoffs
+    // calculate mean values from equivalent sites and adjust any roundoffs.
+    // make sure the final positions are inside the unit cell.
     assert(eqsites.size() == eqduplicity.size());
     assert(eqsites.size() == eqsumpos.size());
     iterator ai = eqsites.begin();
@@ -202,7 +203,7 @@ CrystalStructureAdapter::expandLatticeAtom(const Atom& a0) const
     vector<int>::const_iterator dpi = eqduplicity.begin();
     for (; ai != eqsites.end(); ++ai, ++sii, ++dpi)
     {
-        ai->xyz_cartn = (*sii) / (*dpi);
+        ai->xyz_cartn = L.ucvFractional((*sii) / (*dpi));
     }
     return eqsites;
 }
-- 
2.43.0


From ef6c0e548e12b4a76f863ccc8fd311cc0da54e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:39 +0000
Subject: [PATCH 02/51] fix: average symmetry positions across the unit cell
 boundary

Coinciding symmetry images on opposite sides of the cell boundary, e.g., at
x = +1e-6 and x = -1e-6, were averaged to 0.5.
---
 src/diffpy/srreal/CrystalStructureAdapter.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srreal/CrystalStructureAdapter.cpp b/src/diffpy/srreal/CrystalStructureAdapter.cpp
index ee1d2d8..cdf2f25 100644
--- a/src/diffpy/srreal/CrystalStructureAdapter.cpp
+++ b/src/diffpy/srreal/CrystalStructureAdapter.cpp
@@ -181,7 +181,11 @@ CrystalStructureAdapter::expandLatticeAtom(const Atom& a0) const
             eqduplicity.push_back(0);
             ieq = eqsites.size() - 1;
         }
-        eqsumpos[ieq] += L.ucvFractional(a1.xyz_cartn);
+        // average the periodic images that are nearest to the first site,
+        // equal positions may be split by the unit cell boundary.
+        R3::Vector dxyz = a1.xyz_cartn - eqsites[ieq].xyz_cartn;
+        for (int i = 0; i < R3::Ndim; ++i)  dxyz[i] -= round(dxyz[i]);
+        eqsumpos[ieq] += eqsites[ieq].xyz_cartn + dxyz;
         eqduplicity[ieq] += 1;
     }
     // assume P1 if symmetry operations were not defined
-- 
2.43.0


From 057357952c7f3efa18ff837c7113de43efe0cb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:33 +0000
Subject: [PATCH 03/51] fix: use Uij of the anchor image in
 CrystalStructureBondGenerator

The anchor atom is placed at its first symmetry image, however its Uij was
taken from the asymmetric unit.  Bond msd was wrong when the first symmetry
operation was not an identity.
---
 src/diffpy/srreal/CrystalStructureAdapter.cpp | 8 ++++++++
 src/diffpy/srreal/CrystalStructureAdapter.hpp | 2 ++
 2 files changed, 10 insertions(+)

diff --git a/src/diffpy/srreal/CrystalStructureAdapter.cpp b/src/diffpy/srreal/CrystalStructureAdapter.cpp
index cdf2f25..35a8972 100644
--- a/src/diffpy/srreal/CrystalStructureAdapter.cpp
+++ b/src/diffpy/srreal/CrystalStructureAdapter.cpp
@@ -294,6 +294,7 @@ CrystalStructureBondGenerator::CrystalStructureBondGenerator(
     mcstructure = dynamic_cast<const CrystalStructureAdapter*>(adpt.get());
     assert(mcstructure);
     msymidx = 0;
+    mpuc0 = &(R3::zeromatrix());
     mpuc1 = &(R3::zeromatrix());
 }
 
@@ -304,6 +305,13 @@ void CrystalStructureBondGenerator::selectAnchorSite(int anchor)
     this->BaseBondGenerator::selectAnchorSite(anchor);
     const Atom& a0 = this->symatoms(anchor)[0];
     mr0 = a0.xyz_cartn;
+    mpuc0 = &(a0.uij_cartn);
+}
+
+
+const R3::Matrix& CrystalStructureBondGenerator::Ucartesian0() const
+{
+    return *mpuc0;
 }
 
 
diff --git a/src/diffpy/srreal/CrystalStructureAdapter.hpp b/src/diffpy/srreal/CrystalStructureAdapter.hpp
index 5664581..5783ad3 100644
--- a/src/diffpy/srreal/CrystalStructureAdapter.hpp
+++ b/src/diffpy/srreal/CrystalStructureAdapter.hpp
@@ -148,6 +148,7 @@ class CrystalStructureBondGenerator : public PeriodicStructureBondGenerator
         virtual void selectAnchorSite(int);
 
         // data access
+        virtual const R3::Matrix& Ucartesian0() const;
         virtual const R3::Matrix& Ucartesian1() const;
 
     protected:
@@ -161,6 +162,7 @@ class CrystalStructureBondGenerator : public PeriodicStructureBondGenerator
         // data
         const CrystalStructureAdapter* mcstructure;
         size_t msymidx;
+        const R3::Matrix* mpuc0;
         const R3::Matrix* mpuc1;
 
     private:
-- 
2.43.0


From 8cc0c319e465629784449478fbdfe2463d29a294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:29 +0000
Subject: [PATCH 04/51] fix: drop partial value in OPTIMIZED evaluator when it
 no longer applies

---
 src/diffpy/srreal/PQEvaluator.cpp  | 12 +++++++++++-
 src/diffpy/srreal/PQEvaluator.hpp  | 11 ++++++++---
 src/diffpy/srreal/PairQuantity.cpp |  2 ++
 3 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/diffpy/srreal/PQEvaluator.cpp b/src/diffpy/srreal/PQEvaluator.cpp
index 7187405..afdb924 100644
--- a/src/diffpy/srreal/PQEvaluator.cpp
+++ b/src/diffpy/srreal/PQEvaluator.cpp
@@ -149,6 +149,8 @@ void PQEvaluatorBasic::setupParallelRun(int cpuindex, int ncpu)
         const char* emsg = "Number of CPU ncpu must be at least 1.";
         throw invalid_argument(emsg);
     }
+    // partial results were evaluated for a different share of the pairs
+    if (mcpuindex != cpuindex || mncpu != ncpu)  this->invalidate();
     mcpuindex = cpuindex;
     mncpu = ncpu;
 }
@@ -177,6 +179,12 @@ void PQEvaluatorOptimized::validate(PairQuantity& pq) const
 }
 
 
+void PQEvaluatorOptimized::invalidate()
+{
+    mlast_structure.reset();
+}
+
+
 void PQEvaluatorOptimized::updateValue(
         PairQuantity& pq, StructureAdapterPtr stru)
 {
@@ -200,6 +208,8 @@ void PQEvaluatorOptimized::updateValue(
     }
     // Remove contributions from the extra sites in the old structure
     assert(sd.stru0 == mlast_structure);
+    // the value is not valid for mlast_structure until the update is finished
+    this->invalidate();
     int cntsites0 = sd.stru0->countSites();
     BaseBondGeneratorPtr bnds0 = sd.stru0->createBondGenerator();
     pq.configureBondGenerator(*bnds0);
@@ -418,7 +428,7 @@ void PQEvaluatorCheck::updateValue(
     this->PQEvaluatorOptimized::updateValue(pq, stru);
     if (mtypeused == BASIC)  return;
     unique_ptr<pqresults> results(create_pqresults(pq));
-    this->PQEvaluatorBasic::updateValue(pq, stru);
+    this->updateValueCompletely(pq, stru);
     mtypeused = CHECK;
     if (!results->compare(pq))
     {
diff --git a/src/diffpy/srreal/PQEvaluator.hpp b/src/diffpy/srreal/PQEvaluator.hpp
index 8fa5f22..e0cd32a 100644
--- a/src/diffpy/srreal/PQEvaluator.hpp
+++ b/src/diffpy/srreal/PQEvaluator.hpp
@@ -66,6 +66,8 @@ class PQEvaluatorBasic
         PQEvaluatorType typeintused() const;
         virtual void updateValue(PairQuantity&, StructureAdapterPtr);
         virtual void validate(PairQuantity&) const;
+        /// forget any partial results from the previous evaluation
+        virtual void invalidate()  { }
         void setFlag(PQEvaluatorFlag flag, bool value);
         bool getFlag(PQEvaluatorFlag flag) const;
         void setupParallelRun(int cpuindex, int ncpu);
@@ -105,16 +107,19 @@ class PQEvaluatorOptimized : public PQEvaluatorBasic
         // methods
         virtual PQEvaluatorType typeint() const;
         virtual void validate(PairQuantity&) const;
+        virtual void invalidate();
         virtual void updateValue(PairQuantity&, StructureAdapterPtr);
 
+    protected:
+
+        // helper method
+        void updateValueCompletely(PairQuantity&, StructureAdapterPtr);
+
     private:
 
         // data
         StructureAdapterPtr mlast_structure;
 
-        // helper method
-        void updateValueCompletely(PairQuantity&, StructureAdapterPtr);
-
         // serialization
         friend class boost::serialization::access;
         template<class Archive>
diff --git a/src/diffpy/srreal/PairQuantity.cpp b/src/diffpy/srreal/PairQuantity.cpp
index b525b54..1781c37 100644
--- a/src/diffpy/srreal/PairQuantity.cpp
+++ b/src/diffpy/srreal/PairQuantity.cpp
@@ -100,6 +100,7 @@ void PairQuantity::mergeParallelData(const string& pdata, int ncpu)
         const char* emsg = "Number of merged values exceeds NCPU.";
         throw runtime_error(emsg);
     }
+    mevaluator->invalidate();
     this->executeParallelMerge(pdata);
     ++mmergedvaluescount;
     if (mmergedvaluescount == ncpu)  this->finishValue();
@@ -347,6 +348,7 @@ void PairQuantity::resizeValue(size_t sz)
 
 void PairQuantity::resetValue()
 {
+    if (mevaluator)  mevaluator->invalidate();
     mmergedvaluescount = 0;
     fill(mvalue.begin(), mvalue.end(), 0.0);
 }
-- 
2.43.0


From db1afb2db3fe428ada273c791216318052f1417c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:51 +0000
Subject: [PATCH 05/51] fix: report complete change for structure adapters of
 different type

---
 src/diffpy/srreal/AtomicStructureAdapter.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/diffpy/srreal/AtomicStructureAdapter.cpp b/src/diffpy/srreal/AtomicStructureAdapter.cpp
index ac5a019..d415be3 100644
--- a/src/diffpy/srreal/AtomicStructureAdapter.cpp
+++ b/src/diffpy/srreal/AtomicStructureAdapter.cpp
@@ -19,6 +19,7 @@
 
 #include <cassert>
 #include <algorithm>
+#include <typeinfo>
 #include <boost/functional/hash.hpp>
 
 #include <diffpy/serialization.ipp>
@@ -173,6 +174,8 @@ AtomicStructureAdapter::diff(StructureAdapterConstPtr other) const
     typedef boost::shared_ptr<const class AtomicStructureAdapter> APtr;
     APtr pother = boost::dynamic_pointer_cast<APtr::element_type>(other);
     if (!pother)  return sd;
+    // equal atoms have different pairs in adapters of different types
+    if (typeid(*this) != typeid(*pother))  return sd;
     // try fast side-by-side comparison
     sd.diffmethod = StructureDifference::Method::SIDEBYSIDE;
     const AtomicStructureAdapter& astru0 = *this;
-- 
2.43.0


From 887b2def3e1774c35cf4a1fc97e95e2aee868b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:51 +0000
Subject: [PATCH 06/51] fix: drop partial value in OPTIMIZED evaluator when
 setStructure fails

---
 src/diffpy/srreal/PairQuantity.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/diffpy/srreal/PairQuantity.cpp b/src/diffpy/srreal/PairQuantity.cpp
index 1781c37..9604c26 100644
--- a/src/diffpy/srreal/PairQuantity.cpp
+++ b/src/diffpy/srreal/PairQuantity.cpp
@@ -68,6 +68,8 @@ const QuantityType& PairQuantity::eval(StructureAdapterPtr stru)
 
 void PairQuantity::setStructure(StructureAdapterPtr stru)
 {
+    // resetValue overloads may fail before the value is reset
+    mevaluator->invalidate();
     mstructure = stru.get() ? stru : emptyStructureAdapter();
     mstructure->customPQConfig(this);
     this->updateMaskData();
-- 
2.43.0


From 733f65eb91098b665b7d032dc8c6d37469857339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:47 +0000
Subject: [PATCH 07/51] fix: refresh symmetry positions in crystal after
 in-place atom or lattice change

---
 src/diffpy/srreal/CrystalStructureAdapter.cpp | 13 +++++++++----
 src/diffpy/srreal/CrystalStructureAdapter.hpp |  9 +++++----
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/diffpy/srreal/CrystalStructureAdapter.cpp b/src/diffpy/srreal/CrystalStructureAdapter.cpp
index 35a8972..6bed933 100644
--- a/src/diffpy/srreal/CrystalStructureAdapter.cpp
+++ b/src/diffpy/srreal/CrystalStructureAdapter.cpp
@@ -69,7 +69,7 @@ BaseBondGeneratorPtr CrystalStructureAdapter::createBondGenerator() const
 
 int CrystalStructureAdapter::siteMultiplicity(int idx) const
 {
-    if (!this->isSymmetryCached())  this->updateSymmetryPositions();
+    if (!this->isSymmetryCached(idx))  this->updateSymmetryPositions();
     int rv = msymatoms[idx].size();
     return rv;
 }
@@ -147,7 +147,7 @@ const CrystalStructureAdapter::AtomVector&
 CrystalStructureAdapter::getEquivalentAtoms(int idx) const
 {
     assert(0 <= idx && idx < this->countSites());
-    if (!this->isSymmetryCached())  this->updateSymmetryPositions();
+    if (!this->isSymmetryCached(idx))  this->updateSymmetryPositions();
     return msymatoms[idx];
 }
 
@@ -230,6 +230,8 @@ void CrystalStructureAdapter::updateSymmetryPositions() const
         iterator ai = saii->begin();
         for (; ai != saii->end(); ++ai)  this->toCartesian(*ai);
     }
+    msymsource.assign(this->begin(), this->end());
+    msymlattice = this->getLattice();
     msymmetry_cached = true;
 }
 
@@ -253,10 +255,13 @@ int CrystalStructureAdapter::findEqualPosition(
     return -1;
 }
 
-bool CrystalStructureAdapter::isSymmetryCached() const
+bool CrystalStructureAdapter::isSymmetryCached(int idx) const
 {
+    const size_t n = this->countSites();
     msymmetry_cached = msymmetry_cached &&
-        (int(msymatoms.size()) == this->countSites());
+        (msymatoms.size() == n) && (msymsource.size() == n) &&
+        (msymlattice == this->getLattice()) &&
+        (msymsource[idx] == this->at(idx));
     return msymmetry_cached;
 }
 
diff --git a/src/diffpy/srreal/CrystalStructureAdapter.hpp b/src/diffpy/srreal/CrystalStructureAdapter.hpp
index 5783ad3..28d2f79 100644
--- a/src/diffpy/srreal/CrystalStructureAdapter.hpp
+++ b/src/diffpy/srreal/CrystalStructureAdapter.hpp
@@ -101,14 +101,15 @@ class CrystalStructureAdapter : public PeriodicStructureAdapter
         double msymmetry_precision;
         mutable std::vector<AtomVector> msymatoms;
         mutable bool msymmetry_cached;
+        /// atoms and lattice used for msymatoms
+        mutable AtomVector msymsource;
+        mutable Lattice msymlattice;
 
         // symmetry helpers
         /// return index of AtomVector atom at an equal position or -1
         int findEqualPosition(const AtomVector&, const Atom&) const;
-        /// fuzzy check if symmetry positions are up to date
-        /// this only detects addition or removal of atom in the asymmetric
-        /// unit, but does not check for changes in atom positions.
-        bool isSymmetryCached() const;
+        /// check if symmetry positions of atom idx are up to date
+        bool isSymmetryCached(int idx) const;
 
         // comparison
         friend bool operator==(
-- 
2.43.0


From 21b4d01c091afd4af2cb116280b2da4b332a54e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:20 +0000
Subject: [PATCH 08/51] fix: use actual site occupancies in Debye sums of
 mixed-occupancy types

---
 src/diffpy/srreal/BaseDebyeSum.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srreal/BaseDebyeSum.cpp b/src/diffpy/srreal/BaseDebyeSum.cpp
index e416569..34c6527 100644
--- a/src/diffpy/srreal/BaseDebyeSum.cpp
+++ b/src/diffpy/srreal/BaseDebyeSum.cpp
@@ -234,14 +234,17 @@ void BaseDebyeSum::cacheStructureData()
     int cntsites = this->countSites();
     const int nqpts = pdfutils_qmaxSteps(this);
     QuantityType zeros(nqpts, 0.0);
-    unordered_map<string,int> atomtypeidx;
+    // scattering factors include site occupancy
+    typedef pair<string,double> TypeOccupancy;
+    unordered_map<TypeOccupancy, int, boost::hash<TypeOccupancy> > atomtypeidx;
     // sftypeatkq
     mstructure_cache.typeofsite.clear();
     mstructure_cache.typeofsite.reserve(cntsites);
     mstructure_cache.sftypeatkq.clear();
     for (int siteidx = 0; siteidx < cntsites; ++siteidx)
     {
-        const string& smbl = mstructure->siteAtomType(siteidx);
+        const TypeOccupancy smbl(mstructure->siteAtomType(siteidx),
+                mstructure->siteOccupancy(siteidx));
         if (!atomtypeidx.count(smbl))
         {
             atomtypeidx.insert(make_pair(smbl, int(atomtypeidx.size())));
-- 
2.43.0


From 17212ea578f6c73657c121e4a17c68a2318511c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:20 +0000
Subject: [PATCH 09/51] fix: click ticker when pair range changes in
 DebyePDFCalculator

---
 src/diffpy/srreal/DebyePDFCalculator.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/diffpy/srreal/DebyePDFCalculator.cpp b/src/diffpy/srreal/DebyePDFCalculator.cpp
index d77198e..edea926 100644
--- a/src/diffpy/srreal/DebyePDFCalculator.cpp
+++ b/src/diffpy/srreal/DebyePDFCalculator.cpp
@@ -193,10 +193,14 @@ void DebyePDFCalculator::setRmax(double rmax)
 
 void DebyePDFCalculator::setRstep(double rstep)
 {
-    // NOTE: do not update ticker here, rstep is only used in the FFT
-    // and not in the Debye summation.
+    // NOTE: rstep is only used in the FFT, but range of the Debye summation
+    // is rounded to a multiple of rstep.
     ensureEpsilonPositive("Rstep", rstep);
-    if (mrstep != rstep)  mrlimits_are_cached = false;
+    if (mrstep != rstep)
+    {
+        mticker.click();
+        mrlimits_are_cached = false;
+    }
     mrstep = rstep;
 }
 
@@ -383,12 +387,17 @@ void DebyePDFCalculator::cacheRlimitsData() const
     const double& rmin = this->getRmin();
     const double& rmax = this->getRmax();
     const double& dr = this->getRstep();
+    const int lo0 = mrcalclosteps;
+    const int hi0 = mrcalchisteps;
     mrcalclosteps = max(0, pdfutils_rminSteps(rmin - ext_total, dr));
     const int nhi = pdfutils_rmaxSteps(rmax + ext_total, dr);
     if (nhi <= (mrcalchisteps - minreductionsteps) || nhi > mrcalchisteps)
     {
         mrcalchisteps = nhi;
     }
+    // partial sums are not reusable when range of summed pairs has changed
+    const bool samerange = (lo0 == mrcalclosteps && hi0 == mrcalchisteps);
+    if (!samerange)  mticker.click();
     mrlimits_are_cached = true;
 }
 
-- 
2.43.0


From 9feeb508d9819c93f9e3009b4b4c8fec5867918b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:12 +0000
Subject: [PATCH 10/51] fix: keep bonds of BondCalculator in repeated and
 single-process parallel runs

---
 src/diffpy/srreal/BondCalculator.cpp | 19 +++++++++++++------
 src/diffpy/srreal/BondCalculator.hpp |  1 +
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/diffpy/srreal/BondCalculator.cpp b/src/diffpy/srreal/BondCalculator.cpp
index 21e8435..9e0f11b 100644
--- a/src/diffpy/srreal/BondCalculator.cpp
+++ b/src/diffpy/srreal/BondCalculator.cpp
@@ -190,7 +190,10 @@ string BondCalculator::getParallelData() const
 {
     ostringstream storage(ios::binary);
     diffpy::serialization::oarchive oa(storage, ios::binary);
-    oa << mpopbonds << maddbonds;
+    // serial evaluation has already moved the added bonds to mbonds
+    const BondDataStorage& badd =
+        mevaluator->isParallel() ? maddbonds : mbonds;
+    oa << mpopbonds << badd;
     return storage.str();
 }
 
@@ -233,18 +236,19 @@ void BondCalculator::executeParallelMerge(const std::string& pdata)
 
 void BondCalculator::finishValue()
 {
-    // filter-out entries marked for removal
-    assert(mpopbonds.size() <= mbonds.size());
     sort(mpopbonds.begin(), mpopbonds.end(), BondOp::compare);
     sort(maddbonds.begin(), maddbonds.end(), BondOp::compare);
     if (mevaluator->isParallel())  return;
+    // in a parallel run the removed bonds may be among the added ones
+    if (mbonds.empty())  mbonds.swap(maddbonds);
+    else  BondOp::bmerge(mbonds, maddbonds);
+    // filter-out entries marked for removal
+    assert(mpopbonds.size() <= mbonds.size());
     BondDataStorage::iterator last;
     last = set_difference(mbonds.begin(), mbonds.end(),
             mpopbonds.begin(), mpopbonds.end(),
             mbonds.begin(), BondOp::compare);
     mbonds.erase(last, mbonds.end());
-    if (mbonds.empty())  mbonds.swap(maddbonds);
-    else  BondOp::bmerge(mbonds, maddbonds);
     mvalue = this->distances();
     mpopbonds.clear();
     maddbonds.clear();
@@ -255,7 +259,8 @@ void BondCalculator::stashPartialValue()
 {
     mstashedvalue.bonds.swap(mbonds);
     mstashedvalue.popbonds.swap(mpopbonds);
-    // No need to stash maddbonds as they are evaluated after partial value.
+    // these come from the previous evaluation in parallel runs
+    mstashedvalue.addbonds.swap(maddbonds);
 }
 
 
@@ -263,8 +268,10 @@ void BondCalculator::restorePartialValue()
 {
     mbonds.swap(mstashedvalue.bonds);
     mpopbonds.swap(mstashedvalue.popbonds);
+    maddbonds.swap(mstashedvalue.addbonds);
     mstashedvalue.bonds.clear();
     mstashedvalue.popbonds.clear();
+    mstashedvalue.addbonds.clear();
 }
 
 // Private Methods -----------------------------------------------------------
diff --git a/src/diffpy/srreal/BondCalculator.hpp b/src/diffpy/srreal/BondCalculator.hpp
index 49c6876..94ae340 100644
--- a/src/diffpy/srreal/BondCalculator.hpp
+++ b/src/diffpy/srreal/BondCalculator.hpp
@@ -111,6 +111,7 @@ class BondCalculator : public PairQuantity
         struct {
             BondDataStorage bonds;
             BondDataStorage popbonds;
+            BondDataStorage addbonds;
         } mstashedvalue;
 
 };
-- 
2.43.0


From 77c404409c13c46cd7562d03fd603f53e03b3add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:54 +0000
Subject: [PATCH 11/51] fix: avoid NaN angle for bonds along the cone axis in
 BondCalculator

---
 src/diffpy/srreal/BondCalculator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srreal/BondCalculator.cpp b/src/diffpy/srreal/BondCalculator.cpp
index 9e0f11b..a6451c2 100644
--- a/src/diffpy/srreal/BondCalculator.cpp
+++ b/src/diffpy/srreal/BondCalculator.cpp
@@ -292,7 +292,9 @@ bool BondCalculator::checkConeFilters(const R3::Vector& ru01) const
     for (;  coneax != mfilter_directions.end(); ++coneax, ++deg)
     {
         if (180.0 <= *deg)    return true;
-        double angledegrees = 180.0 / M_PI * acos(R3::dot(ru01, *coneax));
+        // avoid NaN when cosine exceeds 1 due to round-off error
+        const double cosa = max(-1.0, min(1.0, R3::dot(ru01, *coneax)));
+        double angledegrees = 180.0 / M_PI * acos(cosa);
         if (angledegrees <= *deg)    return true;
     }
     return false;
-- 
2.43.0


From 3f132f84c2b1161e6268fa842ada2b0736ece2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:05 +0000
Subject: [PATCH 12/51] fix: apply occupancies and symmetry in gradients of
 OverlapCalculator

---
 src/diffpy/srreal/OverlapCalculator.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srreal/OverlapCalculator.cpp b/src/diffpy/srreal/OverlapCalculator.cpp
index 008addc..4dcd9e8 100644
--- a/src/diffpy/srreal/OverlapCalculator.cpp
+++ b/src/diffpy/srreal/OverlapCalculator.cpp
@@ -238,9 +238,14 @@ vector<R3::Vector> OverlapCalculator::gradients() const
         if (olp <= 0.0)  continue;
         const double& dst = this->subvalue(DISTANCE_OFFSET, index);
         assert(eps_gt(dst, 0.0));
+        // directions start exactly at the first site, while the second one
+        // may be at any of its symmetry equivalent positions
+        int i = int(this->subvalue(SITE0_OFFSET, index));
         int j = int(this->subvalue(SITE1_OFFSET, index));
-        gij = -2.0 * olp / dst * this->subdirection(index);
-        rv[j] += gij;
+        const double occij =
+            mstructure->siteOccupancy(i) * mstructure->siteOccupancy(j);
+        gij = 2.0 * olp / dst * occij * this->subdirection(index);
+        rv[i] += gij;
     }
     return rv;
 }
-- 
2.43.0


From dc74a52a493ee3550bb3e063b141c857743fce79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:05 +0000
Subject: [PATCH 13/51] fix: update neighbors in OverlapCalculator after
 parallel merge

---
 src/diffpy/srreal/OverlapCalculator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/diffpy/srreal/OverlapCalculator.cpp b/src/diffpy/srreal/OverlapCalculator.cpp
index 4dcd9e8..f082db1 100644
--- a/src/diffpy/srreal/OverlapCalculator.cpp
+++ b/src/diffpy/srreal/OverlapCalculator.cpp
@@ -458,6 +458,9 @@ void OverlapCalculator::executeParallelMerge(const std::string& pdata)
     QuantityType pvalue;
     ia >> pvalue;
     mvalue.insert(mvalue.end(), pvalue.begin(), pvalue.end());
+    // neighbors need to be updated for the merged data
+    mneighborids.clear();
+    mneighborids_cached = false;
 }
 
 // Private Methods -----------------------------------------------------------
-- 
2.43.0


From 515cef39cbbb37862ee27fe795fd2c017ae9a90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:05 +0000
Subject: [PATCH 14/51] fix: keep neighbors of loaded OverlapCalculator valid

---
 src/diffpy/srreal/OverlapCalculator.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/diffpy/srreal/OverlapCalculator.hpp b/src/diffpy/srreal/OverlapCalculator.hpp
index 0a6b576..cad3329 100644
--- a/src/diffpy/srreal/OverlapCalculator.hpp
+++ b/src/diffpy/srreal/OverlapCalculator.hpp
@@ -125,6 +125,8 @@ class OverlapCalculator : public PairQuantity
             ar & base_object<PairQuantity>(*this);
             ar & matomradiitable;
             ar & mneighborids;
+            // loaded neighbors must not be appended again
+            mneighborids_cached = !mneighborids.empty();
             ar & mstructure_cache.siteradii;
             ar & mstructure_cache.maxseparation;
         }
-- 
2.43.0


From 38290b0b44b0795dbe9c6ecf91436346b9a82a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:57 +0000
Subject: [PATCH 15/51] fix: apply rmin in BVSCalculator

---
 src/diffpy/srreal/BVSCalculator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/diffpy/srreal/BVSCalculator.cpp b/src/diffpy/srreal/BVSCalculator.cpp
index 44e5de4..dcc3651 100644
--- a/src/diffpy/srreal/BVSCalculator.cpp
+++ b/src/diffpy/srreal/BVSCalculator.cpp
@@ -155,6 +155,7 @@ void BVSCalculator::resetValue()
 
 void BVSCalculator::configureBondGenerator(BaseBondGenerator& bnds) const
 {
+    bnds.setRmin(this->getRmin());
     bnds.setRmax(this->getRmaxUsed());
 }
 
-- 
2.43.0


From cf4bf002fb6dc282d65009eb126b408ec998809f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:57 +0000
Subject: [PATCH 16/51] fix: account for site multiplicities in BVSCalculator

---
 src/diffpy/srreal/BVSCalculator.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srreal/BVSCalculator.cpp b/src/diffpy/srreal/BVSCalculator.cpp
index dcc3651..9baf4aa 100644
--- a/src/diffpy/srreal/BVSCalculator.cpp
+++ b/src/diffpy/srreal/BVSCalculator.cpp
@@ -177,7 +177,11 @@ void BVSCalculator::addPairContribution(const BaseBondGenerator& bnds,
     const double& o0 = mstructure->siteOccupancy(bnds.site0());
     const double& o1 = mstructure->siteOccupancy(bnds.site1());
     mvalue[bnds.site0()] += summationscale * pm0 * valencehalf * o1;
-    mvalue[bnds.site1()] += summationscale * pm1 * valencehalf * o0;
+    // pairs are visited from one position of site0 only.  The number of
+    // neighbors around site1 differs when sites have unequal multiplicities.
+    const double m01 = 1.0 * bnds.multiplicity() /
+        mstructure->siteMultiplicity(bnds.site1());
+    mvalue[bnds.site1()] += summationscale * pm1 * valencehalf * o0 * m01;
 }
 
 // Private Methods -----------------------------------------------------------
-- 
2.43.0


From f6fda310cbead083afd697daa73b0f372fe894c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:57 +0000
Subject: [PATCH 17/51] fix: make BVParam independent of atom order for equal
 valences

---
 src/diffpy/srreal/BVParam.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srreal/BVParam.cpp b/src/diffpy/srreal/BVParam.cpp
index 7460170..c16d567 100644
--- a/src/diffpy/srreal/BVParam.cpp
+++ b/src/diffpy/srreal/BVParam.cpp
@@ -46,7 +46,9 @@ BVParam::BVParam(const string& atom0, int valence0,
     mvalence0 = valence0;
     matom1 = atom1;
     mvalence1 = valence1;
-    if (mvalence0 < mvalence1)
+    // use unique order also for atoms of the same valence
+    if (mvalence0 < mvalence1 ||
+            (mvalence0 == mvalence1 && matom1 < matom0))
     {
         swap(matom0, matom1);
         swap(mvalence0, mvalence1);
-- 
2.43.0


From fc29b9901b56497b4e80096bc2c711177ae414d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:59 +0000
Subject: [PATCH 18/51] fix: Skip Q=0 term in Debye sum, it was NaN for
 electron scattering

Electron scattering factors are infinite at Q=0 and their product with
the zero sine made F(0) undefined.  That spread to all points of the PDF.
---
 src/diffpy/srreal/BaseDebyeSum.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srreal/BaseDebyeSum.cpp b/src/diffpy/srreal/BaseDebyeSum.cpp
index 34c6527..c7afedd 100644
--- a/src/diffpy/srreal/BaseDebyeSum.cpp
+++ b/src/diffpy/srreal/BaseDebyeSum.cpp
@@ -176,7 +176,8 @@ void BaseDebyeSum::addPairContribution(const BaseBondGenerator& bnds,
     const int nqpts = pdfutils_qmaxSteps(this);
     const int smscale = summationscale * bnds.multiplicity();
     const double& sineprec = this->getDebyePrecision();
-    for (int kq = pdfutils_qminSteps(this); kq < nqpts; ++kq)
+    // skip Q=0, where sine is zero and electron scattering factors diverge
+    for (int kq = max(1, pdfutils_qminSteps(this)); kq < nqpts; ++kq)
     {
         const double q = kq * this->getQstep();
         const double dwscale = exp(-0.5 * pow(dwsigma * q, 2));
-- 
2.43.0


From d5e131409af97a7ae17e26499f2ca3108a5d81f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:59 +0000
Subject: [PATCH 19/51] fix: Avoid access past the end of Fourier transform in
 Debye PDF

The last point of the r-grid is the last point of the transform when the
summation is not extended and the grid size is a power of 2.
---
 src/diffpy/srreal/DebyePDFCalculator.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srreal/DebyePDFCalculator.cpp b/src/diffpy/srreal/DebyePDFCalculator.cpp
index edea926..5886e26 100644
--- a/src/diffpy/srreal/DebyePDFCalculator.cpp
+++ b/src/diffpy/srreal/DebyePDFCalculator.cpp
@@ -316,8 +316,10 @@ QuantityType DebyePDFCalculator::getPDFAtQmin(double qmin) const
         int iphi = iplo + 1;
         double wphi = xdrp - iplo;
         double wplo = 1.0 - wphi;
-        assert(iphi < int(gpad.size()));
-        *pdfi = wplo * gpad[iplo] + wphi * gpad[iphi];
+        assert(iplo < int(gpad.size()));
+        // sine transformation is zero at the end of its range
+        const double ghi = (iphi < int(gpad.size())) ? gpad[iphi] : 0.0;
+        *pdfi = wplo * gpad[iplo] + wphi * ghi;
     }
     return pdf0;
 }
-- 
2.43.0


From d34ad5fd83478bfe6de12439b7632503476d1e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:50 +0000
Subject: [PATCH 20/51] fix: Make PointsInSphere and reflection generators
 copyable

Indices were held as references that in a copied object referred to the
original one, so that walking over the copy changed the original.
---
 src/diffpy/srreal/PointsInSphere.cpp | 24 +++++++++++-------------
 src/diffpy/srreal/PointsInSphere.hpp |  6 +-----
 2 files changed, 12 insertions(+), 18 deletions(-)

diff --git a/src/diffpy/srreal/PointsInSphere.cpp b/src/diffpy/srreal/PointsInSphere.cpp
index 88c24ef..d3ee087 100644
--- a/src/diffpy/srreal/PointsInSphere.cpp
+++ b/src/diffpy/srreal/PointsInSphere.cpp
@@ -89,8 +89,7 @@ LatticeParameters LatticeParameters::reciprocal() const
 PointsInSphere::PointsInSphere(double rmin, double rmax,
         const LatticeParameters& _latpar ) :
             _Rmin(rmin), _Rmax(rmax),
-            latpar(_latpar),
-            _m(_mno[0]), _n(_mno[1]), _o(_mno[2])
+            latpar(_latpar)
 {
     init();
     rewind();
@@ -101,8 +100,7 @@ PointsInSphere::PointsInSphere(double rmin, double rmax,
         double _a, double _b, double _c,
         double _alpha, double _beta, double _gamma) :
             _Rmin(rmin), _Rmax(rmax),
-            latpar(_a, _b, _c, _alpha, _beta, _gamma),
-            _m(_mno[0]), _n(_mno[1]), _o(_mno[2])
+            latpar(_a, _b, _c, _alpha, _beta, _gamma)
 {
     init();
     rewind();
@@ -116,10 +114,10 @@ void PointsInSphere::rewind()
 {
     mHalfSpan = Rmax()*latpar.ar;
     hi_m = int(ceil(mHalfSpan));
-    this->_m = -hi_m;
+    this->_mno[0] = -hi_m;
     // make indices n, o invalid, reset the neares point
-    this->_n = hi_n = 0;
-    this->_o = hi_o = outside_o = 0;
+    this->_mno[1] = hi_n = 0;
+    this->_mno[2] = hi_o = outside_o = 0;
     n0plane = o0plane = o0line = 0.0;
     // unset excluded zone
     oExclHalfSpan = 0.0;
@@ -189,7 +187,7 @@ double PointsInSphere::r() const
 
 void PointsInSphere::next_m()
 {
-    this->_m += 1;
+    this->_mno[0] += 1;
     if (finished())
     {
         return;
@@ -199,7 +197,7 @@ void PointsInSphere::next_m()
     o0plane = m()*do0dm;
     RplaneSquare = RmaxSquare - pow(m()/latpar.ar,2);
     nHalfSpan = RplaneSquare > 0.0 ? sqrt(RplaneSquare)*b2r : 0.0;
-    this->_n = int(floor(n0plane - nHalfSpan));
+    this->_mno[1] = int(floor(n0plane - nHalfSpan));
     hi_n = int(ceil(n0plane + nHalfSpan));
 }
 
@@ -208,7 +206,7 @@ void PointsInSphere::next_n()
 {
     do
     {
-        this->_n += 1;
+        this->_mno[1] += 1;
         if (n() < hi_n)
         {
             o0line = o0plane + (n()-n0plane)*do0dn;
@@ -217,7 +215,7 @@ void PointsInSphere::next_n()
             // parentheses improve round-off errors around [0,0,0]
             double RExclSquare = (RlineSquare - RmaxSquare) + RminSquare;
             oExclHalfSpan = RExclSquare > 0.0 ? sqrt(RExclSquare)*c1r : 0.0;
-            this->_o = int(floor(o0line - oHalfSpan));
+            this->_mno[2] = int(floor(o0line - oHalfSpan));
             outside_o = int(ceil(o0line + oHalfSpan));
             hi_o = outside_o;
             if (oExclHalfSpan)
@@ -237,7 +235,7 @@ void PointsInSphere::next_o()
 {
     do
     {
-        this->_o += 1;
+        this->_mno[2] += 1;
         if (o() < hi_o)
         {
             return;
@@ -245,7 +243,7 @@ void PointsInSphere::next_o()
         if (hi_o != outside_o)
         {
             hi_o = outside_o;
-            this->_o = int( ceil(o0line+oExclHalfSpan) ) - 1;
+            this->_mno[2] = int( ceil(o0line+oExclHalfSpan) ) - 1;
             continue;
         }
         next_n();
diff --git a/src/diffpy/srreal/PointsInSphere.hpp b/src/diffpy/srreal/PointsInSphere.hpp
index 40451aa..1fa1465 100644
--- a/src/diffpy/srreal/PointsInSphere.hpp
+++ b/src/diffpy/srreal/PointsInSphere.hpp
@@ -122,9 +122,6 @@ class PointsInSphere
         const pointsinsphere::LatticeParameters latpar;
         // output
         int _mno[3];
-        int& _m;
-        int& _n;
-        int& _o;
         // calculated constants set by init()
         double RminSquare, RmaxSquare;
         // 2D reciprocal parameters and cosine in bc plane
@@ -221,8 +218,7 @@ class ReflectionsInDmaxDmin : public ReflectionsInQminQmax
 template <class L>
 PointsInSphere::PointsInSphere(double rmin, double rmax, const L& lat) :
     _Rmin(rmin), _Rmax(rmax),
-    latpar(lat.a(), lat.b(), lat.c(), lat.alpha(), lat.beta(), lat.gamma()),
-    _m(_mno[0]), _n(_mno[1]), _o(_mno[2])
+    latpar(lat.a(), lat.b(), lat.c(), lat.alpha(), lat.beta(), lat.gamma())
 {
     init();
     rewind();
-- 
2.43.0


From 3a3809e0af5c2eae0ecde0c078e898acc13fda3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:07 +0000
Subject: [PATCH 21/51] fix: Exclude lattice points inside Rmin when it meets a
 lattice point

The excluded zone on a lattice line was skipped when its lower end was
exactly at a lattice point, for example for Rmin=1 and a=1.
---
 src/diffpy/srreal/PointsInSphere.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srreal/PointsInSphere.cpp b/src/diffpy/srreal/PointsInSphere.cpp
index d3ee087..a792da7 100644
--- a/src/diffpy/srreal/PointsInSphere.cpp
+++ b/src/diffpy/srreal/PointsInSphere.cpp
@@ -220,8 +220,9 @@ void PointsInSphere::next_n()
             hi_o = outside_o;
             if (oExclHalfSpan)
             {
-                int hole_o = int(ceil(o0line - oExclHalfSpan));
-                if (fabs(hole_o-o0line) < oExclHalfSpan)    hi_o = hole_o;
+                // first index that is inside of the excluded zone
+                int hole_o = int(floor(o0line - oExclHalfSpan)) + 1;
+                if (hole_o < o0line + oExclHalfSpan)    hi_o = hole_o;
             }
             return;
         }
-- 
2.43.0


From c5781bfed49248ad2d2e0ef1599ad9f7a2bef106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:05 +0000
Subject: [PATCH 22/51] fix: Return arc sine from asind

It returned arc cosine except for multiples of 30 degrees.
---
 src/diffpy/mathutils.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/mathutils.ipp b/src/diffpy/mathutils.ipp
index acf4d24..5782e76 100644
--- a/src/diffpy/mathutils.ipp
+++ b/src/diffpy/mathutils.ipp
@@ -106,7 +106,7 @@ double asind(double x)
             case -2: return -90.0;
         };
     }
-    return acos(x)/M_PI*180.0;
+    return asin(x)/M_PI*180.0;
 }
 
 
-- 
2.43.0


From 5611f5aaa2542e7559524ed9fd8c3107c0f69328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:05 +0000
Subject: [PATCH 23/51] fix: Keep Lattice unchanged when setting of its base
 fails

The base matrix was overwritten before its validation.
---
 src/diffpy/srreal/Lattice.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/diffpy/srreal/Lattice.cpp b/src/diffpy/srreal/Lattice.cpp
index 6fd171d..1cf2a88 100644
--- a/src/diffpy/srreal/Lattice.cpp
+++ b/src/diffpy/srreal/Lattice.cpp
@@ -106,10 +106,11 @@ void Lattice::setLatBase(const R3::Vector& va0,
         const R3::Vector& vc0)
 {
     using diffpy::mathutils::acosd;
-    R3::row(mbase, 0) = va0;
-    R3::row(mbase, 1) = vb0;
-    R3::row(mbase, 2) = vc0;
-    double detbase = R3::determinant(mbase);
+    R3::Matrix base0;
+    R3::row(base0, 0) = va0;
+    R3::row(base0, 1) = vb0;
+    R3::row(base0, 2) = vc0;
+    double detbase = R3::determinant(base0);
     if (fabs(detbase) < 1.0e-8)
     {
         throw invalid_argument("base vectors are degenerate");
@@ -118,6 +119,7 @@ void Lattice::setLatBase(const R3::Vector& va0,
     {
         throw invalid_argument("base is not right-handed");
     }
+    mbase = base0;
     mva = va0;
     mvb = vb0;
     mvc = vc0;
-- 
2.43.0


From b27c35838839761f7614d8a1238b1ea63771820c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:05 +0000
Subject: [PATCH 24/51] fix: Avoid undefined Lattice angle of parallel vectors

The cosine could exceed 1 due to round-off.
---
 src/diffpy/srreal/Lattice.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/diffpy/srreal/Lattice.hpp b/src/diffpy/srreal/Lattice.hpp
index 4e9146c..4d35d79 100644
--- a/src/diffpy/srreal/Lattice.hpp
+++ b/src/diffpy/srreal/Lattice.hpp
@@ -502,6 +502,8 @@ double Lattice::angledeg(const V& u, const V& v) const
 {
     using diffpy::mathutils::acosd;
     double ca = dot(u, v)/(norm(u) * norm(v));
+    // avoid round-off errors for parallel vectors
+    ca = std::max(-1.0, std::min(1.0, ca));
     return acosd(ca);
 }
 
@@ -510,6 +512,8 @@ template <class V>
 double Lattice::anglerad(const V& u, const V& v) const
 {
     double ca = dot(u, v)/(norm(u) * norm(v));
+    // avoid round-off errors for parallel vectors
+    ca = std::max(-1.0, std::min(1.0, ca));
     return acos(ca);
 }
 
-- 
2.43.0


From f65c181979fa03d25d184ba27bf89028e9d413a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:05 +0000
Subject: [PATCH 25/51] fix: Allow mxvecproduct of the result of another
 mxvecproduct

The static result was overwritten while it was still used as argument,
for example in Lattice::cartesian(mxvecproduct(M, v)).
---
 src/diffpy/srreal/R3linalg.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/diffpy/srreal/R3linalg.hpp b/src/diffpy/srreal/R3linalg.hpp
index bffd5c7..50bf009 100644
--- a/src/diffpy/srreal/R3linalg.hpp
+++ b/src/diffpy/srreal/R3linalg.hpp
@@ -250,9 +250,11 @@ template <class V>
 const Vector& mxvecproduct(const Matrix& M, const V& u)
 {
     static Vector res;
-    res[0] = M(0,0)*u[0] + M(0,1)*u[1] + M(0,2)*u[2];
-    res[1] = M(1,0)*u[0] + M(1,1)*u[1] + M(1,2)*u[2];
-    res[2] = M(2,0)*u[0] + M(2,1)*u[1] + M(2,2)*u[2];
+    // the argument may be a result of the previous call
+    const double u0 = u[0], u1 = u[1], u2 = u[2];
+    res[0] = M(0,0)*u0 + M(0,1)*u1 + M(0,2)*u2;
+    res[1] = M(1,0)*u0 + M(1,1)*u1 + M(1,2)*u2;
+    res[2] = M(2,0)*u0 + M(2,1)*u1 + M(2,2)*u2;
     return res;
 }
 
@@ -261,9 +263,11 @@ template <class V>
 const Vector& mxvecproduct(const V& u, const Matrix& M)
 {
     static Vector res;
-    res[0] = u[0]*M(0,0) + u[1]*M(1,0) + u[2]*M(2,0);
-    res[1] = u[0]*M(0,1) + u[1]*M(1,1) + u[2]*M(2,1);
-    res[2] = u[0]*M(0,2) + u[1]*M(1,2) + u[2]*M(2,2);
+    // the argument may be a result of the previous call
+    const double u0 = u[0], u1 = u[1], u2 = u[2];
+    res[0] = u0*M(0,0) + u1*M(1,0) + u2*M(2,0);
+    res[1] = u0*M(0,1) + u1*M(1,1) + u2*M(2,1);
+    res[2] = u0*M(0,2) + u1*M(1,2) + u2*M(2,2);
     return res;
 }
 
-- 
2.43.0


From 7f39659cae26264136b2e0101c38a8551d5c0af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:33 +0000
Subject: [PATCH 26/51] fix: Calculate determinant of singular matrices

The determinant was NaN for singular matrices and setting of a lattice
base with zero vectors aborted the program instead of throwing exception.
---
 src/diffpy/srreal/R3linalg.cpp | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/src/diffpy/srreal/R3linalg.cpp b/src/diffpy/srreal/R3linalg.cpp
index 19a70cc..bb24972 100644
--- a/src/diffpy/srreal/R3linalg.cpp
+++ b/src/diffpy/srreal/R3linalg.cpp
@@ -41,20 +41,11 @@ const Matrix& zeromatrix()
 
 double determinant(const Matrix& A)
 {
-    gsl_matrix* gA = gsl_matrix_alloc(Ndim, Ndim);
-    for (int i = 0; i != Ndim; ++i)
-    {
-        for (int j = 0; j != Ndim; ++j)
-        {
-            gsl_matrix_set(gA, i, j, A(i,j));
-        }
-    }
-    gsl_permutation* gP = gsl_permutation_alloc(Ndim);
-    int signum;
-    gsl_linalg_LU_decomp(gA, gP, &signum);
-    double det = gsl_linalg_LU_det(gA, signum);
-    gsl_permutation_free(gP);
-    gsl_matrix_free(gA);
+    // LU decomposition fails for singular matrices
+    double det =
+        A(0,0) * (A(1,1) * A(2,2) - A(1,2) * A(2,1)) -
+        A(0,1) * (A(1,0) * A(2,2) - A(1,2) * A(2,0)) +
+        A(0,2) * (A(1,0) * A(2,1) - A(1,1) * A(2,0));
     return det;
 }
 
-- 
2.43.0


From 771dc509e57f3d96b6a2a65b7eaf077cac1163a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:44 +0000
Subject: [PATCH 27/51] fix: Use the last one of conflicting type masks with
 "all"

The mask of (A, B) after assignments of (A, all) and (B, all) depended on
the order of a hash table and getTypeMask was not symmetric.
---
 src/diffpy/srreal/PairQuantity.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/diffpy/srreal/PairQuantity.cpp b/src/diffpy/srreal/PairQuantity.cpp
index 9604c26..0e6c053 100644
--- a/src/diffpy/srreal/PairQuantity.cpp
+++ b/src/diffpy/srreal/PairQuantity.cpp
@@ -316,6 +316,26 @@ setTypeMask(string smbli, string smblj, bool mask)
             }
             else  ++tpmsk;
         }
+        // preserve the mask of pairs with other types that are masked by all
+        list<string> othertypes;
+        for (tpmsk = mtypemask.begin(); tpmsk != mtypemask.end(); ++tpmsk)
+        {
+            const string& s0 = tpmsk->first.first;
+            const string& s1 = tpmsk->first.second;
+            const bool hasall = (ALLATOMSSTR == s0 || ALLATOMSSTR == s1);
+            const string& s2 = (ALLATOMSSTR == s0) ? s1 : s0;
+            if (hasall && s2 != sk && mask != tpmsk->second)
+            {
+                othertypes.push_back(s2);
+            }
+        }
+        list<string>::const_iterator other;
+        for (other = othertypes.begin(); other != othertypes.end(); ++other)
+        {
+            mtypemask[(sk > *other) ? make_pair(*other, sk) :
+                make_pair(sk, *other)] = mask;
+            modified = true;
+        }
     }
     pair<TypeMaskStorage::iterator, bool> pmm;
     pmm = mtypemask.emplace(smblij, mask);
-- 
2.43.0


From 17c7759dcc5eea695d7fc7e8621f4c8b299906ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:37 +0000
Subject: [PATCH 28/51] fix: Keep masks of all pairs of a site after masking of
 one of its pairs

An assignment for one pair discarded the mask for all pairs of either
site, so that it was lost in the next assigned structure, for example for
setPairMask(0, -1, false), setPairMask(0, 1, true) before evaluation.
Conflicting masks of all pairs were applied in the order of hash table.
---
 src/diffpy/srreal/PairQuantity.cpp | 50 +++++++++++++++++++++++-------
 src/diffpy/srreal/PairQuantity.hpp |  8 +++++
 2 files changed, 47 insertions(+), 11 deletions(-)

diff --git a/src/diffpy/srreal/PairQuantity.cpp b/src/diffpy/srreal/PairQuantity.cpp
index 0e6c053..2dbe45d 100644
--- a/src/diffpy/srreal/PairQuantity.cpp
+++ b/src/diffpy/srreal/PairQuantity.cpp
@@ -190,6 +190,7 @@ void PairQuantity::maskAllPairs(bool mask)
     if (!nochange)  mticker.click();
     minvertpairmask.clear();
     msiteallmask.clear();
+    moverridemask.clear();
     mtypemask.clear();
     mdefaultpairmask = mask;
 }
@@ -204,6 +205,11 @@ void PairQuantity::invertMask()
     {
         mm->second = !(mm->second);
     }
+    PairMaskOverrides::iterator om;
+    for (om = moverridemask.begin(); om != moverridemask.end(); ++om)
+    {
+        om->second = !(om->second);
+    }
     TypeMaskStorage::iterator tpmsk;
     for (tpmsk = mtypemask.begin(); tpmsk != mtypemask.end(); ++tpmsk)
     {
@@ -237,6 +243,27 @@ void PairQuantity::setPairMask(int i, int j, bool mask)
         pmm = msiteallmask.emplace(k, mask);
         if (pmm.second || pmm.first->second != mask)  modified = true;
         pmm.first->second = mask;
+        // this assignment replaces all earlier ones for the same site
+        PairMaskOverrides::iterator om;
+        for (om = moverridemask.begin(); om != moverridemask.end();)
+        {
+            const bool eraseitem =
+                (k == om->first.first || k == om->first.second);
+            if (eraseitem)
+            {
+                if (mask != om->second)  modified = true;
+                om = moverridemask.erase(om);
+            }
+            else  ++om;
+        }
+        unordered_map<int, bool>::const_iterator ia;
+        for (ia = msiteallmask.begin(); ia != msiteallmask.end(); ++ia)
+        {
+            if (mask == ia->second)  continue;
+            moverridemask[make_pair(min(k, ia->first), max(k, ia->first))] =
+                mask;
+            modified = true;
+        }
         int cntsites = this->countSites();
         for (int l = 0; l < cntsites; ++l)
         {
@@ -246,18 +273,12 @@ void PairQuantity::setPairMask(int i, int j, bool mask)
         return;
     }
     // here neither i nor j is ALLATOMSINT
-    unordered_map<int, bool>::iterator ii, jj;
-    ii = msiteallmask.find(i);
-    if (ii != msiteallmask.end() && mask != ii->second)
+    if (msiteallmask.count(i) || msiteallmask.count(j))
     {
-        msiteallmask.erase(ii);
-        modified = true;
-    }
-    jj = msiteallmask.find(j);
-    if (jj != msiteallmask.end() && mask != jj->second)
-    {
-        msiteallmask.erase(jj);
-        modified = true;
+        pair<PairMaskOverrides::iterator, bool> om;
+        om = moverridemask.emplace(make_pair(min(i, j), max(i, j)), mask);
+        if (om.second || om.first->second != mask)  modified = true;
+        om.first->second = mask;
     }
     modified = this->setPairMaskValue(i, j, mask) ? true : modified;
     if (modified)  mticker.click();
@@ -298,6 +319,7 @@ setTypeMask(string smbli, string smblj, bool mask)
     // msiteallmask is only relevant for index-based masking.
     // clean it up to avoid unexpected effects when switching to index masks.
     msiteallmask.clear();
+    moverridemask.clear();
     bool modified = false;
     // when all is used, remove all typemask elements with the other type
     if (ALLATOMSSTR == smbli || ALLATOMSSTR == smblj)
@@ -457,6 +479,12 @@ void PairQuantity::updateMaskData()
                 this->setPairMaskValue(ia->first, j, ia->second);
             }
         }
+        PairMaskOverrides::const_iterator om;
+        for (om = moverridemask.begin(); om != moverridemask.end(); ++om)
+        {
+            this->setPairMaskValue(om->first.first, om->first.second,
+                    om->second);
+        }
     }
     // For type masking propagate atom types to corresponding atom indices.
     else
diff --git a/src/diffpy/srreal/PairQuantity.hpp b/src/diffpy/srreal/PairQuantity.hpp
index b80086e..398368e 100644
--- a/src/diffpy/srreal/PairQuantity.hpp
+++ b/src/diffpy/srreal/PairQuantity.hpp
@@ -107,6 +107,10 @@ class PairQuantity : public diffpy::Attributes
             std::pair<int,int>,
             boost::hash< std::pair<int,int> >
                 > PairMaskStorage;
+        typedef std::unordered_map<
+            std::pair<int,int>, bool,
+            boost::hash< std::pair<int,int> >
+                > PairMaskOverrides;
         typedef std::unordered_map<
             std::pair<std::string,std::string>, bool,
             boost::hash< std::pair<std::string,std::string> >
@@ -119,6 +123,8 @@ class PairQuantity : public diffpy::Attributes
         bool mdefaultpairmask;
         PairMaskStorage minvertpairmask;
         std::unordered_map<int, bool> msiteallmask;
+        /// masks that were assigned later than a matching msiteallmask
+        PairMaskOverrides moverridemask;
         TypeMaskStorage mtypemask;
         int mmergedvaluescount;
         mutable eventticker::EventTicker mticker;
@@ -145,6 +151,7 @@ class PairQuantity : public diffpy::Attributes
             ar & mtypemask;
             ar & mmergedvaluescount;
             ar & mticker;
+            if (version > 0)  ar & moverridemask;
         }
 
 };
@@ -181,5 +188,6 @@ replacePairQuantityStructure(PairQuantity& pq, StructureAdapterPtr stru);
 
 BOOST_SERIALIZATION_ASSUME_ABSTRACT(diffpy::srreal::PairQuantity)
 BOOST_CLASS_EXPORT_KEY(diffpy::srreal::PairQuantity)
+BOOST_CLASS_VERSION(diffpy::srreal::PairQuantity, 1)
 
 #endif  // PAIRQUANTITY_HPP_INCLUDED
-- 
2.43.0


From b8f1695302159140c2c76e3a48b1850c6bf852c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:52 +0000
Subject: [PATCH 29/51] fix: Do not share evaluator among copies of
 PairQuantity

---
 src/diffpy/srreal/PairQuantity.cpp | 26 ++++++++++++++++++++++++++
 src/diffpy/srreal/PairQuantity.hpp |  2 ++
 2 files changed, 28 insertions(+)

diff --git a/src/diffpy/srreal/PairQuantity.cpp b/src/diffpy/srreal/PairQuantity.cpp
index 2dbe45d..2d7a1fd 100644
--- a/src/diffpy/srreal/PairQuantity.cpp
+++ b/src/diffpy/srreal/PairQuantity.cpp
@@ -50,8 +50,34 @@ PairQuantity::PairQuantity() :
             &PairQuantity::getRmax, &PairQuantity::setRmax);
 }
 
+
+PairQuantity::PairQuantity(const PairQuantity& src) : diffpy::Attributes(src)
+{
+    *this = src;
+}
+
 // Public Methods ------------------------------------------------------------
 
+PairQuantity& PairQuantity::operator=(const PairQuantity& src)
+{
+    if (this == &src)   return *this;
+    mvalue = src.mvalue;
+    mstructure = src.mstructure;
+    mrmin = src.mrmin;
+    mrmax = src.mrmax;
+    // the evaluator holds data from the last evaluation, do not share it
+    mevaluator = createPQEvaluator(src.getEvaluatorType(), src.mevaluator);
+    mdefaultpairmask = src.mdefaultpairmask;
+    minvertpairmask = src.minvertpairmask;
+    msiteallmask = src.msiteallmask;
+    moverridemask = src.moverridemask;
+    mtypemask = src.mtypemask;
+    mmergedvaluescount = src.mmergedvaluescount;
+    mticker = src.mticker;
+    return *this;
+}
+
+
 const QuantityType& PairQuantity::eval()
 {
     return this->eval(mstructure);
diff --git a/src/diffpy/srreal/PairQuantity.hpp b/src/diffpy/srreal/PairQuantity.hpp
index 398368e..c24078e 100644
--- a/src/diffpy/srreal/PairQuantity.hpp
+++ b/src/diffpy/srreal/PairQuantity.hpp
@@ -47,6 +47,8 @@ class PairQuantity : public diffpy::Attributes
 
         // constructor
         PairQuantity();
+        PairQuantity(const PairQuantity&);
+        PairQuantity& operator=(const PairQuantity&);
         virtual ~PairQuantity()  { }
 
         // methods
-- 
2.43.0


From 43f1d2b217bc198a6bb0fe1348bf56f75d361b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:52 +0000
Subject: [PATCH 30/51] fix: Compare final results in PQEvaluatorCheck

---
 src/diffpy/srreal/PQEvaluator.cpp  | 6 ++++++
 src/diffpy/srreal/PairQuantity.hpp | 1 +
 2 files changed, 7 insertions(+)

diff --git a/src/diffpy/srreal/PQEvaluator.cpp b/src/diffpy/srreal/PQEvaluator.cpp
index afdb924..293c217 100644
--- a/src/diffpy/srreal/PQEvaluator.cpp
+++ b/src/diffpy/srreal/PQEvaluator.cpp
@@ -427,8 +427,14 @@ void PQEvaluatorCheck::updateValue(
 {
     this->PQEvaluatorOptimized::updateValue(pq, stru);
     if (mtypeused == BASIC)  return;
+    // pairs of complete and fast updates are split in a different way,
+    // therefore their partial results cannot be compared.
+    if (this->isParallel())  return;
+    // compare final results, BondCalculator builds them in finishValue
+    pq.finishValue();
     unique_ptr<pqresults> results(create_pqresults(pq));
     this->updateValueCompletely(pq, stru);
+    pq.finishValue();
     mtypeused = CHECK;
     if (!results->compare(pq))
     {
diff --git a/src/diffpy/srreal/PairQuantity.hpp b/src/diffpy/srreal/PairQuantity.hpp
index c24078e..08699c4 100644
--- a/src/diffpy/srreal/PairQuantity.hpp
+++ b/src/diffpy/srreal/PairQuantity.hpp
@@ -86,6 +86,7 @@ class PairQuantity : public diffpy::Attributes
 
         friend class PQEvaluatorBasic;
         friend class PQEvaluatorOptimized;
+        friend class PQEvaluatorCheck;
         friend StructureAdapterPtr
             replacePairQuantityStructure(PairQuantity&, StructureAdapterPtr);
 
-- 
2.43.0


From 1ca74365328a3f3c7b8f974149cb96db51cbab55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:52 +0000
Subject: [PATCH 31/51] fix: Avoid out-of-range access in getF after Q-range
 change

---
 src/diffpy/srreal/BaseDebyeSum.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srreal/BaseDebyeSum.cpp b/src/diffpy/srreal/BaseDebyeSum.cpp
index c7afedd..1b001cb 100644
--- a/src/diffpy/srreal/BaseDebyeSum.cpp
+++ b/src/diffpy/srreal/BaseDebyeSum.cpp
@@ -78,7 +78,8 @@ QuantityType BaseDebyeSum::getF() const
 {
     QuantityType rv = this->value();
     const double& totocc = mstructure_cache.totaloccupancy;
-    const int npts = pdfutils_qmaxSteps(this);
+    // Q-grid configuration may have changed since the last evaluation
+    const int npts = min(pdfutils_qmaxSteps(this), int(rv.size()));
     for (int kq = pdfutils_qminSteps(this); kq < npts; ++kq)
     {
         double sfavg = this->sfAverageAtkQ(kq);
-- 
2.43.0


From b46a92494c2683c322eb99183b4dcfeaa008af4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:52 +0000
Subject: [PATCH 32/51] fix: Avoid out-of-range access in getPDF after r-range
 change

---
 src/diffpy/srreal/PDFCalculator.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srreal/PDFCalculator.cpp b/src/diffpy/srreal/PDFCalculator.cpp
index 47c7189..5fcdefa 100644
--- a/src/diffpy/srreal/PDFCalculator.cpp
+++ b/src/diffpy/srreal/PDFCalculator.cpp
@@ -656,9 +656,12 @@ void PDFCalculator::cutRipplePoints(QuantityType& y) const
     if (y.empty())  return;
     assert(int(y.size()) ==
             this->extendedRmaxSteps() - this->extendedRminSteps());
+    // rmin, rmax, rstep may have changed since the last evaluation
+    const int sz = y.size();
     int ncutlo = pdfutils_rminSteps(this) - this->extendedRminSteps();
+    ncutlo = min(max(ncutlo, 0), sz);
     int ncuthi = this->extendedRmaxSteps() - pdfutils_rmaxSteps(this);
-    assert(ncutlo + ncuthi <= int(y.size()));
+    ncuthi = min(max(ncuthi, 0), sz - ncutlo);
     y.erase(y.end() - ncuthi, y.end());
     y.erase(y.begin(), y.begin() + ncutlo);
 }
-- 
2.43.0


From c7117e66f172434dae46489947879b647668add3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:52 +0000
Subject: [PATCH 33/51] fix: Allow fast updates of PDF with empty r-range

---
 src/diffpy/srreal/PDFCalculator.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/diffpy/srreal/PDFCalculator.cpp b/src/diffpy/srreal/PDFCalculator.cpp
index 5fcdefa..f95669f 100644
--- a/src/diffpy/srreal/PDFCalculator.cpp
+++ b/src/diffpy/srreal/PDFCalculator.cpp
@@ -546,8 +546,6 @@ void PDFCalculator::stashPartialValue()
 
 void PDFCalculator::restorePartialValue()
 {
-    assert(!mstashedvalue.value.empty());
-    assert(!mvalue.empty());
     QuantityType::const_iterator si = mstashedvalue.value.begin();
     QuantityType::const_iterator slast = mstashedvalue.value.end();
     QuantityType::iterator ti = mvalue.begin();
-- 
2.43.0


From 965b463c3b204eeffdf591a4edead42ace27e509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:40 +0000
Subject: [PATCH 34/51] fix: Restore type of the used evaluator

---
 src/diffpy/srreal/PQEvaluator.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/diffpy/srreal/PQEvaluator.hpp b/src/diffpy/srreal/PQEvaluator.hpp
index e0cd32a..a78d19a 100644
--- a/src/diffpy/srreal/PQEvaluator.hpp
+++ b/src/diffpy/srreal/PQEvaluator.hpp
@@ -96,6 +96,7 @@ class PQEvaluatorBasic
             void serialize(Archive& ar, const unsigned int version)
         {
             ar & mconfigflags & mcpuindex & mncpu & mvalue_ticker;
+            if (version > 0)  ar & mtypeused;
         }
 };
 
@@ -164,6 +165,7 @@ PQEvaluatorPtr createPQEvaluator(
 
 BOOST_SERIALIZATION_ASSUME_ABSTRACT(diffpy::srreal::PQEvaluatorBasic)
 BOOST_CLASS_EXPORT_KEY(diffpy::srreal::PQEvaluatorBasic)
+BOOST_CLASS_VERSION(diffpy::srreal::PQEvaluatorBasic, 1)
 BOOST_CLASS_EXPORT_KEY(diffpy::srreal::PQEvaluatorOptimized)
 
 #endif  // PQEVALUATOR_HPP_INCLUDED
-- 
2.43.0


From 7778f07bd5860c79810dfb02b68f218b15915acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:40 +0000
Subject: [PATCH 35/51] fix: Allow archiving of calculators with CHECK
 evaluator

---
 src/diffpy/srreal/PQEvaluator.cpp | 2 ++
 src/diffpy/srreal/PQEvaluator.hpp | 1 +
 2 files changed, 3 insertions(+)

diff --git a/src/diffpy/srreal/PQEvaluator.cpp b/src/diffpy/srreal/PQEvaluator.cpp
index 293c217..a7dcbcb 100644
--- a/src/diffpy/srreal/PQEvaluator.cpp
+++ b/src/diffpy/srreal/PQEvaluator.cpp
@@ -488,5 +488,7 @@ DIFFPY_INSTANTIATE_SERIALIZATION(diffpy::srreal::PQEvaluatorBasic)
 BOOST_CLASS_EXPORT_IMPLEMENT(diffpy::srreal::PQEvaluatorBasic)
 DIFFPY_INSTANTIATE_SERIALIZATION(diffpy::srreal::PQEvaluatorOptimized)
 BOOST_CLASS_EXPORT_IMPLEMENT(diffpy::srreal::PQEvaluatorOptimized)
+DIFFPY_INSTANTIATE_SERIALIZATION(diffpy::srreal::PQEvaluatorCheck)
+BOOST_CLASS_EXPORT_IMPLEMENT(diffpy::srreal::PQEvaluatorCheck)
 
 // End of file
diff --git a/src/diffpy/srreal/PQEvaluator.hpp b/src/diffpy/srreal/PQEvaluator.hpp
index a78d19a..6454a61 100644
--- a/src/diffpy/srreal/PQEvaluator.hpp
+++ b/src/diffpy/srreal/PQEvaluator.hpp
@@ -167,5 +167,6 @@ BOOST_SERIALIZATION_ASSUME_ABSTRACT(diffpy::srreal::PQEvaluatorBasic)
 BOOST_CLASS_EXPORT_KEY(diffpy::srreal::PQEvaluatorBasic)
 BOOST_CLASS_VERSION(diffpy::srreal::PQEvaluatorBasic, 1)
 BOOST_CLASS_EXPORT_KEY(diffpy::srreal::PQEvaluatorOptimized)
+BOOST_CLASS_EXPORT_KEY(diffpy::srreal::PQEvaluatorCheck)
 
 #endif  // PQEVALUATOR_HPP_INCLUDED
-- 
2.43.0


From 2106165df3c21022858c254abdd4f4429f2257df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:40 +0000
Subject: [PATCH 36/51] fix: Archive pending bonds of BondCalculator in
 parallel runs

---
 src/diffpy/srreal/BondCalculator.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/diffpy/srreal/BondCalculator.hpp b/src/diffpy/srreal/BondCalculator.hpp
index 94ae340..6941030 100644
--- a/src/diffpy/srreal/BondCalculator.hpp
+++ b/src/diffpy/srreal/BondCalculator.hpp
@@ -95,6 +95,13 @@ class BondCalculator : public PairQuantity
             ar & mbonds;
             ar & mfilter_directions;
             ar & mfilter_degrees;
+            // bonds pending in a parallel run or in an unfinished merge
+            if (version > 0)  ar & mpopbonds & maddbonds;
+            else
+            {
+                mpopbonds.clear();
+                maddbonds.clear();
+            }
         }
 
         // methods
@@ -132,5 +139,6 @@ QuantityType BondCalculator::operator()(const T& stru)
 // Serialization -------------------------------------------------------------
 
 BOOST_CLASS_EXPORT_KEY(diffpy::srreal::BondCalculator)
+BOOST_CLASS_VERSION(diffpy::srreal::BondCalculator, 1)
 
 #endif  // BONDCALCULATOR_HPP_INCLUDED
-- 
2.43.0


From ec41e7a40d6441bfc80bcc153ec6f15e604a2d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:40 +0000
Subject: [PATCH 37/51] fix: Update cached r-limits in a restored unused
 PDFCalculator

---
 src/diffpy/srreal/PDFCalculator.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srreal/PDFCalculator.cpp b/src/diffpy/srreal/PDFCalculator.cpp
index f95669f..4f42139 100644
--- a/src/diffpy/srreal/PDFCalculator.cpp
+++ b/src/diffpy/srreal/PDFCalculator.cpp
@@ -20,6 +20,7 @@
 #include <sstream>
 #include <cmath>
 #include <cassert>
+#include <typeinfo>
 
 #include <diffpy/serialization.ipp>
 #include <diffpy/srreal/PDFCalculator.hpp>
@@ -46,8 +47,10 @@ bool _initialQstepUpdate(const PDFC* pc)
 {
     // Check if we use the initial empty structure and constructor
     // has completed, i.e., the last attribute is available.
-    const bool rv =
-        (pc->getStructure() == emptyStructureAdapter()) &&
+    // A calculator loaded from archive has its own empty structure object.
+    const StructureAdapter& stru = *(pc->getStructure());
+    const StructureAdapter& estru = *(emptyStructureAdapter());
+    const bool rv = (typeid(stru) == typeid(estru)) &&
         pc->hasDoubleAttr("extendedrmax");
     return rv;
 }
-- 
2.43.0


From 06c61f96227c5547292e10e8d73b62371ff86b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:27 +0000
Subject: [PATCH 38/51] fix: Compare symmetry precision in equality of crystals

---
 src/diffpy/srreal/CrystalStructureAdapter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srreal/CrystalStructureAdapter.cpp b/src/diffpy/srreal/CrystalStructureAdapter.cpp
index 6bed933..f011594 100644
--- a/src/diffpy/srreal/CrystalStructureAdapter.cpp
+++ b/src/diffpy/srreal/CrystalStructureAdapter.cpp
@@ -275,7 +275,8 @@ bool operator==(
     const PeriodicStructureAdapter& pstru1 = stru1;
     bool rv = (&stru0 == &stru1) || (
         (pstru0 == pstru1) &&
-        (stru0.msymops == stru1.msymops));
+        (stru0.msymops == stru1.msymops) &&
+        (stru0.getSymmetryPrecision() == stru1.getSymmetryPrecision()));
     return rv;
 }
 
-- 
2.43.0


From 2016e3b9acec2ed5a0dbb125e2b5698b24f95a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:44 +0000
Subject: [PATCH 39/51] fix: Reject trailing text in radii specification

---
 src/diffpy/srreal/AtomRadiiTable.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srreal/AtomRadiiTable.cpp b/src/diffpy/srreal/AtomRadiiTable.cpp
index 20995f6..3554fb1 100644
--- a/src/diffpy/srreal/AtomRadiiTable.cpp
+++ b/src/diffpy/srreal/AtomRadiiTable.cpp
@@ -74,7 +74,7 @@ void AtomRadiiTable::fromString(const string& s)
         string smbl = w.substr(0, p);
         double value;
         istringstream ssv(w.substr(p + 1));
-        if (!(ssv >> value))
+        if (!(ssv >> value) || !(ssv >> ws).eof())
         {
             ostringstream emsg;
             emsg << "Invalid floating point number in '" << w << "'.";
-- 
2.43.0


From a6ab198dc690ebe799a970446e66590b88b6445e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:00 +0000
Subject: [PATCH 40/51] fix: Raise error when rescaling a zero scattering
 factor

---
 src/diffpy/srreal/ScatteringFactorTable.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/diffpy/srreal/ScatteringFactorTable.cpp b/src/diffpy/srreal/ScatteringFactorTable.cpp
index b5c4872..b500efa 100644
--- a/src/diffpy/srreal/ScatteringFactorTable.cpp
+++ b/src/diffpy/srreal/ScatteringFactorTable.cpp
@@ -78,6 +78,12 @@ void ScatteringFactorTable::setCustomAs(
         double value, double q)
 {
     double fsrc = this->standardLookup(srcsmbl, q);
+    if (fsrc == 0.0)
+    {
+        string emsg = "Cannot rescale zero scattering factor of '";
+        emsg += srcsmbl + "'.";
+        throw invalid_argument(emsg);
+    }
     double scale = value / fsrc;
     CustomDataStorage::mapped_type entry(srcsmbl, scale);
     if (mcustom.count(smbl) && mcustom.at(smbl) == entry)  return;
-- 
2.43.0


From cca98bc14de164cc942af5d50cf45f6e1e9b96b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:26 +0000
Subject: [PATCH 41/51] fix: Publish data tables only after they are completely
 loaded

---
 src/diffpy/srreal/BVParametersTable.cpp    |  8 +++---
 src/diffpy/srreal/scatteringfactordata.cpp | 30 +++++++++++++---------
 2 files changed, 23 insertions(+), 15 deletions(-)

diff --git a/src/diffpy/srreal/BVParametersTable.cpp b/src/diffpy/srreal/BVParametersTable.cpp
index 896cd46..dd49aa8 100644
--- a/src/diffpy/srreal/BVParametersTable.cpp
+++ b/src/diffpy/srreal/BVParametersTable.cpp
@@ -167,7 +167,8 @@ BVParametersTable::getStandardSetOfBVParam() const
     static unique_ptr<SetOfBVParam> the_set;
     if (!the_set)
     {
-        the_set.reset(new SetOfBVParam);
+        // publish the set only after it is completely loaded
+        unique_ptr<SetOfBVParam> bvset(new SetOfBVParam);
         string bvparmfile = datapath("bvparm2011sel.cif");
         ifstream fp(bvparmfile.c_str());
         ensureFileOK(bvparmfile, fp);
@@ -186,9 +187,10 @@ BVParametersTable::getStandardSetOfBVParam() const
             if (lnrd.isignored())  continue;
             BVParam bp;
             bp.setFromCifLine(lnrd.line);
-            assert(!the_set->count(bp));
-            the_set->insert(bp);
+            assert(!bvset->count(bp));
+            bvset->insert(bp);
         }
+        the_set.swap(bvset);
     }
     return *the_set;
 }
diff --git a/src/diffpy/srreal/scatteringfactordata.cpp b/src/diffpy/srreal/scatteringfactordata.cpp
index 6439269..881a341 100644
--- a/src/diffpy/srreal/scatteringfactordata.cpp
+++ b/src/diffpy/srreal/scatteringfactordata.cpp
@@ -133,7 +133,8 @@ const SetOfWKFormulas& getWKFormulasSet()
     using diffpy::validators::ensureFileOK;
     static unique_ptr<SetOfWKFormulas> the_set;
     if (the_set)  return *the_set;
-    the_set.reset(new SetOfWKFormulas);
+    // publish the set only after it is completely loaded
+    unique_ptr<SetOfWKFormulas> wkset(new SetOfWKFormulas);
     string wkfile = datapath("f0_WaasKirf.dat");
     ifstream fp(wkfile.c_str());
     ensureFileOK(wkfile, fp);
@@ -172,17 +173,18 @@ const SetOfWKFormulas& getWKFormulasSet()
                 throw line.format_error(wkfile,
                         "Line should contain 11 floating point values.");
             }
-            if (the_set->count(wk))
+            if (wkset->count(wk))
             {
                 string emsg = "Duplicate atom symbol \"";
                 emsg += wk.symbol + "\".";
                 throw line.format_error(wkfile, emsg);
             }
-            the_set->insert(wk);
+            wkset->insert(wk);
             wk.symbol.clear();
         }
     }
-    return getWKFormulasSet();
+    the_set.swap(wkset);
+    return *the_set;
 }
 
 
@@ -223,11 +225,12 @@ ElectronNumberStorage& getElectronNumberTable()
 {
     using namespace diffpy::runtimepath;
     using diffpy::validators::ensureFileOK;
-    static unique_ptr<ElectronNumberStorage> entable;
+    static unique_ptr<ElectronNumberStorage> the_table;
     typedef ElectronNumberStorage::value_type ENPair;
-    if (!entable)
+    if (!the_table)
     {
-        entable.reset(new ElectronNumberStorage);
+        // publish the table only after it is completely loaded
+        unique_ptr<ElectronNumberStorage> entable(new ElectronNumberStorage);
         string ionfile = datapath("ionlist.dat");
         ifstream fp0(ionfile.c_str());
         ensureFileOK(ionfile, fp0);
@@ -260,8 +263,9 @@ ElectronNumberStorage& getElectronNumberTable()
                 " items loaded " << entable->size() << ".";
             throw line.format_error(ionfile, emsg.str());
         }
+        the_table.swap(entable);
     }
-    return *entable;
+    return *the_table;
 }
 
 // Neutron scattering lengths
@@ -273,9 +277,10 @@ const NeutronBCStorage& getNeutronBCTable()
     using namespace diffpy::runtimepath;
     using diffpy::validators::ensureFileOK;
     typedef NeutronBCStorage::value_type BCPair;
-    static unique_ptr<NeutronBCStorage> bctable;
-    if (bctable)  return *bctable;
-    bctable.reset(new NeutronBCStorage);
+    static unique_ptr<NeutronBCStorage> the_table;
+    if (the_table)  return *the_table;
+    // publish the table only after it is completely loaded
+    unique_ptr<NeutronBCStorage> bctable(new NeutronBCStorage);
     string nsffile = datapath("nsftable.dat");
     ifstream fp(nsffile.c_str());
     ensureFileOK(nsffile, fp);
@@ -343,7 +348,8 @@ const NeutronBCStorage& getNeutronBCTable()
     bctable->insert(BCPair("n", bctable->at("1-n")));
     bctable->insert(BCPair("D", bctable->at("2-H")));
     bctable->insert(BCPair("T", bctable->at("3-H")));
-    return getNeutronBCTable();
+    the_table.swap(bctable);
+    return *the_table;
 }
 
 }   // namespace
-- 
2.43.0


From 14862468cfdbf473d8c83c4ce73c3d71c4f98ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:39 +0000
Subject: [PATCH 42/51] fix: Report data files without any data

---
 src/diffpy/srreal/BVParametersTable.cpp    | 5 +++++
 src/diffpy/srreal/scatteringfactordata.cpp | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/src/diffpy/srreal/BVParametersTable.cpp b/src/diffpy/srreal/BVParametersTable.cpp
index dd49aa8..5d39a33 100644
--- a/src/diffpy/srreal/BVParametersTable.cpp
+++ b/src/diffpy/srreal/BVParametersTable.cpp
@@ -190,6 +190,11 @@ BVParametersTable::getStandardSetOfBVParam() const
             assert(!bvset->count(bp));
             bvset->insert(bp);
         }
+        if (bvset->empty())
+        {
+            throw lnrd.format_error(bvparmfile,
+                    "No bond valence parameters found.");
+        }
         the_set.swap(bvset);
     }
     return *the_set;
diff --git a/src/diffpy/srreal/scatteringfactordata.cpp b/src/diffpy/srreal/scatteringfactordata.cpp
index 881a341..951af83 100644
--- a/src/diffpy/srreal/scatteringfactordata.cpp
+++ b/src/diffpy/srreal/scatteringfactordata.cpp
@@ -183,6 +183,10 @@ const SetOfWKFormulas& getWKFormulasSet()
             wk.symbol.clear();
         }
     }
+    if (wkset->empty())
+    {
+        throw line.format_error(wkfile, "No scattering factors found.");
+    }
     the_set.swap(wkset);
     return *the_set;
 }
-- 
2.43.0


From 4a03b42096dc6e177d98464b6141be9f0bb33831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:52 +0000
Subject: [PATCH 43/51] fix: Report garbled numbers in data files

---
 src/diffpy/srreal/BVParam.cpp              |  6 ++++--
 src/diffpy/srreal/scatteringfactordata.cpp | 11 ++++++++---
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/diffpy/srreal/BVParam.cpp b/src/diffpy/srreal/BVParam.cpp
index c16d567..90ab20f 100644
--- a/src/diffpy/srreal/BVParam.cpp
+++ b/src/diffpy/srreal/BVParam.cpp
@@ -99,8 +99,10 @@ void BVParam::setFromCifLine(const std::string& cifline)
     int v0, v1;
     double Ro, B;
     istringstream linefp(cifline);
-    linefp >> a0 >> v0 >> a1 >> v1 >> Ro >> B >> ref;
-    if (!linefp)
+    linefp >> a0 >> v0 >> a1 >> v1 >> Ro >> B;
+    // the last number must be separated from the reference
+    bool valid = linefp && isspace(linefp.peek()) && (linefp >> ref);
+    if (!valid)
     {
         const char* emsg = "Cannot parse cif line.";
         throw invalid_argument(emsg);
diff --git a/src/diffpy/srreal/scatteringfactordata.cpp b/src/diffpy/srreal/scatteringfactordata.cpp
index 951af83..d556d0f 100644
--- a/src/diffpy/srreal/scatteringfactordata.cpp
+++ b/src/diffpy/srreal/scatteringfactordata.cpp
@@ -168,7 +168,7 @@ const SetOfWKFormulas& getWKFormulasSet()
             fpline >>
                 wk.a[0] >> wk.a[1] >> wk.a[2] >> wk.a[3] >> wk.a[4] >>
                 wk.c >> wk.b[0] >> wk.b[1] >> wk.b[2] >> wk.b[3] >> wk.b[4];
-            if (!fpline)
+            if (!fpline || !(fpline >> ws).eof())
             {
                 throw line.format_error(wkfile,
                         "Line should contain 11 floating point values.");
@@ -258,6 +258,10 @@ ElectronNumberStorage& getElectronNumberTable()
                 smbl << element << abs(v) << ((v > 0) ? '+' : '-');
                 entable->insert(ENPair(smbl.str(), z - v));
             }
+            if (!fpline.eof())
+            {
+                throw line.format_error(ionfile, "Invalid ion charge.");
+            }
         }
         const size_t mintablesize = 447;
         if (entable->size() < mintablesize)
@@ -314,8 +318,9 @@ const NeutronBCStorage& getNeutronBCTable()
         }
         istringstream fpbc(line.words[3]);
         double bc;
-        fpbc >> bc;
-        if (!fpbc)
+        // the value may be followed by its uncertainty in parentheses
+        bool bcok = (fpbc >> bc) && (fpbc.eof() || fpbc.peek() == '(');
+        if (!bcok)
         {
             throw line.format_error(nsffile, "Invalid b_c value.");
         }
-- 
2.43.0


From ddc8b297dc50d6fae096933da28ecc25c7f22e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:05 +0000
Subject: [PATCH 44/51] fix: Report duplicate bond valence parameters

---
 src/diffpy/srreal/BVParametersTable.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srreal/BVParametersTable.cpp b/src/diffpy/srreal/BVParametersTable.cpp
index 5d39a33..4dd35b6 100644
--- a/src/diffpy/srreal/BVParametersTable.cpp
+++ b/src/diffpy/srreal/BVParametersTable.cpp
@@ -187,8 +187,11 @@ BVParametersTable::getStandardSetOfBVParam() const
             if (lnrd.isignored())  continue;
             BVParam bp;
             bp.setFromCifLine(lnrd.line);
-            assert(!bvset->count(bp));
-            bvset->insert(bp);
+            if (!bvset->insert(bp).second)
+            {
+                throw lnrd.format_error(bvparmfile,
+                        "Duplicate bond valence parameters.");
+            }
         }
         if (bvset->empty())
         {
-- 
2.43.0


From 4c0785b2f16f56c847c7722ca31abae29ed15476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:02 +0000
Subject: [PATCH 45/51] fix: Do not register scattering factor type when its
 alias is taken

---
 src/diffpy/srreal/ScatteringFactorTable.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srreal/ScatteringFactorTable.cpp b/src/diffpy/srreal/ScatteringFactorTable.cpp
index b500efa..ceb84c6 100644
--- a/src/diffpy/srreal/ScatteringFactorTable.cpp
+++ b/src/diffpy/srreal/ScatteringFactorTable.cpp
@@ -39,8 +39,15 @@ bool ScatteringFactorTable::registerThisType() const
 {
     typedef diffpy::HasClassRegistry<ScatteringFactorTable> HCRBase;
     bool rv = this->HCRBase::registerThisType();
-    rv = rv && ScatteringFactorTable::aliasType(
-            this->type(), this->radiationType());
+    try {
+        rv = rv && ScatteringFactorTable::aliasType(
+                this->type(), this->radiationType());
+    }
+    // do not leave the type registered when its alias is already taken
+    catch (logic_error&) {
+        ScatteringFactorTable::deregisterType(this->type());
+        throw;
+    }
     return rv;
 }
 
-- 
2.43.0


From 3c9e69dc3be086e25897e7a8c37abd70ec01fb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:06 +0000
Subject: [PATCH 46/51] fix: reject zero Qmax in DebyePDFCalculator before
 changing it

---
 src/diffpy/srreal/DebyePDFCalculator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/diffpy/srreal/DebyePDFCalculator.cpp b/src/diffpy/srreal/DebyePDFCalculator.cpp
index 5886e26..795e3af 100644
--- a/src/diffpy/srreal/DebyePDFCalculator.cpp
+++ b/src/diffpy/srreal/DebyePDFCalculator.cpp
@@ -140,6 +140,9 @@ const double& DebyePDFCalculator::getQmin() const
 
 void DebyePDFCalculator::setQmax(double qmax)
 {
+    ensureNonNegative("Qmax", qmax);
+    // the optimum qstep is at most qmax / 4 and it must be positive too.
+    ensureEpsilonPositive("Qmax", qmax / 4);
     this->BaseDebyeSum::setQmax(qmax);
     this->updateQstep();
 }
-- 
2.43.0


From cc215129f10e628bae904dade6bc0aaa5289d611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:02 +0000
Subject: [PATCH 47/51] fix: cropped Gaussian profile of zero width

---
 src/diffpy/srreal/CroppedGaussianProfile.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/diffpy/srreal/CroppedGaussianProfile.cpp b/src/diffpy/srreal/CroppedGaussianProfile.cpp
index aabdba0..1708f1f 100644
--- a/src/diffpy/srreal/CroppedGaussianProfile.cpp
+++ b/src/diffpy/srreal/CroppedGaussianProfile.cpp
@@ -63,6 +63,7 @@ const string& CroppedGaussianProfile::type() const
 
 double CroppedGaussianProfile::operator()(double x, double fwhm) const
 {
+    if ( fwhm <= 0 ) return 0.0;
     double xrel = x / fwhm;
     double rv = (fabs(xrel) >= mhalfboundrel) ? 0.0 :
         2 * sqrt(M_LN2 / M_PI) / fwhm *
-- 
2.43.0


From 7738d282b8300cefb9b57ada5a0e0665950b85b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:02 +0000
Subject: [PATCH 48/51] fix: upper bound of anisotropic peak widths

---
 src/diffpy/srreal/DebyeWallerPeakWidth.cpp | 36 +++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srreal/DebyeWallerPeakWidth.cpp b/src/diffpy/srreal/DebyeWallerPeakWidth.cpp
index 10c6bfe..0486005 100644
--- a/src/diffpy/srreal/DebyeWallerPeakWidth.cpp
+++ b/src/diffpy/srreal/DebyeWallerPeakWidth.cpp
@@ -17,6 +17,9 @@
 *
 *****************************************************************************/
 
+#include <algorithm>
+#include <cmath>
+
 #include <diffpy/srreal/DebyeWallerPeakWidth.hpp>
 #include <diffpy/srreal/StructureAdapter.hpp>
 #include <diffpy/serialization.ipp>
@@ -28,6 +31,32 @@ using namespace std;
 
 // Constructors --------------------------------------------------------------
 
+namespace {
+
+/// Largest mean square displacement of one site along any direction, i.e.,
+/// the largest eigenvalue of its displacement tensor.
+double maxSiteMSD(const StructureAdapter& stru, int i)
+{
+    const R3::Matrix& U = stru.siteCartesianUij(i);
+    if (!stru.siteAnisotropy(i))  return U(0,0);
+    const double q = (U(0,0) + U(1,1) + U(2,2)) / 3;
+    const double d0 = U(0,0) - q;
+    const double d1 = U(1,1) - q;
+    const double d2 = U(2,2) - q;
+    const double p = sqrt((d0 * d0 + d1 * d1 + d2 * d2 + 2 * (
+            U(0,1) * U(0,1) + U(0,2) * U(0,2) + U(1,2) * U(1,2))) / 6);
+    if (!(p > 0.0))  return q;
+    // determinant of the scaled deviatoric tensor
+    const double dt = (d0 * (d1 * d2 - U(1,2) * U(1,2)) -
+            U(0,1) * (U(0,1) * d2 - U(1,2) * U(0,2)) +
+            U(0,2) * (U(0,1) * U(1,2) - d1 * U(0,2))) / (p * p * p);
+    const double phi = acos(max(-1.0, min(1.0, dt / 2))) / 3;
+    return q + 2 * p * cos(phi);
+}
+
+}   // namespace
+
+
 PeakWidthModelPtr DebyeWallerPeakWidth::create() const
 {
     PeakWidthModelPtr rv(new DebyeWallerPeakWidth());
@@ -63,7 +92,12 @@ double DebyeWallerPeakWidth::maxWidth(StructureAdapterPtr stru,
                 double rmin, double rmax) const
 {
     using diffpy::mathutils::GAUSS_SIGMA_TO_FWHM;
-    double maxmsd = 2 * maxUii(stru);
+    double maxmsd = 0.0;
+    const int cnt = stru ? stru->countSites() : 0;
+    for (int i = 0; i < cnt; ++i)
+    {
+        maxmsd = max(maxmsd, 2 * maxSiteMSD(*stru, i));
+    }
     double rv = (maxmsd <= 0.0) ? 0.0 : GAUSS_SIGMA_TO_FWHM * sqrt(maxmsd);
     return rv;
 }
-- 
2.43.0


From 424b58dcd4f1bcb0cad63eaf4253d2bd88dcf330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:21 +0000
Subject: [PATCH 49/51] fix: keep type masks when switching to pair masks

---
 src/diffpy/srreal/PairQuantity.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/diffpy/srreal/PairQuantity.cpp b/src/diffpy/srreal/PairQuantity.cpp
index 2d7a1fd..271700e 100644
--- a/src/diffpy/srreal/PairQuantity.cpp
+++ b/src/diffpy/srreal/PairQuantity.cpp
@@ -258,6 +258,8 @@ void PairQuantity::setPairMask(int i, int j, bool mask)
     // update ticker if we are switching from type-mask mode
     if (!mtypemask.empty())
     {
+        // keep type masks as pair masks in the current structure
+        this->updateMaskData();
         mtypemask.clear();
         modified = true;
     }
-- 
2.43.0


From ef14e34b156d5456d65bbd5fbec12f3fcda21168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:14 +0000
Subject: [PATCH 50/51] fix: transform Uij-s by symmetry operations in unequal
 reciprocal axes

---
 src/diffpy/srreal/CrystalStructureAdapter.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srreal/CrystalStructureAdapter.cpp b/src/diffpy/srreal/CrystalStructureAdapter.cpp
index f011594..d1be352 100644
--- a/src/diffpy/srreal/CrystalStructureAdapter.cpp
+++ b/src/diffpy/srreal/CrystalStructureAdapter.cpp
@@ -162,6 +162,7 @@ CrystalStructureAdapter::expandLatticeAtom(const Atom& a0) const
     eqsumpos.reserve(this->countSymOps());
     eqduplicity.reserve(this->countSymOps());
     const Lattice& L = this->getLattice();
+    const R3::Vector rl(L.ar(), L.br(), L.cr());
     SymOpVector::const_iterator op = msymops.begin();
     Atom a1 = a0;
     for (; op != msymops.end(); ++op)
@@ -174,8 +175,14 @@ CrystalStructureAdapter::expandLatticeAtom(const Atom& a0) const
         if (ieq < 0)
         {
             // a1 is a new symmetry site
-            R3::Matrix utmp = R3::prod(a0.uij_cartn, R3::trans(op->R));
-            a1.uij_cartn = R3::prod(op->R, utmp);
+            // Uij-s are scaled by the lengths of reciprocal lattice vectors
+            R3::Matrix Rs = op->R;
+            for (int i = 0; i < R3::Ndim; ++i)
+            {
+                for (int j = 0; j < R3::Ndim; ++j)  Rs(i, j) *= rl[j] / rl[i];
+            }
+            R3::Matrix utmp = R3::prod(a0.uij_cartn, R3::trans(Rs));
+            a1.uij_cartn = R3::prod(Rs, utmp);
             eqsites.push_back(a1);
             eqsumpos.push_back(R3::zerovector);
             eqduplicity.push_back(0);
-- 
2.43.0


From 60ef250b0e199ff108832c2245da9c04d3fbf401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:34 +0000
Subject: [PATCH 51/51] fix: copy bond valence parameters before replacing them

---
 src/diffpy/srreal/BVParametersTable.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srreal/BVParametersTable.cpp b/src/diffpy/srreal/BVParametersTable.cpp
index 4dd35b6..3ca3b73 100644
--- a/src/diffpy/srreal/BVParametersTable.cpp
+++ b/src/diffpy/srreal/BVParametersTable.cpp
@@ -105,8 +105,10 @@ const BVParam& BVParametersTable::lookup(const string& atom0, int valence0,
 
 void BVParametersTable::setCustom(const BVParam& bp)
 {
-    this->resetCustom(bp);
-    mcustomtable.insert(bp);
+    // bp may refer to the table entry that is about to be replaced
+    const BVParam bpcopy = bp;
+    this->resetCustom(bpcopy);
+    mcustomtable.insert(bpcopy);
 }
 
 
-- 
2.43.0

