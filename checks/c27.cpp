// C27: valid use is free of memory errors and does not read leftover data.
//
// The library and this program are compiled with the address and undefined
// behavior sanitizers, any error ends the process.  Every case is executed
// twice with different leftover contents of the heap and of the stack and both
// executions must produce the same numbers.
#include <diffpy/serialization.ipp>
#include "settings.hpp"
#include <diffpy/srreal/NoMetaStructureAdapter.hpp>
#include <diffpy/srreal/NoSymmetryStructureAdapter.hpp>
#include <diffpy/srreal/PointsInSphere.hpp>
#include <diffpy/srreal/StructureDifference.hpp>
#include <diffpy/srreal/AtomUtils.hpp>
#include <diffpy/srreal/PDFUtils.hpp>
#include <diffpy/srreal/Lattice.hpp>
#include <diffpy/srreal/PeakProfile.hpp>
#include <diffpy/srreal/BVParam.hpp>

namespace {

volatile unsigned char fillbyte = 0;

}   // namespace

// leftover contents of the heap
void* operator new(std::size_t n)
{
    void* p = malloc(n ? n : 1);
    if (!p)  throw std::bad_alloc();
    memset(p, fillbyte, n);
    return p;
}
void* operator new[](std::size_t n)  { return operator new(n); }
void operator delete(void* p) noexcept  { free(p); }
void operator delete[](void* p) noexcept  { free(p); }
void operator delete(void* p, std::size_t) noexcept  { free(p); }
void operator delete[](void* p, std::size_t) noexcept  { free(p); }

using namespace mc;
using ref::Struct;

const Info mcinfo = {
    "C27", "model_checking",
    "Every sequence of operations on calculators, structures, bond generators, "
        "tables and components up to the depth bound, and every input of the "
        "value functions from the listed sets.  The code is compiled with the "
        "address and undefined behavior sanitizers.  Every case runs twice "
        "with different leftover bytes in the heap and on the stack and the "
        "numbers obtained must be the same.  An outcome is the digest of "
        "these numbers.",
    "8 calculators with all sequences of 2 out of about 60-90 operations "
        "(settings, edits, copies, serialization, shares of parallel runs, "
        "objects released in any order), 3 kinds of structures with all "
        "sequences of 3 out of 22 container operations, 4 tables with all "
        "sequences of 3 operations, FFT of 0-17 points, all strings of up to 4 "
        "characters out of 7 in symbol parsing, 12 lattices, defaults of all "
        "classes",
    "as quick with the sequences of 3 operations of calculators from a reduced "
        "set and 4 container and table operations",
    {"gcc address and undefined behavior sanitizers with -O1",
     "leaks of memory are not errors",
     "operations respect the documented preconditions, site indices are valid"},
    60
};

namespace {

struct Digest
{
    uint64_t h = 7;
    void operator()(double x)
    {
        // any NaN is the same
        if (x != x)  x = 1.25e301;
        if (x == 0)  x = 0;
        uint64_t b;
        memcpy(&b, &x, 8);
        h = mix(h, b);
    }
    void operator()(const std::string& s)  { h = hashstr(s, h); }
    void operator()(const char* s)  { h = hashstr(s, h); }
    void operator()(const QuantityType& v)
    {
        (*this)(double(v.size()));
        for (double x : v)  (*this)(x);
    }
    void operator()(const R3::Vector& v)
    {
        for (int i = 0; i < 3; ++i)  (*this)(v[i]);
    }
    void operator()(const R3::Matrix& v)
    {
        for (int i = 0; i < 3; ++i)  for (int j = 0; j < 3; ++j)
            (*this)(v(i, j));
    }
    void operator()(const Atom& a)
    {
        (*this)(a.atomtype);
        (*this)(a.xyz_cartn);
        (*this)(a.occupancy);
        (*this)(double(a.anisotropy));
        (*this)(a.uij_cartn);
    }
    void operator()(const Outs& o)
    {
        for (auto& x : o)  { (*this)(x.name); (*this)(x.v); }
    }
};

__attribute__((noinline)) void dirtystack()
{
    volatile unsigned char b[65536];
    for (size_t i = 0; i < sizeof(b); ++i)  b[i] = fillbyte;
}

/// run the case with two kinds of leftover data
void twice(Ctx& ctx, std::function<void(Digest&)> f)
{
    const unsigned char bytes[2] = { 0x00, 0x40 };
    uint64_t h[2];
    for (int k = 0; k < 2; ++k)
    {
        fillbyte = bytes[k];
        dirtystack();
        Digest d;
        f(d);
        h[k] = d.h;
        ctx.trace();
    }
    fillbyte = 0;
    require(h[0] == h[1], "leftover",
            "results depend on leftover contents of the memory");
    ctx.outcome(h[0]);
}

void tryit(Digest& d, std::function<void()> f)
{
    try { f(); }
    catch (std::exception& e) { d("error"); }
}

// calculators -----------------------------------------------------------------

template <class T> bool serialas(QPtr& q)
{
    auto p = boost::dynamic_pointer_cast<T>(q);
    if (!p)  return false;
    std::string s = diffpy::serialization_tostring(*p);
    boost::shared_ptr<T> t(new T);
    diffpy::serialization_fromstring(*t, s);
    q = t;
    return true;
}

bool serial(QPtr& q)
{
    return serialas<PDFCalculator>(q) || serialas<DebyePDFCalculator>(q) ||
        serialas<BondCalculator>(q) || serialas<OverlapCalculator>(q) ||
        serialas<BVSCalculator>(q);
}

StructureAdapterPtr crystal(int k)
{
    Struct s = basestruct(ref::CRYSTAL);
    s.atoms.resize(k);
    return ref::build(s);
}

std::vector<Op> memoryops(const std::string& calc)
{
    std::vector<Op> rv;
    auto add = [&](const std::string& n, std::function<void(World&)> f)
    {
        Op o = { n, f };
        rv.push_back(o);
    };
    // structures change or vanish under the calculator
    add("dropA", [](World& w) {
            Struct a = basestruct(ref::ATOMIC);
            w.a = ref::build(a); });
    add("append", [](World& w) { w.a->append(w.a->size() ? w.a->at(0) : Atom()); });
    add("insert0", [](World& w) { w.a->insert(0,
                w.a->size() ? w.a->at(w.a->size() - 1) : Atom()); });
    add("eraseF", [](World& w) { if (w.a->size())  w.a->erase(0); });
    add("eraseL", [](World& w) { if (w.a->size())
                w.a->erase(int(w.a->size()) - 1); });
    add("clear", [](World& w) { w.a->clear(); });
    add("growshrink", [](World& w) {
            for (int i = 0; i < 40; ++i)  w.a->append(w.b->at(i % 7));
            w.a->erase(w.a->begin() + 5, w.a->end()); });
    add("evalTmp", [](World& w) {
            StructureAdapterPtr s = crystal(3);
            w.q->eval(s); });
    add("evalTmp5", [](World& w) { w.q->eval(crystal(5)); });
    add("evalTmp0", [](World& w) { w.q->eval(crystal(0)); });
    add("nosym", [](World& w) { w.q->eval(nosymmetry(crystal(2))); });
    add("nometa", [](World& w) { w.q->eval(nometa(crystal(2))); });
    add("wrapA", [](World& w) { w.q->eval(nosymmetry(nometa(w.a))); });
    add("again", [](World& w) { w.q->eval(w.q->getStructure()); });
    add("evalonly", [](World& w) { w.q->eval(); });
    // parallel shares
    add("share", [](World& w) { w.q->setupParallelRun(1, 2); });
    add("merge", [](World& w) {
            QPtr u[2] = { copycalc(*w.q), copycalc(*w.q) };
            std::string d[2];
            w.q->setStructure(w.b);
            for (int i = 0; i < 2; ++i)
            {
                u[i]->setupParallelRun(i, 2);
                u[i]->eval(w.b);
                d[i] = u[i]->getParallelData();
                u[i].reset();
            }
            for (int i = 0; i < 2; ++i)  w.q->mergeParallelData(d[i], 2); });
    // masks beyond the sites
    add("mask50", [](World& w) {
            w.q->setPairMask(50, 3, false);
            w.q->setPairMask(2, PairQuantity::ALLATOMSINT, false); });
    add("maskinv", [](World& w) { w.q->maskAllPairs(false);
            w.q->setPairMask(0, 40, true); w.q->invertMask(); });
    add("masktype", [](World& w) { w.q->setTypeMask("", "Zz", false);
            w.q->setTypeMask("all", "Cl1-", false); });
    add("getmask", [](World& w) {
            for (int i = 0; i < 60; i += 7)  w.q->getPairMask(i, 59 - i);
            w.q->getTypeMask("Na1+", "O2-"); });
    // attributes
    add("attrs", [](World& w) {
            for (auto& n : w.q->namesOfDoubleAttributes())
                w.q->getDoubleAttr(n);
            for (auto& n : w.q->namesOfWritableDoubleAttributes())
                w.q->setDoubleAttr(n, w.q->getDoubleAttr(n)); });
    add("badattr", [](World& w) {
            try { w.q->setDoubleAttr("undefined", 1); }
            catch (std::exception&) { } });
    // ranges
    add("rempty", [](World& w) { w.q->setRmin(3.0); w.q->setRmax(2.0); });
    add("rzero", [](World& w) { w.q->setRmin(0.0); w.q->setRmax(0.0); });
    // object lifetime
    add("release", [](World& w) { w.keep.clear(); });
    add("swapold", [](World& w) { if (w.keep.size())
            std::swap(w.keep.back(), w.q); });
    if (calc != "probe" && calc != "probefullfix" && calc != "pair")
    {
        add("serial", [](World& w) { serial(w.q); });
        add("serialkeep", [](World& w) {
                QPtr q1 = w.q; serial(q1); w.keep.push_back(q1); });
    }
    if (calc == "pdf" || calc == "debye")
    {
        add("rsame", [](World& w) { w.q->setRmin(2.0); w.q->setRmax(2.0); });
        add("onepoint", [](World& w) {
                w.q->setDoubleAttr("rstep", 10.0); });
        add("qcross", [](World& w) {
                w.q->setDoubleAttr("qmin", 9.0);
                w.q->setDoubleAttr("qmax", 8.0); });
        add("envself", [](World& w) {
                envl(*w.q).addEnvelopeByType("scale");
                envl(*w.q).addEnvelope(envl(*w.q).getEnvelopeByType("scale"));
                envl(*w.q).popEnvelope(
                    envl(*w.q).getEnvelopeByType("scale")); });
        add("envclear", [](World& w) { envl(*w.q).clearEnvelopes(); });
        add("envheld", [](World& w) {
                envl(*w.q).addEnvelopeByType("sphericalshape");
                PDFEnvelopePtr p =
                    envl(*w.q).getEnvelopeByType("sphericalshape");
                envl(*w.q).addEnvelopeByType("sphericalshape");
                p->setDoubleAttr("spdiameter", 20.0);
                (*p)(1.0);
                envl(*w.q).addEnvelope(p); });
        add("pwmself", [](World& w) {
                pwm(*w.q).setPeakWidthModel(pwm(*w.q).getPeakWidthModel()); });
        add("pwmshared", [](World& w) {
                QPtr u = copycalc(*w.q);
                pwm(*w.q).setPeakWidthModelByType("jeong");
                pwm(*u).setPeakWidthModel(pwm(*w.q).getPeakWidthModel());
                pwm(*w.q).setPeakWidthModelByType("constant");
                w.q = u; });
        add("sftself", [](World& w) {
                sft(*w.q).setScatteringFactorTable(
                    sft(*w.q).getScatteringFactorTable()); });
        add("sftclone", [](World& w) {
                auto t = sft(*w.q).getScatteringFactorTable()->clone();
                t->setCustomAs("Na1+", "K", 3.0);
                sft(*w.q).setScatteringFactorTable(t);
                t.reset(); });
        add("apply", [](World& w) {
                QuantityType x(5, 1.0);
                envl(*w.q).applyEnvelopes(x, x); });
    }
    if (calc == "pdf")
    {
        auto P = [](World& w) -> PDFCalculator&
            { return dynamic_cast<PDFCalculator&>(*w.q); };
        add("profself", [P](World& w) {
                P(w).setPeakProfile(P(w).getPeakProfile()); });
        add("profclone", [P](World& w) {
                auto p = P(w).getPeakProfile()->clone();
                P(w).setPeakProfile(p);
                p->setPrecision(1e-4); });
        add("baseself", [P](World& w) {
                P(w).setBaseline(P(w).getBaseline()); });
        add("applybase", [P](World& w) {
                QuantityType x(4, 0.5), y;
                P(w).applyBaseline(x, x);
                P(w).applyBaseline(y, y); });
        add("extzero", [](World& w) {
                w.q->setDoubleAttr("maxextension", 0.0); });
        add("qnyq", [](World& w) {
                w.q->setDoubleAttr("qmax", M_PI / 0.08); });
    }
    if (calc == "bond")
    {
        auto B = [](World& w) -> BondCalculator&
            { return dynamic_cast<BondCalculator&>(*w.q); };
        add("coneself", [B](World& w) {
                auto d = B(w).directions();
                if (d.size())  B(w).filterCone(d.front(), 30);
                if (d.size())  B(w).filterCone(d.back(), 181); });
    }
    if (calc == "overlap")
    {
        auto O = [](World& w) -> OverlapCalculator&
            { return dynamic_cast<OverlapCalculator&>(*w.q); };
        add("radiiself", [O](World& w) {
                O(w).setAtomRadiiTable(O(w).getAtomRadiiTable()); });
        add("radiistr", [O](World& w) {
                O(w).getAtomRadiiTable()->fromString("Na1+:1.1,O2-:0.9");
                O(w).getAtomRadiiTable()->toString(";"); });
    }
    if (calc == "bvs")
    {
        auto V = [](World& w) -> BVSCalculator&
            { return dynamic_cast<BVSCalculator&>(*w.q); };
        add("tabself", [V](World& w) {
                V(w).setBVParamTable(V(w).getBVParamTable()); });
        add("tabreset", [V](World& w) {
                V(w).getBVParamTable()->resetAll(); });
    }
    return rv;
}

const std::set<std::string> inplace = { "append", "insert0", "eraseF",
    "eraseL", "clear", "growshrink", "edit", "swapold" };
const std::set<std::string> evaluating = { "evalA", "evalB", "evalC",
    "evalTmp", "evalTmp5", "evalTmp0", "nosym", "nometa", "wrapA", "again",
    "evalonly", "merge", "empty" };

void explorecalcs(Ctx& ctx)
{
    const char* calcs[] = { "pdf", "debye", "bond", "overlap", "bvs", "pair",
        "probe", "probefullfix" };
    for (std::string calc : calcs)
    {
        std::vector<Setting> ss = settings(calc);
        std::vector<Op> ops = operations(ctx, calc, ss, false);
        for (auto& o : memoryops(calc))  ops.push_back(o);
        std::vector<Op> few = operations(ctx, calc, ss, true);
        {
            std::vector<Op> r;
            const std::set<std::string> sel = { "rmin1", "rmax1", "mask1",
                "evalA", "evalB", "evaluator1", "edit" };
            for (auto& o : few)  if (sel.count(o.name))  r.push_back(o);
            const std::set<std::string> selm = { "dropA", "append", "eraseF",
                "clear", "evalTmp", "merge", "share", "mask50", "rempty",
                "release", "serial", "swapold", "growshrink" };
            for (auto& o : memoryops(calc))
                if (selm.count(o.name))  r.push_back(o);
            few.swap(r);
        }
        int depth = ctx.thorough ? 3 : 2;
        for (int len = 0; len <= depth; ++len)
        {
            const std::vector<Op>& use = len == 3 ? few : ops;
            long total = 1;
            for (int i = 0; i < len; ++i)  total *= use.size();
            for (long code = 0; code < total; ++code)
            {
                std::vector<const Op*> seq;
                std::string desc = cat("C27 calc ", calc);
                long c = code;
                for (int i = 0; i < len; ++i, c /= use.size())
                {
                    seq.push_back(&use[c % use.size()]);
                    desc += " " + seq.back()->name;
                }
                ctx.run(desc, [&]()
                {
                    twice(ctx, [&](Digest& d)
                    {
                        World w = newworld(calc);
                        tryit(d, [&]() { d(outputsf(*w.q)); });
                        w.q->eval(w.a);
                        ctx.evaluation();
                        // results are not defined between an edit of the
                        // structure in place and the next evaluation
                        bool stale = false;
                        for (auto o : seq)
                        {
                            const std::string& n = o->name;
                            bool reads = n == "read" || n == "coneself" ||
                                n == "attrs";
                            if (stale && reads)  continue;
                            if (n == "edit" && w.a->size() < 4)  continue;
                            tryit(d, [&]() { o->f(w); });
                            if (inplace.count(n))  stale = true;
                            if (evaluating.count(n))  stale = false;
                            if (stale)  continue;
                            tryit(d, [&]() { d(outputsf(*w.q)); });
                            ctx.transition();
                        }
                        // what remains of the other objects does not matter
                        QPtr q = w.q;
                        World x = w;
                        w = World();
                        tryit(d, [&]() { q->eval(x.a); });
                        tryit(d, [&]() { d(outputsf(*q)); });
                        SPtr held = x.b;
                        x = World();
                        tryit(d, [&]() { q->eval(); });
                        tryit(d, [&]() { d(outputsf(*q)); });
                        tryit(d, [&]() { q->eval(held); });
                        held.reset();
                        tryit(d, [&]() { d(outputsf(*q)); });
                        ctx.state(d.h);
                    });
                });
            }
        }
    }
}

// structures ------------------------------------------------------------------

void readstru(Digest& d, const StructureAdapterPtr& s)
{
    int n = s->countSites();
    d(n);
    tryit(d, [&]() { d(s->totalOccupancy()); d(s->numberDensity()); });
    for (int i = 0; i < n; ++i)
    {
        d(s->siteAtomType(i));
        d(s->siteCartesianPosition(i));
        d(s->siteMultiplicity(i));
        d(s->siteOccupancy(i));
        d(s->siteAnisotropy(i));
        d(s->siteCartesianUij(i));
    }
    auto b = s->createBondGenerator();
    b->setRmax(3.5);
    for (int i = 0; i < n; ++i)
    {
        b->selectAnchorSite(i);
        b->selectSiteRange(0, n);
        for (b->rewind(); !b->finished(); b->next())
        {
            d(b->distance());
            d(b->site0());
            d(b->site1());
            d(b->multiplicity());
            d(b->r01());
            d(b->r0());
            d(b->r1());
            d(b->msd());
            d(b->Ucartesian0());
            d(b->Ucartesian1());
        }
        if (i == 2)  b->setRmin(1.0);
        if (i == 3)  b->setRmax(1.5);
    }
}

struct SWorld
{
    SPtr s, t;
    BaseBondGeneratorPtr gen;
    std::vector<StructureDifference> diffs;
    std::vector<StructureAdapterPtr> hold;
};

typedef std::function<void(SWorld&, Digest&)> SFun;
typedef std::pair<std::string, SFun> SOp;

void usegen(Digest& d, const BaseBondGeneratorPtr& g)
{
    g->setRmax(3.0);
    for (g->rewind(); !g->finished(); g->next())  d(g->msd());
}

std::vector<SOp> structops(ref::Kind kind)
{
    std::vector<SOp> rv;
    auto add = [&](const std::string& n, SFun f)
        { rv.push_back(SOp(n, f)); };
    add("app", [](SWorld& w, Digest&) { w.s->append(w.t->at(0)); });
    add("appself", [](SWorld& w, Digest&) { if (w.s->size())
            w.s->append(w.s->at(0)); });
    add("insself", [](SWorld& w, Digest&) { if (w.s->size())
            w.s->insert(0, w.s->at(w.s->size() - 1)); });
    add("insend", [](SWorld& w, Digest&) {
            w.s->insert(int(w.s->size()), w.t->at(1)); });
    add("insit", [](SWorld& w, Digest&) {
            w.s->insert(w.s->end(), w.t->begin(), w.t->end()); });
    add("erF", [](SWorld& w, Digest&) { if (w.s->size()) w.s->erase(0); });
    add("erL", [](SWorld& w, Digest&) { if (w.s->size())
            w.s->erase(w.s->end() - 1); });
    add("erR", [](SWorld& w, Digest&) {
            w.s->erase(w.s->begin(), w.s->begin() + w.s->size() / 2); });
    add("clr", [](SWorld& w, Digest&) { w.s->clear(); });
    add("res", [](SWorld& w, Digest&) { w.s->reserve(50); });
    add("asg", [](SWorld& w, Digest&) { w.s->assign(3, w.t->at(2)); });
    add("asr", [](SWorld& w, Digest&) {
            w.s->assign(w.t->begin(), w.t->begin() + 2); });
    add("set", [](SWorld& w, Digest&) { if (w.s->size())
            { w.s->at(0).xyz_cartn[0] += 0.4;
              w.s->at(0).atomtype = "a rather long name of an atom type"; } });
    add("cpy", [](SWorld& w, Digest&) {
            w.hold.push_back(w.s);
            w.s = boost::dynamic_pointer_cast<AtomicStructureAdapter>(
                w.s->clone()); });
    add("gen", [](SWorld& w, Digest&) {
            if (!w.s->size())  return;
            w.gen = w.s->clone()->createBondGenerator();
            w.gen->selectAnchorSite(int(w.s->size()) - 1);
            w.gen->selectSiteRange(0, w.s->size()); });
    add("genu", [](SWorld& w, Digest& d) {
            if (w.gen)  usegen(d, w.gen); });
    add("dif", [](SWorld& w, Digest&) {
            w.diffs.push_back(w.s->diff(w.t));
            w.diffs.push_back(w.t->clone()->diff(w.s->clone()));
            w.diffs.push_back(w.s->diff(w.s)); });
    add("difu", [](SWorld& w, Digest& d) {
            for (auto& x : w.diffs)
            {
                d(x.allowsfastupdate());
                for (int i : x.pop0)  d(i < x.stru0->countSites() ? 1 : 0);
                for (int i : x.add1)  d(i < x.stru1->countSites() ? 1 : 0);
            } });
    add("drop", [](SWorld& w, Digest&) { w.hold.clear(); w.diffs.clear(); });
    add("ser", [](SWorld& w, Digest&) {
            StructureAdapterPtr p = w.s, r;
            std::string s = diffpy::serialization_tostring(p);
            diffpy::serialization_fromstring(r, s);
            w.s = boost::dynamic_pointer_cast<AtomicStructureAdapter>(r); });
    add("wrap", [](SWorld& w, Digest& d) {
            StructureAdapterPtr p = nosymmetry(w.s->clone());
            StructureAdapterPtr r = nometa(p);
            p.reset();
            readstru(d, r);
            w.hold.push_back(r); });
    if (kind == ref::ATOMIC)  return rv;
    add("lat", [](SWorld& w, Digest& d) {
            auto p = boost::dynamic_pointer_cast<PeriodicStructureAdapter>(w.s);
            p->setLatPar(5.1, 5.2, 6.3, 80, 95, 103);
            d(p->getLattice().volume());
            if (p->size())
            {
                p->toFractional(p->at(0));
                p->toCartesian(p->at(0));
            } });
    if (kind == ref::PERIODIC)  return rv;
    auto C = [](SWorld& w) {
        return boost::dynamic_pointer_cast<CrystalStructureAdapter>(w.s); };
    add("sym", [C](SWorld& w, Digest&) {
            auto p = C(w);
            if (p->countSymOps() > 3)  return;
            R3::Matrix R = R3::identity();
            for (int i = 0; i < 3; ++i)  R(i, i) = -1;
            p->addSymOp(R, R3::Vector(0, 0, 0.5)); });
    add("symself", [C](SWorld& w, Digest&) {
            auto p = C(w);
            if (p->countSymOps() && p->countSymOps() < 4)
                p->addSymOp(p->getSymOp(0)); });
    add("symclr", [C](SWorld& w, Digest&) { C(w)->clearSymOps(); });
    add("eqv", [C](SWorld& w, Digest& d) {
            auto p = C(w);
            for (int i = 0; i < p->countSites(); ++i)
                for (auto& a : p->getEquivalentAtoms(i))  d(a);
            if (p->size())
                for (auto& a : p->expandLatticeAtom(p->at(0)))  d(a);
            p->updateSymmetryPositions(); });
    return rv;
}

void explorestructures(Ctx& ctx)
{
    for (int k = 0; k < 3; ++k)
    {
        std::vector<SOp> ops = structops(ref::Kind(k));
        int depth = ctx.thorough ? 4 : 3;
        for (int len = 0; len <= depth; ++len)
        {
            long total = 1;
            for (int i = 0; i < len; ++i)  total *= ops.size();
            for (long code = 0; code < total; ++code)
            {
                std::string desc = cat("C27 stru ", k);
                std::vector<const SOp*> seq;
                long c = code;
                for (int i = 0; i < len; ++i, c /= ops.size())
                {
                    seq.push_back(&ops[c % ops.size()]);
                    desc += " " + seq.back()->first;
                }
                ctx.run(desc, [&]()
                {
                    twice(ctx, [&](Digest& d)
                    {
                        SWorld w;
                        Struct s = basestruct(ref::Kind(k));
                        s.atoms.resize(3);
                        w.t = ref::build(basestruct(ref::Kind(k)));
                        w.s = ref::build(s);
                        for (auto o : seq)
                        {
                            o->second(w, d);
                            ctx.transition();
                        }
                        readstru(d, w.s);
                        w.s.reset();
                        if (w.gen)  usegen(d, w.gen);
                        for (auto& x : w.diffs)  d(x.allowsfastupdate());
                        for (auto& x : w.hold)  readstru(d, x);
                        for (auto& a : *w.t)  d(a);
                        ctx.state(d.h);
                    });
                });
            }
        }
    }
}

// tables ----------------------------------------------------------------------

typedef std::function<void(Digest&)> Act;

/// all sequences of acts on a new object
void sequences(Ctx& ctx, const std::string& name, int depth,
        std::function<std::vector<std::pair<std::string, Act> >()> make)
{
    auto proto = make();
    int n = proto.size();
    for (int len = 1; len <= depth; ++len)
    {
        long total = 1;
        for (int i = 0; i < len; ++i)  total *= n;
        for (long code = 0; code < total; ++code)
        {
            std::string desc = cat("C27 ", name);
            long c = code;
            for (int i = 0; i < len; ++i, c /= n)
                desc += " " + proto[c % n].first;
            ctx.run(desc, [&]()
            {
                twice(ctx, [&](Digest& d)
                {
                    auto acts = make();
                    long c = code;
                    for (int i = 0; i < len; ++i, c /= n)
                    {
                        tryit(d, [&]() { acts[c % n].second(d); });
                        ctx.transition();
                    }
                    ctx.state(d.h);
                });
            });
        }
    }
}

void exploretables(Ctx& ctx)
{
    typedef std::vector<std::pair<std::string, Act> > Acts;
    int depth = ctx.thorough ? 4 : 3;
    for (std::string tp : {"xray", "neutron", "electron", "electronnumber"})
    {
        sequences(ctx, cat("sft ", tp), depth, [tp]()
        {
            Acts rv;
            auto t = std::make_shared<ScatteringFactorTablePtr>(
                    ScatteringFactorTable::createByType(tp));
            auto look = [t](const char* s)
            {
                return [t, s](Digest& d)
                {
                    for (double q : {0.0, 0.7, 25.0})  d((*t)->lookup(s, q));
                };
            };
            for (const char* s : {"Na1+", "O", "12-C", "D", "", "Xx"})
                rv.push_back(std::make_pair(cat("?", s), look(s)));
            rv.push_back(std::make_pair("as", Act([t](Digest&)
                    { (*t)->setCustomAs("O", "Na1+", 3.0, 0.5); })));
            rv.push_back(std::make_pair("as2", Act([t](Digest&)
                    { (*t)->setCustomAs("Xx", "O"); })));
            rv.push_back(std::make_pair("chain", Act([t](Digest&)
                    { (*t)->setCustomAs("O", "Xx", 2.0); })));
            rv.push_back(std::make_pair("rst", Act([t](Digest&)
                    { (*t)->resetCustom("O"); })));
            rv.push_back(std::make_pair("rsta", Act([t](Digest&)
                    { (*t)->resetAll(); })));
            rv.push_back(std::make_pair("rstself", Act([t](Digest&)
                    { auto c = (*t)->getCustomSymbols();
                      for (auto& s : c)  (*t)->resetCustom(s); })));
            rv.push_back(std::make_pair("cln", Act([t](Digest&)
                    { *t = (*t)->clone(); })));
            rv.push_back(std::make_pair("crt", Act([t](Digest&)
                    { auto n = (*t)->create(); n.swap(*t); })));
            return rv;
        });
    }
    sequences(ctx, "radii", depth, []()
    {
        Acts rv;
        auto t = std::make_shared<AtomRadiiTablePtr>(
                AtomRadiiTable::createByType("constant"));
        auto add = [&](const std::string& n, Act a)
            { rv.push_back(std::make_pair(n, a)); };
        add("look", [t](Digest& d) { d((*t)->lookup("O")); d((*t)->lookup("")); });
        add("set", [t](Digest& d) { (*t)->setCustom("O", 1.2); });
        add("sete", [t](Digest& d) { (*t)->setCustom("", 0.2); });
        for (const char* s : {"", "O:1", "O:1,Na:2", "O:", ":", "O:x", ",",
                "O:1,", " O : 1 , C:2", "a very long name of an atom:2.25"})
            add(cat("str(", s, ")"),
                    [t, s](Digest& d) { (*t)->fromString(s); });
        add("tos", [t](Digest& d) { d((*t)->toString()); });
        add("tos2", [t](Digest& d) { (*t)->fromString((*t)->toString()); });
        add("rst", [t](Digest& d) { (*t)->resetCustom("O"); });
        add("rstself", [t](Digest& d) {
                auto& c = (*t)->getAllCustom();
                if (c.size())  (*t)->resetCustom(c.begin()->first); });
        add("setself", [t](Digest& d) {
                auto& c = (*t)->getAllCustom();
                if (c.size())  (*t)->setCustom(c.begin()->first + "1",
                        c.begin()->second); });
        add("rsta", [t](Digest& d) { (*t)->resetAll(); });
        add("cln", [t](Digest& d) { *t = (*t)->clone(); });
        return rv;
    });
    sequences(ctx, "bvparams", depth, []()
    {
        Acts rv;
        auto t = std::make_shared<BVParametersTablePtr>(new BVParametersTable);
        auto add = [&](const std::string& n, Act a)
            { rv.push_back(std::make_pair(n, a)); };
        add("look", [t](Digest& d) {
                const BVParam& b = (*t)->lookup("Na1+", "Cl1-");
                d(b.mRo); d(b.mref_id); d(b.bondvalence(2.0));
                d(b.bondvalenceToDistance(1.0)); });
        add("look2", [t](Digest& d) {
                d((*t)->lookup("Cl", -1, "Na", 1).mRo);
                d((*t)->lookup("", "").mRo);
                d((*t)->lookup("O", "O2-").mRo); });
        add("set", [t](Digest&) {
                (*t)->setCustom("Na", 1, "Cl", -1, 2.3, 0.4, "abc"); });
        add("setself", [t](Digest&) {
                auto& c = (*t)->getAllCustom();
                if (c.size())  (*t)->setCustom(*c.begin()); });
        add("rstself", [t](Digest&) {
                auto& c = (*t)->getAllCustom();
                if (c.size())  (*t)->resetCustom(*c.begin()); });
        add("rst", [t](Digest&) { (*t)->resetCustom("Cl", -1, "Na", 1); });
        add("rsta", [t](Digest&) { (*t)->resetAll(); });
        add("all", [t](Digest& d) { d(double((*t)->getAll().size())); });
        add("val", [t](Digest& d) { (*t)->setAtomValence("Na", 1);
                (*t)->setAtomValence("O", -2); });
        add("getv", [t](Digest& d) { d((*t)->getAtomValence("Na"));
                d((*t)->getAtomValence("Ca2+")); });
        add("rstv", [t](Digest& d) { (*t)->resetAtomValences(); });
        add("cpy", [t](Digest& d) {
                t->reset(new BVParametersTable(**t)); });
        add("ser", [t](Digest& d) {
                BVParametersTable u;
                diffpy::serialization_fromstring(u,
                    diffpy::serialization_tostring(**t));
                **t = u; });
        return rv;
    });
}

// values ----------------------------------------------------------------------

void explorevalues(Ctx& ctx)
{
    // symbols
    const std::string alphabet = "Ca1+- \xe9";
    int maxlen = ctx.thorough ? 6 : 4;
    std::vector<std::string> words(1);
    size_t lo = 0;
    for (int len = 0; len <= maxlen; ++len)
    {
        size_t hi = words.size();
        for (size_t i = lo; i < hi; ++i)
        {
            std::string w = words[i];
            if (len < maxlen)
                for (char c : alphabet)  words.push_back(w + c);
            ctx.run(cat("C27 symbol '", w, "'"), [&]()
            {
                twice(ctx, [&](Digest& d)
                {
                    tryit(d, [&]() { d(atomBareSymbol(w)); });
                    tryit(d, [&]() { d(double(atomValence(w))); });
                });
            });
        }
        lo = hi;
    }
    // Fourier transformations
    for (int n = 0; n <= (ctx.thorough ? 130 : 34); ++n)
    for (double step : {0.01, 0.3})
    for (int off : {0, 1, 2, 3, 5, 7, 8})
    {
        ctx.run(cat("C27 fft ", n, " ", step, " ", off), [&]()
        {
            twice(ctx, [&](Digest& d)
            {
                QuantityType g(n);
                for (int i = 0; i < n; ++i)
                    g[i] = (i + off) ? 1.0 / (i + 1 + off) : 0.0;
                d(fftgtof(g, step, off * step));
                d(fftftog(g, step, off * step));
            });
        });
    }
    // lattices and points in a shell
    const double lats[][6] = {
        {1, 1, 1, 90, 90, 90}, {2, 3, 4, 90, 90, 90}, {3, 3, 5, 90, 90, 120},
        {3, 3, 3, 60, 60, 60}, {4, 5, 6, 70, 80, 100}, {1, 9, 2, 90, 100, 90},
        {5, 5, 5, 109, 109, 109}, {2, 2, 20, 90, 90, 90},
        {3, 4, 5, 50, 60, 55}, {3, 4, 5, 140, 100, 110},
        {1e-3, 1e-3, 1e-3, 90, 90, 90}, {100, 100, 100, 90, 90, 90} };
    const double rr[] = { -1.0, 0.0, 0.5, 1.0, 3.0, 6.5 };
    for (auto& l : lats)
    for (double rlo : rr)
    for (double rhi : rr)
    {
        double sc = l[0] < 0.1 ? 1e-3 : 1.0;
        ctx.run(cat("C27 sphere ", l[0], " ", l[1], " ", l[2], " ", l[3], " ",
            l[4], " ", rlo, " ", rhi), [&]()
        {
            twice(ctx, [&](Digest& d)
            {
                Lattice L(l[0], l[1], l[2], l[3], l[4], l[5]);
                d(L.volume());
                d(L.metrics());
                R3::Vector u(0.3, -7.6, 12.5), v(1, 0, -1);
                d(L.dot(u, v)); d(L.norm(u)); d(L.distance(u, v));
                d(L.angledeg(u, v));
                d(L.cartesian(u)); d(L.fractional(u));
                d(L.ucvCartesian(u)); d(L.ucvFractional(u));
                d(L.cartesianMatrix(R3::identity()));
                d(L.fractionalMatrix(R3::identity()));
                d(L.ucMaxDiagonalLength());
                PointsInSphere p(rlo * sc, rhi * sc, L);
                for (p.rewind(); !p.finished(); p.next())
                {
                    d(p.r()); d(p.m()); d(p.n()); d(p.o());
                    ctx.transition();
                }
                // scaled to a few reciprocal vectors
                if (l[0] > 50)  return;
                ReflectionsInQminQmax q(rlo / sc, rhi / sc, L);
                for (q.rewind(); !q.finished(); q.next())
                {
                    d(q.Q()); d(q.h()); d(q.k()); d(q.l());
                }
                ReflectionsInDmaxDmin m(1.5 * sc, 0.9 * sc, L);
                for (m.rewind(); !m.finished(); m.next())  d(m.d());
            });
        });
    }
    // all numbers of new objects are defined
    auto attrs = [](Digest& d, const diffpy::Attributes& a)
    {
        auto names = a.namesOfDoubleAttributes();
        for (auto& n : std::set<std::string>(names.begin(), names.end()))
        {
            d(n);
            tryit(d, [&]() { d(a.getDoubleAttr(n)); });
        }
    };
    for (std::string calc : {"pdf", "debye", "bond", "overlap", "bvs", "pair",
        "probe"})
    ctx.run(cat("C27 defaults ", calc), [&]()
    {
        twice(ctx, [&](Digest& d)
        {
            QPtr q;
            if (calc == "pdf")  q.reset(new PDFCalculator);
            else if (calc == "debye")  q.reset(new DebyePDFCalculator);
            else if (calc == "overlap")  q.reset(new OverlapCalculator);
            else  q = makecalc(calc);
            attrs(d, *q);
            d(q->getRmin());
            d(q->getRmax());
            d(q->getEvaluatorType());
            d(q->getPairMask(0, 1));
            d(q->getTypeMask("C", "C"));
            d(q->value());
            tryit(d, [&]() { d(outputsf(*q)); });
        });
    });
    auto newobj = [&](const char* kind, const std::string& tp,
        std::function<void(Digest&)> f)
    {
        ctx.run(cat("C27 defaults ", kind, " ", tp), [&]()
                { twice(ctx, f); });
    };
    StructureAdapterPtr stru = ref::build(basestruct(ref::PERIODIC));
    const double xs[] = { -0.5, 0.0, 0.3, 2.0, 40.0 };
    for (auto& tp : PeakProfile::getRegisteredTypes())
        newobj("profile", tp, [&](Digest& d) {
            auto p = PeakProfile::createByType(tp);
            attrs(d, *p);
            for (double x : xs)  d((*p)(x, 0.2));
            attrs(d, *p->clone()); });
    for (auto& tp : PeakWidthModel::getRegisteredTypes())
        newobj("width", tp, [&](Digest& d) {
            auto p = PeakWidthModel::createByType(tp);
            attrs(d, *p);
            d(p->maxWidth(stru, 0.5, 3.0));
            auto b = stru->createBondGenerator();
            b->setRmax(3.0);
            for (b->rewind(); !b->finished(); b->next())  d(p->calculate(*b));
            attrs(d, *p->clone()); });
    for (auto& tp : PDFEnvelope::getRegisteredTypes())
        newobj("envelope", tp, [&](Digest& d) {
            auto p = PDFEnvelope::createByType(tp);
            attrs(d, *p);
            for (double x : xs)  d((*p)(x));
            attrs(d, *p->clone()); });
    for (auto& tp : PDFBaseline::getRegisteredTypes())
        newobj("baseline", tp, [&](Digest& d) {
            auto p = PDFBaseline::createByType(tp);
            attrs(d, *p);
            for (double x : xs)  d((*p)(x));
            attrs(d, *p->clone()); });
    for (auto& tp : ScatteringFactorTable::getRegisteredTypes())
        newobj("sft", tp, [&](Digest& d) {
            auto p = ScatteringFactorTable::createByType(tp);
            d(p->radiationType());
            d(p->lookup("C", 0.5)); });
    for (auto& tp : AtomRadiiTable::getRegisteredTypes())
        newobj("radii", tp, [&](Digest& d) {
            auto p = AtomRadiiTable::createByType(tp);
            tryit(d, [&]() { d(p->lookup("C")); });
            d(p->toString()); });
    newobj("value", "types", [&](Digest& d) {
            Lattice* L = new Lattice;
            d(L->a()); d(L->volume()); d(L->base());
            delete L;
            BVParam* b = new BVParam;
            d(b->mRo); d(b->mB); d(b->mvalence0); d(b->mvalence1);
            d(b->bondvalence(2.0));
            delete b;
            Atom* a = new Atom;
            d(*a);
            delete a;
            StructureDifference* s = new StructureDifference;
            d(s->allowsfastupdate());
            delete s;
            boost::scoped_ptr<CrystalStructureAdapter> c(
                new CrystalStructureAdapter);
            d(c->getSymmetryPrecision()); d(c->countSymOps()); });
    // profiles, widths, envelopes, baselines by type
    for (auto& tp : PeakProfile::getRegisteredTypes())
    for (double f : {0.0, 0.01, 0.3, 5.0})
    for (double e : {0.0, 1e-9, 3e-6, 0.5})
    {
        ctx.run(cat("C27 profile ", tp, " ", f, " ", e), [&]()
        {
            twice(ctx, [&](Digest& d)
            {
                auto p = PeakProfile::createByType(tp);
                p->setPrecision(e);
                tryit(d, [&]() {
                    d(p->xboundlo(f)); d(p->xboundhi(f));
                    for (double x : {-3.0, -0.1, 0.0, 0.2, 50.0})
                        d((*p)(x, f)); });
            });
        });
    }
}

}   // namespace

void explore(Ctx& ctx)
{
    explorevalues(ctx);
    exploretables(ctx);
    explorestructures(ctx);
    explorecalcs(ctx);
}
