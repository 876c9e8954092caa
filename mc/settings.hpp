// Settings of calculators with alternative values, and operations on
// calculators that are shared by the checks of histories and serialization.
#ifndef SETTINGS_HPP_INCLUDED
#define SETTINGS_HPP_INCLUDED

#include "calcs.hpp"
#include <diffpy/srreal/AtomRadiiTable.hpp>
#include <diffpy/srreal/BVParametersTable.hpp>
#include <diffpy/srreal/ScatteringFactorTable.hpp>
#include <diffpy/srreal/PDFBaseline.hpp>

namespace mc {

using ref::Struct;

typedef std::map<std::string, int> Cfg;

struct Setting
{
    std::string name;
    int nalts;
    // apply alternative k, the rest of the configuration is given
    std::function<void(PairQuantity&, int, const Cfg&)> set;
    // settings that return to zero when this one is applied
    std::vector<std::string> resets;
};

struct World
{
    QPtr q;
    Cfg cfg;
    SPtr a, b, c, e;
    int edits = 0;
    std::vector<QPtr> keep;
};

struct Op
{
    std::string name;
    std::function<void(World&)> f;
};

inline int cfgget(const Cfg& c, const std::string& n)
{
    auto i = c.find(n);
    return i == c.end() ? 0 : i->second;
}

template <class T> QPtr copyas(const PairQuantity& q)
{
    auto p = dynamic_cast<const T*>(&q);
    return p ? QPtr(new T(*p)) : QPtr();
}

inline QPtr copycalc(const PairQuantity& q)
{
    QPtr rv;
    if (!rv)  rv = copyas<PDFCalculator>(q);
    if (!rv)  rv = copyas<DebyePDFCalculator>(q);
    if (!rv)  rv = copyas<BondCalculator>(q);
    if (!rv)  rv = copyas<OverlapCalculator>(q);
    if (!rv)  rv = copyas<BVSCalculator>(q);
    if (!rv)  rv = copyas<PairCounter>(q);
    if (!rv)  rv = copyas<ProbeQuantity>(q);
    require(bool(rv), "harness", "cannot copy");
    return rv;
}

inline PeakWidthModelOwner& pwm(PairQuantity& q)
{
    return dynamic_cast<PeakWidthModelOwner&>(q);
}
inline ScatteringFactorTableOwner& sft(PairQuantity& q)
{
    return dynamic_cast<ScatteringFactorTableOwner&>(q);
}
inline PDFEnvelopeOwner& envl(PairQuantity& q)
{
    return dynamic_cast<PDFEnvelopeOwner&>(q);
}

inline std::vector<Setting> settings(const std::string& calc)
{
    std::vector<Setting> rv;
    auto add = [&](const std::string& n, int nalts,
            std::function<void(PairQuantity&, int, const Cfg&)> f,
            std::vector<std::string> resets = {})
    {
        Setting s = { n, nalts, f, resets };
        rv.push_back(s);
    };
    auto attr = [&](const std::string& n, std::vector<double> v)
    {
        add(n, v.size(), [n, v](PairQuantity& q, int k, const Cfg&)
                { q.setDoubleAttr(n, v[k]); });
    };
    const bool pdf = (calc == "pdf"), debye = (calc == "debye");
    if (debye)  attr("maxextension", { 0.4, 1.0 });
    if (debye)  attr("rmin", { 0.0, 1.3 });
    else attr("rmin", { 0.0, 1.3, 5.0 });
    if (pdf)  attr("rmax", { 4.0, 2.9, 6.2 });
    else if (debye)  attr("rmax", { 4.0, 5.2, 3.0 });
    else if (calc == "bvs" || calc == "overlap")  attr("rmax", { 4.0, 1.5 });
    else  attr("rmax", { 4.0, 2.4 });
    if (pdf || debye)
    {
        if (pdf)  attr("rstep", { 0.08, 0.11 });
        else  attr("rstep", { 0.006, 0.003 });
        attr("qmin", { 0.0, 1.1 });
        if (pdf)  attr("qmax", { 0.0, 12, 30 });
        else  attr("qmax", { 10, 8, 12 });
        if (pdf)  attr("maxextension", { 2.0, 0.5 });
        add("pwm", 3, [](PairQuantity& q, int k, const Cfg&)
                {
                    const char* t[] = { "jeong", "constant", "debye-waller" };
                    pwm(q).setPeakWidthModelByType(t[k]);
                }, { "pwmpar" });
        add("pwmpar", 2, [](PairQuantity& q, int k, const Cfg& c)
                {
                    int t = cfgget(c, "pwm");
                    PeakWidthModel& p = *pwm(q).getPeakWidthModel();
                    if (t == 0)  p.setDoubleAttr("delta2", k ? 1.4 : 0.0);
                    if (t == 1)  p.setDoubleAttr("width", k ? 0.3 : 0.0);
                });
        add("sft", 3, [](PairQuantity& q, int k, const Cfg&)
                {
                    const char* t[] = { "xray", "neutron", "electronnumber" };
                    sft(q).setScatteringFactorTableByType(t[k]);
                }, { "sftcustom" });
        add("sftcustom", 3, [](PairQuantity& q, int k, const Cfg&)
                {
                    auto t = sft(q).getScatteringFactorTable();
                    if (k == 0)  t->resetAll();
                    if (k == 1)  t->setCustomAs("Na1+", "Na", 7.5);
                    if (k == 2)  t->setCustomAs("Na1+", "Cl");
                });
        add("scale", 2, [](PairQuantity& q, int k, const Cfg&)
                {
                    if (!envl(q).usedEnvelopeTypes().count("scale"))
                        envl(q).addEnvelopeByType("scale");
                    q.setDoubleAttr("scale", k ? 0.6 : 1.0);
                });
        add("qdamp", 2, [](PairQuantity& q, int k, const Cfg&)
                {
                    if (!envl(q).usedEnvelopeTypes().count("qresolution"))
                        envl(q).addEnvelopeByType("qresolution");
                    q.setDoubleAttr("qdamp", k ? 0.2 : 0.0);
                });
        add("stepcut", 2, [](PairQuantity& q, int k, const Cfg&)
                {
                    envl(q).popEnvelopeByType("stepcut");
                    if (!k)  return;
                    envl(q).addEnvelopeByType("stepcut");
                    q.setDoubleAttr("stepcut", 2.5);
                });
    }
    if (pdf)
    {
        add("profile", 2, [](PairQuantity& q, int k, const Cfg&)
                {
                    dynamic_cast<PDFCalculator&>(q).setPeakProfileByType(
                            k ? "croppedgaussian" : "gaussian");
                });
        attr("peakprecision", { 1e-9, 1e-3 });
        add("baseline", 2, [](PairQuantity& q, int k, const Cfg&)
                {
                    dynamic_cast<PDFCalculator&>(q).setBaselineByType(
                            k ? "zero" : "linear");
                });
    }
    if (debye)
    {
        add("qstep", 2, [](PairQuantity& q, int k, const Cfg&)
                {
                    auto& d = dynamic_cast<DebyePDFCalculator&>(q);
                    if (k)  d.setQstep(0.31);
                    else  d.setOptimumQstep();
                });
        attr("debyeprecision", { 1e-13, 20.0 });
    }
    if (calc == "overlap")
    {
        add("radii", 2, [](PairQuantity& q, int k, const Cfg&)
                {
                    boost::shared_ptr<ConstantRadiiTable> t(
                            new ConstantRadiiTable);
                    t->setDefault(k ? 1.2 : 0.85);
                    if (!k)
                    {
                        t->setCustom("Na1+", 0.7);
                        t->setCustom("O", 1.1);
                    }
                    dynamic_cast<OverlapCalculator&>(q).setAtomRadiiTable(t);
                }, { "radius", "dflt" });
        add("radius", 2, [](PairQuantity& q, int k, const Cfg& c)
                {
                    auto t = dynamic_cast<OverlapCalculator&>(
                            q).getAtomRadiiTable();
                    if (k)  t->setCustom("Cl1-", 1.4);
                    else  t->resetCustom("Cl1-");
                });
        add("dflt", 2, [](PairQuantity& q, int k, const Cfg& c)
                {
                    auto t = dynamic_cast<OverlapCalculator&>(
                            q).getAtomRadiiTable();
                    boost::dynamic_pointer_cast<ConstantRadiiTable>(t)->
                        setDefault(k ? 1.05 : cfgget(c, "radii") ? 1.2 : 0.85);
                });
    }
    if (calc == "bvs")
    {
        add("bvtable", 2, [](PairQuantity& q, int k, const Cfg&)
                {
                    BVParametersTablePtr t(new BVParametersTable);
                    if (k)  t->setCustom("Na", 1, "Cl", -1, 2.3, 0.4);
                    dynamic_cast<BVSCalculator&>(q).setBVParamTable(t);
                }, { "bvcustom" });
        add("bvcustom", 2, [](PairQuantity& q, int k, const Cfg& c)
                {
                    auto t = dynamic_cast<BVSCalculator&>(q).getBVParamTable();
                    if (k)  t->setCustom("Na", 1, "O", -2, 1.9, 0.37);
                    else  t->resetCustom("Na", 1, "O", -2);
                });
        add("bvmode", 2, [](PairQuantity& q, int k, const Cfg& c)
                {
                    auto t = dynamic_cast<BVSCalculator&>(q).getBVParamTable();
                    if (k)  t->setCustom("Na", 1, "Na", 1, 1.5, 0.5);
                    else  t->resetCustom("Na", 1, "Na", 1);
                });
        rv[rv.size() - 3].resets.push_back("bvmode");
        attr("valenceprecision", { 1e-5, 1e-2 });
    }
    if (calc == "bond")
    {
        add("cone", 3, [](PairQuantity& q, int k, const Cfg&)
                {
                    auto& b = dynamic_cast<BondCalculator&>(q);
                    b.filterOff();
                    if (k == 1)  b.filterCone(R3::Vector(1, 0, 0), 50);
                    if (k == 2)  b.filterCone(R3::Vector(0, 1, 1), 60);
                });
    }
    add("mask", 4, [](PairQuantity& q, int k, const Cfg&)
            {
                q.maskAllPairs(k != 3);
                if (k == 1)  q.setPairMask(0, 1, false);
                if (k == 2)  q.setTypeMask("Na1+", "all", false);
                if (k == 3)  q.setTypeMask("Na1+", "Cl1-", true);
            });
    if (pdf || debye || calc == "bond" || calc == "probe")
    {
        add("evaluator", 3, [](PairQuantity& q, int k, const Cfg&)
                {
                    PQEvaluatorType t[] = { OPTIMIZED, BASIC, CHECK };
                    q.setEvaluatorType(t[k]);
                });
    }
    return rv;
}

inline QPtr freshcalc(const std::string& calc)
{
    QPtr rv = makecalc(calc);
    if (calc == "debye")
    {
        auto p = boost::dynamic_pointer_cast<DebyePDFCalculator>(rv);
        p->setMaxExtension(0.4);
        p->setRstep(0.006);
    }
    return rv;
}

inline QPtr canonical(const std::string& calc, const std::vector<Setting>& ss,
        const Cfg& cfg)
{
    QPtr rv = freshcalc(calc);
    for (auto& s : ss)
    {
        int k = cfgget(cfg, s.name);
        if (k && s.name != "evaluator")  s.set(*rv, k, cfg);
    }
    return rv;
}

inline World newworld(const std::string& calc)
{
    World w;
    w.q = freshcalc(calc);
    Struct a = basestruct(ref::ATOMIC);
    w.a = ref::build(a);
    Struct b = a;
    moveatom(b, 1, 0.3);
    b.atoms[2].occ = 0.4;
    w.b = ref::build(b);
    Struct c = basestruct(ref::PERIODIC);
    c.atoms.resize(3);
    w.c = ref::build(c);
    Struct e = a;
    e.atoms[2].type = "Xx";
    w.e = ref::build(e);
    return w;
}

inline void editA(World& w)
{
    w.a->at(3).xyz_cartn[1] += 0.15;
    ++w.edits;
}

inline std::vector<Op> operations(Ctx& ctx, const std::string& calc,
        const std::vector<Setting>& ss, bool reduced)
{
    std::vector<Op> rv;
    auto add = [&](const std::string& n, std::function<void(World&)> f)
    {
        Op o = { n, f };
        rv.push_back(o);
    };
    for (auto& s : ss)  for (int k = 0; k < s.nalts; ++k)
    {
        if (reduced && k >= 2)  continue;
        auto f = [s, k](World& w)
        {
            s.set(*w.q, k, w.cfg);
            w.cfg[s.name] = k;
            for (auto& r : s.resets)  w.cfg.erase(r);
        };
        add(cat(s.name, k), f);
    }
    add("evalA", [](World& w) { w.q->eval(w.a); });
    add("evalB", [](World& w) { w.q->eval(w.b); });
    add("evalC", [](World& w) { w.q->eval(w.c); });
    add("evalE", [](World& w)
            {
                try { w.q->eval(w.e); } catch (std::exception& ) { }
                // failed structure remains assigned
                w.q->setStructure(w.a);
            });
    add("setB", [](World& w) { w.q->setStructure(w.b); });
    add("empty", [](World& w) { w.q->eval(emptyStructureAdapter()); });
    add("edit", editA);
    add("par", [](World& w) {
            w.q->setupParallelRun(1, 3);
            w.q->eval(w.b);
            w.q->setupParallelRun(0, 1);
            });
    add("read", [](World& w) { outputsf(*w.q); });
    add("copy", [](World& w) {
            QPtr q1 = copycalc(*w.q);
            w.keep.push_back(w.q);
            w.q = q1;
            });
    add("swap", [](World& w) {
            // evaluate the copy with another structure
            QPtr q1 = copycalc(*w.q);
            q1->eval(w.b);
            w.keep.push_back(q1);
            });
    add("copypar", [](World& w) {
            QPtr q1 = copycalc(*w.q);
            q1->setupParallelRun(0, 4);
            w.keep.push_back(q1);
            });
    add("assign", [](World& w) {
            if (auto p = dynamic_cast<BondCalculator*>(w.q.get()))
            {
                BondCalculator t;
                t.eval(w.c);
                t = *p;
                *p = t;
                t.eval(w.b);
            }
            if (auto p = dynamic_cast<PDFCalculator*>(w.q.get()))
            {
                PDFCalculator t;
                t.eval(w.c);
                t = *p;
                *p = t;
                t.eval(w.b);
            }
            });
    if (calc != "bond" && calc != "pdf")  rv.pop_back();
    if (reduced)
    {
        const std::set<std::string> skip = { "setB", "empty", "par", "copy",
            "copypar", "assign", "evalC", "stepcut0", "stepcut1", "scale0",
            "scale1", "qdamp0", "qdamp1", "baseline0", "baseline1",
            "debyeprecision0", "debyeprecision1", "evaluator0", "evaluator1" };
        std::vector<Op> r;
        for (auto& o : rv)  if (!skip.count(o.name))  r.push_back(o);
        rv.swap(r);
    }
    return rv;
}

}   // namespace mc

#endif  // SETTINGS_HPP_INCLUDED
