// C07: saved and restored objects behave as the originals.
#include <sstream>
#include "settings.hpp"
#include <diffpy/serialization.ipp>
#include <diffpy/srreal/BaseDebyeSum.hpp>
#include <diffpy/srreal/NoMetaStructureAdapter.hpp>
#include <diffpy/srreal/NoSymmetryStructureAdapter.hpp>
#include <diffpy/srreal/PeakProfile.hpp>
#include <diffpy/srreal/StructureDifference.hpp>
#include <boost/serialization/vector.hpp>
#include <boost/serialization/map.hpp>
#include <boost/serialization/utility.hpp>

using namespace mc;
using ref::Struct;

const Info mcinfo = {
    "C07", "model_checking",
    "Calculators: all sequences up to the depth bound over the alphabet of "
        "configuration and evaluation operations, then the calculator is "
        "written and read (alone into a calculator in another state, or "
        "together with its structures), then all continuations up to the "
        "second bound are applied to both.  Structures: all edit sequences "
        "before and after the restore, for every kind and wrapper.  "
        "Components: all types with all combinations of attribute values.  "
        "Partial merges: every split of workers before and after the "
        "restore.  All outputs, attributes, types and masks of the original "
        "and the restored object are compared at the restore and after the "
        "continuation.  An outcome is the hash of outputs.",
    "calculators 2 operations before and 1 after the restore (with all "
        "alternatives of PDF and Debye settings 1 before and 1 after; the "
        "first alternative of each setting after the restore), "
        "structures 2 edits before and 1 after, merges of up to 4 workers",
    "calculators 2 operations before and 2 after (2 before and 1 after for "
        "PDF and Debye), structures 2 edits before and 2 after",
    {"objects are restored in the same process"},
    60
};

namespace {

// views of configuration ------------------------------------------------------

void addstr(Outs& o, const std::string& n, const std::string& s)
{
    addout(o, n + "=" + s, QuantityType());
}

Outs attrview(const diffpy::Attributes& a)
{
    Outs rv;
    for (auto& n : a.namesOfDoubleAttributes())
        addout(rv, "attribute " + n, QuantityType(1, a.getDoubleAttr(n)), 0);
    for (auto& n : a.namesOfWritableDoubleAttributes())
        addstr(rv, "writable", n);
    return rv;
}

void sftview(Outs& o, const ScatteringFactorTable& t)
{
    addstr(o, "sftype", t.type());
    QuantityType v;
    for (auto s : { "Na1+", "Cl1-", "O2-", "K1+" })
        for (double q : { 0.0, 2.5 })  v.push_back(t.lookup(s, q));
    addout(o, "sflookup", v, 0);
    std::set<std::string> cs;
    for (auto& s : t.getCustomSymbols())  cs.insert(s);
    for (auto& s : cs)  addstr(o, "sfcustom", s);
}

void radiiview(Outs& o, const AtomRadiiTable& t)
{
    addstr(o, "radiitype", t.type());
    QuantityType v;
    for (auto s : { "Na1+", "Cl1-", "O2-", "K1+", "C" })
    {
        try { v.push_back(t.lookup(s)); }
        catch (std::exception&)  { v.push_back(-1); }
    }
    addout(o, "radii", v, 0);
    std::map<std::string, double> custom;
    for (auto& kv : t.getAllCustom())  custom[kv.first] = kv.second;
    for (auto& kv : custom)
        addout(o, "radius " + kv.first, QuantityType(1, kv.second), 0);
}

void bvview(Outs& o, const BVParametersTable& t)
{
    QuantityType v;
    const BVParam* bps[] = { &t.lookup("Na1+", "Cl1-"), &t.lookup("O2-", "Na1+"),
        &t.lookup("Na1+", "Na1+"), &t.lookup("K1+", "O2-") };
    for (auto p : bps)
    {
        v.push_back(p->mRo);
        v.push_back(p->mB);
        v.push_back(p == &t.none());
        addstr(o, "ref", p->mref_id + " " + p->matom0 + p->matom1);
    }
    for (auto s : { "Na1+", "Cl1-", "O2-", "K" })
        v.push_back(t.getAtomValence(s));
    v.push_back(t.getAll().size());
    v.push_back(t.getAllCustom().size());
    addout(o, "bvtable", v, 0);
}

Outs configview(const PairQuantity& q)
{
    Outs rv = attrview(q);
    addout(rv, "evaluator", std::vector<double> { double(q.getEvaluatorType()),
            double(q.getEvaluatorTypeUsed()) }, 0);
    QuantityType m;
    for (int i = 0; i < 7; ++i)  for (int j = i; j < 7; ++j)
        m.push_back(q.getPairMask(i, j));
    for (auto s : { "Na1+", "Cl1-", "O2-", "all" })
        for (auto t : { "Na1+", "Cl1-", "all" })
            m.push_back(q.getTypeMask(s, t));
    addout(rv, "masks", m, 0);
    if (auto p = dynamic_cast<const PeakWidthModelOwner*>(&q))
        addstr(rv, "pwm", p->getPeakWidthModel()->type());
    if (auto p = dynamic_cast<const ScatteringFactorTableOwner*>(&q))
        sftview(rv, *p->getScatteringFactorTable());
    if (auto p = dynamic_cast<const PDFEnvelopeOwner*>(&q))
        for (auto& s : p->usedEnvelopeTypes())  addstr(rv, "envelope", s);
    if (auto p = dynamic_cast<const PDFCalculator*>(&q))
    {
        addstr(rv, "profile", p->getPeakProfile()->type());
        addstr(rv, "baseline", p->getBaseline()->type());
    }
    if (auto p = dynamic_cast<const DebyePDFCalculator*>(&q))
        addout(rv, "optimum", QuantityType(1, p->isOptimumQstep()), 0);
    if (auto p = dynamic_cast<const OverlapCalculator*>(&q))
        radiiview(rv, *p->getAtomRadiiTable());
    if (auto p = dynamic_cast<const BVSCalculator*>(&q))
        bvview(rv, *p->getBVParamTable());
    return rv;
}

void exact(const Outs& got, const Outs& expect, const std::string& sig,
        const std::string& what)
{
    require(got.size() == expect.size(), sig, what,
            " different lists of results");
    for (size_t k = 0; k < got.size(); ++k)
    {
        require(got[k].name == expect[k].name, sig, what, " ", got[k].name,
                " instead of ", expect[k].name);
        require(got[k].v.size() == expect[k].v.size(), sig, what, " ",
                got[k].name, " has size ", got[k].v.size(), " instead of ",
                expect[k].v.size());
        for (size_t i = 0; i < got[k].v.size(); ++i)
        {
            double x = got[k].v[i], y = expect[k].v[i];
            require(x == y || (std::isnan(x) && std::isnan(y)), sig, what, " ",
                    got[k].name, "[", i, "] is ", x, " instead of ", y);
        }
    }
}

Outs siteview(const StructureAdapterPtr& s)
{
    Outs rv;
    QuantityType v;
    int n = s->countSites();
    for (int i = 0; i < n; ++i)
    {
        addstr(rv, "type", s->siteAtomType(i));
        for (int k = 0; k < 3; ++k)
        {
            v.push_back(s->siteCartesianPosition(i)[k]);
            for (int l = 0; l < 3; ++l)
                v.push_back(s->siteCartesianUij(i)(k, l));
        }
        v.push_back(s->siteOccupancy(i));
        v.push_back(s->siteMultiplicity(i));
        v.push_back(s->siteAnisotropy(i));
    }
    v.push_back(s->totalOccupancy());
    v.push_back(s->numberDensity());
    addout(rv, "sites", v, 0);
    QuantityType b;
    auto bg = s->createBondGenerator();
    bg->setRmax(3.5);
    for (int i = 0; i < n; ++i)
    {
        bg->selectAnchorSite(i);
        for (bg->rewind(); !bg->finished(); bg->next())
        {
            b.push_back(bg->site1());
            b.push_back(bg->distance());
            b.push_back(bg->multiplicity());
            b.push_back(bg->msd());
            for (int k = 0; k < 3; ++k)  b.push_back(bg->r01()[k]);
        }
    }
    addout(rv, "bonds", b, 0);
    if (auto p = boost::dynamic_pointer_cast<PeriodicStructureAdapter>(s))
    {
        const Lattice& l = p->getLattice();
        std::vector<double> w = { l.a(), l.b(), l.c(), l.alpha(), l.beta(),
            l.gamma(), l.volume() };
        for (int i = 0; i < 3; ++i)  for (int k = 0; k < 3; ++k)
        {
            w.push_back(l.base()(i, k));
            w.push_back(l.recbase()(i, k));
            w.push_back(l.metrics()(i, k));
        }
        R3::Vector x = l.cartesian(R3::Vector(0.3, -1.2, 2.1));
        R3::Vector f = l.fractional(R3::Vector(0.3, -1.2, 2.1));
        for (int i = 0; i < 3; ++i)  { w.push_back(x[i]); w.push_back(f[i]); }
        addout(rv, "lattice", w, 0);
    }
    if (auto p = boost::dynamic_pointer_cast<CrystalStructureAdapter>(s))
    {
        std::vector<double> w = { double(p->countSymOps()),
            p->getSymmetryPrecision() };
        for (int k = 0; k < p->countSymOps(); ++k)
        {
            const SymOpRotTrans& o = p->getSymOp(k);
            for (int i = 0; i < 3; ++i)
            {
                w.push_back(o.t[i]);
                for (int j = 0; j < 3; ++j)  w.push_back(o.R(i, j));
            }
        }
        for (int i = 0; i < n; ++i)
        {
            auto& eq = p->getEquivalentAtoms(i);
            w.push_back(eq.size());
            for (auto& a : eq)
                for (int k = 0; k < 3; ++k)  w.push_back(a.xyz_cartn[k]);
        }
        addout(rv, "symmetry", w, 0);
    }
    return rv;
}

// calculators -----------------------------------------------------------------

template <class T> bool reloadas(const PairQuantity& q, PairQuantity& target)
{
    auto p = dynamic_cast<const T*>(&q);
    if (!p)  return false;
    auto t = dynamic_cast<T*>(&target);
    diffpy::serialization_fromstring(*t, diffpy::serialization_tostring(*p));
    return true;
}

void reload(const PairQuantity& q, PairQuantity& target)
{
    bool ok = reloadas<PDFCalculator>(q, target) ||
        reloadas<DebyePDFCalculator>(q, target) ||
        reloadas<BondCalculator>(q, target) ||
        reloadas<OverlapCalculator>(q, target) ||
        reloadas<BVSCalculator>(q, target);
    require(ok, "harness", "cannot reload");
}

struct Bundle
{
    QPtr q, q2;
    StructureAdapterPtr a, b, c, e;
    template <class Archive>
        void serialize(Archive& ar, const unsigned int version)
    {
        ar & a & q & b & c & e & q2;
    }
};

World reloadworld(const World& w)
{
    Bundle x, y;
    x.q = x.q2 = w.q;
    x.a = w.a;
    x.b = w.b;
    x.c = w.c;
    x.e = w.e;
    diffpy::serialization_fromstring(y, diffpy::serialization_tostring(x));
    require(y.q && y.q == y.q2, "sharing", "two pointers to one calculator "
            "are not equal after loading");
    require(y.q != w.q && y.a != x.a, "sharing", "object was not loaded");
    require(typeid(*y.q) == typeid(*w.q), "type", "other type was loaded");
    auto same = [&](const StructureAdapterPtr& s, const StructureAdapterPtr& t,
            const char* n)
    {
        require((w.q->getStructure() == s) == (y.q->getStructure() == t),
                "sharing", "structure ", n, " used in the calculator is not "
                "the same object after loading");
    };
    same(x.a, y.a, "A");
    same(x.b, y.b, "B");
    same(x.c, y.c, "C");
    World rv;
    rv.q = y.q;
    rv.cfg = w.cfg;
    auto cast = [](const StructureAdapterPtr& s)
    {
        return boost::dynamic_pointer_cast<AtomicStructureAdapter>(s);
    };
    rv.a = cast(y.a);
    rv.b = cast(y.b);
    rv.c = cast(y.c);
    rv.e = cast(y.e);
    require(rv.a && rv.b && rv.c && rv.e, "type", "other structure type");
    return rv;
}

/// a calculator in another state
QPtr dirtycalc(const std::string& calc, const std::vector<Setting>& ss)
{
    QPtr rv = makecalc(calc);
    Cfg cfg;
    for (auto& s : ss)
    {
        s.set(*rv, s.nalts - 1, cfg);
        cfg[s.name] = s.nalts - 1;
    }
    rv->setRmin(0.1);
    rv->setRmax(3.3);
    rv->eval(ref::build(basestruct(ref::PERIODIC)));
    Struct s = basestruct(ref::PERIODIC);
    moveatom(s, 1, 0.3);
    rv->eval(ref::build(s));
    rv->setupParallelRun(1, 3);
    rv->eval(ref::build(s));
    return rv;
}

void compareboth(World& w, World& v, const std::string& what)
{
    exact(configview(*v.q), configview(*w.q), "config", what + " config");
    exact(outputsf(*v.q), outputsf(*w.q), "outputs", what + " outputs");
    exact(siteview(v.q->getStructure()), siteview(w.q->getStructure()),
            "structure", what + " structure");
}

void calculators(Ctx& ctx, const std::string& calc, int before, int after,
        bool reduced)
{
    const std::vector<Setting> ss = settings(calc);
    std::vector<Op> all = operations(ctx, calc, ss, reduced), ops;
    for (auto& o : all)
    {
        // copies are checked elsewhere
        if (o.name == "copy" || o.name == "swap" || o.name == "copypar" ||
                o.name == "assign")  continue;
        ops.push_back(o);
    }
    Op self = { "evalself", [](World& w) { w.q->eval(); } };
    ops.push_back(self);
    Op worker = { "worker", [](World& w) { w.q->setupParallelRun(1, 3); } };
    ops.push_back(worker);
    // continuation with the first alternatives of settings only
    std::vector<Op> ops2;
    for (auto& o : ops)
    {
        char e = o.name.back();
        if (ctx.thorough || e == '0' || !isdigit(e))  ops2.push_back(o);
    }
    const int no = ops.size(), no2 = ops2.size();
    long tot = 1;
    for (int i = 0; i < before; ++i)  tot *= no;
    long tot2 = 1;
    for (int i = 0; i < after; ++i)  tot2 *= no2;
    const int nmodes = (reduced && !ctx.thorough) ? 1 : 2;
    for (long code = 0; code < tot; ++code)  for (int mode = 0; mode < nmodes; ++mode)
    {
        std::string nm;
        long c = code;
        for (int i = 0; i < before; ++i, c /= no)
            nm += cat(" ", ops[c % no].name);
        ctx.run(cat("C07 ", calc, mode ? " alone" : " bundle", nm), [&]()
        {
            for (long code2 = 0; code2 < tot2; ++code2)
            {
                World w = newworld(calc);
                long c = code;
                for (int i = 0; i < before; ++i, c /= no)
                    ops[c % no].f(w);
                ctx.transition(before);
                World v;
                if (mode == 0)  v = reloadworld(w);
                else
                {
                    v.a = boost::dynamic_pointer_cast<AtomicStructureAdapter>(
                            w.a->clone());
                    v.b = boost::dynamic_pointer_cast<AtomicStructureAdapter>(
                            w.b->clone());
                    v.c = boost::dynamic_pointer_cast<AtomicStructureAdapter>(
                            w.c->clone());
                    v.e = boost::dynamic_pointer_cast<AtomicStructureAdapter>(
                            w.e->clone());
                    v.q = dirtycalc(calc, ss);
                    v.cfg = w.cfg;
                    reload(*w.q, *v.q);
                }
                std::string what = cat("after", nm);
                if (code2 == 0)  compareboth(w, v, what);
                what += " RESTORE";
                c = code2;
                bool edited = false;
                for (int i = 0; i < after; ++i, c /= no2)
                {
                    const Op& o = ops2[c % no2];
                    what += " " + o.name;
                    // restored calculator has an own copy of the structure
                    if (mode && edited && o.name == "evalself")  continue;
                    if (o.name == "edit")  edited = true;
                    o.f(w);
                    o.f(v);
                    ctx.transition(2);
                }
                if (!(mode && edited))  compareboth(w, v, what);
                w.q->eval(w.a);
                v.q->eval(v.a);
                compareboth(w, v, what + " evalA");
                require(w.q->getParallelData() == v.q->getParallelData(),
                        "parallel", what, " parallel data differ");
                ctx.trace();
                ctx.evaluation(2);
                uint64_t h = hashouts(outputs(*v.q));
                ctx.outcome(h);
                ctx.state(mix(h, hashstr(cat(calc, mode, nm))));
            }
        });
    }
}

/// save and restore between merges of data from parallel workers
void merges(Ctx& ctx)
{
    for (auto& calc : { "bond", "pdf", "debye", "overlap", "bvs" })
    for (int ncpu = 1; ncpu <= 4; ++ncpu)
    for (int cut = 0; cut <= ncpu; ++cut)
    for (int hist = 0; hist < 3; ++hist)
    {
        ctx.run(cat("C07 merge ", calc, " ncpu=", ncpu, " cut=", cut,
                    " hist=", hist), [&]()
        {
            World w = newworld(calc);
            std::vector<std::string> parts;
            for (int k = 0; k < ncpu; ++k)
            {
                QPtr q = freshcalc(calc);
                q->setupParallelRun(k, ncpu);
                if (hist >= 1)  q->eval(w.b);
                // restore the worker in the middle
                QPtr q1 = freshcalc(calc);
                reload(*q, *q1);
                if (hist >= 1)
                {
                    require(q1->getParallelData() == q->getParallelData(),
                            "parallel", "data of restored worker differ");
                }
                q->eval(w.a);
                q1->eval(w.a);
                require(q1->getParallelData() == q->getParallelData(),
                        "parallel", "data of restored worker differ");
                parts.push_back(q1->getParallelData());
            }
            if (hist == 2)  w.q->eval(w.b);
            if (hist == 2 && calc == std::string("bond"))
            {
                // merged data describe a change of the previous result
                w.q = freshcalc(calc);
            }
            w.q->setStructure(w.a);
            World v = w;
            for (int k = 0; k <= ncpu; ++k)
            {
                if (k == cut)
                {
                    v.q = freshcalc(calc);
                    reload(*w.q, *v.q);
                    compareboth(w, v, cat("merged ", k));
                }
                if (k == ncpu)  break;
                w.q->mergeParallelData(parts[k], ncpu);
                if (k >= cut)  v.q->mergeParallelData(parts[k], ncpu);
            }
            compareboth(w, v, "all merged");
            bool throws[2] = { false, false };
            try { w.q->mergeParallelData(parts[0], ncpu); }
            catch (std::exception&)  { throws[0] = true; }
            try { v.q->mergeParallelData(parts[0], ncpu); }
            catch (std::exception&)  { throws[1] = true; }
            require(throws[0] && throws[1], "merge",
                    "too many merges were accepted");
            ctx.trace();
            ctx.evaluation(2 * ncpu);
            ctx.transition(ncpu);
            ctx.outcome(hashouts(outputs(*v.q)));
        });
    }
}

// structures ------------------------------------------------------------------

void structures(Ctx& ctx, int before, int after)
{
    const ref::Kind kinds[] = { ref::ATOMIC, ref::PERIODIC, ref::CRYSTAL };
    // 0 plain, 1 nometa, 2 nosymmetry, 3 nested
    for (auto kind : kinds)  for (int wrap = 0; wrap < 4; ++wrap)
    {
        const std::vector<Edit> es = edits(kind);
        const int ne = es.size();
        long tot = 1, tot2 = 1;
        for (int i = 0; i < before; ++i)  tot *= ne;
        for (int i = 0; i < after; ++i)  tot2 *= ne;
        for (long code = 0; code < tot; ++code)
        {
            std::string nm;
            long c = code;
            bool skip = false;
            for (int i = 0; i < before; ++i, c /= ne)
            {
                nm += " " + es[c % ne].name;
                skip = skip || !es[c % ne].samekind;
            }
            if (skip)  continue;
            ctx.run(cat("C07 structure kind=", int(kind), " wrap=", wrap, nm),
                    [&]()
            {
                for (long code2 = 0; code2 < tot2; ++code2)
                {
                    Struct s = basestruct(kind);
                    SPtr p = ref::build(s);
                    if (kind == ref::CRYSTAL)
                    {
                        auto x = boost::dynamic_pointer_cast<
                            CrystalStructureAdapter>(p);
                        x->setSymmetryPrecision(0.001);
                    }
                    long c = code;
                    for (int i = 0; i < before; ++i, c /= ne)
                    {
                        Struct old = s;
                        es[c % ne].apply(s);
                        syncinplace(p, s, old);
                    }
                    StructureAdapterPtr w = p;
                    if (wrap == 1 || wrap == 3)  w = nometa(w);
                    if (wrap >= 2)  w = nosymmetry(w);
                    std::pair<StructureAdapterPtr, StructureAdapterPtr> x, y;
                    x = std::make_pair(w, StructureAdapterPtr(p));
                    diffpy::serialization_fromstring(y,
                            diffpy::serialization_tostring(x));
                    auto p1 = boost::dynamic_pointer_cast<
                        AtomicStructureAdapter>(y.second);
                    require(typeid(*x.first) == typeid(*y.first) &&
                            p1 && typeid(*p1) == typeid(*p) && p1 != p,
                            "type", "other type was loaded");
                    if (wrap == 0)  require(y.first == y.second, "sharing",
                            "shared structure is loaded twice");
                    exact(siteview(y.first), siteview(w), "structure",
                            cat("after", nm));
                    exact(siteview(p1), siteview(p), "structure",
                            cat("inside after", nm));
                    StructureDifference sd = p->diff(
                            boost::static_pointer_cast<const StructureAdapter>(
                                p1));
                    require(sd.pop0.empty() && sd.add1.empty() &&
                            (sd.allowsfastupdate() || s.atoms.empty()),
                            "diff", "restored structure differs");
                    c = code2;
                    std::string what = cat("after", nm, " RESTORE");
                    for (int i = 0; i < after; ++i, c /= ne)
                    {
                        if (!es[c % ne].samekind)  continue;
                        Struct old = s;
                        es[c % ne].apply(s);
                        syncinplace(p, s, old);
                        syncinplace(p1, s, old);
                        what += " " + es[c % ne].name;
                        ctx.transition(2);
                    }
                    exact(siteview(y.first), siteview(w), "structure", what);
                    exact(siteview(p1), siteview(p), "structure", what);
                    ctx.trace();
                    uint64_t h = hashouts(siteview(w));
                    ctx.state(h);
                    ctx.outcome(h);
                }
            });
        }
    }
    ctx.run("C07 structure empty", [&]()
    {
        StructureAdapterPtr e = emptyStructureAdapter(), f;
        diffpy::serialization_fromstring(f, diffpy::serialization_tostring(e));
        require(f && f->countSites() == 0, "empty", "empty structure");
        exact(siteview(f), siteview(e), "structure", "empty");
        StructureDifference sd = e->diff(f);
        require(sd.pop0.empty() && sd.add1.empty(), "diff", "empty differs");
    });
    ctx.run("C07 structure cached", [&]()
    {
        // crystals with and without cached symmetry positions, new precision
        for (int cached = 0; cached < 2; ++cached)
        for (int change = 0; change < 5; ++change)
        {
            Struct s = basestruct(ref::CRYSTAL);
            s.atoms[1].xyz = ref::v3(0.501, 0.002, 0.5);
            auto p = boost::dynamic_pointer_cast<CrystalStructureAdapter>(
                    ref::build(s));
            if (cached)  siteview(p);
            CrystalStructureAdapter q;
            q.append(Atom());
            q.setLatPar(3, 4, 5, 80, 90, 100);
            if (change % 2)  siteview(boost::shared_ptr<StructureAdapter>(
                        q.clone()));
            auto mod = [&](CrystalStructureAdapter& x)
            {
                if (change == 1)  x.setSymmetryPrecision(0.1);
                if (change == 2)  x.clearSymOps();
                if (change == 3)  x.addSymOp(x.getSymOp(0));
                if (change == 4)  x.setLatPar(6, 6, 6, 90, 90, 90);
            };
            diffpy::serialization_fromstring(q,
                    diffpy::serialization_tostring(*p));
            mod(q);
            mod(*p);
            exact(siteview(q.clone()), siteview(p), "structure",
                    cat("cached=", cached, " change=", change));
            require(*p == q, "equal", "not equal");
        }
    });
}

// components ------------------------------------------------------------------

template <class T, class F>
void component(Ctx& ctx, const std::string& base, F values)
{
    typedef boost::shared_ptr<T> Ptr;
    const std::vector<double> levels = { 0.0, 0.35, 2.5 };
    for (auto& tp : T::getRegisteredTypes())
    {
        Ptr proto = T::createByType(tp);
        std::vector<std::string> names;
        for (auto& n : proto->namesOfWritableDoubleAttributes())
            names.push_back(n);
        long tot = 1;
        for (size_t i = 0; i <= names.size(); ++i)  tot *= levels.size() + 1;
        ctx.run(cat("C07 component ", base, " ", tp), [&]()
        {
            for (long code = 0; code < tot; ++code)
            {
                // all combinations of levels, the last change is made after
                std::vector<Ptr> x(3), y;
                x[0] = T::createByType(tp);
                long c = code;
                for (auto& n : names)
                {
                    int k = c % (levels.size() + 1);
                    c /= levels.size() + 1;
                    if (k)  x[0]->setDoubleAttr(n, levels[k - 1]);
                }
                x[1] = x[0];
                x[2] = x[0]->clone();
                diffpy::serialization_fromstring(y,
                        diffpy::serialization_tostring(x));
                require(y.size() == 3 && y[0] && y[0] == y[1] && y[2] &&
                        y[2] != y[0], "sharing", "sharing of pointers is lost");
                for (int i = 0; i < 3; ++i)
                {
                    require(typeid(*y[i]) == typeid(*x[i]) &&
                            y[i]->type() == tp, "type", "other type loaded");
                    exact(attrview(*y[i]), attrview(*x[i]), "config",
                            cat(tp, " code=", code));
                    exact(values(y[i]), values(x[i]), "outputs",
                            cat(tp, " code=", code));
                }
                for (auto& n : names)
                {
                    int k = c % (levels.size() + 1);
                    if (k)
                    {
                        x[0]->setDoubleAttr(n, levels[k - 1]);
                        y[0]->setDoubleAttr(n, levels[k - 1]);
                    }
                    exact(attrview(*y[1]), attrview(*x[1]), "config",
                            cat(tp, " change after code=", code));
                    exact(values(y[1]), values(x[1]), "outputs",
                            cat(tp, " change after code=", code));
                    exact(attrview(*y[2]), attrview(*x[2]), "config",
                            cat(tp, " clone after code=", code));
                }
                ctx.trace();
                ctx.transition();
                ctx.outcome(hashouts(values(y[0])));
            }
        });
    }
}

void components(Ctx& ctx)
{
    static const SPtr stru = ref::build(basestruct(ref::ATOMIC));
    component<PeakWidthModel>(ctx, "pwm", [](PeakWidthModelPtr p)
    {
        Outs rv;
        QuantityType v;
        auto b = stru->createBondGenerator();
        b->setRmax(4);
        b->selectAnchorSite(3);
        for (b->rewind(); !b->finished(); b->next())
            v.push_back(p->calculate(*b));
        v.push_back(p->maxWidth(stru, 0.5, 4));
        addout(rv, "widths", v, 0);
        return rv;
    });
    component<PeakProfile>(ctx, "profile", [](PeakProfilePtr p)
    {
        Outs rv;
        QuantityType v;
        for (double w : { 0.0, 0.1, 0.7 })
        {
            for (double x : { -0.5, -0.1, 0.03, 0.3, 1.0 })
                v.push_back((*p)(x, w));
            v.push_back(p->xboundlo(w));
            v.push_back(p->xboundhi(w));
        }
        addout(rv, "profile", v, 0);
        return rv;
    });
    component<PDFBaseline>(ctx, "baseline", [](PDFBaselinePtr p)
    {
        Outs rv;
        addout(rv, "baseline", std::vector<double> { (*p)(0), (*p)(1.3), (*p)(-2) }, 0);
        return rv;
    });
    component<PDFEnvelope>(ctx, "envelope", [](PDFEnvelopePtr p)
    {
        Outs rv;
        addout(rv, "envelope", std::vector<double> { (*p)(0), (*p)(1.3), (*p)(2.4), (*p)(3) }, 0);
        return rv;
    });
    // tables
    for (auto& tp : ScatteringFactorTable::getRegisteredTypes())
    {
        ctx.run("C07 table sft " + tp, [&]()
        {
            // all sequences of three operations, restored after each of them
            auto op = [](ScatteringFactorTablePtr t, int k)
            {
                if (k == 0)  t->setCustomAs("Na1+", "Cl1-");
                if (k == 1)  t->setCustomAs("Na1+", "Na", 7.3, 0.4);
                if (k == 2)  t->setCustomAs("O2-", "Na", 3.3);
                if (k == 3)  t->resetCustom("Na1+");
                if (k == 4)  t->resetAll();
            };
            for (int code = 0; code < 125; ++code)  for (int at = 0; at < 4; ++at)
            {
                auto t = ScatteringFactorTable::createByType(tp);
                std::vector<ScatteringFactorTablePtr> x(2, t), y;
                for (int i = 0, c = code; i < 4; ++i, c /= 5)
                {
                    if (i == at)
                    {
                        diffpy::serialization_fromstring(y,
                                diffpy::serialization_tostring(x));
                        require(y[0] && y[0] == y[1] && y[0] != t, "sharing",
                                "sharing is lost");
                        Outs a, b;
                        sftview(a, *y[0]);
                        sftview(b, *t);
                        exact(a, b, "config", cat("code=", code, " at=", at));
                    }
                    if (i == 3)  break;
                    op(t, c % 5);
                    if (i >= at)  op(y[1], c % 5);
                    ctx.transition();
                }
                Outs a, b;
                sftview(a, *y[0]);
                sftview(b, *t);
                exact(a, b, "config", cat("code=", code, " at=", at, " end"));
                ctx.outcome(hashouts(a));
                ctx.trace();
            }
        });
    }
    for (auto& tp : AtomRadiiTable::getRegisteredTypes())
    {
        ctx.run("C07 table radii " + tp, [&]()
        {
            auto op = [](AtomRadiiTablePtr t, int k)
            {
                if (k == 0)  t->setCustom("Na1+", 1.234567890123);
                if (k == 1)  t->setCustom("Cl1-", 0.3);
                if (k == 2)  t->fromString("O2-:1.5,Na1+:0.8");
                if (k == 3)  t->resetCustom("Na1+");
                if (k == 4)  t->resetAll();
                auto c = boost::dynamic_pointer_cast<ConstantRadiiTable>(t);
                if (c && k == 5)  c->setDefault(1.7);
            };
            for (int code = 0; code < 216; ++code)  for (int at = 0; at < 4; ++at)
            {
                auto t = AtomRadiiTable::createByType(tp);
                std::vector<AtomRadiiTablePtr> x(2, t), y;
                for (int i = 0, c = code; i < 4; ++i, c /= 6)
                {
                    if (i == at)
                    {
                        diffpy::serialization_fromstring(y,
                                diffpy::serialization_tostring(x));
                        require(y[0] && y[0] == y[1] && y[0] != t, "sharing",
                                "sharing is lost");
                        Outs a, b;
                        radiiview(a, *y[0]);
                        radiiview(b, *t);
                        exact(a, b, "config", cat("code=", code, " at=", at));
                    }
                    if (i == 3)  break;
                    op(t, c % 6);
                    if (i >= at)  op(y[1], c % 6);
                    ctx.transition();
                }
                Outs a, b;
                radiiview(a, *y[0]);
                radiiview(b, *t);
                exact(a, b, "config", cat("code=", code, " at=", at, " end"));
                ctx.outcome(hashouts(a));
                ctx.trace();
            }
        });
    }
    for (int first = 0; first < 7; ++first)
    ctx.run(cat("C07 table bv ", first), [&]()
    {
        auto op = [](BVParametersTable& t, int k)
        {
            if (k == 0)  t.setCustom("Na", 1, "Cl", -1, 2.3, 0.4, "my");
            if (k == 1)  t.setCustom("Na", 1, "Na", 1, 1.5, 0.37);
            if (k == 2)  t.setAtomValence("K", 1);
            if (k == 3)  t.setAtomValence("Na1+", 2);
            if (k == 4)  t.resetCustom("Na", 1, "Cl", -1);
            if (k == 5)  t.resetAll();
            if (k == 6)  t.resetAtomValences();
        };
        for (int rest = 0; rest < 49; ++rest)  for (int at = 0; at < 4; ++at)
        {
            int code = first + 7 * rest;
            BVParametersTablePtr t(new BVParametersTable);
            std::vector<BVParametersTablePtr> x(2, t), y;
            for (int i = 0, c = code; i < 4; ++i, c /= 7)
            {
                if (i == at)
                {
                    diffpy::serialization_fromstring(y,
                            diffpy::serialization_tostring(x));
                    require(y[0] && y[0] == y[1] && y[0] != t, "sharing",
                            "sharing is lost");
                    Outs a, b;
                    bvview(a, *y[0]);
                    bvview(b, *t);
                    exact(a, b, "config", cat("code=", code, " at=", at));
                }
                if (i == 3)  break;
                op(*t, c % 7);
                if (i >= at)  op(*y[1], c % 7);
                ctx.transition();
            }
            Outs a, b;
            bvview(a, *y[0]);
            bvview(b, *t);
            exact(a, b, "config", cat("code=", code, " at=", at, " end"));
            ctx.outcome(hashouts(a));
            ctx.trace();
        }
    });
    // Debye sum with unit scattering factors
    ctx.run("C07 basedebye", [&]()
    {
        for (int code = 0; code < 64; ++code)
        {
            boost::shared_ptr<BaseDebyeSum> x(new BaseDebyeSum), y;
            auto cfg = [&](BaseDebyeSum& d, int k)
            {
                if (k & 1)  d.setQmin(1.3);
                if (k & 2)  d.setQmax(7);
                if (k & 4)  d.setQstep(0.11);
                if (k & 8)  d.setDebyePrecision(1e-3);
                if (k & 16)  d.setPeakWidthModelByType("debye-waller");
            };
            cfg(*x, code);
            if (code & 32)  x->eval(stru);
            diffpy::serialization_fromstring(y, diffpy::serialization_tostring(x));
            exact(attrview(*y), attrview(*x), "config", cat("code=", code));
            for (int k = 0; k < 2; ++k)
            {
                Outs a, b;
                addout(a, "f", y->getF());
                addout(a, "q", y->getQgrid());
                addout(a, "value", y->value());
                addout(b, "f", x->getF());
                addout(b, "q", x->getQgrid());
                addout(b, "value", x->value());
                exact(a, b, "outputs", cat("code=", code, " eval=", k));
                x->eval(stru);
                y->eval(stru);
                ctx.outcome(hashouts(a));
            }
            ctx.trace();
        }
    });
}

}   // namespace

void explore(Ctx& ctx)
{
    components(ctx);
    structures(ctx, 2, ctx.thorough ? 2 : 1);
    merges(ctx);
    if (ctx.thorough)
    {
        calculators(ctx, "bond", 2, 2, false);
        calculators(ctx, "bvs", 2, 2, false);
        calculators(ctx, "overlap", 2, 2, false);
        calculators(ctx, "pdf", 2, 1, false);
        calculators(ctx, "debye", 2, 1, false);
        return;
    }
    calculators(ctx, "bond", 2, 1, false);
    calculators(ctx, "bvs", 2, 1, false);
    calculators(ctx, "overlap", 2, 1, false);
    calculators(ctx, "pdf", 1, 1, false);
    calculators(ctx, "pdf", 2, 1, true);
    calculators(ctx, "debye", 1, 1, false);
    calculators(ctx, "debye", 2, 1, true);
}
