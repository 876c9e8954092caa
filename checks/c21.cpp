// C21: failed operations leave calculators usable.
#include "mc.hpp"
#include "settings.hpp"
#include <diffpy/srreal/JeongPeakWidth.hpp>
#include <diffpy/srreal/GaussianProfile.hpp>
#include <diffpy/srreal/LinearBaseline.hpp>
#include <diffpy/srreal/ScaleEnvelope.hpp>
#include <diffpy/srreal/StructureDifference.hpp>
#include <diffpy/srreal/NoMetaStructureAdapter.hpp>
#include <diffpy/serialization.ipp>

using namespace mc;
using ref::Struct;

const Info mcinfo = {
    "C21", "model_checking",
    "Invalid operations: for every calculator all sequences of a valid "
        "operation, failing operation(s) and another valid operation; every "
        "failing operation must raise an error and leave all attributes, "
        "components and masks as they were, and evaluations at the end must "
        "equal those of a twin object that never saw the failing operation.  "
        "Faults: structures and components of calculators raise an exception "
        "at the k-th call of any of their methods, for every k that occurs "
        "in the evaluation (complete, incremental, masked or parallel) or in "
        "reading of results; then the fault is removed and evaluations must "
        "equal those of a fresh calculator.",
    "1 valid, 1 failing, 1 valid operation; 2 failing operations; all single "
        "faults",
    "1 valid, 2 failing, 1 valid operation; all single faults and all pairs "
        "of faults of structures at every 5th call",
    {"a structure whose evaluation has failed stays assigned until another "
        "one is used",
        "results read directly after a failed evaluation are not compared"},
    120
};

namespace {

// configuration -------------------------------------------------------------

typedef std::map<std::string, std::string> Conf;

/// all that can be read of the configuration.  Derived values depend on the
/// structure, they are included when all is true.
Conf configuration(const PairQuantity& q, bool all)
{
    Conf c;
    const std::set<std::string> derived = { "extendedrmin", "extendedrmax",
        "qstep", "slope", "rmaxused", "qmax" };
    for (auto& n : q.namesOfDoubleAttributes())
    {
        if (!all && derived.count(n))  continue;
        std::ostringstream o;
        o.precision(17);
        o << q.getDoubleAttr(n);
        c["attr " + n] = o.str();
    }
    std::string names;
    for (auto& n : q.namesOfDoubleAttributes())  names += n + " ";
    c["names"] = names;
    c["evaluator"] = cat(int(q.getEvaluatorType()));
    std::string m;
    for (int i = 0; all && i < 5; ++i)
        for (int j = 0; j <= i; ++j)  m += q.getPairMask(i, j) ? '1' : '0';
    const char* t[] = { "Na1+", "Cl1-", "O2-", "all" };
    for (int i = 0; i < 4; ++i)
        for (int j = 0; j <= i; ++j)
            m += q.getTypeMask(t[i], t[j]) ? '1' : '0';
    c["mask"] = m;
    if (all)  c["structure"] = cat(q.getStructure().get());
    if (auto p = dynamic_cast<const PeakWidthModelOwner*>(&q))
        c["pwm"] = cat(p->getPeakWidthModel().get());
    if (auto p = dynamic_cast<const ScatteringFactorTableOwner*>(&q))
        c["sft"] = cat(p->getScatteringFactorTable().get(), " ",
                p->getScatteringFactorTable()->getCustomSymbols().size());
    if (auto p = dynamic_cast<const PDFEnvelopeOwner*>(&q))
    {
        std::string s;
        for (auto& e : p->usedEnvelopeTypes())
            s += cat(e, " ", p->getEnvelopeByType(e).get(), " ");
        c["envelopes"] = s;
    }
    if (auto p = dynamic_cast<const PDFCalculator*>(&q))
        c["profile"] = cat(p->getPeakProfile().get(), " ",
                p->getBaseline().get());
    if (auto p = dynamic_cast<const OverlapCalculator*>(&q))
        c["radii"] = cat(p->getAtomRadiiTable().get(), " ",
                p->getAtomRadiiTable()->toString());
    if (auto p = dynamic_cast<const BVSCalculator*>(&q))
        c["bvtable"] = cat(p->getBVParamTable().get(), " ",
                p->getBVParamTable()->getAllCustom().size());
    return c;
}

void compareconf(const Conf& a, const Conf& b, const std::string& w)
{
    require(a.size() == b.size(), "config", w, " different configuration");
    for (auto& kv : a)
        require(b.count(kv.first) && b.at(kv.first) == kv.second, "config", w,
                " changed ", kv.first, " from ", kv.second, " to ",
                b.count(kv.first) ? b.at(kv.first) : "nothing");
}

// invalid operations --------------------------------------------------------

struct FailOp
{
    std::string name;
    std::function<void(World&)> f;
    bool eval;                  // changes the assigned structure
};

std::vector<FailOp> failops(const std::string& calc)
{
    std::vector<FailOp> rv;
    auto add = [&](const std::string& n, std::function<void(World&)> f,
            bool eval=false)
    {
        rv.push_back(FailOp{ n, f, eval });
    };
    auto attr = [&](const std::string& n, std::vector<double> vs)
    {
        for (double v : vs)  add(cat(n, "=", v), [=](World& w)
                { w.q->setDoubleAttr(n, v); });
    };
    const bool pdf = calc == "pdf", debye = calc == "debye";
    attr("nosuch", { 1 });
    attr("", { 1 });
    if (pdf || debye)
    {
        attr("rmin", { -1, -1e-300 });
        attr("rmax", { -1 });
        attr("rstep", { 0, -0.1, 1e-15 });
        attr("qmin", { -1 });
        attr("qmax", { -1 });
        attr("maxextension", { -1 });
        attr("extendedrmin", { 1 });
        attr("extendedrmax", { 1 });
        add("pwm-type", [](World& w)
                { pwm(*w.q).setPeakWidthModelByType("nosuch"); });
        add("pwm-null", [](World& w)
                { pwm(*w.q).setPeakWidthModel(PeakWidthModelPtr()); });
        add("sft-type", [](World& w)
                { sft(*w.q).setScatteringFactorTableByType("nosuch"); });
        add("sft-null", [](World& w)
                { sft(*w.q).setScatteringFactorTable(
                        ScatteringFactorTablePtr()); });
        add("sft-custom-value", [](World& w)
                { sft(*w.q).getScatteringFactorTable()->setCustomAs("Na1+",
                        "Xx", 3.0); });
        add("sft-lookup", [](World& w)
                { sft(*w.q).getScatteringFactorTable()->lookup("Xx", 2.0); });
        add("envelope-type", [](World& w)
                { envl(*w.q).addEnvelopeByType("nosuch"); });
        add("envelope-null", [](World& w)
                { envl(*w.q).addEnvelope(PDFEnvelopePtr()); });
        add("envelope-get", [](World& w)
                { envl(*w.q).getEnvelopeByType("nosuch"); });
    }
    if (pdf)
    {
        attr("qstep", { 1 });
        add("profile-type", [](World& w)
                { dynamic_cast<PDFCalculator&>(*w.q).setPeakProfileByType(
                        "nosuch"); });
        add("profile-null", [](World& w)
                { dynamic_cast<PDFCalculator&>(*w.q).setPeakProfile(
                        PeakProfilePtr()); });
        add("baseline-type", [](World& w)
                { dynamic_cast<PDFCalculator&>(*w.q).setBaselineByType(
                        "nosuch"); });
        add("baseline-null", [](World& w)
                { dynamic_cast<PDFCalculator&>(*w.q).setBaseline(
                        PDFBaselinePtr()); });
    }
    if (debye)
    {
        attr("qstep", { 0, -1 });
        attr("qmax", { 0, 1e-15 });
    }
    if (pdf || debye)
    {
        add("eval-unknown-type", [](World& w) { w.q->eval(w.e); }, true);
    }
    if (pdf || debye || calc == "pair" || calc == "bvs")
        add("merge-size", [](World& w)
            {
                PairCounter c;
                c.eval(w.a);
                std::string d = c.getParallelData();
                // values of another size
                if (w.q->value().size() == 1)
                {
                    BVSCalculator b;
                    b.eval(w.a);
                    d = b.getParallelData();
                }
                w.q->mergeParallelData(d, 5);
            });
    if (pdf || debye || calc == "pair" || calc == "bvs" || calc == "bond" ||
            calc == "overlap")
        add("merge-garbled", [](World& w)
                { w.q->mergeParallelData("this is not an archive", 5); });
    add("merge-count", [](World& w)
            { w.q->mergeParallelData(w.q->getParallelData(), 0); });
    add("parallel-ncpu", [](World& w) { w.q->setupParallelRun(0, 0); });
    add("evaluator-type", [](World& w)
            { w.q->setEvaluatorType(PQEvaluatorType(77)); });
    if (calc == "bvs" || calc == "overlap" || calc == "pair")
    {
        add("evaluator-optimized", [](World& w)
                { w.q->setEvaluatorType(OPTIMIZED); });
        add("evaluator-check", [](World& w)
                { w.q->setEvaluatorType(CHECK); });
    }
    if (calc == "bond")
        add("cone", [](World& w)
                { dynamic_cast<BondCalculator&>(*w.q).filterCone(
                        R3::Vector(0, 0, 0), 30); });
    if (calc == "bvs")
    {
        attr("valenceprecision", { 0, -1 });
        attr("rmaxused", { 1 });
        add("bvtable-null", [](World& w)
                { dynamic_cast<BVSCalculator&>(*w.q).setBVParamTable(
                        BVParametersTablePtr()); });
    }
    if (calc == "overlap")
    {
        attr("rmaxused", { 1 });
        add("radii-null", [](World& w)
                { dynamic_cast<OverlapCalculator&>(*w.q).setAtomRadiiTable(
                        AtomRadiiTablePtr()); });
        add("radii-type", [](World& w)
                { dynamic_cast<OverlapCalculator&>(*w.q).
                    setAtomRadiiTableByType("nosuch"); });
        add("radii-string", [](World& w)
                { dynamic_cast<OverlapCalculator&>(*w.q).getAtomRadiiTable()->
                    fromString("Na1+:2.5,Cl1-:x"); });
        add("radii-string2", [](World& w)
                { dynamic_cast<OverlapCalculator&>(*w.q).getAtomRadiiTable()->
                    fromString("Na1+:2.5,Cl1-"); });
        add("flip-index", [](World& w)
                { dynamic_cast<OverlapCalculator&>(*w.q).flipDiffTotal(0, 99); });
        add("flip-mean-index", [](World& w)
                { dynamic_cast<OverlapCalculator&>(*w.q).flipDiffMean(-1, 0); });
    }
    return rv;
}

std::vector<Op> validops(const std::string& calc, const std::vector<Setting>& ss)
{
    std::vector<Op> rv;
    auto add = [&](const std::string& n, std::function<void(World&)> f)
    {
        rv.push_back(Op{ n, f });
    };
    for (auto& s : ss)  for (int k = 1; k < s.nalts; ++k)
        add(cat(s.name, k), [s, k](World& w) { s.set(*w.q, k, w.cfg); });
    add("none", [](World& w) { });
    add("evalA", [](World& w) { w.q->eval(w.a); });
    add("evalB", [](World& w) { w.q->eval(w.b); });
    add("evalC", [](World& w) { w.q->eval(w.c); });
    add("read", [](World& w) { outputsf(*w.q); });
    add("par", [](World& w)
            {
                w.q->setupParallelRun(1, 3);
                w.q->eval(w.b);
                w.q->setupParallelRun(0, 1);
            });
    return rv;
}

void invalid(Ctx& ctx, const std::string& calc)
{
    const auto ss = settings(calc);
    const auto fs = failops(calc);
    const auto vs = validops(calc, ss);
    const int nv = vs.size(), nf = fs.size();
    for (int v0 = 0; v0 < nv; ++v0)
    for (int f0 = 0; f0 < nf; ++f0)
    ctx.run(cat("C21 ", calc, " ", vs[v0].name, " ", fs[f0].name), [&]()
    {
        // second failing operation none or any
        for (int f1 = -1; f1 < nf; ++f1)
        for (int v1 = 0; v1 < nv; ++v1)
        {
            const bool simple = vs[v1].name == "none" || vs[v1].name == "evalB";
            if (f1 >= 0 && !simple)  continue;
            // pairs follow only a few operations in quick mode
            if (f1 >= 0 && !ctx.thorough && vs[v0].name != "evalC")  continue;
            // the structure of failed evaluation is used in these
            if (fs[f0].eval || (f1 >= 0 && fs[f1].eval))
                if (vs[v1].name == "read")  continue;
            World x = newworld(calc), y = newworld(calc);
            y.a = x.a;
            y.b = x.b;
            y.c = x.c;
            x.q->eval(x.a);
            y.q->eval(y.a);
            std::string w = calc + " " + vs[v0].name;
            auto both = [&](int v)
            {
                // some settings do not apply to all components
                std::string e[2];
                World* u[2] = { &x, &y };
                for (int i = 0; i < 2; ++i)
                {
                    try  { vs[v].f(*u[i]); }
                    catch (diffpy::attributes::DoubleAttributeError& ex)
                    { e[i] = ex.what(); }
                }
                require(e[0] == e[1], "error", w, " different error ", e[0],
                        " and ", e[1]);
            };
            both(v0);
            bool evalfailed = false;
            for (int f : { f0, f1 })
            {
                if (f < 0)  continue;
                w += " " + fs[f].name;
                const bool ev = fs[f].eval;
                evalfailed = evalfailed || ev;
                Conf c0 = configuration(*x.q, !ev);
                QuantityType v = x.q->value();
                bool raised = false;
                try  { fs[f].f(x); }
                catch (std::exception& e)  { raised = true; }
                require(raised, "no-error", w, " gave no error");
                compareconf(c0, configuration(*x.q, !ev), w);
                if (!ev)  require(x.q->value() == v, "value", w,
                        " changed the value");
                ctx.transition();
            }
            w += " " + vs[v1].name;
            // a twin that had the same structure
            if (evalfailed)
            {
                x.q->setStructure(x.a);
                y.q->setStructure(y.a);
            }
            both(v1);
            // results without another evaluation
            const std::string n1 = vs[v1].name;
            if (!evalfailed && (n1 == "none" || n1 == "read" ||
                        n1.compare(0, 4, "eval") == 0))
                compareouts(outputs(*x.q), outputs(*y.q), "results", w);
            const char* after[] = { "A", "B", "none" };
            for (int k = 0; k < 3; ++k)
            {
                for (World* u : { &x, &y })
                {
                    if (k < 2)  u->q->eval(k ? u->b : u->a);
                    else  u->q->eval();
                }
                Outs o = outputs(*x.q);
                compareouts(o, outputs(*y.q), "evaluation",
                        w + " eval " + after[k]);
                ctx.evaluation(2);
                ctx.outcome(hashouts(o));
                if (f1 >= 0)  break;
            }
            ctx.state(hashstr(w));
            ctx.trace();
        }
    });
}

// merges --------------------------------------------------------------------

/// a failed merge at any position does not spoil the other ones
void merges(Ctx& ctx, const std::string& calc)
{
    const char* bads[] = { "size", "garbled", "empty", "truncated" };
    for (int ncpu = 1; ncpu <= 4; ++ncpu)
    for (int pos = 0; pos <= ncpu; ++pos)
    for (int bad = 0; bad < 4; ++bad)
    ctx.run(cat("C21 merge ", calc, " ncpu=", ncpu, " pos=", pos, " bad=",
                bads[bad]), [&]()
    {
        const bool list = calc == "bond" || calc == "overlap";
        // data of these have no fixed size
        if (bad == 0 && list)  return;
        World x = newworld(calc), y = newworld(calc);
        std::vector<std::string> parts;
        for (int i = 0; i < ncpu; ++i)
        {
            World z = newworld(calc);
            z.q->setupParallelRun(i, ncpu);
            z.q->eval(x.a);
            parts.push_back(z.q->getParallelData());
        }
        std::string data = bads[bad];
        if (bad == 0)
        {
            // shorter or longer
            PairCounter pc;
            BVSCalculator bc;
            pc.eval(x.a);
            bc.eval(x.a);
            data = calc == "pair" ? bc.getParallelData() : pc.getParallelData();
        }
        if (bad == 2)  data.clear();
        if (bad == 3)  data = parts[0].substr(0, parts[0].size() / 3);
        x.q->setStructure(x.a);
        for (int i = 0; i <= ncpu; ++i)
        {
            if (i == pos)
            {
                bool raised = false;
                try  { x.q->mergeParallelData(data, ncpu); }
                catch (std::exception& e)  { raised = true; }
                require(raised, "no-error", calc, " merge of ", bads[bad]);
            }
            if (i < ncpu)  x.q->mergeParallelData(parts[i], ncpu);
            ctx.transition();
        }
        y.q->eval(x.a);
        Outs o = outputs(*x.q);
        compareouts(o, outputs(*y.q), "merge", cat(calc, " merge of ",
                    bads[bad], " at ", pos, " of ", ncpu));
        x.q->eval(x.b);
        y.q->eval(x.b);
        compareouts(outputs(*x.q), outputs(*y.q), "merge-eval", calc);
        ctx.outcome(hashouts(o));
        ctx.state(hashstr(cat(calc, ncpu, pos, bad)));
        ctx.trace();
    });
}

// faults --------------------------------------------------------------------

struct FaultError : public std::exception
{
    const char* what() const noexcept  { return "injected fault"; }
};

// number of calls until the fault, zero if disabled
long countdown = 0;
long calls = 0;

void tick()
{
    ++calls;
    if (countdown > 0 && --countdown == 0)  throw FaultError();
}

template <class T> class Faulty : public T
{
    public:
        Faulty(const T& src) : T(src)  { }
        StructureAdapterPtr clone() const
        {
            tick();
            return StructureAdapterPtr(new Faulty<T>(*this));
        }
        BaseBondGeneratorPtr createBondGenerator() const
        {
            tick();
            return T::createBondGenerator();
        }
        int countSites() const  { tick(); return T::countSites(); }
        double numberDensity() const  { tick(); return T::numberDensity(); }
        const std::string& siteAtomType(int i) const
        {
            tick();
            return T::siteAtomType(i);
        }
        const R3::Vector& siteCartesianPosition(int i) const
        {
            tick();
            return T::siteCartesianPosition(i);
        }
        int siteMultiplicity(int i) const
        {
            tick();
            return T::siteMultiplicity(i);
        }
        double siteOccupancy(int i) const  { tick(); return T::siteOccupancy(i); }
        bool siteAnisotropy(int i) const  { tick(); return T::siteAnisotropy(i); }
        const R3::Matrix& siteCartesianUij(int i) const
        {
            tick();
            return T::siteCartesianUij(i);
        }
        void customPQConfig(PairQuantity* pq) const  { tick(); }
        StructureDifference diff(StructureAdapterConstPtr x) const
        {
            tick();
            return T::diff(x);
        }
};

SPtr faulty(const Struct& s)
{
    SPtr p = ref::build(s);
    if (auto x = dynamic_cast<CrystalStructureAdapter*>(p.get()))
        return SPtr(new Faulty<CrystalStructureAdapter>(*x));
    if (auto x = dynamic_cast<PeriodicStructureAdapter*>(p.get()))
        return SPtr(new Faulty<PeriodicStructureAdapter>(*x));
    return SPtr(new Faulty<AtomicStructureAdapter>(*p));
}

class FaultyWidth : public JeongPeakWidth
{
    public:
        double calculate(const BaseBondGenerator& b) const
        {
            tick();
            return JeongPeakWidth::calculate(b);
        }
        double maxWidth(StructureAdapterPtr s, double r0, double r1) const
        {
            tick();
            return JeongPeakWidth::maxWidth(s, r0, r1);
        }
};

class FaultyProfile : public GaussianProfile
{
    public:
        double operator()(double x, double fwhm) const
        {
            tick();
            return GaussianProfile::operator()(x, fwhm);
        }
        double xboundlo(double f) const
        {
            tick();
            return GaussianProfile::xboundlo(f);
        }
        double xboundhi(double f) const
        {
            tick();
            return GaussianProfile::xboundhi(f);
        }
};

class FaultyTable : public ScatteringFactorTable
{
    public:
        SharedPtr create() const  { return SharedPtr(new FaultyTable); }
        SharedPtr clone() const  { return SharedPtr(new FaultyTable(*this)); }
        const std::string& type() const
        {
            static std::string s = "faulty";
            return s;
        }
        const std::string& radiationType() const
        {
            static std::string s = "X";
            return s;
        }
        double standardLookup(const std::string& t, double q) const
        {
            tick();
            return (3 + t.size() + t[0] % 7) * std::exp(-0.01 * q * q);
        }
};

class FaultyEnvelope : public ScaleEnvelope
{
    public:
        double operator()(const double& r) const
        {
            tick();
            return 0.7;
        }
};

class FaultyBaseline : public LinearBaseline
{
    public:
        double operator()(const double& r) const
        {
            tick();
            return LinearBaseline::operator()(r);
        }
};

class FaultyRadii : public ConstantRadiiTable
{
    public:
        double standardLookup(const std::string& s) const
        {
            tick();
            return 0.6 + 0.1 * s.size();
        }
};

/// install the component, return false if it does not apply
bool install(PairQuantity& q, const std::string& what)
{
    auto pdf = dynamic_cast<PDFCalculator*>(&q);
    if (what == "structure")  return true;
    if (what == "width" && dynamic_cast<PeakWidthModelOwner*>(&q))
    {
        pwm(q).setPeakWidthModel(PeakWidthModelPtr(new FaultyWidth));
        return true;
    }
    if (what == "table" && dynamic_cast<ScatteringFactorTableOwner*>(&q))
    {
        sft(q).setScatteringFactorTable(
                ScatteringFactorTablePtr(new FaultyTable));
        return true;
    }
    if (what == "envelope" && dynamic_cast<PDFEnvelopeOwner*>(&q))
    {
        envl(q).addEnvelope(PDFEnvelopePtr(new FaultyEnvelope));
        return true;
    }
    if (what == "profile" && pdf)
    {
        PeakProfilePtr p(new FaultyProfile);
        p->setPrecision(1e-4);
        pdf->setPeakProfile(p);
        return true;
    }
    if (what == "baseline" && pdf)
    {
        pdf->setBaseline(PDFBaselinePtr(new FaultyBaseline));
        return true;
    }
    auto ov = dynamic_cast<OverlapCalculator*>(&q);
    if (what == "radii" && ov)
    {
        ov->setAtomRadiiTable(AtomRadiiTablePtr(new FaultyRadii));
        return true;
    }
    return false;
}

QPtr faultcalc(const std::string& calc)
{
    QPtr q = makecalc(calc);
    if (calc == "pdf")  q->setDoubleAttr("rstep", 0.3);
    if (calc == "pdf")  q->setDoubleAttr("maxextension", 1.0);
    if (calc == "debye")
    {
        q->setDoubleAttr("rstep", 0.4);
        q->setDoubleAttr("qmax", 4.0);
        q->setDoubleAttr("debyeprecision", 1e-3);
    }
    if (calc == "pdf" || calc == "debye")
        q->setDoubleAttr("rmax", 3.0);
    else  q->setRmax(2.5);
    return q;
}

void faults(Ctx& ctx, const std::string& calc, const std::string& what,
        ref::Kind kind)
{
    if (!install(*faultcalc(calc), what))  return;
    const char* modes[] = { "optimized", "basic", "mask", "typemask", "par" };
    const char* befores[] = { "fresh", "A", "AB" };
    const char* ops[] = { "B", "edited", "settings", "read" };
    for (int mode = 0; mode < 5; ++mode)
    for (int before = 0; before < 3; ++before)
    for (int op = 0; op < 4; ++op)
    ctx.run(cat("C21 fault ", calc, " ", what, " kind=", int(kind), " ",
                modes[mode], " before=", befores[before], " at=", ops[op]),
            [&]()
    {
        Struct sa = basestruct(kind);
        sa.atoms.resize(kind == ref::ATOMIC ? 5 : 3);
        Struct sb = sa, sc = sa;
        moveatom(sb, 1, 0.2);
        sc.atoms.pop_back();
        sc.atoms[0].occ = 0.5;
        const bool fs = what == "structure";
        auto mk = [&](const Struct& s) { return fs ? faulty(s) : ref::build(s); };
        auto setup = [&]()
        {
            QPtr q = faultcalc(calc);
            install(*q, what);
            const bool opt = calc == "pdf" || calc == "debye" || calc == "bond";
            q->setEvaluatorType(mode == 1 || mode == 4 || !opt ? BASIC : OPTIMIZED);
            if (mode == 2)  q->setPairMask(0, 1, false);
            if (mode == 3)  q->setTypeMask("Na1+", "all", false);
            if (mode == 4)  q->setupParallelRun(1, 2);
            return q;
        };
        // result of another calculator
        auto fresh = [&](const Struct& s, bool edit)
        {
            QPtr q = setup();
            q->setEvaluatorType(BASIC);
            if (edit)  q->setRmax(2.2);
            SPtr p = ref::build(s);
            q->eval(p);
            return (mode == 4) ? Outs(1, Out{ "parallel", q->value(), 1e-7 }) :
                outputs(*q);
        };
        auto outs = [&](const PairQuantity& q)
        {
            return (mode == 4) ? Outs(1, Out{ "parallel", q.value(), 1e-7 }) :
                outputs(q);
        };
        if (mode == 4 && calc == "bond")  return;
        countdown = 0;
        const Outs wantA = fresh(sa, false), wantB = fresh(sb, false),
              wantC = fresh(sc, false), wantAr = fresh(sa, true),
              wantBr = fresh(sb, true), wantCr = fresh(sc, true);
        long n = 1;
        for (long k = 0; k <= n; ++k)
        {
            QPtr q = setup();
            SPtr a = mk(sa), b = mk(sb), c = mk(sc);
            if (before >= 1)  q->eval(a);
            if (before >= 2)  q->eval(b);
            // the operation with fault, k is zero for no fault
            if (op == 3)  q->eval(b);
            if (op == 1)
            {
                syncinplace(a, sc, sa);
                std::swap(a, c);
                // now c has the content of sc in the known object
                syncinplace(a, sa, sc);
            }
            calls = 0;
            countdown = k;
            bool raised = false;
            Conf c0;
            if (!k && op != 2)  c0 = configuration(*q, false);
            try
            {
                if (op == 0)  q->eval(b);
                if (op == 1)  q->eval(c);
                if (op == 2)
                {
                    q->setRmax(2.2);
                    q->eval(a);
                }
                if (op == 3)  outs(*q);
            }
            catch (FaultError& e)  { raised = true; }
            countdown = 0;
            if (k == 0)  n = calls;
            require(raised == (k > 0), "harness", "fault ", k, " of ", n);
            ctx.transition();
            const bool r = op == 2;
            if (r)  require(q->getRmax() == 2.2, "config", "rmax");
            std::string w = cat(calc, " ", what, " ", modes[mode], " before ",
                    befores[before], " fault ", k, " of ", n, " in ", ops[op]);
            if (op == 3)
            {
                // reading changes nothing
                compareouts(outs(*q), wantB, "reading", w);
                ctx.evaluation();
            }
            // all evaluations give correct results.  Start from any of them.
            const int first = k % 3;
            for (int i = 0; i < 3; ++i)
            {
                int j = (first + i) % 3;
                if (i == 2 && k % 5)  continue;
                q->eval(j == 0 ? b : j == 1 ? a : c);
                Outs o = outs(*q);
                compareouts(o, j == 0 ? (r ? wantBr : wantB) : j == 1 ?
                        (r ? wantAr : wantA) : (r ? wantCr : wantC),
                        "after-fault", w + cat(" evaluation ", i, " of ",
                            "BAC"[j]));
                ctx.evaluation();
                if (k < 20)  ctx.outcome(hashouts(o));
            }
            ctx.trace();
        }
        ctx.state(hashstr(cat(calc, what, mode, before, op, n)));
        ctx.count("faults", n);
        // pairs of faults
        if (!ctx.thorough || !fs || op || mode > 2)  return;
        for (long k = 1; k <= n; k += 5)  for (long l = 1; l <= n; l += 5)
        {
            QPtr q = setup();
            SPtr a = mk(sa), b = mk(sb), c = mk(sc);
            if (before >= 1)  q->eval(a);
            for (int i = 0; i < 2; ++i)
            {
                countdown = i ? l : k;
                try  { q->eval(i ? c : b); }
                catch (FaultError& e)  { }
                countdown = 0;
            }
            std::string w = cat(calc, " ", what, " ", modes[mode], " faults ",
                    k, " and ", l);
            q->eval(b);
            compareouts(outs(*q), wantB, "after-faults", w);
            ctx.evaluation();
            ctx.transition(2);
            ctx.trace();
        }
    });
}

}   // namespace

void explore(Ctx& ctx)
{
    for (std::string calc : { "pdf", "debye", "bond", "bvs", "overlap", "pair" })
    {
        for (auto k : { ref::ATOMIC, ref::PERIODIC, ref::CRYSTAL })
            for (auto w : { "structure", "width", "table", "envelope",
                    "profile", "baseline", "radii" })
                faults(ctx, calc, w, k);
        merges(ctx, calc);
        invalid(ctx, calc);
    }
}
