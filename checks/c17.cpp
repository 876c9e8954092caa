// C17: named double attributes reach the right object.
#include "mc.hpp"
#include "calcs.hpp"
#include <diffpy/Attributes.hpp>
#include <diffpy/srreal/ConstantPeakWidth.hpp>
#include <diffpy/srreal/DebyeWallerPeakWidth.hpp>
#include <diffpy/srreal/JeongPeakWidth.hpp>
#include <diffpy/srreal/PeakProfile.hpp>
#include <diffpy/srreal/PDFBaseline.hpp>
#include <diffpy/srreal/LinearBaseline.hpp>
#include <diffpy/srreal/PDFEnvelope.hpp>
#include <diffpy/srreal/ScaleEnvelope.hpp>
#include <diffpy/srreal/QResolutionEnvelope.hpp>
#include <diffpy/srreal/SphericalShapeEnvelope.hpp>
#include <diffpy/srreal/StepCutEnvelope.hpp>

using namespace mc;
using namespace diffpy::srreal;
using diffpy::attributes::Attributes;
using diffpy::attributes::DoubleAttributeError;

const Info mcinfo = {
    "C17", "model_checking",
    "All compositions of the PDF calculators from peak profiles, width "
        "models, baselines and sets of envelopes, other calculators, all "
        "components on their own and trees of user-defined classes with all "
        "kinds of getters and setters and duplicate names.  On each of them "
        "every sequence of set operations (valid, invalid, read-only and "
        "unknown names), replacements of components and copies up to the "
        "depth.  The oracle is a map of values and the direct getters of "
        "components.  A state is the model, an outcome is the list of values.",
    "sequences of 2 operations, 3 for the user-defined classes",
    "sequences of 3 operations, 4 for the user-defined classes",
    {"values of attributes that are derived from others are compared only "
        "with their getters"},
    60
};

namespace {

struct Attr
{
    std::string name;
    std::function<double()> get;
    std::vector<double> good;           // empty if read-only
    std::vector<double> bad;
    std::vector<std::string> affects;
};

typedef std::vector<Attr> Attrs;

const double UF = 16 * std::log(2.0);

void addpwm(Attrs& a, PeakWidthModel& m)
{
    if (m.type() == "constant")
    {
        auto p = dynamic_cast<ConstantPeakWidth*>(&m);
        auto w = [p]() { return p->getWidth(); };
        const std::vector<double> g = { 0.25, 0.125 };
        a.push_back(Attr{ "width", w, g, { }, { "uisowidth", "bisowidth" } });
        auto u = [p]() { return std::pow(p->getWidth(), 2) / UF; };
        a.push_back(Attr{ "uisowidth", u, g, { }, { "width", "bisowidth" } });
        auto b = [u]() { return 8 * M_PI * M_PI * u(); };
        a.push_back(Attr{ "bisowidth", b, g, { }, { "width", "uisowidth" } });
    }
    if (m.type() == "jeong")
    {
        auto p = dynamic_cast<JeongPeakWidth*>(&m);
        const std::vector<double> g = { 0.5, 0.0 };
        a.push_back(Attr{ "delta1", [p]() { return p->getDelta1(); }, g });
        a.push_back(Attr{ "delta2", [p]() { return p->getDelta2(); }, g });
        a.push_back(Attr{ "qbroad", [p]() { return p->getQbroad(); }, g });
        a.push_back(Attr{ "qbroad_seperable",
                [p]() { return p->getQbroad_seperable(); }, g });
    }
}

void addprofile(Attrs& a, PeakProfile& f)
{
    auto p = &f;
    a.push_back(Attr{ "peakprecision", [p]() { return p->getPrecision(); },
            { 1e-3, 1e-5 }, { }, { "extendedrmin", "extendedrmax", "qstep" } });
}

void addbaseline(Attrs& a, PDFBaseline& b)
{
    if (b.type() == "linear")
    {
        auto p = dynamic_cast<LinearBaseline*>(&b);
        a.push_back(Attr{ "slope", [p]() { return p->getSlope(); },
                { -0.5, 0.25 } });
    }
}

void addenvelope(Attrs& a, PDFEnvelope& e)
{
    const std::vector<double> g = { 0.5, 2.0 };
    if (auto p = dynamic_cast<ScaleEnvelope*>(&e))
        a.push_back(Attr{ "scale", [p]() { return p->getScale(); }, g });
    if (auto p = dynamic_cast<QResolutionEnvelope*>(&e))
        a.push_back(Attr{ "qdamp", [p]() { return p->getQdamp(); }, g });
    if (auto p = dynamic_cast<SphericalShapeEnvelope*>(&e))
        a.push_back(Attr{ "spdiameter", [p]() { return p->getSPDiameter(); }, g });
    if (auto p = dynamic_cast<StepCutEnvelope*>(&e))
        a.push_back(Attr{ "stepcut", [p]() { return p->getStepCut(); }, g });
}

template <class T>
void addowned(Attrs& a, T& q)
{
    addpwm(a, *q.getPeakWidthModel());
    for (auto& e : q.usedEnvelopeTypes())
        addenvelope(a, *q.getEnvelopeByType(e));
}

/// attributes of a calculator
Attrs attrsof(Attributes& x)
{
    Attrs a;
    // slope of the linear baseline is set from the number density of structure
    // whenever the calculator is reset for an evaluation
    const std::vector<std::string> ext = { "extendedrmin", "extendedrmax",
        "qstep", "rmaxused", "slope" };
    if (auto p = dynamic_cast<PairQuantity*>(&x))
    {
        bool pdf = dynamic_cast<PDFCalculator*>(p) ||
            dynamic_cast<DebyePDFCalculator*>(p);
        std::vector<double> bad;
        if (pdf)  bad = { -1 };
        a.push_back(Attr{ "rmin", [p]() { return p->getRmin(); }, { 0.5, 1.0 },
                bad, ext });
        a.push_back(Attr{ "rmax", [p]() { return p->getRmax(); }, { 4.0, 5.0 },
                bad, ext });
    }
    if (auto p = dynamic_cast<PDFCalculator*>(&x))
    {
        addowned(a, *p);
        addprofile(a, *p->getPeakProfile());
        addbaseline(a, *p->getBaseline());
        a.push_back(Attr{ "qmin", [p]() { return p->getQmin(); }, { 0.5, 1.0 },
                { -1 } });
        a.push_back(Attr{ "qmax", [p]() { return p->getQmax(); }, { 20, 25 },
                { -1 }, ext });
        a.push_back(Attr{ "qstep", [p]() { return p->getQstep(); }, { }, { 1 } });
        a.push_back(Attr{ "rstep", [p]() { return p->getRstep(); },
                { 0.02, 0.05 }, { 0, -1 }, { "extendedrmin", "extendedrmax",
                "qstep", "qmax", "slope" } });
        a.push_back(Attr{ "maxextension", [p]() { return p->getMaxExtension(); },
                { 0.0, 2.0 }, { -1 }, ext });
        a.push_back(Attr{ "extendedrmin",
                [p]() { return p->getExtendedRmin(); }, { }, { 1 } });
        a.push_back(Attr{ "extendedrmax",
                [p]() { return p->getExtendedRmax(); }, { }, { 1 } });
    }
    if (auto p = dynamic_cast<DebyePDFCalculator*>(&x))
    {
        addowned(a, *p);
        a.push_back(Attr{ "qmin", [p]() { return p->getQmin(); }, { 0.5, 1.0 },
                { -1 } });
        a.push_back(Attr{ "qmax", [p]() { return p->getQmax(); }, { 8, 9 },
                { -1, 0 }, ext });
        a.push_back(Attr{ "qstep", [p]() { return p->getQstep(); },
                { 0.01, 0.02 }, { 0, -1 } });
        a.push_back(Attr{ "rstep", [p]() { return p->getRstep(); },
                { 0.02, 0.05 }, { 0, -1 }, ext });
        a.push_back(Attr{ "maxextension", [p]() { return p->getMaxExtension(); },
                { 0.0, 2.0 }, { -1 }, ext });
        // there is no public access to the extended range
        a.push_back(Attr{ "extendedrmin", nullptr, { }, { 1 } });
        a.push_back(Attr{ "extendedrmax", nullptr, { }, { 1 } });
        a.push_back(Attr{ "debyeprecision",
                [p]() { return p->getDebyePrecision(); }, { 1e-4, 1e-3 }, { } });
    }
    if (auto p = dynamic_cast<BVSCalculator*>(&x))
    {
        a.push_back(Attr{ "valenceprecision",
                [p]() { return p->getValencePrecision(); }, { 1e-4, 1e-3 },
                { 0, -1 }, { "rmaxused" } });
        a.push_back(Attr{ "rmaxused", [p]() { return p->getRmaxUsed(); }, { },
                { 1 } });
    }
    if (auto p = dynamic_cast<OverlapCalculator*>(&x))
        a.push_back(Attr{ "rmaxused", [p]() { return p->getRmaxUsed(); }, { },
                { 1 } });
    if (auto p = dynamic_cast<PeakWidthModel*>(&x))  addpwm(a, *p);
    if (auto p = dynamic_cast<PeakProfile*>(&x))  addprofile(a, *p);
    if (auto p = dynamic_cast<PDFBaseline*>(&x))  addbaseline(a, *p);
    if (auto p = dynamic_cast<PDFEnvelope*>(&x))  addenvelope(a, *p);
    return a;
}

bool close(double a, double b)
{
    return a == b || std::fabs(a - b) <= 1e-12 * (std::fabs(a) + std::fabs(b));
}

typedef std::map<std::string, double> Values;

Values values(Attributes& x, const Attrs& as, const std::string& w)
{
    Values rv;
    std::set<std::string> names, writable;
    for (auto& a : as)
    {
        require(x.hasDoubleAttr(a.name), "has", w, " no attribute ", a.name);
        double v = x.getDoubleAttr(a.name);
        if (a.get)
        {
            double d = a.get();
            require(close(v, d), "get", w, " attribute ", a.name, " is ", v,
                    " instead of ", d);
        }
        rv[a.name] = v;
        names.insert(a.name);
        if (!a.good.empty())  writable.insert(a.name);
    }
    require(x.namesOfDoubleAttributes() == names, "names", w);
    require(x.namesOfWritableDoubleAttributes() == writable, "writable", w);
    return rv;
}

void compare(const Values& v, const Values& m, const std::set<std::string>& skip,
        const std::string& sig, const std::string& w)
{
    for (auto& kv : m)
    {
        if (skip.count(kv.first))  continue;
        require(close(v.at(kv.first), kv.second), sig, w, " attribute ",
                kv.first, " is ", v.at(kv.first), " instead of ", kv.second);
    }
}

struct Step
{
    int attr;           // -1 for unknown names
    double value;
    bool ok;
};

std::vector<Step> stepsof(const Attrs& as)
{
    std::vector<Step> rv;
    for (size_t i = 0; i < as.size(); ++i)
    {
        for (double x : as[i].good)  rv.push_back(Step{ int(i), x, true });
        for (double x : as[i].bad)  rv.push_back(Step{ int(i), x, false });
    }
    rv.push_back(Step{ -1, 0, false });
    rv.push_back(Step{ -2, 0, true });          // copy
    return rv;
}

typedef boost::shared_ptr<Attributes> APtr;

APtr copyof(APtr x)
{
#define COPY(T) if (auto p = dynamic_cast<T*>(x.get()))  return APtr(new T(*p));
    COPY(PDFCalculator)
    COPY(DebyePDFCalculator)
    COPY(BVSCalculator)
    COPY(OverlapCalculator)
    COPY(BondCalculator)
    COPY(PairCounter)
#undef COPY
    if (auto p = dynamic_cast<PeakWidthModel*>(x.get()))  return p->clone();
    if (auto p = dynamic_cast<PeakProfile*>(x.get()))  return p->clone();
    if (auto p = dynamic_cast<PDFBaseline*>(x.get()))  return p->clone();
    if (auto p = dynamic_cast<PDFEnvelope*>(x.get()))  return p->clone();
    fail("harness", "copy");
    return x;
}

/// names of attributes of the object itself.  A copy of calculator shares
/// its components.
std::set<std::string> shared(APtr x)
{
    std::set<std::string> rv;
    if (!dynamic_cast<PairQuantity*>(x.get()))  return rv;
    rv = { "width", "uisowidth", "bisowidth", "delta1", "delta2", "qbroad",
        "qbroad_seperable", "peakprecision", "slope", "scale", "qdamp",
        "spdiameter", "stepcut", "extendedrmin", "extendedrmax" };
    if (dynamic_cast<PDFCalculator*>(x.get()))  rv.insert("qstep");
    return rv;
}

/// all sequences of steps on an object made by a function
void sequences(Ctx& ctx, const std::string& name, std::function<APtr()> make,
        int depth)
{
    ctx.run("C17 " + name, [&]()
    {
        const int n = stepsof(attrsof(*make())).size();
        int tot = 1;
        for (int i = 0; i < depth; ++i)  tot *= n;
        for (int code = 0; code < tot; ++code)
        {
            APtr x = make(), old;
            Attrs as = attrsof(*x);
            std::vector<Step> steps = stepsof(as);
            std::string w = name;
            Values m = values(*x, as, w), mold;
            for (int i = 0, c = code; i < depth; ++i, c /= n)
            {
                const Step& s = steps[c % n];
                std::set<std::string> skip;
                ctx.transition();
                if (s.attr == -2)
                {
                    w += " copy";
                    old = x;
                    mold = m;
                    x = copyof(x);
                    as = attrsof(*x);
                    steps = stepsof(as);
                }
                else if (s.attr == -1)
                {
                    w += " unknown";
                    for (auto u : { "nosuch", "", "rmin ", "Rmin" })
                    {
                        int raised = 0;
                        try  { x->setDoubleAttr(u, 1.0); }
                        catch (DoubleAttributeError&)  { raised += 1; }
                        try  { x->getDoubleAttr(u); }
                        catch (DoubleAttributeError&)  { raised += 2; }
                        require(raised == 3 && !x->hasDoubleAttr(u), "unknown",
                                w, " name '", u, "' raised=", raised);
                    }
                }
                else
                {
                    const Attr& a = as[s.attr];
                    w += cat(" ", a.name, "=", s.value);
                    bool raised = false, other = false;
                    try  { x->setDoubleAttr(a.name, s.value); }
                    catch (DoubleAttributeError&)  { raised = true; }
                    catch (std::invalid_argument&)  { other = true; }
                    if (s.ok)
                    {
                        require(!raised && !other, "set", w, " raised");
                        m[a.name] = s.value;
                        skip.insert(a.affects.begin(), a.affects.end());
                    }
                    else if (a.good.empty())
                        require(raised, "readonly", w, " gave no error");
                    else  require(other, "invalid", w, " gave no error");
                }
                Values v = values(*x, as, w);
                compare(v, m, skip, "value", w);
                for (auto& k : skip)  if (m.count(k))  m[k] = v[k];
            }
            // the original of a copy
            if (old)
            {
                Values v = values(*old, attrsof(*old), w);
                compare(v, mold, shared(old), "copy", w + " original");
            }
            uint64_t h = hashstr(name);
            for (auto& kv : m)  h = mix(h, hashdbl(kv.second));
            ctx.state(h);
            ctx.outcome(h);
            ctx.trace();
        }
    });
}

// user-defined classes ------------------------------------------------------

class Node : public Attributes
{
    public:

        double v[5];
        std::vector<boost::shared_ptr<Node> > sub;

        // kinds is a set of bits, each adds an attribute
        Node(int kinds)
        {
            for (int i = 0; i < 5; ++i)  v[i] = 10 * i + 1;
            if (kinds & 1)  registerDoubleAttribute("a", this, &Node::get0,
                    &Node::set0);
            if (kinds & 2)  registerDoubleAttribute("b", this, &Node::get1,
                    &Node::set1);
            if (kinds & 4)  registerDoubleAttribute("c", this, &free2, &setfree2);
            if (kinds & 8)  registerDoubleAttribute("d", this, &Node::get0);
            // registered again with other functions
            if (kinds & 16)
            {
                registerDoubleAttribute("e", this, &Node::get0);
                registerDoubleAttribute("e", this, &Node::get4, &Node::set4);
            }
        }

        double get0() const  { return v[0]; }
        void set0(double x)  { v[0] = x; }
        const double& get1() const  { return v[1]; }
        void set1(const double& x)
        {
            if (x < 0)  throw std::invalid_argument("negative");
            v[1] = x;
        }
        static double free2(const Node* p)  { return 2 * p->v[2]; }
        static void setfree2(Node* p, const double& x)  { p->v[2] = x / 2; }
        double get4() const  { return v[4]; }
        void set4(double x)  { v[4] = x; }

        void accept(diffpy::BaseAttributesVisitor& vis)
        {
            for (auto& s : sub)  s->accept(vis);
            this->Attributes::accept(vis);
        }
        void accept(diffpy::BaseAttributesVisitor& vis) const
        {
            for (auto& s : sub)
                boost::shared_ptr<const Node>(s)->accept(vis);
            this->Attributes::accept(vis);
        }
};

typedef boost::shared_ptr<Node> NPtr;

// value of attribute name in node
double* slot(Node& n, char c)
{
    switch (c)
    {
        case 'a': case 'd': return n.v;
        case 'b': return n.v + 1;
        case 'c': return n.v + 2;
        case 'e': return n.v + 4;
    }
    return NULL;
}

void trees(Ctx& ctx, int depth)
{
    const int kinds[] = { 0, 1, 2, 4, 8, 16, 3, 9, 20, 31 };
    const int NK = 10, NOP = 12;
    // shapes: single node, two levels, two children, three levels
    for (int shape = 0; shape < 4; ++shape)
    for (int k = 0; k < (shape == 0 ? NK : shape == 1 ? NK * NK : NK * NK * NK);
            ++k)
    ctx.run(cat("C17 tree shape=", shape, " kinds=", k), [&]()
    {
        const int nn = shape == 0 ? 1 : shape == 1 ? 2 : 3;
        int kk[3] = { kinds[k % NK], kinds[k / NK % NK], kinds[k / NK / NK] };
        int tot = 1;
        for (int i = 0; i < depth; ++i)  tot *= NOP;
        for (int code = 0; code < tot; ++code)
        {
            NPtr n[3];
            for (int i = 0; i < nn; ++i)
            {
                n[i].reset(new Node(kk[i]));
                for (double& x : n[i]->v)  x += 100 * i;
            }
            if (shape)  n[0]->sub.push_back(n[1]);
            if (shape == 2)  n[0]->sub.push_back(n[2]);
            if (shape == 3)  n[1]->sub.push_back(n[2]);
            NPtr root = n[0], old;
            // model
            double m[3][5], mold[5] = { 0 };
            for (int i = 0; i < nn; ++i)  std::copy(n[i]->v, n[i]->v + 5, m[i]);
            std::string w = cat("shape ", shape, " kinds ", kk[0], ",", kk[1],
                    ",", kk[2]);
            const std::string all = "abcde";
            auto owners = [&](char c)
            {
                std::vector<int> rv;
                for (int i = 0; i < nn; ++i)
                    if (kk[i] & (1 << all.find(c)))  rv.push_back(i);
                return rv;
            };
            auto mslot = [&](int i, char c)
            {
                return m[i] + (slot(*n[i], c) - n[i]->v);
            };
            for (int i = 0, c = code; i < depth; ++i, c /= NOP)
            {
                int op = c % NOP;
                ctx.transition();
                if (op < 10)
                {
                    char nm = all[op / 2];
                    double x = (op % 2) ? 3.5 : -2.25;
                    w += cat(" ", nm, "=", x);
                    auto o = owners(nm);
                    int e0 = 0, e = 0;
                    if (o.empty() || nm == 'd')  e0 = 1;
                    if (o.size() > 1)  e0 = 2;
                    else if (o.size() == 1 && nm == 'b' && x < 0)  e0 = 3;
                    try  { root->setDoubleAttr(std::string(1, nm), x); }
                    catch (DoubleAttributeError&)  { e = 1; }
                    catch (std::invalid_argument&)  { e = 3; }
                    catch (std::logic_error&)  { e = 2; }
                    require(e == e0, "tree-set", w, " error ", e,
                            " instead of ", e0);
                    if (!e0)  *mslot(o[0], nm) = (nm == 'c') ? x / 2 : x;
                }
                else if (op == 10)
                {
                    w += " copy";
                    old = root;
                    std::copy(m[0], m[0] + 5, mold);
                    n[0] = root = NPtr(new Node(*root));
                }
                else
                {
                    // assignment keeps the attributes of the target
                    w += " assign";
                    NPtr t(new Node(31 - kk[0]));
                    *t = *root;
                    old = root;
                    std::copy(m[0], m[0] + 5, mold);
                    n[0] = root = t;
                    kk[0] = 31 - kk[0];
                }
                // compare
                std::set<std::string> names, writable;
                for (char nm : all)
                {
                    std::string s(1, nm);
                    auto o = owners(nm);
                    require(root->hasDoubleAttr(s) == !o.empty(), "tree-has", w,
                            " ", s);
                    if (!o.empty())  names.insert(s);
                    if (!o.empty() && nm != 'd')  writable.insert(s);
                    int e = 0;
                    double v = 0;
                    const Node& r = *root;
                    try  { v = r.getDoubleAttr(s); }
                    catch (DoubleAttributeError&)  { e = 1; }
                    catch (std::logic_error&)  { e = 2; }
                    int e0 = o.empty() ? 1 : o.size() > 1 ? 2 : 0;
                    require(e == e0, "tree-get", w, " ", s, " error ", e,
                            " instead of ", e0);
                    if (e)  continue;
                    double v0 = *mslot(o[0], nm) * (nm == 'c' ? 2 : 1);
                    require(v == v0, "tree-value", w, " ", s, " is ", v,
                            " instead of ", v0);
                }
                require(root->namesOfDoubleAttributes() == names, "tree-names",
                        w);
                require(root->namesOfWritableDoubleAttributes() == writable,
                        "tree-writable", w);
                for (int j = 0; j < nn; ++j)
                    require(std::equal(m[j], m[j] + 5, n[j]->v), "tree-other", w,
                            " value in node ", j, " changed");
                if (old)  require(std::equal(mold, mold + 5, old->v),
                        "tree-copy", w);
            }
            uint64_t h = hashstr(cat(shape, " ", k));
            for (int j = 0; j < nn; ++j)
                for (double x : m[j])  h = mix(h, hashdbl(x));
            ctx.state(h);
            ctx.outcome(h);
            ctx.trace();
        }
    });
}

}   // namespace

void explore(Ctx& ctx)
{
    const int d = ctx.thorough ? 3 : 2;
    const std::vector<std::string> pwms = { "constant", "debye-waller", "jeong" },
          profiles = { "gaussian", "croppedgaussian" }, baselines = { "zero",
              "linear" }, envelopes = { "scale", "qresolution",
              "sphericalshape", "stepcut" };
    for (auto& pw : pwms)  for (int e = 0; e < 16; ++e)
    {
        auto setup = [=](PeakWidthModelOwner& q, PDFEnvelopeOwner& o)
        {
            q.setPeakWidthModelByType(pw);
            o.clearEnvelopes();
            for (int i = 0; i < 4; ++i)
                if (e & (1 << i))  o.addEnvelopeByType(envelopes[i]);
        };
        for (auto& pf : profiles)  for (auto& bl : baselines)
        sequences(ctx, cat("PDFCalculator ", pw, " ", pf, " ", bl, " envelopes=",
                    e), [=]()
        {
            boost::shared_ptr<PDFCalculator> p(new PDFCalculator);
            setup(*p, *p);
            p->setPeakProfileByType(pf);
            p->setBaselineByType(bl);
            return APtr(p);
        }, d);
        sequences(ctx, cat("DebyePDFCalculator ", pw, " envelopes=", e), [=]()
        {
            boost::shared_ptr<DebyePDFCalculator> p(new DebyePDFCalculator);
            setup(*p, *p);
            return APtr(p);
        }, d);
    }
    sequences(ctx, "BVSCalculator", []() { return APtr(new BVSCalculator); },
            d + 1);
    sequences(ctx, "OverlapCalculator",
            []() { return APtr(new OverlapCalculator); }, d + 1);
    sequences(ctx, "BondCalculator", []() { return APtr(new BondCalculator); },
            d + 1);
    sequences(ctx, "PairCounter", []() { return APtr(new PairCounter); }, d + 1);
    for (auto& s : pwms)
        sequences(ctx, "PeakWidthModel " + s,
                [=]() { return PeakWidthModel::createByType(s); }, d + 1);
    for (auto& s : profiles)
        sequences(ctx, "PeakProfile " + s,
                [=]() { return PeakProfile::createByType(s); }, d + 1);
    for (auto& s : baselines)
        sequences(ctx, "PDFBaseline " + s,
                [=]() { return PDFBaseline::createByType(s); }, d + 1);
    for (auto& s : envelopes)
        sequences(ctx, "PDFEnvelope " + s,
                [=]() { return PDFEnvelope::createByType(s); }, d + 1);
    trees(ctx, d + 1);
}
