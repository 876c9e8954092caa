// C18: event tickers order all changes.
#include "mc.hpp"
#include "settings.hpp"
#include <sstream>
#include <sys/wait.h>
#include <unistd.h>
#include <diffpy/serialization.ipp>
#include <diffpy/EventTicker.hpp>
#include <diffpy/srreal/JeongPeakWidth.hpp>
#include <diffpy/srreal/ConstantPeakWidth.hpp>

using namespace mc;
using diffpy::eventticker::EventTicker;

const Info mcinfo = {
    "C18", "model_checking",
    "All sequences of clicks, updates, assignments and restores on three "
        "tickers up to the depth, compared with a model of event times by all "
        "comparison operators.  All archives written by a process after any "
        "number of events of the bound and restored in another process after "
        "any number of events.  All sequences of setters on a system of "
        "calculators that share peak width models, scattering tables and peak "
        "profiles: everything that changed must have a ticker later than all "
        "events before the setter.  The same for all sequences of 3 values of "
        "each item of the system.  Calculators saved before or after an "
        "evaluation or change in one process and evaluated in another one.",
    "sequences of 5 ticker operations, 3 setters, 2 steps before archiving",
    "sequences of 6 ticker operations, 4 setters, 3 steps before archiving",
    {"tickers of PDFCalculator need not change with qmin and with larger "
        "qmax, which do not affect the sums over pairs or are detected by "
        "other means"},
    60
};

namespace {

struct Three { EventTicker t[3]; };

struct Bundle
{
    Three x;
    QPtr q;
    template <class Archive>
        void serialize(Archive& ar, const unsigned int version)
    {
        ar & x.t[0] & x.t[1] & x.t[2] & q;
    }
};

std::string save3(const Three& x, const int* perm)
{
    Bundle b;
    for (int i = 0; i < 3; ++i)  b.x.t[i] = x.t[perm[i]];
    return diffpy::serialization_tostring(b);
}

void load3(Three& x, const std::string& s, const int* perm)
{
    Bundle b;
    for (int i = 0; i < 3; ++i)  b.x.t[i] = x.t[perm[i]];
    diffpy::serialization_fromstring(b, s);
    for (int i = 0; i < 3; ++i)  x.t[perm[i]] = b.x.t[i];
}

std::string save(QPtr q)
{
    Bundle b;
    b.q = q;
    return diffpy::serialization_tostring(b);
}

void load(QPtr& q, const std::string& s)
{
    Bundle b;
    diffpy::serialization_fromstring(b, s);
    q = b.q;
}

/// all comparisons agree with those of numbers
void checkpair(const EventTicker& a, const EventTicker& b, long x, long y,
        const std::string& w)
{
    require((a < b) == (x < y), "order", w, " <");
    require((a <= b) == (x <= y), "order", w, " <=");
    require((a > b) == (x > y), "order", w, " >");
    require((a >= b) == (x >= y), "order", w, " >=");
    require((a == b) == (x == y), "order", w, " ==");
    require((a != b) == (x != y), "order", w, " !=");
    require((a.value() < b.value()) == (x < y), "value", w);
}

void consistent(const EventTicker& a, const EventTicker& b, const std::string& w)
{
    require((a < b) + (a == b) + (a > b) == 1, "total", w);
    require((a <= b) == !(a > b) && (a >= b) == !(a < b) &&
            (a != b) == !(a == b) && (a < b) == (b > a), "total", w);
}

// A: sequences of ticker operations -----------------------------------------

const int PERMS[6][3] = { {0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0},
    {2, 0, 1}, {2, 1, 0} };

struct Seq
{
    Ctx* ctx;
    bool archive;
    std::vector<int> ops;
};

// model time is the number of events since the start of the sequence,
// zero is for events before that.
void walk(Seq& s, Three x, std::array<long, 3> m, Three x0,
        std::array<long, 3> m0, std::string ar, long now, int depth)
{
    Ctx& ctx = *s.ctx;
    uint64_t h = 3;
    for (int i = 0; i < 3; ++i)  for (int j = 0; j < 3; ++j)
    {
        auto w = [&]()
        {
            std::string r = "after";
            for (int o : s.ops)  r += cat(" ", o);
            return cat(r, " tickers ", i, " and ", j);
        };
        const EventTicker &a = x.t[i], &b = x.t[j];
        long p = m[i], q = m[j];
        if ((a < b) != (p < q) || (a <= b) != (p <= q) || (a > b) != (p > q) ||
                (a >= b) != (p >= q) || (a == b) != (p == q) ||
                (a != b) != (p != q) || (a.value() < b.value()) != (p < q))
            checkpair(a, b, p, q, w());
        h = mix(h, 1 + (p < q) + 2 * (p > q) + (i == j ? 4 * (p > 0) : 0));
    }
    ctx.state(h);
    ctx.outcome(h);
    if (depth == 0)
    {
        ctx.trace();
        return;
    }
    const int NOP = s.archive ? 17 : 15;
    for (int op = 0; op < NOP; ++op)
    {
        Three y = x;
        std::array<long, 3> n = m;
        Three y0 = x0;
        std::array<long, 3> n0 = m0;
        std::string ar1 = ar;
        long t = now;
        if (op < 3)
        {
            y.t[op].click();
            n[op] = ++t;
        }
        else if (op < 12)
        {
            int i = (op - 3) / 3, j = (op - 3) % 3;
            y.t[i].updateFrom(y.t[j]);
            n[i] = std::max(n[i], n[j]);
        }
        else if (op < 15)
        {
            int i = op - 12, j = (i + 1) % 3;
            y.t[i] = y.t[j];
            n[i] = n[j];
        }
        else if (op == 15)
        {
            // save
            if (!ar.empty())  continue;
            ar1 = save3(x, PERMS[now % 6]);
            y0 = x;
            n0 = m;
            for (int k = 0; k < 3; ++k)  n0[k] = m[PERMS[now % 6][k]];
        }
        else
        {
            if (ar.empty())  continue;
            load3(y, ar, PERMS[0]);
            for (int k = 0; k < 3; ++k)  n[k] = n0[k];
        }
        s.ops.push_back(op);
        ctx.transition();
        walk(s, y, n, y0, n0, ar1, t, depth - 1);
        s.ops.pop_back();
    }
}

void walks(Ctx& ctx, int depth)
{
    for (int archive = 0; archive < 2; ++archive)
    for (int pre = 0; pre < 27; ++pre)
    ctx.run(cat("C18 tickers archive=", archive, " start=", pre), [&]()
    {
        // starts from all orders of three events or no events
        Three x;
        std::array<long, 3> m = { { 0, 0, 0 } };
        long t = 0;
        for (int k = 0, c = pre; k < 3; ++k, c /= 3)
        {
            if (c % 3 == 2)  continue;
            x.t[(k + c) % 3].click();
            m[(k + c) % 3] = ++t;
        }
        Seq s = { &ctx, archive == 1, { } };
        walk(s, x, m, x, m, "", t, depth - 1);
    });
}

// B: archives in other processes --------------------------------------------

template <class F> std::string isolated(F fn)
{
    int p[2];
    if (pipe(p))  fail("harness", "pipe");
    fflush(NULL);
    pid_t pid = fork();
    if (pid == 0)
    {
        close(p[0]);
        std::string r;
        try  { r = fn(); }
        catch (Fail& e)  { r = "!" + e.sig + "|" + e.msg; }
        catch (std::exception& e)  { r = cat("!exception|", e.what()); }
        size_t k = 0;
        while (k < r.size())
        {
            ssize_t n = write(p[1], r.data() + k, r.size() - k);
            if (n < 0)  _exit(2);
            k += n;
        }
        _exit(0);
    }
    close(p[1]);
    std::string r;
    char buf[4096];
    for (ssize_t n; (n = read(p[0], buf, sizeof(buf))) > 0; )  r.append(buf, n);
    close(p[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st))
        fail("crash", cat("the process was ended with status ", st));
    if (!r.empty() && r[0] == '!')
    {
        size_t q = r.find('|');
        throw Fail(r.substr(1, q - 1), r.substr(q + 1));
    }
    return r;
}

/// tickers after a pattern of clicks, 3 is for clicks elsewhere
Three pattern(const std::vector<int>& c, std::array<long, 3>& m)
{
    Three x;
    EventTicker other;
    m = {{ 0, 0, 0 }};
    long t = 0;
    for (int i : c)
    {
        (i < 3 ? x.t[i] : other).click();
        ++t;
        if (i < 3)  m[i] = t;
    }
    return x;
}

void processes(Ctx& ctx, int depth)
{
    int tot = 1;
    for (int i = 0; i < depth; ++i)  tot *= 4;
    for (int extra = 0; extra < 3; ++extra)
    for (int mine = 0; mine < depth + 4; ++mine)
    for (int code = 0; code < tot; ++code)
    ctx.run(cat("C18 process code=", code, " extra=", extra, " reader=", mine),
            [&]()
    {
        std::vector<int> c;
        for (int i = 0, k = code; i < depth; ++i, k /= 4)  c.push_back(k % 4);
        c.insert(c.end(), extra, 3);
        std::array<long, 3> m;
        std::string ar = isolated([&]()
                { return save3(pattern(c, m), PERMS[0]); });
        pattern(c, m);          // for times only
        std::string w = cat("pattern ", code, " extra ", extra, " reader ", mine);
        std::string r = isolated([&]()
        {
            for (int perm = 0; perm < 6; ++perm)
            {
                EventTicker old, fresh;
                for (int i = 0; i < (perm ? 0 : mine); ++i)  old.click();
                Three y;
                if (perm == 1)  for (auto& e : y.t)  e.click();
                load3(y, ar, PERMS[perm]);
                fresh.click();
                for (int i = 0; i < 3; ++i)  for (int j = 0; j < 3; ++j)
                {
                    // never clicked tickers have the time of the process start
                    if (m[i] && m[j])
                        checkpair(y.t[PERMS[perm][i]], y.t[PERMS[perm][j]],
                                m[i], m[j], w);
                    consistent(y.t[i], y.t[j], w);
                    consistent(y.t[i], old, w);
                }
                for (int i = 0; i < 3; ++i)
                    require(y.t[i] < fresh && !(y.t[i] >= fresh), "restored-late",
                            w, " ticker ", i, " is later than a new event");
                require(old < fresh, "order", w);
                // works with tickers of the process
                for (int i = 0; i < 3; ++i)
                {
                    EventTicker u = old;
                    u.updateFrom(y.t[i]);
                    require(u >= old && u >= y.t[i] && (u == old || u == y.t[i]),
                            "update", w);
                    u.updateFrom(fresh);
                    require(u == fresh, "update", w);
                    y.t[i].click();
                    require(y.t[i] > u && y.t[i] > fresh, "click", w);
                }
            }
            return std::string("ok");
        });
        ctx.transition(6);
        ctx.state(hashstr(cat(m[0], " ", m[1], " ", m[2], " ", extra, " ", mine)));
        ctx.outcome(hashstr(cat(m[0] < m[1], m[1] < m[2], m[0] < m[2],
                        long(c.size()) < mine)));
        ctx.trace();
    });
}

// C: setters ----------------------------------------------------------------

typedef boost::shared_ptr<PDFCalculator> PDFPtr;
typedef boost::shared_ptr<DebyePDFCalculator> DebyePtr;
typedef boost::shared_ptr<BondCalculator> BondPtr;

struct Sys
{
    PeakWidthModelPtr pwm[2];
    ScatteringFactorTablePtr sft[2];
    PeakProfilePtr pkf[2];
    PDFPtr pdf[2];
    DebyePtr debye;
    BondPtr bond;
    BaseBondGeneratorPtr bnds;
};

Sys newsys()
{
    static SPtr stru = ref::build(basestruct(ref::ATOMIC));
    Sys s;
    s.pwm[0] = PeakWidthModel::createByType("jeong");
    s.pwm[1] = PeakWidthModel::createByType("constant");
    s.sft[0] = ScatteringFactorTable::createByType("xray");
    s.sft[1] = ScatteringFactorTable::createByType("neutron");
    s.pkf[0] = PeakProfile::createByType("gaussian");
    s.pkf[1] = PeakProfile::createByType("croppedgaussian");
    for (auto& p : s.pdf)
    {
        p.reset(new PDFCalculator);
        p->setStructure(stru);
        p->setPeakWidthModel(s.pwm[0]);
        p->setScatteringFactorTable(s.sft[0]);
        p->setPeakProfile(s.pkf[0]);
    }
    s.debye.reset(new DebyePDFCalculator);
    s.debye->setStructure(stru);
    s.debye->setPeakWidthModel(s.pwm[0]);
    s.debye->setScatteringFactorTable(s.sft[0]);
    s.bond.reset(new BondCalculator);
    s.bond->setStructure(stru);
    s.bnds = stru->createBondGenerator();
    return s;
}

struct Part
{
    std::string name;
    std::function<std::vector<double>(Sys&)> out;
    std::function<const EventTicker&(Sys&)> tick;
};

typedef std::vector<double> Vec;

void addto(Vec& v, const Vec& w)  { v.insert(v.end(), w.begin(), w.end()); }

Vec pwmout(PeakWidthModel& p, BaseBondGenerator& b)
{
    Vec v;
    b.selectAnchorSite(0);
    b.setRmax(5);
    for (b.rewind(); !b.finished() && v.size() < 4; b.next())
        v.push_back(p.calculate(b));
    return v;
}
Vec sftout(ScatteringFactorTable& t)
{
    return Vec{ t.lookup("Na1+"), t.lookup("Na1+", 2.0), t.lookup("Cl1-"),
        t.lookup("O") };
}
Vec pkfout(PeakProfile& p)
{
    return Vec{ p.xboundlo(0.5), p.xboundhi(0.5), p(0.3, 0.5) };
}
Vec pqout(PairQuantity& q)
{
    Vec v = { q.getRmin(), q.getRmax() };
    for (int i = 0; i < 3; ++i)  for (int j = 0; j <= i; ++j)
    {
        v.push_back(q.getPairMask(i, j));
        const char* t[] = { "Na1+", "Cl1-", "O" };
        v.push_back(q.getTypeMask(t[i], t[j]));
    }
    return v;
}

std::vector<Part> parts()
{
    std::vector<Part> rv;
    for (int i = 0; i < 2; ++i)
    {
        rv.push_back(Part{ cat("pwm", i),
                [=](Sys& s) { return pwmout(*s.pwm[i], *s.bnds); },
                [=](Sys& s) -> const EventTicker&
                    { return s.pwm[i]->ticker(); } });
        rv.push_back(Part{ cat("sft", i),
                [=](Sys& s) { return sftout(*s.sft[i]); },
                [=](Sys& s) -> const EventTicker&
                    { return s.sft[i]->ticker(); } });
        rv.push_back(Part{ cat("profile", i),
                [=](Sys& s) { return pkfout(*s.pkf[i]); },
                [=](Sys& s) -> const EventTicker&
                    { return s.pkf[i]->ticker(); } });
        auto pdf = [=](Sys& s)
        {
            PDFCalculator& p = *s.pdf[i];
            Vec v = pqout(p);
            addto(v, pwmout(*p.getPeakWidthModel(), *s.bnds));
            addto(v, sftout(*p.getScatteringFactorTable()));
            addto(v, pkfout(*p.getPeakProfile()));
            addto(v, Vec{ p.getRstep(), p.getMaxExtension() });
            return v;
        };
        rv.push_back(Part{ cat("pdf", i), pdf,
                [=](Sys& s) -> const EventTicker&
                    { return s.pdf[i]->ticker(); } });
        rv.push_back(Part{ cat("pdf-owner-pwm", i), [=](Sys& s)
                    { return pwmout(*s.pdf[i]->getPeakWidthModel(), *s.bnds); },
                [=](Sys& s) -> const EventTicker&
                    { return s.pdf[i]->PeakWidthModelOwner::ticker(); } });
        rv.push_back(Part{ cat("pdf-owner-sft", i), [=](Sys& s)
                    { return sftout(*s.pdf[i]->getScatteringFactorTable()); },
                [=](Sys& s) -> const EventTicker& { return
                    s.pdf[i]->ScatteringFactorTableOwner::ticker(); } });
    }
    rv.push_back(Part{ "debye", [](Sys& s)
            {
                DebyePDFCalculator& p = *s.debye;
                Vec v = pqout(p);
                addto(v, pwmout(*p.getPeakWidthModel(), *s.bnds));
                addto(v, sftout(*p.getScatteringFactorTable()));
                addto(v, Vec{ p.getQmax(), p.getQstep(), p.getDebyePrecision(),
                        p.getRstep(), p.getMaxExtension() });
                return v;
            },
            [](Sys& s) -> const EventTicker& { return s.debye->ticker(); } });
    rv.push_back(Part{ "bond", [](Sys& s)
            {
                Vec v = pqout(*s.bond);
                // filters
                BondCalculator b(*s.bond);
                b.eval();
                addto(v, b.distances());
                return v;
            },
            [](Sys& s) -> const EventTicker& { return s.bond->ticker(); } });
    return rv;
}

struct SysOp
{
    std::string name;
    std::function<void(Sys&)> f;
};

std::vector<SysOp> sysops()
{
    std::vector<SysOp> rv;
    auto add = [&](const std::string& n, std::function<void(Sys&)> f)
    {
        rv.push_back(SysOp{ n, f });
    };
    auto attr = [&](const std::string& n, std::function<diffpy::Attributes*(Sys&)> x,
            const std::string& a, Vec vs)
    {
        for (double v : vs)  add(cat(n, ".", a, "=", v),
                [=](Sys& s) { x(s)->setDoubleAttr(a, v); });
    };
    auto pwm0 = [](Sys& s) -> diffpy::Attributes* { return s.pwm[0].get(); };
    auto pwm1 = [](Sys& s) -> diffpy::Attributes* { return s.pwm[1].get(); };
    attr("pwm0", pwm0, "delta1", { 0.3 });
    attr("pwm0", pwm0, "delta2", { 1.5, 0 });
    attr("pwm0", pwm0, "qbroad", { 0.1 });
    attr("pwm0", pwm0, "qbroad_seperable", { 0.1 });
    attr("pwm1", pwm1, "width", { 0.2, 0 });
    attr("pwm1", pwm1, "uisowidth", { 0.005 });
    attr("pwm1", pwm1, "bisowidth", { 0.4 });
    for (int i = 0; i < 2; ++i)
    {
        add(cat("sft", i, ".setCustomAs"), [=](Sys& s)
                { s.sft[i]->setCustomAs("Na1+", "Cl"); });
        add(cat("sft", i, ".setCustomAs-value"), [=](Sys& s)
                { s.sft[i]->setCustomAs("Na1+", "Na", 7.0); });
        add(cat("sft", i, ".resetCustom"), [=](Sys& s)
                { s.sft[i]->resetCustom("Na1+"); });
        add(cat("sft", i, ".resetAll"), [=](Sys& s)
                { s.sft[i]->resetAll(); });
        attr(cat("profile", i), [=](Sys& s) -> diffpy::Attributes*
                { return s.pkf[i].get(); }, "peakprecision", { 1e-3, 1e-5 });
        for (int j = 0; j < 2; ++j)
        {
            add(cat("pdf", i, ".setPeakWidthModel", j), [=](Sys& s)
                    { s.pdf[i]->setPeakWidthModel(s.pwm[j]); });
            add(cat("pdf", i, ".setScatteringFactorTable", j), [=](Sys& s)
                    { s.pdf[i]->setScatteringFactorTable(s.sft[j]); });
            add(cat("pdf", i, ".setPeakProfile", j), [=](Sys& s)
                    { s.pdf[i]->setPeakProfile(s.pkf[j]); });
        }
    }
    for (int j = 0; j < 2; ++j)
    {
        add(cat("debye.setPeakWidthModel", j), [=](Sys& s)
                { s.debye->setPeakWidthModel(s.pwm[j]); });
        add(cat("debye.setScatteringFactorTable", j), [=](Sys& s)
                { s.debye->setScatteringFactorTable(s.sft[j]); });
    }
    add("pdf0.setPeakWidthModelByType", [](Sys& s)
            { s.pdf[0]->setPeakWidthModelByType("debye-waller"); });
    add("pdf0.setScatteringFactorTableByType", [](Sys& s)
            { s.pdf[0]->setScatteringFactorTableByType("electronnumber"); });
    add("pdf0.setPeakProfileByType", [](Sys& s)
            { s.pdf[0]->setPeakProfileByType("croppedgaussian"); });
    add("debye.setPeakWidthModelByType", [](Sys& s)
            { s.debye->setPeakWidthModelByType("debye-waller"); });
    add("debye.setScatteringFactorTableByType", [](Sys& s)
            { s.debye->setScatteringFactorTableByType("electronnumber"); });
    auto pdf0 = [](Sys& s) -> diffpy::Attributes* { return s.pdf[0].get(); };
    auto debye = [](Sys& s) -> diffpy::Attributes* { return s.debye.get(); };
    attr("pdf0", pdf0, "rmin", { 1.0 });
    attr("pdf0", pdf0, "rmax", { 4.0, 5.0 });
    attr("pdf0", pdf0, "rstep", { 0.02 });
    attr("pdf0", pdf0, "maxextension", { 1.0 });
    attr("debye", debye, "rmin", { 1.0 });
    attr("debye", debye, "rmax", { 4.0, 15.0 });
    attr("debye", debye, "rstep", { 0.02 });
    attr("debye", debye, "maxextension", { 1.0 });
    attr("debye", debye, "qmax", { 8.0, 20.0 });
    attr("debye", debye, "qstep", { 0.05 });
    attr("debye", debye, "debyeprecision", { 1e-3 });
    add("debye.setOptimumQstep", [](Sys& s) { s.debye->setOptimumQstep(); });
    auto q = [&](const std::string& n, std::function<PairQuantity*(Sys&)> x,
            bool full)
    {
        add(n + ".setPairMask01", [=](Sys& s)
                { x(s)->setPairMask(0, 1, false); });
        add(n + ".setTypeMask", [=](Sys& s)
                { x(s)->setTypeMask("Na1+", "Cl1-", false); });
        add(n + ".invertMask", [=](Sys& s)  { x(s)->invertMask(); });
        if (!full)  return;
        add(n + ".maskAllPairs", [=](Sys& s)  { x(s)->maskAllPairs(true); });
        add(n + ".unmaskAllPairs", [=](Sys& s)  { x(s)->maskAllPairs(false); });
        add(n + ".setPairMask0all", [=](Sys& s)
                { x(s)->setPairMask(0, -1, false); });
        add(n + ".setPairMask02", [=](Sys& s)
                { x(s)->setPairMask(0, 2, true); });
        add(n + ".setTypeMaskAll", [=](Sys& s)
                { x(s)->setTypeMask("Na1+", "all", true); });
        add(n + ".setRmin", [=](Sys& s)  { x(s)->setRmin(2.9); });
        add(n + ".setRmax", [=](Sys& s)  { x(s)->setRmax(3.5); });
    };
    q("pdf0", [](Sys& s) { return s.pdf[0].get(); }, false);
    q("debye", [](Sys& s) { return s.debye.get(); }, false);
    q("bond", [](Sys& s) { return s.bond.get(); }, true);
    add("bond.filterCone", [](Sys& s)
            { s.bond->filterCone(R3::Vector(1, 0, 0), 30); });
    add("bond.filterCone2", [](Sys& s)
            { s.bond->filterCone(R3::Vector(0, 1, 1), 50); });
    add("bond.filterOff", [](Sys& s) { s.bond->filterOff(); });
    return rv;
}

void setters(Ctx& ctx, int depth)
{
    const auto ps = parts();
    const auto ops = sysops();
    const int n = ops.size();
    for (int first = 0; first < n; ++first)
    for (int second = 0; second < n; ++second)
    ctx.run(cat("C18 setters ", ops[first].name, " ", ops[second].name), [&]()
    {
        int tot = 1;
        for (int i = 2; i < depth; ++i)  tot *= n;
        for (int code = 0; code < tot; ++code)
        {
            std::vector<int> seq = { first, second };
            for (int i = 2, c = code; i < depth; ++i, c /= n)
                seq.push_back(c % n);
            Sys s = newsys();
            std::vector<Vec> v0;
            for (auto& p : ps)  v0.push_back(p.out(s));
            EventTicker now;
            std::string w;
            uint64_t h = 7;
            for (int o : seq)
            {
                w += " " + ops[o].name;
                // collected tickers are up to date at any time.  Sometimes
                // nobody asks for them before the change.
                now.click();
                ops[o].f(s);
                ctx.transition();
                h = 7;
                for (size_t k = 0; k < ps.size(); ++k)
                {
                    Vec v = ps[k].out(s);
                    const EventTicker& t = ps[k].tick(s);
                    if (v != v0[k])
                    {
                        require(t > now, "late", "ticker of ", ps[k].name,
                                " is not advanced by", w);
                        v0[k] = v;
                    }
                    for (double x : v)  h = mix(h, hashdbl(x));
                }
                ctx.state(h);
            }
            EventTicker e;
            e.click();
            for (auto& p : ps)  require(p.tick(s) < e, "future", w);
            ctx.outcome(h);
            ctx.trace();
        }
    });
}

// C2: all sequences of values of one item

struct Item
{
    std::string name;
    std::vector<double> values;
    std::function<void(Sys&, double)> set;
};

std::vector<Item> items()
{
    std::vector<Item> rv;
    auto attr = [&](const std::string& n,
            std::function<diffpy::Attributes*(Sys&)> x, const std::string& a,
            Vec vs)
    {
        rv.push_back(Item{ n + "." + a, vs, [=](Sys& s, double v)
                { x(s)->setDoubleAttr(a, v); } });
    };
    auto pwm0 = [](Sys& s) -> diffpy::Attributes* { return s.pwm[0].get(); };
    auto pwm1 = [](Sys& s) -> diffpy::Attributes* { return s.pwm[1].get(); };
    auto pkf0 = [](Sys& s) -> diffpy::Attributes* { return s.pkf[0].get(); };
    auto pdf0 = [](Sys& s) -> diffpy::Attributes* { return s.pdf[0].get(); };
    auto debye = [](Sys& s) -> diffpy::Attributes* { return s.debye.get(); };
    const Vec anysign = { 0, 0.02, 0.1, 0.1 + 1e-12, 0.3, -0.1, -0.3 };
    attr("pwm0", pwm0, "delta1", anysign);
    attr("pwm0", pwm0, "delta2", anysign);
    attr("pwm0", pwm0, "qbroad", anysign);
    attr("pwm0", pwm0, "qbroad_seperable", anysign);
    const Vec positive = { 0, 0.001, 0.02, 0.1, 0.1 + 1e-12, 0.3 };
    attr("pwm1", pwm1, "width", positive);
    attr("pwm1", pwm1, "uisowidth", positive);
    attr("pwm1", pwm1, "bisowidth", positive);
    attr("profile0", pkf0, "peakprecision", { 1e-3, 1e-5, 2e-3, 1e-9, 0.1 });
    for (int k = 0; k < 2; ++k)
    {
        auto x = k ? debye : pdf0;
        const std::string n = k ? "debye" : "pdf0";
        attr(n, x, "rmin", { 0, 0.5, 1, 2.2 });
        attr(n, x, "rmax", { 4, 4.5, 5, 10, 12 });
        attr(n, x, "rstep", { 0.01, 0.02, 0.015, 0.1 });
        attr(n, x, "maxextension", { 0, 0.5, 1, 3, 12 });
    }
    attr("debye", debye, "qmin", { 0, 1, 2 });
    attr("debye", debye, "qmax", { 8, 12, 20, 25 });
    attr("debye", debye, "qstep", { 0.05, 0.02, 0.1 });
    attr("debye", debye, "debyeprecision", { 0, 1e-6, 1e-3, 1 });
    rv.push_back(Item{ "bond.rmin", { 0, 1.7, 1.8, 2.9 },
            [](Sys& s, double v) { s.bond->setRmin(v); } });
    rv.push_back(Item{ "bond.rmax", { 0, 1.7, 1.8, 2.9, 5 },
            [](Sys& s, double v) { s.bond->setRmax(v); } });
    rv.push_back(Item{ "bond.cone", { -1, 0, 30, 50, 90, 180 },
            [](Sys& s, double v) {
                s.bond->filterOff();
                if (v >= 0)  s.bond->filterCone(R3::Vector(1, 0, 0), v);
            } });
    rv.push_back(Item{ "bond.cones", { 0, 30, 50, 90, 180 },
            [](Sys& s, double v) {
                s.bond->filterCone(R3::Vector(0, 1, 0), v);
            } });
    rv.push_back(Item{ "bond.maskall", { 0, 1 }, [](Sys& s, double v)
            { s.bond->maskAllPairs(v); } });
    for (int i = 0; i < 3; ++i)
    {
        rv.push_back(Item{ cat("bond.mask0", i), { 0, 1 },
                [i](Sys& s, double v) { s.bond->setPairMask(0, i, v); } });
        rv.push_back(Item{ cat("pdf0.typemask", i), { 0, 1 },
                [i](Sys& s, double v) {
                    const char* t[] = { "Na1+", "Cl1-", "O2-" };
                    s.pdf[0]->setTypeMask("Na1+", t[i], v);
                } });
    }
    for (int i = 0; i < 2; ++i)
    {
        rv.push_back(Item{ cat("sft", i, ".value"), { 7, 7.5, 3, 11 },
                [i](Sys& s, double v)
                { s.sft[i]->setCustomAs("Na1+", "Na", v); } });
        rv.push_back(Item{ cat("sft", i, ".source"), { 0, 1, 2, 3 },
                [i](Sys& s, double v)
                {
                    const char* t[] = { "", "Na", "Cl", "K" };
                    if (v == 0)  s.sft[i]->resetCustom("Na1+");
                    else  s.sft[i]->setCustomAs("Na1+", t[int(v)]);
                } });
    }
    return rv;
}

void valuesequences(Ctx& ctx, int depth)
{
    const auto ps = parts();
    for (const Item& it : items())
    {
        const int n = it.values.size();
        int tot = 1;
        for (int i = 0; i < depth; ++i)  tot *= n;
        for (int shared = 0; shared < 2; ++shared)
        ctx.run(cat("C18 values ", it.name, shared ? " shared" : ""), [&]()
        {
            for (int code = 0; code < tot; ++code)
            {
                Sys s = newsys();
                if (shared)  for (int i = 0; i < 2; ++i)
                {
                    // the other components are in use
                    s.pdf[i]->setPeakWidthModel(s.pwm[1 - i]);
                    s.pdf[i]->setScatteringFactorTable(s.sft[1 - i]);
                    s.pdf[i]->setPeakProfile(s.pkf[1 - i]);
                    s.debye->setPeakWidthModel(s.pwm[i]);
                    s.debye->setScatteringFactorTable(s.sft[i]);
                }
                std::vector<Vec> v0;
                for (auto& p : ps)  v0.push_back(p.out(s));
                EventTicker now;
                std::string w = it.name;
                uint64_t h = hashstr(w, shared);
                for (int i = 0, c = code; i < depth; ++i, c /= n)
                {
                    w += cat(" ", it.values[c % n]);
                    now.click();
                    it.set(s, it.values[c % n]);
                    ctx.transition();
                    for (size_t k = 0; k < ps.size(); ++k)
                    {
                        Vec v = ps[k].out(s);
                        const EventTicker& t = ps[k].tick(s);
                        if (v == v0[k])  continue;
                        require(t > now, "late", "ticker of ", ps[k].name,
                                " is not advanced by", w);
                        v0[k] = v;
                        for (double x : v)  h = mix(h, hashdbl(x));
                    }
                }
                ctx.state(h);
                ctx.outcome(h);
                ctx.trace();
            }
        });
    }
}

// D: calculators in other processes -----------------------------------------

void restored(Ctx& ctx, int depth)
{
    for (std::string calc : { "pdf", "debye", "bond" })
    {
        std::vector<SysOp> ops;
        const auto ss = settings(calc);
        std::vector<std::pair<std::string, int> > steps;
        steps.push_back(std::make_pair("eval", 0));
        for (auto& s : ss)  if (s.name != "evaluator")
            steps.push_back(std::make_pair(s.name, 1));
        const int n = steps.size();
        int tot = 1;
        for (int i = 0; i < depth; ++i)  tot *= n;
        for (int extra = 0; extra < 2; ++extra)
        for (int mine = 0; mine < 2; ++mine)
        for (int code = 0; code < tot; ++code)
        ctx.run(cat("C18 restored ", calc, " code=", code, " extra=", extra,
                    " reader=", mine), [&]()
        {
            std::string w = calc;
            Cfg cfg;
            std::vector<std::pair<std::string, int> > seq;
            for (int i = 0, c = code; i < depth; ++i, c /= n)
            {
                seq.push_back(steps[c % n]);
                w += " " + steps[c % n].first;
            }
            auto apply = [&](World& x)
            {
                for (auto& st : seq)
                {
                    if (st.first == "eval")  { x.q->eval(x.a); continue; }
                    for (auto& s : ss)  if (s.name == st.first)
                    {
                        s.set(*x.q, st.second, x.cfg);
                        x.cfg[s.name] = st.second;
                        for (auto& r : s.resets)  x.cfg.erase(r);
                    }
                }
            };
            // write in a process with many events
            std::string ar = isolated([&]()
            {
                EventTicker e;
                for (int i = 0; i < 1000 * extra; ++i)  e.click();
                World x = newworld(calc);
                x.q->setEvaluatorType(OPTIMIZED);
                x.q->eval(x.a);
                apply(x);
                for (int i = 0; i < 1000 * extra; ++i)  e.click();
                return save(x.q);
            });
            std::string r = isolated([&]()
            {
                EventTicker e;
                for (int i = 0; i < 100000 * mine; ++i)  e.click();
                World x = newworld(calc);
                QPtr q;
                load(q, ar);
                e.click();
                require(q->ticker() < e, "restored-late", w);
                // change one atom and evaluate
                Struct b = basestruct(ref::ATOMIC);
                moveatom(b, 1, 0.05);
                SPtr sb = ref::build(b);
                q->eval(sb);
                Outs o = outputs(*q);
                World y = newworld(calc);
                y.q->setEvaluatorType(BASIC);
                apply(y);
                y.q->eval(sb);
                compareouts(o, outputs(*y.q), "result", w);
                return cat(hashouts(o));
            });
            ctx.evaluation(3);
            ctx.transition(depth + 2);
            ctx.state(hashstr(w + cat(extra, mine)));
            ctx.outcome(hashstr(r));
            ctx.trace();
        });
    }
}

}   // namespace

void explore(Ctx& ctx)
{
    const int t = ctx.thorough;
    walks(ctx, 5 + t);
    processes(ctx, 4 + t);
    valuesequences(ctx, 3 + t);
    setters(ctx, 3);
    restored(ctx, 1 + t);
}
