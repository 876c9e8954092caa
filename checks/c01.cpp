// C01: optimized evaluation equals full evaluation after any history.
#include "calcs.hpp"

using namespace mc;
using ref::Struct;

const Info mcinfo = {
    "C01", "model_checking",
    "Every history over the alphabet of structure edits (delivered in place "
        "or as a new object), configuration changes and disturbances "
        "(assignment without evaluation, structures that configure the "
        "calculator, failed evaluation, parallel setup, "
        "merged data, evaluator switch), each followed or not followed by an "
        "evaluation.  After each evaluation the results are compared with a "
        "twin that uses the basic evaluator and, where no deliberate memory of "
        "earlier ranges exists, with a fresh calculator. An outcome is the "
        "list of results of the history, a state is the structure and "
        "configuration reached.",
    "7 calculators x 3 structure kinds: all histories of length <= 2 over the "
        "full alphabet with evaluation after each step, also without the "
        "first evaluation (in crystals over the reduced alphabet only); in "
        "molecules all histories of length 3 over the reduced alphabet with "
        "all or only the last evaluation",
    "7 calculators x 3 structure kinds: all histories of length <= 2 over the "
        "full alphabet, of length 3 over the reduced one and of length 3 over "
        "the full one whose last step is an edit, with every subset of the "
        "intermediate evaluations; in molecules all histories of length 4 over "
        "the reduced alphabet. Explored in this order within the time cap",
    {"results are compared to 1e-8 of the largest value, PDF to 2e-6",
     "results of parallel workers are checked by C02"},
    60
};

namespace {

/// structure that fails in the middle of its pair enumeration
struct Faulty : public AtomicStructureAdapter
{
    static long countdown;
    // configuration applied to calculators
    int meta = 0;
    virtual void customPQConfig(PairQuantity* pq) const
    {
        if (meta == 1)  pq->setRmax(2.9);
        if (meta == 2)
        {
            pq->setRmax(3.6);
            pq->setPairMask(0, 2, false);
        }
    }
    struct Gen : public BaseBondGenerator
    {
        Gen(StructureAdapterConstPtr s) : BaseBondGenerator(s) { }
        virtual bool iterateSymmetry()  { this->tick(); return
            BaseBondGenerator::iterateSymmetry(); }
        virtual void rewindSymmetry()  { this->tick();
            BaseBondGenerator::rewindSymmetry(); }
        void tick()
        {
            if (countdown > 0 && --countdown == 0)
                throw std::runtime_error("injected fault");
        }
    };
    virtual BaseBondGeneratorPtr createBondGenerator() const
    {
        BaseBondGeneratorPtr b(new Gen(this->shared_from_this()));
        return b;
    }
    virtual StructureAdapterPtr clone() const
    {
        return StructureAdapterPtr(new Faulty(*this));
    }
};
long Faulty::countdown = 0;

bool usefaulty = false;
int metamode = 0;

SPtr buildx(const Struct& s)
{
    if (!usefaulty || s.kind != ref::ATOMIC)  return ref::build(s);
    SPtr rv(new Faulty);
    static_cast<Faulty&>(*rv).meta = metamode;
    for (auto& a : s.atoms)  rv->append(ref::latom(s, a));
    return rv;
}

/// components made together with the calculator and used later
struct Prepared
{
    PeakWidthModelPtr pwm;
    PeakProfilePtr profile;
    Prepared()
    {
        pwm = PeakWidthModel::createByType("constant");
        pwm->setDoubleAttr("width", 0.3);
        profile = PeakProfile::createByType("croppedgaussian");
        profile->setPrecision(3e-2);
    }
};
std::map<const PairQuantity*, Prepared> allprepared;

Prepared& prepared(const PairQuantity& q)  { return allprepared[&q]; }

struct CfgOp
{
    std::string name;
    std::function<void(PairQuantity&, int)> set;
    bool fresh;     // final value can be set in a fresh calculator
};

struct Session
{
    std::string calc;
    QPtr A, B;
    SPtr sa, sb;
    Struct cur;
    std::vector<std::pair<const CfgOp*, int> > cfg;
    bool cmpfresh = true;
    bool dirtymask = false;

    void start(const std::string& c, const Struct& s)
    {
        calc = c;
        cur = s;
        A = makecalc(c);
        B = makecalc(c);
        allprepared.clear();
        prepared(*A);
        prepared(*B);
        A->setEvaluatorType(OPTIMIZED);
        B->setEvaluatorType(BASIC);
        sa = buildx(s);
        sb = buildx(s);
    }

    bool eval1(PairQuantity& q, SPtr& s, std::string& err)
    {
        try { q.eval(s); return true; }
        catch (Fail&) { throw; }
        catch (std::exception& e) { err = e.what(); }
        return false;
    }

    uint64_t eval(Ctx& ctx, const char* when)
    {
        std::string ea, eb;
        bool oka = eval1(*A, sa, ea);
        bool okb = eval1(*B, sb, eb);
        ctx.evaluation(2);
        require(oka == okb, "errors", when, " one evaluator fails: ", ea,
                eb);
        if (!oka)  return 17;
        ctx.count(A->getEvaluatorTypeUsed() == OPTIMIZED ?
                "fast updates" : "complete updates");
        Outs oa = outputs(*A);
        Outs ob = outputs(*B);
        compareouts(oa, ob, "optimized-differs",
                cat(calc, " ", when, " optimized result"));
        if (cmpfresh)
        {
            QPtr F = makecalc(calc);
            F->setEvaluatorType(BASIC);
            for (auto& c : cfg)  c.first->set(*F, c.second);
            SPtr sf = buildx(cur);
            F->eval(sf);
            ctx.evaluation();
            compareouts(oa, outputs(*F), "fresh-differs",
                cat(calc, " ", when, " result differs from a new calculator,"));
            ctx.trace();
        }
        ctx.trace();
        return hashouts(oa);
    }

    void setcfg(const CfgOp* op)
    {
        int level = 1;
        for (auto ii = cfg.begin(); ii != cfg.end(); ++ii)
        {
            if (ii->first == op) { level = 1 - ii->second; cfg.erase(ii); break; }
        }
        cfg.push_back(std::make_pair(op, level));
        op->set(*A, level);
        op->set(*B, level);
        if (!op->fresh)  cmpfresh = false;
    }
};

typedef std::function<void(Session&, Ctx&)> Action;
struct Op
{
    std::string name;
    Action act;
    bool core;      // member of the reduced alphabet
    bool isedit;
};

template <class T> T& as(PairQuantity& q)  { return dynamic_cast<T&>(q); }

std::vector<CfgOp> cfgops(const std::string& calc, ref::Kind kind)
{
    std::vector<CfgOp> rv;
    auto add = [&](const std::string& n,
            std::function<void(PairQuantity&, int)> f, bool fresh=true)
    {
        CfgOp c = { n, f, fresh };
        rv.push_back(c);
    };
    add("rmx", [](PairQuantity& q, int k) { q.setRmax(k ? 3.2 : 4.0); });
    add("rmn", [](PairQuantity& q, int k) { q.setRmin(k ? 1.68 : 0.0); });
    add("pm", [](PairQuantity& q, int k) { q.setPairMask(0, 1, !k); }, false);
    add("pmall", [](PairQuantity& q, int k) { q.setPairMask(1, -1, !k); }, false);
    add("tm", [](PairQuantity& q, int k) {
            q.setTypeMask("Na1+", "Cl1-", !k); }, false);
    add("tmall", [](PairQuantity& q, int k) {
            q.setTypeMask("O2-", "all", !k); }, false);
    add("inv", [](PairQuantity& q, int k) { q.invertMask(); }, false);
    add("mall", [](PairQuantity& q, int k) { q.maskAllPairs(true); }, false);
    bool pdf = calc == "pdf", debye = calc == "debye";
    if (pdf || debye)
    {
        auto attr = [&](const std::string& n, const std::string& a, double v0,
                double v1)
        {
            add(n, [a, v0, v1](PairQuantity& q, int k) {
                    // delta1 and qbroad exist in one peak width model only
                    if (!q.hasDoubleAttr(a))  return;
                    q.setDoubleAttr(a, k ? v1 : v0); });
        };
        attr("d1", "delta1", 0, 0.3);
        attr("qb", "qbroad", 0, 0.05);
        attr("sc", "scale", 1, 2);
        attr("qd", "qdamp", 0, 0.05);
        attr("qmn", "qmin", 0, 1.5);
        attr("me", "maxextension", 2.0, 0.5);
        attr("rst", "rstep", 0.08, 0.06);
        add("pwt", [](PairQuantity& q, int k) {
                as<PeakWidthModelOwner>(q).setPeakWidthModel(
                    k ? prepared(q).pwm : PeakWidthModel::createByType(
                        "jeong")); });
        add("sf", [](PairQuantity& q, int k) {
                auto t = as<ScatteringFactorTableOwner>(q)
                    .getScatteringFactorTable();
                if (k)  t->setCustomAs("Na1+", "K1+");
                else  t->resetCustom("Na1+"); });
        add("sft", [](PairQuantity& q, int k) {
                as<ScatteringFactorTableOwner>(q)
                    .setScatteringFactorTableByType(k ? "electronnumber" :
                        "xray"); });
    }
    if (pdf)
    {
        add("qmx", [](PairQuantity& q, int k) {
                q.setDoubleAttr("qmax", k ? 15 : 0); });
        add("pp", [](PairQuantity& q, int k) {
                PeakProfilePtr p = prepared(q).profile;
                if (!k)
                {
                    p = PeakProfile::createByType("gaussian");
                    p->setPrecision(1e-9);
                }
                as<PDFCalculator>(q).setPeakProfile(p); });
        add("pr", [](PairQuantity& q, int k) {
                as<PDFCalculator>(q).getPeakProfile()->setPrecision(
                    k ? 1e-2 : 1e-9); });
        add("bl", [](PairQuantity& q, int k) {
                as<PDFCalculator>(q).setBaselineByType(
                    k ? "zero" : "linear"); });
    }
    if (debye)
    {
        add("qmx", [](PairQuantity& q, int k) {
                q.setDoubleAttr("qmax", k ? 7 : 10); });
        add("qst", [](PairQuantity& q, int k) {
                if (k)  q.setDoubleAttr("qstep", 0.13);
                else  as<DebyePDFCalculator>(q).setOptimumQstep(); });
        add("dp", [kind](PairQuantity& q, int k) {
                // contributions are cut after multiplication by multiplicity
                // of the first site, which is different in fast updates
                const double p = (kind == ref::CRYSTAL) ? 1e-3 : 20.0;
                q.setDoubleAttr("debyeprecision", k ? p : 1e-13); });
    }
    if (calc == "bond")
    {
        add("fc", [](PairQuantity& q, int k) {
                if (k)  as<BondCalculator>(q).filterCone(
                    R3::Vector(1, 0.2, 0.1), 70);
                else  as<BondCalculator>(q).filterOff(); });
    }
    return rv;
}

std::set<std::string> corenames()
{
    return { "i:mvL", "n:mvF", "i:occ", "n:ty", "n:add", "i:delF", "n:spec",
        "i:lat", "n:kind", "n:swp", "c:rmx", "c:d1", "c:qst", "c:tm",
        "c:rmn", "c:pm",
        "x:setadd", "x:meta1", "x:fault2", "x:bad", "x:par", "x:merge", "x:mergein",
        "x:sw0" };
}

std::vector<Op> alphabet(const std::string& calc, ref::Kind kind,
        const std::vector<CfgOp>& cfgs)
{
    std::vector<Op> rv;
    static std::set<std::string> core = corenames();
    auto add = [&](const std::string& n, Action a, bool isedit=false)
    {
        Op o = { n, a, core.count(n) > 0, isedit };
        rv.push_back(o);
    };
    for (const Edit& e : edits(kind))
    {
        add("n:" + e.name, [e](Session& s, Ctx&)
        {
            e.apply(s.cur);
            s.sa = buildx(s.cur);
            s.sb = buildx(s.cur);
        }, true);
        if (!e.samekind)  continue;
        add("i:" + e.name, [e](Session& s, Ctx&)
        {
            Struct old = s.cur;
            e.apply(s.cur);
            syncinplace(s.sa, s.cur, old);
            syncinplace(s.sb, s.cur, old);
        }, true);
    }
    for (const CfgOp& c : cfgs)
    {
        const CfgOp* pc = &c;
        add("c:" + c.name, [pc](Session& s, Ctx&) { s.setcfg(pc); });
    }
    for (auto& e : edits(kind))
    {
        if (e.name != "add" && e.name != "mvL" && e.name != "delF" &&
                e.name != "kind")  continue;
        add("x:set" + e.name, [e](Session& s, Ctx&)
        {
            Struct t = s.cur;
            e.apply(t);
            s.A->setStructure(StructureAdapterPtr(buildx(t)));
            s.B->setStructure(StructureAdapterPtr(buildx(t)));
        });
    }
    add("x:setcur", [](Session& s, Ctx&)
    {
        s.A->setStructure(StructureAdapterPtr(s.sa));
        s.B->setStructure(StructureAdapterPtr(s.sb));
    });
    if (kind == ref::ATOMIC)
    {
        // structures that configure calculators
        for (int k : {1, 2})
        {
            add(cat("x:meta", k), [k](Session& s, Ctx& ctx)
            {
                if (!usefaulty)  return;
                metamode = (metamode == k) ? 0 : k;
                s.cmpfresh = false;
                s.sa = buildx(s.cur);
                s.sb = buildx(s.cur);
            });
        }
        // failure at several points of an evaluation of an edited structure
        for (int k : {1, 2, 5, 12})
        {
            add(cat("x:fault", k), [k](Session& s, Ctx& ctx)
            {
                if (!usefaulty)  return;
                Struct t = s.cur;
                if (t.atoms.size())  moveatom(t, t.atoms.size() - 1, 0.4);
                for (QPtr q : {s.A, s.B})
                {
                    SPtr st = buildx(t);
                    // configuration after a failure depends on its place
                    static_cast<Faulty&>(*st).meta = 0;
                    Faulty::countdown = k;
                    bool thrown = false;
                    try { q->eval(st); }
                    catch (std::exception&) { thrown = true; }
                    Faulty::countdown = 0;
                    ctx.count(thrown ? "injected faults" : "faults not reached");
                }
            });
        }
    }
    if (calc == "pdf" || calc == "debye")
    {
        add("x:bad", [](Session& s, Ctx&)
        {
            Struct t = s.cur;
            if (t.atoms.empty())  return;
            t.atoms.back().type = "Xx9";
            for (QPtr q : {s.A, s.B})
            {
                try
                {
                    q->eval(buildx(t));
                    throw Fail("noerror", "no error for unknown atom type");
                }
                catch (std::exception&) { }
            }
        });
        add("x:badin", [](Session& s, Ctx&)
        {
            if (s.cur.atoms.empty())  return;
            for (int k : {0, 1})
            {
                SPtr st = k ? s.sb : s.sa;
                QPtr q = k ? s.B : s.A;
                std::string tp = st->at(0).atomtype;
                st->at(0).atomtype = "Xx9";
                try
                {
                    q->eval(st);
                    throw Fail("noerror", "no error for unknown atom type");
                }
                catch (std::exception&) { }
                st->at(0).atomtype = tp;
            }
        });
    }
    add("x:par", [](Session& s, Ctx&)
    {
        for (int k : {0, 1})
        {
            QPtr q = k ? s.B : s.A;
            q->setupParallelRun(1, 3);
            try { q->eval(k ? s.sb : s.sa); }
            catch (Fail&) { throw; }
            catch (std::exception&) { }
            q->setupParallelRun(0, 1);
        }
    });
    add("x:par0", [](Session& s, Ctx&)
    {
        for (QPtr q : {s.A, s.B})
        {
            q->setupParallelRun(0, 2);
            q->setupParallelRun(0, 1);
        }
    });
    add("x:merge", [](Session& s, Ctx& ctx)
    {
        // data of two workers with the same configuration
        QPtr master[2] = { s.A, s.B };
        Outs res[2];
        for (int m : {0, 1})
        {
            std::vector<std::string> pdata;
            try
            {
                for (int k : {0, 1})
                {
                    QPtr w = makecalc(s.calc);
                    w->setEvaluatorType(BASIC);
                    if (s.calc == "debye")
                        as<BaseDebyeSum>(*w).setQmax(master[m]->getDoubleAttr("qmax"));
                    for (auto& c : s.cfg)  c.first->set(*w, c.second);
                    w->setupParallelRun(k, 2);
                    w->eval(buildx(s.cur));
                    pdata.push_back(w->getParallelData());
                }
                master[m]->setStructure(StructureAdapterPtr(m ? s.sb : s.sa));
                for (auto& p : pdata)  master[m]->mergeParallelData(p, 2);
            }
            catch (Fail&) { throw; }
            // different history of ranges, data cannot be merged
            catch (std::exception&) { ctx.count("merge refused"); continue; }
            ctx.count("merges");
            res[m] = outputs(*master[m]);
        }
        if (res[0].size() && res[1].size())
        {
            compareouts(res[0], res[1], "merge-differs", "merged result");
        }
    });
    // results of other processes are added to those of finished evaluation
    for (int n : {1, 3})
        add(n == 1 ? "x:mergein" : "x:mergepart", [n](Session& s, Ctx& ctx)
    {
        for (QPtr q : {s.A, s.B})
        {
            try
            {
                q->mergeParallelData(q->getParallelData(), n);
                ctx.count("merges into evaluated");
            }
            catch (Fail&) { throw; }
            catch (std::exception&) { ctx.count("merge refused"); }
        }
    });
    add("x:sw0", [](Session& s, Ctx&)
    {
        // the switch resets value, which fails for a bad structure
        for (PQEvaluatorType tp : {BASIC, OPTIMIZED})
        {
            try { s.A->setEvaluatorType(tp); }
            catch (std::invalid_argument&) { }
        }
    });
    add("x:sw1", [](Session& s, Ctx&)
    {
        try
        {
            s.A->setEvaluatorType(BASIC);
            s.A->eval(s.sa);
        }
        catch (Fail&) { throw; }
        catch (std::exception&) { }
        try { s.A->setEvaluatorType(OPTIMIZED); }
        catch (std::invalid_argument&) { }
    });
    add("x:chk", [](Session& s, Ctx&)
    {
        // the CHECK evaluator must not find any difference
        std::string err;
        try
        {
            s.A->setEvaluatorType(CHECK);
            s.A->eval(s.sa);
        }
        catch (Fail&) { throw; }
        catch (std::invalid_argument&) { }
        catch (std::logic_error& e) { err = e.what(); }
        catch (std::exception& e) { }
        require(err.empty(), "check-evaluator", "CHECK evaluator fails: ", err);
        try { s.A->setEvaluatorType(OPTIMIZED); }
        catch (std::invalid_argument&) { }
    });
    add("x:self", [](Session& s, Ctx&)
    {
        // evaluate whatever structure is assigned
        for (QPtr q : {s.A, s.B})
        {
            try { q->eval(); }
            catch (Fail&) { throw; }
            catch (std::exception&) { }
        }
    });
    return rv;
}

void runhistory(Ctx& ctx, const std::string& calc, ref::Kind kind,
        const std::vector<const Op*>& ops, unsigned noeval)
{
    Session s;
    s.cmpfresh = calc != "debye";
    s.start(calc, basestruct(kind));
    uint64_t h = s.eval(ctx, "initial");
    uint64_t hs = hashstr(calc);
    for (size_t i = 0; i < ops.size(); ++i)
    {
        ops[i]->act(s, ctx);
        ctx.transition();
        // structure and configuration reached
        hs = mix(hashstr(calc), kind);
        for (auto& a : s.cur.atoms)
            hs = mix(mix(hs, hashstr(a.type)),
                    mix(hashdbl(a.xyz[0] + 2 * a.xyz[1]), hashdbl(a.occ)));
        for (auto& c : s.cfg)
            hs = mix(hs, c.second + 2 * hashstr(c.first->name));
        ctx.state(hs);
        if (noeval & (1 << i))  continue;
        h = mix(h, s.eval(ctx, cat("after step ", i + 1).c_str()));
    }
    ctx.outcome(h);
}

}   // namespace

void explore(Ctx& ctx)
{
    const char* kinds[3] = { "mol", "per", "cry" };
    const char* calcs[7] = { "probe", "probefull", "probefix", "probefullfix",
        "bond", "pdf", "debye" };
    for (int ic = 0; ic < 7; ++ic)
    {
        for (int k = 0; k < 3; ++k)
        {
            std::string calc = calcs[ic];
            ref::Kind kind = ref::Kind(k);
            std::vector<CfgOp> cfgs = cfgops(calc, kind);
            std::vector<Op> ops = alphabet(calc, kind, cfgs);
            std::vector<const Op*> full, core;
            for (auto& o : ops)
            {
                full.push_back(&o);
                if (o.core)  core.push_back(&o);
            }
            auto go = [&](const std::vector<const Op*>& seq, unsigned ne)
            {
                std::string desc = cat("C01 ", calc, " ", kinds[k]);
                for (size_t i = 0; i < seq.size(); ++i)
                    desc += " " + seq[i]->name + ((ne & (1 << i)) ? "-" : "");
                ctx.run(desc, [&]() {
                    usefaulty = true;
                    metamode = 0;
                    runhistory(ctx, calc, kind, seq, ne); });
            };
            for (auto a : full)  go({a}, 0);
            for (auto a : full)
                for (auto b : full)
                    for (unsigned ne = 0; ne < 2; ++ne)
                    {
                        // the slow kind of structures
                        if (ne && k == 2 && !ctx.thorough &&
                                !(a->core && b->core))  continue;
                        go({a, b}, ne);
                    }
            if (k == 0 || ctx.thorough)
                for (auto a : core)
                    for (auto b : core)
                        for (auto c : core)
                            for (unsigned ne : {0, 3})  go({a, b, c}, ne);
        }
    }
    // deeper layers come last, so that the time cap cuts the deepest one
    if (!ctx.thorough)  return;
    for (int layer = 0; layer < 2; ++layer)
        for (int k = 0; k < (layer ? 1 : 3); ++k)
            for (int ic = 0; ic < 7; ++ic)
            {
                std::string calc = calcs[ic];
                ref::Kind kind = ref::Kind(k);
                std::vector<CfgOp> cfgs = cfgops(calc, kind);
                std::vector<Op> ops = alphabet(calc, kind, cfgs);
                std::vector<const Op*> full, core;
                for (auto& o : ops)
                {
                    full.push_back(&o);
                    if (o.core)  core.push_back(&o);
                }
                auto go = [&](const std::vector<const Op*>& seq, unsigned ne)
                {
                    std::string desc = cat("C01 ", calc, " ", kinds[k]);
                    for (size_t i = 0; i < seq.size(); ++i)
                        desc += " " + seq[i]->name +
                            ((ne & (1 << i)) ? "-" : "");
                    ctx.run(desc, [&]() {
                        usefaulty = true;
                    metamode = 0;
                        runhistory(ctx, calc, kind, seq, ne); });
                };
                for (auto a : layer ? core : full)
                    for (auto b : layer ? core : full)
                        for (auto c : layer ? core : full)
                        {
                            if (!layer && !c->isedit)  continue;
                            if (!layer)
                                for (unsigned ne = 0; ne < 4; ++ne)
                                    go({a, b, c}, ne);
                            else for (auto d : core)
                                for (unsigned ne = 0; ne < 8; ++ne)
                                    go({a, b, c, d}, ne);
                        }
            }
}
