// C02: work split over any number of processes merges to the serial result.
#include "settings.hpp"
#include <sstream>
#include <diffpy/serialization.hpp>

using namespace mc;
using ref::Struct;

const Info mcinfo = {
    "C02", "model_checking",
    "Every combination of calculator, worker and master evaluator, structure, "
        "number of workers and order of merging.  Reused worker sets go "
        "through every sequence of structure edits and changes of the number "
        "of workers up to the depth bound, their data are merged after every "
        "step.  One calculator also goes through all shares.  Workers are given their share of the work, evaluator "
        "types and masks in every order of the calls, and again between "
        "structures.  The merged result is compared with a serial evaluation in a "
        "new calculator. An outcome is the list of merged results.",
    "7 calculators, 22 structures, 1-9 workers (all merge orders up to 4 "
        "workers, rotations and reversal above), reuse over all sequences of "
        "2 steps with 3 worker counts each, 36 orders of the configuration "
        "calls times 17 reconfigurations of up to 2 calls; merging continued "
        "by a copied or restored calculator after every number of merges",
    "as quick with all merge orders up to 5 workers and reuse over all "
        "sequences of 3 steps",
    {"every worker is a calculator object in the same process, data are "
        "passed as the strings of getParallelData",
     "reused workers of one set evaluate the same sequence of structures",
     "results are compared to 1e-8 of the largest value, PDF to 2e-6"},
    60
};

namespace {

const char* evname(PQEvaluatorType t)
{
    return t == BASIC ? "basic" : t == OPTIMIZED ? "optimized" : "check";
}

void setmask(PairQuantity& q, int mask)
{
    if (mask == 1)
    {
        q.setPairMask(0, 1, false);
        q.setPairMask(1, -1, false);
    }
    if (mask == 2)  q.setTypeMask("Na1+", "all", false);
}

bool seteval(PairQuantity& q, PQEvaluatorType t)
{
    try { q.setEvaluatorType(t); }
    catch (std::invalid_argument&) { return false; }
    return true;
}

/// merge in one or more orders, the master is reused for all of them
void mergeall(Ctx& ctx, const QPtr& master, const Struct& s,
        const std::vector<std::string>& pdata,
        const std::vector<std::vector<int> >& orders, const Outs& expect,
        const std::string& what)
{
    int ncpu = pdata.size();
    for (auto& od : orders)
    {
        master->setStructure(StructureAdapterPtr(ref::build(s)));
        for (int k : od)
        {
            master->mergeParallelData(pdata[k], ncpu);
            ctx.transition();
        }
        bool refused = false;
        try { master->mergeParallelData(pdata[0], ncpu); }
        catch (std::runtime_error&) { refused = true; }
        require(refused, "overmerge", "merge of data beyond ", ncpu,
                " workers is accepted");
        std::string o;
        for (int k : od)  o += cat(k, ",");
        compareouts(outputs(*master), expect, "merged-differs",
                cat(what, " merged in order ", o));
        ctx.trace();
    }
}

std::vector<std::vector<int> > orders(int n, int nfull)
{
    std::vector<std::vector<int> > rv;
    std::vector<int> p(n);
    for (int i = 0; i < n; ++i)  p[i] = i;
    if (n <= nfull)
    {
        do  rv.push_back(p);
        while (std::next_permutation(p.begin(), p.end()));
        return rv;
    }
    rv.push_back(p);
    for (int i = 1; i < n; i += n / 3)
    {
        std::vector<int> q = p;
        std::rotate(q.begin(), q.begin() + i, q.end());
        rv.push_back(q);
    }
    std::reverse(p.begin(), p.end());
    rv.push_back(p);
    return rv;
}

Outs serial(const std::string& calc, const Struct& s, int mask)
{
    QPtr q = makecalc(calc);
    q->setEvaluatorType(BASIC);
    setmask(*q, mask);
    q->eval(ref::build(s));
    return outputs(*q);
}

}   // namespace

void explore(Ctx& ctx)
{
    const char* calcs[] = { "pair", "bond", "pdf", "debye", "overlap", "bvs",
        "probefullfix" };
    std::vector<ref::Named> stru = ref::catalogue();
    const char* kinds[3] = { "mol", "per", "cry" };
    for (int k = 0; k < 3; ++k)
    {
        ref::Named x = { kinds[k], basestruct(ref::Kind(k)) };
        stru.push_back(x);
    }
    const PQEvaluatorType evs[3] = { BASIC, OPTIMIZED, CHECK };
    for (std::string calc : calcs)
    for (auto& ns : stru)
    for (int mask = 0; mask < 3; ++mask)
    for (int ew = 0; ew < 2; ++ew)
    for (int em = 0; em < 3; ++em)
    for (int ncpu : {1, 2, 3, 4, 5, 9})
    {
        if (mask && (ncpu == 4 || ncpu == 9))  continue;
        bool noopt = calc == "pair" ? false : calc == "overlap" || calc == "bvs";
        if (noopt && (ew || em))  continue;
        int nfull = ctx.thorough ? 5 : 4;
        ctx.run(cat("C02 ", calc, " ", ns.name, " mask", mask, " ",
            evname(evs[ew]), " ", evname(evs[em]), " n=", ncpu), [&]()
        {
            const Struct& s = ns.s;
            if (mask == 1 && s.atoms.size() < 2)  return;
            std::vector<std::string> pdata;
            for (int c = 0; c < ncpu; ++c)
            {
                QPtr w = makecalc(calc);
                if (!seteval(*w, evs[ew]))  return;
                setmask(*w, mask);
                w->setupParallelRun(c, ncpu);
                w->eval(ref::build(s));
                ctx.evaluation();
                pdata.push_back(w->getParallelData());
            }
            QPtr master = makecalc(calc);
            if (!seteval(*master, evs[em]))  return;
            setmask(*master, mask);
            Outs expect = serial(calc, s, mask);
            mergeall(ctx, master, s, pdata, orders(ncpu, nfull), expect,
                cat(calc, " ", ncpu, " workers"));
            uint64_t h = hashouts(expect, hashstr(calc));
            ctx.outcome(h);
            ctx.state(mix(h, ncpu));
        });
    }
    // one calculator goes through the shares of several workers
    for (std::string calc : calcs)
    for (int k = 0; k < 3; ++k)
    for (int ew = 0; ew < 2; ++ew)
    for (int ncpu : {1, 2, 3, 4})
    {
        if ((calc == "overlap" || calc == "bvs" || calc == "pair") && ew)
            continue;
        std::vector<Edit> eds = edits(ref::Kind(k));
        int no = orders(ncpu, 3).size();
        for (auto& ed : eds)
        for (int o = 0; o < no; ++o)
        for (int mid = 0; mid < 4; ++mid)
        ctx.run(cat("C02 single ", calc, " ", kinds[k], " ", evname(evs[ew]),
            " ", ed.name, " order ", o, " mid ", mid, " n=", ncpu), [&]()
        {
            std::vector<int> od = orders(ncpu, 3)[o];
            QPtr w = makecalc(calc), master = makecalc(calc);
            w->setEvaluatorType(evs[ew]);
            Struct cur = basestruct(ref::Kind(k));
            QPtr follow = makecalc(calc);
            follow->setEvaluatorType(BASIC);
            uint64_t h = hashstr(calc);
            StructureAdapterPtr s;
            for (int i = 0; i < 3; ++i)
            {
                if (i == 1)  ed.apply(cur);
                std::vector<std::string> pdata(ncpu);
                s = ref::build(cur);
                for (int c : od)
                {
                    w->setupParallelRun(c, ncpu);
                    // new equal structure, the same structure or only value
                    if (mid == 1)  s = ref::build(cur);
                    if (mid < 3 || c == od[0])  w->eval(s);
                    else  w->eval();
                    ctx.evaluation();
                    pdata[c] = w->getParallelData();
                    if (mid == 2)
                    {
                        w->setupParallelRun(0, 1);
                        w->eval(s);
                    }
                }
                Outs expect = serial(calc, cur, 0);
                if (calc == "debye")
                {
                    // the r-range depends on earlier structures
                    follow->eval(ref::build(cur));
                    expect = outputs(*follow);
                }
                mergeall(ctx, master, cur, pdata, orders(ncpu, 2), expect,
                    cat(calc, " single worker step ", i));
                h = hashouts(expect, h);
            }
            ctx.state(mix(h, ncpu));
            ctx.outcome(h);
        });
    }
    // merging continued by a copy or by a saved and restored calculator
    for (std::string calc : calcs)
    for (int k = 0; k < 3; ++k)
    for (int ew = 0; ew < 2; ++ew)
    for (int ncpu : {1, 2, 3})
    for (int split = 0; split <= ncpu; ++split)
    for (int saved = 0; saved < 2; ++saved)
    {
        const bool noopt = (calc == "pair" || calc == "overlap" ||
                calc == "bvs");
        if (ew && noopt)  continue;
        if (saved && (calc == "probefullfix" || calc == "pair"))  continue;
        ctx.run(cat("C02 handover ", calc, " ", kinds[k], " ", evname(evs[ew]),
            " n=", ncpu, " after ", split, saved ? " saved" : " copied"), [&]()
        {
            const Struct s = basestruct(ref::Kind(k));
            std::vector<std::string> pdata;
            for (int c = 0; c < ncpu; ++c)
            {
                QPtr w = makecalc(calc);
                w->setupParallelRun(c, ncpu);
                w->eval(ref::build(s));
                ctx.evaluation();
                pdata.push_back(w->getParallelData());
            }
            QPtr master[2];
            master[0] = makecalc(calc);
            master[0]->setEvaluatorType(evs[ew]);
            master[0]->setStructure(StructureAdapterPtr(ref::build(s)));
            for (int c = 0; c < split; ++c)
                master[0]->mergeParallelData(pdata[c], ncpu);
            if (saved)
            {
                std::stringstream ss(std::ios::in | std::ios::out |
                        std::ios::binary);
                {
                    diffpy::serialization::oarchive oa(ss, std::ios::binary);
                    oa << master[0];
                }
                diffpy::serialization::iarchive ia(ss, std::ios::binary);
                ia >> master[1];
            }
            else  master[1] = copycalc(*master[0]);
            const Outs expect = serial(calc, s, 0);
            // finish the new one first, it must not affect the original
            for (int i = 1; i >= 0; --i)
            {
                for (int c = split; c < ncpu; ++c)
                    master[i]->mergeParallelData(pdata[c], ncpu);
                ctx.transition(ncpu);
                bool refused = false;
                try { master[i]->mergeParallelData(pdata[0], ncpu); }
                catch (std::runtime_error&) { refused = true; }
                require(refused, "overmerge", i ? "new" : "original",
                        " calculator accepts data beyond ", ncpu, " workers");
                compareouts(outputs(*master[i]), expect, "handover",
                        i ? "new calculator" : "original calculator");
            }
            ctx.trace();
            uint64_t h = hashouts(expect, hashstr(calc));
            ctx.outcome(h);
            ctx.state(mix(mix(h, ncpu), split));
        });
    }
    // workers configured in any order and reconfigured between structures
    for (std::string calc : calcs)
    for (int k = 0; k < 3; ++k)
    {
        bool noopt = calc == "pair" || calc == "overlap" || calc == "bvs";
        std::vector<Edit> all = edits(ref::Kind(k));
        std::vector<Edit> eds;
        for (auto& e : all)
            if (e.name == "add" || e.name == "mvL" || e.name == "delF")
                eds.push_back(e);
        // P share of the work, B O evaluator types, M pair mask
        std::vector<std::string> first;
        for (std::string set : {"BMOP", "BMP", "MOP", "BOP", "P"})
        {
            std::sort(set.begin(), set.end());
            do  first.push_back(set);
            while (std::next_permutation(set.begin(), set.end()));
        }
        std::vector<std::string> then = { "" };
        for (char a : std::string("PBOM"))
        {
            then.push_back(std::string(1, a));
            for (char b : std::string("PBOM"))
                if (a != b)  then.push_back(std::string(1, a) + b);
        }
        if (ctx.thorough)
        {
            for (char a : std::string("PBOM"))
            for (char b : std::string("PBOM"))
            for (char c : std::string("PBOM"))
            {
                then.push_back(std::string(1, a) + b + c);
            }
        }
        for (auto& pre : first)
        for (auto& post : then)
        for (int ncpu : {2, 3})
        {
            if (noopt && (pre + post).find('O') != std::string::npos)  continue;
            if (!ctx.thorough && ncpu == 3 && !post.empty())  continue;
            for (size_t e = 0; e < (post.empty() ? 1 : eds.size()); ++e)
            {
                if (!ctx.thorough && !post.empty() && e != post.size() - 1)
                    continue;
                ctx.run(cat("C02 order ", calc, " ", kinds[k], " ", pre, "+",
                    post, " ", eds[e].name, " n=", ncpu), [&]()
                {
                    Struct cur = basestruct(ref::Kind(k));
                    std::vector<QPtr> w;
                    for (int c = 0; c < ncpu; ++c)
                    {
                        w.push_back(makecalc(calc));
                    }
                    QPtr master = makecalc(calc);
                    int mask = 0;
                    uint64_t h = hashstr(calc + pre + post);
                    QPtr follow = makecalc(calc);
                    follow->setEvaluatorType(BASIC);
                    for (int i = 0; i < 3; ++i)
                    {
                        const std::string& acts = i == 0 ? pre :
                            i == 1 ? post : std::string();
                        if (i)  eds[(e + i - 1) % eds.size()].apply(cur);
                        int masknow = mask;
                        std::vector<std::string> pdata;
                        for (int c = 0; c < ncpu; ++c)
                        {
                            masknow = mask;
                            for (char a : acts)
                            {
                                if (a == 'P')  w[c]->setupParallelRun(c, ncpu);
                                if (a == 'B')  w[c]->setEvaluatorType(BASIC);
                                if (a == 'O')
                                    w[c]->setEvaluatorType(OPTIMIZED);
                                if (a != 'M')  continue;
                                masknow = !masknow;
                                if (masknow)  setmask(*w[c], 1);
                                else  w[c]->maskAllPairs(true);
                            }
                            w[c]->eval(ref::build(cur));
                            ctx.evaluation();
                            pdata.push_back(w[c]->getParallelData());
                        }
                        mask = masknow;
                        if (mask)
                        {
                            setmask(*master, 1);
                            setmask(*follow, 1);
                        }
                        else
                        {
                            master->maskAllPairs(true);
                            follow->maskAllPairs(true);
                        }
                        // the r-range of debye depends on earlier structures
                        Outs expect = serial(calc, cur, mask);
                        if (calc == "debye")
                        {
                            follow->eval(ref::build(cur));
                            expect = outputs(*follow);
                        }
                        mergeall(ctx, master, cur, pdata, orders(ncpu, 2),
                            expect, cat(calc, " ", pre, "+", post, " step ",
                                i));
                        h = hashouts(expect, h);
                        ctx.state(mix(h, ncpu));
                    }
                    ctx.outcome(h);
                });
            }
        }
    }
    // worker sets used for several structures in a row
    for (std::string calc : calcs)
    for (int k = 0; k < 3; ++k)
    {
        std::vector<Edit> eds = edits(ref::Kind(k));
        if (calc == "overlap" || calc == "bvs")
        {
            // there is only full evaluation
            std::vector<Edit> few;
            for (auto& e : eds)
                if (e.name == "add" || e.name == "mvL" || e.name == "clr" ||
                        e.name == "delF" || e.name == "kind")  few.push_back(e);
            eds = few;
        }
        const int ncpus[3] = { 1, 2, 3 };
        int depth = ctx.thorough ? 3 : 2;
        for (int ncpu0 : {2, 3})
        for (int mask = 0; mask < 2; ++mask)
        for (int len = 1; len <= depth; ++len)
        {
            long total = 1;
            for (int i = 0; i < len; ++i)  total *= 3 * eds.size();
            for (long code = 0; code < total; ++code)
            {
                std::vector<std::pair<int, int> > seq;
                std::string desc = cat("C02 reuse ", calc, " ", kinds[k],
                        " mask", mask, " n=", ncpu0);
                long c = code;
                bool samecpu = true;
                for (int i = 0; i < len; ++i, c /= 3 * eds.size())
                {
                    int e = c % eds.size(), n = (c / eds.size()) % 3;
                    seq.push_back(std::make_pair(e, ncpus[n]));
                    desc += cat(" ", eds[e].name, "/", ncpus[n]);
                    samecpu = samecpu && ncpus[n] == ncpu0;
                }
                // in quick runs of two steps change the worker count at most
                // once
                if (len == 2 && !ctx.thorough && seq[0].second != ncpu0 &&
                        seq[1].second != ncpu0)  continue;
                if (len == 2 && !ctx.thorough && mask && !samecpu)  continue;
                if (len == 3 && !samecpu)  continue;
                ctx.run(desc, [&]()
                {
                    std::vector<QPtr> w(4);
                    std::vector<int> lastused(4, -2);
                    QPtr master = makecalc(calc);
                    seteval(*master, OPTIMIZED);
                    setmask(*master, mask);
                    Struct cur = basestruct(ref::Kind(k));
                    uint64_t h = hashstr(calc);
                    for (int i = -1; i < len; ++i)
                    {
                        int ncpu = (i < 0) ? ncpu0 : seq[i].second;
                        if (i >= 0)  eds[seq[i].first].apply(cur);
                        std::vector<std::string> pdata;
                        for (int c = 0; c < ncpu; ++c)
                        {
                            // incremental shares are defined for workers
                            // that follow the same structures
                            if (lastused[c] != i - 1 || !w[c])
                            {
                                w[c] = makecalc(calc);
                                seteval(*w[c], OPTIMIZED);
                                setmask(*w[c], mask);
                            }
                            lastused[c] = i;
                            w[c]->setupParallelRun(c, ncpu);
                            w[c]->eval(ref::build(cur));
                            ctx.evaluation();
                            pdata.push_back(w[c]->getParallelData());
                        }
                        // workers with and without recent history
                        Outs expect = serial(calc, cur, mask);
                        if (calc == "debye" && i >= 0)
                        {
                            // the r-range depends on earlier structures
                            QPtr q = makecalc(calc);
                            setmask(*q, mask);
                            Struct t = basestruct(ref::Kind(k));
                            q->eval(ref::build(t));
                            for (int j = 0; j <= i; ++j)
                            {
                                eds[seq[j].first].apply(t);
                                q->eval(ref::build(t));
                            }
                            expect = outputs(*q);
                        }
                        mergeall(ctx, master, cur, pdata,
                            orders(ncpu, 2), expect, cat(calc, " step ", i));
                        h = hashouts(expect, h);
                        ctx.state(mix(h, ncpu));
                    }
                    ctx.outcome(h);
                });
            }
        }
    }
}
