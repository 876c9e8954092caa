// Bounded exhaustive explorer for sequential code.
//
// A check program derives its enumeration in explore(Ctx&): plain nested loops
// that call ctx.run("case description", lambda) for every case of the bounded
// space, in a fixed order.  The explorer forks one worker per core; a worker
// executes the cases whose running number falls in its shard, so every case is
// executed exactly once, in an isolated process that may crash without taking
// the exploration with it.  A failing case is replayed in a fresh process
// before it is reported.
#ifndef MC_HPP_INCLUDED
#define MC_HPP_INCLUDED

#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <time.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <algorithm>
#include <functional>
#include <sstream>
#include <fstream>
#include <iostream>
#include <stdexcept>
#include <typeinfo>

namespace mc {

inline double now()
{
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + 1e-9 * ts.tv_nsec;
}

/// thrown by a case when the property is violated
struct Fail
{
    std::string sig;    // identifies the kind of failing input / call site
    std::string msg;
    Fail(const std::string& s, const std::string& m) : sig(s), msg(m) { }
};

inline uint64_t mix(uint64_t h, uint64_t v)
{
    h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdULL;
    h ^= h >> 33;
    return h;
}

inline uint64_t hashstr(const std::string& s, uint64_t h=0x1234567)
{
    for (unsigned char c : s)  h = (h ^ c) * 0x100000001b3ULL;
    return mix(h, s.size());
}

/// hash of a floating point number with about 9 significant digits
inline uint64_t hashdbl(double x)
{
    if (std::isnan(x))  return 77;
    if (std::fabs(x) < 1e-12)  return 3;
    char buf[40];
    snprintf(buf, sizeof(buf), "%.8e", x);
    return hashstr(buf);
}

template <class V>
uint64_t hashvec(const V& v, uint64_t h=99)
{
    for (const auto& x : v)  h = mix(h, hashdbl(double(x)));
    return mix(h, v.size());
}

inline std::string jstr(const std::string& s)
{
    std::string rv = "\"";
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { rv += '\\'; rv += c; }
        else if (c == '\n')  rv += "\\n";
        else if (c < 32 || c > 126)
        {
            char b[8];
            snprintf(b, sizeof(b), "\\u%04x", c);
            rv += b;
        }
        else rv += c;
    }
    return rv + "\"";
}

struct Shared   // one page group per worker, readable by the parent
{
    volatile long casenumber;       // number of the case being executed
    volatile double casestart;
    char desc[4000];
    volatile unsigned long ncases, ntransitions, ntraces, nevaluations;
    volatile int finished;
    volatile int capped;
};

struct Violation
{
    long casenumber;
    int shard;
    std::string desc, sig, msg;
};

class Ctx
{
    public:

        bool thorough = false;
        int nshards = 1;
        int shard = 0;
        long skipto = 0;            // do not execute cases below this number
        long stopafter = -1;        // last case number to execute
        bool onlymode = false;
        std::string only;           // execute only this description
        double deadline = 1e300;
        // MC_DEV is for development: go on and list all failing cases
        int maxviolations = getenv("MC_DEV") ? atoi(getenv("MC_DEV")) : 3;
        Shared* sh = nullptr;
        FILE* out = nullptr;        // violation records
        std::set<std::string> knownsigs;
        bool stopped = false;

        /// execute one case of the enumeration
        template <class F> void run(const std::string& desc, F f)
        {
            long k = counter++;
            if (stopped)  return;
            if (onlymode) { if (desc != only)  return; }
            else
            {
                if (k % nshards != shard || k < skipto)  return;
                if (stopafter >= 0 && k > stopafter) { stopped = true; return; }
                if (now() > deadline)
                {
                    sh->capped = 1;
                    stopped = true;
                    return;
                }
            }
            sh->casenumber = k;
            strncpy(sh->desc, desc.c_str(), sizeof(sh->desc) - 1);
            sh->casestart = now();
            sh->ncases++;
            curdesc = desc;
            if (samples.size() < 3 || (k % 997 == shard && samples.size() < 6))
            {
                samples.push_back(desc);
            }
            try { f(); }
            catch (Fail& e) { this->record(k, desc, e.sig, e.msg); }
            catch (std::exception& e)
            {
                this->record(k, desc, "unexpected-exception",
                        std::string("unexpected exception ") +
                        typeid(e).name() + ": " + e.what());
            }
            catch (...)
            {
                this->record(k, desc, "unexpected-exception",
                        "unexpected exception of unknown type");
            }
            sh->casestart = 0;
        }

        /// use it to skip expensive preparation shared by no executed case
        bool wants(const std::string& prefix) const
        {
            return !onlymode || only.compare(0, prefix.size(), prefix) == 0;
        }

        void state(uint64_t h)  { states.insert(h); }
        void outcome(uint64_t h)  { outcomes.insert(h); }
        void transition(unsigned long n=1)  { sh->ntransitions += n; }
        void trace(unsigned long n=1)  { sh->ntraces += n; }
        void evaluation(unsigned long n=1)  { sh->nevaluations += n; }
        void count(const std::string& what, unsigned long n=1)
        {
            counts[what] += n;
        }
        /// record a failure and let the case go on
        void soft(const std::string& sig, const std::string& msg)
        {
            this->record(sh->casenumber, curdesc, sig, msg);
        }

        long total() const  { return counter; }

        std::unordered_set<uint64_t> states, outcomes;
        std::map<std::string, unsigned long> counts;
        std::vector<std::string> samples;
        int nviol = 0;

    private:

        long counter = 0;
        std::string curdesc;
        std::map<std::string, int> knownseen;

        void record(long k, const std::string& desc,
                const std::string& sig, const std::string& msg)
        {
            bool known = knownsigs.count(sig);
            if (known && knownseen[sig]++)  return;
            std::string m = msg;
            std::replace(m.begin(), m.end(), '\n', ' ');
            std::replace(m.begin(), m.end(), '\t', ' ');
            if (out)
            {
                fprintf(out, "%ld\t%s\t%s\t%s\n",
                        k, desc.c_str(), sig.c_str(), m.c_str());
                fflush(out);
            }
            if (!known && ++nviol >= maxviolations)  stopped = true;
        }
};

// formatting helpers --------------------------------------------------------

inline void cat1(std::ostream& o)  { }
template <class A, class... R>
void cat1(std::ostream& o, const A& a, const R&... r)
{
    o << a;
    cat1(o, r...);
}
template <class... R> std::string cat(const R&... r)
{
    std::ostringstream o;
    o.precision(12);
    cat1(o, r...);
    return o.str();
}

inline void fail(const std::string& sig, const std::string& msg)
{
    throw Fail(sig, msg);
}

template <class... R>
void require(bool flag, const std::string& sig, const R&... r)
{
    if (!flag)  throw Fail(sig, cat(r...));
}

inline bool close(double a, double b, double rtol=1e-8, double atol=1e-10)
{
    if (a == b)  return true;
    if (std::isnan(a) || std::isnan(b))  return std::isnan(a) && std::isnan(b);
    if (std::isinf(a) || std::isinf(b))  return false;
    return std::fabs(a - b) <= atol + rtol * std::max(std::fabs(a), std::fabs(b));
}

template <class V, class W>
void requireclose(const V& a, const W& b, const std::string& sig,
        const std::string& what, double rtol=1e-8, double atol=1e-10)
{
    if (a.size() != b.size())
    {
        throw Fail(sig, cat(what, ": sizes differ ", a.size(), " vs ",
                    b.size()));
    }
    double mx = 0;
    for (double y : b)  if (std::isfinite(y))  mx = std::max(mx, std::fabs(y));
    auto ia = a.begin();
    auto ib = b.begin();
    for (size_t i = 0; ia != a.end(); ++ia, ++ib, ++i)
    {
        if (!close(*ia, *ib, rtol, atol + rtol * mx))
        {
            throw Fail(sig, cat(what, ": element ", i, " is ", double(*ia),
                        ", expected ", double(*ib)));
        }
    }
}

// to be defined by the check program ----------------------------------------

struct Info
{
    const char* property;
    const char* level;      // evidence level
    const char* rule;       // how cases are made and what makes one nontrivial
    const char* bound;      // bound of the quick exploration
    const char* boundthorough;
    std::vector<std::string> assumptions;
    double timeout = 60;    // per-case limit
};

}   // namespace mc

extern const mc::Info mcinfo;
void explore(mc::Ctx& ctx);

namespace mc {

// driver --------------------------------------------------------------------

struct Driver
{
    std::string tmpdir, evidence, replaydir, known;
    bool thorough = false;
    int nworkers = 8;
    double budget = 400;
    std::string exe;
    std::map<std::string, std::string> knownsigs;

    void loadknown()
    {
        std::ifstream fp(known);
        std::string line;
        std::string prefix = std::string("known: property=") + mcinfo.property
            + " sig=";
        while (std::getline(fp, line))
        {
            if (line.compare(0, prefix.size(), prefix))  continue;
            std::istringstream ws(line.substr(prefix.size()));
            std::string sig, rest;
            ws >> sig;
            std::getline(ws, rest);
            size_t b = rest.find_first_not_of(" -");
            knownsigs[sig] = (b == std::string::npos) ? "" : rest.substr(b);
        }
    }

    Shared* share()
    {
        void* p = mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE,
                MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        memset(p, 0, sizeof(Shared));
        return static_cast<Shared*>(p);
    }

    std::string recfile(int k) const  { return cat(tmpdir, "/viol.", k); }
    std::string statfile(int k, int gen) const
    { return cat(tmpdir, "/stat.", k, ".", gen); }

    // body of a worker process
    void worker(int shard, int gen, long skipto, long stopafter,
            const std::string* only, Shared* sh, double deadline,
            const std::string& rec)
    {
        Ctx ctx;
        ctx.thorough = thorough;
        ctx.nshards = nworkers;
        ctx.shard = shard;
        ctx.skipto = skipto;
        ctx.stopafter = stopafter;
        if (only) { ctx.onlymode = true; ctx.only = *only; }
        ctx.sh = sh;
        ctx.deadline = deadline;
        for (auto& kv : knownsigs)  ctx.knownsigs.insert(kv.first);
        ctx.out = fopen(rec.c_str(), "a");
        int rc = 0;
        try { explore(ctx); }
        catch (std::exception& e)
        {
            fprintf(stderr, "exploration failed outside of a case: %s\n",
                    e.what());
            rc = 3;
        }
        fclose(ctx.out);
        if (!only && gen >= 0)
        {
            std::ofstream st(statfile(shard, gen), std::ios::binary);
            st << ctx.total() << '\n';
            for (auto& kv : ctx.counts)
            {
                st << "C\t" << kv.first << '\t' << kv.second << '\n';
            }
            for (auto& s : ctx.samples)  st << "S\t" << s << '\n';
            for (auto h : ctx.states)  st << "H\t" << h << '\n';
            for (auto h : ctx.outcomes)  st << "O\t" << h << '\n';
        }
        if (rc == 0)  sh->finished = 1;
        fflush(stdout);
        fflush(stderr);
        _exit(rc);
    }

    std::vector<Violation> readrec(const std::string& fn, int shard)
    {
        std::vector<Violation> rv;
        std::ifstream fp(fn);
        std::string line;
        while (std::getline(fp, line))
        {
            Violation v;
            v.shard = shard;
            std::istringstream ss(line);
            std::string k;
            std::getline(ss, k, '\t');
            std::getline(ss, v.desc, '\t');
            std::getline(ss, v.sig, '\t');
            std::getline(ss, v.msg, '\t');
            v.casenumber = atol(k.c_str());
            rv.push_back(v);
        }
        return rv;
    }

    // run one case (or the prefix of a shard) in a fresh process.
    // Return empty string if it passed, otherwise the message.
    std::string replayone(const Violation& v, bool prefix, double limit,
            std::string* psig=nullptr)
    {
        std::string rec = cat(tmpdir, "/replay.rec");
        unlink(rec.c_str());
        Shared* sh = share();
        pid_t pid = fork();
        if (pid == 0)
        {
            if (prefix)
            {
                this->worker(v.shard, -1, 0, v.casenumber, nullptr, sh, 1e300,
                        rec);
            }
            else
            {
                this->worker(0, -1, 0, -1, &v.desc, sh, 1e300, rec);
            }
        }
        double t0 = now();
        int status = 0;
        bool timedout = false;
        while (waitpid(pid, &status, WNOHANG) == 0)
        {
            if (now() - t0 > limit)
            {
                kill(pid, SIGKILL);
                waitpid(pid, &status, 0);
                timedout = true;
                break;
            }
            usleep(2000);
        }
        std::string rv;
        std::string sig;
        if (timedout) { rv = "does not terminate"; sig = "hang"; }
        else if (!WIFEXITED(status) || WEXITSTATUS(status) != 0)
        {
            rv = WIFSIGNALED(status) ?
                cat("process killed by signal ", WTERMSIG(status)) :
                cat("process exited with status ", WEXITSTATUS(status));
            sig = "crash";
        }
        else for (auto& w : this->readrec(rec, v.shard))
        {
            if (w.desc == v.desc && w.sig == v.sig)
            {
                rv = w.msg;
                sig = w.sig;
                break;
            }
            if (w.desc == v.desc) { rv = w.msg; sig = w.sig; }
        }
        if (psig)  *psig = sig;
        munmap(sh, sizeof(Shared));
        return rv;
    }

    int explorall()
    {
        double t0 = now();
        double deadline = t0 + budget;
        std::vector<Shared*> sh(nworkers);
        std::vector<pid_t> pid(nworkers, 0);
        std::vector<int> gen(nworkers, 0);
        std::vector<int> crashes(nworkers, 0);
        std::vector<Violation> viol;
        bool error = false;
        for (int k = 0; k < nworkers; ++k)
        {
            sh[k] = share();
            pid[k] = fork();
            if (pid[k] == 0)
            {
                this->worker(k, 0, 0, -1, nullptr, sh[k], deadline,
                        recfile(k));
            }
        }
        int alive = nworkers;
        while (alive)
        {
            usleep(2000);
            for (int k = 0; k < nworkers; ++k)
            {
                if (!pid[k])  continue;
                int status;
                pid_t r = waitpid(pid[k], &status, WNOHANG);
                std::string why, sig;
                if (r == 0)
                {
                    double cs = sh[k]->casestart;
                    if (cs > 0 && now() - cs > mcinfo.timeout)
                    {
                        kill(pid[k], SIGKILL);
                        waitpid(pid[k], &status, 0);
                        why = "does not terminate";
                        sig = "hang";
                    }
                    else continue;
                }
                else if (WIFEXITED(status) && WEXITSTATUS(status) == 0 &&
                        sh[k]->finished)
                {
                    pid[k] = 0;
                    --alive;
                    continue;
                }
                else if (sh[k]->casestart == 0)
                {
                    fprintf(stderr, "worker %i failed outside of a case, "
                            "status %i\n", k, status);
                    error = true;
                    pid[k] = 0;
                    --alive;
                    continue;
                }
                else
                {
                    sig = "crash";
                    why = WIFSIGNALED(status) ?
                        cat("process killed by signal ", WTERMSIG(status)) :
                        cat("process exited with status ",
                                WEXITSTATUS(status));
                }
                Violation v;
                v.casenumber = sh[k]->casenumber;
                v.shard = k;
                v.desc = sh[k]->desc;
                v.sig = sig;
                v.msg = why;
                viol.push_back(v);
                pid[k] = 0;
                --alive;
                if (++crashes[k] < (getenv("MC_DEV") ? 100 : 2))
                {
                    sh[k]->casestart = 0;
                    ++gen[k];
                    ++alive;
                    pid[k] = fork();
                    if (pid[k] == 0)
                    {
                        this->worker(k, gen[k], v.casenumber + 1, -1, nullptr,
                                sh[k], deadline, recfile(k));
                    }
                }
            }
        }
        for (int k = 0; k < nworkers; ++k)
        {
            auto more = this->readrec(recfile(k), k);
            viol.insert(viol.end(), more.begin(), more.end());
        }
        std::sort(viol.begin(), viol.end(),
                [](const Violation& a, const Violation& b)
                { return a.casenumber < b.casenumber; });
        // gather coverage
        unsigned long ncases = 0, ntrans = 0, ntraces = 0, nevals = 0;
        bool capped = false;
        long total = 0;
        std::unordered_set<uint64_t> states, outcomes;
        std::map<std::string, unsigned long> counts;
        std::vector<std::string> samples;
        for (int k = 0; k < nworkers; ++k)
        {
            ncases += sh[k]->ncases;
            ntrans += sh[k]->ntransitions;
            ntraces += sh[k]->ntraces;
            nevals += sh[k]->nevaluations;
            capped = capped || sh[k]->capped;
            for (int g = 0; g <= gen[k]; ++g)
            {
                std::ifstream st(statfile(k, g), std::ios::binary);
                std::string line;
                if (!std::getline(st, line))  continue;
                total = std::max(total, atol(line.c_str()));
                while (std::getline(st, line))
                {
                    if (line[0] == 'H')
                        states.insert(strtoull(line.c_str() + 2, 0, 10));
                    else if (line[0] == 'O')
                        outcomes.insert(strtoull(line.c_str() + 2, 0, 10));
                    else if (line[0] == 'S')
                        samples.push_back(line.substr(2));
                    else if (line[0] == 'C')
                    {
                        size_t p = line.rfind('\t');
                        counts[line.substr(2, p - 2)] +=
                            strtoul(line.c_str() + p + 1, 0, 10);
                    }
                }
            }
        }
        // confirm and report violations
        int nreported = 0;
        int nknown = 0;
        std::set<std::string> knowndone, sigsdone;
        for (const Violation& v : viol)
        {
            if (knownsigs.count(v.sig))
            {
                if (!knowndone.insert(v.sig).second)  continue;
                printf("KNOWN-FINDING: property=%s %s [case %s: %s]\n",
                        mcinfo.property, knownsigs[v.sig].c_str(),
                        v.desc.c_str(), v.msg.c_str());
                ++nknown;
                continue;
            }
            if (getenv("MC_DEV"))
            {
                printf("DEV %s | %s | %s\n", v.sig.c_str(), v.desc.c_str(),
                        v.msg.c_str());
                continue;
            }
            // the same kind of failure is reported once
            if (!sigsdone.insert(v.sig).second || nreported >= 4)  continue;
            double limit = 2 * mcinfo.timeout + 30;
            std::string mode = "alone";
            std::string sig;
            std::string msg = this->replayone(v, false, limit, &sig);
            if (msg.empty())
            {
                mode = "after the preceding cases of its shard";
                msg = this->replayone(v, true, limit + budget, &sig);
            }
            if (msg.empty())
            {
                if (v.sig == "hang")
                {
                    fprintf(stderr, "slow case, not a hang: %s\n",
                            v.desc.c_str());
                    error = true;
                    continue;
                }
                mode = "NOT REPRODUCED, message of the first run";
                msg = v.msg;
            }
            ++nreported;
            std::string rfile = cat(replaydir, "/", mcinfo.property, "-",
                    nreported, ".replay");
            std::ofstream rp(rfile);
            rp << "property " << mcinfo.property << '\n'
                << "tier " << (thorough ? "thorough" : "quick") << '\n'
                << "mode " << (mode == "alone" ? "alone" : "prefix") << '\n'
                << "shard " << v.shard << '\n'
                << "nshards " << nworkers << '\n'
                << "number " << v.casenumber << '\n'
                << "signature " << v.sig << '\n'
                << "case " << v.desc << '\n'
                << "message " << msg << '\n';
            rp.close();
            printf("case: %s\nsignature: %s\nreproduced: %s\nmessage: %s\n",
                    v.desc.c_str(), v.sig.c_str(), mode.c_str(), msg.c_str());
            printf("VIOLATION property=%s replay=%s\n", mcinfo.property,
                    rfile.c_str());
        }
        // evidence
        bool exhaustive = !capped && viol.empty() && !error;
        std::ofstream ev(evidence + ".tmp");
        ev << "{\n \"property\": " << jstr(mcinfo.property)
            << ",\n \"tier\": \"" << (thorough ? "thorough" : "quick")
            << "\",\n \"seed\": "
            << (getenv("VERIF_SEED") ? atoi(getenv("VERIF_SEED")) : 0)
            << ",\n \"level\": " << jstr(mcinfo.level)
            << ",\n \"coverage\": {\n"
            << "  \"cases\": " << ncases << ",\n"
            << "  \"cases_in_bound\": " << total << ",\n"
            << "  \"evaluations\": " << nevals << ",\n"
            << "  \"states\": " << states.size() << ",\n"
            << "  \"distinct_outcomes\": " << outcomes.size() << ",\n"
            << "  \"distinct_nontrivial\": " << outcomes.size() << ",\n"
            << "  \"transitions\": " << ntrans << ",\n"
            << "  \"traces_validated_against_impl\": " << ntraces << ",\n"
            << "  \"rule\": " << jstr(mcinfo.rule) << ",\n"
            << "  \"bound\": " << jstr(thorough ? mcinfo.boundthorough :
                    mcinfo.bound) << ",\n"
            << "  \"time_cap_hit\": " << (capped ? "true" : "false") << ",\n"
            << "  \"exhaustive\": " << (exhaustive ? "true" : "false") << ",\n"
            << "  \"counts\": {";
        const char* sep = "";
        for (auto& kv : counts)
        {
            ev << sep << "\n   " << jstr(kv.first) << ": " << kv.second;
            sep = ",";
        }
        ev << "\n  },\n  \"samples\": [";
        sep = "";
        std::sort(samples.begin(), samples.end());
        for (size_t i = 0; i < samples.size() && i < 40; ++i)
        {
            ev << sep << "\n   " << jstr(samples[i]);
            sep = ",";
        }
        ev << "\n  ]\n },\n \"assumptions\": [";
        sep = "";
        for (auto& a : mcinfo.assumptions)
        {
            ev << sep << "\n  " << jstr(a);
            sep = ",";
        }
        ev << "\n ],\n \"wall_s\": " << (now() - t0)
            << ",\n \"violations\": " << nreported << "\n}\n";
        ev.close();
        rename((evidence + ".tmp").c_str(), evidence.c_str());
        printf("%s: %lu of %ld cases, %lu states, %lu transitions, %lu traces, "
                "%lu distinct outcomes, %i known findings, %.1f s%s\n",
                mcinfo.property, ncases, total, states.size(), ntrans, ntraces,
                outcomes.size(), nknown, now() - t0,
                capped ? " (time cap hit)" : "");
        if (nreported)  return 1;
        if (error)  return 2;
        if (!ncases)
        {
            fprintf(stderr, "nothing was explored\n");
            return 2;
        }
        return 0;
    }

    int replayfile(const std::string& fn)
    {
        std::ifstream fp(fn);
        std::string line;
        Violation v;
        v.shard = 0;
        v.casenumber = 0;
        bool prefix = false;
        while (std::getline(fp, line))
        {
            size_t p = line.find(' ');
            std::string key = line.substr(0, p);
            std::string val = (p == std::string::npos) ? "" :
                line.substr(p + 1);
            if (key == "case")  v.desc = val;
            else if (key == "signature")  v.sig = val;
            else if (key == "shard")  v.shard = atoi(val.c_str());
            else if (key == "nshards")  nworkers = atoi(val.c_str());
            else if (key == "number")  v.casenumber = atol(val.c_str());
            else if (key == "mode")  prefix = (val == "prefix");
            else if (key == "tier")  thorough = (val == "thorough");
        }
        std::string msg = this->replayone(v, prefix, 1000);
        if (msg.empty())
        {
            printf("case %s passes\n", v.desc.c_str());
            return 0;
        }
        printf("case %s fails: %s\n", v.desc.c_str(), msg.c_str());
        printf("VIOLATION property=%s replay=%s\n", mcinfo.property,
                fn.c_str());
        return 1;
    }
};

inline int main1(int argc, char** argv)
{
    Driver d;
    std::string replay;
    std::string onecase;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto val = [&]() { return std::string(argv[++i]); };
        if (a == "--tmp")  d.tmpdir = val();
        else if (a == "--evidence")  d.evidence = val();
        else if (a == "--replaydir")  d.replaydir = val();
        else if (a == "--known")  d.known = val();
        else if (a == "--tier")  d.thorough = (val() == "thorough");
        else if (a == "--workers")  d.nworkers = atoi(argv[++i]);
        else if (a == "--budget")  d.budget = atof(argv[++i]);
        else if (a == "--replay")  replay = val();
        else if (a == "--case")  onecase = val();
        else { fprintf(stderr, "bad argument %s\n", a.c_str()); return 2; }
    }
    // bound memory so that a runaway case fails in its own process
#ifndef __SANITIZE_ADDRESS__
    struct rlimit rl = { 3UL << 30, 3UL << 30 };
    setrlimit(RLIMIT_AS, &rl);
#endif
    struct rlimit rc = { 0, 0 };
    setrlimit(RLIMIT_CORE, &rc);
    d.loadknown();
    if (!onecase.empty())
    {
        Violation v;
        v.shard = 0;
        v.casenumber = 0;
        v.desc = onecase;
        std::string msg = d.replayone(v, false, 1000);
        printf("%s\n", msg.empty() ? "passes" : msg.c_str());
        return !msg.empty();
    }
    if (!replay.empty())  return d.replayfile(replay);
    return d.explorall();
}

}   // namespace mc

#ifndef MC_NO_MAIN
int main(int argc, char** argv)
{
    return mc::main1(argc, argv);
}
#endif

#endif  // MC_HPP_INCLUDED
