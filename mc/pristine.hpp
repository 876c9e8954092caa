// Answers computed in processes with no history.  A server is forked before
// the library is used, and each question is answered in a new child of the
// server.  Answers hence cannot depend on anything that the exploring process
// has done, including data that the library keeps for the whole process.
#ifndef PRISTINE_HPP_INCLUDED
#define PRISTINE_HPP_INCLUDED

#include "mc.hpp"
#include <sys/prctl.h>

namespace mc {

class Pristine
{
    public:

        typedef std::function<std::string(const std::string&)> Answer;

        explicit Pristine(Answer f)
        {
            int a[2], b[2];
            if (pipe(a) || pipe(b))  throw std::runtime_error("pipe");
            fflush(stdout);
            mpid = fork();
            if (mpid < 0)  throw std::runtime_error("fork");
            if (mpid == 0)
            {
                prctl(PR_SET_PDEATHSIG, SIGKILL);
                ::close(a[1]);
                ::close(b[0]);
                serve(a[0], b[1], f);
            }
            ::close(a[0]);
            ::close(b[1]);
            mto = a[1];
            mfrom = b[0];
        }

        ~Pristine()
        {
            ::close(mto);
            ::close(mfrom);
            waitpid(mpid, 0, 0);
        }

        /// answer of a new process, it is remembered
        const std::string& ask(const std::string& question)
        {
            auto i = mcache.find(question);
            if (i != mcache.end())  return i->second;
            send(mto, question);
            std::string r;
            require(receive(mfrom, r) && !r.empty() && r[0] == '+',
                    "pristine", "no result in a new process for ", question,
                    ": ", r);
            return mcache[question] = r.substr(1);
        }

    private:

        pid_t mpid;
        int mto, mfrom;
        std::map<std::string, std::string> mcache;

        static bool writeall(int fd, const char* p, size_t n)
        {
            while (n)
            {
                ssize_t k = write(fd, p, n);
                if (k <= 0)  return false;
                p += k;
                n -= k;
            }
            return true;
        }

        static bool readall(int fd, char* p, size_t n)
        {
            while (n)
            {
                ssize_t k = read(fd, p, n);
                if (k <= 0)  return false;
                p += k;
                n -= k;
            }
            return true;
        }

        static bool send(int fd, const std::string& s)
        {
            uint64_t n = s.size();
            return writeall(fd, reinterpret_cast<char*>(&n), sizeof(n)) &&
                writeall(fd, s.data(), n);
        }

        static bool receive(int fd, std::string& s)
        {
            uint64_t n;
            if (!readall(fd, reinterpret_cast<char*>(&n), sizeof(n)))
                return false;
            s.resize(n);
            return n == 0 || readall(fd, &s[0], n);
        }

        static void serve(int in, int out, Answer f)
        {
            for (std::string q; receive(in, q);)
            {
                int c[2];
                if (pipe(c))  _exit(3);
                pid_t pid = fork();
                if (pid == 0)
                {
                    prctl(PR_SET_PDEATHSIG, SIGKILL);
                    ::close(c[0]);
                    std::string r;
                    try { r = "+" + f(q); }
                    catch (Fail& e) { r = e.sig + " " + e.msg; }
                    catch (std::exception& e) { r = e.what(); }
                    _exit(send(c[1], r) ? 0 : 3);
                }
                ::close(c[1]);
                std::string r;
                if (pid < 0 || !receive(c[0], r))  r = "crash";
                ::close(c[0]);
                if (pid > 0)  waitpid(pid, 0, 0);
                if (!send(out, r))  break;
            }
            _exit(0);
        }

        Pristine(const Pristine&);
        Pristine& operator=(const Pristine&);
};

}   // namespace mc

#endif  // PRISTINE_HPP_INCLUDED
