// Drives the file readers and writers.   iodrv OUT DIR   one scenario per line:
//   id d|i ; op args ; op args ...
// Values are exchanged as hexadecimal images of their bytes, so nothing is lost or
// judged here.  Every scenario runs in a process of its own: an operation that ends
// the process is reported as "DEAD".
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include <unistd.h>
#include <fcntl.h>
#include <sys/wait.h>
#include "io.hpp"
#include "kmeans_coordinator.hpp"
#include "kmeans_task_coordinator.hpp"
#include "thread.hpp"
#include "task_queue.hpp"

namespace kb = knor::base;
typedef std::vector<std::string> Op;
static std::string outfn, dir, sid;

static void say(const std::string& s) {
    int fd = open(outfn.c_str(), O_WRONLY | O_APPEND | O_CREAT, 0644);
    std::string l = s + "\n";
    if (write(fd, l.data(), l.size()) < 0) _exit(9);
    close(fd);
}
template <typename T> static std::string hex(const T& v) {
    unsigned char b[sizeof(T)]; memcpy(b, &v, sizeof(T));
    char t[3]; std::string s;
    for (size_t i = 0; i < sizeof(T); i++) { snprintf(t, 3, "%02x", b[i]); s += t; }
    return s;
}
static std::string bytes(const std::string& h) {
    std::string s;
    for (size_t i = 0; i + 1 < h.size(); i += 2) s += (char)strtoul(h.substr(i, 2).c_str(), 0, 16);
    return s;
}
template <typename T> static T val(const std::string& h) { T v; memcpy(&v, bytes(h).data(), sizeof(T)); return v; }
static size_t N(const Op& o, size_t i) { return strtoul(o.at(i).c_str(), 0, 10); }
static std::string slurp(const std::string& fn) {
    FILE* f = fopen(fn.c_str(), "rb");
    if (!f) return "?";
    std::string s; char b[4096]; size_t n;
    while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
    fclose(f);
    return s;
}
template <typename T> static T mark() { T v; memset(&v, 0x3c, sizeof v); return v; }

template <typename T> struct Seq {
    std::map<std::string, std::unique_ptr<kb::bin_io<T>>> bin;
    std::map<std::string, std::unique_ptr<kb::bin_rm_reader<T>>> rm;
    std::map<std::string, std::unique_ptr<kb::text_reader<T>>> txt;
    std::map<std::string, size_t> cols, rows;

    kb::reader<T>* rd(const std::string& h) {
        if (rm.count(h)) return rm[h].get();
        return txt.at(h).get();
    }
    std::string vals(const T* v, size_t n) { std::string s; for (size_t i = 0; i < n; i++) s += " " + hex(v[i]); return s; }
    void op(const Op& o, size_t no) {
        std::string r = "V " + sid + " " + std::to_string(no);
        const std::string& c = o[0];
        std::string fn = o.size() > 1 ? dir + "/" + o[1] : "";
        if (c == "raw") {                                   // raw file bytes
            FILE* f = fopen(fn.c_str(), "wb"); std::string b = o.size() > 2 ? bytes(o[2]) : "";
            fwrite(b.data(), 1, b.size(), f); fclose(f);
        } else if (c == "open") {                           // open f h kind mode nrow ncol
            const std::string& h = o[2];
            if (o[3] == "bin") {
                bin[h].reset(o[4] == "wb" ? new kb::bin_io<T>(fn, "wb") : o[4] == "rb" ? new kb::bin_io<T>(fn, N(o, 5), N(o, 6), o[4])
                             : new kb::bin_io<T>(fn, N(o, 5), N(o, 6)));
                rows[h] = N(o, 5); cols[h] = N(o, 6);
            } else if (o[3] == "rm") rm[h].reset(new kb::bin_rm_reader<T>(fn));
            else txt[h].reset(new kb::text_reader<T>(fn));
        } else if (c == "close") { bin.erase(o[1]); rm.erase(o[1]); txt.erase(o[1]); }
        else if (c == "write") {                            // write h p|v values
            std::vector<T> v; for (size_t i = 3; i < o.size(); i++) v.push_back(val<T>(o[i]));
            if (o[2] == "p") bin[o[1]]->write(&v[0], v.size());
            else { size_t m = v.size(); v.push_back(mark<T>()); bin[o[1]]->write(v, m); }
        } else if (c == "line") {                           // line h v|p
            size_t m = cols[o[1]];
            if (o[2] == "v") { auto v = bin[o[1]]->readline(); r += vals(&v[0], v.size()); }
            else { std::vector<T> v(m + 1, mark<T>()); bin[o[1]]->readline(&v[0]); r += vals(&v[0], m + 1); }
        } else if (c == "all") {                            // all h v|p
            size_t m = cols[o[1]] * rows[o[1]];
            std::vector<T> v(m + 1, mark<T>());
            if (o[2] == "v") bin[o[1]]->read(&v); else bin[o[1]]->read(&v[0]);
            r += vals(&v[0], m + 1);
        } else if (c == "more") r += (bool)*bin[o[1]] ? " 1" : " 0";
        else if (c == "ncol") rd(o[1])->set_ncol(N(o, 2));
        else if (c == "seek") rm[o[1]]->seek(N(o, 2));
        else if (c == "rline" || c == "rall") {             // rline h len
            std::vector<T> v(N(o, 2), mark<T>());
            if (c == "rline") r += rd(o[1])->readline(v) ? " 1" : " 0"; else { rd(o[1])->read(v); r += " 1"; }
            r += vals(&v[0], v.size());
        } else if (c == "nrow") r += " " + std::to_string(rd(o[1])->get_nrow());
        else if (c == "bytes") {                            // bytes f
            std::string b = slurp(fn);
            if (b == "?") r += " ?";
            for (size_t i = 0; i < b.size(); i += sizeof(T)) {
                r += " ";
                for (size_t q = i; q < i + sizeof(T) && q < b.size(); q++) r += hex((unsigned char)b[q]);
            }
        } else _exit(8);
        say(r);
    }
};
// a worker's own way of reading its rows
struct Part : public knor::thread {
    Part(const std::string& fn, size_t start, size_t n, size_t d) : knor::thread(0, 0, d, NULL, start, fn) { set_data_size(n * d * sizeof(double)); }
    void start(const knor::thread_state_t) override {}
    void run() override {}
};
static void special(const Op& o, size_t no) {
    std::string r = "V " + sid + " " + std::to_string(no);
    if (o[0] == "result") {                                 // result where k iters nrow ncol sizes.. labels.. centres..
        size_t k = N(o, 2), n = N(o, 4), d = N(o, 5), q = 6;
        std::vector<knor::llong_t> cnt; std::vector<unsigned> a; std::vector<double> c;
        for (size_t i = 0; i < k; i++) cnt.push_back((knor::llong_t)N(o, q++));
        for (size_t i = 0; i < n; i++) a.push_back((unsigned)N(o, q++));
        for (size_t i = 0; i < k * d; i++) c.push_back(val<double>(o.at(q++)));
        kb::cluster_t res(n, d, N(o, 3), k, &a[0], &cnt[0], c);
        std::string where = dir + "/" + o[1];
        if (chdir(dir.c_str())) _exit(7);
        res.write(where);
        std::string b = slurp(where + "/cluster_t.yml");
        r += " ";
        for (char ch : b) r += hex((unsigned char)ch);
    } else if (o[0] == "hole") {                            // hole f base values: the values after base others
        int fd = open((dir + "/" + o[1]).c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
        std::string b = bytes(o[3]);
        if (pwrite(fd, b.data(), b.size(), (off_t)N(o, 2) * 8) != (ssize_t)b.size()) _exit(6);
        close(fd);
    } else if (o[0] == "far") {                             // far f start n d
        Part& p = *new Part(dir + "/" + o[1], N(o, 2), N(o, 3), N(o, 4));      // never started: must not be joined
        p.numa_alloc_mem();
        for (size_t i = 0; i < N(o, 3) * N(o, 4); i++) r += " " + hex(p.get_local_data()[i]);
        p.destroy_numa_mem();
    } else if (o[0] == "store") {                                  // store id numel nrow ncol labels.. values..
        size_t n = N(o, 3), d = N(o, 4);
        std::vector<unsigned> a; std::vector<double> v;
        for (size_t i = 0; i < n; i++) a.push_back((unsigned)N(o, 5 + i));
        for (size_t i = 0; i < n * d; i++) v.push_back(val<double>(o.at(5 + n + i)));
        kb::store_cluster((unsigned)N(o, 1), &v[0], (unsigned)N(o, 2), &a[0], n, d, dir + "/");
    } else {                                                // load f engine nrow ncol T: rows as the threads read them
        std::string fn = dir + "/" + o[1];
        size_t n = N(o, 3), d = N(o, 4);
        knor::coordinator::ptr c;
        if (o[2] == "full") c = knor::kmeans_coordinator::create(fn, n, d, 2, 1, 1, N(o, 5), NULL, "forgy", -1, "eucl");
        else c = knor::prune::kmeans_task_coordinator::create(fn, n, d, 2, 1, 1, N(o, 5), NULL, "forgy", -1, "eucl");
        c->run();
        for (size_t i = 0; i < n; i++) {
            const double* p = c->get_thd_data(i);
            for (size_t q = 0; q < d; q++) r += " " + hex(p[q]);
        }
    }
    say(r);
}

template <typename T> static void play(const std::vector<Op>& ops) {
    Seq<T> s;
    for (size_t i = 0; i < ops.size(); i++) {
        if (ops[i][0] == "store" || ops[i][0] == "result" || ops[i][0] == "load" || ops[i][0] == "hole" || ops[i][0] == "far") special(ops[i], i);
        else s.op(ops[i], i);
    }
}

int main(int, char** argv) {
    outfn = argv[1]; dir = std::string(argv[2]) + "/io" + std::to_string(getpid());
    fclose(fopen(outfn.c_str(), "w"));
    std::string mk = "mkdir -p " + dir;
    if (system(mk.c_str())) return 3;
    int dn = open("/dev/null", O_WRONLY); dup2(dn, 1);
    std::string l;
    while (std::getline(std::cin, l)) {
        std::istringstream is(l);
        std::string t, type; is >> sid >> type;
        std::vector<Op> ops;
        while (is >> t) { if (t == ";") ops.push_back(Op()); else ops.back().push_back(t); }
        say("S " + sid);
        pid_t p = fork();
        if (!p) {
            dup2(dn, 2);
            alarm(20);
            try { if (type == "d") play<double>(ops); else play<int>(ops); } catch (std::exception&) { _exit(5); }
            _exit(0);
        }
        int st; waitpid(p, &st, 0);
        if (st) say("V " + sid + " DEAD " + (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM ? "hang" : "ended"));
        say("E " + sid);
    }
    return system(("rm -rf " + dir).c_str());
}
