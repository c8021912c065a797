// Drives the library's small stateful objects through sequences of operations.
//   objdrv OUT   with sequences on stdin, one per line:  id kind params... ; op args ; op args ...
// Output: "S id", one "V id <result tokens>" per operation, "E id".
// Every operation prints what its caller can observe afterwards; nothing is judged here.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include <unistd.h>
#include <fcntl.h>
#include <cassert>
#include "clusters.hpp"
#include "dist_matrix.hpp"
#include "thd_safe_bool_vector.hpp"
#include "hclust_compactor.hpp"
#include "hclust_id_generator.hpp"
#include "types.hpp"
#include "util.hpp"
#include "task_queue.hpp"
#include "dense_matrix.hpp"
#include "linalg.hpp"
#include "AndersonDarling.hpp"

using namespace knor;
namespace kb = knor::base;

static FILE* out;
static std::string sid;
static std::ostringstream line;
template <typename T> static void put(const T& v) { line << ' ' << v; }
static void putd(double v) { char b[40]; snprintf(b, sizeof b, " %.17g", v); line << b; }
static void flush_line() { fprintf(out, "V %s%s\n", sid.c_str(), line.str().c_str()); fflush(out); line.str(""); }

typedef std::vector<std::string> Op;
static std::vector<double> vec(const Op& o, size_t from, size_t n) {
    std::vector<double> v;
    for (size_t i = 0; i < n; i++) v.push_back(atof(o.at(from + i).c_str()));
    return v;
}
static unsigned U(const std::string& s) { return (unsigned)strtoul(s.c_str(), 0, 10); }

// ---------------------------------------------------------------- clusters
// An iterator over a row, as the streaming callers use it.
struct row_it {
    std::vector<double> v; size_t i;
    row_it(const std::vector<double>& v) : v(v), i(0) {}
    bool has_next() { return i < v.size(); }
    double next() { return v[i++]; }
};
static void show(kb::clusters::ptr c) {
    unsigned k = c->get_nclust(), d = c->get_ncol();
    put(k); put(d);
    for (unsigned i = 0; i < k; i++) {
        put((long)c->get_num_members(i)); put((int)c->is_complete(i));
        const double* m = c->get_mean_rawptr(i);
        for (unsigned j = 0; j < d; j++) putd(m[j]);
    }
}
static void clusters_seq(const Op& p, const std::vector<Op>& ops) {
    std::string ty = p.at(0);
    unsigned k = U(p.at(1)), d = U(p.at(2)), na = U(p.at(3));
    std::vector<kb::clusters::ptr> A;
    for (unsigned a = 0; a < na; a++)
        A.push_back(ty == "prune" ? std::static_pointer_cast<kb::clusters>(kb::prune_clusters::create(k, d))
                    : ty == "sparse" ? kb::sparse_clusters::create(k, d)
                    : ty == "h" ? std::static_pointer_cast<kb::clusters>(kb::h_clusters::create(k, d))
                    : kb::clusters::create(k, d));
    for (auto& o : ops) {
        const std::string& n = o.at(0);
        unsigned a = U(o.at(1));
        kb::clusters::ptr c = A.at(a);
        auto pc = std::dynamic_pointer_cast<kb::prune_clusters>(c);
        try {
            if (n == "add") { auto v = vec(o, 3, d); c->add_member(&v[0], U(o[2])); }
            else if (n == "addit") { row_it it(vec(o, 3, d)); c->add_member(it, U(o[2])); }
            else if (n == "rem") { auto v = vec(o, 3, d); c->remove_member(&v[0], U(o[2])); }
            else if (n == "remit") { row_it it(vec(o, 3, d)); c->remove_member(it, U(o[2])); }
            else if (n == "swap") { auto v = vec(o, 4, d); c->swap_membership(&v[0], U(o[2]), U(o[3])); }
            else if (n == "swapit") { row_it it(vec(o, 4, d)); c->swap_membership(it, U(o[2]), U(o[3])); }
            else if (n == "peq") c->peq(A.at(U(o[2])));
            else if (n == "pluseq") *c += *A.at(U(o[2]));
            else if (n == "sums") {      // the distributed reduction: sums and counts as raw buffers
                auto& b = A.at(U(o[2]));
                std::vector<size_t> nm;
                for (unsigned i = 0; i < b->get_nclust(); i++) nm.push_back(b->get_num_members(i));
                c->means_peq(&b->get_means()[0]);
                c->num_members_v_peq(&nm[0]);
            }
            else if (n == "fin") c->finalize(U(o[2]));
            else if (n == "unfin") c->unfinalize(U(o[2]));
            else if (n == "finall") c->finalize_all();
            else if (n == "unfinall") c->unfinalize_all();
            else if (n == "clear") c->clear();
            else if (n == "setprev") pc->set_prev_means();
            else if (n == "setpd") pc->set_prev_dist(atof(o[3].c_str()), U(o[2]));
            else if (n == "sets") pc->set_s_val(atof(o[3].c_str()), U(o[2]));
            else if (n == "resets") pc->reset_s_val_v();
            else { fprintf(stderr, "op %s\n", n.c_str()); _exit(9); }
            put("ok");
        } catch (std::exception&) { put("exc"); }
        show(c);
        if (pc) {
            put("P");
            for (auto v : pc->get_prev_means()) putd(v);
            for (unsigned i = 0; i < k; i++) { putd(pc->get_prev_dist(i)); putd(pc->get_s_val(i)); }
        }
        flush_line();
    }
}

// ---------------------------------------------------------------- id generator
static void ids_seq(const Op&, const std::vector<Op>& ops) {
    auto g = hclust_id_generator::create();
    std::vector<unsigned> live;           // in the order they were handed out
    for (auto& o : ops) {
        if (o[0] == "get") {
            split_id s = g->get_split_ids(); put(s.first); put(s.second);
            live.push_back(s.first); live.push_back(s.second);
        } else {
            size_t i = U(o[1]);           // give back the i-th of those in use (1..)
            unsigned id = live.at(i - 1);
            live.erase(live.begin() + (i - 1));
            g->reclaim_id(id);
            put(id);
        }
        flush_line();
    }
}

// ---------------------------------------------------------------- flag vector
static void flags_seq(const Op& p, const std::vector<Op>& ops) {
    auto v = kb::thd_safe_bool_vector::create(U(p.at(0)), p.at(1) == "1");
    for (auto& o : ops) {
        if (o[0] == "set") v->set(U(o[1]), o[2] == "1");
        else if (o[0] == "cset") v->check_set(U(o[1]), o[2] == "1");
        put(v->size());
        for (size_t i = 0; i < v->size(); i++) {
            bool a = v->get(i), b = (*v)[i], c = v->raw()[i];
            put(a == b && b == c ? (int)a : 9);
        }
        flush_line();
    }
}

// ---------------------------------------------------------------- index map
template <typename T> static void show_map(kb::vmap<T>& m) {
    put(m.size()); put((int)m.empty()); put((int)m.keyless()); put(m.keycount());
    const kb::vmap<T>& cm = m;
    for (size_t i = 0; i < m.size(); i++) put((long)cm[i]);
    put("H");
    for (size_t i = 0; i < m.size() + 2; i++) put((int)m.has_key(i));
    std::vector<size_t> keys; m.get_keys(keys);
    put("K"); put(keys.size());
    for (auto x : keys) put(x);
    auto it = m.get_iterator();
    put("I");
    size_t steps = 0;
    while (it.has_next() && steps++ < m.size() + 3) { auto e = it.next(); put(e.first); put((long)e.second); }
    put("X");
    try { (void)cm[m.size()]; put("noexc"); } catch (std::exception&) { put("exc"); }
}
static void vmap_seq(const Op& p, const std::vector<Op>& ops) {
    typedef long T;
    std::unique_ptr<kb::vmap<T>> m(p.at(0) == "def" ? new kb::vmap<T>()
                                   : new kb::vmap<T>(U(p.at(1)), (T)atol(p.at(2).c_str())));
    for (auto& o : ops) {
        if (o[0] == "put") (*m)[U(o[1])] = atol(o[2].c_str());
        else if (o[0] == "putat") m->at(U(o[1])) = atol(o[2].c_str());
        else if (o[0] == "erase") m->erase(U(o[1]));
        else if (o[0] == "clear") m->clear();
        else if (o[0] == "cap") m->set_capacity(U(o[1]));
        show_map(*m);
        flush_line();
    }
}

// ---------------------------------------------------------------- compaction
static void compact_seq(const Op&, const std::vector<Op>& ops) {
    for (auto& o : ops) {
        std::vector<llong_t> c;
        for (size_t i = 1; i < o.size(); i++) c.push_back(atol(o[i].c_str()));
        std::vector<size_t> r; std::unordered_map<unsigned, unsigned> m;
        util::compactor::remap(c, r, m);
        put(r.size());
        for (auto v : r) put(v);
        put(m.size());
        for (size_t i = 0; i < c.size(); i++) if (m.count(i)) { put(i); put(m[i]); }
        flush_line();
    }
}

// ---------------------------------------------------------------- centre distances
static void dm_seq(const Op& p, const std::vector<Op>& ops) {
    unsigned k = U(p.at(0)), d = U(p.at(1));
    auto dm = prune::dist_matrix::create(k);
    auto cl = kb::prune_clusters::create(k, d);
    for (auto& o : ops) {
        if (o[0] == "move") { auto v = vec(o, 2, d); cl->set_mean(&v[0], (int)U(o[1])); }
        else if (o[0] == "all") { auto v = vec(o, 1, d * k); cl->set_mean(&v[0]); }
        else if (o[0] == "compute") {
            dm->compute_dist(cl, d);
            for (unsigned i = 0; i < k; i++)
                for (unsigned j = 0; j < k; j++)
                    if (i != j) { putd(dm->get(i, j)); putd(dm->pw_get(i, j)); }
            for (unsigned i = 0; i < k; i++) { putd(cl->get_s_val(i)); putd(dm->get_min_dist(i)); }
        } else if (o[0] == "pair") {          // o[1]: metric, then k*d data
            auto v = vec(o, 2, d * k);
            dm->compute_pairwise_dist(&v[0], d, o[1] == "taxi" ? kb::dist_t::TAXI : kb::dist_t::EUCL);
            for (unsigned i = 0; i < k; i++)
                for (unsigned j = 0; j < k; j++)
                    if (i != j) { putd(dm->get(i, j)); putd(dm->pw_get(i, j)); } else putd(dm->pw_get(i, j));
        }
        flush_line();
    }
}

// ---------------------------------------------------------------- task queue
static void queue_seq(const Op& p, const std::vector<Op>& ops) {
    unsigned start = U(p.at(0)), nrow = U(p.at(1)), ncol = U(p.at(2));
    std::vector<double> data((size_t)nrow * ncol + 1);
    for (size_t r = 0; r < nrow; r++) for (unsigned c = 0; c < ncol; c++) data[r * ncol + c] = (double)(start + r);
    // stale memory where the queue will live, as after a reused allocation
    void* mem = ::operator new(sizeof(task_queue)); memset(mem, 0xff, sizeof(task_queue));
    task_queue* q;
    if (p.at(3) == "full") q = new (mem) task_queue(&data[0], start, nrow, ncol);
    else {
        q = new (mem) task_queue();
        q->set_start_rid(start); q->set_nrow(nrow); q->set_ncol(ncol); q->set_data_ptr(&data[0]);
        q->reset();
    }
    for (auto& o : ops) {
        if (o[0] == "reset") q->reset();
        else if (o[0] == "take") {
            bool h = q->has_task();
            put((int)h);
            if (h) {
                task* t = q->get_task();
                put(t->get_start_rid()); put(t->get_nrow());
                // the row the task's data begins with and the one it ends with
                put((long)t->get_data_ptr()[0]);
                put(t->get_nrow() && t->get_start_rid() + (size_t)t->get_nrow() <= (size_t)start + nrow
                        ? (long)t->get_data_ptr()[((size_t)t->get_nrow() - 1) * ncol + ncol - 1] : -1L);
                delete t;
            }
        }
        put((int)q->has_task());
        flush_line();
    }
    q->~task_queue(); ::operator delete(mem);
}

// ---------------------------------------------------------------- matrices
typedef kb::dense_matrix<double> DM;
static void showm(DM* m) {
    put("M"); put(m->get_nrow()); put(m->get_ncol());
    for (size_t r = 0; r < m->get_nrow(); r++)
        for (size_t c = 0; c < m->get_ncol(); c++) putd(m->get(r, c));
}
template <typename T> static void showv(const std::vector<T>& v) {
    put("V"); put(v.size());
    for (auto x : v) putd((double)x);
}
static void mat_seq(const Op& p, const std::vector<Op>& ops) {
    std::vector<DM*> R(3);
    for (auto& m : R) m = DM::create();
    for (auto& o : ops) {
        const std::string& f = o[0];
        auto N = [&](size_t i) { return (size_t)U(o.at(i)); };
        auto tail = [&](size_t i) { return vec(o, i, o.size() - i); };
        DM* a = o.size() > 1 ? R.at(N(1)) : NULL;
        try {
            if (f == "load" || f == "loadz") {        // load a nrow ncol values
                DM* m = DM::create(N(2), N(3), f == "loadz");
                if (f == "load") { auto v = tail(4); m->set(&v[0]); }
                delete a; R[N(1)] = a = m; showm(a);
            } else if (f == "clone") { DM* m = DM::create(R.at(N(2))); delete a; R[N(1)] = m; showm(m); }
            else if (f == "copy") { a->copy_from(R.at(N(2))); showm(a); }
            else if (f == "setrow") { auto v = tail(3); a->set_row(&v[0], N(2)); showm(a); }
            else if (f == "put") { a->set(N(2), N(3), atof(o[4].c_str())); showm(a); }
            else if (f == "bump") { a->peq(N(2), N(3), atof(o[4].c_str())); showm(a); }
            else if (f == "zero") { a->zero(); showm(a); }
            else if (f == "mul" || f == "add" || f == "sub") {      // a := b op c
                DM *b = R.at(N(2)), *c = R.at(N(3));
                DM* m = f == "mul" ? (*b) * (*c) : f == "add" ? (*b) + (*c) : (*b) - (*c);
                delete a; R[N(1)] = m; showm(m);
            } else if (f == "pluseq") { *a += *R.at(N(2)); showm(a); }
            else if (f == "subv") { auto v = tail(3); DM* m = (*R.at(N(2))) - v; delete a; R[N(1)] = m; showm(m); }
            else if (f == "divs") { *a /= atof(o[2].c_str()); showm(a); }
            else if (f == "divv") { auto v = tail(2); *a /= v; showm(a); }
            else if (f == "diveq") { auto v = tail(3); a->div_eq(v, N(2)); showm(a); }
            else if (f == "divpow") { auto v = tail(4); a->div_eq_pow(v, N(2), N(3)); showm(a); }
            else if (f == "pow") { a->pow_eq(atof(o[2].c_str())); showm(a); }
            else if (f == "mean") { std::vector<double> v(N(3), 7); a->mean(v, N(2)); showv(v); }
            else if (f == "sumx") { std::vector<double> v(N(3), 7); a->sum(N(2), v); showv(v); }
            else if (f == "sum") { put("S"); putd(a->sum()); }
            else if (f == "fro") { put("S"); putd(a->frobenius_norm()); }
            else if (f == "eq") { put("S"); put((int)(*a == *R.at(N(2)))); }
            else if (f == "argmax") { std::vector<unsigned> v(N(3), 7); a->argmax(N(2), v); showv(v); }
            else if (f == "det") { put("S"); putd(kb::linalg::determinant(a->as_pointer(), a->get_nrow(), a->get_nrow())); }
            else if (f == "adj") { DM* m = kb::linalg::adjoint(R.at(N(2))); delete a; R[N(1)] = m; showm(m); }
            else if (f == "inv") {
                std::vector<double> v(a->get_nrow() * a->get_nrow(), 7);
                bool ok = kb::linalg::inverse(a->as_pointer(), &v[0], a->get_nrow());
                if (ok) showv(v); else { put("V"); put(0); }
            } else if (f == "vdiff") { auto v = tail(3); size_t h = v.size() / 2; std::vector<double> r(N(2) ? h : 0, 7);
                kb::linalg::vdiff(&v[0], &v[h], h, r); showv(r); }
            else if (f == "vpeq") { auto v = tail(2); size_t h = v.size() / 2; kb::linalg::peq(&v[0], &v[h], h); v.resize(h); showv(v); }
            else if (f == "vfro") { auto v = tail(2); put("S"); putd(kb::linalg::frobenius_norm(&v[0], v.size())); }
            else if (f == "vdot") { auto v = tail(2); size_t h = v.size() / 2; std::vector<double> x(v.begin(), v.begin() + h), y(v.begin() + h, v.end());
                double r = kb::linalg::dot(&v[0], &v[h], h), q = kb::linalg::dot(x, y);
                put("S"); putd(r == q ? r : 1e300); }
            else if (f == "vmat") { auto v = tail(2); std::vector<double> r(3, 7);
                kb::linalg::dot(&v[0], a->as_pointer(), a->get_nrow(), a->get_ncol(), r); showv(r); }
            else if (f == "vtimes") { auto v = tail(4); std::vector<double> r(N(3) ? v.size() : 0, 7); kb::linalg::scale(v, atof(o[2].c_str()), r); showv(r); }
            else if (f == "zscore") { auto v = tail(3); double den = atof(o[2].c_str()); for (auto& x : v) x /= den;
                kb::linalg::scale(&v[0], v.size()); showv(v); }
            else _exit(9);
        } catch (std::exception& e) { line.str(""); put("X"); }
        flush_line();
    }
    for (auto m : R) delete m;
}

int main(int argc, char** argv) {
    out = fopen(argv[1], "w");
    int dn = open("/dev/null", O_WRONLY);
    dup2(dn, 1);
    std::string l;
    while (std::getline(std::cin, l)) {
        std::istringstream is(l);
        std::string kind, t;
        std::vector<Op> parts(1);
        is >> sid >> kind;
        while (is >> t) { if (t == ";") parts.push_back(Op()); else parts.back().push_back(t); }
        Op params = parts[0];
        std::vector<Op> ops(parts.begin() + 1, parts.end());
        fprintf(out, "S %s\n", sid.c_str()); fflush(out);
        if (kind == "clusters") clusters_seq(params, ops);
        else if (kind == "ids") ids_seq(params, ops);
        else if (kind == "flags") flags_seq(params, ops);
        else if (kind == "vmap") vmap_seq(params, ops);
        else if (kind == "compact") compact_seq(params, ops);
        else if (kind == "dm") dm_seq(params, ops);
        else if (kind == "mat") mat_seq(params, ops);
        else if (kind == "queue") queue_seq(params, ops);
        else _exit(8);
        fprintf(out, "E %s\n", sid.c_str()); fflush(out);
    }
    fclose(out);
    _exit(0);
}
