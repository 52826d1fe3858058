#include "exec.hpp"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <cstdlib>
#include <poll.h>
#include <signal.h>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <sys/wait.h>
#include <new>
using namespace symx;

static Memory* gMem = nullptr;
// Memory of the program under analysis may be released by native library code (string buffers, stream buffers).
void operator delete(void* p) noexcept
{
    if ((uint64_t) p >= Memory::BASE && (uint64_t) p < Memory::BASE + Memory::SIZE) { if (gMem) if (Alloc* a = gMem->find((uint64_t) p)) a->live = false; return; }
    free(p);
}
void operator delete(void* p, std::size_t) noexcept { operator delete(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete[](void* p, std::size_t) noexcept { operator delete(p); }
void* operator new(std::size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](std::size_t n) { return operator new(n); }

struct Job { int entry; Prefix p; };

static void putU(std::string& s, uint64_t v) { s.append((char*) &v, 8); }
static uint64_t getU(const char*& p) { uint64_t v; memcpy(&v, p, 8); p += 8; return v; }
static void ser(std::string& s, const Job& j)
{
    putU(s, j.entry); putU(s, j.p.size());
    for (auto& d : j.p) { s += (char) ((d.t << 2) | (d.choice << 1) | (int) d.forced); if (d.t == Decision::Eq) putU(s, d.val); }
}
static Job deser(const char*& p)
{
    Job j; j.entry = (int) getU(p); uint64_t n = getU(p); j.p.reserve(n);
    for (uint64_t i = 0; i < n; ++i) {
        unsigned char c = *p++; Decision d; d.t = (Decision::T) (c >> 2); d.choice = (c >> 1) & 1; d.forced = c & 1; d.val = d.t == Decision::Eq ? getU(p) : 0;
        j.p.push_back(d);
    }
    return j;
}
static bool wr(int fd, const void* b, size_t n) { const char* p = (const char*) b; while (n) { ssize_t k = write(fd, p, n); if (k <= 0) { if (k < 0 && errno == EINTR) continue; return false; } p += k; n -= k; } return true; }
static bool rd(int fd, void* b, size_t n) { char* p = (char*) b; while (n) { ssize_t k = read(fd, p, n); if (k <= 0) { if (k < 0 && errno == EINTR) continue; return false; } p += k; n -= k; } return true; }
static bool sendMsg(int fd, const std::string& s) { uint64_t n = s.size(); return wr(fd, &n, 8) && wr(fd, s.data(), n); }
static bool recvMsg(int fd, std::string& s) { uint64_t n; if (!rd(fd, &n, 8)) return false; s.resize(n); return rd(fd, &s[0], n); }

static std::string js(const std::string& s)
{
    std::string r = "\"";
    for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char t[8]; snprintf(t, sizeof t, "\\u%04x", c); r += t; } else r += c; }
    return r + "\"";
}
template <class M> static std::string jm(const M& m) { std::string r = "{"; bool f = true; for (auto& kv : m) { if (!f) r += ","; f = false; r += js(kv.first) + ":" + std::to_string(kv.second); } return r + "}"; }

struct Conf {
    std::string bc, out; std::vector<std::string> entries; int workers = 8; double time = 60, grace = 60; Options opt; unsigned maxViol = 12; unsigned samples = 6; uint64_t maxPaths = 0;
};

static void workerMain(int fd, llvm::Module& mod, const Conf& cf, double deadline)
{
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    Exec* ex = nullptr;
    try { ex = new Exec(mod, cf.opt); } catch (std::exception& e) { fprintf(stderr, "symx worker: %s\n", e.what()); _exit(3); }
    gMem = &ex->M; ex->deadline = deadline;
    std::vector<FnInfo*> ent;
    for (auto& n : cf.entries) ent.push_back(ex->fn(n));
    struct ES { uint64_t paths = 0, done = 0, assumed = 0, infeasible = 0, unsupported = 0, limit = 0, violating = 0; };
    std::vector<ES> es(ent.size());
    std::map<std::string, uint64_t> reasons;
    std::vector<std::pair<int, Violation>> viol; std::map<std::string, unsigned> violCount;
    std::vector<std::string> samples; std::map<int, unsigned> nsample; uint64_t doneSeen = 0;
    std::string msg;
    while (recvMsg(fd, msg)) {
        const char* p = msg.data();
        uint64_t cmd = getU(p);
        if (cmd == 0) break;
        double slice = (double) getU(p) / 1000.0;
        std::vector<Job> local; local.push_back(deser(p));
        double t0 = nowSec(); uint64_t np = 0, nv0 = viol.size();
        while (!local.empty()) {
            Job j = std::move(local.back()); local.pop_back();
            std::vector<Prefix> nj;
            ex->violations.clear();
            PathEnd r = ex->run(ent[j.entry], j.p, nj);
            for (auto& q : nj) local.push_back(Job{ j.entry, std::move(q) });
            ++np; ES& e = es[j.entry]; ++e.paths;
            switch (r.r) {
            case PathEnd::Done: ++e.done; break; case PathEnd::Assume: ++e.assumed; break; case PathEnd::Infeasible: ++e.infeasible; break;
            case PathEnd::Unsupported: ++e.unsupported; ++reasons[r.why]; break; case PathEnd::Limit: ++e.limit; ++reasons["limit: " + r.why]; break;
            case PathEnd::Violation: ++e.violating; break;
            }
            if ((r.r == PathEnd::Unsupported || r.r == PathEnd::Limit) && violCount["unfinished" + std::to_string(j.entry) + r.why]++ < 2 && ex->fillModel()) {
                // not decided here: a concrete member of the path is handed to the driver, which runs it to completion natively
                Violation v{ r.why, "unfinished", "", "", {} };
                for (auto& kv : ex->modelStrings()) v.inputs.push_back(kv);
                viol.push_back({ j.entry, v });
            }
            for (auto& v : ex->violations) if (violCount[v.kind + v.label]++ < 4) viol.push_back({ j.entry, v });
            if (r.r == PathEnd::Done) {
                ++doneSeen;
                bool take = nsample[j.entry] < cf.samples && (nsample[j.entry] < 2 || doneSeen % 7 == 0);
                if (take && ex->fillModel()) {
                    ++nsample[j.entry];
                    std::string s = "{\"entry\":" + js(cf.entries[j.entry]) + ",\"inputs\":{"; bool f = true;
                    for (auto& kv : ex->modelStrings()) { if (!f) s += ","; f = false; s += js(kv.first) + ":" + js(kv.second); }
                    s += "},\"observed\":["; f = true;
                    for (size_t i = 0; i < ex->observed.size(); ++i) { if (!f) s += ","; f = false; s += "[" + js(ex->observed[i].first) + "," + js(ex->evalObserved(ex->observed[i].second, ex->observedType[i])) + "]"; }
                    s += "]}"; samples.push_back(s);
                }
            }
            double t = nowSec();
            if (t - t0 > slice || t > deadline) break;
        }
        std::string rep; putU(rep, np); putU(rep, viol.size() - nv0); putU(rep, local.size());
        for (auto& j : local) ser(rep, j);
        if (!sendMsg(fd, rep)) _exit(1);
    }
    // final report
    std::string o = "{";
    auto& S = ex->S.st;
    auto kv = [&](const char* k, uint64_t v) { o += std::string(o.size() > 1 ? "," : "") + js(k) + ":" + std::to_string(v); };
    kv("instrs", ex->instrs); kv("asserts", ex->asserts); kv("asserts_symbolic", ex->assertsSym); kv("asserts_folded", ex->assertsFolded); kv("asserts_discharged", ex->assertsDischarged); kv("asserts_unknown", ex->assertsUnknown);
    kv("branch_unknown", ex->branchUnknown); kv("decisions", ex->decisions); kv("forks", ex->forks); kv("tol_used", ex->tolUsed); kv("coeff_rounded", ex->rounded); kv("interval_decided", S.ivDecided);
    kv("queries", S.queries); kv("sat", S.sat); kv("unsat", S.unsat); kv("unknown", S.unknown); kv("cache_hits", S.cacheHits); kv("model_hits", S.modelHits); kv("guess_hits", S.guessHits);
    char t[128]; snprintf(t, sizeof t, ",\"solver_time\":%.3f,\"max_query\":%.3f", S.time, S.maxTime); o += t;
    o += ",\"labels\":" + jm(ex->labels) + ",\"asserts_by_label\":" + jm(ex->assertsByLabel) + ",\"unknown_by_label\":" + jm(ex->unknownByLabel) + ",\"native\":" + jm(ex->nativeCalls) + ",\"reasons\":" + jm(reasons);
    o += ",\"entries\":{";
    for (size_t i = 0; i < es.size(); ++i) {
        auto& e = es[i];
        o += (i ? "," : "") + js(cf.entries[i]) + ":{\"paths\":" + std::to_string(e.paths) + ",\"done\":" + std::to_string(e.done) + ",\"assume_end\":" + std::to_string(e.assumed) + ",\"infeasible\":" + std::to_string(e.infeasible)
            + ",\"unsupported\":" + std::to_string(e.unsupported) + ",\"limit\":" + std::to_string(e.limit) + ",\"violating\":" + std::to_string(e.violating) + "}";
    }
    o += "},\"functions\":{"; bool f = true;
    for (auto* fi : ex->usedFns) { if (!f) o += ","; f = false; o += js(fi->F->getName().str()) + ":" + std::to_string(fi->calls); }
    o += "},\"violations\":["; f = true;
    for (auto& pv : viol) {
        auto& v = pv.second;
        if (!f) o += ","; f = false;
        o += "{\"entry\":" + js(cf.entries[pv.first]) + ",\"label\":" + js(v.label) + ",\"kind\":" + js(v.kind) + ",\"where\":" + js(v.where) + ",\"detail\":" + js(v.detail) + ",\"inputs\":{";
        bool g = true; for (auto& q : v.inputs) { if (!g) o += ","; g = false; o += js(q.first) + ":" + js(q.second); }
        o += "}}";
    }
    o += "],\"samples\":["; f = true;
    for (auto& s : samples) { if (!f) o += ","; f = false; o += s; }
    o += "]}";
    sendMsg(fd, o);
    _exit(0);
}

int main(int argc, char** argv)
{
    Conf cf; std::string a;
    for (int i = 1; i < argc; ++i) {
        a = argv[i];
        auto nx = [&]() -> const char* { if (i + 1 >= argc) exit(2); return argv[++i]; };
        if (a == "--bc") cf.bc = nx(); else if (a == "--entry") cf.entries.push_back(nx()); else if (a == "--workers") cf.workers = atoi(nx());
        else if (a == "--time") cf.time = atof(nx()); else if (a == "--out") cf.out = nx(); else if (a == "--fp") cf.opt.fpMode = true;
        else if (a == "--bt") cf.opt.branchTimeoutMs = atoi(nx()); else if (a == "--at") cf.opt.assertTimeoutMs = atoi(nx());
        else if (a == "--dump") cf.opt.dumpDir = nx(); else if (a == "--dump-every") cf.opt.dumpEvery = atoi(nx()); else if (a == "--path-time") cf.opt.pathTime = atof(nx());
        else if (a == "--grace") cf.grace = atof(nx()); else if (a == "--max-viol") cf.maxViol = atoi(nx()); else if (a == "--samples") cf.samples = atoi(nx()); else if (a == "--max-paths") cf.maxPaths = atoll(nx());
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
    }
    signal(SIGPIPE, SIG_IGN);
    llvm::LLVMContext lc; llvm::SMDiagnostic err;
    auto mod = llvm::parseIRFile(cf.bc, err, lc);
    if (!mod) { fprintf(stderr, "cannot read %s\n", cf.bc.c_str()); return 2; }
    for (auto& e : cf.entries) { auto* F = mod->getFunction(e); if (!F || F->isDeclaration()) { fprintf(stderr, "no entry %s\n", e.c_str()); return 2; } }
    const double start = nowSec(), deadline = start + cf.time;
    struct W { pid_t pid; int fd; bool busy; bool alive; Job cur; double since; };
    std::vector<W> ws;
    auto spawn = [&](W& w) {
        int sv[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) { perror("socketpair"); exit(2); }
        pid_t pid = fork();
        if (pid == 0) { close(sv[0]); for (auto& o : ws) if (o.alive && o.fd >= 0) close(o.fd); workerMain(sv[1], *mod, cf, deadline); _exit(0); }
        close(sv[1]); w.pid = pid; w.fd = sv[0]; w.busy = false; w.alive = true;
    };
    ws.reserve(64);
    for (int i = 0; i < cf.workers; ++i) { W w{}; w.alive = false; w.fd = -1; ws.push_back(w); spawn(ws.back()); }
    std::vector<std::deque<Job>> q(cf.entries.size());
    for (size_t i = 0; i < cf.entries.size(); ++i) q[i].push_back(Job{ (int) i, {} });
    double stopAt = deadline;
    std::vector<uint64_t> nviol(cf.entries.size(), 0); std::vector<char> capped(cf.entries.size(), 0);      // an entry with many violating paths is not explored further
    uint64_t crashes = 0, paths = 0; size_t rr = 0; bool stop = false; std::vector<std::string> crashEntries;
    std::vector<std::string> reports;
    uint64_t tick = 0;
    for (;;) {
        size_t queued = 0; for (size_t i = 0; i < q.size(); ++i) if (!capped[i]) queued += q[i].size();
        size_t busy = 0; for (auto& w : ws) busy += w.busy;
        bool late = nowSec() > deadline; if (nowSec() > stopAt) stop = true;
        if (!late && !stop) {
            for (auto& w : ws) if (w.alive && !w.busy && queued) {
                for (size_t k = 0; k < q.size(); ++k) { rr = (rr + 1) % q.size(); if (!capped[rr] && !q[rr].empty()) break; }
                Job j; auto& d = q[rr];
                if (d.size() > 5000 || (tick++ % 4) == 0) { j = std::move(d.back()); d.pop_back(); } else { j = std::move(d.front()); d.pop_front(); }
                --queued;
                std::string m; putU(m, 1); putU(m, queued > ws.size() * 2 ? 500 : 60); ser(m, j);
                w.cur = std::move(j);
                sendMsg(w.fd, m); w.busy = true; w.since = nowSec(); ++busy;
            }
        }
        if (busy == 0 && (queued == 0 || late || stop)) break;
        std::vector<pollfd> pf; std::vector<W*> pw;
        for (auto& w : ws) if (w.alive && w.busy) { pf.push_back({ w.fd, POLLIN, 0 }); pw.push_back(&w); }
        poll(pf.data(), pf.size(), 200);
        for (size_t i = 0; i < pf.size(); ++i) {
            W& w = *pw[i];
            if (pf[i].revents) {
                std::string m;
                if (!recvMsg(w.fd, m)) {
                    ++crashes; crashEntries.push_back(cf.entries[w.cur.entry]);
                    close(w.fd); w.alive = false; w.busy = false; int st; waitpid(w.pid, &st, 0);
                    if (crashes < 24 && !late) spawn(w);
                    continue;
                }
                const char* p = m.data(); paths += getU(p); nviol[w.cur.entry] += getU(p); uint64_t n = getU(p);
                for (uint64_t k = 0; k < n; ++k) { Job j = deser(p); q[j.entry].push_back(std::move(j)); }
                w.busy = false;
                if (nviol[w.cur.entry] >= cf.maxViol && !capped[w.cur.entry]) { capped[w.cur.entry] = 1; if (nowSec() + cf.grace < stopAt) stopAt = nowSec() + cf.grace; }
                if (cf.maxPaths && paths >= cf.maxPaths) stop = true;
            } else if (nowSec() > deadline + 45) {
                ++crashes; crashEntries.push_back(cf.entries[w.cur.entry] + " (hung)"); kill(w.pid, SIGKILL); int st; waitpid(w.pid, &st, 0); close(w.fd); w.alive = false; w.busy = false;
            }
        }
    }
    for (auto& w : ws) if (w.alive) {
        std::string m; putU(m, 0); sendMsg(w.fd, m);
        std::string r; if (recvMsg(w.fd, r)) reports.push_back(r);
        close(w.fd); int st; waitpid(w.pid, &st, 0);
    }
    std::string o = "{\"wall\":" + std::to_string(nowSec() - start) + ",\"crashes\":" + std::to_string(crashes) + ",\"stopped\":" + (stop ? "true" : "false") + ",\"crash_entries\":[";
    for (size_t i = 0; i < crashEntries.size(); ++i) o += (i ? "," : "") + js(crashEntries[i]);
    o += "],\"remaining\":{";
    for (size_t i = 0; i < q.size(); ++i) o += (i ? "," : "") + js(cf.entries[i]) + ":" + std::to_string(q[i].size());
    o += "},\"workers\":[";
    for (size_t i = 0; i < reports.size(); ++i) o += (i ? ",\n" : "") + reports[i];
    o += "]}\n";
    FILE* f = cf.out.empty() ? stdout : fopen(cf.out.c_str(), "w");
    fputs(o.c_str(), f); if (f != stdout) fclose(f);
    return 0;
}
