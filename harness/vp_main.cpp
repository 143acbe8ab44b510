#include "vp.h"
#include <algorithm>
#include <chrono>
#include <csignal>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

namespace vp {

std::vector<Test> & registry() { static std::vector<Test> r; return r; }

namespace {
using clk = std::chrono::steady_clock;
double now() { return std::chrono::duration<double>(clk::now().time_since_epoch()).count(); }

constexpr std::size_t MAXC = 200000;
struct Shared {
    volatile uint64_t cases, heartbeat;
    volatile uint64_t n;            // number of choices in the failing case
    volatile int status;            // 0 running, 1 done, 2 property failure (choices valid)
    uint64_t seed;                  // rng seed of the case being executed
    char msg[4096];
    uint64_t choices[MAXC];
};

uint64_t mix(uint64_t a, uint64_t b) { uint64_t z = a * 0x9E3779B97F4A7C15ull + b + 0x632BE59BD9B4E019ull; z ^= z >> 30; z *= 0xBF58476D1CE4E5B9ull; z ^= z >> 27; z *= 0x94D049BB133111EBull; z ^= z >> 31; return z; }
uint64_t hash_str(const std::string & s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }

std::string json_escape(const std::string & s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
        else if (c == '\n') o += "\\n";
        else if (c < 0x20 || c > 0x7e) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += char(c);
    }
    return o;
}

enum Outcome { PASS, DISCARDED, FAILED };
Outcome run_case(const Test & t, Ctx & c, std::string & msg) {
    try { t.fn(c); return PASS; }
    catch (const Discard &) { return DISCARDED; }
    catch (const Failure & f) { msg = f.msg; return FAILED; }
    catch (const std::exception & e) { msg = std::string("unexpected exception: ") + e.what(); return FAILED; }
    catch (...) { msg = "unexpected exception of unknown type"; return FAILED; }
}

struct Result {
    uint64_t cases = 0, nontrivial = 0, discarded = 0;
    std::vector<uint64_t> hashes;     // hashes of distinct nontrivial cases
    std::map<std::string, uint64_t> labels;
    std::map<std::string, std::string> known;
    std::vector<std::string> samples;
};

uint64_t hash_choices(const std::vector<uint64_t> & v) { uint64_t h = v.size(); for (auto x : v) h = mix(h, x); return h; }

void save_shared(Shared * sh, const std::vector<uint64_t> & c, const std::string & msg) {
    const std::size_t n = std::min(c.size(), MAXC);
    std::copy(c.begin(), c.begin() + n, sh->choices);
    sh->n = n;
    snprintf(sh->msg, sizeof sh->msg, "%s", msg.c_str());
    sh->status = 2;
}

// body of a forked worker
void worker(const Test & t, Shared * sh, uint64_t seed, uint64_t cases, double deadline, const std::string & outfile) {
    Result r;
    std::unordered_set<uint64_t> seen;
    for (uint64_t i = 0; i < cases; ++i) {
        if (now() > deadline) break;
        const uint64_t s = mix(seed, i);
        sh->seed = s;
        sh->heartbeat = sh->heartbeat + 1;
        Ctx c(s);
        c.describing = r.samples.size() < 2;
        std::string msg;
        const Outcome o = run_case(t, c, msg);
        if (o == FAILED) { save_shared(sh, c.recorded(), msg); _exit(3); }
        ++r.cases;
        for (const auto & k : c.known()) r.known.insert(k);
        if (o == DISCARDED) { ++r.discarded; continue; }
        for (const auto & l : c.labels()) ++r.labels[l];
        if (c.is_nontrivial()) {
            ++r.nontrivial;
            if (seen.size() < 2000000) seen.insert(hash_choices(c.recorded()));
            if (c.describing) r.samples.push_back(c.desc.str());
        }
    }
    std::ofstream f(outfile);
    f << "cases " << r.cases << "\nnontrivial " << r.nontrivial << "\ndiscarded " << r.discarded << "\n";
    f << "hashes " << seen.size(); for (auto h : seen) f << ' ' << h; f << "\n";
    for (auto & l : r.labels) f << "label " << l.second << ' ' << l.first << "\n";
    for (auto & l : r.known) { std::string w = l.second; std::replace(w.begin(), w.end(), '\n', ' '); f << "known " << l.first << ' ' << w << "\n"; }
    for (auto & s : r.samples) { std::string w = s; std::replace(w.begin(), w.end(), '\n', ' '); if (w.size() > 600) w = w.substr(0, 600) + "..."; f << "sample " << w << "\n"; }
    f.close();
    sh->status = 1;
    _exit(0);
}

// Execute one choice sequence in a child. Returns true when the property fails on it (failure, crash or hang).
bool fails(const Test & t, Shared * sh, const std::vector<uint64_t> & in, double timeout, std::vector<uint64_t> & out, std::string & msg, bool quiet) {
    sh->status = 0; sh->n = 0; sh->msg[0] = 0;
    fflush(nullptr);
    const pid_t p = fork();
    if (p == 0) {
        if (quiet) { int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); dup2(fd, 2); }
        Ctx c(in);
        std::string m;
        const Outcome o = run_case(t, c, m);
        if (o == FAILED) { save_shared(sh, c.recorded(), m); _exit(3); }
        _exit(0);
    }
    const double t0 = now();
    int st = 0;
    bool hang = false;
    while (true) {
        const pid_t r = waitpid(p, &st, WNOHANG);
        if (r == p) break;
        if (now() - t0 > timeout) { kill(p, SIGKILL); waitpid(p, &st, 0); hang = true; break; }
        usleep(200);
    }
    if (hang) { msg = "hang: the operation did not finish within the time limit"; out = in; return true; }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return false;
    if (sh->status == 2) { msg = sh->msg; out.assign(sh->choices, sh->choices + sh->n); return true; }
    msg = WIFSIGNALED(st) ? cat("crash: signal ", WTERMSIG(st)) : cat("crash: exit status ", WEXITSTATUS(st), " (sanitizer report)");
    out = in;
    return true;
}

void shrink(const Test & t, Shared * sh, std::vector<uint64_t> & best, std::string & msg, double budget, double case_timeout) {
    const double t0 = now();
    auto left = [&] { return now() - t0 < budget; };
    auto attempt = [&](const std::vector<uint64_t> & cand) {
        std::vector<uint64_t> out; std::string m;
        if (!left()) return false;
        if (!fails(t, sh, cand, case_timeout, out, m, true)) return false;
        if (out.size() > cand.size()) out = cand;
        auto better = [&](const std::vector<uint64_t> & a, const std::vector<uint64_t> & b) { return a.size() != b.size() ? a.size() < b.size() : a < b; };
        if (!better(out, best) ) return false;
        best = out; msg = m;
        return true;
    };
    bool progress = true;
    while (progress && left()) {
        progress = false;
        for (std::size_t len : {64, 32, 16, 8, 4, 3, 2, 1})
            for (std::size_t i = 0; i + len <= best.size() && left();) {
                auto c = best; c.erase(c.begin() + i, c.begin() + i + len);
                if (attempt(c)) progress = true; else i += (len > 4 ? len / 2 : 1);
            }
        for (std::size_t len : {16, 4, 1})
            for (std::size_t i = 0; i + len <= best.size() && left(); ++i) {
                bool any = false; for (std::size_t j = i; j < i + len; ++j) any |= best[j] != 0;
                if (!any) continue;
                auto c = best; for (std::size_t j = i; j < i + len; ++j) c[j] = 0;
                if (attempt(c)) progress = true;
            }
        for (std::size_t i = 0; i < best.size() && left(); ++i) {
            uint64_t lo = 0;
            for (int k = 0; k < 60 && i < best.size() && best[i] > lo && left(); ++k) {
                auto c = best; c[i] = lo + (best[i] - lo) / 2;
                if (c[i] == best[i]) break;
                if (attempt(c)) progress = true; else lo = c[i] + 1;
            }
        }
    }
}

void write_replay(const std::string & path, const Test & t, const std::vector<uint64_t> & c, const std::string & msg, const std::string & desc) {
    std::ofstream f(path);
    f << "vp-replay 1\ntest " << t.name << "\nchoices " << c.size();
    for (auto x : c) f << ' ' << x;
    f << "\n# " ; for (char ch : msg) f << (ch == '\n' ? ' ' : ch); f << "\n# case: "; for (char ch : desc) f << (ch == '\n' ? ' ' : ch); f << "\n";
}

bool read_replay(const std::string & path, std::string & name, std::vector<uint64_t> & c) {
    std::ifstream f(path);
    std::string w; int v;
    if (!(f >> w >> v) || w != "vp-replay") return false;
    std::size_t n;
    f >> w; f.ignore(1); std::getline(f, name);
    if (!(f >> w >> n)) return false;
    c.resize(n); for (auto & x : c) f >> x;
    return true;
}

std::string describe(const Test & t, const std::vector<uint64_t> & c) {
    // Formatted in a child: the case may crash the process.
    int fd[2]; if (pipe(fd)) return "";
    fflush(nullptr);
    pid_t p = fork();
    if (p == 0) {
        close(fd[0]);
        int dn = open("/dev/null", O_WRONLY); dup2(dn, 1); dup2(dn, 2);
        static Ctx * g = nullptr; static int gfd = fd[1];
        static Ctx cc(c); g = &cc; cc.describing = true;
        auto flush = [] (int) { std::string s = g->desc.str(); if (s.size() > 3000) s.resize(3000); (void) !write(gfd, s.data(), s.size()); _exit(0); };
        for (int sig : {SIGSEGV, SIGABRT, SIGFPE, SIGILL, SIGBUS, SIGALRM}) signal(sig, flush);
        alarm(20);
        std::string m; run_case(t, cc, m);
        flush(0);
    }
    close(fd[1]);
    std::string s; char b[1024]; ssize_t n;
    while ((n = read(fd[0], b, sizeof b)) > 0) s.append(b, n);
    close(fd[0]); waitpid(p, nullptr, 0);
    return s;
}

} // namespace

int main_(int argc, char ** argv) {
    uint64_t seed = 1, cases = 1000; double maxtime = 600, hang = 60; int jobs = 8, shards = 8;
    std::string out = "result.json", replay, replay_dir = ".", only;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto next = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--seed") seed = std::stoull(next());
        else if (a == "--cases") cases = std::stoull(next());
        else if (a == "--maxtime") maxtime = std::stod(next());
        else if (a == "--jobs") jobs = std::stoi(next());
        else if (a == "--shards") shards = std::stoi(next());
        else if (a == "--out") out = next();
        else if (a == "--replay") replay = next();
        else if (a == "--replay-dir") replay_dir = next();
        else if (a == "--only") only = next();
        else if (a == "--list") { for (auto & t : registry()) std::cout << t.name << "\n"; return 0; }
    }
    std::sort(registry().begin(), registry().end(), [](const Test & a, const Test & b) { return a.name < b.name; });
    auto mk = [] { return static_cast<Shared *>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0)); };

    if (!replay.empty()) {
        std::string name; std::vector<uint64_t> c;
        if (!read_replay(replay, name, c)) { std::cerr << "bad replay file\n"; return 2; }
        for (auto & t : registry()) if (t.name == name) {
            Shared * sh = mk(); std::vector<uint64_t> o; std::string m;
            const bool f = fails(t, sh, c, hang, o, m, false);
            std::cout << (f ? "REPLAY fails: " + m : std::string("REPLAY passes")) << "\n";
            std::cout << "case: " << describe(t, c) << "\n";
            return f ? 1 : 0;
        }
        std::cerr << "unknown sub-property " << name << "\n"; return 2;
    }

    struct Job { const Test * t; int shard; uint64_t n; uint64_t seed; };
    std::vector<Job> todo;
    for (auto & t : registry()) {
        if (!only.empty() && t.name.find(only) == std::string::npos) continue;
        const uint64_t total = t.once ? 1 : std::max<uint64_t>(1, uint64_t(double(cases) * t.weight));
        const int k = t.once ? 1 : int(std::min<uint64_t>(shards, std::max<uint64_t>(1, total / 25)));
        for (int s = 0; s < k; ++s) todo.push_back({&t, s, total / k + (uint64_t(s) < total % k ? 1 : 0), mix(mix(seed, hash_str(t.name)), s)});
    }
    struct Running { pid_t p; Job j; Shared * sh; uint64_t hb; double last; std::string file; };
    std::vector<Running> run;
    const double t0 = now(), deadline = t0 + maxtime;
    char tmpl[] = "/tmp/vpXXXXXX"; std::string tmp = mkdtemp(tmpl);
    std::map<std::string, Result> results;
    struct Fail { const Test * t; std::vector<uint64_t> c; std::string msg; };
    std::vector<Fail> failures; std::set<std::string> failed_tests;
    std::size_t nexti = 0;
    while (nexti < todo.size() || !run.empty()) {
        while (int(run.size()) < jobs && nexti < todo.size()) {
            Job j = todo[nexti++];
            if (failed_tests.count(j.t->name)) continue;
            Shared * sh = mk();
            std::string file = tmp + "/" + std::to_string(nexti);
            fflush(nullptr);
            pid_t p = fork();
            if (p == 0) { worker(*j.t, sh, j.seed, j.n, deadline, file); }
            run.push_back({p, j, sh, 0, now(), file});
        }
        usleep(2000);
        for (std::size_t i = 0; i < run.size();) {
            auto & r = run[i];
            int st; bool finished = false, hung = false;
            if (waitpid(r.p, &st, WNOHANG) == r.p) finished = true;
            else if (r.sh->heartbeat != r.hb) { r.hb = r.sh->heartbeat; r.last = now(); }
            else if (now() - r.last > hang) { kill(r.p, SIGKILL); waitpid(r.p, &st, 0); finished = hung = true; }
            if (!finished) { ++i; continue; }
            if (!hung && WIFEXITED(st) && WEXITSTATUS(st) == 0 && r.sh->status == 1) {
                std::ifstream f(r.file); std::string k; auto & res = results[r.j.t->name];
                while (f >> k) {
                    if (k == "cases") { uint64_t v; f >> v; res.cases += v; }
                    else if (k == "nontrivial") { uint64_t v; f >> v; res.nontrivial += v; }
                    else if (k == "discarded") { uint64_t v; f >> v; res.discarded += v; }
                    else if (k == "hashes") { std::size_t n; f >> n; for (std::size_t q = 0; q < n; ++q) { uint64_t h; f >> h; res.hashes.push_back(h); } }
                    else if (k == "label") { uint64_t v; f >> v; f.ignore(1); std::string l; std::getline(f, l); res.labels[l] += v; }
                    else if (k == "known") { std::string key, w; f >> key; f.ignore(1); std::getline(f, w); res.known[key] = w; }
                    else if (k == "sample") { f.ignore(1); std::string l; std::getline(f, l); res.samples.push_back(l); }
                }
            } else {
                failed_tests.insert(r.j.t->name);
                Fail fl; fl.t = r.j.t;
                if (!hung && r.sh->status == 2) { fl.c.assign(r.sh->choices, r.sh->choices + r.sh->n); fl.msg = r.sh->msg; }
                else {
                    // crash or hang: recover the choices by re-running the generator with the seed of the case in a child
                    // that records the choices through shared memory as they are drawn.
                    fl.msg = hung ? "hang" : "crash";
                    Shared * sh = mk(); fflush(nullptr);
                    pid_t p = fork();
                    if (p == 0) {
                        int dn = open("/dev/null", O_WRONLY); dup2(dn, 1); dup2(dn, 2);
                        static Ctx * g; static Shared * gs = sh; static Ctx cc(r.sh->seed); g = &cc;
                        auto flush = [](int) { save_shared(gs, g->recorded(), "crash or hang"); _exit(3); };
                        for (int sig : {SIGSEGV, SIGABRT, SIGFPE, SIGILL, SIGBUS, SIGALRM}) signal(sig, flush);
                        alarm(hung ? 15 : 60);
                        std::string m; run_case(*r.j.t, cc, m);
                        flush(0);
                    }
                    int s2; waitpid(p, &s2, 0);
                    if (sh->status == 2) fl.c.assign(sh->choices, sh->choices + sh->n);
                    munmap(sh, sizeof(Shared));
                }
                bool dup = false; for (auto & q : failures) dup |= q.t == fl.t;
                if (!dup) failures.push_back(fl);
            }
            munmap(r.sh, sizeof(Shared));
            run.erase(run.begin() + i);
        }
    }

    // Shrink and confirm
    Shared * sh = mk();
    std::ostringstream js;
    js << "{\"violations\":[";
    bool first = true; int shrunk = 0;
    for (auto & f : failures) {
        std::vector<uint64_t> o; std::string m = f.msg;
        const bool h = f.msg.rfind("hang", 0) == 0;
        const bool confirmed = fails(*f.t, sh, f.c, h ? hang : hang, o, m, true);
        if (confirmed) { f.c = o; f.msg = m; }
        if (confirmed && shrunk < 3) { ++shrunk; shrink(*f.t, sh, f.c, f.msg, h ? 60 : 40, h ? 5 : 20); }
        std::string nm = f.t->name; for (auto & ch : nm) if (!isalnum((unsigned char) ch) && ch != '_' && ch != '-') ch = '_';
        const std::string path = replay_dir + "/" + nm + ".replay";
        write_replay(path, *f.t, f.c, f.msg, describe(*f.t, f.c));
        js << (first ? "" : ",") << "{\"test\":\"" << json_escape(f.t->name) << "\",\"replay\":\"" << json_escape(path) << "\",\"confirmed\":" << (confirmed ? "true" : "false") << ",\"msg\":\"" << json_escape(f.msg) << "\"}";
        first = false;
    }
    js << "],\"tests\":[";
    first = true;
    for (auto & r : results) {
        std::sort(r.second.hashes.begin(), r.second.hashes.end());
        const auto distinct = std::unique(r.second.hashes.begin(), r.second.hashes.end()) - r.second.hashes.begin();
        js << (first ? "" : ",") << "{\"test\":\"" << json_escape(r.first) << "\",\"cases\":" << r.second.cases << ",\"nontrivial\":" << r.second.nontrivial
           << ",\"distinct_nontrivial\":" << distinct << ",\"discarded\":" << r.second.discarded << ",\"labels\":{";
        bool fl = true; for (auto & l : r.second.labels) { js << (fl ? "" : ",") << "\"" << json_escape(l.first) << "\":" << l.second; fl = false; }
        js << "},\"known\":{"; fl = true; for (auto & l : r.second.known) { js << (fl ? "" : ",") << "\"" << json_escape(l.first) << "\":\"" << json_escape(l.second) << "\""; fl = false; }
        js << "},\"samples\":["; fl = true; std::size_t ns = 0; for (auto & l : r.second.samples) { if (ns++ >= 3) break; js << (fl ? "" : ",") << "\"" << json_escape(l) << "\""; fl = false; }
        js << "]}"; first = false;
    }
    js << "],\"planned_shards\":" << todo.size() << ",\"wall\":" << now() - t0 << "}\n";
    std::ofstream(out) << js.str();
    for (auto & e : {tmp}) { std::string cmd = "rm -rf '" + e + "'"; (void) !system(cmd.c_str()); }
    return failures.empty() ? 0 : 1;
}
} // namespace vp

int main(int argc, char ** argv) { return vp::main_(argc, argv); }
