// C42: the command-line tool
//! entry: fetch time=100
//! entry: convert time=100
//! entry: whole time=100
//! entry: orders time=40
//! entry: trust time=40
//! assume: downloads, the progress bar and the file system are modelled; writing more than a file can hold is reported when the file is closed
//! bound: one of four of the twenty-two files meets with a fault; catalogue files of one star or none
#include <csignal>
#include <cstdarg>
#include <sys/resource.h>
#include <unistd.h>
#include "vp.hpp"
#include <curl/curl.h>
#undef curl_easy_setopt
#include "huira/huira.hpp"
#define registered registered_fetch
#include "huira_cli/commands/fetch_tycho2.cpp"
#undef registered
#define registered registered_process
#include "huira_cli/commands/process_tycho2.cpp"
#undef registered
#ifndef HUIRA_VERSION
#define HUIRA_VERSION "0"
#endif
#include "huira_cli/cli.cpp"
using namespace huira; using namespace huira::cli; using namespace huira::cli::tycho2; using std::string;
#ifdef VP_SYMBOLIC
extern "C" void vp_disk(long); static const char* envv; extern "C" char* getenv(const char* n) noexcept { return envv && string(n) == "SSL_CERT_FILE" ? (char*)envv : nullptr; }
static void disk(long n) { vp_disk(n); } static string base() { vp_disk(-1); fs::create_directories("/tmp/vp"); return "/tmp/vp"; } static void wipe(const string&) {} static void env(const string& v) { envv = (new string(v))->c_str(); }
#else
static void disk(long n) { std::signal(SIGXFSZ, SIG_IGN); rlimit r; getrlimit(RLIMIT_FSIZE, &r); r.rlim_cur = n < 0 ? r.rlim_max : (rlim_t)n; setrlimit(RLIMIT_FSIZE, &r); }
static string base() { char d[] = "/tmp/vpcliXXXXXX"; mkdtemp(d); return d; } static void wipe(const string& d) { fs::remove_all(d); } static void env(const string& v) { setenv("SSL_CERT_FILE", v.c_str(), 1); }
#endif
// the server and the way to it
struct Killed {}; enum Fate { FINE, TWO, REFUSED, BROKEN, KILLED, KILLED_LATE, FULL };
static string bad; static int fate, asked; static string served(const string& f);
struct Conn { string url, ca; curl_write_callback f = nullptr; void* to = nullptr; }; static string last_ca; static int conns;
extern "C" CURLcode curl_global_init(long) { return CURLE_OK; } extern "C" CURL* curl_easy_init() { ++conns; return new Conn; } extern "C" void curl_easy_cleanup(CURL* c) { --conns; delete (Conn*)c; } extern "C" const char* curl_easy_strerror(CURLcode) { return "error"; }
extern "C" CURLcode curl_easy_setopt(CURL* h, CURLoption o, ...) { auto* c = (Conn*)h; va_list a; va_start(a, o); if (o == CURLOPT_URL) c->url = va_arg(a, const char*); else if (o == CURLOPT_WRITEFUNCTION) c->f = va_arg(a, curl_write_callback); else if (o == CURLOPT_WRITEDATA) c->to = va_arg(a, void*); else if (o == CURLOPT_CAINFO) c->ca = va_arg(a, const char*); va_end(a); return CURLE_OK; }
extern "C" CURLcode curl_easy_perform(CURL* h) {
    auto* c = (Conn*)h; ++asked; last_ca = c->ca; string f = c->url.substr(c->url.rfind('/') + 1); vp_check(f.size() > 3 && f.substr(f.size() - 3) == ".gz", "files are asked for by their name"); f = f.substr(0, f.size() - 3); string d = served(f); int how = f == bad ? fate : FINE; size_t half = d.size() / 2;
    auto give = [&](size_t a, size_t n) { return c->f(d.data() + a, 1, n, c->to) == n; }; if (how == REFUSED) return CURLE_HTTP_RETURNED_ERROR; if (how == KILLED) throw Killed();
    if (how == FINE || how == FULL) return give(0, d.size()) ? CURLE_OK : CURLE_WRITE_ERROR; if (!give(0, half)) return CURLE_WRITE_ERROR; if (how == BROKEN) return CURLE_PARTIAL_FILE; if (how == KILLED_LATE) throw Killed(); return give(half, d.size() - half) ? CURLE_OK : CURLE_WRITE_ERROR;
}
static void blot(string& l, size_t c, const char* t) { for (; *t; ++t) l[c++] = *t; }
static string record(int n, bool sup) { string l(sup ? 123 : 206, ' '); for (int b : {12, 14, 27, 40, 48, 56}) l[(size_t)b] = '|'; blot(l, 0, "0001 00008 1"); l[3] = (char)('0' + n); blot(l, 15, "307.12345678"); blot(l, 28, " -4.12345678"); blot(l, sup ? 83 : 110, " 6.146"); blot(l, sup ? 96 : 123, " 5.846"); return l + "\n"; }
static string served(const string& f) { if (f == "tyc2.dat.00") return record(1, false); if (f == "tyc2.dat.19") return record(2, false); if (f == "suppl_2.dat") return record(3, true); return "# " + f + "\n"; }
static const char* FILES[4] = {"tyc2.dat.00", "tyc2.dat.19", "suppl_1.dat", "suppl_2.dat"};
static std::vector<string> all() { std::vector<string> r; for (int i = 0; i < 20; ++i) r.push_back(string("tyc2.dat.") + (char)('0' + i / 10) + (char)('0' + i % 10)); r.push_back("suppl_1.dat"); r.push_back("suppl_2.dat"); return r; }
static bool there(const string& n) { return fs::exists(fs::path(n)); }
static string read(const string& n) { string r; FILE* f = fopen(n.c_str(), "rb"); if (!f) return r; fseek(f, 0, SEEK_END); long k = ftell(f); fseek(f, 0, SEEK_SET); r.resize((size_t)k); if (k) (void)!fread(r.data(), 1, (size_t)k, f); fclose(f); return r; }
static void save(const string& n, const string& d) { std::ofstream o(n.c_str(), std::ios::binary); o.write(d.data(), (std::streamsize)d.size()); o.close(); }
static int stars(const string& n) { int ids = 0; StarCatalog c = StarCatalog::read_star_data(n); for (size_t i = 0; i < c.size(); ++i) ids = ids * 10 + (int)(c[i].id == pack_tycho2_id(1, 8, 1) ? 1 : c[i].id == pack_tycho2_id(2, 8, 1) ? 2 : 3); return c.size() > 3 ? -1 : ids == 0 ? 0 : (int)c.size(); }
struct Out { int rc = -1; bool threw = false, killed = false; }; template <class F> static Out go(F f) { Out o; try { o.rc = f(); } catch (Killed&) { o.killed = true; } catch (...) { o.threw = true; } return o; }
ENTRY fetch() {   // whatever happens to a download, files of the catalogue are whole
    string b = base(); bool dot = vp_choice("folder", 2); string d = b + (dot ? "/cat.v2" : "/cat"); Context x; x.verbose = dot; bool force = vp_choice("force", 2), old = vp_choice("old", 2); bad = FILES[1 + 2 * vp_choice("file", 2)]; fate = vp_choice("fate", 7); string was = served(bad), p = d + "/" + bad; if (old) { fs::create_directories(d); save(p, was); } if (fate == FULL) disk(5);
    asked = 0; Out o = go([&] { return fetch_tycho2(d, x, force); }); disk(-1); bool tried = force || !old; vp_check(!o.threw, "failing downloads are reported, not thrown"); vp_check(o.killed == (tried && (fate == KILLED || fate == KILLED_LATE)), "only being killed ends it early"); bool good = !tried || fate <= TWO; if (fate != FULL) { if (!o.killed) vp_check((o.rc == 0) == good, "success is reported exactly if all is there"); if (!o.killed) vp_check(asked == (tried ? 22 : 21), "files already there are only fetched again if asked"); } else vp_check(o.rc != 0, "a full disk is reported");
    for (auto& f : all()) if (there(d + "/" + f)) vp_check(read(d + "/" + f) == served(f), "a file of the catalogue is whole"); else vp_check(o.killed || o.rc != 0, "success means that every file is there"); if (old) vp_check(there(p), "files already there are kept if they cannot be fetched again"); vp_check(o.killed || conns == 0, "connections are closed");
    fate = FINE; Out r = go([&] { return fetch_tycho2(d, x, false); }); vp_check(r.rc == 0, "the rest can be fetched later"); for (auto& f : all()) vp_check(read(d + "/" + f) == served(f), "fetched again, the catalogue is complete"); wipe(b); vp_cover("fetch");
}
ENTRY convert() {   // the catalogue written has all stars, and sources go only when it is
    string b = base(); bool out = vp_choice("to", 2); string d = b + "/in", to = out ? b + "/out" : d; Context x; x.verbose = out; bool clean = vp_choice("clean", 2); int miss = vp_choice("missing", 5); long room = vp_choice("room", 3); fs::create_directories(d); fs::create_directories(to); for (auto& f : all()) if (miss == 4 || f != FILES[miss]) save(d + "/" + f, served(f));
    if (room < 2) disk(room ? 40 : 3); Out o = go([&] { return process_tycho2(d, to, x, clean); }); disk(-1); bool good = miss == 4 && room == 2; vp_check((!o.threw && o.rc == 0) == good, "success is reported exactly if the catalogue is written"); if (good) vp_check(stars(to + "/tycho2.hrsc") == 3, "the catalogue holds the stars of every file");
    for (auto& f : all()) if (miss == 4 || f != FILES[miss]) vp_check(there(d + "/" + f) == !(good && clean), "sources are removed only once the catalogue is written, and if asked"); wipe(b); vp_cover("convert");
}
ENTRY whole() {   // fetching and converting in one go
    string b = base(), d = b + "/cat"; Context x; bool process = vp_choice("process", 2), clean = vp_choice("clean", 2); x.verbose = process == clean; bad = FILES[vp_choice("file", 4)]; fate = vp_choice("fate", 4); Out o = go([&] { return fetch_tycho2(d, x, false, process, clean); }); bool good = fate <= TWO; vp_check(!o.threw && (o.rc == 0) == good, "success is reported exactly if all is done"); vp_check(there(d + "/tycho2.hrsc") == (good && process), "what is fetched is converted if asked"); if (good && process) vp_check(stars(d + "/tycho2.hrsc") == 3, "the catalogue holds the stars of every file");
    for (auto& f : all()) if (f != bad || good) vp_check(there(d + "/" + f) == !(good && process && clean), "sources are removed only once the catalogue is written, and if asked"); wipe(b); vp_cover("whole");
}
static int ran, seen; static bool loud; static string first;
ENTRY orders() {   // the command named is the one that runs, with what follows it
    static const char* W[8] = {"-v", "--verbose", "--version", "-h", "--help", "probe", "other", "nonsense"}; Registry& r = Registry::instance(); r.add({"probe", "", [](const Context& c, int n, char** a) { ran = 1; seen = n; loud = c.verbose; first = a[0]; return 7; }}); r.add({"other", "", [](const Context& c, int n, char** a) { ran = 2; seen = n; loud = c.verbose; first = a[0]; return 9; }});
    int n = vp_choice("words", 4); char* a[5] = {(char*)"huira"}; int w[4]; for (int i = 0; i < n; ++i) a[i + 1] = (char*)W[w[i] = vp_choice("word", 8)]; a[n + 1] = nullptr; ran = 0; int rc = r.dispatch(n + 1, a); int i = 0; bool v = false; while (i < n && w[i] < 2) { v = true; ++i; }
    if (i == n) { vp_check(!ran && rc == 1, "no command is an error"); } else if (w[i] < 5) vp_check(!ran && rc == 0, "asking for help runs nothing"); else if (w[i] == 7) vp_check(!ran && rc != 0, "unknown commands are errors"); else { vp_check(ran == w[i] - 4, "the command named is run"); vp_check(rc == (ran == 1 ? 7 : 9), "the command's result is the tool's"); vp_check(loud == v, "global options reach the command"); vp_check(seen == n - i && first == W[w[i]], "what follows the command is the command's"); } vp_cover("orders");
}
ENTRY trust() {   // certificates the user names are the ones trusted
    string b = base(), d = b + "/cat", ca = b + "/my.pem"; bool named = vp_choice("named", 2), exists = vp_choice("exists", 2); if (vp_symbolic()) { fs::create_directories("/etc/ssl/certs"); save("/etc/ssl/certs/ca-certificates.crt", "x"); } if (exists) save(ca, "x"); if (named) env(ca); bad = ""; Context x; x.verbose = true; Out o = go([&] { return fetch_tycho2(d, x, false); }); vp_check(o.rc == 0, "files are fetched"); if (named && exists) vp_check(last_ca == ca, "certificates the user names are the ones trusted"); else vp_check(last_ca != ca && !last_ca.empty(), "otherwise the system's are"); wipe(b); vp_cover("trust");
}
