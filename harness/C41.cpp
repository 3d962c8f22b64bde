// C41: what is logged
//! entry: kept time=60
//! entry: filter time=60
//! entry: notes time=60
//! entry: console time=60
//! entry: lines time=60
//! entry: crash time=60
//! noskip: huira::Logger::
//! assume: file, string and console streams, the clock and the delivery of signals are modelled; times and thread numbers are not looked at
//! bound: logs of one to four messages between changes of the level and size
#include "huira/util/logger.hpp"
#include "vp.hpp"
#include <csetjmp>
#include <dirent.h>
#include <string>
#include <unistd.h>
using namespace huira; using std::string;
// signals are recorded, not delivered
static void (*on[65])(int); static int raised, dflt;
extern "C" void (*signal(int n, void (*h)(int)) noexcept)(int) { auto o = on[n]; on[n] = h; return o; }
extern "C" int raise(int n) noexcept { raised = n; dflt = on[n] == SIG_DFL; return 0; }
#ifdef VP_SYMBOLIC
extern "C" const char* vp_file(int);
static string place() { return "/cwd"; }
static string newest(const string&) { return vp_file(0) ? vp_file(0) : ""; }
static void wipe(const string&) {}
#else
static string place() { char d[] = "/tmp/vplogXXXXXX"; mkdtemp(d); setenv("HUIRA_LOG_DIR", d, 1); return d; }
static string newest(const string& d) { string r; DIR* o = opendir(d.c_str()); while (auto* e = readdir(o)) if (e->d_name[0] != '.') r = d + "/" + e->d_name; closedir(o); return r; }
static void wipe(const string& d) { string n = newest(d); if (!n.empty()) unlink(n.c_str()); rmdir(d.c_str()); }
#endif
static string text(const string& n) { string r; FILE* f = n.empty() ? nullptr : fopen(n.c_str(), "rb"); if (!f) return r; fseek(f, 0, SEEK_END); long k = ftell(f); fseek(f, 0, SEEK_SET); r.resize((size_t)k); if (k) (void)!fread(r.data(), 1, (size_t)k, f); fclose(f); return r; }
static string marks(const string& t) { string r; for (size_t i = 0; i + 2 < t.size(); ++i) if (t[i] == '<' && t[i + 2] == '>' && t[i + 1] >= 'a' && t[i + 1] <= 'z') r += t[i + 1]; return r; }   // the messages <a>, <b>, … in order
static string msg(int i) { return string("<") + (char)('a' + i) + ">"; }
static LogLevel lvl(const char* n) { return (LogLevel)vp_int(n, 0, 3); }
static bool has(const string& t, const string& p) { return t.find(p) != string::npos; }
ENTRY kept() {   // the most recent messages, whatever the sizes on the way
    string d = place(), file = d + "/log"; int n = 0; string want; size_t cap = vp_choice("size", 4); Logger::set_buffer_size(cap); cap = cap ? cap : 1; vp_check(Logger::get_buffer_size() == cap, "the log holds as many messages as asked for");
    for (int step = 0; step < 2; ++step) { int k = (int)vp_choice("messages", 5); for (int i = 0; i < k; ++i) { want += (char)('a' + n); Logger::log(LogLevel::Info, msg(n++)); if (want.size() > cap) want.erase(0, 1); } if (step == 0) { size_t c = vp_choice("resize", 5); if (c < 4) { Logger::set_buffer_size(c + 1); cap = c + 1; vp_check(Logger::get_buffer_size() == cap, "the log holds as many messages as asked for"); if (want.size() > cap) want.erase(0, want.size() - cap); } } }
    string to = Logger::dump_to_file(file); vp_check(to == file, "the log is written where asked"); vp_check(marks(text(to)) == want, "the log holds the most recent messages in order"); to = Logger::dump_to_file(file); vp_check(marks(text(to)) == want, "the log can be written again"); wipe(d); vp_cover("kept");
}
static string heard; static int levels[8]; static bool odd;
static void listen(bool bad) { heard.clear(); Logger::set_custom_sink([bad](const LogEntry& e) { levels[heard.size()] = (int)e.level; heard += e.message.size() == 3 ? e.message[1] : '?'; if (bad) throw 1; }); }
ENTRY filter() {   // the level decides what is kept, and listeners hear the same
    string d = place(), want; listen(vp_choice("bad", 2)); LogLevel at = LogLevel::Info; int lv[4]; for (int i = 0; i < 3; ++i) { if (vp_choice("change", 2)) { at = lvl("level"); Logger::set_level(at); vp_check(Logger::get_level() == at, "the level is the one set"); } LogLevel l = lvl("l"); bool t = vp_throws([&] { Logger::log(l, msg(i)); }); vp_check(!t, "logging does not fail"); if (l >= at) { lv[want.size()] = (int)l; want += (char)('a' + i); } }
    vp_check(heard == want, "listeners hear what the level lets through"); for (size_t i = 0; i < want.size(); ++i) vp_check(levels[i] == lv[i], "messages have the level given"); vp_cover("filter");
    Logger::clear_custom_sink(); Logger::set_level(LogLevel::Debug); Logger::log(LogLevel::Error, msg(7)); vp_check(heard == want, "those who stopped listening hear nothing"); want += 'h'; wipe(d);
}
ENTRY notes() {   // the ways the library logs
    listen(false); LogLevel at = lvl("level"); Logger::set_level(at); int k = vp_choice("way", 5); string t = msg(3); bool th = vp_throws([&] { switch (k) { case 0: HUIRA_LOG_DEBUG(t); break; case 1: HUIRA_LOG_INFO(t); break; case 2: HUIRA_LOG_WARNING(t); break; case 3: HUIRA_LOG_ERROR(t); break; default: HUIRA_THROW_ERROR(t); } });
    vp_check(th == (k == 4), "only failures are thrown"); int l = k == 4 ? 3 : k; if (l >= (int)at) { vp_check(heard == "d", "what happened is logged"); vp_check(levels[0] == l, "what happened is logged with its level"); } else vp_check(heard.empty(), "what is below the level is not logged"); vp_cover("notes");
}
ENTRY console() {   // what the console shows: a level always with those above it
    bool d = false, i = false, w = true; vp_check(!Logger::is_console_debug_enabled() && !Logger::is_console_info_enabled() && Logger::is_console_warning_enabled(), "the console starts with warnings");
    for (int n = 0; n < 4; ++n) { bool on = vp_choice("on", 2); switch (vp_choice("which", 3)) { case 0: Logger::enable_console_debug(on); d = on; if (on) i = w = true; break; case 1: Logger::enable_console_info(on); i = on; if (on) w = true; else d = false; break; default: Logger::enable_console_warning(on); w = on; if (!on) i = d = false; }
        vp_check(Logger::is_console_debug_enabled() == d && Logger::is_console_info_enabled() == i && Logger::is_console_warning_enabled() == w, "the console shows the levels asked for"); } vp_cover("console");
}
ENTRY lines() {   // each message on its line, with its level
    string d = place(), file = d + "/log"; Logger::set_level(LogLevel::Debug); int a = vp_choice("a", 4), b = vp_choice("b", 4); Logger::log((LogLevel)a, msg(0)); Logger::log((LogLevel)b, msg(1)); string t = text(Logger::dump_to_file(file)); static const char* name[4] = {"DEBUG", "INFO", "WARN", "ERROR"}; int lv[2] = {a, b};
    for (int k = 0; k < 2; ++k) { size_t p = t.find(msg(k)); vp_check(p != string::npos, "messages are written"); size_t s = t.rfind('\n', p), e = t.find('\n', p); vp_check(s != string::npos && e != string::npos, "messages have lines of their own"); string line = t.substr(s, e - s); for (int j = 0; j < 4; ++j) vp_check(has(line, name[j]) == (j == lv[k]), "lines tell the level"); } wipe(d); vp_cover("lines");
}
ENTRY crash() {   // a crash ends the process, after the log has been written once
    static const int sig[5] = {SIGSEGV, SIGABRT, SIGFPE, SIGILL, SIGBUS}; string d = place(); Logger::log(LogLevel::Warning, msg(0)); int how = vp_choice("handler", 3); if (how == 1) Logger::enable_crash_handler(false); if (how == 2) { Logger::enable_crash_handler(false); Logger::enable_crash_handler(); } int s = sig[vp_choice("signal", 5)]; int depth = vp_choice("scopes", 3);
    auto hit = [&] { raised = 0; if (on[s] == SIG_DFL) { raised = s; dflt = 1; } else { vp_check(on[s] != nullptr, "crashes are handled"); on[s](s); } }; if (depth == 0) hit(); else { HUIRA_TRACE_SCOPE("<p>"); if (depth == 2) { { HUIRA_TRACE_SCOPE("<q>"); } HUIRA_TRACE_SCOPE("<r>"); hit(); } else hit(); }
    vp_check(raised == s && dflt, "crashes still end the process"); string n = newest(d), t = text(n), m = marks(t);
    if (how == 1) vp_check(t.empty(), "no report when not wanted"); else { vp_check(!m.empty() && m[0] == 'a', "the messages before the crash are reported"); vp_check(has(t, "signal: " + std::to_string(s)), "the signal is reported"); vp_check(m == (depth == 0 ? "a" : depth == 1 ? "app" : "arpr"), "what was going on is reported"); int c = 0; for (size_t p = 0; (p = t.find("signal: ", p)) != string::npos; ++p) ++c; vp_check(c == 1, "a crash is reported once"); }
    if (how != 1) { int s2 = sig[vp_choice("second", 5)]; Logger::log(LogLevel::Error, msg(9)); raised = 0; if (on[s2] == SIG_DFL) { raised = s2; dflt = 1; } else on[s2](s2); vp_check(raised == s2 && dflt, "a second crash ends the process"); vp_check(text(newest(d)) == t, "a second crash is not reported"); } wipe(d); vp_cover("crash");
}
