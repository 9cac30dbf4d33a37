// Exhaustive-enumeration engine shared by all harnesses.
//
// A harness registers, per property, a generator that enumerates *every* case of a bounded
// space (operation sequence, grammar, input, fault point ...) as a self-contained text, and an
// executor that runs one case on the real code, compares every observation with a reference
// model and reports mismatches.  The engine forks workers, splits the enumeration between them
// (case index modulo number of workers), survives crashes and hangs of the code under test
// (they are violations, attributed to the case that was running), collects the measured
// coverage and prints one JSON summary.
#ifndef MC_HPP
#define MC_HPP
#include <string>
#include <string_view>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cerrno>
#include <ctime>
#include <atomic>
#include <algorithm>
#include <sstream>
#include <unistd.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/prctl.h>

namespace mc {

inline std::string fmt( const char* f, ...)
{
	va_list ap; va_start( ap, f);
	char buf[ 2048];
	int n = vsnprintf( buf, sizeof buf, f, ap);
	va_end( ap);
	if (n < (int)sizeof(buf)) return std::string( buf, n < 0 ? 0 : n);
	std::string rt( n+1, '\0');
	va_start( ap, f);
	vsnprintf( &rt[0], n+1, f, ap);
	va_end( ap);
	rt.resize( n);
	return rt;
}

inline uint64_t hash64( const char* p, std::size_t n, uint64_t h = 1469598103934665603ULL)
{
	for (std::size_t i=0; i<n; ++i) {h ^= (unsigned char)p[i]; h *= 1099511628211ULL;}
	h ^= h >> 29; h *= 0x9E3779B97F4A7C15ULL; h ^= h >> 32;
	return h;
}
inline uint64_t hash64( const std::string& s) {return hash64( s.data(), s.size());}

inline std::vector<std::string> split( const std::string& s, char sep)
{
	std::vector<std::string> rt; std::string cur;
	for (char c : s) {if (c == sep) {rt.push_back( cur); cur.clear();} else cur.push_back( c);}
	rt.push_back( cur);
	return rt;
}
inline std::string join( const std::vector<std::string>& v, const char* sep)
{
	std::string rt; bool first = true;
	for (auto const& s : v) {if (!first) rt += sep; first = false; rt += s;}
	return rt;
}
/// Printable, reversible encoding of arbitrary bytes for case texts
inline std::string enc( const std::string& s)
{
	std::string rt;
	for (unsigned char c : s)
	{
		if (c > 32 && c < 127 && c != '%' && c != '|' && c != ';' && c != ',' && c != '~') rt.push_back( c);
		else rt += fmt( "%%%02x", c);
	}
	return rt;
}
inline std::string dec( const std::string& s)
{
	std::string rt;
	for (std::size_t i=0; i<s.size(); ++i)
	{
		if (s[i] == '%' && i+2 < s.size()+0 && i+2 <= s.size()-1)
		{
			rt.push_back( (char)strtol( s.substr( i+1, 2).c_str(), nullptr, 16)); i += 2;
		}
		else rt.push_back( s[i]);
	}
	return rt;
}
inline std::string json_str( const std::string& s)
{
	std::string rt = "\"";
	for (unsigned char c : s)
	{
		if (c == '"' || c == '\\') {rt.push_back( '\\'); rt.push_back( c);}
		else if (c == '\n') rt += "\\n";
		else if (c == '\t') rt += "\\t";
		else if (c < 32 || c >= 127) rt += fmt( "\\u%04x", c);
		else rt.push_back( c);
	}
	return rt + "\"";
}

struct Failure : std::exception
{
	std::string msg;
	explicit Failure( const std::string& m) : msg(m){}
	const char* what() const noexcept override {return msg.c_str();}
};

class Ctx;
typedef std::function<void( const std::string&)> Sink;

struct Property
{
	std::function<void( bool thorough, const Sink& sink)> enumerate;
	std::function<void( const std::string& caseText, Ctx& ctx)> run;
	std::string rule;		///< what is enumerated / what counts as a distinct state
	int caseTimeoutSec = 15;	///< a single case running longer is a hang
};

class Ctx
{
public:
	uint64_t executions = 0, transitions = 0, traces = 0;
	std::unordered_set<uint64_t> states;
	std::map<std::string,uint64_t> counters;
	bool verbose = false;
	std::set<std::string> knownIds;				// known findings identified by a name (defect with a reference model of its own)
	std::map<std::string,std::string> findings;		// id -> first case seen
	std::string current;

	/// A deviation exactly explained by a defect on record: a known finding if listed, a violation otherwise
	void finding( const std::string& id, const std::string& msg)
	{
		if (!knownIds.count( id)) fail( msg);
		findings.insert( {id, current}); count( "known_finding_" + id);
		if (verbose) printf( "explained by finding %s: %s\n", id.c_str(), msg.c_str());
	}

	/// one observable/abstract state visited (canonical text of the model state)
	void state( const std::string& canon)		{states.insert( hash64( canon));}
	void transition( uint64_t n=1)			{transitions += n;}
	/// one model trace replayed on the implementation with all observations compared
	void trace( uint64_t n=1)			{traces += n;}
	void count( const std::string& key, uint64_t n=1){counters[ key] += n;}
	[[noreturn]] void fail( const std::string& msg)	{throw Failure( msg);}
	void check( bool cond, const std::string& msg)	{if (!cond) fail( msg);}
	template <class A, class B>
	void eq( const A& got, const B& exp, const std::string& what)
	{
		if (!(got == exp))
		{
			std::ostringstream o; o << what << ": got " << got << ", expected " << exp;
			fail( o.str());
		}
	}
};

struct Slot
{
	std::atomic<uint64_t> beat;
	std::atomic<int> busy;
	std::atomic<uint64_t> started;	// ms
	char text[ 65536];
	char last[ 256];
};

inline uint64_t now_ms()
{
	struct timespec ts; clock_gettime( CLOCK_MONOTONIC, &ts);
	return (uint64_t)ts.tv_sec * 1000 + ts.tv_nsec / 1000000;
}

/// A case consisting of many executions calls this for each of them: the time limit is one of an execution
inline Slot*& currentSlot() {static Slot* s = nullptr; return s;}
inline int& currentLimit() {static int n = 0; return n;}
inline void alive()
{
	if (currentSlot()) currentSlot()->started = now_ms(); else if (currentLimit()) alarm( currentLimit());
}

struct Violation {std::string text; std::string msg;};

inline std::string hexs( const std::string& s)
{
	std::string rt; for (unsigned char c : s) rt += fmt( "%02x", c); return rt;
}
inline std::string unhex( const std::string& s)
{
	std::string rt;
	for (std::size_t i=0; i+1<s.size(); i+=2) rt.push_back( (char)strtol( s.substr( i, 2).c_str(), nullptr, 16));
	return rt;
}

/// Set by harnesses which need a private scratch directory (created by the driver script)
inline std::string& scratch() {static std::string s; return s;}

inline int main_( int argc, char** argv, std::map<std::string,Property> props)
{
	std::string prop, tier = "quick", out, replay, known, scr;
	int workers = 0; double deadline = 700; int maxviol = 8;
	bool list = false;
	for (int i=1; i<argc; ++i)
	{
		std::string a = argv[i];
		auto val = [&]{ if (i+1 >= argc) {fprintf( stderr, "missing value for %s\n", a.c_str()); exit( 2);} return std::string( argv[ ++i]); };
		if (a == "--prop") prop = val();
		else if (a == "--tier") tier = val();
		else if (a == "--out") out = val();
		else if (a == "--replay") replay = val();
		else if (a == "--known") known = val();
		else if (a == "--workers") workers = atoi( val().c_str());
		else if (a == "--deadline") deadline = atof( val().c_str());
		else if (a == "--maxviol") maxviol = atoi( val().c_str());
		else if (a == "--scratch") scr = val();
		else if (a == "--list") list = true;
		else {fprintf( stderr, "unknown option %s\n", a.c_str()); return 2;}
	}
	auto pi = props.find( prop);
	if (pi == props.end()) {fprintf( stderr, "unknown property '%s'\n", prop.c_str()); return 2;}
	Property& p = pi->second;
	bool thorough = tier == "thorough";
	scratch() = scr.empty() ? std::string("/tmp") : scr;

	if (list)
	{
		uint64_t n = 0;
		p.enumerate( thorough, [&]( const std::string& t){ ++n; puts( t.c_str()); });
		fprintf( stderr, "%llu cases\n", (unsigned long long)n);
		return 0;
	}
	// Known findings: one exact case text per line
	std::set<std::string> knownCases;
	if (!known.empty())
	{
		FILE* f = fopen( known.c_str(), "rb");
		if (f)
		{
			std::string all; char b[ 4096]; size_t n; while ((n = fread( b, 1, sizeof b, f)) > 0) all.append( b, n);
			fclose( f);
			for (auto& l : split( all, '\n')) if (!l.empty()) knownCases.insert( l);
		}
	}
	if (!replay.empty())
	{
		std::string text; FILE* f = fopen( replay.c_str(), "rb");
		if (!f) {perror( replay.c_str()); return 2;}
		char b[ 4096]; size_t n; while ((n = fread( b, 1, sizeof b, f)) > 0) text.append( b, n);
		fclose( f);
		while (!text.empty() && text.back() == '\n') text.pop_back();
		Ctx ctx; ctx.verbose = true; ctx.current = text;
		for (auto& k : knownCases) if (k[0] == '@') ctx.knownIds.insert( k.substr( 1));
		currentLimit() = p.caseTimeoutSec * 3; alarm( currentLimit());
		try {p.run( text, ctx);}
		catch (const Failure& e) {printf( "MISMATCH %s\n", e.msg.c_str()); return 1;}
		printf( "case holds\n");
		return 0;
	}
	if (workers <= 0)
	{
		workers = (int)sysconf( _SC_NPROCESSORS_ONLN);
		if (workers < 1) workers = 1;
		if (workers > 16) workers = 16;
	}
	uint64_t t0 = now_ms();
	Slot* slots = (Slot*)mmap( nullptr, sizeof(Slot)*workers, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
	if (slots == MAP_FAILED) {perror( "mmap"); return 2;}
	struct Shared {std::atomic<int> stop; std::atomic<int> nviol;};
	Shared* sh = (Shared*)mmap( nullptr, sizeof(Shared), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
	sh->stop = 0; sh->nviol = 0;

	std::string base = scratch() + fmt( "/mcres.%d", (int)getpid());
	fflush( stdout); fflush( stderr);

	struct W {pid_t pid; uint64_t skipUntil; bool done; int gen;};
	std::vector<W> ws( workers);

	auto spawn = [&]( int w)
	{
		pid_t pid = fork();
		if (pid < 0) {perror( "fork"); exit( 2);}
		if (pid) {ws[w].pid = pid; return;}
		// ---- worker
		prctl( PR_SET_PDEATHSIG, SIGKILL);
		std::string wscr = scratch() + fmt( "/w%d", w);
		scratch() = wscr;
		{std::string cmd = wscr; mkdir( wscr.c_str(), 0700);}
		if (chdir( wscr.c_str()) != 0) {perror( "chdir"); _exit( 2);}
		Slot& sl = slots[ w]; currentSlot() = &sl;
		Ctx ctx;
		for (auto& k : knownCases) if (k[0] == '@') ctx.knownIds.insert( k.substr( 1));
		uint64_t idx = 0, mine = 0;
		bool complete = true;
		std::vector<std::pair<std::string,std::string>> viol;
		std::vector<std::string> samples; std::string lastSample;
		uint64_t skip = ws[w].skipUntil;
		struct Stop{};
		try
		{
			p.enumerate( thorough, [&]( const std::string& text)
			{
				uint64_t my = idx++;
				if ((int)(my % workers) != w || my < skip) return;
				if (sh->stop.load( std::memory_order_relaxed) || (now_ms()-t0) > deadline*1000) {complete = false; throw Stop();}
				std::size_t n = std::min( text.size(), sizeof(sl.text)-1);
				memcpy( sl.text, text.data(), n); sl.text[n] = 0;
				sl.started = now_ms();
				sl.beat = my + 1;
				sl.busy = 1;
				++mine;
				try {++ctx.executions; ctx.current = text; p.run( text, ctx);}
				catch (const Failure& e)
				{
					viol.push_back( {text, e.msg});
					if (!knownCases.count( text) && ++sh->nviol >= maxviol) sh->stop = 1;
				}
				catch (const std::exception& e)
				{
					viol.push_back( {text, std::string("unexpected exception: ") + e.what()});
					if (!knownCases.count( text) && ++sh->nviol >= maxviol) sh->stop = 1;
				}
				sl.busy = 0;
				if (samples.size() < 2) samples.push_back( text); else lastSample = text;
			});
		}
		catch (const Stop&){}
		catch (const std::exception& e) {fprintf( stderr, "generator failed: %s\n", e.what()); _exit( 3);}
		if (!lastSample.empty()) samples.push_back( lastSample);
		FILE* f = fopen( fmt( "%s.%d.%d", base.c_str(), w, ws[w].gen).c_str(), "wb");
		if (!f) _exit( 2);
		fprintf( f, "n %llu %llu %llu %d %llu\n", (unsigned long long)ctx.executions, (unsigned long long)ctx.transitions,
			(unsigned long long)ctx.traces, (int)complete, (unsigned long long)idx);
		for (auto& v : viol) fprintf( f, "v %s %s\n", hexs( v.first).c_str(), hexs( v.second.substr( 0, 6000)).c_str());
		for (auto& s : samples) fprintf( f, "s %s\n", hexs( s.substr( 0, 600)).c_str());
		for (auto& k : ctx.findings) fprintf( f, "k %s %s\n", hexs( k.first).c_str(), hexs( k.second).c_str());
		for (auto& c : ctx.counters) fprintf( f, "c %s %llu\n", hexs( c.first).c_str(), (unsigned long long)c.second);
		fprintf( f, "h %llu\n", (unsigned long long)ctx.states.size());
		for (uint64_t h : ctx.states) fwrite( &h, sizeof h, 1, f);
		fclose( f);
		_exit( 0);
	};
	std::vector<Violation> violations;
	std::vector<std::string> deaths;
	for (int w=0; w<workers; ++w)
	{
		slots[w].beat = 0; slots[w].busy = 0;
		ws[w] = {0, 0, false, 0};
		spawn( w);
	}
	int running = workers;
	bool broken = false; bool forcedIncomplete = false;
	uint64_t lostExec = 0; int nofHangs = 0;
	while (running > 0)
	{
		int st = 0;
		pid_t pid = waitpid( -1, &st, WNOHANG);
		if (pid > 0)
		{
			for (int w=0; w<workers; ++w) if (ws[w].pid == pid && !ws[w].done)
			{
				if (WIFEXITED( st) && WEXITSTATUS( st) == 0) {ws[w].done = true; --running;}
				else if (slots[w].busy.load())
				{
					std::string why = WIFSIGNALED( st) ? fmt( "killed by signal %d (%s)", WTERMSIG( st), strsignal( WTERMSIG( st)))
							: fmt( "process exited with status %d (sanitizer report or abort)", WEXITSTATUS( st));
					if (slots[w].busy.load() == 2) {if (++nofHangs >= 2) sh->stop = 1;}
					if (slots[w].busy.load() == 2) why = fmt( "no termination within %d s (endless loop)", p.caseTimeoutSec);
					std::string text = slots[w].text;
					violations.push_back( {text, "code under test crashed or hung: " + why});
					lostExec += 1;
					bool isKnown = knownCases.count( text);
					if (!isKnown) ++sh->nviol;
					uint64_t next = slots[w].beat.load();
					slots[w].busy = 0;
					forcedIncomplete = forcedIncomplete || !isKnown;
					if (sh->nviol.load() >= maxviol || (now_ms()-t0) > deadline*1000 || ws[w].gen > 400)
					{
						ws[w].done = true; --running; sh->stop = 1;
					}
					else
					{
						ws[w].skipUntil = next; ws[w].gen += 1;
						spawn( w);
					}
				}
				else
				{
					fprintf( stderr, "worker %d ended abnormally outside of a case (status 0x%x)\n", w, st);
					ws[w].done = true; --running; broken = true;
				}
			}
			continue;
		}
		uint64_t t = now_ms();
		for (int w=0; w<workers; ++w) if (!ws[w].done && slots[w].busy.load() == 1)
		{
			uint64_t s = slots[w].started.load();
			if (t > s && t - s > (uint64_t)p.caseTimeoutSec * 1000)
			{
				slots[w].busy = 2;
				kill( ws[w].pid, SIGKILL);
			}
		}
		usleep( 5000);
	}
	// ---- merge
	uint64_t ex=lostExec, tr=0, tc=0, total=0; bool complete = !forcedIncomplete;
	std::unordered_set<uint64_t> states;
	std::vector<std::string> samples;
	std::map<std::string,uint64_t> counters; std::map<std::string,std::string> findings;
	for (int w=0; w<workers; ++w) for (int g=0; g<=ws[w].gen; ++g)
	{
		std::string fn = fmt( "%s.%d.%d", base.c_str(), w, g);
		FILE* f = fopen( fn.c_str(), "rb");
		if (!f) continue;
		char* line = nullptr; size_t cap = 0; ssize_t len;
		while ((len = getline( &line, &cap, f)) > 0)
		{
			std::string l( line, len); while (!l.empty() && l.back() == '\n') l.pop_back();
			auto fl = split( l, ' ');
			if (fl[0] == "n")
			{
				ex += strtoull( fl[1].c_str(), nullptr, 10); tr += strtoull( fl[2].c_str(), nullptr, 10);
				tc += strtoull( fl[3].c_str(), nullptr, 10); if (fl[4] != "1") complete = false;
				total = std::max( total, (uint64_t)strtoull( fl[5].c_str(), nullptr, 10));
			}
			else if (fl[0] == "v") violations.push_back( {unhex( fl[1]), unhex( fl[2])});
			else if (fl[0] == "s") {if (samples.size() < 12) samples.push_back( unhex( fl[1]));}
			else if (fl[0] == "k")
			{
				std::string id = unhex( fl[1]), c = unhex( fl[2]); auto k = findings.insert( {id, c});
				if (c.size() < k.first->second.size() || (c.size() == k.first->second.size() && c < k.first->second)) k.first->second = c;
			}
			else if (fl[0] == "c") counters[ unhex( fl[1])] += strtoull( fl[2].c_str(), nullptr, 10);
			else if (fl[0] == "h")
			{
				uint64_t n = strtoull( fl[1].c_str(), nullptr, 10);
				for (uint64_t i=0; i<n; ++i) {uint64_t h; if (fread( &h, sizeof h, 1, f) != 1) break; states.insert( h);}
				break;
			}
		}
		free( line);
		fclose( f); unlink( fn.c_str());
	}
	FILE* f = out.empty() ? stdout : fopen( out.c_str(), "wb");
	if (!f) {perror( out.c_str()); return 2;}
	fprintf( f, "{\"property\":%s,\"tier\":%s,\"executions\":%llu,\"transitions\":%llu,\"traces\":%llu,\"states\":%llu,\"cases\":%llu,\"complete\":%s,\"broken\":%s,\"rule\":%s,\"wall_ms\":%llu,\n\"samples\":[",
		json_str( prop).c_str(), json_str( tier).c_str(), (unsigned long long)ex, (unsigned long long)tr, (unsigned long long)tc,
		(unsigned long long)states.size(), (unsigned long long)total, complete?"true":"false", broken?"true":"false", json_str( p.rule).c_str(),
		(unsigned long long)(now_ms()-t0));
	for (size_t i=0; i<samples.size(); ++i) fprintf( f, "%s%s", i?",":"", json_str( samples[i]).c_str());
	fprintf( f, "],\n\"counters\":{");
	{bool first=true; for (auto& c : counters) {fprintf( f, "%s%s:%llu", first?"":",", json_str( c.first).c_str(), (unsigned long long)c.second); first=false;}}
	fprintf( f, "},\n\"findings\":{");
	{bool first=true; for (auto& c : findings) {fprintf( f, "%s%s:%s", first?"":",", json_str( c.first).c_str(), json_str( hexs( c.second)).c_str()); first=false;}}
	fprintf( f, "},\n\"violations\":[");
	for (size_t i=0; i<violations.size(); ++i)
		fprintf( f, "%s{\"case_hex\":%s,\"msg\":%s,\"known\":%s}", i?",\n":"", json_str( hexs( violations[i].text)).c_str(), json_str( violations[i].msg).c_str(),
			knownCases.count( violations[i].text) ? "true":"false");
	fprintf( f, "]}\n");
	if (!out.empty()) fclose( f);
	return broken ? 2 : 0;
}

} // namespace mc
#define MC_MAIN( props) int main( int argc, char** argv) {return mc::main_( argc, argv, props);}
#endif
