// B08: mewa.stacktrace lists the active functions
// Case: chain = one character per function called, every one of another kind or from another source; the last one called asks for the trace
#include "luahost.hpp"
#include "automaton.hpp"
#include "error.hpp"
#include <unistd.h>
#include <sys/stat.h>
using mc::fmt; using mc::Ctx; using mc::Sink; using lh::Val;
typedef std::vector<std::string> V;

struct Frame {std::string file; int line; std::string name; char how; /*'=' name exact, '~' name contained, '?' any name, '-' no name*/};
struct Kind {std::vector<Frame> frames /*outermost first*/; bool boundary = false; /*no Lua function can be seen beyond the frames called from here: the boundary is before frames[cut]*/ std::size_t cut = 0;};
static std::map<char,Kind> g_kinds;		// '.' = the function asking for the trace

static std::string dir()
{
	static std::string d; static pid_t owner = 0;
	if (d.empty() || owner != getpid()) {owner = getpid(); d = mc::scratch() + fmt( "/t%d", (int)getpid()); mkdir( d.c_str(), 0755);}
	return d;
}
static void put( const std::string& name, const std::string& s) {FILE* f = fopen( name.c_str(), "w"); if (!f) throw mc::Failure( "cannot write " + name); fwrite( s.data(), 1, s.size(), f); fclose( f);}

struct Source
{
	std::string path, text, eol = "\n"; int lines = 0;
	int add( const std::string& l) {text += l + eol; return ++lines;}
	void def( char k, const std::string& head, const std::string& name, char how, const V& body, bool boundary=false)
	{
		int ln = add( head); for (auto& b : body) add( b); add( "end");
		g_kinds[k] = Kind{ {Frame{path, ln, name, how}}, boundary, 1};
	}
};
static const V CALL = {"	local r = K[ c:sub( i, i)]( c, i+1)", "	return r"};

static lh::Host* mkHost()
{
	lh::Host* h = new lh::Host(); lua_State* L = h->L; g_kinds.clear();
	std::string d = dir(), part( 60, 'p'); mkdir( (d + "/1").c_str(), 0755); mkdir( (d + "/1/" + part).c_str(), 0755); mkdir( (d + "/2").c_str(), 0755); mkdir( (d + "/2/" + part).c_str(), 0755);
	Source a; char cwdbuf[4096]; if (!getcwd( cwdbuf, sizeof( cwdbuf))) throw mc::Failure( "getcwd");
	a.path = d + "/a.lua";
	a.add( "local K, COMP, DIR = ..."); a.add( "local T, MT = {}, {}"); a.add( "local function id( f) return f end"); a.add( "");
	a.def( 'g', "function faglob( c, i)", "faglob", '=', CALL); a.add( "K.g = faglob");
	a.def( 'i', "		 function faind( c, i)", "faind", '=', CALL); a.add( "K.i = faind"); a.add( "");
	a.def( 't', "function T.fatab( c, i)", "T.fatab", '=', CALL); a.add( "K.t = T.fatab");
	a.def( 's', "function T.fasp  ( c, i)", "T.fasp", '=', CALL); a.add( "K.s = T.fasp");
	a.def( 'm', "function T:fameth( i)	local c = self", "T:fameth", '=', CALL); a.add( "K.m = T.fameth");
	a.def( 'l', "local function faloc( c, i)", "faloc", '~', CALL); a.add( "K.l = faloc"); a.add( "-- (comment)");
	a.def( 'a', "local faan = function( c, i)", "faan", '~', CALL); a.add( "K.a = faan");
	a.def( 'p', "function fapc( c, i)", "fapc", '=', {"	local _, r = pcall( K[ c:sub( i, i)], c, i+1)", "	return r"}, true); a.add( "K.p = fapc");
	a.def( 'x', "function fatail( c, i)", "", '=', {"	return K[ c:sub( i, i)]( c, i+1)"}); a.add( "K.x = fatail"); g_kinds['x'].frames.clear(); g_kinds['x'].cut = 0;
	a.def( 'c', "function faco( c, i)", "faco", '=', {"	local r = coroutine.wrap( K[ c:sub( i, i)])( c, i+1)", "	return r"}, true); a.add( "K.c = faco");
	a.def( 'e', "function MT.__call( _, c, i)", "MT.__call", '=', CALL); a.add( "K.e = setmetatable( {}, MT)");
	a.def( 'd', "function MT.faindex( t, k)", "MT.faindex", '=', {"	local c, i = k[1], k[2]", CALL[0], CALL[1]});
	{Frame inner = g_kinds['d'].frames[0]; a.def( 'd', "function faidx( c, i)", "faidx", '=', {"	local r = setmetatable( {}, {__index = MT.faindex})[ {c, i}]", "	return r"}); g_kinds['d'].frames.push_back( inner); a.add( "K.d = faidx");}
	a.def( 'h', "function faml", "faml", '=', {"		( c, i)", CALL[0], CALL[1]}); a.add( "K.h = faml");
	a.def( 'u', "K.u = id( function( c, i)", "", '?', CALL); a.text.resize( a.text.size()-1); a.text += ")\n";
	a.def( 'v', "function fava( ...)", "fava", '=', {"	local c, i = ...", CALL[0], CALL[1]}); a.add( "K.v = fava");
	a.def( 'n', "function fait( s, k)", "fait", '=', {"	local c, i = s[1], s[2]", CALL[0], CALL[1]});
	{Frame inner = g_kinds['n'].frames[0]; a.def( 'n', "function fafor( c, i)", "fafor", '=', {"	for r in fait, {c, i} do return r end"}); g_kinds['n'].frames.push_back( inner); a.add( "K.n = fafor");}
	a.add( "local cur");
	a.def( 'o', "function facb()", "facb", '=', {"	local c, i = cur[1], cur[2]", CALL[0], "	cur[3] = r"});
	{Frame inner = g_kinds['o'].frames[0]; a.def( 'o', "function fagsub( c, i)", "fagsub", '=', {"	local saved = cur; cur = {c, i}; (\"x\"):gsub( \"x\", facb)", "	local r = cur[3]; cur = saved", "	return r"}, true); g_kinds['o'].frames.push_back( inner); a.add( "K.o = fagsub");}
	a.def( 'R', "function T.faop( node)", "T.faop", '=', {"	local c, i = cur[1], cur[2]", CALL[0], "	cur[3] = r"});
	{Frame inner = g_kinds['R'].frames[0]; a.def( 'R', "function farun( c, i)", "farun", '=', {"	local saved = cur; cur = {c, i}; COMP( T.faop):run( DIR .. \"/tpl\", nil, DIR .. \"/in\", DIR .. \"/out\")", "	local r = cur[3]; cur = saved", "	return r"}, true); g_kinds['R'].frames.push_back( inner); a.add( "K.R = farun");}
	a.def( '.', "function fafinal( c, i)", "fafinal", '=', {"	local r = mewa.stacktrace( table.unpack( ARGS, 1, NARGS))", "	return r"}); a.add( "K[\"\"] = fafinal");
	{int ln = ++a.lines; a.text += "function falast( c, i)" + CALL[0] + CALL[1] + " end K.f = falast"; g_kinds['f'] = Kind{ {Frame{a.path, ln, "falast", '='}}, false, 1};}

	std::vector<Source> all; all.push_back( a);
	for (int n=1; n<=2; ++n)
	{
		Source s; s.path = d + fmt( "/%d/", n) + part + "/module.lua"; if (n == 2) s.eol = "\r\n";
		s.add( "local K, COMP, DIR = ..."); if (n == 2) {s.add( ""); s.add( "-- shifted");}
		std::string p = n == 1 ? "fb" : "fc"; char kg = n == 1 ? 'b' : 'r', kl = n == 1 ? 'j' : 'y';
		s.def( kg, "function " + p + "glob( c, i)", p + "glob", '=', CALL); s.add( std::string( "K.") + kg + " = " + p + "glob");
		s.def( kl, "local function " + p + "loc( c, i)", p + "loc", '~', CALL); s.add( std::string( "K.") + kl + " = " + p + "loc");
		all.push_back( s);
	}
	put( d + "/main.lua", "local c, i = ...\nlocal r = K[ c:sub( i, i)]( c, i+1)\nreturn r\n");
	g_kinds['w'] = Kind{ {Frame{d + "/main.lua", 0, "", '-'}}, false, 1};
	g_kinds['k'] = Kind{ {Frame{"[string \"code of a string\"]", 2, "", '-'}}, false, 1};
	g_kinds['q'] = Kind{ {Frame{"named", 2, "", '-'}}, false, 1};
	g_kinds['z'] = Kind{ {Frame{"/nonexistent/zz.lua", 2, "", '-'}}, false, 1};
	put( d + "/tpl", "{Code}"); put( d + "/in", "a");

	static std::string am_def;
	if (am_def.empty()) {std::vector<mewa::Error> w; mewa::Automaton am; am.build( "A : 'a';\nS = A (op);\n", w, mewa::Automaton::DebugOutput()); am_def = am.tostring();}
	lua_newtable( L); lua_setglobal( L, "K");
	h->chunk( "local def = ...; function COMPILER( f) return mewa.compiler( assert( load( \"local typesystem = ...; return \" .. def, \"=def\"))( {op=f})) end", {Val( am_def)}, nullptr);
	for (auto& s : all)
	{
		put( s.path, s.text);
		if (luaL_loadfile( L, s.path.c_str())) throw mc::Failure( lua_tostring( L, -1));
		lua_getglobal( L, "K"); lua_getglobal( L, "COMPILER"); lua_pushstring( L, d.c_str());
		if (lua_pcall( L, 3, 0, 0)) throw mc::Failure( lua_tostring( L, -1));
	}
	static const char* strfn = "return\nfunction( c, i) local r = K[ c:sub( i, i)]( c, i+1); return r end";
	struct {const char* k; const char* name;} ch[] = {{"k","code of a string"},{"q","=named"},{"z","@/nonexistent/zz.lua"}};
	for (auto& c : ch) h->chunk( "local k, n, s = ...; K[k] = load( s, n)()", {Val( c.k), Val( c.name), Val( strfn)}, nullptr);
	h->chunk( "local f = ...; K.w = assert( loadfile( f))", {Val( d + "/main.lua")}, nullptr);
	return h;
}
static std::string nameOf( const Frame& f) {return f.how == '-' ? "" : f.name;}
static void runB08( const std::string& text, Ctx& ctx)
{
	static lh::Host* h = nullptr; static int uses = 0; static pid_t owner = 0;
	if (h && (owner != getpid() || ++uses > 2000)) {if (owner == getpid()) delete h; h = nullptr;}
	if (!h) {h = mkHost(); uses = 0; owner = getpid();}
	lua_State* L = h->L;
	std::string chain; // N*c abbreviates repetition
	for (std::size_t i=0; i<text.size(); ++i) {if (isdigit( (unsigned char)text[i])) {int n = 0; while (isdigit( (unsigned char)text[i])) n = n*10 + text[i++] - '0'; chain += std::string( n, text[i]);} else if (text[i] != '-') chain += text[i];}
	std::vector<Frame> exp; exp.push_back( g_kinds.at( '.').frames[0]); // innermost first
	for (std::size_t i=chain.size(); i>0; --i)
	{
		const Kind& k = g_kinds.at( chain[i-1]);
		std::size_t low = k.boundary ? k.cut : 0;
		for (std::size_t j=k.frames.size(); j>low; --j) exp.push_back( k.frames[j-1]);
		if (k.boundary) break;
	}
	static const std::vector<std::pair<std::string,std::vector<V> > > ign = {{"nil",{}},{"{}",{{}}},{"glob",{{"glob"}}},{"fa",{{"fa"}}},{"T.",{{"T."}}},{"final",{{"fafinal"}}},{"several",{{"fain?", "faloc", "T:"}}},{"empty",{{""}}}};
	static const int depths[] = {-1, 1, 2, 3, 4, 1000000};
	bool longChain = chain.size() > 3;
	for (auto& ig : ign) for (int depth : depths)
	{
		if (longChain && depth != -1 && depth != 2 && ig.first != "several") continue;
		V il = ig.second.empty() ? V() : ig.second[0];
		std::vector<const Frame*> want;
		for (auto& f : exp)
		{
			bool skip = false; for (auto& s : il) if (f.how != '-' && (s.empty() || nameOf( f).find( s) != std::string::npos)) skip = true;
			if (!skip && (depth < 0 || (int)want.size() < depth)) want.push_back( &f);
		}
		int nargs = !ig.second.empty() ? 2 : depth >= 0 ? 1 : 0;
		lua_newtable( L); if (depth >= 0) {lua_pushinteger( L, depth); lua_rawseti( L, -2, 1);}
		if (!ig.second.empty()) {lua_newtable( L); for (std::size_t i=0; i<il.size(); ++i) {lua_pushstring( L, il[i].c_str()); lua_rawseti( L, -2, i+1);} lua_rawseti( L, -2, 2);}
		lua_setglobal( L, "ARGS"); lua_pushinteger( L, nargs); lua_setglobal( L, "NARGS");
		lua_getglobal( L, "K"); std::string first = chain.empty() ? "" : chain.substr( 0, 1);
		lua_getfield( L, -1, first.c_str()); lua_remove( L, -2);
		lua_pushlstring( L, chain.data(), chain.size()); lua_pushinteger( L, 2);
		std::string err; auto res = h->pcall( 2, &err); ++ctx.transitions;
		std::string what = fmt( "chain '%s' depth %d ignore %s: ", chain.substr( 0, 20).c_str(), depth, ig.first.c_str());
		if (!err.empty()) ctx.fail( what + err);
		if (res.size() != 1 || res[0].t != Val::Tab) ctx.fail( what + "no table returned: " + lh::strs( res));
		const Val& r = res[0];
		if (ctx.verbose) printf( "%s%s\n", what.c_str(), r.str().substr( 0, 600).c_str());
		if (r.tab.size() != want.size() || r.len() != want.size()) ctx.fail( what + fmt( "%zu elements instead of %zu: ", r.tab.size(), want.size()) + r.str().substr( 0, 600));
		for (std::size_t i=0; i<want.size(); ++i)
		{
			const Frame& f = *want[i]; const Val& e = r.at( (int)i+1); std::size_t fields = 1;
			std::string at = what + fmt( "element %zu ", i+1) + e.str();
			if (!(e.at( "file") == Val( f.file))) ctx.fail( at + " file instead of " + f.file);
			if (f.line) {++fields; if (!(e.at( "line") == Val( f.line))) ctx.fail( at + fmt( " line instead of %d", f.line));}
			if (f.how != '-')
			{
				++fields; const Val& n = e.at( "function"); std::string ns = n.s; while (!ns.empty() && ns.back() == ' ') ns.pop_back();
				if (n.t != Val::Str || (f.how == '=' && ns != f.name) || (f.how == '~' && ns.find( f.name) == std::string::npos)) ctx.fail( at + " function instead of " + f.name);
			}
			if (e.tab.size() != fields) ctx.fail( at + " has other fields than file, line and function");
		}
		++ctx.traces;
	}
	std::string st; for (auto& f : exp) st += f.file + fmt( ":%d ", f.line); ctx.state( st);
}
static void enumB08( bool thorough, const Sink& sink)
{
	const std::string kinds = "gitsmlapxcedwkqzhuvnofRbjry";
	sink( "-");
	std::function<void( const std::string&, std::size_t)> rec = [&]( const std::string& s, std::size_t left) {if (s.find( "ce") != std::string::npos) return; /*a coroutine is made of a function only*/ if (!s.empty()) sink( s); if (left) for (char c : kinds) rec( s + c, left-1);};
	rec( "", 3);
	if (thorough) {const std::string k2 = "gitmlaxedwkqzhvnfbjrypcoR"; std::function<void( const std::string&, std::size_t)> rec4 = [&]( const std::string& s, std::size_t left) {if (s.find( "ce") != std::string::npos) return; if (!left) {sink( s); return;} for (char c : k2) rec4( s + c, left-1);}; rec4( "", 4);}
	for (int n : {5, 30, 150}) for (char c : kinds) if (c != 'c' && c != 'R' && c != 'p' && c != 'o' && !(n > 100 && (c == 'e' || c == 'd' || c == 'n'))) {sink( fmt( "%d%c", n, c)); sink( fmt( "g%d%cb", n, c)); sink( fmt( "%d%cp%d%c", n, c, n, c));}
}
int main( int argc, char** argv)
{
	std::map<std::string,mc::Property> props;
	props["B08"] = {enumB08, runB08, "one case = a chain of calls over all kinds of functions (global, indented, in a table, method, local, anonymous, header over lines, variadic, tail calling, called as metamethod, iterator, callback, coroutine, by pcall, by a compiler, main chunk, from strings, from a missing file, from files with long paths ending alike), the trace taken with every depth and list of names to ignore; states = distinct stacks", 30};
	return mc::main_( argc, argv, props);
}
