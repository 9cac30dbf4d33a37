// B03: compiler:run writes the target template with the sections printed;  B06: a failing run leaves no trace
// Case: run;run;...   run = compiler,target,ops,out,dbg,pre   (fields separated by ',', ops is a sequence of two character codes)
//   compiler a|b; target: number of a template, '-' none, '!' missing file, or ':' followed by hex of the text of the template
//   out: f file, s stdout, n nil (stdout), e stderr, d directory, m missing directory; dbg: - none, f file, m missing directory, o stdout
//   ops: see OPS; text of the input, "??" syntax error
#include "luahost.hpp"
#include "automaton.hpp"
#include "error.hpp"
#include <fcntl.h>
#include <sys/stat.h>
#include <dirent.h>
using mc::fmt; using mc::Ctx; using mc::Sink;
typedef std::vector<std::string> V;

static const char* RUNTIME = R"LUA(
local mewa = mewa
local def_src, scratch = ...
local compilers = {}
local ops = {}
local trace
local N = 0
local function op( node) trace[ #trace+1] = node.arg[1].value; local f = ops[ node.arg[1].value]; if f then f( node) else error( "no op " .. node.arg[1].value) end end
local typesystem = {op = op}
for _,k in ipairs{ "a", "b"} do
	local chunk = assert( load( "local typesystem = ...; return " .. def_src, "=def"))
	compilers[ k] = mewa.compiler( chunk( typesystem))
end
-- print
function ops.p0() print() end
function ops.p1() print( "a") end
function ops.p2() print( "b", "c") end
function ops.p3() print( nil) end
function ops.p4() print( 1, 2.5, -3) end
function ops.p5() print( {1,"x"}) end
function ops.p6() print( "{Code}{Sec}") end
function ops.p7() print( "x\0y\n") end
function ops.p8() print( true, nil, "z") end
-- sections
function ops.s0() print_section( "Sec", "x") end
function ops.s1() print_section( nil, "y") end
function ops.s2() print_section( "Code", "z") end
function ops.s3() print_section( "Sec") end
function ops.s4() print_section( "A b", "{Sec}") end
function ops.s5() print_section( "Other", 1, nil, "t") end
function ops.s6() print_section( "S", {a=1}) end
-- sizes
function ops.q0() print( string.rep( "x", N) .. "\n", "y") end
function ops.q1() local a = {}; for i=1,N do a[i] = i end; print( table.unpack( a)) end
function ops.q2() for i=1,N do print_section( "K" .. i, i, " ") end end
function ops.q3() local a = {}; for i=1,N do a[i] = i end; print( a) end
function ops.q4() print_section( "L" .. string.rep( "o", N), "v") end
function ops.q5() print_section( "Sec", string.rep( "s", N)); print_section( "Sec", "t") end
function ops.q6() print( {k = string.rep( "x", N)}) end
-- debug
function ops.d0() debug( "dbg", 1) end
-- errors
function ops.e0() error( "boom") end
function ops.e1() error( {1}) end
function ops.e2() error( nil) end
function ops.e3() print_section() end
function ops.e4() print_section( {}) end
function ops.e5() local x = nil; return x.y end
function ops.e6() error( 4711, 0) end
function ops.e7() error( "at level 0", 0) end
-- output before an error
function ops.x0() print( "lost"); print_section( "Sec", "lost"); print_section( "New", "lost") end
-- nested runs
function ops.n0() local ok, e = pcall( compilers.b.run, compilers.b, scratch .. "/tn", nil, scratch .. "/in.nested", scratch .. "/out.nested"); if not ok then error( e, 0) end end
function ops.n1() local ok, e = pcall( compilers.b.run, compilers.b, scratch .. "/tn", nil, scratch .. "/in.nestederr", scratch .. "/out.nested"); if ok then error( "nested run without error", 0) end end
function ops.n2() local ok, e = pcall( compilers.a.run, compilers.a, scratch .. "/tn", nil, scratch .. "/in.nested", scratch .. "/out.nested"); if not ok then error( e, 0) end end
function ops.n3() local ok, e = pcall( compilers.a.run, compilers.a, scratch .. "/tn", nil, scratch .. "/in.nestederr", scratch .. "/out.nested"); if ok then error( "nested run without error", 0) end end
-- others
function ops.g0() collectgarbage() end
function ops.c0() pcall( error, "caught") end
local origs = {}
local myprint = function() end
return function( comp, target, input, out, dbg, pre, n)
	trace = {}; N = n
	local g = {rawget( _G, "print"), rawget( _G, "print_section"), rawget( _G, "debug")}
	if pre == "n" then rawset( _G, "print", nil); rawset( _G, "debug", nil) elseif pre == "u" then rawset( _G, "print", myprint); rawset( _G, "print_section", myprint) end
	local h = {rawget( _G, "print"), rawget( _G, "print_section"), rawget( _G, "debug")}
	local r
	if dbg ~= nil then r = table.pack( pcall( compilers[ comp].run, compilers[ comp], target, nil, input, out, dbg))
	elseif out ~= nil then r = table.pack( pcall( compilers[ comp].run, compilers[ comp], target, nil, input, out))
	else r = table.pack( pcall( compilers[ comp].run, compilers[ comp], target, nil, input)) end
	local restored = rawequal( h[1], rawget( _G, "print")) and rawequal( h[2], rawget( _G, "print_section")) and rawequal( h[3], rawget( _G, "debug"))
	rawset( _G, "print", g[1]); rawset( _G, "print_section", g[2]); rawset( _G, "debug", g[3])
	return r[1] and "ok" or "err", r[1] and tostring( r.n-1) or (type( r[2]) .. ":" .. tostring( r[2])), restored and "restored" or "not restored", table.concat( trace, " ")
end
)LUA";

static std::string rd( const std::string& fn)
{
	std::string rt; int fd = open( fn.c_str(), O_RDONLY); if (fd < 0) return "<none>";
	char buf[ 65536]; ssize_t n; while ((n = read( fd, buf, sizeof buf)) > 0) rt.append( buf, n);
	close( fd); return rt;
}
static void wr( const std::string& fn, const std::string& s) {int fd = open( fn.c_str(), O_WRONLY|O_CREAT|O_TRUNC, 0644); if (fd < 0 || write( fd, s.data(), s.size()) != (ssize_t)s.size()) throw std::runtime_error( "cannot write " + fn); close( fd);}
static int openFiles()
{
	int n = 0; DIR* d = opendir( "/proc/self/fd"); if (!d) return -1; while (readdir( d)) ++n; closedir( d); return n;
}
static std::string dir()
{
	static std::string d; if (d.empty()) {d = mc::scratch() + fmt( "/w%d", (int)getpid()); mkdir( d.c_str(), 0755); mkdir( (d + "/dir").c_str(), 0755); wr( d + "/in.nested", "p1 s0 p2"); wr( d + "/in.nestederr", "p1 s0 e0"); wr( d + "/tn", "N{Code}|{Sec}|{Other}");}
	return d;
}
static const V& templates() {static const V t = {"", "{Code}", "{Sec}[{Code}]{Code}", "<{Source}|{Triple}>\n{Other}{Nope}{}", "%T = type { i8*, {Sec}, { i32 } }\n{A b}{Code", "no variables\n"}; return t;}

/// reference: what printing the arguments appends
struct Sections {std::string code; std::map<std::string,std::string> sec; std::string debug;};
static bool applyOp( const std::string& op, Sections& s, std::string& err, int N)
{
	if (op == "p0") {} else if (op == "p1") s.code += "a"; else if (op == "p2") s.code += "bc"; else if (op == "p3") s.code += "<nil>"; else if (op == "p4") s.code += "12.5-3";
	else if (op == "p5") s.code += "{1,\"x\"}"; else if (op == "p6") s.code += "{Code}{Sec}"; else if (op == "p7") s.code += std::string( "x\0y\n", 4); else if (op == "p8") s.code += "true<nil>z";
	else if (op == "s0") s.sec["Sec"] += "x"; else if (op == "s1") s.sec[""] += "y"; else if (op == "s2") s.sec["Code"] += "z"; else if (op == "s3") s.sec["Sec"]; else if (op == "s4") s.sec["A b"] += "{Sec}";
	else if (op == "s5") s.sec["Other"] += "1<nil>t"; else if (op == "s6") s.sec["S"] += "{a = 1}";
	else if (op == "q0") s.code += std::string( N, 'x') + "\ny"; else if (op == "q1") for (int i=1; i<=N; ++i) s.code += fmt( "%d", i); else if (op == "q2") for (int i=1; i<=N; ++i) s.sec[ fmt( "K%d", i)] += fmt( "%d ", i);
	else if (op == "q3") {s.code += "{"; for (int i=1; i<=N; ++i) s.code += fmt( i > 1 ? ",%d" : "%d", i); s.code += "}";} else if (op == "q4") s.sec[ "L" + std::string( N, 'o')] += "v"; else if (op == "q5") s.sec[ "Sec"] += std::string( N, 's') + "t";
	else if (op == "q6") s.code += "{k = \"" + std::string( N, 'x') + "\"}";
	else if (op == "d0") s.debug += "dbg1\n";
	else if (op == "e0") {err = "boom"; return false;} else if (op == "e1") {err = "?"; return false;} else if (op == "e2") {err = "?"; return false;} else if (op == "e3") {err = "?"; return false;} else if (op == "e4") {err = "?"; return false;}
	else if (op == "e5") {err = "attempt to index"; return false;} else if (op == "e6") {err = "4711"; return false;} else if (op == "e7") {err = "at level 0"; return false;}
	else if (op == "x0") {s.code += "lost"; s.sec["Sec"] += "lost"; s.sec["New"] += "lost";}
	else if (op == "n0" || op == "n1" || op == "n2" || op == "n3" || op == "g0" || op == "c0") {}
	else throw std::runtime_error( "op " + op);
	return true;
}
/// reference: substitution of the variables of the template; false if it is not specified
static bool subst( const std::string& t, const std::map<std::string,std::string>& m, std::string& out)
{
	for (std::size_t i=0; i<t.size();)
	{
		if (t[i] != '{') {out.push_back( t[i++]); continue;}
		std::size_t e = t.find( '}', i);
		if (e == std::string::npos) {out += t.substr( i); return true;}
		std::string key = t.substr( i+1, e-i-1); auto mi = m.find( key);
		if (mi != m.end()) {out += mi->second; i = e+1; continue;}
		bool ident = !key.empty() && (isalpha( (unsigned char)key[0]) || key[0] == '_'); for (char c : key) if (!isalnum( (unsigned char)c) && c != '_') ident = false;
		if (ident && key.size() == 1) return false;	// one letter: not specified
		if (key.empty()) return false;
		if (ident) {i = e+1; continue;}
		out.push_back( t[i++]);
	}
	return true;
}
static std::string basename_( std::string f) {auto p = f.find_last_of( '/'); if (p != std::string::npos) f = f.substr( p+1); p = f.find_last_of( '.'); if (p != std::string::npos && p > 0) f = f.substr( 0, p); return f;}

static void runRuns( const std::string& text, Ctx& ctx)
{
	
	lh::Host& h = lh::host( 64, 3000); lua_State* L = h.L; std::string D = dir();
	static lua_State* prepared = nullptr; static int ref = LUA_NOREF;
	if (prepared != L || (lua_getglobal( L, "prepared"), lua_isnil( L, -1)))
	{
		lua_settop( L, 0);
		std::string def; {std::vector<mewa::Error> w; mewa::Automaton am; am.build( "OP : '[a-z][0-9]';\nS = L;\nL = T L | ε;\nT = OP (op);\n", w, mewa::Automaton::DebugOutput()); def = am.tostring();}
		if (luaL_loadbuffer( L, RUNTIME, strlen( RUNTIME), "=runtime")) throw mc::Failure( std::string( "runtime: ") + lua_tostring( L, -1));
		lua_pushlstring( L, def.data(), def.size()); lua_pushstring( L, D.c_str());
		if (lua_pcall( L, 2, 1, 0)) throw mc::Failure( std::string( "runtime: ") + lua_tostring( L, -1));
		ref = luaL_ref( L, LUA_REGISTRYINDEX); lua_pushboolean( L, 1); lua_setglobal( L, "prepared"); prepared = L;
	}
	lua_settop( L, 0);
	auto runs = mc::split( text, ';'); std::string outfile = D + "/out", prev = "<previous content>"; wr( outfile, prev); wr( D + "/out.nested", "<none>");
	int ri = 0;
	for (auto& rtext : runs)
	{
		++ri; auto f = mc::split( rtext, ','); f.resize( 7); int N = atoi( f[6].c_str());
		std::string tmpl, target; bool fail = false; std::string err, input, what = fmt( "run %d (%s): ", ri, rtext.c_str());
		bool syntax = f[2] == "??"; V ops; if (!syntax) for (std::size_t i=0; i+1<f[2].size(); i+=2) ops.push_back( f[2].substr( i, 2));
		input = syntax ? std::string( "p1 = p2") : mc::join( ops, " ");
		std::string infile = f[2] == "!!" ? D + "/missing" : D + "/in"; wr( D + "/in", input);
		if (f[2] == "!!") {ops.clear(); fail = true; err = "No such file";}
		if (f[1] == "-") target = ""; else if (f[1] == "!") {target = D + "/missing.tpl"; if (!fail) {fail = true; err = "No such file";}}
		else if (f[1][0] == '=') {target = D + "/" + f[1].substr( 1); tmpl = "{Triple}"; wr( target, tmpl);}
		else if (f[1] == "N") {for (int i=1; i<=N; ++i) tmpl += fmt( "%d{K%d}{Nope}", i, i); tmpl += "{L" + std::string( N, 'o') + "}{Code}{Sec}{L" + std::string( N+1, 'o') + "}" + std::string( N, '-') + "{Code}"; target = D + "/x86_64-pc-linux.gnu.tpl"; wr( target, tmpl);}
		else {tmpl = f[1][0] == ':' ? mc::unhex( f[1].substr( 1)) : templates().at( atoi( f[1].c_str())); target = D + "/x86_64-pc-linux.gnu.tpl"; wr( target, tmpl);}
		Sections s; bool nested = false, nesteda = false;
		bool precheck = fail;	// files are read first: the program does not run
		std::string dbgfile = D + "/dbg"; unlink( dbgfile.c_str());
		if (f[4] == "m") {if (!fail) {fail = true; precheck = true; err = "No such file";}}
		std::string ranops;
		if (!precheck) {if (syntax) {fail = true; err = "at line 1";} else for (auto& o : ops) {ranops += (ranops.empty() ? "" : " ") + o; if (o[0] == 'n' && (f[0] != "b" || o == "n2" || o == "n3")) {nested = true; if (o == "n2" || o == "n3") nesteda = f[0] == "a";} else if (o[0] == 'n') {nested = nesteda = true;} if (!applyOp( o, s, err, N)) {fail = true; break;}}}
		std::string expout; bool spec = true;
		if (!fail)
		{
			auto m = s.sec; m["Source"] = infile; m["Triple"] = target.empty() ? "" : basename_( target); m["Code"] += s.code;
			if (target.empty()) spec = subst( "", m, expout); else spec = subst( tmpl, m, expout);
		}
		if (!fail && f[3] == "m") {fail = true; err = "No such file";}
		if (!fail && f[3] == "d") {fail = true; err = "directory";}
		const char* out = nullptr; std::string outarg = f[3] == "f" ? outfile : f[3] == "s" ? "stdout" : f[3] == "e" ? "stderr" : f[3] == "d" ? D + "/dir" : f[3] == "m" ? D + "/nodir/out" : "";
		if (f[3] != "n") out = outarg.c_str();
		std::string dbgarg = f[4] == "f" ? dbgfile : f[4] == "m" ? D + "/nodir/dbg" : f[4] == "o" ? "stderr" : "";
		// run with stdout and stderr redirected to files
		fflush( stdout); fflush( stderr); std::cerr.flush();
		int so = dup( 1), se = dup( 2); int fo = open( (D + "/so").c_str(), O_RDWR|O_CREAT|O_TRUNC, 0644), fe = open( (D + "/se").c_str(), O_RDWR|O_CREAT|O_TRUNC, 0644); dup2( fo, 1); dup2( fe, 2); close( fo); close( fe);
		int fds = openFiles();
		lua_rawgeti( L, LUA_REGISTRYINDEX, ref); lua_pushstring( L, f[0].c_str()); if (target.empty()) lua_pushnil( L); else lua_pushstring( L, target.c_str()); lua_pushstring( L, infile.c_str());
		if (out) lua_pushstring( L, out); else lua_pushnil( L);
		if (!dbgarg.empty()) lua_pushstring( L, dbgarg.c_str()); else lua_pushnil( L);
		lua_pushstring( L, f[5].c_str()); lua_pushinteger( L, N);
		int rc = lua_pcall( L, 7, 4, 0); std::string m1 = lua_tostring( L, 1) ? lua_tostring( L, 1) : "?"; V r; if (!rc) for (int i=1; i<=4; ++i) {size_t n; const char* p = lua_tolstring( L, i, &n); r.push_back( std::string( p, n));}
		lua_settop( L, 0);
		int fds2 = openFiles();
		fflush( stdout); fflush( stderr); std::cerr.flush(); dup2( so, 1); dup2( se, 2); close( so); close( se);
		if (rc) ctx.fail( what + "error in the driver: " + m1);
		std::string gotout = rd( D + "/so"), goterr = rd( D + "/se"), gotfile = rd( outfile), gotdbg = rd( dbgfile), gotnested = rd( D + "/out.nested");
		ctx.transition(); ctx.state( f[0] + f[1] + f[3] + f[4] + r[0] + s.code + "|" + expout);
		if (ctx.verbose) printf( "%s-> %s %s %s, called %s\nstdout: %s\nstderr: %s\nfile: %s\ndebug: %s\nnested: %s\nexpected: %s %s\n", what.c_str(), r[0].c_str(), r[1].c_str(), r[2].c_str(), r[3].c_str(), gotout.c_str(), goterr.c_str(), gotfile.c_str(), gotdbg.c_str(), gotnested.c_str(), fail ? "error" : "output", fail ? err.c_str() : expout.c_str());
		bool ok = r[0] == "ok";
		if (ok && fail) ctx.fail( what + "no error, expected one: " + err);
		if (!ok && !fail) ctx.fail( what + "failed: " + r[1]);
		if (ok && r[1] != "0") ctx.fail( what + "returns " + r[1] + " values");
		if (!ok && (r[1].compare( 0, 7, "string:") || r[1].size() < 9)) ctx.fail( what + "the error is no text: " + r[1]);
		if (!ok && err != "?" && r[1].find( err) == std::string::npos) ctx.fail( what + "error text without '" + err + "': " + r[1]);
		if (r[2] != "restored") ctx.fail( what + "print, print_section and debug not restored after the run");
		if (fds != fds2) ctx.fail( what + fmt( "%d files open before, %d after", fds, fds2));
		if (!nested && r[3] != (precheck || syntax ? std::string() : ranops)) ctx.fail( what + "functions called: " + r[3] + ", expected: " + ranops);
		// a function of a nested run is part of the trace only of the nested one
		std::string expso, expfile = prev;
		if (!fail) {if (f[3] == "s" || f[3] == "n") expso = expout + "\n"; else if (f[3] == "f") expfile = expout;}
		if (spec || fail)
		{
			if (gotfile != expfile) ctx.fail( what + "content of the output file: " + gotfile + "\nexpected: " + expfile);
			if (gotout != expso) ctx.fail( what + "standard output: " + gotout + "\nexpected: " + expso);
			if (f[3] == "e" && !fail && f[4] != "o" && !expout.empty() && goterr.find( expout) == std::string::npos) ctx.fail( what + "standard error: " + goterr + "\nexpected: " + expout);
		}
		prev = gotfile;
		if (!precheck && !s.debug.empty())
		{
			std::string got = f[4] == "f" ? gotdbg : goterr; std::size_t cnt = 0, pos = 0; while ((pos = got.find( "dbg1\n", pos)) != std::string::npos) {++cnt; pos += 5;}
			if (cnt != s.debug.size() / 5) ctx.fail( what + fmt( "%zu lines of debug output of the functions, expected %zu: ", cnt, s.debug.size() / 5) + got);
		}
		if (f[4] == "f" && !precheck && !syntax && gotdbg == "<none>") ctx.fail( what + "no debug output file");
		for (auto& o : ops) if ((o == "n0" || o == "n2") && ranops.find( o) != std::string::npos) if (gotnested != "Nabc|x|") ctx.fail( what + "output of the nested run: " + gotnested);
		(void)nesteda;
	}
	ctx.trace();
}
// Case Lnumber,kept: 'number' compilers are created one after the other, every one with functions of its own. Those with an index that is a multiple of 'kept' (0: only the first)
// stay in use while the others are collected: a run on each of them always calls its own functions.
static const char LIFETIME[] =
"local def, D, number, kept = ...\n"
"local mewa = require('mewa')\n"
"local mk = load( 'local typesystem, mewa = ... return mewa.compiler( ' .. def .. ')')\n"
"local used = {}\n"
"local function check( i, c)\n"
"	called = {}\n"
"	c:run( nil, nil, D .. '/in', D .. '/out')\n"
"	if called[1] ~= i or called[2] ~= nil then error( 'a run on compiler ' .. i .. ' of ' .. number .. ' calls functions of ' .. tostring( called[1]), 0) end\n"
"end\n"
"for i=1,number do\n"
"	local c = mk( {op = function() called[ #called+1] = i end}, mewa)\n"
"	check( i, c)\n"
"	if kept == 0 and i == 1 or kept > 0 and i % kept == 0 then used[ #used+1] = {i, c} end\n"
"	c = nil\n"
"	if i % 64 == 0 or i == number then collectgarbage() collectgarbage() end\n"
"	if i % 64 == 0 or i == number or #used <= 2 then for _,u in ipairs( used) do if kept == 0 or u[1] % 7 == i % 7 then check( u[1], u[2]) end end end\n"
"end\n"
"for _,u in ipairs( used) do check( u[1], u[2]) end\n"
"used = nil collectgarbage() collectgarbage()\n"
"local n = 0 for k,_ in pairs( _G) do if tostring(k):match( '^mewa[.]') then n = n + 1 end end\n"
"return n\n";
static void runLifetime( const std::string& text, Ctx& ctx)
{
	std::string D = dir();
	lh::Host h; lua_State* L = h.L; lua_settop( L, 0);
	auto f = mc::split( text.substr( 1), ','); wr( D + "/in", "p1");
	std::string def; {std::vector<mewa::Error> w; mewa::Automaton am; am.build( "OP : '[a-z][0-9]';\nS = L;\nL = T L | ε;\nT = OP (op);\n", w, mewa::Automaton::DebugOutput()); def = am.tostring();}
	if (luaL_loadbuffer( L, LIFETIME, strlen( LIFETIME), "=lifetime")) throw mc::Failure( std::string( "lifetime: ") + lua_tostring( L, -1));
	lua_pushlstring( L, def.data(), def.size()); lua_pushstring( L, D.c_str()); lua_pushinteger( L, atoi( f[0].c_str())); lua_pushinteger( L, atoi( f[1].c_str()));
	if (lua_pcall( L, 4, 1, 0)) ctx.fail( std::string( "error: ") + lua_tostring( L, -1));
	if (lua_tointeger( L, -1) != 0) ctx.fail( fmt( "%d global values of collected compilers are left", (int)lua_tointeger( L, -1)));
	lua_settop( L, 0);
	ctx.transition( atoi( f[0].c_str())); ctx.state( text); ctx.trace();
}
static void runB06( const std::string& text, Ctx& ctx) {if (text[0] == 'L') runLifetime( text, ctx); else runRuns( text, ctx);}
static void enumB03( bool thorough, const Sink& sink)
{
	V ops = {"p0","p1","p2","p3","p4","p5","p6","p7","p8","s0","s1","s2","s3","s4","s5","s6","d0"};
	int nt = templates().size();
	// programs
	V lvl = {""};
	for (int d=0; d<=(thorough ? 4 : 3); ++d)
	{
		V next;
		for (auto& w : lvl) {for (int t = (d >= 3 ? 1 : 0); t<(d >= (thorough ? 4 : 3) ? 3 : nt); ++t) sink( fmt( "a,%d,%s,f,-,-", t, w.c_str())); for (auto& o : ops) next.push_back( w + o);}
		lvl = next;
	}
	// templates
	V pc = {"{","}","Code","Sec","A b","x1","Nope"," ","\n","{Code}","{Sec}","{i8*}","$","_x"}; V tl = {""};
	for (int d=0; d<=(thorough ? 5 : 4); ++d) {V next; for (auto& t : tl) {sink( "a,:" + mc::hexs( t) + ",p1s0s4,f,-,-"); if (d < (thorough ? 5 : 4)) for (auto& p : pc) next.push_back( t + p);} tl = next;}
	// output, debug, target names
	for (auto w : {"","p1","s0p1","d0","d0p1d0","p7"}) for (auto o : {"f","s","n","e","d","m"}) for (auto d : {"-","f","m","o"}) for (auto t : {"-","0","1","2","3","4","!"}) for (auto p : {"-","n","u"}) sink( fmt( "a,%s,%s,%s,%s,%s", t, w, o, d, p));
	for (auto t : {"x","x.tpl","x.y.z","x86_64-pc-linux-gnu.tpl",".x","x.",".x.y","a b.c","..x","x..y","noext"}) for (auto o : {"f","s"}) sink( fmt( "a,=%s,p1,%s,-,-", t, o));
	// size of the output
	for (int n=1; n<=(thorough ? 70000 : 5000); n += n < 40 ? 1 : n < 300 ? 13 : n < 1200 ? 97 : 1201) for (auto w : {"q0","q1","q2","q3","q4","q5","q6","p1q0s0q5","q2q4q5q0"}) if (n <= 200 || std::string( w) != "q1") sink( fmt( "a,N,%s,f,-,-,%d", w, n));
	for (int n : {127,128,129,255,256,257,511,512,513,1023,1024,1025,2047,2048,2049,4095,4096,4097,8191,8192,8193,16384,32767,32768,65535,65536,65537,200000}) for (auto w : {"q0","q2","q3","q4","q5","q6"}) if (n < 9000 || (w[1] != '2' && w[1] != '3')) for (auto o : {"f","s"}) sink( fmt( "a,N,%s,%s,-,-,%d", w, o, n));
	for (int n : {1,2,10,100,1000,5000,20000}) {std::string w; for (int i=0; i<n; ++i) w += i % 3 ? "p2" : "s0"; for (auto o : {"f","s"}) sink( "a,2," + w + "," + o + ",-,-");}
}
static void enumB06( bool thorough, const Sink& sink)
{
	for (int n : {1,2,3,4,5,10,11,16,17,64,99,100,101,127,128,129,255,256,257,258,300,511,512,513,999,1000,1001,1023,1024,1025}) for (int k : {0,1,2,3,64}) if (k <= n) sink( fmt( "L%d,%d", n, k));
	for (int n : {4100, thorough ? 66000 : 10100}) for (int k : {0,1000}) sink( fmt( "L%d,%d", n, k));
	V kinds;
	for (auto w : {"p1s0p2","s5p7","s4p0s3"}) kinds.push_back( fmt( "2,%s,f,-,-", w));	// complete runs
	kinds.push_back( "3,p1,s,-,-"); kinds.push_back( "1,s0d0p1,f,f,-");
	for (auto e : {"e0","e1","e2","e3","e4","e5","e6","e7"}) for (auto w : {"", "x0", "x0p1"}) kinds.push_back( fmt( "2,%s%sp1,f,-,-", w, e));
	for (auto e : {"e0","e2"}) for (auto d : {"f","o"}) for (auto p : {"-","n","u"}) kinds.push_back( fmt( "2,x0d0%s,f,%s,%s", e, d, p));
	kinds.push_back( "2,??,f,-,-"); kinds.push_back( "2,??,f,f,n"); kinds.push_back( "2,!!,f,-,-"); kinds.push_back( "!,x0,f,-,-"); kinds.push_back( "2,x0,d,-,-"); kinds.push_back( "2,x0,m,-,u"); kinds.push_back( "2,x0,f,m,-"); kinds.push_back( "2,x0,m,f,-");
	for (auto n : {"n0","n1","n2","n3"}) for (auto w : {"p1s0%sp2s5","%s","x0%se0","d0%sd0"}) kinds.push_back( "2," + fmt( w, n) + ",f," + (std::string( w) == "d0%sd0" ? "f" : "-") + ",-");
	kinds.push_back( "2,p1g0s0,f,-,-"); kinds.push_back( "2,c0p1,f,-,-");
	V good = {"2,p1s0p2,f,-,-", "3,s5p7,s,-,-", "4,p1s4,f,f,u", "2,p1n0s0,f,-,-"};
	for (auto& a : kinds) {sink( "a," + a); for (auto& b : kinds) {sink( "a," + a + ";a," + b); sink( "a," + a + ";b," + b); for (auto& g : good) for (auto c : {"a","b"}) if (thorough || g == good[0]) {sink( "a," + a + ";a," + b + ";" + c + "," + g); if (thorough) sink( "a," + a + ";b," + b + ";" + c + "," + g);}}}
}
int main( int argc, char** argv)
{
	std::map<std::string,mc::Property> props;
	props["B03"] = {enumB03, runRuns, "one case = one run with one program of print, print_section and debug calls, one template, one kind of output; output compared with the reference; states = distinct outputs", 30};
	props["B06"] = {enumB06, runB06, "one case = one history of up to 3 runs on 2 compilers, complete or failing at every place a run can fail; output, globals, open files after each of them; states = distinct results", 30};
	return mc::main_( argc, argv, props);
}
