// B07: objects, Lua threads and Lua states do not influence each other
// Case: context,program,program,schedule     program = two character operations; schedule = 'a'|'b' (next operation of that program),
//   '(' ... ')' after an operation X4: these operations are executed inside of the function called by the compiler
//   context: m both on the main thread, c every program in a coroutine of its own, s Lua states of their own, x every operation of b in a new coroutine
#include "luahost.hpp"
#include "automaton.hpp"
#include "error.hpp"
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
using mc::fmt; using mc::Ctx; using mc::Sink;
typedef std::vector<std::string> V;

static const char* RUNTIME = R"LUA(
local mewa = mewa
local def, scratch = ...
local function ser( v, d)
	d = d or 0
	if type( v) == "table" then
		if d > 6 then return "..." end
		local keys = {}; for k in pairs( v) do keys[ #keys+1] = k end
		table.sort( keys, function( a, b) if type( a) ~= type( b) then return type( a) < type( b) end; return a < b end)
		local rt = "{"; for _,k in ipairs( keys) do rt = rt .. tostring( k) .. "=" .. ser( v[ k], d+1) .. "," end; return rt .. "}"
	elseif type( v) == "userdata" or type( v) == "function" or type( v) == "thread" then return type( v)
	elseif type( v) == "number" then return string.format( "%.17g", v) end
	return type( v) .. ":" .. tostring( v)
end
local function tree( n, list)
	local rt = "[" .. ser( n:scope())
	local l = n[ list]( n)
	rt = rt .. (list == "instance" and ser( l) or ser( l))
	for c in n:chld() do rt = rt .. tree( c, list) end
	return rt .. "]"
end
local typesystem = {}
local current		-- actor whose compiler runs
function typesystem.op( node, ...)
	local A = current
	local c = node.arg[1].value
	if c == "p1" then print( A.name, A.count)
	elseif c == "s1" then print_section( "Sec", A.name)
	elseif c == "d1" then debug( A.name)
	elseif c == "e1" then error( "err of " .. A.name)
	elseif c == "n1" then nested(); current = A
	elseif c == "t1" then if A.db then print( A.db:type_string( A.db:def_type( 0, "inrun" .. A.count))) end
	else print( ser( node)) end
end
local function compiler() return mewa.compiler( assert( load( "local typesystem = ...; return " .. def, "=def"))( typesystem)) end
local ops = {}
-- typedb
function ops.c1( A) A.db = mewa.typedb(); return "new" end
function ops.s1( A) return ser( A.db:scope{ 0, 10}) end
function ops.s2( A) return ser( A.db:scope{ 2, 5}) end
function ops.n1( A) return ser( A.db:step( 3)) end
function ops.n2( A) return ser( A.db:step( 7)) end
function ops.t1( A) A.obj = {"o" .. A.name}; A.ta = A.db:def_type( 0, "t", A.obj); return A.ta end
function ops.t2( A) A.tb = A.db:def_type( A.ta or 0, A.name .. "u", "c2", {A.ta or 0}); return A.tb end
function ops.t3( A) return A.db:def_type( "x") end
function ops.t4( A) return A.db:def_type_as( 0, A.name .. "as", A.ta or 1) end
function ops.r1( A) return A.db:def_reduction( A.tb or 2, A.ta or 1, "red" .. A.name, 1, 0.5) end
function ops.r2( A) return A.db:def_reduction( A.ta or 1, A.tb or 2, A.obj, 2, 1.5) end
function ops.q1( A) local ctx, red, items = A.db:resolve_type( {0, A.ta or 0}, "t"); return ser( ctx) .. ser( red) .. ser( items) end
function ops.q2( A) local red, w = A.db:derive_type( A.tb or 2, A.ta or 1); return ser( red) .. ser( w) end
function ops.q3( A) return ser( A.db:get_reductions( A.ta or 1)) end
function ops.q4( A) return tree( A.db:type_tree(), "list") .. tree( A.db:reduction_tree(), "list") end
function ops.q5( A) local rt = ""; for i=1,4 do local ok, s = pcall( A.db.type_string, A.db, i); rt = rt .. tostring( s) .. "," end; return rt end
function ops.q6( A) return rawequal( A.obj, A.ta and A.db:type_constructor( A.ta)) end
function ops.i1( A) return ser( A.db:set_instance( "i", A.name .. A.count)) end
function ops.i2( A) return ser( A.db:get_instance( "i")) .. ser( A.db:this_instance( "i")) end
function ops.i3( A) return tree( A.db:instance_tree( "i"), "instance") end
function ops.w1( A) A.tr = A.db:type_tree(); return "tree" end
function ops.w2( A) return tree( A.tr, "list") end
function ops.f1( A) A.db = nil; A.tr = nil; collectgarbage(); return "dropped" end
function ops.g1( A) collectgarbage(); return "gc" end
-- compiler
function ops.C1( A) A.c = compiler(); return "compiler" end
local function run( A, src, dbg)
	local f = io.open( scratch .. "/in" .. A.name, "w"); f:write( src); f:close()
	local saved = current; current = A
	local ok, e
	if dbg then ok, e = pcall( A.c.run, A.c, scratch .. "/tpl", nil, scratch .. "/in" .. A.name, scratch .. "/out" .. A.name, scratch .. "/dbg" .. A.name)
	else ok, e = pcall( A.c.run, A.c, scratch .. "/tpl", nil, scratch .. "/in" .. A.name, scratch .. "/out" .. A.name) end
	current = saved
	local o = ""
	if ok then f = io.open( scratch .. "/out" .. A.name); o = f:read( "*a"); f:close() end
	if dbg then f = io.open( scratch .. "/dbg" .. A.name); local d = f:read( "*a"); f:close(); o = o .. "|" .. d:gsub( A.name, "N") end
	return tostring( ok) .. ":" .. tostring( e) .. ":" .. o
end
function ops.X1( A) return run( A, "p1 s1 p1 x1") end
function ops.X2( A) return run( A, "p1 s1 = p1") end
function ops.X3( A) return run( A, "p1 s1 e1 p1") end
function ops.X4( A) return run( A, "p1 s1 n1 p1 s1") end
function ops.X5( A) return run( A, "d1 p1 d1", true) end
function ops.X6( A) return run( A, "p1 n1 d1 e1", true) end
function ops.X7( A) return run( A, "t1 p1 n1 t1") end
function ops.D1( A) A.c = nil; collectgarbage(); return "dropped" end
function ops.S1( A) return tostring( #tostring( A.c)) end
-- functions
function ops.m1( A) return mewa.tostring( {A.name, {x = A.count}, "\n"}, 5, true) end
function ops.m2( A) return mewa.llvm_float_tohex( A.count + 0.1) .. mewa.llvm_double_tohex( A.count) end
function ops.m3( A) return ser( mewa.stacktrace( 3)) end
local function deep( n) return n == 0 and "end" or {n, sub = deep( n-1)} end
function ops.m4( A) return mewa.tostring( deep( 11)) end
function ops.m5( A) return mewa.tostring( deep( 11), nil, true) .. mewa.tostring( deep( 3), 2) .. mewa.tostring( {}) end
function ops.m6( A) return ser( mewa.stacktrace( 5, {"op", A.name})) .. ser( mewa.stacktrace()) .. ser( mewa.stacktrace( 1)) end
function ops.e1( A) return mewa.typedb( 1, 2) end
function ops.e2( A) return (A.db or A.c):run( {}) end
local actors = {}
local function op( name, o)
	local A = actors[ name]; A.count = A.count + 1
	local r = table.pack( pcall( ops[ o], A))
	return r[1] and ser( r[2]) or "error " .. tostring( r[2])
end
return {
reset = function() actors = {}; current = nil; collectgarbage() end,
actor = function( name, mode)
	-- the name has no influence on the results expected: the same program alone is run with the same name
	local A = {name = name, count = 0}
	actors[ name] = A
	if mode == "c" then A.co = coroutine.wrap( function( o) while true do o = coroutine.yield( op( name, o)) end end) end
	A.mode = mode
end,
step = function( name, o)
	local A = actors[ name]
	if A.mode == "c" then return A.co( o) elseif A.mode == "x" then return coroutine.wrap( op)( name, o) end
	return op( name, o)
end
}
)LUA";

static std::string dir()
{
	static std::string d; if (d.empty()) {d = mc::scratch() + fmt( "/m%d", (int)getpid()); mkdir( d.c_str(), 0755); FILE* f = fopen( (d + "/tpl").c_str(), "w"); fputs( "<{Code}|{Sec}>", f); fclose( f);}
	return d;
}
static std::string g_def;
static int nestedFn( lua_State*);
struct State {lh::Host* h; int ref; int uses;};
static State mkState()
{
	State s; s.h = new lh::Host(); s.uses = 0; lua_State* L = s.h->L;
	if (g_def.empty()) {std::vector<mewa::Error> w; mewa::Automaton am; am.build( "OP : '[a-z][0-9]';\nS = L;\nL = T L | ε;\nT = OP (op);\n", w, mewa::Automaton::DebugOutput()); g_def = am.tostring();}
	lua_pushcfunction( L, nestedFn); lua_setglobal( L, "nested");
	if (luaL_loadbuffer( L, RUNTIME, strlen( RUNTIME), "=runtime")) throw mc::Failure( lua_tostring( L, -1));
	lua_pushlstring( L, g_def.data(), g_def.size()); lua_pushstring( L, dir().c_str());
	if (lua_pcall( L, 2, 1, 0)) throw mc::Failure( std::string( "runtime: ") + lua_tostring( L, -1));
	s.ref = luaL_ref( L, LUA_REGISTRYINDEX); return s;
}
static State& state( int i)
{
	static State s[2] = {{nullptr,0,0},{nullptr,0,0}};
	if (s[i].h && ++s[i].uses > 300) {delete s[i].h; s[i].h = nullptr;}
	if (!s[i].h) s[i] = mkState();
	return s[i];
}
struct Actor {std::string name; V prog; State* st; std::size_t next = 0; V results;};
struct Sched {std::vector<Actor> actors; std::string s; std::size_t pos = 0; std::map<lua_State*,lua_State*> cur /*main thread -> thread running*/; std::string failure; uint64_t steps = 0;};
static Sched* g_s = nullptr;
static void schedule( Sched& s, bool nested);
static void callLua( State& st, const char* fn, const V& args, std::string* res)
{
	lua_State* L = st.h->L; if (g_s && g_s->cur.count( L)) L = g_s->cur[L];
	int top = lua_gettop( L); luaL_checkstack( L, 10, "call");
	lua_rawgeti( L, LUA_REGISTRYINDEX, st.ref); lua_getfield( L, -1, fn); lua_remove( L, -2);
	for (auto& a : args) lua_pushlstring( L, a.data(), a.size());
	int rc = lua_pcall( L, args.size(), 1, 0);
	std::string r = lua_tostring( L, -1) ? lua_tostring( L, -1) : ""; lua_settop( L, top);
	if (rc) {if (g_s) g_s->failure = std::string( fn) + ": " + r; if (res) *res = "driver error " + r; else throw mc::Failure( r);}
	else if (res) *res = r;
}
static int nestedFn( lua_State* L)
{
	if (!g_s || g_s->pos >= g_s->s.size() || g_s->s[ g_s->pos] != '(') return 0;
	lua_rawgeti( L, LUA_REGISTRYINDEX, LUA_RIDX_MAINTHREAD); lua_State* main = lua_tothread( L, -1); lua_pop( L, 1);
	lua_State* prev = g_s->cur.count( main) ? g_s->cur[ main] : main;
	g_s->cur[ main] = L; ++g_s->pos; schedule( *g_s, true); g_s->cur[ main] = prev; return 0;
}
static void schedule( Sched& s, bool nested)
{
	while (s.pos < s.s.size())
	{
		char c = s.s[ s.pos++];
		if (c == ')') {if (nested) return; else continue;}
		if (c == '(') {if (!nested) continue; continue;}
		Actor& a = s.actors[ c - 'a']; if (a.next >= a.prog.size()) continue;
		std::string r; std::size_t i = a.next++; a.results.resize( a.prog.size()); ++s.steps;
		callLua( *a.st, "step", {a.name, a.prog[i]}, &r); a.results[i] = r;
	}
}
static V ops2( const std::string& p) {V rt; for (std::size_t i=0; i+1<p.size(); i+=2) rt.push_back( p.substr( i, 2)); return rt;}
static const V& alone( const std::string& prog, const std::string& name)
{
	static std::map<std::string,V> memo; auto& m = memo[ name + prog]; if (!m.empty() || prog.empty()) return m;
	State st = mkState(); Sched s; s.actors.push_back( {name, ops2( prog), &st}); s.s = std::string( prog.size()/2, 'a'); Sched* saved = g_s; g_s = &s;
	callLua( st, "actor", {name, "m"}, nullptr); schedule( s, false); g_s = saved; m = s.actors[0].results; delete st.h; return m;
}
static void runB07( const std::string& text, Ctx& ctx)
{
	auto f = mc::split( text, ','); char k = f[0][0]; V ea = alone( f[1], "A"), eb = alone( f[2], "B");
	State& s0 = state( 0); State* s1 = k == 's' ? &state( 1) : &s0; V none;
	callLua( s0, "reset", none, nullptr); if (s1 != &s0) callLua( *s1, "reset", none, nullptr);
	Sched s; s.actors.push_back( {"A", ops2( f[1]), &s0}); s.actors.push_back( {"B", ops2( f[2]), s1}); s.s = f[3]; g_s = &s;
	callLua( s0, "actor", {"A", k == 'c' ? "c" : "m"}, nullptr); callLua( *s1, "actor", {"B", k == 'c' ? "c" : k == 'x' ? "x" : "m"}, nullptr);
	schedule( s, false); g_s = nullptr;
	if (!s.failure.empty()) ctx.fail( "driver: " + s.failure);
	ctx.transitions += s.steps; ++ctx.traces;
	for (int i=0; i<2; ++i)
	{
		Actor& a = s.actors[i]; const V& e = i ? eb : ea;
		for (std::size_t j=0; j<a.next; ++j)
		{
			if (ctx.verbose) printf( "%s %s: %s\n", a.name.c_str(), a.prog[j].c_str(), a.results[j].c_str());
			if (a.results[j] != e[j]) ctx.fail( fmt( "operation %zu of %s (%s): ", j+1, a.name.c_str(), a.prog[j].c_str()) + a.results[j] + "\nalone: " + e[j]);
		}
	}
	ctx.state( f[1] + "|" + f[2] + "|" + f[3] + "|" + mc::join( s.actors[0].results, "\n") + mc::join( s.actors[1].results, "\n"));
}
static void interleavings( const V& a, const V& b, bool thorough, int bound, const std::function<void( const std::string&)>& sink)
{
	// all interleavings with at most bound changes of the program, and all with a block of operations inside of a function called and bound-1 others
	std::function<void( std::size_t, std::size_t, const std::string&)> rec = [&]( std::size_t i, std::size_t j, const std::string& s)
	{
		int sw = 0; char last = 0; for (char c : s) {if (c == ')') last = 0; else {if (last && c != last && c != '(') ++sw; if (c == '(') ++sw, last = 0; else last = c;}}
		if (sw > bound) return;
		if (i == a.size() && j == b.size()) {sink( s); return;}
		if (i < a.size())
		{
			rec( i+1, j, s + "a");
			if (a[i] == "X4" || a[i] == "X6" || a[i] == "X7") for (std::size_t n=1; j+n<=b.size() && n<=(thorough ? 6 : 3); ++n) rec( i+1, j+n, s + "a(" + std::string( n, 'b') + ")");
		}
		if (j < b.size())
		{
			rec( i, j+1, s + "b");
			if (b[j] == "X4" || b[j] == "X6" || b[j] == "X7") for (std::size_t n=1; i+n<=a.size() && n<=(thorough ? 6 : 3); ++n) rec( i+n, j+1, s + "b(" + std::string( n, 'a') + ")");
		}
	};
	rec( 0, 0, "");
}
static void enumB07( bool thorough, const Sink& sink)
{
	V progs = {"c1s1t1s2t2r1q1", "c1t1t2r1r2q2", "c1s1n1i1n2i2i3", "c1t1w1t2w2g1", "c1t1t3q5q6f1", "C1X1X3X1", "C1X4S1X5", "C1X2X4D1", "c1C1t1X7q5q4", "C1X6X1g1", "m1m2m3e1", "m4m6m5m4", "c1t1t4q3q4q6", "c1e2t1r2q1", "C1X3X2X1e2"};
	if (thorough) for (auto p : {"c1s1t1t2n1r1q1q2q4","c1t1f1c1t2q5","C1D1C1X4X1","c1C1X7X7q4g1","c1i1s2i1i2i3f1","C1X5X6X5"}) progs.push_back( p);
	for (auto& a : progs) for (auto& b : progs) for (auto k : {"m","c","s","x"})
	{
		V pa = ops2( a), pb = ops2( b);
		interleavings( pa, pb, thorough, thorough ? 4 : k[0] == 'm' || k[0] == 's' ? 3 : 2, [&]( const std::string& s) {sink( std::string( k) + "," + a + "," + b + "," + s);});
	}
}

int main( int argc, char** argv)
{
	std::map<std::string,mc::Property> props;
	props["B07"] = {enumB07, runB07, "one case = two programs of operations on objects of their own (on the same thread, on coroutines, in Lua states of their own), one interleaving, also inside of functions called by a running compiler; every result has to be the one of the program running alone; states = distinct (programs, interleaving, results)", 30};
	return mc::main_( argc, argv, props);
}
