// C03: a call that runs out of memory fails with an error and has no effect; nothing is lost, the objects stay usable
// Case: mode;prefix;op   mode C allocations of mewa fail, L also those of Lua, P from the n-th on all of them fail (C) until the call returns
//   prefix: operations executed before, separated by ' '; op: operation under test. All n are enumerated in one case.
#include "luahost.hpp"
#include "automaton.hpp"
#include "typedb.hpp"
#include "error.hpp"
#include <malloc.h>
#include <fcntl.h>
#include <sys/stat.h>
using mc::fmt; using mc::Ctx; using mc::Sink;
typedef std::vector<std::string> V;

static long g_live = 0;		// blocks of memory in use, without those of Lua
static long g_count = 0, g_failat = 0; static bool g_armed = false, g_persist = false, g_lua = false; static long g_failed = 0;
static bool failNow() {if (!g_armed) return false; ++g_count; if (g_failat && (g_count == g_failat || (g_persist && g_count > g_failat))) {++g_failed; return true;} return false;}
extern "C" {
void* __libc_malloc( size_t); void* __libc_calloc( size_t, size_t); void* __libc_realloc( void*, size_t); void* __libc_memalign( size_t, size_t); void __libc_free( void*);
void* malloc( size_t n) noexcept {if (failNow()) {errno = ENOMEM; return nullptr;} void* p = __libc_malloc( n); if (p) ++g_live; return p;}
void* calloc( size_t n, size_t m) noexcept {if (failNow()) {errno = ENOMEM; return nullptr;} void* p = __libc_calloc( n, m); if (p) ++g_live; return p;}
void* realloc( void* q, size_t n) noexcept {if (n && failNow()) {errno = ENOMEM; return nullptr;} void* p = __libc_realloc( q, n); if (q && !p && n == 0) --g_live; else if (!q && p) ++g_live; return p;}
void* memalign( size_t a, size_t n) noexcept {if (failNow()) {errno = ENOMEM; return nullptr;} void* p = __libc_memalign( a, n); if (p) ++g_live; return p;}
void* aligned_alloc( size_t a, size_t n) noexcept {return memalign( a, n);}
int posix_memalign( void** p, size_t a, size_t n) noexcept {*p = memalign( a, n); return *p ? 0 : ENOMEM;}
void free( void* p) noexcept {if (p) {--g_live; __libc_free( p);}}
}
static void* luaAlloc( void*, void* p, size_t, size_t n)
{
	if (n == 0) {__libc_free( p); return nullptr;}
	if (g_lua && !p && failNow()) return nullptr;
	return __libc_realloc( p, n);
}

static const char* RUNTIME = R"LUA(
local mewa = mewa
local def_src, dir = ...
local ENV = {}
local ser
function ser( v, d)
	d = d or 0
	if type( v) == "table" then
		if d > 6 then return "..." end
		local keys = {}; for k in pairs( v) do keys[ #keys+1] = k end
		table.sort( keys, function( a, b) return tostring( a) < tostring( b) end)
		local r = {}; for _,k in ipairs( keys) do r[ #r+1] = tostring( k) .. "=" .. ser( v[ k], d+1) end
		return "{" .. table.concat( r, ",") .. "}"
	end
	if type( v) == "userdata" or type( v) == "function" then return type( v) end
	return tostring( v)
end
local function rd( fn) local f = io.open( fn, "rb"); if not f then return "<none>" end; local s = f:read( "*a"); f:close(); return s end
local function node( kind, nd)
	local s = nd:scope(); local r = s[1] .. "-" .. s[2] .. ":"
	if kind == "I" then r = r .. ser( nd:instance()) else for e in nd:list() do r = r .. ser( e) .. ";" end end
	for c in nd:chld() do r = r .. "(" .. node( kind, c) .. ")" end
	return r
end
-- setup
local db = mewa.typedb(); ENV.db = db
db:scope( {0,100})
local T = {}; ENV.T = T
local names = 0
for i,n in ipairs{ "a", "b", "c", "d"} do T[ n] = db:def_type( 0, n, {"constructor", n}) end
db:def_type( T.a, "member", {"m"}, {T.b, {T.c, {"pc"}}})
db:def_reduction( T.b, T.a, {"ab"}, 1, 0.5); db:def_reduction( T.c, T.b, {"bc"}, 1, 0.25); db:def_reduction( T.d, T.c, {"cd"}, 2)
db:set_instance( "inst", {"outer"})
db:scope( {10,20}); db:def_type( 0, "inner", "str", {T.a}); db:set_instance( "inst", {"inner"}); db:def_reduction( T.d, T.a, {"ad"}, 2, 3)
db:scope( {0,100}); db:step( 15)
local trace = {}
local typesystem = {op = function( nd) trace[ #trace+1] = nd.arg[1].value; if nd.arg[1].value == "e0" then error( "boom") end; if nd.arg[1].value == "p9" then print_section( "Sec", ("y"):rep( 5000)) end; print( nd.arg[1].value, {1,{2}}); print_section( "Sec", "x"); debug( "dbg", 1) end}
local chunk = assert( load( "local typesystem = ...; return " .. def_src, "=def"))
local def = chunk( typesystem)
local compiler = mewa.compiler( chunk( typesystem)); local second
local function run( input, target, dbg) trace = {}; if dbg then compiler:run( target, nil, dir .. input, dir .. "/out", dir .. "/dbg") else compiler:run( target, nil, dir .. input, dir .. "/out") end return table.concat( trace, " ") end
local long = ("longname"):rep( 100)
local pars = {}; for i = 1,20 do pars[ i] = {T.a, {"par" .. i}} end
local wide
local ops = {
	dt = function() names = names + 1; return db:def_type( 0, "new" .. names, {"new"}) end,
	dT = function() return db:def_type( 0, "fix", {"fix"}) end,
	dp = function() names = names + 1; return db:def_type( T.a, "new" .. names, {"new"}, {{T.a, {"p1"}}, {type = T.b, constructor = {"p2"}}, T.c}) end,
	dl = function() names = names + 1; return db:def_type( T.b, "new" .. names .. long, nil, pars) end,
	da = function() names = names + 1; return db:def_type_as( 0, "alias" .. names, T.a) end,
	dr = function() names = names + 1; return db:def_reduction( T.a, db:def_type( 0, "from" .. names), {"red"}, 1 + names % 2, 0.7) end,
	dR = function() return db:def_reduction( T.a, T.d, {"da"}, 3, 0.5) end,
	dx = function() return db:def_type( 0, "a", {"duplicate"}) end,
	dy = function() return db:def_type( T.a, "member", {"duplicate"}, {T.b, T.c}) end,
	dz = function() return db:def_reduction( T.b, T.a, {"duplicate"}, 1, 0.5) end,
	si = function() names = names + 1; return db:set_instance( "inst" .. names, {names}) end,
	so = function() names = names + 1; return db:set_instance( "inst", {names}) end,
	sl = function() names = names + 1; return db:set_instance( long .. names, {names}) end,
	sc = function() return ser( db:scope( {10,20})) end,
	sd = function() return ser( db:scope( {30,40}, 31)) end,
	sp = function() return db:step( 17) end,
	gi = function() return ser( db:get_instance( "inst")), ser( db:this_instance( "inst")), db:get_instance( long .. "x"), db:get_instance( long:rep( 40)) end,
	gt = function() return db:get_type( 0, "a"), db:this_type( 0, "a"), db:get_type( T.a, "member", {T.b, T.c}), db:get_type( 0, long .. "x") end,
	gs = function() return ser( db:get_types( 0, "a")), ser( db:this_types( 0, "a")) end,
	rt = function() local c, r, t = db:resolve_type( T.d, "member"); local c2, r2, t2 = db:resolve_type( {0, T.a}, "member"); local c3, r3, t3 = db:resolve_type( T.a, "member"); return ser( {c=c, r=r, t=t, c2=c2, r2=r2, t2=t2, c3=c3, r3=r3, t3=t3}) end,
	ru = function() db:def_type( T.d, "dmember" .. names, 1); local c, r, t = db:resolve_type( T.a, "dmember" .. names); names = names + 1; return ser( {c=c, r=r, t=t}) end,
	dv = function() local l, w = db:derive_type( T.c, T.a); local l2, w2 = db:derive_type( T.d, T.a, db.reduction_tagmask( 1, 2)); return ser( {l,w,l2,w2}) end,
	gr = function() local w, c = db:get_reduction( T.b, T.a); return ser( {w, c}), ser( db:get_reductions( T.a)), ser( db:get_reductions( T.b, db.reduction_tagmask( 1,2))) end,
	tx = function() return db:type_string( T.a), db:type_string( db:get_type( T.a, "member", {T.b, T.c})), db:type_string( T.a, "//"), db:type_name( T.a), ser( db:type_parameters( db:get_type( T.a, "member", {T.b, T.c}))), db:type_context( T.a), ser( db:type_constructor( T.b)) end,
	tl = function() local h = db:get_type( T.b, "new1" .. long, {T.a,T.a,T.a,T.a,T.a,T.a,T.a,T.a,T.a,T.a,T.a,T.a,T.a,T.a,T.a,T.a,T.a,T.a,T.a,T.a}); return tostring( h and db:type_string( h)), ser( h and db:type_parameters( h)) end,
	it = function() return node( "I", db:instance_tree( "inst")) end,
	tt = function() return node( "T", db:type_tree()) end,
	tr = function() return node( "R", db:reduction_tree()) end,
	tm = function() return ser( db.reduction_tagmask( 1, 2, 3)) end,
	ms = function() return mewa.tostring( {1, {2, {x = "y", [long] = {}}}, T}, 4, true), mewa.tostring( {long, long, long, long}) end,
	mt = function() return ser( mewa.stacktrace( 3)) and "" end,
	nd = function() local d = mewa.typedb(); d:scope( {0,10}); local h = d:def_type( 0, "x", {"x"}); return ser( d:type_constructor( h)) end,
	nc = function() second = mewa.compiler( def); return type( second) end,
	nr = function() second = mewa.compiler( def); second:run( nil, nil, dir .. "/in", dir .. "/out") end,
	cr = function() return run( "/in") end,
	ct = function() return run( "/in", dir .. "/tpl") end,
	cd = function() return run( "/in", dir .. "/tpl", true) end,
	ce = function() return run( "/inerr", dir .. "/tpl") end,
	cs = function() return run( "/insyn", dir .. "/tpl") end,
	cm = function() return run( "/missing", dir .. "/tpl") end,
	cl = function() return run( "/inlong", dir .. "/tpl") end,
	cw = function() return run( "/inwide") end,
	wf = function() wide = {}; for i = 1,400 do wide[ i] = db:def_type( 0, "wide" .. i); db:def_reduction( wide[ i], T.d, i, 4, 1) end end,
	wg = function() wide = {}; for i = 1,400 do wide[ i] = db:def_type( 0, "wide" .. i); if i > 1 then db:def_reduction( wide[ i], wide[ i-1], i, 4, 1) end end end,
	gw = function() return #db:get_reductions( T.d, db.reduction_tagmask( 4)) end,
	wd = function() return #db:derive_type( wide[ 300], wide[ 1], db.reduction_tagmask( 4)) end,
	wr = function() local c, r, t = db:resolve_type( wide[ 1], "nothing", db.reduction_tagmask( 4)); return c end,
	pc = function() local ok, e = pcall( db.set_instance, db, "inst", nil); if ok then error( "not refused") end; return e end,
	cn = function() return mewa.compiler( {}) end,
}
function ENV.op( name) return ops[ name]() end
function ENV.dump()
	local sc, st = db:scope()
	local r = {names, ser( sc), st, rd( dir .. "/out"), type( rawget( _G, "print_section")), type( rawget( _G, "debug")), tostring( rawget( _G, "print") == ENV.print)}
	r[ #r+1] = node( "I", db:instance_tree( "inst")); for i=0,names do r[ #r+1] = node( "I", db:instance_tree( "inst" .. i)) end
	r[ #r+1] = node( "I", db:instance_tree( long .. names))
	r[ #r+1] = node( "T", db:type_tree()); r[ #r+1] = node( "R", db:reduction_tree())
	return table.concat( r, "\n")
end
-- names of the next definitions are those of the failed call again
function ENV.ser( ...) local r = {}; local t = table.pack( ...); for i = 1,t.n do r[ i] = ser( t[ i]) end; return table.concat( r, "|") end
function ENV.getnames() return names end
function ENV.setnames( n) names = n end
ENV.print = print
return ENV
)LUA";

static void wr( const std::string& fn, const std::string& s) {int fd = open( fn.c_str(), O_WRONLY|O_CREAT|O_TRUNC, 0644); if (fd < 0 || write( fd, s.data(), s.size()) != (ssize_t)s.size()) throw std::runtime_error( "cannot write " + fn); close( fd);}
static std::string dir()
{
	static std::string d;
	if (d.empty())
	{
		d = mc::scratch() + fmt( "/a%d", (int)getpid()); mkdir( d.c_str(), 0755);
		wr( d + "/in", "p1 p2 p3"); wr( d + "/inerr", "p1 p2 e0 p3"); wr( d + "/insyn", "p1 p2 = p3"); wr( d + "/tpl", "<{Code}|{Sec}|{Source}>");
		std::string l = "p9 p9 p9 p9 "; for (int i=0; i<60; ++i) l += "p1 "; wr( d + "/inlong", l);
		wr( d + "/inwide", "p1234567890123456789012345678901234567890 ABCDEFGHIJKLMNOPQRSTUVWXYZABCDEFGHIJKLMNOPQRSTUVWXYZ p1");
	}
	return d;
}
struct Session
{
	lua_State* L; int env;
	Session()
	{
		std::string D = dir(); unlink( (D + "/out").c_str()); unlink( (D + "/dbg").c_str());
		static std::string def; if (def.empty()) {std::vector<mewa::Error> w; mewa::Automaton am; am.build( "OP : '[a-z][0-9]+';\nNAME_OF_A_TOKEN : '[A-Z]+';\nS = L;\nL = T L | ε;\nT = OP (op) | NAME_OF_A_TOKEN (op);\n", w, mewa::Automaton::DebugOutput()); def = am.tostring();}
		L = lua_newstate( luaAlloc, nullptr); luaL_openlibs( L); luaL_requiref( L, "mewa", luaopen_mewa, 1); lua_pop( L, 1);
		if (luaL_loadbuffer( L, RUNTIME, strlen( RUNTIME), "=runtime")) throw mc::Failure( std::string( "runtime: ") + lua_tostring( L, -1));
		lua_pushlstring( L, def.data(), def.size()); lua_pushstring( L, D.c_str());
		if (lua_pcall( L, 2, 1, 0)) throw mc::Failure( std::string( "runtime: ") + lua_tostring( L, -1));
		env = luaL_ref( L, LUA_REGISTRYINDEX);
	}
	~Session() {lua_close( L);}
	void get( const char* f) {lua_rawgeti( L, LUA_REGISTRYINDEX, env); lua_getfield( L, -1, f); lua_remove( L, -2);}
	std::string text() {size_t n; const char* p = lua_tolstring( L, -1, &n); std::string rt = p ? std::string( p, n) : std::string( "<") + lua_typename( L, lua_type( L, -1)) + ">"; lua_settop( L, 0); return rt;}
	std::string dump() {lua_settop( L, 0); get( "dump"); if (lua_pcall( L, 0, 1, 0)) throw mc::Failure( "reading the state: " + text()); return text();}
	void setnames( int n) {get( "setnames"); lua_pushinteger( L, n); lua_call( L, 1, 0);}
	int getnames() {get( "getnames"); lua_call( L, 0, 1); int n = lua_tointeger( L, -1); lua_settop( L, 0); return n;}
	/// returns true and the results or false and the message
	bool op( const std::string& name, std::string& res, long failat, bool persist, bool lua)
	{
		lua_settop( L, 0); get( "ser"); get( "op"); lua_pushlstring( L, name.data(), name.size());
		g_count = 0; g_failat = failat; g_persist = persist; g_lua = lua; g_failed = 0; g_armed = true;
		int rc = lua_pcall( L, 1, LUA_MULTRET, 0);
		g_armed = false;
		if (rc) {res = text(); return false;}
		if (lua_pcall( L, lua_gettop( L)-1, 1, 0)) throw mc::Failure( "serialization: " + text());
		res = text(); return true;
	}
};
static std::string cut( const std::string& s) {return s.size() > 300 ? s.substr( 0, 300) + "..." : s;}
static std::string diff( const std::string& a, const std::string& b)
{
	auto x = mc::split( a, '\n'), y = mc::split( b, '\n'); x.resize( std::max( x.size(), y.size())); y.resize( x.size());
	for (std::size_t i=0; i<x.size(); ++i) if (x[i] != y[i]) {std::size_t k = 0; while (k < x[i].size() && k < y[i].size() && x[i][k] == y[i][k]) ++k; k = k > 30 ? k-30 : 0; return fmt( "line %d: '%s' instead of '%s'", (int)i+1, cut( x[i].substr( k)).c_str(), cut( y[i].substr( k)).c_str());}
	return "";
}
static bool memoryError( const std::string& m) {return m.compare( 0, 4, "#400") == 0 || m.find( "#400 ") != std::string::npos || m.find( "#12 ") != std::string::npos || m.find( "not enough memory") != std::string::npos || m.find( "bad_alloc") != std::string::npos;}

// the text of an error may lack its argument and the like, but it has to be the same error
static std::string code( const std::string& m) {auto p = m.find( '"'); return p == std::string::npos ? m : m.substr( 0, p);}
static void run( const std::string& text, Ctx& ctx)
{
	auto f = mc::split( text, ';'); bool persist = f[0] == "P", lua = f[0] == "L"; V prefix; for (auto& p : mc::split( f[1], ' ')) if (!p.empty()) prefix.push_back( p);
	const std::string& op = f[2]; std::string before, after, result, res; bool ok;
	for (auto k : {"calls_refused","calls_succeeding_nevertheless","failures_injected"}) ctx.count( k, 0);
	static bool warm = false; if (!warm) {warm = true; for (auto o : {"cd","ce","cs","dx","ms"}) {Session s; for (int n : {0,1,2,3,5,8}) s.op( o, res, n, false, false);}}
	{Session s; for (auto& p : prefix) s.op( p, res, 0, false, false); before = s.dump(); ok = s.op( op, result, 0, false, false); after = s.dump();}
	ctx.state( before); ctx.state( after);
	if (memoryError( result)) ctx.fail( "memory error without failure: " + result);
	for (long n=1;; ++n)
	{
		mc::alive(); ++ctx.executions;
		bool injected; {std::string().swap( res);} long live = g_live;
		{
			std::string what = fmt( "allocation %ld: ", n), r1, r2; Session s; for (auto& p : prefix) s.op( p, res, 0, false, false);
			int names = s.getnames();
			r1.reserve( 65536); bool ok1 = s.op( op, r1, n, persist, lua); injected = g_failed > 0;
			if (!injected) {if (ok1 != ok || r1 != result) ctx.fail( what + "not deterministic: " + cut( r1) + " instead of " + cut( result)); break;}
			if (ok1) {if (!ok) ctx.fail( what + "success instead of the error " + cut( result)); if (r1 != result && (op != "pc" || !(memoryError( r1) || code( r1) == code( result)))) ctx.fail( what + "result " + cut( r1) + " instead of " + cut( result)); ctx.count( "calls_succeeding_nevertheless");}
			else if (ok || r1 != result) {if (!memoryError( r1) && (ok || code( r1) != code( result))) ctx.fail( what + "error is not one of memory allocation: " + cut( r1)); ctx.count( "calls_refused");}
			if (ok1) {std::string d = diff( s.dump(), after); if (!d.empty()) ctx.fail( what + "state after success: " + d);}
			else
			{
				s.setnames( names);
				std::string d = diff( s.dump(), ok ? before : after); if (!d.empty()) ctx.fail( what + "state after failure: " + d);
				bool ok2 = s.op( op, r2, 0, false, false);
				if (ok2 != ok || r2 != result) ctx.fail( what + "repeated call: " + cut( r2) + " instead of " + cut( result));
				d = diff( s.dump(), after); if (!d.empty()) ctx.fail( what + "state after repeated call: " + d);
			}
		}
		{std::string().swap( res);}
		long now = g_live; if (now != live && !lua) ctx.fail( fmt( "allocation %ld: %ld blocks of memory not released", n, now-live));
		ctx.transition(); ctx.trace(); ctx.count( "failures_injected");
	}
}
// --- the type database as C++ class with an initial memory so small that its tables grow
// Case: T;prefix;op   operations: t type, p type with parameters, a alias, r reduction, q second reduction from the same type, i instance, o instance of another name,
//   O redefinition, d duplicate type, R duplicate reduction, s another scope; X<n> (X=t,p,a,r,i,o) fill: repeat until there are n of them
//   queries: g instances, G types, D derive, S resolve, L reductions, Y trees, N names as strings
template <class T, class F> static void walk( const T& t, std::size_t i, F f) {for (; i; i = t[ i].next()) {f( t[ i].item()); walk( t, t[ i].chld(), f);}}
struct TDb
{
	mewa::TypeDatabase db{ 1024}; mewa::Scope scope{ 0, 10000000}; int handle = 0, nt = 0, np = 0, na = 0, nr = 0, ni = 0, no = 0; std::vector<int> types;
	int mk( const std::string& nm, const std::vector<mewa::TypeDatabase::TypeConstructorPair>& p = {}) {return db.defineType( scope, 0, nm, ++handle, mewa::TypeDatabase::TypeConstructorPairList( p));}
	TDb() {types.push_back( mk( "base")); types.push_back( mk( "second"));}
	std::string op( const std::string& o, long failat, bool persist, bool& err)
	{
		err = false; std::string rt; rt.reserve( 1<<14); int h = handle;
		std::string nm = fmt( "type_%d", nt), pn = fmt( "type_with_parameters_%d", np), an = fmt( "alias_%d", na), rn = fmt( "from_%d", nr), in = fmt( "name_of_instance_%d", no);
		std::vector<mewa::TypeDatabase::TypeConstructorPair> par; for (int i=0; i<3; ++i) par.push_back( {types[ i & 1], i+1});
		int res = 0; typedef mewa::TypeDatabase::ResultBuffer RB; mewa::TagMask all = mewa::TagMask::matchAll(); std::vector<int> out; out.reserve( 1<<14); std::vector<std::string> strs; const char* refused = nullptr;
		g_count = 0; g_failat = failat; g_persist = persist; g_lua = false; g_failed = 0; g_armed = true;
		try
		{
			switch (o[0])
			{
				case 't': res = mk( nm); break;
				case 'p': res = mk( pn, par); break;
				case 'a': res = db.defineTypeAs( scope, 0, an, types[0]); break;
				case 'r': res = mk( rn); db.defineReduction( scope, types[0], res, h+1, 1, 0.5); break;
				case 'q': db.defineReduction( scope, types[0], types[1], 77, 1 + nr % 30, 0.25); break;
				case 'i': db.setObjectInstance( "instance", mewa::Scope( ni*10, ni*10+5), h+1); break;
				case 'o': db.setObjectInstance( in, scope, h+1); break;
				case 'O': db.setObjectInstance( "instance", mewa::Scope( 0, 5), h+1); break;
				case 'd': res = mk( "base"); break;
				case 'R': db.defineReduction( scope, types[0], types[1], h+1, 31, 0.5); break;
				case 's': scope = mewa::Scope( 100, 200); break;
				case 'g': out.push_back( db.getObjectInstance( "instance", 3)); out.push_back( db.getObjectInstance( in, 3)); out.push_back( db.getObjectInstanceOfScope( in, scope)); break;
				case 'G': {RB rb; out.push_back( db.getType( scope, 0, "a name that is not known yet", std::vector<int>())); for (int t : db.getTypes( scope, 0, "base", rb).types) out.push_back( t); break;}
				case 'D': {RB rb; auto r = db.deriveType( 150, types[0], types.back(), all, all, -1, rb); out.push_back( r.defined); for (auto& e : r.reductions) {out.push_back( e.type); out.push_back( e.constructor);} break;}
				case 'S': {RB rb; auto r = db.resolveType( 150, 0, "base", all, rb); out.push_back( r.contextType); for (auto& e : r.items) out.push_back( e); break;}
				case 'L': {RB rb; auto r = db.getReductions( 150, types[1], all, mewa::TagMask::matchNothing(), rb); for (auto& e : r.reductions) {out.push_back( e.type); out.push_back( e.constructor);} break;}
				case 'Y': {auto t = db.getObjectInstanceTree( "instance"); auto t2 = db.getTypeDefinitionTree(); auto t3 = db.getReductionDefinitionTree(); g_armed = false; walk( t2, 1, [&]( auto& n) {out.push_back( n.value.size());}); break;}
				case 'N': {RB rb; auto x = db.typeToString( types.back(), " ", rb); out.push_back( x.size()); break;}
			}
			g_armed = false;
			if (strchr( "tparq", o[0]) && res >= 0) switch (o[0]) {case 't': ++nt; break; case 'p': ++np; break; case 'a': ++na; break; case 'r': case 'q': ++nr; break;}
			if (o[0] == 'i') ++ni; if (o[0] == 'o') ++no; if (strchr( "ioORr", o[0])) ++handle;
			if (strchr( "tpr", o[0])) types.push_back( res);
		}
		catch (const std::bad_alloc&) {g_armed = false; err = true; handle = h; return "std::bad_alloc";}
		catch (const mewa::Error& e) {g_armed = false; err = true; handle = h; return fmt( "%d", (int)e.code());}
		g_armed = false;
		rt = strchr( "tpra", o[0]) ? (res > 0 ? "defined" : "refused") : "done"; if (res < 0) {handle = h; if (strchr( "tpr", o[0])) types.pop_back();} for (int x : out) rt += fmt( " %d", x);
		return rt;
	}
	void fill( const std::string& o) {int n = atoi( o.c_str()+1); bool e; int* c = o[0] == 't' ? &nt : o[0] == 'p' ? &np : o[0] == 'a' ? &na : o[0] == 'r' ? &nr : o[0] == 'i' ? &ni : &no; while (*c < n) op( o.substr( 0, 1), 0, false, e);}
	// all that can be observed but the numbers of the types
	std::string dump()
	{
		std::string r; typedef mewa::TypeDatabase::ResultBuffer RB; mewa::TagMask all = mewa::TagMask::matchAll(); std::map<int,int> idx; for (std::size_t i=0; i<types.size(); ++i) idx[ types[ i]] = i;
		auto tn = [&]( int t) {auto i = idx.find( t); return i == idx.end() ? fmt( "?%d", t) : fmt( "%d", i->second);};
		for (int i=0; i<=ni; ++i) r += fmt( "%d,%d ", db.getObjectInstance( "instance", i*10+2), db.getObjectInstanceOfScope( "instance", mewa::Scope( i*10, i*10+5)));
		r += "\n"; for (int i=0; i<=no; ++i) r += fmt( "%d,%d ", db.getObjectInstance( fmt( "name_of_instance_%d", i), 150), db.getObjectInstanceOfScope( fmt( "name_of_instance_%d", i), scope));
		for (const char* k : {"type_","type_with_parameters_","alias_","from_"}) {r += "\n"; int n = k[0] == 'a' ? na : k[0] == 'f' ? nr : k[4] == '_' && k[5] ? np : nt; for (int i=0; i<=n; ++i) {RB rb; r += "/"; for (int t : db.getTypes( mewa::Scope( 0, 10000000), 0, fmt( "%s%d", k, i), rb).types) r += tn( t) + " ";} }
		for (int t : types)
		{
			r += "\n" + std::string( db.typeName( t)) + fmt( " %d %d(", db.typeContext( t), db.typeConstructor( t)); for (auto& p : db.typeParameters( t)) r += tn( p.type) + fmt( ":%d ", p.constructor);
			RB rb; r += ")"; for (auto& e : db.getReductions( 150, t, all, mewa::TagMask::matchNothing(), rb).reductions) r += tn( e.type) + fmt( ":%d ", e.constructor);
		}
		auto t = db.getObjectInstanceTree( "instance"); auto t3 = db.getReductionDefinitionTree(); walk( t, 1, [&]( auto& n) {r += fmt( "\n%d", n.value);});
		walk( t3, 1, [&]( auto& n) {r += "\n"; for (auto& e : n.value) r += tn( e.fromType) + "->" + tn( e.toType) + fmt( ":%d:%d:%g ", e.constructor, e.tag, e.weight);});
		return r;
	}
};
static void runTypedb( const std::string& text, Ctx& ctx)
{
	auto f = mc::split( text, ';'); bool persist = f[0] == "TP"; V prefix; for (auto& p : mc::split( f[1], ' ')) if (!p.empty()) prefix.push_back( p);
	const std::string& op = f[2]; std::string before, after, result; bool err, err0; for (auto k : {"calls_refused","calls_succeeding_nevertheless","failures_injected"}) ctx.count( k, 0);
	static bool warm = false; if (!warm) {warm = true; TDb d; d.op( "t", 1, false, err);}
	auto prep = [&]( TDb& d) {for (auto& p : prefix) if (p.size() > 1) d.fill( p); else d.op( p, 0, false, err);};
	{TDb d; prep( d); before = d.dump(); result = d.op( op, 0, false, err0); after = d.dump();}
	ctx.state( before); ctx.state( after);
	for (long n=1;; ++n)
	{
		mc::alive(); ++ctx.executions; bool injected; long live = g_live;
		{
			std::string what = fmt( "allocation %ld: ", n), r1, r2, df; bool e1, e2; TDb d; prep( d);
			r1 = d.op( op, n, persist, e1); injected = g_failed > 0;
			if (!injected) {if (r1 != result) ctx.fail( what + "not deterministic: " + cut( r1)); break;}
			if (e1 && !err0) {if (r1 != "std::bad_alloc" && r1 != "400") ctx.fail( what + "error " + r1); ctx.count( "calls_refused");}
			else if (r1 != result && r1 != "std::bad_alloc" && r1 != "400") ctx.fail( what + "result " + cut( r1) + " instead of " + cut( result));
			if (!e1) {ctx.count( "calls_succeeding_nevertheless"); df = diff( d.dump(), after); if (!df.empty()) ctx.fail( what + "state after success: " + df);}
			else
			{
				df = diff( d.dump(), before);
				if (op == "r" && !df.empty()) goto NEXT;	// two definitions, the first may be done
				if (!df.empty()) ctx.fail( what + "state after failure: " + df);
				r2 = d.op( op, 0, false, e2); if (e2 != err0 || r2 != result) ctx.fail( what + "repeated call: " + cut( r2) + " instead of " + cut( result));
				df = diff( d.dump(), after); if (!df.empty()) ctx.fail( what + "state after repeated call: " + df);
			}
			NEXT:;
		}
		long now = g_live; if (now != live) ctx.fail( fmt( "allocation %ld: %ld blocks of memory not released", n, now-live));
		ctx.transition(); ctx.trace(); ctx.count( "failures_injected");
	}
}
// --- building the automaton from a grammar
// Case: G;number of grammar;k;m   allocations k, k+m, k+2m, ... made to fail
static const V& grammars()
{
	static const V g = {
		"% COMMENT \"/*\" \"*/\"\n% LANGUAGE \"a language with a name\"\nIDENTIFIER_WITH_A_LONG_NAME : '[a-zA-Z_]+[a-zA-Z_0-9]*' ;\nprogram = list_of_statements ;\nlist_of_statements = statement list_of_statements (>>call_of_a_function \"argument\") | ε ;\nstatement/L1 = statement \"separator\" statement (f) | IDENTIFIER_WITH_A_LONG_NAME ;\n",
		"% INDENTL OPEN CLOSE NL TABSIZE 4;\nSTR: '[\"]([^\"]*)[\"]' 1 ;\nS = L ;\nL = OPEN L CLOSE | NL | STR | X {obj} ;\nX = \"x\" (obj { a, {b} }) ;\n",
		"S = A | B ;\nA = \"x\" ;\nB = \"x\" ;\n",
		"S = ;;\n", "S = A ;\n", "A : '[' ;\nS = A;\n"};
	return g;
}
static void runGrammar( const std::string& text, Ctx& ctx)
{
	auto f = mc::split( text, ';'); const std::string& src = grammars().at( atoi( f[1].c_str())); long first = atol( f[2].c_str()), step = atol( f[3].c_str());
	auto build = [&]( long failat, bool& oom)
	{
		std::string rt; oom = false; std::vector<mewa::Error> warnings; mewa::Automaton am;
		g_count = 0; g_failat = failat; g_persist = false; g_lua = false; g_failed = 0; g_armed = true;
		try {am.build( src, warnings, mewa::Automaton::DebugOutput()); if (warnings.empty()) {std::string res = am.tostring(); g_armed = false; rt = res;} else rt = "conflicts"; g_armed = false;}
		catch (const std::bad_alloc&) {g_armed = false; oom = true;}
		catch (const mewa::Error& e) {g_armed = false; rt = fmt( "error %d", (int)e.code()); if (e.code() == mewa::Error::MemoryAllocationError) oom = true;}
		catch (const std::exception& e) {g_armed = false; rt = e.what();}
		return rt;
	};
	bool oom; for (auto k : {"builds_refused","builds_succeeding_nevertheless","failures_injected"}) ctx.count( k, 0);
	std::string expected = build( 0, oom); ctx.state( expected); static bool warm = false; if (!warm) {warm = true; build( 100, oom);} long total; build( 0, oom); total = g_count;
	for (long n=first; n<=total; n += step)
	{
		mc::alive(); ++ctx.executions; long live = g_live;
		{
			std::string r = build( n, oom);
			if (!g_failed) break;
			if (oom) ctx.count( "builds_refused"); else if (r == expected) ctx.count( "builds_succeeding_nevertheless"); else ctx.fail( fmt( "allocation %ld: result %s instead of %s", n, cut( r).c_str(), cut( expected).c_str()));
		}
		if (g_live != live) ctx.fail( fmt( "allocation %ld: %ld blocks of memory not released", n, g_live-live));
		ctx.transition(); ctx.trace(); ctx.count( "failures_injected");
	}
}
static void runAny( const std::string& text, Ctx& ctx)
{
	if (text[0] == 'T') runTypedb( text, ctx); else if (text[0] == 'G') runGrammar( text, ctx); else run( text, ctx);
}
static void enumC03( bool thorough, const Sink& sink)
{
	V all = {"dt","dT","dp","dl","da","dr","dR","dx","dy","dz","si","so","sl","sc","sd","sp","gi","gt","gs","rt","ru","dv","gr","tx","tl","it","tt","tr","tm","ms","mt","nd","nc","nr","cr","ct","cd","ce","cs","cm","cl","pc","cn"};
	V mut = {"dt","dp","dl","da","dr","dR","dT","si","so","sl","sc","sd","cr","ce"};
	for (auto m : {"C","P","L"})
	{
		for (auto& o : all) sink( std::string( m) + ";;" + o);
		for (auto& p : mut) for (auto& o : all) if (o[0] != 'c' || p[0] == 'c') sink( std::string( m) + ";" + p + ";" + o);
		for (auto o : {";cw","wf;gw","wg;wd","wg;wr","wf;tr","wg;gr"}) if (m[0] != 'L' || (thorough && o[4] != 't') || o[0] == ';') sink( std::string( m) + ";" + o);
		if (thorough && m[0] == 'C') for (auto& p : mut) for (auto& q : mut) for (auto& o : all) if (o[0] != 'c' || p[0] == 'c') sink( std::string( m) + ";" + p + " " + q + ";" + o);
	}
	V tops = {"t","p","a","r","q","i","o","O","d","R","g","G","D","S","L","Y","N"}, tmut = {"t","p","a","r","q","i","o","s"};
	for (auto m : {"T","TP"})
	{
		for (auto& o : tops) sink( std::string( m) + ";;" + o);
		for (auto& a : tmut) for (auto& o : tops) {sink( std::string( m) + ";" + a + ";" + o); for (auto& b : tmut) {sink( std::string( m) + ";" + a + " " + b + ";" + o); if (thorough && m[1] == 0) for (auto& c : tmut) sink( std::string( m) + ";" + a + " " + b + " " + c + ";" + o);}}
		// tables filled up to their initial capacity
		for (auto& a : {"t","p","a","r","i","o"}) for (int n : {340,341,342,1021,1022,1023,1024,1025}) if ((n > 1000 || a[0] == 'p') && (thorough || (n != 1021 && n != 1025 && n != 340))) for (auto& o : tops) if (thorough || (m[1] == 0 && o[0] != 'Y')) {sink( std::string( m) + ";" + a + fmt( "%d", n) + ";" + o); if (thorough && m[1] == 0 && n >= 1022 && n <= 1024) for (auto& b : tmut) sink( std::string( m) + ";" + a + fmt( "%d ", n) + b + ";" + o);}
	}
	int step = thorough ? 61 : 211; for (std::size_t g=0; g<grammars().size(); ++g) for (int k=1; k<=step; ++k) sink( fmt( "G;%d;%d;%d", (int)g, k, step));
}
int main( int argc, char** argv)
{
	mallopt( M_MMAP_THRESHOLD, 1<<30); mallopt( M_TRIM_THRESHOLD, 1<<30);
	std::map<std::string,mc::Property> props;
	props["C03"] = {enumC03, runAny, "one case = one history and one call, every allocation of memory of the call made to fail in turn", 20};
	return mc::main_( argc, argv, props);
}
