// B01: typedb objects keep the values given to them, as long as they or trees taken from them live, and share nothing
// Case: sequence of two to four character operations separated by ' '
//   s<d>       toggle the current scope of typedb d (A or B) between [0,100] and [10,20]
//   i<d><k><n> set_instance of name n (1,2) with a value of kind k;  t<d><k> def_type with a constructor;  r<d><k> def_reduction with a constructor;  p<d><k> def_type with type/constructor pairs as parameters
//   T<d>       take the trees of typedb d;  x keep only the leaf nodes of the trees;  D drop the trees
//   l<d>       calls with long names and results that do not fit into buffers on the stack (counts as one name);  w<d> many reductions, long paths
//   n<d>       replace typedb d by a new one;  q<d> refused calls;  c<d> set 100 instances, one name;  g collect garbage
#include "luahost.hpp"
#include <atomic>
#include <new>
using mc::fmt; using mc::Ctx; using mc::Sink;
typedef std::vector<std::string> V;

#if defined(__SANITIZE_ADDRESS__)
static long liveBlocks() {return 0;}
#else
// all blocks of the heap in use, counted with a replacement of the C allocator
static long g_live = 0;
static long liveBlocks() {return g_live;}
extern "C" {
void* __libc_malloc( size_t); void* __libc_calloc( size_t, size_t); void* __libc_realloc( void*, size_t); void* __libc_memalign( size_t, size_t); void __libc_free( void*);
void* malloc( size_t n) noexcept {void* p = __libc_malloc( n); if (p) ++g_live; return p;}
void* calloc( size_t n, size_t m) noexcept {void* p = __libc_calloc( n, m); if (p) ++g_live; return p;}
void* realloc( void* q, size_t n) noexcept {void* p = __libc_realloc( q, n); if (q && !p && n == 0) --g_live; else if (!q && p) ++g_live; return p;}
void* memalign( size_t a, size_t n) noexcept {void* p = __libc_memalign( a, n); if (p) ++g_live; return p;}
void* aligned_alloc( size_t a, size_t n) noexcept {return memalign( a, n);}
int posix_memalign( void** p, size_t a, size_t n) noexcept {*p = memalign( a, n); return *p ? 0 : 12;}
void free( void* p) noexcept {if (p) {--g_live; __libc_free( p);}}
}
#endif

static const char* RUNTIME = R"LUA(
local mewa = mewa
local W = setmetatable( {}, {__mode = "v"})	-- id -> value, does not keep it alive
local ID = setmetatable( {}, {__mode = "k"})
local prim, nextid = {}, 0
local function fail( ...) error( table.concat( {...}, ""), 0) end
local mt = {__index = function() error( "index of value used") end, __newindex = function() error( "newindex") end, __eq = function() return true end, __len = function() error( "len") end, __call = function() error( "call") end, __tostring = function() error( "tostring") end}
local make = {
	s = function( n) return "value" .. n end, n = function( n) return n + 0.5 end, N = function() return 0/0 end, T = function() return true end, F = function() return false end, e = function() return "" end,
	t = function( n) return {n} end, m = function( n) return setmetatable( {n}, mt) end, f = function( n) return function() return n end end, c = function( n) return coroutine.create( function() return n end) end,
	u = function( n) local d = mewa.typedb(); d:set_instance( "self", n); return d end,
}
local function value( kind)
	nextid = nextid + 1
	local v = make[ kind]( nextid)
	if type( v) == "string" or type( v) == "number" or type( v) == "boolean" then prim[ nextid] = {v} else W[ nextid] = v; ID[ v] = nextid end
	return v, nextid
end
local function same( v, id, what)
	if prim[ id] then local p = prim[ id][1]; if not (rawequal( v, p) or (p ~= p and v ~= v and type( v) == "number")) then fail( what, ": ", tostring( v), " instead of ", tostring( p)) end
	else
		local w = rawget( W, id)
		if w == nil then fail( what, ": value has been collected") end
		if not rawequal( v, w) then fail( what, ": another value: ", type( v)) end
		if type( v) == "table" and rawget( v, 1) ~= id then fail( what, ": content changed") end
		if type( v) == "function" and v() ~= id then fail( what, ": content changed") end
		if type( v) == "userdata" and v:get_instance( "self") ~= id then fail( what, ": content changed") end
	end
end
local SC = {{0,100},{10,20}}
local function new()
	local db = mewa.typedb(); db:scope( SC[1])
	return {db = db, cur = 1, inst = {}, types = {}, redus = {}, names = 0}
end
local dbs = {}
local trees = {}
-- content of a node with values mapped to their ids
local function idof( v)
	if v ~= v then return "nan" end
	if type( v) == "string" or type( v) == "number" or type( v) == "boolean" or v == nil then return tostring( v) end
	return "#" .. tostring( ID[ v])
end
local function list( t) local keys = {}; for k in pairs( t) do keys[ #keys+1] = tostring( k) end; table.sort( keys); local r = {}; for _,k in ipairs( keys) do local v = t[ k]; if v == nil then v = t[ tonumber( k)] end; r[ #r+1] = k .. "=" .. (type( v) == "table" and not ID[ v] and ("{" .. list( v) .. "}") or idof( v)) end; return table.concat( r, ",") end
local function read( kind, nd)
	local s = nd:scope(); local r = s[1] .. "-" .. s[2] .. ":"
	if kind == "I" then r = r .. idof( nd:instance()) else for e in nd:list() do r = r .. (type( e) == "table" and list( e) or tostring( e)) .. ";" end end
	return r
end
local function flatten( kind, nd, depth)
	local leaf = true
	for c in nd:chld() do leaf = false; flatten( kind, c, depth+1) end
	trees[ #trees+1] = {kind = kind, node = nd, leaf = leaf and depth > 0, content = read( kind, nd)}
end
local function count( t) local n = 0; for _ in pairs( t) do n = n + 1 end return n end
local ops = {}
function ops.s( m) m.cur = 3-m.cur; m.db:scope( SC[ m.cur]) end
function ops.i( m, k, n) n = n == "" and "1" or n; local v, id = value( k); m.db:set_instance( "n" .. n, v); m.inst[ n] = m.inst[ n] or {}; m.inst[ n][ m.cur] = id end
function ops.t( m, k)
	local v, id = value( k); m.names = m.names + 1
	local h = m.db:def_type( 0, "t" .. m.names, v)
	if h ~= #m.types + 1 then fail( "handle ", tostring( h), " for type number ", tostring( #m.types+1)) end
	m.types[ h] = {id = id, name = "t" .. m.names, scope = m.cur, par = {}}
	return h
end
function ops.p( m, k)
	local a = ops.t( m, k)
	local v1, id1 = value( k); local v2, id2 = value( k); local v, id = value( k); m.names = m.names + 1
	local h = m.db:def_type( a, "t" .. m.names, v, {{a, v1}, {type = a, constructor = v2}, a})
	if h ~= #m.types + 1 then fail( "handle ", tostring( h), " for type number ", tostring( #m.types+1)) end
	m.types[ h] = {id = id, name = "t" .. m.names, scope = m.cur, par = {id1, id2, false}, partype = a}
end
function ops.r( m, k)
	local a, b = ops.t( m, "F"), ops.t( m, "s")
	local v, id = value( k)
	m.db:def_reduction( a, b, v, 1, 0.5)
	m.redus[ #m.redus+1] = {to = a, from = b, id = id, scope = m.cur}
end
function ops.c( m) for i=1,100 do local v, id = value( "t"); m.db:set_instance( "n1", v); m.inst["1"] = m.inst["1"] or {}; m.inst["1"][ m.cur] = id end end
function ops.T( m)
	flatten( "I", m.db:instance_tree( "n1"), 0); flatten( "T", m.db:type_tree(), 0); flatten( "R", m.db:reduction_tree(), 0)
end
function ops.q( m)
	if pcall( m.db.set_instance, m.db, "n1", nil) then fail( "set_instance with nil not refused") end
	if pcall( m.db.def_type, m.db, -1, "zz", {}) then fail( "def_type with negative context not refused") end
	if pcall( m.db.def_reduction, m.db, 1, 1, {}, 0) then fail( "def_reduction with tag 0 not refused") end
end
function ops.l( m)
	local nm = ("x"):rep( 30000)
	if m.db:get_instance( nm) ~= nil or m.db:this_instance( nm) ~= nil or m.db:get_type( 0, nm) ~= nil then fail( "long name found") end
	if #m.db:get_types( 0, nm) ~= 0 then fail( "types with long name found") end
	local v, id = value( "t"); m.names = m.names + 1; nm = "t" .. m.names .. ("y"):rep( 20000)
	local h = m.db:def_type( 0, nm, v)
	m.types[ h] = {id = id, name = nm, scope = m.cur, par = {}}
	if m.db:get_type( 0, nm) ~= h then fail( "long name not found") end
	if m.db:type_string( h) ~= nm then fail( "type string of a type with a long name") end
	local c, r, it = m.db:resolve_type( 0, nm)
	if c ~= 0 or #r ~= 0 or #it ~= 1 or it[1] ~= h then fail( "resolve type with a long name") end
	c = m.db:resolve_type( 0, ("z"):rep( 20000))
	if c ~= nil then fail( "resolve of a long name not defined") end
end
function ops.w( m)
	local first, last
	for i = 1,120 do
		local h = ops.t( m, "s")
		if last then
			m.db:def_reduction( h, last, "step", 1, 0.5)
			if i % 4 == 0 then m.db:def_reduction( h, first, "jump" .. i, 2, 0.25) end
		end
		first = first or h; last = h
	end
	local path, weight = m.db:derive_type( last, first, m.db.reduction_tagmask( 1))
	if type( path) ~= "table" or #path ~= 119 or weight ~= 119*0.5 then fail( "long path: ", tostring( path and #path)) end
	if #m.db:get_reductions( first, m.db.reduction_tagmask( 2)) ~= 30 then fail( "many reductions: ", #m.db:get_reductions( first, m.db.reduction_tagmask( 2))) end
end
local function check( d)
	local m = dbs[ d]; if not m then return end; local db = m.db
	for _,n in ipairs{"1","2"} do
		local i = m.inst[ n] or {}
		local e = i[ m.cur]; local v = db:this_instance( "n" .. n)
		if e then same( v, e, d .. ": this_instance of n" .. n) elseif v ~= nil then fail( d, ": this_instance of n", n, " not defined: ", type( v)) end
		e = e or (m.cur == 2 and i[1]); v = db:get_instance( "n" .. n)
		if e then same( v, e, d .. ": get_instance of n" .. n) elseif v ~= nil then fail( d, ": get_instance of n", n, " not defined: ", type( v)) end
	end
	for h,t in ipairs( m.types) do
		same( db:type_constructor( h), t.id, d .. ": constructor of type " .. h)
		if db:type_name( h) ~= t.name then fail( d, ": name of type ", tostring( h), ": ", tostring( db:type_name( h))) end
		local p = db:type_parameters( h); local np = p and #p or 0
		if np ~= #t.par then fail( d, ": type ", tostring( h), " has ", tostring( np), " parameters") end
		for j,id in ipairs( t.par) do
			if p[ j].type ~= t.partype then fail( d, ": type of parameter") end
			if id then same( p[ j].constructor, id, d .. ": constructor of parameter " .. j) elseif p[ j].constructor ~= nil then fail( d, ": constructor of parameter ", tostring( j)) end
		end
	end
	for _,r in ipairs( m.redus) do
		local vis = r.scope == 1 or m.cur == 2
		local w, c = db:get_reduction( r.to, r.from)
		local l = db:get_reductions( r.from)
		if vis then
			same( c, r.id, d .. ": constructor of reduction " .. r.from); if w ~= 0.5 then fail( "weight") end
			if #l ~= 1 then fail( d, ": ", tostring( #l), " reductions") end
			same( l[1].constructor, r.id, d .. ": constructor of get_reductions " .. r.from)
			local path = db:derive_type( r.to, r.from)
			if type( path) ~= "table" or #path ~= 1 then fail( d, ": derive_type") end
			same( path[1].constructor, r.id, d .. ": constructor of derive_type " .. r.from)
		else
			if w ~= nil or #l ~= 0 then fail( d, ": reduction not visible found") end
		end
	end
end
return function( text)
	for op in text:gmatch( "%S+") do
		local o, d, k, n = op:sub( 1, 1), op:sub( 2, 2), op:sub( 3, 3), op:sub( 4, 4)
		if d ~= "" and not dbs[ d] then dbs[ d] = new() end
		if o == "g" then collectgarbage(); collectgarbage()
		elseif o == "n" then dbs[ d] = nil; dbs[ d] = new()
		elseif o == "x" then local r = {}; for _,t in ipairs( trees) do if t.leaf then r[ #r+1] = t end end; trees = r
		elseif o == "D" then trees = {}
		else ops[ o]( dbs[ d], k, n) end
		if #op > 1 and o ~= "n" then check( d == "A" and "B" or "A") end
		check( "A"); check( "B")
		for _,t in ipairs( trees) do local c = read( t.kind, t.node); if c ~= t.content then fail( "content of a tree node changed: ", t.content, " -> ", c) end end
	end
	local r = {}; for _,t in ipairs( trees) do r[ #r+1] = t.content end
	return table.concat( r, "|") .. nextid
end
)LUA";

static std::string exec( const std::string& text, Ctx& ctx)
{
	lh::Host h; lua_State* L = h.L;
	if (luaL_loadbuffer( L, RUNTIME, strlen( RUNTIME), "=runtime") || lua_pcall( L, 0, 1, 0)) throw mc::Failure( std::string( "runtime: ") + lua_tostring( L, -1));
	lua_pushlstring( L, text.data(), text.size());
	if (lua_pcall( L, 1, 1, 0)) ctx.fail( lua_tostring( L, -1) ? lua_tostring( L, -1) : "error");
	return lua_tostring( L, -1);
}
static void run( const std::string& text, Ctx& ctx)
{
	static bool warm = false; if (!warm) {warm = true; exec( "iAt TA", ctx); exec( "iAt", ctx);}
	std::string st; st.reserve( 4096);
	long before = liveBlocks(); {std::string s = exec( text, ctx); st.append( s.data(), s.size());} long after = liveBlocks();
	if (before != after && st.size() < 4096) ctx.fail( fmt( "%ld blocks of memory left after closing the Lua state", after-before));
	ctx.state( st); ctx.transitions += mc::split( text, ' ').size(); ctx.trace();
}
static void seqs( const V& alphabet, int depth, const Sink& sink, const std::string& prefix="", const std::string& suffix="")
{
	V lvl = {""}; for (int d=0; d<depth; ++d) {V n; for (auto& w : lvl) for (auto& a : alphabet) {n.push_back( w + (w.empty() ? "" : " ") + a); sink( prefix + n.back() + suffix);} lvl = n;}
}
static void enumB01( bool thorough, const Sink& sink)
{
	// every kind of value in every place
	for (char k : std::string( "snNTFetmfcu")) {V a; for (auto o : {"iA","tA","rA","pA","iB"}) a.push_back( fmt( "%s%c", o, k)); a.push_back( fmt( "iA%c2", k)); for (auto o : {"sA","TA","g","nA","qA"}) a.push_back( o); seqs( a, thorough && k != 'u' ? 4 : k == 'u' && !thorough ? 2 : 3, sink);}
	// histories
	seqs( {"sA","iAt","iAF","iAt2","pAt","rAt","TA","nA","iBt","rBm","TB","nB","g","x","D","cA","lA","wA"}, thorough ? 4 : 3, sink);
	seqs( {"sA","TA","nA","g","x","D","iAf","rAm"}, thorough ? 5 : 4, sink, "iAm sA iAt TA ");
}
static void enumAsan( bool thorough, const Sink& sink)
{
	for (char k : std::string( "snNTFetmfcu")) {V a; for (auto o : {"iA","tA","rA","pA"}) a.push_back( fmt( "%s%c", o, k)); for (auto o : {"sA","TA","g","nA","qA"}) a.push_back( o); seqs( a, 2, sink);}
	seqs( {"sA","iAt","pAt","rAt","TA","nA","iBt","TB","g","x","D","lA","wA"}, thorough ? 3 : 2, sink);
	seqs( {"sA","TA","nA","g","x","D","iAf","rAm"}, thorough ? 4 : 3, sink, "iAm sA iAt TA ");
}
#include <malloc.h>
int main( int argc, char** argv)
{
	mallopt( M_MMAP_THRESHOLD, 1<<30); mallopt( M_TRIM_THRESHOLD, 1<<30);	// a typedb allocates 64M: keep the pages
	std::map<std::string,mc::Property> props;
	props["B01"] = {enumB01, run, "one case = one history of definitions with values of all types, trees taken and dropped, typedb objects replaced and garbage collections on two typedb objects; after each step everything is read back and compared by identity; at the end all memory of the library has to be released; states = distinct contents of trees", 30};
	props["B01S"] = {enumAsan, run, "histories as in B01 with address and undefined behaviour sanitizers", 60};
	return mc::main_( argc, argv, props);
}
