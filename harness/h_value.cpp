// B04: mewa.tostring gives an expression for the value;  B05: hexadecimal representation of floating point numbers for LLVM
#include "luahost.hpp"
#include <sys/resource.h>
using mc::fmt; using mc::Ctx; using mc::Sink;
typedef std::vector<std::string> V;

static const char* RUNTIME = R"LUA(
local mewa = mewa
local MARK = {}
local function equal( a, b)
	if a == b then return true end
	if type( a) ~= "table" or type( b) ~= "table" or a == MARK or b == MARK then return false end
	for k,v in next, a do if not equal( v, rawget( b, k)) then return false end end
	for k,v in next, b do if rawget( a, k) == nil then return false end end
	return true
end
-- copy with tables of a level beyond the depth replaced
local function prune( v, depth, level)
	if type( v) ~= "table" then return v end
	if depth ~= 0 and level >= depth then return MARK end
	local r = {}; for k,e in next, v do r[ k] = prune( e, depth, level+1) end
	return r
end
local function nospace( s)	-- remove white space outside of strings
	local r, i, n, instr = {}, 1, #s, false
	while i <= n do
		local c = s:sub( i, i)
		if instr then r[ #r+1] = c; if c == "\\" then i = i + 1; r[ #r+1] = s:sub( i, i) elseif c == '"' then instr = false end
		elseif c == '"' then instr = true; r[ #r+1] = c
		elseif not c:match( "%s") then r[ #r+1] = c end
		i = i + 1
	end
	return table.concat( r)
end
local function quote( s) return string.format( "%q", s) end
local function fail( ...) error( table.concat( {...}, ""), 0) end
local function back( s, what)
	local f, e = load( "return " .. s, "=tostring", "t", {})
	if not f then fail( what, " cannot be read back: ", e, ": ", s:sub( 1, 300)) end
	local ok, r = pcall( f, MARK)
	if not ok then fail( what, " cannot be evaluated: ", tostring( r), ": ", s:sub( 1, 300)) end
	return r
end
local nchecks = 0
local function check( v, ...)
	for _,d in ipairs{...} do
		nchecks = nchecks + 1
		local s
		if d == -1 then s = mewa.tostring( v) ; d = 8 else s = mewa.tostring( v, d) end
		if type( s) ~= "string" then fail( "no string returned") end
		local r = back( s, "depth " .. d .. ": the string")
		if not equal( r, prune( v, d, 1)) then fail( "depth ", tostring(d), ": value read back differs: ", s:sub( 1, 300)) end
		local f = mewa.tostring( v, d, false); if f ~= s then fail( "result with indent=false differs: ", f:sub( 1, 300)) end
		local t = mewa.tostring( v, d, true)
		if nospace( t) ~= nospace( s) then fail( "depth ", tostring(d), ": result with indentation differs in more than white space: ", t:sub( 1, 300)) end
		if not equal( back( t, "with indent the string"), prune( v, d, 1)) then fail( "with indent: value read back differs: ", t:sub( 1, 300)) end
	end
end
local function build( hist)
	local t = {}
	for i=1,#hist,2 do t[ hist[i]] = hist[i+1] end
	return t
end
local M = {}
function M.S( prefix)
	for b=0,255 do
		local s = prefix .. string.char( b)
		local r = back( mewa.tostring( s), "string"); nchecks = nchecks + 1
		if r ~= s then fail( "string read back differs: ", quote( s), " ", quote( mewa.tostring( s))) end
		local x = s == "x" and "y" or "x"
		local t = back( mewa.tostring( {[s] = s, [x] = {s}}, 0, true), "string in table")
		if t[ s] ~= s or t[ x][1] ~= s then fail( "key read back differs: ", quote( s)) end
		t[ s] = nil; t[ x] = nil; if next( t) ~= nil then fail( "additional key: ", quote( s)) end
		-- digits following
		local z = s .. "09aF"; if back( mewa.tostring( z), "string") ~= z then fail( "string read back differs: ", quote( z)) end
	end
end
function M.N( list)
	for _,n in ipairs( list) do for _,x in ipairs{ n, -n} do
		local r = back( mewa.tostring( x), "number"); nchecks = nchecks + 1
		if r ~= x then fail( "number read back differs: ", string.format( "%.17g", x), " -> ", mewa.tostring( x)) end
		local t = {[x] = x, {x}}; check( t, 0)
		t = {1,2,[x] = 3}; check( t, 0)
	end end
end
function M.V( v) check( v, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9) end
function M.H( hist)	-- result depends only on the content
	local t = build( hist); check( t, 0)
	local keys = {}; for k in next, t do keys[ #keys+1] = k end
	table.sort( keys, function( a, b) if type( a) ~= type( b) then return type( a) < type( b) end; return a < b end)
	local a, b = {}, {}
	for i=1,#keys do a[ keys[ i]] = t[ keys[ i]] end
	for i=#keys,1,-1 do b[ keys[ i]] = t[ keys[ i]] end
	local s = mewa.tostring( t)
	if s ~= mewa.tostring( a) or s ~= mewa.tostring( b) then fail( "string depends on the order of insertion: ", s, " / ", mewa.tostring( a), " / ", mewa.tostring( b)) end
	local m = setmetatable( t, {__index = function() error( "idx") end, __newindex = function() error( "nidx") end, __len = function() return 7 end, __pairs = function() error( "prs") end, __tostring = function() return "meta" end, __call = function() end})
	if mewa.tostring( m) ~= s then fail( "meta table used: ", mewa.tostring( m), " instead of ", s) end
end
function M.D( n, kind, depth, indent)	-- deep nesting
	local t, leaf = {"leaf"}
	for i=2,n do if kind == "a" then t = {t} elseif kind == "k" then t = {k = t} elseif kind == "b" then t = {t, t2 = 1} end end
	if kind == "c" then t = {}; t[1] = t; t.k = t end
	local ok, s = pcall( mewa.tostring, t, depth, indent)
	if ok and kind ~= "c" and n < 150 and not equal( back( s, "the string"), prune( t, depth, 1)) then fail( "value read back differs") end
	if ok and kind ~= "c" then
		local lv = depth == 0 and n or math.min( n, depth-1)
		local _, open = s:gsub( "{", ""); local _, close = s:gsub( "}", "")
		if open ~= lv or close ~= lv then fail( "levels printed: ", open, "/", close, " expected ", lv) end
	end
	if not ok and type( s) ~= "string" then fail( "error is no string") end
	if not ok and kind ~= "c" and (n < 190 or (depth ~= 0 and depth < 190)) then fail( "refused: ", s) end
	if kind == "c" and ok and depth == 0 then fail( "endless string") end
	if kind == "c" and not ok and depth ~= 0 and depth < 12 then fail( "refused: ", s) end
end
return function( kind, ...) nchecks = 0; M[ kind]( ...); return nchecks end
)LUA";

static void runB04( const std::string& text, Ctx& ctx)
{
	
	lh::Host& h = lh::host( 32, 2000); lua_State* L = h.L; lua_settop( L, 0);
	lua_getglobal( L, "prepared");
	if (lua_isnil( L, -1))
	{
		lua_settop( L, 0);
		if (luaL_loadbuffer( L, RUNTIME, strlen( RUNTIME), "=runtime") || lua_pcall( L, 0, 1, 0)) throw mc::Failure( std::string( "runtime: ") + lua_tostring( L, -1));
		lua_pushvalue( L, -1); lua_setglobal( L, "prepared");
	}
	std::string kind = text.substr( 0, 1), rest = text.substr( 2);
	lua_pushstring( L, kind.c_str()); int n = 2;
	if (kind == "S") {std::string s; for (std::size_t i=0; i+1<rest.size(); i+=2) s.push_back( (char)strtol( rest.substr( i, 2).c_str(), nullptr, 16)); lua_pushlstring( L, s.data(), s.size());}
	else
	{
		std::string chunk = "return " + rest; int top = lua_gettop( L);
		if (luaL_loadstring( L, chunk.c_str()) || lua_pcall( L, 0, LUA_MULTRET, 0)) throw mc::Failure( std::string( "case: ") + lua_tostring( L, -1));
		n = 1 + lua_gettop( L) - top;
	}
	if (lua_pcall( L, n, 1, 0)) {std::string e = lua_tostring( L, -1) ? lua_tostring( L, -1) : "?"; lua_settop( L, 0); ctx.fail( e);}
	int c = lua_tointeger( L, -1); ctx.transitions += c; ctx.state( text); lua_settop( L, 0); ctx.trace();
}
static void enumB04( bool thorough, const Sink& sink)
{
	// strings
	sink( "S|"); for (int i=0; i<256; ++i) {sink( fmt( "S|%02x", i)); V sp = {"00","07","0a","0d","1a","1f","20","22","27","2d","30","39","5b","5c","5d","6e","75","78","7b","7f","80","c3","e2","ff"}; for (auto& s : sp) {sink( fmt( "S|%02x%s", i, s.c_str())); if (thorough) for (auto& z : sp) sink( fmt( "S|%02x%s%s", i, s.c_str(), z.c_str()));}}
	for (auto w : {"and","break","do","else","elseif","end","false","for","function","goto","if","in","local","nil","not","or","repeat","return","then","true","until","while","_G","_ENV","self"}) {std::string hx = mc::hexs( w); sink( "S|" + hx.substr( 0, hx.size()-2)); sink( "S|" + hx); sink( "H|{\"" + std::string(w) + "\",1}");}
	// numbers: all binary exponents with mantissas near the ends, decimal numbers
	for (int e=-1074; e<=1023; ++e) sink( fmt( "N|(function() local r, p = {}, 2.0^%d; for _,m in ipairs{1,1+2^-52,1+2^-51,1.5,1+1/3,2-2^-52,2-2^-51,1.1} do r[#r+1]=p*m; end; return r end)()", e));
	for (int e=-30; e<=30; ++e) sink( fmt( "N|(function() local r = {}; for m=1,99 do r[m] = m * 10.0^%d end; return r end)()", e));
	for (int k=0; k<(thorough ? 2000 : 300); ++k) sink( fmt( "N|(function() local r = {}; for i=0,9 do r[#r+1] = %d + i/10; r[#r+1] = %d + i*2^-52; r[#r+1] = %d - i*2^-52; r[#r+1] = %d + i*2^-40; r[#r+1] = %d - i*1e-15 end; return r end)()", k, k, k, k, k));
	for (int e=31; e<=63; ++e) sink( fmt( "N|(function() local r, p = {}, 2.0^%d; for i=-4,4 do r[#r+1] = p + i; r[#r+1] = p + i + 0.5 end; return r end)()", e));
	// sets of keys in all orders of insertion
	V keys = {"1","2","3","4","0","-1","1.5","2^53","1e300","0.1","'a'","'b'","'1'","'end'","'a b'","''","'_x1'","'\\195\\169'","2+2^-51","1-2^-53","'A'","2^-60"};
	std::function<void(V&)> rec = [&]( V& l)
	{
		std::string h; for (std::size_t i=0; i<l.size(); ++i) h += (i ? "," : "") + l[i] + "," + fmt( "%d", (int)i+1);
		sink( "H|{" + h + "}");
		if (l.size() == (thorough ? 4u : 3u)) return;
		for (auto& k : keys) {if (std::find( l.begin(), l.end(), k) != l.end()) continue; l.push_back( k); rec( l); l.pop_back();}
	};
	{V l; rec( l);}
	// histories with removed keys
	V hk = {"1","2","3","'a'","'b'","8"};
	std::function<void(std::string,int)> hrec = [&]( const std::string& h, int d) {if (!h.empty()) sink( "H|{" + h + "}"); if (d == (thorough ? 6 : 5)) return; for (auto& k : hk) for (auto v : {fmt( "%d", d+1),std::string( "nil")}) if (v != "nil" || h.find( k) != std::string::npos) hrec( h + (h.empty() ? "" : ",") + k + "," + v, d+1);};
	hrec( "", 0);
	// lists up to 40 elements, with one element missing
	for (int n=0; n<=40; ++n) for (int m=0; m<=n; ++m) sink( fmt( "V|(function() local t = {}; for i=1,%d do t[i] = i*i end; t[%d] = nil; return t end)()", n, m));
	// sizes: lists, maps, strings and keys around powers of two
	std::vector<int> sz; for (int n=41; n<=70; ++n) sz.push_back( n);
	for (int p=128; p<=65536; p*=2) for (int d=-2; d<=2; ++d) sz.push_back( p+d);
	for (int n : {100,200,300,500,1000,2000,3000,5000,9999,10000,10001,70000}) sz.push_back( n);
	for (int n : sz)
	{
		for (auto b : {"('a'):rep(n)","('a'):rep(n) .. '\"'","('\\0'):rep(n) .. '1'","('\\n'):rep(n)","('\\\\'):rep(n)","('\\195\\169'):rep(n)","{('k'):rep(n)}","{[('k'):rep(n)] = 1,[('k'):rep(n-1)] = 2,[('k'):rep(n) .. ' '] = 3}"})
			sink( fmt( "V|(function() local n = %d; return %s end)()", n, b));
		if (n > (thorough ? 70000 : 4098)) continue;
		for (auto b : {"t[i] = i","t[i] = {i}","t['k' .. i] = i","t[i] = i; if i == n then t[0] = 7 end","t[i] = i; if i == n then t[n/2 - n/2 % 1] = nil end","t[i] = i; if i == n then t[n+2] = 1 end","t[n-i+1] = 'v' .. i","t[i/2] = i","t[-i] = i","t[i] = i; if i == n then t.x = 1 end","t[i*1000003] = i","if i > 1 then t[i] = i end"})
			sink( fmt( "V|(function() local n, t = %d, {}; for i=1,n do %s end; return t end)()", n, b));
	}
	// values: trees of tables
	V atoms = {"true","false","0","-1.5","'x'","'...'","'<function>'","'{\"'","{}"};
	auto tabs = [&]( const V& val) {V rt; for (auto& a : val) for (auto k : {"","k=","[2]=","[true and 5]="}) rt.push_back( std::string( "{") + k + a + "}"); for (auto& a : val) for (auto& b : val) {rt.push_back( "{" + a + "," + b + "}"); rt.push_back( "{" + a + ",k=" + b + "}"); rt.push_back( "{k=" + a + ",['end']=" + b + "}");} return rt;};
	V t1 = tabs( atoms); for (auto& a : atoms) sink( "V|" + a); for (auto& t : t1) sink( "V|" + t);
	V v2 = t1; if (!thorough) {v2.clear(); for (std::size_t i=0; i<t1.size(); i+=4) v2.push_back( t1[i]);} v2.push_back( "1");
	V t2 = tabs( v2); for (auto& t : t2) sink( "V|" + t);
	V v3 = {"1"}; for (std::size_t i=0; i<t2.size(); i+= t2.size() / (thorough ? 200 : 40)) v3.push_back( t2[i]);
	for (auto& t : tabs( v3)) sink( "V|" + t);
	// nesting
	for (int n=1; n<=12; ++n) for (auto k : {"a","k","b"}) for (int d=0; d<=14; ++d) for (auto i : {"false","true"}) sink( fmt( "D|%d,'%s',%d,%s", n, k, d, i));
	for (int n : {50,150,180,195,199,200,201,250,1000,2000,4000,10000,20000,100000,200000,500000}) for (auto k : {"a","k","b"}) for (int d : {0,1,2,8,100,199,200,1000,5000,100000,1000000}) {sink( fmt( "D|%d,'%s',%d,false", n, k, d)); if (n <= 250) sink( fmt( "D|%d,'%s',%d,true", n, k, d));}
	for (int d : {0,1,2,3,8,12}) sink( fmt( "D|1,'c',%d,false", d)); sink( "D|1,'c',0,true");
}

// --- B05
// float value nearest to a double, ties to even, as the bits of the double with that value; independent of the conversion of the machine
static uint64_t nearestFloat( uint64_t bits, bool* nan)
{
	uint64_t sign = bits & 0x8000000000000000ULL; int exp = (int)((bits >> 52) & 0x7FF); uint64_t man = bits & 0xFFFFFFFFFFFFFULL;
	*nan = exp == 0x7FF && man; if (exp == 0x7FF) return bits;
	if (exp == 0) return sign;	// far below the smallest float
	int e = exp - 1023; uint64_t m = man | (1ULL << 52);	// value = m * 2^(e-52)
	int drop = 29; if (e < -126) drop += -126 - e;
	if (drop > 54) return sign;
	uint64_t rem = m & ((1ULL << drop) - 1), half = 1ULL << (drop-1), q = m >> drop;
	if (rem > half || (rem == half && (q & 1))) ++q;
	if (!q) return sign;
	// value = q * 2^(e-52+drop)
	int p = 63 - __builtin_clzll( q); int ee = e - 52 + drop + p;
	if (ee > 127) return sign | 0x7FF0000000000000ULL;
	return sign | ((uint64_t)(ee + 1023) << 52) | ((q << (52 - p)) & 0xFFFFFFFFFFFFFULL);
}
static void runB05( const std::string& text, Ctx& ctx)
{
	
	lh::Host& h = lh::host( 4, 100000); lua_State* L = h.L; lua_settop( L, 0);
	auto f = mc::split( text, '|');
	luaL_checkstack( L, 10, "B05"); lua_getglobal( L, "mewa"); lua_getfield( L, 1, "llvm_float_tohex"); lua_getfield( L, 1, "llvm_double_tohex");
	long n = 0;
	auto one = [&]( int fn, uint64_t bits)
	{
		double num; memcpy( &num, &bits, 8); ++n;
		lua_pushvalue( L, fn); lua_pushnumber( L, num);
		if (lua_pcall( L, 1, 1, 0)) ctx.fail( fmt( "%016llx: error: %s", (unsigned long long)bits, lua_tostring( L, -1)));
		size_t len = 0; const char* s = lua_type( L, -1) == LUA_TSTRING ? lua_tolstring( L, -1, &len) : nullptr;
		if (!s || !len || len > 16) ctx.fail( fmt( "%016llx: no hexadecimal number returned", (unsigned long long)bits));
		uint64_t r = 0; for (size_t i=0; i<len; ++i) {int c = s[i]; int d = c >= '0' && c <= '9' ? c - '0' : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; if (d < 0) ctx.fail( fmt( "%016llx: no hexadecimal number: %s", (unsigned long long)bits, s)); r = r * 16 + d;}
		bool nan; uint64_t e = fn == 3 ? bits : nearestFloat( bits, &nan);
		if (fn == 3) nan = (bits & 0x7FF0000000000000ULL) == 0x7FF0000000000000ULL && (bits & 0xFFFFFFFFFFFFFULL);
		if (nan) {if ((r & 0x7FF0000000000000ULL) != 0x7FF0000000000000ULL || !(r & 0xFFFFFFFFFFFFFULL) || (fn == 2 && (r & 0x1FFFFFFFULL))) ctx.fail( fmt( "%016llx: %s is not a number a %s can hold", (unsigned long long)bits, s, fn == 2 ? "float":"double"));}
		else if (r != e) ctx.fail( fmt( "%s %.17g (%016llx): 0x%s, expected 0x%llX", fn == 2 ? "float" : "double", num, (unsigned long long)bits, s, (unsigned long long)e));
		lua_settop( L, 3);
	};
	if (f[0] == "F")	// all floats with this upper half, with lower half a multiple of the stride and at the ends, and the doubles around the middle between it and the next one
	{
		uint32_t hi = strtoul( f[1].c_str(), nullptr, 16); long stride = atol( f[2].c_str());
		for (uint32_t lo=0; lo<0x10000; ++lo)
		{
			if (lo % stride && lo > 2 && lo < 0xFFFE) continue;
			uint32_t fb = (hi << 16) | lo; float fv; memcpy( &fv, &fb, 4); double d = fv; uint64_t b; memcpy( &b, &d, 8);
			one( 2, b); if (lo % (stride * 4) == 0) one( 3, b);
			if (lo % (stride == 1 ? 64 : stride * 4) && lo > 2 && lo < 0xFFFE) continue;
			uint64_t step = 1ULL << 29; int exp = (int)((b >> 52) & 0x7FF) - 1023; if (exp < -126 && exp >= -149) step <<= (-126 - exp);
			for (uint64_t o : {(uint64_t)1, step/2-1, step/2, step/2+1, step-1}) {one( 2, b + o); one( 2, b - o); one( 3, b + o);}
		}
	}
	else	// doubles with this upper half and boundary patterns in the lower one
	{
		uint64_t hi = strtoull( f[1].c_str(), nullptr, 16);
		for (int i=0; i<48; ++i) for (int k=-1; k<=1; ++k) {uint64_t b = (hi << 48) | (((1ULL << i) + k) & 0xFFFFFFFFFFFFULL); one( 3, b); one( 2, b); one( 3, (hi << 48) | (~b & 0xFFFFFFFFFFFFULL)); one( 2, (hi << 48) | (~b & 0xFFFFFFFFFFFFULL));}
	}
	ctx.transitions += n; ctx.state( text); ctx.trace(); lua_settop( L, 0);
}
static void enumB05( bool thorough, const Sink& sink)
{
	for (int hi=0; hi<0x10000; ++hi) sink( fmt( "F|%04x|%d", hi, thorough ? 1 : 251));
	for (int hi=0; hi<0x10000; hi += thorough ? 1 : 4) {sink( fmt( "D|%04x", hi)); if (!thorough && ((hi >> 4) & 0x7FF) >= 0x7FE) for (int k=1; k<4; ++k) sink( fmt( "D|%04x", hi + k));}
}
int main( int argc, char** argv)
{
	std::map<std::string,mc::Property> props;
	props["B04"] = {enumB04, runB04, "one case = one value (or set of values), printed with all depths and with and without indentation, read back by Lua and compared; every history of insertions compared with the canonical one; states = distinct cases", 60};
	props["B05"] = {enumB05, runB05, "one case = one set of numbers sharing their upper bits, converted and compared with the IEEE representation computed by integer arithmetic; transitions = numbers converted", 120};
	return mc::main_( argc, argv, props);
}
