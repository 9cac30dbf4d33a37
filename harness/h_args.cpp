// B02: calls of the Lua API with all kinds of arguments are carried out or refused with an error; refused calls change nothing.
// Case: method|v1,v2,...   the values are names of the pool below, the first is the object the method is called on
#include "luahost.hpp"
#include "automaton.hpp"
#include "error.hpp"
using mc::fmt; using mc::Ctx; using mc::Sink;
typedef std::vector<std::string> V;

static const char* RUNTIME = R"LUA(
local mewa = mewa
local other = mewa.typedb()
local othermod = false
local otree = other:instance_tree( "x")
local compilerdef, infile = ...
local function ctable() return load( "local typesystem = {f = function() end}; return " .. compilerdef)() end
local compiler = mewa.compiler( ctable())
local pool = {
	["nil"] = function() return nil end, t = function() return true end, f = function() return false end,
	i0 = function() return 0 end, i1 = function() return 1 end, i2 = function() return 2 end, i3 = function() return 3 end, i32 = function() return 32 end, i33 = function() return 33 end,
	i9999 = function() return 9999 end, im1 = function() return -1 end, imax = function() return 2147483647 end, imax1 = function() return 2147483648 end, imin1 = function() return -2147483649 end,
	u1 = function() return 4294967295 end, u2 = function() return 4294967296 end, u3 = function() return 4294967297 end, h = function() return 1.5 end, hm = function() return -0.5 end,
	huge = function() return 1e300 end, mhuge = function() return -1e300 end, nan = function() return 0/0 end, inf = function() return 1/0 end, minf = function() return -1/0 end,
	s = function() return "a" end, s0 = function() return "" end, s1 = function() return "1" end, sz = function() return "a\0b" end, sl = function() return string.rep( "x", 300) end,
	T = function() return {} end, T1 = function() return {1} end, T12 = function() return {1,2} end, T23 = function() return {2,3} end, Ts = function() return {"x"} end, Tss = function() return {"1"} end, Tb = function() return {true} end,
	Tf = function() return {function() end} end, Tn = function() return {{}} end, Tg = function() return {[2]=1} end, Tx = function() return {x=1} end, T1x = function() return {1,x=2} end, Tm1 = function() return {-1} end, Th = function() return {1.5} end,
	Tu = function() return {4294967297} end, Tnan = function() return {0/0} end, T9999 = function() return {9999} end, T0 = function() return {[0]=1} end, Tbk = function() return {[true]=1} end, Tlong = function() local r = {}; for i=1,300 do r[i] = 1 end; return r end,
	H = function() return {type=1} end, Hc = function() return {type=1,constructor="c"} end, Hs = function() return {type="q"} end, Hm = function() return {type=-1} end, Hh = function() return {type=1.5} end, Hu = function() return {type=4294967297} end, H9 = function() return {type=9999} end, Hi = function() return {type=1e300} end,
	LH = function() return {{type=1}} end, LHc = function() return {{type=1,constructor="c"},{type=2}} end, LP = function() return {{1,"c"}} end, LP1 = function() return {{1}} end, LHs = function() return {{type="q"}} end, LHm = function() return {{type=-1}} end, LHh = function() return {{type=1.5}} end,
	LHu = function() return {{type=4294967297}} end, LPs = function() return {{"x","c"}} end, LP3 = function() return {{1,2,3}} end, LPu = function() return {{4294967297,"c"}} end, LHt = function() return {{type={}}} end, LHb = function() return {{[true]=1}} end, LPh = function() return {{1.5,"c"}} end,
	Sm = function() return {1,-1} end, S52 = function() return {5,2} end, Sneg = function() return {-5,2} end, Sbig = function() return {4294967296,4294967301} end, Sh = function() return {0.5,2} end, Se = function() return {1,1e300} end, S3 = function() return {1,2,3} end, Snan = function() return {0/0,5} end,
	Sx = function() return {1,2,x=3} end, Shh = function() return {1,5.5} end, Sst = function() return {1,"z"} end, Sb = function() return {1,true} end,
	fn = function() return function() end end, td2 = function() if othermod then other = mewa.typedb(); othermod = false end; return other end, tree = function() return otree end, co = function() return coroutine.create( function() end) end, file = function() return io.stderr end, cp = function() return compiler end,
	ct = ctable, ["in"] = function() return infile end, of = function() return "/dev/null" end,
	mt = function() return setmetatable( {}, {__index = function() error( "idx") end, __len = function() return 7 end}) end,
}
local function val( o)
	if type( o) == "table" then local ks = {}; for k in pairs( o) do ks[ #ks+1] = k end; table.sort( ks, function( a, b) return tostring(a) < tostring(b) end); local rt = "{"; for _,k in ipairs( ks) do rt = rt .. tostring(k) .. "=" .. val( o[k]) .. "," end; return rt .. "}" end
	if type( o) == "function" then return "fn" end
	if type( o) == "userdata" then return "ud" end
	return tostring( o)
end
local function dumptree( n, list, out)
	out[ #out+1] = "(" .. val( n:scope())
	if n.list then for x in n:list() do out[ #out+1] = val( x) end else out[ #out+1] = val( n:instance()) end
	for c in n:chld() do dumptree( c, list, out) end
	out[ #out+1] = ")"
end
local function dump( td)
	local out = {}
	local s, st = td:scope(); out[1] = val( s) .. st
	for _,nm in ipairs{ "obj", "a", ""} do dumptree( td:instance_tree( nm), false, out) end
	dumptree( td:type_tree(), true, out); dumptree( td:reduction_tree(), true, out)
	for i=1,8 do
		if not pcall( td.type_name, td, i) then out[ #out+1] = "E"; break end
		for _,m in ipairs{ "type_name", "type_context", "type_string", "type_parameters", "type_nof_parameters", "type_constructor", "type_scope"} do
			local ok, r = pcall( td[ m], td, i); out[ #out+1] = ok and val( r) or "E"
		end
	end
	return table.concat( out, " ")
end
local function prelude()
	local td = mewa.typedb()
	local cls = td:def_type( 0, "cls"); local int = td:def_type( 0, "int", "cint")
	td:scope( {1,10})
	td:def_type( cls, "mem", {1}, {int, {type=cls,constructor="pc"}})
	td:set_instance( "obj", {"o"})
	td:def_reduction( int, cls, {"r"}, 1, 0.5)
	td:scope( {2,8}, 3)
	return td
end
local trees = {instance_tree = function( td) return td:instance_tree( "obj") end, type_tree = function( td) return td:type_tree() end, reduction_tree = function( td) return td:reduction_tree() end}
local base, td
return function( method, args)
	td = td or prelude()
	base = base or dump( td)
	local a, n = {}, 0
	local fn, obj
	if method:sub( 1, 5) == "mewa." then fn = mewa[ method:sub( 6)]
	elseif method:sub( 1, 9) == "compiler:" then fn = compiler[ method:sub( 10)]; obj = compiler
	elseif method:find( "%.") then local t, m = method:match( "(.*)%.(.*)"); obj = trees[ t]( td); fn = obj[ m]
	else obj = td; fn = td[ method] end
	for x in args:gmatch( "[^,]+") do n = n + 1; if x == "self" then a[n] = obj else a[n] = pool[ x]() end end
	local top = collectgarbage( "count")
	local r = table.pack( pcall( fn, table.unpack( a, 1, n)))
	for i=1,n do if rawequal( a[i], other) and i == 1 and r[1] and (method:match( "^[sd]e[tf]_") or method == "scope" or method == "step") then othermod = true end end
	local d = dump( td)
	for i=2,r.n do if type( r[i]) == "function" then pcall( r[i]) ; end end
	if d ~= base then td = nil end
	return r[1] and "ok" or "err", r[1] and "" or (type( r[2]) .. ":" .. tostring( r[2])), d == base and "same" or "changed", d
end
)LUA";

enum Acc {OK, NO, ANY};
// kinds of values
static bool isnum( const std::string& v, double* n)
{
	static std::map<std::string,double> m = {{"i0",0},{"i1",1},{"i2",2},{"i3",3},{"i32",32},{"i33",33},{"i9999",9999},{"im1",-1},{"imax",2147483647.},{"imax1",2147483648.},{"imin1",-2147483649.},{"u1",4294967295.},{"u2",4294967296.},{"u3",4294967297.},
		{"h",1.5},{"hm",-0.5},{"huge",1e300},{"mhuge",-1e300},{"nan",NAN},{"inf",INFINITY},{"minf",-INFINITY}};
	auto i = m.find( v); if (i == m.end()) return false; *n = i->second; return true;
}
static bool isstr( const std::string& v) {return v[0] == 's' && v != "self";}
static Acc integer( const std::string& v, double lo, double hi)
{
	double n; if (isnum( v, &n)) return n == std::floor( n) && n >= lo && n <= hi ? OK : NO;
	return v == "s1" ? ANY : NO;
}
static const double IMAX = 2147483647.;
// acceptance of a value v for a parameter of class c
static Acc accepts( const std::string& c, const std::string& v)
{
	double n; bool num = isnum( v, &n);
	if (c[0] == '?') return v == "nil" ? OK : accepts( c.substr( 1), v);
	if (c == "any") return OK;
	if (c == "notnil") return v == "nil" ? NO : OK;
	if (c == "str") return isstr( v) ? OK : num ? ANY : NO;
	if (c == "type0" || c == "type1")	// handle of a type (with or without 0); handles not existing are refused or not
	{
		Acc a = integer( v, c == "type0" ? 0 : 1, IMAX); return a == OK && n > 3 ? ANY : a;
	}
	if (c == "attr") {Acc a = integer( v, 0, IMAX); return a == OK && (n > 3 || n == 0) ? ANY : a;}
	if (c == "step") return integer( v, 0, IMAX);
	if (c == "int") return integer( v, -IMAX-1, IMAX);
	if (c == "depth") {Acc a = integer( v, -IMAX-1, IMAX); return a == OK && n < 0 ? ANY : a;}
	if (c == "pos") return integer( v, 1, IMAX);
	if (c == "mask") return integer( v, 0, 4294967295.);
	if (c == "tag") return integer( v, 1, 32);
	if (c == "weight") return num ? (n < 0 || std::isnan( n) ? NO : n > 1e30 ? ANY : OK) : v == "s1" ? ANY : NO;
	if (c == "num") return num ? OK : v == "s1" ? ANY : NO;
	if (c == "bool") return v == "t" || v == "f" ? OK : NO;
	if (c == "table") return v == "ct" ? OK : ANY;
	if (c == "scope")
	{
		if (v == "T12" || v == "T23") return OK;
		static const std::set<std::string> any = {"T","T1","T9999","Tg","Sm","Tss","mt"};
		return any.count( v) ? ANY : NO;
	}
	if (c == "strlist") {static const std::set<std::string> ok = {"T","Ts","Tss"}; return ok.count( v) ? OK : v == "T1" || v == "T12" || v == "T23" || v == "mt" ? ANY : NO;}
	static const std::set<std::string> list_ok = {"T","T1","T12","T23","S3","LH","LHc","Tlong"}, list_any = {"T9999","Tss","mt","S52"};
	if (c == "params")
	{
		if (list_ok.count( v) || v == "LP" || v == "LP1") return OK;
		return list_any.count( v) || v == "Tn" ? (v == "Tn" ? NO : ANY) : NO;
	}
	if (c == "types")
	{
		if (list_ok.count( v)) return OK;
		return list_any.count( v) || v == "LP" || v == "LP1" || v == "LP3" || v == "LPs" || v == "LPh" || v == "LPu" ? ANY : NO;
	}
	if (c == "ctx")
	{
		if (v == "H" || v == "Hc") return OK;
		if (v == "H9" || v == "T") return ANY;
		Acc a = integer( v, 0, IMAX); if (a == OK) return n > 3 ? ANY : OK; if (a == ANY) return ANY;
		return accepts( "types", v);
	}
	throw std::runtime_error( "class " + c);
}
struct Method {const char* name; const char* self; std::vector<const char*> par; int min; bool changes; const char* baseline;};
static const std::vector<Method>& methods()
{
	static const std::vector<Method> m = {
		{"scope", "td", {"scope","step"}, 0, true, "T23,i2"}, {"step", "td", {"step"}, 0, true, "i2"},
		{"set_instance", "td", {"str","notnil"}, 2, true, "s,T"}, {"get_instance", "td", {"str"}, 1, false, "s"}, {"this_instance", "td", {"str"}, 1, false, "s"},
		{"def_type", "td", {"type0","str","?any","?params"}, 2, true, "i1,s,s,T12"}, {"def_type_as", "td", {"type0","str","type1"}, 3, true, "i1,s,i2"},
		{"this_type", "td", {"type0","str","?types"}, 2, false, "i1,s,T12"}, {"this_types", "td", {"type0","str"}, 2, false, "i1,s"},
		{"get_type", "td", {"type0","str","?types"}, 2, false, "i1,s,T12"}, {"get_types", "td", {"type0","str"}, 2, false, "i1,s"},
		{"def_reduction", "td", {"type0","type1","any","tag","?weight"}, 4, true, "i1,i2,s,i1,i1"}, {"get_reduction", "td", {"type0","type1","?mask"}, 2, false, "i1,i2,i1"},
		{"get_reductions", "td", {"type1","?mask","?mask"}, 1, false, "i1,i1,i1"}, {"derive_type", "td", {"type0","type1","?mask","?mask","?int"}, 2, false, "i1,i2,i1,i1,i1"},
		{"resolve_type", "td", {"ctx","str","?mask"}, 2, false, "T12,s,i1"}, {"reduction_tagmask", "tdv", {"tag","tag","tag"}, 0, false, "i1,i2,i3"},
		{"type_name", "td", {"attr"}, 1, false, "i1"}, {"type_context", "td", {"attr"}, 1, false, "i1"}, {"type_string", "td", {"attr","?str"}, 1, false, "i1,s"}, {"type_parameters", "td", {"attr"}, 1, false, "i1"},
		{"type_nof_parameters", "td", {"attr"}, 1, false, "i1"}, {"type_constructor", "td", {"attr"}, 1, false, "i1"}, {"type_scope", "td", {"attr"}, 1, false, "i1"},
		{"instance_tree", "td", {"str"}, 1, false, "s"}, {"type_tree", "td", {}, 0, false, ""}, {"reduction_tree", "td", {}, 0, false, ""},
		{"instance_tree.chld", "tree", {}, 0, false, ""}, {"instance_tree.scope", "tree", {}, 0, false, ""}, {"instance_tree.instance", "treev", {}, 0, false, ""}, {"type_tree.chld", "tree", {}, 0, false, ""}, {"type_tree.scope", "tree", {}, 0, false, ""}, {"type_tree.list", "tree", {}, 0, false, ""},
		{"reduction_tree.chld", "tree", {}, 0, false, ""}, {"reduction_tree.scope", "tree", {}, 0, false, ""}, {"reduction_tree.list", "tree", {}, 0, false, ""},
		{"mewa.tostring", "", {"?any","?depth","?bool"}, 0, false, "T12,i1,t"}, {"mewa.version", "", {}, 0, false, ""}, {"mewa.llvm_float_tohex", "", {"num"}, 1, false, "h"}, {"mewa.llvm_double_tohex", "", {"num"}, 1, false, "h"},
		{"mewa.stacktrace", "", {"?pos","?strlist"}, 0, false, "i2,Ts"}, {"mewa.typedb", "", {}, 0, false, ""}, {"mewa.compiler", "", {"table"}, 1, false, "ct"},
		{"compiler:run", "cp", {"?file","any","file","?outfile","?outfile"}, 3, false, "nil,nil,in,of,of"}, {"compiler:__tostring", "cp", {}, 0, false, ""},
	};
	return m;
}
static const V& pool()
{
	static const V p = mc::split( "nil t f i0 i1 i2 i3 i32 i33 i9999 im1 imax imax1 imin1 u1 u2 u3 h hm huge mhuge nan inf minf s s0 s1 sz sl T T1 T12 T23 Ts Tss Tb Tf Tn Tg Tx T1x Tm1 Th Tu Tnan T9999 T0 Tbk Tlong H Hc Hs Hm Hh Hu H9 Hi LH LHc LP LP1 LHs LHm LHh LHu LPs LP3 LPu LHt LHb LPh Sm S52 Sneg Sbig Sh Se S3 Snan Sx Shh Sst Sb fn td2 tree co file cp mt", ' ');
	return p;
}
static const V& pairPool()
{
	static const V p = mc::split( "nil t i0 i1 i2 i33 i9999 im1 imax1 u3 h huge nan inf s s1 sz T T1 T12 T23 Ts Tf Tn Tg Tm1 Tnan T9999 Tlong H Hc Hs Hu LHc LP LHs LHu LP3 LHb Sm S52 Sbig Se S3 fn td2 tree mt", ' ');
	return p;
}
static void runArgs( const std::string& text, Ctx& ctx)
{
	
	auto f = mc::split( text, '|'); const Method* m = nullptr; for (auto& x : methods()) if (f.at(0) == x.name) m = &x;
	if (!m) throw std::runtime_error( "bad case");
	V args = f.at(1).empty() ? V() : mc::split( f[1], ',');
	// expectation
	bool foreign = !args.empty() && args[0] == "td2";	// an object without any type defined
	Acc exp = OK; std::string why; std::string self = m->self; std::size_t first = 0;
	auto merge = [&]( Acc a, const std::string& w) {if (a == NO && exp != NO) {exp = NO; why = w;} else if (a == ANY && exp == OK) {exp = ANY; why = w;}};
	if (!self.empty())
	{
		if (args.empty()) {if (self != "tdv") merge( NO, "no object");}
		else if (self == "tdv" && args[0] != "self" && args[0] != "td2") {merge( ANY, "called without object"); if (!args[0].empty() && integer( args[0], 1, 4294967295.) == NO) merge( NO, "neither object nor tag");}
		else {first = 1; if (args[0] != "self" && !((self == "td" || self == "tdv") && args[0] == "td2") && !(self == "cp" && args[0] == "cp")) merge( args[0] == "tree" && (self == "tree" || self == "treev") ? ANY : NO, "called on another object");}
	}
	if (f[0] == "compiler:run" && args.size() > 3 && args[3] != "in" && exp == OK) exp = ANY; // file may exist or not
	int n = (int)args.size() - (int)first;
	if (exp != NO || first == 1)
	{
		if (n > (int)m->par.size() && self != "tdv") merge( self == "treev" ? ANY : NO, "too many arguments");
		// an optional argument missing is not nil: at least 'min' arguments are needed
		if (n < m->min) merge( NO, "too few arguments");
		for (int i=0; i<n && (i<(int)m->par.size() || self == "tdv"); ++i)
		{
			std::string c = i<(int)m->par.size() ? m->par[i] : m->par.back();
			if (c == "file" || c == "?file" || c == "outfile" || c == "?outfile") {if (args[ first+i] == "in" || args[ first+i] == "of") continue; if (isstr( args[ first+i])) {merge( ANY, "file name"); continue;} if (!isstr( args[ first+i]) && !(c[0] == '?' && args[ first+i] == "nil")) {double d; merge( isnum( args[ first+i], &d) ? ANY : NO, "file name expected");} continue;}
			Acc acc = accepts( c, args[ first+i]);
			static const std::set<std::string> handles = {"type0","type1","attr","?params","?types","ctx"};
			if (foreign && acc == OK && handles.count( c) && args[ first+i] != "nil" && args[ first+i] != "T") acc = ANY;
			merge( acc, fmt( "argument %d", i+1));
		}
		if (f[0] == "def_reduction" && n >= 2 && args[ first] == args[ first+1]) merge( NO, "reduction of a type to itself");
		if (f[0] == "mewa.compiler" && n >= 1) {std::string v = args[ first]; double d; if (isstr( v) || isnum( v, &d) || v == "nil" || v == "t" || v == "f" || v == "fn" || v == "co" || v == "td2" || v == "tree" || v == "file" || v == "cp") merge( NO, "table expected");}
		if (f[0] == "mewa.tostring" && n >= 1 && args[ first] == "mt") merge( ANY, "meta table");
		if ((f[0] == "scope") && n >= 2 && args[ first] == "T12") {}
	}
	lh::Host& h = lh::host( 16, 3000); lua_State* L = h.L;
	static lua_State* prepared = nullptr; static int ref = LUA_NOREF;
	if (prepared != L || (lua_getglobal( L, "prepared"), lua_isnil( L, -1)))
	{
		lua_settop( L, 0);
		std::string def; {std::vector<mewa::Error> w; mewa::Automaton am; am.build( "S = \"a\" (f);", w, mewa::Automaton::DebugOutput()); def = am.tostring();}
		if (luaL_loadbuffer( L, RUNTIME, strlen( RUNTIME), "=runtime")) throw mc::Failure( std::string( "runtime: ") + lua_tostring( L, -1));
		lua_pushlstring( L, def.data(), def.size());
		std::string fn = mc::scratch() + "/args.src"; {FILE* fh = fopen( fn.c_str(), "wb"); if (!fh) throw std::runtime_error( "cannot write " + fn); fwrite( "a\n", 1, 2, fh); fclose( fh);}
		lua_pushlstring( L, fn.data(), fn.size());
		if (lua_pcall( L, 2, 1, 0)) throw mc::Failure( std::string( "runtime: ") + lua_tostring( L, -1));
		ref = luaL_ref( L, LUA_REGISTRYINDEX); lua_pushboolean( L, 1); lua_setglobal( L, "prepared"); prepared = L;
	}
	lua_settop( L, 0);
	lua_rawgeti( L, LUA_REGISTRYINDEX, ref); lua_pushstring( L, f[0].c_str()); lua_pushstring( L, f[1].c_str());
	if (lua_pcall( L, 2, 4, 0)) {std::string e = lua_tostring( L, -1) ? lua_tostring( L, -1) : "?"; lua_settop( L, 0); ctx.fail( "the typedb object cannot be used anymore after the call: " + e);}
	bool ok = std::string( lua_tostring( L, 1)) == "ok"; std::string err = lua_tostring( L, 2); bool same = std::string( lua_tostring( L, 3)) == "same"; std::string d = lua_tostring( L, 4); lua_settop( L, 0);
	ctx.transition(); ctx.state( f[0] + (ok ? "+" : "-") + d); ctx.count( ok ? "accepted" : "refused");
	if (ctx.verbose) printf( "expected %s %s -> %s %s %s\n%s\n", exp == OK ? "accepted" : exp == NO ? "refused" : "any", why.c_str(), ok ? "accepted" : "refused", err.c_str(), same ? "same" : "changed", d.c_str());
	if (ok && exp == NO) ctx.fail( "accepted, expected an error: " + why);
	if (!ok && exp == OK) ctx.fail( "refused: " + err);
	if (!ok && !same) ctx.fail( "refused, but the content of the typedb object has changed: " + d);
	if (ok && !same && (!m->changes || (!args.empty() && args[0] == "td2"))) ctx.fail( "the content of the typedb object has changed: " + d);
	if (!ok && err.compare( 0, 7, "string:") != 0) ctx.fail( "the error is no text: " + err);
	if (!ok && err.size() < 12) ctx.fail( "error without a message: " + err);
	ctx.trace();
}
static void enumArgsPairs( bool thorough, bool singles, const Sink& sink)
{
	for (auto& m : methods())
	{
		std::string self = m.self; V base; if (!self.empty()) base.push_back( "self");
		if (*m.baseline) for (auto& x : mc::split( m.baseline, ',')) base.push_back( x);
		auto emit = [&]( const V& a)
		{
			double d; // no file is written
			if (std::string( m.name) == "compiler:run") for (std::size_t i=4; i<6 && i<a.size(); ++i) if (isstr( a[i]) || isnum( a[i], &d)) return;
			sink( std::string( m.name) + "|" + mc::join( a, ","));
		};
		// all numbers of arguments, with one more of each kind
		for (std::size_t n=0; n<=base.size(); ++n) {V a( base.begin(), base.begin()+n); emit( a); a.push_back( "nil"); emit( a); a.push_back( "nil"); emit( a);}
		{V a = base; a.push_back( "nil"); for (auto& v : pool()) {a.back() = v; emit( a);}}
		// all substitutions of one or two arguments, for all lengths
		for (std::size_t n=1; n<=base.size(); ++n)
		{
			for (std::size_t i=0; i<n; ++i) for (auto& v : pool())
			{
				bool inPairs = thorough || std::find( pairPool().begin(), pairPool().end(), v) != pairPool().end();
				V a( base.begin(), base.begin()+n); a[i] = v; emit( a);
				if (singles || !inPairs || (n < base.size() && !thorough)) continue;
				for (std::size_t k=i+1; k<n; ++k) for (auto& w : thorough ? pool() : pairPool()) {a[k] = w; emit( a); a[k] = base[k];}
			}
		}
		if (thorough && !singles && base.size() >= 4)
			for (std::size_t i=1; i+2<base.size(); ++i) for (auto& v : pairPool()) for (auto& w : pairPool()) for (auto& x : pairPool()) {V a = base; a[i] = v; a[i+1] = w; a[i+2] = x; emit( a);}
	}
}
static void enumArgs( bool thorough, const Sink& sink) {enumArgsPairs( thorough, false, sink);}
static void enumSingles( bool thorough, const Sink& sink) {enumArgsPairs( thorough, !thorough, sink);}

int main( int argc, char** argv)
{
	std::map<std::string,mc::Property> props;
	props["B02"] = {enumArgs, runArgs, "one case = one call of a method with one vector of arguments; accepted or refused as documented, the complete content of the typedb object compared before and after; states = distinct contents seen per method", 30};
	props["B02S"] = {enumSingles, runArgs, "the same under the address and undefined behaviour sanitizers (quick: one argument substituted; thorough: as the first part)", 30};
	return mc::main_( argc, argv, props);
}
