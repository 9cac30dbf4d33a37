// E01: error messages keep code, location and argument on all their ways
// Cases:
//   C,<code>,<line>      messages of the class Error with this code and line, all files x arguments x ways of up to 3 steps
//   P,<hex>              Error::parseError of a text
//   H,<kind>,<ways>,<hex>   error raised in a callback, passed through nested runs
#include "luahost.hpp"
#include "automaton.hpp"
#include "error.hpp"
#include <fcntl.h>
#include <sys/stat.h>
using mc::fmt; using mc::Ctx; using mc::Sink;
typedef std::vector<std::string> V;
using mewa::Error;

struct Parts {int code = 0, line = 0; std::string file, arg; std::string str() const {return fmt( "code %d line %d file '%s' argument '%s'", code, line, file.c_str(), arg.c_str());}};
/// Text of an error code as printed by the class (between the quotes)
static std::string codeText( int code)
{
	static std::map<int,std::string> m; auto mi = m.find( code); if (mi != m.end()) return mi->second;
	std::string w = Error( (Error::Code)code).what(), pfx = fmt( "#%d \"", code), rt;
	if (w.size() <= pfx.size() || w.compare( 0, pfx.size(), pfx) || w.back() != '"') rt = "\x01"; else rt = w.substr( pfx.size(), w.size()-pfx.size()-1);
	return m[ code] = rt;
}
static std::string format( const Parts& p)
{
	std::string rt;
	if (p.code == Error::CompileError) {rt = fmt( "Error at line %d", p.line); if (!p.file.empty()) rt += " in file \"" + p.file + "\"";}
	else {rt = fmt( "#%d \"", p.code) + codeText( p.code) + "\""; if (p.line) {rt += fmt( " at line %d", p.line); if (!p.file.empty()) rt += " in file \"" + p.file + "\"";}}
	if (!p.arg.empty()) rt += ": " + p.arg;
	return rt;
}
static bool number( const std::string& s, std::size_t& i, int& n)
{
	std::size_t b = i; for (n=0; i < s.size() && isdigit( (unsigned char)s[i]) && i-b < 9; ++i) n = n*10 + s[i]-'0';
	return i > b && !(i < s.size() && isdigit( (unsigned char)s[i])) && (s[b] != '0' || i == b+1);
}
static bool eat( const std::string& s, std::size_t& i, const std::string& w) {if (s.compare( i, w.size(), w)) return false; i += w.size(); return true;}
/// reference parser of exactly the format printed
static bool refParse( const std::string& s, Parts& p)
{
	p = Parts(); std::size_t i = 0;
	if (eat( s, i, "Error at line ")) {p.code = Error::CompileError; if (!number( s, i, p.line)) return false;}
	else
	{
		if (!eat( s, i, "#") || !number( s, i, p.code) || p.code == 0 || p.code == Error::CompileError || p.code > 32767 || !eat( s, i, " \"") || !eat( s, i, codeText( p.code) + "\"")) return false;
		if (eat( s, i, " at line ")) {if (!number( s, i, p.line) || !p.line) return false;}
		else {if (i == s.size()) return true; if (!eat( s, i, ": ")) return false; p.arg = s.substr( i); return !p.arg.empty();}
	}
	if (eat( s, i, " in file \"")) {auto e = s.find( '"', i); if (e == std::string::npos || e == i || e-i > 79) return false; p.file = s.substr( i, e-i); i = e+1;}
	if (i == s.size()) return true;
	if (!eat( s, i, ": ")) return false;
	p.arg = s.substr( i); return !p.arg.empty();
}
/// a location without content may be dropped, white space at the limits of the parts too
static std::string normalize( std::string s)
{
	auto q = s.find( " in file "); if (q != std::string::npos && q+9 < s.size() && (s[q+9] == '"' || s[q+9] == '\'') && (q+10 == s.size() || s[q+10] == s[q+9])) s.erase( q, 11);
	auto p = s.find( " at line 0"); if (p != std::string::npos && !(p+10 < s.size() && isdigit( (unsigned char)s[p+10]))) s.erase( p, 10);
	return s;
}
static Parts partsOf( const Error& e) {Parts p; p.code = e.code(); p.line = e.location().line(); p.file = e.location().filename(); p.arg = e.arg() ? e.arg() : ""; return p;}
static void expect( const Error& e, const Parts& x, const std::string& how, Ctx& ctx)
{
	Parts g = partsOf( e); ++ctx.transitions;
	if (g.code != x.code || g.line != x.line || g.file != x.file || g.arg != x.arg) ctx.fail( how + ": " + g.str() + ", expected: " + x.str() + ", text: " + e.what());
	if (e.what() != format( x)) ctx.fail( how + ": text: " + e.what() + ", expected: " + format( x));
}
static const V& files() {static const V f = {"", "a", "a.lua", "/p q/x.lua", "C: x", "[C]", "in file", std::string( 60, 'f'), std::string( 79, 'g')}; return f;}
static V args()
{
	V rt = {"", "at line 3", "#463 \"x\"", "a: b", ": ", "\"q\": r", "a\nb", std::string( 300, 'x'), std::string( 511, 'y'), "in file \"x\"", "{0,5} <-> {3,9}", Error( Error::TooFewArguments, "f", Error::Location( "z", 3)).what()};
	V pc = {"a"," ",":","\"","#","'","\n","1","{"};
	for (auto& a : pc) {rt.push_back( a); for (auto& b : pc) rt.push_back( a + b);}
	return rt;
}
static void ways( const Error& e, const Parts& x, int depth, const std::string& how, Ctx& ctx)
{
	expect( e, x, how, ctx); ctx.state( e.what());
	if (depth == 0) return;
	{Error c( e); ways( c, x, depth-1, how + " copied", ctx);}
	try {throw e;} catch (const Error& c) {ways( c, x, depth-1, how + " thrown", ctx);}
	{Parts y = x; y.line = 7; y.file = "new"; Error c( e, Error::Location( "new", 7)); ways( c, y, depth-1, how + " with other location", ctx);}
	{Parts y = x; if (!y.line && y.code != Error::CompileError) y.file.clear(); if (y.file.find( '"') == std::string::npos) {Error c = Error::parseError( e.what()); ways( c, y, depth-1, how + " parsed", ctx);}}
}
static void runC( int code, int line, bool thorough, Ctx& ctx)
{
	std::string t = codeText( code);
	if (code != Error::CompileError && (t == "\x01" || t.empty())) ctx.fail( fmt( "no text for code %d: ", code) + Error( (Error::Code)code).what());
	Error::Code cd = (Error::Code)code;
	for (auto& f : files()) for (auto& a : args())
	{
		Parts x; x.code = code; x.line = line; x.file = f; x.arg = a; int depth = thorough ? 3 : 2;
		ways( Error( cd, std::string(a), Error::Location( f, line)), x, depth, "string", ctx);
		ways( Error( cd, std::string_view(a), Error::Location( f, line)), x, 1, "string_view", ctx);
		ways( Error( cd, a.c_str(), Error::Location( f, line)), x, 1, "char*", ctx);
		if (a.empty()) ways( Error( cd, Error::Location( f, line)), x, 1, "no argument", ctx);
		if (f.empty()) ways( Error( cd, a, line), x, 1, "line only", ctx);
	}
	ctx.trace();
}
static void runP( const std::string& s, Ctx& ctx)
{
	Parts x; Error e = Error::parseError( s.c_str()); Parts g = partsOf( e); ++ctx.transitions;
	if (s.empty()) return;
	if (refParse( s, x)) {expect( e, x, "parsed", ctx); ctx.state( "ok"); ctx.trace(); return;}
	// not a message in the format: nothing of the text is lost
	// a text similar to a message: the argument is not changed and the code is not another one
	bool kept = g.code == Error::RuntimeException; std::size_t i = 1; int n;
	if (g.arg.size() > s.size() || s.compare( s.size()-g.arg.size(), g.arg.size(), g.arg)) ctx.fail( "text '" + s + "' parsed as: " + e.what());
	if (!kept && !(g.code == Error::CompileError ? s.find( "Error at line ") == 0 : (s[0] == '#' && number( s, i, n) && n == g.code && s.find( codeText( n)) != std::string::npos))) ctx.fail( "text '" + s + "' parsed as: " + e.what());
	ctx.state( kept ? "kept" : "normalized"); ctx.trace();
}

static const char* RUNTIME = R"LUA(
local mewa = mewa
local def_src, scratch = ...
local compilers = {}
local level, ways, raise = 0
local function op( node)
	level = level + 1
	local w = ways[ level]
	if not w then raise( node) return end
	local c = compilers[ level+1]
	if w == "d" then c:run( nil, nil, scratch .. "/in", scratch .. "/out" .. level)
	elseif w == "p" then local ok, e = pcall( c.run, c, nil, nil, scratch .. "/in", scratch .. "/out" .. level); if not ok then error( e, 0) end
	elseif w == "x" then local ok, e = xpcall( function() c:run( nil, nil, scratch .. "/in", scratch .. "/out" .. level) end, function( m) return m end); if not ok then error( e, 0) end
	elseif w == "c" then local co = coroutine.create( function() c:run( nil, nil, scratch .. "/in", scratch .. "/out" .. level) end); local ok, e = coroutine.resume( co); if not ok then error( e, 0) end
	elseif w == "w" then local co = coroutine.create( c.run); local ok, e = coroutine.resume( co, c, nil, nil, scratch .. "/in", scratch .. "/out" .. level); if not ok then error( e, 0) end
	end
end
local chunk = assert( load( "local typesystem = ...; return " .. def_src, "=def"))
for i=1,5 do compilers[ i] = mewa.compiler( chunk( {op = op})) end
local db = mewa.typedb()
local last
local kinds = {
	e0 = function( m) return function() last = m; error( m, 0) end end,
	e1 = function( m) return function() local ok, e = pcall( error, m, 2); last = e; error( e, 0) end end,
	-- errors of the Lua VM with names of any length: kind of error, length of the name, name of the chunk
	vm = function( m)
		local k, len, chunk = m:match( "^(%d+) (%d+) (.*)$")
		local nm = "n" .. string.rep( "y", tonumber( len))
		local src = ({"local x = {}; return x." .. nm .. ".z", "local x = {}; x." .. nm .. "()", "return 1 + " .. nm, "local " .. nm .. "; return 'a' .. " .. nm, "local x = {}; x:" .. nm .. "( 1)", "return #" .. nm, "return {} < 1", "local t = {}; t[nil] = 1"})[ tonumber( k)]
		local f = assert( load( "local f = function( node)\n\t" .. src .. "\nend\nreturn f", chunk))()
		return function( node) local ok, e = pcall( f, node); last = e; f( node) end
	end,
	-- errors of the library: caught first to know the message
	api = function( m)
		local calls = {
			function() db:def_type( 0, nil) end, function() db:get_instance() end, function() db:scope( {5,1}) end, function() db:step( -1) end, function() db:type_name( "x") end,
			function() db:def_reduction( 1, 1, "c", 40) end, function() mewa.tostring( 1, "x") end, function() mewa.compiler( {}) end, function() mewa.compiler() end, function() compilers[5]:run() end,
			function() db:def_type( 0, "x", 1, 2, 3, 4, 5, 6) end, function() db:def_type( {}, "x") end, function() db:step( 1, 2, 3) end, function() compilers[5]:run( nil, nil, scratch .. "/missing") end,
			function() compilers[5]:run( nil, nil, scratch .. "/bad", scratch .. "/out") end, function() compilers[5]:run( "/no/such", nil, scratch .. "/in", scratch .. "/out") end,
		}
		local f = calls[ tonumber( m)]
		return function() local ok, e = pcall( f); last = e; if ok or type( e) ~= "string" then error( "call " .. m .. " not refused", 0) end f() end
	end,
}
return function( kind, w, m)
	level = 0; ways = {}; for i=1,#w do ways[ i] = w:sub( i, i) end
	raise = kinds[ kind]( m); last = nil
	local ok, e = pcall( function() compilers[1]:run( nil, nil, scratch .. "/in", scratch .. "/out") end)
	return ok, type( e), e, last, level
end
)LUA";
static void wr( const std::string& fn, const std::string& s) {int fd = open( fn.c_str(), O_WRONLY|O_CREAT|O_TRUNC, 0644); if (fd < 0 || write( fd, s.data(), s.size()) != (ssize_t)s.size()) throw std::runtime_error( "cannot write " + fn); close( fd);}

static void runH( const std::string& kind, const std::string& w, const std::string& m, Ctx& ctx)
{
	
	static lua_State* cur = nullptr; static int ref; lh::Host& h = lh::host( 16, 500); lua_State* L = h.L;
	if (cur != L || (lua_getglobal( L, "prepared"), lua_isnil( L, -1)))
	{
		std::string D = mc::scratch() + fmt( "/e%d", (int)getpid()); mkdir( D.c_str(), 0755); wr( D + "/in", "x"); wr( D + "/bad", "x x");
		mewa::Automaton a; std::vector<Error> warn; a.build( "% LANGUAGE \"t\";\n% TYPESYSTEM \"t\";\n% CMDLINE \"c\";\nX : 'x';\np = X (op);\n", warn, mewa::Automaton::DebugOutput());
		if (luaL_loadbuffer( L, RUNTIME, strlen( RUNTIME), "=runtime")) throw mc::Failure( lua_tostring( L, -1));
		std::string src = a.tostring(); if (src.compare( 0, 7, "return ") == 0) src = src.substr( 7);
		auto p = src.find( "mewa.compiler"); (void)p;
		lua_pushlstring( L, src.data(), src.size()); lua_pushstring( L, D.c_str());
		if (lua_pcall( L, 2, 1, 0)) throw mc::Failure( std::string( "runtime: ") + lua_tostring( L, -1));
		ref = luaL_ref( L, LUA_REGISTRYINDEX); lua_pushboolean( L, 1); lua_setglobal( L, "prepared"); cur = L;
	}
	lua_rawgeti( L, LUA_REGISTRYINDEX, ref); lua_pushlstring( L, kind.data(), kind.size()); lua_pushlstring( L, w.data(), w.size()); lua_pushlstring( L, m.data(), m.size());
	if (lua_pcall( L, 3, 5, 0)) throw mc::Failure( std::string( "harness: ") + lua_tostring( L, -1));
	struct Top {lua_State* L; ~Top() {lua_settop( L, 0);}} top{L};
	bool ok = lua_toboolean( L, -5); std::string type = lua_tostring( L, -4); std::string e = type == "string" ? lua_tostring( L, -3) : "", last = lua_isnil( L, -2) ? "" : lua_tostring( L, -2); int level = lua_tointeger( L, -1);
	ctx.transitions += w.size() + 1;
	if (ctx.verbose) printf( "raised: %s\nresult: %s %s\n", last.c_str(), ok ? "ok" : type.c_str(), e.c_str());
	if (ok) ctx.fail( "run returns although a callback raised '" + last + "'");
	if (type != "string") ctx.fail( "error of type " + type);
	if (level != (int)w.size()+1) ctx.fail( fmt( "%d callbacks called: ", level) + e);
	Parts g, x; bool gc = refParse( e, g), xc = refParse( last, x); if (!xc && refParse( normalize( last), x)) xc = g.code == x.code; 
	if (!gc) ctx.fail( "message not in the format of error messages: '" + e + "', raised: '" + last + "'");
	auto whole = [&]
	{
		if (g.code != Error::LuaCallErrorERRRUN) return false;
		if (kind != "vm") return g.arg == last;
		// an error of the VM in a function of a source not named *.lua gets the place of the header of the function in front
		std::string place; if (last.find( ".lua:") == std::string::npos) {auto c = last.find( ":2: "); if (c == std::string::npos) return false; place = last.substr( 0, c) + ":1: ";}
		return g.arg == place + last;
	};
	if (kind == "api" && !xc) ctx.fail( "message of a refused call not in the format of error messages: '" + last + "'");
	if (xc && x.code == Error::RuntimeException) {if (!(g.code == x.code && g.arg == x.arg) && !whole()) ctx.fail( "raised: '" + last + "', message: '" + e + "'");}
	else if (xc)
	{
		if (g.code != x.code || g.arg != x.arg || (x.line && (g.line != x.line || g.file != x.file))) ctx.fail( "raised: '" + last + "', message: '" + e + "'");
	}
	else if (!whole()) ctx.fail( "raised: '" + last + "', message: '" + e + "'");
	if (g.line && !(xc && x.line) && g.code != Error::UnexpectedTokenNotOneOf && g.file != "runtime") ctx.fail( "location '" + g.file + "' in: '" + e + "'");
	if (kind == "api" && x.line && x.code != Error::UnexpectedTokenNotOneOf && x.file != "runtime") ctx.fail( "location '" + x.file + "' in: '" + last + "'");
	ctx.state( e); ctx.trace();
}
static void run( const std::string& text, Ctx& ctx)
{
	auto f = mc::split( text, ',');
	if (f[0] == "C") {runC( atoi( f[1].c_str()), atoi( f[2].c_str()), f.size() > 3, ctx);}
	else if (f[0] == "P") {runP( mc::unhex( f[1]), ctx);}
	else if (f[0] == "U")
	{
		std::map<std::string,int> seen; 	// messages identify the error
		for (int c=400; c<700; ++c) {std::string t = codeText( c); if (t == codeText( 399)) continue; auto r = seen.insert( {t, c}); if (!r.second) ctx.fail( fmt( "codes %d and %d have the same text: ", r.first->second, c) + t);}
		if (seen.size() < 80) ctx.fail( fmt( "only %d messages", (int)seen.size())); ctx.trace();
	}
	else runH( f[1], f[2], mc::unhex( f[3]), ctx);
}
static void enumE01( bool thorough, const Sink& sink)
{
	sink( "U");
	for (int c=1; c<=720; ++c) for (int l : {0,1,9,10,4711,2147483647}) if (thorough || l == 0 || l == 10 || c % 7 == 0) sink( fmt( "C,%d,%d%s", c, l, thorough && c >= 400 ? ",t" : ""));
	// texts to parse
	V pc = {"#", "463", "423", " ", "\"", codeText( 463), codeText( 2), "#2 \"" + codeText( 2) + "\"", "at line ", " at line ", "7", "in file ", " in file ", "f", "'", ": ", "x", "Error ", "\n"};
	V lvl = {""}; int D = thorough ? 5 : 4;
	for (int d=0; d<=D; ++d) {V next; for (auto& t : lvl) {sink( "P," + mc::hexs( t)); if (d < D) for (auto& p : pc) next.push_back( t + p);} lvl = next;}
	V head = {"#463 \"" + codeText( 463) + "\"", "#2 \"" + codeText( 2) + "\"", "Error", "#9 \"x\"", "#0 \"\"", "#601\""}, mid = {"", " at line 3", " at line 0", " at line -1", " at line", " at line x", " at line 12 in file \"f\"", " at line 3 in file \"\"", " at line 3 in file 'f'", " at line 3 in file f", " at line 3 in file \"f", " at line 007", " at line 3  in file \"f\"", " in file \"f\"", "at line 3"}, tail = {"", ":", ": ", ": a", ":a", " : a", " a", "\n", ": : ", ": \"\"", ". a", ": a at line 9"};
	V msgs;
	for (auto& h : head) for (auto& m : mid) for (auto& t : tail) {Parts x; if (refParse( h + m + t, x) || (h[1] != '4' && h[1] != '2' && (h + m + t).find( "Error at") != 0)) msgs.push_back( h + m + t); sink( "P," + mc::hexs( h + m + t));}
	// callbacks
	V w = {""}; {V l = {""}; for (int d=0; d<(thorough ? 4 : 2); ++d) {V n; for (auto& a : l) for (auto c : {"d","p","x","c","w"}) {n.push_back( a + c); w.push_back( a + c);} l = n;}}
	for (int c=1; c<=720; ++c) if (thorough || c % 10 == 3 || (c > 460 && c < 465)) {for (auto s : {"", " at line 3", " at line 3 in file \"z\""}) for (auto a : {"", ": x", ": a: b"}) msgs.push_back( fmt( "#%d \"", c) + codeText( c) + "\"" + s + a);}
	for (auto& a : args()) {msgs.push_back( a); msgs.push_back( "x" + a);}
	for (auto s : {"runtime:12: x", "%s%d%n", "[string \"x\"]:1: y", "at line 91: x", "at line 91 in file \"p\": x", "Error at line 612: x", "Error at line 612", "Error at line 0: x", "C stack overflow"}) msgs.push_back( s);
	msgs.push_back( std::string( 5000, 'z')); msgs.push_back( "#601 \"" + codeText( 601) + "\" at line 3: " + std::string( 5000, 'z'));
	for (auto& x : w) if (x.size() <= (thorough ? 3 : 2))
	{
		for (auto& m : msgs) {sink( "H,e0," + x + "," + mc::hexs( m)); if (x.size() < 2) sink( "H,e1," + x + "," + mc::hexs( m));}
	}
	V vl; for (int n : {1, 40, 600, 5000}) vl.push_back( fmt( "%d", n)); for (int n=380; n<=520; n += 1) if (thorough || n > 400) vl.push_back( fmt( "%d", n));
	for (auto& x : w) if (x.size() < 2) for (int k=1; k<=8; ++k) for (auto& n : vl) for (auto c : {"=vm", "@vm.lua", "@/p/vm.luac", "text", "=a.lua"}) if (k < 7 || n.size() < 2) sink( "H,vm," + x + "," + mc::hexs( fmt( "%d ", k) + n + " " + c));
	for (auto& x : w) for (int i=1; i<=16; ++i) sink( "H,api," + x + "," + mc::hexs( fmt( "%d", i)));
}
int main( int argc, char** argv)
{
	std::map<std::string,mc::Property> props;
	props["E01"] = {enumE01, run, "one case = one error code and line with all files, arguments and ways of copying, throwing, relocating and parsing, or one text parsed, or one error raised by a callback through a sequence of nested runs; states = distinct messages", 60};
	return mc::main_( argc, argv, props);
}
