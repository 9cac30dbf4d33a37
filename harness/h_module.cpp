// G06: the generated module (Lua table) means what the grammar says.
// Case formats (fields separated by '|'):
//   O|codes          lexer statements and production blocks in this order (see STMTS)
//   A|c|<literal>    literal as argument of a call, c: f = argument, m = member of a structure, b = both members
//   K|<literal>      literal as keyword
//   R~<literal>~sel  literal as pattern of a token with the select index
//   C~<lit>[~<lit>]  literals as arguments of COMMENT
//   B~<literal>      BAD
//   M|cmd|<literal>  LANGUAGE, TYPESYSTEM, CMDLINE
//   F|<text>         text between the brackets of a call
#include "luahost.hpp"
#include "automaton.hpp"
#include "lexer.hpp"
#include "error.hpp"
#include <fcntl.h>
using mc::fmt; using mc::Ctx; using mc::Sink;
typedef std::vector<std::string> V;

static const char* RUNTIME = R"LUA(
local src = ...
local function ser( o)
	if type( o) == "table" then
		if o.isref then return "REF:" .. o.isref end
		local ks = {}; for k in pairs( o) do ks[ #ks+1] = tostring(k) end
		table.sort( ks)
		local rt = "{"; for _,k in ipairs( ks) do rt = rt .. k .. "=" .. ser( o[k]) .. ";" end
		return rt .. "}"
	end
	return type( o) .. ":" .. tostring( o)
end
local out
local typesystem = {}
function typesystem.root( node)
	for _,n in ipairs( node.arg) do
		local l = n.call.name .. "|" .. (n.call.obj == nil and "-" or ser( n.call.obj)) .. "|" .. n.line .. "|" .. n.arg.n
		out[ #out+1] = l
	end
end
local function ref( name)
	-- object that can be called and whose members are again objects
	return setmetatable( {isref=name}, {__call = function() end, __index = function( t, k) return nil end})
end
local function mk( prefix)
	return setmetatable( {}, {__index = function( t, k)
		local n = prefix == "" and k or (prefix .. "." .. k)
		return rawget( t, k)
	end})
end
-- functions tk, k0.., and members of nested tables are plain functions; the parser wants functions as proc
local function collect( node)
	local leafs = {}
	for _,a in ipairs( node.arg) do leafs[ #leafs+1] = a.name .. "=" .. a.value .. "@" .. a.line end
	return table.concat( leafs, " ")
end
local names = {}
local function fn( name) return function( node, obj) out[ #out+1] = name .. "|" .. (obj == nil and "-" or ser( obj)) .. "|" .. node.call.name .. "|" .. collect( node) end end
function typesystem.root( node)
	for _,n in ipairs( node.arg) do
		if n.call.proc == nil then error( "no proc") end
		if n.call.obj ~= nil then n.call.proc( n, n.call.obj) else n.call.proc( n) end
	end
end
for _,n in ipairs{ "tk", "f", "g", "a1", "k", "_x", "x_y"} do typesystem[ n] = fn( n) end
for i = 0,60 do typesystem[ "k" .. i] = fn( "k" .. i) end
typesystem.m = {f = fn( "m.f"), r = {isref="m.r"}, n = {f = fn( "m.n.f"), r = {isref="m.n.r"}}}
typesystem.r = {isref="r"}
typesystem.r1 = {isref="r1"}
typesystem.num = 7
setmetatable( typesystem, {__index = function( t, k) local f = fn( k); rawset( t, k, f); return f end})
typesystem.m["end"] = fn( "m.end")
local chunk, err = (loadstring or load)( "local mewa, typesystem = ...; return " .. src, "=gen")
if not chunk then return "LOAD", err end
local def = chunk( mewa, typesystem)
local ok, compiler = pcall( mewa.compiler, def)
if not ok then return "DEF", tostring( compiler) end
return "OK", def, function( input)
	out = {}
	local ok, err = pcall( compiler.run, compiler, nil, nil, input, "/dev/null")
	return ok and "ok" or "err", ok and "" or tostring( err), table.concat( out, "\n")
end
)LUA";

class Module
{
	lh::Host& h; int ref; int defref;
public:
	std::string state, err;
	Module( lh::Host& h_, const std::string& table) :h(h_),ref(LUA_NOREF),defref(LUA_NOREF)
	{
		lua_State* L = h.L; int top = lua_gettop( L);
		if (luaL_loadbuffer( L, RUNTIME, strlen(RUNTIME), "=runtime")) throw mc::Failure( std::string( "runtime: ") + lua_tostring( L, -1));
		lua_pushlstring( L, table.data(), table.size());
		if (lua_pcall( L, 1, 3, 0)) {std::string m = lua_tostring( L, -1) ? lua_tostring( L, -1) : "?"; lua_settop( L, top); state = "RUNTIME"; err = m; return;}
		state = lua_tostring( L, top+1);
		if (state == "OK") {ref = luaL_ref( L, LUA_REGISTRYINDEX); defref = luaL_ref( L, LUA_REGISTRYINDEX);}
		else err = lua_tostring( L, top+2) ? lua_tostring( L, top+2) : "?";
		lua_settop( L, top);
	}
	~Module() {luaL_unref( h.L, LUA_REGISTRYINDEX, ref); luaL_unref( h.L, LUA_REGISTRYINDEX, defref);}
	bool ok() const {return state == "OK";}
	lh::Val field( const char* k)
	{
		lua_rawgeti( h.L, LUA_REGISTRYINDEX, defref); lua_getfield( h.L, -1, k); auto rt = h.get( -1); lua_pop( h.L, 2); return rt;
	}
	struct R {bool ok; std::string err, calls;};
	R run( const std::string& file)
	{
		lua_State* L = h.L;
		lua_rawgeti( L, LUA_REGISTRYINDEX, ref); lua_pushlstring( L, file.data(), file.size());
		if (lua_pcall( L, 1, 3, 0)) {std::string m = lua_tostring( L, -1) ? lua_tostring( L, -1) : "?"; lua_pop( L, 1); throw mc::Failure( "run failed: " + m);}
		R r; size_t n; const char* p;
		r.ok = std::string( lua_tostring( L, -3)) == "ok";
		p = lua_tolstring( L, -2, &n); r.err.assign( p, n); p = lua_tolstring( L, -1, &n); r.calls.assign( p, n);
		lua_pop( L, 3);
		return r;
	}
};
static std::string inputFile( const std::string& text)
{
	static std::map<std::string,std::string> files;
	static const std::string tmp = mc::scratch() + fmt( "/tmp%d", (int)getpid());
	if (files.size() > 3000 && !files.count( text))
	{
		int fd = open( tmp.c_str(), O_WRONLY|O_CREAT|O_TRUNC, 0644); if (fd < 0 || write( fd, text.data(), text.size()) != (ssize_t)text.size()) throw std::runtime_error( "cannot write input"); close( fd);
		return tmp;
	}
	auto ins = files.insert( {text, ""});
	if (ins.second)
	{
		std::string fn = mc::scratch() + fmt( "/in%d.%zu", (int)getpid(), files.size());
		FILE* f = fopen( fn.c_str(), "wb"); if (!f) throw std::runtime_error( "cannot write input");
		fwrite( text.data(), 1, text.size(), f); fclose( f);
		ins.first->second = fn;
	}
	return ins.first->second;
}
static lh::Host& chost() {return lh::host( 64, 300);}

/// text -> generated table; empty optional with error text if refused
struct Gen {bool ok; std::string table, err; int code; int line;};
static Gen generate( const std::string& src)
{
	Gen g; g.ok = false; g.code = 0; g.line = 0;
	try
	{
		std::vector<mewa::Error> warnings; mewa::Automaton a;
		a.build( src, warnings, mewa::Automaton::DebugOutput());
		g.table = a.tostring(); g.ok = true;
		if (!warnings.empty()) {g.ok = false; g.err = warnings[0].what();}
	}
	catch (const mewa::Error& e) {g.err = e.what(); g.code = e.code(); g.line = e.location().line();}
	return g;
}

// ---------------------------------------------------------------- reference: tokens by the C++ lexer (checked in L01..L03)
struct Tok {std::string name, value; int line; int kw;};	// kw: index of the keyword, -1 for others
struct RefLexer
{
	mewa::Lexer lx;
	std::vector<std::string> kws;
	std::set<std::string> indent;
	std::vector<Tok> lex( const std::string& text, bool* bad, int* badline)
	{
		std::vector<Tok> rt; *bad = false;
		std::string copy = text; mewa::Scanner sc( copy);
		for (;;)
		{
			auto x = lx.next( sc);
			if (x.empty()) break;
			if (x.id() <= 0) {*bad = true; *badline = x.line(); break;}
			Tok t; t.name = std::string( x.name()); t.value = std::string( x.value()); t.line = x.line(); t.kw = -1;
			if (t.value.empty() && t.name.size() > 2 && t.name[0] == '"') t.name = t.name.substr( 1, t.name.size()-2);	// indentation tokens have a quoted name here
			auto ki = std::find( kws.begin(), kws.end(), t.name);
			if (ki != kws.end()) t.kw = ki - kws.begin();
			rt.push_back( t);
			if (rt.size() > 10000) throw mc::Failure( "reference lexer does not end");
		}
		return rt;
	}
};

static void compareRun( Module& m, RefLexer& ref, const std::set<std::string>& usable, const std::string& in, Ctx& ctx, const std::string& what)
{
	bool bad; int badline = 0;
	auto toks = ref.lex( in, &bad, &badline);
	// first token not usable in the grammar is a syntax error
	int errline = bad ? badline : 0;
	for (auto& t : toks) if (t.kw < 0 && !usable.count( t.name)) {errline = t.line; bad = true; break;}
	mc::alive();
	auto r = m.run( inputFile( in));
	ctx.transition( toks.size() + 1);
	if (bad)
	{
		if (r.ok) ctx.fail( what + mc::json_str( in) + ": accepted, expected an error at line " + fmt( "%d", errline) + "\n" + r.calls);
		if (r.err.find( fmt( "line %d", errline)) == std::string::npos) ctx.fail( what + mc::json_str( in) + ": error " + r.err + fmt( ", expected one at line %d", errline));
		return;
	}
	std::string exp;
	for (auto& t : toks)
	{
		if (!exp.empty()) exp += "\n";
		if (t.kw >= 0) exp += fmt( "k%d|number:%d|k%d %d|", t.kw, t.kw, t.kw, t.kw);
		else if (ref.indent.count( t.name)) exp += "tk|string:" + t.name + "|tk " + t.name + "|";
		else exp += "tk|string:" + t.name + "|tk " + t.name + "|" + t.name + "=" + t.value + fmt( "@%d", t.line);
	}
	if (!r.ok) ctx.fail( what + mc::json_str( in) + ": error " + r.err + ", expected tokens\n" + exp);
	// whether indentation tokens appear as leafs of the tree is not specified
	for (auto& n : ref.indent) for (std::string l = n + "=@";;)
	{
		auto p = r.calls.find( "|" + l); if (p == std::string::npos) break;
		auto e = p + 1 + l.size(); while (e < r.calls.size() && isdigit( r.calls[e])) ++e;
		r.calls.erase( p+1, e-p-1);
	}
	if (r.calls != exp) ctx.fail( what + mc::json_str( in) + ": callbacks\n" + r.calls + "\nexpected\n" + exp);
}

// ---------------------------------------------------------------- O: order of the statements
struct Stmt {char code; const char* text; char kind; const char* a; const char* b; int sel;};	// kind: t token i ignore b bad c comment d bracket x indent
static const Stmt STMTS[] = {
	{'a', "ID : \"[a-z]+\";", 't', "ID", "[a-z]+", 0},
	{'n', "NUM : \"[0-9]+\";", 't', "NUM", "[0-9]+", 0},
	{'h', "HEX : '[0-9a-f]+';", 't', "HEX", "[0-9a-f]+", 0},
	{'s', "STR : '\"([^\"]*)\"' 1;", 't', "STR", "\"([^\"]*)\"", 1},
	{'q', "SQ : \"'([^']*)'\" 1;", 't', "SQ", "'([^']*)'", 1},
	{'e', "ESC : \"[\\\\]([a-z])\" 1;", 't', "ESC", "[\\\\]([a-z])", 1},
	{'A', "ID : \"[A-Z]+\";", 't', "ID", "[A-Z]+", 0},
	{'i', "% IGNORE \"[_]+\";", 'i', "", "[_]+", 0},
	{'j', "%ignore '[a]+';", 'i', "", "[a]+", 0},
	{'b', "% BAD \"<bad'>\";", 'b', "<bad'>", "", 0},
	{'c', "% COMMENT \"//\";", 'c', "//", "", 0},
	{'d', "% COMMENT \"/*\" '*/';", 'd', "/*", "*/", 0},
	{'D', "% comment '{\"' '\"}';", 'd', "{\"", "\"}", 0},
	{'E', "% COMMENT \"--\";", 'c', "--", "", 0},
	{'t', "% INDENTL OPEN CLOSE NL 4;", 'x', "OPEN CLOSE NL", "", 4},
	{'u', "% INDENTL open close nl 2;", 'x', "open close nl", "", 2},
	{'L', "% LANGUAGE \"lg\";", '-', "", "", 0},
	{'T', "% TYPESYSTEM ts;", '-', "", "", 0},
};
static const V KWS = {"+", "if", "++", "a", "/", "open", "\\\\", "'", "'+"};

static void runOrder( const std::string& codes, Ctx& ctx)
{
	std::string src; RefLexer ref; std::set<std::string> usable; bool withQ = codes.find( 'Q') != std::string::npos, withK = codes.find( 'K') != std::string::npos;
	// reference: tokens and ignored patterns in the order of declaration
	V names;
	for (char c : codes) for (auto& s : STMTS) if (s.code == c)
	{
		if (s.kind == 't') {ref.lx.defineLexem( 1, s.a, s.b, s.sel); if (std::find( names.begin(), names.end(), s.a) == names.end()) names.push_back( s.a);}
		else if (s.kind == 'i') ref.lx.defineIgnore( 1, s.b);
		else if (s.kind == 'b') ref.lx.defineBadLexem( 1, s.a);
		else if (s.kind == 'c') ref.lx.defineEolnComment( 1, s.a);
		else if (s.kind == 'd') ref.lx.defineBracketComment( 1, s.a, s.b);
		else if (s.kind == 'x')
		{
			auto w = mc::split( s.a, ' '); for (auto& n : w) {names.push_back( n); ref.indent.insert( n);}
		}
	}
	bool named = codes.find_first_of( "u") != std::string::npos;	// indentation tokens named like a keyword
	if (withK) for (auto& k : KWS) {if (named && k == "open") continue; ref.lx.defineLexem( k); ref.kws.push_back( k);}
	for (char c : codes) for (auto& s : STMTS) if (s.code == c && s.kind == 'x') {auto w = mc::split( s.a, ' '); ref.lx.defineIndentLexems( 1, w[0], w[1], w[2], s.sel);}
	if (withK) for (auto& k : ref.kws) {std::string n; int id = ref.lx.lexemId( k); (void)id;}
	if (withQ) for (auto& n : names) usable.insert( n);
	for (char c : codes)
	{
		if (c == 'P') src += "S = L (root);\nL = L T | ε;\n";
		else if (c == 'Q') {if (!names.empty()) {src += "T = "; for (std::size_t i=0; i<names.size(); ++i) src += (i ? "| " : "") + names[i] + " (tk \"" + names[i] + "\") "; src += ";\n";}}
		else if (c == 'K') {src += "T = "; for (std::size_t i=0; i<ref.kws.size(); ++i) src += (i ? "| " : "") + (ref.kws[i].find( '\'') != std::string::npos ? "\"" + ref.kws[i] + "\"" : "\"" + ref.kws[i] + "\"") + fmt( " (k%zu %zu) ", i, i); src += ";\n";}
		else for (auto& s : STMTS) if (s.code == c) {src += s.text; src += "\n";}
	}
	if (ctx.verbose) printf( "%s", src.c_str());
	auto g = generate( src);
	if (!g.ok) ctx.fail( "grammar refused: " + g.err + "\n" + src);
	if (ctx.verbose) printf( "%s", g.table.c_str());
	ctx.state( g.table);
	// different Lua states traverse tables in different orders
	static std::vector<std::string> inputs;
	if (inputs.empty())
	{
		V pc = {"a","ab","if","ifx","12","1a","\"s+\"","'q'","_","+","++","//x\n","/*c\n*/","open","\n  a","\n","\\n","AB","?","{\"x\"}","\n\t+","--z","'+"};
		inputs.push_back( "");
		for (auto& x : pc) inputs.push_back( x);
		for (auto& x : pc) for (auto& y : pc) {inputs.push_back( x + " " + y); if ((x.size() + y.size()) % 2) inputs.push_back( x + y);}
		inputs.push_back( "a\n  a\n  if\n    a\n  +\na\n"); inputs.push_back( "  a\n a\na"); inputs.push_back( "open\n\topen\nclose nl\n");
	}
	bool indent = !ref.indent.empty(), comments = codes.find_first_of( "cdDE") != std::string::npos;
	int passes = codes.find_first_of( "ij") != std::string::npos ? 4 : 2;
	for (int pass = 0; pass < passes; ++pass)
	{
		lh::Host* own = pass ? new lh::Host() : nullptr;
		try
		{
			Module m( pass ? *own : chost(), g.table);
			if (!m.ok()) ctx.fail( "the generated table cannot be loaded: " + m.err + "\n" + g.table);
			std::size_t step = pass ? 7 : 1;
			for (std::size_t i=0; i<inputs.size(); i += step)
			{
				auto& in = inputs[i];
				if (indent && comments && (in.find( "/") != std::string::npos || in.find( "--") != std::string::npos || in.find( "{") != std::string::npos)) continue;	// indentation next to comments: not specified
				compareRun( m, ref, usable, in, ctx, "input ");
			}
		}
		catch (...) {delete own; throw;}
		delete own;
	}
	ctx.trace();
}

// ---------------------------------------------------------------- literals
static std::string unq( const std::string& lit) {return lit.substr( 1, lit.size()-2);}
/// value of a Lua literal, false if it is not one
static bool luaValue( const std::string& lit, std::string* rt)
{
	std::string err; auto r = chost().chunk( "local function ser( o) if type(o) == 'table' then local ks = {}; for k in pairs( o) do ks[ #ks+1] = tostring(k) end table.sort( ks) local rt = '{'; for _,k in ipairs( ks) do rt = rt .. k .. '=' .. ser( o[k]) .. ';' end return rt .. '}' end return type( o) .. ':' .. tostring( o) end return ser( " + lit + ")", {}, &err);
	if (!err.empty()) return false;
	*rt = r.at(0).s; return true;
}
static void runCall( const std::string& bracket, const std::string& fn, const std::string& obj, const std::string& callname, Ctx& ctx)
{
	std::string src = "S = L (root);\nL = L T | ε;\nT = \"x\" (" + bracket + ") | \"y\" (f) | \"z\" (" + bracket + ");\n";
	auto g = generate( src);
	if (ctx.verbose) printf( "%s", src.c_str());
	ctx.state( bracket);
	if (!g.ok) ctx.fail( "grammar refused: " + g.err + "\n" + src);
	Module m( chost(), g.table);
	if (!m.ok()) ctx.fail( "the generated table cannot be loaded: " + m.err + "\n" + g.table);
	auto r = m.run( inputFile( "x y z")); ctx.transition( 3);
	std::string c = fn + "|" + obj + "|" + callname + "|";
	if (!r.ok) ctx.fail( "error " + r.err);
	ctx.eq( r.calls, c + "\nf|-|f|\n" + c, "callbacks of call (" + bracket + ")");
	ctx.trace();
}
static const V TEXTS = {"x","'","\"","\\","xx","x'","'x","\\x","x\"","\"x","+'+","\"+\"","''","\"\"","?","\\n","\\\\","\\'","x x","é","]","[","*","**",".","x.","a","b","ab","(",")","((","$","^","^x","|","||","{","}","{}","{2}","-","--","/","//","\\d","\\d+","a-b","1","12","_","1_","x\nx","x\n\nx"};
static void literalInputs( const std::string& raw, std::set<std::string>& in)
{
	for (auto& t : TEXTS) in.insert( t);
	in.insert( raw); in.insert( raw + raw); in.insert( raw + " " + raw); in.insert( raw + "x"); in.insert( "x" + raw); in.insert( " " + raw + "\n"); in.insert( raw + "\n" + raw);
	if (raw.size() > 1) {in.insert( raw.substr( 1)); in.insert( raw.substr( 0, raw.size()-1));}
}
static void runModule( const std::string& text, Ctx& ctx)
{
	
	char kind = text[0];
	auto f = mc::split( text, kind == 'R' || kind == 'C' || kind == 'B' ? '~' : '|');
	if (kind == 'O') {runOrder( f.at(1), ctx); return;}
	if (kind == 'A')
	{
		std::string lit = text.substr( 4), v;
		std::string arg = f.at(1) == "f" ? lit : f.at(1) == "m" ? "{a=" + lit + "}" : "{a=" + lit + ",b='\"',c=\"'\",d=1}";
		if (!luaValue( arg, &v)) {ctx.count( "not_a_lua_value"); return;}	// e.g. an unknown escape sequence
		std::string nm = f.at(1) == "f" ? unq( lit) : arg;
		runCall( "f " + arg, "f", v, "f " + nm, ctx);
		runCall( "{} f " + arg, "f", v, "f " + nm, ctx);
		return;
	}
	if (kind == 'F')
	{
		// fields: bracket text, function, value, name
		runCall( f.at(1), f.at(2), f.at(3), f.at(4), ctx); return;
	}
	if (kind == 'M')
	{
		std::string lit = text.substr( 4), raw = lit[0] == '\'' || lit[0] == '"' ? unq( lit) : lit;
		std::string cmd = f.at(1) == "L" ? "LANGUAGE" : f.at(1) == "T" ? "TYPESYSTEM" : "CMDLINE", key = f.at(1) == "L" ? "language" : f.at(1) == "T" ? "typesystem" : "cmdline";
		std::string src = "% " + cmd + " " + lit + ";\nS = \"x\" (root);\n";
		auto g = generate( src); ctx.state( text);
		if (!g.ok) ctx.fail( "grammar refused: " + g.err + "\n" + src);
		Module m( chost(), g.table);
		if (!m.ok()) ctx.fail( "the generated table cannot be loaded: " + m.err + "\n" + g.table);
		ctx.eq( m.field( key.c_str()).str(), raw.empty() ? lh::Val().str() : lh::Val( raw).str(), "field " + key);
		ctx.transition(); ctx.trace(); return;
	}
	RefLexer ref; std::string src; std::set<std::string> usable; std::set<std::string> in;
	if (kind == 'K')
	{
		std::string lit = text.substr( 2), raw = unq( lit);
		ref.lx.defineLexem( 1, "ID", "[a-z]+");
		for (auto& k : V{raw, "ab"}) {ref.lx.defineLexem( k); ref.kws.push_back( k);}
		usable.insert( "ID");
		src = "ID : '[a-z]+';\nS = L (root);\nL = L T | ε;\nT = " + lit + " (k0 0) | \"ab\" (k1 1) | ID (tk \"ID\");\n";
		literalInputs( raw, in);
	}
	else if (kind == 'R')
	{
		std::string lit = f.at(1), raw = unq( lit);
		ref.lx.defineLexem( 1, "PT", raw, atoi( f.at(2).c_str())); ref.lx.defineLexem( 1, "ID", "[a-z]+"); ref.lx.defineLexem( "+"); ref.kws.push_back( "+");
		usable = {"PT","ID"};
		src = "PT : " + lit + (f.at(2) == "0" ? "" : " " + f.at(2)) + ";\nID : '[a-z]+';\nS = L (root);\nL = L T | ε;\nT = ID (tk \"ID\") | PT (tk \"PT\") | \"+\" (k0 0);\n";
		literalInputs( raw, in); for (auto& t : {"\"a\"","'a'","\"a\\\"","[a]","aa","a.","\\n"}) in.insert( t);
	}
	else if (kind == 'C' || kind == 'B')
	{
		std::string lit = f.at(1), raw = lit[0] == '\'' || lit[0] == '"' ? unq( lit) : lit;
		ref.lx.defineLexem( 1, "ID", "[a-z]+"); ref.lx.defineLexem( "+"); ref.kws.push_back( "+"); usable = {"ID"};
		std::string args = lit;
		if (kind == 'B') ref.lx.defineBadLexem( 1, raw);
		else if (f.size() > 2) {args += " " + f[2]; ref.lx.defineBracketComment( 1, raw, unq( f[2]));}
		else ref.lx.defineEolnComment( 1, raw);
		src = "ID : '[a-z]+';\n% " + std::string( kind == 'B' ? "BAD" : "COMMENT") + " " + args + ";\nS = L (root);\nL = L T | ε;\nT = ID (tk \"ID\") | \"+\" (k0 0);\n";
		literalInputs( raw, in); V base( in.begin(), in.end());
		std::string cl = f.size() > 2 ? unq( f[2]) : "\n";
		for (auto& b : base) if (b.size() < 4) {in.insert( raw + b + cl); in.insert( raw + b + cl + "+"); in.insert( "a" + raw + b + "\n+");}
	}
	else if (kind == 'I')
	{
		// size of tabulators
		int n = atoi( f.at(1).c_str());
		ref.lx.defineLexem( 1, "ID", "[a-z]+"); ref.lx.defineIndentLexems( 1, "OP", "CL", "NL", n); usable = {"ID","OP","CL","NL"}; for (auto w : {"OP","CL","NL"}) ref.indent.insert( w);
		src = "ID : '[a-z]+';\n% INDENTL OP CL NL " + f.at(1) + ";\nS = L (root);\nL = L T | ε;\nT = ID (tk \"ID\") | OP (tk \"OP\") | CL (tk \"CL\") | NL (tk \"NL\");\n";
		for (int k : {n-1, n, n+1, 2*n-1, 2*n, 2*n+1}) if (k >= 0 && k < 5000) {in.insert( "a\n\ta\n" + std::string( k, ' ') + "b\nc\n"); in.insert( "a\n" + std::string( k, ' ') + "a\n\tb\nc"); in.insert( "a\n \ta\n" + std::string( k, ' ') + "b\n\t\tc");}
	}
	else if (kind == 'J')
	{
		// many groups in a pattern, the one with this number is the value
		int n = atoi( f.at(1).c_str()), k = atoi( f.at(2).c_str()); std::string pt, word;
		for (int i=0; i<n; ++i) {pt += fmt( "([%c])", 'a' + i % 26); word.push_back( 'a' + i % 26);}
		ref.lx.defineLexem( 1, "PT", pt, k); ref.lx.defineLexem( "+"); ref.kws.push_back( "+"); usable = {"PT"};
		src = "PT : '" + pt + "' " + f.at(2) + ";\nS = L (root);\nL = L T | ε;\nT = PT (tk \"PT\") | \"+\" (k0 0);\n";
		in = {word, word + "+" + word, word.substr( 1), word + word};
	}
	else throw std::runtime_error( "bad case");
	if (ctx.verbose) printf( "%s", src.c_str());
	auto g = generate( src); ctx.state( text);
	if (!g.ok) ctx.fail( "grammar refused: " + g.err + "\n" + src);
	if (ctx.verbose) printf( "%s", g.table.c_str());
	Module m( chost(), g.table);
	if (!m.ok()) ctx.fail( "the generated table cannot be loaded: " + m.err + "\n" + g.table);
	for (auto& i : in) compareRun( m, ref, usable, i, ctx, "input ");
	ctx.trace();
}

static void words( const V& alpha, int maxlen, const std::function<void( const std::string&)>& fn)
{
	V lvl = {""};
	for (int n=0; n<=maxlen; ++n)
	{
		V next;
		for (auto& w : lvl) {fn( w); if (n < maxlen) for (auto& a : alpha) next.push_back( w + a);}
		lvl = next;
	}
}
/// literals the grammar language can express with this content
static void literals( const V& alpha, int maxlen, const std::function<void( const std::string&)>& fn)
{
	auto valid = []( const std::string& w, char q)
	{
		for (std::size_t i=0; i<w.size(); ++i) {if (w[i] == q || w[i] == '\n') return false; if (w[i] == '\\') {if (++i >= w.size() || w[i] == q || w[i] == '\n') return false;}}
		return true;
	};
	words( alpha, maxlen, [&]( const std::string& w) {for (char q : {'\'','"'}) if (valid( w, q)) fn( q + w + q);});
}
static void enumG06( bool thorough, const Sink& sink)
{
	// all orders of lexer statements and production blocks
	std::string pool; for (auto& s : STMTS) pool.push_back( s.code);
	std::function<void( std::string, int)> rec = [&]( std::string cur, int maxn)
	{
		// merge with the blocks P Q K in all ways
		std::function<void( std::string, std::size_t, std::string, std::size_t)> merge = [&]( std::string acc, std::size_t i, std::string blocks, std::size_t j)
		{
			if (i == cur.size() && j == blocks.size()) {sink( "O|" + acc); return;}
			if (i < cur.size()) merge( acc + cur[i], i+1, blocks, j);
			if (j < blocks.size()) merge( acc + blocks[j], i, blocks, j+1);
		};
		if (!cur.empty())
		{
			bool hasTok = cur.find_first_of( "anhsqeAtu") != std::string::npos;
			bool small = cur.size() <= (thorough ? 2u : 1u);
			if (small) {for (auto b : hasTok ? V{"PQK","PKQ"} : V{"PK"}) merge( "", 0, b, 0);}
			else if (hasTok)
			{
				sink( "O|" + cur + "PQK"); sink( "O|P" + cur + "KQ");
				for (std::size_t i=1; i<cur.size(); ++i) {sink( "O|" + cur.substr( 0, i) + "PK" + cur.substr( i) + "Q"); sink( "O|PQ" + cur.substr( 0, i) + "K" + cur.substr( i));}
			}
			else sink( "O|P" + cur + "K");
		}
		if ((int)cur.size() == maxn) return;
		for (char c : pool)
		{
			if (cur.find( c) != std::string::npos) continue;
			if ((c == 't' && cur.find( 'u') != std::string::npos) || (c == 'u' && cur.find( 't') != std::string::npos)) continue;
			rec( cur + c, maxn);
		}
	};
	rec( "", thorough ? 3 : 2);
	// several tokens in all orders, with the ties between them
	for (std::string set : {"ahj", "ahjn", "aAt", "aAu", "ahiju"}) {std::sort( set.begin(), set.end()); do {for (auto b : {"P%QK","PQ%K","PK%Q","%PQK"}) {std::string s; for (const char* c = b; *c; ++c) if (*c == '%') s += set; else s.push_back( *c); sink( "O|" + s);}} while (std::next_permutation( set.begin(), set.end()));}
	// literals
	V A = {"x","'","\"","\\"," ","n"};
	literals( A, thorough ? 4 : 3, [&]( const std::string& l) {sink( "A|f|" + l); sink( "A|m|" + l); sink( "A|b|" + l);});
	for (auto& l : V{"'a,b'","\"}\"","'{'","\"a b  c\"","'//'","\"#\"","'/*'","'%s %d'","\"é\"","'\\t'","'1'","\"--\"","']]'"}) for (auto k : {"f","m","b"}) sink( std::string( "A|") + k + "|" + l);
	literals( {"x","'","\"","\\\\","\\d",".","*","[","]","(","{","}","+","?","^","$","-","/"}, thorough ? 3 : 2, [&]( const std::string& l)
	{
		if (l.size() > 2 && l != "'ab'" && l != "\"ab\"") sink( "K|" + l);
		if (l.size() > 2 && (l.size() <= 4 || thorough)) {sink( "C~" + l); sink( "B~" + l);}
	});
	for (auto& l : V{"'ab '","'a b'","\"if\"","'É'","\"→\"","'::='","\"'\"","'\"'","'end'","\"nil\"","'--'","'#'","'//'","'/*'","'%'"}) {sink( "K|" + l);}
	for (auto& a : V{"'/*'","\"(*\"","'{'","'\"'","\"'\"","'[['","\"--[\"","\"\\\\\""}) for (auto& b : V{"'*/'","\"*)\"","'}'","'\"'","\"'\"","']]'","\"x\"","\"\\\\\""}) sink( "C~" + a + "~" + b);
	for (auto& r : V{"'a'","\"a\"","'\"a\"'","\"'a'\"","'\"([^\"]*)\"'","\"'([^']*)'\"","'[\"](.)'","'([a-z])([a-z])'","'[\\\\]([a-z])'","\"[\\\\]([a-z])\"","'[\\[]([a-z])[\\]]'","\"\\\\.\"","'a|b'","'(a|b)+'","'(x)(\\d)'","'[\"]((([^\\\\\"\\n]+)|([\\\\][^\"\\n]))*)[\"]'","\"[\']((([^\\\\'\\n]+)|([\\\\][^'\\n]))*)[']\""})
		for (auto s : {"0","1","2"}) {int groups = std::count( r.begin(), r.end(), '('); if (groups >= atoi( s)) sink( "R~" + r + "~" + s);}
	literals( {"x","'","\"","."," "}, 3, [&]( const std::string& l) {for (auto c : {"L","T","C"}) sink( std::string( "M|") + c + "|" + l);});
	for (int n=1; n<=(thorough ? 300 : 40); ++n) sink( fmt( "I|%d", n));
	for (int n : {63,64,65,127,128,129,254,255,256,257,511,512,1000,1023,1024,1025,4095,4096,65535,65536}) sink( fmt( "I|%d", n));
	for (int n=1; n<=(thorough ? 40 : 20); ++n) for (int k=1; k<=n; ++k) sink( fmt( "J|%d|%d", n, k));
	for (auto c : {"L","T","C"}) for (auto l : {"a","a_b1","7"}) sink( std::string( "M|") + c + "|" + l);
	// functions and arguments
	for (auto sc : {"","{} ",">> "}) for (auto fn : {"f","g","a1","_x","x_y","m.f","m.n.f"})
	{
		std::string n = fn;
		sink( "F|" + std::string( sc) + n + "|" + n + "|-|" + n);
		for (auto a : V{"r=REF:r","r1=REF:r1","m.r=REF:m.r","m.n.r=REF:m.n.r","num=number:7","0=number:0","12=number:12","007=number:7"})
			{auto p = a.find( '='); sink( "F|" + std::string( sc) + n + " " + a.substr( 0, p) + "|" + n + "|" + a.substr( p+1) + "|" + n + " " + a.substr( 0, p));}
		for (auto a : V{"{a=1}","{a=1,b=2}","{a='x',b=\"y\",c=3}","{a=\"\"}"})
			{std::string v; V kv = mc::split( a.substr( 1, a.size()-2), ','); std::string e = "{"; for (auto& x : kv) {auto p = x.find( '='); std::string w = x.substr( p+1); e += x.substr( 0, p) + "=" + (w[0] == '\'' || w[0] == '"' ? "string:" + unq( w) : "number:" + w) + ";";} e += "}"; sink( "F|" + std::string( sc) + n + " " + a + "|" + n + "|" + e + "|" + n + " " + a);}
	}
}

// ---------------------------------------------------------------- G07: the grammar definition language
// Case: tokens separated by blanks; each one is put on a line of its own.
// Reference: recursive descent after doc/grammar.md, yields the first token that cannot continue the text.
struct Front
{
	V t; std::size_t i = 0;
	std::string err; int erridx = -1, erridx0 = -1;		// erridx0..erridx: tokens the error may be located at
	bool loadAny = false;		// refers to globals of Lua: may fail to load
	bool loadOnly = false;		// uses a name that is not a Lua identifier: has to be refused or the module has to load
	struct Alt {V items; std::string name;};
	std::vector<std::pair<std::string,Alt> > prods; std::set<std::string> tokens; V order; bool dupIndent = false; bool unspec = false;

	struct Stop{};
	std::string cur() const {return i < t.size() ? t[i] : "";}
	[[noreturn]] void bad( const char* m) {err = m; erridx = erridx0 = (int)i; throw Stop();}
	static bool isIdent( const std::string& x) {if (x.empty() || !(isalpha( (unsigned char)x[0]) || x[0] == '_')) return false; for (char c : x) if (!(isalnum( (unsigned char)c) || c == '_')) return false; return true;}
	static bool isNum( const std::string& x) {if (x.empty()) return false; for (char c : x) if (!isdigit( (unsigned char)c)) return false; return true;}
	static bool isPrioTok( const std::string& x) {return x.size() > 1 && isNum( x.substr( 0, x.size()-1)) && (x.back() == 'L' || x.back() == 'R');}
	static bool isStr( const std::string& x) {return x.size() >= 2 && (x[0] == '"' || x[0] == '\'');}
	static bool isCall( const std::string& x) {if (isIdent( x)) return false; std::size_t k = 0; if (x[0] == '-') ++k; if (k >= x.size() || !(isalpha( (unsigned char)x[k]) || x[k] == '_')) return false; for (;k < x.size(); ++k) if (!(isalnum( (unsigned char)x[k]) || x[k] == '_' || x[k] == '.')) return false; return true;}
	static bool luaName( const std::string& x)
	{
		static const std::set<std::string> res = {"and","break","do","else","elseif","end","false","for","function","goto","if","in","local","nil","not","or","repeat","return","then","true","until","while"};
		for (auto& c : mc::split( x, '.')) if (!isIdent( c) || res.count( c)) return false;
		return true;
	}
	static bool isTok( const std::string& x)
	{
		static const std::set<std::string> o = {"%","/","=","→",":",";","ε","{","}",",","(",")","|",">>","{}"};
		return o.count( x) || isIdent( x) || isNum( x) || isPrioTok( x) || isStr( x) || isCall( x);
	}
	std::string expect( const char* what) {if (cur() != what) bad( what); ++i; return what;}

	void file() {while (i < t.size()) stmt();}
	void stmt()
	{
		std::string c = cur();
		if (c == "%")
		{
			int s = i; ++i; if (!isIdent( cur())) bad( "command name"); std::string cmd = cur(); ++i; V args;
			while (cur() != ";") {if (!isIdent( cur()) && !isNum( cur()) && !isStr( cur())) bad( "argument"); args.push_back( cur()); ++i;}
			std::string lc; for (char ch : cmd) lc.push_back( tolower( ch));
			std::size_t lo = 1, hi = 1; bool known = true;
			if (lc == "comment") hi = 2; else if (lc == "indentl") lo = hi = 4; else if (lc != "language" && lc != "typesystem" && lc != "cmdline" && lc != "ignore" && lc != "bad") known = false;
			if (!known || args.size() < lo || args.size() > hi || (lc == "indentl" && !isNum( args[3]))) {bad( "command"), erridx0 = s;}
			for (auto& a : args) if (isStr( a) && a.size() == 2) unspec = true;	// empty argument
			if (lc == "indentl")
			{
				if (dupIndent) unspec = true; dupIndent = true;
				for (int k=0; k<3; ++k) {std::string n = isStr( args[k]) ? args[k].substr( 1, args[k].size()-2) : args[k]; if (tokens.count( n)) unspec = true; tokens.insert( n);}
			}
			++i; return;
		}
		if (!isIdent( c)) bad( "statement");
		++i;
		if (cur() == ":")
		{
			++i; if (!isStr( cur())) bad( "pattern"); if (cur().size() == 2) unspec = true; ++i;
			if (isNum( cur())) {if (cur().size() > 9) unspec = true; ++i;}
			expect( ";"); if (dupIndent && tokens.count( c)) unspec = true; tokens.insert( c); return;
		}
		if (cur() == "/")
		{
			++i; std::string p = cur(); bool ok = isNum( p) || isPrioTok( p);
			if (!ok && isIdent( p) && (p[0] == 'L' || p[0] == 'R') && (p.size() == 1 || isNum( p.substr( 1)))) ok = true;
			if (!ok) bad( "priority"); ++i;
			std::string d; for (char ch : p) if (isdigit( (unsigned char)ch)) d.push_back( ch);
			if (d.size() > 1) unspec = true;	// range of values: G08
			if (cur() != "=" && cur() != "→") bad( "assignment");
		}
		if (cur() != "=" && cur() != "→") bad( "assignment");
		++i;
		if (std::find( order.begin(), order.end(), c) == order.end()) order.push_back( c);
		for (;;)
		{
			Alt a;
			if (cur() == "ε") ++i;
			else while (isIdent( cur()) || isStr( cur())) {a.items.push_back( cur()); ++i;}
			if (cur() == "(")
			{
				++i; bool scope = false;
				if (cur() == ">>" || cur() == "{}") {scope = true; ++i;}
				if (cur() == ")") {if (!scope) unspec = true; ++i;}
				else
				{
					if (!isIdent( cur()) && !isCall( cur())) bad( "function"); if (!luaName( cur())) loadOnly = true; ++i;
					if (isIdent( cur()) || isCall( cur())) {if (cur()[0] == '-') loadAny = true; if (cur() != "true" && cur() != "false" && !luaName( cur())) loadOnly = true; ++i;}
					else if (isNum( cur()) || isStr( cur())) ++i;
					else if (cur() == "{")
					{
						++i;
						for (;;)
						{
							if (!isIdent( cur())) bad( "member"); if (!luaName( cur())) loadOnly = true; ++i;
							expect( "=");
							if (!isIdent( cur()) && !isNum( cur()) && !isStr( cur())) bad( "value"); if (isIdent( cur()) && !luaName( cur()) && cur() != "true" && cur() != "false" && cur() != "nil") loadOnly = true; ++i;
							if (cur() == ",") {++i; continue;}
							expect( "}"); break;
						}
					}
					expect( ")");
				}
			}
			prods.push_back( {c, a});
			if (cur() == "|") {++i; continue;}
			expect( ";"); break;
		}
	}
	/// 0 refused because of the meaning, 1 accepted, -1 not specified
	bool duplicate = false;
	int meaning()
	{
		if (unspec) return -1;
		if (prods.empty()) return 0;
		std::string start = prods[0].first; std::set<std::string> nts( order.begin(), order.end());
		for (auto& n : nts) if (tokens.count( n)) return 0;
		int starts = 0; std::set<std::string> used, dups; bool nolonger = false;
		for (auto& p : prods)
		{
			if (p.first == start) ++starts;
			std::string key = p.first + "=";
			for (auto& x : p.second.items)
			{
				if (isIdent( x)) {if (nts.count( x)) used.insert( x); else if (!tokens.count( x)) return 0;}
				else if (x.size() == 2) return -1;
				else if (tokens.count( x.substr( 1, x.size()-2)) || nts.count( x.substr( 1, x.size()-2))) return -1;	// string equal to the name of a token: not specified
				key += " " + (isStr( x) ? "'" + x.substr( 1, x.size()-2) : x);
			}
			if (!dups.insert( key).second) duplicate = true;	// with different priorities it is also a conflict
			if (p.second.items.size() > 15) return -1;
		}
		if (starts > 1 || used.count( start)) return 0;
		for (auto& n : nts) if (n != start && !used.count( n)) return 0;
		// really reachable?
		std::set<std::string> reach = {start}; for (bool ch = true; ch;) {ch = false; for (auto& p : prods) if (reach.count( p.first)) for (auto& x : p.second.items) if (isIdent( x) && nts.count( x) && reach.insert( x).second) ch = true;}
		if (duplicate) return 0;
		if (reach.size() != nts.size()) return -1;
		// rules that derive nothing: not specified
		std::set<std::string> prod; for (bool ch = true; ch;) {ch = false; for (auto& p : prods) {bool all = true; for (auto& x : p.second.items) if (isIdent( x) && nts.count( x) && !prod.count( x)) all = false; if (all && prod.insert( p.first).second) ch = true;}}
		if (prod.size() != nts.size()) return -1;
		return 1;
	}
};
static void runFront( const std::string& text, Ctx& ctx)
{
	
	V toks; {std::istringstream is( text); std::string w; while (is >> w) toks.push_back( w);}
	Front f; f.t = toks; std::string src;
	bool syntaxok = true;
	for (auto& w : toks) {if (w == "\\0") src.push_back( '\0'); else src += w; src += "\n";} // \0 stands for a NUL byte
	try {f.file();} catch (const Front::Stop&) {syntaxok = false;}
	// a character that starts no token is found when the tokens before are fine
	int badtok = -1; for (std::size_t i=0; i<toks.size(); ++i) if (!Front::isTok( toks[i])) {badtok = i; break;}
	if (badtok >= 0 && (syntaxok || f.erridx > badtok)) {syntaxok = false; f.erridx = f.erridx0 = badtok;}
	auto g = generate( src);
	if (ctx.verbose) printf( "%s\n-> %s\n", src.c_str(), g.ok ? g.table.c_str() : g.err.c_str());
	ctx.transition( toks.size()); ctx.state( text);
	bool conflict = !g.ok && ((g.code >= 557 && g.code <= 564) || g.code == 0);
	std::string msg;
	bool located = true;
	if (!g.ok && g.code == 0) located = false;
	if (!syntaxok)
	{
		if (g.ok || conflict) ctx.fail( fmt( "accepted, but token %d '%s' does not fit (%s)", f.erridx+1, f.erridx < (int)toks.size() ? toks[ f.erridx].c_str() : "end of file", f.err.c_str()));
		if (f.loadOnly || f.unspec) return;
		int line = f.erridx + 1, line0 = f.erridx0 + 1; if (f.erridx >= (int)toks.size()) {line0 = 1; line = toks.size() + 2;}
		if (g.line < line0 || g.line > line) ctx.fail( fmt( "error reported at line %d, expected line %d: ", g.line, line) + g.err);
		ctx.trace(); return;
	}
	int m = f.meaning();
	if (m == 1 && !f.loadOnly && !g.ok && !conflict) ctx.fail( "refused, but it is a correct grammar: " + g.err);
	if (m == 0 && (g.ok || (conflict && !f.duplicate))) ctx.fail( "accepted, but the grammar has no meaning (undefined, unreachable or ambiguous symbols, duplicate production, start symbol)");
	if (!g.ok && !conflict && g.line <= 0) ctx.fail( "error without a line: " + g.err);
	if (g.ok)
	{
		Module md( chost(), g.table);
		if (!md.ok()) {if (f.loadAny) return; ctx.fail( "accepted, but the generated table cannot be loaded: " + md.err + "\n" + g.table);}
		ctx.count( "accepted"); mc::alive();
		for (auto in : {"", "x", "y", "x y"}) (void)md.run( inputFile( in));
	}
	ctx.trace();
}
static V words_( const char* s) {V rt; std::istringstream is( s); std::string w; while (is >> w) rt.push_back( w); return rt;}
static void enumG07( bool thorough, const Sink& sink)
{
	V alpha = words_( "A S T 7 1L L2 \"x\" 'y' % / = → : ; ε m.f { } , ( ) | >> {} ? COMMENT");
	std::vector<std::pair<const char*,const char*> > ctxs = {
		{"",""}, {"S = A ; A",""}, {"T : \"x\" ; S = A ; A","'y' ;"}, {"T : \"x\" ; S = A ; A =",";"}, {"S = A ; A = 'y' |",";"}, {"S = A ; A = 'y'","( A ) ;"},
		{"S = A ; A = 'y' (",") ;"}, {"S = A ; A = 'y' ( A",") ;"}, {"S = A ; A = ε ( >>",") | \"x\" ;"}, {"S = A ; A = 'y' ( A {","} ) ;"}, {"S = A ; A = 'y' ( A { A =","} ) ;"},
		{"S = A ; A /","= 'y' ;"}, {"% LANGUAGE","; S = 'y' ;"}, {"% COMMENT","; S = 'y' ;"}, {"% INDENTL A","7 ; S = 'y' ;"}, {"T","; S = T ;"}, {"T :","; S = T ;"}, {"%","; S = 'y' ;"},
		{"S = 'y' ;",""}, {"T : 'y' ;","; S = T ;"}, {"S","= 'y' ;"}
	};
	int n = thorough ? 3 : 2;
	for (auto& c : ctxs)
	{
		bool wide = std::string( c.first).empty() || std::string( c.first) == "S = A ; A = 'y' (" || std::string( c.first) == "T : \"x\" ; S = A ; A =";
		words( V(), 0, []( const std::string&){});
		V lvl = {""}; int depth = n + (!thorough && wide ? 1 : 0);
		for (int k=0; k<=depth; ++k)
		{
			V next;
			for (auto& w : lvl) {sink( std::string( c.first) + w + " " + c.second); if (k < depth) for (auto& a : alpha) next.push_back( w + " " + a);}
			lvl = next;
		}
	}
	// neighbourhood of correct grammars: every single (thorough: second) edit
	const char* base[] = {
		"% LANGUAGE A ; % TYPESYSTEM \"x\" ; % CMDLINE 'y' ; T : \"x\" ; S = T ;",
		"% COMMENT \"x\" 'y' ; % COMMENT '#' ; % IGNORE '_' ; % BAD 'y' ; T : \"x\" 7 ; S → A ; A / L2 = A T | ε ( >> m.f 7 ) ;",
		"S = A ( A ) ; A = \"x\" T ( {} A { A = 7 , T = \"x\" } ) | 'y' ( >> ) ; T : \"x\" ;",
		"% INDENTL OP CL NL 4 ; S = A ( S ) ; A = OP A CL | NL | T ( A T ) ; T : 'x' ;",
		"S = A ; A / L1 = A \"+\" A ( A \"+\" ) | A '-' A ( A 'y' ) ; A / 2R = 'x' ; A / 3 = 'y' A ;",
		"S = A B ; A = | 'x' A ( m.n.f m.r ) ; B = ε ( { } ) | \"x\" ( A { A = A } ) ;",
	};
	alpha.push_back( "B"); alpha.push_back( "INDENTL"); alpha.push_back( "-r"); alpha.push_back( "end"); alpha.push_back( "nil"); alpha.push_back( "m."); alpha.push_back( "m..f"); alpha.push_back( "\\0"); alpha.push_back( "true"); alpha.push_back( "\"\"");
	auto edits = [&]( const V& b, std::size_t from, const std::function<void( const V&, std::size_t)>& fn)
	{
		for (std::size_t i=from; i<=b.size(); ++i)
		{
			V w( b.begin(), b.begin()+i); fn( w, i);	// truncated
			if (i < b.size()) {w = b; w.erase( w.begin()+i); fn( w, i);}
			if (i+1 < b.size()) {w = b; std::swap( w[i], w[i+1]); fn( w, i+1);}
			for (auto& a : alpha) {w = b; w.insert( w.begin()+i, a); fn( w, i+1); if (i < b.size()) {w = b; w[i] = a; fn( w, i+1);}}
		}
	};
	for (auto bs : base)
	{
		V b = words_( bs); sink( bs);
		edits( b, 0, [&]( const V& w, std::size_t i)
		{
			sink( mc::join( w, " "));
			if (!thorough || w.size() + 1 < b.size()) return;
			// second edit right behind the first
			for (std::size_t k=i; k<w.size() && k<i+2; ++k) {V x = w; x.erase( x.begin()+k); sink( mc::join( x, " ")); for (std::size_t a=0; a<alpha.size(); a += 2) {x = w; x[k] = alpha[a]; sink( mc::join( x, " "));}}
		});
	}
	for (auto fn : {"-r","end","nil","m.","m..f","true","m.end","m.f","goto","false","_","A"}) for (auto arg : {"","-r","end","nil","m.","m..f","true","m.end","m.r","goto","false","-m.r","r","{ end = 7 }","{ A = end }","{ A = true }","{ A = nil , T = false }","{ A = A }","{ true = 7 }"})
		for (auto sc : {"",">>","{}"}) sink( std::string( "S = A ( ") + sc + " " + fn + " " + arg + " ) ; A = 'y' ( A ) ;");
}

// ---------------------------------------------------------------- G08: limits
// Case: family|n  ; grammars growing in one dimension around the limits of the tables
struct Sentence {std::string in, calls;};
static void runLimit( const std::string& text, Ctx& ctx)
{
	
	auto f = mc::split( text, '|'); std::string fam = f.at(0); int n = atoi( f.at(1).c_str());
	std::string src; std::vector<Sentence> sent; int mustAccept = -1;	// 1 must be accepted, 0 must be refused, -1 either
	auto K = []( int i) {return fmt( " (k %d)", i);};
	auto C = []( int i) {return fmt( "k|number:%d|k %d|", i, i);};
	auto body = [&]( const std::string& t) {return "S = L (root);\nL = L T | ε;\nT = " + t + ";\n";};
	if (fam == "terminals" || fam == "tokens")
	{
		// n terminals, at most 15 per production
		bool tok = fam == "tokens"; std::string t, decl;
		for (int i=0,pi=0; i<n; i += 15, ++pi)
		{
			if (pi) t += "\n | "; std::string in, leafs;
			for (int k=i; k<std::min( n, i+15); ++k)
			{
				if (tok) {t += fmt( "T%d ", k); decl += fmt( "T%d : \"t%d\";\n", k, k); leafs += fmt( "%sT%d=t%d@1", leafs.empty() ? "":" ", k, k);} else t += fmt( "\"t%d\" ", k);
				in += fmt( "t%d ", k);
			}
			t += K( pi); sent.push_back( {in, C( pi) + leafs});
			sent.push_back( {in.substr( 0, in.size()-2), ""});	// last terminal cut or another one
		}
		src = decl + body( t); mustAccept = n <= 1023;
	}
	else if (fam == "unused")	{for (int i=0; i<n; ++i) src += fmt( "T%d : \"t%d\";\n", i, i); src += body( "\"x\" (k 1) | \"y\" (k 2)"); sent.push_back( {"x y x", C(1) + "\n" + C(2) + "\n" + C(1)}); mustAccept = n+2 <= 1023;}
	else if (fam == "nonterminals")
	{
		std::string t, d; for (int i=0; i<n-3; ++i) {t += fmt( "%sA%d", i ? " | " : "", i); d += fmt( "A%d = \"t%d\"", i, i) + K( i) + ";\n"; sent.push_back( {fmt( "t%d", i), C( i)});}
		src = body( t) + d; mustAccept = n <= 255 && 2*(n-3)+3 <= 511;
	}
	else if (fam == "chain")
	{
		// chain of n nonterminals
		std::string d; for (int i=0; i<n-3; ++i) d += fmt( "A%d = ", i) + (i+1 < n-3 ? fmt( "A%d", i+1) : std::string( "\"x\"")) + (i ? "" : " (k 0)") + ";\n";
		src = body( "A0") + d; sent.push_back( {"x", C(0)}); sent.push_back( {"x x", C(0) + "\n" + C(0)}); mustAccept = n <= 255;
	}
	else if (fam == "productions")
	{
		std::string t; for (int i=0; i<n-3; ++i) {t += fmt( "%s\"t%d\"", i ? "\n | " : "", i) + K( i); sent.push_back( {fmt( "t%d t0", i), C( i) + "\n" + C(0)});}
		src = body( t); mustAccept = n <= 511;
	}
	else if (fam == "length")
	{
		std::string t, in; for (int i=0; i<n; ++i) {t += fmt( "\"t%d\" ", i % 3); in += fmt( "t%d ", i % 3);}
		src = body( t + K( 1) + " | \"y\" (k 2)"); sent.push_back( {in, C(1)}); sent.push_back( {in + " y " + in, C(1) + "\n" + C(2) + "\n" + C(1)}); sent.push_back( {in.substr( 0, in.size()-3), n > 1 ? "" : "*"}); mustAccept = n <= 15;
	}
	else if (fam == "lengthnt")
	{
		std::string t, in; for (int i=0; i<n; ++i) {t += fmt( "%s ", i % 2 ? "X":"Y"); in += i % 2 ? "x " : "";}
		src = body( "\"b\" " + t + K( 1)) + "X = \"x\";\nY = ε;\n"; sent.push_back( {"b " + in, C(1)}); sent.push_back( {"b " + in + " b " + in, C(1) + "\n" + C(1)}); mustAccept = n+1 <= 15;
	}
	else if (fam == "states")
	{
		// about n states: productions of 15 terminals have one state per position
		int left = n - 4; std::string t; int pi = 0;
		while (left > 0)
		{
			int len = std::min( 15, left); left -= len; std::string in;
			t += pi ? "\n | " : ""; for (int k=0; k<len; ++k) {std::string w = k == 0 ? fmt( "t%d", pi) : fmt( "u%d", (pi+k) % 7); t += "\"" + w + "\" "; in += w + " ";}
			t += K( pi); sent.push_back( {in, C( pi)}); if (len > 1) sent.push_back( {in.substr( 0, in.size()-3), ""});
			++pi;
		}
		src = body( t); mustAccept = n <= 4000 ? 1 : n > 4200 ? 0 : -1;
	}
	else if (fam == "follows" || fam == "followsnj")
	{
		// n different sets of terminals following a nonterminal
		std::string t; int pi = 0; bool nj = fam == "followsnj"; int singles = std::min( n, nj ? 1000 : 840), per = nj ? 6 : 7; auto T = [&]( int i) {return fmt( "%c%d", nj ? 'u' : 't', i);};
		for (int i=0; i<singles; ++pi)
		{
			std::string in = T( pi) + " "; t += (pi ? "\n | \"" : "\"") + T( pi) + "\" ";
			for (int k=0; k<per && i<singles; ++k,++i) {t += fmt( "X \"u%d\" ", i); in += fmt( "x u%d ", i);}
			t += K( pi); sent.push_back( {in, C( pi)});
			sent.push_back( {T( pi) + fmt( " x u%d", (i+100) % singles), singles > 101 ? "" : "*"});
		}
		std::string d;
		for (int i=0; i<n-singles; ++pi)
		{
			std::string in = T( pi) + " "; t += "\n | \"" + T( pi) + "\" ";
			for (int k=0; k<per && i<n-singles; ++k,++i) {t += fmt( "X N%d ", i); d += fmt( "N%d = \"u%d\" | \"u%d\";\n", i, i, i+1); in += fmt( "x u%d ", i + (k & 1));}
			t += K( pi); sent.push_back( {in, C( pi)});
		}
		src = body( t) + "X = \"x\";\n" + d; mustAccept = n <= 400 ? 1 : -1;
		if (fam == "followsnj")
		{
			// no position inherits the follow of another one: sets are never joined
			auto rep = []( std::string v, const std::string& a, const std::string& b) {std::size_t pos = 0; while ((pos = v.find( a, pos)) != std::string::npos) {v.replace( pos, a.size(), b); pos += b.size();} return v;};
			src = "S = \"b\" T \"e\" (root);\nT = " + rep( t, " (k", " \"z\" (k") + ";\nX = \"x\";\n" + d;
			for (auto& x : sent) {x.in = "b " + x.in + (x.calls.empty() ? "" : " z e");}
		}
	}
	else if (fam == "functions")
	{
		std::string t; for (int i=0; i<n; ++i) {t += fmt( "%s\"t%d\" (f%d \"a%d\")", i ? "\n | " : "", i, i, i); sent.push_back( {fmt( "t%d", i), fmt( "f%d|string:a%d|f%d a%d|", i, i, i, i)});}
		src = body( t); mustAccept = n+3 <= 511;
	}
	else if (fam == "priority")
	{
		// f[1]: value as text, f[2] format L%s, R%s, %sL, %sR
		std::string v = f.at(1), fo = f.at(2), p; for (char c : fo) if (c == 'N') p += v; else p.push_back( c);
		bool right = fo.find( 'R') != std::string::npos, assoc = fo != "N"; std::string v0 = v.substr( std::min( v.find_first_not_of( '0'), v.size()-1)); bool ok = v0.size() <= 9 && atoi( v0.c_str()) <= 31; int pv = ok ? atoi( v0.c_str()) : 0;
		// E/p = E "a" E against E/L15 = E "b" E
		src = "S = E (root2);\nE/" + p + (assoc ? " = E \"a\" E (k 1);\n" : " = E \"a\" (k 1);\n") + "E/L15 = E \"b\" E (k 2);\nE = \"x\" (k 0);\n";
		if (ok && ((pv == 15 && (right || !assoc)) || (pv == 0 && !assoc))) mustAccept = -1; else mustAccept = ok;
		auto g = generate( src); ctx.transition(); ctx.state( text);
		bool conflict = !g.ok && ((g.code >= 557 && g.code <= 564) || g.code == 0);
		if (mustAccept == -1 && !g.ok && !conflict) ctx.fail( "refused: " + g.err);
		if (!ok) {if (g.ok || conflict) ctx.fail( "priority " + p + " is out of range but was accepted"); if (g.line != 2) ctx.fail( "error without line 2: " + g.err); ctx.trace(); return;}
		if (mustAccept == 1 && !g.ok) ctx.fail( "refused: " + g.err);
		ctx.trace(); return;
	}
	else throw std::runtime_error( "bad case");
	if (ctx.verbose) printf( "%s\n", src.c_str());
	auto t0 = mc::now_ms();
	auto g = generate( src); mc::alive();
	if (ctx.verbose) printf( "-> %s (%d ms)\n", g.ok ? "accepted" : g.err.c_str(), (int)(mc::now_ms() - t0));
	ctx.state( text); ctx.count( g.ok ? "accepted" : "refused");
	if (!g.ok)
	{
		if (mustAccept == 1) ctx.fail( "refused, though within the limits: " + g.err);
		if (g.code < 571 || g.code > 577) ctx.fail( "not refused because of a limit: " + g.err);
		ctx.trace(); return;
	}
	if (mustAccept == 0) ctx.fail( "accepted, though beyond the limits of the tables");
	Module m( chost(), g.table);
	if (!m.ok()) ctx.fail( "accepted, but the generated table cannot be loaded: " + m.err);
	for (auto& s : sent)
	{
		if (s.calls == "*") continue;
		mc::alive(); ctx.transition();
		auto r = m.run( inputFile( s.in));
		if (s.calls.empty()) {if (r.ok) ctx.fail( "accepts " + s.in + " with " + r.calls);}
		else if (!r.ok) ctx.fail( "refuses " + s.in + ": " + r.err);
		else if (r.calls != s.calls) ctx.fail( "on " + s.in + " calls\n" + r.calls + "\nexpected\n" + s.calls);
	}
	ctx.trace();
}
static void enumG08( bool thorough, const Sink& sink)
{
	auto around = [&]( const char* fam, std::vector<int> pts, int d) {std::set<int> ns; for (int p : pts) for (int k=-d; k<=d; ++k) if (p+k > 0) ns.insert( p+k); for (int x : ns) sink( fmt( "%s|%d", fam, x));};
	int d = thorough ? 6 : 2;
	around( "states", thorough ? std::vector<int>{64,1024,2048,4000,4080,4096,4111,4300,5000} : std::vector<int>{64,4093,4096}, thorough ? 3 : 1);
	around( "follows", thorough ? std::vector<int>{10,255,300,500,512,700,900,1000,1010,1020,1024,1030,1040} : std::vector<int>{10,256,1022}, thorough ? 2 : 1);
	around( "followsnj", thorough ? std::vector<int>{10,255,500,840,841,900,1000,1010,1015,1020,1022,1024,1030,1040,1060} : std::vector<int>{10,256,1015,1023}, thorough ? 2 : 1);
	around( "terminals", {15,30,255,1023}, d); around( "tokens", {15,255,1023}, d); around( "unused", {256,1021}, d);
	around( "nonterminals", {10,128,254,256,258}, d); around( "chain", {10,64,128,254,256}, d); around( "productions", {10,256,511}, d);
	for (int i=1; i<=40; ++i) {sink( fmt( "length|%d", i)); if (i > 1) sink( fmt( "lengthnt|%d", i));}
	around( "functions", {10,256,509}, d);
	for (auto fo : {"LN","RN","NL","NR","N"}) {for (int i=0; i<=70; ++i) sink( fmt( "priority|%d|%s", i, fo));
		for (auto v : {"127","128","255","256","257","32767","32768","32769","65535","65536","65537","65552","131073","2147483647","2147483648","2147483649","4294967295","4294967296","4294967297","4294967298","99999999999","18446744073709551617","00000000001"}) sink( fmt( "priority|%s|%s", v, fo));}
}

int main( int argc, char** argv)
{
	std::map<std::string,mc::Property> props;
	props["G06"] = {enumG06, runModule, "one case = one grammar (one order of its lexer statements and productions, or one literal at one place), compiled to the Lua table, loaded and run on a fixed family of inputs, tokens and arguments seen by the functions compared; states = distinct grammars / generated tables; transitions = tokens fed", 30};
	props["G07"] = {enumG07, runFront, "one case = one sequence of tokens of the grammar definition language (all short sequences in the contexts of the language and all edits of correct grammars), accepted or refused like the reference front end says, with the line of the error, and loaded if accepted; states = distinct texts; transitions = tokens", 30};
	props["G08"] = {enumG08, runLimit, "one case = one grammar of a size next to a limit of the tables, refused with an error of its own or working on sentences for each of its productions; states = distinct grammars; transitions = sentences", 120};
	return mc::main_( argc, argv, props);
}
