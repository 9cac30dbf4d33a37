// G10: mewa.compiler accepts the tables mewa prints, refuses what is not one, and a compiler does what its table says
// Case: base;op;op...     op = set PATH EXPR | del PATH | ren PATH EXPR | add PATH KEYEXPR VALUEEXPR | rev PATH     (separated by one blank, expressions without blanks)
//   PATH: keys separated by '/', '#n' is the number n, '.' the table itself
#include "luahost.hpp"
#include "automaton.hpp"
#include "lexer.hpp"
#include "error.hpp"
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
using mc::fmt; using mc::Ctx; using mc::Sink; using lh::Val;
typedef std::vector<std::string> V;

static const char* RUNTIME = R"LUA(
local mewa = mewa
local srcs, scratch = ...
local trace
local procs = {}		-- function -> name
local function show( n)
	if type( n) ~= "table" then return "?" .. type( n) end
	if not n.call then return n.name .. "=" .. n.value .. "@" .. n.line end
	local o = n.call.obj; local os = o == nil and "" or (type( o) == "string" and " s:" .. o or type( o) == "number" and string.format( " n:%.17g", o) or type( o) == "boolean" and " " .. tostring( o) or " " .. type( o))
	local rt = "(" .. n.call.name .. os .. "@" .. n.line
	if n.step then rt = rt .. " #" .. n.step end
	if n.scope then rt = rt .. " [" .. n.scope[1] .. "," .. n.scope[2] .. "]" end
	for _,a in ipairs( n.arg) do rt = rt .. " " .. show( a) end
	return rt .. ")"
end
local ts = {tab = {"T"}}
setmetatable( ts, {__index = function( t, k)
	local f = function( node, ...)
		local obj = ...; local n = select( '#', ...)
		trace[ #trace+1] = k .. ":" .. show( node)
		if n > 1 or not rawequal( obj, node.call.obj) then trace[ #trace+1] = "unexpected arguments " .. n end
	end
	procs[ f] = k; rawset( t, k, f); return f end})
local env = {print = print, ts = ts, co = coroutine.create( print), io = io}
local chunks = {}
for k,src in pairs( srcs) do chunks[ k] = assert( load( "local typesystem = ...; return " .. src, "=def" .. k)) end
local function key( s) if s:sub( 1, 1) == "#" then return tonumber( s:sub( 2)) end; return s end
local function cmp( a, b) local ta, tb = type( a), type( b); if ta ~= tb then return ta < tb end; if ta == "number" or ta == "string" then return a < b end; return tostring( a) < tostring( b) end
local function eval( x) return assert( load( "return " .. x, "=expr", "t", env))() end
local function reverse( t)
	local keys = {}; for k in pairs( t) do keys[ #keys+1] = k end
	table.sort( keys, cmp)
	local nt = {}; for i=#keys,1,-1 do nt[ keys[ i]] = t[ keys[ i]] end
	return nt
end
local function apply( t, op)
	local w = {}; for x in op:gmatch( "[^ ]+") do w[ #w+1] = x end
	local holder, last = {root = t}, "root"
	if w[2] ~= "." then for k in w[2]:gmatch( "[^/]+") do holder = holder[ last]; last = key( k) end end
	if w[1] == "set" then holder[ last] = eval( w[3])
	elseif w[1] == "del" then holder[ last] = nil
	elseif w[1] == "ren" then local v = holder[ last]; holder[ last] = nil; holder[ eval( w[3])] = v
	elseif w[1] == "add" then holder[ last][ eval( w[3])] = eval( w[4])
	elseif w[1] == "rev" then
		holder[ last] = reverse( holder[ last])
	else error( "op " .. op) end
	return holder.root or t
end
local function globals() local rt = 0; for k in pairs( _G) do rt = rt + 1 end; return rt end
local current
return {
make = function( base, ops)
	local root = {root = chunks[ base]( ts)}
	for op in ops:gmatch( "[^;]+") do
		root.root = op == "rev ." and reverse( root.root) or apply( root.root, op)
	end
	current = root.root
	local pr = {}
	if type( current) == "table" and type( current.call) == "table" then for i=1,64 do local c = current.call[ i]; pr[ i] = type( c) == "table" and c.proc ~= nil and procs[ c.proc] or "" end end
	return current, table.concat( pr, ",")
end,
load = function()
	collectgarbage(); local g = globals()
	local ok, c = pcall( mewa.compiler, current)
	if not ok then
		collectgarbage()
		return false, type( c) == "string" and c or "not a text: " .. tostring( c), globals() - g
	end
	env.compiler = c
	local tok, ts = pcall( tostring, c)
	return true, tok and ts or ("tostring: " .. tostring( ts)), 0
end,
run = function( input, dbg)
	trace = {}
	local ok, e
	if dbg then ok, e = pcall( env.compiler.run, env.compiler, nil, nil, input, "/dev/null", "/dev/null") else ok, e = pcall( env.compiler.run, env.compiler, nil, nil, input, "/dev/null") end
	return ok, ok and "" or tostring( e), table.concat( trace, "\n")
end,
drop = function() env.compiler = nil; current = nil end
}
)LUA";

struct Base {const char* name; const char* grammar; V inputs;};
static const std::vector<Base>& bases()
{
	static std::vector<Base> rt;
	if (rt.empty())
	{
		Base a = {"a", "OP : '[a-z][0-9]';\nS = L;\nL = T L | ε;\nT = OP (op);\n", {"", "a1", "a1 b2", "a1\nb2 c3", "?", "a1 ?", "a"}};
		Base b = {"b", "% LANGUAGE \"x\";\n% TYPESYSTEM \"tsys\";\n% CMDLINE \"cl\";\n% COMMENT \"/*\" \"*/\";\n% COMMENT \"#\";\n% IGNORE '[_]+';\n% BAD \"bad\";\n% INDENTL IO IC NL 4;\nID : '[a-z]+';\nSTR : '\"([^\"]*)\"' 1;\nS = L (root);\nL = L T | ε;\n"
			"T = ID \"=\" E \";\" (>> asg \"x y\") | \"{\" L \"}\" ({} blk tab) | IO L IC (f 7) | NL;\nE = STR (str) | ID (>> id);\n",
			{"", "a = \"x\";", "a = b; c = d;", "{ a = b; { } } x = \"yy\";", "a = b; # x = ;\nc = d;", "a /* = */ = _ b;\n    c = d;\n    e = f;\n", "a = b", "a = ;", "a ? b", "\n\n", "  {\n    a = b;\n  }\nc = d;", "#", "/*"}};
		Base c = {"c", "% COMMENT \"//\";\nN : '[0-9]+';\nM : '[0-9]+[.][0-9]*';\nS = E;\nE = E \"+\" F | F;\nF = N | \"(\" E \")\" | M;\n", {"", "1", "1+2", "(1+2)+3", "((1))", "1+", "1 2", "1.5+2 // x", "(1", ")", "x"}};
		Base d = {"d", "A : 'a';\nB : 'b' ;\nS = P (start);\nP = P Q ({} p \"s\") | Q (q 3);\nQ = A B (>> ab) | B (b true) | \"x\" P \"y\" ({} n);\n", {"", "b", "a b", "b a b", "x b y", "x a b b y b", "x x b y y", "a a", "x b", "b y"}};
		rt = {a, b, c, d};
	}
	return rt;
}

// ---- reference: what a table means ----
struct Ref
{
	bool mustRefuse = false, mayRefuse = false, compare = true; std::string why;
	struct Act {int type, scope, value, call, count;};
	std::map<std::pair<int,int>,Act> act; std::map<std::pair<int,int>,int> gto; std::vector<const Val*> calls; V procs;
	int nonterminals = 0; bool scopeWithoutCall = false;
	mewa::Lexer lexer; int nofTerminals = 0;

	void refuse( const std::string& w) {if (!mustRefuse) why = w; mustRefuse = true;}
	void maybe( const std::string& w) {if (why.empty()) why = w; mayRefuse = true;}
	static bool integer( const Val& v, double lo, double hi) {return v.t == Val::Num && v.n == std::floor( v.n) && v.n >= lo && v.n <= hi;}

	/// elements of a list, false if it is none
	bool list( const Val& v, const std::string& name, std::vector<const Val*>& out)
	{
		if (v.t != Val::Tab) {refuse( name + " is no table"); return false;}
		for (std::size_t i=0; i<v.tab.size(); ++i) {if (!integer( v.tab[i].first, 1, 1e6)) {refuse( name + " is no list"); return false;}}
		for (std::size_t i=0; i<v.tab.size(); ++i) {const Val& e = v.at( (int)i+1); if (e.isnil()) {refuse( name + " has a hole"); return false;} out.push_back( &e);}
		return true;
	}
	bool strings( const Val& v, const std::string& name, V& out)
	{
		std::vector<const Val*> l; if (!list( v, name, l)) return false;
		for (auto e : l) {if (e->t == Val::Num) {maybe( name + ": number as string"); compare = false; out.push_back( "0");} else if (e->t != Val::Str) {refuse( name + ": element is no string"); return false;} else out.push_back( e->s);}
		return true;
	}
	std::string ver;
	void version( const Val& v)
	{
		ver = v.s;
		if (v.t != Val::Str) {refuse( "version is no string"); return;}
		int major = -1, minor = -1, n = 0; char tail = 0;
		if (sscanf( v.s.c_str(), "%d.%d%n", &major, &minor, &n) >= 2 && isdigit( (unsigned char)v.s[0]) && isdigit( (unsigned char)v.s[ v.s.find( '.')+1]))
		{
			tail = v.s.c_str()[ n]; std::string canon = fmt( "%d.%d", major, minor);
			if (major == 0 && minor >= 1 && minor < 100 && v.s.compare( 0, n, canon) == 0) {if (tail == '.' || v.s.size() == (std::size_t)n) {bool plain = true; for (char c : v.s) if (c != '.' && !isdigit( (unsigned char)c)) plain = false; if (!plain || v.s.back() == '.') maybe( "version");} else refuse( "version with other characters");}
			else if (major >= 1) refuse( "higher major version"); else if (minor == 0) refuse( "version 0.0"); else maybe( "version");
		}
		else if (!v.s.empty() && v.s[0] == '.') maybe( "version"); else refuse( "version without number");
	}
	Ref( const Val& t, const std::string& procs_)
	{
		procs = mc::split( procs_, ',');
		if (t.t != Val::Tab) {refuse( "no table"); return;}
		bool hasver = false; const Val *lx = nullptr, *nt = nullptr, *ac = nullptr, *gt = nullptr, *ca = nullptr;
		for (auto& e : t.tab)
		{
			if (e.first.t != Val::Str) {refuse( "member without name"); continue;}
			auto& k = e.first.s;
			if (k == "mewa") {hasver = true; version( e.second);}
			else if (k == "language" || k == "typesystem" || k == "cmdline") {if (e.second.t != Val::Str) refuse( k + " is no string");}
			else if (k == "lexer") lx = &e.second; else if (k == "nonterminal") nt = &e.second; else if (k == "action") ac = &e.second; else if (k == "gto") gt = &e.second; else if (k == "call") ca = &e.second;
			else maybe( "unknown member");
		}
		if (!hasver) refuse( "no version");
		if (!lx) maybe( "no lexer"); else if (lx->t != Val::Tab) refuse( "lexer is no table"); else lex( *lx);
		V nts; if (!nt) maybe( "no nonterminals"); else strings( *nt, "nonterminal", nts); nonterminals = nts.size();
		if (!ca) {maybe( "no call table"); compare = false;}
		else
		{
			std::vector<const Val*> l;
			if (list( *ca, "call", l)) for (auto c : l)
			{
				calls.push_back( c);
				if (c->t != Val::Tab) {refuse( "call is no table"); continue;}
				std::string name; bool hn = false, hp = false, ho = false;
				for (auto& e : c->tab)
				{
					if (e.first.t != Val::Str) {refuse( "call: member without name"); continue;}
					if (e.first.s == "name") {hn = true; if (e.second.t != Val::Str) refuse( "call: name is no string"); else name = e.second.s;}
					else if (e.first.s == "proc") {hp = true; if (e.second.t != Val::Other || e.second.s != "function") refuse( "call: proc is no function");}
					else if (e.first.s == "obj") ho = true;
					else refuse( "call: unknown member");
				}
				if (!hn || !hp) refuse( "call without name or function");
				if (name.find( ' ') != std::string::npos && name.find( ' ')+1 < name.size() && !ho) refuse( "call: argument without value");
				if (name.find( ' ') == std::string::npos && ho) maybe( "call: value without argument");
			}
		}
		if (!ac) maybe( "no action table"); else if (ac->t != Val::Tab) refuse( "action is no table");
		else for (auto& e : ac->tab)
		{
			if (!integer( e.first, 1, (1<<22)-1)) {refuse( "action: key"); continue;}
			if (!integer( e.second, 1, (1<<30)-1)) {refuse( "action: value"); continue;}
			int k = (int)e.first.n, v = (int)e.second.n; Act a = {v >> 28, (v >> 26) & 3, (v >> 14) & 4095, (v >> 4) & 1023, v & 15};
			act[ {k >> 10, k & 1023}] = a;
			if (a.type == 3 || a.scope == 3 || a.call > (int)calls.size() || (k & 1023) > nofTerminals || (a.type == 0 && ((k & 1023) == 0 || a.value == 0 || a.scope || a.call || a.count)) || (a.type == 2 && (k & 1023)) || (a.type != 0 && (a.value == 0 || a.value > nonterminals))) maybe( "action: value out of range");
			if (a.scope && !a.call) scopeWithoutCall = true;
		}
		if (!gt) maybe( "no goto table"); else if (gt->t != Val::Tab) refuse( "gto is no table");
		else for (auto& e : gt->tab)
		{
			if (!integer( e.first, 1, (1<<22)-1)) {refuse( "gto: key"); continue;}
			if (!integer( e.second, 1, 4095)) {refuse( "gto: value"); continue;}
			int k = (int)e.first.n; gto[ {k >> 10, k & 1023}] = (int)e.second.n;
			if ((k & 1023) == 0 || (k & 1023) > nonterminals) maybe( "gto: key out of range");
		}
	}
	void lex( const Val& v)
	{
		V keywords, bad, ignore; struct Tok {std::string n, p; int sel;}; std::vector<Tok> toks; std::vector<V> comments; int ind = 0, tab = 0;
		for (auto& e : v.tab)
		{
			if (e.first.t != Val::Str) {refuse( "lexer: member without name"); continue;}
			auto& k = e.first.s; auto& val = e.second; std::vector<const Val*> l; V s;
			if (val.t != Val::Tab) {refuse( "lexer/" + k + " is no table"); continue;}
			if (k == "keyword") strings( val, k, keywords); else if (k == "bad") strings( val, k, bad); else if (k == "ignore") {maybe( "ignore"); strings( val, k, ignore);}
			else if (k == "comment") {if (list( val, k, l)) for (auto c : l) {s.clear(); if (c->t == Val::Str) comments.push_back( {c->s}); else if (c->t == Val::Num) refuse( "comment: number"); else if (strings( *c, "comment", s)) {if (s.empty() || s.size() > 2) refuse( "comment"); else comments.push_back( s);}}}
			else if (k == "token")
			{
				if (list( val, k, l)) for (auto c : l)
				{
					std::vector<const Val*> f; if (!list( *c, "token definition", f)) continue;
					if (f.size() < 2 || f.size() > 3) {refuse( "token definition size"); continue;}
					Tok t = {"", "", 0}; bool good = true;
					for (int i=0; i<2; ++i) {if (f[i]->t == Val::Num) {maybe( "number as string"); compare = false; good = false;} else if (f[i]->t != Val::Str) {refuse( "token definition"); good = false;} else (i ? t.p : t.n) = f[i]->s;}
					if (f.size() == 3) {if (f[2]->t == Val::Str) {maybe( "select as string"); compare = false; for (char ch : f[2]->s) if (!isdigit( (unsigned char)ch)) refuse( "token select");} else if (!integer( *f[2], 0, 2e9)) refuse( "token select"); else t.sel = (int)f[2]->n;}
					if (good) toks.push_back( t);
				}
			}
			else if (k == "indentl") {if (list( val, k, l)) {if (l.size() != 2) refuse( "indentl size"); else if (!integer( *l[0], 0, 2e9) || !integer( *l[1], 0, 2e9)) {if (l[0]->t != Val::Num || l[1]->t != Val::Num) refuse( "indentl"); else if (!integer( *l[0], -3e9, 3e9) || !integer( *l[1], -3e9, 3e9)) refuse( "indentl"); else {maybe( "indentl range"); compare = false;}} else {ind = (int)l[0]->n; tab = (int)l[1]->n;}}}
			else maybe( "unknown member of the lexer");
		}
		if (mustRefuse) return;
		try
		{
			for (auto& c : comments) if (c.size() == 1) lexer.defineEolnComment( 0, c[0]); else lexer.defineBracketComment( 0, c[0], c[1]);
			for (auto& t : toks) if (t.sel) lexer.defineLexem( 0, t.n, t.p, t.sel); else lexer.defineLexem( 0, t.n, t.p);
			for (auto& b : bad) lexer.defineBadLexem( 0, b);
			for (auto& i : ignore) lexer.defineIgnore( 0, i);
			for (auto& k : keywords) lexer.defineLexem( k);
		}
		catch (const mewa::Error& e) {if (compare) refuse( std::string( "lexer definition: ") + e.what()); else maybe( e.what()); return;}
		if (bad.size() > 1) maybe( "more than one bad lexem");
		nofTerminals = lexer.nofTerminals();
		if (v.at( "indentl").t == Val::Tab && compare)
		{
			if (ind < 1 || ind+2 > nofTerminals) {maybe( "indentl out of range"); compare = false;}
			else {for (int i=ind; i<ind+3; ++i) {bool found = false; for (auto& t : toks) if (lexer.lexemId( t.n) == i && t.p.empty()) found = true; if (!found) {maybe( "indentl lexem with a pattern"); compare = compare && !lexer.isKeyword( i);}} if (tab < 1) maybe( "indentl tab size"); lexer.setIndentLexems( {0, ind, ind+1, ind+2, tab});}
		}
	}
	// ---- what a run does ----
	struct Node {bool token; std::string name, value; int line; int call, kind, start, end; std::vector<int> arg;};
	std::vector<Node> nodes;
	std::string show( int n) const
	{
		auto& x = nodes[n]; if (x.token) return x.name + "=" + x.value + fmt( "@%d", x.line);
		const Val& c = *calls[ x.call-1]; const Val& o = c.at( "obj"); std::string os;
		if (!o.isnil()) os = o.t == Val::Str ? " s:" + o.s : o.t == Val::Num ? fmt( " n:%.17g", o.n) : o.t == Val::Bool ? (o.b ? " true" : " false") : o.t == Val::Tab ? " table" : " " + o.s;
		std::string rt = "(" + c.at( "name").s + os + fmt( "@%d", x.line);
		rt += x.kind == 2 ? fmt( " [%d,%d]", x.start, x.end) : fmt( " #%d", x.end);
		for (int a : x.arg) rt += " " + show( a);
		return rt + ")";
	}
	enum Res {Ok, Err, Loop};
	Res run( const std::string& source, std::string& trace, std::string& info)
	{
		struct El {int state; std::vector<int> val; int scope;};
		std::vector<El> st = {{1, {}, 0}}; nodes.clear(); int line = 0, step = 0; long steps = 0; std::vector<int> result; bool accepted = false;
		try
		{
			mewa::Scanner scanner( source);
			while (!accepted)
			{
				mewa::Lexem lx = lexer.next( scanner); int term = 0;
				if (!lx.empty()) {if (lx.id() <= 0) {info = "lexer error"; return Err;} term = lx.id();}
				for (bool consumed = false; !consumed && !accepted;)
				{
					if (++steps > 2000 || st.size() > 1500) return Loop;
					auto ai = act.find( {st.back().state, term}); if (ai == act.end()) {info = "unexpected token"; return Err;}
					Act a = ai->second;
					if (a.type == 0)
					{
						if (term == 0) {info = "end of input shifted"; return Err;}
						El e = {a.value, {}, step};
						if (!lexer.isKeyword( term)) {Node n; n.token = true; n.name = std::string( lx.name()); n.value = std::string( lx.value()); n.line = lx.line(); line = lx.line(); e.val = {(int)nodes.size()}; nodes.push_back( n);}
						st.push_back( e); consumed = true; continue;
					}
					if (a.type == 3) {info = "unknown action"; return Err;}
					if ((int)st.size() <= a.count) {info = "stack underflow"; return Err;}
					if (a.call > (int)calls.size() || a.scope == 3) {info = "bad call"; return Err;}
					int start = a.count ? st[ st.size()-a.count].scope : step; std::vector<int> vals;
					for (std::size_t i=st.size()-a.count; i<st.size(); ++i) vals.insert( vals.end(), st[i].val.begin(), st[i].val.end());
					if (a.call)
					{
						Node n; n.token = false; n.line = line; n.call = a.call; n.kind = a.scope; n.start = start; if (a.scope) ++step; n.end = step; n.arg = vals;
						vals = {(int)nodes.size()}; nodes.push_back( n);
					}
					st.resize( st.size()-a.count);
					if (a.type == 2) {if (term != 0 || st.size() != 1) {info = "unexpected accept"; return Err;} result = vals; accepted = true; continue;}
					auto gi = gto.find( {st.back().state, a.value}); if (gi == gto.end()) {info = "missing goto"; return Err;}
					if (a.value == 0 || a.value > nonterminals) {info = "unknown nonterminal"; return Err;}
					st.push_back( {gi->second, vals, start});
				}
			}
		}
		catch (const mewa::Error& e) {info = e.what(); return Err;}
		if (!calls.empty()) for (int n : result)
		{
			if (nodes[n].token) {info = "token without function"; return Err;}
			if (procs.at( nodes[n].call-1).empty()) continue;	// another function
			trace += (trace.empty() ? "" : "\n") + procs.at( nodes[n].call-1) + ":" + show( n);
		}
		return Ok;
	}
};

static std::string dir()
{
	static std::string d;
	if (d.empty())
	{
		d = mc::scratch() + fmt( "/t%d", (int)getpid()); mkdir( d.c_str(), 0755);
		for (auto& b : bases()) {int i = 0; for (auto& s : b.inputs) {std::string fn = d + "/" + b.name + fmt( "%d", i++); int fd = open( fn.c_str(), O_WRONLY|O_CREAT|O_TRUNC, 0644); if (fd < 0 || write( fd, s.data(), s.size()) != (ssize_t)s.size()) throw std::runtime_error( "cannot write"); close( fd);}}
	}
	return d;
}
static std::string definition( const Base& b) {std::vector<mewa::Error> w; mewa::Automaton am; am.build( b.grammar, w, mewa::Automaton::DebugOutput()); return am.tostring();}
static void prepare( lh::Host& h, int* ref)
{
	lua_State* L = h.L; lua_settop( L, 0);
	lua_getglobal( L, "prepared"); bool done = !lua_isnil( L, -1); lua_settop( L, 0); if (done) return;
	if (luaL_loadbuffer( L, RUNTIME, strlen( RUNTIME), "=runtime")) throw mc::Failure( std::string( "runtime: ") + lua_tostring( L, -1));
	lua_newtable( L); for (auto& b : bases()) {std::string d = definition( b); lua_pushlstring( L, d.data(), d.size()); lua_setfield( L, -2, b.name);}
	lua_pushstring( L, dir().c_str());
	if (lua_pcall( L, 2, 1, 0)) throw mc::Failure( std::string( "runtime: ") + lua_tostring( L, -1));
	*ref = luaL_ref( L, LUA_REGISTRYINDEX); lua_pushboolean( L, 1); lua_setglobal( L, "prepared");
}
static int g_ref = LUA_NOREF;
static void call( lua_State* L, const char* fn, int nargs, int nres)
{
	lua_rawgeti( L, LUA_REGISTRYINDEX, g_ref); lua_getfield( L, -1, fn); lua_remove( L, -2); lua_insert( L, -1-nargs);
	if (lua_pcall( L, nargs, nres, 0)) throw mc::Failure( std::string( "driver: ") + (lua_tostring( L, -1) ? lua_tostring( L, -1) : "?"));
}
static std::string str( lua_State* L, int i) {size_t n = 0; const char* p = lua_tolstring( L, i, &n); return p ? std::string( p, n) : std::string();}
static void runCase( const std::string& text, Ctx& ctx)
{
	lh::Host& h = lh::host( 64, 2000); lua_State* L = h.L; prepare( h, &g_ref); std::string D = dir();
	auto p = text.find( ';'); std::string bn = text.substr( 0, p), ops = p == std::string::npos ? "" : text.substr( p+1);
	const Base* base = nullptr; for (auto& b : bases()) if (b.name == bn) base = &b;
	if (!base) throw std::runtime_error( "base");
	lua_pushstring( L, bn.c_str()); lua_pushlstring( L, ops.data(), ops.size()); call( L, "make", 2, 2);
	Val t = h.get( 1); Ref ref( t, lua_tostring( L, 2)); lua_settop( L, 0);
	if (ops.empty() && (ref.mustRefuse || ref.mayRefuse || !ref.compare)) ctx.fail( "the table printed is refused by the reference: " + ref.why);
	std::string key = ref.mustRefuse ? "refuse " : ref.mayRefuse ? "may " : "accept "; key += t.str(); ctx.state( key);
	struct Pred {Ref::Res r; std::string trace, info;}; std::vector<Pred> pred;
	if (!ref.mustRefuse) for (auto& s : base->inputs) {Pred x; x.r = ref.run( s, x.trace, x.info); pred.push_back( x);}
	call( L, "load", 0, 3); bool ok = lua_toboolean( L, 1); std::string msg = str( L, 2); int glob = lua_tointeger( L, 3); lua_settop( L, 0); ctx.transition();
	if (ctx.verbose) printf( "reference: %s (%s), compare %d; mewa.compiler: %s %s\n", ref.mustRefuse ? "refuse" : ref.mayRefuse ? "may refuse" : "accept", ref.why.c_str(), ref.compare, ok ? "ok" : "refused", ok ? "" : msg.c_str());
	if (!ok)
	{
		if (!ref.mustRefuse && !ref.mayRefuse) ctx.fail( "table refused: " + msg);
		if (msg.size() < 4 || !msg.compare( 0, 10, "not a text")) ctx.fail( "table refused without message: " + msg);
		if (ref.mustRefuse && ref.why == "higher major version" && msg.find( "ersion") != std::string::npos && msg.find( ref.ver) == std::string::npos) ctx.fail( "the error does not name the version: " + msg);
		if (glob != 0) ctx.fail( fmt( "%d global variables more after a failing call of mewa.compiler", glob));
		ctx.count( "refused"); call( L, "drop", 0, 0); return;
	}
	if (ref.mustRefuse) ctx.fail( "table accepted: " + ref.why);
	ctx.count( "accepted");
	if (msg.empty() || !msg.compare( 0, 9, "tostring:")) ctx.fail( "tostring failed: " + msg);
	for (std::size_t i=0; i<pred.size(); ++i)
	{
		if (pred[i].r == Ref::Loop) {ctx.count( "endless"); continue;}
		for (int dbg=0; dbg<2; ++dbg)
		{
			lua_pushstring( L, (D + "/" + base->name + fmt( "%d", (int)i)).c_str()); lua_pushboolean( L, dbg); call( L, "run", 2, 3);
			bool rok = lua_toboolean( L, 1); std::string err = str( L, 2), tr = str( L, 3); lua_settop( L, 0); ctx.transition(); ctx.traces += dbg == 0;
			if (ctx.verbose) printf( "input %d%s: %s %s\n%s\n  expected: %s %s\n%s\n", (int)i, dbg ? " with debug output" : "", rok ? "ok" : "error", err.c_str(), tr.c_str(), pred[i].r == Ref::Ok ? "ok" : "error", pred[i].info.c_str(), pred[i].trace.c_str());
			if (!ref.compare) continue;
			std::string what = fmt( "input %d%s: ", (int)i, dbg ? " with debug output" : "");
			if (rok && pred[i].r == Ref::Err) ctx.fail( what + "no error, expected one: " + pred[i].info);
			if (!rok && pred[i].r == Ref::Ok) ctx.fail( what + "failed: " + err);
			if (tr != pred[i].trace && !ref.scopeWithoutCall) ctx.fail( what + "calls " + tr + "\nexpected " + pred[i].trace);
		}
	}
	call( L, "drop", 0, 0);
}

// ---- enumeration ----
static void paths( const Val& v, const std::string& p, std::vector<std::pair<std::string,const Val*> >& out)
{
	for (auto& e : v.tab)
	{
		std::string k = e.first.t == Val::Num ? fmt( "#%d", (int)e.first.n) : e.first.s, q = p.empty() ? k : p + "/" + k;
		out.push_back( {q, &e.second}); if (e.second.t == Val::Tab && !(q.find( "call/") == 0 && k == "obj")) paths( e.second, q, out);
	}
}
static void enumG10( bool thorough, const Sink& sink)
{
	lh::Host h; prepare( h, &g_ref); lua_State* L = h.L;
	V pool = {"nil","true","false","0","1","2","3","-1","5","1.5","100","2147483647","2147483648","4294967297","9007199254740992","0/0","1/0","\"\"","\"x\"","\"5\"","\"0.1\"","\"a\\0b\"","{}","{1}","{\"x\"}","{\"x\",\"y\"}","{\"x\",\"y\",\"z\"}","{\"x\",\"y\",1}","{\"x\",\"y\",1,1}","{{}}","{\"x\",nil,\"y\"}","{x=1}","{[2]=\"x\"}","{[0]=\"x\"}","{[1.5]=\"x\"}","{nil,\"x\"}","{1,2,3}","{true}","print","ts.op","io.stdout","co"};
	V keys = {"0","-1","1.5","true","\"x\"","\"1\"","1000","4194304","67109889","1/0","{}"};
	V versions = {"0","0.","0.1","0.9","0.10","0.10.13","0.10.14","0.11","0.99","0.99.1","1.0","1.0.0","1","2.3","10.0","99.99","00.1","0.0","0.0.1","","x",".1","0.1x","-1.0","0.1.x","0.1.","0.100","0.101","100.1","101.0","4294967296.1","4294967295.1","0.4294967296","0.1 "," 0.1","+0.1","0,1","0.1-dev"};
	for (auto& b : bases())
	{
		std::string B = b.name; sink( B);
		lua_pushstring( L, b.name); lua_pushstring( L, ""); call( L, "make", 2, 2); Val t = h.get( 1); lua_settop( L, 0);
		std::vector<std::pair<std::string,const Val*> > ps; paths( t, "", ps);
		std::vector<std::pair<std::string,std::string> > tabs = {{".", ""}}; for (auto& e : ps) if (e.second->t == Val::Tab) tabs.push_back( {e.first, ""});
		for (auto& v : versions) sink( B + ";set mewa " + (v.find( ' ') == std::string::npos ? "\"" + v + "\"" : "(\"" + mc::join( mc::split( v, ' '), "\\x20") + "\")"));
		// order of the members
		std::string all; for (auto& e : tabs) {sink( B + ";rev " + e.first); all = ";rev " + e.first + all;}
		sink( B + all);
		// single changes
		V single; int npacked = 0;
		for (auto& e : ps)
		{
			bool packed = e.first.compare( 0, 7, "action/") == 0 || e.first.compare( 0, 4, "gto/") == 0;
			if (packed && !thorough && B != "a" && ++npacked > 6 && npacked % 5) {for (auto v : {"nil","0","-1","1.5","4294967297","\"5\"","{}"}) single.push_back( "set " + e.first + " " + v); continue;}
			for (auto& v : pool) single.push_back( "set " + e.first + " " + v);
			single.push_back( "del " + e.first);
			if (!packed) for (auto& k : keys) single.push_back( "ren " + e.first + " " + k); else for (auto& k : {"\"x\"","\"1025\"","1.5","-1","0","4194304","67109889"}) single.push_back( "ren " + e.first + " " + k);
		}
		for (auto& e : tabs) {auto& k2 = e.first; for (auto& k : keys) for (auto v : {"1","\"x\"","{}","{\"x\",\"y\"}","{name=\"f\",proc=ts.f}","true"}) single.push_back( "add " + k2 + " " + k + " " + v);}
		for (auto& e : tabs) if (e.first != ".") {const Val* v = &t; for (auto& k : ps) if (k.first == e.first) v = k.second; int n = v->len(); for (int i : {n+1, n+2}) for (auto x : {"1","\"x\"","{}","{\"x\",\"y\"}","{name=\"f\",proc=ts.f}","true"}) single.push_back( "add " + e.first + fmt( " %d ", i) + x);}
		for (auto& s : single) sink( B + ";" + s);
		// calls
		for (auto x : {"{name=\"f\"}","{proc=ts.f}","{name=\"f\",proc=1}","{name=1,proc=ts.f}","{name=\"f\\x20x\",proc=ts.f}","{name=\"f\\x20x\",proc=ts.f,obj=false}","{name=\"f\\x20x\\x20y\",proc=ts.f,obj=\"x\\x20y\"}","{name=\"\",proc=ts.f}","{name=\"f\",proc=ts.f,Obj=1}","{name=\"f\",proc=ts.f,[1]=1}","{\"f\",ts.f}","{name=\"f\",proc=ts.f,obj={}}","{name=\"f\\0x\",proc=ts.f}","{name=\"f\",proc=setmetatable}","{name=\"f\",proc=nil}","{name=\"f\\x20\",proc=ts.f}","{name=nil,proc=ts.f,obj=1}","{name=\"g\\x20tab\",proc=ts.g,obj=ts.tab}","ts.f","\"f\""})
			for (int i=1; i<=(int)t.at( "call").tab.size()+1; ++i) sink( B + fmt( ";add call %d ", i) + x);
		// fields of the packed entries
		const Val &ac = t.at( "action"), &gt = t.at( "gto"); V fields; int ncalls = t.at( "call").tab.size(), nnt = t.at( "nonterminal").tab.size(); int nstates = 1; for (auto& e : ac.tab) nstates = std::max( nstates, ((int)e.first.n) >> 10);
		std::set<int> akeys; for (auto& e : ac.tab) akeys.insert( (int)e.first.n);
		for (auto& e : ac.tab)
		{
			int k = (int)e.first.n, v = (int)e.second.n; std::set<int> vals, ks;
			auto fld = [&]( int shift, int bits, int x) {int nv = (v & ~(((1<<bits)-1) << shift)) | (x << shift); if (nv != v) vals.insert( nv);};
			for (int x=0; x<4; ++x) {fld( 28, 2, x); fld( 26, 2, x);}
			for (int x=0; x<=std::max( nstates, nnt)+1; ++x) fld( 14, 12, x);
			fld( 14, 12, 255); fld( 14, 12, 4095);
			for (int x=0; x<=ncalls+1; ++x) fld( 4, 10, x);
			fld( 4, 10, 1023);
			for (int x=0; x<16; ++x) if (x <= 4 || x == 15) fld( 0, 4, x);
			for (int x : vals) fields.push_back( fmt( "set action/#%d %d", k, x));
			for (int s=0; s<=nstates+1; ++s) ks.insert( (s << 10) | (k & 1023));
			for (int x=0; x<12; ++x) ks.insert( (k & ~1023) | x);
			ks.insert( (k & ~1023) | 1023); ks.insert( (4095 << 10) | (k & 1023));
			for (int x : ks) if (x > 0 && x != k) {if (!akeys.count( x)) fields.push_back( fmt( "ren action/#%d %d", k, x)); else if (thorough || B == "a" || B == "d") fields.push_back( fmt( "set action/#%d %d", x, v));}
		}
		std::set<int> gkeys; for (auto& e : gt.tab) gkeys.insert( (int)e.first.n);
		for (auto& e : gt.tab)
		{
			int k = (int)e.first.n, v = (int)e.second.n;
			for (int x=0; x<=nstates+1; ++x) if (x != v) fields.push_back( fmt( "set gto/#%d %d", k, x));
			for (int x : {4095,4096,65537,65538}) fields.push_back( fmt( "set gto/#%d %d", k, x));
			for (int s=0; s<=nstates+1; ++s) for (int n=0; n<=nnt+1; ++n) {int x = (s << 10) | n; if (x > 0 && !gkeys.count( x)) fields.push_back( fmt( "ren gto/#%d %d", k, x));}
		}
		std::sort( fields.begin(), fields.end()); fields.erase( std::unique( fields.begin(), fields.end()), fields.end());
		for (auto& f : fields) sink( B + ";" + f);
		// pairs
		auto key = []( const std::string& f) {auto w = mc::split( f, ' '); return w[1];};
		if (B == "a") {std::size_t st = thorough ? 1 : 7; for (std::size_t i=0; i<fields.size(); ++i) for (std::size_t j=i+1 + (thorough ? 0 : (i*5) % st); j<fields.size(); j+=st) if (key( fields[i]) != key( fields[j])) sink( B + ";" + fields[i] + ";" + fields[j]);}
		else if (thorough && B == "d") {for (std::size_t i=0; i<fields.size(); ++i) for (std::size_t j=i+1+i%31; j<fields.size(); j+=31) if (key( fields[i]) != key( fields[j])) sink( B + ";" + fields[i] + ";" + fields[j]);}
		for (auto& s : fields) if (B == "a") sink( B + ";" + s + all);
		for (auto& s : single) if (s[0] != 'r' && (thorough || B == "a")) sink( B + ";" + s + ";rev " + (s.find( "action/") != std::string::npos ? "action" : "."));
		// elements of lists exchanged
		for (auto& e : tabs) if (e.first != ".") {const Val* v = nullptr; for (auto& k : ps) if (k.first == e.first) v = k.second; int n = v->len(); for (int i=1; i<n; ++i) sink( B + ";ren " + e.first + fmt( "/#%d 900;ren ", i) + e.first + fmt( "/#%d %d;ren ", i+1, i) + e.first + fmt( "/#900 %d", i+1));}
	}
}
int main( int argc, char** argv)
{
	std::map<std::string,mc::Property> props;
	props["G10"] = {enumG10, runCase, "one case = one table printed by mewa with up to two members, entries or fields of entries changed, or inserted in another order; accepted or refused as the rules for tables say, and run on every input of the grammar with and without debug output, compared with an interpreter of the table; states = distinct tables", 30};
	return mc::main_( argc, argv, props);
}
