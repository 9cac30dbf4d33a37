// Parser generator and generated parser: all small grammars, all inputs up to a length, against an independent LALR(1) construction,
// exhaustive derivation and a reference construction of the AST.
#include "mc.hpp"
#include "luahost.hpp"
#include "reflr.hpp"
#include "automaton.hpp"
#include "error.hpp"
#include <memory>
using mc::fmt; using mc::Ctx; using mc::Sink;
typedef std::vector<std::string> V;

// ---------------------------------------------------------------- grammar text of a case
// Productions  X[/prio]=alt|alt;...  single characters: upper case nonterminal (the first one is the start symbol), 'u'..'z' tokens with a
// value, other lower case characters and punctuation keywords.  An alternative may end with (flags)  flags: '>' step, '{' scope,
// c0..c4 call without argument / with string / number / reference / structure.
struct GAlt {std::string rhs; int scope = 0; /*1 step 2 scope*/ int call = -1;};
struct GSpec
{
	std::string nts, terms;				// characters, index in terms + 1 is the terminal
	struct P {int nt; std::string prio; GAlt alt;};
	std::vector<P> prods;
	lr::Grammar g;
	bool hasCalls = false;
};
static bool isTok( char c) {return c >= 'u' && c <= 'z';}

static GSpec parseSpec( const std::string& text)
{
	GSpec s;
	for (auto& rule : mc::split( text, ';')) if (!rule.empty())
	{
		std::size_t eq = rule.find( '='); char nt = rule[0];
		std::string prio = eq > 1 ? rule.substr( 2, eq-2) : "";
		if (s.nts.find( nt) == std::string::npos) s.nts.push_back( nt);
		for (auto& a : mc::split( rule.substr( eq+1), '|'))
		{
			GAlt alt; std::size_t b = a.find( '(');
			alt.rhs = a.substr( 0, b);
			if (b != std::string::npos) for (std::size_t i=b+1; i<a.size(); ++i)
			{
				if (a[i] == '>') alt.scope = 1; else if (a[i] == '{') alt.scope = 2; else if (a[i] == 'c') {alt.call = a[i+1]-'0'; s.hasCalls = true;}
			}
			s.prods.push_back( {(int)s.nts.find( nt), prio, alt});
		}
	}
	for (auto& p : s.prods) for (char c : p.alt.rhs) if (s.nts.find( c) == std::string::npos && s.terms.find( c) == std::string::npos) s.terms.push_back( c);
	s.g.nofNt = s.nts.size(); s.g.nofTerm = s.terms.size();
	for (auto& p : s.prods)
	{
		lr::Prod q; q.lhs = p.nt;
		for (char c : p.alt.rhs)
		{
			std::size_t n = s.nts.find( c);
			if (n != std::string::npos) q.rhs.push_back( {false,(int)n}); else q.rhs.push_back( {true,(int)s.terms.find( c)+1});
		}
		if (!p.prio.empty())
		{
			std::string d;
			for (char c : p.prio) if (c == 'L') q.prio.assoc = lr::Left; else if (c == 'R') q.prio.assoc = lr::Right; else d.push_back( c);
			q.prio.value = atoi( d.c_str());
		}
		s.g.prods.push_back( q);
	}
	return s;
}

// call attached to production p: kind 0 none, 1 string, 2 number, 3 reference, 4 structure
static std::string callFn( int p) {return fmt( "f%d", p);}
static std::string callArg( int p, int kind)
{
	switch (kind) {case 1: return fmt( "s%d", p); case 2: return fmt( "%d", 10+p); case 3: return fmt( "ref.r%d", p); case 4: return fmt( "{a=%d,b=\"t%d\"}", p, p);}
	return "";
}
static std::string callText( int p, int kind)
{
	std::string a = callArg( p, kind);
	if (kind == 1) a = "\"" + a + "\"";
	return a.empty() ? callFn( p) : callFn( p) + " " + a;
}
/// what the callback sees as second argument, printed
static std::string callObj( int p, int kind)
{
	switch (kind) {case 1: return fmt( "s%d", p); case 2: return fmt( "%d", 10+p); case 3: return fmt( "REF%d", p); case 4: return fmt( "{%d,t%d}", p, p);}
	return "-";
}
static std::string toMewa( const GSpec& s, bool allCalls)
{
	std::string rt = "% LANGUAGE t;\n% TYPESYSTEM ts;\n";
	for (char c : s.terms) if (isTok( c)) rt += fmt( "T%c : \"%c\";\n", c, c);
	int pi = 0; int last = -1; std::string lastprio;
	for (auto& p : s.prods)
	{
		if (p.nt == last && p.prio == lastprio) rt += " | ";
		else
		{
			if (last >= 0) rt += ";\n";
			rt += s.nts[ p.nt]; if (!p.prio.empty()) rt += "/" + p.prio;
			rt += " = "; last = p.nt; lastprio = p.prio;
		}
		for (char c : p.alt.rhs)
		{
			if (s.nts.find( c) != std::string::npos) rt += fmt( "%c ", c);
			else if (isTok( c)) rt += fmt( "T%c ", c);
			else rt += fmt( "\"%c\" ", c);
		}
		if (p.alt.rhs.empty() && pi % 2 == 0) rt += "ε ";
		int call = allCalls ? 1 : p.alt.call;
		if (p.alt.scope || call >= 0) rt += std::string("(") + (p.alt.scope == 1 ? ">> " : p.alt.scope == 2 ? "{} " : "") + (call >= 0 ? callText( pi, call) : std::string()) + ")";
		++pi;
	}
	return rt + ";\n";
}

// ---------------------------------------------------------------- the real parser
static lh::Host& chost() {return lh::host( 64, 600);}

static const char* RUNTIME = R"LUA(
-- typesystem with functions f0..fN recording what they are called with
local src, withopt = ...
local out = {}
local deep = false
local typesystem = {ref = {}}
local buf
local function serTo( node)
	if not node.call then
		local nk = 0; for k in pairs( node) do nk = nk + 1 end
		buf[ #buf+1] = "T:" .. node.name .. "=" .. node.value .. "@" .. node.line .. (nk == 3 and "" or "#" .. nk)
		return
	end
	local rt = "[" .. node.call.name .. "@" .. node.line
	if node.scope then rt = rt .. "{" .. node.scope[1] .. "," .. node.scope[2] .. "}" end
	if node.step then rt = rt .. ">" .. node.step end
	local n = 0; for k in pairs( node.arg) do n = n + 1 end
	if n ~= #node.arg then rt = rt .. "BADARG" end
	buf[ #buf+1] = rt
	for i,a in ipairs( node.arg) do buf[ #buf+1] = " "; serTo( a) end
	buf[ #buf+1] = "]"
end
local function ser( node) buf = {}; serTo( node); return table.concat( buf) end
local function objstr( obj)
	if obj == nil then return "-" end
	if type( obj) == "table" then
		if obj.isref then return "REF" .. obj.isref end
		local nk = 0; for k in pairs( obj) do nk = nk + 1 end
		if nk ~= 2 then return "BADOBJ" end
		return "{" .. obj.a .. "," .. obj.b .. "}"
	end
	return tostring( obj)
end
for i = 0,99 do
	typesystem.ref[ "r" .. i] = {isref = i}
	typesystem[ "f" .. i] = function( ...)
		local nargs = select( "#", ...); local node, a2, a3 = ...
		local obj, opt
		-- the options come last and are only passed if given, the argument object only if the call has one
		if nargs == 3 then obj = a2; opt = a3
		elseif nargs == 2 then if type(a2) == "table" and a2.isoptions then opt = a2 else obj = a2 end end
		if deep then
			-- count nodes and leaves without recursion
			local stk, nodes, leafs = {node}, 0, 0
			while #stk > 0 do
				local n = stk[ #stk]; stk[ #stk] = nil
				if n.call then nodes = nodes + 1; for _,a in ipairs( n.arg) do stk[ #stk+1] = a end else leafs = leafs + 1 end
			end
			out[ #out+1] = "nodes " .. nodes .. " leafs " .. leafs
			return
		end
		local line = "CALL " .. i .. " obj " .. objstr( obj) .. " opt " .. (opt and (opt.isoptions or "BAD") or "-") .. " n " .. nargs .. " " .. ser( node) 
		line = line .. (node.call.proc == typesystem[ "f" .. i] and "" or " BADPROC") .. (node.call.obj == obj and "" or " BADNODEOBJ")
		out[ #out+1] = line
	end
end
local chunk = assert( (loadstring or load)( "local mewa, typesystem = ...; return mewa.compiler( " .. src .. ")", "=gen"))
local compiler = chunk( mewa, typesystem)
return function( input, opt, isdeep)
	out = {}; deep = isdeep
	local o = opt and {isoptions = "O"} or nil
	local ok, err = pcall( compiler.run, compiler, nil, o, input, "/dev/null")
	return ok and "ok" or "err", ok and "" or tostring( err), table.concat( out, "\n")
end
)LUA";

class Parser
{
	lh::Host& h; int ref;
public:
	explicit Parser( lh::Host& h_, const std::string& table) :h(h_),ref(LUA_NOREF)
	{
		lua_State* L = h.L;
		if (luaL_loadbuffer( L, RUNTIME, strlen(RUNTIME), "=runtime")) throw mc::Failure( std::string( "runtime: ") + lua_tostring( L, -1));
		lua_pushlstring( L, table.data(), table.size());
		if (lua_pcall( L, 1, 1, 0))
		{
			std::string m = lua_tostring( L, -1) ? lua_tostring( L, -1) : "?"; lua_pop( L, 1);
			throw mc::Failure( "the generated table cannot be loaded: " + m + "\n" + table);
		}
		ref = luaL_ref( L, LUA_REGISTRYINDEX);
	}
	~Parser() {luaL_unref( h.L, LUA_REGISTRYINDEX, ref);}
	struct R {bool ok; std::string err, calls;};
	R run( const std::string& file, bool opt, bool deep=false)
	{
		lua_State* L = h.L;
		lua_rawgeti( L, LUA_REGISTRYINDEX, ref); lua_pushlstring( L, file.data(), file.size()); lua_pushboolean( L, opt); lua_pushboolean( L, deep);
		if (lua_pcall( L, 3, 3, 0)) {std::string m = lua_tostring( L, -1) ? lua_tostring( L, -1) : "?"; lua_pop( L, 1); throw mc::Failure( "run failed: " + m);}
		R r; size_t n; const char* p;
		r.ok = std::string( lua_tostring( L, -3)) == "ok";
		p = lua_tolstring( L, -2, &n); r.err.assign( p, n); p = lua_tolstring( L, -1, &n); r.calls.assign( p, n);
		lua_pop( L, 3);
		return r;
	}
};

/// input files are written once and shared by all cases of a worker
static std::string inputFile( const std::string& content)
{
	static std::map<std::string,std::string> files;
	auto f = files.find( content);
	if (f != files.end()) return f->second;
	if (files.size() > 20000) {for (auto& e : files) unlink( e.second.c_str()); files.clear();}
	std::string fn = fmt( "%s/i%d.src", mc::scratch().c_str(), (int)files.size());
	mkdir( mc::scratch().c_str(), 0700);
	FILE* fh = fopen( fn.c_str(), "wb"); if (!fh) throw std::runtime_error( "cannot write " + fn);
	fwrite( content.data(), 1, content.size(), fh); fclose( fh);
	files[ content] = fn;
	return fn;
}

struct Built {bool refused = false; std::string why; std::vector<std::string> warnings; mewa::Automaton atm;};
static std::unique_ptr<Built> buildReal( const std::string& source)
{
	auto b = std::make_unique<Built>();
	std::vector<mewa::Error> warnings;
	try {b->atm.build( source, warnings);}
	catch (const mewa::Error& e) {b->refused = true; b->why = e.what();}
	for (auto& w : warnings) b->warnings.push_back( w.what());
	return b;
}
static std::string unquote( const std::string& s)
{
	if (s.size() >= 2 && (s[0] == '"' || s[0] == '\'') && s.back() == s[0]) return s.substr( 1, s.size()-2);
	return s;
}
static std::string termName( const GSpec& s, int t) {if (!t) return "$"; char c = s.terms[ t-1]; return isTok( c) ? fmt( "T%c", c) : std::string( 1, c);}

// ---------------------------------------------------------------- reference AST
struct AstOut {std::string text; std::string nodes; };
struct Ev
{
	const GSpec& s; const std::vector<int>& in; const std::vector<int>& lines; bool allCalls; bool stepAlways; int step = 0; int lastTokLine = 0; std::size_t pos = 0;
	struct N {std::string text; int prod = -1; int tok = -1;};
	Ev( const GSpec& s_, const std::vector<int>& in_, const std::vector<int>& l_, bool ac, bool sa) :s(s_),in(in_),lines(l_),allCalls(ac),stepAlways(sa){}
	std::vector<N> eval( const lr::Tree& t)
	{
		std::vector<N> rt;
		if (t.prod < 0)
		{
			char c = s.terms[ in[ t.tok]-1]; pos = t.tok+1;
			if (isTok( c)) {lastTokLine = lines[ t.tok]; rt.push_back( {fmt( "T:T%c=%c@%d", c, c, lines[ t.tok]), -1, t.tok});}
			return rt;
		}
		int start = step;
		for (auto& sub : t.sub) {auto e = eval( sub); if (rt.empty()) rt.swap( e); else for (auto& n : e) rt.push_back( std::move( n));}
		auto const& alt = s.prods[ t.prod].alt;
		int call = allCalls ? 1 : alt.call;
		if (alt.scope && (call >= 0 || stepAlways)) ++step;
		if (call < 0) return rt;
		// the line of a function node is checked as range: last token before and the lookahead
		int la = pos < in.size() ? lines[ pos] : lines[ in.size()];
		std::string x = fmt( "[%s@<%d:%d>", (callFn( t.prod) + (callArg( t.prod, call).empty() ? "" : " " + callArg( t.prod, call))).c_str(), lastTokLine, la);
		if (alt.scope == 2) x += fmt( "{%d,%d}", start, step); else x += fmt( ">%d", step);
		for (auto& n : rt) x += " " + n.text;
		rt.clear(); rt.push_back( {x + "]", t.prod, -1});
		return rt;
	}
};
/// compare texts where the expected one has ranges <lo:hi> for numbers
static bool matchRanges( const std::string& got, const std::string& exp)
{
	std::size_t i = 0, k = 0;
	while (k < exp.size())
	{
		if (exp[k] == '<')
		{
			char* q; long lo = strtol( exp.c_str()+k+1, &q, 10), hi; if (*q != ':') return false;
			hi = strtol( q+1, &q, 10); if (*q != '>') return false;
			k = q+1 - exp.c_str(); char* e; long v = strtol( got.c_str()+i, &e, 10);
			if (e == got.c_str()+i || v < lo || v > hi) return false;
			i = e - got.c_str(); continue;
		}
		if (i >= got.size() || got[i] != exp[k]) return false;
		++i; ++k;
	}
	return i == got.size();
}

static void checkAccepted( const GSpec& s, const lr::Tree& tree, const std::vector<int>& in, const std::vector<int>& lines, bool allCalls, bool opt,
			   const Parser::R& r, const std::string& what, Ctx& ctx)
{
	std::string exp; bool err = false; std::string errTok;
	for (int variant=0; variant<2; ++variant)
	{
		// variant 1: model of the defect that a step on a production without function has no effect
		Ev ev( s, in, lines, allCalls, variant == 0);
		auto roots = ev.eval( tree);
		exp.clear(); err = false;
		if (allCalls || s.hasCalls) for (auto& n : roots)
		{
			if (n.prod < 0) {err = true; errTok = n.text; break;}
			int call = allCalls ? 1 : s.prods[ n.prod].alt.call;
			std::string ob = callObj( n.prod, call);
			if (!exp.empty()) exp += "\n";
			exp += fmt( "CALL %d obj %s opt %s n %d ", n.prod, ob.c_str(), opt ? "O" : "-", 1 + (ob != "-") + opt) + n.text;
		}
		bool ok = matchRanges( r.calls, exp);
		if (ok && variant == 1) ctx.finding( "step-without-function", what + ": the scope-step of productions marked without a function is not incremented");
		if (ok) break;
		static thread_local std::string first; if (variant == 0) first = exp;
		if (variant == 1) ctx.fail( what + ": AST functions called with\n  " + r.calls + "\nexpected\n  " + first);
	}
	if (err)
	{
		ctx.check( !r.ok && r.err.find( "#586") != std::string::npos, what + ": a lexem left as root of the AST is reported as error, got " + (r.ok ? "no error" : r.err));
		std::size_t eq = errTok.find( '='), at = errTok.find( '@');
		std::string nm = errTok.substr( 2, eq-2) + " = " + errTok.substr( eq+1, at-eq-1);
		ctx.check( r.err.find( nm) != std::string::npos, what + ": error names the lexem " + nm + ", got " + r.err);
	}
	else ctx.check( r.ok, what + ": accepted by the grammar, but the parser reports " + r.err);
}

/// coarse: model of the two defects in the calculation of lookaheads; given if the list of expected tokens is to be checked
static void checkSyntaxError( const GSpec& s, const lr::Lalr& ref, const lr::Lalr* coarse, const lr::Lalr::Result& rr, const std::vector<int>& in, const std::vector<int>& lines,
			      const Parser::R& r, const std::string& what, Ctx& ctx)
{
	ctx.check( !r.ok, what + ": not in the language, but accepted");
	ctx.check( r.calls.empty(), what + ": AST functions were called for an input refused: " + r.calls);
	ctx.check( r.err.find( "#601") != std::string::npos, what + ": expected syntax error #601, got " + r.err);
	std::size_t lp = r.err.find( " at line ");
	ctx.check( lp != std::string::npos, what + ": no line in " + r.err);
	int line = atoi( r.err.c_str() + lp + 9);
	int explLine = lines[ rr.errpos];
	ctx.check( line == explLine, what + fmt( ": error at line %d expected at line %d: ", line, explLine) + r.err);
	std::size_t b = r.err.find( " { ", lp), e = r.err.rfind( " }");
	ctx.check( b != std::string::npos && e != std::string::npos, what + ": no list of expected tokens in " + r.err);
	std::string list = r.err.substr( b+3, e > b+3 ? e-b-3 : 0);
	std::size_t c = r.err.rfind( ": ", b);
	std::string tok = r.err.substr( c+2, b-c-2);
	std::string exptok;
	int t = rr.errpos < in.size() ? in[ rr.errpos] : 0;
	if (!t) exptok = "$"; else exptok = termName( s, t);
	std::string got = tok; bool val = false;
	std::size_t eq = tok.find( " = \""); if (t && isTok( s.terms[t-1]) && eq != std::string::npos) {got = tok.substr( 0, eq); val = tok.substr( eq) == fmt( " = \"%c\"", s.terms[t-1]);} else val = !(t && isTok( s.terms[t-1]));
	ctx.check( unquote( got) == exptok && val, what + ": error names token " + tok + ", expected " + exptok);
	lr::Mask m = 0;
	if (!list.empty()) for (auto& x : mc::split( list, ','))
	{
		std::string y = x; while (!y.empty() && y[0] == ' ') y.erase( 0, 1);
		y = unquote( y); bool found = false;
		for (int k=0; k<=s.g.nofTerm; ++k) if (termName( s, k) == y) {m |= (lr::Mask)1 << k; found = true;}
		ctx.check( found, what + ": unknown token '" + y + "' listed in " + r.err);
	}
	if (!coarse) return;
	// the list: every token that can continue a sentence at the state where the error is detected, nothing the table does not have there
	auto listOk = [&]( const lr::Lalr& a, const lr::Lalr::Result& rs, std::string& why)
	{
		lr::Mask viable = 0;
		for (int k=0; k<=s.g.nofTerm; ++k) if (rs.row & ((lr::Mask)1 << k))
		{
			std::vector<int> in2( in.begin(), in.begin() + rs.errpos);
			if (k) in2.push_back( k);
			auto r2 = a.parse( in2);
			if (k ? (r2.accepted || r2.errpos > rs.errpos) : r2.accepted) viable |= (lr::Mask)1 << k;
		}
		if (m & ~rs.row) {why = fmt( ": tokens listed as expected %llx that cannot follow (%llx) in ", (unsigned long long)m, (unsigned long long)rs.row); return false;}
		if (viable & ~m) {why = fmt( ": tokens that can follow (%llx) missing in the list (%llx) of ", (unsigned long long)viable, (unsigned long long)m); return false;}
		return true;
	};
	std::string why, w2;
	if (listOk( ref, rr, why)) return;
	auto rc = coarse->parse( in);
	if (!rc.accepted && rc.errpos == rr.errpos && m == rc.row) ctx.finding( "list-at-inexact-state", what + why + r.err);
	else ctx.fail( what + why + r.err);
}

static std::string climb( const GSpec& s, const std::vector<int>& in, std::size_t& i, int minval);
static std::string treeText( const GSpec& s, const lr::Tree& t);
// ---------------------------------------------------------------- cases  spec#maxlen#flags
// flags: L language+AST+errors on all inputs, E errors only, X lists of expected tokens, S count derivations, W conflicts only, C calls as in the spec (otherwise every production has one), O options
struct GCase {GSpec s; int maxlen; std::string flags;};
static GCase parseCase( const std::string& t)
{
	auto f = mc::split( t, '#');
	if (f.size() < 3) throw std::runtime_error( "bad case " + t);
	return {parseSpec( f[0]), atoi( f[1].c_str()), f[2]};
}

static void runInputs( const GSpec& s, const lr::Lalr& ref, const lr::Lalr* coarse, Parser& parser, int maxlen, bool allCalls, bool opt, bool spans, bool onlyErrors, bool climbs, Ctx& ctx)
{
	// all inputs up to maxlen; inputs that fail at a position are extended by one token only (nothing new is to be seen there)
	std::vector<std::vector<int>> level = {{}};
	for (int n=0; n<=maxlen; ++n)
	{
		std::vector<std::vector<int>> next;
		for (auto& in : level)
		{
			auto rr = ref.parse( in);
			if (rr.looped) throw std::runtime_error( "reference parser loops");
			if (spans)
			{
				lr::Spans sp( s.g, in); int cnt = sp.count();
				if (cnt != (int)rr.accepted) throw std::runtime_error( fmt( "reference parser disagrees with derivation: %d trees, accepted %d", cnt, (int)rr.accepted));
			}
			// one token per line, every third input on one line
			std::string src; std::vector<int> lines; int ln = 1; bool multi = in.size() % 3 != 2 || (in.size() && in[0] % 2);
			for (std::size_t i=0; i<in.size(); ++i)
			{
				lines.push_back( ln); src.push_back( s.terms[ in[i]-1]);
				if (multi && i+1 < in.size()) {src.push_back( '\n'); ++ln; if (i == 1) {src.push_back( '\n'); ++ln;}}
			}
			if (in.size() > 2) {src += "\n"; ++ln;}
			lines.push_back( ln);
			if (climbs && rr.accepted)
			{
				std::size_t i = 0; std::string exp = climb( s, in, i, 0), got = treeText( s, rr.tree);
				if (exp != got) throw std::runtime_error( "reference tables disagree with precedence climbing: " + got + " " + exp);
				ctx.count( "trees_equal_to_precedence_climbing");
			}
			if (!onlyErrors || !rr.accepted)
			{
				auto r = parser.run( inputFile( src), opt);
				ctx.trace(); ctx.transition( in.size()+1);
				std::string what = "input '" + mc::enc( src) + "'";
				if (rr.accepted) checkAccepted( s, rr.tree, in, lines, allCalls, opt, r, what, ctx);
				else checkSyntaxError( s, ref, coarse, rr, in, lines, r, what, ctx);
				ctx.count( rr.accepted ? "inputs_accepted" : "inputs_refused");
			}
			if (rr.accepted || rr.errpos >= in.size())
			{
				if (n < maxlen) for (int t=1; t<=s.g.nofTerm; ++t) {auto x = in; x.push_back( t); next.push_back( x);}
			}
			else if (rr.errpos + 1 == in.size() && n < maxlen) {auto x = in; x.push_back( 1 + n % s.g.nofTerm); next.push_back( x);}
		}
		level.swap( next);
		mc::alive();
	}
}

/// unexpected token with a long value or a special one
static void runValue( const std::string& text, Ctx& ctx)
{
	// V#<kind>#<hex or length>:  kind i identifier, s string, w word of a keyword
	auto f = mc::split( text, '#'); ctx.state( text);
	std::string v = f[1] == "s" ? mc::unhex( f[2]) : std::string(), expr, in;
	if (f[1] != "s") for (int i=0; i<atoi( f[2].c_str()); ++i) v.push_back( "abcdefghij"[i % 10]);
	std::string kw = f[1] == "w" ? v : "if";
	auto b = buildReal( "% LANGUAGE t;\n% TYPESYSTEM ts;\nIDENT : '[A-Za-z_]+';\nSTR : '[\"](([^\\\\\"]|[\\\\].)*)[\"]' 1;\nS = L (f0);\nL = L \"x\" | L \"y\" T | ;\nT = IDENT | STR | \"" + kw + "\";\n");
	if (b->refused) ctx.fail( "grammar refused: " + b->why);
	Parser p( chost(), b->atm.tostring());
	std::string tok = f[1] == "i" ? "IDENT = \"" + v + "\"" : f[1] == "s" ? "STR = \"" + v + "\"" : "\"" + v + "\"";
	std::string src = f[1] == "s" ? "\"" + v + "\"" : v;
	for (auto pre : {"","x\n","x x\n\n x "})
	{
		auto r = p.run( inputFile( pre + src), false); ctx.trace(); ctx.transition( 2);
		ctx.check( !r.ok && r.err.find( "#601 ") == 0, "expected syntax error, got " + r.err);
		std::size_t at = r.err.find( ": "); std::string arg = at == std::string::npos ? "" : r.err.substr( at+2), exp;
		// arguments of errors are limited to 511 bytes
		bool ok = false;
		for (char q : {'"','\''})
		{
		for (char q2 : {'"','\''})
		{
		std::string tk = f[1] == "w" ? q2 + v + q2 : tok;
		V set = {"$", fmt( "%cx%c", q, q), fmt( "%cy%c", q, q)}; std::sort( set.begin(), set.end());
		do {exp = tk + " { " + set[0] + ", " + set[1] + ", " + set[2] + " }"; ok = arg == exp || (exp.size() > 511 && arg.size() == 511 && exp.compare( 0, 511, arg) == 0);}
		while (!ok && std::next_permutation( set.begin(), set.end()));
		if (ok) break;
		}
		if (ok) break;
		}
		if (!ok) ctx.fail( "error names " + arg + ", expected " + exp);
	}
}

/// run a function on a thread with a stack for deep recursion
static void bigStack( const std::function<void()>& f)
{
	struct A {const std::function<void()>& f; std::exception_ptr e;} a = {f,nullptr};
	pthread_attr_t at; pthread_attr_init( &at); pthread_attr_setstacksize( &at, (std::size_t)512 << 20); pthread_t th;
	if (pthread_create( &th, &at, [](void* p)->void* {A* x = (A*)p; try {x->f();} catch (...) {x->e = std::current_exception();} return nullptr;}, &a)) throw std::runtime_error( "no thread");
	pthread_join( th, nullptr); pthread_attr_destroy( &at);
	if (a.e) std::rethrow_exception( a.e);
}

static void runGrammar( const std::string& text, Ctx& ctx)
{
	if (text[0] == 'V' && text[1] == '#') {runValue( text, ctx); return;}
	auto c = parseCase( text);
	bool all = c.flags.find( 'C') == std::string::npos;
	lr::Lalr ref( c.s.g);
	std::string src = toMewa( c.s, all);
	if (ctx.verbose) printf( "%s\nreference: %d conflicts %s\n", src.c_str(), (int)ref.conflicts.size(), mc::join( ref.conflicts, ", ").c_str());
	auto b = buildReal( src);
	ctx.state( text); ctx.transition( ref.states.size());
	if (b->refused) ctx.fail( "grammar refused: " + b->why + "\n" + src);
	bool W = c.flags.find( 'W') != std::string::npos;
	if (W)
	{
		ctx.trace();
		ctx.count( ref.conflicts.empty() ? (ref.settled ? "grammars_settled_by_priority" : "grammars_conflict_free") : "grammars_with_conflict");
		if (ref.conflicts.empty() && !b->warnings.empty())
		{
			// two defects on record, each with a model: F-first, F-mixed
			std::string msg = "conflict reported for a grammar that is LALR(1): " + mc::join( b->warnings, "; ");
			if (!lr::Lalr( c.s.g, true, false).conflicts.empty()) {ctx.finding( "first-of-empty", msg); return;}
			if (!lr::Lalr( c.s.g, true, true).conflicts.empty()) {ctx.finding( "mixed-follow", msg); return;}
		}
		if (ref.conflicts.empty() && !b->warnings.empty()) ctx.fail( "conflict reported for a grammar that is LALR(1)" + std::string( ref.settled ? " with priorities" : "") + ": " + mc::join( b->warnings, "; ") + "\n" + src);
		if (!ref.conflicts.empty() && b->warnings.empty()) ctx.fail( "no conflict reported, but the grammar has: " + mc::join( ref.conflicts, ", ") + "\n" + src);
	}
	if (c.flags.find( 'L') != std::string::npos || c.flags.find( 'E') != std::string::npos || c.flags.find( 'D') != std::string::npos)
	{
		if (!ref.conflicts.empty()) {ctx.count( "grammars_with_conflict_skipped"); return;}
		if (!b->warnings.empty()) {ctx.count( "grammars_refused_skipped"); return;}	// subject of G02
		Parser p( chost(), b->atm.tostring());
		ctx.count( "grammars_run");
		std::size_t dp = c.flags.find( 'D');
		if (dp != std::string::npos)
		{
			// D<prefix>.<n>.<suffix>.<m>: deep input, prefix repeated n times, suffix m times; only counts are checked
			auto f = mc::split( c.flags.substr( dp+1), '.');
			std::string in; int n = atoi( f[1].c_str()), m = atoi( f[3].c_str());
			for (int i=0; i<n; ++i) in += f[0];
			for (int i=0; i<m; ++i) in += f[2];
			std::string fn = mc::scratch() + "/deep.src"; FILE* fh = fopen( fn.c_str(), "wb"); fwrite( in.data(), 1, in.size(), fh); fclose( fh);
			auto r = p.run( fn, false, true); unlink( fn.c_str());
			std::vector<int> seq; for (char ch : in) seq.push_back( c.s.terms.find( ch)+1);
			auto rr = ref.parse( seq, 100000000, true);
			ctx.trace(); ctx.transition( seq.size());
			std::size_t leafs = 0; for (char ch : in) leafs += isTok( ch);
			if (f.size() > 4 && f[4] == "E") ctx.check( r.ok || r.err.find( "#595") != std::string::npos, "input exceeding the limit of the Lua stack is refused with an error, got " + r.err);
			else
			{
				if (rr.accepted != r.ok) ctx.fail( fmt( "deep input: accepted by the reference %d, by the parser %d: ", (int)rr.accepted, (int)r.ok) + r.err);
				int nodes = 0; for (auto& x : rr.reductions) nodes += all || c.s.prods[ x.first].alt.call >= 0;
				if (rr.accepted) ctx.check( r.calls == fmt( "nodes %d leafs %d", nodes, (int)leafs), "deep input: tree has " + r.calls + fmt( " expected nodes %d leafs %d", nodes, (int)leafs));
			}
			return;
		}
		std::size_t fp = c.flags.find( 'F');
		if (fp != std::string::npos)
		{
			// F<prefix>.<n>.<suffix>.<m>: long input, prefix repeated n times, suffix m times; everything is checked
			auto f = mc::split( c.flags.substr( fp+1), '.');
			std::string str; std::vector<int> seq, lines; int ln = 1; std::string src; bool opt = atoi( f[1].c_str()) & 1;
			for (int i=0; i<atoi( f[1].c_str()); ++i) str += f[0];
			for (int i=0; i<atoi( f[3].c_str()); ++i) str += f[2];
			for (std::size_t i=0; i<str.size(); ++i)
			{
				seq.push_back( c.s.terms.find( str[i])+1); lines.push_back( ln); src += str[i];
				src += '\n'; ++ln; if (i % 3 == 1) {src += "\n"; ++ln;}
			}
			lines.push_back( ln);
			std::string fn = mc::scratch() + "/deep.src"; FILE* fh = fopen( fn.c_str(), "wb"); fwrite( src.data(), 1, src.size(), fh); fclose( fh);
			auto r = p.run( fn, opt); unlink( fn.c_str());
			ctx.trace(); ctx.transition( seq.size());
			bigStack( [&]
			{
				auto rr = ref.parse( seq, 100000000);
				try
				{
					if (rr.accepted) checkAccepted( c.s, rr.tree, seq, lines, all, opt, r, "long input", ctx);
					else checkSyntaxError( c.s, ref, nullptr, rr, seq, lines, r, "long input", ctx);
				}
				catch (const mc::Failure& e) {std::string m = e.what(); if (m.size() > 3000) m = m.substr( 0, 1500) + " ... " + m.substr( m.size()-1500); throw mc::Failure( m);}
			});
			return;
		}
		std::unique_ptr<lr::Lalr> coarse; if (c.flags.find( 'X') != std::string::npos) coarse = std::make_unique<lr::Lalr>( c.s.g, true, true);
		runInputs( c.s, ref, coarse.get(), p, c.maxlen, all, c.flags.find( 'O') != std::string::npos, c.flags.find( 'S') != std::string::npos && ref.rawConflicts == 0, c.flags[0] == 'E', c.flags.find( 'P') != std::string::npos, ctx);
	}
}

// ---------------------------------------------------------------- enumeration of grammars
static V allSeqs( const std::string& syms, int maxlen)
{
	V rt = {""}; std::size_t from = 0;
	for (int n=1; n<=maxlen; ++n)
	{
		std::size_t to = rt.size();
		for (std::size_t i=from; i<to; ++i) for (char c : syms) rt.push_back( rt[i] + c);
		from = to;
	}
	return rt;
}
/// all sets of 1..maxn alternatives, joined
static V altSets( const V& alts, int maxn)
{
	V rt;
	for (std::size_t i=0; i<alts.size(); ++i)
	{
		rt.push_back( alts[i]);
		if (maxn > 1) for (std::size_t k=i+1; k<alts.size(); ++k)
		{
			rt.push_back( alts[i] + "|" + alts[k]);
			if (maxn > 2) for (std::size_t l=k+1; l<alts.size(); ++l) rt.push_back( alts[i] + "|" + alts[k] + "|" + alts[l]);
		}
	}
	return rt;
}
static bool has( const std::string& s, char c) {return s.find( c) != std::string::npos;}
static bool selfOnly( const std::string& alts, char nt)
{
	// a production X = X is a cycle (always a conflict): keep a few only
	for (auto& a : mc::split( alts, '|')) if (a == std::string( 1, nt)) return true;
	return false;
}

/// every nonterminal derives some sentence
static bool productive( const std::string& spec)
{
	std::string ok; bool ch = true; std::size_t total = 0;
	auto rules = mc::split( spec, ';');
	while (ch)
	{
		ch = false; total = 0;
		for (auto& r : rules) if (!r.empty())
		{
			++total;
			if (ok.find( r[0]) != std::string::npos) continue;
			for (auto& a : mc::split( r.substr( r.find( '=')+1), '|'))
			{
				bool all = true;
				for (char c : a) {if (c == '(') break; if (isupper( (unsigned char)c) && ok.find( c) == std::string::npos) all = false;}
				if (all) {ok.push_back( r[0]); ch = true; break;}
			}
		}
	}
	return ok.size() == total;
}
/// calls fn with every grammar of the family (level 0 small, 1 quick, 2 thorough)
static void grammars( int level, const std::function<void( const std::string&)>& fn_)
{
	auto fn = [&]( const std::string& g){if (productive( g)) fn_( g);};
	// F1: one nonterminal besides the start symbol, longer right sides
	{
		V s; for (auto& a : allSeqs( "xaA", 3)) if (has( a, 'A') && a.size() <= (level > 0 ? 3u : 2u)) s.push_back( a);
		V a = altSets( allSeqs( "xaA", 2), level > 1 ? 3 : 2);
		for (auto& q : s) for (auto& p : a) fn( "S=" + q + ";A=" + p + ";");
		V a3 = altSets( allSeqs( "xaA", 3), level > 2 ? 3 : 2);
		for (auto q : {"A","Aa"}) for (auto& p : a3) fn( std::string("S=") + q + ";A=" + p + ";");
	}
	// F2: two nonterminals
	{
		V alts = allSeqs( "xaAB", 2), sets = altSets( alts, 2), setsB = altSets( allSeqs( "xaAB", level > 0 ? 2 : 1), level > 1 ? 2 : 1);
		if (level > 2) sets = altSets( allSeqs( "xaAB", 2), 3);
		V small = altSets( V{"","x","a","Bx","xB","aA","A","BB"}, 2);
		for (auto q : level > 0 ? V{"A","Ax"} : V{"A"}) for (auto& p : sets) if (has( p, 'B') && !selfOnly( p, 'A'))
			for (auto& b : (level > 1 ? setsB : small)) if (!selfOnly( b, 'B')) fn( "S=" + q + ";A=" + p + ";B=" + b + ";");
		if (level > 0) for (auto q : {"AB","AxB","ABx","xAaB","AA"}) for (auto& p : altSets( V{"","x","a","xA","Ax","AB","B","aB"}, 2))
			for (auto& b : small) if ((has( q, 'B') || has( p, 'B')) && !selfOnly( p, 'A') && !selfOnly( b, 'B')) fn( std::string("S=") + q + ";A=" + p + ";B=" + b + ";");
	}
	// F3: contexts: LR(1) but not LALR(1), lookaheads that differ by context
	{
		V alts; for (auto p : {"","x","y"}) for (auto n : {"A","B"}) for (auto q : {"","a","b"}) alts.push_back( std::string(p)+n+q);
		V s = altSets( alts, level > 1 ? 3 : 2), ab = {"c","","xA","Ac","c|", "c|Ac"}, bb = {"c","","xB","Bc","A"};
		for (auto& t : s) if (has( t, 'A') && has( t, 'B')) for (auto& a : ab) for (auto& b : bb) fn( "S=T;T=" + t + ";A=" + a + ";B=" + b + ";");
		for (auto& t : V{"xAa|yBa|xBb|yAb","xAa|xBb|yBa","xAa|yAb|xBb","xAa|xBb|yAb|yBa|A","xAa|yBb|xBb|yAa"}) for (auto& a : ab) for (auto& b : bb) fn( "S=T;T=" + t + ";A=" + a + ";B=" + b + ";");
	}
	// F4: the left side of a kernel item occurs again in the closure with another lookahead
	{
		V as = {"xBc","xBcx","Bc","xB","xBx"}, cs = {"xDy","xD","xDxy","D","xDc"}, bs = {"Ay|z","Ac|z","A|z","Ay|zA","CyA|z"}, ds = {"B","Bx","yB","B|y","yA","BB"};
		for (auto t : {"A|C","A|Cx","xA|C","A|xC|y"}) for (auto& a : as) for (auto& cc : cs) for (auto& b : bs) for (auto& d : ds)
			fn( std::string("S=T;T=") + t + ";A=" + a + ";C=" + cc + ";B=" + b + ";D=" + d + ";");
	}
	// F5: chains of nonterminals that can be empty
	{
		V bs = {"|b","|x","b","|bB","B b|"}, cs = {"|c","|x","c","|cC"}, as = {"BC","BCB","BCx","xBC","CB|x","B|C","BxC","BC|xA","ABx|"};
		for (auto& a : as) for (auto& b : bs) for (auto& cc : cs) for (auto q : {"A","Ax","LA","AL","xAy"}) for (auto l : {"","|lL","Ll|l"})
		{
			bool useL = has( q, 'L'); if (!useL && *l) continue;
			std::string bb; for (char ch : b) if (ch != ' ') bb.push_back( ch);
			std::string g = std::string("S=") + q + ";A=" + a + ";B=" + bb + ";" + (has( a, 'C') ? "C=" + cc + ";" : "") + (useL ? std::string("L=") + l + ";" : "");
			fn( g);
		}
	}
	// F7: rows of nonterminals that can be empty, seen from the end of a reduction before them
	{
		V ns = {"|n","n",""}, rows = allSeqs( "NMK", level > 1 ? 4 : 3);
		for (auto& row : rows) if (row.size() >= 2 && row[0] == 'N' && (has( row, 'M') || row == "NN"))
			for (auto& n : ns) for (auto& m : V{"|m","","m"}) for (auto& k : has( row, 'K') ? V{"|k","NM|"} : V{""}) for (auto t : {"d",""}) for (auto h : {"p","p|pq","|p"})
		{
			if (has( row, 'K') && has( k, 'M') && !has( row, 'M')) continue;
			std::string nts = std::string("N=") + n + ";" + (has( row, 'M') ? "M=" + m + ";" : "") + (has( row, 'K') ? "K=" + k + ";" : "");
			fn( "S=A" + row + t + ";A=" + h + ";" + nts);
			if (level > 1) fn( "S=R;R=A" + row + t + "|Bmf|Bnk;A=p;B=p;" + nts);
			if (row.size() <= 3) fn( std::string("S=R;R=A") + row + t + "|Bkf;A=p;B=p;" + nts);
		}
	}
	// F8: chains of nonterminals in every order of definition
	{
		for (int n=2; n<=(level > 1 ? 6 : 5); ++n)
		{
			std::string names = std::string("ZYXWVU").substr( 0, n), order = names; std::sort( order.begin(), order.end());
			do for (auto last : {"w","|w","w|v"}) for (int shape=0; shape<4; ++shape)
			{
				if (n >= 5 && level < 3 && shape && order[0] != 'Z' && order[n-1] != 'Z') continue;
				std::map<char,std::string> def;
				for (int i=0; i<n; ++i)
				{
					std::string nx = i+1 < n ? std::string( 1, names[i+1]) : "";
					def[ names[i]] = nx.empty() ? last : shape == 0 ? nx : shape == 1 ? nx + "|" + char( 'a'+i) : shape == 2 ? nx + char( 'a'+i) : nx + nx;
				}
				if (shape == 3 && n > 3) continue;
				std::string g; for (char c : order) g += std::string( 1, c) + "=" + def[c] + ";";
				fn( "S=R;R=PZ|Qwf;P=p;Q=p;" + g);
				fn( "S=R;R=PZ|Qwf;" + g + "P=p;Q=p;");
				fn( "S=PZ;P=p|;" + g);
				if (level > 1) fn( "S=PZd;P=p|;" + g);
			}
			while (std::next_permutation( order.begin(), order.end()));
		}
	}
	// F6: lists in lists with optional parts before the end of input
	for (auto l : {"LI|x","LI|","IL|","I|IL"}) for (auto i : {"Nx","NMx","NM","xN","NxM","NMc"}) for (auto n : {"|n","n","|nN","|Nn"}) for (auto m : {"|m","m","|x","N"}) for (auto q : {"L","Lx","NL","LM"})
	{
		std::string g = std::string("S=") + q + ";L=" + l + ";I=" + i + ";N=" + n + ";";
		bool useM = has( i, 'M') || has( q, 'M'); if (!useM && std::string( m) != "m") continue;
		if (useM) g += std::string("M=") + m + ";";
		if (has( i, 'N') || has( q, 'N') || (useM && has( m, 'N'))) fn( g);
	}
}

static void enumG01( bool thorough, const Sink& sink)
{
	grammars( thorough ? 3 : 1, [&]( const std::string& g)
	{
		auto s = parseSpec( g);
		lr::Lalr ref( s.g);
		if (!ref.conflicts.empty()) return;
		sink( g + fmt( "#%d#LS", s.terms.size() > 3 ? (thorough ? 5:4) : s.terms.size() > 2 ? (thorough ? 6 : 5) : (thorough ? 8 : 6)));
	});
}
static void enumG02( bool thorough, const Sink& sink) {grammars( thorough ? 3 : 2, [&]( const std::string& g){sink( g + "#0#W");});}

// ---- operators with priorities: grammars ambiguous without them
/// reference tree of an input  x (op x)*  by precedence climbing
static std::string climb( const GSpec& s, const std::vector<int>& in, std::size_t& i, int minval)
{
	++i; std::string left = "x";
	while (i < in.size())
	{
		const lr::Prod* op = nullptr; int idx = -1;
		for (std::size_t k=0; k<s.g.prods.size(); ++k) {auto const& p = s.g.prods[k]; if (p.rhs.size() == 3 && p.rhs[1].term && p.rhs[1].idx == in[i]) {op = &p; idx = k;}}
		if (!op || op->prio.value < minval) break;
		++i;
		std::string right = climb( s, in, i, op->prio.assoc == lr::Left ? op->prio.value+1 : op->prio.value);
		left = fmt( "(%d ", idx) + left + right + ")";
	}
	return left;
}
static std::string treeText( const GSpec& s, const lr::Tree& t)
{
	if (t.prod < 0) return "";
	auto const& p = s.g.prods[ t.prod];
	if (p.rhs.size() == 3) return fmt( "(%d ", t.prod) + treeText( s, t.sub[0]) + treeText( s, t.sub[2]) + ")";
	if (p.rhs.size() == 1 && p.rhs[0].term) return "x";
	return treeText( s, t.sub[0]);
}

// ---- AST: scope markers, kinds of calls
/// lengths around powers of two
static std::vector<int> lengths( int max)
{
	std::vector<int> rt; for (int i=1; i<=40; ++i) rt.push_back( i);
	for (int p=64; p<=max+1; p*=2) for (int d=-1; d<=1; ++d) if (p+d <= max) rt.push_back( p+d);
	for (int d=-2; d<=0; ++d) rt.push_back( max+d);
	return rt;
}
static void enumG04( bool thorough, const Sink& sink)
{
	// every production with every marker: # is replaced
	const V mkAll = {"","(c0)","(>c0)","({c0)","(>)","({)"}, &mk = mkAll;
	struct T {const char* g; int maxlen;};
	std::vector<T> ts = {
		{"S=L#;L=LI#|#;I=x|oLc#;",6}, {"S=L#;L=IL#|x#;I=oL#|y#;",5}, {"S=A#;A=AaA/#|x#;",5},
		{"S=AB#;A=#|xA#;B=#|By#;",4}, {"S=A#;A=BxB#;B=y#|aBb#;",7}, {"S=A#;A=B#|AcB#;B=xyx|C#;C=#;",5}, {"S=D#;D=x;",2},{"S=xDy#;D=a#|zD#;",6}
	};
	for (auto& t : ts)
	{
		std::string g = t.g; int n = std::count( g.begin(), g.end(), '#');
		std::size_t slash = g.find( "A=AaA/"); if (slash != std::string::npos) {g.replace( slash, 6, "A/L1=AaA"); std::size_t p = g.find( "|x#"); g.replace( p, 3, ";A=x#");}
		V mk = !thorough && n > 4 ? V{"","(>c0)","({c0)","(>)"} : mkAll;
		uint64_t total = 1; for (int i=0; i<n; ++i) total *= mk.size();
		for (uint64_t v=0; v<total; ++v)
		{
			std::string o; uint64_t w = v; bool any = false;
			for (char c : g) if (c == '#') {o += mk[ w % mk.size()]; any = any || (w % mk.size()) >= 1; w /= mk.size();} else o.push_back( c);
			if (any) sink( o + fmt( "#%d#CL", t.maxlen - (thorough ? 0 : n > 4 ? 1 : 0)));
		}
	}
	// kinds of the arguments of calls, with and without options
	V kinds = {"c0","c1","c2","c3","c4"}, sc = {"",">","{"};
	for (auto& a : kinds) for (auto& b : kinds) for (auto& s1 : sc) for (auto& s2 : sc) for (auto o : {"","O"})
	{
		sink( "S=A(" + s1 + a + ");A=xB(" + s2 + b + ")|B;B=y(" + a + ")|;#4#CL" + o);
		sink( "S=AB;A=x(" + s1 + a + ")|y(" + s2 + b + ");B=A|;#3#CL" + o);
	}
	// long productions, many values on the stack
	for (int n=1; n<=15; ++n) for (auto m : mk) for (auto q : {"x","xa","ax","Bx","xB","BB"})
	{
		std::string r; while ((int)r.size() < n) r += q; r.resize( n);
		std::string in; for (char c : r) in.push_back( c);
		sink( "S=A(c0);A=" + r + m + (r.find( 'B') != std::string::npos ? ";B=y(c1);" : ";") + fmt( "#%d#CL", n <= 6 ? n : 1));
		if (r.find( 'B') == std::string::npos) sink( "S=A(c0);A=" + r + m + fmt( ";#%d#CD%s.1.x.0", 1, r.c_str()));
		else {std::string t; for (char c : r) t.push_back( c == 'B' ? 'y' : c); sink( "S=A(c0);A=" + r + m + fmt( ";B=y(c1);#%d#CD%s.1.x.0", 1, t.c_str()));}
	}
	// deep input
	for (int n : {10,100,1000,5000,20000,200000})
	{
		sink( fmt( "S=L;L=xL|;#1#LDx.%d.x.0", n)); sink( fmt( "S=L;L=Lx|;#1#LDx.%d.x.0", n)); sink( fmt( "S=L;L=oLc|x;#1#LDo.%d.c.%d", n, n));
		sink( fmt( "S=L;L=xLc|x;#1#LDx.%d.c.%d", n+1, n)); sink( fmt( "S=L;L=xLc|x;#1#LDx.%d.c.%d", n, n));
		sink( fmt( "S=L;L=yL|xL|;#1#LDxy.%d.x.0", n));
	}
	// long input, everything compared: steps, scopes and lines beyond 16 bit, elements of lists, nesting
	for (int n : lengths( thorough ? 140000 : 70000)) for (auto m : {"(c1)","(>c1)","({c1)"}) for (auto k : {"","(c0)"})
	{
		if (*k == 0) sink( fmt( "S=L(c0);L=LI|;I=x%s|ya%s;#1#CLFxya.%d.x.1", m, m, n/2)); // list of nodes
		if (*k == 0) sink( fmt( "S=L(c0);L=LIs|;I=xa%s|B%s;B=y(>);#1#CLFxasys.%d.xas.1", m, m, n/3));
		if (*k == 0) sink( fmt( "S=L;L=LI|;I=x%s|ya%s;#1#CLFxya.%d.x.1", m, m, n/2)); // many roots
		if (*k == 0) sink( fmt( "S=L(c0);L=IL|;I=x%s;#1#CLFx.%d.x.1", m, n < 5000 ? n : n == 70000 ? 5000 : 1)); // right recursion
		if (n <= 2100) {sink( fmt( "S=L(c0);L=oLc%s|x%s;#1#CLFo.%d.xc.1", m, k, n)); sink( fmt( "S=L;L=oLc%s|x%s;#1#CLFo.%d.x.1", m, k, 1)); sink( fmt( "S=L;L=oL%s|xc%s;#1#CLFo.%d.xc.1", m, k, n)); sink( fmt( "S=L(c0);L=Lx%s|c%s;#1#CLFcx.1.x.%d", m, k, n));}
	}
	for (int n : {999000, 999990, 1000000, 1200000}) {sink( fmt( "S=L;L=xL|;#1#LDx.%d.x.0.E", n)); sink( fmt( "S=L;L=xL|o;#1#LDx.%d.o.1.E", n));}
}
static void enumG05more( bool thorough, const Sink& sink);
static void enumG05( bool thorough, const Sink& sink)
{
	enumG05more( thorough, sink);
	grammars( thorough ? 2 : 1, [&]( const std::string& g)
	{
		auto s = parseSpec( g);
		lr::Lalr ref( s.g);
		if (!ref.conflicts.empty()) return;
		sink( g + fmt( "#%d#EX", s.terms.size() > 3 ? (thorough ? 5:4) : s.terms.size() > 2 ? (thorough ? 6 : 5) : (thorough ? 7 : 6)));
	});
}

static void enumG05more( bool thorough, const Sink& sink)
{
	// many tokens expected
	const std::string tk = "abcdefghijklmnopqrst0123456789uvwxyzACDEFGHIJKLMN";
	for (int n=1; n<=(int)tk.size(); ++n)
	{
		std::string alt; for (int i=0; i<n; ++i) if (!isupper( (unsigned char)tk[i])) alt += (i ? "|" : "") + std::string( 1, tk[i]);
		std::string sep; for (int i=0; i<n && i<20; ++i) sep += std::string( "|B") + tk[i];
		sink( "S=B;B=" + alt + "#1#EX"); sink( "S=BB;B=" + alt + "#2#EX"); sink( "S=R;R=B" + sep + ";B=!#3#EX");
		if (n == 36) break;
	}
	// long input before the error
	for (int n : lengths( 70000)) for (auto k : {"","(c0)"})
	{
		for (auto e : {"a","c","x","ac"}) sink( fmt( "S=L(c0);L=LI|;I=x%s|yac%s;#1#CEFxyac.%d.%s.1", k, k, n/4, e)); sink( fmt( "S=L;L=LI|;I=x%s|ya%s;#1#CEFxya.%d.y.2", k, k, n/3));
		sink( fmt( "S=L;L=oLc%s|x;#1#CEFo.%d.x.2", k, n)); sink( fmt( "S=L;L=oLc%s|x;#1#CEFo.%d.x.0", k, n)); sink( fmt( "S=L;L=oLc%s|x;#1#CEFo.%d.c.1", k, n));
	}
	for (int n=1; n<=(thorough ? 600 : 80); ++n) {sink( fmt( "V#i#%d", n)); if (n > 3) sink( fmt( "V#w#%d", n));}
	for (int n : {100,127,128,129,200,254,255,256,257,300,400,450,480,490,491,492,493,494,495,496,497,498,499,500,501,502,503,504,505,510,511,512,513,600,1000,4000}) {sink( fmt( "V#i#%d", n)); sink( fmt( "V#w#%d", n)); sink( "V#s#" + mc::hexs( std::string( n, 'q')));}
	V pc = {"a"," ","'","\\\"","\\\\","\n",":","{","}","%s",", ","\xc3\xa9","=","#601"}, lvl = {""};
	for (int d=0; d<=(thorough ? 3 : 2); ++d) {V next; for (auto& t : lvl) {sink( "V#s#" + mc::hexs( t)); for (auto& q : pc) next.push_back( t + q);} lvl = next;}
}

static void enumG03( bool thorough, const Sink& sink)
{
	V pr = {"","L0","L1","L2","R0","R1","R2"}, prd = {"L1","L2","R1","R2"};
	if (thorough) {for (auto p : {"L3","R3","L31","R31"}) pr.push_back( p); prd.push_back( "L3"); prd.push_back( "R3");}
	auto P = [&]( const char* nt, const std::string& p, const char* rhs) {return std::string( nt) + (p.empty() ? "" : "/" + p) + "=" + rhs + ";";};
	std::string L = thorough ? "9" : "7", Lm = thorough ? "7" : "6", Ls = thorough ? "6" : "5";
	for (auto& p : pr) for (auto& q : pr) sink( "S=E;" + P( "E", p, "EaE") + P( "E", q, "EbE") + "E=x;#" + L + "#WL" + (p.empty() || q.empty() ? "" : "P"));
	for (auto& p : prd) for (auto& q : prd) for (auto& r : prd) sink( "S=E;" + P( "E", p, "EaE") + P( "E", q, "EbE") + P( "E", r, "EcE") + "E=x;#" + L + "#WLP");
	// order of definition of the productions
	for (auto& p : pr) for (auto& q : pr) sink( "S=E;E=x;" + P( "E", q, "EbE") + P( "E", p, "EaE") + "#" + L + "#WL");
	// prefix, postfix, binary
	for (auto& p : pr) for (auto& q : pr)
	{
		sink( "S=E;" + P( "E", p, "EaE") + P( "E", q, "aE") + "E=x;#" + L + "#WL");
		sink( "S=E;" + P( "E", p, "EaE") + P( "E", q, "bE") + "E=x;#" + Lm + "#WL");
		sink( "S=E;" + P( "E", p, "EaE") + P( "E", q, "Eb") + "E=x;#" + Lm + "#WL");
		sink( "S=E;" + P( "E", p, "bE") + P( "E", q, "Ea") + "E=x;#" + L + "#WL");
		sink( "S=E;" + P( "E", p, "EaE") + P( "E", q, "EE") + "E=x;#" + Lm + "#WL");
		sink( "S=E;" + P( "E", p, "EaE") + P( "E", q, "EoEc") + "E=x|oEc;#" + Ls + "#WL");
		sink( "S=E;" + P( "E", p, "EaEbE") + P( "E", q, "EcE") + "E=x;#" + Lm + "#WL");
		sink( "S=E;" + P( "E", p, "EaE|EbE") + P( "E", q, "EcE") + "E=x;#" + Lm + "#WL");
		sink( "S=I;" + P( "I", p, "iI") + P( "I", q, "iIeI") + "I=x;#" + L + "#WL");
		sink( "S=I;" + P( "I", p, "iEI") + P( "I", q, "iEIeI") + "I=x;E=y;#" + Lm + "#WL");
		sink( "S=L;" + P( "L", p, "xL") + P( "L", q, "x") + "#" + L + "#WL");
		sink( "S=L;" + P( "L", p, "LxL") + P( "L", q, "") + "#" + L + "#WL");
		sink( "S=L;" + P( "L", p, "LL") + P( "L", q, "x") + "#" + L + "#WL");
		sink( "S=L;" + P( "L", p, "AL|A") + P( "A", q, "x|xa|xab") + "#" + Lm + "#WL");
		// consistency of the priorities of shifts of the same token
		sink( "S=T;" + P( "T", p, "xA") + P( "T", q, "xB") + "A=a;B=b;#" + Ls + "#WL");
		sink( "S=T;" + P( "T", p, "xa") + P( "T", q, "xb") + "#" + Ls + "#WL");
		sink( "S=T;T=Ax|xa;" + P( "A", p, "xb") + P( "A", q, "xc") + "#" + Ls + "#WL");
		sink( "S=E;" + P( "E", p, "EaE") + P( "E", q, "EaF") + "E=x;F=y;#" + Ls + "#WL");
		// reduce/reduce is never settled by priorities
		sink( "S=T;T=A|B;" + P( "A", p, "x") + P( "B", q, "x") + "#" + Ls + "#WL");
		sink( "S=T;T=Aa|Ba;" + P( "A", p, "x") + P( "B", q, "x") + "#" + Ls + "#WL");
		sink( P( "S", p, "A") + P( "A", q, "Aa") + "A=x;#" + Ls + "#WL");
		sink( P( "S", p, "A") + P( "A", q, "AaA") + "A=x;#" + Ls + "#WL");
		sink( P( "S", p, "L") + P( "L", q, "LL") + "L=x;#" + Lm + "#WL");
	}
	// ... neither if the tokens following differ, nor if one of the two accepts
	for (auto& p : pr) for (auto& q : pr)
	{
		sink( "S=T;T=Aa|Ab|Ba|Bc;" + P( "A", p, "x") + P( "B", q, "x") + "#" + Ls + "#WL");
		sink( "S=T;T=Bc|Ba|Ab|Aa;" + P( "B", q, "x") + P( "A", p, "x") + "#" + Ls + "#WL");
		sink( "S=T;T=Ab|A|B|Bc;" + P( "A", p, "x") + P( "B", q, "x") + "#" + Ls + "#WL");
		sink( "S=T;T=Aa|Ab|Ba|Bc;" + P( "A", p, "yx") + P( "B", q, "X") + "X=yx;#" + Ls + "#WL");
		for (auto& r : prd)
		{
			sink( P( "S", p, "A") + P( "A", q, "Bx|B") + "A=a;" + P( "B", r, "A") + "#" + Ls + "#WL");
			sink( P( "S", p, "A") + P( "A", q, "Ba") + P( "A", r, "B") + "A=x;B=A;#" + Ls + "#WL");
			sink( P( "S", p, "A") + "A=x;" + P( "A", r, "BaA") + P( "B", q, "A") + "#" + Ls + "#WL");
			sink( P( "S", r, "A") + P( "A", q, "xB|x") + P( "B", p, "") + "#" + Ls + "#WL");
		}
	}
	for (auto& p : pr) for (auto& q : pr) for (auto& r : prd)
	{
		sink( "S=E;" + P( "E", p, "EaE") + P( "E", q, "bE") + P( "E", r, "Ec") + "E=x;#" + Ls + "#WL");
		sink( "S=E;" + P( "E", p, "EaE") + P( "E", q, "aE") + P( "E", r, "EbE") + "E=x;#" + Lm + "#WL");
		sink( "S=E;" + P( "E", p, "EqEkE") + P( "E", q, "EaE") + P( "E", r, "nE") + "E=x;#" + Ls + "#WL");
		sink( "S=E;" + P( "E", p, "EaE") + P( "E", q, "E,E") + P( "E", r, "E(E)") + "E=x;#" + Ls + "#WL");
	}
}

#include "h_grammar_dump.inc"
#include "h_grammar_moves.inc"
#include "h_grammar_layout.inc"
int main( int argc, char** argv)
{
	std::map<std::string,mc::Property> props;
	props["G01"] = {enumG01, runGrammar, "one case = one conflict free grammar, run on all inputs up to a length (one token per line); states = distinct grammars; transitions = tokens fed", 20};
	props["G04"] = {enumG04, runGrammar, "one case = one grammar with one assignment of scope markers and calls to its productions, run on all inputs up to a length (or one deep input), the AST passed to the functions compared with a reference; states = distinct grammars; transitions = tokens fed", 40};
	props["G05"] = {enumG05, runGrammar, "one case = one conflict free grammar, run on all inputs up to a length that are not in the language, error message compared; states = distinct grammars; transitions = tokens fed", 20};
	props["G03"] = {enumG03, runGrammar, "one case = one grammar with operators and one assignment of priorities, conflicts compared and (if settled) run on all inputs up to a length; states = distinct grammars; transitions = tokens fed", 20};
	props["G02"] = {enumG02, runGrammar, "one case = one grammar, its conflicts compared with those of the LALR(1) automaton built independently; states = distinct grammars; transitions = LALR(1) states of the reference", 20};
	props["G11"] = {enumG11, runDump, "one case = one grammar, its dump compared with the grammar, in itself, with the table, and with the dumps of every part alone; states = distinct grammars; transitions = builds", 20};
	props["G12"] = {enumG12, runG12, "one case = one grammar, built again in every variation of layout, notation, names and memory; states = distinct results; transitions = builds", 20};
	props["B09"] = {enumB09, runMoves, "one case = one grammar, its compiler run with and without debug output on all inputs up to a length; the moves listed compared with an interpreter of the table; states = distinct grammars; transitions = moves", 20};
	return mc::main_( argc, argv, props);
}
