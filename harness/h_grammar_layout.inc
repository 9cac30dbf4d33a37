// ---------------------------------------------------------------- G12: the automaton depends on nothing but what the grammar says
// case text: grammar#flags   (W: layout varied at all places together, S: also at every single place, M: also memory)
#include <malloc.h>
static std::vector<std::string> tokensOf( const std::string& src)
{
	std::vector<std::string> rt; std::size_t i = 0;
	auto ident = []( unsigned char c){return isalnum( c) || c == '_' || c == '.';};
	while (i < src.size())
	{
		unsigned char c = src[i]; std::size_t b = i;
		if (c <= 32) {++i; continue;}
		if (c == '"' || c == '\'') {for (++i; src[i] != (char)c; ++i) if (src[i] == '\\') ++i; ++i;}
		else if (ident( c)) while (i < src.size() && ident( src[i])) ++i;
		else if (c >= 0x80) {for (++i; i < src.size() && ((unsigned char)src[i] & 0xC0) == 0x80; ++i){}}
		else if (src.compare( i, 2, ">>") == 0 || src.compare( i, 2, "{}") == 0) i += 2;
		else ++i;
		rt.push_back( src.substr( b, i-b));
	}
	return rt;
}
struct Product
{
	std::string error, dump, table; std::vector<std::string> warnings;
	bool operator==( const Product& o) const {return error == o.error && dump == o.dump && table == o.table && warnings == o.warnings;}
	std::string diff( const Product& o) const
	{
		auto first = []( const std::string& a, const std::string& b) {std::size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) ++i; i = i > 30 ? i-30 : 0; return mc::json_str( a.substr( i, 100)) + " instead of " + mc::json_str( b.substr( i, 100));};
		if (error != o.error) return "error " + first( error, o.error);
		if (warnings != o.warnings) return "warnings " + first( mc::join( warnings, "|"), mc::join( o.warnings, "|"));
		if (table != o.table) return "table " + first( table, o.table);
		return "debug output " + first( dump, o.dump);
	}
	bool empty() const {return error.empty() && table.empty();}
};
// message without the line, that depends on the layout
static std::string noLine( const mewa::Error& e) {return fmt( "%d ", (int)e.code()) + e.arg();}
static Product produce( const std::string& src)
{
	Product rt; std::vector<mewa::Error> warn; std::ostringstream dbg; mewa::Automaton a;
	try
	{
		a.build( src, warn, mewa::Automaton::DebugOutput( dbg).enable( mewa::Automaton::DebugOutput::All));
		rt.table = a.tostring();
	}
	catch (const mewa::Error& e) {rt.error = noLine( e);}
	for (auto& w : warn) rt.warnings.push_back( noLine( w));
	rt.dump = dbg.str();
	return rt;
}
static std::string joinTokens( const std::vector<std::string>& t, const std::string& sep, std::size_t gap = std::string::npos, const std::string& piece = "")
{
	std::string rt; if (gap == 0) rt += piece;
	for (std::size_t i=0; i<t.size(); ++i) {rt += t[i]; rt += gap == i+1 ? piece : sep;}
	return rt;
}
static void runG12( const std::string& text, Ctx& ctx)
{
	auto f = mc::split( text, '#'); auto c = parseCase( f[0] + "#0#"); std::string flags = f.back();
	std::string src = toMewa( c.s, false);
	static const std::vector<std::string> pieces = {" ", "\n", "\t\r\n \n", " # a comment ; S = \"x\" (f)\n", " /* a\n comment */", " //\n", "\n\n#\n#\n", " /**/\n/* % LANGUAGE \"x\"; */"};
	Product ref = produce( src);
	if (ctx.verbose) printf( "%s\n-> %s%s\n", src.c_str(), ref.error.c_str(), ref.table.c_str());
	auto same = [&]( const Product& p, const std::string& what, const std::string& s)
	{
		mc::alive(); ctx.transition();
		if (!(p == ref)) ctx.fail( what + ": " + p.diff( ref) + ", grammar " + mc::json_str( s));
	};
	std::vector<std::string> t = tokensOf( src);
	// the same text again, the heap filled with something else and used in another way
	static unsigned seed = 1;
	for (int k=0; k<2; ++k)
	{
		mallopt( M_PERTURB, 17 + 100*k); std::vector<std::unique_ptr<char[]> > junk;
		for (int i=0; i<40; ++i) {seed = seed * 1103515245u + 12345u; std::size_t n = 8 + (seed >> 16) % 700; junk.emplace_back( new char[ n]); memset( junk.back().get(), (int)seed, n); if (i % 3 == 0) junk[ (seed >> 8) % junk.size()].reset();}
		Product p = produce( src); mallopt( M_PERTURB, 0);
		same( p, "same text, other memory", src);
	}
	// layout
	for (auto& p : pieces) {std::string s = joinTokens( t, p); same( produce( s), "layout", s);}
	if (flags.find( 'S') != std::string::npos) for (std::size_t g=0; g<=t.size(); ++g) for (std::size_t k=3; k<pieces.size(); ++k) {std::string s = joinTokens( t, " ", g, pieces[k]); same( produce( s), fmt( "layout at token %zu", g), s);}
	auto changed = [&]( const char* what, const std::function<std::vector<std::string>( const std::vector<std::string>&)>& fn)
	{
		std::vector<std::string> x = fn( t); if (x == t) return; std::string s = joinTokens( x, " "); same( produce( s), what, s);
	};
	typedef std::vector<std::string> V;
	// notations of the same
	changed( "other quotes", []( const V& t)
	{
		V rt; int curly = 0;
		for (auto x : t) {if (x == "{") ++curly; else if (x == "}") --curly; if (!curly && x[0] == '"' && x.find_first_of( "'\\") == std::string::npos) {x.front() = '\''; x.back() = '\'';} rt.push_back( x);}
		return rt;
	});
	changed( "arrow", []( const V& t) {V rt; int curly = 0; for (auto& x : t) {if (x == "{") ++curly; else if (x == "}") --curly; rt.push_back( x == "=" && !curly ? "→" : x);} return rt;});
	changed( "epsilon left out", []( const V& t) {V rt; for (auto& x : t) if (x != "ε") rt.push_back( x); return rt;});
	changed( "epsilon written", []( const V& t) {V rt; int curly = 0; for (std::size_t i=0; i<t.size(); ++i) {if (t[i] == "{") ++curly; else if (t[i] == "}") --curly; rt.push_back( t[i]); if (!curly && (t[i] == "=" || t[i] == "|") && (t[i+1] == "|" || t[i+1] == ";" || t[i+1] == "(")) rt.push_back( "ε");} return rt;});
	changed( "alternatives as productions", []( const V& t)
	{
		V rt, head;
		for (std::size_t i=0; i<t.size(); ++i)
		{
			std::size_t e = i; while (t[e] != ";") ++e;
			head.clear(); std::size_t q = i; while (q < e && t[q] != "=" && t[q] != "%") head.push_back( t[q++]);
			for (; i<=e; ++i) if (t[i] == "|") {rt.push_back( ";"); rt.insert( rt.end(), head.begin(), head.end()); rt.push_back( "=");} else rt.push_back( t[i]);
			--i;
		}
		return rt;
	});
	changed( "commands in lower case", []( const V& t) {V rt = t; for (std::size_t i=1; i<rt.size(); ++i) if (rt[i-1] == "%") for (auto& c : rt[i]) c = tolower( c); return rt;});
	changed( "commands at the end", []( const V& t) {std::size_t i = 0; while (t[i] == "%") {while (t[i] != ";") ++i; ++i;} V rt( t.begin()+i, t.end()); rt.insert( rt.end(), t.begin(), t.begin()+i); return rt;});
	// names: the result is the same but for the names
	std::map<std::string,std::string> from, to;
	for (auto& x : t) if (isalpha( (unsigned char)x[0]) && x != "LANGUAGE" && x != "TYPESYSTEM" && x != "t" && x != "ts")
	{
		std::size_t i = &x - &t[0]; bool prio = i > 0 && t[i-1] == "/", member = i+1 < t.size() && (t[i-1] == "{" || t[i-1] == ",") && t[i+1] == "=";
		if (prio || member || x.find( '.') != std::string::npos || from.count( x)) continue;
		int n = from.size(); from[x] = fmt( "name_%02d_q", n); to[x] = fmt( "%c%d_n", 'z' - n, n*7919);
	}
	auto rename = [&]( std::map<std::string,std::string>& m) {V rt; for (std::size_t i=0; i<t.size(); ++i) {auto r = m.find( t[i]); bool keep = (i > 0 && (t[i-1] == "/" || t[i-1] == "%")) || r == m.end(); rt.push_back( keep ? t[i] : r->second);} return joinTokens( rt, " ");};
	std::string s1 = rename( from), s2 = rename( to); Product p1 = produce( s1), p2 = produce( s2);
	std::map<std::string,std::string> back; for (auto& x : from) back[ x.second] = to[ x.first];
	auto subst = [&]( const std::string& a) {std::string rt; for (std::size_t i=0; i<a.size();) {if (a.compare( i, 5, "name_") == 0 && back.count( a.substr( i, 9))) {rt += back[ a.substr( i, 9)]; i += 9;} else rt += a[i++];} return rt;};
	p1.error = subst( p1.error); p1.dump = subst( p1.dump); p1.table = subst( p1.table); for (auto& w : p1.warnings) w = subst( w);
	ctx.transition(); if (!(p1 == p2)) ctx.fail( "names have an influence: " + p2.diff( p1) + ", grammar " + mc::json_str( s2));
	ref = produce( src); // also nothing of what was done before
	same( produce( src), "repeated", src);
	ctx.state( ref.table + ref.error); ctx.trace(); ctx.count( ref.error.empty() ? "accepted" : "refused");
}
static void enumG12( bool thorough, const Sink& sink)
{
	uint64_t n = 0;
	auto add = [&]( const std::string& g, unsigned every) {sink( g + "#W" + (n++ % every == 0 ? "S" : ""));};
	uint64_t k = 0;
	grammars( thorough ? 2 : 1, [&]( const std::string& g) {if (thorough || k++ % 4 == 0) add( g, thorough ? 20 : 40);});
	enumG03( thorough, [&]( const std::string& t) {auto f = mc::split( t, '#'); if (thorough || k++ % 4 == 0) add( f[0], 40);});
	enumG04( thorough, [&]( const std::string& t) {auto f = mc::split( t, '#'); if (f.size() >= 3 && f[2].find( 'D') == std::string::npos && (k++ % (thorough ? 2 : 12) == 0)) add( f[0], 20);});
}
