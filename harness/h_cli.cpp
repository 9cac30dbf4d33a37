// G09: the language description (mewa -l);  C02: command line of mewa;  C01: faults of input and output
#include "luahost.hpp"
#include "proc.hpp"
#include "automaton.hpp"
#include "error.hpp"
using mc::fmt; using mc::Ctx; using mc::Sink; using proc::rd; using proc::wr;
typedef std::vector<std::string> V;

static std::string cli() {static std::string s = proc::env( "MEWA_CLI"); return s;}
static std::string wdir()
{
	static std::string d; static pid_t owner = 0;
	if (owner != getpid()) {owner = getpid(); d = mc::scratch() + fmt( "/d%d", (int)getpid()); mkdir( d.c_str(), 0755);}
	return d;
}
static lh::Host& chost() {return lh::host( 64, 500);}
static std::string rtrim( std::string s) {while (!s.empty() && (s.back() == '\n' || s.back() == ' ')) s.pop_back(); return s;}

// ================================================================ G09
// Case: c,k,l|c,k,l|...|c   c: comment before the declaration, k: declaration, l: layout; the last field is the comment at the end of the file
struct Decl
{
	std::string op; std::map<std::string,std::string> f; V right; bool listed = true;
	std::set<int> lines; std::vector<std::pair<std::string,V> > attrs;
	int lo = 0, hi = 0;
};
/// declarations: tokens; for productions the alternatives are separated by |
struct Kind {char id; V tokens; std::vector<Decl> decls;};
static Decl mk( const char* op, std::map<std::string,std::string> f, V right = {}) {Decl d; d.op = op; d.f = f; d.right = right; return d;}
static const std::vector<Kind>& kinds()
{
	static const std::vector<Kind> k = [] {
		std::vector<Kind> k;
		auto unl = [] ( const char* op, const char* v) {Decl d = mk( op, {{"v", v}}); d.listed = false; return d;};
		k.push_back( {'T', {"tk", ":", "\"a\"", ";"}, {mk( "TOKEN", {{"name","tk"},{"pattern","a"}})}});
		k.push_back( {'U', {"tk", ":", "'b(c)\"'", "1", ";"}, {mk( "TOKEN", {{"name","tk"},{"pattern","b(c)\""},{"select","1"}})}});
		k.push_back( {'V', {"tk", ":", "\"(b)(c)\"", "2", ";"}, {mk( "TOKEN", {{"name","tk"},{"pattern","(b)(c)"},{"select","2"}})}});
		k.push_back( {'W', {"tk", ":", "'(1)(2)(3)(4)(5)(6)(7)(8)(9)(0)(1)(2)'", "12", ";"}, {mk( "TOKEN", {{"name","tk"},{"pattern","(1)(2)(3)(4)(5)(6)(7)(8)(9)(0)(1)(2)"},{"select","12"}})}});
		k.push_back( {'B', {"%", "BAD", "err", ";"}, {mk( "BAD", {{"name","err"}})}});
		k.push_back( {'I', {"%", "IGNORE", "\"[#]@\\\\'x\"", ";"}, {mk( "IGNORE", {{"pattern","[#]@\\\\'x"}})}});
		k.push_back( {'C', {"%", "COMMENT", "\"#\"", ";"}, {mk( "COMMENT", {{"open","#"}})}});
		k.push_back( {'D', {"%", "COMMENT", "'/*'", "'*/'", ";"}, {mk( "COMMENT", {{"open","/*"},{"close","*/"}})}});
		k.push_back( {'N', {"%", "INDENTL", "iop", "icl", "inl", "4", ";"}, {mk( "INDENTL", {{"open","iop"},{"close","icl"},{"nl","inl"},{"tabsize","4"}})}});
		k.push_back( {'O', {"%", "INDENTL", "i", "c2", "n_l", "16", ";"}, {mk( "INDENTL", {{"open","i"},{"close","c2"},{"nl","n_l"},{"tabsize","16"}})}});
		k.push_back( {'E', {"%", "COMMENT", "\"--\"", ";"}, {mk( "COMMENT", {{"open","--"}})}});
		k.push_back( {'F', {"%", "COMMENT", "'{'", "\"}\"", ";"}, {mk( "COMMENT", {{"open","{"},{"close","}"}})}});
		k.push_back( {'L', {"%", "LANGUAGE", "\"lg\"", ";"}, {unl( "LANGUAGE", "lg")}});
		k.push_back( {'Y', {"%", "TYPESYSTEM", "\"d/ts\"", ";"}, {unl( "TYPESYSTEM", "d/ts")}});
		k.push_back( {'M', {"%", "CMDLINE", "cl", ";"}, {unl( "CMDLINE", "cl")}});
		k.push_back( {'p', {"A", "=", "tk", "\"k\"", "(", "f", ")", ";"}, {mk( "PROD", {{"left","A"},{"call","f"}}, {"name:tk","symbol:k"})}});
		k.push_back( {'q', {"A", "/", "L1", "=", "\"x;y\"", "|", "tk", "'\"'", "(", ">>", "g", "1", ")", ";"},
			{mk( "PROD", {{"left","A"},{"priority","L1"}}, {"symbol:x;y"}), mk( "PROD", {{"left","A"},{"priority","L1"},{"scope",">>"},{"call","g 1"}}, {"name:tk","symbol:\""})}});
		k.push_back( {'r', {"A", "=", "\xce\xb5", "(", "{}", "m.h", "\"s\"", ")", ";"}, {mk( "PROD", {{"left","A"},{"scope","{}"},{"call","m.h \"s\""}})}});
		k.push_back( {'s', {"A", "/", "R12", "\xe2\x86\x92", "\"//@x\"", "\"/*\"", "\"#\"", "|", "\"|\"", "(", "{}", "f", "{", "x", "=", "\"1\"", ",", "y", "=", "r", "}", ")", "|", "\"*/\"", ";"},
			{mk( "PROD", {{"left","A"},{"priority","R12"}}, {"symbol://@x","symbol:/*","symbol:#"}), mk( "PROD", {{"left","A"},{"priority","R12"},{"scope","{}"},{"call","f {x=\"1\",y=r}"}}, {"symbol:|"}),
			mk( "PROD", {{"left","A"},{"priority","R12"}}, {"symbol:*/"})}});
		k.push_back( {'t', {"A", "/", "R31", "=", "tk", "tk", "\"k\"", "(", "f", ")", "|", "\"k\"", "(", "{}", "f", "325", ")", "|", "(", ">>", "h", ")", ";"},
			{mk( "PROD", {{"left","A"},{"priority","R31"},{"call","f"}}, {"name:tk","name:tk","symbol:k"}), mk( "PROD", {{"left","A"},{"priority","R31"},{"scope","{}"},{"call","f 325"}}, {"symbol:k"}),
			mk( "PROD", {{"left","A"},{"priority","R31"},{"scope",">>"},{"call","h"}})}});
		k.push_back( {'a', {"A", "=", "tk", ";"}, {mk( "PROD", {{"left","A"}}, {"name:tk"})}});
		k.push_back( {'S', {"S", "=", "A", ";"}, {mk( "PROD", {{"left","S"}}, {"name:A"})}});
		return k;
	}();
	return k;
}
static const Kind& kind( char c) {for (auto const& k : kinds()) if (k.id == c) return k; throw std::runtime_error( "bad kind");}
static const char COMMENTS[] = "0123456789abcdefgh";
/// text of a comment and what it means; 'n' makes the attribute names unique
static std::string comment( char c, int n, std::vector<std::pair<std::string,V> >& pend, bool& reserved)
{
	auto attr = [&]( const std::string& name, const V& v) {pend.push_back( {name, v});};
	auto cont = [&]( const std::string& v) {if (!pend.empty()) pend.back().second.push_back( v);};
	auto nm = [&]( const char* s) {return fmt( "%s%d", s, n);};
	switch (c)
	{
		case '0': return "";
		case '1': cont( "plain"); return "# plain\n";
		case '2': attr( nm("a"), {"v w"}); return "# @" + nm("a") + " v w\n";
		case '3': attr( nm("B_b"), {"\"q\" 'r' \\x\\"}); return "// @" + nm("B_b") + " \"q\" 'r' \\x\\\n";
		case '4': attr( nm("c"), {"one"}); cont( "two"); return "# @" + nm("c") + " one\n#   two\n";
		case '5': attr( nm("d"), {"x"}); cont( "y"); attr( nm("e"), {"z"}); return "/* @" + nm("d") + " x\n   y\n @" + nm("e") + " z */ ";
		case '6': attr( nm("f"), {"x"}); return "/* @" + nm("f") + " x */\n";
		case '7': attr( nm("g"), {""}); return "#@" + nm("g") + "\n";
		case '8': attr( "end", {fmt( "k%d", n)}); return fmt( "# @end k%d\n", n);
		case '9': attr( nm("h"), {"x"}); attr( nm("i"), {"y"}); return "# @" + nm("h") + " x\n# @" + nm("i") + " y\n";
		case 'a': attr( nm("j"), {"x"}); attr( nm("k"), {"y"}); return "/* */ /* @" + nm("j") + " x */ // @" + nm("k") + " y\n";
		case 'b': attr( nm("l"), {"x"}); cont( "more"); cont( "lines"); return "\n# @" + nm("l") + " x\n/* more\n\t lines */\n\n";
		case 'c': attr( nm("m"), {"it's ; | = \" %"}); return "# @" + nm("m") + " it's ; | = \" %\n";
		case 'd': attr( nm("n"), {"# // @x"}); return "// @" + nm("n") + " # // @x\n";
		case 'e': attr( fmt( "%d", n+1), {"num"}); return fmt( "#@%d num\n", n+1);
		case 'f': reserved = true; attr( "pattern", {"x"}); return "# @pattern x\n";
		case 'g': reserved = true; attr( nm("o"), {"x"}); attr( "line", {"x"}); return "/* @" + nm("o") + " x\n @line x */\n";
		case 'h': return "/**//**/";
	}
	throw std::runtime_error( "bad comment");
}
static std::string layoutSep( char l, size_t i, size_t n)
{
	// separator after token i of n
	switch (l)
	{
		case '0': return i+1 == n ? "\n" : " ";
		case '1': return i == 0 || i+1 == n ? "\n" : " ";
		case '2': return "\n";
		case '3': return i+2 >= n ? "\n" : " ";
		case '4': return " ";
		case '5': return i+1 == n ? "" : " ";
		case '6': return i == 1 ? "\n\n\t" : i+1 == n ? "\n\n" : "\t";
	}
	throw std::runtime_error( "bad layout");
}
struct G09Text {std::string src; std::vector<Decl> decls; bool reserved = false, reservedListed = false; bool duplicates = false; std::map<std::string,std::string> head;};
static G09Text g09Build( const std::string& text)
{
	G09Text g; int line = 1; std::vector<std::pair<std::string,V> > pend; bool reserved = false;
	auto put = [&]( const std::string& s) {for (char c : s) if (c == '\n') ++line; g.src += s;};
	auto fields = mc::split( text, '|');
	bool start = false;
	auto decl = [&]( char kc, char l)
	{
		Kind const& k = kind( kc); size_t di = 0;
		Decl cur = k.decls[0]; int first = line;
		auto begin = [&] {
			cur.attrs = pend; pend.clear();
			if (reserved) {g.reserved = true; if (cur.listed) g.reservedListed = true; reserved = false;}
			cur.lo = line;
		};
		(void)first;
		begin();
		for (size_t i=0; i<k.tokens.size(); ++i)
		{
			if (k.tokens[i] == "|") {g.decls.push_back( cur); cur = k.decls[ ++di]; begin();}
			put( k.tokens[i]); cur.lines.insert( line); cur.hi = line;
			put( layoutSep( l, i, k.tokens.size()));
		}
		g.decls.push_back( cur);
		if (!cur.listed) g.head[ cur.op] = cur.f["v"];
	};
	for (size_t i=0; i<fields.size(); ++i)
	{
		auto e = mc::split( fields[i], ',');
		if (e.size() == 3 && !start && islower( e[1][0])) {decl( 'S', '0'); start = true;}
		put( comment( e[0][0], (int)i, pend, reserved));
		if (e.size() == 3) {if (e[1][0] == 'S') start = true; decl( e[1][0], e[2][0]);}
	}
	if (!start) decl( 'S', '0');
	// A and tk are always defined
	bool hasA = false, hasT = false;
	for (auto const& d : g.decls) {if (d.op == "PROD" && d.f.at( "left") == "A") hasA = true; if (d.op == "TOKEN") hasT = true;}
	if (!hasA) decl( 'a', '0');
	if (!hasT) decl( 'T', '5');
	return g;
}
static void g09Run( const std::string& text, Ctx& ctx)
{
	G09Text g = g09Build( text);
	std::string fn = wdir() + "/g.g"; wr( fn, g.src);
	if (ctx.verbose) printf( "--- grammar:\n%s\n---\n", g.src.c_str());
	auto r = proc::run( {cli(), "-l", fn}, proc::Opt());
	ctx.transition(); ctx.trace();
	if (r.status == 128+SIGKILL || r.status == 128+SIGSEGV || r.status == 128+SIGABRT) ctx.fail( fmt( "crashed with signal %d", r.sig));
	if (g.reserved)
	{
		ctx.state( "reserved"); ctx.count( "refused");
		if (g.reservedListed)
		{
			if (r.status == 0) ctx.fail( "a reserved name is accepted as attribute:\n" + r.out);
			if (r.err.empty() || !r.out.empty()) ctx.fail( fmt( "refused with status %d, stderr '%s', stdout '%s'", r.status, r.err.c_str(), r.out.c_str()));
		}
		return;
	}
	if (r.status != 0) ctx.fail( fmt( "exit status %d: %s", r.status, r.err.c_str()));
	if (!r.err.empty()) ctx.fail( "text on stderr: " + r.err);
	lh::Host& h = chost(); std::string err;
	auto res = h.chunk( r.out, {}, &err, "=l");
	if (!err.empty()) ctx.fail( "the output cannot be loaded: " + err + "\n" + r.out);
	if (res.empty() || res[0].t != lh::Val::Tab) ctx.fail( "the output does not return a table");
	lh::Val const& t = res[0];
	auto bad = [&]( const std::string& m) {ctx.fail( m + "\ngrammar:\n" + g.src + "\noutput:\n" + r.out);};
	for (auto const& k : {"LANGUAGE","TYPESYSTEM","CMDLINE"})
	{
		auto const& v = t.at( k); std::string exp = g.head.count( k) ? g.head.at( k) : "";
		if (!(v.t == lh::Val::Str && v.s == exp) && !(exp.empty() && v.isnil())) bad( fmt( "%s is %s instead of '%s'", k, v.str().c_str(), exp.c_str()));
	}
	for (auto const& e : t.tab) if (!(e.first.t == lh::Val::Str && (e.first.s == "LANGUAGE" || e.first.s == "TYPESYSTEM" || e.first.s == "CMDLINE" || e.first.s == "RULES" || e.first.s == "VERSION"))) bad( "unknown member " + e.first.str());
	auto const& rules = t.at( "RULES");
	std::map<std::string,std::vector<const lh::Val*> > byop; size_t n = rules.len();
	if (n != rules.tab.size()) bad( "RULES is no list");
	for (size_t i=1; i<=n; ++i) byop[ rules.at( (int)i).at( "op").s].push_back( &rules.at( (int)i));
	std::map<std::string,size_t> idx; std::string state; bool deviates = false; std::string devmsg;
	// within one kind of declaration in the order of the file; end of line comments and bracketed ones are looked up apart
	auto opkey = []( const Decl& d) {return d.op;};
	std::map<std::string,size_t> nexp; for (auto const& d : g.decls) if (d.listed) ++nexp[ d.op];
	for (auto const& e : byop) if (nexp[ e.first] != e.second.size()) bad( fmt( "%zu rules %s instead of %zu", e.second.size(), e.first.c_str(), nexp[ e.first]));
	auto attrsOf = [&]( const lh::Val& v, const Decl& d)
	{
		std::map<std::string,std::string> rt;
		for (auto const& e : v.tab)
		{
			if (e.first.t != lh::Val::Str) bad( "rule with key " + e.first.str());
			std::string k = e.first.s;
			if (d.f.count( k) || k == "op" || k == "line" || k == "right" ) continue;
			rt[ k] = e.second.str();
		}
		return rt;
	};
	std::set<const lh::Val*> used;
	for (auto const& d : g.decls)
	{
		if (!d.listed) continue;
		auto const& list = byop[ opkey( d)];
		const lh::Val* v = nullptr;
		if (d.op == "COMMENT")
		{
			bool br = d.f.count( "close");
			for (auto x : list) if (!used.count( x) && (!x->at( "close").isnil()) == br) {v = x; break;}
		}
		else
		{
			size_t i = idx[ d.op]++; if (i < list.size()) v = list[i];
		}
		if (!v) {bad( "declaration missing: " + d.op + " " + mc::join( d.right, " ")); return;}
		used.insert( v);
		for (auto const& f : d.f)
		{
			auto const& x = v->at( f.first.c_str());
			std::string got = x.t == lh::Val::Num ? fmt( "%g", x.n) : x.s;
			// white space in the text of a call is not specified
			if (f.first == "call") {std::string a, b; for (char c : got) if (c != ' ') a += c; for (char c : f.second) if (c != ' ') b += c; if (a == b) continue;}
			if (got != f.second) bad( fmt( "%s %s is %s instead of '%s'", d.op.c_str(), f.first.c_str(), x.str().c_str(), f.second.c_str()));
		}
		auto const& right = v->at( "right");
		if (d.op == "PROD")
		{
			if (right.len() != d.right.size()) bad( fmt( "production with %zu elements instead of %zu", right.len(), d.right.size()));
			for (size_t i=0; i<d.right.size(); ++i) {auto const& e = right.at( (int)i+1); if (e.at( "type").s + ":" + e.at( "value").s != d.right[i]) bad( "element " + e.str() + " instead of " + d.right[i]);}
		}
		else if (!right.isnil()) bad( "right hand side of " + d.op);
		int ln = v->at( "line").i();
		if (ln < d.lo || ln > d.hi) bad( fmt( "%s line is %d instead of %d..%d", d.op.c_str(), ln, d.lo, d.hi));
		auto got = attrsOf( *v, d);
		std::map<std::string,std::string> exp, byline;
		for (auto const& a : d.attrs) {std::vector<lh::Val> l; for (auto const& s : a.second) l.push_back( lh::Val( s)); exp[ a.first] = lh::Val::list( l).str();}
		for (auto const& o : g.decls) if (o.lines.count( ln))
			for (auto const& a : o.attrs) {std::vector<lh::Val> l; for (auto const& s : a.second) l.push_back( lh::Val( s)); byline[ a.first] = lh::Val::list( l).str();}
		state += d.op + ":"; for (auto const& e : exp) state += e.first + "=" + e.second + ";";
		if (got != exp)
		{
			std::string m = fmt( "attributes of %s in line %d are", d.op.c_str(), ln);
			for (auto const& e : got) m += " " + e.first + "=" + e.second;
			m += ", expected"; for (auto const& e : exp) m += " " + e.first + "=" + e.second;
			if (got == byline) {deviates = true; devmsg = m;}
			else bad( m);
		}
	}
	ctx.state( state); ctx.count( "rules", n);
	if (deviates) ctx.finding( "attributes-same-line", devmsg + "\ngrammar:\n" + g.src);
}
static void g09Enum( bool thorough, const Sink& sink)
{
	const std::string K = "TUVWBICDEFNOLYMpqrst", L = "0123456", C = COMMENTS;
	auto item = []( char c, char k, char l) {return fmt( "%c,%c,%c", c, k, l);};
	auto once = []( char k) {return strchr( "NOLYMBpqrst", k) != nullptr;};
	// one declaration with every comment, layout and comment at the end
	for (char k : K) for (char c : C) for (char l : L) for (char e : std::string( thorough ? C : std::string( "0125h"))) sink( item( c,k,l) + "|" + e);
	// two declarations
	const std::string k2 = thorough ? K : std::string( "TNDLqs"), l2 = thorough ? L : std::string( "0124"), c2 = thorough ? C : std::string( "0257bfh");
	const std::string kb = thorough ? std::string( "TLIDqs") : k2;
	for (char ka : k2) for (char b : kb) for (char ca : c2) for (char cb : c2) for (char la : l2) for (char lb : std::string( thorough ? "024" : "03")) 
	{
		if (ka == b && once( ka)) continue;
		sink( item( ca,ka,la) + "|" + item( cb,b,lb) + "|0");
	}
	// the kinds that differ in details only, next to others
	const std::string kd = "VWEFOt", ko = "TUCDNqs";
	for (char ka : kd) for (char b : ko) for (char ca : std::string( "025")) for (char cb : std::string( "025")) for (char o : std::string( "01"))
	{
		if (ka == 'O' && b == 'N') continue;
		if (ka == 't' && (b == 'q' || b == 's')) continue;
		if (o == '0') sink( item( ca,ka,'0') + "|" + item( cb,b,'0') + "|0"); else sink( item( cb,b,'0') + "|" + item( ca,ka,'0') + "|0");
	}
	// all orders of declarations of a kind, three of them
	const std::string k3 = thorough ? std::string( "TUICDpqs") : std::string( "TIq"), c3 = thorough ? std::string( "0249h") : std::string( "025"), l3 = thorough ? std::string( "04") : std::string( "04");
	for (char k1 : k3) for (char kk : k3) for (char kz : k3) if (!((k1 == kk || k1 == kz) && once( k1)) && !(kk == kz && once( kk))) for (char a : c3) for (char b : c3) for (char c : c3) for (char la : l3) for (char lb : l3)
		sink( item( a,k1,la) + "|" + item( b,kk,lb) + "|" + item( c,kz,'0') + "|0");
}

#include "h_cli_c02.inc"
#include "h_cli_c01.inc"

int main( int argc, char** argv)
{
	std::map<std::string,mc::Property> props;
	props["G09"] = {g09Enum, g09Run, "sequences of declarations x comments before them x layouts of lines; states: distinct expected lists of attributes", 20};
	c02Register( props);
	c01Register( props);
	return mc::main_( argc, argv, props);
}
