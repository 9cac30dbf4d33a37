// Lexer: L01 (longest match, keywords, first definition, select, activation), L02 (comments, ignore, bad tokens, lines), L03 (indentation)
// Reference: a tokenizer written from the documentation with its own regular expression matcher (ECMAScript backtracking).
#include "mc.hpp"
#include "lexer.hpp"
#include "error.hpp"
#include <memory>
#include <sys/resource.h>
#include <sys/wait.h>
#include <signal.h>
using mc::Ctx; using mc::Sink; using mc::fmt;

// ---------------------------------------------------------------- regular expressions
namespace rx {
struct Node; typedef std::shared_ptr<Node> P;
struct Node
{
	enum K {Set, Cat, Alt, Rep, Grp, Empty} k;
	bool set[256]; std::vector<P> sub; int lo=0, hi=0, grp=0;
	Node( K k_) :k(k_){memset( set, 0, sizeof set);}
};
struct Parser
{
	const std::string& s; size_t i = 0; int ngrp = 0;
	Parser( const std::string& s_) :s(s_){}
	[[noreturn]] void bad() {throw std::logic_error( "reference regex parser: unsupported pattern " + s);}
	P alt()
	{
		P r = std::make_shared<Node>( Node::Alt); r->sub.push_back( cat());
		while (i < s.size() && s[i] == '|') {++i; r->sub.push_back( cat());}
		return r->sub.size() == 1 ? r->sub[0] : r;
	}
	P cat()
	{
		P r = std::make_shared<Node>( Node::Cat);
		while (i < s.size() && s[i] != '|' && s[i] != ')') r->sub.push_back( rep());
		return r;
	}
	P rep()
	{
		P a = atom();
		while (i < s.size() && strchr( "*+?{", s[i]))
		{
			P r = std::make_shared<Node>( Node::Rep); r->sub.push_back( a);
			if (s[i] == '*') {r->lo = 0; r->hi = -1; ++i;}
			else if (s[i] == '+') {r->lo = 1; r->hi = -1; ++i;}
			else if (s[i] == '?') {r->lo = 0; r->hi = 1; ++i;}
			else
			{
				++i; int n = 0; while (i < s.size() && isdigit( s[i])) n = n*10 + (s[i++]-'0');
				r->lo = r->hi = n;
				if (s[i] == ',') {++i; if (s[i] == '}') r->hi = -1; else {n = 0; while (isdigit( s[i])) n = n*10 + (s[i++]-'0'); r->hi = n;}}
				if (s[i] != '}') bad();
				++i;
			}
			a = r;
		}
		return a;
	}
	P atom()
	{
		char c = s[i];
		if (c == '(')
		{
			++i; P r = std::make_shared<Node>( Node::Grp);
			if (s.compare( i, 2, "?:") == 0) {i += 2; r->grp = 0;} else r->grp = ++ngrp;
			r->sub.push_back( alt());
			if (i >= s.size() || s[i] != ')') bad();
			++i; return r;
		}
		P r = std::make_shared<Node>( Node::Set);
		if (c == '.') {++i; for (int k=0; k<256; ++k) r->set[k] = k != '\n' && k != '\r'; return r;}
		if (c == '[')
		{
			++i; bool inv = false; if (s[i] == '^') {inv = true; ++i;}
			while (s[i] != ']')
			{
				if (s[i] == '[' && s[i+1] == ':')
				{
					size_t e = s.find( ":]", i); std::string cl = s.substr( i+2, e-i-2); i = e+2;
					for (int k=0; k<128; ++k)
						if (cl == "alpha" ? isalpha(k) : cl == "digit" ? isdigit(k) : cl == "alnum" ? isalnum(k) : cl == "upper" ? isupper(k)
							: cl == "lower" ? islower(k) : cl == "space" ? isspace(k) : cl == "punct" ? ispunct(k) : (bad(),0)) r->set[k] = true;
					continue;
				}
				unsigned char lo = ch(); unsigned char hi = lo;
				if (s[i] == '-' && s[i+1] != ']') {++i; hi = ch();}
				for (int k=lo; k<=hi; ++k) r->set[k] = true;
			}
			++i;
			if (inv) for (int k=0; k<256; ++k) r->set[k] = !r->set[k];
			return r;
		}
		if (c == '^' && i == 0) {++i; return std::make_shared<Node>( Node::Empty);}
		r->set[ ch()] = true;
		return r;
	}
	unsigned char ch()
	{
		if (s[i] == '\\') {++i; char c = s[i++]; if (isalnum((unsigned char)c) && c != 'n' && c != 't') bad(); return c == 'n' ? '\n' : c == 't' ? '\t' : c;}
		return s[i++];
	}
};
struct Matcher
{
	const std::string& in; size_t start; std::vector<std::pair<int,int>> cap; size_t end = 0;
	typedef std::function<bool(size_t)> K;
	Matcher( const std::string& in_, size_t start_, int n) :in(in_),start(start_),cap( n+1, {-1,-1}){}
	bool m( const Node& n, size_t p, const K& k)
	{
		switch (n.k)
		{
			case Node::Empty: return k( p);
			case Node::Set: return p < in.size() && n.set[ (unsigned char)in[p]] && k( p+1);
			case Node::Alt: for (auto& a : n.sub) if (m( *a, p, k)) return true; return false;
			case Node::Cat: return cat( n, 0, p, k);
			case Node::Grp: {
				auto old = cap[ n.grp];
				if (m( *n.sub[0], p, [&]( size_t q){auto o2 = cap[ n.grp]; cap[ n.grp] = {(int)p,(int)q}; if (k( q)) return true; cap[ n.grp] = o2; return false;})) return true;
				cap[ n.grp] = old; return false;
			}
			case Node::Rep: return rep( n, 0, p, k);
		}
		return false;
	}
	bool cat( const Node& n, size_t i, size_t p, const K& k)
	{
		if (i == n.sub.size()) return k( p);
		return m( *n.sub[i], p, [&]( size_t q){return cat( n, i+1, q, k);});
	}
	bool rep( const Node& n, int cnt, size_t p, const K& k)
	{
		if (n.hi < 0 || cnt < n.hi)
		{
			if (m( *n.sub[0], p, [&]( size_t q){return (q != p || cnt < n.lo) && rep( n, cnt+1, q, k);})) return true;
		}
		return cnt >= n.lo && k( p);
	}
};
struct Regex
{
	P root; int ngrp;
	explicit Regex( const std::string& s) {Parser p( s); root = p.alt(); if (p.i != s.size()) p.bad(); ngrp = p.ngrp;}
	/// length of the match at pos (0: none), selected group in sel
	size_t match( const std::string& in, size_t pos, int select, std::string& sel) const
	{
		Matcher mt( in, pos, ngrp); size_t end = pos;
		if (!mt.m( *root, pos, [&]( size_t q){if (q == pos) return false; end = q; return true;})) return 0;
		if (select == 0) sel = in.substr( pos, end-pos);
		else if (mt.cap[ select].first < 0) sel.clear();
		else sel = in.substr( mt.cap[ select].first, mt.cap[ select].second - mt.cap[ select].first);
		return end-pos;
	}
};
}

// ---------------------------------------------------------------- reference tokenizer
struct Def {char kind; std::vector<std::string> arg;};	// T name,pattern,select / K string / I pattern / E open / B open,close / N tabsize / X badname
struct Tok
{
	std::string name, value; int line;
	bool operator==( const Tok& o) const {return name==o.name && value==o.value && line==o.line;}
};
static std::string show( const std::vector<Tok>& v)
{
	std::string r; for (auto& t : v) r += fmt( "%s[%s]@%d ", mc::enc(t.name).c_str(), mc::enc(t.value).c_str(), t.line); return r.empty() ? "(no tokens)" : r;
}

struct Ref
{
	struct T {std::string name; std::shared_ptr<rx::Regex> re; int select; std::string kw; bool ignore;};
	std::vector<T> toks; std::vector<std::string> eoln; std::vector<std::pair<std::string,std::string>> brk; int tab = 0; std::string bad = "?";
	explicit Ref( const std::vector<Def>& defs)
	{
		for (auto& d : defs) switch (d.kind)
		{
			case 'T': toks.push_back( {d.arg[0], std::make_shared<rx::Regex>( d.arg[1]), d.arg.size() > 2 ? atoi( d.arg[2].c_str()) : 0, "", false}); break;
			case 'K': toks.push_back( {d.arg[0], nullptr, 0, d.arg[0], false}); break;
			case 'I': toks.push_back( {"", std::make_shared<rx::Regex>( d.arg[0]), 0, "", true}); break;
			case 'E': eoln.push_back( d.arg[0]); break;
			case 'B': brk.push_back( {d.arg[0], d.arg[1]}); break;
			case 'N': tab = atoi( d.arg[0].c_str()); break;
			case 'X': bad = d.arg[0]; break;
		}
	}
	std::vector<Tok> run( const std::string& in, size_t maxtok) const
	{
		std::vector<Tok> rt; std::vector<int> stk; size_t pos = 0, lpos = 0; int lno = 1;
		auto lineof = [&]( const std::string& s, size_t p) {for (; lpos<p; ++lpos) if (s[lpos] == '\n') ++lno; return lno;}; // p never decreases
		while (rt.size() < maxtok)
		{
			while (pos < in.size() && in[pos] && (unsigned char)in[pos] <= 32) ++pos; // a NUL is a bad character
			int line = lineof( in, pos);
			if (pos == in.size())
			{
				while (!stk.empty()) {stk.pop_back(); rt.push_back( {"\"CL\"", "", line});}
				rt.push_back( {"", "", line});	// end of input
				break;
			}
			bool comment = false;
			for (auto& e : eoln) if (!comment && in.compare( pos, e.size(), e) == 0)
			{
				size_t q = in.find( '\n', pos + e.size()); pos = q == std::string::npos ? in.size() : q+1; comment = true;
			}
			for (auto& b : brk) if (!comment && in.compare( pos, b.first.size(), b.first) == 0)
			{
				size_t q = in.find( b.second, pos + b.first.size());
				if (q == std::string::npos) {rt.push_back( {bad, b.first, lineof( in, pos+b.first.size())}); return rt;}
				pos = q + b.second.size(); comment = true;
			}
			if (comment) continue;
			size_t best = 0; const T* bt = nullptr; std::string val;
			for (auto& t : toks) if (in[pos])
			{
				std::string sel; size_t len;
				if (t.re) len = t.re->match( in, pos, t.select, sel);
				else {len = in.compare( pos, t.kw.size(), t.kw) == 0 ? t.kw.size() : 0; sel = t.kw;}
				if (len == 0) continue;
				if (len > best || (len == best && !t.kw.empty())) {best = len; bt = &t; val = sel;}
			}
			if (!bt)
			{
				size_t e = pos+1; if ((unsigned char)in[pos] >= 0x80) while (e < in.size() && ((unsigned char)in[e] & 0xC0) == 0x80) ++e;
				rt.push_back( {bad, in.substr( pos, e-pos), line}); pos = e; continue;
			}
			if (bt->ignore) {pos += best; continue;}
			if (tab)
			{
				// first on its line?
				size_t b = pos; int ind = 0; while (b > 0 && in[b-1] != '\n' && (unsigned char)in[b-1] <= 32) {ind += in[b-1] == '\t' ? tab : 1; --b;}
				if (b == 0 || in[b-1] == '\n')
				{
					while (!stk.empty() && stk.back() > ind) {stk.pop_back(); rt.push_back( {"\"CL\"", "", line});}
					if (ind > (stk.empty() ? 0 : stk.back())) {stk.push_back( ind); rt.push_back( {"\"OP\"", "", line});}
					rt.push_back( {"\"NL\"", "", line});
				}
			}
			rt.push_back( {bt->name, val, line}); pos += best;
		}
		return rt;
	}
};

static void define( mewa::Lexer& lx, const std::vector<Def>& defs)
{
	int line = 0;
	for (auto& d : defs)
	{
		++line;
		switch (d.kind)
		{
			case 'T': lx.defineLexem( line, d.arg[0], d.arg[1], d.arg.size() > 2 ? atoi( d.arg[2].c_str()) : 0); break;
			case 'K': lx.defineLexem( d.arg[0]); break;
			case 'I': lx.defineIgnore( line, d.arg[0]); break;
			case 'E': lx.defineEolnComment( line, d.arg[0]); break;
			case 'B': lx.defineBracketComment( line, d.arg[0], d.arg[1]); break;
			case 'N': lx.defineIndentLexems( line, "OP", "CL", "NL", atoi( d.arg[0].c_str())); break;
			case 'X': lx.defineBadLexem( line, d.arg[0]); break;
		}
	}
}

static std::vector<Tok> real( const mewa::Lexer& lx, const std::string& in, size_t maxtok)
{
	std::vector<Tok> rt; mewa::Scanner sc( in);
	while (rt.size() < maxtok)
	{
		mewa::Lexem l = lx.next( sc);
		rt.push_back( {std::string( l.name()), std::string( l.value()), l.line()});
		if (l.id() == 0 && l.name().empty() && l.value().empty()) break;
		if (l.id() == 0) throw mc::Failure( "token " + std::string( l.name()) + " '" + std::string( l.value()) + "' with the id of the end of the source");
	}
	return rt;
}

static std::string encDefs( const std::vector<Def>& defs)
{
	std::string rt;
	for (auto& d : defs) {if (!rt.empty()) rt += ";"; rt += d.kind; for (auto& a : d.arg) rt += "," + mc::enc( a);}
	return rt;
}
static std::vector<Def> decDefs( const std::string& s)
{
	std::vector<Def> rt;
	for (auto& x : mc::split( s, ';'))
	{
		auto f = mc::split( x, ','); Def d; d.kind = f[0][0];
		for (size_t i=1; i<f.size(); ++i) d.arg.push_back( mc::dec( f[i]));
		rt.push_back( d);
	}
	return rt;
}
static void allStrings( const std::vector<std::string>& alpha, int maxlen, const std::function<void(const std::string&)>& f, const std::string& cur = "")
{
	f( cur);
	if (maxlen == 0) return;
	for (auto& a : alpha) allStrings( alpha, maxlen-1, f, cur+a);
}

// tokens of n characters: "#|kind|n" ; "#!|n" a token beyond what the recursion of the regular expression library can do (own process)
static void runLong( const std::string& text, Ctx& ctx)
{
	auto f = mc::split( text, '|'); int n = atoi( f[ f.size()-1].c_str()); std::string a( n, 'a');
	if (f[0] == "#!")
	{
		pid_t p = fork();
		if (!p)
		{
			for (int s : {SIGSEGV,SIGABRT,SIGBUS}) signal( s, SIG_DFL);
			struct rlimit rl = {8<<20, 8<<20}; setrlimit( RLIMIT_STACK, &rl); rl = {0,0}; setrlimit( RLIMIT_CORE, &rl);
			int rc = 1;
			try {mewa::Lexer lx; lx.defineLexem( 1, "A", "[a]+"); mewa::Scanner sc( a); mewa::Lexem l = lx.next( sc); rc = (int)l.value().size() == n ? 0 : 3;}
			catch (const std::exception&) {rc = 2;}
			_exit( rc);
		}
		int st = 0; while (waitpid( p, &st, 0) < 0 && errno == EINTR){}
		ctx.transition(); ctx.trace(); ctx.state( text);
		if (WIFSIGNALED( st)) ctx.finding( "long-token", fmt( "crash (signal %d) on a token of %d characters", WTERMSIG( st), n));
		else if (WEXITSTATUS( st) == 3) ctx.fail( "long token cut");
		return; // refused with an error is accepted
	}
	struct K {const char* rx; int sel; std::string in, val;};
	std::vector<K> k = {{"[a]+",0,a,a},{"a*b",0,a+"b",a+"b"},{"[\"]([^\"]*)[\"]",1,"\""+a+"\"",a},{"(a|b)+",0,a,a},{"[a-z_]+[a-z0-9_]*",0,a,a},{"[/]([^/]*)[/]",1,"/"+a+"/",a}};
	auto& c = k[ atoi( f[1].c_str())];
	for (int keyword=0; keyword<2; ++keyword)
	{
		mewa::Lexer lx; if (keyword) {lx.defineLexem( "a"); lx.defineLexem( std::string( n/2+1, 'a'));}
		lx.defineLexem( 1, "X", c.rx, c.sel); if (keyword) lx.defineLexem( "aa");
		auto got = real( lx, c.in + "\n" + c.in + " \n" + c.in, 10);
		std::vector<Tok> exp = {{"X",c.val,1},{"X",c.val,2},{"X",c.val,3},{"","",3}};
		ctx.check( got == exp, fmt( "token of %d characters: first token %s of %d characters, %d tokens", n, got[0].name.c_str(), (int)got[0].value.size(), (int)got.size()));
		ctx.transition( 4);
	}
	ctx.state( text); ctx.trace();
}

// case text: defs|pieces of the input alphabet (, separated)|max number of pieces     or   defs|=|input
static void runCase( const std::string& text, Ctx& ctx)
{
	if (text[0] == '#') return runLong( text, ctx);
	auto f = mc::split( text, '|');
	std::vector<Def> defs = decDefs( f[0]);
	Ref ref( defs); mewa::Lexer lx;
	try {define( lx, defs);}
	catch (const mewa::Error& e) {ctx.fail( std::string("valid lexer definition refused: ") + e.what());}
	for (int id=1; id<=lx.nofTerminals(); ++id)
	{
		std::string n = lx.lexemName( id); if (n.size() > 2 && (n[0] == '"' || n[0] == '\'') && n.back() == n[0]) n = n.substr( 1, n.size()-2);
		ctx.check( lx.lexemId( n) == id, fmt( "token %d '%s' not found by its name", id, n.c_str()));
	}
	auto one = [&]( const std::string& in)
	{
		mc::alive(); size_t mx = 3*in.size() + 8;
		auto exp = ref.run( in, mx); // what follows a comment that is not closed is not looked at
		bool eof = !exp.empty() && exp.back().name.empty(); auto got = real( lx, in, eof ? mx : exp.size());
		if (!(exp == got)) ctx.fail( fmt( "input %s: got %s, expected %s", mc::json_str( in).c_str(), show( got).c_str(), show( exp).c_str()));
		ctx.state( f[0] + "|" + show( exp)); ctx.transition( exp.size()); ctx.trace();
	};
	if (f[1] == "=") one( mc::dec( f[2]));
	else
	{
		std::vector<std::string> alpha; for (auto& a : mc::split( f[1], ',')) alpha.push_back( mc::dec( a));
		allStrings( alpha, atoi( f[2].c_str()), one);
	}
}
static std::string caseText( const std::vector<Def>& defs, const std::vector<std::string>& alpha, int n)
{
	std::vector<std::string> e; for (auto& a : alpha) e.push_back( mc::enc( a));
	return encDefs( defs) + "|" + mc::join( e, ",") + fmt( "|%d", n);
}

// ---------------------------------------------------------------- L01
static void enumL01( bool thorough, const Sink& sink)
{
	typedef std::vector<std::string> V;
	V atoms = {"a","b","[ab]","[^a]","."}, quants = {"","*","+","?","{0,1}","{2}","{0,}","{1,2}"};
	V pieces; for (auto& a : atoms) for (auto& q : quants) pieces.push_back( a+q);
	V small; for (auto a : V{"a","b","[^a]"}) for (auto q : V{"","*","?"}) small.push_back( a+q);
	V rxs;
	// repeated groups that match without consuming anything are left out: their meaning is the business of the regex library
	auto nullable = []( const std::string& x){return x.back() == '*' || x.back() == '?';};
	for (auto& p : pieces) rxs.push_back( p);
	for (auto& p : pieces) for (auto& q : pieces) rxs.push_back( p+q);
	for (auto& p : pieces) for (auto& q : pieces) rxs.push_back( p+"|"+q);
	for (auto& p : small) for (auto& q : small) for (auto& r : small) for (auto x : V{"","*","?","+","{0,1}"})
	{
		if (x.empty() || !(nullable( p) || nullable( q))) rxs.push_back( "(" + p + "|" + q + ")" + x + r);
		if (x.empty() || !(nullable( p) && nullable( q))) rxs.push_back( "(" + p + q + ")" + x + "|" + r);
		if (thorough)
		{
			if (x.empty() || !nullable( q)) rxs.push_back( p + "(" + q + ")" + x + r);
			if (x.empty() || !(nullable( p) || nullable( q))) rxs.push_back( "(?:" + p + "|" + q + ")" + x + r);
		}
	}
	for (auto& p : small) for (auto& q : small)
	{
		rxs.push_back( "((" + p + ")|(" + q + "))"); rxs.push_back( "(" + p + ")|(" + q + ")");
		if (!nullable( p) && !nullable( q)) rxs.push_back( "((" + p + ")*(" + q + "))*b");
	}
	if (thorough) for (auto& p : pieces) for (auto& q : pieces) for (auto& r : small) rxs.push_back( p+q+r);
	int len = thorough ? 5 : 4;
	for (auto& r : rxs) sink( caseText( {{'T',{"T",r}}}, {"a","b","c"}, len));
	// classes, escapes, ranges
	for (auto r : V{"[a-c]+","[ac-d]+","[^a-c]+","[+*-]","\\(a\\)","\\.","[.]a","\\[a\\]","[(]a[)]","a\\+b","[[:alpha:]]+","[[:digit:]]+a",
		"[[:alnum:]_]+","([(][)])*a","(\\)|a)b","([)]|a)b","[{]a[}]","\\{a\\}","(a(b(c)?)?)?d","((a|b)|c)d","^ab","(([a]))b","[a]{0,2}b","a{0}b","(a*)(b*)c","(a*|b*)c","([^a]*)c",
		"[\"](([^\"\\\\]+|[\\\\].)*)[\"]","[^ab]","[^\\^]a","[a\\-c]+","[a\\]]+","([a]|[b])*c","(|a)b","a|","(a:|b)c","(:a|b)c","(?:a|b)c","(?:ab)?c","(?:a:|b)*c","[+-]?[0-9]+([.][0-9]*)?","[0-9]*[.]?[0-9]+"})
		sink( caseText( {{'T',{"T",r}}}, {"a","b","c","d","(",")",".","+","-","]","1","\"","\\","{","}","_",":"}, thorough ? 4 : 3));
	// pairs: longest match, order of declarations, keywords, select, several definitions with one name
	V pool = {"a","ab","[ab]+","a*b","a?b","(a|ab)c","[^a]","abc","a+","[b-c]+","a[.]b"};
	V kws = {"a","ab","b","abc","ba","+","++","+=","a+","(","[","\\","a.b","{","^","|","$"};
	std::vector<Def> T; for (auto& p : pool) T.push_back( {'T',{"",p}});
	for (size_t i=0; i<pool.size(); ++i) for (size_t j=0; j<pool.size(); ++j)
	{
		sink( caseText( {{'T',{"X",pool[i]}},{'T',{"Y",pool[j]}}}, {"a","b","c",".",thorough?" ":"+"}, len));
		sink( caseText( {{'T',{"X",pool[i]}},{'T',{"X",pool[j]}}}, {"a","b","c"}, len));
		for (auto& k : kws)
		{
			sink( caseText( {{'T',{"X",pool[i]}},{'T',{"Y",pool[j]}},{'K',{k}}}, {"a","b","+","c"}, thorough ? 4 : 3));
			if (thorough) sink( caseText( {{'T',{"X",pool[i]}},{'K',{k}},{'T',{"Y",pool[j]}}}, {"a","b","+","c","."}, 4));
		}
	}
	for (size_t i=0; i<kws.size(); ++i) for (size_t j=0; j<kws.size(); ++j) if (i != j)
	{
		sink( caseText( {{'K',{kws[i]}},{'K',{kws[j]}}}, {"a","b","+","=",".","c",kws[i],kws[j]}, 3));
		for (auto& p : pool) if (thorough || (i+j) % 3 == 0) sink( caseText( {{'K',{kws[i]}},{'T',{"X",p}},{'K',{kws[j]}}}, {"a","b","+","c"}, 4));
	}
	// long tokens
	for (int k=0; k<6; ++k) for (int n : {100,127,128,254,255,256,257,511,512,1023,1024,1025,2047,2048,4094,4095,4096,4097,8000}) sink( fmt( "#|%d|%d", k, n));
	sink( "#!|200000");
	// selected subexpression
	for (auto r : V{"a(b*)c,1","(a)(b),1","(a)(b),2","[\"]([^\"]*)[\"],1","(a)|(b),2","(a)|(b),1","(a(b))(c),3","(a(b))(c),2","(a(b))(c),0","a()b,1"})
	{
		auto f = mc::split( r, ',');
		sink( caseText( {{'T',{"X",f[0],f[1]}},{'T',{"Y","[abc]"}}}, {"a","b","c","\""," "}, thorough ? 5 : 4));
		sink( caseText( {{'T',{"Y","[abc]"}},{'T',{"X",f[0],f[1]}},{'K',{"ab"}}}, {"a","b","c","\""}, thorough ? 5 : 4));
	}
}

// ---------------------------------------------------------------- L02
static void enumL02( bool thorough, const Sink& sink)
{
	typedef std::vector<Def> D;
	std::vector<D> toks = {{{'T',{"A","a+"}}}, {{'T',{"A","a"}},{'K',{"/"}}}, {{'T',{"A","[a/]+"}}}, {{'T',{"A","a"}},{'K',{"*/"}},{'K',{"/"}}}, {{'T',{"S","[\"]([^\"]*)[\"]","1"}},{'T',{"A","[a]"}}}};
	std::vector<D> cmts = {{}, {{'E',{"//"}}}, {{'B',{"/*","*/"}}}, {{'E',{"//"}},{'B',{"/*","*/"}}}, {{'B',{"/*","*/"}},{'E',{"//"}}}, {{'E',{"#"}},{'B',{"/-","-/"}}}, {{'B',{"/","/"}}}, {{'E',{"a"}}}, {{'B',{"/*","/"}},{'B',{"a(","a)"}}}};
	std::vector<D> igns = {{}, {{'I',{"b+"}}}, {{'I',{"[ba]"}}}, {{'I',{"/"}}}, {{'I',{"b\na"}}}, {{'I',{"b*"}},{'I',{"/a"}}}};
	std::vector<D> bads = {{}, {{'X',{"BAD"}}}};
	for (auto& t : toks) for (auto& c : cmts) for (auto& g : igns) for (auto& x : bads) for (int order=0; order<2; ++order)
	{
		D d; auto add = [&]( const D& o){d.insert( d.end(), o.begin(), o.end());};
		add( x); if (order) {add( t); add( g); add( c);} else {add( c); add( g); add( t);}
		if (d.empty()) continue;
		sink( caseText( d, {"a","b","/","*","\n"}, thorough ? 6 : 5));
		if (x.empty()) sink( caseText( d, {"a","//","/*","*/","\n"," ","#","\xc3\xa4","b"}, thorough ? 5 : 4));
		if (x.empty() && order) sink( caseText( d, {"a","/-","-/","\"","\n","\xe2\x82\xac","\x80","\xff","?","\t\r\n"}, thorough ? 4 : 3));
		if (x.empty()) sink( caseText( d, {"a","//","/*","*/","\n",std::string( 1, '\0'),"\"","b"}, thorough ? 4 : 3));
	}
	// every byte as input with nothing else, in front of and after tokens
	for (int b=0; b<256; ++b) for (auto& c : cmts)
	{
		D d = {{'T',{"A","a"}}}; d.insert( d.end(), c.begin(), c.end());
		sink( caseText( d, {"a", std::string( 1, (char)b), "\n"}, 4));
	}
	// long inputs: line counting over many lines, big tokens and comments
	for (int n : {1,2,127,128,255,256,257,1000,4095,4096,4097,32767,32768,65535,65536,70000})
	{
		D d = {{'T',{"A","a"}},{'B',{"/*","*/"}},{'E',{"//"}}};
		auto rep = [&]( const std::string& s){std::string r; for (int i=0; i<n; ++i) r += s; return r;};
		for (auto s : {rep("\n")+"a", "/*"+rep("\n")+"*/a\na", "/*"+rep("*")+"/a", rep("//b\n")+"a", "//"+rep("b")+"\na", rep("\r\n")+"a"})
			if (s.size() < 300000) sink( encDefs( d) + "|=|" + mc::enc( s));
	}
}

// ---------------------------------------------------------------- L03
static void enumL03( bool thorough, const Sink& sink)
{
	typedef std::vector<Def> D;
	// a line = indentation + content + end of line
	std::vector<std::string> ind = {"", " ", "  ", "\t", " \t"}, cont = {"a","a b","","//c","a //c","a /*c*/","/*c\n*/", "/*\n c\n */"};
	for (auto tab : {"1","2","4"})
	for (int order=0; order<2; ++order)
	{
		D d; 
		if (order) d = {{'N',{tab}},{'E',{"//"}},{'B',{"/*","*/"}},{'T',{"A","[ab]"}},{'K',{"if"}}};
		else d = {{'T',{"A","[ab]"}},{'K',{"if"}},{'E',{"//"}},{'B',{"/*","*/"}},{'N',{tab}}};
		std::vector<std::string> full, basic;
		for (auto& i : ind) for (auto& c : cont) full.push_back( i+c+"\n");
		for (auto& i : ind) for (auto c : {"a","//c",""}) basic.push_back( i+c+"\n");
		std::vector<std::string> noeol; for (auto& i : ind) for (auto c : {"a","//c","/*c*/"}) noeol.push_back( i+c);
		// all sequences of lines; the last one with or without end of line
		std::string defs = encDefs( d);
		auto lines = [&]( const std::vector<std::string>& a, int n){sink( caseText( d, a, n));};
		lines( full, thorough && order==0 ? 4 : thorough ? 3 : order == 0 && tab[0] != '4' ? 3 : 2);
		lines( basic, thorough ? 5 : 4);
		for (auto& x : full) for (auto& y : basic) for (auto& z : noeol) if (thorough || order) sink( defs + "|=|" + mc::enc( x+y+z));
		for (auto& y : basic) for (auto& z : noeol) sink( defs + "|=|" + mc::enc( y+z));
		for (auto& z : noeol) sink( defs + "|=|" + mc::enc( z));
		std::vector<std::string> plain; for (auto i : {"", " ", "  ", "   ", "    "}) plain.push_back( std::string(i)+"a\n");
		lines( plain, thorough ? 7 : 5);
		lines( {"if a\n"," if\n","\tif b\n","  b\n","b\n"," \n","\n"}, thorough ? 6 : 5);
	}
	// deep nesting, wide indentation, many blocks, tabs
	for (auto tab : {"1","2","3","4","8","16","100"}) for (int n=1; n<=(thorough ? 1100 : 530); n += n < 20 ? 1 : n < 240 ? 11 : n < 262 ? 1 : 83)
	{
		std::string defs = encDefs( {{'N',{tab}},{'E',{"//"}},{'T',{"A","[ab]"}}}), down, up, sq, tb;
		for (int i=0; i<n; ++i) {down += std::string( i, ' ') + "a\n"; sq += "a\n a\n"; tb += std::string( i % 7, '\t') + std::string( i % 5, ' ') + "a\n";}
		for (int i=n-1; i>=0; i-=3) up += std::string( i, ' ') + "b\n";
		for (auto t : {down, down + up, down + "b\n", down + std::string( n/2, ' ') + "b", "a\n" + std::string( n, ' ') + "a\n b\n", "a\n" + std::string( n, '\t') + "a\n" + std::string( n/2, '\t') + std::string( n, ' ') + "b\na", sq, tb + "b", std::string( n, '\n') + " a\n" + std::string( n, '\n') + "a"})
			if (t.size() < 40000) sink( defs + "|=|" + mc::enc( t));
	}
}

// split big L03 cases: prefix enumeration is done in the case itself; workers share by case only
int main( int argc, char** argv)
{
	std::map<std::string,mc::Property> props;
	props["L01"] = {enumL01, runCase, "one case = one lexer definition, run on all inputs over an alphabet up to a length; states = distinct (definition, token sequence)", 10};
	props["L02"] = {enumL02, runCase, "one case = one lexer definition with comments, ignored patterns and error token, run on all inputs over an alphabet up to a length; states = distinct (definition, token sequence)", 10};
	props["L03"] = {enumL03, runCase, "one case = one lexer definition with indentation tokens, run on all sequences of lines up to a length; states = distinct (definition, token sequence)", 10};
	return mc::main_( argc, argv, props);
}
