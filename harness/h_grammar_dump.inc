// ---------------------------------------------------------------- G11: the dump of the generator (mewa -d)
struct DumpLine {std::string text;};
struct Dump
{
	std::map<std::string,V> sections; V order; std::string header;
	explicit Dump( const std::string& t)
	{
		std::string cur;
		for (auto& l : mc::split( t, '\n'))
		{
			if (l.compare( 0, 3, "-- ") == 0)
			{
				cur = l.substr( 3, l.rfind( ':') - 3); std::size_t e = cur.find( " ("); if (e != std::string::npos) cur.resize( e);
				if (sections.count( cur)) throw mc::Failure( "section twice: " + l);
				sections[ cur]; order.push_back( cur);
			}
			else if (cur.empty()) {if (!l.empty()) header += l + "\n";}
			else if (!l.empty()) sections[ cur].push_back( l);
		}
	}
	/// lines of the states of a section, in order
	std::map<int,V> states( const std::string& s, Ctx& ctx) const
	{
		std::map<int,V> rt; auto f = sections.find( s); if (f == sections.end()) ctx.fail( "section missing: " + s);
		int last = -1;
		for (auto& l : f->second)
		{
			if (l[0] == '[') {last = atoi( l.c_str()+1); if (l != fmt( "[%d]", last) || rt.count( last)) ctx.fail( s + ": bad state header " + l); rt[ last];}
			else {if (l[0] != '\t' || last < 0) ctx.fail( s + ": bad line " + l); rt[ last].push_back( l.substr( 1));}
		}
		return rt;
	}
};
static std::string normSpace( const std::string& s)
{
	std::string rt; for (char c : s) {if (c == ' ') {if (!rt.empty() && rt.back() != ' ') rt.push_back( ' ');} else rt.push_back( c);}
	while (!rt.empty() && rt.back() == ' ') rt.pop_back();
	return rt;
}
static std::string symName( const GSpec& s, const lr::Sym& y) {if (!y.term) return std::string( 1, s.nts[ y.idx]); char c = s.terms[ y.idx-1]; return isTok( c) ? fmt( "T%c", c) : fmt( "\"%c\"", c);}
static std::string lexName( const GSpec& s, int t) {if (!t) return "$"; char c = s.terms[ t-1]; return isTok( c) ? fmt( "T%c", c) : fmt( "'%c'", c);}
static std::string prodText( const GSpec& s, std::size_t p, int dot)
{
	auto& q = s.prods[p]; std::string rt( 1, s.nts[ q.nt]); if (!q.prio.empty()) rt += "/" + q.prio;
	rt += " =";
	auto& rhs = s.g.prods[p].rhs;
	for (std::size_t i=0; i<=rhs.size(); ++i) {if ((int)i == dot) rt += " ."; if (i < rhs.size()) rt += " " + symName( s, rhs[i]);}
	return rt;
}
static std::string callTextDump( int p, int kind) {std::string a = callArg( p, kind); if (kind == 1) a = "\"" + a + "\""; return a.empty() ? callFn( p) : callFn( p) + " " + a;}
static int callKind( const GSpec& s, std::size_t p, bool all) {return all ? 1 : s.prods[p].alt.call;}
typedef std::set<std::pair<int,int>> Items;

/// D#mask#v: definitions of the lexer chosen by the bits of the mask, N#n: call with argument of length n
static void runDumpDefs( const std::string& text, Ctx& ctx)
{
	auto f = mc::split( text, '#'); int n = atoi( f[1].c_str()); ctx.state( text); ctx.trace();
	int v = f.size() > 2 ? atoi( f[2].c_str()) : 0; // other content of the definitions
	auto pick = [&]( const V& a) {return a[ v % a.size()];};
	std::string tab = pick( {"8","1","2","3","4","5","7","9","10","12","16","17","32","64","100"}), ign = pick( {"[#]x","x+","!","[ab]*c","a{2,3}"}), co = pick( {"/*","(*","--[[","<","/-"}), cc = pick( {"*/","*)","]]",">","-/"}), ec = pick( {"//","#","--",";","%%"}), tp = pick( {"[0-9]+","[a-z]","a|b","[^x]*x","(a)(b)?"}), sl = pick( {"1","1","2","3"}), bad = pick( {"!","ERR","a","unknown token"}), lg = pick( {"la ng","l","1.2","a-b"}), ty = pick( {"typ","a/b/typ","t.s"});
	std::string sp = sl == "1" ? ".([a-z]*)." : sl == "2" ? ".([a-z]*)(x)" : ".(a(b(c)))";
	struct D {std::string def, line; const char* part;};
	const std::vector<D> defs = {{"% LANGUAGE \"" + lg + "\";","== Language '" + lg + "'",0},{"% TYPESYSTEM \"" + ty + "\";",", type system '" + ty + "'",0},{"% BAD '" + bad + "';","BAD " + bad,""},{"% IGNORE '" + ign + "';","IGNORE " + ign,""},{"% COMMENT '" + co + "' '" + cc + "';","COMMENT " + co + " " + cc,""},{"% COMMENT '" + ec + "';","COMMENT " + ec,""},{"% INDENTL I E W " + tab + ";","INDENTL # " + tab,""},{"N : '" + tp + "';","TOKEN N " + tp + " 0"," ~ "},{"Q : '" + sp + "' " + sl + ";","TOKEN Q " + sp + " " + sl," ~ "}};
	std::string src, want; V lines; bool lang = false, ts = false, n1 = false, ind = false;
	for (std::size_t i=0; i<defs.size(); ++i) if (f[0] == "N" ? i < 2 || i == 7 : (n >> i & 1)) {src += std::string( defs[i].def) + "\n"; if (i == 0) lang = true; else if (i == 1) ts = true; else lines.push_back( defs[i].line); if (i == 7) n1 = true; if (i == 6) ind = true;}
	std::string arg = f[0] == "N" ? std::string( n, 'q') : "";
	src += "S = R;\nR = 'k' " + std::string( arg.empty() ? "" : "(fun \"" + arg + "\")") + (n1 ? " | N 'k'" : "") + (ind ? " | I | E W" : "") + ";\n";
	std::ostringstream out; mewa::Automaton atm, plain; std::vector<mewa::Error> w, w2; mewa::Automaton::DebugOutput d( out); d.enable( mewa::Automaton::DebugOutput::All);
	std::string e1, e2;
	try {plain.build( src, w2, mewa::Automaton::DebugOutput());} catch (const mewa::Error& e) {e2 = e.what();}
	try {atm.build( src, w, d);} catch (const mewa::Error& e) {e1 = e.what();}
	if (e1 != e2) ctx.fail( "without debug output: " + e2 + ", with: " + e1);
	if (ctx.verbose) printf( "%s\n%s\n%s\n", src.c_str(), e1.c_str(), out.str().c_str());
	ctx.transition( 2); ctx.count( e1.empty() ? "definitions_accepted" : "definitions_refused"); if (!e1.empty()) return;
	if (plain.tostring() != atm.tostring()) ctx.fail( "the table is another one with debug output");
	Dump dump( out.str());
	std::string eh = lang ? std::string( defs[0].line) + (ts ? defs[1].line : "") + " ==\n" : ""; if (dump.header != eh) ctx.fail( "header " + dump.header + ", expected " + eh);
	auto ll = dump.sections.at( "Lexems");
	std::string id; for (auto& l : ll) if (l.compare( 0, 8, "TOKEN I ") == 0) id = l.substr( l.rfind( ' ')+1); // the token opening a block is listed with its number
	for (auto& e : lines)
	{
		if (e.compare( 0, 9, "INDENTL #") == 0) e = "INDENTL " + id + e.substr( 9);
		auto i = std::find_if( ll.begin(), ll.end(), [&]( const std::string& l){return l.compare( 0, e.size(), e) == 0 && (l.size() == e.size() || l[ e.size()] == ' ');});
		if (i == ll.end()) ctx.fail( "not listed in Lexems: " + e); ll.erase( i);
	}
	for (auto& l : ll) if (l.compare( 0, 8, "KEYWORD ") != 0 && !(ind && l.compare( 0, 6, "TOKEN ") == 0)) ctx.fail( "in Lexems: " + l);
	if (f[0] == "N")
	{
		std::string c = "fun \"" + arg + "\""; int found = 0;
		if (dump.sections.at( "Function calls") != V{"(1) fun, \"" + arg + "\""}) ctx.fail( "function call listed with another argument");
		for (auto& l : dump.sections.at( "Action table")) if (l.find( "call") != std::string::npos) {++found; if (l != "\t$ => Reduce #1 R call " + c) ctx.fail( fmt( "action table, %zu characters instead of %zu: ", l.size(), c.size() + 24) + l.substr( 0, 60));}
		if (found != 1) ctx.fail( "call missing in the action table");
	}
}
static void runDump( const std::string& text, Ctx& ctx)
{
	if (text[1] == '#') return runDumpDefs( text, ctx);
	auto c = parseCase( text); const GSpec& s = c.s; bool all = c.flags.find( 'C') == std::string::npos;
	std::string src = toMewa( s, all);
	ctx.state( text); ctx.trace();
	// the debug output has no influence on the table, and every part of it can be had alone
	auto base = buildReal( src);
	if (base->refused) ctx.fail( "grammar refused: " + base->why + "\n" + src);
	typedef mewa::Automaton::DebugOutput DO;
	std::map<int,std::string> parts; std::string whole;
	V masks; for (int m=1; m<128; ++m) if ((m & (m-1)) == 0 || m == 127 || c.flags.find( 'M') != std::string::npos) masks.push_back( fmt( "%d", m)); masks.push_back( "255");
	for (auto& ms : masks)
	{
		int m = atoi( ms.c_str()); std::ostringstream out; mewa::Automaton atm; std::vector<mewa::Error> w; DO d( out); d.enable( (DO::Type)m);
		try {atm.build( src, w, d);} catch (const mewa::Error& e) {ctx.fail( "with debug output " + ms + ": " + e.what());}
		if (atm.tostring() != base->atm.tostring()) ctx.fail( "the table is another one with debug output " + ms);
		if (w.size() != base->warnings.size()) ctx.fail( fmt( "%zu warnings instead of %zu with debug output ", w.size(), base->warnings.size()) + ms);
		parts[m] = out.str(); ctx.transition( 1);
	}
	whole = parts[ 255]; if (ctx.verbose) printf( "%s\n%s\n", src.c_str(), whole.c_str());
	Dump dump( whole);
	if (dump.header != "== Language 't', type system 'ts' ==\n") ctx.fail( "header: " + dump.header);
	{
for (auto& p : parts) if (p.first < 128)
		{
			std::string e = dump.header; bool in = false; std::string body;
			for (auto& l : mc::split( whole.substr( dump.header.size()), '\n'))
			{
				if (l.compare( 0, 3, "-- ") == 0)
				{
					int o = l.find( "Lexems") != std::string::npos ? 2 : l.find( "Nonterminals") != std::string::npos ? 4 : l.find( "Productions") != std::string::npos ? 1 : l.find( "Function calls") != std::string::npos ? 16 : l.find( "Statistics") != std::string::npos ? 64 : l.find( " table:") != std::string::npos ? 32 : 8;
					in = (p.first & o) == o;
				}
				if (in) body += l + "\n";
			}
			auto trim = []( std::string t) {while (!t.empty() && t.back() == '\n') t.pop_back(); return t;};
			if (trim( p.second) != trim( e + body)) ctx.fail( fmt( "debug output %d is not the part of the whole: ", p.first) + p.second + "\nexpected:\n" + e + body);
		}
	}
	auto section = [&]( const char* n) -> const V& {auto f = dump.sections.find( n); if (f == dump.sections.end()) ctx.fail( std::string( "section missing: ") + n); return f->second;};
	// lists of the definitions
	{
		auto& nl = section( "Nonterminals"); if (nl.size() != s.nts.size()) ctx.fail( fmt( "%zu nonterminals", nl.size()));
		for (std::size_t i=0; i<nl.size(); ++i) if (nl[i] != fmt( "(%zu) %c", i+1, s.nts[i])) ctx.fail( "nonterminal: " + nl[i]);
		auto& pl = section( "Productions"); if (pl.size() != s.prods.size()) ctx.fail( fmt( "%zu productions", pl.size()));
		std::vector<std::string> calls; // numbered in the order of the first occurrence
		for (std::size_t p=0; p<s.prods.size(); ++p)
		{
			std::string e = prodText( s, p, -1), m; int k = callKind( s, p, all);
			if (k >= 0) {calls.push_back( callTextDump( p, k)); m = fmt( "%zu", calls.size());}
			int sc = s.prods[p].alt.scope; if (sc) m = std::string( sc == 1 ? "step" : "scope") + (m.empty() ? "" : ":" + m);
			if (!m.empty()) e += " (" + m + ")";
			if (normSpace( pl[p]) != normSpace( e)) ctx.fail( "production: " + pl[p] + ", expected: " + e);
		}
		if (calls.empty()) {if (dump.sections.count( "Function calls")) ctx.fail( "function calls listed");}
		else
		{
			auto& cl = section( "Function calls"); if (cl.size() != calls.size()) ctx.fail( fmt( "%zu function calls instead of %zu", cl.size(), calls.size()));
			for (std::size_t i=0; i<cl.size(); ++i) {std::string e = calls[i]; std::size_t sp = e.find( ' '); if (sp != std::string::npos) e.insert( sp, ","); if (cl[i] != fmt( "(%zu) ", i+1) + e) ctx.fail( "function call: " + cl[i] + ", expected " + e);}
		}
		auto& ll = section( "Lexems"); if (ll.size() != s.terms.size()) ctx.fail( fmt( "%zu lexems", ll.size()));
		std::set<int> ids; std::set<std::string> names;
		for (auto& l : ll)
		{
			auto f = mc::split( l, ' '); int id = atoi( f.back().c_str()); if (f.size() < 4 || f[ f.size()-2] != "~") ctx.fail( "lexem: " + l);
			std::string n = base->atm.lexer().lexemName( id), e = f[0] == "KEYWORD" ? "'" + f[1] + "'" : f[1];
			if ((f[0] != "KEYWORD" && f[0] != "TOKEN") || n != e) ctx.fail( "lexem: " + l + ", the terminal is " + n);
			ids.insert( id); names.insert( n);
		}
		if (ids.size() != s.terms.size() || names.size() != s.terms.size()) ctx.fail( "lexems listed twice");
		for (std::size_t t=1; t<=s.terms.size(); ++t) if (!names.count( lexName( s, t))) ctx.fail( "lexem not listed: " + lexName( s, t));
	}
	// states
	std::map<std::string,std::pair<int,int>> itemOf; bool same = false;
	for (std::size_t p=0; p<s.prods.size(); ++p) for (int d=0; d<=(int)s.g.prods[p].rhs.size(); ++d) if (!itemOf.insert( {normSpace( prodText( s, p, d)), {(int)p, d}}).second) same = true;
	if (same) {ctx.count( "same_production_twice"); return;}
	auto item = [&]( const std::string& t) {auto f = itemOf.find( normSpace( t)); if (f == itemOf.end()) ctx.fail( "no item of the grammar: " + t); return f->second;};
	auto closure = [&]( Items k) {for (bool ch=true; ch;) {ch = false; for (auto& i : Items( k)) {auto& r = s.g.prods[ i.first].rhs; if (i.second < (int)r.size() && !r[ i.second].term) for (std::size_t q=0; q<s.prods.size(); ++q) if (s.prods[q].nt == r[ i.second].idx) ch = k.insert( {(int)q, 0}).second || ch;}} return k;};
	std::map<int,Items> items; std::map<Items,int> byKernel; std::map<int,Items> kernel;
	for (auto& st : dump.states( "LR(0) states", ctx))
	{
		Items k; for (auto& l : st.second) {auto i = item( l); if (!items[ st.first].insert( i).second) ctx.fail( fmt( "state %d: item twice: ", st.first) + l); if (i.second || st.first == 1) k.insert( i);}
		if (st.first == 1) k = {{0,0}};
		kernel[ st.first] = k;
		if (items[ st.first] != closure( k)) ctx.fail( fmt( "LR(0) state %d is not the closure of its core", st.first));
		if (!byKernel.insert( {k, st.first}).second) ctx.fail( fmt( "LR(0) state %d is the same as another one", st.first));
	}
	for (auto& st : dump.states( "LR(0) state cores", ctx))
	{
		Items k; for (auto& l : st.second) k.insert( item( l));
		if (!kernel.count( st.first) || k != kernel[ st.first]) ctx.fail( fmt( "core of state %d differs from that of the LR(0) state", st.first));
	}
	// labels of the FOLLOW sets
	std::map<std::string,std::set<std::string> > follow; std::set<std::set<std::string> > sets;
	for (auto& l : section( "LR(1) used FOLLOW sets labeled"))
	{
		std::size_t b = l.find( "]: {"); if (l[0] != '[' || b == std::string::npos || l.back() != '}') ctx.fail( "follow set: " + l);
		std::set<std::string> f; for (auto& t : mc::split( l.substr( b+4, l.size()-b-5), ' ')) if (!t.empty()) f.insert( t);
		for (auto& t : f) {bool ok = t == "$"; for (std::size_t k=1; k<=s.terms.size(); ++k) ok = ok || t == lexName( s, k); if (!ok) ctx.fail( "terminal in follow set: " + l);}
		if (!follow.insert( {l.substr( 1, b-1), f}).second || !sets.insert( f).second) ctx.fail( "follow set twice: " + l);
	}
	// the LALR(1) states: the items are those of the LR(0) state, the transitions lead to the state with the item advanced, all entries of the table come from them
	auto lalr = dump.states( "LALR(1) states", ctx);
	if (lalr.size() != items.size()) ctx.fail( fmt( "%zu LALR(1) states, %zu LR(0) states", lalr.size(), items.size()));
	std::map<std::pair<int,std::string>,std::set<std::string> > cand; std::map<std::pair<int,std::string>,std::string> gotos; std::set<std::string> used;
	for (auto& st : lalr)
	{
		if (!items.count( st.first)) ctx.fail( fmt( "LALR(1) state %d is no LR(0) state", st.first));
		Items seen; std::map<std::string,int> go; bool accept = false;
		for (auto& l : st.second)
		{
			std::string at = fmt( "LALR(1) state %d: ", st.first) + l;
			std::size_t ar = l.find( " -> "); if (ar == std::string::npos) ctx.fail( at);
			std::string act = l.substr( ar+4), left = l.substr( 0, ar), fl; std::size_t fo = left.find( ", FOLLOW ["); bool hasFollow = fo != std::string::npos;
			if (hasFollow) {fl = left.substr( fo+10, left.size()-fo-11); left.resize( fo); used.insert( fl); if (!follow.count( fl)) ctx.fail( at + ": label of no follow set");}
			if (act == "ACCEPT" || act.compare( 0, 7, "REDUCE ") == 0)
			{
				std::size_t br = left.rfind( " ("); if (br != std::string::npos && left.back() == ')' && br > left.rfind( " .")) left.resize( br);
			}
			auto it = item( left); auto& rhs = s.g.prods[ it.first].rhs; bool complete = it.second == (int)rhs.size();
			if (!items[ st.first].count( it)) ctx.fail( at + ": not an item of the LR(0) state");
			if (act == "ACCEPT")
			{
				if (it != std::pair<int,int>( 0, (int)rhs.size()) || accept) ctx.fail( at); accept = true; seen.insert( it);
				cand[ {st.first, "$"}].insert( "Accept"); continue;
			}
			if (!hasFollow) ctx.fail( at + ": no follow set"); seen.insert( it);
			if (act.compare( 0, 7, "REDUCE ") == 0)
			{
				int k = callKind( s, it.first, all); std::string call = k >= 0 ? callTextDump( it.first, k) : "";
				std::string e = fmt( "REDUCE %c #%zu", s.nts[ s.prods[ it.first].nt], rhs.size()) + (call.empty() ? "" : " CALL " + call);
				if (!complete || act != e) ctx.fail( at + ", expected " + e);
				for (auto& t : follow[ fl]) if (it.first != 0) cand[ {st.first, t}].insert( fmt( "Reduce #%zu %c", rhs.size(), s.nts[ s.prods[ it.first].nt]) + (call.empty() ? "" : " call " + call));
				continue;
			}
			if (complete) ctx.fail( at + ": complete item");
			auto y = rhs[ it.second]; std::string nm = y.term ? lexName( s, y.idx) : std::string( 1, s.nts[ y.idx]), head = y.term ? "SHIFT " + nm + " GOTO " : "GOTO ";
			if (act.compare( 0, head.size(), head) != 0) ctx.fail( at);
			int to = atoi( act.c_str() + head.size()); if (act != head + fmt( "%d", to) || !items.count( to)) ctx.fail( at + ": no state");
			auto gi = go.insert( {nm, to}); if (gi.first->second != to) ctx.fail( at + ": two follow states");
			if (!kernel[ to].count( {it.first, it.second+1})) ctx.fail( at + ": the state does not continue the item");
			if (gi.second)
			{
				Items k; for (auto& i : items[ st.first]) {auto& r = s.g.prods[ i.first].rhs; if (i.second < (int)r.size() && r[ i.second] == y) k.insert( {i.first, i.second+1});}
				if (kernel[ to] != k) ctx.fail( at + ": the core of the state has other items");
			}
			if (y.term) cand[ {st.first, nm}].insert( "Shift goto " + fmt( "%d", to)); else gotos[ {st.first, nm}] = fmt( "%d", to);
		}
		int completed = 0; for (auto& i : items[ st.first]) completed += i.second == (int)s.g.prods[ i.first].rhs.size(); // of reductions in conflict only one is shown
		for (auto& i : items[ st.first]) if (!seen.count( i) && (completed < 2 || i.second < (int)s.g.prods[ i.first].rhs.size())) ctx.fail( fmt( "LALR(1) state %d does not have all items of the LR(0) state", st.first));
		if (accept != (items[ st.first].count( {0, (int)s.g.prods[0].rhs.size()}) != 0)) ctx.fail( fmt( "LALR(1) state %d: accept", st.first));
	}
	for (auto& f : follow) if (!used.count( f.first)) ctx.fail( "follow set not used: " + f.first);
	// tables: as in the compiler built, and what the states say
	std::map<std::pair<int,std::string>,std::string> act, gto;
	for (auto& st : dump.states( "Action table", ctx)) for (auto& l : st.second) {std::size_t p = l.find( " => "); if (p == std::string::npos || !act.insert( {{st.first, l.substr( 0, p)}, l.substr( p+4)}).second) ctx.fail( "action table: " + l);}
	if (dump.sections.count( "Goto table")) for (auto& st : dump.states( "Goto table", ctx)) for (auto& l : st.second) {std::size_t p = l.find( " => "); if (p == std::string::npos || !gto.insert( {{st.first, l.substr( 0, p)}, l.substr( p+4)}).second) ctx.fail( "goto table: " + l);}
	if (gto != gotos) ctx.fail( fmt( "the goto table (%zu entries) is not that of the states (%zu)", gto.size(), gotos.size()));
	int conflicts = 0;
	for (auto& k : cand)
	{
		auto f = act.find( k.first); std::string at = fmt( "state %d, ", k.first.first) + k.first.second + ": ";
		if (k.second.count( "Accept") && (f == act.end() || f->second != "Accept")) ctx.fail( at + "accept expected");
		if (f == act.end()) {if (k.second.size() < 2) ctx.fail( at + "no entry in the action table for " + *k.second.begin()); ++conflicts; continue;}
		if (!k.second.count( f->second)) ctx.fail( at + "entry " + f->second + " of the action table has no item, items say " + *k.second.begin());
		if (k.second.size() > 1) ++conflicts;
	}
	for (auto& a : act) if (!cand.count( a.first)) ctx.fail( fmt( "state %d, ", a.first.first) + a.first.second + ": entry of the action table without item: " + a.second);
	{
		std::map<std::pair<int,std::string>,std::string> ra, rg; auto& am = base->atm;
		for (auto& a : am.actions())
		{
			std::string t = a.first.terminal() ? am.lexer().lexemName( a.first.terminal()) : "$", v; auto x = a.second;
			typedef mewa::Automaton::Action A;
			if (x.type() == A::Shift) v = fmt( "Shift goto %d", x.state());
			else if (x.type() == A::Accept) v = "Accept";
			else {v = fmt( "Reduce #%d ", x.count()) + am.nonterminals()[ x.nonterminal()-1]; if (x.call()) {auto& cl = am.calls()[ x.call()-1]; v += " call " + cl.function(); if (cl.argtype() == mewa::Automaton::Call::StringArg) v += " \"" + cl.arg() + "\""; else if (cl.argtype() == mewa::Automaton::Call::ReferenceArg) v += " " + cl.arg();}}
			ra[ {a.first.state(), t}] = v;
		}
		for (auto& g : am.gotos()) rg[ {g.first.state(), am.nonterminals()[ g.first.nonterminal()-1]}] = fmt( "%d", g.second.state());
		if (ra != act) {for (auto& r : ra) if (act[ r.first] != r.second) ctx.fail( fmt( "state %d, ", r.first.first) + r.first.second + ": the compiler has " + r.second + ", the dump " + act[ r.first]); ctx.fail( "the dump has actions the compiler does not have");}
		if (rg != gto) ctx.fail( "the goto table of the dump is not that of the compiler");
	}
	auto& sl = section( "Statistics"); static const std::string sh = " * SHIFT/REDUCE conflicts solved by priority ";
	if (sl.size() != 1 || sl[0].compare( 0, sh.size(), sh) != 0) ctx.fail( "statistics: " + mc::join( sl, "|"));
	int solved = atoi( sl[0].c_str() + sh.size());
	if (base->warnings.empty() && (solved != 0) != (conflicts != 0)) ctx.fail( fmt( "%d conflicts solved, but the states have %d", solved, conflicts));
	if (solved && !conflicts) ctx.fail( fmt( "%d conflicts solved, but the states have none", solved));
	ctx.count( conflicts ? "grammars_with_conflicts" : "grammars_without_conflict");
}
static void enumG11( bool thorough, const Sink& sink)
{
	for (int i=0; i<512; ++i) sink( fmt( "D#%d", i)); for (int v=1; v<(thorough ? 60 : 15); ++v) for (int i=0; i<512; i += thorough ? 1 : 16-(i&15)) {sink( fmt( "D#%d#%d", i, v)); sink( fmt( "D#%d#%d", 511-i, v));} for (int v=1; v<(thorough ? 60 : 15); ++v) for (int i=0; i<9; ++i) sink( fmt( "D#%d#%d#", 1 << i, v));
	for (int i=1; i<(thorough ? 5000 : 300); ++i) sink( fmt( "N#%d", i)); for (int i=1900; i<2200; ++i) sink( fmt( "N#%d", i)); for (int i : {4000,4095,4096,5000,8191,8192,8193}) sink( fmt( "N#%d", i));
	uint64_t n = 0;
	auto add = [&]( const std::string& g, const char* flags) {sink( g + "#0#" + flags + (n++ % 50 == 0 ? "M" : ""));};
	grammars( thorough ? 2 : 1, [&]( const std::string& g) {add( g, "W");});
	enumG03( thorough, [&]( const std::string& t) {auto f = mc::split( t, '#'); add( f[0], "W");});
	uint64_t k = 0; enumG04( thorough, [&]( const std::string& t) {auto f = mc::split( t, '#'); if (f.size() >= 3 && f[2].find( 'D') == std::string::npos && (k++ % (thorough ? 1 : 4) == 0)) add( f[0], "C");});
}
