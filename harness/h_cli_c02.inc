// C02: command line.  Cases:
//   W word word ...     words of the command line
//   T pieces            template (codes of pieces)
//   E g mode input      generated compiler run as a script, g: grammar, mode: see c02Script
//   S calls             stub of the functions called in a grammar
namespace c02 {
static const std::map<std::string,std::string>& files()
{
	static const std::map<std::string,std::string> f = {
		{"good.g", "% LANGUAGE \"lg\";\n% TYPESYSTEM \"ts\";\n% CMDLINE \"cl\";\nnum : \"[0-9]+\";\nS = L (root);\nL = L I | I;\nI = \"(\" L \")\" (pair) | \"(\" \")\" (pair) | num (leaf);\n"},
		{"nocmd.g", "% LANGUAGE \"l2\";\n% TYPESYSTEM \"ts\";\nnum : \"[0-9]+\";\nS = L (root 1);\nL = L num | num (m.f \"x\");\n"},
		{"conflict.g", "% LANGUAGE \"c\";\n% TYPESYSTEM \"ts\";\nnum : \"[0-9]+\";\nS = E (root);\nE = E \"+\" E (add) | num;\n"},
		{"syntax.g", "% LANGUAGE \"c\";\n% TYPESYSTEM \"ts\";\nnum : \"[0-9]+\";\nS = = E (root);\n"},
		{"tpl.t", "-- %luabin% %language%\n%typesystem%/%cmdline%\nX=%automaton%"},
		{"out.f", "OLD\n"}, {"dbg.f", "OLDDBG\n"}};
	return f;
}
struct Gram {std::string table, lang, ts, cl; std::string dbg; std::string stub, descr; bool conflict = false;};
/// what mewa has to produce: automaton and debug output by the C++ classes, stub and language description by one plain call each
static const Gram& gram( const std::string& fn)
{
	static std::map<std::string,Gram> cache;
	auto gi = cache.find( fn); if (gi != cache.end()) return gi->second;
	Gram g; std::string src = files().at( fn);
	std::stringstream dbg; std::vector<mewa::Error> warnings; mewa::Automaton a;
	a.build( src, warnings, mewa::Automaton::DebugOutput( dbg).enable( mewa::Automaton::DebugOutput::All));
	g.conflict = !warnings.empty(); g.dbg = dbg.str();
	if (!g.conflict) {g.table = a.tostring(); g.lang = a.language(); g.ts = a.typesystem(); g.cl = a.cmdline();}
	proc::Opt o; o.cwd = wdir();
	for (auto opt : {"-s", "-l"})
	{
		auto r = proc::run( {cli(), opt, fn}, o);
		if (r.status != 0 || r.out.empty()) throw mc::Failure( fmt( "mewa %s %s: status %d: %s", opt, fn.c_str(), r.status, r.err.c_str()));
		(opt[1] == 's' ? g.stub : g.descr) = rtrim( r.out);
	}
	return cache[ fn] = g;
}
static std::string subst( const std::string& t, const std::map<std::string,std::string>& kv)
{
	std::string rt;
	for (size_t i=0; i<t.size();)
	{
		size_t e = t[i] == '%' ? t.find( '%', i+1) : std::string::npos;
		if (e != std::string::npos && kv.count( t.substr( i+1, e-i-1))) {rt += kv.at( t.substr( i+1, e-i-1)); i = e+1;}
		else rt += t[i++];
	}
	return rt;
}
/// keys recognized from left to right; the key %lua%luabin% starts at the second percent sign
static const char* DEFT = "#!%luabin%\n\ntypesystem = require( \"%typesystem%\")\ncmdline = require( \"%cmdline%\")\nmewa = require(\"mewa\")\n\ncompilerdef = %automaton%\n";
static void prepare()
{
	static pid_t owner = 0;
	std::string d = wdir();
	if (owner != getpid()) {owner = getpid(); mkdir( (d + "/dir").c_str(), 0755); for (auto const& f : files()) wr( d + "/" + f.first, f.second); wr( d + "/dir/x", "x");}
}
/// after a case: everything as it was except what is listed
static void restore( Ctx& ctx, const std::set<std::string>& touched, const std::string& what)
{
	std::string d = wdir(); std::string msg;
	for (auto const& f : files())
	{
		std::string c = rd( d + "/" + f.first);
		if (c != f.second) {if (!touched.count( f.first)) msg += fmt( "%s: file %s was changed to '%s'\n", what.c_str(), f.first.c_str(), c.substr( 0, 200).c_str()); wr( d + "/" + f.first, f.second);}
	}
	for (auto const& n : proc::ls( d)) if (!files().count( n) && n != "dir")
	{
		if (!touched.count( n)) msg += what + ": file " + n + " was created\n";
		unlink( (d + "/" + n).c_str());
	}
	if (proc::ls( d + "/dir") != std::set<std::string>{"x"}) msg += what + ": directory changed\n";
	if (!msg.empty()) ctx.fail( msg);
}
struct Parsed
{
	std::string event;		// "", "usage", "help", "version", "tpl" (template cannot be read)
	bool laterDiffers = false;	// another event follows the first one: both are accepted
	char cmd = 0; bool verbose = false; std::string out, dbg, tpl, bin, input; bool hasOut = false, hasDbg = false, hasTpl = false, hasBin = false;
	bool unspecific = false;	// combination the documentation says nothing about
};
static Parsed parse( const V& w)
{
	Parsed p; std::set<std::string> events;
	auto ev = [&]( const std::string& e) {if (p.event.empty()) p.event = e; events.insert( e);};
	size_t i = 0;
	struct O {const char* s; const char* l;};
	static const O vo[] = {{"-o","--output"},{"-b","--luabin"},{"-d","--dbgout"},{"-t","--template"}};
	for (; i<w.size(); ++i)
	{
		std::string const& a = w[i];
		if (a == "--") {++i; break;}
		if (a[0] != '-') break;
		if (a == "-h" || a == "--help") {ev( "help"); continue;}
		if (a == "-v" || a == "--version") {ev( "version"); continue;}
		if (a == "-V" || a == "--verbose") {p.verbose = true; continue;}
		char cmd = (a == "-g" || a == "--generate-compiler") ? 'g' : (a == "-s" || a == "--generate-template") ? 's' : (a == "-l" || a == "--generate-language") ? 'l' : 0;
		if (cmd)
		{
			if (p.cmd) ev( "usage");
			p.cmd = cmd; continue;
		}
		bool match = false;
		for (auto const& o : vo)
		{
			std::string val; bool have = false;
			if (a == o.s || a == o.l) match = true;
			else if (a.compare( 0, 2, o.s) == 0 && a[1] != '-') {match = have = true; val = a.substr( 2);}
			else if (a.compare( 0, strlen( o.l)+1, std::string( o.l) + "=") == 0) {match = have = true; val = a.substr( strlen( o.l)+1);}
			if (!match) continue;
			if (!have) {if (i+1 < w.size() && w[i+1][0] != '-') {val = w[++i]; have = true;} else ev( "usage");}
			if (have) switch (o.s[1])
			{
				case 'o': p.out = val; p.hasOut = true; break;
				case 'b': p.bin = val; p.hasBin = true; break;
				case 'd': p.dbg = val; p.hasDbg = true; break;
				case 't': p.tpl = val; p.hasTpl = true; if (!files().count( val)) ev( "tpl"); break;
			}
			break;
		}
		if (!match) ev( "usage");
	}
	if (p.cmd == 's' && (p.hasBin || p.hasDbg || p.hasTpl)) ev( "usage");
	if (i + 1 != w.size()) ev( "usage"); else p.input = w[i];
	if (p.hasOut && !p.cmd) ev( "usage");
	// a program may find help before or after an error
	p.laterDiffers = events.size() > 1;
	return p;
}
static void words( const std::string& text, Ctx& ctx)
{
	prepare();
	V w = mc::split( text, ' ');
	if (text.empty()) w.clear();
	Parsed p = parse( w);
	V argv = {cli()}; argv.insert( argv.end(), w.begin(), w.end());
	proc::Opt o; o.cwd = wdir();
	auto r = proc::run( argv, o);
	ctx.transition(); ctx.trace();
	std::set<std::string> touched;
	std::string what = "mewa " + text;
	auto bad = [&]( const std::string& m) {try {restore( ctx, {}, "");} catch (const mc::Failure&){} ctx.fail( fmt( "%s: %s (status %d)\nstdout: %s\nstderr: %s", what.c_str(), m.c_str(), r.status, r.out.substr( 0, 400).c_str(), r.err.substr( 0, 400).c_str()));};
	if (r.sig) bad( fmt( "killed by signal %d", r.sig));
	if (r.status > 127) bad( "status");
	std::string st = p.event;
	if (!p.event.empty())
	{
		if (p.laterDiffers) {ctx.state( "several events"); restore( ctx, {}, what); return;}
		if (p.event == "usage") {if (r.status != 1 || r.err.empty() || !r.out.empty()) bad( "status 1 and a message expected");}
		else if (p.event == "help") {if (r.status != 0 || (r.err + r.out).find( "--generate-compiler") == std::string::npos) bad( "usage expected");}
		else if (p.event == "version") {if (r.status != 0 || r.out.find( "version") == std::string::npos || r.out.find( '.') == std::string::npos) bad( "version expected");}
		else if (r.status == 0 || r.err.empty() || !r.out.empty()) bad( "error reading the template expected");
		ctx.state( p.event); restore( ctx, {}, what);
		return;
	}
	// ---- a run
	bool build = p.cmd == 0 || p.cmd == 'g';
	std::string in = p.input;
	if (in == "out.f" || in == "dbg.f" || in == "tpl.t") in = "syntax.g";
	if (in == "missing.g" || in == "dir" || in == "syntax.g" || !files().count( in))
	{
		if (r.status == 0 || r.err.empty() || !r.out.empty()) bad( "error expected");
		if (p.input == "missing.g" && (r.status != ENOENT || r.err.find( "missing.g") == std::string::npos)) bad( "status ENOENT and the name of the file expected");
		if (p.input == "syntax.g" && r.err.find( "line 4") == std::string::npos) bad( "line of the error expected");
		ctx.state( "bad input " + p.input + p.cmd); restore( ctx, {}, what);
		return;
	}
	const Gram& g = gram( in);
	if (p.hasDbg && (p.cmd != 'l')) touched.insert( p.dbg);
	if (p.hasDbg && p.cmd == 'l') touched.insert( p.dbg);		// nothing said about it
	if (build && p.hasDbg && p.dbg == "dir")
	{
		if (r.status == 0 || r.err.empty() || !r.out.empty()) bad( "error writing the debug file expected");
		ctx.state( "debug to a directory"); restore( ctx, {}, what); return;
	}
	std::string dbg = p.hasDbg && p.dbg != "dir" ? rd( wdir() + "/" + p.dbg) : "";
	if (build && p.hasDbg && !(p.hasOut && p.out == p.dbg) && rtrim( dbg) != rtrim( g.dbg)) bad( "debug output differs: " + dbg.substr( 0, 300));
	if (build && g.conflict)
	{
		if (r.status == 0 || r.err.find( "onflict") == std::string::npos || !r.out.empty()) bad( "report of the conflicts expected");
		ctx.state( "conflict"); restore( ctx, touched, what); return;
	}
	std::string exp;
	if (p.cmd == 'g')
	{
		std::string bin = p.hasBin ? p.bin : "/usr/bin/lua";
		std::map<std::string,std::string> kv = {{"luabin",bin},{"typesystem",g.ts},{"language",g.lang},{"cmdline",g.cl},{"automaton",g.table}};
		if (p.hasTpl) exp = subst( files().at( p.tpl), kv);
	}
	else if (p.cmd == 's') exp = g.stub;
	else if (p.cmd == 'l') exp = g.descr;
	if (p.hasOut && p.out == "dir")
	{
		if (r.status == 0 || r.err.empty()) bad( "error writing the output expected");
		ctx.state( "output to a directory"); restore( ctx, touched, what); return;
	}
	if (r.status != 0) bad( "success expected");
	if (p.verbose && build && !p.hasDbg) {if (r.err.find( rtrim( g.dbg)) == std::string::npos) bad( "debug output on stderr expected");}
	else if (!p.verbose && !r.err.empty()) bad( "nothing on stderr expected");
	if (p.hasOut) {touched.insert( p.out); if (!r.out.empty()) bad( "nothing on stdout expected");}
	if (!p.cmd) {if (!r.out.empty()) bad( "nothing on stdout expected");}
	else
	{
		std::string got = rtrim( p.hasOut ? rd( wdir() + "/" + p.out) : r.out);
		if (p.cmd == 'g' && !p.hasTpl)
		{
			std::string bin = p.hasBin ? p.bin : "/usr/bin/lua";
			if (got.compare( 0, bin.size()+3, "#!" + bin + "\n") != 0) bad( "header #!" + bin + " expected");
			if (got.find( g.table) == std::string::npos) bad( "the table of the compiler is not part of the output: " + got.substr( 0, 400));
			if (got.find( "require( \"" + g.ts + "\")") == std::string::npos) bad( "the typesystem module is not loaded");
			if (!g.cl.empty() && got.find( "require( \"" + g.cl + "\")") == std::string::npos) bad( "the command line module is not loaded");
			if (g.cl.empty() && got.find( "cmdline") != std::string::npos && got.find( "parse") != std::string::npos) bad( "a command line module that is not there is used");
		}
		else if (got != rtrim( exp)) bad( "output differs:\n" + got.substr( 0, 600) + "\nexpected:\n" + exp.substr( 0, 600));
	}
	ctx.state( fmt( "run %c%d%d%d%d%d ", p.cmd ? p.cmd : '-', p.verbose, p.hasOut, p.hasDbg, p.hasTpl, p.hasBin) + in);
	restore( ctx, touched, what);
}
static const V PIECES = {"%luabin%", "%typesystem%", "%language%", "%cmdline%", "%automaton%", "%", "luabin%", "x", "\n", "%unknown%", "%lua", "\\%{}"};
static void templ( const std::string& text, Ctx& ctx)
{
	prepare();
	std::string t;
	for (size_t i=0; i<text.size();) {const std::string& pc = PIECES.at( text[i++] - 'a'); int n = 0; while (i < text.size() && isdigit( (unsigned char)text[i])) n = n * 10 + text[i++] - '0'; for (n = n ? n : 1; n > 0; --n) t += pc;} // piece and number of repetitions
	std::string d = wdir(); wr( d + "/t.t", t);
	const Gram& g = gram( "good.g");
	proc::Opt o; o.cwd = d;
	auto r = proc::run( {cli(), "-g", "-b", "%cmdline%", "--template=t.t", "good.g"}, o);
	ctx.transition(); ctx.trace(); ctx.state( "T" + text);
	unlink( (d + "/t.t").c_str());
	// reference: keys found from left to right, at every percent sign
	std::map<std::string,std::string> kv = {{"luabin","%cmdline%"},{"typesystem",g.ts},{"language",g.lang},{"cmdline",g.cl},{"automaton",g.table}};
	std::string exp = subst( t, kv);
	if (t.empty()) {ctx.count( "empty_template"); return;}
	if (r.status != 0 || !r.err.empty()) ctx.fail( fmt( "template '%s': status %d %s", t.substr( 0, 500).c_str(), r.status, r.err.c_str()));
	if (r.out != exp && r.out != exp + "\n") ctx.fail( "template '" + t.substr( 0, 500) + "': output\n" + r.out.substr( 0, 500) + "\nexpected\n" + exp.substr( 0, 500));
}
// ---- generated compilers as programs
static const char* TS = R"LUA(
local mewa = require "mewa"
local ts = {m={}}
local function node( n) if n.value then return n.value end; local f = n.call.proc; return f( n, n.call.obj) end
function ts.leaf( n) return n.arg[1].value end
function ts.pair( n) local t = {}; for _,a in ipairs( n.arg) do t[ #t+1] = node( a) end; return "<" .. table.concat( t, " ") .. ">" end
function ts.m.f( n, o) return o .. n.arg[1].value end
function ts.root( n, o)
	local t = {}; for _,a in ipairs( n.arg) do t[ #t+1] = node( a) end
	io.stderr:write( "ROOT:" .. (type( o) == "table" and "opt " .. tostring( o.k) or tostring( o)) .. ":" .. table.concat( t, " ") .. "\n")
	print( "code " .. table.concat( t, ","))
end
return ts
)LUA";
static const char* CL = R"LUA(
return { parse = function( lang, arg)
	local rt = {options={k=lang}}
	for _,a in ipairs( arg) do local k,v = string.match( a, "^(%w+)=(.*)$"); if k == nil then error( "usage", 0) end; rt[ k] = v end
	return rt
end}
)LUA";
static std::string luaexe() {return "/usr/bin/lua5.2";}
static void script( const std::string& text, Ctx& ctx)
{
	prepare();
	// g|mode|input: mode 0: output to stdout, 1: to a file with target, 2: with debug, 3: no argument, 4: input file missing
	auto f = mc::split( text, '|');
	bool cmd = f[0] == "c"; std::string in = f[2]; int mode = atoi( f[1].c_str());
	std::string d = wdir() + "/e"; mkdir( d.c_str(), 0755); mkdir( (d + "/so").c_str(), 0755);
	static std::set<std::string> made;
	std::string scr = d + "/" + f[0] + ".lua";
	if (made.insert( d + f[0]).second)
	{
		wr( d + "/ts.lua", TS); wr( d + "/cl.lua", CL); wr( d + "/t.tpl", "A{Code}B{Source}C{Triple}D");
		unlink( (d + "/so/mewa.so").c_str()); if (symlink( proc::env( "MEWA_SO").c_str(), (d + "/so/mewa.so").c_str())) throw std::runtime_error( "symlink");
		proc::Opt o; o.cwd = wdir();
		auto r = proc::run( {cli(), "-g", "-b", luaexe(), "-o", scr, cmd ? "good.g" : "nocmd.g"}, o);
		if (r.status != 0) ctx.fail( "mewa -g failed: " + r.err);
		if (chmod( scr.c_str(), 0755)) throw std::runtime_error( "chmod");
	}
	wr( d + "/in.txt", in); unlink( (d + "/o.out").c_str()); unlink( (d + "/d.out").c_str());
	proc::Opt o; o.cwd = d; o.env = {"LUA_CPATH=" + d + "/so/?.so", "LUA_PATH=" + d + "/?.lua"};
	V argv = {scr};
	const char* inf = mode == 4 ? "none.txt" : "in.txt";
	if (mode != 3)
	{
		if (!cmd) argv.push_back( inf);
		else
		{
			argv.push_back( std::string("input=") + inf); argv.push_back( "target=t.tpl");
			if (mode == 1 || mode == 2) argv.push_back( "output=o.out");
			if (mode == 2) argv.push_back( "debug=d.out");
		}
	}
	auto r = proc::run( argv, o);
	ctx.transition(); ctx.trace();
	// ---- reference
	std::vector<V> st( 1); bool ok = true;
	for (size_t i=0; ok && i<in.size();)
	{
		if (in[i] == ' ') {++i; continue;}
		if (isdigit( in[i])) {std::string n; while (i < in.size() && isdigit( in[i])) n += in[i++]; if (!cmd && st[0].empty()) n = "x" + n; st.back().push_back( n); continue;}
		if (!cmd) {ok = false; break;}
		if (in[i] == '(') st.push_back( V());
		else if (in[i] == ')') {if (st.size() < 2) {ok = false; break;} std::string s = "<" + mc::join( st.back(), " ") + ">"; st.pop_back(); st.back().push_back( s);}
		else ok = false;
		++i;
	}
	if (st.size() != 1 || st[0].empty()) ok = false;
	if (mode >= 3) ok = false;
	ctx.state( fmt( "E%s%d", f[0].c_str(), mode) + (ok ? mc::join( st[0], " ") : std::string("error")));
	auto bad = [&]( const std::string& m) {ctx.fail( fmt( "%s: %s: status %d\nstdout '%s'\nstderr '%s'", mc::join( argv, " ").c_str(), m.c_str(), r.status, r.out.c_str(), r.err.c_str()));};
	if (!ok)
	{
		if (r.status == 0 || r.err.empty()) bad( "error expected");
		if (r.err.find( "ROOT:") != std::string::npos) bad( "function called with invalid input");
		if (rd( d + "/o.out") != "<none>") bad( "output written");
		if (mode < 3 && r.err.find( "line 1") == std::string::npos) bad( "line of the error expected");
		return;
	}
	if (r.status != 0) bad( "success expected");
	std::string tr = "ROOT:" + std::string( cmd ? "nil" : "1") + ":" + mc::join( st[0], " ") + "\n";
	// the options are passed to functions without argument of their own
	std::string tro = "ROOT:opt lg:" + mc::join( st[0], " ") + "\n";
	if (r.err != tr && r.err != tro) bad( "trace '" + tr + "' expected");
	std::string outp = cmd ? "Acode " + mc::join( st[0], ",") + "Bin.txtCtD" : "";
	if (mode == 0) {if (rtrim( r.out) != outp) bad( "output '" + outp + "' expected");}
	else if (rd( d + "/o.out") != outp || !r.out.empty()) bad( "output file '" + rd( d + "/o.out") + "' instead of '" + outp + "'");
	if (mode == 2 && rd( d + "/d.out").size() < 10) bad( "debug output expected");
}
// ---- stubs: every function called exists in the module printed, once
static const V CALLS = {"f", "g", "m.f", "m.n.h", "m.g 1", "f {a=1}", "_x \"s\"", ">> f", "{} k.k"};
static void stub( const std::string& text, Ctx& ctx)
{
	std::string src = "% TYPESYSTEM \"ts\";\nS = X;\n"; std::set<std::string> fn; int n = 0;
	std::string seq = text; int many = 0;
	if (isdigit( (unsigned char)text[0])) {many = atoi( text.c_str()); seq.assign( many, text.back());}
	for (char c : seq)
	{
		std::string call = CALLS.at( c - 'a');
		if (many) {size_t k = call.find_last_of( "fgh"); call.insert( k+1, fmt( "%d", n)); if (n % 3 == 1) call.insert( k, fmt( "q%d.", n % 7));} src += fmt( "X = \"k%d\" (%s);\n", n++, call.c_str());
		std::string name = call; if (name.compare( 0, 2, ">>") == 0 || name.compare( 0, 2, "{}") == 0) name = name.substr( 3);
		fn.insert( name.substr( 0, name.find( ' ')));
	}
	std::string d = wdir(); wr( d + "/s.g", src);
	auto r = proc::run( {cli(), "-s", d + "/s.g"}, proc::Opt());
	ctx.transition(); ctx.trace(); ctx.state( "S" + text);
	if (r.status || !r.err.empty()) ctx.fail( "mewa -s failed: " + r.err + "\n" + src);
	std::string err;
	auto res = chost().chunk( "local src = ...; local m = assert( load( src, '=stub'))(); local rt = {}\n"
		"local function walk( p, t) for k,v in pairs( t) do if type( v) == 'table' then walk( p .. k .. '.', v) else rt[ p .. k] = type( v) end end end\nwalk( '', m); return rt", {r.out}, &err);
	if (!err.empty()) ctx.fail( "stub cannot be loaded: " + err + "\n" + r.out);
	std::map<std::string,std::string> got, exp;
	for (auto const& e : res[0].tab) got[ e.first.s] = e.second.s;
	for (auto const& e : fn) exp[ e] = "function";
	if (got != exp) ctx.fail( "functions of the stub differ from the functions called:\n" + r.out);
	for (auto const& e : fn)
	{
		size_t cnt = 0; for (size_t p = r.out.find( "function typesystem." + e + "("); p != std::string::npos; p = r.out.find( "function typesystem." + e + "(", p+1)) ++cnt;
		if (cnt > 1) ctx.fail( "function " + e + " is there twice:\n" + r.out);
	}
}
static void run( const std::string& text, Ctx& ctx)
{
	std::string arg = text.size() > 2 ? text.substr( 2) : "";
	switch (text[0]) {case 'W': words( arg, ctx); break; case 'T': templ( arg, ctx); break; case 'E': script( arg, ctx); break; case 'S': stub( arg, ctx); break;}
}
static void seqs( const V& alpha, size_t lo, size_t hi, const char* sep, const std::function<void(const std::string&)>& f)
{
	std::function<void(size_t,const std::string&)> rec = [&]( size_t n, const std::string& s) {if (n >= lo) f( s); if (n == hi) return; for (auto const& a : alpha) rec( n+1, n ? s + sep + a : a);};
	rec( 0, "");
}
static void enumerate( bool thorough, const Sink& sink)
{
	const V all = {"-g","-s","-l","-V","-h","-v","--","-x","-o","-t","-d","-b","out.f","dbg.f","tpl.t","good.g","nocmd.g","conflict.g","syntax.g","missing.g","dir","-oout.f","--output=out.f","--output","--template=tpl.t","-ttpl.t","--dbgout=dbg.f","--luabin=/x/lua",
		"--generate-compiler","--generate-template","--generate-language","--verbose","--version","--help","--unknown","-tnone","-odir","--dbgout=dir","-ddbg.f","-b/x"};
	const V some = {"-g","-s","-l","-V","--","-o","-t","-d","out.f","dbg.f","tpl.t","good.g","conflict.g","missing.g","-oout.f","--output","-h"};
	const V few = {"-g","-l","-s","-o","-t","-d","f.out","tpl.t","good.g"};
	// complete up to a length
	seqs( all, 0, thorough ? 3 : 2, " ", [&]( const std::string& s) {sink( "W " + s);});
	seqs( thorough ? some : V({"-g","-s","-o","-t","-V","--","out.f","tpl.t","good.g","conflict.g","-d","-h"}), 3, thorough ? 4 : 3, " ", [&]( const std::string& s) {sink( "W " + s);});
	// options with values in all orders, then the input
	const V opts = {"-g","-s","-l","-V","-o out.f","--output=out.f","-t tpl.t","--template tpl.t","-ttpl.t","-d dbg.f","--dbgout=dbg.f","--dbgout dbg.f","-b /x","--luabin=/y","--luabin /z","--generate-compiler","--output out.f","-o dir","-o new.f","-d new.d"};
	const V ins = thorough ? V({"good.g","nocmd.g","conflict.g","syntax.g","missing.g","dir","-- good.g","good.g good.g"}) : V({"good.g","conflict.g"});
	seqs( opts, 1, thorough ? 4 : 3, " ", [&]( const std::string& s) {size_t n = 0; for (char c : s) n += c == ' '; for (auto const& i : ins) {if (thorough && i != "good.g" && std::count( s.begin(), s.end(), '-') > 3) continue; sink( "W " + s + " " + i);}});
	// templates
	V pc; for (size_t i=0; i<PIECES.size(); ++i) pc.push_back( std::string( 1, 'a'+i));
	seqs( pc, 1, thorough ? 4 : 3, "", [&]( const std::string& s) {sink( "T " + s);});
	for (int n : {2,3,10,31,32,33,63,64,65,127,128,129,255,256,257,511,512,513,1023,1024,1025,2047,2048,2049,4095,4096,4097,8191,8192,8193,16384,32768,65535,65536,65537,100000})
		for (auto w : {"h%de","a%d","f%d","i%de","h%d","eh%d","hf%da","h%dfb","j%da","gh%dd","l%d","ah%de"}) sink( fmt( "T ") + fmt( w, n));
	for (int n : {2,3,10,100,300}) sink( fmt( "T he%dh", n));
	// many functions
	for (int n : {2,3,7,8,9,15,16,17,31,32,33,63,64,65,127,128,129,200,254,255,256,257,400,500}) for (char c : {'a','b','c','d'}) sink( fmt( "S %d%c", n, c));
	// scripts
	for (int mode=0; mode<5; ++mode) for (auto g : {"c","n"})
	{
		if (g[0] == 'n' && (mode == 1 || mode == 2)) continue;
		seqs( {"(",")","7"," ","42"}, 0, mode >= 3 ? 2 : thorough ? 6 : mode == 1 ? 4 : 3, "", [&]( const std::string& s) {sink( std::string( "E ") + g + fmt( "|%d|", mode) + s);});
	}
	V cs; for (size_t i=0; i<CALLS.size(); ++i) cs.push_back( std::string( 1, 'a'+i));
	seqs( cs, 1, thorough ? 4 : 3, "", [&]( const std::string& s) {sink( "S " + s);});
}
}
static void c02Register( std::map<std::string,mc::Property>& props)
{
	props["C02"] = {c02::enumerate, c02::run, "command lines (all sequences of words up to a length, all orders of options), templates, inputs of generated programs, sets of calls; states: distinct expected outcomes", 20};
}
