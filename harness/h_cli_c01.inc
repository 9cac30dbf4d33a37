// C01: faults of input and output.  Cases:
//   G cmd|sink|k    mewa -cmd, files can be written up to k bytes (k = 'A'+n: n bytes less than needed); sink: f file, o stdout (a file)
//   F cmd|sink      sink: full (-o /dev/full), ofull (stdout is /dev/full), pipe (nobody reads stdout), none (no stdout), dir, nodir, dfull, ddir
//   R sink|prog|k   compiler:run with files limited to k bytes;  R sink|prog|F: /dev/full; sink: f, o, d (debug file)
//   I what|n|tail   input file of n bytes; what: g grammar, s source
namespace c01 {
using c02::gram; using c02::files;
struct Gen {V args; std::string out, dbg;};
static const Gen& gen( const std::string& cmd)
{
	static std::map<std::string,Gen> cache; auto i = cache.find( cmd); if (i != cache.end()) return i->second;
	Gen g; proc::Opt o; o.cwd = wdir();
	if (cmd == "g") g.args = {"-g"}; else if (cmd == "s") g.args = {"-s"}; else if (cmd == "l") g.args = {"-l"};
	else if (cmd == "d") g.args = {"-g","-d","d.out"}; else if (cmd == "n") g.args = {"-d","d.out"}; else if (cmd == "t") g.args = {"-g","-t","big.t"};
	else throw std::runtime_error( "cmd");
	if (cmd == "t") {std::string s; for (int k=0; k<600; ++k) s += fmt( "line %d of a long template\n", k); wr( wdir() + "/big.t", s);}
	V a = {cli()}; a.insert( a.end(), g.args.begin(), g.args.end());
	if (cmd != "n") {a.push_back( "-o"); a.push_back( "o.out");}
	a.push_back( "good.g");
	auto r = proc::run( a, o);
	if (r.status) throw mc::Failure( "mewa failed without any fault: " + r.err);
	if (cmd != "n") g.out = rd( wdir() + "/o.out");
	if (cmd == "d" || cmd == "n") g.dbg = rd( wdir() + "/d.out");
	return cache[ cmd] = g;
}
static void clean() {for (auto n : {"o.out","d.out","stdout"}) unlink( (wdir() + "/" + n).c_str());}
static void cliLimit( const V& f, Ctx& ctx)
{
	Gen const& g = gen( f[0]); clean();
	size_t need = std::max( g.out.size(), g.dbg.size());
	long k = f[2][0] == 'A' ? (long)need - atol( f[2].c_str()+1) : atol( f[2].c_str());
	if (k < 0) return;
	proc::Opt o; o.cwd = wdir(); o.fsize = k;
	V a = {cli()}; a.insert( a.end(), g.args.begin(), g.args.end());
	bool file = f[1] == "f";
	if (file && f[0] != "n") {a.push_back( "-o"); a.push_back( "o.out");} else o.outpath = wdir() + "/stdout";
	a.push_back( "good.g");
	auto r = proc::run( a, o);
	ctx.transition(); ctx.trace();
	std::string got = rd( wdir() + (file ? "/o.out" : "/stdout")), dbg = g.dbg.empty() ? "" : rd( wdir() + "/d.out");
	if (f[0] == "n") got = "";
	bool complete = rtrim( got) == rtrim( g.out) && dbg == g.dbg;
	auto bad = [&]( const std::string& m) {ctx.fail( fmt( "%s with files limited to %ld bytes: %s: status %d, %zu of %zu bytes of output, %zu of %zu bytes of debug output, stderr '%s'",
		mc::join( a, " ").c_str(), k, m.c_str(), r.status, got.size(), g.out.size(), dbg.size(), g.dbg.size(), r.err.c_str()));};
	if (r.sig) bad( "killed");
	if (r.status == 0 && !complete) bad( "success reported but the output is incomplete");
	if (r.status != 0 && r.err.empty()) bad( "failure without message");
	if (r.status != 0 && k > (long)need) bad( "failure with enough space");
	ctx.state( fmt( "%s%s %zu %zu %d", f[0].c_str(), f[1].c_str(), got.size(), dbg.size(), r.status));
	clean();
}
static void cliSink( const V& f, Ctx& ctx)
{
	Gen const& g = gen( f[0]); clean();
	proc::Opt o; o.cwd = wdir();
	V a = {cli()}; a.insert( a.end(), g.args.begin(), g.args.end());
	std::string s = f[1];
	auto of = [&]( const char* n) {if (f[0] != "n") {a.push_back( "-o"); a.push_back( n);}};
	if (s == "full") of( "/dev/full"); else if (s == "dir") of( "."); else if (s == "nodir") of( "no/o.out");
	else if (s == "ofull") o.outpath = "/dev/full"; else if (s == "pipe") o.outclosed = true; else if (s == "none") o.noout = true;
	else if (s == "dfull") {a.push_back( "-d"); a.push_back( "/dev/full"); of( "o.out");} else if (s == "ddir") {a.push_back( "-d"); a.push_back( "."); of( "o.out");} else if (s == "dnodir") {a.push_back( "-d"); a.push_back( "no/d"); of( "o.out");}
	a.push_back( "good.g");
	auto r = proc::run( a, o);
	ctx.transition(); ctx.trace();
	bool any = f[0] != "n";
	bool must = s[0] == 'd' && s != "dir" ? true : any;		// something cannot be written
	if (must && r.status == 0) ctx.fail( fmt( "%s, %s: success reported", mc::join( a, " ").c_str(), s.c_str()));
	if (r.status != 0 && r.err.empty() && r.sig != SIGPIPE) ctx.fail( fmt( "%s, %s: failure without message (signal %d)", mc::join( a, " ").c_str(), s.c_str(), r.sig));
	ctx.state( f[0] + s + fmt( "%d", r.status));
	clean();
}
static const char* RUNNER = R"LUA(
local sink, prog = arg[1], tonumber( arg[2])
mewa = require "mewa"
local out = {
	function() print( "code") end,
	function() for i=1,40 do print( "line ", i, "\n") end; print_section( "X", "section") end,
	function() print( string.rep( "0123456789", 1000)) end,
}
local ts = {root=function( n) out[ prog]() end, leaf=function() end, pair=function() end}
typesystem = ts
local def = dofile( "def.lua")
local c = mewa.compiler( def)
local o = sink == "f" and "o.out" or sink == "d" and "o.out" or sink == "F" and "/dev/full" or sink == "O" and "stdout" or "stdout"
local dbg = sink == "d" and "d.out" or sink == "D" and "/dev/full" or nil
local ok, err
if dbg then ok, err = pcall( c.run, c, "t.tpl", nil, "in.txt", o, dbg) else ok, err = pcall( c.run, c, "t.tpl", nil, "in.txt", o) end
io.stderr:write( ok and "OK" or "ERR " .. tostring( err))
)LUA";
static std::string rdir()
{
	std::string d = wdir() + "/r"; static pid_t owner = 0;
	if (owner == getpid()) return d;
	owner = getpid(); mkdir( d.c_str(), 0755); mkdir( (d + "/so").c_str(), 0755);
	wr( d + "/runner.lua", RUNNER); wr( d + "/t.tpl", "A{X}B{Code}C"); wr( d + "/in.txt", "(7 (8)) 9");
	wr( d + "/def.lua", "return " + gram( "good.g").table);
	unlink( (d + "/so/mewa.so").c_str()); if (symlink( proc::env( "MEWA_SO").c_str(), (d + "/so/mewa.so").c_str())) throw std::runtime_error( "symlink");
	return d;
}
static proc::Res runner( const std::string& sink, const std::string& prog, long k, std::string& out, std::string& dbg)
{
	std::string d = rdir(); for (auto n : {"o.out","d.out","stdout"}) unlink( (d + "/" + n).c_str());
	proc::Opt o; o.cwd = d; o.fsize = k; o.env = {"LUA_CPATH=" + d + "/so/?.so"};
	if (sink == "o") o.outpath = d + "/stdout"; else if (sink == "O") o.outpath = "/dev/full";
	auto r = proc::run( {c02::luaexe(), "runner.lua", sink, prog}, o);
	out = sink == "o" ? rd( d + "/stdout") : rd( d + "/o.out"); dbg = rd( d + "/d.out");
	return r;
}
static void runLimit( const V& f, Ctx& ctx)
{
	static std::map<std::string,std::pair<std::string,std::string> > base;
	auto bi = base.find( f[0] + f[1]);
	if (bi == base.end())
	{
		std::string o, d; auto r = runner( f[0], f[1], -1, o, d);
		if ((r.status || r.err != "OK") && !strchr( "FOD", f[0][0])) ctx.fail( "compiler:run failed without any fault: " + r.err);
		bi = base.insert( {f[0] + f[1], {o, d}}).first;
	}
	std::string out, dbg; std::string const& eo = bi->second.first; std::string const& ed = bi->second.second;
	size_t need = std::max( eo.size(), ed == "<none>" ? 0 : ed.size());
	long k = f[2][0] == 'A' ? (long)need - atol( f[2].c_str()+1) : atol( f[2].c_str());
	if (strchr( "FOD", f[0][0])) k = -1; else if (k < 0) return;
	auto r = runner( f[0], f[1], k, out, dbg);
	ctx.transition(); ctx.trace();
	auto bad = [&]( const std::string& m) {ctx.fail( fmt( "compiler:run (%s %s) with files limited to %ld bytes: %s: %zu of %zu bytes of output, %zu of %zu bytes of debug output; %s",
		f[0].c_str(), f[1].c_str(), k, m.c_str(), out.size(), eo.size(), dbg.size(), ed.size(), r.err.c_str()));};
	if (r.sig) bad( "killed");
	bool ok = r.err == "OK";
	if (!ok && r.err.compare( 0, 4, "ERR ")) bad( "unexpected end");
	if (strchr( "FOD", f[0][0])) {if (ok) bad( "success reported writing to a full device");}
	else
	{
		if (ok && rtrim( out) != rtrim( eo)) bad( "success reported but the output is incomplete");
		if (ok && f[0] == "d" && dbg != ed) bad( "success reported but the debug output is incomplete");
		if (!ok && k > (long)need) bad( "failure with enough space");
	}
	if (!ok && r.err.size() < 10) bad( "failure without message");
	ctx.state( fmt( "R%s%s %zu %zu %d", f[0].c_str(), f[1].c_str(), out.size(), dbg.size(), (int)ok));
}
static void input( const V& f, Ctx& ctx)
{
	long n = atol( f[1].c_str()); int tail = atoi( f[2].c_str());
	ctx.transition(); ctx.trace(); ctx.state( "I" + f[0] + f[1] + "|" + f[2]);
	if (f[0] == "g")
	{
		std::string src = files().at( "good.g"); while (isspace( src.back())) src.pop_back();
		if (tail == 1) src.pop_back();				// the last character is needed
		else if (tail == 2) src += "\nX = \"zzz\";";		// an error at the very end
		if (n < (long)src.size() + 5) return;
		std::string txt = "/*" + std::string( n - src.size() - 5, 'x') + "*/ " + src;
		wr( wdir() + "/i.g", txt);
		proc::Opt o; o.cwd = wdir(); wr( wdir() + "/auto.t", "%automaton%");
		auto r = proc::run( {cli(), "-g", "-t", "auto.t", "i.g"}, o);
		unlink( (wdir() + "/i.g").c_str()); unlink( (wdir() + "/auto.t").c_str());
		if (tail == 0) {if (r.status || rtrim( r.out) != rtrim( gram( "good.g").table)) ctx.fail( fmt( "grammar file of %ld bytes: status %d, %s, output %s", n, r.status, r.err.c_str(), r.out.substr( 0, 300).c_str()));}
		else if (r.status == 0 || r.err.empty()) ctx.fail( fmt( "grammar file of %ld bytes with an error at its end is accepted", n));
	}
	else
	{
		std::string d = rdir(); static const V tails = {"9", "(7)", ")", "(", "9 \n", "12345678"};
		std::string t = tails.at( tail), exp;
		if (n < (long)t.size()) return;
		std::string txt = std::string( n - t.size(), ' ') + t; for (long i=0; i+1<(long)(n-t.size()); i+=61) txt[ i] = '\n';
		wr( d + "/in.txt", txt);
		std::string out, dbg; auto r = runner( "f", "1", -1, out, dbg);
		wr( d + "/in.txt", "(7 (8)) 9");
		bool ok = t.find( '(') == t.find( ')') || t == "(7)";
		if (ok != (r.err == "OK")) ctx.fail( fmt( "source of %ld bytes ending with '%s': %s", n, t.c_str(), r.err.c_str()));
		if (!ok && r.err.find( "line ") == std::string::npos) ctx.fail( "no line: " + r.err);
	}
}
static void run( const std::string& text, Ctx& ctx)
{
	c02::prepare();
	auto f = mc::split( text.substr( 2), '|');
	switch (text[0]) {case 'G': cliLimit( f, ctx); break; case 'F': cliSink( f, ctx); break; case 'R': runLimit( f, ctx); break; case 'I': input( f, ctx); break;}
}
static void enumerate( bool thorough, const Sink& sink)
{
	for (auto c : {"g","s","l","d","n","t"}) for (auto s : {"full","ofull","pipe","none","dir","nodir"}) sink( std::string( "F ") + c + "|" + s);
	for (auto c : {"g","n"}) for (auto s : {"dfull","ddir","dnodir"}) sink( std::string( "F ") + c + "|" + s);
	for (auto s : {"F","O","D"}) for (int p=1; p<=3; ++p) sink( fmt( "R %s|%d|0", s, p));
	for (auto c : {"g","s","l","d","n","t"}) for (auto s : {"f","o"})
	{
		long maxk = c[0] == 't' ? 17000 : c[0] == 'd' || c[0] == 'n' ? 12000 : 2500;
		long step = thorough ? 1 : maxk > 3000 ? 53 : 5;
		for (long k=0; k<maxk; k+=step) sink( fmt( "G %s|%s|%ld", c, s, k));
		for (long k=-2; k<(thorough ? 0:60); ++k) sink( fmt( "G %s|%s|A%ld", c, s, k));
		if (!thorough) for (long b : {4096,8192,16384}) for (long k=b-3; k<=b+3; ++k) if (k < maxk) sink( fmt( "G %s|%s|%ld", c, s, k));
	}
	for (auto s : {"f","o","d"}) for (int p=1; p<=3; ++p)
	{
		long maxk = p == 3 || s[0] == 'd' ? 12000 : p == 2 ? 500 : 30;
		long step = thorough || p < 3 && s[0] != 'd' ? 1 : 53;
		for (long k=0; k<maxk; k+=step) sink( fmt( "R %s|%d|%ld", s, p, k));
		for (long k=-2; k<40; ++k) sink( fmt( "R %s|%d|A%ld", s, p, k));
	}
	for (int t=0; t<6; ++t) for (long b : {4096,8192,12288,65536}) for (long n=b-10; n<=b+10; ++n) {sink( fmt( "I s|%ld|%d", n, t)); if (t < 3) sink( fmt( "I g|%ld|%d", n, t));}
	if (thorough) for (int t=0; t<6; ++t) for (long n=1; n<9000; ++n) {sink( fmt( "I s|%ld|%d", n, t)); if (t < 3) sink( fmt( "I g|%ld|%d", n, t));}
	else for (long n=1; n<600; ++n) sink( fmt( "I s|%ld|%d", n, (int)(n % 6)));
}
}
static void c01Register( std::map<std::string,mc::Property>& props)
{
	props["C01"] = {c01::enumerate, c01::run, "every limit of the size of files written x commands x kinds of output, outputs that cannot be written, input files of all sizes around the block size; states: distinct results (bytes written, status)", 30};
}
