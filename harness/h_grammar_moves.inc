// ---------------------------------------------------------------- B09: the debug output of a compiler lists its moves
static const char* MOVES_RUNTIME = R"LUA(
local src = ...
local typesystem = {ref = {}}
local function result( i) if i % 4 == 0 then return nil elseif i % 4 == 1 then return "r" .. i elseif i % 4 == 2 then return i + 0.5 else return {a = i, b = {"x\n"}} end end
for i = 0,99 do
	typesystem.ref[ "r" .. i] = {isref = i}
	typesystem[ "f" .. i] = function() return result( i) end
end
local compiler = assert( load( "local mewa, typesystem = ...; return mewa.compiler( " .. src .. ")", "=gen"))( mewa, typesystem)
return function( what, input, dbg)
	if what then local v = result( what); return v ~= nil and mewa.tostring( v, 0, true) or false end
	local ok, err = pcall( compiler.run, compiler, nil, nil, input, "/dev/null", dbg)
	local ok2, err2 = pcall( compiler.run, compiler, nil, nil, input, "/dev/null")
	if ok ~= ok2 or err ~= err2 then return "the run without debug output gives another result: " .. tostring( err2) .. ", with " .. tostring( err) end
	return ok and "ok" or "err " .. tostring( err)
end
)LUA";
static std::string readAll( const std::string& fn) {std::string rt; FILE* f = fopen( fn.c_str(), "rb"); if (!f) throw mc::Failure( "cannot read " + fn); char b[ 4096]; std::size_t n; while ((n = fread( b, 1, sizeof b, f)) > 0) rt.append( b, n); fclose( f); return rt;}

static void runMoves( const std::string& text, Ctx& ctx)
{
	auto c = parseCase( text); const GSpec& s = c.s; bool all = c.flags.find( 'C') == std::string::npos;
	std::string src = toMewa( s, all); auto b = buildReal( src);
	ctx.state( text);
	if (b->refused || !b->warnings.empty()) {ctx.count( "grammars_refused_skipped"); return;}
	auto& am = b->atm; lh::Host& h = chost(); lua_State* L = h.L;
	std::vector<int> kindOf; std::vector<int> prodOf; for (std::size_t p=0; p<s.prods.size(); ++p) {int k = callKind( s, p, all); if (k >= 0) {prodOf.push_back( p); kindOf.push_back( k);}}
	std::vector<int> id( s.terms.size()+1, 0);
	for (std::size_t t=1; t<=s.terms.size(); ++t) for (int i=1; i<=(int)s.terms.size(); ++i) if (am.lexer().lexemName( i) == lexName( s, t)) id[t] = i;
	if (luaL_loadbuffer( L, MOVES_RUNTIME, strlen( MOVES_RUNTIME), "=moves")) throw mc::Failure( lua_tostring( L, -1));
	std::string table = am.tostring(); lua_pushlstring( L, table.data(), table.size());
	if (lua_pcall( L, 1, 1, 0)) {std::string m = lua_tostring( L, -1); lua_settop( L, 0); ctx.fail( m);}
	int ref = luaL_ref( L, LUA_REGISTRYINDEX);
	struct Unref {lua_State* L; int r; ~Unref() {lua_settop( L, 0); luaL_unref( L, LUA_REGISTRYINDEX, r);}} unref{L, ref};
	std::map<int,std::string> results;
	auto result = [&]( int i) -> const std::string&
	{
		auto f = results.find( i); if (f != results.end()) return f->second;
		lua_rawgeti( L, LUA_REGISTRYINDEX, ref); lua_pushinteger( L, i); if (lua_pcall( L, 1, 1, 0)) ctx.fail( lua_tostring( L, -1));
		std::string r = lua_isboolean( L, -1) ? "" : std::string( "=") + lua_tostring( L, -1); lua_pop( L, 1); return results[i] = r;
	};
	std::string dbg = mc::scratch() + fmt( "/moves%d", (int)getpid());
	std::vector<int> in;
	std::function<void()> rec = [&]()
	{
		// lines: tokens 2 and 3 on one line
		std::string content; int line = 1; std::vector<int> lines;
		for (std::size_t i=0; i<in.size(); ++i) {if (i) {bool nl = i % 2 == 1; content += nl ? "\n" : " "; line += nl;} content += s.terms[ in[i]-1]; lines.push_back( line);}
		if (in.size() % 3 == 2) {content += "\n"; ++line;}
		std::vector<int> states = {1}, nv; std::vector<int> vals /*number of the call, -1 token*/; V full, cut /*variant: a defect on record*/; bool ok = true, over = false; std::string error;
		for (std::size_t i=0; i<=in.size() && ok && !over; ++i)
		{
			bool eof = i == in.size(), first = true; int t = eof ? 0 : in[i]; bool kw = t && !isTok( s.terms[ t-1]);
			std::string nm = lexName( s, t), val = t ? std::string( 1, s.terms[ t-1]) : "", tok = kw || eof ? nm : nm + " = \"" + val + "\""; int ln = eof ? line : lines[i];
			for (bool consumed = false; !consumed;)
			{
				auto a = am.actions().find( {states.back(), id[t]}); std::string m; typedef mewa::Automaton::Action A;
				if (a == am.actions().end()) {ok = false; m = "Error token " + (eof ? nm + " = \"\"" : tok) + fmt( " at line %d in state %d", ln, states.back());}
				else if (a->second.type() == A::Shift) {m = "Shift token " + tok + fmt( " at line %d in state %d, goto %d", ln, states.back(), a->second.state()); states.push_back( a->second.state()); nv.push_back( kw ? 0 : 1); if (!kw) vals.push_back( -1);}
				else if (a->second.type() == A::Accept || a->second.type() == A::Reduce)
				{
					int n = a->second.count(), from = states.back(), sum = 0;
					for (int k=0; k<n; ++k) {sum += nv.back(); nv.pop_back(); states.pop_back();}
					if (a->second.call()) {vals.resize( vals.size() - sum); vals.push_back( a->second.call()-1); sum = 1;}
					if (a->second.type() == A::Accept) {m = "Accept"; over = true;}
					else
					{
						int to = am.gotos().at( {states.back(), a->second.nonterminal()}).state(); states.push_back( to); nv.push_back( sum);
						int cl = a->second.call();
						m = fmt( "Reduce #%d to ", n) + am.nonterminals()[ a->second.nonterminal()-1] + " by token " + tok + fmt( " at line %d in state %d", ln, from) + (cl ? ", call " + callTextDump( prodOf[ cl-1], kindOf[ cl-1]) : "") + fmt( ", goto %d", to);
					}
				}
				full.push_back( m); if (!eof || !first) cut.push_back( m);
				if (!ok || over || (a->second.type() == A::Shift)) consumed = true;
				first = false;
			}
		}
		V calls;
		if (over && !prodOf.empty()) for (std::size_t i=0; i<vals.size(); ++i)
		{
			if (vals[i] < 0) {ok = false; break;}
			int p = prodOf[ vals[i]]; std::string ca = callArg( p, kindOf[ vals[i]]);
			calls.push_back( "Calling Lua function: " + callFn( p) + (ca.empty() ? "" : " " + ca));
			if (!result( p).empty()) {calls.push_back( fmt( "Lua call result [%zu]", i+1)); calls.push_back( result( p).substr( 1));}
		}
		for (auto& x : calls) {full.push_back( x); cut.push_back( x);}
		std::string e1, e2; for (auto& l : full) e1 += l + "\n"; for (auto& l : cut) e2 += l + "\n";
		lua_rawgeti( L, LUA_REGISTRYINDEX, ref); lua_pushnil( L); lua_pushstring( L, inputFile( content).c_str()); lua_pushstring( L, dbg.c_str());
		if (lua_pcall( L, 3, 1, 0)) ctx.fail( lua_tostring( L, -1));
		std::string r = lua_tostring( L, -1); lua_pop( L, 1);
		std::string got = readAll( dbg); ctx.transition( full.size()); ctx.trace();
		std::string at = "input '" + content + "': ";
		if (ctx.verbose) printf( "%s%s\n%s\n", at.c_str(), r.c_str(), got.c_str());
		if ((r == "ok") != ok || (r != "ok" && r.compare( 0, 4, "err ") != 0)) ctx.fail( at + r);
		if (got != e1)
		{
			if (got == e2) ctx.finding( "end-of-input-first-move", at + "first move with the end of the input not listed, expected:\n" + e1 + "got:\n" + got);
			else ctx.fail( at + "debug output:\n" + got + "expected:\n" + e1);
		}
		if ((int)in.size() >= c.maxlen) return;
		for (int t=1; t<=(int)s.terms.size(); ++t) {in.push_back( t); rec(); in.pop_back();}
	};
	rec(); unlink( dbg.c_str());
}
static void enumB09( bool thorough, const Sink& sink)
{
	auto add = [&]( const std::string& g, const char* flags)
	{
		auto s = parseSpec( g); std::size_t t = s.terms.size();
		sink( g + fmt( "#%d#", t > 4 ? 2 : t > 2 ? 3 : t > 1 ? 4 : 5) + flags);
	};
	uint64_t k = 0;
	grammars( thorough ? 1 : 0, [&]( const std::string& g) {if (k++ % (thorough ? 2 : 1) == 0 && lr::Lalr( parseSpec( g).g).conflicts.empty()) add( g, "M");});
	k = 0; enumG04( thorough, [&]( const std::string& t) {auto f = mc::split( t, '#'); if (f.size() >= 3 && f[2].find( 'D') == std::string::npos && (k++ % (thorough ? 1 : 3) == 0)) add( f[0], "CM");});
	k = 0; enumG03( thorough, [&]( const std::string& t) {if (k++ % (thorough ? 1 : 6) == 0) add( mc::split( t, '#')[0], "M");});
}
