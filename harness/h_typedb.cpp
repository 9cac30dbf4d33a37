// Exhaustive checks of the type database through its Lua interface against reference models.
#include "mc.hpp"
#include "luahost.hpp"
#include <climits>
#include <cmath>
using namespace mc;
using lh::Val;

namespace {

enum {INF = INT_MAX};
// The same case at other places of the range of steps: the model counts in small numbers, the library gets them through an increasing function
int g_place = 0, g_half = 0;
int toReal( int x)
{
	if (x <= 0 || x >= 1000) return x;
	switch (g_place)
	{
		case 1: return x * 65536 + 1;		case 2: return INT_MAX - 600 + x*16;
		case 3: return 32767 - 3 + x;		case 4: return 65536 - 3 + x;
		case 5: return x * 100000000;		case 6: return (1<<24) - 3 + x;
		case 7: return (1<<30) - 3 + x;		case 8: return 256 - 3 + x;
	}
	return x;
}
enum {NPlaces = 8};
int fromReal( int x) {for (int i=1; g_place && i<1000; ++i) {if (toReal( i) == x) return i; if (toReal( i) > x || i == 20) break;} return x;}
struct Sc
{
	int s, e;
	bool operator==( const Sc& o) const {return s==o.s && e==o.e;}
	bool operator<( const Sc& o) const {return s==o.s ? e<o.e : s<o.s;}
	bool has( int step) const {return s <= step && step < e;}
	bool covers( const Sc& o) const {return s <= o.s && o.e <= e;}
	std::string str() const {return e == INF ? fmt( "%d-i", s) : fmt( "%d-%d", s, e);}
	static Sc parse( const std::string& t)
	{
		auto p = split( t, '-'); return {atoi( p[0].c_str()), p[1] == "i" ? (int)INF : atoi( p[1].c_str())};
	}
	Val val() const {return Val::ilist( {toReal( s), e == INF ? -1 : toReal( e)});}
};
bool laminar( const Sc& a, const Sc& b) {return a.covers(b) || b.covers(a) || a.e <= b.s || b.e <= a.s;}
std::vector<Sc> scopesUpTo( int K, bool inf, bool empties=false)
{
	std::vector<Sc> rt;
	if (inf) rt.push_back( {0,INF});
	for (int len=K; len>=(empties?0:1); --len) for (int s=0; s+len<=K; ++s) rt.push_back( {s,s+len});
	return rt;
}

// ---- typedb reuse: names are made unique per case, so that a database serves many cases; renewed regularly
struct Db
{
	lh::Host* host; lh::Typedb* db; int uses; int serial;
};
int g_obj = 0;		// object ids are unique within a worker's host

lh::Typedb& freshDb( bool force=false, int maxUses=300)
{
	static Db d{nullptr,nullptr,0,0};
	if (d.db && !force && d.uses < maxUses) {++d.uses; return *d.db;}
	if (d.db)
	{
		delete d.db; d.db = nullptr; d.host->gc();
		if (++d.serial >= 40) {delete d.host; d.host = nullptr; d.serial = 0; g_obj = 0;}
	}
	if (!d.host) d.host = new lh::Host();
	d.db = new lh::Typedb( *d.host); d.uses = 1;
	return *d.db;
}
/// any step between two points of the model is the same for it: the first and the last one alternately
void goStep( lh::Typedb& db, int st) {int r = toReal( st); if (g_place && st < 10 && (++g_half & 1)) r = toReal( st+1) - 1; db.step( r);}
int g_ask = -1;		// number of the question asked before the first and after every operation, or -1
long g_uniq = 0;
std::string uniq() {return fmt( "u%ld_", ++g_uniq);}
Val newObj() {return Val::object( ++g_obj);}

std::vector<int> stepsOf( int K) {std::vector<int> rt; for (int i=0; i<=K+1; ++i) rt.push_back( i); rt.push_back( INT_MAX-1); return rt;}

//---------------------------------------------------------------------------------------------
// S01: scope bound objects.  Case: "<K>|x:0-4;y:1-3;..."
//---------------------------------------------------------------------------------------------
struct InstOp {char name; Sc sc;};
std::vector<InstOp> parseInst( const std::string& t, int& K)
{
	auto p = split( t, '|'); K = atoi( p[0].c_str());
	std::vector<InstOp> rt;
	for (auto& o : split( p[1], ';')) if (!o.empty()) rt.push_back( {o[0], Sc::parse( o.substr( 2))});
	return rt;
}
const Sc* innermost( const std::vector<Sc>& l, int step)
{
	const Sc* b = nullptr;
	for (auto const& s : l) if (s.has( step) && (!b || b->covers( s))) b = &s;
	return b;
}
void runInst( const std::string& text, Ctx& ctx)
{
	int K; auto ops = parseInst( text, K);
	auto& db = freshDb();
	std::string pre = uniq();
	std::map<char, std::map<Sc,Val>> model;
	std::set<char> names{'x'};
	auto checkStep = [&]( char n, const std::vector<Sc>& defs, int st)
		{
			goStep( db, st);
			const Sc* in = innermost( defs, st);
			Val exp = in ? model[n][ *in] : Val();
			Val got = db.call1( "get_instance", {pre + n});
			if (!(got == exp)) ctx.fail( fmt( "get_instance('%c') at step %d: got %s, expected %s (scope %s)", n, st, got.str().c_str(), exp.str().c_str(), in?in->str().c_str():"none"));
		};
	auto checkScope = [&]( char n, const Sc& sc)
		{
			db.call( "scope", {sc.val()});
			auto mi = model[n].find( sc);
			Val exp = mi == model[n].end() ? Val() : mi->second;
			Val got = db.call1( "this_instance", {pre + n});
			if (!(got == exp)) ctx.fail( fmt( "this_instance('%c') in scope %s: got %s, expected %s", n, sc.str().c_str(), got.str().c_str(), exp.str().c_str()));
		};
	std::string canon;
	auto ask = [&]
	{
		if (g_ask < 0) return;
		char n = g_ask & 1 ? 'y' : 'x'; int q = g_ask >> 1; auto steps = stepsOf( K); auto scs = scopesUpTo( K, true, true);
		std::vector<Sc> defs; for (auto const& m : model[n]) defs.push_back( m.first);
		if (q < (int)steps.size()) checkStep( n, defs, steps[ q]); else if (q - steps.size() < scs.size()) checkScope( n, scs[ q - steps.size()]);
		ctx.count( "asked");
	};
	ask();
	for (auto const& o : ops)
	{
		Val v = newObj();
		names.insert( o.name);
		db.call( "scope", {o.sc.val()});
		auto rt = db.call( "set_instance", {pre + o.name, v});
		model[ o.name][ o.sc] = v;
		ctx.transition();
		ask();
	}
	for (char n : names)
	{
		canon += n;
		std::vector<Sc> defs; for (auto const& m : model[n]) {defs.push_back( m.first); canon += m.first.str() + ";";}
		if (g_ask >= 0) continue;
		for (int st : stepsOf( K)) checkStep( n, defs, st);
		for (auto const& sc : scopesUpTo( K, true, true)) checkScope( n, sc);
	}
	ctx.state( canon);
	ctx.trace();
}
/// n scopes: nested, side by side, children of one scope, nested with the same end, one or two nests and scopes left of them in one scope; in three orders
std::vector<Sc> manyScopes( int n, int shape, int order)
{
	std::vector<Sc> l;
	for (int i=0; i<n; ++i)
	{
		if (shape == 0) l.push_back( {i, 2*n-i});
		else if (shape == 1) l.push_back( {2*i, 2*i+2});
		else if (shape == 2) l.push_back( i == 0 ? Sc{0,3*n+3} : Sc{3*i, 3*i+2});
		else if (shape == 3) l.push_back( {i, 2*n});	// same end
		else if (i == 0) l.push_back( {0, 5*n+9});
		else if (shape == 5) l.push_back( i < n-2 ? Sc{n+5+i, 4*n+5-i} : i == n-2 ? Sc{1,3} : Sc{3,4}); // nest, then scopes left of it
		else if (i <= n/2) l.push_back( {n+5+i, 4*n+5-i});	// two nests side by side
		else l.push_back( {i-n/2, n+5-(i-n/2)/2});
	}
	if (order == 1) std::reverse( l.begin(), l.end());
	if (order == 2) {std::vector<Sc> r; for (int i=0, j=n-1; i<=j; ++i,--j) {r.push_back( l[i]); if (i<j) r.push_back( l[j]);} l = r;}
	return l;
}
void sizes( int max, const std::function<void( int)>& f) {for (int n=1; n<=max; n += n < 20 ? 1 : n < 64 ? 7 : n == 64 ? 1 : n < 135 ? 13 : 57) f( n);}
void laminarSeqs( const std::vector<Sc>& scs, int len, std::vector<Sc>& cur, const std::function<void()>& f)
{
	f();
	if ((int)cur.size() == len) return;
	for (auto const& s : scs)
	{
		bool ok = true; for (auto const& c : cur) ok = ok && laminar( s, c);
		if (!ok) continue;
		cur.push_back( s); laminarSeqs( scs, len, cur, f); cur.pop_back();
	}
}
void enumInst( bool th, const Sink& sink)
{
	auto emit = [&]( int K, int len, bool inf, bool emp)
	{
		std::vector<Sc> cur;
		laminarSeqs( scopesUpTo( K, inf, emp), len, cur, [&]{
			std::string t = fmt( "%d|", K); for (auto const& c : cur) t += "x:" + c.str() + ";";
			if (!cur.empty()) sink( t);
		});
	};
	emit( 4, 3, true, true);
	emit( th ? 6 : 5, 4, true, false);
	if (th) emit( 4, 5, true, false);
	if (th) emit( 4, 4, true, true);
	// two names, all interleavings of assignments
	{
		std::vector<Sc> scs = scopesUpTo( 3, true); int len = th ? 4 : 3;
		std::vector<std::string> cur;
		std::function<void(std::vector<InstOp>&)> rec = [&]( std::vector<InstOp>& ops)
		{
			if (!ops.empty()) {std::string t = "3|"; for (auto& o : ops) t += std::string(1,o.name) + ":" + o.sc.str() + ";"; sink( t);}
			if ((int)ops.size() == len) return;
			for (char n : {'x','y'}) for (auto const& s : scs)
			{
				bool ok = true; for (auto const& o : ops) ok = ok && (o.name != n || laminar( s, o.sc));
				if (!ok) continue;
				ops.push_back( {n,s}); rec( ops); ops.pop_back();
			}
		};
		std::vector<InstOp> ops; rec( ops);
	}
	// size sweeps: n nested scopes / n siblings / n children in one parent, three insertion orders
	sizes( th ? 200 : 110, [&]( int n)
	{
	for (int shape=0; shape<6; ++shape) for (int order=0; order<3; ++order)
	{
		auto l = manyScopes( n, shape, order);
		std::string t = fmt( "%d|", 6); for (auto const& c : l) t += "x:" + c.str() + ";";
		if (t.size() < 60000) sink( "b" + t);
	}});
}
void runInstBig( const std::string& text, Ctx& ctx)
{
	int K; auto ops = parseInst( text.substr( 1), K);
	auto& db = freshDb();
	std::string pre = uniq();
	std::map<Sc,Val> model; std::vector<Sc> defs; std::set<int> pts;
	for (auto const& o : ops)
	{
		Val v = newObj(); db.call( "scope", {o.sc.val()}); db.call( "set_instance", {pre, v}); model[ o.sc] = v; ctx.transition();
		for (int d=-1; d<=1; ++d) {if (o.sc.s+d >= 0) pts.insert( o.sc.s+d); if (o.sc.e+d >= 0) pts.insert( o.sc.e+d);}
	}
	for (auto& m : model) defs.push_back( m.first);
	for (int st : pts)
	{
		goStep( db, st); const Sc* in = innermost( defs, st); Val exp = in ? model[ *in] : Val();
		Val got = db.call1( "get_instance", {pre});
		if (!(got == exp)) ctx.fail( fmt( "get_instance at step %d: got %s, expected %s", st, got.str().c_str(), exp.str().c_str()));
	}
	for (auto& m : model)
	{
		db.call( "scope", {m.first.val()}); Val got = db.call1( "this_instance", {pre});
		if (!(got == m.second)) ctx.fail( fmt( "this_instance in %s: got %s, expected %s", m.first.str().c_str(), got.str().c_str(), m.second.str().c_str()));
	}
	ctx.state( text); ctx.trace();
}
void runS01( const std::string& t, Ctx& ctx) {if (t[0] == 'b') runInstBig( t, ctx); else runInst( t, ctx);}

//---------------------------------------------------------------------------------------------
// S05: current scope/step state of the typedb.  Case: "s:0-5;t:0-5:3;p:4;g;"
//---------------------------------------------------------------------------------------------
void runS05( const std::string& text, Ctx& ctx)
{
	auto& db = freshDb( true);	// fresh: the initial state is observed too
	Sc cur{0,INF}; int step = 0; bool known = false;
	// initial state: read once
	{
		auto r = db.call( "scope", {});
		ctx.eq( r.size(), (size_t)2, "number of results of scope()");
		ctx.eq( Val( r[0].at(1)), Val(0), "initial scope start"); ctx.eq( Val( r[0].at(2)), Val((int)INF), "initial scope end");
		step = r[1].i(); known = true; (void)known;
	}
	auto expectScope = [&]( const std::vector<Val>& r, const char* what)
	{
		ctx.eq( r.size(), (size_t)2, std::string("results of ") + what);
		ctx.eq( r[0].str(), Val::ilist( {cur.s,cur.e}).str(), std::string("scope returned by ") + what);
		ctx.eq( r[1].i(), step, std::string("step returned by ") + what);
	};
	std::string pre = uniq();
	for (auto& o : split( text, ';')) if (!o.empty())
	{
		auto p = split( o, ':');
		if (p[0] == "s") {Sc n = Sc::parse( p[1]); expectScope( db.call( "scope", {n.val()}), "scope(set)"); cur = n; step = n.e - 1;}
		else if (p[0] == "t") {Sc n = Sc::parse( p[1]); int st = atoi( p[2].c_str()); expectScope( db.call( "scope", {n.val(), Val(st)}), "scope(set,step)"); cur = n; step = st;}
		else if (p[0] == "p") {int st = atoi( p[1].c_str()); auto r = db.call( "step", {Val(st)}); ctx.eq( strs( r), Val(step).str(), "step returned by step(set)"); step = st;}
		else if (p[0] == "g") {expectScope( db.call( "scope", {}), "scope()"); auto r = db.call( "step", {}); ctx.eq( strs( r), Val(step).str(), "step()");}
		else if (p[0] == "i") {db.call( "set_instance", {pre + "n", newObj()}); db.call( "get_instance", {pre + "n"}); db.call( "resolve_type", {Val(0), pre + "t"}); db.call( "def_type", {Val(0), pre + fmt( "t%ld", ++g_uniq)});}
		else if (p[0] == "e") {std::string e; db.call( "scope", {Val::ilist( {5,2})}, &e); ctx.check( !e.empty(), "scope({5,2}) must be refused"); db.call( "step", {Val("x")}, &e); ctx.check( !e.empty(), "step('x') must be refused"); db.call( "scope", {Val::ilist( {1,2}), Val("x")}, &e); ctx.check( !e.empty(), "scope({1,2},'x') must be refused");
			auto r = db.call( "scope", {}); cur = {r[0].at(1).i(), r[0].at(2).i()}; step = r[1].i(); }
		ctx.transition();
		ctx.state( cur.str() + fmt( "@%d", step));
		{auto r = db.call( "scope", {}); expectScope( r, "scope() after the call");}
	}
	ctx.trace();
}
void enumS05( bool th, const Sink& sink)
{
	std::vector<std::string> al{"g","i","s:0-5","s:2-4","s:3-i","s:0-i","s:7-8","t:0-5:3","t:0-5:0","t:2-4:9","p:0","p:4","p:2147483646","e"};
	std::function<void(std::string,int)> rec = [&]( std::string c, int d)
	{
		if (d) sink( c);
		if (d == (th ? 4 : 3)) return;
		for (auto& a : al) rec( c + a + ";", d+1);
	};
	if (th) rec( "", 0);
	else {std::vector<std::string> k = al; rec( "", 0);}
}

//---------------------------------------------------------------------------------------------
// S02: type definitions.  Case "T|sc:ctx:name:params;..."  ctx 0|p|q ; params subset of p,q,P(p with constructor)
// Visible candidates, this_type, this_types, duplicates, attributes of every type defined.
//---------------------------------------------------------------------------------------------
struct Param {int type; Val ctor;};
struct TypeRec
{
	Sc scope; int ctx; std::string name; std::vector<Param> par; Val ctor; int handle;
};
struct TypeModel
{
	std::vector<TypeRec> types;
	std::vector<Sc> scopes;
	TypeRec* byHandle( int h) {for (auto& t : types) if (t.handle == h) return &t; return nullptr;}
	std::vector<int> same( const Sc& sc, int ctx, const std::string& n)
	{
		std::vector<int> rt; for (auto& t : types) if (t.scope == sc && t.ctx == ctx && t.name == n) rt.push_back( t.handle); return rt;
	}
	int find( const Sc& sc, int ctx, const std::string& n, const std::vector<int>& par)
	{
		for (auto& t : types) if (t.scope == sc && t.ctx == ctx && t.name == n && t.par.size() == par.size())
		{
			bool ok = true; for (size_t i=0; i<par.size(); ++i) ok = ok && par[i] == t.par[i].type;
			if (ok) return t.handle;
		}
		return 0;
	}
	std::vector<int> visible( int step, int ctx, const std::string& n)
	{
		std::vector<Sc> l; for (auto& t : types) if (t.ctx == ctx && t.name == n) l.push_back( t.scope);
		const Sc* in = innermost( l, step);
		return in ? same( *in, ctx, n) : std::vector<int>();
	}
	std::string string( int h, const std::string& sep)
	{
		if (!h) return "";
		TypeRec* t = byHandle( h);
		std::string rt;
		if (t->ctx) rt = string( t->ctx, sep) + sep;
		rt += t->name;
		if (!t->par.empty())
		{
			rt += "(";
			for (size_t i=0; i<t->par.size(); ++i) {if (i) rt += ","; rt += string( t->par[i].type, sep);}
			rt += ")";
		}
		return rt;
	}
};
Val parVal( const std::vector<Param>& par, int style)
{
	std::vector<Val> l;
	for (auto const& p : par)
	{
		if (p.ctor.isnil() && style != 2) l.push_back( Val( p.type));
		else if (style == 1) {Val v; v.set( Val(1), Val( p.type)); v.set( Val(2), p.ctor); l.push_back( v);}
		else {Val v; v.set( Val("type"), Val( p.type)); if (!p.ctor.isnil()) v.set( Val("constructor"), p.ctor); l.push_back( v);}
	}
	return Val::list( l);
}
std::string ilistStr( std::vector<int> l, bool sort=true) {if (sort) std::sort( l.begin(), l.end()); std::string rt; for (int i : l) rt += fmt( "%d ", i); return rt;}
std::vector<int> toInts( const Val& v)
{
	std::vector<int> rt; for (size_t i=1; i<=v.len(); ++i) rt.push_back( v.at( (int)i).i()); return rt;
}
void checkAttributes( Ctx& ctx, lh::Typedb& db, TypeModel& m, const char* when)
{
	for (auto& t : m.types)
	{
		auto w = [&]( const char* f){return fmt( "%s of type %d ('%s') %s", f, t.handle, t.name.c_str(), when);};
		ctx.eq( db.call1( "type_name", {Val(t.handle)}).str(), Val( t.name).str(), w( "type_name"));
		ctx.eq( db.call1( "type_context", {Val(t.handle)}).i(), t.ctx, w( "type_context"));
		ctx.eq( db.call1( "type_nof_parameters", {Val(t.handle)}).i(), (int)t.par.size(), w( "type_nof_parameters"));
		ctx.eq( db.call1( "type_constructor", {Val(t.handle)}).str(), t.ctor.str(), w( "type_constructor"));
		ctx.eq( db.call1( "type_scope", {Val(t.handle)}).str(), Val::ilist( {toReal( t.scope.s), toReal( t.scope.e)}).str(), w( "type_scope"));
		Val p = db.call1( "type_parameters", {Val(t.handle)});
		ctx.eq( p.len(), t.par.size(), w( "length of type_parameters"));
		for (size_t i=0; i<t.par.size(); ++i)
		{
			ctx.eq( p.at( (int)i+1).at( "type").i(), t.par[i].type, w( "type of parameter"));
			ctx.eq( p.at( (int)i+1).at( "constructor").str(), t.par[i].ctor.str(), w( "constructor of parameter"));
		}
		ctx.eq( db.call1( "type_string", {Val(t.handle)}).str(), Val( m.string( t.handle, " ")).str(), w( "type_string"));
		ctx.eq( db.call1( "type_string", {Val(t.handle), Val("::")}).str(), Val( m.string( t.handle, "::")).str(), w( "type_string(sep)"));
	}
}
int defType( Ctx& ctx, lh::Typedb& db, TypeModel& m, const Sc& sc, int cx, const std::string& name, const std::vector<Param>& par, const Val& ctor, int style=0)
{
	db.call( "scope", {sc.val()});
	std::vector<Val> args{ Val(cx), Val(name)};
	if (!ctor.isnil() || !par.empty() || style == 2) args.push_back( ctor);
	if (!par.empty() || style == 2) args.push_back( parVal( par, style));
	int h = db.call1( "def_type", args).i();
	std::vector<int> pt; for (auto& p : par) pt.push_back( p.type);
	int ex = m.find( sc, cx, name, pt);
	if (ex)
	{
		if (h != -1) ctx.fail( fmt( "def_type of the duplicate '%s' returned %d instead of -1", name.c_str(), h));
		return -1;
	}
	if (h <= 0) ctx.fail( fmt( "def_type of the new type '%s' in scope %s returned %d", name.c_str(), sc.str().c_str(), h));
	if (m.byHandle( h)) ctx.fail( fmt( "def_type of the new type '%s' returned handle %d that is in use for another type", name.c_str(), h));
	m.types.push_back( {sc, cx, name, par, ctor, h});
	return h;
}
void runS02( const std::string& text, Ctx& ctx)
{
	auto& db = freshDb();
	std::string pre = uniq();
	TypeModel m;
	int p = defType( ctx, db, m, {0,INF}, 0, pre + "p", {}, newObj());
	int q = defType( ctx, db, m, {0,INF}, 0, pre + "q", {}, Val());
	struct Op {Sc sc; char cx; std::string name, par;};
	std::set<Sc> scs; std::set<std::pair<int,std::string>> keys;
	int n = 0;
	std::string canon; bool big = text[0] == '#';
	auto checkScope = [&]( int cx, const std::string& nm, const Sc& sc)
	{
		std::string name = pre + nm;
			db.call( "scope", {sc.val()});
			auto got = toInts( db.call1( "this_types", {Val(cx), Val(name)}));
			auto exp = m.same( sc, cx, name);
			if (ilistStr( got) != ilistStr( exp)) ctx.fail( fmt( "this_types(%d,'%s') in scope %s: got {%s}, expected {%s}", cx, nm.c_str(), sc.str().c_str(), ilistStr(got).c_str(), ilistStr(exp).c_str()));
			for (auto& par : std::vector<std::vector<int>>{{},{p},{q},{p,q},{q,p}})
			{
				std::vector<Val> args{ Val(cx), Val(name)}; if (!par.empty()) args.push_back( Val::ilist( par));
				Val g = db.call1( "this_type", args); int e = m.find( sc, cx, name, par);
				if (e ? (g.i() != e) : !g.isnil()) ctx.fail( fmt( "this_type(%d,'%s',{%s}) in scope %s: got %s, expected %d (0: nil)", cx, nm.c_str(), ilistStr(par,false).c_str(), sc.str().c_str(), g.str().c_str(), e));
			}
	};
	auto checkStep = [&]( int cx, const std::string& nm, int st)
	{
		std::string name = pre + nm;
			goStep( db, st);
			auto r = db.call( "resolve_type", {Val(cx), Val(name)});
			auto exp = m.visible( st, cx, name);
			if (exp.empty()) {if (!r.empty() && !r[0].isnil()) ctx.fail( fmt( "resolve_type(%d,'%s') at step %d: got %s, expected nothing", cx, nm.c_str(), st, strs( r).c_str()));}
			else
			{
				if (r.size() != 3 || r[0].i() != cx || r[1].len() != 0 || ilistStr( toInts( r[2])) != ilistStr( exp))
					ctx.fail( fmt( "resolve_type(%d,'%s') at step %d: got %s, expected %d,{},{%s}", cx, nm.c_str(), st, strs( r).c_str(), cx, ilistStr(exp).c_str()));
			}
	};
	auto ask = [&]
	{
		if (g_ask < 0) return;
		static const int steps[] = {0,2,3,5,7,8}; static const Sc scopes[] = {{0,8},{2,5},{2,3},{0,INF}};
		int cx = g_ask & 1 ? p : 0; std::string nm = g_ask & 2 ? "b" : "a"; int k = (g_ask >> 2) % 10;
		if (k < 6) checkStep( cx, nm, steps[ k]); else checkScope( cx, nm, scopes[ k-6]);
		ctx.count( "asked");
	};
	ask();
	for (auto& o : split( text.substr( big), ';')) if (!o.empty())
	{
		auto f = split( o, ':');
		Sc sc = Sc::parse( f[0]); int cx = f[1] == "0" ? 0 : f[1] == "p" ? p : q; std::string name = pre + f[2];
		std::vector<Param> par;
		for (char c : f[3]) par.push_back( {tolower(c) == 'p' ? p : q, isupper(c) ? newObj() : Val()});
		int h = defType( ctx, db, m, sc, cx, name, par, n % 3 == 2 ? Val() : newObj(), f.size() > 4 ? atoi( f[4].c_str()) : 0);
		++n; scs.insert( sc); keys.insert( {cx, f[2]});
		ctx.transition();
		if (h > 0) canon += o + "/"; else canon += "dup/";
		ask();
	}
	ctx.state( canon);
	checkAttributes( ctx, db, m, "at the end");
	if (g_ask >= 0) {ctx.trace(); return;}
	std::set<std::string> nms{"a","b"}; if (big) for (auto& k : keys) nms.insert( k.second);
	std::vector<int> steps{0,1,2,3,4,5,6,7,8,9,INT_MAX-1};
	if (big) {std::set<int> st( steps.begin(), steps.end()); for (auto& sc : scs) for (int d : {-1,0,1}) {if (sc.s+d >= 0) st.insert( sc.s+d); if (sc.e != INF) st.insert( sc.e+d);} steps.assign( st.begin(), st.end());}
	for (auto cx : {0,p,q}) for (std::string nm : nms)
	{
		if (big && cx) continue;
		for (auto& sc : scs) checkScope( cx, nm, sc);
		for (int st : steps) checkStep( cx, nm, st);
	}
	ctx.trace();
}
void enumS02( bool th, const Sink& sink)
{
	auto seqs = [&]( const std::vector<std::string>& al, int len)
	{
		std::function<void(std::string,int)> rec = [&]( std::string c, int d)
		{
			if (d) sink( c);
			if (d == len) return;
			for (auto& a : al) rec( c + a + ";", d+1);
		};
		rec( "", 0);
	};
	{
		std::vector<std::string> al;
		for (auto sc : {"0-8","2-6","2-4","4-6"}) for (auto cx : {"0","p"}) for (auto par : {"","p"}) al.push_back( std::string(sc) + ":" + cx + ":a:" + par);
		seqs( al, th ? 4 : 3);
	}
	{
		std::vector<std::string> al;
		for (auto sc : {"0-8","2-6"}) for (auto nm : {"a","b"}) for (auto par : {"","p","Q","pq"}) al.push_back( std::string(sc) + ":0:" + nm + ":" + par);
		seqs( al, th ? 4 : 3);
	}
	{	// same scope: all overload orders with parameter styles
		std::vector<std::string> al;
		for (auto par : {"","p","q","P","pq","qp","PQ","pp"}) for (auto st : {"0","1","2"}) al.push_back( std::string("0-8:0:a:") + par + ":" + st);
		seqs( al, 3);
	}
	// many types: scopes in all shapes and orders, overloads of one name in one scope, names in one scope
	sizes( th ? 400 : 110, [&]( int n)
	{
		for (int shape=0; shape<6; ++shape) for (int order=0; order<3; ++order) {std::string t; for (auto& sc : manyScopes( n, shape, order)) t += sc.str() + ":0:a:;"; sink( "#" + t);}
		std::string o, nm, ctxs;
		for (int i=0; i<n; ++i) {std::string par; for (int k=i+1; k>1; k>>=1) par += k&1 ? 'q' : 'p'; o += "0-8:0:a:" + par + ";"; nm += fmt( "0-8:0:%s:;", i ? fmt( "n%d", i).c_str() : "a");}
		sink( "#" + o); sink( "#" + nm); sink( "#" + o + o); sink( "#" + nm + nm);
	});
	if (th)
	{
		std::vector<std::string> al;
		for (auto& s : scopesUpTo( 4, true)) al.push_back( s.str() + ":0:a:");
		std::vector<Sc> cur;
		laminarSeqs( scopesUpTo( 5, true), 4, cur, [&]{std::string t; for (auto& c : cur) t += c.str() + ":0:a:;"; if (!t.empty()) sink( t);});
	}
	else
	{
		std::vector<Sc> cur;
		laminarSeqs( scopesUpTo( 5, true), 3, cur, [&]{std::string t; for (auto& c : cur) t += c.str() + ":0:a:;"; if (!t.empty()) sink( t);});
		laminarSeqs( scopesUpTo( 3, true), 4, cur, [&]{std::string t; for (auto& c : cur) t += c.str() + ":0:a:;"; if (!t.empty()) sink( t);});
	}
}

//---------------------------------------------------------------------------------------------
// T04: attributes stay stable.  Case: "d:<ctxref>:<p,p>;..."  references to earlier definitions; "n<count>:<shape>" sweeps
//---------------------------------------------------------------------------------------------
void runT04( const std::string& text, Ctx& ctx)
{
	TypeModel m;
	if (text[0] == 'n')
	{
		auto& db = freshDb( true);
		auto f = split( text.substr(1), ':'); int n = atoi( f[0].c_str()); int shape = atoi( f[1].c_str());
		std::vector<int> hs; std::string pre = uniq();
		for (int i=0; i<n; ++i)
		{
			std::vector<Param> par; int cx = 0; std::string name = pre + fmt( "t%d", i);
			if (shape == 1) cx = i ? hs[ i-1] : 0;				// deep context nesting
			else if (shape == 2) {for (int k=std::max( 0, i-3); k<i; ++k) par.push_back( {hs[k], k%2 ? newObj() : Val()}); }
			else if (shape == 3) {name = std::string( i+1, 'x');}		// names of every length
			else if (shape == 4 && i == n-1) {for (int k=0; k<i; ++k) par.push_back( {hs[k], k%3==0 ? newObj() : Val()});}	// n parameters
			else if (shape == 5) {name = pre + "o"; for (int k=0; k<i; ++k) par.push_back( {hs[0], Val()});}	// n overloads
			if (shape == 2 && i > 9) for (auto& p : par) p.type = hs[ (i*7+(int)(&p-&par[0])) % 9];
			int h = defType( ctx, db, m, {0,INF}, cx, name, par, i%2 ? newObj() : Val());
			ctx.check( h > 0, "type refused"); hs.push_back( h);
			ctx.transition();
		}
		if (shape == 5)
		{
			db.call( "scope", {Sc{0,INF}.val()});
			auto got = toInts( db.call1( "this_types", {Val(0), Val( pre+"o")}));
			ctx.eq( ilistStr( got), ilistStr( hs), "this_types of n overloads");
			for (int i=0; i<n; ++i) {std::vector<int> par( i, hs[0]); ctx.eq( db.call1( "this_type", {Val(0), Val( pre+"o"), Val::ilist( par)}).i(), hs[i], fmt( "this_type with %d parameters", i));}
			goStep( db, 5);
			auto r = db.call( "resolve_type", {Val(0), Val( pre+"o")});
			ctx.check( r.size() == 3, "resolve_type of n overloads"); ctx.eq( ilistStr( toInts( r[2])), ilistStr( hs), "candidates");
		}
		// n deep parameter nesting makes exponentially long names only for shape 2; bounded above
		checkAttributes( ctx, db, m, "at the end");
		ctx.state( text); ctx.trace();
		return;
	}
	if (text[0] == 'P')
	{
		// types with a great number of parameters: refused without effect or complete
		auto& db = freshDb( true); int n = atoi( text.c_str()+1);
		std::vector<int> hs; for (int i=0; i<3; ++i) hs.push_back( defType( ctx, db, m, {0,INF}, 0, fmt( "p%d", i), {}, Val()));
		std::vector<Param> par; for (int k=0; k<n; ++k) par.push_back( {hs[ k%3], k%1000 == 7 ? newObj() : Val()});
		Val pv = parVal( par, 0);
		std::string err; auto r = db.call( "def_type", {Val(0), Val("big"), Val("c"), pv}, &err);
		if (!err.empty())
		{
			ctx.check( n >= 32000, "refused: " + err); ctx.count( "refused");
			ctx.check( db.call1( "this_type", {Val(0), Val("big"), pv}, &err).isnil(), "type refused but defined");
			ctx.check( db.call1( "this_types", {Val(0), Val("big")}).len() == 0, "type refused but listed");
		}
		else
		{
			int h = r[0].i(); ctx.check( h > 0, "no handle");
			auto got = db.call1( "type_parameters", {Val(h)}); ctx.check( (int)got.len() == n, fmt( "type_parameters: %d of %d", (int)got.len(), n));
			for (int k=0; k<n; ++k) {const Val& e = got.at( k+1); if (e.at( "type").i() != par[k].type || !(e.at( "constructor") == par[k].ctor)) ctx.fail( fmt( "parameter %d", k));}
			ctx.eq( (int)db.call1( "type_nof_parameters", {Val(h)}).i(), n, "type_nof_parameters");
			std::string ts = db.call1( "type_string", {Val(h)}).s; size_t commas = std::count( ts.begin(), ts.end(), ',');
			ctx.check( (int)commas == std::max( 0, n-1), fmt( "type_string lists %d parameters", (int)commas+1));
			ctx.eq( ilistStr( toInts( db.call1( "this_types", {Val(0), Val("big")}))), ilistStr( {h}), "this_types");
		}
		defType( ctx, db, m, {0,INF}, 0, "after", {{hs[0], Val()}}, newObj());
		checkAttributes( ctx, db, m, "at the end"); ctx.state( text); ctx.transition(); ctx.trace();
		return;
	}
	auto& db = freshDb();
	std::string pre = uniq();
	std::vector<int> hs; int i = 0;
	if (text[0] == 'Z') // names with any bytes: Z<name>
	{
		std::string nm = dec( text.substr( 1));
		int a = defType( ctx, db, m, {0,INF}, 0, pre + nm, {}, newObj());
		int b = defType( ctx, db, m, {0,INF}, a, nm + pre, {{a,newObj()}}, Val());
		defType( ctx, db, m, {0,8}, b, nm + pre + nm, {{b,Val()},{a,Val()}}, newObj());
		checkAttributes( ctx, db, m, "names"); ctx.state( text); ctx.transition( 3); ctx.trace();
		return;
	}
	for (auto& o : split( text, ';')) if (!o.empty())
	{
		auto f = split( o, ':');
		int cx = f[0] == "0" ? 0 : hs[ atoi( f[0].c_str())-1];
		std::vector<Param> par; for (char c : f[1]) par.push_back( {hs[ tolower(c)-'a'], isupper(c) ? newObj() : Val()});
		hs.push_back( defType( ctx, db, m, i % 2 ? Sc{0,8} : Sc{0,INF}, cx, pre + std::string( 1, 'a'+i), par, i%2 ? Val() : newObj(), i % 3));
		++i; ctx.transition();
		checkAttributes( ctx, db, m, fmt( "after definition %d", i).c_str());
		ctx.state( text.substr( 0, 3*i));
	}
	ctx.trace();
}
void enumT04( bool th, const Sink& sink)
{
	int len = th ? 5 : 4;
	std::function<void(std::string,int)> rec = [&]( std::string c, int d)
	{
		if (d) sink( c);
		if (d == len) return;
		for (int cx=0; cx<=d; ++cx)
		{
			std::vector<std::string> pars{""};
			for (int a=0; a<d; ++a)
			{
				pars.push_back( std::string( 1, 'a'+a)); pars.push_back( std::string( 1, 'A'+a));
				if (d <= 3) for (int b=0; b<d; ++b) pars.push_back( std::string( 1, 'a'+a) + std::string( 1, (b%2?'A':'a')+b));
			}
			for (auto& p : pars) rec( c + fmt( "%d:%s;", cx, p.c_str()), d+1);
		}
	};
	if (!th) len = 3;
	rec( "", 0);
	std::string al( "a\0\xff ,()'\"\\\n%", 12);
	std::function<void(std::string,int)> nm = [&]( std::string c, int d) {sink( "Z" + enc( c)); if (d) for (char x : al) nm( c + x, d-1);};
	nm( "", th ? 3 : 2);
	for (int b=0; b<256; ++b) sink( "Z" + enc( std::string( 1, (char)b)));
	for (int n : {1000,4095,4096,16383,16384,32766,32767,32768,32769,65534,65535,65536,65537,65538,98304,131072,131073}) sink( fmt( "P%d", n));
	for (int shape=0; shape<6; ++shape) for (int n : {1,2,3,5,8,9,15,16,17,31,32,33,63,64,65,100,127,128,129,255,256,257,300}) if (shape != 2 || n <= 40) if (th || n <= 129 || shape == 3 || shape == 4) sink( fmt( "n%d:%d", n, shape));
	if (th) for (int n : {1000,4000,20000}) sink( fmt( "n%d:0", n));
	if (th) for (int n : {1000,3000}) sink( fmt( "n%d:4", n));
}

//---------------------------------------------------------------------------------------------
// T05: names.  Case "p|enc(A)|enc(B)" ; "l|len|pos" ; "m|count"
//---------------------------------------------------------------------------------------------
void runT05( const std::string& text, Ctx& ctx)
{
	auto f = split( text, '|');
	if (f[0] == "m")
	{
		auto& db = freshDb( true);
		int n = atoi( f[1].c_str()); std::string pre = f[2];
		std::map<std::string,int> h; std::set<int> used;
		db.call( "scope", {Sc{0,INF}.val()});
		for (int i=0; i<n; ++i)
		{
			std::string nm = pre + fmt( "%d", i); if (i % 5 == 4) nm = std::string( 1 + i % 37, 'a' + i % 26) + nm;
			int t = db.call1( "def_type", {Val(0), Val(nm)}).i();
			ctx.check( t > 0 && used.insert( t).second, fmt( "name number %d not taken as a new type", i)); h[ nm] = t;
			ctx.transition();
		}
		for (auto& e : h)
		{
			ctx.eq( db.call1( "this_type", {Val(0), Val(e.first)}).i(), e.second, "this_type('" + e.first + "')");
			ctx.eq( db.call1( "type_name", {Val(e.second)}).str(), Val(e.first).str(), "type_name");
		}
		ctx.state( text); ctx.trace(); return;
	}
	std::string A, B;
	if (f[0] == "p") {A = dec( f[1]); B = dec( f[2]);}
	else if (f[0] == "z") {int len = atoi( f[1].c_str()); A = std::string( len, 'x'); A[ atoi( f[2].c_str())] = 0; B = A; B[ atoi( f[3].c_str())] = f.size() > 4 ? 0 : 'y';}
	else {int len = atoi( f[1].c_str()), pos = atoi( f[2].c_str()); A = std::string( len, 'x'); B = A; if (pos < 0) B += (char)(pos == -2 ? 0 : 'x'); else B[ pos] = pos % 2 ? 'y' : 0;}
	auto& db = freshDb( f[0] == "l", 200);
	// names are used as they are; the context type is new for every case
	db.call( "scope", {Sc{0,INF}.val()});
	int cx = db.call1( "def_type", {Val(0), Val( uniq() + "ctx")}).i();
	Val ca = newObj(), cb = newObj(), ia = newObj(), ib = newObj();
	int a = db.call1( "def_type", {Val(cx), Val(A), ca}).i();
	ctx.check( a > 0, "def_type(A) refused");
	Val g = db.call1( "this_type", {Val(cx), Val(B)});
	if (A == B) ctx.eq( g.i(), a, "lookup of the same name"); else ctx.check( g.isnil(), "a different name finds the type: " + g.str());
	auto r = db.call( "resolve_type", {Val(cx), Val(B)});
	ctx.check( (A == B) == (r.size() == 3), "resolve_type of the other name: " + strs( r));
	int b = db.call1( "def_type", {Val(cx), Val(B), cb}).i();
	ctx.check( (A == B) ? b == -1 : (b > 0 && b != a), fmt( "def_type(B) returned %d", b));
	ctx.eq( db.call1( "type_name", {Val(a)}).str(), Val(A).str(), "type_name(A)");
	ctx.eq( db.call1( "this_type", {Val(cx), Val(A)}).i(), a, "this_type(A)");
	if (A != B)
	{
		ctx.eq( db.call1( "type_name", {Val(b)}).str(), Val(B).str(), "type_name(B)");
		ctx.eq( db.call1( "this_type", {Val(cx), Val(B)}).i(), b, "this_type(B)");
	}
	// instances of the two names do not meet either (fresh scope per case)
	static int base = 0; base = (base + 4) % 1000000;
	Sc sc{base, base+3};
	db.call( "scope", {sc.val()});
	db.call( "set_instance", {Val(A), ia});
	g = db.call1( "this_instance", {Val(B)});
	ctx.check( A == B ? g == ia : g.isnil(), "this_instance of the other name: " + g.str());
	db.call( "set_instance", {Val(B), ib});
	g = db.call1( "get_instance", {Val(A)});
	ctx.check( A == B ? g == ib : g == ia, "get_instance(A) after set_instance(B): " + g.str());
	ctx.transition( 4); ctx.state( text); ctx.trace();
}
void enumT05( bool th, const Sink& sink)
{
	std::vector<std::string> names{""};
	std::string al( "ab\0\xff ", 5);
	size_t lo = 0;
	for (int len=1; len<=(th?4:3); ++len)
	{
		size_t hi = names.size();
		for (size_t i=lo; i<hi; ++i) for (char c : len == 4 ? std::string("a\0",2) : al) names.push_back( names[i] + c);
		lo = hi;
	}
	if (!th) {}
	for (auto& a : names) for (auto& b : names) sink( "p|" + enc(a) + "|" + enc(b));
	for (int len=1; len<= (th ? 700 : 140); ++len) for (int pos : {0, len/2, len-1, -1, -2}) sink( fmt( "l|%d|%d", len, pos));
	for (int len : {255,256,257,511,1023,1024,4095,8180,8189,8190,8191,8192,8193,32767,32768,65526,65527,65528,65529,65530,65531,65532,65533,65534,65535,65536,65537,65540,70000,131072})
		for (int pos : {0, len-1, -1, -2}) sink( fmt( "l|%d|%d", len, pos));
	// names with a zero byte that differ only somewhere behind or before it
	for (int len=2; len <= (th ? 300 : 40); ++len) for (int z=0; z<len; z += (len > 40 ? 7 : 1)) for (int d=0; d<len; d += (len > 40 ? 5 : 1)) if (d != z) sink( fmt( "z|%d|%d|%d", len, z, d));
	for (int len : {63,64,65,127,128,129,255,256,257,511,512,513,1000,1024,4096,10000,32768,65535})
		for (int z : {0,1,len/3,len-2}) for (int d : {1,2,len/4,len/3+1,len/2,len-9,len-5,len-2,len-1}) if (d != z) {sink( fmt( "z|%d|%d|%d", len, z, d)); sink( fmt( "z|%d|%d|%d|0", len, z, d));}
	for (auto pre : {"v","_","name_","%"}) sink( std::string("m|") + (th ? "40000":"6000") + "|" + pre);
}

//---------------------------------------------------------------------------------------------
// S03: introspection trees. Case "I|..S01 ops.." / "T|..S02 ops.." / "R|sc:from:to:tag:ctor;.."
//---------------------------------------------------------------------------------------------
struct Node {Sc sc; std::string item; std::vector<Node> chld;};
std::string nodeStr( const Node& n)
{
	std::vector<std::string> c; for (auto& x : n.chld) c.push_back( nodeStr( x));
	std::sort( c.begin(), c.end());
	return "[" + n.sc.str() + " " + n.item + " " + join( c, "") + "]";
}
/// expected tree: every scope with content below the innermost scope that covers it; root always [0,INF]
std::string modelTree( const std::map<Sc,std::string>& items, const std::string& emptyItem)
{
	std::vector<Sc> scs; for (auto& i : items) if (!(i.first == Sc{0,INF})) scs.push_back( i.first);
	std::function<Node(const Sc&)> mk = [&]( const Sc& s) -> Node
	{
		auto it = items.find( s);
		Node n{s, it == items.end() ? emptyItem : it->second, {}};
		for (auto& c : scs) if (!(c == s) && s.covers( c))
		{
			bool direct = true;
			for (auto& d : scs) if (!(d == s) && !(d == c) && s.covers( d) && d.covers( c)) direct = false;
			if (direct) n.chld.push_back( mk( c));
		}
		return n;
	};
	return nodeStr( mk( Sc{0,INF}));
}
// Lua helper turns a tree object into nested tables
const char* treeChunk =
	"local tree, kind, limit = ...\n"
	"local count = 0\n"
	"local function conv( nd)\n"
	"  count = count + 1; if count > limit then error( 'tree does not end') end\n"
	"  local rt = {scope = nd:scope()}\n"
	"  if kind == 'I' then rt.instance = nd:instance() else rt.list = {}; for e in nd:list() do table.insert( rt.list, e); if #rt.list > limit then error( 'list does not end') end end end\n"
	"  rt.chld = {}\n"
	"  for c in nd:chld() do table.insert( rt.chld, conv( c)) end\n"
	"  return rt\n"
	"end\n"
	"local a = conv( tree); count = 0\n"
	"return a, conv( tree)\n";
Node convNode( const Val& v, const std::function<std::string(const Val&)>& item)
{
	Node n; n.sc = {fromReal( v.at( "scope").at(1).i()), fromReal( v.at( "scope").at(2).i())}; n.item = item( v);
	for (size_t i=1; i<=v.at( "chld").len(); ++i) n.chld.push_back( convNode( v.at( "chld").at( (int)i), item));
	return n;
}
std::string implTree( Ctx& ctx, lh::Typedb& db, const char* method, const std::vector<Val>& args, const char* kind, const std::function<std::string(const Val&)>& item)
{
	auto& h = db.h; lua_State* L = h.L;
	int top = lua_gettop( L);
	if (luaL_loadstring( L, treeChunk)) throw Failure( "treeChunk");
	lua_rawgeti( L, LUA_REGISTRYINDEX, db.ref); lua_getfield( L, -1, method); lua_insert( L, -2);
	for (auto& a : args) h.push( a);
	if (lua_pcall( L, 1 + args.size(), 1, 0)) {std::string e = lua_tostring( L, -1); lua_settop( L, top); throw Failure( std::string( method) + ": " + e);}
	h.push( Val( kind)); h.push( Val( 5000));
	h.maxDepth = 5000; auto r = h.pcall( 3, nullptr); h.maxDepth = 20;
	std::string a = nodeStr( convNode( r[0], item)), b = nodeStr( convNode( r[1], item));
	ctx.eq( b, a, "the same tree read a second time");
	lua_settop( L, top);
	return a;
}
/// "N|kind|n": n scopes side by side; "L|kind|n": n definitions in one scope
const char* manyChunk =
	"local td, kind, n, shape = ...\n"
	"local function def( s, i) td:scope( s); if kind == 'I' then td:set_instance( 'x', i) elseif kind == 'T' then return td:def_type( 0, 'n' .. i) else local t = td:def_type( 0, 'n' .. i); td:def_reduction( t, base, i, 1, 1); return t end end\n"
	"td:scope( {0, 1<<30}); base = kind == 'R' and td:def_type( 0, 'base') or nil\n"
	"local exp, e0 = {}, 1<<30\n"
	"for i=1,n do local s = shape == 'N' and {2*i,2*i+1} or {2,5}; exp[ i] = def( s, i) end\n"
	"local tree = kind == 'I' and td:instance_tree( 'x') or kind == 'T' and td:type_tree() or td:reduction_tree()\n"
	"local seen, cnt = {}, 0\n"
	"local function list( nd) local rt, k = {}, 0; for e in nd:list() do k = k + 1; rt[ k] = kind == 'T' and e or kind == 'R' and e.to or nil; if k > n+2 then error( 'list does not end') end end; return rt, k end\n"
	"local function walk( c)\n"
	"  cnt = cnt + 1; local s = c:scope()\n"
	"  if shape == 'N' then\n"
	"    local i = s[1] // 2; if s[1] ~= 2*i or s[2] ~= 2*i+1 or i < 1 or i > n or seen[ i] then error( 'unexpected scope [' .. s[1] .. ',' .. s[2] .. ']') end; seen[ i] = true\n"
	"    if kind == 'I' then if c:instance() ~= i then error( 'instance of scope ' .. i .. ' is ' .. tostring( c:instance())) end else local l, k = list( c); if k ~= 1 or l[1] ~= exp[ i] then error( 'list of scope ' .. i) end end\n"
	"  else\n"
	"    if s[1] ~= 2 or s[2] ~= 5 then error( 'unexpected scope') end\n"
	"    local l, k = list( c); if k ~= n then error( 'list has ' .. k .. ' elements') end\n"
	"    table.sort( l); for i=1,n do if l[i] ~= exp[i] then error( 'element ' .. i .. ' is missing') end end\n"
	"  end\n"
	"  for x in c:chld() do error( 'a scope without scopes inside has a child') end\n"
	"end\n"
	"for c in tree:chld() do if kind == 'I' or c:scope()[2] ~= 1<<30 then walk( c) else for d in c:chld() do walk( d) end end; if cnt > n then error( 'children do not end') end end\n"
	"local want = shape == 'N' and n or 1; if cnt ~= want then error( cnt .. ' scopes in the tree, expected ' .. want) end\n";
void runS03Many( const std::string& text, Ctx& ctx)
{
	auto f = split( text, '|'); auto& db = freshDb( true); lua_State* L = db.h.L; int top = lua_gettop( L);
	std::string src = manyChunk; for (std::size_t i; (i = src.find( "1<<30")) != std::string::npos;) src.replace( i, 5, "1073741824");
	for (std::size_t i; (i = src.find( "s[1] // 2")) != std::string::npos;) src.replace( i, 9, "math.floor( s[1] / 2)");
	if (luaL_loadstring( L, src.c_str())) throw Failure( std::string( "manyChunk: ") + lua_tostring( L, -1));
	lua_rawgeti( L, LUA_REGISTRYINDEX, db.ref); lua_pushstring( L, f[1].c_str()); lua_pushinteger( L, atoi( f[2].c_str())); lua_pushstring( L, f[0].c_str());
	std::string err; if (lua_pcall( L, 4, 0, 0)) err = lua_tostring( L, -1);
	lua_settop( L, top); if (!err.empty()) ctx.fail( "tree of many definitions: " + err);
	ctx.state( text); ctx.transition( atoi( f[2].c_str())); ctx.trace();
}
void runS03( const std::string& text, Ctx& ctx)
{
	if (text[0] == 'N' || text[0] == 'L') return runS03Many( text, ctx);
	if (text[0] == 'I')
	{
		auto& db = freshDb();
		std::string pre = uniq();
		std::map<char,std::map<Sc,std::string>> items; std::string canon;
		for (auto& o : split( text.substr( 2), ';')) if (!o.empty())
		{
			Sc sc = Sc::parse( o.substr( 2)); Val v = newObj();
			db.call( "scope", {sc.val()}); db.call( "set_instance", {pre + o[0], v}); items[ o[0]][ sc] = v.str(); ctx.transition();
			if (g_ask < 0) continue;
			char n = g_ask ? 'y' : 'x'; // the tree is read after every assignment
			ctx.eq( implTree( ctx, db, "instance_tree", {pre + n}, "I", []( const Val& v){return v.at( "instance").str();}), modelTree( items[n], "nil"), fmt( "instance_tree('%c') between the assignments", n)); ctx.count( "asked");
		}
		for (char n : {'x','y'})
		{
			std::string got = implTree( ctx, db, "instance_tree", {pre + n}, "I", []( const Val& v){return v.at( "instance").str();});
			ctx.eq( got, modelTree( items[n], "nil"), fmt( "instance_tree('%c')", n)); canon += got;
		}
		ctx.state( canon); ctx.trace(); return;
	}
	if (text[0] == 'T')
	{
		auto& db = freshDb( true);
		TypeModel m; std::map<Sc,std::vector<int>> items; std::set<std::string> aliases;
		int p = defType( ctx, db, m, {0,INF}, 0, "p", {}, Val()); items[ {0,INF}].push_back( p);
		auto check = [&]
		{
			std::map<Sc,std::string> its; for (auto& i : items) {std::sort( i.second.begin(), i.second.end()); its[ i.first] = ilistStr( i.second);}
			std::string got = implTree( ctx, db, "type_tree", {}, "T", []( const Val& v){auto l = toInts( v.at( "list")); std::sort( l.begin(), l.end()); return ilistStr( l);});
			ctx.eq( got, modelTree( its, ""), "type_tree"); return got;
		};
		for (auto& o : split( text.substr( 2), ';')) if (!o.empty())
		{
			if (g_ask >= 0) {check(); ctx.count( "asked");}
			auto f = split( o, ':'); Sc sc = Sc::parse( f[0]);
			if (f[1] == "@")
			{
				// alias: names of aliases are never names of types here
				int target = f[3] == "p" ? p : m.types.back().handle;
				db.call( "scope", {sc.val()}); int r = db.call1( "def_type_as", {Val(0), Val(f[2]), Val(target)}).i();
				bool nw = aliases.insert( f[0] + f[2]).second;
				ctx.eq( r, nw ? target : -1, "def_type_as"); if (nw) items[ sc].push_back( target);
				ctx.transition(); continue;
			}
			std::vector<Param> par; for (char c : f[3]) par.push_back( {c == 'p' ? p : p, Val()});
			int h = defType( ctx, db, m, sc, f[1] == "0" ? 0 : p, f[2], par, Val());
			if (h > 0) items[ sc].push_back( h);
			ctx.transition();
		}
		ctx.state( check()); ctx.trace(); return;
	}
	auto& db = freshDb( true);
	std::map<Sc,std::vector<std::string>> items; std::set<std::string> have;
	db.call( "scope", {Sc{0,INF}.val()});
	int t[3]; for (int i=0; i<3; ++i) t[i] = db.call1( "def_type", {Val(0), Val( std::string(1,'p'+i))}).i();
	int n = 0;
	auto show = []( int to, int from, int tag, double w, const Val& c){return fmt( "(%d<-%d #%d w%g c%s)", to, from, tag, w, c.str().c_str());};
	auto check = [&]
	{
	std::map<Sc,std::string> its; for (auto& i : items) {std::sort( i.second.begin(), i.second.end()); its[ i.first] = join( i.second, " ");}
	std::string got = implTree( ctx, db, "reduction_tree", {}, "R", [&]( const Val& v)
	{
		std::vector<std::string> l; const Val& li = v.at( "list");
		for (size_t i=1; i<=li.len(); ++i) {const Val& e = li.at( (int)i); l.push_back( show( e.at( "to").i(), e.at( "from").i(), e.at( "tag").i(), e.at( "weight").n, e.at( "constructor")));}
		std::sort( l.begin(), l.end()); return join( l, " ");
	});
	ctx.eq( got, modelTree( its, ""), "reduction_tree"); return got;
	};
	for (auto& o : split( text.substr( 2), ';')) if (!o.empty())
	{
		if (g_ask >= 0) {check(); ctx.count( "asked");}
		auto f = split( o, ':'); Sc sc = Sc::parse( f[0]); int from = t[ f[1][0]-'p'], to = f[1][1] == '0' ? 0 : t[ f[1][1]-'p'], tag = atoi( f[2].c_str());
		Val c = f[3] == "c" ? newObj() : Val(); double w = 0.5 * ++n;
		std::string key = f[0] + ":" + f[1] + ":" + f[2];
		std::string err;
		db.call( "scope", {sc.val()}); db.call( "def_reduction", {Val(to), Val(from), c, Val(tag), Val(w)}, &err);
		if (have.insert( key).second) {ctx.check( err.empty(), "def_reduction failed: " + err); items[ sc].push_back( show( to, from, tag, w, c));}
		ctx.transition();
	}
	ctx.state( check()); ctx.trace();
}
void enumS03( bool th, const Sink& sink)
{
	sink( "I|"); sink( "T|"); sink( "R|");
	for (auto k : {"I","T","R"}) for (auto sh : {"N","L"}) if (*k != 'I' || *sh != 'L') for (int n : {1000,32767,32768,32769,65534,65535,65536,65537,70000}) if (n < 2000 || *k != 'R' || *sh != 'L') sink( fmt( "%s|%s|%d", sh, k, n));
	// large trees
	sizes( th ? 400 : 110, [&]( int n)
	{
		for (int shape=0; shape<6; ++shape) for (int order=0; order<3; ++order)
		{
			std::string i = "I|", t = "T|", r = "R|"; int k = 0;
			for (auto& sc : manyScopes( n, shape, order)) {i += "x:" + sc.str() + ";"; t += sc.str() + ":0:a:;"; r += sc.str() + (k++ % 2 ? ":pq:1:c;" : ":qr:2:n;");}
			sink( i); sink( t); sink( r);
		}
		std::string t = "T|", r = "R|";
		for (int i=0; i<n; ++i) {t += fmt( "2-4:0:n%d:;", i); if (i < 124) r += fmt( "2-4:%s:%d:%c;", std::vector<const char*>{"pq","qr","rp","p0"}[i&3], i/4+1, i%3 ? 'c' : 'n');}
		sink( t); sink( r);
	});
	{
		std::vector<Sc> cur;
		laminarSeqs( scopesUpTo( 5, true), th ? 4 : 3, cur, [&]{std::string t = "I|"; for (auto& c : cur) t += "x:" + c.str() + ";"; if (!cur.empty()) sink( t);});
		laminarSeqs( scopesUpTo( 3, true), 5, cur, [&]{std::string t = "I|"; int i=0; for (auto& c : cur) t += (i++ == 1 ? "y:" : "x:") + c.str() + ";"; if (!cur.empty()) sink( t);});
		if (th) laminarSeqs( scopesUpTo( 7, false), 3, cur, [&]{std::string t = "I|"; for (auto& c : cur) t += "x:" + c.str() + ";"; if (!cur.empty()) sink( t);});
	}
	{
		std::vector<std::string> al; 
		for (auto sc : {"0-i","0-8","0-4","4-8","1-2"}) for (auto r : {":0:a:",":0:a:p",":p:a:"}) al.push_back( std::string(sc) + r);
		int len = th ? 4 : 3;
		std::function<void(std::string,int)> rec = [&]( std::string c, int d) {if (d) sink( "T|" + c); if (d == len) return; for (auto& a : al) rec( c + a + ";", d+1);};
		rec( "", 0);
		{
			// aliases, also of the type defined last and several for the same type in one and in several scopes
			std::vector<std::string> a2;
			for (auto sc : {"0-i","0-4","4-8"}) for (auto r : {":@:b:p",":@:c:p",":@:b:l",":0:a:",":0:d:p"}) a2.push_back( std::string(sc) + r);
			std::function<void(std::string,int)> reca = [&]( std::string c, int d) {if (d && c.find( '@') != std::string::npos) sink( "T|" + c); if (d == len) return; for (auto& a : a2) reca( c + a + ";", d+1);};
			reca( "", 0);
		}
		al.clear();
		for (auto sc : {"0-i","0-8","0-4","4-8"}) for (auto r : {":pq:1:c",":pq:2:n",":pr:1:n",":q0:1:c"}) al.push_back( std::string(sc) + r);
		std::function<void(std::string,int)> rec2 = [&]( std::string c, int d) {if (d) sink( "R|" + c); if (d == len) return; for (auto& a : al) rec2( c + a + ";", d+1);};
		rec2( "", 0);
		for (int tag=1; tag<=32; ++tag) sink( fmt( "R|0-4:pq:%d:c;0-4:pr:%d:n;", tag, tag));
	}
}

//---------------------------------------------------------------------------------------------
// S04: def_type_as.  Case "a:sc:name:target;d:sc:name:par;..."
//---------------------------------------------------------------------------------------------
void runS04( const std::string& text, Ctx& ctx)
{
	auto& db = freshDb(); std::string pre = uniq();
	TypeModel m;
	int p = defType( ctx, db, m, {0,INF}, 0, pre + "p", {}, newObj());
	int q = defType( ctx, db, m, {0,INF}, p, pre + "q", {}, newObj());
	struct Alias {Sc sc; int cx; std::string name; int target; std::vector<int> extra;};
	std::vector<Alias> al;
	auto findAlias = [&]( const Sc& sc, int cx, const std::string& n) -> Alias* {for (auto& a : al) if (a.sc == sc && a.cx == cx && a.name == n) return &a; return nullptr;};
	std::set<Sc> scs; std::string canon;
	for (auto& o : split( text.substr( text[0] == '#'), ';')) if (!o.empty())
	{
		auto f = split( o, ':');
		Sc sc = Sc::parse( f[1]); scs.insert( sc); std::string name = pre + f[3]; int cx = f[2] == "0" ? 0 : p;
		ctx.transition();
		if (f[0] == "a")
		{
			int target = f[4] == "p" ? p : f[4] == "q" ? q : 0;
			if (!target) {auto v = m.same( {0,8}, 0, pre + f[4]); target = v.empty() ? q : v[0];}
			db.call( "scope", {sc.val()});
			int r = db.call1( "def_type_as", {Val(cx), Val(name), Val(target)}).i();
			bool dup = findAlias( sc, cx, name) || !m.same( sc, cx, name).empty();
			if (dup) ctx.eq( r, -1, "def_type_as of a name already defined in the scope");
			else {ctx.eq( r, target, "handle returned by def_type_as"); al.push_back( {sc, cx, name, target, {}});}
		}
		else
		{
			Alias* a = findAlias( sc, cx, name);
			std::vector<Param> par; for (char c : f[4]) par.push_back( {c == 'p' ? p : q, Val()});
			if (a)
			{
				db.call( "scope", {sc.val()});
				std::vector<Val> args{ Val(cx), Val(name), newObj()}; if (!par.empty()) args.push_back( parVal( par, 0));
				int r = db.call1( "def_type", args).i();
				if (par.empty()) {ctx.eq( r, -1, "def_type of a name that is defined as a synonym");}
				else if (r > 0) a->extra.push_back( r);	// an overload of the synonym name: must stay with the synonym
				else ctx.eq( r, -1, "def_type returned");
			}
			else defType( ctx, db, m, sc, cx, name, par, newObj());
		}
		canon += o;
	}
	ctx.state( canon);
	checkAttributes( ctx, db, m, "at the end");
	for (int cx : {0,p}) for (std::string nm : {"a","b","c","p","q"})
	{
		std::string name = pre + nm;
		auto all = scs; all.insert( {0,INF});
		auto listIn = [&]( const Sc& sc) {std::vector<int> l; Alias* a = findAlias( sc, cx, name); if (a) {l = a->extra; l.push_back( a->target);} else l = m.same( sc, cx, name); return l;};
		for (auto& sc : all)
		{
			db.call( "scope", {sc.val()});
			std::string got = ilistStr( toInts( db.call1( "this_types", {Val(cx), Val(name)}))), exp = ilistStr( listIn( sc));
			if (got != exp) ctx.fail( fmt( "this_types(%d,'%s') in scope %s: got {%s}, expected {%s}", cx, nm.c_str(), sc.str().c_str(), got.c_str(), exp.c_str()));
			Alias* a = findAlias( sc, cx, name); int e = a ? a->target : m.find( sc, cx, name, {});
			if (a && m.byHandle( a->target) && !m.byHandle( a->target)->par.empty()) continue;
			Val g = db.call1( "this_type", {Val(cx), Val(name)});
			if (e ? g.i() != e : !g.isnil()) ctx.fail( fmt( "this_type(%d,'%s') in scope %s: got %s, expected %d", cx, nm.c_str(), sc.str().c_str(), g.str().c_str(), e));
		}
		std::vector<int> steps{0,2,3,5,7,9}; if (text[0] == '#') for (auto& sc : scs) for (int d : {-1,0}) {if (sc.s+d >= 0) steps.push_back( sc.s+d); steps.push_back( sc.e+d);}
		for (int st : steps)
		{
			goStep( db, st);
			std::vector<Sc> l; for (auto& sc : all) if (!listIn( sc).empty()) l.push_back( sc);
			const Sc* in = innermost( l, st);
			auto r = db.call( "resolve_type", {Val(cx), Val(name)});
			std::string exp = in ? ilistStr( listIn( *in)) : "", got = r.size() == 3 ? ilistStr( toInts( r[2])) : "";
			if (got != exp || (in && r[0].i() != cx)) ctx.fail( fmt( "resolve_type(%d,'%s') at step %d: got %s, expected {%s}", cx, nm.c_str(), st, strs( r).c_str(), exp.c_str()));
		}
	}
	// attributes of a synonym are those of the type it stands for: covered by handle identity; reductions of the target are visible from it
	ctx.trace();
}
void enumS04( bool th, const Sink& sink)
{
	sizes( th ? 200 : 70, [&]( int n) {for (int shape=0; shape<6; ++shape) for (int order=0; order<3; ++order) {std::string t; int k=0; for (auto& sc : manyScopes( n, shape, order)) t += "a:" + sc.str() + ":0:a:" + (k++ % 2 ? "p" : "q") + ";"; sink( "#" + t);}});
	std::vector<std::string> al;
	for (auto sc : {"0-8","2-6"})
	{
		for (auto nm : {"a","b"}) for (auto tg : {"p","q","c"}) al.push_back( std::string("a:") + sc + ":0:" + nm + ":" + tg);
		for (auto nm : {"a","c"}) for (auto par : {"","p"}) if (!(std::string(nm) == "c" && std::string(par) == "p")) al.push_back( std::string("d:") + sc + ":0:" + nm + ":" + par);
		al.push_back( std::string("a:") + sc + ":p:a:q");
		al.push_back( std::string("d:") + sc + ":p:a:");
	}
	int len = th ? 4 : 3;
	std::function<void(std::string,int)> rec = [&]( std::string c, int d)
	{
		if (d) sink( c);
		if (d == len) return;
		for (auto& a : al) rec( c + a + ";", d+1);
	};
	rec( "", 0);
}

//---------------------------------------------------------------------------------------------
// T01: visibility of reductions.   Case "sc:ft:tag:ctor:weight;..." ft in pq,pr,qp,p0
//---------------------------------------------------------------------------------------------
struct Redu {Sc sc; int from, to, tag; Val ctor; double w; int order;};
/// visible reductions from 'from' at a step: per destination the innermost scope holding a selected one, first defined in it
std::map<int,const Redu*> visibleRedus( const std::vector<Redu>& l, int from, int step, unsigned mask)
{
	std::map<int,const Redu*> rt;
	for (auto const& r : l) if (r.from == from && r.sc.has( step) && (mask & (1U << (r.tag-1))))
	{
		auto& b = rt[ r.to];
		if (!b || (!(b->sc == r.sc) && b->sc.covers( r.sc))) b = &r;
	}
	return rt;
}
void compareReductions( Ctx& ctx, lh::Typedb& db, const std::vector<Redu>& l, int from, const std::vector<int>& tos, int step, long mask, long cmask)
{
	unsigned um = mask < 0 ? 0xffffffffU : (unsigned)mask, uc = cmask < 0 ? 0 : (unsigned)cmask;
	auto vis = visibleRedus( l, from, step, um);
	std::vector<Val> args{ Val(from)};
	if (mask >= 0) args.push_back( Val( (double)um)); 
	if (cmask >= 0) {if (mask < 0) args.push_back( Val()); args.push_back( Val( (double)uc));}
	Val v = db.call1( "get_reductions", args);
	std::vector<std::string> got, exp;
	for (size_t i=1; i<=v.len(); ++i) {const Val& e = v.at( (int)i); got.push_back( fmt( "%d w%g c%s n%s", e.at( "type").i(), e.at( "weight").n, e.at( "constructor").str().c_str(), e.at( "count").str().c_str()));}
	for (auto& r : vis) exp.push_back( fmt( "%d w%g c%s n%s", r.first, r.second->w, r.second->ctor.str().c_str(), (uc & (1U<<(r.second->tag-1))) ? "true":"false"));
	std::sort( got.begin(), got.end()); std::sort( exp.begin(), exp.end());
	if (got != exp) ctx.fail( fmt( "get_reductions(%d,mask %ld,count %ld) at step %d: got {%s}, expected {%s}", from, mask, cmask, step, join( got, ", ").c_str(), join( exp, ", ").c_str()));
	if (cmask >= 0) return;
	for (int to : tos)
	{
		std::vector<Val> a{ Val(to), Val(from)}; if (mask >= 0) a.push_back( Val( (double)um));
		auto r = db.call( "get_reduction", a);
		auto it = vis.find( to);
		std::string g = strs( r), e;
		if (it != vis.end()) {e = Val( it->second->w).str(); if (!it->second->ctor.isnil()) e += ", " + it->second->ctor.str();}
		if (g != e) ctx.fail( fmt( "get_reduction(%d <- %d, mask %ld) at step %d: got '%s', expected '%s'", to, from, mask, step, g.c_str(), e.c_str()));
	}
}
void runT01( const std::string& text, Ctx& ctx)
{
	auto& db = freshDb(); std::string pre = uniq();
	db.call( "scope", {Sc{0,INF}.val()});
	std::map<char,int> t; for (char c : {'p','q','r'}) t[c] = db.call1( "def_type", {Val(0), Val( pre + c)}).i();
	t['0'] = 0;
	if (text[0] == '#')
	{	// tag sweep: "#tag1,tag2"
		auto f = split( text.substr(1), ','); int a = atoi( f[0].c_str()), b = atoi( f[1].c_str());
		std::vector<Redu> l;
		Val c1 = newObj(), c2 = newObj();
		db.call( "def_reduction", {Val(t['q']), Val(t['p']), c1, Val(a), Val(1.5)}); l.push_back( {{0,INF},t['p'],t['q'],a,c1,1.5,0});
		db.call( "def_reduction", {Val(t['r']), Val(t['p']), c2, Val(b), Val(2.5)}); l.push_back( {{0,INF},t['p'],t['r'],b,c2,2.5,1});
		auto mk = [&]( std::vector<int> tags){std::vector<Val> v; for (int x : tags) v.push_back( Val(x)); return (long)(unsigned)(long long)db.call1( "reduction_tagmask", v).n;};
		long ma = mk( {a}), mb = mk( {b}), mab = mk( {a,b}), maab = mk( {a,a,b,a});
		ctx.eq( ma, (long)(1U << (a-1)), "reduction_tagmask(tag)"); ctx.eq( mab, (long)((1U << (a-1)) | (1U << (b-1))), "reduction_tagmask(tag,tag)"); ctx.eq( maab, mab, "reduction_tagmask with repeated tags");
		ctx.eq( mk( {}), 0L, "empty reduction_tagmask");
		for (long m : {-1L, ma, mb, mab, 0L, (long)(~(unsigned)mab)}) for (long c : {-1L, ma, mb, mab}) compareReductions( ctx, db, l, t['p'], {t['q'],t['r'],0}, 3, m, c);
		ctx.state( text); ctx.transition( 2); ctx.trace(); return;
	}
	if (text[0] == '!')
	{	// many reductions from one type: "!n:scopes"
		auto f = split( text.substr(1), ':'); int n = atoi( f[0].c_str()), sh = atoi( f[1].c_str());
		std::vector<Redu> l; std::vector<int> ts{0};
		for (int i=0; i<n; ++i) ts.push_back( db.call1( "def_type", {Val(0), Val( pre + fmt( "n%d", i))}).i());
		for (int i=1; i<=n; ++i) for (int k=0; k<(sh ? 2 : 1); ++k)
		{
			Sc sc = k ? Sc{2,4} : Sc{0,8}; Val c = newObj(); double w = i*0.25 + k*100; int tag = 1 + (i*3+k) % 32;
			db.call( "scope", {sc.val()}); db.call( "def_reduction", {Val(ts[i]), Val(t['p']), c, Val(tag), Val(w)}); l.push_back( {sc,t['p'],ts[i],tag,c,w,i}); ctx.transition();
		}
		for (int st : {1,3,5,9}) {goStep( db, st); for (long m : {-1L, 7L, 0x5a5a5a5aL}) compareReductions( ctx, db, l, t['p'], ts, st, m, -1);}
		ctx.state( text); ctx.trace(); return;
	}
	std::vector<Redu> l; std::string canon;
	int n = 0;
	auto ask = [&]
	{
		if (g_ask < 0) return;
		static const int steps[] = {0,2,3,5,7,8}; int st = steps[ (g_ask >> 2) % 6]; goStep( db, st);
		compareReductions( ctx, db, l, g_ask & 1 ? t['q'] : t['p'], {t['p'],t['q'],t['r'],0}, st, g_ask & 2 ? 1L : -1L, -1); ctx.count( "asked");
	};
	ask();
	for (auto& o : split( text, ';')) if (!o.empty())
	{
		auto f = split( o, ':');
		Redu r; r.sc = Sc::parse( f[0]); r.from = t[ f[1][0]]; r.to = t[ f[1][1]]; r.tag = atoi( f[2].c_str()); r.ctor = f[3] == "c" ? newObj() : Val();
		r.w = f.size() > 4 ? atof( f[4].c_str()) : 0.5*(n+1); r.order = n++;
		const Redu* dup = nullptr; for (auto& e : l) if (e.sc == r.sc && e.from == r.from && e.to == r.to && e.tag == r.tag) dup = &e;
		db.call( "scope", {r.sc.val()});
		std::string err;
		std::vector<Val> args{ Val(r.to), Val(r.from), r.ctor, Val(r.tag)}; if (r.w != 0 || n % 2) args.push_back( Val(r.w));
		db.call( "def_reduction", args, &err);
		if (!dup) {ctx.check( err.empty(), "def_reduction failed: " + err); l.push_back( r); canon += o;}
		else if (!(dup->ctor == r.ctor)) ctx.check( !err.empty(), "a second, different definition of the same reduction in the same scope was accepted");
		ctx.transition(); ask();
	}
	ctx.state( canon);
	if (g_ask >= 0) {ctx.trace(); return;}
	for (int st : {0,1,2,3,4,5,7,8}) {goStep( db, st); for (long m : {-1L,1L,2L,3L,4L,0L}) {for (char c : {'p','q'}) compareReductions( ctx, db, l, t[c], {t['p'],t['q'],t['r'],0}, st, m, -1); if (st == 3) compareReductions( ctx, db, l, t['p'], {}, st, m, 1);}}
	ctx.trace();
}
void enumT01( bool th, const Sink& sink)
{
	auto seqs = [&]( const std::vector<std::string>& al, int len)
	{
		std::function<void(std::string,int)> rec = [&]( std::string c, int d) {if (d) sink( c); if (d == len) return; for (auto& a : al) rec( c + a + ";", d+1);};
		rec( "", 0);
	};
	std::vector<std::string> al;
	for (auto sc : {"0-8","2-5","2-3","5-8"}) for (auto ft : {"pq","pr"}) for (auto tg : {"1","2"}) al.push_back( std::string(sc) + ":" + ft + ":" + tg + ":c");
	seqs( al, th ? 4 : 3);
	al.clear();
	for (auto sc : {"0-8","2-5"}) for (auto ft : {"pq","qp","p0"}) for (auto tg : {"1","2"}) for (auto c : {"c","n"}) al.push_back( std::string(sc) + ":" + ft + ":" + tg + ":" + c);
	seqs( al, th ? 3 : 2);
	al.clear();
	for (auto tg : {"1","2"}) for (auto c : {"c","n"}) for (auto w : {"0","1","2"}) al.push_back( std::string("0-8:pq:") + tg + ":" + c + ":" + w);
	seqs( al, 3);
	for (int a=1; a<=32; ++a) for (int b=1; b<=32; ++b) sink( fmt( "#%d,%d", a, b));
	for (int n=1; n<=(th?1100:160); n += n<20 ? 1 : 17) for (int s=0; s<2; ++s) sink( fmt( "!%d:%d", n, s));
	{
		std::vector<Sc> cur;
		laminarSeqs( scopesUpTo( 4, true), th ? 4 : 3, cur, [&]{std::string t; for (auto& c : cur) t += c.str() + ":pq:1:c;"; if (!t.empty()) sink( t);});
	}
}

//---------------------------------------------------------------------------------------------
// T02 / T03: shortest derivations.   Graph text: edges "ab<w>[t<tag>][s<k>]," nodes a..; 0 = context zero
//---------------------------------------------------------------------------------------------
struct Graph
{
	std::map<char,int> node;
	std::vector<Redu> redus;
};
Graph buildGraph( Ctx& ctx, lh::Typedb& db, const std::string& pre, const std::string& nodes, const std::string& edges, const std::function<void(Graph&)>& ask = nullptr)
{
	Graph g; g.node['0'] = 0;
	db.call( "scope", {Sc{0,INF}.val()});
	for (char c : nodes) g.node[c] = db.call1( "def_type", {Val(0), Val( pre + c)}).i();
	Sc cur{0,INF};
	if (ask) {ask( g); db.call( "scope", {cur.val()});}
	for (auto& e : split( edges, ',')) if (!e.empty())
	{
		Redu r; r.from = g.node[ e[0]]; r.to = g.node[ e[1]]; r.tag = 1; r.sc = {0,INF}; char* p = nullptr;
		r.w = strtod( e.c_str()+2, &p); r.order = g.redus.size();
		while (*p)
		{
			if (*p == 't') r.tag = strtol( p+1, &p, 10);
			else if (*p == 's') {int k = strtol( p+1, &p, 10); r.sc = k == 0 ? Sc{0,INF} : k == 1 ? Sc{0,8} : k == 2 ? Sc{2,6} : Sc{6,8};}
			else throw Failure( "bad edge " + e);
		}
		r.ctor = newObj();
		if (!(r.sc == cur)) {db.call( "scope", {r.sc.val()}); cur = r.sc;}
		db.call( "def_reduction", {Val(r.to), Val(r.from), r.ctor, Val(r.tag), Val(r.w)});
		g.redus.push_back( r); ctx.transition();
		if (ask) ask( g);
	}
	return g;
}
struct Path {double w; int cnt; std::vector<std::pair<int,const Redu*>> el; int root; int endType;};
void simplePaths( const std::vector<Redu>& l, int from, int step, unsigned mask, unsigned cmask, int maxc, const std::function<void(const Path&, int)>& f, int root=0)
{
	Path p; p.w = 0; p.cnt = 0; p.root = root; p.endType = from;
	std::vector<int> seen{from};
	std::function<void(int)> rec = [&]( int at)
	{
		f( p, at);
		if (at == 0 && false) return;
		for (auto& v : visibleRedus( l, at, step, mask))
		{
			int to = v.first; if (std::find( seen.begin(), seen.end(), to) != seen.end()) continue;
			int c = p.cnt + ((cmask & (1U << (v.second->tag-1))) ? 1 : 0);
			if (c > maxc) continue;
			int oc = p.cnt; double ow = p.w;
			p.cnt = c; p.w += v.second->w; p.el.push_back( {to, v.second}); seen.push_back( to);
			rec( to);
			seen.pop_back(); p.el.pop_back(); p.cnt = oc; p.w = ow;
		}
	};
	rec( from);
}
std::string pathStr( const Path& p) {std::string rt; for (auto& e : p.el) rt += fmt( "%d/%s ", e.first, e.second->ctor.str().c_str()); return rt;}
std::string pathVal( const Val& v, int skip=0)
{
	std::string rt; for (size_t i=1+skip; i<=v.len(); ++i) rt += fmt( "%d/%s ", v.at( (int)i).at( "type").i(), v.at( (int)i).at( "constructor").str().c_str()); return rt;
}
/// maxc: INT_MIN: not passed
void checkDerive( Ctx& ctx, lh::Typedb& db, Graph& g, int to, int from, int step, long mask, long cmask, int maxc)
{
	std::vector<Val> args{ Val(to), Val(from)};
	if (mask >= 0 || cmask >= 0 || maxc != INT_MIN) args.push_back( mask >= 0 ? Val( (double)mask) : Val());
	if (cmask >= 0 || maxc != INT_MIN) args.push_back( cmask >= 0 ? Val( (double)cmask) : Val());
	if (maxc != INT_MIN) args.push_back( Val(maxc));
	unsigned um = mask < 0 ? 0xffffffffU : (unsigned)mask, uc = cmask < 0 ? 0 : (unsigned)cmask; int mc = maxc == INT_MIN ? 1 : maxc == -1 ? INT_MAX : maxc;
	double best = -1; std::map<std::string,Path> ties;
	simplePaths( g.redus, from, step, um, uc, mc, [&]( const Path& p, int at)
	{
		if (at != to) return;
		if (best < 0 || p.w < best) {best = p.w; ties.clear();}
		if (p.w == best) ties.insert( {pathStr( p), p});
	});
	auto r = db.call( "derive_type", args);
	auto where = [&]{return fmt( "derive_type(%d <- %d, mask %ld, count %ld, max %d) at step %d: got %s", to, from, mask, cmask, maxc, step, strs( r).c_str());};
	if (ties.empty()) {if (!(r.empty() || r[0].isnil())) ctx.fail( where() + ", expected nothing"); return;}
	if (r.size() < 2) ctx.fail( where() + fmt( ", expected a derivation with weight %g: %s", best, ties.begin()->first.c_str()));
	std::string gp = pathVal( r[0]);
	if (r[1].n != best || !ties.count( gp)) ctx.fail( where() + fmt( ", expected weight %g and path %s", best, ties.begin()->first.c_str()));
	bool amb = r.size() > 2 && !r[2].isnil();
	if (amb != (ties.size() > 1)) ctx.fail( where() + fmt( ", ambiguous: got %d, expected %d derivations of weight %g", amb, (int)ties.size(), best));
	if (amb)
	{
		std::string ap = ilistStr( toInts( r[2]), false); bool ok = false;
		for (auto& t : ties) if (t.first != gp) {std::string x; for (auto& e : t.second.el) x += fmt( "%d ", e.first); ok = ok || x == ap;}
		if (!ok) ctx.fail( where() + ": the alternative reported is not another derivation of the same weight");
		ctx.count( "ambiguous");
	}
	ctx.count( "derived");
}
void runT02( const std::string& text, Ctx& ctx)
{
	auto f = split( text, '|');
	auto& db = freshDb( f[0] == "S"); std::string pre = uniq();
	if (f[0] == "S")
	{	// sweeps: "S|shape|n"
		int n = atoi( f[2].c_str()); std::string sh = f[1];
		db.call( "scope", {Sc{0,INF}.val()});
		Graph g; std::vector<int> t;
		auto ty = [&]{int h = db.call1( "def_type", {Val(0), Val( pre + fmt( "%d", (int)t.size()))}).i(); t.push_back( h); return h;};
		auto ed = [&]( int a, int b, double w){Redu r; r.from = a; r.to = b; r.tag = 1 + (int)g.redus.size() % 3; r.sc = {0,INF}; r.w = w; r.ctor = newObj(); r.order = g.redus.size();
			db.call( "def_reduction", {Val(b), Val(a), r.ctor, Val(r.tag), Val(w)}); g.redus.push_back( r); ctx.transition();};
		goStep( db, 5);
		std::vector<std::string> exp; double w = 0; std::vector<int> path;
		int from, to;
		auto ed2 = [&]( int a, int b, double w, int tag) {Redu r; r.from = a; r.to = b; r.tag = tag; r.sc = {0,INF}; r.w = w; r.ctor = newObj(); r.order = g.redus.size();
			db.call( "def_reduction", {Val(b), Val(a), r.ctor, Val(tag), Val(w)}); g.redus.push_back( r); ctx.transition();};
		auto derive = [&]( long mask, long cmask, int maxc, double expw, const char* what) // expw < 0: nothing expected
		{
			std::vector<Val> a = {Val(to), Val(from), Val( (double)(unsigned)mask), Val( (double)(unsigned)cmask)}; if (maxc != INT_MIN) a.push_back( Val(maxc));
			auto r = db.call( "derive_type", a); bool none = r.empty() || r[0].isnil();
			if (expw < 0 ? !none : (none || r.size() != 2 || r[1].n != expw)) ctx.fail( fmt( "derive_type on %s %d, mask %lu, count mask %lu, maximum %d: got %s, expected %s %g", what, n, mask, cmask, maxc, strs( r).c_str(), expw < 0 ? "nothing" : "weight", expw));
		};
		if (sh == "count")
		{	// a chain of n counted reductions and a detour of higher weight with one in three counted
			from = ty(); int prev = from; for (int i=0; i<n; ++i) {int x = ty(); ed2( prev, x, 0.25, 1); prev = x;} to = prev;
			for (int m : {0,1,n-1,n,n+1,2*n,100000,-1}) derive( 7, 1, m, m < 0 || m >= n ? n*0.25 : -1, "chain of");
			derive( 7, 1, INT_MIN, n <= 1 ? n*0.25 : -1, "chain of"); derive( 7, 2, 0, n*0.25, "chain of"); derive( 2, 1, -1, -1, "chain of");
			int cnt = 0; prev = from; for (int i=0; i<n; ++i) {int x = i+1 == n ? to : ty(); ed2( prev, x, 1, i % 3 == 2 ? (++cnt, 1) : 2 + i % 3); prev = x;}
			if (n > 1) for (int m : {cnt-1,cnt,cnt+1,n-1,n,-1}) derive( 7, 1, m, m < -1 ? -1 : m < 0 || m >= n ? n*0.25 : m >= cnt ? n : -1, "two chains of");
			if (n > 1) {derive( 7, 7, n-1, -1, "two chains of"); derive( 7, 7, n, n*0.25, "two chains of"); derive( 6, 1, 0, n < 3 ? n : -1, "two chains of");}
			ctx.state( text); ctx.trace(); return;
		}
		if (sh == "tags")
		{	// one reduction for every tag, the selection by mask and count mask with every bit
			from = ty(); int mid = ty(); long bit = 1L << (n-1);
			ed2( from, mid, 1, n);
			for (int t=1; t<=32; ++t)
			{
				to = ty(); ed2( from, to, 100+t, t); ed2( mid, to, 0.5+t, t);
				long b = 1L << (t-1), all = 0xffffffffL;
				derive( b, b, 0, -1, "tag"); derive( b, all ^ b, 0, t == n ? 1.5+t : 100+t, "tag"); derive( b, b, 1, 100+t, "tag"); derive( b, b, 2, t == n ? 1.5+t : 100+t, "tag"); derive( all ^ b, 0, 0, -1, "tag");
				derive( b | bit, bit, 0, t == n ? -1 : 100+t, "tag"); derive( b | bit, bit, INT_MIN, t == n ? 100+t : 1.5+t, "tag"); derive( b | bit, b, 0, -1, "tag"); derive( b | bit, b | bit, 1, 100+t, "tag");
				derive( b | bit, b | bit, 2, 1.5+t, "tag"); derive( all, 0, 0, 1.5+t, "tag"); derive( all, all, INT_MIN, 100+t, "tag"); derive( all, all ^ b, 1, 1.5+t, "tag"); derive( all ^ bit, bit, 0, t == n ? -1 : 100+t, "tag");
			}
			ctx.state( text); ctx.trace(); return;
		}
		if (sh == "chain") {from = ty(); int prev = from; for (int i=0; i<n; ++i) {int x = ty(); ed( prev, x, 0.25); path.push_back( x); w += 0.25; prev = x;} to = prev;}
		else if (sh == "star") {from = ty(); to = ty(); for (int i=0; i<n; ++i) {int x = ty(); ed( from, x, 1 + (i*7 % n)); if (i == n/2) {ed( x, to, n*2); path = {x,to}; w = 1 + (i*7 % n) + n*2;}}}
		else if (sh == "fan") {from = ty(); to = ty(); double best = 1e9; for (int i=0; i<n; ++i) {int x = ty(); double w1 = 1 + (i*7 % 31), w2 = 1 + (i*11 % 29) + i*64; ed( from, x, w1); ed( x, to, w2); if (w1+w2 < best) {best = w1+w2; path = {x,to};}} w = best;}
		else /*far*/ {from = ty(); to = ty(); ed( from, to, n+0.5); int prev = from; path = {to}; w = n+0.5; std::vector<int> alt; for (int i=0; i<n; ++i) {int x = ty(); ed( prev, x, 1); alt.push_back( x); prev = x;} ed( prev, to, 0); alt.push_back( to); w = n; path = alt;}
		auto r = db.call( "derive_type", {Val(to), Val(from)});
		std::string gp; if (r.size() >= 2) for (size_t i=1; i<=r[0].len(); ++i) gp += fmt( "%d ", r[0].at( (int)i).at( "type").i());
		if (r.size() != 2 || gp != ilistStr( path, false) || r[1].n != w) ctx.fail( fmt( "derive_type on %s of size %d: got %s weight %s, expected %s weight %g", sh.c_str(), n, gp.c_str(), r.size() > 1 ? r[1].str().c_str() : "-", ilistStr( path, false).c_str(), w));
		for (size_t i=1; i<=r[0].len(); ++i)
		{	// constructors belong to the edges of the path
			int a = i == 1 ? from : path[i-2], b = path[i-1]; const Redu* e = nullptr; for (auto& x : g.redus) if (x.from == a && x.to == b) e = &x;
			ctx.eq( r[0].at( (int)i).at( "constructor").str(), e->ctor.str(), "constructor on the path");
		}
		ctx.state( text); ctx.trace(); return;
	}
	auto ask = [&]( Graph& g)
	{
		static const int steps[] = {3,1,2,6,8}; const std::string& n = f[1]; int q = g_ask; char a = n[ q % n.size()]; q /= n.size(); char b = n[ q % n.size()]; q /= n.size();
		int st = steps[ q % 5]; goStep( db, st); checkDerive( ctx, db, g, g.node[b], g.node[a], st, -1, -1, INT_MIN); ctx.count( "asked");
	};
	Graph g = buildGraph( ctx, db, pre, f[1], f[2], g_ask >= 0 ? std::function<void(Graph&)>( ask) : nullptr);
	if (g_ask >= 0) {ctx.state( text); ctx.trace(); return;}
	std::vector<int> nodes; for (char c : f[1]) nodes.push_back( g.node[c]);
	std::vector<int> tos = nodes; if (f[2].find( '0') != std::string::npos) tos.push_back( 0);
	ctx.state( text);
	if (f[0] == "W")		// weights only
	{
		goStep( db, 3);
		for (int a : nodes) for (int b : tos) checkDerive( ctx, db, g, b, a, 3, -1, -1, INT_MIN);
	}
	else if (f[0] == "C")	// tags and count limits
	{
		goStep( db, 3);
		static const std::pair<long,int> cm[] = {{-1,INT_MIN},{1,0},{1,INT_MIN},{1,1},{1,2},{1,-1},{2,0},{2,1},{3,0},{3,1},{3,2},{3,-1},{-1,0}};
		for (int a : nodes) for (int b : tos) if (a != b) for (long m : {-1L,1L,2L,3L}) for (auto& c : cm) checkDerive( ctx, db, g, b, a, 3, m, c.first, c.second);
		// equality of source and destination: the empty derivation
		for (int a : nodes) checkDerive( ctx, db, g, a, a, 3, -1, 1, 0);
	}
	else				// scopes
	{
		for (int st : {0,1,2,3,5,6,7,8,9}) {goStep( db, st); for (int a : nodes) for (int b : tos) if (a != b) checkDerive( ctx, db, g, b, a, st, -1, -1, INT_MIN);}
	}
	ctx.trace();
}
void graphs( const std::string& nodes, const std::vector<std::string>& opts, bool withZero, const std::function<void(const std::string&)>& f)
{
	std::vector<std::string> pairs;
	for (char a : nodes) {for (char b : nodes) if (a != b) pairs.push_back( std::string(1,a) + b); if (withZero) pairs.push_back( std::string(1,a) + "0");}
	std::function<void(size_t,const std::string&)> rec = [&]( size_t i, const std::string& cur)
	{
		if (i == pairs.size()) {f( cur); return;}
		for (auto& o : opts)
		{
			std::string c = cur;
			if (!o.empty()) for (auto& e : split( o, '+')) c += pairs[i] + e + ",";
			rec( i+1, c);
		}
	};
	rec( 0, "");
}
void enumT02( bool th, const Sink& sink)
{
	graphs( "abc", {"","0","1","2"}, false, [&]( const std::string& e){sink( "W|abc|" + e);});
	graphs( "ab", {"","0","1","2"}, true, [&]( const std::string& e){sink( "W|ab|" + e);});
	// sums of nearly the same size and sums of numbers of different magnitude (all exact in 32 bits)
	graphs( "abc", {"","1","1.00048828125","0.5","0.50048828125"}, false, [&]( const std::string& e){sink( "W|abc|" + e);});
	graphs( "abc", {"","1024","0.000244140625","0.00048828125"}, false, [&]( const std::string& e){sink( "W|abc|" + e);});
	graphs( "abc", {"","1t1","1t2","2t1","2t2"}, false, [&]( const std::string& e){sink( "C|abc|" + e);});
	graphs( "ab", {"","1t1+3t2","1t2","2t1+1t2","2t3","0t1+0t2"}, true, [&]( const std::string& e){sink( "C|ab|" + e);});
	graphs( "abc", {"","1s1","2s2+1s1","1s2"}, false, [&]( const std::string& e){sink( "X|abc|" + e);});
	if (th)
	{
		graphs( "abcd", {"","1","2"}, false, [&]( const std::string& e){sink( "W|abcd|" + e);});
		graphs( "abc", {"","0","1","2"}, true, [&]( const std::string& e){sink( "W|abc|" + e);});
		graphs( "abc", {"","1s1","1s2","2s2+1s1","1s2+2s1","1s3"}, false, [&]( const std::string& e){sink( "X|abc|" + e);});
	}
	else
	{
		// acyclic and one-back-edge graphs over four types: all forward edges with weights 0,1,2, one optional back edge
		std::vector<std::string> fw{"ab","ac","ad","bc","bd","cd"}, bw{"","ba1","da1","cb1","db0","ca0"};
		std::function<void(size_t,const std::string&)> rec = [&]( size_t i, const std::string& cur)
		{
			if (i == fw.size()) {for (auto& b : bw) sink( "W|abcd|" + cur + (b.empty() ? "" : b + ",")); return;}
			for (auto o : {"","0","1","2"}) rec( i+1, *o ? cur + fw[i] + o + "," : cur);
		};
		rec( 0, "");
	}
	for (int n=1; n<=(th?600:140); n += n<12 ? 1 : n < 120 ? 9 : 37) for (auto s : {"chain","star","fan","far"}) sink( fmt( "S|%s|%d", s, n));
	for (int n : {127,128,129,255,256,257,511,512,513}) for (auto s : {"chain","star","fan"}) sink( fmt( "S|%s|%d", s, n));
	for (int n=1; n<=(th?1100:300); n += n<70 || (n > 120 && n < 130) || (n > 250 && n < 260) ? 1 : 11) sink( fmt( "S|count|%d", n));
	for (int n=1; n<=32; ++n) sink( fmt( "S|tags|%d", n));
}
// T03: Case "nodes|edges|members"  members: list "a:sc:ovl," node owning the name with ovl overloads in scope
/// equal type and constructor, independent of the order of the keys
bool sameElem( const Val& a, const Val& b)
{
	if (a.t != Val::Tab || b.t != Val::Tab) return a == b;
	return a.at("type") == b.at("type") && a.at("constructor") == b.at("constructor");
}

void checkResolve( Ctx& ctx, lh::Typedb& db, Graph& g, std::map<int,std::vector<std::pair<Sc,std::vector<int>>>>& mem, const std::vector<int>& roots, int style, const std::string& name, int step, long mask)
{
	unsigned um = mask < 0 ? 0xffffffffU : (unsigned)mask;
	std::vector<Val> args; std::vector<Val> rv;
	for (size_t i=0; i<roots.size(); ++i)
	{
		if (style == 2 || (style == 3 && i % 2 == 0)) {Val v; v.set( Val("type"), Val(roots[i])); v.set( Val("constructor"), newObj()); rv.push_back( v);} else rv.push_back( Val(roots[i]));
	}
	if (style == 0 || style == 4) {if (style == 4) {Val v; v.set( Val("type"), Val(roots[0])); v.set( Val("constructor"), newObj()); args.push_back( v);} else args.push_back( Val(roots[0]));}
	else args.push_back( Val::list( rv));
	args.push_back( Val(name)); if (mask >= 0) args.push_back( Val( (double)um));
	auto members = [&]( int ty) {std::vector<Sc> l; for (auto& e : mem[ty]) l.push_back( e.first); const Sc* in = innermost( l, step); std::vector<int> rt; if (in) for (auto& e : mem[ty]) if (e.first == *in) rt = e.second; return rt;};
	double best = -1; struct Hit {int ctxType; std::string path; int root;}; std::vector<Hit> hits;
	std::set<int> seenRoot; int ri = 0;
	for (int r : roots)
	{
		++ri; if (!seenRoot.insert( r).second) continue;
		simplePaths( g.redus, r, step, um, 0, INT_MAX, [&]( const Path& p, int at)
		{
			if (members( at).empty()) return;
			if (best < 0 || p.w < best) {best = p.w; hits.clear();}
			if (p.w == best) hits.push_back( {at, pathStr( p), ri});
		});
	}
	auto r = db.call( "resolve_type", args);
	auto where = [&]{return fmt( "resolve_type({%s} style %d, mask %ld) at step %d: got %s", ilistStr( roots, false).c_str(), style, mask, step, strs( r).c_str());};
	if (hits.empty()) {if (!(r.empty() || r[0].isnil())) ctx.fail( where() + ", expected nothing"); return;}
	if (hits.size() > 1)
	{
		ctx.count( "ambiguous");
		if (r.empty() || r[0].t != Val::Tab || r[0].len() != 2) ctx.fail( where() + fmt( ", expected an ambiguity report (%d solutions of weight %g)", (int)hits.size(), best));
		std::multiset<int> hs; for (auto& h : hits) hs.insert( h.ctxType);
		int a = r[0].at(1).i(), b = r[0].at(2).i();
		if (!hs.count( a) || !hs.count( b) || (a == b && hs.count( a) < 2)) ctx.fail( where() + ": the conflicting context types are not two solutions of equal weight");
		return;
	}
	ctx.count( "resolved");
	auto& h = hits[0];
	if (r.size() != 3 || r[0].i() != h.ctxType || r[0].t != Val::Num) ctx.fail( where() + fmt( ", expected context type %d", h.ctxType));
	bool rootTab = style == 2 || (style == 3 && (h.root-1) % 2 == 0);
	if (pathVal( r[1], rootTab ? 1 : 0) != h.path) ctx.fail( where() + ", expected reductions " + h.path);
	if (rootTab) {if (!sameElem( r[1].at(1), rv[ h.root-1])) ctx.fail( where() + ": first element is not the context element the path starts from");}
	if (ilistStr( toInts( r[2])) != ilistStr( members( h.ctxType))) ctx.fail( where() + fmt( ", expected candidates {%s}", ilistStr( members( h.ctxType)).c_str()));
}
void runT03( const std::string& text, Ctx& ctx)
{
	auto f = split( text, '|');
	if (f[0] == "S")
	{	// sweeps: "S|shape|n": member at the end of a chain, in one of many types, in many overloads, list of n contexts, found on two of many ways
		int n = atoi( f[2].c_str()); std::string sh = f[1], pre = uniq(), name = pre + "name"; auto& db = freshDb( true); db.call( "scope", {Sc{0,INF}.val()}); goStep( db, 3);
		std::vector<int> t; auto ty = [&]{int h = db.call1( "def_type", {Val(0), Val( pre + fmt( "%d", (int)t.size()))}).i(); t.push_back( h); return h;};
		auto ed = [&]( int a, int b, double w){ctx.transition(); db.call( "def_reduction", {Val(b), Val(a), Val(pre + fmt( "%d-%d", a, b)), Val(1), Val(w)});};
		auto member = [&]( int cx, int ovl = 0) {std::vector<Val> a{ Val(cx), Val(name), newObj()}; std::vector<int> par; for (int k=ovl+1; k>1; k>>=1) par.push_back( t[k&1]); if (!par.empty()) a.push_back( Val::ilist( par)); return db.call1( "def_type", a).i();};
		ty(); ty(); std::vector<int> path, cand, cxs; int cx = 0; bool amb = false;
		if (sh == "tags")
		{	// every tag, selected by every mask of one bit and by all but one
			int x = ty(); Redu r; r.ctor = newObj(); db.call( "def_reduction", {Val(x), Val(t[0]), r.ctor, Val(n), Val(1)}); int m = member( x); ctx.transition();
			int y = ty(); db.call( "def_reduction", {Val(y), Val(t[1]), newObj(), Val(n), Val(1)}); db.call( "def_reduction", {Val(x), Val(y), newObj(), Val( n % 32 + 1), Val(1)});
			for (int k=1; k<=32; ++k) for (int inv=0; inv<2; ++inv) for (int root=0; root<2; ++root)
			{
				double b = (double)(1L << (k-1)), mask = inv ? 4294967295. - b : b;
				auto r = db.call( "resolve_type", {Val(t[root]), Val(name), Val(mask)}); bool got = r.size() == 3 && r[0].i() == x && toInts( r[2]) == std::vector<int>{m} && (int)r[1].len() == root+1;
				bool exp = inv ? k != n && (!root || k != n % 32 + 1) : k == n && !root;
				if (exp ? !got : !(r.empty() || r[0].isnil())) ctx.fail( fmt( "resolve_type over a reduction of tag %d with mask %.0f: got %s", n, mask, strs( r).c_str()));
			}
			ctx.state( text); ctx.trace(); return;
		}
		if (sh == "chain") {int prev = t[0]; for (int i=0; i<n; ++i) {int x = ty(); ed( prev, x, 0.25); path.push_back( x); prev = x;} cand = {member( prev)}; cx = prev; cxs = {t[0]};}
		else if (sh == "star") {for (int i=0; i<n; ++i) {int x = ty(); ed( t[0], x, 1 + (i*7 % n)); if (i == n/2) {cand = {member( x)}; cx = x; path = {x};}} cxs = {t[0]};}
		else if (sh == "overloads") {ed( t[0], t[1], 1); for (int i=0; i<n; ++i) cand.push_back( member( t[1], i)); cx = t[1]; path = {cx}; cxs = {t[0]};}
		else if (sh == "contexts") {for (int i=0; i<n; ++i) cxs.push_back( ty()); int x = ty(); ed( cxs[ n*2/3], x, 1); cand = {member( x)}; cx = x; path = {x};}
		else if (sh == "nearest") {for (int i=0; i<n; ++i) {int x = ty(), y = ty(); cxs.push_back( x); ed( x, y, 1 + (i*7 % n) * 0.5); member( y);} int b = 0; for (int i=0; i<n; ++i) if ((i*7 % n) == 0) {if (i && n % 7 == 0) {} b = i; break;} cx = t[ 2 + 2*b + 1]; path = {cx}; int cnt = 0; for (int i=0; i<n; ++i) cnt += (i*7 % n) == 0; amb = cnt > 1;}
		else /*two*/ {std::vector<int> ends; for (int i=0; i<n+1; ++i) {int x = ty(); ed( t[0], x, i == n/3 || i == n ? 0.5 : 1 + i); ends.push_back( x); member( x);} cxs = {t[0]}; amb = true;}
		auto r = db.call( "resolve_type", {cxs.size() == 1 ? Val(cxs[0]) : Val::ilist( cxs), Val(name)});
		auto bad = [&]( const std::string& e) {std::string g = strs( r); if (g.size() > 600) g.resize( 600); ctx.fail( fmt( "resolve_type on %s of size %d: got %s, expected ", sh.c_str(), n, g.c_str()) + e);};
		if (amb) {if (r.size() < 1 || r[0].t != Val::Tab || r[0].len() != 2) bad( "an ambiguity report");}
		else
		{
			if (sh == "nearest") {cand = toInts( r.size() == 3 ? r[2] : Val()); if (cand.size() != 1) bad( "one candidate");}
			if (r.size() != 3 || r[0].t != Val::Num || r[0].i() != cx || ilistStr( toInts( r[2])) != ilistStr( cand)) bad( fmt( "context %d with %d candidates", cx, (int)cand.size()));
			std::string gp; int prev = sh == "contexts" ? cxs[ n*2/3] : sh == "nearest" ? cx-1 : cxs[0];
			for (size_t i=1; i<=r[1].len(); ++i) {auto e = r[1].at( (int)i); gp += fmt( "%d ", e.at( "type").i()); if (e.at( "constructor").s != pre + fmt( "%d-%d", prev, e.at( "type").i())) bad( "the constructors of the path"); prev = e.at( "type").i();}
			if (gp != ilistStr( path, false)) bad( "path " + ilistStr( path, false));
		}
		ctx.state( text); ctx.trace(); return;
	}
	auto& db = freshDb(); std::string pre = uniq(), name = pre + "name";
	std::map<int,std::vector<std::pair<Sc,std::vector<int>>>> mem;
	auto ask = [&]( Graph& g)
	{
		static const int steps[] = {3,1,2,6,8}; int q = g_ask; int st = steps[ q % 5]; q /= 5; const std::string n = "0" + f[1]; int a = g.node[ n[ q % n.size()]]; q /= n.size(); int b = g.node[ n[ q % n.size()]];
		goStep( db, st); if (a == b) checkResolve( ctx, db, g, mem, {a}, 0, name, st, -1); else checkResolve( ctx, db, g, mem, {a,b}, 1, name, st, -1); ctx.count( "asked");
	};
	Graph g = buildGraph( ctx, db, pre, f[1], f[2], g_ask >= 0 ? std::function<void(Graph&)>( ask) : nullptr);
	bool scoped = false;
	for (auto& e : split( f[3], ',')) if (!e.empty())
	{
		auto q = split( e, ':'); int ty = g.node[ q[0][0]]; Sc sc = q[1] == "0" ? Sc{0,INF} : q[1] == "1" ? Sc{0,8} : Sc{2,6}; if (q[1] != "0") scoped = true;
		db.call( "scope", {sc.val()}); std::vector<int> hs;
		for (int i=0; i<atoi( q[2].c_str()); ++i) {std::vector<Val> a{ Val(ty), Val(name), newObj()}; if (i) a.push_back( Val::ilist( std::vector<int>( i, g.node[ f[1][0]]))); hs.push_back( db.call1( "def_type", a).i());}
		mem[ty].push_back( {sc, hs}); ctx.transition();
		if (g_ask >= 0) ask( g);
	}
	ctx.state( text);
	if (g_ask >= 0) {ctx.trace(); return;}
	std::vector<std::pair<std::vector<int>,int>> roots;
	std::vector<int> n{0}; for (char c : f[1]) n.push_back( g.node[c]);
	for (int a : n) {roots.push_back( {{a},0}); roots.push_back( {{a},4}); roots.push_back( {{a},1});}
	for (size_t a=0; a<n.size(); ++a) for (size_t b=0; b<n.size(); ++b) {roots.push_back( {{n[a],n[b]}, 1 + (int)(a+b)%3}); }
	roots.push_back( {{n[1],n[0],n[2]},3}); roots.push_back( {{n[2],n[1],n[2]},2}); if (n.size() > 3) {roots.push_back( {{n[3],n[2],n[1]},1}); roots.push_back( {{n[3],n[3],n[1],n[0]},2});}
	std::vector<long> masks = f[0] == "M" ? std::vector<long>{-1,1,2,0} : std::vector<long>{-1};
	for (int st : scoped || f[0] == "X" ? std::vector<int>{0,2,5,6,7,8} : std::vector<int>{3})
	{
		goStep( db, st);
		for (auto& r : roots) for (long m : masks) checkResolve( ctx, db, g, mem, r.first, r.second, name, st, m);
	}
	// the type defined last is a context like any other
	int last = db.call1( "def_type", {Val(0), Val( pre + "last"), newObj()}).i(); goStep( db, scoped ? 6 : 3);
	for (auto& r : std::vector<std::pair<std::vector<int>,int>>{{{last},0},{{last},1},{{last,n[1]},1},{{n[1],last},2},{{0,last},3}}) checkResolve( ctx, db, g, mem, r.first, r.second, name, scoped ? 6 : 3, -1);
	auto r = db.call( "resolve_type", {Val( n[1]), Val( pre + "unknown")}); ctx.check( r.empty() || r[0].isnil(), "resolve_type of an unknown name: " + strs( r));
	ctx.trace();
}
void enumT03( bool th, const Sink& sink)
{
	for (int n=1; n<=32; ++n) sink( fmt( "S|tags|%d", n));
	for (auto sh : {"chain","star","overloads","contexts","nearest","two"}) {sizes( th ? 600 : 130, [&]( int n) {sink( fmt( "S|%s|%d", sh, n));}); for (int n : {255,256,257,511,512,513}) sink( fmt( "S|%s|%d", sh, n));}
	graphs( "abc", {"","1","2"}, false, [&]( const std::string& e)
	{
		for (int mm=1; mm<16; ++mm) {std::string m; int k=0; for (char c : {'a','b','c','0'}) {if (mm & (1<<k)) m += std::string(1,c) + ":0:" + (k==1?"2":"1") + ","; ++k;} sink( "G|abc|" + e + "|" + m);}
	});
	graphs( "ab", {"","0","1"}, true, [&]( const std::string& e)
	{
		for (int mm=1; mm<8; ++mm) {std::string m; int k=0; for (char c : {'a','b','0'}) {if (mm & (1<<k)) m += std::string(1,c) + ":0:1,"; ++k;} sink( "G|ab|" + e + "|" + m);}
	});
	graphs( "abc", {"","1","0.5","0.500244140625"}, false, [&]( const std::string& e){for (auto m : {"c:0:1,","b:0:1,c:0:1,"}) sink( std::string("G|abc|") + e + "|" + m);});
	// members in scopes
	graphs( "ab", {"","1s0","1s1+3s2","2s2"}, true, [&]( const std::string& e)
	{
		std::vector<std::string> opt{"","1","2","12","21"};
		for (auto& x : opt) for (auto& y : opt) for (auto& z : opt) {std::string m; for (char c : x) m += fmt( "a:%c:%d,", c, c=='1'?1:2); for (char c : y) m += fmt( "b:%c:%d,", c, c=='1'?2:1); for (char c : z) m += fmt( "0:%c:1,", c); if (!m.empty()) sink( "X|ab|" + e + "|" + m);}
	});
	graphs( "abc", {"","1t1","1t2", th ? "1t1+1t2" : ""}, false, [&]( const std::string& e) {for (auto m : {"c:0:1,","b:0:1,c:0:1,","a:0:1,c:0:2,"}) sink( std::string("M|abc|") + e + "|" + m);});
	if (th) graphs( "abcd", {"","1"}, true, [&]( const std::string& e) {for (auto m : {"d:0:1,","c:0:1,d:0:2,","0:0:1,","b:0:1,0:0:1,"}) sink( std::string("G|abcd|") + e + "|" + m);});
	if (th) graphs( "abc", {"","0","1","2"}, false, [&]( const std::string& e)
	{
		for (int mm=1; mm<8; ++mm) {std::string m; int k=0; for (char c : {'a','b','c'}) {if (mm & (1<<k)) m += std::string(1,c) + ":0:1,"; ++k;} sink( "G|abc|" + e + "|" + m);}
	});
}

} // namespace

/// "~p~case": the case at place p
Property placed( Property p, int maxOps, int maxOpsThorough)
{
	auto run = p.run; auto en = p.enumerate;
	p.run = [run]( const std::string& t, Ctx& ctx)
	{
		struct Reset {~Reset() {g_place = 0;}} reset; g_place = g_half = 0;
		if (t[0] != '~') return run( t, ctx);
		auto e = t.find( '~', 1); g_place = atoi( t.substr( 1, e-1).c_str()); run( t.substr( e+1), ctx);
	};
	p.enumerate = [en,maxOps,maxOpsThorough]( bool th, const Sink& sink)
	{
		en( th, [&]( const std::string& t)
		{
			sink( t);
			int max = th ? maxOpsThorough : maxOps;
			if ((isalpha( (unsigned char)t[0]) && t[1] != '|') || t[0] == '#') return; // big cases have steps of their own
			if (std::count( t.begin(), t.end(), ';') > max || t.find( ';') == std::string::npos) return;
			for (std::size_t i=0; i<t.size();) {int v = 0; if (!isdigit( (unsigned char)t[i])) {++i; continue;} while (i < t.size() && isdigit( (unsigned char)t[i]) && v < 100000) v = v * 10 + t[i++] - '0'; if (v > 14) return;} // points of the places
			for (int i=1; i<=NPlaces; ++i) sink( fmt( "~%d~", i) + t);
		});
	};
	return p;
}
/// the cases selected also at all places
Property placedIf( Property p, const std::function<bool(const std::string&)>& sel)
{
	p = placed( p, 0, 0); auto en = p.enumerate;
	p.enumerate = [en,sel]( bool th, const Sink& sink)
	{
		en( th, [&]( const std::string& t) {if (t[0] == '~') return; sink( t); if (sel( t)) for (int i=1; i<=NPlaces; ++i) sink( fmt( "~%d~", i) + t);});
	};
	return p;
}
/// "?q?case": question q asked before the first and after every operation of the case (the answers are given between the definitions, not only after them)
Property asked( Property p, int questions, const std::function<bool(const std::string&,bool)>& sel)
{
	auto run = p.run; auto en = p.enumerate;
	p.run = [run]( const std::string& t, Ctx& ctx)
	{
		struct Reset {~Reset() {g_ask = -1;}} reset; g_ask = -1;
		if (t[0] != '?') return run( t, ctx);
		auto e = t.find( '?', 1); g_ask = atoi( t.substr( 1, e-1).c_str()); run( t.substr( e+1), ctx);
	};
	p.enumerate = [en,sel,questions]( bool th, const Sink& sink)
	{
		en( th, [&]( const std::string& t) {sink( t); if (t[0] != '~' && sel( t, th)) for (int i=0; i<questions; ++i) sink( fmt( "?%d?", i) + t);});
	};
	return p;
}
int main( int argc, char** argv)
{
	std::map<std::string,Property> props;
	props["S01"] = {enumInst, runS01, "one case = one sequence of set_instance calls in pairwise nested-or-disjoint scopes; all steps and all scopes read back against the model; a state is the canonical (name -> set of scopes) content", 15};
	props["S01"] = placed( props["S01"], 2, 3);
	auto ops = []( const std::string& t, char c) {return (int)std::count( t.begin(), t.end(), c);};
	props["S01"] = asked( props["S01"], 36, [=]( const std::string& t, bool th) {return t.compare( 0, 2, "3|") == 0 && ops( t, ';') <= (th ? 3 : 2);});
	props["S05"] = {enumS05, runS05, "one case = one sequence of scope()/step() calls, other calls and refused calls; a state is (scope,step)", 15};
	props["S02"] = {enumS02, runS02, "one case = one sequence of def_type calls; lookups by scope, by step, by parameters and all attributes against the model; a state is the accepted definition sequence", 15};
	props["S02"] = placed( props["S02"], 2, 3);
	props["S02"] = asked( props["S02"], 40, [=]( const std::string& t, bool th) {return t[0] != '#' && ops( t, ';') <= 2;});
	props["S03"] = {enumS03, runS03, "one case = one sequence of definitions; tree walked completely (twice) and compared with the containment tree of the model; a state is the tree", 15};
	props["S03"] = placed( props["S03"], 2, 3);
	props["S03"] = asked( props["S03"], 1, [=]( const std::string& t, bool th) {return (t[0] == 'I' || t[0] == 'T' || t[0] == 'R') && ops( t, ';') <= 3;});
	props["S04"] = {enumS04, runS04, "one case = one sequence of def_type/def_type_as calls; lookups against the model", 15};
	props["S04"] = placed( props["S04"], 2, 3);
	props["T01"] = {enumT01, runT01, "one case = one sequence of def_reduction calls (or a tag pair / fan-out size); get_reduction/get_reductions for all steps and masks against the model", 15};
	props["T01"] = placed( props["T01"], 2, 3);
	props["T01"] = asked( props["T01"], 24, [=]( const std::string& t, bool th) {return isdigit( (unsigned char)t[0]) && ops( t, ';') <= 2;});
	props["T02"] = {enumT02, runT02, "one case = one weighted reduction graph; derive_type for all type pairs (and masks, count limits, steps) against enumeration of all simple paths; a state is the graph", 15};
	props["T03"] = {enumT03, runT03, "one case = one reduction graph with member names; resolve_type for single and list contexts against enumeration of all simple paths; a state is the graph with members", 15};
	props["T02"] = placedIf( props["T02"], []( const std::string& t){return t.compare( 0, 2, "X|") == 0 && std::count( t.begin(), t.end(), 's') <= 4;});
	props["T03"] = placedIf( props["T03"], []( const std::string& t){return t.compare( 0, 5, "G|ab|") == 0 && t.find( 's') != std::string::npos && std::count( t.begin(), t.end(), ':') + 2 * std::count( t.begin(), t.end(), 's') <= 8;});
	props["T02"] = asked( props["T02"], 45, [=]( const std::string& t, bool th) {return (t.compare( 0, 6, "W|abc|") == 0 && t.find( '.') == std::string::npos && t.find( "10") == std::string::npos && ops( t, ',') <= 3) || (t.compare( 0, 2, "X|") == 0 && ops( t, ',') <= 3);});
	props["T03"] = asked( props["T03"], 45, [=]( const std::string& t, bool th) {return t.compare( 0, 5, "G|ab|") == 0 && ops( t, ',') <= 3;});
	props["T04"] = {enumT04, runT04, "one case = one sequence of definitions with context and parameter references; all attributes of all types re-read after each step", 15};
	props["T05"] = {enumT05, runT05, "one case = one pair of names; types and instances of different byte strings never meet, equal ones always do", 15};
	return main_( argc, argv, props);
}
