// Embeds Lua with the mewa module linked in, and converts values.
#ifndef LUAHOST_HPP
#define LUAHOST_HPP
#include "mc.hpp"
#include <cmath>
extern "C" {
#include <lua.h>
#include <lauxlib.h>
#include <lualib.h>
int luaopen_mewa( lua_State* ls);
}

namespace lh {

struct Val
{
	enum T {Nil,Bool,Num,Str,Obj,Tab,Other};
	T t = Nil; bool b = false; double n = 0; std::string s; int obj = 0;
	std::vector<std::pair<Val,Val> > tab;	// Tab: sorted by key text

	Val(){}
	Val( double v) :t(Num),n(v){}
	Val( int v) :t(Num),n(v){}
	Val( long v) :t(Num),n((double)v){}
	Val( bool v) :t(Bool),b(v){}
	Val( const char* v) :t(Str),s(v){}
	Val( const std::string& v) :t(Str),s(v){}
	static Val object( int id)			{Val v; if (id > 0) {v.t = Obj; v.obj = id;} return v;}
	static Val list( const std::vector<Val>& l)	{Val v; v.t = Tab; int i=0; for (auto const& e : l) v.tab.push_back( {Val(++i), e}); return v;}
	static Val ilist( const std::vector<int>& l)	{Val v; v.t = Tab; int i=0; for (auto const& e : l) v.tab.push_back( {Val(++i), Val(e)}); return v;}
	Val& set( const Val& k, const Val& v)		{t = Tab; tab.push_back( {k, v}); return *this;}

	bool isnil() const {return t == Nil;}
	int i() const {return t == Num ? (int)n : -999999;}
	/// element by integer or string key
	const Val& at( int k) const	{static Val nil; if (k >= 1 && k <= (int)tab.size() && tab[k-1].first.t == Num && tab[k-1].first.n == k) return tab[k-1].second; for (auto const& e : tab) if (e.first.t == Num && e.first.n == k) return e.second; return nil;}
	const Val& at( const char* k) const {static Val nil; for (auto const& e : tab) if (e.first.t == Str && e.first.s == k) return e.second; return nil;}
	std::size_t len() const		{std::size_t rt=0; while (!at( (int)rt+1).isnil()) ++rt; return rt;}

	std::string str() const
	{
		switch (t)
		{
			case Nil: return "nil";
			case Bool: return b ? "true":"false";
			case Num: return mc::fmt( "%.17g", n);
			case Str: return mc::json_str( s);
			case Obj: return mc::fmt( "<obj %d>", obj);
			case Other: return "<" + s + ">";
			case Tab: break;
		}
		std::string rt = "{";
		for (auto const& e : tab) {if (rt.size() > 1) rt += ","; if (e.first.t != Num) rt += e.first.str() + "="; else rt += mc::fmt( "[%g]=", e.first.n); rt += e.second.str();}
		return rt + "}";
	}
	bool operator==( const Val& o) const {return str() == o.str();}
};
inline std::ostream& operator<<( std::ostream& o, const Val& v) {return o << v.str();}
inline std::string strs( const std::vector<Val>& v) {std::string rt; for (auto const& e : v) {if (!rt.empty()) rt += ", "; rt += e.str();} return rt;}

class Host
{
public:
	lua_State* L;
	int objref;		// registry: id -> object
	int revref;		// registry: object -> id

	Host()
	{
		L = luaL_newstate();
		if (!L) throw std::runtime_error( "luaL_newstate failed");
		luaL_openlibs( L);
		luaL_requiref( L, "mewa", luaopen_mewa, 1); lua_pop( L, 1);
		lua_newtable( L); objref = luaL_ref( L, LUA_REGISTRYINDEX);
		lua_newtable( L); revref = luaL_ref( L, LUA_REGISTRYINDEX);
	}
	~Host() {lua_close( L);}
	Host( const Host&) = delete;

	/// Push the object with a given identity (a fresh Lua table per id)
	void pushObject( int id)
	{
		lua_rawgeti( L, LUA_REGISTRYINDEX, objref);
		lua_rawgeti( L, -1, id);
		if (lua_isnil( L, -1))
		{
			lua_pop( L, 1);
			lua_newtable( L);
			lua_pushvalue( L, -1); lua_rawseti( L, -3, id);
			lua_rawgeti( L, LUA_REGISTRYINDEX, revref);
			lua_pushvalue( L, -2); lua_pushinteger( L, id); lua_rawset( L, -3);
			lua_pop( L, 1);
		}
		lua_remove( L, -2);
	}
	void push( const Val& v)
	{
		switch (v.t)
		{
			case Val::Nil: lua_pushnil( L); break;
			case Val::Bool: lua_pushboolean( L, v.b); break;
			case Val::Num: lua_pushnumber( L, v.n); break;
			case Val::Str: lua_pushlstring( L, v.s.data(), v.s.size()); break;
			case Val::Obj: pushObject( v.obj); break;
			case Val::Other: lua_pushnil( L); break;
			case Val::Tab:
				lua_newtable( L);
				for (auto const& e : v.tab) {push( e.first); push( e.second); lua_rawset( L, -3);}
				break;
		}
	}
	int maxDepth = 20;		// levels of tables read by get
	Val get( int idx, int depth=0)
	{
		if (idx < 0) idx = lua_gettop( L) + idx + 1;
		Val v;
		switch (lua_type( L, idx))
		{
			case LUA_TNIL: return v;
			case LUA_TBOOLEAN: return Val( (bool)lua_toboolean( L, idx));
			case LUA_TNUMBER: return Val( (double)lua_tonumber( L, idx));
			case LUA_TSTRING: {size_t n; const char* s = lua_tolstring( L, idx, &n); return Val( std::string( s, n));}
			case LUA_TTABLE:
			{
				luaL_checkstack( L, 8, "get");
				lua_rawgeti( L, LUA_REGISTRYINDEX, revref);
				lua_pushvalue( L, idx); lua_rawget( L, -2);
				if (lua_isnumber( L, -1)) {int id = lua_tointeger( L, -1); lua_pop( L, 2); return Val::object( id);}
				lua_pop( L, 2);
				v.t = Val::Tab;
				if (depth > maxDepth) {v.t = Val::Other; v.s = "deep"; return v;}
				std::vector<std::pair<std::string,std::pair<Val,Val> > > ent;
				lua_pushnil( L);
				while (lua_next( L, idx))
				{
					Val k = get( -2, depth+1), e = get( -1, depth+1);
					std::string ks = k.t == Val::Num ? mc::fmt( "0%020.6f", k.n) : ("1" + k.str());
					ent.push_back( {ks, {k, e}});
					lua_pop( L, 1);
				}
				std::sort( ent.begin(), ent.end(), []( auto const& a, auto const& b){return a.first < b.first;});
				for (auto& e : ent) v.tab.push_back( e.second);
				return v;
			}
			default: v.t = Val::Other; v.s = lua_typename( L, lua_type( L, idx)); return v;
		}
	}
	/// function on top-(nargs) .. standard pcall; returns results, err set on error
	std::vector<Val> pcall( int nargs, std::string* err)
	{
		int base = lua_gettop( L) - nargs - 1;
		std::vector<Val> rt;
		int rc = lua_pcall( L, nargs, LUA_MULTRET, 0);
		if (rc)
		{
			const char* m = lua_tostring( L, -1);
			if (err) *err = m ? std::string("E:") + m : std::string("E:(non-string error)");
			else
			{
				std::string msg = m ? m : "(non-string error)";
				lua_settop( L, base);
				throw mc::Failure( "unexpected Lua error: " + msg);
			}
		}
		else
		{
			if (err) err->clear();
			int n = lua_gettop( L);
			for (int i=base+1; i<=n; ++i) rt.push_back( get( i));
		}
		lua_settop( L, base);
		return rt;
	}
	void gc() {lua_gc( L, LUA_GCCOLLECT, 0);}

	/// run a Lua chunk with arguments
	std::vector<Val> chunk( const std::string& code, const std::vector<Val>& args, std::string* err, const char* name="=chunk")
	{
		int rc = luaL_loadbuffer( L, code.data(), code.size(), name);
		if (rc)
		{
			std::string m = lua_tostring( L, -1); lua_pop( L, 1);
			if (err) {*err = "E:load:" + m; return {};}
			throw mc::Failure( "cannot load chunk: " + m);
		}
		for (auto const& a : args) push( a);
		return pcall( args.size(), err);
	}
};

/// A typedb object living in the Lua registry
class Typedb
{
public:
	Host& h; int ref;
	explicit Typedb( Host& h_) :h(h_)
	{
		lua_getglobal( h.L, "mewa");
		lua_getfield( h.L, -1, "typedb");
		lua_remove( h.L, -2);
		if (lua_pcall( h.L, 0, 1, 0)) throw mc::Failure( std::string( "mewa.typedb() failed: ") + lua_tostring( h.L, -1));
		ref = luaL_ref( h.L, LUA_REGISTRYINDEX);
	}
	~Typedb() {luaL_unref( h.L, LUA_REGISTRYINDEX, ref);}
	Typedb( const Typedb&) = delete;

	std::vector<Val> call( const char* method, const std::vector<Val>& args, std::string* err=nullptr)
	{
		lua_State* L = h.L;
		lua_rawgeti( L, LUA_REGISTRYINDEX, ref);
		lua_getfield( L, -1, method);
		lua_insert( L, -2);
		for (auto const& a : args) h.push( a);
		return h.pcall( args.size() + 1, err);
	}
	Val call1( const char* method, const std::vector<Val>& args, std::string* err=nullptr)
	{
		auto rt = call( method, args, err);
		return rt.empty() ? Val() : rt[0];
	}
	void scope( int s, int e)		{call( "scope", {Val::ilist( {s,e})});}
	void step( int s)			{call( "step", {Val(s)});}
};

/// Per worker host, renewed regularly so that nothing accumulates
inline Host& host( int gcEvery=16, int renewEvery=2000)
{
	static Host* h = nullptr; static int n = 0;
	if (h && ++n % gcEvery == 0) h->gc();
	if (h && n >= renewEvery) {delete h; h = nullptr;}
	if (!h) {h = new Host(); n = 0;}
	return *h;
}

} // namespace lh
#endif
