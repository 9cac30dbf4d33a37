From 8383d054f00a126f01361ff54955cdbcef2958bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:21 +0000
Subject: [PATCH 01/77] fix: defining something in an empty scope does not loop
 endlessly or fail anymore

---
 src/scope.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/scope.hpp b/src/scope.hpp
index 611430a..5530481 100644
--- a/src/scope.hpp
+++ b/src/scope.hpp
@@ -441,7 +441,7 @@ public:
 		{
 			newindex = m_invtree.insertUpValue( ins.first->second, scope, value, uplink, nullptr);
 		}
-		if (newindex >= 0)
+		if (newindex >= 0 && scope.start() < scope.end()/*an empty scope covers nothing*/)
 		{
 			auto leftnode = m_map.upper_bound( scope.start());
 			if (leftnode == m_map.end()) throw Error( Error::LogicError, string_format( "%s line %d", __FILE__, (int)__LINE__));
@@ -623,7 +623,7 @@ public:
 			newindex = m_invtree.insertUpValue( ins.first->second, scope, value, uplink, &oldval);
 			if (newindex < 0) return false;
 		}
-		if (newindex >= 0)
+		if (newindex >= 0 && scope.start() < scope.end()/*an empty scope covers nothing*/)
 		{
 			auto leftnode = m_map.upper_bound( {key,scope.start()} );
 			if (leftnode == m_map.end() || leftnode->first.key() != key)
@@ -657,7 +657,7 @@ public:
 		{
 			newindex = m_invtree.insertUpValue( ins.first->second, scope, value, uplink, &rt);
 		}
-		if (newindex >= 0)
+		if (newindex >= 0 && scope.start() < scope.end()/*an empty scope covers nothing*/)
 		{
 			auto leftnode = m_map.upper_bound( {key,scope.start()});
 			if (leftnode == m_map.end() || leftnode->first.key() != key)
-- 
2.43.0


From 0df4ca449f6810dfbe17f682ae1f792f1e7dfa0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:38 +0000
Subject: [PATCH 02/77] fix: names with 64K bytes and more are not truncated
 and do not corrupt memory

---
 src/identmap.hpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/identmap.hpp b/src/identmap.hpp
index 4d77000..b01137a 100644
--- a/src/identmap.hpp
+++ b/src/identmap.hpp
@@ -19,23 +19,25 @@
 #include <unordered_map>
 #include <cstring>
 #include <cstdint>
+#include <cstddef>
+#include <new>
 #include <string_view>
 
 namespace mewa {
 
 struct IdentKey
 {
-	unsigned short size;
+	uint32_t size;
 	char buf[1];
 
 	static const IdentKey* create( std::pmr::memory_resource* memrsc, const std::string_view& src)
 	{
-		constexpr unsigned short maxsize = std::numeric_limits<unsigned short>::max()-4;
-		unsigned short strsize = src.size() > maxsize ? maxsize : src.size();
-		ptrdiff_t offs_buf = reinterpret_cast<const char*>(&((const IdentKey*)nullptr)->buf) - (const char*)nullptr;
-		unsigned short blksize = offs_buf + strsize + 1;
+		if (src.size() > (std::size_t)std::numeric_limits<int>::max()) throw std::bad_alloc();
+		std::size_t strsize = src.size();
+		std::size_t offs_buf = offsetof( IdentKey, buf);
+		std::size_t blksize = offs_buf + strsize + 1;
 		blksize += (4 - (blksize & 3)) & 3; //... align size of of key to 0 mod sizeof(uint32_t)
-		unsigned short restsize = blksize - strsize - offs_buf;
+		std::size_t restsize = blksize - strsize - offs_buf;
 		IdentKey* rt = (IdentKey*)memrsc->allocate( blksize, 4/*align*/);
 		rt->size = strsize;
 		std::memcpy( rt->buf, src.data(), strsize);
@@ -49,8 +51,8 @@ struct IdentKey
 	}
 	int alignedsize() const noexcept
 	{
-		ptrdiff_t offs_buf = reinterpret_cast<const char*>(&((const IdentKey*)nullptr)->buf) - (const char*)nullptr;
-		unsigned short blksize = offs_buf + size + 1;
+		std::size_t offs_buf = offsetof( IdentKey, buf);
+		std::size_t blksize = offs_buf + size + 1;
 		blksize += (4 - (blksize & 3)) & 3; //... align size of of key to 0 mod sizeof(uint32_t)
 		return blksize / 4;
 	}
-- 
2.43.0


From f36062b62bf1290587d5f785fdf994fcace0b31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:38 +0000
Subject: [PATCH 03/77] fix: iterating over the children of a tree node ends
 after the last child

---
 src/lualib_mewa.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lualib_mewa.cpp b/src/lualib_mewa.cpp
index 2275ac5..9bd72d9 100644
--- a/src/lualib_mewa.cpp
+++ b/src/lualib_mewa.cpp
@@ -1167,7 +1167,7 @@ struct LuaTreeMetaMethods
 			luaL_getmetatable( ls, UD::metatableName());
 			lua_setmetatable( ls, -2);
 
-			iter = (*ud->tree)[ ud->nodeidx].next();
+			iter = (*ud->tree)[ iter].next();
 			lua_pushinteger( ls, iter);
 			lua_replace( ls, lua_upvalueindex(2));
 		}
-- 
2.43.0


From 78ea320f3194bf9e7097f38288b09e6e0a080e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:01 +0000
Subject: [PATCH 04/77] fix: def_type_as returns -1 for a duplicate as
 documented

---
 src/typedb.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/typedb.cpp b/src/typedb.cpp
index a61be70..6274210 100644
--- a/src/typedb.cpp
+++ b/src/typedb.cpp
@@ -250,7 +250,7 @@ int TypeDatabase::defineTypeAs( const Scope& scope, int contextType, const std::
 	if (contextType < 0 || contextType > (int)m_typerecMap.size()) throw Error( Error::InvalidHandle, string_format( "%d", contextType));
 	if (type <= 0 || type > (int)m_typerecMap.size()) throw Error( Error::InvalidHandle, string_format( "%d", type));
 	TypeDef typeDef( contextType, m_identMap->get( name));
-	return m_typeTable->set( scope, typeDef, type) ? type : 0;
+	return m_typeTable->set( scope, typeDef, type) ? type : -1;
 }
 
 void TypeDatabase::defineReduction( const Scope& scope, int toType, int fromType, int constructor, int tag, float weight)
-- 
2.43.0


From 2b3c40d66484ce67bff95b0a89210859b7d282f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:01 +0000
Subject: [PATCH 05/77] fix: defining a type with the name of a synonym does
 not change the type the synonym stands for

---
 src/typedb.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/typedb.cpp b/src/typedb.cpp
index 6274210..5be06a4 100644
--- a/src/typedb.cpp
+++ b/src/typedb.cpp
@@ -233,6 +233,9 @@ int TypeDatabase::defineType( const Scope& scope, int contextType, const std::st
 	int prev_typerec = m_typeTable->getOrSet( scope, typeDef, typerec);
 	if (prev_typerec/*already exists*/)
 	{
+		TypeRecord const& head = m_typerecMap[ prev_typerec-1];
+		if (!(head.inv == typeDef) || !(head.scope == scope)) return -1; //... name already defined as a synonym (def_type_as), do not add an overload to the type it stands for
+
 		// Check if there is a conflict, and find the end of the single linked list (-> lastListIndex):
 		int lastListIndex = 0;
 		int tri = findTypeWithSignature( prev_typerec, parameter, lastListIndex);
-- 
2.43.0


From 66f48b7d70c1c7a87acecadd81ca6ca4d605a250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:30 +0000
Subject: [PATCH 06/77] fix: negative integer arguments are not rounded up and
 integer arguments out of range are refused

---
 src/lua_parameter.cpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/lua_parameter.cpp b/src/lua_parameter.cpp
index 3d5b316..3af4f93 100644
--- a/src/lua_parameter.cpp
+++ b/src/lua_parameter.cpp
@@ -101,21 +101,24 @@ const char* mewa::lua::getArgumentAsCString( const char* functionName, lua_State
 	return lua_tostring( ls, li);
 }
 
-long mewa::lua::getArgumentAsInteger( const char* functionName, lua_State* ls, int li, mewa::Error::Code ec)
+static long getArgumentAsIntegerInRange( const char* functionName, lua_State* ls, int li, mewa::Error::Code ec, double minval, double maxval)
 {
 	if (!mewa::lua::isArgumentType( functionName, ls, li, (1 << LUA_TNUMBER)))
 	{
 		mewa::lua::throwArgumentError( functionName, li, ec);
 	}
 	double val = lua_tonumber( ls, li);
-	if (val - std::floor( val) < std::numeric_limits<double>::epsilon()*4)
-	{
-		return (long)(val + std::numeric_limits<double>::epsilon()*4);
-	}
-	else
+	double intval = std::floor( val + std::numeric_limits<double>::epsilon()*4);
+	if (!(val - intval < std::numeric_limits<double>::epsilon()*4 && intval >= minval && intval <= maxval))
 	{
 		mewa::lua::throwArgumentError( functionName, li, ec);
 	}
+	return (long)intval;
+}
+
+long mewa::lua::getArgumentAsInteger( const char* functionName, lua_State* ls, int li, mewa::Error::Code ec)
+{
+	return getArgumentAsIntegerInRange( functionName, ls, li, ec, std::numeric_limits<int>::min(), std::numeric_limits<int>::max());
 }
 
 long mewa::lua::getArgumentAsUnsignedInteger( const char* functionName, lua_State* ls, int li)
@@ -217,7 +220,9 @@ mewa::Scope mewa::lua::getArgumentAsScope( const char* functionName, lua_State*
 
 mewa::TagMask mewa::lua::getArgumentAsTagMask( const char* functionName, lua_State* ls, int li)
 {
-	mewa::TagMask::BitSet bs = mewa::lua::getArgumentAsNonNegativeInteger( functionName, ls, li);
+	mewa::TagMask::BitSet bs = getArgumentAsIntegerInRange(
+					functionName, ls, li, mewa::Error::ExpectedNonNegativeIntegerArgument,
+					0, std::numeric_limits<mewa::TagMask::BitSet>::max());
 	return mewa::TagMask( bs);
 }
 
-- 
2.43.0


From c629b0d42dc1497bead10ae467b1fe728d818a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:30 +0000
Subject: [PATCH 07/77] fix: list arguments with gaps or absurd indices are
 refused, elements are referenced only once

---
 src/lua_parameter.cpp | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/lua_parameter.cpp b/src/lua_parameter.cpp
index 3af4f93..0343a67 100644
--- a/src/lua_parameter.cpp
+++ b/src/lua_parameter.cpp
@@ -164,9 +164,10 @@ void mewa::lua::checkArgumentAsTable( const char* functionName, lua_State* ls, i
 static int getTableIndex( lua_State* ls, int li)
 {
 	double kk = lua_tonumber( ls, li);
-	if (kk - std::floor( kk) < std::numeric_limits<double>::epsilon()*4)
+	double intkk = std::floor( kk + std::numeric_limits<double>::epsilon()*4);
+	if (kk - intkk < std::numeric_limits<double>::epsilon()*4 && intkk >= 1 && intkk <= std::numeric_limits<int>::max())
 	{
-		return (int)(kk + std::numeric_limits<double>::epsilon()*4);
+		return (int)intkk;
 	}
 	else
 	{
@@ -174,6 +175,17 @@ static int getTableIndex( lua_State* ls, int li)
 	}
 }
 
+/// \brief Get the index of a list element, 0 if the key is not an index of the list
+static int getListIndex( lua_State* ls, int keyidx, int tableidx)
+{
+	int rt = getTableIndex( ls, keyidx);
+#if LUA_VERSION_NUM <= 501
+	return rt <= (int)lua_objlen( ls, tableidx) ? rt : 0;
+#else
+	return rt <= (int)lua_rawlen( ls, tableidx) ? rt : 0;
+#endif
+}
+
 mewa::Scope mewa::lua::getArgumentAsScope( const char* functionName, lua_State* ls, int li)
 {
 	checkArgumentAsTable( functionName, ls, li);
@@ -308,7 +320,7 @@ std::pmr::vector<mewa::TypeDatabase::TypeConstructorPair>
 	{
 		if (lua_type( ls, -2) == LUA_TNUMBER)
 		{
-			int kidx = getTableIndex( ls, -2);
+			int kidx = getListIndex( ls, -2, -3);
 			if (!kidx) mewa::lua::throwArgumentError( functionName, li, mewa::Error::ExpectedArgumentTypeConstructorPairList);
 
 			std::size_t index = kidx-1;
@@ -322,8 +334,8 @@ std::pmr::vector<mewa::TypeDatabase::TypeConstructorPair>
 				{
 					rt.resize( index+1, mewa::TypeDatabase::TypeConstructorPair( -1, -1));
 				}
-			}
 				rt[ index] = getArgumentAsTypeConstructorPair( functionName, ls, -1);		//STK: [PARAMTAB] [KEY] [VAL]
+			}
 		}
 		else
 		{
@@ -332,6 +344,10 @@ std::pmr::vector<mewa::TypeDatabase::TypeConstructorPair>
 		lua_pop( ls, 1);											//STK: [PARAMTAB] [KEY]
 	}
 	lua_pop( ls, 1);												//STK:
+	for (auto const& elem : rt)
+	{
+		if (elem.type < 0) throwArgumentError( functionName, li, mewa::Error::ExpectedArgumentTypeConstructorPairList); //... list with gaps
+	}
 	return rt;
 }
 
@@ -347,7 +363,7 @@ std::vector<std::string> mewa::lua::getArgumentAsStringList( const char* functio
 	{
 		if (lua_type( ls, -2) == LUA_TNUMBER && lua_type( ls, -1) == LUA_TSTRING)
 		{
-			int kidx = getTableIndex( ls, -2);
+			int kidx = getListIndex( ls, -2, -3);
 			if (!kidx) throwArgumentError( functionName, li, mewa::Error::ExpectedArgumentStringList);
 			while (kidx > (int)rt.size())
 			{
@@ -403,7 +419,7 @@ std::pmr::vector<int> mewa::lua::getArgumentAsTypeList(
 	{
 		if (lua_type( ls, -2) == LUA_TNUMBER)
 		{
-			int kidx = getTableIndex( ls, -2);
+			int kidx = getListIndex( ls, -2, -3);
 			if (!kidx) mewa::lua::throwArgumentError(
 					functionName, li, allowTypeConstructorPairs
 								? mewa::Error::ExpectedArgumentTypeList
-- 
2.43.0


From e690b3c6c8545fca9dd7aea1fae92772bd13ee14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:30 +0000
Subject: [PATCH 08/77] fix: typedb:scope called with an invalid step does not
 change the current scope

---
 src/lualib_mewa.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lualib_mewa.cpp b/src/lualib_mewa.cpp
index 9bd72d9..e993185 100644
--- a/src/lualib_mewa.cpp
+++ b/src/lualib_mewa.cpp
@@ -555,8 +555,9 @@ static int mewa_typedb_scope( lua_State* ls)
 		mewa::Scope::Step rt_step = td->curStep;
 		if (nargs >= 2)
 		{
-			td->curScope = mewa::lua::getArgumentAsScope( functionName, ls, 2);
-			td->curStep = (nargs >= 3) ? mewa::lua::getArgumentAsNonNegativeInteger( functionName, ls, 3) : (td->curScope.end()-1);
+			mewa::Scope scope = mewa::lua::getArgumentAsScope( functionName, ls, 2);
+			td->curStep = (nargs >= 3) ? mewa::lua::getArgumentAsNonNegativeInteger( functionName, ls, 3) : (scope.end()-1);
+			td->curScope = scope;
 		}
 		mewa::lua::pushScope( ls, functionName, rt_scope);
 		lua_pushinteger( ls, rt_step);
-- 
2.43.0


From 6c844b72e3024c51e30f20fdbf7bfc5a60bef550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:10 +0000
Subject: [PATCH 09/77] fix: raising an error without a caller on the stack
 (function started as coroutine) does not crash

---
 src/lualib_mewa.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lualib_mewa.cpp b/src/lualib_mewa.cpp
index e993185..c1c16c4 100644
--- a/src/lualib_mewa.cpp
+++ b/src/lualib_mewa.cpp
@@ -55,7 +55,7 @@ extern "C" int luaopen_mewa( lua_State* ls);
 static mewa::Error::Location getLuaScriptErrorLocation( lua_State* ls)
 {
 	lua_Debug ar;
-	lua_getstack( ls, 1, &ar);
+	if (!lua_getstack( ls, 1, &ar)) return mewa::Error::Location(); //... no caller, e.g. the function is the body of a coroutine
 	lua_getinfo( ls, "S", &ar);
 	return mewa::Error::Location( ar.short_src, ar.linedefined);
 }
-- 
2.43.0


From 74a7cb8d2e3574e1ac50d9ad551f86a78a6122ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:10 +0000
Subject: [PATCH 10/77] fix: mewa.stacktrace does not crash or fail when a main
 chunk or code loaded from a string is on the stack

---
 src/lua_parameter.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/lua_parameter.cpp b/src/lua_parameter.cpp
index 0343a67..6142dfb 100644
--- a/src/lua_parameter.cpp
+++ b/src/lua_parameter.cpp
@@ -701,14 +701,15 @@ void mewa::lua::pushStackTrace( lua_State* ls, const char* functionName, int nn,
 		auto fi = locationMap.find( ar.short_src);
 		if (fi == locationMap.end())
 		{
-			auto ins = locationMap.insert( {ar.short_src, mewa::readFileLines( ar.short_src)} );
+			auto ins = locationMap.insert( {ar.short_src, std::vector<std::string>()} );
 			fi = ins.first;
+			if (ar.source[0] == '@') fi->second = mewa::readFileLines( ar.source+1);
 		}
-		if ((int)fi->second.size() >= ar.linedefined)
+		if (ar.linedefined >= 1 && (int)fi->second.size() >= ar.linedefined) //... else main chunk or source not available => function name not known
 		{
 			char const* ln = fi->second[ ar.linedefined-1].c_str();
 			for (; *ln && (unsigned char)*ln <= 32; ++ln){}
-			if (0==std::memcmp( ln, "function ", 8)) ln += 8;
+			if (0==std::strncmp( ln, "function ", 9)) ln += 8;
 			for (; *ln && (unsigned char)*ln <= 32; ++ln){}
 			char const* le = std::strchr( ln, '(');
 			if (!le) le = std::strchr( ln, '\0');
@@ -722,10 +723,6 @@ void mewa::lua::pushStackTrace( lua_State* ls, const char* functionName, int nn,
 			lua_pushlstring( ls, ln, le-ln);				// STK: [STKTR] [ELEM] "function" [FUNCNAME]
 			lua_rawset( ls, -3);						// STK: [STKTR] [ELEM]
 		}
-		else
-		{
-			throw mewa::Error( mewa::Error::LogicError, string_format( "%s line %d", __FILE__, (int)__LINE__));
-		}
 		if (do_ignore)
 		{
 			lua_pop( ls, 1);
-- 
2.43.0


From 4547f3a2fbfd42525cb1443e183f5a1bffe2f8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:19 +0000
Subject: [PATCH 11/77] fix: deeply nested input does not overflow the Lua
 stack in compiler:run

---
 src/lua_run_compiler.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lua_run_compiler.cpp b/src/lua_run_compiler.cpp
index ab91c3c..b56d729 100644
--- a/src/lua_run_compiler.cpp
+++ b/src/lua_run_compiler.cpp
@@ -12,6 +12,7 @@
 
 #include "lua_run_compiler.hpp"
 #include "lua_serialize.hpp"
+#include "lua_parameter.hpp"
 #include "lexer.hpp"
 #include "error.hpp"
 #include "strings.hpp"
@@ -331,6 +332,7 @@ static int lua_pcall_errorhandler( lua_State* ls)
 
 static void luaCallNodeFunction( lua_State* ls, int li, int calltable, FILE* dbgout, int options_index)
 {
+	mewa::lua::checkStack( "compiler:run", ls, 10);
 	if (!lua_istable( ls, li)) throw mewa::Error( mewa::Error::BadElementOnCompilerStack, mewa::string_format( "%s line %d", __FILE__, (int)__LINE__));
 	lua_pushcfunction( ls, &lua_pcall_errorhandler);		// STK: [EHND] 
 	lua_pushvalue( ls, li);						// STK: [EHND] [NODE]
@@ -416,6 +418,7 @@ static void luaCallNodeFunction( lua_State* ls, int li, int calltable, FILE* dbg
 /// \return true, if the lexem has been consumed, false if we have to feed the same lexem again
 static bool feedLexem( lua_State* ls, CompilerContext& ctx, const mewa::Automaton& automaton, const mewa::Lexem& lexem)
 {
+	mewa::lua::checkStack( "compiler:run", ls, 10); //... the number of elements on the Lua stack grows with the parser stack
 	auto nexti = automaton.actions().find( {ctx.stateStack.back().index, lexem.id()/*terminal*/});
 	if (nexti == automaton.actions().end())
 	{
-- 
2.43.0


From 1d5cfe39ed7f8099629bedf46dcd744619431ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:19 +0000
Subject: [PATCH 12/77] fix: errors raised by callbacks with a value that is
 not a string are reported with a message

---
 src/lua_run_compiler.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/lua_run_compiler.cpp b/src/lua_run_compiler.cpp
index b56d729..3c125c0 100644
--- a/src/lua_run_compiler.cpp
+++ b/src/lua_run_compiler.cpp
@@ -294,7 +294,18 @@ static int lua_pcall_errorhandler( lua_State* ls)
 
 	int nn = lua_gettop( ls);
 	char const* msgstr = (nn >= 1) ? lua_tostring( ls, 1) : "";
-	if (!msgstr) msgstr = "";
+	if (!msgstr)
+	{
+		//... error object is not a string
+		if (luaL_callmeta( ls, 1, "__tostring"))
+		{
+			msgstr = lua_tostring( ls, -1);
+		}
+		if (!msgstr)
+		{
+			msgstr = lua_pushfstring( ls, "(error object is a %s value)", luaL_typename( ls, 1));
+		}
+	}
 	std::size_t msglen;
 	if (0!=std::strstr( msgstr, ".lua:"))
 	{
-- 
2.43.0


From 4104aa2de0da31c669439bfd7afc9a9e5de8758a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:00 +0000
Subject: [PATCH 13/77] fix: output and redirected global functions of a call
 of compiler:run do not survive the call

---
 src/lualib_mewa.cpp | 51 +++++++++++++++++++++++++++++++--------------
 1 file changed, 35 insertions(+), 16 deletions(-)

diff --git a/src/lualib_mewa.cpp b/src/lualib_mewa.cpp
index c1c16c4..a6e01f1 100644
--- a/src/lualib_mewa.cpp
+++ b/src/lualib_mewa.cpp
@@ -407,6 +407,20 @@ static void copyFileNameToBuffer( char* buf, std::size_t bufsize, std::string_vi
 	std::memcpy( buf, str.data(), str.size());
 	buf[ str.size()] = 0;
 }
+
+/// \brief Restore the global functions redirected by compiler:run, saved on the Lua stack starting with globals_index+1
+static void restorePrintFunctions( lua_State* ls, int globals_index)
+{
+	int vi = globals_index;
+	lua_settop( ls, globals_index + sizeof(g_printlib)/sizeof(g_printlib[0])-1);
+	for (const luaL_Reg* fi = g_printlib; fi->name; ++fi)
+	{
+		lua_pushstring( ls, fi->name);
+		lua_pushvalue( ls, ++vi);
+		lua_rawset( ls, globals_index);
+	}
+}
+
 static int mewa_compiler_run( lua_State* ls)
 {
 	[[maybe_unused]] static const char* functionName = "compiler:run( target, options, inputfile, [,outputfile [,dbgoutput]])";
@@ -449,21 +463,24 @@ static int mewa_compiler_run( lua_State* ls)
 				if (!cp->debugFileHandle) throw mewa::Error( (mewa::Error::Code) errno, debugFileName);
 			}
 		}
+		cp->outputBuffer.clear();		// ... drop output of previous calls
+		cp->outputSectionMap.clear();
+
 		lua_getglobal( ls, "_G");		// STK: table=_G
-		lua_pushliteral( ls, "print");		// STK: table=_G, key=print
-		lua_pushliteral( ls, "print");		// STK: table=_G, key=print, key=print
-		lua_gettable( ls, -3);			// STK: table=_G, key=print, value=function
-		lua_pushliteral( ls, "debug");		// STK: table=_G, key=print, value=function key=debug
-		lua_pushliteral( ls, "debug");		// STK: table=_G, key=print, value=function key=debug key=debug
-		lua_gettable( ls, -5);			// STK: table=_G, key=print, value=function key=debug value=function
-
-		lua_getglobal( ls, "_G");
+		int globals_index = lua_gettop( ls);
+		for (const luaL_Reg* fi = g_printlib; fi->name; ++fi)
+		{
+			lua_pushstring( ls, fi->name);	// STK: table=_G, values.., key
+			lua_rawget( ls, globals_index);	// STK: table=_G, values.., value
+		}
+		lua_pushvalue( ls, globals_index);
 		lua_pushlightuserdata( ls, cp);
 		luaL_setfuncs( ls, g_printlib, 1/*number of closure elements*/);
 		lua_pop( ls, 1);
-
-		mewa::luaRunCompiler( ls, cp->automaton, options_index, sourceptr, cp->callTableName.buf, cp->debugFileHandle);
+		try
 		{
+			mewa::luaRunCompiler( ls, cp->automaton, options_index, sourceptr, cp->callTableName.buf, cp->debugFileHandle);
+
 			std::string triple = mewa::fileBaseName( targetfn);
 
 			// Map output with target template:
@@ -484,13 +501,15 @@ static int mewa_compiler_run( lua_State* ls)
 				mewa::writeFile( std::string(outputfn), output);
 			}
 		}
-
-		// Restore old print function that has been left on the stack:
-					//STK: table=_G, key=print, value=function key=debug, value=function
-		lua_settable( ls, -5);	//STK: table=_G, key=print, value=function
-		lua_settable( ls, -3);	//STK: table=_G
-		lua_pop( ls, 1);	//STK:
+		catch (...)
+		{
+			restorePrintFunctions( ls, globals_index);
+			cp->closeOutput();
+			throw;
+		}
+		restorePrintFunctions( ls, globals_index);
 		cp->closeOutput();
+		lua_settop( ls, globals_index-1); //STK:
 		lua_pop( ls, 3);	// ... destroy strings on lua stack created with move_string_on_lua_stack and options
 
 		if (g_called_deprecated_get_types)
-- 
2.43.0


From 09aa9f67c3897f559f0b3a9f18df78818641c357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:00 +0000
Subject: [PATCH 14/77] fix: fileBaseName does not read beyond the name of a
 file without extension

---
 src/fileio.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/fileio.cpp b/src/fileio.cpp
index 9288202..7c9ab3f 100644
--- a/src/fileio.cpp
+++ b/src/fileio.cpp
@@ -109,8 +109,7 @@ std::string mewa::fileBaseName( const std::string_view& fnam)
 	char* bn = ::basename( buf);
 	std::size_t ee = std::strchr( bn, '\0')-bn;
 	for (; ee > 0 && bn[ ee] != '.'; --ee){}
-	if (ee != 0) nn = ee;
-	return std::string( bn, nn);
+	return ee != 0 ? std::string( bn, ee) : std::string( bn);
 }
 
 
-- 
2.43.0


From 62dd9342f5ea57dd90eaf6b562a9c5c4414f054a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:33 +0000
Subject: [PATCH 15/77] fix: writeFile reports errors detected when closing the
 file and the error code of the failed write

---
 src/fileio.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/fileio.cpp b/src/fileio.cpp
index 7c9ab3f..4021990 100644
--- a/src/fileio.cpp
+++ b/src/fileio.cpp
@@ -14,6 +14,7 @@
 #include "error.hpp"
 #include <cstdio>
 #include <cstring>
+#include <cerrno>
 #include <string>
 #include <libgen.h>
 
@@ -25,10 +26,15 @@ void mewa::writeFile( const char* filename, const std::string& content)
 	if (!ff) throw Error( (Error::Code)errno, filename);
 	if (content.size() != std::fwrite( content.c_str(), 1, content.size(), ff))
 	{
+		int ec = errno;
 		std::fclose( ff);
-		throw Error( (Error::Code)std::ferror( ff), filename);
+		throw Error( (Error::Code)(ec ? ec : EIO), filename);
+	}
+	if (0 != std::fclose( ff)) //... buffered output may be written here
+	{
+		int ec = errno;
+		throw Error( (Error::Code)(ec ? ec : EIO), filename);
 	}
-	std::fclose( ff);
 }
 
 void mewa::writeFile( const std::string& filename, const std::string& content)
-- 
2.43.0


From 507d187c4f5da9cb2bc21e5cd61815faba70fd51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:33 +0000
Subject: [PATCH 16/77] fix: mewa does not exit with success if writing to
 stdout failed

---
 src/mewa.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mewa.cpp b/src/mewa.cpp
index 687aa01..0a2184e 100644
--- a/src/mewa.cpp
+++ b/src/mewa.cpp
@@ -24,6 +24,7 @@
 #include <iostream>
 #include <sstream>
 #include <cstring>
+#include <cerrno>
 #include <string>
 #include <vector>
 #include <map>
@@ -457,6 +458,11 @@ int main( int argc, const char* argv[] )
 				}
 				break;
 		}
+		if (!std::cout.flush())
+		{
+			int ec = errno;
+			throw Error( (Error::Code)(ec ? ec : EIO), "stdout");
+		}
 		return 0;
 	}
 	catch (const mewa::Error& err)
-- 
2.43.0


From 88d5319402931defe15a91a13d537947046c3d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:33 +0000
Subject: [PATCH 17/77] fix: compiler:run writes all of the output to stdout
 and stderr and reports write errors

---
 src/lualib_mewa.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/lualib_mewa.cpp b/src/lualib_mewa.cpp
index a6e01f1..bdcb4a1 100644
--- a/src/lualib_mewa.cpp
+++ b/src/lualib_mewa.cpp
@@ -25,6 +25,7 @@
 #include "strings.hpp"
 #include <memory>
 #include <cstdlib>
+#include <cerrno>
 #include <cstring>
 #include <cstdio>
 #include <cmath>
@@ -408,6 +409,16 @@ static void copyFileNameToBuffer( char* buf, std::size_t bufsize, std::string_vi
 	buf[ str.size()] = 0;
 }
 
+static void printOutput( FILE* fh, const char* name, const std::string& output)
+{
+	errno = 0;
+	if (output.size() != std::fwrite( output.data(), 1, output.size(), fh) || 0 != std::fflush( fh))
+	{
+		int ec = errno;
+		throw mewa::Error( (mewa::Error::Code)(ec ? ec : EIO), name);
+	}
+}
+
 /// \brief Restore the global functions redirected by compiler:run, saved on the Lua stack starting with globals_index+1
 static void restorePrintFunctions( lua_State* ls, int globals_index)
 {
@@ -490,11 +501,12 @@ static int mewa_compiler_run( lua_State* ls)
 			std::string output = mewa::template_format( targetptr, '{', '}', cp->outputSectionMap);
 			if (outputfn == "stderr")
 			{
-				std::fputs( output.c_str(), ::stderr);
+				printOutput( ::stderr, "stderr", output);
 			}
 			else if (outputfn == "stdout")
 			{
-				std::puts( output.c_str());
+				output.push_back( '\n');
+				printOutput( ::stdout, "stdout", output);
 			}
 			else
 			{
-- 
2.43.0


From 5f823b97a22dacbd4bfdb048e2fefa7fa3a94af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:33 +0000
Subject: [PATCH 18/77] fix: the file passed as value of option -t,--template
 is read and long options accept the value as next argument as documented

---
 src/mewa.cpp | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/mewa.cpp b/src/mewa.cpp
index 0a2184e..2051180 100644
--- a/src/mewa.cpp
+++ b/src/mewa.cpp
@@ -83,6 +83,17 @@ static void printWarning( const std::string& filename, const Error& error)
 	std::cerr << error.what() << std::endl;
 }
 
+/// \brief Check if an argument is an option with a value and get the offset of the value in it
+/// \return the offset of the value or of the end of the string if the value is passed as next argument, 0 if the option does not match
+static int optionValueOffset( const char* arg, const char* shortopt, const char* longopt)
+{
+	int shortlen = std::strlen( shortopt);
+	int longlen = std::strlen( longopt);
+	if (0==std::strncmp( arg, shortopt, shortlen)) return shortlen;
+	if (0!=std::strncmp( arg, longopt, longlen)) return 0;
+	return arg[ longlen] == '=' ? (longlen+1) : arg[ longlen] == 0 ? longlen : 0;
+}
+
 static const std::string g_defaultTemplate{R"(#!%luabin%
 
 typesystem = require( "%typesystem%")
@@ -220,7 +231,7 @@ int main( int argc, const char* argv[] )
 				}
 				cmd = GenerateLanguageDescriptionForLua;
 			}
-			else if (0==std::memcmp( argv[argi], "-b", 2) || 0==std::memcmp( argv[argi], "--luabin=", 9))
+			else if (int optofs = optionValueOffset( argv[argi], "-b", "--luabin"))
 			{
 				if (cmd == GenerateTypesystemTemplateForLua)
 				{
@@ -228,7 +239,6 @@ int main( int argc, const char* argv[] )
 					printUsage();
 					return ERRCODE_INVALID_ARGUMENTS;
 				}
-				int optofs = (argv[argi][1] == '-') ? 9:2;
 				if (argv[argi][ optofs])
 				{
 					luabin = argv[argi]+optofs;
@@ -245,9 +255,8 @@ int main( int argc, const char* argv[] )
 					luabin = argv[argi];
 				}
 			}
-			else if (0==std::memcmp( argv[argi], "-o", 2) || 0==std::memcmp( argv[argi], "--output=", 9))
+			else if (int optofs = optionValueOffset( argv[argi], "-o", "--output"))
 			{
-				int optofs = (argv[argi][1] == '-') ? 9:2;
 				if (argv[argi][ optofs])
 				{
 					outputFilename = argv[argi]+optofs;
@@ -264,7 +273,7 @@ int main( int argc, const char* argv[] )
 					outputFilename = argv[argi];
 				}
 			}
-			else if (0==std::memcmp( argv[argi], "-d", 2) || 0==std::memcmp( argv[argi], "--dbgout=", 9))
+			else if (int optofs = optionValueOffset( argv[argi], "-d", "--dbgout"))
 			{
 				if (cmd == GenerateTypesystemTemplateForLua)
 				{
@@ -272,7 +281,6 @@ int main( int argc, const char* argv[] )
 					printUsage();
 					return ERRCODE_INVALID_ARGUMENTS;
 				}
-				int optofs = (argv[argi][1] == '-') ? 9:2;
 				if (argv[argi][ optofs])
 				{
 					debugFilename = argv[argi]+optofs;
@@ -291,7 +299,7 @@ int main( int argc, const char* argv[] )
 					verbose = true;
 				}
 			}
-			else if (0==std::memcmp( argv[argi], "-t", 2) || 0==std::memcmp( argv[argi], "--template=", 11))
+			else if (int optofs = optionValueOffset( argv[argi], "-t", "--template"))
 			{
 				if (cmd == GenerateTypesystemTemplateForLua)
 				{
@@ -299,10 +307,9 @@ int main( int argc, const char* argv[] )
 					printUsage();
 					return ERRCODE_INVALID_ARGUMENTS;
 				}
-				int optofs = (argv[argi][1] == '-') ? 11:2;
 				if (argv[argi][ optofs])
 				{
-					templat = argv[argi]+optofs;
+					templat = readFile( argv[argi]+optofs);
 				}
 				else
 				{
-- 
2.43.0


From 36863009ebdf89e520ea115ea4af87ced95f5ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:35 +0000
Subject: [PATCH 19/77] fix: mewa.tostring prints tables with gaps, special
 strings, keys and numbers correctly

---
 src/lua_serialize.cpp | 96 +++++++++++++++++++++++++------------------
 1 file changed, 57 insertions(+), 39 deletions(-)

diff --git a/src/lua_serialize.cpp b/src/lua_serialize.cpp
index bf9e705..5c14fcc 100644
--- a/src/lua_serialize.cpp
+++ b/src/lua_serialize.cpp
@@ -13,6 +13,10 @@
 #include <vector>
 #include <iostream>
 #include <sstream>
+#include <string>
+#include <string_view>
+#include <cstdio>
+#include <cstdlib>
 #include <variant>
 #include <limits>
 #include <cmath>
@@ -31,27 +35,35 @@ using namespace mewa;
 
 static void serializeLuaValue( std::ostream& out, lua_State* ls, int li, const std::string& indent, int depth);
 
-static void serializeLuaNumber( std::ostream& out, lua_State* ls, int li)
+static void serializeNumber( std::ostream& out, double num)
 {
-	double num;
-	num = lua_tonumber( ls, li);
-	if (num - std::floor( num) < std::numeric_limits<double>::epsilon()*4)
+	char buf[ 64];
+	double intnum = std::floor( num + std::numeric_limits<double>::epsilon()*4);
+	if (num - intnum < std::numeric_limits<double>::epsilon()*4 && std::fabs( intnum) < 9007199254740992.0/*2^53*/)
 	{
-		out << lua_tointeger( ls, li);
+		std::snprintf( buf, sizeof(buf), "%.0f", intnum == 0.0 ? 0.0 : intnum);
 	}
 	else
 	{
-		out << num;
+		// ... use the smallest precision that allows to reconstruct the number
+		for (int precision : {6,14,17})
+		{
+			std::snprintf( buf, sizeof(buf), "%.*g", precision, num);
+			if (std::strtod( buf, nullptr) == num) break;
+		}
 	}
+	out << buf;
 }
 
+static std::string encodeCString( const std::string_view& str);
+
 struct LuaTableKey
 {
 	enum Type {NumberType,StringType};
 	Type type;
-	std::variant<double,const char*> value;
+	std::variant<double,std::string_view> value;
 
-	LuaTableKey( const char* value_)
+	LuaTableKey( const std::string_view& value_)
 		:type(StringType),value(value_){}
 	LuaTableKey( const double value_)
 		:type(NumberType),value(value_){}
@@ -65,7 +77,7 @@ struct LuaTableKey
 			switch (type)
 			{
 				case NumberType: return std::get<double>(value) < std::get<double>(o.value);
-				case StringType: return std::strcmp( std::get<const char*>(value), std::get<const char*>(o.value)) < 0;
+				case StringType: return std::get<std::string_view>(value) < std::get<std::string_view>(o.value);
 			}
 		}
 		return (int)type < (int)o.type;
@@ -79,7 +91,7 @@ struct LuaTableKey
 				lua_pushnumber( ls, std::get<double>(value));
 				break;
 			case StringType:
-				lua_pushstring( ls, std::get<const char*>(value));
+				lua_pushlstring( ls, std::get<std::string_view>(value).data(), std::get<std::string_view>(value).size());
 				break;
 		}
 	}
@@ -89,26 +101,18 @@ struct LuaTableKey
 		switch (type)
 		{
 			case NumberType:
-			{
-				double num = std::get<double>(value);
-				if (num - std::floor( num) < std::numeric_limits<double>::epsilon()*4)
-				{
-					out << "[" << (int)(num + std::numeric_limits<double>::epsilon()*4) << "]";
-				}
-				else
-				{
-					out << "[" << std::get<double>(value) << "]";
-				}
+				out << "[";
+				serializeNumber( out, std::get<double>(value));
+				out << "]";
 				break;
-			}
 			case StringType:
 				if (isIdentifier())
 				{
-					out << std::get<const char*>(value);
+					out << std::get<std::string_view>(value);
 				}
 				else
 				{
-					out << "[\"" << std::get<const char*>(value) << "\"]";
+					out << "[\"" << encodeCString( std::get<std::string_view>(value)) << "\"]";
 				}
 				break;
 		}
@@ -116,10 +120,20 @@ struct LuaTableKey
 
 	bool isIdentifier() const noexcept
 	{
-		char const* si = std::get<const char*>(value);
-		if (*si >= '0' && *si <= '9') return false;
-		for (; *si && (((*si|32) >= 'a' && (*si|32) <= 'z') || (*si >= '0' && *si <= '9') || *si == '_'); ++si){}
-		return !*si;
+		static const char* keywords[] = {
+			"and","break","do","else","elseif","end","false","for","function","goto","if","in","local",
+			"nil","not","or","repeat","return","then","true","until","while",nullptr};
+		std::string_view str = std::get<std::string_view>(value);
+		if (str.empty() || (str[0] >= '0' && str[0] <= '9')) return false;
+		for (char ch : str)
+		{
+			if (!(((ch|32) >= 'a' && (ch|32) <= 'z') || (ch >= '0' && ch <= '9') || ch == '_')) return false;
+		}
+		for (char const** ki = keywords; *ki; ++ki)
+		{
+			if (str == *ki) return false;
+		}
+		return true;
 	}
 };
 
@@ -137,8 +151,9 @@ static void serializeLuaTable( std::ostream& out, lua_State* ls, int li, const s
 	{
 		if (lua_type( ls, -2) == LUA_TSTRING)
 		{
-			const char* sptr = lua_tostring( ls, -2);
-			keyvec.push_back( sptr);
+			std::size_t slen = 0;
+			const char* sptr = lua_tolstring( ls, -2, &slen);
+			keyvec.push_back( std::string_view( sptr, slen));
 			hasNameKeys = true;
 		}
 		else if (lua_type( ls, -2) == LUA_TNUMBER)
@@ -161,8 +176,8 @@ static void serializeLuaTable( std::ostream& out, lua_State* ls, int li, const s
 			hasNameKeys = true;
 		}
 		else if (rowcnt
-			&& (int)(std::get<double>(keyvec[0].value) + std::numeric_limits<double>::epsilon()*4) != 1
-			&& (int)(std::get<double>(keyvec.back().value) + std::numeric_limits<double>::epsilon()*4) != rowcnt)
+			&& ((int)(std::get<double>(keyvec[0].value) + std::numeric_limits<double>::epsilon()*4) != 1
+				|| (int)(std::get<double>(keyvec.back().value) + std::numeric_limits<double>::epsilon()*4) != rowcnt))
 		{
 			hasNameKeys = true;
 		}
@@ -202,14 +217,13 @@ static void serializeLuaTable( std::ostream& out, lua_State* ls, int li, const s
 	lua_pop( ls, 1); // ... pop table and keyvec
 }
 
-static std::string encodeCString( const char* str)
+static std::string encodeCString( const std::string_view& str)
 {
 	const char* HEX = "0123456789ABCDEF";
 	std::string rt;
-	char const* si = str;
-	for (; *si; ++si)
+	for (char si : str)
 	{
-		unsigned char ch = (unsigned char)*si;
+		unsigned char ch = (unsigned char)si;
 		if (ch < 32)
 		{
 			if (ch == '\t')
@@ -235,9 +249,9 @@ static std::string encodeCString( const char* str)
 				rt.append( buf);
 			}
 		}
-		else if (ch == '\\')
+		else if (ch == '\\' || ch == '"')
 		{
-			rt.push_back( ch);
+			rt.push_back( '\\');
 			rt.push_back( ch);
 		}
 		else
@@ -257,14 +271,18 @@ static void serializeLuaValue( std::ostream& out, lua_State* ls, int li, const s
 			out << "nil";
 			break;
 		case LUA_TNUMBER:
-			serializeLuaNumber( out, ls, li);
+			serializeNumber( out, lua_tonumber( ls, li));
 			break;
 		case LUA_TBOOLEAN:
 			out << (lua_toboolean( ls, li) ? "true" : "false");
 			break;
 		case LUA_TSTRING:
-			out << '"' << encodeCString( lua_tostring( ls, li)) << '"';
+		{
+			std::size_t len = 0;
+			const char* str = lua_tolstring( ls, li, &len);
+			out << '"' << encodeCString( std::string_view( str, len)) << '"';
 			break;
+		}
 		case LUA_TTABLE:
 			if (depth)
 			{
-- 
2.43.0


From a5d15af823a44619daff8f2ae264d752a166f007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:35 +0000
Subject: [PATCH 20/77] fix: mewa.tostring of deeply nested tables does not
 overflow the Lua stack

---
 src/lua_serialize.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lua_serialize.cpp b/src/lua_serialize.cpp
index 5c14fcc..f8bf7df 100644
--- a/src/lua_serialize.cpp
+++ b/src/lua_serialize.cpp
@@ -10,6 +10,7 @@
 /// \brief Serialization of lua data structures
 /// \file "lua_serialize.hpp"
 #include "lua_serialize.hpp"
+#include "lua_parameter.hpp"
 #include <vector>
 #include <iostream>
 #include <sstream>
@@ -144,6 +145,8 @@ static void serializeLuaTable( std::ostream& out, lua_State* ls, int li, const s
 	bool hasNameKeys = false;
 	int rowcnt = 0;
 
+	mewa::lua::checkStack( "mewa.tostring", ls, 8);
+
 	// Get keys in ascending order:
 	lua_pushvalue( ls, li);
 	lua_pushnil( ls);
-- 
2.43.0


From 8cea54902bcdbda7e01eb761b86f138bfe20ccdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:35 +0000
Subject: [PATCH 21/77] fix: llvm_float_tohex returns the nearest 32 bit
 floating point number for all numbers

---
 src/lualib_mewa.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/lualib_mewa.cpp b/src/lualib_mewa.cpp
index bdcb4a1..1842b38 100644
--- a/src/lualib_mewa.cpp
+++ b/src/lualib_mewa.cpp
@@ -281,13 +281,9 @@ static int mewa_llvm_float_tohex( lua_State* ls)
 		mewa::lua::checkNofArguments( functionName, ls, 1/*minNofArgs*/, 1/*maxNofArgs*/);
 		double num = mewa::lua::getArgumentAsFloatingPoint( functionName, ls, 1);
 		char buf[ 64];
+		double fnum = (float)num; //... LLVM IR expects floats as hexadecimal representation of the double with the same value
 		int64_t encnum;
-		std::memmove( &encnum, &num, sizeof( encnum));
-		encnum >>= 28;
-		bool doinc = (encnum & 1);
-		if (doinc) ++encnum;
-		encnum = (encnum >> 1);
-		encnum = (encnum << 29);
+		std::memmove( &encnum, &fnum, sizeof( encnum));
 		const char* fmt64 = sizeof(long) == 8 ? "%lx" : "%llx";
 		std::snprintf( buf, sizeof(buf), fmt64, encnum);
 		for (char* bi = buf; *bi; ++bi) if (*bi >= 'a' && *bi <= 'z') {*bi -= 32;}
-- 
2.43.0


From 357fcb1806070a74b0c0cbd3a28864ca54073f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:20 +0000
Subject: [PATCH 22/77] fix: typedb:type_tree lists all types with the same
 name but different parameters

---
 src/typedb.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/typedb.cpp b/src/typedb.cpp
index 5be06a4..aebba5a 100644
--- a/src/typedb.cpp
+++ b/src/typedb.cpp
@@ -719,19 +719,29 @@ TypeDatabase::TypeDefinitionTree TypeDatabase::getTypeDefinitionTree() const
 {
 	struct TranslateItem
 	{
-		TranslateItem(){}
+		std::vector<TypeRecord> const& typerecMap;
+
+		explicit TranslateItem( std::vector<TypeRecord> const& typerecMap_) :typerecMap(typerecMap_){}
 		ScopeHierarchyTreeNode<TypeDefinitionList> operator()( const TypeTable::TreeNode& node)
 		{
 			ScopeHierarchyTreeNode<TypeDefinitionList> rt( node.scope, {});
 			for (auto const& elem : node.value)
 			{
 				rt.value.push_back( elem.second);
+				TypeRecord const& head = typerecMap[ elem.second-1];
+				if (head.inv == elem.first && head.scope == node.scope/*not a synonym*/)
+				{
+					for (int tp = head.next; tp; tp = typerecMap[ tp-1].next)
+					{
+						rt.value.push_back( tp); //... type with the same name but different parameters
+					}
+				}
 			}
 			return rt;
 		}
 	};
 	Tree<TypeTable::TreeNode> tree = m_typeTable->getTree();
-	TranslateItem translateItem;
+	TranslateItem translateItem( m_typerecMap);
 	return tree.translate< ScopeHierarchyTreeNode<TypeDefinitionList> >( translateItem);
 }
 
-- 
2.43.0


From 317d0aea651685816da940de828957d63facf2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:20 +0000
Subject: [PATCH 23/77] fix: failed allocation of a memory block is reported

---
 src/typedb.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/typedb.hpp b/src/typedb.hpp
index 9564244..d7382a5 100644
--- a/src/typedb.hpp
+++ b/src/typedb.hpp
@@ -433,7 +433,7 @@ private:
 		{
 			size = size_;
 			ptr = std::aligned_alloc( 8/*alignment*/, size);
-			if (!ptr) std::bad_alloc();
+			if (!ptr) throw std::bad_alloc();
 		}
 		~MemoryBlock()
 		{
-- 
2.43.0


From a8d21a226d45ac14c4cf40076edfc56a9b0d385f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:50 +0000
Subject: [PATCH 24/77] fix: an empty scope does not hide or conflict with the
 scopes it touches

---
 src/scope.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/scope.hpp b/src/scope.hpp
index 5530481..4045b86 100644
--- a/src/scope.hpp
+++ b/src/scope.hpp
@@ -83,6 +83,12 @@ public:
 	Step start() const noexcept	{return m_start;}
 	Step end() const noexcept	{return m_end;}
 
+	/// \brief Scope that has to be covered by the next enclosing scope (an empty scope hides nothing, the step before its end is resolved by the next enclosing)
+	Scope upLinkScope() const noexcept
+	{
+		return m_start < m_end || m_start == 0 ? *this : Scope( m_start-1, m_end);
+	}
+
 public:
 	Step m_start;
 	Step m_end;
@@ -429,7 +435,7 @@ public:
 	void set( const Scope scope, const VALTYPE value)
 	{
 		auto rightnode = m_map.upper_bound( scope.end());
-		int uplink = (rightnode == m_map.end()) ? -1 : m_invtree.rightNeighborUpLink( rightnode->second, scope);
+		int uplink = (rightnode == m_map.end()) ? -1 : m_invtree.rightNeighborUpLink( rightnode->second, scope.upLinkScope());
 		int newindex = -1;
 
 		auto ins = m_map.insert( {scope.end(), m_invtree.nextIndex()});
@@ -609,7 +615,7 @@ public:
 		auto rightnode = m_map.upper_bound( sk);
 		int uplink = (rightnode == m_map.end() || rightnode->first.key() != key)
 			? -1
-			: m_invtree.rightNeighborUpLink( rightnode->second, scope);
+			: m_invtree.rightNeighborUpLink( rightnode->second, scope.upLinkScope());
 		int newindex = -1;
 
 		auto ins = m_map.insert( {sk, m_invtree.nextIndex()} );
@@ -645,7 +651,7 @@ public:
 		auto rightnode = m_map.upper_bound( sk);
 		int uplink = (rightnode == m_map.end() || rightnode->first.key() != key)
 			? -1
-			: m_invtree.rightNeighborUpLink( rightnode->second, scope);
+			: m_invtree.rightNeighborUpLink( rightnode->second, scope.upLinkScope());
 		int newindex = -1;
 
 		auto ins = m_map.insert( {sk, m_invtree.nextIndex()});
-- 
2.43.0


From e11148e8e38c99d66b31313d59edb768abbc664d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:32 +0000
Subject: [PATCH 25/77] fix: tokens starting with an optional part, an
 alternative, any character or a character set ending with '-' are recognized

---
 src/lexer.cpp | 222 ++++++++++++++++++++++++++++++--------------------
 1 file changed, 135 insertions(+), 87 deletions(-)

diff --git a/src/lexer.cpp b/src/lexer.cpp
index dbb09e7..6a01ccd 100644
--- a/src/lexer.cpp
+++ b/src/lexer.cpp
@@ -63,139 +63,187 @@ static char parseFirstChar( char const*& si, bool allowNonAscii)
 	}
 }
 
-static bool extractFirstCharacters( std::string& res, char const*& si, char eb)
+static void addAllFirstChars( std::string& res)
 {
-	bool empty = true;
-	while (*si && *si != eb)
+	for (int ii=33; ii<256; ++ii) res.push_back( (char)(unsigned char)ii);
+}
+
+/// \brief Parse a character set after its opening bracket and collect the characters it matches
+static void extractFirstCharacters( std::string& res, char const*& si)
+{
+	std::string charset;
+	bool hasClasses = false;
+	bool inverse = (*si == '^');
+	if (inverse) ++si;
+
+	while (*si && *si != ']')
 	{
-		if (*si == '-' && !empty)
+		if (*si == '[' && (si[1] == ':' || si[1] == '.' || si[1] == '='))
 		{
-			++si;
-			char from = res[ res.size()-1];
-			if (!*si || *si == eb)
-			{
-				res.push_back( from);
-				break;
-			}
-			else
-			{
-				char to = parseFirstChar( si, false/*!allowNonAscii*/);
-				if (to < from) std::swap( to, from);
-				for (++from; from <= to; ++from)
-				{
-					res.push_back( from);
-				}
-			}
+			const char end[3] = {si[1],']',0};
+			si = std::strstr( si+2, end);
+			if (!si) throw Error( Error::SyntaxErrorInLexer);
+			si += 2;
+			hasClasses = true;
 		}
 		else
 		{
-			res.push_back( parseFirstChar( si, false/*!allowNonAscii*/));
+			int from = (unsigned char)parseFirstChar( si, false/*!allowNonAscii*/);
+			int to = from;
+			if (*si == '-' && si[1] && si[1] != ']')
+			{
+				++si;
+				to = (unsigned char)parseFirstChar( si, false/*!allowNonAscii*/);
+				if (to < from) std::swap( to, from);
+			}
+			for (; from <= to; ++from) charset.push_back( from);
 		}
-		empty = false;
 	}
 	if (!*si) throw Error( Error::SyntaxErrorInLexer);
 	++si;
-	return !empty;
+	if (hasClasses)
+	{
+		addAllFirstChars( res);
+	}
+	else if (inverse)
+	{
+		for (int ii=33; ii<256; ++ii) if (charset.find( (char)(unsigned char)ii) == std::string::npos) {res.push_back( (char)(unsigned char)ii);}
+	}
+	else
+	{
+		res.append( charset);
+	}
 }
 
-static bool skipBrackets( char const*& si, char eb)
+/// \brief Skip one element (character, character set or group) of a pattern without its multiplicator
+static void skipElement( char const*& si)
 {
-	char sb = *si++;
-	int cnt = 1;
-
-	bool empty = true;
-	for (; *si && cnt > 0; ++si)
+	if (*si == '\\' && si[1])
 	{
-		if (*si == eb)
-		{
-			--cnt;
-		}
-		else if (*si == sb)
-		{
-			++cnt;
-		}
-		else
+		si += 2;
+	}
+	else if (*si == '[')
+	{
+		for (++si; *si && *si != ']'; ++si)
 		{
-			empty = false;
+			if (*si == '\\' && si[1])
+			{
+				++si;
+			}
+			else if (*si == '[' && (si[1] == ':' || si[1] == '.' || si[1] == '='))
+			{
+				const char end[3] = {si[1],']',0};
+				si = std::strstr( si+2, end);
+				if (!si) throw Error( Error::SyntaxErrorInLexer);
+				++si;
+			}
 		}
+		if (!*si) throw Error( Error::SyntaxErrorInLexer);
+		++si;
+	}
+	else if (*si == '(')
+	{
+		++si;
+		while (*si && *si != ')') skipElement( si);
+		if (!*si) throw Error( Error::SyntaxErrorInLexer);
+		++si;
+	}
+	else
+	{
+		++si;
 	}
-	if (!*si && cnt != 0) throw Error( Error::SyntaxErrorInLexer);
-	return !empty;
 }
 
+/// \brief Skip the multiplicators following an element
+/// \return true, if the element can be omitted
 static bool skipMultiplicator( char const*& si)
 {
-	if (*si)
+	bool rt = false;
+	for (;;)
 	{
-		if (*si == '*')
+		if (*si == '*' || *si == '?')
+		{
+			rt = true;
+			++si;
+		}
+		else if (*si == '+')
+		{
+			++si;
+		}
+		else if (*si == '{')
 		{
+			rt |= (std::atoi( si+1) == 0);
+			while (*si && *si != '}') ++si;
+			if (!*si) throw Error( Error::SyntaxErrorInLexer);
 			++si;
-			return false;
 		}
-		if (*si == '{')
+		else
 		{
-			bool empty = (si[1] == '0' && si[2] == ',');
-			(void)skipBrackets( si, '}');
-			return !empty;
+			return rt;
 		}
 	}
-	return true;
 }
 
-static std::string inverseCharset( const std::string& charset)
+/// \brief Collect the characters a match of a pattern can start with and move 'si' to the end of the pattern or to the bracket closing it
+/// \return true, if the pattern can match without consuming any character
+static bool extractFirstCharactersOfPattern( std::string& res, char const*& si)
 {
-	std::string rt;
-	std::bitset<256> cset;
-	for (char ch : charset) cset.set( ch);
-	for (int ii=33; ii<256; ++ii) if (!cset.test(ii)) {rt.push_back(ii);}
-	return rt;
-}
-
-std::string LexemDef::activation( const std::string& source_)
-{
-	std::string rt;
+	bool emptyPattern = false;
 	bool empty = true;
-	char const* si = source_.c_str();
-	if (*si == '^') ++si;
-	while (empty)
+	for (; *si && *si != ')';)
 	{
-		if (*si == '\0')
+		if (*si == '|')
 		{
-			return rt;
+			++si;
+			emptyPattern |= empty;
+			empty = true;
+		}
+		else if (!empty)
+		{
+			skipElement( si);
+		}
+		else if (*si == '^' || *si == '$')
+		{
+			++si;
 		}
 		else if (*si == '[')
 		{
 			++si;
-			bool inverse = false;
-			if (*si == '^')
-			{
-				inverse = true;
-				++si;
-			}
-			bool hasCharacters = extractFirstCharacters( rt, si, ']');
-			bool potentiallyIgnored = (skipMultiplicator( si) == false);
-			empty = !hasCharacters || potentiallyIgnored;
-			if (inverse) rt = inverseCharset( rt);
+			extractFirstCharacters( res, si);
+			empty = skipMultiplicator( si);
+		}
+		else if (*si == '(' && si[1] == '?' && (si[2] == '=' || si[2] == '!'))
+		{
+			skipElement( si); //... condition on the following characters
 		}
 		else if (*si == '(')
 		{
-			for (;;)
-			{
-				char const* start = si+1;
-				bool hasCharacters = skipBrackets( si, ')');
-				bool potentiallyIgnored = (skipMultiplicator( si) == false);
-				empty = !hasCharacters || potentiallyIgnored;
-				rt.append( activation( std::string( start, si-start-1)));
-				if (*si != '|') break;
-				++si;
-			}
+			si += (si[1] == '?' && si[2] == ':') ? 3 : 1;
+			empty = extractFirstCharactersOfPattern( res, si);
+			if (!*si) throw Error( Error::SyntaxErrorInLexer);
+			++si;
+			empty |= skipMultiplicator( si);
+		}
+		else if (*si == '.')
+		{
+			++si;
+			addAllFirstChars( res);
+			empty = skipMultiplicator( si);
 		}
 		else
 		{
-			rt.push_back( parseFirstChar( si, true/*allowNonAscii*/));
-			empty = false;
+			res.push_back( parseFirstChar( si, true/*allowNonAscii*/));
+			empty = skipMultiplicator( si);
 		}
 	}
+	return emptyPattern || empty;
+}
+
+std::string LexemDef::activation( const std::string& source_)
+{
+	std::string rt;
+	char const* si = source_.c_str();
+	(void)extractFirstCharactersOfPattern( rt, si);
 	return rt;
 }
 
-- 
2.43.0


From dc2bfbca1d7c79cae4f14eae58d09b2eb47b8df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:04 +0000
Subject: [PATCH 26/77] fix: a keyword that does not match is not emitted as
 token without value

---
 src/lexer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer.cpp b/src/lexer.cpp
index 6a01ccd..122668f 100644
--- a/src/lexer.cpp
+++ b/src/lexer.cpp
@@ -640,7 +640,7 @@ Lexem Lexer::next( Scanner& scanner) const
 			{
 				if (idx >= (int)m_defar.size()) throw Error( Error::ArrayBoundReadInLexer);
 				auto mm = m_defar[ idx].match( start, scanner.restsize());
-				if (maxlen <= mm.second && (maxlen < mm.second || m_defar[ idx].keyword())) //... keywords preferred if length is the same
+				if (mm.second > 0 && maxlen <= mm.second && (maxlen < mm.second || m_defar[ idx].keyword())) //... keywords preferred if length is the same
 				{
 					maxlen = mm.second;
 					matchstart = mm.first.data();
-- 
2.43.0


From 31df372eab87e7218491a73c70dea4a9707d6abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:04 +0000
Subject: [PATCH 27/77] fix: keywords and operators with the character '$' are
 recognized

---
 src/lexer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer.cpp b/src/lexer.cpp
index 122668f..8017566 100644
--- a/src/lexer.cpp
+++ b/src/lexer.cpp
@@ -16,7 +16,7 @@
 
 using namespace mewa;
 
-#define REGEX_ESCAPE_CHARS "#{}[]()*+?.-\\|&^"
+#define REGEX_ESCAPE_CHARS "#{}[]()*+?.-\\|&^$"
 
 static std::string_view parseChar( char const*& si)
 {
-- 
2.43.0


From cf0258064c022a4d8e0cd9e01d7adc3f5f7b089c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:04 +0000
Subject: [PATCH 28/77] fix: ignored lexems are skipped

---
 src/lexer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lexer.cpp b/src/lexer.cpp
index 8017566..591237f 100644
--- a/src/lexer.cpp
+++ b/src/lexer.cpp
@@ -673,6 +673,10 @@ Lexem Lexer::next( Scanner& scanner) const
 				scanner.next( maxlen);
 				return Lexem( m_defar[ matchidx].name(), m_defar[ matchidx].id(), std::string_view( matchstart, matchsize), line);
 			}
+			else
+			{
+				scanner.next( maxlen); //... ignored lexem skipped, fetch next lexem
+			}
 		}
 	}
 }
-- 
2.43.0


From de007deb1ce4859784865ce36950a430f9378ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:04 +0000
Subject: [PATCH 29/77] fix: indentation is closed at the end of a source
 ending with a comment without end of line

---
 src/lexer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer.cpp b/src/lexer.cpp
index 591237f..45ca59b 100644
--- a/src/lexer.cpp
+++ b/src/lexer.cpp
@@ -618,7 +618,7 @@ Lexem Lexer::next( Scanner& scanner) const
 				{
 					if (!scanner.scan( "\n"))
 					{
-						return Lexem( scanner.line()); //... no EOLN then return EOF
+						scanner.next( scanner.restsize()); //... no EOLN then continue with EOF
 					}
 					break; //... comment skipped, fetch next lexem
 				}
-- 
2.43.0


From c7251d17ddf579874ed42bc2ed3f2b4070b9f4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:26 +0000
Subject: [PATCH 30/77] fix: token ids of the generated module differ from
 those in its tables when lexer statements follow productions with keywords

---
 src/automaton_parser.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/automaton_parser.cpp b/src/automaton_parser.cpp
index da02090..4e24dc3 100644
--- a/src/automaton_parser.cpp
+++ b/src/automaton_parser.cpp
@@ -197,6 +197,7 @@ LanguageDef mewa::parseLanguageDef( const std::string& source)
 		std::multimap<std::string_view, std::size_t> prodmap;
 		std::map<std::string_view, int> nonTerminalIdMap;
 		std::set<std::string_view> usedSet;
+		std::vector<std::string_view> keywords;
 		std::map<Automaton::Call, int> callmap;
 		Priority priority;
 		Automaton::Call::ArgumentType call_argtype = Automaton::Call::NoArg;
@@ -425,7 +426,7 @@ LanguageDef mewa::parseLanguageDef( const std::string& source)
 					}
 					else if (state == ParseProductionElement)
 					{
-						if (!rt.lexer.lexemId( lexem.value())) rt.lexer.defineLexem( lexem.value());
+						keywords.push_back( lexem.value());
 						rt.prodlist.back().right.push_back( ProductionNodeDef( lexem.value(), false/*not a symbol, raw string implicitly defined*/));
 					}
 					else if (state == ParseCallArg)
@@ -617,6 +618,12 @@ LanguageDef mewa::parseLanguageDef( const std::string& source)
 		}
 		if (state != Init) throw Error( Error::UnexpectedEofInGrammarDef);
 
+		// ... keywords get their token ids after all named lexems, independent of the order of declarations,
+		//	because this is how the lexer gets defined when loading the generated automaton:
+		for (auto const& keyword : keywords)
+		{
+			if (!rt.lexer.lexemId( keyword)) rt.lexer.defineLexem( keyword);
+		}
 		// [2] Label grammar production elements:
 		for (auto& prod : rt.prodlist)
 		{
-- 
2.43.0


From e37bcc0f03aaafbf5a8028f163f1b80a846920c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:26 +0000
Subject: [PATCH 31/77] fix: order of declaration of ignored patterns and
 tokens lost in the generated module

---
 src/automaton_tostring.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/automaton_tostring.cpp b/src/automaton_tostring.cpp
index 9ee3cc7..009688d 100644
--- a/src/automaton_tostring.cpp
+++ b/src/automaton_tostring.cpp
@@ -69,7 +69,12 @@ static void printLexer( std::ostream& outstream, const char* tablename, const Le
 		int di = 0;
 		for (auto def : definitions)
 		{
-			defclassmap[ def.typeName()].push_back( di++);
+			// ... ignored patterns are printed as tokens without name, because the first declaration is chosen
+			//	between patterns with a match of the same length, so the order has to be preserved:
+			const char* defclass = def.type() == Lexer::Definition::IgnoreLexem
+						? Lexer::Definition::typeName( Lexer::Definition::NamedPatternLexem)
+						: def.typeName();
+			defclassmap[ defclass].push_back( di++);
 		}
 		outstream << "\t" << tablename << " = {";
 
@@ -108,8 +113,9 @@ static void printLexer( std::ostream& outstream, const char* tablename, const Le
 						printString( outstream, def.name());
 						break;
 					case Lexer::Definition::IgnoreLexem:
-						outstream << sepc;
+						outstream << sepc << shft << "{ \"\", ";
 						printString( outstream, def.ignore());
+						outstream << " }";
 						break;
 					case Lexer::Definition::EolnComment:
 						outstream << sepc;
-- 
2.43.0


From 9c7e615b993c129e2f97288e7f35b5e67cd21ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:26 +0000
Subject: [PATCH 32/77] fix: crash and unloadable generated module when
 printing strings with quotes

---
 src/automaton_tostring.cpp   | 21 ++++++++++++++----
 src/languagedef_tostring.cpp | 43 +++++++++---------------------------
 2 files changed, 27 insertions(+), 37 deletions(-)

diff --git a/src/automaton_tostring.cpp b/src/automaton_tostring.cpp
index 009688d..692d270 100644
--- a/src/automaton_tostring.cpp
+++ b/src/automaton_tostring.cpp
@@ -159,7 +159,14 @@ static void printCallTable( std::ostream& outstream, const char* tablename, cons
 				outstream << "name=";
 				printString( outstream, call.function() + " " + call.arg());
 				outstream << ", proc=" << g_typeSystemModulePrefix << call.function();
-				outstream << ", obj=\"" << call.arg() << "\"";
+				if (call.arg().find( '\"') == std::string::npos)
+				{
+					outstream << ", obj=\"" << call.arg() << "\"";
+				}
+				else
+				{
+					outstream << ", obj=\'" << call.arg() << "\'";
+				}
 				break;
 			case Automaton::Call::ReferenceArg:
 				outstream << "name=";
@@ -188,15 +195,21 @@ std::string Automaton::tostring() const
 	outstream << "\tmewa = \"" << MEWA_VERSION_STRING << "\",\n";
 	if (!language().empty())
 	{
-		outstream << "\tlanguage = \"" << language() << "\",\n";
+		outstream << "\tlanguage = ";
+		printString( outstream, language());
+		outstream << ",\n";
 	}
 	if (!typesystem().empty())
 	{
-		outstream << "\ttypesystem = \"" << typesystem() << "\",\n";
+		outstream << "\ttypesystem = ";
+		printString( outstream, typesystem());
+		outstream << ",\n";
 	}
 	if (!cmdline().empty())
 	{
-		outstream << "\tcmdline = \"" << cmdline() << "\",\n";
+		outstream << "\tcmdline = ";
+		printString( outstream, cmdline());
+		outstream << ",\n";
 	}
 	printLexer( outstream, "lexer", lexer(), true/*sep*/);
 	printStringArray( outstream, "nonterminal", m_nonterminals, true/*sep*/);
diff --git a/src/languagedef_tostring.cpp b/src/languagedef_tostring.cpp
index 50904dc..b9094aa 100644
--- a/src/languagedef_tostring.cpp
+++ b/src/languagedef_tostring.cpp
@@ -14,15 +14,20 @@
 
 using namespace mewa;
 
-static std::string escapeString( const std::string& str)
+static std::string escapeString( const std::string& str, char quote)
 {
 	std::string rt;
 	char const* si = str.c_str();
 	for (; *si; ++si)
 	{
-		if (*si == '\\')
+		if (*si == '\\' || *si == quote)
 		{
-			rt.append( "\\\\");
+			rt.push_back( '\\');
+			rt.push_back( *si);
+		}
+		else if (*si == '\r')
+		{
+			rt.append( "\\r");
 		}
 		else
 		{
@@ -36,36 +41,8 @@ void mewa::printString( std::ostream& outstream, const std::string& str)
 {
 	char const* sqpos = std::strchr( str.c_str(), '\'');
 	char const* dqpos = std::strchr( str.c_str(), '\"');
-	if (sqpos && dqpos)
-	{
-		sqpos = 0;
-		dqpos = 0;
-		char const* si = str.c_str();
-		for (; si; ++si)
-		{
-			if (*si == '\\')
-			{
-				++si;
-			}
-			else if (*si == '\'')
-			{
-				sqpos = si;
-			}
-			else if (*si == '\"')
-			{
-				dqpos = si;
-			}
-		}
-	}
-	if (dqpos)
-	{
-		if (sqpos) throw Error( Error::EscapeQuoteErrorInString, str);
-		outstream << "\'" << escapeString( str) << "\'";
-	}
-	else
-	{
-		outstream << "\"" << escapeString( str) << "\"";
-	}
+	char quote = (dqpos && !sqpos) ? '\'' : '\"';
+	outstream << quote << escapeString( str, quote) << quote;
 }
 
 static void printArgument( std::ostream& outstream, const char* type, const std::vector<std::string>& args)
-- 
2.43.0


From 09c94b12c63b89cdf254cef9008c1788dc1c8f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:03 +0000
Subject: [PATCH 33/77] fix: name and location missing in the error for an
 indentation token defined twice

---
 src/lexer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer.cpp b/src/lexer.cpp
index 45ca59b..4c16c56 100644
--- a/src/lexer.cpp
+++ b/src/lexer.cpp
@@ -488,7 +488,7 @@ int Lexer::defineLexemId( const std::string_view& name)
 	}
 	else
 	{
-		throw std::runtime_error( Error( Error::KeywordDefinedTwiceInLexer));
+		throw Error( Error::KeywordDefinedTwiceInLexer, name);
 	}
 	m_defar.emplace_back( 0/*no line*/, std::string(name), id_);
 	return ins.first->second;
-- 
2.43.0


From 63058018c746d86c2f3f3d07af236de99da588ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:03 +0000
Subject: [PATCH 34/77] fix: read beyond strings and lost text when parsing
 error messages

---
 src/error.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/error.cpp b/src/error.cpp
index 96ff7de..f1d68d6 100644
--- a/src/error.cpp
+++ b/src/error.cpp
@@ -93,7 +93,7 @@ Error Error::parseError( const char* errstr) noexcept
 				param_ = errstr;
 				state = StateEnd;
 			}
-			else if (0==std::memcmp( msgstart, code2String( code_), ei-msgstart))
+			else if (std::string_view( msgstart, ei-msgstart) == code2String( code_))
 			{
 				++ei;
 				skipSpaces( ei);
@@ -148,6 +148,11 @@ Error Error::parseError( const char* errstr) noexcept
 			}
 			else
 			{
+				// ... not a message printed by this class, keep it as it is
+				code_ = RuntimeException;
+				line_ = 0;
+				filename_ = "";
+				param_ = errstr;
 				state = StateEnd;
 			}
 			break;
@@ -155,7 +160,7 @@ Error Error::parseError( const char* errstr) noexcept
 			break;
 
 	}//... end for switch
-	if (filename_[0])
+	if (!filename_.empty())
 	{
 		return Error( code_, param_, Location( filename_, line_));
 	}
-- 
2.43.0


From 813a3a49688fbe5489c525884227d9c19d8bd291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:53 +0000
Subject: [PATCH 35/77] fix: names that are no Lua names lead to a generated
 module that cannot be loaded

---
 src/automaton_parser.cpp   | 35 +++++++++++++++++++++++++++++++++++
 src/automaton_tostring.cpp |  1 +
 2 files changed, 36 insertions(+)

diff --git a/src/automaton_parser.cpp b/src/automaton_parser.cpp
index 4e24dc3..b488b72 100644
--- a/src/automaton_parser.cpp
+++ b/src/automaton_parser.cpp
@@ -142,6 +142,35 @@ static bool caseInsensitiveEqual( const std::string_view& a, const std::string_v
 	return ai == ae && bi == be;
 }
 
+// Check a name referring to a Lua value that is printed as it is into the generated Lua module:
+static void checkLuaName( const std::string_view& name)
+{
+	static const std::set<std::string_view> reserved = {
+		"and","break","do","else","elseif","end","false","for","function","goto","if","in",
+		"local","nil","not","or","repeat","return","then","true","until","while"
+	};
+	std::size_t start = 0;
+	for (;;)
+	{
+		std::size_t end = std::min( name.find( '.', start), name.size());
+		std::string_view part = name.substr( start, end - start);
+		if (part.empty() || part[0] == '-' || (part[0] >= '0' && part[0] <= '9') || reserved.find( part) != reserved.end())
+		{
+			throw Error( Error::UnexpectedTokenInGrammarDef, name);
+		}
+		if (end == name.size()) break;
+		start = end + 1;
+	}
+}
+
+static void checkLuaReference( const std::string_view& name)
+{
+	if (name != "true" && name != "false")
+	{
+		checkLuaName( name[0] == '-' ? name.substr( 1) : name);
+	}
+}
+
 LanguageDef mewa::parseLanguageDef( const std::string& source)
 {
 	LanguageDef rt;
@@ -233,22 +262,26 @@ LanguageDef mewa::parseLanguageDef( const std::string& source)
 					}
 					else if (state == ParseCallName)
 					{
+						checkLuaName( lexem.value());
 						call_function = std::string( lexem.value());
 						state = ParseCallArg;
 					}
 					else if (state == ParseCallArg)
 					{
+						checkLuaReference( lexem.value());
 						call_arg = std::string( lexem.value());
 						call_argtype = Automaton::Call::ReferenceArg;
 						state = ParseCallClose;
 					}
 					else if (state == ParseCallArgMemberValue)
 					{
+						if (lexem.value() != "nil") checkLuaReference( lexem.value());
 						call_arg.append( lexem.value());
 						state = ParseCallArgMemberDelim;
 					}
 					else if (state == ParseCallArgMemberName)
 					{
+						checkLuaName( lexem.value());
 						call_arg.append( lexem.value());
 						state = ParseCallArgMemberEquals;
 					}
@@ -274,11 +307,13 @@ LanguageDef mewa::parseLanguageDef( const std::string& source)
 				case GrammarLexer::CALL:
 					if (state == ParseCallName)
 					{
+						checkLuaName( lexem.value());
 						call_function = std::string( lexem.value());
 						state = ParseCallArg;
 					}
 					else if (state == ParseCallArg)
 					{
+						checkLuaReference( lexem.value());
 						call_arg = std::string( lexem.value());
 						call_argtype = Automaton::Call::ReferenceArg;
 						state = ParseCallClose;
diff --git a/src/automaton_tostring.cpp b/src/automaton_tostring.cpp
index 692d270..da069ce 100644
--- a/src/automaton_tostring.cpp
+++ b/src/automaton_tostring.cpp
@@ -57,6 +57,7 @@ static bool isConstantArgument( const std::string& val)
 	char ch = val[0];
 	if (ch >= '0' && ch <= '9') return true;
 	if (ch == '{' || ch == '-') return true;
+	if (val == "true" || val == "false") return true;
 	return false;
 }
 
-- 
2.43.0


From a7d42967cf1f4a70737a47980bb29027b10220f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:07 +0000
Subject: [PATCH 36/77] fix: priorities and numbers in a grammar wrap around
 before they are checked

---
 src/automaton_parser.cpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/automaton_parser.cpp b/src/automaton_parser.cpp
index b488b72..10fa8ed 100644
--- a/src/automaton_parser.cpp
+++ b/src/automaton_parser.cpp
@@ -14,6 +14,7 @@
 #include "automaton_parser.hpp"
 #include "strings.hpp"
 #include "utf8.hpp"
+#include <limits>
 #include <map>
 #include <algorithm>
 #include <type_traits>
@@ -93,8 +94,8 @@ static int convertStringToInt( const std::string_view& str)
 		char ch = str[ si];
 		if (ch >= '0' && ch <= '9')
 		{
+			if (rt > (std::numeric_limits<int>::max() - (ch - '0')) / 10) throw Error( Error::ValueOutOfRangeInGrammarDef, str);
 			rt = rt * 10 + (ch - '0');
-			if (rt < 0) throw Error( Error::ValueOutOfRangeInGrammarDef, str);
 		}
 		else
 		{
@@ -106,30 +107,31 @@ static int convertStringToInt( const std::string_view& str)
 
 static Priority convertStringToPriority( const std::string_view& str)
 {
-	Priority rt;
+	int value = 0;
+	Assoziativity assoz = Assoziativity::Undefined;
 	if (str.size() == 0)
 	{
 		throw Error( Error::UnexpectedTokenInGrammarDef, str);
 	}
 	if (str[0] == 'L' || str[0] == 'R')
 	{
-		Assoziativity assoz = str[0] == 'L' ? Assoziativity::Left : Assoziativity::Right;
-		rt = (str.size() == 1) ? Priority( 0, assoz) : Priority( convertStringToInt( str.substr( 1, str.size()-1)), assoz);
+		assoz = str[0] == 'L' ? Assoziativity::Left : Assoziativity::Right;
+		if (str.size() > 1) value = convertStringToInt( str.substr( 1, str.size()-1));
 	}
 	else if (str[str.size()-1] == 'L' || str[str.size()-1] == 'R')
 	{
-		Assoziativity assoz = str[str.size()-1] == 'L' ? Assoziativity::Left : Assoziativity::Right;
-		rt = Priority( convertStringToInt( str.substr( 0, str.size()-1)), assoz);
+		assoz = str[str.size()-1] == 'L' ? Assoziativity::Left : Assoziativity::Right;
+		value = convertStringToInt( str.substr( 0, str.size()-1));
 	}
 	else
 	{
-		rt = Priority( convertStringToInt( str));
+		value = convertStringToInt( str);
 	}
-	if (rt.value >= Automaton::MaxPriority)
+	if (value >= Automaton::MaxPriority)
 	{
 		throw Error( Error::ComplexityMaxProductionPriorityInGrammarDef, str);
 	}
-	return rt;
+	return Priority( value, assoz);
 }
 
 static bool caseInsensitiveEqual( const std::string_view& a, const std::string_view& b)
-- 
2.43.0


From 13a6a5d145e46e786089f46c90cbcbe432396b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:00 +0000
Subject: [PATCH 37/77] fix: shift by a negative number testing the type of a
 missing argument

---
 src/lua_parameter.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lua_parameter.hpp b/src/lua_parameter.hpp
index 07eb343..9bef19f 100644
--- a/src/lua_parameter.hpp
+++ b/src/lua_parameter.hpp
@@ -34,7 +34,8 @@ int checkNofArguments( const char* functionName, lua_State* ls, int minNofArgs,
 
 inline bool isArgumentType( const char* functionName, lua_State* ls, int li, int luaTypeMask)
 {
-	return (((1U << lua_type( ls, li)) & luaTypeMask) != 0);
+	int tp = lua_type( ls, li);
+	return tp != LUA_TNONE && (((1U << tp) & luaTypeMask) != 0);
 }
 
 std::string_view getArgumentAsString( const char* functionName, lua_State* ls, int li);
-- 
2.43.0


From baed8b6bdde9405b9e04db8808e62e6b9607912a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:00 +0000
Subject: [PATCH 38/77] fix: reduction with a weight that is not a number
 accepted

---
 src/scope.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scope.hpp b/src/scope.hpp
index 4045b86..8013fe0 100644
--- a/src/scope.hpp
+++ b/src/scope.hpp
@@ -867,7 +867,7 @@ public:
  	void set( const Scope scope, const RELNODETYPE& left, const RELNODETYPE& right, const VALTYPE& value, int tag, float weight)
 	{
 		if (tag > TagMask::MaxTag || tag < TagMask::MinTag) throw Error( Error::BadRelationTag, string_format("%d",tag));
-		if (weight < 0.0) throw Error( Error::BadRelationWeight, string_format("%.4f",weight));
+		if (!(weight >= 0.0)) throw Error( Error::BadRelationWeight, string_format("%.4f",weight));
 
 		std::uint8_t tagval = TagMask::tagValFromTag( tag);
 		int newlistindex = m_list.size();
-- 
2.43.0


From c137a61479bb88a80e65b39278cece1f7f01ea3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:00 +0000
Subject: [PATCH 39/77] fix: crash on invalid elements in lists of type
 constructor pairs, numbers in tables passed as arguments truncated

---
 src/lua_parameter.cpp | 42 +++++++++++++++++-------------------------
 1 file changed, 17 insertions(+), 25 deletions(-)

diff --git a/src/lua_parameter.cpp b/src/lua_parameter.cpp
index 6142dfb..59355a9 100644
--- a/src/lua_parameter.cpp
+++ b/src/lua_parameter.cpp
@@ -186,6 +186,12 @@ static int getListIndex( lua_State* ls, int keyidx, int tableidx)
 #endif
 }
 
+/// \brief Get an integer that is an element of a table passed as argument
+static int getTableElementAsInteger( const char* functionName, lua_State* ls, int li, mewa::Error::Code ec, int minval)
+{
+	return (int)getArgumentAsIntegerInRange( functionName, ls, li, ec, minval, std::numeric_limits<int>::max());
+}
+
 mewa::Scope mewa::lua::getArgumentAsScope( const char* functionName, lua_State* ls, int li)
 {
 	checkArgumentAsTable( functionName, ls, li);
@@ -201,11 +207,11 @@ mewa::Scope mewa::lua::getArgumentAsScope( const char* functionName, lua_State*
 			int kidx = getTableIndex( ls, -2);
 			if (kidx == 1)
 			{
-				start = lua_tointeger( ls, -1);
+				start = getTableElementAsInteger( functionName, ls, -1, mewa::Error::ExpectedArgumentScopeStructure, 0);
 			}
 			else if (kidx == 2)
 			{
-				end = lua_tointeger( ls, -1);
+				end = getTableElementAsInteger( functionName, ls, -1, mewa::Error::ExpectedArgumentScopeStructure, std::numeric_limits<int>::min());
 				if (end < 0)
 				{
 					end = std::numeric_limits<Scope::Step>::max() + end + 1;
@@ -252,6 +258,10 @@ static mewa::TypeDatabase::TypeConstructorPair getArgumentAsTypeConstructorPair(
 		int type = mewa::lua::getArgumentAsNonNegativeInteger( functionName, ls, li);
 		return mewa::TypeDatabase::TypeConstructorPair( type, 0/*constructor*/);
 	}
+	else if (lua_type( ls, li) != LUA_TTABLE)
+	{
+		mewa::lua::throwArgumentError( functionName, -1, mewa::Error::ExpectedArgumentTypeConstructorPairList);
+	}
 	else
 	{
 		lua_pushvalue( ls, li);
@@ -266,7 +276,7 @@ static mewa::TypeDatabase::TypeConstructorPair getArgumentAsTypeConstructorPair(
 				int kidx = getTableIndex( ls, -2);
 				if (kidx == 1)
 				{
-					type = lua_tointeger( ls, -1);
+					type = getTableElementAsInteger( functionName, ls, -1, mewa::Error::ExpectedArgumentTypeConstructorPairList, 0);
 				}
 				else if (kidx == 2)
 				{
@@ -284,7 +294,7 @@ static mewa::TypeDatabase::TypeConstructorPair getArgumentAsTypeConstructorPair(
 				char const* str = lua_tolstring( ls, -2, &len);
 				if (len == 4 && 0==std::memcmp( str, "type", len))
 				{
-					type = lua_tointeger( ls, -1);
+					type = getTableElementAsInteger( functionName, ls, -1, mewa::Error::ExpectedArgumentTypeConstructorPairList, 0);
 				}
 				else if (len == 11 && 0==std::memcmp( str, "constructor", len))
 				{
@@ -388,16 +398,8 @@ int mewa::lua::getArgumentAsType( const char* functionName, lua_State* ls, int l
 	{
 		lua_pushliteral( ls, "type");			// STK: [ARG] "type"
 		lua_rawget( ls, li > 0 ? li : (li-1));		// STK: [ARG] [TYPE]
-		if (lua_isnumber( ls, -1))
-		{
-			rt = lua_tointeger( ls, -1);
-			if (rt < 0) mewa::lua::throwArgumentError( functionName, li, mewa::Error::ExpectedArgumentType);
-			lua_pop( ls, 1);
-		}
-		else
-		{
-			mewa::lua::throwArgumentError( functionName, li, mewa::Error::ExpectedArgumentType);
-		}
+		rt = getTableElementAsInteger( functionName, ls, -1, mewa::Error::ExpectedArgumentType, 0);
+		lua_pop( ls, 1);
 	}
 	else
 	{
@@ -432,17 +434,7 @@ std::pmr::vector<int> mewa::lua::getArgumentAsTypeList(
 				{
 					lua_pushliteral( ls, "type");					// STK: [KEY] [VAL] "type"
 					lua_rawget( ls, -2);						// STK: [KEY] [VAL] [TYPE]
-					if (lua_isnumber( ls, -1))
-					{
-						type = lua_tointeger( ls, -1);
-					}
-					else
-					{
-						mewa::lua::throwArgumentError(
-								functionName, li, allowTypeConstructorPairs
-											? mewa::Error::ExpectedArgumentTypeList
-											: mewa::Error::ExpectedArgumentTypeOrTypeConstructorPairList);
-					}
+					type = getTableElementAsInteger( functionName, ls, -1, mewa::Error::ExpectedArgumentTypeList, 0);
 					lua_pop( ls, 1);						// STK: [KEY] [VAL]
 				}
 				else
-- 
2.43.0


From 093e1ca27e11bcf9dd0dca5281c596cbe24da102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:45 +0000
Subject: [PATCH 40/77] fix: output of compiler:run lost when a callback calls
 run on the same compiler object

---
 src/lualib_mewa.cpp | 36 ++++++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/src/lualib_mewa.cpp b/src/lualib_mewa.cpp
index 1842b38..fc7edb9 100644
--- a/src/lualib_mewa.cpp
+++ b/src/lualib_mewa.cpp
@@ -428,6 +428,37 @@ static void restorePrintFunctions( lua_State* ls, int globals_index)
 	}
 }
 
+/// \brief Output of one call of compiler:run. A run called by a callback of another run on the same object does not touch the output of the outer run.
+class CompilerRunOutput
+{
+public:
+	explicit CompilerRunOutput( mewa_compiler_userdata_t* cp_)
+		:cp(cp_),debugFileHandle(nullptr)
+	{
+		swap();
+	}
+	~CompilerRunOutput()
+	{
+		cp->closeOutput();
+		swap();
+	}
+	CompilerRunOutput( CompilerRunOutput const&) = delete;
+	CompilerRunOutput& operator=( CompilerRunOutput const&) = delete;
+
+private:
+	void swap() noexcept
+	{
+		std::swap( cp->debugFileHandle, debugFileHandle);
+		cp->outputBuffer.swap( outputBuffer);
+		cp->outputSectionMap.swap( outputSectionMap);
+	}
+
+	mewa_compiler_userdata_t* cp;
+	FILE* debugFileHandle;
+	mewa_compiler_userdata_t::OutputBuffer outputBuffer;
+	mewa_compiler_userdata_t::OutputSectionMap outputSectionMap;
+};
+
 static int mewa_compiler_run( lua_State* ls)
 {
 	[[maybe_unused]] static const char* functionName = "compiler:run( target, options, inputfile, [,outputfile [,dbgoutput]])";
@@ -450,6 +481,7 @@ static int mewa_compiler_run( lua_State* ls)
 		char filename[ 256]; 	//... source filename
 		copyFileNameToBuffer( filename, sizeof(filename), mewa::lua::getArgumentAsString( functionName, ls, 4));
 		std::string_view outputfn = "stdout";
+		CompilerRunOutput output_( cp);
 
 		std::string sourcestr_ = mewa::readFile( std::string(filename));
 		std::string_view sourceptr = move_string_on_lua_stack( ls, std::move( sourcestr_));	// STK: [COMPILER] [INPUTFILE] [SOURCE]
@@ -470,8 +502,6 @@ static int mewa_compiler_run( lua_State* ls)
 				if (!cp->debugFileHandle) throw mewa::Error( (mewa::Error::Code) errno, debugFileName);
 			}
 		}
-		cp->outputBuffer.clear();		// ... drop output of previous calls
-		cp->outputSectionMap.clear();
 
 		lua_getglobal( ls, "_G");		// STK: table=_G
 		int globals_index = lua_gettop( ls);
@@ -512,11 +542,9 @@ static int mewa_compiler_run( lua_State* ls)
 		catch (...)
 		{
 			restorePrintFunctions( ls, globals_index);
-			cp->closeOutput();
 			throw;
 		}
 		restorePrintFunctions( ls, globals_index);
-		cp->closeOutput();
 		lua_settop( ls, globals_index-1); //STK:
 		lua_pop( ls, 3);	// ... destroy strings on lua stack created with move_string_on_lua_stack and options
 
-- 
2.43.0


From aedbdb2b21d6a314a83031a4abe39ec612c42d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:23 +0000
Subject: [PATCH 41/77] fix: mewa.tostring does not round numbers close to
 integers

---
 src/lua_serialize.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/lua_serialize.cpp b/src/lua_serialize.cpp
index f8bf7df..b6c739f 100644
--- a/src/lua_serialize.cpp
+++ b/src/lua_serialize.cpp
@@ -39,10 +39,9 @@ static void serializeLuaValue( std::ostream& out, lua_State* ls, int li, const s
 static void serializeNumber( std::ostream& out, double num)
 {
 	char buf[ 64];
-	double intnum = std::floor( num + std::numeric_limits<double>::epsilon()*4);
-	if (num - intnum < std::numeric_limits<double>::epsilon()*4 && std::fabs( intnum) < 9007199254740992.0/*2^53*/)
+	if (num == std::floor( num) && std::fabs( num) < 9007199254740992.0/*2^53*/)
 	{
-		std::snprintf( buf, sizeof(buf), "%.0f", intnum == 0.0 ? 0.0 : intnum);
+		std::snprintf( buf, sizeof(buf), "%.0f", num == 0.0 ? 0.0 : num);
 	}
 	else
 	{
@@ -163,7 +162,7 @@ static void serializeLuaTable( std::ostream& out, lua_State* ls, int li, const s
 		{
 			double kk = lua_tonumber( ls, -2);
 			++rowcnt;
-			if (!hasNameKeys && (kk - std::floor( kk) > std::numeric_limits<double>::epsilon()*4))
+			if (!hasNameKeys && kk != std::floor( kk))
 			{
 				hasNameKeys = true;
 			}
-- 
2.43.0


From a5cb59e71927c3aaef3fb4350135913fcf54448f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:54 +0000
Subject: [PATCH 42/77] fix: mewa.tostring of deeply nested tables and of
 circular references does not overflow the C stack

---
 src/lua_serialize.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/lua_serialize.cpp b/src/lua_serialize.cpp
index b6c739f..60fa8a1 100644
--- a/src/lua_serialize.cpp
+++ b/src/lua_serialize.cpp
@@ -34,7 +34,9 @@ extern "C" {
 
 using namespace mewa;
 
-static void serializeLuaValue( std::ostream& out, lua_State* ls, int li, const std::string& indent, int depth);
+enum {MaxTableNesting = 4000}; //... limit for the recursion, reached by circular references if no maximum depth is specified
+
+static void serializeLuaValue( std::ostream& out, lua_State* ls, int li, const std::string& indent, int depth, int level);
 
 static void serializeNumber( std::ostream& out, double num)
 {
@@ -137,8 +139,10 @@ struct LuaTableKey
 	}
 };
 
-static void serializeLuaTable( std::ostream& out, lua_State* ls, int li, const std::string& indent, int depth)
+static void serializeLuaTable( std::ostream& out, lua_State* ls, int li, const std::string& indent, int depth, int level)
 {
+	if (level > MaxTableNesting) throw mewa::Error( mewa::Error::LuaStackOutOfMemory, "mewa.tostring");
+
 	std::vector<LuaTableKey> keyvec;
 	keyvec.reserve( 1024);
 	bool hasNameKeys = false;
@@ -197,7 +201,7 @@ static void serializeLuaTable( std::ostream& out, lua_State* ls, int li, const s
 			out << indent;
 			key.serialize( out);
 			out << " = ";
-			serializeLuaValue( out, ls, -1, indent, depth);
+			serializeLuaValue( out, ls, -1, indent, depth, level);
 			lua_pop( ls, 1);					// STK: [TABLE] 
 		}
 	}
@@ -211,7 +215,7 @@ static void serializeLuaTable( std::ostream& out, lua_State* ls, int li, const s
 
 			if (kidx++) out << ",";
 			out << indent;
-			serializeLuaValue( out, ls, -1, indent, depth);
+			serializeLuaValue( out, ls, -1, indent, depth, level);
 			lua_pop( ls, 1);					// STK: [TABLE] 
 		}
 	}
@@ -264,7 +268,7 @@ static std::string encodeCString( const std::string_view& str)
 	return rt;
 }
 
-static void serializeLuaValue( std::ostream& out, lua_State* ls, int li, const std::string& indent, int depth)
+static void serializeLuaValue( std::ostream& out, lua_State* ls, int li, const std::string& indent, int depth, int level)
 {
 	int tp = lua_type( ls, li);
 	switch (tp)
@@ -294,12 +298,12 @@ static void serializeLuaValue( std::ostream& out, lua_State* ls, int li, const s
 				}
 				else
 				{
-					serializeLuaTable( out, ls, li, indent.empty() ? std::string() : (indent + "  "), depth-1);
+					serializeLuaTable( out, ls, li, indent.empty() ? std::string() : (indent + "  "), depth-1, level+1);
 				}
 			}
 			else
 			{
-				serializeLuaTable( out, ls, li, indent.empty() ? std::string() : (indent + "  "), depth);
+				serializeLuaTable( out, ls, li, indent.empty() ? std::string() : (indent + "  "), depth, level+1);
 			}
 			break;
 		case LUA_TFUNCTION:
@@ -315,7 +319,7 @@ std::string mewa::luaToString( lua_State* ls, int li, bool use_indent, int depth
 {
 	std::string rt;
 	std::ostringstream out;
-	serializeLuaValue( out, ls, li, use_indent ? "\n" : "", depth);
+	serializeLuaValue( out, ls, li, use_indent ? "\n" : "", depth, 0/*level*/);
 	rt.append( out.str());
 	return rt;
 }
-- 
2.43.0


From 4cbd9786b243c57a24e9b5079a7d3e20de7226db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:19 +0000
Subject: [PATCH 43/77] fix: mewa -l loops endlessly with block comments and
 with a comment at the end of the file

---
 src/automaton_parser.cpp | 35 +++++++++++------------------------
 1 file changed, 11 insertions(+), 24 deletions(-)

diff --git a/src/automaton_parser.cpp b/src/automaton_parser.cpp
index 10fa8ed..b0cd95d 100644
--- a/src/automaton_parser.cpp
+++ b/src/automaton_parser.cpp
@@ -796,6 +796,7 @@ static std::vector<std::string> splitLines( char const* str, std::size_t sz)
 		const char* start = skipSpaces( str, end); //skip leading spaces
 		str = skipEoln( start, end);
 		std::size_t nn = str-start;
+		if (str < end) ++str; //skip end of line
 		while (nn > 0 && (unsigned char)start[ nn-1] <= 32)
 		{
 			--nn;
@@ -859,39 +860,25 @@ LanguageDecoratorMap mewa::parseLanguageDecoratorMap( const std::string& source)
 	Lexem lexem( 1/*line*/);
 	std::vector<std::string> comment;
 	std::vector<LanguageDecorator> decorators;
-	std::size_t symlen = 0;
 	int line = 0;
 	char const* start = scanner.next();
-	for (; *start; start = scanner.next( symlen))
+	for (; *start; start = scanner.next())
 	{
 		comment.clear();
 		if (start[0] == '#' || (start[0] == '/' && start[1] == '/'))
 		{
-			line = scanner.line();
-			start += start[0] == '#' ? 1:2;
-			if (scanner.scan( "\n"))
-			{
-				comment.emplace_back( start, scanner.current() - start - 1);
-			}
-			else
-			{
-				comment.emplace_back( start);
-			}
-			symlen = 0;
+			char const* content = start + (start[0] == '#' ? 1:2);
+			std::size_t size = std::strcspn( content, "\n");
+			comment.emplace_back( content, size);
+			scanner.next( content + size - start);
 		}
 		else if (start[0] == '/' && start[1] == '*')
 		{
-			line = scanner.line();
-			start += 2;
-			if (scanner.scan( "*/"))
-			{
-				comment = splitLines( start, scanner.current() - start);
-			}
-			else
-			{
-				throw Error( Error::UnexpectedEofInGrammarDef);
-			}
-			symlen = 1;
+			char const* content = start + 2;
+			char const* end = std::strstr( content, "*/");
+			if (!end) throw Error( Error::UnexpectedEofInGrammarDef);
+			comment = splitLines( content, end - content);
+			scanner.next( end + 2 - start);
 		}
 		else
 		{
-- 
2.43.0


From cda6c40e370d8055334c841eb9c8a82e34037a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:59 +0000
Subject: [PATCH 44/77] fix: only the first occurrence of a key in a template
 is replaced

---
 src/mewa.cpp | 43 +++++++++++++++++++++----------------------
 1 file changed, 21 insertions(+), 22 deletions(-)

diff --git a/src/mewa.cpp b/src/mewa.cpp
index 2051180..45b64c2 100644
--- a/src/mewa.cpp
+++ b/src/mewa.cpp
@@ -123,35 +123,34 @@ compiler:run( nil, nil, arg[1])
 
 
 
-static std::string mapTemplateKey( const std::string& content, const char* key, const std::string& value)
+static std::string mapTemplate( const std::string& templat, const Automaton& automaton, const std::string& luabin)
 {
+	const std::pair<std::string,std::string> keys[] = {
+		{"%luabin%", luabin},
+		{"%typesystem%", automaton.typesystem()},
+		{"%language%", automaton.language()},
+		{"%cmdline%", automaton.cmdline()},
+		{"%automaton%", automaton.tostring()}
+	};
 	std::string rt;
-	std::string pattern = std::string("%") + key + "%";
-	char const* pp = std::strstr( content.c_str(), pattern.c_str());
-	if (pp)
-	{
-		rt.append( content.c_str(), pp-content.c_str());
-		rt.append( value);
-		rt.append( pp + pattern.size());
-	}
-	else
+	std::size_t pos = 0;
+	while (pos < templat.size())
 	{
-		rt.append( content);
+		auto ki = std::begin( keys);
+		for (; ki != std::end( keys) && 0!=templat.compare( pos, ki->first.size(), ki->first); ++ki){}
+		if (ki != std::end( keys))
+		{
+			rt.append( ki->second);
+			pos += ki->first.size();
+		}
+		else
+		{
+			rt.push_back( templat[ pos++]);
+		}
 	}
 	return rt;
 }
 
-static std::string mapTemplate( const std::string& templat, const Automaton& automaton, const std::string& luabin)
-{
-	std::string rt = templat;
-	rt = mapTemplateKey( rt, "luabin", luabin);
-	rt = mapTemplateKey( rt, "typesystem", automaton.typesystem());
-	rt = mapTemplateKey( rt, "language", automaton.language());
-	rt = mapTemplateKey( rt, "cmdline", automaton.cmdline());
-	rt = mapTemplateKey( rt, "automaton", automaton.tostring());
-	return rt;
-}
-
 static void printAutomaton( const std::string& filename, const std::string& templat, const Automaton& automaton, const std::string& luabin)
 {
 	if (filename.empty())
-- 
2.43.0


From dbb286f305ec2b403e4ee1281fcc42c09d0d830f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:46 +0000
Subject: [PATCH 45/77] fix: attribute names in comments that are no Lua names
 lead to a language description that cannot be loaded

---
 src/languagedef_tostring.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/languagedef_tostring.cpp b/src/languagedef_tostring.cpp
index b9094aa..98112d6 100644
--- a/src/languagedef_tostring.cpp
+++ b/src/languagedef_tostring.cpp
@@ -11,6 +11,8 @@
 /// \brief Function to print Lexem definitions as Lua table
 /// \file "languagedef_tostring.cpp"
 #include "languagedef_tostring.hpp"
+#include <cstring>
+#include <set>
 
 using namespace mewa;
 
@@ -69,12 +71,22 @@ static void printArgument( std::ostream& outstream, const char* type, int arg)
 	outstream << arg;
 }
 
+static bool isLuaName( const std::string& name)
+{
+	static const std::set<std::string> reserved = {
+		"and","break","do","else","elseif","end","false","for","function","goto","if","in",
+		"local","nil","not","or","repeat","return","then","true","until","while"
+	};
+	return !name.empty() && !(name[0] >= '0' && name[0] <= '9') && reserved.find( name) == reserved.end();
+}
+
 static void printDecorators( std::ostream& outstream, const std::vector<LanguageDecorator>& decorators)
 {
 	for (auto const& dc : decorators)
 	{
 		outstream << ",";
-		printArgument( outstream, dc.name.c_str(), dc.content);
+		std::string key = isLuaName( dc.name) ? dc.name : "[\"" + dc.name + "\"]";
+		printArgument( outstream, key.c_str(), dc.content);
 	}
 }
 
-- 
2.43.0


From 83f3922caca41e3cec1a5162e3a1f7b5a88664b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:27 +0000
Subject: [PATCH 46/77] fix: error reading a file is reported with a wrong
 error code

---
 src/fileio.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fileio.cpp b/src/fileio.cpp
index 4021990..9191bf6 100644
--- a/src/fileio.cpp
+++ b/src/fileio.cpp
@@ -57,7 +57,7 @@ std::string mewa::readFile( const char* filename)
 	}
 	rt.append( rbuf, nn);
 
-	int eno = std::ferror( ff);
+	int eno = std::ferror( ff) ? (errno ? errno : EIO) : 0;
 	bool eof = std::feof( ff);
 	std::fclose( ff);
 
-- 
2.43.0


From 235d25e74990006944ae00d8e027856503976991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:27 +0000
Subject: [PATCH 47/77] fix: the stub of a typesystem with functions in nested
 tables cannot be loaded

---
 src/automaton_parser.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/automaton_parser.cpp b/src/automaton_parser.cpp
index b0cd95d..36ccb75 100644
--- a/src/automaton_parser.cpp
+++ b/src/automaton_parser.cpp
@@ -758,8 +758,18 @@ std::string mewa::printLuaTypeSystemStub( const LanguageDef& langdef)
 {
 	std::string rt = mewa::string_format( "local mewa = require \"mewa\"\nlocal typedb = mewa.typedb()\nlocal typesystem = {}\n\n");
 	std::set<std::string> fset;
+	std::set<std::string> tables;
 	for (auto call : langdef.calls)
 	{
+		std::string function = call.function();
+		for (std::size_t di = function.find( '.'); di != std::string::npos; di = function.find( '.', di+1))
+		{
+			std::string table = function.substr( 0, di);
+			if (tables.insert( table).second == true/*insert took place*/)
+			{
+				rt.append( mewa::string_format( "typesystem.%s = {}\n", table.c_str()));
+			}
+		}
 		auto ins = fset.insert( call.function());
 		if (ins.second == true/*insert took place*/)
 		{
-- 
2.43.0


From 0b18e78cf56805d4ba4102369b5549b35c3a7cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:43 +0000
Subject: [PATCH 48/77] fix: attributes in comments are lost for declarations
 spread over several lines

---
 src/automaton_parser.cpp | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/automaton_parser.cpp b/src/automaton_parser.cpp
index 36ccb75..a1d1978 100644
--- a/src/automaton_parser.cpp
+++ b/src/automaton_parser.cpp
@@ -867,10 +867,12 @@ LanguageDecoratorMap mewa::parseLanguageDecoratorMap( const std::string& source)
 	LanguageDecoratorMap rt;
 	GrammarLexer grammarLexer;
 	Scanner scanner( source);
-	Lexem lexem( 1/*line*/);
 	std::vector<std::string> comment;
-	std::vector<LanguageDecorator> decorators;
+	std::vector<LanguageDecorator> decorators;	//... attributes of the next declaration
+	std::vector<LanguageDecorator> active;		//... attributes of the current declaration, attached to all its lines
 	int line = 0;
+	int activeLine = 0;
+	bool startOfDeclaration = true;
 	char const* start = scanner.next();
 	for (; *start; start = scanner.next())
 	{
@@ -893,16 +895,26 @@ LanguageDecoratorMap mewa::parseLanguageDecoratorMap( const std::string& source)
 		else
 		{
 			line = scanner.line();
-			grammarLexer.next( scanner);
-			for (auto const& dc : decorators)
+			Lexem lexem = grammarLexer.next( scanner);
+			if (startOfDeclaration || lexem.name() == "|")
 			{
-				if (LanguageDecorator::isReservedAttribute( dc.name))
+				active.clear();
+				active.swap( decorators);
+				activeLine = 0;
+				for (auto const& dc : active)
 				{
-					throw Error( Error::UsingReservedAttributeNameInGrammarDef);
+					if (LanguageDecorator::isReservedAttribute( dc.name))
+					{
+						throw Error( Error::UsingReservedAttributeNameInGrammarDef);
+					}
 				}
-				rt.addDecorator( line, dc);
 			}
-			decorators.clear();
+			if (line != activeLine)
+			{
+				for (auto const& dc : active) rt.addDecorator( line, dc);
+				activeLine = line;
+			}
+			startOfDeclaration = (lexem.name() == ";");
 		}
 		if (!comment.empty())
 		{
-- 
2.43.0


From ebe044c5915d3340218e11b665f065599070595a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:23 +0000
Subject: [PATCH 49/77] fix: names of indentation tokens in the language
 description are quoted twice and listed as tokens without pattern

---
 src/languagedef_tostring.cpp | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/languagedef_tostring.cpp b/src/languagedef_tostring.cpp
index 98112d6..4ade60a 100644
--- a/src/languagedef_tostring.cpp
+++ b/src/languagedef_tostring.cpp
@@ -90,7 +90,26 @@ static void printDecorators( std::ostream& outstream, const std::vector<Language
 	}
 }
 
-static void printLexerDefinitions( std::ostream& outstream, const char* indentstr, const Lexer& lexer, const std::vector<Lexer::Definition>& defs, const LanguageDecoratorMap& decorators, int& cnt)
+// Indentation tokens are lexems without pattern that are declared with the command INDENTL and not as tokens of their own:
+static bool isIndentLexem( const std::vector<Lexer::Definition>& defs, int id)
+{
+	for (auto const& def : defs)
+	{
+		if (def.type() == Lexer::Definition::IndentLexems && (id == def.openind() || id == def.closeind() || id == def.newline())) return true;
+	}
+	return false;
+}
+
+static std::string indentLexemName( const std::vector<Lexer::Definition>& defs, int id)
+{
+	for (auto const& def : defs)
+	{
+		if (def.type() == Lexer::Definition::NamedPatternLexem && def.id() == id) return def.name();
+	}
+	return std::string();
+}
+
+static void printLexerDefinitions( std::ostream& outstream, const char* indentstr, const std::vector<Lexer::Definition>& defs, const LanguageDecoratorMap& decorators, int& cnt)
 {
 	for (auto const& def : defs)
 	{
@@ -109,6 +128,7 @@ static void printLexerDefinitions( std::ostream& outstream, const char* indentst
 				break;
 
 			case Lexer::Definition::NamedPatternLexem:
+				if (def.pattern().empty() && isIndentLexem( defs, def.id())) break;
 				outstream << (cnt++ ? indentstr : (indentstr+1));
 				outstream << "{";
 				printArgument( outstream, "op", "TOKEN");
@@ -173,11 +193,11 @@ static void printLexerDefinitions( std::ostream& outstream, const char* indentst
 				outstream << "{";
 				printArgument( outstream, "op", "INDENTL");
 				outstream << ",";
-				printArgument( outstream, "open", lexer.lexemName( def.openind()));
+				printArgument( outstream, "open", indentLexemName( defs, def.openind()));
 				outstream << ",";
-				printArgument( outstream, "close", lexer.lexemName( def.closeind()));
+				printArgument( outstream, "close", indentLexemName( defs, def.closeind()));
 				outstream << ",";
-				printArgument( outstream, "nl", lexer.lexemName( def.newline()));
+				printArgument( outstream, "nl", indentLexemName( defs, def.newline()));
 				outstream << ",";
 				printArgument( outstream, "tabsize", def.tabsize());
 				printDecorators( outstream, decorators.get( def.line()));
@@ -257,7 +277,7 @@ std::string mewa::printLuaLanguageDefinition( const LanguageDef& langdef, const
 	out << indentstr1 << "RULES = {";
 	auto const& defs = langdef.lexer.getDefinitions();
 	int cnt = 0;
-	printLexerDefinitions( out, indentstr2, langdef.lexer, defs, decoratormap, cnt);
+	printLexerDefinitions( out, indentstr2, defs, decoratormap, cnt);
 	printProductions( out, indentstr2, langdef, decoratormap, cnt);
 	out << "\n\t}\n}\nreturn languagedef\n\n";
 	std::string rt = out.str();
-- 
2.43.0


From cb1500b5cd01d336a2ad3ac28d872c20f024c7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:56 +0000
Subject: [PATCH 50/77] fix: compiler:run succeeds although the debug output
 could not be written

---
 src/lualib_mewa.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/lualib_mewa.cpp b/src/lualib_mewa.cpp
index fc7edb9..a978ee0 100644
--- a/src/lualib_mewa.cpp
+++ b/src/lualib_mewa.cpp
@@ -415,6 +415,17 @@ static void printOutput( FILE* fh, const char* name, const std::string& output)
 	}
 }
 
+/// \brief Write the buffered debug output, an error reported is an error of one of the writes on the file
+static void flushDebugOutput( FILE* fh, const std::string_view& name)
+{
+	errno = 0;
+	if (0 != std::fflush( fh) || std::ferror( fh))
+	{
+		int ec = errno;
+		throw mewa::Error( (mewa::Error::Code)(ec ? ec : EIO), name);
+	}
+}
+
 /// \brief Restore the global functions redirected by compiler:run, saved on the Lua stack starting with globals_index+1
 static void restorePrintFunctions( lua_State* ls, int globals_index)
 {
@@ -481,6 +492,7 @@ static int mewa_compiler_run( lua_State* ls)
 		char filename[ 256]; 	//... source filename
 		copyFileNameToBuffer( filename, sizeof(filename), mewa::lua::getArgumentAsString( functionName, ls, 4));
 		std::string_view outputfn = "stdout";
+		std::string_view debugFileName;
 		CompilerRunOutput output_( cp);
 
 		std::string sourcestr_ = mewa::readFile( std::string(filename));
@@ -497,7 +509,7 @@ static int mewa_compiler_run( lua_State* ls)
 			}
 			if (nargs >= 6 && !lua_isnil( ls, 6))
 			{
-				std::string_view debugFileName = mewa::lua::getArgumentAsString( functionName, ls, 6);
+				debugFileName = mewa::lua::getArgumentAsString( functionName, ls, 6);
 				cp->debugFileHandle = mewa_compiler_userdata_t::openFile( debugFileName.data());
 				if (!cp->debugFileHandle) throw mewa::Error( (mewa::Error::Code) errno, debugFileName);
 			}
@@ -517,6 +529,7 @@ static int mewa_compiler_run( lua_State* ls)
 		try
 		{
 			mewa::luaRunCompiler( ls, cp->automaton, options_index, sourceptr, cp->callTableName.buf, cp->debugFileHandle);
+			if (cp->debugFileHandle) flushDebugOutput( cp->debugFileHandle, debugFileName);
 
 			std::string triple = mewa::fileBaseName( targetfn);
 
-- 
2.43.0


From 5e5b4a2d4b3f8ac4adcae387bd1436d616b35ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:47 +0000
Subject: [PATCH 51/77] fix: the argument of an error is wrong if the message
 or the file name contains ': '

---
 src/error.hpp | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/error.hpp b/src/error.hpp
index f15bd0e..6fb5017 100644
--- a/src/error.hpp
+++ b/src/error.hpp
@@ -161,22 +161,22 @@ public:
 
 public:
 	Error()
-		:std::runtime_error(""),m_code(Ok),m_location(){}
+		:std::runtime_error(""),m_code(Ok),m_location(),m_argpos(0){}
 	Error( Code code_, const Location& location_ = Location())
-		:std::runtime_error(map2string(code_,"",location_)),m_code(code_),m_location(location_){}
+		:std::runtime_error(map2string(code_,"",location_)),m_code(code_),m_location(location_),m_argpos(argpos(code_,location_)){}
 	Error( Code code_, const std::string& param_, const Location& location_ = Location())
-		:std::runtime_error(map2string(code_,param_.c_str(),location_)),m_code(code_),m_location(location_){}
+		:std::runtime_error(map2string(code_,param_.c_str(),location_)),m_code(code_),m_location(location_),m_argpos(argpos(code_,location_)){}
 	Error( Code code_, const std::string_view& param_, const Location& location_ = Location())
-		:std::runtime_error(map2string(code_,param_,location_)),m_code(code_),m_location(location_){}
+		:std::runtime_error(map2string(code_,param_,location_)),m_code(code_),m_location(location_),m_argpos(argpos(code_,location_)){}
 	Error( Code code_, const char* param_, const Location& location_ = Location())
-		:std::runtime_error(map2string(code_,param_,location_)),m_code(code_),m_location(location_){}
+		:std::runtime_error(map2string(code_,param_,location_)),m_code(code_),m_location(location_),m_argpos(argpos(code_,location_)){}
 	Error( const Error& o)
-		:std::runtime_error(map2string(o.code(),o.arg(),o.location())),m_code(o.m_code),m_location(o.location()){}
+		:std::runtime_error(map2string(o.code(),o.arg(),o.location())),m_code(o.m_code),m_location(o.location()),m_argpos(o.m_argpos){}
 	Error( const Error& o, const Location& location_)
-		:std::runtime_error(map2string(o.code(),o.arg(),location_)),m_code(o.m_code),m_location(location_){}
+		:std::runtime_error(map2string(o.code(),o.arg(),location_)),m_code(o.m_code),m_location(location_),m_argpos(argpos(o.m_code,location_)){}
 
 	Code code() const noexcept			{return m_code;}
-	const char* arg() const noexcept		{char const* rt = std::strstr( what(), ": "); return rt?(rt+2):rt;}
+	const char* arg() const noexcept		{return std::strlen( what()) > m_argpos+1 ? what() + m_argpos+2 : nullptr;}
 	const Location& location() const noexcept	{return m_location;}
 
 	const char* what() const noexcept override
@@ -197,9 +197,16 @@ private:
 	static std::string map2string( Code code_, const char* param_, const Location& location_);
 	static std::string map2string( Code code_, const std::string_view& param_, const Location& location_);
 
+	/// \brief Position of the argument with its separator ": " in the message, the texts and file names before may contain ": " too
+	static std::size_t argpos( Code code_, const Location& location_)
+	{
+		return map2string( code_, "", location_).size();
+	}
+
 private:
 	Code m_code;
 	Location m_location;
+	std::size_t m_argpos;
 };
 
 }//namespace
-- 
2.43.0


From 549a8c5e642c192b6af536b25e784ab7c0b647ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:47 +0000
Subject: [PATCH 52/77] fix: texts that are no error messages taken for ones
 with code 0 or with a line number missing

---
 src/error.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/error.cpp b/src/error.cpp
index f1d68d6..df82a94 100644
--- a/src/error.cpp
+++ b/src/error.cpp
@@ -45,7 +45,7 @@ Error Error::parseError( const char* errstr) noexcept
 				int cd = parseInteger( ei);
 				skipSpaces( ei);
 
-				if (cd < 0 || cd > std::numeric_limits<short>::max())
+				if (cd <= 0 || cd > std::numeric_limits<short>::max())
 				{
 					code_ = RuntimeException;
 					param_ = errstr;
@@ -105,7 +105,7 @@ Error Error::parseError( const char* errstr) noexcept
 			}
 			break;
 		case StateParseLineNo:
-			if (ee-ei > 8 && 0==std::memcmp( ei, "at line ", 8))
+			if (ee-ei > 8 && 0==std::memcmp( ei, "at line ", 8) && ei[8] >= '0' && ei[8] <= '9')
 			{
 				ei += 8;
 				line_ = parseInteger( ei);
-- 
2.43.0


From 798dab72e3e46e537793f9ef4da2ac3e113183fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:47 +0000
Subject: [PATCH 53/77] fix: errors of calls by C functions like pcall are
 reported with line -1

---
 src/lualib_mewa.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/lualib_mewa.cpp b/src/lualib_mewa.cpp
index a978ee0..f8a2ca5 100644
--- a/src/lualib_mewa.cpp
+++ b/src/lualib_mewa.cpp
@@ -56,9 +56,13 @@ extern "C" int luaopen_mewa( lua_State* ls);
 static mewa::Error::Location getLuaScriptErrorLocation( lua_State* ls)
 {
 	lua_Debug ar;
-	if (!lua_getstack( ls, 1, &ar)) return mewa::Error::Location(); //... no caller, e.g. the function is the body of a coroutine
-	lua_getinfo( ls, "S", &ar);
-	return mewa::Error::Location( ar.short_src, ar.linedefined);
+	for (int level = 1; lua_getstack( ls, level, &ar); ++level) //... no caller, e.g. if the function is the body of a coroutine
+	{
+		lua_getinfo( ls, "S", &ar);
+		if (ar.linedefined >= 0) return mewa::Error::Location( ar.short_src, ar.linedefined);
+		//... else a C function without location, e.g. pcall
+	}
+	return mewa::Error::Location();
 }
 
 /// \note Got this idea from Jason Turner C++ Weekly Ep. 91 "Using Lippincott Functions"
-- 
2.43.0


From 138e0f34fd7652290d1f795241a65f764ce27b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:47 +0000
Subject: [PATCH 54/77] fix: message lost if a callback raises an error with an
 empty message

---
 src/lua_run_compiler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lua_run_compiler.cpp b/src/lua_run_compiler.cpp
index 3c125c0..a684b08 100644
--- a/src/lua_run_compiler.cpp
+++ b/src/lua_run_compiler.cpp
@@ -405,7 +405,7 @@ static void luaCallNodeFunction( lua_State* ls, int li, int calltable, FILE* dbg
 		{
 			const char* msg = lua_tostring( ls, -1);
 			mewa::Error err = mewa::Error::parseError( msg);
-			if (err.code() == mewa::Error::RuntimeException)
+			if (err.code() == mewa::Error::RuntimeException || err.code() == mewa::Error::Ok)
 			{
 				throw mewa::Error( luaErrorCode2ErrorCode( rc), msg ? msg : "");
 			}
-- 
2.43.0


From 1ab09c00933d987d37574bc3c16e007ad3f2e8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:56 +0000
Subject: [PATCH 55/77] fix: conflict between accepting and reducing silently
 settled by priorities

---
 src/automaton.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/automaton.cpp b/src/automaton.cpp
index 600f245..12b030e 100644
--- a/src/automaton.cpp
+++ b/src/automaton.cpp
@@ -899,7 +899,17 @@ static void insertAction(
 	auto ains = actionMap.insert( {key, action} );
 	auto pi =  priorityMap.find( key);
 
-	if (pi == priorityMap.end() || ains.second/*is new*/)
+	if (ains.first->second.type() == Automaton::Action::Accept)
+	{
+		// ... only the reduction of the start production itself is covered by the accept action, it is never replaced:
+		if (action.type() != Automaton::Action::Reduce || action.nonterminal() != ains.first->second.nonterminal())
+		{
+			warnings.push_back(
+				Error( Error::ReduceReduceConflictInGrammarDef,
+				getStateTransitionString( lr1State, terminal, prodlist, lexer, followMap)));
+		}
+	}
+	else if (pi == priorityMap.end() || ains.second/*is new*/)
 	{
 		priorityMap[ key] = priority;
 	}
-- 
2.43.0


From 61772dd3f6220fe7c26a89a23fda65a2ad741a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:11 +0000
Subject: [PATCH 56/77] fix: memory allocated from the upstream of a memory
 resource is never released

---
 src/memory_resource.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/memory_resource.hpp b/src/memory_resource.hpp
index 24ac975..0304313 100644
--- a/src/memory_resource.hpp
+++ b/src/memory_resource.hpp
@@ -114,7 +114,7 @@ private:
 		m_upstream = new mewa::bad_alloc_memory_resource();
 		m_ownership_upstream = true;
 #else
-		m_upstream = std::pmr::get_default_resource();
+		m_upstream = &m_default_upstream;
 #endif
 	}
 private:
@@ -150,6 +150,9 @@ private:
 	std::size_t m_index;
 	std::size_t m_size;
 	std::pmr::memory_resource* m_upstream;
+#ifndef MEWA_TEST_LOCAL_MEMORY_RESOURCE
+	std::pmr::monotonic_buffer_resource m_default_upstream; //< collects the blocks allocated from the default resource to free them in the destructor
+#endif
 	bool m_ownership_upstream;
 	bool m_ownership_baseptr;
 };
-- 
2.43.0


From 2b7bdb37200d78c0cbe7cba13ed19d14cc9fe837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:01 +0000
Subject: [PATCH 57/77] fix: exceptions reported as Lua errors are never
 released

---
 src/lualib_mewa.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/lualib_mewa.cpp b/src/lualib_mewa.cpp
index f8a2ca5..51712d0 100644
--- a/src/lualib_mewa.cpp
+++ b/src/lualib_mewa.cpp
@@ -38,6 +38,7 @@
 #include <fstream>
 #include <limits>
 #include <inttypes.h>
+#include <cxxabi.h>
 
 static int g_called_deprecated_get_type = 0;	//< Counter for calls of deprecated function typedb:get_type
 static int g_called_deprecated_get_types = 0;	//< Counter for calls of deprecated function typedb:get_types
@@ -65,6 +66,7 @@ static mewa::Error::Location getLuaScriptErrorLocation( lua_State* ls)
 	return mewa::Error::Location();
 }
 
+/// \remark Has to be called in an exception handler, does not return
 /// \note Got this idea from Jason Turner C++ Weekly Ep. 91 "Using Lippincott Functions"
 ///		See also The C++ Standard Library2ndEd. by Nicolai M. Josuttis page 50
 static void lippincottFunction( lua_State* ls)
@@ -84,26 +86,25 @@ static void lippincottFunction( lua_State* ls)
 			mewa::Error errWithLocation( err, getLuaScriptErrorLocation( ls));
 			lua_pushstring( ls, errWithLocation.what());
 		}
-		lua_error( ls);
 	}
 	catch (const std::runtime_error& err)
 	{
 		mewa::Error errWithLocation( mewa::Error::RuntimeException, err.what(), getLuaScriptErrorLocation( ls));
 		lua_pushstring( ls, errWithLocation.what());
-		lua_error( ls);
 	}
 	catch (const std::bad_alloc&)
 	{
 		mewa::Error errWithLocation( mewa::Error::MemoryAllocationError, getLuaScriptErrorLocation( ls));
 		lua_pushstring( ls, errWithLocation.what());
-		lua_error( ls);
 	}
 	catch (...)
 	{
 		mewa::Error errWithLocation( mewa::Error::UnexpectedException, getLuaScriptErrorLocation( ls));
 		lua_pushstring( ls, errWithLocation.what());
-		lua_error( ls);
 	}
+	// The jump of lua_error does not leave the handler of the caller, so the exception has to be released here:
+	abi::__cxa_end_catch();
+	lua_error( ls);
 }
 
 static int destroy_memblock( lua_State* ls)
-- 
2.43.0


From c3d99eff3e82f41ed0ca51f5a2ff79bf914ee2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:19 +0000
Subject: [PATCH 58/77] fix: tables left with references to elements not
 created if memory allocation fails

---
 src/scope.hpp  | 9 +++++++++
 src/typedb.cpp | 8 +++++---
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/scope.hpp b/src/scope.hpp
index 8013fe0..8cd7a9f 100644
--- a/src/scope.hpp
+++ b/src/scope.hpp
@@ -190,6 +190,12 @@ public:
 		return m_ar.size();
 	}
 
+	/// \brief Make sure that the next element can be added without allocation of memory
+	void reserveNext()
+	{
+		if (m_ar.size() == m_ar.capacity()) m_ar.reserve( m_ar.empty() ? 1 : m_ar.size() * 2);
+	}
+
 	int pushUpValue( const Scope scope, const VALTYPE value, int uplink)
 	{
 		int rt = m_ar.size();
@@ -438,6 +444,7 @@ public:
 		int uplink = (rightnode == m_map.end()) ? -1 : m_invtree.rightNeighborUpLink( rightnode->second, scope.upLinkScope());
 		int newindex = -1;
 
+		m_invtree.reserveNext(); //... for not having to throw after the insert in the map
 		auto ins = m_map.insert( {scope.end(), m_invtree.nextIndex()});
 		if (ins.second/*insert took place*/)
 		{
@@ -618,6 +625,7 @@ public:
 			: m_invtree.rightNeighborUpLink( rightnode->second, scope.upLinkScope());
 		int newindex = -1;
 
+		m_invtree.reserveNext(); //... for not having to throw after the insert in the map
 		auto ins = m_map.insert( {sk, m_invtree.nextIndex()} );
 		if (ins.second/*insert took place*/)
 		{
@@ -654,6 +662,7 @@ public:
 			: m_invtree.rightNeighborUpLink( rightnode->second, scope.upLinkScope());
 		int newindex = -1;
 
+		m_invtree.reserveNext(); //... for not having to throw after the insert in the map
 		auto ins = m_map.insert( {sk, m_invtree.nextIndex()});
 		if (ins.second/*insert took place*/)
 		{
diff --git a/src/typedb.cpp b/src/typedb.cpp
index aebba5a..f78d2a5 100644
--- a/src/typedb.cpp
+++ b/src/typedb.cpp
@@ -84,12 +84,14 @@ void TypeDatabase::setObjectInstance( const std::string_view& name, const Scope&
 	if (handle <= 0) throw Error( Error::InvalidHandle, string_format( "%d", handle));
 
 	int objid = m_identMap->get( name);
-	auto ins = m_objidMap->insert( {objid, m_objAr.size()});
-	if (ins.second == true/*insert took place*/)
+	auto oi = m_objidMap->find( objid);
+	if (oi == m_objidMap->end())
 	{
+		//... the element is created first, so that a failing insert does not leave an index without element in the map:
 		m_objAr.push_back( ObjectAccess( m_memory->resource_objtab(), -1/*nullval*/, m_memory->nofObjectInstanceTableInitBuckets()));
+		oi = m_objidMap->insert( {objid, (int)m_objAr.size()-1}).first;
 	}
-	m_objAr[ ins.first->second].set( scope, handle/*value*/);
+	m_objAr[ oi->second].set( scope, handle/*value*/);
 }
 
 int TypeDatabase::getObjectInstance( const std::string_view& name, const Scope::Step step) const
-- 
2.43.0


From a15bdc4d9e288600ee63a8aadaac4802be88bd1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:19 +0000
Subject: [PATCH 59/77] fix: file not closed if memory allocation fails when
 reading it

---
 src/fileio.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/fileio.cpp b/src/fileio.cpp
index 9191bf6..6375431 100644
--- a/src/fileio.cpp
+++ b/src/fileio.cpp
@@ -50,13 +50,20 @@ std::string mewa::readFile( const char* filename)
 
 	enum {RBufsize = 1<<12};
 	char rbuf[ RBufsize];
-	std::size_t nn = std::fread( rbuf, 1, RBufsize, ff);
-	for (; nn == RBufsize; nn = std::fread( rbuf, 1, RBufsize, ff))
+	try
 	{
-		rt.append( rbuf, RBufsize);
+		std::size_t nn = std::fread( rbuf, 1, RBufsize, ff);
+		for (; nn == RBufsize; nn = std::fread( rbuf, 1, RBufsize, ff))
+		{
+			rt.append( rbuf, RBufsize);
+		}
+		rt.append( rbuf, nn);
+	}
+	catch (...)
+	{
+		std::fclose( ff);
+		throw;
 	}
-	rt.append( rbuf, nn);
-
 	int eno = std::ferror( ff) ? (errno ? errno : EIO) : 0;
 	bool eof = std::feof( ff);
 	std::fclose( ff);
-- 
2.43.0


From 7becdbfea1383f93a0a7dbfa9a50c3de054adadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:32 +0000
Subject: [PATCH 60/77] fix: text truncated without error if memory allocation
 fails when composing it

---
 src/automaton_tostring.cpp   | 1 +
 src/languagedef_tostring.cpp | 1 +
 src/lua_serialize.cpp        | 1 +
 src/mewa.cpp                 | 1 +
 4 files changed, 4 insertions(+)

diff --git a/src/automaton_tostring.cpp b/src/automaton_tostring.cpp
index da069ce..a282ffb 100644
--- a/src/automaton_tostring.cpp
+++ b/src/automaton_tostring.cpp
@@ -192,6 +192,7 @@ static void printCallTable( std::ostream& outstream, const char* tablename, cons
 std::string Automaton::tostring() const
 {
 	std::ostringstream outstream;
+	outstream.exceptions( std::ios_base::badbit); //... do not ignore a failing memory allocation
 	outstream << "{\n";
 	outstream << "\tmewa = \"" << MEWA_VERSION_STRING << "\",\n";
 	if (!language().empty())
diff --git a/src/languagedef_tostring.cpp b/src/languagedef_tostring.cpp
index 4ade60a..2b34fba 100644
--- a/src/languagedef_tostring.cpp
+++ b/src/languagedef_tostring.cpp
@@ -266,6 +266,7 @@ std::string mewa::printLuaLanguageDefinition( const LanguageDef& langdef, const
 	const char* indentstr1 = ",\n\t";
 	const char* indentstr2 = ",\n\t\t";
 	std::ostringstream out;
+	out.exceptions( std::ios_base::badbit); //... do not ignore a failing memory allocation
 	out << "local languagedef = {\n";
 	out << "\tVERSION = \"" << MEWA_VERSION_STRING << "\"";
 	out << indentstr1;
diff --git a/src/lua_serialize.cpp b/src/lua_serialize.cpp
index 60fa8a1..9c0ad7a 100644
--- a/src/lua_serialize.cpp
+++ b/src/lua_serialize.cpp
@@ -319,6 +319,7 @@ std::string mewa::luaToString( lua_State* ls, int li, bool use_indent, int depth
 {
 	std::string rt;
 	std::ostringstream out;
+	out.exceptions( std::ios_base::badbit); //... do not ignore a failing memory allocation
 	serializeLuaValue( out, ls, li, use_indent ? "\n" : "", depth, 0/*level*/);
 	rt.append( out.str());
 	return rt;
diff --git a/src/mewa.cpp b/src/mewa.cpp
index 45b64c2..1093425 100644
--- a/src/mewa.cpp
+++ b/src/mewa.cpp
@@ -412,6 +412,7 @@ int main( int argc, const char* argv[] )
 			else
 			{
 				std::stringstream dbgoutstream;
+				dbgoutstream.exceptions( std::ios_base::badbit); //... do not ignore a failing memory allocation
 				automaton.build( source, warnings, Automaton::DebugOutput( dbgoutstream).enable( Automaton::DebugOutput::All));
 				std::string dbgoutput = dbgoutstream.str();
 				writeFile( debugFilename, dbgoutput);
-- 
2.43.0


From f6f4c6500c83fdd5f679897e51df7bba731b3f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:46 +0000
Subject: [PATCH 61/77] fix: terminate called if memory allocation fails when
 composing the message of an error

---
 src/lualib_mewa.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/lualib_mewa.cpp b/src/lualib_mewa.cpp
index 51712d0..1100f1c 100644
--- a/src/lualib_mewa.cpp
+++ b/src/lualib_mewa.cpp
@@ -66,10 +66,10 @@ static mewa::Error::Location getLuaScriptErrorLocation( lua_State* ls)
 	return mewa::Error::Location();
 }
 
-/// \remark Has to be called in an exception handler, does not return
+/// \brief Push the message of the exception currently handled on the Lua stack
 /// \note Got this idea from Jason Turner C++ Weekly Ep. 91 "Using Lippincott Functions"
 ///		See also The C++ Standard Library2ndEd. by Nicolai M. Josuttis page 50
-static void lippincottFunction( lua_State* ls)
+static void pushExceptionMessage( lua_State* ls)
 {
 	try
 	{
@@ -102,6 +102,21 @@ static void lippincottFunction( lua_State* ls)
 		mewa::Error errWithLocation( mewa::Error::UnexpectedException, getLuaScriptErrorLocation( ls));
 		lua_pushstring( ls, errWithLocation.what());
 	}
+}
+
+/// \remark Has to be called in an exception handler, does not return
+static void lippincottFunction( lua_State* ls)
+{
+	try
+	{
+		pushExceptionMessage( ls);
+	}
+	catch (...)
+	{
+		//... composing the message failed, because there is no memory left
+		int code = mewa::Error::MemoryAllocationError;
+		lua_pushfstring( ls, "#%d \"%s\"", code, mewa::Error::code2String( code));
+	}
 	// The jump of lua_error does not leave the handler of the caller, so the exception has to be released here:
 	abi::__cxa_end_catch();
 	lua_error( ls);
-- 
2.43.0


From 2251e1ab6c81e32f97338332b0c9605e03e16edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:41 +0000
Subject: [PATCH 62/77] fix: terminate called if memory allocation fails when
 parsing the message of an error

---
 src/error.cpp | 2 +-
 src/error.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/error.cpp b/src/error.cpp
index df82a94..5aea92c 100644
--- a/src/error.cpp
+++ b/src/error.cpp
@@ -24,7 +24,7 @@
 
 using namespace mewa;
 
-Error Error::parseError( const char* errstr) noexcept
+Error Error::parseError( const char* errstr)
 {
 	Code code_ = Ok;
 	int line_ = 0;
diff --git a/src/error.hpp b/src/error.hpp
index 6fb5017..44efa58 100644
--- a/src/error.hpp
+++ b/src/error.hpp
@@ -184,7 +184,7 @@ public:
 		return std::runtime_error::what();
 	}
 
-	static Error parseError( const char* errstr) noexcept;
+	static Error parseError( const char* errstr);
 
 public:
 	static int parseInteger( char const*& si) noexcept;
-- 
2.43.0


From 50e057344e2034a1eb0678d2a7222ce9c50f51a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:33 +0000
Subject: [PATCH 63/77] fix: terminate called if memory allocation fails when
 collecting many reductions

---
 src/scope.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scope.hpp b/src/scope.hpp
index 8cd7a9f..b20fbc4 100644
--- a/src/scope.hpp
+++ b/src/scope.hpp
@@ -906,7 +906,7 @@ public:
 		}
 	}
 
-	std::pmr::vector<ResultElement> get( const Scope::Step step, const RELNODETYPE& key, const TagMask& selectTags, std::pmr::memory_resource* res_memrsc) const noexcept
+	std::pmr::vector<ResultElement> get( const Scope::Step step, const RELNODETYPE& key, const TagMask& selectTags, std::pmr::memory_resource* res_memrsc) const
 	{
 		int local_membuffer[ 2048];
 		mewa::monotonic_buffer_resource local_memrsc( local_membuffer, sizeof local_membuffer);
-- 
2.43.0


From 8b570091eb8c5783bffc63b9304f4f229d3e46bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:29 +0000
Subject: [PATCH 64/77] fix: relation left without element in the list if
 memory allocation fails

---
 src/scope.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/scope.hpp b/src/scope.hpp
index b20fbc4..6cfb167 100644
--- a/src/scope.hpp
+++ b/src/scope.hpp
@@ -879,6 +879,7 @@ public:
 		if (!(weight >= 0.0)) throw Error( Error::BadRelationWeight, string_format("%.4f",weight));
 
 		std::uint8_t tagval = TagMask::tagValFromTag( tag);
+		if (m_list.size() == m_list.capacity()) m_list.reserve( m_list.empty() ? 1 : m_list.size() * 2); //... for not having to throw after the insert in the map
 		int newlistindex = m_list.size();
 		int li = m_map.getOrSet( scope, left, newlistindex);
 		int prev_li = -1;
-- 
2.43.0


From 1d0a5400dad2c8cdd1a1551db7ba415f792844b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:06 +0000
Subject: [PATCH 65/77] fix: lists in the table of a compiler read in hash
 order, values that are no list crash

---
 src/lua_load_automaton.cpp | 94 +++++++++++++++++++-------------------
 1 file changed, 48 insertions(+), 46 deletions(-)

diff --git a/src/lua_load_automaton.cpp b/src/lua_load_automaton.cpp
index ac1dc57..8d96032 100644
--- a/src/lua_load_automaton.cpp
+++ b/src/lua_load_automaton.cpp
@@ -66,26 +66,49 @@ static std::map<KEY,VAL> parsePackedTable( lua_State *ls, int li, const char* ta
 	return rt;
 }
 
-static std::vector<std::string> parseStringArray( lua_State *ls, int li, const std::string& tableName)
+// Get the size of the list on top of the Lua stack, that is a table having the keys 1..N
+static int parseListSize( lua_State *ls, const std::string& tableName)
 {
-	std::vector<std::string> rt;
+	if (!lua_istable( ls, -1))
+	{
+		throw mewa::Error( mewa::Error::BadValueInGeneratedLuaTable, mewa::string_format( "table '%s'", tableName.c_str()));
+	}
 	int rowcnt = 0;
+	lua_Number maxkey = 0;
 
-	lua_pushvalue( ls, li);
 	lua_pushnil( ls);
-
 	while (lua_next( ls, -2))
 	{
 		++rowcnt;
-		if (!lua_isinteger( ls, -2))
+		if (!lua_isinteger( ls, -2) || lua_tonumber( ls, -2) < 1)
 		{
 			throw mewa::Error( mewa::Error::BadKeyInGeneratedLuaTable, mewa::string_format( "table '%s', row %d", tableName.c_str(), rowcnt));
 		}
+		if (maxkey < lua_tonumber( ls, -2)) maxkey = lua_tonumber( ls, -2);
+		lua_pop( ls, 1);
+	}
+	if (maxkey > rowcnt)
+	{
+		throw mewa::Error( mewa::Error::BadKeyInGeneratedLuaTable, mewa::string_format( "table '%s', row %d", tableName.c_str(), rowcnt));
+	}
+	return rowcnt;
+}
+
+static std::vector<std::string> parseStringArray( lua_State *ls, int li, const std::string& tableName)
+{
+	std::vector<std::string> rt;
+
+	lua_pushvalue( ls, li);
+	int size = parseListSize( ls, tableName);
+
+	for (int row = 1; row <= size; ++row)
+	{
+		lua_rawgeti( ls, -1, row);
 		std::size_t vallen;
 		const char* valstr = lua_tolstring( ls, -1, &vallen);
 		if (!valstr)
 		{
-			throw mewa::Error( mewa::Error::BadValueInGeneratedLuaTable, mewa::string_format( "table '%s', row %d", tableName.c_str(), rowcnt));
+			throw mewa::Error( mewa::Error::BadValueInGeneratedLuaTable, mewa::string_format( "table '%s', row %d", tableName.c_str(), row));
 		}
 		rt.push_back( std::string( valstr, vallen));
 		lua_pop( ls, 1);
@@ -97,23 +120,18 @@ static std::vector<std::string> parseStringArray( lua_State *ls, int li, const s
 static std::vector<int> parseIntegerArray( lua_State *ls, int li, const std::string& tableName)
 {
 	std::vector<int> rt;
-	int rowcnt = 0;
 
 	lua_pushvalue( ls, li);
-	lua_pushnil( ls);
+	int size = parseListSize( ls, tableName);
 
-	while (lua_next( ls, -2))
+	for (int row = 1; row <= size; ++row)
 	{
-		++rowcnt;
-		if (!lua_isinteger( ls, -2))
-		{
-			throw mewa::Error( mewa::Error::BadKeyInGeneratedLuaTable, mewa::string_format( "table '%s', row %d", tableName.c_str(), rowcnt));
-		}
-		if (!lua_isinteger( ls, -1))
+		lua_rawgeti( ls, -1, row);
+		int val = lua_tointeger( ls, -1);
+		if (!lua_isinteger( ls, -1) || lua_tonumber( ls, -1) != val)
 		{
-			throw mewa::Error( mewa::Error::BadValueInGeneratedLuaTable, mewa::string_format( "table '%s', row %d", tableName.c_str(), rowcnt));
+			throw mewa::Error( mewa::Error::BadValueInGeneratedLuaTable, mewa::string_format( "table '%s', row %d", tableName.c_str(), row));
 		}
-		int val = lua_tointeger( ls, -1);
 		rt.push_back( val);
 		lua_pop( ls, 1);
 	}
@@ -161,16 +179,10 @@ static mewa::Lexer parseLexerDefinitions( lua_State *ls, int li, const char* tab
 		if (0==std::strcmp( keystr, "comment"))
 		{
 			lua_pushvalue( ls, -1);
-			lua_pushnil( ls);
-			int colcnt = 0;
-			while (lua_next( ls, -2))
+			int size = parseListSize( ls, mewa::string_format( "%s/%s", tableName, keystr));
+			for (int colcnt = 1; colcnt <= size; ++colcnt)
 			{
-				++colcnt;
-				if (!lua_isnumber( ls, -2) || colcnt != lua_tointeger( ls, -2))
-				{
-					throw mewa::Error( mewa::Error::BadKeyInGeneratedLuaTable,
-								mewa::string_format( "table '%s/%s', row %d col %d", tableName, keystr, rowcnt, colcnt));
-				}
+				lua_rawgeti( ls, -1, colcnt);
 				if (lua_istable( ls, -1))
 				{
 					auto arg = parseStringArray( ls, -1, mewa::string_format( "%s/%s", tableName, keystr));
@@ -209,16 +221,10 @@ static mewa::Lexer parseLexerDefinitions( lua_State *ls, int li, const char* tab
 		else if (0==std::strcmp( keystr, "token"))
 		{
 			lua_pushvalue( ls, -1);
-			lua_pushnil( ls);
-			int colcnt = 0;
-			while (lua_next( ls, -2))
+			int size = parseListSize( ls, mewa::string_format( "%s/%s", tableName, keystr));
+			for (int colcnt = 1; colcnt <= size; ++colcnt)
 			{
-				++colcnt;
-				if (!lua_isnumber( ls, -2) || colcnt != lua_tointeger( ls, -2))
-				{
-					throw mewa::Error( mewa::Error::BadKeyInGeneratedLuaTable,
-								mewa::string_format( "table '%s/%s', row %d col %d", tableName, keystr, rowcnt, colcnt));
-				}
+				lua_rawgeti( ls, -1, colcnt);
 				auto arg = parseStringArray( ls, -1, mewa::string_format( "%s/%s", tableName, keystr));
 				if (arg.size() > 3 || arg.empty())
 				{
@@ -348,23 +354,19 @@ static mewa::Automaton::Call parseCall( lua_State *ls, int li, const std::string
 static std::vector<mewa::Automaton::Call> parseCallList( lua_State *ls, int li, const std::string& tableName)
 {
 	std::vector<mewa::Automaton::Call> rt;
-	int rowcnt = 0;
 
 	lua_pushvalue( ls, li);
-	lua_pushnil( ls);
+	int size = parseListSize( ls, tableName);
 
-	while (lua_next( ls, -2))
+	for (int row = 1; row <= size; ++row)
 	{
-		++rowcnt;
-		if (!lua_isnumber( ls, -2) || rowcnt != lua_tointeger( ls, -2))
-		{
-			throw mewa::Error( mewa::Error::BadKeyInGeneratedLuaTable,
-						mewa::string_format( "table '%s', row %d", tableName.c_str(), rowcnt));
-		}
-		if (lua_istable( ls, -1))
+		lua_rawgeti( ls, -1, row);
+		if (!lua_istable( ls, -1))
 		{
-			rt.push_back( parseCall( ls, -1, tableName + "[]"));
+			throw mewa::Error( mewa::Error::BadValueInGeneratedLuaTable,
+						mewa::string_format( "table '%s', row %d", tableName.c_str(), row));
 		}
+		rt.push_back( parseCall( ls, -1, tableName + "[]"));
 		lua_pop( ls, 1);
 	}
 	lua_pop( ls, 1);
-- 
2.43.0


From 70066c18f41b7406d31ce2c2f654e807dbb6d8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:06 +0000
Subject: [PATCH 66/77] fix: token definition without pattern in the table of a
 compiler read out of bounds

---
 src/lua_load_automaton.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lua_load_automaton.cpp b/src/lua_load_automaton.cpp
index 8d96032..171d650 100644
--- a/src/lua_load_automaton.cpp
+++ b/src/lua_load_automaton.cpp
@@ -146,6 +146,7 @@ static int string2int( const std::string& value)
 	for (; *si >= '0' && *si <= '9'; ++si)
 	{
 		rt = rt * 10 + (*si - '0');
+		if (rt > 100000) break;
 	}
 	if (*si) throw mewa::Error( mewa::Error::BadValueInGeneratedLuaTable, value);
 	return rt;
@@ -226,7 +227,7 @@ static mewa::Lexer parseLexerDefinitions( lua_State *ls, int li, const char* tab
 			{
 				lua_rawgeti( ls, -1, colcnt);
 				auto arg = parseStringArray( ls, -1, mewa::string_format( "%s/%s", tableName, keystr));
-				if (arg.size() > 3 || arg.empty())
+				if (arg.size() > 3 || arg.size() < 2)
 				{
 					throw mewa::Error( mewa::Error::BadValueInGeneratedLuaTable,
 								mewa::string_format( "table '%s/%s', row %d", tableName, keystr, rowcnt));
-- 
2.43.0


From f47e41608ea58b30fc93a401035c87b4bf97edf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:06 +0000
Subject: [PATCH 67/77] fix: keys and values of the action and goto table of a
 compiler truncated

---
 src/automaton.hpp          |  7 +++++++
 src/lua_load_automaton.cpp | 20 +++++++++++++++-----
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/automaton.hpp b/src/automaton.hpp
index 433b5a4..bff8601 100644
--- a/src/automaton.hpp
+++ b/src/automaton.hpp
@@ -90,6 +90,8 @@ public:
 	class ActionKey
 	{
 	public:
+		enum {MaxPacked = (1 << (ShiftState + ShiftTerminal)) - 1};
+
 		ActionKey( int state_, int terminal_)
 			:m_state(state_),m_terminal(terminal_){}
 		ActionKey( const ActionKey& o)
@@ -122,6 +124,7 @@ public:
 	class Action
 	{
 	public:
+		enum {MaxPacked = (1 << (ShiftProductionLength + ShiftCall + ShiftState + ShiftScopeFlag + ShiftActionType)) - 1};
 		enum Type 	:char {Shift,Reduce,Accept};
 		enum ScopeFlag	:char {NoScope,Step,Scope};
 
@@ -184,6 +187,8 @@ public:
 	class GotoKey
 	{
 	public:
+		enum {MaxPacked = (1 << (ShiftState + ShiftTerminal)) - 1};
+
 		GotoKey( int state_, int nonterminal_) noexcept
 			:m_state(state_),m_nonterminal(nonterminal_){}
 		GotoKey( const GotoKey& o) noexcept
@@ -216,6 +221,8 @@ public:
 	class Goto
 	{
 	public:
+		enum {MaxPacked = MaxState - 1};
+
 		Goto() noexcept
 			:m_state(0){}
 		explicit Goto( int state_) noexcept
diff --git a/src/lua_load_automaton.cpp b/src/lua_load_automaton.cpp
index 171d650..bb3fdad 100644
--- a/src/lua_load_automaton.cpp
+++ b/src/lua_load_automaton.cpp
@@ -34,8 +34,16 @@ extern "C" {
 #error Building mewa requires C++17
 #endif
 
+// Get an integer that is a valid packed key or value, 0 if it is none
+static int parsePackedInteger( lua_State *ls, int li, int maxPacked)
+{
+	if (!lua_isinteger( ls, li)) return 0;
+	lua_Number rt = lua_tonumber( ls, li);
+	return rt >= 1 && rt <= maxPacked ? (int)rt : 0;
+}
+
 template <typename KEY, typename VAL>
-static std::map<KEY,VAL> parsePackedTable( lua_State *ls, int li, const char* tableName)
+static std::map<KEY,VAL> parsePackedTable( lua_State *ls, int li, const char* tableName, int maxPackedKey, int maxPackedVal)
 {
 	std::map<KEY,VAL> rt;
 	int rowcnt = 0;
@@ -46,12 +54,12 @@ static std::map<KEY,VAL> parsePackedTable( lua_State *ls, int li, const char* ta
 	while (lua_next( ls, -2))
 	{
 		++rowcnt;
-		int packedkey = lua_tointeger( ls, -2);
+		int packedkey = parsePackedInteger( ls, -2, maxPackedKey);
 		if (packedkey <= 0)
 		{
 			throw mewa::Error( mewa::Error::BadKeyInGeneratedLuaTable, mewa::string_format( "table '%s', row %d", tableName, rowcnt));
 		}
-		int packedval = lua_tointeger( ls, -1);
+		int packedval = parsePackedInteger( ls, -1, maxPackedVal);
 		if (packedval <= 0)
 		{
 			throw mewa::Error( mewa::Error::BadValueInGeneratedLuaTable, mewa::string_format( "table '%s', row %d", tableName, rowcnt));
@@ -483,7 +491,8 @@ mewa::Automaton mewa::luaLoadAutomaton( lua_State *ls, int li)
 				throw mewa::Error( mewa::Error::BadValueInGeneratedLuaTable,
 							mewa::string_format( "automaton definition '%s', row %d", keystr, rowcnt));
 			}
-			actions = parsePackedTable<mewa::Automaton::ActionKey,mewa::Automaton::Action>( ls, -1, keystr);
+			actions = parsePackedTable<mewa::Automaton::ActionKey,mewa::Automaton::Action>(
+					ls, -1, keystr, mewa::Automaton::ActionKey::MaxPacked, mewa::Automaton::Action::MaxPacked);
 		}
 		else if (0==std::strcmp( keystr, "gto"))
 		{
@@ -492,7 +501,8 @@ mewa::Automaton mewa::luaLoadAutomaton( lua_State *ls, int li)
 				throw mewa::Error( mewa::Error::BadValueInGeneratedLuaTable,
 							mewa::string_format( "automaton definition '%s', row %d", keystr, rowcnt));
 			}
-			gotos = parsePackedTable<mewa::Automaton::GotoKey,mewa::Automaton::Goto>( ls, -1, keystr);
+			gotos = parsePackedTable<mewa::Automaton::GotoKey,mewa::Automaton::Goto>(
+					ls, -1, keystr, mewa::Automaton::GotoKey::MaxPacked, mewa::Automaton::Goto::MaxPacked);
 		}
 		else if (0==std::strcmp( keystr, "call"))
 		{
-- 
2.43.0


From 009a937cbbdf0d3b08c05dd9811fb0d46f4c3c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:45 +0000
Subject: [PATCH 68/77] fix: endless loop or read out of bounds with references
 to nothing in the action table of a compiler

---
 src/lua_load_automaton.cpp | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/src/lua_load_automaton.cpp b/src/lua_load_automaton.cpp
index bb3fdad..d1ad35e 100644
--- a/src/lua_load_automaton.cpp
+++ b/src/lua_load_automaton.cpp
@@ -271,7 +271,7 @@ static mewa::Lexer parseLexerDefinitions( lua_State *ls, int li, const char* tab
 		else if (0==std::strcmp( keystr, "indentl"))
 		{
 			auto indentLexems = parseIntegerArray( ls, -1, mewa::string_format( "%s/%s", tableName, keystr));
-			if (indentLexems.size() != 2)
+			if (indentLexems.size() != 2 || indentLexems[0] < 1 || indentLexems[0] >= mewa::Automaton::MaxTerminal || indentLexems[1] < 0)
 			{
 				throw mewa::Error( mewa::Error::BadValueInGeneratedLuaTable,
 							mewa::string_format( "table '%s/%s'", tableName, keystr));
@@ -285,6 +285,10 @@ static mewa::Lexer parseLexerDefinitions( lua_State *ls, int li, const char* tab
 	{
 		rt.defineLexem( keyword);
 	}
+	if (rt.indentLexems().newLine > rt.nofTerminals())
+	{
+		throw mewa::Error( mewa::Error::BadValueInGeneratedLuaTable, mewa::string_format( "table '%s/indentl'", tableName));
+	}
 	return rt;
 }
 
@@ -382,6 +386,34 @@ static std::vector<mewa::Automaton::Call> parseCallList( lua_State *ls, int li,
 	return rt;
 }
 
+// Check the references in the action table, the automaton can not be run if one of them does not exist
+static void checkActions(
+		const std::map<mewa::Automaton::ActionKey,mewa::Automaton::Action>& actions,
+		int nofTerminals, int nofNonterminals, int nofCalls)
+{
+	for (auto const& [key, action] : actions)
+	{
+		bool valid = key.terminal() <= nofTerminals && action.call() <= nofCalls && action.scopeflag() <= mewa::Automaton::Action::Scope;
+		switch (action.type())
+		{
+			case mewa::Automaton::Action::Shift:
+				valid &= (key.terminal() != 0/*not end of input*/);
+				break;
+			case mewa::Automaton::Action::Reduce:
+			case mewa::Automaton::Action::Accept:
+				valid &= (action.nonterminal() >= 1 && action.nonterminal() <= nofNonterminals);
+				break;
+			default:
+				valid = false;
+		}
+		if (!valid)
+		{
+			throw mewa::Error( mewa::Error::BadValueInGeneratedLuaTable,
+						mewa::string_format( "table 'action', state %d, token %d", key.state(), key.terminal()));
+		}
+	}
+}
+
 static int parseVersion( char const* vstr)
 {
 	char const* vi = vstr;
@@ -520,6 +552,7 @@ mewa::Automaton mewa::luaLoadAutomaton( lua_State *ls, int li)
 	{
 		throw mewa::Error( mewa::Error::MissingMewaVersion);
 	}
+	checkActions( actions, lexer.nofTerminals(), nonterminals.size(), calls.size());
 	return mewa::Automaton( version, language, typesystem, cmdline, lexer, actions, gotos, calls, nonterminals);
 }
 
-- 
2.43.0


From 091f7e21c0e719164ffe7127ad6cfc6d70d11f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:45 +0000
Subject: [PATCH 69/77] fix: global variable left by a failing mewa.compiler

---
 src/lualib_mewa.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lualib_mewa.cpp b/src/lualib_mewa.cpp
index 1100f1c..6af3514 100644
--- a/src/lualib_mewa.cpp
+++ b/src/lualib_mewa.cpp
@@ -365,14 +365,14 @@ static int mewa_new_compiler( lua_State* ls)
 	}
 	catch (...) { lippincottFunction( ls); }
 
-	lua_pushliteral( ls, "call");
-	lua_gettable( ls, 1);
-	lua_setglobal( ls, cp->callTableName.buf);
 	try
 	{
 		new (&cp->automaton) mewa::Automaton( mewa::luaLoadAutomaton( ls, 1));
 	}
 	catch (...) { lippincottFunction( ls); }
+	lua_pushliteral( ls, "call");
+	lua_gettable( ls, 1);
+	lua_setglobal( ls, cp->callTableName.buf);
 
 	luaL_getmetatable( ls, mewa_compiler_userdata_t::metatableName());
 	lua_setmetatable( ls, -2);
-- 
2.43.0


From 6ee439bdbfef892def80a80be819b7e4ea316b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:02 +0000
Subject: [PATCH 70/77] fix: mewa.stacktrace raising an error if the source of
 a function is not readable

---
 src/lua_parameter.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/lua_parameter.cpp b/src/lua_parameter.cpp
index 59355a9..c56ba72 100644
--- a/src/lua_parameter.cpp
+++ b/src/lua_parameter.cpp
@@ -695,7 +695,14 @@ void mewa::lua::pushStackTrace( lua_State* ls, const char* functionName, int nn,
 		{
 			auto ins = locationMap.insert( {ar.short_src, std::vector<std::string>()} );
 			fi = ins.first;
-			if (ar.source[0] == '@') fi->second = mewa::readFileLines( ar.source+1);
+			if (ar.source[0] == '@')
+			{
+				try
+				{
+					fi->second = mewa::readFileLines( ar.source+1);
+				}
+				catch (const mewa::Error&) {} //... source not readable => function names not known
+			}
 		}
 		if (ar.linedefined >= 1 && (int)fi->second.size() >= ar.linedefined) //... else main chunk or source not available => function name not known
 		{
-- 
2.43.0


From ca8f10e9598698ffa4b9309d3281b8dd5520ee5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:02 +0000
Subject: [PATCH 71/77] fix: mewa.stacktrace taking function names from the
 wrong file if the abbreviated paths are equal

---
 src/lua_parameter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lua_parameter.cpp b/src/lua_parameter.cpp
index c56ba72..debbc9d 100644
--- a/src/lua_parameter.cpp
+++ b/src/lua_parameter.cpp
@@ -690,10 +690,10 @@ void mewa::lua::pushStackTrace( lua_State* ls, const char* functionName, int nn,
 		lua_pushliteral( ls, "file");						// STK: [STKTR] [ELEM] "file"
 		lua_pushstring( ls, ar.short_src);					// STK: [STKTR] [ELEM] "file" [FILENAME]
 		lua_rawset( ls, -3);							// STK: [STKTR] [ELEM]
-		auto fi = locationMap.find( ar.short_src);
+		auto fi = locationMap.find( ar.source);
 		if (fi == locationMap.end())
 		{
-			auto ins = locationMap.insert( {ar.short_src, std::vector<std::string>()} );
+			auto ins = locationMap.insert( {ar.source, std::vector<std::string>()} );
 			fi = ins.first;
 			if (ar.source[0] == '@')
 			{
-- 
2.43.0


From 090e9117a879202613ded8a6839ebc415e76a98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:02 +0000
Subject: [PATCH 72/77] fix: mewa.stacktrace returning abbreviated paths as
 file

---
 src/lua_parameter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lua_parameter.cpp b/src/lua_parameter.cpp
index debbc9d..f932e3f 100644
--- a/src/lua_parameter.cpp
+++ b/src/lua_parameter.cpp
@@ -688,7 +688,7 @@ void mewa::lua::pushStackTrace( lua_State* ls, const char* functionName, int nn,
 			lua_rawset( ls, -3);						// STK: [STKTR] [ELEM]
 		}
 		lua_pushliteral( ls, "file");						// STK: [STKTR] [ELEM] "file"
-		lua_pushstring( ls, ar.short_src);					// STK: [STKTR] [ELEM] "file" [FILENAME]
+		lua_pushstring( ls, ar.source[0] == '@' ? (ar.source+1) : ar.short_src);	// STK: [STKTR] [ELEM] "file" [FILENAME]
 		lua_rawset( ls, -3);							// STK: [STKTR] [ELEM]
 		auto fi = locationMap.find( ar.source);
 		if (fi == locationMap.end())
-- 
2.43.0


From 95f48cfd666fd1005047bd744fc0e4b1133ee4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:46 +0000
Subject: [PATCH 73/77] fix: missing quote in the debug output of a language
 without type system

---
 src/automaton.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/automaton.cpp b/src/automaton.cpp
index 12b030e..afdea1f 100644
--- a/src/automaton.cpp
+++ b/src/automaton.cpp
@@ -1054,8 +1054,8 @@ static void printNonterminals( const std::vector<std::string>& nonterminals, Aut
 
 static void printLanguageHeader( const std::string& language, const std::string& typesystem, Automaton::DebugOutput dbgout)
 {
-	dbgout.out() << "== Language '" << language;
-	if (!typesystem.empty()) dbgout.out() << "', type system '" << typesystem << "'";
+	dbgout.out() << "== Language '" << language << "'";
+	if (!typesystem.empty()) dbgout.out() << ", type system '" << typesystem << "'";
 	dbgout.out() << " ==" << std::endl;
 }
 
-- 
2.43.0


From 063d661d39d1c58c92d38f0ac7bc93d1f6cdb98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:46 +0000
Subject: [PATCH 74/77] fix: long function calls cut in the action table of the
 debug output

---
 src/automaton.cpp | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/automaton.cpp b/src/automaton.cpp
index afdea1f..b51a993 100644
--- a/src/automaton.cpp
+++ b/src/automaton.cpp
@@ -1234,31 +1234,25 @@ static void printStateTransitions( const Automaton& automaton, const Lexer& lexe
 
 std::string Automaton::actionString( const Action& action) const
 {
-	char buf[ 2048];
-	std::size_t len = 0;
+	std::string rt;
 	switch (action.type())
 	{
 		case Automaton::Action::Shift:
-			len = std::snprintf( buf, sizeof( buf), "%s goto %d", "Shift", action.state());
+			rt = string_format( "%s goto %d", "Shift", action.state());
 			break;
 		case Automaton::Action::Reduce:
-		{
+			rt = string_format( "%s #%d %s", "Reduce", action.count(), nonterminal( action.nonterminal()).c_str());
 			if (action.call())
 			{
-				std::string callstr = call( action.call()).tostring();
-				len = std::snprintf( buf, sizeof( buf), "%s #%d %s call %s", "Reduce", action.count(), nonterminal( action.nonterminal()).c_str(), callstr.c_str());
-			}
-			else
-			{
-				len = std::snprintf( buf, sizeof( buf), "%s #%d %s", "Reduce", action.count(), nonterminal( action.nonterminal()).c_str());
+				rt.append( " call ");
+				rt.append( call( action.call()).tostring());
 			}
 			break;
-		}
 		case Automaton::Action::Accept:
-			len = std::snprintf( buf, sizeof( buf), "%s", "Accept");
+			rt = "Accept";
+			break;
 	}
-	if (len >= sizeof(buf)) len = sizeof(buf);
-	return std::string( buf, len);
+	return rt;
 }
 
 std::string Automaton::Call::tostring() const
-- 
2.43.0


From b02c4eba255ed2538782931bac3447aeedf2f177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:24 +0000
Subject: [PATCH 75/77] fix: long messages of errors of the Lua VM cut in
 compiler:run

---
 src/lua_run_compiler.cpp | 16 +---------------
 1 file changed, 1 insertion(+), 15 deletions(-)

diff --git a/src/lua_run_compiler.cpp b/src/lua_run_compiler.cpp
index a684b08..7ef2c29 100644
--- a/src/lua_run_compiler.cpp
+++ b/src/lua_run_compiler.cpp
@@ -288,7 +288,6 @@ static mewa::Error::Code luaErrorCode2ErrorCode( int rc)
 static int lua_pcall_errorhandler( lua_State* ls)
 {
 	int line = 0;
-	char msgbuf[ 512];
 	int ridx = 1;
 	lua_Debug ar;
 
@@ -306,7 +305,6 @@ static int lua_pcall_errorhandler( lua_State* ls)
 			msgstr = lua_pushfstring( ls, "(error object is a %s value)", luaL_typename( ls, 1));
 		}
 	}
-	std::size_t msglen;
 	if (0!=std::strstr( msgstr, ".lua:"))
 	{
 		lua_pushstring( ls, msgstr);
@@ -320,19 +318,7 @@ static int lua_pcall_errorhandler( lua_State* ls)
 		if (line == 0 && ar.linedefined >= 1)
 		{
 			line = ar.linedefined;
-			if (line)
-			{
-				msglen = std::snprintf( msgbuf, sizeof(msgbuf), "%s:%d: %s", ar.short_src, line, msgstr);
-			}
-			else
-			{
-				msglen = std::snprintf( msgbuf, sizeof(msgbuf), "%s: %s", ar.short_src, msgstr);
-			}
-			if (msglen > sizeof(msgbuf))
-			{
-				msgbuf[ msglen = sizeof(msgbuf)-1] = 0;
-			}
-			lua_pushlstring( ls, msgbuf, msglen);
+			lua_pushfstring( ls, "%s:%d: %s", ar.short_src, line, msgstr);
 			return 1;
 		}
 		++ridx;
-- 
2.43.0


From c4d990aab2acacdfbf5f42c0416109e92ee0bcca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:21 +0000
Subject: [PATCH 76/77] fix: NUL byte in the source taken for the end of it

---
 src/lexer.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lexer.cpp b/src/lexer.cpp
index 4c16c56..898d688 100644
--- a/src/lexer.cpp
+++ b/src/lexer.cpp
@@ -284,8 +284,8 @@ char const* Scanner::next( int incr)
 
 bool Scanner::scan( const char* str)
 {
-	char const* end = std::strstr( m_srcitr, str);
-	return (end && next( end-m_srcitr + std::strlen(str)));
+	std::size_t end = m_src.find( str, m_srcitr - m_src.data());
+	return (end != std::string_view::npos && next( end - (m_srcitr - m_src.data()) + std::strlen(str)));
 }
 
 int Scanner::indentCount( int tabSize) const noexcept
@@ -595,7 +595,7 @@ Lexem Lexer::next( Scanner& scanner) const
 	for (;;)
 	{
 		char const* start = scanner.next();
-		if (*start == '\0')
+		if (*start == '\0' && !scanner.restsize())
 		{
 			if (m_indentLexems.defined() && scanner.getEofIndentToken() == Scanner::IndentClose)
 			{
-- 
2.43.0


From c0967ce2c43aa06647707a8fe81227ed7b6f5dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:55:31 +0000
Subject: [PATCH 77/77] fix: version of a table with a higher major version
 reported as a line number

---
 src/lua_load_automaton.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lua_load_automaton.cpp b/src/lua_load_automaton.cpp
index d1ad35e..ac8147b 100644
--- a/src/lua_load_automaton.cpp
+++ b/src/lua_load_automaton.cpp
@@ -468,7 +468,7 @@ mewa::Automaton mewa::luaLoadAutomaton( lua_State *ls, int li)
 			version = parseVersion( lua_tostring( ls, -1));
 			if (version >= ((MEWA_MAJOR_VERSION+1) * 100))
 			{
-				throw mewa::Error( mewa::Error::IncompatibleMewaMajorVersion, parseVersion( lua_tostring( ls, -1)));
+				throw mewa::Error( mewa::Error::IncompatibleMewaMajorVersion, lua_tostring( ls, -1));
 			}
 		}
 		else if (0==std::strcmp( keystr, "language"))
-- 
2.43.0

