// Independent reference for context free grammars: LALR(1) tables by lookahead propagation over LR(0) states (the textbook
// algorithm), membership and parse trees by exhaustive search over spans.  Nothing of it is shared with the code under test.
#ifndef REFLR_HPP
#define REFLR_HPP
#include <vector>
#include <iterator>
#include <algorithm>
#include <string>
#include <map>
#include <set>
#include <cstdint>
#include <functional>
#include <stdexcept>

namespace lr {

typedef uint64_t Mask;		// set of terminals; bit 0 = end of input, bit i = terminal i (1..)

struct Sym
{
	bool term; int idx;	// terminal index >= 1, nonterminal index >= 0 (0 is the start symbol)
	bool operator==( const Sym& o) const {return term == o.term && idx == o.idx;}
	bool operator<( const Sym& o) const {return term == o.term ? idx < o.idx : term < o.term;}
};
enum Assoc {NoAssoc, Left, Right};
struct Prio
{
	int value = 0; Assoc assoc = NoAssoc;
	bool defined() const {return value != 0 || assoc != NoAssoc;}
	bool operator==( const Prio& o) const {return value == o.value && assoc == o.assoc;}
};
struct Prod {int lhs; std::vector<Sym> rhs; Prio prio;};

struct Grammar
{
	int nofNt = 0, nofTerm = 0;		// terminals 1..nofTerm
	std::vector<Prod> prods;		// prods[0] is the only production of the start symbol
};

struct Tree {int prod; std::vector<Tree> sub; int tok; Tree():prod(-1),tok(-1){}};	// leaf: tok = position in the input

class Analysis
{
public:
	const Grammar& g;
	std::vector<bool> nullable; std::vector<Mask> first;
	/// emptyInFirst: model of a defect, the end of input is put into FIRST of nonterminals that can be empty
	Analysis( const Grammar& g_, bool emptyInFirst) :g(g_),nullable(g_.nofNt,false),first(g_.nofNt,0)
	{
		for (bool ch=true; ch;)
		{
			ch = false;
			for (auto const& p : g.prods)
			{
				Mask f = 0; bool nl = true;
				for (auto const& s : p.rhs)
				{
					if (s.term) {f |= (Mask)1 << s.idx; nl = false; break;}
					f |= first[ s.idx];
					if (!nullable[ s.idx]) {nl = false; break;}
				}
				if (nl && emptyInFirst) f |= 1;
				if ((first[ p.lhs] | f) != first[ p.lhs]) {first[ p.lhs] |= f; ch = true;}
				if (nl && !nullable[ p.lhs]) {nullable[ p.lhs] = true; ch = true;}
			}
		}
	}
	Mask firstOf( const Prod& p, std::size_t pos, Mask follow) const
	{
		Mask rt = 0;
		for (; pos < p.rhs.size(); ++pos)
		{
			auto const& s = p.rhs[ pos];
			if (s.term) return rt | ((Mask)1 << s.idx);
			rt |= first[ s.idx];
			if (!nullable[ s.idx]) return rt;
		}
		return rt | follow;
	}
};

typedef std::pair<int,int> Item;			// production, dot
struct State
{
	std::map<Item,Mask> kernel;
	std::map<Item,Mask> items;		// closure including the kernel
	std::map<Sym,int> go;
};
struct Action {enum T {Error, Shift, Reduce, Accept} type = Error; int arg = 0;};

class Lalr
{
public:
	const Grammar& g;
	Analysis an;
	std::vector<State> states;
	std::vector<std::map<int,Action>> action;
	std::vector<std::string> conflicts;		// conflicts priorities do not settle (or inconsistent priorities)
	int settled = 0;				// conflicts settled by priorities
	int rawConflicts = 0;				// table entries with more than one action

	/// models of defects: emptyInFirst see Analysis, mixedFollow: the lookaheads of the kernel items and of the items the closure adds are
	/// mixed if they have the same left side
	bool mixedFollow;
	explicit Lalr( const Grammar& g_, bool emptyInFirst=false, bool mixedFollow_=false) :g(g_),an(g_,emptyInFirst),mixedFollow(mixedFollow_) {construct(); table();}

private:
	void closure( State& s) const
	{
		s.items = s.kernel;
		for (bool ch=true; ch;)
		{
			ch = false;
			if (mixedFollow)
			{
				std::map<int,Mask> m;
				for (auto const& it : s.items) m[ g.prods[ it.first.first].lhs] |= it.second;
				for (auto& it : s.items) {Mask n = m[ g.prods[ it.first.first].lhs]; if (n != it.second) {it.second = n; ch = true;}}
			}
			std::vector<std::pair<Item,Mask>> cur( s.items.begin(), s.items.end());
			for (auto const& it : cur)
			{
				auto const& p = g.prods[ it.first.first];
				if (it.first.second >= (int)p.rhs.size() || p.rhs[ it.first.second].term) continue;
				Mask la = an.firstOf( p, it.first.second+1, it.second);
				int nt = p.rhs[ it.first.second].idx;
				for (std::size_t q=0; q<g.prods.size(); ++q) if (g.prods[q].lhs == nt)
				{
					auto in = s.items.insert( {Item( q, 0), 0});
					if (in.second || (in.first->second | la) != in.first->second) {in.first->second |= la; ch = true;}
				}
			}
		}
	}
	static std::vector<Item> core( const std::map<Item,Mask>& k)
	{
		std::vector<Item> rt; for (auto const& e : k) rt.push_back( e.first); return rt;
	}
	void construct()
	{
		std::map<std::vector<Item>,int> index;
		State s0; s0.kernel[ Item( 0, 0)] = 1;
		states.push_back( s0); index[ core( s0.kernel)] = 0;
		std::vector<bool> dirty( 1, true);
		for (bool any=true; any;)
		{
			any = false;
			for (std::size_t i=0; i<states.size(); ++i) if (dirty[i])
			{
				dirty[i] = false; any = true;
				closure( states[i]);
				std::map<Sym,std::map<Item,Mask>> nx;
				for (auto const& it : states[i].items)
				{
					auto const& p = g.prods[ it.first.first];
					if (it.first.second < (int)p.rhs.size()) nx[ p.rhs[ it.first.second]][ Item( it.first.first, it.first.second+1)] |= it.second;
				}
				for (auto const& e : nx)
				{
					auto c = core( e.second);
					auto f = index.find( c);
					if (f == index.end())
					{
						int n = states.size(); State ns; ns.kernel = e.second;
						states.push_back( ns); dirty.push_back( true); index[ c] = n;
						states[i].go[ e.first] = n;
					}
					else
					{
						states[i].go[ e.first] = f->second;
						for (auto const& k : e.second)
						{
							Mask& m = states[ f->second].kernel[ k.first];
							if ((m | k.second) != m) {m |= k.second; dirty[ f->second] = true;}
						}
					}
				}
			}
		}
	}
	void table()
	{
		action.resize( states.size());
		for (std::size_t i=0; i<states.size(); ++i)
		{
			auto const& s = states[i];
			for (int t=0; t<=g.nofTerm; ++t)
			{
				bool shift = false, shiftIncons = false; Prio sp; std::vector<int> red;
				for (auto const& it : s.items)
				{
					auto const& p = g.prods[ it.first.first];
					if (it.first.second < (int)p.rhs.size())
					{
						if (p.rhs[ it.first.second].term && p.rhs[ it.first.second].idx == t)
						{
							if (!shift) {shift = true; sp = p.prio;}
							else if (!(sp == p.prio)) shiftIncons = true;
						}
					}
					else if (it.second & ((Mask)1 << t)) red.push_back( it.first.first);
				}
				if (shiftIncons) conflicts.push_back( "shift priorities differ");
				if (!shift && red.empty()) continue;
				Action a;
				auto setRed = [&]( int p){a.type = p == 0 ? Action::Accept : Action::Reduce; a.arg = p;};
				if ((int)shift + (int)red.size() > 1) ++rawConflicts;
				if (red.size() > 1) conflicts.push_back( "reduce/reduce");
				if (shift && !red.empty())
				{
					auto const& rp = g.prods[ red[0]].prio;
					int win = -1; 	// 1 reduce, 0 shift
					if (!rp.defined() || !sp.defined()) win = -1;
					else if (rp.value != sp.value) win = rp.value > sp.value;
					else if (rp.assoc == sp.assoc && rp.assoc != NoAssoc) win = rp.assoc == Left;
					if (win < 0) conflicts.push_back( "shift/reduce"); else ++settled;
					if (win == 1) setRed( red[0]); else {a.type = Action::Shift; a.arg = s.go.at( Sym{true,t});}
				}
				else if (shift) {a.type = Action::Shift; a.arg = s.go.at( Sym{true,t});}
				else setRed( red[0]);
				action[i][t] = a;
			}
		}
	}

public:
	struct Result
	{
		bool accepted = false; Tree tree;
		std::size_t errpos = 0; Mask row = 0;			// position of the offending token, table row at the point of error
		std::vector<std::pair<int,std::size_t>> reductions;	// production, number of tokens shifted before
		bool looped = false;
	};
	Result parse( const std::vector<int>& input, int maxsteps=10000, bool noTree=false) const
	{
		Result rt; std::vector<int> st = {0}; std::vector<Tree> trees;
		std::size_t pos = 0; int steps = 0;
		for (;;)
		{
			if (++steps > maxsteps) {rt.looped = true; return rt;}
			int t = pos < input.size() ? input[ pos] : 0;
			auto ai = action[ st.back()].find( t);
			if (ai == action[ st.back()].end())
			{
				rt.errpos = pos;
				for (auto const& e : action[ st.back()]) rt.row |= (Mask)1 << e.first;
				return rt;
			}
			auto const& a = ai->second;
			if (a.type == Action::Shift)
			{
				if (!noTree) {Tree leaf; leaf.tok = pos; trees.push_back( leaf);} st.push_back( a.arg); ++pos;
			}
			else
			{
				auto const& p = g.prods[ a.arg];
				Tree n; n.prod = a.arg;
				if (!noTree)
				{
					n.sub.assign( std::make_move_iterator( trees.end() - p.rhs.size()), std::make_move_iterator( trees.end()));
					trees.resize( trees.size() - p.rhs.size());
				}
				st.resize( st.size() - p.rhs.size());
				rt.reductions.push_back( {a.arg, pos});
				if (a.type == Action::Accept) {rt.accepted = true; rt.tree = std::move( n); return rt;}
				if (!noTree) trees.push_back( std::move( n));
				st.push_back( states[ st.back()].go.at( Sym{false,p.lhs}));
			}
		}
	}
};

/// Number of parse trees (saturated at 2) of every nonterminal for every span of an input, by fixpoint iteration over spans of growing length
class Spans
{
	const Grammar& g; const std::vector<int>& in;
	int n; std::vector<signed char> N;
	signed char& at( int x, int i, int j) {return N[ (x * (n+1) + i) * (n+1) + j];}
	int seq( const Prod& p, int pos, int i, int j)
	{
		if (pos == (int)p.rhs.size()) return i == j;
		if (p.rhs[pos].term) return (i < j && in[i] == p.rhs[pos].idx) ? seq( p, pos+1, i+1, j) : 0;
		int c = 0;
		for (int k=i; k<=j && c < 2; ++k)
		{
			int a = at( p.rhs[pos].idx, i, k);
			if (a) c += a * seq( p, pos+1, k, j);
		}
		return c;
	}
public:
	Spans( const Grammar& g_, const std::vector<int>& in_) :g(g_),in(in_),n(in_.size()),N( g_.nofNt * (in_.size()+1) * (in_.size()+1), 0)
	{
		for (int d=0; d<=n; ++d) for (int i=0; i+d<=n; ++i) for (bool ch=true; ch;)
		{
			ch = false;
			std::vector<int> c( g.nofNt, 0);
			for (auto const& p : g.prods) c[ p.lhs] += seq( p, 0, i, i+d);
			for (int x=0; x<g.nofNt; ++x) {int v = std::min( 2, c[x]); if (v != at( x, i, i+d)) {at( x, i, i+d) = v; ch = true;}}
		}
	}
	int count() {return at( 0, 0, n);}
};

} // namespace
#endif
