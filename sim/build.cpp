// Builds the scenarios of each property: the files, the calls, and what the reference
// model says must come of them.
#include "model.h"
#include "variant.h"
#include <algorithm>
#include <cstring>
using namespace sim;

struct SB {
	Gen G;
	Rng& g;
	Scenario& s;
	std::vector<std::pair<std::string, Val>> vars;
	std::string script;
	Text sout;
	int sstate = -1;
	bool cli = false;
	char in_delim = 0;
	std::vector<std::string> cli_opts;
	std::map<std::string, std::string> fixed_files; // schema files etc: never change
	std::set<std::string> temps;
	explicit SB(Scenario& sc, uint64_t seed) : G(seed), g(G.g), s(sc) {}

	void act(const char* k, std::vector<std::string> a = {}, int h = 0)
	{
		Act x;
		x.kind = k;
		x.a = a;
		x.h = h;
		s.acts.push_back(x);
	}
	void opt(const std::string& k, const std::string& v, int h = 0) { act("opt", {k, v}, h); }
	void begin()
	{
		for (auto& t : G.w.tabs) {
			if (t->once) {
				s.cfg.stdin_data = tab_bytes(*t);
			} else {
				s.files[t->file] = tab_bytes(*t);
			}
		}
		for (auto& f : fixed_files) {
			s.files[f.first] = f.second;
		}
		push_state();
	}
	int push_state()
	{
		std::map<std::string, Text> st;
		for (auto& t : G.w.tabs) {
			if (!t->once && !(t->file[0] == '#')) {
				st[t->file] = tab_text(*t);
			}
		}
		for (auto& t : hidden) {
			st[t->file] = tab_text(*t);
		}
		for (auto& f : fixed_files) {
			st[f.first] = raw_text(f.second);
		}
		s.states.push_back(st);
		return (int)s.states.size() - 1;
	}
	// ---- statements are collected into a script; flush() makes it one call
	void stmt(const std::string& sql, const Text& out = {}, int state = -1)
	{
		script += sql + (g.chance(0.5) ? ";\n" : "\n");
		sout.insert(sout.end(), out.begin(), out.end());
		if (state >= 0) {
			sstate = state;
		}
	}
	void flush(int h = 0, const char* how = "exec")
	{
		if (script.empty()) {
			return;
		}
		Act x;
		x.h = h;
		x.chk = true;
		x.out = sout;
		x.state = sstate;
		if (cli) {
			x.kind = "cli";
			x.a = cli_opts;
			x.a.push_back("-c");
			x.a.push_back(script);
		} else {
			x.kind = how;
			x.a = {script};
		}
		s.acts.push_back(x);
		script.clear();
		sout.clear();
		sstate = -1;
		for (auto& t : hidden) {
			G.w.tabs.push_back(t);
		}
		hidden.clear();
		// temporary tables end with their script
		auto& v = G.w.tabs;
		for (size_t i = 0; i < v.size();) {
			if (v[i]->file[0] == '#') {
				G.keep.push_back(v[i]);
				v.erase(v.begin() + i);
				continue;
			}
			// read from the file, numbers are text like the rest
			bool j = false;
			for (auto& c : v[i]->cols) {
				j |= c.ty == 'J' || c.ty == 'F';
			}
			if (j) {
				auto n = std::make_shared<Tab>(*v[i]);
				for (auto& c : n->cols) {
					c.ty = c.ty == 'J' ? 'I' : c.ty == 'F' ? 'N' : c.ty;
				}
				G.keep.push_back(v[i]);
				v[i] = n;
			}
			if ((v[i]->cols.size() == 1 || !v[i]->header || v[i]->odd) && v[i]->file.compare(0, 3, "new") == 0) {
				// nothing in it tells the delimiter, or the columns: leave it alone
				sticky[v[i]->file] = tab_text(*v[i]);
				G.keep.push_back(v[i]);
				v.erase(v.begin() + i);
			} else {
				++i;
			}
		}
	}
	std::shared_ptr<Tab> plain_tab()
	{
		std::vector<std::shared_ptr<Tab>> c;
		for (auto& t : G.w.tabs) {
			if (!t->once && !t->named && !t->fixed && !t->odd && t->file[0] != '#') {
				c.push_back(t);
			}
		}
		return c.empty() ? nullptr : g.pick(c);
	}

	std::shared_ptr<Tab> named_tab()
	{
		std::vector<std::shared_ptr<Tab>> c;
		for (auto& t : G.w.tabs) {
			if (!t->once && t->named) {
				c.push_back(t);
			}
		}
		return c.empty() ? nullptr : g.pick(c);
	}

	void st_select(const QOpt& o)
	{
		Query q = G.select(o, vars.empty() ? nullptr : &vars);
		stmt(q.sql, render(q));
	}
	std::shared_ptr<Tab> st_into(QOpt o, const std::string& file)
	{
		o.into = true;
		Query q = G.select(o, vars.empty() ? nullptr : &vars);
		auto t = std::make_shared<Tab>();
		t->file = file;
		t->ref = "[" + file + "]";
		t->delim = form.delim.empty() ? q.delim : form.delim[0];
		t->odd = form.delim.size() > 1 || (form.delim.size() == 1 && !strchr(",|;:\t", form.delim[0])) || (in_delim && t->delim != in_delim);
		t->delims = form.delim.empty() ? std::string(1, t->delim) : form.delim;
		t->quotes = form.quotes;
		t->term = form.term;
		t->fixed = q.fixed;
		t->header = q.header && form.header;
		t->cols = q.cols;
		bool unknown = false; // how wide the columns are
		for (auto& c : q.cols) {
			unknown |= q.fixed && !c.width;
		}
		for (auto& gr : q.out) {
			for (auto& r : gr.rows) {
				Row x;
				x.v = r.c;
				x.raw = q.fixed ? concat(r.c) : r.use_raw ? r.raw : out_line(r.c, q.delim);
				t->rows.push_back(x);
			}
			if (gr.rows.size() > 1) {
				t->unordered = true;
			}
		}
		bool take = false;
		for (auto& gr : q.out) {
			take |= gr.take >= 0;
		}
		for (size_t i = 0; i < G.w.tabs.size(); ++i) {
			if (G.w.tabs[i]->file == file) {
				G.keep.push_back(G.w.tabs[i]);
				G.w.tabs.erase(G.w.tabs.begin() + i);
				break;
			}
		}
		int st;
		if (q.out.size() > 1 && t->unordered) {
			// exact text is known group by group
			st = state();
			s.states[st][file] = render(q);
		} else if (take) {
			st = state();
			s.states[st][file] = render(q);
			t->rows.clear();
		} else {
			G.w.tabs.push_back(t);
			st = state();
			G.w.tabs.pop_back();
		}
		if (file[0] == '#') {
			st = -1;
			s.states.pop_back();
		}
		stmt(q.sql_sel + " into [" + file + "] " + q.sql_rest, {}, st);
		bool unreadable = !q.fixed && (form.quotes == Q_WEAK || form.quotes == Q_NONE || (form.term != "\n" && form.term != "\r\n"));
		if (take || unknown || unreadable || (t->unordered && q.out.size() > 1)) {
			// which rows it holds is open: nothing reads it any more, but it stays
			G.keep.push_back(t);
			if (file[0] != '#') {
				sticky[file] = render(q);
			}
			return nullptr;
		}
		G.w.tabs.push_back(t);
		return t;
	}
	std::map<std::string, Text> sticky; // files whose exact content is partly open
	// tables that statements of the script being built cannot use
	std::vector<std::shared_ptr<Tab>> hidden;
	void hide(std::shared_ptr<Tab> t)
	{
		auto& v = G.w.tabs;
		v.erase(std::find(v.begin(), v.end(), t));
		hidden.push_back(t);
	}
	int state()
	{
		int k = push_state();
		for (auto& f : sticky) {
			s.states[k][f.first] = f.second;
		}
		return k;
	}
	struct Joined {
		std::vector<std::pair<const Tab*, std::function<bool(const Env&)>>> on;
		std::string sql;
	};
	// joined tables of an UPDATE or DELETE
	bool st_joins(const Tab* t, std::vector<std::pair<const Tab*, std::string>>& src, Joined& js)
	{
		int n = g.chance(0.25) ? 2 : 1;
		for (int i = 0; i < n; ++i) {
			auto u = t->named && g.chance(0.4) ? named_tab() : plain_tab();
			if (!u || u.get() == t || u->cols.empty()) {
				return false;
			}
			std::string al = G.fresh("y");
			int si = (int)g.below(src.size()); // left side of the condition
			const Tab* l = src[si].first;
			std::string lal = src[si].second;
			src.push_back({u.get(), al});
			int me = (int)src.size() - 1;
			bool less = t->rows.size() * u->rows.size() < 3000 && g.chance(0.15);
			char ty = less || g.chance(0.5) ? 'I' : 'K';
			int c = -1, d = -1;
			for (size_t k = 0; k < l->cols.size(); ++k) {
				c = l->cols[k].ty == ty && (c < 0 || g.chance(0.4)) ? (int)k : c;
			}
			for (size_t k = 0; k < u->cols.size(); ++k) {
				d = u->cols[k].ty == ty && (d < 0 || g.chance(0.4)) ? (int)k : d;
			}
			if (c < 0 || d < 0) {
				return false;
			}
			std::string a = lal + "." + l->cols[c].name, b = al + "." + u->cols[d].name;
			std::function<bool(const Env&)> f;
			if (less) {
				js.sql += " join " + u->ref + " " + al + " on cast(" + a + " as int) < cast(" + b + " as int)";
				f = [si, me, c, d](const Env& e) {
					return strtol(e.r[si]->v[c].c_str(), nullptr, 10) < strtol(e.r[me]->v[d].c_str(), nullptr, 10);
				};
			} else {
				js.sql += " join " + u->ref + " " + al + " on " + (g.chance(0.5) ? a + " = " + b : b + " = " + a);
				f = [si, me, c, d](const Env& e) { return cmp_nocase_rtrim(e.r[si]->v[c], e.r[me]->v[d]) == 0; };
			}
			if (g.chance(0.2)) {
				std::vector<int> ok;
				for (int k = 0; k <= me; ++k) {
					ok.push_back(k);
				}
				QOpt o;
				o.sub = false;
				Pred ex = G.pred(src, ok, 0, o, nullptr, false);
				js.sql += " and " + ex.sql;
				auto f0 = f;
				f = [f0, ex](const Env& e) { return f0(e) && ex.f(e); };
			}
			js.on.push_back({u.get(), f});
			G.keep.push_back(u);
		}
		return true;
	}
	bool matches(const Joined& js, size_t i, const Env& e, const Pred* p, std::vector<Env>& out)
	{
		if (out.size() > 200) {
			return false;
		}
		if (i == js.on.size()) {
			if (!p || p->f(e)) {
				out.push_back(e);
			}
			return true;
		}
		Env x = e;
		x.r.push_back(nullptr);
		for (auto& r : js.on[i].first->rows) {
			x.r.back() = &r;
			if (js.on[i].second(x) && !matches(js, i + 1, x, p, out)) {
				return false;
			}
		}
		return true;
	}
	// (of a table whose schema is named only by its alias)
	bool st_update(bool join = false, bool named = false)
	{
		auto t = named ? named_tab() : plain_tab();
		if (!t) {
			return false;
		}
		bool aliased = join || named || g.chance(0.1);
		std::vector<std::pair<const Tab*, std::string>> src = {{t.get(), t->ref}};
		std::string al = G.fresh("y");
		Joined js;
		if (aliased) {
			src[0].second = al;
		}
		if (join && !st_joins(t.get(), src, js)) {
			return false;
		}
		// assignments
		std::vector<int> cs;
		int ns = g.range(1, 2);
		for (int i = 0; i < ns; ++i) {
			int c = (int)g.below(t->cols.size());
			if (std::find(cs.begin(), cs.end(), c) == cs.end() && (c != 0 || g.chance(0.2)) && t->cols[c].ty != 'J' && t->cols[c].ty != 'F') {
				cs.push_back(c);
			}
		}
		if (cs.empty()) {
			return false;
		}
		std::string set;
		std::vector<std::function<Val(const Env&)>> fs;
		static const std::vector<std::string> lits = {"new", "with,comma", "q\"q", "", "two  words", "pipe|d", "x;y", "it''s"};
		for (size_t i = 0; i < cs.size(); ++i) {
			const Col& c = t->cols[cs[i]];
			std::string sql;
			std::function<Val(const Env&)> f;
			std::vector<std::pair<int, int>> same;
			for (size_t si = 0; si < src.size(); ++si) {
				for (size_t k = 0; k < src[si].first->cols.size(); ++k) {
					char ty = src[si].first->cols[k].ty;
					if (ty == c.ty || (c.ty == 'S' && ty != 'N')) {
						same.push_back({(int)si, (int)k});
					}
				}
			}
			int how = (int)g.below(3);
			std::vector<int> every;
			for (size_t si = 0; si < src.size(); ++si) {
				every.push_back((int)si);
			}
			Expr rich;
			bool computed = !t->fixed && G.richly(src);
			if (computed) {
				if (!aliased) {
					src[0].second = t->cols[0].name; // dropped below
				}
				rich = c.ty == 'I'                     ? G.rich_int(src, every, 2)
				       : c.ty == 'S' && g.chance(0.2) ? G.rich_float(src, every, 2)
				                                      : G.rich_text(src, every, 2);
				size_t k;
				while (!aliased && (k = rich.sql.find(src[0].second + ".")) != std::string::npos) {
					rich.sql.erase(k, src[0].second.size() + 1);
				}
				computed = c.ty != 'K' || rich.ty == 'K'; // stays what the model takes the column for
			}
			if (computed) {
				sql = rich.sql;
				f = rich.f;
			} else if (how == 0 && !same.empty()) {
				auto p = g.pick(same);
				Expr e = G.column(src, p.first, p.second, join);
				sql = e.sql;
				f = e.f;
			} else if (c.ty == 'I') {
				int n = g.range(0, 50);
				if (how == 1) {
					Expr e = G.column(src, 0, cs[i], join);
					auto ef = e.f;
					sql = "cast(" + e.sql + " as int) + " + std::to_string(n);
					f = [ef, n](const Env& x) {
						Val v;
						v.isint = true;
						v.i = strtol(ef(x).s.c_str(), nullptr, 10) + n;
						return v;
					};
				} else {
					sql = std::to_string(n);
					f = [n](const Env&) {
						Val v;
						v.isint = true;
						v.i = n;
						return v;
					};
				}
			} else {
				std::string l = c.ty == 'K' ? std::string("k") + std::to_string(g.range(0, 3)) : g.pick(lits);
				sql = "'" + l + "'";
				std::string val;
				for (size_t z = 0; z < l.size(); ++z) {
					val += l[z];
					if (l[z] == '\'') {
						++z;
					}
				}
				f = [val](const Env&) {
					Val v;
					v.s = val;
					return v;
				};
			}
			set += (i ? ", " : "") + c.name + " = " + sql;
			fs.push_back(f);
		}
		QOpt o;
		o.sub = !join && g.chance(0.4);
		Pred p;
		bool has = g.chance(join ? 0.5 : 0.85);
		std::vector<int> ok;
		for (size_t i = 0; i < src.size(); ++i) {
			ok.push_back((int)i);
		}
		if (has) {
			if (!aliased) {
				src[0].second = t->cols[0].name; // never used: columns are not qualified
			}
			p = pred_plain(src, ok, o);
		}
		std::vector<Row> nr;
		bool numbers = true; // still, with a value in the column that does not fill it
		for (auto& r : t->rows) {
			Env e;
			e.r = {&r};
			std::vector<Env> hits;
			if (!matches(js, 0, e, has ? &p : nullptr, hits)) {
				return false;
			}
			Row n = r;
			for (size_t h = 0; h < hits.size(); ++h) {
				Row m = r;
				for (size_t i = 0; i < cs.size(); ++i) {
					std::string v = fs[i](hits[h]).text();
					if (t->fixed) {
						size_t w = t->cols[cs[i]].width;
						if (v.size() > w) {
							return false; // does not fit: the statement fails
						}
						numbers &= t->cols[cs[i]].ty != 'I' || v.size() == w;
						v.resize(w, ' ');
					}
					m.v[cs[i]] = v;
				}
				m.raw = t->fixed ? concat(m.v) : tab_line(m.v, t->delim);
				if (h > 0 && m.v != n.v) {
					return false; // which match counts is not promised
				}
				n = m;
			}
			nr.push_back(n);
		}
		std::string sql;
		if (aliased) {
			sql = "update " + al + " set " + set + " from " + t->ref + " " + al + js.sql;
		} else {
			sql = "update " + t->ref + " set " + set;
		}
		if (has) {
			sql += " where " + p.sql;
		}
		replace(t, nr);
		for (size_t i = 0; !numbers && i < cs.size(); ++i) {
			t->cols[cs[i]].ty = 'N';
		}
		stmt(sql, {}, state());
		return true;
	}
	// a fresh table object, since closures keep looking at the old rows
	void replace(std::shared_ptr<Tab>& t, const std::vector<Row>& nr)
	{
		auto n = std::make_shared<Tab>(*t);
		n->rows = nr;
		n->no_final_nl = false;
		n->quotes = form.quotes;
		n->term = form.term;
		for (auto& x : G.w.tabs) {
			if (x == t) {
				G.keep.push_back(x);
				x = n;
				break;
			}
		}
		t = n;
	}
	Pred pred_plain(const std::vector<std::pair<const Tab*, std::string>>& src, const std::vector<int>& ok, const QOpt& o)
	{
		for (;;) {
			Pred p = G.pred(src, ok, g.range(0, 2), o, vars.empty() ? nullptr : &vars, false);
			if (src.size() == 1) {
				// unqualified columns only: drop the qualifier the generator may have put
				std::string q = src[0].second + ".";
				size_t k;
				while ((k = p.sql.find(q)) != std::string::npos) {
					p.sql.erase(k, q.size());
				}
			}
			return p;
		}
	}
	bool st_delete(bool join = false, bool named = false)
	{
		auto t = named ? named_tab() : plain_tab();
		if (!t) {
			return false;
		}
		std::vector<Row> nr;
		std::string sql;
		QOpt o;
		if (!join && !named && g.chance(0.9)) {
			std::vector<std::pair<const Tab*, std::string>> src = {{t.get(), "qqq"}};
			o.sub = g.chance(0.4);
			bool has = g.chance(0.93);
			Pred p;
			if (has) {
				p = pred_plain(src, {0}, o);
			}
			for (auto& r : t->rows) {
				Env e;
				e.r = {&r};
				if (has && !p.f(e)) {
					nr.push_back(r);
				}
			}
			sql = (g.chance(0.5) ? "delete from " : "delete ") + t->ref + (has ? " where " + p.sql : "");
		} else {
			std::string al = G.fresh("y");
			std::vector<std::pair<const Tab*, std::string>> src = {{t.get(), al}};
			Joined js;
			if (join && !st_joins(t.get(), src, js)) {
				return false;
			}
			bool has = g.chance(0.5);
			Pred p;
			o.sub = false;
			std::vector<int> ok;
			for (size_t i = 0; i < src.size(); ++i) {
				ok.push_back((int)i);
			}
			if (has) {
				p = pred_plain(src, ok, o);
			}
			for (auto& r : t->rows) {
				Env e;
				e.r = {&r};
				std::vector<Env> hits;
				if (!matches(js, 0, e, has ? &p : nullptr, hits)) {
					return false;
				}
				if (hits.empty()) {
					nr.push_back(r);
				}
			}
			sql = "delete " + al + " from " + t->ref + " " + al + js.sql + (has ? " where " + p.sql : "");
		}
		replace(t, nr);
		stmt(sql, {}, state());
		return true;
	}
	bool st_write(bool joins = true)
	{
		switch (g.below(joins ? 7 : 5)) {
		case 0:
		case 1:
			return st_update();
		case 2:
		case 3:
			return st_delete();
		case 4: {
			QOpt o;
			o.order = g.chance(0.5);
			st_into(o, "new" + std::to_string(++nnew) + ".csv");
			return true;
		}
		case 5:
			return st_update(true);
		default:
			return st_delete(true);
		}
	}
	int nnew = 0;
	// what a variable's type makes of a value
	struct VarT {
		int limit = 0; // characters
		bool bit = false;
	};
	std::map<std::string, VarT> vtypes;
	bool can_give = false;
	void typed(const std::string& n, Val& v)
	{
		auto& t = vtypes[n];
		if (t.bit) {
			v.i = v.i != 0;
		}
		if (t.limit && v.s.size() > (size_t)t.limit) {
			v.s.resize(t.limit);
		}
	}
	void st_declare()
	{
		std::string n = "@" + G.fresh("v");
		Val v;
		VarT t;
		std::string ty;
		bool given = can_give && g.chance(0.4); // from outside
		if (g.chance(0.5)) {
			v.isint = true;
			v.i = g.range(0, 12);
			std::string lit = std::to_string(v.i);
			ty = g.pick(std::vector<std::string> {"int", "int", "bigint", "bit"});
			t.bit = ty == "bit";
			vtypes[n] = t;
			typed(n, v);
			if (given && !t.bit && given_var(n, lit)) {
				stmt("declare " + n + " " + ty);
			} else {
				stmt("declare " + n + " " + ty + " = " + lit);
			}
		} else {
			v.s = g.pick(std::vector<std::string> {"ab", "cd", "xy", "Zed", "q1"});
			std::string lit = v.s;
			ty = g.pick(std::vector<std::string> {"varchar", "varchar", "text", "char", "nvarchar"});
			if (ty != "text" && g.chance(0.6)) {
				t.limit = g.range(1, 5);
				if (ty == "char") { // padded, and comparisons do not see the padding
					ty = "varchar";
				}
				ty += "(" + std::to_string(t.limit) + ")";
			}
			vtypes[n] = t;
			typed(n, v);
			if (given && !t.limit && given_var(n, lit)) {
				if (g.chance(0.5)) {
					stmt("declare " + n + " " + ty);
				}
			} else {
				stmt("declare " + n + " " + ty + " = '" + lit + "'");
			}
		}
		vars.push_back({n, v});
	}
	// give a variable its value before the script runs
	bool given_var(const std::string& n, const std::string& v)
	{
		if (!can_give || !script.empty()) {
			return false;
		}
		std::string a = n.substr(g.chance(0.5) ? 0 : 1) + (g.chance(0.2) && !cli ? " =" : "=") + v;
		if (cli) {
			cli_opts.push_back("-D");
			cli_opts.push_back(a);
		} else {
			act("import", {a});
		}
		return true;
	}
};

// ---- control flow: a block is generated once per time it runs, from the same random numbers;
// its text must come out the same each time while its meaning follows the state
struct Snap {
	Rng g;
	int names, nnew;
	std::string script;
	Text sout;
	int sstate;
	std::vector<std::shared_ptr<Tab>> tabs, hidden;
	std::map<std::string, Text> sticky;
	std::vector<std::pair<std::string, Val>> vars;
	size_t states;
	bool once;
	explicit Snap(SB& b)
	    : g(b.G.g), names(b.G.names), nnew(b.nnew), script(b.script), sout(b.sout), sstate(b.sstate), tabs(b.G.w.tabs),
	      hidden(b.hidden), sticky(b.sticky), vars(b.vars), states(b.s.states.size()), once(b.G.once_used)
	{
	}
	void rng(SB& b) const
	{
		b.G.g = g;
		b.G.names = names;
		b.nnew = nnew;
	}
	// everything but the random numbers and the names used up
	void effects(SB& b) const
	{
		for (auto& t : b.G.w.tabs) {
			b.G.keep.push_back(t);
		}
		b.script = script;
		b.sout = sout;
		b.sstate = sstate;
		b.G.w.tabs = tabs;
		b.hidden = hidden;
		b.sticky = sticky;
		b.vars = vars;
		b.s.states.resize(states);
		b.G.once_used = once;
	}
};
static void block(SB& b, int depth, int n, const QOpt& o, bool top);
static std::string text_of(SB& b, const std::function<void()>& f, bool live)
{
	Snap s(b);
	b.script.clear();
	f();
	std::string t = b.script;
	if (live) {
		b.script = s.script;
		b.vars.resize(s.vars.size()); // what a block declares ends with it
	} else {
		s.effects(b);
	}
	return t;
}
static std::vector<size_t> int_vars(SB& b)
{
	std::vector<size_t> r;
	for (size_t i = 0; i < b.vars.size(); ++i) {
		if (b.vars[i].second.isint) {
			r.push_back(i);
		}
	}
	return r;
}
// an integer that can stand in a condition, and its value
static std::pair<std::string, long> int_operand(SB& b, bool deep)
{
	auto iv = int_vars(b);
	switch (b.g.below(deep ? 7 : 3)) {
	case 0:
	case 1:
		if (!iv.empty()) {
			auto& v = b.vars[b.g.pick(iv)];
			return {v.first, v.second.i};
		}
		break;
	case 3: {
		auto x = int_operand(b, false);
		int n = b.g.range(1, 5);
		return {x.first + " + " + std::to_string(n), x.second + n};
	}
	case 4: {
		auto x = int_operand(b, false);
		int n = b.g.range(2, 3);
		return {x.first + " * " + std::to_string(n), x.second * n};
	}
	case 5: {
		auto t = b.plain_tab();
		if (t && !t->rows.empty()) {
			return {"(select count(*) from " + t->ref + ")", (long)t->rows.size()};
		}
		break;
	}
	case 6: {
		auto x = int_operand(b, false), y = int_operand(b, false);
		int p = b.g.range(0, 4), q = b.g.range(0, 4);
		return {"case when " + x.first + " > " + y.first + " then " + std::to_string(p) + " else " + std::to_string(q) + " end",
		        x.second > y.second ? p : q};
	}
	default:;
	}
	long n = b.g.range(0, 6);
	return {std::to_string(n), n};
}
static std::pair<std::string, bool> condition(SB& b, int deep)
{
	if (deep > 0 && b.g.chance(0.3)) {
		auto x = condition(b, deep - 1), y = condition(b, deep - 1);
		if (b.g.chance(0.5)) {
			return {"(" + x.first + " and " + y.first + ")", x.second && y.second};
		}
		return {"(" + x.first + " or " + y.first + ")", x.second || y.second};
	}
	std::vector<size_t> sv;
	for (size_t i = 0; i < b.vars.size(); ++i) {
		if (!b.vars[i].second.isint) {
			sv.push_back(i);
		}
	}
	if (!sv.empty() && b.g.chance(0.3)) {
		auto& v = b.vars[b.g.pick(sv)];
		std::string low = v.second.s, w = b.g.pick(std::vector<std::string> {"ab", "cd", "xy", "zed", "q1"});
		for (char& c : low) {
			c = tolower((unsigned char)c);
		}
		switch (b.g.below(3)) {
		case 0:
			return {v.first + " = '" + w + "'", low == w};
		case 1:
			return {v.first + " <> '" + w + "'", low != w};
		default:
			return {v.first + " in ('" + w + "', 'CD')", low == w || low == "cd"};
		}
	}
	auto x = int_operand(b, deep > 0);
	if (b.g.chance(0.2)) {
		long p = b.g.range(0, 6), q = b.g.range(0, 6);
		bool in = x.second == p || x.second == q, no = b.g.chance(0.4);
		return {x.first + (no ? " not in (" : " in (") + std::to_string(p) + ", " + std::to_string(q) + ")", in != no};
	}
	auto y = int_operand(b, deep > 0);
	switch (b.g.below(6)) {
	case 0:
		return {x.first + " < " + y.first, x.second < y.second};
	case 1:
		return {x.first + " > " + y.first, x.second > y.second};
	case 2:
		return {x.first + " <= " + y.first, x.second <= y.second};
	case 3:
		return {x.first + " >= " + y.first, x.second >= y.second};
	case 4:
		return {x.first + " = " + y.first, x.second == y.second};
	default:
		return {x.first + " <> " + y.first, x.second != y.second};
	}
}
static void st_if(SB& b, int depth, const QOpt& o)
{
	auto c = condition(b, 1);
	std::string cond = c.first;
	bool yes = c.second;
	auto body = [&]() { block(b, depth - 1, b.g.range(1, 2), o, false); };
	bool els = b.g.chance(0.6);
	std::string t = "if " + cond + " begin\n" + text_of(b, body, yes) + "end";
	if (els) {
		t += " else begin\n" + text_of(b, body, !yes) + "end";
	}
	b.stmt(t);
}
static void st_while(SB& b, int depth, const QOpt& o)
{
	std::string v = "@" + b.G.fresh("w");
	int m = b.g.pick(std::vector<int> {0, 1, 2, 2, 3});
	b.stmt("declare " + v + " int = 0");
	Val z;
	z.isint = true;
	int n = b.g.range(1, 2);
	Snap s0(b);
	auto go = [&](int times, std::string& text) {
		s0.effects(b);
		b.vars.push_back({v, z});
		size_t at = b.vars.size() - 1;
		text.clear();
		for (int k = 0; k < std::max(1, times); ++k) {
			s0.rng(b);
			b.vars[at].second.i = k;
			b.vars.resize(at + 1);
			std::string t = text_of(b, [&]() { block(b, depth - 1, n, o, false); }, times > 0);
			if (k && t != text) {
				return false;
			}
			text = t;
		}
		b.vars.resize(at + 1);
		b.vars[at].second.i = times;
		return true;
	};
	std::string text;
	while (!go(m, text)) {
		--m;
	}
	std::string c;
	int d = b.g.range(1, 4);
	switch (b.g.below(6)) {
	case 0:
		c = std::to_string(m) + " > " + v;
		break;
	case 1:
		c = v + " + " + std::to_string(d) + " < " + std::to_string(m + d);
		break;
	case 2:
		c = v + " <> " + std::to_string(m) + " and " + v + " * 2 < " + std::to_string(2 * m);
		break;
	case 3:
		c = "(" + v + " < " + std::to_string(m) + " or " + v + " > 90)";
		break;
	default:
		c = v + " < " + std::to_string(m);
	}
	b.stmt("while " + c + " begin\n" + text + "set " + v + " = " + v + " + 1\nend");
}
static void st_set(SB& b)
{
	if (b.vars.empty()) {
		return;
	}
	size_t k = b.g.below(b.vars.size());
	auto& v = b.vars[k];
	if (v.first[1] == 'w') {
		return; // counts a loop
	}
	if (!v.second.isint) {
		v.second.s = b.g.pick(std::vector<std::string> {"ab", "cd", "xy", "Zed", "q1"});
		b.stmt("set " + v.first + " = '" + v.second.s + "'");
		b.typed(v.first, v.second);
		return;
	}
	switch (b.g.below(3)) {
	case 0: {
		int n = b.g.range(0, 12);
		v.second.i = n;
		b.stmt("set " + v.first + " = " + std::to_string(n));
		b.typed(v.first, v.second);
		break;
	}
	case 1: {
		int n = b.g.range(1, 5);
		v.second.i += n;
		b.stmt("set " + v.first + " = " + v.first + " + " + std::to_string(n));
		b.typed(v.first, v.second);
		break;
	}
	default: {
		auto t = b.plain_tab();
		if (!t || t->rows.empty()) {
			return;
		}
		v.second.i = (long)t->rows.size();
		b.stmt("set " + v.first + " = (select count(*) from " + t->ref + ")");
		b.typed(v.first, v.second);
	}
	}
}
static void block(SB& b, int depth, int n, const QOpt& o, bool top)
{
	for (int i = 0; i < n; ++i) {
		switch (b.g.below(depth > 0 ? 9 : 6)) {
		case 0:
		case 1:
		case 2:
			b.st_select(o);
			break;
		case 3:
			if (!b.st_update(b.g.chance(0.2))) {
				b.st_select(o);
			}
			break;
		case 4:
			if (top && b.g.chance(0.5)) {
				b.st_declare();
			} else if (!b.st_delete(b.g.chance(0.2))) {
				b.st_select(o);
			}
			break;
		case 5:
			st_set(b);
			b.st_select(o);
			break;
		case 6:
			st_if(b, depth, o);
			break;
		default:
			st_while(b, depth, o);
		}
	}
}

// environment: things that must not matter
void env_vary(Scenario& s, Rng& g)
{
	s.cfg.io_seed = g.next();
	s.cfg.dir_seed = g.chance(0.5) ? g.next() | 1 : 0;
	if (g.chance(0.4)) {
		s.cfg.buf_mode = g.pick(std::vector<int> {1, 2, 7, 64, 4096});
	}
	if (g.chance(0.6)) {
		s.cfg.stdin_chunk = g.pick(std::vector<int> {1, 2, 3, 7, 64, -5, -100});
	}
}
// the same calls with one thread per step of the plan
static void make_threaded(Scenario& s, Rng& g)
{
	s.threaded = true;
	sched_pick(g, s.cfg.sched);
	for (size_t i = 0; i < s.acts.size(); ++i) {
		if (s.acts[i].kind == "new") {
			Act a;
			a.kind = "opt";
			a.a = {"threading", "1"};
			a.h = s.acts[i].h;
			s.acts.insert(s.acts.begin() + i + 1, a);
			++i;
		} else if (s.acts[i].kind == "cli") {
			s.acts[i].a.insert(s.acts[i].a.begin(), "-t");
		}
	}
}
static int pick_pf(Rng& g) { return g.pick(std::vector<int> {2, 2, 3, 4, 5, 8, 16}); }

static const QOpt Q_ALL;
static QOpt q_plain1()
{
	QOpt o;
	o.join = o.group = o.distinct = o.order = o.uni = false;
	o.must_plain = true;
	return o;
}
typedef void (*Fam)(SB&);

static void start(SB& b, bool opts = true)
{
	b.begin();
	if (b.cli) {
		if (opts && b.g.chance(0.5)) {
			b.cli_opts = {"-P", std::to_string(pick_pf(b.g))};
		}
		return;
	}
	b.act("new");
	if (opts && b.g.chance(0.7)) {
		b.opt("pipe_factor", std::to_string(pick_pf(b.g)));
	}
}
static void selects(SB& b, const QOpt& o, int ntab, int maxrows, const char* tag)
{
	b.s.tag = tag;
	b.cli = b.g.chance(0.12);
	b.G.tables(ntab, maxrows);
	start(b);
	int n = b.cli || getenv("ONE") ? 1 : b.g.range(1, 3);
	for (int i = 0; i < n; ++i) {
		b.st_select(o);
		if (b.g.chance(0.7)) {
			b.flush();
		}
	}
	b.flush();
}
static void f_plain(SB& b) { selects(b, q_plain1(), b.g.range(1, 2), b.g.pick(std::vector<int> {10, 40, 300}), "plain"); }
static void f_join(SB& b)
{
	QOpt o;
	o.must_join = true;
	o.group = o.distinct = o.uni = false;
	selects(b, o, b.g.range(1, 3), b.g.pick(std::vector<int> {6, 15, 40}), "join");
}
static void f_union(SB& b)
{
	QOpt o;
	o.must_uni = true;
	o.star = false;
	selects(b, o, b.g.range(1, 3), b.g.pick(std::vector<int> {6, 15, 60}), "union");
}
static void f_sub(SB& b)
{
	QOpt o;
	o.must_sub = true;
	selects(b, o, b.g.range(1, 3), b.g.pick(std::vector<int> {6, 15, 40}), "subquery");
}
static void f_group(SB& b)
{
	QOpt o;
	o.must_group = true;
	o.uni = false;
	o.max_src = 2;
	selects(b, o, b.g.range(1, 2), b.g.pick(std::vector<int> {8, 40, 300}), "group");
}
static void f_distinct(SB& b)
{
	QOpt o;
	o.must_distinct = true;
	o.uni = false;
	o.max_src = 2;
	selects(b, o, b.g.range(1, 2), b.g.pick(std::vector<int> {8, 40, 300}), "distinct");
}
static void f_order(SB& b)
{
	QOpt o;
	o.must_order = true;
	selects(b, o, b.g.range(1, 2), b.g.pick(std::vector<int> {8, 40, 300}), "order");
}
static void f_any(SB& b) { selects(b, Q_ALL, b.g.range(1, 3), b.g.pick(std::vector<int> {6, 20, 60}), "any"); }
static void f_step(SB& b)
{
	b.s.tag = "step";
	b.G.tables(b.g.range(1, 3), b.g.pick(std::vector<int> {6, 20, 60}));
	start(b);
	int n = b.g.range(1, 3);
	for (int i = 0; i < n; ++i) {
		QOpt o;
		o.step = true;
		o.star = true;
		Query q = b.G.select(o);
		b.act("plans", {q.sql});
		b.act("stepn", {"-1"});
		b.s.acts.back().chk = true;
		b.s.acts.back().out = render_step(q);
		if (b.g.chance(0.3)) {
			b.act("reset");
		}
	}
}
static void f_into(SB& b)
{
	b.s.tag = "into";
	b.cli = b.g.chance(0.1);
	b.G.tables(b.g.range(1, 2), b.g.pick(std::vector<int> {6, 20, 60}));
	start(b);
	int n = b.cli ? 1 : b.g.range(1, 3);
	for (int i = 0; i < n; ++i) {
		QOpt o;
		b.st_into(o, (b.g.chance(0.3) && !b.cli ? "#t" : "new") + std::to_string(i) + ".csv");
		if (b.g.chance(0.5) && !b.cli) {
			b.flush();
		}
		if (b.g.chance(0.6) && !b.cli) {
			b.st_select(Q_ALL);
		}
	}
	b.flush();
	if (!b.cli && b.g.chance(0.5)) {
		b.st_select(Q_ALL);
		b.flush();
	}
}
static void f_write(SB& b)
{
	b.s.tag = "write";
	b.cli = b.g.chance(0.1);
	b.G.tables(b.g.range(1, 3), b.g.pick(std::vector<int> {6, 20, 60}));
	start(b);
	int n = b.cli ? 1 : b.g.range(1, 4);
	bool one = !b.cli && b.g.chance(0.4); // one script
	for (int i = 0; i < n; ++i) {
		for (int k = 0; k < 5 && !b.st_write(); ++k) {
		}
		if (!one) {
			b.flush();
		}
		if (!b.cli && b.g.chance(0.5)) {
			b.st_select(Q_ALL);
			if (!one) {
				b.flush();
			}
		}
	}
	b.flush();
}
// more rows, keys and longer values than fit the first size of any buffer or table
static void f_big(SB& b)
{
	b.s.tag = "big";
	Rng& g = b.g;
	b.cli = g.chance(0.1);
	int n = g.pick(std::vector<int> {200, 520, 1030, 1030, 2100});
	b.G.many = g.pick(std::vector<int> {3, 40, 130, 300, 1100});
	b.G.longs = g.chance(0.2);
	char d = g.pick(std::vector<char> {',', ',', '|', '\t'});
	b.G.w.tabs.push_back(b.G.table("t1.csv", "p", g.range(n / 2, n), d));
	auto l = b.G.w.tabs[0];
	start(b);
	int m = b.cli ? 1 : g.range(1, 3);
	for (int i = 0; i < m; ++i) {
		QOpt o;
		o.join = o.cart = o.left = o.sub = o.insub = false;
		switch (g.below(8)) {
		case 0:
			b.st_update();
			break;
		case 1:
			b.st_delete();
			break;
		case 2: {
			auto t = b.st_into(o, "new" + std::to_string(i) + ".csv");
			if (t && !b.cli) {
				b.st_select(o);
			}
			break;
		}
		case 3:
			o.must_group = true;
			b.st_select(o);
			break;
		case 4:
			o.must_distinct = true;
			b.st_select(o);
			break;
		case 5:
			o.must_order = true;
			b.st_select(o);
			break;
		case 6: {
			o.insub = true;
			b.st_select(o);
			break;
		}
		default: { // every row meets the one of the same number, if it is there
			auto t = b.G.w.find("t1.csv");
			bool left = g.chance(0.4), ord = g.chance(0.4);
			int cut = g.range(0, 5);
			std::string c = t->cols[0].name, k = t->cols[1].name;
			std::map<std::string, std::vector<const Row*>> by;
			for (auto& r : t->rows) {
				if (r.v[0].size() && r.v[0].back() - '0' >= cut) {
					by[r.v[0]].push_back(&r);
				}
			}
			Query q;
			q.cols = {{c, 'I'}, {k, 'K'}};
			q.delim = t->delim;
			QGroup gr;
			bool uniq = true;
			for (auto& r : t->rows) {
				auto it = by.find(r.v[0]);
				if (it == by.end()) {
					if (left) {
						Cells x;
						x.c = {r.v[0], ""};
						gr.rows.push_back(x);
					}
					continue;
				}
				uniq &= it->second.size() == 1;
				for (auto* y : it->second) {
					Cells x;
					x.c = {r.v[0], y->v[1]};
					gr.rows.push_back(x);
				}
			}
			if (ord && uniq) {
				std::stable_sort(gr.rows.begin(), gr.rows.end(),
				                 [](const Cells& a, const Cells& z) { return strtol(a.c[0].c_str(), nullptr, 10) < strtol(z.c[0].c_str(), nullptr, 10); });
				for (auto& r : gr.rows) {
					QGroup one;
					one.rows.push_back(r);
					q.out.push_back(one);
				}
			} else {
				q.out.push_back(gr);
			}
			std::string sub = cut ? "(select * from " + t->ref + " where right(" + c + ", 1) >= '" + std::to_string(cut) + "')" : t->ref;
			std::string s = "select a." + c + ", b." + k + " from " + t->ref + " a " + (left ? "left " : "") + "join " + sub + " b on a." + c + " = b."
			                + c + (ord && uniq ? " order by cast(a." + c + " as int)" : "");
			b.stmt(s, render(q));
		}
		}
		if (g.chance(0.7)) {
			b.flush();
		}
	}
	b.flush();
}
// how the output is written is set
static void f_out(SB& b)
{
	b.s.tag = "out";
	Rng& g = b.g;
	b.G.no_null = true;
	b.cli = g.chance(0.15);
	b.G.tables(g.range(1, 2), g.pick(std::vector<int> {4, 12, 40}));
	char in = g.chance(0.25) ? g.pick(std::vector<char> {'/', '^', '~', '|', ':'}) : 0;
	if (in) {
		for (auto& t : b.G.w.tabs) {
			t->delim = in;
			for (auto& r : t->rows) {
				r.raw = line_of(r.v, in);
			}
		}
		b.in_delim = in;
	}
	b.begin();
	if (!b.cli) {
		b.act("new");
	}
	auto set = [&](const char* k, const std::string& v, const std::vector<std::string>& c) {
		if (b.cli) {
			b.cli_opts.insert(b.cli_opts.end(), c.begin(), c.end());
		} else {
			b.opt(k, v);
		}
	};
	if (in) {
		set("in_delim", std::string(1, in), {"-s", std::string(1, in)});
	}
	bool first = true;
	auto settings = [&]() {
		if (g.chance(0.6)) {
			std::string v = std::to_string(pick_pf(g));
			set("pipe_factor", v, {"-P", v});
		}
		if (g.chance(0.6)) {
			form.delim = g.pick(std::vector<std::string> {",", "|", ";", "\t", "<>", "||", ":", " | ", "/"});
			set("out_delim", form.delim, {"-S", form.delim});
		}
		if (g.chance(0.5)) {
			static const char* const n[] = {"RFC4180", "all", "WEAK", "None"};
			form.quotes = g.pick(std::vector<int> {0, 1, 1, 2, 3});
			set("out_std", n[form.quotes], {"--out-std", n[form.quotes]});
		}
		switch (g.below(5)) {
		case 0:
			form.term = "\r\n";
			set("crlf", "1", {"-W"});
			break;
		case 1:
			if (!first) {
				form.term = "\n";
				set("crlf", "0", {});
			}
			break;
		case 2:
			form.term = g.pick(std::vector<std::string> {"\r\n", "@@\n", "~", ";;"});
			set("rec_term", form.term, {"-R", form.term});
			break;
		default:;
		}
		if (g.chance(0.4)) {
			form.header = !form.header;
			set("print_header", form.header ? "1" : "0", {"-h"});
		}
		first = false;
	};
	settings();
	int n = b.cli ? 1 : g.range(1, 4);
	for (int i = 0; i < n; ++i) {
		QOpt o = Q_ALL;
		if (form.quotes == Q_QALL) { // tells no value from an empty one
			o.left = o.scalar_sub = false;
		}
		bool tables = form.quotes != Q_WEAK && form.quotes != Q_NONE && (form.term == "\n" || form.term == "\r\n");
		switch (g.below(tables ? 6 : 4)) {
		case 4:
			b.st_update(g.chance(0.3));
			break;
		case 5:
			b.st_delete(g.chance(0.3));
			break;
		case 3:
			if (b.st_into(o, "new" + std::to_string(++b.nnew)) && !b.cli) {
				b.st_select(o);
			}
			break;
		default:
			b.st_select(o);
		}
		if (!b.cli && g.chance(0.6)) {
			b.flush();
			if (g.chance(0.4)) {
				settings();
			}
		}
	}
	b.flush();
}
// expressions of some depth in every clause
static void f_expr(SB& b)
{
	b.s.tag = "expr";
	Rng& g = b.g;
	b.G.rich = 0.85;
	b.cli = g.chance(0.1);
	b.G.tables(g.range(1, 3), g.pick(std::vector<int> {6, 20, 60}));
	start(b);
	if (g.chance(0.2)) {
		b.G.bytes = true;
		if (b.cli) {
			b.cli_opts.push_back("-b");
		} else {
			b.opt("char_as_byte", "1");
		}
	}
	int n = b.cli ? 1 : g.range(1, 4);
	bool one = !b.cli && g.chance(0.25);
	for (int i = 0; i < n; ++i) {
		QOpt o;
		o.max_src = 2;
		switch (g.below(12)) {
		case 0:
		case 1:
			o.must_group = true;
			o.uni = false;
			break;
		case 2:
			o.must_distinct = true;
			o.uni = false;
			break;
		case 3:
		case 4:
			o.must_order = true;
			break;
		case 5:
			o.must_join = true;
			break;
		case 6:
			o.must_sub = true;
			break;
		case 7:
			o = q_plain1();
			break;
		default:;
		}
		switch (g.below(8)) {
		case 0:
			b.st_update(g.chance(0.2));
			break;
		case 1:
			b.st_delete(g.chance(0.2));
			break;
		case 2:
			if (b.st_into(o, "new" + std::to_string(++b.nnew)) && !b.cli) {
				b.st_select(o);
			}
			break;
		default:
			b.st_select(o);
		}
		if (!one) {
			b.flush();
		}
	}
	b.flush();
}
static void f_script(SB& b)
{
	b.s.tag = "script";
	b.cli = b.g.chance(0.1);
	b.G.tables(b.g.range(1, 2), b.g.pick(std::vector<int> {5, 12, 30}));
	start(b);
	int n = b.g.range(1, 3);
	for (int i = 0; i < n; ++i) {
		auto t = b.plain_tab();
		switch (b.g.below(6)) {
		case 0:
			b.st_declare();
			b.st_select(Q_ALL);
			break;
		case 1: {
			// counting loop
			std::string v = "@" + b.G.fresh("i");
			int m = b.g.range(0, 4);
			b.stmt("declare " + v + " int = 0");
			Text out;
			for (int k = 0; k < m; ++k) {
				Query q;
				q.cols = {{"", 'I'}};
				QGroup gr;
				Cells c;
				c.c = {std::to_string(k)};
				gr.rows.push_back(c);
				q.out.push_back(gr);
				Text x = render(q);
				out.insert(out.end(), x.begin(), x.end());
			}
			b.stmt("while " + v + " < " + std::to_string(m) + " begin select " + v + " set " + v + " = " + v + " + 1 end", out);
			break;
		}
		case 2: {
			// update in a loop: every pass sees the previous one's result
			if (t->cols.size() < 3 || t->cols[2].ty != 'I') {
				break;
			}
			std::string v = "@" + b.G.fresh("i");
			int m = b.g.range(1, 4);
			int d = b.g.range(1, 9);
			std::vector<Row> nr = t->rows;
			std::vector<int> sts;
			b.stmt("declare " + v + " int = 0");
			for (int k = 0; k < m; ++k) {
				for (auto& r : nr) {
					r.v[2] = std::to_string(strtol(r.v[2].c_str(), nullptr, 10) + d);
					r.raw = line_of(r.v, t->delim);
				}
				b.replace(t, nr);
				b.sstate = b.state();
			}
			b.stmt("while " + v + " < " + std::to_string(m) + " begin update " + t->ref + " set " + t->cols[2].name + " = cast("
			       + t->cols[2].name + " as int) + " + std::to_string(d) + " set " + v + " = " + v + " + 1 end");
			b.st_select(Q_ALL);
			break;
		}
		case 3: {
			// the split of the manual: one file per key
			if (t->cols.size() < 2 || t->cols[1].ty != 'K') {
				break;
			}
			std::string sv = "@" + b.G.fresh("k"), fv = "@" + b.G.fresh("f"), tmp = "#" + b.G.fresh("list");
			std::map<std::string, std::vector<Row>> by;
			std::map<std::string, std::string> spell;
			bool lower = true;
			for (auto& r : t->rows) {
				std::string k = r.v[1];
				for (char& c : k) {
					lower = lower && !isupper((unsigned char)c);
				}
				by[k].push_back(r);
			}
			if (!lower || t->unordered || by.size() > 6 || t->cols[1].ty != 'K') {
				break;
			}
			for (auto& f : by) {
				(void)f;
			}
			std::string pre = b.G.fresh("part_");
			std::vector<std::shared_ptr<Tab>> parts;
			const std::string& kc = t->cols[1].name;
			b.stmt("select distinct " + kc + " kk into [" + tmp + "] from " + t->ref);
			b.stmt("declare " + sv + " varchar = (select top 1 kk from [" + tmp + "] order by kk)");
			b.stmt("declare " + fv + " varchar = '" + pre + "_' + " + sv + " + '.txt'");
			for (auto& f : by) {
				auto n = std::make_shared<Tab>();
				n->file = pre + "_" + f.first + ".txt";
				n->ref = "[" + n->file + "]";
				n->delim = t->delim;
				n->cols = t->cols;
				n->rows = f.second;
				for (auto& r : n->rows) {
					r.raw = line_of(r.v, t->delim);
				}
				n->unordered = t->unordered;
				parts.push_back(n);
				b.G.w.tabs.push_back(n);
				b.sstate = b.state();
			}
			for (auto& n : parts) { // their names are not known before the script runs
				b.hide(n);
			}
			b.stmt("while " + sv + " is not null begin select * into " + fv + " from " + t->ref + " where " + kc + " = " + sv
			       + " set " + sv + " = (select top 1 kk from [" + tmp + "] where kk > " + sv + " order by kk) set " + fv + " = '" + pre
			       + "_' + " + sv + " + '.txt' end");
			break;
		}
		case 4: {
			// branches
			long n2 = (long)t->rows.size(), lim = b.g.range(0, 10);
			Query qa = b.G.select(q_plain1()), qb = b.G.select(q_plain1());
			std::string v = "@" + b.G.fresh("c");
			if (n2 == 0) {
				break;
			}
			b.stmt("declare " + v + " int = (select count(*) from " + t->ref + ")");
			b.stmt("if " + v + " > " + std::to_string(lim) + " " + qa.sql + " else " + qb.sql, render(n2 > lim ? qa : qb));
			break;
		}
		default:
			for (int k = 0; k < 5 && !b.st_write(); ++k) {
			}
			b.st_select(Q_ALL);
		}
		if (!b.cli && b.g.chance(0.3)) {
			b.flush();
			b.vars.clear();
		}
	}
	b.flush();
}
static void f_flow(SB& b)
{
	b.s.tag = "flow";
	b.cli = b.g.chance(0.1);
	b.G.tables(b.g.range(1, 3), b.g.pick(std::vector<int> {4, 8, 20}));
	start(b);
	int n = b.cli ? 1 : b.g.range(1, 2);
	for (int i = 0; i < n; ++i) {
		b.vars.clear();
		if (b.g.chance(0.7)) {
			b.can_give = i == 0;
			b.st_declare();
			b.can_give = false;
		}
		QOpt o;
		block(b, b.g.range(1, 2), b.g.range(1, 3), o, true);
		b.flush();
	}
}
static void f_stdin(SB& b)
{
	b.s.tag = "stdin";
	b.cli = b.g.chance(0.3);
	b.G.tables(b.g.range(0, 2), b.g.pick(std::vector<int> {5, 15, 40}));
	auto t = b.G.table("", "s", b.g.range(0, b.g.pick(std::vector<int> {4, 20, 80})), b.g.pick(std::vector<char> {',', ',', '|', ';', '\t'}));
	t->file = "<stdin>";
	t->ref = "__stdin";
	t->once = true;
	b.G.w.tabs.push_back(t);
	start(b);
	if (!b.cli) {
		b.opt("allow_stdin", "1");
	}
	b.G.once_first = b.g.chance(0.6);
	QOpt o;
	o.uni = b.g.chance(0.3);
	Query q;
	q = b.G.select(o);
	b.stmt(q.sql, render(q));
	b.flush();
}

// ---- files without header, described by schema files: of fixed width or delimited
static void f_schema(SB& b)
{
	b.s.tag = "schema";
	Rng& g = b.g;
	b.cli = g.chance(0.1);
	int maxrows = g.pick(std::vector<int> {4, 12, 40});
	b.G.tables(g.range(0, 1), maxrows);
	bool in = g.chance(0.25);
	int n = in ? 2 : g.range(1, 2);
	for (int i = 0; i < n; ++i) {
		bool fixed = g.chance(0.6);
		std::string sch = "sch" + std::to_string(i), text;
		bool last = in && i == n - 1;
		auto t = b.G.named_table(last ? "" : "n" + std::to_string(i) + (fixed ? ".fix" : ".csv"), sch, std::string(1, "st"[i]),
		                         g.range(0, maxrows), fixed, text);
		if (last) {
			t->file = "<stdin>";
		}
		b.G.w.tabs.push_back(t);
		b.fixed_files[sch] = text;
	}
	bool bad = !b.cli && !in && g.chance(0.35); // a schema file that makes no sense
	if (bad) {
		b.fixed_files["badsch"] = g.pick(std::vector<std::string> {"", "a\nb,2,char\n", "a,x,char\n", "a,0,char\nb,2,char\n", "a,2,char\nb\n",
		                                                          "a,2,char,b\n", "a = b\n", "a,-2,char\n"});
	}
	start(b);
	if (in && !b.cli) {
		b.opt("allow_stdin", "1");
	}
	b.G.once_first = g.chance(0.5);
	int m = b.cli ? 1 : g.range(1, 4);
	bool one = !b.cli && g.chance(0.4);
	for (int i = 0; i < m; ++i) {
		switch (g.below(8)) {
		case 0:
			b.st_update(g.chance(0.3), true);
			break;
		case 1:
			b.st_delete(g.chance(0.3), true);
			break;
		case 2: {
			QOpt o;
			o.order = g.chance(0.5);
			b.st_into(o, "new" + std::to_string(++b.nnew));
			break;
		}
		default:
			b.st_select(Q_ALL);
		}
		if (!one) {
			b.flush();
		}
		if (bad && g.chance(0.6)) {
			b.flush();
			std::string f = g.pick(b.G.w.tabs)->file;
			std::string fr = "badsch.[" + f + "]";
			b.act("exec", {g.pick(std::vector<std::string> {"select * from " + fr, "select 1 from " + fr + " x join " + fr + " y on x.a = y.a",
			                                               "select * from (select * from " + fr + ") x", "delete x from " + fr + " x",
			                                               "select * into [newbad] from " + fr})});
			b.s.acts.back().ret = -1;
			b.s.acts.back().chk = true;
		}
	}
	b.flush();
}

// ---- handles: what fails, is abandoned or reset leaves nothing behind
struct Life {
	SB& b;
	struct Open {
		bool live = false;
		std::vector<Text> rows; // one per row still to come
		size_t at = 0;
	} open[2];
	explicit Life(SB& x) : b(x) {}

	void bad_stmt(int h)
	{
		Rng& g = b.g;
		std::string t = "t1", file = "t1";
		std::vector<std::string> cols;
		if (auto p = b.plain_tab()) {
			t = p->ref;
			file = p->file;
			for (auto& c : p->cols) {
				cols.push_back(c.name);
			}
		}
		if (cols.empty()) {
			cols.push_back("pid");
		}
		std::string c = g.pick(cols);
		std::vector<std::string> v = {
		        "select nosuch from " + t,
		        "select " + c + " from nosuchtable",
		        "select x.nosuch from " + t + " x",
		        "select zz." + c + " from " + t + " x",
		        "select " + c + " from " + t + " where nosuch = 3",
		        "select " + c + " from " + t + " where",
		        "selec " + c + " from " + t,
		        "select " + c + " from " + t + " group by nosuch",
		        "select " + c + " from " + t + " order by nosuch",
		        "select " + c + ", count(*) from " + t,
		        "select @nope from " + t,
		        "set @nope = 3",
		        "declare @a int declare @a int",
		        "select " + c + " into [" + file + "] from " + t,
		        "select upper(" + c + ") from " + t,
		        "select count(*) from " + t + " group by upper(" + c + ")",
		        "select " + c + " from " + t + " where 5 like 3",
		        "select case when 5 like 3 then 1 else 2 end from " + t,
		        "select " + c + " from " + t + " where " + c + " between 'a' and 'b'",
		        "if 5 like 3 select 1",
		        "if nosuch = 1 select 1",
		        "update " + t + " set nosuch = 'x'",
		        "update nosuchtable set a = 'x'",
		        "delete from nosuchtable where a = 'x'",
		        "delete from " + t + " where nosuch = 'x'",
		        "select * from (select " + c + " from nosuchtable) x",
		        "select * from (select nosuch from " + t + ") x",
		        "select " + c + " from " + t + " where " + c + " in (select nosuch from " + t + ")",
		        "select * from __stdin",
		        "select " + c + " from " + t + " union all select " + c + ", " + c + " from " + t,
		        "select 'a",
		        "if 1 = 1 begin select 1",
		        "while nosuch = 1 select 1",
		        "select x." + c + " from " + t + " x join " + t + " y on x." + c + " = y.nosuch",
		        "select x." + c + " from " + t + " x left join " + t + " y on x." + c + " < y." + c,
		};
		std::string pre, into;
		if (g.chance(0.4)) { // what comes first in a script does not run either
			std::vector<std::string> p = {"select " + c + " from " + t, "select " + c + " into [newx.csv] from " + t,
			                              "update " + t + " set " + c + " = 'changed'", "delete from " + t,
			                              "declare @v1 int = 5", "select " + c + " into [#tx.csv] from " + t};
			pre = g.pick(p) + ";\n";
		}
		b.act("exec", {pre + g.pick(v)}, h);
		Act& a = b.s.acts.back();
		if (g.chance(0.2)) {
			a.kind = "plans";
		}
		a.ret = -1;
		a.chk = true;
	}
	void good(int h, bool allow_temp)
	{
		Rng& g = b.g;
		switch (g.below(6)) {
		case 0:
			b.st_into(Q_ALL, "new" + std::to_string(b.s.acts.size()) + ".csv");
			break;
		case 1:
			if (allow_temp) {
				b.st_into(Q_ALL, "#t" + std::to_string(b.s.acts.size()) + ".csv");
				b.st_select(Q_ALL);
				break;
			}
			// fallthrough
		case 2:
			if (b.st_write()) {
				break;
			}
			// fallthrough
		case 3:
			b.st_declare();
			b.st_select(Q_ALL);
			break;
		default:
			b.st_select(Q_ALL);
		}
		b.flush(h);
		b.vars.clear();
	}
	bool begin_step(int h)
	{
		for (int k = 0; k < 6; ++k) {
			QOpt o;
			o.step = true;
			o.join = b.g.chance(0.3);
			o.group = o.distinct = o.uni = false;
			o.must_order = b.g.chance(0.4);
			Query q = b.G.select(o);
			std::vector<Text> rows;
			bool ok = true;
			for (auto& gr : render_step(q)) {
				if (gr.lines.size() > 1 || gr.take >= 0) {
					ok = false;
					break;
				}
				if (!gr.lines.empty()) {
					rows.push_back({gr});
				}
			}
			if (!ok || rows.size() < 2) {
				continue;
			}
			std::string pre;
			if (b.g.chance(0.2)) {
				// carried out on the way to the rows
				std::string src = b.plain_tab() ? b.plain_tab()->ref : "";
				if (!src.empty()) {
					pre = "select * into [#z" + std::to_string(b.s.acts.size()) + ".csv] from " + src + ";\n";
				}
			}
			b.act("plans", {pre + q.sql}, h);
			open[h].live = true;
			open[h].rows = rows;
			open[h].at = 0;
			return true;
		}
		return false;
	}
	void step(int h)
	{
		Open& o = open[h];
		size_t left = o.rows.size() - o.at;
		bool all = b.g.chance(0.4) || left < 2;
		size_t n = all ? left : (size_t)b.g.range(1, (int)left - 1);
		b.act("stepn", {all ? "-1" : std::to_string(n)}, h);
		Act& a = b.s.acts.back();
		a.chk = true;
		for (size_t i = 0; i < n; ++i) {
			a.out.insert(a.out.end(), o.rows[o.at + i].begin(), o.rows[o.at + i].end());
		}
		o.at += n;
		if (all) {
			o.live = false;
		}
	}
};
static void f_life(SB& b)
{
	b.s.tag = "life";
	b.G.tables(b.g.range(1, 3), b.g.pick(std::vector<int> {4, 12, 40}));
	start(b);
	int nh = b.g.chance(0.6) ? 2 : 1;
	if (nh == 2) {
		b.act("new", {}, 1);
		if (b.g.chance(0.7)) {
			b.opt("pipe_factor", std::to_string(pick_pf(b.g)), 1);
		}
	}
	Life l(b);
	bool there[2] = {true, nh == 2};
	int n = b.g.range(4, 12);
	for (int i = 0; i < n && b.s.acts.size() < 28; ++i) {
		int h = (int)b.g.below(nh);
		if (!there[h]) {
			b.act("new", {}, h);
			there[h] = true;
		}
		if (l.open[h].live) {
			if (b.g.chance(0.2)) {
				b.act(b.g.chance(0.7) ? "reset" : "free", {}, h);
				there[h] = b.s.acts.back().kind != "free";
				l.open[h].live = false;
			} else {
				l.step(h);
			}
			continue;
		}
		int k = (int)b.g.below(10);
		if (k < 3) {
			l.bad_stmt(h);
		} else if (k < 6) {
			if (!l.begin_step(h)) {
				l.good(h, true);
			}
		} else if (k < 7) {
			b.act(b.g.chance(0.7) ? "reset" : "free", {}, h);
			there[h] = b.s.acts.back().kind != "free";
		} else {
			l.good(h, true);
		}
	}
	for (int h = 0; h < nh; ++h) {
		if (!there[h]) {
			b.act("new", {}, h);
		}
		if (l.open[h].live) {
			b.act("reset", {}, h);
		}
		b.st_select(Q_ALL);
		b.flush(h);
	}
}

// the same with a failure of the system in one of the calls: the others do not notice
static void f_life_ro(SB& b)
{
	b.s.tag = "life_fault";
	b.G.tables(b.g.range(1, 3), b.g.pick(std::vector<int> {4, 12, 40}));
	start(b);
	int nh = b.g.chance(0.5) ? 2 : 1;
	if (nh == 2) {
		b.act("new", {}, 1);
	}
	Life l(b);
	int n = b.g.range(3, 8);
	for (int i = 0; i < n && b.s.acts.size() < 28; ++i) {
		int h = (int)b.g.below(nh);
		if (b.g.chance(0.2)) {
			l.bad_stmt(h);
			continue;
		}
		for (int k = b.g.range(1, 2); k > 0; --k) {
			b.st_select(Q_ALL);
		}
		b.flush(h);
	}
	for (int h = 0; h < nh; ++h) {
		b.st_select(Q_ALL);
		b.flush(h);
	}
	b.s.stop_on_fail = false;
	b.s.fault_once = true;
	b.s.no_threads = true;
	b.s.mode = M_RERR;
}

// ---- which file a name stands for
struct Names {
	SB& b;
	bool strict = false;
	explicit Names(SB& x) : b(x) {}
	static std::string low(std::string s)
	{
		for (char& c : s) {
			c = (char)tolower((unsigned char)c);
		}
		return s;
	}
	static std::string noext(const std::string& s)
	{
		size_t p = s.rfind('.');
		return p == std::string::npos ? s : s.substr(0, p);
	}
	static std::pair<std::string, std::string> split(const std::string& s)
	{
		size_t p = s.rfind('/');
		if (p == std::string::npos) {
			return {"", s};
		}
		std::string d = s.substr(0, p);
		return {d == "." ? "" : d.compare(0, 2, "./") == 0 ? d.substr(2) : d, s.substr(p + 1)};
	}
	std::shared_ptr<Tab> resolve(const std::string& name)
	{
		auto w = split(name);
		std::string base = w.second;
		typedef std::function<bool(const std::string&)> F;
		std::vector<F> rules = {[&](const std::string& f) { return f == base; },
		                        [&](const std::string& f) { return low(f) == low(base); },
		                        [&](const std::string& f) { return noext(f) == base; },
		                        [&](const std::string& f) { return low(noext(f)) == low(base); }};
		for (size_t r = 0; r < (strict ? 1 : rules.size()); ++r) {
			std::vector<std::shared_ptr<Tab>> m;
			for (auto& t : b.G.w.tabs) {
				auto f = split(t->file);
				if (f.first == w.first && rules[r](f.second)) {
					m.push_back(t);
				}
			}
			if (!m.empty()) {
				return m.size() == 1 ? m[0] : nullptr;
			}
		}
		return nullptr;
	}
};
static void f_names(SB& b)
{
	b.s.tag = "names";
	Rng& g = b.g;
	Names nm(b);
	std::string base = g.pick(std::vector<std::string> {"data", "tab", "x.y"});
	std::vector<std::string> bases = {base, base, base, base};
	bases[1][0] = (char)toupper(base[0]);
	for (char& c : bases[2]) {
		c = (char)toupper((unsigned char)c);
	}
	bases[3] += "2";
	static const std::vector<std::string> exts = {"", ".csv", ".txt", ".CSV", ".old.csv"};
	bool dirs = g.chance(0.3);
	auto name = [&]() {
		return (dirs && g.chance(0.4) ? "sub/" : "") + g.pick(bases) + g.pick(exts);
	};
	int mark = 0;
	auto rows = [&](const Tab& t, int n) {
		std::vector<Row> v;
		for (int i = 0; i < n; ++i) {
			Row r;
			r.v = {std::to_string(++mark), g.pick(std::vector<std::string> {"aa", "bb", "cc"})};
			r.raw = line_of(r.v, t.delim);
			v.push_back(r);
		}
		return v;
	};
	int nf = g.range(1, 7);
	for (int i = 0; i < nf; ++i) {
		auto t = std::make_shared<Tab>();
		t->file = name();
		bool there = false;
		for (auto& x : b.G.w.tabs) {
			there |= x->file == t->file;
		}
		if (there) {
			continue;
		}
		t->cols = {{"id", 'I'}, {"k", 'K'}};
		t->rows = rows(*t, g.range(1, 5));
		b.G.w.tabs.push_back(t);
	}
	b.begin();
	b.act("new");
	if (g.chance(0.25)) {
		nm.strict = true;
		b.opt("strict", "1");
	}
	bool over = g.chance(0.2);
	if (over) {
		b.opt("overwrite", "1");
	}
	if (g.chance(0.5)) {
		b.opt("pipe_factor", std::to_string(pick_pf(g)));
	}
	auto ref = [&]() {
		std::string r = g.chance(0.5) && !b.G.w.tabs.empty() ? g.pick(b.G.w.tabs)->file : name();
		if (g.chance(0.4)) {
			r = Names::noext(r);
		}
		if (g.chance(0.2)) {
			size_t p = r.rfind('/');
			for (size_t i = p == std::string::npos ? 0 : p + 1; i < r.size(); ++i) {
				r[i] = (char)(g.chance(0.5) ? toupper((unsigned char)r[i]) : tolower((unsigned char)r[i]));
			}
		}
		if (g.chance(0.1)) {
			r = "./" + r;
		}
		return r;
	};
	auto text = [&](const std::vector<Row>& rs, const std::vector<Col>& cols, bool det) {
		Query q;
		q.cols = cols;
		QGroup all;
		for (auto& r : rs) {
			QGroup one;
			Cells c;
			c.c = r.v;
			one.rows.push_back(c);
			all.rows.push_back(c);
			if (det) {
				q.out.push_back(one);
			}
		}
		if (!det && !all.rows.empty()) {
			q.out.push_back(all);
		}
		return render(q);
	};
	int n = g.range(3, 10);
	for (int i = 0; i < n; ++i) {
		std::string r = ref();
		std::string q = "[" + r + "]";
		auto t = nm.resolve(r);
		bool ok = t != nullptr;
		switch (g.below(7)) {
		case 0: {
			std::string k = g.pick(std::vector<std::string> {"aa", "bb", "cc"});
			std::vector<Row> nr;
			if (ok) {
				nr = t->rows;
				for (auto& x : nr) {
					if (x.v[1] == k) {
						x.v[1] = "dd";
						x.raw = line_of(x.v, t->delim);
					}
				}
				b.replace(t, nr);
			}
			b.stmt("update " + q + " set k = 'dd' where k = '" + k + "'", {}, ok ? b.state() : -1);
			break;
		}
		case 1: {
			std::string k = g.pick(std::vector<std::string> {"aa", "bb", "cc"});
			std::vector<Row> nr;
			if (ok) {
				for (auto& x : t->rows) {
					if (x.v[1] != k) {
						nr.push_back(x);
					}
				}
				b.replace(t, nr);
			}
			b.stmt("delete from " + q + " where k = '" + k + "'", {}, ok ? b.state() : -1);
			break;
		}
		case 2: { // a new table takes its name as it is written
			std::string f = name();
			if (f.find('/') != std::string::npos) {
				bool dir = false;
				for (auto& x : b.G.w.tabs) {
					dir |= x->file.find('/') != std::string::npos;
				}
				if (!dir) {
					continue;
				}
			}
			std::shared_ptr<Tab> old;
			for (auto& x : b.G.w.tabs) {
				if (x->file == f) {
					old = x;
				}
			}
			ok = ok && (!old || over);
			if (ok) {
				auto m = std::make_shared<Tab>(*t);
				m->file = f;
				for (auto& x : m->rows) {
					x.raw = line_of(x.v, m->delim);
				}
				m->no_final_nl = false;
				if (old) {
					b.replace(old, m->rows);
				} else {
					b.G.w.tabs.push_back(m);
				}
			}
			b.stmt("select * into [" + f + "] from " + q, {}, ok ? b.state() : -1);
			break;
		}
		case 3: {
			std::string r2 = ref();
			auto u = nm.resolve(r2);
			std::vector<Row> js;
			ok = ok && u;
			if (ok) {
				for (auto& x : t->rows) {
					for (auto& y : u->rows) {
						if (x.v[1] == y.v[1]) {
							Row z;
							z.v = {x.v[0], y.v[0]};
							js.push_back(z);
						}
					}
				}
			}
			b.stmt("select a.id, b.id from " + q + " a join [" + r2 + "] b on a.k = b.k", ok ? text(js, {{"id", 'I'}, {"id", 'I'}}, false) : Text());
			break;
		}
		default:
			b.stmt("select id, k from " + q, ok ? text(t->rows, t->cols, true) : Text());
		}
		b.flush();
		if (!ok) {
			b.s.acts.back().ret = -1;
		}
	}
}

// ---- the same queries however they are run
static void f_cfg(SB& b)
{
	b.s.tag = "cfg";
	Rng& g = b.g;
	b.G.tables(g.range(1, 3), g.pick(std::vector<int> {4, 12, 40}));
	b.begin();
	struct Item {
		std::string sql;
		Text out, rows;
		std::vector<Text> each; // row by row, when their order is known
		bool step = false, split = false;
	};
	bool cart = g.chance(0.4);
	auto item = [&]() {
		Item it;
		it.step = g.chance(0.6);
		QOpt o;
		if (cart) { // not made for these
			o.left = o.sub = false;
		}
		if (it.step) {
			o.step = true;
			o.star = true;
			o.must_order = g.chance(0.3);
		}
		Query q = b.G.select(o);
		it.sql = q.sql;
		it.out = render(q);
		if (it.step) {
			it.rows = render_step(q);
			it.split = true;
			for (auto& gr : it.rows) {
				it.split &= gr.lines.size() <= 1 && gr.take < 0;
				if (!gr.lines.empty()) {
					it.each.push_back({gr});
				}
			}
		}
		return it;
	};
	auto out = [&](const Text& t) {
		b.s.acts.back().chk = true;
		b.s.acts.back().out.insert(b.s.acts.back().out.end(), t.begin(), t.end());
	};
	auto settings = [&](int h) {
		if (g.chance(0.6)) {
			b.opt("pipe_factor", std::to_string(g.pick(std::vector<int> {-7, 0, 1, 2, 2, 3, 4, 7, 16, 64, 1024, 1025, 100000})), h);
		}
		if (cart && g.chance(0.7)) {
			b.opt("force_cartesian", g.chance(0.7) ? "1" : "0", h);
		}
		if (g.chance(0.3)) {
			b.opt("verbose", std::to_string(g.range(0, 2)), h);
		}
		if (g.chance(0.2)) {
			b.opt("overwrite", g.chance(0.5) ? "1" : "0", h);
		}
		if (g.chance(0.2)) {
			b.opt("char_as_byte", "1", h);
		}
	};
	int n = g.range(1, 3);
	std::vector<Item> items;
	for (int i = 0; i < n; ++i) {
		items.push_back(item());
	}
	int runs = g.range(2, 4);
	for (int r = 0; r < runs && b.s.acts.size() < 22; ++r) {
		int h = r % 3;
		if (r < 3) {
			b.act("new", {}, h);
		}
		settings(h);
		std::string all;
		Text outs;
		bool stepable = true, split = true;
		for (auto& it : items) {
			all += it.sql + ";\n";
			outs.insert(outs.end(), it.out.begin(), it.out.end());
			stepable &= it.step;
			split &= it.split;
		}
		switch (g.below(6)) {
		case 0: // one by one
			for (auto& it : items) {
				b.act("exec", {it.sql}, h);
				out(it.out);
			}
			break;
		case 1: // one script
			b.act("exec", {all}, h);
			out(outs);
			break;
		case 2: // nothing happens in a dry run
			b.opt("dry_run", "1", h);
			b.act("exec", {all}, h);
			out({});
			b.opt("dry_run", "0", h);
			b.act("exec", {all}, h);
			out(outs);
			break;
		case 3: { // plan by plan, the last ones all at once
			b.act("plans", {all}, h);
			out({});
			size_t k = g.below(items.size() + 1);
			for (size_t i = 0; i < k; ++i) {
				b.act("execn", {"1"}, h);
				out(items[i].out);
			}
			b.act("rest", {}, h);
			out({});
			for (size_t i = k; i < items.size(); ++i) {
				out(items[i].out);
			}
			b.act("reset", {}, h);
			break;
		}
		default: { // some executed, the rest stepped through
			size_t k = 0;
			while (k < items.size() && (!items[k].step || g.chance(0.3))) {
				++k;
			}
			bool ok = true;
			for (size_t i = k; i < items.size(); ++i) {
				ok &= items[i].step;
			}
			b.act("plans", {all}, h);
			out({});
			if (!ok) {
				k = items.size();
			}
			if (k) {
				b.act("execn", {std::to_string(k)}, h);
				out({});
				for (size_t i = 0; i < k; ++i) {
					out(items[i].out);
				}
			}
			std::vector<Text> rows;
			Text rest;
			bool one = true;
			for (size_t i = k; i < items.size(); ++i) {
				rest.insert(rest.end(), items[i].rows.begin(), items[i].rows.end());
				rows.insert(rows.end(), items[i].each.begin(), items[i].each.end());
				one &= items[i].split;
			}
			if (one && rows.size() > 2 && g.chance(0.6)) {
				// not up to the last row of a query: the next call would start it anew
				size_t at = 0, m = g.range(1, 2);
				size_t first = items[k < items.size() ? k : 0].each.size();
				if (first > m) {
					b.act("stepn", {std::to_string(m)}, h);
					for (; at < m; ++at) {
						out(rows[at]);
					}
				}
				b.act("stepn", {"-1"}, h);
				out({});
				for (; at < rows.size(); ++at) {
					out(rows[at]);
				}
			} else {
				b.act("stepn", {"-1"}, h);
				out(rest);
			}
			if (g.chance(0.5)) {
				b.act("reset", {}, h);
			}
		}
		}
	}
}

// ---- the pipes between processes, on their own
static void f_pipe(SB& b)
{
	b.s.tag = "pipe";
	Rng& g = b.g;
	int pipes = g.chance(0.4) ? 2 : 1;
	int prod = g.pick(std::vector<int> {1, 1, 2, 3, 4});
	int items = g.pick(std::vector<int> {0, 1, 3, 10, 30, 80});
	// smallest capacity with which a producer ever sees room
	int cap = prod + g.pick(std::vector<int> {1, 1, 2, 3, 6, 20});
	b.act("fifo", {std::to_string(g.next() % 1000000007), std::to_string(pipes), std::to_string(prod), std::to_string(items),
	               std::to_string(cap), std::to_string(g.range(1, 3)), std::to_string(g.below(2) + (g.chance(0.25) ? 2 : 0)), g.chance(0.2) ? "1" : "0"});
}

struct PropDef {
	const char* id;
	std::vector<Fam> fams;
	int variants;
	int mode;
	double p_thr; // share of threaded scenarios
};
static const std::vector<PropDef>& props()
{
	static const std::vector<PropDef> p = {
	        {"C01", {f_plain, f_join, f_union, f_sub, f_group, f_distinct, f_order, f_into, f_write, f_script, f_flow, f_stdin, f_schema, f_out, f_expr}, 2, M_SCHED, 1},
	        {"C02", {f_join, f_join, f_union, f_sub, f_group, f_distinct, f_order, f_write, f_stdin, f_any, f_expr}, 3, M_SCHED, 1},
	        {"C03", {f_pipe}, 5, M_SCHED, 1},
	        {"C04", {f_write, f_write, f_into, f_script, f_schema}, 10, M_KILL, 0.2},
	        {"C05", {f_write, f_write, f_into, f_script, f_schema}, 10, M_WERR, 0.2},
	        {"C06", {f_write, f_into, f_order, f_stdin, f_script, f_any, f_flow, f_schema}, 6, M_WERR | M_RERR, 0.2},
	        {"C07", {f_write, f_write, f_into, f_order, f_stdin, f_schema}, 10, M_SIG, 0.2},
	        {"C08", {f_stdin}, 2, M_ENV, 0.4},
	        {"C09", {f_cfg}, 1, M_SCHED | M_ENV, 0.3},
	        {"C10", {f_life, f_life, f_life_ro}, 3, M_SCHED | M_ENV, 0.3},
	        {"C11", {f_join, f_join, f_flow}, 1, M_SCHED | M_ENV, 0.4},
	        {"C12", {f_union, f_sub}, 1, M_SCHED | M_ENV, 0.4},
	        {"C13", {f_group, f_distinct}, 1, M_SCHED | M_ENV, 0.4},
	        {"C14", {f_order}, 1, M_SCHED | M_ENV, 0.4},
	        {"C15", {f_write}, 1, M_SCHED | M_ENV, 0.4},
	        {"C16", {f_script, f_flow}, 1, M_SCHED | M_ENV, 0.4},
	        {"C17", {f_any, f_write, f_into, f_order, f_stdin, f_script, f_schema}, 8, M_ALLOC, 0.3},
	        {"C18", {f_any, f_join, f_order, f_stdin, f_stdin, f_write, f_into, f_schema}, 8, M_RERR, 0.2},
	        {"C19", {f_any, f_order, f_stdin, f_schema, f_out}, 3, M_OUT, 0.2},
	        {"C20", {f_any, f_write, f_into, f_order, f_script, f_stdin, f_schema}, 4, M_WERR | M_RERR, 0.2},
	        {"C21", {f_names}, 2, M_SCHED | M_ENV, 0.2},
	        {"C22", {f_any, f_write, f_into, f_order, f_script, f_stdin, f_step, f_flow, f_schema, f_out, f_expr}, 4, M_WERR | M_RERR | M_ALLOC | M_OUT, 0.4},
	        {"C23", {f_into}, 1, M_SCHED | M_ENV, 0.4},
	        {"C24", {f_schema}, 1, M_SCHED | M_ENV, 0.4},
	        {"C25", {f_out}, 1, M_SCHED | M_ENV, 0.4},
	        {"C26", {f_expr}, 1, M_SCHED | M_ENV, 0.4},
	        {"DBG", {f_plain, f_join, f_union, f_sub, f_group, f_distinct, f_order, f_any, f_step, f_into, f_write, f_script, f_stdin}, 0},
	        {"plain", {f_plain}, 0},
	        {"join", {f_join}, 0},
	        {"union", {f_union}, 0},
	        {"sub", {f_sub}, 0},
	        {"group", {f_group}, 0},
	        {"distinct", {f_distinct}, 0},
	        {"order", {f_order}, 0},
	        {"any", {f_any}, 0},
	        {"step", {f_step}, 0},
	        {"into", {f_into}, 0},
	        {"write", {f_write}, 0},
	        {"script", {f_script}, 0},
	        {"flow", {f_flow}, 0},
	        {"stdin", {f_stdin}, 0},
	        {"schema", {f_schema}, 0},
	        {"out", {f_out}, 0},
	        {"expr", {f_expr}, 0},
	        {"big", {f_big}, 0},
	        {"life", {f_life}, 0},
	};
	return p;
}
static const PropDef* find(const std::string& prop)
{
	for (auto& p : props()) {
		if (prop == p.id) {
			return &p;
		}
	}
	return nullptr;
}
bool gen(const std::string& prop, uint64_t seed, Scenario& out)
{
	const PropDef* p = find(prop);
	if (!p) {
		return false;
	}
	Scenario s;
	s.prop = prop;
	s.seed = seed;
	form = Form();
	SB b(s, mix(seed, 0x5eed));
	Rng e(mix(seed, 0xe4f));
	// (to look at one family under the faults of any property)
	const PropDef* only = getenv("FQLSIM_FAMILY") ? find(getenv("FQLSIM_FAMILY")) : nullptr;
	static const std::set<std::string> big = {"C01", "C02", "C04", "C05", "C07", "C11", "C12", "C13", "C14", "C15", "C17", "C18", "C22", "C23"};
	if (!only && big.count(prop) && b.g.chance(0.03)) {
		f_big(b);
	} else {
		b.g.pick(only ? only->fams : p->fams)(b);
	}
	env_vary(s, e);
	if (!s.no_threads && e.chance(p->p_thr)) {
		make_threaded(s, e);
	}
	out = s;
	return true;
}
int plan_variants(const std::string& prop)
{
	auto p = find(prop);
	return p ? p->variants : 0;
}
int prop_mode(const std::string& prop)
{
	auto p = find(prop);
	return p ? p->mode : 0;
}
