#include "model.h"
#include <algorithm>
#include <cstring>
using namespace sim;
typedef std::vector<std::pair<const Tab*, std::string>> Srcs;
typedef std::vector<std::pair<std::string, Val>> Vars;

static const std::vector<std::string> KEYS = {"ab", "Ab", "CD", "cd", "e", "E", "xy", "Zed", "q1", "mmm", "aB", "zz9"};
static const std::vector<std::string> TEXTS = {"plain", "two words", "com,ma", "quo\"te", "", "new\nline", "Plain",
                                               "\xc3\xbcn\xc3\xaf", "a|b", "semi;colon", "tab\tin", "x", "[odd]",
                                               "it's", "100%", "a,b,\"c\"", "long text that goes on for a while"};

size_t Query::nrows() const
{
	size_t n = 0;
	for (auto& q : out) {
		n += q.take >= 0 ? (size_t)q.take : q.rows.size();
	}
	return n;
}
std::string quote(const std::string& s, char d)
{
	if (s.find_first_of(std::string("\n\r\"") + d) == std::string::npos) {
		return s;
	}
	std::string r = "\"";
	for (char c : s) {
		if (c == '"') {
			r += '"';
		}
		r += c;
	}
	return r + "\"";
}
std::string line_of(const std::vector<std::string>& v, char d)
{
	std::string r;
	for (size_t i = 0; i < v.size(); ++i) {
		if (i) {
			r += d;
		}
		r += quote(v[i], d);
	}
	return r;
}
Form form;
static std::string line_q(const std::vector<std::string>& v, const std::string& d, int q)
{
	std::string r;
	for (size_t i = 0; i < v.size(); ++i) {
		r += i ? d : "";
		const std::string& s = v[i];
		bool dbl = q != Q_WEAK;
		bool need = q == Q_QALL
		            || (q != Q_NONE
		                && (s.find_first_of("\n\r") != std::string::npos || (dbl && s.find('"') != std::string::npos)
		                    || s.find(d) != std::string::npos));
		r += need ? "\"" : "";
		for (char c : s) {
			r += need && dbl && c == '"' ? "\"\"" : std::string(1, c);
		}
		r += need ? "\"" : "";
	}
	return r;
}
std::string out_line(const std::vector<std::string>& v, char d)
{
	return line_q(v, form.delim.empty() ? std::string(1, d) : form.delim, form.quotes);
}
std::string tab_line(const std::vector<std::string>& v, char d) { return line_q(v, std::string(1, d), form.quotes); }
std::string concat(const std::vector<std::string>& v)
{
	std::string r;
	for (auto& x : v) {
		r += x;
	}
	return r;
}
int cmp_nocase_rtrim(const std::string& a0, const std::string& b0)
{
	auto trim = [](std::string s) {
		while (!s.empty() && isspace((unsigned char)s.back())) {
			s.pop_back();
		}
		for (char& c : s) {
			c = tolower((unsigned char)c);
		}
		return s;
	};
	std::string a = trim(a0), b = trim(b0);
	int c = a.compare(b);
	return c < 0 ? -1 : c > 0;
}
static std::vector<std::string> head_of(const std::vector<Col>& c)
{
	std::vector<std::string> h;
	for (auto& x : c) {
		h.push_back(x.name);
	}
	return h;
}
Text render(const Query& q, bool header)
{
	Text t;
	if (header && !q.fixed && q.header && form.header) {
		Group g;
		g.lines.push_back(out_line(head_of(q.cols), q.delim) + form.term);
		t.push_back(g);
	}
	for (auto& x : q.out) {
		Group g;
		g.take = x.take;
		for (auto& r : x.rows) {
			if (q.fixed) {
				g.lines.push_back(concat(r.c));
				continue;
			}
			g.lines.push_back((r.use_raw ? r.raw : out_line(r.c, q.delim)) + form.term);
		}
		t.push_back(g);
	}
	return t;
}
Text render_step(const Query& q)
{
	Text t;
	for (auto& x : q.out) {
		Group g;
		g.take = x.take;
		for (auto& r : x.rows) {
			std::string l;
			for (size_t i = 0; i < r.c.size(); ++i) {
				l += i ? "|" : "";
				for (char c : r.c[i]) {
					l += c == '\n' ? "\\n" : c == '"' ? "\\q" : std::string(1, c);
				}
			}
			g.lines.push_back(l + "\n");
		}
		t.push_back(g);
	}
	return t;
}
Text tab_text(const Tab& t)
{
	Text x;
	auto one = [&](const std::string& l) {
		Group g;
		g.lines.push_back(l);
		x.push_back(g);
	};
	if (t.header && !t.fixed) {
		one((t.quotes || t.odd ? line_q(head_of(t.cols), t.odd ? t.delims : std::string(1, t.delim), t.quotes) : line_of(head_of(t.cols), t.delim)) + t.term);
	}
	Group all;
	for (auto& r : t.rows) {
		std::string l = r.raw + (t.fixed ? "" : t.term);
		if (t.unordered) {
			all.lines.push_back(l);
		} else {
			one(l);
		}
	}
	if (t.unordered && !all.lines.empty()) {
		x.push_back(all);
	}
	if (t.no_final_nl && !x.empty() && !t.fixed) {
		x.back().lines.back().pop_back();
	}
	return x;
}
std::string tab_bytes(const Tab& t) { return plain(tab_text(t)); }
Tab* World::find(const std::string& f)
{
	for (auto& t : tabs) {
		if (t->file == f) {
			return t.get();
		}
	}
	return nullptr;
}

static std::string recase(Rng& g, std::string s);
std::shared_ptr<Tab> Gen::table(const std::string& file, const std::string& p, int n, char delim)
{
	auto t = std::make_shared<Tab>();
	t->file = file;
	t->ref = g.chance(0.5) || file.find_first_of(" #-") != std::string::npos ? "[" + file + "]"
	                                                                        : file.substr(0, file.find('.'));
	t->delim = delim;
	t->cols = {{p + "id", 'I'}, {p + "k", 'K'}, {p + "v", 'I'}};
	int extra = g.range(0, 2);
	if (extra > 0) {
		t->cols.push_back({p + "s", 'S'});
	}
	if (extra > 1) {
		t->cols.push_back({p + "w", 'I'});
	}
	int nk = g.range(1, (int)KEYS.size());
	int nv = g.pick(std::vector<int> {2, 5, 40});
	std::vector<int> ids;
	for (int i = 0; i < n; ++i) {
		ids.push_back(i + 1);
	}
	if (g.chance(0.5)) {
		for (int i = n - 1; i > 0; --i) {
			std::swap(ids[i], ids[g.below(i + 1)]);
		}
	}
	bool odd_quotes = g.chance(0.3);
	std::vector<std::string> big; // beyond 32 bits
	for (size_t c = 0; c < t->cols.size(); ++c) {
		big.push_back(c && t->cols[c].ty == 'I' && g.chance(0.12) ? g.pick(std::vector<std::string> {"000000007", "00000", "4294967296"}) : "");
	}
	for (int i = 0; i < n; ++i) {
		Row r;
		for (size_t c = 0; c < t->cols.size(); ++c) {
			if (c == 0) {
				r.v.push_back(std::to_string(ids[i]));
			} else if (t->cols[c].ty == 'K') {
				r.v.push_back(many ? recase(g, "k" + std::to_string(g.below(many))) : KEYS[g.below(nk)]);
				if (longs && g.chance(0.05)) {
					r.v.back() += std::string(g.pick(std::vector<int> {60, 130, 300}), 'z');
				}
			} else if (t->cols[c].ty == 'I') {
				r.v.push_back(std::to_string(g.range(g.chance(0.1) ? -nv : 0, nv)));
				if (r.v.back() != "0" && g.chance(0.7)) {
					r.v.back() += big[c];
				}
			} else {
				r.v.push_back(g.pick(TEXTS));
				if (longs && g.chance(0.2)) {
					size_t len = g.pick(std::vector<int> {31, 32, 64, 255, 256, 257, 1023, 1024, 4095, 4096, 4097, 9000});
					std::string x = g.chance(0.5) ? r.v.back() : "";
					while (x.size() < len) {
						x += (char)('a' + (x.size() * 7 + i) % 26);
					}
					r.v.back() = x;
				}
			}
		}
		for (size_t c = 0; c < r.v.size(); ++c) {
			if (c) {
				r.raw += delim;
			}
			std::string q = quote(r.v[c], delim);
			if (odd_quotes && t->cols[c].ty != 'I' && q == r.v[c] && g.chance(0.2)) {
				q = "\"" + q + "\""; // quoted although nothing asks for it
			}
			r.raw += q;
		}
		t->rows.push_back(r);
	}
	t->no_final_nl = n > 0 && g.chance(0.15);
	return t;
}
std::shared_ptr<Tab> Gen::named_table(const std::string& file, const std::string& sch, const std::string& p, int n,
                                      bool fixed, std::string& schema)
{
	auto t = table(file, p, n, ',');
	bool once = file.empty();
	t->named = true;
	t->header = false;
	t->fixed = fixed;
	t->ref = sch + "." + (once ? "__stdin" : "[" + file + "]");
	t->once = once;
	if (g.chance(0.2)) {
		schema += "note = nothing that matters\n";
	}
	int form = g.range(0, 1);
	for (size_t c = 0; c < t->cols.size(); ++c) {
		Col& x = t->cols[c];
		std::string name = g.chance(0.15) ? " " + x.name + " " : x.name;
		if (!fixed) {
			schema += name + (form ? ",char" : "") + "\n";
			continue;
		}
		size_t need = 1;
		for (auto& r : t->rows) {
			need = std::max(need, r.v[c].size());
		}
		// numbers fill their column: only then can they be told from text
		bool num = x.ty == 'I';
		x.width = (int)need + g.range(0, num ? 2 : 4);
		if (x.ty == 'S' && g.chance(0.3)) {
			x.width = g.range(1, (int)need);
		}
		schema += name + "," + std::to_string(x.width) + ",char\n";
		for (auto& r : t->rows) {
			std::string& v = r.v[c];
			if (num) {
				std::string sign = v[0] == '-' ? "-" : "";
				v = sign + std::string(x.width - v.size(), '0') + v.substr(sign.size());
			} else {
				v.resize(x.width, ' ');
			}
		}
	}
	if (fixed) {
		for (auto& r : t->rows) {
			r.raw = concat(r.v);
		}
		t->no_final_nl = false;
	} else if (t->rows.empty() || once) {
		t->no_final_nl = false;
	}
	return t;
}
static int pick_rows(Rng& g, int maxrows)
{
	switch (g.below(8)) {
	case 0:
		return g.range(0, 2);
	case 1:
	case 2:
	case 3:
		return g.range(0, std::min(8, maxrows));
	case 4:
		return maxrows;
	default:
		return g.range(0, maxrows);
	}
}
void Gen::tables(int n, int maxrows)
{
	static const std::vector<std::string> files = {"t1.csv", "T2.txt", "t3.dat"};
	char d = g.pick(std::vector<char> {',', ',', ',', '|', ';', '\t'});
	bool mixed = g.chance(0.2);
	longs = g.chance(0.04);
	for (int i = 0; i < n; ++i) {
		if (mixed) {
			d = g.pick(std::vector<char> {',', '|', ';', '\t'});
		}
		w.tabs.push_back(table(files[i], std::string(1, "pqr"[i]), pick_rows(g, maxrows), d));
	}
}

static std::string sq(const std::string& s)
{
	std::string r = "'";
	for (char c : s) {
		r += c;
		if (c == '\'') {
			r += '\'';
		}
	}
	return r + "'";
}
static long num(const Val& v) { return v.isint ? v.i : strtol(v.s.c_str(), nullptr, 10); }
static Val ival(long i)
{
	Val v;
	v.isint = true;
	v.i = i;
	return v;
}
static Val sval(const std::string& s)
{
	Val v;
	v.s = s;
	return v;
}

Expr Gen::column(const Srcs& src, int si, int ci, bool qualify)
{
	const Col& c = src[si].first->cols[ci];
	Expr e;
	e.name = c.name;
	e.sql = (qualify ? src[si].second + "." : std::string()) + c.name;
	e.ty = c.ty;
	e.width = c.width;
	bool j = c.ty == 'J', fl = c.ty == 'F';
	e.f = [si, ci, j, fl](const Env& x) {
		Val v;
		if (!x.r[si]) {
			v.null = true;
			return v;
		}
		if (fl) {
			return fval(strtod(x.r[si]->v[ci].c_str(), nullptr));
		}
		return j ? ival(strtol(x.r[si]->v[ci].c_str(), nullptr, 10)) : sval(x.r[si]->v[ci]);
	};
	return e;
}
static std::vector<std::pair<int, int>> cols_of(const Srcs& src, const std::vector<int>& ok, const char* tys)
{
	std::vector<std::pair<int, int>> r;
	for (int s : ok) {
		for (size_t c = 0; c < src[s].first->cols.size(); ++c) {
			if (strchr(tys, src[s].first->cols[c].ty)) {
				r.push_back({s, (int)c});
			}
		}
	}
	return r;
}

bool Gen::richly(const Srcs& src)
{
	for (auto& s : src) {
		if (s.first->fixed) {
			return false;
		}
	}
	return rich > 0 && g.chance(rich);
}
// of a column of the side that may be missing
Expr Gen::nullable(const Expr& c)
{
	Expr r;
	auto f = c.f;
	r.ty = 'N';
	bool ascii = c.ty == 'K' || c.ty == 'I';
	bool b = bytes;
	switch (g.below(5)) {
	case 0:
		r.sql = "isnull(" + c.sql + ",'none')";
		r.f = [f](const Env& x) { return f(x).null ? sval("none") : f(x); };
		break;
	case 1:
		r.sql = "case when " + c.sql + " is null then 'gone' else " + c.sql + " + '!' end";
		r.f = [f](const Env& x) { return f(x).null ? sval("gone") : sval(f(x).s + "!"); };
		break;
	case 2:
		r.sql = c.sql + " + 'z'";
		r.f = [f](const Env& x) { return f(x).null ? f(x) : sval(f(x).s + "z"); };
		break;
	case 3:
		if (ascii || b) {
			r.sql = "right(" + c.sql + ",2)";
			r.f = [f](const Env& x) {
				Val v = f(x);
				v.s = v.s.size() > 2 ? v.s.substr(v.s.size() - 2) : v.s;
				return v;
			};
			break;
		}
		// fall through
	default:
		r.sql = "case when " + c.sql + " is not null then 'there' end";
		r.f = [f](const Env& x) {
			Val v = f(x);
			v.s = v.null ? "" : "there";
			return v;
		};
	}
	return r;
}
// a value computed from one row; only forms that are defined on every generated row
Expr Gen::scalar(const Srcs& src, const std::vector<int>& ok, const QOpt& o)
{
	auto ic = cols_of(src, ok, "IJ"), kc = cols_of(src, ok, "K"), any = cols_of(src, ok, "IJKSNF");
	bool q = src.size() > 1 || g.chance(0.3);
	if (o.exprs && richly(src)) {
		return rich_expr(src, ok);
	}
	int k = o.exprs ? (int)g.below(14) : 99;
	if (k < 4 && !ic.empty()) {
		auto c = g.pick(ic);
		Expr e = column(src, c.first, c.second, q);
		auto f = e.f;
		int n = g.range(1, 9);
		Expr r;
		r.ty = 'i';
		switch (k) {
		case 0:
			r.sql = "cast(" + e.sql + " as int) * " + std::to_string(n);
			r.f = [f, n](const Env& x) { return ival(num(f(x)) * n); };
			break;
		case 1:
			r.sql = "cast(" + e.sql + " as int) + " + std::to_string(n);
			r.f = [f, n](const Env& x) { return ival(num(f(x)) + n); };
			break;
		case 2:
			r.sql = "cast(" + e.sql + " as int)";
			r.f = [f](const Env& x) { return ival(num(f(x))); };
			break;
		default:
			r.sql = "case when " + e.sql + " > " + std::to_string(n) + " then 'hi' else 'lo' end";
			r.ty = 'K';
			r.f = [f, n](const Env& x) { return sval(num(f(x)) > n ? "hi" : "lo"); };
		}
		return r;
	}
	if (k == 4 && !kc.empty()) {
		auto c = g.pick(kc);
		Expr e = column(src, c.first, c.second, q);
		auto f = e.f;
		Expr r;
		r.ty = 'K';
		r.sql = "left(" + e.sql + ",1)";
		r.f = [f](const Env& x) { return sval(f(x).text().substr(0, 1)); };
		return r;
	}
	if (k == 5 && !kc.empty()) {
		auto c = g.pick(kc);
		Expr e = column(src, c.first, c.second, q);
		auto f = e.f;
		Expr r;
		r.ty = 'K';
		r.sql = e.sql + " + '-x'";
		r.f = [f](const Env& x) { return sval(f(x).text() + "-x"); };
		return r;
	}
	if (k == 6) {
		Expr r;
		r.ty = 'K';
		r.sql = "'lit'";
		r.f = [](const Env&) { return sval("lit"); };
		return r;
	}
	if (k == 7) {
		Expr r;
		r.ty = 'i';
		r.sql = "42";
		r.f = [](const Env&) { return ival(42); };
		return r;
	}
	auto c = g.pick(any);
	return column(src, c.first, c.second, q);
}

static std::string recase(Rng& g, std::string s)
{
	for (char& c : s) {
		if (g.chance(0.3)) {
			c = isupper((unsigned char)c) ? tolower(c) : toupper((unsigned char)c);
		}
	}
	return s;
}

Pred Gen::pred(const Srcs& src, const std::vector<int>& ok, int depth, const QOpt& o, Vars* vars, bool)
{
	auto ic = cols_of(src, ok, "IJ"), kc = cols_of(src, ok, "K"), sc = cols_of(src, ok, "S");
	bool q = src.size() > 1 || g.chance(0.3);
	Pred p;
	if (richly(src) && g.chance(0.7)) {
		return rich_pred(src, ok, depth);
	}
	if (depth > 0 && g.chance(0.45)) {
		Pred a = pred(src, ok, depth - 1, o, vars, false), b = pred(src, ok, depth - 1, o, vars, false);
		bool is_and = g.chance(0.5);
		p.sql = "(" + a.sql + (is_and ? " and " : " or ") + b.sql + ")";
		if (is_and) {
			p.f = [a, b](const Env& x) { return a.f(x) && b.f(x); };
		} else {
			p.f = [a, b](const Env& x) { return a.f(x) || b.f(x); };
		}
		return p;
	}
	for (;;) {
		int k = (int)g.below(11);
		if (k <= 3 && !ic.empty()) {
			auto c = g.pick(ic);
			Expr e = column(src, c.first, c.second, q);
			auto f = e.f;
			static const char* ops[] = {"=", "<>", ">", ">=", "<", "<="};
			int op = (int)g.below(6);
			long n = g.range(0, 12);
			std::string rhs = std::to_string(n);
			if (vars) {
				std::vector<size_t> iv;
				for (size_t i = 0; i < vars->size(); ++i) {
					if ((*vars)[i].second.isint) {
						iv.push_back(i);
					}
				}
				if (!iv.empty() && g.chance(0.5)) {
					auto& v = (*vars)[g.pick(iv)];
					rhs = v.first;
					n = v.second.i;
				}
			}
			p.sql = e.sql + " " + ops[op] + " " + rhs;
			p.f = [f, op, n](const Env& x) {
				long a = num(f(x));
				switch (op) {
				case 0:
					return a == n;
				case 1:
					return a != n;
				case 2:
					return a > n;
				case 3:
					return a >= n;
				case 4:
					return a < n;
				default:
					return a <= n;
				}
			};
			return p;
		}
		if ((k == 4 || k == 5) && !kc.empty()) {
			auto c = g.pick(kc);
			Expr e = column(src, c.first, c.second, q);
			auto f = e.f;
			std::string lit = recase(g, g.pick(KEYS));
			bool eq = g.chance(0.6);
			std::string rhs = sq(lit);
			if (vars) {
				for (auto& v : *vars) {
					if (!v.second.isint && g.chance(0.5)) {
						rhs = v.first;
						lit = v.second.s;
						break;
					}
				}
			}
			p.sql = e.sql + (eq ? " = " : " <> ") + rhs;
			p.f = [f, lit, eq](const Env& x) { return (cmp_nocase_rtrim(f(x).text(), lit) == 0) == eq; };
			return p;
		}
		if (k == 6 && !kc.empty()) {
			auto c = g.pick(kc);
			Expr e = column(src, c.first, c.second, q);
			auto f = e.f;
			std::vector<std::string> l;
			int n = g.range(1, 4);
			p.sql = e.sql + " in (";
			for (int i = 0; i < n; ++i) {
				l.push_back(recase(g, g.pick(KEYS)));
				p.sql += (i ? "," : "") + sq(l.back());
			}
			p.sql += ")";
			p.f = [f, l](const Env& x) {
				for (auto& s : l) {
					if (cmp_nocase_rtrim(f(x).text(), s) == 0) {
						return true;
					}
				}
				return false;
			};
			return p;
		}
		if (k == 7 && !kc.empty()) {
			auto c = g.pick(kc);
			Expr e = column(src, c.first, c.second, q);
			auto f = e.f;
			char ch = "abcxzq"[g.below(6)];
			p.sql = e.sql + " like '" + ch + "%'";
			p.f = [f, ch](const Env& x) {
				std::string s = f(x).text();
				return !s.empty() && tolower((unsigned char)s[0]) == ch;
			};
			return p;
		}
		if (k == 8 && !sc.empty()) {
			auto c = g.pick(sc);
			Expr e = column(src, c.first, c.second, q);
			auto f = e.f;
			std::string lit = g.pick(std::vector<std::string> {"plain", "", "x", "two words", "com,ma"});
			p.sql = e.sql + " = " + sq(lit);
			p.f = [f, lit](const Env& x) { return cmp_nocase_rtrim(f(x).text(), lit) == 0; };
			return p;
		}
		if ((k == 9 || k == 10) && o.sub && !o.in_sub && !w.tabs.empty()) {
			// membership in, or comparison with, what a subquery gives
			std::vector<std::shared_ptr<Tab>> cand;
			for (auto& t : w.tabs) {
				if (!(t->once && once_used)) {
					cand.push_back(t);
				}
			}
			if (cand.empty()) {
				continue;
			}
			auto t = g.pick(cand);
			if (t->once && !(k == 9 && o.insub) && !(k == 10 && o.scalar_sub)) {
				continue;
			}
			Srcs is = {{t.get(), fresh("u")}};
			QOpt io;
			io.sub = false;
			io.in_sub = true;
			Pred ip;
			bool has = g.chance(0.6);
			if (has) {
				ip = pred(is, {0}, 0, io, vars, false);
			}
			std::vector<std::string> set;
			bool key = !kc.empty() && g.chance(0.6);
			if (k == 9 && o.insub) {
				auto my = key ? kc : cols_of(src, ok, "I");
				auto cc = cols_of(is, {0}, key ? "K" : "I");
				if (my.empty() || cc.empty()) {
					continue;
				}
				auto c = g.pick(my);
				auto ci = g.pick(cc);
				Expr e = column(src, c.first, c.second, q);
				Expr ie = column(is, 0, ci.second, g.chance(0.5));
				bool num = e.ty == 'J' || ie.ty == 'J';
				long off = 0;
				if (!key && !num && g.chance(0.5)) { // compared as numbers as soon as one of them is one
					num = true;
					int how = g.range(1, 3);
					if (how & 1) {
						off = g.range(0, 2) ? 0 : g.chance(0.5) ? 32 : 1;
						e.sql = "cast(" + e.sql + " as int)" + (off ? " + " + std::to_string(off) : "");
					}
					if (how & 2) {
						ie.sql = "cast(" + ie.sql + " as int)";
					}
				}
				for (auto& r : t->rows) {
					Env x;
					x.r = {&r};
					if (!has || ip.f(x)) {
						set.push_back(ie.f(x).text());
					}
				}
				if (set.empty()) {
					continue;
				}
				p.sql = e.sql + " in (select " + ie.sql + " from " + t->ref + " " + is[0].second
				        + (has ? " where " + ip.sql : "") + ")";
				once_used |= t->once;
				auto f = e.f;
				p.f = [f, set, num, off](const Env& x) {
					if (num) {
						long v = atol(f(x).text().c_str()) + off;
						for (auto& s : set) {
							if (atol(s.c_str()) == v) {
								return true;
							}
						}
						return false;
					}
					for (auto& s : set) {
						if (cmp_nocase_rtrim(f(x).text(), s) == 0) {
							return true;
						}
					}
					return false;
				};
				return p;
			}
			if (k == 10 && o.scalar_sub && !ic.empty()) {
				auto c = g.pick(ic);
				auto cc = cols_of(is, {0}, "I");
				if (cc.empty()) {
					continue;
				}
				auto ci = g.pick(cc);
				Expr e = column(src, c.first, c.second, q);
				Expr ie = column(is, 0, ci.second, g.chance(0.5));
				long m = 0;
				bool first = true, mx = g.chance(0.5);
				for (auto& r : t->rows) {
					Env x;
					x.r = {&r};
					if (has && !ip.f(x)) {
						continue;
					}
					long n = num(ie.f(x));
					m = first ? n : mx ? std::max(m, n) : std::min(m, n);
					first = false;
				}
				if (first) {
					continue;
				}
				p.sql = e.sql + " >= (select " + (mx ? "max" : "min") + "(cast(" + ie.sql + " as int)) from "
				        + t->ref + " " + is[0].second + (has ? " where " + ip.sql : "") + ")";
				once_used |= t->once;
				auto f = e.f;
				p.f = [f, m](const Env& x) { return num(f(x)) >= m; };
				return p;
			}
			continue;
		}
		if (ic.empty() && kc.empty() && sc.empty()) {
			p.sql = "1 = 1";
			p.f = [](const Env&) { return true; };
			return p;
		}
	}
}

struct TooBig {};
// order of output rows: sorted by keys, ties left open
struct SortKey {
	int col;  // index into the output row's key vector
	bool desc;
};
struct ORow {
	Cells c;
	std::vector<Val> key;
};
static int cmp_val(const Val& a, const Val& b)
{
	if (a.isint && b.isint) {
		return a.i < b.i ? -1 : a.i > b.i;
	}
	if (a.isflt && b.isflt) {
		return a.d < b.d ? -1 : a.d > b.d;
	}
	return cmp_nocase_rtrim(a.text(), b.text());
}

// of the column an expression makes
static char col_ty(char ty, bool typed) { return ty == 'i' ? (typed ? 'J' : 'I') : ty == 'f' ? (typed ? 'F' : 'N') : ty; }

Query Gen::core(const QOpt& o, Vars* vars, const std::vector<Col>* shape)
{
	Query q;
	Srcs src;
	// ---- sources
	std::vector<std::shared_ptr<Tab>> cand;
	for (auto& t : w.tabs) {
		cand.push_back(t);
	}
	int n = 1;
	if (o.join && (o.must_join || g.chance(0.4))) {
		n = g.range(2, std::max(2, o.max_src));
	}
	bool unordered = false;
	std::string from;
	bool left = false;
	std::vector<Env> rows;
	std::vector<int> ok, nul; // of nul, the rows may be missing
	for (int i = 0; i < n; ++i) {
		std::vector<std::shared_ptr<Tab>> now;
		std::shared_ptr<Tab> t;
		for (auto& c : cand) {
			if (!(c->once && once_used)) {
				now.push_back(c);
			}
			if (c->once && once_first && !once_used) {
				t = c;
			}
		}
		if (now.empty()) {
			n = i;
			break;
		}
		if (!t) {
			t = g.pick(now);
		}
		std::string alias = fresh("x");
		if (o.sub && !o.in_sub && i <= 1 && ((o.must_sub && i == 0) || g.chance(0.15))) {
			QOpt so;
			so.in_sub = true;
			so.sub = false;
			so.star = false;
			so.exprs = g.chance(0.4);
			so.max_src = 2;
			so.join = g.chance(0.3);
			so.cart = so.left = false;
			so.order = so.top = false;
			so.uni = false;
			so.group = so.distinct = g.chance(0.4);
			auto d = std::make_shared<Tab>();
			Query sub = core(so, nullptr, nullptr);
			d->delim = sub.delim;
			d->fixed = sub.fixed;
			d->header = sub.header;
			d->cols = sub.cols;
			bool named = true;
			std::set<std::string> seen;
			for (auto& c : d->cols) {
				named = named && !c.name.empty() && seen.insert(c.name).second;
			}
			if (named) {
				d->unordered = sub.out.size() > 1 ? false : true;
				for (auto& gr : sub.out) {
					if (gr.rows.size() > 1) {
						d->unordered = true;
					}
					for (auto& r : gr.rows) {
						Row x;
						x.v = r.c;
						d->rows.push_back(x);
					}
				}
				d->ref = "(" + sub.sql + ")";
				t = d;
				keep.push_back(d);
			}
		}
		once_used |= t->once;
		unordered |= t->unordered;
		src.push_back({t.get(), alias});
		keep.push_back(t);
		if (i == 0) {
			from = t->ref + " " + alias;
			q.delim = t->delim;
			q.fixed = t->fixed;
			q.header = t->header;
			for (auto& r : t->rows) {
				Env e;
				e.r = {&r};
				rows.push_back(e);
			}
			ok.push_back(0);
			continue;
		}
		unordered = true;
		bool last = i == n - 1;
		int kind = (int)g.below(10);
		bool is_left = o.left && (last ? kind < 3 : kind < 2);
		bool is_cart = o.cart && !is_left && kind >= (t->once ? 6 : 9) && !t->file.empty() && rows.size() * t->rows.size() < 3000;
		std::vector<int> me = {i};
		Pred on;
		std::function<bool(const Env&)> eqf;
		size_t pairs = 0;
		if (is_cart) {
			auto a = cols_of(src, ok, "IJ"), b = cols_of(src, me, "IJ");
			if (a.empty() || b.empty()) {
				is_cart = false;
			} else {
				auto ca = g.pick(a), cb = g.pick(b);
				Expr ea = column(src, ca.first, ca.second, true), eb = column(src, cb.first, cb.second, true);
				auto fa = ea.f, fb = eb.f;
				on.sql = "cast(" + ea.sql + " as int) < cast(" + eb.sql + " as int)";
				on.f = [fa, fb](const Env& x) { return num(fa(x)) < num(fb(x)); };
			}
		}
		if (!is_cart) {
			bool key = g.chance(0.4);
			auto a = cols_of(src, ok, key ? "K" : "IJ"), b = cols_of(src, me, key ? "K" : "IJ");
			if (a.empty() || b.empty()) {
				key = true;
				a = cols_of(src, ok, "KS");
				b = cols_of(src, me, "KS");
				if (a.empty() || b.empty()) {
					src.pop_back();
					n = i;
					break;
				}
			}
			if (!nul.empty() && g.chance(0.6)) {
				auto a2 = cols_of(src, nul, key ? "KS" : "IJ");
				a = a2.empty() ? a : a2;
				auto b2 = cols_of(src, me, key ? "S" : "");
				b = b2.empty() || g.chance(0.5) ? b : b2;
			}
			auto ca = g.pick(a), cb = g.pick(b);
			Expr ea = column(src, ca.first, ca.second, true), eb = column(src, cb.first, cb.second, true);
			if (o.exprs && has_cols(src, ok) && has_cols(src, me) && src.size() > 1 && richly(src)) {
				auto side = [&](const std::vector<int>& w) {
					if (!key && g.chance(0.2)) {
						return rich_float(src, w, 1);
					}
					Expr e = key ? rich_text(src, w, 2) : rich_int(src, w, 2);
					return e;
				};
				bool sa = g.chance(0.6);
				if (!key || cols_of(src, ok, "K").size()) {
					ea = sa ? side(ok) : ea;
				}
				if (!key || cols_of(src, me, "K").size()) {
					eb = !sa || g.chance(0.5) ? side(me) : eb;
				}
			}
			if (g.chance(0.5)) {
				on.sql = ea.sql + " = " + eb.sql;
			} else {
				on.sql = eb.sql + " = " + ea.sql;
			}
			auto fa = ea.f, fb = eb.f;
			on.f = [fa, fb](const Env& x) {
				Val l = fa(x), r = fb(x);
				if (l.null || r.null) {
					return false;
				}
				if ((l.isflt || r.isflt) && !l.null && !r.null) {
					return as_double(l) == as_double(r);
				}
				if ((l.isint || r.isint) && !l.null && !r.null) {
					return num(l) == num(r);
				}
				return cmp_nocase_rtrim(l.text(), r.text()) == 0;
			};
			if (!is_left && g.chance(0.25)) {
				std::vector<int> both = ok;
				both.push_back(i);
				QOpt po = o;
				po.sub = false;
				Pred ex = pred(src, both, 0, po, nullptr, false);
				Pred eq = on;
				eqf = eq.f;
				on.sql = eq.sql + " and " + ex.sql;
				on.f = [eq, ex](const Env& x) { return eq.f(x) && ex.f(x); };
			}
		}
		from += (is_left ? " left join " : " join ") + t->ref + " " + alias + " on " + on.sql;
		std::vector<Env> nr;
		for (auto& e : rows) {
			bool hit = false;
			for (auto& r : t->rows) {
				Env x = e;
				x.r.push_back(&r);
				if (eqf && eqf(x) && ++pairs > 2500) {
					throw TooBig();
				}
				if (on.f(x)) {
					nr.push_back(x);
					hit = true;
				}
			}
			if (!hit && is_left) {
				Env x = e;
				x.r.push_back(nullptr);
				nr.push_back(x);
			}
			if (nr.size() > 1500) {
				throw TooBig();
			}
		}
		rows = nr;
		if (is_left) {
			left = true;
			nul.push_back(i);
		} else {
			ok.push_back(i);
		}
	}
	if (src.empty()) {
		throw TooBig();
	}
	// ---- where
	std::string where;
	if (o.pred && (g.chance(0.6))) {
		Pred p;
		if (left && g.chance(0.4)) {
			int li = g.pick(nul);
			Expr e = column(src, li, 0, true);
			auto f = e.f;
			p.sql = e.sql + " is null";
			p.f = [f](const Env& x) { return f(x).null; };
		} else {
			p = pred(src, ok, g.range(0, 2), o, vars, false);
		}
		where = " where " + p.sql;
		std::vector<Env> nr;
		for (auto& e : rows) {
			if (p.f(e)) {
				nr.push_back(e);
			}
		}
		rows = nr;
	}
	// ---- shape of the output
	std::vector<int> all;
	for (size_t i = 0; i < src.size(); ++i) {
		all.push_back((int)i);
	}
	std::vector<ORow> out;
	std::string list, group, having, distinct;
	std::vector<Expr> sel;
	bool do_group = !shape && (o.must_group || (o.group && !o.must_plain && !o.must_distinct && g.chance(0.3)));
	bool do_distinct = !shape && !do_group && (o.must_distinct || (o.distinct && !o.must_plain && g.chance(0.15)));
	bool agg_all = false;
	bool alias_all = o.into || o.in_sub;
	std::set<std::string> used;
	auto name_it = [&](Expr& e) {
		bool need = alias_all && (e.name.empty() || used.count(e.name));
		if (need || (g.chance(0.2))) {
			e.name = fresh("o");
			e.sql += (g.chance(0.5) ? " as " : " ") + e.name;
		}
		used.insert(e.name);
	};
	std::vector<SortKey> sk;
	std::vector<Expr> extra; // sorted by, not selected
	auto rownum = std::make_shared<long>(0);
	bool counted = false;
	std::set<int> count_at;
	if (do_group) {
		auto gc = cols_of(src, ok, src.size() > 1 || unordered ? "IJ" : "IK");
		if (gc.empty()) {
			gc = cols_of(src, ok, "IJKSNF");
		}
		int ng = rows.empty() ? 1 : g.below(5) == 0 ? 0 : g.range(1, 2);
		agg_all = ng == 0;
		std::vector<Expr> keys;
		for (int i = 0; i < ng; ++i) {
			auto c = g.pick(gc);
			keys.push_back(column(src, c.first, c.second, src.size() > 1 || g.chance(0.3)));
			if (o.exprs && has_cols(src, ok) && richly(src)) {
				bool one = src.size() == 1 && !unordered;
				keys.back() = one ? rich_expr(src, ok) : g.chance(0.2) ? rich_float(src, ok, 1) : rich_int(src, ok, 2);
			}
		}
		std::vector<std::vector<Env>> gs;
		std::map<std::string, size_t> idx;
		for (auto& e : rows) {
			std::string k;
			for (auto& x : keys) {
				std::string s = x.f(e).text();
				for (char& ch : s) {
					ch = tolower((unsigned char)ch);
				}
				while (!s.empty() && isspace((unsigned char)s.back())) {
					s.pop_back();
				}
				k += s + '\x01';
			}
			auto it = idx.find(k);
			if (it == idx.end()) {
				it = idx.emplace(k, gs.size()).first;
				gs.emplace_back();
			}
			gs[it->second].push_back(e);
		}
		struct Agg {
			bool text = false, flt = false;
			std::string sql;
			std::function<Val(const std::vector<Env>&)> f;
		};
		bool one = src.size() == 1 && !unordered;
		std::function<Agg(bool, int)> mk_agg = [&](bool number, int depth) {
			Agg a;
			if (o.exprs && has_cols(src, ok) && richly(src)) {
				int k = (int)g.below(depth > 0 ? 9 : 6);
				if (k >= 6) {
					// of aggregates
					Agg x = mk_agg(true, depth - 1);
					auto fx = x.f;
					int n = g.range(1, 9), op = (int)g.below(4);
					if (k == 8) {
						Agg y = mk_agg(true, depth - 1);
						auto fy = y.f;
						a.sql = "(" + x.sql + (op & 1 ? " - " : " + ") + y.sql + ")";
						a.f = [fx, fy, op](const std::vector<Env>& v) {
							return ival(op & 1 ? fx(v).i - fy(v).i : fx(v).i + fy(v).i);
						};
						return a;
					}
					a.sql = "(" + x.sql + " " + "+-*/"[op] + " " + std::to_string(n) + ")";
					a.f = [fx, n, op](const std::vector<Env>& v) {
						long i = fx(v).i;
						return ival(op == 0 ? i + n : op == 1 ? i - n : op == 2 ? i * n : i / n);
					};
					return a;
				}
				if (k == 5 && one && !number) {
					Expr e = rich_text(src, ok, 2);
					bool mx = g.chance(0.5);
					auto f = e.f;
					a.text = true;
					a.sql = std::string(mx ? "max(" : "min(") + e.sql + ")";
					a.f = [f, mx](const std::vector<Env>& v) {
						Val best = f(v[0]);
						for (auto& x : v) {
							Val n = f(x);
							int c = cmp_nocase_rtrim(n.text(), best.text());
							best = (mx ? c > 0 : c < 0) ? n : best;
						}
						return best;
					};
					return a;
				}
				if (k == 4 && !number) {
					Expr e = rich_float(src, ok, 2);
					static const char* fn[] = {"sum", "min", "max", "avg"};
					// (an average is rounded when it is stored)
					int op = (int)g.below(o.in_sub || o.into ? 3 : 4);
					auto f = e.f;
					a.flt = true;
					a.sql = std::string(fn[op]) + "(" + e.sql + ")";
					a.f = [f, op](const std::vector<Env>& v) {
						double s = 0, mn = 0, mx = 0;
						for (size_t i = 0; i < v.size(); ++i) {
							double n = as_double(f(v[i]));
							s += n;
							mn = i ? std::min(mn, n) : n;
							mx = i ? std::max(mx, n) : n;
						}
						return fval(op == 0 ? s : op == 1 ? mn : op == 2 ? mx : s / (double)v.size());
					};
					return a;
				}
				Expr e = rich_int(src, ok, 2);
				auto f = e.f;
				static const char* fn[] = {"sum", "min", "max", "avg", "count"};
				int op = (int)g.below(5);
				a.sql = std::string(fn[op]) + "(" + e.sql + ")";
				a.f = [f, op](const std::vector<Env>& v) {
					long s = 0, mn = 0, mx = 0;
					for (size_t i = 0; i < v.size(); ++i) {
						long n2 = num(f(v[i]));
						s += n2;
						mn = i ? std::min(mn, n2) : n2;
						mx = i ? std::max(mx, n2) : n2;
					}
					long n = (long)v.size();
					return ival(op == 0 ? s : op == 1 ? mn : op == 2 ? mx : op == 3 ? s / n : n);
				};
				return a;
			}
			auto ic = cols_of(src, ok, "IJ");
			int k = ic.empty() ? 0 : (int)g.below(6);
			if (k <= 1) {
				a.sql = "count(*)";
				a.f = [](const std::vector<Env>& v) { return ival((long)v.size()); };
				return a;
			}
			auto c = g.pick(ic);
			Expr e = column(src, c.first, c.second, src.size() > 1 || g.chance(0.3));
			static const char* fn[] = {"sum", "min", "max", "avg"};
			int op = k - 2;
			a.sql = std::string(fn[op]) + "(cast(" + e.sql + " as int))";
			auto f = e.f;
			a.f = [f, op](const std::vector<Env>& v) {
				long s = 0, mn = 0, mx = 0;
				bool first = true;
				for (auto& x : v) {
					long n2 = num(f(x));
					s += n2;
					mn = first ? n2 : std::min(mn, n2);
					mx = first ? n2 : std::max(mx, n2);
					first = false;
				}
				return ival(op == 0 ? s : op == 1 ? mn : op == 2 ? mx : s / (long)v.size());
			};
			return a;
		};
		struct Item {
			bool key;
			size_t k;
			Agg a;
		};
		std::vector<Item> items;
		for (size_t i = 0; i < keys.size(); ++i) {
			if (g.chance(0.85)) {
				items.push_back({true, i, {}});
			}
		}
		int na = g.range(items.empty() ? 1 : 0, 3);
		for (int i = 0; i < na; ++i) {
			items.push_back({false, 0, mk_agg(false, 1)});
		}
		if (g.chance(0.3)) {
			for (size_t i = items.size() - 1; i > 0; --i) {
				std::swap(items[i], items[g.below(i + 1)]);
			}
		}
		Agg hv;
		long hn = 0;
		if (!agg_all && g.chance(0.3)) {
			hv = mk_agg(true, 1);
			hn = g.range(0, 6);
			having = " having " + hv.sql + " > " + std::to_string(hn);
		}
		for (size_t i = 0; i < items.size(); ++i) {
			Expr e;
			if (items[i].key) {
				e = keys[items[i].k];
			} else {
				e.sql = items[i].a.sql;
				e.ty = items[i].a.text ? 'N' : items[i].a.flt ? 'f' : 'i';
			}
			std::string plain_sql = e.sql;
			name_it(e);
			list += (i ? "," : "") + e.sql;
			q.cols.push_back({e.name, col_ty(e.ty, o.in_sub || o.into), e.width});
			sel.push_back(e);
		}
		for (auto& gr : gs) {
			if (!having.empty() && !(hv.f(gr).i > hn)) {
				continue;
			}
			ORow r;
			for (auto& it : items) {
				Val v = it.key ? keys[it.k].f(gr[0]) : it.a.f(gr);
				r.c.c.push_back(v.text());
				r.key.push_back(v);
			}
			out.push_back(r);
		}
		for (size_t i = 0; i < keys.size(); ++i) {
			group += (i ? "," : " group by ") + keys[i].sql;
		}
		if (o.step == false && g.chance(0.5)) {
			// first-seen order is what the engine does, yet nothing promises it
		}
		unordered = true;
	} else if (do_distinct) {
		distinct = "distinct ";
		auto dc = cols_of(src, ok, src.size() > 1 || unordered ? "IJ" : "IK");
		if (dc.empty()) {
			dc = cols_of(src, ok, "IJKSNF");
		}
		int nd = g.range(1, 2);
		for (int i = 0; i < nd; ++i) {
			auto c = g.pick(dc);
			Expr e = column(src, c.first, c.second, src.size() > 1 || g.chance(0.3));
			if (!q.fixed && o.exprs && g.chance(0.4)) {
				// which spelling of a text is seen first is only known for one source
				Expr x = scalar(src, ok, o);
				if (x.ty == 'i' || x.ty == 'f' || (src.size() == 1 && !unordered)) {
					e = x;
				}
			}
			name_it(e);
			list += (i ? "," : "") + e.sql;
			q.cols.push_back({e.name, col_ty(e.ty, o.in_sub || o.into), e.width});
			sel.push_back(e);
		}
		std::set<std::string> seen;
		for (auto& e : rows) {
			ORow r;
			std::string k;
			for (auto& x : sel) {
				Val v = x.f(e);
				std::string s = v.text();
				r.c.c.push_back(s);
				r.key.push_back(v);
				for (char& ch : s) {
					ch = tolower((unsigned char)ch);
				}
				while (!s.empty() && isspace((unsigned char)s.back())) {
					s.pop_back();
				}
				k += s + '\x01';
			}
			if (seen.insert(k).second) {
				out.push_back(r);
			}
		}
		unordered = true;
	} else {
		bool star = !shape && o.star && src.size() == 1 && !src[0].first->file.empty() && g.chance(0.25);
		if (star) {
			q.star = true;
			list = "*";
			q.cols = src[0].first->cols;
			for (size_t c = 0; c < q.cols.size(); ++c) {
				sel.push_back(column(src, 0, (int)c, false));
			}
		} else if (shape) {
			for (size_t i = 0; i < shape->size(); ++i) {
				bool num = (*shape)[i].ty == 'I' || (*shape)[i].ty == 'J';
				auto c = cols_of(src, ok, num ? "I" : "K");
				if (c.empty()) {
					c = cols_of(src, ok, num ? "IJ" : "KS");
				}
				if (c.empty()) {
					throw TooBig();
				}
				auto cc = g.pick(c);
				Expr e = column(src, cc.first, cc.second, src.size() > 1);
				list += (i ? "," : "") + e.sql;
				sel.push_back(e);
				q.cols.push_back({(*shape)[i].name, e.ty == 'J' ? 'J' : (*shape)[i].ty, e.width});
			}
		} else {
			int ns = g.range(1, 4);
			for (int i = 0; i < ns; ++i) {
				Expr e;
				if (left && g.chance(0.5)) {
					int li = (int)src.size() - 1;
					e = column(src, li, (int)g.below(src[li].first->cols.size()), true);
					if (o.exprs && e.ty != 'J' && e.ty != 'F' && richly(src)) {
						e = nullable(e);
					}
				} else {
					e = scalar(src, ok, o);
					if (o.exprs && !o.in_sub && !o.into && !o.step && !no_null && has_cols(src, ok) && richly(src) && g.chance(0.1)) {
						e = rich_null(src, ok);
					}
					if (o.exprs && src.size() == 1 && !unordered && !o.step && richly(src) && g.chance(0.15)) {
						int n = g.range(0, 5);
						Expr r;
						r.ty = 'i';
						r.sql = n ? "(__rownum + " + std::to_string(n) + ")" : "__rownum";
						r.name = n || alias_all ? "" : r.sql;
						auto ctr = rownum;
						r.f = [ctr, n](const Env&) { return ival(*ctr + n); };
						e = r;
						counted = true;
						count_at.insert(i);
					}
				}
				name_it(e);
				list += (i ? "," : "") + e.sql;
				sel.push_back(e);
				q.cols.push_back({e.name, col_ty(e.ty, o.in_sub || o.into), e.width});
			}
		}
		if (!shape && !star && o.exprs && o.order && !(o.uni && g.chance(0.3)) && has_cols(src, ok) && richly(src)) {
			int n = g.range(1, 2);
			for (int i = 0; i < n; ++i) {
				Expr e = rich_expr(src, ok);
				if (e.sql.find("'lit'") == std::string::npos) { // a constant is no key
					extra.push_back(e);
				}
			}
		}
		for (auto& e : rows) {
			ORow r;
			++*rownum;
			for (auto& x : sel) {
				Val v = x.f(e);
				r.c.c.push_back(v.null && q.fixed ? std::string(x.width, ' ') : v.text());
				r.key.push_back(v);
			}
			for (auto& x : extra) {
				r.key.push_back(x.f(e));
			}
			out.push_back(r);
		}
	}
	// ---- union all
	std::string uni;
	bool floats = false;
	for (auto& x : sel) {
		floats |= x.ty == 'f' || x.ty == 'F';
	}
	if (!shape && o.uni && !o.must_order && !q.star && !counted && !floats && (o.must_uni || g.chance(0.15))) {
		int nu = g.range(1, 2);
		for (int i = 0; i < nu; ++i) {
			QOpt uo = o;
			uo.sub = uo.uni = false;
			uo.must_uni = uo.must_join = uo.must_group = uo.must_sub = uo.must_distinct = false;
			uo.join = g.chance(0.3);
			uo.order = uo.top = false;
			uo.must_order = false;
			std::vector<Col> sh = q.cols;
			// only text and integer columns line up
			Query u = core(uo, vars, &sh);
			uni += " union all " + u.sql;
			for (size_t k = 0; k < q.cols.size() && (o.in_sub || o.into); ++k) {
				if (u.cols[k].ty == 'J' && q.cols[k].ty == 'I') {
					q.cols[k].ty = 'J';
				}
			}
			for (auto& gr : u.out) {
				for (auto& r : gr.rows) {
					ORow x;
					x.c = r;
					for (size_t k = 0; q.fixed && k < r.c.size(); ++k) {
						size_t w = q.cols[k].width;
						if (w && x.c.c[k].size() > w) {
							throw TooBig();
						}
						if (w && x.c.c[k].size() < w) {
							x.c.c[k].resize(w, ' ');
							q.cols[k].ty = 'S'; // no number any more
						}
					}
					for (size_t k = 0; k < r.c.size(); ++k) {
						x.key.push_back(sval(r.c[k]));
					}
					out.push_back(x);
				}
			}
		}
		unordered = true;
		for (auto& r : out) {
			for (auto& k : r.key) {
				if (k.isint) {
					k = sval(k.text());
				}
			}
		}
	}
	// ---- order by, top
	std::string order, top;
	bool ordered = false;
	if (uni.empty() && (o.must_order || (o.order && g.chance(0.3)))) {
		int nk = g.range(1, 2);
		for (int i = 0; i < nk; ++i) {
			int c = (int)g.below(sel.size() + extra.size());
			if (c >= (int)sel.size()) {
				bool desc = g.chance(0.4);
				order += (order.empty() ? " order by " : ",") + extra[c - sel.size()].sql + (desc ? " desc" : "");
				sk.push_back({c, desc});
				continue;
			}
			if (count_at.count(c)) {
				continue;
			}
			if (!q.star && (sel[c].sql[0] == '\'' || isdigit((unsigned char)sel[c].sql[0]))) {
				continue;
			}
			if (!do_group && !do_distinct) {
				// a missing side has no defined place in the order
				bool nullable = false;
				for (auto& r : out) {
					nullable |= r.key[c].null;
				}
				if (nullable) {
					continue;
				}
			}
			std::string s;
			std::string nm = q.cols[c].name;
			int same = 0;
			for (auto& x : q.cols) {
				same += x.name == nm;
			}
			if (!nm.empty() && same == 1 && (q.star || g.chance(0.6))) {
				s = nm;
			} else {
				s = std::to_string(c + 1);
			}
			bool desc = g.chance(0.4);
			order += (order.empty() ? " order by " : ",") + s + (desc ? " desc" : g.chance(0.2) ? " asc" : "");
			sk.push_back({c, desc});
		}
		ordered = !sk.empty();
	}
	int topn = -1;
	if (o.top && uni.empty() && g.chance(0.2)) {
		topn = g.range(1, 10);
		top = "top " + std::to_string(topn) + " ";
	}
	if (ordered) {
		std::stable_sort(out.begin(), out.end(), [&](const ORow& a, const ORow& b) {
			for (auto& k : sk) {
				int c = cmp_val(a.key[k.col], b.key[k.col]);
				if (k.desc) {
					c = -c;
				}
				if (c) {
					return c < 0;
				}
			}
			return false;
		});
		size_t total = 0;
		for (size_t i = 0; i < out.size();) {
			QGroup gr;
			size_t j = i;
			for (; j < out.size(); ++j) {
				bool same = true;
				for (auto& k : sk) {
					same = same && cmp_val(out[i].key[k.col], out[j].key[k.col]) == 0;
				}
				if (!same) {
					break;
				}
				gr.rows.push_back(out[j].c);
			}
			if (topn >= 0 && total + gr.rows.size() > (size_t)topn) {
				gr.take = topn - (int)total;
				if (gr.take > 0) {
					q.out.push_back(gr);
				}
				break;
			}
			total += gr.rows.size();
			q.out.push_back(gr);
			i = j;
		}
	} else if (unordered) {
		QGroup gr;
		for (auto& r : out) {
			gr.rows.push_back(r.c);
		}
		if (topn >= 0 && gr.rows.size() > (size_t)topn) {
			gr.take = topn;
		}
		if (!gr.rows.empty()) {
			q.out.push_back(gr);
		}
	} else {
		for (size_t i = 0; i < out.size() && (topn < 0 || i < (size_t)topn); ++i) {
			QGroup gr;
			gr.rows.push_back(out[i].c);
			q.out.push_back(gr);
		}
	}
	if (q.fixed && !o.in_sub) {
		// nothing separates the records: in no particular order they must be of one length
		for (auto& gr : q.out) {
			for (auto& r : gr.rows) {
				if (concat(r.c).size() != concat(gr.rows[0].c).size() || concat(r.c).empty()) {
					throw TooBig();
				}
			}
		}
	}
	q.sql_sel = "select " + distinct + top + list;
	q.sql_rest = "from " + from + where + group + having + uni + order;
	q.sql = q.sql_sel + " " + q.sql_rest;
	return q;
}

Query Gen::select(const QOpt& o, Vars* vars)
{
	QOpt p = o;
	for (int i = 0;; ++i) {
		bool u = once_used;
		try {
			return core(p, vars, nullptr);
		} catch (TooBig&) {
			once_used = u;
			if (i > 4) {
				p.max_src = 2;
			}
			if (i > 8) {
				p.join = p.must_join = p.sub = p.must_sub = false;
			}
			if (i > 12) {
				p.group = p.uni = p.distinct = false;
			}
		}
	}
}
