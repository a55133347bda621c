// Expressions and predicates of some depth, SQL text and meaning side by side.
#include "model.h"
#include <algorithm>
#include <cstring>
using namespace sim;
typedef std::vector<std::pair<const Tab*, std::string>> Srcs;

static long num(const Val& v) { return v.isint ? v.i : strtol(v.s.c_str(), nullptr, 10); }
static Val ival(long i)
{
	Val v;
	v.isint = true;
	v.i = i;
	return v;
}
Val fval(double d)
{
	Val v;
	v.isflt = true;
	v.d = d;
	return v;
}
double as_double(const Val& v) { return v.isflt ? v.d : v.isint ? (double)v.i : strtod(v.s.c_str(), nullptr); }
static Val sval(const std::string& s)
{
	Val v;
	v.s = s;
	return v;
}
static std::vector<std::pair<int, int>> cols_of(const Srcs& src, const std::vector<int>& ok, const char* tys)
{
	std::vector<std::pair<int, int>> r;
	for (int s : ok) {
		for (size_t c = 0; c < src[s].first->cols.size(); ++c) {
			if (strchr(tys, src[s].first->cols[c].ty)) {
				r.push_back({s, (int)c});
			}
		}
	}
	return r;
}
// ---- characters: one byte each, or UTF-8
static std::vector<std::string> chars(const std::string& s, bool bytes)
{
	std::vector<std::string> r;
	for (char c : s) {
		if (bytes || r.empty() || ((unsigned char)c & 0xC0) != 0x80) {
			r.push_back("");
		}
		r.back() += c;
	}
	return r;
}
static std::string part(const std::string& s, long from, long n, bool bytes)
{
	std::string r;
	auto v = chars(s, bytes);
	for (long i = std::max(from, 0L); i < from + n && i < (long)v.size(); ++i) {
		r += v[i];
	}
	return r;
}
static long text_len(const std::string& s, bool bytes)
{
	auto v = chars(s, bytes);
	while (!v.empty() && v.back().size() == 1 && isspace((unsigned char)v.back()[0])) {
		v.pop_back();
	}
	return (long)v.size();
}
static std::string low(std::string s)
{
	for (char& c : s) {
		c = tolower((unsigned char)c);
	}
	return s;
}
static std::string replaced(const std::string& s, const std::string& a, const std::string& b)
{
	std::string r, ls = low(s), la = low(a);
	for (size_t i = 0; i < s.size();) {
		if (ls.compare(i, la.size(), la) == 0) {
			r += b;
			i += a.size();
		} else {
			r += s[i++];
		}
	}
	return r;
}
// a pattern: each element is % or a set of (lower case) characters, perhaps negated
struct Pat {
	bool any = false, neg = false, dot = false;
	std::string set;
};
static bool like(const std::string& s, size_t i, const std::vector<Pat>& p, size_t k)
{
	if (k == p.size()) {
		return i == s.size();
	}
	if (p[k].any) {
		for (size_t j = i; j <= s.size(); ++j) {
			if (like(s, j, p, k + 1)) {
				return true;
			}
		}
		return false;
	}
	if (i >= s.size()) {
		return false;
	}
	bool in = p[k].dot || (p[k].set.find(s[i]) != std::string::npos) != p[k].neg;
	return in && like(s, i + 1, p, k + 1);
}
static std::vector<Pat> pattern(Rng& g, std::string& sql, bool dots)
{
	std::vector<Pat> v;
	int n = g.range(1, 4);
	for (int i = 0; i < n; ++i) {
		Pat p;
		int k = (int)g.below(dots ? 8 : 5);
		if (k < 2) {
			if (!v.empty() && v.back().any) {
				continue;
			}
			p.any = true;
			sql += "%";
		} else if (k < 5) {
			p.set = std::string(1, "abcdexzqmpl"[g.below(11)]);
			sql += g.chance(0.3) ? (char)toupper(p.set[0]) : p.set[0];
		} else if (k == 5) {
			p.dot = true;
			sql += "_";
		} else if (k == 6) {
			char lo = (char)('a' + g.below(20)), hi = (char)(lo + g.range(1, 5));
			for (char c = lo; c <= hi; ++c) {
				p.set += c;
			}
			p.neg = g.chance(0.3);
			sql += std::string("[") + (p.neg ? "^" : "") + lo + "-" + hi + "]";
		} else {
			p.set = g.pick(std::vector<std::string> {"ac", "xyz", "b", "eqm"});
			p.neg = g.chance(0.4);
			sql += std::string("[") + (p.neg ? "^" : "") + p.set + "]";
		}
		v.push_back(p);
	}
	if (g.chance(0.5) && !v.back().any) {
		Pat p;
		p.any = true;
		v.push_back(p);
		sql += "%";
	}
	return v;
}
static std::string sq(const std::string& s)
{
	std::string r = "'";
	for (char c : s) {
		r += c;
		r += c == '\'' ? "'" : "";
	}
	return r + "'";
}
static bool text_of(const Srcs& src, const std::vector<int>& ok, const char* t) { return !cols_of(src, ok, t).empty(); }
bool Gen::has_cols(const Srcs& src, const std::vector<int>& ok) { return text_of(src, ok, "IJKS"); }

// ---- whole numbers
Expr Gen::rich_int(const Srcs& src, const std::vector<int>& ok, int d)
{
	auto ic = cols_of(src, ok, "IJ");
	bool txt = text_of(src, ok, "IKS"), q = src.size() > 1 || g.chance(0.2), b = bytes;
	Expr r;
	r.ty = 'i';
	int k = d > 0 ? (int)g.below(12) : (int)g.below(4);
	if (k == 11) {
		Expr e = rich_float(src, ok, d - 1);
		auto f = e.f;
		r.sql = "cast(" + e.sql + " as int)";
		r.f = [f](const Env& x) { return ival((long)as_double(f(x))); };
		return r;
	}
	if (!txt || (k < 3 && !ic.empty())) {
		if (ic.empty()) {
			r.sql = "7";
			r.f = [](const Env&) { return ival(7); };
			return r;
		}
		auto c = g.pick(ic);
		Expr e = column(src, c.first, c.second, q);
		auto f = e.f;
		r.sql = "cast(" + e.sql + " as int)";
		r.f = [f](const Env& x) { return ival(num(f(x))); };
		return r;
	}
	if (k < 5) {
		bool len = g.chance(0.7);
		Expr e = rich_text(src, ok, d - 1);
		auto f = e.f;
		r.sql = std::string(len ? "len(" : "datalength(") + e.sql + ")";
		r.f = [f, len, b](const Env& x) {
			std::string s = f(x).text();
			return ival(len ? text_len(s, b) : (long)s.size());
		};
		return r;
	}
	if (k == 5) {
		Pred p = rich_pred(src, ok, 0);
		Expr u = rich_int(src, ok, d - 1);
		bool lit = g.chance(0.5);
		int n = g.range(0, 20);
		Expr v = rich_int(src, ok, d - 1);
		auto fp = p.f;
		auto fu = u.f, fv = v.f;
		r.sql = "case when " + p.sql + " then " + u.sql + " else " + (lit ? std::to_string(n) : v.sql) + " end";
		r.f = [fp, fu, fv, lit, n](const Env& x) { return fp(x) ? fu(x) : lit ? ival(n) : fv(x); };
		return r;
	}
	if (k == 6) {
		Expr e = rich_int(src, ok, d - 1);
		auto f = e.f;
		if (g.chance(0.2)) {
			r.sql = "cast(" + e.sql + " as bit)";
			r.f = [f](const Env& x) { return ival(num(f(x)) != 0); };
			return r;
		}
		bool inv = g.chance(0.4);
		r.sql = inv ? "(~(" + e.sql + "))" : "(-(" + e.sql + "))";
		r.f = [f, inv](const Env& x) {
			long i = num(f(x));
			return ival(inv ? ~i : -i);
		};
		return r;
	}
	Expr e = rich_int(src, ok, d - 1);
	auto f = e.f;
	static const char* ops[] = {"+", "-", "*", "/", "%", "&", "|", "^"};
	int op = (int)g.below(8);
	bool two = (op < 2 || op > 4) && g.chance(0.4);
	int n = g.range(1, 9);
	Expr e2;
	std::function<Val(const Env&)> f2 = [n](const Env&) { return ival(n); };
	std::string rhs = std::to_string(n);
	if (two) {
		e2 = rich_int(src, ok, d - 1);
		f2 = e2.f;
		rhs = e2.sql;
	}
	r.sql = "(" + e.sql + " " + ops[op] + " " + rhs + ")";
	r.f = [f, f2, op](const Env& x) {
		long i = num(f(x)), j = num(f2(x));
		switch (op) {
		case 0:
			return ival(i + j);
		case 1:
			return ival(i - j);
		case 2:
			return ival(i * j);
		case 3:
			return ival(i / j);
		case 4:
			return ival(i % j);
		case 5:
			return ival(i & j);
		case 6:
			return ival(i | j);
		default:
			return ival(i ^ j);
		}
	};
	return r;
}

// ---- fractions: eighths of moderate numbers, so every sum is exact and so is their text
Expr Gen::rich_float(const Srcs& src, const std::vector<int>& ok, int d)
{
	auto ic = cols_of(src, ok, "IJ"), fc = cols_of(src, ok, "F");
	bool q = src.size() > 1 || g.chance(0.2);
	Expr r;
	r.ty = 'f';
	int k = d > 0 ? (int)g.below(9) : (int)g.below(4);
	if (!fc.empty() && (ic.empty() || g.chance(0.4))) {
		auto c = g.pick(fc);
		Expr e = column(src, c.first, c.second, q);
		auto f = e.f;
		r.sql = "cast(" + e.sql + " as float)";
		r.f = [f](const Env& x) { return fval(as_double(f(x))); };
		return r;
	}
	if (k < 4 || ic.empty()) {
		int n = g.range(1, 12);
		if (ic.empty()) {
			r.sql = "2.5";
			r.f = [](const Env&) { return fval(2.5); };
			return r;
		}
		auto c = g.pick(ic);
		Expr e = column(src, c.first, c.second, q);
		auto f = e.f;
		double m = n / 4.0, v = n & 1 ? 2.0 : 8.0;
		char lit[32];
		switch (k) {
		case 0:
			r.sql = "cast(" + e.sql + " as float)";
			r.f = [f](const Env& x) { return fval(as_double(f(x))); };
			break;
		case 1:
			snprintf(lit, sizeof(lit), "%.2f", m);
			r.sql = "(cast(" + e.sql + " as int) * " + lit + ")";
			r.f = [f, m](const Env& x) { return fval(num(f(x)) * m); };
			break;
		case 2:
			snprintf(lit, sizeof(lit), "%.1f", v);
			r.sql = "(cast(" + e.sql + " as int) / " + lit + ")";
			r.f = [f, v](const Env& x) { return fval(num(f(x)) / v); };
			break;
		default:
			snprintf(lit, sizeof(lit), "%.3f", m / 2);
			r.sql = std::string("(") + lit + " * cast(" + e.sql + " as float))";
			r.f = [f, m](const Env& x) { return fval(m / 2 * as_double(f(x))); };
		}
		return r;
	}
	Expr e = rich_float(src, ok, d - 1);
	auto f = e.f;
	if (k == 4) {
		Pred p = rich_pred(src, ok, 0);
		Expr v = rich_float(src, ok, d - 1);
		auto fp = p.f;
		auto fv = v.f;
		bool lit = g.chance(0.4);
		r.sql = "case when " + p.sql + " then " + e.sql + " else " + (lit ? "0.5" : v.sql) + " end";
		r.f = [fp, f, fv, lit](const Env& x) { return fp(x) ? f(x) : lit ? fval(0.5) : fv(x); };
		return r;
	}
	if (k == 5) {
		// never a negative zero
		r.sql = "(0 - " + e.sql + ")";
		r.f = [f](const Env& x) { return fval(0 - as_double(f(x))); };
		return r;
	}
	if (k == 6) {
		int n = g.range(1, 9);
		bool swap = g.chance(0.5);
		r.sql = swap ? "(" + std::to_string(n) + " + " + e.sql + ")" : "(" + e.sql + " - " + std::to_string(n) + ")";
		r.f = [f, n, swap](const Env& x) { return fval(swap ? n + as_double(f(x)) : as_double(f(x)) - n); };
		return r;
	}
	bool mixed = g.chance(0.4), minus = k == 8;
	Expr v = mixed && !ic.empty() ? rich_int(src, ok, 0) : rich_float(src, ok, d - 1);
	auto fv = v.f;
	r.sql = "(" + e.sql + (minus ? " - " : " + ") + v.sql + ")";
	r.f = [f, fv, minus](const Env& x) {
		double a = as_double(f(x)), c = as_double(fv(x));
		return fval(minus ? a - c : a + c);
	};
	return r;
}

// ---- text
Expr Gen::rich_text(const Srcs& src, const std::vector<int>& ok, int d)
{
	auto kc = cols_of(src, ok, "K"), sc = cols_of(src, ok, "S"), ic = cols_of(src, ok, "I");
	bool q = src.size() > 1 || g.chance(0.2), b = bytes;
	int k = d > 0 ? (int)g.below(14) : 0;
	Expr r;
	if (k == 13) {
		// CASE without a match is NULL
		Expr e = rich_text(src, ok, d - 1);
		Pred p = rich_pred(src, ok, 0);
		auto f = e.f;
		auto fp = p.f;
		r.ty = e.ty == 'K' ? 'K' : 'S';
		int how = (int)g.below(4);
		r.sql = "case when " + p.sql + " then " + e.sql + " end";
		if (how == 0) {
			r.sql = "left(" + r.sql + ",60)";
		} else if (how == 1) {
			r.sql = "(" + r.sql + " + '')";
		} else if (how == 2) {
			r.sql = "replace(" + r.sql + ",'@','')";
		}
		if (r.ty == 'S' && !b && how == 0) {
			how = 3;
			r.sql = "case when " + p.sql + " then " + e.sql + " end";
		}
		r.sql = "isnull(" + r.sql + ",'none')";
		r.f = [f, fp, how](const Env& x) {
			if (!fp(x)) {
				return sval("none");
			}
			std::string s = f(x).text();
			return sval(how == 0 ? s.substr(0, 60) : how == 2 ? replaced(s, "@", "") : s);
		};
		return r;
	}
	if (k < 2) {
		auto cs = kc.empty() || (!sc.empty() && g.chance(0.25)) ? sc : kc;
		if (cs.empty()) {
			cs = ic;
		}
		if (cs.empty()) {
			r.sql = "'lit'";
			r.ty = 'K';
			r.f = [](const Env&) { return sval("lit"); };
			return r;
		}
		auto c = g.pick(cs);
		return column(src, c.first, c.second, q);
	}
	if (k == 12 || (k == 11 && kc.empty() && sc.empty())) {
		if (!text_of(src, ok, "IJ")) {
			return rich_text(src, ok, d - 1);
		}
		Expr e = g.chance(0.2) ? rich_float(src, ok, d - 1) : rich_int(src, ok, d - 1);
		auto f = e.f;
		r.ty = 'N';
		r.sql = "cast(" + e.sql + " as varchar(30))";
		r.f = [f](const Env& x) { return sval(f(x).text()); };
		return r;
	}
	Expr e = rich_text(src, ok, d - 1);
	auto f = e.f;
	r.ty = e.ty == 'I' ? 'N' : e.ty;
	if (k < 5) {
		int n = g.range(0, 6);
		bool sub = k == 4, computed = g.chance(0.25);
		std::string sn = std::to_string(n);
		std::function<long(const Env&)> fn = [n](const Env&) { return (long)n; };
		if (computed) {
			if (g.chance(0.5) || !text_of(src, ok, "IJ")) {
				sn = "len(" + e.sql + ")";
				fn = [f, b](const Env& x) { return text_len(f(x).text(), b); };
			} else {
				Expr i = rich_int(src, ok, 0);
				auto fi = i.f;
				sn = i.sql + " & 3";
				fn = [fi](const Env& x) { return num(fi(x)) & 3; };
			}
		}
		if (sub) {
			int from = g.range(-1, 5);
			r.sql = "substring(" + e.sql + "," + (from < 0 ? "1 - 2" : std::to_string(from)) + "," + sn + ")";
			r.f = [f, fn, from, b](const Env& x) { return sval(part(f(x).text(), from - 1, fn(x), b)); };
		} else if (k == 2) {
			r.sql = "left(" + e.sql + "," + sn + ")";
			r.f = [f, fn, b](const Env& x) { return sval(part(f(x).text(), 0, fn(x), b)); };
		} else {
			r.sql = "right(" + e.sql + "," + sn + ")";
			r.f = [f, fn, b](const Env& x) {
				std::string s = f(x).text();
				long len = (long)chars(s, b).size(), m = std::min(len, fn(x));
				return sval(part(s, len - m, m, b));
			};
		}
		return r;
	}
	if (k == 5 || k == 6) {
		std::string a = g.pick(std::vector<std::string> {"a", "B", "x", "e", "ab", "Z", "q", " "}),
		            z = g.pick(std::vector<std::string> {"", "**", "Q", "aa", "longer than it was"});
		r.sql = "replace(" + e.sql + "," + sq(a) + "," + sq(z) + ")";
		r.f = [f, a, z](const Env& x) { return sval(replaced(f(x).text(), a, z)); };
		return r;
	}
	if (k == 7) {
		Expr e2 = rich_text(src, ok, d - 1);
		auto f2 = e2.f;
		if (g.chance(0.5)) {
			e2.sql = "'-x'";
			f2 = [](const Env&) { return sval("-x"); };
			e2.ty = 'K';
		}
		bool swap = g.chance(0.4);
		r.ty = e2.ty == 'K' ? r.ty : 'S';
		r.sql = swap ? e2.sql + " + " + e.sql : e.sql + " + " + e2.sql;
		r.sql = "(" + r.sql + ")";
		r.f = [f, f2, swap](const Env& x) {
			std::string a = f(x).text(), c = f2(x).text();
			return sval(swap ? c + a : a + c);
		};
		return r;
	}
	if (k == 8) {
		// cuts and pads bytes
		int n = g.range(1, 6);
		bool fixed = g.chance(0.5);
		if (r.ty == 'S' && !b) {
			r.ty = 'S';
			r.sql = "isnull(" + e.sql + ",'none')";
			r.f = f;
			return r;
		}
		r.sql = "cast(" + e.sql + " as " + (fixed ? "char(" : "varchar(") + std::to_string(n) + "))";
		r.f = [f, n, fixed](const Env& x) {
			std::string s = f(x).text();
			s = s.substr(0, n);
			if (fixed) {
				s.resize(n, ' ');
			}
			return sval(s);
		};
		return r;
	}
	Expr e2 = rich_text(src, ok, d - 1);
	auto f2 = e2.f;
	bool lit = g.chance(0.5);
	if (!lit) {
		r.ty = e2.ty == 'K' ? r.ty : 'S';
	}
	if (k == 9 && text_of(src, ok, "IJ") && g.chance(0.4)) {
		Expr s = g.chance(0.2) ? rich_float(src, ok, d - 1) : rich_int(src, ok, d - 1);
		if (s.sql.find("case ") != std::string::npos) {
			s = rich_int(src, ok, 0);
		}
		auto fs = s.f;
		int n1 = g.range(0, 8), n2 = g.range(0, 12);
		r.sql = "case " + s.sql + " when " + std::to_string(n1) + " then " + e.sql + " when " + std::to_string(n2)
		        + " then 'second' else " + (lit ? "'other'" : e2.sql) + " end";
		r.f = [f, f2, fs, n1, n2, lit](const Env& x) {
			double v = as_double(fs(x));
			return v == n1 ? sval(f(x).text()) : v == n2 ? sval("second") : lit ? sval("other") : sval(f2(x).text());
		};
		if (r.sql.find("case case") == std::string::npos) {
			return r;
		}
	}
	if (k == 9 && !kc.empty()) {
		auto c = g.pick(kc);
		Expr s = column(src, c.first, c.second, q);
		if (g.chance(0.5)) {
			Expr t = rich_text(src, ok, d - 1);
			if (t.ty != 'I' && t.ty != 'N' && t.sql.find("case ") == std::string::npos) {
				s = t;
			}
		}
		auto fs = s.f;
		std::string w1 = g.pick(std::vector<std::string> {"ab", "CD", "E", "zed"}),
		            w2 = g.pick(std::vector<std::string> {"XY", "q1", "MMM", "zz9"});
		r.sql = "case " + s.sql + " when " + sq(w1) + " then " + e.sql + " when " + sq(w2) + " then 'second' else "
		        + (lit ? "'other'" : e2.sql) + " end";
		r.f = [f, f2, fs, w1, w2, lit](const Env& x) {
			std::string v = fs(x).text();
			return cmp_nocase_rtrim(v, w1) == 0   ? sval(f(x).text())
			       : cmp_nocase_rtrim(v, w2) == 0 ? sval("second")
			       : lit                          ? sval("other")
			                                      : sval(f2(x).text());
		};
		return r;
	}
	Pred p = rich_pred(src, ok, d > 1 ? 1 : 0);
	auto fp = p.f;
	r.sql = "case when " + p.sql + " then " + e.sql + " else " + (lit ? "'other'" : e2.sql) + " end";
	r.f = [f, f2, fp, lit](const Env& x) { return fp(x) ? sval(f(x).text()) : lit ? sval("other") : sval(f2(x).text()); };
	return r;
}

Expr Gen::rich_expr(const Srcs& src, const std::vector<int>& ok)
{
	int d = g.range(1, 3);
	if (!has_cols(src, ok)) {
		Expr r;
		r.sql = "'lit'";
		r.ty = 'K';
		r.f = [](const Env&) { return sval("lit"); };
		return r;
	}
	return g.chance(0.2) && text_of(src, ok, "IJF") ? rich_float(src, ok, d) : g.chance(0.5) ? rich_int(src, ok, d) : rich_text(src, ok, d);
}

// a value that may be NULL: only for what is printed
Expr Gen::rich_null(const Srcs& src, const std::vector<int>& ok)
{
	int how = (int)g.below(3);
	Expr e = how == 0 ? rich_float(src, ok, 1) : how == 1 ? rich_int(src, ok, 1) : rich_text(src, ok, 1), r;
	Pred p = rich_pred(src, ok, 0);
	auto f = e.f;
	auto fp = p.f;
	r.ty = how == 0 ? 'f' : how == 1 ? 'i' : e.ty;
	r.sql = "case when " + p.sql + " then " + e.sql + " end";
	bool more = g.chance(0.5);
	if (more) {
		r.sql = how == 2 ? "(" + r.sql + " + 'z')" : "(" + r.sql + " + 1)";
		r.ty = how == 2 ? 'S' : r.ty;
	}
	r.f = [f, fp, more, how](const Env& x) {
		Val v;
		v.null = true;
		if (!fp(x)) {
			return v;
		}
		v = f(x);
		return !more ? v : how == 0 ? fval(v.d + 1) : how == 1 ? ival(num(v) + 1) : sval(v.text() + "z");
	};
	return r;
}

// ---- conditions
Pred Gen::rich_pred(const Srcs& src, const std::vector<int>& ok, int d)
{
	Pred p;
	static const char* ops[] = {"=", "<>", ">", ">=", "<", "<="};
	auto cmp = [](int op, long c) {
		return op == 0 ? c == 0 : op == 1 ? c != 0 : op == 2 ? c > 0 : op == 3 ? c >= 0 : op == 4 ? c < 0 : c <= 0;
	};
	if (!has_cols(src, ok)) {
		p.sql = "1 = 1";
		p.f = [](const Env&) { return true; };
		return p;
	}
	if (d > 0 && g.chance(0.6)) {
		Pred a = rich_pred(src, ok, d - 1);
		auto fa = a.f;
		int k = (int)g.below(3);
		if (k == 0) {
			p.sql = "not (" + a.sql + ")";
			p.f = [fa](const Env& x) { return !fa(x); };
			return p;
		}
		Pred c = rich_pred(src, ok, d - 1);
		auto fc = c.f;
		bool neg = g.chance(0.25);
		p.sql = std::string(neg ? "not " : "") + "(" + a.sql + (k == 1 ? " and " : " or ") + c.sql + ")";
		if (k == 1) {
			p.f = [fa, fc, neg](const Env& x) { return (fa(x) && fc(x)) != neg; };
		} else {
			p.f = [fa, fc, neg](const Env& x) { return (fa(x) || fc(x)) != neg; };
		}
		return p;
	}
	bool txt = text_of(src, ok, "KS");
	int k = (int)g.below(8);
	if (d > 0 && g.chance(0.08)) {
		bool neg = g.chance(0.4), i = g.chance(0.5);
		Pred q = rich_pred(src, ok, 0);
		Expr e = i ? rich_int(src, ok, d - 1) : rich_text(src, ok, d - 1);
		auto f = q.f;
		int use = (int)g.below(3);
		p.sql = "case when " + q.sql + " then " + e.sql + " end";
		if (use) {
			p.sql = i ? "(" + p.sql + (use == 1 ? " + 2)" : " * 3)") : use == 1 ? "len(" + p.sql + ")" : "(" + p.sql + " + 'x')";
		}
		p.sql += neg ? " is not null" : " is null";
		p.f = [f, neg](const Env& x) { return f(x) == neg; };
		return p;
	}
	if (g.chance(0.15)) {
		Expr e = rich_float(src, ok, d);
		auto f = e.f;
		int op = (int)g.below(6), how = (int)g.below(3), n = g.range(0, 40);
		Expr e2 = how == 2 ? rich_float(src, ok, d) : rich_int(src, ok, 0);
		auto f2 = e2.f;
		char lit[32];
		snprintf(lit, sizeof(lit), "%.2f", n / 4.0);
		p.sql = e.sql + " " + ops[op] + " " + (how ? e2.sql : lit);
		p.f = [f, f2, op, cmp, how, n](const Env& x) {
			double a = as_double(f(x)), c = how ? as_double(f2(x)) : n / 4.0;
			return cmp(op, a < c ? -1 : a > c);
		};
		return p;
	}
	if (g.chance(0.12)) { // a list of numbers, whole and with fractions
		bool fl = g.chance(0.3), neg = g.chance(0.35);
		Expr e = fl ? rich_float(src, ok, d) : rich_int(src, ok, d);
		auto f = e.f;
		p.sql = e.sql + (neg ? " not in (" : " in (");
		std::vector<std::function<double(const Env&)>> l;
		int n = g.range(1, 4), sure = g.range(0, n - 1);
		for (int i = 0; i < n; ++i) {
			int how = (int)g.below(i == sure ? 2 : 4);
			int v = g.range(0, 8);
			std::string x = std::to_string(v);
			double c = v;
			if (how == 1) {
				x += ".5";
				c += 0.5;
			} else if (how == 2) {
				x = sq(x);
			}
			if (how == 3) {
				Expr e2 = rich_int(src, ok, 0);
				auto f2 = e2.f;
				x = e2.sql;
				l.push_back([f2](const Env& y) { return as_double(f2(y)); });
			} else {
				l.push_back([c](const Env&) { return c; });
			}
			p.sql += (i ? "," : "") + x;
		}
		p.sql += ")";
		p.f = [f, l, neg](const Env& x) {
			bool in = false;
			for (auto& c : l) {
				in = in || as_double(f(x)) == c(x);
			}
			return in != neg;
		};
		return p;
	}
	if (k < 3 || !txt) {
		Expr e = rich_int(src, ok, d);
		auto f = e.f;
		int op = (int)g.below(6);
		if (g.chance(0.4)) {
			Expr e2 = rich_int(src, ok, d);
			auto f2 = e2.f;
			p.sql = e.sql + " " + ops[op] + " " + e2.sql;
			p.f = [f, f2, op, cmp](const Env& x) {
				long a = num(f(x)), c = num(f2(x));
				return cmp(op, a < c ? -1 : a > c);
			};
			return p;
		}
		int n = g.range(0, 12);
		p.sql = e.sql + " " + ops[op] + " " + std::to_string(n);
		p.f = [f, n, op, cmp](const Env& x) {
			long a = num(f(x));
			return cmp(op, a < n ? -1 : a > n);
		};
		return p;
	}
	Expr e = rich_text(src, ok, d);
	if (e.ty == 'I' || e.ty == 'N') {
		// a text of digits would be compared as a number with a number only
		e = rich_text(src, ok, 0);
	}
	auto f = e.f;
	if (k < 5) {
		int op = (int)g.below(6);
		std::string lit = g.pick(std::vector<std::string> {"ab", "A", "cd", "x", "MMM", "e", "zed", "pl", "Q1  ", ""});
		p.sql = e.sql + " " + ops[op] + " " + sq(lit);
		p.f = [f, lit, op, cmp](const Env& x) { return cmp(op, cmp_nocase_rtrim(f(x).text(), lit)); };
		return p;
	}
	bool neg = g.chance(0.35);
	if (k < 7) {
		std::string pat;
		auto v = pattern(g, pat, e.ty == 'K');
		p.sql = e.sql + (neg ? " not like '" : " like '") + pat + "'";
		p.f = [f, v, neg](const Env& x) { return like(low(f(x).text()), 0, v, 0) != neg; };
		return p;
	}
	std::vector<std::string> l;
	int n = g.range(1, 3);
	p.sql = e.sql + (neg ? " not in (" : " in (");
	for (int i = 0; i < n; ++i) {
		l.push_back(g.pick(std::vector<std::string> {"ab", "A", "cd", "X", "mmm", "E", "Zed", "plain"}));
		p.sql += (i ? "," : "") + sq(l.back());
	}
	p.sql += ")";
	p.f = [f, l, neg](const Env& x) {
		bool in = false;
		for (auto& s : l) {
			in = in || cmp_nocase_rtrim(f(x).text(), s) == 0;
		}
		return in != neg;
	};
	return p;
}
