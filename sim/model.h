// The reference model: tables, a small relational evaluator that builds SQL text and
// its meaning side by side, and scripts over a modelled directory of files.
#pragma once
#include "scn.h"
#include <functional>
#include <memory>
#include <set>

struct Col {
	std::string name;
	char ty; // I integer text, K short key word, S free text, N other (computed), J integer and F float while typed
	int width = 0;
};
struct Row {
	std::vector<std::string> v;
	std::string raw; // the line as it stands in the file, without terminator
};
struct Tab {
	std::string file; // name of the file ("" for a derived table)
	std::string ref;  // how SQL names it
	std::vector<Col> cols;
	std::vector<Row> rows;
	char delim = ',';
	bool unordered = false; // order of the rows is not determined
	bool no_final_nl = false;
	bool header = true;
	bool fixed = false;
	bool named = false; // its columns come from a schema file, its name says which
	bool once = false; // the standard input: readable by one query only
	bool odd = false;  // its delimiter cannot be told from the file ...
	std::string delims; // ... and is this one
	int quotes = 0;    // how its header was written
	std::string term = "\n";
};
// how output is written: the settings in force
enum { Q_RFC, Q_QALL, Q_WEAK, Q_NONE };
struct Form {
	std::string delim; // empty: that of the source
	int quotes = Q_RFC;
	std::string term = "\n";
	bool header = true;
};
extern Form form;
std::string out_line(const std::vector<std::string>& v, char delim);  // as the result of a SELECT
std::string tab_line(const std::vector<std::string>& v, char delim);  // as a row of an updated table

struct Val {
	bool null = false, isint = false, isflt = false;
	long i = 0;
	double d = 0;
	std::string s;
	std::string text() const { return null ? "" : isint ? std::to_string(i) : isflt ? std::to_string(d) : s; }
};
struct Env {
	std::vector<const Row*> r; // one per source, null for the missing side of a left join
};
struct Expr {
	std::string sql;
	char ty = 'S'; // I: integer column text; i: true integer; f: float; K/S text
	std::function<Val(const Env&)> f;
	std::string name;  // output column name, empty if it has none
	int width = 0;     // of a column of a fixed-width file
};
struct Pred {
	std::string sql;
	std::function<bool(const Env&)> f;
};
struct Cells {
	std::vector<std::string> c;
	std::string raw;
	bool use_raw = false;
};
struct QGroup {
	std::vector<Cells> rows;
	int take = -1;
};
struct Query {
	std::string sql;        // without INTO
	std::string sql_sel, sql_rest; // sql = sql_sel + " " + sql_rest; INTO goes between
	std::vector<Col> cols;
	std::vector<QGroup> out;
	char delim = ',';
	bool star = false;      // select * of one table: raw lines
	bool fixed = false;     // written without separators
	bool header = true;
	size_t nrows() const;
};

std::string quote(const std::string& s, char delim);
std::string line_of(const std::vector<std::string>& v, char delim);
std::string concat(const std::vector<std::string>& v);
Text render(const Query& q, bool header = true);
Text render_step(const Query& q);
Text tab_text(const Tab& t);
std::string tab_bytes(const Tab& t);
double as_double(const Val& v);
Val fval(double d);
int cmp_nocase_rtrim(const std::string& a, const std::string& b);

// what a generated query may contain
struct QOpt {
	int max_src = 3;
	bool join = true, left = true, cart = true, sub = true, group = true, distinct = true, order = true, top = true,
	     uni = true, pred = true, exprs = true, star = true, scalar_sub = true, insub = true;
	bool must_join = false, must_group = false, must_order = false, must_plain = false, must_distinct = false;
	bool must_uni = false, must_sub = false;
	bool in_sub = false;
	bool into = false;
	bool step = false;
};
struct World {
	std::vector<std::shared_ptr<Tab>> tabs; // base tables present
	Tab* find(const std::string& file);
};

struct Gen {
	sim::Rng g;
	World w;
	int names = 0;
	int many = 0;       // so many different keys
	bool longs = false; // some long values
	bool no_null = false; // nothing that prints a NULL value
	bool once_used = false, once_first = false;
	explicit Gen(uint64_t seed) : g(seed) {}

	std::shared_ptr<Tab> table(const std::string& file, const std::string& prefix, int nrows, char delim);
	void tables(int n, int maxrows);
	// a file without header, its columns described by the schema file `sch'
	std::shared_ptr<Tab> named_table(const std::string& file, const std::string& sch, const std::string& prefix, int nrows,
	                                 bool fixed, std::string& schema);
	Query select(const QOpt& o, std::vector<std::pair<std::string, Val>>* vars = nullptr);

	std::string fresh(const char* p) { return p + std::to_string(++names); }
	Query core(const QOpt& o, std::vector<std::pair<std::string, Val>>* vars, const std::vector<Col>* shape);
	Pred pred(const std::vector<std::pair<const Tab*, std::string>>& src, const std::vector<int>& ok, int depth,
	          const QOpt& o, std::vector<std::pair<std::string, Val>>* vars, bool agg);
	Expr column(const std::vector<std::pair<const Tab*, std::string>>& src, int si, int ci, bool qualify);
	Expr scalar(const std::vector<std::pair<const Tab*, std::string>>& src, const std::vector<int>& ok,
	            const QOpt& o);
	double rich = 0.1;  // how often an expression is of some depth
	bool bytes = false; // a character is a byte
	bool has_cols(const std::vector<std::pair<const Tab*, std::string>>& src, const std::vector<int>& ok);
	Expr rich_int(const std::vector<std::pair<const Tab*, std::string>>& src, const std::vector<int>& ok, int d);
	Expr rich_float(const std::vector<std::pair<const Tab*, std::string>>& src, const std::vector<int>& ok, int d);
	Expr rich_null(const std::vector<std::pair<const Tab*, std::string>>& src, const std::vector<int>& ok);
	Expr rich_text(const std::vector<std::pair<const Tab*, std::string>>& src, const std::vector<int>& ok, int d);
	Expr rich_expr(const std::vector<std::pair<const Tab*, std::string>>& src, const std::vector<int>& ok);
	Pred rich_pred(const std::vector<std::pair<const Tab*, std::string>>& src, const std::vector<int>& ok, int d);
	Expr nullable(const Expr& c);
	bool richly(const std::vector<std::pair<const Tab*, std::string>>& src); // now?
	std::vector<std::shared_ptr<Tab>> keep; // derived tables referenced by closures
};
