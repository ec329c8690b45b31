// In-memory stand-ins for casacore tables: named columns of values. Tables made
// with a name are kept in a registry, so that they can be opened again.
// Selections and sorted tables are views. Queries only compare a column with a
// number.
#ifndef MINI_CASA_TABLES_H
#define MINI_CASA_TABLES_H
#include <filesystem>
#include <algorithm>
#include <any>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include "casa_arrays.h"
#include "casa_measures.h"
#include "casa_util.h"
namespace casacore {
#ifndef MINI_CASA_ROWNR
#define MINI_CASA_ROWNR
typedef unsigned long long rownr_t;
#endif
class Table;
class TableLock { public: enum LockOption { AutoLocking, AutoNoReadLocking, PermanentLocking, UserLocking, NoLocking, DefaultLocking }; TableLock(LockOption = DefaultLocking) {} };
enum DataType { TpBool, TpInt, TpFloat, TpDouble, TpComplex, TpString, TpTable, TpOther };
class TableRecord : public Record {
 public:
  template <typename T> T get(const std::string& n) const { return Record::get<T>(n); }
  std::string asString(const std::string& n) const { return get<std::string>(n); }
  int asInt(const std::string& n) const { return get<int>(n); }
  double asDouble(const std::string& n) const { return get<double>(n); }
  Table asTable(const std::string& n) const;
  Table asTable(size_t i) const;
  DataType type(size_t i) const;
  void defineTable(const std::string& n, const Table& t);
  bool asBool(const std::string& n) const { return get<bool>(n); }
};
template <typename T> constexpr DataType MiniType() {
  return std::is_same_v<T, bool> ? TpBool : std::is_same_v<T, int> ? TpInt : std::is_same_v<T, float> ? TpFloat : std::is_same_v<T, double> ? TpDouble :
    std::is_same_v<T, Complex> ? TpComplex : std::is_same_v<T, String> ? TpString : TpOther;
}
class ColumnDesc {
 public:
  enum Option { Direct = 1, Undefined = 2, FixedShape = 4 };
  ColumnDesc() {}
  ColumnDesc(const std::string& n, DataType t, bool arr, const IPosition& s = IPosition()) : name(n), type_(t), array_(arr), shape_(s) {}
  DataType dataType() const { return type_; }
  bool isArray() const { return array_; }
  bool isScalar() const { return !array_; }
  const IPosition& shape() const { return shape_; }
  void setShape(const IPosition& s, bool = false) { shape_ = s; }
  void setOptions(int o) { options_ = o; }
  int options() const { return options_; }
  TableRecord& rwKeywordSet() { return keys; }
  // Both a string and a function that gives it.
  struct Name : std::string { using std::string::string; using std::string::operator=; Name() {} Name(const std::string& s) : std::string(s) {} const std::string& operator()() const { return *this; } };
  Name name;
  TableRecord keys;
 private:
  int options_ = 0;
  DataType type_ = TpOther;
  bool array_ = false;
  IPosition shape_;
};
template <typename T> struct ScalarColumnDesc : ColumnDesc {
  explicit ScalarColumnDesc(const std::string& n, int = 0) : ColumnDesc(n, MiniType<T>(), false) {}
  ScalarColumnDesc(const std::string& n, const std::string&, int = 0) : ColumnDesc(n, MiniType<T>(), false) {}
  template <typename D> void setDefault(const D&) {}
};
template <typename T> struct ArrayColumnDesc : ColumnDesc {
  explicit ArrayColumnDesc(const std::string& n) : ColumnDesc(n, MiniType<T>(), true) {}
  ArrayColumnDesc(const std::string& n, const IPosition& s, int = 0) : ColumnDesc(n, MiniType<T>(), true, s) {}
  ArrayColumnDesc(const std::string& n, const std::string&, const IPosition& s, int = 0) : ColumnDesc(n, MiniType<T>(), true, s) {}
  ArrayColumnDesc(const std::string& n, int, int = 0) : ColumnDesc(n, MiniType<T>(), true) {}
  ArrayColumnDesc(const std::string& n, const std::string&, int = 0, int = 0) : ColumnDesc(n, MiniType<T>(), true) {}
};
class TableDesc {
 public:
  enum TDOption { Old, New, NewNoReplace, Scratch, Update, Delete };
  TableDesc() {}
  TableDesc(const std::string&, TDOption) {}
  TableDesc(const std::string&, const std::string&, TDOption) {}
  void addColumn(const ColumnDesc& d) { addColumn(d, d.name); }
  void addColumn(const ColumnDesc& d, const std::string& n) { ColumnDesc c(d); c.name = n; cols.push_back(c); }
  void removeColumn(const std::string& n) { cols.erase(std::remove_if(cols.begin(), cols.end(), [&](auto& c) { return c.name == n; }), cols.end()); }
  bool isColumn(const std::string& n) const { return std::any_of(cols.begin(), cols.end(), [&](auto& c) { return c.name == n; }); }
  const ColumnDesc& columnDesc(const std::string& n) const {
    for (auto& c : cols) if (c.name == n) return c;
    throw AipsError("no column " + n);
  }
  const ColumnDesc& operator[](const std::string& n) const { return columnDesc(n); }
  template <typename M> void adjustHypercolumns(const M&) {}
  ColumnDesc& rwColumnDesc(const std::string& n) { return const_cast<ColumnDesc&>(columnDesc(n)); }
  std::string& comment() { static std::string c; return c; }
  TableRecord& rwKeywordSet() { static TableRecord r; return r; }
  std::vector<ColumnDesc> cols;
};
struct MiniTable {
  std::string name;
  size_t rows = 0;
  std::map<std::string, std::map<size_t, std::any>> cols;
  std::map<std::string, ColumnDesc> desc;
  std::map<std::string, TableRecord> colkeys;
  TableRecord keys;
  Record dminfo;
  std::map<std::string, std::string> dm;
  size_t flushes = 0;
  std::vector<std::unique_ptr<TableDesc>> descs;
};
inline std::map<std::string, std::shared_ptr<MiniTable>>& mini_tables() { static std::map<std::string, std::shared_ptr<MiniTable>> m; return m; }
inline double mini_number(const std::any& a) {
  if (auto* v = std::any_cast<double>(&a)) return *v;
  if (auto* v = std::any_cast<int>(&a)) return *v;
  if (auto* v = std::any_cast<float>(&a)) return *v;
  if (auto* v = std::any_cast<bool>(&a)) return *v;
  throw AipsError("mini-casacore: not a number");
}
class Table;
class SetupNewTable {
 public:
  SetupNewTable(const std::string& n, const TableDesc& d, int o) : name(n), desc(d), option(o) {}
  template <typename R> void bindCreate(const R& r) { info = r; }
  template <typename... A> void bindAll(A&&...) {}
  template <typename... A> void bindColumn(A&&...) {}
  void setShapeColumn(const std::string& n, const IPosition& s) { desc.rwColumnDesc(n).setShape(s); }
  std::string name;
  TableDesc desc;
  int option;
  Record info;
};
// Storage managers: only their names.
class DataManager {
 public:
  DataManager(const std::string& n = "", const std::string& t = "") : name(n), type(t) {}
  virtual ~DataManager() {}
  typedef DataManager* (*Ctor)(const String&, const Record&);
  static std::map<std::string, Ctor>& ctors() { static std::map<std::string, Ctor> m; return m; }
  static Ctor getCtor(const std::string& n) { auto it = ctors().find(n); return it == ctors().end() ? nullptr : it->second; }
  std::string name, type;
};
typedef DataManager::Ctor DataManagerCtor;
struct StandardStMan : DataManager { template <typename... A> StandardStMan(const std::string& n = "", A...) : DataManager(n, "StandardStMan") {} StandardStMan(int) {} };
struct IncrementalStMan : DataManager { template <typename... A> IncrementalStMan(const std::string& n = "", A...) : DataManager(n, "IncrementalStMan") {} };
struct TiledColumnStMan : DataManager { TiledColumnStMan(const std::string& n, const IPosition&) : DataManager(n, "TiledColumnStMan") {} };
struct Sort {
  enum Order { Descending = -1, Ascending = 1 };
  enum Option { DefaultSort = 0, HeapSort = 1, InsSort = 2, QuickSort = 4, ParSort = 8, NoDuplicates = 16 };
};
class Table {
 public:
  enum TableOption { Old = 1, New, NewNoReplace, Scratch, Update, Delete };
  enum TableType { Plain, Memory };
  enum EndianFormat { BigEndian, LittleEndian, LocalEndian, AipsrcEndian };
  Table() {}
  explicit Table(const SetupNewTable& s, rownr_t n = 0) : t_(std::make_shared<MiniTable>()) { init(s, n); }
  Table(const SetupNewTable& s, TableType, rownr_t n = 0) : t_(std::make_shared<MiniTable>()) { init(s, n); }
  explicit Table(const std::string& name, TableOption = Old) {
    auto it = mini_tables().find(name);
    if (it == mini_tables().end()) throw AipsError("Table " + name + " does not exist");
    t_ = it->second;
  }
  Table(const std::string& name, const TableLock&, TableOption = Old) : Table(name) {}
  explicit Table(std::shared_ptr<MiniTable> t) : t_(std::move(t)) {}
  bool isNull() const { return !t_; }
  rownr_t nrow() const { return view_ ? view_->size() : t_ ? t_->rows : 0; }
  void addRow(rownr_t n = 1) { base(); t_->rows += n; }
  String tableName() const { return t_ ? t_->name : ""; }
  TableExprNode col(const std::string& n) const {
    if (!t_ || !t_->cols.count(n)) throw AipsError("no column " + n);
    TableExprNode e;
    e.row = [t = t_, n](size_t i) { auto& c = t->cols[n]; auto it = c.find(i); return it == c.end() ? 0 : mini_number(it->second); };
    e.text = [t = t_, n](size_t i) { auto& c = t->cols[n]; auto it = c.find(i); return it == c.end() ? std::string() : std::string(std::any_cast<String>(it->second)); };
    return e;
  }
  Table operator()(const TableExprNode& e) const {
    if (!e.row) throw AipsError("mini-casacore: query");
    std::vector<size_t> v;
    for (size_t i = 0; i < nrow(); ++i) if (e.row(row(i)) != 0) v.push_back(row(i));
    return sub(std::move(v));
  }
  Table operator()(const Vector<rownr_t>& rows) const {
    std::vector<size_t> v;
    for (size_t i = 0; i < rows.size(); ++i) v.push_back(row(rows[i]));
    return sub(std::move(v));
  }
  Table operator()(const std::vector<rownr_t>& rows) const { return (*this)(Vector<rownr_t>(rows)); }
  Table sort(const Block<String>& keys, int order = Sort::Ascending, int option = Sort::QuickSort) const {
    std::vector<size_t> v;
    for (size_t i = 0; i < nrow(); ++i) v.push_back(row(i));
    auto cmp = [&](size_t a, size_t b) {
      for (size_t k = 0; k < keys.size(); ++k) {
        const double x = number(keys[k], a), y = number(keys[k], b);
        if (x != y) return (x < y) == (order == Sort::Ascending) ? -1 : 1;
      }
      return 0;
    };
    std::stable_sort(v.begin(), v.end(), [&](size_t a, size_t b) { return cmp(a, b) < 0; });
    if (option & Sort::NoDuplicates) v.erase(std::unique(v.begin(), v.end(), [&](size_t a, size_t b) { return cmp(a, b) == 0; }), v.end());
    return sub(std::move(v));
  }
  Table project(const Block<String>& cols) const {
    Table r(*this);
    r.only_ = std::make_shared<std::vector<std::string>>();
    for (size_t i = 0; i < cols.size(); ++i) {
      if (!t_->cols.count(cols[i])) throw AipsError("no column " + cols[i]);
      r.only_->push_back(cols[i]);
    }
    return r;
  }
  const TableRecord& keywordSet() const { return t_->keys; }
  TableRecord& rwKeywordSet() { return t_->keys; }
  // Earlier descriptions stay valid as long as the table.
  const TableDesc& tableDesc() const {
    static const TableDesc empty;
    if (!t_) return empty;
    t_->descs.push_back(std::make_unique<TableDesc>());
    TableDesc& d = *t_->descs.back();
    if (t_)
      for (auto& c : t_->cols) {
        if (only_ && std::find(only_->begin(), only_->end(), c.first) == only_->end()) continue;
        auto it = t_->desc.find(c.first);
        d.addColumn(it == t_->desc.end() ? ColumnDesc() : it->second, c.first);
      }
    return d;
  }
  Record dataManagerInfo() const { return t_->dminfo; }
  void addColumn(const ColumnDesc& d) {
    if (t_->cols.count(d.name)) throw AipsError("column exists: " + d.name);
    t_->cols[d.name];
    t_->desc[d.name] = d;
  }
  void addColumn(const TableDesc& d, const DataManager& m) { add(d, m.type); }
  void addColumn(const TableDesc& d, const Record& m) { add(d, m.asString("TYPE")); }
  void addColumn(const ColumnDesc& d, const DataManager& m) { TableDesc t; t.addColumn(d); add(t, m.type); }
  // Added to the storage manager of that name, which exists.
  void addColumn(const ColumnDesc& d, const std::string& m, bool) {
    TableDesc t;
    t.addColumn(d);
    add(t, m);
  }
  // A copy of the rows, columns and keywords under another name.
  void deepCopy(const std::string& name, int, bool = false) const {
    auto m = std::make_shared<MiniTable>();
    m->name = name;
    m->rows = nrow();
    for (auto& c : t_->cols) {
      auto& to = m->cols[c.first];
      for (size_t i = 0; i < nrow(); ++i) { auto it = c.second.find(row(i)); if (it != c.second.end()) to[i] = it->second; }
    }
    m->desc = t_->desc;
    m->colkeys = t_->colkeys;
    m->keys = t_->keys;
    m->dminfo = t_->dminfo;
    m->dm = t_->dm;
    mini_tables()[name] = m;
  }
  // The type of the storage manager that a column was added with.
  std::string manager(const std::string& column) const { auto it = t_->dm.find(column); return it == t_->dm.end() ? "" : it->second; }
  void removeColumn(const std::string& n) { t_->cols.erase(n); t_->desc.erase(n); t_->dm.erase(n); }
  void flush(bool = false, bool = false) { if (t_) ++t_->flushes; }
  void reopenRW() {}
  void lock(bool = true) {}
  void unlock() {}
  bool isWritable() const { return true; }
  static bool isReadableStatic(const std::string& n) { return mini_tables().count(n) > 0; }
  Vector<rownr_t> rowNumbers() const { return rowNumbers(Table(t_)); }
  Vector<rownr_t> rowNumbers(const Table& that, bool = false) const {
    Vector<rownr_t> r(nrow());
    std::map<size_t, size_t> m;
    if (that.view_) for (size_t i = 0; i < that.nrow(); ++i) m[that.row(i)] = i;
    for (size_t i = 0; i < nrow(); ++i) r[i] = that.view_ ? m.at(row(i)) : row(i);
    return r;
  }
  void removeRow(const Vector<rownr_t>& rows) {
    base();
    std::vector<char> gone(t_->rows);
    for (size_t i = 0; i < rows.size(); ++i) gone.at(rows[i]) = true;
    size_t n = 0;
    std::vector<size_t> to(t_->rows);
    for (size_t i = 0; i < t_->rows; ++i) { to[i] = n; n += !gone[i]; }
    for (auto& c : t_->cols) {
      std::map<size_t, std::any> m;
      for (auto& v : c.second) if (!gone[v.first]) m[to[v.first]] = v.second;
      c.second = std::move(m);
    }
    t_->rows = n;
  }
  void removeRow(rownr_t r) { Vector<rownr_t> v(1); v[0] = r; removeRow(v); }
  bool isColumn(int c) const;
  static bool isReadable(const std::string& n) { return mini_tables().count(n) > 0; }
  static void deleteTable(const std::string& n, bool = false) { mini_tables().erase(n); }
  std::shared_ptr<MiniTable> rep() const { return t_; }
  size_t row(size_t i) const {
    if (i >= nrow()) throw AipsError("row number out of range");
    return view_ ? (*view_)[i] : i;
  }
  double number(const std::string& n, size_t base_row) const {
    auto c = t_->cols.find(n);
    if (c == t_->cols.end()) throw AipsError("no column " + n);
    auto it = c->second.find(base_row);
    return it == c->second.end() ? 0 : mini_number(it->second);
  }
  Table sub(std::vector<size_t> v) const {
    Table r(t_);
    r.view_ = std::make_shared<const std::vector<size_t>>(std::move(v));
    return r;
  }

 private:
  void base() const { if (view_) throw AipsError("mini-casacore: change of a view"); }
  void add(const TableDesc& d, const std::string& m) { for (auto& c : d.cols) { addColumn(c); t_->dm[c.name] = m; } }
  void init(const SetupNewTable& s, rownr_t n) {
    if (s.option == NewNoReplace && mini_tables().count(s.name)) throw AipsError("table exists: " + s.name);
    t_->name = s.name;
    t_->rows = n;
    for (const auto& c : s.desc.cols) { t_->cols[c.name]; t_->desc[c.name] = c; }
    if (!s.name.empty()) mini_tables()[s.name] = t_;
  }
  std::shared_ptr<MiniTable> t_;
  std::shared_ptr<const std::vector<size_t>> view_;
  std::shared_ptr<std::vector<std::string>> only_;
};
inline Table TableRecord::asTable(const std::string& n) const { return get<Table>(n); }
inline Table TableRecord::asTable(size_t i) const { return std::any_cast<Table>(at(i)); }
inline DataType TableRecord::type(size_t i) const { return at(i).type() == typeid(Table) ? TpTable : TpOther; }
inline void TableRecord::defineTable(const std::string& n, const Table& t) { define(n, t); }
// Copies of rows and subtables.
struct TableCopy {
  static void copyInfo(Table&, const Table&) {}
  static void copyRows(Table& out, const Table& in) {
    if (out.nrow() > 0) throw AipsError("mini-casacore: copy into a filled table");
    auto o = out.rep();
    o->rows = in.nrow();
    for (auto& c : in.rep()->cols) {
      if (!o->cols.count(c.first)) {
        auto d = in.rep()->desc.find(c.first);
        o->desc[c.first] = d == in.rep()->desc.end() ? ColumnDesc() : d->second;
      }
      auto& to = o->cols[c.first];
      for (size_t i = 0; i < in.nrow(); ++i) { auto it = c.second.find(in.row(i)); if (it != c.second.end()) to[i] = it->second; }
    }
  }
  // Rows are copied into the subtables that exist in the output.
  static void copySubTables(Table& out, const Table& in, bool, const Block<String>& omit) {
    for (size_t i = 0; i < in.keywordSet().nfields(); ++i) {
      const std::string n = in.keywordSet().name(i);
      if (in.keywordSet().type(i) != TpTable || std::any_of(omit.begin(), omit.end(), [&](const String& o) { return o == n; })) continue;
      Table from = in.keywordSet().asTable(i);
      if (!out.keywordSet().isDefined(n)) out.rwKeywordSet().defineTable(n, Table(SetupNewTable(out.tableName() + "/" + n, TableDesc(), Table::New)));
      Table to = out.keywordSet().asTable(n);
      copyRows(to, from);
    }
  }
};
class RefRows {
 public:
  RefRows() {}
  RefRows(const Vector<rownr_t>& v) : v_(v.size()) { for (size_t i = 0; i < v.size(); ++i) v_[i] = v[i]; }
  RefRows(rownr_t first, rownr_t last) : v_(last + 1 - first) { for (rownr_t i = first; i <= last; ++i) v_[i - first] = i; }
  const Vector<rownr_t>& rowVector() const { return v_; }
  Vector<rownr_t> convert() const { return v_; }
  rownr_t nrows() const { return v_.size(); }
 private:
  Vector<rownr_t> v_;
};
template <typename T> class ScalarColumn {
 public:
  ScalarColumn() {}
  ScalarColumn(const Table& t, const std::string& n) { attach(t, n); }
  void attach(const Table& t, const std::string& n) {
    if (t.isNull() || !t.rep()->cols.count(n)) throw AipsError("no column " + n);
    t_ = t;
    n_ = n;
  }
  bool isNull() const { return t_.isNull(); }
  rownr_t nrow() const { return t_.nrow(); }
  bool isDefined(rownr_t r) const { auto& c = t_.rep()->cols[n_]; return c.count(t_.row(r)); }
  void put(rownr_t r, const T& v) { t_.rep()->cols[n_][t_.row(r)] = v; }
  T get(rownr_t r) const { return (*this)(r); }
  void get(rownr_t r, T& v) const { v = (*this)(r); }
  T operator()(rownr_t r) const {
    auto& c = t_.rep()->cols[n_];
    auto it = c.find(t_.row(r));
    return it == c.end() ? T() : std::any_cast<T>(it->second);
  }
  Vector<T> getColumn() const { const size_t n = nrow(); Vector<T> v(n); for (size_t i = 0; i < n; ++i) v[i] = (*this)(i); return v; }
  Vector<T> getColumnCells(const RefRows& r) const { const auto& w = r.rowVector(); Vector<T> v(w.size()); for (size_t i = 0; i < w.size(); ++i) v[i] = (*this)(w[i]); return v; }
  void putColumn(const Vector<T>& v) { for (size_t i = 0; i < nrow(); ++i) put(i, v[i]); }
  void putColumn(const ScalarColumn& o) { for (size_t i = 0; i < nrow(); ++i) put(i, o(i)); }
  void fillColumn(const T& v) { for (size_t i = 0; i < nrow(); ++i) put(i, v); }
  const TableRecord& keywordSet() const { return t_.rep()->colkeys[n_]; }
  TableRecord& rwKeywordSet() { return t_.rep()->colkeys[n_]; }
  ColumnDesc columnDesc() const { auto& d = t_.rep()->desc; auto it = d.find(n_); return it == d.end() ? ColumnDesc() : it->second; }
  IPosition fixed() const { auto& d = t_.rep()->desc; auto it = d.find(n_); return it == d.end() ? IPosition() : it->second.shape(); }

 private:
  Table t_;
  std::string n_;
};
template <typename T> class ArrayColumn {
 public:
  ArrayColumn() {}
  ArrayColumn(const Table& t, const std::string& n) : c_(t, n) {}
  void attach(const Table& t, const std::string& n) { c_.attach(t, n); }
  rownr_t nrow() const { return c_.nrow(); }
  bool isDefined(rownr_t r) const { return c_.isDefined(r) || !c_.fixed().empty(); }
  bool hasContent(rownr_t r = 0) const { return nrow() > r && isDefined(r); }
  void put(rownr_t r, const Array<T>& v) { c_.put(r, v.copy()); }
  void setShape(rownr_t r, const IPosition& s) { if (!isDefined(r) || !(c_(r).shape() == s)) c_.put(r, Array<T>(s)); }
  void putSlice(rownr_t r, const Slicer& s, const Array<T>& v) {
    Array<T> a = (*this)(r);
    copy(v, part(a, s));
    c_.put(r, a);
  }
  // Cells of a fixed shape always have a value.
  Array<T> operator()(rownr_t r) const {
    if (!c_.isDefined(r)) {
      const IPosition s = c_.fixed();
      if (s.empty()) throw AipsError("cell without value");
      return Array<T>(s);
    }
    return c_(r).copy();
  }
  Array<T> get(rownr_t r) const { return (*this)(r); }
  void get(rownr_t r, Array<T>& a, bool resize = false) const { const Array<T> v = (*this)(r); if (resize) a.resize(v.shape()); copy(v, a); }
  Array<T> getSlice(rownr_t r, const Slicer& s) const { Array<T> a = (*this)(r); return part(a, s).copy(); }
  IPosition shape(rownr_t r) const { return (*this)(r).shape(); }
  // All rows; the row number is the last axis.
  Array<T> getColumn() const { return rows(nullptr, all()); }
  Array<T> getColumn(const Slicer& s) const { return rows(&s, all()); }
  template <typename A> void getColumn(A& a, bool resize = false) const { give(rows(nullptr, all()), a, resize); }
  template <typename A> void getColumn(const Slicer& s, A& a, bool resize = false) const { give(rows(&s, all()), a, resize); }
  Array<T> getColumnCells(const RefRows& r) const { return rows(nullptr, list(r)); }
  Array<T> getColumnCells(const RefRows& r, const Slicer& s) const { return rows(&s, list(r)); }
  template <typename A, typename = std::enable_if_t<!std::is_base_of_v<Slicer, A>>> void getColumnCells(const RefRows& r, A& a, bool resize = false) const { give(rows(nullptr, list(r)), a, resize); }
  void putColumn(const Array<T>& a) { putRows(all(), a); }
  void putColumn(const ArrayColumn& o) { for (size_t i = 0; i < nrow(); ++i) put(i, o(i)); }
  void putColumnCells(const RefRows& r, const Array<T>& a) { putRows(list(r), a); }
  void fillColumn(const Array<T>& a) { for (size_t i = 0; i < nrow(); ++i) put(i, a); }
  bool isNull() const { return c_.isNull(); }
  ColumnDesc columnDesc() const { return c_.columnDesc(); }
  const TableRecord& keywordSet() const { return c_.keywordSet(); }
  TableRecord& rwKeywordSet() { return c_.rwKeywordSet(); }

 private:
  static Array<T> part(Array<T>& a, const Slicer& s) {
    IPosition last(s.start());
    for (size_t d = 0; d < last.size(); ++d) last[d] = s.start()[d] + s.length()[d] - 1;
    return a(s.start(), last);
  }
  static void copy(const Array<T>& from, Array<T> to) {
    if (!(from.shape() == to.shape())) throw ArrayConformanceError("array shapes " + from.shape().toString() + " " + to.shape().toString());
    auto i = from.begin();
    for (auto j = to.begin(); j != to.end(); ++i, ++j) *j = *i;
  }
  static void give(const Array<T>& from, Array<T>& to, bool resize) {
    if (!(from.shape() == to.shape()) && (resize || to.empty())) to.resize(from.shape());
    copy(from, to);
  }
  std::vector<size_t> all() const { std::vector<size_t> v(nrow()); for (size_t i = 0; i < v.size(); ++i) v[i] = i; return v; }
  static std::vector<size_t> list(const RefRows& r) { const auto& w = r.rowVector(); std::vector<size_t> v; for (size_t i = 0; i < w.size(); ++i) v.push_back(w[i]); return v; }
  Array<T> rows(const Slicer* s, const std::vector<size_t>& v) const {
    if (v.empty()) return Array<T>();
    auto one = [&](size_t i) { return s ? getSlice(i, *s) : (*this)(i); };
    const Array<T> first = one(v[0]);
    IPosition sh(first.ndim() + 1);
    for (size_t d = 0; d < first.ndim(); ++d) sh[d] = first.shape()[d];
    sh[first.ndim()] = v.size();
    Array<T> r(sh);
    auto it = r.begin();
    for (size_t i : v) {
      const Array<T> a = one(i);
      if (!(a.shape() == first.shape())) throw ArrayConformanceError("cells differ in shape");
      for (auto j = a.begin(); j != a.end(); ++j, ++it) *it = *j;
    }
    return r;
  }
  void putRows(const std::vector<size_t>& v, const Array<T>& a) {
    if (a.ndim() == 0 || size_t(a.shape()[a.ndim() - 1]) != v.size()) throw ArrayConformanceError("number of rows");
    IPosition sh(a.ndim() - 1);
    for (size_t d = 0; d + 1 < a.ndim(); ++d) sh[d] = a.shape()[d];
    auto it = a.begin();
    for (size_t i : v) {
      Array<T> c(sh);
      for (auto j = c.begin(); j != c.end(); ++j, ++it) *j = *it;
      c_.put(i, c);
    }
  }
  ScalarColumn<Array<T>> c_;
};
template <typename T> using ROArrayColumn = ArrayColumn<T>;
template <typename T> using ROScalarColumn = ScalarColumn<T>;
// Parts of a table with equal values of the keys; the table is in order already.
class TableIterator {
 public:
  enum Order { Ascending = -1, DontCare, Descending };
  enum Option { QuickSort, NoSort };
  TableIterator() {}
  TableIterator(const Table& t, const std::string& key, Order = Ascending, Option = QuickSort) : t_(t), k_(1) { k_[0] = key; }
  TableIterator(const Table& t, const Block<String>& keys, Order = Ascending, Option o = QuickSort) : t_(o == NoSort ? t : t.sort(keys)), k_(keys) { reset(); }
  bool pastEnd() const { return i_ >= t_.nrow(); }
  void next() { i_ = end(); }
  void reset() { i_ = 0; }
  Table table() const {
    std::vector<size_t> v;
    for (size_t i = i_, e = end(); i < e; ++i) v.push_back(t_.row(i));
    return t_.isNull() ? Table() : t_.sub(std::move(v));
  }
 private:
  size_t end() const {
    size_t e = i_;
    while (e < t_.nrow()) {
      for (size_t k = 0; k < k_.size(); ++k)
        if (t_.number(k_[k], t_.row(e)) != t_.number(k_[k], t_.row(i_))) return e;
      ++e;
    }
    return e;
  }
  Table t_;
  Block<String> k_;
  size_t i_ = 0;
};
template <typename T> class ReadOnlyArrayIterator {
 public:
  // Steps through the last axis.
  ReadOnlyArrayIterator(const Array<T>& a, size_t) : a_(a) {}
  bool pastEnd() const { return i_ >= size_t(a_.shape()[a_.ndim() - 1]); }
  void next() { ++i_; }
  Array<T> array() const {
    IPosition s(a_.ndim() - 1);
    size_t n = 1;
    for (size_t d = 0; d < s.size(); ++d) n *= s[d] = a_.shape()[d];
    Array<T> r(s);
    for (size_t k = 0; k < n; ++k) r.ref(k) = a_.ref(i_ * n + k);
    return r;
  }
 private:
  Array<T> a_;
  size_t i_ = 0;
};
template <typename M> class ScalarMeasColumn : public ScalarColumn<M> { public: using ScalarColumn<M>::ScalarColumn; };
template <typename M> class ArrayMeasColumn : public ArrayColumn<M> { public: using ArrayColumn<M>::ArrayColumn; template <typename R> void setDescRefCode(R r, bool = true) { this->rwKeywordSet().define("mini_refcode", int(r)); } };
struct FileLocker { enum LockType { Read, Write }; };
struct TableLocker { template <typename... A> TableLocker(const Table&, A...) {} };
// Storage managers are only names.
struct DataManInfo {
  static Record adjustStMan(const Record& r, const std::string&) { return r; }
  static void removeDminfoColumns(Record&, const Vector<String>&, const std::string& = "") {}
  static void setTiledStMan(Record&, const Vector<String>&, const std::string&, const std::string&, const IPosition&) {}
};
class TableRow { public: TableRow() {} template <typename... A> explicit TableRow(const Table&, A&&...) {} template <typename... A> TableRecord get(A&&...) const { return {}; } template <typename... A> void put(A&&...) const {} TableRecord& record() { static TableRecord r; return r; } void putMatchingFields(rownr_t, const TableRecord&) {} };
class TableColumn { public: TableColumn() {} TableColumn(const Table&, const std::string&) {} };

// MeasurementSet parts.
struct MSMainEnums {
  enum PredefinedColumns { UNDEFINED_COLUMN, ANTENNA1, ANTENNA2, TIME, UVW, DATA, FLAG, WEIGHT, WEIGHT_SPECTRUM, SIGMA, SIGMA_SPECTRUM, FLAG_ROW, INTERVAL,
    EXPOSURE, MODEL_DATA, CORRECTED_DATA, FLOAT_DATA, DATA_DESC_ID, FIELD_ID, TIME_CENTROID, FLAG_CATEGORY, ARRAY_ID, OBSERVATION_ID, SCAN_NUMBER, STATE_ID, FEED1, FEED2, PROCESSOR_ID };
  static String columnName(PredefinedColumns c) {
    static const char* n[] = {"", "ANTENNA1", "ANTENNA2", "TIME", "UVW", "DATA", "FLAG", "WEIGHT", "WEIGHT_SPECTRUM", "SIGMA", "SIGMA_SPECTRUM", "FLAG_ROW", "INTERVAL",
      "EXPOSURE", "MODEL_DATA", "CORRECTED_DATA", "FLOAT_DATA", "DATA_DESC_ID", "FIELD_ID", "TIME_CENTROID", "FLAG_CATEGORY", "ARRAY_ID", "OBSERVATION_ID", "SCAN_NUMBER", "STATE_ID", "FEED1", "FEED2", "PROCESSOR_ID"};
    return n[c];
  }
};
inline bool Table::isColumn(int c) const { return t_ && t_->cols.count(MSMainEnums::columnName(MSMainEnums::PredefinedColumns(c))); }
#define MINI_NAMES(...) enum PredefinedColumns { __VA_ARGS__ }; static String columnName(int c) { return mini_enum_name(#__VA_ARGS__, c); }
inline String mini_enum_name(const std::string& all, int n) {
  size_t i = 0;
  for (; n > 0; --n) i = all.find(',', i) + 1;
  while (all[i] == ' ') ++i;
  return all.substr(i, all.find(',', i) - i);
}
class MSAntenna : public Table { public: MINI_NAMES(NAME, STATION, TYPE, MOUNT, POSITION, OFFSET, DISH_DIAMETER) MSAntenna(const Table& t) : Table(t) {} static TableDesc requiredTableDesc() { TableDesc d; d.addColumn(ScalarColumnDesc<String>("NAME")); d.addColumn(ScalarColumnDesc<MPosition>("POSITION")); return d; } };
struct MSDataDescription : Table { MINI_NAMES(POLARIZATION_ID, SPECTRAL_WINDOW_ID) using Table::Table; MSDataDescription(const Table& t) : Table(t) {} };
struct MSSpectralWindow : Table { MINI_NAMES(CHAN_FREQ, CHAN_WIDTH, EFFECTIVE_BW, RESOLUTION, MEAS_FREQ_REF, NAME, NUM_CHAN, REF_FREQUENCY, TOTAL_BANDWIDTH) MSSpectralWindow(const Table& t) : Table(t) {} };
struct MSField : Table { MINI_NAMES(PHASE_DIR, DELAY_DIR, REFERENCE_DIR, NAME) MSField(const Table& t) : Table(t) {} };
struct MSObservation : Table { MINI_NAMES(TELESCOPE_NAME, OBSERVER) MSObservation(const Table& t) : Table(t) {} };
struct MSPolarizationEnums { MINI_NAMES(CORR_TYPE, NUM_CORR) };
struct MSPolarization : Table, MSPolarizationEnums { using Table::Table; MSPolarization(const Table& t) : Table(t) {} };
class MeasurementSet : public Table, public MSMainEnums {
 public:
  using Table::Table;
  MeasurementSet() {}
  MeasurementSet(const Table& t) : Table(t) {}
  MSDataDescription dataDescription() const { return keywordSet().asTable("DATA_DESCRIPTION"); }
  MSPolarization polarization() const { return keywordSet().asTable("POLARIZATION"); }
  MSSpectralWindow spectralWindow() const { return keywordSet().asTable("SPECTRAL_WINDOW"); }
  MSField field() const { return keywordSet().asTable("FIELD"); }
  MSObservation observation() const { return keywordSet().asTable("OBSERVATION"); }
  MSAntenna antenna() const { return keywordSet().asTable("ANTENNA"); }
  // The columns that every measurement set has.
  static TableDesc requiredTableDesc() {
    TableDesc d;
    for (const char* c : {"ANTENNA1", "ANTENNA2", "DATA_DESC_ID", "FIELD_ID", "ARRAY_ID", "OBSERVATION_ID", "SCAN_NUMBER", "STATE_ID", "FEED1", "FEED2", "PROCESSOR_ID"}) d.addColumn(ScalarColumnDesc<int>(c));
    for (const char* c : {"TIME", "INTERVAL", "EXPOSURE", "TIME_CENTROID"}) d.addColumn(ScalarColumnDesc<double>(c));
    d.addColumn(ScalarColumnDesc<bool>("FLAG_ROW"));
    for (const char* c : {"FLAG", "FLAG_CATEGORY"}) d.addColumn(ArrayColumnDesc<bool>(c));
    for (const char* c : {"WEIGHT", "SIGMA"}) d.addColumn(ArrayColumnDesc<float>(c));
    d.addColumn(ArrayColumnDesc<double>("UVW"));
    return d;
  }
  static void addColumnToDesc(TableDesc& d, PredefinedColumns c, int = 0) {
    if (c == DATA || c == MODEL_DATA || c == CORRECTED_DATA) d.addColumn(ArrayColumnDesc<Complex>(columnName(c)));
    else d.addColumn(ArrayColumnDesc<float>(columnName(c)));
  }
  void createDefaultSubtables(TableOption) {
    auto make = [&](const std::string& n, const TableDesc& d) { rwKeywordSet().defineTable(n, Table(SetupNewTable(tableName() + "/" + n, d, New))); };
    TableDesc a = MSAntenna::requiredTableDesc(), f, o, p, q, w, h;
    a.addColumn(ScalarColumnDesc<double>("DISH_DIAMETER"));
    for (const char* c : {"PHASE_DIR", "DELAY_DIR"}) f.addColumn(ArrayColumnDesc<MDirection>(c));
    f.addColumn(ScalarColumnDesc<String>("NAME"));
    for (const char* c : {"TELESCOPE_NAME", "OBSERVER"}) o.addColumn(ScalarColumnDesc<String>(c));
    o.addColumn(ArrayColumnDesc<double>("TIME_RANGE"));
    for (const char* c : {"POLARIZATION_ID", "SPECTRAL_WINDOW_ID"}) p.addColumn(ScalarColumnDesc<int>(c));
    q.addColumn(ArrayColumnDesc<int>("CORR_TYPE"));
    for (const char* c : {"CHAN_FREQ", "CHAN_WIDTH", "EFFECTIVE_BW", "RESOLUTION"}) w.addColumn(ArrayColumnDesc<double>(c));
    for (const char* c : {"MEAS_FREQ_REF", "NUM_CHAN"}) w.addColumn(ScalarColumnDesc<int>(c));
    for (const char* c : {"REF_FREQUENCY", "TOTAL_BANDWIDTH"}) w.addColumn(ScalarColumnDesc<double>(c));
    w.addColumn(ScalarColumnDesc<String>("NAME"));
    make("ANTENNA", a);
    make("FIELD", f);
    make("OBSERVATION", o);
    make("DATA_DESCRIPTION", p);
    make("POLARIZATION", q);
    make("SPECTRAL_WINDOW", w);
    make("HISTORY", h);
  }
};
typedef MeasurementSet MS;
class MSAntennaColumns {
 public:
  explicit MSAntennaColumns(const MSAntenna& t) : n_(t, "NAME"), p_(t, "POSITION") {}
  ScalarColumn<String>& name() { return n_; }
  ScalarColumn<MPosition>& positionMeas() { return p_; }
 private:
  ScalarColumn<String> n_;
  ScalarColumn<MPosition> p_;
};
class MSSelectionErrorHandler { public: virtual ~MSSelectionErrorHandler() {} virtual void reportError(const char*, const String) {} };
class MSAntennaParse { public: static inline std::shared_ptr<MSSelectionErrorHandler> thisMSAErrorHandler; };
inline TableExprNode msAntennaGramParseCommand(const Table&, TableExprNode&, TableExprNode&, const String&, Vector<int>&, Vector<int>&, Matrix<int>&) {
  throw AipsError("mini-casacore: no MSSelection");
}
// Baselines as "a&b;c&d" with antenna numbers.
class MSSelection {
 public:
  bool setAntennaExpr(const String& e) { e_ = e; return true; }
  TableExprNode toTableExprNode(const MeasurementSet* ms) const {
    std::vector<std::pair<int, int>> v;
    std::string e = e_ + ";";
    for (size_t i = 0, j; (j = e.find(';', i)) != std::string::npos; i = j + 1) {
      int a, b, n = 0;
      if (std::sscanf(e.substr(i, j - i).c_str(), "%d&%d%n", &a, &b, &n) != 2 || size_t(n) != j - i) throw AipsError("mini-casacore: selection " + e_);
      v.emplace_back(std::min(a, b), std::max(a, b));
    }
    const Table t(*ms);
    TableExprNode r;
    r.row = [v, t](size_t i) {
      const int a = t.number("ANTENNA1", i), b = t.number("ANTENNA2", i);
      return double(std::find(v.begin(), v.end(), std::make_pair(std::min(a, b), std::max(a, b))) != v.end());
    };
    return r;
  }
 private:
  String e_;
};
struct MeasTable {
  static std::map<std::string, MPosition>& known() { static std::map<std::string, MPosition> m; return m; }
  static bool Observatory(MPosition& p, const String& n) { auto it = known().find(n); if (it == known().end()) return false; p = it->second; return true; }
};
// Minimum and maximum of TIME_CENTROID.
class TaQLResult { public: explicit TaQLResult(const Table& t) : t_(t) {} Table table() const { return t_; } private: Table t_; };
inline TaQLResult tableCommand(const std::string& q, const Table& t) {
  if (q != "select gmin(TIME_CENTROID) as first_time, gmax(TIME_CENTROID) as last_time from $1") throw AipsError("mini-casacore: query " + q);
  ScalarColumn<double> c(t, "TIME_CENTROID");
  double lo = 0, hi = 0;
  for (size_t i = 0; i < t.nrow(); ++i) { lo = i ? std::min(lo, c(i)) : c(i); hi = i ? std::max(hi, c(i)) : c(i); }
  TableDesc d;
  d.addColumn(ScalarColumnDesc<double>("first_time"));
  d.addColumn(ScalarColumnDesc<double>("last_time"));
  Table r(SetupNewTable("", d, 0), 1);
  ScalarColumn<double>(r, "first_time").put(0, lo);
  ScalarColumn<double>(r, "last_time").put(0, hi);
  return TaQLResult(r);
}
// The names of tables and files in a directory.
class Directory { public: Directory(const std::string& d) : dir(d) {} std::string dir; };
class DirectoryIterator {
 public:
  DirectoryIterator(const Directory& d, const Regex& r) {
    for (auto& t : mini_tables()) {
      const auto p = t.first.rfind('/');
      if (p != std::string::npos && t.first.substr(0, p) == d.dir && String(t.first.substr(p + 1)).matches(r)) names_.push_back(t.first.substr(p + 1));
    }
  }
  bool pastEnd() const { return i_ >= names_.size(); }
  void operator++(int) { ++i_; }
  std::string name() const { return names_[i_]; }
 private:
  std::vector<std::string> names_;
  size_t i_ = 0;
};
template <typename T> using CountedPtr = std::shared_ptr<T>;
class Path {
 public:
  Path(const std::string& s) : s_(s) {}
  std::string absoluteName() const {
    const std::filesystem::path p(s_);
    std::string r = (p.is_absolute() ? p : std::filesystem::current_path() / p).lexically_normal().string();
    while (r.size() > 1 && r.back() == '/') r.pop_back();
    return r;
  }
  std::string dirName() const { auto p = s_.rfind('/'); return p == std::string::npos ? "." : s_.substr(0, p); }
  std::string baseName() const { auto p = s_.rfind('/'); return p == std::string::npos ? s_ : s_.substr(p + 1); }
 private:
  std::string s_;
};
}  // namespace casacore
#endif
