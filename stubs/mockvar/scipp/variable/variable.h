// Variable reduced to its labels and flags and a record of where its content comes from: enough to decide what a container of variables does with them.
#pragma once
#include <memory>
#include <optional>
#include <string>
#include <tuple>
#include <utility>
#include <vector>
#include "scipp/common/span.h"
#include "scipp/core/dimensions.h"
#include "scipp/core/dtype.h"
#include "scipp/core/except.h"
#include "scipp/core/slice.h"
#include "scipp/core/strides.h"
#include "scipp/units/unit.h"
#include "scipp/core/string.h"
namespace scipp::variable { class Variable; }
namespace scipp::except {
struct VariableError : public Error<variable::Variable> { explicit VariableError(const std::string &msg) : Error{msg} {} };
}
namespace scipp::variable {
using scipp::index;
inline long written_so_far; // set by every assignment: errors raised after it are not taken for errors (engine/vn.py)
inline long log_content, log_place, log_count; // all assignments since the start, whichever their order
inline long last_write[3]; // content of the last variable that was assigned to, what was assigned, and where
class Variable {
public:
  Variable() noexcept = default;
  Variable(const core::Dimensions &dims, long content) noexcept : m_dims(dims), content(content), object(content) {}
  [[nodiscard]] const core::Dimensions &dims() const noexcept { return m_dims; }
  [[nodiscard]] Dim dim() const { if (m_dims.ndim() != 1) throw except::DimensionError("ndim"); return m_dims.inner(); }
  [[nodiscard]] scipp::index ndim() const noexcept { return m_dims.ndim(); }
  [[nodiscard]] bool is_readonly() const noexcept { return readonly; }
  [[nodiscard]] bool is_aligned() const noexcept { return aligned; }
  void set_aligned(bool a) noexcept { aligned = a; }
  [[nodiscard]] bool is_valid() const noexcept { return content != -1; }
  [[nodiscard]] bool is_same(const Variable &o) const noexcept { return object == o.object && content == o.content && m_dims == o.m_dims && begin == o.begin && end == o.end; }
  [[nodiscard]] bool has_variances() const noexcept { return with_variances; }
  [[nodiscard]] core::DType dtype() const noexcept { return core::dtype<double>; }
  [[nodiscard]] scipp::span<const scipp::index> strides() const;
  [[nodiscard]] const units::Unit &unit() const;
  void setUnit(const units::Unit &);
  template <class T> scipp::span<const T> values() const;
  template <class T> scipp::span<T> values();
  template <class T> scipp::span<const T> variances() const;
  template <class T> scipp::span<T> variances();
  [[nodiscard]] Variable as_const() const { Variable r(*this); r.readonly = true; return r; }
  [[nodiscard]] Variable slice(const core::Slice &s) const {
    Variable r(*this); if (s == core::Slice{}) return r;
    core::expect::validSlice(m_dims, s);
    r.along = (long)s.dim().id(); r.begin = s.begin(); r.end = s.end(); r.step = s.stride();
    if (!s.isRange()) r.m_dims.erase(s.dim()); else r.m_dims.resize(s.dim(), (s.end() - s.begin()) / s.stride() + ((s.end() - s.begin()) % s.stride() != 0));
    return r; }
  void validateSlice(const core::Slice &s, const Variable &data) const {
    if (readonly) throw except::VariableError("read-only");
    if (slice(s).dims() != data.dims()) throw except::DimensionError("setSlice"); }
  Variable &setSlice(const core::Slice &s, const Variable &data) { validateSlice(s, data); written_so_far = 1; log_content += content * data.content; log_place += content * s.begin(); ++log_count; written = data.content; wbegin = s.begin(); last_write[0] = content; last_write[1] = written; last_write[2] = wbegin; return *this; }
  [[nodiscard]] Variable rename_dims(const std::vector<std::pair<Dim, Dim>> &names, const bool fail_on_unknown = true) const { Variable r(*this); r.m_dims = m_dims.rename_dims(names, fail_on_unknown); return r; }
  // equal content: equal labels and the same part of the same data (NaN: content 99 differs from itself)
  bool same_content(const Variable &o) const noexcept { return content == o.content && along == o.along && begin == o.begin && end == o.end && step == o.step && written == o.written && wbegin == o.wbegin && m_dims == o.m_dims; }
  bool operator==(const Variable &o) const noexcept { return nan == 0 && same_content(o); }
  bool operator!=(const Variable &o) const noexcept { return !(*this == o); }
  core::Dimensions m_dims;
  long content{-1}, object{-1}, along{0}, begin{0}, end{0}, step{0}, written{0}, wbegin{0}, nan{0};
  bool readonly{false}, aligned{true}, binned{false}, with_variances{false};
};
inline bool equals_nan(const Variable &a, const Variable &b) noexcept { return a.same_content(b); }
inline bool is_bins(const Variable &v) noexcept { return v.binned; }
[[nodiscard]] inline Variable copy(const Variable &v) { Variable r(v); r.readonly = false; r.object = -2; return r; }
// union of masks: of the content of both, whichever their order
inline Variable operator|(const Variable &a, const Variable &b) { Variable r(a.m_dims.ndim() < b.m_dims.ndim() ? b.m_dims : a.m_dims, a.content + b.content); r.object = -3; return r; }
inline Variable &operator|=(Variable &a, const Variable &b) { return a = a | b; }
std::string to_string(const Variable &);
inline std::string format_variable(const Variable &) { return {}; }
} // namespace scipp::variable
namespace scipp { using variable::Variable; }
