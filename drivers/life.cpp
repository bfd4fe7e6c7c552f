// instantiations of the vocabulary types over element types with opaque special members, for the analysis (never executed)
#include "iox/expected.hpp"
#include "iox/optional.hpp"
#include "iox/unique_ptr.hpp"
#include "iox/variant.hpp"
#include <new>
#include <utility>

namespace vd
{
#define VD_ELEMENT(N)                                                                                                  \
    struct N                                                                                                           \
    {                                                                                                                  \
        N() noexcept;                                                                                                  \
        explicit N(int) noexcept;                                                                                      \
        N(const N&) noexcept;                                                                                          \
        N(N&&) noexcept;                                                                                               \
        N& operator=(const N&) noexcept;                                                                               \
        N& operator=(N&&) noexcept;                                                                                    \
        ~N() noexcept;                                                                                                 \
        long v[2];                                                                                                     \
    }
VD_ELEMENT(A);
VD_ELEMENT(B);

using O = iox::optional<A>;
void o_none(O* d) { new (d) O(); }
void o_copy(O* d, const O& s) { new (d) O(s); }
void o_move(O* d, O& s) { new (d) O(std::move(s)); }
void o_from(O* d, const A& s) { new (d) O(s); }
void o_take(O* d, A& s) { new (d) O(std::move(s)); }
void o_place(O* d, int x) { new (d) O(iox::in_place, x); }
void o_assign(O& d, const O& s) { d = s; }
void o_massign(O& d, O& s) { d = std::move(s); }
void o_vassign(O& d, const A& s) { d = s; }
void o_vmassign(O& d, A& s) { d = std::move(s); }
void o_emplace(O& d, int x) { d.emplace(x); }
void o_reset(O& d) { d.reset(); }
void o_dtor(O& d) { d.~O(); }
A& o_value(O& d) { return d.value(); }
const A& o_cvalue(const O& d) { return d.value(); }
A& o_star(O& d) { return *d; }
A* o_arrow(O& d) { return d.operator->(); }
bool o_has(const O& d) { return d.has_value(); }
bool o_bool(const O& d) { return static_cast<bool>(d); }

using V = iox::variant<A, B>;
void v_none(V* d) { new (d) V(); }
void v_copy(V* d, const V& s) { new (d) V(s); }
void v_move(V* d, V& s) { new (d) V(std::move(s)); }
void v_assign(V& d, const V& s) { d = s; }
void v_massign(V& d, V& s) { d = std::move(s); }
void v_vmassign0(V& d, A& s) { d = std::move(s); }
void v_vmassign1(V& d, B& s) { d = std::move(s); }
void v_emplace0(V& d, int x) { d.emplace<A>(x); }
void v_emplace1(V& d, int x) { d.emplace<B>(x); }
void v_emplace_at0(V& d, int x) { d.emplace_at_index<0>(x); }
void v_emplace_at1(V& d, int x) { d.emplace_at_index<1>(x); }
void v_dtor(V& d) { d.~V(); }
A* v_get0(V& d) { return d.get<A>(); }
B* v_get1(V& d) { return d.get<B>(); }
A* v_at0(V& d) { return d.get_at_index<0>(); }
B* v_at1(V& d) { return d.get_at_index<1>(); }

using X = iox::expected<A, B>;
void x_copy(X* d, const X& s) { new (d) X(s); }
void x_move(X* d, X& s) { new (d) X(std::move(s)); }
void x_ok(X* d, int x) { new (d) X(iox::in_place, x); }
void x_err(X* d, int x) { new (d) X(iox::unexpect, x); }
void x_assign(X& d, const X& s) { d = s; }
void x_massign(X& d, X& s) { d = std::move(s); }
void x_dtor(X& d) { d.~X(); }
A& x_value(X& d) { return d.value(); }
const A& x_cvalue(const X& d) { return d.value(); }
A& x_star(X& d) { return *d; }
A* x_arrow(X& d) { return d.operator->(); }
B& x_error(X& d) { return d.error(); }
const B& x_cerror(const X& d) { return d.error(); }
bool x_has(const X& d) { return d.has_value(); }
bool x_haserr(const X& d) { return d.has_error(); }
bool x_bool(const X& d) { return static_cast<bool>(d); }
} // namespace vd

template class iox::unique_ptr<vd::A>;
