// Instantiates every template of the public interface once, so that its code is part of the analysed program.
// Nothing in here is ever executed.
#include "bdd.h"
#include "bdd_mgr.h"
#include "bdd_collection.h"
#include "bdd_node_depth.h"
#include <unordered_map>
#include <unordered_set>
#include <ostream>
#include <vector>

using namespace BDD;
using nit = std::vector<node_ref>::iterator;
using sit = std::vector<size_t>::iterator;
using cit = std::vector<char>::iterator;
using vmap = std::unordered_map<size_t,size_t>;
using vset = std::unordered_set<size_t>;

template node_ref bdd_mgr::and_rec<nit>(nit, nit);
template node_ref bdd_mgr::or_rec<nit>(nit, nit);
template node_ref bdd_mgr::xor_rec<nit>(nit, nit);
template node_ref bdd_mgr::rebase<vmap>(node_ref, const vmap&);
template node_ref bdd_mgr::rebase<sit>(node_ref, sit, sit);
template node_ref bdd_mgr::all_false<nit>(nit, nit);
template node_ref bdd_mgr::simplex<nit>(nit, nit);
template node_ref bdd_mgr::at_most_one<nit>(nit, nit);
template node_ref bdd_mgr::at_least_one<nit>(nit, nit);
template node_ref bdd_mgr::at_least<nit>(nit, nit, const size_t);
template node_ref bdd_mgr::at_most<nit>(nit, nit, const size_t);
template node_ref bdd_mgr::cardinality<nit>(nit, nit, const size_t);
template bool node_struct::evaluate<cit>(cit, cit);
template bool node_ref::evaluate<cit>(cit, cit);
template void node_struct::print<std::ostream>(std::ostream&);
template void node_ref::print<std::ostream>(std::ostream&);
template size_t bdd_collection::bdd_and<sit>(sit, sit, const size_t);
template size_t bdd_collection::bdd_or_var<vset>(const size_t, const vset&, const vset&);
template bool bdd_collection::evaluate<cit>(const size_t, cit, cit) const;
template void bdd_collection::rebase<sit>(const size_t, sit, sit);
template void bdd_collection::rebase<vmap>(const size_t, const vmap&);
template void bdd_collection::remove<sit>(sit, sit);
template void bdd_collection_entry::rebase<sit>(sit, sit);
template void bdd_collection_entry::rebase<vmap>(const vmap&);
template void bdd_collection::export_graphviz<std::ostream>(const size_t, std::ostream&) const;

namespace vdriver {
// the overload resolution of ordinary calls
node_ref op_and(node_ref a, node_ref b) { return a & b; }
node_ref op_or(node_ref a, node_ref b) { return a || b; }
node_ref op_xor(node_ref a, node_ref b) { return a ^ b; }
node_ref op_not(node_ref a) { return !a; }
node_ref and2(bdd_mgr& m, node_ref a, node_ref b) { return m.and_rec(a, b); }
node_ref or2(bdd_mgr& m, node_ref a, node_ref b) { return m.or_rec(a, b); }
node_ref xor2(bdd_mgr& m, node_ref a, node_ref b) { return m.xor_rec(a, b); }
node_ref and3(bdd_mgr& m, node_ref a, node_ref b, node_ref c) { return m.and_rec(a, b, c); }
node_ref or3(bdd_mgr& m, node_ref a, node_ref b, node_ref c) { return m.or_rec(a, b, c); }
node_ref xor3(bdd_mgr& m, node_ref a, node_ref b, node_ref c) { return m.xor_rec(a, b, c); }
node_ref and5(bdd_mgr& m, node_ref a, node_ref b, node_ref c, node_ref d, node_ref e) { return m.and_rec(a, b, c, d, e); }
node_ref or5(bdd_mgr& m, node_ref a, node_ref b, node_ref c, node_ref d, node_ref e) { return m.or_rec(a, b, c, d, e); }
node_ref xor5(bdd_mgr& m, node_ref a, node_ref b, node_ref c, node_ref d, node_ref e) { return m.xor_rec(a, b, c, d, e); }
size_t coll_and_size(bdd_collection& c, size_t i, size_t j, size_t l) { return c.bdd_and(i, j, l); }
size_t coll_and_int(bdd_collection& c, int i, int j, size_t l) { return c.bdd_and(i, j, l); }
void entry_rebase(bdd_collection& c, size_t i, sit b, sit e) { c[i].rebase(b, e); }
void entry_rebase_map(bdd_collection& c, size_t i, const vmap& m) { c[i].rebase(m); }
size_t ref_nr_nodes(const node_ref& r) { return r.nr_nodes(); }
bool ref_eos(const node_ref& r) { return r.exactly_one_solution(); }
bool ref_bot(const node_ref& r) { return r.is_botsink(); }
bool ref_top(const node_ref& r) { return r.is_topsink(); }
bool ref_term(const node_ref& r) { return r.is_terminal(); }
node_ref ref_low(node_ref& r) { return r.low(); }
node_ref ref_high(node_ref& r) { return r.high(); }
size_t ref_var(const node_ref& r) { return r.variable(); }
std::vector<size_t> ref_vars(node_ref& r) { return r.variables(); }
bdd_mgr* ref_mgr(node_ref& r) { return r.find_bdd_mgr(); }
bool ref_eq(const node_ref& a, const node_ref& b) { return a == b; }
bool ref_ne(const node_ref& a, const node_ref& b) { return a != b; }
size_t ref_rc(const node_ref& a) { return a.reference_count(); }
void ref_marks(node_ref& r) { if(!r.marked()) r.mark(); r.unmark(); r.unmark_rec(); }
size_t ref_hash(const node_ref& a) { return std::hash<node_ref>()(a); }
size_t cn_hash(const bdd_collection_node& a) { return std::hash<bdd_collection_node>()(a); }
node_ref ref_assign_move(node_ref& a, node_ref&& b) { a = std::move(b); return a; }
node_ref mgr_top(const bdd_mgr& m) { return m.topsink(); }
node_ref mgr_bot(const bdd_mgr& m) { return m.botsink(); }
size_t mgr_nv(const bdd_mgr& m) { return m.nr_variables(); }
size_t mgr_nn(const bdd_mgr& m) { return m.nr_nodes(); }
size_t coll_size(const bdd_collection& c) { return c.size() + c.nr_bdds(); }
auto coll_instr(const bdd_collection& c, size_t i) { return c.get_bdd_instructions(i); }
auto coll_rinstr(const bdd_collection& c, size_t i) { return c.get_reverse_bdd_instructions(i); }
bdd_collection_node cn_low(const bdd_collection_node& n) { return n.low(); }
bdd_collection_node cn_high(const bdd_collection_node& n) { return n.high(); }
bool instr_eq(const bdd_instruction& a, const bdd_instruction& b) { return a == b; }
bool instr_ne(const bdd_instruction& a, const bdd_instruction& b) { return a != b; }
}

// Values of type traits, read from the program by the ownership query.
#include <type_traits>
#define VDRIVER_W(name, ...) extern "C" { extern const bool vdriver_w_##name; [[gnu::used]] const bool vdriver_w_##name = __VA_ARGS__; }
VDRIVER_W(mgr_copy, std::is_copy_constructible_v<BDD::bdd_mgr>)
VDRIVER_W(mgr_assign, std::is_copy_assignable_v<BDD::bdd_mgr>)
VDRIVER_W(mgr_move, std::is_move_constructible_v<BDD::bdd_mgr>)
VDRIVER_W(var_copy, std::is_copy_constructible_v<BDD::var_struct>)
VDRIVER_W(var_assign, std::is_copy_assignable_v<BDD::var_struct>)
VDRIVER_W(cache_copy, std::is_copy_constructible_v<BDD::bdd_node_cache>)
VDRIVER_W(cache_assign, std::is_copy_assignable_v<BDD::bdd_node_cache>)
