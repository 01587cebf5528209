#include <immintrin.h>
#include <cassert>
#define _mm_set_pi64x(x) _mm_cvtsi64_m64(x)
#include <hot/rowex/HOTRowex.hpp>
#include <idx/contenthelpers/IdentityKeyExtractor.hpp>
using Trie = hot::rowex::HOTRowex<uint64_t, idx::contenthelpers::IdentityKeyExtractor>;
using OptV = idx::contenthelpers::OptionalValue<uint64_t>;
bool vp_insert(Trie &t, uint64_t v) { return t.insert(v); }
OptV vp_upsert(Trie &t, uint64_t v) { return t.upsert(v); }
OptV vp_lookup(Trie &t, uint64_t v) { return t.lookup(v); }
OptV vp_scan(Trie &t, uint64_t v, size_t n) { return t.scan(v, n); }
Trie::const_iterator vp_find(Trie &t, uint64_t v) { return t.find(v); }
Trie::const_iterator vp_begin(Trie &t) { return t.begin(); }
Trie::const_iterator vp_lower(Trie &t, uint64_t v) { return t.lower_bound(v); }
Trie::const_iterator vp_upper(Trie &t, uint64_t v) { return t.upper_bound(v); }
void vp_next(const Trie::const_iterator &i0) { Trie::const_iterator i(i0); ++i; }
