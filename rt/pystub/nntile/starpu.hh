// For the binding harnesses: the low-level wrappers as declared by the repository, but init/restrict/restore of the whole
// library (decided by C22) only record that they were called.
#pragma once
#include <nntile/starpu/config.hh>
namespace nntile { namespace starpu { void init(); void restrict_where(uint32_t where); void restore_where(); } }
