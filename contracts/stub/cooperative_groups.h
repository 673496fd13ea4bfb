// contract of CUDA's cooperative groups: a thread has a rank below the number of threads of its group
#pragma once
namespace cooperative_groups {
struct thread_block {
	static unsigned thread_rank() { return (unsigned)vg_get(56); }
	static unsigned num_threads() { return (unsigned)vg_get(57); }
};
struct grid_group {
	static unsigned long long thread_rank() { return vg_get(58); }
	static unsigned long long num_threads() { return vg_get(59); }
};
} // namespace cooperative_groups
