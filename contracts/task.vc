@module task src/task.rs
@subst current_num_threads => vx_num_threads
@subst std::cmp::max => vx_max
@spec
use crate::shim::*;
broadcast use crate::shim::group_vx;
@fn par_chunk_size
@contract
    requires f > 0
    ensures r > 0
