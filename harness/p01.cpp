#include "log_props.hpp"
VF_MAIN((vf::Check{"P01", lp::explore<lp::P01>, lp::run_case<lp::P01>}))
