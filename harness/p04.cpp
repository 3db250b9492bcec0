#include "log_props.hpp"
VF_MAIN((vf::Check{"P04", lp::explore<lp::P04>, lp::run_case<lp::P04>}))
