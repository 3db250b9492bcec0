#include "log_props.hpp"
VF_MAIN((vf::Check{"P03", lp::explore<lp::P03>, lp::run_case<lp::P03>}))
