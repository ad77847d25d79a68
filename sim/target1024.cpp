#include "target_impl.hpp"
const Api* const api1024 = &T_<1024>::api;
