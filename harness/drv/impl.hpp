#pragma once
#include "expression/placeholder_impl.hpp"
#include "expression/call_impl.hpp"
