#pragma once
#include <dynamix/v1compat/domain.hpp>
#include <dynamix/v1compat/mutation_rule.hpp>
#include <dynamix/v1compat/common_mutation_rules.hpp>
namespace v1 = dynamix::v1compat;
