#pragma once
#include <crab/domains/abstract_domain.hpp>
