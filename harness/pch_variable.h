#include <algorithm>
#include <functional>
#include <map>
#include <memory>
#include <numeric>
#include <optional>
#include <string>
#include <tuple>
#include <unordered_map>
#include <vector>
#include <Eigen/Dense>
#include <boost/container/small_vector.hpp>
#include "scipp/variable/variable.h"
#include "scipp/variable/transform.h"
