// Move assignment from an own descendant (run with -fsanitize=address).
#include <cstdio>
#include "rst/value/value.h"
int main() {
  rst::Value v(rst::Value::Type::kObject);
  v.SetKey("a", rst::Value("0123456789012345678901234567890123456789"));
  const auto a = v.FindKey("a");
  if (a == nullptr)
    return 2;
  v = std::move(*a);
  return v.IsString() && v.GetString().size() == 40 ? 0 : 1;
}
