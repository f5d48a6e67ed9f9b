PROP="P23"
EDITS=[("src/g3log/loglevels.hpp","""      return (value != rhs.value || text != rhs.text);""","""      return (value != rhs.value && text != rhs.text);""")]
NEEDS="Comparing two levels that differ in only one of value and text."
BREAKS="operator!= is no longer the opposite of operator==: levels that differ in value or text only are reported as not different."
DEMO=r'''
#include <g3log/loglevels.hpp>
#include <cstdio>
int main() {
   LEVELS a{1, "A"}, b{1, "B"}, c{2, "A"}, d{1, "A"};
   bool ok = a != b && a != c && !(a != d) && !(a == b) && !(a == c) && a == d;
   printf("%s\n", ok ? "consistent" : "inconsistent");
   return ok ? 0 : 1;
}
'''
