// Each line marked REJECTED has to be rejected, and no other.
#include <openscenario_interpreter/type_traits/requires.hpp>
#include <openscenario_interpreter/utility/assertion_auxiliary.hpp>

struct Needs { explicit Needs(int); };
struct Deleted { Deleted() = delete; };
class Hidden { Hidden() = default; };
struct Default {};
ASSERT_IS_OPTIONAL_ELEMENT(Default);
ASSERT_IS_OPTIONAL_ELEMENT(int);
ASSERT_IS_OPTIONAL_ELEMENT(Needs);  // REJECTED an optional element that needs an argument
ASSERT_IS_OPTIONAL_ELEMENT(Deleted);  // REJECTED an optional element whose default constructor is deleted
ASSERT_IS_OPTIONAL_ELEMENT(Hidden);  // REJECTED an optional element whose default constructor is private
