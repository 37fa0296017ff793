#include <filesystem>
#include <string>
#include <unordered_map>
#include <vector>
#include <simple_junit/junit5.hpp>
#include <simple_junit/test_suites.hpp>

namespace probe
{
void write(const common::JUnit5 & report, const char * path) { report.write_to(path, "  "); }

void suite(common::JUnit5 & report, const std::string & name) { report.testsuite(name); }

void testcase(common::SimpleTestSuite & suite, const std::string & name) { suite.testcase(name); }

void legacy(junit::TestSuites & suites, const std::string & suite_name, const std::string & case_name)
{
  suites.addTestCase(suite_name, case_name, 0.5, junit::TestResult::SUCCESS, "text");
}
}  // namespace probe
