prop = 'C17'
needs = 'an option whose value contains a second "="'
breaks = 'the command line is split at the last "=" instead of the first: key and value of such options are wrong'
edits = [('app_config.hpp', "arg.find('=');", "arg.rfind('=');")]
cpp = r'''
#include <iostream>
#include "app_config.hpp"
int main()
{
    const char* argv[] = {"mara", "run_name=a=b"};
    auto m = mara::argv_to_string_map(2, argv);
    return m.count("run_name") && m.at("run_name") == "a=b" ? 0 : 1;
}
'''
